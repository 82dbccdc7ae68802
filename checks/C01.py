"""C01: both pushers integrate the relativistic Lorentz equation of motion."""
import numpy as np
import scipy.constants as ct
from hypothesis import strategies as st
from vp import lists, Registry, check, close, d, fl, logfl, same
from refs import (SPECIES, bunch_case, make_bunch, state, poly_field,
                  poly_coeffs, py_field, ref_push, no_field, lorentz_rhs,
                  close_state)

R = Registry()
pushers = st.sampled_from(['boris', 'rk4'])


@R.part('scheme', d(bunch=bunch_case(6, many=6000), coef=poly_coeffs, pusher=pushers,
                    dt=logfl(1e-16, 3e-13), t=fl(0., 1e-11),
                    n=st.integers(1, 4)),
        quick=1500, thorough=20000,
        rule='random species/particles in a field polynomial in x, y, xi, t '
             'for every component, 1-4 pushes vs. an independent array '
             'implementation of the scheme; non-trivial: the momentum changed')
def scheme(c, ctx):
    b = make_bunch(c['bunch'])
    q, m = SPECIES[c['bunch']['species']]
    f = poly_field(c['coef'])
    s = state(b)
    s0 = s.copy()
    t, dt = c['t'], c['dt']
    for i in range(c['n']):
        b.evolve([py_field(f)], t, dt, pusher=c['pusher'])
        s = ref_push(c['pusher'], s, t, dt, q / m, f)
        t += dt
    if not np.all(np.isfinite(s)):
        return
    close_state(state(b), s, f"{c['pusher']} push", dt=dt * c['n'])
    close(b.prop_distance, c['n'] * dt * ct.c, 1e-12, 0, 'prop_distance')
    ctx.label(c['pusher'], c['bunch']['species'], f"n={c['n']}")
    ctx.nontrivial(np.any(s[3:] != s0[3:]))


@R.part('convergence', d(bunch=bunch_case(2, pz=(3., 1e4)), coef=poly_coeffs,
                         pusher=pushers, steps=st.integers(6, 12)),
        quick=180, thorough=1500,
        rule='same ODE solved by scipy DOP853 at 1e-11; the error of the '
             'pusher must shrink with its formal order (2 or 4) when the step '
             'is halved; non-trivial: error is above rounding')
def convergence(c, ctx):
    from scipy.integrate import solve_ivp
    q, m = SPECIES[c['bunch']['species']]
    f = poly_field(c['coef'])
    b0 = make_bunch(c['bunch'])
    g = np.sqrt(1 + np.sum(state(b0)[3:]**2, axis=0))
    # Time in which the field turns/accelerates the particle appreciably.
    F = 1e-10 + np.max(np.abs(f(b0.x, b0.y, b0.xi, 0.)), axis=1)
    acc = abs(q / m) * (np.max(F[:3]) / ct.c / np.min(g)
                        + np.max(F[3:]) / np.min(g)) + 1e8
    T = min(0.3 / acc, 2e-13)
    s0 = state(b0)
    sc = np.array([1e-5, 1e-5, 1e-5, g.max(), g.max(), g.max()])
    n = s0.shape[1]

    def rhs(t, y):
        return lorentz_rhs(y.reshape(6, n), t, q / m, f).ravel()
    sol = solve_ivp(rhs, (0, T), s0.ravel(), method='DOP853', rtol=1e-12,
                    atol=1e-15 * np.repeat(sc, n))
    exact = sol.y[:, -1].reshape(6, n)

    def err(N):
        b = make_bunch(c['bunch'])
        fld = py_field(f)
        for i in range(N):
            b.evolve([fld], i * T / N, T / N, pusher=c['pusher'])
        return np.max(np.abs(state(b) - exact) / sc[:, None], axis=1)
    N = c['steps']
    e1, e2 = err(N), err(4 * N)
    order = 2 if c['pusher'] == 'boris' else 4
    # e2 should be about e1 / 4**order; require at least 4**(order-1).
    ok = e2 <= e1 / 4**(order - 0.9) + 3e-10
    check(np.all(ok), f"{c['pusher']}: error {e1} with {N} steps only falls "
          f"to {e2} with {4 * N} steps (order {order} expected)")
    check(np.all(e1 < 0.2 / N), f"{c['pusher']}: error {e1} relative to the "
          f"exact solution is too large for {N} steps")
    ctx.label(c['pusher'])
    ctx.nontrivial(np.any(e1 > 1e-8))


@R.part('invariants', d(bunch=bunch_case(5, pz=(0.05, 1e5), many=3000),
                        B=lists(fl(-50, 50), min_size=3, max_size=3),
                        E=lists(fl(-5, 5), min_size=3, max_size=3),
                        pusher=pushers, dt=logfl(1e-16, 1e-13),
                        n=st.integers(1, 12)),
        quick=1200, thorough=10000,
        rule='uniform E only: momentum gains q E t/(m c) exactly; uniform B '
             'only: |p| (energy) conserved and p.B conserved; no field: '
             'ballistic to rounding; non-trivial: n>=2 and non-zero fields')
def invariants(c, ctx):
    q, m = SPECIES[c['bunch']['species']]
    dt, n = c['dt'], c['n']
    B = np.array(c['B'])
    E = np.array(c['E']) * 1e9
    b = make_bunch(c['bunch'])
    s0 = state(b)
    g0 = np.sqrt(1 + np.sum(s0[3:]**2, axis=0))
    pm = float(np.max(g0))
    # No fields: straight lines.
    for i in range(n):
        b.evolve([], i * dt, dt, pusher=c['pusher'])
    v = s0[3:] / g0 * ct.c
    exp = s0.copy()
    exp[:3] += v * n * dt
    exp[2] -= ct.c * n * dt
    close_state(state(b), exp, 'no field: ballistic', dt=dt * n * 10)
    same(state(b)[3:], s0[3:], 'no field: momentum')
    # Uniform E.
    b = make_bunch(c['bunch'])

    def fe(x, y, z, t):
        return np.outer(np.concatenate([E, 0 * B]), np.ones_like(x))
    for i in range(n):
        b.evolve([py_field(fe)], i * dt, dt, pusher=c['pusher'])
    dp = q * E / (m * ct.c) * n * dt
    close(state(b)[3:], s0[3:] + dp[:, None], 1e-10,
          1e-11 * (pm + np.abs(dp).max()), 'uniform E: momentum gain')
    # Uniform B.
    b = make_bunch(c['bunch'])

    def fb(x, y, z, t):
        return np.outer(np.concatenate([0 * E, B]), np.ones_like(x))
    for i in range(n):
        b.evolve([py_field(fb)], i * dt, dt, pusher=c['pusher'])
    p1 = state(b)[3:]
    ang = np.max(abs(q / m) * np.linalg.norm(B) / g0) * dt
    tol = 1e-11 if c['pusher'] == 'boris' else 1e-11 + n * ang**5
    close(np.sum(p1**2, axis=0)**.5, np.sum(s0[3:]**2, axis=0)**.5, tol,
          1e-12 * pm, 'uniform B: |p|')
    close(B @ p1, B @ s0[3:], tol, 1e-10 * pm * (np.linalg.norm(B) + 1e-30),
          'uniform B: p parallel to B')
    ctx.label(c['pusher'])
    ctx.nontrivial(n > 1 and np.any(B != 0) and np.any(E != 0))


@R.part('injection', d(bunch=bunch_case(5, many=2000), coef=poly_coeffs, pusher=pushers,
                       dt=logfl(1e-15, 2e-13), n=st.integers(2, 10),
                       frac=fl(-0.5, 1.5), origin=st.booleans()),
        quick=750, thorough=6000,
        rule='bunch with an injection plane somewhere along (or outside) the '
             'path; model: no force while the most advanced particle is '
             'before it, full force afterwards; non-trivial: switches '
             'half-way')
def injection(c, ctx):
    q, m = SPECIES[c['bunch']['species']]
    f = poly_field(c['coef'])
    dt, n = c['dt'], c['n']
    b = make_bunch(c['bunch'])
    z_inj = float(np.max(b.xi)) + c['frac'] * n * dt * ct.c
    z = 0.
    if c['origin']:
        # plane exactly at the origin, bunch starting accordingly
        z, z_inj = -z_inj, 0.
        b.prop_distance = z
    b.z_injection = z_inj
    scale = abs(z) + abs(z_inj) + n * dt * ct.c
    s = state(b)
    on = []
    for i in range(n):
        lead = np.max(s[2]) + z
        if abs(lead - z_inj) < 1e-9 * scale:
            return      # too close to the plane to call
        before = lead < z_inj
        on.append(not before)
        b.evolve([py_field(f)], i * dt, dt, pusher=c['pusher'])
        s = ref_push(c['pusher'], s, i * dt, dt, q / m,
                     no_field if before else f)
        z += dt * ct.c
    if not np.all(np.isfinite(s)):
        return
    close_state(state(b), s, 'push around injection plane', dt=dt * n)
    ctx.label(c['pusher'], 'switch' if len(set(on)) == 2 else str(on[0]))
    ctx.nontrivial(len(set(on)) == 2)
