"""C08: transfer maps against the exact equations of motion to their order."""
import numpy as np
from hypothesis import strategies as st
from vp import Registry, check, close, same, d, fl, logfl, seeds, rng
from refs import bunch_case, make_bunch, state
import tmref

R = Registry()
J = np.array([[0., 1.], [-1., 0.]])
# (tau, delta) is an anti-canonical pair: tau grows with the path length
JJ = np.kron(np.diag([1., 1., -1.]), J)
signed = st.one_of(st.just(0.), logfl(0.03, 6.), logfl(0.03, 6.).map(
    lambda v: -v))
# Normalised strengths: k1*L^2 and theta; degenerate combinations (total
# focusing that nearly cancels) are excluded, see DESIGN.md.
element = d(L=logfl(1e-2, 5.), theta=st.one_of(
    st.just(0.), fl(0.01, 1.2), fl(-1.2, -0.01)), kl=signed,
    k2l=st.one_of(st.just(0.), fl(-50, 50)), g=logfl(3., 1e5),
    frac=st.one_of(st.just(1.), fl(0.05, 1.)))


def degenerate(theta, kl):
    kx2, ky2 = kl + theta**2, -kl
    vals = [1.]
    if kl != 0:
        vals.append(ky2)
    if kl != 0 or theta != 0:
        vals += [kx2, kx2 - 4 * ky2]
    return min(abs(v) for v in vals)


@R.part('maps', element, quick=4500, thorough=40000,
        rule='first- and second-order matrices of a length z of an element '
             'equal the exponential of the exact generator (entrywise); '
             'symplecticity, unit determinant, composition; non-trivial: '
             'dipole, quadrupole or sextupole strength present')
def matrices(c, ctx):
    from wake_t.physics_models.beam_optics.transfer_matrices import (
        first_order_matrix, second_order_matrix)
    L, th, g = c['L'], c['theta'], c['g']
    k1, k2 = c['kl'] / L**2, c['k2l'] / L**3
    x = degenerate(th, c['kl'])
    if x < 1e-4 or (c['kl'] != 0 and x < 5e-3):
        ctx.label('degenerate (skipped)')
        return
    z = c['frac'] * L
    x = min(1., x * c['frac']**2)
    Rr, Tr = tmref.maps(z, th / L, k1, k2, g)
    R1 = first_order_matrix(z, L, th, k1, g)
    T1 = second_order_matrix(z, L, th, k1, k2, g)
    u = np.array([L, 1, L, 1, L, 1])      # natural units
    what = f'(theta={th}, k1={k1}, k2={k2}, L={L}, z={z}, gamma={g})'
    n = lambda M: M / u[:, None] * u
    big = max(1., np.abs(n(Rr)).max())
    close(n(R1), n(Rr), 1e-11, 1e-12 * big, 'first-order map ' + what)
    R1n = n(R1)
    close(R1n.T @ JJ @ R1n, JJ, 0, 1e-11 * big**2,
          'first-order map is not symplectic ' + what)
    Ra = first_order_matrix(z * 0.37, L, th, k1, g)
    Rb = first_order_matrix(z * 0.63, L, th, k1, g)
    close(n(Ra @ Rb), R1n, 1e-10, 1e-11 * big, 'composition ' + what)
    f = lambda T: tmref.fold(T) * u[:, None] * u / u[:, None, None]
    E, G = f(Tr), f(T1)
    tol = 3e-15 / x**2 * (1 + (k1 != 0) / x) * big**2
    # Some aberrations vanish with the curvature: entry by entry, with the
    # rounding of the closed formulas as floor.
    err = np.abs(E - G)
    lim = 1e-7 * np.abs(E) + tol * np.abs(E).max() + 1e-13
    if np.any(err > lim):
        i = np.unravel_index(np.argmax(err - lim), err.shape)
        check(False, 'second-order map T{}{}{} = {}, expected {} {}',
              i[0] + 1, i[1] + 1, i[2] + 1, G[i], E[i], what)
    ctx.nontrivial(th != 0 or k1 != 0 or k2 != 0)
    ctx.label('+'.join([n for n, v in (('bend', th), ('k1', k1), ('k2', k2))
                        if v]) or 'drift')


@R.part('track', d(
    kind=st.sampled_from(['drift', 'dipole', 'quad', 'sext', 'general']),
    e=element, order=st.integers(1, 2),
    n_out=st.one_of(st.none(), st.integers(1, 4)), init=st.booleans(),
    bunch=bunch_case(5, size=2e-3, xi=(-2e-3, 2e-3), pz=(0.97, 1.03),
                     ang=5e-3, many=3000), g_given=st.booleans(),
    th0=st.one_of(st.just(0.), fl(-0.3, 0.3)), x0=fl(-0.1, 0.1)),
    quick=3600, thorough=30000,
    rule='bunches tracked through Drift, Dipole, Quadrupole, Sextupole and '
         'TMElement: every output equals the reference map in the laboratory '
         'frame, the reference particle stays on the orbit, weights are '
         'untouched; non-trivial: not a drift')
def track(c, ctx):
    from wake_t import Drift, Dipole, Quadrupole, Sextupole
    from wake_t.beamline_elements import TMElement
    from wake_t.physics_models.collective_effects.csr import (
        reset_csr_calculator)
    reset_csr_calculator()
    e = c['e']
    L = e['L']
    th, k1, k2 = e['theta'], e['kl'] / L**2, e['k2l'] / L**3
    g0 = max(e['g'], 30.)
    kw = dict(n_out=c['n_out'], order=c['order'],
              gamma_ref=g0 if c['g_given'] else None)
    if c['kind'] == 'drift':
        th = k1 = k2 = 0.
        el = Drift(L, **kw)
    elif c['kind'] == 'dipole':
        k1 = k2 = 0.
        el = Dipole(L, th, **kw)
    elif c['kind'] == 'quad':
        th = k2 = 0.
        el = Quadrupole(L, k1, **kw)
    elif c['kind'] == 'sext':
        th = k1 = 0.
        el = Sextupole(L, k2, **kw)
    else:
        el = TMElement(L, th, k1, k2, **kw)
    n = c['n_out'] or 1
    x = degenerate(th, k1 * L**2) / n**2
    if x < 2e-5 or (k1 != 0 and x < 1e-3):
        ctx.label('degenerate (skipped)')
        return
    b = make_bunch(c['bunch'])
    for k in ('px', 'py', 'pz'):
        setattr(b, k, getattr(b, k) * g0)
    # enter along the reference orbit
    s = tmref.rotate(state(b), c['th0'], c['x0'])
    b.set_phase_space(*s)
    b.theta_ref, b.x_ref = c['th0'], c['x0']
    b.prop_distance = 0.25
    w = b.w.copy()
    if c['g_given']:
        g = g0
    else:
        g = np.average(np.sqrt(1 + s[3]**2 + s[4]**2 + s[5]**2), weights=w)
    exp = tmref.ref_element(s, L, L, th, k1, k2, g, c['order'], n, c['th0'],
                            c['x0'])
    # Map applicable only if momenta stay physical.
    if not all(np.all(np.isfinite(o[0])) for o in exp) or any(
            np.abs(o[0][:2]).max() > 1 for o in exp):
        ctx.label('unphysical (skipped)')
        return
    outs = el.track(b, out_initial=c['init'], show_progress_bar=False)
    if c['n_out'] is None:
        check(len(outs) == (1 if c['init'] else 0), 'outputs returned: {}',
              len(outs))
    else:
        check(len(outs) == n + c['init'], 'outputs returned: {}', len(outs))
        for i, o in enumerate(outs[1:] if c['init'] else outs):
            compare(o, exp[i], 0.25 + L * (i + 1) / n, w, f'output {i + 1}/{n}',
                    L, x, g, k1 != 0)
    if c['init']:
        compare(outs[0], (s, c['th0'], c['x0']), 0.25, w, 'initial output', L,
                1., g, False)
    compare(b, exp[-1], 0.25 + L, w, 'bunch after the element', L, x, g,
            k1 != 0)
    ctx.nontrivial(c['kind'] != 'drift')
    ctx.label(c['kind'], f'order {c["order"]}',
              'gamma_ref' if c['g_given'] else 'mean gamma')


def compare(b, e, dist, w, what, L, x, g, combined=True):
    got = state(b)
    tol = 1e-10 + 1e-14 / x**2 * (1 + 0.4 * combined / x)
    for k, nm in enumerate(('x', 'y', 'xi', 'px', 'py', 'pz')):
        at = tol * 1e-3 * max(1, L) if k < 3 else tol * 1e-2 * g
        close(got[k], e[0][k], 1e-9, at, f'{nm} of {what}')
    same(b.w, w, f'weights of {what}')
    close(b.prop_distance, dist, 1e-12, 0, f'prop_distance of {what}')
    close(b.theta_ref, e[1], 1e-12, 1e-13, f'theta_ref of {what}')
    close(b.x_ref, e[2], 1e-10, 1e-12, f'x_ref of {what}')


@R.part('orbit', d(e=element, order=st.integers(1, 2), th0=fl(-0.5, 0.5),
                   n_out=st.one_of(st.none(), st.integers(1, 5)),
                   xi=fl(-1e-3, 1e-3)),
        quick=900, thorough=5000,
        rule='a particle with the reference momentum on the reference orbit '
             'leaves any element on the reference orbit; non-trivial: bend')
def orbit(c, ctx):
    from wake_t import ParticleBunch
    from wake_t.beamline_elements import TMElement
    e = c['e']
    if degenerate(e['theta'], e['kl']) < 1e-4:
        return
    L = e['L']
    g = e['g']
    p = np.sqrt(g**2 - 1)
    s = tmref.rotate(np.array([[0.], [0.], [0.], [0.], [0.], [p]]), c['th0'])
    b = ParticleBunch(np.array([1e6]), *s, name='b')
    b.theta_ref = c['th0']
    TMElement(L, e['theta'], e['kl'] / L**2, e['k2l'] / L**3, gamma_ref=g,
              n_out=c['n_out'], order=c['order']).track(
                  b, show_progress_bar=False)
    th = c['th0'] + e['theta']
    close(b.theta_ref, th, 1e-12, 1e-13, 'angle of the reference orbit')
    close(b.px, [p * np.sin(th)], 0, 1e-9 * p, 'px on the reference orbit')
    close(b.py, [0.], 0, 1e-12 * p, 'py on the reference orbit')
    close(b.pz, [p * np.cos(th)], 0, 1e-9 * p, 'pz on the reference orbit')
    close(b.x, [b.x_ref], 1e-12, 1e-9 * L, 'x on the reference orbit')
    close(b.y, [0.], 0, 1e-12, 'y on the reference orbit')
    # transverse position from geometry: integral of sin(angle) ds
    sgrid = (np.arange(2000) + 0.5) / 2000
    geo = np.mean(np.sin(c['th0'] + e['theta'] * sgrid)) * L
    close(b.x_ref, geo, 1e-6, 1e-7 * L, 'transverse offset of the orbit')
    ctx.nontrivial(e['theta'] != 0)
