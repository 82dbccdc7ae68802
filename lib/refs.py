"""Shared helpers: bunch builders, recording fields, reference integrators.

Nothing here calls the routine it is an oracle for.
"""
import numpy as np
import scipy.constants as ct
from hypothesis import strategies as st
from vp import lists, sizes, d, fl, logfl, seeds, rng

SPECIES = {
    'electron': (-ct.e, ct.m_e),
    'positron': (ct.e, ct.m_e),
    'proton': (ct.e, ct.m_p),
    'muon': (-ct.e, 206.768 * ct.m_e),
    'ion': (3 * ct.e, 7 * ct.m_p),
}
species = st.sampled_from(sorted(SPECIES))


def bunch_case(nmax=8, size=1e-5, pz=(1., 2e4), xi=(-5e-5, 5e-5), spec=None,
               ang=0.05, many=0):
    """Small explicit bunches (each coordinate individually shrinkable);
    now and then with up to `many` further particles in between."""
    part = d(x=fl(-size, size), y=fl(-size, size), xi=fl(*xi),
             ux=fl(-ang, ang), uy=fl(-ang, ang), pz=logfl(*pz),
             w=logfl(1e2, 1e8))
    return d(parts=lists(part, min_size=1, max_size=nmax),
             species=spec if spec is not None else species,
             **(dict(more=sizes(0, 0, many), seed=seeds) if many else {}))


def make_bunch(c, name='bunch', **kw):
    from wake_t.particles.particle_bunch import ParticleBunch
    p = c['parts']
    q, m = SPECIES[c['species']]
    a = {k: np.array([i[k] for i in p], dtype=float) for k in
         ('x', 'y', 'xi', 'pz', 'w', 'ux', 'uy')}
    n = c.get('more', 0)
    if n:
        g = rng(c['seed'])
        for k, v in a.items():
            e = v[g.randint(len(v), size=n)] * g.uniform(0, 1, n)
            if k in ('pz', 'w'):
                e = g.uniform(v.min(), v.max() * (1 + 1e-9), n)
            a[k] = np.concatenate([e, v])
    return ParticleBunch(
        w=a['w'], x=a['x'], y=a['y'], xi=a['xi'], px=a['ux'] * a['pz'],
        py=a['uy'] * a['pz'], pz=a['pz'], name=name, q_species=q,
        m_species=m, **kw)


def state(b):
    return np.array([b.x, b.y, b.xi, b.px, b.py, b.pz], dtype=float)


COORDS = ('x', 'y', 'xi', 'px', 'py', 'pz')


def poly_field(co):
    """E and B as low-order polynomials of position and time.

    co: 6 lists of 7 coefficients (const, x, y, xi, t, x*y, xi*t), in units of
    1e5 1/m and 1e12 1/s so that every term matters.
    """
    co = np.asarray(co, dtype=float)

    def f(x, y, z, t):
        X, Y, Z, T = x * 1e5, y * 1e5, z * 2e4, t * 1e12
        one = np.ones_like(x)
        basis = np.array([one, X, Y, Z, T * one, X * Y, Z * T])
        out = co @ basis
        out[:3] *= 1e9      # V/m
        out[3:] *= 1.       # T
        return out
    return f


poly_coeffs = lists(lists(fl(-2, 2), min_size=7, max_size=7),
                       min_size=6, max_size=6)


def py_field(func, log=None):
    """A Field whose components are given by a Python function."""
    from wake_t.fields.base import Field

    class PyField(Field):
        def _gather(self, x, y, z, t, ex, ey, ez, bx, by, bz):
            if log is not None:
                log.append((float(t), np.array(x), np.array(y), np.array(z)))
            e = func(np.asarray(x), np.asarray(y), np.asarray(z), t)
            ex += e[0]
            ey += e[1]
            ez += e[2]
            bx += e[3]
            by += e[4]
            bz += e[5]
    return PyField()


def lorentz_rhs(s, t, qm, f):
    """d(x, y, xi, px, py, pz)/dt, p in units of m c."""
    p = s[3:]
    g = np.sqrt(1 + np.sum(p**2, axis=0))
    v = p * ct.c / g
    F = f(s[0], s[1], s[2], t)
    E, B = F[:3], F[3:]
    out = np.empty_like(s)
    out[:3] = v
    out[2] -= ct.c
    out[3:] = qm / ct.c * (E + np.cross(v, B, axis=0))
    return out


def ref_rk4(s, t, dt, qm, f):
    k1 = lorentz_rhs(s, t, qm, f)
    k2 = lorentz_rhs(s + dt / 2 * k1, t + dt / 2, qm, f)
    k3 = lorentz_rhs(s + dt / 2 * k2, t + dt / 2, qm, f)
    k4 = lorentz_rhs(s + dt * k3, t + dt, qm, f)
    return s + dt * (k1 + 2 * k2 + 2 * k3 + k4) / 6


def _drift(s, dt):
    g = np.sqrt(1 + np.sum(s[3:]**2, axis=0))
    s = s.copy()
    v = s[3:] * ct.c / g
    s[0] += v[0] * dt
    s[1] += v[1] * dt
    s[2] += (v[2] - ct.c) * dt
    return s


def ref_boris(s, t, dt, qm, f):
    """Drift half, kick (half E, exact-form Boris rotation, half E), drift."""
    s = _drift(s, dt / 2)
    F = f(s[0], s[1], s[2], t + dt / 2)
    E, B = F[:3], F[3:]
    h = qm * dt / (2 * ct.c)
    u = s[3:] + h * E
    g = np.sqrt(1 + np.sum(u**2, axis=0))
    T = h * ct.c * B / g
    up = u + np.cross(u, T, axis=0)
    u = u + np.cross(up, 2 * T / (1 + np.sum(T**2, axis=0)), axis=0)
    s[3:] = u + h * E
    return _drift(s, dt / 2)


def ref_push(pusher, *a):
    return ref_rk4(*a) if pusher == 'rk4' else ref_boris(*a)


def no_field(x, y, z, t):
    return np.zeros((6, len(x)))


def close_state(got, exp, what, rtol=1e-9, atol_x=1e-16, dt=0.):
    """Compare 6-row states coordinate by coordinate.

    xi is a small difference of c*dt-sized terms: allow for its rounding.
    """
    from vp import close
    for i, n in enumerate(COORDS):
        if i < 3:
            at = atol_x + 1e-14 * ct.c * abs(dt)
        else:
            at = 1e-12 * max(1., float(np.max(np.abs(exp[3:]))))
        close(got[i], exp[i], rtol, at, f'{what}: {n}')
