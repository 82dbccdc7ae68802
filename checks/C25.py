"""C25: plasma lenses and field quadrupoles focus as specified."""
import numpy as np
import scipy.constants as ct
from hypothesis import strategies as st
from vp import sizes, Registry, check, close, same, d, fl, logfl, seeds, rng
from refs import SPECIES, state, ref_push
from sims import GRID

R = Registry()
TOL = 6e-3
ENV = {'WAKET_DISABLE_CACHING': '0', 'NUMBA_CACHE_DIR': 'numba_cache'}
strength = st.one_of(st.just(0.), logfl(1e-4, 1e5),
                     logfl(1e-4, 1e5).map(lambda x: -x))
lens = d(kind=st.sampled_from(['lens', 'quad']), k=strength,
         L=logfl(1e-4, .5), species=st.sampled_from(sorted(SPECIES)),
         pz=logfl(20., 2e4), n=sizes(1, 6, 3000, 15), seed=seeds,
         pusher=st.sampled_from(['boris', 'rk4']))


def particles(c, ang=1e-3, size=1e-5):
    g = rng(c['seed'])
    u = g.normal(size=(6, c['n']))
    pz = c['pz'] * (1 + .03 * np.tanh(u[5]))
    return np.array([size * u[0], size * u[1], 1e-5 * u[2], ang * u[3] * pz,
                     ang * u[4] * pz, pz])


def bunch(c, s):
    from wake_t import ParticleBunch
    q, m = SPECIES[c['species']]
    return ParticleBunch(np.ones(s.shape[1]), *s.copy(), q_species=q,
                         m_species=m, name='b')


def element(c, **kw):
    from wake_t import ActivePlasmaLens
    from wake_t.beamline_elements import FieldQuadrupole
    kw = dict(dict(bunch_pusher=c['pusher']), **kw)
    if c['kind'] == 'lens':
        return ActivePlasmaLens(c['L'], c['k'], **kw)
    return FieldQuadrupole(c['L'], c['k'], **kw)


def reference(c):
    """Magnetic field; positive strength focuses electrons (in x)."""
    k = c['k']
    sy = 1. if c['kind'] == 'lens' else -1.

    def f(x, y, z, t):
        o = np.zeros((6, len(x)))
        o[4] = -k * x
        o[3] = sy * k * y
        return o
    return f


def w_max(c, s):
    q, m = SPECIES[c['species']]
    g = np.sqrt(1 + np.min(s[5])**2)
    return np.sqrt(abs(q / m * ct.c * c['k'] / g))


@R.part('scheme', d(c=lens, N=st.integers(1, 8)), quick=900, thorough=8000,
        env=ENV, rule='tracked particles against pushes of the reference '
        'scheme in the ideal field of the gradient; non-trivial: deflection '
        'in both planes')
def scheme(c, ctx):
    N = c['N']
    c = c['c']
    s = particles(c, ang=3e-2, size=1e-3)
    b = bunch(c, s)
    dt = c['L'] / ct.c / N
    f = reference(c)
    q, m = SPECIES[c['species']]
    e = s.copy()
    for k in range(N):
        e = ref_push(c['pusher'], e, 0., dt, q / m, f)
    if not np.all(np.isfinite(e)) or np.max(np.abs(e[:2])) > 1. or np.max(
            np.abs(e[3:5] / e[5])) > 1 or np.min(e[5]) < 1:
        ctx.label('unphysical (skipped)')
        return
    el = element(c, dt_bunch=dt, n_out=1)
    el.track(b, show_progress_bar=False)
    ch = np.max(np.abs(e - s), axis=1)
    got = state(b)
    for k in range(6):
        close(got[k], e[k], 1e-9, 1e-5 * ch[k] + (1e-13 if k < 3 else
                                                  1e-12 * c['pz']),
              'x y xi px py pz'.split()[k] + ' after the ' + c['kind'])
    # purely magnetic: no energy change with the Boris pusher
    if c['pusher'] == 'boris':
        close(np.sum(got[3:]**2, axis=0), np.sum(s[3:]**2, axis=0), 1e-9, 0,
              'energy')
    # positive strength focuses electrons
    kick = got[3] - s[3]
    if N == 1 and abs(c['k']) > 0 and q < 0 and c['k'] * c['L'] > 0:
        sel = np.abs(s[0]) > 10 * np.abs(s[3] / s[5]) * c['L']
        check(np.all(kick[sel] * s[0][sel] <= 1e-9 * c['pz'] * 1e-3),
              'positive strength defocuses electrons')
    ctx.label(c['kind'], c['species'])
    ctx.nontrivial(np.max(np.abs(kick)) > 1e-6 * c['pz'])


@R.part('thick', d(c=lens, phase=logfl(.02, 4.), n_out=st.integers(1, 4),
                   mix=st.one_of(st.just(1.), logfl(1.1, 20.))),
        quick=600, thorough=5000, env=ENV,
        rule='paraxial particles with automatic time steps against the thick-'
             'lens solution at every output; non-trivial: phase advance > '
             '0.3')
def thick(c, ctx):
    n_out = c['n_out']
    ph = c['phase']
    mix = c['mix']
    c = dict(c['c'])
    q, m = SPECIES[c['species']]
    if c['k'] == 0:
        c['k'] = 10.
    # choose the length for a phase advance
    K = abs(q) * abs(c['k']) / (c['pz'] * m * ct.c)
    L = ph / np.sqrt(K)
    if not 1e-4 < L < 50:
        return
    c['L'] = L
    s = particles(c, ang=1e-7 * ph, size=1e-7 * L)
    s[5] = c['pz'] * (1 + 1e-3 * np.sin(np.arange(c['n'])))
    s[3:, 1::2] *= mix        # particles of higher energy
    b = bunch(c, s)
    outs = element(c, n_out=n_out).track(b, show_progress_bar=False)
    check(len(outs) == n_out + 1, '{} outputs', len(outs))
    # sign of the force -q c k x: focusing for negative charges
    kx = np.sign(-q) * np.sign(c['k'])
    ky = kx if c['kind'] == 'lens' else -kx
    sc = 1e-7 * L * np.cosh(ph)
    p = np.sqrt(np.sum(s[3:]**2, axis=0))
    kk = np.sqrt(abs(q * c['k']) / (p * m * ct.c))
    for i, o in enumerate(outs):
        z = L * i / n_out
        for u, pu, sg, got, gotp in ((s[0], s[3], kx, o.x, o.px),
                                     (s[1], s[4], ky, o.y, o.py)):
            a = kk * z
            C, S = (np.cos(a), np.sin(a)) if sg > 0 else (np.cosh(a),
                                                         np.sinh(a))
            e = C * u + S / kk * pu / p
            ep = (-sg * S * kk * u + C * pu / p) * p
            # error of the second-order scheme with steps of 0.1/omega
            close(got, e, 0, TOL * (sc + ph * sc), f'position at output {i}')
            close(gotp / p, ep / p, 0, TOL * (1 + ph) * sc / L *
                  max(ph, 1.) * 1.5, f'angle at output {i}')
        close(np.sum(state(o)[3:]**2, axis=0), p**2, 1e-5, 0, 'momentum')
    ctx.label(c['kind'], 'focusing' if kx > 0 else 'defocusing')
    ctx.nontrivial(ph > .3)


@R.part('linear', d(c=lens, f=fl(-3, 3), N=st.integers(2, 6)), quick=340,
        thorough=4000, env=ENV,
        rule='superposition of offsets, rotation by 90 degrees, opposite '
             'strength for opposite charge, zero strength; non-trivial: '
             'strength not zero')
def linear(c, ctx):
    N, f = c['N'], c['f']
    c = dict(c['c'], species='electron')
    c['L'] = min(c['L'], .5 / (w_max(c, particles(c)) / ct.c + 1e-9))
    if c['L'] < 1e-5:
        return
    kw = dict(dt_bunch=c['L'] / ct.c / N, n_out=0)
    s = particles(c, ang=1e-7, size=1e-9)

    def run(s, **over):
        cc = dict(c, **over)
        b = bunch(cc, s)
        element(cc, **kw).track(b, show_progress_bar=False)
        return state(b)
    r0 = run(s)
    p = np.max(s[5])

    def cmp(a, b, what, rt=1e-5):
        close(a[:2], b[:2], rt, 1e-290, what + ': position')
        close(a[3:5], b[3:5], rt, 1e-13 * p, what + ': momentum')
    s2 = s.copy()
    s2[[0, 1, 3, 4]] *= f
    e = r0.copy()
    e[[0, 1, 3, 4]] *= f
    cmp(run(s2), e, 'linear in the amplitude')
    # rotation by 90 degrees; the quadrupole changes sign
    rot = s[[1, 0, 2, 4, 3, 5]] * np.array([-1, 1, 1, -1, 1, 1.])[:, None]
    e = r0[[1, 0, 2, 4, 3, 5]] * np.array([-1, 1, 1, -1, 1, 1.])[:, None]
    sg = 1 if c['kind'] == 'lens' else -1
    cmp(run(rot, k=sg * c['k']), e, 'rotated')
    cmp(run(s, species='positron', k=-c['k']), r0, 'opposite charge')
    z = run(s, k=0.)
    b = s.copy()
    g = np.sqrt(1 + np.sum(s[3:]**2, axis=0))
    b[:2] += s[3:5] / g * c['L']
    cmp(z, b, 'without strength')
    same(z[3:], s[3:], 'momentum without strength')
    # without strength, with automatic steps
    bb = bunch(c, s)
    with np.errstate(all='ignore'):
        element(dict(c, k=0.)).track(bb, show_progress_bar=False)
    cmp(state(bb), b, 'without strength, automatic steps')
    ctx.label(c['kind'])
    ctx.nontrivial(c['k'] != 0)


@R.part('wakefields', d(k=strength, L=logfl(1e-4, 3e-3), n_p=logfl(1e21, 1e24),
                        w=logfl(1e3, 1e6), seed=seeds, N=st.integers(2, 5),
                        on=st.sampled_from([True, True, False]),
                        pusher=st.sampled_from(['boris', 'rk4']),
                        dens=st.booleans()), quick=180,
        thorough=1500, env=ENV,
        rule='lens with and without plasma wakefields against a plasma stage '
             'with the lens field added by hand; non-trivial: wakefields '
             'change the result')
def wakefields(c, ctx):
    from wake_t import ActivePlasmaLens, PlasmaStage, ParticleBunch
    from wake_t.fields.analytical_field import AnalyticalField
    g = rng(c['seed'])
    u = g.normal(size=(6, 8))
    s = np.array([1e-6 * u[0], 1e-6 * u[1], -1e-5 + 2e-6 * u[2], .1 * u[3],
                  .1 * u[4], 300 + u[5]])
    kw = dict(dt_bunch=c['L'] / ct.c / c['N'], n_out=1,
              bunch_pusher=c['pusher'])
    mp = dict(n_r=10, n_xi=14, beam_wakefields=True, **GRID)

    def run(el):
        b = ParticleBunch(np.full(8, c['w']), *s.copy(), name='b')
        el.track(b, show_progress_bar=False)
        return state(b)
    args = {}
    if c['dens'] or c['on']:
        args['density'] = c['n_p']
    model = 'cold_fluid_1d'
    a = run(ActivePlasmaLens(c['L'], c['k'], wakefields=c['on'],
                             wakefield_model=model, **args, **kw,
                             **(mp if c['on'] else {})))

    def b_x(x, y, z, t, f, k):
        for i in range(x.shape[0]):
            f[i] += k[0] * y[i]

    def b_y(x, y, z, t, f, k):
        for i in range(x.shape[0]):
            f[i] -= k[0] * x[i]
    ext = AnalyticalField(b_x=b_x, b_y=b_y, constants=[c['k']])
    b = run(PlasmaStage(c['L'], c['n_p'], wakefield_model=model if c['on']
                        else None, external_fields=[ext], **kw,
                        **(mp if c['on'] else {})))
    off = run(PlasmaStage(c['L'], c['n_p'], wakefield_model=None,
                          external_fields=[ext], **kw))
    for k in range(6):
        close(a[k], b[k], 1e-9, 1e-15 if k < 3 else 1e-9,
              'x y xi px py pz'.split()[k] + ' in the lens')
    ctx.label('on' if c['on'] else 'off')
    ctx.nontrivial(c['on'] and np.max(np.abs(off[3:] - a[3:])) > 1e-6)
