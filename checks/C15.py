"""C15: quasistatic wakefields are causal and obey their symmetries."""
import numpy as np
import scipy.constants as ct
from scipy.special import iv, kv
from hypothesis import strategies as st
from vp import lists, Registry, check, close, same, d, fl, logfl, seeds, rng
from sims import bulk_case, bulk_bunch, bulk_arrays, laser_case, make_laser, \
    GRID
from refs import SPECIES
from C14 import grad
from C16 import build, units, rounded_half

R = Registry()
NAMES = ('e_z', 'e_r', 'b_t', 'rho', 'chi')

plain = d(n_p=logfl(1e22, 3e24), n_r=st.integers(6, 16),
          n_xi=st.integers(10, 40), ppc=st.sampled_from([1, 2, 3]),
          pusher=st.sampled_from(['rk4', 'ab5']),
          shape=st.sampled_from(['linear', 'cubic']),
          r_plasma=st.one_of(st.none(), fl(0.3, 1.3)),
          pc=st.one_of(st.just(0.), fl(-0.5, 2.)), max_gamma=st.just(None),
          laser=st.one_of(st.none(), laser_case((0.05, 2.))))


def fields(f):
    e0 = units(f.n_p)[1]
    u = dict(e_z=e0, e_r=e0, b_t=e0 / ct.c, rho=1., chi=1.)
    return {k: getattr(f, k)[2:-2, 2:-2] / u[k] for k in NAMES}


def run(c, bunches, **kw):
    f = build(c, make_laser(c.get('laser')), **kw)
    f.update(bunches)
    return f


def resolve(c, h, dp):
    """n_xi and n_r so that steps are at most h and dp in skin depths."""
    sd = units(c['n_p'])[0]
    k = np.sqrt(1 + max(c['pc'], 0.))
    c = dict(c)
    c['n_xi'] = int((GRID['xi_max'] - GRID['xi_min']) / sd * k / h) + 10
    c['n_r'] = max(int(GRID['r_max'] / sd * k / dp / c['ppc']) + 1, 8)
    return c


@R.part('undriven', d(n_p=logfl(1e22, 3e24), ppc=st.integers(1, 5),
                      pusher=st.sampled_from(['rk4', 'ab5']),
                      shape=st.sampled_from(['linear', 'cubic']),
                      r_plasma=st.one_of(st.none(), fl(0.15, 1.)),
                      pc=st.one_of(st.just(0.), fl(-0.5, 3.)),
                      max_gamma=st.just(None), n=st.integers(0, 3)),
        quick=80, thorough=1500, rule='finite or parabolic plasma')
def undriven(c, ctx):
    c = resolve(c, 0.1, 0.15)
    if rounded_half(c):
        return
    # without bunches, with empty charge, or with bunches outside the box
    from wake_t import ParticleBunch
    z = np.zeros(3)
    bs = [ParticleBunch(z, z + 1e-6, z, z - 5e-6, z, z, z + 100.,
                        name=f'b{i}') for i in range(c['n'])]
    f = run(c, bs)
    ctx.nontrivial(c['pc'] or c['r_plasma'])
    v = fields(f)
    w = v['e_r'] - v['b_t']
    for k, x, tol in (('e_z', v['e_z'], 0.03), ('b_t', v['b_t'], 0.03),
                      ('transverse force', w, 0.15)):
        close(x, 0 * x, 0, tol, f'{k} without drivers')
    close(v['rho'], np.tile(v['rho'][-1], (c['n_xi'], 1)), 0, 0.1,
          'density profile of undriven plasma')
    # the profile itself, away from axis and edge
    r = f.r_fld / GRID['r_max']
    e = 1 + c['pc'] * r**2
    edge = 1. if c['r_plasma'] is None else min(c['r_plasma'], 1.)
    k = 2.5 / c['n_r']
    inn = (r > k) & (r < edge - k)
    close(v['rho'][:, inn], np.tile(e[inn], (c['n_xi'], 1)), 0, 0.1,
          'density of undriven plasma')
    out = r > edge + k
    close(v['rho'][:, out], 0 * v['rho'][:, out], 0, 1e-3,
          'density outside the column')


@R.part('causal', d(c=plain, ahead=lists(bulk_case(8, xi=(-10e-6, 9e-6),
                                                      w=(1e4, 1e8)),
                                            max_size=2),
                    behind=lists(bulk_case(8, xi=(-29e-6, -8e-6),
                                              w=(1e5, 1e9)),
                                    min_size=1, max_size=3),
                    first=st.booleans()),
        quick=200, thorough=5000, rule='bunches inside the box added behind '
        'part of the window')
def causal(c, ctx):
    p = c['c']
    if rounded_half(p):
        return
    a = [bulk_bunch(b, name=f'a{i}') for i, b in enumerate(c['ahead'])]
    b = [bulk_bunch(x, name=f'b{i}') for i, x in enumerate(c['behind'])]
    f0 = run(p, a)
    f1 = run(p, b + a if c['first'] else a + b)
    dz = f0.xi_fld[1] - f0.xi_fld[0]
    zmax = max(x.xi.max() for x in b)
    i0 = int(np.ceil((zmax - GRID['xi_min']) / dz)) + 4   # shape + gradient
    if i0 >= p['n_xi']:
        return
    ctx.nontrivial(zmax > GRID['xi_min'] + 2 * dz)
    v0, v1 = fields(f0), fields(f1)
    for k in NAMES:
        if not np.all(np.isfinite(v0[k])):
            return
        close(v1[k][i0:], v0[k][i0:], 1e-11, 1e-12,
              f'{k} ahead of the added bunches')


def join(bunches):
    from wake_t import ParticleBunch
    a = {k: np.concatenate([getattr(b, k) for b in bunches])
         for k in ('w', 'x', 'y', 'xi', 'px', 'py', 'pz')}
    return ParticleBunch(**a, name='joined',
                         q_species=bunches[0].q_species,
                         m_species=bunches[0].m_species)


@R.part('split', d(c=plain, bs=lists(bulk_case(
        10, xi=(-25e-6, 9e-6), w=(1e4, 1e8), spec=('electron',)),
        min_size=1, max_size=3), seed=seeds),
        quick=150, thorough=4000, rule='the same charge given as different '
        'bunches and macroparticles')
def split(c, ctx):
    from wake_t import ParticleBunch
    p = c['c']
    if rounded_half(p):
        return
    g = rng(c['seed'])
    bs = [bulk_bunch(b, name=f'a{i}') for i, b in enumerate(c['bs'])]
    one = join(bs)
    n = len(one.w)
    # split some macroparticles in two, rotate them, shuffle, deal in bunches
    fr = np.where(g.rand(n) < 0.5, g.uniform(0.1, 0.9, n), 1.)
    ph = g.uniform(0, 2 * np.pi, 2 * n)
    k = np.concatenate([np.arange(n)] * 2)
    w = np.concatenate([one.w * fr, one.w * (1 - fr)])
    r = np.hypot(one.x, one.y)[k]
    m = g.permutation(2 * n)
    lab = g.randint(0, 3, 2 * n)
    parts = []
    for j in range(3):
        i = m[lab[m] == j]
        z = np.zeros(len(i))
        parts.append(ParticleBunch(
            w[i], r[i] * np.cos(ph[i]), r[i] * np.sin(ph[i]), one.xi[k[i]],
            z, z, z + g.uniform(10, 1e4), name=f'p{j}'))
    pert = join(bs)
    pert.w = pert.w * (1 + 1e-12 * g.choice([-1, 1], n))
    fr_ = GRID['r_max']
    cz = (one.xi - GRID['xi_min']) / (
        (GRID['xi_max'] - GRID['xi_min']) / (p['n_xi'] - 1))
    rr = np.hypot(one.x, one.y) / fr_
    if np.any(np.abs(rr - 1) < 1e-9) or np.any(np.abs(cz) < 1e-9) or \
            np.any(np.abs(cz - p['n_xi'] + 1) < 1e-9):
        return
    v0, v1, v2 = fields(run(p, [one])), fields(run(p, parts)), fields(
        run(p, [pert]))
    v3 = fields(run(p, bs[::-1]))
    # sensitivity to rounding
    dev = [np.abs(v0[k] - v2[k]) for k in NAMES]
    if not all(np.all(np.isfinite(x)) for x in dev):
        return
    if max(np.max(x) for x in dev) > 1e-6:
        ctx.label('chaotic')
        return
    ctx.nontrivial(True)
    for k, x in zip(NAMES, dev):
        tol = 1e-9 + 1e3 * np.max(x)
        sc = np.max(np.abs(v0[k]))
        close(v1[k], v0[k], 1e-9, tol, f'{k} of the split beam', scale=sc)
        close(v3[k], v0[k], 1e-9, tol, f'{k} of reordered bunches', scale=sc)


@R.part('scaling', d(c=plain, bs=lists(bulk_case(
        8, xi=(-25e-6, 9e-6), w=(1e4, 1e8)), max_size=2),
        s=st.sampled_from([-3, -2, -1, 1, 2, 3])),
        quick=150, thorough=4000, rule='driven plasma at two densities')
def scaling(c, ctx):
    """All lengths times s, density over s^2, charges times s."""
    from wake_t import ParticleBunch, GaussianPulse
    p = c['c']
    if rounded_half(p):
        return
    s = 2.**c['s']
    b0 = [bulk_bunch(b, name=f'a{i}') for i, b in enumerate(c['bs'])]
    b1 = [ParticleBunch(b.w * s, b.x * s, b.y * s, b.xi * s, b.px, b.py, b.pz,
                        name=b.name, q_species=b.q_species,
                        m_species=b.m_species) for b in b0]
    f0 = run(p, b0)
    q = dict(p, n_p=p['n_p'] / s**2)
    la = None
    if p['laser'] is not None:
        q_ = p['laser']
        la = GaussianPulse(q_['xi_c'] * s, q_['a0'], q_['w0'] * s,
                           q_['tau'] * s, z_foc=q_['zf'] * s,
                           l_0=q_['l0'] * s, polarization=q_['pol'])
    kw = {k: v * s for k, v in GRID.items()}
    if p['r_plasma'] is not None:
        kw['r_max_plasma'] = p['r_plasma'] * kw['r_max']
    if p['pc']:
        kw['parabolic_coefficient'] = p['pc'] / kw['r_max']**2
    f1 = build(q, la, **kw)
    f1.update(b1)
    v0, v1 = fields(f0), fields(f1)
    ctx.nontrivial(p['laser'] is not None or b0)
    # sensitivity to rounding
    b2 = [bulk_bunch(b, name=f'a{i}', scale_w=1 + 1e-12)
          for i, b in enumerate(c['bs'])]
    q2 = dict(p, n_p=p['n_p'] * (1 + 1e-12))
    v2 = fields(run(q2, b2))
    dev = [np.max(np.abs(v0[k] - v2[k])) for k in NAMES]
    if not np.all(np.isfinite(dev)) or max(dev) > 1e-6:
        ctx.label('chaotic')
        return
    for k, x in zip(NAMES, dev):
        close(v1[k], v0[k], 1e-9, 1e-9 + 1e3 * x, f'normalised {k} at scaled '
              'density', scale=np.max(np.abs(v0[k])))


@R.part('potential', d(c=plain, bs=lists(bulk_case(
        8, xi=(-25e-6, 9e-6), w=(1e4, 1e9)), max_size=2)),
        quick=150, thorough=4000, rule='driven plasma')
def potential(c, ctx):
    """Longitudinal and transverse force are gradients of one function."""
    p = c['c']
    if rounded_half(p):
        return
    bs = [bulk_bunch(b, name=f'a{i}') for i, b in enumerate(c['bs'])]
    f = run(p, bs)
    v = fields(f)
    w = v['e_r'] - v['b_t']
    sd = units(p['n_p'])[0]
    dz = (GRID['xi_max'] - GRID['xi_min']) / (p['n_xi'] - 1) / sd
    dr = GRID['r_max'] / p['n_r'] / sd
    if not np.all(np.isfinite(w)):
        return
    a, b = grad(v['e_z'].T, dr).T, grad(w, dz)
    ctx.nontrivial(p['laser'] is not None or bs)
    # rounding: psi values of order |.|*d are differenced twice; the force
    # is the difference of two possibly large fields
    sc = np.max(np.abs(a)) + np.max(np.abs(b)) + np.max(np.abs(v['b_t'])) / dz
    close(a, b, 1e-9, 1e-9 / min(dr, dz)**2 * 1e-3, 'curl of the force',
          scale=sc)


lin = d(n_p=logfl(1.2e24, 4e24), ppc=st.sampled_from([1, 2]),
        pusher=st.sampled_from(['rk4', 'ab5']),
        shape=st.sampled_from(['linear', 'cubic']))


def strip(c):
    return dict(c, r_plasma=None, pc=0., max_gamma=None)


@R.part('linear_laser', d(c=lin, a0=fl(0.05, 0.15), xi_c=fl(-6e-6, 0.),
                          w0=fl(1.5, 4.), tau=fl(0.7, 1.8), seed=seeds,
                          pol=st.sampled_from(['linear', 'circular'])),
        quick=40, thorough=800, rule='weak laser of about resonant length')
def linear_laser(c, ctx):
    """(d^2/dxi^2 + 1) psi = a2/2 at each radius."""
    from wake_t import GaussianPulse
    p = resolve(strip(c['c']), 0.08, 0.08)
    sd = units(p['n_p'])[0]
    w0 = min(c['w0'] * sd, 10e-6)
    tau = c['tau'] * sd / ct.c
    la = GaussianPulse(c['xi_c'], c['a0'], w0, tau, l_0=0.8e-6,
                       polarization=c['pol'])
    f = build(p, la)
    f.update([])
    f_ = build(p, None)
    f_.update([])
    a2 = np.abs(la.get_envelope())**2 * (0.5 if c['pol'] == 'linear' else 1)
    dz = (GRID['xi_max'] - GRID['xi_min']) / (p['n_xi'] - 1) / sd
    # Duhamel integral of the linear oscillator
    x = np.arange(p['n_xi']) * dz
    ez = np.zeros_like(a2)
    psi = np.zeros_like(a2)
    for i in range(p['n_xi']):
        s = x[i:] - x[i]
        ez[i] = np.trapz(np.cos(s)[:, None] * a2[i:] / 2, dx=dz, axis=0)
        psi[i] = np.trapz(np.sin(s)[:, None] * a2[i:] / 2, dx=dz, axis=0)
    v, v_ = fields(f), fields(f_)
    pk = np.max(np.abs(ez))
    # the box starts inside the pulse: only exact if it starts ahead of it
    if a2[-1].max() > 1e-3 * a2.max() or a2[:, -1].max() > 1e-2 * a2.max():
        return
    ctx.nontrivial(pk > 1e-5)
    r = f.r_fld
    m = r < 1.5 * w0
    # E_z = -dpsi/dxi
    close((v['e_z'] - v_['e_z'])[2:-2, m], ez[2:-2, m], 0.1, 0,
          'longitudinal field of a weak laser', scale=pk)
    dr = GRID['r_max'] / p['n_r'] / sd
    wr = -grad(psi.T, dr).T
    w, w_ = v['e_r'] - v['b_t'], v_['e_r'] - v_['b_t']
    m = m & (r > 2 * dr * sd)
    close((w - w_)[2:-2, m], wr[2:-2, m], 0.2, 0,
          'transverse force of a weak laser', scale=np.max(np.abs(wr)))
    ctx.label(c['pol'])


@R.part('linear_beam', d(c=lin, nb=fl(-0.02, 0.02), sz=fl(0.4, 1.2),
                         sr=fl(0.3, 0.8), z0=fl(-8e-6, -2e-6)),
        quick=25, thorough=400, rule='beam of more than 0.1 percent of the '
        'plasma density')
def linear_beam(c, ctx):
    """Wake of a weak beam against the Green function of linear theory."""
    from wake_t import ParticleBunch
    p = resolve(strip(c['c']), 0.08, 0.08)
    sd = units(p['n_p'])[0]
    nz, nr = p['n_xi'], p['n_r']
    dz = (GRID['xi_max'] - GRID['xi_min']) / (nz - 1) / sd
    dr = GRID['r_max'] / nr / sd
    if abs(c['nb']) < 1e-3 or GRID['r_max'] / sd < 3.5 * c['sr'] + 3:
        return
    x = GRID['xi_min'] / sd + np.arange(nz) * dz
    rn = (np.arange(nr) + 0.5) * dr
    z0 = min(c['z0'] / sd, GRID['xi_max'] / sd - 4 * c['sz'])
    nb = c['nb'] * np.exp(-(x[:, None] - z0)**2 / 2 / c['sz']**2
                          - rn[None]**2 / 2 / c['sr']**2)
    # one ring macroparticle per node (interior)
    Z, K = np.nonzero(np.abs(nb) > 1e-6 * abs(c['nb']))
    w = np.abs(nb[Z, K]) * p['n_p'] * sd**3 * 2 * np.pi * rn[K] * dr * dz
    o = np.zeros(len(Z))
    b = ParticleBunch(w, rn[K] * sd, o, (x[Z] + 1e-9) * sd, o, o, o + 1e3,
                      q_species=np.sign(c['nb']) * ct.e, m_species=ct.m_e)
    f = build(p, None)
    f.update([b])
    f_ = build(p, None)
    f_.update([])
    G = np.empty((nr, nr))
    for i in range(nr):
        lo, hi = np.minimum(rn[i], rn), np.maximum(rn[i], rn)
        G[i] = iv(0, lo) * kv(0, hi)
    s = (nb @ (G * (rn * dr)[None]).T)
    ez = np.zeros_like(nb)
    for i in range(nz):
        ez[i] = -np.trapz(np.cos(x[i:] - x[i])[:, None] * s[i:], dx=dz,
                          axis=0)
    v, v_ = fields(f), fields(f_)
    pk = np.max(np.abs(ez))
    ctx.nontrivial(True)
    ctx.label('positive' if c['nb'] > 0 else 'negative')
    m = rn < GRID['r_max'] / sd - 3
    close((v['e_z'] - v_['e_z'])[2:-2, m], ez[2:-2, m], 0.12, 0,
          'longitudinal field of a weak beam', scale=pk)


@R.part('pushers', d(n_p=logfl(2e23, 2e24), shape=st.sampled_from(
        ['linear', 'cubic']), pc=st.one_of(st.just(0.), fl(-0.3, 1.)),
        a0=fl(0.1, 1.2), tau=fl(0.8, 2.), w0=fl(1.5, 4.), nb=fl(-0.6, 0.6),
        zb=fl(-20e-6, -4e-6)),
        quick=25, thorough=500, rule='mildly nonlinear wake')
def pushers(c, ctx):
    """Both pushers converge to the same fields."""
    from wake_t import GaussianPulse, ParticleBunch
    p = resolve(dict(c, ppc=2, r_plasma=None, max_gamma=None), 0.05, 0.1)
    sd = units(p['n_p'])[0]
    g = rng(1)
    n = 400
    sz, sr = 0.6 * sd, 0.6 * sd
    w = np.full(n, abs(c['nb']) * p['n_p'] * (2 * np.pi)**1.5 * sr**2 * sz / n)
    b = ParticleBunch(w, sr * g.normal(size=n), sr * g.normal(size=n),
                      c['zb'] + sz * g.normal(size=n), g.normal(size=n),
                      g.normal(size=n), 1e3 + g.normal(size=n),
                      q_species=np.sign(c['nb']) * ct.e, m_species=ct.m_e)
    out = []
    for push in ('rk4', 'ab5'):
        la = GaussianPulse(0., c['a0'], min(c['w0'] * sd, 1e-5),
                           c['tau'] * sd / ct.c, l_0=0.8e-6)
        f = build(dict(p, pusher=push), la)
        f.update([b])
        v = fields(f)
        v['w_r'] = v['e_r'] - v['b_t']
        out.append(v)
    ctx.nontrivial(True)
    r = f.r_fld < 0.7 * GRID['r_max']
    for k in ('e_z', 'w_r', 'b_t', 'chi'):
        a, b_ = out[0][k][:, r], out[1][k][:, r]
        sc = np.max(np.abs(a)) + 0.01
        dev = np.abs(a - b_) / sc
        # sheets crossing a node make single points noisy
        check(np.quantile(dev, 0.9) < 0.12, '{} differs between the plasma '
              'pushers: 90 % quantile {:.3f}', k, np.quantile(dev, 0.9))


@R.part('self_field', d(c=d(n_p=logfl(1e13, 1e15), n_r=st.integers(10, 24),
                            n_xi=st.integers(10, 24),
                            ppc=st.just(1), pusher=st.sampled_from(
                                ['rk4', 'ab5']),
                            shape=st.sampled_from(['linear', 'cubic']),
                            r_plasma=st.none(), pc=st.just(0.),
                            max_gamma=st.just(None)),
                        b=bulk_case(10, xi=(-20e-6, 0e-6), w=(1e7, 1e9),
                                    spec=('electron', 'positron'))),
        quick=100, thorough=2000, rule='bunch in almost vacuum')
def self_field(c, ctx):
    """Almost without plasma the bunch keeps only its own field: magnetic
    and radial electric field of the enclosed charge, no net force."""
    p = c['c']
    b = bulk_bunch(c['b'])
    f = run(p, [b])
    dz = f.xi_fld[1] - f.xi_fld[0]
    dr = f.r_fld[1] - f.r_fld[0]
    r = np.hypot(b.x, b.y)
    if b.xi.min() < GRID['xi_min'] or b.xi.max() > GRID['xi_max'] or \
            r.max() > GRID['r_max'] - 6 * dr:
        return
    ctx.nontrivial(True)
    Q = np.sum(b.w) * b.q_species
    m = f.r_fld > r.max() + 3 * dr
    bt = f.b_t[2:-2, 2:-2]
    tot = np.sum(bt[:, m], axis=0) * dz * f.r_fld[m] * 2 * np.pi / (
        ct.mu_0 * ct.c)
    close(tot, np.full(m.sum(), Q), 0.03, 0, 'charge enclosed by the '
          'azimuthal field')
    er = f.e_r[2:-2, 2:-2]
    sc = np.max(np.abs(bt)) * ct.c
    close(er, bt * ct.c, 0.03, 0, 'radial electric field of the bunch',
          scale=sc)
