"""C16: quasistatic wakefields equal those of an independent implementation."""
import itertools
import numpy as np
import scipy.constants as ct
from hypothesis import strategies as st
from vp import lists, Registry, Violation, check, close, same, d, fl, logfl, rng
from sims import bulk_case, bulk_bunch, laser_case, make_laser, GRID
from C06 import weights
from C14 import on_edge, grad
import qsref

R = Registry()

case = d(n_p=logfl(1e22, 4e24), n_r=st.integers(5, 12),
         n_xi=st.integers(6, 26), ppc=st.sampled_from([None, 1, 2, 2, 3, 4]),
         pusher=st.sampled_from([None, 'rk4', 'ab5', 'ab5']),
         shape=st.sampled_from([None, 'linear', 'cubic']),
         r_plasma=st.one_of(st.none(), st.none(), fl(0.15, 1.4)),
         pc=st.one_of(st.just(0.), fl(0., 3.), fl(-0.6, 0.)),
         max_gamma=st.sampled_from([None, None, 1.5, 3., 30.]),
         laser=st.one_of(st.none(), st.none(), laser_case((0.05, 4.))),
         bunches=lists(bulk_case(10, xi=(-32e-6, 12e-6), w=(1e3, 5e8)),
                          max_size=3))


def box(c):
    if 'rk' not in c:
        return GRID
    sd, _ = units(c['n_p'])
    return dict(GRID, r_max=c['rk'] * sd, xi_min=-2.5 * sd, xi_max=1.5 * sd)


def units(n_p):
    sd = ct.c / np.sqrt(n_p * ct.e**2 / (ct.m_e * ct.epsilon_0))
    return sd, ct.m_e * ct.c**2 / ct.e / sd


def build(c, laser, **kw):
    from wake_t.physics_models.plasma_wakefields import (
        Quasistatic2DWakefield)
    p = dict(box(c), n_r=c['n_r'], n_xi=c['n_xi'], laser=laser)
    for k, a in (('ppc', 'ppc'), ('pusher', 'plasma_pusher'),
                 ('shape', 'p_shape'), ('max_gamma', 'max_gamma')):
        if c[k] is not None:
            p[a] = c[k]
    if c['r_plasma'] is not None:
        p['r_max_plasma'] = c['r_plasma'] * box(c)['r_max']
    if c['pc']:
        p['parabolic_coefficient'] = c['pc'] / box(c)['r_max']**2
    p.update(kw)
    return Quasistatic2DWakefield(lambda z: c['n_p'], **p)


def sources(c, f, bunches):
    """a2, its radial gradient and beam field in normalised units."""
    sd, _ = units(c['n_p'])
    nz, nr = c['n_xi'], c['n_r']
    dz = (box(c)['xi_max'] - box(c)['xi_min']) / (nz - 1)
    dr = box(c)['r_max'] / nr
    deg = 1 if c['shape'] == 'linear' else 3
    q = np.zeros((nz, nr))
    for b in bunches:
        w = b.w * b.q_species / ct.e
        r = np.sqrt(b.x**2 + b.y**2)
        for i in range(len(w)):
            cz = (b.xi[i] - box(c)['xi_min']) / dz
            if cz < 0 or cz > nz - 1 or r[i] > nr * dr:
                continue
            q += w[i] * np.outer(weights(cz, nz, deg, False),
                                 weights(r[i] / dr - 0.5, nr, deg, True))
    q = q / (2 * np.pi * dr * dz * sd * c['n_p'])
    b0 = qsref.beam_field(q, dr / sd)
    a2 = np.zeros((nz, nr))
    if f.laser is not None:
        a2 = np.abs(f.laser.get_envelope())**2
        if f.laser.polarization == 'linear':
            a2 = a2 / 2
    return a2, qsref.grad_r(a2, dr / sd), b0


def expected(c, src, **kw):
    sd, _ = units(c['n_p'])
    nz, nr = c['n_xi'], c['n_r']
    dz = (box(c)['xi_max'] - box(c)['xi_min']) / (nz - 1) / sd
    dr = box(c)['r_max'] / nr / sd
    rp = (1. if c['r_plasma'] is None else c['r_plasma']) * box(c)['r_max'] / sd
    p = qsref.setup(nr, nz, dr, dz, c['ppc'] or 2, rp,
                    c['pc'] / box(c)['r_max']**2 * sd**2)
    if 'perturb' in kw:
        kw = dict(kw, perturb=kw['perturb'] * rng(7).choice(
            [-1., 1.], len(p.q)))
    with np.errstate(all='ignore'):
        out = qsref.solve(p, *src, c['pusher'] or 'rk4', c['shape'] or 'cubic',
                          c['max_gamma'] or 10., **kw)
        out['e_z'] = -grad(out['psi'], dz)
        out['w_r'] = -grad(out['psi'].T, dr).T
    return out


def rounded_half(c):
    """Number of plasma particles decided by rounding."""
    v = (1. if c['r_plasma'] is None else c['r_plasma']) * c['n_r'] * (
        c['ppc'] or 2)
    return abs(v - np.floor(v) - 0.5) < 1e-6 or round(v) < 1


def compare(c, f, src, e, sens, first, what=''):
    """Compare all slices behind (and including) `first`..nz-1."""
    _, E0 = units(c['n_p'])
    sl = slice(first, None)
    b0 = src[2]

    def cmp(name, got, exp, s, unit):
        got = got[2:-2, 2:-2][sl] / unit
        tol = 1e-8 * (np.max(np.abs(exp[sl])) + 0.01 + np.max(np.abs(b0))) \
            + 300 * s[sl]
        if not np.all(np.isfinite(got)):
            raise Violation(f'{name}: not finite')
        err = np.abs(got - exp[sl])
        if np.any(err > tol):
            i = np.unravel_index(np.argmax(err - tol), err.shape)
            raise Violation(
                f'{what}{name} at slice {i[0] + first}, radius {i[1]}: got '
                f'{got[i]!r}, expected {exp[sl][i]!r} (tolerance '
                f'{tol[i]:.2e})')
    cmp('rho', f.rho, e['rho'], sens['rho'], 1.)
    cmp('chi', f.chi, e['chi'], sens['chi'], 1.)
    cmp('e_z', f.e_z, e['e_z'], sens['e_z'], E0)
    cmp('w_r', f.e_r - ct.c * f.b_t, e['w_r'], sens['w_r'], E0)
    # where a sheet sits exactly at a node, either side is right
    got = f.b_t[2:-2, 2:-2] / (E0 / ct.c) - b0
    pick = (e['bamb'] > 0) & (np.abs(got - e['bt2']) < np.abs(got - e['bt']))
    eb = np.where(pick, e['bt2'], e['bt'])
    cmp('b_t', f.b_t, eb + b0, sens['bt'] + 1e-6 * e['bamb'], E0 / ct.c)
    cmp('e_r', f.e_r, eb + b0 + e['w_r'], sens['bt'] + sens['w_r'] +
        1e-6 * e['bamb'], E0)


def sensitivity(e, e2):
    """Size of the change under a 1e-12 perturbation, cumulated backwards;
    returns also the first slice that can be compared."""
    s = {}
    first = 0
    nz = e['psi'].shape[0]
    for k in ('psi', 'e_z', 'w_r', 'bt', 'rho', 'chi'):
        v = np.abs(e[k] - e2[k])
        if k == 'bt':
            v = np.where((e['bamb'] > 0) | (e2['bamb'] > 0), 0., v)
        v = np.where(np.isfinite(v), v, np.inf)
        v = np.maximum.accumulate(np.max(v, axis=1)[::-1])[::-1]
        s[k] = np.repeat(v[:, None], e[k].shape[1], axis=1)
        bad = np.nonzero(v > 1e-7 * (1 + np.max(np.abs(np.where(np.isfinite(
            e[k]), e[k], 0)))))[0]
        if len(bad):
            first = max(first, bad[-1] + 3)
    if e['info']['chaotic'] is not None:
        first = max(first, e['info']['chaotic'] + 3)
    return s, first


@R.part('wide', d(n_p=logfl(5e22, 1e24), rk=fl(15., 120.),
                  n_r=st.integers(15, 60), n_xi=st.integers(6, 12),
                  ppc=st.sampled_from([1, 2, 3]),
                  pusher=st.sampled_from(['rk4', 'ab5']),
                  shape=st.sampled_from(['linear', 'cubic']),
                  r_plasma=st.one_of(st.none(), fl(0.3, 1.1)),
                  pc=st.just(0.), max_gamma=st.none(),
                  laser=st.one_of(st.none(), laser_case((0.02, 0.5))),
                  bunches=lists(bulk_case(10, xi=(-20e-6, 10e-6),
                                          w=(1e3, 3e7)), max_size=2)),
        quick=60, thorough=1500, weight=3,
        rule='as reference, in plasma columns of 15 to 120 skin depths, where '
             'the solution of the magnetic field must not lose precision')
def wide(c, ctx):
    reference(c, ctx)


@R.part('reference', case, quick=300, thorough=8000, weight=3,
        rule='a laser or a bunch drives the plasma and at least half of the '
             'slices are free from chaotic sheet crossing')
def reference(c, ctx):
    if rounded_half(c):
        return
    laser = make_laser(c['laser'])
    f = build(c, laser)
    bs = [bulk_bunch(b, name=f'b{i}') for i, b in enumerate(c['bunches'])]
    dz = (box(c)['xi_max'] - box(c)['xi_min']) / (c['n_xi'] - 1)
    if on_edge(bs, box(c)['xi_min'], c['n_xi'], c['n_r'], dz,
               box(c)['r_max'] / c['n_r']):
        return
    before = [np.array([b.w, b.x, b.y, b.xi, b.px, b.py, b.pz]) for b in bs]
    f.update(bs)
    for b, v in zip(bs, before):
        same(np.array([b.w, b.x, b.y, b.xi, b.px, b.py, b.pz]), v,
             'bunch after the field calculation')
    src = sources(c, f, bs)
    e = expected(c, src)
    if e['info']['edge']:
        ctx.label('sheet on the last node')
        return
    s, first = sensitivity(e, expected(c, src, perturb=1e-12))
    info = e['info']
    ctx.label(c['pusher'] or 'rk4', c['shape'] or 'cubic')
    for k in ('clip', 'fast'):
        if info[k]:
            ctx.label(k)
    if first >= c['n_xi']:
        ctx.label('chaotic from the first slice')
        return
    ctx.nontrivial((laser is not None or bs) and first <= c['n_xi'] / 2)
    rk = (c['pusher'] or 'rk4') == 'rk4'
    opts = [[{}, dict(stale_last=True)] if rk and first < 3 else [{}],
            [{}, dict(tie_gt=True)] if info['tied'] else [{}]]
    if info['left'] is not None:
        # recorded defect: sources beyond the last node
        ctx.label('sheet left the grid')
        opts.append([{}, dict(stale=True)])
    variants = [{k: v for o in t for k, v in o.items()}
                for t in itertools.product(*opts)]
    err = None
    for v in variants:
        try:
            if v:
                e = expected(c, src, **v)
                s, first = sensitivity(e, expected(c, src, perturb=1e-12,
                                                   **v))
            compare(c, f, src, e, s, first)
            return
        except Violation as x:
            err = err or x
    raise err


@R.part('bounds', case, quick=120, thorough=3000, weight=2,
        rule='the plasma is driven by a laser or a bunch')
def bounds(c, ctx):
    """Density and susceptibility bounds."""
    if rounded_half(c):
        return
    laser = make_laser(c['laser'])
    f = build(c, laser)
    bs = [bulk_bunch(b, name=f'b{i}') for i, b in enumerate(c['bunches'])]
    f.update(bs)
    if c['r_plasma'] is not None and c['r_plasma'] > 1:
        return
    rho, chi = f.rho[2:-2, 2:-2], f.chi[2:-2, 2:-2]
    check(np.all(np.isfinite(rho)) and np.all(rho >= -1e-12),
          'plasma density is negative or not finite')
    check(np.all(np.isfinite(chi)) and np.all(chi >= -1e-12),
          'susceptibility is negative or not finite')
    check(np.all(chi <= rho * (1 + 1e-9) + 1e-12),
          'susceptibility above density (gamma < 1)')
    ctx.nontrivial(laser is not None or bs)
