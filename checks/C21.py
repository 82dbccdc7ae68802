"""C21: bunch analysis reports correct, weight-aware beam parameters."""
import os
import warnings
import numpy as np
import scipy.constants as ct
from hypothesis import strategies as st
from vp import sizes, lists, Registry, check, close, same, d, fl, logfl, seeds, rng
from refs import SPECIES, state
from C03 import quiet, scratch, snap, eq

R = Registry()

bunch = d(n=sizes(12, 400, 9000, 20), seed=seeds, sx=logfl(1e-7, 1e-3),
          sy=logfl(1e-7, 1e-3), sz=logfl(1e-7, 1e-3), sp=logfl(1e-3, 1.),
          x0=fl(-5, 5), y0=fl(-5, 5), xi0=fl(-1e-2, 1e-2), p0=fl(-3, 3),
          cx=fl(-2, 2), cy=fl(-2, 2), ch=fl(-1, 1), pz=logfl(5., 1e4),
          spz=logfl(1e-4, .3), w=logfl(1e-2, 1e10), wspread=fl(0, 3),
          species=st.sampled_from(sorted(SPECIES)),
          z0=st.one_of(st.just(0.), fl(0, 100)))
opts = d(n_slices=st.one_of(st.none(), st.integers(1, 12)),
         frac=st.one_of(st.none(), fl(.05, .6)))

KEYS = {'prop_dist', 'theta_x', 'theta_y', 'x_avg', 'y_avg', 'sigma_x',
        'sigma_y', 'sigma_z', 'alpha_x', 'alpha_y', 'beta_x', 'beta_y',
        'gamma_x', 'gamma_y', 'emitt_x', 'emitt_y', 'avg_slice_emitt_x',
        'avg_slice_emitt_y', 'avg_ene', 'rel_ene_spread',
        'avg_slice_rel_ene_spread', 'i_peak', 'q_tot'}


def make(c):
    from wake_t import ParticleBunch
    g = rng(c['seed'])
    n = c['n']
    q, m = SPECIES[c['species']]
    w = c['w'] * np.exp(c['wspread'] * g.uniform(-1, 1, n))
    u = g.normal(size=(6, n))
    pz = c['pz'] * (1 + c['spz'] * np.clip(u[5] + c['ch'] * u[2], -3, 3))
    return ParticleBunch(
        w=w, x=c['sx'] * (u[0] + c['x0']), y=c['sy'] * (u[1] + c['y0']),
        xi=c['xi0'] + c['sz'] * u[2],
        px=c['sp'] * (u[3] + c['cx'] * u[0] + c['p0']),
        py=2 * c['sp'] * (u[4] + c['cy'] * u[1] - c['p0']), pz=pz,
        q_species=q, m_species=m, prop_distance=c['z0'], name='b')


def avg(v, w):
    return np.sum(v * w) / np.sum(w)


def std(v, w):
    return np.sqrt(avg((v - avg(v, w))**2, w))


def emit(u, v, w):
    """Unbiased weighted emittance and the product of the two sizes."""
    W = np.sum(w)
    f = W / (W - np.sum(w**2) / W)
    a, b = avg((u - avg(u, w))**2, w), avg((v - avg(v, w))**2, w)
    c = avg((u - avg(u, w)) * (v - avg(v, w)), w)
    det = a * b - c**2
    return f * np.sqrt(max(det, 0)), f * np.sqrt(a * b), a, c


def slices(b, o):
    z = b.xi
    L = z.max() - z.min()
    if o['frac'] is not None:
        n = int(np.round(L / (o['frac'] * L)))
    else:
        n = 50 if o['n_slices'] is None else o['n_slices']
    lim = np.linspace(z.min(), z.max(), n + 1)
    return [(z > lim[i]) & (z <= lim[i + 1]) for i in range(n)], L / n, lim


def kwargs(b, o):
    kw = {}
    if o['n_slices'] is not None:
        kw['n_slices'] = o['n_slices']
    if o['frac'] is not None:
        kw['len_slice'] = o['frac'] * (b.xi.max() - b.xi.min())
    return kw


def compare(r, b, o, ctx):
    check(set(r) == KEYS, 'parameters {}', sorted(r))
    w = b.w
    e = np.sqrt(1 + b.px**2 + b.py**2 + b.pz**2)
    me = avg(e, w)
    q = np.abs(b.q_species)
    exp = dict(prop_dist=b.prop_distance, theta_x=avg(b.px, w) / me,
               theta_y=avg(b.py, w) / me, x_avg=avg(b.x, w),
               y_avg=avg(b.y, w), sigma_x=std(b.x, w), sigma_y=std(b.y, w),
               sigma_z=std(b.xi, w), avg_ene=me, rel_ene_spread=std(e, w) / me,
               q_tot=np.sum(w) * b.q_species)
    scale = dict(theta_x=np.max(np.abs(b.px)) / me,
                 theta_y=np.max(np.abs(b.py)) / me,
                 x_avg=np.max(np.abs(b.x)), y_avg=np.max(np.abs(b.y)),
                 sigma_x=np.max(np.abs(b.x)), sigma_y=np.max(np.abs(b.y)),
                 sigma_z=np.max(np.abs(b.xi)), rel_ene_spread=1.)
    for k, v in exp.items():
        close(r[k], v, 1e-11, 0, k, scale=scale.get(k))
    for u, x, px in (('x', b.x, b.px), ('y', b.y, b.py)):
        em, full, _, _ = emit(x, px, w)
        # the determinant is obtained in single precision
        if em > 0.05 * full:
            close(r['emitt_' + u], em, 3e-6 * (full / em)**2, 0,
                  'emittance in ' + u)
            ctx.label('emittance')
        em, full, a, c = emit(x, px / b.pz, w)
        if em > 0.05 * full:
            t = 3e-6 * (full / em)**2
            close(r['beta_' + u], a / em, t, 0, 'beta in ' + u)
            close(r['alpha_' + u], -c / em, t, 1e-9, 'alpha in ' + u)
            close(r['alpha_' + u] / r['beta_' + u], -c / a, 1e-9, 0,
                  'alpha/beta in ' + u, scale=full / a)
            close(r['gamma_' + u], (1 + r['alpha_' + u]**2) / r['beta_' + u],
                  1e-10, 0, 'gamma in ' + u)
            ctx.label('twiss')
    sel, dz, lim = slices(b, o)
    if not sel:
        return
    far = np.min(np.abs(b.xi[:, None] - lim[1:-1]), initial=1.) > 1e-9 * dz
    if not far:
        return
    wt = np.array([np.sum(w[s]) for s in sel])
    if wt.sum() == 0:
        return
    # the first particle (exactly at the start) belongs to no slice of the
    # averages but counts in the current
    first = np.argmin(b.xi)
    cur = wt.copy()
    cur[0] += w[first] * (not sel[0][first])
    close(r['i_peak'], np.max(cur) * q / (dz / ct.c), 1e-9, 0, 'peak current')
    sp = np.array([std(e[s], w[s]) / avg(e[s], w[s]) if s.any() and
                   w[s].sum() else 0. for s in sel])
    if all(w[s].sum() > 0 for s in sel if s.any()):
        close(r['avg_slice_rel_ene_spread'], avg(sp, wt), 1e-9, 1e-12,
              'slice energy spread', scale=1.)
        ctx.label('slice energy spread')
    for u, x, px in (('x', b.x, b.px), ('y', b.y, b.py)):
        if any(np.sum(s) < 6 for s in sel):
            break
        v = [emit(x[s], px[s], w[s]) for s in sel]
        if any(i[0] < 0.1 * i[1] for i in v):
            break
        close(r['avg_slice_emitt_' + u], avg(np.array([i[0] for i in v]), wt),
              1e-4, 0, 'slice emittance in ' + u)
        ctx.label('slice emittance')


@R.part('single', d(b=bunch, o=opts), quick=1500, thorough=15000,
        rule='one bunch of any content against independently computed '
             'moments; non-trivial: weights differ by more than a factor 2')
def single(c, ctx):
    from wake_t.diagnostics import analyze_bunch
    b = make(c['b'])
    before = snap(b)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = analyze_bunch(b, **kwargs(b, c['o']))
    eq(snap(b), before, 'bunch after the analysis')
    compare(r, b, c['o'], ctx)
    ctx.nontrivial(c['b']['wspread'] > .5)


@R.part('invariance', d(b=bunch, f=logfl(1e-3, 1e3), seed=seeds,
                        dx=fl(-1, 1)), quick=600, thorough=5000,
        rule='order of the particles, global scale of the weights, splitting '
             'of particles into two, shift of the bunch, exchange of x and '
             'y; non-trivial: all')
def invariance(c, ctx):
    from wake_t import ParticleBunch
    from wake_t.diagnostics import analyze_bunch
    b = make(c['b'])

    def ana(w, s, pd=b.prop_distance):
        x = ParticleBunch(w, *s, q_species=b.q_species,
                          m_species=b.m_species, prop_distance=pd, name='b')
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return analyze_bunch(x, n_slices=3)
    s = state(b)
    r0 = ana(b.w, s)
    W = {'x': emit(b.x, b.px, b.w), 'y': emit(b.y, b.py, b.w)}
    T = {'x': emit(b.x, b.px / b.pz, b.w), 'y': emit(b.y, b.py / b.pz, b.w)}

    def cmp(r, ex, what, skip=(), emfac=1.):
        for k in sorted(KEYS - set(skip)):
            tol = 1e-9
            sc = None
            u = k[-1]
            if k.startswith(('emitt', 'alpha', 'beta', 'gamma')):
                M = (W if k.startswith('emitt') else T)[u]
                if M[0] < .1 * M[1]:
                    continue
                tol = 1e-3
                if k.startswith('alpha'):
                    sc = max(1., abs(ex[k]))
            elif k.startswith('avg_slice_emitt'):
                continue
            elif k in ('x_avg', 'sigma_x'):
                sc = np.max(np.abs(b.x)) + abs(c['dx']) * c['b']['sx']
            elif k in ('y_avg', 'sigma_y'):
                sc = np.max(np.abs(b.y))
            elif k == 'sigma_z':
                sc = np.max(np.abs(b.xi))
            elif k.startswith('theta'):
                sc = (np.max(np.abs(b.px)) + np.max(np.abs(b.py))
                      ) / r0['avg_ene']
            elif 'spread' in k:
                sc = 1.
            close(r[k], ex[k], tol, 0, f'{k} {what}', scale=sc)
    p = rng(c['seed']).permutation(len(b.w))
    cmp(ana(b.w[p], s[:, p]), r0, 'after reordering')
    f = c['f']
    cmp(ana(b.w * f, s), dict(r0, q_tot=r0['q_tot'] * f,
                              i_peak=r0['i_peak'] * f), 'after scaling w')
    sh = s.copy()
    sh[0] += c['dx'] * c['b']['sx']
    cmp(ana(b.w, sh, 3.), dict(r0, x_avg=r0['x_avg'] + c['dx'] *
                               c['b']['sx'], prop_dist=3.), 'after a shift')
    ex = {k: r0[k[:-1] + {'x': 'y', 'y': 'x'}[k[-1]]] if k[-2:] in
          ('_x', '_y') else r0[k] for k in KEYS}
    ex.update(x_avg=r0['y_avg'], y_avg=r0['x_avg'])
    W, T = ({'x': M['y'], 'y': M['x']} for M in (W, T))
    b.x, b.y = b.y, b.x
    cmp(ana(b.w, s[[1, 0, 2, 4, 3, 5]]), ex, 'after exchanging x and y')
    ctx.nontrivial()


@R.part('lists', d(bs=lists(bunch, max_size=5), o=opts,
                   sub=st.booleans()), quick=450, thorough=4000,
        rule='list of bunches against the analysis of each one, in order, '
             'and through a file; non-trivial: >= 2 bunches')
def lists(c, ctx):
    from wake_t.diagnostics import analyze_bunch, analyze_bunch_list
    from wake_t.diagnostics.bunch_analysis import (
        save_parameters_to_file, read_parameters_from_file)
    bs = [make(b) for b in c['bs']]
    kw = {}
    if c['o']['n_slices'] is not None:
        kw['n_slices'] = c['o']['n_slices']
    before = [snap(b) for b in bs]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = analyze_bunch_list(bs, **kw)
        each = [analyze_bunch(b, **kw) for b in bs]
    for b, s in zip(bs, before):
        eq(snap(b), s, 'bunch after the analysis')
    check(set(r) == KEYS, 'parameters {}', sorted(r))
    for k in KEYS:
        v = np.asarray(r[k])
        check(v.shape == (len(bs),), '{} has shape {}', k, v.shape)
        e = np.array([x[k] for x in each])
        check(np.array_equal(v, e, equal_nan=True), '{} of the list: {}, '
              'each alone: {}', k, v, e)
    with scratch() as tmp:
        folder = os.path.join(tmp, 'x', 'y') if c['sub'] else tmp
        for data in [r] + each[:1]:
            save_parameters_to_file(data, folder, 'params')
            back = read_parameters_from_file(
                os.path.join(folder, 'params.h5'))
            check(set(back) == KEYS, 'parameters in the file {}',
                  sorted(back))
            for k in KEYS:
                check(np.array_equal(back[k], data[k], equal_nan=True),
                      '{} from the file: {}, saved {}', k, back[k], data[k])
    ctx.label(f'{len(bs)} bunches')
    ctx.nontrivial(len(bs) > 1)
