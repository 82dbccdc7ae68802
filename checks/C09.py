"""C09: outputs and reference orbit of transfer-map elements."""
import numpy as np
from hypothesis import strategies as st
from vp import lists, sizes, Registry, check, close, same, d, fl, logfl, seeds, rng
from refs import bunch_case, make_bunch, state
import tmref
from C03 import quiet, snap, eq

R = Registry()
el_case = d(kind=st.sampled_from(['drift', 'dipole', 'quad', 'sext',
                                  'general']),
            L=logfl(1e-2, 2.), theta=st.one_of(fl(0.05, 0.5),
                                               fl(-0.5, -0.05)),
            kl=st.one_of(logfl(0.1, 2.), logfl(0.1, 2.).map(lambda v: -v)),
            k2l=fl(-20, 20), order=st.integers(1, 2),
            n_out=st.one_of(st.none(), sizes(1, 4, 14)),
            g=st.one_of(st.none(), fl(0.97, 1.03)), init=st.booleans(),
            verbose=st.booleans())
bunch = bunch_case(5, size=5e-4, xi=(-5e-4, 5e-4), pz=(0.98, 1.02), ang=2e-3,
                   many=2000)


def params(c):
    L = c['L']
    th, k1, k2 = c['theta'], c['kl'] / L**2, c['k2l'] / L**3
    if c['kind'] == 'drift':
        th = k1 = k2 = 0.
    elif c['kind'] == 'dipole':
        k1 = k2 = 0.
    elif c['kind'] == 'quad':
        th = k2 = 0.
    elif c['kind'] == 'sext':
        th = k1 = 0.
    else:
        k1 = abs(k1)      # keep away from cancelling focusing
    return L, th, k1, k2


def build(c, g0, n_out='own', order=None):
    from wake_t import Drift, Dipole, Quadrupole, Sextupole
    from wake_t.beamline_elements import TMElement
    L, th, k1, k2 = params(c)
    kw = dict(gamma_ref=None if c['g'] is None else c['g'] * g0,
              n_out=c['n_out'] if n_out == 'own' else n_out,
              order=order or c['order'])
    if c['kind'] == 'drift':
        return Drift(L, **kw)
    if c['kind'] == 'dipole':
        return Dipole(L, th, **kw)
    if c['kind'] == 'quad':
        return Quadrupole(L, k1, **kw)
    if c['kind'] == 'sext':
        return Sextupole(L, k2, **kw)
    return TMElement(L, th, k1, k2, **kw)


def make(c, g0, name='b', **kw):
    b = make_bunch(c, name=name, **kw)
    for k in ('px', 'py', 'pz'):
        setattr(b, k, getattr(b, k) * g0)
    return b


def gamma_mean(s, w):
    return np.average(np.sqrt(1 + s[3]**2 + s[4]**2 + s[5]**2), weights=w)


def near(b, e, dist, w, what, g):
    got = state(b)
    for k, nm in enumerate(('x', 'y', 'xi', 'px', 'py', 'pz')):
        close(got[k], e[0][k], 1e-8, 1e-10 if k < 3 else 1e-9 * g,
              f'{nm} {what}')
    same(b.w, w, f'weights {what}')
    close(b.prop_distance, dist, 1e-12, 0, f'prop_distance {what}')
    close(b.theta_ref, e[1], 1e-11, 1e-13, f'theta_ref {what}')
    close(b.x_ref, e[2], 1e-9, 1e-11, f'x_ref {what}')


@R.part('line', d(line=lists(el_case, min_size=1, max_size=4),
                  bunch=bunch, g0=logfl(50., 2e4), z0=fl(0, 10)),
        quick=1800, thorough=15000,
        rule='sequence of elements tracked one after the other: number, '
             'position and content of every output, live bunch, propagation '
             'distance and reference orbit against the reference maps and '
             'plane geometry; non-trivial: >=2 elements and a bend')
def line(c, ctx):
    from wake_t.physics_models.collective_effects.csr import (
        reset_csr_calculator)
    reset_csr_calculator()
    b = make(c['bunch'], c['g0'], prop_distance=c['z0'])
    w = b.w.copy()
    s, th, xr, dist = state(b), 0., 0., c['z0']
    plan = []
    for e in c['line']:
        L, t_, k1, k2 = params(e)
        g = gamma_mean(s, w) if e['g'] is None else e['g'] * c['g0']
        n = e['n_out'] or 1
        exp = tmref.ref_element(s, L, L, t_, k1, k2, g, e['order'], n, th, xr)
        if not all(np.all(np.isfinite(o[0])) for o in exp) or any(
                np.abs(o[0][1]).max() > 0.5 or
                np.abs(o[0][0] - o[2]).max() > 0.5 or
                o[0][5].min() < 0.3 * c['g0'] for o in exp):
            ctx.label('unphysical (cut)')
            break
        plan.append((e, exp, (s, th, xr), g))
        s, th, xr = exp[-1]
    for i, (e, exp, ini, g) in enumerate(plan):
        L = e['L']
        el = build(e, c['g0'])
        printed = e['verbose'] and e['kind'] != 'general'
        with quiet():
            outs = el.track(b, out_initial=e['init'],
                            show_progress_bar=printed)
        what = f'in element {i} ({e["kind"]}, n_out={e["n_out"]})'
        n = (e['n_out'] or 0) + e['init']
        check(len(outs) == n, '{} outputs {}, expected {}', len(outs), what, n)
        if e['init']:
            near(outs[0], ini, dist, w, 'of initial output ' + what, g)
            outs = outs[1:]
        for j, o in enumerate(outs):
            near(o, exp[j], dist + L * (j + 1) / e['n_out'], w,
                 f'of output {j} {what}', g)
            check(o.name == b.name and o.q_species == b.q_species and
                  o.m_species == b.m_species, 'identity of output {}', what)
        dist += L
        near(b, exp[-1], dist, w, 'of live bunch ' + what, g)
        if outs:
            same(state(outs[-1]), state(b), 'last output vs live bunch ' +
                 what)
    ctx.nontrivial(len(plan) > 1 and any(params(p[0])[1] for p in plan))
    ctx.label(f'elements={len(plan)}')


@R.part('outputs', d(e=el_case, bunch=bunch, g0=logfl(50., 2e4),
                     n=st.integers(1, 9)),
        quick=1200, thorough=8000,
        rule='one element with no outputs, n outputs and initial output '
             'gives the same live bunch (first order exactly, second order '
             'up to third-order terms measured by halving the amplitude); '
             'non-trivial: n>1 and not a drift')
def outputs(c, ctx):
    e = c['e']
    res = {}
    for order in (1, 2):
        for sc in (1., 0.5):
            for n in (None, c['n']):
                b = make(c['bunch'], c['g0'])
                pref = np.sqrt(np.mean(b.px**2 + b.py**2 + b.pz**2))
                b.x *= sc
                b.y *= sc
                b.xi *= sc
                b.px *= sc
                b.py *= sc
                b.pz = pref + sc * (b.pz - pref)
                g = np.sqrt(1 + pref**2)
                el = build(e, c['g0'], n_out=n, order=order)
                el.gamma_ref = g
                el.track(b, show_progress_bar=False)
                res[order, sc, n] = state(b)
    if not all(np.all(np.isfinite(v)) for v in res.values()) or any(
            np.abs(v[:2] - v[:2].mean()).max() > 1 for v in res.values()):
        ctx.label('unphysical (skipped)')
        return
    n = c['n']
    for k in range(6):
        at = 1e-11 if k < 3 else 1e-9 * c['g0']
        close(res[1, 1., n][k], res[1, 1., None][k], 1e-9, at,
              f'{"x y xi px py pz".split()[k]} with {n} outputs')
        d1 = np.abs(res[2, 1., n][k] - res[2, 1., None][k])
        d2 = np.abs(res[2, .5, n][k] - res[2, .5, None][k])
        # halving the amplitude reduces third-order differences 8 times
        # (curvature of the energy-momentum conversion included)
        if d1.max() > 1e4 * at:
            check(d2.max() < d1.max() / 4.5,
                  '{} with {} outputs differs by {:.3e} and, with half the '
                  'amplitude, by {:.3e}: not a higher-order difference',
                  "x y xi px py pz".split()[k], n, d1.max(), d2.max())
            ctx.label('third order visible')
    ctx.nontrivial(n > 1 and e['kind'] != 'drift')


@R.part('reuse', d(line=lists(el_case, min_size=1, max_size=3),
                   bunches=lists(d(b=bunch, g0=logfl(900., 1100.)),
                                    min_size=2, max_size=3)),
        quick=900, thorough=6000,
        rule='the same element objects tracked by several bunches of '
             'different energy: each as with fresh elements, attributes of '
             'the elements unchanged; non-trivial: no gamma_ref in >=1')
def reuse(c, ctx):
    els = [build(e, 1000.) for e in c['line']]
    pub = ('length', 'theta', 'k1', 'k2', 'gamma_ref', 'n_out', 'order',
           'csr_on')
    for i, bc in enumerate(c['bunches']):
        b1, b2 = (make(bc['b'], bc['g0']) for _ in range(2))
        o1, o2 = [], []
        for e, el in zip(c['line'], els):
            before = {k: getattr(el, k) for k in pub}
            o1 += el.track(b1, out_initial=e['init'], show_progress_bar=False)
            check({k: getattr(el, k) for k in pub} == before,
                  'tracking changed the parameters of the element')
            o2 += build(e, 1000.).track(b2, out_initial=e['init'],
                                        show_progress_bar=False)
        if not np.all(np.isfinite(state(b2))):
            ctx.label('unphysical (skipped)')
            continue
        eq(snap(b1), snap(b2), f'bunch {i} through reused elements')
        check(len(o1) == len(o2), 'outputs through reused elements')
        for x, y in zip(o1, o2):
            eq(snap(x), snap(y), f'output of bunch {i} in reused elements')
    ctx.nontrivial(any(e['g'] is None for e in c['line']))
