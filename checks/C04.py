"""C04: particles act on each other only through the simulated fields."""
import numpy as np
import scipy.constants as ct
from hypothesis import strategies as st
from vp import lists, Registry, check, close, same, d, fl, logfl, seeds, rng
from refs import bunch_case, make_bunch, state, close_state, SPECIES
from C03 import make_tm, tm
import C05
import sims

R = Registry()


def sub(c, idx):
    return dict(parts=[c['parts'][i] for i in idx], species=c['species'])


@R.part('external', d(
    fields=lists(C05.spec, min_size=0, max_size=3, unique_by=lambda s:
                    s['kind'] if s['kind'] not in ('map', 'python')
                    else s['seed']),
    bunch=bunch_case(14, size=8e-6, xi=(-2e-5, 1e-5), pz=(20., 2e4)),
    other=bunch_case(4, size=8e-6, xi=(-2e-5, 1e-5), pz=(20., 2e4)),
    pusher=st.sampled_from(['boris', 'rk4']), seed=seeds,
    steps=fl(0.4, 5.), L=logfl(1e-6, 2e-5), where=st.integers(0, 2),
    same=st.booleans()),
    quick=620, thorough=5000,
    rule='bunch tracked alone, permuted, in arbitrary groups as separate '
         'bunches (in any order) and next to another bunch: same coordinates '
         'per particle; non-trivial: >=2 particles and >=1 field')
def external(c, ctx):
    from wake_t.beamline_elements import FieldElement
    fs = [C05.instance(s) for s in c['fields']]
    L = c['L']
    n = len(c['bunch']['parts'])
    g = rng(c['seed'])

    def track(bs, dts=None):
        dt = L / ct.c / c['steps']
        el = FieldElement(L, dt_bunch=dt if dts is None else dts,
                          bunch_pusher=c['pusher'], n_out=1, fields=fs)
        out = el.track(bs, show_progress_bar=False)
        return out
    ref = make_bunch(c['bunch'])
    track(ref)
    exp = state(ref)
    w0 = make_bunch(c['bunch']).w
    same(ref.w, w0, 'weights')

    def compare(b, idx, what):
        close_state(state(b), exp[:, idx], what, rtol=1e-10, dt=L / ct.c)
        same(b.w, w0[idx], what + ': weights')
        close(b.prop_distance, ref.prop_distance, 1e-12, 0, what)
    # permutation
    pm = g.permutation(n)
    b = make_bunch(sub(c['bunch'], pm))
    track(b)
    compare(b, pm, 'reordered bunch')
    # groups, as separate bunches and next to another bunch
    lab = g.randint(0, 3, n)
    groups = [np.nonzero(lab == k)[0] for k in range(3)]
    groups = [x for x in groups if len(x)]
    bs = [make_bunch(sub(c['bunch'], x), name='g' if c['same'] else f'g{i}')
          for i, x in enumerate(groups)]
    extra = make_bunch(c['other'], name='other')
    lst = list(bs)
    lst.insert(min(c['where'], len(lst)), extra)
    # the other bunch may even use another time step
    dt = L / ct.c / c['steps']
    dts = [dt * 0.37 if x is extra else dt for x in lst]
    out = track(lst, dts)
    check(len(out) == len(lst), 'outputs of {} bunches for {}', len(out),
          len(lst))
    for b, idx in zip(bs, groups):
        compare(b, idx, 'group tracked next to others')
    for o, x in zip(out, lst):
        check(o[-1].name == x.name, 'outputs of {} listed for {}', o[-1].name,
              x.name)
        close_state(state(o[-1]), state(x), 'output', dt=L / ct.c)
    alone = make_bunch(c['other'])
    el_dt = [dt * 0.37]
    track(alone, el_dt)
    close_state(state(extra), state(alone), 'other bunch', rtol=1e-10,
                dt=L / ct.c)
    ctx.nontrivial(n > 1 and len(fs) > 0)
    ctx.label(f'groups={len(groups)}', f'fields={len(fs)}')


@R.part('auto', d(
    kind=st.sampled_from(['focusing', 'custom', 'simple', 'ramp', 'lens',
                          'quad']),
    bunches=lists(bunch_case(4, size=8e-6, xi=(-2e-5, 1e-5), pz=(5., 2e4)),
                  min_size=2, max_size=4), L=logfl(1e-4, 1e-1),
    n_p=logfl(1e21, 1e24), n_out=st.integers(0, 3),
    fixed=lists(st.booleans(), min_size=4, max_size=4),
    pusher=st.sampled_from(['boris', 'rk4']), seed=seeds), quick=260,
    thorough=3000, env={'WAKET_DISABLE_CACHING': '0',
                        'NUMBA_CACHE_DIR': 'numba_cache'},
    rule='several bunches with automatic time step (some with a fixed one) '
         'in a stage, ramp, lens or quadrupole: each as when it is tracked '
         'alone; non-trivial: bunches of different automatic steps')
def auto(c, ctx):
    import wake_t
    from wake_t.beamline_elements import FieldQuadrupole
    # not more than some hundred steps for the lightest bunch
    lam = 5.3e-6 * np.sqrt(1e25 / c['n_p']) * np.sqrt(min(
        p['pz'] for b in c['bunches'] for p in b['parts']))
    L = min(c['L'], 10 * lam)
    n = len(c['bunches'])

    def element(dts):
        kw = dict(n_out=c['n_out'], bunch_pusher=c['pusher'], dt_bunch=dts)
        if c['kind'] == 'quad':
            return FieldQuadrupole(L, .1 / L, **kw)
        if c['kind'] == 'lens':
            return wake_t.ActivePlasmaLens(L, .1 / L, **kw)
        if c['kind'] == 'ramp':
            return wake_t.PlasmaRamp(L, decay_length=L / 2,
                                     plasma_dens_top=c['n_p'], **kw)
        if c['kind'] == 'simple':
            kw['laser'] = wake_t.GaussianPulse(1.5e-5, 1., 1e-5, 1e-14)
        if c['kind'] == 'custom':
            kw.update(lon_field=-1e7, lon_field_slope=1e10,
                      foc_strength=1e-19 * c['n_p'], xi_fields=0.,
                      laser=wake_t.GaussianPulse(1.5e-5, 1., 1e-5, 1e-14))
        return wake_t.PlasmaStage(L, c['n_p'], {
            'focusing': 'focusing_blowout', 'custom': 'custom_blowout',
            'simple': 'simple_blowout'}[c['kind']], **kw)
    dts = ['auto' if not f else L / ct.c / 5.3
           for f in c['fixed'][:n]]
    alone, outs, steps = [], [], []
    for i, x in enumerate(c['bunches']):
        b = make_bunch(x, name=f'b{i}')
        cnt = count(b)
        outs.append(element([dts[i]]).track(b, show_progress_bar=False))
        alone.append(b)
        steps.append(cnt[0])
    order = rng(c['seed']).permutation(n)
    bs = [make_bunch(c['bunches'][i], name=f'b{i}') for i in order]
    ds = [dts[i] for i in order]
    if 'auto' in ds and len(set(map(str, ds))) == 1:
        ds = 'auto'
    cs = [count(b) for b in bs]
    res = element(ds).track(bs, show_progress_bar=False)
    for k, i in enumerate(order):
        check(cs[k][0] == steps[i], 'bunch {} of {} is pushed {} times, {} '
              'times alone', i, n, cs[k][0], steps[i])
        close_state(state(bs[k]), state(alone[i]), f'bunch {i} of {n}',
                    rtol=1e-11, dt=L / ct.c)
        check(len(res[k]) == len(outs[i]), 'number of outputs')
        for o, e in zip(res[k], outs[i]):
            close_state(state(o), state(e), f'output of bunch {i} of {n}',
                        rtol=1e-11, dt=L / ct.c)
    ctx.nontrivial(len(set(steps)) > 1)
    ctx.label(c['kind'])


def count(b):
    """Count the pushes of a bunch."""
    n, ev = [0], b.evolve

    def evolve(*a, **k):
        n[0] += 1
        return ev(*a, **k)
    b.evolve = evolve
    return n


@R.part('transfer', d(bunch=bunch_case(14, pz=(950., 1050.), ang=2e-3,
                                       xi=(-1e-4, 1e-4), size=1e-4),
                      t=tm, n_out=st.one_of(st.none(), st.integers(1, 3)),
                      g=fl(900, 1100), seed=seeds),
        quick=1200, thorough=8000,
        rule='transfer maps with a given gamma_ref: particles tracked '
             'together, permuted or in groups; non-trivial: >=2 particles')
def transfer(c, ctx):
    from wake_t.physics_models.collective_effects.csr import (
        reset_csr_calculator)
    reset_csr_calculator()
    n = len(c['bunch']['parts'])
    g = rng(c['seed'])

    def track(idx):
        b = make_bunch(sub(c['bunch'], idx))
        el = make_tm(c['t'], c['n_out'])
        el.gamma_ref = c['g']
        el.track(b, show_progress_bar=False)
        return b
    exp = state(track(range(n)))
    pm = g.permutation(n)
    lists = [pm] + [[i] for i in range(n)] + [np.nonzero(
        g.rand(n) < 0.5)[0]]
    for idx in lists:
        if len(idx) == 0:
            continue
        b = track(idx)
        got = state(b)
        for k, nm in enumerate(('x', 'y', 'xi', 'px', 'py', 'pz')):
            close(got[k], exp[k][idx], 1e-11, 1e-16 if k < 3 else 1e-9,
                  f'{nm} of particles {list(map(int, idx))}')
    ctx.nontrivial(n > 1)
    ctx.label(c['t']['kind'])


def self_part(name, kinds, quick, thorough, weight):
    @R.part(name, d(
        m=sims.model_case(kinds), bunches=lists(
            sims.bulk_case(20, w=(1e3, 1e6)), min_size=1, max_size=2),
        witness=sims.bulk_case(6), L=fl(3e-5, 1.2e-4), df=fl(0.3, 1.),
        steps=fl(1., 4.), bp=st.sampled_from(['boris', 'rk4']), seed=seeds,
        same=st.booleans()),
        quick=quick, thorough=thorough, weight=weight,
        rule='self-consistent stage: particles and bunches reordered, bunches '
             'cut in two, macroparticles split in several of the same total '
             'charge, zero-charge witnesses added: final coordinates and '
             'fields equal up to rounding; non-trivial: >=2 particles and '
             'non-zero wakefield')
    def run(c, ctx):
        g = rng(c['seed'])
        nb = len(c['bunches'])

        def track(bs):
            stg = sims.make_stage(
                c['m'], c['L'], dz_fields=c['L'] * c['df'], n_out=1,
                dt_bunch=c['L'] / ct.c / c['steps'], bunch_pusher=c['bp'])
            stg.track(bs, show_progress_bar=False)
            return sims.field_state(stg.wakefield)
        ref = [sims.bulk_bunch(x, name=f'b{i}')
               for i, x in enumerate(c['bunches'])]
        w0 = [b.w.copy() for b in ref]
        f0 = track(ref)
        exp = [state(b) for b in ref]

        def same_fields(f, what):
            for k in f0:
                close(f[k], f0[k], TOL, 1e-300, f'{k} with {what}')

        def same_parts(b, e, what):
            got = state(b)
            for k in range(6):
                close(got[k], e[k], TOL, 1e-15 if k < 3 else TOL,
                      f'{"x y xi px py pz".split()[k]} with {what}')
        # reordered particles and bunches
        pms = [g.permutation(x['n']) for x in c['bunches']]
        bs = [sims.bulk_bunch(x, name=f'b{i}', idx=p)
              for i, (x, p) in enumerate(zip(c['bunches'], pms))]
        f = track(bs[::-1])
        same_fields(f, 'particles and bunches reordered')
        for b, e, p in zip(bs, exp, pms):
            same_parts(b, e[:, p], 'particles and bunches reordered')
        # bunches cut in two
        bs, idx = [], []
        for i, x in enumerate(c['bunches']):
            lab = g.rand(x['n']) < 0.5
            for k, sel in enumerate((lab, ~lab)):
                s = np.nonzero(sel)[0]
                if len(s):
                    bs.append(sims.bulk_bunch(
                        x, name='b' if c['same'] else f'b{i}{k}', idx=s))
                    idx.append((i, s))
        f = track(bs)
        same_fields(f, 'bunches cut in two')
        for b, (i, s) in zip(bs, idx):
            same_parts(b, exp[i][:, s], 'bunches cut in two')
        # macroparticles split, plus zero-charge witnesses
        bs = []
        for i, x in enumerate(c['bunches']):
            idx = np.concatenate([np.arange(x['n'])] * 3)
            b = sims.bulk_bunch(x, name=f'b{i}', idx=idx)
            fr = g.dirichlet([1., 1., 1.], x['n']).T
            b.w = (w0[i][None] * fr).ravel()
            bs.append(b)
        wit = sims.bulk_bunch(c['witness'], name='witness', scale_w=0.)
        f = track([wit] + bs)
        same_fields(f, 'split macroparticles and witnesses')
        for b, e in zip(bs, exp):
            same_parts(b, np.concatenate([e] * 3, axis=1),
                       'split macroparticles and witnesses')
        check(np.all(np.isfinite(state(wit))), 'witness not finite')
        ctx.nontrivial(sum(x['n'] for x in c['bunches']) > 1 and
                       np.abs(f0['e_z']).max() > 0)
        ctx.label(c['m']['model'], f'bunches={nb}',
                  'laser' if c['m']['laser'] else 'no laser')
    return run


TOL = 1e-6
self_part('fluid', ('cold_fluid_1d',), 60, 1500, 3)
self_part('quasistatic', ('quasistatic_2d',), 60, 1500, 5)
