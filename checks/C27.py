"""C27: invalid configurations are rejected and leave the inputs untouched."""
import copy
import os
import numpy as np
import scipy.constants as ct
from hypothesis import strategies as st
from vp import lists, Registry, Violation, check, close, same, d, fl, logfl, seeds
from refs import bunch_case, make_bunch, poly_field, poly_coeffs, py_field
from C03 import quiet, scratch, snap, eq
import sims

R = Registry()
ENV = {'WAKET_DISABLE_CACHING': '0', 'NUMBA_CACHE_DIR': 'numba_cache'}
MODELS = ['simple_blowout', 'custom_blowout', 'focusing_blowout',
          'cold_fluid_1d', 'quasistatic_2d']
SETS = {'model': MODELS, 'pusher': ['boris', 'rk4'],
        'plasma_pusher': ['rk4', 'ab5'], 'p_shape': ['linear', 'cubic'],
        'profile': ['inverse_square', 'exponential', 'gaussian'],
        'format': ['astra', 'csrtrack', 'openpmd']}
OTHERS = sorted({v for vs in SETS.values() for v in vs} |
                {'none', 'auto', 'quasistatic', 'euler', 'ngp', 'vay', 'rk2',
                 'ab2', 'ab4', 'quadratic', 'step', 'sdds', 'blowout'})


@st.composite
def names(draw, valid):
    """A name close to a valid one, or any text; sometimes a valid one."""
    v = draw(st.sampled_from(valid))
    how = draw(st.integers(0, 8))
    if how == 0:
        return v
    if how == 1:
        return draw(st.sampled_from([v.upper(), v.capitalize(), v.title()]))
    if how == 2:
        i = draw(st.integers(0, len(v) - 1))
        return v[:i] + v[i + 1:]
    if how == 3:
        i = draw(st.integers(0, len(v)))
        return v[:i] + draw(st.sampled_from(list(' _-1aqz'))) + v[i:]
    if how == 4:
        return draw(st.sampled_from(OTHERS))
    if how == 5:
        return draw(st.text(st.characters(min_codepoint=32,
                                          max_codepoint=126), max_size=12))
    if how == 6:
        return v[:draw(st.integers(1, len(v) - 1))]
    if how == 7:
        return v + draw(st.sampled_from(['2', '_2d', 's', ' ', '\n']))
    return draw(st.sampled_from([v[::-1], v + v, v.replace('_', ' ')]))


def expect(fn, what, named=None):
    """The call raises a ValueError that names the offending value."""
    try:
        with quiet():
            fn()
    except ValueError as e:
        if named is not None:
            check(str(named) in str(e), '{}: the error does not name {!r}: '
                  '{}', what, named, e)
        return
    raise Violation(f'{what}: accepted')


def accept(fn, what):
    try:
        with quiet():
            return fn()
    except Exception as e:
        raise Violation(f'{what}: rejected with {type(e).__name__}: {e}')


bunches_s = lists(bunch_case(3, pz=(100., 2e3), xi=(-1e-5, 1e-5)),
                     min_size=1, max_size=3)


def bunches(c, names=None):
    return [make_bunch(x, name=names[i] if names else f'b{i}',
                       prop_distance=1e-3 * i,
                       tags=np.arange(len(x['parts'])))
            for i, x in enumerate(c)]


def untouched(bs, before, what):
    for b, s in zip(bs, before):
        eq(snap(b), s, what + ': the given bunch')


# ----------------------------------------------------- options of elements

element = st.one_of(
    d(opt=st.just('model'), v=names(MODELS), ramp=st.booleans()),
    d(opt=st.just('pusher'), v=names(SETS['pusher']),
      el=st.sampled_from(['field', 'stage', 'ramp', 'lens', 'quad'])),
    d(opt=st.just('profile'), v=names(SETS['profile'])),
    d(opt=st.just('density'), v=st.sampled_from(
        ['int', 'str', 'none', 'list', 'array', 'f32', 'f64', 'float',
         'function', 'callable']), model=st.sampled_from(
             ['focusing_blowout', 'none', 'cold_fluid_1d']),
      n=logfl(1e20, 1e24)),
    d(opt=st.just('dt'), n=st.integers(0, 4), auto=st.booleans(),
      el=st.sampled_from(['field', 'stage', 'lens', 'quad'])),
    d(opt=st.just('names'), names=lists(st.sampled_from(
        ['a', 'b', 'A', 'a ', 'driver']), min_size=3, max_size=3),
      opmd=st.booleans(), el=st.sampled_from(['field', 'lens'])),
    d(opt=st.just('lens'), wake=st.booleans(), dens=st.one_of(
        st.none(), logfl(1e20, 1e22))))


class Density:
    def __init__(self, n):
        self.n = n

    def __call__(self, z):
        return np.ones_like(z) * self.n


def make_el(kind, L, **kw):
    from wake_t import PlasmaStage, PlasmaRamp, ActivePlasmaLens
    from wake_t.beamline_elements import FieldElement, FieldQuadrupole
    kw.setdefault('dt_bunch', L / ct.c / 2)
    if kind == 'field':
        return FieldElement(L, **kw)
    if kind == 'stage':
        return PlasmaStage(L, 1e22, 'focusing_blowout', **kw)
    if kind == 'ramp':
        return PlasmaRamp(L, plasma_dens_top=1e22, decay_length=L / 3,
                          wakefield_model='focusing_blowout', **kw)
    if kind == 'lens':
        return ActivePlasmaLens(L, 100., **kw)
    return FieldQuadrupole(L, 100., **kw)


@R.part('elements', d(o=element, b=bunches_s, L=logfl(1e-5, 1e-3)),
        quick=940, thorough=12000, env=ENV,
        rule='an option of an element with a valid or invalid value: invalid '
             'ones raise ValueError naming the value, before any bunch is '
             'touched; valid ones run; non-trivial: invalid value')
def elements(c, ctx):
    from wake_t import PlasmaStage, PlasmaRamp, ActivePlasmaLens
    o, L = c['o'], c['L']
    opt = o['opt']
    bs = bunches(c['b'])
    before = [snap(b) for b in bs]
    bad = True
    if opt == 'model':
        bad = o['v'] not in MODELS
        kw = dict(wakefield_model=o['v'])
        if not bad:
            if o['v'] in ('simple_blowout', 'custom_blowout'):
                kw['laser'] = sims.make_laser(dict(
                    a0=1., xi_c=0., w0=1e-5, tau=1e-14, l0=8e-7, pol='linear',
                    zf=0.))
            if o['v'] == 'custom_blowout':
                kw.update(lon_field=1e9, lon_field_slope=0., foc_strength=1e3)
            if o['v'] in ('cold_fluid_1d', 'quasistatic_2d'):
                kw.update(sims.GRID, n_r=6, n_xi=8)

        def go():
            if o['ramp']:
                return PlasmaRamp(L, plasma_dens_top=1e22, decay_length=L,
                                  **kw)
            return PlasmaStage(L, 1e22, **kw)
        what = f'wakefield model {o["v"]!r}'
        if bad:
            expect(go, what, o['v'])
        else:
            check(accept(go, what).wakefield is not None, '{}: no wakefield',
                  what)
    elif opt == 'pusher':
        bad = o['v'] not in SETS['pusher']

        def go():
            make_el(o['el'], L, bunch_pusher=o['v']).track(
                bs, show_progress_bar=False)
        what = f'pusher {o["v"]!r} of {o["el"]}'
        (expect(go, what, o['v']) if bad else accept(go, what))
    elif opt == 'profile':
        bad = o['v'] not in SETS['profile']

        def go():
            PlasmaRamp(L, profile=o['v'], decay_length=L, plasma_dens_top=1e22,
                       wakefield_model='focusing_blowout').track(
                           bs, show_progress_bar=False)
        what = f'ramp profile {o["v"]!r}'
        (expect(go, what, o['v']) if bad else accept(go, what))
    elif opt == 'density':
        n = o['n']
        v = dict(int=int(n), str=str(n), none=None, list=[n], f64=np.float64(n),
                 array=np.array([n]), f32=np.float32(n), float=n,
                 function=lambda z: n * np.ones_like(z),
                 callable=Density(n))[o['v']]
        bad = o['v'] not in ('f64', 'float', 'function', 'callable')
        kw = {}
        if o['model'] == 'cold_fluid_1d':
            kw = dict(sims.GRID, n_r=6, n_xi=8)

        def go():
            PlasmaStage(L, v, None if o['model'] == 'none' else o['model'],
                        dt_bunch=L / ct.c, **kw).track(
                            bs, show_progress_bar=False)
        what = f'density of type {type(v).__name__}'
        (expect(go, what, type(v).__name__) if bad else accept(go, what))
    elif opt == 'dt':
        bad = o['n'] != len(bs)
        dt = [L / ct.c / (i + 1) for i in range(o['n'])]
        if o['auto'] and o['el'] != 'field':
            dt[:1] = ['auto'] * len(dt[:1])
        el = make_el(o['el'], L, dt_bunch=dt)

        def go():
            el.track(bs, show_progress_bar=False)
        what = f'{o["n"]} time steps for {len(bs)} bunches'
        (expect(go, what) if bad else accept(go, what))
        if bad and 1 <= o['n'] < len(bs):      # the element is still good
            part = bs[:o['n']]
            bs, before = bs[o['n']:], before[o['n']:]
            accept(lambda: el.track(part, show_progress_bar=False),
                   what + ', then as many')
    elif opt == 'names':
        ns = o['names'][:len(bs)]
        bs = bunches(c['b'], ns)
        before = [snap(b) for b in bs]
        bad = o['opmd'] and len(set(ns)) < len(ns)
        el = make_el(o['el'], L)
        with scratch() as p:
            def go():
                el.track(bs, opmd_diag=o['opmd'], diag_dir=p,
                         show_progress_bar=False)
            what = f'bunches called {ns}, openPMD output {o["opmd"]}'
            dup = [n for n in ns if ns.count(n) > 1]
            (expect(go, what, dup[0] if len(set(dup)) == 1 else None) if bad
             else accept(go, what))
    else:
        bad = o['wake'] and o['dens'] is None
        kw = dict(sims.GRID, n_r=6, n_xi=8,
                  wakefield_model='cold_fluid_1d') if o['wake'] else {}

        def go():
            ActivePlasmaLens(L, 100., wakefields=o['wake'], density=o['dens'],
                             dt_bunch=L / ct.c, **kw).track(
                                 bs, show_progress_bar=False)
        what = f'lens with density {o["dens"]} and wakefields {o["wake"]}'
        (expect(go, what) if bad else accept(go, what))
    if bad:
        untouched(bs, before, what)
    ctx.nontrivial(bad)
    ctx.label(opt + (' invalid' if bad else ' valid'))


# ----------------------------------------------------------- wakefields

wake = st.one_of(
    d(opt=st.just('plasma_pusher'), v=names(SETS['plasma_pusher'])),
    d(opt=st.just('p_shape'), v=names(SETS['p_shape']),
      model=st.sampled_from(['cold_fluid_1d', 'quasistatic_2d'])),
    d(opt=st.just('parabolic'), v=st.sampled_from(
        ['int', 'str', 'none', 'list', 'f32', 'float', 'f64', 'function'])),
    d(opt=st.just('substeps'), v=st.integers(-2, 3),
      model=st.sampled_from(['cold_fluid_1d', 'quasistatic_2d'])))


@R.part('wakefields', d(o=wake, m=sims.model_case(), b=bunches_s,
                        L=logfl(1e-5, 1e-4), n_out=st.integers(0, 2)),
        quick=200, thorough=5000, weight=3,
        rule='an option of a gridded wakefield with a valid or invalid value '
             'in a stage with bunches: invalid ones raise ValueError before '
             'any bunch is touched; valid ones run; non-trivial: invalid')
def wakefields(c, ctx):
    o, L, m = c['o'], c['L'], dict(c['m'], model='quasistatic_2d', laser=None)
    opt = o['opt']
    m['model'] = o.get('model', 'quasistatic_2d')
    bs = bunches(c['b'])
    for b in bs:                # inside the box: something is deposited
        b.xi[:] = np.clip(b.xi, -2e-5, 5e-6)
    before = [snap(b) for b in bs]
    if opt in ('plasma_pusher', 'p_shape'):
        bad = o['v'] not in SETS[opt]
        kw, named = {opt: o['v']}, o['v']
        what = f'{opt} {o["v"]!r} of {m["model"]}'
    elif opt == 'parabolic':
        v = dict(int=10, str='1e8', none=None, list=[1e8],
                 f32=np.float32(1e8), float=1e8, f64=np.float64(1e8),
                 function=lambda z: 1e8 * np.ones_like(z))[o['v']]
        bad = o['v'] in ('int', 'str', 'none', 'list', 'f32')
        kw, named = dict(parabolic_coefficient=v), type(v).__name__
        what = f'parabolic coefficient of type {type(v).__name__}'
    else:
        bad = o['v'] < 1
        kw, named = dict(laser_envelope_substeps=o['v']), None
        m['laser'] = c['m']['laser'] or dict(
            a0=.5, xi_c=-1e-5, w0=1e-5, tau=1e-14, l0=8e-7, pol='linear',
            zf=0.)
        what = f'{o["v"]} laser substeps'

    def go():
        p = dict(dt_bunch=L / ct.c, n_out=c['n_out'])
        p.update(kw)
        sims.make_stage(m, L, **p).track(bs, show_progress_bar=False)
    (expect(go, what, named) if bad else accept(go, what))
    if bad:
        untouched(bs, before, what)
    else:
        check(any(b.prop_distance != s['prop_distance'] for b, s in
                  zip(bs, before)), '{}: nothing was tracked', what)
    ctx.nontrivial(bad)
    ctx.label(opt + (' invalid' if bad else ' valid'))


# -------------------------------------------------------------- lasers

pulse = d(l0=st.sampled_from([0.8e-6, 0.8e-6, 1.03e-6, 0.8000001e-6]),
          pol=st.sampled_from(['linear', 'linear', 'circular']),
          a0=fl(.1, 2.), kind=st.sampled_from(['gauss', 'lg', 'flat', 'sum']))


def make_pulse(p):
    from wake_t import GaussianPulse, LaguerreGaussPulse, FlattenedGaussianPulse
    kw = dict(l_0=p['l0'], polarization=p['pol'])
    if p['kind'] in ('gauss', 'sum'):
        g = GaussianPulse(-1e-5, p['a0'], 1e-5, 2e-14, **kw)
        return g + GaussianPulse(0., .1, 2e-5, 1e-14, **kw) \
            if p['kind'] == 'sum' else g
    if p['kind'] == 'lg':
        return LaguerreGaussPulse(-1e-5, 1, p['a0'], 1e-5, 2e-14, **kw)
    return FlattenedGaussianPulse(-1e-5, p['a0'], 1e-5, 2e-14, N=3, **kw)


grid = d(xi_min=st.sampled_from([-3e-5, -3.1e-5]),
         xi_max=st.sampled_from([1e-5, 1.1e-5]),
         r_max=st.sampled_from([2e-5, 2.1e-5]),
         nz=st.sampled_from([10, 12]), nr=st.sampled_from([6, 7]),
         snz=st.sampled_from([None, None, 10, 15]),
         snr=st.sampled_from([None, None, 6, 9]))


@R.part('lasers', d(p=pulse, q=pulse, g=grid, change=lists(
    st.sampled_from(['xi_min', 'xi_max', 'r_max', 'nz', 'nr', 'snz', 'snr',
                     'dt', 'nt', 'phase']), max_size=2, unique=True),
    nt=st.integers(-1, 2), evolve=st.booleans(), init=st.booleans()),
    quick=630, thorough=8000,
    rule='sums of pulses of equal or different wavelength and polarisation; '
         'initialisation before the grid is set; grids changed before or '
         'after the initialisation; non-trivial: something invalid')
def lasers(c, ctx):
    p, q = make_pulse(c['p']), make_pulse(c['q'])
    l0 = (p.l_0, q.l_0)
    bad = c['p']['l0'] != c['q']['l0'] or c['p']['pol'] != c['q']['pol']
    what = (f'sum of pulses {c["p"]["l0"]} {c["p"]["pol"]} and '
            f'{c["q"]["l0"]} {c["q"]["pol"]}')
    (expect if bad else accept)(lambda: p + q, what)
    check((p.l_0, q.l_0) == l0, 'pulses changed by a sum')
    any_bad = bad
    expect(lambda: p.initialize_envelope(), 'envelope without grid')
    check(p.get_envelope() is None, 'envelope without grid exists')

    def params(ch=(), **kw):
        g = dict(c['g'], dt=1e-15, nt=1, use_phase=True)
        alt = dict(xi_min=-2.9e-5, xi_max=.9e-5, r_max=1.9e-5, nz=11, nr=8,
                   snz=20, snr=11, dt=2e-15, nt=2, use_phase=False)
        for k in ch:
            k = 'use_phase' if k == 'phase' else k
            g[k] = alt[k]
        g['subgrid_nz'], g['subgrid_nr'] = g.pop('snz'), g.pop('snr')
        g.update(kw)
        return g
    (expect if c['nt'] < 1 else accept)(
        lambda: p.set_envelope_solver_params(**params(nt=c['nt'])),
        f'{c["nt"]} substeps')
    accept(lambda: p.set_envelope_solver_params(**params()), 'grid')
    n = (c['g']['nz'], c['g']['nr'])
    changed = [k for k in c['change'] if k not in ('dt', 'nt', 'phase')]
    if c['init']:
        p.initialize_envelope()
        if c['evolve']:
            p.evolve(np.zeros(n), 1e23)
        e0 = np.array(p.get_envelope())
        check(e0.shape == n, 'envelope of shape {}', e0.shape)

        def grid_of(g):
            """The grid of the envelope and the one the solver works on."""
            use = g['subgrid_nz'] is not None or g['subgrid_nr'] is not None
            return [g[k] for k in ('xi_min', 'xi_max', 'r_max', 'nz', 'nr')] \
                + [g['subgrid_nz'] or g['nz'], g['subgrid_nr'] or g['nr'],
                   use]
        g0, g1 = grid_of(params()), grid_of(params(c['change']))
        bad = g0[:7] != g1[:7]
        what = f'grid of an initialised pulse with new {c["change"]}'
        (expect if bad else accept)(
            lambda: p.set_envelope_solver_params(**params(c['change'])), what)
        same(p.get_envelope(), e0, 'envelope after ' + what)
        if bad:                # goes on with the old grid
            accept(lambda: p.evolve(np.zeros(n), 1e23),
                   'evolution after a rejected grid')
            check(np.array(p.get_envelope()).shape == n,
                  'shape after a rejected grid')
        any_bad |= bad
    else:
        accept(lambda: p.set_envelope_solver_params(**params(c['change'])),
               f'new {c["change"]} before the initialisation')
        p.initialize_envelope()
        g = params(c['change'])
        check(np.array(p.get_envelope()).shape == (g['nz'], g['nr']),
              'envelope of shape {}', np.array(p.get_envelope()).shape)
    ctx.nontrivial(any_bad or c['nt'] < 1)
    ctx.label('initialised' if c['init'] else 'not initialised')


# --------------------------------------------------------------- files

@R.part('files', d(b=bunches_s, fmt=names(SETS['format']),
                   ask=st.sampled_from([None, 'b0', 'b2', 'nope'])),
        quick=240, thorough=1500, env=ENV,
        rule='saving and reading with valid or invalid formats, and openPMD '
             'files with several species; non-trivial: invalid or ambiguous')
def files(c, ctx):
    from wake_t.utilities.bunch_saving import save_bunch_to_file
    from wake_t.utilities.bunch_generation import get_from_file
    from wake_t.beamline_elements import FieldElement
    bs = bunches(c['b'])
    before = [snap(b) for b in bs]
    with scratch() as p, quiet():
        if c['fmt'] not in SETS['format']:
            for fn in (lambda: save_bunch_to_file(
                    bs[0], c['fmt'], os.path.join(p, 'x')),
                    lambda: get_from_file(os.path.join(p, 'x'), c['fmt'])):
                try:
                    fn()
                except Exception:
                    pass
                else:
                    raise Violation(f'file format {c["fmt"]!r} accepted')
            check(not os.listdir(p), 'files left after format {!r}: {}',
                  c['fmt'], os.listdir(p))
        untouched(bs, before, f'format {c["fmt"]!r}')
        FieldElement(1e-6, 1e-6 / ct.c, n_out=1).track(
            bs, opmd_diag=True, diag_dir=p, show_progress_bar=False)
        f = os.path.join(p, 'hdf5', 'data00000000.h5')
        there = [b.name for b in bs]
        if c['ask'] is None and len(bs) == 1:
            b = accept(lambda: get_from_file(f, 'openpmd'), 'single species')
            check(b.name == bs[0].name, 'name {!r} read, {!r} saved', b.name,
                  bs[0].name)
        elif c['ask'] is None:
            try:
                get_from_file(f, 'openpmd')
            except ValueError as e:
                for n in there:
                    check(n in str(e), 'species {!r} not named: {}', n, e)
            else:
                raise Violation('one of several species chosen')
        elif c['ask'] in there:
            b = accept(lambda: get_from_file(f, 'openpmd',
                                             species_name=c['ask']), 'species')
            check(b.name == c['ask'], 'species {!r} read as {!r}', c['ask'],
                  b.name)
            check(b.w.size == bs[there.index(c['ask'])].w.size, 'other species'
                  ' read')
        else:
            try:
                get_from_file(f, 'openpmd', species_name=c['ask'])
            except Exception:
                pass
            else:
                raise Violation(f'missing species {c["ask"]!r} read')
    ctx.nontrivial(c['fmt'] not in SETS['format'] or c['ask'] not in there)
    ctx.label('format invalid' if c['fmt'] not in SETS['format'] else
              'format valid', f'ask {c["ask"]}')
