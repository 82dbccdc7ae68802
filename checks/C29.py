"""C29: options left out take their documented defaults."""
import contextlib
import io
import os
import numpy as np
import scipy.constants as ct
from hypothesis import strategies as st
from vp import lists, Registry, Violation, check, same, d, fl, logfl, seeds
from refs import bunch_case, make_bunch, poly_field, py_field
from C03 import quiet, snap, scratch
import sims

R = Registry()
ENV = {'WAKET_DISABLE_CACHING': '0', 'NUMBA_CACHE_DIR': 'numba_cache'}

# wake_t compiles per object; the cache must not move with the working folder
if 'NUMBA_CACHE_DIR' in os.environ:
    import numba
    numba.config.CACHE_DIR = os.path.abspath(os.environ['NUMBA_CACHE_DIR'])

# For every callable: the parameters in documented order, as (name, required)
# or (name, default, other values). `None` as alternatives: not varied.
REQ = object()


def cmp(a, b, what):
    """Exact comparison of nested results."""
    if isinstance(a, (dict, list, tuple)):
        check(type(a) is type(b), '{}: {!r} vs {!r}', what, type(a), type(b))
    if isinstance(a, dict):
        check(set(a) == set(b), '{}: {} vs {}', what, sorted(a), sorted(b))
        for k in a:
            cmp(a[k], b[k], f'{what}: {k}')
    elif isinstance(a, (list, tuple)):
        check(len(a) == len(b), '{}: {} vs {} items', what, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            cmp(x, y, f'{what}[{i}]')
    elif isinstance(a, np.ndarray):
        if a.shape != np.shape(b) or not np.array_equal(
                a, b, equal_nan=a.dtype.kind in 'fc'):
            same(a, b, what)
    elif isinstance(a, float) and a != a:
        check(b != b, '{}: {!r} vs {!r}', what, a, b)
    else:
        check(a == b, '{}: {!r} vs {!r}', what, a, b)


def differs(a, b):
    try:
        cmp(a, b, '')
    except Violation:
        return True
    return False


def split(params, values, pos, omit):
    """Arguments of a call: the first `pos` by position, others by keyword,
    without the options in `omit` (which are then not given by position)."""
    args = []
    for p in params:
        if len(args) >= pos or p[0] in omit or p[0] not in values:
            break
        args.append(values[p[0]])
    done = {p[0] for p in params[:len(args)]}
    return args, {k: v for k, v in values.items()
                  if k not in done and k not in omit}


def decide(params, req, run, c, ctx, what):
    """Everything explicit vs omitted and positional."""
    vals = dict(req)
    opts = [p for p in params if p[1] is not REQ]
    omit = set()
    for p, m, a in zip(opts, c['mask'], c['alt']):
        name, default, alts = p
        if m or not alts:
            vals[name] = default
            if m:
                omit.add(name)
        else:
            vals[name] = ([default] + list(alts))[a % (len(alts) + 1)]
    full = run((), dict(vals))
    # as many by position as the case says, but only up to the first omitted
    args, kw = split(params, vals, c['pos'], omit)
    if c['tail'] and omit:
        # a documented default by position as well
        args, kw = split(params, vals, c['pos'], ())
        kw = {k: v for k, v in kw.items() if k not in omit}
    got = run(args, kw, **({'plain': True} if c.get('nopt') else {}))
    cmp(got, full, f'{what} with {sorted(omit) or "nothing"} left out and '
        f'{len(args)} arguments by position, values {show(vals)}')
    # does it matter?
    seen = False
    for p in opts:
        if p[0] in omit and p[2]:
            other = dict(vals)
            other[p[0]] = p[2][c['alt'][0] % len(p[2])]
            try:
                seen = differs(run((), other), full)
            except ValueError:
                seen = True
            if seen:
                ctx.label(f'{what}.{p[0]}')
                break
    ctx.nontrivial(seen)
    ctx.label(what)


def show(v):
    return {k: x for k, x in v.items() if isinstance(
        x, (int, float, str, bool, type(None)))}


choice = dict(mask=lists(st.booleans(), min_size=14, max_size=14),
              alt=lists(st.integers(0, 5), min_size=14, max_size=14),
              pos=st.integers(0, 9), tail=st.booleans())


# ----------------------------------------------------------------- elements

AUTO = 'auto'
COMMON = [('bunch_pusher', 'boris', ['rk4'])]
PUSH = ('push_bunches_before_diags', True, [False])
OUT = ('n_out', 1, [3, 2, 0, 4])


def name(n):
    return ('name', n, ['another name'])


def elements():
    stage = [('length', REQ), ('density', REQ), ('wakefield_model', REQ),
             *COMMON, ('dt_bunch', AUTO, ['D']), PUSH, OUT,
             name('Plasma stage'), ('external_fields', [], ['F'])]
    return dict(
        SimpleStage=stage + [('field_offset', 0, [3e-6])],
        CustomStage=stage + [('xi_fields', 0., [3e-6])],
        FieldElement=[('length', REQ), ('dt_bunch', REQ), *COMMON, OUT,
                      name('field element'), ('fields', [], ['F']),
                      ('auto_dt_bunch', None, None), PUSH],
        FieldQuadrupole=[('length', REQ), ('foc_strength', REQ),
                         ('dt_bunch', AUTO, ['D']), *COMMON, OUT,
                         name('quadrupole')],
        ActivePlasmaLens=[('length', REQ), ('foc_strength', REQ),
                          ('wakefields', False, None),
                          ('density', None, [1e22]),
                          ('wakefield_model', 'quasistatic_2d',
                           ['cold_fluid_1d']), *COMMON,
                          ('dt_bunch', AUTO, ['D']), PUSH, OUT,
                          name('Active plasma lens')],
        PlasmaStage=[('length', REQ), ('density', REQ),
                     ('wakefield_model', 'simple_blowout',
                      ['focusing_blowout']), *COMMON,
                     ('dt_bunch', AUTO, ['D']), PUSH, OUT,
                     name('Plasma stage'), ('external_fields', [], ['F'])],
        PlasmaRamp=[('length', REQ),
                    ('profile', 'inverse_square',
                     ['exponential', 'gaussian']),
                    ('ramp_type', 'upramp', ['downramp']),
                    ('wakefield_model', 'focusing_blowout', ['S']),
                    ('decay_length', REQ), ('plasma_dens_top', REQ),
                    ('plasma_dens_down', None, None),
                    ('position_down', None, None), *COMMON,
                    ('dt_bunch', AUTO, ['D']), PUSH, OUT,
                    name('Plasma ramp')])


@R.part('elements', d(
    el=st.sampled_from(sorted(elements())), L=logfl(1e-4, 3e-3),
    k=fl(50., 3e3), b=bunch_case(3, pz=(100., 2e3), xi=(-1e-5, 1e-5)),
    steps=fl(1.2, 5.3), line=st.booleans(), nopt=st.booleans(),
    dir=st.booleans(), **choice),
    quick=900, thorough=9000, env=ENV, weight=2,
    rule='elements with fields: any subset of the options left out and any '
         'number of arguments by position, against the same call with all '
         'options spelled out: identical bunches, outputs, field updates and '
         'name on the progress bar; non-trivial: leaving out matters (another '
         'value of an omitted option changes the result)')
def fields(c, ctx):
    import wake_t
    from wake_t import beamline_elements as be
    L = c['L']
    cls = getattr(be, c['el'].replace('Simple', 'Plasma').replace(
        'Custom', 'Plasma'))
    params = elements()[c['el']]
    special = {'D': L / ct.c / c['steps']}
    special['F'] = [py_field(lambda x, y, z, t: (
        1e8 + 1e13 * x, 2e13 * y, -1e9 + 0 * x, 0 * x, 0 * x, 0 * x))]
    special['S'] = 'simple_blowout'
    params = [(p[0], p[1], [special.get(v, v) if isinstance(v, str) else v
                            for v in p[2]] if p[2] else None)
              if len(p) == 3 else p for p in params]
    req = dict(FieldElement=dict(length=L, dt_bunch=L / ct.c / c['steps']),
               FieldQuadrupole=dict(length=L, foc_strength=c['k']),
               ActivePlasmaLens=dict(length=L, foc_strength=c['k']),
               PlasmaStage=dict(length=L, density=1e23),
               SimpleStage=dict(length=L, density=1e23,
                                wakefield_model='simple_blowout'),
               CustomStage=dict(length=L, density=1e23,
                                wakefield_model='custom_blowout'),
               PlasmaRamp=dict(length=L, decay_length=L / 3,
                               plasma_dens_top=1e23))[c['el']]

    at, usual = dict(PlasmaStage=(2, 'simple_blowout'), SimpleStage=(2, ''),
                     CustomStage=(2, ''), PlasmaRamp=(
        3, 'focusing_blowout')).get(c['el'], (99, ''))

    def run(args, kw, plain=False):
        model = kw.get('wakefield_model', usual)
        if len(args) > at:
            model = args[at]
        if model == 'simple_blowout':
            kw = dict(kw, laser=wake_t.GaussianPulse(0., 1., 1e-5, 1e-14))
        elif model == 'custom_blowout':
            kw = dict(kw, laser=wake_t.GaussianPulse(0., 1., 1e-5, 1e-14),
                      lon_field=-1e9, lon_field_slope=3e14, foc_strength=1e5)
        e = cls(*args, **kw)
        b = make_bunch(c['b'], name='b')
        if c['line']:
            e = wake_t.Beamline([e])
        with text() as f, here() as files:
            out = e.track(b, **({} if plain else dict(
                opmd_diag=False, diag_dir='d' if c['dir'] else None,
                show_progress_bar=True)))
        return dict(bunch=snap(b), out=[snap(o) for o in out], files=files,
                    bar=f.getvalue().split(':')[0].strip())
    decide(params, req, run, c, ctx, c['el'])


@contextlib.contextmanager
def here():
    """Work in an empty folder; the names of the files left there."""
    old, files = os.getcwd(), []
    with scratch() as p:
        os.chdir(p)
        try:
            yield files
            files += sorted(os.path.relpath(os.path.join(a, x), p)
                            for a, _, f in os.walk(p) for x in f
                            if not x.endswith(('.nbi', '.nbc')))
        finally:
            os.chdir(old)


@contextlib.contextmanager
def text():
    f = io.StringIO()
    with contextlib.redirect_stdout(f), contextlib.redirect_stderr(f):
        yield f


TM = [('gamma_ref', None, [300., 900.]), ('csr_on', False, [True]),
      ('n_out', None, [1, 2]), ('order', 2, [1])]
MAPS = dict(
    TMElement=[('length', REQ), ('theta', 0., [.05]), ('k1', 0., [2.]),
               ('k2', 0., [20.]), *TM],
    Drift=[('length', REQ), *TM],
    Dipole=[('length', REQ), ('theta', 0., [.05, -.1]), *TM],
    Quadrupole=[('length', REQ), ('k1', 0., [2., -3.]), *TM],
    Sextupole=[('length', REQ), ('k2', 0., [30., -10.]), *TM])


@R.part('maps', d(el=st.sampled_from(sorted(MAPS)),
                  b=bunch_case(6, pz=(200., 2e3), xi=(-1e-5, 1e-5)),
                  nopt=st.booleans(), line=st.booleans(), dir=st.booleans(),
                  L=fl(.05, .5), **choice),
        quick=900, thorough=9000, env=ENV,
        rule='transfer-map elements, likewise')
def maps(c, ctx):
    from wake_t.beamline_elements.tm_elements import TMElement
    from wake_t import Drift, Dipole, Quadrupole, Sextupole, Beamline
    from wake_t.physics_models.collective_effects.csr import (
        reset_csr_calculator, set_csr_settings)
    cls = dict(TMElement=TMElement, Drift=Drift, Dipole=Dipole,
               Quadrupole=Quadrupole, Sextupole=Sextupole)[c['el']]
    params = MAPS[c['el']]
    if len(c['b']['parts']) < 3:
        # the profile of the radiating bunch needs several particles
        params = [p if p[0] != 'csr_on' else ('csr_on', False, None)
                  for p in params]

    def run(args, kw, plain=False):
        reset_csr_calculator()
        set_csr_settings(.1, 5e-3, 30)
        b = make_bunch(c['b'], name='b')
        e = cls(*args, **kw)
        o = dict(opmd_diag=False, diag_dir='d' if c['dir'] else None,
                 show_progress_bar=True)
        if c['line']:
            e = Beamline([e])
        else:
            o.update(backtrack=False, out_initial=False)
        with text() as f, here() as files:
            out = e.track(b, **({} if plain else o))
        return dict(bunch=snap(b), out=[snap(o) for o in out], files=files,
                    bar=bool(f.getvalue()))
    decide(params, dict(length=c['L']), run, c, ctx, c['el'])


# --------------------------------------------------------------- wakefields

LAS = [('laser', None, None), ('laser_evolution', True, [False]),
       ('laser_envelope_substeps', 1, [2, 3]),
       ('laser_envelope_nxi', None, [17]), ('laser_envelope_nr', None, [11]),
       ('laser_envelope_use_phase', True, [False])]
GRIDP = [(k, REQ) for k in ('density_function', 'r_max', 'xi_min', 'xi_max',
                            'n_r', 'n_xi')]
WAKES = dict(
    Quasistatic2DWakefield=[
        *GRIDP, ('ppc', 2, [1, 3]), ('dz_fields', None, [1.5e-5]),
        ('r_max_plasma', None, [1.5e-5]),
        ('parabolic_coefficient', 0., [1e9]), ('p_shape', 'cubic', ['linear']),
        ('max_gamma', 10, [1.2, 2.]), ('plasma_pusher', 'rk4', ['ab5']),
        *LAS],
    NonLinearColdFluidWakefield=[
        *GRIDP, ('dz_fields', None, [1.5e-5]),
        ('beam_wakefields', False, [True]), ('p_shape', 'linear', ['cubic']),
        *LAS])


@R.part('wakefields', d(
    model=st.sampled_from(sorted(WAKES)), n_r=st.integers(6, 12),
    n_xi=st.integers(8, 20), b=sims.bulk_case(10, w=(1e5, 1e9)),
    laser=st.one_of(st.none(), sims.laser_case()), n_p=logfl(3e22, 1e24),
    explicit=st.booleans(), **choice), quick=60, thorough=2000, weight=4,
    rule='gridded wakefield models, likewise (fields, laser and bunch after '
         'a stage of several updates); the default update period is the '
         'length of the box')
def wakefields(c, ctx):
    from wake_t import PlasmaStage
    from wake_t.physics_models import plasma_wakefields
    cls = getattr(plasma_wakefields, c['model'])
    G = sims.GRID
    box = G['xi_max'] - G['xi_min']
    params = WAKES[c['model']]
    if c['explicit']:
        params = [p if p[0] != 'dz_fields' else ('dz_fields', box, [1.5e-5])
                  for p in params]
    L = 2.7 * box
    req = dict(G, density_function=lambda z: c['n_p'] * np.ones_like(z),
               n_r=c['n_r'], n_xi=c['n_xi'])
    if c['laser'] is None:
        params = [(p[0], p[1], None) if p in LAS else p for p in params]
    else:
        params = [('laser', REQ) if p[0] == 'laser' else p for p in params]
        req['laser'] = None

    def run(args, kw):
        las = sims.make_laser(c['laser'])
        ks = [p[0] for p in params]
        i = ks.index('laser')
        args = list(args)
        if las is not None:
            if len(args) > i:
                args[i] = las
            else:
                kw = dict(kw, laser=las)
        f = cls(*args, **kw)
        b = sims.bulk_bunch(c['b'], name='b')
        with quiet():
            PlasmaStage(L, c['n_p'], f, dt_bunch=L / ct.c / 5.3,
                        n_out=0).track(b)
        out = sims.field_state(f)
        return dict(f=out, bunch=snap(b), dt=f.dt_update)
    c = dict(c, mask=c['mask'] + c['mask'], alt=c['alt'] + c['alt'],
             pos=2 * c['pos'])
    decide(params, req, run, c, ctx, c['model'])


# ------------------------------------------------------------------- lasers

LEND = [('z_foc', 0., [1e-3, -2e-4]), ('l_0', .8e-6, [1e-6]),
        ('cep_phase', 0., [1.]), ('polarization', 'linear', ['circular'])]
PULSES = dict(
    GaussianPulse=[(k, REQ) for k in ('xi_c', 'a_0', 'w_0', 'tau')] + LEND,
    LaguerreGaussPulse=[(k, REQ) for k in ('xi_c', 'p', 'a_0', 'w_0', 'tau')
                        ] + LEND,
    FlattenedGaussianPulse=[(k, REQ) for k in ('xi_c', 'a_0', 'w_0', 'tau')
                            ] + [('N', 6, [2, 5])] + LEND)
SOLVER = [(k, REQ) for k in ('xi_min', 'xi_max', 'r_max', 'nz', 'nr', 'dt')
          ] + [('nt', 1, [2, 3]), ('subgrid_nz', None, [19]),
               ('subgrid_nr', None, [13]), ('use_phase', True, [False])]


@R.part('lasers', d(pulse=st.sampled_from(sorted(PULSES)), xi_c=fl(-2e-5, 0.),
                    a_0=fl(.1, 3.), w_0=logfl(5e-6, 3e-5),
                    tau=logfl(8e-15, 4e-14), p=st.integers(0, 2),
                    z=fl(-1e-3, 1e-3), solver=st.booleans(),
                    dt=logfl(1e-15, 1e-13), **choice),
        quick=300, thorough=6000, env=ENV,
        rule='laser pulses and their envelope solver, likewise (envelope, '
             'wavelength, polarisation, evolved envelope)')
def lasers(c, ctx):
    import wake_t
    cls = getattr(wake_t, c['pulse'])
    z, r = np.linspace(-4e-5, 2e-5, 11), np.linspace(1e-6, 3e-5, 5)
    zz, rr = np.meshgrid(z, r, indexing='ij')
    own = {k: c[k] for k in ('xi_c', 'a_0', 'w_0', 'tau')}
    if c['pulse'] == 'LaguerreGaussPulse':
        own['p'] = c['p']
    if not c['solver']:
        def run(args, kw):
            p = cls(*args, **kw)
            return dict(a=np.array(p.envelope_function(zz, rr, c['z'])),
                        l0=p.l_0, pol=p.polarization)
        decide(PULSES[c['pulse']], own, run, c, ctx, c['pulse'])
        return

    def run(args, kw):
        p = cls(**own)
        p.set_envelope_solver_params(*args, **kw)
        p.initialize_envelope()
        chi = 1. + .5 * np.cos(np.arange(14 * 9.)).reshape(14, 9)
        for i in range(2):
            p.evolve(chi, 1e24)
        return dict(a=np.array(p.get_envelope()))
    decide(SOLVER, dict(xi_min=-4e-5, xi_max=2e-5, r_max=4e-5, nz=14, nr=9,
                        dt=c['dt']), run, c, ctx, 'envelope solver')


# ------------------------------------------------------ bunches and analysis

SPEC = [('q_species', -ct.e, [ct.e, 3 * ct.e]), ('m_species', ct.m_e,
                                                [ct.m_p])]
OFF = [('x_off', 0, [1e-5]), ('y_off', 0, [2e-5]), ('theta_x', 0, [1e-3]),
       ('theta_y', 0, [2e-3])]
TAIL = [('ene', REQ), ('ene_sp', REQ), ('s_t', REQ), ('xi_c', REQ),
        ('q_tot', REQ), ('n_part', REQ)] + OFF
CALLS = dict(
    get_gaussian_bunch_from_twiss=[(k, REQ) for k in (
        'en_x', 'en_y', 'a_x', 'a_y', 'b_x', 'b_y')] + TAIL + [
            ('name', REQ)] + SPEC,
    get_gaussian_bunch_from_size=[(k, REQ) for k in (
        'en_x', 'en_y', 's_x', 's_y')] + TAIL + [('name', REQ)] + SPEC,
    get_matched_bunch=[('en_x', REQ), ('en_y', REQ)] + TAIL + [
        ('n_p', REQ), ('k_x', None, None), ('name', REQ)] + SPEC,
    ParticleBunch=[(k, REQ) for k in ('w', 'x', 'y', 'xi', 'px', 'py', 'pz')
                   ] + [('bunch_matrix', None, None),
                        ('matrix_type', 'standard', None),
                        ('gamma_ref', None, None),
                        ('tags', None, [np.arange(40)]),
                        ('prop_distance', 0, [1.5]), ('t_flight', 0, [2.]),
                        ('z_injection', None, [1e-3]), ('name', REQ)] + SPEC,
    analyze_bunch=[('bunch', REQ), ('n_slices', 50, [20, 49, 51]),
                   ('len_slice', None, [3e-6])],
    analyze_bunch_list=[('bunch_list', REQ), ('n_slices', 50, [20, 49, 51]),
                        ('len_slice', None, [3e-6])],
    evolve=[('fields', REQ), ('t', REQ), ('dt', REQ),
            ('pusher', 'rk4', ['boris'])],
    get_from_file=[('file_path', REQ), ('data_format', REQ),
                   ('preserve_prop_dist', False, [True]),
                   ('name', None, ['new']), ('species_name', None, ['b'])],
    NumericalField=[('dt_update', REQ),
                    ('openpmd_diag_supported', False, [True]),
                    ('force_even_updates', False, [True])],
    deposit_3d_distribution=[(k, REQ) for k in (
        'z', 'x', 'y', 'w', 'z_min', 'r_min', 'nz', 'nr', 'dz', 'dr',
        'deposition_array')] + [('p_shape', 'cubic', ['linear']),
                                ('use_ruyten', False, [True])],
    set_csr_settings=[('csr_step', .1, [.05, .2]),
                      ('csr_traj_step', .0005, [.001]),
                      ('n_bins', 2000, [1000])])


@R.part('bunches', d(call=st.sampled_from(sorted(CALLS)), seed=seeds,
                     v=lists(fl(.5, 2.), min_size=16, max_size=16), **choice),
        quick=400, thorough=6000, env=ENV,
        rule='generators of bunches (equal seed), bunches, their analysis and '
             'evolution, and CSR settings, likewise')
def bunches(c, ctx):
    import wake_t
    from wake_t import ParticleBunch, Dipole
    from wake_t.utilities import bunch_generation as bg
    from wake_t.diagnostics import analyze_bunch, analyze_bunch_list
    from wake_t.physics_models.collective_effects.csr import (
        reset_csr_calculator)
    v, call = c['v'], c['call']
    params = CALLS[call]
    n = 40
    base = dict(en_x=1e-6, en_y=2e-6, a_x=1., a_y=-1., b_x=1e-3, b_y=2e-3,
                s_x=1e-6, s_y=2e-6, ene=1e3, ene_sp=1., s_t=3e-15, xi_c=1e-5,
                q_tot=1e-12, n_part=n, n_p=1e23)
    base = {k: x * v[i % 16] if k != 'n_part' else x
            for i, (k, x) in enumerate(base.items())}
    g = np.random.default_rng(c['seed'])
    arr = dict(w=1e3 * (1 + g.random(n)), x=1e-6 * g.normal(size=n),
               y=2e-6 * g.normal(size=n), xi=1e-5 * g.normal(size=n),
               px=g.normal(size=n), py=g.normal(size=n),
               pz=500. * v[0] + g.normal(size=n))

    def plain(name='b'):
        return ParticleBunch(**{k: a.copy() for k, a in arr.items()},
                             name=name)
    if call == 'get_from_file':
        from wake_t.utilities.bunch_saving import save_bunch_to_file
        req = dict(file_path='d/b.h5', data_format='openpmd')

        def run(args, kw):
            with here(), quiet():
                b = plain()
                b.xi += 1e-3 * v[5]
                os.mkdir('d')
                save_bunch_to_file(b, 'openpmd', 'd/b')
                b = bg.get_from_file(*args, **kw)
            return dict(snap(b), name=b.name)
    elif call.startswith('get'):
        req = {p[0]: base[p[0]] for p in params if p[1] is REQ and
               p[0] != 'name'}
        req['name'] = 'b'

        def run(args, kw):
            np.random.seed(c['seed'] % 2**32)
            with quiet():
                return snap(getattr(bg, call)(*args, **kw))
    elif call == 'ParticleBunch':
        req = dict(arr, name='b')

        def run(args, kw):
            return snap(ParticleBunch(*args, **kw))
    elif call == 'evolve':
        f = py_field(lambda x, y, z, t: (
            1e13 * x, 2e13 * y, -1e9 + 0 * x, 1. + 0 * x, 0 * x, 1e4 * y))
        req = dict(fields=[f], t=1e-12, dt=v[1] * 1e-13)

        def run(args, kw):
            b = plain()
            b.evolve(*args, **kw)
            return snap(b)
    elif call == 'NumericalField':
        from wake_t.fields.numerical_field import NumericalField
        from wake_t.beamline_elements import FieldElement
        req = dict(dt_update=v[1] * 1e-14)

        class Numeric(NumericalField):
            def _calculate_field(self, bunches):
                seen.append(self.t)

            def _gather(self, x, y, z, t, ex, ey, ez, bx, by, bz):
                ez += 1e9 * len(seen)

            def _get_openpmd_diagnostics_data(self, global_time):
                return dict(own=global_time)
        seen = []

        def run(args, kw):
            seen.clear()
            f = Numeric(*args, **kw)
            b = plain()
            with quiet():
                FieldElement(v[2] * 3e-5, 1e-14 * v[3], fields=[f]).track(b)
            return dict(b=snap(b), t=list(seen), dt=f.dt_update,
                        opmd=f.get_openpmd_diagnostics_data(1.))
    elif call == 'deposit_3d_distribution':
        from wake_t.particles.deposition import deposit_3d_distribution
        req = dict(z=arr['xi'], x=arr['x'], y=arr['y'], w=arr['w'],
                   z_min=-3e-5, r_min=2.5e-7, nz=13, nr=12, dz=5e-6, dr=5e-7,
                   deposition_array=None)

        def run(args, kw):
            out = np.zeros((17, 16))
            args = list(args)
            if len(args) > 10:
                args[10] = out
            else:
                kw = dict(kw, deposition_array=out)
            deposit_3d_distribution(*args, **kw)
            return out
    elif call == 'set_csr_settings':
        req = {}

        def run(args, kw):
            reset_csr_calculator()
            wake_t.set_csr_settings(*args, **kw)
            b = plain()
            b.w = b.w * 1e5
            with quiet():
                Dipole(.15, .05 * v[2], gamma_ref=500., csr_on=True).track(b)
            return snap(b)
    else:
        fn = dict(analyze_bunch=analyze_bunch,
                  analyze_bunch_list=analyze_bunch_list)[call]
        req = dict(bunch=plain()) if call == 'analyze_bunch' else dict(
            bunch_list=[plain('a'), plain('b')])

        def run(args, kw):
            with np.errstate(all='ignore'):
                return {k: np.array(x) for k, x in fn(*args, **kw).items()}
    c = dict(c, pos=2 * c['pos'], mask=c['mask'] + [True] * 6,
             alt=c['alt'] + [0] * 6)
    decide(params, req, run, c, ctx, call)
