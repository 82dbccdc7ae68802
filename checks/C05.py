"""C05: superposition of the fields of one element."""
import numpy as np
import scipy.constants as ct
from hypothesis import strategies as st
from vp import lists, Registry, check, close, d, fl, logfl, seeds, rng
from refs import (SPECIES, bunch_case, make_bunch, state, poly_field,
                  poly_coeffs, py_field, ref_push, close_state)

R = Registry()
COMP = ('Ex', 'Ey', 'Ez', 'Bx', 'By', 'Bz')
_pool = {}


class _Laser:
    xi_c = 3e-6
    l_0 = 0.8e-6

    def get_group_velocity(self, n):
        return 0.999


def analytic(s):
    """An AnalyticalField with all six components, set by its constants.

    The functions also depend on a variable of the enclosing function.
    """
    from wake_t.fields.analytical_field import AnalyticalField

    def mk(k):
        # every component depends on everything
        if k == 0:
            def f(x, y, z, t, fld, c):
                for i in range(x.shape[0]):
                    fld[i] += s * c[0] * (1. + 1e5*x[i] - 2e5*y[i] + 1e4*z[i]
                                      + 2e11*t)
        elif k == 1:
            def f(x, y, z, t, fld, c):
                for i in range(x.shape[0]):
                    fld[i] += s * c[1] * (1. - 1e5*x[i] + 1e5*y[i] + 2e4*z[i]
                                      + 1e12*t)
        elif k == 2:
            def f(x, y, z, t, fld, c):
                for i in range(x.shape[0]):
                    fld[i] += s * c[2] * (1. + 2e4*x[i] + 4e4*y[i] + 3e4*z[i]
                                      - 3e11*t)
        elif k == 3:
            def f(x, y, z, t, fld, c):
                for i in range(x.shape[0]):
                    fld[i] += s * c[3] * (1. - 3e4*x[i] + 1e5*y[i] + 2e4*z[i]
                                      + 4e11*t)
        elif k == 4:
            def f(x, y, z, t, fld, c):
                for i in range(x.shape[0]):
                    fld[i] += s * c[4] * (1. - 1e5*x[i] + 3e4*y[i] - 1e4*z[i]
                                      + 5e11*t)
        else:
            def f(x, y, z, t, fld, c):
                for i in range(x.shape[0]):
                    fld[i] += s * c[5] * (1. + 2e4*x[i] - 1e4*y[i] + 3e4*z[i]
                                      + 6e11*t)
        return f
    return AnalyticalField(*[mk(k) for k in range(6)], constants=[0.] * 6)


def analytic_ref(c, x, y, z, t):
    u = np.array([x, y, z, t * np.ones_like(x)])
    m = np.array([[1e5, -2e5, 1e4, 2e11], [-1e5, 1e5, 2e4, 1e12],
                  [2e4, 4e4, 3e4, -3e11], [-3e4, 1e5, 2e4, 4e11],
                  [-1e5, 3e4, -1e4, 5e11], [2e4, -1e4, 3e4, 6e11]])
    return np.asarray(c)[:, None] * (1. + m @ u)


FACTOR = dict(analytic1=1., analytic2=-1.5)


def pool(kind):
    """Fields are compiled on construction: build each kind once."""
    if kind in _pool:
        return _pool[kind]
    from wake_t.fields.analytical_field import AnalyticalField
    from wake_t.physics_models.plasma_wakefields import (
        SimpleBlowoutWakefield, CustomBlowoutWakefield, FocusingBlowoutField)
    from wake_t.physics_models.em_fields.quadrupole import QuadrupoleField
    from wake_t.physics_models.em_fields.linear_b_theta import \
        LinearBThetaField
    if kind.startswith('analytic'):
        f = analytic(FACTOR[kind])
    elif kind == 'partial':
        def ey(x, y, z, t, fld, c):
            for i in range(x.shape[0]):
                fld[i] += c[0] * x[i]
        f = AnalyticalField(e_y=ey, constants=[2e14])
    elif kind == 'empty':
        f = AnalyticalField()
    elif kind == 'simple':
        f = SimpleBlowoutWakefield(lambda z: 1e23 * (1 + 100 * z), _Laser(),
                                   field_offset=1e-6)
    elif kind == 'custom':
        f = CustomBlowoutWakefield(lambda z: 1e23, _Laser(), 1e9, 2e14, 3e5,
                                   1e-6)
    elif kind == 'focusing':
        f = FocusingBlowoutField(lambda z: 1e23 * (1 + 100 * z))
    elif kind == 'quad':
        f = QuadrupoleField(1e5)
    elif kind == 'lens':
        f = LinearBThetaField(-2e5)
    _pool[kind] = f
    return f


KINDS = ['analytic1', 'analytic2', 'partial', 'empty', 'simple', 'custom',
         'focusing', 'quad', 'lens', 'map', 'python']
spec = d(kind=st.sampled_from(KINDS),
         c=lists(fl(-2, 2), min_size=6, max_size=6), seed=seeds)


def instance(s):
    from C07 import make_field
    if s['kind'] == 'map':
        g = rng(s['seed'])
        nz, nr = 6, 5
        vals = [g.normal(size=(nz, nr)) * 1e9, g.normal(size=(nz, nr)) * 1e9,
                g.normal(size=(nz, nr)) * 3]
        return make_field(nz, nr, -2e-5 * g.rand(), 5e-6, 1e-6 + 2e-6*g.rand(),
                          vals)
    if s['kind'] == 'python':
        co = rng(s['seed']).normal(size=(6, 7))
        return py_field(poly_field(co))
    f = pool(s['kind'])
    if s['kind'].startswith('analytic'):
        f.constants = np.array(s['c']) * np.array([1e9]*3 + [1.]*3)
    return f


def alone(f, x, y, z, t):
    out = [np.zeros_like(x) for _ in range(6)]
    f.gather(x, y, z, t, *out)
    return np.array(out)


def outside(f, x, y, z, t):
    """A field on a grid contributes nothing outside of it."""
    out = ((z < f.xi_fld[0]) | (z > f.xi_fld[-1]) |
           (np.hypot(x, y) > f.r_fld[-1] * (1 + 1e-12)))
    got = alone(f, x, y, z, t)
    check(not got[:, out].any(), 'field {} at {} outside of its grid',
          got[:, out], (x[out], y[out], z[out]))
    dz = 1e-6 * (f.xi_fld[-1] - f.xi_fld[0])
    ins = ((z > f.xi_fld[0] + dz) & (z < f.xi_fld[-1] - dz) &
           (np.hypot(x, y) < f.r_fld[-1] * (1 - 1e-6)))
    check(np.all(got[:3, ins].any(axis=0)), 'no field inside of the grid')


@R.part('sum', d(fields=lists(spec, min_size=0, max_size=5, unique_by=lambda
                                 s: s['kind'] if s['kind'] not in
                                 ('map', 'python') else s['seed']),
                 bunch=bunch_case(6, size=1.2e-5, xi=(-3e-5, 3e-5), many=3000),
                 pusher=st.sampled_from(['boris', 'rk4']), perm=seeds,
                 t=fl(0, 1e-12), dt=logfl(1e-16, 3e-14),
                 twice=st.sampled_from([None, None, None, 0, 1, 2]),
                 edge=lists(fl(-1.5, 1.5), max_size=3),
                 init=lists(fl(-1, 1), min_size=6, max_size=6)),
        quick=1280, thorough=15000,
        rule='0-5 fields of all kinds: the push equals the reference push in '
             'the sum of the fields gathered one by one; each gather adds '
             'the same amount to whatever is in the arrays; order does not '
             'matter; non-trivial: >=2 different kinds')
def total(c, ctx):
    fs = [instance(s) for s in c['fields']]
    if c['twice'] is not None and c['twice'] < len(fs):
        fs.append(fs[c['twice']])         # the same object twice in the list
        ctx.label('listed twice')
    b = make_bunch(c['bunch'])
    q, m = SPECIES[c['bunch']['species']]

    def summed(x, y, z, t):
        x, y, z = (np.ascontiguousarray(v) for v in (x, y, z))
        out = np.zeros((6, len(x)))
        for f in fs:
            out += alone(f, x, y, z, t)
        return out
    s0 = state(b)
    # every gather adds its own contribution, whatever is there before
    for f, s in zip(fs, c['fields']):
        x, y, z = b.x, b.y, b.xi
        ref = alone(f, x, y, z, c['t'])
        out = [np.full_like(x, v * k) for v, k in
               zip(c['init'], (1e9, 1e9, 1e9, 1., 1., 1.))]
        before = [o.copy() for o in out]
        f.gather(x, y, z, c['t'], *out)
        for k in range(6):
            close(out[k] - before[k], ref[k], 1e-12, 1e-9 * (1e9 if k < 3 else 1),
                  f'{s["kind"]}: {COMP[k]} added to existing values')
        if s['kind'].startswith('analytic'):
            ana = FACTOR[s['kind']] * analytic_ref(f.constants, x, y, z,
                                                   c['t'])
            for k in range(6):
                close(ref[k], ana[k], 1e-10, 1e-12 * (1e9 if k < 3 else 1),
                      f'{COMP[k]} of an analytical field')
        if s['kind'] == 'map':
            outside(f, x, y, z, c['t'])
            # just around the corners of the map
            u = np.array(c['edge'])
            dz = f.xi_fld[1] - f.xi_fld[0]
            r_m, dr = f.r_fld[-1], f.r_fld[1] - f.r_fld[0]
            for ze in (f.xi_fld[0], f.xi_fld[-1]):
                outside(f, np.full_like(u, .3 * r_m), 0 * u, ze + u * dz,
                        c['t'])
            zm = np.full_like(u, .5 * (f.xi_fld[0] + f.xi_fld[-1]))
            outside(f, .6 * (r_m + u * dr), -.8 * (r_m + u * dr), zm, c['t'])
        if s['kind'] == 'partial':
            check(not ref[[0, 2, 3, 4, 5]].any(), 'missing component not zero')
            close(ref[1], 2e14 * x, 1e-12, 0, 'given component')
        if s['kind'] == 'empty':
            check(not ref.any(), 'empty analytical field is not zero')
    check(np.array_equal(s0, state(b)), 'gathering changed the bunch')
    exp = ref_push(c['pusher'], s0, c['t'], c['dt'], q / m, summed)
    b.evolve(fs, c['t'], c['dt'], c['pusher'])
    close_state(state(b), exp, f'push in {[s["kind"] for s in c["fields"]]}',
                rtol=1e-8, dt=c['dt'])
    b2 = make_bunch(c['bunch'])
    pm = rng(c['perm']).permutation(len(fs))
    b2.evolve([fs[i] for i in pm], c['t'], c['dt'], c['pusher'])
    close_state(state(b2), exp, 'push with reordered fields', rtol=1e-8,
                dt=c['dt'])
    kinds = {s['kind'] for s in c['fields']}
    ctx.nontrivial(len(kinds) > 1)
    for k in kinds:
        ctx.label(k)


@R.part('stage', d(fields=lists(spec.filter(lambda s: s['kind'] not in (
    'map', 'simple', 'custom')), min_size=0, max_size=3,
    unique_by=lambda s: s['kind']),
    wake=st.sampled_from(['none', 'simple', 'custom', 'focusing', 'map']),
    bunch=bunch_case(4, size=8e-6, xi=(-2e-5, 1e-5), pz=(50., 2e4),
                     many=3000),
    pusher=st.sampled_from(['boris', 'rk4']), seed=seeds,
    n=st.integers(1, 4), twice=st.booleans()),
    quick=430, thorough=3000,
    rule='plasma stage with a wakefield and external fields equals the '
         'reference push in their sum; non-trivial: wakefield and >=1 '
         'external field')
def stage(c, ctx):
    from wake_t import PlasmaStage
    ext = [instance(s) for s in c['fields'] if s['kind'] != 'focusing']
    if c['twice'] and ext:
        ext.append(ext[0])
    if c['wake'] == 'none':
        model = None
    elif c['wake'] == 'map':
        model = instance(dict(kind='map', seed=c['seed'], c=[0] * 6))
    else:
        model = pool(c['wake'])
    L = 2e-6 * c['n']
    dt = L / c['n'] / ct.c
    stg = PlasmaStage(L, 1e23, wakefield_model=model, dt_bunch=dt,
                      bunch_pusher=c['pusher'], n_out=1, external_fields=ext)
    n_ext = len(ext)
    b = make_bunch(c['bunch'])
    q, m = SPECIES[c['bunch']['species']]
    s = state(b)
    fs = ([] if model is None else [model]) + ext

    def summed(x, y, z, t):
        x, y, z = (np.ascontiguousarray(v) for v in (x, y, z))
        out = np.zeros((6, len(x)))
        for f in fs:
            out += alone(f, x, y, z, t)
        return out
    for i in range(c['n']):
        s = ref_push(c['pusher'], s, i * dt, dt, q / m, summed)
    stg.track(b, show_progress_bar=False)
    check(len(ext) == n_ext, 'list of external fields was modified')
    close_state(state(b), s, f'stage with {c["wake"]} and '
                f'{[k["kind"] for k in c["fields"]]}', rtol=1e-8, dt=L / ct.c)
    ctx.nontrivial(model is not None and len(ext) > 0)
    ctx.label(c['wake'], f'ext={len(ext)}')
