"""C30: simulations respect the symmetries of space, time and scale."""
import numpy as np
import scipy.constants as ct
from hypothesis import strategies as st
from vp import lists, Registry, check, close, same, d, fl, logfl, seeds, rng
from C03 import quiet, scratch, snap
from C28 import read
from refs import SPECIES
import sims

R = Registry()
ENV = {'WAKET_DISABLE_CACHING': '0', 'NUMBA_CACHE_DIR': 'numba_cache'}

# A description of a simulation is written once; `T` says in which coordinate
# system it is set up: all lengths times `lam`, everything moved by `xi`
# along the co-moving axis, the distance already travelled increased by `z`,
# the transverse axes turned by the signed permutation `turn`.
ONE = dict(lam=1., xi=0., z=0., turn=None, eps=0.)
TURNS = {'mirror x': (-1, 0, 0, 1), 'mirror y': (1, 0, 0, -1),
         'swap': (0, 1, 1, 0), 'quarter': (0, -1, 1, 0),
         'half': (-1, 0, 0, -1), 'back': (0, 1, -1, 0)}

bunch = d(c=sims.bulk_case(10, w=(1e3, 1e7)), px0=fl(-2., 2.), x0=fl(-4e-6,
                                                                   4e-6),
          y0=fl(-4e-6, 4e-6), z0=st.sampled_from([0., 0., 1e-3]),
          inj=st.sampled_from([None, None, None, 1e-5, 4e-5]))
plasma = d(kind=st.just('plasma'), m=sims.model_case(), L=fl(1e-5, 1.5e-4),
           dz=fl(.1, .7), prof=st.sampled_from(['flat', 'up', 'down']),
           sub=st.integers(1, 3), ramp=st.sampled_from([0, 0, 1, 2]),
           evo=st.booleans())
blow = d(kind=st.sampled_from(['simple', 'custom', 'focusing']),
         L=logfl(1e-4, 1e-2), n_p=logfl(1e22, 1e24), xi_c=fl(-1e-5, 1e-5),
         off=fl(-1e-5, 1e-5), k=fl(0., 1.), ez=fl(-1., 1.),
         slope=fl(-1., 1.), prof=st.sampled_from(['flat', 'up', 'down']))
lens = d(kind=st.just('lens'), L=logfl(1e-4, 1e-2), k=fl(-3e3, 3e3),
         wake=st.booleans(), m=sims.model_case(('quasistatic_2d',)))
fquad = d(kind=st.just('fquad'), L=logfl(1e-4, 1e-2), k=fl(-3e3, 3e3))
track = dict(n_out=st.integers(1, 4), push=st.booleans(),
             pusher=st.sampled_from(['boris', 'rk4']),
             dt=st.one_of(st.just('auto'), fl(.15, 3.)))


def turned(T, x, y):
    if T['turn'] is None:
        return x, y
    a, b, e, f = TURNS[T['turn']]
    # one of the two terms vanishes: no rounding
    return (a * x if a else b * y), (e * x if e else f * y)


def make_bunches(bs, T):
    from wake_t import ParticleBunch
    s, out = T['lam'], []
    for i, b in enumerate(bs):
        a = sims.bulk_arrays(b['c'])
        q, m = SPECIES[b['c']['species']]
        g = rng(b['c']['seed'] ^ 5)
        j = 1 + T['eps'] * g.choice([-1., 1.], (7, len(a['w'])))
        x, y = turned(T, (a['x'] + b['x0']) * j[0], (a['y'] + b['y0']) * j[1])
        px, py = turned(T, (a['px'] + b['px0']) * j[2], a['py'] * j[3])
        inj = None
        if b['inj'] is not None:
            inj = (b['inj'] + b['z0'] + T['z'] + T['xi']) * s
        out.append(ParticleBunch(
            a['w'] * s * j[4], x * s, y * s,
            (a['xi'] * j[5] + T['xi']) * s, px, py, a['pz'] * j[6],
            prop_distance=(b['z0'] + T['z']) * s, name=f'b{i}',
            q_species=q, m_species=m, z_injection=inj))
    return out


def make_laser(c, T):
    from wake_t import GaussianPulse
    if c is None:
        return None
    s = T['lam']
    return GaussianPulse(
        (c['xi_c'] + T['xi']) * s, c['a0'] * (1 + T['eps']), c['w0'] * s,
        c['tau'] * s, z_foc=c['zf'] * s, l_0=c['l0'] * s,
        polarization=c['pol'])


def density(n, prof, L, T):
    n, L = n * (1 + T['eps']) / T['lam']**2, L * T['lam']
    if prof == 'flat':
        return n

    def f(z):
        z = np.clip(z / L, 0., 1.)
        return n * (.5 + .5 * (z if prof == 'up' else 1 - z))
    return f


def make_el(e, T, n_bunches):
    from wake_t import PlasmaStage, PlasmaRamp, ActivePlasmaLens
    from wake_t.beamline_elements import FieldQuadrupole
    s, kind, t = T['lam'], e['kind'], e['t']
    L = e['L'] * s
    dt = t['dt'] if t['dt'] == 'auto' else e['L'] * .2 * t['dt'] * s / ct.c
    if kind == 'plasma' and e['evo'] is False and dt == 'auto' and \
            n_bunches > 1:
        dt = ['auto'] + [L * .1 / ct.c] * (n_bunches - 1)
    kw = dict(n_out=t['n_out'], bunch_pusher=t['pusher'], dt_bunch=dt)
    if kind == 'fquad':
        return FieldQuadrupole(L, e['k'] / s**2, **kw)
    kw['push_bunches_before_diags'] = t['push']
    if kind in ('plasma', 'lens'):
        m = e['m']
        grid = {k: v * s for k, v in sims.GRID.items()}
        grid['xi_min'] += T['xi'] * s
        grid['xi_max'] += T['xi'] * s
        p = dict(grid, n_r=m['n_r'], n_xi=m['n_xi'], p_shape=m['shape'],
                 dz_fields=e.get('dz', .3) * L)
        if m['model'] == 'quasistatic_2d':
            p.update(ppc=m['ppc'], plasma_pusher=m['pusher'])
            if m['rp']:
                p['r_max_plasma'] = m['rp'] * grid['r_max']
            if m['para']:
                pc = m['para'] / s**2
                p['parabolic_coefficient'] = pc if e.get(
                    'prof', 'flat') == 'flat' else lambda z: pc * (1 + z / L)
        else:
            p['beam_wakefields'] = True
    if kind == 'lens':
        if not e['wake']:
            return ActivePlasmaLens(L, e['k'] / s**2, **kw)
        return ActivePlasmaLens(L, e['k'] / s**2, wakefields=True,
                                density=m['n_p'] * (1 + T['eps']) / s**2,
                                **p, **kw)
    if kind == 'plasma':
        p.update(laser=make_laser(m['laser'], T), laser_evolution=e['evo'],
                 laser_envelope_substeps=e['sub'])
        n_p = m['n_p']
        if e['ramp']:
            return PlasmaRamp(
                L, profile='inverse_square' if m['n_r'] % 2 else
                'exponential', ramp_type='upramp' if e['ramp'] == 1 else
                'downramp', wakefield_model=m['model'], decay_length=L / 2,
                plasma_dens_top=n_p * (1 + T['eps']) / s**2, **p, **kw)
        return PlasmaStage(L, density(n_p, e['prof'], e['L'], T),
                           wakefield_model=m['model'], **p, **kw)
    n = density(e['n_p'], e['prof'], e['L'], T)
    if kind == 'focusing':
        return PlasmaStage(L, n, 'focusing_blowout', **kw)
    la = make_laser(dict(xi_c=e['xi_c'], a0=1., w0=1e-5, tau=2e-14, l0=8e-7,
                         zf=0., pol='linear'), T)
    if kind == 'simple':
        return PlasmaStage(L, n, 'simple_blowout', laser=la,
                           field_offset=e['off'] * s, **kw)
    u = ct.m_e * ct.c**2 / ct.e * 1e5
    return PlasmaStage(L, n, 'custom_blowout', laser=la,
                       lon_field=e['ez'] * u / s,
                       lon_field_slope=e['slope'] * u * 1e5 / s**2,
                       foc_strength=e['k'] * u * 1e5 / s**2 / ct.c,
                       xi_fields=(e['off'] + T['xi']) * s, **kw)


def run(c, T):
    """Final bunches, outputs and fields, back in the original frame."""
    from wake_t import Beamline
    s = T['lam']
    bs = make_bunches(c['b'], T)
    els = [make_el(e, T, len(bs)) for e in c['els']]
    with quiet():
        o = (Beamline(els) if len(els) > 1 else els[0]).track(
            bs, show_progress_bar=False)
    out = [x for y in o for x in (y if isinstance(y, list) else [y])]
    res = []
    for b in bs + out:
        x, y = b.x / s, b.y / s
        px, py = b.px, b.py
        for _ in range(3 if T['turn'] else 0):        # turns have order 1, 2, 4
            x, y = turned(T, x, y)
            px, py = turned(T, px, py)
        res.append(dict(x=x, y=y, xi=b.xi / s - T['xi'], px=px, py=py,
                        pz=b.pz, w=b.w / s,
                        prop=np.array([b.prop_distance / s - T['z']])))
    flds = []
    for e in els:
        for f in getattr(e, 'fields', []):
            if hasattr(f, 'e_r') and hasattr(f, 'rho'):
                v = sims.field_state(f)
                for k in ('e_z', 'e_r', 'b_t'):
                    v[k] = v[k] * s
                flds.append(v)
    return res, flds


def scales(c, ref):
    """Sizes against which deviations of the bunches are measured."""
    res, flds = ref
    out = []
    for b in res:
        p = np.sqrt(b['px']**2 + b['py']**2 + b['pz']**2)
        out.append(dict(x=1e-6, y=1e-6, xi=1e-6, px=1., py=1., pz=p.max(),
                        w=b['w'].max(), prop=1e-5))
    for f in flds:
        e = max(np.abs(f['e_z']).max(), np.abs(f['e_r']).max(),
                ct.c * np.abs(f['b_t']).max())
        out.append(dict(e_z=e, e_r=e, b_t=e / ct.c, rho=1., chi=1.,
                        a=np.abs(f['a']).max() if 'a' in f else 0.))
    return out


def diff(a, b):
    """Largest deviation per quantity; infinite for different shapes."""
    out = []
    for x, y in zip(a[0] + a[1], b[0] + b[1]):
        e = {}
        for k in x:
            if x[k].shape != y[k].shape:
                e[k] = np.inf
            else:
                with np.errstate(invalid='ignore'):
                    e[k] = np.max(np.abs(x[k] - y[k]), initial=0.)
        out.append(e)
    return out


def finite(r):
    return all(np.all(np.isfinite(v)) for x in r[0] + r[1]
               for v in x.values())


def compare(c, T, ctx, what, exact, lim=1e-7):
    ref = run(c, ONE)
    if not finite(ref):
        return
    got = run(c, T)
    check(len(got[0]) == len(ref[0]) and len(got[1]) == len(ref[1]),
          '{}: {} outputs instead of {}', what, len(got[0]), len(ref[0]))
    sc = scales(c, ref)
    dev = [{k: 0. for k in x} for x in sc]
    if not exact:
        # how far rounding errors of 1e-13 carry
        for eps in (1e-13, -2.3e-13, 1e-12):
            r = run(c, dict(ONE, eps=eps))
            if not finite(r) or len(r[0]) != len(ref[0]):
                return
            for a, b in zip(dev, diff(ref, r)):
                for k in b:
                    a[k] = max(a[k], b[k])
        if any(a[k] > lim * s[k] for a, s in zip(dev, sc) for k in a
               if k != 'prop'):
            ctx.label('sensitive to rounding')
            return
    for i, (e, a, s) in enumerate(zip(diff(ref, got), dev, sc)):
        for k in e:
            tol = (1e-11 if exact else 1e-9) * s[k] + 100 * a[k]
            n = 'bunch or output' if i < len(ref[0]) else 'field'
            check(e[k] <= tol, '{}: {} of {} {} changes by {:.3e} (scale '
                  '{:.3e}, tolerance {:.3e})', what, k, n, i, e[k], s[k], tol)
    moved = any(np.ptp(b['pz']) > 0 for b in ref[0])
    ctx.nontrivial(moved)
    for e in c['els']:
        ctx.label(e['kind'])
        if 'm' in e and e['kind'] == 'plasma':
            ctx.label(e['m']['model'])
            if e['m']['laser']:
                ctx.label('laser')
    ctx.label(f'{len(c["b"])} bunches', f'{len(c["els"])} elements')


def elements(*kinds, n=2):
    el = st.one_of(*[st.builds(lambda e, t: dict(e, t=t), k, d(**track))
                     for k in kinds])
    return lists(el, min_size=1, max_size=n)


@R.part('turn', d(els=elements(plasma, plasma, blow, lens, fquad),
                  b=lists(bunch, min_size=1, max_size=2),
                  turn=st.sampled_from(sorted(TURNS))),
        quick=60, thorough=3000, rule='particles with different momenta',
        env=ENV, weight=2)
def turn(c, ctx):
    """Axisymmetric elements commute with rotations and reflections; the
    quadrupole with those which keep its planes."""
    t = c['turn']
    if t in ('swap', 'quarter', 'back') and any(
            e['kind'] == 'fquad' for e in c['els']):
        # turning the axes by 90 degrees exchanges the planes
        c = dict(c, els=[e for e in c['els'] if e['kind'] != 'fquad'])
        if not c['els']:
            return
    ctx.label(t)
    compare(c, dict(ONE, turn=t), ctx, t, True)


@R.part('planes', d(els=elements(fquad, n=1),
                    b=lists(bunch, min_size=1, max_size=2),
                    turn=st.sampled_from(['swap', 'quarter', 'back'])),
        quick=30, thorough=1000, rule='particles with different momenta',
        env=ENV)
def planes(c, ctx):
    """A quadrupole of opposite strength focuses in the other plane."""
    ref = run(c, ONE)
    neg = dict(c, els=[dict(e, k=-e['k']) for e in c['els']])
    got = run(neg, dict(ONE, turn=c['turn']))
    if not finite(ref):
        return
    for i, (e, s) in enumerate(zip(diff(ref, got), scales(c, ref))):
        for k in e:
            check(e[k] <= 1e-11 * s[k], '{} of bunch {} changes by {:.3e}', k,
                  i, e[k])
    ctx.nontrivial(True)


@R.part('shift', d(els=elements(plasma, plasma, blow, lens),
                   b=lists(bunch, min_size=1, max_size=2),
                   by=st.sampled_from([-1e-4, -1.37e-5, 3.1e-6, 2.5e-5,
                                       1e-3])),
        quick=50, thorough=2500, rule='particles with different momenta',
        env=ENV, weight=2)
def shift(c, ctx):
    """Moving bunches, laser, fields and simulation box along the co-moving
    axis moves the result."""
    # the focusing blowout takes the density where the bunch is
    c = dict(c, els=[dict(e, prof='flat') if e['kind'] == 'focusing' else e
                     for e in c['els']])
    compare(c, dict(ONE, xi=c['by']), ctx, 'shift along xi', False)


@R.part('distance', d(els=elements(plasma, plasma, blow, lens, fquad),
                      b=lists(bunch, min_size=1, max_size=2),
                      by=st.sampled_from([-.5, 2.**-10, 1e-3, .25, 3., 100.])),
        quick=50, thorough=2500, rule='particles with different momenta',
        env=ENV, weight=2)
def distance(c, ctx):
    """The distance travelled before an element only counts for the time of
    injection."""
    # injection is decided by comparing distances: keep ties away
    c = dict(c, b=[dict(b, inj=None) for b in c['b']])
    ref, got = run(c, ONE), run(c, dict(ONE, z=c['by']))
    if not finite(ref):
        return
    for i, (x, y) in enumerate(zip(ref[0], got[0])):
        for k in x:
            if k == 'prop':
                close(y[k], x[k], 0, 1e-12 * (1 + abs(c['by'])),
                      f'distance of bunch or output {i}')
            else:
                same(y[k], x[k], f'{k} of bunch or output {i} after {c["by"]}'
                     ' m')
    for i, (x, y) in enumerate(zip(ref[1], got[1])):
        for k in x:
            same(y[k], x[k], f'{k} of field {i} after {c["by"]} m')
    ctx.nontrivial(True)
    for e in c['els']:
        ctx.label(e['kind'])


@R.part('similar', d(els=elements(plasma, plasma, blow, lens, fquad),
                     b=lists(bunch, min_size=1, max_size=2),
                     k=st.sampled_from([-4, -2, -1, 1, 3, 5])),
        quick=60, thorough=3000, rule='particles with different momenta',
        env=ENV, weight=2)
def similar(c, ctx):
    """All lengths and charges times s, densities and field gradients over
    s^2: the same simulation in other units."""
    compare(c, dict(ONE, lam=4.**c['k']), ctx, f'scale {4.**c["k"]:g}', True)


# --------------------------------------------------- transfer-map elements

tm = d(kind=st.sampled_from(['drift', 'dipole', 'dipole', 'quad', 'sext']),
       L=logfl(1e-2, 1.), k=fl(-5., 5.), ang=st.one_of(
           fl(.02, .3), fl(-.3, -.02)), order=st.integers(1, 2),
       csr=st.booleans(), n_out=st.one_of(st.none(), st.integers(1, 3)))
tmb = d(n=st.integers(40, 120), seed=seeds, sx=logfl(1e-6, 1e-4),
        sz=logfl(1e-6, 1e-4), w=logfl(1e4, 1e8), pz=logfl(200., 1e4),
        x0=fl(-1e-5, 1e-5), q=st.sampled_from(['electron', 'positron']))


def tm_track(c, T, mx=1, my=1):
    from wake_t import Drift, Dipole, Quadrupole, Sextupole, ParticleBunch
    from wake_t.physics_models.collective_effects.csr import (
        reset_csr_calculator)
    s, b = T['lam'], c['b']
    u = rng(b['seed']).normal(size=(6, b['n']))
    u = np.clip(u, -3, 3)
    q, m = SPECIES[b['q']]
    eps = 1 + T['eps'] * rng(b['seed'] ^ 5).choice([-1., 1.], (6, b['n']))
    u = u * eps
    bunch = ParticleBunch(
        np.full(b['n'], b['w'] * s), mx * s * (b['sx'] * u[0] + b['x0']),
        my * s * b['sx'] * u[1], s * (b['sz'] * u[2] + T['xi']),
        mx * .3 * u[3], my * .3 * u[4], b['pz'] * (1 + .003 * u[5]),
        name='b', q_species=q, m_species=m, prop_distance=T['z'] * s)
    outs = []
    reset_csr_calculator()
    with quiet():
        for e in c['els']:
            kw = dict(n_out=e['n_out'], order=e['order'])
            L = e['L'] * s
            if e['kind'] == 'drift':
                el = Drift(L, **kw)
            elif e['kind'] == 'dipole':
                el = Dipole(L, mx * e['ang'], csr_on=e['csr'], **kw)
            elif e['kind'] == 'quad':
                el = Quadrupole(L, e['k'] / s**2, **kw)
            else:
                el = Sextupole(L, mx * e['k'] / s**3, **kw)
            outs += el.track(bunch, show_progress_bar=False)
    reset_csr_calculator()
    res = []
    for o in outs + [bunch]:
        res.append(dict(
            # a bend turns the direction of the shift with the orbit
            x=mx * o.x / s - T['xi'] * np.sin(o.theta_ref), y=my * o.y / s,
            xi=o.xi / s - T['xi'] * np.cos(o.theta_ref), px=mx * o.px, py=my * o.py, pz=o.pz, w=o.w / s,
            prop=np.array([o.prop_distance / s - T['z']]),
            xr=np.array([mx * o.x_ref / s]),
            th=np.array([mx * o.theta_ref])))
    return res


@R.part('maps', d(els=lists(tm, min_size=1, max_size=3), b=tmb,
                  how=st.sampled_from(['mirror x', 'mirror y', 'half',
                                       'scale', 'shift', 'distance']),
                  k=st.sampled_from([-2, -1, 1, 2]), by=fl(-1e-2, 1e-2)),
        quick=100, thorough=4000, rule='at least one element which is not a '
        'drift', env=ENV, weight=2)
def maps(c, ctx):
    """Magnets are symmetric about their planes, act anywhere, and scale."""
    h = c['how']
    if h == 'scale':
        # the CSR calculation has fixed steps along the trajectory
        c = dict(c, els=[dict(e, csr=False) for e in c['els']])
    try:
        ref = tm_track(c, ONE)
        pert = [tm_track(c, dict(ONE, eps=e)) for e in (1e-13, -1e-13, 1e-12)]
    except ValueError:          # lost bunch: CSR of a non-finite distribution
        ctx.label('lost')
        return
    T, mx, my = dict(ONE), 1, 1
    if h == 'mirror x':
        mx = -1
    elif h == 'mirror y':
        my = -1
    elif h == 'half':
        mx = my = -1
    elif h == 'scale':
        T['lam'] = 4.**c['k']
    elif h == 'shift':
        T['xi'] = c['by']
    else:
        T['z'] = 100 * c['by']
    if not finite((ref, [])):
        return
    got = tm_track(c, T, mx, my)
    check(len(got) == len(ref), '{} outputs instead of {}', len(got),
          len(ref))
    for i, (x, y) in enumerate(zip(ref, got)):
        for k in x:
            sens = max(np.max(np.abs(p[i][k] - x[k])) for p in pert)
            sc = dict(x=1e-5, y=1e-5, xi=1e-5, px=1., py=1., pz=c['b']['pz'],
                      prop=1., xr=1., th=1.).get(k, x['w'].max())
            tol = 1e-10 * sc + 1e3 * sens
            if h == 'shift':
                tol += 1e-13 * dict(pz=sc).get(k, 1.)
            e = np.max(np.abs(x[k] - y[k]))
            check(e <= tol, '{}: {} of output {} changes by {:.3e} '
                  '(tolerance {:.3e})', h, k, i, e, tol)
    ctx.nontrivial(any(e['kind'] != 'drift' for e in c['els']))
    ctx.label(h)
    if any(e['csr'] and e['kind'] == 'dipole' for e in c['els']):
        ctx.label('csr')
