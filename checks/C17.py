"""C17: plasma stages apply plasma and laser at the current position."""
import numpy as np
import scipy.constants as ct
from hypothesis import strategies as st
from vp import lists, Registry, check, close, same, d, fl, logfl, seeds, rng
from sims import (bulk_case, bulk_bunch, laser_case, make_laser, GRID,
                  model_case, model_params, make_stage, field_state, final)
from refs import state

R = Registry()
CLS = dict(quasistatic_2d='Quasistatic2DWakefield',
           cold_fluid_1d='NonLinearColdFluidWakefield')


def cls(c):
    import wake_t.physics_models.plasma_wakefields as m
    return getattr(m, CLS[c['model']])


class Frozen:
    """Stand-in for a laser with a fixed envelope."""

    def __init__(self, env, pol):
        self.env, self.polarization, self.l_0 = env, pol, 0.8e-6

    def set_envelope_solver_params(self, *a, **k):
        pass

    def initialize_envelope(self):
        pass

    def evolve(self, *a, **k):
        pass

    def get_envelope(self):
        return self.env


def profile(p, L):
    """Density along the stage (function of z) from a JSON description."""
    n0, k, s = p['n0'], p['kind'], p['s']

    def f(z):
        u = np.asarray(z, dtype=float) / L
        if k == 'flat':
            return np.ones_like(u) * n0
        if k == 'linear':
            return n0 * (1 + s * u)
        if k == 'steps':
            return n0 * np.where(u < 0.45, 1., 1 + 0.7 * s)
        if k == 'thin':       # (nearly) vacuum along a part of the stage
            return n0 * np.where(abs(u - .5) < .3 + .4 * s, 1e-6, 1.)
        return n0 * (1 + 0.5 * s * np.sin(9 * u))
    return f


prof = d(kind=st.sampled_from(['flat', 'linear', 'steps', 'wave',
                               'thin']),
         n0=logfl(3e22, 1e24), s=fl(-0.8, 0.8))
coef = st.one_of(st.none(), fl(0., 2.), d(a=fl(0., 1.), b=fl(0., 1.)))


def pcoef(p, L):
    if p is None:
        return 0.
    r2 = GRID['r_max']**2
    if isinstance(p, dict):
        return lambda z: (p['a'] + p['b'] * z / L) / r2
    return p / r2


updates = d(
    m=model_case(), prof=prof, pc=coef, L=logfl(2e-5, 2e-3),
    nz=fl(0.6, 7.3), evol=st.booleans(), sub=st.integers(1, 3),
    sub_n=st.one_of(st.none(), d(nxi=st.integers(8, 30),
                                 nr=st.integers(6, 20))),
    phase=st.booleans(), steps=fl(0.5, 6.), n_out=st.integers(0, 3),
    bs=lists(bulk_case(8, w=(1e3, 1e6)), min_size=0, max_size=2),
    again=st.booleans())


@R.part('updates', updates, quick=90, thorough=2500, weight=3,
        rule='at least two updates with a driver')
def upd(c, ctx):
    from wake_t import PlasmaStage
    m = c['m']
    L = c['L']
    dens = profile(c['prof'], L)
    pc = pcoef(c['pc'], L)
    las = make_laser(m['laser'])
    kw = model_params(m, las)
    if las is not None:
        kw.update(laser_evolution=c['evol'],
                  laser_envelope_substeps=c['sub'],
                  laser_envelope_use_phase=c['phase'])
        if c['sub_n'] is not None:
            kw.update(laser_envelope_nxi=c['sub_n']['nxi'],
                      laser_envelope_nr=c['sub_n']['nr'])
    dzf = L / c['nz']
    qs = m['model'] == 'quasistatic_2d'
    if qs and c['pc'] is not None:
        kw['parabolic_coefficient'] = pc
    log = []
    base = cls(m)
    asked = []

    class Rec(base):
        def update(self, bunches):
            super().update(bunches)
            log.append(dict(
                t=self.t, n_p=float(self.n_p), f=field_state(self),
                b=[b.copy() for b in bunches]))

    def watched(z):
        asked.append(np.array(z))
        return dens(z)
    bs = [bulk_bunch(b, name=f'b{i}') for i, b in enumerate(c['bs'])]
    if not bs and las is None and c['n_out'] == 0:
        return
    stage = PlasmaStage(L, watched, wakefield_model=Rec(
        watched, dz_fields=dzf, **kw), n_out=c['n_out'],
        dt_bunch=L / ct.c / c['steps'])
    n0 = [state(b) for b in bs]
    rounds = 2 if c['again'] else 1
    las2 = make_laser(m['laser'])     # evolved by hand
    dt = dzf / ct.c
    T = L / ct.c
    x = T / dt
    if las is not None:
        if abs(x - round(x)) < 1e-6:
            return
        n_even = int(np.ceil(x))
        dt = T / n_even
        last = n_even
    else:
        if abs(x - round(x)) < 1e-5:
            return
        last = int(np.floor(x))
    for k in range(rounds):
        del log[:]
        stage.track(bs, show_progress_bar=False)
        for i, e in enumerate(log):
            close(e['t'], i * dt, 1e-9, 0, f'time of update {i}', scale=T)
            close(e['n_p'], float(dens(e['t'] * ct.c)), 1e-12, 0,
                  f'density used at update {i}')
        # number of updates: all starting before the end; the last period of
        # a laser driven stage is completed
        check(len(log) == last + 1, '{} field updates in a stage of {:.4f} '
              'periods', len(log), x)
        if las is not None:
            las2.set_envelope_solver_params(
                GRID['xi_min'], GRID['xi_max'], GRID['r_max'], m['n_xi'],
                m['n_r'], dt, c['sub'],
                c['sub_n'] and c['sub_n']['nxi'],
                c['sub_n'] and c['sub_n']['nr'], c['phase'])
            las2.initialize_envelope()
        for i, e in enumerate(log):
            fr = None
            if las is not None:
                if i and c['evol']:
                    p = log[i - 1]
                    las2.evolve(p['f']['chi'][2:-2, 2:-2], p['n_p'])
                close(e['f']['a'], las2.get_envelope(), 1e-9, 1e-14,
                      f'laser envelope at update {i}')
                fr = Frozen(e['f']['a'], las.polarization)
            k2 = dict(kw)
            for q in ('laser_evolution', 'laser_envelope_substeps',
                      'laser_envelope_use_phase', 'laser_envelope_nxi',
                      'laser_envelope_nr'):
                k2.pop(q, None)
            k2['laser'] = fr
            if qs and c['pc'] is not None:
                z = e['t'] * ct.c
                k2['parabolic_coefficient'] = float(
                    pc(z) if callable(pc) else pc)
            ref = base(lambda z: e['n_p'], **k2)
            ref.update(e['b'])
            g = field_state(ref)
            for q in ('e_z', 'e_r', 'b_t', 'rho', 'chi'):
                if not np.all(np.isfinite(g[q])):
                    ctx.label('beyond validity')
                    return
                close(e['f'][q], g[q], 1e-9, 0, f'{q} at update {i}')
        for b in bs:
            close(b.prop_distance, (k + 1) * L, 1e-9, 0, 'distance')
    ctx.label(m['model'], 'laser' if las else 'no laser',
              c['prof']['kind'], f'rounds={rounds}')
    ctx.nontrivial(len(log) >= 2 and (las is not None or bs))
    # every update needs the density at its own position
    za = np.concatenate([np.ravel(a) for a in asked])
    check(za.min() >= -1e-9 * L and za.max() <= L * (1 + 1e-9),
          'density evaluated outside the stage: {} .. {}', za.min(), za.max())


eq = d(m=model_case(), n_p=logfl(3e22, 1e24), pc=st.one_of(
    st.none(), fl(0., 2.)), dz=st.integers(1, 6), cuts=st.sampled_from(
        [[2, 2], [1, 1], [4, 4], [4, 2, 2], [2, 1, 1], [1, 1, 2]]),
       evol=st.booleans(), bs=lists(bulk_case(8, w=(1e3, 1e6)),
                                       min_size=1, max_size=2),
       per=st.sampled_from([1, 2, 4]), laser_n=st.integers(1, 2))


def _stage(c, L, n_p, pc, las, dz):
    m = c['m']
    kw = dict(dz_fields=dz, laser=las)
    if las is not None:
        kw.update(laser_evolution=c['evol'],
                  laser_envelope_substeps=c['laser_n'])
    if m['model'] == 'quasistatic_2d' and c['pc'] is not None:
        kw['parabolic_coefficient'] = pc
    return make_stage(m, L, laser=las, density=n_p,
                      dt_bunch=dz / ct.c / c['per'], n_out=0, **{
                          k: v for k, v in kw.items() if k != 'laser'})


@R.part('equivalent', eq, quick=90, thorough=2500, weight=3,
        rule='stage with a bunch, constant profile as function, cut in '
             'pieces, or the same object tracked repeatedly')
def equivalent(c, ctx):
    dz = 2.**c['dz'] * 1e-6
    N = sum(c['cuts'])
    if N & (N - 1):
        return
    m = c['m']
    n_p = c['n_p']
    pc = 0. if c['pc'] is None else c['pc'] / GRID['r_max']**2

    def fresh():
        return ([bulk_bunch(b, name=f'b{i}') for i, b in
                 enumerate(c['bs'])], make_laser(m['laser']))

    def go(stages, bs):
        for s in stages:
            s.track(bs, show_progress_bar=False)
        return final(bs)
    bs, la = fresh()
    s = _stage(c, N * dz, n_p, pc, la, dz)
    whole = go([s], bs)
    f0 = field_state(s.wakefield)
    if not all(np.all(np.isfinite(w)) for w in whole):
        return
    # the same as functions of position
    bs, la = fresh()
    s = _stage(c, N * dz, lambda z: np.ones_like(z) * n_p, lambda z: pc, la,
               dz)
    fn = go([s], bs)
    for a, b in zip(fn, whole):
        same(a, b, 'bunch in constant profile given as a function')
    f1 = field_state(s.wakefield)
    for k in f0:
        same(f1[k], f0[k], f'{k} in constant profile given as a function')
    # sensitivity to rounding
    bs, la = fresh()
    bs[0].xi = bs[0].xi * (1 + 1e-13)
    pert = go([_stage(c, N * dz, n_p, pc, la, dz)], bs)
    # pieces
    bs, la = fresh()
    st_ = [_stage(c, k * dz, n_p, pc, la, dz) for k in c['cuts']]
    cut = go(st_, bs)
    ctx.nontrivial(True)
    ctx.label(m['model'], 'laser' if la else 'no laser')
    sc = np.array([1e-6, 1e-6, 1e-6, 1., 1., 1e2, 1.])
    for a, b, p in zip(cut, whole, pert):
        dev = np.max(np.abs(p - b), axis=1)
        tol = 1e3 * dev + 1e-9 * (np.max(np.abs(b), axis=1) + sc[:len(dev)])
        if np.any(dev > 1e-5 * (np.max(np.abs(b), axis=1) + sc[:len(dev)])):
            ctx.label('chaotic')
            continue
        err = np.max(np.abs(a - b), axis=1)
        check(np.all(err <= tol), 'stage cut in pieces {}: final bunch '
              'differs by {} (tolerance {})', c['cuts'], err, tol)
    # the same object again behaves like a new one
    if len(set(c['cuts'])) == 1:
        bs, la = fresh()
        s = _stage(c, c['cuts'][0] * dz, n_p, pc, la, dz)
        rep = go([s] * len(c['cuts']), bs)
        for a, b in zip(rep, cut):
            same(a, b, 'bunch after tracking the same stage object again')


step = st.one_of(st.just('auto'), fl(0.3, 3.))
again = d(kind=st.sampled_from(['quasistatic_2d', 'cold_fluid_1d']),
          m=model_case(), L=logfl(2e-5, 8e-4), nz=fl(0.6, 3.3),
          sets=lists(lists(bulk_case(5, w=(1e2, 1e5), pz=(20., 1e5)),
                           min_size=2, max_size=2), min_size=2, max_size=3),
          nb=st.integers(1, 2), dt=lists(step, min_size=2, max_size=2),
          one=st.booleans(), n_out=st.integers(0, 2), s=fl(-.6, .6))


@R.part('reuse', again, quick=60, thorough=3000, weight=2,
        rule='one stage object tracked with two or three different sets of '
             'bunches equals new identical stages; non-trivial: always')
def reuse(c, ctx):
    L, m = c['L'], dict(c['m'], model=c['kind'])
    nb = c['nb']

    def dt(x):
        return x if x == 'auto' else x * L / ct.c

    def new(las):
        # the list of steps belongs to the stage
        kw = dict(dt_bunch=dt(c['dt'][0]) if c['one'] else
                  [dt(x) for x in c['dt'][:nb]], n_out=c['n_out'])

        def dens(z):
            return m['n_p'] * (1 + c['s'] * np.asarray(z) / L)
        return make_stage(m, L, laser=las, density=dens,
                          dz_fields=L / c['nz'], **kw)

    def bunches(k):
        return [bulk_bunch(b, name=f'b{i}')
                for i, b in enumerate(c['sets'][k][:nb])]

    # the pulse leaves the stage as it came out of the one before
    la = make_laser(m['laser'])
    old = new(la)
    lb = make_laser(m['laser'])
    for k in range(len(c['sets'])):
        b1, b2 = bunches(k), bunches(k)
        o1 = old.track(b1, show_progress_bar=False)
        o2 = new(lb).track(b2, show_progress_bar=False)
        if not all(np.all(np.isfinite(x)) for x in final(b2)):
            return
        for i, (x, y) in enumerate(zip(final(b1), final(b2))):
            same(x, y, f'bunch {i} after use {k + 1} of a stage '
                 f'(steps {c["dt"]})')
        flat1 = o1 if nb == 1 else sum(o1, [])
        flat2 = o2 if nb == 1 else sum(o2, [])
        check(len(flat1) == len(flat2), '{} and {} outputs', len(flat1),
              len(flat2))
        for x, y in zip(final(flat1), final(flat2)):
            same(x, y, f'output of use {k + 1} of a stage')
    ctx.label(c['kind'], 'auto' if 'auto' in c['dt'] else 'fixed steps')
    ctx.nontrivial(True)
