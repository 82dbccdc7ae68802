"""C23: plasma ramps follow the requested density profile."""
import numpy as np
import scipy.constants as ct
from hypothesis import strategies as st
from vp import lists, Registry, check, close, same, d, fl, logfl, seeds, rng
from sims import bulk_case, bulk_bunch, GRID, final
from refs import state

R = Registry()

ramp = d(L=logfl(1e-3, 1.), top=logfl(1e20, 1e25), ratio=logfl(1.001, 1e4),
         pos=st.one_of(st.none(), fl(.05, 3.)),
         decay=st.one_of(st.none(), st.none(), logfl(.02, 20.)),
         shape=st.sampled_from(['inverse_square', 'exponential', 'gaussian',
                                'custom', 'default']),
         kind=st.sampled_from(['upramp', 'downramp', 'default']))


def reference(c):
    """Density as a function of the position in the ramp."""
    L, top = c['L'], c['top']
    down = top / c['ratio']
    pos = L if c['pos'] is None else c['pos'] * L
    shape = 'inverse_square' if c['shape'] == 'default' else c['shape']
    dec = None if c['decay'] is None else c['decay'] * L

    def g(z):
        """z: distance from the plateau."""
        if shape == 'custom':
            return top * (1 + .5 * np.sin(3 * z / L)) + down * pos / L
        if shape == 'inverse_square':
            u = z / dec if dec else z / pos * (np.sqrt(c['ratio']) - 1)
            return top / (1 + u)**2
        if shape == 'exponential':
            if dec:
                return top * np.exp(-z / dec)
            return top * c['ratio']**(-z / pos)
        if dec:
            return top * np.exp(-.5 * (z / dec)**2)
        return top * c['ratio']**(-(z / pos)**2)
    if c['kind'] == 'downramp':
        return g, g
    return (lambda z: g(L - z)), g


def build(c, **kw):
    from wake_t import PlasmaRamp
    a = {}
    if c['shape'] != 'default':
        a['profile'] = c['shape']
    if c['kind'] != 'default':
        a['ramp_type'] = c['kind']
    if c['shape'] == 'custom':
        def mine(z, decay_length, density_top, density_down, position_down):
            check(decay_length == (None if c['decay'] is None
                                   else c['decay'] * c['L']),
                  'decay_length given to the profile: {}', decay_length)
            close(position_down, c['L'] * (1. if c['pos'] is None
                                           else c['pos']), 1e-12, 0,
                  'position_down given to the profile')
            return (density_top * (1 + .5 * np.sin(3 * z / c['L'])) +
                    density_down * position_down / c['L'])
        a['profile'] = mine
    if c['decay'] is not None:
        a['decay_length'] = c['decay'] * c['L']
    if c['decay'] is None or c['shape'] == 'custom':
        a['plasma_dens_down'] = c['top'] / c['ratio']
        if c['pos'] is not None:
            a['position_down'] = c['pos'] * c['L']
    elif c['pos'] is not None:
        a['position_down'] = c['pos'] * c['L']
    return PlasmaRamp(c['L'], plasma_dens_top=c['top'], **a, **kw)


@R.part('profile', d(r=ramp, z=lists(fl(0, 1), min_size=1, max_size=8)),
        quick=2400, thorough=25000,
        rule='density of the element at any position (scalars and arrays), '
             'at the plateau end and at the reference position; non-trivial: '
             'density varies by more than 1 %')
def profile(c, ctx):
    r = c['r']
    el = build(r, wakefield_model=None)
    ref, g = reference(r)
    L = r['L']
    z = np.array(c['z']) * L
    sc = r['top'] if r['shape'] != 'custom' else 1.5 * r['top'] + r['top'] * 3
    got = np.asarray(el.density(z))
    # relative precision of exp(-u) is that of u
    u = np.log(sc / np.maximum(ref(z), 1e-200))
    err = np.abs(got - ref(z)) / np.maximum(ref(z), 1e-200)
    check(np.all(np.isfinite(got)) and np.all(err < 1e-10 * (1 + u)),
          'density {} at {}, expected {}', got, z, ref(z))
    for i, zi in enumerate(z):
        close(float(el.density(float(zi))), got[i], 1e-12, 0,
              'density at a single position')
    if r['shape'] != 'custom':
        up = r['kind'] != 'downramp'
        p = L if up else 0.
        close(float(el.density(p)), r['top'], 1e-10, 0, 'plateau density')
        pos = L if r['pos'] is None else r['pos'] * L
        if r['decay'] is None and pos <= L:
            close(float(el.density(L - pos if up else pos)),
                  r['top'] / r['ratio'], 1e-8, 0, 'density at the reference '
                  'position')
            ctx.label('reference position')
        zz = np.linspace(0, L, 50)
        n = np.asarray(el.density(zz))
        n = n if up else n[::-1]
        check(np.all(np.diff(n) >= -1e-12 * r['top']), 'density is not '
              'monotonic')
    # the mirror image
    other = dict(r, kind='upramp' if r['kind'] == 'downramp' else 'downramp')
    el2 = build(other, wakefield_model=None)
    a = np.asarray(el2.density(L - z))
    check(np.all(np.abs(a - got) <= 1e-9 * (1 + u) * np.abs(got) +
                 1e-14 * np.abs(got) + 1e-200),
          'mirrored ramp: {} and {}', a, got)
    check(el.length == L, 'length')
    ctx.label(r['shape'], r['kind'])
    ctx.nontrivial(np.ptp(ref(np.linspace(0, L, 9))) > .01 * r['top'])


sim = d(r=ramp, Ls=logfl(1e-4, 5e-3), top=logfl(1e22, 1e24),
        bs=lists(bulk_case(5), min_size=1, max_size=2),
        nz=fl(.7, 5.), steps=fl(.6, 4.), n_out=st.integers(1, 2),
        pusher=st.sampled_from(['boris', 'rk4']), auto=st.booleans(),
        model=st.sampled_from(['cold_fluid_1d', 'focusing_blowout']),
        flat=st.booleans())


def watch(log):
    """Record the density of every update of the cold fluid wakefield."""
    import contextlib
    from wake_t.physics_models.plasma_wakefields import (
        NonLinearColdFluidWakefield as F)

    @contextlib.contextmanager
    def cm():
        orig = F.update

        def update(self, bunches):
            orig(self, bunches)
            log.append((self.t, float(self.n_p)))
        F.update = update
        try:
            yield
        finally:
            F.update = orig
    return cm()


_focus = []


def focusing():
    """Compiled once: the model of the elements without a grid."""
    if not _focus:
        from wake_t.physics_models.plasma_wakefields import (
            FocusingBlowoutField)
        _focus.append(FocusingBlowoutField(lambda z: 0 * z))
    return _focus[0]


@R.part('track', sim, quick=450, thorough=4000,
        rule='bunches tracked in the ramp against a plasma stage with the '
             'reference density, and density seen by the wakefield at every '
             'update; non-trivial: varying density and changed momenta')
def track(c, ctx):
    from wake_t import PlasmaStage
    r = dict(c['r'], L=c['Ls'], top=c['top'])
    L = c['Ls']
    n0 = c['top']
    ref = reference(r)[0]
    kw = dict(bunch_pusher=c['pusher'], n_out=c['n_out'])
    kw['dt_bunch'] = 'auto' if c['auto'] else L / ct.c / c['steps']
    if c['model'] == 'cold_fluid_1d':
        kw.update(wakefield_model='cold_fluid_1d', n_r=8, n_xi=12,
                  beam_wakefields=True, dz_fields=L / c['nz'], **GRID)
    if c['flat']:
        # a profile which is constant
        from wake_t import PlasmaRamp

        def ramp_(**k):
            return PlasmaRamp(
                L, profile=lambda z, **a: np.ones_like(z) * n0, **k)

        def ref(z):
            return np.ones_like(np.asarray(z, float)) * n0
        dens = n0
    else:
        def ramp_(**k):
            return build(r, **k)
        dens = ref
    if c['auto'] and np.max(ref(np.linspace(0, L, 100))) < 1e-3 * n0:
        kw['dt_bunch'] = L / ct.c / c['steps']
    if np.min(ref(np.linspace(0, L, 100))) < 1e-9 * n0:
        ctx.label('practically no plasma (skipped)')
        return
    log, log2 = [], []
    res = []
    for k, l in ((0, log), (1, log2)):
        bs = [bulk_bunch(b, name=f'b{i}') for i, b in enumerate(c['bs'])]
        arg = bs if len(bs) > 1 else bs[0]
        if c['model'] == 'focusing_blowout':
            f = focusing()
            el = ramp_(wakefield_model=f, **kw) if k == 0 else PlasmaStage(
                L, dens, wakefield_model=f, **kw)
            f.density = el.density
        else:
            el = ramp_(**kw) if k == 0 else PlasmaStage(L, dens, **kw)
        with watch(l):
            out = el.track(arg, show_progress_bar=False)
        res.append((final(bs), out))
    if c['model'] == 'cold_fluid_1d':
        check(len(log) == len(log2) and len(log) > 0,
              '{} updates of the wakefield in the ramp, {} in the stage',
              len(log), len(log2))
        for (t, n), (t2, n2) in zip(log, log2):
            close(t, t2, 1e-12, 0, 'time of the update')
            close(n, float(ref(t * ct.c)), 1e-7, 0, 'density of the '
                  'wakefield', scale=n0 * 1e-3 + float(ref(t * ct.c)))
    tolp = max(np.max(np.abs(v[3:6])) for v in res[0][0])
    for a, b in zip(res[0][0], res[1][0]):
        for i in range(7):
            close(a[i], b[i], 1e-9, 1e-14 if i < 3 else 1e-9 * tolp,
                  'x y xi px py pz w'.split()[i] + ' after the ramp')
    check(len(res[0][1]) == len(res[1][1]), 'number of outputs')
    bs = [bulk_bunch(b) for b in c['bs']]
    moved = any(np.any(np.abs(state(b)[3] - v[3]) > 1e-9)
                for b, v in zip(bs, res[0][0]))
    ctx.label(c['model'], 'flat' if c['flat'] else r['shape'])
    ctx.nontrivial(moved and not c['flat'])
