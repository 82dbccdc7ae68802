"""C24: simplified blowout models give the documented analytical fields."""
import numpy as np
import scipy.constants as ct
from hypothesis import strategies as st
from vp import sizes, lists, Registry, check, close, same, d, fl, logfl, seeds, rng
from refs import SPECIES, state, ref_push

R = Registry()
# The models are compiled whenever they are built: keep the machine code in a
# folder of this run only.
ENV = {'WAKET_DISABLE_CACHING': '0', 'NUMBA_CACHE_DIR': 'numba_cache'}

prof = d(n0=logfl(1e20, 1e25), s=fl(-.9, .9), kind=st.sampled_from(
    ['flat', 'linear', 'wave']))


def density(p, L):
    def f(z):
        z = np.asarray(z, float)
        if p['kind'] == 'flat':
            return p['n0'] * np.ones_like(z)
        if p['kind'] == 'linear':
            return p['n0'] * (1 + p['s'] * np.clip(z / L, 0, 1))
        return p['n0'] * (1 + p['s'] * np.sin(5 * z / L))
    return f


model = d(kind=st.sampled_from(['simple_blowout', 'custom_blowout',
                                'focusing_blowout']),
          off=st.one_of(st.none(), fl(-1e-4, 1e-4)), E0=fl(-1e11, 1e11),
          slope=fl(-1e16, 1e16), k=fl(-1e7, 1e7), xi_c=fl(-1e-4, 1e-4),
          l0=logfl(.2e-6, 10e-6), pulse=st.sampled_from(['gauss', 'lg']))


def laser(m):
    from wake_t import GaussianPulse, LaguerreGaussPulse
    if m['pulse'] == 'gauss':
        return GaussianPulse(m['xi_c'], l_0=m['l0'], w_0=2e-5, a_0=2.,
                             tau=3e-14)
    return LaguerreGaussPulse(m['xi_c'], 1, l_0=m['l0'], w_0=2e-5, a_0=1.,
                              tau=3e-14)


def params(m):
    if m['kind'] == 'focusing_blowout':
        return {}
    p = dict(laser=laser(m))
    if m['kind'] == 'simple_blowout':
        if m['off'] is not None:
            p['field_offset'] = m['off']
    else:
        p.update(lon_field=m['E0'], lon_field_slope=m['slope'],
                 foc_strength=m['k'])
        if m['off'] is not None:
            p['xi_fields'] = m['off']
    return p


def reference(m, dens):
    """Field of the model as a function of x, y, xi, t."""
    off = m['off'] or 0.

    def f(x, y, xi, t):
        z = 0 * x
        if m['kind'] == 'focusing_blowout':
            g = ct.e * dens(ct.c * t + xi) / (2 * ct.epsilon_0)
            return np.array([g * x, g * y, z, z, z, z])
        n = float(dens(ct.c * t))
        wp2 = n * ct.e**2 / (ct.m_e * ct.epsilon_0)
        w0 = 2 * np.pi * ct.c / m['l0']
        # 1 - v_g/c without cancellation
        slip = 1 - 1 / np.sqrt(1 + wp2 / w0**2)
        if wp2 < 1e-4 * w0**2:
            r = wp2 / w0**2
            slip = r / 2 - 3 * r**2 / 8 + 5 * r**3 / 16
        if m['kind'] == 'simple_blowout':
            g = ct.e * n / (2 * ct.epsilon_0)
            lp = 2 * np.pi * ct.c / np.sqrt(wp2)
            ez = g * (xi + lp / 2 - m['xi_c'] - off + slip * ct.c * t)
        else:
            g = ct.c * m['k']
            ez = m['E0'] + m['slope'] * (xi - off + slip * ct.c * t)
        return np.array([g * x, g * y, ez, z, z, z])
    return f


@R.part('fields', d(m=model, p=prof, L=logfl(1e-3, 1.), seed=seeds,
                    ts=lists(fl(0, 1), min_size=1, max_size=5),
                    n=sizes(1, 9, 3000), pre=st.booleans()),
        quick=1400, thorough=12000, env=ENV,
        rule='gathered fields of each model at any position and time against '
             'the documented expressions; non-trivial: varying density')
def fields(c, ctx):
    import wake_t.physics_models.plasma_wakefields as w
    m = c['m']
    cls = dict(simple_blowout=w.SimpleBlowoutWakefield,
               custom_blowout=w.CustomBlowoutWakefield,
               focusing_blowout=w.FocusingBlowoutField)[m['kind']]
    dens = density(c['p'], c['L'])
    f = cls(dens, **params(m))
    ref = reference(m, dens)
    g = rng(c['seed'])
    for t in c['ts']:
        t *= c['L'] / ct.c
        x, y = g.normal(size=(2, c['n'])) * 1e-5
        xi = g.uniform(-1, 1, c['n']) * 1e-4
        init = g.normal(size=(6, c['n'])) * 1e5 if c['pre'] else np.zeros(
            (6, c['n']))
        out = init.copy()
        keep = x.copy(), y.copy(), xi.copy()
        f.gather(x, y, xi, t, *out)
        for a, b in zip((x, y, xi), keep):
            same(a, b, 'particle positions')
        e = ref(x, y, xi, t)
        slope = (abs(m['slope']) if m['kind'] == 'custom_blowout' else
                 ct.e * dens(ct.c * t) / (2 * ct.epsilon_0))
        for k in range(6):
            # slippage is a small difference of numbers of the size of z
            at = 1e-4 + (4e-16 * ct.c * t * np.max(slope) if k == 2 else 0)
            close(out[k] - init[k], e[k], 1e-10, at,
                  'Ex Ey Ez Bx By Bz'.split()[k] + f' of {m["kind"]}',
                  scale=np.max(np.abs(e[k])) + 1e-5 * np.max(np.abs(init)))
    ctx.label(m['kind'], c['p']['kind'])
    ctx.nontrivial(c['p']['kind'] != 'flat')


@R.part('stage', d(m=model, p=prof, L=logfl(1e-4, 2e-2), seed=seeds,
                   n=sizes(1, 5, 2000), species=st.sampled_from(
                       sorted(SPECIES)), pz=logfl(20., 1e4),
                   N=st.integers(2, 12), pusher=st.sampled_from(
                       ['boris', 'rk4']), n0=logfl(1e21, 1e24),
                   const=st.booleans()),
        quick=750, thorough=6000, env=ENV,
        rule='bunch tracked in a PlasmaStage with the model against pushes '
             'of the reference scheme in the reference field; non-trivial: '
             'the momentum changes')
def stage(c, ctx):
    from wake_t import PlasmaStage, ParticleBunch
    m = dict(c['m'])
    m['E0'] *= .05
    m['slope'] *= .05
    m['k'] = .1 * m['k']
    L, N = c['L'], c['N']
    dens = density(dict(c['p'], n0=c['n0']), L)
    if c['const']:
        def dens(z):
            return c['n0'] * np.ones_like(np.asarray(z, float))
    q, mass = SPECIES[c['species']]
    g = rng(c['seed'])
    n = c['n']
    u = g.normal(size=(6, n))
    s = np.array([1e-6 * u[0], 1e-6 * u[1], 1e-5 * u[2], 1e-3 * u[3] * c['pz'],
                  1e-3 * u[4] * c['pz'], c['pz'] * (1 + .02 * np.tanh(u[5]))])
    b = ParticleBunch(np.ones(n), *s.copy(), q_species=q, m_species=mass,
                      name='b')
    el = PlasmaStage(L, c['n0'] if c['const'] else dens,
                     wakefield_model=m['kind'], bunch_pusher=c['pusher'],
                     dt_bunch=L / ct.c / N, n_out=1, **params(m))
    f = reference(m, dens)
    e = s.copy()
    dt = L / ct.c / N
    path = []
    with np.errstate(all='ignore'):
        for k in range(N):
            e = ref_push(c['pusher'], e, k * dt, dt, q / mass, f)
            path.append(e.copy())
    if not np.all(np.isfinite(path)) or np.max(np.abs(path)[:, :2]) > 1e-3 \
            or np.min(np.array(path)[:, 5]) < 2 \
            or np.max(np.abs(np.array(path)[:, 3:5])) > .1 * c['pz']:
        ctx.label('unphysical (skipped)')
        return
    out = el.track(b, show_progress_bar=False)
    got = state(b)
    ch = np.max(np.abs(e - s), axis=1)
    for k in range(6):
        # event times are single precision
        close(got[k], e[k], 1e-9, 1e-5 * ch[k] + (1e-13 if k < 3 else 1e-7),
              'x y xi px py pz'.split()[k] + f' after {m["kind"]}')
    close(b.prop_distance, L, 1e-6, 0, 'distance')
    check(len(out) == 2, '{} outputs', len(out))
    ctx.label(m['kind'], c['species'])
    ctx.nontrivial(ch[3] > 1e-6 * c['pz'])


@R.part('matched', d(n0=logfl(1e21, 1e25), ene=logfl(100., 1e5),
                     species=st.sampled_from(['electron', 'muon']),
                     model=st.sampled_from(['focusing_blowout',
                                            'custom_blowout']),
                     en=logfl(1e-9, 1e-6), per=fl(.3, 2.),
                     pusher=st.sampled_from(['boris', 'rk4']),
                     n_out=st.integers(1, 6), prof=prof, var=st.booleans(),
                     mix=st.one_of(st.just(1.), logfl(1.1, 50.))),
        quick=180, thorough=1500, env=ENV,
        rule='ring of particles with the matched beta function tracked with '
             'automatic time steps: constant size along the stage, and step '
             'sizes that resolve the betatron motion; non-trivial: more than '
             'one betatron oscillation')
def matched(c, ctx):
    from wake_t import PlasmaStage, ParticleBunch
    q, mass = SPECIES[c['species']]
    n0 = c['n0']
    k = ct.e * n0 / (2 * ct.epsilon_0 * ct.c)      # T/m
    beta = np.sqrt(c['ene'] * mass * ct.c / (abs(q) * k))
    A = np.sqrt(2 * c['en'] / c['ene'] * beta)
    if A / beta > 1e-2:
        return
    ph = np.arange(12) * 2 * np.pi / 12
    # some particles of higher energy on axis, which oscillate more slowly
    hot = np.zeros(3)

    def cat(v):
        return np.concatenate([v, hot])
    b = ParticleBunch(
        np.ones(15), x=cat(A * np.cos(ph)), y=cat(2 * A * np.cos(ph)),
        xi=np.zeros(15), px=cat(-c['ene'] * A / beta * np.sin(ph)),
        py=cat(-2 * c['ene'] * A / beta * np.sin(ph)),
        pz=np.concatenate([c['ene'] + 0 * ph, c['ene'] * c['mix'] + hot]),
        q_species=q, m_species=mass, name='b')
    L = c['per'] * 2 * np.pi * beta
    asked = []

    def dens(z):
        asked.append(np.max(z))
        if not c['var']:
            return n0 * np.ones_like(np.asarray(z, float))
        return density(dict(c['prof'], n0=n0), L)(z)
    kw = {}
    if c['model'] == 'custom_blowout':
        kw = dict(laser=laser(dict(pulse='gauss', xi_c=0., l0=.8e-6)),
                  lon_field=0., lon_field_slope=0., foc_strength=k)
    el = PlasmaStage(L, dens, wakefield_model=c['model'], n_out=c['n_out'],
                     bunch_pusher=c['pusher'],
                     push_bunches_before_diags=False, **kw)
    del asked[:]
    out = el.track(b, show_progress_bar=False)
    z = np.array([a for a in asked if np.ndim(a) == 0])
    # positions at which the force is evaluated
    z = np.unique(np.round(z[(z > 1e-9 * L) & (z < L * (1 - 1e-9))], 15))
    nmax = np.max([dens(x) for x in np.linspace(0, L, 100)])
    step = np.sqrt(c['ene'] * mass * ct.c /
                   (abs(q) * ct.e * nmax / (2 * ct.epsilon_0 * ct.c))) * .1
    dz = np.diff(z)
    check(len(z) > 0 and np.max(dz, initial=0.) < 1.03 * step and
          len(z) < 4.6 * L / step + 10, 'automatic steps up to {} m ({} '
          'evaluations); betatron length/(20 pi) = {} m, stage of {} m',
          np.max(dz, initial=0.), len(z), step, L)
    ctx.label(c['model'], c['species'])
    if c['var'] and c['model'] != 'custom_blowout':
        return
    s0 = None
    for o in out + [b]:
        s = [np.sqrt(np.mean(o.x[:12]**2)),
             np.sqrt(np.mean(o.y[:12]**2)) / 2,
             np.sqrt(np.mean(o.px[:12]**2)) * beta / c['ene']]
        close(np.array(s), np.full(3, A / np.sqrt(2)), 8e-3, 0,
              'size and divergence of a matched bunch')
    ctx.nontrivial(c['per'] > 1)
