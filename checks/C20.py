"""C20: generated bunches have the requested parameters."""
import numpy as np
import scipy.constants as ct
from scipy import special
from hypothesis import strategies as st
from vp import Registry, check, close, same, d, fl, logfl, seeds, rng
from refs import SPECIES, state

R = Registry()

base = dict(ex=logfl(1e-9, 1e-4), ey=logfl(1e-9, 1e-4), ene=logfl(5., 1e5),
            sp=st.one_of(st.just(0.), logfl(1e-3, 10.)), st=logfl(.01, 1e3),
            xi=fl(-1e-3, 1e-3), q=logfl(1e-3, 1e4), xo=fl(-1e-3, 1e-3),
            yo=fl(-1e-3, 1e-3), tx=fl(-1e-2, 1e-2), ty=fl(-1e-2, 1e-2),
            species=st.sampled_from(sorted(SPECIES)), seed=seeds,
            opt=st.booleans())
gen = st.one_of(
    d(kind=st.just('twiss'), ax=fl(-5, 5), ay=fl(-5, 5), bx=logfl(1e-4, 1e2),
      by=logfl(1e-4, 1e2), **base),
    d(kind=st.just('size'), sx=logfl(1e-7, 1e-3), sy=logfl(1e-7, 1e-3),
      **base),
    d(kind=st.just('matched'), n_p=st.one_of(st.none(), logfl(1e20, 1e25)),
      k=logfl(1e3, 1e8), both=st.booleans(), **base))


def ask(c, n, name='b', reseed=True, **over):
    """Generate the bunch of a case with a fixed random seed."""
    from wake_t.utilities import bunch_generation as bg
    c = dict(c, **over)
    q, m = SPECIES[c['species']]
    kw = dict(name=name)
    if c['opt'] or c['species'] != 'electron':
        kw.update(q_species=q, m_species=m)
    off = dict(x_off=c['xo'], y_off=c['yo'], theta_x=c['tx'],
               theta_y=c['ty'])
    com = (c['ene'], c['sp'], c['st'], c['xi'], c['q'], n)
    if reseed:
        np.random.seed(c['seed'])
    if c['kind'] == 'twiss':
        return bg.get_gaussian_bunch_from_twiss(
            c['ex'], c['ey'], c['ax'], c['ay'], c['bx'], c['by'], *com,
            **off, **kw)
    if c['kind'] == 'size':
        return bg.get_gaussian_bunch_from_size(
            c['ex'], c['ey'], c['sx'], c['sy'], *com, **off, **kw)
    f = {}
    if c['n_p'] is None or c['both']:
        f['k_x'] = c['k']
    if c['n_p'] is not None:
        f['n_p'] = c['n_p']
    return bg.get_matched_bunch(c['ex'], c['ey'], *com, **off, **f, **kw)


def twiss(c):
    """Requested (alpha, beta) in x and y."""
    if c['kind'] == 'twiss':
        return (c['ax'], c['bx']), (c['ay'], c['by'])
    if c['kind'] == 'size':
        return ((0., c['sx']**2 * c['ene'] / c['ex']),
                (0., c['sy']**2 * c['ene'] / c['ey']))
    q, m = SPECIES[c['species']]
    k = c['k']
    if c['n_p'] is not None and not c['both']:
        k = ct.e * c['n_p'] / (2 * ct.epsilon_0 * ct.c)
    # x'' = -(|q| c k / (gamma m c^2)) x in a force q c k x
    b = np.sqrt(c['ene'] * m * ct.c / (abs(q) * k))
    return (0., b), (0., b)


TR = np.sqrt(1 - 2 * 3 * np.exp(-4.5) / np.sqrt(2 * np.pi) /
             special.erf(3 / np.sqrt(2)))


def stat(v, mean, std, n, what, lim=None, sig=8.):
    """Sample mean and standard deviation within sampling error."""
    close(np.mean(v), mean, 0, sig * std / np.sqrt(n) + 1e-12 * abs(mean),
          'mean of ' + what)
    if std == 0:
        close(np.std(v), 0., 0, 1e-12 * abs(mean), 'spread of ' + what)
        return
    s = np.std(v)
    check(abs(s / std - 1) < sig / np.sqrt(2 * n), 'standard deviation of '
          '{}: {}, requested {}', what, s, std)


@R.part('statistics', d(g=gen, n=st.integers(15000, 40000)), quick=800,
        thorough=8000,
        rule='moments of large generated bunches against the requested '
             'parameters within 8 standard errors; non-trivial: offsets and '
             'energy spread')
def statistics(c, ctx):
    g, n = c['g'], c['n']
    b = ask(g, n)
    for k in ('x', 'y', 'xi', 'px', 'py', 'pz', 'w'):
        v = getattr(b, k)
        check(np.shape(v) == (n,) and np.all(np.isfinite(v)),
              '{} has shape {}, {} requested', k, np.shape(v), n)
    q, m = SPECIES[g['species']]
    check(b.q_species == q and b.m_species == m and b.name == 'b',
          'species or name')
    close(np.sum(b.w) * abs(q), g['q'] * 1e-12, 1e-10, 0, 'total charge')
    check(np.all(b.w == b.w[0]) and b.w[0] > 0, 'weights')
    check(b.prop_distance == 0, 'prop_distance')
    e = g['ene']
    stat(b.pz, e, e * g['sp'] / 100, n, 'pz')
    sz = g['st'] * 1e-15 * ct.c
    stat(b.xi, g['xi'], sz * TR, n, 'xi')
    check(np.max(np.abs(b.xi - g['xi'])) <= 3 * sz * (1 + 1e-9) +
          1e-12 * abs(g['xi']), 'xi up to {} sigma',
          np.max(np.abs(b.xi - g['xi'])) / sz)
    # truncated, not clipped
    frac = np.mean(np.abs(b.xi - g['xi']) > 2 * sz)
    ex = (special.erf(3 / np.sqrt(2)) - special.erf(np.sqrt(2))) / special.erf(
        3 / np.sqrt(2))
    check(abs(frac - ex) < 8 * np.sqrt(ex / n), 'fraction of particles '
          'beyond 2 sigma in xi: {}, expected {}', frac, ex)
    check(len(np.unique(b.xi)) >= .9985 * n or 1e-3 * sz < 1e-12 * abs(
        g['xi']), 'only {} different positions of {} particles: piled up',
        len(np.unique(b.xi)), n)
    (ax, bx), (ay, by) = twiss(g)
    U = []
    for nm, pos, p, off, th, em, a, be in (
            ('x', b.x, b.px, g['xo'], g['tx'], g['ex'], ax, bx),
            ('y', b.y, b.py, g['yo'], g['ty'], g['ey'], ay, by)):
        em = em / e
        s = np.sqrt(em * be)
        sp = np.sqrt(em * (1 + a**2) / be)
        slope = (p - th * e) / b.pz
        # offset and angle lose digits of the slope
        stat(pos, off, s, n, nm)
        stat(slope, 0., sp, n, nm + "'")
        stat(p, th * e, sp * e * np.sqrt(1 + (g['sp'] / 100)**2), n, 'p' + nm,
             sig=9)
        u = (pos - off) / s
        v = slope / sp
        rho = -a / np.sqrt(1 + a**2)
        cuv = np.mean(u * v)
        check(abs(cuv - rho) < 8 * np.sqrt((1 + rho**2) / n),
              '{0}-{0}\' correlation {1}, requested {2}', nm, cuv, rho)
        got = s * sp * np.sqrt(np.mean(u**2) * np.mean(v**2) - cuv**2)
        check(abs(got / em - 1) < 8 * np.sqrt(2. / n) * 1.5,
              'emittance in {}: {}, requested {}', nm, got * e, em * e)
        v2 = (v - rho * u) / np.sqrt(1 - rho**2)
        for w_, t in ((u, nm), (v2, nm + "'")):
            m4 = np.mean(w_**4)
            check(abs(m4 - 3) < 12 * np.sqrt(96. / n), 'fourth moment of {} '
                  '{}: not Gaussian', t, m4)
        # the slope does not depend on the energy (slope^2 has variance 2,
        # times the heavier tail of pz)
        if g['sp']:
            r = np.mean((v**2 - np.mean(v**2)) * (b.pz - e)) / (
                e * g['sp'] / 100)
            check(abs(r) < 9 * np.sqrt(2 / n) * 1.2, '{}\'^2 and pz are '
                  'correlated: {}', nm, r)
        U += [(nm, u), (nm + "'", v2)]
    U.append(('xi', (b.xi - g['xi']) / sz))
    if g['sp']:
        U.append(('pz', (b.pz - e) / (e * g['sp'] / 100)))
    for i, (n1, u1) in enumerate(U):
        for n2, u2 in U[i + 1:]:
            r = np.mean(u1 * u2)
            check(abs(r) < 8 / np.sqrt(n), '{} and {} are correlated: {}',
                  n1, n2, r)
    # the next bunch and that of another seed are independent of this one
    ask(g, n)
    for what, b2 in (('the next bunch', ask(g, n, reseed=False)),
                     ('another seed', ask(g, n, seed=(g['seed'] + 1) % 2**31))):
        for nm in ('x', 'y', 'xi'):
            u1, u2 = (getattr(o, nm) - np.mean(getattr(o, nm))
                      for o in (b, b2))
            r = np.mean(u1 * u2) / (np.std(u1) * np.std(u2))
            check(abs(r) < 8 / np.sqrt(n), '{} of {} is correlated with this '
                  'bunch: {}', nm, what, r)
    ctx.label(g['kind'], g['species'])
    ctx.nontrivial(g['sp'] and g['xo'] and g['tx'])


@R.part('shift', d(g=gen, n=st.integers(1, 40), h=gen, f=logfl(.01, 100.)),
        quick=1800, thorough=20000,
        rule='same random seed with one parameter changed: only what depends '
             'on it changes, exactly as requested; non-trivial: >=5 particles')
def shift(c, ctx):
    g, h, n, f = c['g'], c['h'], c['n'], c['f']
    ref = ask(g, n)
    s0 = state(ref)
    check(s0.shape == (6, n) and len(ref.w) == n, 'number of particles {}',
          s0.shape)

    def cmp(what, exp, w=ref.w, atol=None, **over):
        b = ask(g, n, **over)
        s = state(b)
        for k in range(6):
            sc = np.max(np.abs([exp[k], s0[k]])) + (0 if atol is None
                                                    else atol[k])
            close(s[k], exp[k], 1e-11, 0,
                  f'{"x y xi px py pz".split()[k]} after changing {what}',
                  scale=sc)
        close(b.w, w, 1e-11, 0, f'w after changing {what}')
    # identical seeds give identical bunches
    b2 = ask(g, n)
    same(state(b2), s0, 'same seed')
    same(b2.w, ref.w, 'same seed')
    e = np.copy(s0)
    e[0] += h['xo'] - g['xo']
    cmp('x_off', e, xo=h['xo'], atol=np.full(6, abs(g['xo'])))
    e = np.copy(s0)
    e[1] += h['yo'] - g['yo']
    cmp('y_off', e, yo=h['yo'], atol=np.full(6, abs(g['yo'])))
    e = np.copy(s0)
    e[3] += (h['tx'] - g['tx']) * g['ene']
    cmp('theta_x', e, tx=h['tx'], atol=np.full(6, .01 * g['ene']))
    e = np.copy(s0)
    e[4] += (h['ty'] - g['ty']) * g['ene']
    cmp('theta_y', e, ty=h['ty'], atol=np.full(6, .01 * g['ene']))
    e = np.copy(s0)
    e[2] += h['xi'] - g['xi']
    cmp('xi_c', e, xi=h['xi'], atol=np.full(6, 1e-3))
    e = np.copy(s0)
    e[2] = g['xi'] + (e[2] - g['xi']) * f
    cmp('s_t', e, st=g['st'] * f, atol=np.full(6, 1e-3 * max(f, 1)))
    cmp('q_tot', s0, w=ref.w * f, q=g['q'] * f)
    close(np.sum(ref.w), g['q'] * 1e-12 / abs(SPECIES[g['species']][0]),
          1e-11, 0, 'number of real particles')
    # the energy spread changes energies, not slopes, the angle being that
    # at the reference energy
    b = ask(g, n, sp=h['sp'])
    s, en = state(b), g['ene']
    same(s[:3], s0[:3], 'positions after changing ene_sp')
    close((s[5] - en) * g['sp'], (s0[5] - en) * h['sp'], 1e-9,
          1e-11 * en, 'pz after changing ene_sp')
    for k, th, nm in ((3, g['tx'], 'x'), (4, g['ty'], 'y')):
        close((s[k] - th * en) * s0[5], (s0[k] - th * en) * s[5], 1e-9,
              1e-14 * (1 + abs(th)) * en**2, f"{nm}' after changing ene_sp")
    # default name, float number of particles
    b3 = ask(g, float(n), name=None)
    same(state(b3), s0, 'number of particles given as float')
    check(b3.name.startswith('elec_bunch_') and
          ask(g, n, name=None).name != b3.name, 'default name')
    if g['kind'] != 'matched':
        # emittance scales both size and divergence (twiss) or only the
        # divergence (size)
        e = np.copy(s0)
        r = np.sqrt(f) if g['kind'] == 'twiss' else 1.
        e[0] = g['xo'] + (e[0] - g['xo']) * r
        r = np.sqrt(f) if g['kind'] == 'twiss' else f
        e[3] = g['tx'] * g['ene'] + (e[3] - g['tx'] * g['ene']) * r
        cmp('en_x', e, ex=g['ex'] * f,
            atol=np.array([1e-3 * max(f, 1), 1, 1, .01 * g['ene'] * max(f, 1),
                           1, 1]))
    # optional arguments default to zero and to electrons
    from wake_t.utilities import bunch_generation as bg
    z = dict(g, xo=0., yo=0., tx=0., ty=0., species='electron', opt=True)
    if g['kind'] == 'twiss':
        np.random.seed(g['seed'])
        b4 = bg.get_gaussian_bunch_from_twiss(
            g['ex'], g['ey'], g['ax'], g['ay'], g['bx'], g['by'], g['ene'],
            g['sp'], g['st'], g['xi'], g['q'], n)
        same(state(b4), state(ask(z, n)), 'default offsets')
        check(b4.q_species == -ct.e and b4.m_species == ct.m_e, 'default '
              'species')
    elif g['kind'] == 'size':
        # the spot size is exactly the scale of x
        e = np.copy(s0)
        e[0] = g['xo'] + (e[0] - g['xo']) * f
        e[3] = g['tx'] * g['ene'] + (e[3] - g['tx'] * g['ene']) / f
        cmp('s_x', e, sx=g['sx'] * f,
            atol=np.array([1e-3 * max(f, 1), 1, 1,
                           .01 * g['ene'] * max(1 / f, 1), 1, 1]))
    # variants agree with the general generator
    if g['kind'] != 'twiss':
        (ax, bx), (ay, by) = twiss(g)
        t = dict(g, kind='twiss', ax=0., ay=0., bx=bx, by=by)
        b5 = ask(t, n)
        for k in range(6):
            close(state(b5)[k], s0[k], 1e-9, 0, g['kind'] + ' generator, ' +
                  'x y xi px py pz'.split()[k])
    ctx.label(g['kind'])
    ctx.nontrivial(n >= 5)
