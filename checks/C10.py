"""C10: coherent synchrotron radiation kicks."""
import numpy as np
import scipy.constants as ct
from hypothesis import strategies as st
from vp import lists, Registry, check, close, same, d, fl, logfl, seeds, rng
from refs import state, SPECIES
import tmref

R = Registry()

# --------------------------------------------------------------- reference
# 1D CSR: field of a line charge on the reference orbit (retarded fields, cf.
# M. Dohlus, "Two methods for the calculation of CSR fields"). The orbit
# before the first element is a straight line, here integrated numerically.


def orbit(elements, steps):
    """s, r (3), t (3) of the reference orbit, sampled as the settings say."""
    s, x, z, a = [0.], [0.], [0.], [0.]
    for (L, th), (ds_csr, ds_traj) in zip(elements, steps):
        n = int(np.ceil(L / ds_traj))
        l = np.linspace(L / n, L, n)
        s0, x0, z0, a0 = s[-1], x[-1], z[-1], a[-1]
        if th == 0:
            x += list(x0 + np.sin(a0) * l)
            z += list(z0 + np.cos(a0) * l)
            a += [a0] * n
        else:
            an = a0 + th / L * l
            x += list(x0 - L / th * (np.cos(an) - np.cos(a0)))
            z += list(z0 + L / th * (np.sin(an) - np.sin(a0)))
            a += list(an)
        s += list(s0 + l)
    s, x, z, a = map(np.array, (s, x, z, a))
    return s, np.array([x, z]), np.array([np.sin(a), np.cos(a)])


def integrand(s, n, t, ti, Rv, w, g):
    b = np.sqrt(1 - 1 / g**2)
    nt = np.sum(n * t, axis=0)
    nti = n[0] * ti[0] + n[1] * ti[1]
    tti = t[0] * ti[0] + t[1] * ti[1]
    return ((b * (nt - nti) - b**2 * (1 - tti) - 1 / g**2) / Rv
            - (1 - b * nt) / w / g**2)


def potential(i, s, r, t, wr, g):
    """KS(w): integral of the kernel from the source with slippage w."""
    b = np.sqrt(1 - 1 / g**2)
    ds = s[:i] - s[i]
    dr = r[:, [i]] - r[:, :i]
    Rv = np.sqrt(np.sum(dr**2, axis=0))
    # w = s + b R without cancellation: R = |s| - (|s| - R)
    w = ds + b * Rv
    f = integrand(ds, dr / Rv, t[:, :i], t[:, i], Rv, w, g)
    f = f.copy()
    f[:-1] = f[:-1] + f[1:]
    KS = np.cumsum((f * 0.5 * np.diff(ds, append=0.))[::-1])[::-1]
    if w[0] > wr[0]:
        # straight line before the start of the orbit
        a = np.geomspace(1e-7, 4 * g**2 * abs(wr[0]) + 10 * abs(ds[0]) + 1.,
                         6000)
        a = np.concatenate([[0.], a])[::-1]
        e = t[:, 0]
        rr = r[:, [0]] - e[:, None] * a
        dre = r[:, [i]] - rr
        Re = np.sqrt(np.sum(dre**2, axis=0))
        se = ds[0] - a
        # exact slippage: s + bR = -(s^2 - b^2 R^2)/(bR - s)
        we = se + b * Re
        fe = integrand(se, dre / Re, e[:, None] * np.ones_like(a), t[:, i],
                       Re, we, g)
        dse = np.diff(se)
        inc = 0.5 * (fe[1:] + fe[:-1]) * dse
        KSe = KS[0] + np.concatenate([np.cumsum(inc[::-1])[::-1], [0.]])
        w = np.concatenate([we[:-1], w])
        KS = np.concatenate([KSe[:-1], KS])
    return np.interp(wr, w, KS)


def csr_kick(z, q, qs, ms, g, kernels, ds_csr, nb):
    """Energy kick (in units of p0 c) of one step."""
    h, edges = np.histogram(z, nb, weights=np.abs(q))
    dz = edges[1] - edges[0]
    c = edges[:-1] + dz / 2
    # Gaussian kernel density estimate of the binned profile
    p = h / h.sum()
    mu = np.sum(p * c)
    var = np.sum(p * (c - mu)**2) / (1 - np.sum(p**2))
    sg = np.sqrt(var) * len(q)**(-0.2)
    dens = np.sum(p[None] * np.exp(-0.5 * ((c[:, None] - c[None]) / sg)**2),
                  axis=1) / np.sqrt(2 * np.pi) / sg
    lam = dens * dz * h.sum()
    wr = np.arange(-nb, 0) * dz
    KS = np.mean([k(wr) for k in kernels], axis=0)
    K1 = np.diff(np.diff(KS, append=0.), append=0.) / dz / (
        4 * np.pi * ct.epsilon_0)
    V = np.convolve(lam, K1[::-1]) / dz * ds_csr
    pos = (z - c[0]) / dz
    dE = np.interp(pos, np.arange(len(V)), V) * abs(qs)
    return dE / (np.sqrt(g**2 - 1) * ms * ct.c**2)


def element_steps(L, n_out, csr_step, traj_step):
    seg = L if n_out is None else L / n_out
    ds_csr = seg / np.ceil(seg / csr_step)
    if n_out is None and L % csr_step == 0:
        ds_csr = min(csr_step, L)
    return ds_csr, ds_csr / np.ceil(ds_csr / traj_step)


def reference(b, line, order, settings):
    """Final states after each element (laboratory frame)."""
    csr_step, traj_step, nb = settings
    s6, w = state(b), b.w
    th0 = x0 = 0.
    els, steps, out = [], [], []
    for e in line:
        els.append((e['L'], e['theta']))
        steps.append(element_steps(e['L'], e['n_out'], csr_step, traj_step))
        s, r, t = orbit(els, steps)
        ds_csr = steps[-1][0]
        n = int(round(e['L'] / ds_csr))
        g = e['g']
        m = tmref.to_map(tmref.unrotate(s6, th0, x0), g)
        R_, T_ = tmref.maps(ds_csr, -e['theta'] / e['L'], e['k1'], 0., g)
        base = sum(x[0] for x in els[:-1])
        for k in range(n):
            new = R_ @ m
            if order == 2:
                new = new + np.einsum('ijk,jn,kn->in', T_, m, m)
            m = new
            sc = base + (k + 1) * ds_csr
            i1 = np.argmin(np.abs(s - sc))
            i0 = np.argmin(np.abs(s - (sc - ds_csr)))
            ks = [lambda wr, i=i: potential(i, s, r, t, wr, g)
                  for i in range(i0 + 1, i1 + 1)]
            z = -m[4]
            m[5] = m[5] + csr_kick(z, w * b.q_species, b.q_species,
                                   b.m_species, g, ks, ds_csr, nb)
        th = th0 + e['theta']
        if e['theta']:
            x0 = x0 - e['L'] / e['theta'] * (np.cos(th) - np.cos(th0))
        else:
            x0 = x0 + e['L'] * np.sin(th0)
        th0 = th
        s6 = tmref.rotate(tmref.from_map(m, g), th0, x0)
        out.append(s6)
    return out


# -------------------------------------------------------------- generators

el = d(kind=st.sampled_from(['drift', 'dipole', 'quad']),
       L=fl(0.05, 0.5), theta=st.one_of(fl(0.03, 0.25), fl(-0.25, -0.03)),
       k1=fl(0.5, 3.), n_out=st.one_of(st.none(), st.integers(1, 3)))
beam = d(n=st.integers(60, 300), seed=seeds, sz=logfl(3e-6, 1e-4),
         Q=logfl(1e-12, 3e-10), g=logfl(200., 4e3),
         species=st.sampled_from(['electron', 'positron', 'muon', 'ion']),
         chirp=fl(-1, 1))


def make_beam(c, scale=1., flip=1.):
    from wake_t import ParticleBunch
    g = rng(c['seed'])
    q, m = SPECIES[c['species']]
    n = c['n']
    u = g.normal(size=n)
    pz = np.sqrt(c['g']**2 - 1) * (1 + 1e-3 * g.normal(size=n) +
                                   1e-3 * c['chirp'] * u)
    w = scale * c['Q'] / n / abs(q) * g.uniform(0.5, 1.5, n)
    return ParticleBunch(
        w=w, x=flip * 1e-5 * g.normal(size=n), y=1e-5 * g.normal(size=n),
        xi=c['sz'] * u, px=flip * 0.3 * g.normal(size=n),
        py=0.3 * g.normal(size=n), pz=pz, name='b', q_species=q, m_species=m)


def fill(line, g):
    out = []
    for e in line:
        e = dict(e)
        e['theta'] = e['theta'] if e['kind'] == 'dipole' else 0.
        e['k1'] = e['k1'] if e['kind'] == 'quad' else 0.
        e['g'] = g
        out.append(e)
    return out


def build(e, csr=True, flip=1., order=2, n_out='own'):
    from wake_t import Drift, Dipole, Quadrupole
    kw = dict(csr_on=csr, order=order, gamma_ref=e['g'],
              n_out=e['n_out'] if n_out == 'own' else n_out)
    if e['kind'] == 'drift':
        return Drift(e['L'], **kw)
    if e['kind'] == 'dipole':
        return Dipole(e['L'], flip * e['theta'], **kw)
    return Quadrupole(e['L'], e['k1'], **kw)


def start(settings):
    from wake_t.physics_models.collective_effects.csr import (
        reset_csr_calculator, set_csr_settings)
    reset_csr_calculator()
    set_csr_settings(*settings)


settings_st = st.tuples(fl(0.03, 0.2), fl(2e-3, 1e-2), st.integers(20, 120)
                        ).map(list)
setting = settings_st


def gam(s):
    return np.sqrt(1 + s[3]**2 + s[4]**2 + s[5]**2)


@R.part('reference', d(line=lists(el, min_size=1, max_size=3), beam=beam,
                       order=st.integers(1, 2), settings=setting),
        quick=380, thorough=3000, weight=3,
        rule='beamlines with CSR against an independent 1D CSR calculation: '
             'change of energy of every particle within 2% of the largest '
             'kick, and all other coordinates; non-trivial: a dipole present')
def vs_reference(c, ctx, points=0):
    line = fill(c['line'], c['beam']['g'])
    start(c['settings'])
    b = make_beam(c['beam'])
    g0 = gam(state(b))
    exp = reference(b, line, c['order'], c['settings'])
    off = make_beam(c['beam'])
    for i, e in enumerate(line):
        outs = build(e, order=c['order']).track(b, show_progress_bar=False)
        check(len(outs) == (e['n_out'] or 0), '{} outputs for n_out={}',
              len(outs), e['n_out'])
        for j, o in enumerate(outs):
            close(o.prop_distance, sum(x['L'] for x in line[:i]) + e['L'] *
                  (j + 1) / e['n_out'], 1e-9, 0, 'position of output')
        if outs:
            same(state(outs[-1]), state(b), 'last output vs live bunch')
        got, ref = state(b), exp[i]
        what = f'after element {i} of {[x["kind"] for x in line]}'
        kick = gam(ref) - g0
        err = np.abs(gam(got) - gam(ref)).max()
        lim = 0.02 * np.abs(kick).max() + 1e-9 * c['beam']['g']
        check(err <= lim, 'energy change {}: error {:.4e} > {:.4e} (largest '
              'kick {:.4e})', what, err, lim, np.abs(kick).max())
        # positions feel the kicks only through dispersion
        for k, nm in enumerate(('x', 'y', 'xi')):
            close(got[k], ref[k], 1e-5, 3e-2 * np.abs(
                kick).max() / c['beam']['g'] + 1e-12, f'{nm} {what}')
    del off
    ctx.nontrivial(any(e['theta'] for e in line) and sum(
        e['L'] for e in line) / c['settings'][1] >= points)
    ctx.label('+'.join(e['kind'] for e in line), c['beam']['species'])


# more than a thousand points of the orbit: the code skips the irrelevant part
long_el = d(kind=st.sampled_from(['drift', 'dipole', 'dipole']),
            L=fl(0.3, 0.5), theta=st.one_of(fl(0.1, 0.3), fl(-0.3, -0.1)),
            k1=fl(0.5, 3.), n_out=st.one_of(st.none(), st.integers(1, 2)))


@R.part('fine', d(line=lists(long_el, min_size=2, max_size=3), beam=beam,
                  order=st.integers(1, 2), settings=st.tuples(
                      fl(0.05, 0.2), fl(3e-4, 8e-4), st.integers(20, 120)
                      ).map(list)),
        quick=12, thorough=150, weight=2,
        rule='as reference, with a finely sampled orbit; non-trivial: a '
             'dipole present and more than 1000 points')
def fine(c, ctx):
    vs_reference(c, ctx, 1000)


@R.part('relations', d(line=lists(el, min_size=1, max_size=3), beam=beam,
                       before=lists(el, min_size=0, max_size=2), off=el,
                       settings=setting, f=fl(0.2, 0.9)),
        quick=120, thorough=3000, weight=2,
        rule='CSR kick: proportional to the charge, independent of bending '
             'direction, of earlier calculations (after reset or an element '
             'without CSR) and of reusing element objects; changes only the '
             'energy in each step; sign: mean energy loss in a dipole; '
             'non-trivial: a dipole present')
def relations(c, ctx):
    line = fill(c['line'], c['beam']['g'])
    g = c['beam']['g']

    def run(els, b, reset=True):
        if reset:
            start(c['settings'])
        for e in els:
            e.track(b, show_progress_bar=False)
        return state(b)
    base = run([build(e) for e in line], make_beam(c['beam']))
    plain = run([build(e, csr=False, n_out=None) for e in line],
                make_beam(c['beam']))
    kick = gam(base) - gam(plain)
    big = np.abs(kick).max()
    # bending to the other side mirrors the motion
    m = run([build(e, flip=-1) for e in line], make_beam(c['beam'], flip=-1))
    close(gam(m), gam(base), 0, 1e-6 * big + 1e-9 * g,
          'energy with opposite bending')
    close(m[0], -base[0], 1e-7, 1e-12, 'x with opposite bending')
    close(m[2], base[2], 1e-7, 1e-12, 'xi with opposite bending')
    # history
    start(c['settings'])
    other = make_beam(dict(c['beam'], seed=c['beam']['seed'] // 2))
    for e in fill(c['before'], g):
        build(e).track(other, show_progress_bar=False)
    for e in fill([c['off']], g):                          # CSR off: resets
        build(e, csr=False, n_out=None).track(other, show_progress_bar=False)
    h = run([build(e) for e in line], make_beam(c['beam']), reset=False)
    same(h, base, 'result after an earlier calculation and an element '
         'without CSR')
    for e in fill(c['before'], g):
        build(e).track(other, show_progress_bar=False)
    h = run([build(e) for e in line], make_beam(c['beam']))
    same(h, base, 'result after an earlier calculation and a reset')
    # one object used twice vs two equal objects
    e = line[0]
    one = build(e)
    a1 = run([one, one], make_beam(c['beam']))
    a2 = run([build(e), build(e)], make_beam(c['beam']))
    same(a1, a2, 'same element object used twice')
    # a single step: proportional to charge, changes only the energy
    e1 = dict(line[0], n_out=None, L=c['settings'][0] * 0.9)
    e1['theta'] = e1['theta'] * e1['L'] / line[0]['L']
    s = []
    for f in (0., c['f'], 1.):
        b = make_beam(c['beam'], scale=f if f else 1e-12)
        s.append(run([build(e1)], b))
    d1, d2 = gam(s[1]) - gam(s[0]), gam(s[2]) - gam(s[0])
    close(d1, c['f'] * d2, 0, 1e-4 * np.abs(d2).max() + 1e-10 * g,
          'energy kick for a fraction of the charge')
    if abs(e1['theta']) == 0:
        same(s[2][0], s[0][0], 'x changed by a CSR kick')
        same(s[2][2], s[0][2], 'xi changed by a CSR kick')
        close(s[2][3], s[0][3], 0, 1e-12 * g, 'px changed by a CSR kick')
    same(s[2][1], s[0][1], 'y changed by a CSR kick')
    close(s[2][4], s[0][4], 0, 1e-12 * g, 'py changed by a CSR kick')
    ctx.nontrivial(any(x['theta'] for x in line))
    ctx.label(c['beam']['species'])


@R.part('dipole', d(phi=fl(0.05, 0.3), rho=fl(1., 10.), sz=logfl(1e-5, 1e-4),
                    Q=logfl(1e-12, 1e-10), g=logfl(1500., 6000.),
                    species=st.sampled_from(['electron', 'positron'])),
        quick=80, thorough=400, weight=2,
        rule='Gaussian bunch in one dipole entered on a straight path: energy '
             'change along the bunch equals the analytical ultrarelativistic '
             'result with entrance transient (Saldin et al. 1997) within 6% '
             'of its peak; particles lose energy on average; non-trivial: '
             'all')
def dipole(c, ctx):
    from wake_t import ParticleBunch, Dipole
    from scipy.special import ndtri
    n = 1500
    L = c['phi'] * c['rho']
    q, m = SPECIES[c['species']]
    start([L / 20, L / 200, 160])
    u = ndtri((np.arange(n) + 0.5) / n)
    w = np.full(n, c['Q'] / n / ct.e)
    o = np.zeros(n)
    b = ParticleBunch(w, x=o.copy(), y=o.copy(), xi=c['sz'] * u, px=o.copy(),
                      py=o.copy(), pz=np.full(n, np.sqrt(c['g']**2 - 1)),
                      name='b', q_species=q, m_species=m)
    # freeze the profile: tiny charge, rescaled
    f = 1e-6
    b.w = w * f
    Dipole(L, c['phi'], gamma_ref=c['g'], csr_on=True, order=1).track(
        b, show_progress_bar=False)
    got = (gam(state(b)) - c['g']) / f * m * ct.c**2
    sg = c['sz'] * np.std(u) * np.sqrt(1 + n**-0.4)
    lam = lambda x: np.exp(-0.5 * (x / sg)**2) / np.sqrt(2 * np.pi) / sg
    dlam = lambda x: -x / sg**2 * lam(x)
    # Saldin: average over the magnet (head at larger s)
    s = np.linspace(-4, 4, 81) * sg
    tot = np.zeros_like(s)
    ph = (np.arange(60) + 0.5) / 60 * c['phi']
    pre = -2 * c['Q'] * ct.e / (4 * np.pi * ct.epsilon_0) / (
        3 * c['rho']**2)**(1 / 3)
    for p in ph:
        sl = c['rho'] * p**3 / 24
        # integral of dlam(s - y) y^(-1/3), substitute y = v^(3/2)
        v = (np.arange(800) + 0.5) / 800 * min(sl, 9 * sg + 8 * sg)**(2 / 3)
        dv = v[1] - v[0]
        integ = 1.5 * dv * np.sum(dlam(s[:, None] - v[None]**1.5), axis=1)
        tot += pre * ((lam(s - sl) - lam(s - 4 * sl)) / sl**(1 / 3) + integ)
    tot *= L / len(ph)
    ref = np.interp(c['sz'] * u, s, tot)
    core = np.abs(u) < 2.
    lim = 0.06 * np.abs(tot).max()
    err = np.abs(got - ref)[core].max()
    check(err <= lim, 'CSR energy change along the bunch: error {:.3e} J, '
          'limit {:.3e} J (mean {:.3e}, expected {:.3e})', err, lim,
          got[core].mean(), ref[core].mean())
    check(got.mean() < 0, 'the bunch gains energy by radiating')
    ctx.nontrivial()
    ctx.label(c['species'])
