"""C06: deposition of macroparticles on the r-z grid."""
import numpy as np
from hypothesis import strategies as st
from vp import lists, Registry, check, close, d, fl, logfl, raises, seeds, rng

R = Registry()

grid = d(nz=st.integers(4, 14), nr=st.integers(4, 12), dz=logfl(1e-8, 1e-4),
         dr=logfl(1e-8, 1e-4), z0=fl(-50, 50))
# Positions in cell units; special values sit on nodes, boundaries, the axis.
frac = st.one_of(fl(0, 1), st.sampled_from([0., 0.5, 1., 0.25, 1e-9]))
part = d(iz=st.integers(0, 13), fz=frac, ir=st.integers(0, 12), fr=frac,
         phi=st.one_of(fl(0, 6.3), st.sampled_from([0., np.pi])),
         w=st.one_of(fl(-3, 3), st.just(1.)),
         out=st.sampled_from(['in'] * 12 + ['left', 'right', 'up']))


def spline(u, deg):
    """Centred B-spline of given degree."""
    a = np.abs(u)
    if deg == 1:
        return np.where(a < 1, 1 - a, 0.)
    return np.where(a < 1, 2/3 - a**2 + a**3/2,
                    np.where(a < 2, (2 - a)**3 / 6, 0.))


def weights(c, n, deg, ruyten):
    """Weights on the n nodes of a particle at cell coordinate c."""
    if deg == 1:
        w = np.zeros(n)
        if c <= 0:
            w[0] = 1
        elif c >= n - 1:
            w[-1] = 1
        else:
            w = spline(np.arange(n) - c, 1)
            if ruyten:
                k = int(np.ceil(c))      # between nodes k-1 and k
                u = c - (k - 1)
                rc = -0.25 / k
                w[k-1] += rc * (1 - u) * u
                w[k] -= rc * (1 - u) * u
        return w
    ext = np.arange(-2, n + 2)
    w = spline(ext - c, 3)
    if ruyten:
        k = int(np.ceil(c))
        if k >= 1:
            u = c - (k - 1)
            k_ = min(k, n)
            rc = -0.75 / k_ if k_ > 1 else -239. * 6 / (15 * 2**7)
            w[k - 1 + 2] += rc * (1 - u) * u
            w[k + 2] -= rc * (1 - u) * u
    out = w[2:-2].copy()
    out[0] += w[1]
    out[1] += w[0]
    out[-1] += w[-2]
    out[-2] += w[-1]
    return out


def build(c):
    g = c['grid']
    nz, nr, dz, dr = g['nz'], g['nr'], g['dz'], g['dr']
    z_min = g['z0'] * dz
    Z, Rr, W, phi, inside = [], [], [], [], []
    for p in c['parts']:
        cz = min(p['iz'] + p['fz'], nz - 1)
        rr = min(p['ir'] + p['fr'], nr)
        cin = True
        if p['out'] == 'left':
            cz, cin = -0.01 - p['fz'], False
        elif p['out'] == 'right':
            cz, cin = nz - 0.99 + p['fz'], False
        elif p['out'] == 'up':
            rr, cin = nr + 0.01 + p['fr'], False
        Z.append(cz)
        Rr.append(rr)
        W.append(p['w'])
        phi.append(p['phi'])
        inside.append(cin)
    Z, Rr, W, phi = map(np.array, (Z, Rr, W, phi))
    return nz, nr, dz, dr, z_min, Z, Rr, W, phi, np.array(inside)


@R.part('shape', d(grid=grid, parts=lists(part, min_size=1, max_size=6),
                   shape=st.sampled_from(['linear', 'cubic']),
                   ruyten=st.booleans(), start=st.booleans()),
        quick=6910, thorough=60000,
        rule='1-6 particles on nodes, boundaries, the axis, inside cells or '
             'outside; grid compared with B-spline weights computed '
             'independently, and total weight; non-trivial: a particle '
             'within one cell of a boundary or on a node')
def shape(c, ctx):
    from wake_t.particles.deposition import deposit_3d_distribution
    nz, nr, dz, dr, z_min, Z, Rr, W, phi, inside = build(c)
    z = z_min + Z * dz
    r = Rr * dr
    x, y = r * np.cos(phi), r * np.sin(phi)
    # Positions nominally on the boundary may round to either side.
    z_max = z_min + (nz - 1) * dz
    z = np.where(inside, np.clip(z, z_min, z_max), z)
    rr = np.sqrt(x**2 + y**2)
    edge = inside & (np.abs(rr / dr - nr) < 1e-12)
    x = np.where(edge, x * (1 - 1e-9), x)
    y = np.where(edge, y * (1 - 1e-9), y)
    rr = np.sqrt(x**2 + y**2)
    init = 0.37 if c['start'] else 0.
    arr = np.full((nz + 4, nr + 4), init)
    deg = 1 if c['shape'] == 'linear' else 3
    deposit_3d_distribution(z, x, y, W, z_min, dr / 2, nz, nr, dz, dr, arr,
                            p_shape=c['shape'], use_ruyten=c['ruyten'])
    arr = arr - init
    exp = np.zeros((nz, nr))
    for i in range(len(W)):
        if inside[i]:
            cz = (z[i] - z_min) / dz
            cr = (rr[i] - dr / 2) / dr
            exp += W[i] * np.outer(weights(cz, nz, deg, False),
                                   weights(cr, nr, deg, c['ruyten']))
    s = np.sum(np.abs(W)) + init
    close(arr[2:-2, 2:-2], exp, 1e-6 if deg == 1 else 1e-6, 1e-12,
          f'{c["shape"]} deposition', scale=s * 1e-2)
    close(arr.sum(), W[inside].sum(), 0, 1e-10 * s * (nz * nr if init else 1),
          'total deposited weight')
    ctx.label(c['shape'], 'ruyten' if c['ruyten'] else 'plain',
              'outside' if not inside.all() else 'all inside')
    near = [(i and (min(a, nz - 1 - a) < 1 or b < 1.5 or b > nr - 1.5 or
                    a == int(a))) for a, b, i in zip(Z, Rr, inside)]
    ctx.nontrivial(any(near))


@R.part('additive', d(grid=grid, parts=lists(part, min_size=2, max_size=8),
                      shape=st.sampled_from(['linear', 'cubic']),
                      ruyten=st.booleans(), perm=seeds, cut=st.integers(1, 7),
                      scale=fl(-3, 3)),
        quick=2100, thorough=20000,
        rule='deposit all at once / in two calls / permuted / rotated / with '
             'scaled weights; non-trivial: >=2 particles inside')
def additive(c, ctx):
    from wake_t.particles.deposition import deposit_3d_distribution
    nz, nr, dz, dr, z_min, Z, Rr, W, phi, inside = build(c)
    Z = np.where(inside, np.clip(Z, 1e-6, nz - 1 - 1e-6), Z)
    Rr = np.where(inside, np.clip(Rr, 0, nr - 1e-6), Rr)
    z, r = z_min + Z * dz, Rr * dr
    x, y = r * np.cos(phi), r * np.sin(phi)

    def dep(z, x, y, w, a=None):
        a = np.zeros((nz + 4, nr + 4)) if a is None else a
        zz, xx, yy, ww = (np.array(v) for v in (z, x, y, w))
        deposit_3d_distribution(zz, xx, yy, ww, z_min, dr / 2, nz, nr, dz, dr,
                                a, p_shape=c['shape'],
                                use_ruyten=c['ruyten'])
        for v, v0, n in ((zz, z, 'z'), (xx, x, 'x'), (yy, y, 'y'),
                         (ww, w, 'w')):
            check(np.array_equal(v, v0), f'deposition modified {n}')
        return a
    ref = dep(z, x, y, W)
    s = np.sum(np.abs(W))
    k = min(c['cut'], len(W) - 1)
    two = dep(z[k:], x[k:], y[k:], W[k:], dep(z[:k], x[:k], y[:k], W[:k]))
    close(two, ref, 0, 1e-13 * s, 'deposition in two calls')
    pm = rng(c['perm']).permutation(len(W))
    close(dep(z[pm], x[pm], y[pm], W[pm]), ref, 0, 1e-13 * s, 'permuted')
    a = 0.7
    close(dep(z, x*np.cos(a) - y*np.sin(a), x*np.sin(a) + y*np.cos(a), W),
          ref, 0, 1e-8 * s, 'rotated about the axis')
    close(dep(z, x, y, W * c['scale']), ref * c['scale'], 0, 1e-13 * s * 3,
          'scaled weights')
    half = dep(np.repeat(z, 2), np.repeat(x, 2), np.repeat(y, 2),
               np.repeat(W, 2) / 2)
    close(half, ref, 0, 1e-13 * s, 'particles split in halves')
    ctx.nontrivial(inside.sum() >= 2)
    ctx.label(c['shape'])


@R.part('many', d(grid=grid, n=st.integers(1, 12000), seed=seeds,
                  shape=st.sampled_from(['linear', 'cubic']),
                  ruyten=st.booleans(), chunk=st.integers(50, 400)),
        quick=60, thorough=1500,
        rule='up to thousands of particles, some outside, deposited at once '
             'and in small groups; non-trivial: more than one group')
def many(c, ctx):
    from wake_t.particles.deposition import deposit_3d_distribution
    gr, n, g = c['grid'], c['n'], rng(c['seed'])
    nz, nr, dz, dr = gr['nz'], gr['nr'], gr['dz'], gr['dr']
    z_min = gr['z0'] * dz
    Z = g.uniform(-.5, nz - .5, n)
    r = g.uniform(0, nr + .5, n)
    W = g.uniform(-1, 3, n)
    edge = (np.abs(Z) < 1e-6) | (np.abs(Z - nz + 1) < 1e-6) | (
        np.abs(r - nr) < 1e-6)
    W[edge] = 0.
    ph = g.uniform(0, 6.3, n)
    p = (z_min + Z * dz, r * dr * np.cos(ph), r * dr * np.sin(ph), W)

    def dep(a, *p):
        deposit_3d_distribution(*p, z_min, dr / 2, nz, nr, dz, dr, a,
                                p_shape=c['shape'], use_ruyten=c['ruyten'])
    one, two = np.zeros((2, nz + 4, nr + 4))
    dep(one, *p)
    for k in range(0, n, c['chunk']):
        a = np.zeros_like(two)
        dep(a, *(v[k:k + c['chunk']].copy() for v in p))
        two += a
    s = np.sum(np.abs(W))
    close(one, two, 0, 1e-12 * s, f'{n} particles at once and in groups')
    ok = (Z > 0) & (Z < nz - 1) & (r < nr)
    close(one.sum(), W[ok].sum(), 0, 1e-11 * s, 'total deposited weight')
    ctx.nontrivial(n > c['chunk'])
    ctx.label(c['shape'])


@R.part('uniform', d(nz=st.integers(5, 8), nr=st.integers(6, 20),
                     dr=logfl(1e-7, 1e-5), zc=fl(1.5, 3.0), ppc=st.integers(20, 60),
                     shape=st.sampled_from(['linear', 'cubic'])),
        quick=750, thorough=3000,
        rule='a radially uniform density of many particles per cell must '
             'deposit as a uniform density with the corrected shapes; every '
             'case non-trivial')
def uniform(c, ctx):
    from wake_t.particles.deposition import deposit_3d_distribution
    nz, nr, dr = c['nz'], c['nr'], c['dr']
    r = (np.arange(nr * c['ppc']) + 0.5) / c['ppc'] * dr
    w = r / dr
    w /= c['ppc']
    z = np.full_like(r, c['zc'] * dr)
    arr = np.zeros((nz + 4, nr + 4))
    deposit_3d_distribution(z, r, 0 * r, w, 0., dr / 2, nz, nr, dr, dr, arr,
                            p_shape=c['shape'], use_ruyten=True)
    dens = arr[2:-2, 2:-2].sum(axis=0) / (np.arange(nr) + 0.5)
    n = nr - 2 if c['shape'] == 'cubic' else nr - 1
    close(dens[:n], np.ones(n), 0, 3. / c['ppc']**2 + 1e-3,
          'deposited uniform density')
    ctx.nontrivial()
    ctx.label(c['shape'])


@R.part('reject', d(name=st.text(max_size=8)), quick=60, thorough=500,
        rule='unknown shape names; all non-trivial')
def reject(c, ctx):
    from wake_t.particles.deposition import deposit_3d_distribution
    if c['name'] in ('linear', 'cubic'):
        return
    a = np.zeros(3)
    arr = np.zeros((9, 9))
    raises(ValueError, lambda: deposit_3d_distribution(
        a, a, a, a, 0., 0.5, 5, 5, 1., 1., arr, p_shape=c['name']),
        'unknown particle shape')
    check(not arr.any(), 'rejected deposition changed the array')
    ctx.nontrivial()
