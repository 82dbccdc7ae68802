"""C07: interpolation of gridded fields to particles."""
import numpy as np
import scipy.constants as ct
from hypothesis import strategies as st
from vp import lists, sizes, Registry, check, close, d, fl, logfl, seeds, rng

R = Registry()

pos = d(cz=st.one_of(fl(-1, 12), st.integers(0, 11).map(float)),
        cr=st.one_of(fl(0, 10), st.integers(0, 10).map(lambda i: i + 0.5),
                     st.sampled_from([0., 1e-12, 0.25, 0.5])),
        phi=st.one_of(fl(0, 6.3), st.sampled_from([0., np.pi/2, np.pi])))


def make_field(nz, nr, xi_min, dxi, dr, vals):
    """A wakefield whose r-z maps are given."""
    from wake_t.fields.rz_wakefield import RZWakefield

    class Map(RZWakefield):
        def _calculate_wakefield(self, bunches):
            self.e_r[2:-2, 2:-2] = vals[0]
            self.e_z[2:-2, 2:-2] = vals[1]
            self.b_t[2:-2, 2:-2] = vals[2]
    f = Map(density_function=lambda z: 1e23, r_max=nr * dr, xi_min=xi_min,
            xi_max=xi_min + (nz - 1) * dxi, n_r=nr, n_xi=nz)
    f.update([])
    return f


def gather(f, x, y, z, t=0., init=None):
    out = [np.zeros_like(x) if init is None else init[i].copy()
           for i in range(6)]
    f.gather(x, y, z, t, *out)
    return np.array(out)


def ref(vals, cz, r_cell, phi):
    """Bilinear with odd (Er, Bt) / even (Ez) continuation over the axis."""
    er, ez, bt = vals
    nz = er.shape[0]
    pad = [np.concatenate([s * v[:, :1], v], axis=1)
           for v, s in ((er, -1), (ez, 1), (bt, -1))]
    res = []
    for v in pad:
        iz = np.clip(np.floor(cz).astype(int), 0, nz - 2)
        c = r_cell + 0.5       # node j of pad sits at (j - 0.5) dr
        ir = np.clip(np.floor(c).astype(int), 0, v.shape[1] - 2)
        a, b = cz - iz, c - ir
        res.append((1-a)*(1-b)*v[iz, ir] + a*(1-b)*v[iz+1, ir] +
                   (1-a)*b*v[iz, ir+1] + a*b*v[iz+1, ir+1])
    er, ez, bt = res
    return np.array([er*np.cos(phi), er*np.sin(phi), ez,
                     -bt*np.sin(phi), bt*np.cos(phi), 0*er])


@R.part('bilinear', d(
    nz=st.integers(2, 12), nr=st.integers(2, 10), dxi=logfl(1e-8, 1e-5),
    dr=logfl(1e-8, 1e-5), xi0=fl(-50, 50), data=seeds,
    pts=lists(pos, min_size=1, max_size=12), t=fl(0, 1e-9),
    acc=st.booleans(), more=sizes(0, 0, 6000, 20)),
    quick=4500, thorough=40000,
    rule='random maps and positions (nodes, cell interiors, axis, edges, '
         'outside), compared with an independent bilinear formula; '
         'non-trivial: at least one position inside and off axis')
def bilinear(c, ctx):
    nz, nr, dxi, dr = c['nz'], c['nr'], c['dxi'], c['dr']
    g = rng(c['data'])
    vals = [g.normal(size=(nz, nr)) * 1e9, g.normal(size=(nz, nr)) * 1e9,
            g.normal(size=(nz, nr)) * 3]
    f = make_field(nz, nr, c['xi0'] * dxi, dxi, dr, vals)
    cz = np.array([p['cz'] for p in c['pts']])
    cr = np.array([p['cr'] for p in c['pts']])
    phi = np.array([p['phi'] for p in c['pts']])
    if c['more']:
        e = g.uniform(size=(3, c['more']))
        cz = np.concatenate([13 * e[0] - 1, cz])
        cr = np.concatenate([10 * e[1], cr])
        phi = np.concatenate([6.3 * e[2], phi])
    x, y = cr * dr * np.cos(phi), cr * dr * np.sin(phi)
    xi_f = np.linspace(c['xi0'] * dxi, (c['xi0'] + nz - 1) * dxi, nz)
    z = c['xi0'] * dxi + cz * dxi
    inside = (cz > 0) & (cz < nz - 1) & (cr < nr - 0.5)
    sure_out = (cz < -1e-9) | (cz > nz - 1 + 1e-9) | (cr > nr + 1e-9)
    init = g.normal(size=(6, len(x))) if c['acc'] else None
    got = gather(f, x, y, z, c['t'], init)
    if init is not None:
        out0 = init
        got = got - init
        base = 1e-6
    else:
        base = 0.
    check(np.all(np.isfinite(got)), 'non-finite gathered field')
    exp = ref(vals, cz, cr, phi)
    exp[:2, cr == 0] = 0
    exp[3:5, cr == 0] = 0
    sc = [1e9, 1e9, 1e9, 3., 3., 1.]
    for k, n in enumerate(('Ex', 'Ey', 'Ez', 'Bx', 'By', 'Bz')):
        ok = inside & (cr > 1e-9) if k in (0, 1, 3, 4) else inside
        close(got[k][ok], exp[k][ok], 0, 1e-5 * sc[k] + base,
              f'{n} inside the map')
        close(got[k][sure_out], 0 * got[k][sure_out], 0, base and 1e-12,
              f'{n} outside the map')
        if k in (0, 1, 3, 4):
            on = inside & (cr <= 1e-9)
            close(got[k][on], 0 * got[k][on], 0, 1e-5 * sc[k] + base,
                  f'{n} on axis')
    # exact node values, the first and the last nodes included
    zi = np.asarray(f.xi_fld)
    rr = np.asarray(f.r_fld)
    close(zi, xi_f, 0, 1e-9 * dxi, 'longitudinal nodes')
    close(rr, (np.arange(nr) + 0.5) * dr, 0, 1e-9 * dr, 'radial nodes')
    Z, RR = np.meshgrid(zi, rr, indexing='ij')
    o = gather(f, RR.ravel(), 0 * RR.ravel(), Z.ravel())
    for k, v, n, s in ((2, vals[1], 'Ez', 1e9), (0, vals[0], 'Er', 1e9),
                       (4, vals[2], 'Bt', 3.)):
        close(o[k].reshape(Z.shape), v, 0, 1e-4 * s, n + ' at the nodes')
    ctx.label('has outside' if sure_out.any() else 'all inside',
              'axis' if (cr == 0).any() else 'off axis')
    ctx.nontrivial(np.any(inside & (cr > 0)))


@R.part('continuous', d(
    nz=st.integers(3, 10), nr=st.integers(3, 10), data=seeds,
    cz=fl(0.01, 8.9), cr=fl(0., 9.), phi=fl(0, 6.3), dphi=fl(0, 6.3)),
    quick=2400, thorough=20000,
    rule='rotation by any angle rotates the field; a tiny displacement '
         'changes it only a little, also across cells and the axis; all '
         'non-trivial')
def continuous(c, ctx):
    nz, nr = c['nz'], c['nr']
    dxi, dr = 1e-6, 5e-7
    g = rng(c['data'])
    vals = [g.normal(size=(nz, nr)) for _ in range(3)]
    f = make_field(nz, nr, 0., dxi, dr, vals)
    cz = min(c['cz'], nz - 1.01)
    cr = min(c['cr'], nr - 0.51)
    near_nodes = [(cz, cr), (round(cz), cr), (cz, round(cr - 0.5) + 0.5),
                  (cz, 0.)]
    eps = 1e-7
    for a, b in near_nodes:
        if not (0.001 < a < nz - 1.001 and b < nr - 0.501):
            continue
        p = np.array([[a - eps, b], [a + eps, b], [a, abs(b - eps)],
                      [a, b + eps]])
        ph = c['phi'] + np.array([0, 0, np.pi if b < eps else 0, 0])
        o = gather(f, p[:, 1] * dr * np.cos(ph), p[:, 1] * dr * np.sin(ph),
                   p[:, 0] * dxi)
        check(np.max(np.abs(o[:, 0] - o[:, 1])) < 1e-4, 'jump along z')
        check(np.max(np.abs(o[:, 2] - o[:, 3])) < 1e-4, 'jump along r')
    o1 = gather(f, np.array([cr * dr * np.cos(c['phi'])]),
                np.array([cr * dr * np.sin(c['phi'])]), np.array([cz * dxi]))
    p2 = c['phi'] + c['dphi']
    o2 = gather(f, np.array([cr * dr * np.cos(p2)]),
                np.array([cr * dr * np.sin(p2)]), np.array([cz * dxi]))
    co, si = np.cos(c['dphi']), np.sin(c['dphi'])
    for k in (0, 3):
        close(o2[k], co * o1[k] - si * o1[k+1], 0, 1e-7, 'rotated field x')
        close(o2[k+1], si * o1[k] + co * o1[k+1], 0, 1e-7, 'rotated field y')
    close(o2[2], o1[2], 0, 1e-7, 'Ez after rotation')
    ctx.nontrivial()
