"""C11: laser profiles have the requested physical parameters."""
import numpy as np
import scipy.constants as ct
from scipy.special import eval_laguerre, comb
from hypothesis import strategies as st
from vp import lists, Registry, check, close, same, raises, d, fl, logfl, seeds, rng

R = Registry()
case_p = d(kind=st.sampled_from(['gauss', 'lg', 'flat']),
           xi_c=fl(-5e-5, 5e-5), a0=logfl(1e-3, 10.), w0=logfl(2e-6, 1e-4),
           tau=logfl(3e-15, 2e-13), zf=fl(-8., 8.), cep=fl(-7., 7.),
           l0=st.sampled_from([None, 0.4e-6, 1e-6, 1.3e-6, 10e-6]),
           p=st.integers(0, 6), pol=st.sampled_from(['linear', 'circular']))


def l0_of(c):
    return c['l0'] or 0.8e-6


def zr_of(c):
    """Rayleigh length of the modes."""
    w = c['w0'] * (np.sqrt(c['p'] + 1) if c['kind'] == 'flat' else 1.)
    return np.pi * w**2 / l0_of(c)


def zf_of(c):
    return c['zf'] * np.pi * c['w0']**2 / l0_of(c)


def make(c, **over):
    from wake_t import (GaussianPulse, LaguerreGaussPulse,
                        FlattenedGaussianPulse)
    kw = dict(xi_c=c['xi_c'], a_0=c['a0'], w_0=c['w0'], tau=c['tau'],
              z_foc=zf_of(c), cep_phase=c['cep'], polarization=c['pol'])
    if c['l0'] is not None:
        kw['l_0'] = c['l0']
    kw.update(over)
    if c['kind'] == 'gauss':
        return GaussianPulse(**kw)
    if c['kind'] == 'lg':
        return LaguerreGaussPulse(p=c['p'], **kw)
    if c['p'] == 6:                       # default flatness
        return FlattenedGaussianPulse(**kw)
    return FlattenedGaussianPulse(N=c['p'], **kw)


def mode(p, w0, l0, r, z):
    """Paraxial Laguerre-Gauss mode of unit amplitude at its focus, z from
    focus, in real form (waist, curvature and Gouy phase)."""
    zr = np.pi * w0**2 / l0
    w = w0 * np.sqrt(1 + (z / zr)**2)
    inv_R = z / (z**2 + zr**2)
    gouy = np.arctan2(z, zr)
    ph = np.pi / l0 * r**2 * inv_R - (2 * p + 1) * gouy
    return (w0 / w * np.exp(-(r / w)**2) * eval_laguerre(p, 2 * (r / w)**2) *
            (np.cos(ph) + 1j * np.sin(ph)))


def ref(c, xi, r, z_pos):
    z = xi - c['xi_c'] + z_pos - zf_of(c)
    # intensity exp(-4 ln2 t^2/tau^2)
    lon = 2.**(-2. * ((xi - c['xi_c']) / (ct.c * c['tau']))**2)
    if c['kind'] == 'flat':
        N = c['p']
        wf = c['w0'] * np.sqrt(N + 1)
        tr = 0
        for n in range(N + 1):
            cn = sum(comb(m, n) / 2.**m for m in range(n, N + 1)) / (N + 1)
            tr = tr + cn * mode(n, wf, l0_of(c), r, z)
    else:
        tr = mode(c['p'] if c['kind'] == 'lg' else 0, c['w0'], l0_of(c), r, z)
    return c['a0'] * lon * tr * (np.cos(c['cep']) - 1j * np.sin(c['cep']))


def points(c, seed, n=40):
    g = rng(seed)
    xi = c['xi_c'] + ct.c * c['tau'] * g.uniform(-2, 2, n)
    xi[:3] = c['xi_c']
    z_pos = zr_of(c) * g.uniform(-5, 5) + g.randint(2) * zf_of(c)
    w = c['w0'] * 4 * np.sqrt(1 + ((z_pos - zf_of(c)) / zr_of(c))**2)
    r = w * g.uniform(0, 1, n)
    r[0] = 0.
    return xi, r, float(z_pos)


@R.part('profile', d(c=case_p, seed=seeds), quick=4500, thorough=60000,
        rule='profile evaluated away from focus')
def profile(c, ctx):
    s = c['c']
    las = make(s)
    ctx.label(s['kind'], s['pol'])
    xi, r, zp = points(s, c['seed'])
    ctx.nontrivial(True)
    got = las.envelope_function(xi, r, zp)
    # the phases are up to |z|/zr and k xi^2/... : conditioning of the phase
    close(got, ref(s, xi, r, zp), 1e-8, 0, 'envelope', scale=s['a0'])
    got2 = las.envelope_function(xi[:, None] + 0 * r, r + 0 * xi[:, None], zp)
    close(np.diag(got2), got, 1e-12, 0, 'envelope on a 2D grid')
    # at focus the centre has the requested amplitude and phase
    peak = las.envelope_function(np.array([s['xi_c']]), np.zeros(1), zf_of(s))
    close(peak, [s['a0'] * np.exp(-1j * s['cep'])], 1e-9, 0,
          'peak amplitude at focus')
    check(las.l_0 == l0_of(s), 'wavelength {}', las.l_0)
    check(las.polarization == s['pol'], 'polarization {}', las.polarization)


@R.part('physics', d(c=case_p, seed=seeds), quick=1500, thorough=15000,
        rule='power compared at a plane away from focus')
def physics(c, ctx):
    """Measured quantities: power, duration, spot size, far field."""
    s = c['c']
    las = make(s)
    g = rng(c['seed'])
    ctx.label(s['kind'])
    zr, zf = zr_of(s), zf_of(s)
    wm = s['w0'] * (np.sqrt(s['p'] + 1) if s['kind'] == 'flat' else 1.)

    def power(xi, z):
        """2 pi r |a|^2 dr at the plane z (distance from focus)."""
        w = wm * np.sqrt(1 + (z / zr)**2)
        x, wt = np.polynomial.legendre.leggauss(120)
        rmax = 6.5 * w
        r = rmax * (x + 1) / 2
        a = las.envelope_function(np.full(len(r), xi), r,
                                  z + zf - (xi - s['xi_c']))
        return np.sum(wt * rmax / 2 * 2 * np.pi * r * np.abs(a)**2)
    p0 = power(s['xi_c'], 0.)
    z = zr * g.uniform(-8, 8)
    ctx.nontrivial(abs(z) > 0.1 * zr)
    close(power(s['xi_c'], z), p0, 1e-5, 0, 'power away from focus')
    gauss = np.pi * s['w0']**2 / 2 * s['a0']**2
    if s['kind'] != 'flat':
        close(p0, gauss, 1e-5, 0, 'power (independent of p)')
    # duration: half of the power half a FWHM away from the centre
    for sg in (-1, 1):
        close(power(s['xi_c'] + sg * ct.c * s['tau'] / 2, z), p0 / 2, 1e-5, 0,
              'power half a FWHM away from the centre')
    # spot size at focus
    r = s['w0'] * np.array([0., 1.])
    a = np.abs(las.envelope_function(np.full(2, s['xi_c']), r, zf))
    if s['kind'] == 'gauss':
        close(a[1], a[0] / np.e, 1e-9, 0, 'amplitude at the spot size')
    # far field of the flattened profile
    if s['kind'] == 'flat':
        N = s['p']
        zz = 1e4 * zr
        w = wm * np.sqrt(1 + (zz / zr)**2)
        r = w * np.linspace(0, np.sqrt(N + 1) * 1.5, 20)
        a = np.abs(las.envelope_function(np.full(20, s['xi_c']), r, zz + zf))
        t = (r / w)**2
        e = np.exp(-t) * sum(t**m / _fact(m) for m in range(N + 1))
        close(a / a[0], e, 1e-5, 0, 'flattened far field')
    n = 10**g.uniform(21, 26)
    lam_p2 = (2 * np.pi)**2 * ct.epsilon_0 * ct.m_e * ct.c**2 / (
        n * ct.e**2)
    close(las.get_group_velocity(n),
          1 / np.sqrt(1 + l0_of(s)**2 / lam_p2), 1e-12, 0, 'group velocity')


def _fact(m):
    return float(np.prod(np.arange(1, m + 1)))


@R.part('sums', d(parts=lists(case_p, min_size=2, max_size=4), seed=seeds,
                  order=st.permutations(range(4)), tree=st.integers(0, 3),
                  bad=st.sampled_from(['no', 'no', 'pol', 'l0'])),
        quick=1800, thorough=15000, rule='at least two different pulses')
def sums(c, ctx):
    base = c['parts'][0]
    ps = [dict(p, l0=base['l0'], pol=base['pol']) for p in c['parts']]
    ls = [make(p) for p in ps]
    n = len(ls)
    order = [i for i in c['order'] if i < n]
    xi, r, zp = points(base, c['seed'])
    ctx.label(f'n={n}')
    ctx.nontrivial(True)

    def tree(items):
        if len(items) == 1:
            return items[0]
        k = 1 + c['tree'] % (len(items) - 1)
        return tree(items[:k]) + tree(items[k:])
    s = tree([ls[i] for i in order])
    e = sum(ref(p, xi, r, zp) for p in ps)
    close(s.envelope_function(xi, r, zp), e, 1e-7, 0, 'envelope of the sum',
          scale=sum(p['a0'] for p in ps))
    check(s.l_0 == l0_of(base) and s.polarization == base['pol'],
          'sum has wavelength {} and polarization {}', s.l_0, s.polarization)
    for p, las in zip(ps, ls):            # the summands are unchanged
        close(las.envelope_function(xi, r, zp), ref(p, xi, r, zp), 1e-8, 0,
              'envelope of a summed pulse', scale=p['a0'])
    if c['bad'] != 'no':
        o = dict(ps[1])
        if c['bad'] == 'pol':
            o['pol'] = 'linear' if o['pol'] == 'circular' else 'circular'
        else:
            o['l0'] = 0.5e-6
        raises(ValueError, lambda: s + make(o), 'sum of incompatible pulses')
        raises(ValueError, lambda: make(o) + s, 'sum of incompatible pulses')


@R.part('grid', d(parts=lists(case_p, min_size=1, max_size=3),
                  nz=st.integers(2, 40), nr=st.integers(1, 40),
                  span=d(a=fl(-4, 0), b=fl(0.1, 4), r=fl(0.3, 6)),
                  sub=st.one_of(st.none(), d(nz=st.integers(2, 60),
                                             nr=st.integers(1, 40)))),
        quick=1500, thorough=10000, rule='grid with more than one radial node')
def grid(c, ctx):
    """The initialised envelope holds the profile at the grid nodes."""
    base = c['parts'][0]
    ps = [dict(p, l0=base['l0'], pol=base['pol']) for p in c['parts']]
    las = make(ps[0])
    for p in ps[1:]:
        las = las + make(p)
    cz = ct.c * base['tau']
    z0 = base['xi_c'] + c['span']['a'] * cz
    z1 = z0 + c['span']['b'] * cz
    rm = c['span']['r'] * base['w0']
    nz, nr = c['nz'], c['nr']
    kw = {}
    if c['sub'] and nr > 1 and c['sub']['nr'] > 1:
        kw = dict(subgrid_nz=c['sub']['nz'], subgrid_nr=c['sub']['nr'])
    ctx.label('subgrid' if kw else 'own grid')
    ctx.nontrivial(nr > 1)
    las.set_envelope_solver_params(z0, z1, rm, nz, nr, 1e-14, 2, **kw)
    las.initialize_envelope()
    a = np.array(las.get_envelope())
    check(a.shape == (nz, nr), 'envelope shape {}', a.shape)
    mz, mr = (kw['subgrid_nz'], kw['subgrid_nr']) if kw else (nz, nr)
    z = z0 + (z1 - z0) * np.arange(mz) / (mz - 1)
    r = rm * (np.arange(mr) + 0.5) / mr
    e = sum(ref(p, z[:, None] + 0 * r, r + 0 * z[:, None], 0.) for p in ps)
    if kw:
        # linear interpolation (and extrapolation to the edges in r)
        zo = z0 + (z1 - z0) * np.arange(nz) / (nz - 1)
        ro = rm * (np.arange(nr) + 0.5) / nr
        e = interp(z, r, e, zo, ro)
    close(a, e, 1e-7, 0, 'initial envelope',
          scale=max(np.max(np.abs(e)), 1e-30) + sum(p['a0'] for p in ps) * 1e-3)


def interp(z, r, f, zo, ro):
    """Bilinear, extrapolating linearly with the outermost two nodes."""
    def w(x, xo):
        i = np.clip(np.searchsorted(x, xo) - 1, 0, len(x) - 2)
        u = (xo - x[i]) / (x[i + 1] - x[i])
        m = np.zeros((len(xo), len(x)))
        m[np.arange(len(xo)), i] = 1 - u
        m[np.arange(len(xo)), i + 1] = u
        return m
    return w(z, zo) @ f @ w(r, ro).T
