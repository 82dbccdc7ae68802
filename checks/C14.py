"""C14: the cold fluid model solves the 1D quasistatic fluid equations."""
import numpy as np
import scipy.constants as ct
from scipy.integrate import solve_ivp
from hypothesis import strategies as st
from vp import lists, Registry, check, close, same, d, fl, logfl, seeds, rng
from sims import bulk_case, bulk_bunch, laser_case, make_laser, GRID
from C06 import weights

R = Registry()


def ref_deposit(bunches, z0, nz, nr, dz, dr, shape):
    """Charge number (in units of e) per cell."""
    out = np.zeros((nz, nr))
    deg = 1 if shape == 'linear' else 3
    for b in bunches:
        w = b.w * b.q_species / ct.e
        r = np.sqrt(b.x**2 + b.y**2)
        for i in range(len(w)):
            cz = (b.xi[i] - z0) / dz
            if cz < 0 or cz > nz - 1 or r[i] > nr * dr:
                continue
            out += w[i] * np.outer(weights(cz, nz, deg, False),
                                   weights(r[i] / dr - 0.5, nr, deg, True))
    return out


def on_edge(bunches, z0, nz, nr, dz, dr):
    """Particles so close to the border that rounding decides."""
    for b in bunches:
        cz = (b.xi - z0) / dz
        r = np.sqrt(b.x**2 + b.y**2) / dr
        if np.any(np.abs(cz) < 1e-9) or np.any(np.abs(cz - nz + 1) < 1e-9) \
                or np.any(np.abs(r - nr) < 1e-9):
            return True
    return False


def reference(a2, nb, dz, dr, beam):
    """Fields in normalised units. a2: average of a^2; nb: beam density."""
    nz, nr = a2.shape
    psi = np.zeros((nz, nr))
    f = np.zeros(nr)
    v = np.zeros(nr)
    a = np.sqrt(a2)

    def acc(p, a_, n):
        return ((1 + a_**2) / (1 + p)**2 - 1) / 2 - (n if beam else 0.)
    for j in range(nz - 1, 0, -1):
        # from node j to j-1, s = distance behind the head
        n = nb[j]
        a0, a1 = a[j], a[j - 1]
        am = (a0 + a1) / 2
        h = dz
        k1 = (v, acc(f, a0, n))
        k2 = (v + h/2*k1[1], acc(f + h/2*k1[0], am, n))
        k3 = (v + h/2*k2[1], acc(f + h/2*k2[0], am, n))
        k4 = (v + h*k3[1], acc(f + h*k3[0], a1, n))
        f = f + h/6 * (k1[0] + 2*k2[0] + 2*k3[0] + k4[0])
        v = v + h/6 * (k1[1] + 2*k2[1] + 2*k3[1] + k4[1])
        psi[j - 1] = f
    g = (1 + a2 + (1 + psi)**2) / (2 * (1 + psi))
    rho = g / (1 + psi)
    chi = 1 / (1 + psi)
    pz = g - 1 - psi
    ez = -grad(psi, dz)
    wr = -grad(psi.T, dr).T
    # r B = int (dEz/dxi - j_plasma + j_beam) r dr, trapezium of cells
    src = (grad(ez, dz) - rho * pz / g + nb) * ((np.arange(nr) + 0.5) * dr)
    bt = np.zeros((nz, nr))
    for k in range(nr):
        bt[:, k] = (np.sum(src[:, :k], axis=1) + src[:, k] / 2) * dr / (
            (k + 0.5) * dr)
    return dict(psi=psi, e_z=ez, w_r=wr, b_t=bt, rho=rho, chi=chi)


def grad(f, h):
    out = np.empty_like(f)
    out[1:-1] = (f[2:] - f[:-2]) / (2 * h)
    out[0] = (-3 * f[0] + 4 * f[1] - f[2]) / (2 * h)
    out[-1] = (3 * f[-1] - 4 * f[-2] + f[-3]) / (2 * h)
    return out


def build(c, laser, **kw):
    from wake_t.physics_models.plasma_wakefields import (
        NonLinearColdFluidWakefield)
    p = dict(GRID, n_r=c['n_r'], n_xi=c['n_xi'], laser=laser)
    if c['shape'] is not None:
        p['p_shape'] = c['shape']
    if c['beam'] is not None:
        p['beam_wakefields'] = c['beam']
    p.update(kw)
    return NonLinearColdFluidWakefield(lambda z: c['n_p'], **p)


def compare(f, bunches, c, ctx):
    sd = ct.c / np.sqrt(c['n_p'] * ct.e**2 / (ct.m_e * ct.epsilon_0))
    nz, nr = c['n_xi'], c['n_r']
    dz = (GRID['xi_max'] - GRID['xi_min']) / (nz - 1)
    dr = GRID['r_max'] / nr
    if on_edge(bunches, GRID['xi_min'], nz, nr, dz, dr):
        return False
    nb = ref_deposit(bunches, GRID['xi_min'], nz, nr, dz, dr,
                     c['shape'] or 'linear')
    vol = np.pi * dr**2 * ((np.arange(nr) + 1)**2 - np.arange(nr)**2) * dz
    nb = nb / vol / c['n_p']
    a2 = np.zeros((nz, nr))
    if f.laser is not None:
        a2 = np.abs(f.laser.get_envelope())**2
        if f.laser.polarization == 'linear':
            a2 = a2 / 2
    with np.errstate(all='ignore'):
        e = reference(a2, nb, dz / sd, dr / sd, bool(c['beam']))
    if not np.all(np.isfinite(e['psi'])) or e['psi'].min() < -0.9:
        ctx.label('beyond validity')
        return False
    E0 = ct.m_e * ct.c**2 / ct.e / sd
    tol = dict(rtol=1e-8, atol=0)

    def cmp(name, got, exp, unit):
        close(got[2:-2, 2:-2] / unit, exp, 1e-7, 1e-9, name,
              scale=np.max(np.abs(exp)) + 1e-3 * np.max(np.abs(e['b_t'])))
        g = np.array(got)
        g[2:-2, 2:-2] = 0
        same(g, np.zeros_like(g), f'guard cells of {name}')
    cmp('rho', f.rho, e['rho'], 1.)
    cmp('chi', f.chi, e['chi'], 1.)
    cmp('e_z', f.e_z, e['e_z'], E0)
    cmp('b_t', f.b_t, e['b_t'], E0 / ct.c)
    cmp('e_r', f.e_r, e['w_r'] + e['b_t'], E0)
    cmp('w_r', f.e_r - ct.c * f.b_t, e['w_r'], E0)
    return True


case = d(n_p=logfl(3e22, 5e24), n_r=st.integers(4, 14),
         n_xi=st.integers(5, 40), shape=st.sampled_from(
             [None, 'linear', 'cubic']),
         beam=st.sampled_from([None, True, True, False]),
         laser=st.one_of(st.none(), laser_case((0.05, 3.))),
         bunches=lists(bulk_case(12, xi=(-32e-6, 12e-6), w=(1e2, 1e6)),
                          max_size=3), evolve=st.integers(0, 2))


@R.part('reference', case, quick=500, thorough=15000,
        rule='a laser or a bunch drives the plasma, within the validity of '
             'the model (potential above -0.9)')
def ref_part(c, ctx):
    laser = make_laser(c['laser'])
    f = build(c, laser)
    bs = [bulk_bunch(b, name=f'b{i}') for i, b in enumerate(c['bunches'])]
    before = [np.array([b.w, b.x, b.y, b.xi, b.px, b.py, b.pz]) for b in bs]
    ctx.label('laser' if laser else 'no laser', f'{len(bs)} bunches',
              f"beam={c['beam']}")
    for i in range(c['evolve'] + 1):
        f.update(bs)
        ok = compare(f, bs, c, ctx)
        if not ok:
            return
    for b, e in zip(bs, before):
        same(np.array([b.w, b.x, b.y, b.xi, b.px, b.py, b.pz]), e,
             'bunch after the field calculation')
    ctx.nontrivial(laser is not None or len(bs))


@R.part('equation', d(n_p=logfl(1e23, 3e24), a0=fl(0.1, 2.), tau=logfl(
        1e-14, 2e-14), pol=st.sampled_from(['linear', 'circular']),
        nb=fl(-0.3, 0.3), zb=fl(-2e-5, -5e-6), lb=logfl(1e-6, 5e-6),
        has_b=st.booleans()),
        quick=140, thorough=1500, rule='wake with a laser and optionally a '
        'uniform beam slab')
def equation(c, ctx):
    """High resolution against an independent integrator of the continuous
    1D equation, with the drivers given analytically."""
    from wake_t import GaussianPulse
    w0 = 2e-5
    las = GaussianPulse(0., c['a0'], w0, c['tau'], polarization=c['pol'],
                        l_0=0.8e-6)
    nr, nz = 6, 1200
    f = build(dict(n_r=nr, n_xi=nz, shape='linear', beam=c['has_b'],
                   n_p=c['n_p']), las, laser_evolution=False)
    bs = []
    if c['has_b']:
        from wake_t import ParticleBunch
        # a slab of the given density over all radii (cell centred rings)
        dz = (GRID['xi_max'] - GRID['xi_min']) / (nz - 1)
        dr = GRID['r_max'] / nr
        iz = np.arange(nz)
        zz = GRID['xi_min'] + iz * dz
        iz = iz[(zz < c['zb']) & (zz > c['zb'] - c['lb'])]
        Z, K = np.meshgrid(iz, np.arange(nr))
        w = abs(c['nb']) * c['n_p'] * np.pi * dr**2 * (2 * K + 1) * dz
        z = np.zeros(Z.size)
        bs = [ParticleBunch(
            w.ravel(), (K.ravel() + 0.5) * dr, z, GRID['xi_min'] +
            (Z.ravel() + 1e-9) * dz, z, z, z + 100.,
            q_species=np.sign(c['nb']) * ct.e, m_species=ct.m_e)]
    f.update(bs)
    sd = ct.c / np.sqrt(c['n_p'] * ct.e**2 / (ct.m_e * ct.epsilon_0))
    E0 = ct.m_e * ct.c**2 / ct.e / sd
    r = f.r_fld[0]
    pf = 0.5 if c['pol'] == 'linear' else 1.
    zr = np.pi * w0**2 / 0.8e-6

    def a2(xi):
        return pf * c['a0']**2 * 2.**(-4 * (xi / ct.c / c['tau'])**2) * \
            np.exp(-2 * r**2 / w0**2 / (1 + (xi / zr)**2)) / (1 + (xi/zr)**2)

    def rhs(s, u):
        xi = GRID['xi_max'] - s * sd
        n = c['nb'] if c['has_b'] and \
            c['zb'] - c['lb'] < xi < c['zb'] else 0.
        return [u[1], ((1 + a2(xi)) / (1 + u[0])**2 - 1) / 2 - n]
    xi = np.linspace(GRID['xi_max'], GRID['xi_min'], nz)
    s = (GRID['xi_max'] - xi) / sd
    sol = solve_ivp(rhs, (0, s[-1] * (1 + 1e-12)), [0, 0], t_eval=s,
                    rtol=1e-7, atol=1e-9, max_step=(s[1] - s[0]) * 4)
    if not sol.success or sol.y[0].min() < -0.8:
        ctx.label('beyond validity')
        return
    ctx.nontrivial(True)
    psi = sol.y[0][::-1]
    ez = sol.y[1][::-1]          # E_z = -dpsi/dxi = dpsi/ds
    a = a2(xi[::-1])
    scale = np.max(np.abs(ez)) + 0.02
    close(f.e_z[2:-2, 2] / E0, ez, 0.03, 0, 'longitudinal field',
          scale=scale)
    close(f.chi[2:-2, 2], 1 / (1 + psi), 0.03, 0, 'susceptibility')
    close(f.rho[2:-2, 2], ((1 + a) / (1 + psi)**2 + 1) / 2, 0.03, 0,
          'density')


@R.part('stage', d(c=case, n=st.integers(1, 3)), quick=450, thorough=3000,
        rule='stage with a driver')
def stage(c, ctx):
    """Through a PlasmaStage: no drivers no fields; causality; switch."""
    from wake_t import PlasmaStage
    s = c['c']
    laser = make_laser(s['laser'])
    bs = [bulk_bunch(b, name=f'b{i}') for i, b in enumerate(s['bunches'])]
    kw = dict(GRID, n_r=s['n_r'], n_xi=s['n_xi'],
              p_shape=s['shape'] or 'linear', beam_wakefields=bool(s['beam']))
    st0 = PlasmaStage(1e-4, s['n_p'], wakefield_model='cold_fluid_1d',
                      laser=laser, **kw)
    f = [x for x in st0.fields if hasattr(x, 'density_function')][0]
    f.update(bs)
    ctx.nontrivial(laser is not None or len(bs))
    if laser is None and not bs:
        for k in ('e_z', 'e_r', 'b_t'):
            same(getattr(f, k), np.zeros_like(f.e_z), f'{k} without drivers')
    if laser is None and bs:
        # nothing ahead of the first beam particle (shape half width)
        zmax = max(b.xi.max() for b in bs)
        dz = f.xi_fld[1] - f.xi_fld[0]
        ahead = f.xi_fld > zmax + 4 * dz
        for k in ('e_z', 'e_r', 'b_t'):
            v = getattr(f, k)[2:-2, 2:-2][ahead]
            same(v, np.zeros_like(v), f'{k} ahead of the bunches')
        if not s['beam'] and np.isfinite(f.e_z).all():
            same(f.e_z, np.zeros_like(f.e_z), 'e_z without beam wakefields')
            sc = np.max(np.abs(f.e_r))
            close(f.e_r - ct.c * f.b_t, 0 * f.e_r, 1e-9, 0,
                  'transverse force without beam wakefields', scale=sc)
