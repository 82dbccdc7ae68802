"""C12: the laser envelope solver solves the documented equation."""
import numpy as np
import scipy.constants as ct
from hypothesis import strategies as st
from vp import sizes, lists, Registry, check, close, d, fl, logfl, seeds, rng

R = Registry()


def pulse(env, l0, pol='linear'):
    """A laser pulse whose initial envelope is the given (nz, nr) array."""
    from wake_t.physics_models.laser.laser_pulse import LaserPulse

    class Pulse(LaserPulse):
        def _envelope_function(self, xi, r, z_pos):
            return np.array(env)
    return Pulse(l0, pol)


def kp_of(n_p):
    return np.sqrt(ct.e**2 * n_p / (ct.m_e * ct.epsilon_0)) / ct.c


def lap(nr, dr):
    """Transverse Laplacian on cell centres, zero beyond the last node."""
    m = np.zeros((nr, nr))
    for k in range(nr):
        # 1/r d/dr (r d/dr): central differences of a'' + a'/r
        r = (k + 0.5) * dr
        m[k, k] = -2 / dr**2
        if k > 0:
            m[k, k - 1] = 1 / dr**2 - 1 / (2 * r * dr)
        if k + 1 < nr:
            m[k, k + 1] = 1 / dr**2 + 1 / (2 * r * dr)
    return m


class Ambiguous(Exception):
    pass


def phase_steps(a):
    """theta[j+1]-theta[j] on axis, wrapped to (-pi, pi], ghosts included."""
    ax = np.append(a[:, 0], [0, 0])
    s = np.max(np.abs(a))
    if s == 0:
        return np.zeros(len(ax) - 1)
    if np.min(np.abs(a[:, 0])) < 1e-7 * s:
        raise Ambiguous
    dt = np.diff(np.angle(ax))
    dt = (dt + np.pi) % (2 * np.pi) - np.pi
    if np.any(np.abs(np.abs(dt) - np.pi) < 1e-5):
        raise Ambiguous
    return dt


def ref_step(a, old, chi, k0, kp, dz, dr, dt, phase, centred):
    """One step; all in SI (lengths in m, dt = c*time in m)."""
    nz, nr = a.shape
    th = phase_steps(a) if phase else np.zeros(nz + 1)
    prev = old if centred else a          # the level new is paired with
    span = 2 * dt if centred else dt      # new - prev
    M0 = lap(nr, dr)
    ext = np.zeros((nz + 2, nr), complex)       # new, with ghost cells
    pe = np.vstack([prev, np.zeros((2, nr))])
    for j in range(nz - 1, -1, -1):
        A = (M0 - np.diag(chi[j]) * kp**2) / 2.
        D = (-3 * 0 + 4 * th[j] - (th[j] + th[j + 1])) / (2 * dz)
        e1, e2 = np.exp(-1j * th[j]), np.exp(-1j * (th[j] + th[j + 1]))
        # 2/span * [d/dz + i(k0 + D)] (new - prev) + (lap - chi)(new+prev)/2
        #     - (new - 2 a + prev)/dt^2 = 0
        t = 2. / span
        loc = t * (-3 / (2 * dz) + 1j * (k0 + D))
        I = np.eye(nr)
        lhs = A + loc * I
        rhs = -A @ pe[j] + loc * pe[j]
        rhs -= t / (2 * dz) * (4 * e1 * (ext[j + 1] - pe[j + 1]) -
                               e2 * (ext[j + 2] - pe[j + 2]))
        if centred:
            lhs = lhs - I / dt**2
            rhs = rhs + (pe[j] - 2 * a[j]) / dt**2
        ext[j] = np.linalg.solve(lhs, rhs)
    return ext[:nz]


@R.part('steps', d(nz=sizes(3, 14, 60, 20), nr=sizes(2, 12, 90, 20), seed=seeds,
                   Lz=logfl(1e-6, 2e-4), rm=logfl(3e-6, 3e-4),
                   ct_dt=logfl(1e-7, 1e-2), nt=st.integers(1, 6),
                   phase=st.booleans(), l0=logfl(0.2e-6, 1.1e-5),
                   calls=lists(d(n_p=logfl(1e21, 1e26), chi=fl(0, 3),
                                    seed=seeds), min_size=1, max_size=4),
                   smooth=st.booleans(), amp=logfl(1e-3, 10.)),
        quick=1930, thorough=20000,
        rule='the reference scheme is well conditioned on the case and at '
             'least one step was compared')
def steps(c, ctx):
    g = rng(c['seed'])
    nz, nr = c['nz'], c['nr']
    z = np.arange(nz)[:, None] / (nz - 1)
    r = (np.arange(nr) + 0.5)[None] / nr
    if c['smooth']:
        a = np.exp(-4 * r**2 - 6 * (z - g.uniform(0.2, 0.8))**2 +
                   1j * g.uniform(-2, 2) * z + 1j * g.uniform(-1, 1) * r**2)
    else:
        a = g.normal(size=(nz, nr)) + 1j * g.normal(size=(nz, nr))
    a = c['amp'] * a
    las = pulse(a, c['l0'])
    dt = c['ct_dt'] / ct.c
    las.set_envelope_solver_params(0., c['Lz'], c['rm'], nz, nr, dt, c['nt'],
                                   use_phase=c['phase'])
    las.initialize_envelope()
    k0 = 2 * np.pi / c['l0']
    dz, dr = c['Lz'] / (nz - 1), c['rm'] / nr
    old = np.zeros_like(a)
    scale = np.max(np.abs(a))
    ctx.label('phase' if c['phase'] else 'no phase', f"nt={c['nt']}")
    for i, s in enumerate(c['calls']):
        chi = s['chi'] * rng(s['seed']).uniform(0, 1, (nz, nr))
        chi0 = chi.copy()
        las.evolve(chi, s['n_p'])
        check(np.array_equal(chi, chi0), 'evolve modified chi')
        try:
            for n in range(c['nt']):
                new = ref_step(a, old, chi, k0, kp_of(s['n_p']), dz, dr,
                               c['ct_dt'] / c['nt'], c['phase'], i > 0)
                old, a = a, new
                scale = max(scale, np.max(np.abs(a)))
        except Ambiguous:
            ctx.label('ambiguous phase')
            return
        close(las.get_envelope(), a, 2e-6, 0, f'envelope after call {i}',
              scale=scale)
        ctx.nontrivial(True)


@R.part('relations', d(nz=st.integers(3, 14), nr=st.integers(2, 12),
                       seed=seeds, Lz=logfl(1e-6, 2e-4), rm=logfl(1e-5, 3e-4),
                       ct_dt=logfl(1e-6, 1e-3), nt=st.integers(1, 3),
                       phase=st.booleans(), n_p=logfl(1e22, 1e25),
                       f=logfl(0.1, 10.), calls=st.integers(1, 4),
                       re=fl(-2, 2), im=fl(-2, 2)),
        quick=1130, thorough=10000, rule='all cases')
def relations(c, ctx):
    """Homogeneity, superposition (without phase terms), and the plasma
    density entering only through chi*n_p."""
    g = rng(c['seed'])
    nz, nr = c['nz'], c['nr']
    z = np.arange(nz)[:, None] / (nz - 1)
    r = (np.arange(nr) + 0.5)[None] / nr
    a = np.exp(-4 * r**2 - 6 * (z - 0.5)**2 + 1j * z)
    b = np.exp(-3 * r**2 - 5 * (z - 0.6)**2 - 1j * z) * g.uniform(0.5, 1.5)
    chi = g.uniform(0, 2, (nz, nr))
    ctx.nontrivial(True)

    def run(env, chi=chi, n_p=c['n_p']):
        las = pulse(env, 0.8e-6)
        las.set_envelope_solver_params(
            -1e-5, -1e-5 + c['Lz'], c['rm'], nz, nr, c['ct_dt'] / ct.c,
            c['nt'], use_phase=c['phase'])
        las.initialize_envelope()
        for _ in range(c['calls']):
            las.evolve(chi, n_p)
        return np.array(las.get_envelope())
    e = run(a)
    s = max(np.max(np.abs(e)), 1.)
    f = complex(c['re'], c['im'])
    if c['phase']:       # the phase terms refer to the zero beyond the box
        f = abs(f)
    close(run(f * a), f * e, 1e-6, 0, 'envelope scaled by a complex number',
          scale=s * (abs(f) + 1e-3))
    close(run(a, chi * c['f'], c['n_p'] / c['f']), e, 1e-6, 0,
          'envelope for chi*f and n_p/f', scale=s)
    if not c['phase']:
        close(run(f * a + b), f * e + run(b), 1e-6, 0,
              'envelope of a superposition', scale=s * (abs(f) + 2))


@R.part('diffraction', d(w0=logfl(1e-5, 5e-5), tau=logfl(3e-14, 1e-13),
                         zf=fl(-1.5, 1.5), dist=fl(0.2, 1.5),
                         phi=fl(0, 1.5), n_p=logfl(1e22, 1e24),
                         l0=st.sampled_from([0.8e-6, 1.03e-6]),
                         n=st.integers(25, 50), nt=st.integers(1, 3),
                         phase=st.booleans(), sub=st.booleans()),
        quick=160, thorough=1500, rule='propagation over 0.2 to 1.5 Rayleigh '
        'lengths')
def diffraction(c, ctx):
    """A Gaussian pulse diffracts as in optics, with the refraction of a
    uniform low-density plasma; the error is that of the resolution."""
    from wake_t import GaussianPulse
    zr = np.pi * c['w0']**2 / c['l0']
    las = GaussianPulse(0., 1., c['w0'], c['tau'], z_foc=c['zf'] * zr,
                        l_0=c['l0'])
    L = c['dist'] * zr
    wmax = c['w0'] * np.sqrt(1 + (abs(c['zf']) + c['dist'])**2)
    rm, nr, nz = 4 * wmax, 160, 31
    cz = ct.c * c['tau']
    kw = dict(subgrid_nz=41, subgrid_nr=nr) if c['sub'] else {}
    las.set_envelope_solver_params(
        -1.5 * cz, 1.5 * cz, rm, nz, nr, L / ct.c / c['n'], c['nt'],
        use_phase=c['phase'], **kw)
    las.initialize_envelope()
    k0, kp = 2 * np.pi / c['l0'], kp_of(c['n_p'])
    chi = c['phi'] * 2 * k0 / kp**2 / L
    for _ in range(c['n']):
        las.evolve(np.full((nz, nr), chi), c['n_p'])
    z = np.linspace(-1.5 * cz, 1.5 * cz, nz)
    r = rm * (np.arange(nr) + 0.5) / nr
    e = las.envelope_function(z[:, None] + 0 * r, r + 0 * z[:, None], L)
    e = e * np.exp(-1j * c['phi'])
    got = las.get_envelope()
    i = slice(nz // 3, 2 * nz // 3)
    ctx.nontrivial(True)
    ctx.label('through focus' if 0 < c['zf'] < c['dist'] else 'no focus')
    close(got[i], e[i], 0.06, 0, 'diffracted envelope')
