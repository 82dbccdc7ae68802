"""Small self-consistent simulations shared by several checks.

Cases are plain JSON; bulk particle data is expanded from generated seeds.
"""
import numpy as np
import scipy.constants as ct
from hypothesis import strategies as st
from vp import sizes, d, fl, logfl, seeds, rng
from refs import SPECIES, state

# ----------------------------------------------------------------- bunches


def bulk_case(nmax=30, xi=(-25e-6, 0.), w=(1e3, 3e6), pz=(100., 5e3),
              spec=('electron', 'positron', 'proton', 'muon', 'ion'), many=0):
    return d(n=sizes(1, nmax, many or nmax), seed=seeds, xi0=fl(*xi),
             sz=logfl(1e-7, 5e-6), sr=logfl(1e-7, 4e-6), w=logfl(*w),
             pz=logfl(*pz), species=st.sampled_from(spec))


def bulk_arrays(c):
    g = rng(c['seed'])
    n = c['n']
    return dict(
        w=c['w'] * g.uniform(0.5, 1.5, n), x=g.normal(size=n) * c['sr'],
        y=g.normal(size=n) * c['sr'], xi=c['xi0'] + g.normal(size=n) * c['sz'],
        px=g.normal(size=n) * 0.3, py=g.normal(size=n) * 0.3,
        pz=c['pz'] * (1 + 0.01 * g.normal(size=n)))


def bulk_bunch(c, name='bunch', idx=None, scale_w=1., **kw):
    from wake_t import ParticleBunch
    q, m = SPECIES[c['species']]
    a = bulk_arrays(c)
    if idx is not None:
        a = {k: v[idx].copy() for k, v in a.items()}
    a['w'] = a['w'] * scale_w
    return ParticleBunch(**a, name=name, q_species=q, m_species=m, **kw)


# ------------------------------------------------------------------ lasers

def laser_case(a0=(0.1, 2.)):
    return d(a0=fl(*a0), xi_c=fl(-12e-6, 2e-6), w0=logfl(6e-6, 2e-5),
             tau=logfl(8e-15, 3e-14), l0=st.sampled_from([0.8e-6, 1e-6]),
             pol=st.sampled_from(['linear', 'circular']), zf=fl(-2e-4, 2e-4))


def make_laser(c):
    from wake_t import GaussianPulse
    if c is None:
        return None
    return GaussianPulse(c['xi_c'], c['a0'], c['w0'], c['tau'],
                         z_foc=c['zf'], l_0=c['l0'], polarization=c['pol'])


# ------------------------------------------------------------ plasma stage

GRID = dict(r_max=24e-6, xi_min=-30e-6, xi_max=10e-6)


def model_case(kinds=('quasistatic_2d', 'cold_fluid_1d')):
    return d(model=st.sampled_from(kinds), n_p=logfl(3e22, 2e24),
             n_r=st.integers(6, 14), n_xi=st.integers(8, 24),
             ppc=st.integers(1, 3), pusher=st.sampled_from(['rk4', 'ab5']),
             shape=st.sampled_from(['linear', 'cubic']),
             laser=st.one_of(st.none(), laser_case()),
             rp=st.sampled_from([None, None, None, .6, 1.6]),
             para=st.sampled_from([0., 0., 1e9, -5e8]))


def model_params(c, laser):
    p = dict(GRID, n_r=c['n_r'], n_xi=c['n_xi'], p_shape=c['shape'],
             laser=laser)
    if c['model'] == 'quasistatic_2d':
        p.update(ppc=c['ppc'], plasma_pusher=c['pusher'])
        if c.get('rp'):
            p['r_max_plasma'] = c['rp'] * GRID['r_max']
        if c.get('para'):
            p['parabolic_coefficient'] = c['para']
    else:
        p.update(beam_wakefields=True)
    return p


def make_stage(c, L, laser='own', density=None, **kw):
    from wake_t import PlasmaStage
    if isinstance(laser, str):
        laser = make_laser(c['laser'])
    p = model_params(c, laser)
    p.update(kw)
    return PlasmaStage(L, c['n_p'] if density is None else density,
                       wakefield_model=c['model'], **p)


FIELDS = ('e_z', 'e_r', 'b_t', 'rho', 'chi')


def field_state(f):
    """All grids of a wakefield, plus the laser envelope."""
    out = {k: np.array(getattr(f, k)) for k in FIELDS}
    if f.laser is not None:
        out['a'] = np.array(f.laser.get_envelope())
    return out


def final(bunches):
    return [np.vstack([state(b), np.asarray(b.w)[None]]) for b in bunches]
