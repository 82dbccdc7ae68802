import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from mkseed import mkseed

mkseed('c02-clip-single', 'C02', [(
    'wake_t/tracking/tracker.py',
    "            t_next + dt_objects[i_next] > self.t_final)\n",
    "            np.float32(t_next + dt_objects[i_next]) >\n"
    "            np.float32(self.t_final))\n")],
    'a time step slightly above an integer fraction of the stage (relative excess below single precision)',
    'the last push is not shortened: the bunch is tracked beyond the end of the stage',
    '''
import numpy as np
from wake_t.tracking.tracker import Tracker
from wake_t import ParticleBunch

z = np.zeros(3)
for f in (1., 1 + 2e-8, 1 + 1e-3):
    b = ParticleBunch(np.ones(3), z.copy(), z.copy(), z.copy(), z.copy(), z.copy(), np.full(3, 100.), name='b')
    steps = []
    ev = b.evolve
    def spy(fields, t, dt, *a, **k):
        steps.append(dt)
        return ev(fields, t, dt, *a, **k)
    b.evolve = spy
    T = 2e-11
    Tracker(t_final=T, bunches=[b], dt_bunches=[T / 4 * f], fields=[], show_progress_bar=False).do_tracking()
    assert abs(sum(steps) / T - 1) < 1e-10, (f, steps)
''')

mkseed('c07-bt-axis', 'C07', [(
    'wake_t/particles/interpolation.py',
    '            bt_ul = bt[iz_upper, ir_lower] * wr_corr\n',
    '            bt_ul = bt[iz_upper, ir_lower]\n')],
    'a particle within half a cell of the axis',
    'the magnetic field does not vanish towards the axis',
    '''
import numpy as np
from wake_t.particles.interpolation import gather_main_fields_cyl_linear as g

nz, nr, dz, dr = 6, 5, 1., 1.
r = (np.arange(-2, nr + 2) + 0.5) * dr
z = np.arange(-2, nz + 2) * dz
bt = np.zeros((nz + 4, nr + 4)); bt[2:-2, 2:-2] = (r[None, 2:-2] * (1 + z[2:-2, None]))
o = [np.zeros(3) for i in range(6)]
x = np.array([0.1, 0.3, 1.2]); y = np.array([0.2, 0.0, 0.4]); zz = np.array([1.3, 2.6, 3.4])
g(np.zeros_like(bt), np.zeros_like(bt), bt, z[2], z[-3], r[2], r[-3], dz, dr, x, y, zz, *o)
assert np.allclose(o[3], -y * (1 + zz)) and np.allclose(o[4], x * (1 + zz)), o
''')

mkseed('c10-abs-theta', 'C10', [(
    'wake_t/physics_models/collective_effects/csr.py',
    '            rho = element.length / element.theta\n',
    '            rho = element.length / abs(element.theta)\n')],
    'CSR in a beamline with dipoles which bend to opposite sides (a chicane)',
    'the orbit used for the radiation keeps turning to the same side, so the kicks in the later dipoles are those of another beamline',
    '''
import numpy as np
from wake_t import ParticleBunch, Dipole
from wake_t.physics_models.collective_effects.csr import reset_csr_calculator, set_csr_settings
from scipy.special import ndtri

def run(signs):
    reset_csr_calculator(); set_csr_settings(0.02, 2e-3, 60)
    n = 400
    u = ndtri((np.arange(n) + 0.5) / n)
    z = np.zeros(n)
    b = ParticleBunch(z + 1., z.copy(), z.copy(), 2e-5 * u, z.copy(), z.copy(), z + 1000., name='b')
    for s in signs:
        Dipole(0.2, s * 0.1, gamma_ref=1000., csr_on=True).track(b, show_progress_bar=False)
    return b.pz**2 + b.px**2 - 1e6

a, c = run([1, 1]), run([1, -1])
assert np.allclose(a, run([-1, -1]), rtol=1e-3, atol=1e-3 * abs(a).max())
assert abs(a - c).max() > 0.05 * abs(a).max(), (abs(a - c).max(), abs(a).max())
''')

mkseed('c11-sum-zpos', 'C11', [(
    'wake_t/physics_models/laser/laser_pulse.py',
    '        a_env_2 = self.pulse_2.envelope_function(xi, r, z_pos)\n',
    '        a_env_2 = self.pulse_2.envelope_function(xi, r, 0.)\n')],
    'a sum of pulses evaluated away from z=0',
    'the second pulse of a sum does not diffract',
    '''
import numpy as np
from wake_t import GaussianPulse

a = GaussianPulse(0., 1., 1e-5, 3e-14)
b = GaussianPulse(-2e-5, 0.5, 2e-5, 2e-14, z_foc=1e-3)
z, r = np.meshgrid(np.linspace(-4e-5, 2e-5, 11), np.linspace(0, 3e-5, 7), indexing='ij')
for p in (0., 5e-4):
    s = (a + b).envelope_function(z, r, p)
    e = a.envelope_function(z, r, p) + b.envelope_function(z, r, p)
    assert np.allclose(s, e, rtol=1e-10, atol=1e-10)
''')

mkseed('c14-charge-state', 'C14', [(
    'wake_t/physics_models/plasma_wakefields/qs_cold_fluid_1x3p.py',
    '            w = bunch.w * (bunch.q_species / ct.e)\n',
    '            w = bunch.w * np.sign(bunch.q_species)\n')],
    'a driver of a species with a charge other than +-e',
    'the wakefield of multiply charged ions is too weak',
    '''
import numpy as np, scipy.constants as ct
from wake_t import PlasmaStage, ParticleBunch

def run(q, w):
    g = np.random.default_rng(1)
    n = 300
    z = np.zeros(n)
    b = ParticleBunch(z + w / n, 5e-6 * g.normal(size=n), 5e-6 * g.normal(size=n), 5e-6 * g.normal(size=n), z.copy(), z.copy(), z + 1000., name='b', q_species=q)
    s = PlasmaStage(1e-5, 1e23, 'cold_fluid_1d', beam_wakefields=True, xi_max=3e-5, xi_min=-6e-5, r_max=4e-5, n_xi=60, n_r=20, n_out=1)
    s.track(b, show_progress_bar=False)
    return s.fields[0].e_z.copy()
a, c = run(ct.e, 4e6), run(4 * ct.e, 1e6)
assert abs(a).max() > 0 and np.allclose(a, c, rtol=1e-6, atol=1e-6 * abs(a).max())
''')

mkseed('c21-peak-slices', 'C21', [(
    'wake_t/diagnostics/bunch_analysis.py',
    '    i_peak = bd.peak_current(z, q, n_slices=n_slices, len_slice=len_slice)\n',
    '    i_peak = bd.peak_current(z, q, n_slices=n_slices)\n')],
    'analysis with a given slice length instead of a number of slices',
    'the peak current is that of another binning',
    '''
import numpy as np, scipy.constants as ct
from wake_t import ParticleBunch
from wake_t.diagnostics import analyze_bunch

g = np.random.default_rng(1)
n = 1000
xi = np.concatenate([np.linspace(-1e-4, 0, 500), np.linspace(1e-6, 2e-6, 500)])
r = lambda s: s * g.normal(size=n)
b = ParticleBunch(np.ones(n), r(1e-6), r(1e-6), xi, r(1.), r(1.), 1000 + r(1.), name='b')
a = [abs(analyze_bunch(b, n_slices=5, len_slice=l)['i_peak']) for l in (2e-6, 2e-5)]
assert a[0] > 2 * a[1], a
''')

mkseed('c24-front-density', 'C24', [(
    'wake_t/physics_models/plasma_wakefields/custom_blowout.py',
    '        n_p = self.density(t*ct.c)\n',
    '        n_p = self.density(0.)\n')],
    'a custom blowout in a plasma with a longitudinal density profile',
    'the phase velocity of the wake is that of the density at the entrance',
    '''
import numpy as np, scipy.constants as ct
from wake_t import GaussianPulse
from wake_t.physics_models.plasma_wakefields import CustomBlowoutWakefield

dens = lambda z: 1e22 + 1e26 * z
p = GaussianPulse(0., 1., 1e-5, 3e-14)
f = CustomBlowoutWakefield(dens, p, -1e9, 1e14, 1e3)
def ez(t):
    o = [np.zeros(1) for i in range(6)]
    f.gather(np.zeros(1), np.zeros(1), np.zeros(1), t, *o)
    return o[2][0]
t = 1e-2 / ct.c
e = -1e9 + 1e14 * (1 - p.get_group_velocity(dens(1e-2))) * 1e-2
assert np.isclose(ez(t), e, rtol=1e-6), (ez(t), e)
''')
