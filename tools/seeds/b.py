import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from mkseed import mkseed

mkseed('c13-dt-isclose', 'C13', [(
    'wake_t/physics_models/laser/laser_pulse.py',
    "            if solver_params['dt'] != self.solver_params['dt']:\n",
    "            if not np.isclose(solver_params['dt'], self.solver_params['dt']):\n")],
    'a laser that has already evolved and continues with another time step (a second stage with another dz_fields): time steps are far below the absolute tolerance of isclose',
    'the centred scheme goes on with the envelope of the old time step instead of restarting',
    '''
import numpy as np
from wake_t import GaussianPulse

def run(restart):
    p = GaussianPulse(-1e-5, 1., 1e-5, 2e-14)
    kw = dict(xi_min=-3e-5, xi_max=1e-5, r_max=3e-5, nz=40, nr=30, nt=1)
    p.set_envelope_solver_params(dt=1e-14, **kw)
    p.initialize_envelope()
    chi = np.zeros((40, 30))
    for i in range(3):
        p.evolve(chi, 1e23)
    p.set_envelope_solver_params(dt=2e-14, **kw)
    if restart:
        p.n_steps = 0
    for i in range(2):
        p.evolve(chi, 1e23)
    return p.get_envelope()

assert np.array_equal(run(False), run(True))
''')

mkseed('c18-species-time', 'C18', [(
    'wake_t/diagnostics/openpmd_diag.py',
    'diag_data = species.get_openpmd_diagnostics_data(it.time)',
    'diag_data = species.get_openpmd_diagnostics_data(time)')],
    'openPMD output of the second or a later element of a beamline',
    'the longitudinal offset of the particles restarts in every element while the fields and the time are absolute',
    '''
import numpy as np, h5py
from wake_t import ParticleBunch, Beamline
from wake_t.beamline_elements import FieldElement
import scipy.constants as ct

z = np.zeros(3)
b = ParticleBunch(np.ones(3), z.copy(), z.copy(), z.copy(), z.copy(), z.copy(), np.full(3, 100.), name='b')
els = [FieldElement(1e-3, 1e-3 / ct.c, n_out=1) for i in range(3)]
Beamline(els).track(b, opmd_diag=True, diag_dir='d', show_progress_bar=False)
for i in range(6):
    with h5py.File('d/hdf5/data%08d.h5' % i) as f:
        it = f['data/%d' % i]
        off = it['particles/b/positionOffset/z'].attrs['value']
        assert abs(off - it.attrs['time'] * ct.c) < 1e-12, (i, off)
''')

mkseed('c17-laser-density', 'C17', [(
    'wake_t/fields/rz_wakefield.py',
    '                self.laser.evolve(self.chi[2:-2, 2:-2], self.n_p)',
    '                n_p = self.density_function(self.t*ct.c)\n'
    '                self.laser.evolve(self.chi[2:-2, 2:-2], n_p)')],
    'a laser in a longitudinally varying density',
    'the susceptibility of the previous slice is applied with the density of the next one: the laser is refracted by the wrong plasma',
    '''
import numpy as np, scipy.constants as ct
from wake_t import PlasmaStage, GaussianPulse

L = 1e-3
dens = lambda z: 1e23 * (1 + 9 * np.asarray(z) / L)
calls = []
p = GaussianPulse(-1e-5, 1., 1e-5, 2e-14)
ev = p.evolve
def spy(chi, n_p):
    calls.append(float(n_p))
    return ev(chi, n_p)
p.evolve = spy
s = PlasmaStage(L, dens, 'cold_fluid_1d', laser=p, dz_fields=L / 4, xi_max=1e-5, xi_min=-3e-5, r_max=3e-5, n_xi=20, n_r=20)
s.track([], show_progress_bar=False)
exp = [float(dens(i * L / 4)) for i in range(4)]
assert np.allclose(calls, exp), (calls, exp)
''')

mkseed('c12-phase-once', 'C12', [(
    'wake_t/physics_models/laser/envelope_solver.py',
    '''    # Loop over time iterations.
    for n in range(nt):
        # a_new_jp1''',
    '''    # Getting the phase of the envelope on axis.
    if use_phase:
        phases = unwrap(np.angle(a[:, 0]))

    # Loop over time iterations.
    for n in range(nt):
        # a_new_jp1'''), (
    'wake_t/physics_models/laser/envelope_solver.py',
    '''        # Getting the phase of the envelope on axis.
        if use_phase:
            phases = unwrap(np.angle(a[:, 0]))

        # Loop over z.''',
    '''        # Loop over z.''')],
    'more than one substep of the envelope solver with the phase terms, after the first step',
    'the later substeps use the phase of the envelope before the first one',
    '''
import numpy as np
from wake_t import GaussianPulse

def run(nt, n, use_phase=True):
    p = GaussianPulse(-1e-5, 1.5, 8e-6, 2e-14, z_foc=1e-4)
    kw = dict(xi_min=-3e-5, xi_max=1e-5, r_max=3e-5, nz=60, nr=30, use_phase=use_phase)
    g = np.linspace(0, 1, 60)[:, None] * np.ones((60, 30)) * 3
    p.set_envelope_solver_params(dt=2e-13, nt=1, **kw)
    p.initialize_envelope()
    p.evolve(g, 1e25)
    p.set_envelope_solver_params(dt=2e-13 * nt, nt=nt, **kw)
    p.n_steps = 1
    for i in range(n):
        p.evolve(g, 1e25)
    return p.get_envelope().copy()

a, b = run(1, 6), run(3, 2)
assert np.allclose(a, b, rtol=1e-9, atol=1e-12), np.abs(a - b).max()
''')

mkseed('c22-copy-weights', 'C22', [(
    'wake_t/particles/particle_bunch.py',
    '            w=deepcopy(self.w),\n', '            w=self.w,\n')],
    'editing the weights of a bunch or of its copy in place',
    'a copy of a bunch (also the snapshots of the tracking) shares its weights with the original',
    '''
import numpy as np
from wake_t import ParticleBunch
z = np.zeros(3)
b = ParticleBunch(np.ones(3), z, z, z, z, z, np.full(3, 100.), name='b')
c = b.copy()
b.w *= 2
assert np.all(c.w == 1), c.w
''')

mkseed('c23-position-down', 'C23', [(
    'wake_t/beamline_elements/plasma_ramp.py',
    "                        np.sqrt(2*np.log(density_top / density_down)))",
    "                        np.sqrt(2*np.log1p(density_top / density_down)))")],
    'a Gaussian ramp defined by the density at a position, with a moderate ratio of densities',
    'the density at the given position is not the requested one',
    '''
import numpy as np
from wake_t import PlasmaRamp
for top, down in ((1e24, 5e23), (1e24, 1e23), (1e24, 1e18)):
    r = PlasmaRamp(1e-2, profile='gaussian', ramp_type='downramp', wakefield_model='focusing_blowout',
                   plasma_dens_top=top, plasma_dens_down=down, position_down=4e-3)
    assert abs(r.density(4e-3) / down - 1) < 1e-6, (down, r.density(4e-3))
    assert abs(r.density(0.) / top - 1) < 1e-6
''')

mkseed('c27-pusher-default', 'C27', [(
    'wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/solver.py',
    "    if plasma_pusher == 'ab5':\n        dr_arrays, dpr_arrays = pp.get_ab5_arrays()\n        calculate_with_ab5(",
    "    if plasma_pusher.startswith('ab'):\n        dr_arrays, dpr_arrays = pp.get_ab5_arrays()\n        calculate_with_ab5("), (
    'wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/plasma_particles.py',
    "        if self.pusher == 'ab5':", "        if self.pusher.startswith('ab'):")],
    'the name of a pusher that does not exist, such as ab2 or ab4',
    'an unknown plasma pusher runs silently with another scheme',
    '''
from wake_t import PlasmaStage
for name in ('ab2', 'ab4', 'ab55', 'abc', 'rk2'):
    s = PlasmaStage(1e-5, 1e23, 'quasistatic_2d', xi_max=1e-5, xi_min=-3e-5, r_max=3e-5, n_xi=10, n_r=10, plasma_pusher=name)
    try:
        s.track([], show_progress_bar=False)
    except ValueError:
        continue
    raise SystemExit('accepted ' + name)
''')

mkseed('c28-diag-kept', 'C28', [(
    'wake_t/beamline_elements/beamline.py',
    '        self.elements = elements\n',
    '        self.elements = elements\n        self._opmd_diag = None\n'), (
    'wake_t/beamline_elements/beamline.py',
    '            opmd_diag = OpenPMDDiagnostics(write_dir=diag_dir)\n',
    '            if self._opmd_diag is None:\n'
    '                self._opmd_diag = OpenPMDDiagnostics(write_dir=diag_dir)\n'
    '            opmd_diag = self._opmd_diag\n')],
    'tracking with openPMD output twice through the same beamline object',
    'the second tracking writes into the folder of the first and continues its times and numbers',
    '''
import os, numpy as np, scipy.constants as ct
from wake_t import ParticleBunch, Beamline
from wake_t.beamline_elements import FieldElement
bl = Beamline([FieldElement(1e-3, 1e-3 / ct.c, n_out=2)])
for d in ('d0', 'd1'):
    z = np.zeros(3)
    b = ParticleBunch(np.ones(3), z.copy(), z.copy(), z.copy(), z.copy(), z.copy(), np.full(3, 100.), name='b')
    bl.track(b, opmd_diag=True, diag_dir=d, show_progress_bar=False)
    assert sorted(os.listdir(d + '/hdf5')) == ['data%08d.h5' % i for i in range(3)], d
''')

mkseed('c03-opmd-push', 'C03', [(
    'wake_t/tracking/tracker.py',
    '                if self.push_bunches_before_diags:\n',
    '                if (self.push_bunches_before_diags\n'
    '                        or self.opmd_diags is not None):\n')],
    'openPMD output without pushing the bunches to the output times, which do not coincide with the steps of the bunch',
    'writing diagnostics adds steps to the tracking and changes the result',
    '''
import numpy as np, scipy.constants as ct
from wake_t import PlasmaStage, ParticleBunch
def run(opmd):
    z = np.zeros(3)
    b = ParticleBunch(np.ones(3), z + 1e-6, z.copy(), z.copy(), z.copy(), z.copy(), np.full(3, 100.), name='b')
    PlasmaStage(1e-3, 1e23, 'focusing_blowout', dt_bunch=1e-3 / ct.c / 3.3, n_out=4, push_bunches_before_diags=False).track(
        b, opmd_diag=opmd, diag_dir='d', show_progress_bar=False)
    return b.x
assert np.array_equal(run(False), run(True))
''')

mkseed('c20-offset-angle', 'C20', [(
    'wake_t/utilities/bunch_generation.py',
    '    p_y = -a_y*em_y/(s_y*s_yp)\n', '    p_y = -a_y*em_x/(s_x*s_yp)\n')],
    'a bunch with a vertical correlation (a_y) and different emittances or beta functions in the two planes',
    'wrong vertical Twiss parameters and emittance',
    '''
import numpy as np
from wake_t.utilities.bunch_generation import get_gaussian_bunch_from_twiss as g
np.random.seed(0)
for en_x, b_x in ((1e-6, .1), (2e-6, .1), (1e-6, .15)):
    b = g(en_x, 1e-6, 1., 1., b_x, .1, 1000., .01, 10., 0., 1., 200000)
    yp = b.py / b.pz
    c = np.mean(b.y * yp) - np.mean(b.y) * np.mean(yp)
    em = np.sqrt(np.var(b.y) * np.var(yp) - c**2)
    assert abs(-c / em - 1.) < .03, (-c / em)
    assert abs(em * 1000 / 1e-6 - 1) < .03, em
''')

mkseed('c25-lens-auto', 'C25', [(
    'wake_t/beamline_elements/active_plasma_lens.py',
    '            external_fields=[self.apl_field],\n',
    '            external_fields=[] if wakefields and bunch_pusher == "rk4" else [self.apl_field],\n')],
    'a lens with wakefields and the rk4 pusher',
    'the lens does not focus when wakefields are included with the rk4 pusher',
    '''
import numpy as np, scipy.constants as ct
from wake_t import ActivePlasmaLens, ParticleBunch
res = []
for pusher in ('boris', 'rk4'):
    z = np.zeros(3)
    b = ParticleBunch(np.full(3, 1e-3), z + 1e-5, z.copy(), z - 1e-5, z.copy(), z.copy(), np.full(3, 100.), name='b')
    ActivePlasmaLens(1e-3, 3000., wakefields=True, density=1e20, wakefield_model='cold_fluid_1d', bunch_pusher=pusher,
        dt_bunch=1e-3 / ct.c / 20, xi_max=1e-5, xi_min=-3e-5, r_max=3e-5, n_xi=10, n_r=10).track(b, show_progress_bar=False)
    res.append(b.px[0])
assert abs(res[0] / res[1] - 1) < 1e-2, res
''')

mkseed('c19-prop-dist', 'C19', [(
    'wake_t/utilities/bunch_generation.py',
    '    z_avg = np.average(distribution.z, weights=distribution.w)\n',
    '    z_avg = np.average(distribution.z)\n')],
    'a bunch with unequal macroparticle weights correlated with the longitudinal position',
    'the longitudinal positions read are not relative to the mean position of the bunch',
    '''
import numpy as np
from wake_t import ParticleBunch
from wake_t.utilities.bunch_saving import save_bunch_to_file
from wake_t.utilities.bunch_generation import get_from_file
g = np.random.RandomState(0)
n = 50
xi = g.normal(size=n) * 1e-5
w = 1e5 * (1 + 3 * (xi > 0))
b = ParticleBunch(w, xi * .1, xi * .2, xi, xi * 1e5, xi * 1e4, np.full(n, 100.), name='b')
save_bunch_to_file(b, 'openpmd', './bunch')
import glob
f = [x for x in glob.glob('**', recursive=True) if x.endswith('.h5')][0]
r = get_from_file(f, 'openpmd')
assert np.allclose(r.xi, xi - np.average(xi, weights=w), atol=1e-12), np.abs(r.xi - xi).max()
''')

mkseed('c05-order', 'C05', [(
    'wake_t/fields/gather.py',
    '    for field in fields:\n        field.gather(',
    '    for field in set(fields):\n        field.gather(')],
    'the same field given twice in the list of fields of an element',
    'a field that is listed twice acts once',
    '''
import numpy as np
from wake_t import ParticleBunch
from wake_t.beamline_elements import FieldElement
from wake_t.fields.base import Field
import scipy.constants as ct
class E(Field):
    def __init__(self):
        super().__init__()
    def _gather(self, x, y, z, t, ex, ey, ez, bx, by, bz):
        ez += -1e9
f = E()
res = []
for fields in ([f, f], [E(), E()]):
    z = np.zeros(2)
    b = ParticleBunch(np.ones(2), z.copy(), z.copy(), z.copy(), z.copy(), z.copy(), np.full(2, 100.), name='b')
    FieldElement(1e-3, 1e-3 / ct.c, fields=fields).track(b, show_progress_bar=False)
    res.append(b.pz[0])
assert res[0] == res[1], res
''')
