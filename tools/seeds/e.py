import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from mkseed import mkseed

QS = 'wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/'

mkseed('c30-para-global', 'C30', [(
    QS + 'wakefield.py',
    '        parabolic_coefficient = self.parabolic_coefficient(self.t*ct.c)\n',
    '''        # Position along the beamline.
        if self.t == 0. or not hasattr(self, '_z_start'):
            self._z_start = bunches[0].prop_distance if bunches else 0.
        parabolic_coefficient = self.parabolic_coefficient(
            self._z_start + self.t*ct.c)
''')],
    'a parabolic coefficient which varies along the stage, and a bunch which has already propagated before entering it',
    'the transverse profile of the plasma depends on the distance travelled before the stage',
    '''
import numpy as np
from wake_t import PlasmaStage, ParticleBunch

def run(z0):
    z = np.zeros(4)
    b = ParticleBunch(z + 1e6, np.array([1., -2., 3., 0.]) * 1e-6, z.copy(), z - 5e-6, z.copy(), z.copy(), z + 1000., name='b', prop_distance=z0)
    s = PlasmaStage(4e-5, 1e24, 'quasistatic_2d', xi_max=1e-5, xi_min=-3e-5, r_max=2e-5, n_xi=30, n_r=20, ppc=2, dz_fields=1e-5, n_out=1, parabolic_coefficient=lambda z: 5e9 * z / 4e-5)
    s.track(b, show_progress_bar=False)
    return b.px, s.fields[0].rho
(p, r), (q, t) = run(0.), run(1e-3)
assert np.allclose(p, q, rtol=1e-9) and np.allclose(r, t, rtol=1e-9)
''')

mkseed('c26-threads', 'C26', [(
    'wake_t/tracking/tracker.py',
    '''        num_threads_outside_waket = get_num_threads()
        set_num_threads(num_threads)
''',
    '''        set_num_threads(num_threads)
        num_threads_outside_waket = get_num_threads()
''')],
    'a process whose number of numba threads differs from that of Wake-T',
    'tracking changes the number of threads of the process',
    '''
import os
os.environ['NUMBA_NUM_THREADS'] = '4'
import numba, numpy as np
from wake_t import ParticleBunch
from wake_t.beamline_elements import FieldQuadrupole
z = np.zeros(3)
b = ParticleBunch(z + 1., z + 1e-6, z.copy(), z.copy(), z.copy(), z.copy(), z + 500., name='b')
numba.set_num_threads(3)
FieldQuadrupole(1e-3, 100.).track(b, show_progress_bar=False)
assert numba.get_num_threads() == 3, numba.get_num_threads()
''')

mkseed('c29-max-gamma', 'C29', [(
    QS + 'wakefield.py',
    '        max_gamma: Optional[float] = 10,\n',
    '        max_gamma: Optional[float] = 15,\n')],
    'a driver strong enough to bring plasma particles beyond gamma=10, with max_gamma left out',
    'the wakefield differs from that with the documented default',
    '''
import numpy as np
from wake_t import PlasmaStage, ParticleBunch

def run(**kw):
    g = np.random.RandomState(3)
    z = np.zeros(200)
    b = ParticleBunch(z + 5e7, g.normal(size=200) * 1e-6, g.normal(size=200) * 1e-6, g.normal(size=200) * 1e-6, z.copy(), z.copy(), z + 1000., name='b')
    s = PlasmaStage(1e-6, 1e24, 'quasistatic_2d', xi_max=1e-5, xi_min=-4e-5, r_max=2e-5, n_xi=400, n_r=40, ppc=2, n_out=1, **kw)
    s.track(b, show_progress_bar=False)
    return s.fields[0].e_z
a, b, c = run(), run(max_gamma=10), run(max_gamma=15)
assert not np.array_equal(b, c), 'driver too weak'
assert np.array_equal(a, b)
''')
