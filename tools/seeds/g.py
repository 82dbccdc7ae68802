import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from mkseed import mkseed

mkseed('c17-auto-reuse', 'C17', [(
    'wake_t/tracking/tracker.py',
    "                dt_objects[i] = self.auto_dt_bunch_f(self.bunches[i])\n",
    "                self.dt_bunches[i] = self.auto_dt_bunch_f(self.bunches[i])\n"
    "                dt_objects[i] = self.dt_bunches[i]\n")],
    "a stage with a list of time steps, some of them 'auto', tracked a second time with bunches of another energy",
    'the second tracking uses the fixed step of the first bunch instead of an automatic one',
    '''
import numpy as np
from wake_t import PlasmaStage, ParticleBunch

def stage():
    return PlasmaStage(5e-4, 1e24, 'quasistatic_2d', xi_max=1e-5, xi_min=-3e-5, r_max=2e-5, n_xi=20, n_r=15, ppc=2, dz_fields=1e-4, n_out=1, dt_bunch=['auto'])

def bunch(pz):
    z = np.zeros(3)
    return ParticleBunch(z + 1e7, np.array([1., -2., 1.5]) * 1e-6, z.copy(), np.array([-5., -6., -7.]) * 1e-6, z.copy(), z.copy(), z + pz, name='b')

s = stage()
s.track(bunch(20000.), show_progress_bar=False)
a, b = bunch(100.), bunch(100.)
s.track(a, show_progress_bar=False)
stage().track(b, show_progress_bar=False)
assert np.array_equal(a.x, b.x) and np.array_equal(a.pz, b.pz), (a.x, b.x)
''')

AF = 'wake_t/fields/analytical_field.py'
edits = [(AF, 'class AnalyticalField(Field):\n', '''# Compiled components.
_compiled = {}


def compile_component(function):
    """Compile a field component (only once, as this takes some time)."""
    key = function.__code__
    if key not in _compiled:
        _compiled[key] = njit_parallel(function)
    return _compiled[key]


class AnalyticalField(Field):
''')]
edits += [(AF, f"        self.__{k} = njit_parallel({k}) if", f"        self.__{k} = compile_component({k}) if")
          for k in ('e_x', 'e_y', 'e_z', 'b_x', 'b_y', 'b_z')]
mkseed('c05-compile-once', 'C05', edits,
    'two analytical fields made by the same factory, whose functions capture different values',
    'the second field is that of the first one, so that the total is not the sum of the fields',
    '''
import numpy as np
from wake_t import ParticleBunch
from wake_t.fields.analytical_field import AnalyticalField

def kick(slope):
    def ey(x, y, z, t, fld, c):
        for i in range(x.shape[0]):
            fld[i] += slope * x[i]
    return AnalyticalField(e_y=ey)

x, y, z = np.array([1e-6, 2e-6]), np.zeros(2), np.zeros(2)
out = [np.zeros(2) for _ in range(6)]
for s in (3., -1., 4.):
    kick(s).gather(x, y, z, 0., *out)
assert np.allclose(out[1], 6. * x), out[1]
''')
