import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from mkseed import mkseed

mkseed('c06-cubic-end', 'C06', [(
    'wake_t/particles/deposition.py',
    '            elif z_cell > nz - 2:\n                zsc_2 += zsc_3\n                zsc_3 = 0.\n',
    '            elif z_cell > nz - 1.5:\n                zsc_2 += zsc_3\n                zsc_3 = 0.\n')],
    'cubic shape and a particle in the first half of the last longitudinal cell',
    'part of the weight of the particle goes to the guard cells beyond the end of the grid',
    '''
import numpy as np
from wake_t.particles.deposition import deposit_3d_distribution

nz, nr, dz, dr = 8, 6, 1., 1.
for z in np.linspace(0, nz - 1, 57):
    a = np.zeros((nz + 4, nr + 4))
    deposit_3d_distribution(np.array([z]), np.array([2.2]), np.array([0.3]),
                            np.array([1.]), 0., dr / 2, nz, nr, dz, dr, a,
                            p_shape='cubic')
    assert abs(a[2:-2, 2:-2].sum() - 1) < 1e-9, (z, a[2:-2, 2:-2].sum())
''')

mkseed('c09-xref-drift', 'C09', [(
    'wake_t/beamline_elements/tm_elements.py',
    '                         np.sin(old_bunch.theta_ref))',
    '                         np.tan(old_bunch.theta_ref))')],
    'a straight element entered with a bent reference orbit (after a dipole)',
    'the reference orbit offset after the straight element is not that of its length',
    '''
import numpy as np
from wake_t import ParticleBunch, Drift, Dipole

z = np.zeros(1)
b = ParticleBunch(np.ones(1), z, z, z, z, z, np.array([1000.]))
th = 0.3
Dipole(0.2, th).track(b, show_progress_bar=False)
x0 = b.x_ref
Drift(0.5, n_out=2).track(b, show_progress_bar=False)
assert abs(b.x_ref - x0 - 0.5 * np.sin(th)) < 1e-9, b.x_ref - x0
''')

mkseed('c08-chromatic', 'C08', [(
    'wake_t/physics_models/beam_optics/transfer_matrices.py',
    '(K2 + h * K1) * J1 * cy + 0.25/beta*K1*(sy - L*cy)',
    '(K2 + h * K1) * J1 * cy + 0.25/beta*K1*(sy - L)*cy')],
    'second-order map of a quadrupole and a particle with both a vertical offset and an energy deviation',
    'wrong chromatic term of the vertical angle (y, dp)',
    '''
import numpy as np
from wake_t.particles.push.transfer_matrix import track_with_transfer_map

L, k1, g = 0.7, 4., 2000.
def yp(d):
    m = np.zeros((6, 1)); m[2] = 1e-3; m[5] = d
    return track_with_transfer_map(m, L, L, 0., k1, 0., g, order=2)[3, 0]
def exact(d):
    k = np.sqrt(k1 / (1 + d))
    return 1e-3 * k * np.sinh(k * L) * (1 + d)   # transverse momentum / p0
e = 1e-4
num = (yp(e) - yp(-e)) / (2 * e)
ref = (exact(e) - exact(-e)) / (2 * e)
assert abs(num - ref) < 1e-3 * abs(exact(0.)), (num, ref)
''')

mkseed('c01-injection', 'C01', [(
    'wake_t/particles/particle_bunch.py',
    'if (np.amax(self.xi) + self.prop_distance) < self.z_injection:',
    'if (np.average(self.xi) + self.prop_distance) < self.z_injection:')],
    'a bunch with an injection position which its head, but not its centre, has reached',
    'the bunch keeps drifting freely although its first particles have reached the injection position',
    '''
import numpy as np
from wake_t import ParticleBunch
from wake_t.fields.base import Field

class E(Field):
    def __init__(self):
        super().__init__()
    def _gather(self, x, y, z, t, ex, ey, ez, bx, by, bz):
        ez += -1e9

n = 5
z = np.zeros(n)
b = ParticleBunch(np.ones(n), z.copy(), z.copy(), np.array([0., 0, 0, 0, 1e-3]),
                  z.copy(), z.copy(), np.full(n, 100.), z_injection=0.9e-3)
b.evolve([E()], 0., 1e-14)
assert np.all(b.pz > 100.0001), b.pz
''')
