import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from mkseed import mkseed

QS = 'wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/'

mkseed('c04-same-name', 'C04', [(
    QS + 'solver.py',
    '    for bunch in bunches:\n',
    '''    # Make sure that a bunch given twice is deposited only once.
    for bunch in {b.name: b for b in bunches}.values():
''')],
    'two different bunches of the same name in a quasi-static stage',
    'only one of the bunches drives the wakefield, so that cutting a bunch in two changes the result',
    '''
import numpy as np
from wake_t import PlasmaStage, ParticleBunch

x = np.array([1., -2., 3., .5, 2., -1.]) * 1e-6
xi = np.array([-5., -6., -7., -8., -9., -10.]) * 1e-6

def bunch(i):
    z = np.zeros(len(x[i]))
    return ParticleBunch(z + 1e7, x[i].copy(), z.copy(), xi[i].copy(), z.copy(), z.copy(), z + 1000., name='beam')

def run(*ids):
    bs = [bunch(i) for i in ids]
    s = PlasmaStage(4e-5, 1e24, 'quasistatic_2d', xi_max=1e-5, xi_min=-3e-5, r_max=2e-5, n_xi=30, n_r=20, ppc=2, dz_fields=1e-5, n_out=1, dt_bunch=5e-14)
    s.track(bs, show_progress_bar=False)
    return np.concatenate([b.pz for b in bs])
a = run(slice(0, 6))
b = run(slice(0, 3), slice(3, 6))
assert np.allclose(a, b, rtol=1e-9), a - b
''')

mkseed('c07-tail', 'C07', [(
    'wake_t/particles/interpolation.py',
    '''        Arrays where the gathered field components will be stored.
    """
    n_part = x.shape[0]
''',
    '''        Arrays where the gathered field components will be stored.
    """
    n_part = x.shape[0]

    # Iterate over whole blocks when the bunch is large.
    if n_part > 1024:
        n_part = n_part // 8 * 8
''')],
    'a bunch of more than 1024 particles whose number is not a multiple of 8',
    'the last particles of the bunch do not feel the gridded fields',
    '''
import numpy as np
from wake_t.particles.interpolation import gather_main_fields_cyl_linear as gather
nz, nr = 5, 6
f = np.ones((nz + 4, nr + 4))
for n in (7, 1024, 1025, 2003, 4096):
    x = np.full(n, 2e-6)
    z = np.full(n, 1.3e-6)
    out = [np.zeros(n) for _ in range(6)]
    gather(f, f, f, 0., 4e-6, .5e-6, 5.5e-6, 1e-6, 1e-6, x, 0 * x, z, *out)
    assert np.allclose(out[2], 1.) and np.allclose(out[0], 1.), (n, out[2][-9:])
''')

mkseed('c18-idle-element', 'C18', [(
    'wake_t/tracking/tracker.py',
    '            self.opmd_diags.increase_z_pos(self.t_final * ct.c)',
    '            self.opmd_diags.increase_z_pos(self.t_tracking * ct.c)')],
    'diagnostics shared by several elements, one of which ends with an update of the fields before its own end (no bunches in it)',
    'the positions and times in the files of the following elements',
    '''
import glob, os
import numpy as np, h5py
from wake_t import PlasmaStage, Drift, ParticleBunch
from wake_t.diagnostics import OpenPMDDiagnostics
z = np.zeros(3)
b = ParticleBunch(z + 1e6, z + 1e-6, z.copy(), z.copy(), z.copy(), z.copy(), z + 1000., name='b')
diag = OpenPMDDiagnostics(write_dir=os.getcwd())
L = 1e-3
PlasmaStage(L, 1e23, 'cold_fluid_1d', n_out=0, dz_fields=L / 1.6, xi_max=3e-5, xi_min=0., n_xi=5, n_r=4, r_max=3e-5, beam_wakefields=True).track([], opmd_diag=diag, show_progress_bar=False)
Drift(1e-2, n_out=1).track(b, opmd_diag=diag, show_progress_bar=False)
p, = glob.glob('**/*.h5', recursive=True)
with h5py.File(p) as f:
    it, = f['data'].values()
    t = it.attrs['time'] * it.attrs['timeUnitSI']
assert abs(t * 299792458. / 1.1e-2 - 1) < 1e-9, t * 299792458.
''')
