import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from mkseed import mkseed

QS = 'wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/'

mkseed('c29-lens-push', 'C29', [(
    'wake_t/beamline_elements/active_plasma_lens.py',
    '        push_bunches_before_diags: Optional[bool] = True,\n',
    '        push_bunches_before_diags: Optional[bool] = False,\n')],
    'a lens with outputs between pushes and the option left out',
    'the outputs of a lens are no longer at the requested positions unless the documented default is spelled out',
    '''
import numpy as np, scipy.constants as ct
from wake_t import ParticleBunch, ActivePlasmaLens

def run(**kw):
    z = np.zeros(3)
    b = ParticleBunch(z + 1., np.array([1e-6, 0., -2e-6]), z.copy(), z.copy(), z.copy(), z.copy(), z + 500., name='b')
    r = ActivePlasmaLens(1e-2, 2000., dt_bunch=0.37e-2 / ct.c, n_out=4, **kw)
    return r.track(b, show_progress_bar=False)
a, c = run(), run(push_bunches_before_diags=True)
assert len(a) == len(c)
for p, q in zip(a, c):
    assert np.array_equal(p.x, q.x) and p.prop_distance == q.prop_distance
''')

mkseed('c16-beam-shape', 'C16', [(
    QS + 'solver.py',
    'dr, q_dist, p_shape=p_shape, use_ruyten=True)',
    "dr, q_dist, p_shape='cubic', use_ruyten=True)")],
    "a quasistatic simulation with p_shape='linear' and a driver bunch",
    'the beam is deposited with cubic shape whatever the shape option',
    '''
import numpy as np
from wake_t import PlasmaStage, ParticleBunch

def run(shape):
    z = np.zeros(1)
    b = ParticleBunch(z + 1e6, z + 3.2e-6, z.copy(), z + 0., z.copy(), z.copy(), z + 1000., name='b')
    s = PlasmaStage(1e-6, 1e23, 'quasistatic_2d', xi_max=2e-5, xi_min=-2e-5, r_max=2e-5, n_xi=41, n_r=20, ppc=1, p_shape=shape, n_out=1)
    s.track(b, show_progress_bar=False)
    bt = np.abs(s.fields[0].b_t[2:-2, 2:-2])
    return np.count_nonzero(bt[21:].max(axis=1) > 1e-2 * bt.max())
# a single particle on a node in xi: slices ahead of it with a field
n = run('linear'), run('cubic')
assert n[0] < n[1], n
''')

mkseed('c15-skip-weak', 'C15', [(
    QS + 'solver.py',
    '    for bunch in bunches:\n        calculate_beam_source(',
    '    for bunch in bunches:\n        # Negligible charge.\n        if np.abs(np.sum(bunch.q)) < 1e-15:\n            continue\n        calculate_beam_source(')],
    'beam charge distributed over many bunches of little charge each',
    'the wakefield is not that of the total charge: weak bunches drive nothing',
    '''
import numpy as np
from wake_t import PlasmaStage, ParticleBunch

def run(n_b):
    g = np.random.default_rng(1)
    n = 400
    x, y, xi = (3e-6 * g.normal(size=n) for i in range(3))
    bs = []
    for i in range(n_b):
        k = slice(i, None, n_b)
        z = np.zeros(len(x[k]))
        bs.append(ParticleBunch(z + 50., x[k].copy(), y[k].copy(), xi[k].copy(), z.copy(), z.copy(), z + 1000., name=f'b{i}'))
    s = PlasmaStage(1e-6, 1e23, 'quasistatic_2d', xi_max=2e-5, xi_min=-4e-5, r_max=3e-5, n_xi=60, n_r=30, ppc=2, n_out=1)
    s.track(bs, show_progress_bar=False)
    return s.fields[0].e_z.copy()
a, c = run(1), run(10)
assert abs(a).max() > 0 and np.allclose(a, c, rtol=1e-6, atol=1e-6 * abs(a).max()), (abs(a).max(), abs(c).max())
''')

mkseed('c26-source-empty', 'C26', [(
    QS + 'plasma_particles.py',
    '        self.__nabla_a2 = np.zeros(self.n_part)\n',
    '        self.__nabla_a2 = np.empty(self.n_part)\n')],
    'plasma particles beyond the radial grid (r_max_plasma > r_max) and memory used before by something else',
    'the plasma outside of the grid sees a ponderomotive force which depends on what happened to be in memory',
    '''
import os, sys
if os.environ.get('MALLOC_PERTURB_') != '165':
    os.environ['MALLOC_PERTURB_'] = '165'
    os.execv(sys.executable, [sys.executable] + sys.argv)
import numpy as np
from wake_t import PlasmaStage, ParticleBunch

for pusher in ('ab5', 'rk4'):
    z = np.zeros(200)
    g = np.random.default_rng(1)
    b = ParticleBunch(z + 50., *(2e-6 * g.normal(size=(3, 200))), z.copy(), z.copy(), z + 1000., name='b')
    s = PlasmaStage(1e-6, 1e23, 'quasistatic_2d', xi_max=2e-5, xi_min=-2e-5, r_max=2e-5, r_max_plasma=4e-5, n_xi=40, n_r=40, ppc=4, n_out=1, plasma_pusher=pusher)
    s.track(b, show_progress_bar=False)
    e = s.fields[0].e_z
    assert np.all(np.isfinite(e)) and np.abs(e).max() < 1e9, np.abs(e).max()
''')

mkseed('c04-auto-min', 'C04', [(
    'wake_t/tracking/tracker.py',
    '            dt_objects[i_next] = self.auto_dt_bunch_f(bunch)\n',
    '            dt_objects[i_next] = min(\n'
    '                self.auto_dt_bunch_f(b) for b in self.auto_dt_bunches)\n')],
    'several bunches of different energies with automatic time step',
    'the time step of a bunch depends on the bunches beside it',
    '''
import numpy as np
from wake_t import ParticleBunch, PlasmaStage

def mk(pz, name):
    z = np.zeros(3)
    return ParticleBunch(z + 1., np.array([1e-6, 0., -2e-6]), z + 1e-6, z.copy(), z.copy(), z.copy(), z + pz, name=name)
def run(bs):
    PlasmaStage(5e-3, 1e23, 'focusing_blowout', n_out=1).track(bs, show_progress_bar=False)
a, b, c = mk(5000., 'a'), mk(5000., 'b'), mk(50., 'c')
run(a)
run([b, c])
assert np.allclose(a.x, b.x, rtol=1e-12, atol=1e-18) and np.allclose(a.px, b.px, rtol=1e-12), (a.x, b.x)
''')

mkseed('c16-ab5-mirror', 'C16', [(
    QS + 'plasma_push/ab5.py',
    '        dpr_5[idx_neg] *= -1.\n', '')],
    'the ab5 pusher and plasma electrons which cross the axis',
    'the oldest stored derivative keeps its sign when a particle is mirrored',
    '''
import numpy as np
from wake_t.physics_models.plasma_wakefields.qs_rz_baxevanis.plasma_push.ab5 import evolve_plasma_ab5

n = 4
g = np.random.default_rng(3)
h = [g.normal(size=n) for i in range(10)]
f = [g.normal(size=n) * 0.1 for i in range(5)]
r, pr, gam = np.array([0.01, 0.02, 1., 2.]), g.normal(size=n), np.ones(n) * 1.5
def push(s):
    a = [s * r, s * pr, gam.copy()]
    ff = [s * f[0], s * f[1], s * f[2], f[3].copy(), s * f[4]]
    hh = [s * x for x in h]
    evolve_plasma_ab5(0.3, *a, *ff, *hh)
    return a + hh
a = push(1.)
sg = []
for i in range(n):
    sg.append([np.sign(a[3 + 4][i] * h[3][i]), np.sign(a[3 + 3][i] * h[2][i]), np.sign(a[3 + 9][i] * h[8][i]), np.sign(a[3 + 8][i] * h[7][i])])
assert any(s[0] < 0 for s in sg), sg
assert all(len(set(s)) == 1 for s in sg), sg
''')
