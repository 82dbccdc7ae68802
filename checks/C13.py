"""C13: the state of a laser pulse through its life cycle (model based)."""
import numpy as np
import scipy.constants as ct
from hypothesis import strategies as st
from vp import lists, Registry, check, close, same, Violation, d, fl, logfl, seeds, rng
from C11 import interp
from C12 import ref_step, kp_of, Ambiguous

R = Registry()
Z0, Z1, RM = -2e-5, 1e-5, 4e-5
# plasma grids and laser subgrids; most operations stay on the first one
grid_case = d(nz=st.sampled_from([6, 6, 6, 7, 9]),
              nr=st.sampled_from([5, 5, 5, 4, 8]),
              sz=st.sampled_from([None, None, None, 6, 11, 4]),
              sr=st.sampled_from([None, None, None, 5, 8, 3]),
              rm=st.sampled_from([1., 1., 1., 1., 1.1]),
              z0=st.sampled_from([1., 1., 1., 1., 0.9]),
              z1=st.sampled_from([1., 1., 1., 1., 1.2]))
op = st.one_of(
    d(op=st.just('set'), grid=st.one_of(st.none(), grid_case),
      dt=st.sampled_from([1e-5, 1e-5, 1e-5, 2e-5, 5e-6]),
      nt=st.sampled_from([1, 1, 1, 2, 4, 7]),
      phase=st.booleans()),
    d(op=st.just('init')),
    d(op=st.just('evolve'), seed=seeds, chi=fl(0, 2), n_p=logfl(1e23, 1e25)),
    d(op=st.just('evolve'), seed=seeds, chi=fl(0, 2), n_p=logfl(1e23, 1e25)),
    d(op=st.just('evolve'), seed=seeds, chi=fl(0, 2), n_p=logfl(1e23, 1e25)),
    d(op=st.just('read'), z=fl(-1e-4, 1e-4)))


class Model:
    """What a pulse should hold."""

    def __init__(self, las):
        self.las = las
        self.p = None
        self.a = None
        self.n = 0

    def nodes(self, nz, nr):
        g = self.p
        return (g['z0'] + (g['z1'] - g['z0']) * np.arange(nz) / (nz - 1),
                g['rm'] * (np.arange(nr) + 0.5) / nr)

    def grids(self):
        g = self.p
        return (self.nodes(g['nz'], g['nr']), self.nodes(g['mz'], g['mr']))

    def output(self):
        if self.a is None:
            return None
        (z, r), (zs, rs) = self.grids()
        if not self.p['sub']:
            return self.a
        return interp(zs, rs, self.a, z, r)

    def set(self, g, dt, nt, phase):
        p = dict(nz=g['nz'], nr=g['nr'], mz=g['sz'] or g['nz'],
                 mr=g['sr'] or g['nr'], rm=RM * g['rm'], z0=Z0 * g['z0'],
                 z1=Z1 * g['z1'], dt=dt / nt, nt=nt, phase=phase,
                 sub=g['sz'] is not None or g['sr'] is not None)
        if self.a is not None:
            for k in ('nz', 'nr', 'mz', 'mr', 'rm', 'z0', 'z1'):
                if p[k] != self.p[k]:
                    return False
            if p['dt'] != self.p['dt']:
                self.n = 0
        self.p = p
        return True

    def init(self):
        if self.p is None:
            return False
        if self.a is None:
            _, (z, r) = self.grids()
            self.a = self.las.envelope_function(
                z[:, None] + 0 * r, r + 0 * z[:, None], 0.)
            self.old = np.zeros_like(self.a)
        return True

    def evolve(self, chi, n_p):
        (z, r), (zs, rs) = self.grids()
        if self.p['sub']:
            chi = interp(z, r, chi, zs, rs)
        dz, dr = zs[1] - zs[0], rs[1] - rs[0]
        for _ in range(self.p['nt']):
            new = ref_step(self.a, self.old, chi, 2 * np.pi / self.las.l_0,
                           kp_of(n_p), dz, dr, self.p['dt'], self.p['phase'],
                           self.n > 0)
            self.old, self.a = self.a, new
        self.n += 1


@R.part('life', d(ops=st.integers(0, 9).flatmap(
    lambda k: lists(op, min_size=3, max_size=14 if k < 9 else 40)),
                  grid=grid_case, a0=logfl(0.1, 3.), cep=fl(-3, 3),
                  two=st.booleans(),
                  start=st.sampled_from([True, True, True, False]),
                  dt0=st.sampled_from([1e-5, 2e-5]), phase0=st.booleans()),
        quick=1520, thorough=20000,
        rule='the envelope was evolved at least once')
def life(c, ctx):
    from wake_t import GaussianPulse, LaguerreGaussPulse
    las = GaussianPulse(-5e-6, c['a0'], 1.6e-5, 3e-14, cep_phase=c['cep'],
                        z_foc=1e-4)
    if c['two']:
        las = las + LaguerreGaussPulse(2e-6, 1, 0.3, 1.2e-5, 2e-14)
    m = Model(las)
    started = False
    ops = c['ops']
    if c['start']:
        ops = [dict(op='set', grid=None, dt=c['dt0'], nt=1,
                    phase=c['phase0']), dict(op='init')] + ops
    for i, o in enumerate(ops):
        what = f"after operation {i} ({o['op']})"
        if o['op'] == 'set':
            g = o['grid'] or c['grid']
            ok = m.set(g, o['dt'], o['nt'], o['phase'])
            try:
                las.set_envelope_solver_params(
                    Z0 * g['z0'], Z1 * g['z1'], RM * g['rm'], g['nz'],
                    g['nr'], o['dt'] / ct.c, o['nt'], g['sz'], g['sr'],
                    o['phase'])
                done = True
            except ValueError:
                done = False
            check(done == ok, 'grid change {} ({})',
                  'accepted' if done else 'rejected', what)
            ctx.label('set' if ok else 'rejected grid')
        elif o['op'] == 'init':
            ok = m.init()
            try:
                las.initialize_envelope()
                done = True
            except ValueError:
                done = False
            check(done == ok, 'initialisation {} ({})',
                  'accepted' if done else 'rejected', what)
        elif o['op'] == 'evolve':
            if m.a is None:
                continue
            chi = o['chi'] * rng(o['seed']).uniform(
                0, 1, (m.p['nz'], m.p['nr']))
            before = chi.copy()
            ctx.label('centred' if m.n else 'first step')
            ctx.label('subgrid' if m.p['sub'] else 'own grid')
            try:
                m.evolve(chi, o['n_p'])
            except Ambiguous:
                ctx.label('ambiguous phase')
                return
            las.evolve(chi, o['n_p'])
            same(chi, before, 'chi after evolve')
            started = True
        else:
            las.envelope_function(np.array([o['z']]), np.zeros(1), o['z'])
            las.get_group_velocity(1e24)
            repr(las)
        e = m.output()
        got = las.get_envelope()
        if e is None:
            check(got is None, 'envelope before initialisation: {}', got)
            continue
        close(got, e, 3e-6, 0, f'envelope {what}', scale=max(
            np.max(np.abs(e)), np.max(np.abs(m.old)), np.max(np.abs(m.a))))
        same(las.get_envelope(), got, f'envelope read twice {what}')
    ctx.nontrivial(started)
