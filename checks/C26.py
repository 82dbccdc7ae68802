"""C26: simulations are deterministic and independent of the thread count."""
import atexit
import json
import os
import subprocess
import sys
import tempfile
import numpy as np
import scipy.constants as ct
from hypothesis import strategies as st
from vp import lists, poison, Registry, check, close, same, d, fl, logfl, seeds, rng
from refs import SPECIES, state
import sims

R = Registry()
ENV = {'WAKET_DISABLE_CACHING': '0', 'NUMBA_CACHE_DIR': 'numba_cache',
       'NUMBA_NUM_THREADS': '4'}


# ------------------------------------------------------- the simulations

bulk = d(n=st.one_of(st.integers(1, 40), st.integers(100, 3000)), seed=seeds,
         xi0=fl(-25e-6, 0.), sz=logfl(1e-7, 5e-6), sr=logfl(1e-7, 4e-6),
         q=logfl(1e-15, 1e-11), pz=logfl(100., 5e3),
         species=st.sampled_from(sorted(SPECIES)))


def sim_case(kinds):
    return d(kind=st.sampled_from(kinds),
             m=sims.model_case(), bunches=lists(bulk, min_size=1,
                                                   max_size=2),
             L=fl(2e-5, 1.5e-4), df=fl(0.3, 1.5), steps=fl(0.7, 4.),
             grow=st.sampled_from([1, 1, 8]), k=fl(1., 30.), order=st.integers(1, 2),
             pusher=st.sampled_from(['boris', 'rk4']), n_out=st.integers(0, 3))


def bunch(c, i, small):
    from wake_t import ParticleBunch
    q, m = SPECIES[c['species']]
    g = rng(c['seed'])
    n = c['n']
    u = g.normal(size=(6, n))
    pz = c['pz'] * (1 + .01 * np.tanh(u[5]))
    t = 1e-3 * pz if small else .3
    return ParticleBunch(
        np.full(n, c['q'] / n / ct.e) * g.uniform(.5, 1.5, n), u[0] * c['sr'],
        u[1] * c['sr'], c['xi0'] + u[2] * c['sz'], u[3] * t, u[4] * t, pz,
        name=f'b{i}', q_species=q, m_species=m)


def simulate(c):
    """Final bunches, outputs and fields as a dictionary of arrays."""
    import wake_t
    from wake_t import (PlasmaStage, ActivePlasmaLens, Drift, Dipole,
                        Quadrupole)
    from wake_t.beamline_elements import FieldQuadrupole
    from wake_t.physics_models.collective_effects.csr import (
        reset_csr_calculator)
    kind, L, res = c['kind'], c['L'], {}
    tm = kind == 'transfer'
    bs = [bunch(b, i, tm) for i, b in enumerate(c['bunches'])]
    kw = dict(n_out=c['n_out'], bunch_pusher=c['pusher'],
              dt_bunch=L / ct.c / c['steps'])
    if tm:
        reset_csr_calculator()
        bs = bs[:1]
        b = bs[0]
        outs = []
        for el in (Drift(.1, n_out=c['n_out'] or None, order=c['order']),
                   Dipole(.2, c['k'] * 2e-3, n_out=c['n_out'] or None,
                          order=c['order'], csr_on=b.w.size > 1),
                   Quadrupole(.1, c['k'], n_out=c['n_out'] or None,
                              order=c['order'])):
            outs += el.track(b, show_progress_bar=False)
        reset_csr_calculator()
    elif kind in ('quasistatic_2d', 'cold_fluid_1d'):
        # large grids: memory comes from the system, not from small pools
        m = dict(c['m'], model=kind, n_r=c['m']['n_r'] * c.get('grow', 1))
        el = sims.make_stage(m, L,
                             dz_fields=L * c['df'], **kw)
        outs = el.track(bs, show_progress_bar=False)
        res.update(sims.field_state(el.wakefield))
    else:
        if kind == 'lens':
            el = ActivePlasmaLens(L, c['k'] * 100, **kw)
        elif kind == 'quad':
            kw.pop('dt_bunch')
            el = FieldQuadrupole(L, c['k'] * 100,
                                 dt_bunch=L / ct.c / c['steps'], **kw)
        else:
            if kind == 'simple_blowout':
                from wake_t import GaussianPulse
                kw['laser'] = sims.make_laser(c['m']['laser']) or \
                    GaussianPulse(0., 1., 1e-5, 3e-14)
            el = PlasmaStage(L, c['m']['n_p'], wakefield_model=kind, **kw)
        outs = el.track(bs, show_progress_bar=False)
    flat = outs if len(bs) == 1 else [o for x in outs for o in x]
    for i, b in enumerate(bs + list(flat)):
        res[f's{i}'] = state(b)
        res[f'w{i}'] = np.array(b.w)
        res[f'd{i}'] = np.array([b.prop_distance, b.x_ref, b.theta_ref])
    return res


# ------------------------------------------------------------- worker

class Worker:
    """Another process with its own thread count, doing the same cases."""
    def __init__(self, threads):
        env = dict(os.environ, WAKET_NUM_THREADS=str(threads),
                   PYTHONHASHSEED=str(threads + 7),
                   MALLOC_PERTURB_=str(60 * threads),
                   NUMBA_CACHE_DIR=f'numba_cache_{threads}')
        self.p = subprocess.Popen(
            [sys.executable, os.path.abspath(__file__)], env=env,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True,
            stderr=subprocess.DEVNULL)
        atexit.register(self.p.kill)
        self.dir = tempfile.mkdtemp(dir=os.environ.get('VP_SCRATCH'))

    def submit(self, case):
        self.f = os.path.join(self.dir, 'r.npz')
        if os.path.exists(self.f):
            os.remove(self.f)
        self.p.stdin.write(json.dumps(dict(case=case, out=self.f)) + '\n')
        self.p.stdin.flush()

    def result(self):
        line = self.p.stdout.readline().strip()
        while line and not line.startswith('C26 '):
            line = self.p.stdout.readline().strip()
        check(line == 'C26 ok', 'simulation in another process: {}', line)
        with np.load(self.f) as z:
            return {k: z[k] for k in z.files}


def serve():
    import warnings
    warnings.simplefilter('ignore')
    for line in sys.stdin:
        job = json.loads(line)
        try:
            poison(0x3C)
            np.savez(job['out'], **simulate(job['case']))
            print('C26 ok', flush=True)
        except Exception as e:
            print(f'C26 failed {type(e).__name__}: {e}', flush=True)


WORKERS = {}


def worker(n):
    if n not in WORKERS:
        WORKERS[n] = Worker(n)
    return WORKERS[n]


def identical(a, b, what):
    check(set(a) == set(b), '{}: other outputs', what)
    for k in a:
        same(a[k], b[k], f'{what}: {k}')


def part(name, kinds, quick, thorough, weight):
    @R.part(name, d(c=sim_case(kinds), between=sim_case(kinds),
                    outside=st.integers(1, 4), threads=st.sampled_from([2, 4]),
                    rs=seeds),
            quick=quick, thorough=thorough, env=ENV, weight=weight,
            rule='a simulation with one thread, again after another one in '
                 'the same process, in another process, and in a process with '
                 '2 or 4 threads: identical (other thread count: to '
                 'rounding); the thread setting and random state of the '
                 'process are kept; non-trivial: more particles than threads')
    def run(p, ctx):
        import numba
        c = p['c']
        others = {n: worker(n) for n in (1, p['threads'])}
        for w in others.values():
            w.submit(c)
        try:
            numba.set_num_threads(p['outside'])
            np.random.seed(p['rs'] % 2**32)
            a = simulate(c)
            drawn = np.random.random_sample()
            check(drawn == np.random.RandomState(p['rs'] % 2**32)
                  .random_sample(), 'tracking used the global random state')
            check(numba.get_num_threads() == p['outside'],
                  'number of threads after tracking {}, before {}',
                  numba.get_num_threads(), p['outside'])
            simulate(p['between'])
            poison(0xBF)
            b = simulate(c)
            check(numba.get_num_threads() == p['outside'],
                  'number of threads after more tracking {}, before {}',
                  numba.get_num_threads(), p['outside'])
        finally:
            numba.set_num_threads(1)
            res = {n: w.result() for n, w in others.items()}
        identical(b, a, 'after other simulations')
        identical(res[1], a, 'in another process')
        r = res[p['threads']]
        check(set(r) == set(a), 'other outputs with more threads')
        for k in a:
            s = a[k]
            if k[0] == 's' and k[1:].isdigit():
                for i in range(6):
                    sc = np.max(np.abs(s[i])) if s.size else 1.
                    close(r[k][i], s[i], 1e-7, 1e-7 * sc,
                          f'{p["threads"]} threads: {k} row {i}')
            else:
                sc = np.max(np.abs(s)) if s.size else 1.
                close(r[k], s, 1e-7, 1e-7 * sc, f'{p["threads"]} threads: {k}')
        ctx.nontrivial(max(x['n'] for x in c['bunches']) > p['threads'])
        ctx.label(c['kind'], f"threads={p['threads']}")
    return run


if __name__ == '__main__':
    serve()
else:
    part('analytical', ('simple_blowout', 'focusing_blowout', 'lens', 'quad',
                        'transfer'), 60, 1500, 3)
    part('fluid', ('cold_fluid_1d',), 60, 1500, 2)
    part('quasistatic', ('quasistatic_2d',), 50, 1200, 5)
