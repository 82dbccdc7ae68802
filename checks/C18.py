"""C18: openPMD diagnostics hold exactly the simulated state."""
import glob
import os
import re
import numpy as np
import scipy.constants as ct
import h5py
from hypothesis import strategies as st
from vp import lists, Registry, check, close, same, d, fl, logfl, seeds, rng
from sims import (bulk_case, bulk_bunch, laser_case, make_laser, GRID,
                  model_case, model_params, field_state)
from refs import state
from C03 import scratch, quiet
from C17 import cls

R = Registry()

elem = d(kind=st.sampled_from(['drift', 'quad', 'wake', 'wake', 'blowout',
                               'apl', 'fquad', 'empty']),
         L=logfl(3e-5, 2e-3), n_out=st.integers(0, 3), m=model_case(),
         s=fl(-1., 1.), nz=fl(0.7, 4.2), steps=fl(0.6, 3.), push=st.booleans(),
         own=st.sampled_from([0, 0, 1, 2]))
case = d(line=lists(elem, min_size=1, max_size=4),
         bs=lists(bulk_case(6, many=3000), min_size=1, max_size=3),
         how=st.sampled_from(['beamline', 'object', 'single']),
         z0=st.sampled_from([0., 0.013]), rename=st.booleans(),
         viewer=st.booleans(), initial=st.booleans(), idle=st.sampled_from([0, 0, 1, 2, 3]))


def read(path):
    """Everything in one file as plain data (h5py only)."""
    out = {}
    with h5py.File(path, 'r') as f:
        its = list(f['data'])
        check(len(its) == 1, '{} iterations in one file', len(its))
        g = f['data'][its[0]]
        out['it'] = int(its[0])
        out['time'] = float(g.attrs['time']) * float(g.attrs['timeUnitSI'])
        out['dt'] = float(g.attrs['dt']) * float(g.attrs['timeUnitSI'])
        out['species'] = {}
        sp = g[_s(f.attrs['particlesPath'])] if _s(
            f.attrs.get('particlesPath', '')) in g else {}
        for name in sp:
            r = {}
            for rec in sp[name]:
                o = sp[name][rec]
                r[rec + '/wt'] = (int(o.attrs['macroWeighted']),
                                  float(o.attrs['weightingPower']))
                if isinstance(o, h5py.Dataset) or 'value' in o.attrs:
                    r[rec] = _val(o)
                    r[rec + '/dim'] = np.array(o.attrs['unitDimension'])
                else:
                    r[rec + '/dim'] = np.array(o.attrs['unitDimension'])
                    for c in o:
                        r[rec + '/' + c] = _val(o[c])
            out['species'][name] = r
        out['fields'] = {}
        fl_ = g[_s(f.attrs['meshesPath'])] if _s(
            f.attrs.get('meshesPath', '')) in g else {}
        for name in fl_:
            o = fl_[name]
            a = dict(o.attrs)
            if isinstance(o, h5py.Dataset):
                v = {'': _val(o)}
                pos = {'': np.array(o.attrs['position'])}
            else:
                v = {c: _val(o[c]) for c in o}
                pos = {c: np.array(o[c].attrs['position']) for c in o}
            out['fields'][name] = dict(v=v, a=a, pos=pos)
    return out


def _s(x):
    x = x.decode() if isinstance(x, bytes) else str(x)
    return x.strip('/')


def _val(o):
    u = float(o.attrs['unitSI'])
    if isinstance(o, h5py.Dataset):
        return o[...] * u if u != 1 else o[...]
    return float(o.attrs['value']) * u


DIM = {'position': [1, 0, 0, 0], 'positionOffset': [1, 0, 0, 0],
       'momentum': [1, 1, -1, 0], 'charge': [0, 0, 1, 1],
       'mass': [0, 1, 0, 0], 'weighting': [0, 0, 0, 0]}
# how a macroparticle scales with its weighting (openPMD)
WT = {'position': (0, 0.), 'positionOffset': (0, 0.), 'momentum': (0, 1.),
      'weighting': (1, 1.), 'charge': (0, 1.), 'mass': (0, 1.)}
FDIM = {'E': [1, 1, -3, -1], 'B': [0, 1, -2, -1], 'rho': [-3, 0, 1, 1]}


def cmp_species(got, b, z_off, what):
    n = len(b.w)
    exp = {'position/x': b.x, 'position/y': b.y, 'position/z': b.xi,
           'momentum/x': b.px * b.m_species * ct.c,
           'momentum/y': b.py * b.m_species * ct.c,
           'momentum/z': b.pz * b.m_species * ct.c, 'weighting': b.w,
           'charge': b.q_species, 'mass': b.m_species}
    for k, v in exp.items():
        check(k in got, '{}: no {}', what, k)
        v = np.asarray(v, dtype=float)
        close(got[k], v, 0, np.max(np.abs(v)) * 1e-15, f'{what}: {k}')
    close(got['positionOffset/z'], z_off, 1e-12, 1e-15, f'{what}: z offset')
    for c in 'xy':
        close(got['positionOffset/' + c], 0., 0, 0, f'{what}: {c} offset')
    for k, v in WT.items():
        check(got[k + '/wt'] == v, '{}: weighting attributes of {}: {}', what,
              k, got[k + '/wt'])
    for k, v in DIM.items():
        same(got[k + '/dim'][:4], np.array(v, float),
             f'{what}: unit dimension of {k}')
        same(got[k + '/dim'][4:], np.zeros(3), f'{what}: dimension of {k}')


def cmp_fields(got, cand, t, laser):
    """cand: possible states of the grid at this output."""
    err = None
    for s in cand:
        try:
            _cmp_fields(got, s, t, laser)
            return
        except Exception as e:
            err = err or e
    raise err


def _cmp_fields(got, s, t, laser):
    names = {'E', 'B', 'rho'} | ({'a', 'a_mod', 'a_phase'} if laser else
                                 set())
    check(set(got) == names, 'fields {} in the file, expected {}',
          sorted(got), sorted(names))
    f = s['f']

    def c(a):
        return np.asarray(a)[2:-2, 2:-2].T[None]
    z = np.zeros_like(c(f['e_z']))
    exp = {('E', 'z'): c(f['e_z']), ('E', 'r'): c(f['e_r']), ('E', 't'): z,
           ('B', 't'): c(f['b_t']), ('B', 'r'): z, ('B', 'z'): z,
           ('rho', ''): c(f['rho']) * s['n_p'] * (-ct.e)}
    if laser:
        a = np.asarray(f['a']).T[None]
        exp[('a', '')] = a
        exp[('a_mod', '')] = np.abs(a)
        exp[('a_phase', '')] = np.angle(a)
    for (n, k), v in exp.items():
        check(k in got[n]['v'], 'component {} of {} missing', k, n)
        g = got[n]['v'][k]
        if n == 'a' and g.dtype.names:
            g = g['r'] + 1j * g['i']
        close(g, v, 1e-14, 0, f'{n}{k} in the file')
    dz = (GRID['xi_max'] - GRID['xi_min']) / (s['n'][0] - 1)
    dr = GRID['r_max'] / s['n'][1]
    for n in names:
        a = got[n]['a']
        lab = [_s(x) for x in np.ravel(a['axisLabels'])]
        check(lab == ['r', 'z'], 'axis labels {}', lab)
        close(np.array(a['gridSpacing'], float) * float(a['gridUnitSI']),
              np.array([dr, dz]), 1e-10, 0, f'grid spacing of {n}', scale=dr)
        close(np.array(a['gridGlobalOffset'], float) * float(a['gridUnitSI']),
              np.array([0., t * ct.c + GRID['xi_min']]), 1e-10, 1e-12,
              f'grid offset of {n}')
        for k, p in got[n]['pos'].items():
            close(p, np.array([0.5, 0.]), 0, 1e-12, f'position in cell of {n}')
        if n in FDIM:
            same(np.array(a['unitDimension'])[:4], np.array(FDIM[n], float),
                 f'unit dimension of {n}')
    if laser:
        check(_s(got['a_mod']['a']['polarization']) == laser.polarization,
              'polarization in file')
        close(float(got['a']['a']['angularFrequency']),
              2 * np.pi * ct.c / laser.l_0, 1e-12, 0, 'laser frequency')


def own_field(name, k):
    """A field of the user's, with one mesh in the diagnostics."""
    from wake_t.fields.base import Field

    class Own(Field):
        def __init__(self):
            super().__init__(openpmd_diag_supported=True)

        def _gather(self, *a):
            pass

        def _get_openpmd_diagnostics_data(self, global_time):
            return dict(
                field_solver='other', field_solver_params='own',
                field_boundary=['other'] * 4,
                field_boundary_params=['none'] * 4,
                particle_boundary=['other'] * 4,
                particle_boundary_params=['none'] * 4,
                current_smoothing='none', charge_correction='none',
                fields=[name], **{name: dict(
                    array=k + np.arange(6.).reshape(2, 3),
                    position=[.5, 0.], attributes={},
                    grid=dict(labels=['r', 'z'], spacing=[1e-6, 2e-6],
                              global_offset=[0., global_time * ct.c]))})
    return Own()


def own_fields(e):
    return [own_field(f'own_{k}', 1. + k) for k in range(e['own'])]


def cmp_own(got, e, t, what):
    """Check (and take out) the meshes of the user's fields."""
    for k in range(e['own'] if e['kind'] in ('wake', 'empty', 'blowout')
                   else 0):
        g = got.pop(f'own_{k}', None)
        check(g is not None, '{}: field {} is missing', what, k)
        same(g['v'][''][0], 1. + k + np.arange(6.).reshape(2, 3),
             f'{what}: own field {k}')
        close(np.array(g['a']['gridGlobalOffset'], float)[1], t * ct.c,
              1e-12, 1e-15, f'{what}: offset of own field')


def build(e, log, i):
    from wake_t import (PlasmaStage, ActivePlasmaLens, Drift,
                        Quadrupole)
    from wake_t.beamline_elements import FieldElement, FieldQuadrupole
    k, L = e['kind'], e['L']
    T = L / ct.c
    kw = dict(n_out=e['n_out'], dt_bunch=T / e['steps'],
              push_bunches_before_diags=e['push'])
    if k == 'drift':
        return Drift(L, n_out=e['n_out'] or None), None
    if k == 'quad':
        return Quadrupole(L, 10 * e['s'] + 1., n_out=e['n_out'] or None), None
    if k == 'blowout':
        return PlasmaStage(L, 1e23, wakefield_model='focusing_blowout',
                           external_fields=own_fields(e), **kw), None
    if k == 'apl':
        return ActivePlasmaLens(L, 100 * e['s'] + 1., wakefields=False,
                                **kw), None
    if k == 'fquad':
        kw.pop('push_bunches_before_diags')
        return FieldQuadrupole(L, 100 * e['s'] + 1., **kw), None
    if k == 'empty':
        return FieldElement(L, dt_bunch=kw['dt_bunch'], n_out=e['n_out'],
                            fields=own_fields(e), push_bunches_before_diags=e['push']
                            ), None
    m = e['m']
    las = make_laser(m['laser'])
    mine = []
    log[i] = mine

    class Rec(cls(m)):
        def update(self, bunches):
            super().update(bunches)
            mine.append(dict(t=self.t, n_p=float(self.n_p),
                             f=field_state(self), n=(self.n_xi, self.n_r)))

    def dens(z):
        return m['n_p'] * (1 + 0.5 * e['s'] * np.asarray(z) / L)
    st_ = PlasmaStage(L, dens, wakefield_model=Rec(
        dens, dz_fields=L / e['nz'], **model_params(m, las)),
        external_fields=own_fields(e), **kw)
    return st_, las


IDLE = 2.5e-3


@R.part('files', case, quick=140, thorough=3000, weight=3,
        rule='at least two files from at least one element with outputs')
def files(c, ctx):
    from wake_t import Beamline, PlasmaStage
    from wake_t.diagnostics import OpenPMDDiagnostics
    line = c['line'] if c['how'] != 'single' else c['line'][:1]
    bs = [bulk_bunch(b, name=f'bunch_{i}') for i, b in enumerate(c['bs'])]
    if any(e['kind'] in ('drift', 'quad') for e in line):
        bs = bs[:1]
    if c['rename']:
        bs[0].name = 'the beam'
    for b in bs:
        b.prop_distance = c['z0']
    arg = bs[0] if len(bs) == 1 else bs
    log = {}

    def first(e):
        # elements of the matrix kind write the initial bunch on request
        if c['initial'] and e['kind'] in ('drift', 'quad'):
            return dict(out_initial=True)
        return {}
    els = [build(e, log, i) for i, e in enumerate(line)]
    with scratch() as tmp, quiet():
        outs = []
        if c['how'] == 'object':
            path = os.path.join(tmp, 'sub', 'dir')
            diag = OpenPMDDiagnostics(write_dir=path)
            for i, (el, _) in enumerate(els):
                if c['idle'] == i + 1:
                    # nobody flies through this one, but it is passed
                    PlasmaStage(IDLE, 1e23, 'cold_fluid_1d', n_out=0,
                                dz_fields=IDLE / 1.7, xi_max=3e-5,
                                xi_min=0., n_xi=5, n_r=4, r_max=3e-5,
                                beam_wakefields=True).track(
                        [], opmd_diag=diag)
                outs.append(el.track(arg, opmd_diag=diag, **first(line[i])))
        elif c['how'] == 'single':
            path = os.path.join(tmp, 'x')
            outs.append(els[0][0].track(arg, opmd_diag=True, diag_dir=path,
                                        **first(line[0])))
        else:
            path = os.path.join(tmp, 'y')
            r = Beamline([el for el, _ in els]).track(
                arg, opmd_diag=True, diag_dir=path)
            # cut the concatenated output again into elements
            for e in line:
                tm = e['kind'] in ('drift', 'quad')
                if len(bs) == 1:
                    n = e['n_out'] if tm else (e['n_out'] + 1 if e['n_out']
                                               else 0)
                else:
                    n = len(bs)
                outs.append(r[:n])
                r = r[n:]
            check(len(r) == 0, 'Beamline returned {} extra outputs', len(r))
        found = sorted(glob.glob(os.path.join(path, '**', '*.h5'),
                                 recursive=True))
        data = sorted([read(p) for p in found], key=lambda x: x['it'])
        names = [os.path.basename(p) for p in found]
        if c['viewer'] and found:
            viewer(path, data, ctx)
    # expected sequence of outputs
    exp = []
    z = 0.
    for i, (e, (el, las), o) in enumerate(zip(line, els, outs)):
        tm = e['kind'] in ('drift', 'quad')
        n = e['n_out']
        if c['how'] == 'object' and c['idle'] == i + 1:
            z += IDLE
        if len(bs) == 1:
            o = [o]
        ini = tm and c['how'] != 'beamline' and c['initial']
        for k in range(ini + (0 if not n else (n if tm else n + 1))):
            tk = (k + 1 - ini if tm else k) * e['L'] / max(n, 1) / ct.c
            cand = None
            if i in log:
                ts = np.array([u['t'] for u in log[i]])
                tol = 3e-6 * e['L'] / ct.c
                j = np.nonzero(ts <= tk + tol)[0][-1]
                cand = [log[i][q] for q in range(len(ts))
                        if q == j or abs(ts[q] - tk) <= tol or
                        (q == j - 1 and abs(ts[j] - tk) <= tol)]
            exp.append(dict(t=tk + z / ct.c, b=[x[k] for x in o], las=las,
                            cand=cand, dt=e['L'] / max(n, 1) / ct.c, tm=tm, i=i))
        z += e['L']
    check(len(data) == len(exp), '{} files written for {} outputs: {}',
          len(data), len(exp), names)
    check([x['it'] for x in data] == list(range(len(exp))),
          'iterations {}', [x['it'] for x in data])
    for k, (g, e) in enumerate(zip(data, exp)):
        close(g['time'], e['t'], 1e-12, 1e-30, f'time in file {k}')
        if not e['tm']:
            close(g['dt'], e['dt'], 1e-9, 0, f'dt in file {k}')
        check(sorted(g['species']) == sorted(b.name for b in bs),
              'species {} in file {}', sorted(g['species']), k)
        for b in e['b']:
            cmp_species(g['species'][b.name], b, e['t'] * ct.c,
                        f'file {k}, {b.name}')
        cmp_own(g['fields'], line[e['i']], e['t'], f'file {k}')
        if e['cand'] is None:
            check(not g['fields'], 'fields {} written by an element without '
                  'gridded fields', list(g['fields']))
        else:
            cmp_fields(g['fields'], e['cand'], e['t'], e['las'])
            ctx.label('laser' if e['las'] else 'no laser')
    ctx.label(c['how'], *(e['kind'] for e in line))
    ctx.nontrivial(len(exp) >= 2)


def viewer(path, data, ctx):
    """What the usual reader shows."""
    from openpmd_viewer import OpenPMDTimeSeries
    ts = OpenPMDTimeSeries(os.path.join(path, 'hdf5'), check_all_files=False)
    check(list(ts.iterations) == [x['it'] for x in data],
          'viewer finds iterations {}', list(ts.iterations))
    ctx.label('viewer')
    for g in data[:3]:
        for name, s in g['species'].items():
            x, zz, ux, uz, w = ts.get_particle(
                ['x', 'z', 'ux', 'uz', 'w'], species=name,
                iteration=g['it'])
            close(zz, s['position/z'] + s['positionOffset/z'], 1e-14, 0,
                  'z seen by the viewer')
            close(x, s['position/x'], 1e-14, 0, 'x seen by the viewer')
            mc = s['mass'] * ct.c
            close(ux, s['momentum/x'] / mc, 1e-12, 0, 'ux in the viewer')
            close(uz, s['momentum/z'] / mc, 1e-12, 0, 'uz in the viewer')
            close(w, s['weighting'], 0, 0, 'w seen by the viewer')
        if 'E' in g['fields'] and 'E' in data[0]['fields']:
            E, info = ts.get_field('E', 'z', iteration=g['it'])
            v = g['fields']['E']['v']['z'][0]
            n = v.shape[0]
            close(E[n:], v, 1e-14, 0, 'E_z seen by the viewer')
            close(info.z[0], g['fields']['E']['a']['gridGlobalOffset'][1],
                  1e-12, 1e-15, 'start of the grid in the viewer')
            rho, info = ts.get_field('rho', iteration=g['it'])
            close(rho[n:], g['fields']['rho']['v'][''][0], 1e-14, 0,
                  'rho seen by the viewer')
