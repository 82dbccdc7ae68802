"""C28: a beamline equals its elements tracked one after the other."""
import os
import numpy as np
import scipy.constants as ct
from hypothesis import strategies as st
from vp import lists, Registry, Violation, check, close, d, fl, logfl, seeds, rng
from refs import bunch_case, make_bunch, poly_field, poly_coeffs, py_field
from C03 import quiet, scratch, snap, ARR
import sims

R = Registry()
ENV = {'WAKET_DISABLE_CACHING': '0', 'NUMBA_CACHE_DIR': 'numba_cache'}

tm = d(kind=st.sampled_from(['drift', 'dipole', 'quad', 'sext']),
       L=logfl(1e-2, .5), k=fl(-5., 5.), order=st.integers(1, 2),
       csr=st.booleans(), n_out=st.one_of(st.none(), st.integers(1, 3)))
fld = d(kind=st.sampled_from(['field', 'lens', 'fquad', 'blowout', 'ramp',
                              'fluid']),
        L=logfl(1e-5, 1e-4), k=fl(-5., 5.), co=poly_coeffs,
        steps=fl(.4, 4.), n_out=st.integers(0, 3),
        pusher=st.sampled_from(['boris', 'rk4']))


def make_el(e):
    from wake_t import (Drift, Dipole, Quadrupole, Sextupole, PlasmaStage,
                        PlasmaRamp, ActivePlasmaLens)
    from wake_t.beamline_elements import FieldElement, FieldQuadrupole
    kind, L = e['kind'], e['L']
    if 'csr' in e:
        kw = dict(n_out=e['n_out'], order=e['order'])
        k = round(e['k'], 1)
        if kind == 'drift':
            return Drift(L, **kw)
        if kind == 'dipole':
            return Dipole(L, k * .02, csr_on=e['csr'] and k != 0, **kw)
        return (Quadrupole if kind == 'quad' else Sextupole)(L, k, **kw)
    kw = dict(n_out=e['n_out'], bunch_pusher=e['pusher'],
              dt_bunch=L / ct.c / e['steps'])
    if kind == 'field':
        return FieldElement(L, fields=[py_field(poly_field(e['co']))], **kw)
    if kind == 'lens':
        return ActivePlasmaLens(L, 100 * e['k'], **kw)
    if kind == 'fquad':
        return FieldQuadrupole(L, 100 * e['k'], **kw)
    if kind == 'ramp':
        return PlasmaRamp(L, plasma_dens_top=1e23, decay_length=L / 2,
                          ramp_type='upramp' if e['k'] < 0 else 'downramp',
                          wakefield_model='focusing_blowout', **kw)
    if kind == 'blowout':
        return PlasmaStage(L, 1e22 * 10**(e['k'] / 5), 'focusing_blowout',
                           **kw)
    laser = None
    if e['k'] > 0:
        laser = sims.make_laser(dict(a0=e['k'] / 4, xi_c=-5e-6, w0=1e-5,
                                     tau=1e-14, l0=8e-7, pol='linear',
                                     zf=0.))
    return PlasmaStage(L, 1e23, 'cold_fluid_1d', laser=laser, n_r=6, n_xi=10,
                       beam_wakefields=True, dz_fields=L, **sims.GRID, **kw)


def read(path):
    """Times and all the data of the files of one folder."""
    import h5py
    out = {}
    p = os.path.join(path, 'hdf5')
    for f in sorted(os.listdir(p)) if os.path.isdir(p) else []:
        with h5py.File(os.path.join(p, f)) as h:
            def visit(name, o):
                if isinstance(o, h5py.Dataset):
                    out[f, name] = np.array(o)
                for k, v in o.attrs.items():
                    if isinstance(v, (float, np.ndarray, np.number)):
                        out[f, name, k] = np.array(v)
            h.visititems(visit)
    return out


def same(a, b, what):
    """Identical; unphysical fields may give NaN in both."""
    a, b = np.asarray(a), np.asarray(b)
    check(a.shape == b.shape and a.tobytes() == b.tobytes() or
          np.array_equal(a, b, equal_nan=a.dtype.kind == 'f'),
          '{}: got {}, one by one {}', what, a, b)


def eq(a, b, what):
    check(set(a) == set(b), what + ': different attributes')
    for k in a:
        if k in ARR:
            same(a[k], b[k], f'{what}: {k}')
        else:
            check(a[k] == b[k] or a[k] != a[k] and b[k] != b[k],
                  '{}: {} = {!r}, one by one {!r}', what, k, a[k], b[k])


def flatten(o):
    out = []
    for e in o:
        out.extend(flatten(e) if isinstance(e, list) else [e])
    return out


def depth(o):
    """Structure of the outputs."""
    return [depth(e) if isinstance(e, list) else 0 for e in o]


def csr_bunch(seed):
    from wake_t import ParticleBunch
    u = rng(seed).normal(size=(6, 60))
    return ParticleBunch(np.full(60, 1e7), 1e-5 * u[0], 1e-5 * u[1],
                         1e-5 * u[2], u[3] * .3, u[4] * .3,
                         1000 + np.tanh(u[5]), name='b0')


def compare(c, els_s, n_bunches, ctx):
    from wake_t import Beamline
    from wake_t.diagnostics import OpenPMDDiagnostics
    from wake_t.physics_models.collective_effects.csr import (
        reset_csr_calculator)
    res = []
    n_el = len(els_s)
    again = [k % n_el for k in c['again']] if n_el else []
    els_s = list(els_s) + [els_s[k] for k in again]
    multi = n_bunches > 1 or c['aslist']
    for line in (False, True):
        if any(e.get('csr') for e in els_s):     # needs a distribution
            bs = [csr_bunch(c['seed'])]
        else:
            bs = [make_bunch(x, name=f'b{i}',
                             tags=np.arange(len(x['parts'])) + 10 * i)
                  for i, x in enumerate(c['b'][:n_bunches])]
        arg = bs if multi else bs[0]
        els = [make_el(e) for e in els_s[:n_el]]
        els += [els[k] for k in again]      # the same objects once more
        reset_csr_calculator()
        outs = []
        with scratch() as p, quiet():
            for i in range(c['passes']):
                diag = False
                dirs = os.path.join(p, str(i))
                if c['opmd']:
                    diag = OpenPMDDiagnostics(write_dir=dirs)
                if not line:
                    for e in els:
                        outs.extend(e.track(arg, opmd_diag=diag,
                                            show_progress_bar=False))
                    continue
                cut = min(c['cut'], len(els))
                if i == 0 or not c['keep']:
                    bl = Beamline(els)
                if c['nested'] and (i == 0 or not c['keep']):
                    bl = Beamline([Beamline(els[:cut]), *els[cut:]])
                given = diag
                if c['opmd'] and c['bool']:
                    given = True
                o = bl.track(arg, opmd_diag=given, diag_dir=dirs,
                             show_progress_bar=c['bar'])
                check(isinstance(o, list), 'outputs of type {}', type(o))
                outs.extend(o)
            data = [read(os.path.join(p, str(i)))
                    for i in range(c['passes'])]
        reset_csr_calculator()
        res.append((bs, outs, data))
        L = sum(e['L'] for e in els_s) * c['passes']
        for b in bs:
            close(b.prop_distance, L, 1e-6, 0, 'propagation distance')
    (b0, o0, d0), (b1, o1, d1) = res
    for x, y in zip(b1, b0):
        eq(snap(x), snap(y), 'final bunch of the beamline')
    check(depth(o1) == depth(o0), 'outputs {}, one by one {}', depth(o1),
          depth(o0))
    for i, (x, y) in enumerate(zip(flatten(o1), flatten(o0))):
        eq(snap(x), snap(y), f'output {i} of the beamline')
    for i, (x, y) in enumerate(zip(d1, d0)):
        check(set(x) == set(y), 'pass {}: files and data sets {} only in one',
              i, sorted(map(str, set(x) ^ set(y)))[:4])
        for k in y:
            same(x[k], y[k], f'pass {i}: {k}')
    if c['opmd'] and els_s:
        n = sum(0 if e['n_out'] is None else e['n_out'] + ('csr' not in e)
                for e in els_s if e['n_out'])
        files = {k[0] for k in d1[0]}
        if all('csr' not in e for e in els_s):
            check(len(files) == n, '{} files for {} outputs', len(files), n)
            times = sorted(float(d1[0][k]) for k in d1[0]
                           if len(k) == 3 and k[2] == 'time')
            pos, exp = 0., []
            for e in els_s:
                if e['n_out']:
                    exp += [(pos + e['L'] * j / e['n_out']) / ct.c
                            for j in range(e['n_out'] + 1)]
                pos += e['L']
            close(np.array(times), np.sort(exp), 1e-6, 1e-9 * (pos / ct.c),
                  'times of the files along the beamline')
    ctx.nontrivial(len(els_s) > 1)
    ctx.label(f'{len(els_s)} elements', 'openPMD' if c['opmd'] else 'memory',
              f'passes {c["passes"]}', 'element repeated' if again else
              'all different')


common = dict(opmd=st.booleans(), bar=st.booleans(), nested=st.booleans(),
              cut=st.integers(0, 3),
              again=st.one_of(st.just([]), lists(st.integers(0, 4),
                                                 max_size=2)), bool=st.booleans(), keep=st.booleans())


@R.part('single', d(b=lists(bunch_case(4, pz=(950., 1050.), ang=1e-3),
                               min_size=1, max_size=1),
                    line=st.integers(0, 9).flatmap(lambda k: lists(
                        st.one_of(tm, fld), max_size=5 if k < 9 else 14)),
                    passes=st.integers(1, 2), aslist=st.just(False), seed=seeds,
                    **common),
        quick=250, thorough=6000, env=ENV, weight=2,
        rule='one bunch through any elements (transfer maps and fields), as '
             'a beamline and one by one, in one or two passes: identical '
             'bunches, outputs and files; non-trivial: at least two elements')
def single(c, ctx):
    line = c['line']
    if any(e.get('csr') for e in line):
        # The CSR model needs a bunch that is still intact.
        line = [dict(e, kind='lens')
                if e['kind'] in ('field', 'ramp', 'blowout', 'fluid') else e
                for e in line]
    compare(c, line, 1, ctx)


@R.part('several', d(b=lists(bunch_case(3, pz=(100., 1e3)), min_size=1,
                                max_size=3),
                     line=lists(fld, max_size=4), passes=st.integers(1, 2),
                     aslist=st.booleans(), **common),
        quick=200, thorough=5000, env=ENV, weight=2,
        rule='one to three bunches through elements with fields, as above')
def several(c, ctx):
    compare(c, c['line'], len(c['b']), ctx)
