"""C03: outputs, diagnostics and progress reports never change the physics."""
import contextlib
import io
import os
import shutil
import tempfile
import numpy as np
import scipy.constants as ct
from hypothesis import strategies as st
from vp import lists, Registry, check, close, same, d, fl, logfl, seeds, rng
from refs import (bunch_case, make_bunch, state, poly_field, poly_coeffs,
                  py_field)
import sims

R = Registry()
ARR = ('w', 'x', 'y', 'xi', 'px', 'py', 'pz', 'tags')
SCAL = ('prop_distance', 't_flight', 'z_injection', 'name', 'q_species',
        'm_species', 'x_ref', 'theta_ref')


def snap(b):
    out = {k: np.array(getattr(b, k)) for k in ARR
           if getattr(b, k, None) is not None}
    out.update({k: getattr(b, k) for k in SCAL})
    return out


def eq(a, b, what):
    check(set(a) == set(b), what + ': different attributes')
    for k in a:
        if k in ARR:
            same(a[k], b[k], f'{what}: {k}')
        else:
            check(a[k] == b[k], '{}: {} = {!r}, expected {!r}', what, k, a[k],
                  b[k])


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()):
        yield


@contextlib.contextmanager
def scratch():
    p = tempfile.mkdtemp(dir=os.environ.get('VP_SCRATCH'))
    try:
        yield p
    finally:
        shutil.rmtree(p, ignore_errors=True)


observer = d(n_out=st.integers(1, 7), opmd=st.booleans(), bar=st.booleans())


# ------------------------------------------------------- field elements

def independent(outs, live, what):
    """No arrays shared between snapshots and live bunches."""
    flat = [(f'snapshot {i}', o) for i, o in enumerate(outs)] + [
        (f'live bunch {i}', b) for i, b in enumerate(live)]
    for i, (n1, b1) in enumerate(flat):
        for n2, b2 in flat[i + 1:]:
            for k1 in ARR:
                v1 = getattr(b1, k1, None)
                if v1 is None:
                    continue
                for k2 in ARR:
                    v2 = getattr(b2, k2, None)
                    if v2 is None:
                        continue
                    check(not np.shares_memory(v1, v2),
                          '{}: {}.{} and {}.{} share memory', what, n1, k1,
                          n2, k2)


def flatten(o):
    out = []
    for e in o:
        out.extend(flatten(e) if isinstance(e, list) else [e])
    return out


@R.part('elements', d(
    bunches=lists(bunch_case(4, pz=(20., 2e4)), min_size=1, max_size=2),
    co=poly_coeffs, pusher=st.sampled_from(['boris', 'rk4']),
    steps=fl(0.3, 6.), L=logfl(1e-6, 1e-4),
    a=observer, b=observer, seed=seeds),
    quick=590, thorough=4000,
    rule='FieldElement with random fields tracked with two different '
         'observer settings: final bunches identical; snapshots identical '
         'where both have them and independent; non-trivial: the settings '
         'differ and >1 push')
def elements(c, ctx):
    from wake_t.beamline_elements import FieldElement
    L = c['L']
    res = []
    for o in (dict(n_out=1, opmd=False, bar=False), c['a'], c['b']):
        bs = [make_bunch(x, name=f'b{i}', prop_distance=1e-3 * i,
                         tags=np.arange(len(x['parts'])) + 10 * i)
              for i, x in enumerate(c['bunches'])]
        el = FieldElement(L, dt_bunch=L / ct.c / c['steps'],
                          bunch_pusher=c['pusher'], n_out=o['n_out'],
                          fields=[py_field(poly_field(c['co']))],
                          push_bunches_before_diags=False)
        with scratch() as p, quiet():
            outs = el.track(bs, opmd_diag=o['opmd'], diag_dir=p,
                            show_progress_bar=o['bar'])
        res.append([snap(b) for b in bs])
        flat = flatten(outs)
        independent(flat, bs, 'element')
        before = [snap(s) for s in flat]
        live = [snap(b) for b in bs]
        for i, b in enumerate(bs):     # edit and go on with the live bunch
            for k in ARR:
                getattr(b, k)[...] += 1
            b.evolve([], 0., 1e-15, 'rk4')
            b.prop_distance += 1.
        for s0, s in zip(before, flat):
            eq(snap(s), s0, 'snapshot after editing the live bunch')
        after = [snap(b) for b in bs]
        for s in flat:
            for k in ARR:
                getattr(s, k)[...] -= 2
            s.prop_distance = -1.
        for s0, b in zip(after, bs):
            eq(snap(b), s0, 'live bunch after editing its snapshots')
        del live
    for r in res[1:]:
        for x, y in zip(r, res[0]):
            eq(x, y, f'final bunch with observers {c["a"]} / {c["b"]}')
    ctx.nontrivial(c['a'] != c['b'] and c['steps'] > 1)
    ctx.label('opmd' if c['a']['opmd'] or c['b']['opmd'] else 'no opmd')


# -------------------------------------------------------------- TM elements

# Strengths far below what matters over the element suffer from cancellation.
strength = st.one_of(st.just(0.), fl(0.3, 5), fl(-5, -0.3))
tm = d(kind=st.sampled_from(['drift', 'dipole', 'quad', 'sext', 'any']),
       L=logfl(1e-2, 1.), k=strength, order=st.integers(1, 2),
       csr=st.booleans())


def make_tm(t, n_out):
    from wake_t import Drift, Dipole, Quadrupole, Sextupole
    from wake_t.beamline_elements import TMElement
    kw = dict(n_out=n_out, order=t['order'])
    if t['kind'] == 'drift':
        return Drift(t['L'], **kw)
    if t['kind'] == 'dipole':
        return Dipole(t['L'], t['k'] * 0.02, **kw)
    if t['kind'] == 'quad':
        return Quadrupole(t['L'], t['k'], **kw)
    if t['kind'] == 'any':
        return TMElement(t['L'], t['k'] * 0.02, t['k'], t['k'], **kw)
    return Sextupole(t['L'], t['k'], **kw)


@R.part('transfer', d(bunch=bunch_case(5, pz=(950., 1050.), ang=2e-3),
                      line=lists(tm, min_size=1, max_size=3),
                      n_out=st.one_of(st.none(), st.integers(1, 4)),
                      init=st.booleans(), opmd=st.booleans(),
                      bar=st.booleans()),
        quick=1200, thorough=6000,
        rule='transfer-map elements tracked one after the other with '
             'outputs, diagnostics and printing: same physics as without; '
             'outputs independent of the live bunch and of each other; '
             'non-trivial: outputs requested')
def transfer(c, ctx):
    from wake_t.physics_models.collective_effects.csr import (
        reset_csr_calculator)
    from wake_t.diagnostics import OpenPMDDiagnostics
    reset_csr_calculator()

    def bunch():
        return make_bunch(c['bunch'], tags=np.arange(len(c['bunch']['parts'])))
    ref = bunch()
    for t in c['line']:
        with quiet():
            make_tm(t, None).track(ref, show_progress_bar=False)
    b = bunch()
    outs, saved = [], []
    with scratch() as p, quiet():
        diag = OpenPMDDiagnostics(write_dir=p) if c['opmd'] else False
        for t in c['line']:
            o = make_tm(t, c['n_out']).track(
                b, out_initial=c['init'], opmd_diag=diag,
                show_progress_bar=c['bar'])
            for s0, s in zip(saved, outs):
                eq(snap(s), s0, 'output of an earlier element')
            outs += o
            saved += [snap(s) for s in o]
    n = 1 if c['n_out'] is None else c['n_out']
    exp, got = snap(ref), snap(b)
    for k in ARR:
        if k in ('x', 'y', 'xi'):
            tol = 1e-10 * n
        else:
            tol = 1e-9
        if c['n_out'] is None:
            same(got[k], exp[k], f'{k} after the line')
        elif all(t['order'] == 1 for t in c['line']):
            close(got[k], exp[k], tol, 1e-15, f'{k} after the line')
    independent(outs, [b], 'transfer maps')
    before = [snap(s) for s in outs]
    for k in ARR:
        getattr(b, k)[...] += 1
    for s0, s in zip(before, outs):
        eq(snap(s), s0, 'output after editing the live bunch')
    ctx.nontrivial(len(outs) > 0)
    ctx.label(f'n_out={c["n_out"]}')


# ------------------------------------------------------------ plasma stages

def stage_part(name, kinds, quick, thorough, weight):
    @R.part(name, d(
        m=sims.model_case(kinds), bunches=lists(
            sims.bulk_case(12, w=(1e3, 3e5)), min_size=0, max_size=2),
        L=fl(4e-5, 2e-4), df=fl(0.2, 1.5), steps=fl(0.7, 5.),
        obs=observer, push=st.booleans()),
        quick=quick, thorough=thorough, weight=weight,
        rule='self-consistent plasma stage with and without outputs, openPMD '
             'and progress bar: final bunches, fields and laser bit-identical '
             '(with pushing to outputs: same number of outputs, other '
             'observers differ); non-trivial: openPMD or another number of '
             'outputs')
    def run(c, ctx):
        res = []
        # When bunches are pushed to the output times the number of outputs
        # is part of the physics and is kept.
        ref_n = c['obs']['n_out'] if c['push'] else 1
        for o in (dict(n_out=ref_n, opmd=False, bar=False), c['obs']):
            bs = [sims.bulk_bunch(x, name=f'b{i}')
                  for i, x in enumerate(c['bunches'])]
            stg = sims.make_stage(
                c['m'], c['L'], dz_fields=c['L'] * c['df'], n_out=o['n_out'],
                dt_bunch=c['L'] / ct.c / c['steps'],
                push_bunches_before_diags=c['push'])
            with scratch() as p, quiet():
                outs = stg.track(bs, opmd_diag=o['opmd'], diag_dir=p,
                                 show_progress_bar=o['bar'])
            independent(flatten(outs), bs, 'stage')
            res.append(([snap(b) for b in bs],
                        sims.field_state(stg.wakefield)))
        for x, y in zip(res[1][0], res[0][0]):
            eq(x, y, f'final bunch with observers {c["obs"]}')
        for k in res[0][1]:
            same(res[1][1][k], res[0][1][k],
                 f'final {k} with observers {c["obs"]}')
        ctx.nontrivial(c['obs']['opmd'] or not c['push'])
        ctx.label(c['m']['model'], 'laser' if c['m']['laser'] else 'no laser',
                  f'bunches={len(c["bunches"])}')
    return run


stage_part('fluid', ('cold_fluid_1d',), 80, 2000, 2)
stage_part('quasistatic', ('quasistatic_2d',), 60, 1500, 5)
