"""C19: saving and reading a bunch preserves it."""
import glob
import os
import numpy as np
import scipy.constants as ct
import h5py
from hypothesis import strategies as st
from vp import lists, sizes, Registry, check, close, same, d, fl, logfl, seeds, rng
from refs import SPECIES, state
from C03 import quiet, scratch, snap, eq

R = Registry()

# content of a bunch: centre and spread of every coordinate separately
bunch = d(n=sizes(2, 30, 3000), seed=seeds, sx=logfl(1e-9, 1e-2),
          x0=fl(-1e-2, 1e-2), sz=logfl(1e-9, 1e-2),
          xi0=st.one_of(st.just(0.), fl(-1e-3, 1e-3), fl(-5., 50.)),
          sp=logfl(1e-6, 10.), p0=fl(-1, 1), pz=logfl(1e-2, 1e5),
          spz=logfl(1e-6, .5), w=logfl(1e-3, 1e12), zero=st.booleans(),
          flat=st.booleans(), z0=st.sampled_from([0., 0.3, 12.]))
names = st.sampled_from(['bunch', 'elec', 'Driver_1', 'witness2'])


def make(c, species, name):
    from wake_t import ParticleBunch
    g = rng(c['seed'])
    n = c['n']
    q, m = SPECIES[species]
    w = c['w'] * g.uniform(.1, 2., n)
    if c['flat']:
        w[:] = c['w']
    if c['zero']:
        w[g.randint(n)] = 0.
        w[0] = c['w']
    return ParticleBunch(
        w=w, x=c['x0'] + c['sx'] * g.normal(size=n),
        y=-c['x0'] + 2 * c['sx'] * g.normal(size=n),
        xi=c['xi0'] + c['sz'] * g.normal(size=n),
        px=c['p0'] + c['sp'] * g.normal(size=n),
        py=2 * c['p0'] + c['sp'] * g.normal(size=n),
        pz=c['pz'] * (1 + c['spz'] * g.uniform(-1, 1, n)),
        q_species=q, m_species=m, name=name, prop_distance=c['z0'])


def compare(r, b, prec, what, ref=False):
    """r: bunch read; b: bunch saved; prec: relative precision of the format.

    The text formats start with a reference particle placed at the average of
    the bunch and carrying the mean macroparticle charge.
    """
    mean = np.average(b.xi, weights=b.w)
    exp = dict(x=b.x, y=b.y, xi=b.xi - mean, px=b.px, py=b.py, pz=b.pz,
               w=b.w)
    if ref:
        av = {k: np.average(getattr(b, k), weights=b.w)
              for k in ('x', 'y', 'px', 'py', 'pz')}
        av.update(xi=0., w=np.mean(b.w))
        exp = {k: np.concatenate([[av[k]], v]) for k, v in exp.items()}
    for k, v in exp.items():
        s = np.max(np.abs(b.xi)) if k == 'xi' else np.max(np.abs(v))
        close(getattr(r, k), v, prec, 0, f'{k} {what}', scale=s)
    check(abs(r.q_species / b.q_species - 1) < 1e-12, 'charge of the species '
          '{} read as {}', b.q_species, r.q_species)
    check(abs(r.m_species / b.m_species - 1) < 1e-12, 'mass of the species '
          '{} read as {}', b.m_species, r.m_species)


@R.part('formats', d(b=bunch, fmt=st.sampled_from(['openpmd', 'openpmd',
                                                   'astra', 'csrtrack']),
                     species=st.sampled_from(sorted(SPECIES)),
                     species_name=st.one_of(st.none(), names),
                     name=st.one_of(st.none(), names), bname=names,
                     keep=st.booleans(), ext=st.booleans()),
        quick=1500, thorough=15000,
        rule='bunches of any content written and read in each format; '
             'non-trivial: different weights')
def formats(c, ctx):
    from wake_t.utilities.bunch_saving import save_bunch_to_file
    from wake_t.utilities.bunch_generation import get_from_file
    f = c['fmt']
    sp = c['species']
    if f == 'csrtrack':
        sp = 'electron'
    elif f == 'astra' and sp not in ('electron', 'positron'):
        # protons: the APtools reader gets the sign wrong; others: the format
        # has no such species
        sp = 'electron'
    b = make(c['b'], sp, c['bname'])
    before = snap(b)
    ext = {'openpmd': '.h5', 'astra': '.txt', 'csrtrack': '.fmt1'}[f]
    with scratch() as tmp, quiet():
        path = os.path.join(tmp, 'saved')
        full = path + ext
        kw = {}
        if f == 'openpmd' and c['species_name'] is not None:
            kw['species_name'] = c['species_name']
        save_bunch_to_file(b, f, full if c['ext'] or f == 'astra' else path,
                           **kw)
        eq(snap(b), before, 'saving the bunch')
        files = [p for p in glob.glob(os.path.join(tmp, '**'),
                                      recursive=True) if os.path.isfile(p)]
        check(files == [full], 'files written: {}', files)
        r = get_from_file(full, f, preserve_prop_dist=c['keep'],
                          name=c['name'])
        r2 = get_from_file(full, f, name='again', **kw)
    compare(r, b, 1e-14 if f == 'openpmd' else 1e-11, f'from {f}',
            ref=f != 'openpmd')
    mean = np.average(b.xi, weights=b.w)
    if c['keep']:
        close(r.prop_distance, mean, 1e-10, 1e-15,
              'propagation distance', scale=np.max(np.abs(b.xi)))
    else:
        check(r.prop_distance == 0, 'propagation distance {} although not '
              'asked to keep it', r.prop_distance)
    if c['name'] is not None:
        check(r.name == c['name'], 'name {}', r.name)
    elif f == 'openpmd':
        check(r.name == (c['species_name'] or b.name), 'name {}', r.name)
    else:
        check(r.name.startswith('elec_bunch_'), 'default name {}', r.name)
    check(r2.name == 'again' and r2.prop_distance == 0, 'second reading')
    same(state(r2), state(r), 'reading twice')
    same(r2.w, r.w, 'reading twice')
    # the bunch read is an ordinary, independent bunch
    r.x += 1.
    same(r2.x + 1., r.x, 'independent arrays')
    ctx.label(f, sp)
    ctx.nontrivial(not c['b']['flat'])


@R.part('flags', d(b=bunch, lost=lists(st.integers(0, 29), max_size=8),
                   every=st.booleans()), quick=60, thorough=1500,
        rule='Astra files with particles marked as lost; reading options are '
             'passed to the reader; non-trivial: some lost particles')
def flags(c, ctx):
    from wake_t.utilities.bunch_saving import save_bunch_to_file
    from wake_t.utilities.bunch_generation import get_from_file
    b = make(c['b'], 'electron', 'b')
    lost = sorted({i % len(b.x) for i in c['lost']})
    with scratch() as tmp, quiet():
        p = os.path.join(tmp, 'f.txt')
        save_bunch_to_file(b, 'astra', p)
        with open(p) as f:
            lines = f.read().splitlines()
        for i in lost:
            lines[i + 1] = lines[i + 1].rsplit(' ', 1)[0] + ' -1'
        with open(p, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        r = get_from_file(p, 'astra',
                          remove_non_standard=not c['every'])
        r0 = get_from_file(p, 'astra', remove_non_standard=False)
    sel = np.ones(len(b.x) + 1, bool)
    if not c['every']:
        sel[np.array(lost, int) + 1] = False
    check(len(r0.x) == len(b.x) + 1, 'all particles kept')
    for k in ('x', 'y', 'px', 'py', 'pz', 'w'):
        same(getattr(r, k), getattr(r0, k)[sel], f'{k} after selection')
    z = r0.xi[sel]
    if r.w.sum() > 0:
        close(r.xi, z - np.average(z, weights=r.w), 1e-12, 0,
              'xi relative to the mean of the particles read',
              scale=np.max(np.abs(b.xi)))
    ctx.nontrivial(bool(lost) and not c['every'])


@R.part('species', d(bs=lists(bunch, min_size=1, max_size=3),
                     sp=lists(st.sampled_from(sorted(SPECIES)),
                                 min_size=3, max_size=3),
                     pick=st.integers(0, 2), keep=st.booleans(),
                     name=st.one_of(st.none(), names), L=logfl(1e-4, 1.),
                     n_out=st.integers(1, 2)),
        quick=240, thorough=1500,
        rule='bunches written by the diagnostics of a tracked drift and read '
             'by species; non-trivial: several species')
def species(c, ctx):
    from wake_t.beamline_elements import FieldElement
    from wake_t.utilities.bunch_generation import get_from_file
    bs = [make(b, c['sp'][i], f'sp_{i}') for i, b in enumerate(c['bs'])]
    for b in bs:
        b.pz += 10.
    k = c['pick'] % len(bs)
    with scratch() as tmp, quiet():
        el = FieldElement(c['L'], dt_bunch=c['L'] / ct.c, n_out=c['n_out'],
                          fields=[], push_bunches_before_diags=True)
        el.track(bs, opmd_diag=True, diag_dir=tmp)
        path = sorted(glob.glob(os.path.join(tmp, '**', '*.h5'),
                                recursive=True))[-1]
        kw = {} if len(bs) == 1 else dict(species_name=f'sp_{k}')
        r = get_from_file(path, 'openpmd', preserve_prop_dist=c['keep'],
                          name=c['name'], **kw)
        if len(bs) > 1:
            try:
                get_from_file(path, 'openpmd')
                check(False, 'several species in the file, none was asked '
                      'for, and no error was raised')
            except ValueError:
                pass
    b = bs[k]
    b2 = b.copy()
    b2.xi = b.xi + c['L']
    compare(r, b2, 1e-14, 'from the diagnostics')
    mean = np.average(b2.xi, weights=b.w)
    close(r.prop_distance, mean if c['keep'] else 0., 1e-12, 0,
          'propagation distance', scale=np.max(np.abs(b2.xi)))
    check(r.name == (c['name'] or b.name), 'name {}', r.name)
    ctx.label(f'{len(bs)} species')
    ctx.nontrivial(len(bs) > 1)


@R.part('simple', d(b=bunch, species=st.sampled_from(sorted(SPECIES)),
                    sub=st.booleans()), quick=60, thorough=1000,
        rule='plain HDF5 file of the analysis module; non-trivial: all')
def simple(c, ctx):
    from wake_t.diagnostics.bunch_analysis import save_bunch_to_file
    b = make(c['b'], c['species'], 'b')
    before = snap(b)
    with scratch() as tmp, quiet():
        folder = os.path.join(tmp, 'a', 'b') if c['sub'] else tmp
        save_bunch_to_file(b, folder, 'file')
        with h5py.File(os.path.join(folder, 'file.h5'), 'r') as f:
            got = {k: f[k][()] for k in f}
            pd = f.attrs['prop_dist']
    eq(snap(b), before, 'saving')
    check(set(got) == {'x', 'y', 'xi', 'px', 'py', 'pz', 'q'}, 'datasets {}',
          sorted(got))
    for k in got:
        same(got[k], getattr(b, k) if k != 'q' else b.w * b.q_species, k)
    check(pd == b.prop_distance, 'prop_dist {}', pd)
    ctx.nontrivial()
