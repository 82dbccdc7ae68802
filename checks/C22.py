"""C22: ParticleBunch views, copies and resizes stay consistent.

Model-based: a history of operations on a pool of bunches is run against plain
arrays; after every operation every bunch of the pool is compared with its
model in full, so an effect on a copy or a stale auxiliary array is seen.
"""
import numpy as np
import scipy.constants as ct
from hypothesis import strategies as st
from vp import sizes, lists, Registry, check, close, same, d, fl, logfl, seeds, rng
from refs import (SPECIES, state, poly_field, py_field, ref_push, no_field,
                  COORDS)

R = Registry()

data = d(n=sizes(1, 7, 2000, 15), seed=seeds, pz=logfl(2., 1e4), xi0=fl(-1, 1))
coef = seeds
init = d(data=data, species=st.sampled_from(sorted(SPECIES)),
         how=st.sampled_from(['components', 'standard', 'alternative',
                              'positional']),
         tags=st.booleans(), z0=fl(0, 2), tf=fl(0, 1),
         zi=st.one_of(st.none(), fl(-1, 3)), name=st.sampled_from('abc'))
OPS = ['evolve', 'evolve', 'evolve', 'copy', 'edit', 'resize', 'resize',
       'set_phase_space', 'from_matrix', 'from_alternative',
       'set_bunch_matrix', 'weights', 'charge', 'reposition', 'distance',
       'name', 'roundtrip', 'zinj', 'gets', 'drop']
op = d(op=st.sampled_from(OPS), i=st.integers(0, 3), data=data,
       pusher=st.sampled_from(['rk4', 'boris']), coef=coef,
       dt=logfl(1e-16, 1e-13), t=fl(0, 1e-12), k=st.integers(0, 6), v=fl(-1, 1),
       steps=st.integers(1, 3), nf=st.integers(0, 2))


def arrays(c, n=None):
    g = rng(c['seed'])
    n = n or c['n']
    u = g.normal(size=(7, n))
    pz = c['pz'] * (1 + .1 * np.tanh(u[5]))
    s = np.array([1e-5 * u[0], 1e-5 * u[1],
                  1e-3 * c['xi0'] + 1e-5 * u[2], 3e-2 * u[3] * pz,
                  3e-2 * u[4] * pz, pz])
    return s, 1e5 * np.exp(u[6])


def alt(s, w=None, gref=None):
    """Coordinates (x, x', y, y', xi, dp) of a state and their reference."""
    g = np.sqrt(1 + np.sum(s[3:]**2, axis=0))
    if gref is None:
        gref = np.sum(g * w) / np.sum(w)
    p = np.sqrt(g**2 - 1)
    return np.array([s[0], s[3] / p, s[1], s[4] / p, s[2], g / gref - 1]), gref


def std6(s):
    return s[[0, 3, 1, 4, 2, 5]]


def field(seed):
    g = rng(seed)
    return poly_field(g.uniform(-1, 1, (6, 7)) * (g.uniform(size=(6, 7)) < .5))


def compare(b, m, what):
    for k, nm in enumerate(COORDS):
        v = getattr(b, nm)
        check(np.shape(v) == (len(m['w']),), '{}: {} has shape {}, {} '
              'particles expected', what, nm, np.shape(v), len(m['w']))
        at = 1e-14 if k < 3 else 1e-11 * np.max(np.abs(m['s'][3:]))
        close(v, m['s'][k], 1e-9, at, f'{what}: {nm}')
    close(b.w, m['w'], 1e-12, 0, f'{what}: w')
    q, mass = SPECIES[m['species']]
    close(b.q, m['w'] * q, 1e-12, 0, f'{what}: q')
    check(b.q_species == q and b.m_species == mass, '{}: species', what)
    close(b.prop_distance, m['z'], 1e-11, 1e-15, f'{what}: prop_distance')
    check(b.name == m['name'], '{}: name {!r}', what, b.name)
    check(b.t_flight == m['tf'], '{}: t_flight', what)
    check(b.z_injection == m['zi'], '{}: z_injection', what)
    if m['tags'] is None:
        check(b.tags is None, '{}: tags', what)
    else:
        same(b.tags, m['tags'], f'{what}: tags')
    check(b.x_ref == m['xr'] and b.theta_ref == m['th'],
          '{}: reference orbit', what)


def gets(b, m, what):
    s, w = m['s'], m['w']
    q = SPECIES[m['species']][0]
    cur = state(b)
    close(b.get_6D_matrix(), std6(cur), 0, 0, what + ': 6D matrix')
    close(b.get_6D_matrix_with_charge(), np.vstack([std6(cur), b.w * q]), 0,
          0, what + ': 6D matrix with charge')
    close(b.get_bunch_matrix(), np.vstack([cur, b.w * q]), 0, 0,
          what + ': bunch matrix')
    a, g = b.get_alternative_6D_matrix()
    ea, eg = alt(cur, b.w)
    close(g, eg, 1e-12, 0, what + ': average gamma')
    for k in range(6):
        close(a[k], ea[k], 1e-10, 1e-12 if k == 5 else 0,
              f'{what}: row {k} of the alternative matrix',
              scale=max(np.max(np.abs(ea[k])), 1e-30))
    # what is returned does not alias the bunch
    for mat in (b.get_6D_matrix(), b.get_bunch_matrix(), a):
        mat += 1.
    close(state(b), cur, 0, 0, what + ': after editing returned matrices')


@R.part('history', d(init=init, ops=lists(op, min_size=4, max_size=16)),
        quick=1660, thorough=25000,
        rule='history of operations on a growing pool of bunches against a '
             'model; non-trivial: a bunch is evolved after a resize or copy')
def history(c, ctx):
    from wake_t import ParticleBunch
    i = c['init']
    q, mass = SPECIES[i['species']]
    s, w = arrays(i['data'])
    n = len(w)
    tags = np.arange(n) + 5 if i['tags'] else None
    kw = dict(tags=None if tags is None else tags.copy(),
              prop_distance=i['z0'], t_flight=i['tf'], z_injection=i['zi'],
              name=i['name'], q_species=q, m_species=mass)
    if i['how'] == 'components':
        b = ParticleBunch(w.copy(), **dict(zip(COORDS, s.copy())), **kw)
    elif i['how'] == 'positional':
        b = ParticleBunch(w.copy(), *s.copy(), **kw)
    elif i['how'] == 'standard':
        b = ParticleBunch(w.copy(), bunch_matrix=std6(s).copy(), **kw)
    else:
        a, g = alt(s, w)
        b = ParticleBunch(w.copy(), bunch_matrix=a,
                          matrix_type='alternative', gamma_ref=g, **kw)
    m = dict(s=s.copy(), w=w.copy(), species=i['species'], z=i['z0'],
             tf=i['tf'], zi=i['zi'], name=i['name'], tags=tags, xr=0, th=0)
    pool = [[b, m, 'original', False]]
    compare(b, m, 'new bunch')
    special = False
    done = []
    for k, o in enumerate(c['ops']):
        j = o['i'] % len(pool)
        b, m, label, touched = pool[j]
        t = o['op']
        n = len(m['w'])
        done.append(t)
        q = SPECIES[m['species']][0]
        if t == 'evolve':
            fs = [field(o['coef'] + r) for r in range(o['nf'])]

            def f(*a):
                return sum((g(*a) for g in fs), no_field(*a))
            tt = o['t']
            for _ in range(o['steps']):
                cur = f
                if m['zi'] is not None:
                    edge = np.max(m['s'][2]) + m['z'] - m['zi']
                    if abs(edge) < 1e-9:
                        return      # rounding decides
                    if edge < 0:
                        cur = no_field
                b.evolve([py_field(g) for g in fs], tt, o['dt'], o['pusher'])
                qm = q / SPECIES[m['species']][1]
                m['s'] = ref_push(o['pusher'], m['s'], tt, o['dt'], qm, cur)
                m['z'] += o['dt'] * ct.c
                tt += o['dt']
            if not np.all(np.isfinite(m['s'])):
                return
            special |= touched
        elif t == 'copy':
            if len(pool) < 4:
                nb = b.copy()
                nm = {a: v.copy() if isinstance(v, np.ndarray) else v
                      for a, v in m.items()}
                pool.append([nb, nm, f'copy made by op {k}', True])
        elif t == 'drop':
            if len(pool) > 1:
                pool.pop(j)
        elif t == 'edit':
            cname = COORDS[o['k'] % 6]
            a = getattr(b, cname)
            e = abs(a).max() * o['v']
            a[o['data']['n'] % n] += e
            m['s'][o['k'] % 6][o['data']['n'] % n] += e
            if cname == 'pz' and np.min(m['s'][5]) <= 1:
                return
        elif t == 'resize':
            ns, nw = arrays(o['data'])
            kind = o['k'] % 3
            if kind == 0:       # new particles
                b.set_phase_space(*ns.copy())
                b.w = nw.copy()
                m['s'], m['w'] = ns, nw
            elif kind == 1:     # keep a subset
                sel = np.arange(n) % (1 + o['data']['n']) == 0
                b.set_phase_space(*state(b)[:, sel])
                b.w = b.w[sel]
                m['s'], m['w'] = m['s'][:, sel], m['w'][sel]
            else:               # add particles
                b.set_bunch_matrix(np.hstack(
                    [b.get_bunch_matrix(), np.vstack([ns, nw * q])]))
                m['s'] = np.hstack([m['s'], ns])
                m['w'] = np.concatenate([m['w'], nw])
            if m['tags'] is not None:
                b.tags = np.arange(len(m['w'])) + 3
                m['tags'] = np.arange(len(m['w'])) + 3
            pool[j][3] = True
        elif t == 'set_phase_space':
            ns, _ = arrays(o['data'], n)
            b.set_phase_space(*ns.copy())
            m['s'] = ns
        elif t == 'from_matrix':
            ns, _ = arrays(o['data'], n)
            b.set_phase_space_from_matrix(std6(ns).copy())
            m['s'] = ns
        elif t == 'from_alternative':
            ns, _ = arrays(o['data'], n)
            a, g = alt(ns, gref=o['data']['pz'] * (1.5 + o['v']))
            b.set_phase_space_from_alternative_matrix(a, g)
            m['s'] = ns
        elif t == 'set_bunch_matrix':
            ns, nw = arrays(o['data'], n)
            b.set_bunch_matrix(np.vstack([ns, nw * q]))
            m['s'], m['w'] = ns, nw
        elif t == 'weights':
            nw = arrays(o['data'], n)[1]
            b.w = nw.copy()
            m['w'] = nw
        elif t == 'charge':
            nw = arrays(o['data'], n)[1]
            b.q = nw * q * (1 if o['v'] > 0 else -1)
            m['w'] = nw
        elif t == 'reposition':
            b.reposition_xi(o['v'])
            m['s'][2] += o['v'] - np.sum(m['s'][2] * m['w']) / m['w'].sum()
        elif t == 'distance':
            b.increase_prop_distance(o['v'])
            m['z'] += o['v']
        elif t == 'name':
            b.set_name('n%d' % k)
            m['name'] = 'n%d' % k
        elif t == 'zinj':
            v = o['v'] * 2 if o['k'] else None
            b.z_injection = m['zi'] = v
            b.x_ref = m['xr'] = o['v'] * 1e-3
            b.theta_ref = m['th'] = o['v'] * 1e-2
        elif t == 'roundtrip':
            r = o['k'] % 3
            if r == 0:
                b.set_phase_space_from_matrix(b.get_6D_matrix())
            elif r == 1:
                b.set_bunch_matrix(b.get_bunch_matrix())
            # (x', y', dp) only describe particles which move forward
            elif np.all(m['s'][5] > .1 * np.sqrt(np.sum(m['s'][3:]**2, 0))):
                a, g = b.get_alternative_6D_matrix()
                b.set_phase_space_from_alternative_matrix(a, g)
        if t in ('gets', 'roundtrip', 'evolve', 'resize'):
            gets(b, m, f'op {k} ({t})')
        for nb, nm, lab, _ in pool:
            compare(nb, nm, f'{lab} after op {k} ({t} on {label})')
        ctx.label(t)
    ctx.nontrivial(special)


@R.part('copies', d(init=data, species=st.sampled_from(sorted(SPECIES)),
                    coef=coef, warm=st.integers(0, 3), dt=logfl(1e-16, 1e-13),
                    after=lists(st.sampled_from(['rk4', 'boris']),
                                   min_size=1, max_size=4),
                    zi=st.one_of(st.none(), fl(-2e-5, 2e-5)),
                    opmd=st.booleans()), quick=600, thorough=6000,
        rule='copy taken before or after some pushes: original and copy '
             'evolve bit-identically, share no memory and give identical '
             'diagnostics data; non-trivial: pushed before the copy')
def copies(c, ctx):
    from wake_t import ParticleBunch
    q, mass = SPECIES[c['species']]
    s, w = arrays(c['init'])
    s[2] -= np.max(s[2])
    b = ParticleBunch(w, *s, q_species=q, m_species=mass, name='b',
                      z_injection=c['zi'], tags=np.arange(len(w)),
                      t_flight=2., prop_distance=0.)
    f = [py_field(field(c['coef']))]
    t = 0.
    for i in range(c['warm']):
        b.evolve(f, t, c['dt'], 'rk4' if i % 2 else 'boris')
        t += c['dt']
    r = b.copy()
    for k1 in ('w', 'tags') + COORDS:
        same(getattr(r, k1), getattr(b, k1), 'copied ' + k1)
        for k2 in ('w', 'tags') + COORDS:
            check(not np.shares_memory(getattr(r, k1), getattr(b, k2)),
                  '{} of the copy shares memory with {}', k1, k2)
    for pu in c['after']:
        b.evolve(f, t, c['dt'], pu)
        r.evolve(f, t, c['dt'], pu)
        t += c['dt']
        same(state(r), state(b), f'copy evolved with {pu}')
        check(r.prop_distance == b.prop_distance, 'prop_distance of the copy')
        # interleaved: both use their own auxiliary arrays
        for aux in ('get_field_arrays', 'get_rk4_arrays'):
            if not hasattr(b, aux):
                continue
            a1, a2 = getattr(b, aux)(), getattr(r, aux)()
            for x in a1:
                check(len(x) == len(b.x), 'auxiliary array of {}', len(x))
                check(not any(np.shares_memory(x, y) for y in a2),
                      'auxiliary arrays shared with the copy')
    d1 = b.get_openpmd_diagnostics_data(1e-9)
    d2 = r.get_openpmd_diagnostics_data(1e-9)
    check(set(d1) == set(d2), 'diagnostics data')
    for k in d1:
        same(d2[k], d1[k], 'diagnostics data ' + k)
    ctx.label(f'warm={c["warm"]}')
    ctx.nontrivial(c['warm'] > 0)


@R.part('names', d(k=lists(st.one_of(st.none(), st.sampled_from('xyz')),
                              min_size=2, max_size=6)), quick=50,
        thorough=500, rule='unnamed bunches get distinct names, given names '
        'are kept; non-trivial: >= 2 unnamed')
def names(c, ctx):
    from wake_t import ParticleBunch
    bs = [ParticleBunch(np.ones(1), *np.ones((6, 1)), name=n) for n in c['k']]
    auto = [b.name for b, n in zip(bs, c['k']) if n is None]
    check(len(set(auto)) == len(auto), 'default names {}', auto)
    for b, n in zip(bs, c['k']):
        check(n is None or b.name == n, 'name {} given, {}', n, b.name)
        check(b.copy().name == b.name, 'name of a copy {}', b.copy().name)
    ctx.nontrivial(len(auto) > 1)
