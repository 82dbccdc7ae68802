"""C02: the tracking schedule (bunch pushes, field updates, outputs)."""
import numpy as np
import scipy.constants as ct
from hypothesis import strategies as st
from vp import lists, Registry, check, close, d, fl, logfl
from refs import (SPECIES, bunch_case, make_bunch, state, poly_field,
                  poly_coeffs, ref_push, close_state)

R = Registry()


# dt is given relative to the stage duration; 'nice' fractions produce exact
# coincidences between pushes, field updates and outputs.
nice = st.sampled_from([1/2, 1/3, 1/4, 1/5, 1/7, 1/8, 1/10, 0.2, 0.3, 0.75,
                        1., 1.5])
rel_dt = st.one_of(fl(0.03, 1.7), nice)
bunch_spec = d(bunch=bunch_case(3), dt=rel_dt,
               auto=st.one_of(st.none(), fl(-0.6, 0.6)))
field_spec = d(dt=st.one_of(fl(0.04, 1.6), nice), even=st.booleans())


def near_tie(a, b):
    """Times whose order float32 comparison may or may not resolve."""
    e = abs(a - b)
    return 1e-11 < e < 1e-5


def model(T, dts, autos, n_out, push_diags):
    """Reference schedule in units of the stage duration.

    Returns, per bunch, the list of (t_start, dt) pushes.
    """
    diag = [k / n_out for k in range(1, n_out + 1)] if n_out else []
    pushes = []
    ambiguous = False
    for dt0, a in zip(dts, autos):
        def step_at(z):
            return dt0 if a is None else dt0 * (1 + a * np.sin(7 * z))
        t, di, mine = 0., 0, []
        while t < 1 - 1e-12:
            dt = min(step_at(t), 1 - t)
            t1 = t + dt
            if push_diags and di < len(diag):
                if near_tie(t1, diag[di]):
                    ambiguous = True
                if t1 >= diag[di] - 1e-11:
                    t1 = max(diag[di], t)
                    di += 1
            if near_tie(t1, 1.):
                ambiguous = True
            if abs(t1 - 1) < 1e-11:
                t1 = 1.
            if t1 - t > 1e-11:
                mine.append((t, t1 - t))
            t = t1
        pushes.append(mine)
    return pushes, ambiguous


@R.part('schedule', d(
    bunches=lists(bunch_spec, min_size=0, max_size=5),
    fields=lists(field_spec, min_size=0, max_size=4),
    n_out=st.integers(0, 7), push=st.booleans(), length=logfl(1e-6, 1e-2),
    pusher=st.sampled_from(['boris', 'rk4']), coef=poly_coeffs,
    z0=st.sampled_from([0., 0.1]), used=st.booleans(),
    other=st.one_of(st.none(), st.none(), fl(.3, 3.))),
    quick=1370, thorough=20000,
    rule='0-5 bunches with constant or adaptive steps, 0-4 numerical fields '
         'with their own periods, 0-7 outputs, new or already used element; every push, field update and '
         'output compared with a continuous-time reference schedule; '
         'non-trivial: a bunch and (a field or >=2 outputs)')
def schedule(c, ctx):
    from wake_t.beamline_elements import FieldElement
    from wake_t.fields.numerical_field import NumericalField
    from wake_t.fields.base import Field
    if not (c['bunches'] or c['fields'] or c['n_out']):
        return      # nothing at all to do
    T = c['length'] / ct.c
    log = []
    bs = [make_bunch(b['bunch'], name=f'b{i}')
          for i, b in enumerate(c['bunches'])]
    for b in bs:
        b.prop_distance = c['z0']
    z0 = c['z0']
    scale = 1e-12 / T     # keep the force effect moderate for long stages
    pf = poly_field(c['coef'])

    def f(x, y, z, t):
        return pf(x, y, z, t * scale) * min(1., scale)

    class Rec(Field):
        def _gather(self, x, y, z, t, ex, ey, ez, bx, by, bz):
            log.append(('gather', float(t) / T))
            e = f(np.asarray(x), np.asarray(y), np.asarray(z), t)
            for o, v in zip((ex, ey, ez, bx, by, bz), e):
                o += v

    class Num(NumericalField):
        def __init__(self, k, dt, even):
            super().__init__(dt_update=dt * T, force_even_updates=even)
            self.k = k

        def _calculate_field(self, bunches):
            log.append(('update', self.k, float(self.t) / T,
                        [(b.prop_distance - z0) / c['length'] for b in bunches],
                        [b.name for b in bunches]))

        def _gather(self, *a):
            pass

    nums = [Num(i, s['dt'], s['even']) for i, s in enumerate(c['fields'])]
    autos = [b['auto'] for b in c['bunches']]
    dts = [b['dt'] for b in c['bunches']]

    def auto_dt(b):
        i = int(b.name[1:])
        z = (b.prop_distance - z0) / c['length']
        return dts[i] * (1 + autos[i] * np.sin(7 * z)) * T
    el = FieldElement(
        length=c['length'],
        dt_bunch=['auto' if a is not None else dt * T
                  for dt, a in zip(dts, autos)],
        bunch_pusher=c['pusher'], n_out=c['n_out'], fields=[Rec()] + nums,
        auto_dt_bunch=auto_dt, push_bunches_before_diags=c['push'])
    init = [state(b) for b in bs]
    ids = [id(b) for b in bs]
    exp, amb = model(T, dts, autos, c['n_out'], c['push'])
    if amb:
        return
    was = [s['dt'] for s in c['fields']]
    if c['other'] is not None and nums:
        # The fields were used before in an element of another length, which
        # may have shortened their period, evenly dividing that length.
        for k, s in enumerate(c['fields']):
            x = c['other'] / s['dt']
            if s['even']:
                if abs(x - round(x)) < 1e-5:
                    return
                was[k] = c['other'] / np.ceil(x)
        FieldElement(length=c['length'] * c['other'], dt_bunch=T, n_out=0,
                     fields=nums).track([], show_progress_bar=False)
        ctx.label('fields used elsewhere')
        log.clear()
    if c['used']:
        el.track([b.copy() for b in bs], show_progress_bar=False)
        log.clear()
    out = el.track(bs, show_progress_bar=False)
    check([id(b) for b in bs] == ids, 'list of bunches was altered')

    # --- outputs: number and structure
    n_out = c['n_out']
    if len(bs) == 1:
        outs = [out]
    else:
        outs = out
    check(isinstance(outs, list) and len(outs) == len(bs),
          f'{len(bs)} bunches tracked, {len(outs)} output lists returned')
    n_snap = n_out + 1 if n_out else 0
    for o in outs:
        check(len(o) == n_snap, f'n_out={n_out}: {len(o)} outputs returned')

    # --- pushes: what force evaluations happened, in order, per bunch
    gathers = [g[1] for g in log if g[0] == 'gather']
    exp_g = []
    for mine in exp:
        for t, dt in mine:
            exp_g += ([t + dt / 2] if c['pusher'] == 'boris' else
                      [t, t + dt / 2, t + dt / 2, t + dt])
    # Zero-length pushes are allowed (they do nothing): drop the extra
    # evaluations at output times by matching as multisets with tolerance.
    g, e = sorted(gathers), sorted(exp_g)
    j = 0
    for t in e:
        while j < len(g) and g[j] < t - 1e-8:
            extra = g[j]
            check(n_out and abs(extra * n_out - round(extra * n_out)) < 1e-6
                  or abs(extra - 1) < 1e-6,
                  f'unexpected force evaluation at t={extra} T')
            j += 1
        check(j < len(g) and abs(g[j] - t) <= 1e-8,
              f'no force evaluation at t={t} T (pusher {c["pusher"]}); '
              f'expected pushes {exp}')
        j += 1
    for extra in g[j:]:
        check(abs(extra - 1) < 1e-6 or
              n_out and abs(extra * n_out - round(extra * n_out)) < 1e-6,
              f'unexpected force evaluation at t={extra} T')

    # --- final state of each bunch: the reference pushes
    def replay(i, upto, init=init):
        q, m = SPECIES[c['bunches'][i]['bunch']['species']]
        s = init[i]
        z = 0.
        for t, dt in exp[i]:
            if t + dt > upto + 1e-9:
                break
            s = ref_push(c['pusher'], s, t * T, dt * T, q / m, f)
            z = t + dt
        return s, z
    for i, b in enumerate(bs):
        s, z = replay(i, 1.)
        # A slow particle far off axis multiplies rounding errors: leave out
        # what a change of the start by 1e-13 shifts by more than 1e-9.
        p = replay(i, 1., [(1 + 1e-13) * u for u in init])[0]
        sc = np.array([[1e-6]] * 3 + [[max(1., np.max(np.abs(s[3:])))]] * 3)
        if not np.all(np.abs(p - s) <= 1e-9 * (np.abs(s) + sc)):
            ctx.label('chaotic')
            return
        check(abs(z - 1) < 1e-9, 'harness: model did not reach the end')
        if not np.all(np.isfinite(s)):
            return
        close((b.prop_distance - z0) / c['length'], 1., 0, 1e-9,
              f'bunch {i}: distance travelled / stage length')
        close_state(state(b), s, f'bunch {i} at the end', rtol=1e-7, dt=10*T)
        for k, o in enumerate(outs[i]):
            tk = k / n_out
            s, z = replay(i, tk)
            if not c['push'] and any(
                    near_tie(t + dt, tk) for t, dt in exp[i]):
                return
            close((o.prop_distance - z0) / c['length'], z, 0, 1e-9,
                  f'bunch {i} output {k}: distance')
            if c['push']:
                check(abs(z - tk) < 1e-9, 'harness: model output time')
            close_state(state(o), s, f'bunch {i} output {k}', rtol=1e-7,
                        dt=10*T)
            check(o is not b, 'output is the live bunch object')
            check(o.name == b.name, 'output lost the bunch name')

    # --- field updates
    for k, s in enumerate(c['fields']):
        dt = was[k]
        if s['even']:
            if near_tie(1 / dt, round(1 / dt)):
                return
            n_even = np.ceil(1 / dt - 1e-11)
            if (abs(1 / dt - round(1 / dt)) < 1e-11 and len(
                    [u for u in log if u[0] == 'update' and u[1] == k])
                    == n_even + 2):
                n_even += 1     # ratio rounded up: still even, still smaller
            dt = 1 / n_even
        n = int(np.floor(1 / dt + 1e-11))
        if near_tie(1 / dt, round(1 / dt)):
            return
        ups = [u for u in log if u[0] == 'update' and u[1] == k]
        close(len(ups), n + 1, 0, 0,
              f'number of updates of a field with period {dt} T')
        for j, u in enumerate(ups):
            close(u[2], j * dt, 0, 1e-9, f'field update {j} time')
            check(u[4] == [b.name for b in bs], 'field got other bunches')
            for i in range(len(bs)):
                ends = [0.] + [a + b_ for a, b_ in exp[i]]
                if any(near_tie(x, j * dt) for x in ends):
                    continue
                zi = max(x for x in ends if x <= j * dt + 1e-9)
                if (c['push'] and n_out and abs(zi - j * dt) < 1e-9 and
                        abs(zi * n_out - round(zi * n_out)) < 1e-6):
                    # The push that brings the bunch to an output time
                    # may come before or after an update at that same time.
                    prev = max([x for x in ends if x < zi - 1e-9] or [0.])
                    if abs(u[3][i] - prev) <= 1e-9:
                        continue
                close(u[3][i], zi, 0, 1e-9,
                      f'bunch {i} position seen by field update {j}')
    check(len([u for u in log if u[0] == 'update' and u[1] >= 0]) ==
          sum(1 for u in log if u[0] == 'update'), 'log')
    ctx.label(f'bunches={len(bs)}', f'fields={len(nums)}',
              'n_out=0' if n_out == 0 else 'n_out>0',
              'dt>T' if any(x > 1 for x in dts) else 'dt<=T')
    ctx.nontrivial(len(bs) > 0 and (len(nums) > 0 or n_out > 1))
