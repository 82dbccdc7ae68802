"""Runs one check: all parts (in parallel processes), evidence, verdict."""
import argparse
import concurrent.futures as cf
import glob
import importlib
import json
import os
import subprocess
import sys
import time
import traceback
import warnings

import vp

HANG_S = 400     # one case; the slowest ones take a few seconds
REPLAYS = os.path.join(vp.VERIF, 'replays')


def load(pid):
    return importlib.import_module(pid).R


CURRENT = None     # file that holds the case being judged


def note_current(case):
    if CURRENT:
        with open(CURRENT, 'w') as f:
            json.dump(case, f)


def judge(part, case, ctx):
    """Run the oracle; classify its outcome. Returns message or None."""
    from hypothesis.errors import HypothesisException, UnsatisfiedAssumption
    ctx.start()
    note_current(case)
    vp.poison()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            part.fn(case, ctx)
    except vp.Violation as e:
        return str(e)
    except (HypothesisException, UnsatisfiedAssumption):
        raise
    except Exception as e:
        if type(e).__module__.startswith('hypothesis'):
            raise
        if vp.in_repo(e):
            tb = traceback.format_exc().strip().splitlines()
            return ('unexpected exception from the code under test: '
                    f'{type(e).__name__}: {str(e)[:300]} || ' +
                    ' | '.join(t.strip() for t in tb[-6:]))
        if isinstance(e, (ValueError, IndexError, KeyError,
                          ZeroDivisionError)):
            # The oracle could not digest what the code under test returned
            # (missing outputs, wrong shapes): never happens on good output.
            return ('malformed output of the code under test: '
                    f'{type(e).__name__}: {str(e)[:300]} || ' +
                    ' | '.join(t.strip() for t in traceback.format_exc()
                               .strip().splitlines()[-6:]))
        raise
    ctx.done(case)
    return None


def shards(part, tier):
    """Processes that share a part: long ones run into the limits of numba
    (memory mappings of compiled functions)."""
    if tier == 'quick':
        return 1
    return max(1, min(8, -(-part.thorough // (600 if part.env else 1500))))


def diversify():
    """Hypothesis spends most of a budget on variations of earlier cases
    (parts of a case replaced by copies of others).  Our cases are expensive
    and their parts independent: vary one case in ten only."""
    from hypothesis.internal.conjecture.engine import ConjectureRunner as C
    vary = C.generate_mutations_from

    def generate_mutations_from(self, data):
        if self.random.random() < 0.1:
            vary(self, data)
    C.generate_mutations_from = generate_mutations_from


def run_part(pid, part, tier, seed, out, shard=0):
    """Run in a subprocess: search with Hypothesis; write result JSON."""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    diversify()
    t0 = time.time()
    ctx = vp.Ctx()
    res = dict(part=part.name, error=None, violation=None, case=None)
    n = part.quick if tier == 'quick' else -(-part.thorough //
                                             shards(part, tier))
    max_s = part.max_s or (270 if tier == 'quick' else 2400)
    shrink_s = 60 if tier == 'quick' else 300
    if os.environ.get('VP_NOSHRINK'):      # mutation campaigns
        shrink_s = -1
    fail = {}

    class Stop(Exception):
        pass

    # Committed regression inputs (shrunk failures of the past) go first.
    try:
        for f in sorted(glob.glob(os.path.join(
                vp.VERIF, 'regress', pid, '*.json'))):
            reg = json.load(open(f))
            if reg['part'] != part.name or shard:
                continue
            msg = judge(part, reg['case'], ctx)
            ctx.labels['regression input'] = \
                ctx.labels.get('regression input', 0) + 1
            if msg is not None:
                fail.update(case=reg['case'], msg=msg, size=0, t=time.time())
                break

        if not fail:
            @settings(max_examples=n, database=None, deadline=None,
                      report_multiple_bugs=False, print_blob=False,
                      suppress_health_check=list(HealthCheck),
                      phases=[Phase.generate, Phase.shrink])
            @hypothesis.seed(seed * 1000003 + sum(map(ord, part.name)) +
                             7919 * shard)
            @given(part.strategy)
            def search(case):
                now = time.time()
                if fail:
                    if now - fail['t'] > shrink_s:
                        return
                elif now - t0 > max_s:
                    ctx.skipped += 1
                    return
                msg = judge(part, case, ctx)
                if msg is not None:
                    size = len(json.dumps(case))
                    if not fail:
                        fail.update(t=now, case=case, msg=msg, size=size)
                    elif size <= fail['size']:
                        fail.update(case=case, msg=msg, size=size)
                    raise Stop('violation')
            try:
                search()
            except BaseException:
                if not fail:
                    raise
    except BaseException:
        res['error'] = traceback.format_exc()
    if fail:
        res['violation'] = fail['msg']
        res['case'] = fail['case']
    res.update(evaluations=ctx.evaluations, distinct=sorted(ctx.seen),
               labels=ctx.labels, samples=ctx.samples, skipped=ctx.skipped,
               rule=part.rule, wall_s=round(time.time() - t0, 2))
    with open(out, 'w') as f:
        json.dump(res, f)


def known_findings(pid):
    path = os.path.join(vp.VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))['findings']
            if k['property'] == pid]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('tier', nargs='?', default=None)
    ap.add_argument('--replay')
    ap.add_argument('--part')
    ap.add_argument('--out')
    ap.add_argument('--shard', type=int, default=0)
    a = ap.parse_args()
    tier = a.tier or os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1

    if a.replay:
        if not os.path.exists(a.replay):     # relative to /verif
            a.replay = os.path.join(vp.VERIF, a.replay)
        rep = json.load(open(a.replay))
        part = [p for p in load(a.pid).parts if p.name == rep['part']][0]
        env = {**os.environ, **part.env}
        if any(os.environ.get(k) != v for k, v in part.env.items()):
            sys.exit(subprocess.call([sys.executable] + sys.argv, env=env))
        msg = judge(part, rep['case'], vp.Ctx())
        if msg is None:
            print('replay: the property holds on this case')
            sys.exit(0)
        print('replay:', msg)
        print(f'VIOLATION property={a.pid} replay={a.replay}')
        sys.exit(1)

    if a.out:           # child process: one part
        part = [p for p in load(a.pid).parts if p.name == a.part][0]
        global CURRENT
        CURRENT = a.out + '.case'
        run_part(a.pid, part, tier, seed, a.out, a.shard)
        sys.exit(0)

    t0 = time.time()
    parts = load(a.pid).parts
    if a.part:
        parts = [p for p in parts if p.name == a.part]
    scratch = os.environ.get('VP_SCRATCH', '/tmp')
    results = []

    def child(job, again=True):
        p, shard = job
        out = os.path.join(scratch, f'{a.pid}-{p.name}-{shard}.json')
        wd = os.path.join(scratch, f'wd-{p.name}-{shard}')
        os.makedirs(wd, exist_ok=True)
        env = {**os.environ, **p.env, 'VP_SCRATCH': wd}
        logf = out + '.log'
        with open(logf, 'w') as lf:
            pr = subprocess.Popen(
                [sys.executable, os.path.abspath(__file__), a.pid, tier,
                 '--part', p.name, '--out', out, '--shard', str(shard)],
                env=env, cwd=wd, stdout=lf, stderr=subprocess.STDOUT)
            hang = None
            while pr.poll() is None:
                try:
                    pr.wait(2)
                except subprocess.TimeoutExpired:
                    cur = out + '.case'
                    if (os.path.exists(cur) and
                            time.time() - os.path.getmtime(cur) > HANG_S):
                        hang = True
                        pr.kill()
        if pr.returncode == 0 and os.path.exists(out):
            return json.load(open(out))
        res = dict(part=p.name, violation=None, case=None, error=None,
                   evaluations=0, distinct=[], labels={}, samples=[],
                   skipped=0, rule=p.rule, wall_s=0)
        cur = out + '.case'
        if again and not hang and pr.returncode in (-4, -6, -7, -8, -11):
            # Once more, to tell the code from the limits of the machine.
            return child(job, False)
        if os.path.exists(cur) and (hang or pr.returncode in (
                -4, -6, -7, -8, -11)):
            # The process died inside (or never came back from) the code
            # under test: cases take seconds at most otherwise.
            res['case'] = json.load(open(cur))
            res['violation'] = (
                f'no answer after {HANG_S} s' if hang else
                f'the process crashed (signal {-pr.returncode})')
        else:
            res['error'] = f'exit {pr.returncode}: ' + \
                open(logf).read()[-3000:]
        return res

    order = sorted(parts, key=lambda p: -p.weight)
    work = [(p, i) for p in order for i in range(shards(p, tier))]
    with cf.ThreadPoolExecutor(min(8, len(work))) as ex:
        done = list(ex.map(child, work))
    results = []
    for p in order:
        rs = [r for (q, _), r in zip(work, done) if q is p]
        bad = [r for r in rs if r['violation'] is not None]
        m = dict((bad or rs)[0])
        m['error'] = next((r['error'] for r in rs if r['error']), None)
        for k in ('evaluations', 'skipped'):
            m[k] = sum(r[k] for r in rs)
        m['distinct'] = len(set().union(*(r['distinct'] for r in rs)))
        m['wall_s'] = max(r['wall_s'] for r in rs)
        m['labels'] = {}
        for r in rs:
            for k, v in r['labels'].items():
                m['labels'][k] = m['labels'].get(k, 0) + v
        m['samples'] = [x for r in rs for x in r['samples']][:5]
        results.append(m)

    known = known_findings(a.pid)
    violations, errors = [], []
    for k in known:
        print(f"KNOWN-FINDING: property={a.pid} {k['what']}")
    for r in results:
        if r['error']:
            errors.append(r)
        if r['violation'] is not None:
            os.makedirs(os.path.join(REPLAYS, a.pid), exist_ok=True)
            path = os.path.join(REPLAYS, a.pid, f"{r['part']}.json")
            with open(path, 'w') as f:
                json.dump(dict(property=a.pid, part=r['part'],
                               message=r['violation'], seed=seed,
                               case=r['case']), f, indent=1)
            violations.append((r, path))

    cov = dict(
        evaluations=sum(r['evaluations'] for r in results),
        distinct_nontrivial=sum(r['distinct'] for r in results),
        rule=' || '.join(f"{r['part']}: {r['rule']}" for r in results),
        samples=[dict(part=r['part'], case=c)
                 for r in results for c in r['samples'][:1]],
        parts=[dict(part=r['part'], evaluations=r['evaluations'],
                    distinct_nontrivial=r['distinct'], classes=r['labels'],
                    skipped_for_time=r['skipped'], wall_s=r['wall_s'])
               for r in results])
    os.makedirs(os.path.join(vp.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(vp.VERIF, 'evidence', a.pid + '.json'), 'w') as f:
        json.dump(dict(property=a.pid, tier=tier, seed=seed,
                       level='exploration', coverage=cov,
                       wall_s=round(time.time() - t0, 2),
                       violations=len(violations)), f, indent=1)

    for r in results:
        print(f"{a.pid} {r['part']}: {r['evaluations']} cases, "
              f"{r['distinct']} distinct non-trivial, {r['wall_s']} s"
              + (f", {r['skipped']} skipped (time)" if r['skipped'] else ''))
    for r, path in violations:
        print(f"{a.pid} {r['part']}: {r['violation']}")
        print(f"VIOLATION property={a.pid} replay={path}")
    if violations:
        sys.exit(1)
    if errors:
        for r in errors:
            print(f"ERROR in {r['part']}:\n{r['error']}", file=sys.stderr)
        sys.exit(2)
    sys.exit(0)


if __name__ == '__main__':
    main()
