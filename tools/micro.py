"""Hand-written small breakages: python3 tools/micro.py OUT.jsonl [PAR] [names]

Each is applied to a scratch copy of /repo and its own check is run (quick,
no shrinking); the survivors show where a check is blind."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = 'wake_t/'
EL = W + 'beamline_elements/'
PW = W + 'physics_models/plasma_wakefields/'
QS = PW + 'qs_rz_baxevanis/'
LP = W + 'physics_models/laser/'
TR = W + 'tracking/tracker.py'
PB = W + 'particles/particle_bunch.py'
CSR = W + 'physics_models/collective_effects/csr.py'
BA = W + 'diagnostics/bunch_analysis.py'
RZ = W + 'fields/rz_wakefield.py'
NF = W + 'fields/numerical_field.py'
GEN = W + 'utilities/bunch_generation.py'
M = []


def m(prop, name, f, old, new):
    M.append((prop, name, f, old, new))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),
                       'micro_list.py')).read())


def run(x):
    prop, name, f, old, new = x
    d = f'/tmp/micro.{os.getpid()}.{prop}.{name}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(f'git -C /repo archive HEAD | tar -x -C {d}', shell=True,
                   check=True)
    p = os.path.join(d, f)
    s = open(p).read()
    if s.count(old) < 1:
        shutil.rmtree(d)
        return dict(prop=prop, name=name, res=f'BAD EDIT {s.count(old)}')
    open(p, 'w').write(s.replace(old, new))
    t = time.time()
    res = {}
    for c in prop.split('+'):
        r = subprocess.run(['bash', VERIF + '/run.sh', c, 'quick'],
                           capture_output=True, text=True,
                           env=dict(os.environ, VP_REPO=d, VP_NOSHRINK='1',
                                    VP_NOEVIDENCE='1'))
        res[c] = r.returncode
        v = [l for l in r.stdout.splitlines() if c in l and ': ' in l
             and 'cases' not in l and 'VIOL' not in l][:2]
        if r.returncode == 1:
            break
    shutil.rmtree(d)
    return dict(prop=prop, name=name, res=res, s=round(time.time() - t),
                why=v, tail='' if r.returncode in (0, 1) else r.stdout[-300:]
                + r.stderr[-300:])


if __name__ == '__main__':
    out, par = sys.argv[1], int(sys.argv[2])
    sel = sys.argv[3:]
    done = {(json.loads(l)['prop'], json.loads(l)['name'])
            for l in open(out)} if os.path.exists(out) else set()
    todo = [x for x in M if (x[0], x[1]) not in done and
            (not sel or x[1] in sel or x[0] in sel or
             f'{x[0]}/{x[1]}' in sel)]
    with cf.ThreadPoolExecutor(par) as ex, open(out, 'a') as o:
        for r in ex.map(run, todo):
            o.write(json.dumps(r) + '\n')
            o.flush()
            print(r['prop'], r['name'], r['res'], r.get('s'), r.get('why'),
                  r.get('tail'), flush=True)
