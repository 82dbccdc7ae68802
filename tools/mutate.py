"""Mutation campaign: python3 tools/mutate.py OUT.jsonl N SEED [file-substr..]

Samples N mutants per file of the code under test (operator, constant, name,
statement and argument changes), runs the mapped checks on each in a scratch
copy until one reports, and appends one line per mutant to OUT.jsonl. The
survivors show what the checks do not see (or equivalent mutants)."""
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import sys
import time

VERIF = os.environ.get('MUT_VERIF', os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))))
PW = 'physics_models/plasma_wakefields/'
QS = PW + 'qs_rz_baxevanis/'
MAP = {
    'tracking/tracker.py': 'C02 C01 C03 C17 C18 C26',
    'utilities/bunch_saving.py': 'C19',
    'utilities/bunch_manipulation.py': 'C20 C10 C09 C22',
    'utilities/bunch_generation.py': 'C20 C19',
    'utilities/other.py': 'C18 C19 C16',
    'utilities/numba.py': 'C26',
    'particles/push/transfer_matrix.py': 'C09 C08',
    'particles/push/boris_pusher.py': 'C01 C04',
    'particles/push/runge_kutta_4.py': 'C01 C04',
    'particles/deposition.py': 'C06',
    'particles/interpolation.py': 'C07 C16',
    'particles/particle_bunch.py': 'C22 C01 C04 C18 C09 C03 C02',
    'beamline_elements/beamline.py': 'C28',
    'beamline_elements/field_quadrupole.py': 'C25 C27',
    'beamline_elements/active_plasma_lens.py': 'C25 C27',
    'beamline_elements/field_element.py': 'C03 C02 C28 C18 C27',
    'beamline_elements/plasma_stage.py': 'C24 C17 C05 C27',
    'beamline_elements/plasma_ramp.py': 'C23 C27 C24',
    'beamline_elements/tm_elements.py': 'C09 C03 C08 C10 C28 C27 C18',
    'diagnostics/bunch_analysis.py': 'C21',
    'diagnostics/openpmd_diag.py': 'C18 C19 C28',
    'fields/gather.py': 'C05 C01',
    'fields/base.py': 'C05 C18 C27',
    'fields/interpolation.py': 'C07 C13 C17',
    'fields/analytical_field.py': 'C05 C26',
    'fields/numerical_field.py': 'C02 C17',
    'fields/rz_wakefield.py': 'C17 C18 C07 C14',
    PW + 'focusing_blowout.py': 'C24 C05',
    PW + 'simple_blowout.py': 'C24 C05',
    PW + 'custom_blowout.py': 'C24 C05',
    PW + 'qs_cold_fluid_1x3p.py': 'C14 C17',
    QS + 'plasma_push/ab5.py': 'C16 C15',
    QS + 'plasma_push/rk4.py': 'C16 C15',
    QS + 'plasma_particles.py': 'C16 C15 C17 C27',
    QS + 'wakefield.py': 'C16 C15 C17 C27',
    QS + 'deposition.py': 'C16 C15',
    QS + 'psi_and_derivatives.py': 'C16 C15',
    QS + 'b_theta.py': 'C16 C15',
    QS + 'solver.py': 'C16 C15 C17',
    'physics_models/em_fields/quadrupole.py': 'C25 C05',
    'physics_models/em_fields/linear_b_theta.py': 'C25 C05',
    'physics_models/laser/tdma.py': 'C12',
    'physics_models/laser/utils.py': 'C12',
    'physics_models/laser/envelope_solver_non_centered.py': 'C12',
    'physics_models/laser/envelope_solver.py': 'C12',
    'physics_models/laser/laser_pulse.py': 'C11 C13 C12 C27',
    'physics_models/beam_optics/transfer_matrices.py': 'C08',
    'physics_models/collective_effects/csr.py': 'C10 C28',
}
PAIRS = [('x', 'y'), ('px', 'py'), ('bx', 'by'), ('ex', 'ey'), ('n_r', 'n_xi'),
         ('nr', 'nz'), ('dr', 'dz'), ('dr', 'dxi'), ('xi_min', 'xi_max'),
         ('sin', 'cos'), ('min', 'max'), ('ceil', 'floor'), ('m_species',
                                                            'q_species')]
SWAP = {a: b for p in PAIRS for a, b in (p, p[::-1])}
OPS = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
       ast.Pow: '*'}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
       ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is'}


def offsets(src):
    o = [0]
    for line in src.splitlines(True):
        o.append(o[-1] + len(line.encode()))
    return o


def mutants(src):
    """(start, end, new text, line, kind) of byte replacements."""
    tree = ast.parse(src)
    off = offsets(src)
    raw = src.encode()
    out = []

    def span(n):
        return (off[n.lineno - 1] + n.col_offset,
                off[n.end_lineno - 1] + n.end_col_offset)

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    def add(n, new, kind):
        a, b = span(n)
        if raw[a:b].decode() != new:
            out.append((a, b, new, n.lineno, kind))
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(
                    n.body[0].value, ast.Constant):
                doc.add(n.body[0].value)
        for f in ('annotation', 'returns'):
            a = getattr(n, f, None)
            if a is not None:
                doc.update(ast.walk(a))
        if isinstance(n, ast.Raise):
            doc.update(ast.walk(n))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            doc.update(ast.walk(n))
    for n in ast.walk(tree):
        if n in doc:
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in OPS:
            l, r = text(n.left), text(n.right)
            a, b = span(n)
            _, le = span(n.left)
            rs, _ = span(n.right)
            mid = raw[le:rs].decode()
            sym = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
                   ast.Pow: '**'}[type(n.op)]
            if sym in mid:
                out.append((le, rs, mid.replace(sym, OPS[type(n.op)], 1),
                            n.lineno, 'binop'))
        elif isinstance(n, ast.AugAssign) and type(n.op) in OPS:
            t = text(n)
            sym = {ast.Add: '+=', ast.Sub: '-=', ast.Mult: '*=',
                   ast.Div: '/=', ast.Pow: '**='}[type(n.op)]
            new = {'+=': '-=', '-=': '+=', '*=': '/=', '/=': '*=',
                   '**=': '*='}[sym]
            add(n, t.replace(sym, new, 1), 'augop')
            add(n, t.replace(sym, '=', 1), 'aug-to-assign')
            add(n, 'pass', 'delete')
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(
                n.ops[0]) in CMP:
            add(n, f'{text(n.left)} {CMP[type(n.ops[0])]} '
                f'{text(n.comparators[0])}', 'compare')
        elif isinstance(n, ast.BoolOp):
            s = [text(v) for v in n.values]
            add(n, (' or ' if isinstance(n.op, ast.And) else ' and ').join(
                f'({v})' for v in s), 'boolop')
        elif isinstance(n, ast.UnaryOp) and isinstance(
                n.op, (ast.Not, ast.USub)):
            add(n, f'({text(n.operand)})', 'unary')
        elif isinstance(n, ast.If):
            add(n.test, f'(True or ({text(n.test)}))', 'if-true')
            add(n.test, f'(False and ({text(n.test)}))', 'if-false')
        elif isinstance(n, ast.IfExp):
            add(n.test, f'(not ({text(n.test)}))', 'ifexp')
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                add(n, str(not v), 'const')
            elif isinstance(v, int):
                add(n, str(v + 1), 'const')
                if v > 0:
                    add(n, str(v - 1), 'const')
            elif isinstance(v, float):
                add(n, f'({v!r} * 1.5 + 0.01 * ({v!r} == 0))', 'const')
        elif isinstance(n, ast.Name) and n.id in SWAP and isinstance(
                n.ctx, ast.Load):
            add(n, SWAP[n.id], 'name')
        elif isinstance(n, ast.Attribute) and n.attr in SWAP and isinstance(
                n.ctx, ast.Load):
            a, b = span(n)
            out.append((b - len(n.attr), b, SWAP[n.attr], n.lineno, 'attr'))
        elif isinstance(n, ast.Call):
            f = text(n.func)
            if f.endswith('.copy') and not n.args:
                add(n, f[:-5], 'no-copy')
            if f in ('copy', 'deepcopy', 'np.copy', 'np.array', 'np.abs',
                     'abs', 'np.ascontiguousarray') and n.args:
                add(n, f'({text(n.args[0])})', 'no-' + f)
            for k in n.keywords:
                if k.arg:
                    a, b = span(k)
                    e = b
                    if raw[e:e + 1] == b',':
                        e += 1
                    else:
                        # drop the comma before
                        while raw[a - 1:a].isspace():
                            a -= 1
                        if raw[a - 1:a] == b',':
                            a -= 1
                    out.append((a, e, '', n.lineno, 'drop-kw ' + k.arg))
            for i in range(len(n.args) - 1):
                x, y = n.args[i], n.args[i + 1]
                (a, b), (c, e) = span(x), span(y)
                if raw[a:b] != raw[c:e]:
                    out.append((a, e, text(y) + raw[b:c].decode() + text(x),
                                n.lineno, 'swap-args'))
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, 'pass', 'delete')
        elif isinstance(n, ast.Assign) and isinstance(
                n.targets[0], (ast.Attribute, ast.Subscript)):
            add(n, 'pass', 'delete')
    # only those that still parse and differ
    good = []
    for m in out:
        new = (raw[:m[0]] + m[2].encode() + raw[m[1]:]).decode()
        try:
            if ast.dump(ast.parse(new)) != ast.dump(tree):
                good.append(m)
        except SyntaxError:
            pass
    return good


def run(job):
    k, f, m = job
    path = 'wake_t/' + f
    d = f'/tmp/mut.{os.getpid()}.{k}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        subprocess.check_call(f'git -C /repo archive HEAD | tar -x -C {d}',
                              shell=True)
        raw = open(f'{d}/{path}', 'rb').read()
        old = raw[m[0]:m[1]].decode()
        line = raw.decode().splitlines()[m[3] - 1].strip()
        open(f'{d}/{path}', 'wb').write(raw[:m[0]] + m[2].encode() +
                                        raw[m[1]:])
        res, t0 = {}, time.time()
        env = dict(os.environ, VP_REPO=d, VP_NOSHRINK='1')
        for c in MAP[f].split():
            r = subprocess.run(['timeout', '-k', '5', '600', 'bash',
                                VERIF + '/run.sh', c, 'quick'], env=env,
                               stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            res[c] = r.returncode
            if r.returncode == 1:
                break
            if r.returncode:
                res['log'] = r.stdout[-600:]
        return dict(file=f, line=m[3], src=line, old=old, new=m[2],
                    kind=m[4], res=res, span=m[:2],
                    killed=1 in res.values(),
                    s=round(time.time() - t0))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    sel = sys.argv[4:]
    g = random.Random(seed)
    jobs = []
    for f in MAP:
        if sel and not any(s in f for s in sel):
            continue
        src = subprocess.check_output(
            ['git', '-C', '/repo', 'show', 'HEAD:wake_t/' + f], text=True)
        ms = mutants(src)
        g.shuffle(ms)
        lines = {}
        take = []
        for m in ms:          # spread over the lines
            if lines.get(m[3], 0) < 1 + len(take) // 40:
                lines[m[3]] = lines.get(m[3], 0) + 1
                take.append(m)
        print(f, len(ms), 'mutants', flush=True)
        jobs += [(f, m) for m in take[:n]]
    g.shuffle(jobs)
    with cf.ThreadPoolExecutor(int(os.environ.get('MUT_P', '4'))) as ex:
        fs = [ex.submit(run, (k, *j)) for k, j in enumerate(jobs)]
        for x in cf.as_completed(fs):
            with open(out, 'a') as o:
                o.write(json.dumps(x.result()) + '\n')


if __name__ == '__main__':
    main()
