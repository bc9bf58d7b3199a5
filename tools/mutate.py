"""which small changes of a source file does no monitor notice?

python3 tools/mutate.py OUT.json WORKERS PER_FILE FILE[=C01,C02] ...   (files relative to /repo/metcalcpy)

Every mutant is one changed expression or one dropped statement in a scratch clone of /repo; the quick monitors of the
properties anchored in that file run against it from a scratch copy of /verif.  Survivors are printed for reading: they are
equivalent, outside the claims, or a gap."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv,
       ast.Pow: ast.Mult, ast.MatMult: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}
CALLS = {'nansum': 'sum', 'nanmean': 'mean', 'min': 'max', 'max': 'min', 'argmin': 'argmax', 'argmax': 'argmin', 'floor': 'ceil',
         'ceil': 'floor', 'any': 'all', 'all': 'any', 'sin': 'cos', 'cos': 'sin', 'nanmax': 'nanmin', 'nanmin': 'nanmax', 'abs': 'float',
         'mean': 'median', 'median': 'mean', 'append': 'extend', 'fft': 'ifft', 'ifft': 'fft', 'real': 'imag', 'imag': 'real'}


def seg(src_lines, n):
    return n.lineno, n.col_offset, n.end_lineno, n.end_col_offset


def mutants(src):
    """list of (line, description, (l0, c0, l1, c1), replacement text)"""
    tree = ast.parse(src)
    res = []

    def add(node, new, what):
        try:
            txt = ast.unparse(new) if isinstance(new, ast.AST) else new
        except Exception:
            return
        if isinstance(node, (ast.BinOp, ast.Compare, ast.BoolOp, ast.UnaryOp, ast.IfExp)):
            txt = f'({txt})'
        res.append((node.lineno, what, seg(None, node), txt))

    strings = {}
    for fn in ast.walk(tree):
        if isinstance(fn, (ast.FunctionDef,)):
            vals = [n.value for n in ast.walk(fn) if isinstance(n, ast.Constant) and isinstance(n.value, str) and ' ' not in n.value
                    and 1 < len(n.value) < 25 and '\n' not in n.value]
            for n in ast.walk(fn):
                if isinstance(n, ast.Constant) and isinstance(n.value, str):
                    strings[id(n)] = sorted(set(vals) - {n.value})
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            docs.add(id(n.value))
    in_f = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.JoinedStr):
            for m in ast.walk(n):
                in_f.add(id(m))
        if isinstance(n, ast.Call):
            f = n.func
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
            root = f.value.id if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) else ''
            if nm in ('print', 'filterwarnings', 'catch_warnings', 'add_argument', 'ArgumentParser', 'FileType') or root in ('logging', 'logger', 'warnings'):
                for m in ast.walk(n):
                    in_f.add(id(m))
        if isinstance(n, (ast.Raise, ast.Assert)):
            for m in ast.walk(n):
                in_f.add(id(m))
    main_lines = set()
    for n in tree.body:
        if isinstance(n, ast.If) and '__main__' in ast.unparse(n.test):
            main_lines |= set(range(n.lineno, n.end_lineno + 1))

    for fn in ast.walk(tree):    # figures are not judged
        if isinstance(fn, ast.FunctionDef) and ('plot' in fn.name or fn.name.startswith('show_')):
            main_lines |= set(range(fn.lineno, fn.end_lineno + 1))
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and id(n.value) in in_f:
            in_f.add(id(n))

    def clone(n, **kw):
        c = ast.parse(ast.unparse(n), mode='eval').body
        for k, v in kw.items():
            setattr(c, k, v)
        return c

    for n in ast.walk(tree):
        if id(n) in in_f or getattr(n, 'lineno', 0) in main_lines:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            add(n, clone(n, ops=[CMP[type(n.ops[0])]()]), 'cmp')
            if isinstance(n.ops[0], (ast.Lt, ast.Gt)):
                add(n, clone(n, ops=[(ast.Gt if isinstance(n.ops[0], ast.Lt) else ast.Lt)()]), 'cmp-rev')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.left, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(n.left, 'value', ''), str):
                continue
            add(n, clone(n, op=BIN[type(n.op)]()), 'bin')
            if isinstance(n.op, (ast.Sub, ast.Div)):
                c = clone(n)
                c.left, c.right = c.right, c.left
                add(n, c, 'swap')
            if isinstance(n.op, (ast.Add, ast.Sub)):
                add(n, clone(n).left, 'drop-term')
        elif isinstance(n, ast.BoolOp):
            add(n, clone(n, op=ast.And() if isinstance(n.op, ast.Or) else ast.Or()), 'bool')
            for i in range(len(n.values)):
                c = clone(n)
                if len(c.values) > 1:
                    del c.values[i]
                    add(n, c if len(c.values) > 1 else c.values[0], f'drop-cond{i}')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            add(n, clone(n).operand, 'unary')
        elif isinstance(n, ast.Constant) and id(n) not in docs:
            v = n.value
            if isinstance(v, bool):
                add(n, repr(not v), 'const')
            elif isinstance(v, int):
                add(n, f'({v + 1})', 'const+1')
                if v > 0:
                    add(n, f'({v - 1})', 'const-1')
            elif isinstance(v, float):
                add(n, f'({v * 1.1 + (v == 0) * 0.1})', 'const')
            elif isinstance(v, str) and strings.get(id(n)) and v:
                o = strings[id(n)]
                add(n, repr(random.Random(v + str(n.lineno)).choice(o)), 'str')
        elif isinstance(n, ast.Call):
            f = n.func
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
            if nm in CALLS:
                c = clone(n)
                if isinstance(c.func, ast.Attribute):
                    c.func.attr = CALLS[nm]
                else:
                    c.func.id = CALLS[nm]
                add(n, c, 'call')
            if nm in ('copy', 'deepcopy', 'sort_values', 'drop_duplicates', 'astype', 'reset_index', 'dropna', 'transpose', 'fillna', 'strip', 'lower'):
                if isinstance(f, ast.Attribute) and not (isinstance(f.value, ast.Name) and f.value.id in ('np', 'pd', 'copy')):
                    add(n, f.value, 'drop-call')
            if nm in ('abs', 'sqrt', 'fabs', 'unique', 'flip', 'sorted', 'squeeze', 'conj', 'conjugate') and n.args:
                add(n, n.args[0], 'drop-fn')
            for i, k in enumerate(n.keywords):
                if k.arg:
                    c = clone(n)
                    del c.keywords[i]
                    add(n, c, f'drop-kw-{k.arg}')
            if len(n.args) == 2 and nm not in ('isinstance', 'getattr', 'hasattr'):
                c = clone(n)
                c.args = c.args[::-1]
                add(n, c, 'swap-args')
        elif isinstance(n, ast.If) and not n.orelse:
            add(n.test, 'False', 'never')
            add(n.test, 'True', 'always')
        elif isinstance(n, ast.If):
            add(n.test, f'not ({ast.unparse(n.test)})', 'negate')
        elif isinstance(n, ast.Assign) and not isinstance(n.value, ast.Constant):
            t = ast.unparse(n.targets[0])
            if t in ast.unparse(n.value) and len(t) > 1:
                add(n, 'pass', 'drop-assign')
        elif isinstance(n, ast.AugAssign):
            add(n, 'pass', 'drop-aug')
        elif isinstance(n, (ast.Continue, ast.Break)):
            add(n, 'pass', 'drop-jump')
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, 'pass', 'drop-stmt')
    return res


def apply(src, m):
    L = src.split('\n')
    b = [x.encode() for x in L]
    l0, c0, l1, c1 = m[2]
    head, tail = b[l0 - 1][:c0], b[l1 - 1][c1:]
    new = head + m[3].encode() + tail
    return b'\n'.join(b[:l0 - 1] + [new] + b[l1:]).decode()


def main():
    out, workers, per = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    props = [json.loads(x) for x in open('/verif/properties.jsonl')]
    cov = {}
    if os.environ.get('COVLINES'):    # file:line of every line some monitor executes
        for x in open(os.environ['COVLINES']):
            a, b = x.strip().rsplit(':', 1)
            cov.setdefault(a, set()).add(int(b))
    q = Queue()
    for w in range(workers):
        d = f'/tmp/mut{w}'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.run(f'git clone -q /repo {d}/repo; mkdir {d}/verif; cp -a /verif/run.sh /verif/lib /verif/checks /verif/KNOWN_FINDINGS.txt {d}/verif/', shell=True, check=True)
        q.put(d)
    jobs = []
    for spec in sys.argv[4:]:
        f, _, cs = spec.partition('=')
        rel = 'metcalcpy/' + f
        checks = cs.split(',') if cs else [p['id'] for p in props if rel in p['anchors']['files']]
        src = open(f'/tmp/mut0/repo/{rel}').read()    # /repo itself may be in use
        ms, seen, skipped = [], set(), 0
        for m in mutants(src):
            t = apply(src, m)
            if t in seen or t == src:
                continue
            seen.add(t)
            try:
                compile(t, f, 'exec')
            except SyntaxError:
                continue
            if f in cov and m[0] not in cov[f]:
                skipped += 1
                continue
            ms.append(m)
        random.Random(7).shuffle(ms)
        print(f'{f}: {len(ms)} mutants, {skipped} on lines never run, {min(per, len(ms))} run, checks {checks}', flush=True)
        jobs += [(rel, src, m, checks) for m in ms[:per]]
    res = []

    def run(job):
        rel, src, m, checks = job
        d = q.get()
        try:
            open(f'{d}/repo/{rel}', 'w').write(apply(src, m))
            env = dict(os.environ, VERIF_REPO=f'{d}/repo', VERIF_FAILFAST='1', VERIF_SEED='1')
            status = 'SURVIVED'
            for c in checks:
                try:
                    r = subprocess.run(['timeout', '150', 'bash', f'{d}/verif/run.sh', c, 'quick'], env=env, capture_output=True, text=True)
                except Exception:
                    continue
                if r.returncode != 0:
                    status = f'{c}:{r.returncode}'
                    if r.returncode == 1 and 'VIOLATION' in r.stdout:
                        break
                    status += ' ' + (r.stderr.strip().splitlines() or [''])[-1][:80]
                    if r.returncode in (124,):
                        break
        finally:
            open(f'{d}/repo/{rel}', 'w').write(src)
            q.put(d)
        line = src.split('\n')[m[0] - 1].strip()
        e = dict(file=rel, line=m[0], kind=m[1], new=m[3], code=line, status=status)
        res.append(e)
        json.dump(res, open(out, 'w'), indent=0)
        if status == 'SURVIVED' or ' ' in status:
            print(f'{status} {rel}:{m[0]} [{m[1]}] {line}  ->  {m[3]}', flush=True)

    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(run, jobs))
    k = sum(e['status'] != 'SURVIVED' for e in res)
    print(f'{k} of {len(res)} noticed')
    for w in range(workers):
        shutil.rmtree(f'/tmp/mut{w}', ignore_errors=True)


main()
