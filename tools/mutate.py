"""Kill rate of a check: python3-vt tools/mutate.py C07 [count] [seed]. Mutates statements of the functions the check encodes, in a copy of
/repo; drops mutants that the existing tests notice (when asked with TESTS=1); runs the quick check on the rest and prints the survivors."""
import ast
import copy
import glob
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitXor,
       ast.LShift: ast.RShift, ast.RShift: ast.LShift, ast.Mod: ast.Mult, ast.FloorDiv: ast.Mult, ast.Pow: ast.Mult, ast.BitXor: ast.BitOr}


def sites(fn):
    """(description, mutator on a copy) for every node of a function."""
    out = []
    nodes = list(ast.walk(fn))
    for i, n in enumerate(nodes):
        if isinstance(n, ast.Compare):
            for k, o in enumerate(n.ops):
                if type(o) in CMP:
                    out.append((i, 'cmp', k))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                out.append((i, 'bin', 0))
        elif isinstance(n, ast.BoolOp):
            out.append((i, 'bool', 0))
            for k in range(len(n.values)):
                out.append((i, 'drop', k))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            out.append((i, 'plus', 0))
            out.append((i, 'minus', 0))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            out.append((i, 'flip', 0))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            out.append((i, 'neg', 0))
        elif isinstance(n, ast.Break):
            out.append((i, 'cont', 0))
        elif isinstance(n, ast.Continue):
            out.append((i, 'brk', 0))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('min', 'max', 'any', 'all'):
            out.append((i, 'call', 0))
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            out.append((i, 'slice', 0))
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            out.append((i, 'del', 0))
    return out


def apply(fn, site):
    i, kind, k = site
    n = list(ast.walk(fn))[i]
    before = ast.unparse(n)
    if kind == 'cmp':
        n.ops[k] = CMP[type(n.ops[k])]()
    elif kind == 'bin':
        n.op = BIN[type(n.op)]()
    elif kind == 'bool':
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == 'drop':
        n.values.pop(k)
        if len(n.values) == 1:
            n.values.append(copy.deepcopy(n.values[0]))
    elif kind in ('plus', 'minus'):
        n.value = n.value + (1 if kind == 'plus' else -1)
    elif kind == 'flip':
        n.value = not n.value
    elif kind == 'neg':
        n.test = ast.UnaryOp(ast.Not(), n.test)
    elif kind in ('cont', 'brk'):
        for p in ast.walk(fn):
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(p, f, None)
                if isinstance(b, list) and n in b:
                    b[b.index(n)] = ast.Continue() if kind == 'cont' else ast.Break()
        return before, kind
    elif kind == 'call':
        n.func.id = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any'}[n.func.id]
    elif kind == 'slice':
        n.slice = ast.Slice(n.slice.lower, None, None) if n.slice.upper is not None else ast.Slice(None, None, None)
    elif kind == 'del':
        for p in ast.walk(fn):
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(p, f, None)
                if isinstance(b, list) and n in b:
                    b[b.index(n)] = ast.Pass()
        return before, 'delete'
    ast.fix_missing_locations(fn)
    return before, ast.unparse(n)


def functions(prop):
    out = {}
    ev = json.load(open(os.path.join(VERIF, 'evidence', prop + '.json')))['coverage']['functions_encoded']
    for f in ev:
        mod, _, q = f.partition(':')
        if mod.startswith('harness'):
            continue
        out.setdefault(mod, []).append(q)
    return out


def main():
    prop, count, seed = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 20, int(sys.argv[3]) if len(sys.argv) > 3 else 1
    only = os.environ.get('ONLY', '')
    rnd = random.Random(seed)
    anchors = [q for q in map(json.loads, open(os.path.join(VERIF, 'properties.jsonl'))) if q['id'] == prop][0]['anchors']['files']
    fns = functions(prop)
    todo = []
    for f in sorted(glob.glob('/repo/semantic_codec/**/*.py', recursive=True) + ['/repo/recover_program.py']):
        rel = f[6:]
        if rel not in anchors or (only and only not in rel):
            continue
        mod = rel[:-3].replace('/', '.')
        tree = ast.parse(open(f).read())
        names = set(q.split('.')[-1] for q in fns.get(mod, []))
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef) and n.name in names:
                for s in sites(n):
                    todo.append((rel, n.name, n.lineno, s))
    rnd.shuffle(todo)
    print('%s: %d sites' % (prop, len(todo)), flush=True)
    killed, survived, other = 0, [], 0
    for rel, name, line, s in todo:
        if killed + len(survived) + other >= count:
            break
        tree = ast.parse(open('/repo/' + rel).read())
        fn = [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef) and n.lineno == line][0]
        node = list(ast.walk(fn))[s[0]]
        where = getattr(node, 'lineno', line)
        text = open('/repo/' + rel).read().split('\n')[where - 1].strip()
        before, after = apply(fn, s)
        d = tempfile.mkdtemp(prefix='mutant')
        try:
            subprocess.check_call('cp -a /repo/. %s/' % d, shell=True)
            with open(os.path.join(d, rel), 'w') as f:
                f.write(ast.unparse(ast.fix_missing_locations(tree)) + '\n')
            if os.environ.get('TESTS'):
                t = subprocess.run(['timeout', '120', '/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=100', '--randomly-seed=0',
                                    '--randomly-dont-reorganize', '--deselect', 'test_registerReadDistance.py'] +
                                   ['--ignore=test_%s.py' % x for x in ('DARMInstruction', 'instructionModifier', 'instructionPartFrequencyChange',
                                                                        'instructionPartFrequencyCounter')],
                                   cwd=os.path.join(d, 'tests'), capture_output=True, text=True,
                                   env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONHASHSEED='0'))
                if ' failed' in t.stdout or ' error' in t.stdout or t.returncode == 124:
                    continue
            try:
                r = subprocess.run(['python3-vt', 'run_check.py', prop, 'quick'], cwd=VERIF, env=dict(os.environ, SX_REPO=d), capture_output=True,
                                   text=True, timeout=400)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
            if rc == 1:
                killed += 1
            elif rc == 0:
                survived.append(1)
                print('  SURVIVED %s:%d %s: [%s] %s  =>  %s' % (rel, where, name, text, before[:150].replace('\n', ';'), after[:150].replace('\n', ';')), flush=True)
            else:
                other += 1
                print('  rc=%s %s:%d %s: [%s] %s  =>  %s' % (rc, rel, where, name, text, before[:150].replace('\n', ';'), after[:150].replace('\n', ';')), flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    print('%s: killed %d, survived %d, no answer %d' % (prop, killed, len(survived), other), flush=True)


main()
