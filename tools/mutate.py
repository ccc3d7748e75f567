"""mutate.py OUT [N [SEED [PATH-PART]]]: small changes to tfchain which its own tests let pass; which of them no check notices (quick tier).

Guides where checks are weak; decides nothing. Works on scratch copies under /tmp/mut.
  map                 which checks execute which lines (needed once)
  OUT N SEED PART     tries N random changes (of files with PART in their path), one line of JSON each in OUT; MUTANTS=rare: changes which show in unusual cases only; MUTANTS=sibling: one name for another
"""
import ast
import glob
import json
import multiprocessing
import os
import pickle
import random
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
WORK = '/tmp/mut'
PY = '/opt/venv/bin/python'
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '//', ast.FloorDiv: '*', ast.Mod: '//', ast.LShift: '>>', ast.RShift: '<<', ast.BitAnd: '|', ast.BitOr: '&'}


def mutants(src):
    """(line, start, end, replacement, kind) of characters"""
    lines = src.split('\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l) + 1)

    def pos(line, col):
        return starts[line - 1] + len(lines[line - 1].encode()[:col].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def text(n):
        a, b = span(n)
        return src[a:b]
    out = []

    def add(n, new, kind, a=None, b=None):
        if a is None:
            a, b = span(n)
        out.append((n.lineno, a, b, new, kind))

    def walk(n, quiet=False):
        if isinstance(n, ast.Raise):
            add(n, 'pass', 'raise removed')
            quiet = True
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                n.body[0]._doc = True
        if getattr(n, '_doc', False):
            return
        if not quiet:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                a, b = span(n.left)[1], span(n.comparators[0])[0]
                op = src[a:b]
                if type(n.ops[0]) in CMP and '(' not in op and ')' not in op:
                    add(n, ' ' + CMP[type(n.ops[0])] + ' ', 'comparison', a, b)
                    if isinstance(n.ops[0], (ast.Lt, ast.GtE)):
                        add(n, ' == ', 'comparison', a, b)
            if isinstance(n, ast.BoolOp):
                for x in n.values:
                    add(x, {ast.And: 'True', ast.Or: 'False'}[type(n.op)], 'part of condition')
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                add(n, text(n.operand), 'not removed')
            if isinstance(n, ast.BinOp) and type(n.op) in BIN:
                a, b = span(n.left)[1], span(n.right)[0]
                if not set('()') & set(src[a:b]):
                    add(n, ' ' + BIN[type(n.op)] + ' ', 'arithmetic', a, b)
            if isinstance(n, ast.Constant):
                if isinstance(n.value, bool):
                    add(n, str(not n.value), 'constant')
                elif isinstance(n.value, int):
                    add(n, str(n.value + 1), 'constant')
                    if n.value:
                        add(n, str(n.value - 1), 'constant')
                elif isinstance(n.value, str) and n.value and ' ' not in n.value and '{' not in n.value:
                    add(n, repr(n.value + 'x'), 'string')
            if isinstance(n, (ast.If, ast.While)):
                add(n.test, 'False', 'condition')
                if isinstance(n, ast.If):
                    add(n.test, 'True', 'condition')
            if isinstance(n, ast.IfExp):
                add(n, text(n.body), 'condition')
                add(n, text(n.orelse), 'condition')
            if isinstance(n, ast.Continue):
                add(n, 'break', 'loop')
            if isinstance(n, ast.Break):
                add(n, 'continue', 'loop')
            if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
                add(n, 'return None', 'return')
            if isinstance(n, (ast.AugAssign,)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                add(n, 'pass', 'statement removed')
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)) and not isinstance(n.value, ast.Constant):
                add(n, 'pass', 'statement removed')
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and getattr(n, '_again', False):
                add(n, 'pass', 'statement removed')
            if isinstance(n, ast.Call):
                for k in n.keywords:
                    if k.arg and isinstance(k.value, (ast.Name, ast.Attribute)) and not src[span(n)[0]:span(n)[1]].count('\n') > 3:
                        add(k.value, 'None', 'argument')
                if len(n.args) >= 2 and all(isinstance(a, (ast.Name, ast.Attribute)) for a in n.args[:2]):
                    add(n, text(n.args[1]) + ', ' + text(n.args[0]), 'arguments swapped', span(n.args[0])[0], span(n.args[1])[1])
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
                for x in (n.slice.lower, n.slice.upper):
                    if x is not None:
                        add(x, '', 'slice')
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('list', 'sorted', 'str', 'int', 'bytes', 'max', 'min', 'reversed', 'bytearray') and n.args:
                add(n, text(n.args[0]), 'call removed')
            if isinstance(n, ast.ExceptHandler) and n.body:
                pass
        for c in ast.iter_child_nodes(n):
            walk(c, quiet)
    tree = ast.parse(src)
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            names = set()
            for s in ast.walk(f):
                if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                    s._again = s.targets[0].id in names or s.targets[0].id in [a.arg for a in f.args.args]
                    names.add(s.targets[0].id)
    walk(tree)
    return [m for m in out if src[m[1]:m[2]] != m[3]]


def rare(src):
    """changes which show only in unusual cases: long lists, falsy values, second calls, one kind of several"""
    lines = src.split('\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l) + 1)

    def pos(line, col):
        return starts[line - 1] + len(lines[line - 1].encode()[:col].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def text(n):
        a, b = span(n)
        return src[a:b]
    out = []

    def add(n, new, kind, a=None, b=None):
        if a is None:
            a, b = span(n)
        out.append((n.lineno, a, b, new, kind))
    swaps = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any'}
    for n in ast.walk(ast.parse(src)):
        iters = []
        if isinstance(n, ast.For):
            iters = [n.iter]
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            iters = [g.iter for g in n.generators]
        for i in iters:
            if isinstance(i, ast.Call) and isinstance(i.func, ast.Name) and i.func.id == 'range':
                continue
            for k in (2, 3, 4, 6, 20, 50):
                add(i, '(lambda l: l[:{}])(list({}))'.format(k, text(i)), 'cut at {}'.format(k))
            add(i, 'list({})[::-1]'.format(text(i)), 'reversed')
            if not (isinstance(i, ast.Call) and isinstance(i.func, ast.Name) and i.func.id == 'enumerate'):
                add(i, '(lambda l: [x for k, x in enumerate(l) if not any(x == y for y in l[:k])])(list({}))'.format(text(i)), 'deduplicated')
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is None:
            if isinstance(n.ops[0], ast.Is):
                add(n, '(not {})'.format(text(n.left)), 'falsy')
            if isinstance(n.ops[0], ast.IsNot):
                add(n, '(True if {} else False)'.format(text(n.left)), 'falsy')
        if isinstance(n, ast.If) and isinstance(n.test, (ast.Name, ast.Attribute)):
            add(n.test, text(n.test) + ' is not None', 'not None')
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            if n.func.id == 'isinstance' and isinstance(n.args[1], ast.Tuple) and len(n.args[1].elts) > 1:
                for e in n.args[1].elts:
                    add(n.args[1], '({},)'.format(', '.join(text(x) for x in n.args[1].elts if x is not e)), 'kind left out')
            if n.func.id in swaps and n.args:
                add(n.func, swaps[n.func.id], 'opposite')
            if n.func.id == 'len':
                add(n, 'min({}, 3)'.format(text(n)), 'len at most 3')
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            if isinstance(n.type, ast.Tuple):
                for e in n.type.elts:
                    add(n.type, '({},)'.format(', '.join(text(x) for x in n.type.elts if x is not e)), 'exception left out')
            else:
                add(n.type, 'Exception', 'any exception')
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and n.slice.value == 0:
            add(n.slice, '-1', 'last for first')
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            a, b = span(n)
            o = text(n.func.value)
            if n.func.attr == 'append' and len(n.args) == 1:
                add(n, '{}.insert(0, {})'.format(o, text(n.args[0])), 'put in front')
                add(n, '({0}.append({1}) if len({0}) < 4 else None)'.format(o, text(n.args[0])), 'at most 4')
            if n.func.attr == 'pop' and len(n.args) == 1 and isinstance(n.args[0], ast.Constant):
                add(n, o + '.pop()', 'last for first')
            if n.func.attr in ('lower', 'upper', 'strip') and not n.args:
                add(n, o, 'normalization left out')
        if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            t = text(n.value)
            add(n.value, '(lambda r: r[:4] if type(r) in (list, tuple) and len(r) > 4 else r)({})'.format(t), 'list cut at 4')
            add(n.value, '(lambda r: r[:40] if type(r) in (list, tuple) and len(r) > 40 else r)({})'.format(t), 'list cut at 40')
            add(n.value, '(lambda r: r % 2**32 if type(r) is int else r)({})'.format(t), '32 bits')
            add(n.value, '(lambda r: r[:128] if type(r) in (str, bytes, bytearray) else r)({})'.format(t), 'text cut at 128')
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and isinstance(n.value, (ast.Name, ast.Call)):
            t = text(n.value)
            add(n.value, '(lambda r: r[:4] if type(r) in (list, tuple) and len(r) > 4 else r)({})'.format(t), 'list cut at 4')
            add(n.value, '(lambda r: r % 2**32 if type(r) is int else r)({})'.format(t), '32 bits')
            add(n, 'if not {}: {}'.format(text(n.targets[0]), text(n)), 'first assignment only')
        if isinstance(n, ast.FunctionDef) and [a.arg for a in n.args.args] == ['self'] and n.name not in ('__init__', '__hash__') and not [d for d in n.decorator_list if not (isinstance(d, ast.Name) and d.id == 'property')]:
            a = pos(n.lineno, n.col_offset)
            add(n, '@(lambda f: lambda self: self.__dict__.setdefault("mem_" + f.__name__, f(self)))\n' + ' ' * n.col_offset, 'remembered', a, a)
        if isinstance(n, ast.FunctionDef) and n.name not in ('__init__', '__hash__') and n.args.args and n.args.args[0].arg in ('self', 'cls') and all(isinstance(d, ast.Name) and d.id in ('property', 'classmethod') for d in n.decorator_list) and not any(isinstance(x, (ast.Yield, ast.Raise)) for x in ast.walk(n)):
            a = pos(n.lineno, n.col_offset)
            add(n, '@(lambda f, memo={}: lambda self, *a, **k: memo.setdefault(repr((a, k)), f(self, *a, **k)))\n' + ' ' * n.col_offset, 'remembered by all', a, a)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'add', 'insert', 'extend', 'update') and n.args and n.col_offset:
            add(n, '({0} if len({1}) < 20 else None)'.format(text(n), text(n.func.value)), 'at most 20')
    return [m for m in out if m[4].startswith('remembered') or src[m[1]:m[2]] != m[3]]


def sibling(src):
    """one name or attribute in place of another one of the same function, as when a line is copied and not quite adapted"""
    lines = src.split('\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l) + 1)

    def pos(line, col):
        return starts[line - 1] + len(lines[line - 1].encode()[:col].decode())
    out = []
    for f in ast.walk(ast.parse(src)):
        if not isinstance(f, ast.FunctionDef):
            continue
        names = sorted({n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for a in f.args.args})
        attrs = sorted({n.attr for n in ast.walk(f) if isinstance(n, ast.Attribute)})
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in names and isinstance(n.ctx, ast.Load):
                for x in names:
                    if x != n.id:
                        out.append((n.lineno, pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset), x, 'other name'))
            if isinstance(n, ast.Attribute):
                e = pos(n.end_lineno, n.end_col_offset)
                for x in attrs:
                    if x != n.attr:
                        out.append((n.lineno, e - len(n.attr), e, x, 'other attribute'))
    return out


MAP = r"""
import sys, os, pickle
here, prop, out = sys.argv[1:]
sys.argv = ['coverage.py', prop]
import io, contextlib
with contextlib.redirect_stdout(io.StringIO()):
    ns = {'__name__': 'x', '__file__': os.path.join(here, 'tools', 'coverage.py')}
    exec(compile(open(ns['__file__']).read(), ns['__file__'], 'exec'), ns)
pickle.dump({(f[len(ns['REPO']) + 1:], n) for f, n in ns['seen']}, open(out, 'wb'))
"""

TRY = r"""
import sys, os, json, importlib
here, repo, props = sys.argv[1], sys.argv[2], sys.argv[3].split(',')
sys.path[:0] = [repo, here]
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
os.environ['TZ'] = 'UTC'
os.environ['HYPOTHESIS_STORAGE_DIRECTORY'] = '/tmp/mut/hyp'
import time, warnings
time.tzset()
warnings.simplefilter('ignore')
import tfchain
assert os.path.realpath(tfchain.__file__).startswith(os.path.realpath(repo))
from pbt import core, registry
core.SHRINK_WALL_LIMIT = 0
tasks = []
for p in props:
    mod = importlib.import_module(registry.CHECKS[p])
    for i, s in enumerate(mod.SUBS):
        n = s.shards or max(1, min(8, s.quick // 60))
        b, r = divmod(s.quick, n)
        for k in range(min(n, 2)):
            tasks.append((k, p, registry.CHECKS[p], i, core.derive_seed(1, p, s.name, k), b + (k < r)))
tasks.sort(key=lambda t: (t[0] > 0, props.index(t[1]), t[0]))
errors = []
for k, p, m, i, seed, n in tasks:
    r = core.run_shard(m, i, k, seed, n)
    if r['failure']:
        print('\n@@' + json.dumps(['killed', p, r['sub'], r['failure']['message'][:300]]))
        break
    if r['error']:
        errors.append([p, r['sub'], r['error'][-600:]])
else:
    print('\n@@' + json.dumps(['error', errors] if errors else ['survived']))
sys.stdout.flush()
os._exit(0)
"""


def job(args):
    n, path, m, props = args
    w = multiprocessing.current_process()._identity[0]
    repo = '{}/w{}'.format(WORK, w)
    if not os.path.isdir(repo):
        os.makedirs(repo)
        for d in ('tfchain', 'tests'):
            shutil.copytree(os.path.join(REPO, d), os.path.join(repo, d))
    src = open(os.path.join(REPO, path)).read()
    target = os.path.join(repo, path)
    row = {'n': n, 'path': path, 'line': m[0], 'kind': m[4], 'old': src[m[1]:m[2]][:200], 'new': m[3], 'text': src.split('\n')[m[0] - 1].strip()}
    with open(target, 'w') as f:
        f.write(src[:m[1]] + m[3] + src[m[2]:])
    try:
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
        try:
            r = subprocess.run([PY, '-m', 'pytest', 'tests', '-q', '-x', '-p', 'no:cacheprovider', '--ignore=tests/test_explorer_client.py'], cwd=repo, env=env, capture_output=True, timeout=60)
            if r.returncode:
                return dict(row, result=['tests'])
        except subprocess.TimeoutExpired:
            return dict(row, result=['tests'])
        if not props:
            return dict(row, result=['not executed'])
        try:
            r = subprocess.run([PY, '-c', TRY, WORK + '/verif', repo, ','.join(props)], capture_output=True, text=True, timeout=300)
        except subprocess.TimeoutExpired:
            return dict(row, result=['timeout'])
        for l in r.stdout.split('\n'):
            if l.startswith('@@'):
                return dict(row, result=json.loads(l[2:]))
        return dict(row, result=['error', r.stderr[-500:]])
    finally:
        with open(target, 'w') as f:
            f.write(src)


def main():
    os.makedirs(WORK, exist_ok=True)
    if sys.argv[1] == 'map':
        sys.path.insert(0, HERE)
        from pbt import registry
        table = {}
        for p in sorted(registry.CHECKS):
            out = WORK + '/one'
            subprocess.run([PY, '-c', MAP, HERE, p, out], check=True)
            for k in pickle.load(open(out, 'rb')):
                table.setdefault(k, []).append(p)
        pickle.dump(table, open(WORK + '/map', 'wb'))
        return
    out, count, seed, part = sys.argv[1:5] + ['200', '1', ''][len(sys.argv) - 2:]
    table = pickle.load(open(WORK + '/map', 'rb'))
    size = {}
    for k, ps in table.items():
        for p in ps:
            size[p] = size.get(p, 0) + 1
    if not os.path.isdir(WORK + '/verif'):
        os.makedirs(WORK + '/verif')
    shutil.copytree(HERE + '/pbt', WORK + '/verif/pbt', dirs_exist_ok=True)
    jobs = []
    for path in sorted(glob.glob(REPO + '/tfchain/**/*.py', recursive=True)):
        rel = path[len(REPO) + 1:]
        if not any(x in rel for x in part.split(',')):
            continue
        for m in {'rare': rare, 'sibling': sibling}.get(os.environ.get('MUTANTS'), mutants)(open(path).read()):
            ks = [-1 - k for k in range(14)] if m[4].startswith('remembered') else range(4)     # (a def is executed by all)
            found = [table[rel, m[0] - k] for k in ks if (rel, m[0] - k) in table]
            ps = sorted(min(found[:3], key=len) if found and m[4].startswith('remembered') else found[0] if found else [], key=lambda p: size[p])[:10]
            jobs.append((len(jobs), rel, m, ps))
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)['n'] for l in open(out)}
    print(len(jobs), 'changes')
    if os.environ.get('KINDS'):
        jobs = [j for j in jobs if j[2][4] in os.environ['KINDS'].split(',')]
    random.Random(int(seed)).shuffle(jobs)
    jobs = [j for j in jobs[:int(count)] if j[0] not in done]
    with multiprocessing.Pool(int(os.environ.get('WORKERS', '8'))) as pool, open(out, 'a') as f:
        for r in pool.imap_unordered(job, jobs):
            f.write(json.dumps(r) + '\n')
            f.flush()


if __name__ == '__main__':
    main()
