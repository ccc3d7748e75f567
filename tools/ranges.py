"""ranges.py [PROPERTY...]: what values the local variables of each function of tfchain take (at its return) while the checks run.
Guides where generators do not reach; decides nothing."""
import functools
import glob
import os
import pickle
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [REPO, HERE]
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
os.environ['TZ'] = 'UTC'
os.environ['HYPOTHESIS_STORAGE_DIRECTORY'] = os.path.join(HERE, 'out', 'hypothesis')
PREFIX = REPO + '/tfchain'
seen = {}       # (file, line, function): {variable: {kind: [count, min, max]}}
mon = sys.monitoring
mon.use_tool_id(mon.COVERAGE_ID, 'ranges')


def kind(v):
    if v is None:
        return 'None', 0
    if isinstance(v, bool):
        return str(v), 0
    if isinstance(v, (int, float)):
        return type(v).__name__, v
    if isinstance(v, (str, bytes, bytearray, list, tuple, dict, set)):
        return type(v).__name__, len(v)
    return type(v).__name__, 0


def bucket(k, n):
    if k in ('int', 'float'):
        if n < 0:
            return k + ' <0'
        return k + (' 0' if n == 0 else ' 1' if n == 1 else ' 2..9' if n < 10 else ' 10..99' if n < 100 else ' 100..' if n < 10**6 else ' 1e6..' if n < 10**9 else ' 1e9..' if n < 2**63 else ' 2^63..')
    if n or k in ('str', 'bytes', 'bytearray', 'list', 'tuple', 'dict', 'set'):
        return k + (' len {}'.format(n) if n < 4 else ' len 4..9' if n < 10 else ' len 10..99' if n < 100 else ' len 100..')
    return k


def on_return(code, offset, value):
    if not code.co_filename.startswith(PREFIX):
        return mon.DISABLE
    f = sys._getframe(1)
    where = seen.setdefault((code.co_filename[len(REPO) + 1:], code.co_firstlineno, code.co_qualname), {})
    for name, v in list(f.f_locals.items()) + [('=>', value)]:
        if name == 'self':
            continue
        where.setdefault(name, {})
        b = bucket(*kind(v))
        where[name][b] = where[name].get(b, 0) + 1


mon.register_callback(mon.COVERAGE_ID, mon.events.PY_RETURN, on_return)
mon.set_events(mon.COVERAGE_ID, mon.events.PY_RETURN)
from pbt import core, registry  # noqa: E402

real = core.run_shard
spool = tempfile.mkdtemp()


@functools.wraps(real)
def run_shard(module, index, shard, seed, n):
    try:
        return real(module, index, shard, seed, max(1, min(n, 40)))
    finally:
        with open(os.path.join(spool, str(os.getpid())), 'wb') as f:
            pickle.dump(seen, f)


core.run_shard = run_shard
core.SCRATCH_EVIDENCE = True
for p in sys.argv[1:] or sorted(registry.CHECKS):
    core.run_property(p, registry.CHECKS[p], 'quick', int(os.environ.get('VERIF_SEED', '1')))
for path in glob.glob(spool + '/*'):
    with open(path, 'rb') as g:
        for k, names in pickle.load(g).items():
            for name, bs in names.items():
                d = seen.setdefault(k, {}).setdefault(name, {})
                for b, n in bs.items():
                    d[b] = d.get(b, 0) + n
    os.unlink(path)
os.rmdir(spool)
last = None
for (path, line, fn), names in sorted(seen.items()):
    if path != last:
        print('====', path)
        last = path
    print('{} {}'.format(line, fn))
    for name, bs in names.items():
        print('      {}: {}'.format(name, ', '.join('{} ({})'.format(b, n) if n < 20 else b for b, n in sorted(bs.items()))))
