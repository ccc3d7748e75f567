"""coverage.py [PROPERTY...]: the lines of tfchain which no check executes (quick tier). Guides where checks are missing; decides nothing."""
import dis
import functools
import os
import pickle
import sys
import tempfile
import glob

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [REPO, HERE]
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
os.environ['TZ'] = 'UTC'
os.environ['HYPOTHESIS_STORAGE_DIRECTORY'] = os.path.join(HERE, 'out', 'hypothesis')
seen = set()
mon = sys.monitoring
mon.use_tool_id(mon.COVERAGE_ID, 'lines')


def line(code, no):
    if code.co_filename.startswith(REPO + '/tfchain'):
        seen.add((code.co_filename, no))
    return mon.DISABLE


mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
mon.set_events(mon.COVERAGE_ID, mon.events.LINE)

from pbt import core, registry

real = core.run_shard
spool = tempfile.mkdtemp()


@functools.wraps(real)
def run_shard(*args):
    try:
        return real(*args)
    finally:
        with open(os.path.join(spool, str(os.getpid())), 'wb') as f:
            pickle.dump(seen, f)


core.run_shard = run_shard
core.SCRATCH_EVIDENCE = True
props = sys.argv[1:] or sorted(registry.CHECKS)
for p in props:
    core.run_property(p, registry.CHECKS[p], os.environ.get('VERIF_TIER', 'quick'), int(os.environ.get('VERIF_SEED', '1')))
for f in glob.glob(spool + '/*'):
    with open(f, 'rb') as g:
        seen |= pickle.load(g)
    os.unlink(f)
os.rmdir(spool)


def lines(code):
    for _, _, no in code.co_lines():
        if no:
            yield no
    for c in code.co_consts:
        if hasattr(c, 'co_lines'):
            yield from lines(c)


total = missed = 0
for path in sorted(glob.glob(REPO + '/tfchain/**/*.py', recursive=True)):
    src = open(path).read()
    every = set(lines(compile(src, path, 'exec')))
    missing = sorted(n for n in every if (path, n) not in seen)
    total += len(every)
    missed += len(missing)
    print('==== {} {}/{}'.format(path[len(REPO) + 1:], len(every) - len(missing), len(every)))
    text = src.split('\n')
    for n in missing:
        print('{:5d} {}'.format(n, text[n - 1]))
print('TOTAL {}/{}'.format(total - missed, total))
