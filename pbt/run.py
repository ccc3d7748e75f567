"""
run.py <PROPERTY>        decide one property (VERIF_SEED, VERIF_TIER)
run.py replay <FILE>     re-execute a replay file, without Hypothesis generating anything
run.py all               every property, one after the other
run.py selfcheck         the set-up check
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
# the package comes from the working tree, Hypothesis from the pre-installed tool environment
sys.path.insert(0, REPO)
sys.path.insert(0, os.path.dirname(HERE))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
os.environ['TZ'] = 'UTC'
os.environ['HYPOTHESIS_STORAGE_DIRECTORY'] = os.path.join(os.path.dirname(HERE), 'out', 'hypothesis')
import time
time.tzset()


def main(argv):
    import warnings
    warnings.simplefilter('ignore')
    import tfchain
    where = os.path.realpath(os.path.dirname(tfchain.__file__))
    if where != os.path.realpath(os.path.join(REPO, 'tfchain')):
        print('HARNESS-ERROR tfchain is imported from {}'.format(where), file=sys.stderr)
        return 3
    from pbt import core, registry
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if argv[0] == 'replay':
        return core.replay(argv[1])
    if argv[0] == 'selfcheck':
        import hypothesis, ed25519, mnemonic
        from pbt import ref
        ref.check_vectors(os.path.join(HERE, 'vectors.json'))
        print('python', sys.version.split()[0], 'hypothesis', hypothesis.__version__, 'tfchain', where)
        return 0
    if argv[0] == 'all':
        worst = 0
        for prop in registry.CHECKS:
            sys.stdout.flush()
            worst = max(worst, core.run_property(prop, registry.CHECKS[prop], tier, seed))
        return worst
    return core.run_property(argv[0], registry.CHECKS[argv[0]], tier, seed)


if __name__ == '__main__':
    try:
        code = main(sys.argv[1:])
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
