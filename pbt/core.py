"""
Shared machinery of the property checks.

A check (one module in pbt/checks) is a list of sub-checks. A sub-check is
    * a Hypothesis strategy producing one *plain-data* case (ints, str, bytes, lists, dicts), and
    * an oracle `fn(case, ctx)`, which drives the code under test with that case and raises on disagreement.

Because a case is plain data, a shrunk failure is written to a replay file as JSON and is
re-executed by `run.py replay FILE` without the library. Histories are plain lists of operations.
"""
import collections
import concurrent.futures
import contextlib
import hashlib
import io
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings
import hypothesis.errors

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, 'out')
CASE_CPU_LIMIT = 60        # seconds of CPU one case may use before it counts as not terminating
SHRINK_WALL_LIMIT = 60     # seconds after the first failure during which it is shrunk
WORKERS = 8


class Violation(Exception):
    """The code under test disagrees with the oracle."""


class HarnessError(Exception):
    """The check itself is broken: never a violation."""


# ---------------------------------------------------------------- plain data

def encode(v):
    if isinstance(v, (bytes, bytearray)):
        return {'$b': bytes(v).hex()}
    if isinstance(v, (list, tuple)):
        return [encode(x) for x in v]
    if isinstance(v, dict):
        if not all(isinstance(k, str) for k in v):
            raise HarnessError('case dictionaries need string keys')
        return {k: encode(x) for k, x in v.items()}
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, float):
        return {'$f': repr(v)}
    raise HarnessError('case holds a value of type {}'.format(type(v)))


def decode(v):
    if isinstance(v, list):
        return [decode(x) for x in v]
    if isinstance(v, dict):
        if len(v) == 1 and '$b' in v:
            return bytes.fromhex(v['$b'])
        if len(v) == 1 and '$f' in v:
            return float(v['$f'])
        return {k: decode(x) for k, x in v.items()}
    return v


def case_json(case):
    # surrogates and the like survive, as json escapes them
    return json.dumps(encode(case), sort_keys=True)


# ---------------------------------------------------------------- sub-checks

class Ctx:
    """Handed to an oracle, to classify the case it is judging."""

    def __init__(self):
        self.is_nontrivial = False
        self.labels = set()
        self.notes = []

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def label(self, name, cond=True):
        if cond:
            self.labels.add(name)


def fail(msg, *args):
    raise Violation(msg.format(*args) if args else msg)


def check(cond, msg, *args):
    if not cond:
        fail(msg, *args)


def eq(got, want, what):
    if type(got) is bytearray:
        got = bytes(got)
    if type(want) is bytearray:
        want = bytes(want)
    if got != want:
        g = got.hex() if isinstance(got, bytes) else repr(got)
        w = want.hex() if isinstance(want, bytes) else repr(want)
        raise Violation('{}: got {}, expected {}'.format(what, g, w))


#: ways in which a library says 'no': programming errors (NameError, AttributeError, ...) are not among them
CRASHES = (NameError, AttributeError, AssertionError, KeyError, IndexError, RecursionError, MemoryError,
           UnboundLocalError, ImportError, NotImplementedError, ZeroDivisionError, SystemError)


def rejects(fn, what, allow=()):
    """fn has to be refused with an ordinary exception."""
    try:
        got = fn()
    except Violation:
        raise
    except allow:
        return
    except CRASHES as e:
        raise Violation('{}: crashed with {}: {} instead of being rejected'.format(what, type(e).__name__, e))
    except Exception as e:
        return e
    fail('{}: was accepted (result: {!r})', what, got)


class Sub:
    def __init__(self, name, strategy, fn, quick, thorough, rule, examples=(), shards=None):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.examples = list(examples)
        self.shards = shards


def derive_seed(*parts):
    return int.from_bytes(hashlib.sha256('/'.join(map(str, parts)).encode()).digest()[:8], 'big')


class _Timeout(BaseException):
    pass


def _alarm(signum, frame):
    raise _Timeout()


def run_case(sub, case, ctx):
    """Run one oracle, with a CPU limit; any exception out of it is a disagreement."""
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
    try:
        # the code under test may print, which should not end up between our lines
        with contextlib.redirect_stdout(io.StringIO()):
            sub.fn(case, ctx)
    except _Timeout:
        raise Violation('the operation did not end within {} s of CPU time'.format(CASE_CPU_LIMIT))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def run_shard(module_name, index, shard, seed, n):
    """Runs in a worker: one sub-check, one seed, n cases. Returns a plain dict."""
    import importlib
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    mod = importlib.import_module(module_name)
    sub = mod.SUBS[index]
    st = {'sub': sub.name, 'shard': shard, 'evaluations': 0, 'labels': collections.Counter(), 'keys': set(),
          'samples': [], 'failure': None, 'error': None}
    first_failure = [None]

    def execute(case):
        enc = case_json(case)
        case = decode(json.loads(enc))
        if first_failure[0] is not None and time.monotonic() - first_failure[0] > SHRINK_WALL_LIMIT:
            return  # shrunk for long enough: the smallest failure so far is kept
        ctx = Ctx()
        if first_failure[0] is None:
            st['evaluations'] += 1
        try:
            run_case(sub, case, ctx)
        except HarnessError:
            raise
        except (hypothesis.errors.UnsatisfiedAssumption, hypothesis.errors.HypothesisException):
            raise
        except Exception as e:
            if first_failure[0] is None:
                first_failure[0] = time.monotonic()
            st['failure'] = {'case': json.loads(enc), 'message': '{}: {}'.format(type(e).__name__, e),
                             'traceback': traceback.format_exc()}
            raise
        if first_failure[0] is None:
            for lb in ctx.labels:
                st['labels'][lb] += 1
            if ctx.is_nontrivial:
                key = hashlib.sha256(enc.encode()).digest()[:8]
                if key not in st['keys']:
                    st['keys'].add(key)
                    k = len(st['keys'])
                    if len(enc) <= 4000 and (k <= 1 or k == 40):
                        st['samples'].append(json.loads(enc))

    try:
        if shard == 0:
            for case in sub.examples:
                try:
                    execute(case)
                except HarnessError:
                    raise
                except Exception:
                    if st['failure'] is None:
                        raise
                    return _pack(st)

        test = given(sub.strategy)(execute)
        test = settings(max_examples=n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
                        print_blob=False, stateful_step_count=50,
                        phases=(Phase.generate, Phase.shrink),
                        suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                               HealthCheck.large_base_example])(test)
        test = hypothesis.seed(seed)(test)
        try:
            test()
        except HarnessError:
            raise
        except Exception:
            if st['failure'] is None:
                raise
    except BaseException:
        st['error'] = traceback.format_exc()
    return _pack(st)


def _pack(st):
    st['labels'] = dict(st['labels'])
    st['keys'] = [k.hex() for k in st['keys']]
    return st


def load_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [e for e in json.load(f)['findings'] if e['property'] == prop]


def run_property(prop, module_name, tier, seed):
    import importlib
    t0 = time.monotonic()
    mod = importlib.import_module(module_name)
    tasks = []
    for index, sub in enumerate(mod.SUBS):
        total = sub.thorough if tier == 'thorough' else sub.quick if sub.quick < 100 else 3 * sub.quick
        if tier == 'thorough':
            shards = sub.shards or max(1, min(64, total // 400))
        else:
            shards = sub.shards or max(1, min(8, total // 60))
        base, rest = divmod(total, shards)
        for shard in range(shards):
            n = base + (1 if shard < rest else 0)
            tasks.append((module_name, index, shard, derive_seed(seed, prop, sub.name, shard), n))

    results, errors = [], []
    mp = multiprocessing.get_context('fork')
    with concurrent.futures.ProcessPoolExecutor(max_workers=WORKERS, mp_context=mp) as pool:
        futures = [pool.submit(run_shard, *t) for t in tasks]
        failed = False
        for f in futures:
            try:
                r = f.result()
            except concurrent.futures.CancelledError:
                continue
            except Exception as e:  # a worker died
                errors.append('worker: {!r}'.format(e))
                continue
            results.append(r)
            if r['error']:
                errors.append('{}[{}]: {}'.format(r['sub'], r['shard'], r['error']))
            if r['failure'] and not failed:
                failed = True
                for g in futures:
                    g.cancel()

    failures = [r for r in results if r['failure']]
    findings_lines = []
    finding_errors = []
    for e in load_findings(prop):
        if e.get('status') != 'known':
            continue
        probe = mod.FINDINGS[e['id']]
        # a listed finding is shown to be still there by its own, specific history
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                still = probe()
        except Exception:
            finding_errors.append(traceback.format_exc())
            continue
        if still:
            findings_lines.append('KNOWN-FINDING: property={} {}'.format(prop, e['what']))

    # ------------------------------------------------------------ evidence
    per_sub, keys, samples = {}, 0, []
    for index, sub in enumerate(mod.SUBS):
        rs = [r for r in results if r['sub'] == sub.name]
        distinct = len(set(k for r in rs for k in r['keys']))
        labels = collections.Counter()
        for r in rs:
            labels.update(r['labels'])
        per_sub[sub.name] = {
            'rule': sub.rule,
            'evaluations': sum(r['evaluations'] for r in rs),
            'distinct_nontrivial': distinct,
            'classes': dict(sorted(labels.items())),
        }
        keys += distinct
        for r in rs[:1]:
            samples += [{'sub': sub.name, 'case': c} for c in r['samples'][:2]]
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': sum(r['evaluations'] for r in results),
            'distinct_nontrivial': keys,
            'rule': '; '.join('{}: {}'.format(s.name, s.rule) for s in mod.SUBS),
            'samples': samples,
            'sub_checks': per_sub,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.monotonic() - t0, 3),
        'violations': len(failures),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write('\n')

    for line in findings_lines:
        print(line)
    if failures:
        os.makedirs(OUT, exist_ok=True)
        for r in failures[:3]:
            fl = r['failure']
            name = '{}-{}-{}.json'.format(prop, r['sub'], hashlib.sha256(json.dumps(fl['case'], sort_keys=True).encode()).hexdigest()[:10])
            path = os.path.join(OUT, name)
            with open(path, 'w') as f:
                json.dump({'property': prop, 'module': module_name, 'sub': r['sub'], 'seed': seed, 'tier': tier,
                           'message': fl['message'], 'case': fl['case'], 'traceback': fl['traceback']}, f, indent=1)
            print('{}: {}'.format(r['sub'], fl['message'][:1500]))
            print('VIOLATION property={} replay={}'.format(prop, path))
        return 1
    if errors or finding_errors:
        for e in errors[:5] + finding_errors:
            print('HARNESS-ERROR', e, file=sys.stderr)
        return 3
    print('OK property={} tier={} seed={} cases={} nontrivial={} wall={:.1f}s'.format(
        prop, tier, seed, evidence['coverage']['evaluations'], keys, evidence['wall_s']))
    return 0


def replay(path):
    import importlib
    with open(path) as f:
        r = json.load(f)
    mod = importlib.import_module(r['module'])
    sub = [s for s in mod.SUBS if s.name == r['sub']][0]
    try:
        run_case(sub, decode(r['case']), Ctx())
    except HarnessError:
        raise
    except Exception:
        traceback.print_exc()
        print('VIOLATION property={} replay={}'.format(r['property'], path))
        return 1
    print('replay {}: the property holds for this case'.format(path))
    return 0
