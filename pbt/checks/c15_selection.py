"""C15: coin selection never overspends and finds funds that exist."""
from hypothesis import strategies as st

from tfchain import errors
from tfchain.TFChainWallet import WalletsBalance
from tfchain.types.ConditionTypes import UnlockHash
from tfchain.types.IO import CoinOutput
from tfchain.types.PrimitiveTypes import Currency

from pbt import history, ref, sim
from pbt.core import Sub, check, eq, rejects

LIMIT = 99
HEIGHT, TIME = 100, 1_550_000_000
OWNERS = [['p', 0], ['p', 1], ['p', 2], ['ms', [0, 4], 1], ['ms', [0, 1], 2], ['ms', [1, 0, 4], 2]]
LOCKS = {'': None, 'open': ['h', -1], 'now': ['h', 0], 'locked': ['h', 1], 'time': ['t', 0], 'locked time': ['t', 1]}

# a group of outputs: [owner, state, lock, value of the first, difference to the next, how many]
state = st.sampled_from(['c', 'c', 'c', 'u', 'u', 's', 'us'])
small = st.tuples(st.integers(0, 5), state, st.sampled_from(['', '', '', 'open', 'now', 'locked', 'time', 'locked time']), st.integers(1, 1000), st.integers(0, 40), st.integers(1, 8)).map(list)
large = st.tuples(st.integers(0, 5), st.sampled_from('ccu'), st.just(''), st.integers(1, 1000), st.integers(0, 40), st.sampled_from([1, 40, 60, 90, 98, 99, 100, 120])).map(list)
groups = st.one_of(st.lists(small, max_size=8), st.lists(st.one_of(large, large, small), min_size=1, max_size=5))
source = st.one_of(st.none(), st.lists(st.integers(0, 5), min_size=1, max_size=6, unique=True), st.integers(0, 5).map(lambda n: [n]))
# what to ask for, relative to what there is
target = st.one_of(st.tuples(st.sampled_from(['best', 'best', 'all', 'one', 'confirmed']), st.integers(-2, 3)).map(list),
                   st.tuples(st.just('part'), st.integers(1, 1000)).map(list), st.tuples(st.just('window'), st.integers(-3, 3)).map(list))
case_st = st.fixed_dictionaries({'groups': groups, 'order': st.integers(0, 10**6), 'source': source, 'as': st.sampled_from(['text', 'uh', 'list', 'uhs']), 'target': target,
                                 'unit': st.sampled_from([1, 10**9])})


def addr(n):
    return sim.addr_of(history.condition(sim.Chain(), OWNERS[n]))


ADDRS = [addr(n) for n in range(6)]


def balance_of(case):
    import random
    outs = []
    for g, (owner, st_, lock, v, step, count) in enumerate(case['groups']):
        c = history.condition(sim.Chain(height=HEIGHT, time=TIME), OWNERS[owner], LOCKS[lock])
        js = ref.condition_json(c)
        for i in range(count):
            outs.append((owner, st_, lock.startswith('locked'), (v + i * step) * case['unit'], js, ref.b2(b'%d/%d' % (g, i))))
    random.Random(case['order']).shuffle(outs)
    b = WalletsBalance()
    if case['order'] % 2:
        b.chain_height, b.chain_time = HEIGHT, TIME
    pool = {}        # id: (owner, value, confirmed)
    for owner, st_, locked, v, js, i in outs:
        o = CoinOutput.from_json({'value': str(v), 'condition': js})
        o.id = i
        b.output_add(o, confirmed=st_ in ('c', 's'), spent=st_ in ('s', 'us'))
        if st_ in ('c', 'u') and not locked:
            pool[i.hex()] = (owner, v, st_ == 'c', js)
    if not case['order'] % 2:
        for x in [b] + list(b.wallets.values()):
            x.chain_height, x.chain_time = HEIGHT, TIME
    return b, pool


def snapshot(b):
    return [[sorted(str(i) for i in d) for d in (x.outputs_available and {o.id: o for o in x.outputs_available}, x.outputs_spent, x.outputs_unconfirmed, x.outputs_unconfirmed_spent)]
            for x in [b] + [b.wallets[a] for a in sorted(b.wallets)]]


def fund(case, ctx):
    b, pool = balance_of(case)
    allowed = range(3) if case['source'] is None else case['source']
    usable = {i: x for i, x in pool.items() if x[0] in allowed}
    values = sorted((x[1] for x in usable.values()), reverse=True)
    best = sum(values[:LIMIT])
    k, n = case['target']
    if k == 'best':
        amount = best + n
    elif k == 'all':
        amount = sum(values) + n
    elif k == 'one':
        amount = (values[0] if values else 0) + n
    elif k == 'confirmed':
        amount = sum(sorted((x[1] for x in usable.values() if x[2]), reverse=True)[:LIMIT]) + n
    elif k == 'window':
        amount = sum(sorted((x[1] for x in usable.values() if x[0] < 3), reverse=True)[:LIMIT]) + n
    else:
        amount = best * n // 1000
    amount = max(1, amount)
    if case['source'] is None:
        source = None
    else:
        source = [ADDRS[n] if case['as'] in ('text', 'list') else UnlockHash.from_json(ADDRS[n]) for n in case['source']]
        if len(source) == 1 and case['as'] in ('text', 'uh'):
            source = source[0]
    before = snapshot(b)
    want = amount
    amount = Currency.from_json(str(want))
    ctx.label('more than 99 outputs', len(values) > LIMIT)
    ctx.label('enough', best >= want)
    ctx.label('multi-signature wallets', any(n > 2 for n in allowed) and any(x[0] > 2 for x in usable.values()))
    ctx.nontrivial(len(values) > 1)
    try:
        inputs, rest, refund = b.fund(amount, source=source)
    except errors.InsufficientFunds:
        check(best < want, 'insufficient funds reported for {}, while {} of the {} usable outputs are worth {}', want, min(LIMIT, len(values)), len(values), best)
        eq(snapshot(b), before, 'the balance, after funding')
        return
    ids = [str(i.parentid) for i in inputs]
    check(len(set(ids)) == len(ids), 'an output is used twice: {}', ids)
    check(len(ids) <= LIMIT, '{} inputs', len(ids))
    for i in inputs:
        check(str(i.parentid) in usable, 'output {} is used, which is {}', i.parentid, pool.get(str(i.parentid), 'not available'))
        owner, v, _, js = usable[str(i.parentid)]
        eq([str(i.parent_output.id), i.parent_output.value.json(), i.parent_output.condition.json()], [str(i.parentid), str(v), js], 'parent output of an input')
    got = sum(usable[i][1] for i in ids)
    check(got >= want, 'outputs worth {} are selected for {}', got, want)
    eq(rest.json(), str(got - want), 'what remains of {}'.format(got))
    if case['source'] is not None and len(case['source']) == 1:
        c = history.condition(sim.Chain(), OWNERS[case['source'][0]])
        eq(None if refund is None else refund.json(), ref.condition_json(c), 'where the rest of a single source goes to')
    else:
        eq(refund, None, 'where the rest of several sources goes to')
    eq(snapshot(b), before, 'the balance, after funding')
    eq(amount.json(), str(want), 'the amount, after funding')


def bad_source(case, ctx):
    ctx.nontrivial()
    b, pool = balance_of(case)
    for s in (5, b'\0' * 33, {'a': 1}, 'abc', '', ADDRS[0][:-1], ADDRS[0][:-1] + ('0' if ADDRS[0][-1] != '0' else '1'),
              '0' * 78, sim.addr_of({'k': 'swap', 's': history.party(0).uh, 'r': history.party(4).uh, 'hs': bytes(32), 'lt': 1})):
        for x in (s, [s], [ADDRS[0], s]):
            rejects(lambda: b.fund(Currency(value=1), source=x), 'the source {!r}'.format(x))
    stranger = history.party(6).addr
    for x in (stranger, [stranger]):
        rejects(lambda: b.fund(Currency(value=1), source=x), 'somebody else as source')


SUBS = [
    Sub('fund', case_st, fund, 5000, 50000, 'more than one usable output'),
    Sub('bad_source', case_st, bad_source, 30, 300, 'every case'),
]
