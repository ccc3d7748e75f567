"""C22: draining moves everything that can move, once."""
import json

from hypothesis import strategies as st

from tfchain.TFChainWallet import WalletBalance
from tfchain.types.ConditionTypes import OutputLock, UnlockHash
from tfchain.types.IO import CoinOutput

from pbt import build, history, ref, sim, wallets
from pbt.core import Sub, check, eq, rejects
from pbt.wallets import ONE

LIMIT = wallets.LIMIT
FEE = ONE // 10

# outputs come in lots of [how many, value in units]: some are worth less than the fee, alone or together
lot = st.one_of(st.tuples(st.integers(1, 5), st.integers(1, 10 * ONE)), st.tuples(st.sampled_from([98, 99, 100, 1, 2]), st.sampled_from([1, FEE // 99, FEE // 99 + 1, FEE // 2, FEE, ONE])),
                st.tuples(st.integers(1, 3), st.sampled_from([1, FEE - 1, FEE, FEE + 1, FEE // 2])), st.tuples(st.integers(90, 130), st.integers(1, 10 * ONE))).map(list)
fee = st.sampled_from([FEE, FEE, FEE, FEE, 1, FEE + 1, 10 * FEE, 3 * ONE, 0])
request = {'to': wallets.recipient, 'tform': wallets.form, 'lock': history.lock, 'lform': wallets.form, 'data': wallets.data, 'fee': fee, 'unconfirmed': st.booleans(), 'flag': st.booleans()}


def split(n):
    return -(-n // LIMIT)


def judge(txns, pool, fee, want_output, data, what):
    """txns spend what is in pool ({id: value}), and pay it all to whom it was said; returns them as plain data"""
    seen = {}
    plain = []
    for n, txn in enumerate(txns):
        t = ref.tx_parse(txn.json())
        eq(t['ver'], 1, what + ': version')
        ids = [i['p'].hex() for i in t['ci']]
        check(0 < len(ids) <= LIMIT, '{}: {} inputs', what, len(ids))
        for i in ids:
            check(i in pool, '{}: output {} is spent, which is not available', what, i)
            check(i not in seen, '{}: output {} is spent twice', what, i)
            seen[i] = n
        total = sum(pool[i] for i in ids)
        eq(t['fees'], [fee], what + ': miner fees')
        eq([o['v'] for o in t['co']], [total - fee], what + ': values of the outputs')
        check(total > fee, '{}: an output without value', what)
        eq(wallets.canonical(t['co'][0]['c']), wallets.canonical(want_output), what + ': condition of the output')
        eq([t['bi'], t['bo']], [[], []], what + ': block stakes')
        eq(t['data'], data, what + ': data')
        for i, ci in zip(txn.coin_inputs, t['ci']):
            check(not i.is_fulfilled() if ci['f']['k'] != 'multi' else not ci['f']['pairs'], '{}: a signature out of nowhere', what)
        plain.append(t)
    left = [v for i, v in pool.items() if i not in seen]
    # (what is left is not worth a fee, however it is put together)
    check(sum(left) <= fee * split(len(left)), '{}: {} outputs, worth {}, are left behind', what, len(left), sum(left))
    check(len(txns) <= split(len(seen)), '{}: {} transactions for {} outputs', what, len(txns), len(seen))
    return plain


def requested(chain, o, drain, pool, what):
    """one call of drain; the transactions, or None"""
    lock, lv = wallets.lock_arg(chain, o['lock'], o['lform']) if o['to'][0] != 'swap' else (None, None)
    args = {k: v for k, v in (('data', o['data']), ('lock', lock)) if v is not None}
    if o['unconfirmed'] or o['flag']:
        args['unconfirmed'] = o['unconfirmed']
    to = wallets.recipient_arg(chain, o['to'], o['tform'])
    if not o['fee']:
        rejects(lambda: drain(to, build.units(0), **args), what + ' without a fee')
        return None, None
    txns = drain(to, build.units(o['fee']), **args)
    plain = judge(txns, pool, o['fee'], wallets.recipient_condition(chain, o['to'], lv), wallets.data_bytes(o['data']), what)
    return txns, plain


def state_of(b):
    return [sorted(str(getattr(o, 'id', o)) for o in x) for x in (b.outputs_available, b.outputs_unconfirmed_available, b.outputs_spent, b.outputs_unconfirmed_spent)] + [b.available.json(), b.unconfirmed.json()]


# ------------------------------------------------------------------ a balance, put together by hand

entry = st.tuples(lot, st.sampled_from(['confirmed', 'confirmed', 'confirmed', 'unconfirmed', 'spent', 'unconfirmed spent', 'locked', 'unlocked'])).map(list)


def balances(case, ctx):
    chain = history.new_chain(case['world'])
    b = WalletBalance()
    b.chain_height, b.chain_time, b.chain_blockid = chain.height, chain.time, chain.block_id(chain.height).hex()
    pools = {'c': {}, 'u': {}}
    n = 0
    for (count, v), state in case['outs']:
        for _ in range(count):
            n += 1
            c = {'k': 'uh', 'uh': history.party(n % 4).uh}
            if state in ('locked', 'unlocked'):
                c = {'k': 'lock', 'v': chain.height + (1 if state == 'locked' else 0), 'c': c}
            o = build.coin_output({'v': v, 'c': c})
            i = ref.b2(ref.s_int(n)).hex()
            o.id = i
            b.output_add(o, confirmed='unconfirmed' not in state, spent='spent' in state)
            if state in ('confirmed', 'unlocked'):
                pools['c'][i] = v
            elif state == 'unconfirmed':
                pools['u'][i] = v
    before = state_of(b)
    pool = dict(pools['c'], **(pools['u'] if case['unconfirmed'] else {}))
    _, plain = requested(chain, case, b.drain, pool, 'drain')
    eq(state_of(b), before, 'the balance, after draining')
    if plain is None:
        return
    _, again = requested(chain, case, b.drain, pool, 'second drain')
    eq(sorted(map(repr, again)), sorted(map(repr, plain)), 'transactions of a second drain')
    ctx.nontrivial(plain)
    ctx.label('several transactions', len(plain) > 1)
    ctx.label('three transactions', len(plain) > 2)
    ctx.label('full transactions', any(len(t['ci']) == LIMIT for t in plain))
    ctx.label('outputs not worth the fee', sum(len(t['ci']) for t in plain) < len(pool))
    ctx.label('with unconfirmed', bool(case['unconfirmed'] and pools['u'] and plain))


# ------------------------------------------------------------------ wallets, to the end

def whole(case, ctx):
    """everything of a wallet is drained, signed, and arrives"""
    chain = history.new_chain(case['world'])
    for (count, v), conf, w, l in case['outs']:
        c = history.condition(chain, w, l)
        chain.grant([{'v': v + n, 'c': c} for n in range(count)], conf)
    w = chain.wallet(history.SEED, 3)
    other = chain.wallet(history.OTHER, 7)
    own = set(w.addresses)
    b = w.balance
    parts = [(b, own)]
    for a, m in sorted((str(a), m) for a, m in b.wallets.items()):
        parts.append((m, {a}))
    sheets = [chain.sheet(addrs) for _, addrs in parts]
    for (part, addrs), s in zip(parts, sheets):
        pool = dict(s['available'], **(s['unconfirmed'] if case['unconfirmed'] else {}))
        what = 'wallet' if part is b else 'multi-signature wallet'
        txns, plain = requested(chain, case, part.drain, pool, what)
        if txns is None:
            continue
        ctx.nontrivial(txns)
        ctx.label(what + ' drained', bool(txns))
        if case['fee'] < chain.min_fee:
            continue
        for txn, t in zip(txns, plain):
            with wallets.once_submitted(chain):
                r = w.transaction_sign(txn)
            chain.check()
            if not r.submitted:
                r = other.transaction_sign(json.dumps(r.transaction.json()))
                chain.check()
                ctx.label('signed by two', r.submitted)
            c = sim.inner(chain.outputs[t['ci'][0]['p']]['o']['c'])
            able = own | set(other.addresses)
            if c['k'] != 'ms' or sum(ref.uh_text(u) in able for u in c['uhs']) >= c['n']:
                check(r.submitted, '{}: a draining transaction was not submitted after everybody signed', what)
                e = chain.accepted[-1]
                eq([i['p'] for i in e.tx['ci']], [i['p'] for i in t['ci']], what + ': inputs that were submitted')
                eq(ref.tx_json(dict(e.tx, ci=[])), ref.tx_json(dict(t, ci=[])), what + ': transaction that was submitted')
                ctx.label('submitted')
            else:
                eq(r.submitted, False, what + ': submitted without enough signatures')
    chain.check()


owner = st.one_of(st.integers(0, 4).map(lambda n: ['p', n]), st.sampled_from([['ms', [0, 4], 1], ['ms', [0, 4], 2], ['ms', [1, 2], 2], ['ms', [4, 5], 1], ['ms', [0, 4, 5], 3]]))
small = st.one_of(st.tuples(st.integers(1, 4), st.integers(1, 10 * ONE)), st.tuples(st.integers(1, 4), st.integers(1, 10 * ONE)), st.tuples(st.integers(1, 9), st.just(ONE)), st.tuples(st.integers(1, 2), st.sampled_from([FEE, FEE // 2, FEE + 1]))).map(list)
big = st.tuples(st.sampled_from([98, 99, 100, 101]), st.sampled_from([1, FEE // 99, ONE])).map(list)
held = lambda lots: st.tuples(lots, st.sampled_from([True, True, True, False]), owner, st.one_of(st.none(), st.none(), history.lock)).map(list)
purse = st.tuples(st.lists(held(small), min_size=1, max_size=5), st.one_of(st.just([]), st.just([]), st.just([]), st.lists(held(big), min_size=1, max_size=1))).map(lambda t: t[0] + t[1])


# ------------------------------------------------------------------ nonsense

BAD = {'to': wallets.NOT_PERSONAL + ['', 'x', 5, 1.5, {}, [], ([], 1), (2, ['own'])], 'fee': [None, 1, '1', 0.1, b'1', [], True], 'data': [b'x' * 84, 'x' * 84, 5, 1.5], 'lock': [-1, 'x', '', 1.5, []]}


def bad_requests(case, ctx):
    ctx.nontrivial()
    chain = sim.Chain()
    b = WalletBalance()
    b.chain_height, b.chain_time, b.chain_blockid = chain.height, chain.time, chain.block_id(chain.height).hex()
    o = build.coin_output({'v': ONE, 'c': {'k': 'uh', 'uh': history.party(0).uh}})
    o.id = '11' * 32
    b.output_add(o)
    k, n = case['bad']
    v = BAD[k][n % len(BAD[k])]
    arg = (2, [history.party(0).addr]) if isinstance(v, tuple) and v[0] == 2 else v
    args = {'recipient': history.party(1).addr, 'miner_fee': build.units(FEE), {'to': 'recipient', 'fee': 'miner_fee'}.get(k, k): arg}
    rejects(lambda: b.drain(**args), 'draining with {} = {!r}'.format(k, v))
    empty = WalletBalance()
    eq(empty.drain(history.party(1).addr, build.units(FEE)), [], 'draining an empty balance')


SUBS = [
    Sub('balances', st.fixed_dictionaries(dict(request, world=history.world, outs=st.lists(entry, max_size=5))), balances, 900, 8000, 'at least one transaction'),
    Sub('whole', st.fixed_dictionaries(dict(request, world=history.world, outs=purse)),
        whole, 450, 6000, 'at least one transaction'),
    Sub('bad_requests', st.fixed_dictionaries({'bad': st.tuples(st.sampled_from(sorted(BAD)), st.integers(0, 20)).map(list)}), bad_requests, 100, 200, 'every case', shards=1),
]
