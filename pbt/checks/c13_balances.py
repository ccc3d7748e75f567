"""C13: balances are what the chain says."""
import random

from hypothesis import strategies as st

from tfchain import errors
from tfchain.TFChainWallet import MultiSigWalletBalance, WalletBalance, WalletsBalance
from tfchain.types.PrimitiveTypes import Currency

from pbt import build, gen, history, ref, sim
from pbt.wallets import Fault
from pbt.core import Sub, check, eq, fail, rejects

KEYS = 4
EMPTY = {k: {} for k in ('available', 'locked', 'unconfirmed', 'unconfirmed_locked', 'spent', 'unconfirmed_spent')}


def ids(outs):
    outs = outs.values() if isinstance(outs, dict) else outs
    out = [(str(o.id), int(o.value.json())) for o in outs]
    check(len(set(i for i, _ in out)) == len(out), 'an output is listed twice: {}', out)
    return dict(out)


def is_balance(b, s, what, context=None):
    """b reports exactly the sheet s"""
    eq(ids(b.outputs_available), s['available'], what + ': available outputs')
    eq(ids(b.outputs_unconfirmed_available), s['unconfirmed'], what + ': unconfirmed outputs')
    eq(ids(b.outputs_unconfirmed), dict(s['unconfirmed'], **s['unconfirmed_locked']), what + ': unconfirmed outputs, locked or not')
    eq(ids(b.outputs_spent), s['spent'], what + ': spent outputs')
    eq(ids(b.outputs_unconfirmed_spent), s['unconfirmed_spent'], what + ': outputs spent by unconfirmed transactions')
    for k in ('available', 'locked', 'unconfirmed', 'unconfirmed_locked'):
        v = getattr(b, k)
        check(isinstance(v, Currency), '{}: the {} total is {!r}', what, k, v)
        eq(v.json(), str(sum(s[k].values())), '{}: {} total'.format(what, k))
    eq(b.active, any(s[k] for k in ('available', 'locked', 'unconfirmed', 'unconfirmed_locked')), what + ': active')
    if context:
        eq([b.chain_height, b.chain_time, str(b.chain_blockid)], [context.height, context.time, context.block_id(context.height).hex()], what + ': chain context')
    str(b)


def multisigs(chain):
    """{address: (owners, count)} of all multi-signature wallets on the chain"""
    out = {}
    for e in chain.entries:
        for c in [o['c'] for o in e.outputs] + ([e.tx['mc']] if e.tx['ver'] == 128 else []):
            c = sim.inner(c)
            if c['k'] == 'ms':
                out[sim.addr_of(c)] = (sorted(ref.uh_text(u) for u in c['uhs']), c['n'])
    return out


def is_multisig(b, addr, chain, what):
    owners, n = multisigs(chain)[addr]
    check(isinstance(b, MultiSigWalletBalance), '{}: is a {}', what, type(b).__name__)
    eq([b.address, sorted(b.owners), b.signature_count], [addr, owners, n], what)


def new_chain(case):
    chain = history.new_chain(case['world'])
    for o in case['ops']:
        history.play(chain, o)
    return chain


listings = {'world': history.world, 'ops': history.ops}


def addresses(case, ctx):
    """the balance of every address there is"""
    chain = new_chain(case)
    c = chain.client()
    ms = multisigs(chain)
    ctx.label('unconfirmed', bool(chain.mempool))
    for addr in [history.party(n).addr for n in range(7)] + sorted(ms) + ['0' * 78]:
        s = chain.sheet({addr})
        try:
            r = c.unlockhash_get(addr if addr != '0' * 78 else None)
        except errors.ExplorerNoContent:
            check(not chain.touching(addr) and not chain.multisigs(addr), '{} is reported as unused', addr)
            continue
        ctx.nontrivial(s['spent'] or s['unconfirmed_spent'])
        ctx.label('multi-signature', addr in ms and any(s.values()))
        ctx.label('locked', bool(s['locked'] or s['unconfirmed_locked']))
        b = r.balance()
        is_balance(b, s, 'balance of ' + addr, chain)
        eq(sorted(b.addresses), [addr] if any(s.values()) else [], 'addresses of the balance of ' + addr)
        if addr in ms and (any(s.values()) or any(e.tx['ver'] == 128 for e in chain.touching(addr))):
            is_multisig(b, addr, chain, 'balance of ' + addr)
        eq(sorted(str(m) for m in r.multisig_addresses), sorted(chain.multisigs(addr)), 'multi-signature wallets of ' + addr)


def is_wallet_balance(b, chain, own, what, context=True):
    is_balance(b, chain.sheet(own), what, chain if context else None)
    ms = {m for a in own for m in chain.multisigs(a)}
    eq(sorted(b.addresses_multisig), sorted(ms), what + ': multi-signature wallets')
    for m in ms:
        is_multisig(b.wallets[m], m, chain, '{}: multi-signature wallet {}'.format(what, m))
        is_balance(b.wallets[m], chain.sheet({m}), '{}: multi-signature wallet {}'.format(what, m), chain if context else None)


def wallet(case, ctx):
    """the balance of a wallet, while the chain grows"""
    chain = history.new_chain(case['world'])
    w = chain.wallet(history.SEED, case['keys'])
    own = [history.party(n).addr for n in range(case['keys'])]
    faults = dict(map(tuple, case['faults']))
    for n, o in enumerate(case['ops']):
        history.play(chain, o)
        if n in faults:
            # an explorer that fails is no reason to report less than there is
            chain.fault = Fault(faults[n])
            try:
                b = w.balance
            except errors.ExplorerError:
                ctx.label('the explorer failed')
            else:
                is_wallet_balance(b, chain, own, 'wallet, although the explorer failed')
            chain.fault = None
        if n % 3 == 2 or n == len(case['ops']) - 1:
            b = w.balance
            is_wallet_balance(b, chain, own, 'wallet')
            eq(sorted(w.addresses_multisig), sorted({m for a in own for m in chain.multisigs(a)}), 'multi-signature wallets')
            s = chain.sheet(own)
            ctx.nontrivial(any(len(x) for x in (s['spent'], s['unconfirmed_spent'])) and bool(b.wallets))
            ctx.label('shared multi-signature wallet', any(sum(m in chain.multisigs(a) for a in own) > 1 for m in b.wallets))
            txs = w.transactions
            want = {e.id.hex(): e for a in own for e in chain.touching(a)}
            eq(sorted(str(t.id) for t in txs), sorted(want), 'transactions of the wallet')
            order = [float('inf') if want[str(t.id)].height is None else want[str(t.id)].height for t in txs]
            eq(order, sorted(order, reverse=True), 'heights of the transactions, newest first')
    chain.check()


def wide(case, ctx):
    """the balance of a wallet with many addresses, multi-signature wallets and transactions"""
    ctx.nontrivial()
    r = random.Random(case['seed'])
    chain = sim.Chain(listing=case['listing'], shuffle=case['seed'])
    ks = [sim.key(history.SEED, n) for n in range(case['keys'])]
    other = history.party(4)
    cs = [{'k': 'uh', 'uh': k.uh} for k in ks]
    for n in range(case['multis']):
        cs.append({'k': 'ms', 'n': 1 + n % 2, 'uhs': [ks[case['owner'] % len(ks)].uh, sim.key(history.OTHER, n).uh]})
    busy = cs[r.randrange(len(cs))]
    outs = [{'v': r.randrange(1, 10**10), 'c': c} for c in cs] + [{'v': r.randrange(1, 10**10), 'c': busy} for _ in range(case['busy'])]
    r.shuffle(outs)
    while outs:
        n = r.choice([1, 2, 5])
        e = chain.grant(outs[:n], confirmed=r.random() < .8)
        outs = outs[n:]
        if r.random() < .3:
            chain.spend([e.ids()[-1]], [{'v': 1, 'c': {'k': 'uh', 'uh': other.uh}}], confirmed=e.height is not None and r.random() < .5)
        if r.random() < .1:
            chain.mine()
    w = chain.wallet(history.SEED, len(ks))
    own = [k.addr for k in ks]
    eq(sorted(w.addresses), sorted(own), 'addresses')
    is_wallet_balance(w.balance, chain, own, 'wallet')
    eq(sorted(str(t.id) for t in w.transactions), sorted({e.id.hex() for a in own for e in chain.touching(a)}), 'transactions of the wallet')
    chain.check()


STATES = ('unconfirmed', 'confirmed', 'spent unconfirmed', 'spent')   # each overrules the ones before


def states(chain, addr):
    """{output: (value, state, condition)} of an address, whatever is locked"""
    s = chain.sheet({addr})
    out = {}
    for keys, state in ((('unconfirmed', 'unconfirmed_locked'), 0), (('available', 'locked'), 1), (('unconfirmed_spent',), 2), (('spent',), 3)):
        for k in keys:
            for i, v in s[k].items():
                out[i] = (v, state, chain.outputs[bytes.fromhex(i)]['o']['c'])
    return out


def add_states(a, b):
    """the newest of what is known of each output"""
    out = dict(a)
    for i, x in b.items():
        if i not in out or x[1] > out[i][1]:
            out[i] = x
    return out


def sheet_at(known, height, time):
    """the sheet of some outputs, given their states"""
    s = {k: {} for k in EMPTY}
    for i, (v, state, c) in known.items():
        if state == 3:
            s['spent'][i] = v
        elif state == 2:
            s['unconfirmed_spent'][i] = v
        else:
            closed = height > 0 and time > 0 and sim.is_locked(c, height, time)
            s[('unconfirmed_locked' if closed else 'unconfirmed') if state == 0 else ('locked' if closed else 'available')][i] = v
    return s


def describe(b):
    """everything a balance says"""
    out = [[sorted(ids(o).items()) for o in (b.outputs_available, b.outputs_unconfirmed_available, b.outputs_unconfirmed, b.outputs_spent, b.outputs_unconfirmed_spent)],
           sorted(b.addresses), b.chain_height, b.chain_time, str(b.chain_blockid)]
    if isinstance(b, WalletsBalance):
        out.append({a: describe(w) for a, w in b.wallets.items()})
    return out


def merged(case, ctx):
    """balances taken at several moments, of several addresses, added up"""
    chain = history.new_chain(case['world'])
    c = chain.client()
    for o in case['before']:
        history.play(chain, o)
    taken = []   # (moment, address, states, how to get the balance again)
    contexts = []

    def take(moment):
        contexts.append((chain.height, chain.time))
        ms = sorted(multisigs(chain))
        for n in case['take'][moment]:
            addr = history.party(n).addr if n < 6 else (ms[(n - 6) % len(ms)] if ms else None)
            if addr is None:
                continue
            try:
                r = c.unlockhash_get(addr)
            except errors.ExplorerNoContent:
                continue
            info = c.blockchain_info_get()
            taken.append((moment, addr, states(chain, addr), r, info))
    take(0)
    for o in case['ops']:
        history.play(chain, o)
    take(1)
    if not taken:
        return
    order = [taken[i % len(taken)] for i in case['order']]
    added = []                                           # (balance, what it said)
    first = {'first': None, 'wallet': WalletBalance(), 'wallets': WalletsBalance()}[case['start']]
    parts = [first, None]
    expected = [[{}, {}, [-1]], [{}, {}, [-1]]]          # personal, by multi-signature wallet, moments
    for n, (moment, addr, st_, r, info) in enumerate(order):
        p = 1 if case['two'] and n % 2 else 0
        b = r.balance(info=info)
        personal, wallets, moments = expected[p]
        if isinstance(b, MultiSigWalletBalance):
            wallets[addr] = add_states(wallets.get(addr, {}), st_)
        else:
            personal.update(add_states(personal, st_))
        moments.append(moment)
        if parts[p] is None:
            parts[p] = b
        else:
            added.append((b, describe(b)))
            if isinstance(parts[p], MultiSigWalletBalance) and isinstance(b, MultiSigWalletBalance) and parts[p].address != b.address:
                parts[p] = WalletsBalance().balance_add(parts[p])      # (two different multi-signature wallets do not add up by themselves)
            parts[p] = parts[p].balance_add(b)
            same = parts[p].balance_add(None)
            check(same is parts[p], 'adding nothing yields another balance')
    total, (personal, wallets, moments) = parts[0], expected[0]
    if total is None:
        return
    if parts[1] is not None:
        added.append((parts[1], describe(parts[1])))
        total = WalletsBalance().balance_add(total).balance_add(parts[1])
        personal = add_states(personal, expected[1][0])
        for a, x in expected[1][1].items():
            wallets[a] = add_states(wallets.get(a, {}), x)
        moments = moments + expected[1][2]
    for b, before in added:
        if b is not parts[1] or total is not parts[1]:
            eq(describe(b), before, 'a balance that was added to another one, afterwards')
    ctx.nontrivial(len(order) > 1)
    ctx.label('several moments of one address', any(x[1] == y[1] and x[0] != y[0] for x in order for y in order))
    ctx.label('two sums added up', parts[1] is not None)
    newest = contexts[max(moments)]
    eq([total.chain_height, total.chain_time], list(newest), 'chain context of the sum')
    if isinstance(total, MultiSigWalletBalance):
        eq([total.address], list(wallets), 'the multi-signature wallet')
        is_multisig(total, total.address, chain, 'the sum')
        is_balance(total, sheet_at(wallets[total.address], *newest), 'sum')
        return
    if wallets:
        check(isinstance(total, WalletsBalance), 'the sum is a {}', type(total).__name__)
    is_balance(total, sheet_at(personal, *newest), 'sum')
    got = total.wallets if isinstance(total, WalletsBalance) else {}
    eq(sorted(got), sorted(wallets), 'multi-signature wallets of the sum')
    for a, b in got.items():
        is_multisig(b, a, chain, 'multi-signature wallet {} of the sum'.format(a))
        check((b.chain_height, b.chain_time) in contexts, 'multi-signature wallet {} of the sum is of block {} at {}', a, b.chain_height, b.chain_time)
        is_balance(b, sheet_at(wallets[a], b.chain_height, b.chain_time), 'multi-signature wallet {} of the sum'.format(a))


# ------------------------------------------------------------------ outputs added one by one

def adding(case, ctx):
    """any number of sightings of some outputs, in any order, tell the same story"""
    # each output: [kind, value, last state]; sightings: its history so far, shuffled
    order = case['order']
    sights = []
    from tfchain.types.IO import CoinOutput
    outs = []
    every = case['outs'] * case['times']
    ctx.label('more than 100 outputs', len(every) > 100)
    chain = sim.Chain()
    for n, (w, v, st_, l) in enumerate(every):
        o = CoinOutput.from_json(ref.output_json({'v': v, 'c': history.condition(chain, w, l)}))
        o.id = n.to_bytes(32, 'big')
        outs.append(o)
        # what was seen of it, in the order of time: unconfirmed, confirmed, spent unconfirmed, spent
        path = {'u': ['u'], 'c': ['u', 'c'], 'cs': ['u', 'c', 'us'], 'uu': ['u', 'us'], 's': ['u', 'c', 'us', 's']}[st_]
        sights += [(n, p) for p in path[-case['depth']:]]
    ctx.nontrivial(len(sights) > 2)
    random.Random(order).shuffle(sights)
    want = {k: {} for k in EMPTY}
    multi = {}
    for n, (w, v, st_, l) in enumerate(every):
        k = {'u': 'unconfirmed', 'c': 'available', 'cs': 'unconfirmed_spent', 'uu': 'unconfirmed_spent', 's': 'spent'}[st_]
        t = want
        if w[0] == 'ms':
            t = multi.setdefault(str(outs[n].condition.unlockhash), {k: {} for k in EMPTY})
        if case['known'] and k in ('available', 'unconfirmed') and sim.is_locked(history.condition(chain, w, l), chain.height, chain.time):
            k = {'available': 'locked', 'unconfirmed': 'unconfirmed_locked'}[k]
        t[k][n.to_bytes(32, 'big').hex()] = v
    b = WalletsBalance()
    parts = [WalletsBalance() for _ in range(3)]
    if case['known']:
        # (balances of a known moment, with the outputs known so far, to which more are added)
        for x in parts + [b]:
            x.chain_height, x.chain_time, x.chain_blockid = chain.height, chain.time, chain.block_id(chain.height).hex()
    for m, (n, p) in enumerate(sights):
        for x in (b, parts[m % 3]):
            x.output_add(outs[n], confirmed=p in 'cs' and p != 'us', spent=p in ('us', 's'))
    total = parts[0]
    for x in parts[1:]:
        total = total.balance_add(x)
    for x, what in ((b, 'outputs added one by one'), (total, 'outputs added to three balances, then added up'), (WalletsBalance().balance_add(b), 'a balance added to an empty one')):
        is_balance(x, want, what)
        eq(sorted(x.addresses_multisig), sorted(multi), what + ': multi-signature wallets')
        for a in multi:
            is_balance(x.wallets[a], multi[a], '{}: multi-signature wallet {}'.format(what, a))


def mismatched(case, ctx):
    """sums that make no sense are refused"""
    ctx.nontrivial()
    a = MultiSigWalletBalance(owners=[build.uh(history.party(n).uh) for n in (0, 1)], signature_count=1)
    b = MultiSigWalletBalance(owners=[build.uh(history.party(n).uh) for n in (0, 1)], signature_count=2)
    rejects(lambda: a.balance_add(b), 'adding up two different multi-signature wallets')
    for x in (WalletBalance(), WalletsBalance(), a):
        for y in (5, 'x', [], {}):
            rejects(lambda: x.balance_add(y), 'adding {!r} to a balance'.format(y))
    for n in (0, 3, -1, '1'):
        rejects(lambda: MultiSigWalletBalance(owners=[build.uh(history.party(n).uh) for n in (0, 1)], signature_count=n), 'a 2-owner wallet which needs {!r} signatures'.format(n))
    x, y = WalletBalance(), WalletBalance()
    x.chain_height, x.chain_time = case['h'] + 1, case['t'] - 1
    y.chain_height, y.chain_time = case['h'], case['t']
    rejects(lambda: x.balance_add(y), 'adding a balance of an earlier block with a later time')
    rejects(lambda: y.balance_add(x), 'adding a balance of a later block with an earlier time')


SUBS = [
    Sub('addresses', st.fixed_dictionaries(listings), addresses, 900, 8000, 'an address with spent outputs'),
    Sub('wallet', st.fixed_dictionaries(dict(listings, keys=st.integers(1, KEYS), faults=st.lists(st.tuples(st.integers(0, 8), st.integers(0, 10)).map(list), max_size=2))), wallet, 700, 6000, 'spent outputs and a multi-signature wallet'),
    Sub('wide', st.fixed_dictionaries({'seed': st.integers(0, 10**6), 'listing': st.sampled_from(['desc', 'asc', 'shuffled']), 'keys': st.sampled_from([3, 25, 60]),
                                       'multis': st.sampled_from([0, 15, 40]), 'owner': st.integers(0, 59), 'busy': st.sampled_from([0, 120, 300])}), wide, 24, 200, 'every case', shards=8),
    Sub('merged', st.fixed_dictionaries(dict(listings, before=history.ops, take=st.lists(st.lists(st.integers(0, 9), max_size=4), min_size=2, max_size=2),
                                             order=st.lists(st.integers(0, 20), min_size=1, max_size=8), start=st.sampled_from(['first', 'wallet', 'wallets']),
                                             two=st.booleans())),
        merged, 1500, 12000, 'several balances added up'),
    Sub('adding', st.fixed_dictionaries({
        'outs': st.lists(st.tuples(history.who.filter(lambda w: w[0] != 'swap'), st.integers(1, 10**12), st.sampled_from(['u', 'c', 'cs', 'uu', 's']), history.lock).map(list), max_size=6),
        'depth': st.integers(1, 4), 'times': st.sampled_from([1] * 25 + [30, 140]), 'known': st.booleans(), 'order': st.integers(0, 10**6)}), adding, 1500, 12000, 'more than two sightings'),
    Sub('mismatched', st.fixed_dictionaries({'h': st.integers(1, 1000), 't': st.integers(2, 10**9)}), mismatched, 30, 100, 'every case', shards=1),
]
