"""C29: blocks and transactions which arrive during an operation do it no harm, nor do explorers which lag behind."""
import copy
import hashlib
import json

from hypothesis import strategies as st

from tfchain import errors

from pbt import history, ref, sim, wallets
from pbt.checks import c13_balances
from pbt.core import Sub, check, eq
from pbt.wallets import ONE

KEYS = 4


class Moving:
    """What happens between the requests of an operation: events before some of them. With `lag`, the events have happened before, but some of
    the requests reach an explorer which does not know that yet. `look` sees every state of the chain which can be seen."""

    def __init__(self, chain, events, play, look, lag=None):
        self.chain, self.events, self.play, self.look, self.lag = chain, list(events), play, look, lag
        self.n = self.happened = 0

    def __call__(self, kind, endpoint):
        n, self.n = self.n, self.n + 1
        if self.lag:
            # (a block which only the others know is looked up at one of them)
            if kind == 'POST' or not self.lag[n % len(self.lag)] or endpoint.split('/')[-1] in self.blocks:
                return None
            return json.dumps(self.old.answer(endpoint))
        for at, o in self.events:
            if at == n and self.play(self.chain, o) is not False:
                self.happened += 1
                self.look()

    def __enter__(self):
        self.look()
        if self.lag:
            self.old = copy.deepcopy(self.chain)
            for _, o in self.events:
                self.happened += self.play(self.chain, o) is not False
            self.blocks = {self.chain.block_id(h).hex() for h in self.chain.blocks if h not in self.old.blocks}
            self.look()
        self.chain.fault = self
        return self

    def __exit__(self, *_):
        self.chain.fault = None


lagging = st.one_of(st.none(), st.none(), st.lists(st.booleans(), min_size=2, max_size=7))
at = st.one_of(st.integers(0, 8), st.integers(0, 16))
mine = st.fixed_dictionaries({'op': st.just('mine'), 'n': st.integers(1, 2), 'sec': st.sampled_from([1, 599, 600, 601, 3000]), 'keep': st.integers(0, 1)})


def timeline(*events):
    return st.lists(st.tuples(at, st.one_of(*events)), min_size=1, max_size=5)


# ------------------------------------------------------------------ balances

KINDS = ('available', 'locked', 'unconfirmed', 'unconfirmed_locked', 'spent', 'unconfirmed_spent')


def judge(b, addrs, chain, seen, what):
    """every output of these addresses is reported in a state in which it was at some moment; those which did not change are reported"""
    here = [b.chain_height, b.chain_time, str(b.chain_blockid)]
    check(here in [[h, t, chain.block_id(h).hex()] for h, t, _ in seen], '{}: {} is none of the blocks of that time: {}', what, here, [x[:2] for x in seen])
    kinds = {'available': b.outputs_available, 'unconfirmed': b.outputs_unconfirmed_available, 'spent': b.outputs_spent, 'unconfirmed_spent': b.outputs_unconfirmed_spent}
    got = {}
    for k, outs in kinds.items():
        for i, v in c13_balances.ids(outs).items():
            check(i not in got, '{}: output {} is {} and {}', what, i, k, got.get(i))
            got[i] = (k, v)
    for i, v in c13_balances.ids(b.outputs_unconfirmed).items():
        if got.get(i, ('',))[0] != 'unconfirmed':
            check(i not in got, '{}: output {} is unconfirmed, locked and {}', what, i, got.get(i))
            got[i] = ('unconfirmed_locked', v)
    # (the states are those of the outputs at each moment, with the locks as of the block that is reported)
    moments = [{i: (k, chain.outputs[bytes.fromhex(i)]['o']['v']) for i, k in adjust(chain, raw, b).items() if sim.addr_of(chain.outputs[bytes.fromhex(i)]['o']['c']) in addrs} for _, _, raw in seen]
    changed, least, most = 0, 0, 0
    for i in set().union(*moments) | set(got):
        was = [m.get(i) for m in moments]
        changed += len(set(was)) > 1
        if i in got:
            check(got[i] in was, '{}: output {} is reported as {}, but was {}', what, i, got[i], was)
            continue
        # (locked outputs are not listed, but have a total)
        locked = [x is not None and x[0] == 'locked' for x in was]
        check(None in was or any(locked), '{}: output {} is not reported, but was {}', what, i, was)
        v = chain.outputs[bytes.fromhex(i)]['o']['v']
        most += v * any(locked)
        least += v * all(locked)
    check(least <= int(b.locked.json()) <= most, '{}: {} locked, expected {} to {}', what, b.locked, least, most)
    for k in ('available', 'unconfirmed', 'unconfirmed_locked'):
        eq(int(getattr(b, k).json()), sum(v for x, v in got.values() if x == k), '{}: {} total'.format(what, k))
    return changed


def raw_states(chain):
    """{output: state}, without locks"""
    out = {}
    for i, rec in chain.outputs.items():
        if rec['spent'] is not None:
            out[i.hex()] = 'spent' if rec['spent'].height is not None else 'unconfirmed_spent'
        else:
            out[i.hex()] = 'available' if rec['by'].height is not None else 'unconfirmed'
    return out


def adjust(chain, raw, b):
    def one(i, k):
        if k in ('available', 'unconfirmed') and sim.is_locked(chain.outputs[bytes.fromhex(i)]['o']['c'], b.chain_height, b.chain_time):
            return {'available': 'locked', 'unconfirmed': 'unconfirmed_locked'}[k]
        return k
    return {i: one(i, k) for i, k in raw.items()}


# locks which open about now, at outputs of ours
opening = st.lists(st.tuples(history.value, history.mine, st.one_of(st.tuples(st.just('h'), st.integers(0, 3)).map(list), st.tuples(st.just('t'), st.sampled_from([0, 1, 599, 600, 601, 1200])).map(list))).map(list), min_size=2, max_size=5)
soon = st.tuples(history.ops.map(lambda o: o[:4]), opening, st.booleans()).map(lambda t: t[0] + [{'op': 'grant', 'outs': t[1], 'conf': t[2], 'ver': 1}])
balances_st = st.fixed_dictionaries({'lag': lagging, 'world': history.world, 'ops': st.one_of(history.ops, soon), 'events': st.one_of(timeline(history.op, history.op, mine), timeline(mine)), 'scan': st.sampled_from([0, 0, 2])})


def balances(case, ctx):
    chain = c13_balances.new_chain(case)
    w = chain.wallet(history.SEED, KEYS, scan=case['scan'])
    own = {history.party(n).addr for n in range(KEYS)}
    before = {m for a in own for m in chain.multisigs(a)}
    seen = []
    with Moving(chain, case['events'], history.play, lambda: seen.append((chain.height, chain.time, raw_states(chain))), case['lag']) as m:
        b = w.balance
    extra = {sim.key(history.SEED, n).addr for n in range(KEYS, KEYS + 8)} if case['scan'] else set()
    changed = judge(b, own | extra, chain, seen, 'wallet')
    after = {x for a in own | extra for x in chain.multisigs(a)}
    listed = set(b.addresses_multisig)
    check(before <= listed <= after, 'multi-signature wallets: {}, expected {} to {}', listed, before, after)
    for x in b.wallets:
        eq([b.wallets[x].chain_height, b.wallets[x].chain_time, str(b.wallets[x].chain_blockid)], [b.chain_height, b.chain_time, str(b.chain_blockid)], 'block that the balance of the multi-signature wallet is about')
        changed += judge(b.wallets[x], {x}, chain, seen, 'multi-signature wallet')
        c13_balances.is_multisig(b.wallets[x], x, chain, 'multi-signature wallet')
    ctx.nontrivial(changed > 0)
    ctx.label('{} events'.format(min(m.happened, 3)))
    ctx.label('an output changed meanwhile', changed > 0)
    # and once it is quiet again, everything is as it is
    c13_balances.is_wallet_balance(w.balance, chain, [history.party(n).addr for n in range(KEYS)], 'wallet afterwards') if not case['scan'] else None


# ------------------------------------------------------------------ payments

grant = st.fixed_dictionaries({'op': st.just('grant'), 'outs': st.lists(history.out, min_size=1, max_size=3), 'conf': st.booleans(), 'ver': st.sampled_from([1, 129, 209])})
elsewhere = st.fixed_dictionaries({'op': st.just('elsewhere'), 'which': st.integers(0, 20), 'conf': st.booleans()})     # the same coins are spent by another copy of the wallet
purse = st.lists(st.tuples(st.integers(1, 50).map(lambda n: n * ONE), history.mine, st.sampled_from([True, True, True, False])).map(list), min_size=3, max_size=8)
DEMANDS = ['coins', 'builder', 'swap', 'erc20', 'register', 'bot', 'drain', 'multisig', 'update', 'update', 'transfer', 'mint', 'minters']
paying_st = st.fixed_dictionaries({'world': history.world, 'lag': lagging, 'purse': purse, 'kind': st.sampled_from(DEMANDS), 'amount': st.integers(1, 40 * ONE), 'to': st.integers(4, 5), 'events': st.one_of(timeline(mine, grant), timeline(mine, grant, elsewhere)),
                                   'scan': st.sampled_from([0, 0, 2]), 'data': st.sampled_from([None, b'x']), 'expires': st.sampled_from([10**7] * 3 + [-1, 0, 1, 300, 600, 601, 1800]), 'rich': st.booleans()})


def event(chain, o):
    if o['op'] != 'elsewhere':
        return history.play(chain, o)
    own = {history.party(n).addr for n in range(KEYS)}
    live = [i for i, r in chain.outputs.items() if r['spent'] is None and sim.addr_of(r['o']['c']) in own]
    if not live:
        return False
    i = live[o['which'] % len(live)]
    chain.spend([i], [], o['conf'] and chain.outputs[i]['by'].height is not None)


def paying(case, ctx):
    """what is sent while the chain moves on is valid, and is sent whenever it could be paid all the time"""
    chain = history.new_chain(case['world'])
    wallets.fill(chain, case['purse'])
    if case['rich']:
        chain.grant([{'v': 200 * ONE, 'c': {'k': 'uh', 'uh': history.party(0).uh}}])
    for n in (1, 2):
        chain.bots[n] = {'id': n, 'names': ['aaaaa.robot%d' % n, 'bbbbb.robot%d' % n], 'addresses': [], 'pk': history.party(n).pk, 'expiration': chain.time + (case['expires'] if n == 1 else 10**7)}
    chain.mint.append((1, {'k': 'uh', 'uh': history.party(1).uh}))
    w = chain.wallet(history.SEED, KEYS, scan=case['scan'])
    own = {history.party(n).addr for n in range(KEYS)}
    kind, fee, v = case['kind'], chain.min_fee, case['amount']
    target = history.party(case['to'])
    ms = ['ms', [0, 4], 2]
    ms_addr = sim.addr_of(history.condition(chain, ms))
    pools, active = [], []

    def look():
        s = chain.sheet({ms_addr} if kind == 'multisig' else own)
        pools.append(dict(s['available'], **s['unconfirmed']))
        active.append(chain.time < chain.bots[1]['expiration'])
    clash = any(o['op'] == 'elsewhere' for _, o in case['events'])
    cost = {'register': 10 * ONE, 'bot': 110 * ONE, 'update': 50 * ONE, 'transfer': 50 * ONE}.get(kind, v) + fee
    with Moving(chain, case['events'], event, look, case['lag']) as m:
        try:
            if kind == 'coins':
                r = w.coins_send(target.addr, wallets.amount_arg(v, 'tft'), data=case['data'])
            elif kind == 'multisig':
                r = w.coins_send(target.addr, wallets.amount_arg(v, 'tft'), source=ms_addr, data=case['data'])
            elif kind == 'builder':
                bd = w.coin_transaction_builder_new()
                bd.output_add(target.addr, wallets.amount_arg(v, 'tft'))
                r = bd.send(data=case['data'])
            elif kind == 'swap':
                r = w.atomicswap.initiate(target.addr, wallets.amount_arg(v, 'tft'), data=case['data'])
            elif kind == 'erc20':
                r = w.erc20.coins_send('0x' + '5a' * 20, wallets.amount_arg(v, 'tft'))
            elif kind == 'register':
                r = w.erc20.address_register(history.party(1).addr)
            elif kind == 'bot':
                r = w.threebot.record_new(months=2, names=['aaaaa.bbbbb'])
            elif kind == 'update':
                r = w.threebot.record_update(1, names_to_add=['ccccc.ddddd'])
            elif kind == 'transfer':
                r = w.threebot.name_transfer(1, 2, ['aaaaa.robot1'])
            elif kind == 'mint':
                r = w.minter.coins_new(target.addr, wallets.amount_arg(v, 'tft'), data=case['data'])
            elif kind == 'minters':
                r = w.minter.definition_set(target.addr, data=case['data'])
            else:
                r = w.balance.drain(target.addr, chain.min_fee and w.client.minimum_miner_fee, data=case['data'])
            e = None
        except Exception as x:
            r, e = None, x
    posted = len(chain.posted)
    if clash and isinstance(e, sim.Refused):
        # somebody was faster: that is for the network to say
        ctx.label('refused by the network')
        ctx.nontrivial()
        return
    what = '{} of {} on a moving chain'.format(kind, v)
    if kind in ('update', 'transfer') and not all(active):
        # a bot which expires meanwhile: refused by the wallet or by the network
        if isinstance(e, errors.ThreeBotInactive):
            eq(posted, 0, what + ': posted transactions of a failure')
            return
        if isinstance(e, sim.Refused):
            check(any(active), '{}: submitted, while the bot never was active', what)
            return
    chain.check()
    best = lambda p: sum(sorted(p.values(), reverse=True)[:99])
    if kind == 'drain':
        check(e is None, '{}: {!r}', what, e)
        drained = [i['p'].hex() for t in r for i in ref.tx_parse(t.json())['ci']]
        eq(len(drained), len(set(drained)), what + ': outputs which are spent twice')
        for t in r:
            t = ref.tx_parse(t.json())
            have = sum(chain.outputs[i['p']]['o']['v'] for i in t['ci'])
            eq([(o['v'], o['c']) for o in t['co']], [(have - fee, {'k': 'uh', 'uh': target.uh})], what)
        ctx.nontrivial(m.happened > 0 and bool(r))
        return
    enough = [best(p) >= cost or kind in ('mint', 'minters') for p in pools]
    if kind == 'swap' and v <= fee:
        check(isinstance(e, errors.AtomicSwapInsufficientAmountError), '{}, not more than the fee: {!r}', what, e)
        return
    if e is not None:
        check(isinstance(e, errors.InsufficientFunds), '{}: {!r}', what, e)
        check(not all(enough) or clash, '{}, while there always were {}: {!r}', what, [best(p) for p in pools], e)
        eq(posted, 0, what + ': posted transactions of a failure')
        ctx.label('insufficient funds')
        return
    check(any(enough), '{}, while there never was more than {}: {!r}', what, max(best(p) for p in pools), r.transaction.json())
    t = ref.tx_parse(r.transaction.json())
    if kind == 'multisig':
        check(not r.submitted and posted == 0, '{}: submitted with one of two signatures', what)
    else:
        check(r.submitted and posted == 1, '{}: not submitted', what)
        eq(ref.tx_json(chain.accepted[-1].tx), ref.tx_json(t), what + ': submitted transaction')
        eq(str(r.transaction.id), chain.accepted[-1].id.hex(), what + ': id')
    if kind in ('coins', 'builder', 'multisig'):
        eq((t['co'][0]['v'], t['co'][0]['c']), (v, {'k': 'uh', 'uh': target.uh}), what + ': output')
    elif kind == 'swap':
        c = t['co'][0]['c']
        eq((t['co'][0]['v'], c['r'], c['hs']), (v, target.uh, hashlib.sha256(bytes.fromhex(str(r.secret))).digest()), what + ': contract')
    elif kind == 'update':
        eq((t['id'], t['names_add'], t['months']), (1, ['ccccc.ddddd'], 0), what + ': update')
    elif kind == 'transfer':
        eq((t['sid'], t['rid'], t['names']), (1, 2, ['aaaaa.robot1']), what + ': transfer')
    elif kind == 'mint':
        eq(t['co'], [{'v': v, 'c': {'k': 'uh', 'uh': target.uh}}], what + ': minted')
    elif kind == 'minters':
        eq(t['mc'], {'k': 'uh', 'uh': target.uh}, what + ': minter definition')
    elif kind == 'erc20':
        eq((t['addr'], t['value']), (bytes.fromhex('5a' * 20), v), what + ': converted')
    ctx.nontrivial(m.happened > 0)
    ctx.label('{}: sent'.format(kind))


# ------------------------------------------------------------------ swaps

swaps_st = st.fixed_dictionaries({'world': history.world, 'lag': lagging, 'kind': st.sampled_from(['verify', 'verify', 'verify', 'redeem', 'refund', 'refund', 'initiate', 'participate']), 'rt': st.sampled_from([-600, -1, 0, 1, 599, 600, 601, 1200, 3600, 7200]),
                                  'min': st.sampled_from([None, 0, ['rel', 0], ['rel', 0], ['rel', 1], ['rel', -1], ['now', 0], ['now', 600], ['now', 1], '+10m', '+1h', '+1s']),
                                  'events': st.one_of(timeline(mine), timeline(mine, mine, st.fixed_dictionaries({'op': st.just('taken'), 'conf': st.booleans()}))), 'v': st.integers(ONE + 1, 5 * ONE), 'duration': st.sampled_from(['+1h', '+10m', '+48h'])})


def swaps(case, ctx):
    """a contract is what it is at some moment of the operation"""
    chain = history.new_chain(case['world'])
    secret = b'\7' * 32
    digest = hashlib.sha256(secret).digest()
    lt = chain.time + case['rt']
    mine_is = 's' if case['kind'] == 'refund' else 'r'
    a, b = history.party(0), history.party(4)
    e = chain.grant([{'v': case['v'], 'c': {'k': 'swap', 's': (a if mine_is == 's' else b).uh, 'r': (b if mine_is == 's' else a).uh, 'hs': digest, 'lt': lt}}, {'v': 20 * ONE, 'c': {'k': 'uh', 'uh': a.uh}}])
    oid = e.ids()[0]
    w = chain.wallet(history.SEED, 2)
    start = chain.time
    moments = []

    def play(chain, o):
        if o['op'] == 'taken':
            if chain.outputs[oid]['spent'] is not None:
                return False
            chain.spend([oid], [], o['conf'])
        else:
            history.play(chain, o)

    def look():
        moments.append((chain.time, chain.outputs[oid]['spent'] is not None))
    kind, d = case['kind'], {'+1h': 3600, '+10m': 600, '+48h': 172800, '+1s': 1}
    m = case['min']
    with Moving(chain, case['events'], play, look, case['lag']) as mv:
        x = r = None
        try:
            if kind == 'verify':
                arg = m if not isinstance(m, list) else lt + m[1] if m[0] == 'rel' else start + m[1]
                r = w.atomicswap.verify(oid.hex(), amount=wallets.amount_arg(case['v'], 'tft'), secret_hash=digest.hex(), receiver=True, min_refund_time=arg)
            elif kind == 'redeem':
                r = w.atomicswap.redeem(oid.hex(), secret)
            elif kind == 'refund':
                r = w.atomicswap.refund(oid.hex())
            elif kind == 'initiate':
                r = w.atomicswap.initiate(b.addr, wallets.amount_arg(case['v'], 'tft'), refund_time=case['duration'])
            else:
                r = w.atomicswap.participate(b.addr, wallets.amount_arg(case['v'], 'tft'), digest.hex(), refund_time=case['duration'])
        except Exception as err:
            x = err
    what = '{} on a moving chain'.format(kind)
    ctx.nontrivial(mv.happened > 0 and len(set(moments)) > 1)
    ctx.label(kind + ': ' + (type(x).__name__ if x is not None else 'done'))
    taken = [s for _, s in moments]
    if isinstance(x, sim.Refused) and any(taken):
        return      # somebody was faster
    chain.check()
    if kind in ('initiate', 'participate'):
        check(x is None and r.submitted, '{}: {!r}', what, x)
        c = ref.tx_parse(r.transaction.json())['co'][0]['c']
        check(c['lt'] in [t + d[case['duration']] for t, _ in moments], '{}: the refund time {} is not {} from any moment {}', what, c['lt'], case['duration'], moments)
        eq(r.contract.refund_timestamp, c['lt'], what + ': refund time of the contract')
        return
    if isinstance(x, errors.AtomicSwapContractSpent):
        check(any(taken), '{}: spent, which it never was', what)
        return

    def holds(t):
        if kind == 'redeem':
            return True
        if kind == 'refund':
            return t >= lt
        if m is None:
            return True
        want = t + d[m] if isinstance(m, str) else arg
        return lt >= want if want > t else lt <= t
    holding = [holds(t) for t, _ in moments]
    if x is None:
        check(any(holding), '{}: accepted, while it never was possible: {}', what, case)
        check(not all(taken), '{}: it always was spent', what)
        if kind == 'verify':
            eq([str(r.outputid), int(r.amount.json()), r.refund_timestamp], [oid.hex(), case['v'], lt], what)
        else:
            check(len(chain.posted) == 1 and len(chain.accepted) == 1, '{}: not submitted', what)
            t = ref.tx_parse(r.json())
            eq([(o['v'], o['c']) for o in t['co']], [(case['v'] - chain.min_fee, {'k': 'uh', 'uh': a.uh})], what + ': output')
    else:
        check(isinstance(x, errors.AtomicSwapContractInvalid if kind == 'verify' else errors.AtomicSwapForbidden), '{}: {!r}', what, x)
        check(not all(holding), '{}: refused ({}), while it always was possible: {}', what, x, moments)
        eq(chain.posted, [], what + ': posted transactions')


# ------------------------------------------------------------------ co-signing

signing_st = st.fixed_dictionaries({'world': history.world, 'lag': lagging, 'purse': purse, 'amount': st.integers(1, 5 * ONE), 'events': timeline(mine, grant), 'later': timeline(mine, grant), 'form': st.sampled_from(['object', 'dict', 'text']), 'conf': st.booleans()})


def signing(case, ctx):
    """a transaction which is handed over while blocks arrive is completed all the same"""
    chain = history.new_chain(case['world'])
    wallets.fill(chain, case['purse'])
    cond = history.condition(chain, ['ms', [0, 4], 2])
    chain.grant([{'v': 6 * ONE, 'c': cond}], case['conf'])
    ours, theirs = chain.wallet(history.SEED, 2), chain.wallet(history.OTHER, 5, scan=0)
    eq(history.party(4).addr in theirs.addresses, True, 'party')
    nothing = lambda: None
    with Moving(chain, case['events'], history.play, nothing, case['lag']):
        r = ours.coins_send(history.party(5).addr, wallets.amount_arg(case['amount'], 'tft'), source=sim.addr_of(cond))
    chain.check()
    check(not r.submitted, 'submitted with one of two signatures')
    h = wallets.Handover(chain, r.transaction, {})
    t = ref.tx_parse(r.transaction.json())
    eq(len(h.state(t)), len(t['ci']), 'signatures')
    arg = r.transaction if case['form'] == 'object' else r.transaction.json() if case['form'] == 'dict' else json.dumps(r.transaction.json())
    with Moving(chain, case['later'], history.play, nothing, case['lag']) as m:
        s = theirs.transaction_sign(arg)
    chain.check()
    check(s.signed and s.submitted and len(chain.accepted) == 1, 'signed: {}, submitted: {}', s.signed, s.submitted)
    got = chain.accepted[0].tx
    eq([(o['v'], o['c']) for o in got['co'][:1]], [(case['amount'], {'k': 'uh', 'uh': history.party(5).uh})], 'output')
    ctx.nontrivial(m.happened > 0)


# ------------------------------------------------------------------ what is asked for in several requests

looking_st = st.fixed_dictionaries({'lag': lagging, 'ops': history.ops, 'world': history.world, 'events': timeline(history.op, mine, mine)})


def looking(case, ctx):
    """the information about the chain, the transactions of a wallet"""
    chain = c13_balances.new_chain(case)
    w = chain.wallet(history.SEED, KEYS)
    own = [history.party(n).addr for n in range(KEYS)]
    seen, known = [], []

    def look():
        seen.append([chain.height, chain.time, chain.block_id(chain.height).hex()])
        known.append({e.id.hex() for a in own for e in chain.touching(a)})
    with Moving(chain, case['events'], history.play, look, case['lag']):
        info = w.client.blockchain_info_get()
    check([info.height, info.timestamp, str(info.blockid)] in seen, 'information about no block of the chain: {}, expected one of {}', [info.height, info.timestamp, str(info.blockid)], seen)
    del known[:]
    with Moving(chain, case['events'], history.play, look, case['lag']) as m:
        txs = w.transactions
    ids = [str(t.id) for t in txs]
    eq(len(ids), len(set(ids)), 'transactions which are listed twice')
    check(known[0] <= set(ids) <= known[-1], 'transactions of the wallet: {}, expected {} to {}', ids, known[0], known[-1])
    ctx.nontrivial(m.happened > 0)


SUBS = [
    Sub('balances', balances_st, balances, 1000, 10000, 'an output changed during the look-up'),
    Sub('paying', paying_st, paying, 1000, 10000, 'something happened during the operation'),
    Sub('swaps', swaps_st, swaps, 1200, 12000, 'the state of the contract or the time changed during the operation'),
    Sub('signing', signing_st, signing, 300, 3000, 'something happened while the second owner signed'),
    Sub('looking', looking_st, looking, 400, 4000, 'something happened during the look-up'),
]
