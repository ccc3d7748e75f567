"""C19: bot records: exact fees, valid limits, right signatures."""
from hypothesis import strategies as st

from tfchain import errors
from tfchain.types.ThreeBot import BotName, NetworkAddress
from tfchain.types import transactions

from pbt import build, history, ref, sim, wallets
from pbt.wallets import Fault
from pbt.core import Sub, check, eq, fail, rejects
from pbt.wallets import ONE, Funds

KEYS = 4
NAMES = ['foobar', 'chatbot.example', 'aaaaa.bbbbb', 'trading.botzone', 'threefold.token', 'voicebot', 'example.thebot']
ADDRS = ['example.org', '127.0.0.1', '2001:db8:85a3::8a2e:370:7334', 'bot.example.org', '10.0.0.1', '10.0.0.2', '10.0.0.3', 'a.example.org', 'b.example.org', '::1', '192.168.1.1', 'c.example.org']
ABSENT = 99


def party(n):
    """0-3: keys of our wallet; 4-5: of the other wallet; 6: of somebody unknown"""
    return history.party(n) if n < 6 else sim.key(b'\x42' * 32, 0)


def subset(pool, limit):
    few = st.lists(st.sampled_from(pool[:3]), max_size=2, unique=True)
    return st.one_of(st.none(), few, few, few, st.integers(0, limit + 1).map(lambda n: pool[:n]), st.sampled_from([limit - 1, limit, limit, limit + 1]).map(lambda n: pool[:n]))


names, addrs = subset(NAMES, 5), subset(ADDRS, 10)
months = st.one_of(st.integers(1, 24), st.sampled_from([0, 0, 1, 11, 12, 13, 23, 24, 24, 25, -1]))
common = dict(wallets.funding, exact=st.sampled_from([False] * 5 + [True]), objects=st.booleans(), fault=st.sampled_from([None] * 9 + list(range(7)) + ['after'] * 2))
# (funds: plenty, so that the fee is what decides)
register = st.fixed_dictionaries(dict(common, op=st.just('register'), months=months, names=names, addrs=addrs,
                                      key=st.one_of(st.none(), st.integers(0, KEYS - 1), st.sampled_from([-1, 40, 'x', 1.5]))))
bot = st.sampled_from([0, 0, 1, 1, 2, 3] * 3 + [4, 5, ABSENT])
update = st.fixed_dictionaries(dict(common, op=st.just('update'), bot=bot, months=st.one_of(st.just(0), st.just(0), months), na=names, nr=names, aa=addrs, ar=addrs))
small = st.fixed_dictionaries(dict(common, op=st.just('update'), bot=bot, months=st.sampled_from([0, 0, 1, 24]), na=st.one_of(st.none(), st.just([]), names), nr=st.one_of(st.none(), st.just([]), names),
                                   aa=st.one_of(st.none(), st.just([]), addrs), ar=st.one_of(st.none(), st.none(), addrs)))
transfer = st.fixed_dictionaries(dict(common, op=st.just('transfer'), s=bot, r=bot, names=st.one_of(names, st.integers(1, 5).map(lambda n: NAMES[:n]))))
handed = transfer.map(lambda o: dict(o, s=0, r=o['r'] or 1, fault=None, names=o['names'] or NAMES[:1]))
# one which can be carried out, when there are funds
bought = st.tuples(register, st.integers(1, 24), st.integers(0, 5), st.integers(0, 10), st.sampled_from([None, None, 0, 1, 2])).map(
    lambda t: dict(t[0], months=t[1], names=NAMES[:t[2]], addrs=ADDRS[:max(t[3], not t[2])], key=t[4], fault=None, source=None))
kept = small.map(lambda o: dict(o, bot=0, na=(o['na'] or [])[:5], nr=(o['nr'] or [])[:5], aa=(o['aa'] or [])[:10], ar=(o['ar'] or [])[:10], months=max(o['months'], not (o['na'] or o['nr'] or o['aa'] or o['ar'])), fault=None, source=None))
sign = st.fixed_dictionaries({'op': st.just('sign'), 'w': st.sampled_from([0, 1, 1, 1, 2]), 'form': st.sampled_from(['object', 'dict', 'text']), 'submit': st.sampled_from([True, True, True, False])})
# one which more than one wallet has to sign, and that signing
joint = st.one_of(bought, kept).map(lambda o: dict(o, source=[['ms', [0, 4], 2]], exact=False))
parts = st.tuples(st.one_of(handed, joint), st.lists(st.one_of(sign, sign.map(lambda o: dict(o, w=1, submit=True))), min_size=1, max_size=3)).map(lambda t: [t[0]] + t[1])
mine = st.fixed_dictionaries({'op': st.just('mine'), 'n': st.integers(1, 2), 'sec': st.sampled_from([1, 600, 3600, 40 * 24 * 3600])})
record = st.fixed_dictionaries({'owner': st.sampled_from([0, 0, 1, 2, 4, 5, 6]), 'exp': st.sampled_from([-3600, -1, 0, 1, 600, 3600] + [10**8] * 10)})
case_st = st.fixed_dictionaries({'scan': st.sampled_from([0, -1, 2]), 'world': history.world, 'purse': wallets.purse, 'rich': st.sampled_from([0, 100, 400, 1000, 1000, 1000]), 'ms': st.booleans(),
                                 'bots': st.lists(record, min_size=1, max_size=6, unique_by=lambda b: b['owner']),
                                 'ops': st.lists(st.one_of(st.one_of(register, bought, update, small, kept, transfer, handed, sign, mine).map(lambda o: [o]), parts, parts), min_size=1, max_size=5).map(lambda gs: [o for g in gs for o in g])})


class Bots:
    def __init__(self, case, ctx):
        self.ctx = ctx
        self.chain = chain = history.new_chain(case['world'])
        wallets.fill(chain, case['purse'])
        if case['rich']:
            c = [{'k': 'uh', 'uh': history.party(n).uh} for n in (0, 1)] + [{'k': 'ms', 'n': 2, 'uhs': [history.party(0).uh, history.party(4).uh]}] * case['ms']
            chain.grant([{'v': case['rich'] * ONE, 'c': x} for x in c for _ in range(4)])
        for n, b in enumerate(case['bots']):
            chain.bots[n + 1] = {'id': n + 1, 'names': NAMES[:n], 'addresses': ADDRS[:1], 'pk': party(b['owner']).pk, 'expiration': chain.time + b['exp']}
        self.w = [chain.wallet(history.SEED, KEYS, scan=case['scan']), chain.wallet(history.OTHER, 6, scan=case['scan']), chain.wallet(b'\x33' * 32, 2)]
        self.pending = None 

    def bot(self, n):
        return n if n == ABSENT else n % len(self.chain.bots) + 1

    def request(self, o, fn, reasons, want, what):
        """reasons: why it has to be refused; want: (content of the transaction, bots that have to sign: {field: (key, what they sign as)})"""
        chain = self.chain
        funds = Funds(chain, KEYS, o['source'])
        args = dict(source=wallets.source_arg(o['source'], o['sform']), refund=None if o['refund'] is None else wallets.recipient_arg(chain, o['refund'], o['rform']))
        chain.fault = Fault(o['fault']) if o['fault'] is not None else None
        r = e = None
        try:
            r = fn(**args)
        except Exception as exc:
            e = exc
        hit, chain.fault = chain.fault is not None and chain.fault.hit, None
        if hit:
            check(e is not None, '{} done, although the explorer failed', what)
            funds.unchanged(what + ' while the explorer failed')
            return None
        if reasons:
            check(e is not None, '{}: accepted, although {}', what, reasons[0][0])
            rejects(lambda: (_ for _ in ()).throw(e), what)
            kinds = [k for _, k in reasons if k]
            if kinds and len(kinds) == len(reasons):
                check(isinstance(e, tuple(kinds)), '{}, although {}: {!r}', what, reasons[0][0], e)
            funds.unchanged(what + ' is refused')
            self.ctx.label('refused: ' + reasons[0][0])
            return None
        content, keys = want()
        total = chain.min_fee + chain.bot_fee(content)
        if not funds.enough(total):
            check(isinstance(e, errors.InsufficientFunds), '{} for {} while {} are available: {!r}', what, total, funds.best, e)
            funds.unchanged(what + ' without funds')
            self.ctx.label('insufficient funds')
            return None
        if e is not None:
            chain.check()
            raise e
        t = funds.judge_result(r, what)
        eq({k: t[k] for k in content}, content, what + ': content')
        eq(t['fee'], chain.min_fee, what + ': fee of the miner')
        have = funds.judge_inputs(t)
        funds.judge_refund(t['refund'], have - total, o['refund'], what)
        eq(r.transaction.required_bot_fees.json(), str(chain.bot_fee(content)), what + ': stated fee of the bot')
        own = set(self.w[0].addresses)
        signed = wallets.extra_signatures(t, keys, what)
        eq(signed, {('extra', f) for f, (pk, _) in keys.items() if ref.uh_text(ref.pk_uh(pk)) in own}, what + ': signatures of bots')
        eq(r.submitted, funds.signable([i['p'] for i in t['ci']]) and len(signed) == len(keys), what + ': submitted')
        self.ctx.nontrivial()
        self.ctx.label(what + (' submitted' if r.submitted else ' in parts'))
        self.ctx.label(what + ' without refund', t['refund'] is None)
        if not r.submitted:
            self.pending = wallets.Handover(chain, r.transaction, keys)
        return t

    def spelled(self, o, xs, cls):
        return xs if xs is None or not o['objects'] else [cls.from_json(x) for x in xs]

    def limits(self, xs, limit, what):
        return [('more {} than allowed'.format(what), None)] if xs and len(xs) > limit else []

    def register(self, o):
        w = self.w[0]
        before = list(w.addresses)
        taken = [ref.uh_text(ref.pk_uh(b['pk'])) for b in self.chain.bots.values()] + [ref.uh_text(ref.pk_uh(e.tx['pk'])) for e in self.chain.mempool if e.tx['ver'] == 144]
        if isinstance(o['key'], int) and 0 <= o['key'] < len(before) and before[o['key']] in taken:
            return      # (a key is the key of one bot)
        reasons = self.limits(o['names'], 5, 'names') + self.limits(o['addrs'], 10, 'addresses')
        if not 1 <= o['months'] <= 24:
            reasons.append(('months out of range', None))
        if not o['names'] and not o['addrs']:
            reasons.append(('neither name nor address', None))
        if o['key'] is not None and not (isinstance(o['key'], int) and 0 <= o['key'] < len(before)):
            reasons.append(('no such key', None))
        fn = lambda **a: w.threebot.record_new(months=o['months'], names=self.spelled(o, o['names'], BotName), addresses=self.spelled(o, o['addrs'], NetworkAddress), key_index=o['key'], **a)
        keys = {}

        def want():
            addr = before[o['key']] if o['key'] is not None else w.addresses[-1]
            n = w.addresses.index(addr)
            keys['sig'] = (sim.key(history.SEED, n).pk, b'sender')
            eq(addr, sim.key(history.SEED, n).addr, 'address {} of the wallet'.format(n))
            return {'ver': 144, 'months': o['months'], 'names': o['names'] or [], 'addrs': o['addrs'] or []}, keys
        t = self.request(o, fn, reasons, want, 'registration')
        if t is None:
            return
        if o['key'] is None:
            eq(w.addresses[:-1], before, 'addresses before the new one')
            check(w.addresses[-1] not in before, 'the new key is no new key')
        else:
            eq(w.addresses, before, 'addresses')
        eq(t['pk'], keys['sig'][0], 'key of the bot')

    def update(self, o):
        i = self.bot(o['bot'])
        bot = self.chain.bots.get(i)
        reasons = []
        if not (o['months'] or o['na'] or o['nr'] or o['aa'] or o['ar']):
            reasons.append(('nothing changes', None))
        for xs, limit, what in ((o['na'], 5, 'names'), (o['nr'], 5, 'names'), (o['aa'], 10, 'addresses'), (o['ar'], 10, 'addresses')):
            reasons += self.limits(xs, limit, what)
        if not 0 <= o['months'] <= 24:
            reasons.append(('months out of range', None))
        if bot is None:
            reasons.append(('no such bot', errors.ThreeBotNotFound))
        elif bot['expiration'] <= self.chain.time and o['months'] == 0:
            reasons.append(('inactive', errors.ThreeBotInactive))
        n = lambda k: self.spelled(o, o[k], BotName)
        a = lambda k: self.spelled(o, o[k], NetworkAddress)
        fn = lambda **args: self.w[0].threebot.record_update(i, months=o['months'], names_to_add=n('na'), names_to_remove=n('nr'), addresses_to_add=a('aa'), addresses_to_remove=a('ar'), **args)
        self.request(o, fn, reasons, lambda: ({'ver': 145, 'id': i, 'months': o['months'], 'names_add': o['na'] or [], 'names_rem': o['nr'] or [], 'addrs_add': o['aa'] or [], 'addrs_rem': o['ar'] or []},
                                              {'sig': (bot['pk'], b'sender')}), 'update')

    def transfer(self, o):
        s, r = self.bot(o['s']), self.bot(o['r'])
        if s == r:
            return
        bots = [self.chain.bots.get(s), self.chain.bots.get(r)]
        reasons = self.limits(o['names'], 5, 'names')
        if not o['names']:
            reasons.append(('no names', None))
        for b in bots:
            if b is None:
                reasons.append(('no such bot', errors.ThreeBotNotFound))
            elif b['expiration'] <= self.chain.time:
                reasons.append(('inactive', errors.ThreeBotInactive))
        fn = lambda **args: self.w[0].threebot.name_transfer(s, r, self.spelled(o, o['names'], BotName), **args)
        self.request(o, fn, reasons, lambda: ({'ver': 146, 'sid': s, 'rid': r, 'names': o['names']}, {'ssig': (bots[0]['pk'], b'sender'), 'rsig': (bots[1]['pk'], b'receiver')}), 'transfer')

    def sign(self, o):
        t = ref.tx_parse(self.pending.txn.json()) if self.pending is not None else {}
        bots = [self.chain.bots[t[k]] for k in ('id', 'sid', 'rid') if k in t]
        if any(b['expiration'] <= self.chain.time for b in bots) and not t.get('months'):
            o = dict(o, submit=False)       # (a bot expired in the meantime: the network does not take it any more)
        if self.pending is not None and not self.pending.sign(self.w[o['w']], o, o['w'] > 0, self.ctx):
            self.pending = None


def asked(o):
    """what the fee of a request depends on"""
    if o['op'] == 'register':
        return {'ver': 144, 'months': o['months'], 'names': o['names'] or []}
    if o['op'] == 'update':
        return {'ver': 145, 'months': o['months'], 'names_add': o['na'] or [], 'addrs_add': o['aa'] or [], 'addrs_rem': o['ar'] or []}
    return {'ver': 146, 'names': o['names'] or []}


def bots(case, ctx):
    b = Bots(case, ctx)
    for o in case['ops']:
        if o['op'] == 'mine':
            b.chain.mine(o['sec'], o['n'])
        else:
            wallets.topup(b.chain, o)
            if o.get('exact'):
                o = wallets.exactly(b.chain, o, b.chain.min_fee + b.chain.bot_fee(asked(o)))
            getattr(b, o['op'])(o)
    b.chain.check()


def fees(case, ctx):
    """the fee stated by a transaction is the specified one"""
    t = case['t']
    txn = {144: transactions.threebot_registration_new, 145: transactions.threebot_record_update_new, 146: transactions.threebot_name_transfer_new}[t['ver']]()
    if t['ver'] == 144:
        txn.number_of_months, txn.names, txn.addresses = t['months'], t['names'], t['addrs']
    elif t['ver'] == 145:
        txn.number_of_months, txn.names_to_add, txn.names_to_remove, txn.addresses_to_add, txn.addresses_to_remove = [t[k] for k in ('months', 'names_add', 'names_rem', 'addrs_add', 'addrs_rem')]
    else:
        txn.names = t['names']
    want = sim.Chain().bot_fee(t)
    eq(txn.required_bot_fees.json(), str(want), 'fee of {}'.format(t))
    eq(txn.required_bot_fees.json(), str(want), 'fee of {}, asked for again'.format(t))
    ctx.nontrivial(want)


few = st.integers(0, 5).map(lambda n: NAMES[:n])
some = st.integers(0, 10).map(lambda n: ADDRS[:n])
fee_case = st.one_of(
    st.fixed_dictionaries({'ver': st.just(144), 'months': st.integers(1, 24), 'names': few, 'addrs': some}),
    st.fixed_dictionaries({'ver': st.just(145), 'months': st.integers(0, 24), 'names_add': few, 'names_rem': few, 'addrs_add': some, 'addrs_rem': some}),
    st.fixed_dictionaries({'ver': st.just(146), 'names': few}))

BAD = {'months': [None, 'x', 1.5, 2.0, '', [], -1, 25], 'names': [5, [5], [''], ['x'], ['foobar', 'a b c d e'], 'foobar', {'x': 1}], 'addresses': [5, [1.5], ['x y'], [[1]], 'example.org'],
       'identifier': [0, -1, None, 1.5, 'x', '', []], 'source': ['', 'x', 5], 'refund': ['', 'x', 5, {}] + wallets.NOT_PERSONAL}


def bad(case, ctx):
    """requests that make no sense are refused"""
    ctx.nontrivial()
    chain = sim.Chain()
    w = chain.wallet(history.SEED, 2)
    chain.grant([{'v': 500 * ONE, 'c': {'k': 'uh', 'uh': history.party(0).uh}}])
    for n in (1, 2):
        chain.bots[n] = {'id': n, 'names': [], 'addresses': ADDRS[:1], 'pk': history.party(n - 1).pk, 'expiration': chain.time + 10**6}
    k, n = case['bad']
    v = BAD[k][n % len(BAD[k])]
    calls = []
    if k != 'identifier':
        calls.append(lambda: w.threebot.record_new(**dict({'names': ['foobar'], 'addresses': ['example.org']}, **{k: v})))
        calls.append(lambda: w.threebot.record_update(1, **{'names': dict(names_to_add=v), 'addresses': dict(addresses_to_remove=v)}.get(k, dict({'names_to_add': ['foobar'], 'months': 1}, **{k: v}))))
        if k not in ('months', 'addresses'):
            calls.append(lambda: w.threebot.name_transfer(1, 2, **dict({'names': ['foobar']}, **{k: v})))
    else:
        calls += [lambda: w.threebot.record_update(v, months=1), lambda: w.threebot.name_transfer(v, 1, ['foobar']), lambda: w.threebot.name_transfer(1, v, ['foobar'])]
    for c in calls:
        rejects(c, 'a bot request with {} = {!r}'.format(k, v))
        chain.check()
        eq(chain.posted, [], 'posted transactions')


def many_keys(case, ctx):
    """a key of a wallet with many keys is the one with that index"""
    ctx.nontrivial()
    count, i = case['keys'], case['i'] % case['keys']
    chain = sim.Chain()
    chain.grant([{'v': 10000 * ONE, 'c': {'k': 'uh', 'uh': party(case['funds'] % count % 4).uh}}])
    w = chain.wallet(history.SEED, count)
    eq(w.addresses, [sim.key(history.SEED, n).addr for n in range(count)], 'addresses of the wallet')
    r = w.threebot.record_new(names=['foobar'], key_index=i)
    check(r.submitted, 'the registration with key {} was not submitted', i)
    eq(chain.entries[-1].tx['pk'], sim.key(history.SEED, i).pk, 'key {} of the bot'.format(i))
    chain.mine()
    r = w.threebot.record_update(1, names_to_add=['chatbot.example'])
    check(r.submitted, 'the update of a bot with key {} was not submitted', i)
    for bad_ in (count, count + 1, -1):
        rejects(lambda: w.threebot.record_new(names=['voicebot'], key_index=bad_), 'a registration with key {}'.format(bad_))
    chain.check()


SUBS = [
    Sub('many_keys', st.fixed_dictionaries({'keys': st.integers(5, 40), 'i': st.integers(0, 39), 'funds': st.integers(0, 39)}), many_keys, 60, 600, 'every case', shards=2),
    Sub('bots', case_st, bots, 1500, 20000, 'a request that was carried out, at least in part'),
    Sub('fees', st.fixed_dictionaries({'t': fee_case}), fees, 400, 4000, 'a fee is to be paid', shards=1),
    Sub('bad', st.fixed_dictionaries({'bad': st.tuples(st.sampled_from(sorted(BAD)), st.integers(0, 20)).map(list)}), bad, 120, 400, 'every case', shards=1),
]
