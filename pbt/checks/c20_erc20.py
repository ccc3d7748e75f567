"""C20: the ERC20 bridge: right address, right amount, right fee."""
from hypothesis import strategies as st

from tfchain import errors
from tfchain.types.ConditionTypes import OutputLock, UnlockHash
from tfchain.types.ERC20 import ERC20Address

from pbt import history, ref, sim, wallets
from pbt.wallets import Fault
from pbt.core import Sub, check, eq, rejects
from pbt.wallets import ONE, Funds

KEYS = 4
FEE = 10 * ONE       # of a registration

common = dict(wallets.funding, fault=st.sampled_from([None] * 9 + list(range(7)) + ['after'] * 2))
target = st.one_of(st.binary(min_size=20, max_size=20), st.sampled_from([bytes(20), b'\xff' * 20, bytes(19) + b'\1', b'\1' + bytes(19)]))
send = st.fixed_dictionaries(dict(common, op=st.just('send'), to=target, tform=st.integers(0, 5), v=wallets.amount, vform=wallets.amount_form, via=st.sampled_from(['erc20', 'erc20', 'coins'])))
joint = st.one_of(send, send.map(lambda o: dict(o, via='erc20'))).map(lambda o: dict(o, source=[['ms', [0, 4], 2]], fault=None, v=['of', 1 + o['v'][1] % 999, 0]))
joint = st.one_of(send, send.map(lambda o: dict(o, via='erc20'))).map(lambda o: dict(o, source=[['ms', [0, 4], 2]], fault=None, v=['of', 1 + o['v'][1] % 999, 0]))
ours = st.one_of(st.none(), st.integers(0, KEYS - 1), st.tuples(st.just('addr'), st.integers(0, KEYS - 1)).map(list), st.tuples(st.just('obj'), st.integers(0, KEYS - 1)).map(list))
bad = st.sampled_from([-1, 40, ['addr', 4], ['obj', 5], ['ms'], 'x', '', 1.5, True, ['list']])
register = st.fixed_dictionaries(dict(common, op=st.just('register'), exact=st.sampled_from([False] * 5 + [True]), value=st.one_of(ours, ours, ours, bad)))
shared = register.map(lambda o: dict(o, value=None if isinstance(o['value'], (str, float, bool)) else o['value'], source=[['ms', [0, 4], 2]], fault=None))
get = st.fixed_dictionaries({'op': st.just('get'), 'value': st.one_of(ours, ours, ours, bad)})
find = st.fixed_dictionaries({'op': st.just('find'), 'n': st.integers(0, 6), 'form': st.integers(0, 1)})
listing = st.fixed_dictionaries({'op': st.just('list'), 'scan': st.booleans()})
# somebody registers an address (also one of ours, from a copy of the wallet)
others = st.fixed_dictionaries({'op': st.just('others'), 'n': st.integers(0, 6), 'conf': st.booleans()})
sign = st.fixed_dictionaries({'op': st.just('sign'), 'w': st.sampled_from([0, 1, 1, 1, 2]), 'form': st.sampled_from(['object', 'dict', 'text']), 'submit': st.sampled_from([True, True, True, False])})
mine = st.fixed_dictionaries({'op': st.just('mine'), 'n': st.integers(1, 8), 'sec': st.sampled_from([1, 600])})
case_st = st.fixed_dictionaries({'scan': st.sampled_from([0, -1, 2]), 'world': history.world, 'purse': wallets.purse, 'rich': st.booleans(), 'known': st.lists(st.integers(0, 6), max_size=4),
                                 'ops': st.lists(st.one_of(send, joint, shared, register, register, get, get, find, listing, others, sign, sign, mine), min_size=1, max_size=8)})


def spelled(b, f):
    h = b.hex()
    return ['0x' + h, '0x' + h.upper(), h, ERC20Address(value='0x' + h), bytes(b), '0X' + h][f]


def info_of(chain, addr):
    """what the network says about an address: None, or (address, ERC20 address, confirmations)"""
    if addr not in chain.erc20:
        return None
    return [addr, '0x' + ref.erc20_of(ref.uh_parse(addr)).hex(), chain.height - chain.erc20[addr] + 1]


def got_info(i):
    return [str(i.address_tft), str(i.address_erc20), i.confirmations]


class Bridge:
    def __init__(self, case, ctx):
        self.ctx = ctx
        self.chain = chain = history.new_chain(case['world'])
        wallets.fill(chain, case['purse'])
        if case['rich']:
            chain.grant([{'v': 40 * ONE, 'c': {'k': 'uh', 'uh': history.party(0).uh}}] * 3 + [{'v': 40 * ONE, 'c': {'k': 'ms', 'n': 2, 'uhs': [history.party(0).uh, history.party(4).uh]}}] * 2)
        self.w = [chain.wallet(history.SEED, KEYS, scan=case['scan']), chain.wallet(history.OTHER, 6, scan=case['scan']), chain.wallet(b'\x33' * 32, 2)]
        self.pending = None

    def value(self, v):
        """(argument, address of a key of the wallet or None if there is none)"""
        addrs = self.w[0].addresses
        if v is None or isinstance(v, (float, bool, str)):
            return v, None
        if isinstance(v, int):
            return v, addrs[v] if 0 <= v < len(addrs) else None
        if v[0] == 'ms':
            return sim.addr_of(history.condition(self.chain, ['ms', [0, 4], 1])), None
        if v[0] == 'list':
            return [addrs[0]], None
        a = history.party(v[1]).addr
        return (a if v[0] == 'addr' else UnlockHash.from_json(a)), a if a in addrs else None

    def run(self, o, fn, content, amount, keys, what):
        """a request for a transaction; content: fn() -> what has to be in it"""
        chain = self.chain
        funds = Funds(chain, KEYS, o['source'])
        chain.fault = Fault(o['fault']) if o['fault'] is not None else None
        r = e = None
        try:
            r = fn(source=wallets.source_arg(o['source'], o['sform']), refund=None if o['refund'] is None else wallets.recipient_arg(chain, o['refund'], o['rform']))
        except Exception as exc:
            e = exc
        hit, chain.fault = chain.fault is not None and chain.fault.hit, None
        if hit:
            check(isinstance(e, errors.ExplorerError), '{}: a failing explorer is reported as {!r}', what, e)
            return funds.unchanged(what + ' while the explorer failed')
        total = chain.min_fee + amount
        if not funds.enough(total):
            check(isinstance(e, errors.InsufficientFunds), '{} for {} while {} are available: {!r}', what, total, funds.best, e)
            self.ctx.label('insufficient funds')
            return funds.unchanged(what + ' without funds')
        if e is not None:
            chain.check()
            raise e
        t = funds.judge_result(r, what)
        want = content()
        eq({k: t[k] for k in want}, want, what + ': content')
        eq(t['fee'], chain.min_fee, what + ': fee of the miner')
        have = funds.judge_inputs(t)
        funds.judge_refund(t['refund'], have - total, o['refund'], what)
        keys = keys()
        eq(wallets.extra_signatures(t, keys, what), {('extra', f) for f in keys}, what + ': signature of the registered key')
        eq(r.submitted, funds.signable([i['p'] for i in t['ci']]), what + ': submitted')
        self.ctx.nontrivial()
        self.ctx.label(what + (' submitted' if r.submitted else ' in parts'))
        self.ctx.label(what + ' without refund', t['refund'] is None)
        if not r.submitted:
            self.pending = wallets.Handover(chain, r.transaction, keys)
        return t

    def send(self, o):
        chain, w = self.chain, self.w[0]
        budget = Funds(chain, KEYS, o['source']).best - chain.min_fee
        v = wallets.units_of(budget, o['v'])
        to = spelled(o['to'], o['tform'])
        amount = wallets.amount_arg(v, o['vform'])
        if o['via'] == 'coins' and o['tform'] in (2, 4):
            to = spelled(o['to'], 0)        # (a recipient without prefix, or of bytes, could be something else)
        fn = (lambda **a: w.erc20.coins_send(to, amount, **a)) if o['via'] == 'erc20' else (lambda **a: w.coins_send(to, amount, **a))
        self.run(o, fn, lambda: {'ver': 208, 'addr': o['to'], 'value': v}, v, dict, 'conversion')

    def register(self, o):
        chain, w = self.chain, self.w[0]
        arg, addr = self.value(o['value'])
        before = list(w.addresses)
        if addr is None and o['value'] is not None:
            posted = len(chain.posted)
            what = 'registration of {!r}'.format(arg)
            e = rejects(lambda: w.erc20.address_register(arg), what)
            if o['value'] in (['addr', 4], ['obj', 5], ['ms']):
                check(isinstance(e, errors.ERC20RegistrationForbidden), '{} of somebody else: {!r}', what, e)
            chain.check()
            eq([len(chain.posted), w.addresses], [posted, before], what + ': posted transactions and addresses')
            self.ctx.label('refused registration')
            return
        busy = [ref.uh_text(ref.pk_uh(e.tx['pk'])) for e in chain.mempool if e.tx['ver'] == 210]
        if addr in chain.erc20 or addr in busy:
            return
        key = {}

        def content():
            a = addr or w.addresses[-1]
            n = w.addresses.index(a)
            key['pk'] = sim.key(history.SEED, n).pk
            eq(w.addresses, before + ([a] if addr is None else []), 'addresses of the wallet')
            check(addr is not None or a not in before, 'the new key is no new key')
            return {'ver': 210, 'pk': key['pk']}
        fn = (lambda **a: w.erc20.address_register(arg, **a)) if arg is not None or o['rform'] % 2 else (lambda **a: w.erc20.address_register(**a))
        self.run(o, fn, content, FEE, lambda: {'sig': (key['pk'], b'registration')}, 'registration')

    def get(self, o):
        chain, w = self.chain, self.w[0]
        arg, addr = self.value(o['value'])
        if o['value'] is None:
            addr = w.addresses[0]
        fn = (lambda: w.erc20.address_get(arg)) if arg is not None else (lambda: w.erc20.address_get())
        if addr is None:
            e = rejects(fn, 'look-up of {!r}'.format(arg))
            if o['value'] in (['addr', 4], ['obj', 5], ['ms']):
                check(isinstance(e, errors.AddressNotInWallet), 'look-up of an address of somebody else: {!r}', e)
            return
        self.answer(fn, addr)

    def answer(self, fn, addr):
        want = info_of(self.chain, addr)
        try:
            got = got_info(fn())
        except errors.ExplorerNoContent:
            got = None
        eq(got, want, 'registration of {}'.format(addr))
        self.ctx.label('found' if want else 'not registered')

    def find(self, o):
        a = history.party(o['n']).addr
        self.answer(lambda: self.w[1].client.erc20.address_get(UnlockHash.from_json(a) if o['form'] else a), a)
        ms = sim.addr_of(history.condition(self.chain, ['ms', [0, 4], 1]))
        for other in (ms, '0' * 78, ref.uh_text([2, bytes([o['n']]) * 32])):
            for form in (other, UnlockHash.from_json(other)):
                e = rejects(lambda: self.w[1].client.erc20.address_get(form), 'look-up of the registration of {}, which is no address of a person'.format(other))
                check(not isinstance(e, errors.ExplorerNoContent), 'the registration of {} was looked for', other)

    def list(self, o):
        w = self.w[0]
        got = [got_info(i) for i in w.erc20.addresses_get()]
        eq(got, [i for i in (info_of(self.chain, a) for a in w.addresses) if i], 'registered addresses')
        self.ctx.label('several registered addresses', len(got) > 1)
        if o['scan']:
            # a restored wallet knows about registrations as well
            again = self.chain.wallet(history.SEED, 1, scan=3)
            infos = [got_info(i) for i in again.erc20.addresses_get()]
            mine = [i for i in (info_of(self.chain, a) for a in again.addresses) if i]
            eq(infos, mine, 'registered addresses of a restored wallet')
            for n in range(3):
                a = history.party(n).addr
                if a in self.chain.erc20:
                    check(a in [i[0] for i in infos], 'the registration of address {} is not found by a restored wallet', n)

    def others(self, o):
        self.chain.salt += 1
        k = history.party(o['n'])
        busy = [ref.uh_text(ref.pk_uh(e.tx['pk'])) for e in self.chain.mempool if e.tx['ver'] == 210]
        if k.addr in self.chain.erc20 or k.addr in busy:
            return
        self.chain.record({'ver': 210, 'pk': k.pk, 'sig': b'\1' * 64, 'fee': ONE, 'ci': [], 'refund': None}, o['conf'])

    def sign(self, o):
        if self.pending is not None and not self.pending.sign(self.w[o['w']], o, o['w'] > 0, self.ctx):
            self.pending = None


def bridge(case, ctx):
    b = Bridge(case, ctx)
    for n in case['known']:
        b.others({'n': n, 'conf': True})
    for o in case['ops']:
        if o['op'] == 'mine':
            b.chain.mine(o['sec'], o['n'])
        else:
            wallets.topup(b.chain, o)
            if o.get('exact'):
                o = wallets.exactly(b.chain, o, b.chain.min_fee + FEE)
            getattr(b, o['op'])(o)
        b.chain.check()


BAD = {'to': ['', '0x', '0x' + '1' * 39, '0x' + '1' * 41, '0x' + 'g' * 40, 'x', 5, b'1' * 19, b'1' * 21, [], None, history.party(0).addr, '1' * 42],
       'amount': ['0', '-1', 0, -1, '', 'x', '1.0000000001', '1 BTC', b'1', [1]], 'source': ['abc', '', 5, ['abc'], [5], '0' * 78], 'refund': ['', 'abc', 5, 1.5, {'a': 1}, ([], 1)] + wallets.NOT_PERSONAL}


def bad_requests(case, ctx):
    """requests that make no sense are refused"""
    ctx.nontrivial()
    chain = sim.Chain()
    w = chain.wallet(history.SEED, 2)
    chain.grant([{'v': 500 * ONE, 'c': {'k': 'uh', 'uh': history.party(0).uh}}])
    to = '0x' + 'ab' * 20
    k, n = case['bad']
    v = BAD[k][n % len(BAD[k])]
    args = dict(address=to, amount='1', source=None, refund=None)
    args['address' if k == 'to' else k] = v
    rejects(lambda: w.erc20.coins_send(**args), 'a conversion with {} = {!r}'.format(k, v))
    if k in ('source', 'refund'):
        rejects(lambda: w.erc20.address_register(0, **{k: v}), 'a registration with {} = {!r}'.format(k, v))
    # coins for a bridge address cannot be locked, and carry no data
    lock = [chain.height + 10, chain.time + 10, OutputLock(value=chain.height + 10), '+1h', 1][n % 5]
    rejects(lambda: w.coins_send(to, 1, lock=lock), 'a conversion with lock {!r}'.format(lock))
    data = [b'x', 'x', b'\0', b'x' * 83][n % 4]
    rejects(lambda: w.coins_send(to, 1, data=data), 'a conversion with data {!r}'.format(data))
    chain.check()
    eq(chain.posted, [], 'posted transactions')


def many_keys(case, ctx):
    """a wallet with many addresses: each is registered and found as what it is"""
    ctx.nontrivial()
    count = case['keys']
    chain = sim.Chain()
    chain.grant([{'v': 1000 * ONE, 'c': {'k': 'uh', 'uh': history.party(0).uh}}])
    w = chain.wallet(history.SEED, count)
    own = [sim.key(history.SEED, n) for n in range(count)]
    done = set(range(min(count, case['before'])))
    for i in done:      # (registered earlier)
        chain.erc20[own[i].addr] = chain.height - i
    for n, i in enumerate(case['which']):
        i %= count
        if i in done:
            continue
        done.add(i)
        r = w.erc20.address_register([i, own[i].addr, UnlockHash.from_json(own[i].addr)][n % 3])
        check(r.submitted, 'the registration of address {} was not submitted', i)
        eq(chain.entries[-1].tx['pk'], own[i].pk, 'registered key {}'.format(i))
        chain.mine()
    eq([got_info(x) for x in w.erc20.addresses_get()], [info_of(chain, own[i].addr) for i in sorted(done)], 'registered addresses')
    for i in case['which']:
        i %= count
        eq(got_info(w.erc20.address_get(i)), info_of(chain, own[i].addr), 'registration of address {}'.format(i))
    chain.check()


SUBS = [
    Sub('many_keys', st.fixed_dictionaries({'keys': st.integers(5, 40), 'which': st.lists(st.integers(0, 39), min_size=1, max_size=6), 'before': st.sampled_from([0, 0, 10, 30, 40])}), many_keys, 60, 600, 'every case', shards=2),
    Sub('bridge', case_st, bridge, 1200, 20000, 'a conversion or registration that was carried out, at least in part'),
    Sub('bad_requests', st.fixed_dictionaries({'bad': st.tuples(st.sampled_from(sorted(BAD)), st.integers(0, 19)).map(list)}), bad_requests, 100, 400, 'every case', shards=1),
]
