"""C21: only the minters mint."""
import json
import random

from hypothesis import strategies as st

from tfchain import errors
from tfchain.types import transactions
from tfchain.types.ConditionTypes import OutputLock, UnlockHash

from pbt import build, history, ref, sim, wallets
from pbt.wallets import Fault
from pbt.core import CRASHES, Sub, check, eq, fail, rejects
from pbt.sim import ONE

SEEDS = [bytes([n + 11]) * 32 for n in range(4)]       # three minters, and a stranger
KEYS = 2
NOBODY = 3 * KEYS


def key(k):
    """key k: k // 2 is the wallet, k % 2 its key; 6 belongs to nobody who is here"""
    return sim.key(SEEDS[k // KEYS], k % KEYS)


# somebody: [[owners], signatures] with signatures 0 for a single key; and a lock that is over, or not there
single = st.integers(0, NOBODY).map(lambda k: [[k], 0])
several = st.lists(st.integers(0, NOBODY), min_size=1, max_size=4, unique=True).flatmap(lambda o: st.tuples(st.just(o), st.one_of(st.integers(1, len(o)), st.just(len(o)))).map(list))
shared = st.tuples(st.integers(0, 1), st.integers(2, 3), st.integers(4, 5)).map(list).flatmap(lambda o: st.sampled_from([[o, 2], [o, 3], [o[:2], 2], [o[1:], 2], [o[::-1], 1], [[o[2], o[0]], 2]]))
who = st.one_of(single, several, shared, shared)
state = st.tuples(who, st.sampled_from([None, None, None, None, 'block', 'time'])).map(list)      # (a mint condition behind a lock that is over)
common = {'w': st.sampled_from([0, 0, 0, 1, 2, 3]), 'data': wallets.data, 'fault': st.sampled_from([None] * 11 + [0, 1, 2, 3, 4, 'after', 'after']), 'form': wallets.form}
define = st.fixed_dictionaries(dict(common, op=st.just('define'), to=who))
coins = st.fixed_dictionaries(dict(common, op=st.just('coins'), to=st.one_of(who, st.just('nil')), lock=st.one_of(st.none(), st.none(), st.tuples(st.sampled_from('ht'), st.integers(-3, 2000)).map(list)),
                                   v=st.one_of(st.integers(1, 100), st.integers(1, 5 * ONE), st.integers(1, 10**9).map(lambda n: n * ONE)), vform=wallets.amount_form))
sign = st.fixed_dictionaries({'op': st.just('sign'), 'w': st.integers(0, 3), 'form': st.sampled_from(['object', 'dict', 'text', 'text']), 'submit': st.sampled_from([True, True, True, False])})
# a transaction made by hand, which nobody has signed
draft = st.fixed_dictionaries({'op': st.just('draft'), 'ver': st.sampled_from([128, 129]), 'to': who, 'data': wallets.data})
mine = st.fixed_dictionaries({'op': st.just('mine'), 'n': st.integers(1, 2)})
# the minters are changed by a transaction of somebody else
others = st.fixed_dictionaries({'op': st.just('others'), 'to': state, 'conf': st.booleans()})
look = st.fixed_dictionaries({'op': st.just('look'), 'back': st.one_of(st.none(), st.integers(-1, 6)), 'form': st.integers(0, 1)})
seed = st.fixed_dictionaries({'op': st.just('seed'), 'n': st.integers(0, 1)})
# a transaction, handed around; and what else happens
rounds = st.tuples(st.lists(st.one_of(mine, others, look, seed), max_size=2), st.one_of(define, coins, define, coins, draft), st.lists(st.one_of(sign, sign, sign, sign, sign, sign, seed, mine, others), max_size=5)).map(lambda t: t[0] + [t[1]] + t[2])
everybody = st.tuples(st.permutations(range(3)), st.lists(sign, min_size=3, max_size=3), st.one_of(define, coins)).map(lambda t: [dict(t[2], w=t[0][0], fault=None)] + [dict(o, w=w) for w, o in zip(t[0][1:] + t[0][:1], t[1])])
case_st = st.fixed_dictionaries({'scan': st.sampled_from([0, -1, 2]), 'world': history.world, 'first': st.one_of(state, st.tuples(shared, st.sampled_from([None, None, 'block'])).map(list)),
                                 'ops': st.lists(st.one_of(rounds, rounds, everybody), min_size=1, max_size=3).map(lambda l: sum(l, []))})


def condition(chain, w):
    """as plain data; w: who, or [who, lock] of a state"""
    if w == 'nil':
        return {'k': 'nil'}
    if w[1] is None or isinstance(w[1], str):
        c = condition(chain, w[0])
        return c if w[1] is None else {'k': 'lock', 'v': chain.height - 1 if w[1] == 'block' else chain.time - 10, 'c': c}
    return {'k': 'ms', 'n': w[1], 'uhs': [key(k).uh for k in w[0]]} if w[1] else {'k': 'uh', 'uh': key(w[0][0]).uh}


def argument(chain, w, f):
    """the same, as one of the accepted ways to state it"""
    c = condition(chain, w)
    if w == 'nil':
        return None
    addrs = [key(k).addr for k in w[0]]
    if f % 2:
        addrs = [UnlockHash.from_json(a) for a in addrs]
    if not w[1]:
        return [addrs[0], addrs[0], build.cond(c)][f // 2]
    ways = [(w[1], addrs), (addrs, w[1]), build.cond(c)] + ([addrs] if len(addrs) == w[1] else [])
    return ways[f % len(ways)]


def signers(t, c):
    """who signed the mint fulfillment; all signatures have to be good"""
    f = t['mf']
    c = sim.inner(c)
    eq(f['k'], 'multi' if c['k'] == 'ms' else 'single', 'kind of the mint fulfillment')
    pairs = f['pairs'] if f['k'] == 'multi' else [[f['pk'], f['sig']]] if f['sig'] else []
    allowed = [ref.uh_text(u) for u in sim.owners_of(c)]
    out = []
    for p, s in pairs:
        a = ref.uh_text(ref.pk_uh(p))
        check(a in allowed, 'a mint transaction is signed by {}, who is no minter', a)
        check(a not in out, 'a mint transaction is signed twice by {}', a)
        check(sim.verifies(p, s, ref.sig_hash(t, ref.S.pk(p) if f['k'] == 'multi' else b'')), 'the signature of minter {} does not verify', a)
        out.append(a)
    return set(out)


def need(c):
    return sim.inner(c).get('n', 1)


def minters(c):
    return {ref.uh_text(u) for u in sim.owners_of(c)}


class Mint:
    def __init__(self, case, ctx):
        self.ctx = ctx
        self.chain = chain = history.new_chain(case['world'])
        chain.mint.append((chain.height - 5, condition(chain, case['first'])))
        self.w = [chain.wallet(s, KEYS, scan=case['scan']) for s in SEEDS]
        self.draft = False          # whether it was made by hand, and nobody has signed yet
        self.pending = None         # (transaction, the mint condition it was made for)
        self.nonces = []

    def bare(self, t):
        return {k: v for k, v in t.items() if k != 'mf'}

    def create(self, o, fn, want, what):
        """want: what the transaction has to be"""
        chain, w = self.chain, self.w[o['w']]
        now = chain.mint_now()
        posted = len(chain.posted)
        chain.fault = Fault(o['fault']) if o['fault'] is not None else None
        r = e = None
        try:
            r = fn(w.minter)
        except Exception as exc:
            e = exc
        hit, chain.fault = chain.fault is not None and chain.fault.hit, None
        chain.check()
        if hit:
            check(isinstance(e, errors.ExplorerError), '{}: a failing explorer is reported as {!r}', what, e)
            return eq(len(chain.posted), posted, what + ' while the explorer failed: posted transactions')
        if e is not None:
            raise e
        t = ref.tx_parse(r.transaction.json())
        want = dict(want, fees=[chain.min_fee], data=wallets.data_bytes(o['data']))
        eq({k: v for k, v in t.items() if k not in ('mf', 'nonce')}, want, what)
        check(len(t['nonce']) == 8 and t['nonce'] not in self.nonces, '{}: the nonce {} was used before', what, t['nonce'].hex())
        self.nonces.append(t['nonce'])
        got = signers(t, now)
        own = minters(now) & set(w.addresses)
        if len(own) <= need(now):
            eq(got, own, what + ': signatures')
        check(got <= own and len(got) >= min(need(now), len(own)), '{}: signed by {} of {}', what, got, own)
        enough = len(got) >= need(now)
        self.judge(r, posted, enough, t, what)
        self.ctx.nontrivial(got)
        self.ctx.label(what + (' submitted' if r.submitted else ' in parts' if got else ' by no minter'))
        if not r.submitted:
            self.pending, self.draft = (r.transaction, now), False

    def judge(self, r, posted, wanted, t, what):
        chain = self.chain
        eq(r.submitted, wanted, what + ': submitted')
        eq(len(chain.posted), posted + r.submitted, what + ': posted transactions')
        if r.submitted:
            eq(ref.tx_json(chain.accepted[-1].tx), ref.tx_json(t), what + ': submitted transaction')
            eq(str(r.transaction.id), chain.accepted[-1].id.hex(), what + ': id')

    def define(self, o):
        arg = argument(self.chain, o['to'], o['form'])
        self.create(o, lambda m: m.definition_set(arg, data=o['data']) if o['data'] is not None else m.definition_set(arg),
                    {'ver': 128, 'mc': condition(self.chain, o['to'])}, 'definition')

    def coins(self, o):
        chain = self.chain
        arg = argument(chain, o['to'], o['form'])
        lock, lv = wallets.lock_arg(chain, o['lock'], o['form'])
        c = condition(chain, o['to'])
        if lv is not None:
            c = {'k': 'lock', 'v': lv, 'c': c}
        amount = wallets.amount_arg(o['v'], o['vform'])
        args = {k: v for k, v in (('lock', lock), ('data', o['data'])) if v is not None}
        self.create(o, lambda m: m.coins_new(arg, amount, **args), {'ver': 129, 'co': [{'v': o['v'], 'c': c}]}, 'creation')

    def draft_of(self, o):
        chain = self.chain
        t = transactions.mint_definition_new() if o['ver'] == 128 else transactions.mint_coin_creation_new()
        if o['ver'] == 128:
            t.mint_condition = build.cond(condition(chain, o['to']))
        else:
            t.coin_output_add(value=build.units(ONE), condition=build.cond(condition(chain, o['to'])))
        t.miner_fee_add(build.units(chain.min_fee))
        if o['data'] is not None:
            t.data = o['data']
        self.pending, self.draft = (t, None), True

    def sign(self, o):
        if self.pending is None:
            return
        chain, w = self.chain, self.w[o['w']]
        txn, made_for = self.pending
        now = chain.mint_now()
        posted = len(chain.posted)
        t = ref.tx_parse(txn.json())
        if self.draft:
            made_for, o = now, dict(o, form='object')
        before = set() if self.draft else signers(t, made_for)
        by_hand, self.draft = self.draft, False
        arg = txn if o['form'] == 'object' else txn.json() if o['form'] == 'dict' else json.dumps(txn.json())
        try:
            with wallets.once_submitted(chain):
                r = w.transaction_sign(arg, submit=o['submit'])
        except Exception as e:
            chain.check()
            # the minters are others by now
            if now == made_for or isinstance(e, CRASHES):
                raise
            return
        chain.check()
        t2 = ref.tx_parse(r.transaction.json())
        if now != made_for:
            # (whatever is submitted is good for the new minters; and only they signed something)
            check(r.submitted == len(chain.posted) - posted, 'reported as submitted: {}', r.submitted)
            self.ctx.label('other minters in the meantime')
            self.pending = None
            return
        eq(self.bare(t2), self.bare(t), 'signed transaction, apart from signatures')
        after = signers(t2, now)
        own = minters(now) & set(w.addresses)
        check(before <= after, 'a signature disappeared')
        check(after - before <= own, 'signatures that were added: {}', after - before)
        if len(after) < need(now):
            eq(after - before, own - before, 'signatures that were added')
        eq(r.signed, after != before, 'reported as signed')
        enough = bool(o['submit'] and len(after) >= need(now))
        # (a transaction which was complete already is submitted only when somebody else could still sign)
        self.judge(r, posted, enough if r.signed else enough and r.submitted, t2, 'signing')
        self.ctx.label('completed by a co-minter', r.submitted)
        self.ctx.label('made by hand', by_hand and r.signed)
        self.ctx.label('three signatures', len(after) > 2)
        self.pending = None if r.submitted else (r.transaction, now)

    def mine(self, o):
        self.chain.mine(600, o['n'])

    def others(self, o):
        chain = self.chain
        chain.salt += 1
        chain.record({'ver': 128, 'nonce': chain.salt.to_bytes(8, 'big'), 'mf': {'k': 'single', 'pk': [1, bytes(32)], 'sig': b'\1' * 64},
                      'mc': condition(chain, o['to']), 'fees': [ONE], 'data': b''}, o['conf'])

    def look(self, o):
        chain = self.chain
        client = self.w[0].client
        height = None if o['back'] is None else max(0, chain.height - o['back'])
        want = chain.mint_now(height)
        try:
            got = client.minter.condition_get() if height is None else client.minter.condition_get(str(height) if o['form'] else height)
        except errors.ExplorerNoContent:
            got = None
        eq(None if got is None else got.json(), None if want is None else ref.condition_json(want), 'mint condition at {}'.format(height))
        self.ctx.label('look at earlier minters', want is not None and want != chain.mint_now())

    def seed(self, o):
        random.seed(o['n'])


def minting(case, ctx):
    m = Mint(case, ctx)
    for o in case['ops']:
        getattr(m, {'draft': 'draft_of'}.get(o['op'], o['op']))(o)
        m.chain.check()
    # what was created is there for whom it was created
    m.chain.mine()
    for w in m.w:
        s = m.chain.sheet(set(w.addresses))
        eq(int(w.balance.available.json()), sum(s['available'].values()), 'available coins')


def nonces(case, ctx):
    """each new transaction has its own nonce, and it does not follow from anything that is known"""
    ctx.nontrivial()
    seen = set()
    for n in range(case['count']):
        if n % 7 == 0:
            random.seed(case['seed'])
        t = transactions.mint_definition_new() if n % 2 else transactions.mint_coin_creation_new()
        j = t.json()['data']['nonce']
        check(j not in seen, 'nonce {} was there before', n)
        seen.add(j)
        eq(j, t.json()['data']['nonce'], 'nonce, once more')


BAD = {'minter': [None, '', 'x', 5, 1.5, [], ([], 0), ([], 1), 'ms-address', 'nil-hash', 'swap', 'nil', 'locked nil', b'x', {'a': 1}, ['x'], (1, 2, 3), (5, ['own']), (0, ['own'])],
       'recipient': wallets.NOT_PERSONAL + ['', 'x', 5, 1.5, [], ([], 1), b'x', {'a': 1}, ['x'], (1, 2, 3), (5, ['own']), (0, ['own'])],
       'amount': ['0', '-1', 0, -1, '', 'x', '1.0000000001', '1 BTC', b'1', [1], None, 1.5e-20],
       'lock': [-1, 'x', '', '+x', [], 1.5, b'1'],
       'data': [b'x' * 84, 'x' * 84, 'ö' * 42, 5, [1000], 1.5],
       'height': ['x', '', 1.5, [], b'1', {}]}


def bad_requests(case, ctx):
    """requests that make no sense are refused"""
    ctx.nontrivial()
    chain = sim.Chain()
    chain.mint.append((chain.height - 5, condition(chain, [[0], 0])))
    w = chain.wallet(SEEDS[0], 2)
    own = key(0).addr
    k, n = case['bad']
    v = BAD[k][n % len(BAD[k])]
    special = {'ms-address': lambda: sim.addr_of(condition(chain, [[0, 2], 1])), 'nil-hash': lambda: '0' * 78, 'nil': lambda: build.cond({'k': 'nil'}),
               'swap': lambda: build.cond({'k': 'swap', 's': key(0).uh, 'r': key(2).uh, 'hs': bytes(32), 'lt': 1_600_000_000}),
               'locked nil': lambda: build.cond({'k': 'lock', 'v': 5, 'c': {'k': 'nil'}})}
    arg = special[v]() if isinstance(v, str) and v in special else (v[0], [own]) if isinstance(v, tuple) and len(v) == 2 and v[1] == ['own'] else v
    what = 'a request with {} = {!r}'.format(k, v)
    if k == 'height':
        rejects(lambda: w.client.minter.condition_get(arg), what)
    elif k == 'minter':
        rejects(lambda: w.minter.definition_set(arg), what)
    else:
        rejects(lambda: w.minter.coins_new(**{'recipient': own, 'amount': 1, k: arg}), what)
        if k == 'data':
            rejects(lambda: w.minter.definition_set(own, data=arg), what)
    chain.check()
    eq(chain.posted, [], 'posted transactions')


def no_minters(case, ctx):
    """before there are minters, or when the explorer does not say who they are, nothing is minted"""
    ctx.nontrivial()
    chain = sim.Chain()
    if case['there']:
        chain.mint.append((chain.height - 5, condition(chain, [[0], 0])))
        chain.tamper = lambda endpoint, a: {k: v for k, v in a.items() if k != 'mintcondition'}
    w = chain.wallet(SEEDS[0], 1)
    txn = (lambda: w.minter.definition_set(key(0).addr)) if case['define'] else (lambda: w.minter.coins_new(key(0).addr, 1))
    e = rejects(txn, 'minting without minters')
    check(isinstance(e, errors.ExplorerError), 'minting without minters: {!r}', e)
    chain.check()
    eq(chain.posted, [], 'posted transactions')


SUBS = [
    Sub('minting', case_st, minting, 1500, 20000, 'a transaction that was signed by at least one minter'),
    Sub('bad_requests', st.fixed_dictionaries({'bad': st.tuples(st.sampled_from(sorted(BAD)), st.integers(0, 19)).map(list)}), bad_requests, 150, 600, 'every case', shards=1),
    Sub('nonces', st.fixed_dictionaries({'seed': st.integers(0, 2**32), 'count': st.sampled_from([10, 100, 3000])}), nonces, 20, 200, 'every case', shards=1),
    Sub('no_minters', st.fixed_dictionaries({'there': st.booleans(), 'define': st.booleans()}), no_minters, 8, 8, 'every case', shards=1),
]
