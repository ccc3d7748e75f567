"""C25: a restored wallet finds its used addresses again."""
from hypothesis import strategies as st

from tfchain import errors
from tfchain.TFChainWallet import TFChainWallet

from pbt import ref, sim, wallets
from pbt.wallets import Fault
from pbt.core import Sub, check, eq
from pbt.sim import ONE

SEED = b'\x5c' * 32
HORIZON = 16        # keys that can be used
DEFAULT = 3         # the distance that is searched if none is stated


def key(i):
    return sim.key(SEED, i)


# how an address is used
kind = st.sampled_from(['coins', 'coins', 'coins', 'waiting', 'spent', 'owner', 'locked', 'minter', 'erc20', 'bridge'])
# used keys: every pattern, and patterns with gaps around the distance
pattern = st.one_of(st.lists(st.booleans(), max_size=HORIZON).map(lambda l: [n for n, b in enumerate(l) if b]),
                    st.lists(st.sampled_from([1, 1, 2, 2, 3, 3, 4, 5, 6]), max_size=7).map(lambda l: [n for n in (sum(l[:i + 1]) for i in range(len(l))) if n < HORIZON]))
fault = st.one_of(st.none(), st.none(), st.none(), st.integers(0, 14))
restore = st.fixed_dictionaries({'op': st.just('restore'), 'keys': st.sampled_from([1, 1, 1, 2, 4]), 'scan': st.sampled_from([-1, 0, 1, 2, 3, 3, 4, 5]), 'fault': fault, 'form': st.integers(0, 1)})
look = st.fixed_dictionaries({'op': st.just('look'), 'what': st.sampled_from(['addresses', 'balance', 'transactions', 'addresses_multisig', 'erc20']), 'fault': fault})
new = st.fixed_dictionaries({'op': st.just('new'), 'form': st.integers(0, 1)})
use = st.fixed_dictionaries({'op': st.just('use'), 'n': st.integers(0, HORIZON - 1), 'kind': kind})
spend = st.fixed_dictionaries({'op': st.just('spend')})
case_st = st.fixed_dictionaries({'used': pattern, 'kinds': st.lists(kind, min_size=1, max_size=5), 'first': restore,
                                 'ops': st.lists(st.one_of(look, look, look, new, new, use, use, restore, spend), max_size=8)})


class State:
    """which keys a wallet has, as indices; `skipped` ones were passed over, and wait to be offered"""

    def __init__(self, known, skipped, following):
        self.known, self.skipped, self.next = known, skipped, following

    def searched(self, used, distance):
        if self.skipped or not distance:
            return self         # (nothing is searched while skipped addresses wait)
        last = self.next - 1
        n = self.next
        while n <= last + distance:
            if n in used:
                last = n
            n += 1
        new = range(self.next, last + 1)
        return State(self.known + [n for n in new if n in used], [n for n in new if n not in used], last + 1)

    def offered(self):
        """the state after an address was asked for, which is its last one"""
        if self.skipped:
            return State(self.known + self.skipped[:1], self.skipped[1:], self.next)
        return State(self.known + [self.next], [], self.next + 1)

    def same(self, other):
        return (self.known, self.skipped, self.next) == (other.known, other.skipped, other.next)


class Scan:
    def __init__(self, case, ctx):
        self.ctx = ctx
        self.chain = sim.Chain()
        self.used = set()
        self.w = None
        for n, i in enumerate(case['used']):
            self.use({'n': i, 'kind': case['kinds'][n % len(case['kinds'])]})

    def use(self, o):
        chain, k = self.chain, key(o['n'])
        out = {'v': ONE + o['n'], 'c': {'k': 'uh', 'uh': k.uh}}
        kind = o['kind']
        chain.salt += 1
        if kind == 'owner':
            # the address is known only as the one of an owner
            out['c'] = {'k': 'ms', 'n': 1, 'uhs': [sim.key(b'\x66' * 32, chain.salt).uh, k.uh]}
        if kind == 'locked':
            out['c'] = {'k': 'lock', 'v': chain.height + 1000, 'c': out['c']}
        if kind == 'minter':
            chain.record({'ver': 128, 'nonce': chain.salt.to_bytes(8, 'big'), 'mf': {'k': 'single', 'pk': [1, bytes(32)], 'sig': b'\1' * 64},
                          'mc': out['c'], 'fees': [ONE], 'data': b''})
        elif kind == 'bridge':
            chain.record({'ver': 209, 'addr': k.uh, 'value': ONE, 'fee': ONE, 'block': bytes(32), 'txid': chain.salt.to_bytes(32, 'big')})
        elif kind == 'erc20':
            if k.addr not in chain.erc20:
                chain.record({'ver': 210, 'pk': k.pk, 'sig': b'\1' * 64, 'fee': ONE, 'ci': [], 'refund': None})
        else:
            e = chain.grant([out], kind != 'waiting')
            if kind == 'spent':
                chain.spend(e.ids(), [{'v': ONE // 2, 'c': {'k': 'nil'}}])
        self.used.add(o['n'])

    def restore(self, o):
        distance = DEFAULT if o['scan'] == -1 else o['scan']
        start = State(list(range(o['keys'])), [], o['keys'])
        args = dict(seed=SEED, key_count=o['keys'], client=self.chain.client())
        if o['scan'] != -1 or o['form']:
            args['key_scan_count'] = o['scan']
        if o['form']:
            args['key_start_index'] = 0
        self.distance = distance
        self.w = None
        r, hit = self.guarded(lambda: TFChainWallet(**args), o['fault'], 'restoring')
        if hit:
            self.ctx.label('failure while a wallet is restored')
            return
        self.w = r
        self.states = [start.searched(self.used, distance)]
        s = self.states[0]
        self.ctx.nontrivial(s.known != start.known)
        self.ctx.label('skipped addresses', s.skipped)
        self.ctx.label('found beyond the distance of the first', bool(s.known[len(start.known):]) and s.known[-1] > start.next + distance)
        self.ctx.label('nothing found', s.known == start.known)
        self.agree(self.w.addresses, 'restored')

    def guarded(self, fn, fault, what):
        """(result, False), or (None, True) if the explorer failed"""
        chain = self.chain
        chain.fault = Fault(fault) if fault is not None else None
        r = e = None
        try:
            r = fn()
        except Exception as exc:
            e = exc
        hit, chain.fault = chain.fault is not None and chain.fault.hit, None
        chain.check()
        if hit:
            check(isinstance(e, errors.ExplorerError), '{}: a failing explorer is reported as {!r}', what, e)
        elif e is not None:
            raise e
        return r, hit

    def search(self):
        self.states = [s.searched(self.used, self.distance) for s in self.states]

    def agree(self, addresses, what):
        """the wallet has these addresses"""
        self.search()
        left = [s for s in self.states if [key(n).addr for n in s.known] == addresses]
        if not left:
            names = {key(n).addr: n for n in range(HORIZON * 2)}
            got = [names.get(a, a) for a in addresses]
            eq(got, self.states[0].known, what + ': keys of the addresses (used: {})'.format(sorted(self.used)))
        self.states = left

    def look(self, o):
        if self.w is None:
            return
        w, what = self.w, o['what']
        fn = {'erc20': lambda: w.erc20.addresses_get()}.get(what, lambda: getattr(w, what))
        r, hit = self.guarded(fn, o['fault'], what)
        if hit:
            # (the search was over by then, or not)
            states = list(self.states)
            self.search()
            self.states += [s for s in states if not any(s.same(x) for x in self.states)]
            self.ctx.label('failure while an active wallet looks')
            return
        if what == 'addresses':
            self.agree(r, what)
            return
        self.agree(w.addresses, what)
        mine = {a for a in w.addresses}
        if what == 'balance':
            s = self.chain.sheet(mine)
            for k in ('available', 'locked', 'unconfirmed'):
                eq(int(getattr(r, k).json()), sum(s[k].values()), 'balance: ' + k)
        elif what == 'transactions':
            eq(sorted(str(t.id) for t in r), sorted({e.id.hex() for a in mine for e in self.chain.touching(a)}), 'transactions')
        elif what == 'addresses_multisig':
            eq(sorted(r), sorted({m for a in mine for m in self.chain.multisigs(a)}), 'multi-signature addresses')
        else:
            eq([str(i.address_tft) for i in r], [a for a in w.addresses if a in self.chain.erc20], 'registered addresses')

    def new(self, o):
        if self.w is None:
            return
        a = self.w.address_new() if o['form'] else str(self.w.public_key_new())
        self.states = [s.offered() for s in self.states]
        left = [s for s in self.states if a == (key(s.known[-1]).addr if o['form'] else ref.pk_text(key(s.known[-1]).pk))]
        check(left, 'a new address is not the one of key {}', self.states[0].known[-1])
        self.ctx.label('a skipped address is offered', left[0].known[-1] < max(left[0].known[:-1]))
        self.states = left
        a = key(left[0].known[-1]).addr
        eq(str(self.w.key_pair_get(a).unlockhash), a, 'the key of the new address')
        self.agree(self.w.addresses, 'after a new address')

    def spend(self, o):
        """what was found can be used"""
        if self.w is None:
            return
        self.agree(self.w.addresses, 'before spending')
        s = self.chain.sheet({a for a in self.w.addresses})
        have = sum(s['available'].values()) + sum(s['unconfirmed'].values())
        if have <= self.chain.min_fee:
            return
        n = len(self.chain.accepted)
        r = self.w.coins_send(sim.key(b'\x44' * 32, 0).addr, wallets.amount_arg(have - self.chain.min_fee, 'currency'))
        self.chain.check()
        check(r.submitted and len(self.chain.accepted) == n + 1, 'the coins that were found were not sent')
        self.ctx.label('found coins are sent', self.states[0].known != list(range(len(self.states[0].known))))


def scanning(case, ctx):
    s = Scan(case, ctx)
    s.restore(case['first'])
    for o in case['ops']:
        getattr(s, o['op'])(o)
        s.chain.check()


SUBS = [Sub('scanning', case_st, scanning, 3000, 25000, 'a search that found a used address')]
