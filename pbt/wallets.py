"""What wallets are asked for (amounts, recipients, sources, refunds in all accepted forms), and what a funded transaction has to look like."""
import contextlib
import json
from datetime import datetime, timezone

from hypothesis import strategies as st

from tfchain import errors
from tfchain.types import ConditionTypes
from tfchain.types.ConditionTypes import OutputLock, UnlockHash

from pbt import build, gen, history, ref, sim
from pbt.core import check, eq, fail

ONE = 10**9
LIMIT = 99
MS = [['ms', [0, 4], 1], ['ms', [0, 4], 2], ['ms', [0, 1], 2], ['ms', [1, 0, 4], 2], ['ms', [0], 1], ['ms', [4, 5, 0], 2], ['ms', [0, 1, 4], 3]]

# what is not the address of somebody's personal wallet: nobody can spend from it
_shared = ref.uh_text([3, b'\5' * 32])
NOT_PERSONAL = [_shared, UnlockHash.from_json(_shared), bytes.fromhex(_shared), bytearray.fromhex(_shared), ConditionTypes.unlockhash_new(_shared), ref.uh_text([2, b'\5' * 32]), ref.uh_text([0, bytes(32)])]

# amounts, in units; relative to what is there: ['of', thousandths, extra], or absolute: ['is', units]
amount = st.one_of(st.integers(1, ONE).map(lambda n: ['is', n]), st.integers(1, 5).map(lambda n: ['is', n * ONE]),
                   st.tuples(st.just('of'), st.integers(0, 999), st.integers(-3, 3)).map(list), st.tuples(st.just('of'), st.integers(0, 1000), st.integers(-3, 3)).map(list),
                   st.tuples(st.just('of'), st.just(1000), st.integers(-2, 2)).map(list))
amount_form = st.sampled_from(['currency', 'tft', 'decimal', 'int'])
recipient = st.one_of(history.who, st.integers(0, 5).map(lambda n: ['p', n]))
refund = st.one_of(st.none(), st.none(), recipient.filter(lambda w: w[0] != 'nil'))
source = st.one_of(st.none(), st.none(), st.none(), st.none(), st.lists(st.one_of(history.mine, history.mine, st.sampled_from(MS)), min_size=1, max_size=4),
                   history.mine.map(lambda w: [w]), st.just([['p', 0]]), st.sampled_from(MS).map(lambda w: [w]))
form = st.integers(0, 5)
data = st.one_of(st.none(), st.binary(max_size=83), st.text(max_size=20), st.binary(min_size=83, max_size=83))
funding = {'source': source, 'sform': form, 'refund': refund, 'rform': form, 'topup': st.one_of(st.none(), st.none(), st.integers(ONE, 1000 * ONE), st.just(1000 * ONE))}


# what everybody starts with: [value, who] of confirmed or unconfirmed outputs
purse = st.lists(st.tuples(st.tuples(st.integers(1, 50), st.sampled_from([0, 0, 1, -1, 500000000, 123456789])).map(lambda t: max(ONE // 2, t[0] * ONE + t[1])),
                           st.one_of(st.integers(0, 3).map(lambda n: ['p', n]), st.sampled_from([['p', 0], ['p', 0], ['p', 1]] + MS)),
                           st.sampled_from([True, True, True, False])).map(list), min_size=4, max_size=10)


def fill(chain, purse):
    for conf in (True, False):
        outs = [{'v': v, 'c': history.condition(chain, w)} for v, w, c in purse if c == conf]
        if outs:
            chain.grant(outs, conf)


def topup(chain, o):
    """something arrives at the first of the stated sources, just before it is used"""
    if o.get('source') and o.get('topup'):
        chain.grant([{'v': o['topup'], 'c': history.condition(chain, o['source'][0])}])


def exactly(chain, o, cost):
    """the same request, from one address which has exactly what it takes, in coins of any sizes"""
    s = chain.sheet({history.party(2).addr})
    rest = cost - sum(s['available'].values()) - sum(s['unconfirmed'].values())
    if rest > 0:
        chain.grant([{'v': v, 'c': {'k': 'uh', 'uh': history.party(2).uh}} for v in (rest // 3, rest - rest // 3) if v])
    return dict(o, source=[['p', 2]])


def amount_arg(units, f):
    """units, as one of the accepted ways to state an amount"""
    if f == 'int' and units % ONE == 0 and units // ONE > 0:
        return units // ONE
    text = '{}.{:09d}'.format(units // ONE, units % ONE)
    if f == 'tft':
        return text + ' TFT'
    if f == 'decimal':
        return text
    return build.units(units)


def recipient_arg(chain, w, f):
    """somebody, as one of the accepted ways to name a recipient"""
    c = history.condition(chain, w)
    if w[0] == 'p':
        a = history.party(w[1]).addr
        return [a, UnlockHash.from_json(a), a, build.cond(c)][f % 4]
    if w[0] == 'ms':
        addrs = [history.party(n).addr for n in w[1]]
        if f % 2:
            addrs = [UnlockHash.from_json(a) for a in addrs]
        ways = [(w[2], addrs), (addrs, w[2]), build.cond(c)] + ([addrs] if len(addrs) == w[2] else [])
        return ways[f % len(ways)]
    if w[0] == 'nil':
        return None
    return build.cond(c)


def source_arg(sources, f):
    if sources is None:
        return None
    out = [sim.addr_of(history.condition(sim.Chain(), w)) for w in sources]
    if f % 2:
        out = [UnlockHash.from_json(a) for a in out]
    return out[0] if len(out) == 1 and f > 1 else out


def lock_arg(chain, l, f=0):
    """(argument, value)"""
    if l is None:
        return None, None
    v = max(1, (chain.height if l[0] == 'h' else chain.time) + l[1])
    when = datetime.fromtimestamp(v, timezone.utc) if v >= 500_000_000 else None
    if when is not None and f % 4 == 2:
        return when.strftime('%Y/%m/%d %H:%M:%S'), v     # (TZ is UTC)
    if when is not None and f % 4 == 3:
        return when, v
    return (OutputLock(value=v) if f % 2 else v), v


def data_bytes(d):
    return b'' if d is None else d.encode() if isinstance(d, str) else d


def recipient_condition(chain, w, l=None):
    c = history.condition(chain, w)
    return {'k': 'lock', 'v': l, 'c': c} if l is not None else c


class Funds:
    """What can be used for a request, looked at before it is made"""

    def __init__(self, chain, keys, sources):
        self.chain, self.keys, self.sources = chain, keys, sources
        own = [history.party(n).addr for n in range(keys)]
        self.own = own
        if sources is None:
            allowed = own
        else:
            allowed = [sim.addr_of(history.condition(chain, w)) for w in sources]
            # (a wallet knows its own addresses, and the multi-signature wallets it is an owner of)
            known = set(own) | {m for a in own for m in chain.multisigs(a)}
            allowed = [a for a in allowed if a in known]
        s = chain.sheet(set(allowed))
        self.pool = dict(s['available'], **s['unconfirmed'])
        self.best = sum(sorted(self.pool.values(), reverse=True)[:LIMIT])
        self.posted = len(chain.posted)
        self.accepted = len(chain.accepted)

    def enough(self, units):
        return self.best >= units

    def signable(self, ids):
        """the wallet alone can provide all signatures for these outputs"""
        for i in ids:
            c = sim.inner(self.chain.outputs[i]['o']['c'])
            if c['k'] == 'ms' and sum(ref.uh_text(u) in self.own for u in c['uhs']) < c['n']:
                return False
        return True

    def unchanged(self, what):
        self.chain.check()
        check(len(self.chain.posted) == self.posted, '{}, but a transaction was posted: {}', what, self.chain.posted[self.posted:])

    def refund_condition(self, w):
        """where the rest has to go"""
        if w is not None:
            return history.condition(self.chain, w)
        if self.sources is not None and len(self.sources) == 1:
            return history.condition(self.chain, self.sources[0])
        return {'k': 'uh', 'uh': history.party(0).uh}

    def judge_inputs(self, t):
        ids = [i['p'] for i in t['ci']]
        check(len(set(ids)) == len(ids), 'an output is spent twice')
        check(len(ids) <= LIMIT, '{} inputs', len(ids))
        for i in ids:
            check(i.hex() in self.pool, 'output {} is spent, which was not for this', i.hex())
        return sum(self.pool[i.hex()] for i in ids)

    def judge_refund(self, got, rest, w, what):
        """got: the refund output or None"""
        if rest == 0:
            eq(got, None, what + ': refund, while nothing is left')
            return
        check(got is not None, '{}: {} are left, without a refund', what, rest)
        eq(got['v'], rest, what + ': value of the refund')
        eq(canonical(got['c']), canonical(self.refund_condition(w)), what + ': condition of the refund')

    def judge_coins(self, t, stated, w, data, what):
        """t pays the stated outputs and nothing else, except the fee; the rest goes back"""
        have = self.judge_inputs(t)
        eq(t['fees'], [self.chain.min_fee], what + ': miner fees')
        eq([(o['v'], o['c']) for o in t['co'][:len(stated)]], [(o['v'], o['c']) for o in stated], what + ': outputs')
        check(len(t['co']) <= len(stated) + 1, '{}: more outputs than stated: {}', what, t['co'])
        rest = have - sum(o['v'] for o in stated) - self.chain.min_fee
        self.judge_refund(t['co'][len(stated)] if len(t['co']) > len(stated) else None, rest, w, what)
        eq(t['data'], data, what + ': data')

    def judge_result(self, result, what):
        """the transaction of a result, and that it was submitted if and only if that is what the result says; returns it as plain data"""
        self.chain.check()
        raw = result.transaction.json()
        t = ref.tx_parse(raw)
        if result.submitted:
            eq(len(self.chain.posted), self.posted + 1, what + ': number of posted transactions')
            eq(len(self.chain.accepted), self.accepted + 1, what + ': number of accepted transactions')
            e = self.chain.accepted[-1]
            eq(ref.tx_json(t), ref.tx_json(e.tx), what + ': submitted transaction')
            eq(str(result.transaction.id), e.id.hex(), what + ': id of the submitted transaction')
            for o, i in zip(result.transaction.coin_outputs, e.ids()):
                # (identifiers are given to some outputs at least)
                check(o.id is None or str(o.id) in (i.hex(), '00' * 32), '{}: identifier {} of an output, expected {}', what, o.id, i.hex())
        else:
            self.unchanged(what + ': reported as not submitted')
        return t


def extra_signatures(t, keys, what):
    """which of the signatures besides those of inputs are there; keys: {field: (public key, what it signs as)}"""
    out = set()
    for field, (pk, role) in keys.items():
        if t[field] and t[field] != bytes(64):
            check(sim.verifies(pk, t[field], ref.sig_hash(t, role)), '{}: the signature {} does not verify', what, field)
            out.add(('extra', field))
    return out


class Fault:
    """the n-th request fails ('after': whatever is asked for after a transaction was submitted, which is no reason to fail any more)"""

    def __init__(self, n):
        self.n, self.kind = n, n if isinstance(n, int) else 0
        self.hit = False        # a request failed, so that the operation has to fail

    def __call__(self, kind, endpoint):
        if self.n == 'after':
            failing, self.n = False, 'submitted' if kind == 'POST' else 'after'
        elif self.n == 'submitted':
            failing = True
        else:
            self.n -= 1
            failing = self.n == -1
            self.hit |= failing
        if failing:
            # one of the ways in which explorers fail
            how = (len(endpoint) + self.kind) % 3
            if how == 0:
                raise errors.ExplorerNotAvailable('not now', endpoint, ['here'])
            if kind == 'POST':
                raise errors.ExplorerServerPostError('not now (code: 500)', endpoint, data='')
            if how == 1:
                raise errors.ExplorerServerError('not now (code: 500)', endpoint)
            return '{}'


@contextlib.contextmanager
def once_submitted(chain):
    """whatever fails after a transaction was submitted is no reason to report a failure"""
    chain.fault = Fault('after')
    try:
        yield
    finally:
        chain.fault = None


class Handover:
    """A transaction which lacks signatures, handed from wallet to wallet"""

    def __init__(self, chain, txn, keys):
        self.chain, self.txn, self.keys = chain, txn, keys
        self.object = True      # it was not handed over as text, yet

    def state(self, t):
        """who signed what"""
        out = extra_signatures(t, self.keys, 'signing')
        enc = ref.S if t['ver'] in (0, 1, 128, 129, 209) else ref.R
        for n, i in enumerate(t['ci']):
            f = i['f']
            pairs = f['pairs'] if f['k'] == 'multi' else [[f['pk'], f['sig']]] if f['sig'] else []
            for p, s in pairs:
                check(sim.verifies(p, s, ref.sig_hash(t, ref.s_int(n) + (enc.pk(p) if f['k'] == 'multi' else b''))), 'a signature of input {} does not verify', n)
                check((n, ref.uh_text(ref.pk_uh(p))) not in out, 'somebody signed input {} twice', n)
                out.add((n, ref.uh_text(ref.pk_uh(p))))
        return out

    def sign(self, w, o, other, ctx):
        """wallet w is asked to sign; o: form (object, dict, text), submit. Returns whether the transaction is still waiting"""
        chain = self.chain
        posted = len(chain.posted)
        t = ref.tx_parse(self.txn.json())
        if any(chain.outputs[i['p']]['spent'] is not None for i in t['ci']):
            return False
        before = self.state(t)
        self.object &= o['form'] == 'object'
        arg = self.txn if o['form'] == 'object' else self.txn.json() if o['form'] == 'dict' else json.dumps(self.txn.json())
        with once_submitted(chain):
            r = w.transaction_sign(arg, submit=o['submit'])
        chain.check()
        t2 = ref.tx_parse(r.transaction.json())
        after = self.state(t2)
        bare = lambda x: {k: ([(i['p'], i['f']['k']) for i in v] if k == 'ci' else v) for k, v in x.items() if k not in self.keys}
        eq(bare(t2), bare(t), 'signed transaction, apart from signatures')
        own = set(w.addresses)
        mine = {('extra', f) for f, (pk, _) in self.keys.items() if ref.uh_text(ref.pk_uh(pk)) in own}
        extra = set()       # not needed any more, but no harm
        enough = {('extra', f) for f in self.keys} <= after
        for n, i in enumerate(t['ci']):
            c = sim.inner(chain.outputs[i['p']]['o']['c'])
            uhs = [ref.uh_text(u) for u in sim.owners_of(c)]
            need = c['n'] if c['k'] == 'ms' else 1
            have = {a for a in uhs if (n, a) in before}
            (mine if len(have) < need else extra).update((n, a) for a in uhs if a in own)
            enough &= sum((n, a) in after for a in uhs) >= need
        eq(after - before - extra, mine - before, 'signatures that were added')
        check(before <= after, 'a signature was lost')
        eq(r.signed, bool(after - before), 'reported as signed')
        eq(len(chain.posted), posted + r.submitted, 'posted transactions')
        ctx.label('signed by another wallet', r.signed and other)
        ctx.label('completed by another wallet', r.submitted and other)
        ctx.label('signed from text', r.signed and o['form'] != 'object')
        if r.submitted:
            check(enough and o['submit'], 'submitted without all signatures, or without being asked to')
            eq(ref.tx_json(chain.accepted[-1].tx), ref.tx_json(t2), 'submitted transaction')
            return False
        # (after it was text, a wallet does not know about inputs that are not its own, so it cannot tell that all is there)
        check(not (enough and o['submit'] and r.signed and self.object), 'all signatures are there, but it is not submitted')
        self.txn = r.transaction
        return True


def canonical(c):
    """two conditions which are the same wallet"""
    if c['k'] == 'ms':
        return dict(c, uhs=sorted(c['uhs'], key=ref.uh_text))
    if c['k'] == 'lock':
        return dict(c, c=canonical(c['c']))
    return c


def units_of(budget, a):
    """the units of an amount of the generator"""
    if a[0] == 'is':
        return a[1]
    return max(1, budget * a[1] // 1000 + a[2])
