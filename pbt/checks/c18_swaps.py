"""C18: atomic swaps pay one party, under the agreed terms."""
import hashlib
import random

from hypothesis import strategies as st

from tfchain import errors
from tfchain.types.AtomicSwap import AtomicSwapContract
from tfchain.types.ConditionTypes import AtomicSwapSecret, AtomicSwapSecretHash, UnlockHash
from tfchain.types.PrimitiveTypes import BinaryData, Hash

from pbt import history, ref, sim, wallets
from pbt.wallets import Fault
from pbt.core import Sub, check, eq, rejects
from pbt.wallets import ONE, Funds

KEYS = 2
MY = [history.SEED, history.OTHER]


def party(n):
    """0, 1: keys of the first wallet; 2, 3: of the second; 4: somebody else"""
    return history.party(n) if n < 2 else sim.key(history.OTHER, n - 2) if n < 4 else sim.key(b'\x42' * 32, 0)


DURATIONS = {'+48h': 48 * 3600, '+1s': 1, '+10m': 600, '+1h': 3600, '+1d12h': 36 * 3600, '+ 2h': 7200, '600': 600}
refund_time = st.one_of(st.none(), st.sampled_from([d for d in DURATIONS if d.startswith('+')]).map(lambda d: ['d', d]),
                        st.sampled_from([-600, -1, 0, 1, 600, 601, 1200, 3600]).map(lambda n: ['t', n]))
terms = dict(wallets.funding, w=st.integers(0, 1), to=st.sampled_from([0, 1, 1, 2, 2, 3, 4]), tform=st.integers(0, 1), v=st.one_of(wallets.amount, wallets.amount, st.integers(-2, 2).map(lambda n: ['fee', n])),
             vform=wallets.amount_form, rt=refund_time, data=wallets.data, submit=st.sampled_from([True, True, True, True, False]),
             fault=st.sampled_from([None] * 7 + list(range(8)) + ['after'] * 2))
initiate = st.fixed_dictionaries(dict(terms, op=st.just('initiate')))
participate = st.fixed_dictionaries(dict(terms, op=st.just('participate'), hash=st.one_of(st.integers(0, 5), st.binary(min_size=32, max_size=32)), hform=st.integers(0, 3)))
which = st.sampled_from([0, 0, 0, 1, 1, 2, 3] * 4 + ['absent', 'plain'])   # 0: the newest one
actor = st.sampled_from([0, 1, None, None, None, None])                   # None: the one whose turn it is
simple = st.fixed_dictionaries(dict(wallets.funding, op=st.just('initiate'), w=st.just(0), to=st.integers(1, 3), tform=st.just(0), v=st.just(['is', 2 * ONE]), vform=st.just('tft'), rt=refund_time,
                                    source=st.none(), refund=st.one_of(st.none(), st.just(['p', 0]), st.just(['p', 1])), data=st.none(), submit=st.just(True), fault=st.none()))
# a contract somebody else made, of any content
foreign = st.fixed_dictionaries({'op': st.just('foreign'), 's': st.sampled_from([0, 0, 1, 2, 3, 4]), 'r': st.sampled_from([0, 1, 2, 2, 3, 4]), 'v': st.one_of(st.integers(1, 5 * ONE), st.sampled_from([ONE // 10 - 1, ONE // 10, ONE // 10 + 1, ONE - 1, ONE, ONE + 1])),
                                 'rt': st.sampled_from([-600, -1, 0, 1, 600, 1200]), 'secret': st.binary(min_size=32, max_size=32), 'conf': st.booleans(), 'spent': st.sampled_from([None] * 7 + [True, False])})
verify = st.fixed_dictionaries({'op': st.just('verify'), 'w': actor, 'c': which, 'oform': st.integers(0, 1), 'cached': st.sampled_from([None, None, 'same', 'same', 'other']),
                                'amount': st.sampled_from([None, 0, 0, 1, -1]), 'vform': wallets.amount_form, 'hash': st.sampled_from([None, True, True, False]), 'hform': st.integers(0, 3),
                                'rt': st.one_of(st.none(), st.sampled_from([0, 0, -1, 1]).map(lambda n: ['rel', n]), st.just(['abs', 0]), st.sampled_from([-1, 0, 1]).map(lambda n: ['now', n]),
                                                st.sampled_from(['+1h', '+10m', '+1s', '+48h']).map(lambda d: ['d', d])),
                                'sender': st.booleans(), 'receiver': st.booleans()})
agreed = st.fixed_dictionaries({'op': st.just('verify'), 'w': st.none(), 'c': st.just(0), 'oform': st.integers(0, 1), 'cached': st.sampled_from([None, 'same']), 'amount': st.sampled_from([None, 0]),
                                'vform': wallets.amount_form, 'hash': st.sampled_from([None, True]), 'hform': st.integers(0, 3), 'rt': st.sampled_from([None, ['rel', 0], ['abs', 0], ['now', 0], ['now', 1], ['d', '+10m']]),
                                'sender': st.just(False), 'receiver': st.booleans()})
redeem = st.fixed_dictionaries({'op': st.just('redeem'), 'w': actor, 'c': which, 'oform': st.integers(0, 1), 'secret': st.sampled_from(['right'] * 5 + ['wrong', 'short', 'bit']),
                                'sform': st.integers(0, 3), 'data': wallets.data, 'fault': st.sampled_from([None] * 7 + list(range(5)) + ['after'] * 3)})
refund = st.fixed_dictionaries({'op': st.just('refund'), 'w': actor, 'c': which, 'oform': st.integers(0, 1), 'data': wallets.data, 'fault': st.sampled_from([None] * 7 + list(range(5)) + ['after'] * 3)})
mine = st.fixed_dictionaries({'op': st.just('mine'), 'n': st.integers(1, 2), 'sec': st.sampled_from([1, 599, 600, 601, 3600, 172800]), 'keep': st.integers(0, 1)})
anything = st.one_of(simple, initiate, participate, foreign, verify, agreed, redeem, redeem, refund, refund, mine)
# made, waited for, and taken (back) by the one who can, and tried once more
own_turn = [d.flatmap(lambda o: st.sampled_from([None, None, None, 0, 1]).map(lambda w: dict(o, w=w, c=0, fault=None))) for d in (redeem, refund, refund)]
story = st.tuples(st.one_of(simple, simple, foreign.map(lambda o: dict(o, spent=None)), initiate.map(lambda o: dict(o, fault=None, submit=True))), st.lists(st.one_of(mine, mine, agreed), min_size=1, max_size=2),
                  st.lists(st.one_of(own_turn), min_size=1, max_size=2), st.lists(anything, max_size=3)).map(lambda t: [t[0]] + t[1] + t[2] + t[3])
case_st = st.fixed_dictionaries({'world': history.world, 'scan': st.sampled_from([0, 2]), 'purse': wallets.purse, 'ops': st.one_of(story, st.tuples(st.one_of(simple, initiate, foreign, foreign), st.lists(anything, min_size=2, max_size=8)).map(lambda t: [t[0]] + t[1]))})


def spelled(b, form, cls):
    return [b.hex(), bytes(b), BinaryData(value=bytes(b)), cls(value=bytes(b))][form % 4]


class Swaps:
    def __init__(self, case, ctx):
        self.ctx = ctx
        self.chain = history.new_chain(case['world'])
        wallets.fill(self.chain, case['purse'])
        self.chain.grant([{'v': 7 * ONE, 'c': {'k': 'uh', 'uh': party(n).uh}} for n in (0, 2, 2, 3)])
        self.w = [self.chain.wallet(s, KEYS, scan=case['scan'] * n) for n, s in enumerate(MY)]   # (all keys that are used are known to the second one)
        self.own = [[party(2 * n + k).addr for k in range(KEYS)] for n in range(2)]
        self.contracts = []        # {'id', 'v', 'c' (condition), 'secret' or None, 'obj' or None}
        self.secrets = set()

    def guarded(self, o, fn):
        """(result, exception, whether the explorer failed)"""
        self.chain.fault = Fault(o['fault']) if o.get('fault') is not None else None
        try:
            return fn(), None, False
        except Exception as e:
            return None, e, self.chain.fault is not None and self.chain.fault.hit
        finally:
            self.chain.fault = None

    def unchanged(self, posted, what):
        self.chain.check()
        check(len(self.chain.accepted) == posted, '{}, but a transaction was submitted', what)

    # ---------------------------------------------------- making contracts

    def create(self, o):
        chain, wi = self.chain, o['w']
        # (the second wallet only has its own coins: the sources of the generator are those of the first one)
        source, refund = (o['source'], o['refund']) if wi == 0 else (None, None if o['refund'] is None else o['refund'])
        funds = Funds(chain, KEYS, source)
        if wi == 1:
            s = chain.sheet(set(self.own[1]))
            funds.own, funds.pool = self.own[1], dict(s['available'], **s['unconfirmed'])
            funds.best = sum(sorted(funds.pool.values(), reverse=True)[:99])
        fee = chain.min_fee
        v = max(1, fee + o['v'][1]) if o['v'][0] == 'fee' else wallets.units_of(funds.best - fee, o['v'])
        rt = o['rt'] or ['d', {'initiate': '+48h', 'participate': '+24h'}[o['op']]]
        lt = chain.time + ({'+24h': 86400}.get(rt[1]) or DURATIONS[rt[1]] if rt[0] == 'd' else rt[1])
        args = dict(amount=wallets.amount_arg(v, o['vform']), source=wallets.source_arg(source, o['sform']), data=o['data'], submit=o['submit'],
                    refund=None if refund is None else wallets.recipient_arg(chain, refund, o['rform']))
        if o['rt']:
            args['refund_time'] = rt[1] if rt[0] == 'd' else lt
        to = party(o['to']).addr
        to = UnlockHash.from_json(to) if o['tform'] else to
        secret = None
        if o['op'] == 'initiate':
            r, e, hit = self.guarded(o, lambda: self.w[wi].atomicswap.initiate(to, **args))
        else:
            if isinstance(o['hash'], int):
                c = self.contracts[o['hash'] % len(self.contracts)] if self.contracts else None
                secret = c['secret'] if c and c['secret'] else bytes([o['hash']]) * 32
                digest = hashlib.sha256(secret).digest()
            else:
                digest = o['hash']
            r, e, hit = self.guarded(o, lambda: self.w[wi].atomicswap.participate(to, secret_hash=spelled(digest, o['hform'], AtomicSwapSecretHash), **args))
        what = '{} of {}'.format(o['op'], v)
        if hit:
            check(isinstance(e, errors.ExplorerError), '{}: a failing explorer is reported as {!r}', what, e)
            return funds.unchanged(what + ' while the explorer failed')
        if v <= fee:
            check(isinstance(e, errors.AtomicSwapInsufficientAmountError), '{}, not more than the fee: {!r}', what, e)
            return funds.unchanged(what)
        if not funds.enough(v + fee):
            check(isinstance(e, errors.InsufficientFunds), '{}, while {} are available: {!r}', what, funds.best, e)
            return funds.unchanged(what)
        if e is not None:
            chain.check()
            raise e
        if refund is not None:
            sender = party(refund[1]) if refund[0] == 'p' else None
            sender = history.party(refund[1]).uh if refund[0] == 'p' else party(2 * wi).uh
        elif source is not None and len(source) == 1 and source[0][0] == 'p':
            sender = history.party(source[0][1]).uh
        else:
            sender = party(2 * wi).uh
        if o['op'] == 'initiate':
            secret = bytes.fromhex(str(r.secret))
            eq(len(secret), 32, what + ': length of the secret')
            check(secret not in self.secrets, '{}: a secret is used again', what)
            self.secrets.add(secret)
            digest = hashlib.sha256(secret).digest()
        cond = {'k': 'swap', 's': sender, 'r': party(o['to']).uh, 'hs': digest, 'lt': lt}
        t = funds.judge_result(r, what)
        if wi == 1 and refund is None:
            refund_c = {'k': 'uh', 'uh': party(2).uh}
            funds.refund_condition = lambda w: refund_c
        funds.judge_coins(t, [{'v': v, 'c': cond}], refund, wallets.data_bytes(o['data']), what)
        eq(r.submitted, o['submit'] and funds.signable([i['p'] for i in t['ci']]), what + ': submitted')
        e = sim.Entry(t, ref.tx_json(t))
        c = {'id': e.ids()[0].hex(), 'v': v, 'c': cond, 'secret': secret, 'obj': r.contract}
        self.is_contract(r.contract, c, True, what)
        if r.submitted:
            self.contracts.append(c)
            self.ctx.label(o['op'])

    def is_contract(self, got, c, unspent, what):
        check(isinstance(got, AtomicSwapContract), '{}: the contract is a {}', what, type(got).__name__)
        eq([str(got.outputid), got.amount.json(), str(got.sender), str(got.receiver), str(got.secret_hash), got.refund_timestamp, got.unspent],
           [c['id'], str(c['v']), ref.uh_text(c['c']['s']), ref.uh_text(c['c']['r']), c['c']['hs'].hex(), c['c']['lt'], unspent], what + ': contract')
        str(got)

    def foreign(self, o):
        c = {'k': 'swap', 's': party(o['s']).uh, 'r': party(o['r']).uh, 'hs': hashlib.sha256(o['secret']).digest(), 'lt': self.chain.time + o['rt']}
        e = self.chain.grant([{'v': o['v'], 'c': c}], o['conf'])
        if o['spent'] is not None and (o['conf'] or not o['spent']):
            self.chain.spend(e.ids(), [], o['spent'])
        self.contracts.append({'id': e.ids()[0].hex(), 'v': o['v'], 'c': c, 'secret': o['secret'], 'obj': None})

    # ---------------------------------------------------- using contracts

    def actor(self, o, c, role):
        if o['w'] is not None:
            return o['w']
        return 1 if isinstance(c, dict) and ref.uh_text(c['c'][role]) in self.own[1] else 0

    def pick(self, o):
        """(contract or None, output id to hand over)"""
        if o['c'] == 'absent' or not self.contracts:
            return None, [('ab' * 32), Hash(value='ab' * 32)][o['oform']]
        if o['c'] == 'plain':
            i = next(i for i, r in self.chain.outputs.items() if r['o']['c']['k'] == 'uh')
            return 'plain', [i.hex(), Hash(value=i.hex())][o['oform']]
        c = self.contracts[-1 - o['c'] % len(self.contracts)]
        self.spent = self.chain.outputs[bytes.fromhex(c['id'])]['spent']     # by now
        return c, [c['id'], Hash(value=c['id'])][o['oform']]

    def refused(self, r, e, kinds, posted, what):
        self.chain.check()
        check(e is not None, '{}: was accepted', what)
        check(isinstance(e, tuple(kinds)), '{}: {!r}, expected {}', what, e, [k.__name__ for k in kinds])
        self.unchanged(posted, what)
        self.ctx.label('refused: ' + type(e).__name__)

    def missing(self, c, r, e, posted, what):
        """answers for what is no contract, or a spent one; whether it was such a case"""
        if c is None:
            self.refused(r, e, [errors.AtomicSwapContractNotFound], posted, what + ' of what does not exist')
        elif c == 'plain':
            check(e is not None, '{}: an output that is no swap is accepted', what)
            rejects(lambda: (_ for _ in ()).throw(e), what)
            self.unchanged(posted, what)
        elif self.spent is not None:
            self.refused(r, e, [errors.AtomicSwapContractSpent], posted, what + ' of a spent contract')
            eq(str(e.transaction.id), self.spent.id.hex(), what + ': transaction that spent the contract')
            self.is_contract(e.contract, c, False, what)
        else:
            return False
        return True

    def verify(self, o):
        c, oid = self.pick(o)
        wi = self.actor(o, c, 'r')
        w, chain = self.w[wi], self.chain
        posted = len(chain.accepted)
        args, good = {}, True
        if isinstance(c, dict):
            lt, now = c['c']['lt'], chain.time
            if o['amount'] is not None and c['v'] + o['amount'] > 0:
                args['amount'] = wallets.amount_arg(c['v'] + o['amount'], o['vform'])
                good &= o['amount'] == 0
            if o['hash'] is not None:
                digest = c['c']['hs'] if o['hash'] else bytes(a ^ (k == 31) for k, a in enumerate(c['c']['hs']))
                args['secret_hash'] = spelled(digest, o['hform'], AtomicSwapSecretHash)
                good &= o['hash']
            if o['rt'] is not None:
                k, n = o['rt']
                m = {'rel': lambda: lt + n, 'abs': lambda: 0, 'now': lambda: now + n, 'd': lambda: now + DURATIONS[n]}[k]()
                args['min_refund_time'] = n if k == 'd' else m
                good &= (now >= lt) if m <= now else (lt >= m)
            for k, f in (('sender', 's'), ('receiver', 'r')):
                if o[k]:
                    args[k] = True
                    good &= ref.uh_text(c['c'][f]) in self.own[wi]
        cached = o['cached'] and isinstance(c, dict) and c['obj'] is not None
        if cached:
            args['contract'] = c['obj']
            if o['cached'] == 'other':
                oid = 'cd' * 32
                good = False
        r, e, _ = self.guarded(o, lambda: w.atomicswap.verify(oid, **args))
        what = 'verification {}'.format(sorted(args))
        if not cached and self.missing(c, r, e, posted, what):
            return
        if not good:
            return self.refused(r, e, [errors.AtomicSwapContractInvalid], posted, what + ' of a contract that is different')
        if e is not None:
            raise e
        self.is_contract(r, c, True, what)
        self.unchanged(posted, what)
        c['obj'] = r
        self.ctx.label('verified' + (' without asking' if cached else ''))
        self.ctx.nontrivial(len(args) > 1)

    def claim(self, o, as_sender):
        c, oid = self.pick(o)
        wi = self.actor(o, c, 's' if as_sender else 'r')
        w, chain = self.w[wi], self.chain
        posted = len(chain.accepted)
        if as_sender:
            what = 'refund'
            r, e, hit = self.guarded(o, lambda: w.atomicswap.refund(oid, data=o['data']))
        else:
            what = 'redemption'
            secret = (c['secret'] if isinstance(c, dict) else None) or b'\7' * 32
            right = isinstance(c, dict) and hashlib.sha256(secret).digest() == c['c']['hs']
            how = o['secret']
            if how != 'right':
                right = False
                secret = {'wrong': b'\x99' * 32, 'short': secret[:31], 'bit': secret[:31] + bytes([secret[31] ^ 1])}[how]
            if how == 'short':
                arg = [secret.hex(), secret][o['sform'] % 2]
            else:
                arg = spelled(secret, o['sform'], AtomicSwapSecret)
            r, e, hit = self.guarded(o, lambda: w.atomicswap.redeem(oid, arg, data=o['data']))
        if hit:
            check(e is not None, '{}: done, although the explorer failed', what)
            return self.unchanged(posted, what)
        if self.missing(c, r, e, posted, what):
            return
        reasons = []
        party_uh = c['c']['s' if as_sender else 'r']
        if ref.uh_text(party_uh) not in self.own[wi]:
            reasons.append(errors.AtomicSwapForbidden)
        if as_sender and chain.time < c['c']['lt']:
            reasons.append(errors.AtomicSwapForbidden)
        if not as_sender and not right:
            reasons.append(errors.AtomicSwapInvalidSecret)
            if o['secret'] == 'short':
                reasons += [ValueError, TypeError]
        if c['v'] <= chain.min_fee:
            reasons += [errors.AtomicSwapInsufficientAmountError, ValueError, errors.CurrencyNegativeValue]
        if reasons:
            return self.refused(r, e, reasons, posted, what)
        if e is not None:
            chain.check()
            raise e
        chain.check()
        eq(len(chain.accepted), posted + 1, what + ': submitted transactions')
        t = chain.accepted[-1].tx
        eq(str(r.id), chain.accepted[-1].id.hex(), what + ': id of the transaction')
        eq(ref.tx_json(ref.tx_parse(r.json())), ref.tx_json(t), what + ': submitted transaction')
        eq([i['p'].hex() for i in t['ci']], [c['id']], what + ': inputs')
        f = t['ci'][0]['f']
        eq([ref.pk_uh(f['pk']), (f['secret'] or b'').hex()], [party_uh, '' if as_sender else c['secret'].hex()], what + ': signer and secret')
        eq(t['co'], [{'v': c['v'] - chain.min_fee, 'c': {'k': 'uh', 'uh': party_uh}}], what + ': outputs')
        eq([t['fees'], t['data']], [[chain.min_fee], wallets.data_bytes(o['data'])], what + ': fee and data')
        self.ctx.label(what)
        self.ctx.label(what + ' by the owner of both sides', c['c']['s'] != c['c']['r'] and all(ref.uh_text(c['c'][k]) in self.own[wi] for k in 'sr'))
        self.ctx.nontrivial()


def swapping(case, ctx):
    s = Swaps(case, ctx)
    for o in case['ops']:
        if o['op'] in ('initiate', 'participate'):
            if o['w'] == 0:
                wallets.topup(s.chain, o)
            s.create(o)
        elif o['op'] == 'foreign':
            s.foreign(o)
        elif o['op'] == 'verify':
            s.verify(o)
        elif o['op'] == 'mine':
            s.chain.mine(o['sec'], o['n'], keep=o['keep'])
        else:
            s.claim(o, o['op'] == 'refund')
    s.chain.check()


def secrets(case, ctx):
    """secrets do not follow from anything that is known"""
    ctx.nontrivial()
    seen = set()
    for n in range(4):
        random.seed(case['seed'])
        s = AtomicSwapSecret.random()
        b = bytes.fromhex(str(s))
        eq(len(b), 32, 'length of a secret')
        check(b not in seen, 'a secret can be predicted: it follows from the state of the random module')
        seen.add(b)
        eq(str(AtomicSwapSecretHash.from_secret(s)), hashlib.sha256(b).hexdigest(), 'hash of a secret')
    chain = sim.Chain()
    chain.grant([{'v': 50 * ONE, 'c': {'k': 'uh', 'uh': party(0).uh}}])
    w = chain.wallet(history.SEED, 1)
    for n in range(2):
        random.seed(case['seed'])
        b = bytes.fromhex(str(w.atomicswap.initiate(party(4).addr, 1).secret))
        check(b not in seen, 'the secret of a swap can be predicted')
        seen.add(b)
    for n in range(case['count']):
        b = bytes.fromhex(str(AtomicSwapSecret.random()))
        check(b not in seen, 'secret {} was there before', n)
        seen.add(b)


def bad_terms(case, ctx):
    """terms which make no sense are refused"""
    ctx.nontrivial()
    chain = sim.Chain()
    chain.grant([{'v': 50 * ONE, 'c': {'k': 'uh', 'uh': party(0).uh}}])
    w = chain.wallet(history.SEED, 1)
    k, n = case['bad']
    values = {'participator': ['', 'x', 5, '0' * 78 + '1', b'1', {}, '03' + '0' * 76], 'amount': [0, -1, '', 'x', None, '0.1', '0.0999'],
              'refund_time': [5, 100, -1, '', 'x', None, 1.5, [], 499_999_999], 'refund': ['', 'x', 5, {}] + wallets.NOT_PERSONAL, 'data': [b'x' * 84, 5], 'source': ['', 'x', 5, party(4).addr]}[k]
    args = dict(participator=party(4).addr, amount=1, refund_time='+1h', refund=None, data=None, source=None)
    args[k] = values[n % len(values)]
    rejects(lambda: w.atomicswap.initiate(**args), 'a swap with {} = {!r}'.format(k, args[k]))
    chain.check()
    args['initiator'] = args.pop('participator')
    rejects(lambda: w.atomicswap.participate(secret_hash='ab' * 32, **args), 'a swap with {} = {!r}'.format(k, values[n % len(values)]))
    for h in ('ab' * 31, 'ab' * 33, 5, 'x' * 64, b'1' * 31):
        rejects(lambda: w.atomicswap.participate(party(4).addr, 1, secret_hash=h), 'a swap with the secret hash {!r}'.format(h))
    chain.check()
    eq(chain.posted, [], 'posted transactions')


SUBS = [
    Sub('swapping', case_st, swapping, 3000, 30000, 'a contract was redeemed, refunded or verified against some terms'),
    Sub('secrets', st.fixed_dictionaries({'seed': st.integers(0, 2**32), 'count': st.sampled_from([0, 10, 100, 3000])}), secrets, 40, 400, 'every case', shards=1),
    Sub('bad_terms', st.fixed_dictionaries({'bad': st.tuples(st.sampled_from(['participator', 'amount', 'refund_time', 'refund', 'data', 'source']), st.integers(0, 20)).map(list)}), bad_terms, 100, 300, 'every case', shards=1),
]
