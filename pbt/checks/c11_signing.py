"""C11: collecting the signatures of a transaction, from several signers, in any order, over any number of hand-overs."""
import copy
import random

import ed25519
from hypothesis import strategies as st

from tfchain import errors
from tfchain.types import transactions
from tfchain.types.IO import BlockstakeInput, BlockstakeOutput, CoinInput, CoinOutput

from pbt import build, gen, ref
from pbt.core import Sub, check, eq, fail, rejects

KEYS = [ed25519.SigningKey(bytes([7, i]) + bytes(30)) for i in range(48)]
PKS = [[1, k.get_verifying_key().to_bytes()] for k in KEYS]
UHS = [ref.pk_uh(p) for p in PKS]
TEXTS = [ref.uh_text(u) for u in UHS]
NIL = ref.uh_text([0, bytes(32)])


def with_owners(c):
    """a condition in which key indices stand for the owners"""
    k = c['k']
    if k == 'uh':
        return {'k': 'uh', 'uh': UHS[c['o']]}
    if k == 'free':
        return {'k': 'uh', 'uh': [0, bytes(32)]}
    if k == 'ms':
        return {'k': 'ms', 'n': c['n'], 'uhs': [UHS[o] for o in c['os']]}
    if k == 'swap':
        return {'k': 'swap', 's': UHS[c['s']], 'r': UHS[c['r']], 'hs': bytes(32), 'lt': 10**9}
    if k == 'lock':
        return {'k': 'lock', 'v': c['v'], 'c': with_owners(c['c'])}
    return c


class Slot:
    """one place to be signed (the model)"""

    def __init__(self, c, extra, known, secret=None):
        inner = c['c'] if c['k'] == 'lock' else c
        self.c, self.known, self.extra = c, known, extra
        self.kind = {'nil': 'free', 'uh': 'single', 'free': 'free', 'ms': 'ms', 'swap': 'swap'}[inner['k']]
        self.owners = {'free': [], 'single': [inner.get('o')], 'ms': inner.get('os'), 'swap': [inner.get('s'), inner.get('r')]}[self.kind]
        self.need = inner.get('n', 1)
        self.secret = secret
        self.signed = []  # [key index, signature]

    def requests(self):
        if not self.known:
            return []
        have = [k for k, _ in self.signed]
        if self.kind == 'ms':
            return [TEXTS[o] for o in self.owners if o not in have]
        if have:
            return []
        return [NIL] if self.kind == 'free' else [TEXTS[o] for o in self.owners]

    def fulfilled(self):
        return self.known and len(self.signed) >= (self.need if self.kind == 'ms' else 1)

    def plain(self):
        if self.kind == 'ms':
            return {'k': 'multi', 'pairs': [[PKS[k], s] for k, s in self.signed]}
        k, s = self.signed[0] if self.signed else (None, b'')
        f = {'k': 'single', 'pk': [0, bytes(32)] if k is None else PKS[k], 'sig': s}
        if self.kind == 'swap':
            f.update(k='swap', secret=self.secret)
        return f

    def hash_extra(self, key, version):
        out = self.extra
        if self.kind in ('ms', 'swap'):
            out += (ref.S if version in (1, 128, 129) else ref.R).pk(PKS[key])
        if self.kind == 'swap' and self.secret:
            out += self.secret
        return out


class Sig:
    """the signature of a bot or a registered key"""
    kind = 'sig'

    def __init__(self, field, owner, extra, known):
        self.field, self.owner, self.extra, self.known = field, owner, extra, known
        self.signed = []

    def requests(self):
        return [TEXTS[self.owner]] if self.known and not self.signed else []

    def fulfilled(self):
        return bool(self.signed)

    def hash_extra(self, key, version):
        return self.extra


class World:
    def __init__(self, case):
        self.t = t = copy.deepcopy(case['t'])
        self.v = t['ver']
        self.coin = [Slot(c, ref.s_int(i), known, secret) for i, (c, known, secret) in enumerate(case['coin'])]
        self.stake = [Slot(c, ref.s_int(i), known, secret) for i, (c, known, secret) in enumerate(case.get('stake', []))]
        self.extra = []
        o = case.get('bots', [0, 1])
        if self.v in (128, 129):
            c, known, _ = case['mint']
            self.extra = [Slot(c, b'', known)]
        elif self.v in (144, 210):
            t['pk'] = PKS[o[0]]
            self.extra = [Sig('sig', o[0], b'sender' if self.v == 144 else b'registration', True)]
        elif self.v == 145:
            self.extra = [Sig('sig', o[0], b'sender', case['known'][0])]
        elif self.v == 146:
            self.extra = [Sig('ssig', o[0], b'sender', case['known'][0]), Sig('rsig', o[1], b'receiver', case['known'][1])]
        self.parents = [bytes([1, i]) * 16 for i in range(256)]
        self.x = None
        self.sync()
        self.x = build.from_text(transactions.from_json, ref.tx_json(self.t))
        self.attach()

    def slots(self):
        return self.coin + self.stake + self.extra

    def sync(self):
        """the model's transaction, with the signatures collected so far"""
        for key, slots in (('ci', self.coin), ('bi', self.stake)):
            if key in self.t:
                self.t[key] = [{'p': self.parents[i], 'f': s.plain()} for i, s in enumerate(slots)]
        for s in self.extra:
            if s.kind != 'sig':
                self.t['mf'] = s.plain()
            else:
                self.t[s.field] = s.signed[0][1] if s.signed else b''

    def attach(self):
        """what is known about the chain, which is not part of the transaction itself"""
        x = self.x
        for i, s in zip(x.coin_inputs, self.coin):
            if s.known:
                i.parent_output = CoinOutput(value='5 TFT', condition=build.cond(with_owners(s.c)), id=i.parentid)
        for i, s in zip(x.blockstake_inputs, self.stake):
            if s.known:
                i.parent_output = BlockstakeOutput(value=5, condition=build.cond(with_owners(s.c)), id=i.parentid)
        if self.v in (128, 129) and self.extra[0].known:
            x.parent_mint_condition = build.cond(with_owners(self.extra[0].c))
        if self.v == 145 and self.extra[0].known:
            x.parent_public_key = build.pk(PKS[self.extra[0].owner])
        if self.v == 146:
            if self.extra[0].known:
                x.sender_parent_public_key = build.pk(PKS[self.extra[0].owner])
            if self.extra[1].known:
                x.receiver_parent_public_key = build.pk(PKS[self.extra[1].owner])

    def verify(self, when):
        self.sync()
        want = [r for s in self.slots() for r in s.requests()]
        eq([r.wallet_address for r in self.x.signature_requests_new()], want, 'open signature requests ' + when)
        done = all(s.fulfilled() for s in self.slots())
        eq(bool(self.x.is_fulfilled()), done, 'fulfilled ' + when)
        eq(build.to_text(self.x.json()), ref.tx_json(self.t), 'transaction ' + when)
        return done

    def slot_of(self, j):
        """the slot to which the j-th open request belongs"""
        for s in self.slots():
            n = len(s.requests())
            if j < n:
                return s
            j -= n
        fail('more requests than places to sign')

    def give(self, request, slot, key):
        pk = build.pk(PKS[key])
        h = bytes(request.input_hash_new(pk).value)
        eq(h, ref.sig_hash(self.t, slot.hash_extra(key, self.v)), 'hash to be signed')
        sig = KEYS[key].sign(h)
        eq(request.fulfilled, False, 'request marked as fulfilled beforehand')
        request.signature_fulfill(public_key=pk, signature=sig)
        eq(request.fulfilled, True, 'request marked as fulfilled')
        slot.signed.append([key, sig])
        try:
            request.signature_fulfill(public_key=pk, signature=bytes(64))
        except errors.DoubleSignError:
            pass
        else:
            fail('a request was fulfilled twice')


def signing(case, ctx):
    w = World(case)
    ctx.label('v{}'.format(w.v))
    w.verify('at first')
    given, shipped = 0, 0
    for n, op in enumerate(case['ops']):
        when = 'after operation {} ({})'.format(n, op[0])
        reqs = w.x.signature_requests_new()
        if op[0] == 'sign':          # one signer, everywhere it can
            plan = [(r, w.slot_of(j)) for j, r in enumerate(reqs)]
            for r, slot in plan:
                if slot.kind == 'swap' and slot.signed:
                    continue         # needs one signature only
                if r.wallet_address in (TEXTS[op[1]], NIL):
                    w.give(r, slot, op[1])
                    given += 1
        elif op[0] == 'one' and reqs:  # one request only
            j = op[1] % len(reqs)
            slot = w.slot_of(j)
            key = TEXTS.index(reqs[j].wallet_address) if reqs[j].wallet_address != NIL else op[1] % 6
            if op[1] % 3 == 0:
                # what is no signature is refused, and the request stays open
                before = w.x.json()
                bad = (bytes(63), bytes(65), 'ff', 7, [1])[op[1] % 5]
                rejects(lambda: reqs[j].signature_fulfill(public_key=build.pk(PKS[key]), signature=bad), 'signature which is none')
                eq(reqs[j].fulfilled, False, 'refused request marked as fulfilled')
                eq(w.x.json(), before, 'transaction after a signature that was refused')
                ctx.label('refused at first')
            w.give(reqs[j], slot, key)
            given += 1
        elif op[0] == 'wrong' and reqs:
            j = op[1] % len(reqs)
            if reqs[j].wallet_address != NIL:
                key = (TEXTS.index(reqs[j].wallet_address) + 1 + op[1] % 5) % 6
                ctx.label('wrong key')
                before = w.x.json()
                rejects(lambda: reqs[j].signature_fulfill(public_key=build.pk(PKS[key]), signature=bytes(64)), 'signature of someone else')
                eq(reqs[j].fulfilled, False, 'refused request marked as fulfilled')
                eq(w.x.json(), before, 'transaction after a signature of someone else')
        elif op[0] == 'ship':        # hand the transaction over, as text
            shipped += given > 0
            w.x = build.from_text(transactions.from_json, w.x.json())
            w.attach()
        done = w.verify(when)
        ctx.label('fulfilled', done)
    ctx.nontrivial(given > 0)
    ctx.label('handed over half-signed', shipped > 0)
    # all signatures which are there verify against the specified hash
    for s in w.slots():
        for key, sig in s.signed:
            KEYS[key].get_verifying_key().verify(sig, ref.sig_hash(w.t, s.hash_extra(key, w.v)))
            ctx.label(s.kind)


def crowd(case, ctx):
    """many inputs, or many owners of one"""
    r = random.Random(case['seed'])
    ctx.label('many inputs' if case['inputs'] > 50 else 'many owners' if case['owners'] > 10 else 'few')
    coin = []
    for n in range(case['inputs']):
        os = r.sample(range(48), case['owners'])
        coin.append([{'k': 'ms', 'n': r.choice([1, len(os) // 2 + 1, len(os)]), 'os': os} if len(os) > 1 else {'k': 'uh', 'o': os[0]}, True, None])
    signers = list(range(48))
    r.shuffle(signers)
    ops = []
    for i in range(0, 48, 6):
        ops += [['sign', k] for k in signers[i:i + 6]] + [['ship']] * (r.random() < case['ship'])
    t = dict(case['t'], ci=[])
    ops = ops[::8] if case['inputs'] * case['owners'] > 120 else ops
    signing({'t': t, 'coin': coin, 'stake': [], 'bots': [0, 1], 'known': [True, True], 'ops': ops}, ctx)


# ------------------------------------------------------------------ inputs made from outputs

def inputs(case, ctx):
    c = with_owners(case['c'])
    ctx.nontrivial()
    ctx.label(c['k'])
    for cls, out, make in ((CoinInput, CoinOutput(value='3 TFT', condition=build.cond(c), id=case['id']), CoinInput.from_coin_output),
                           (BlockstakeInput, BlockstakeOutput(value=3, condition=build.cond(c), id=case['id']), BlockstakeInput.from_blockstake_output)):
        i = make(out)
        eq(bytes(i.parentid.value), case['id'], 'parent of an input made from an output')
        check(i.parent_output is out or i.parent_output.json() == out.json(), 'parent output of an input made from it')
        kind = {'nil': 1, 'uh': 1, 'swap': 2, 'ms': 3}[c['c']['k'] if c['k'] == 'lock' else c['k']]
        eq(int(i.fulfillment.type), kind, 'fulfillment of an input made from an output')
        need = case['c']['n'] if c['k'] == 'ms' else (case['c']['c'].get('n', 1) if c['k'] == 'lock' else 1)
        eq(bool(i.is_fulfilled()), need == 0, 'unsigned input is fulfilled')
        # copies of an input in another transaction know as much as it does, not more
        for known in (True, False):
            i.parent_output = out if known else None
            src = transactions.new()
            dst = transactions.new()
            if cls is CoinInput:
                src.coin_inputs.append(i)
                dst.coin_inputs = src.coin_inputs
                got = dst.coin_inputs
            else:
                src.blockstake_inputs.append(i)
                dst.blockstake_inputs = src.blockstake_inputs
                got = dst.blockstake_inputs
            eq([r.wallet_address for r in dst.signature_requests_new()], [r.wallet_address for r in src.signature_requests_new()],
               'signature requests of the copy (parent known: {})'.format(known))
            eq(bool(dst.is_fulfilled()), bool(src.is_fulfilled()), 'fulfilled (copy, parent known: {})'.format(known))
            if not known:
                eq(dst.signature_requests_new(), [], 'signature requests without knowing the parent')
                eq(bool(dst.is_fulfilled()), False, 'fulfilled without knowing the parent')
            eq(len(got), 1, 'copied inputs')


# ------------------------------------------------------------------ generators

idx = st.integers(0, 5)


@st.composite
def owned(draw, swap=True):
    k = draw(st.sampled_from(['uh', 'uh', 'ms', 'ms', 'nil', 'free'] + ['swap'] * swap))
    if k == 'uh':
        c = {'k': 'uh', 'o': draw(idx)}
    elif k == 'ms':
        os = draw(st.lists(idx, min_size=1, max_size=4, unique=True))
        c = {'k': 'ms', 'n': draw(st.integers(1, len(os))), 'os': os}
    elif k == 'swap':
        s, r = draw(st.lists(idx, min_size=2, max_size=2, unique=True))
        return {'k': 'swap', 's': s, 'r': r}
    else:
        c = {'k': k}
    if draw(st.integers(0, 3)) == 0:
        c = {'k': 'lock', 'v': draw(gen.locks), 'c': c}
    return c


@st.composite
def worlds(draw):
    v = draw(st.sampled_from([1, 1, 1, 128, 129, 144, 145, 146, 208, 210]))
    known = st.sampled_from([True] * 9 + [False])

    def place(swap=True):
        c = draw(owned(swap))
        return [c, draw(known), draw(st.one_of(st.none(), gen.b32.filter(any))) if c['k'] == 'swap' else None]
    case = {'t': draw(gen.tx(v, ful=gen.ful_unsigned)), 'coin': [], 'ops': draw(st.lists(st.one_of(
        st.tuples(st.just('sign'), idx), st.tuples(st.just('one'), st.integers(0, 20)), st.tuples(st.just('wrong'), st.integers(0, 20)),
        st.tuples(st.just('ship'))).map(list), min_size=1, max_size=10))}
    if v in (128, 129):
        case['mint'] = place(False)
    else:
        case['coin'] = [place(True) for _ in range(draw(st.integers(0 if v != 208 else 1, 3)))]
        if v == 1:
            case['stake'] = [place(False) for _ in range(draw(st.integers(0, 2)))]
        case['bots'] = draw(st.lists(idx, min_size=2, max_size=2, unique=True))
        case['known'] = [draw(known), draw(known)]
    return case


SUBS = [
    Sub('signing', worlds(), signing, 1200, 16000, 'a signature was given'),
    Sub('crowd', st.fixed_dictionaries({'t': st.sampled_from([1, 1, 144, 208]).flatmap(lambda v: gen.tx(v, ful=gen.ful_unsigned)), 'seed': st.integers(0, 10**6), 'ship': st.sampled_from([0, .2]),
                                        'size': st.sampled_from([[99, 1], [60, 2], [120, 1], [20, 5], [1, 20], [1, 48], [2, 33]])}).map(lambda c: dict(c, inputs=c['size'][0], owners=c['size'][1])),
        crowd, 40, 600, 'a signature was given', shards=8),
    Sub('inputs', st.fixed_dictionaries({'c': owned(), 'id': gen.b32}), inputs, 600, 6000, 'every case'),
]
