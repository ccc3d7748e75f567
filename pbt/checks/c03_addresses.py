"""C03: the text forms of addresses, public keys and identifiers."""
import re

from hypothesis import strategies as st

from tfchain.encoders import rivine_encode, sia_encode
from tfchain.types.ConditionTypes import UnlockHash
from tfchain.types.CryptoTypes import PublicKey
from tfchain.types.ERC20 import ERC20Address, ERC20Hash
from tfchain.types.PrimitiveTypes import Hash

from pbt import build, gen, ref
from pbt.core import Sub, check, eq, rejects

HEX = '0123456789abcdef'


# ------------------------------------------------------------------ wallet addresses

def addresses(case, ctx):
    u, w = case['u'], case['w']
    ctx.nontrivial(u[0] != 0)
    ctx.label('type {}'.format(u[0]))
    text = ref.uh_text(u)
    a = build.uh(u)
    eq(str(a), text, 'address text')
    eq(a.json(), text, 'address JSON')
    b = UnlockHash.from_json(text)
    eq(int(b.type), u[0], 'decoded type')
    eq(b.hash.value, u[1], 'decoded hash')
    eq(str(b), text, 'decoded address text')
    other = build.uh(w)
    eq(a == b, True, 'address equals its decoded text')
    eq(a != b, False, 'address differs from its decoded text')
    eq(a == text, True, 'address equals its text')
    eq(hash(a) == hash(b), True, 'equal addresses have equal hashes')
    eq(a == other, u == w, 'equality of {} and {}'.format(text, ref.uh_text(w)))
    eq(a != other, u != w, 'inequality')
    eq(a == ref.uh_text(w), u == w, 'equality with a text')
    eq(len({a, b, other}), 1 if u == w else 2, 'size of the set of addresses')


@st.composite
def corrupted(draw):
    u = draw(st.one_of(gen.uh_any, gen.uh_pk))
    t = ref.uh_text(u)
    how = draw(st.sampled_from(['replace', 'replace', 'replace', 'swap', 'shorter', 'longer', 'type', 'nonhex', 'other checksum',
                                'rotate', 'blank', 'double']))
    pos = draw(st.integers(0, 77))
    if how == 'replace':
        for _ in range(draw(st.integers(1, 4))):
            t = t[:pos] + draw(st.sampled_from(HEX)) + t[pos + 1:]
            pos = draw(st.integers(0, 77))
    elif how == 'swap':
        pos = min(pos, 76)
        t = t[:pos] + t[pos + 1] + t[pos] + t[pos + 2:]
    elif how == 'shorter':
        n = draw(st.integers(1, 78))
        t = draw(st.sampled_from([t[n:], t[:-n]]))
    elif how == 'longer':
        x = draw(st.text(HEX, min_size=1, max_size=12))
        t = draw(st.sampled_from([t + x, x + t, t[:pos] + x + t[pos:]]))
    elif how == 'type':
        t = '{:02x}'.format(draw(st.integers(0, 255))) + t[2:]
    elif how == 'nonhex':
        t = t[:pos] + draw(st.sampled_from('gz-+_xO!é')) + t[pos + 1:]
    elif how == 'other checksum':
        t = t[:66] + ref.uh_text(draw(gen.uh_any))[66:]
    elif how == 'rotate':
        t = t[pos:] + t[:pos]
    elif how == 'blank':
        t = draw(st.sampled_from([' ' + t, t + ' ', t + '\n', ' ' + t[1:], t[:-1] + ' ', t[:-1] + '\n', t[:40] + ' ' + t[41:]]))
    else:
        t = t + t
    return {'t': t, 'how': how}


def valid_text(t):
    """what the checksum protects: None where the format leaves it open"""
    if re.fullmatch('[0-9a-f]{78}', t) is None:
        return False
    u = ref.uh_parse(t)
    if u[0] > 3:
        return None if ref.uh_text(u) == t else False
    if u[0] == 0 and any(u[1]):
        return False
    return ref.uh_text(u) == t


def corruption(case, ctx):
    t = case['t']
    v = valid_text(t)
    ctx.label(case['how'])
    ctx.nontrivial(v is False)
    if v is None:
        return
    if v:
        eq(str(UnlockHash.from_json(t)), t, 'address text')
    else:
        rejects(lambda: UnlockHash.from_json(t), 'address {!r}'.format(t))


# ------------------------------------------------------------------ ERC20 addresses

@st.composite
def erc20_texts(draw):
    raw = draw(st.one_of(st.binary(min_size=20, max_size=20), st.binary(max_size=40)))
    t = gen.hexcase(raw.hex(), draw(st.integers(0, 2**80 - 1)))
    how = draw(st.sampled_from(['plain', 'plain', 'char', 'short', 'long']))
    pos = draw(st.integers(0, max(0, len(t) - 1)))
    if how == 'char' and t:
        t = t[:pos] + draw(st.sampled_from('g+-_ x.')) + t[pos + 1:]
    elif how == 'short':
        t = t[1:]
    elif how == 'long':
        t += draw(st.sampled_from(HEX))
    return {'t': draw(st.sampled_from(['0x', '0X', '0x', ''])) + t, 'raw': raw, 'how': how, 'uh': draw(gen.uh_any)}


def erc20(case, ctx):
    t, raw = case['t'], case['raw']
    digits = t[2:] if t[:2] in ('0x', '0X') else t
    ok = re.fullmatch('[0-9a-fA-F]{40}', digits) is not None
    ctx.label('valid' if ok else 'invalid')
    ctx.nontrivial(digits)
    eq(ERC20Address.is_valid_value(t), ok, 'is_valid_value({!r})'.format(t))
    eq(ERC20Address.is_valid_value(raw), len(raw) == 20, 'is_valid_value of {} bytes'.format(len(raw)))
    if ok:
        a = ERC20Address(value=t)
        eq(a.value, bytes.fromhex(digits), 'ERC20 address')
        for got in (str(a), a.json(), str(ERC20Address.from_json(str(a))), str(ERC20Address(value=bytes.fromhex(digits)))):
            eq(got, '0x' + digits.lower(), 'ERC20 address text')
        eq(ERC20Address.is_valid_value(a), True, 'is_valid_value of an address')
    elif digits and not re.search(r'\s', digits):
        rejects(lambda: ERC20Address(value=t), 'ERC20 address {!r}'.format(t))
    u = case['uh']
    derived = ERC20Address.from_unlockhash(build.uh(u))
    eq(derived.value, ref.erc20_of(u), 'withdraw address of {}'.format(ref.uh_text(u)))


# ------------------------------------------------------------------ public keys

@st.composite
def key_texts(draw):
    p = draw(gen.pk)
    t = ref.pk_text(p)
    how = draw(st.sampled_from(['valid', 'valid', 'specifier', 'shorter', 'longer', 'nonhex', 'nocolon']))
    if how == 'specifier':
        t = draw(st.sampled_from(['ed25518', 'ED25519', 'rsa', 'ed25519 ', '1', ' ', '\t', 'None', 'nil', '0'])) + t[7:]
    elif how == 'shorter':
        t = t[:-draw(st.integers(1, 63))]
    elif how == 'longer':
        t += draw(st.text(HEX + ':', min_size=1, max_size=4))
    elif how == 'nonhex':
        pos = draw(st.integers(8, 71))
        t = t[:pos] + draw(st.sampled_from('gz-+_')) + t[pos + 1:]
    elif how == 'nocolon':
        t = t.replace(':', draw(st.sampled_from(['', ' ', ';'])))
    return {'p': p, 't': t, 'how': how}


def keys(case, ctx):
    p, t = case['p'], case['t']
    ctx.label(case['how'])
    ctx.nontrivial()
    a = build.pk(p)
    eq(str(a), ref.pk_text(p), 'public key text')
    eq(a.json(), ref.pk_text(p), 'public key JSON')
    eq(str(a.unlockhash), ref.uh_text(ref.pk_uh(p)), 'address of the public key')
    if case['how'] == 'valid':
        b = PublicKey.from_json(t)
        eq(str(b), t, 'decoded public key')
        eq(b.hash.value, p[1], 'decoded public key hash')
        eq(str(b.unlockhash), ref.uh_text(ref.pk_uh(p)), 'address of the decoded public key')
    else:
        rejects(lambda: PublicKey.from_json(t), 'public key {!r}'.format(t))


# ------------------------------------------------------------------ identifiers

def identifiers(case, ctx):
    raw, t = case['raw'], case['raw'].hex()
    ctx.nontrivial(len(raw) != 32)
    ctx.label('{} bytes'.format('32' if len(raw) == 32 else 'other'))
    for cls, prefix in ((Hash, ''), (ERC20Hash, '0x')):
        if len(raw) == 32:
            for v in (raw, bytearray(raw), t, t.upper(), prefix + t):
                h = cls(value=v)
                eq(h.value, raw, '{}({!r})'.format(cls.__name__, v))
                eq(str(h), prefix + t, 'identifier text')
                eq(h.json(), prefix + t, 'identifier JSON')
                eq(cls.from_json(h.json()).value, raw, 'decoded identifier')
                eq(h == cls(value=raw), True, 'equal identifiers')
                eq(hash(h), hash(cls(value=raw)), 'hash of equal identifiers')
                flipped = bytes([raw[0] ^ 1]) + raw[1:]
                eq(h == cls(value=flipped), False, 'different identifiers')
                eq(h != cls(value=flipped), True, 'different identifiers')
                eq(h == flipped, False, 'identifier and different bytes')
        elif raw:
            for v in (raw, t):
                rejects(lambda: cls(value=v), 'identifier of {} bytes'.format(len(raw)))
            rejects(lambda: cls.from_json(t), 'identifier of {} bytes'.format(len(raw)))
            h = cls(value=b'\5' * 32)
            try:
                h.value = raw
            except ValueError:
                pass
            eq(h.value, b'\5' * 32, 'identifier after a refused assignment')


uh_pair = st.one_of(st.tuples(gen.uh_any, gen.uh_any), gen.uh_any.map(lambda u: (u, u)),
                    gen.b32.map(lambda b: ([1, b], [3, b])))
# ------------------------------------------------------------------ what is shown follows what was set

def edited(case, ctx):
    a, k = build.uh(case['u']), build.pk(case['k'])
    b, j = UnlockHash.from_json(str(a)), PublicKey.from_json(str(k))
    u, p = list(case['u']), list(case['k'])
    for step in [None] + case['steps']:
        if step is not None:
            what, v = step
            ctx.nontrivial(v != (u if what in ('type', 'hash') else p))
            if what == 'type':
                a.type = b.type = build.UHT[v[0]]
                u[0] = v[0]
            elif what == 'hash':
                a.hash = b.hash = v[1]
                u[1] = v[1]
            elif what == 'specifier':
                k.specifier = j.specifier = build.pk(v).specifier
                p[0] = v[0]
            elif what == 'key':
                k.hash = j.hash = v[1]
                p[1] = v[1]
            else:
                k.hash.value = j.hash.value = v[1]
                p[1] = v[1]
        for x in (a, b):
            eq([str(x), x.json(), int(x.type), bytes(x.hash.value)], [ref.uh_text(u)] * 2 + u, 'address after changes')
            check(x == build.uh(u) and hash(x) == hash(build.uh(u)), 'address {} is not equal to itself', x)
            if u[0] or not any(u[1]):   # (otherwise there is no such address: no text is read as one)
                check(x == ref.uh_text(u), 'address {} is not equal to its text', x)
            eq([sia_encode(x), rivine_encode(x)], [bytes(u[:1]) + u[1]] * 2, 'encodings of the address after changes')
        for x in (k, j):
            eq([str(x), x.json(), bytes(x.hash.value)], [ref.pk_text(p)] * 2 + p[1:], 'public key after changes')
            eq([sia_encode(x), rivine_encode(x)], [ref.S.pk(p), ref.R.pk(p)], 'encodings of the public key after changes')
            if p[0]:
                eq(str(x.unlockhash), ref.uh_text(ref.pk_uh(p)), 'address of the public key after changes')


pk_step = st.tuples(st.sampled_from(['specifier', 'key', 'key in place']), st.tuples(st.integers(0, 1), gen.b32).map(list)).map(list)
uh_step = st.tuples(st.sampled_from(['type', 'hash']), gen.uh_any).map(list)
SUBS = [
    Sub('edited', st.fixed_dictionaries({'u': gen.uh_any, 'k': st.tuples(st.integers(0, 1), gen.b32).map(list),
                                         'steps': st.lists(st.one_of(uh_step, pk_step), min_size=1, max_size=5)}), edited, 600, 8000, 'a change'),
    Sub('addresses', uh_pair.map(lambda p: {'u': p[0], 'w': p[1]}), addresses, 2500, 20000, 'an address which is not nil'),
    Sub('corruption', corrupted(), corruption, 5000, 80000, 'a text which is no address'),
    Sub('erc20', erc20_texts(), erc20, 2500, 20000, 'a text which is not empty'),
    Sub('keys', key_texts(), keys, 2000, 15000, 'every case'),
    Sub('identifiers', st.fixed_dictionaries({'raw': st.one_of(gen.b32, st.binary(max_size=70))}), identifiers, 1500, 10000,
        'not 32 bytes'),
]
