"""C26: binary values and hashes are values."""
import base64
import binascii

from hypothesis import strategies as st

from tfchain.encoders import encoder_rivine_get, encoder_sia_get
from tfchain.types.FulfillmentTypes import ED25519Signature
from tfchain.types.PrimitiveTypes import BinaryData, Blockstake, Hash

from pbt import gen, ref
from pbt.core import Sub, check, eq, rejects

ENC = [None, 'hex', 'HEX ', 'base64', ' Base64', 'hexprefix', 'HexPrefix']


def text(b, enc):
    e = (enc or 'hex').strip().lower()
    return base64.b64encode(b).decode() if e == 'base64' else ('0x' if e == 'hexprefix' else '') + b.hex()


def encodings(x):
    s, r = encoder_sia_get(), encoder_rivine_get()
    s.add(x)
    r.add(x)
    return bytes(s.data), bytes(r.data)


def is_value(x, b, enc, fixed, what):
    eq(bytes(x.value), b, what)
    eq(len(x), len(b), 'length of ' + what)
    eq([str(x), x.json()], [text(b, enc)] * 2, 'text of ' + what)
    want = (b, b) if fixed else (ref.s_slice(b), ref.r_slice(b))
    eq(encodings(x), want, 'encodings of ' + what)


def spellings(b, enc, flips):
    """every accepted way to write these bytes"""
    t = text(b, enc)
    e = (enc or 'hex').strip().lower()
    out = [bytes(b), bytearray(b), t]
    if e != 'base64':
        h = gen.hexcase(b.hex(), flips)
        out.append(h)
        if e == 'hexprefix':
            out += ['0x' + h, '0X' + h]
    if not b:
        out.append(None)
    return out


def values(case, ctx):
    b, enc = case['b'], ENC[case['enc']]
    size = {'none': None, 'zero': 0, 'exact': len(b) or None, 'other': len(b) + case['d']}[case['size']]
    fixed = size is not None
    fits = size in (None, 0, len(b)) or not b
    ctx.label('{}, {}'.format((enc or 'hex').strip().lower(), case['size']))
    ctx.nontrivial(len(b) > 0)
    what = '{} as {} of size {}'.format(b.hex(), enc, size)
    forms = spellings(b, enc, case['flips'])
    made = []
    for f in forms:
        make = lambda: BinaryData(value=f, fixed_size=size, strencoding=enc)
        if not fits:
            rejects(make, 'binary data {!r} for size {}'.format(f, size))
            continue
        makers = [make]
        if f is None or isinstance(f, str):
            makers.append(lambda: BinaryData.from_json(f, fixed_size=size, strencoding=enc))
        for m in makers:
            if size == 0 and not b:
                fixed = True   # (an empty one of the size of its value)
            x = m()
            is_value(x, b, enc, fixed and size is not None, what)
            made.append(x)
            again = BinaryData.from_json(x.json(), fixed_size=size, strencoding=enc)
            is_value(again, b, enc, fixed, what + ', read back')
            check(again == x and not again != x and hash(again) == hash(x), '{} is not equal to itself, read back', what)
            copied = BinaryData(value=x, fixed_size=size, strencoding=enc)
            check(copied == x and hash(copied) == hash(x), '{} is not equal to its copy', what)
            check(x == f if f is not None else True, '{} is not equal to what it was made from', what)
    other = case['o']
    if fits and made:
        x = made[0]
        if len(other) == len(b) or not fixed:
            y = BinaryData(value=other, fixed_size=size, strencoding=enc)
            eq(x == y, other == b, 'equality of {} and {}'.format(b.hex(), other.hex()))
            eq(x != y, other != b, 'inequality of {} and {}'.format(b.hex(), other.hex()))
            eq(x == bytes(other), other == b, 'equality of {} and the bytes {}'.format(b.hex(), other.hex()))
            eq(len({x, y, made[-1]}), 1 if other == b else 2, 'different values in a set')


def aliasing(case, ctx):
    """changing what a value was made from, or a copy, does not change the value"""
    b, n = case['b'], case['n']
    ctx.nontrivial()
    size = 32 if case['cls'] == 'hash' else 64 if case['cls'] == 'sig' else len(b) + 1
    b = (b * 64)[:size] if b else bytes(size)
    new = {'hash': lambda v: Hash(value=v), 'sig': lambda v: ED25519Signature(value=v), 'binary': lambda v: BinaryData(value=v),
           'fixed': lambda v: BinaryData(value=v, fixed_size=size)}[case['cls']]
    if case['from'] == 'bytearray':
        source = bytearray(b)
        x = new(source)
        source[n % size] ^= 1
    elif case['from'] == 'setter':
        source = bytearray(b)
        x = new(None)
        x.value = source
        source[n % size] ^= 1
    elif case['from'] == 'memory':
        source = new(b)
        x = new(source)
        source.value[n % size] ^= 1
    else:
        source = new(b)
        x = new(None)
        x.value = source
        source.value.reverse()
        source.value[n % size] ^= 1
    eq(bytes(x.value), b, '{} made from {}, after changing that'.format(case['cls'], case['from']))
    eq(str(x), b.hex(), 'its text')


def sized(case, ctx):
    """hashes and signatures"""
    b = case['b']
    for cls, size, name in ((Hash, 32, 'hash'), (ED25519Signature, 64, 'signature')):
        ctx.nontrivial(abs(len(b) - size) <= 1)
        ok = len(b) in (0, size)
        for f in spellings(b, 'hex', case['flips']):
            makers = [lambda: cls(value=f)] + ([lambda: cls.from_json(f)] if f is None or isinstance(f, str) else [])
            for m in makers:
                if not ok:
                    rejects(m, '{} {!r}'.format(name, f))
                    continue
                x = m()
                want = bytes(32) if cls is Hash and not b else b
                eq(bytes(x.value), want, '{} of {!r}'.format(name, f))
                eq([str(x), x.json()], [want.hex()] * 2, 'text of the ' + name)
                if cls is Hash:
                    eq(encodings(x), (want, want), 'encodings of the hash')
                else:
                    eq(encodings(x), (ref.s_slice(want), ref.r_slice(want)), 'encodings of the signature')
                    y = ED25519Signature(value=f, as_array=True)
                    eq(encodings(y), (ref.s_slice(want), want), 'encodings of the signature as an array')
                check(cls(value=x) == x and hash(cls.from_json(x.json())) == hash(x), 'the {} {} is not equal to its copy', name, x)
                old = want
                rejects(lambda: setattr(x, 'value', b'\1' * (size - 1)), '{} of {} bytes'.format(name, size - 1))
                eq(bytes(x.value), old, name + ' after a refused change')
                x.value = None
                eq(bytes(x.value), bytes(32) if cls is Hash else b'', name + ' without value')


# ------------------------------------------------------------------ what is shown follows what was set

def edited(case, ctx):
    enc = ENC[case['enc']]
    size = case['size']
    fit = lambda v: (v * 70)[:size] if size and v else v
    b = fit(case['b'])
    x = BinaryData(value=b, fixed_size=size, strencoding=enc)
    h, g, n = Hash(value=b) if size == 32 else None, ED25519Signature(value=b) if size == 64 else None, Blockstake(value=1)
    old = {}
    stake = 1
    for step in [None] + case['steps']:
        if step is not None:
            how, v = step
            v = fit(v)
            if how == 'none':
                v = b''
            ctx.nontrivial(v != b)
            stake = int.from_bytes(v[:8], 'big')
            n.value = stake if len(v) % 2 else str(stake)
            for z in (x, h, g):
                if z is None:
                    continue
                if how == 'in place':
                    # (an array which is changed without changing its size)
                    if v and len(z.value) == len(v):
                        z.value[:] = v
                    else:
                        z.value = v
                else:
                    z.value = {'bytes': v, 'array': bytearray(v), 'text': text(v, enc if z is x else 'hex'), 'object': BinaryData(value=v), 'none': None}[how]
            b = v
        what = 'value after {}'.format(step and step[0])
        is_value(x, b, enc, size is not None, what)
        y = BinaryData(value=b, fixed_size=size, strencoding=enc)
        check(x == y and hash(x) == hash(y) and len({x, y}) == 1, '{} is not equal to another of its value', what)
        for z in (h, g):
            if z is None:
                continue
            w = b if b or z is g else bytes(32)
            eq([bytes(z.value), str(z), z.json()], [w, w.hex(), w.hex()], what)
            check(z == type(z)(value=b) and hash(z) == hash(type(z)(value=b)), '{} is not equal to another of its value', what)
            eq(encodings(z), (w, w) if z is h else (ref.s_slice(w), ref.r_slice(w)), 'encodings of the ' + what)
        raw = ref.be(stake)
        eq((int(n), str(n), n.json(), encodings(n)), (stake, str(stake), str(stake), (ref.s_int(len(raw)) + raw, ref.r_slice(raw))), 'block stakes after a change')


BAD = ['0', 'abc', 'zz', '0x', 'g0', 'é0', '00 0', '0x0', '٣٣']


def nonsense(case, ctx):
    ctx.nontrivial()
    v = case['v']
    if isinstance(v, dict):
        v = {'int': 5, 'float': 0.5, 'list': [1, 2], 'dict': {}, 'bool': True}[v['t']]
    for what, make in (('binary data', lambda: BinaryData(value=v)), ('hash', lambda: Hash(value=v)), ('hash', lambda: Hash.from_json(v)),
                       ('signature', lambda: ED25519Signature(value=v)), ('signature', lambda: ED25519Signature.from_json(v)),
                       ('binary data', lambda: BinaryData.from_json(v))):
        rejects(make, '{} {!r}'.format(what, v))
    for v in (b'\0' * 32, bytearray(32)):
        for cls in (Hash, BinaryData, ED25519Signature):
            rejects(lambda: cls.from_json(v), 'JSON ' + repr(v))
    for size in (-1, '3', 1.5):
        rejects(lambda: BinaryData(value=b'', fixed_size=size), 'size {!r}'.format(size))
    for enc in ('utf-8', '', 5, 'base32'):
        rejects(lambda: BinaryData(value=b'', strencoding=enc), 'text form {!r}'.format(enc))


ALPHABET = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def b64_ok(s):
    """well-formed base64, by its definition"""
    if len(s) % 4:
        return False
    core = s.rstrip('=')
    return len(s) - len(core) <= 2 and all(c in ALPHABET for c in core)


def base64_text(case, ctx):
    s = case['s']
    ok = b64_ok(s)
    if not ok and all(c in ALPHABET for c in s.rstrip('=')):
        return   # only the padding is off: left open
    ctx.label('good' if ok else 'bad')
    ctx.nontrivial(not ok)
    if not ok:
        rejects(lambda: BinaryData(value=s, strencoding='base64'), 'base64 text {!r}'.format(s))
        return
    core = s.rstrip('=')
    n = 0
    for c in core:
        n = n << 6 | ALPHABET.index(c)
    size = len(core) * 6 // 8
    want = (n >> (len(core) * 6 - size * 8)).to_bytes(size, 'big')
    eq(bytes(BinaryData(value=s, strencoding='base64').value), want, 'base64 text {!r}'.format(s))


@st.composite
def base64_texts(draw):
    s = base64.b64encode(draw(st.binary(max_size=20))).decode()
    if draw(st.booleans()):
        i = draw(st.integers(0, len(s)))
        s = s[:i] + draw(st.sampled_from(['', '=', '!', ' ', '\n', '-', '_', 'é', 'A', '\0', '.'])) + s[i + draw(st.integers(0, 1)):]
    return s


def stakes(case, ctx):
    v = case['v']
    ctx.nontrivial(v > 255)
    raw = ref.be(v)
    want = (ref.s_int(len(raw)) + raw, ref.r_slice(raw))
    for x in (Blockstake(value=v), Blockstake(value=str(v)), Blockstake.from_json(str(v)), Blockstake.from_json(Blockstake(value=v).json())):
        eq((int(x), str(x), x.json(), x.value), (v, str(v), str(v), v), 'block stakes')
        eq(encodings(x), want, 'encodings of {} block stakes'.format(v))
    x = Blockstake(value=v)
    for bad in (-1 - v, str(-1 - v), 1.5, b'1', '1.5', '', 'x', [1]):
        if bad == '':
            continue
        rejects(lambda: Blockstake(value=bad), '{!r} block stakes'.format(bad))
        rejects(lambda: setattr(x, 'value', bad), '{!r} block stakes'.format(bad))
        eq(int(x), v, 'block stakes after a refused change')
    rejects(lambda: Blockstake.from_json(v), 'block stakes in JSON as a number')
    for none in (Blockstake(), Blockstake(value=None), Blockstake.from_json(''), Blockstake.from_json(None)):
        eq((int(none), none.json()), (0, '0'), 'no block stakes')


lengths = st.one_of(st.sampled_from([0, 31, 32, 33, 63, 64, 65]).flatmap(lambda n: st.binary(min_size=n, max_size=n)), st.binary(max_size=70))
SUBS = [
    Sub('edited', st.fixed_dictionaries({'b': st.binary(max_size=8), 'enc': st.integers(0, len(ENC) - 1), 'size': st.sampled_from([None, None, 32, 64]),
                                         'steps': st.lists(st.tuples(st.sampled_from(['bytes', 'array', 'text', 'object', 'none', 'in place']), st.binary(max_size=8)).map(list),
                                                           min_size=1, max_size=5)}), edited, 800, 10000, 'another value'),
    Sub('values', st.fixed_dictionaries({
        'b': st.binary(max_size=40), 'enc': st.integers(0, len(ENC) - 1), 'size': st.sampled_from(['none', 'none', 'zero', 'exact', 'other']),
        'd': st.integers(1, 3), 'flips': st.integers(0, 2**64), 'o': st.binary(max_size=4)}), values, 1500, 30000, 'at least one byte'),
    Sub('aliasing', st.fixed_dictionaries({'b': st.binary(max_size=20), 'n': st.integers(0, 63), 'cls': st.sampled_from(['hash', 'sig', 'binary', 'fixed']),
                                           'from': st.sampled_from(['bytearray', 'setter', 'memory', 'reuse'])}), aliasing, 600, 6000, 'every case'),
    Sub('sized', st.fixed_dictionaries({'b': lengths, 'flips': st.integers(0, 2**64)}), sized, 1000, 15000, 'within a byte of the size'),
    Sub('nonsense', st.fixed_dictionaries({'v': st.sampled_from(BAD[:3] + BAD[4:] + [{'t': t} for t in ('int', 'float', 'list', 'dict', 'bool')])}),
        nonsense, 60, 60, 'every case', shards=1),
    Sub('base64', st.fixed_dictionaries({'s': base64_texts()}), base64_text, 1200, 20000, 'not base64'),
    Sub('stakes', st.fixed_dictionaries({'v': gen.stakes}), stakes, 500, 5000, 'more than a byte'),
]
