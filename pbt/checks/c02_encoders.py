"""C02: the two binary encodings."""
import decimal
import fractions

from hypothesis import strategies as st

from tfchain.encoders import encoder_rivine_get, encoder_sia_get, rivine_encode, sia_encode
from tfchain.types.PrimitiveTypes import Currency, Hash

from pbt import gen, ref
from pbt.build import units
from pbt.core import Sub, check, eq, rejects

LIMITS = {'int8': 8, 'int16': 16, 'int24': 24, 'int32': 32, 'int64': 64}
_edges = sorted({2**k + d for k in (0, 7, 8, 15, 16, 23, 24, 31, 32, 63, 64, 70) for d in (-1, 0, 1)} | {-1, -2**63, -256})
ints = st.one_of(st.sampled_from(_edges), st.integers(0, 2**64 - 1), st.integers(0, 300), st.integers(-5, 2**66))


# ------------------------------------------------------------------ values

def values(depth=2):
    leaf = st.one_of(
        st.integers(0, 2**64 - 1).map(lambda n: {'t': 'int', 'v': n}),
        st.integers(0, 3).map(lambda n: {'t': 'int', 'v': n}),
        st.booleans().map(lambda b: {'t': 'bool', 'v': b}),
        st.text(max_size=12).map(lambda s: {'t': 'str', 'v': s}),
        st.text('aé€😀', max_size=140).map(lambda s: {'t': 'str', 'v': s}),
        st.tuples(st.sampled_from(['bytes', 'bytearray']), st.binary(max_size=40)).map(lambda t: {'t': t[0], 'v': t[1]}),
        st.tuples(st.sampled_from([0, 1, 63, 64, 126, 127, 128, 129, 255, 256, 300, 16383, 16384, 16385]), st.integers(0, 255)).map(
            lambda t: {'t': 'fill', 'n': t[0], 'b': t[1]}),
        gen.b32.map(lambda b: {'t': 'hash', 'v': b}),
        gen.units.map(lambda n: {'t': 'currency', 'v': n}))
    if not depth:
        return leaf
    inner = values(depth - 1)
    return st.one_of(leaf, st.tuples(st.sampled_from(['list', 'tuple', 'iter', 'generator']), st.lists(inner, max_size=4)).map(
        lambda t: {'t': t[0], 'v': t[1]}), st.integers(120, 140).map(lambda n: {'t': 'list', 'v': [{'t': 'bool', 'v': True}] * n}))


SEQ = ('list', 'tuple', 'iter', 'generator')


def real(v):
    t = v['t']
    if t in SEQ:
        items = [real(x) for x in v['v']]
        return {'list': lambda: items, 'tuple': lambda: tuple(items), 'iter': lambda: iter(items),
                'generator': lambda: (x for x in items)}[t]()
    if t == 'fill':
        return bytes([v['b']]) * v['n']
    if t == 'bytearray':
        return bytearray(v['v'])
    if t == 'hash':
        return Hash(value=v['v'])
    if t == 'currency':
        return units(v['v'])
    return v['v']


def body(v, enc):
    """encoding as an array: without the length"""
    t = v['t']
    if t == 'str':
        return v['v'].encode('utf-8')
    if t in ('bytes', 'bytearray'):
        return v['v']
    if t == 'fill':
        return bytes([v['b']]) * v['n']
    return b''.join(full(x, enc) for x in v['v'])


def full(v, enc):
    t = v['t']
    if t == 'bool':
        return b'\1' if v['v'] else b'\0'
    if t == 'int':
        return v['v'].to_bytes(8, 'little')
    if t == 'hash':
        return v['v']
    if t == 'currency':
        return enc.currency(v['v'])
    b = body(v, enc)
    n = len(v['v']) if t in SEQ else len(b)
    return (ref.s_int(n) if enc.sia else ref.r_len(n)) + b


def slicelike(v):
    return v['t'] not in ('int', 'bool', 'hash', 'currency')


def encodes(case, ctx):
    vs = case['vs']
    ctx.nontrivial(any(v['t'] in SEQ and v['v'] for v in vs) or len(vs) > 1)
    for enc, encode, new in ((ref.R, rivine_encode, encoder_rivine_get), (ref.S, sia_encode, encoder_sia_get)):
        name = 'Sia' if enc.sia else 'Rivine'
        eq(encode(*[real(v) for v in vs]), b''.join(full(v, enc) for v in vs), name + ' encoding')
        e, other = new(), new()
        want = b''
        for v in vs:
            e.add(real(v))
            want += full(v, enc)
            eq(e.data, want, name + ' encoding so far')
            if slicelike(v):
                e.add_slice(real(v))
                want += full(v, enc)
                eq(e.data, want, name + ' slice')
                e.add_array(real(v))
                want += body(v, enc)
                eq(e.data, want, name + ' array')
        eq(other.data, b'', 'a second encoder')
        e.reset()
        eq(e.data, b'', 'encoder after reset')
        e.add_all(*[real(v) for v in vs])
        eq(e.data, b''.join(full(v, enc) for v in vs), name + ' encoding after reset')


# ------------------------------------------------------------------ integers

def integers(case, ctx):
    n = case['n']
    e = encoder_rivine_get()
    want = bytearray(b'\7')
    e.add_int8(7)
    for name, bits in LIMITS.items():
        fn = getattr(e, 'add_' + name)
        if 0 <= n < 1 << bits:
            fn(n)
            want += n.to_bytes(bits // 8, 'little')
        else:
            ctx.label('out of range')
            rejects(lambda: fn(n), 'Rivine {} of {}'.format(name, n))
        eq(e.data, bytes(want), 'data after {} of {}'.format(name, n))
    s = encoder_sia_get()
    s.add_byte(7)
    want_s = bytearray(b'\7')
    for enc, w in ((e, want), (s, want_s)):
        for fn, bits in ((enc.add_byte, 8), (enc.add, 64)) + (((s.add_int, 64),) if enc is s else ()):
            if 0 <= n < 1 << bits:
                fn(n)
                w += n.to_bytes(bits // 8, 'little')
            else:
                rejects(lambda: fn(n), '{}-bit integer {}'.format(bits, n))
            eq(enc.data, bytes(w), 'data after a {}-bit {}'.format(bits, n))
    ctx.nontrivial(n < 0 or n > 255)
    for enc in (e, s):
        for bad in (b'', b'ab', 'ab', '', 'é'):
            rejects(lambda: enc.add_byte(bad), 'add_byte({!r})'.format(bad))
        for fn in (enc.add_slice, enc.add_array) + ((enc.add_int64,) if enc is e else (enc.add_int,)):
            rejects(lambda: fn(None), 'encoding None')
        rejects(lambda: enc.add(None), 'encoding None')
        rejects(lambda: enc.add(object()), 'encoding an unknown object')
        # numbers that are no integers are not cut off
        for bad in (n % 200 + 0.5, decimal.Decimal(n % 200) + decimal.Decimal('0.25'), fractions.Fraction(2 * (n % 200) + 1, 2)):
            for fn in (enc.add_byte, enc.add) + ((enc.add_int8, enc.add_int16, enc.add_int24, enc.add_int32, enc.add_int64) if enc is e else (enc.add_int,)):
                rejects(lambda: fn(bad), 'encoding {!r}'.format(bad))
            rejects(lambda: (encoder_rivine_get() if enc is e else encoder_sia_get()).add_slice([1, bad]), 'encoding a list with {!r}'.format(bad))
    # other kinds of numbers, which are integers, within the limits only
    for kind in (decimal.Decimal, fractions.Fraction, lambda v: Currency(value=decimal.Decimal(v) / 10**9)):
        if n < 0 and kind not in (decimal.Decimal, fractions.Fraction):
            continue
        for enc, w in ((e, want), (s, want_s)):
            if 0 <= n < 256:
                enc.add_byte(kind(n))
                w += bytes([n])
            else:
                rejects(lambda: enc.add_byte(kind(n)), 'the number {} as a byte'.format(n))
    for name, bits in LIMITS.items():
        if 0 <= n < 1 << bits:
            getattr(e, 'add_' + name)(decimal.Decimal(n))
            want += n.to_bytes(bits // 8, 'little')
        else:
            rejects(lambda: getattr(e, 'add_' + name)(decimal.Decimal(n)), 'Rivine {} of {}'.format(name, n))
    eq([e.data, s.data], [bytes(want), bytes(want_s)], 'data after refused values')


# ------------------------------------------------------------------ lengths

lengths = st.one_of(st.integers(0, 2**15), st.integers(0, 200), st.sampled_from(
    [127, 128, 16383, 16384, 16385, 65535, 65536, 2**21 - 1, 2**21, 2**21 + 1]))


def slice_lengths(case, ctx):
    n, m = case['n'], case['m']
    ctx.nontrivial(n > 127)
    ctx.label('{} length bytes'.format(len(ref.r_len(n))))
    for unit, name in ((b'x', 'bytes'), ('x', 'text')):
        data = bytes(rivine_encode(unit * n))
        eq(data[:8], (ref.r_len(n) + b'x' * 8 + b'')[:min(8, len(data))], 'Rivine slice of {} {}'.format(n, name))
        eq(ref.r_len_decode(data), (n, len(data) - n), 'decoded Rivine slice length')
        sia = bytes(sia_encode(unit * n))
        eq(sia[:8], ref.s_int(n), 'Sia slice length')
        eq(len(sia), n + 8, 'Sia slice size')
    # nothing that is encoded as a slice is the beginning of another one
    a, b = bytes(rivine_encode(b'x' * n)), bytes(rivine_encode(b'x' * m))
    if n != m:
        check(not a.startswith(b) and not b.startswith(a), 'the encodings of slices of {} and {} bytes are ambiguous', n, m)


SUBS = [
    Sub('values', st.fixed_dictionaries({'vs': st.lists(values(), max_size=5)}), encodes, 2500, 40000,
        'a non-empty sequence value or several values'),
    Sub('integers', st.fixed_dictionaries({'n': ints}), integers, 2500, 30000, 'an integer beyond one byte, or negative'),
    Sub('lengths', st.fixed_dictionaries({'n': lengths, 'm': lengths}), slice_lengths, 1200, 8000, 'a slice of more than 127 bytes',
        examples=[{'n': n, 'm': m} for n, m in ((127, 128), (128, 16384), (16383, 16384), (2**21 - 1, 2**21))]),
]
ASSUMPTIONS = ['slices of 2^29 elements and more (512 MB) are not built']
