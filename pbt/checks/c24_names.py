"""C24: bot names and network addresses are validated and encoded as specified."""
import ipaddress
import socket

from hypothesis import strategies as st

from tfchain.encoders import encoder_rivine_get, encoder_sia_get
from tfchain.types.ThreeBot import BotName, NetworkAddress, ThreeBotTypesFactory

from pbt import gen, ref
from pbt.core import Sub, check, eq, rejects

LETTER = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
DIGIT = set('0123456789')
ALNUM = LETTER | DIGIT


def bot_name_ok(s):
    if len(s) > 63:
        return False
    for n, label in enumerate(s.split('.')):
        if not 5 <= len(label) <= (63 if n == 0 else 57):
            return False
        if label[0] not in LETTER or label[-1] not in ALNUM or any(c not in ALNUM and c != '-' for c in label):
            return False
    return True


def host_ok(s):
    parts = s.split('.')
    if len(s) > 63 or len(parts) not in (2, 3):
        return False
    first = parts[0]
    if len(first) <= 2:
        # one letter, two letters, or a letter and a digit
        good = 0 < len(first) and all(c in ALNUM for c in first) and any(c in LETTER for c in first)
    else:
        good = len(first) <= 63 and first[0] in ALNUM and first[-1] in ALNUM and all(c in ALNUM or c in '-_' for c in first)
    if not good:
        return False
    last = parts[-1]
    if len(parts) == 2:
        return 2 <= len(last) <= 6 and all(c in LETTER for c in last)
    mid = parts[1]
    return 2 <= len(mid) <= 30 and all(c in ALNUM or c == '-' for c in mid) and 2 <= len(last) <= 3 and all(c in LETTER for c in last)


def address(s):
    """(type, raw) of a network address text, None when it is none"""
    if host_ok(s):
        return 0, s.encode()
    if not s.isascii() or '\0' in s:
        return None
    for family, kind in ((socket.AF_INET, 1), (socket.AF_INET6, 2)):
        try:
            raw = socket.inet_pton(family, s)
        except OSError:
            continue
        if raw[:12] == bytes(10) + b'\xff\xff':
            return 1, raw[12:]
        return kind, raw
    return None


def written(kind, raw):
    if kind == 0:
        return raw.decode()
    return str(ipaddress.ip_address(raw))


def encodings(x):
    s, r = encoder_sia_get(), encoder_rivine_get()
    s.add(x)
    r.add(x)
    return bytes(s.data), bytes(r.data)


# ------------------------------------------------------------------ names

@st.composite
def name_text(draw):
    """names around the limits: mostly right, with one thing wrong"""
    labels = draw(st.lists(st.one_of(gen.bot_label, gen.bot_label, st.sampled_from([4, 5, 6, 56, 57, 58, 61, 62, 63, 64]).map(lambda n: 'a' * n),
                                     st.text(sorted(ALNUM) + ['-'], min_size=0, max_size=9)), min_size=1, max_size=5))
    s = '.'.join(labels)
    if draw(st.booleans()):
        i = draw(st.integers(0, len(s)))
        s = s[:i] + draw(st.sampled_from(['', '.', '-', '_', ' ', '\n', '0', 'Z', 'é', '٣', ':', '\0', 'ſ'])) + s[i + draw(st.integers(0, 1)):]
    if draw(st.integers(0, 3)) == 0:
        s = s[:draw(st.sampled_from([62, 63, 64, 5, 4]))]
    return s


def name(case, ctx):
    s = case['s']
    ok = bot_name_ok(s)
    ctx.label('name' if ok else 'no name')
    ctx.nontrivial(ok or bot_name_ok(s[1:]) or bot_name_ok(s[:-1]) or any(bot_name_ok(s[:i] + 'x' + s[i + 1:]) for i in range(len(s))))
    makers = [lambda: BotName(value=s), lambda: BotName.from_json(s), lambda: ThreeBotTypesFactory().bot_name_new(s), lambda: ThreeBotTypesFactory().bot_name_from_json(s)]
    if not ok:
        for n, make in enumerate(makers):
            if not (s == '' and n in (1, 3)):   # (in JSON no name at all may be written as an empty text)
                rejects(make, 'bot name {!r}'.format(s))
        return
    for make in makers:
        x = make()
        eq([str(x), x.value, x.json()], [s] * 3, 'bot name')
        eq(encodings(x), (ref.s_slice(s.encode()), ref.r_slice(s.encode())), 'encodings of bot name ' + s)
        y = BotName(value=x)
        eq([str(y), str(BotName.from_json(x.json()))], [s] * 2, 'bot name read back')
        rejects(lambda: setattr(y, 'value', s + '.'), 'bot name {!r}'.format(s + '.'))
        eq(str(y), s, 'bot name after a refused change')


# ------------------------------------------------------------------ network addresses

@st.composite
def address_text(draw):
    kind = draw(st.sampled_from(['host', 'host', 'limits', 'v4', 'v6', 'mapped', 'near mapped', 'groups', 'octets', 'zone']))
    if kind == 'host':
        s = draw(gen.hostname)
    elif kind == 'limits':
        n = draw(st.sampled_from([1, 2, 3, 4, 30, 31, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64]))
        m = draw(st.sampled_from([0, 1, 2, 3, 29, 30, 31]))
        s = draw(st.sampled_from(['a', '0', 'B'])) * n + '.' + ('b' * m + '.' if m else '') + 'c' * draw(st.integers(1, 7))
    elif kind == 'v4':
        s = draw(gen.ipv4)
    elif kind == 'v6':
        s = draw(gen.ipv6)
        if draw(st.booleans()):
            s = s.upper()
    elif kind == 'mapped':
        s = draw(gen.ip4in6)
        if draw(st.booleans()):
            s = ipaddress.ip_address(s).exploded
    elif kind == 'near mapped':
        # addresses which only look like an IPv4 address written as IPv6
        raw = bytearray(bytes(10) + b'\xff\xff' + draw(st.binary(min_size=4, max_size=4)))
        how = draw(st.sampled_from(['bit', 'byte', 'compatible', 'translated', 'well-known', 'shifted']))
        if how == 'bit':
            n = draw(st.integers(0, 95))
            raw[n // 8] ^= 1 << n % 8
        elif how == 'byte':
            raw[draw(st.integers(0, 11))] = draw(st.sampled_from([0, 1, 0xfe, 0xff]))
        elif how == 'compatible':
            raw[10:12] = bytes(2)
        elif how == 'translated':
            raw[8:12] = b'\xff\xff\0\0'
        elif how == 'well-known':
            raw[:12] = b'\0\x64\xff\x9b' + bytes(8)
        else:
            n = draw(st.integers(1, 15))
            raw = raw[n:] + raw[:n]
        a = ipaddress.IPv6Address(bytes(raw))
        s = draw(st.sampled_from([str(a), a.exploded, str(a).upper()]))
    elif kind == 'groups':
        g = draw(st.lists(st.sampled_from(['0', '1', 'ffff', 'FFFF', '00ab', '12345', '', 'g', '1.2.3.4', '0000']), min_size=1, max_size=9))
        s = ':'.join(g)
    elif kind == 'octets':
        s = '.'.join(draw(st.lists(st.sampled_from(['0', '1', '255', '256', '00', '01', '', '-1', '1e', '12']), min_size=3, max_size=5)))
    else:
        s = draw(gen.ipv6) + '%' + draw(st.sampled_from(['eth0', '1', '', 'a%b']))
    if draw(st.integers(0, 4)) == 0:
        i = draw(st.integers(0, len(s)))
        s = s[:i] + draw(st.sampled_from(['', '.', '-', '_', ' ', '\n', '0', 'Z', 'é', '٣', ':', '/', '\0', '1'])) + s[i + draw(st.integers(0, 1)):]
    return s


TYPES = {0: NetworkAddress.Type.HOSTNAME, 1: NetworkAddress.Type.IPV4, 2: NetworkAddress.Type.IPV6}


def net(case, ctx):
    s = case['s']
    want = address(s)
    ctx.label({None: 'none', 0: 'host', 1: 'IPv4', 2: 'IPv6'}[want and want[0]])
    makers = [lambda **k: NetworkAddress(address=s, **k), lambda **k: ThreeBotTypesFactory().network_address_new(s, **k),
              lambda **k: NetworkAddress.from_json(s), lambda **k: ThreeBotTypesFactory().network_address_from_json(s)]
    if want is None:
        for n, make in enumerate(makers):
            if not (s == '' and n > 1):
                rejects(make, 'network address {!r}'.format(s))
        return
    ctx.nontrivial()
    kind, raw = want
    bin_ = bytes([kind | len(raw) << 2]) + raw
    for make in makers:
        for k in [{}] + ([{'network_type': TYPES[kind]}] if make in makers[:2] else []):
            x = make(**k)
            eq([str(x), x.value, x.json()], [written(kind, raw)] * 3, 'network address {!r}'.format(s))
            eq(encodings(x), (bin_, bin_), 'encodings of network address {!r}'.format(s))
            for y in (NetworkAddress(address=x), NetworkAddress.from_json(x.json()), NetworkAddress(address=str(x))):
                eq((str(y), encodings(y)), (str(x), (bin_, bin_)), 'network address {!r} read back'.format(s))
            rejects(lambda: setattr(y, 'value', s + '..'), 'network address {!r}'.format(s + '..'))
            eq(encodings(y), (bin_, bin_), 'network address after a refused change')
    for t in TYPES:
        if t != kind:
            for make in makers[:2]:
                rejects(lambda: make(network_type=TYPES[t]), 'network address {!r} as type {}'.format(s, t))
    for t in (0, 'hostname'):
        rejects(lambda: NetworkAddress(address=s, network_type=t), 'network type {!r}'.format(t))


def absent(case, ctx):
    ctx.nontrivial()
    for x in (BotName(), BotName(value=None), BotName.from_json(''), BotName.from_json(None)):
        eq((x.value, x.json(), encodings(x)), ('', '', (bytes(8), b'\0')), 'no bot name')
    for x in (NetworkAddress(), NetworkAddress(address=None), NetworkAddress.from_json(''), NetworkAddress.from_json(None)):
        eq((str(x), x.json(), encodings(x)), ('', '', (b'\0', b'\0')), 'no network address')
    for v in (1.5, b'aaaaa', ['aaaaa'], {}):
        rejects(lambda: BotName(value=v), 'bot name {!r}'.format(v))
        rejects(lambda: BotName.from_json(v), 'bot name {!r}'.format(v))
        rejects(lambda: NetworkAddress.from_json(v), 'network address {!r}'.format(v))
        if not isinstance(v, bytes):
            rejects(lambda: NetworkAddress(address=v), 'network address {!r}'.format(v))


# ------------------------------------------------------------------ what is shown follows what was set

def edited(case, ctx):
    x, y = BotName(), NetworkAddress()
    s, a = '', ''
    for what, v in case['steps']:
        ctx.nontrivial()
        if what == 'name':
            x.value = v
            s = v
        elif what == 'no name':
            x.value = None
            s = ''
        elif what == 'bad name':
            rejects(lambda: setattr(x, 'value', v + '..'), 'bot name')
        elif what == 'address':
            y.value = v
            a = v
        elif what == 'no address':
            y.value = None
            a = ''
        else:
            rejects(lambda: setattr(y, 'value', v + '..'), 'network address')
        eq((str(x), x.value, x.json(), encodings(x)), (s, s, s, (ref.s_slice(s.encode()), ref.r_slice(s.encode()))), 'bot name after changes')
        kind, raw = address(a) if a else (0, b'')
        bin_ = bytes([kind | len(raw) << 2]) + raw
        want = written(kind, raw)
        eq((str(y), y.json(), encodings(y)), (want, want, (bin_, bin_)), 'network address after changes')


step = st.one_of(st.tuples(st.sampled_from(['name', 'name', 'no name', 'bad name']), gen.bot_name).map(list),
                 st.tuples(st.sampled_from(['address', 'address', 'address', 'no address', 'bad address']), gen.network_address).map(list))
SUBS = [
    Sub('edited', st.fixed_dictionaries({'steps': st.lists(step, min_size=1, max_size=6)}), edited, 1000, 10000, 'every case'),
    Sub('name', st.fixed_dictionaries({'s': st.one_of(name_text(), name_text(), gen.bot_name)}), name, 4000, 80000, 'a bot name, or one character away from one'),
    Sub('address', st.fixed_dictionaries({'s': address_text()}), net, 4000, 80000, 'a network address'),
    Sub('absent', st.just({}), absent, 1, 1, 'every case', shards=1),
]
ASSUMPTIONS = ['an IP address is what the C library (inet_pton) reads as one']
