"""Generators of plain data (the plain forms are described in ref.py)."""
from hypothesis import strategies as st

from pbt import ref

ONE = 10**9          # one TFT
MAX_UNITS = 10**27   # amounts are kept within the precision of a Currency (28 digits), far above any real supply

b32 = st.one_of(st.binary(min_size=32, max_size=32),
                st.integers(0, 255).map(lambda i: bytes([i]) * 32),
                st.integers(0, 255).map(lambda i: bytes(31) + bytes([i])))
sig64 = st.one_of(st.binary(min_size=64, max_size=64), st.integers(1, 255).map(lambda i: bytes([i]) * 64))

pk = b32.map(lambda b: [1, b])
uh_pk = b32.map(lambda b: [1, b])                      # address of a (single signature) wallet
uh_wallet = st.one_of(uh_pk, b32.map(lambda b: [3, b]))  # ... or of a multi-signature wallet
uh_nil = st.just([0, bytes(32)])
uh_any = st.one_of(uh_pk, uh_pk, uh_nil, b32.map(lambda b: [2, b]), b32.map(lambda b: [3, b]))
uh_owner = st.one_of(uh_pk, uh_pk, uh_pk, uh_nil)

_edges = sorted({max(0, 256**k + d) for k in range(0, 12) for d in (-1, 0, 1)} |
                {10**k for k in range(0, 28)} | {ONE, ONE - 1, ONE + 1, 0})
units = st.one_of(st.integers(0, 10 * ONE), st.sampled_from([e for e in _edges if e <= MAX_UNITS]),
                  st.integers(0, MAX_UNITS), st.integers(0, 10**6).map(lambda n: n * ONE))
stakes = st.one_of(st.integers(0, 5000), st.integers(0, 2**64), st.sampled_from([255, 256, 65535, 65536]))

timestamps = st.one_of(st.integers(500_000_000, 2**33), st.sampled_from([500_000_000, 2**32 - 1, 2**32]))
locks = st.one_of(st.integers(0, 1000), st.integers(0, 499_999_999), timestamps,
                  st.sampled_from([0, 1, 499_999_999, 500_000_000, 500_000_001]))

condition_uh = uh_any.map(lambda u: {'k': 'uh', 'uh': u})
condition_swap = st.fixed_dictionaries({'k': st.just('swap'), 's': uh_owner, 'r': uh_owner, 'hs': b32, 'lt': timestamps})


@st.composite
def multisig(draw, max_size=6, owner=uh_owner, min_size=0, valid=False):
    uhs = draw(st.lists(owner, min_size=min_size, max_size=max_size, unique_by=ref.uh_text if valid else None))
    n = draw(st.integers(1 if valid else 0, len(uhs) if valid else len(uhs) + 2))
    return {'k': 'ms', 'n': n, 'uhs': uhs}


condition_plain = st.one_of(st.just({'k': 'nil'}), condition_uh, condition_uh, multisig())
condition_lock = st.tuples(locks, condition_plain).map(lambda t: {'k': 'lock', 'v': t[0], 'c': t[1]})
condition = st.one_of(condition_plain, condition_uh, condition_lock, condition_swap)

ful_single = st.tuples(pk, sig64).map(lambda t: {'k': 'single', 'pk': t[0], 'sig': t[1]})
ful_unsigned = st.just({'k': 'single', 'pk': [0, bytes(32)], 'sig': b''})
ful_swap = st.tuples(pk, sig64, st.one_of(st.none(), b32)).map(
    lambda t: {'k': 'swap', 'pk': t[0], 'sig': t[1], 'secret': t[2]})
ful_multi = st.lists(st.tuples(pk, sig64).map(list), max_size=5, unique_by=lambda p: p[0][1]).map(
    lambda ps: {'k': 'multi', 'pairs': ps})
fulfillment = st.one_of(ful_single, ful_single, ful_unsigned, ful_swap, ful_multi)

coin_input = st.fixed_dictionaries({'p': b32, 'f': fulfillment})
coin_output = st.fixed_dictionaries({'v': units, 'c': condition})
stake_output = st.fixed_dictionaries({'v': stakes, 'c': condition})

# ---- names and hosts: what the network accepts (see ref of the formats in DESIGN.md, C24)
_letter = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
_alnum = _letter + '0123456789'


def _label(first, mid, last, lo, hi):
    return st.tuples(st.sampled_from(first), st.text(mid, min_size=lo - 2, max_size=hi - 2), st.sampled_from(last)).map(''.join)


bot_label = _label(_letter, _alnum + '-', _alnum, 5, 12)
bot_name = st.lists(bot_label, min_size=1, max_size=4).map('.'.join)
host_label = st.one_of(_label(_alnum, _alnum + '-_', _alnum, 3, 14), st.sampled_from(list(_letter)))
tld = st.text(_letter, min_size=2, max_size=6)
hostname = st.one_of(st.tuples(host_label, tld).map('.'.join),
                     st.tuples(host_label, st.text(_alnum + '-', min_size=2, max_size=12),
                               st.text(_letter, min_size=2, max_size=3)).map('.'.join))
ipv4 = st.ip_addresses(v=4).map(str)
ipv6 = st.one_of(st.ip_addresses(v=6).map(str), st.ip_addresses(v=6).map(lambda a: a.exploded))
ip4in6 = st.ip_addresses(v=4).map(lambda a: '::ffff:' + str(a))
network_address = st.one_of(hostname, hostname, ipv4, ipv6, ip4in6)

refund = st.one_of(st.none(), coin_output)
arb_data = st.one_of(st.just(b''), st.binary(max_size=83), st.sampled_from([b'\0', b'hello', b'x' * 83]), st.sampled_from([' a memo \n', 'Memo', '\tx', '\u20ac 5', '00ff', '\u00e9' * 41, '\ufeffx', 'e\u0301']).map(str.encode))
bot_id = st.one_of(st.integers(1, 300), st.integers(1, 2**32 - 1))


def _lists(e, n):
    return st.lists(e, max_size=n)


def tx(version, ful=fulfillment):
    ci = _lists(st.fixed_dictionaries({'p': b32, 'f': ful}), 3)
    base = {'ver': st.just(version)}
    if version == 0:
        leg_in = _lists(st.fixed_dictionaries({'p': b32, 'f': ful_single}), 3)
        leg_uh = condition_uh
        base.update(ci=leg_in, co=_lists(st.fixed_dictionaries({'v': units, 'c': leg_uh}), 3), bi=leg_in,
                    bo=_lists(st.fixed_dictionaries({'v': stakes, 'c': leg_uh}), 2), fees=_lists(units, 3), data=arb_data)
    elif version == 1:
        base.update(ci=ci, co=_lists(coin_output, 4), bi=_lists(st.fixed_dictionaries({'p': b32, 'f': ful}), 2),
                    bo=_lists(stake_output, 2), fees=_lists(units, 3), data=arb_data)
    elif version in (128, 129):
        base.update(nonce=st.binary(min_size=8, max_size=8), mf=st.one_of(ful_single, ful_multi),
                    fees=_lists(units, 3), data=arb_data)
        if version == 128:
            base['mc'] = condition
        else:
            base['co'] = _lists(coin_output, 4)
    elif version == 209:
        base.update(addr=uh_any, value=units, fee=units, block=b32, txid=b32)
    else:
        base.update(fee=units, ci=ci, refund=refund)
        maybe_sig = st.one_of(sig64, sig64, st.just(b''))
        if version == 144:
            base.update(addrs=_lists(network_address, 10), names=_lists(bot_name, 5), months=st.integers(1, 24), pk=pk, sig=maybe_sig)
        elif version == 145:
            base.update(id=bot_id, months=st.integers(0, 24), sig=maybe_sig, addrs_add=_lists(network_address, 3),
                        addrs_rem=_lists(network_address, 3), names_add=_lists(bot_name, 3), names_rem=_lists(bot_name, 3))
        elif version == 146:
            base.update(sid=bot_id, rid=bot_id, ssig=maybe_sig, rsig=maybe_sig, names=_lists(bot_name, 5))
        elif version == 208:
            base.update(addr=st.binary(min_size=20, max_size=20), value=units)
        elif version == 210:
            base.update(pk=pk, sig=maybe_sig)
    return st.fixed_dictionaries(base)


VERSIONS = [0, 1, 128, 129, 144, 145, 146, 208, 209, 210]
any_tx = st.sampled_from(VERSIONS + [1, 1]).flatmap(tx)


# ---- transactions with many inputs, outputs, fees, owners or signatures: [what grows, to how many]
SIZES = [99, 126, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513, 600]
growth = st.lists(st.tuples(st.sampled_from(['ci', 'ci', 'co', 'co', 'bi', 'bo', 'fees', 'owners', 'pairs']),
                            st.one_of(st.sampled_from(SIZES), st.integers(60, 700))).map(list), min_size=1, max_size=2, unique_by=lambda g: g[0])
big_case = st.fixed_dictionaries({'t': st.sampled_from([0, 1, 1, 1, 129, 129, 128, 144, 145, 146, 208, 209, 210]).flatmap(tx), 'grow': growth})


def grown(t, growth):
    """t with more of what it holds (a function of its arguments: cases stay small)"""
    t = dict(t)
    num = lambda n: bytes([n >> 8, n & 255]) * 16
    for key, size in sorted(growth, key=lambda g: g[0] in ('owners', 'pairs')):   # (those last: in one place only)
        if key in t:
            some = t[key]
            if not some:
                f = {'k': 'single', 'pk': [1, num(7)], 'sig': num(9) * 2}
                c = {'k': 'uh', 'uh': [1, num(5)]}
                some = {'ci': [{'p': num(1), 'f': f}], 'bi': [{'p': num(2), 'f': f}], 'co': [{'v': 1, 'c': c}], 'bo': [{'v': 1, 'c': c}], 'fees': [3]}[key]
            out = []
            for n in range(size):
                e = some[n % len(some)]
                out.append(e if n < len(some) else e + n if key == 'fees' else dict(e, p=num(n)) if key in ('ci', 'bi') else dict(e, v=e['v'] + n))
            t[key] = out
        elif key == 'owners' and t.get('co') and t['ver'] != 0:
            t['co'] = [dict(t['co'][0], c={'k': 'ms', 'n': size // 2, 'uhs': [[1, num(n)] for n in range(size)]})] + t['co'][1:]
        elif key == 'pairs' and t.get('ci') and t['ver'] != 0:
            t['ci'] = [dict(t['ci'][0], f={'k': 'multi', 'pairs': [[[1, num(n)], num(n) * 2] for n in range(size)]})] + t['ci'][1:]
    return t


def hexcase(text, flips):
    """upper-case the letters of a hex text which flips (an int) selects"""
    return ''.join(c.upper() if flips >> i & 1 else c for i, c in enumerate(text))
