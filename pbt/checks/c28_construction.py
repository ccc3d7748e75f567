"""C28: a transaction under construction holds exactly what it was given."""
from decimal import Decimal

from hypothesis import strategies as st

from tfchain.types import transactions
from tfchain.types.ConditionTypes import ConditionAtomicSwap, ConditionLockTime, ConditionMultiSignature, ConditionUnlockHash
from tfchain.types.CryptoTypes import PublicKey
from tfchain.types.IO import BlockstakeInput, BlockstakeOutput, CoinInput, CoinOutput
from tfchain.types.PrimitiveTypes import BinaryData, Currency, Hash

from pbt import build, gen, ref
from pbt.core import Sub, check, eq, rejects

NEW = {1: transactions.new, 128: transactions.mint_definition_new, 129: transactions.mint_coin_creation_new,
       144: transactions.threebot_registration_new, 145: transactions.threebot_record_update_new,
       146: transactions.threebot_name_transfer_new, 208: transactions.erc20_convert_new,
       209: transactions.erc20_coin_creation_new, 210: transactions.erc20_address_registration_new}
ZERO = bytes(32)
NIL_PK = [0, ZERO]
UNSIGNED = {'k': 'single', 'pk': NIL_PK, 'sig': b''}
NIL_OUT = {'v': 0, 'c': {'k': 'nil'}, 'id': ZERO}

# the settable properties of each version: property -> (key in the model, kind, what it holds when it was not set)
ONE = {1: {'data': ('data', 'data', b'')},
       128: {'data': ('data', 'data', b''), 'mint_fulfillment': ('mf', 'ful', UNSIGNED), 'mint_condition': ('mc', 'cond', {'k': 'nil'}),
             'parent_mint_condition': ('pmc', 'cond', {'k': 'nil'})},
       129: {'data': ('data', 'data', b''), 'mint_fulfillment': ('mf', 'ful', UNSIGNED), 'parent_mint_condition': ('pmc', 'cond', {'k': 'nil'})},
       144: {'transaction_fee': ('fee', 'amount', 0), 'number_of_months': ('months', 'months', 0), 'public_key': ('pk', 'pk', NIL_PK),
             'signature': ('sig', 'sig', b'')},
       145: {'transaction_fee': ('fee', 'amount', 0), 'number_of_months': ('months', 'months', 0), 'botid': ('id', 'botid', 0),
             'parent_public_key': ('ppk', 'pk', NIL_PK), 'signature': ('sig', 'sig', b'')},
       146: {'transaction_fee': ('fee', 'amount', 0), 'sender_botid': ('sid', 'botid', 0), 'receiver_botid': ('rid', 'botid', 0),
             'sender_parent_public_key': ('spk', 'pk', NIL_PK), 'receiver_parent_public_key': ('rpk', 'pk', NIL_PK),
             'sender_signature': ('ssig', 'sig', b''), 'receiver_signature': ('rsig', 'sig', b'')},
       208: {'transaction_fee': ('fee', 'amount', 0), 'address': ('addr', 'erc20', b''), 'value': ('value', 'amount', 0)},
       209: {'transaction_fee': ('fee', 'amount', 0), 'address': ('addr', 'uh', [0, ZERO]), 'value': ('value', 'amount', 0),
             'blockid': ('block', 'ehash', b''), 'transactionid': ('txid', 'ehash', b'')},
       210: {'transaction_fee': ('fee', 'amount', 0), 'public_key': ('pk', 'pk', NIL_PK), 'signature': ('sig', 'sig', b'')}}
# lists: (property, key, method which adds one, limit)
LISTS = {144: [('addresses', 'addrs', 'address_add', 10), ('names', 'names', 'name_add', 5)],
         145: [('addresses_to_add', 'addrs_add', 'address_add', 10), ('addresses_to_remove', 'addrs_rem', 'address_remove', 10),
               ('names_to_add', 'names_add', 'name_add', 5), ('names_to_remove', 'names_rem', 'name_remove', 5)],
         146: [('names', 'names', 'name_add', 5)]}
INPUTS = (1, 144, 145, 146, 208, 210)
REFUND = (144, 145, 146, 208, 210)

# ------------------------------------------------------------------ the operations

KIND = {'data': gen.arb_data, 'ful': gen.fulfillment, 'cond': gen.condition, 'amount': gen.units, 'months': st.integers(1, 24), 'pk': gen.pk,
        'sig': gen.sig64, 'botid': gen.bot_id, 'erc20': st.binary(min_size=20, max_size=20), 'uh': gen.uh_any, 'ehash': gen.b32}
out = st.fixed_dictionaries({'v': gen.units, 'c': gen.condition, 'id': st.one_of(st.just(ZERO), gen.b32)})
stake = st.fixed_dictionaries({'v': gen.stakes, 'c': gen.condition, 'id': st.one_of(st.just(ZERO), gen.b32)})
inp = st.fixed_dictionaries({'p': gen.b32, 'f': gen.fulfillment, 'po': st.one_of(st.none(), out)})
stake_inp = st.fixed_dictionaries({'p': gen.b32, 'f': gen.fulfillment, 'po': st.one_of(st.none(), stake)})
form = st.integers(0, 5)


def op(name, *args):
    return st.tuples(st.just(name), *args).map(list)


def ops_of(v):
    o = [op('id', st.one_of(st.none(), gen.b32), form), op('height', st.integers(0, 10**7)), op('unconfirmed', st.booleans()), op('bad', st.integers(0, 999)),
         op('again', st.sampled_from([0, 0, 0, 1, 2, 3])), op('again', st.sampled_from([0, 0, 0, 1, 2, 3]))]
    for prop, (_, kind, _) in ONE[v].items():
        values = KIND[kind] if kind == 'months' else st.one_of(st.none(), KIND[kind], KIND[kind], KIND[kind])
        o.append(op('set', st.just(prop), values, form))
    if v in (1, 128, 129):
        o.append(op('fee', gen.units, form))
    if v in INPUTS:
        o += [op('in', inp, form), op('in', inp, form), op('inputs', st.lists(inp, max_size=3), form)]
    if v in (1, 129):
        o += [op('out', out, form), op('out', out, form), op('outputs', st.lists(out, max_size=3), form)]
    if v == 1:
        o += [op('sin', stake_inp, form), op('sinputs', st.lists(stake_inp, max_size=3), form), op('sout', stake, form), op('soutputs', st.lists(stake, max_size=3), form)]
    if v in REFUND:
        o += [op('refund', out, form), op('outputs', st.lists(out, max_size=1), form)]
    if v == 209:
        o.append(op('outid', gen.b32))
    if v == 210:
        o.append(op('regfee', form))
    for prop, _, add, limit in LISTS.get(v, []):
        e = gen.network_address if limit == 10 else gen.bot_name
        o += [op('add', st.just(prop), e), op('add', st.just(prop), e), op('list', st.just(prop), st.lists(e, max_size=limit), form)]
    if v in (144, 145, 146, 210):
        o.append(op('sign', st.integers(0, 2), gen.sig64, form))
    if v == 145:
        o.append(op('set', st.just('number_of_months'), st.integers(0, 1), form))
    return st.one_of(o)


histories = st.sampled_from(sorted(NEW)).flatmap(lambda v: st.fixed_dictionaries({'v': st.just(v), 'ops': st.lists(ops_of(v), min_size=1, max_size=14)}))


# ------------------------------------------------------------------ values, in the forms in which they can be given

def text_of(units):
    return '{}.{:09d}'.format(*divmod(units, 10**9))


def amount(n, how):
    if how == 1:
        return text_of(n)
    if how == 2:
        return text_of(n) + ' TFT'
    if how == 3:
        return Decimal(text_of(n))
    if how == 4 and n % 10**9 == 0:
        return n // 10**9
    return build.units(n)


def raw(b, how, prefix=''):
    if how == 1:
        return bytearray(b)
    if how == 2:
        return prefix + b.hex()
    return b


def given(kind, value, how):
    if value is None:
        return None
    if kind == 'amount':
        return amount(value, how)
    if kind == 'data':
        if how == 1:
            return bytearray(value)
        if how == 2:
            try:
                return value.decode()
            except UnicodeDecodeError:
                return value
        return BinaryData(value=value, strencoding='base64') if how == 3 else value
    if kind in ('sig', 'ehash', 'erc20'):
        return raw(value, how, '' if kind == 'sig' else '0x')
    if kind == 'pk':
        return build.pk(value)
    if kind == 'uh':
        return build.uh(value) if how % 2 else ref.uh_text(value)
    if kind == 'cond':
        return build.cond(value)
    if kind == 'ful':
        return build.ful(value)
    return value


def spoil(x):
    """change a thing which was given, after it was given"""
    if isinstance(x, Currency):
        x += 1
    elif isinstance(x, bytearray):
        for i in range(len(x)):
            x[i] ^= 255
        x.append(1)
    elif isinstance(x, BinaryData):
        x.value = b''
    elif isinstance(x, PublicKey):
        x.hash = bytes([77]) * 32
    elif isinstance(x, list):
        x.append(x[0] if x else None)
        x.reverse()


def hash_of(b, how):
    return Hash(value=b) if how == 3 else raw(b, how)


def coin_out(o):
    return CoinOutput(value=build.units(o['v']), condition=build.cond(o['c']), id=o['id'])


def stake_out(o):
    return BlockstakeOutput(value=o['v'], condition=build.cond(o['c']), id=o['id'])


# ------------------------------------------------------------------ what it holds

def out_json(o):
    return [{'value': str(o['v']), 'condition': ref.condition_json(o['c'])}, o['id'].hex()]


def seen_out(o):
    return [build.to_text(o.json()), bytes(o.id.value).hex()]


def in_json(i, nil):
    return [ref.input_json(i), out_json(i['po'] or NIL_OUT)]


def seen_in(i):
    return [build.to_text(i.json()), seen_out(i.parent_output)]


def seen_one(kind, x):
    if kind == 'amount':
        return int(x.json())
    if kind in ('data', 'sig', 'erc20', 'ehash'):
        return bytes(x.value)
    if kind in ('pk', 'uh'):
        return str(x)
    if kind in ('cond', 'ful'):
        return build.to_text(x.json())
    return x


def want_one(kind, value, default):
    value = default if value is None else value
    if kind == 'pk':
        return ref.pk_text(value)
    if kind == 'uh':
        return ref.uh_text(value)
    if kind == 'cond':
        return build.to_text(ref.condition_json(value))
    if kind == 'ful':
        return build.to_text(ref.fulfillment_json(value))
    return value


def monthly(n):
    total = 10 * 10**9 * n
    return total if n < 12 else total * 7 // 10 if n < 24 else total // 2


def judge(x, m, what):
    v = m['ver']
    eq(int(x.version), v, what + ': version')
    if m['txid_'] is not None:
        eq(x.id, m['txid_'].hex(), what + ': identifier')
    eq([x.height, x.unconfirmed], [m['height'], m['unconfirmed']], what + ': height and whether it is unconfirmed')
    for prop, (key, kind, default) in ONE[v].items():
        eq(seen_one(kind, getattr(x, prop)), want_one(kind, m[key], default), '{}: {}'.format(what, prop))
    for prop, key, _, _ in LISTS.get(v, []):
        eq([str(e) for e in getattr(x, prop)], [ref.netaddr(e)[2] if 'addr' in key else e for e in m[key]], '{}: {}'.format(what, prop))
    eq([seen_in(i) for i in x.coin_inputs], [in_json(i, NIL_OUT) for i in m['ci']], what + ': coin inputs')
    eq([seen_in(i) for i in x.blockstake_inputs], [in_json(i, NIL_OUT) for i in m['bi']], what + ': blockstake inputs')
    eq([seen_out(o) for o in x.blockstake_outputs], [out_json(o) for o in m['bo']], what + ': blockstake outputs')
    co = m['co']
    if v in REFUND:
        co = [m['refund']] if m['refund'] else []
        eq(seen_out(x.refund_coin_output), out_json(m['refund'] or NIL_OUT), what + ': refund')
    elif v == 209:
        co = [{'v': m['value'] or 0, 'c': {'k': 'uh', 'uh': m['addr'] or [0, ZERO]}, 'id': m['outid']}]
    eq([seen_out(o) for o in x.coin_outputs], [out_json(o) for o in co], what + ': coin outputs')
    if v in (1, 128, 129):
        eq([int(f.json()) for f in x.miner_fees], m['fees'], what + ': miner fees')
    else:
        eq([int(f.json()) for f in x.miner_fees], [] if m['fee'] is None else [m['fee']], what + ': miner fees')
    if v in (128, 129):
        eq(x.mint_fulfillment_defined(), m['mf'] is not None, what + ': whether a mint fulfillment is defined')
    if v in (144, 145, 146):
        if v == 144:
            bot = 90 * 10**9 + monthly(m['months'] or 0) + 50 * 10**9 * max(0, len(m['names']) - 1)
        elif v == 145:
            bot = monthly(m['months'] or 0) + (20 * 10**9 if m['addrs_add'] or m['addrs_rem'] else 0) + 50 * 10**9 * len(m['names_add'])
        else:
            bot = 50 * 10**9 * len(m['names'])
        fee = x.required_bot_fees
        eq(int(fee.json()), bot, what + ': bot fees')
        fee += 1  # ours to change
    if v == 210:
        eq(x.registration_fee.json(), '10000000000', what + ': registration fee')


def complete(x, m, what):
    """the plain form of the transaction, or None if it misses something without which it has no JSON"""
    v = m['ver']
    t = dict(m)
    for key, kind, default in ONE[v].values():
        if t[key] is None:
            if (v, key) in ((208, 'addr'), (209, 'addr'), (209, 'block'), (209, 'txid'), (210, 'pk')):
                return None
            t[key] = default
    if v in (128, 129):
        nonce = build.to_text(x.json())['data']['nonce']
        m.setdefault('nonce_text', nonce)
        eq(nonce, m['nonce_text'], what + ': nonce')
        t['nonce'] = ref.base64.b64decode(nonce)
        eq(len(t['nonce']), 8, what + ': length of the nonce')
    return t


def whole(x, m, what):
    """what is exchanged, hashed and signed follows from what it holds"""
    v = m['ver']
    t = complete(x, m, what)
    if t is None:
        return False
    eq(build.to_text(x.json()), build.to_text(ref.tx_json(t)), what + ': JSON')
    eq(bytes(x.signature_hash_get()), ref.sig_hash(t), what + ': signature hash')
    n = len(x.coin_outputs)
    if n and v not in (128, 129, 209):
        eq(bytes(x.coin_outputid_new(n - 1).value), ref.output_id(t, n - 1), what + ': identifier of the last coin output')
    if v == 1 and m['bo']:
        eq(bytes(x.blockstake_outputid_new(0).value), ref.output_id(t, 0, True), what + ': identifier of the first blockstake output')
    for index in (n, -1):
        rejects(lambda: x.coin_outputid_new(index), '{}: identifier of output {} of {}'.format(what, index, n))
    return True


# ------------------------------------------------------------------ what has to be refused

def refused(x, m):
    """(what, thing to try) for everything which this transaction has to refuse, now"""
    v = m['ver']
    cond = build.cond({'k': 'nil'})

    def to(prop, value):
        return '{} = {!r}'.format(prop, value), lambda: setattr(x, prop, value)

    yield to('height', -1)
    yield to('height', '1')
    yield to('height', None)
    yield to('height', 1.5)
    yield to('unconfirmed', None)
    yield to('unconfirmed', 1)
    yield to('unconfirmed', 'True')
    yield to('id', 'zz')
    yield to('id', b'\1' * 31)
    yield to('id', 7)
    for prop, (_, kind, _) in ONE[v].items():
        bad = {'amount': ['-1', '-0.000000001', '0.0000000001', 'x', -1, 1.5, b'1', []], 'data': [b'x' * 84, 'x' * 84, '\u00e9' * 42, bytearray(200), 5],
               'months': [-1, 25, 300, '3', None, 2.0], 'botid': [0, -1, '1', 1.0], 'pk': ['', 'ed25519:' + '01' * 32, b'\1' * 32, 7],
               'sig': [b'\1' * 63, b'\1' * 65, 'zz', 5], 'erc20': [b'\1' * 19, b'\1' * 21, '0x12', 5], 'ehash': [b'\1' * 31, b'\1' * 33, '0x12', 5],
               'uh': ['', '01', 'z' * 78, '01' + '11' * 32 + '00' * 6], 'cond': ['x', {}, 1], 'ful': ['x', {}, 1, cond]}[kind]
        if v == 144 and kind == 'months':
            bad = bad + [0]
        for b in bad:
            yield to(prop, b)
    if v in (1, 128, 129):
        for b in ('-1', '0.0000000001', 'x', 1.5, b'1'):
            yield 'miner_fee_add({!r})'.format(b), lambda b=b: x.miner_fee_add(b)
    if v in INPUTS:
        for args in (('zz', None), (b'\1' * 31, None), (5, None), (ZERO, 'x'), (ZERO, cond)):
            yield 'coin_input_add{!r}'.format(args), lambda args=args: x.coin_input_add(*args)
        yield 'an input of a text', lambda: x.coin_input_add(ZERO, build.ful(UNSIGNED), parent_output='x')
        yield 'an input of blockstakes', lambda: x.coin_input_add(ZERO, build.ful(UNSIGNED), parent_output=BlockstakeOutput(value=1))
    bad_out = (('-1', cond), ('x', cond), ('0.0000000001', cond), (1.5, cond), ('1', 'x'), ('1', build.ful(UNSIGNED)), ('1', cond, 'zz'), ('1', cond, b'\1' * 31))
    if v in (1, 129):
        for args in bad_out:
            yield 'coin_output_add{!r}'.format(args), lambda args=args: x.coin_output_add(*args[:2], id=(args + (None,))[2])
    if v == 1:
        for args in ((-1, cond), ('x', cond), (1.5, cond), (1, 'x'), (1, cond, 'zz')):
            yield 'blockstake_output_add{!r}'.format(args), lambda args=args: x.blockstake_output_add(*args[:2], id=(args + (None,))[2])
        for args in (('zz', None), (b'\1' * 31, None), (ZERO, 'x')):
            yield 'blockstake_input_add{!r}'.format(args), lambda args=args: x.blockstake_input_add(*args)
        yield 'a blockstake input of coins', lambda: x.blockstake_input_add(ZERO, build.ful(UNSIGNED), parent_output=CoinOutput())
    if v in REFUND:
        for args in bad_out:
            yield 'refund_coin_output_set{!r}'.format(args), lambda args=args: x.refund_coin_output_set(*args[:2], id=(args + (None,))[2])
        two = [CoinOutput(value='1'), CoinOutput(value='2')]
        for b in (two, 'x', 5, BlockstakeOutput(value=1), [BlockstakeOutput(value=1)], ['x']):
            yield to('coin_outputs', b)
    if v == 210:
        for b in ('9', '10.000000001', 11, '0', 'x', 1.5):
            yield to('registration_fee', b)
    for prop, key, add, limit in LISTS.get(v, []):
        if limit == 10:
            bad = ['', 'ab cd.com', 'http://a.com', '-abc.com', 'a..com', '1.2.3.4.5', '::x']
        else:
            bad = ['', 'abc', 'a b c d e', '-abcde', 'abcde.', '.abcde', 'abcde..abcde', 'a' * 200, 5]
        for b in bad:
            yield '{}({!r})'.format(add, b), lambda b=b, add=add: getattr(x, add)(b)
        if len(m[key]) == limit:
            yield '{}: one too many'.format(add), lambda add=add, limit=limit: getattr(x, add)('example.com' if limit == 10 else 'example')
    other = build.pk([1, bytes([99]) * 32])
    key = {144: 'pk', 145: 'ppk', 146: 'spk', 210: 'pk'}.get(v)
    if key and m[key] and [1, bytes([99]) * 32] not in (m[key], m.get('rpk')):
        yield 'a signature of somebody else', lambda: x.signature_add(other, b'\1' * 64)
    if key and m[key]:
        for b in (b'\1' * 63, 'zz', 5):
            yield 'a bad signature', lambda b=b: x.signature_add(build.pk(m[key]), b)


# ------------------------------------------------------------------ the history

def tweaked(o):
    """the same change with another value next to it, or None"""
    if o[0] == 'set':
        kind, value = [(k, o[2]) for p in ONE.values() for prop, (_, k, _) in p.items() if prop == o[1]][0]
        if value is None or kind in ('cond', 'ful'):
            return None
        if kind in ('amount', 'botid'):
            value = value + 1 if value < 10**9 else value - 1
        elif kind == 'months':
            value = value % 24 + 1
        elif isinstance(value, list) and not value[0]:
            return None
        elif isinstance(value, list):
            value = [value[0], value[1][:-1] + bytes([value[1][-1] ^ 1])]
        elif kind == 'data' and len(value) % 2 and len(value) < 83:
            value = value + b'!'
        elif value:
            value = value[:-1] + bytes([value[-1] ^ 1])
        return [o[0], o[1], value, o[3]]
    if o[0] in ('outputs', 'soutputs') and o[1]:
        return [o[0], o[1][:-1] + [dict(o[1][-1], v=o[1][-1]['v'] + 1)], o[2]]
    if o[0] in ('inputs', 'sinputs') and o[1]:
        p = o[1][-1]['p']
        return [o[0], o[1][:-1] + [dict(o[1][-1], p=p[:-1] + bytes([p[-1] ^ 1]))], o[2]]
    if o[0] == 'list' and o[2]:
        return [o[0], o[1], o[2][::-1][:-1] if len(o[2]) % 2 else o[2][::-1], o[3]]
    return None


def spelled(ops):
    """the changes, with those that are done again with another value written out"""
    done = []
    for o in ops:
        if o[0] == 'again':
            earlier = [t for t in map(tweaked, done) if t]
            if not earlier:
                continue
            o = earlier[-1 - o[1] % len(earlier)]
        done.append(o)
    return done


def change(x, m, o, kept):
    """one change, of the transaction and of the model; what was handed over is added to kept"""
    v, name, how = m['ver'], o[0], o[-1]
    what = 'after {}'.format(name)
    if name == 'id':
        x.id = hash_of(o[1], how) if o[1] is not None else None
        m['txid_'] = o[1]
    elif name == 'height':
        x.height = m['height'] = o[1]
    elif name == 'unconfirmed':
        x.unconfirmed = m['unconfirmed'] = o[1]
    elif name == 'set':
        key, kind, _ = ONE[v][o[1]]
        g = given(kind, o[2], how)
        setattr(x, o[1], g)
        m[key] = o[2]
        kept.append(g)
        what += ' ' + o[1]
    elif name == 'fee':
        g = amount(o[1], how)
        x.miner_fee_add(g)
        m['fees'] = m['fees'] + [o[1]]
        kept.append(g)
    elif name in ('in', 'sin'):
        i, p = o[1], hash_of(o[1]['p'], how)
        po = i['po'] and (coin_out if name == 'in' else stake_out)(i['po'])
        (x.coin_input_add if name == 'in' else x.blockstake_input_add)(p, build.ful(i['f']), **({'parent_output': po} if po or how > 3 else {}))
        k = 'ci' if name == 'in' else 'bi'
        m[k] = m[k] + [i]
        kept.append(p)
    elif name in ('inputs', 'sinputs'):
        cls, make = (CoinInput, coin_out) if name == 'inputs' else (BlockstakeInput, stake_out)
        g = [cls(parentid=i['p'], fulfillment=build.ful(i['f']), parent_output=i['po'] and make(i['po'])) for i in o[1]]
        g = g if g or how > 2 else None
        setattr(x, 'coin_inputs' if name == 'inputs' else 'blockstake_inputs', tuple(g) if how == 3 else g)
        m['ci' if name == 'inputs' else 'bi'] = list(o[1])
        kept.append(g)
    elif name in ('out', 'sout', 'refund'):
        i, g, h = o[1], amount(o[1]['v'], how), hash_of(o[1]['id'], how)
        if name == 'sout':
            g = str(i['v']) if how % 2 else i['v']
        c = None if i['c'] == {'k': 'nil'} and how > 3 else build.cond(i['c'])
        add = {'out': 'coin_output_add', 'sout': 'blockstake_output_add', 'refund': 'refund_coin_output_set'}[name]
        getattr(x, add)(g, c, **({} if i['id'] == ZERO and how > 2 else {'id': h}))
        if name == 'refund':
            m['refund'] = i
        else:
            k = 'co' if name == 'out' else 'bo'
            m[k] = m[k] + [i]
        kept += [g, h]
    elif name == 'outputs' and v in REFUND:
        g = [coin_out(i) for i in o[1]]
        x.coin_outputs = g if how % 2 else (g[0] if g else None)
        m['refund'] = o[1][0] if o[1] else None
        kept.append(g)
    elif name in ('outputs', 'soutputs'):
        g = [(coin_out if name == 'outputs' else stake_out)(i) for i in o[1]]
        g = g if g or how > 2 else None
        setattr(x, 'coin_outputs' if name == 'outputs' else 'blockstake_outputs', g)
        m['co' if name == 'outputs' else 'bo'] = list(o[1])
        kept.append(g)
    elif name == 'outid':
        x.coin_outputs[0].id = o[1]
        m['outid'] = o[1]
    elif name == 'regfee':
        x.registration_fee = [None, '10', '10 TFT', 10, Currency(value=10), '10.000000000'][how]
    elif name == 'add':
        _, key, add, limit = [e for e in LISTS[v] if e[0] == o[1]][0]
        if len(m[key]) < limit:
            getattr(x, add)(o[2])
            m[key] = m[key] + [o[2]]
        what = 'after {}'.format(add)
    elif name == 'list':
        key = [e for e in LISTS[v] if e[0] == o[1]][0][1]
        g = list(o[2]) if o[2] or how > 2 else None
        setattr(x, o[1], g)
        m[key] = list(o[2])
        kept.append(g)
        what += ' ' + o[1]
    elif name == 'sign':
        who, key = {144: [('pk', 'sig')], 145: [('ppk', 'sig')], 146: [('spk', 'ssig'), ('rpk', 'rsig')], 210: [('pk', 'sig')]}[v][o[1] % (2 if v == 146 else 1)]
        if m[who] is None or m.get('spk') and m.get('spk') == m.get('rpk'):
            return None
        g = raw(o[2], how)
        x.signature_add(build.pk(m[who]), g)
        m[key] = o[2]
        kept.append(g)
    return what


def nothing(*args):
    pass


def run(case, ctx, judge=judge, whole=whole):
    v = case['v']
    x = NEW[v]()
    m = {'ver': v, 'txid_': None, 'height': -1, 'unconfirmed': False, 'ci': [], 'co': [], 'bi': [], 'bo': [], 'fees': [], 'refund': None, 'outid': ZERO}
    for key, _, _ in ONE[v].values():
        m[key] = None
    for _, key, _, _ in LISTS.get(v, []):
        m[key] = []
    ctx.label('v{}'.format(v))
    judge(x, m, 'new')
    whole(x, m, 'new')
    bystander = NEW[v]()  # another transaction of the same kind
    blank = dict(m, ci=[], co=[], bi=[], bo=[], fees=[], **{key: [] for _, key, _, _ in LISTS.get(v, [])})
    kept, changed = [], 0
    ops = spelled(case['ops'])
    for o in ops:
        name = o[0]
        if name != 'bad':
            what = change(x, m, o, kept)
            if not what:
                continue
        else:
            tries = list(refused(x, m)) if judge is not nothing else []
            # the one which is drawn, and some more
            for k in range(6 if judge is not nothing else 0):
                what, fn = tries[(o[1] + 37 * k) % len(tries)]
                ctx.label('refused')
                rejects(fn, what)
                judge(x, m, 'after the refusal of ' + what)
            continue
        changed += 1
        judge(x, m, what)
        if whole(x, m, what):
            ctx.label('complete')
    ctx.nontrivial(changed > 2)
    for g in kept:
        spoil(g)
    judge(x, m, 'after changes to the things it was given')
    whole(x, m, 'after changes to the things it was given')
    judge(bystander, blank, 'another transaction')
    judge(NEW[v](), blank, 'another new transaction')
    # another transaction which was given the same, and of which everything it holds is changed then
    twin = NEW[v]()
    other = dict(blank)
    for o in ops:
        if o[0] != 'bad':
            change(twin, other, o, [])
    judge(twin, other, 'another transaction which was given the same')
    reached(twin)
    judge(x, m, 'after changes to another transaction which was given the same')
    whole(x, m, 'after changes to another transaction which was given the same')


def reached(x):
    """change the things which a transaction holds"""
    outs = list(x.coin_outputs) + [i.parent_output for i in x.coin_inputs]
    stakes = list(x.blockstake_outputs) + [i.parent_output for i in x.blockstake_inputs]
    things = list(x.miner_fees) + [o.value for o in outs] + [o.id for o in outs + stakes] + [getattr(x, prop) for prop in ONE[int(x.version)]]
    for g in things:
        if isinstance(g, Currency):
            g.value = 77
        elif isinstance(g, BinaryData):
            g.value = bytes([78]) * len(g.value)
        elif isinstance(g, Hash):
            g.value = bytes([79]) * 32
        elif isinstance(g, PublicKey):
            g.hash = bytes([80]) * 32
    for c in [o.condition for o in outs + stakes] + [getattr(x, prop) for prop, (_, kind, _) in ONE[int(x.version)].items() if kind == 'cond']:
        if isinstance(c, ConditionLockTime):
            c.lock = 500000081
            c = c.condition
        if isinstance(c, ConditionUnlockHash):
            c.unlockhash = None
        elif isinstance(c, ConditionAtomicSwap):
            c.lock_time = 500000083
        elif isinstance(c, ConditionMultiSignature):
            c.add_unlockhash(build.uh([1, bytes([82]) * 32]))
            c.required_signatures = 1
    for name in ('names', 'names_to_add', 'names_to_remove', 'addresses', 'addresses_to_add', 'addresses_to_remove', 'coin_inputs', 'blockstake_inputs', 'miner_fees'):
        l = getattr(x, name, None)
        if isinstance(l, list):
            l.append(l[0] if l else None)
            l.reverse()


SUBS = [Sub('history', histories, run, 4000, 40000, 'more than two changes')]
