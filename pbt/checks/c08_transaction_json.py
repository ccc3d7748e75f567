"""C08: transactions survive JSON, the form in which they are exchanged, stored and submitted."""
import copy
import json

from hypothesis import strategies as st

from tfchain import errors
from tfchain.types import transactions
from tfchain.types.IO import BlockstakeOutput, CoinOutput

from pbt import build, gen, ref
from pbt.checks import c28_construction as construction
from pbt.core import Sub, check, eq, rejects


def want_json(t):
    # a legacy transaction is re-coded as a standard one of the same content
    return ref.tx_json(dict(t, ver=1) if t['ver'] == 0 else t)


def fields(x, t, what):
    """x's public properties are the content t"""
    v = t['ver']
    eq(int(x.version), v or 1, what + ': version')
    if 'ci' in t:
        eq([build.to_text(i.json()) for i in x.coin_inputs], [ref.input_json(i) for i in t['ci']], what + ': coin inputs')
    if 'bi' in t:
        eq([build.to_text(i.json()) for i in x.blockstake_inputs], [ref.input_json(i) for i in t['bi']], what + ': blockstake inputs')
        eq([build.to_text(o.json()) for o in x.blockstake_outputs], [ref.output_json(o) for o in t['bo']], what + ': blockstake outputs')
    if 'co' in t:
        eq([build.to_text(o.json()) for o in x.coin_outputs], [ref.output_json(o) for o in t['co']], what + ': coin outputs')
    elif v in (144, 145, 146, 208, 210):
        eq([build.to_text(o.json()) for o in x.coin_outputs], [ref.output_json(t['refund'])] if t['refund'] else [], what + ': coin outputs')
    if 'data' in t:
        eq(bytes(x.data.value), t['data'], what + ': data')
    if 'fees' in t:
        eq([f.json() for f in x.miner_fees], [str(f) for f in t['fees']], what + ': miner fees')
    elif 'fee' in t:
        eq(x.transaction_fee.json(), str(t['fee']), what + ': transaction fee')
        eq([f.json() for f in x.miner_fees], [str(t['fee'])], what + ': miner fees')
    canon = lambda a: ref.netaddr(a)[2]
    if v == 144:
        eq([str(a) for a in x.addresses], [canon(a) for a in t['addrs']], what + ': addresses')
        eq([str(n) for n in x.names], t['names'], what + ': names')
        eq([x.number_of_months, str(x.public_key)], [t['months'], ref.pk_text(t['pk'])], what + ': months and key')
    elif v == 145:
        eq([[str(a) for a in x.addresses_to_add], [str(a) for a in x.addresses_to_remove], [str(n) for n in x.names_to_add],
            [str(n) for n in x.names_to_remove], x.botid, x.number_of_months],
           [[canon(a) for a in t['addrs_add']], [canon(a) for a in t['addrs_rem']], t['names_add'], t['names_rem'], t['id'], t['months']],
           what + ': record update')
    elif v == 146:
        eq([x.sender_botid, x.receiver_botid, [str(n) for n in x.names]], [t['sid'], t['rid'], t['names']], what + ': name transfer')
    elif v == 208:
        eq([bytes(x.address.value), x.value.json()], [t['addr'], str(t['value'])], what + ': conversion')
    elif v == 209:
        eq([str(x.address), x.value.json(), bytes(x.blockid.value), bytes(x.transactionid.value)],
           [ref.uh_text(t['addr']), str(t['value']), t['block'], t['txid']], what + ': coin creation')
    elif v == 210:
        eq(str(x.public_key), ref.pk_text(t['pk']), what + ': public key')


def round_trip(case, ctx):
    t = gen.grown(case['t'], case.get('grow', ()))
    v = t['ver']
    ctx.label('v{}'.format(v))
    ctx.nontrivial(t.get('ci') or t.get('co') or t.get('bo') or v in (128, 209))
    spec = ref.tx_json(t)
    before = copy.deepcopy(spec)
    x = build.from_text(transactions.from_json, spec)
    fields(x, t, 'decoded')
    j = build.to_text(x.json())
    eq(j, want_json(t), 'JSON of the decoded transaction')
    # every accepted input form decodes to the same content, and decoding leaves its input alone
    for y in (transactions.from_json(spec), transactions.from_json(json.dumps(spec)),
              transactions.from_json(json.dumps(spec, sort_keys=True).encode())):
        fields(y, t, 'decoded again')
        eq(build.to_text(y.json()), j, 'JSON of the transaction decoded again')
        check(y == x, 'two decodings of one transaction differ')
    eq(spec, before, 'decoding changed its input')
    # ... and so does its own JSON
    z = build.from_text(transactions.from_json, x.json())
    fields(z, dict(t, ver=1) if v == 0 else t, 'decoded from its own JSON')
    eq(build.to_text(z.json()), j, 'JSON after a second round')
    fields(x, t, 'decoded, afterwards')
    # a transaction made with the constructors holds the same
    b = build.tx(t)
    if v in (128, 129):
        bj = build.to_text(b.json())
        bj['data']['nonce'] = j['data']['nonce']  # random for a new transaction
        eq(bj, j, 'JSON of the constructed transaction')
    else:
        fields(b, t, 'constructed')
        eq(build.to_text(b.json()), j, 'JSON of the constructed transaction')
        check(b == x, 'the constructed transaction differs from the decoded one')


# ------------------------------------------------------------------ absent, null and empty are the same

def absent(case, ctx):
    t, how = case['t'], case['how']
    spec = ref.tx_json(t)
    data = spec.setdefault('data', {})
    keys = {0: ['coininputs', 'coinoutputs', 'blockstakeinputs', 'blockstakeoutputs', 'minerfees', 'arbitrarydata'],
            1: ['coininputs', 'coinoutputs', 'blockstakeinputs', 'blockstakeoutputs', 'minerfees', 'arbitrarydata'],
            128: ['minerfees', 'arbitrarydata'], 129: ['minerfees', 'arbitrarydata', 'coinoutputs'],
            144: ['coininputs', 'addresses', 'names'], 145: ['coininputs', 'addresses', 'names', 'signature'], 146: ['coininputs', 'names'],
            208: ['coininputs'], 210: ['coininputs']}[t['ver']]
    done = 0
    if t['ver'] == 145 and how == 'empty':
        how = 'missing'
    if t['ver'] == 210 and case['fee']:
        # there is but one registration fee
        for fee in ('9999999999', '10000000001', '0', '', '90000000000'):
            other = copy.deepcopy(spec)
            other['data']['regfee'] = fee
            rejects(lambda: transactions.from_json(other), 'a registration fee of {!r}'.format(fee))
        del data['regfee']
        done += 1
    if t.get('fee') == 0 and case['fee']:
        del data['txfee']
        eq(build.to_text(build.from_text(transactions.from_json, spec).json()), want_json(t), 'JSON without a transaction fee')
        data['txfee'] = '0'
    for holder in [data] + [data[k] for k in ('sender', 'receiver') if k in data]:
        for k in ('nrofmonths', 'id'):
            if holder.get(k) == 0 and how != 'empty':
                done += 1
                holder[k] = None
                if how == 'missing':
                    del holder[k]
    for k in ('addresses', 'names'):
        if t['ver'] == 145 and isinstance(data.get(k), dict):
            for part in ('add', 'remove'):
                if not data[k].get(part):
                    done += 1
                    data[k][part] = [] if how == 'empty' else None
                    if how == 'missing':
                        del data[k][part]
    for k in keys:
        if not data.get(k):
            done += 1
            if how == 'null':
                data[k] = None
            elif how == 'empty':
                data[k] = '' if k == 'arbitrarydata' else []
            else:
                data.pop(k, None)
    ctx.nontrivial(done > 0)
    ctx.label(how)
    x = build.from_text(transactions.from_json, spec)
    fields(x, t, '{} fields'.format(how))
    eq(build.to_text(x.json()), want_json(t), 'JSON with {} fields'.format(how))


# ------------------------------------------------------------------ equality

@st.composite
def near(draw):
    t = draw(gen.any_tx.filter(lambda t: t['ver'] != 0))
    u = copy.deepcopy(t)
    k = draw(st.sampled_from(sorted(set(t) - {'ver'})))
    if draw(st.booleans()):
        u[k] = draw(gen.tx(t['ver']))[k]
    return {'t': t, 'u': u, 'ids': draw(st.sampled_from([None, None, 'same', 'other']))}


def equality(case, ctx):
    t, u, ids = case['t'], case['u'], case['ids']
    x, y = build.from_text(transactions.from_json, ref.tx_json(t)), build.from_text(transactions.from_json, ref.tx_json(u))
    want = ref.tx_json(t) == ref.tx_json(u)
    if ids:
        x.id = '11' * 32
        y.id = '11' * 32 if ids == 'same' else '12' * 32
        eq(x.id, '11' * 32, 'identifier')
        want = ids == 'same'
    ctx.label('ids ' + str(ids))
    ctx.label('equal' if want else 'different')
    ctx.nontrivial(t != u)
    eq(x == y, want, 'equality of two transactions')
    eq(len({x, y}), 1 if want else 2, 'a set of the two transactions')
    check(x == x, 'a transaction differs from itself')
    # after a change, it is another one; and the same again once the change is undone
    for z, other, what in ((x, y, 'first'), (y, x, 'second')):
        if ids:
            z.id = '13' * 32
            eq(z == other, False, 'equality after the identifier of the {} changed'.format(what))
            eq(len({x, y}), 2, 'a set of both, after the identifier of the {} changed'.format(what))
            z.id = None
            z.id = '11' * 32 if ids == 'same' or z is x else '12' * 32
        elif len(z.miner_fees) and hasattr(z, 'miner_fee_add'):
            fees = list(z.miner_fees)
            z.miner_fee_add(1)
            eq(z == other, ref.tx_json(dict(t if z is x else u, fees=(t if z is x else u)['fees'] + [10**9])) == ref.tx_json(u if z is x else t), 'equality after the {} got another fee'.format(what))
            del z.miner_fees[len(fees):]
        eq(x == y, want, 'equality, after a change of the {} was undone'.format(what))


# ------------------------------------------------------------------ unknown versions, lying versions

def unknown(case, ctx):
    t, v = case['t'], case['v']
    ctx.nontrivial()
    spec = ref.tx_json(t)
    spec['version'] = v
    try:
        x = transactions.from_json(spec)
    except errors.UnknownTransansactionVersion:
        check(v not in gen.VERSIONS, 'version {} is not known', v)
    except Exception:
        check(v in gen.VERSIONS, 'unknown version {} is not reported as such', v)
    else:
        check(v in gen.VERSIONS and int(x.version) == (v or 1), 'version {} decoded as version {}', v, int(x.version))
    for wrong in (17, None, ['x'], 1.5):
        rejects(lambda: transactions.from_json(wrong), 'a transaction from {!r}'.format(wrong))


# ------------------------------------------------------------------ copying parts from one transaction to another

def known(x):
    """what a transaction knows about its parts, beyond its JSON"""
    return [[bytes(o.id.value) for o in x.coin_outputs], [bytes(o.id.value) for o in x.blockstake_outputs],
            [[bytes(i.parent_output.id.value), build.to_text(i.parent_output.json())] for i in list(x.coin_inputs) + list(x.blockstake_inputs)]]


def copies(case, ctx):
    t, v = case['t'], case['t']['ver']
    x = build.from_text(transactions.from_json, ref.tx_json(t))
    n = 0
    for o in list(x.coin_outputs) + list(x.blockstake_outputs):
        n += 1
        o.id = bytes([n]) * 32
    for i in list(x.coin_inputs) + list(x.blockstake_inputs):
        n += 1
        if n % 3:
            cls = CoinOutput if i in x.coin_inputs else BlockstakeOutput
            i.parent_output = cls(value=str(n) if cls is CoinOutput else n, condition=build.cond(case['c']), id=i.parentid)
    facts = known(x)
    if v == 208:  # its inputs cannot be constructed empty
        y = build.tx(t)
    else:
        y = build.tx({**t, **{k: [] for k in ('ci', 'co', 'bi', 'bo') if k in t}, **({'refund': None} if 'refund' in t else {})}) \
            if v not in (128, 129) else build.tx(dict(t, co=[]) if v == 129 else t)
    ctx.nontrivial(n)
    ctx.label('v{}'.format(v))

    def copy_parts(outputs):
        if 'ci' in t:
            y.coin_inputs = x.coin_inputs
        if v != 128:
            y.coin_outputs = outputs
        if v == 1:
            y.blockstake_inputs, y.blockstake_outputs = x.blockstake_inputs, x.blockstake_outputs

    outs = x.coin_outputs
    forms = [outs]
    if v in (144, 145, 146, 208, 210):
        forms += [list(outs), outs[0]] if outs else [None, []]
    for form in forms:
        copy_parts(form)
        fields(y, t, 'copied')
        eq(known(y) if v != 128 else None, facts if v != 128 else None, 'identifiers and parents of the copied parts')
    if v not in (128, 129):
        eq(build.to_text(y.json()), want_json(t), 'JSON of the copy')
    # parts can be taken away
    if 'ci' in t:
        for nothing in (None, []):
            copy_parts(outs)
            y.coin_inputs = nothing
            eq(len(y.coin_inputs), 0, 'coin inputs after clearing')
    if v != 128:
        for nothing in (None, []):
            copy_parts(outs)
            y.coin_outputs = nothing
            eq(len(y.coin_outputs), 0, 'coin outputs after clearing')
    if v == 1:
        for nothing in (None, []):
            copy_parts(outs)
            y.blockstake_inputs = y.blockstake_outputs = nothing
            eq([len(y.blockstake_inputs), len(y.blockstake_outputs)], [0, 0], 'blockstakes after clearing')
    # an output too many for a refund
    if v in (144, 145, 146, 208, 210):
        copy_parts(outs)
        two = [CoinOutput(value='1 TFT'), CoinOutput(value='2 TFT')]
        rejects(lambda: setattr(y, 'coin_outputs', two), 'two refunds')
        rejects(lambda: setattr(y, 'coin_outputs', 'x'), 'a text as refund')
        fields(y, t, 'after a refused refund') if v != 208 else None
    fields(x, t, 'original')
    eq(known(x), facts, 'identifiers and parents of the original')


# ------------------------------------------------------------------ while a transaction is being made, its JSON follows what it holds

def followed(x, m, what):
    t = construction.complete(x, m, what)
    if t is None:
        return False
    j = ref.tx_json(t)
    eq(build.to_text(x.json()), build.to_text(j), what + ': JSON')
    return True


def edited(case, ctx):
    construction.run(case, ctx, judge=construction.nothing, whole=followed)


VECTORS = [{'t': ref.tx_parse(v['json'])} for v in build.vectors()]
SUBS = [
    Sub('round_trip', st.fixed_dictionaries({'t': gen.any_tx}), round_trip, 1600, 24000,
        'inputs, outputs, a mint condition or a bridged amount', examples=VECTORS),
    Sub('big', gen.big_case, round_trip, 260, 3000, 'inputs, outputs, a mint condition or a bridged amount'),
    Sub('absent', st.fixed_dictionaries({'t': st.sampled_from([0, 1, 128, 129, 144, 145, 146, 208, 210]).flatmap(gen.tx), 'fee': st.booleans(),
                                         'how': st.sampled_from(['null', 'empty', 'missing'])}), absent, 800, 10000, 'a list or the data is empty'),
    Sub('equality', near(), equality, 800, 10000, 'the contents differ'),
    Sub('unknown', st.fixed_dictionaries({'t': gen.any_tx, 'v': st.one_of(st.integers(-1, 300), st.sampled_from([2, 127, 130, 143, 147, 207, 211, 256 + 144]))}),
        unknown, 300, 3000, 'every case'),
    Sub('copies', st.fixed_dictionaries({'t': st.sampled_from([1, 1, 129, 144, 145, 146, 208, 210]).flatmap(gen.tx), 'c': gen.condition}),
        copies, 500, 8000, 'an input or an output'),
    Sub('edited', construction.histories, edited, 1500, 10000, 'more than two changes'),
]
