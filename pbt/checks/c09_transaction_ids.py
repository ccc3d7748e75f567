"""C09: the binary form of a transaction, and the identifiers of its outputs."""
from hypothesis import strategies as st

from tfchain.types import transactions

from pbt import build, gen, ref
from pbt.checks import c28_construction as construction
from pbt.core import Sub, check, eq, rejects


def outputs_of(t):
    """(coin outputs, blockstake outputs)"""
    v = t['ver']
    if v == 209:
        return 1, 0
    if 'refund' in t:
        return (1 if t['refund'] else 0), 0
    return len(t.get('co', ())), len(t.get('bo', ()))


def ids_of(x, n, m):
    return [bytes(x.coin_outputid_new(i).value) for i in range(n)], [bytes(x.blockstake_outputid_new(i).value) for i in range(m)]


def specified(case, ctx):
    t = gen.grown(case['t'], case.get('grow', ()))
    v = t['ver']
    n, m = outputs_of(t)
    ctx.label('v{}'.format(v))
    ctx.label('outputs', n + m > 0)
    ctx.nontrivial(n + m > 0)
    x = build.from_text(transactions.from_json, ref.tx_json(t))
    made = [('decoded', x)]
    if v not in (0, 128, 129):  # those draw a nonce of their own, or cannot be constructed
        made.append(('constructed', build.tx(t)))
    for what, y in made:
        eq(bytes(y.binary_encode()), ref.tx_binary(t), 'binary form of the {} transaction'.format(what))
        want = ([ref.output_id(t, i) for i in range(n)], [ref.output_id(t, i, True) for i in range(m)])
        eq(ids_of(y, n, m), want, 'output identifiers of the {} transaction'.format(what))
        eq(len(y.coin_outputs), n, 'coin outputs')
        eq(len(y.blockstake_outputs), m, 'blockstake outputs')
        if v == 209:
            o = y.coin_outputs[0]
            eq([o.value.json(), str(o.condition.unlockhash)], [str(t['value']), ref.uh_text(t['addr'])], 'created coins')
        check(len(set(want[0] + want[1])) == n + m, 'two outputs of a transaction have the same identifier')
        # identifiers exist for the outputs which exist, only
        for i in (-1, n, n + 1):
            rejects(lambda: y.coin_outputid_new(i), 'identifier of coin output {} of {}'.format(i, n))
        for i in (-1, m, m + 7):
            rejects(lambda: y.blockstake_outputid_new(i), 'identifier of blockstake output {} of {}'.format(i, m))
        # asking does not change the answer
        eq(bytes(y.binary_encode()), ref.tx_binary(t), 'binary form, afterwards')
        # an identifier assigned to an output stays with it, and is not part of the transaction
        for o, w in zip(list(y.coin_outputs) + list(y.blockstake_outputs), want[0] + want[1]):
            o.id = w
        eq([bytes(o.id.value) for o in y.coin_outputs] + [bytes(o.id.value) for o in y.blockstake_outputs], want[0] + want[1],
           'identifiers assigned to outputs')
        eq(bytes(y.binary_encode()), ref.tx_binary(t), 'binary form, with known identifiers')


# ------------------------------------------------------------------ the version-1 form of a legacy transaction is another transaction

def distinct(case, ctx):
    """different transactions have different binary forms and all their identifiers are different"""
    t, u = case['t'], case['u']
    x, y = (build.from_text(transactions.from_json, ref.tx_json(z)) for z in (t, u))
    same = t == u
    ctx.nontrivial(not same)
    eq(bytes(x.binary_encode()) == bytes(y.binary_encode()), same, 'same binary form')
    a, b = ids_of(x, *outputs_of(t)), ids_of(y, *outputs_of(u))
    a, b = a[0] + a[1], b[0] + b[1]
    eq(len(set(a)), len(a), 'distinct identifiers within a transaction')
    if not same:
        check(not set(a) & set(b), 'two transactions share an output identifier')


@st.composite
def near(draw):
    t = draw(gen.any_tx)
    u = dict(t)
    k = draw(st.sampled_from(sorted(set(t) - {'ver'})))
    if draw(st.integers(0, 9)):
        u[k] = draw(gen.tx(t['ver']))[k]
    # an IP address has several texts, but one meaning
    if any(ref.netaddr(a)[2] != a for z in (t, u) for key in ('addrs', 'addrs_add', 'addrs_rem') for a in z.get(key, ())):
        for z in (t, u):
            for key in ('addrs', 'addrs_add', 'addrs_rem'):
                if key in z:
                    z[key] = [ref.netaddr(a)[2] for a in z[key]]
    return {'t': t, 'u': u}


# ------------------------------------------------------------------ identifiers commit to the signatures' transaction, not to the order of asking

def order(case, ctx):
    t = case['t']
    n, m = outputs_of(t)
    ctx.nontrivial(n > 1)
    x = build.from_text(transactions.from_json, ref.tx_json(t))
    got = {}
    for i in case['order']:
        if n:
            got[i % n] = bytes(x.coin_outputid_new(i % n).value)
    for i, w in got.items():
        eq(w, ref.output_id(t, i), 'identifier of coin output {}'.format(i))


# ------------------------------------------------------------------ while a transaction is being made, both follow what it holds

def followed(x, m, what):
    t = construction.complete(x, m, what)
    if t is None or t['ver'] in (128, 129) and m['mf'] is None:
        return False
    eq(bytes(x.binary_encode()), ref.tx_binary(t), what + ': binary form')
    n, k = outputs_of(t) if t['ver'] != 129 else (len(t['co']), 0)
    eq(ids_of(x, n, k), ([ref.output_id(t, i) for i in range(n)], [ref.output_id(t, i, True) for i in range(k)]), what + ': output identifiers')
    return True


def edited(case, ctx):
    construction.run(case, ctx, judge=construction.nothing, whole=followed)


VECTORS = [{'t': ref.tx_parse(v['json'])} for v in build.vectors()]
SUBS = [
    Sub('specified', st.fixed_dictionaries({'t': gen.any_tx}), specified, 2400, 30000, 'a transaction with outputs', examples=VECTORS),
    Sub('big', gen.big_case, specified, 260, 3000, 'a transaction with outputs'),
    Sub('distinct', near(), distinct, 1000, 12000, 'two different transactions'),
    Sub('order', st.fixed_dictionaries({'t': st.sampled_from([0, 1, 1, 129]).flatmap(gen.tx), 'order': st.lists(st.integers(0, 3), min_size=1, max_size=6)}),
        order, 400, 4000, 'two or more outputs'),
    Sub('edited', construction.histories, edited, 1000, 10000, 'more than two changes'),
]
