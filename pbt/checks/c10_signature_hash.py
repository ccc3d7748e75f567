"""C10: the hash which is signed commits to everything the signer agrees to, and to nothing that is added afterwards."""
import copy

from hypothesis import strategies as st

from tfchain.types import transactions

from pbt import build, gen, ref
from pbt.checks import c28_construction as construction
from pbt.checks.c11_signing import signing, worlds
from pbt.core import Sub, check, eq


def extra_of(e, v):
    """(object to hand over, its encoding) - numbers are input indices, keys identify co-signers"""
    kind, val = e
    if kind == 'int':
        return val, ref.s_int(val)
    if kind == 'pk':
        return build.pk(val), (ref.S if v in (0, 1, 128, 129, 209) else ref.R).pk(val)
    return val, val  # raw bytes (a name)


extras = st.lists(st.one_of(st.integers(0, 2**32).map(lambda i: ['int', i]), st.integers(0, 3).map(lambda i: ['int', i]),
                            gen.pk.map(lambda p: ['pk', p])), max_size=2)


def specified(case, ctx):
    t = gen.grown(case['t'], case.get('grow', ()))
    v = t['ver']
    ctx.label('v{}'.format(v))
    ctx.label('{} extra'.format(len(case['extra'])))
    ctx.nontrivial(t.get('ci') or t.get('co') or v in (128, 129, 209))
    objs = [extra_of(e, v) for e in case['extra']]
    want = ref.sig_hash(t, b''.join(o[1] for o in objs))
    x = build.from_text(transactions.from_json, ref.tx_json(t))
    for _ in range(2):
        eq(bytes(x.signature_hash_get(*[o[0] for o in objs])), want, 'signature hash')
    if v not in (0, 128, 129):
        eq(bytes(build.tx(t).signature_hash_get(*[o[0] for o in objs])), want, 'signature hash of the constructed transaction')
    eq(bytes(x.binary_encode()), ref.tx_binary(t), 'transaction, afterwards')


# ------------------------------------------------------------------ what it commits to

def flip(b):
    return bytes([b[0] ^ 1]) + b[1:]


@st.composite
def changed(draw):
    """a transaction, and the same one with a single change"""
    t = draw(gen.any_tx)
    u = copy.deepcopy(t)
    v = t['ver']
    ways = ['reorder'] + [k for k in t if k not in ('ver',)]
    k = draw(st.sampled_from(ways))
    signed = True
    if k == 'reorder':
        k = draw(st.sampled_from([x for x in ('ci', 'co', 'bo', 'fees', 'names', 'addrs') if x in t] or ['fee' if 'fee' in t else 'fees']))
        if isinstance(u[k], list):
            u[k] = u[k][::-1]
    elif k in ('ci', 'bi'):
        how = draw(st.sampled_from(['drop', 'dup', 'parent', 'signature', 'key', 'kind']))
        if not u[k]:
            u[k] = draw(gen.tx(v))[k]
        elif how == 'drop':
            u[k] = u[k][1:]
        elif how == 'dup':
            u[k] = u[k] + [copy.deepcopy(u[k][0])]
        elif how == 'parent':
            u[k][0]['p'] = flip(u[k][0]['p'])
        else:
            f = u[k][-1]['f']
            if how == 'kind' and v != 0:
                u[k][-1]['f'] = draw(gen.fulfillment)
            elif how == 'key' and v != 0 and f['k'] != 'multi':
                f['pk'] = draw(gen.pk)
            elif f['k'] == 'multi':
                f['pairs'] = f['pairs'][1:]
            elif f['sig']:
                f['sig'] = draw(gen.sig64)
    elif k in ('mf', 'sig', 'ssig', 'rsig'):
        u[k] = draw(gen.tx(v))[k]
    else:
        u[k] = draw(st.one_of(st.just(draw(gen.tx(v))[k])))
        if k == 'refund' and t[k] and draw(st.booleans()):
            u[k] = dict(t[k], v=t[k]['v'] + 1)
    for z in (t, u):
        for key in ('addrs', 'addrs_add', 'addrs_rem'):
            if key in z:
                z[key] = [ref.netaddr(a)[2] for a in z[key]]
    return {'t': t, 'u': u, 'k': k}


def unsigned(t):
    """what is agreed upon"""
    z = copy.deepcopy(t)
    for k in ('mf', 'sig', 'ssig', 'rsig'):
        z.pop(k, None)
    for k in ('ci', 'bi'):
        if k in z:
            # legacy transactions also commit to the key that will sign
            z[k] = [[i['p'], i['f']['pk']] if t['ver'] == 0 else i['p'] for i in z[k]]
    return z


def commitment(case, ctx):
    t, u = case['t'], case['u']
    same = unsigned(t) == unsigned(u)
    ctx.label('same' if same else 'changed')
    ctx.label('v{} {}'.format(t['ver'], case['k']))
    ctx.nontrivial(t != u)
    x, y = (build.from_text(transactions.from_json, ref.tx_json(z)) for z in (t, u))
    for extra in ((), (0,), (3,)):
        eq(bytes(x.signature_hash_get(*extra)) == bytes(y.signature_hash_get(*extra)), same,
           'same signature hash after changing {}'.format(case['k']))
    hs = [bytes(x.signature_hash_get(*e)) for e in ((), (0,), (1,), (0, 1), (1, 0))]
    eq(len(set(hs)), 5, 'signature hashes of distinct requests which are distinct')


# ------------------------------------------------------------------ and the signatures added while signing do not change it

def during(case, ctx):
    t = case['t']
    x = build.from_text(transactions.from_json, ref.tx_json(t))
    hs = [bytes(x.signature_hash_get(i)) for i in range(3)]
    n = 0
    for i in x.coin_inputs:
        f = i.fulfillment
        try:
            f.signature_add(build.pk(case['pk']), case['sig'])
            n += 1
        except ValueError:
            pass  # that key signed already
    if t['ver'] in (144, 145, 210):
        x.signature = case['sig']
    elif t['ver'] == 146:
        x.sender_signature = case['sig']
        x.receiver_signature = case['sig']
    elif t['ver'] in (128, 129):
        x.mint_fulfillment = build.ful({'k': 'single', 'pk': case['pk'], 'sig': case['sig']})
        n += 1
    ctx.nontrivial(n)
    ctx.label('v{}'.format(t['ver']))
    eq([bytes(x.signature_hash_get(i)) for i in range(3)], hs, 'signature hashes after signing')


# ------------------------------------------------------------------ while a transaction is being made, the hash follows what it holds

def followed(x, m, what):
    t = construction.complete(x, m, what)
    if t is None:
        return False
    for n, extra in ((None, b''), (0, ref.s_int(0)), (3, ref.s_int(3))):
        eq(bytes(x.signature_hash_get(*(() if n is None else (n,)))), ref.sig_hash(t, extra), '{}: signature hash of {}'.format(what, n))
    return True


def edited(case, ctx):
    construction.run(case, ctx, judge=construction.nothing, whole=followed)


VECTORS = [{'t': ref.tx_parse(v['json']), 'extra': [['int', 0]]} for v in build.vectors()]
SUBS = [
    Sub('specified', st.fixed_dictionaries({'t': gen.any_tx, 'extra': extras}), specified, 2400, 30000, 'inputs, outputs or a mint', examples=VECTORS),
    Sub('big', gen.big_case.flatmap(lambda c: extras.map(lambda e: dict(c, extra=e))), specified, 260, 3000, 'inputs, outputs or a mint'),
    Sub('commitment', changed(), commitment, 2400, 30000, 'the transactions differ'),
    Sub('during', st.fixed_dictionaries({'t': st.sampled_from([v for v in gen.VERSIONS if v not in (0, 209)]).flatmap(gen.tx),
                                         'pk': gen.pk, 'sig': gen.sig64}), during, 600, 8000, 'a signature was added'),
    # the hash each signer is asked to sign, in transactions which are being signed
    Sub('requested', worlds(), signing, 600, 8000, 'a signature was given'),
    Sub('edited', construction.histories, edited, 2000, 10000, 'more than two changes'),
]
