"""C07: fulfillments (the proofs that spend)."""
from hypothesis import strategies as st

from tfchain.encoders import rivine_encode, sia_encode
from tfchain.types import FulfillmentTypes

from pbt import build, gen, ref
from pbt.core import Sub, check, eq, rejects

CLASSES = {'single': FulfillmentTypes.FulfillmentSingleSignature, 'swap': FulfillmentTypes.FulfillmentAtomicSwap,
           'multi': FulfillmentTypes.FulfillmentMultiSignature}


def same(x, f, what):
    k = f['k']
    check(type(x) is CLASSES[k], '{}: got a {}', what, type(x).__name__)
    eq(int(x.type), ref.FT[k], what + ': type')
    eq(build.to_text(x.json()), ref.fulfillment_json(f), what + ': JSON')
    eq(sia_encode(x), ref.S.fulfillment(f), what + ': Sia encoding')
    eq(rivine_encode(x), ref.R.fulfillment(f), what + ': Rivine encoding')
    if k == 'multi':
        eq([[str(p.public_key), bytes(p.signature.value)] for p in x.pairs], [[ref.pk_text(p), s] for p, s in f['pairs']], what + ': pairs')
    else:
        eq([str(x.public_key), bytes(x.signature.value)], [ref.pk_text(f['pk']), f['sig']], what + ': key and signature')
    if k == 'swap':
        eq(bytes(x.secret.value), f['secret'] or b'', what + ': secret')


def forms(case, ctx):
    f = case['f']
    ctx.label(f['k'])
    ctx.nontrivial(f.get('sig') or f.get('pairs'))
    x = build.ful(f)
    same(x, f, 'fulfillment')
    same(build.from_text(FulfillmentTypes.from_json, x.json()), f, 'decoded fulfillment')
    same(build.from_text(FulfillmentTypes.from_json, ref.fulfillment_json(f)), f, 'fulfillment decoded from its specified form')
    same(x, f, 'fulfillment afterwards')


def many(case, ctx):
    """a proof with very many signatures keeps each of them"""
    pairs = [[[1, ref.b2(case['salt'] + i.to_bytes(2, 'big'))], ref.b2(b'sig' + i.to_bytes(2, 'big')) * 2] for i in range(case['count'])]
    f = {'k': 'multi', 'pairs': pairs}
    forms({'f': f}, ctx)
    x = build.from_text(FulfillmentTypes.from_json, ref.fulfillment_json(f))
    for absent in (0, 1):
        uhs = [ref.pk_uh(pk) for pk, _ in pairs] + [[1, bytes([n + 1]) * 32] for n in range(absent)]
        for need in (1, len(pairs), len(pairs) + 1):
            c = {'k': 'ms', 'n': need, 'uhs': uhs}
            eq(x.is_fulfilled(build.cond(c)), need <= len(pairs), '{} of {} signatures fulfil'.format(len(pairs), need))


@st.composite
def malformed(draw):
    f = draw(st.one_of(gen.ful_single, gen.ful_swap, gen.ful_multi.filter(lambda f: f['pairs'])))
    j = ref.fulfillment_json(f)
    how = draw(st.sampled_from(['type', 'signature', 'key', 'secret', 'nodata']))
    d = j['data']['pairs'][0] if f['k'] == 'multi' else j['data']
    if how == 'secret' and f['k'] != 'swap':
        how = 'signature'
    if how == 'type':
        j['type'] = draw(st.sampled_from([0, 4, 5, 255, -1, '1', 'x']))
    elif how == 'nodata':
        j['data'] = {}
    elif how == 'signature':
        d['signature'] = draw(st.sampled_from(['00', '11' * 63, '11' * 65, 'zz' * 64, '1' * 127]))
    elif how == 'key':
        d['publickey'] = draw(st.sampled_from(['ed25519:00', 'ed25519', 'rsa:' + '11' * 32, 'ed25519:' + '11' * 33, 'ed25519:' + 'zz' * 32]))
    else:
        d['secret'] = draw(st.sampled_from(['00', '11' * 31, '11' * 33, 'zz' * 32]))
    return {'j': j, 'how': how}


def malformation(case, ctx):
    ctx.nontrivial()
    ctx.label(case['how'])
    rejects(lambda: FulfillmentTypes.from_json(case['j']), 'fulfillment {!r}'.format(case['j']), allow=(KeyError,))


# ------------------------------------------------------------------ the fulfillment which a condition needs

def kinds(case, ctx):
    c = case['c']
    inner = c['c'] if c['k'] == 'lock' else c
    ctx.nontrivial(c['k'] != 'nil')
    ctx.label(c['k'])
    f = FulfillmentTypes.from_condition(build.cond(c))
    want = {'nil': 'single', 'uh': 'single', 'ms': 'multi', 'swap': 'swap'}[inner['k']]
    check(type(f) is CLASSES[want], 'fulfillment for a {} condition: {}', c['k'], type(f).__name__)
    need = inner['n'] if inner['k'] == 'ms' else 1
    eq(f.is_fulfilled(build.cond(c)), need == 0, 'an empty fulfillment fulfills its condition')
    # a fulfillment for another kind of condition is not accepted for it
    for k, cls in CLASSES.items():
        if k != want and not (k == 'swap' and inner['k'] == 'swap'):
            rejects(lambda: cls().is_fulfilled(build.cond(c)), '{} as fulfillment of a {} condition'.format(k, c['k']))
            rejects(lambda: cls().signature_requests_new(lambda *a: bytes(32), build.cond(c)), '{} asked to sign a {} condition'.format(k, c['k']))


# ------------------------------------------------------------------ no key signs twice in a multi-signature fulfillment

def pairs(case, ctx):
    f = FulfillmentTypes.multi_signature_new()
    have, n = [], 0
    for p, s in case['ops']:
        p = case['keys'][p % len(case['keys'])]
        if p in [h[0] for h in have]:
            ctx.nontrivial()
            rejects(lambda: f.signature_add(build.pk(p), s), 'second signature of one key')
        else:
            f.signature_add(build.pk(p), s)
            have.append([p, s])
        n += 1
        same(f, {'k': 'multi', 'pairs': have}, 'after {} signatures'.format(n))
        for need in (0, 1, len(have), len(have) + 1):
            c = {'k': 'ms', 'n': need, 'uhs': [ref.pk_uh(k) for k in case['keys']]}
            eq(f.is_fulfilled(build.cond(c)), len(have) >= need, '{} of {} signatures fulfil'.format(len(have), need))


# ------------------------------------------------------------------ who counts in a proof that was read

def counting(case, ctx):
    keys = case['keys']
    owners = [keys[i % len(keys)] for i in case['owners']]
    signed = [keys[i % len(keys)] for i in case['signed']]
    own = {ref.pk_text(k) for k in owners}
    distinct = {ref.pk_text(k) for k in signed} & own
    ctx.nontrivial(len(signed) > len(distinct))
    ctx.label('repeated' if len(signed) > len({ref.pk_text(k) for k in signed}) else 'once')
    ctx.label('foreign' if {ref.pk_text(k) for k in signed} - own else 'owners')
    j = ref.fulfillment_json({'k': 'multi', 'pairs': [[k, bytes([1 + n]) * 64] for n, k in enumerate(signed)]})
    try:
        f = build.from_text(FulfillmentTypes.from_json, j)
    except ValueError:
        check(len(signed) > len({ref.pk_text(k) for k in signed}), 'a proof of different keys was refused')
        return
    uhs = [ref.pk_uh(k) for k in sorted(owners, key=ref.pk_text)]
    uhs = [u for n, u in enumerate(uhs) if u not in uhs[:n]]
    for need in range(1, len(uhs) + 1):
        c = {'k': 'ms', 'n': need, 'uhs': uhs}
        for d in (c, {'k': 'lock', 'v': 7, 'c': c}):
            eq(f.is_fulfilled(build.cond(d)), len(distinct) >= need, '{} of {} owners signed, {} are needed: fulfilled'.format(len(distinct), len(uhs), need))
    c = build.cond({'k': 'ms', 'n': 1, 'uhs': uhs})
    left = sorted(r.wallet_address for r in f.signature_requests_new(lambda *a: bytes(32), c))
    eq(left, sorted(ref.uh_text(ref.pk_uh(k)) for k in {ref.pk_text(k): k for k in owners}.values() if ref.pk_text(k) not in distinct), 'owners asked for their signature')


# ------------------------------------------------------------------ what is shown follows what was set

@st.composite
def editions(draw):
    f = draw(gen.fulfillment)
    steps = []
    for _ in range(draw(st.integers(1, 5))):
        what = draw(st.sampled_from({'single': ['pk', 'sig', 'sign'], 'swap': ['pk', 'sig', 'sign', 'secret'],
                                     'multi': ['pairs', 'pair pk', 'pair sig', 'add']}[f['k']]))
        steps.append([what, draw(gen.pk), draw(gen.sig64), draw(gen.b32), draw(st.one_of(st.integers(0, 4), st.integers(0, 4), st.integers(0, 60))), draw(st.booleans())])
    return {'f': f, 'steps': steps}


def edited(case, ctx):
    f = dict(case['f'])
    x, y = build.ful(f), build.from_text(FulfillmentTypes.from_json, ref.fulfillment_json(f))
    same(x, f, 'fulfillment')
    for what, pk, sig, secret, n, unset in case['steps']:
        if what in ('pair pk', 'add') and pk in [p for p, _ in f['pairs']] or what in ('pair pk', 'pair sig') and not f['pairs']:
            continue
        ctx.nontrivial()
        ctx.label(what)
        for z in (x, y):
            if what == 'pk':
                z.public_key = None if unset else build.pk(pk)
            elif what == 'sig':
                z.signature = None if unset else sig
            elif what == 'sign':
                z.signature_add(build.pk(pk), sig)
            elif what == 'secret':
                z.secret = None if unset else secret
            elif what == 'pairs':
                z.pairs = [FulfillmentTypes.PublicKeySignaturePair(public_key=build.pk([1, bytes([i]) * 32]), signature=sig) for i in range(n)]
            elif what == 'pair pk':
                z.pairs[n % len(f['pairs'])].public_key = build.pk(pk)
            elif what == 'pair sig':
                z.pairs[n % len(f['pairs'])].signature = sig
            else:
                z.add_pair(build.pk(pk), sig)
        if what in ('pk', 'sign'):
            f['pk'] = [0, bytes(32)] if unset and what == 'pk' else pk
        if what in ('sig', 'sign'):
            f['sig'] = b'' if unset and what == 'sig' else sig
        if what == 'secret':
            f['secret'] = None if unset else secret
        if what == 'pairs':
            f['pairs'] = [[[1, bytes([i]) * 32], sig] for i in range(n)]
        elif what == 'add':
            f['pairs'] = f['pairs'] + [[pk, sig]]
        elif what in ('pair pk', 'pair sig'):
            i = n % len(f['pairs'])
            f['pairs'] = [[pk if what == 'pair pk' else p, sig if what == 'pair sig' else s] if k == i else [p, s] for k, (p, s) in enumerate(f['pairs'])]
        for z in (x, y):
            same(z, f, 'fulfillment after changing ' + what)


SUBS = [
    Sub('edited', editions(), edited, 1000, 12000, 'a change'),
    Sub('forms', st.fixed_dictionaries({'f': gen.fulfillment}), forms, 3000, 40000, 'a signed fulfillment'),
    Sub('many', st.fixed_dictionaries({'salt': st.binary(max_size=4), 'count': st.one_of(st.integers(5, 70), st.sampled_from([127, 128, 129, 255, 256, 257, 300]))}), many, 40, 500, 'every case', shards=4),
    Sub('malformed', malformed(), malformation, 1500, 15000, 'every case'),
    Sub('kinds', st.fixed_dictionaries({'c': gen.condition}), kinds, 1500, 15000, 'a condition which is not nil'),
    Sub('pairs', st.fixed_dictionaries({'keys': st.lists(gen.pk, min_size=1, max_size=4, unique_by=ref.pk_text),
                                        'ops': st.lists(st.tuples(st.integers(0, 3), gen.sig64).map(list), max_size=6)}),
        pairs, 1000, 10000, 'one key signs twice'),
    Sub('counting', st.fixed_dictionaries({'keys': st.lists(gen.pk, min_size=1, max_size=5, unique_by=ref.pk_text),
                                           'owners': st.lists(st.integers(0, 4), min_size=1, max_size=4), 'signed': st.lists(st.integers(0, 4), max_size=5)}),
        counting, 1000, 10000, 'somebody signs who is no owner, or twice'),
]
