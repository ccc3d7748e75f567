"""C05: conditions (who can spend, and when)."""
from hypothesis import strategies as st

from tfchain.encoders import rivine_encode, sia_encode
from tfchain.types import ConditionTypes

from pbt import build, gen, ref
from pbt.core import Sub, check, eq, rejects

CLASSES = {'nil': ConditionTypes.ConditionNil, 'uh': ConditionTypes.ConditionUnlockHash, 'swap': ConditionTypes.ConditionAtomicSwap,
           'lock': ConditionTypes.ConditionLockTime, 'ms': ConditionTypes.ConditionMultiSignature}


def same(x, c, what):
    """x is the condition which c describes"""
    k = c['k']
    check(type(x) is CLASSES[k], '{}: got a {}, expected a {}', what, type(x).__name__, CLASSES[k].__name__)
    eq(int(x.type), ref.CT[k], what + ': type')
    eq(build.to_text(x.json()), ref.condition_json(c), what + ': JSON')
    eq(sia_encode(x), ref.S.condition(c), what + ': Sia encoding')
    eq(rivine_encode(x), ref.R.condition(c), what + ': Rivine encoding')
    eq(str(x.unlockhash), ref.uh_text(ref.condition_uh(c)), what + ': address')
    inner = x.unwrap()
    if k == 'lock':
        eq(x.lock.value, c['v'], what + ': lock')
        check(type(inner) is CLASSES[c['c']['k']], '{}: unwrapped to a {}', what, type(inner).__name__)
        same(x.condition, c['c'], what + ': inner')
    else:
        check(inner is x, '{}: unwrapped to something else', what)
        eq(x.lock.value, 0, what + ': lock')
    if k == 'ms':
        eq(x.required_signatures, c['n'], what + ': required signatures')
        eq([str(u) for u in x.unlockhashes], [ref.uh_text(u) for u in c['uhs']], what + ': owners')
    if k == 'swap':
        eq([str(x.sender), str(x.receiver), bytes(x.hashed_secret.value), x.lock_time],
           [ref.uh_text(c['s']), ref.uh_text(c['r']), c['hs'], c['lt']], what + ': atomic swap')


def forms(case, ctx):
    c = case['c']
    ctx.label(c['k'] + ('/' + c['c']['k'] if c['k'] == 'lock' else ''))
    ctx.nontrivial(c['k'] != 'nil')
    x = build.cond(c)
    same(x, c, 'condition')
    y = build.from_text(ConditionTypes.from_json, x.json())
    same(y, c, 'decoded condition')
    same(x, c, 'condition afterwards')
    z = build.from_text(ConditionTypes.from_json, ref.condition_json(c))
    same(z, c, 'condition decoded from its specified form')


def many(case, ctx):
    """a wallet of very many owners keeps each of them"""
    uhs = [[1, ref.b2(case['salt'] + i.to_bytes(2, 'big'))] for i in range(case['count'])]
    c = {'k': 'ms', 'n': case['n'] % case['count'] + 1, 'uhs': uhs}
    forms({'c': {'k': 'lock', 'v': case['lock'], 'c': c} if case['lock'] else c}, ctx)


# ------------------------------------------------------------------ distinct conditions

def distinct(case, ctx):
    c, d = case['c'], case['d']
    ctx.nontrivial(c != d)
    x, y = build.cond(c), build.cond(d)
    eq(bytes(sia_encode(x)) == bytes(sia_encode(y)), c == d, 'same Sia encoding')
    eq(bytes(rivine_encode(x)) == bytes(rivine_encode(y)), c == d, 'same Rivine encoding')
    eq(x.json() == y.json(), c == d, 'same JSON form')


@st.composite
def near_pairs(draw):
    """two conditions which differ in one place, if at all"""
    c = draw(st.one_of(gen.condition_lock, gen.condition_swap, gen.multisig(min_size=1), gen.condition_uh))
    d = dict(c)
    key = draw(st.sampled_from([k for k in c if k != 'k']))
    v = c[key]
    if key in ('v', 'n'):
        d[key] = draw(st.sampled_from([v, v + 1, v + 256]))
    elif key == 'lt':
        d[key] = draw(st.sampled_from([v, v + 1, v + 2**32]))
    elif key == 'hs':
        d[key] = draw(st.sampled_from([v, v[:31] + bytes([v[31] ^ 1]), bytes([v[0] ^ 128]) + v[1:]]))
    elif key in ('uh', 's', 'r'):
        d[key] = draw(gen.uh_owner)
    elif key == 'uhs':
        d[key] = draw(st.sampled_from([v[1:], v + v[:1], v[::-1], v[:-1] + [[1, bytes(32)]]]))
    else:
        d[key] = draw(gen.condition_plain)
    return {'c': c, 'd': d}


# ------------------------------------------------------------------ malformed JSON

@st.composite
def malformed(draw):
    c = draw(st.one_of(gen.condition_lock, gen.condition_swap, gen.multisig(min_size=1), gen.condition_uh))
    j = ref.condition_json(c)
    how = draw(st.sampled_from(['type', 'address', 'nodata', 'swap owner', 'inner', 'nil data']))
    if how == 'type':
        j['type'] = draw(st.sampled_from([5, 6, 255, -1, '1', 'x', 3.5]))
    elif how == 'nodata':
        j['data'] = {}
    elif how == 'inner':
        # a lock only locks a nil, an unlock hash or a multi-signature condition
        inner = draw(st.one_of(gen.condition_lock, gen.condition_swap))
        j = {'type': 3, 'data': {'locktime': draw(gen.locks), 'condition': ref.condition_json(inner)}}
    elif how == 'nil data':
        j = draw(st.sampled_from([{'type': 0, 'data': j['data']}, {'data': j['data']}, {'type': 0, 'data': 'x'}, {'type': 0, 'data': 1}, {'type': 0, 'data': {'a': None}}]))
    else:
        d = j['data']
        if c['k'] == 'lock':
            how = 'type'
            d['condition']['type'] = 99
        else:
            key = {'uh': 'unlockhash', 'swap': draw(st.sampled_from(['sender', 'receiver', 'hashedsecret'])), 'ms': 'unlockhashes'}[c['k']]
            bad = draw(st.sampled_from(['', '00', '01' * 40, '01' + '0' * 76]))
            if key == 'hashedsecret' and bad == '':
                bad = '00'
            d[key] = [bad] + d[key] if c['k'] == 'ms' else bad
            if how == 'swap owner' and c['k'] == 'swap':
                d[key if key != 'hashedsecret' else 'sender'] = ref.uh_text([draw(st.sampled_from([2, 3])), bytes(32)])
                if key == 'hashedsecret':
                    d[key] = '00' * 32
    return {'j': j, 'how': how}


def malformation(case, ctx):
    ctx.nontrivial()
    ctx.label(case['how'])
    rejects(lambda: ConditionTypes.from_json(case['j']), 'condition {!r}'.format(case['j']), allow=(KeyError,))


# ------------------------------------------------------------------ recipients

@st.composite
def recipients(draw):
    form = draw(st.sampled_from(['none', 'text', 'address', 'bytes', 'condition', 'list', 'sigs first', 'sigs last']))
    lock = draw(st.one_of(st.none(), st.none(), gen.locks))
    texts = draw(st.booleans())
    if form == 'none':
        c = {'k': 'nil'}
    elif form in ('text', 'address', 'bytes'):
        c = draw(gen.condition_uh)
    elif form == 'condition':
        c = draw(gen.condition_plain)
    else:
        c = draw(gen.multisig(min_size=1))
        if form == 'list':
            c['n'] = len(c['uhs'])
        c['n'] = min(max(1, c['n']), len(c['uhs']))
    return {'form': form, 'c': c, 'lock': lock, 'texts': texts, 'tuple': draw(st.booleans())}


def recipient(case, ctx):
    c, form, lock = case['c'], case['form'], case['lock']
    ctx.label(form + (' locked' if lock is not None else ''))
    ctx.nontrivial(form != 'none' or lock is not None)
    if form in ('list', 'sigs first', 'sigs last'):
        owners = [ref.uh_text(u) if case['texts'] else build.uh(u) for u in c['uhs']]
        r = {'list': owners, 'sigs first': (c['n'], tuple(owners) if case['tuple'] else owners), 'sigs last': (tuple(owners) if case['tuple'] else owners, c['n'])}[form]
    else:
        r = {'none': lambda: None, 'text': lambda: ref.uh_text(c['uh']), 'address': lambda: build.uh(c['uh']),
             'bytes': lambda: bytes.fromhex(ref.uh_text(c['uh'])), 'condition': lambda: build.cond(c)}[form]()
    want = c if lock is None else {'k': 'lock', 'v': lock, 'c': c}
    x = ConditionTypes.from_recipient(r, lock=lock)
    same(x, want, 'condition for a recipient')
    if lock is not None:
        # what is locked already, or cannot be locked, is refused
        owner = {'k': 'uh', 'uh': [1, bytes(32)]}
        for bad in ({'k': 'lock', 'v': lock, 'c': c}, {'k': 'swap', 's': [1, bytes(32)], 'r': [1, bytes(32)], 'hs': bytes(32), 'lt': 600000000}):
            rejects(lambda: ConditionTypes.from_recipient(build.cond(bad), lock=lock), 'a lock on a condition which cannot be locked')
            rejects(lambda: ConditionTypes.locktime_new(lock=lock, condition=build.cond(bad)), 'a lock on a condition which cannot be locked')
            x = ConditionTypes.locktime_new(lock=lock, condition=build.cond(owner))
            rejects(lambda: setattr(x, 'condition', build.cond(bad)), 'a lock on a condition which cannot be locked')
            same(x, {'k': 'lock', 'v': lock, 'c': owner}, 'after that refusal')
    if form in ('list', 'sigs first', 'sigs last'):
        # a wallet which nobody can spend from, or anybody, is no recipient
        many = len(owners)
        for n in (0, -1, many + 1, many + 2, many + 255, many + 256):
            for r in ((n, owners), (owners, n)):
                rejects(lambda: ConditionTypes.from_recipient(r, lock=lock), '{} signatures of {} owners as recipient'.format(n, many))
        for r in ([], (0, []), ([], 0), (1, []), ([], 1)):
            rejects(lambda: ConditionTypes.from_recipient(r, lock=lock), 'nobody as recipient: {!r}'.format(r))
        for r in ((owners, owners), (c['n'], c['n']), (str(c['n']), owners), (owners, None), (None, owners)):
            rejects(lambda: ConditionTypes.from_recipient(r, lock=lock), 'recipient {!r}'.format(r))
    for bad in (3, 1.5, (1,), (1, [], 2), object()):
        rejects(lambda: ConditionTypes.from_recipient(bad), 'recipient {!r}'.format(bad))


# ------------------------------------------------------------------ what is shown follows what was set

@st.composite
def editions(draw):
    c = draw(st.one_of(gen.condition_lock, gen.condition_swap, gen.multisig(min_size=1), gen.condition_uh))
    inner = c['c'] if c['k'] == 'lock' else c
    steps = []
    for _ in range(draw(st.integers(1, 5))):
        if c['k'] == 'lock' and draw(st.booleans()):
            what = draw(st.sampled_from(['v', 'c']))
            if what == 'c':
                inner = draw(gen.condition_plain)
                steps.append(['c', inner])
            else:
                steps.append(['v', draw(gen.locks)])
            continue
        k = inner['k']
        if k == 'uh':
            steps.append([draw(st.sampled_from(['uh', 'uh text', 'uh in place'])), draw(gen.uh_any)])
        elif k == 'swap':
            what = draw(st.sampled_from(['s', 'r', 'hs', 'lt']))
            steps.append([what, draw({'s': gen.uh_owner, 'r': gen.uh_owner, 'hs': gen.b32, 'lt': gen.timestamps}[what])])
        elif k == 'ms':
            what = draw(st.sampled_from(['n', 'add', 'owner in place']))
            steps.append([what, draw(st.integers(0, 300) if what == 'n' else gen.uh_owner)])
    return {'c': c, 'steps': steps}


def edited(case, ctx):
    c = decoupled(case['c'])
    x, y = build.cond(c), build.from_text(ConditionTypes.from_json, ref.condition_json(c))
    same(x, c, 'condition')
    for what, v in case['steps']:
        ctx.nontrivial()
        ctx.label(what)
        d = c
        at = [x, y]
        if c['k'] == 'lock' and what not in ('v', 'c'):
            d = c['c']
            at = [z.condition for z in at]
        for z in at:
            if what == 'v':
                z.lock = v
            elif what == 'c':
                z.condition = build.cond(v)
            elif what == 'uh':
                z.unlockhash = build.uh(v)
            elif what == 'uh text':
                z.unlockhash = ref.uh_text(v)
            elif what == 'uh in place':
                z.unlockhash.type, z.unlockhash.hash = build.UHT[v[0]], v[1]
            elif what in ('s', 'r'):
                setattr(z, 'sender' if what == 's' else 'receiver', build.uh(v))
            elif what == 'hs':
                z.hashed_secret = v
            elif what == 'lt':
                z.lock_time = v
            elif what == 'n':
                z.required_signatures = v
            elif what == 'add':
                z.add_unlockhash(build.uh(v))
            elif what == 'owner in place':
                for u in z.unlockhashes[:1]:
                    u.type, u.hash = build.UHT[v[0]], v[1]
        if what in ('uh', 'uh text', 'uh in place'):
            d['uh'] = v
        elif what == 'add':
            d['uhs'] = d['uhs'] + [v]
        elif what == 'owner in place':
            d['uhs'] = [v] + d['uhs'][1:] if d['uhs'] else []
        elif what == 'c':
            d['c'] = decoupled(v)
        else:
            d[what] = v
        for z in (x, y):
            same(z, c, 'condition after changing ' + what)


def decoupled(c):
    return {k: decoupled(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v for k, v in c.items()}


any_pair = st.tuples(gen.condition, gen.condition).map(lambda t: {'c': t[0], 'd': t[1]})
SUBS = [
    Sub('forms', st.fixed_dictionaries({'c': gen.condition}), forms, 3000, 40000, 'a condition which is not nil'),
    Sub('many', st.fixed_dictionaries({'salt': st.binary(max_size=4), 'count': st.one_of(st.integers(5, 70), st.sampled_from([127, 128, 129, 255, 256, 257, 300])), 'n': st.integers(0, 10**6),
                                       'lock': st.sampled_from([0, 0, 1, 10**9])}), many, 60, 800, 'every case', shards=4),
    Sub('distinct', st.one_of(near_pairs(), near_pairs(), any_pair), distinct, 2000, 30000, 'two different conditions'),
    Sub('malformed', malformed(), malformation, 1500, 15000, 'every case'),
    Sub('edited', editions(), edited, 1000, 12000, 'a change'),
    Sub('recipients', recipients(), recipient, 1500, 15000, 'a recipient or a lock'),
]
