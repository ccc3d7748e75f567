"""C17: multi-signature wallets spend only with enough co-owners."""
import json
import random

from hypothesis import strategies as st

from tfchain.types import transactions
from tfchain.types.IO import CoinInput

from pbt import build, history, ref, sim, wallets
from pbt.core import Sub, check, eq, rejects

ONE = wallets.ONE
SEEDS = [bytes([n + 1]) * 32 for n in range(4)]     # three co-owners, and a stranger
KEYS = 2


def key(k):
    """key k: k // 2 is the wallet, k % 2 its key"""
    return sim.key(SEEDS[k // KEYS], k % KEYS)


owners = st.lists(st.integers(0, 3 * KEYS), min_size=1, max_size=4, unique=True)      # 6 is nobody's
owners = st.one_of(owners, st.permutations(range(3 * KEYS)).map(lambda p: p[:3]), st.tuples(st.integers(0, 1), st.integers(2, 3), st.integers(4, 5)).map(list))
multi = owners.flatmap(lambda o: st.fixed_dictionaries({'o': st.just(o), 'n': st.one_of(st.integers(1, len(o)), st.just(len(o))), 'outs': st.lists(st.integers(1, 20), min_size=1, max_size=3)}))
step = st.fixed_dictionaries({'w': st.integers(0, 3), 'form': st.sampled_from(['object', 'dict', 'text', 'text']), 'submit': st.sampled_from([True, True, True, False]), 'mine': st.booleans()})
case_st = st.fixed_dictionaries({'world': history.world,
    'scan': st.sampled_from([0, -1, 2]),
    'multis': st.lists(multi, min_size=1, max_size=2), 'own': st.lists(st.integers(1, 5), max_size=2), 'first': st.integers(0, 2), 'mixed': st.booleans(),
    'part': st.integers(1, 1000), 'to': st.integers(0, 6), 'data': st.binary(max_size=5), 'builder': st.booleans(), 'conf': st.sampled_from([True, True, False]),
    'lock': st.sampled_from([None, None, 'open']),
    'steps': st.lists(step, min_size=1, max_size=6)})


def condition(m):
    return {'k': 'ms', 'n': m['n'], 'uhs': [key(k).uh if k < 3 * KEYS else sim.key(b'\x55' * 32, 0).uh for k in m['o']]}


def pairs_of(t, n):
    """who signed input n, after checking every signature"""
    f = t['ci'][n]['f']
    check(f['k'] == 'multi', 'input {} has a {} fulfillment', n, f['k'])
    out = []
    for p, s in f['pairs']:
        a = ref.uh_text(ref.pk_uh(p))
        check(sim.verifies(p, s, ref.sig_hash(t, ref.s_int(n) + ref.S.pk(p))), 'the signature of {} in input {} does not verify', a, n)
        check(a not in out, '{} signed input {} twice', a, n)
        out.append(a)
    return set(out)


def bare(t):
    """a transaction without its signatures"""
    t = ref.tx_json(dict(t, ci=[dict(i, f={'k': 'single', 'pk': [1, bytes(32)], 'sig': b'\1' * 64}) for i in t['ci']]))
    return t


def signing(case, ctx):
    chain = history.new_chain(case['world'])
    conds = [condition(m) for m in case['multis']]
    if len({sim.addr_of(c) for c in conds}) < len(conds):
        return
    ws = [chain.wallet(s, KEYS, scan=case['scan']) for s in SEEDS]
    mine = [[sim.key(s, k).addr for k in range(KEYS)] for s in SEEDS]
    first = case['first']
    lock = chain.height if case['lock'] else None
    outs = [{'v': v * ONE + n, 'c': {'k': 'lock', 'v': lock, 'c': c} if lock else c} for c, m in zip(conds, case['multis']) for n, v in enumerate(m['outs'])]
    chain.grant(outs + [{'v': v * ONE, 'c': {'k': 'uh', 'uh': key(first * KEYS).uh}} for v in case['own']], case['conf'])
    known = [sim.addr_of(c) for c in conds if any(ref.uh_text(u) in mine[first] for u in c['uhs'])]
    source = known + ([mine[first][0]] if case['mixed'] else [])
    if not source:
        return
    s = chain.sheet(set(source))
    have = sum(s['available'].values()) + sum(s['unconfirmed'].values())
    amount = max(1, (have - chain.min_fee) * case['part'] // 1000)
    if amount + chain.min_fee > have:
        return
    args = dict(source=source, data=case['data'] or None)
    to = key(case['to']).addr if case['to'] < 6 else sim.key(b'\x55' * 32, 0).addr
    with wallets.once_submitted(chain):
        if case['builder']:
            r = ws[first].coin_transaction_builder_new().output_add(to, wallets.amount_arg(amount, 'tft')).send(**args)
        else:
            r = ws[first].coins_send(to, wallets.amount_arg(amount, 'currency'), **args)
    txn, submitted = r.transaction, r.submitted
    chain.check()
    t = ref.tx_parse(txn.json())
    parents = [sim.inner(chain.outputs[i['p']]['o']['c']) for i in t['ci']]
    multi = [n for n, c in enumerate(parents) if c['k'] == 'ms']

    def signatures(t):
        return {n: pairs_of(t, n) for n in multi}

    def enough(signed):
        return all(len(signed[n]) >= parents[n]['n'] for n in multi)

    def judge(w, before, after, submitted, wanted, aware, what):
        for n in multi:
            own = {ref.uh_text(u) for u in parents[n]['uhs']} & set(mine[w])
            added = after[n] - before[n]
            check(before[n] <= after[n], '{}: a signature disappeared', what)
            check(added <= own, '{}: signatures of others were added: {}', what, added - own)
            if n not in aware:
                eq(added, set(), what + ': signatures on an input the wallet knows nothing about')
            elif len(after[n]) < parents[n]['n']:
                eq(added, own - before[n], what + ': added signatures')
        chain.check()
        if submitted:
            check(wanted, '{}: submitted, although not asked to', what)
            check(enough(after), '{}: submitted with too few signatures', what)
            eq(len(chain.accepted), 1, what + ': accepted transactions')
        else:
            eq(len(chain.posted), 0, what + ': posted transactions')

    signed = signatures(t)
    judge(first, {n: set() for n in multi}, signed, submitted, True, set(multi), 'send')
    eq(submitted, enough(signed), 'send: submitted')
    for n, c in enumerate(parents):
        if n not in multi:
            f = t['ci'][n]['f']
            check(f['k'] == 'single' and f['sig'] and ref.pk_uh(f['pk']) == c['uh'] and sim.verifies(f['pk'], f['sig'], ref.sig_hash(t, ref.s_int(n))), 'the own input {} is not signed', n)
    ctx.label('several wallets in one transaction', len({sim.addr_of(parents[n]) for n in multi}) > 1)
    ctx.label('with own coins', len(multi) < len(parents))
    steps = 0
    carried = set(range(len(parents)))
    everything = bare(t)
    for o in case['steps']:
        if submitted:
            break
        if o['mine']:
            chain.mine(600)
        w = o['w']
        steps += 1
        handed = {'object': lambda: txn, 'dict': lambda: txn.json(), 'text': lambda: json.dumps(txn.json())}[o['form']]()
        before = signed
        # (what a wallet finds out by itself: its own outputs and those of its multi-signature wallets)
        # (a transaction handed over in memory also carries what was found out before)
        aware = {n for n, c in enumerate(parents) if any(ref.uh_text(u) in mine[w] for u in c.get('uhs', [c.get('uh')]))} | (carried if o['form'] == 'object' else set())
        carried = aware
        with wallets.once_submitted(chain):
            r = ws[w].transaction_sign(handed, submit=o['submit']) if not o['submit'] else ws[w].transaction_sign(handed)
        txn, submitted = r.transaction, r.submitted
        chain.check()
        t = ref.tx_parse(txn.json())
        signed = signatures(t)
        what = 'step {}, wallet {}'.format(steps, w)
        eq(bare(t), everything, what + ': the transaction, apart from signatures')
        judge(w, before, signed, submitted, o['submit'], aware, what)
        eq(r.signed, signed != before, what + ': reported as signed')
        if o['submit'] and r.signed and enough(signed) and len(aware) == len(parents):
            check(submitted, '{}: all signatures are there, but it is not submitted', what)
            ctx.label('completed by somebody else', w != first)
        if submitted:
            eq(ref.tx_json(chain.accepted[0].tx), ref.tx_json(t), what + ': submitted transaction')
            eq(str(txn.id), chain.accepted[0].id.hex(), what + ': id')
    ctx.nontrivial(steps and multi)
    ctx.label('submitted', submitted)
    chain.check()


def joint(case, ctx):
    """a transaction of outputs of several people, made by hand: everybody signs what is theirs"""
    chain = history.new_chain(case['world'])
    ws = [chain.wallet(s, KEYS) for s in SEEDS]
    mine = [[sim.key(s, k).addr for k in range(KEYS)] for s in SEEDS]
    conds = [{'k': 'uh', 'uh': key(x).uh} if isinstance(x, int) else condition(x) for x in case['ins']]
    e = chain.grant([{'v': 2 * ONE + n, 'c': c} for n, c in enumerate(conds)], case['conf'])
    txn = transactions.new()
    ins = []
    for n, (i, c) in enumerate(zip(e.ids(), conds)):
        o = build.coin_output({'v': 2 * ONE + n, 'c': c})
        o.id = i
        ins.append(CoinInput.from_coin_output(o))
    txn.coin_inputs = ins
    txn.coin_output_add(value=build.units(sum(2 * ONE + n for n in range(len(conds))) - chain.min_fee), condition=build.cond({'k': 'nil'}))
    txn.miner_fee_add(build.units(chain.min_fee))
    text = json.dumps(txn.json())
    signed = {n: set() for n in range(len(conds))}
    unsigned = [n for n, c in enumerate(conds) if c['k'] == 'uh']
    ctx.nontrivial(len(conds) > 1)
    for w in case['order']:
        with wallets.once_submitted(chain):
            r = ws[w].transaction_sign(text, submit=case['submit'])
        chain.check()
        t = ref.tx_parse(r.transaction.json())
        now = {}
        for n, c in enumerate(conds):
            own = {ref.uh_text(u) for u in c.get('uhs', [c.get('uh')])} & set(mine[w])
            if c['k'] == 'ms':
                now[n] = pairs_of(t, n)
                eq(now[n] - signed[n] if len(now[n]) < c['n'] else own, own - signed[n] if len(now[n]) < c['n'] else own, 'added signatures of input {}'.format(n))
                check(signed[n] <= now[n] <= signed[n] | own, 'signatures of input {}: {} after {}', n, now[n], signed[n])
            else:
                f = t['ci'][n]['f']
                now[n] = set()
                if f['sig']:
                    now[n] = {ref.uh_text(ref.pk_uh(f['pk']))}
                    check(sim.verifies(f['pk'], f['sig'], ref.sig_hash(t, ref.s_int(n))), 'the signature of input {} does not verify', n)
                eq(now[n], signed[n] | own, 'signature of input {}'.format(n))
        eq(r.signed, now != signed, 'reported as signed')
        signed = now
        full = all(len(signed[n]) >= c.get('n', 1) for n, c in enumerate(conds))
        check(full or not r.submitted, 'submitted while signatures are missing')
        eq(len(chain.posted), int(r.submitted), 'posted transactions')
        if r.submitted:
            check(case['submit'], 'submitted, although not asked to')
            ctx.label('submitted')
            return
        text = json.dumps(r.transaction.json())
    ctx.label('completely signed', full)


def crowd(case, ctx):
    """a transaction of very many outputs, of many addresses and multi-signature wallets: everybody signs all of what is theirs"""
    ctx.nontrivial()
    r = random.Random(case['seed'])
    chain = history.new_chain(case['world'])
    people = [[sim.key(SEEDS[p], n) for n in range(case['keys'])] for p in range(3)]
    conds = [{'k': 'uh', 'uh': k.uh} for ks in people for k in ks]
    for _ in range(case['multis']):
        owners = [r.choice(ks).uh for ks in r.sample(people, r.randrange(1, 4))]
        conds.append({'k': 'ms', 'n': r.randrange(1, len(owners) + 1), 'uhs': owners})
    one_place = r.choice(conds)
    outs = [{'v': r.randrange(1, ONE), 'c': one_place if r.random() < .3 else r.choice(conds)} for _ in range(case['outs'])]
    ids = []
    for n in range(0, len(outs), 9):
        ids += chain.grant(outs[n:n + 9], r.random() < .8).ids()
    used = sorted(r.sample(range(len(outs)), min(len(outs), case['inputs'])))
    r.shuffle(used)
    total = sum(outs[n]['v'] for n in used)
    if total <= chain.min_fee:
        return
    txn = transactions.new()
    for n in used:
        o = build.coin_output(outs[n])
        o.id = ids[n]
        txn.coin_inputs = list(txn.coin_inputs) + [CoinInput.from_coin_output(o)]
    txn.coin_output_add(value=build.units(total - chain.min_fee), condition=build.cond({'k': 'nil'}))
    txn.miner_fee_add(build.units(chain.min_fee))
    signed = [set() for _ in used]
    everything = bare(ref.tx_parse(txn.json()))
    for step, p in enumerate(r.sample(range(3), 3)):
        mine = {k.addr for k in people[p]}
        r_ = chain.wallet(SEEDS[p], case['keys']).transaction_sign(json.dumps(txn.json()))
        chain.check()
        txn = r_.transaction
        t = ref.tx_parse(txn.json())
        eq(bare(t), everything, 'step {}: the transaction, apart from signatures'.format(step))
        for i, n in enumerate(used):
            c = outs[n]['c']
            own = {ref.uh_text(u) for u in c.get('uhs', [c.get('uh')])} & mine
            if c['k'] == 'ms':
                now = pairs_of(t, i)
            else:
                f = t['ci'][i]['f']
                now = {ref.uh_text(ref.pk_uh(f['pk']))} if f['sig'] else set()
                check(not now or sim.verifies(f['pk'], f['sig'], ref.sig_hash(t, ref.s_int(i))), 'the signature of input {} does not verify', i)
            need = c.get('n', 1)
            check(signed[i] <= now <= signed[i] | own, 'step {}: signatures of input {}: {} after {}', step, i, now, signed[i])
            check(now == signed[i] | own or len(now) >= need, 'step {}: signatures of input {} are missing: {}', step, i, own - now)
            signed[i] = now
        full = all(len(s) >= outs[n]['c'].get('n', 1) for s, n in zip(signed, used))
        check(full or not r_.submitted, 'submitted while signatures are missing')
        eq(len(chain.posted), int(r_.submitted), 'posted transactions')
        if r_.submitted:
            break
    check(full, 'the transaction is not completely signed after everybody signed')
    ctx.label('submitted', r_.submitted)


def other_things(case, ctx):
    """what is no transaction cannot be signed"""
    ctx.nontrivial()
    chain = sim.Chain()
    w = chain.wallet(SEEDS[0], 1)
    for x in (None, 5, [], b'x', '', '{}', {}, 'x', '[]', {'version': 2, 'data': {}}, {'version': 1, 'data': {'coininputs': 5}}):
        rejects(lambda: w.transaction_sign(x), 'signing {!r}'.format(x), allow=(KeyError,))
    eq(chain.posted, [], 'posted transactions')


SUBS = [
    Sub('signing', case_st, signing, 2000, 20000, 'at least one wallet was asked to sign'),
    Sub('joint', st.fixed_dictionaries({'ins': st.lists(st.one_of(st.integers(0, 3 * KEYS - 1), multi), min_size=1, max_size=4), 'conf': st.booleans(), 'submit': st.booleans(), 'world': history.world,
                                        'order': st.lists(st.integers(0, 3), min_size=1, max_size=5)}), joint, 800, 10000, 'more than one input'),
    Sub('crowd', st.fixed_dictionaries({'seed': st.integers(0, 2**32), 'world': history.world, 'keys': st.integers(1, 15), 'multis': st.integers(0, 30), 'outs': st.integers(20, 120), 'inputs': st.sampled_from([1, 10, 40, 90, 99])}), crowd, 60, 800, 'every case', shards=4),
    Sub('other_things', st.just({}), other_things, 1, 1, 'every case', shards=1),
]
