"""C16: sending coins: valid, balanced, signed, and to whom it was said."""
import random

from hypothesis import strategies as st

from tfchain import errors

from pbt import build, history, ref, sim, wallets
from pbt.core import Sub, check, eq, fail, rejects
from pbt.wallets import Fault, Funds

out = st.fixed_dictionaries({'to': wallets.recipient, 'tform': wallets.form, 'v': wallets.amount, 'vform': wallets.amount_form, 'lock': history.lock})
send = st.fixed_dictionaries(dict(wallets.funding, op=st.just('send'), outs=st.lists(out, min_size=1, max_size=4), data=wallets.data,
                                  builder=st.booleans(), fault=st.one_of(st.none(), st.none(), st.just('after'), st.integers(0, 12))))
many = st.fixed_dictionaries({'op': st.just('many'), 'n': st.sampled_from([98, 99, 100, 130]), 'v': st.integers(1, 10**9), 'to': history.mine, 'conf': st.booleans()})
case_st = st.fixed_dictionaries({'world': history.world, 'keys': st.sampled_from([1, 2, 4, 4]), 'scan': st.sampled_from([0, -1, 2]), 'purse': wallets.purse,
                                 'ops': st.tuples(st.lists(history.op, max_size=3), st.one_of(st.just([]), st.just([]), st.just([]), st.lists(many, min_size=1, max_size=1)),
                                                  send, st.lists(st.one_of(send, send, history.op), max_size=6)).map(lambda t: t[0] + t[1] + [t[2]] + t[3])})


def new_chain(case):
    return history.new_chain(case['world'])


def play(chain, o):
    if o['op'] == 'many':
        c = history.condition(chain, o['to'])
        chain.grant([{'v': o['v'] + n, 'c': c} for n in range(o['n'])], o['conf'])
    else:
        history.play(chain, o)


def do_send(chain, w, o, keys):
    """send; returns (result or exception, funds, stated outputs)"""
    funds = Funds(chain, keys, o['source'])
    outs = o['outs'] if o['builder'] else o['outs'][:1]
    stated, args = [], []
    for x in outs:
        v = wallets.units_of(funds.best - chain.min_fee - sum(s['v'] for s in stated), x['v'])
        if x['to'][0] == 'swap':
            lock, lv = None, None
        else:
            lock, lv = wallets.lock_arg(chain, x['lock'], x['tform'])
        stated.append({'v': v, 'c': wallets.recipient_condition(chain, x['to'], lv)})
        args.append(dict(recipient=wallets.recipient_arg(chain, x['to'], x['tform']), amount=wallets.amount_arg(v, x['vform']), lock=lock))
    rest = dict(source=wallets.source_arg(o['source'], o['sform']), refund=None if o['refund'] is None else wallets.recipient_arg(chain, o['refund'], o['rform']), data=o['data'])
    chain.fault = Fault(o['fault']) if o['fault'] is not None else None
    builder = None
    try:
        if o['builder']:
            builder = w.coin_transaction_builder_new()
            for a in args:
                check(builder.output_add(**a) is builder, 'output_add does not return the builder')
            result = builder.send(**rest)
        else:
            result = w.coins_send(**dict(args[0], **rest))
    except Exception as e:
        result = e
    hit = chain.fault is not None and chain.fault.hit
    chain.fault = None
    if o['builder'] and not isinstance(result, Exception):
        rejects(lambda: builder.output_add(recipient=history.party(4).addr, amount=1), 'an output for a builder that has sent')
        rejects(lambda: builder.send(), 'a second send of a builder')
    if builder is not None and isinstance(result, Exception):
        # the builder may be used up; but if it can send again, it sends what was asked for
        chain.check()
        if len(chain.accepted) == funds.accepted:
            once = Funds(chain, keys, o['source'])
            try:
                late = builder.send(**rest)
            except Exception:
                chain.check()
                check(len(chain.accepted) == once.accepted, 'a failed send was done')
            else:
                t = once.judge_result(late, 'second send of a builder')
                once.judge_coins(t, stated, o['refund'], wallets.data_bytes(o['data']), 'second send of a builder')
                return result, funds, stated, 'again'
    return result, funds, stated, hit


def sending(case, ctx):
    chain = new_chain(case)
    wallets.fill(chain, case['purse'])
    w = chain.wallet(history.SEED, case['keys'], scan=case['scan'] if case['keys'] == 4 else 0)   # (all keys that are used are known)
    for o in case['ops']:
        if o['op'] != 'send':
            play(chain, o)
            continue
        wallets.topup(chain, o)
        result, funds, stated, hit = do_send(chain, w, o, case['keys'])
        total = sum(x['v'] for x in stated) + chain.min_fee
        if hit == 'again':
            ctx.label('a builder was used again')
            continue
        if hit:
            check(isinstance(result, Exception), 'a send during which the explorer failed is reported as done')
            check(isinstance(result, errors.ExplorerError), 'a failing explorer is reported as {!r}', result)
            chain.check()
            check(len(chain.accepted) == funds.accepted, 'a failed send was done')
            ctx.label('explorer failed')
            continue
        if not funds.enough(total):
            check(isinstance(result, errors.InsufficientFunds), 'sending {} of {} available: {!r}', total, funds.best, result)
            funds.unchanged('insufficient funds')
            ctx.label('insufficient funds')
            continue
        if isinstance(result, Exception):
            chain.check()
            raise result
        t = funds.judge_result(result, 'send')
        funds.judge_coins(t, stated, o['refund'], wallets.data_bytes(o['data']), 'send')
        eq(result.submitted, funds.signable([i['p'] for i in t['ci']]), 'submitted')
        eq(result.transaction.is_fulfilled(), result.submitted, 'fulfilled')
        ctx.nontrivial()
        ctx.label('submitted', result.submitted)
        ctx.label('from several sources', len({sim.addr_of(chain.outputs[i['p']]['o']['c']) for i in t['ci']}) > 1)
        ctx.label('rest goes back to a multi-signature wallet', o['refund'] is None and bool(o['source']) and len(o['source']) == 1 and o['source'][0][0] == 'ms' and len(t['co']) > len(stated))
        ctx.label('99 inputs', len(t['ci']) == 99)
        ctx.label('no refund', len(t['co']) == len(stated))
    chain.check()


BAD_AMOUNTS = ['0', '-1', 0, -1, '', 'x', '1.0000000001', '1 BTC', None, '1.2.3', b'1', [1]]
BAD_RECIPIENTS = wallets.NOT_PERSONAL + ['', 'abc', '01' + '0' * 76, 5, 1.5, {'a': 1}, [], ['abc'], (1,), (1, 2, 3), ([], 1)]
BAD_LOCKS = [-5, -1, '', 'x', '31/31/2019 10:00', 1.5, {}]
BAD_DATA = [b'x' * 84, 'y' * 84, '\u20ac' * 28, 5, {'a': 1}]
BAD_SOURCES = ['abc', '', 5, ['abc'], [5], '0' * 78, b'\1' * 33]


def bad(case, ctx):
    """bad requests are refused, and nothing is submitted"""
    chain = history.new_chain(case['world'])
    w = chain.wallet(history.SEED, 2)
    me = history.party(0)
    chain.grant([{'v': 100 * wallets.ONE, 'c': {'k': 'uh', 'uh': me.uh}}, {'v': 100 * wallets.ONE, 'c': {'k': 'ms', 'n': 1, 'uhs': [me.uh, history.party(4).uh]}}])
    good = dict(recipient=history.party(4).addr, amount='1', lock=None, source=None, refund=None, data=None)
    what, n = case['bad']
    values = {'amount': BAD_AMOUNTS, 'recipient': BAD_RECIPIENTS, 'refund': BAD_RECIPIENTS, 'lock': BAD_LOCKS, 'data': BAD_DATA, 'source': BAD_SOURCES}[what]
    value = values[n % len(values)]
    if what == 'recipient' and isinstance(value, list) and not value:
        return
    args = dict(good, **{what: value})
    if what == 'recipient' and case['erc20']:
        # an ERC20 address takes no lock and no data
        args = dict(good, recipient='0x' + '12' * 20, **{'lock': chain.height + 10} if n % 2 else {'data': b'x'})
    ctx.nontrivial()
    builder_args = {k: args[k] for k in ('recipient', 'amount', 'lock')}
    rest = {k: args[k] for k in ('source', 'refund', 'data')}

    def by_builder():
        b = w.coin_transaction_builder_new()
        b.output_add(good['recipient'], good['amount'])
        b.output_add(**builder_args)
        b.send(**rest)
    for fn in (lambda: w.coins_send(**args), by_builder):
        rejects(fn, 'sending with {} = {!r}'.format(what, value))
        chain.check()
        check(not chain.posted, 'a bad request was submitted: {}', chain.posted)
    # and the wallet still works
    r = w.coins_send(**good)
    check(r.submitted, 'a good request after a bad one is not submitted')
    chain.check()


def consumed(case, ctx):
    """a builder sends once"""
    ctx.nontrivial()
    chain = sim.Chain()
    w = chain.wallet(history.SEED, 1)
    if case['funds']:
        chain.grant([{'v': 100 * wallets.ONE, 'c': {'k': 'uh', 'uh': history.party(0).uh}}])
    b = w.coin_transaction_builder_new()
    b.output_add(history.party(4).addr, case['v'])
    try:
        b.send()
        check(case['funds'], 'sent without funds')
    except errors.InsufficientFunds:
        check(not case['funds'], 'insufficient funds')
    posted = len(chain.posted)
    if case['funds']:
        rejects(lambda: b.send(), 'a second send of a builder')
        rejects(lambda: b.output_add(history.party(4).addr, 1), 'an output for a builder that has sent')
    else:
        # whether it can be used again is open, but it says so if not
        try:
            b.send()
        except (errors.InsufficientFunds, RuntimeError):
            pass
    eq(len(chain.posted), posted, 'number of posted transactions')
    chain.check()


# more outputs than a transaction can spend, over the kinds of wallets and of outputs that can be used together
crowd = st.tuples(st.sampled_from([['p', 0], ['p', 1], ['ms', [0, 4], 1], ['ms', [0, 1], 2]]), st.booleans(), st.sampled_from([40, 60, 98, 99, 100, 110]), st.integers(10**8, 10**9))
NEAR = st.one_of(st.tuples(st.just('of'), st.integers(0, 1000), st.integers(-2, 2)).map(list), st.tuples(st.just('of'), st.sampled_from([900, 980, 990, 995, 1000]), st.integers(-2, 2)).map(list))
limit_st = st.tuples(st.lists(crowd, min_size=1, max_size=3), st.booleans(), send, st.lists(st.tuples(wallets.recipient, NEAR), min_size=1, max_size=2), st.sampled_from(['desc', 'asc', 'shuffled']))


def limit(case, ctx):
    crowds, stated, s, amounts, listing = case
    sources = []
    for c in crowds:
        if c[0] not in sources:
            sources.append(c[0])
    s = dict(s, source=sources if stated or any(x[0] == 'ms' for x in sources) else None, topup=None, builder=len(amounts) > 1, fault=None,
             outs=[{'to': to, 'tform': 0, 'v': v, 'vform': 'currency', 'lock': None} for to, v in amounts])
    ops = [{'op': 'many', 'n': n, 'v': v, 'to': to, 'conf': conf} for to, conf, n, v in crowds]
    sending({'world': {'network': 'testnet', 'age': history.AGES[0], 'listing': listing, 'shuffle': 0}, 'keys': 4, 'scan': 0, 'purse': [], 'ops': ops + [s]}, ctx)


# payments to many, from many keys
pays_st = st.fixed_dictionaries({'world': history.world, 'seed': st.integers(0, 2**32), 'keys': st.integers(1, 40), 'inputs': st.integers(1, 120), 'outs': st.integers(5, 200), 'multis': st.sampled_from([0, 0, 5, 30, 60]), 'short': st.sampled_from([0, 0, 0, 1, 7]), 'refund': st.booleans()})


def pays(case, ctx):
    """a builder pays everybody, whether they are few or many, and everybody's coins pay for it"""
    ctx.nontrivial()
    r = random.Random(case['seed'])
    chain = history.new_chain(case['world'])
    ks = [sim.key(history.SEED, n) for n in range(case['keys'])]
    n = min(case['inputs'], 99)
    stated = [{'v': r.choice([r.randrange(1, 10**9), r.randrange(1, 100) * 10**9]), 'c': {'k': 'uh', 'uh': sim.key(history.OTHER, r.randrange(100)).uh}} for _ in range(case['outs'])]
    total = sum(o['v'] for o in stated) + chain.min_fee
    # what there is, is what it takes, or a bit less, in coins of similar sizes over all keys
    have = max(n, total - case['short'])
    parts = [have // n + (1 if i < have % n else 0) for i in range(n)]
    for i, v in enumerate(parts):
        if i % 2 and i + 1 < n:
            d = r.randrange(0, v // 4 + 1)
            parts[i] -= d
            parts[i + 1] += d
    # (of keys of the wallet, and of multi-signature wallets which any of them can spend from)
    cs = [{'k': 'uh', 'uh': k.uh} for k in ks]
    ms = [{'k': 'ms', 'n': 1, 'uhs': [ks[i % len(ks)].uh, sim.key(history.OTHER, i).uh]} for i in range(case['multis'])]
    cs += ms
    r.shuffle(cs)
    chain.grant([{'v': v, 'c': cs[i % len(cs)]} for i, v in enumerate(parts)])
    spent = set(chain.entries[-1].ids())
    w = chain.wallet(history.SEED, len(ks))
    b = w.coin_transaction_builder_new()
    for o in stated:
        b.output_add(ref.uh_text(o['c']['uh']), build.units(o['v']))
    try:
        result = b.send(source=[sim.addr_of(c) for c in cs] if ms else None, refund=history.party(5).addr if case['refund'] else None)
    except errors.InsufficientFunds:
        check(case['short'] and have < total, 'sending {} of {} coins is refused', total, have)
        eq(len(chain.posted), 0, 'posted transactions')
        return
    check(have >= total, 'sending {} of {} coins is not refused', total, have)
    check(result.submitted, 'a payment from {} keys to {} was not submitted', len(ks), case['outs'])
    t = chain.entries[-1].tx
    eq(len(chain.accepted), 1, 'accepted transactions')
    ctx.label('from many multi-signature wallets', len(ms) > 20 and n > 20)
    eq([ref.output_json(o) for o in t['co'][:len(stated)]], [ref.output_json(o) for o in stated], 'what is paid')
    eq({i['p'] for i in t['ci']}, spent, 'what is spent')
    eq([len(t['co']) - len(stated), sum(t['fees'])], [0, chain.min_fee], 'other outputs and the fee')
    chain.check()


SUBS = [
    Sub('pays', pays_st, pays, 60, 900, 'every case', shards=4),
    Sub('sending', case_st, sending, 900, 15000, 'a send with enough funds'),
    Sub('limit', limit_st, limit, 120, 2500, 'a send with enough funds, from wallets with tens of outputs'),
    Sub('bad', st.fixed_dictionaries({'bad': st.tuples(st.sampled_from(['amount', 'recipient', 'refund', 'lock', 'data', 'source']), st.integers(0, 35)).map(list), 'erc20': st.booleans(), 'world': history.world}),
        bad, 300, 1500, 'every case', shards=1),
    Sub('consumed', st.fixed_dictionaries({'v': st.integers(1, 90), 'funds': st.booleans()}), consumed, 20, 100, 'every case', shards=1),
]
