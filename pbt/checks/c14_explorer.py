"""C14: explorer answers are checked, not believed."""
import copy
import json

from hypothesis import strategies as st

from tfchain import errors
from tfchain.TFChainClient import TFChainClient
from tfchain.types.ConditionTypes import UnlockHash
from tfchain.types.CryptoTypes import PublicKey
from tfchain.types.PrimitiveTypes import Hash
from tfchain.types.ThreeBot import BotName

from pbt import build, gen, ref, sim
from pbt.checks.c08_transaction_json import fields, want_json
from pbt.core import Sub, check, eq, fail, rejects


# ------------------------------------------------------------------ plain explorer transactions

def outs(t):
    return sim.coin_outputs(t)


def bouts(t):
    return t.get('bo', [])


def etx_id(e):
    return ref.b2(b'tx' + ref.tx_binary(e['t']) + e['n'].to_bytes(2, 'big'))


def oids(e):
    i0 = etx_id(e)
    return [ref.b2(i0 + i.to_bytes(2, 'big')) for i in range(len(outs(e['t'])))]


def boids(e):
    i0 = etx_id(e)
    return [ref.b2(i0 + b'b' + i.to_bytes(2, 'big')) for i in range(len(bouts(e['t'])))]


def cycle(xs, n):
    return [xs[i % len(xs)] for i in range(n)]


def coin_parents(e):
    return cycle(e['ps'], len(e['t'].get('ci', [])))


def stake_parents(e):
    return cycle(e['bps'], len(e['t'].get('bi', [])))


def lst(xs, how):
    """how an explorer writes an empty list"""
    return xs if xs else {'null': None, 'empty': [], 'absent': '-'}[how]


def clean(d):
    return {k: v for k, v in d.items() if v != '-'}


def etx_json(e):
    p = lambda o: dict(ref.output_json(o), unlockhash=sim.addr_of(o['c']))
    return clean({
        'id': etx_id(e).hex(), 'height': e['h'] or 0, 'parent': '00' * 32, 'rawtransaction': ref.tx_json(e['t']), 'hextransaction': '',
        'coininputoutputs': lst([p(o) for o in coin_parents(e)], e['e']), 'coinoutputids': lst([i.hex() for i in oids(e)], e['e']),
        'coinoutputunlockhashes': lst([sim.addr_of(o['c']) for o in outs(e['t'])], 'null'),
        'blockstakeinputoutputs': lst([p(o) for o in stake_parents(e)], e['e']), 'blockstakeoutputids': lst([i.hex() for i in boids(e)], e['e']),
        'unconfirmed': True if e['h'] is None else (False if e['e'] != 'absent' else '-')})


def is_tx(x, e, what):
    """x is the explorer transaction e"""
    t = e['t']
    fields(x, dict(t, ver=1) if t['ver'] == 0 and int(x.version) == 1 else t, what)
    eq(build.to_text(x.json()), want_json(t), what + ': JSON')
    eq(str(x.id), etx_id(e).hex(), what + ': identifier')
    eq(bool(x.unconfirmed), e['h'] is None, what + ': unconfirmed')
    if e['h'] is not None:
        eq(x.height, e['h'], what + ': height')
    eq([str(o.id) for o in x.coin_outputs], [i.hex() for i in oids(e)], what + ': identifiers of the coin outputs')
    eq([str(o.id) for o in x.blockstake_outputs], [i.hex() for i in boids(e)], what + ': identifiers of the blockstake outputs')
    for ins, parents, k, name in ((x.coin_inputs, coin_parents(e), 'ci', 'coin'), (x.blockstake_inputs, stake_parents(e), 'bi', 'blockstake')):
        eq(len(ins), len(parents), '{}: {} inputs'.format(what, name))
        for n, (i, p) in enumerate(zip(ins, parents)):
            po = i.parent_output
            check(po is not None, '{}: {} input {} has no parent output', what, name, n)
            eq([build.to_text(po.json()), str(po.id)], [ref.output_json(p), t[k][n]['p'].hex()], '{}: parent output of {} input {}'.format(what, name, n))


height = st.sampled_from([65535, 65536, 2**24 - 1, 2**24, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1])
etx = st.fixed_dictionaries({
    't': gen.any_tx, 'n': st.integers(0, 255), 'h': st.one_of(st.integers(0, 5), st.integers(0, 10**6), st.none(), height),
    'ps': st.lists(gen.coin_output, min_size=1, max_size=3), 'bps': st.lists(gen.stake_output, min_size=1, max_size=2),
    'e': st.sampled_from(['null', 'empty', 'absent'])})


def client(answers, posted=None):
    """a client of an explorer that gives these answers (None: nothing found)"""
    c = TFChainClient(network_type='testnet')
    asked = []

    def get(endpoint):
        asked.append(endpoint)
        if endpoint not in answers:
            fail('unexpected request {}', endpoint)
        if answers[endpoint] is None:
            raise errors.ExplorerNoContent('nothing found', endpoint)
        return json.dumps(answers[endpoint])
    c.explorer_get = get
    c.asked = asked
    return c


def forms(h):
    return [h.hex(), bytes(h), bytearray(h), Hash(value=h)]


# ------------------------------------------------------------------ blocks

def block_json(b):
    return clean({'blockid': b['id'].hex(), 'height': b['h'], 'difficulty': '17', 'transactions': [etx_json(e) for e in b['txs']],
            'minerpayoutids': lst([ref.b2(b['id'] + i.to_bytes(2, 'big')).hex() for i in range(len(b['pay']))], b['e']),
            'rawblock': clean({'parentid': b['parent'].hex(), 'timestamp': b['time'], 'pobsindexes': {'BlockHeight': 0},
                               'minerpayouts': lst([{'value': str(v), 'unlockhash': ref.uh_text(u)} for v, u in b['pay']], b['e'])})})


def blocked(b):
    """(transactions in a block have its height)"""
    b['txs'] = [dict(e, h=b['h'], n=n) for n, e in enumerate(b['txs'])]
    return b


a_block = st.fixed_dictionaries({
    'id': gen.b32, 'parent': gen.b32, 'h': st.one_of(st.integers(0, 10**6), height), 'time': st.integers(1, 2**33), 'txs': st.lists(etx, max_size=3),
    'pay': st.lists(st.tuples(gen.units, gen.uh_any).map(list), max_size=3), 'e': st.sampled_from(['null', 'empty', 'absent'])}).map(blocked)


def is_block(x, b, what):
    eq([x.id, str(x), x.parentid, x.height, x.timestamp], [b['id'].hex()] * 2 + [b['parent'].hex(), b['h'], b['time']], what)
    eq([(m.id, m.value.json(), m.unlockhash) for m in x.miner_payouts],
       [(ref.b2(b['id'] + i.to_bytes(2, 'big')).hex(), str(v), ref.uh_text(u)) for i, (v, u) in enumerate(b['pay'])], what + ': miner payouts')
    eq(len(x.transactions), len(b['txs']), what + ': number of transactions')
    for n, (t, e) in enumerate(zip(x.transactions, b['txs'])):
        is_tx(t, e, '{}: transaction {}'.format(what, n))


def hash_answer(kind, **k):
    return dict({'hashtype': kind, 'block': {'minerpayoutids': None, 'transactions': None}, 'blocks': None, 'transaction': {'id': '00' * 32},
                 'transactions': None, 'multisigaddresses': None, 'unconfirmed': False}, **k)


def block(case, ctx):
    b = case['b']
    ctx.nontrivial(bool(b['txs']))
    by_id, by_height = '/explorer/hashes/' + b['id'].hex(), '/explorer/blocks/{}'.format(b['h'])
    c = client({by_id: hash_answer('blockid', block=block_json(b)), by_height: {'block': block_json(b)},
                '/explorer': {'blockid': b['id'].hex(), 'height': b['h']}})
    is_block(c.block_get(b['h']), b, 'block by height')
    for f in forms(b['id']):
        is_block(c.block_get(f), b, 'block by identifier')
    info = c.blockchain_info_get()
    eq([info.blockid, info.height, info.timestamp], [b['id'].hex(), b['h'], b['time']], 'chain info')
    is_block(info.last_block, b, 'last block')
    c = client({by_id: None, by_height: None})
    for v in (b['h'], b['id']):
        absent(lambda: c.block_get(v), 'block')


def absent(fn, what, exc=errors.ExplorerNoContent):
    try:
        fn()
    except exc:
        return
    except Exception as e:
        fail('an absent {} is reported as {!r}', what, e)
    fail('an absent {} is not reported', what)


# ------------------------------------------------------------------ transactions and outputs

def tx(case, ctx):
    e = case['e']
    ctx.label('v{}'.format(e['t']['ver']))
    ctx.nontrivial(bool(oids(e) or coin_parents(e)))
    where = '/explorer/hashes/' + etx_id(e).hex()
    c = client({where: hash_answer('transactionid', transaction=etx_json(e))})
    for f in forms(etx_id(e)):
        is_tx(c.transaction_get(f), e, 'transaction')
    c = client({where: None})
    absent(lambda: c.transaction_get(etx_id(e)), 'transaction')


def output(case, ctx):
    """(output, creation transaction, spending transaction)"""
    e, s, n = case['e'], case['s'], case['i']
    which = [(i, o, 'coin') for i, o in zip(oids(e), outs(e['t']))] + [(i, o, 'blockstake') for i, o in zip(boids(e), bouts(e['t']))]
    if not which:
        return
    oid, o, kind = which[n % len(which)]
    txs = [etx_json(e)]
    spent = s is not None and bool(s['t'].get('ci' if kind == 'coin' else 'bi'))
    if spent:
        # it spends the output, at the earliest in the same block
        s = copy.deepcopy(s)
        s['t']['ci' if kind == 'coin' else 'bi'][0]['p'] = oid
        s['h'] = None if e['h'] is None or case['d'] is None else e['h'] + case['d']
        ctx.label('spent at the same height' if s['h'] == e['h'] and s['h'] is not None else 'spent unconfirmed' if s['h'] is None else 'spent later')
        txs.insert(case['at'], etx_json(s))
    ctx.nontrivial(spent)
    where = '/explorer/hashes/' + oid.hex()
    c = client({where: hash_answer(kind + 'outputid', transactions=txs)})
    get = {'coin': c.coin_output_get, 'blockstake': c.blockstake_output_get}
    for f in forms(oid):
        got, created, spender = get[kind](f)
        eq([build.to_text(got.json()), str(got.id)], [ref.output_json(o), oid.hex()], kind + ' output')
        is_tx(created, e, 'creation transaction')
        check((spender is not None) == spent, 'the {} output is reported as {}, but is {}', kind, 'spent' if spender else 'unspent', 'spent' if spent else 'unspent')
        if spent:
            is_tx(spender, s, 'spending transaction')
    if spent:
        # a transaction which spends something else does not spend it
        s['t']['ci' if kind == 'coin' else 'bi'][0]['p'] = bytes(32) if oid != bytes(32) else b'\1' * 32
        if not any(i['p'] == oid for i in s['t']['ci' if kind == 'coin' else 'bi']):
            txs[case['at']] = etx_json(s)
            for t in (txs, txs[::-1]):
                refused(lambda: getattr(client({where: hash_answer(kind + 'outputid', transactions=t)}), kind + '_output_get')(oid), 'a transaction which does not spend the {} output'.format(kind))
    refused(lambda: get['blockstake' if kind == 'coin' else 'coin'](oid), '{} output asked for as the other kind'.format(kind))
    c = client({where: None})
    absent(lambda: (c.coin_output_get if kind == 'coin' else c.blockstake_output_get)(oid), 'output')


# ------------------------------------------------------------------ addresses

def addresses(case, ctx):
    uh, es, ms = case['uh'], [dict(e, n=n) for n, e in enumerate(case['txs'])], case['ms']
    addr = ref.uh_text(uh)
    ctx.nontrivial(len(es) > 1)
    a = hash_answer('unlockhash', transactions=lst([etx_json(e) for e in es], case['e'] if case['e'] != 'absent' else 'null'),
                    multisigaddresses=lst([ref.uh_text(m) for m in ms], case['e']))
    erc = None
    if case['erc'] is not None:
        erc = {'tftaddress': addr, 'erc20address': '0x' + ref.erc20_of(uh).hex(), 'confirmations': case['erc']}
        a['erc20info'] = erc
    c = client({'/explorer/hashes/' + addr: clean(a)})
    for f in (addr, UnlockHash.from_json(addr)):
        r = c.unlockhash_get(f)
        eq(str(r.unlockhash), addr, 'address')
        eq([str(m) for m in r.multisig_addresses], [ref.uh_text(m) for m in ms], 'multi-signature addresses')
        got = [str(t.id) for t in r.transactions]
        eq(sorted(got), sorted(etx_id(e).hex() for e in es), 'transactions of the address')
        by = {etx_id(e).hex(): e for e in es}
        for t in r.transactions:
            is_tx(t, by[str(t.id)], 'transaction of the address')
        order = [float('inf') if by[i]['h'] is None else by[i]['h'] for i in got]
        eq(order, sorted(order, reverse=True), 'heights, newest first')
        if erc is None:
            check(r.erc20_info is None, 'an address which is not registered has ERC20 information')
        else:
            is_erc(r.erc20_info, erc)
    if erc is None:
        absent(lambda: c.erc20.address_get(addr), 'ERC20 registration')
    else:
        is_erc(c.erc20.address_get(addr), erc)
    # only the address of a single person can be registered, so that only those are looked up
    c = client({'/explorer/hashes/' + ref.uh_text([k, uh[1] if k else bytes(32)]): clean(a) for k in (0, 2, 3)})
    for k in (0, 2, 3):
        other = ref.uh_text([k, uh[1] if k else bytes(32)])
        for f in (other, UnlockHash.from_json(other)):
            rejects(lambda: c.erc20.address_get(f), 'ERC20 registration of an address of type {}'.format(k))
    eq(c.asked, [], 'requests for addresses which cannot be registered')
    c = client({'/explorer/hashes/' + addr: None})
    absent(lambda: c.unlockhash_get(addr), 'address')
    absent(lambda: c.erc20.address_get(addr), 'ERC20 registration')


def is_erc(info, erc):
    eq([str(info.address_tft), str(info.address_erc20), info.confirmations], [erc['tftaddress'], erc['erc20address'], erc['confirmations']], 'ERC20 information')


def target(case, ctx):
    """ways to name a wallet"""
    owners, n = case['owners'], case['n']
    ctx.nontrivial()
    texts = [ref.uh_text(u) for u in owners]
    addr = lambda m: ref.uh_text(ref.condition_uh({'k': 'ms', 'n': m, 'uhs': owners}))
    for t, want in ((texts, addr(len(owners))), ((texts, n), addr(n)), (None, '0' * 78), (texts[0], texts[0])):
        where = '/explorer/hashes/' + want
        c = client({where: hash_answer('unlockhash', transactions=[])})
        eq(str(c.unlockhash_get(t).unlockhash), want, 'wallet named by {!r}'.format(t))
        eq(c.asked, [where], 'requests')


def large(case, ctx):
    """answers with very many parts lose none of them"""
    what, count = case['what'], case['count']
    ctx.label(what)
    ctx.nontrivial()
    e, b = case['e'], case['b']
    if what == 'transaction':
        # one transaction with very many inputs and outputs
        t = e['t'] = copy.deepcopy(e['t'])
        for k in ('co', 'bo'):
            if t.get(k):
                t[k] = cycle(t[k], count)
        for k in ('ci', 'bi'):
            if t.get(k):
                t[k] = [dict(i, p=ref.b2(i['p'] + n.to_bytes(2, 'big'))) for n, i in enumerate(cycle(t[k], count))]
        es = [e]
    else:
        es = [dict(e, n=n) for n in range(count if what == 'block' or what == 'address' else 1)]
    if what in ('block', 'payouts'):
        pay = cycle(b['pay'], count if what == 'payouts' else 2) if b['pay'] else []
        b = dict(b, txs=[dict(x, h=b['h']) for x in es], pay=pay)
        where = '/explorer/blocks/{}'.format(b['h'])
        is_block(client({where: {'block': block_json(b)}}).block_get(b['h']), b, 'block')
        where = '/explorer/hashes/' + b['id'].hex()
        is_block(client({where: hash_answer('blockid', block=block_json(b))}).block_get(b['id']), b, 'block')
    elif what == 'transaction':
        where = '/explorer/hashes/' + etx_id(e).hex()
        is_tx(client({where: hash_answer('transactionid', transaction=etx_json(e))}).transaction_get(etx_id(e)), e, 'transaction')
    else:
        ms = [ref.uh_text([3, ref.b2(b['id'] + n.to_bytes(2, 'big'))]) for n in range(count if what == 'wallets' else 2)]
        addr = ref.uh_text([1, b['id']])
        a = hash_answer('unlockhash', transactions=[etx_json(x) for x in es], multisigaddresses=ms)
        r = client({'/explorer/hashes/' + addr: a}).unlockhash_get(addr)
        eq(sorted(str(t.id) for t in r.transactions), sorted(etx_id(x).hex() for x in es), 'transactions of the address')
        eq([str(m) for m in r.multisig_addresses], ms, 'multi-signature addresses')


# ------------------------------------------------------------------ mint conditions, bots, posting

def mint(case, ctx):
    c_, h = case['c'], case['h']
    ctx.nontrivial(c_['k'] != 'nil')
    where = '/explorer/mintcondition' + ('' if h is None else '/{}'.format(h))
    c = client({where: {'mintcondition': ref.condition_json(c_)}})
    for f in [None] if h is None else [h, str(h)]:
        eq(build.to_text(c.minter.condition_get(f).json()), ref.condition_json(c_), 'mint condition')
    refused(lambda: client({where: {'condition': {}}}).minter.condition_get(h), 'mint condition without the condition')
    absent(lambda: client({where: None}).minter.condition_get(h), 'mint condition')


def bot(case, ctx):
    b, by = case['b'], case['by']
    ctx.label(by)
    ctx.nontrivial(bool(b['names'] and b['addrs']))
    pk = ref.pk_text(b['pk'])
    record = clean({'id': b['id'], 'names': lst(b['names'], b['e']), 'addresses': lst(b['addrs'], b['e']), 'publickey': pk, 'expiration': b['exp']})
    ident, where = {'id': ([b['id']], '/explorer/3bot/{}'.format(b['id'])),
                    'pk': ([pk, PublicKey.from_json(pk)], '/explorer/3bot/' + pk),
                    'name': ([case['name'], BotName(value=case['name'])], '/explorer/whois/3bot/' + case['name'])}[by]
    c = client({where: {'record': record}})
    for f in ident:
        r = c.threebot.record_get(f)
        eq([r.identifier, [str(n) for n in r.names], [str(a) for a in r.addresses], str(r.public_key), r.expiration],
           [b['id'], b['names'], [ref.netaddr(a)[2] for a in b['addrs']], pk, b['exp']], 'bot record')
        absent(lambda: client({where: None}).threebot.record_get(f), 'bot', errors.ThreeBotNotFound)
        for k in ('id', 'publickey', 'expiration'):
            refused(lambda: client({where: {'record': {q: v for q, v in record.items() if q != k}}}).threebot.record_get(f), 'bot record without ' + k)
        refused(lambda: client({where: {}}).threebot.record_get(f), 'answer without a bot record')
    for bad in ('x', 'ed25519:00', '12', 1.5, None, b'\0' * 32):
        rejects(lambda: client({}).threebot.record_get(bad), 'bot identifier {!r}'.format(bad))


def put(case, ctx):
    t, txid = case['t'], case['id']
    ctx.nontrivial()
    ctx.label('v{}'.format(t['ver']))
    c = TFChainClient(network_type='testnet')
    got = []
    answer = {'transactionid': txid.hex()}

    def post(endpoint, data):
        got.append((endpoint, data))
        return json.dumps(answer)
    c.explorer_post = post
    from tfchain.types import transactions
    x = build.from_text(transactions.from_json, ref.tx_json(t))
    for form in (x, want_json(t)):
        eq(c.transaction_put(form), txid.hex(), 'identifier of the submitted transaction')
        endpoint, data = got.pop()
        eq(endpoint, '/transactionpool/transactions', 'endpoint')
        eq(build.to_text(data if not isinstance(data, str) else json.loads(data)), want_json(t), 'what was submitted')
    for a in ({}, {'id': txid.hex()}):
        answer = a
        refused(lambda: c.transaction_put(x), 'answer {} to a submission'.format(a))
    answer = {'transactionid': txid.hex()[:-2]}
    rejects(lambda: c.transaction_put(x), 'answer {} to a submission'.format(answer))


# ------------------------------------------------------------------ broken answers

def refused(fn, what):
    """the answer is reported as invalid"""
    try:
        got = fn()
    except errors.ExplorerInvalidResponse as e:
        check(isinstance(e.response, dict) and e.endpoint.startswith('/'), '{}: the error says nothing about the answer: {!r} {!r}', what, e.endpoint, e.response)
        return
    except Exception as e:
        fail('{}: reported as {!r} instead of an invalid response', what, e)
    fail('{}: was believed ({!r})', what, got)


def break_etx(j, e, how, n):
    """break an explorer transaction; None if that is not possible for this one"""
    kind, key = how
    if kind == 'drop':
        if key not in j or (key not in ('id', 'rawtransaction', 'height') and not j[key]) or (key == 'height' and e['h'] is None):
            return None
        del j[key]
        return 'transaction without ' + key
    have = j.get(key) or []
    if kind == 'less':
        if not have:
            return None
        j[key] = have[:n % len(have)] + have[n % len(have) + 1:]
        return 'transaction with one of its {} less'.format(key)
    j[key] = have + [have[0] if have else '11' * 32 if key.endswith('ids') else {'value': '1', 'condition': {}}]
    return 'transaction with one of its {} more'.format(key)


LISTS = ['coininputoutputs', 'coinoutputids', 'blockstakeinputoutputs', 'blockstakeoutputids']
ETX_BREAKS = [['drop', k] for k in ['id', 'rawtransaction', 'height'] + LISTS] + [[w, k] for w in ('less', 'more') for k in LISTS]
BLOCK_BREAKS = [['drop', k] for k in ('blockid', 'height', 'transactions', 'rawblock', 'minerpayoutids')] + \
    [['rawdrop', k] for k in ('parentid', 'timestamp', 'minerpayouts')] + [['payout', k] for k in ('value', 'unlockhash')] + \
    [['ids', 'less'], ['ids', 'more'], ['other', 'id'], ['other', 'height']]


def broken(case, ctx):
    b, how, n = case['b'], case['how'], case['n']
    txs = b['txs']
    i = n % len(txs)
    e = txs[i]
    where = '/explorer/hashes/' + etx_id(e).hex()
    scope = case['scope']
    ctx.label(scope)
    if scope == 'kind':
        # an answer about an object of another kind
        kinds = ['blockid', 'transactionid', 'unlockhash', 'coinoutputid', 'blockstakeoutputid', '', 'block']
        a = hash_answer(kinds[n % len(kinds)], block=block_json(b), transaction=etx_json(e), transactions=[etx_json(e)])
        if case['drop']:
            del a['hashtype']
        uh = ref.uh_text([1, b['id']])
        calls = {'blockid': (b['id'].hex(), lambda c: c.block_get(b['id'])), 'transactionid': (etx_id(e).hex(), lambda c: c.transaction_get(etx_id(e))),
                 'unlockhash': (uh, lambda c: c.unlockhash_get(uh))}
        for k, v in (('coin', oids(e)), ('blockstake', boids(e))):
            if v:
                calls[k + 'outputid'] = (v[0].hex(), lambda c, k=k, v=v: getattr(c, k + '_output_get')(v[0]))
        for k, (h, call) in calls.items():
            if k != a.get('hashtype'):
                ctx.nontrivial()
                refused(lambda: call(client({'/explorer/hashes/' + h: a})), '{} for {}'.format(a.get('hashtype'), k))
        if a.get('hashtype') != 'unlockhash':
            refused(lambda: client({'/explorer/hashes/' + uh: a}).erc20.address_get(uh), '{} for an ERC20 registration'.format(a.get('hashtype')))
    elif scope == 'other':
        # ... about another object
        other = case['o']
        if other in (etx_id(e), b['id']):
            return
        ctx.nontrivial()
        refused(lambda: client({'/explorer/hashes/' + other.hex(): hash_answer('transactionid', transaction=etx_json(e))}).transaction_get(other), 'another transaction')
        refused(lambda: client({'/explorer/hashes/' + other.hex(): hash_answer('blockid', block=block_json(b))}).block_get(other), 'another block')
        for h in (b['h'] + 1 + n, b['h'] - 1 - n % max(1, b['h'])):
            if h < 0:
                continue
            refused(lambda: client({'/explorer/blocks/{}'.format(h): {'block': block_json(b)}}).block_get(h), 'a block of another height')
        refused(lambda: client({'/explorer': {'blockid': other.hex(), 'height': 5}, '/explorer/hashes/' + other.hex(): hash_answer('blockid', block=block_json(b))})
                .blockchain_info_get(), 'another last block')
        refused(lambda: client({'/explorer': {'height': 5}}).blockchain_info_get(), 'chain info without block')
        for k in ('coin', 'blockstake'):
            get = lambda c: getattr(c, k + '_output_get')(other)
            many = [etx_json(x) for x in (txs * 3)]
            for count in (0, 1, 2, 3):
                a = hash_answer(k + 'outputid', transactions=many[:count])
                refused(lambda: get(client({'/explorer/hashes/' + other.hex(): a})), '{} transactions none of which creates the {} output'.format(count, k))
        if case['ms'][0] != 3:
            uh = ref.uh_text([1, other])
            for ms in ([case['ms']], [case['ms'], [3, other]], [[3, other], case['ms']]):
                a = hash_answer('unlockhash', transactions=[], multisigaddresses=[ref.uh_text(m) for m in ms])
                refused(lambda: client({'/explorer/hashes/' + uh: a}).unlockhash_get(uh), 'multi-signature address of type {}'.format(case['ms'][0]))
        uh = ref.uh_text([1, other])
        for k in ('tftaddress', 'erc20address', 'confirmations'):
            info = {'tftaddress': uh, 'erc20address': '0x' + ref.erc20_of([1, other]).hex(), 'confirmations': 3}
            del info[k]
            c = client({'/explorer/hashes/' + uh: hash_answer('unlockhash', transactions=[], erc20info=info)})
            refused(lambda: c.unlockhash_get(uh), 'ERC20 information without ' + k)
            refused(lambda: c.erc20.address_get(uh), 'ERC20 information without ' + k)
    elif scope == 'tx':
        j = etx_json(e)
        what = break_etx(j, e, ETX_BREAKS[how % len(ETX_BREAKS)], n)
        if what is None:
            return
        ctx.nontrivial()
        ctx.label(what)
        refused(lambda: client({where: hash_answer('transactionid', transaction=j)}).transaction_get(etx_id(e)), what)
        bj = block_json(b)
        bj['transactions'][i] = j
        refused(lambda: client({'/explorer/hashes/' + b['id'].hex(): hash_answer('blockid', block=bj)}).block_get(b['id']), what + ' in a block')
        uh = ref.uh_text([1, b['id']])
        refused(lambda: client({'/explorer/hashes/' + uh: hash_answer('unlockhash', transactions=bj['transactions'])}).unlockhash_get(uh), what + ' of an address')
        if oids(e):
            refused(lambda: client({'/explorer/hashes/' + oids(e)[0].hex(): hash_answer('coinoutputid', transactions=[j])}).coin_output_get(oids(e)[0]),
                    what + ' that created an output')
    else:
        kind, key = BLOCK_BREAKS[how % len(BLOCK_BREAKS)]
        bj = block_json(b)
        raw = bj['rawblock']
        by_height = True
        if kind == 'drop' and bj.get(key):
            del bj[key]
        elif kind == 'rawdrop' and raw.get(key):
            del raw[key]
        elif kind == 'payout' and b['pay']:
            del raw['minerpayouts'][n % len(b['pay'])][key]
        elif kind == 'ids':
            have = ids = bj.get('minerpayoutids') or []
            ids = ids + ['11' * 32] if key == 'more' else ids[1:]
            if ids == have:
                return
            bj['minerpayoutids'] = ids
        else:
            return
        ctx.nontrivial()
        ctx.label('{} {}'.format(kind, key))
        refused(lambda: client({'/explorer/hashes/' + b['id'].hex(): hash_answer('blockid', block=bj)}).block_get(b['id']), 'block: {} {}'.format(kind, key))
        refused(lambda: client({'/explorer/blocks/{}'.format(b['h']): {'block': bj}}).block_get(b['h']), 'block: {} {}'.format(kind, key))
        refused(lambda: client({'/explorer/blocks/{}'.format(b['h']): {}}).block_get(b['h']), 'no block')


# ------------------------------------------------------------------ the same client, again and again

look = st.fixed_dictionaries({'q': st.integers(0, 2), 'x': st.sampled_from([0, 0, 1]), 'move': st.sampled_from([True, True, False]),
                              'h': st.one_of(st.none(), st.integers(0, 9)), 'n': st.integers(0, 3), 'form': st.integers(0, 3)})
kinds = st.sampled_from(['tx', 'output', 'address', 'erc20', 'mint', 'bot', 'info', 'block'])
lookups_st = st.fixed_dictionaries({'es': st.lists(etx, min_size=2, max_size=3), 'uhs': st.lists(gen.uh_pk, min_size=2, max_size=2, unique_by=ref.uh_text), 'cs': st.lists(gen.condition, min_size=2, max_size=4),
                                    'names': st.lists(gen.bot_name, min_size=2, max_size=2, unique=True), 'pks': st.lists(gen.pk, min_size=2, max_size=3), 'blocks': st.lists(a_block, min_size=4, max_size=4, unique_by=lambda b: b['id']),
                                    'kinds': st.tuples(kinds, kinds, kinds).map(list), 'ops': st.lists(look, min_size=3, max_size=10)})


def lookups(case, ctx):
    """a client which is asked for things while they change: the answer is about now, and earlier answers stay what they were"""
    answers, judges = {}, []
    c = client(answers)
    es = [dict(copy.deepcopy(e), n=n, h=None) for n, e in enumerate(case['es'])]
    blocks = [blocked(dict(copy.deepcopy(b), h=10 + i % 2)) for i, b in enumerate(case['blocks'])]
    state, asked, again = {}, set(), 0
    for o in case['ops']:
        q, x, h, n = case['kinds'][o['q']], o['x'], o['h'], o['n']
        key = (q, x)
        move = o['move'] or key not in state
        again += o['move'] and key in asked
        asked.add(key)
        if q == 'tx':
            if move and es[x]['h'] is None:     # (what is in a block stays there)
                es[x]['h'] = h
            state[key] = 1
            e = copy.deepcopy(es[x])
            where = '/explorer/hashes/' + etx_id(e).hex()
            answers[where] = hash_answer('transactionid', transaction=etx_json(e))
            got = c.transaction_get(forms(etx_id(e))[o['form']])
            judges.append(lambda got=got, e=e: is_tx(got, e, 'transaction'))
        elif q == 'output':
            e = es[x]
            if not oids(e):
                continue
            s = state.get(key)                  # how it is spent
            if move and (s is None or s['h'] is None):
                s = copy.deepcopy(case['es'][n % len(case['es'])])
                s['n'] = 9
                s['h'] = h
                if not s['t'].get('ci') or etx_id(s) == etx_id(e):
                    s = None
                else:
                    s['t']['ci'][0]['p'] = oids(e)[0]
                if s is not None or key not in state:
                    state[key] = s
            s = state.get(key)
            es[x]['h'] = es[x]['h'] if s is None or s['h'] is None else min(s['h'], es[x]['h'] if es[x]['h'] is not None else s['h'])
            e, s = copy.deepcopy(es[x]), copy.deepcopy(s)
            answers['/explorer/hashes/' + oids(e)[0].hex()] = hash_answer('coinoutputid', transactions=[etx_json(e)] + ([etx_json(s)] if s else []))
            got = c.coin_output_get(forms(oids(e)[0])[o['form']])

            def judge(got=got, e=e, s=s):
                eq([build.to_text(got[0].json()), str(got[0].id)], [ref.output_json(outs(e['t'])[0]), oids(e)[0].hex()], 'output')
                is_tx(got[1], e, 'creation transaction')
                check((got[2] is not None) == (s is not None), 'an output is reported as {}', 'spent' if got[2] is not None else 'unspent')
                if s:
                    is_tx(got[2], s, 'spending transaction')
            judges.append(judge)
        elif q in ('address', 'erc20'):
            uh = case['uhs'][x]
            addr = ref.uh_text(uh)
            key = ('address', x)
            if move:
                state[key] = [n, h, n if h is not None and h % 2 else state.get(key, [0, 0, None])[2]]
            k, ms, conf = state[key]
            now = copy.deepcopy(es[:k])
            a = hash_answer('unlockhash', transactions=[etx_json(e) for e in now], multisigaddresses=[ref.uh_text([3, bytes([i]) * 32]) for i in range(ms or 0)])
            erc = None if conf is None else {'tftaddress': addr, 'erc20address': '0x' + ref.erc20_of(uh).hex(), 'confirmations': conf}
            answers['/explorer/hashes/' + addr] = dict(a, **({'erc20info': erc} if erc else {}))
            if q == 'erc20':
                if erc is None:
                    absent(lambda: c.erc20.address_get(addr), 'ERC20 registration')
                else:
                    got = c.erc20.address_get(addr)
                    judges.append(lambda got=got, erc=erc: is_erc(got, erc))
            else:
                got = c.unlockhash_get(addr if o['form'] % 2 else UnlockHash.from_json(addr))

                def judge(got=got, now=now, ms=ms, erc=erc):
                    by = {etx_id(e).hex(): e for e in now}
                    eq(sorted(str(t.id) for t in got.transactions), sorted(by), 'transactions of the address')
                    for t in got.transactions:
                        is_tx(t, by[str(t.id)], 'transaction of the address')
                    eq([str(m) for m in got.multisig_addresses], [ref.uh_text([3, bytes([i]) * 32]) for i in range(ms or 0)], 'multi-signature addresses')
                    check((got.erc20_info is None) == (erc is None), 'ERC20 information: {!r}', got.erc20_info)
                    if erc is not None:
                        is_erc(got.erc20_info, erc)
                judges.append(judge)
        elif q == 'mint':
            if move:
                state[key] = case['cs'][n % len(case['cs'])]
            height = [None, 10**6 + n, 10**6][o['form'] % 3]     # (what holds at a future height is not settled)
            answers['/explorer/mintcondition' + ('' if height is None else '/{}'.format(height))] = {'mintcondition': ref.condition_json(state[key])}
            got = c.minter.condition_get() if height is None else c.minter.condition_get(height)
            judges.append(lambda got=got, want=ref.condition_json(state[key]): eq(build.to_text(got.json()), want, 'mint condition'))
        elif q == 'bot':
            name = case['names'][x]
            if move:
                state[key] = {'id': n + 1, 'names': [name] + case['names'][1 - x:][:n % 2], 'addresses': ['example.org', '127.0.0.1'][:n % 3], 'publickey': ref.pk_text(case['pks'][n % len(case['pks'])]), 'expiration': 10**9 + 7 * (h or 0)}
            r = copy.deepcopy(state[key])
            answers['/explorer/whois/3bot/' + name] = {'record': r}
            got = c.threebot.record_get(name if o['form'] % 2 else BotName(value=name))
            judges.append(lambda got=got, r=r: eq([got.identifier, [str(v) for v in got.names], [str(v) for v in got.addresses], str(got.public_key), got.expiration],
                                                  [r['id'], r['names'], r['addresses'], r['publickey'], r['expiration']], 'bot record'))
        elif q == 'block':
            # another block may take a place in the chain; a block with an identifier stays what it is
            if move:
                state[key] = blocks[x + 2 * (n % 2)]
            b = state[key]
            if o['form'] % 2:
                answers['/explorer/blocks/{}'.format(b['h'])] = {'block': block_json(b)}
                got = c.block_get(b['h'])
            else:
                answers['/explorer/hashes/' + b['id'].hex()] = hash_answer('blockid', block=block_json(b))
                got = c.block_get(forms(b['id'])[n])
            judges.append(lambda got=got, b=b: is_block(got, b, 'block'))
        else:
            b = blocks[n % len(blocks)]
            answers['/explorer'] = {'blockid': b['id'].hex(), 'height': b['h']}
            answers['/explorer/hashes/' + b['id'].hex()] = hash_answer('blockid', block=block_json(b))
            got = c.blockchain_info_get()
            judges.append(lambda got=got, b=b: eq([got.blockid, got.height, got.timestamp], [b['id'].hex(), b['h'], b['time']], 'chain info'))
        if judges:
            judges[-1]()
    for j in judges:
        j()
    ctx.nontrivial(again > 0)


SUBS = [
    Sub('block', st.fixed_dictionaries({'b': a_block}), block, 500, 6000, 'a block with transactions'),
    Sub('transaction', st.fixed_dictionaries({'e': etx}), tx, 1200, 15000, 'a transaction with coin inputs or outputs'),
    Sub('output', st.fixed_dictionaries({'e': etx, 's': st.one_of(etx, etx, st.none()), 'i': st.integers(0, 5), 'd': st.sampled_from([None, 0, 0, 1, 500]),
                                         'at': st.sampled_from([0, 1])}), output, 1000, 12000, 'a spent output'),
    Sub('address', st.fixed_dictionaries({'uh': gen.uh_pk, 'txs': st.lists(etx, max_size=4), 'ms': st.lists(gen.b32.map(lambda b: [3, b]), max_size=3),
                                          'e': st.sampled_from(['null', 'empty', 'absent']), 'erc': st.one_of(st.none(), st.integers(0, 10**6))}),
        addresses, 500, 6000, 'an address with several transactions'),
    Sub('large', st.fixed_dictionaries({'what': st.sampled_from(['block', 'payouts', 'transaction', 'address', 'wallets']), 'count': st.sampled_from([30, 130, 270, 600]),
                                        'e': etx, 'b': a_block}), large, 60, 600, 'every case', shards=8),
    Sub('target', st.fixed_dictionaries({'owners': st.lists(gen.uh_pk, min_size=2, max_size=5, unique_by=ref.uh_text), 'n': st.integers(1, 2)}),
        target, 150, 2000, 'every case'),
    Sub('mint', st.fixed_dictionaries({'c': gen.condition, 'h': st.one_of(st.none(), st.integers(0, 10**6), height)}), mint, 300, 3000, 'not a free-for-all condition'),
    Sub('bot', st.fixed_dictionaries({
        'b': st.fixed_dictionaries({'id': gen.bot_id, 'names': st.lists(gen.bot_name, max_size=5), 'addrs': st.lists(gen.network_address, max_size=5),
                                    'pk': gen.pk, 'exp': st.integers(0, 2**32), 'e': st.sampled_from(['null', 'empty', 'absent'])}),
        'by': st.sampled_from(['id', 'pk', 'name']), 'name': gen.bot_name}), bot, 400, 4000, 'a bot with names and addresses'),
    Sub('lookups', lookups_st, lookups, 600, 8000, 'something is asked for again after it changed'),
    Sub('put', st.fixed_dictionaries({'t': gen.any_tx, 'id': gen.b32}), put, 500, 5000, 'every case'),
    Sub('broken', st.fixed_dictionaries({
        'b': a_block.filter(lambda b: b['txs']), 'scope': st.sampled_from(['kind', 'other', 'tx', 'tx', 'tx', 'block', 'block']), 'how': st.integers(0, 10**6),
        'n': st.integers(0, 20), 'o': gen.b32, 'ms': gen.uh_any, 'drop': st.booleans()}), broken, 2500, 30000, 'an answer that must not be believed'),
]
ASSUMPTIONS = ['the explorer is a stub that gives generated answers; the client above it is the real one']
