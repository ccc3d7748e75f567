"""C27: what is shown on screen, and what errors carry, is what there is."""
import datetime
import hashlib
import random
import re

from hypothesis import strategies as st

from tfchain import errors
from tfchain.TFChainWallet import MultiSigWalletBalance, WalletBalance, WalletsBalance
from tfchain.types import ConditionTypes
from tfchain.types.AtomicSwap import AtomicSwapContract
from tfchain.types.IO import CoinOutput
from tfchain.types.PrimitiveTypes import Currency, Hash

from pbt import build, gen, history, ref, sim
from pbt.core import Sub, check, eq, fail, rejects
from pbt.checks import c13_balances as c13

ONE = 10**9
AMOUNT = re.compile(r'(?<![\w.-])(-?\d+(?:\.\d+)?)\s*TFT\b')


def units(text):
    """coins as text -> smallest units"""
    sign = -1 if text.startswith('-') else 1
    whole, _, rest = text.lstrip('-').partition('.')
    check(len(rest) <= 9, '{} has too many decimals', text)
    return sign * (int(whole) * ONE + int(rest.ljust(9, '0') or 0))


def moment(t):
    return datetime.datetime.fromtimestamp(t, datetime.timezone.utc).strftime('%Y/%m/%d %H:%M:%S')


def amounts_of(line):
    return [units(a) for a in AMOUNT.findall(line)]


def shows_sheet(lines, s, what):
    """the lines show the totals of a sheet"""
    totals = {k: sum(v.values()) for k, v in s.items()}
    check(lines, '{}: no amounts are shown', what)
    eq(amounts_of(lines[0]), [totals['available'], totals['locked']], what + ': shown as available and locked, in ' + repr(lines[0]))
    rest = lines[1:]
    if totals['unconfirmed'] or totals['unconfirmed_locked']:
        check(rest, '{}: unconfirmed coins are not shown', what)
        eq(amounts_of(rest[0]), [totals['unconfirmed'], totals['unconfirmed_locked']], what + ': shown as unconfirmed, in ' + repr(rest[0]))
        rest = rest[1:]
    if totals['unconfirmed_spent']:
        check(rest, '{}: what is being spent is not shown', what)
        eq(amounts_of(rest[0]), [-totals['unconfirmed_spent']], what + ': shown as being spent, in ' + repr(rest[0]))
        rest = rest[1:]
    eq(rest, [], what + ': other lines')


def shows_context(line, height, time, what):
    numbers = re.findall(r'\d+', line.replace(moment(time), '@') if time > 0 else line)
    if height > 0 and time > 0:
        check(moment(time) in line, '{}: the time {} is not shown in {!r}', what, moment(time), line)
        eq(numbers, [str(height)], what + ': height')
    else:
        eq(numbers, [], what + ': numbers for a moment which is not known')


def shows_multisig(lines, b, addr, owners, n, s, what):
    check(addr in lines[0], '{}: the address {} is not shown in {!r}', what, addr, lines[0])
    eq([int(x) for x in re.findall(r'(?<![0-9a-f])\d{1,3}(?![0-9a-f])', lines[0].replace(addr, ''))], [n, len(owners)], what + ': shown number of signatures and owners')
    eq(sorted(re.findall(r'[0-9a-f]{78}', lines[1])), owners, what + ': shown owners')
    shows_sheet(lines[2:], s, what)


def balance(case, ctx):
    """a printed balance"""
    chain = c13.new_chain(case)
    c = chain.client()
    ms = c13.multisigs(chain)
    for addr in [history.party(n).addr for n in range(3)] + sorted(ms):
        try:
            b = c.unlockhash_get(addr).balance()
        except errors.ExplorerNoContent:
            continue
        s = chain.sheet({addr})
        what = 'printed balance of ' + addr
        lines = str(b).split('\n')
        eq(repr(b), str(b), what)
        shows_context(lines[0], chain.height, chain.time, what)
        if isinstance(b, MultiSigWalletBalance):
            owners, n = ms[addr]
            shows_multisig(lines[1:], b, addr, owners, n, s, what)
            ctx.label('multi-signature')
        else:
            shows_sheet(lines[1:], s, what)
    s, got = printed_wallet(chain, chain.wallet(history.SEED, case['keys']), [history.party(n).addr for n in range(case['keys'])], ms, case['unknown'])
    ctx.nontrivial(s['unconfirmed_spent'] or s['unconfirmed'] or s['locked'])
    ctx.label('several wallets', got > 1)
    ctx.label('being spent', bool(s['unconfirmed_spent']))


def printed_wallet(chain, w, own, ms, unknown):
    """the printed balance of a wallet, perhaps for an unknown moment; returns its sheet, and how many multi-signature wallets are shown"""
    b = w.balance
    if unknown:
        b = WalletsBalance().balance_add(b)
        b.chain_height = 0
    parts = [p.split('\n') for p in str(b).split('\n\n')]
    mine = {m for a in own for m in chain.multisigs(a)}
    sheets = {None: chain.sheet(own)}
    sheets.update((m, chain.sheet({m})) for m in mine)
    shows_context(parts[0][0], 0 if unknown else chain.height, chain.time, 'printed balance')
    if not unknown:
        shows_sheet(parts[0][1:], sheets[None], 'printed balance')
    else:
        s = sheets[None]
        joined = dict(s, available=dict(s['available'], **s['locked']), locked={}, unconfirmed=dict(s['unconfirmed'], **s['unconfirmed_locked']), unconfirmed_locked={})
        shows_sheet(parts[0][1:], joined, 'printed balance of an unknown moment')
    active = {m for m in mine if any(sheets[m][k] for k in ('available', 'locked', 'unconfirmed', 'unconfirmed_locked'))}
    got = {}
    for p in parts[1:]:
        found = [m for m in mine if m in p[0]]
        check(len(found) == 1 and found[0] not in got, 'the multi-signature wallet in {!r} is none, or shown twice', p[0])
        got[found[0]] = p
    eq(sorted(got), sorted(active), 'multi-signature wallets that are shown')
    for m, p in got.items():
        owners, n = ms[m]
        shows_multisig(p, b.wallets[m], m, owners, n, sheets[m], 'printed multi-signature wallet')
    return sheets[None], len(got)


def crowded(case, ctx):
    """the printed balance of a wallet with many multi-signature wallets, of many owners"""
    ctx.nontrivial()
    r = random.Random(case['seed'])
    chain = history.new_chain(case['world'])
    ks = [sim.key(history.SEED, n) for n in range(case['keys'])]
    outs = []
    for n in range(case['wallets']):
        owners = [ks[r.randrange(len(ks))].uh] + [sim.key(history.OTHER, m).uh for m in r.sample(range(48), r.randrange(1, case['owners'] + 1))]
        r.shuffle(owners)
        c = {'k': 'ms', 'n': r.randrange(1, len(owners) + 1), 'uhs': owners}
        if r.random() < .2:
            c = {'k': 'lock', 'v': chain.height + r.randrange(-2, 3), 'c': c}
        outs.append({'v': r.choice([r.randrange(1, 10**10), r.randrange(1, 50) * 10**9, r.randrange(1, 10**16)]), 'c': c})
    outs += [{'v': r.randrange(1, 10**10), 'c': {'k': 'uh', 'uh': r.choice(ks).uh}} for _ in range(case['own'])]
    while outs:
        e = chain.grant(outs[:7], confirmed=r.random() < case['confirmed'] / 10)
        outs = outs[7:]
        if e.height is not None and r.random() < .5:
            chain.spend([e.ids()[0]], [{'v': 1, 'c': {'k': 'uh', 'uh': ks[0].uh}}], confirmed=False)
    ms = c13.multisigs(chain)
    printed_wallet(chain, chain.wallet(history.SEED, len(ks)), [k.addr for k in ks], ms, case['unknown'])
    c = chain.client()
    for addr, (owners, n) in sorted(ms.items()):
        shows_multisig(str(c.unlockhash_get(addr).balance()).split('\n')[1:], None, addr, owners, n, chain.sheet({addr}), 'printed balance of ' + addr)


# ---------------------------------------------------------------- contracts

terms = st.fixed_dictionaries({'v': st.one_of(st.integers(1, 10**6), st.integers(1, 10**15), st.integers(1, 1000).map(lambda n: n * ONE)), 's': st.integers(0, 3), 'r': st.integers(0, 3),
                               'secret': st.integers(0, 2), 'lt': st.sampled_from([500000000, 500086400, 1549000000, 1549649728, 4102444800, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1000]), 'id': st.integers(0, 1), 'unspent': st.booleans()})


def contract_of(t, now):
    cond = {'k': 'swap', 's': history.party(t['s']).uh, 'r': history.party(t['r']).uh, 'hs': hashlib.sha256(bytes([t['secret']]) * 32).digest(), 'lt': t['lt']}
    co = CoinOutput(value=build.units(t['v']), condition=build.cond(cond), id=Hash(value=bytes([t['id']]) * 32))
    return AtomicSwapContract(coinoutput=co, unspent=t['unspent'], current_timestamp=now), cond, co


def contract(case, ctx):
    """a contract says what its output says, in its attributes and printed"""
    t, u = case['a'], dict(case['a'], **case['other'])
    now = max(1, t['lt'] + case['now'])
    k, cond, co = contract_of(t, now)
    ident = (bytes([t['id']]) * 32).hex()
    eq([str(k.outputid), k.amount.json(), str(k.sender), str(k.receiver), str(k.secret_hash), k.refund_timestamp, k.unspent],
       [ident, str(t['v']), ref.uh_text(cond['s']), ref.uh_text(cond['r']), cond['hs'].hex(), t['lt'], t['unspent']], 'contract')
    eq(k.coin_output.json(), ref.output_json({'v': t['v'], 'c': cond}), 'output of the contract')
    eq(str(k.coin_output.id), ident, 'identifier of the output of the contract')
    eq(k.condition.json(), co.condition.json(), 'condition of the contract')
    for n in range(3):
        eq(k.verify_secret(bytes([n]) * 32), n == t['secret'], 'a secret that is{} right'.format('' if n == t['secret'] else ' not'))
        eq(k.verify_secret((bytes([n]) * 32).hex()), n == t['secret'], 'a secret as text that is{} right'.format('' if n == t['secret'] else ' not'))
    # printed
    text = repr(k)
    eq(str(k), text, 'printed')
    lines = [l.strip() for l in text.split('\n') if l.strip()]
    check(ident in lines[0], 'the identifier is not shown in {!r}', lines[0])
    shown = {}
    for l in lines[2:]:
        key, _, v = l.partition(':')
        shown[key.strip().lower()] = v.strip()
    eq(shown.get('sender'), ref.uh_text(cond['s']), 'shown sender')
    eq(shown.get('receiver'), ref.uh_text(cond['r']), 'shown receiver')
    eq(shown.get('secret hash'), cond['hs'].hex(), 'shown secret hash')
    eq(amounts_of(shown.get('value', '')), [t['v']], 'shown value')
    status = lines[1]
    if not t['unspent']:
        check(re.search('spent', status, re.I) and 'efund' not in status, 'status of a spent contract: {!r}', status)
    else:
        check(moment(t['lt']) in status, 'the time of the refund is not shown in {!r}', status)
        check('spent' not in status.lower(), 'status of an unspent contract: {!r}', status)
        m = re.search(r'(?<![\w])((?:\d+d)?(?:\d+h)?(?:\d+m)?(?:\d+s)?)\)', status)
        if now >= t['lt']:
            check('since' in status and not m, 'status of a contract that can be refunded: {!r}', status)
        else:
            check(m and 'since' not in status, 'status of a contract that cannot be refunded yet: {!r}', status)
            left = sum(int(n) * {'d': 86400, 'h': 3600, 'm': 60, 's': 1}[x] for n, x in re.findall(r'(\d+)([dhms])', m.group(1)))
            eq(left, t['lt'] - now, 'time until the refund, in ' + repr(status))
    # two contracts
    o, _, _ = contract_of(u, now + case['later'])
    same = u == t
    eq([k == o, o == k, k != o, o != k], [same, same, not same, not same], 'comparison of two contracts that are{} the same'.format('' if same else ' not'))
    for x in (5, None, 'x', co):
        rejects(lambda: k == x, 'comparing a contract to {!r}'.format(x))
    for x in (None, 5, CoinOutput(value=1, condition=ConditionTypes.unlockhash_new(history.party(0).addr))):
        rejects(lambda: AtomicSwapContract(coinoutput=x, current_timestamp=1), 'a contract of {!r}'.format(type(x)))
    rejects(lambda: AtomicSwapContract(coinoutput=co, unspent=1, current_timestamp=1), 'a contract with unspent = 1')
    rejects(lambda: AtomicSwapContract(coinoutput=co, current_timestamp='1'), 'a contract of the time \'1\'')
    ctx.nontrivial(case['other'] or t['unspent'])
    ctx.label('same', same)
    ctx.label('refundable', t['unspent'] and now >= t['lt'])


# ------------------------------------------------------------------- others

def shown_things(case, ctx):
    """the chain, blocks, transactions and search results, printed"""
    chain = c13.new_chain(case)
    c = chain.client()
    ctx.nontrivial(chain.entries)
    info = c.blockchain_info_get()
    text = str(info)
    eq(repr(info), text, 'printed state of the chain')
    for x in (chain.block_id(chain.height).hex(), moment(chain.time)):
        check(x in text, '{} is not shown in {!r}', x, text)
    check(re.search(r'(?<![0-9a-f:/]){}(?![0-9a-f:/])'.format(chain.height), text), 'the height {} is not shown in {!r}', chain.height, text)
    for addr in [history.party(n).addr for n in range(5)]:
        try:
            r = c.unlockhash_get(addr)
        except errors.ExplorerNoContent:
            continue
        text = repr(r)
        check(addr in text, 'the address is not shown in {!r}', text)
        eq([int(n) for n in re.findall(r'(?<!\w)\d+(?!\w)', text.replace(addr, ''))], [len(chain.touching(addr)), len(chain.multisigs(addr))], 'shown numbers of transactions and wallets')
        for t in r.transactions:
            text = str(t)
            check(str(t.id) in text and re.search(r'(?<![0-9a-f]){}(?![0-9a-f])'.format(int(t.version)), text), 'printed transaction: {!r}', text)
            eq(repr(t), text, 'printed transaction')
    for h in {e.height for e in chain.entries if e.height}:
        b = c.block_get(h)
        eq([str(b), repr(b)], [chain.block_id(h).hex()] * 2, 'printed block')


def carried(case, ctx):
    """what errors carry"""
    chain = sim.Chain()
    chain.mine(600, 1)
    w = chain.wallet(history.SEED, 1)
    mine, other = history.party(0), sim.key(history.OTHER, case['n'])
    chain.grant([{'v': 500 * ONE, 'c': {'k': 'uh', 'uh': mine.uh}}])
    ctx.nontrivial()
    n = case['n']

    def raised(cls, fn, what):
        try:
            got = fn()
        except Exception as e:
            check(isinstance(e, cls), '{}: {!r} instead of {}', what, e, cls.__name__)
            return e
        fail('{}: {!r} instead of an error', what, got)
    # bots
    past = chain.time - case['ago']
    chain.bots[n] = {'id': n, 'names': [], 'addresses': ['example.org'], 'pk': mine.pk, 'expiration': past}
    chain.bots[n + 1] = {'id': n + 1, 'names': ['jimbo.named'], 'addresses': ['example.org'], 'pk': mine.pk, 'expiration': chain.time + 10**6}
    e = raised(errors.ThreeBotInactive, lambda: w.threebot.record_update(n, addresses_to_add=['example.com']), 'update of an expired bot')
    eq([e.identifier, e.expiration], [n, past], 'error about an expired bot')
    check(moment(past) in str(e) and str(n) in str(e), 'error about an expired bot: {}', e)
    e = raised(errors.ThreeBotInactive, lambda: w.threebot.name_transfer(n + 1, n, ['jimbo.named']), 'transfer to an expired bot')
    eq([e.identifier, e.expiration], [n, past], 'error about an expired receiver')
    e = raised(errors.ThreeBotInactive, lambda: w.threebot.name_transfer(n, n + 1, ['jimbo.named']), 'transfer by an expired bot')
    eq([e.identifier, e.expiration], [n, past], 'error about an expired sender')
    for missing in (n + 2, 'nosuch.threebot'):
        e = raised(errors.ThreeBotNotFound, lambda: w.client.threebot.record_get(missing), 'a bot that is not there')
        eq(str(e.identifier), str(missing), 'error about a missing bot')
        check(str(missing) in str(e), 'error about a missing bot: {}', e)
    # withdrawal addresses
    e = raised(errors.ERC20RegistrationForbidden, lambda: w.erc20.address_register(other.addr), 'registration of an address of somebody else')
    eq(str(e.address), other.addr, 'error about an address of somebody else')
    e = raised(errors.AddressNotInWallet, lambda: w.erc20.address_get(other.addr), 'address of somebody else')
    eq(str(e.address), other.addr, 'error about an address of somebody else')
    # contracts
    missing = hashlib.sha256(bytes([n])).hexdigest()
    for fn, what in ((lambda: w.atomicswap.verify(missing), 'verification'), (lambda: w.atomicswap.redeem(missing, bytes(32)), 'redemption'), (lambda: w.atomicswap.refund(missing), 'refund')):
        e = raised(errors.AtomicSwapContractNotFound, fn, what + ' of no contract')
        eq(str(e.outputid), missing, what + ': error about a missing contract')
        check(missing in str(e), '{}: error about a missing contract: {}', what, e)
    low = chain.min_fee - case['ago'] % 3
    e = raised(errors.AtomicSwapInsufficientAmountError, lambda: w.atomicswap.initiate(other.addr, build.units(low)), 'a contract of too little')
    eq([e.amount.json(), e.minimum_miner_fee.json()], [str(low), str(chain.min_fee)], 'error about a contract of too little')
    secret = hashlib.sha256(b's' + bytes([n])).digest()
    cond = {'k': 'swap', 's': mine.uh, 'r': other.uh, 'hs': hashlib.sha256(secret).digest(), 'lt': chain.time + 3600}
    made = chain.grant([{'v': 10 * ONE, 'c': cond}])
    out = made.ids()[0]

    def about(e, unspent, what):
        k = e.contract
        eq([str(k.outputid), k.amount.json(), str(k.sender), str(k.receiver), str(k.secret_hash), k.refund_timestamp],
           [out.hex(), str(10 * ONE), mine.addr, other.addr, cond['hs'].hex(), cond['lt']], what + ': contract the error is about')
    about(raised(errors.AtomicSwapForbidden, lambda: w.atomicswap.redeem(out.hex(), secret), 'redemption by another'), True, 'redemption by another')
    about(raised(errors.AtomicSwapInvalidSecret, lambda: w.atomicswap.redeem(out.hex(), bytes(32)), 'redemption with a wrong secret'), True, 'redemption with a wrong secret')
    about(raised(errors.AtomicSwapForbidden, lambda: w.atomicswap.refund(out.hex()), 'early refund'), True, 'early refund')
    about(raised(errors.AtomicSwapContractInvalid, lambda: w.atomicswap.verify(out.hex(), amount=build.units(10 * ONE + 1)), 'verification of another amount'), True, 'verification')
    spent = chain.spend([out], [{'v': 9 * ONE, 'c': {'k': 'uh', 'uh': mine.uh}}], case['confirmed'])
    for fn, what in ((lambda: w.atomicswap.verify(out.hex()), 'verification'), (lambda: w.atomicswap.redeem(out.hex(), secret), 'redemption'), (lambda: w.atomicswap.refund(out.hex()), 'refund')):
        e = raised(errors.AtomicSwapContractSpent, fn, what + ' of a spent contract')
        about(e, False, what)
        eq(e.contract.unspent, False, what + ' of a spent contract: unspent')
        eq(str(e.transaction.id), spent.id.hex(), what + ' of a spent contract: transaction')
        check(spent.id.hex() in str(e), '{} of a spent contract: {}', what, e)
    # amounts
    text = '{}.{}'.format(n, '1' * (9 + case['more']))
    e = raised(errors.CurrencyPrecisionOverflow, lambda: Currency(value=text), 'too many decimals')
    eq([e.precision, str(e.value)], [9 + case['more'], text], 'error about too many decimals')
    e = raised(errors.CurrencyNegativeValue, lambda: Currency(value='-' + text[:-case['more']]), 'a negative amount')
    eq(str(e.value), '-' + text[:-case['more']], 'error about a negative amount')
    chain.check()
    eq(chain.posted, [], 'posted transactions')


SUBS = [
    Sub('balance', st.fixed_dictionaries(dict(c13.listings, keys=st.integers(1, 4), unknown=st.sampled_from([False, False, False, True]))), balance, 1200, 8000, 'unconfirmed or locked coins, or some being spent'),
    Sub('crowded', st.fixed_dictionaries({'seed': st.integers(0, 2**32), 'world': history.world, 'keys': st.integers(1, 12), 'wallets': st.integers(5, 40), 'own': st.sampled_from([0, 5, 50, 100]), 'owners': st.sampled_from([3, 10, 40, 48]), 'confirmed': st.integers(0, 10), 'unknown': st.sampled_from([False, False, False, True])}),
        crowded, 60, 600, 'every case', shards=2),
    Sub('contract', st.fixed_dictionaries({'a': terms, 'other': st.one_of(st.just({}), terms, terms.flatmap(lambda t: st.sampled_from(sorted(t)).map(lambda k: {k: t[k]}))),
                                           'now': st.one_of(st.sampled_from([-90061, -86400, -3601, -60, -59, -1, 0, 1, 10**6]), st.integers(-10**7, 10)), 'later': st.integers(0, 3)}), contract, 600, 6000, 'unspent, or compared with a different one'),
    Sub('shown_things', st.fixed_dictionaries(c13.listings), shown_things, 500, 4000, 'a chain with transactions'),
    Sub('carried', st.fixed_dictionaries({'n': st.integers(1, 200), 'ago': st.integers(0, 10**6), 'more': st.integers(1, 12), 'confirmed': st.booleans()}), carried, 60, 600, 'every case', shards=2),
]
