"""C12: locks open when they say."""
import datetime as dt
import os
import re
import time

from hypothesis import strategies as st

from tfchain.TFChainWallet import WalletBalance
from tfchain.internal.jsutils import duration
from tfchain.types import ConditionTypes
from tfchain.types.AtomicSwap import AtomicSwapContract
from tfchain.types.ConditionTypes import OutputLock
from tfchain.types.IO import CoinOutput

from pbt import build, gen, ref
from pbt.core import Sub, check, eq, rejects

MIN_TIMESTAMP = 500_000_000
UNIT = {'d': 86400, 'h': 3600, 'm': 60, 's': 1}


class zone:
    """the local time zone: hours east of UTC"""

    def __init__(self, hours):
        self.hours = hours

    def __enter__(self):
        os.environ['TZ'] = 'XXX{:+d}'.format(-self.hours)
        time.tzset()

    def __exit__(self, *a):
        os.environ['TZ'] = 'UTC'
        time.tzset()


def spelled(l, now, hours):
    """(what to hand over, the lock it stands for)"""
    k, v = l['k'], l['v']
    if k == 'int':
        return v, v
    if k == 'lock':
        return OutputLock(value=v), v
    if k == 'duration':
        text = ''.join('{}{}'.format(n, u) for n, u in v)
        return l['pre'] + text, now + sum(n * UNIT[u] for n, u in v)
    if k == 'fraction':
        n, part, u, more = v
        seconds = n * UNIT[u] + UNIT[u] * part // (10 if part == 5 else 100) + sum(more)
        return l['pre'] + '{}.{}{}'.format(n, part, u) + ''.join('{}s'.format(x) for x in more), now + seconds
    if k == 'seconds':
        return l['pre'] + str(v), now + v
    if k == 'timedelta':
        return dt.timedelta(seconds=v, milliseconds=l['ms']), now + v
    moment = dt.datetime(1970, 1, 1) + dt.timedelta(seconds=v)   # local wall clock
    if k == 'datetime':
        return moment, v - hours * 3600
    if k == 'aware':
        return moment.replace(tzinfo=dt.timezone(dt.timedelta(hours=l['tz']))), v - l['tz'] * 3600
    fmt, cut = l['fmt']
    v -= v % cut
    moment = dt.datetime(1970, 1, 1) + dt.timedelta(seconds=v)
    d, m, y, y2 = moment.day, moment.month, moment.year, moment.year % 100
    H, M, S = moment.hour, moment.minute, moment.second
    text = fmt.format(d=d, m=m, y=y, y2=y2, H=H, M=M, S=S, h12=H % 12 or 12, ap='am' if H < 12 else 'pm')
    return text, v - hours * 3600


FORMATS = [['{d:02d}/{m:02d}/{y} {H:02d}:{M:02d}', 60], ['{d}/{m}/{y} {H:02d}:{M:02d}:{S:02d}', 1], ['{y}/{m:02d}/{d:02d} {H:02d}:{M:02d}', 60],
           ['{y}/{m}/{d} {H}:{M:02d}:{S:02d}', 1], ['{y2:02d}/{m:02d}/{d:02d} {H:02d}:{M:02d}', 60], ['{d:02d}/{m:02d}/{y}', 86400],
           ['{y}/{m:02d}/{d:02d}', 86400], ['{y2:02d}/{m}/{d}', 86400], ['{y}/{m:02d}/{d:02d} {h12}{ap}:{M:02d}', 60],
           ['{d}/{m}/{y} {h12:02d}{ap}:{M:02d}:{S:02d}', 1], [' {d:02d}/{m:02d}/{y} {H:02d}:{M:02d}', 60]]

numbers = st.one_of(st.integers(0, 2000), st.integers(MIN_TIMESTAMP - 3, MIN_TIMESTAMP + 3), gen.timestamps, st.integers(0, 2**63))
moments = st.integers(MIN_TIMESTAMP + 15 * 3600 + 86400, 3_000_000_000)
small = st.one_of(st.integers(0, 99), st.integers(0, 100000))


@st.composite
def durations(draw):
    us = draw(st.lists(st.sampled_from('dhms'), min_size=1, max_size=4, unique=True).map(lambda u: sorted(u, key='dhms'.index)))
    return [[draw(small), u] for u in us]


spelling = st.one_of(
    numbers.map(lambda v: {'k': 'int', 'v': v}),
    numbers.map(lambda v: {'k': 'lock', 'v': v}),
    st.tuples(durations(), st.sampled_from(['+', '+ ', ' +', '+  '])).map(lambda t: {'k': 'duration', 'v': t[0], 'pre': t[1]}),
    st.tuples(durations(), st.sampled_from(['+', '+ '])).map(lambda t: {'k': 'duration', 'v': t[0], 'pre': t[1]}),
    # (quarters of a day, hour and minute)
    st.tuples(st.integers(0, 400), st.sampled_from([25, 5, 75]), st.sampled_from('dhm'), st.lists(st.integers(1, 99), max_size=1), st.sampled_from(['+', '+ '])).map(lambda t: {'k': 'fraction', 'v': list(t[:4]), 'pre': t[4]}),
    st.tuples(st.integers(0, 10**9), st.sampled_from(['+', '+ '])).map(lambda t: {'k': 'seconds', 'v': t[0], 'pre': t[1]}),
    st.tuples(st.integers(0, 10**9), st.integers(0, 999)).map(lambda t: {'k': 'timedelta', 'v': t[0], 'ms': t[1]}),
    moments.map(lambda v: {'k': 'datetime', 'v': v}),
    st.tuples(moments, st.integers(-12, 14)).map(lambda t: {'k': 'aware', 'v': t[0], 'tz': t[1]}),
    st.tuples(moments, st.sampled_from(FORMATS)).map(lambda t: {'k': 'text', 'v': t[0], 'fmt': t[1]}),
    st.tuples(moments, st.sampled_from(FORMATS)).map(lambda t: {'k': 'text', 'v': t[0], 'fmt': t[1]}))


def lock(case, ctx):
    l, now, hours = case['l'], case['now'], case['tz']
    ctx.label(l['k'])
    ctx.nontrivial()
    with zone(hours):
        given, want = spelled(l, now, hours)
        x = OutputLock(value=given, current_timestamp=now)
        what = 'lock {}'.format(l)
        eq(x.value, want, what)
        eq(int(x), want, what + ' as a number')
        eq(x.is_timestamp, want >= MIN_TIMESTAMP, what + ' is a moment')
        if want >= MIN_TIMESTAMP:
            if want < 2**32:
                eq(str(x), (dt.datetime(1970, 1, 1) + dt.timedelta(seconds=want + hours * 3600)).strftime('%Y/%m/%d %H:%M:%S'), what + ' as text')
                eq(OutputLock(value=str(x)).value, want, what + ', read back from its text')
        else:
            eq(str(x), str(want), what + ' as text')
        eq(OutputLock(value=x).value, want, 'copied ' + what)
        for d in (-2, -1, 0, 1, 2, case['far']):
            at = want + d
            if at < 0:
                continue
            if want >= MIN_TIMESTAMP:
                eq(x.locked_check(height=case['other'], time=at), at < want, '{} is locked {} s from its moment'.format(what, d))
            else:
                eq(x.locked_check(height=at, time=case['other']), at < want, '{} is locked {} blocks from its height'.format(what, d))


def clock(case, ctx):
    """a time of day is that of the current day; a day and month that of the current year"""
    ctx.nontrivial()
    S = case['s']
    H, M, S = S // 3600, S // 60 % 60, S % 60
    with zone(case['tz']):
        for _ in range(2):
            before = dt.datetime.now()
            if case['k'] == 'time':
                text, want = '{:02d}:{:02d}:{:02d}'.format(H, M, S), before.replace(hour=H, minute=M, second=S, microsecond=0)
            elif case['k'] == 'short':
                text, want = '{}:{:02d}'.format(H, M), before.replace(hour=H, minute=M, second=0, microsecond=0)
            else:
                m, d = case['m'], case['d']
                want = dt.datetime(before.year, m, d, H, M)
                text = '{:02d}/{:02d} {:02d}:{:02d}'.format(m, d, H, M)
            got = OutputLock(value=text).value
            if dt.datetime.now().date() == before.date():
                eq(got, int(want.timestamp()), 'lock {!r}'.format(text))
                return


AGO = [['s', 1], ['m', 60], ['h', 3600], ['d', 86400], ['w', 7 * 86400], ['M', 365 * 7200], ['Y', 365 * 86400]]


def from_now(case, ctx):
    """without a given moment, a duration is from now on"""
    ctx.nontrivial(case['v'])
    a = int(time.time())
    for form in ('+{}s'.format(case['v']), dt.timedelta(seconds=case['v'])):
        x = OutputLock(value=form).value
        b = int(time.time()) + 1
        check(a + case['v'] <= x <= b + case['v'], 'lock {!r} is {} at {}', form, x, a)
    # a time ago, in any of the documented units
    n, (unit, seconds) = case['ago'], AGO[case['unit']]
    for form in ('-{}{}'.format(n, unit), ' -{}{} '.format(n, unit)):
        a2 = int(time.time())
        x = OutputLock(value=form).value
        b = int(time.time()) + 1
        check(a2 - n * seconds <= x <= b - n * seconds, 'lock {!r} is {} at {}', form, x, a2)
    c = ConditionTypes.from_recipient(case['to'], lock='+{}s'.format(case['v']))
    b = int(time.time()) + 1
    check(a + case['v'] <= c.lock.value <= b + case['v'], 'recipient with a lock of {} s: locked till {} at {}', case['v'], c.lock.value, a)


NONSENSE = ['', ' ', '+1x', '+d', '+1h1d', '+1h2h', '+-1h', '+1.2.3h', 'soon', '32/01/2019', '01/13/2019 10:00', '2019-01-01', '1/2/3/4',
            '01/01/2019 25:00', '01/01/2019 10:61', '10:00:00:00', '24:00', '01/01/1960', 'x/y/z', '+12 parsecs']


def nonsense(case, ctx):
    ctx.nontrivial()
    v = case['v']
    if isinstance(v, list):
        v = {'float': 1.5, 'bytes': b'1', 'list': [1], 'delta': dt.timedelta(seconds=-2**33), 'date': dt.datetime(1960, 1, 1)}[v[0]]
    rejects(lambda: OutputLock(value=v, current_timestamp=1_500_000_000), 'lock {!r}'.format(v))
    for t in ('1', 1.5):
        rejects(lambda: OutputLock(value=1, current_timestamp=t), 'current moment {!r}'.format(t))


# ------------------------------------------------------------------ what is locked in a balance

def balance(case, ctx):
    b = WalletBalance()
    b.chain_height, b.chain_time = case['height'], case['time']
    want = {'a': [], 'l': [], 'ua': [], 'ul': []}
    uh = [1, bytes(32)]
    for n, (v, offset, kind, confirmed) in enumerate(case['outs']):
        base = {'height': case['height'], 'time': case['time']}.get(kind, 0)
        c = {'k': 'uh', 'uh': uh}
        locked = False
        if kind != 'free':
            lv = max(0, base + offset)
            if kind == 'height':
                lv = min(lv, MIN_TIMESTAMP - 1)
                locked = case['height'] < lv
            else:
                lv = max(lv, MIN_TIMESTAMP)
                locked = case['time'] < lv
            c = {'k': 'lock', 'v': lv, 'c': c}
            ctx.nontrivial(-2 < offset < 2)
        o = CoinOutput.from_json(ref.output_json({'v': v, 'c': c}))
        o.id = n.to_bytes(32, 'big')
        b.output_add(o, confirmed=confirmed)
        want[('' if confirmed else 'u') + ('l' if locked else 'a')].append((n, v))
    ids = lambda os: sorted(int.from_bytes(bytes(o.id.value), 'big') for o in os)
    eq(ids(b.outputs_available), [n for n, _ in want['a']], 'available outputs')
    eq(ids(b.outputs_unconfirmed_available), [n for n, _ in want['ua']], 'unconfirmed available outputs')
    total = lambda k: build.units(sum(v for _, v in want[k]))
    for got, k, what in ((b.available, 'a', 'available'), (b.locked, 'l', 'locked'), (b.unconfirmed, 'ua', 'unconfirmed'),
                         (b.unconfirmed_locked, 'ul', 'unconfirmed and locked')):
        eq(str(got), str(total(k)), what)


# ------------------------------------------------------------------ atomic swap contracts

def contract(case, ctx):
    c = case['c']
    o = CoinOutput.from_json(ref.output_json({'v': case['v'], 'c': c}))
    o.id = case['id']
    now = max(1, c['lt'] + case['d'])
    ctx.nontrivial(abs(case['d']) < 3)
    ctx.label('open' if now >= c['lt'] else 'closed')
    for unspent in (True, False):
        x = AtomicSwapContract(o, unspent=unspent, current_timestamp=now)
        eq([str(x.outputid), str(x.sender), str(x.receiver), str(x.secret_hash), x.refund_timestamp, str(x.amount), x.unspent],
           [case['id'].hex(), ref.uh_text(c['s']), ref.uh_text(c['r']), c['hs'].hex(), c['lt'], str(build.units(case['v'])), unspent], 'contract')
        if unspent and c['lt'] < 2**32:
            text = str(x)
            check(('available since' in text) == (now >= c['lt']), 'the contract can be refunded from {} on; at {} it says: {}', c['lt'], now, text)
            if now < c['lt']:
                left = re.search(r'\(in: ([0-9dhms]+)\)', text)
                check(left, 'the contract does not tell when it opens: {}', text)
                eq(sum(int(n) * UNIT[u] for n, u in re.findall('([0-9]+)([dhms])', left.group(1))), c['lt'] - now, 'remaining time told by the contract')


# (with parts of a duration which are zero or the largest there is)
hms = st.tuples(st.sampled_from([0, 0, 1, 6, 7, 365]), st.sampled_from([0, 0, 1, 23]), st.sampled_from([0, 0, 1, 59]), st.sampled_from([0, 0, 1, 58, 59])).map(
    lambda t: t[0] * 86400 + t[1] * 3600 + t[2] * 60 + t[3])


def duration_text(case, ctx):
    v = case['v']
    ctx.nontrivial(v > 60)
    text = duration.toString(v)
    check(re.fullmatch('([0-9]+d)?([0-9]+h)?([0-9]+m)?([0-9]+s)?', text), 'duration of {} s prints as {!r}', v, text)
    eq(sum(int(n) * UNIT[u] for n, u in re.findall('([0-9]+)([dhms])', text)), v, 'duration {!r}'.format(text))
    eq(duration.fromString(text), v, 'duration {!r} read back'.format(text))
    eq([duration.fromString(x) for x in (v, str(v), '{}s'.format(v), None, 0, '0', '')], [v, v, v, 0, 0, 0, 0], 'forms of a duration of {} s'.format(v))
    parts = dict((u, int(n)) for n, u in re.findall('([0-9]+)([dhms])', text))
    check(parts.get('h', 0) < 24 and parts.get('m', 0) < 60 and parts.get('s', 0) < 60, 'duration of {} s prints as {!r}', v, text)
    if v:
        eq(OutputLock(value='+' + text, current_timestamp=case['now']).value, case['now'] + v, 'lock +' + text)


SUBS = [
    Sub('lock', st.fixed_dictionaries({'l': spelling, 'now': st.integers(1_300_000_000, 1_900_000_000), 'tz': st.integers(-12, 14),
                                       'far': st.integers(-10**6, 10**6), 'other': numbers}), lock, 4000, 60000, 'every case'),
    Sub('clock', st.fixed_dictionaries({'k': st.sampled_from(['time', 'short', 'day']), 's': st.integers(0, 86399), 'm': st.integers(1, 12),
                                        'd': st.integers(1, 28), 'tz': st.integers(-12, 14)}), clock, 300, 3000, 'every case'),
    Sub('from_now', st.fixed_dictionaries({'v': st.integers(0, 10**8), 'ago': st.integers(0, 20), 'unit': st.integers(0, 6), 'to': gen.uh_pk.map(ref.uh_text)}), from_now, 200, 2000, 'a duration'),
    Sub('nonsense', st.fixed_dictionaries({'v': st.sampled_from(NONSENSE + [['float'], ['bytes'], ['list'], ['delta'], ['date'], -1])}),
        nonsense, 60, 60, 'every case', shards=1),
    Sub('balance', st.fixed_dictionaries({
        'height': st.integers(1, 10**6), 'time': st.integers(MIN_TIMESTAMP + 10, 2**32),
        'outs': st.lists(st.tuples(st.integers(1, 10**12), st.one_of(st.integers(-3, 3), st.integers(-10**6, 10**6)),
                                   st.sampled_from(['free', 'height', 'time']), st.booleans()).map(list), max_size=8)}),
        balance, 800, 10000, 'a lock that opens within a block or second'),
    Sub('contract', st.fixed_dictionaries({'c': gen.condition_swap, 'v': gen.units, 'id': gen.b32, 'd': st.one_of(st.integers(-3, 3), st.integers(-10**6, 10**6))}),
        contract, 500, 5000, 'within three seconds of the refund time'),
    Sub('duration', st.fixed_dictionaries({'v': st.one_of(st.integers(0, 200000), st.integers(0, 10**10), hms), 'now': st.integers(0, 2 * 10**9)}),
        duration_text, 1000, 20000, 'more than a minute'),
]
ASSUMPTIONS = ['the local time zones generated have no daylight saving time']
