"""C01: coin amounts are exact."""
from decimal import Decimal
from fractions import Fraction

from hypothesis import strategies as st

import tfchain.errors
from tfchain.encoders import rivine_encode, sia_encode
from tfchain.types.PrimitiveTypes import Blockstake, Currency

from pbt import gen, ref
from pbt.build import units
from pbt.core import Sub, check, eq, fail, rejects

ONE = gen.ONE


def text_of(n):
    whole, frac = divmod(n, ONE)
    s = '{}.{:09d}'.format(whole, frac).rstrip('0')
    return s[:-1] if s.endswith('.') else s


def is_units(c, n, what):
    eq(int(c), n, what)
    eq(Fraction(c.value), Fraction(n, ONE), what + ' (value)')


# ------------------------------------------------------------------ arithmetic

@st.composite
def arith_cases(draw):
    op = draw(st.sampled_from(['add', 'sub', 'mul', 'cmp']))
    form = draw(st.sampled_from(['currency', 'int', 'str']))
    a = draw(gen.units)
    if op == 'mul':
        # products stay below 10^10 TFT: 28 digits
        a = min(a, 10**15)
        b = draw(st.one_of(st.integers(0, 24).map(lambda n: n * ONE), st.integers(0, 10**6),
                           st.sampled_from([10**k for k in range(0, 10)]), st.integers(0, 10**12)))
        while a * b > 10**28:
            b //= 10
    else:
        b = draw(st.one_of(gen.units, st.just(a), st.integers(-2, 2).map(lambda d: max(0, a + d))))
    if form == 'int':
        b -= b % ONE
    return {'op': op, 'form': form, 'a': a, 'b': b}


def arith(case, ctx):
    a, b, op, form = case['a'], case['b'], case['op'], case['form']
    ctx.nontrivial(a and b)
    ctx.label(op + '/' + form)

    def other():
        return {'currency': lambda: units(b), 'int': lambda: b // ONE, 'str': lambda: text_of(b)}[form]()
    x, y = units(a), other()
    if op == 'cmp':
        for name, got, want in (('<', x < y, a < b), ('<=', x <= y, a <= b), ('==', x == y, a == b),
                                ('!=', x != y, a != b), ('>', x > y, a > b), ('>=', x >= y, a >= b)):
            eq(got, want, '{} {} {} ({})'.format(text_of(a), name, text_of(b), form))
        if form != 'str':
            for name, got, want in (('<', y < x, b < a), ('<=', y <= x, b <= a), ('==', y == x, a == b), ('>=', y >= x, b >= a)):
                eq(got, want, '{} {} {} (reflected {})'.format(text_of(b), name, text_of(a), form))
        return
    if op == 'add':
        is_units(x + y, a + b, 'a + b')
        if form != 'str':
            is_units(y + x, a + b, 'b + a')
        z = units(a)
        z += y
        is_units(z, a + b, 'a += b')
    elif op == 'sub':
        def isub():
            z = units(a)
            z -= y
            return z
        for what, fn, want in (('a - b', lambda: x - y, a - b), ('a -= b', isub, a - b)) + \
                (() if form == 'str' else (('b - a', lambda: y - x, b - a),)):
            if want < 0:
                e = rejects(fn, '{} of {} and {}'.format(what, text_of(a), text_of(b)))
                check(isinstance(e, tfchain.errors.CurrencyNegativeValue), '{}: {!r} for a negative amount', what, e)
                ctx.label('negative')
            else:
                is_units(fn(), want, what)
    else:
        def imul():
            z = units(a)
            z *= y
            return z
        exact, rest = divmod(a * b, ONE)
        for what, fn in (('a * b', lambda: x * y), ('a *= b', imul)) + \
                (() if form == 'str' else (('b * a', lambda: y * x),)):
            if rest:
                e = rejects(fn, '{} of {} and {}'.format(what, text_of(a), text_of(b)))
                check(isinstance(e, tfchain.errors.CurrencyPrecisionOverflow), '{}: {!r} for a too precise amount', what, e)
                ctx.label('too precise')
            else:
                is_units(fn(), exact, what)
    is_units(x, a, 'left operand afterwards')
    if form == 'currency':
        is_units(y, b, 'right operand afterwards')


# ------------------------------------------------------------------ sums and orders

def sums(case, ctx):
    ns = case['ns']
    ctx.nontrivial(len(ns) > 1)
    cs = [units(n) for n in ns]
    if ns:
        is_units(sum(cs), sum(ns), 'sum')
    total = Currency()
    for c in cs:
        total += c
    is_units(total, sum(ns), 'accumulated sum')
    eq([int(c) for c in sorted(cs)], sorted(ns), 'sorted')
    for c, n in zip(cs, ns):
        is_units(c, n, 'summand afterwards')
        copy = Currency(value=c)
        copy += 1
        is_units(c, n, 'original after its copy was increased')
        is_units(copy, n + ONE, 'increased copy')


# ------------------------------------------------------------------ texts

@st.composite
def text_cases(draw):
    n = draw(gen.units)
    whole, frac = divmod(n, ONE)
    digits = '{:09d}'.format(frac).rstrip('0')
    digits += '0' * draw(st.integers(0, 12))
    s = '0' * draw(st.integers(0, 3)) + str(whole)
    if digits or draw(st.booleans()):
        s += '.' + digits
    fault = draw(st.sampled_from([None, None, None, 'negative', 'precise', 'garbage']))
    if fault == 'negative':
        if n == 0:
            s = '0.000000001'
        s = '-' + s
    elif fault == 'precise':
        s = str(whole) + '.{:09d}'.format(frac) + '0' * draw(st.integers(0, 5)) + draw(st.sampled_from('123456789'))
    elif fault == 'garbage':
        s = draw(st.sampled_from(['', 'TFT', '{} TF', '{} BTC', '{} {}', '{},5', '{}.1.2', '0x{}', 'NaN', 'Infinity', '-Infinity',
                                  'abc', '{} TFT TFT', '$ {}', '{}TFTX', 'sNaN'])).replace('{}', str(whole))
        return {'s': s, 'n': None, 'fault': fault}
    elif draw(st.booleans()):
        s = '+' + s
    if draw(st.booleans()):
        unit = ''.join(draw(st.sampled_from([c, c.lower()])) for c in 'TFT')
        s += ' ' * draw(st.integers(0, 2)) + unit
    s = ' ' * draw(st.integers(0, 2)) + s + draw(st.sampled_from(['', ' ', '\t', '\n']))
    return {'s': s, 'n': n if fault is None else None, 'fault': fault}


def texts(case, ctx):
    s, n, fault = case['s'], case['n'], case['fault']
    ctx.label(fault or 'valid')
    ctx.nontrivial(n is None or n > 0)
    for what, fn in (('Currency({!r})'.format(s), lambda: Currency(value=s)),
                     ('0 + {!r}'.format(s), lambda: Currency() + s)):
        if n is not None:
            is_units(fn(), n, what)
            continue
        e = rejects(fn, what)
        if fault == 'negative':
            check(isinstance(e, tfchain.errors.CurrencyNegativeValue), '{}: {!r}', what, e)
        elif fault == 'precise':
            check(isinstance(e, tfchain.errors.CurrencyPrecisionOverflow), '{}: {!r}', what, e)
    if n is None:
        c = units(7)
        try:
            c.value = s
        except Exception:
            pass
        is_units(c, 7, 'amount after a refused assignment')


# ------------------------------------------------------------------ printing, JSON and binary forms

def forms(case, ctx):
    n = case['n']
    ctx.nontrivial(n > 0)
    ctx.label('fraction', n % ONE)
    for c in (units(n), Currency(value=Decimal(n).scaleb(-9)), Currency(value=text_of(n))):
        eq(str(c), text_of(n), 'printed amount')
        eq(c.str(), text_of(n), 'printed amount (str)')
        eq(c.str(with_unit=True), text_of(n) + ' TFT', 'printed amount with unit')
        is_units(Currency(value=c.str(with_unit=True)), n, 'parsed print')
        is_units(Currency(value=str(c)), n, 'parsed print')
        eq(c.json(), str(n), 'JSON form')
        is_units(Currency.from_json(c.json()), n, 'decoded JSON form')
        eq(sia_encode(c), ref.S.currency(n), 'Sia encoding')
        eq(rivine_encode(c), ref.R.currency(n), 'Rivine encoding')
    if n % ONE == 0:
        is_units(Currency(value=n // ONE), n, 'amount of whole coins')
    rejects(lambda: Currency(value=float(n)), 'a float amount')
    rejects(lambda: Currency.from_json(n), 'a JSON number as amount')


# ------------------------------------------------------------------ block stakes

def stakes(case, ctx):
    n = case['n']
    ctx.nontrivial(n > 0)
    for b in (Blockstake(value=n), Blockstake(value=str(n)), Blockstake.from_json(str(n))):
        eq(int(b), n, 'block stake')
        eq(b.json(), str(n), 'JSON form')
        eq(str(b), str(n), 'printed')
        eq(sia_encode(b), ref.S.currency(n), 'Sia encoding')
        eq(rivine_encode(b), ref.R.currency(n), 'Rivine encoding')
    rejects(lambda: Blockstake(value=-1 - n), 'negative block stake')
    rejects(lambda: Blockstake(value=str(-1 - n)), 'negative block stake')
    rejects(lambda: Blockstake(value=float(n)), 'float block stake')


SUBS = [
    Sub('arith', arith_cases(), arith, 6000, 80000, 'both operands are positive'),
    Sub('sums', st.fixed_dictionaries({'ns': st.lists(gen.units.map(lambda n: n // 100), max_size=12)}), sums, 1200, 12000,
        'more than one summand'),
    Sub('texts', text_cases(), texts, 4000, 60000, 'a refused text, or a positive amount'),
    Sub('forms', st.fixed_dictionaries({'n': gen.units}), forms, 2500, 30000, 'a positive amount'),
    Sub('stakes', st.fixed_dictionaries({'n': gen.stakes}), stakes, 800, 5000, 'a positive stake'),
]
ASSUMPTIONS = ['amounts of at most 10^18 TFT (28 digits), products of at most 10^10 TFT']
