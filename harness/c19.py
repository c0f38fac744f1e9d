"""C19 Date, date-time and duration strings convert to Python values and back."""
from datetime import date, datetime, timedelta
from symex.api import case
from harness.util import attempt
from ezodf.timeparser import TimeParser

BOUNDS = ('every date of the years 1..9999 and every date-time of whole seconds in them; every duration of 0..999999999 days, '
          '0..86399 seconds, 0..999999 microseconds; duration strings with any subset of the six components, 1..2 (thorough: 1..3) free digits '
          'each (leading zeros included) and a fraction of 1..4 (thorough: 1..6) free digits; invalid strings: P followed by up to 4 (thorough: 6) '
          'free characters, and date and date-time strings with one free character at every position or one position removed')
ASSUMPTIONS = ['degenerate duration strings with no component after P or after T carry no documented meaning and are not judged',
               'values beyond timedelta.max raise OverflowError and are not judged',
               'non-ASCII digits, fields of one digit and days padded by a space in date strings, which strptime accepts, are not judged (but the value must be right)',
               'floats are modelled as exact reals (fractions of at most 6 digits)']

DIG = ((48, 57),)
MDAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def leap(ctx, y):
    return ctx.all([ctx.eq(y % 4, 0), ctx.any([ctx.not_(ctx.eq(y % 100, 0)), ctx.eq(y % 400, 0)])])


def free_date(ctx):
    y, m, d = ctx.int('y', 1, 9999), ctx.int('m', 1, 12), ctx.int('d', 1, 31)
    m = ctx.fork(m)
    if m == 2:
        ctx.assume(d <= ctx.ite(leap(ctx, y), 29, 28))
    else:
        ctx.assume(d <= MDAYS[m - 1])
    return y, m, d


def kinds(ctx, tp, kind):
    ctx.check(bool(tp.is_date) == (kind in ('date', 'datetime')), 'is_date')
    ctx.check(bool(tp.has_time) == (kind == 'datetime'), 'has_time')
    ctx.check(bool(tp.is_duration) == (kind == 'duration'), 'is_duration')


def shape(ctx, s, pattern, fields):
    """s is the pattern with the fields, zero padded, in the places of the digits"""
    ctx.check(len(s) == len(pattern), 'length of the string')
    conds, i, f = [], 0, 0
    fields = list(fields)
    while i < len(pattern):
        if pattern[i] == '0':
            j = i
            while j < len(pattern) and pattern[j] == '0':
                j += 1
            v = fields.pop(0)
            for k in range(i, j):
                conds.append(ctx.eq(ord(s[k]) - 48, v // 10 ** (j - 1 - k) % 10))
            i = j
        else:
            conds.append(ctx.eq(s[i], pattern[i]))
            i += 1
    ctx.check(ctx.all(conds), 'the string has the documented form')


@case('C19')
def dates(ctx):
    y, m, d = free_date(ctx)
    s = str(TimeParser(date(y, m, d)))
    shape(ctx, s, '0000-00-00', [y, m, d])
    for tp in (TimeParser(s), TimeParser(date(y, m, d))):
        kinds(ctx, tp, 'date')
        got = tp.value
        ctx.check(ctx.all([ctx.eq(got.year, y), ctx.eq(got.month, m), ctx.eq(got.day, d)]), 'the date comes back')
    ctx.check(ctx.eq(str(TimeParser(s)), s), 'the string comes back')
    ctx.observe(s)


@case('C19')
def datetimes(ctx):
    y, m, d = free_date(ctx)
    H, M, S = ctx.int('H', 0, 23), ctx.int('M', 0, 59), ctx.int('S', 0, 59)
    s = str(TimeParser(datetime(y, m, d, H, M, S)))
    shape(ctx, s, '0000-00-00T00:00:00', [y, m, d, H, M, S])
    tp = TimeParser(s)
    kinds(ctx, tp, 'datetime')
    got = tp.value
    ctx.check(ctx.all([ctx.eq(got.year, y), ctx.eq(got.month, m), ctx.eq(got.day, d)]), 'the day comes back')
    ctx.check(ctx.all([ctx.eq(got.hour, H), ctx.eq(got.minute, M), ctx.eq(got.second, S), ctx.eq(got.microsecond, 0)]), 'the time comes back')
    ctx.observe(s)


def micros(td):
    return (td.days * 86400 + td.seconds) * 1000000 + td.microseconds


@case('C19', quick=[{'part': p} for p in ('days', 'secs', 'us')])
def durations(ctx, part):
    days = ctx.int('days', 0, 999999999) if part == 'days' else ctx.choice('days', [0, 1, 36525])
    secs = ctx.int('H', 0, 23) * 3600 + ctx.int('M', 0, 59) * 60 + ctx.int('S', 0, 59) if part == 'secs' else ctx.choice('secs', [0, 86399])
    us = ctx.int('us', 0, 999999) if part == 'us' else ctx.choice('us', [0, 123456])
    v = timedelta(days=days, seconds=secs, microseconds=us)
    s = str(TimeParser(v))
    tp = TimeParser(s)
    kinds(ctx, tp, 'duration')
    kinds(ctx, TimeParser(v), 'duration')
    got = tp.value
    ctx.check(ctx.all([got.days == days, got.seconds == secs, got.microseconds <= us, us - got.microseconds < 100]),
              'the duration comes back to a tenth of a millisecond')
    ctx.observe(s)


def number(ctx, text):
    n = 0
    for c in text:
        n = n * 10 + (ord(c) - 48)
    return n


def _masks(pick):
    return [{'mask': m} for m in pick]


@case('C19', quick=_masks([0b000001, 0b010010, 0b100000, 0b111111, 0b001100, 0b101001]), thorough=_masks(range(1, 64)))
def parse_duration(ctx, mask):
    """Y M D H M S of the mask are present"""
    digits = ctx.q(2, 3)
    few = bin(mask).count('1') > 3
    s, total = 'P', 0
    for i, (unit, size) in enumerate(zip('YMDHMS', (365 * 86400, 30 * 86400, 86400, 3600, 60, 1))):
        if i == 3 and mask >> 3:
            s = s + 'T'
        if mask >> i & 1:
            t = ctx.text('%s%d' % (unit, i), 1 if few and i % 2 else digits, DIG, 1)
            s = s + t
            total = total + number(ctx, t) * size * 1000000
            if unit == 'S':
                frac = ctx.text('frac', ctx.q(4, 6), DIG)
                if len(frac):
                    s = s + ',' + frac
                    total = total + number(ctx, frac) * 10 ** (6 - len(frac))
            s = s + unit
    tp = TimeParser(s)
    kinds(ctx, tp, 'duration')
    ctx.check(ctx.eq(micros(tp.value), total), 'the denoted duration')
    ctx.observe(s)


def is_digit(ctx, c):
    return ctx.fork(ctx.all([ord(c) >= 48, ord(c) <= 57]))


def duration_form(ctx, s):
    """does s (after the P) have the documented form? None: degenerate"""
    pos, n = 0, len(s)
    units, comp, empty = 'YMD', 0, True
    in_time = False
    while pos < n:
        if not in_time and ctx.fork(ctx.eq(s[pos], 'T')):
            in_time, units, pos = True, 'HMS', pos + 1
            t_empty = True
            if pos == n:
                return None
            continue
        start = pos
        while pos < n and is_digit(ctx, s[pos]):
            pos += 1
        if pos == start or pos == n:
            return False
        if ctx.fork(ctx.eq(s[pos], ',')):
            if units[-1:] != 'S' or not in_time:
                return False
            start = pos = pos + 1
            while pos < n and is_digit(ctx, s[pos]):
                pos += 1
            if pos == start or pos == n or not ctx.fork(ctx.eq(s[pos], 'S')):
                return False
            units, pos, empty = '', pos + 1, False
            continue
        for k, u in enumerate(units):
            if ctx.fork(ctx.eq(s[pos], u)):
                units, empty = units[k + 1:], False
                break
        else:
            return False
        pos += 1
    return None if empty else True


@case('C19', quick=[{'n': n} for n in (0, 1, 2, 3, 4)], thorough=[{'n': n} for n in (1, 2, 3, 4, 5, 6)])
def not_a_duration(ctx, n):
    t = ctx.text('t', n, None, n)
    ok = duration_form(ctx, t)
    if ok is None:
        return
    got, err = attempt(lambda: TimeParser.parse('P' + t))
    ctx.check((err is None) == ok, 'only the documented form is a duration')
    if err is not None:
        ctx.check(isinstance(err, ValueError), 'ValueError')
        got, err = attempt(lambda: TimeParser('P' + t))
        ctx.check(isinstance(err, ValueError), 'ValueError from the constructor')
    ctx.observe(ok)


ASCII = ((0x20, 0x7e),)


@case('C19', quick=[{'time': t, 'pos': p} for t, n in ((False, 10), (True, 19)) for p in range(n + 1)])
def not_a_date(ctx, time, pos):
    """one character of a date string is replaced by a free one, or one is inserted"""
    base = '2012-02-29T13:59:58' if time else '2012-02-29'
    insert = ctx.bool('insert') if pos < len(base) else True
    c = ctx.text('c', 1, ASCII, 0 if not insert and pos else 1)
    rest = base[pos:] if insert else base[pos + 1:]
    s = base[:pos] + c + rest
    if pos == 0 and ctx.fork(ctx.eq(c, 'P')):
        ctx.check(isinstance(attempt(lambda: TimeParser.parse(s))[1], ValueError), 'not a duration')
        return
    # the oracle: fields cut at the separators
    ok, vals = True, []
    i, n = 0, len(s)
    for k, (width, sep) in enumerate([(4, '-'), (2, '-'), (2, 'T' if time else ''), (2, ':'), (2, ':'), (2, '')][:6 if time else 3]):
        start = i
        if k == 2 and i < n and ctx.fork(ctx.eq(s[i], ' ')):
            ok, start, i, width = None, i + 1, i + 1, 1     # strptime takes a space padded day: not judged
        while i < n and i - start < width and is_digit(ctx, s[i]):
            i += 1
        if i == start:
            ok = False
            break
        if i - start < width:
            if k == 0:
                ok = False
                break
            ok = None       # a short field: not judged
        vals.append(number(ctx, s[start:i]))
        if sep:
            if i == n or not ctx.fork(ctx.eq(s[i], sep)):
                ok = False
                break
            i += 1
    if ok is not False and i < n:
        ok = False
    if ok is not False:
        y, m, d = vals[:3]
        if not ctx.fork(ctx.all([y >= 1, m >= 1, m <= 12, d >= 1])):
            ok = False
        else:
            m = ctx.fork(m)
            top = MDAYS[m - 1] + (1 if m == 2 and ctx.fork(leap(ctx, y)) else 0)
            if not ctx.fork(d <= top):
                ok = False
            if time and not ctx.fork(ctx.all([vals[3] <= 23, vals[4] <= 59, vals[5] <= 59])):
                # strptime takes leap seconds 60, 61 but datetime does not
                ok = False
    got, err = attempt(lambda: TimeParser(s))
    if err is not None:
        ctx.check(isinstance(err, ValueError), 'ValueError')
        ctx.check(ok is not True, 'a valid string is accepted')
    else:
        ctx.check(ok is not False, 'an invalid string is rejected')
        v = got.value
        kinds(ctx, got, 'datetime' if time else 'date')
        have = [v.year, v.month, v.day] + ([v.hour, v.minute, v.second] if time else [])
        ctx.check(ctx.all([ctx.eq(a, b) for a, b in zip(have, vals)]), 'the denoted value')
    ctx.observe(ok)
