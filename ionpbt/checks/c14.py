"""C14: a timestamp keeps exactly what it was made of, however it was made, and only possible timestamps exist."""
import copy
from datetime import timezone
from fractions import Fraction

from ..common import *
from ..engine import Unit
from ..gen import gen_timestamp
from ..model import shift_minutes, ts_instant, ts_utc, days_in_month
from ..zones import DaylightSaving, gen_zone

from amazon.ion.core import timestamp

ASSUMPTIONS = ['local times stay within the years 1 to 9999 in UTC as well', 'fractions are not negative zero',
               'converting from UTC without a precision is only judged for the fields of datetime',
               'offsets are whole minutes']


def gen_fraction(d):
    k = d.weighted(((3, 'short'), (2, 'edge'), (2, 'long'), (1, 'zero'), (1, 'tiny')))
    if k == 'short':
        n = d.integer(1, 6)
        return Decimal((0, digits(d.draw(10 ** n - 1)), -n))
    if k == 'zero':
        return Decimal((0, (0,), d.choice((0, -1, -3, -6, -7, -9, 1, 5, -40))))
    if k == 'tiny':
        # more zeros than microseconds have digits, before more digits than there are zeros
        n, zeros = d.integer(1, 30), d.integer(4, 15)
        return Decimal((0, digits(10 ** (n - 1) + d.bits(120) % (9 * 10 ** (n - 1))), -n - zeros))
    n = d.integer(7, 12) if k == 'edge' else d.integer(13, 60)
    m = d.weighted(((3, 0), (2, 1), (2, 2), (1, 3)))
    if m == 0:
        c = d.bits(200) % 10 ** n
    elif m == 1:
        c = 10 ** n - 1 - d.draw(3)
    elif m == 2:
        c = (10 ** 6 - 1 if d.boolean() else d.draw(10 ** 6 - 1)) * 10 ** (n - 6) + d.choice((0, 1, 10 ** (n - 6) - 1, 10 ** (n - 6) // 2))
    else:
        c = d.draw(9)
    return Decimal((0, digits(c), -n))


def digits(n):
    return tuple(int(c) for c in str(n))


def number(x):
    """The exact value of a finite decimal."""
    sign, ds, exp = Decimal.as_tuple(x)
    n = int(''.join(map(str, ds)) or '0') * (-1 if sign else 1)
    return Fraction(n) * Fraction(10) ** exp


def gen_offset(d):
    return d.choice((None, 0, 60, -60, 330, -480, 1, -1, 59, -59, 840, 1439, -1439, -90)) if d.chance(70) else d.integer(-1439, 1439)


def fields_ok(y, mo, day, h, mi, s):
    return (1 <= y <= 9999 and 1 <= mo <= 12 and 1 <= day <= days_in_month(y, mo) and 0 <= h <= 23 and 0 <= mi <= 59
            and 0 <= s <= 59)


def construct(d):
    """The constructor and its shorthand: every combination of arguments."""
    p = gen_timestamp(d)
    f = [p[1], p[2] or d.integer(1, 12), p[3] or 1, p[4] or 0, p[5] or 0, p[6] or 0]
    if f[2] > days_in_month(f[0], f[1]):
        f[2] = 1
    if d.chance(12):
        i = d.draw(5)
        f[i] = d.choice(((0, 10000, -1), (0, 13, -1), (0, 32, days_in_month(f[0], f[1]) + 1), (24, -1), (60, -1), (60, 61, -1))[i])
    micro = fp = fs = None
    k = d.weighted(((3, 'fraction'), (3, 'micro'), (2, 'micro and digits'), (2, 'none'), (1, 'anything')))
    if k == 'fraction':
        fs = gen_fraction(d)
        if d.chance(10):
            fs = d.choice((Decimal(1), Decimal('1.0'), Decimal('-0.1'), Decimal('1e1'), Decimal('1.0000000000000000000000000000000000001'),
                           Decimal('-1e-40')))
    elif k == 'micro':
        micro = d.choice((0, 1, 999999, 500000, 100000)) if d.boolean() else d.draw(999999)
    elif k == 'micro and digits':
        fp = d.integer(0, 6)
        micro = d.draw(10 ** fp - 1) * 10 ** (6 - fp)
        if d.chance(25):
            micro = d.draw(999999)
        if d.chance(10):
            fp = d.choice((-1, 7, 100))
    elif k == 'anything':
        micro = d.choice((None, 0, 5, -1, 1000000, 999999))
        fp = d.choice((None, 0, 3, 6, 7))
        fs = d.choice((None, Decimal(0), Decimal('0.5')))
    off = gen_offset(d)
    precision = d.choice((None,) + tuple(PRECISION[x] for x in 'YMDms')) if d.boolean() else TimestampPrecision.SECOND
    how = d.choice(('positional', 'keyword', 'shorthand', 'ionpy'))
    # what should come of it
    bad = None
    if not fields_ok(*f):
        bad = 'fields'
    elif fp is not None and not 0 <= fp <= 6:
        bad = 'fractional_precision out of range'
    elif fs is not None and not 0 <= number(fs) < 1:
        bad = 'fraction out of range'
    elif fs is not None and (fp is not None or micro is not None):
        bad = 'fraction and microsecond'
    elif fp is not None and micro is None:
        bad = 'fractional_precision without microsecond'
    elif micro is not None and not 0 <= micro <= 999999:
        bad = 'microsecond out of range'
    elif fp is not None and micro % 10 ** (6 - fp):
        bad = 'microsecond not expressible'
    if fs is not None and bad is None:
        exp = fs.as_tuple()[2]
        want_fs = fs if exp < 0 else Decimal(0)
        want_fp = min(max(0, -exp), 6)
        want_micro = int(number(fs) * 10 ** 6)
    elif micro is not None:
        want_fp = 6 if fp is None else fp
        want_fs = number(Decimal(micro)) / 10 ** 6
        want_micro = micro
    else:
        want_fs, want_fp, want_micro = Decimal(0), 0, 0
    tz = None if off is None else OffsetTZInfo(timedelta(minutes=off))
    if d.chance(8):
        far = d.choice((1440, -1440, 1441, -1441, 1442, -1500, 1500, -2880, 2879, 10 ** 6))
        if d.boolean():
            status, got = attempt(OffsetTZInfo, timedelta(minutes=far))
        else:
            status, got = attempt(timestamp, *f[:6], off_hours=int(far / 60), off_minutes=far - int(far / 60) * 60)
        if status == 'ok':
            raise Violation('an offset of %d minutes was accepted: %r' % (far, got))
        sign = d.choice((1, -1))
        oh, om = d.choice(((None, 60), (0, 60), (5, 60), (5, 75), (1, 99), (None, 61), (24, 0), (24, None), (23, 60), (25, 0), (99, 1), (24, -1)))
        oh, om = None if oh is None else oh * sign, None if om is None else om * sign
        status, got = attempt(timestamp, *f[:6], off_hours=oh, off_minutes=om)
        if status == 'ok':
            raise Violation('off_hours=%r, off_minutes=%r were accepted: %r' % (oh, om, got))
    d.case((f, micro, fp, repr(fs), off, repr(precision), how), 'Timestamp(%r, microsecond=%r, offset=%r, precision=%r, fractional_precision=%r, '
                                                               'fractional_seconds=%r) by %s' % (f, micro, off, precision, fp, fs, how))
    d.nontrivial(bad is not None or fs is not None or micro is not None)
    d.label(bad or 'good')
    kw = {}
    for name, x in (('precision', precision), ('fractional_precision', fp), ('fractional_seconds', fs)):
        if x is not None or d.boolean():
            kw[name] = x
    cls = Timestamp
    if how == 'shorthand':
        oh = om = None
        if off is not None:
            oh, om = divmod(abs(off), 60)
            oh, om = (oh, om) if off >= 0 else (-oh, -om)
            if oh == 0 and d.boolean():
                oh = None
            elif om == 0 and d.boolean():
                om = None
        status, got = attempt(timestamp, *f, microsecond=micro, off_hours=oh, off_minutes=om, **kw)
    elif how == 'keyword':
        if micro is not None or d.boolean():
            kw['microsecond'] = micro
        status, got = attempt(Timestamp, *f, tzinfo=tz, **kw)
    else:
        cls = IonPyTimestamp if how == 'ionpy' else Timestamp
        status, got = attempt(cls, *(f + [micro, tz]), **kw)
    if bad:
        if status == 'ok':
            raise Violation('accepted although: %s: %r with %r' % (bad, got, getattr(got, 'fractional_seconds', None)))
        return
    if status != 'ok':
        raise Violation('refused: %s: %s' % (type(got).__name__, got))
    check_fields(got, cls, f, want_micro, off, precision, want_fp, want_fs)


def check_fields(got, cls, f, micro, off, precision, fp, fs):
    if type(got) is not cls:
        raise Violation('got a %s' % type(got).__name__)
    have = [got.year, got.month, got.day, got.hour, got.minute, got.second]
    if have != list(f):
        raise Violation('fields are %r' % (have,))
    want_off = None if off is None else timedelta(minutes=off)
    if got.utcoffset() != want_off:
        raise Violation('offset is %r' % (got.utcoffset(),))
    if got.precision is not precision:
        raise Violation('precision is %r' % (got.precision,))
    if got.microsecond != micro:
        raise Violation('microsecond is %r instead of %r' % (got.microsecond, micro))
    if got.fractional_precision != fp:
        raise Violation('fractional_precision is %r instead of %r' % (got.fractional_precision, fp))
    have = got.fractional_seconds
    if not isinstance(have, Decimal):
        raise Violation('fractional_seconds is %r' % (have,))
    if isinstance(fs, Fraction):
        # made from microseconds: as many digits as the precision says
        if number(have) != fs or -have.as_tuple()[2] != fp:
            raise Violation('fractional_seconds is %r instead of %s with %d digits' % (have, fs, fp))
    elif have.as_tuple() != fs.as_tuple():
        raise Violation('fractional_seconds is %r instead of %r' % (have, fs))


def from_utc(d):
    """Converting from UTC fields keeps the instant, the precision and every digit."""
    p = gen_timestamp(d)
    prec = p[0]
    if prec in 'YMD':
        # the fields are adjusted whatever the precision: take some of a full timestamp
        y = min(max(p[1], 2), 9998)
        p = ('m', y, p[2] or d.choice((1, 3, 12)), p[3] or d.choice((1, 28)), d.choice((0, 12, 23)), d.choice((0, 30, 59)), None, None,
             0 if prec == 'M' and d.boolean() else d.choice((None, 0, 1, -1, 60, -60, 330, -480, 1439, -1439)))
    off = p[8]
    utc = ts_utc(p)
    y, mo, day, h, mi = utc
    tz = None if off is None else OffsetTZInfo(timedelta(minutes=off))
    if off is not None and d.chance(30):
        tz = DaylightSaving(off) if d.boolean() else timezone(timedelta(minutes=off))
    if d.boolean():
        fs = gen_fraction(d) if prec == 's' else None
    else:
        fs = None if p[7] is None else Decimal((0, digits(p[7][0]), -p[7][1]))
    d.case((p, repr(fs)), 'UTC %r offset %r fraction %r precision %s' % (utc, off, fs, prec))
    d.nontrivial(bool(off))
    got = must('adjust_from_utc_fields', Timestamp.adjust_from_utc_fields, y, mo, day, h, mi, p[6] or 0, None, tz,
               precision=PRECISION[prec], fractional_precision=None, fractional_seconds=fs)
    if fs is None:
        want_fs, fp, micro = Decimal(0), 0, 0
    else:
        exp = fs.as_tuple()[2]
        want_fs = fs if exp < 0 else Decimal(0)
        fp, micro = min(max(0, -exp), 6), int(number(fs) * 10 ** 6)
    check_fields(got, Timestamp, [p[1], p[2], p[3], p[4], p[5], p[6] or 0], micro, off, PRECISION[prec], fp, want_fs)
    if off is not None:
        plain = must('adjust_from_utc_fields', Timestamp.adjust_from_utc_fields, y, mo, day, h, mi, p[6] or 0, micro, tz)
        want = datetime(p[1], p[2], p[3], p[4], p[5], p[6] or 0, micro, tz)
        if plain != want or plain.utcoffset() != want.utcoffset() or plain.replace(tzinfo=None) != want.replace(tzinfo=None):
            raise Violation('without precision: %r instead of %r' % (plain, want))
    status, got = attempt(repr, got)
    if status != 'ok':
        raise Violation('repr failed: %r' % got)


# -- literals -------------------------------------------------------------------------------------------------------------

def text_of(d, p, f, off, fraction):
    """Text of raw (possibly impossible) fields."""
    prec = p[0]
    y, mo, day, h, mi, s = f
    t = '%04d' % y
    if prec == 'Y':
        return t + 'T'
    t += '-%02d' % mo
    if prec == 'M':
        return t + 'T'
    t += '-%02d' % day
    if prec == 'D':
        return t + ('T' if d.boolean() else '')
    t += 'T%02d:%02d' % (h, mi)
    if prec == 's':
        t += ':%02d' % s
        if fraction is not None:
            t += '.' + fraction
    if off is None:
        return t + '-00:00'
    if off == 0 and d.boolean():
        return t + 'Z'
    sign = '-' if off < 0 else '+'
    return t + '%s%02d:%02d' % (sign, abs(off) // 60, abs(off) % 60)


def varuint(n):
    out = [n & 0x7f | 0x80]
    n >>= 7
    while n:
        out.insert(0, n & 0x7f)
        n >>= 7
    return bytes(out)


def varint(n, sign):
    out = []
    first = True
    m = n
    while m > 0x3f:
        out.insert(0, m & 0x7f)
        m >>= 7
    out.insert(0, m | (0x40 if sign else 0))
    out[-1] |= 0x80
    return bytes(out)


def uint(n):
    return n.to_bytes((n.bit_length() + 7) // 8, 'big') if n else b''


def binary_of(prec, f, off, fraction):
    body = varint(0, True) if off is None else varint(abs(off), off < 0)
    n = {'Y': 1, 'M': 2, 'D': 3, 'm': 5, 's': 6}[prec]
    for x in f[:n]:
        body += varuint(x)
    if prec == 's' and fraction is not None:
        c = uint(int(fraction))
        if c and c[0] & 0x80:
            c = b'\0' + c
        body += varint(len(fraction), len(fraction) > 0) + c
    head = bytes([0x60 | len(body)]) if len(body) < 14 else b'\x6e' + varuint(len(body))
    return b'\xe0\x01\x00\xea' + head + body


def literal(d):
    """What text and binary literals of timestamps denote, and that impossible ones are refused."""
    p = gen_timestamp(d)
    prec, off = p[0], p[8]
    f = [p[1], p[2] or 1, p[3] or 1, p[4] or 0, p[5] or 0, p[6] or 0]
    fraction = None
    if prec == 's' and d.chance(60):
        n = d.choice((1, 2, 3, 5, 6, 7, 8, 9, 12, 20, 40))
        fraction = '%0*d' % (n, d.choice((0, 10 ** n - 1, d.bits(140) % 10 ** n)))
    binary = d.boolean()
    n = {'Y': 1, 'M': 2, 'D': 3, 'm': 5, 's': 6}[prec]
    bad = None
    local = list(f)
    if binary and off:
        utc = ts_utc(p)
        f = [utc[0], utc[1], utc[2], utc[3], utc[4], f[5]]
    if d.chance(25):
        i = d.draw(n - 1 if off is None or prec in 'YMD' else n)
        if i == 6 or (i == n and off is not None):
            bad = 'offset'
            off = d.choice((1440, -1440, 1441, 5999, -1500, 86400) if binary else (1440, -1440, 1500, -5999))
        else:
            bad = ('year', 'month', 'day', 'hour', 'minute', 'second')[i]
            f[i] = d.choice(((0,) if not binary else (0, 10000, 20000), (0, 13, 99), (0, 32, 99, days_in_month(f[0], f[1]) + 1),
                             (24, 25, 99), (60, 61, 99), (60, 61, 99))[i])
    if binary:
        data = binary_of(prec, f, off, fraction)
    else:
        data = text_of(d, p, f, off, fraction)
        ctx = d.draw(3)
        data = (data, '[%s]' % data, '{a:%s}' % data, 'x::%s ' % data)[ctx]
    d.case(data, '%s literal %r' % (bad or 'good', data))
    d.label(('binary ' if binary else 'text ') + (bad or 'good'))
    d.nontrivial(bad is not None or prec in 'ms')
    status, got = attempt(lambda: from_py_stream(simpleion.loads(data, single_value=False)))
    if bad:
        if status == 'ok':
            raise Violation('%r with an impossible %s was read as %s' % (data, bad, show_stream(got)))
        return
    if status != 'ok':
        raise Violation('%r was refused: %r' % (data, got))
    frac = None if fraction is None else (int(fraction), len(fraction))
    want = mk('timestamp', p[:6] + ((p[6], frac) if prec == 's' else (p[6], None)) + (p[8],))
    if not binary:
        if ctx == 1:
            want = mk('list', [want])
        elif ctx == 2:
            want = mk('struct', [('a', want)])
        elif ctx == 3:
            want = mk('timestamp', want[1], ('x',))
    expect([want], got, repr(data))


# -- datetimes of all sorts -------------------------------------------------------------------------------------------------

class Sub(datetime):
    pass


def written(d):
    """datetime and Timestamp objects with all sorts of tzinfo keep local time, offset, precision and digits when written and read."""
    p = gen_timestamp(d)
    off = p[8] if p[0] in 'ms' and d.chance(85) else None
    y, mo, day, h, mi, s = [p[1], p[2] or 1, p[3] or 1, p[4] or 0, p[5] or 0, p[6] or 0]
    kind, tz, fold = gen_zone(d, off, mo, y)
    cls = d.choice((datetime, Sub, Timestamp))
    if cls is Timestamp:
        obj = py_timestamp(p)
        obj = Timestamp(y, mo, day, h, mi, s, None, tz, precision=PRECISION[p[0]],
                        fractional_seconds=obj.fractional_seconds if p[7] is not None else None, fold=fold)
        want = p[:8] + (off,)
    else:
        micro = d.choice((0, 1, 999999, 123456, 500000, d.draw(999999)))
        obj = cls(y, mo, day, h, mi, s, micro, tz, fold=fold)
        want = ('s', y, mo, day, h, mi, s, (micro, 6), off)
    d.case((repr(obj), repr(want), cls.__name__, kind), 'written: %s(%r) %s' % (cls.__name__, want, kind))
    d.nontrivial(bool(off))
    d.label(cls.__name__)
    d.label(kind)
    how = d.draw(2)
    if how == 1:
        obj = must('from_value', IonPyTimestamp.from_value, IonType.TIMESTAMP, obj)
    elif how == 2:
        obj = must('copy', d.choice((copy.copy, copy.deepcopy)), obj)
    for binary in (True, False):
        data = must('dumps', simpleion.dumps, [obj], binary=binary)
        got = must('loads of %r' % data, loads_stream, data)
        expect([mk('list', [mk('timestamp', want)])], got, repr(data))


# -- derived timestamps -----------------------------------------------------------------------------------------------------

def derived(d):
    """replace(), arithmetic and conversion of time zones give what datetime gives, and what is written says the same."""
    p = gen_timestamp(d)
    cls = d.choice((Timestamp, IonPyTimestamp))
    if cls is Timestamp:
        ts = py_timestamp(p)
    else:
        ts = IonPyTimestamp.from_value(IonType.TIMESTAMP, py_timestamp(p), ('x',))
    # fractions beyond microseconds are truncated by everything but replace()
    plain = datetime(ts.year, ts.month, ts.day, ts.hour, ts.minute, ts.second, ts.microsecond, ts.tzinfo)
    op = d.choice(('replace', 'replace', 'add', 'subtract', 'astimezone', 'combine'))
    frac = (plain.microsecond, 6)
    prec = 's'
    if op == 'replace':
        kw = {}
        for name, options in (('year', (2000, 2003, 1, 9999)), ('month', (1, 2, 12)), ('day', (1, 28)), ('hour', (0, 23)), ('minute', (0, 59)),
                              ('second', (0, 59)), ('microsecond', (0, 1, 999999, 120000)), ('tzinfo', (None, OffsetTZInfo(timedelta(minutes=90))))):
            if d.chance(25):
                kw[name] = d.choice(options)
        if 'year' in kw and (kw['year'] in (1, 9999) or (ts.month, ts.day) == (2, 29)):
            kw['month'], kw['day'] = 6, 15
        if kw.get('month') and ts.day > 28:
            kw.setdefault('day', 28)
        args = ()
        if d.boolean() and 'year' in kw:
            # leading arguments by position
            names = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond')
            while len(args) < len(names) and names[len(args)] in kw:
                args += (kw.pop(names[len(args)]),)
        how = 'replace%r %r' % (args, kw)
        fn = lambda x: x.replace(*args, **kw)
        replaced = 'microsecond' in kw or len(args) == 7
        prec = p[0]
    elif op == 'combine':
        how = 'combine(date, time)'
        fn = lambda x: type(x).combine(x.date(), x.timetz())
    elif op == 'astimezone':
        tz = d.choice((OffsetTZInfo(timedelta(minutes=d.integer(-900, 900))), timezone.utc))
        if ts.tzinfo is None or not 2 < ts.year < 9998:
            raise Discard
        how = 'astimezone(%r)' % tz
        fn = lambda x: x.astimezone(tz)
    else:
        delta = timedelta(d.choice((0, 1, -1, 365)), d.choice((0, 1, 59, 86399)), d.choice((0, 1, 500000, 999999)))
        how = '%s %r' % (op, delta)
        fn = (lambda x: x + delta) if op == 'add' else (lambda x: x - delta)
    d.case((p, cls.__name__, how), '%s of %s %r' % (how, cls.__name__, p))
    d.label(op)
    d.nontrivial(ts.microsecond != 0)
    about = '%s of %s %r' % (how, cls.__name__, p)
    status, want = attempt(fn, plain)
    ok, got = attempt(fn, ts)
    if status != 'ok':
        if ok == 'ok':
            raise Violation('%s is %r, although datetime raises %r' % (about, got, want))
        return
    if ok != 'ok':
        raise Violation('%s raised %r' % (about, got))
    if not isinstance(got, datetime) or got.replace(tzinfo=None) != want.replace(tzinfo=None) or got.utcoffset() != want.utcoffset():
        raise Violation('%s is %r instead of %r' % (about, got, want))
    if op == 'replace' and (type(got) is not cls or got.precision is not PRECISION[prec]):
        raise Violation('%s is a %s with precision %r' % (about, type(got).__name__, getattr(got, 'precision', 'none at all')))
    off = got.utcoffset()
    off = None if off is None else off.days * 1440 + off.seconds // 60
    fields = (got.year, got.month, got.day, got.hour, got.minute, got.second)
    frac = p[7] if op == 'replace' and not replaced else (want.microsecond, 6)
    y = shift_minutes(*(fields[:5] + (-off,)))[0] if off else got.year
    if not 1 <= y <= 9999:
        return
    if op == 'replace' and prec in 'YMD' and (off is not None or frac):
        # a date with a time zone or a fraction has no Ion equivalent
        return
    model = (prec,) + fields[:{'Y': 1, 'M': 2, 'D': 3, 'm': 5, 's': 6}[prec]]
    model += (None,) * (7 - len(model)) + ((frac if prec == 's' else None), off if prec in 'ms' else None)
    binary = d.boolean()
    data = must('dumps ' + about, simpleion.dumps, [got], binary=binary)
    back = loads_stream(data)
    if back and back[0][0] == 'list' and len(back[0][1]) == 1:
        v = back[0][1][0]
        if op != 'replace':
            # which precision and how many trailing zeros a result has is not said
            if v[0] != 'timestamp' or ts_instant(v[1]) != ts_instant(model) or v[1][8] != model[8]:
                raise Violation('%s was written as %s instead of %r' % (about, show(v), model))
            return
    expect([mk('list', [mk('timestamp', model, back[0][1][0][2] if back and back[0][1] else ())])], back, about + ': %r' % (data,))


UNITS = [
    Unit('construct', construct, 14000, 400000, 'constructor arguments in every combination, some contradictory or out of range; non-trivial: a fraction or an error'),
    Unit('from utc', from_utc, 9000, 250000, 'conversion from UTC fields; non-trivial: the offset is not zero'),
    Unit('literal', literal, 14000, 400000, 'text and binary literals with possible and impossible fields; non-trivial: a time of day or an impossible field'),
    Unit('written', written, 9000, 250000, 'datetime objects with several kinds of tzinfo through both formats; non-trivial: the offset is not zero'),
    Unit('derived', derived, 8000, 250000, 'replace(), arithmetic, time zones; non-trivial: there are microseconds'),
]
