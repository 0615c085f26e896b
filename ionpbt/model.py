"""The Ion 1.0 data model, written down independently of amazon.ion.

A value is a tuple ``(type, payload, annotations)``:

========== =====================================================================================
null       payload is the name of the type ('null', 'int', ...); every null has type 'null'
bool       True/False
int        int
float      float
decimal    (sign, coefficient, exponent)
timestamp  (precision, year, month, day, hour, minute, second, fraction, offset) with precision one
           of Y M D m s, fraction None or (coefficient, digits), offset None (unknown) or minutes;
           the fields are local time
symbol     a symbol
string     text
clob, blob bytes
list, sexp tuple of values
struct     tuple of (symbol, value), a bag
========== =====================================================================================

A symbol is its text, or None for a symbol of unknown text (symbol zero and its equivalents), or
``('import', table name, sid)`` for a symbol of unknown text in a known import.
"""
import struct as _struct

SCALARS = ('null', 'bool', 'int', 'float', 'decimal', 'timestamp', 'symbol', 'string', 'clob', 'blob')
CONTAINERS = ('list', 'sexp', 'struct')
TYPES = ('null', 'bool', 'int', 'float', 'decimal', 'timestamp', 'symbol', 'string', 'clob', 'blob',
         'list', 'sexp', 'struct')

SYSTEM_SYMBOLS = (None, '$ion', '$ion_1_0', '$ion_symbol_table', 'name', 'version', 'imports', 'symbols', 'max_id',
                  '$ion_shared_symbol_table')


def mk(t, v, a=()):
    return (t, v, tuple(a))


def float_key(f):
    if f != f:
        return 'nan'
    return _struct.pack('>d', f)


def canon(v):
    """A hashable form that is equal exactly for equivalent values."""
    t, p, a = v
    if t == 'float':
        p = float_key(p) if isinstance(p, float) else p
    elif t == 'bool':
        p = ('true' if p else 'false') if isinstance(p, bool) else p
    elif t in ('list', 'sexp'):
        p = tuple(canon(x) for x in p)
    elif t == 'struct':
        p = tuple(sorted(((n, canon(x)) for n, x in p), key=repr))
    return (t, p, a)


def same(x, y):
    return canon(x) == canon(y)


def canon_stream(values):
    return tuple(canon(v) for v in values)


def show(v, depth=0):
    """A compact rendering for reports."""
    t, p, a = v
    ann = ''.join('%s::' % (show_sym(s),) for s in a)
    if t in ('list', 'sexp'):
        o, c = ('[', ']') if t == 'list' else ('(', ')')
        body = o + ', '.join(show(x, depth + 1) for x in p) + c
    elif t == 'struct':
        body = '{' + ', '.join('%s: %s' % (show_sym(n), show(x, depth + 1)) for n, x in p) + '}'
    elif t == 'null':
        body = 'null.' + p
    elif t == 'decimal':
        body = 'decimal(%s%dd%d)' % ('-' if p[0] else '', p[1], p[2])
    elif t == 'timestamp':
        body = 'ts' + repr(p).replace(' ', '')
    elif t == 'symbol':
        body = 'sym ' + show_sym(p)
    else:
        body = '%s %r' % (t, p)
    return ann + body


def show_sym(s):
    return '$0' if s is None else (repr(s) if isinstance(s, str) else 'import%r' % (s,))


def show_stream(values):
    return ' | '.join(show(v) for v in values)


def difference(x, y):
    """Describes the first difference of two values."""
    if canon(x) == canon(y):
        return None
    if x[0] != y[0]:
        return 'type %s became %s: %s vs %s' % (x[0], y[0], show(x)[:300], show(y)[:300])
    if x[2] != y[2]:
        return 'annotations %r became %r on %s' % (x[2], y[2], show(x)[:200])
    if x[0] in ('list', 'sexp'):
        if len(x[1]) != len(y[1]):
            return '%s of %d elements became %d: %s vs %s' % (x[0], len(x[1]), len(y[1]), show(x)[:300], show(y)[:300])
        for a, b in zip(x[1], y[1]):
            d = difference(a, b)
            if d:
                return d
    return '%s vs %s' % (show(x)[:600], show(y)[:600])


def difference_stream(xs, ys):
    if canon_stream(xs) == canon_stream(ys):
        return None
    if len(xs) != len(ys):
        return '%d top-level values became %d: %s vs %s' % (len(xs), len(ys), show_stream(xs)[:400],
                                                          show_stream(ys)[:400])
    for a, b in zip(xs, ys):
        d = difference(a, b)
        if d:
            return d
    return 'streams differ'


# -- calendar ---------------------------------------------------------------------------------------------------------

def is_leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def days_in_month(y, m):
    return (31, 29 if is_leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)[m - 1]


def day_number(y, m, d):
    """Days since 0001-01-01 (proleptic Gregorian), by Howard Hinnant's algorithm."""
    y2 = y - (m <= 2)
    era = y2 // 400
    yoe = y2 - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    doe = yoe * 365 + yoe // 4 - yoe // 100 + doy
    return era * 146097 + doe - 306


def from_day_number(n):
    z = n + 306
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + 3 if mp < 10 else mp - 9
    return y + (m <= 2), m, d


def shift_minutes(y, mo, d, h, mi, minutes):
    """Adds minutes to a local date and time."""
    total = (day_number(y, mo, d) * 24 + h) * 60 + mi + minutes
    days, rest = divmod(total, 1440)
    y, mo, d = from_day_number(days)
    return y, mo, d, rest // 60, rest % 60


def ts_utc(ts):
    """(year, month, day, hour, minute) in UTC of a timestamp payload with time of day."""
    prec, y, mo, d, h, mi, s, frac, off = ts
    return shift_minutes(y, mo, d, h, mi, -(off or 0))


def ts_instant(ts):
    """The instant a timestamp denotes, as an exact number of seconds (numerator, power of ten)."""
    from fractions import Fraction
    prec, y, mo, d, h, mi, s, frac, off = ts
    if mo is None:
        mo = 1
    if d is None:
        d = 1
    total = ((day_number(y, mo, d) * 24 + (h or 0)) * 60 + (mi or 0) - (off or 0)) * 60 + (s or 0)
    x = Fraction(total)
    if frac is not None:
        x += Fraction(frac[0], 10 ** frac[1])
    return x


def depth_of(v):
    if v[0] in ('list', 'sexp'):
        return 1 + max([depth_of(x) for x in v[1]] or [0])
    if v[0] == 'struct':
        return 1 + max([depth_of(x) for _, x in v[1]] or [0])
    return 0


def walk(v):
    yield v
    if v[0] in ('list', 'sexp'):
        for x in v[1]:
            for y in walk(x):
                yield y
    elif v[0] == 'struct':
        for _, x in v[1]:
            for y in walk(x):
                yield y


def symbols_of(v):
    """Every symbol that occurs in a value."""
    for x in walk(v):
        for s in x[2]:
            yield s
        if x[0] == 'symbol':
            yield x[1]
        elif x[0] == 'struct':
            for n, _ in x[1]:
                yield n
