"""C26: events, symbol tokens and enumerations are values: they compare by content, and derived ones differ in one attribute."""
import copy
import pickle
from datetime import timezone

from amazon.ion.core import IonThunkEvent
from amazon.ion.symbols import ImportLocation
from amazon.ion.util import Enum, record

from ..common import *
from ..engine import Unit
from ..model import same
from ..tweak import tweak_node, tweak_annotations

ASSUMPTIONS = ['whether events with numerically equal values of different digits or signs of zero are equal is not judged']

OPTS = Opts(big=False, annotations=False, huge_exponents=False)
TYPES = ('bool', 'int', 'float', 'decimal', 'timestamp', 'symbol', 'string', 'clob', 'blob', 'null')
NAMES = ('event_type', 'ion_type', 'value', 'field_name', 'annotations', 'depth')


def gen_token(d):
    """(object, key)"""
    k = d.choice(('text', 'token', 'sid', 'imported'))
    text, sid = d.choice(('a', 'b', 'name', u'\xe9')), d.choice((0, 4, 10, 11))
    if k == 'text':
        return text, ('text', text)
    if k == 'token':
        return SymbolToken(text, sid), (text, sid, None)
    if k == 'sid':
        return SymbolToken(None, sid), (None, sid, None)
    where = (d.choice(('t', 'u')), d.choice((1, 2)))
    text = d.choice((None, text))
    return SymbolToken(text, sid, ImportLocation(*where)), (text, sid, where)


def gen_spec(d):
    """Attributes of an event: the value as a model value or None, tokens as (object, key)."""
    et = d.weighted(((6, IonEventType.SCALAR), (2, IonEventType.CONTAINER_START), (1, IonEventType.CONTAINER_END), (1, IonEventType.STREAM_END)))
    value = ion_type = None
    if et is IonEventType.SCALAR:
        value = gen_scalar(d, OPTS, ('timestamp',) if d.chance(15) else TYPES)
        ion_type = ION_TYPE[value[1] if value[0] == 'null' else value[0]]
    elif et is not IonEventType.STREAM_END:
        ion_type = d.choice((IonType.LIST, IonType.SEXP, IonType.STRUCT))
    name = gen_token(d) if d.boolean() else None
    annotations = tuple(gen_token(d) for _ in range(d.small(3)))
    return [et, ion_type, value, name, annotations, d.choice((None, 0, 1, 2))]


def change(d, spec):
    """The spec with one attribute changed, perhaps to an equal one."""
    spec = list(spec)
    i = 2 if spec[2] is not None and d.chance(30) else d.draw(5)
    if i == 0:
        spec[0] = d.choice(list(IonEventType))
    elif i == 1:
        spec[1] = d.choice(list(IonType))
    elif i == 2:
        if spec[2] is None:
            spec[2] = gen_scalar(d, OPTS, TYPES)
        elif d.chance(15):
            spec[2] = None
        else:
            v = tweak_node(d, spec[2])
            spec[2] = mk(v[0], v[1]) if v[0] in TYPES else None
    elif i == 3:
        spec[3] = d.choice((None, gen_token(d), gen_token(d)))
    elif i == 4:
        a = list(spec[4])
        k = d.draw(3)
        if k == 0 and a:
            a.pop(d.draw(len(a) - 1))
        elif k == 1 and len(a) > 1:
            a.reverse()
        else:
            a.insert(d.draw(len(a)), gen_token(d))
        spec[4] = tuple(a)
    else:
        spec[5] = d.choice((None, 0, 1, 2))
    return spec


def value_of(d, v):
    if v is None or v[0] == 'null':
        return None
    if v[0] == 'symbol':
        return SymbolToken(v[1], 0 if v[1] is None else None)
    return py_scalar(v[0], v[1])


class Fails(Exception):
    """Raised instead of computing a value."""


def build(d, spec, calls=None, failures=0):
    value = value_of(d, spec[2])
    rest = (None if spec[3] is None else spec[3][0], tuple(t[0] for t in spec[4]), spec[5])
    if d.boolean():
        def thunk():
            if calls is not None:
                calls.append(1)
                if len(calls) <= failures:
                    raise Fails
            return value
        if d.boolean():
            return IonThunkEvent(event_type=spec[0], ion_type=spec[1], value=thunk, field_name=rest[0], annotations=rest[1], depth=rest[2]), value
        return IonThunkEvent(spec[0], spec[1], thunk, *rest), value
    if d.boolean():
        return IonEvent(spec[0], spec[1], value, depth=rest[2], annotations=rest[1], field_name=rest[0]), value
    return IonEvent(spec[0], spec[1], value, *rest), value


def same_values(x, y):
    """Whether the model values are equal; None if that is not judged."""
    nulls = [v is None or v[0] == 'null' for v in (x, y)]
    if any(nulls):
        return all(nulls)
    if same(mk(x[0], x[1]), mk(y[0], y[1])):
        return True
    if x[0] != y[0]:
        # objects of different Ion types may be equal in Python
        return None
    if x[0] == 'timestamp':
        p, q = x[1], y[1]
        if p[:7] == q[:7] and p[8] == q[8] and p[7] and q[7]:
            a, b = p[7], q[7]
            if a[0] * 10 ** b[1] == b[0] * 10 ** a[1]:
                return None
        if p[:7] == q[:7] and p[8] == q[8] and not (p[7] and p[7][0]) and not (q[7] and q[7][0]):
            return None
        return False
    if x[0] == 'decimal':
        s, c, e = x[1]
        t, f, g = y[1]
        low = min(e, g)
        if max(e, g) - low > 2000:
            return None
        if (-c if s else c) * 10 ** (e - low) == (-f if t else f) * 10 ** (g - low):
            return None
        return False
    if x[0] == 'float':
        return None if x[1] == y[1] else False
    return False


def same_specs(a, b):
    v = same_values(a[2], b[2])
    rest = a[0] is b[0] and a[1] is b[1] and a[5] == b[5] and (a[3] and a[3][1]) == (b[3] and b[3][1]) and \
        [t[1] for t in a[4]] == [t[1] for t in b[4]]
    return False if not rest else v


def pairs(d):
    """Events are equal exactly if all of their attributes are; != is the opposite; symmetric and reflexive."""
    a = gen_spec(d)
    b = a if d.chance(35) else change(d, a)
    if d.chance(10):
        b = change(d, b)
    x, vx = build(d, a)
    y, vy = build(d, b)
    d.case((a, b, type(x).__name__, type(y).__name__), '%r and %r' % (a, b))
    want = same_specs(a, b)
    if want is None:
        raise Discard
    d.label('equal' if want else 'different')
    d.nontrivial()
    about = '%s %s and %s %s' % (type(x).__name__, clip(a, 500), type(y).__name__, clip(b, 500))
    for p, q in ((x, y), (y, x)):
        if (p == q) is not want:
            raise Violation('== gives %r: %s' % (p == q, about))
        if (p != q) is not (not want):
            raise Violation('!= gives %r: %s' % (p != q, about))
    if not (x == x and y == y) or x != x:
        raise Violation('an event is not equal to itself: %s' % about)
    for other in (None, 0, tuple(x), vx, 'x'):
        if x == other or not x != other:
            raise Violation('an event is equal to %r: %s' % (other, about))


def gen_time(d, like=None):
    """(object, fields, offset, precision, digits and exponent of the fraction), mostly those of another one."""
    def pick(i, choices):
        return like[i] if like and d.chance(88) else d.choice(choices)
    fields = pick(1, ((2020, 1, 1, 0, 0, 0), (2020, 1, 1, 1, 0, 0), (2020, 1, 1, 0, 0, 1), (2020, 2, 1, 0, 0, 0), (2021, 1, 1, 0, 1, 0)))
    offset = pick(2, (None, 0, 60, -60))
    precision = d.choice(('plain', None, TimestampPrecision.SECOND, TimestampPrecision.MINUTE, TimestampPrecision.DAY,
                          TimestampPrecision.MONTH, TimestampPrecision.YEAR))
    if like and d.chance(30):
        precision = like[3]
    digits, exponent = pick(4, ((0, 0), (5, 1), (50, 2), (123456, 6), (1, 6), (123457, 6)))
    if precision in (TimestampPrecision.MINUTE, TimestampPrecision.DAY, TimestampPrecision.MONTH, TimestampPrecision.YEAR):
        digits = exponent = 0
    micro = digits * 10 ** (6 - exponent)
    tz = None if offset is None else OffsetTZInfo(timedelta(minutes=offset))
    if precision == 'plain':
        if offset is not None and d.boolean():
            tz = timezone(timedelta(minutes=offset))
        t = datetime(*(fields + (micro, tz)))
    elif d.boolean():
        t = Timestamp(*(fields + (micro, tz)), precision=precision, fractional_precision=exponent)
    elif d.boolean():
        t = Timestamp(*fields, tzinfo=tz, precision=precision, fractional_seconds=Decimal((0, tuple(int(c) for c in str(digits)), -exponent)))
    else:
        t = Timestamp(*fields, microsecond=micro, tzinfo=tz, precision=precision, fractional_precision=exponent)
    return t, fields, offset, precision, (digits, exponent)


def times(d):
    """Events of datetimes and timestamps are equal exactly if all of the parts are; a missing precision is that of seconds."""
    a = gen_time(d)
    b = gen_time(d, a)
    d.case([a[1:], b[1:], type(a[0]).__name__, type(b[0]).__name__], '%r and %r' % (a[0], b[0]))
    if a[4] != b[4] and a[4][0] * 10 ** b[4][1] == b[4][0] * 10 ** a[4][1]:
        raise Discard
    d.nontrivial(a[3] is not b[3])
    want = a[1:3] == b[1:3] and a[4] == b[4] and \
        len(set(TimestampPrecision.SECOND if p in ('plain', None) else p for p in (a[3], b[3]))) == 1
    d.label('equal' if want else 'different')
    x, y = (IonEvent(IonEventType.SCALAR, IonType.TIMESTAMP, v[0]) for v in (a, b))
    for p, q in ((x, y), (y, x)):
        if (p == q) is not want or (p != q) is want:
            raise Violation('== gives %r: %r and %r' % (p == q, p.value, q.value))


def derive(d):
    """Deriving changes one attribute of the new event and none of the old; values are computed on demand, once."""
    spec = gen_spec(d)
    calls = []
    failures = d.choice((0, 0, 0, 1, 2, 99))
    first, value = build(d, spec, calls, failures)
    lazy = isinstance(first, IonThunkEvent)
    history = [(first, [spec[0], spec[1], value, spec[3] and spec[3][0], tuple(t[0] for t in spec[4]), spec[5]], lazy)]
    steps = []
    for _ in range(1 + d.small(5)):
        e, attrs, thunk = d.choice(history)
        i = d.choice((2, 3, 4, 5, 5, 3, 4, 'look'))
        attrs = list(attrs)
        if i == 'look':
            steps.append('look')
            if thunk:
                # A value that cannot be computed is not there, however often one asks for it.
                try:
                    e.value
                except Fails:
                    continue
            if e.value is not attrs[2] and e.value != attrs[2] and attrs[2] == attrs[2]:
                raise Violation('the value is %r instead of %r after %r' % (e.value, attrs[2], steps))
            continue
        if i == 2:
            new = value_of(d, gen_scalar(d, OPTS, TYPES))
            e, thunk = e.derive_value(new), False
        elif i == 3:
            new = gen_token(d)[0] if d.boolean() else None
            e = e.derive_field_name(new)
        elif i == 4:
            new = tuple(gen_token(d)[0] for _ in range(d.small(3)))
            e = e.derive_annotations(new)
        else:
            new = d.choice((None, 0, 1, 2))
            e = e.derive_depth(new)
        attrs[i] = new
        steps.append((NAMES[i], new))
        history.append((e, attrs, thunk))
    d.case((spec, steps), '%r then %r' % (spec, steps))
    d.nontrivial(len(steps) > 1)
    about = '%s then %s' % (clip(spec), clip(steps))
    if lazy and calls and 'look' not in steps:
        raise Violation('deriving computed the value: %s' % about)
    for e, attrs, thunk in history:
        for name, want in zip(NAMES, attrs):
            try:
                got = getattr(e, name)
            except Fails:
                if thunk and name == 'value':
                    continue
                raise
            if got is not want and not (got == want and type(got) is type(want)):
                raise Violation('%s is %r instead of %r: %s' % (name, got, want, about))
    if len(calls) > failures + 1:
        raise Violation('the value was computed %d times: %s' % (len(calls), about))


def tokens(d):
    """Symbol tokens and import locations: equal exactly if all parts are, also as keys."""
    made = []
    for _ in range(2 + d.small(6)):
        text, sid = d.choice(('a', 'b', '', None)), d.choice((None, 0, 1, 10))
        where = d.choice((None, None, ('t', 1), ('t', 2), ('u', 1)))
        if text is None and sid is None:
            for args in ((None, None), (None, None, where and ImportLocation(*where))):
                if attempt(SymbolToken, *args)[0] == 'ok':
                    raise Violation('a token without text and ID was made')
            continue
        location = where and ImportLocation(name=where[0], position=where[1])
        t = d.choice((lambda: SymbolToken(text, sid, location), lambda: SymbolToken(text=text, sid=sid, location=location)))()
        if d.chance(20):
            t = d.choice((copy.copy, copy.deepcopy, lambda t: pickle.loads(pickle.dumps(t, d.draw(4)))))(t)
        made.append((t, (text, sid, where)))
    d.case([k for _, k in made], repr([k for _, k in made]))
    d.nontrivial(len(made) > 1)
    for t, k in made:
        if (t.text, t.sid, t.location and (t.location.name, t.location.position)) != k:
            raise Violation('%r was made from %r' % (t, k))
    for t, k in made:
        for u, l in made:
            if (t == u) is not (k == l) or (t != u) is not (k != l) or k == l and hash(t) != hash(u):
                raise Violation('%r == %r: %r' % (t, u, t == u))
    if len(set(t for t, _ in made)) != len(set(k for _, k in made)):
        raise Violation('as a set: %r' % (made,))


def classes(d):
    """Enumerations and records of generated members behave as documented."""
    names = ['M%d' % i for i in range(1 + d.small(6))]
    values = []
    for _ in names:
        v = d.choice((0, 1, 2, 3, -1, 100, 1 << 70))
        while v in values:
            v += 1
        values.append(v)
    attrs = dict(zip(names, values))
    attrs['double'] = property(lambda self: self * 2)
    attrs['method'] = lambda self: self.name
    E = must('Enum', type(Enum), 'E', (Enum,), attrs)
    fields = ['f%d' % i for i in range(1 + d.small(4))]
    n = d.draw(len(fields))
    defaults = [d.choice((None, 0, 'x', ())) for _ in fields[n:]]
    base = record(*(fields[:n] + list(zip(fields[n:], defaults))))
    R = type(base)('R', (base,), {})
    args = [d.draw(9) for _ in fields]
    given = d.integer(n, len(fields))
    d.case((names, values, fields, n, defaults, args, given), '%r=%r record(%r, %r)' % (names, values, fields[:n], list(zip(fields[n:], defaults))))
    d.nontrivial(len(names) > 1)
    if sorted(int(m) for m in E) != sorted(values):
        raise Violation('members %r instead of %r' % (list(E), values))
    for name, v in zip(names, values):
        m = getattr(E, name)
        if E[v] is not m or m.name != name or m.value != v or m != v or not isinstance(m, E) or m.double != 2 * v or m.method() != name or \
                hash(m) != hash(v) or copy.deepcopy([m])[0] is not m:
            raise Violation('%r (%s, %d)' % (m, name, v))
    r = R(*args[:given])
    s = R(**dict(zip(fields[:given], args)))
    want = args[:given] + (defaults[given - n:] if given >= n else [])
    for x in (r, s):
        if tuple(x) != tuple(want) or [getattr(x, f) for f in fields] != want or x != r or hash(x) != hash(tuple(want)):
            raise Violation('%r instead of %r from %r' % (x, want, args[:given]))
        if attempt(setattr, x, fields[0], 1)[0] == 'ok':
            raise Violation('%r can be changed' % (x,))
    if n and attempt(R, *args[:n - 1])[0] == 'ok':
        raise Violation('%r without all of its fields' % (fields,))
    if n < len(fields) and attempt(record, *([(fields[0], 1)] + ['y']))[0] == 'ok' and \
            attempt(type(base), 'Q', (record((fields[0], 1), 'y'),), {})[0] == 'ok':
        raise Violation('a field without a default after one with a default')


UNITS = [
    Unit('pairs', pairs, 20000, 800000, 'all that are judged'),
    Unit('times', times, 6000, 200000, 'different precisions'),
    Unit('derive', derive, 10000, 300000, 'more than one step'),
    Unit('tokens', tokens, 6000, 200000, 'more than one token'),
    Unit('classes', classes, 3000, 60000, 'more than one member'),
]
