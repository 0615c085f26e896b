"""C20: native Python types and Ion types correspond as the tables of dump() and load() say."""
import enum
from collections import OrderedDict, defaultdict

from .. import refbin, reftext
from ..common import *
from ..engine import Unit

ASSUMPTIONS = ['namedtuples are not judged (documentation and code disagree)', 'sub-classes keep the meaning of the methods of their bases, apart '
               'from __str__, __repr__ and __format__']


class Loud(object):
    def __str__(self):
        return '<loud>'

    __repr__ = __str__

    def __format__(self, spec):
        return '<loud>'


class SubInt(int):
    pass


class LoudInt(Loud, int):
    pass


class LoudFloat(Loud, float):
    pass


class SubFloat(float):
    pass


class SubDecimal(Decimal):
    pass


class LoudDecimal(Loud, Decimal):
    pass


class SubStr(str):
    pass


class LoudStr(Loud, str):
    pass


class SubBytes(bytes):
    pass


class LoudBytes(Loud, bytes):
    pass


class SubList(list):
    pass


class LoudList(Loud, list):
    pass


class SubTuple(tuple):
    pass


class SubDict(dict):
    pass


class LoudDict(Loud, OrderedDict):
    pass


class SubSymbol(SymbolToken):
    pass


class SubDatetime(datetime):
    pass


class LoudDatetime(Loud, datetime):
    pass


class SubTimestamp(Timestamp):
    pass


class Deep(SubInt):
    pass


class Both(Loud, SubStr):
    pass


class Number(enum.IntEnum):
    ZERO = 0
    ONE = 1
    MANY = 300
    NEGATIVE = -5


class Words(str, enum.Enum):
    A = 'a'
    B = 'b c'


def native(d, v):
    """(object, label): a Python object without Ion type, or with one, that the tables map to v."""
    t, p, a = v
    ionpy = bool(a) or d.chance(30)
    if t == 'null':
        if p == 'null' and not ionpy:
            return None, 'None'
        if d.boolean():
            # an absent value of any type
            return d.choice((IonPyInt, IonPyList, IonPyText, IonPyNull, IonPyTimestamp)).from_value(ION_TYPE[p], None, a), 'from_value(None)'
        return IonPyNull.from_value(ION_TYPE[p], IonPyNull(), a), 'IonPyNull'
    if t == 'bool':
        if not ionpy:
            return p, 'bool'
        x = d.choice((p, int(p)))
        return d.choice((IonPyBool, IonPyInt)).from_value(IonType.BOOL, x, a), 'IonPyInt(BOOL)'
    if t == 'int':
        if ionpy:
            return IonPyInt.from_value(IonType.INT, d.choice((int, SubInt, LoudInt))(p), a), 'IonPyInt(INT)'
        if p in (0, 1, 300, -5) and d.boolean():
            return Number(p), 'IntEnum'
        cls = d.choice((int, SubInt, LoudInt, Deep))
        return cls(p), cls.__name__
    if t == 'float':
        if ionpy:
            return IonPyFloat.from_value(IonType.FLOAT, p, a), 'IonPyFloat'
        cls = d.choice((float, SubFloat, LoudFloat))
        return cls(p), cls.__name__
    if t == 'decimal':
        x = py_decimal(p)
        if ionpy:
            return IonPyDecimal.from_value(IonType.DECIMAL, x, a), 'IonPyDecimal'
        cls = d.choice((Decimal, SubDecimal, LoudDecimal))
        return cls(x), cls.__name__
    if t == 'timestamp':
        if ionpy:
            return IonPyTimestamp.from_value(IonType.TIMESTAMP, py_timestamp(p), a), 'IonPyTimestamp'
        if p[0] == 's' and p[7] is not None and p[7][1] == 6:
            cls = d.choice((datetime, SubDatetime, LoudDatetime))
            return cls(p[1], p[2], p[3], p[4], p[5], p[6], p[7][0], None if p[8] is None else OffsetTZInfo(timedelta(minutes=p[8]))), cls.__name__
        cls = d.choice((Timestamp, SubTimestamp))
        return py_timestamp(p, cls), cls.__name__
    if t == 'symbol':
        if ionpy:
            if p is not None and d.boolean():
                return IonPyText.from_value(IonType.SYMBOL, p, a), 'IonPyText(SYMBOL)'
            return IonPySymbol.from_value(IonType.SYMBOL, p if p is not None and d.boolean() else py_symbol(p), a), 'IonPySymbol'
        cls = d.choice((SymbolToken, SubSymbol))
        return cls(p, None if p is not None else 0), cls.__name__
    if t == 'string':
        if ionpy:
            return IonPyText.from_value(IonType.STRING, d.choice((str, SubStr))(p), a), 'IonPyText(STRING)'
        if p in ('a', 'b c') and d.boolean():
            return Words(p), 'str Enum'
        cls = d.choice((str, SubStr, LoudStr, Both))
        return cls(p), cls.__name__
    if t == 'clob' or t == 'blob':
        if ionpy or t == 'clob':
            return IonPyBytes.from_value(ION_TYPE[t], p, a), 'IonPyBytes(%s)' % t.upper()
        cls = d.choice((bytes, SubBytes, LoudBytes))
        return cls(p), cls.__name__
    raise HarnessError(t)


UNTYPED = {'int': IonPyInt, 'float': IonPyFloat, 'string': IonPyText, 'blob': IonPyBytes}


def untyped(d, v, as_sexp, labels):
    """An instance of an Ion class which was not given an Ion type, as its constructor or arithmetic leave it."""
    t, p, a = v
    if t == 'null':
        if p != 'null':
            return None
        out = IonPyNull()
    elif t in UNTYPED:
        out = UNTYPED[t](p)
    elif t == 'decimal':
        out = IonPyDecimal(py_decimal(p))
    elif t == 'symbol':
        out = IonPySymbol(p, None if p is not None else 0)
    elif t == 'timestamp':
        out = py_timestamp(p, IonPyTimestamp)
    elif t == 'list':
        out = IonPyList([build(d, x, as_sexp, labels) for x in p])
    elif t == 'struct':
        out = d.choice((IonPyDict, Multimap))()
        for n, x in p:
            out.add_item(n, build(d, x, as_sexp, labels))
        if type(out) is Multimap and a:
            return None
    else:
        return None
    if a:
        out.ion_annotations = d.choice((tuple, list))(any_symbol(s, d) for s in a)
    labels.append('untyped ' + type(out).__name__)
    return out


def build(d, v, as_sexp, labels):
    t, p, a = v
    if d.chance(8):
        out = untyped(d, v, as_sexp, labels)
        if out is not None:
            return out
    if t in ('list', 'sexp'):
        items = [build(d, x, as_sexp, labels) for x in p]
        options = []
        if not a:
            if t == 'list':
                options += [list, SubList, LoudList]
            if as_sexp == (t == 'sexp'):
                options += [tuple, SubTuple]
        if options and d.chance(70):
            cls = d.choice(options)
            labels.append(cls.__name__)
            return cls(items)
        labels.append('IonPyList(%s)' % t.upper())
        return IonPyList.from_value(ION_TYPE[t], d.choice((list, tuple))(items), a)
    if t == 'struct':
        items = [(n, build(d, x, as_sexp, labels)) for n, x in p]
        names = [n for n, _ in items]
        if not a and len(set(names)) == len(names) and d.chance(70):
            cls = d.choice((dict, OrderedDict, SubDict, LoudDict, 'default'))
            if cls == 'default':
                out = defaultdict(int)
                out.update(items)
                labels.append('defaultdict')
                return out
            labels.append(cls.__name__)
            return cls([(SubStr(n) if n is not None and d.chance(10) else n, x) for n, x in items])
        labels.append('IonPyDict')
        if len(set(names)) == len(names) and d.boolean():
            return IonPyDict.from_value(IonType.STRUCT, dict(items), a)
        out = IonPyDict.from_value(IonType.STRUCT, {}, a)
        for n, x in items:
            out.add_item(n, x)
        return out
    obj, label = native(d, v)
    labels.append(label)
    return obj


def unnamed(d, v):
    """v with some field names replaced by that of unknown text."""
    t, p, a = v
    if t in ('list', 'sexp'):
        return mk(t, [unnamed(d, x) for x in p], a)
    if t == 'struct':
        return mk(t, [(None if d.chance(25) else n, unnamed(d, x)) for n, x in p], a)
    return v


def writing(d):
    v = gen_top(d, Opts(max_depth=3, breadth=4, big=False, wide=False, unknown=False))
    if d.chance(20):
        v = unnamed(d, v)
    as_sexp = d.boolean()
    stream = v[0] in ('list', 'sexp') and not v[2] and d.boolean()
    labels = []
    # everything the writers see is known text, so that no other rule is involved
    obj = build(d, v, as_sexp, labels)
    binary = d.boolean()
    kw = {'binary': binary}
    if as_sexp or d.boolean():
        kw['tuple_as_sexp'] = as_sexp
    if stream or d.chance(20):
        kw['sequence_as_stream'] = stream
    d.case((v, labels, kw), '%s from %s with %r' % (show(v), ', '.join(labels), kw))
    for x in set(labels):
        d.label(x)
    d.nontrivial(len(set(labels)) > 1)
    if stream and isinstance(obj, (list, tuple)) and any(is_system_value(x) for x in v[1]):
        raise Discard
    if d.boolean():
        data = must('dumps', simpleion.dumps, obj, **kw)
    else:
        fp = io.BytesIO()
        must('dump', simpleion.dump, obj, fp, **kw)
        data = fp.getvalue() if binary else fp.getvalue().decode('utf-8')
    if not isinstance(data, bytes if binary else str):
        raise Violation('dumps returned %s' % type(data).__name__)
    try:
        got = refbin.decode(data) if binary else reftext.parse(data)
    except Exception as e:
        raise Violation('output is not valid: %s: %s' % (e, clip(data)))
    want = list(v[1]) if stream else [v]
    expect(want, got, 'from %s with %r: %s' % (', '.join(labels), kw, clip(data)))


CLASS = {'bool': IonPyBool, 'int': IonPyInt, 'float': IonPyFloat, 'decimal': IonPyDecimal, 'timestamp': IonPyTimestamp, 'symbol': IonPySymbol,
         'string': IonPyText, 'clob': IonPyBytes, 'blob': IonPyBytes, 'list': IonPyList, 'sexp': IonPyList, 'struct': IonPyDict, 'null': IonPyNull}


def check_loaded(v, obj, about):
    """Class, Ion type and annotations of a loaded value; it behaves like the native type."""
    t, p, a = v
    if type(obj) is not CLASS[t]:
        raise Violation('a %s was loaded as %s %s' % (t, type(obj).__name__, about))
    if obj.ion_type is not (ION_TYPE[p] if t == 'null' else ION_TYPE[t]):
        raise Violation('the Ion type of %s is %r %s' % (show(v), obj.ion_type, about))
    if not isinstance(obj.ion_annotations, tuple) or [x.text for x in obj.ion_annotations] != list(a) or \
            not all(isinstance(x, SymbolToken) for x in obj.ion_annotations):
        raise Violation('the annotations of %s are %r %s' % (show(v), obj.ion_annotations, about))

    def same_as(native):
        if not obj == native or obj != native or not native == obj or hash(obj) != hash(native):
            raise Violation('%r is not equal to %r %s' % (obj, native, about))
    if t == 'null':
        if obj or not is_null(obj):
            raise Violation('a null is not null %s' % about)
        return
    if is_null(obj):
        raise Violation('%r is_null %s' % (obj, about))
    if t in ('bool', 'int', 'string', 'clob', 'blob'):
        same_as(p)
        if t == 'int' and (obj + 1, -obj, int(obj)) != (p + 1, -p, p):
            raise Violation('arithmetic on %r %s' % (obj, about))
        if t == 'string' and (obj + 'x', len(obj), obj.encode('utf-8', 'replace')) != (p + 'x', len(p), p.encode('utf-8', 'replace')):
            raise Violation('text %r %s' % (obj, about))
        if bool(obj) != bool(p):
            raise Violation('truth of %r %s' % (obj, about))
    elif t == 'float' and p == p:
        same_as(p)
    elif t == 'decimal':
        if Decimal(obj).as_tuple() != py_decimal(p).as_tuple():
            raise Violation('decimal %r %s' % (obj, about))
    elif t == 'timestamp':
        same_as(py_timestamp(p)) if p[0] in 'YMDms' else None
        if (obj.year, obj.month, obj.day, obj.hour, obj.minute, obj.second) != (p[1], p[2] or 1, p[3] or 1, p[4] or 0, p[5] or 0, p[6] or 0):
            raise Violation('fields of %r %s' % (obj, about))
    elif t == 'symbol':
        if obj.text != p:
            raise Violation('text of %r %s' % (obj, about))
    elif t in ('list', 'sexp'):
        if len(obj) != len(p):
            raise Violation('length of %r %s' % (obj, about))
        for x, y in zip(p, obj):
            check_loaded(x, y, about)
        if list(reversed(obj)) != list(obj)[::-1]:
            raise Violation('order of %r %s' % (obj, about))
    elif t == 'struct':
        seen = {}
        for n, x in p:
            i = seen.get(n, 0)
            seen[n] = i + 1
            if n not in obj:
                raise Violation('no field %r %s' % (n, about))
            check_loaded(x, obj.get_all_values(n)[i], about)


def symbols_in(obj):
    if isinstance(obj, IonPySymbol):
        yield obj
    elif isinstance(obj, (IonPyList, IonPyDict)):
        for x in obj if isinstance(obj, IonPyList) else [x for _, x in obj.items()]:
            for t in symbols_in(x):
                yield t


def reading(d):
    v = gen_top(d, Opts(max_depth=3, breadth=4, big=False, wide=False))
    form = d.choice(('binary', 'str', 'octets'))
    if form == 'binary':
        data = refbin.Encoder(d).stream([v], symbols_of)
        v = refbin.decode(data)[0]
    else:
        data = reftext.Renderer(d).stream([v], symbols_of)
        v = reftext.parse(data)[0]
        if form == 'octets':
            data = data.encode('utf-8')
    how = d.choice(('loads', 'load', 'stream'))
    d.case((data, how), '%s of %s' % (how, clip(data)))
    note_value(d, [v])
    if how == 'load':
        fp = io.StringIO(data) if isinstance(data, str) else io.BytesIO(data)
        obj = must('load', simpleion.load, fp)
    elif how == 'loads':
        obj = must('loads', simpleion.loads, data)
    else:
        objs = must('loads', simpleion.loads, data, single_value=False)
        if type(objs) is not list or len(objs) != 1:
            raise Violation('single_value=False returned %r' % (objs,))
        obj = objs[0]
    check_loaded(v, obj, 'loaded from %s' % clip(data))
    # symbols are the tokens that the reader delivers
    raw = binary_reader() if form == 'binary' else text_reader(is_unicode=form == 'str')
    drv = Driver(managed_reader(raw), [data])
    tokens = []
    e = drv.next()
    while e is not None:
        if e.event_type is IonEventType.SCALAR and e.ion_type is IonType.SYMBOL and e.value is not None:
            tokens.append(e.value)
        e = drv.next()
    key = lambda t: repr((t.text, t.sid, t.location))
    if sorted(map(key, symbols_in(obj))) != sorted(map(key, tokens)):
        raise Violation('the symbols %r became %r loaded from %s' % (tokens, list(symbols_in(obj)), clip(data)))


UNITS = [
    Unit('writing', writing, 11000, 400000, 'objects of more than one kind'),
    Unit('reading', reading, 7000, 250000, 'more than one plain scalar'),
]
