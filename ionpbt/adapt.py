"""Conversions between the model and the values and events of amazon.ion (public names only)."""
import io
from datetime import datetime, timedelta
from decimal import Decimal

from amazon.ion import simpleion
from amazon.ion.core import (IonEvent, IonEventType, IonType, Multimap, OffsetTZInfo, Timestamp, TimestampPrecision,
                             ION_STREAM_END_EVENT, ION_VERSION_MARKER_EVENT)
from amazon.ion.exceptions import IonException
from amazon.ion.reader import NEXT_EVENT, SKIP_EVENT, read_data_event, blocking_reader
from amazon.ion.reader_binary import binary_reader
from amazon.ion.reader_managed import managed_reader
from amazon.ion.reader_text import text_reader
from amazon.ion.simple_types import (IonPyBool, IonPyBytes, IonPyDecimal, IonPyDict, IonPyFloat, IonPyInt, IonPyList,
                                     IonPyNull, IonPySymbol, IonPyText, IonPyTimestamp, is_null)
from amazon.ion.symbols import SymbolToken, ImportLocation, SymbolTableCatalog, shared_symbol_table
from amazon.ion.writer import blocking_writer, WriteEventType
from amazon.ion.writer_binary import binary_writer
from amazon.ion.writer_text import text_writer

from .engine import Violation, HarnessError
from .model import mk, show
from .zones import gen_zone

ION_TYPE = {
    'null': IonType.NULL, 'bool': IonType.BOOL, 'int': IonType.INT, 'float': IonType.FLOAT,
    'decimal': IonType.DECIMAL, 'timestamp': IonType.TIMESTAMP, 'symbol': IonType.SYMBOL, 'string': IonType.STRING,
    'clob': IonType.CLOB, 'blob': IonType.BLOB, 'list': IonType.LIST, 'sexp': IonType.SEXP, 'struct': IonType.STRUCT}
TYPE_NAME = dict((v, k) for k, v in ION_TYPE.items())
PRECISION = {'Y': TimestampPrecision.YEAR, 'M': TimestampPrecision.MONTH, 'D': TimestampPrecision.DAY,
             'm': TimestampPrecision.MINUTE, 's': TimestampPrecision.SECOND}
PRECISION_NAME = dict((v, k) for k, v in PRECISION.items())


# -- model to amazon.ion ------------------------------------------------------------------------------------------------

def py_symbol(s, plain=False, d=None):
    """``d`` decides whether the token carries a symbol ID of some other context, which means nothing to a writer."""
    if s is None:
        return SymbolToken(None, 0)
    if isinstance(s, tuple):
        raise HarnessError('cannot write an unresolved import')
    if plain:
        return s
    if d is not None and d.chance(25):
        sid = d.choice((1, 4, 9, 10, 11, 12, 100))
        return SymbolToken(s, sid, ImportLocation('other', 1) if d.chance(20) else None)
    return SymbolToken(s, None)


def any_symbol(s, d):
    return py_symbol(s, d is not None and d.boolean(), d)


def py_decimal(p):
    sign, coef, exp = p
    return Decimal((sign, tuple(int(c) for c in dec_digits(coef)), exp))


def dec_digits(n):
    """Decimal digits of a non-negative integer of any size."""
    return str(n)


def py_zone(p, d=None):
    """The tzinfo, and the fold, of the timestamp ``p``; ``d`` sometimes takes other classes than those of the library."""
    off = p[8]
    if d is not None and d.chance(25):
        return gen_zone(d, off, p[2] or 1, p[1])[1:]
    return None if off is None else OffsetTZInfo(timedelta(minutes=off)), 0


def py_timestamp(p, cls=Timestamp, d=None):
    prec, y, mo, day, h, mi, s, frac, off = p
    tz, fold = py_zone(p, d)
    kw = {'precision': PRECISION[prec]}
    if fold:
        kw['fold'] = fold
    if frac is not None:
        kw['fractional_seconds'] = Decimal((0, tuple(int(c) for c in str(frac[0])), -frac[1]))
    return cls(y, mo or 1, day or 1, h or 0, mi or 0, s or 0, None, tz, **kw)


def py_scalar(t, p, d=None):
    """The payload of a scalar as a plain Python value."""
    if t == 'null':
        return None
    if t in ('bool', 'int', 'float', 'string', 'blob', 'clob'):
        return p
    if t == 'decimal':
        return py_decimal(p)
    if t == 'timestamp':
        return py_timestamp(p, d=d)
    if t == 'symbol':
        return py_symbol(p, False, d)
    raise HarnessError(t)


_IONPY = {'bool': IonPyBool, 'int': IonPyInt, 'float': IonPyFloat, 'decimal': IonPyDecimal,
          'timestamp': IonPyTimestamp, 'symbol': IonPySymbol, 'string': IonPyText, 'clob': IonPyBytes,
          'blob': IonPyBytes}


def can_be_plain(v):
    t, p, a = v
    if a or t in ('clob', 'sexp'):
        return False
    if t == 'null':
        return p == 'null'
    if t == 'struct':
        names = [n for n, _ in p]
        return len(set(names)) == len(names) and None not in names
    return True


def to_py(v, d=None, plain_percent=40):
    """Builds the Python value for ``v``; ``d`` decides between plain Python types and the IonPy* classes."""
    t, p, a = v
    ion_type = ION_TYPE[t]
    plain = d is not None and can_be_plain(v) and d.chance(plain_percent)
    anns = tuple(any_symbol(s, d) for s in a)
    if t == 'null':
        if plain:
            return None
        return IonPyNull.from_value(ION_TYPE[p], IonPyNull(), anns)
    if t in ('list', 'sexp'):
        items = [to_py(x, d, plain_percent) for x in p]
        if plain:
            return tuple(items) if d.boolean() else items
        return IonPyList.from_value(ion_type, items, anns)
    if t == 'struct':
        # a plain value in a field of unknown name is outside of what dump() documents
        items = [(n, to_py(x, d, plain_percent if n is not None else 0)) for n, x in p]
        if plain:
            return dict(items)
        out = IonPyDict.from_value(ion_type, {}, anns)
        for n, x in items:
            out.add_item(n, x)
        return out
    if t == 'timestamp' and plain and p[0] == 's' and p[7] is not None and p[7][1] == 6 and d.boolean():
        tz, fold = py_zone(p, d)
        return datetime(p[1], p[2], p[3], p[4], p[5], p[6], p[7][0], tz, fold=fold)
    value = py_scalar(t, p, d)
    if plain:
        return value
    return _IONPY[t].from_value(ion_type, value, anns)


# -- amazon.ion to model ------------------------------------------------------------------------------------------------

def model_symbol(tok, imports=False):
    if isinstance(tok, str):
        return tok
    if not isinstance(tok, SymbolToken):
        raise Violation('%r is not a symbol' % (tok,))
    if tok.text is not None:
        if not isinstance(tok.text, str):
            raise Violation('text of symbol %r is not text' % (tok,))
        return tok.text
    loc = tok.location
    if loc is not None and imports:
        return ('import', loc.name, loc.position)
    return None


def model_decimal(v):
    sign, digits, exp = Decimal.as_tuple(v)
    if not isinstance(exp, int):
        raise Violation('%r is not a finite decimal' % (v,))
    n = 0
    if digits:
        n = int(''.join(map(str, digits)))
    return sign, n, exp


def model_timestamp(v, strict=True):
    prec = getattr(v, 'precision', None)
    if prec is None:
        prec = TimestampPrecision.SECOND
    name = PRECISION_NAME.get(prec)
    if name is None:
        raise Violation('precision of %r is %r' % (v, prec))
    off = v.utcoffset()
    if off is not None:
        secs = off.days * 86400 + off.seconds
        if secs % 60 or off.microseconds:
            raise Violation('offset of %r is not a whole minute' % (v,))
        off = secs // 60
    frac = None
    if isinstance(v, Timestamp):
        fs = v.fractional_seconds
        if not isinstance(fs, Decimal):
            raise Violation('fractional_seconds of %r is %r' % (v, fs))
        sign, coef, exp = model_decimal(fs)
        if exp < 0:
            frac = (coef, -exp)
        elif coef:
            raise Violation('fractional_seconds of %r is %r' % (v, fs))
        if sign and coef:
            raise Violation('negative fractional_seconds in %r: %r' % (v, fs))
        if strict:
            digits = 0 if frac is None else frac[1]
            if v.fractional_precision != min(digits, 6):
                raise Violation('%r: fractional_precision %r but fractional_seconds %r' % (v, v.fractional_precision, fs))
            if frac is None or frac[1] > 20000 and frac[0].bit_length() < frac[1]:
                micro = 0
            else:
                micro = frac[0] * 10 ** 6 // 10 ** frac[1]
            if v.microsecond != micro:
                raise Violation('%r: microsecond %r but fractional_seconds %r' % (v, v.microsecond, fs))
    else:
        frac = (v.microsecond, 6)
    y, mo, d, h, mi, s = v.year, v.month, v.day, v.hour, v.minute, v.second
    if name == 'Y':
        rest, fields = (mo, d, h, mi, s), (None,) * 5
    elif name == 'M':
        rest, fields = (1, d, h, mi, s), (mo, None, None, None, None)
    elif name == 'D':
        rest, fields = (1, 1, h, mi, s), (mo, d, None, None, None)
    elif name == 'm':
        rest, fields = (1, 1, 0, 0, s), (mo, d, h, mi, None)
    else:
        rest, fields = (1, 1, 0, 0, 0), (mo, d, h, mi, s)
    if rest != (1, 1, 0, 0, 0) or (name != 's' and frac is not None):
        raise Violation('%r has fields beyond its precision %s (fraction %r)' % (v, name, frac))
    if name in 'YMD':
        if off is not None:
            raise Violation('%r has an offset but no time of day' % (v,))
    return (name, y) + fields + (frac, off)


def model_scalar(ion_type, value, imports=False):
    """(type, payload) of a non-null scalar."""
    t = TYPE_NAME.get(ion_type)
    if t is None:
        raise Violation('unknown Ion type %r of %r' % (ion_type, value))
    if t == 'bool':
        if not isinstance(value, int) or value not in (0, 1):
            raise Violation('%r is not a bool' % (value,))
        return t, bool(value)
    if t == 'int':
        if not isinstance(value, int):
            raise Violation('%r is not an int' % (value,))
        return t, int(value)
    if t == 'float':
        if not isinstance(value, float):
            raise Violation('%r is not a float' % (value,))
        return t, float(value)
    if t == 'decimal':
        if not isinstance(value, Decimal):
            raise Violation('%r is not a Decimal' % (value,))
        return t, model_decimal(value)
    if t == 'timestamp':
        if not isinstance(value, datetime):
            raise Violation('%r is not a datetime' % (value,))
        return t, model_timestamp(value)
    if t == 'symbol':
        return t, model_symbol(value, imports)
    if t == 'string':
        if not isinstance(value, str):
            raise Violation('%r is not text' % (value,))
        return t, str.__str__(value)
    if t in ('clob', 'blob'):
        if not isinstance(value, bytes):
            raise Violation('%r is not bytes' % (value,))
        return t, bytes(value)
    raise Violation('%s is not a scalar type: %r' % (t, value))


def from_py(obj, imports=False):
    """The model of a value returned by load()."""
    try:
        ion_type = obj.ion_type
        anns = obj.ion_annotations
    except AttributeError:
        raise Violation('loaded value %r (%s) has no Ion type' % (obj, type(obj).__name__))
    a = tuple(model_symbol(s, imports) for s in anns)
    if isinstance(obj, IonPyNull):
        if ion_type not in TYPE_NAME:
            raise Violation('null of type %r' % (ion_type,))
        return mk('null', TYPE_NAME[ion_type], a)
    t = TYPE_NAME.get(ion_type)
    if t in ('list', 'sexp'):
        if not isinstance(obj, list):
            raise Violation('%s is a %s' % (t, type(obj).__name__))
        return mk(t, tuple(from_py(x, imports) for x in obj), a)
    if t == 'struct':
        if not isinstance(obj, Multimap):
            raise Violation('struct is a %s' % (type(obj).__name__,))
        items = []
        for k, x in obj.items():
            if k is not None and not isinstance(k, str):
                raise Violation('field name %r' % (k,))
            items.append((k, from_py(x, imports)))
        return mk(t, tuple(items), a)
    t, p = model_scalar(ion_type, obj, imports)
    return mk(t, p, a)


def from_py_stream(objs, imports=False):
    if not isinstance(objs, list):
        raise Violation('load(single_value=False) returned %r' % (objs,))
    return [from_py(x, imports) for x in objs]


# -- events ---------------------------------------------------------------------------------------------------------------

def to_events(v, field=None, in_struct=False, d=None, depth=None):
    """The writer events of one value."""
    t, p, a = v
    anns = tuple(any_symbol(s, d) for s in a)
    name = any_symbol(field, d) if in_struct else None
    ion_type = ION_TYPE[t]
    if t == 'null':
        yield IonEvent(IonEventType.SCALAR, ION_TYPE[p], None, field_name=name, annotations=anns, depth=depth)
        return
    sub = None if depth is None else depth + 1
    if t in ('list', 'sexp', 'struct'):
        yield IonEvent(IonEventType.CONTAINER_START, ion_type, field_name=name, annotations=anns, depth=depth)
        for x in p:
            if t == 'struct':
                for e in to_events(x[1], x[0], True, d, sub):
                    yield e
            else:
                for e in to_events(x, None, False, d, sub):
                    yield e
        yield IonEvent(IonEventType.CONTAINER_END, ion_type, depth=depth)
        return
    yield IonEvent(IonEventType.SCALAR, ion_type, py_scalar(t, p, d), field_name=name, annotations=anns, depth=depth)


def lazily(event, name):
    """An attribute of an event, which may be computed only now. What was refused once is not given on another request."""
    try:
        return getattr(event, name)
    except Exception:
        try:
            got = getattr(event, name)
        except Exception:
            got = event
        if got is not event:
            raise Violation('the %s of a %s %s event was refused, but is %r when asked for again' % (
                name, event.event_type, event.ion_type, got))
        raise


class EventTree(object):
    """Builds model values out of reader events and checks that the event history itself is coherent."""

    def __init__(self, imports=True):
        self.imports = imports
        self.stack = []
        self.top = []
        self.trace = []

    def depth(self):
        return len(self.stack)

    def add(self, event):
        et = event.event_type
        if et is IonEventType.SCALAR or et is IonEventType.CONTAINER_START:
            if event.depth != len(self.stack):
                raise Violation('event %r has depth %r inside of %d containers' % (event, event.depth, len(self.stack)))
            in_struct = bool(self.stack) and self.stack[-1][0] == 'struct'
            name = lazily(event, 'field_name')
            if in_struct:
                if name is None:
                    raise Violation('no field name in a struct: %r' % (event,))
                name = model_symbol(name, self.imports)
            elif name is not None:
                raise Violation('field name outside of a struct: %r' % (event,))
            anns = tuple(model_symbol(s, self.imports) for s in lazily(event, 'annotations'))
            t = TYPE_NAME.get(event.ion_type)
            if et is IonEventType.CONTAINER_START:
                if t not in ('list', 'sexp', 'struct'):
                    raise Violation('container of type %r' % (event.ion_type,))
                self.stack.append((t, [], anns, name))
                return
            value = lazily(event, 'value')
            if value is None or t == 'null':
                if value is not None or t is None:
                    raise Violation('null event %r' % (event,))
                v = mk('null', t, anns)
            else:
                t, p = model_scalar(event.ion_type, value, self.imports)
                v = mk(t, p, anns)
            self._put(name, v)
        elif et is IonEventType.CONTAINER_END:
            if not self.stack:
                raise Violation('CONTAINER_END at the top level')
            t, items, anns, name = self.stack.pop()
            if event.depth != len(self.stack):
                raise Violation('CONTAINER_END has depth %r instead of %d' % (event.depth, len(self.stack)))
            if event.ion_type is not None and TYPE_NAME.get(event.ion_type) != t:
                raise Violation('CONTAINER_END of type %r closes a %s' % (event.ion_type, t))
            self._put(name, mk(t, tuple(items), anns))
        else:
            raise Violation('unexpected event %r' % (event,))

    def _put(self, name, v):
        if not self.stack:
            self.top.append(v)
        elif self.stack[-1][0] == 'struct':
            self.stack[-1][1].append((name, v))
        else:
            self.stack[-1][1].append(v)


# -- observations ---------------------------------------------------------------------------------------------------------

def attempt(fn, *args, **kw):
    """('ok', result) or ('error', exception) for a call of the code under test."""
    try:
        return 'ok', fn(*args, **kw)
    except (RecursionError, MemoryError):
        raise
    except Exception as e:
        return 'error', e


def must(what, fn, *args, **kw):
    try:
        return fn(*args, **kw)
    except Violation:
        raise
    except Exception as e:
        import traceback
        tb = traceback.format_exc()
        raise Violation('%s raised %s: %s\n%s' % (what, type(e).__name__, e, tb[-1500:]))


def loads_stream(data, catalog=None):
    return from_py_stream(simpleion.loads(data, catalog=catalog, single_value=False))


def dumps_stream(values, d=None, **kw):
    """dumps() of a whole stream of model values."""
    return simpleion.dumps([to_py(v, d) for v in values], sequence_as_stream=True, **kw)


def write_events(events, writer):
    """Drives a (blocking or not) writer coroutine; returns the octets it produced."""
    out = bytearray()
    for e in events:
        r = writer.send(e)
        out.extend(r.data or b"")
        while r.type is WriteEventType.HAS_PENDING:
            r = writer.send(None)
            out.extend(r.data or b"")
    return bytes(out)
