"""Helpers shared by the checks: classification of cases, chunking, driving readers and writers."""
import io
import re

from .adapt import *
from .engine import Violation, Discard, HarnessError
from .gen import Opts, gen_stream, gen_top, gen_scalar, gen_value, gen_symbol_text, is_system_value
from .model import (mk, walk, depth_of, difference, difference_stream, show, show_stream, symbols_of, canon,
                    canon_stream, same)
from .refsym import SharedTable, Catalog

INDENTS = (None, '', ' ', '  ', '\t', '\n', '\r\n ', '    ', '\x0b', ' \x0c')


def note_value(d, values):
    """Labels what a list of model values contains; non-trivial when there is more than one plain scalar in it."""
    n = 0
    kinds = set()
    for v in values:
        for x in walk(v):
            n += 1
            kinds.add(x[0])
            if x[2]:
                kinds.add('annotated')
            if x[0] == 'struct' and len(set(k for k, _ in x[1])) < len(x[1]):
                kinds.add('repeated field')
    for k in sorted(kinds):
        d.label(k)
    deep = max([depth_of(v) for v in values] or [0])
    if deep >= 3:
        d.label('depth>=3')
    d.nontrivial(n >= 2 or 'annotated' in kinds)


def expect(values, got, about=''):
    diff = difference_stream(values, got)
    if diff:
        raise Violation('%s\n%s' % (diff, about))


def clip(x, n=1500):
    r = repr(x)
    return r if len(r) <= n else r[:n] + '...'


# -- shared symbol tables -------------------------------------------------------------------------------------------------

TABLE_NAMES = ('t', 'u', 'com.example.shared', 'é', 'v', 'T', '$ion_t', 't ')
TABLE_TEXTS = ('a', 'b', 'c', 'x', 'foo', 'bar', 'abc', 'name', 'é', '', '$10', 'null', 'a b', 'A', '$ion_1_0', 'symbols')


def gen_shared_tables(d, most=3, nulls=False):
    """A list of SharedTable with distinct (name, version)."""
    out, seen = [], set()
    for _ in range(d.small(most)):
        key = (d.choice(TABLE_NAMES), d.weighted(((5, 1), (3, 2), (2, 3), (1, 7), (1, 10), (1, 11))))
        if key in seen:
            continue
        seen.add(key)
        k = d.weighted(((8, 0), (1, 1)))
        if k == 0:
            texts = [d.choice(TABLE_TEXTS) for _ in range(d.small(6))]
        else:
            texts = ['%s%d' % (key[0], i) for i in range(d.choice((118, 130)))]
        # a shared table has no use for the same text twice
        if not d.chance(8):
            texts = [t for i, t in enumerate(texts) if t not in texts[:i]]
        if d.chance(20):
            # slots without text
            for _ in range(1 + d.small(2)):
                texts.insert(d.draw(len(texts)), None)
        out.append(SharedTable(key[0], key[1], texts))
    return out


_LARGE = {}


def large_table(n):
    """(SharedTable, the library's table) of n symbols."""
    if n not in _LARGE:
        t = SharedTable('large', 1, ['t%d' % i for i in range(n)])
        _LARGE[n] = t, py_table(t)
    return _LARGE[n]


def gen_large(d):
    """(values, tables): lengths and symbol IDs around those where VarUInt and UInt take a further octet."""
    k = d.choice(('scalar', 'container', 'symbols', 'symbols'))
    if k == 'symbols':
        n = d.choice((16384, 16384, 65536)) - 10 + d.choice((-1, 0, 1))
        table, _ = large_table(n)

        def sym():
            return d.choice(table.texts[-6:]) if d.chance(70) else 'local%d' % d.draw(4)
        values = []
        for _ in range(1 + d.draw(3)):
            a = tuple(sym() for _ in range(d.small(2)))
            values.append(d.choice((mk('symbol', sym(), a), mk('list', [mk('symbol', sym()), mk('symbol', sym())], a),
                                    mk('struct', [(sym(), mk('symbol', sym())), (sym(), mk('int', 1, a))]))))
        return values, [table]
    n = d.weighted(((2, 1 << 14), (2, 1 << 16), (5, 1 << 21))) - d.draw(14) + 2

    def big(n):
        t = d.choice(('blob', 'clob', 'string'))
        return mk(t, 'x' * n if t == 'string' else b'x' * n, ('a',) if d.chance(25) else ())
    v = big(n)
    if k == 'container':
        m = d.draw(n)
        v = mk('list', [big(m), big(n - m)])
        for _ in range(1 + d.draw(1)):
            t = d.choice(('list', 'sexp', 'struct'))
            items = [v] + [mk('int', d.draw(1)) for _ in range(d.draw(3))]
            v = mk(t, [('name', x) for x in items] if t == 'struct' else items, ('version',) if d.chance(30) else ())
    return [v] + ([mk('int', 7)] if d.boolean() else []), []


def sketch(values):
    """Show values without their lengthy parts."""
    return re.sub(r'x{60,}', lambda m: 'x*%d' % len(m.group(0)), show_stream(values))


def py_table(t):
    return shared_symbol_table(t.name, t.version, t.texts)


def py_catalog(tables):
    catalog = SymbolTableCatalog()
    for t in tables:
        catalog.register(py_table(t))
    return catalog


# -- chunking --------------------------------------------------------------------------------------------------------------

def gen_chunks(d, data):
    """Splits data (str or bytes) at generated places; no chunk is empty."""
    n = len(data)
    k = d.weighted(((4, 'random'), (3, 'single'), (2, 'few'), (2, 'size')))
    if k == 'single':
        return [data[i:i + 1] for i in range(n)]
    if k == 'size':
        size = 1 + d.small(16)
        return [data[i:i + size] for i in range(0, n, size)]
    cuts = set()
    for _ in range(d.small(20) if k == 'random' else 1 + d.small(2)):
        if n > 1:
            cuts.add(d.integer(1, n - 1))
    cuts = [0] + sorted(cuts) + [n]
    return [data[a:b] for a, b in zip(cuts, cuts[1:]) if a < b]


class ShortReads(object):
    """A file-like object whose read() may return less than it was asked for."""

    def __init__(self, data, sizes, whole=0):
        self.data = data
        self.pos = 0
        self.sizes = sizes
        self.i = 0
        self.whole = whole  # reads which begin before this position are not cut short of it

    def tell(self):
        return self.pos

    def seek(self, offset, whence=0):
        self.pos = max(0, offset + (0, self.pos, len(self.data))[whence])
        return self.pos

    def read(self, n=-1):
        left = len(self.data) - self.pos
        take = left if n is None or n < 0 else min(n, left)
        if take > 1:
            take = min(take, max(self.sizes[self.i % len(self.sizes)], self.whole - self.pos))
            self.i += 1
        out = self.data[self.pos:self.pos + take]
        self.pos += take
        return out


def event_key(e):
    """What an event says, for comparison."""
    et = e.event_type
    if et in (IonEventType.SCALAR, IonEventType.CONTAINER_START):
        name = lazily(e, 'field_name')
        name = None if name is None else ('f', model_symbol(name, True))
        anns = tuple(model_symbol(a, True) for a in lazily(e, 'annotations'))
        if et is IonEventType.CONTAINER_START:
            payload = None
        elif lazily(e, 'value') is None:
            payload = ('null',)
        else:
            payload = model_scalar(e.ion_type, e.value, True)
            payload = canon(mk(payload[0], payload[1]))
        return et.name, e.ion_type.name, payload, name, anns, e.depth
    if et is IonEventType.CONTAINER_END:
        return et.name, None if e.ion_type is None else e.ion_type.name, e.depth
    return (et.name,)


def loose_key(e):
    """What an event says, without judging whether it makes sense."""
    return (e.event_type.name, None if e.ion_type is None else e.ion_type.name, repr(e.value), repr(e.field_name),
            repr(tuple(e.annotations or ())), e.depth)


class ReadError(Exception):
    """The reader refused the data (the cause is in args[0])."""


class Driver(object):
    """Feeds chunks to a non-blocking reader and records what it says.

    ``chunks`` are given one by one whenever the reader asks for data; at their end NEXT is sent once (which declares
    the end of the stream) when the reader is not already at a complete point.
    """

    def __init__(self, reader, chunks, max_events=1000000):
        self.reader = reader
        self.chunks = list(chunks)
        self.i = 0
        self.flushed = False
        self.done = False
        self.signals = []
        self.current = None

    def send(self, x):
        try:
            return self.reader.send(x)
        except (RecursionError, MemoryError):
            raise
        except Exception as e:
            raise ReadError(e)

    def next(self, request=NEXT_EVENT):
        """The next event other than stream signals, or None at the end of the stream."""
        if self.done:
            return None
        e = self.send(request)
        spins = 0
        while e.event_type in (IonEventType.INCOMPLETE, IonEventType.STREAM_END):
            if self.i < len(self.chunks):
                self.signals.append(e.event_type.name)
                e = self.send(read_data_event(self.chunks[self.i]))
                self.i += 1
                continue
            if e.event_type is IonEventType.STREAM_END:
                self.done = True
                return None
            if self.flushed:
                spins += 1
                if spins > 3:
                    raise Violation('the reader keeps answering INCOMPLETE at the end of the stream')
            self.flushed = True
            e = self.send(NEXT_EVENT)
        return e


def gen_lag(d):
    """By how many events the look at an event's attributes, which may be computed lazily, lags behind the reader."""
    return d.choice((0, 0, 1, 4, 1000000))


def read_keys(reader, chunks, key=event_key, lag=0):
    """(list of event keys, None or the error's name) for a whole stream."""
    drv = Driver(reader, chunks)
    return collect_keys(drv.next, key, lag)


def collect_keys(next_event, key, lag):
    """(list of event keys, None or the error's name); next_event() returns None at the end."""
    keys, waiting = [], []
    while True:
        error = None
        try:
            e = next_event()
        except ReadError as err:
            e, error = None, type(err.args[0]).__name__
        if e is not None:
            waiting.append(e)
        while len(waiting) > (0 if e is None else lag):
            try:
                keys.append(key(waiting.pop(0)))
            except (Violation, RecursionError, MemoryError):
                raise
            except Exception as err:
                # a value that cannot be produced (deferred parsing)
                return keys, type(err).__name__
        if e is None:
            return keys, error


def keys_of_values(values):
    """The event keys of model values, i.e. what a managed reader should say."""
    return [event_key(e) for v in values for e in to_events(v, depth=0)]


def values_of_keys(keys):
    """The model values a list of event keys describes."""
    top, stack = [], []
    for k in keys:
        if k[0] == 'CONTAINER_END':
            t, name, anns, items = stack.pop()
            v = mk(t, tuple(items), anns)
        else:
            _, t, payload, name, anns, depth = k
            t = t.lower()
            if depth != len(stack):
                raise Violation('event %r at depth %d' % (k, len(stack)))
            anns = tuple(None if isinstance(a, tuple) else a for a in anns)
            if name is not None:
                name = None if isinstance(name[1], tuple) else name[1]
            if k[0] == 'CONTAINER_START':
                stack.append((t, name, anns, []))
                continue
            if payload == ('null',):
                v = mk('null', t, anns)
            else:
                p = payload[1]
                v = mk(payload[0], None if payload[0] == 'symbol' and isinstance(p, tuple) else p, anns)
        (stack[-1][3] if stack else top).append((name, v) if stack and stack[-1][0] == 'struct' else v)
    return top


def read_tree(reader, chunks, about):
    """The model values a reader delivers; any error is a violation."""
    tree = EventTree()
    drv = Driver(reader, chunks)
    while True:
        try:
            e = drv.next()
        except ReadError as err:
            raise Violation('reading raised %s: %s\n%s' % (type(err.args[0]).__name__, err.args[0], about))
        if e is None:
            break
        tree.add(e)
    if tree.stack:
        raise Violation('the stream ended within a container\n%s' % about)
    return tree.top
