"""C13: writers accept exactly the event sequences that describe Ion values, and say truthfully when output is complete."""
from .. import refbin, reftext
from ..common import *
from ..engine import Unit
from ..refsym import Bad, Unsure

ASSUMPTIONS = ['any exception is a refusal, and it may come while pending output is drained',
               'not judged: values of bool events that are not bools, lists and sets as lobs, field names outside of structs, the depth of events',
               'managed binary writers refuse a version marker between values that were not flushed']

WRONG = {
    'int': (1.5, Decimal(1), 'a', b'a', SymbolToken('a', None), datetime(2000, 1, 1), [1], {}, 1j),
    'float': (1, Decimal(1), 'a', b'a', True, SymbolToken('a', None), datetime(2000, 1, 1), [1.0]),
    'decimal': (1, 1.5, 'a', b'a', True, SymbolToken('a', None), datetime(2000, 1, 1), Decimal('NaN'), Decimal('sNaN'),
                Decimal('-NaN12'), Decimal('Infinity'), Decimal('-Infinity')),
    'timestamp': (1, 1.5, '2000T', b'2000T', Decimal(2000), timedelta(1), datetime(2000, 1, 1).date(), datetime(2000, 1, 1).time(),
                  SymbolToken('a', None)),
    'symbol': (1, 1.5, b'a', bytearray(b'a'), True, Decimal(1), datetime(2000, 1, 1), ['a'], ('a',)),
    'string': (1, 1.5, b'a', bytearray(b'a'), True, Decimal(1), datetime(2000, 1, 1), ['a'], SymbolToken('a', None)),
    'clob': ('a', 1, 1.5, Decimal(1), datetime(2000, 1, 1), True, SymbolToken('a', None)),
    'blob': ('a', 1, 1.5, Decimal(1), datetime(2000, 1, 1), True, SymbolToken('a', None)),
    'null': (1, 'null', False, b'', 0.0),
    'list': ([], [1], (), 1, 'a', {}),
    'sexp': ([], [1], (), 1, 'a', {}),
    'struct': ({}, {'a': 1}, [], 1, 'a'),
}


class Refused(Exception):
    pass


class Writer(object):
    """Drives a non-blocking or a blocking writer and keeps what it produced."""

    def __init__(self, d):
        self.binary = d.boolean()
        self.indent = None if self.binary else d.choice(INDENTS)
        self.blocking = d.boolean()
        w = binary_writer() if self.binary else text_writer(indent=self.indent)
        self.out = bytearray()
        self.file = None
        if self.blocking:
            self.file = io.BytesIO()
            w = blocking_writer(w, self.file)
        self.writer = w

    def describe(self):
        return '%s%s' % ('blocking ' if self.blocking else '', 'binary' if self.binary else 'text indent=%r' % (self.indent,))

    def send(self, event, between=None):
        """The final type of the answer; ``between`` is sent in the middle of pending output."""
        try:
            if self.blocking:
                t = self.writer.send(event)
                self.out = bytearray(self.file.getvalue())
            else:
                r = self.writer.send(event)
                n = 0
                while True:
                    self.out.extend(r.data or b'')
                    t = r.type
                    if t is not WriteEventType.HAS_PENDING:
                        break
                    n += 1
                    if n > 1000000:
                        raise Violation('output is pending forever')
                    r = self.writer.send(between)
        except (Violation, RecursionError, MemoryError):
            raise
        except Exception as e:
            raise Refused(e)
        if t not in (WriteEventType.COMPLETE, WriteEventType.NEEDS_INPUT):
            raise Violation('answer of type %r' % (t,))
        return t

    def parse(self):
        data = bytes(self.out)
        if not data:
            return []
        try:
            return refbin.decode(data) if self.binary else reftext.parse(data.decode('utf-8'))
        except (Bad, Unsure, UnicodeDecodeError) as e:
            raise Violation('output is not a valid stream: %s: %s' % (e, clip(data)))


def plan(d):
    """Events of a few values, with flushes, and the number of complete values after each of them."""
    values = gen_stream(d, Opts(max_depth=3, breadth=3, big=False, wide=False), most=4, least=0)
    events, done = [], 0
    for v in values:
        depth = 0
        for e in to_events(v, d=d):
            if e.event_type is IonEventType.CONTAINER_START:
                depth += 1
            elif e.event_type is IonEventType.CONTAINER_END:
                depth -= 1
            if depth == 0:
                done += 1
            # (event, depth afterwards, number of values that are complete afterwards)
            events.append((e, depth, done))
        if d.chance(15):
            events.append((ION_STREAM_END_EVENT, 0, done))
    return values, events


def check_answer(w, t, event, depth, values, done, flushed):
    if event.event_type is IonEventType.STREAM_END and t is not WriteEventType.COMPLETE:
        raise Violation('%s: %s after the stream ended' % (w.describe(), t))
    if depth and t is WriteEventType.COMPLETE:
        raise Violation('%s: COMPLETE within a container, after %r' % (w.describe(), event))
    if not w.binary and depth == 0 and t is not WriteEventType.COMPLETE:
        raise Violation('%s: %s after a top-level value' % (w.describe(), t))
    if t is WriteEventType.COMPLETE:
        expect(values[:done], w.parse(), '%s said COMPLETE after %r; output %s' % (w.describe(), event, clip(bytes(w.out))))


def legal(d):
    """Legal histories are accepted, and COMPLETE means that the output is in step with the events."""
    values, events = plan(d)
    w = Writer(d)
    ivm = d.chance(30)
    d.case((w.describe(), values, len(events), ivm), '%s: %s' % (w.describe(), [e[0].event_type.name for e in events]))
    d.nontrivial(len(events) >= 3)
    d.label(w.describe().split(' indent')[0])
    try:
        if ivm:
            w.send(ION_VERSION_MARKER_EVENT)
        for e, depth, done in events:
            t = w.send(e)
            check_answer(w, t, e, depth, values, done, None)
        for _ in range(2):
            t = w.send(ION_STREAM_END_EVENT)
            check_answer(w, t, ION_STREAM_END_EVENT, 0, values, len(values), None)
    except Refused as err:
        raise Violation('%s refused a legal history: %r\n%s' % (w.describe(), err.args[0], show_stream(values)))


def gen_misfit(d, depth, in_struct, started, binary):
    """(description, event) that must be refused at this point."""
    name = any_symbol('f', d) if in_struct else None
    anns = (SymbolToken('ann', None),) if d.chance(20) else ()
    kinds = [(6, 'value'), (2, 'not container'), (2, 'absent'), (2, 'incomplete'), (1, 'bad annotation'), (1, 'bad type')]
    if depth:
        kinds += [(3, 'stream end'), (2, 'ivm')]
    else:
        kinds += [(3, 'container end')]
    if in_struct:
        kinds += [(6, 'no field name'), (2, 'bad field name')]
    k = d.weighted(kinds)
    ionpy = IonEvent
    if k == 'value':
        t = d.choice(sorted(WRONG))
        return 'value %s' % t, ionpy(IonEventType.SCALAR, ION_TYPE[t], d.choice(WRONG[t]), field_name=name, annotations=anns)
    if k == 'not container':
        t = d.choice(('null', 'bool', 'int', 'float', 'decimal', 'timestamp', 'symbol', 'string', 'clob', 'blob'))
        return k, ionpy(IonEventType.CONTAINER_START, ION_TYPE[t], None, field_name=name, annotations=anns)
    if k == 'absent':
        return k, None
    if k == 'incomplete':
        return k, ionpy(IonEventType.INCOMPLETE)
    if k == 'stream end':
        return k, ION_STREAM_END_EVENT
    if k == 'ivm':
        return k, ION_VERSION_MARKER_EVENT
    if k == 'container end':
        return k, ionpy(IonEventType.CONTAINER_END, d.choice((None, IonType.LIST, IonType.STRUCT)))
    if k == 'bad annotation':
        bad = d.choice((1, b'a', 1.5))
        return k, ionpy(IonEventType.SCALAR, IonType.INT, 1, field_name=name, annotations=(bad,))
    if k == 'bad type':
        return k, ionpy(IonEventType.SCALAR, None, 1, field_name=name, annotations=anns)
    if d.boolean():
        e = ionpy(IonEventType.CONTAINER_START, d.choice((IonType.LIST, IonType.SEXP, IonType.STRUCT)), None, annotations=anns)
    else:
        e = ionpy(IonEventType.SCALAR, IonType.INT, d.choice((1, None)), annotations=anns)
    if k == 'no field name':
        return k, e
    return k, e.derive_field_name(d.choice((1, b'a', 1.5)))


def illegal(d):
    """One event that cannot come next, anywhere in a legal history, is refused."""
    values, events = plan(d)
    w = Writer(d)
    at = d.draw(len(events))
    stack = []
    for e, depth, done in events[:at]:
        if e.event_type is IonEventType.CONTAINER_START:
            stack.append(e.ion_type)
        elif e.event_type is IonEventType.CONTAINER_END:
            stack.pop()
    depth = len(stack)
    what, bad = gen_misfit(d, depth, bool(stack) and stack[-1] is IonType.STRUCT, at > 0, w.binary)
    if bad is None and (w.blocking or at == 0):
        # a blocking writer has nothing to say about absent events before the underlying writer sees them
        what, bad = ('stream end', ION_STREAM_END_EVENT) if depth else ('container end', IonEvent(IonEventType.CONTAINER_END))
    if what == 'incomplete' and at == 0:
        what, bad = 'container end', IonEvent(IonEventType.CONTAINER_END)
    d.case((w.describe(), values, at, repr(bad)), '%s: %s (%r) after %d events of %s' % (w.describe(), what, bad, at, show_stream(values)))
    d.label(what.split()[0] if what.startswith('value') else what)
    d.nontrivial(at > 0)
    try:
        for e, depth, done in events[:at]:
            w.send(e)
    except Refused as err:
        raise Violation('%s refused a legal history: %r\n%s' % (w.describe(), err.args[0], show_stream(values)))
    before = bytes(w.out)
    try:
        w.send(bad)
    except Refused:
        return
    raise Violation('%s accepted %s: %r within %s\nvalues %s\noutput %s' % (
        w.describe(), what, bad, [t.name for t in stack], show_stream(values), clip(bytes(w.out))))


def pending(d):
    """An event that is sent while output is pending is refused, and none is lost when pending output is fetched."""
    values, events = plan(d)
    w = Writer(d)
    at = d.draw(len(events))
    extra = d.choice((IonEvent(IonEventType.SCALAR, IonType.INT, 1), ION_STREAM_END_EVENT, ION_VERSION_MARKER_EVENT,
                      IonEvent(IonEventType.CONTAINER_END)))
    w = None
    binary = d.boolean()
    writer = binary_writer() if binary else text_writer(indent=d.choice(INDENTS))
    d.case((binary, values, at, repr(extra)), '%s %r sent while output of event %d is pending: %s' % (
        'binary' if binary else 'text', extra, at, show_stream(values)))
    for i, (e, depth, done) in enumerate(events + [(ION_STREAM_END_EVENT, 0, 0)]):
        r = writer.send(e)
        while r.type is WriteEventType.HAS_PENDING:
            if i >= at:
                d.nontrivial()
                status, got = attempt(writer.send, extra)
                if status == 'ok':
                    raise Violation('%r was accepted while output was pending: %r' % (extra, got))
                return
            r = writer.send(None)


UNSUPPORTED = (lambda: object(), lambda: {1, 2}, lambda: 1j, lambda: timedelta(1), lambda: datetime(2000, 1, 1).date(),
               lambda: (x for x in ()), lambda: range(3), lambda: object, lambda: len, lambda: frozenset(),
               lambda: Decimal('NaN'), lambda: Decimal('-Infinity'), lambda: memoryview(b'a'), lambda: Ellipsis)
BAD_KEYS = (1, 1.5, b'a', True, (1, 2), Decimal(1))


def objects(d):
    """dump() of something which is not an Ion value fails, wherever it is."""
    v = gen_top(d, Opts(max_depth=3, breadth=3, big=False, wide=False))
    obj = to_py(v, d)
    k = d.weighted(((5, 'value'), (2, 'key'), (2, 'indent')))
    kw = {'binary': d.boolean()}
    if k == 'indent':
        bad = d.choice(('x', ' x', 'x ', '-', '\xa0', '\u2003', ' \u3000', '\0', 1, 4, True, b'  ', [' '], '\x1f', '\x85', ' \x1c'))
        kw = {'binary': False, 'indent': bad}
    elif k == 'key':
        bad = {d.choice(BAD_KEYS): obj}
        obj = bad
    else:
        bad = d.choice(UNSUPPORTED)()
        obj = bad
    if k != 'indent':
        kw['sequence_as_stream'] = d.boolean()
        for _ in range(d.small(3)):
            w = d.draw(3)
            obj = [obj] if w == 0 else (1, obj) if w == 1 else {'a': obj} if w == 2 else [None, obj, 'x']
    d.case((k, repr(bad)[:40] if k != 'value' else type(bad).__name__, v, repr(kw), clip(obj)), '%s %r in %s %r' % (k, bad, clip(obj, 300), kw))
    d.label(k)
    d.nontrivial()
    if d.boolean():
        status, got = attempt(simpleion.dumps, obj, **kw)
    else:
        status, got = attempt(simpleion.dump, obj, io.BytesIO(), **kw)
    if status == 'ok':
        raise Violation('dump of %s succeeded with %r: %r' % (clip(obj), kw, clip(got)))


UNITS = [
    Unit('legal', legal, 7000, 200000, 'legal histories of events, version markers and flushes, non-blocking and blocking, binary and text with indentation; '
                                       'non-trivial: at least three events'),
    Unit('illegal', illegal, 9000, 300000, 'one event that cannot legally come next after a prefix of a legal history; non-trivial: the prefix is not empty'),
    Unit('pending', pending, 3000, 100000, 'an event is sent while output is pending; non-trivial: some output was pending'),
    Unit('objects', objects, 4000, 120000, 'dump() of objects with an unsupported value, key or indentation at some depth; all non-trivial'),
]
