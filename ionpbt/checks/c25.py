"""C25: readers deliver what has arrived, and their stream signals say whether a value is unfinished."""
from .. import refbin, reftext
from ..common import *
from ..engine import Unit
from . import chunking

ASSUMPTIONS = ['which exception an illegal request raises is not judged, only that it is refused']

OPTS = Opts(max_depth=3, breadth=4, big=False, wide=False)


# -- binary: where values and parts of values end -----------------------------------------------------------------------

def varuint(data, i):
    n = 0
    while True:
        b = data[i]
        i += 1
        n = n << 7 | b & 0x7f
        if b & 0x80:
            return n, i


def header(data, i):
    """(type nibble, low nibble, start of the body, end of the value)"""
    t, l = data[i] >> 4, data[i] & 15
    i += 1
    if t == 1 or l == 15 and t != 0:
        n = 0
    elif l == 15:
        n = 0
    elif l == 14 or t == 13 and l == 1:
        n, i = varuint(data, i)
    else:
        n = l
    return t, l, i, i + n


def ends_of_value(data, i, out, depth, pads):
    """Appends the offsets at which the events of the value at i are complete; returns its end."""
    start = i
    t, l, body, end = header(data, i)
    if t == 0 and l != 15:
        return end
    if t == 14:
        n, i = varuint(data, body)
        t, l, body, inner_end = header(data, i + n)
        if inner_end != end:
            raise HarnessError('annotation wrapper at %d of %r' % (start, data))
    if t in (11, 12, 13) and l != 15:
        out.append(body)
        i = body
        while i < end:
            if t == 13:
                _, i = varuint(data, i)
            i = ends_of_value(data, i, out, depth + 1, pads)
        out.append(end)
    else:
        out.append(end)
    return end


def is_table(data, i):
    t, l, body, end = header(data, i)
    if t != 14 or l == 0:
        return False
    n, i = varuint(data, body)
    sid, _ = varuint(data, i)
    t, l, _, _ = header(data, i + n)
    return sid == 3 and t == 13


def outline(data):
    """(offsets at which events are complete, offsets between top-level values)"""
    out, between = [], [0]
    i = 0
    while i < len(data):
        if data[i] == 0xe0:
            i += 4
        elif is_table(data, i):
            i = header(data, i)[3]
        else:
            i = ends_of_value(data, i, out, 0, between)
        between.append(i)
    return out, between


class Feeder(object):
    """Drives a reader by hand: feed() pieces, then take() all events there are."""

    def __init__(self, form):
        self.reader = chunking.make_reader(form)
        self.events = []
        self.last = self.reader.send(NEXT_EVENT)
        if self.last.event_type is not IonEventType.STREAM_END:
            raise Violation('a reader without data answers %r' % (self.last,))

    def feed(self, data):
        self.last = self.reader.send(read_data_event(data))
        self.drain()

    def drain(self):
        while self.last.event_type not in (IonEventType.INCOMPLETE, IonEventType.STREAM_END):
            self.events.append(event_key(self.last))
            self.last = self.reader.send(NEXT_EVENT)

    @property
    def signal(self):
        return self.last.event_type.name


def binary(d):
    """After every piece of a binary stream: the events so far are there, and INCOMPLETE says exactly that a value is unfinished."""
    values = gen_stream(d, OPTS, most=4, least=1)
    data = refbin.Encoder(d).stream(values, symbols_of)
    if len(data) > 1500:
        raise Discard
    chunks = gen_chunks(d, data)
    d.case((data, [len(c) for c in chunks]), '%s in pieces of %r' % (clip(data, 400), [len(c) for c in chunks][:40]))
    d.nontrivial(len(chunks) > 1)
    outs, between = outline(data)
    want = keys_of_values(refbin.decode(data))
    if len(want) != len(outs):
        raise HarnessError('%d events at %d places in %r' % (len(want), len(outs), data))
    f = Feeder('binary')
    n = 0
    for c in chunks:
        f.feed(c)
        n += len(c)
        ready = sum(1 for x in outs if x <= n)
        about = 'after %d octets of %s (pieces %r)' % (n, clip(data), [len(c) for c in chunks])
        if len(f.events) != ready or f.events != want[:ready]:
            raise Violation('%d events instead of %d %s\n%r\n%r' % (len(f.events), ready, about, f.events[-2:], want[:ready][-2:]))
        signal = 'STREAM_END' if n in between else 'INCOMPLETE'
        if f.signal != signal:
            raise Violation('%s instead of %s %s' % (f.signal, signal, about))
        d.label(signal)


# -- text ---------------------------------------------------------------------------------------------------------------------

NUMERIC = ('int', 'float', 'decimal', 'timestamp', 'bool')


def last_value(d):
    """(value, its text, whether its end is only known from what follows, whether white space ends it)"""
    k = d.choice(('number', 'symbol', 'long string', 'container', 'string', 'lob', 'null', 'none'))
    if k == 'none':
        return None, d.choice(('', ' ', '/*c*/', '//c\n')), False, True
    if k == 'number':
        v = gen_scalar(d, Opts(big=False, annotations=False), NUMERIC)
    elif k == 'symbol':
        v = mk('symbol', gen_symbol_text(d, None, False))
    elif k in ('long string', 'string'):
        v = gen_scalar(d, Opts(big=False, annotations=False), ('string',))
    elif k == 'lob':
        v = gen_scalar(d, Opts(big=False, annotations=False), ('clob', 'blob'))
    elif k == 'null':
        v = mk('null', d.choice(('null', 'int', 'list', 'symbol', 'struct')))
    else:
        v = mk(d.choice(('list', 'sexp', 'struct')), (), ())
        if d.boolean():
            x = gen_scalar(d, Opts(big=False))
            v = mk(v[0], [('a', x)] if v[0] == 'struct' else [x])
    if d.chance(30):
        v = mk(v[0], v[1], (gen_symbol_text(d, None, False),))
    if is_system_value(v):
        v = mk(v[0], v[1], ('q',) + v[2])
    text = simpleion.dumps(to_py(v, d, 0), binary=False, omit_version_marker=True)
    if k == 'long string':
        at = text.rindex('"', 0, -1) if text.endswith('"') and '\\"' not in text and "'" not in v[1] else None
        if at is None:
            return last_value_plain(v, text)
        text = text[:at] + "'''" + text[at + 1:-1] + "'''"
        return v, text, True, False
    return v, text, k in ('number', 'symbol', 'null'), k != 'symbol'


def last_value_plain(v, text):
    return v, text, False, True


TRAILERS = ('', ' ', '\n', '\t ', '/**/', '/*c*/ ', ' //c\n', '\r\n')


def flush(d):
    """Text in segments with NEXT at the end of each: every segment is a stream of its own, in the same symbol table context."""
    segments = []
    for _ in range(1 + d.small(3)):
        values = gen_stream(d, OPTS, most=2)
        text = reftext.Renderer(d).stream(values, symbols_of)
        v, t, needs_end, ws_ends = last_value(d)
        trailer = d.choice(TRAILERS)
        if v is not None:
            # so that long strings do not join
            text += '\nnull'
            values = values + [mk('null', 'null')]
        text = '$ion_1_0 ' + text + '\n' + t + trailer
        if v is not None:
            values = values + [v]
        if v is None:
            signal = None  # the last value of the rendered text may be of any kind
        elif not needs_end:
            signal = 'STREAM_END'
        elif trailer == '':
            signal = 'INCOMPLETE' if v[0] != 'timestamp' else None
        else:
            signal = 'STREAM_END' if ws_ends else 'INCOMPLETE'
        segments.append((values, text, signal))
    form = d.choice(('unicode', 'bytes'))
    pieces = []
    for values, text, signal in segments:
        data = text.encode('utf-8') if form == 'bytes' else text
        pieces.append(gen_chunks(d, data) if d.boolean() else [data])
    d.case((segments, [[len(c) for c in p] for p in pieces], form), '%s segments %r' % (form, [s[1] for s in segments]))
    d.nontrivial(len(segments) > 1)
    about = '%s segments %s' % (form, clip([s[1] for s in segments]))
    f = Feeder(form)
    want = []
    for (values, text, signal), chunks in zip(segments, pieces):
        want += values
        for c in chunks:
            f.feed(c)
        if signal is not None:
            d.label(signal)
            if f.signal != signal:
                raise Violation('%s instead of %s after %s: %s' % (f.signal, signal, clip(text), about))
        if f.signal == 'STREAM_END':
            # nothing is left to be delivered
            expect(want, values_of_keys(f.events), 'before %s: %s' % (f.signal, about))
            continue
        before = len(f.events)
        f.last = f.reader.send(NEXT_EVENT)
        f.drain()
        if f.signal != 'STREAM_END':
            raise Violation('%s after the flush of %s: %s' % (f.signal, clip(text), about))
        if signal is not None and f.signal == 'INCOMPLETE' and not 1 <= len(f.events) - before <= 2:
            raise Violation('the flush of %s delivered %d events: %s' % (clip(text), len(f.events) - before, about))
        expect(want, values_of_keys(f.events), 'after the flush of %s: %s' % (clip(text), about))


def prefix(d):
    """Any prefix of a text: a flush delivers its values if it is a valid text, and is refused otherwise."""
    values = gen_stream(d, OPTS, most=3, least=1)
    text = reftext.Renderer(d).stream(values, symbols_of)
    if len(text) > 600:
        raise Discard
    cut = d.integer(0, len(text))
    text = text[:cut]
    form = d.choice(('unicode', 'bytes'))
    data = text.encode('utf-8') if form == 'bytes' else text
    d.case((data, form), '%s prefix %r' % (form, text[-400:]))
    d.nontrivial(cut > 0)
    try:
        want = reftext.parse(text)
    except reftext.Bad:
        want = None
    except reftext.Unsure:
        raise Discard
    d.label('complete' if want is not None else 'unfinished')
    f = Feeder(form)
    about = '%s prefix %s' % (form, clip(text))
    try:
        for c in gen_chunks(d, data):
            f.feed(c)
        signal = f.signal
        for _ in range(2 if '//' in text else 1):
            # the end of a comment that the end of the data ends may be a flush of its own
            if f.signal == 'INCOMPLETE':
                f.last = f.reader.send(NEXT_EVENT)
                f.drain()
        error = None
    except Violation:
        raise
    except Exception as e:
        error = e
    if want is None:
        if error is None:
            raise Violation('an unfinished text was taken for finished (%s first): %s' % (signal, about))
        return
    if error is not None:
        raise Violation('a complete text was refused with %r: %s' % (error, about))
    if f.signal != 'STREAM_END':
        raise Violation('%s after the flush: %s' % (f.signal, about))
    expect(want, values_of_keys(f.events), about)


# -- requests -----------------------------------------------------------------------------------------------------------------

def requests(d):
    """Requests which make no sense at the point where they are made are refused."""
    values = gen_stream(d, OPTS, most=3, least=1)
    form = d.choice(('binary', 'unicode', 'bytes'))
    if form == 'binary':
        data = refbin.Encoder(d).stream(values, symbols_of)
    else:
        data = reftext.Renderer(d).stream(values, symbols_of)
        if form == 'bytes':
            data = data.encode('utf-8')
    if not data or len(data) > 1500:
        raise Discard
    raw = d.chance(30)
    chunks = gen_chunks(d, data)
    at = d.draw(30)
    kind = d.choice(('data', 'next', 'skip', 'empty', 'first'))
    d.case((data, [len(c) for c in chunks], at, kind, raw), '%s of %s, %s request after %d' % (form, clip(data, 300), kind, at))
    about = '%s of %s in %r, %s request after %d' % (form, clip(data), [len(c) for c in chunks], kind, at)
    d.label(kind)
    reader = chunking.make_reader(form, raw)
    if kind == 'first':
        status, e = attempt(reader.send, d.choice((read_data_event(data), SKIP_EVENT)))
        if status == 'ok':
            raise Violation('the first request was not NEXT and got %r: %s' % (e, about))
        d.nontrivial()
        return
    e = reader.send(NEXT_EVENT)
    i = n = 0
    flushed = False
    while True:
        signal = e.event_type.is_stream_signal
        if n >= at:
            bad = None
            if kind == 'data' and not signal:
                bad = read_data_event(data)
            elif kind == 'next' and (e.event_type is IonEventType.STREAM_END or e.event_type is IonEventType.INCOMPLETE and form == 'binary'):
                bad = NEXT_EVENT
            elif kind == 'skip' and (signal or e.depth == 0 and e.event_type in (IonEventType.SCALAR, IonEventType.CONTAINER_END)):
                bad = SKIP_EVENT
            elif kind == 'empty' and signal:
                bad = read_data_event(data[:0])
            if bad is not None:
                d.nontrivial()
                status, got = attempt(reader.send, bad)
                if status == 'ok':
                    raise Violation('%r after %r was answered with %r: %s' % (bad, e, got, about))
                return
        n += 1
        if not signal:
            e = reader.send(NEXT_EVENT)
        elif i < len(chunks):
            e = reader.send(read_data_event(chunks[i]))
            i += 1
        elif e.event_type is IonEventType.INCOMPLETE and not flushed:
            flushed = True
            e = reader.send(NEXT_EVENT)
        else:
            return


UNITS = [
    Unit('binary', binary, 3000, 250000, 'more than one piece'),
    Unit('flush', flush, 3500, 200000, 'more than one segment'),
    Unit('prefix', prefix, 4000, 250000, 'not empty'),
    Unit('requests', requests, 3000, 150000, 'an illegal request was made'),
]
