"""C23: data that are read as events or values and written again, in either format, keep their meaning."""
from .. import refbin, reftext
from ..common import *
from ..engine import Unit
from ..refsym import Context

ASSUMPTIONS = ['symbols of unknown text are symbol zero or are not there: a writer has no means to write others']

OPTS = Opts(max_depth=4, breadth=4, unknown=False)


def encode(d, values):
    """(form, data, catalog tables) of a stream."""
    k = d.choice(('encoder', 'renderer', 'dumps binary', 'dumps text', 'imports'))
    tables = []
    if k == 'encoder':
        return k, 'binary', refbin.Encoder(d).stream(values, symbols_of), tables
    if k == 'renderer':
        data = reftext.Renderer(d).stream(values, symbols_of)
    elif k == 'dumps binary':
        return k, 'binary', dumps_stream(values, d), tables
    elif k == 'dumps text':
        data = dumps_stream(values, d, binary=False, indent=d.choice(INDENTS))
    else:
        tables = gen_shared_tables(d)
        return k, 'binary', dumps_stream(values, d, imports=[py_table(t) for t in tables]), tables
    if d.boolean():
        return k, 'unicode', data, tables
    return k, 'bytes', data.encode('utf-8'), tables


def make_writer(d, label):
    """(name, writer coroutine, decode)"""
    k = d.choice(('binary', 'text', 'binary with imports'))
    d.label('%s to %s' % (label, k))
    if k == 'text':
        return k, text_writer(indent=d.choice(INDENTS)), lambda data: reftext.parse(data.decode('utf-8'))
    if k == 'binary':
        return k, binary_writer(), refbin.decode
    tables = gen_shared_tables(d)
    return k, binary_writer([py_table(t) for t in tables]), lambda data: refbin.decode(data, Context(Catalog(tables)))


def managed(form, data, tables):
    r = binary_reader() if form == 'binary' else text_reader(is_unicode=form == 'unicode')
    return managed_reader(r, py_catalog(tables))


class Sink(object):
    """Collects what a writer produces, through the blocking writer or by hand."""

    def __init__(self, writer, blocking):
        self.fp = io.BytesIO()
        self.writer = blocking_writer(writer, self.fp) if blocking else writer
        self.blocking = blocking

    def send(self, e):
        if self.blocking:
            self.writer.send(e)
        else:
            self.fp.write(write_events([e], self.writer))


def events(d):
    """Events of a reader are sent to a writer as they come; some values are skipped on the way."""
    values = gen_stream(d, OPTS, most=4)
    how, form, data, tables = encode(d, values)
    if len(data) > 6000:
        raise Discard
    kind, writer, decode = make_writer(d, how)
    sink = Sink(writer, d.boolean())
    chunks = gen_chunks(d, data) if data and d.boolean() else [data][:len(data)]
    depth_shift = d.boolean()
    skips = [d.small(12) for _ in range(d.small(3))]
    d.case((data, kind, len(chunks), skips, sink.blocking), '%s to %s, skipping %r: %s' % (how, kind, skips, clip(data, 400)))
    note_value(d, values)
    about = '%s to %s, skipping %r: %s' % (how, kind, skips, clip(data))
    drv = Driver(managed(form, data, tables), chunks)
    tree = EventTree()
    n = 0
    request = NEXT_EVENT
    sink.send(ION_VERSION_MARKER_EVENT)
    while True:
        try:
            e = drv.next(request)
        except ReadError as err:
            raise Violation('reading raised %r\n%s' % (err.args[0], about))
        if e is None:
            break
        tree.add(e)
        if depth_shift and e.event_type is not IonEventType.CONTAINER_END:
            # values read from within other data are events of some depth
            e = e.derive_depth(d.choice((None, e.depth)))
        try:
            sink.send(e)
        except Exception as err:
            raise Violation('the writer refused %r: %r\n%s' % (e, err, about))
        request = NEXT_EVENT
        n += 1
        if n in skips and e.depth and e.event_type is not IonEventType.CONTAINER_END:
            request = SKIP_EVENT
            d.label('skip')
    sink.send(ION_STREAM_END_EVENT)
    out = sink.fp.getvalue()
    if not skips:
        expect(values, tree.top, 'what was read: ' + about)
    try:
        got = decode(out)
    except Exception as err:
        raise Violation('what was written is not valid: %s: %s\n%s' % (err, clip(out), about))
    expect(tree.top, got, 'written %s\n%s' % (clip(out), about))


def hops(d):
    """Values are loaded and dumped over and over in changing formats; nothing is lost on the way."""
    values = gen_stream(d, OPTS, most=3, least=1)
    how, form, data, tables = encode(d, values)
    if len(data) > 6000:
        raise Discard
    n = 1 + d.small(4)
    steps = []
    for _ in range(n):
        steps.append(d.choice(('binary', 'text', 'pretty', 'imports')))
    d.case((data, steps), '%s via %r' % (clip(data, 400), steps))
    note_value(d, values)
    about = '%s via %r' % (clip(data), steps)
    objs = must('loads', simpleion.loads, data, catalog=py_catalog(tables), single_value=False)
    expect(values, from_py_stream(objs), 'first: ' + about)
    sizes = {}
    for s in steps:
        if s == 'imports':
            tables = gen_shared_tables(d)
            data = must('dumps', simpleion.dumps, objs, sequence_as_stream=True, imports=[py_table(t) for t in tables])
        else:
            tables = []
            data = must('dumps', simpleion.dumps, objs, sequence_as_stream=True, binary=s == 'binary', indent='  ' if s == 'pretty' else None)
            if sizes.setdefault(s, data) != data:
                raise Violation('%s gives %s the second time, %s the first time: %s' % (s, clip(data), clip(sizes[s]), about))
        objs = must('loads of %s' % clip(data), simpleion.loads, data, catalog=py_catalog(tables), single_value=False)
        expect(values, from_py_stream(objs), 'after %s: %s: %s' % (s, clip(data), about))


def extract(d):
    """The content of one container of a stream is copied by its events into a stream, or container, of its own."""
    inner = [gen_top(d, OPTS) for _ in range(d.small(4))]
    t = d.choice(('list', 'sexp', 'struct'))
    names = [gen_symbol_text(d) for _ in inner]
    box = mk(t, list(zip(names, inner)) if t == 'struct' else inner)
    before, after = gen_stream(d, OPTS, most=1), gen_stream(d, OPTS, most=1)
    how, form, data, tables = encode(d, before + [mk('list', [box, mk('int', 1)])] + after)
    if len(data) > 6000:
        raise Discard
    kind, writer, decode = make_writer(d, how)
    into = d.choice(('top', 'list', 'sexp', 'struct'))
    d.case((data, kind, into), 'members of the %s in %s go to %s %s' % (t, clip(data, 400), kind, into))
    d.nontrivial(len(inner) > 0)
    about = 'members of the %s in %s go to %s %s' % (t, clip(data), kind, into)
    drv = Driver(managed(form, data, tables), [data][:len(data)])
    # find the box
    for _ in before:
        e = drv.next()
        if e.event_type is IonEventType.CONTAINER_START:
            e = drv.next(SKIP_EVENT)
    for _ in range(2):
        e = drv.next()
        if e.event_type is not IonEventType.CONTAINER_START:
            raise Violation('%r instead of the start of a container: %s' % (e, about))
    out = [ION_VERSION_MARKER_EVENT]
    if into != 'top':
        out.append(IonEvent(IonEventType.CONTAINER_START, ION_TYPE[into], annotations=('x',)))
    depth = 0
    i = 0
    while True:
        e = drv.next()
        if e.event_type is IonEventType.CONTAINER_END:
            if depth == 0:
                break
            depth -= 1
        elif depth == 0:
            # the name belongs to the container it came from
            if into == 'struct' and t == 'struct':
                e = e.derive_field_name(e.field_name)
            elif into == 'struct':
                e = e.derive_field_name(py_symbol(names[i], False, d))
            else:
                e = e.derive_field_name(None)
            if d.boolean():
                e = e.derive_annotations(tuple(e.annotations))
            i += 1
        if e.event_type is IonEventType.CONTAINER_START:
            depth += 1
        out.append(e)
    if into != 'top':
        out.append(IonEvent(IonEventType.CONTAINER_END))
    out.append(ION_STREAM_END_EVENT)
    written = must('writing ' + about, write_events, out, writer)
    try:
        got = decode(written)
    except Exception as err:
        raise Violation('what was written is not valid: %s: %s\n%s' % (err, clip(written), about))
    if t == 'struct' and into != 'struct':
        # the order of the fields was up to whoever wrote them
        got, inner = ([mk('struct', [('', v) for v in (got if into == 'top' else got[0][1])])], [mk('struct', [('', v) for v in inner])])
        expect(inner, got, 'written %s\n%s' % (clip(written), about))
        return
    want = list(zip(names, inner)) if into == 'struct' else inner
    expect(want if into == 'top' else [mk(into, want, ('x',))], got, 'written %s\n%s' % (clip(written), about))


UNITS = [
    Unit('events', events, 3000, 300000, 'more than one plain scalar'),
    Unit('hops', hops, 1300, 100000, 'more than one plain scalar'),
    Unit('extract', extract, 2500, 150000, 'the container is not empty'),
]
