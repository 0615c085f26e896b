"""C24: readers, writers and calls do not influence each other, nor what they are given."""
import os
import sys
import threading

from .. import badbin, badtext, refbin, reftext
from ..common import *
from ..engine import Unit
from ..refsym import Context
from ..tweak import tweak, twin
from . import chunking

ASSUMPTIONS = ['interleavings are of whole requests to coroutines, and of calls made from within read(), write() and iteration']

OPTS = Opts(max_depth=3, breadth=4, big=False, wide=False, unknown=False)


# -- tasks ----------------------------------------------------------------------------------------------------------------

def read_task(form, chunks, catalog):
    """Generator: one request per step; returns the model values, or 'refused'."""
    r = binary_reader() if form == 'binary' else text_reader(is_unicode=form == 'unicode')
    reader = managed_reader(r, catalog)
    keys, i, flushes = [], 0, 0
    request = NEXT_EVENT
    while True:
        try:
            e = reader.send(request)
            if not e.event_type.is_stream_signal:
                keys.append(event_key(e))
        except Violation:
            raise
        except Exception:
            return 'refused'
        yield
        request = NEXT_EVENT
        if e.event_type.is_stream_signal:
            if i < len(chunks):
                request = read_data_event(chunks[i])
                i += 1
            elif e.event_type is IonEventType.INCOMPLETE and flushes < 5:
                flushes += 1
            else:
                return values_of_keys(keys) if e.event_type is IonEventType.STREAM_END else 'refused'


def write_task(writer, events):
    out = bytearray()
    for e in events:
        try:
            r = writer.send(e)
            out.extend(r.data or b'')
            while r.type is WriteEventType.HAS_PENDING:
                yield
                r = writer.send(None)
                out.extend(r.data or b'')
        except Exception:
            return 'refused'
        yield
    return bytes(out)


def reference(form, data):
    """The values which a reference reader finds, or 'refused'."""
    try:
        if form == 'binary':
            return refbin.decode(data)
        return reftext.parse(data.decode('utf-8') if form == 'bytes' else data)
    except (refbin.Bad, reftext.Bad, UnicodeDecodeError):
        return 'refused'
    except (refbin.Unsure, reftext.Unsure):
        raise Discard


def gen_data(d, catalog_tables, may_fail=True):
    """(form, data, values or 'refused')"""
    k = d.weighted(((5, 'good'), (1 if may_fail else 0, 'bad')))
    form = d.choice(('binary', 'unicode', 'bytes'))
    if k == 'bad':
        if form == 'binary':
            try:
                data = refbin.IVM + badbin.embed(d, badbin.bad_value(d)[1], d.small(2))
            except refbin.Unsure:
                raise Discard
        else:
            data = badtext.embed(d, badtext.gen_bad(d)[1], d.small(2))
            if form == 'bytes':
                data = data.encode('utf-8', 'surrogatepass')
        return form, data, reference(form, data)
    values = gen_stream(d, OPTS, most=3, least=1)
    if form == 'binary':
        if catalog_tables and d.boolean():
            return form, dumps_stream(values, d, imports=[py_table(t) for t in catalog_tables]), values
        return form, refbin.Encoder(d).stream(values, symbols_of), values
    text = reftext.Renderer(d).stream(values, symbols_of)
    return form, text.encode('utf-8') if form == 'bytes' else text, values


def gen_task(d, tables, catalog, shared):
    """(description, function that starts the task, function that checks the result)"""
    if d.boolean():
        form, data, values = gen_data(d, tables)
        if not data or len(data) > 800:
            raise Discard
        chunks = gen_chunks(d, data)
        about = 'reading %s %s' % (form, clip(data, 300))

        def check(got, about):
            if (values == 'refused') != (got == 'refused'):
                raise Violation('%s, instead of %s\n%s' % (got if got == 'refused' else show_stream(got), values if values == 'refused' else show_stream(values), about))
            if values != 'refused':
                expect(values, got, about)
        return about, lambda: read_task(form, chunks, catalog), check
    values = gen_stream(d, OPTS, most=3)
    events = [ION_VERSION_MARKER_EVENT] + [e for v in values for e in to_events(v, d=d)]
    bad = d.chance(15)
    if bad:
        events.insert(d.integer(1, len(events)), IonEvent(IonEventType.SCALAR, IonType.STRING, object()))
    else:
        events.append(ION_STREAM_END_EVENT)
    kind = d.choice(('binary', 'text', 'imports'))
    imports = shared if kind == 'imports' else None
    indent = d.choice(INDENTS)
    about = 'writing %s%s as %s' % (show_stream(values), ' and a fault' if bad else '', kind)

    def start():
        return write_task(text_writer(indent=indent) if kind == 'text' else binary_writer(imports), events)

    def check(got, about):
        if (got == 'refused') != bad:
            raise Violation('%r\n%s' % (got, about))
        if not bad:
            try:
                back = reftext.parse(got.decode('utf-8')) if kind == 'text' else refbin.decode(got, Context(Catalog(tables)))
            except Exception as e:
                raise Violation('not valid: %s: %s\n%s' % (e, clip(got), about))
            expect(values, back, about)
    return about, start, check


def interleaved(d):
    """Several readers and writers whose steps are interleaved do what each does on its own."""
    tables = gen_shared_tables(d)
    catalog = py_catalog(tables)
    shared = [py_table(t) for t in tables]
    tasks = [gen_task(d, tables, catalog, shared) for _ in range(2 + d.small(2))]
    order = [d.draw(len(tasks) - 1) for _ in range(20 + d.small(40))]
    d.case(([t[0] for t in tasks], order), ' | '.join(t[0] for t in tasks))
    d.nontrivial()
    about = ' | '.join(t[0] for t in tasks)
    alone = []
    for name, start, check in tasks:
        got = finish(start())
        check(got, 'alone: ' + about)
        alone.append(got)
    # the same again, interleaved, with the same tables and catalog; leftovers of the first run may not matter
    running = [start() for _, start, _ in tasks]
    results = [None] * len(tasks)
    step = 0
    while any(r is not None for r in running):
        i = order[step % len(order)] if step < 3000 else step % len(running)
        step += 1
        if running[i] is None:
            i = next(j for j, r in enumerate(running) if r is not None)
        try:
            next(running[i])
        except StopIteration as e:
            results[i], running[i] = e.value, None
    for (name, start, check), got, before in zip(tasks, results, alone):
        check(got, 'interleaved: %s of %s' % (name, about))
        if type(got) is bytes and got != before:
            raise Violation('%s gives %s alone and %s interleaved with %s' % (name, clip(before), clip(got), about))


def finish(gen):
    while True:
        try:
            next(gen)
        except StopIteration as e:
            return e.value


# -- calls within calls -----------------------------------------------------------------------------------------------------

class Calls(object):
    """Makes other calls of the library, some of which fail, whenever it is told to."""

    def __init__(self, d, tables):
        self.todo = []
        self.tables = tables
        for _ in range(1 + d.small(2)):
            k = d.choice(('loads', 'dumps'))
            if k == 'loads':
                form, data, values = gen_data(d, [])
                self.todo.append((k, data, values))
            else:
                values = gen_stream(d, OPTS, most=2)
                self.todo.append((k, [to_py(v, d) for v in values] + ([object()] if d.chance(20) else []), values))
        self.n = 0

    def __call__(self):
        k, x, values = self.todo[self.n % len(self.todo)]
        self.n += 1
        if self.n > 60:
            return
        if k == 'loads':
            status, got = attempt(lambda: from_py_stream(simpleion.loads(x, single_value=False)))
            if (status != 'ok') != (values == 'refused'):
                raise Violation('a call within another call: loads of %s: %r' % (clip(x), got))
            if status == 'ok':
                expect(values, got, 'a call within another call: loads of %s' % clip(x))
            return
        bad = bool(x) and type(x[-1]) is object
        for binary in (True, False):
            status, got = attempt(simpleion.dumps, x, binary=binary, sequence_as_stream=True)
            if (status != 'ok') != bad:
                raise Violation('a call within another call: dumps of %s: %r' % (show_stream(values), got))
            if status == 'ok':
                back = refbin.decode(got) if binary else reftext.parse(got)
                expect(values, back, 'a call within another call: dumps gives %s' % clip(got))


class CallingFile(ShortReads):
    def read(self, n=-1):
        self.calls()
        return ShortReads.read(self, n)


class CallingSink(object):
    def __init__(self, calls):
        self.calls = calls
        self.data = b''

    def write(self, b):
        self.calls()
        self.data += bytes(b)
        return len(b)


class CallingList(list):
    calls = None

    def __iter__(self):
        for x in list.__iter__(self):
            self.calls()
            yield x


class CallingCatalog(SymbolTableCatalog):
    def __init__(self, calls):
        SymbolTableCatalog.__init__(self)
        self.calls = calls

    def resolve(self, *args, **kw):
        self.calls()
        return SymbolTableCatalog.resolve(self, *args, **kw)


def within(d):
    """Calls made from within read(), write(), the iteration of a list or of imports and a catalog during another call."""
    calls = Calls(d, [])
    k = d.choice(('load', 'dump', 'both', 'dumps', 'imports'))
    values = gen_stream(d, OPTS, most=3, least=1)
    binary = d.boolean()
    d.case((k, values, binary, [repr(t[1])[:200] for t in calls.todo]), '%s %s of %s with %d other calls' % (k, 'binary' if binary else 'text', show_stream(values), len(calls.todo)))
    d.label(k)
    d.nontrivial()
    about = '%s of %s during which %r' % (k, show_stream(values), [(t[0], clip(t[1], 200)) for t in calls.todo])
    if k == 'load':
        data = refbin.Encoder(d).stream(values, symbols_of) if binary else reftext.Renderer(d).stream(values, symbols_of).encode('utf-8')
        fp = CallingFile(data, [1 + d.small(20)], 4)
        fp.calls = calls
        got = must('load', simpleion.load, fp, single_value=False)
        expect(values, from_py_stream(got), about)
    elif k == 'imports':
        tables = CallingList([py_table(t) for t in gen_shared_tables(d)])
        tables.calls = calls
        catalog = CallingCatalog(calls)
        for t in list.__iter__(tables):
            catalog.register(t)
        data = must('dumps', simpleion.dumps, [to_py(v, d) for v in values], tables, sequence_as_stream=True)
        got = must('loads', simpleion.loads, data, catalog, single_value=False)
        expect(values, from_py_stream(got), about)
    else:
        obj = [to_py(v, d) for v in values]
        if k != 'dump':
            obj = CallingList(obj)
            obj.calls = calls
        if k == 'dumps':
            data = must('dumps', simpleion.dumps, obj, binary=binary)
            got = refbin.decode(data) if binary else reftext.parse(data)
            expect([mk('list', values)], got, about)
            return
        sink = CallingSink(calls)
        must('dump', simpleion.dump, obj, sink, binary=binary)
        got = refbin.decode(sink.data) if binary else reftext.parse(sink.data.decode('utf-8'))
        expect([mk('list', values)], got, about)


# -- threads ------------------------------------------------------------------------------------------------------------------

_CODE = os.path.dirname(os.path.abspath(simpleion.__file__)) + os.sep


def traced(fn, at_line):
    """Calls ``fn`` and, before every line of the library that it executes, ``at_line(where)``."""
    def local(frame, event, arg):
        if event == 'line':
            at_line((frame.f_code.co_filename, frame.f_lineno))
        return local

    def start(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(_CODE) else None

    before = sys.gettrace()
    sys.settrace(start)
    try:
        return fn()
    finally:
        sys.settrace(before)


def preempted(d):
    """Calls during which another thread makes calls, at any line of theirs."""
    calls = Calls(d, [])
    form, data, values = gen_data(d, [])
    load = d.boolean()
    if load:
        def outer():
            status, got = attempt(lambda: from_py_stream(simpleion.loads(data, single_value=False)))
            return 'refused' if status != 'ok' else got
    else:
        values = gen_stream(d, OPTS, most=3, least=1)
        obj = [to_py(v, d) for v in values]
        form = d.choice(('binary', 'text'))

        def outer():
            return must('dumps', simpleion.dumps, obj, binary=form == 'binary', sequence_as_stream=True)
    what = '%s %s of %s' % ('loads' if load else 'dumps', form, clip(data) if load else show_stream(values))
    # Every line is as likely as any other, and so is every time at which it is executed.
    lines = {}

    def count(where):
        lines[where] = lines.get(where, 0) + 1
    traced(outer, count)
    places = sorted(lines)
    points = set()
    for _ in range(1 + d.small(40)):
        start = d.begin()
        where = places[d.draw(len(places) - 1)]
        points.add((where, 1 + d.draw(lines[where] - 1)))
        d.end(start)
    shown = ', '.join('%s:%d (time %d)' % (os.path.basename(f), n, time) for (f, n), time in sorted(points))
    d.case((what, shown, [repr(t[1])[:200] for t in calls.todo]), '%s, preempted at %s' % (what, shown))
    d.label('loads' if load else 'dumps')
    d.nontrivial()
    seen, problems = {}, []

    def other():
        try:
            calls()
        except Exception as e:
            problems.append(e)

    def switch(here):
        if here in lines:
            seen[here] = seen.get(here, 0) + 1
            if (here, seen[here]) in points:
                thread = threading.Thread(target=other)
                thread.daemon = True
                thread.start()
                thread.join(5)  # unless it waits for a lock
    about = '%s, during which another thread, at %s, does %r' % (what, shown, [(t[0], clip(t[1], 200)) for t in calls.todo])
    got = traced(outer, switch)
    if not load:
        got = refbin.decode(got) if form == 'binary' else reftext.parse(got)
    if got == 'refused' or values == 'refused':
        if got != values:
            raise Violation('%s: %r' % (about, got))
    else:
        expect(values, got, about)
    for e in problems:
        raise Violation('%s in another thread, started at %s of %s' % (e, shown, what))


# -- arguments and results ----------------------------------------------------------------------------------------------------

def snapshot(table):
    return (table.name, table.version, table.max_id, table.is_substitute, [(t.text, t.sid, t.location) for t in table])


def spoil(obj, seen=None):
    """Changes whatever can be changed in a loaded value."""
    if isinstance(obj, list):
        for x in list(obj):
            spoil(x)
        obj.append(5)
        if len(obj) > 1:
            obj[0] = None
    elif isinstance(obj, Multimap):
        for _, x in list(obj.items()):
            spoil(x)
        for name in list(obj):
            obj.add_item(name, 1)
            obj.get_all_values(name).append(2)
        obj['spoiled'] = 3
    if hasattr(obj, 'ion_annotations'):
        if isinstance(obj.ion_annotations, list):
            obj.ion_annotations.append('spoiled')
        obj.ion_annotations = ('spoiled',)
        obj.ion_type = IonType.BLOB


def arguments(d):
    """Calls leave their arguments alone; results share nothing with each other or with arguments."""
    values = gen_stream(d, OPTS, most=3, least=1)
    tables = gen_shared_tables(d)
    py_tables = [py_table(t) for t in tables]
    catalog = SymbolTableCatalog()
    for t in py_tables:
        catalog.register(t)
    binary = d.boolean()
    obj = [to_py(v, d) for v in values]
    kw = {'binary': binary, 'sequence_as_stream': True}
    if binary:
        kw['imports'] = d.choice((py_tables, tuple(py_tables)))
    d.case((values, binary, [t.name for t in tables]), '%s as %s with imports %r' % (show_stream(values), 'binary' if binary else 'text', [t.name for t in tables]))
    note_value(d, values)
    about = '%s as %s' % (show_stream(values), 'binary' if binary else 'text')
    before = [snapshot(t) for t in py_tables]
    shape = describe(obj)
    first = must('dumps', simpleion.dumps, obj, **kw)
    if describe(obj) != shape:
        raise Violation('dumps changed its argument: %s' % about)
    if [snapshot(t) for t in py_tables] != before or len(kw.get('imports', ())) not in (0, len(tables)):
        raise Violation('dumps changed the tables it was to import: %s' % about)
    if must('dumps', simpleion.dumps, obj, **kw) != first:
        raise Violation('dumps gives something else the second time: %s' % about)
    source = first
    if isinstance(first, bytes) and d.boolean():
        source = bytearray(first)
    a = must('loads', simpleion.loads, bytes(source) if isinstance(source, bytearray) else source, catalog=catalog, single_value=False)
    expect(values, from_py_stream(a), about)
    b = must('loads', simpleion.loads, first, catalog=catalog, single_value=False)
    spoil(a)
    expect(values, from_py_stream(b), 'changing one result changed another one: %s' % about)
    c = must('loads', simpleion.loads, first, catalog=catalog, single_value=False)
    expect(values, from_py_stream(c), 'changing a result changed a later one: %s' % about)
    if [snapshot(t) for t in py_tables] != before:
        raise Violation('loads changed the tables of the catalog: %s' % about)
    for t, p in zip(tables, py_tables):
        got = catalog.resolve(t.name, t.version, len(t.texts))
        if got is not p and snapshot(got) != snapshot(p):
            raise Violation('the catalog resolves %r to something else than was registered: %s' % (t.name, about))
    # a changed argument does not change what was written
    spoil(obj)
    expect(values, loads_stream(first, catalog=catalog), 'changing the argument changed what was written: %s' % about)


def describe(obj):
    """Everything there is to see of an object."""
    if isinstance(obj, (list, tuple)) and not isinstance(obj, SymbolToken):
        inner = [describe(x) for x in obj]
    elif isinstance(obj, (dict, Multimap)):
        inner = [(repr(k), describe(x)) for k, x in obj.items()]
    elif isinstance(obj, Timestamp):
        inner = (repr(obj), obj.fractional_seconds.as_tuple())
    elif isinstance(obj, IonPyNull):
        inner = 'null'
    else:
        inner = repr(obj)
    return type(obj).__name__, inner, repr(getattr(obj, 'ion_type', None)), repr(getattr(obj, 'ion_annotations', None))


def failures(d):
    """Good calls after failed ones, in any order, with the same tables."""
    tables = gen_shared_tables(d)
    calls = Calls(d, tables)
    for _ in range(2 + d.small(3)):
        calls.todo += Calls(d, tables).todo
    d.case([(t[0], repr(t[1])[:300]) for t in calls.todo], '; '.join('%s %s' % (t[0], clip(t[1], 120)) for t in calls.todo))
    d.nontrivial(any(t[2] == 'refused' or t[0] == 'dumps' and t[1] and type(t[1][-1]) is object for t in calls.todo))
    for _ in calls.todo:
        calls()


def resembling(d):
    """Calls with values that resemble each other, the same process serving all of them."""
    v = gen_scalar(d, OPTS) if d.chance(70) else gen_value(d, OPTS, 2)
    values = [v]
    for _ in range(1 + d.small(4)):
        x = d.choice(values)
        k = d.weighted(((7, 'twin'), (2, 'tweak'), (1, 'same')))
        if k == 'twin':
            x = twin(d, x, OPTS)
        elif k == 'tweak':
            x = tweak(d, x)
        values.append(x)
    values = [mk(x[0], x[1], ('q',) + x[2]) if is_system_value(x) else x for x in values]
    i, calls = 0, []
    while i < len(values):
        n = 1 + d.small(3)
        calls.append((values[i:i + n], d.choice(('binary', 'text')), d.choice(('dumps', 'loads', 'both'))))
        i += n
    about = '; '.join('%s %s %s' % (how, form, show_stream(part)) for part, form, how in calls)
    d.case(about)
    d.nontrivial(len(set(values)) > 1)
    for part, form, how in calls:
        binary = form == 'binary'
        if how == 'loads':
            data = refbin.Encoder(d).stream(part, symbols_of) if binary else reftext.Renderer(d).stream(part, symbols_of)
        else:
            data = must('dumps', simpleion.dumps, [to_py(x, d) for x in part], binary=binary, sequence_as_stream=True)
            expect(part, refbin.decode(data) if binary else reftext.parse(data), about)
        if how != 'dumps':
            expect(part, must('loads', loads_stream, data), about)


UNITS = [
    Unit('resembling', resembling, 3000, 150000, 'the values are not all the same'),
    Unit('interleaved', interleaved, 1500, 80000, 'all'),
    Unit('within', within, 1200, 50000, 'all'),
    Unit('preempted', preempted, 1000, 60000, 'all'),
    Unit('arguments', arguments, 1500, 100000, 'more than one plain scalar'),
    Unit('failures', failures, 1000, 50000, 'some call fails'),
]
