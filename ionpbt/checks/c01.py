"""C01: binary round trip."""
from ..common import *
from ..engine import Unit

ASSUMPTIONS = ['ints and decimal coefficients stay below 4300 digits (the interpreter refuses to convert longer ones to '
               'and from text)',
               'symbols have known text or are symbol zero; local times stay within the years 1 to 9999 in UTC as well']


def stream(d):
    """dumps/loads of a stream of values."""
    values = gen_stream(d, Opts(), most=4, least=1)
    tables = gen_shared_tables(d) if d.chance(20) else []
    objs = [to_py(v, d) for v in values]
    d.case((values, repr(tables)), show_stream(values) + (' imports %r' % tables if tables else ''))
    note_value(d, values)
    kw = {'imports': [py_table(t) for t in tables]} if tables else {}
    data = must('dumps', simpleion.dumps, objs, binary=True, sequence_as_stream=True, **kw)
    got = must('loads of %s' % clip(data), loads_stream, data, py_catalog(tables) if tables else None)
    expect(values, got, 'octets: %s' % clip(data))


def single(d):
    """dumps/loads of one value, and dump/load through a file."""
    v = gen_top(d)
    obj = to_py(v, d)
    d.case(v, show(v))
    note_value(d, [v])
    data = must('dumps', simpleion.dumps, obj)
    got = must('loads of %s' % clip(data), simpleion.loads, data)
    expect([v], [from_py(got)], 'octets: %s' % clip(data))
    fp = io.BytesIO()
    must('dump', simpleion.dump, obj, fp)
    fp.seek(0)
    expect([v], [from_py(must('load', simpleion.load, fp))], 'octets: %s' % clip(fp.getvalue()))
    # what was loaded can be written again, and the second generation is the first one
    again = must('dumps of the loaded value', simpleion.dumps, got)
    expect([v], [from_py(must('loads', simpleion.loads, again))], 'second generation: %s' % clip(again))


def scalar(d):
    """One scalar type at a time, many values: representation boundaries."""
    kind = d.choice(('int', 'float', 'decimal', 'timestamp', 'symbol', 'string', 'blob', 'clob'))
    values = [gen_scalar(d, Opts(annotations=d.chance(20)), (kind,)) for _ in range(1 + d.small(5))]
    values = [mk(v[0], v[1], ('q',) + v[2]) if is_system_value(v) else v for v in values]
    inside = d.choice(('list', 'sexp', 'struct', None))
    if inside == 'struct':
        values = [mk('struct', [(gen_symbol_text(d), v) for v in values])]
    elif inside:
        values = [mk(inside, values)]
    objs = [to_py(v, d) for v in values]
    d.case(values, show_stream(values))
    d.label(kind)
    d.nontrivial()
    data = must('dumps', simpleion.dumps, objs, sequence_as_stream=True)
    expect(values, must('loads of %s' % clip(data), loads_stream, data), 'octets: %s' % clip(data))


def events(d):
    """Writer events (with flushes at generated places) through a managed reader back to events."""
    values = gen_stream(d, Opts(), most=4, least=1)
    flush = [d.chance(25) for _ in values]
    evs = []
    if d.boolean():
        evs.append(ION_VERSION_MARKER_EVENT)
    for v, f in zip(values, flush):
        evs += list(to_events(v, d=d, depth=0 if d.boolean() else None))
        if f:
            evs.append(ION_STREAM_END_EVENT)
    evs.append(ION_STREAM_END_EVENT)
    d.case((values, flush), show_stream(values) + ' flush after %r' % (flush,))
    note_value(d, values)
    data = must('binary_writer', write_events, evs, binary_writer())
    about = 'data: %s' % clip(data)
    expect(values, read_tree(managed_reader(binary_reader()), [data], about), about)


def large(d):
    """Long values and large symbol IDs."""
    values, tables = gen_large(d)
    objs = [to_py(v, d, 0) for v in values]
    d.case(sketch(values))
    d.nontrivial()
    kw = {'imports': [large_table(len(t.texts))[1] for t in tables]} if tables else {}
    data = must('dumps', simpleion.dumps, objs, sequence_as_stream=True, **kw)
    catalog = None
    if tables:
        catalog = SymbolTableCatalog()
        catalog.register(kw['imports'][0])
    about = '%d octets for %s' % (len(data), clip(sketch(values)))
    if difference_stream(values, must('loads: ' + about, loads_stream, data, catalog)):
        raise Violation('other values came back: ' + about)


UNITS = [
    Unit('stream', stream, 12000, 600000, 'more than one plain scalar'),
    Unit('single', single, 6000, 200000, 'more than one plain scalar'),
    Unit('scalar', scalar, 8000, 400000, 'every case (representation boundaries)'),
    Unit('large', large, 500, 8000, 'all'),
    Unit('events', events, 5000, 200000, 'more than one plain scalar'),
]
