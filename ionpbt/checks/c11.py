"""C11: what the binary writer produces is valid binary Ion, by an independent strict decoder."""
from .. import refbin
from ..common import *
from ..engine import Unit
from ..refsym import Bad, Context, Unsure

ASSUMPTIONS = ['ints and decimal coefficients stay below 4300 digits',
               'symbols have known text or are symbol zero; local times stay within the years 1 to 9999 in UTC as well']


def strict(values, data, tables=(), about=''):
    if not isinstance(data, (bytes, bytearray)):
        raise Violation('the output is %s' % type(data).__name__)
    data = bytes(data)
    try:
        got = refbin.decode(data, Context(Catalog(tables)))
    except Bad as e:
        raise Violation('not valid binary Ion: %s\noctets: %s\n%s' % (e, clip(data), about))
    except Unsure as e:
        raise Violation('the output depends on what the specification leaves open: %s\noctets: %s\n%s' % (e, clip(data), about))
    expect(values, got, 'octets: %s\n%s' % (clip(data), about))
    if data[:4] != refbin.IVM:
        raise Violation('no version marker at the start of %s' % clip(data))


def stream(d):
    values = gen_stream(d, Opts(), most=4, least=0 if d.chance(5) else 1)
    tables = gen_shared_tables(d) if d.chance(40) else []
    objs = [to_py(v, d) for v in values]
    if d.boolean() and tables:
        # use what the tables define
        texts = [t for table in tables for t in table.texts]
        for _ in range(d.small(3)):
            if texts:
                s = d.choice(texts)
                v = mk('struct', [(s, mk('symbol', d.choice(texts), (d.choice(texts),)))])
                values.append(v)
                objs.append(to_py(v, d))
    to_file = d.boolean()
    d.case((values, repr(tables)), show_stream(values) + (' imports %r' % tables if tables else ''))
    note_value(d, values)
    if tables:
        d.label('imports')
    kw = {'imports': [py_table(t) for t in tables]} if tables else {}
    if d.chance(20):
        # is documented to have no effect on binary
        kw['omit_version_marker'] = True
    if to_file:
        fp = io.BytesIO()
        must('dump', simpleion.dump, objs, fp, binary=True, sequence_as_stream=True, **kw)
        data = fp.getvalue()
    else:
        data = must('dumps', simpleion.dumps, objs, binary=True, sequence_as_stream=True, **kw)
    strict(values, data, tables)


def scalars(d):
    kind = d.choice(('int', 'float', 'decimal', 'timestamp', 'symbol', 'string', 'blob', 'clob', 'null', 'bool'))
    values = [gen_scalar(d, Opts(annotations=d.chance(20)), (kind,)) for _ in range(1 + d.small(6))]
    values = [mk(v[0], v[1], ('q',) + v[2]) if is_system_value(v) else v for v in values]
    if d.boolean():
        values = [mk(d.choice(('list', 'sexp')), values)]
    objs = [to_py(v, d) for v in values]
    d.case(values, show_stream(values))
    d.label(kind)
    d.nontrivial()
    strict(values, must('dumps', simpleion.dumps, objs, sequence_as_stream=True))


def events(d):
    """Events with flushes and explicit version markers; every flushed prefix is complete."""
    tables = gen_shared_tables(d) if d.chance(30) else []
    values = gen_stream(d, Opts(), most=5, least=1)
    flush = [d.chance(35) for _ in values]
    flush[-1] = True
    marker = d.boolean()
    d.case((values, flush, marker, repr(tables)), '%s flush after %r%s' % (show_stream(values), flush, ' imports %r' % tables if tables else ''))
    note_value(d, values)
    d.label('flushes: %d' % min(sum(flush), 4))
    writer = must('binary_writer', binary_writer, imports=tuple(py_table(t) for t in tables)) if tables else binary_writer()
    data = b''
    if marker:
        data += must('writing a version marker', write_events, [ION_VERSION_MARKER_EVENT], writer)
    for i, (v, f) in enumerate(zip(values, flush)):
        evs = list(to_events(v, d=None, depth=0 if i % 2 else None))
        if f:
            evs.append(ION_STREAM_END_EVENT)
        data += must('writing', write_events, evs, writer)
        if f:
            strict(values[:i + 1], data, tables, 'after the flush that follows value %d' % i)


def large(d):
    """Long values and large symbol IDs."""
    values, tables = gen_large(d)
    objs = [to_py(v, d, 0) for v in values]
    about = clip(sketch(values))
    d.case(sketch(values))
    d.nontrivial()
    kw = {'imports': [large_table(len(t.texts))[1] for t in tables]} if tables else {}
    data = must('dumps', simpleion.dumps, objs, sequence_as_stream=True, **kw)
    try:
        got = refbin.decode(data, Context(Catalog(tables)))
    except (Bad, Unsure) as e:
        raise Violation('not valid binary Ion: %s\n%s' % (clip(e), about))
    if difference_stream(values, got):
        raise Violation('the output denotes other values: %s' % about)


UNITS = [
    Unit('stream', stream, 12000, 500000, 'more than one plain scalar'),
    Unit('scalars', scalars, 12000, 500000, 'every case (representation boundaries)'),
    Unit('large', large, 500, 8000, 'all'),
    Unit('events', events, 8000, 300000, 'more than one plain scalar'),
]
