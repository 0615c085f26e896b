"""C02: text round trip."""
from ..common import *
from ..engine import Unit

ASSUMPTIONS = ['ints and decimal coefficients stay below 4300 digits (the interpreter refuses to convert longer ones to '
               'and from text)',
               'symbols have known text or are symbol zero; local times stay within the years 1 to 9999 in UTC as well']


def options(d):
    return {'binary': False, 'indent': d.choice(INDENTS) if d.boolean() else None,
            'omit_version_marker': d.boolean()}


def both(text, values, kw, what=''):
    """Reads text as str and as UTF-8 octets."""
    if not isinstance(text, str):
        raise Violation('dumps(binary=False) returned %s' % type(text).__name__)
    for data in (text, text.encode('utf-8')):
        got = must('%sloads of %s (%r)' % (what, clip(data), kw), loads_stream, data)
        expect(values, got, '%stext (%r): %s' % (what, kw, clip(data)))


def stream(d):
    values = gen_stream(d, Opts(), most=4, least=1)
    kw = options(d)
    objs = [to_py(v, d) for v in values]
    d.case((values, kw), show_stream(values) + ' %r' % (kw,))
    note_value(d, values)
    text = must('dumps', simpleion.dumps, objs, sequence_as_stream=True, **kw)
    both(text, values, kw)


def single(d):
    v = gen_top(d)
    kw = options(d)
    obj = to_py(v, d)
    d.case((v, kw), show(v) + ' %r' % (kw,))
    note_value(d, [v])
    text = must('dumps', simpleion.dumps, obj, **kw)
    got = must('loads of %s' % clip(text), simpleion.loads, text)
    expect([v], [from_py(got)], 'text: %s' % clip(text))
    fp = io.BytesIO()
    must('dump', simpleion.dump, obj, fp, **kw)
    fp.seek(0)
    expect([v], [from_py(must('load', simpleion.load, fp))], 'text: %s' % clip(fp.getvalue()))
    again = must('dumps of the loaded value', simpleion.dumps, got, **kw)
    expect([v], [from_py(must('loads', simpleion.loads, again))], 'second generation: %s' % clip(again))


def scalar(d):
    kind = d.choice(('int', 'float', 'decimal', 'timestamp', 'symbol', 'string', 'blob', 'clob'))
    values = [gen_scalar(d, Opts(annotations=d.chance(20)), (kind,)) for _ in range(1 + d.small(5))]
    values = [mk(v[0], v[1], ('q',) + v[2]) if is_system_value(v) else v for v in values]
    inside = d.choice(('list', 'sexp', 'struct', None))
    if inside == 'struct':
        values = [mk('struct', [(gen_symbol_text(d), v) for v in values])]
    elif inside:
        values = [mk(inside, values)]
    objs = [to_py(v, d) for v in values]
    kw = options(d)
    d.case((values, kw), show_stream(values) + ' %r' % (kw,))
    d.label(kind)
    d.nontrivial()
    both(must('dumps', simpleion.dumps, objs, sequence_as_stream=True, **kw), values, kw)


def events(d):
    """Writer events, with flushes, through a managed reader back to events."""
    values = gen_stream(d, Opts(), most=4, least=1)
    flush = [d.chance(25) for _ in values]
    indent = d.choice(INDENTS) if d.boolean() else None
    evs = []
    if d.boolean():
        evs.append(ION_VERSION_MARKER_EVENT)
    for v, f in zip(values, flush):
        evs += list(to_events(v, d=d, depth=0))
        if f:
            evs.append(ION_STREAM_END_EVENT)
    evs.append(ION_STREAM_END_EVENT)
    is_unicode = d.boolean()
    d.case((values, flush, indent), show_stream(values) + ' flush after %r, indent %r' % (flush, indent))
    note_value(d, values)
    data = must('text_writer', write_events, evs, text_writer(indent=indent))
    if is_unicode:
        data = data.decode('utf-8')
    if not data:
        expect(values, [])
        return
    about = 'data: %s' % clip(data)
    expect(values, read_tree(managed_reader(text_reader(is_unicode=is_unicode)), [data], about), about)


UNITS = [
    Unit('stream', stream, 6000, 300000, 'more than one plain scalar'),
    Unit('single', single, 3000, 100000, 'more than one plain scalar'),
    Unit('scalar', scalar, 6000, 300000, 'every case (representation boundaries)'),
    Unit('events', events, 2500, 100000, 'more than one plain scalar'),
]
