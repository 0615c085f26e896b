"""C12: what the text writer produces is valid text Ion, by an independent strict parser, whatever the options."""
import re

from .. import reftext
from ..common import *
from ..engine import Unit
from ..refsym import Bad, Unsure
from .c02 import options

ASSUMPTIONS = ['ints and decimal coefficients stay below 4300 digits',
               'symbols have known text or are symbol zero; local times stay within the years 1 to 9999 in UTC as well']


def strict(values, text, about):
    if not isinstance(text, str):
        raise Violation('the output is %s' % type(text).__name__)
    try:
        got = reftext.parse(text)
    except Bad as e:
        raise Violation('not valid text Ion: %s\ntext: %s\n%s' % (e, clip(text), about))
    except Unsure as e:
        raise Violation('the output depends on what the specification leaves open: %s\ntext: %s\n%s' % (e, clip(text), about))
    expect(values, got, 'text: %s\n%s' % (clip(text), about))
    return got


def stream(d):
    values = gen_stream(d, Opts(), most=4, least=1)
    kw = options(d)
    objs = [to_py(v, d) for v in values]
    to_file = d.boolean()
    d.case((values, kw), show_stream(values) + ' %r' % (kw,))
    note_value(d, values)
    if to_file:
        fp = io.BytesIO()
        must('dump', simpleion.dump, objs, fp, sequence_as_stream=True, **kw)
        text = fp.getvalue().decode('utf-8')
    else:
        text = must('dumps', simpleion.dumps, objs, sequence_as_stream=True, **kw)
    strict(values, text, repr(kw))
    marked = re.match(r'\$ion_1_0(\s|\Z)', text) is not None
    if marked == kw['omit_version_marker']:
        raise Violation('%s version marker: %s' % ('superfluous' if marked else 'no', clip(text)))


def scalars(d):
    kind = d.choice(('int', 'float', 'decimal', 'timestamp', 'symbol', 'string', 'blob', 'clob', 'null', 'bool'))
    values = [gen_scalar(d, Opts(annotations=d.chance(20)), (kind,)) for _ in range(1 + d.small(6))]
    values = [mk(v[0], v[1], ('q',) + v[2]) if is_system_value(v) else v for v in values]
    k = d.choice(('top', 'list', 'sexp', 'struct', 'annotations'))
    if k == 'struct':
        values = [mk('struct', [(gen_symbol_text(d), v) for v in values])]
    elif k in ('list', 'sexp'):
        values = [mk(k, values)]
    kw = options(d)
    objs = [to_py(v, d) for v in values]
    d.case((values, kw), show_stream(values) + ' %r' % (kw,))
    d.label(kind)
    d.nontrivial()
    strict(values, must('dumps', simpleion.dumps, objs, sequence_as_stream=True, **kw), repr(kw))


def symbols(d):
    """Symbols of every kind in every position: where quotes are needed."""
    n = 1 + d.small(4)
    values = []
    for _ in range(n):
        v = mk('symbol', gen_symbol_text(d), [gen_symbol_text(d) for _ in range(d.small(2))])
        k = d.choice(('top', 'list', 'sexp', 'struct', 'annotated'))
        if k in ('list', 'sexp'):
            v = mk(k, [v, mk('symbol', gen_symbol_text(d))])
        elif k == 'struct':
            v = mk('struct', [(gen_symbol_text(d), v), (gen_symbol_text(d), mk('int', 1))])
        elif k == 'annotated':
            v = mk(d.choice(('int', 'null')), 1, [gen_symbol_text(d)])
            if v[0] == 'null':
                v = mk('null', gen_null_name(d), v[2])
        values.append(mk(v[0], v[1], ('q',) + v[2]) if is_system_value(v) else v)
    kw = options(d)
    objs = [to_py(v, d) for v in values]
    d.case((values, kw), show_stream(values) + ' %r' % (kw,))
    d.nontrivial()
    strict(values, must('dumps', simpleion.dumps, objs, sequence_as_stream=True, **kw), repr(kw))


def gen_null_name(d):
    return d.choice(('null', 'int', 'symbol', 'struct', 'list', 'timestamp'))


def shape(d):
    """Layout: one line per top-level value without indentation; with it, one line per member, indented by depth."""
    values = gen_stream(d, Opts(big=False, max_depth=5, wide=False), most=3, least=1)
    indent = d.choice((' ', '  ', '    ', '\t', ' \t'))
    objs = [to_py(v, d) for v in values]
    d.case((values, indent), show_stream(values) + ' indent %r' % indent)
    d.nontrivial(any(v[0] in ('list', 'sexp', 'struct') and v[1] for v in values))
    compact = must('dumps', simpleion.dumps, objs, binary=False, sequence_as_stream=True)
    pretty = must('dumps', simpleion.dumps, objs, binary=False, sequence_as_stream=True, indent=indent)
    strict(values, compact, 'no indent')
    ordered = strict(values, pretty, 'indent %r' % indent)  # fields of a struct come in an order of the writer's choosing
    if '\n' in compact or '\r' in compact:
        raise Violation('newline without indent: %s' % clip(compact))
    # the number of lines of the indented text and the depth of each
    wants = []
    for empty in (1, 2):  # an empty container may take one line or two
        want = [0]  # version marker
        for v in ordered:
            lines(v, 0, want, empty)
        wants.append(want)
    got = []
    for line in pretty.split('\n'):
        if not line:
            continue
        depth = 0
        while line.startswith(indent, depth * len(indent)):
            depth += 1
        if line[depth * len(indent):][:1] in (' ', '\t'):
            raise Violation('odd indentation of line %r with indent %r in %s' % (line, indent, clip(pretty)))
        got.append(depth)
    if got not in wants:
        raise Violation('depths of lines are %r instead of %r with indent %r: %s' % (got[:80], wants[1][:80], indent, clip(pretty)))


def lines(v, depth, out, empty):
    out.append(depth)
    if v[0] in ('list', 'sexp', 'struct'):
        for x in v[1]:
            lines(x[1] if v[0] == 'struct' else x, depth + 1, out, empty)
        if v[1] or empty == 2:
            out.append(depth)


def events(d):
    values = gen_stream(d, Opts(), most=4, least=1)
    flush = [d.chance(30) for _ in values]
    flush[-1] = True
    marker = d.boolean()
    indent = d.choice(INDENTS) if d.boolean() else None
    d.case((values, flush, marker, indent), '%s flush after %r, indent %r' % (show_stream(values), flush, indent))
    note_value(d, values)
    writer = text_writer(indent=indent)
    data = b''
    if marker:
        data += must('writing a version marker', write_events, [ION_VERSION_MARKER_EVENT], writer)
    for i, (v, f) in enumerate(zip(values, flush)):
        evs = list(to_events(v, depth=0))
        if f:
            evs.append(ION_STREAM_END_EVENT)
        data += must('writing', write_events, evs, writer)
    strict(values, data.decode('utf-8'), 'flush after %r, indent %r' % (flush, indent))


UNITS = [
    Unit('stream', stream, 6000, 300000, 'more than one plain scalar'),
    Unit('scalars', scalars, 8000, 400000, 'every case (representation boundaries)'),
    Unit('symbols', symbols, 7000, 300000, 'every case (symbols in every position)'),
    Unit('shape', shape, 2500, 120000, 'there is a non-empty container'),
    Unit('events', events, 3000, 150000, 'more than one plain scalar'),
]
