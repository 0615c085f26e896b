"""C22: load() and dump() treat files as streams of values."""
import os
import tempfile

from .. import refbin, reftext
from ..common import *
from ..engine import Unit

ASSUMPTIONS = ['where load() leaves the position of a file is not judged', 'files whose very first read(4) is short are not judged']

OPTS = Opts(max_depth=3, breadth=4, big=False, wide=False, unknown=False)


def gen_values(d, most=4):
    return gen_stream(d, OPTS, most=most)


class Source(object):
    """Opens data in one of many ways; ``before`` has been read already when load() gets the file."""

    KINDS = ('bytes', 'BytesIO', 'file', 'raw file', 'BufferedReader', 'short reads', 'pipe-like', 'str', 'StringIO', 'text file')

    def __init__(self, d, data, before):
        self.text = isinstance(data, str)
        self.closers = []
        self.data = data
        if self.text:
            self.kind = d.choice(('str', 'StringIO', 'text file'))
        else:
            self.kind = d.choice(('bytes', 'BytesIO', 'file', 'raw file', 'BufferedReader', 'short reads'))
        if self.kind in ('bytes', 'str'):
            before = data[:0]
        self.before = before
        self.sizes = [1 + d.small(9) for _ in range(1 + d.small(3))]
        self.how = d.draw(1)
        self.single_args = None

    def open(self):
        whole = self.before + self.data
        n = len(self.before)
        k = self.kind
        if k in ('bytes', 'str'):
            return self.data
        if k == 'BytesIO':
            fp = io.BytesIO(whole)
        elif k == 'StringIO':
            fp = io.StringIO(whole, newline='')
        elif k == 'short reads':
            # the first read decides whether the data is text or binary
            fp = ShortReads(whole, self.sizes, whole=n + 4)
            fp.pos = n
            return fp
        elif k == 'BufferedReader':
            fp = io.BufferedReader(io.BytesIO(whole), 16)
        else:
            f = tempfile.NamedTemporaryFile(prefix='ionpbt-', delete=False)
            f.write(whole.encode('utf-8') if self.text else whole)
            f.close()
            self.closers.append(lambda: os.unlink(f.name))
            if self.text:
                fp = open(f.name, 'r', encoding='utf-8', newline='')
            else:
                fp = open(f.name, 'rb', 0 if k == 'raw file' else -1)
            self.closers.append(fp.close)
        if self.how and not self.text:
            fp.seek(n)
        else:
            got = fp.read(n)
            if got != whole[:n]:
                raise HarnessError('could not read what comes before')
        return fp

    def load(self, **kw):
        fp = self.open()
        try:
            if self.kind in ('bytes', 'str'):
                return simpleion.loads(fp, **kw)
            return simpleion.load(fp, **kw)
        finally:
            for c in reversed(self.closers):
                c()
            self.closers = []


def encode(d, values, binary):
    k = d.draw(2)
    if k == 0:
        return simpleion.dumps([to_py(v, d) for v in values], binary=binary, sequence_as_stream=True)
    if binary:
        return refbin.Encoder(d).stream(values, symbols_of)
    return reftext.Renderer(d).stream(values, symbols_of)


def reading(d):
    """Any kind of file, from its current position; one value or all of them."""
    values = gen_values(d)
    binary = d.boolean()
    data = encode(d, values, binary)
    if not binary and d.boolean():
        data = data.encode('utf-8')
    before = d.choice(('', 'junk {[(', 'x' * 40, '\xe9\n')) if isinstance(data, str) else d.choice((b'', b'junk', b'\xe0\x01\x00\xea\x0f', b'\0' * 33, b'['))
    src = Source(d, data, before)
    single = d.choice((None, True, False))
    d.case((data, src.kind, src.before, single), '%s of %s after %r, single_value=%r' % (src.kind, clip(data), src.before, single))
    d.label(src.kind)
    d.nontrivial(len(values) != 1 or bool(src.before))
    kw = {} if single is None else {'single_value': single}
    about = '%s of %s after %r, %r' % (src.kind, clip(data), src.before, kw)
    if single is False:
        got = must(about, src.load, **kw)
        if type(got) is not list:
            raise Violation('load returned a %s: %s' % (type(got).__name__, about))
        expect(values, from_py_stream(got), about)
        return
    status, got = attempt(src.load, **kw)
    if len(values) == 1:
        if status != 'ok':
            raise Violation('%s raised %r' % (about, got))
        expect(values, [from_py(got)], about)
    elif status == 'ok':
        raise Violation('%d values were loaded as a single one: %r\n%s' % (len(values), got, about))
    elif not isinstance(got, IonException):
        raise Violation('%d values instead of one raised %r\n%s' % (len(values), got, about))


def concatenation(d):
    """Streams that were written one after the other are read as one."""
    binary = d.boolean()
    parts = [gen_values(d, 3) for _ in range(1 + d.small(4))]
    fp = io.BytesIO()
    values, ways = [], []
    for vs in parts:
        k = d.weighted(((3, 'dump'), (3, 'dump stream'), (2, 'dumps'), (2, 'reference'), (2, 'events')))
        ways.append(k)
        kw = {'binary': binary}
        if not binary:
            kw['indent'] = d.choice(INDENTS)
            kw['omit_version_marker'] = d.boolean()
        at = fp.tell()
        if k == 'dump':
            for v in vs:
                simpleion.dump(to_py(v, d), fp, **kw)
                if not binary:
                    fp.write(b'\n')
        elif k == 'dump stream':
            simpleion.dump([to_py(v, d) for v in vs], fp, sequence_as_stream=True, **kw)
        elif k == 'dumps':
            data = simpleion.dumps([to_py(v, d) for v in vs], sequence_as_stream=True, **kw)
            fp.write(data if binary else data.encode('utf-8'))
        elif k == 'reference':
            if binary:
                fp.write(refbin.Encoder(d).stream(vs, symbols_of))
            else:
                # a stream may begin in the middle of another one's symbol table, so it has to begin anew
                fp.write(b'$ion_1_0 ' + reftext.Renderer(d).stream(vs, symbols_of).encode('utf-8'))
        else:
            evs = [ION_VERSION_MARKER_EVENT] + [e for v in vs for e in to_events(v, d=d)] + [ION_STREAM_END_EVENT]
            w = blocking_writer(binary_writer() if binary else text_writer(), fp)
            for e in evs:
                w.send(e)
        if not binary:
            # a reference text may end within a line comment
            fp.write((b'\n' if k == 'reference' else b'') + d.choice((b' ', b'\n', b'\r\n', b'/**/', b' //x\n')))
        values += vs
        if fp.closed:
            raise Violation('dump closed the file')
        if fp.tell() < at:
            raise Violation('dump moved the file backwards')
    data = fp.getvalue()
    d.case(data, '%r in %s: %s' % (ways, 'binary' if binary else 'text', clip(data)))
    d.nontrivial(len(parts) > 1)
    if not data:
        raise Discard
    if binary and data[:4] != b'\xe0\x01\x00\xea':
        raise Violation('a binary stream begins with %r' % data[:4])
    src = Source(d, data, b'')
    about = '%r by %s' % (clip(data), src.kind)
    expect(values, from_py_stream(must(about, src.load, single_value=False)), about)
    if not binary:
        src = Source(d, data.decode('utf-8'), '')
        expect(values, from_py_stream(must(about, src.load, single_value=False)), 'as text: ' + about)


class Sink(object):
    """A file which can only be written to."""

    def __init__(self):
        self.parts = []

    def write(self, b):
        if not isinstance(b, (bytes, bytearray, memoryview)):
            raise Violation('write(%r)' % (b,))
        self.parts.append(bytes(b))
        return len(b)


def writing(d):
    """dump() writes to the current position what dumps() returns; equal calls give equal results."""
    values = gen_values(d)
    obj = [to_py(v, d) for v in values]
    stream = d.boolean()
    plain_sequence = True
    if len(values) == 1 and d.boolean():
        obj = obj[0]
        plain_sequence = False
    elif d.boolean():
        obj = tuple(obj)
    kw = {'binary': d.boolean(), 'sequence_as_stream': stream}
    if not kw['binary']:
        kw['indent'] = d.choice(INDENTS)
        kw['omit_version_marker'] = d.boolean()
    d.case((values, stream, type(obj).__name__, kw), '%s with %r' % (show_stream(values), kw))
    d.nontrivial(len(values) > 0)
    data = must('dumps', simpleion.dumps, obj, **kw)
    octets = data if kw['binary'] else data.encode('utf-8')
    about = '%s with %r' % (clip(data), kw)
    sink = Sink()
    must('dump', simpleion.dump, obj, sink, **kw)
    if b''.join(sink.parts) != octets:
        raise Violation('dump wrote %s, dumps returned %s' % (clip(b''.join(sink.parts)), about))
    fp = io.BytesIO(b'0123456789' * 30)
    fp.seek(5)
    must('dump', simpleion.dump, obj, fp, **kw)
    rest = (b'0123456789' * 30)[5 + len(octets):]
    if fp.getvalue() != b'01234' + octets + rest or fp.closed:
        raise Violation('dump did not write at the current position: %s, %s' % (clip(fp.getvalue()), about))
    if must('dumps', simpleion.dumps, obj, **kw) != data:
        raise Violation('dumps returned something else the second time: ' + about)
    # the stream is the sequence, or its elements
    if isinstance(obj, (list, tuple)) and plain_sequence:
        want = values if stream else [mk('list', values)]
    elif stream and values[0][0] in ('list', 'sexp'):
        want = list(values[0][1])
        if any(is_system_value(v) for v in want):
            return
    else:
        want = values
    expect(want, loads_stream(data) if octets else [], about)


def empty(d):
    """Streams without values."""
    data = d.choice(('', ' ', '\n', '$ion_1_0', '$ion_1_0 ', '//c', '/**/', b'', b' ', b'\xe0\x01\x00\xea', b'\xe0\x01\x00\xea\x00', b'\xe0\x01\x00\xea\xe0\x01\x00\xea',
                     b'\xe0\x01\x00\xea\xe3\x81\x83\xd0', b'$ion_1_0\n', b'$ion_symbol_table::{symbols:["a"]}', '$ion_symbol_table::{}', '\r\n\t /* */ //\n',
                     b'\xe0\x01\x00\xea\x01\xff', b'\xe0\x01\x00\xea\x0e\x83abc'))
    before = data[:0]
    src = Source(d, data, before)
    d.case((data, src.kind), '%s of %r' % (src.kind, data))
    d.nontrivial()
    got = must('load of %r' % (data,), src.load, single_value=False)
    if got != [] or type(got) is not list:
        raise Violation('%r has the values %r' % (data, got))
    status, got = attempt(src.load)
    if status == 'ok' or not isinstance(got, IonException):
        raise Violation('%r as a single value gives %r' % (data, got))


UNITS = [
    Unit('reading', reading, 8000, 250000, 'not exactly one value, or the file is not at its beginning'),
    Unit('concatenation', concatenation, 5000, 150000, 'more than one part'),
    Unit('writing', writing, 6000, 200000, 'at least one value'),
    Unit('empty', empty, 1200, 6000, 'all'),
]
