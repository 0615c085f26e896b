"""C10: symbol IDs mean what the symbol tables in force at that point of the stream say."""
from .. import refbin, reftext
from ..common import *
from ..engine import Unit
from ..refsym import Bad, Context

ASSUMPTIONS = ['imports and symbols occur at most once in a local symbol table, and so do the fields of an import',
               'max_id of imports stays below 70,000']


def gen_import(d, tables):
    """(fields of an import structure)"""
    if tables and d.chance(70):
        t = d.choice(tables)
        name, version = t.name, t.version
        if d.chance(25):
            version = max(1, version + d.choice((-1, 1, 2)))
        size = len(t.texts)
    else:
        name, version, size = d.choice(TABLE_NAMES + ('nowhere',)), d.choice((1, 2, 3, 9, 10)), 3
    fields = [('name', mk('string', name))]
    if d.chance(8):
        fields = d.choice(([], [('name', mk('string', ''))], [('name', mk('string', '$ion'))], [('name', mk('symbol', 'name'))],
                           [('name', mk('null', 'string'))], [('name', mk('int', 1))]))
    if d.chance(85) or version != 1:
        v = mk('int', version)
        if d.chance(8):
            v = d.choice((mk('int', 0), mk('int', -1), mk('null', 'int'), mk('string', '1'), mk('decimal', (0, 1, 0)), mk('float', 2.0)))
        fields.append(('version', v))
    if d.chance(75):
        m = mk('int', d.choice((size, size, max(0, size - 1), size + 1, size + 3, 0, 1)))
        if d.chance(1):
            m = mk('int', d.choice((1 << 14, 1 << 14, 1 << 16)) - d.choice((9, 10, 11, 12)))
        if d.chance(8):
            m = d.choice((mk('int', -1), mk('null', 'int'), mk('string', '2'), mk('null', 'null'), mk('float', 2.0), mk('list', [])))
        fields.append(('max_id', m))
    if d.chance(10):
        fields.append((d.choice(('symbols', 'imports', '$ion')), mk('string', 'ignored')))
    fields = d.shuffle(fields)
    return mk('struct', fields)


FAR = (127, 128, 16383, 16384, 65535, 65536, (1 << 21) - 1, 1 << 21, 1 << 28, 1 << 31, 1 << 32, 1 << 35, 1 << 63, 1 << 64)

JUNK = (mk('null', 'string'), mk('null', 'null'), mk('int', 3), mk('symbol', 'name'), mk('list', (mk('string', 'z'),)), mk('blob', b'z'),
        mk('bool', True), mk('struct', ()))


def gen_local_table(d, tables):
    fields = []
    k = d.weighted(((4, 'none'), (4, 'append'), (5, 'list'), (1, 'junk')))
    if k == 'append':
        fields.append(('imports', mk('symbol', '$ion_symbol_table')))
    elif k == 'list':
        items = [gen_import(d, tables) for _ in range(d.small(3))]
        if d.chance(8):
            items.insert(d.integer(0, len(items)), d.choice(JUNK[:-1]))
        fields.append(('imports', mk('list', items)))
    elif k == 'junk':
        fields.append(('imports', d.choice((mk('null', 'list'), mk('int', 1), mk('symbol', 'name'), mk('null', 'null'), mk('sexp', ())))))
    k = d.weighted(((2, 'none'), (8, 'list'), (1, 'junk')))
    if k == 'list':
        items = []
        for _ in range(d.small(5) if not d.chance(4) else d.choice((110, 119, 130))):
            if d.chance(8):
                items.append(d.choice(JUNK))
            else:
                items.append(mk('string', d.choice(TABLE_TEXTS) if d.chance(60) else gen_symbol_text(d, None, False)))
        if d.chance(10):
            items = [mk(x[0], x[1], ('name',)) for x in items]
        fields.append(('symbols', mk('list', items)))
    elif k == 'junk':
        fields.append(('symbols', d.choice((mk('null', 'list'), mk('string', 'a'), mk('sexp', (mk('string', 'a'),)), mk('null', 'null'),
                                            mk('struct', (('name', mk('string', 'a')),))))))
    if d.chance(15):
        fields.append((d.choice(('name', 'version', 'max_id', '$ion')), d.choice(JUNK)))
    anns = ('$ion_symbol_table',)
    if d.chance(6):
        anns += (d.choice(('name', '$ion', '$ion_symbol_table')),)
    return mk('struct', d.shuffle(fields), anns)


def gen_user_value(d, slots, depth=0):
    """A value whose symbols are slots of the table in force."""
    def sym():
        # recent slots are the interesting ones
        if len(slots) > 10 and d.chance(80):
            return slots[d.integer(10, len(slots) - 1)]
        return slots[d.draw(len(slots) - 1)]
    k = d.weighted(((8, 'symbol'), (3, 'annotated'), (2, 'list') if depth < 2 else (1, 'symbol'), (4, 'struct') if depth < 2 else (1, 'symbol'), (1, 'int'),
                    (1, 'lookalike') if depth < 1 else (1, 'symbol')))
    anns = (sym(),) if k == 'annotated' or d.chance(10) else ()
    if k == 'list':
        v = mk(d.choice(('list', 'sexp')), [gen_user_value(d, slots, depth + 1) for _ in range(d.small(3))], anns)
    elif k == 'struct':
        v = mk('struct', [(sym(), gen_user_value(d, slots, depth + 1)) for _ in range(d.small(3))], anns)
    elif k in ('int', 'annotated'):
        v = mk('int', d.draw(9), anns)
    elif k == 'lookalike':
        # what looks like a symbol table or a version marker but is none
        table = mk('struct', [('symbols', mk('list', [mk('string', 'fake')]))])
        v = d.choice((mk('struct', table[1], ('name', '$ion_symbol_table')), mk('list', [mk('struct', table[1], ('$ion_symbol_table',))]),
                      mk('list', [mk('string', 'fake')], ('$ion_symbol_table',)), mk('string', '$ion_1_0'),
                      mk('symbol', '$ion_1_0', ('name',)), mk('list', [mk('symbol', '$ion_1_0')]), mk('sexp', [], ('$ion_symbol_table',)),
                      mk('struct', table[1]), mk('struct', table[1], ('$ion_shared_symbol_table',))))
    else:
        v = mk('symbol', sym(), anns)
    if depth == 0 and is_system_value(v):
        v = mk('list', [v])
    return v


def history(d, fmt, tables=None):
    """(data, values, tables, whether the stream has to be refused, description)"""
    if tables is None:
        tables = gen_shared_tables(d)
    ctx = Context(Catalog(tables))
    if fmt == 'binary':
        enc = refbin.Encoder(d, ctx, oddity=10)
        out = [refbin.IVM]
    else:
        enc = reftext.Renderer(d, ctx)
        out = []
    values, shape = [], []
    refused = None

    def emit(v):
        if fmt == 'binary':
            out.append(enc.value(v))
        else:
            out.append(enc.value(v))
            out.append(d.choice((' ', '\n', ' //c\n', ' /*c*/ ')))

    for _ in range(1 + d.small(8)):
        start = d.begin()
        k = d.weighted(((5, 'value'), (4, 'table'), (1, 'marker'), (1, 'beyond')))
        if k == 'value':
            v = gen_user_value(d, ctx.slots)
            emit(v)
            values.append(v)
            shape.append('value')
        elif k == 'table':
            lst = gen_local_table(d, tables)
            emit(lst)
            try:
                ctx.local_table(lst[1])
            except Bad as e:
                refused = str(e)
                shape.append('impossible import')
                break
            shape.append('append' if ('imports', mk('symbol', '$ion_symbol_table')) in lst[1] else
                         'imports' if any(n == 'imports' for n, _ in lst[1]) else 'table')
        elif k == 'marker':
            out.append(refbin.IVM if fmt == 'binary' else d.choice(('$ion_1_0 ', '$ion_1_0\n')))
            ctx.version_marker()
            shape.append('marker')
        elif d.chance(30):
            # a symbol ID beyond the table
            sid = len(ctx.slots) + d.choice((0, 0, 1, 5, 200, d.choice(FAR) if d.boolean() else 1))
            if d.chance(20):
                sid = max(sid, d.choice(FAR) + d.choice((0, 0, 4, 10)))
            if fmt == 'binary':
                n = refbin.uint_bytes(sid)
                raw = refbin.tlv(7, n) if hasattr(refbin, 'tlv') else bytes(bytearray([0x70 | len(n)])) + n
                vu = refbin.var_uint(sid)
                raw = d.choice((raw, b'\xd0'[:0] + bytes(bytearray([0xd0 | len(vu) + 1])) + vu + b'\x11' if len(vu) > 0 else raw,
                                bytes(bytearray([0xe0 | len(vu) + 2, 0x80 | len(vu)])) + vu + b'\x11'))
                out.append(raw)
            else:
                out.append(d.choice(('$%d ', '{$%d:1} ', '$%d::1 ', '[$%d] ', '($%d) ')) % sid)
            refused = 'symbol ID %d of %d' % (sid, len(ctx.slots) - 1)
            shape.append('beyond')
            break
        d.end(start)
    data = b''.join(out) if fmt == 'binary' else ''.join(out)
    return data, values, tables, refused, shape


def as_loaded(v):
    """A value as load() delivers it: names of fields which have no text are None."""
    t, p, a = v
    if t == 'struct':
        return mk(t, [(n if isinstance(n, str) else None, as_loaded(x)) for n, x in p], a)
    if t in ('list', 'sexp'):
        return mk(t, [as_loaded(x) for x in p], a)
    return v


def resolution(fmt, mode):
    def prop(d):
        data, values, tables, refused, shape = history(d, fmt)
        form = fmt
        if fmt == 'text':
            form = 'bytes' if d.boolean() else 'unicode'
            if form == 'bytes':
                data = data.encode('utf-8')
            if not data:
                raise Discard
        with_catalog = bool(tables) or d.boolean()
        catalog = py_catalog(tables) if with_catalog else None
        d.case((data, repr(tables)), '%s with %r' % (clip(data, 400), tables))
        for s in set(shape):
            d.label(s)
        d.nontrivial(len(set(shape)) > 1)
        about = 'data: %s\ncatalog: %r\nhistory: %s' % (clip(data), tables, shape)
        if mode == 'load':
            status, got = attempt(simpleion.loads, data, catalog=catalog, single_value=False)
            if refused:
                if status == 'ok':
                    raise Violation('accepted in spite of %s: %s\n%s' % (refused, show_stream(from_py_stream(got, True)), about))
                return
            if status == 'error':
                raise Violation('refused: %s: %s\n%s' % (type(got).__name__, got, about))
            expect([as_loaded(v) for v in values], from_py_stream(got, True), about)
            return
        reader = binary_reader() if fmt == 'binary' else text_reader(is_unicode=(form == 'unicode'))
        drv = Driver(managed_reader(reader, catalog), gen_chunks(d, data) if d.chance(30) else [data])
        tree = EventTree(True)
        error = None
        # symbols may be resolved when they are asked for, which may be later than the tables of the stream change
        lag = d.choice((0, 0, 1, 3, 1000000))
        waiting = []
        while error is None:
            try:
                e = drv.next()
            except ReadError as err:
                error = err.args[0]
                e = None
            if e is not None:
                waiting.append(e)
            while len(waiting) > (0 if e is None else lag):
                try:
                    tree.add(waiting.pop(0))
                except Violation:
                    raise
                except Exception as err:
                    error = error or err
                    waiting = []
            if e is None:
                break
        if refused and error is None:
            raise Violation('accepted in spite of %s: %s\n%s' % (refused, show_stream(tree.top), about))
        if error is not None and not refused:
            raise Violation('refused: %s: %s\n%s' % (type(error).__name__, error, about))
        expect(values, tree.top, about)
    return prop


def growing(d):
    """One catalog serves many streams, some of them again after tables were registered."""
    tables, streams, steps = [], [], []
    catalog = SymbolTableCatalog()
    results = set()
    for _ in range(3 + d.small(9)):
        start = d.begin()
        k = d.weighted(((4, 'load'), (6, 'again') if streams else (1, 'load'), (5, 'register'))) if steps else 'register'
        if k == 'register':
            for t in gen_shared_tables(d, 2):
                if d.chance(80):
                    # another version of a known table, or another table in the place of a known one
                    known = d.choice(tables) if tables else t
                    t = SharedTable(known.name, known.version if d.chance(30) else t.version, t.texts)
                if d.chance(60):
                    t = SharedTable(t.name, t.version, tuple(t.texts) + ('more%d' % len(steps), 'most%d' % len(steps)))
                tables = [x for x in tables if (x.name, x.version) != (t.name, t.version)] + [t]
                catalog.register(py_table(t))
                steps.append(('register', t.name, t.version, t.texts))
        else:
            if k == 'again':
                fmt, data = d.choice(streams)
            else:
                fmt = d.choice(('binary', 'text'))
                data = history(d, fmt, tables)[0]
                if not data:
                    raise Discard
                streams.append((fmt, data))
            steps.append((k, data))
            try:
                want = [as_loaded(v) for v in (refbin.decode if fmt == 'binary' else reftext.parse)(data, Context(Catalog(tables)))]
            except (refbin.Bad, reftext.Bad, Bad):
                want = None
            except (refbin.Unsure, reftext.Unsure):
                raise Discard
            status, got = attempt(simpleion.loads, data, catalog=catalog, single_value=False)
            about = 'history: %r' % (steps,)
            if (status == 'ok') != (want is not None):
                raise Violation('%s: %s' % (status, about))
            if want is not None:
                expect(want, from_py_stream(got, True), about)
        d.end(start)
    d.case(steps, repr(steps))
    d.nontrivial(any(x[0] == 'again' for x in steps))
    for x in steps:
        d.label(x[0])


UNITS = [
    Unit('growing catalog', growing, 6000, 250000, 'a stream is loaded again'),
    Unit('binary', resolution('binary', 'load'), 12000, 600000, 'the history has two kinds of steps or more'),
    Unit('text', resolution('text', 'load'), 9000, 500000, 'the history has two kinds of steps or more'),
    Unit('binary events', resolution('binary', 'events'), 6000, 300000, 'the history has two kinds of steps or more'),
    Unit('text events', resolution('text', 'events'), 5000, 300000, 'the history has two kinds of steps or more'),
]
