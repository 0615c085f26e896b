"""C18: symbol tables map texts and IDs the way the specification says, and catalogs resolve imports to the best table."""

from amazon.ion.exceptions import CannotSubstituteTable
from amazon.ion.symbols import (SymbolTable, local_symbol_table, placeholder_symbol_table, substitute_symbol_table,
                                SYSTEM_SYMBOL_TABLE)

from ..common import *
from ..engine import Unit
from ..model import SYSTEM_SYMBOLS

ASSUMPTIONS = ['names of tables are not $ion', 'bools as keys are not judged', 'kinds of errors are not judged']

TEXTS = ('a', 'b', 'c', 'x', 'foo', '', 'é', '$ion', '$ion_1_0', 'name', 'symbols', 'max_id', '$10', 'null', 'a b', '\U0001f4a9')
NAMES = ('t', 'u', 'com.example', 'é', '')


class Ref(object):
    """A list of (text, location); IDs count from one."""

    def __init__(self, kind, entries, name=None, version=None, substitute=False):
        self.kind = kind
        self.entries = list(entries)
        self.name = name
        self.version = version
        self.substitute = substitute

    def first(self, text):
        for i, (t, _) in enumerate(self.entries):
            if t == text:
                return i + 1
        return None


SYSTEM = [(t, ('$ion', i + 1)) for i, t in enumerate(SYSTEM_SYMBOLS[1:])]


def ref_shared(name, version, texts, imports=(), substitute=False):
    all_texts = [t for r in imports for t, _ in r.entries] + list(texts)
    return Ref('shared', [(t, (name, i + 1)) for i, t in enumerate(all_texts)], name, version, substitute)


def ref_local(texts, imports=()):
    entries = list(SYSTEM)
    for r in imports:
        entries += [x for x in r.entries if r.kind != 'local' or x[1] is None or x[1][0] != '$ion']
    return Ref('local', entries + [(t, None) for t in texts])


def check_token(tok, sid, text, location, what):
    loc = None if tok.location is None else (tok.location.name, tok.location.position)
    if not isinstance(tok, SymbolToken) or (tok.text, tok.sid, loc) != (text, sid, location):
        raise Violation('%s is %r instead of %r' % (what, tok, (text, sid, location)))


def observe(table, ref, texts=TEXTS):
    n = len(ref.entries)
    if len(table) != n or table.max_id != n:
        raise Violation('%s table has len %d, max_id %d instead of %d' % (ref.kind, len(table), table.max_id, n))
    tokens = list(table)
    if len(tokens) != n:
        raise Violation('iteration of the %s table yields %d tokens instead of %d' % (ref.kind, len(tokens), n))
    for i, (tok, (t, loc)) in enumerate(zip(tokens, ref.entries)):
        check_token(tok, i + 1, t, loc, 'token %d of the %s table' % (i + 1, ref.kind))
        check_token(table.get(i + 1), i + 1, t, loc, 'get(%d) of the %s table' % (i + 1, ref.kind))
        check_token(table[i + 1], i + 1, t, loc, '[%d] of the %s table' % (i + 1, ref.kind))
    check_token(table.get(0), 0, None, None, 'get(0)')
    sentinel = SymbolToken('default', 1)
    for key in (n + 1, n + 2, n + 100, -1, -n - 1, -n - 2):
        if table.get(key) is not None or table.get(key, sentinel) is not sentinel:
            raise Violation('get(%d) of a table with %d symbols is %r' % (key, n, table.get(key)))
        if attempt(lambda: table[key])[0] == 'ok':
            raise Violation('[%d] of a table with %d symbols succeeded' % (key, n))
    for t in texts:
        i = ref.first(t)
        if i is None:
            if table.get(t) is not None or table.get(t, sentinel) is not sentinel:
                raise Violation('get(%r) is %r' % (t, table.get(t)))
            if attempt(lambda: table[t])[0] == 'ok':
                raise Violation('[%r] succeeded' % (t,))
        else:
            check_token(table.get(t), i, t, ref.entries[i - 1][1], 'get(%r) of the %s table' % (t, ref.kind))
            check_token(table[t], i, t, ref.entries[i - 1][1], '[%r] of the %s table' % (t, ref.kind))
    for bad in (b'a', 1.5, None, ('a',)):
        if attempt(table.get, bad)[0] == 'ok':
            raise Violation('get(%r) succeeded' % (bad,))
    if (table.name, table.version, bool(table.is_substitute)) != (ref.name, ref.version, ref.substitute):
        raise Violation('table is %r %r substitute=%r' % (table.name, table.version, table.is_substitute))


def gen_texts(d, most=6, unknown=True):
    return [None if unknown and d.chance(8) else d.choice(TEXTS) for _ in range(d.small(most))]


def gen_shared(d, depth=0):
    """(table, reference) of a shared table, which may import others."""
    name, version = d.choice(NAMES), d.choice((1, 2, 3, 10))
    imports = [gen_shared(d, depth + 1) for _ in range(d.small(2))] if depth < 2 and d.chance(25) else []
    texts = gen_texts(d)
    if d.chance(3):
        # a large table
        texts = ['%s%d' % (d.choice('ab'), i) for i in range(d.choice((118, 246, 310)))] + texts
    kw = {'imports': [t for t, _ in imports]} if imports or d.boolean() else {}
    table = shared_symbol_table(name, version, list(texts) if d.boolean() else iter(texts), **kw)
    return table, ref_shared(name, version, texts, [r for _, r in imports])


def local(d):
    """Local tables: seeds, imports, and histories of intern and lookups."""
    imports = [gen_shared(d) for _ in range(d.small(3))]
    texts = gen_texts(d)
    k = d.weighted(((8, 'plain'), (2, 'append')))
    ref = ref_local(texts, [r for _, r in imports])
    kw = {}
    if imports or d.boolean():
        kw['imports'] = [t for t, _ in imports]
    if texts or d.boolean():
        kw['symbols'] = texts
    table = local_symbol_table(**kw)
    if k == 'append':
        # the way a reader appends to the current table
        more = gen_texts(d)
        table = local_symbol_table(imports=[table], symbols=more)
        ref = ref_local(more, [ref])
    ops = []
    for _ in range(d.small(12)):
        ops.append((d.weighted(((5, 'intern'), (2, 'get'), (1, 'bad'))), d.choice(TEXTS + ('n1', 'n2', 'n3', 'n4'))))
    d.case((repr(ref.entries), ops), 'local table with %r then %r' % (ref.entries[9:], ops))
    d.nontrivial(bool(imports) or k == 'append' or bool(ops))
    observe(table, ref)
    for op, text in ops:
        if op == 'intern':
            i = ref.first(text)
            if i is None:
                ref.entries.append((text, None))
                i = len(ref.entries)
            check_token(must('intern', table.intern, text), i, text, ref.entries[i - 1][1], 'intern(%r)' % text)
        elif op == 'get':
            tok = table.get(text)
            i = ref.first(text)
            if i is None:
                if tok is not None:
                    raise Violation('get(%r) is %r' % (text, tok))
            else:
                check_token(tok, i, text, ref.entries[i - 1][1], 'get(%r)' % text)
        else:
            bad = d.choice((b'a', 1, None, 1.5))
            if attempt(table.intern, bad)[0] == 'ok':
                raise Violation('intern(%r) succeeded' % (bad,))
    observe(table, ref, TEXTS + ('n1', 'n2', 'n3', 'n4'))
    for t, r in imports:
        observe(t, r)
    if table.table_type.is_local is not True or table.table_type.is_shared or table.table_type.is_system:
        raise Violation('local table of type %r' % (table.table_type,))


def shared(d):
    """Shared tables, placeholders and substitutes; equality; refusals."""
    k = d.weighted(((4, 'shared'), (2, 'placeholder'), (4, 'substitute'), (3, 'bad'), (1, 'system')))
    base, rbase = gen_shared(d)
    d.label(k)
    if k == 'shared':
        table, ref = base, rbase
        d.case(repr((ref.name, ref.version, ref.entries)))
        if attempt(table.intern, 'new')[0] == 'ok':
            raise Violation('intern on a shared table')
    elif k == 'placeholder':
        name, version, n = d.choice(NAMES), d.choice((1, 5)), d.choice((0, 1, 7, 130))
        d.case((name, version, n), 'placeholder %r' % ((name, version, n),))
        table, ref = placeholder_symbol_table(name, version, n), ref_shared(name, version, [None] * n, substitute=True)
    elif k == 'substitute':
        version, n = d.choice((1, 2, 5)), d.choice((0, 1, 2, 3, 5, 8, 20))
        d.case((repr(rbase.entries), rbase.name, version, n), 'substitute %r for %r' % ((version, n), rbase.entries))
        texts = [t for t, _ in rbase.entries]
        table = substitute_symbol_table(base, version, n)
        ref = ref_shared(rbase.name, version, (texts + [None] * n)[:n], substitute=True)
    elif k == 'system':
        d.case('system')
        table, ref = SYSTEM_SYMBOL_TABLE, Ref('system', SYSTEM, '$ion', 1)
        if attempt(table.intern, 'new')[0] == 'ok':
            raise Violation('intern on the system table')
    else:
        fn = d.choice((lambda: shared_symbol_table('t', 0, ['a']), lambda: shared_symbol_table('t', -1, []),
                       lambda: shared_symbol_table(None, 1, []), lambda: shared_symbol_table('t', None, []),
                       lambda: shared_symbol_table(b't', 1, []), lambda: shared_symbol_table('t', 1, [b'a']),
                       lambda: shared_symbol_table('t', 1, ['a', 5]), lambda: local_symbol_table(symbols=[b'a']),
                       lambda: local_symbol_table(symbols=[1]),
                       lambda: placeholder_symbol_table('t', 0, 1), lambda: placeholder_symbol_table('t', 1, -1),
                       lambda: placeholder_symbol_table(None, 1, 1), lambda: substitute_symbol_table(base, 0, 1),
                       lambda: substitute_symbol_table(base, -3, 1), lambda: substitute_symbol_table(base, 1, -1),
                       lambda: substitute_symbol_table(local_symbol_table(), 1, 1), lambda: SymbolToken(None, None),
                       lambda: SymbolTableCatalog().register(local_symbol_table()),
                       lambda: SymbolTableCatalog().register(SYSTEM_SYMBOL_TABLE),
                       lambda: SymbolTableCatalog().register(placeholder_symbol_table('t', 1, 1)),
                       lambda: SymbolTableCatalog().register(substitute_symbol_table(base, 1, 1))))
        d.case((fn.__code__.co_firstlineno, fn.__code__.co_consts, repr(rbase.entries)), 'bad call %r' % (fn.__code__.co_consts,))
        d.nontrivial()
        status, got = attempt(fn)
        if status == 'ok':
            raise Violation('bad call succeeded: %r %r' % (fn.__code__.co_names, fn.__code__.co_consts))
        return
    d.nontrivial(len(ref.entries) > 0)
    observe(table, ref)
    other, rother = gen_shared(d) if d.boolean() else (shared_symbol_table(rbase.name, rbase.version, [t for t, _ in rbase.entries]), rbase)
    want = (rother.name, rother.version, rother.entries, rother.substitute, rother.kind) == (ref.name, ref.version, ref.entries, ref.substitute, ref.kind)
    if (table == other) != want or (other == table) != want or (table != other) == want:
        raise Violation('equality of %r and %r is %r' % ((ref.name, ref.version, ref.entries), (rother.name, rother.version, rother.entries), table == other))


def catalog(d):
    """Histories of register and resolve."""
    cat = SymbolTableCatalog()
    known = {}
    ops = []
    for _ in range(1 + d.small(12)):
        start = d.begin()
        name, version = d.choice(NAMES[:3]), d.choice((1, 2, 3, 4, 9, 10, 11, 100))
        k = d.weighted(((5, 'register'), (6, 'resolve'), (1, 'bad')))
        op = (k, name, version, gen_texts(d, 5, False) if k == 'register' else d.choice((None, 0, 1, 2, 3, 5, 'exact', 'exact', 9)))
        if ops and d.chance(40):
            # An earlier question once more, or another table for an earlier name.
            old = d.choice(ops)
            op = old if k != 'register' else (k, old[1], d.choice((old[2], old[2] + 1, version)), op[3])
        ops.append(op)
        d.end(start)
    d.case(ops, repr(ops))
    d.nontrivial(len(ops) > 3)
    for i, (k, name, version, x) in enumerate(ops):
        about = 'resolve(%r, %r, %r) after %r' % (name, version, x, ops[:i])
        if k == 'register':
            t = shared_symbol_table(name, version, x)
            cat.register(t)
            known.setdefault(name, {})[version] = (t, x)
            continue
        if k == 'bad':
            bad = d.choice(((b't', 1, 1), (None, 1, 1), ('t', 0, 1), ('t', -1, None), ('t', 1, -1), ('t', '1', 1), ('t', None, 1), ('t', 1.0, 1)))
            if attempt(cat.resolve, *bad)[0] == 'ok':
                raise Violation('resolve%r succeeded' % (bad,))
            continue
        versions = known.get(name, {})
        exact = versions.get(version)
        if x == 'exact':
            x = len(exact[1]) if exact else 4
        if exact is not None and (x is None or x == len(exact[1])):
            want = exact
        elif x is None:
            status, got = attempt(cat.resolve, name, version, None)
            if status == 'ok' or not isinstance(got, CannotSubstituteTable):
                raise Violation('%s: %r' % (about, got))
            continue
        elif not versions:
            want = (None, [None] * x)
        else:
            texts = exact[1] if exact else versions[max(versions)][1]
            want = (None, (texts + [None] * x)[:x])
        got = must(about, cat.resolve, name, version, x)
        ref = ref_shared(name, version, want[1], substitute=want[0] is None)
        observe(got, ref)
        if want[0] is not None and got is not want[0]:
            raise Violation('%s is another table' % about)
    for name, versions in known.items():
        for version, (t, texts) in versions.items():
            observe(t, ref_shared(name, version, texts))


UNITS = [
    Unit('local', local, 9000, 300000, 'the table has imports or is changed'),
    Unit('shared', shared, 6000, 150000, 'the table is not empty, or the call is wrong'),
    Unit('catalog', catalog, 12000, 300000, 'more than three operations'),
]
