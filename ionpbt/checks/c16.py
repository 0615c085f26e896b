"""C16: ion_equals is equivalence under the Ion data model."""
from collections import OrderedDict

from amazon.ion.core import Multimap
from amazon.ion.equivalence import ion_equals

from ..common import *
from ..adapt import py_zone
from ..engine import Unit
from ..gen import gen_timestamp, gen_scalar
from ..model import ts_instant
from ..tweak import tweak, shuffle_fields, tweak_timestamp

ASSUMPTIONS = ['values that are not Ion values, and symbols without text or ID, are not judged',
               'values without an Ion type do not occur in repeated fields (they may match several things)']

OPTS = Opts(max_depth=3, breadth=4, big=False, wide=False, huge_exponents=True)

# The Ion types a Python value without Ion type can stand for
_PLAIN = {'string': ('string', 'symbol'), 'list': ('list', 'sexp'), 'blob': ('clob', 'blob')}


def build(d, v, percent):
    """(Python object, tree) for a model value; the tree says which nodes have an Ion type."""
    t, p, a = v
    plain = d.chance(percent) and not a and not (t == 'null' and p != 'null')
    if t == 'struct':
        names = [n for n, _ in p]
        repeated = set(n for n in names if names.count(n) > 1)
        items, trees = [], []
        for n, x in p:
            o, tr = build(d, x, 0 if n in repeated else percent)
            items.append((n, o))
            trees.append((n, tr))
        if plain:
            cls = Multimap if repeated or None in names else d.choice((dict, dict, OrderedDict, OrderedDict, Multimap))
            obj = cls() if cls is Multimap else cls(items)
            if cls is Multimap:
                for n, o in items:
                    obj.add_item(n, o)
            return obj, ('struct', trees, (), True)
        obj = IonPyDict.from_value(IonType.STRUCT, {}, tuple(any_symbol(s, d) for s in a))
        for n, o in items:
            obj.add_item(n, o)
        return obj, ('struct', trees, a, False)
    if t in ('list', 'sexp'):
        parts = [build(d, x, percent) for x in p]
        objs = [o for o, _ in parts]
        trees = [tr for _, tr in parts]
        if plain:
            return (tuple(objs) if d.boolean() else objs), ('list', trees, (), True)
        return IonPyList.from_value(ION_TYPE[t], objs, tuple(any_symbol(s, d) for s in a)), (t, trees, a, False)
    if plain:
        if t == 'clob' or t == 'blob':
            return p, ('blob', p, (), True)
        if t == 'timestamp' and p[0] == 's' and p[7] is not None and p[7][1] == 6 and d.boolean():
            tz, fold = py_zone(p, d)
            return datetime(p[1], p[2], p[3], p[4], p[5], p[6], p[7][0], tz, fold=fold), ('timestamp', p, (), True)
        if t == 'symbol' and p is not None and d.boolean():
            # text without Ion type
            return p, ('string', p, (), True)
        return py_scalar(t, p, d), (t, p, (), True)
    if t == 'symbol' and p is not None and d.chance(15):
        return IonPyText.from_value(IonType.SYMBOL, p, tuple(any_symbol(s, d) for s in a)), (t, p, a, False)
    if t == 'bool' or t == 'int':
        cls = d.choice((IonPyBool, IonPyInt))
        return cls.from_value(ION_TYPE[t], p, tuple(any_symbol(s, d) for s in a)), (t, p, a, False)
    return to_py(v, d, 0), (t, p, a, False)


def match(x, y, leaf):
    """Whether two trees are equivalent; leaf compares scalars of the same type."""
    (t, p, a, plain), (u, q, b, flat) = x, y
    if not plain and not flat:
        if t != u or tuple(a) != tuple(b):
            return False
    else:
        if a or b:
            return False
        ts = _PLAIN.get(t, (t,)) if plain else (t,)
        us = _PLAIN.get(u, (u,)) if flat else (u,)
        if not set(ts) & set(us):
            return False
    if t in ('list', 'sexp'):
        return len(p) == len(q) and all(match(m, n, leaf) for m, n in zip(p, q))
    if t == 'struct':
        if len(p) != len(q):
            return False
        left = list(q)
        for n, m in p:
            for i, (n2, m2) in enumerate(left):
                if n == n2 and match(m, m2, leaf):
                    del left[i]
                    break
            else:
                return False
        return True
    return leaf(t, p, q)


def data_model(t, p, q):
    return same(mk(t, p), mk(t, q)) if t not in ('string', 'symbol', 'blob', 'clob') else p == q


def instants(t, p, q):
    if t == 'timestamp':
        return ts_instant(p) == ts_instant(q)
    return data_model(t, p, q)


def judge(x, y, tx, ty, about, instants_only=False):
    want = match(tx, ty, instants if instants_only else data_model)
    for a, b in ((x, y), (y, x)):
        got = must('ion_equals: ' + about, ion_equals, a, b, instants_only) if instants_only else must('ion_equals: ' + about, ion_equals, a, b)
        if bool(got) != want:
            raise Violation('ion_equals(%s, %s%s) is %r\n%s' % (clip(a, 500), clip(b, 500), ', True' if instants_only else '', got, about))
    return want


def pair(d, opts=OPTS, instants_only=False):
    v = gen_value(d, opts) if opts else None
    k = d.weighted(((5, 'tweak'), (3, 'same'), (2, 'tweaks'), (1, 'other')))
    if k == 'same':
        w = shuffle_fields(d, v)
    elif k == 'other':
        w = gen_value(d, opts)
    else:
        w = tweak(d, shuffle_fields(d, v))
        if k == 'tweaks':
            w = tweak(d, w)
    return v, w


def typed(d):
    """Two values with Ion types."""
    v, w = pair(d)
    x, tx = build(d, v, 0)
    y, ty = build(d, w, 0)
    d.case((v, w), '%s and %s' % (show(v), show(w)))
    want = judge(x, y, tx, ty, '%s and %s' % (show(v), show(w)))
    if want != same(v, w):
        raise HarnessError('the oracles disagree')
    d.label('equal' if want else 'not equal')
    d.nontrivial(v != w)
    for o, t in ((x, tx), (y, ty)):
        judge(o, o, t, t, show(v))


def mixed(d):
    """Some of the values have no Ion type."""
    v, w = pair(d)
    p = d.choice((100, 50, 15))
    x, tx = build(d, v, p)
    y, ty = build(d, w, d.choice((p, 0, 50)))
    about = '%r and %r' % (tx, ty)
    d.case(about)
    want = judge(x, y, tx, ty, about)
    d.label('equal' if want else 'not equal')
    d.nontrivial(tx != ty)


def repeated(d):
    """Structs with few names and few values, many of them repeated."""
    names, n = ('a', 'b', 'c')[:1 + d.draw(2)], d.small(6)
    pool = d.choice((('int', (0, 1)), ('int', (0, 1, 2)), ('string', ('', 'a')), ('decimal', ((0, 1, 0), (0, 10, -1))), ('list', ((), (mk('int', 0),)))))

    def one():
        return mk(pool[0], d.choice(pool[1]), ('q',) if d.chance(10) else ())
    p = [(d.choice(names), one()) for _ in range(n)]
    q = d.shuffle(p)
    for _ in range(d.draw(3)):
        if not q:
            break
        i, j = d.draw(len(q) - 1), d.draw(len(q) - 1)
        k = d.draw(3)
        q[i] = (d.choice(names), q[i][1]) if k == 0 else (q[i][0], one()) if k == 1 else (q[i][0], q[j][1]) if k == 2 else (q[j][0], q[i][1])
    v, w = mk('struct', tuple(p)), mk('struct', tuple(q))
    percent = d.choice((0, 0, 100, 50))
    x, tx = build(d, v, percent)
    y, ty = build(d, w, percent)
    about = '%r and %r' % (tx, ty)
    d.case(about)
    d.nontrivial(len(set(m for m, _ in p)) < n)
    d.label('equal' if judge(x, y, tx, ty, about) else 'not equal')


UNTYPED = {'int': IonPyInt, 'float': IonPyFloat, 'string': IonPyText, 'blob': IonPyBytes, 'decimal': lambda p: IonPyDecimal(py_decimal(p)),
           'timestamp': lambda p: py_timestamp(p, IonPyTimestamp)}


def untyped(d):
    """An instance of an Ion class that was given no Ion type denotes what its native base does; compared with a native one."""
    opts = Opts(max_depth=2, breadth=4, big=False, wide=False, dups=False, unknown=False, annotations=False)
    v = gen_scalar(d, opts, ('int', 'float', 'decimal', 'timestamp', 'string', 'blob')) if d.boolean() else gen_value(d, opts)
    if v[0] not in UNTYPED and v[0] not in ('list', 'struct') or v[0] == 'struct' and None in [n for n, _ in v[1]]:
        raise Discard
    w = v if d.chance(40) else tweak(d, v)
    if w[2] or w[0] == 'symbol':
        raise Discard
    native, tx = build(d, v, 100)
    if v[0] == 'list':
        x = IonPyList(native)
    elif v[0] == 'struct':
        x = IonPyDict(native)
    else:
        x = UNTYPED[v[0]](v[1])
    y, ty = build(d, w, 100)
    if hasattr(y, 'ion_type'):
        raise Discard
    about = '%r of %r and %r %r' % (type(x).__name__, tx, type(y).__name__, ty)
    d.case(about)
    d.nontrivial()
    d.label(type(x).__name__)
    d.label('equal' if judge(x, y, tx, ty, about) else 'not equal')
    if v[0] == 'struct' and d.boolean():
        x.ion_annotations = ('q',)
        for a, b in ((x, y), (y, x)):
            if must('ion_equals', ion_equals, a, b):
                raise Violation('annotations make no difference to %s' % about)


def at_instants(d):
    """timestamps_instants_only."""
    if d.boolean():
        v, w = pair(d)
    else:
        p = gen_timestamp(d)
        q = tweak_timestamp(d, p)
        if d.chance(30):
            q = tweak_timestamp(d, q)
        v, w = mk('timestamp', p), mk('timestamp', q)
        k = d.draw(3)
        if k:
            v, w = [(mk('list', [m, m]), mk('sexp', [m]), mk('struct', [('a', m), ('a', mk('int', 1))]))[k - 1] for m in (v, w)]
    x, tx = build(d, v, 30)
    y, ty = build(d, w, 30)
    about = '%r and %r' % (tx, ty)
    d.case(about)
    d.nontrivial(any(m[0] == 'timestamp' for m in walk(v)))
    want = judge(x, y, tx, ty, about, True)
    d.label('equal' if want else 'not equal')
    judge(x, y, tx, ty, about)


def times(d):
    """Timestamps and datetimes."""
    def six(p):
        # microseconds: what a datetime has
        if p[0] != 's' or d.chance(25):
            return p
        return p[:7] + ((d.choice((0, 1, 10, 120000, 999999, d.draw(999999))), 6),) + p[8:]
    p = six(gen_timestamp(d))
    q = p
    for _ in range(d.draw(2)):
        q = tweak_timestamp(d, q)
    if d.chance(25):
        q = six(q)
    percent = d.choice((100, 80, 50))
    v, w = mk('timestamp', p), mk('timestamp', q)
    x, tx = build(d, v, percent)
    y, ty = build(d, w, percent)
    about = '%r %r and %r %r' % (type(x).__name__, tx, type(y).__name__, ty)
    d.case(about)
    d.nontrivial(type(x) is not type(y) or p != q)
    d.label('datetime' if datetime in (type(x), type(y)) else 'Timestamp')
    d.label('equal' if judge(x, y, tx, ty, about) else 'not equal')
    judge(x, y, tx, ty, about, True)


def gen_unknown(d):
    """A symbol of unknown text."""
    k = d.draw(2)
    if k == 0:
        return SymbolToken(None, 0), 'zero'
    sid = d.choice((10, 11, 12, 99))
    if k == 1:
        return SymbolToken(None, sid), 'local'
    name, pos = d.choice(('t', 't', 'u', 'T', 't ', 'é')), d.choice((1, 1, 2, 257))
    return SymbolToken(None, sid, ImportLocation(name, pos)), (name, pos)


def unknown(d):
    """Symbols of unknown text, by their import locations; wherever symbols occur."""
    (x, kx), (y, ky) = gen_unknown(d), gen_unknown(d)
    if d.chance(15):
        y, ky = SymbolToken('a', 10), 'a'
    where = d.draw(3)
    want = kx == ky
    d.case((repr(x), repr(y), where), '%r and %r' % (x, y))
    d.nontrivial()
    d.label('equal' if want else 'not equal')
    if where == 0:
        pass
    elif where == 1:
        x, y = [IonPySymbol.from_value(IonType.SYMBOL, s) if d.boolean() else s for s in (x, y)]
    elif where == 2:
        x, y = [IonPyInt.from_value(IonType.INT, 5, (SymbolToken('q', None), s)) for s in (x, y)]
    else:
        x, y = [IonPyList.from_value(IonType.LIST, [s, 1]) if d.boolean() else [s, 1] for s in (x, y)]
    for a, b in ((x, y), (y, x)):
        got = must('ion_equals', ion_equals, a, b)
        if bool(got) != want:
            raise Violation('ion_equals(%r, %r) is %r' % (a, b, got))


def loaded(d):
    """What was written and read again is equal to the original, and different originals stay different."""
    opts = Opts(max_depth=3, breadth=4, big=False, wide=False)
    v, w = pair(d, opts)
    v, w = [mk(m[0], m[1], ('q',) + m[2]) if is_system_value(m) else m for m in (v, w)]
    x, tx = build(d, v, 0)
    first, second = d.boolean(), d.boolean()
    d.case((v, w, first, second), '%s and %s, %s and %s' % (show(v), show(w), 'binary' if first else 'text', 'binary' if second else 'text'))
    d.nontrivial(v != w)
    a = simpleion.loads(must('dumps', simpleion.dumps, x, binary=first))
    y, ty = build(d, w, 0)
    b = simpleion.loads(must('dumps', simpleion.dumps, y, binary=second))
    for p, q, want in ((x, a, True), (a, b, same(v, w)), (x, b, same(v, w)), (b, y, True)):
        for m, n in ((p, q), (q, p)):
            got = must('ion_equals', ion_equals, m, n)
            if bool(got) != want:
                raise Violation('ion_equals(%s, %s) is %r after loading\n%s and %s' % (clip(m, 500), clip(n, 500), got, show(v), show(w)))


UNITS = [
    Unit('typed', typed, 9000, 300000, 'the two values are not written down identically'),
    Unit('mixed', mixed, 10000, 350000, 'the two trees (with what has an Ion type) differ'),
    Unit('untyped', untyped, 3000, 100000, 'all'),
    Unit('repeated fields', repeated, 6000, 200000, 'some name occurs twice'),
    Unit('instants', at_instants, 6000, 200000, 'a timestamp occurs'),
    Unit('times', times, 4000, 200000, 'the values or their types differ'),
    Unit('unknown symbols', unknown, 2000, 30000, 'all'),
    Unit('loaded', loaded, 4000, 150000, 'the two values are not written down identically'),
]
