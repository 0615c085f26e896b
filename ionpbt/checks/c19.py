"""C19: copies and pickles of Ion values are equal to and independent of their originals."""
import copy
import pickle

from amazon.ion.equivalence import ion_equals

from ..common import *
from ..engine import Unit
from ..gen import gen_timestamp
from ..tweak import paths, get

ASSUMPTIONS = ['pickle protocols 0 to the highest of the interpreter', 'structs are not pickled with protocols whose support Python leaves to classes']


def copiers():
    out = [('copy', copy.copy), ('deepcopy', copy.deepcopy)]
    for p in range(pickle.HIGHEST_PROTOCOL + 1):
        out.append(('pickle protocol %d' % p, lambda x, p=p: pickle.loads(pickle.dumps(x, p))))
    return out


COPIERS = copiers()
DEEP = COPIERS[1:]


def check_types(a, b, about):
    """Classes and symbols, and those of every child, are kept."""
    if type(a) is not type(b):
        raise Violation('%s became %s %s' % (type(a).__name__, type(b).__name__, about))
    if isinstance(a, (list, tuple)) and not isinstance(a, SymbolToken):
        for x, y in zip(a, b):
            check_types(x, y, about)
    elif isinstance(a, SymbolToken):
        if (a.text, a.sid, a.location) != (b.text, b.sid, b.location):
            raise Violation('%r became %r %s' % (a, b, about))
    elif isinstance(a, (dict, Multimap)):
        for (_, x), (_, y) in zip(a.items(), b.items()):
            check_types(x, y, about)


def build(d, v):
    how = d.choice(('made', 'binary', 'text', 'pretty'))
    obj = to_py(v, d, 0)
    if how == 'made':
        return how, obj
    data = simpleion.dumps(obj, binary=how == 'binary', indent=' ' if how == 'pretty' else None)
    return how, simpleion.loads(data)


def mutate(obj, path, in_place):
    """Changes the copy of the node at a path; False if there is nothing to change there."""
    for i in path:
        obj = [x for _, x in obj.items()][i] if isinstance(obj, (dict, Multimap)) else obj[i]
    if in_place and isinstance(obj, list):
        obj.append(IonPyInt.from_value(IonType.INT, 99))
    elif in_place and isinstance(obj, Multimap):
        keys = list(obj)
        name = keys[in_place // 4 % len(keys)] if keys and in_place % 4 else 'added'
        if in_place % 4 == 3:
            obj[name] = IonPyInt.from_value(IonType.INT, 99)
        else:
            obj.add_item(name, IonPyInt.from_value(IonType.INT, 99))
        obj.add_item(name, IonPyInt.from_value(IonType.INT, 100))
        if in_place % 4 == 2 and len(keys) > 1:
            del obj[keys[0]]
    else:
        obj.ion_annotations = tuple(obj.ion_annotations) + (SymbolToken('added', None),)
    return True


def values(d):
    """Values of every kind, made by the application or loaded."""
    v = gen_top(d, Opts(max_depth=3, breadth=4, big=False, wide=False))
    how, obj = build(d, v)
    name, fn = d.choice(COPIERS)
    ps = list(paths(from_py(obj)))          # fields may be in another order
    path = d.choice(ps)
    in_place = d.draw(24)
    d.case((v, how, name, path, in_place), '%s of %s (%s), changed at %r' % (name, show(v), how, path))
    d.label(name)
    note_value(d, [v])
    about = 'in the %s of %s (%s)' % (name, show(v), how)
    c = must('%s of %s' % (name, show(v)), fn, obj)
    expect([v], [from_py(c)], about)
    check_types(obj, c, about)
    if not ion_equals(obj, c) or not ion_equals(c, obj):
        raise Violation('not equal to the original ' + about)
    for binary in (True, False):
        a, b = simpleion.dumps(obj, binary=binary), must('dumps ' + about, simpleion.dumps, c, binary=binary)
        if a != b:
            raise Violation('dumps gives %s instead of %s %s' % (clip(b), clip(a), about))
    if name == 'copy':
        if isinstance(obj, list):
            if any(x is not y for x, y in zip(obj, c)):
                raise Violation('elements were copied ' + about)
        path = ()
    # changing the copy does not change the original
    mutate(c, path, in_place)
    expect([v], [from_py(obj)], 'the original changed with ' + about)
    if same(from_py(c), v):
        raise Violation('the change had no effect ' + about)


def plain(d):
    """Timestamps, symbol tokens, offsets and tables that applications hold on to; in containers of theirs."""
    k = d.choice(('timestamp', 'symbol', 'table', 'location', 'shared references'))
    name, fn = d.choice(COPIERS)
    d.label(k)
    d.label(name)
    d.nontrivial()
    about = '%s of ' % name
    if k == 'timestamp':
        p = gen_timestamp(d)
        ts = py_timestamp(p, d=d)
        d.case((p, name), '%s of %r' % (name, p))
        box = d.draw(2)
        x = (ts, [ts], {'a': ts})[box]
        c = must('%s of %r' % (name, p), fn, x)
        c = (c, c, c)[0] if box == 0 else c[0] if box == 1 else c['a']
        if type(c) is not Timestamp or model_timestamp(c) != p:
            raise Violation('%s of %r is %r (%s)' % (name, p, model_timestamp(c), type(c).__name__))
        # A time that its zone has twice does not equal any time with another tzinfo object, says datetime.
        twice = ts.utcoffset() != datetime(*ts.timetuple()[:6], tzinfo=ts.tzinfo, fold=1 - ts.fold).utcoffset()
        if not twice and c != ts or hash(c) != hash(ts) or not ion_equals(c, ts):
            raise Violation('%s of %r is not equal to it' % (name, p))
        if p[0] == 's':
            moved = must('replace', c.replace, year=2000, month=1, day=1)
            if isinstance(moved, Timestamp) and model_timestamp(moved)[:7] != ('s', 2000, 1, 1) + p[4:7]:
                raise Violation('replace() of the %s is %r' % (name, moved))
    elif k in ('symbol', 'location'):
        loc = ImportLocation('t', d.choice((1, 2, 300))) if k == 'location' else None
        text, sid = d.choice(('a', '', 'é', None)), d.choice((None, 0, 10)) if k == 'symbol' else 12
        tok = SymbolToken(text, 10 if text is None and sid is None else sid, loc)
        d.case((repr(tok), name), '%s of %r' % (name, tok))
        c = must('%s of %r' % (name, tok), fn, tok)
        if type(c) is not SymbolToken or c != tok or hash(c) != hash(tok) or (c.text, c.sid, c.location) != (tok.text, tok.sid, tok.location):
            raise Violation('%s of %r is %r' % (name, tok, c))
        if loc is not None and (type(c.location) is not ImportLocation or c.location.name != 't' or c.location.position != loc.position):
            raise Violation('%s of %r is %r' % (name, tok, c))
    elif k == 'table':
        t = shared_symbol_table('t', 3, [d.choice(('a', 'b', None, 'c')) for _ in range(d.small(5))])
        d.case((repr(list(t)), name), '%s of %r' % (name, list(t)))
        c = must('%s of a shared table' % name, fn, t)
        if c != t or list(c) != list(t) or c.max_id != t.max_id or (c.name, c.version) != ('t', 3):
            raise Violation('%s of a table with %r has %r' % (name, list(t), list(c)))
        if any(c.get(tok.text) != t.get(tok.text) for tok in t if tok.text is not None):
            raise Violation('%s of a table with %r looks up other tokens' % (name, list(t)))
        data = simpleion.dumps(['a', SymbolToken('a', None)], imports=[c])
        if data != simpleion.dumps(['a', SymbolToken('a', None)], imports=[t]):
            raise Violation('importing the %s of a table gives %r' % (name, data))
    else:
        # the same object twice stays the same object twice in a deep copy
        v = gen_top(d, Opts(max_depth=2, breadth=3, big=False, wide=False))
        obj = to_py(v, d, 0)
        name, fn = d.choice([c for c in DEEP if c[0] != 'copy'])
        outer = IonPyList.from_value(IonType.LIST, [obj, obj])
        d.case((v, name), '%s of a list with twice %s' % (name, show(v)))
        c = must(name, fn, outer)
        expect([mk('list', [v, v])], [from_py(c)], name)
        if isinstance(obj, (list, Multimap)) and c[0] is not c[1]:
            raise Violation('%s of a list with twice %s has two different elements' % (name, show(v)))


UNITS = [
    Unit('values', values, 10000, 300000, 'more than one plain scalar'),
    Unit('plain', plain, 5000, 100000, 'all'),
]
