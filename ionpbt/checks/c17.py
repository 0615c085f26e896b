"""C17: structs keep every field, repeated ones too, and behave like a dictionary of the newest ones."""
import copy
from collections import OrderedDict

from .. import refbin, reftext
from ..common import *
from ..engine import Unit
from ..gen import gen_scalar

ASSUMPTIONS = ['values(), == and kinds of errors of Multimap are not judged']

KEYS = ('a', 'b', 'c', '', 'é', None, 'a b', 'name')


class Model(object):
    """An ordered dictionary of lists."""

    def __init__(self):
        self.d = OrderedDict()

    def add(self, k, v):
        self.d.setdefault(k, []).append(v)

    def pairs(self):
        return [(k, v) for k, vs in self.d.items() for v in vs]

    def newest(self):
        return OrderedDict((k, vs[-1]) for k, vs in self.d.items() if vs)


def observe(m, model, about):
    """Compares everything a Multimap documents with the model."""
    want = model.pairs()

    def must_be(what, got, wanted):
        if got != wanted:
            raise Violation('%s is %r instead of %r\n%s' % (what, got, wanted, about))
    must_be('len', len(m), len(want))
    must_be('items()', list(m.items()), want)
    must_be('iteritems()', list(m.iteritems()), want)
    must_be('iteration', list(m), list(model.d))
    must_be('keys()', list(m.keys()), list(model.d))
    must_be('truth', bool(m), bool(want))
    for k in KEYS:
        must_be('%r in' % (k,), k in m, k in model.d)
        if k in model.d:
            must_be('[%r]' % (k,), m[k], model.d[k][-1])
            must_be('get(%r)' % (k,), m.get(k, 'nothing'), model.d[k][-1])
            must_be('get_all_values(%r)' % (k,), list(m.get_all_values(k)), model.d[k])
            must_be('number of values of %r' % (k,), len(m.get_all_values(k)), len(model.d[k]))
            must_be('first value of %r' % (k,), m.get_all_values(k)[0], model.d[k][0])
            must_be('last value of %r' % (k,), m.get_all_values(k)[-1], model.d[k][-1])
            must_be('reversed values of %r' % (k,), list(reversed(m.get_all_values(k))), model.d[k][::-1])
            must_be('slice of the values of %r' % (k,), list(m.get_all_values(k)[1:]), model.d[k][1:])
            must_be('membership in the values of %r' % (k,), model.d[k][0] in m.get_all_values(k), True)
        else:
            must_be('get(%r)' % (k,), m.get(k, 'nothing'), 'nothing')
            if attempt(lambda: m[k])[0] == 'ok' or attempt(lambda: m.get_all_values(k))[0] == 'ok':
                raise Violation('%r was found although it is not there\n%s' % (k, about))


OPS = ((8, 'add'), (4, 'set'), (3, 'del'), (2, 'pop'), (1, 'popmissing'), (1, 'popitem'), (1, 'clear'), (2, 'update'), (2, 'setdefault'), (3, 'copy'),
       (2, 'append'), (2, 'replace'), (1, 'delvalue'), (1, 'insert'), (1, 'delmissing'), (1, 'popvalue'), (1, 'extend'),
       (1, 'removevalue'), (1, 'reverse'))


def history(d):
    """Histories of operations on Multimap and IonPyDict against a dictionary of lists."""
    ionpy = d.boolean()
    m = IonPyDict() if ionpy else Multimap()
    if ionpy:
        m.ion_type = IonType.STRUCT
    model = Model()
    log = []
    about = ''
    seen = []
    plan = []
    for _ in range(1 + d.small(14)):
        start = d.begin()
        plan.append((d.weighted(OPS), d.choice(KEYS), d.choice(KEYS), d.draw(5), d.draw(2)))
        d.end(start)
    d.case((ionpy, plan), '%s %r' % (type(m).__name__, plan))
    counter = 0
    for op, k, k2, n, flag in plan:
        counter += 1
        v = ('v', counter)
        log.append((op, k))
        about = 'after %r on %s' % (log, type(m).__name__)
        if op == 'add':
            m.add_item(k, v)
            model.add(k, v)
        elif op == 'set':
            m[k] = v
            model.d[k] = [v]
        elif op == 'del':
            if k in model.d:
                del m[k]
                del model.d[k]
        elif op == 'delmissing':
            if k not in model.d and attempt(m.__delitem__, k)[0] == 'ok':
                raise Violation('del of a missing key succeeded %s' % about)
        elif op == 'pop':
            if k in model.d:
                got = m.pop(k)
                if got != model.d[k][-1]:
                    raise Violation('pop(%r) returned %r %s' % (k, got, about))
                del model.d[k]
        elif op == 'popmissing':
            if k not in model.d and (m.pop(k, 'nothing') != 'nothing' or attempt(m.pop, k)[0] == 'ok'):
                raise Violation('pop of a missing key %s' % about)
        elif op == 'popitem':
            if model.d:
                key, got = m.popitem()
                if key not in model.d or got != model.d[key][-1]:
                    raise Violation('popitem() returned %r %s' % ((key, got), about))
                del model.d[key]
        elif op == 'clear':
            if flag == 0:
                m.clear()
                model.d.clear()
        elif op == 'update':
            m.update([(k, v), (k2, counter)] if flag else {k: v})
            model.d[k] = [v]
            if flag:
                model.d[k2] = [counter]
        elif op == 'setdefault':
            got = m.setdefault(k, v)
            if k not in model.d:
                model.d[k] = [v]
            if got != model.d[k][-1]:
                raise Violation('setdefault(%r) returned %r %s' % (k, got, about))
        elif op == 'copy':
            old, before = m, model.pairs()
            if n == 0:
                m = Multimap(m)
            elif n == 1:
                m = IonPyDict(m)
            elif n == 2:
                m = IonPyDict.from_value(IonType.STRUCT, m)
            else:
                m = copy.copy(m) if n == 3 else copy.deepcopy(m)
                if type(m) is not type(old):
                    raise Violation('a copy of a %s is a %s %s' % (type(old).__name__, type(m).__name__, about))
            if flag:
                # the copy is kept, the original goes on
                m, old = old, m
            # the original keeps its own fields
            seen.append((old, before))
        elif k in model.d:
            vs, ms = m.get_all_values(k), model.d[k]
            if op == 'append':
                vs.append(v)
                ms.append(v)
            elif op == 'replace':
                i = n % len(ms) - (len(ms) if flag else 0)
                vs[i] = v
                ms[i] = v
            elif op == 'delvalue':
                if len(ms) > 1:
                    i = n % len(ms) - (len(ms) if flag else 0)
                    del vs[i]
                    del ms[i]
            elif op == 'popvalue':
                if len(ms) > 1:
                    got, wanted = (vs.pop(), ms.pop()) if flag else (vs.pop(n % len(ms)), ms.pop(n % len(ms)))
                    if got != wanted:
                        raise Violation('pop() of the values of %r returned %r %s' % (k, got, about))
            elif op == 'extend':
                vs.extend([v, counter][:n])
                ms.extend([v, counter][:n])
            elif op == 'removevalue':
                if len(ms) > 1:
                    vs.remove(ms[n % len(ms)])
                    ms.remove(ms[n % len(ms)])
            elif op == 'reverse':
                vs.reverse()
                ms.reverse()
            elif op == 'insert':
                i = n % (len(ms) + 1)
                vs.insert(i, v)
                ms.insert(i, v)
        observe(m, model, about)
    d.nontrivial(len(plan) > 2 and any(len(vs) > 1 for vs in model.d.values()))
    for old, before in seen:
        if list(old.items()) != before:
            raise Violation('a map changed when its copy was changed: %r instead of %r %s' % (list(old.items()), before, about))


def gen_struct(d):
    names = d.subset(('a', 'b', '', None, 'x y', 'name', 'é'), 45) or ['a']
    fields = []
    for i in range(d.small(9)):
        start = d.begin()
        n = d.choice(names)
        x = gen_scalar(d, Opts(annotations=d.chance(20), big=False, unknown=False), ('int', 'string', 'symbol', 'null')) if d.chance(80) else \
            mk('struct', [(d.choice(names), mk('int', i)) for _ in range(d.small(3))])
        fields.append((n, x))
        d.end(start)
    return mk('struct', fields, ('s',) if d.chance(15) else ())


def by_name(fields):
    out = OrderedDict()
    for n, x in fields:
        out.setdefault(n, []).append(canon(x))
    return out


def check_struct(v, obj, about):
    """The Python struct has every field of v, those of one name in order."""
    want = by_name(v[1])
    got = by_name([(k, from_py(x)) for k, x in obj.items()])
    if got != want or list(obj) != list(want):
        raise Violation('fields %r became %r\n%s' % (v[1], list(obj.items()), about))
    for n in want:
        if [canon(from_py(x)) for x in obj.get_all_values(n)] != want[n]:
            raise Violation('get_all_values(%r) of the loaded struct\n%s' % (n, about))
        if canon(from_py(obj[n])) != want[n][-1]:
            raise Violation('[%r] is not the newest field\n%s' % (n, about))
    if len(obj) != len(v[1]):
        raise Violation('len %d for %d fields\n%s' % (len(obj), len(v[1]), about))


def codec(d):
    """Structs with repeated fields are loaded, changed, copied and dumped without losing any."""
    v = gen_struct(d)
    how = d.choice(('dumps binary', 'dumps text', 'binary', 'text'))
    if how.startswith('dumps'):
        data = simpleion.dumps(to_py(v, d), binary=how == 'dumps binary')
    elif how == 'binary':
        data = refbin.Encoder(d).stream([v], symbols_of)
    else:
        data = reftext.Renderer(d).stream([v], symbols_of)
    if not how.startswith('dumps'):
        # in the order in which it is written down
        v = (refbin.decode(data) if how == 'binary' else reftext.parse(data))[0]
    extra = [(d.choice(('a', 'b', 'new', None)), mk('int', 1000 + i)) for i in range(d.small(3))]
    setting = d.choice(('a', 'b')) if d.chance(40) else None
    deleting = d.choice(('a', 'b', '')) if d.chance(30) else None
    binary = d.boolean()
    d.case((data, extra, setting, deleting, binary), '%s from %s, adding %r, setting %r, deleting %r' % (show(v), clip(data, 300), extra, setting, deleting))
    names = [n for n, _ in v[1]]
    d.nontrivial(len(set(names)) < len(names))
    obj = must('loads of %s' % clip(data), simpleion.loads, data)
    about = 'from %s' % clip(data)
    check_struct(v, obj, about)
    fields = list(v[1])
    for n, x in extra:
        obj.add_item(n, to_py(x))
        fields.append((n, x))
    if setting is not None:
        x = mk('int', 77)
        obj[setting] = to_py(x)
        order = list(by_name(fields))
        fields = [(n, y) for n, y in fields if n != setting] + [(setting, x)]
        if setting in order:
            # takes the place of the old ones
            keep = OrderedDict((n, []) for n in order)
            for n, y in fields:
                keep[n].append(y)
            fields = [(n, y) for n, ys in keep.items() for y in ys]
    if deleting is not None and deleting in obj:
        del obj[deleting]
        fields = [(n, y) for n, y in fields if n != deleting]
    w = mk('struct', fields, v[2])
    check_struct(w, obj, 'changed ' + about)
    copied = IonPyDict.from_value(IonType.STRUCT, obj, obj.ion_annotations)
    check_struct(w, copied, 'copied ' + about)
    for o in (obj, copied, Multimap(obj)):
        if type(o) is Multimap:
            o = IonPyDict.from_value(IonType.STRUCT, o, obj.ion_annotations)
        again = must('loads', simpleion.loads, must('dumps', simpleion.dumps, o, binary=binary))
        check_struct(w, again, 'changed and written ' + about)
        expect([w], [from_py(again)], about)


UNITS = [
    Unit('history', history, 14000, 500000, 'more than two operations, and some key has several values in the end'),
    Unit('codec', codec, 6000, 300000, 'a field name occurs repeatedly'),
]
