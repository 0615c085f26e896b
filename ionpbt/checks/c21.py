"""C21: json.dumps with IonToJSONEncoder down-converts Ion values as documented.

The module refuses to be imported under PyPy, the only interpreter here with its dependencies, and the package it takes
its base class from is not installed. So it is imported with a stand-in for ``sys`` without PyPy's mark, and with a
stand-in for that base class, which has the two hooks of the original: isinstance() decides what is encoded natively,
default() gives what stands for everything else.
"""
import base64
import importlib
import json
import sys
import types

from ..common import *
from ..engine import Unit

ASSUMPTIONS = ['jsonconversion.encoder.JSONExtendedEncoder is a stand-in with the same hooks; CPython is imitated by hiding sys.pypy_version_info',
               'decimals beyond the range of floats, and field names of unknown text, are not judged']


class JSONExtendedEncoder(json.JSONEncoder):
    """Stand-in: the standard encoder, with isinstance() as a hook."""

    def isinstance(self, obj, cls):
        return isinstance(obj, cls)

    def encode(self, o):
        if self.isinstance(o, str):
            return json.dumps(str.__str__(o))
        if o is None or o is True or o is False:
            return {None: 'null', True: 'true', False: 'false'}[o]
        if self.isinstance(o, int):
            return int.__repr__(o)
        if self.isinstance(o, float):
            return json.dumps(float(o))
        if self.isinstance(o, (list, tuple)):
            return '[%s]' % ', '.join(self.encode(x) for x in o)
        if self.isinstance(o, dict):
            return '{%s}' % ', '.join('%s: %s' % (json.dumps({k: 0})[1:-4], self.encode(v)) for k, v in o.items())
        return self.encode(self.default(o))

    def iterencode(self, o, _one_shot=False):
        yield self.encode(o)


def load_encoder():
    fake = types.ModuleType('sys')
    fake.__dict__.update((k, v) for k, v in sys.__dict__.items() if k != 'pypy_version_info')
    package, module = types.ModuleType('jsonconversion'), types.ModuleType('jsonconversion.encoder')
    module.JSONExtendedEncoder = JSONExtendedEncoder
    package.encoder = module
    sys.modules.update({'jsonconversion': package, 'jsonconversion.encoder': module})
    real = sys.modules['sys']
    sys.modules['sys'] = fake
    try:
        return importlib.import_module('amazon.ion.json_encoder').IonToJSONEncoder
    finally:
        sys.modules['sys'] = real


IonToJSONEncoder = load_encoder()

OPTS = Opts(max_depth=4, breadth=5, big=False, wide=False)


def down(v):
    """What JSON has for a model value."""
    t, p, _ = v
    if t == 'null':
        return None
    if t in ('list', 'sexp'):
        return [down(x) for x in p]
    if t == 'struct':
        out = {}
        for n, x in p:
            if n is None:
                raise Discard
            out[n] = down(x)
        return out
    if t == 'float':
        return p if p == p and abs(p) != float('inf') else None
    if t == 'decimal':
        s, c, e = p
        if len(str(c)) + e > 300 or e < -5000:
            raise Discard
        f = float(Decimal((s, tuple(int(x) for x in str(c)), e)))
        return f
    if t == 'timestamp':
        prec, y, mo, day, h, mi, s, frac, off = p
        text = '%04d-%02d-%02d %02d:%02d:%02d' % (y, mo or 1, day or 1, h or 0, mi or 0, s or 0)
        if frac:
            us = frac[0] * 10 ** 6 // 10 ** frac[1]
            if us:
                text += '.%06d' % us
        if off is not None:
            text += '%s%02d:%02d' % ('-' if off < 0 else '+', abs(off) // 60, abs(off) % 60)
        return text
    if t == 'blob':
        return base64.b64encode(p).decode('ascii')
    if t == 'clob':
        return p.decode('latin-1')
    return p


def equal(x, y):
    """Equal JSON values of equal types (floats including the sign of zero)."""
    if type(x) is not type(y):
        return False
    if isinstance(x, float):
        return repr(x) == repr(y)
    if isinstance(x, list):
        return len(x) == len(y) and all(map(equal, x, y))
    if isinstance(x, dict):
        return set(x) == set(y) and all(equal(x[k], y[k]) for k in x)
    return x == y


def judge(obj, want, about):
    text = must('json.dumps of ' + about, json.dumps, obj, cls=IonToJSONEncoder)
    try:
        got = json.loads(text, parse_constant=lambda c: {}[c])
    except (ValueError, KeyError) as e:
        raise Violation('%s is not JSON (%r): %s' % (clip(text), e, about))
    if not equal(got, want):
        raise Violation('%s instead of %s: %s' % (clip(text), clip(want), about))


def loaded(d):
    """Loaded values of all types, at the top and within Python's own containers."""
    values = gen_stream(d, OPTS, most=3, least=1)
    want = [down(v) for v in values]
    data = dumps_stream(values, d, binary=d.boolean())
    objs = must('loads', simpleion.loads, data, single_value=False)
    d.case(values, show_stream(values))
    note_value(d, values)
    about = show_stream(values)
    judge(objs, want, 'a list of ' + about)
    judge(objs[0], want[0], 'the first of ' + about)
    judge({'x': [objs[-1], 1], 'y': tuple(objs), 'z': 's'}, {'x': [want[-1], 1], 'y': want, 'z': 's'}, 'a dictionary with ' + about)


def constructed(d):
    """Values of the IonPy classes that were made in Python."""
    v = gen_value(d, OPTS)
    want = down(v)
    obj = make(d, v)
    d.case(v, show(v))
    note_value(d, [v])
    judge(obj, want, show(v))


def make(d, v):
    t, p, a = v
    a = tuple(SymbolToken(x, None if x is not None else 0) for x in a)
    if t == 'null':
        return IonPyNull.from_value(ION_TYPE[p], None, a)
    if t in ('list', 'sexp'):
        return IonPyList.from_value(ION_TYPE[t], [make(d, x) for x in p], a)
    if t == 'struct':
        obj = IonPyDict.from_value(IonType.STRUCT, {}, a)
        for n, x in p:
            obj.add_item(n, make(d, x))
        return obj
    cls = {'bool': IonPyBool, 'int': IonPyInt, 'float': IonPyFloat, 'decimal': IonPyDecimal, 'timestamp': IonPyTimestamp, 'symbol': IonPySymbol,
           'string': IonPyText, 'clob': IonPyBytes, 'blob': IonPyBytes}[t]
    x = SymbolToken(p, 0 if p is None else None) if t == 'symbol' else py_scalar(t, p, d)
    return cls.from_value(ION_TYPE[t], x, a)


UNITS = [
    Unit('loaded', loaded, 6000, 200000, 'more than one plain scalar'),
    Unit('constructed', constructed, 4000, 150000, 'more than one plain scalar'),
]
