"""C15: numbers are exact, whatever the ambient decimal context of the application is."""
import decimal
from decimal import Context, Decimal, localcontext

from amazon.ion.equivalence import ion_equals

from .. import refbin, reftext
from ..common import *
from ..engine import Unit
from ..gen import gen_decimal, gen_timestamp, gen_int, gen_float

ASSUMPTIONS = ['ints and coefficients stay below 4300 digits', 'the flags of the context are not judged']

ROUNDINGS = (decimal.ROUND_HALF_EVEN, decimal.ROUND_UP, decimal.ROUND_DOWN, decimal.ROUND_CEILING, decimal.ROUND_FLOOR,
             decimal.ROUND_HALF_UP, decimal.ROUND_HALF_DOWN, decimal.ROUND_05UP)
SIGNALS = (decimal.Inexact, decimal.Rounded, decimal.Subnormal, decimal.Underflow, decimal.Overflow, decimal.Clamped,
           decimal.InvalidOperation, decimal.DivisionByZero)


def gen_context(d):
    prec = d.choice((1, 2, 3, 5, 6, 9, 15, 28, 100))
    emax = d.choice((0, 1, 3, 7, 96, 999999))
    emin = -d.choice((0, 1, 3, 7, 95, 999999))
    traps = d.subset(SIGNALS, d.choice((0, 40, 100)))
    if d.chance(10):
        traps = traps + [decimal.FloatOperation]
    return Context(prec=prec, rounding=d.choice(ROUNDINGS), Emin=emin, Emax=emax, capitals=d.draw(1), clamp=d.draw(1),
                   flags=[], traps=traps)


def settings(ctx):
    return (ctx.prec, ctx.rounding, ctx.Emin, ctx.Emax, ctx.capitals, ctx.clamp,
            tuple(sorted(s.__name__ for s, on in ctx.traps.items() if on)))


def show_context(ctx):
    return 'Context(prec=%d, %s, Emin=%d, Emax=%d, capitals=%d, clamp=%d, traps=%s)' % settings(ctx)


def within(ctx, what, fn, *args, **kw):
    """Calls fn in the context; it has to succeed and to leave the context's settings alone."""
    with localcontext(ctx) as c:
        before = settings(c)
        result = must('%s in %s' % (what, show_context(ctx)), fn, *args, **kw)
        now = decimal.getcontext()
        if now is not c or settings(now) != before:
            raise Violation('%s changed the context of the application from %s to %s' % (what, before, settings(now)))
    return result


def gen_number(d):
    k = d.weighted(((8, 'decimal'), (6, 'timestamp'), (2, 'int'), (1, 'float')))
    if k == 'decimal':
        p = gen_decimal(d)
    elif k == 'timestamp':
        p = gen_timestamp(d)
    elif k == 'int':
        p = gen_int(d)
        if d.chance(10):
            p = (p << d.choice((300, 2000, 8000))) + d.draw(3)
    else:
        p = gen_float(d)
    return mk(k, p, ('a',) if d.chance(10) else ())


def gen_numbers(d):
    """Numbers, some of them inside of containers."""
    out = []
    for _ in range(1 + d.small(3)):
        start = d.begin()
        v = gen_number(d)
        if d.chance(25):
            v = d.choice((mk('list', [v]), mk('struct', [('f', v)]), mk('sexp', [v, v])))
        out.append(v)
        d.end(start)
    return out


def stressed(values, ctx):
    """Whether rounding to the context would be visible."""
    for v in values:
        for x in walk(v):
            if x[0] == 'decimal' and (x[1][1] >= 10 ** ctx.prec or abs(x[1][2]) > min(ctx.Emax, -ctx.Emin)):
                return True
            if x[0] == 'timestamp' and x[1][7] is not None and (x[1][7][1] > ctx.prec or x[1][7][1] > -ctx.Emin):
                return True
    return False


def reading(d):
    """Text and binary from reference encoders are read exactly."""
    values = gen_numbers(d)
    ctx = gen_context(d)
    if d.boolean():
        data = refbin.Encoder(d).stream(values, symbols_of)
    else:
        data = reftext.Renderer(d).stream(values, symbols_of)
        if d.boolean():
            data = data.encode('utf-8')
    if not data:
        raise Discard
    low = d.chance(30)
    d.case((data, settings(ctx), low), '%s in %s' % (clip(data), show_context(ctx)))
    d.nontrivial(stressed(values, ctx))
    about = '%s in %s' % (clip(data), show_context(ctx))
    if not low:
        got = within(ctx, 'loads of %s' % clip(data), simpleion.loads, data, single_value=False)
        expect(values, from_py_stream(got), about)
        return

    def run():
        reader = managed_reader(binary_reader() if isinstance(data, bytes) and data[:1] == b'\xe0' else
                                text_reader(is_unicode=isinstance(data, str)))
        drv = Driver(reader, [data])
        out = []
        while True:
            e = drv.next()
            if e is None:
                return out
            out.append((e, e.value))  # values may be made on demand
    tree = EventTree()
    for e, value in within(ctx, 'reading', run):
        tree.add(e)
    expect(values, tree.top, about)


def writing(d):
    """What is written denotes exactly the number that was given."""
    values = gen_numbers(d)
    objs = [to_py(v, d) for v in values]
    ctx = gen_context(d)
    binary = d.boolean()
    low = d.chance(30)
    d.case((values, binary, low, settings(ctx)), '%s written as %s in %s' % (show_stream(values), 'binary' if binary else 'text', show_context(ctx)))
    d.nontrivial(stressed(values, ctx))
    if low:
        evs = [e for v in values for e in to_events(v, d=d)] + [ION_STREAM_END_EVENT]
        data = within(ctx, 'writing', lambda: write_events(evs, binary_writer() if binary else text_writer()))
        data = data if binary else data.decode('utf-8')
    else:
        data = within(ctx, 'dumps', simpleion.dumps, objs, binary=binary, sequence_as_stream=True)
    try:
        got = refbin.decode(data) if binary else reftext.parse(data)
    except Exception as e:
        raise Violation('output is not valid: %s: %s in %s' % (e, clip(data), show_context(ctx)))
    expect(values, got, '%s in %s' % (clip(data), show_context(ctx)))


def comparing(d):
    """Comparison, construction and copies do not round."""
    v = gen_number(d)
    if v[0] == 'decimal':
        s, c, e = v[1]
        w = mk('decimal', d.choice(((s, c, e), (s, c + 1, e), (s, c * 10, e - 1), (1 - s, c, e), (s, c, e - 1))), v[2])
    elif v[0] == 'timestamp' and v[1][7] is not None:
        c, n = v[1][7]
        other = d.choice(((c, n), ((c + 1) % 10 ** n, n), (c * 10, n + 1), (c * 10 + 1, n + 1)))
        w = mk('timestamp', v[1][:7] + (other,) + v[1][8:], v[2])
    else:
        w = v if d.boolean() else gen_number(d)
    x, y = to_py(v), to_py(w)
    ctx = gen_context(d)
    d.case((v, w, settings(ctx)), '%s and %s compared in %s' % (show(v), show(w), show_context(ctx)))
    d.nontrivial(stressed([v, w], ctx))
    same_value = same(v, w)
    got = within(ctx, 'ion_equals', ion_equals, x, y)
    if bool(got) != same_value:
        raise Violation('ion_equals(%s, %s) is %r in %s' % (show(v), show(w), got, show_context(ctx)))
    if v[0] == 'timestamp':
        again = within(ctx, 'construction', lambda: IonPyTimestamp.from_value(IonType.TIMESTAMP, x, v[2]))
        expect([v], [from_py(again)], 'IonPyTimestamp from IonPyTimestamp in %s' % show_context(ctx))
        again = within(ctx, 'construction', py_timestamp, v[1])
        if model_timestamp(again) != v[1]:
            raise Violation('Timestamp made in %s: %r became %r' % (show_context(ctx), v[1], model_timestamp(again)))
        f = v[1]
        if f[0] == 's':
            micro = d.draw(999999)
            again = within(ctx, 'construction', Timestamp, *f[1:7] + (micro,))
            if (again.microsecond, model_decimal(again.fractional_seconds)) != (micro, (0, micro, -6)):
                raise Violation('Timestamp made with microsecond=%d in %s has fractional_seconds %r' % (
                    micro, show_context(ctx), again.fractional_seconds))
    elif v[0] == 'decimal':
        again = within(ctx, 'construction', lambda: IonPyDecimal.from_value(IonType.DECIMAL, x, v[2]))
        expect([v], [from_py(again)], 'IonPyDecimal from IonPyDecimal in %s' % show_context(ctx))


UNITS = [
    Unit('reading', reading, 9000, 300000, 'the context would round the number'),
    Unit('writing', writing, 9000, 300000, 'the context would round the number'),
    Unit('comparing', comparing, 7000, 250000, 'the context would round the number'),
]
