"""C04: every legal encoding of binary Ion denotes the value the specification says."""
from .. import refbin
from ..common import *
from ..engine import Unit

ASSUMPTIONS = ['encodings the specification leaves open are not generated (unsorted ordered structs, a date with an offset, '
               'repeated imports or symbols fields of a local symbol table)']


def encoding(opts, most, oddity=30):
    def prop(d):
        values = gen_stream(d, opts(d), most=most, least=1)
        e = refbin.Encoder(d, oddity=d.choice((oddity, 10, 60)))
        data = e.stream(values, symbols_of)
        d.case(data, '%s as %s' % (show_stream(values)[:300], clip(data, 300)))
        for k in sorted(e.used):
            d.label(k)
        d.nontrivial(bool(e.used))
        got = must('loads of %s' % clip(data), loads_stream, data)
        expect(values, got, 'octets: %s' % clip(data))
    return prop


def scalar_opts(d):
    kind = d.choice(('int', 'float', 'decimal', 'timestamp', 'symbol', 'string', 'blob', 'clob', 'null', 'bool'))
    return Opts(max_depth=1 if d.chance(30) else 0, types=(kind,), wide=False, big=False)


def events(d):
    values = gen_stream(d, Opts(), most=3, least=1)
    e = refbin.Encoder(d)
    data = e.stream(values, symbols_of)
    d.case(data, '%s as %s' % (show_stream(values)[:300], clip(data, 300)))
    d.nontrivial(bool(e.used))
    about = 'octets: %s' % clip(data)
    expect(values, read_tree(managed_reader(binary_reader()), [data], about), about)


UNITS = [
    Unit('stream', encoding(lambda d: Opts(), 4), 8000, 400000, 'the encoding uses at least one unusual form'),
    Unit('scalars', encoding(scalar_opts, 5), 12000, 600000, 'the encoding uses at least one unusual form'),
    Unit('events', events, 5000, 200000, 'the encoding uses at least one unusual form'),
]
