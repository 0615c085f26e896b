"""C05: octets which are not valid binary Ion are refused, and never decoded as something else."""
from .. import badbin, mutate, refbin
from ..common import *
from ..engine import Unit
from ..refsym import Bad, Unsure

ASSUMPTIONS = ['any exception counts as a refusal',
               'damage within a local symbol table, apart from truncation, is not judged: the library reads symbol tables '
               'leniently and skips what it does not need',
               'inputs whose meaning the specification leaves open are counted as unsure and not judged']


def judge(data, reference, what):
    status, got = attempt(simpleion.loads, data, single_value=False)
    if reference[0] == 'bad':
        if status == 'ok':
            raise Violation('%s (%s) was accepted as %s\noctets: %s' % (
                what, reference[1], show_stream(from_py_stream(got))[:400], clip(data)))
        return
    if status != 'ok':
        raise Violation('%s is valid (%s) but was refused: %s: %s\noctets: %s' % (
            what, show_stream(reference[1])[:400], type(got).__name__, got, clip(data)))
    expect(reference[1], from_py_stream(got), 'octets: %s' % clip(data))


def reference(data):
    try:
        return 'ok', refbin.decode(data)
    except Bad as e:
        return 'bad', str(e)
    except Unsure as e:
        return 'unsure', str(e)


def mutated(d):
    if d.chance(25):
        data = mutate.byte_soup(d)
    else:
        values = gen_stream(d, Opts(max_depth=3, breadth=3, wide=False, big=False), most=2, least=1)
        data = mutate.mutate_bytes(d, refbin.Encoder(d).stream(values, symbols_of))
    ref = reference(data)
    d.case(data, '%s (%s)' % (clip(data, 300), ref[0]))
    d.label(ref[0])
    d.nontrivial(ref[0] == 'bad')
    if ref[0] != 'unsure':
        judge(data, ref, 'mutated stream')


def crafted(d):
    """One forbidden construct, nested among valid values."""
    try:
        label, bad = badbin.bad_value(d)
    except Unsure:
        raise Discard
    levels = d.small(4)
    data = refbin.IVM
    good = []
    for _ in range(d.small(3)):
        data += d.choice(badbin.GOOD)
    prefix = data
    data += badbin.embed(d, bad, levels)
    for _ in range(d.small(2)):
        data += d.choice(badbin.GOOD)
    d.case(data, '%s at depth %d: %s' % (label, levels, clip(data, 300)))
    d.label(label)
    ref = reference(data)
    if ref[0] == 'ok':
        raise HarnessError('%s is valid: %r' % (label, data))
    if ref[0] == 'unsure':
        raise Discard
    d.nontrivial()
    judge(data, ref, label)
    # an event reader delivers the values before it, and then refuses
    keys, error = read_keys(managed_reader(binary_reader()), [data])
    if error is None:
        raise Violation('%s: the event reader came to the end of %s' % (label, clip(data)))
    want = keys_of_values(refbin.decode(prefix))
    if keys[:len(want)] != want:
        raise Violation('%s: the values before it became %r instead of %r\noctets: %s' % (label, keys[:len(want)], want, clip(data)))


def truncated(d):
    """A valid stream which is cut at any place other than between top-level values."""
    values = gen_stream(d, Opts(max_depth=3, breadth=3, wide=False), most=3, least=1)
    data = refbin.Encoder(d).stream(values, symbols_of)
    if len(data) < 6:
        raise Discard
    cut = d.integer(5, len(data) - 1)
    data = data[:cut]
    ref = reference(data)
    d.case(data, '%s (%s)' % (clip(data, 300), ref[0]))
    d.label(ref[0])
    d.nontrivial(ref[0] == 'bad')
    if ref[0] != 'unsure':
        judge(data, ref, 'truncated stream')


def versions(d):
    """Version markers of other versions, at the beginning or later, are refused."""
    major, minor = d.choice(((0, 0), (1, 1), (2, 0), (1, 255), (255, 0), (0, 1), (3, 7)))
    end = d.choice((0xea, 0xeb, 0xe9, 0x00)) if d.chance(25) else 0xea
    if d.chance(20):
        major, minor, end = 1, 0, d.choice((0xeb, 0xe9, 0x00, 0x6a))
    marker = bytes(bytearray([0xe0, major, minor, end]))
    first = d.chance(40)
    values = b''.join(d.choice(badbin.GOOD) for _ in range(d.small(3)))
    data = (marker if first else refbin.IVM) + values + (b'' if first else marker) + d.choice(badbin.GOOD)
    d.case(data, clip(data))
    d.nontrivial()
    judge(data, ('bad', 'version marker %r' % marker), 'version marker')
    keys, error = read_keys(managed_reader(binary_reader()), [data])
    if error is None:
        raise Violation('the event reader came to the end of %s' % clip(data))


UNITS = [
    Unit('mutated', mutated, 24000, 1500000, 'the mutated stream is malformed'),
    Unit('crafted', crafted, 16000, 800000, 'every case: one forbidden construct at a generated place'),
    Unit('truncated', truncated, 8000, 400000, 'the cut is within a value'),
    Unit('versions', versions, 1000, 5000, 'every case'),
]
