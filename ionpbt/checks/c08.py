"""C08: binary Ion is read the same way however it is cut into pieces."""
from .. import badbin, mutate, refbin
from ..common import *
from ..engine import Unit
from ..refsym import Unsure
from . import chunking

ASSUMPTIONS = ['pieces are not empty', 'refusals are compared by the fact and by the events before them, not by message or by the event at which they happen']


def gen_binary_stream(d):
    """(octets, their values or None when they are not known to be valid)"""
    k = d.weighted(((6, 'encoded'), (2, 'scalars'), (1, 'soup'), (1, 'bad'), (2, 'mutated')))
    if k == 'soup':
        return mutate.byte_soup(d), None
    if k == 'bad':
        try:
            return refbin.IVM + badbin.embed(d, badbin.bad_value(d)[1], d.small(3)), None
        except Unsure:
            raise Discard
    if k == 'scalars':
        values = [gen_scalar(d) for _ in range(1 + d.small(4))]
        values = [mk(v[0], v[1], ('q',) + v[2]) if is_system_value(v) else v for v in values]
    else:
        values = gen_stream(d, Opts(max_depth=3, breadth=4), most=3, least=1)
    data = refbin.Encoder(d).stream(values, symbols_of)
    if k == 'mutated':
        return mutate.mutate_bytes(d, data), None
    return data, values


def run(fn):
    def prop(d):
        data, values = gen_binary_stream(d)
        if len(data) > 4000:
            raise Discard
        fn(d, data, 'binary', values, 'octets: %s' % clip(data))
    return prop


def bytewise(d):
    """Every single cut of a short stream into two pieces."""
    data, values = gen_binary_stream(d)
    if len(data) > 150:
        raise Discard
    d.case(data, clip(data, 300))
    d.nontrivial()
    key = loose_key if values is None else event_key
    whole = read_keys(chunking.make_reader('binary'), [data], key)
    chunking.against(values, whole, clip(data))
    for i in range(1, len(data)):
        chunks = [data[:i], data[i:]]
        chunking.compare(whole, read_keys(chunking.make_reader('binary'), chunks, key), 'pieces: %s' % clip(chunks))


UNITS = [
    Unit('pieces', run(chunking.pieces), 12000, 600000, 'more than one piece'),
    Unit('blocking', run(chunking.blocking), 6000, 300000, 'more than one read is needed'),
    Unit('bytewise', bytewise, 3000, 150000, 'every case'),
]
