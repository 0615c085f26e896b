"""C07: text Ion is read the same way however it is cut into pieces."""
from .. import badtext, mutate, reftext
from ..common import *
from ..engine import Unit
from . import chunking

ASSUMPTIONS = ['pieces are not empty', 'refusals are compared by the fact and by the events before them, not by message or by the event at which they happen']


def gen_text_stream(d):
    """(text, its values or None when it is not known to be valid)"""
    k = d.weighted(((6, 'rendered'), (2, 'scalars'), (2, 'soup'), (1, 'bad'), (2, 'mutated')))
    if k == 'soup':
        text = mutate.token_soup(d)
        try:
            return text, reftext.parse(text)
        except (reftext.Bad, reftext.Unsure):
            return text, None
    if k == 'bad':
        return badtext.embed(d, badtext.gen_bad(d)[1], d.small(3)), None
    if k == 'scalars':
        values = [gen_scalar(d, Opts(big=False)) for _ in range(1 + d.small(4))]
        values = [mk(v[0], v[1], ('q',) + v[2]) if is_system_value(v) else v for v in values]
    else:
        values = gen_stream(d, Opts(max_depth=3, breadth=4, wide=False, big=False), most=3, least=1)
    text = reftext.Renderer(d).stream(values, symbols_of)
    if k == 'mutated':
        return mutate.mutate_text(d, text), None
    return text, values


def run(fn, percent_bytes=50):
    def prop(d):
        text, values = gen_text_stream(d)
        if not text or len(text) > 3000:
            raise Discard
        form = 'bytes' if d.chance(percent_bytes) else 'unicode'
        data = text.encode('utf-8') if form == 'bytes' else text
        fn(d, data, form, values, 'text: %s' % clip(data))
    return prop


def bytewise(d):
    """Every single cut of a short text into two pieces."""
    text, values = gen_text_stream(d)
    if not text or len(text) > 120:
        raise Discard
    form = 'bytes' if d.boolean() else 'unicode'
    data = text.encode('utf-8') if form == 'bytes' else text
    d.case((data, form), clip(data, 300))
    d.nontrivial(len(data) > 1)
    key = loose_key if values is None else event_key
    whole = read_keys(chunking.make_reader(form), [data], key)
    chunking.against(values, whole, clip(data))
    for i in range(1, len(data)):
        chunks = [data[:i], data[i:]]
        chunking.compare(whole, read_keys(chunking.make_reader(form), chunks, key), 'pieces: %s' % clip(chunks))


UNITS = [
    Unit('pieces', run(chunking.pieces), 12000, 600000, 'more than one piece'),
    Unit('blocking', run(chunking.blocking), 6000, 300000, 'more than one read is needed'),
    Unit('bytewise', bytewise, 2500, 120000, 'more than one character'),
]
