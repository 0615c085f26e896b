"""C09: walking a stream with NEXT and SKIP in any order."""
from .. import refbin, reftext
from ..common import *
from ..engine import Unit
from . import chunking

ASSUMPTIONS = ['SKIP is used within containers, where it leads to the end of the innermost open one; at the top level it is refused']


def outline(values):
    """[(key, index of the CONTAINER_END of the container one is in after this event, or None)]"""
    keys = keys_of_values(values)
    closing = {}
    stack = []
    for i, k in enumerate(keys):
        if k[0] == 'CONTAINER_START':
            stack.append(i)
        elif k[0] == 'CONTAINER_END':
            closing[stack.pop()] = i
    out, stack = [], []
    for i, k in enumerate(keys):
        if k[0] == 'CONTAINER_START':
            stack.append(closing[i])
        elif k[0] == 'CONTAINER_END':
            stack.pop()
        out.append((k, stack[-1] if stack else None))
    return out


def walk_stream(fmt):
    def prop(d):
        values = gen_stream(d, Opts(max_depth=5, breadth=4, wide=False, big=False), most=4, least=1)
        if d.chance(50):
            values = [mk(d.choice(('list', 'sexp')), values)]
        if fmt == 'binary':
            form = 'binary'
            e = refbin.Encoder(d)
            e.keep_order = True
            data = e.stream(values, symbols_of)
        else:
            text = reftext.Renderer(d).stream(values, symbols_of)
            if not text:
                raise Discard
            form = 'bytes' if d.boolean() else 'unicode'
            data = text.encode('utf-8') if form == 'bytes' else text
        if len(data) > 5000:
            raise Discard
        chunks = gen_chunks(d, data) if d.chance(70) else [data]
        percent = d.choice((10, 25, 50, 80))
        line = outline(values)
        plan = []
        i, skips = -1, 0
        while True:
            inside = line[i][1] if i >= 0 else None
            if inside is not None and d.chance(percent):
                plan.append(('SKIP', inside))
                i = inside
                skips += 1
            else:
                i += 1
                plan.append(('NEXT', i))
                if i == len(line):
                    break
        d.case((data, tuple(len(c) for c in chunks), tuple(p[0] for p in plan)),
               '%s with %s' % (clip(data, 300), ' '.join(p[0] for p in plan)[:200]))
        d.nontrivial(skips > 0)
        d.label('skips: %d' % min(skips, 4))
        about = 'data: %s\npieces: %s\nplan: %s' % (clip(data), clip(chunks, 300), clip(plan, 600))
        drv = Driver(chunking.make_reader(form), chunks)
        for step, (what, target) in enumerate(plan):
            try:
                e = drv.next(NEXT_EVENT if what == 'NEXT' else SKIP_EVENT)
            except ReadError as err:
                raise Violation('step %d (%s) raised %s: %s\n%s' % (step, what, type(err.args[0]).__name__, err.args[0], about))
            if target == len(line):
                if e is not None:
                    raise Violation('step %d (%s): %r after the last value\n%s' % (step, what, e, about))
                break
            if e is None:
                raise Violation('step %d (%s): end of stream instead of %r\n%s' % (step, what, line[target][0], about))
            got = event_key(e)
            if got != line[target][0]:
                raise Violation('step %d (%s): %r instead of %r\n%s' % (step, what, got, line[target][0], about))
    return prop


def top_level_skip(d):
    """SKIP makes no sense outside of containers; the reader refuses it rather than losing data."""
    values = gen_stream(d, Opts(max_depth=2, breadth=3, wide=False, big=False), most=3, least=1)
    fmt = d.choice(('binary', 'bytes', 'unicode'))
    if fmt == 'binary':
        data = refbin.Encoder(None).stream(values, symbols_of)
    else:
        text = reftext.Renderer(d).stream(values, symbols_of)
        if not text:
            raise Discard
        data = text.encode('utf-8') if fmt == 'bytes' else text
    line = outline(values)
    places = [i for i in range(len(line)) if line[i][1] is None]
    if fmt != 'binary' or d.boolean():
        places.append(-1)
    at = d.choice(places)
    d.case((data, fmt, at), '%s, SKIP after event %d' % (clip(data, 300), at))
    d.nontrivial()
    drv = Driver(chunking.make_reader(fmt), [data])
    for _ in range(at + 1):
        e = drv.next()
        if e is None:
            raise Violation('the stream ended early: %s' % clip(data))
    status, e = attempt(drv.reader.send, SKIP_EVENT)
    if status == 'ok':
        raise Violation('SKIP at the top level was answered with %r\ndata: %s' % (e, clip(data)))


UNITS = [
    Unit('text', walk_stream('text'), 9000, 400000, 'at least one SKIP'),
    Unit('binary', walk_stream('binary'), 9000, 400000, 'at least one SKIP'),
    Unit('misuse', top_level_skip, 3000, 60000, 'every case'),
]
