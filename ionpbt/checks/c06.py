"""C06: text which is not valid Ion is refused, and never decoded as something else."""
from .. import badtext, mutate, reftext
from ..common import *
from ..engine import Unit
from ..refsym import Bad, Unsure

ASSUMPTIONS = ['any exception counts as a refusal',
               'inputs whose meaning the specification or the documentation leaves open (lone escaped surrogates, operators that touch '
               'numbers, underscores in exponents, symbol IDs with leading zeroes, ...) are counted as unsure and not judged',
               'octets are well-formed UTF-8']


def reference(text):
    try:
        return 'ok', reftext.parse(text)
    except Bad as e:
        return 'bad', str(e)
    except Unsure as e:
        return 'unsure', str(e)


def judge(d, text, ref, what):
    form = d
    data = text.encode('utf-8') if form else text
    status, got = attempt(simpleion.loads, data, single_value=False)
    if ref[0] == 'bad':
        if status == 'ok':
            raise Violation('%s (%s) was accepted as %s\ntext: %s' % (
                what, ref[1], show_stream(from_py_stream(got))[:400], clip(data)))
        return
    if status != 'ok':
        raise Violation('%s is valid (%s) but was refused: %s: %s\ntext: %s' % (
            what, show_stream(ref[1])[:400], type(got).__name__, got, clip(data)))
    expect(ref[1], from_py_stream(got), 'text: %s' % clip(data))


def mutated(d):
    values = gen_stream(d, Opts(max_depth=3, breadth=3, wide=False, big=False), most=2, least=1)
    text = mutate.mutate_text(d, reftext.Renderer(d).stream(values, symbols_of))
    run(d, text, 'mutated text')


def soup(d):
    run(d, mutate.token_soup(d), 'sequence of tokens')


def run(d, text, what):
    ref = reference(text)
    form = d.draw(1)
    d.case((text, form), '%s (%s)' % (clip(text, 300), ref[0]))
    d.label(ref[0])
    d.nontrivial(ref[0] == 'bad')
    if ref[0] != 'unsure' and text:
        judge(form, text, ref, what)


def crafted(d):
    kind, bad = badtext.gen_bad(d)
    levels = d.small(4)
    text = badtext.embed(d, bad, levels)
    ref = reference(text)
    form = d.draw(1)
    d.case((text, form), '%s at depth %d: %s (%s)' % (kind, levels, clip(text, 300), ref[0]))
    d.label(kind if ref[0] == 'bad' else ref[0])
    d.nontrivial(ref[0] == 'bad')
    if ref[0] == 'unsure':
        return
    judge(form, text, ref, kind)
    if ref[0] == 'bad':
        # the event reader does not come to the end either
        keys, error = read_keys(managed_reader(text_reader(is_unicode=not form)), [text.encode('utf-8') if form else text])
        if error is None:
            raise Violation('%s (%s): the event reader came to the end of %s' % (kind, ref[1], clip(text)))


def near(d):
    """A valid token after a small change, alone or in one container."""
    kind, bad = badtext.gen_near(d)
    wrap = d.weighted(((5, '%s'), (3, '[%s]'), (3, '(%s)'), (3, '{f:%s}'), (1, 'a::%s'), (1, '%s '), (1, '%s 1'), (1, '[%s,1]'), (1, '(a %s b)'), (1, '{%s:1}'), (1, '{%s}'), (1, '{%s,a:1}')))
    text = wrap % bad
    ref = reference(text)
    form = d.draw(1)
    d.case((text, form), '%s: %s (%s)' % (kind, clip(text, 300), ref[0]))
    d.label(kind if ref[0] == 'bad' else ref[0])
    d.nontrivial(ref[0] == 'bad')
    if ref[0] != 'unsure' and text:
        judge(form, text, ref, kind)


def surrogates(d):
    """Escapes of surrogates which are not a pair stand for nothing; they may be refused or kept, but never dropped."""
    pieces, want = [], ''
    for _ in range(1 + d.small(4)):
        k = d.draw(5)
        if k <= 2:
            n = (0xd83d, 0xdca9, 0xd800, 0xdfff, 0xdbff, 0xdc00)[d.draw(5)]
            pieces.append(('\\u%04x' if k else '\\U%08x') % n)
            want += chr(n)
        elif k == 3:
            pieces.append('\\n')
            want += '\n'
        else:
            c = d.choice('a0u /\xe9')
            pieces.append(c)
            want += c
    what = d.choice(('"%s"', "'%s'", "'''%s'''", "'''%s''' '''b'''", "'%s'::1", '{"%s":1}', "['''a''' '''%s''']"))
    body = ''.join(pieces)
    text = what % body
    plain = want.encode('utf-16', 'surrogatepass').decode('utf-16', 'surrogatepass')
    form = d.draw(1)
    d.case((text, form), '%r' % text)
    lone = any(0xd800 <= ord(c) <= 0xdfff for c in plain)
    d.nontrivial(lone)
    data = text.encode('utf-8') if form else text
    status, got = attempt(simpleion.loads, data)
    if status != 'ok':
        return
    if '::' in what:
        got = got.ion_annotations[0].text
    elif what[0] == '{':
        got, = list(got.keys())
    elif what[0] == '[':
        got, plain = got[0], 'a' + plain
    elif what[0] == "'" and what[1] != "'":
        got = got.text
    elif 'b' in what:
        plain += 'b'
    got = str(got).encode('utf-16', 'surrogatepass').decode('utf-16', 'surrogatepass')
    if got != plain:
        raise Violation('%s was accepted as the text %s' % (clip(data), ascii(got)))


def truncated(d):
    """A valid text which ends early."""
    values = gen_stream(d, Opts(max_depth=3, breadth=3, wide=False, big=False), most=2, least=1)
    text = reftext.Renderer(d).stream(values, symbols_of)
    if len(text) < 2:
        raise Discard
    run(d, text[:d.integer(1, len(text) - 1)], 'truncated text')


UNITS = [
    Unit('mutated', mutated, 9000, 600000, 'the mutated text is malformed'),
    Unit('soup', soup, 12000, 800000, 'the sequence of tokens is malformed'),
    Unit('crafted', crafted, 14000, 1000000, 'the text is malformed'),
    Unit('near', near, 50000, 2000000, 'the changed token is malformed'),
    Unit('surrogates', surrogates, 3000, 100000, 'at least one surrogate has no partner'),
    Unit('truncated', truncated, 6000, 300000, 'the text is malformed'),
]
