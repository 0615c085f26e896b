"""C03: every legal spelling of text Ion denotes the value the specification says."""
from .. import reftext
from ..common import *
from ..engine import Unit
from ..refsym import Context

ASSUMPTIONS = ['spellings the specification leaves open, or which ion-python documents as unsupported, are not generated '
               '(lone escaped surrogates, operators that touch numbers, underscores in exponents)',
               'base-2, base-10 and base-16 ints stay below 4300 decimal digits']


def spelling(opts, most, rule_label=None, ascii_percent=20, context=None):
    def prop(d):
        values = gen_stream(d, opts(d), most=most, least=1)
        r = reftext.Renderer(d, ascii_only=d.chance(ascii_percent))
        text = r.stream(values, symbols_of)
        form = d.draw(2)
        d.case((text, form), '%r' % text)
        for k in sorted(r.used):
            d.label(k)
        d.nontrivial(bool(r.used))
        data = text if form == 0 else text.encode('utf-8')
        if form == 2:
            got = from_py_stream(must('load', simpleion.load, io.BytesIO(data), single_value=False))
        else:
            got = must('loads of %s' % clip(data), loads_stream, data)
        expect(values, got, 'text: %s' % clip(data))
    return prop


def scalar_opts(d):
    kind = d.choice(('int', 'float', 'decimal', 'timestamp', 'symbol', 'string', 'blob', 'clob'))
    return Opts(max_depth=1 if d.chance(30) else 0, types=(kind,), wide=False, big=False)


SEXP_TOKENS = (
    (6, ('a', 'foo', 'x1', '_', '$', 'null', 'true', 'nan', 'nul', 'tru', 'falsey', 'n', 'i', 'in', 'inf', 'null.int', 'null.symbol')),
    (6, ('+', '-', '*', '/', '%', '!', '.', '..', '<', '>=', '=', '==', '&&', '||', '^', '~', '?', '@', '`', '#', ';', '++', '--', '-+', '+-',
         '</>', '!=', '*=', '->', '<-', '-=', './', '-*', '+/')),
    (3, ("'q'", "''", "'+'", "'a b'", "'null'", "'\\''", "'$4'")),
    (3, ('"s"', '""', "'''l'''", "''''''", '"+"')),
    (3, ('0', '1', '-1', '12', '-0x1F', '0b10', '1.5', '-2e3', '4d-2', '2000T', '2000-01-01', '2000-01-01T00:00Z', '1_000', '+inf', '-inf')),
    (2, ('$4', '$0', '$9')),
    (4, tuple(a + o for a in ('+inf', '-inf', 'null', 'null.int', 'null.symbol', 'nan', 'true', 'foo', '$4', "'q'", "''", '"s"', "'''l'''", "a::'''l'''", "a::b",
                              "a::''", '[]', '{{}}', '/**/', '+')
              for o in '!#%&*+-./;<=>?@^`|~')),
    (2, ('a::', "'b'::", '$4::', 'a ::', 'a::b::', "''::")),
    (2, ('+i', '-i', '+in', '-in', '+ii', '-inn', '+n', '-nan', '+nul', '-true', '--i', '-+in', '+info', '-i.n', '.i', '*in', '+fals')),
    (2, ('[]', '()', '{}', '[a]', '(+)', '(a+b)', '{a:b}', '[-1]', '{{}}', '{{"c"}}', '{{aGk=}}', "{{'''c'''}}")))
SEPARATORS = ((5, ' '), (8, ''), (1, '\n'), (1, '\t'), (2, '/*c*/'), (2, '//c\n'), (1, ' /*c*/ '), (1, '//\r\n'), (1, '/**/ '), (1, ' //*\n'),
              (1, '/***/'), (1, '/*//*/'), (1, '\x0b'))


def sexps(d):
    """Operators, symbols and other values which touch each other or are separated by comments."""
    out = [d.choice(('(', '(', '(', '[(', '{a:(', 'b::(', '((', '1 ('))]
    for _ in range(1 + d.small(6)):
        start = d.begin()
        out.append(d.weighted(SEPARATORS))
        out.append(d.choice(d.weighted(SEXP_TOKENS)))
        d.end(start)
    out.append(d.weighted(SEPARATORS))
    out.append({'(': ')', '[': ')]', '{': ')}', 'b': ')', '1': ')'}[out[0][0]] + (')' if out[0] == '((' else ''))
    out.append(d.choice(('', '\n', ' a', '\n1\n')))
    text = ''.join(out)
    form = d.draw(1)
    try:
        values = reftext.parse(text)
    except reftext.Bad:
        d.label('not valid')
        raise Discard
    except reftext.Unsure:
        d.label('unsure')
        raise Discard
    d.case((text, form), '%r' % text)
    d.nontrivial()
    data = text.encode('utf-8') if form else text
    got = must('loads of %s' % clip(data), loads_stream, data)
    expect(values, got, 'text: %s' % clip(data))


def newlines(d):
    """Line breaks of every kind, plain and escaped, next to each other in long strings and long clobs."""
    lob = d.chance(30)
    parts = []
    for _ in range(1 + d.small(2)):
        parts.append("'''%s'''" % ''.join(d.choice(('\r', '\n', '\r\n', '\\\r', '\\\n', '\\\r\n', 'a', ' ', '\\n', '\\r', "'", "\\'", '\\\\', '\t' if lob else '\xe9'))
                                                for _ in range(1 + d.small(6))))
    text = d.choice(('', ' ', '\r', '\n\r')).join(parts)
    text = '{{%s}}' % text if lob else d.choice(('%s', '%s', '[%s]', '{%s:1}', '{a:%s}', '(%s)', 'a::%s')) % text
    form = d.draw(1)
    try:
        values = reftext.parse(text)
    except (reftext.Bad, reftext.Unsure):
        raise Discard
    d.case((text, form), '%r' % text)
    d.nontrivial()
    data = text.encode('utf-8') if form else text
    got = must('loads of %s' % clip(data), loads_stream, data)
    expect(values, got, 'text: %s' % clip(data))


def events(d):
    """The events of a managed reader over a generated spelling."""
    values = gen_stream(d, Opts(big=False), most=3, least=1)
    r = reftext.Renderer(d)
    text = r.stream(values, symbols_of)
    is_unicode = d.boolean()
    d.case((text, is_unicode), '%r' % text)
    d.nontrivial(bool(r.used))
    data = text if is_unicode else text.encode('utf-8')
    if not data:
        return
    keys, error = read_keys(managed_reader(text_reader(is_unicode=is_unicode)), [data])
    if error:
        raise Violation('%s on %s' % (error, clip(data)))
    want = keys_of_values(values)
    if keys != want:
        for a, b in zip(want, keys):
            if a != b:
                raise Violation('expected event %r, got %r\ntext: %s' % (a, b, clip(data)))
        raise Violation('%d events expected, got %d\ntext: %s' % (len(want), len(keys), clip(data)))


UNITS = [
    Unit('stream', spelling(lambda d: Opts(), 4), 6000, 300000, 'the text uses at least one unusual spelling'),
    Unit('scalars', spelling(scalar_opts, 5), 10000, 500000, 'the text uses at least one unusual spelling'),
    Unit('sexps', sexps, 10000, 600000, 'every case the reference reader settles'),
    Unit('newlines', newlines, 6000, 300000, 'every case the reference reader settles'),
    Unit('events', events, 4000, 150000, 'the text uses at least one unusual spelling'),
]
