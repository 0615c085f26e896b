"""Generators of Ion values in the form of :mod:`ionpbt.model`."""
import struct as _struct

from .model import mk, days_in_month, shift_minutes

KEYWORD_SYMBOLS = ('null', 'true', 'false', 'nan', 'null.int', 'null.null', 'inf', '+inf', '-inf')
OPERATOR_SYMBOLS = ('+', '-', '*', '/', '++', '<=>', '!', '%', '&', '.', '..', ';', '?', '@', '^', '`', '|', '~',
                    '#', '=', '-a', '+1', '-1', '//', '/*', '*/', '::', ':', ',', '[]', '(', '}', '{{', "'''")
DOLLAR_SYMBOLS = ('$', '$$', '$a', '$10', '$0', '$1', '$4', '$99', '$007', '$10a', '$ion', '$ion_1_0x', '$ion_1', '$1_0',
                  '$ion_symbol_table', '$ion_shared_symbol_table', '$ion_2_0', '$ion_1_1', '$ion_10_20', '$ion_a_b',
                  '$ion_', '$ion_1_', '$ion_1_0_', '$ion_1_0_0', '$ion__0', '$ion__1', '$ion_1__0', '$ion1_0', '$ion_00_01', '$ion_1_0$', '$ions')
PLAIN_SYMBOLS = ('a', 'b', 'c', 'd', 'x', 'foo', 'bar', 'abc', 'name', 'version', 'imports', 'symbols', 'max_id', '_',
                 '_a1', 'A', 'Zz9', 'nullx', 'truely', 'nano', 'T', 'e', 'd0', 'long_identifier_of_some_length')
ODD_SYMBOLS = ('', ' ', 'a b', '1', '1a', '12', '1.5', '2000T', '2000-01-01', 'a-b', 'a.b', "'", '"', "it's", 'a"b',
               'a\\b', '\\', 'a\nb', '\t', '\0', '\x7f', '\x01', 'a:', 'a::b', 'é', '\xa0', '\u2028', '\ufeff', '中文',
               '\U0001f4a9', 'a\U0010ffffb', '\ue000', '\x85')

_CHAR_CLASSES = (
    (30, 'ascii'), (6, 'quote'), (5, 'control'), (4, 'latin1'), (4, 'bmp'), (3, 'astral'), (2, 'edge'))
_QUOTES = '\'"\\/?\n\r\t{}[]():,'
_EDGES = '\0\x07\x08\x0b\x0c\x1b\x1f\x7f\x80\x85\x9f\xa0\xad\xff\u0100\u07ff\u0800\u2028\u2029\ud7ff\ue000\ufeff\ufffe' \
         '\uffff\U00010000\U0001f4a9\U000fffff\U0010ffff'


def gen_char(d):
    k = d.weighted(_CHAR_CLASSES)
    if k == 'ascii':
        return 'abcxyzABC 0123456789_$.-+'[d.draw(24)]
    if k == 'quote':
        return _QUOTES[d.draw(len(_QUOTES) - 1)]
    if k == 'control':
        return chr(d.draw(0x1f))
    if k == 'latin1':
        return chr(0x7f + d.draw(0x80))
    if k == 'bmp':
        c = 0x100 + d.draw(0xffff - 0x100)
        if 0xd800 <= c <= 0xdfff:
            c -= 0x1000
        return chr(c)
    if k == 'astral':
        return chr(0x10000 + d.draw(0xfffff))
    return _EDGES[d.draw(len(_EDGES) - 1)]


# encoded lengths at which a representation changes (nibble, one and two byte VarUInt)
BOUNDARY_LENGTHS = (11, 12, 13, 14, 15, 62, 63, 64, 125, 126, 127, 128, 129)
BIG_BOUNDARY_LENGTHS = (255, 256, 8180, 8196, 8200, 16380, 16383, 16384, 16386)


def gen_length(d, usual=6, big=True):
    k = d.weighted(((78, 0), (18, 1), (4 if big else 0, 2)))
    if k == 0:
        return d.small(usual)
    if k == 1:
        return d.choice(BOUNDARY_LENGTHS)
    return d.choice(BIG_BOUNDARY_LENGTHS[:2]) if not d.chance(12) else d.choice(BIG_BOUNDARY_LENGTHS)


def gen_text(d, usual=6, big=True):
    n = gen_length(d, usual, big)
    if n > 20:
        # one random piece, repeated: long texts need few decisions
        piece = ''.join(gen_char(d) for _ in range(1 + d.small(5)))
        return (piece * (n // len(piece) + 1))[:n]
    return ''.join(gen_char(d) for _ in range(n))


def gen_symbol_text(d, table=None, big=True):
    k = d.weighted(((50, 'plain'), (14, 'odd'), (8, 'op'), (8, 'kw'), (10, 'dollar'), (8, 'text'), (4, 'almost')))
    if k == 'almost':                       # something special, but for one more character or a few missing ones
        if d.chance(40):
            text = d.choice(('inf', 'nan', 'null', 'true', 'false', 'null.int', '$ion_1_0', '$10'))
            return text[:d.integer(1, len(text))] + d.choice(('', '', 'x', '_', '0', '$'))
        text = d.choice((PLAIN_SYMBOLS, KEYWORD_SYMBOLS, DOLLAR_SYMBOLS, OPERATOR_SYMBOLS)[d.draw(3)])
        extra = d.choice('\n\r\t\0 \x1f-+.:\'"\\/\xe9\u2028\u0660')
        return text + extra if d.draw(3) else extra + text
    if k == 'plain':
        return d.choice(PLAIN_SYMBOLS)
    if k == 'odd':
        return d.choice(ODD_SYMBOLS)
    if k == 'op':
        return d.choice(OPERATOR_SYMBOLS)
    if k == 'kw':
        return d.choice(KEYWORD_SYMBOLS)
    if k == 'dollar':
        how = d.draw(9)
        if how == 8:                        # as a symbol ID, of any length
            return '$' + ''.join(d.choice('0123456789') for _ in range(d.integer(1, 12)))
        if how == 9:                        # as a version marker, more or less
            return '$ion' + ''.join(d.choice(('_', '_', '0', '1', '12', '345', 'a', '$')) for _ in range(d.integer(1, 6)))
        return d.choice(DOLLAR_SYMBOLS)
    return gen_text(d, 6, big)


def gen_symbol(d, opts):
    if opts.unknown and d.chance(4):
        return None
    return gen_symbol_text(d, None, opts.big)


class Opts(object):
    """What may occur in the generated values."""

    def __init__(self, unknown=True, max_depth=4, breadth=5, dups=True, wide=True, big=True, annotations=True,
                 huge_exponents=True, long_fractions=True, types=None):
        self.unknown = unknown              # symbols of unknown text
        self.max_depth = max_depth
        self.breadth = breadth
        self.dups = dups                    # repeated field names
        self.wide = wide                    # occasionally many elements / many distinct symbols
        self.big = big
        self.annotations = annotations
        self.huge_exponents = huge_exponents
        self.long_fractions = long_fractions
        self.types = types


DEFAULT = Opts()


def gen_int(d):
    k = d.weighted(((40, 0), (30, 1), (20, 2), (10, 3)))
    if k == 0:
        v = d.small(300)
    elif k == 1:
        # around a power of two, where the number of octets changes
        e = d.choice((6, 7, 8, 13, 14, 15, 16, 21, 23, 24, 28, 31, 32, 35, 40, 47, 48, 53, 55, 56, 62, 63, 64, 65, 72,
                      96, 112, 120, 127, 128, 136))
        v = (1 << e) + d.draw(4) - 2
    elif k == 2:
        v = d.bits(d.integer(1, 80))
    else:
        v = d.bits(d.integer(80, 420))
    return -v if d.boolean() else v


_FLOATS = (0.0, -0.0, 1.0, -1.0, 0.5, 1.5, float('inf'), float('-inf'), float('nan'), 5e-324, 1.7976931348623157e308,
           2.2250738585072014e-308, 3.4028234663852886e38, 1.1754943508222875e-38, 1e16, 1e17, 123456789012345678.0,
           1e-5, 1e-4, 1e22, 1e21, 1e15, 0.1, 1 / 3.0, 9007199254740993.0, 16777217.0, 1e100, 4.35, 0.3)


def gen_float(d):
    k = d.weighted(((35, 0), (20, 1), (20, 2), (25, 3)))
    if k == 0:
        return d.choice(_FLOATS)
    if k == 1:
        return d.integer(-1000, 1000) / 8.0
    if k == 2:
        return _struct.unpack('>f', _struct.pack('>I', d.bits(32)))[0]
    return _struct.unpack('>d', _struct.pack('>Q', d.bits(64)))[0]


def gen_decimal(d, opts=DEFAULT):
    sign = d.draw(1)
    k = d.weighted(((15, 0), (45, 1), (25, 2), (15, 3)))
    if k == 0:
        coef = 0
    elif k == 1:
        coef = d.draw(1000)
    elif k == 2:
        coef = abs(gen_int(d))
    else:
        coef = d.bits(d.integer(64, 260))
    k = d.weighted(((20, 0), (45, 1), (25, 2), (10, 3)))
    if k == 0:
        exp = 0
    elif k == 1:
        exp = d.integer(0, 12) * (1 if d.boolean() else -1)
    elif k == 2:
        exp = d.choice((62, 63, 64, 65, 127, 128, 8191, 8192, 8193, 20000)) * (1 if d.boolean() else -1)
    elif opts.huge_exponents:
        exp = d.choice((999998, 999999, 1000000, 1048575, 1048576, 5000000, 134217728)) + d.draw(3)
        exp = exp if d.boolean() else -exp
    else:
        exp = d.integer(-300, 300)
    return sign, coef, exp


_OFFSETS = (0, None, 60, -60, 330, -480, 1, -1, 59, -59, 63, 64, -64, 840, -720, 1439, -1439, -90, -30)


def gen_timestamp(d, opts=DEFAULT):
    prec = d.weighted(((6, 's'), (2, 'm'), (2, 'D'), (1, 'M'), (1, 'Y')))
    k = d.weighted(((60, 0), (25, 1), (15, 2)))
    if k == 0:
        y = d.integer(1970, 2040)
    elif k == 1:
        y = d.choice((1, 2, 4, 99, 100, 400, 999, 1000, 1582, 1600, 1899, 1900, 1901, 2000, 2004, 2008, 2100, 9996, 9998,
                      9999))
    else:
        y = d.integer(1, 9999)
    if prec == 'Y':
        return ('Y', y) + (None,) * 7
    mo = d.integer(1, 12)
    if prec == 'M':
        return ('M', y, mo) + (None,) * 6
    last = days_in_month(y, mo)
    day = d.weighted(((6, 0), (1, last), (1, last - 1))) or d.integer(1, last)
    if prec == 'D':
        return ('D', y, mo, day) + (None,) * 5
    h = d.integer(0, 23)
    mi = d.integer(0, 59)
    off = d.choice(_OFFSETS) if not d.chance(20) else d.integer(-1439, 1439)
    if off is not None:
        # the UTC fields have to lie in the years the format (and Python) can express
        uy = shift_minutes(y, mo, day, h, mi, -off)[0] if 1 < y < 9999 else y
        if y in (1, 9999):
            if (y == 1 and (mo, day) <= (1, 2)) or (y == 9999 and (mo, day) >= (12, 30)):
                off = 0
        elif not 1 <= uy <= 9999:
            off = 0
    if prec == 'm':
        return ('m', y, mo, day, h, mi, None, None, off)
    s = d.integer(0, 59)
    frac = None
    k = d.weighted(((30, 0), (50, 1), (15, 2), (5, 3 if opts.long_fractions else 2)))
    if k == 1:
        n = d.integer(1, 6)
    elif k == 2:
        n = d.integer(7, 20)
    elif k == 3:
        n = d.choice((27, 28, 29, 30, 31, 40, 62, 63, 64, 65))
    if k:
        j = d.weighted(((5, 0), (2, 1), (2, 2), (1, 3)))
        if j == 0:
            c = d.draw(10 ** n - 1)
        elif j == 1:
            c = d.draw(9) % (10 ** n)
        elif j == 2:
            c = 10 ** n - 1 - d.draw(9) % (10 ** n)
        else:
            c = 0
        frac = (c, n)
    return ('s', y, mo, day, h, mi, s, frac, off)


def gen_lob(d, big=True):
    n = gen_length(d, 8, big)
    if n > 20:
        piece = d.bytes(1 + d.small(6))
        return (piece * (n // len(piece) + 1))[:n]
    return d.bytes(n)


def gen_null(d):
    return d.choice(('null', 'bool', 'int', 'float', 'decimal', 'timestamp', 'symbol', 'string', 'clob', 'blob', 'list',
                     'sexp', 'struct'))


_SCALAR_WEIGHTS = ((14, 'int'), (6, 'null'), (4, 'bool'), (9, 'float'), (12, 'decimal'), (14, 'timestamp'),
                   (14, 'symbol'), (12, 'string'), (5, 'clob'), (6, 'blob'))
_CONTAINER_WEIGHTS = ((10, 'list'), (7, 'sexp'), (11, 'struct'))


def gen_annotations(d, opts):
    if not opts.annotations or not d.chance(22):
        return ()
    n = d.weighted(((140, 1), (40, 2), (16, 3), (3, 14), (1 if opts.big else 0, 0)))
    if n == 0:                              # as many that their lengths or number need another octet
        n = d.choice((13, 15, 64, 127, 128, 130))
        names = [gen_symbol(d, opts) for _ in range(1 + d.small(3))]
        return tuple(names[i % len(names)] for i in range(n))
    return tuple(gen_symbol(d, opts) for _ in range(n))


def gen_scalar(d, opts=DEFAULT, types=None):
    start = d.begin()
    t = d.choice(types) if types else d.weighted(_SCALAR_WEIGHTS)
    if t == 'int':
        p = gen_int(d)
    elif t == 'null':
        p = gen_null(d)
    elif t == 'bool':
        p = d.boolean()
    elif t == 'float':
        p = gen_float(d)
    elif t == 'decimal':
        p = gen_decimal(d, opts)
    elif t == 'timestamp':
        p = gen_timestamp(d, opts)
    elif t == 'symbol':
        p = gen_symbol(d, opts)
    elif t == 'string':
        p = gen_text(d, 6, opts.big)
    else:
        p = gen_lob(d, opts.big)
    v = mk(t, p, gen_annotations(d, opts))
    d.end(start)
    return v


def gen_value(d, opts=DEFAULT, depth=0, budget=None):
    """One value; containers share a budget of nodes so that cases stay small."""
    if budget is None:
        budget = [40]
    budget[0] -= 1
    if depth == 0 and opts.max_depth >= 3 and d.chance(2):
        return gen_deep(d, opts)
    container = depth < opts.max_depth and budget[0] > 0 and d.chance(55 if depth == 0 else 32)
    if not container:
        return gen_scalar(d, opts, opts.types)
    start = d.begin()
    t = d.weighted(_CONTAINER_WEIGHTS)
    a = gen_annotations(d, opts)
    k = d.weighted(((91, 0), (6, 1), (3 if opts.wide else 0, 2)))
    if k == 0:
        n = d.small(opts.breadth)
        items = [_field(d, opts, t, gen_value(d, opts, depth + 1, budget)) for _ in range(n)]
    elif k == 1:
        # many small equal-looking elements: lengths around the nibble and VarUInt boundaries
        n = d.choice(BOUNDARY_LENGTHS)
        x = gen_scalar(d, opts, ('int', 'null', 'bool', 'string'))
        if len(repr(x)) > 60:
            x = mk('int', 7)
        name = gen_symbol(d, opts) if t == 'struct' else None
        items = [(name, x) if t == 'struct' else x for _ in range(n)]
        if t == 'struct' and not opts.dups:
            items = items[:1]
    else:
        # many distinct symbols
        n = d.choice((60, 117, 118, 119, 125, 130, 200))
        stem = d.choice(('s', 'é', '$'))
        names = ['%s%d' % (stem, i) for i in range(n)]
        if t == 'struct':
            items = [(s, mk('int', 1)) for s in names]
        else:
            items = [mk('symbol', s) for s in names]
    if t == 'struct' and not opts.dups:
        seen, kept = set(), []
        for name, x in items:
            if name not in seen:
                seen.add(name)
                kept.append((name, x))
        items = kept
    v = mk(t, tuple(items), a)
    d.end(start)
    return v


def gen_deep(d, opts=DEFAULT):
    """A long chain of containers in containers, with a few scalars beside them."""
    start = d.begin()
    small = Opts(unknown=opts.unknown, max_depth=0, dups=opts.dups, wide=False, big=False, annotations=opts.annotations,
                 huge_exponents=False, long_fractions=False, types=opts.types)
    v = gen_scalar(d, small, small.types) if d.boolean() else mk('list', ())
    plain = d.choice((None, 'list', 'sexp', 'struct'))
    for _ in range(d.weighted(((5, d.integer(5, 20)), (3, d.integer(20, 60)), (1, d.integer(60, 110))))):
        t = plain or d.weighted(_CONTAINER_WEIGHTS)
        items = [(gen_symbol(d, small), v) if t == 'struct' else v]
        if d.chance(20):
            x = gen_scalar(d, small, ('int', 'null', 'bool', 'symbol', 'string'))
            items.insert(d.draw(1), ('beside', x) if t == 'struct' else x)
        v = mk(t, tuple(items), gen_annotations(d, small) if d.chance(20) else ())
    d.end(start)
    return v


def _field(d, opts, t, value):
    if t != 'struct':
        return value
    return gen_symbol(d, opts), value


def is_system_value(v):
    """Whether a top-level value would be taken for part of the encoding rather than for user data."""
    t, p, a = v
    if t == 'symbol' and not a and p == '$ion_1_0':
        return True
    if a and a[0] == '$ion_symbol_table' and (t == 'struct' or (t == 'null' and p == 'struct')):
        return True
    return False


def gen_top(d, opts=DEFAULT):
    v = gen_value(d, opts)
    if is_system_value(v):
        v = mk(v[0], v[1], ('q',) + v[2])
    return v


def gen_stream(d, opts=DEFAULT, most=5, least=0):
    budget = [60]
    out = []
    for _ in range(d.small(most, least)):
        start = d.begin()
        v = gen_value(d, opts, 0, budget)
        if is_system_value(v):
            v = mk(v[0], v[1], ('q',) + v[2])
        out.append(v)
        d.end(start)
    if out and d.chance(14):
        # a value which Python considers equal to another one
        from .tweak import twin
        start = d.begin()
        i = d.draw(len(out) - 1)
        v = twin(d, out[i], opts)
        if opts.types is None and opts.max_depth > 0 and d.chance(30):
            out[i] = mk(d.choice(('list', 'sexp')), [out[i], v])
        else:
            if is_system_value(v):
                v = mk(v[0], v[1], ('q',) + v[2])
            out.insert(d.integer(i, len(out)), v)
        d.end(start)
    if opts.types is None:
        # the streams of one case resemble each other
        earlier = [v for o, v in d.memory if o is opts]
        if earlier and d.chance(30):
            from .tweak import twin
            start = d.begin()
            v = d.choice(earlier)
            if not d.chance(20):
                v = twin(d, v, opts)
            if is_system_value(v):
                v = mk(v[0], v[1], ('q',) + v[2])
            if len(out) < most:
                out.insert(d.integer(0, len(out)), v)
            elif out:
                out[d.draw(len(out) - 1)] = v
            d.end(start)
        d.memory += [(opts, v) for v in out]
    return out
