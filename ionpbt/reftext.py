"""Reference codec for text Ion 1.0, written from the specification and its grammar.

:class:`Renderer` picks, by a :class:`~ionpbt.engine.Data`, one of the many legal spellings of a stream of model values.
:func:`parse` is a strict recursive parser; it raises :class:`Bad` for what the grammar forbids and :class:`Unsure`
where the specification does not settle the matter.
"""
import base64
import re

from .model import mk, days_in_month
from .refsym import Bad, Unsure, Context

WS = ' \t\n\r\v\f'
OPERATORS = '!#%&*+-./;<=>?@^`|~'
IDENT = re.compile(r'[A-Za-z_$][A-Za-z0-9_$]*\Z')
KEYWORDS = ('null', 'true', 'false', 'nan')
SID = re.compile(r'\$[0-9]+\Z')
IVM_LIKE = re.compile(r'\$ion_[0-9]+_[0-9]+\Z')
NULL_TYPES = ('null', 'bool', 'int', 'float', 'decimal', 'timestamp', 'symbol', 'string', 'clob', 'blob', 'list', 'sexp',
              'struct')
_ESC = {'\0': '0', '\a': 'a', '\b': 'b', '\t': 't', '\n': 'n', '\f': 'f', '\r': 'r', '\v': 'v', '"': '"', "'": "'",
        '\\': '\\', '/': '/', '?': '?'}
_UNESC = dict((v, k) for k, v in _ESC.items())


_MAY_TOUCH_COMMENT = re.compile(r'(["\')\]}]|(^|[\s:])[A-Za-z_$][A-Za-z0-9_$]*)\Z')
_ENDS_IN_NAME = re.compile(r'(^|[\s:])[A-Za-z_$][A-Za-z0-9_$]*\Z')
_INF_TOKEN = re.compile(r'inf(?![A-Za-z0-9_$])')


def is_operator(text):
    return bool(text) and all(c in OPERATORS for c in text)


# -- rendering ----------------------------------------------------------------------------------------------------------

class Renderer(object):
    def __init__(self, d, context=None, ascii_only=False):
        self.d = d
        self.ctx = context or Context()
        self.ascii_only = ascii_only
        self.used = set()

    def odd(self, what, percent):
        if not self.d.chance(percent):
            return False
        self.used.add(what)
        return True

    # whitespace ---------------------------------------------------------------------------------------------------------
    def ws(self, need=False, percent=25, after=''):
        """Whitespace and comments (at least one character if needed); a comment comes first only after tokens that it may touch."""
        d = self.d
        if not need and not d.chance(percent):
            return ''
        if after and _MAY_TOUCH_COMMENT.search(after) and d.chance(10):
            self.used.add('comment')
            return d.choice(('/* c */', '/**/', '// c\n', '//\n', '/***/', '//\r\n', '/*\'*/', '/*:*/', '//"\r'))
        out = d.weighted(((20, ' '), (3, '\n'), (2, '\t'), (2, '\r\n'), (1, '\r'), (1, '\v'), (1, '\f'), (1, '  \n ')))
        if d.chance(8):
            self.used.add('comment')
            out += d.choice(('/* c */', '/**/', '// c\n', '//\n', '/* * / \n // ** */', '/*"\'{[(*/', '// \'\'\' "\r\n',
                             '//x\r', '/***/', '/*\x04\x00*/', '//\x04\n', '/*//*/', '/*/*/', '/*/ 2 */', '/*/**/', '/*//**/', '/*/\n*/', '// é \U0001f4a9\n' if not self.ascii_only else '// e\n'))
            if d.boolean():
                out += d.choice((' ', '\n'))
        return out

    # text ----------------------------------------------------------------------------------------------------------------
    def escaped(self, c, clob=False):
        """An escape sequence for one character."""
        n = ord(c)
        forms = []
        if c in _ESC:
            forms.append('\\' + _ESC[c])
        if n <= 0xff:
            forms.append('\\x%02x' % n)
        if not clob:
            if n <= 0xffff:
                forms.append('\\u%04x' % n)
            else:
                forms.append('\\u%04x\\u%04x' % (0xd800 + (n - 0x10000 >> 10), 0xdc00 + (n & 0x3ff)))
            forms.append('\\U%08x' % n)
        f = self.d.choice(forms)
        if f[1] in 'xuU' and self.d.boolean():
            f = f.replace('a', 'A').replace('b', 'B').replace('c', 'C').replace('d', 'D').replace('e', 'E').replace('f', 'F')
        return f

    def quoted(self, text, delimiter, clob=False):
        """The body of quoted text, or of one segment of a long string."""
        d = self.d
        out = []
        long_form = delimiter == "'''"
        heavy = d.chance(8)
        for i, c in enumerate(text):
            n = ord(c)
            must = c == '\\' or c == delimiter[0] or (n < 0x20 and c not in '\t\v\f' and not (c == '\n' and long_form)) \
                or (clob and n > 0x7f) or 0x7f <= n <= 0x9f or (self.ascii_only and n > 0x7e)
            if long_form and c == "'":
                # one or two quotes inside of a segment are data
                must = not (i + 1 < len(text) and text[i + 1] != "'" and (i == 0 or text[i - 1] != "'") and d.boolean())
            if c == '\n' and out and out[-1] == '\r':
                must = True  # together they would be one newline
            if must or heavy or d.chance(2):
                out.append(self.escaped(c, clob))
            elif c == '\n' and long_form and d.chance(60):
                self.used.add('newline normalization')
                out.append(d.choice(('\r\n', '\r')))
            else:
                out.append(c)
            if d.chance(1):
                self.used.add('escaped newline')
                out.append(d.choice(('\\\n', '\\\r\n')))
        return ''.join(out)

    def long_string(self, text, clob=False):
        self.used.add('long string')
        n = self.d.weighted(((5, 1), (3, 2), (1, 3)))
        cuts = sorted(self.d.integer(0, len(text)) for _ in range(n - 1))
        parts = [text[a:b] for a, b in zip([0] + cuts, cuts + [len(text)])]
        if n > 1:
            self.used.add('segments')
        out = []
        for i, p in enumerate(parts):
            if i:
                out.append(self.clob_ws() if clob else self.ws(percent=60))
            body = self.quoted(p, "'''", clob)
            out.append("'''" + body + "'''")
        return ''.join(out)

    def clob_ws(self):
        return self.d.choice(('', ' ', '\n', '\t ', '\r\n')) if self.d.boolean() else ''

    def symbol(self, s, sexp=False, value=False):
        """A symbol as value, annotation or field name."""
        d = self.d
        ids = [i for i, x in enumerate(self.ctx.slots) if x == s]
        if s is None or isinstance(s, tuple):
            return '$%d' % d.choice(ids)
        if [i for i in ids if i > 0] and self.odd('symbol ID', 25):
            return '$%d' % d.choice([i for i in ids if i > 0])
        if IDENT.match(s) and s not in KEYWORDS and not SID.match(s) and not IVM_LIKE.match(s):
            if not self.odd('needless quotes', 12):
                return s
        elif sexp and value and is_operator(s) and '//' not in s and '/*' not in s and not d.chance(20):
            self.used.add('operator')
            return s
        return "'" + self.quoted(s, "'") + "'"

    # values --------------------------------------------------------------------------------------------------------------
    def after(self, prev, v, sexp=False):
        """The value after another one; two long strings in a row would be one."""
        if v[0] == 'string' and not v[2] and prev.endswith("'''"):
            return '"' + self.quoted(v[1], '"') + '"'
        return self.value(v, sexp)

    def value(self, v, sexp=False):
        t, p, a = v
        out = []
        for s in a:
            out.append(self.symbol(s))
            out.append(self.ws(percent=8))
            out.append('::')
            out.append(self.ws(percent=12))
        out.append(self.bare(t, p, sexp))
        return ''.join(out)

    def underscores(self, digits, percent=6):
        if len(digits) < 2 or not self.d.chance(percent):
            return digits
        self.used.add('underscores')
        out = [digits[0]]
        for c in digits[1:]:
            if self.d.chance(30):
                out.append('_')
            out.append(c)
        return ''.join(out)

    def bare(self, t, p, sexp):
        d = self.d
        if t == 'null':
            if p == 'null':
                return d.choice(('null', 'null.null'))
            return 'null.' + p
        if t == 'bool':
            return 'true' if p else 'false'
        if t == 'int':
            sign = '-' if p < 0 or (p == 0 and d.chance(10)) else ''
            k = d.weighted(((7, 0), (2, 1), (1, 2)))
            if k == 0:
                return sign + self.underscores(str(abs(p)))
            if k == 1:
                self.used.add('hexadecimal')
                h = '%x' % abs(p)
                if d.boolean():
                    h = h.upper()
                if d.chance(10):
                    h = '00' + h
                return sign + d.choice(('0x', '0X')) + self.underscores(h)
            self.used.add('binary')
            return sign + d.choice(('0b', '0B')) + self.underscores('{:b}'.format(abs(p)))
        if t == 'float':
            return self.float(p)
        if t == 'decimal':
            return self.decimal(p)
        if t == 'timestamp':
            return self.timestamp(p)
        if t == 'symbol':
            return self.symbol(p, sexp, True)
        if t == 'string':
            if d.chance(22):
                return self.long_string(p)
            return '"' + self.quoted(p, '"') + '"'
        if t == 'clob':
            text = p.decode('latin-1')
            body = self.long_string(text, True) if d.chance(30) else '"' + self.quoted(text, '"', True) + '"'
            return '{{' + self.clob_ws() + body + self.clob_ws() + '}}'
        if t == 'blob':
            b = base64.b64encode(p).decode('ascii')
            if len(b) < 200 and d.chance(20):
                self.used.add('spaced blob')
                b = ''.join(c + (d.choice((' ', '\n', '\t', '\r\n')) if d.chance(25) else '') for c in b)
            return '{{' + self.clob_ws() + b + self.clob_ws() + '}}'
        if t == 'list':
            return self.delimited('[', [self.value(x) for x in p], ']')
        if t == 'struct':
            return self.delimited('{', [self.field(n) + self.ws(percent=8) + ':' + self.ws(percent=60) + self.value(x)
                                        for n, x in p], '}')
        return self.sexp(p)

    def field(self, name):
        d = self.d
        if isinstance(name, str) and self.odd('string as field name', 12):
            if d.chance(30):
                return self.long_string(name)
            return '"' + self.quoted(name, '"') + '"'
        return self.symbol(name)

    def delimited(self, opening, items, closing):
        out = [opening, self.ws()]
        for i, x in enumerate(items):
            out.append(x)
            last = i == len(items) - 1
            # a comment directly after a number is not covered by the specification's list of terminators
            out.append(self.ws(percent=10, after=x))
            if not last:
                out.append(',')
                out.append(self.ws(percent=50))
            elif self.odd('trailing comma', 8):
                out.append(',')
                out.append(self.ws())
        # braces never touch: }} would be right for nested structs but the renderer keeps {{ for lobs
        if opening == '{' and len(out) > 2 and out[1] == '' and out[2].startswith('{'):
            out[1] = ' '
        out.append(closing)
        return ''.join(out)

    def sexp(self, p):
        d = self.d
        out = ['(', self.ws()]
        prev = last = ''
        for i, x in enumerate(p):
            s = self.after(last, x, True)
            last = s
            if i:
                # self-delimiting tokens may touch
                tight = (prev in ')]}"' or s[0] in '([{"') and not prev == "'" and not (prev == '{' or s[0] == "'" and prev == "'")
                if tight and self.odd('touching values', 40):
                    sep = ''
                elif self.may_touch(p[i - 1], out[-1], x, s) and self.odd('touching operators', 40):
                    sep = ''
                else:
                    sep = self.ws(need=True, after=out[-1])
                out.append(sep)
            out.append(s)
            prev = s[-1]
        out.append(self.ws())
        out.append(')')
        return ''.join(out)

    def may_touch(self, v, before, w, after):
        """Names and operators end where the other begins."""
        if w[0] == 'symbol' and after[0] in OPERATORS:
            if v[0] in ('symbol', 'bool') or v[0] == 'float' and before[-1] in 'nf':
                return _ENDS_IN_NAME.search(before) is not None or before.endswith('inf')
            return v[0] == 'null' and after[0] != '.'
        if v[0] == 'symbol' and before[-1] in OPERATORS:
            return IDENT.match(after[0]) is not None and not (before[-1] in '+-' and _INF_TOKEN.match(after))
        return False

    def float(self, f):
        d = self.d
        if f != f:
            return 'nan'
        if f in (float('inf'), float('-inf')):
            return '+inf' if f > 0 else '-inf'
        s = repr(f)
        sign = ''
        if s[0] == '-':
            sign, s = '-', s[1:]
        mant, _, exp = s.partition('e')
        whole, _, frac = mant.partition('.')
        e = int(exp) if exp else 0
        digits = whole + frac
        point = len(whole)
        if d.chance(50):
            # move the point
            k = d.integer(0, len(digits))
            e += point - k
            point = k
        whole, frac = digits[:point], digits[point:]
        if not whole:
            whole = '0'
        stripped = whole.lstrip('0')
        whole = stripped or '0'
        if d.chance(10):
            frac += '0' * d.integer(1, 20)
        mant = self.underscores(whole) + ('.' + self.underscores(frac) if frac else d.choice(('', '.', '.0')))
        exp = '%d' % abs(e)
        if d.chance(10):
            exp = '0' + exp
        esign = '-' if e < 0 else d.choice(('', '+'))
        return sign + mant + d.choice(('e', 'E')) + esign + exp

    def decimal(self, p):
        d = self.d
        sign, coef, exp = p
        digits = str(coef)
        # the number of digits after the point is free as long as point and exponent give the same exponent
        if exp < 0 and exp > -60 and d.chance(50):
            frac_len = -exp
        else:
            frac_len = d.integer(0, min(len(digits) + 2, 40)) if d.chance(40) else 0
        e = exp + frac_len
        padded = digits.rjust(frac_len + 1, '0')
        whole, frac = padded[:len(padded) - frac_len], padded[len(padded) - frac_len:]
        out = ('-' if sign else '') + self.underscores(whole)
        if frac_len:
            out += '.' + self.underscores(frac)
        elif d.chance(30) or e == 0 and d.boolean():
            out += '.'
        if e != 0 or '.' not in out or d.chance(10):
            out += d.choice(('d', 'D')) + ('-' if e < 0 or (e == 0 and d.chance(10)) else d.choice(('', '+'))) + str(abs(e))
        return out

    def timestamp(self, ts):
        prec, y, mo, day, h, mi, s, frac, off = ts
        d = self.d
        out = '%04d' % y
        if prec == 'Y':
            return out + 'T'
        out += '-%02d' % mo
        if prec == 'M':
            return out + 'T'
        out += '-%02d' % day
        if prec == 'D':
            return out + d.choice(('', 'T'))
        out += 'T%02d:%02d' % (h, mi)
        if prec == 's':
            out += ':%02d' % s
            if frac is not None:
                out += '.' + str(frac[0]).rjust(frac[1], '0')
        if off is None:
            return out + '-00:00'
        if off == 0:
            return out + d.choice(('Z', '+00:00'))
        return out + '%s%02d:%02d' % ('-' if off < 0 else '+', abs(off) // 60, abs(off) % 60)

    # -- streams ---------------------------------------------------------------------------------------------------------
    def local_table(self, slots, append):
        symbols = mk('list', [mk('string', s) if s is not None else mk('null', 'string') for s in slots])
        fields = [('symbols', symbols)]
        if append:
            fields.append(('imports', mk('symbol', '$ion_symbol_table')))
        fields = self.d.shuffle(fields)
        text = self.value(mk('struct', tuple(fields), ('$ion_symbol_table',)))
        self.ctx.local_table(fields)
        return text

    def stream(self, values, symbols_of):
        d = self.d
        out = [self.ws()]
        last = ''
        for v in values:
            if self.odd('version marker', 6):
                out.append('$ion_1_0')
                out.append(self.ws(need=True))
                self.ctx.version_marker()
                last = ''
            if self.odd('local table', 12):
                # later symbols may be written by their IDs
                known = [s for s in symbols_of(v) if s is not None]
                slots = d.subset(known, 70) + ([None] if d.chance(20) else []) + d.subset(['x', 'y', ''], 20)
                out.append(self.local_table(slots, d.boolean()))
                out.append(self.ws(need=True))
                last = ''
            text = last = self.after(last, v)
            out.append(text)
            out.append(self.ws(need=True))
        if len(out) > 1 and d.chance(40) and values and not out[-1].strip(WS):
            out.pop()  # the last value ends with the stream
        elif d.chance(6):
            out.append('// the end')
        return ''.join(out)


# -- parsing ------------------------------------------------------------------------------------------------------------

_NUM_STOP = set('{}[](),"\'' + WS)
_INT = re.compile(r'-?(0|[1-9](_?[0-9])*)\Z')
_HEX = re.compile(r'(-?)0[xX]([0-9a-fA-F](_?[0-9a-fA-F])*)\Z')
_BIN = re.compile(r'(-?)0[bB]([01](_?[01])*)\Z')
_REAL = re.compile(r'(-?)(0|[1-9](?:_?[0-9])*)(?:(\.)([0-9](?:_?[0-9])*)?)?(?:([eEdD])([+-]?[0-9]+))?\Z')
_TS = re.compile(r'([0-9]{4})(?:T|-([0-9]{2})(?:T|-([0-9]{2})(?:T|T([0-9]{2}):([0-9]{2})(?::([0-9]{2})(?:\.([0-9]+))?)?'
                 r'(Z|[+-][0-9]{2}:[0-9]{2}))?))\Z')


class Parser(object):
    def __init__(self, text, context=None):
        self.s = text
        self.n = len(text)
        self.i = 0
        self.ctx = context or Context()
        self.notes = set()

    def peek(self, k=0):
        j = self.i + k
        return self.s[j] if j < self.n else ''

    def at(self, lit):
        return self.s.startswith(lit, self.i)

    def skip_ws(self, comments=True):
        while self.i < self.n:
            c = self.s[self.i]
            if c in WS:
                self.i += 1
            elif comments and c == '/' and self.peek(1) == '/':
                while self.i < self.n and self.s[self.i] not in '\r\n':
                    self.i += 1
            elif comments and c == '/' and self.peek(1) == '*':
                j = self.s.find('*/', self.i + 2)
                if j < 0:
                    raise Bad('comment without end')
                self.i = j + 2
            else:
                return

    # -- quoted text
    def quoted(self, delimiter, clob=False):
        """Reads up to the closing delimiter; the opening one has been read."""
        out = []
        long_form = delimiter == "'''"
        while True:
            if self.i >= self.n:
                raise Bad('quoted text without end')
            if self.at(delimiter):
                self.i += len(delimiter)
                return ''.join(out)
            c = self.s[self.i]
            n = ord(c)
            self.i += 1
            if c == '\\':
                out.append(self.escape(clob))
                continue
            if c in '\r\n':
                if not long_form:
                    raise Bad('newline in short text')
                if c == '\r':
                    if self.peek() == '\n':
                        self.i += 1
                    c = '\n'
                out.append(c)
                continue
            if n < 0x20 and c not in '\t\v\f':
                raise Bad('control character in text')
            if clob and n > 0x7f:
                raise Bad('not ASCII in a clob')
            if 0xd800 <= n <= 0xdfff:
                raise Unsure('surrogate')
            out.append(c)

    def escape(self, clob):
        c = self.peek()
        if not c:
            raise Bad('escape without end')
        self.i += 1
        if c == '\r':
            if self.peek() == '\n':
                self.i += 1
            return ''
        if c == '\n':
            return ''
        if c in _UNESC:
            return _UNESC[c]
        width = {'x': 2, 'u': 4, 'U': 8}.get(c)
        if width is None or (clob and c != 'x'):
            raise Bad('invalid escape')
        h = self.s[self.i:self.i + width]
        if len(h) != width or any(x not in '0123456789abcdefABCDEF' for x in h):
            raise Bad('invalid digits of an escape')
        self.i += width
        n = int(h, 16)
        if c == 'u' and 0xd800 <= n <= 0xdbff:
            low = re.compile(r'\\u([dD][c-fC-F][0-9a-fA-F]{2})').match(self.s, self.i)
            if low:
                self.i += 6
                return chr(0x10000 + ((n & 0x3ff) << 10) + (int(low.group(1), 16) & 0x3ff))
        if 0xd800 <= n <= 0xdfff:
            raise Unsure('escaped surrogate')
        if n > 0x10ffff:
            raise Bad('escaped code point out of range')
        return chr(n)

    def long_strings(self, clob=False):
        out = []
        while True:
            self.i += 3
            out.append(self.quoted("'''", clob))
            save = self.i
            self.skip_ws(not clob)
            if not self.at("'''"):
                self.i = save
                return ''.join(out)

    # -- symbols
    def identifier(self):
        j = self.i
        while j < self.n and (self.s[j].isalnum() and self.s[j] < '\x80' or self.s[j] in '_$'):
            j += 1
        t = self.s[self.i:j]
        self.i = j
        return t

    def resolve_identifier(self, t):
        if SID.match(t):
            if len(t) > 2 and t[1] == '0':
                raise Unsure('leading zeros in a symbol ID')
            if len(t) > 12:
                raise Unsure('huge symbol ID')
            return self.ctx.sid(int(t[1:]))
        return t

    # -- values
    def value(self, container, depth):
        """Parses annotations and a value; (value, was it an unquoted unannotated symbol)."""
        anns = []
        while True:
            c = self.peek()
            sym = None
            start = self.i
            if c == '':
                raise Bad('value missing')
            if c == "'" and not self.at("'''"):
                self.i += 1
                if self.peek() == "'" and self.peek(1) == "'":
                    raise Unsure('quotes')
                sym = self.quoted("'")
                kind = 'quoted'
            elif c in 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_$':
                t = self.identifier()
                kind = 'identifier'
                if t in KEYWORDS:
                    kind = 'keyword'
                sym = t
            else:
                kind = None
            if kind is None:
                break
            save = self.i
            self.skip_ws()
            if self.at('::'):
                if kind == 'keyword':
                    raise Bad('keyword as annotation')
                self.i += 2
                if self.peek() == ':':
                    raise Bad('three colons')
                anns.append(self.resolve_identifier(sym) if kind == 'identifier' else sym)
                self.skip_ws()
                continue
            self.i = save
            if kind == 'keyword':
                v = self.keyword(sym, container)
                return mk(v[0], v[1], anns), False
            if kind == 'identifier':
                if not anns and container is None and IVM_LIKE.match(sym):
                    if sym == '$ion_1_0':
                        return mk('symbol', sym), True
                    raise Bad('version %s' % sym)
                return mk('symbol', self.resolve_identifier(sym), anns), False
            return mk('symbol', sym, anns), kind == 'quoted' and container is None and not anns and sym == '$ion_1_0' and None
        v = self.bare(container, depth)
        return mk(v[0], v[1], anns), False

    def keyword(self, t, container):
        if t == 'null':
            if self.peek() == '.':
                if container == 'sexp':
                    j = self.i + 1
                    m = re.compile('[a-z]*').match(self.s, j).group()
                    if m not in NULL_TYPES:
                        raise Unsure('null followed by an operator')
                self.i += 1
                name = self.identifier()
                if name not in NULL_TYPES:
                    raise Bad('null.%s' % name)
                return 'null', name
            return 'null', 'null'
        if t == 'nan':
            return 'float', float('nan')
        return 'bool', t == 'true'

    def bare(self, container, depth):
        c = self.peek()
        if c == '"':
            self.i += 1
            return 'string', self.quoted('"')
        if c == "'":
            return 'string', self.long_strings()
        if c == '{':
            if self.peek(1) == '{':
                return self.lob()
            return self.container('struct', depth)
        if c == '[':
            return self.container('list', depth)
        if c == '(':
            return self.container('sexp', depth)
        if c.isdigit() and c < '\x80' or (c == '-' and self.peek(1).isdigit() and self.peek(1) < '\x80'):
            return self.number(container)
        for lit in ('+inf', '-inf'):
            if self.at(lit):
                nxt = self.peek(4)
                if nxt == '' or nxt in _NUM_STOP:
                    self.i += 4
                    return 'float', float(lit)
                if nxt == '/' and self.peek(5) in ('/', '*'):
                    raise Unsure('comment after inf')
                if container == 'sexp' and nxt in OPERATORS:
                    self.i += 4
                    return 'float', float(lit)
                if container != 'sexp':
                    raise Bad('inf')
        if container == 'sexp' and c in OPERATORS:
            j = self.i
            while j < self.n and self.s[j] in OPERATORS:
                j += 1
            t = self.s[self.i:j]
            if '//' in t or '/*' in t:
                raise Unsure('comment in an operator')
            if t[-1] in '+-' and j < self.n and (self.s[j].isdigit() or _INF_TOKEN.match(self.s, j)):
                raise Unsure('operator before a number')
            self.i = j
            return 'symbol', t
        raise Bad('character %r' % c)

    def number(self, container):
        j = self.i
        while j < self.n and self.s[j] not in _NUM_STOP and not (self.s[j] == '/'):
            j += 1
        t = self.s[self.i:j]
        if j < self.n and self.s[j] == '/':
            if self.s[j + 1:j + 2] in ('/', '*'):
                self.notes.add('comment after number')
            elif container == 'sexp':
                raise Unsure('operator after a number')
            else:
                raise Bad('slash after a number')
        if any(c in OPERATORS and c not in '+-.' for c in t) and container == 'sexp':
            raise Unsure('operator after a number')
        self.i = j
        if len(t) > 3000:
            raise Unsure('number of %d characters' % len(t))
        m = _TS.match(t)
        if m:
            return 'timestamp', self.timestamp(m)
        if _INT.match(t):
            return 'int', int(t.replace('_', ''))
        m = _HEX.match(t)
        if m:
            n = int(m.group(2).replace('_', ''), 16)
            return 'int', -n if m.group(1) else n
        m = _BIN.match(t)
        if m:
            n = int(m.group(2).replace('_', ''), 2)
            return 'int', -n if m.group(1) else n
        m = _REAL.match(t)
        if m and (m.group(3) or m.group(5)):
            sign, whole, point, frac, mark, exp = m.groups()
            frac = (frac or '').replace('_', '')
            whole = whole.replace('_', '')
            if mark in ('e', 'E'):
                return 'float', float(sign + whole + '.' + (frac or '0') + 'e' + exp)
            if exp and len(exp.lstrip('+-0')) > 9:
                raise Unsure('huge exponent')
            return 'decimal', (1 if sign else 0, int(whole + frac), (int(exp) if exp else 0) - len(frac))
        if re.match(r'-?[0-9_.]*[eEdD][+-]?[0-9]+(_[0-9]+)+\Z', t):
            raise Unsure('underscores in an exponent')
        if container == 'sexp' and any(c in OPERATORS for c in t[1:]):
            raise Unsure('operator after a number')
        raise Bad('number %r' % t[:60])

    def timestamp(self, m):
        y, mo, d, h, mi, s, frac, off = m.groups()
        y = int(y)
        if y < 1:
            raise Bad('year 0')
        if mo is None:
            return ('Y', y) + (None,) * 7
        mo = int(mo)
        if not 1 <= mo <= 12:
            raise Bad('month')
        if d is None:
            return ('M', y, mo) + (None,) * 6
        d = int(d)
        if not 1 <= d <= days_in_month(y, mo):
            raise Bad('day')
        if h is None:
            return ('D', y, mo, d) + (None,) * 5
        h, mi = int(h), int(mi)
        if h > 23 or mi > 59:
            raise Bad('time')
        if off == 'Z':
            o = 0
        elif off == '-00:00':
            o = None
        else:
            oh, om = int(off[1:3]), int(off[4:6])
            if oh > 23 or om > 59:
                raise Bad('offset')
            o = (oh * 60 + om) * (-1 if off[0] == '-' else 1)
        if s is None:
            return ('m', y, mo, d, h, mi, None, None, o)
        s = int(s)
        if s > 59:
            raise Bad('second')
        return ('s', y, mo, d, h, mi, s, None if frac is None else (int(frac), len(frac)), o)

    def lob(self):
        self.i += 2
        self.skip_ws(False)
        if self.peek() == '"' or self.at("'''"):
            if self.peek() == '"':
                self.i += 1
                text = self.quoted('"', True)
            else:
                text = self.long_strings(True)
            self.skip_ws(False)
            if not self.at('}}'):
                raise Bad('clob without end')
            self.i += 2
            return 'clob', text.encode('latin-1')
        j = self.s.find('}', self.i)
        if j < 0 or self.s[j:j + 2] != '}}':
            raise Bad('blob without end')
        raw = self.s[self.i:j]
        self.i = j + 2
        b = ''.join(c for c in raw if c not in WS)
        m = re.match(r'[A-Za-z0-9+/]*(={0,2})\Z', b)
        if not m or len(b) % 4:
            raise Bad('base64')
        data = base64.b64decode(b)
        if base64.b64encode(data).decode('ascii') != b:
            raise Unsure('unused bits in base64')
        return 'blob', data

    def container(self, t, depth):
        if depth > 150:
            raise Unsure('very deep')
        self.i += 1
        closing = {'list': ']', 'sexp': ')', 'struct': '}'}[t]
        items = []
        while True:
            self.skip_ws()
            c = self.peek()
            if c == '':
                raise Bad('container without end')
            if c == closing:
                self.i += 1
                return t, tuple(items)
            if t == 'struct':
                name = self.field_name()
                self.skip_ws()
                if self.peek() != ':' or self.peek(1) == ':':
                    raise Bad('colon missing')
                self.i += 1
                self.skip_ws()
                v, _ = self.value(t, depth + 1)
                items.append((name, v))
            else:
                v, _ = self.value(t, depth + 1)
                items.append(v)
            if t != 'sexp':
                self.skip_ws()
                if self.peek() == ',':
                    self.i += 1
                elif self.peek() != closing:
                    raise Bad('comma missing')
            else:
                self.adjacency(v, t)

    def field_name(self):
        c = self.peek()
        if c == '"':
            self.i += 1
            return self.quoted('"')
        if self.at("'''"):
            return self.long_strings()
        if c == "'":
            self.i += 1
            return self.quoted("'")
        if c in 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_$':
            t = self.identifier()
            if t in KEYWORDS:
                raise Bad('keyword as field name')
            return self.resolve_identifier(t)
        raise Bad('field name')

    def adjacency(self, v, container):
        """Two tokens without whitespace in between."""
        c = self.peek()
        if c == '' or c in WS or c in ')]}':
            return
        p = self.s[self.i - 1]
        if p == "'" and c == "'":
            raise Unsure('touching quotes')
        if p in ')]}"\'' or c in '([{"\'':
            return
        if c == '/' and self.peek(1) in ('/', '*'):
            return
        if container == 'sexp' and v[0] == 'symbol' and p in OPERATORS and IDENT.match(c):
            return
        if container == 'sexp' and c in OPERATORS and not (c in '+-' and self.peek(1).isdigit()):
            if v[0] in ('symbol', 'null', 'bool') and IDENT.match('_' + p) or v[0] == 'float' and p in 'nf':
                return
        raise Unsure('touching tokens')

    def stream(self):
        out = []
        while True:
            self.skip_ws()
            if self.i >= self.n:
                return out
            v, marker = self.value(None, 0)
            self.adjacency(v, None)
            if marker:
                self.ctx.version_marker()
                self.notes.add('version marker')
                continue
            if marker is None:
                raise Unsure('quoted version marker')
            t, p, a = v
            if a and a[0] == '$ion_symbol_table':
                if t == 'struct':
                    self.notes.add('local table')
                    self.ctx.local_table(p)
                    continue
                if t == 'null' and p == 'struct':
                    raise Unsure('null local symbol table')
            if t == 'symbol' and not a and p == '$ion_1_0':
                raise Unsure('symbol like a version marker')
            out.append(v)


def parse(text, context=None):
    """Parses text, or bytes of UTF-8."""
    if isinstance(text, (bytes, bytearray)):
        try:
            text = bytes(text).decode('utf-8')
        except UnicodeDecodeError:
            raise Unsure('not UTF-8')
    return Parser(text, context).stream()
