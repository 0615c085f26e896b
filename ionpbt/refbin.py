"""Reference codec for binary Ion 1.0, written from the specification.

:class:`Encoder` picks, by a :class:`~ionpbt.engine.Data`, one of the many legal encodings of a stream of model values.
:func:`decode` is a strict recursive decoder; it raises :class:`Bad` for what the specification forbids and
:class:`Unsure` where it does not settle the matter.
"""
import struct as _struct

from .model import mk, shift_minutes, days_in_month, ts_utc, SYSTEM_SYMBOLS
from .refsym import Bad, Unsure, Context

IVM = b'\xe0\x01\x00\xea'
_NULL_TID = {'null': 0, 'bool': 1, 'int': 2, 'float': 4, 'decimal': 5, 'timestamp': 6, 'symbol': 7, 'string': 8,
             'clob': 9, 'blob': 10, 'list': 11, 'sexp': 12, 'struct': 13}


# -- primitive fields -----------------------------------------------------------------------------------------------------

def uint_bytes(n):
    return n.to_bytes((n.bit_length() + 7) // 8, 'big')


def var_uint(n, pad=0):
    out = [0x80 | (n & 0x7f)]
    n >>= 7
    while n:
        out.append(n & 0x7f)
        n >>= 7
    out += [0] * pad
    return bytes(bytearray(reversed(out)))


def var_int(n, negative=None, pad=0):
    if negative is None:
        negative = n < 0
    n = abs(n)
    groups = []
    while True:
        groups.append(n & 0x7f)
        n >>= 7
        if not n:
            break
    if groups[-1] > 0x3f:
        groups.append(0)
    groups += [0] * pad
    groups.reverse()
    if negative:
        groups[0] |= 0x40
    groups[-1] |= 0x80
    return bytes(bytearray(groups))


def int_bytes(n, negative=None, pad=0):
    """Sign and magnitude; b'' for positive zero."""
    if negative is None:
        negative = n < 0
    b = bytearray(uint_bytes(abs(n)))
    if not b and not negative and not pad:
        return b''
    if not b or b[0] & 0x80:
        b.insert(0, 0)
    for _ in range(pad):
        b.insert(0, 0)
    if negative:
        b[0] |= 0x80
    return bytes(b)


class Encoder(object):
    """Encodes model values; ``d`` None means the canonical choices."""

    def __init__(self, d=None, context=None, oddity=30):
        self.d = d
        self.ctx = context or Context()
        self.oddity = oddity  # percentage of places where something unusual is chosen
        self.used = set()
        self.keep_order = False  # of the fields of structs

    def odd(self, what, percent=None):
        if self.d is None or not self.d.chance(self.oddity if percent is None else percent):
            return False
        self.used.add(what)
        return True

    def pad(self):
        return 1 + self.d.small(2) if self.odd('padded field', 8) else 0

    def sid_of(self, symbol):
        if symbol is None:
            if self.d is not None:
                # a slot without text is equivalent to symbol zero
                slots = [i for i, s in enumerate(self.ctx.slots) if s is None]
                return self.d.choice(slots)
            return 0
        ids = [i for i, s in enumerate(self.ctx.slots) if s == symbol and i > 0]
        if not ids:
            raise KeyError(symbol)
        if len(ids) > 1 and self.d is not None:
            return self.d.choice(ids)
        return ids[0]

    def tlv(self, tid, body, odd_ok=True, percent=12):
        n = len(body)
        if n < 14 and not (odd_ok and self.odd('long length', percent)):
            return bytes(bytearray([tid << 4 | n])) + body
        return bytes(bytearray([tid << 4 | 14])) + var_uint(n, self.pad()) + body

    def nop(self):
        self.used.add('nop pad')
        n = self.d.weighted(((6, 0), (6, 1), (4, 2), (2, 13), (2, 14), (1, 200)))
        if self.d.chance(1):
            n = self.d.choice((127, 128, 1000, 4095, 8192, 16383, 16384, 16385, 20000, 33000))
        fill = self.d.choice((b'\0', b'\xff', b'\xe0', b'\x0f', b'\xd1'))
        return self.tlv(0, fill * n)

    def value(self, v):
        t, p, a = v
        if not a:
            return self.bare(t, p)
        sids = b''.join(var_uint(self.sid_of(s), self.pad()) for s in a)
        body = var_uint(len(sids), self.pad()) + sids + self.bare(t, p)
        return self.tlv(14, body)

    def bare(self, t, p):
        if t == 'null':
            return bytes(bytearray([(3 if p == 'int' and self.odd('null.int as 3F') else _NULL_TID[p]) << 4 | 15]))
        if t == 'bool':
            return b'\x11' if p else b'\x10'
        if t == 'int':
            b = uint_bytes(abs(p))
            if self.odd('padded int', 8):
                b = b'\0' * (1 + self.d.small(9)) + b
            return self.tlv(3 if p < 0 else 2, b)
        if t == 'float':
            if p == 0 and _struct.pack('>d', p) == b'\0' * 8 and not self.odd('wide float', 40):
                return b'\x40'
            if self.d is not None:
                try:
                    f32 = _struct.pack('>f', p)
                    if p != p or _struct.unpack('>f', f32)[0] == p:
                        if self.odd('32-bit float', 50):
                            return b'\x44' + f32
                except OverflowError:
                    pass
                if p != p and self.odd('odd nan', 50):
                    return b'\x48' + _struct.pack('>Q', self.d.choice((0x7ff8000000000001, 0xfff8000000000000,
                                                                      0x7fffffffffffffff, 0x7ff8000000000000)))
            return b'\x48' + _struct.pack('>d', p)
        if t == 'decimal':
            sign, coef, exp = p
            if (sign, coef, exp) == (0, 0, 0) and not self.odd('explicit zero', 50):
                return b'\x50'
            coef_pad = 1 + self.d.small(3) if self.odd('padded coefficient', 8) else 0
            return self.tlv(5, var_int(exp, None, self.pad()) + int_bytes(coef, bool(sign), coef_pad))
        if t == 'timestamp':
            return self.tlv(6, self.timestamp(p))
        if t == 'symbol':
            n = self.sid_of(p)
            b = uint_bytes(n)
            if self.odd('padded symbol', 8):
                b = b'\0' * (1 + self.d.small(3)) + b
            return self.tlv(7, b)
        if t == 'string':
            return self.tlv(8, p.encode('utf-8'))
        if t == 'clob':
            return self.tlv(9, p)
        if t == 'blob':
            return self.tlv(10, p)
        if t in ('list', 'sexp'):
            body = bytearray()
            for x in p:
                while self.odd('nop', 6):
                    body += self.nop()
                body += self.value(x)
            while self.odd('nop', 6):
                body += self.nop()
            return self.tlv(11 if t == 'list' else 12, bytes(body))
        return self.struct(p)

    def struct(self, fields):
        items = [(self.sid_of(n), x) for n, x in fields]
        ordered = items and self.odd('ordered struct', 25)
        if ordered and self.keep_order:
            ordered = items == sorted(items, key=lambda item: item[0])
        if ordered:
            items.sort(key=lambda item: item[0])
        body = bytearray()
        low = 0
        for sid, x in items:
            while self.odd('nop', 6):
                pad_sid = self.d.choice((0, 4, 9, 300)) if not ordered else sid
                body += var_uint(pad_sid, self.pad()) + self.nop()
            body += var_uint(sid, self.pad()) + self.value(x)
            low = sid
        while self.odd('nop', 6):
            body += var_uint(self.d.choice((0, 4, 9, 300)) if not ordered else low) + self.nop()
        body = bytes(body)
        if ordered:
            return b'\xd1' + var_uint(len(body), self.pad()) + body
        if len(body) == 1:
            raise ValueError('a struct cannot have one octet')
        return self.tlv(13, body)

    def timestamp(self, ts):
        prec, y, mo, day, h, mi, s, frac, off = ts
        if prec in 'YMD':
            out = [var_int(0, True, self.pad()), var_uint(y, self.pad())]
            if mo is not None:
                out.append(var_uint(mo, self.pad()))
            if day is not None:
                out.append(var_uint(day, self.pad()))
            return b''.join(out)
        uy, umo, uday, uh, umi = ts_utc(ts)
        out = [var_int(off or 0, True if off is None else None, self.pad())]
        out += [var_uint(x, self.pad()) for x in (uy, umo, uday, uh, umi)]
        if prec == 's':
            out.append(var_uint(s, self.pad()))
            if frac is not None:
                out.append(var_int(-frac[1], None, self.pad()))
                coef_pad = 1 + self.d.small(2) if self.odd('padded fraction', 8) else 0
                out.append(int_bytes(frac[0], False, coef_pad))
            elif self.odd('ignored zero fraction', 10):
                out.append(self.d.choice((b'\x80', b'\x81', b'\x80\x00', b'\x8a\x00')))
        return b''.join(out)

    # -- streams -------------------------------------------------------------------------------------------------------

    def local_table(self, new_slots, append, extra=True):
        """Encodes a local symbol table defining ``new_slots`` and installs it."""
        symbols = mk('list', [mk('string', s) if s is not None else self._nothing() for s in new_slots])
        fields = [('symbols', symbols)]
        if append:
            fields.append(('imports', mk('symbol', '$ion_symbol_table')))
        if extra and self.odd('extra fields', 15):
            fields.append(('name', mk('string', 'ignored')))
        if extra and self.odd('extra fields', 15):
            fields.append(('version', mk('list', [mk('string', 'x'), mk('struct', [('symbols', mk('list', []))])])))
        if self.d is not None:
            fields = self.d.shuffle(fields)
        data = self.value(mk('struct', tuple(fields), ('$ion_symbol_table',)))
        self.ctx.local_table(fields)
        return data

    def _nothing(self):
        return mk('null', 'string') if self.d is None else self.d.choice(
            (mk('null', 'string'), mk('int', 7), mk('null', 'null'), mk('list', (mk('string', 'a'),))))

    def stream(self, values, missing_of):
        """Encodes a stream, defining local symbol tables as needed.

        ``missing_of(value)`` yields the symbols occurring in a value.
        """
        out = bytearray(IVM)
        pending = list(values)
        while pending:
            if self.odd('nop', 6):
                out += self.nop()
            if self.odd('second version marker', 5):
                out += IVM
                self.ctx.version_marker()
            need = []
            ahead = len(pending) if self.d is None else 1 + self.d.small(len(pending) - 1)
            for v in pending[:ahead]:
                for s in missing_of(v):
                    if s is not None and s not in need and s not in self.ctx.slots:
                        need.append(s)
            if need or self.odd('pointless local table', 4):
                append = self.odd('append', 45)
                if not append:
                    # a table which replaces has to define everything that is used from now on
                    need = []
                    for v in pending[:ahead]:
                        for s in missing_of(v):
                            if s is not None and s not in need and s not in SYSTEM_SYMBOLS:
                                need.append(s)
                if self.odd('shuffled symbols', 30):
                    need = self.d.shuffle(need)
                if self.odd('spare slots', 25):
                    extra = [self.d.choice((None, 'spare', 'name', '$ion_1_0', '')) for _ in range(1 + self.d.small(3))]
                    need = extra + need if self.d.boolean() else need + extra
                if need and self.odd('redefined symbol', 12):
                    need = need + [self.d.choice(need)]
                if self.odd('many symbols', 3):
                    n = self.d.choice((110, 118, 119, 250)) if not self.d.chance(5) else self.d.choice((1 << 14, 1 << 16)) - 10 - self.d.draw(3)
                    need = ['filler%d' % i for i in range(n)] + need
                out += self.local_table(need, append)
            for v in pending[:ahead]:
                out += self.value(v)
                if self.odd('nop', 6):
                    out += self.nop()
            pending = pending[ahead:]
        return bytes(out)


# -- decoding -----------------------------------------------------------------------------------------------------------

class Decoder(object):
    def __init__(self, data, context=None):
        self.b = data
        self.ctx = context or Context()
        self.notes = set()

    def byte(self, pos, end):
        if pos >= end:
            raise Bad('ends at offset %d' % pos)
        return self.b[pos]

    def var_uint(self, pos, end):
        n = 0
        while True:
            c = self.byte(pos, end)
            pos += 1
            n = n << 7 | (c & 0x7f)
            if c & 0x80:
                return n, pos

    def var_int(self, pos, end):
        c = self.byte(pos, end)
        pos += 1
        negative = bool(c & 0x40)
        n = c & 0x3f
        while not c & 0x80:
            c = self.byte(pos, end)
            pos += 1
            n = n << 7 | (c & 0x7f)
        return n, negative, pos

    def head(self, pos, end):
        """(type code, length code, start of body, end of body) of a value."""
        c = self.byte(pos, end)
        pos += 1
        tid, ln = c >> 4, c & 15
        if tid == 15:
            raise Bad('type code 15')
        if tid == 1:
            if ln not in (0, 1, 15):
                raise Bad('bool with length code %d' % ln)
            return tid, ln, pos, pos
        if ln == 15:
            if tid == 14:
                raise Bad('annotation wrapper with length code 15')
            return tid, ln, pos, pos
        if tid == 4 and ln not in (0, 4, 8):
            raise Bad('float with length code %d' % ln)
        if tid == 14 and ln < 3:
            raise Bad('annotation wrapper with length code %d' % ln)
        if ln == 14 or (tid == 13 and ln == 1):
            n, pos = self.var_uint(pos, end)
        else:
            n = ln
        if n > end - pos:
            raise Bad('length %d with %d octets left' % (n, end - pos))
        return tid, ln, pos, pos + n

    def value(self, pos, end, depth):
        """(value or None for a pad, next position)."""
        tid, ln, start, stop = self.head(pos, end)
        if tid == 14:
            n, pos = self.var_uint(start, stop)
            if n < 1:
                raise Bad('annotation wrapper without annotations')
            if n > stop - pos:
                raise Bad('annotations overrun')
            aend = pos + n
            anns = []
            while pos < aend:
                sid, pos = self.var_uint(pos, aend)
                anns.append(sid)
            if pos >= stop:
                raise Bad('annotation wrapper without value')
            inner = self.b[pos]
            if inner >> 4 == 14:
                raise Bad('annotation wrapper in annotation wrapper (or version marker)')
            if inner >> 4 == 0 and inner != 0x0f:
                raise Bad('pad in annotation wrapper')
            symbols = tuple(self.ctx.sid(s) for s in anns)
            # a local symbol table is read with the symbols of its own beginning
            v, pos = self.value(pos, stop, depth)
            if pos != stop:
                raise Bad('annotation wrapper longer than its value')
            return mk(v[0], v[1], symbols), stop
        if tid == 0 and ln != 15:
            return None, stop
        if ln == 15:
            name = [k for k, x in _NULL_TID.items() if x == (2 if tid == 3 else tid)][0]
            return mk('null', name), stop
        body = self.b[start:stop]
        n = stop - start
        if tid == 1:
            return mk('bool', ln == 1), stop
        if tid in (2, 3):
            m = int.from_bytes(body, 'big')
            if tid == 3:
                if m == 0:
                    raise Bad('negative zero')
                m = -m
            return mk('int', m), stop
        if tid == 4:
            if n == 0:
                return mk('float', 0.0), stop
            return mk('float', _struct.unpack('>f' if n == 4 else '>d', body)[0]), stop
        if tid == 5:
            if n == 0:
                if ln == 14:
                    raise Unsure('decimal with long form of length zero')
                return mk('decimal', (0, 0, 0)), stop
            return mk('decimal', self.decimal(start, stop)), stop
        if tid == 6:
            if n == 0:
                raise Bad('timestamp of length zero')
            return mk('timestamp', self.timestamp(start, stop)), stop
        if tid == 7:
            return mk('symbol', self.ctx.sid(int.from_bytes(body, 'big'))), stop
        if tid == 8:
            try:
                return mk('string', bytes(body).decode('utf-8')), stop
            except UnicodeDecodeError:
                raise Bad('invalid UTF-8')
        if tid == 9:
            return mk('clob', bytes(body)), stop
        if tid == 10:
            return mk('blob', bytes(body)), stop
        if depth > 200:
            raise Unsure('very deep')
        if tid in (11, 12):
            items = []
            pos = start
            while pos < stop:
                v, pos = self.value(pos, stop, depth + 1)
                if v is not None:
                    items.append(v)
            return mk('list' if tid == 11 else 'sexp', tuple(items)), stop
        if ln == 1 and n == 0:
            raise Bad('ordered struct without fields')
        items = []
        pos = start
        while pos < stop:
            sid, pos = self.var_uint(pos, stop)
            v, pos = self.value(pos, stop, depth + 1)
            if v is not None:
                items.append((sid, v))
        if ln == 1:
            if not items:
                raise Unsure('ordered struct with pads only')
            sids = [s for s, _ in items]
            if sids != sorted(sids):
                raise Unsure('ordered struct out of order')
        return mk('struct', tuple((self.ctx.sid(s), v) for s, v in items)), stop

    def decimal(self, start, stop):
        exp, negative, pos = self.var_int(start, stop)
        coef = int.from_bytes(self.b[pos:stop], 'big')
        sign = 0
        if pos < stop:
            top = 1 << ((stop - pos) * 8 - 1)
            if coef & top:
                sign, coef = 1, coef - top
        return sign, coef, -exp if negative else exp

    def timestamp(self, pos, stop):
        off, negative, pos = self.var_int(pos, stop)
        unknown = negative and off == 0
        if negative:
            off = -off
        if not -1440 < off < 1440:
            raise Bad('offset of %d minutes' % off)
        f = []
        while pos < stop and len(f) < 6:
            n, pos = self.var_uint(pos, stop)
            f.append(n)
        if not f:
            raise Bad('timestamp without year')
        if len(f) == 4:
            raise Bad('hour without minute')
        y, mo, day, h, mi, s = f + [None] * (6 - len(f))
        if not 1 <= y <= 9999:
            if y == 0 or y == 10000:
                raise Unsure('year %d' % y)
            raise Bad('year %d' % y)
        if mo is not None and not 1 <= mo <= 12:
            raise Bad('month %d' % mo)
        if day is not None and not 1 <= day <= days_in_month(y, mo):
            raise Bad('day %d' % day)
        if h is not None and not (h <= 23 and mi <= 59):
            raise Bad('time of day')
        if s is not None and s > 59:
            raise Bad('second %d' % s)
        frac = None
        if pos < stop:
            sign, coef, exp = self.decimal(pos, stop)
            if sign and coef == 0:
                raise Unsure('fraction of negative zero')
            if coef == 0 and exp >= 0:
                frac = None
            elif sign:
                raise Bad('negative fraction')
            elif exp >= 0 or (-exp < 5000 and coef >= 10 ** -exp):
                raise Bad('fraction of one or more')
            elif -exp >= 5000:
                raise Unsure('fraction with %d digits' % -exp)
            else:
                frac = (coef, -exp)
        if h is None:
            if not unknown:
                raise Unsure('date with offset')
            return ('Y' if mo is None else 'M' if day is None else 'D', y, mo, day) + (None,) * 5
        if unknown:
            off = None
        y, mo, day, h, mi = shift_minutes(y, mo, day, h, mi, off or 0)
        if not 1 <= y <= 9999:
            raise Unsure('local year %d' % y)
        return ('m' if s is None else 's', y, mo, day, h, mi, s, frac, off)

    def damaged_table(self, pos, end):
        """Whether a complete local symbol table starts here: what it holds besides symbols need not be looked at."""
        try:
            tid, ln, start, stop = self.head(pos, end)
            if tid != 14:
                return False
            n, pos = self.var_uint(start, stop)
            sid, _ = self.var_uint(pos, min(pos + n, stop))
            tid, ln, _, inner = self.head(pos + n, stop)
            return tid == 13 and inner == stop and self.ctx.sid(sid) == '$ion_symbol_table'
        except Bad:
            return False

    def stream(self):
        if self.b[:4] != IVM:
            raise Bad('no version marker')
        out = []
        pos, end = 0, len(self.b)
        while pos < end:
            if self.b[pos] == 0xe0:
                if self.b[pos:pos + 4] != IVM:
                    raise Bad('not a version marker')
                self.ctx.version_marker()
                pos += 4
                continue
            try:
                v, pos = self.value(pos, end, 0)
            except Bad:
                if self.damaged_table(pos, end):
                    raise Unsure('damage in a local symbol table')
                raise
            if v is None:
                continue
            t, p, a = v
            if a and a[0] == '$ion_symbol_table':
                if t == 'struct':
                    self.notes.add('local table')
                    self.ctx.local_table(p)
                    continue
                if t == 'null' and p == 'struct':
                    raise Unsure('null local symbol table')
            if t == 'symbol' and not a and p == '$ion_1_0':
                self.notes.add('symbol like a version marker')
                continue
            out.append(v)
        return out


def decode(data, context=None):
    return Decoder(bytes(data), context).stream()
