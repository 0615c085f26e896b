"""Generators of single binary values which the specification forbids."""
from .refbin import IVM, var_uint, var_int, int_bytes, Encoder, decode
from .refsym import Bad, Unsure


def tlv(tid, body, ln=None):
    n = len(body) if ln is None else ln
    if n < 14:
        return bytes(bytearray([tid << 4 | n])) + body
    return bytes(bytearray([tid << 4 | 14])) + var_uint(n) + body


def wrapper(body):
    return tlv(14, body)


BAD_UTF8 = (b'\xff', b'\xc0\x80', b'\xc1\xbf', b'\xed\xa0\x80', b'\xf4\x90\x80\x80', b'\xe2\x82', b'\x80', b'a\xbf', b'\xf0\x80\x80\x80',
            b'\xc3', b'\xf5\x80\x80\x80', b'\xe0\x80\xaf', b'\xed\xbf\xbf')
GOOD = (b'\x20', b'\x0f', b'\x11', b'\x21\x01', b'\x81a', b'\xb0', b'\xd0', b'\x71\x04', b'\x8e\x81a', b'\xb2\x21\x07', b'\xde\x83\x84\x21\x01')


def timestamp_body(d):
    """The fields of a timestamp with something wrong."""
    k = d.choice(('year', 'month', 'day', 'hour', 'minute', 'second', 'no minute', 'no year', 'offset', 'fraction', 'negative', 'varuint',
                  'fraction varint', 'year 0', 'month 0', 'day 0'))
    off = b'\xc0' if d.boolean() else var_int(d.choice((0, 60, -60, 330)))
    y, mo, day, h, mi, s = 2000, d.choice((1, 2, 12)), d.choice((1, 28)), d.choice((0, 12)), d.choice((0, 30)), d.choice((0, 59))
    keep = 6
    tail = b''
    if k == 'year':
        y = d.choice((10001, 16384, 99999))
        keep = d.integer(1, 6)
    elif k == 'year 0':
        # a UTC year of zero could still be the local year one
        raise Unsure('year 0')
    elif k == 'month':
        mo = d.choice((13, 14, 127, 128, 255))
        keep = d.integer(2, 6)
    elif k == 'month 0':
        mo = 0
        keep = d.integer(2, 6)
    elif k == 'day':
        mo, day = d.choice(((2, 30), (4, 31), (1, 32), (12, 32), (1, 100), (2, 31), (11, 31)))
        if d.boolean():
            y, mo, day = d.choice(((2001, 2, 29), (1900, 2, 29), (2100, 2, 29)))
        keep = d.integer(3, 6)
    elif k == 'day 0':
        day = 0
        keep = d.integer(3, 6)
    elif k == 'hour':
        h = d.choice((24, 25, 60, 127))
    elif k == 'minute':
        mi = d.choice((60, 61, 127))
    elif k == 'second':
        s = d.choice((60, 61, 127))
    elif k == 'no minute':
        keep = 4
    elif k == 'no year':
        return off
    elif k == 'offset':
        off = var_int(d.choice((1440, -1440, 1441, 2880, -5000)))
    elif k == 'fraction':
        n = d.integer(0, 7)
        tail = var_int(-n) + int_bytes(10 ** n + d.small(9))
    elif k == 'negative':
        n = d.integer(1, 7)
        tail = var_int(-n) + int_bytes(-(1 + d.small(9)))
    elif k == 'varuint':
        return off + var_uint(2000) + b'\x01'
    elif k == 'fraction varint':
        tail = b'\x01'
    if keep == 4 and k != 'no minute':
        keep = 5
    if keep in (1, 2, 3):
        off = b'\xc0'
    return off + b''.join(var_uint(x) for x in (y, mo, day, h, mi, s)[:keep]) + tail


def bad_value(d):
    """(label, octets) of one forbidden value; only the system symbols are defined."""
    k = d.choice(('bool', 'float', 'negative zero', 'type 15', 'wrapper', 'wrapper', 'ordered', 'marker inside', 'utf8', 'sid', 'sid',
                  'timestamp', 'timestamp', 'timestamp', 'decimal', 'overrun', 'overrun', 'field only', 'length'))
    good = d.choice(GOOD)
    if k == 'bool':
        n = d.integer(2, 13)
        return k, bytes(bytearray([0x10 | n])) + b'\x01' * n
    if k == 'float':
        n = d.choice((1, 2, 3, 5, 6, 7, 9, 10, 11, 12, 13))
        return k, bytes(bytearray([0x40 | n])) + b'\x3f' * n
    if k == 'negative zero':
        return k, tlv(3, b'\0' * d.choice((0, 1, 2, 8, 14)))
    if k == 'type 15':
        return k, bytes(bytearray([0xf0 | d.draw(15)])) + d.choice((b'', b'\x80', b'\x20'))
    if k == 'wrapper':
        j = d.choice(('none', 'no value', 'two values', 'longer', 'nested', 'pad', 'marker', 'too short', 'null wrapper', 'overrun', 'unended', 'long'))
        if j == 'none':
            return 'wrapper: ' + j, wrapper(b'\x80' + b'\x21\x01' + good)
        if j == 'no value':
            return 'wrapper: ' + j, wrapper(b'\x82\x84\x84')
        if j == 'two values':
            return 'wrapper: ' + j, wrapper(b'\x81\x84' + good + d.choice(GOOD))
        if j == 'longer':
            return 'wrapper: ' + j, wrapper(b'\x81\x84' + good + b'\0' * d.integer(1, 3))
        if j == 'nested':
            return 'wrapper: ' + j, wrapper(b'\x81\x84' + wrapper(b'\x81\x85' + b'\x21\x01'))
        if j == 'pad':
            return 'wrapper: ' + j, wrapper(b'\x81\x84' + tlv(0, b'\0' * d.choice((0, 1, 14))))
        if j == 'marker':
            return 'wrapper: ' + j, wrapper(d.choice((b'\x81\x84', b'\x82\x84\x83', b'\x81\x80')) + IVM)
        if j == 'too short':
            return 'wrapper: ' + j, d.choice((b'\xe1\x81', b'\xe2\x81\x84', b'\xe1\x80', b'\xe2\x80\x20'))
        if j == 'null wrapper':
            return 'wrapper: ' + j, b'\xef'
        if j == 'overrun':
            # the annotations claim more than the wrapper has
            return 'wrapper: ' + j, wrapper(var_uint(20) + b'\x84\x84' + good)
        if j == 'unended':
            return 'wrapper: ' + j, wrapper(b'\x82\x84\x04' + good)
        return 'wrapper: ' + j, wrapper(b'\x81\x84\x8e' + var_uint(30) + b'a')
    if k == 'ordered':
        return k, b'\xd1' + d.choice((b'\x80', b'\x00\x80'))
    if k == 'marker inside':
        return k, tlv(d.choice((11, 12)), IVM)
    if k == 'utf8':
        bad = d.choice(BAD_UTF8)
        return k, tlv(8, b'a' * d.small(13) + bad + (b'' if bad in (b'\xe2\x82', b'\xc3') else b'z' * d.small(4)))
    if k == 'sid':
        n = d.choice((10, 11, 127, 128, 300, 16384, 65535, 65536, 65537, 1 << 21, (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 32) + 4, 1 << 63, (1 << 64) + 4))
        j = d.choice(('value', 'annotation', 'field'))
        if j == 'value':
            return 'sid: ' + j, tlv(7, n.to_bytes((n.bit_length() + 7) // 8, 'big'))
        if j == 'annotation':
            s = var_uint(n)
            return 'sid: ' + j, wrapper(var_uint(len(s)) + s + good)
        return 'sid: ' + j, tlv(13, var_uint(n) + good)
    if k == 'timestamp':
        return k, tlv(6, timestamp_body(d))
    if k == 'decimal':
        return k, tlv(5, b'\x01' * d.integer(1, 4))
    if k == 'overrun':
        inner = tlv(d.choice((2, 5, 8, 9, 10, 11, 12)), b'\x81' * 2, d.integer(3, 13))
        t = d.choice((11, 12, 13))
        return k, tlv(t, (b'\x84' if t == 13 else b'') + inner)
    if k == 'field only':
        return k, tlv(13, (b'\x84\x20' if d.boolean() else b'') + d.choice((b'\x85', b'\x04', b'\x04\x85', b'\0\x85')))
    # the VarUInt of the length does not end within the container
    return k, tlv(d.choice((11, 12)), d.choice((b'\x8e\x01', b'\x2e\0\0', b'\xbe\x7f', b'\xde\x01', b'\xee\x01', b'\x5e')))


def embed(d, b, levels):
    """Puts the octets of a value into nested containers, among other values."""
    for _ in range(levels):
        k = d.choice(('list', 'sexp', 'struct', 'annotated'))
        before = d.choice(GOOD) if d.boolean() else b''
        after = d.choice(GOOD) if d.boolean() else b''
        if k == 'struct':
            b = tlv(13, (b'\x85' + before if before else b'') + b'\x84' + b + (b'\x86' + after if after else b''))
        elif k == 'annotated':
            if b[:1] >= b'\xe0':
                b = tlv(11, before + b + after)
            else:
                b = wrapper(b'\x81' + d.choice((b'\x84', b'\x86')) + b)
        else:
            b = tlv(11 if k == 'list' else 12, before + b + after)
    return b
