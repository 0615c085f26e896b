"""Mutations of valid encodings, and generators of token soup."""

SIGNIFICANT = '\'"{}[](),:/*\\ \n\r\t.-+_$0123456789abdeinTZtrufxX=#\0\x07\x1f\x7f\xa0é\u2028\U0001f4a9'
SNIPPETS = ("''", "'''", '""', '{{', '}}', '::', '//', '/*', '*/', 'null', 'null.', 'null.int', 'nan', '+inf', '-inf', 'true',
            '$ion_1_0', '$0', '$10', '$4', '$ion_symbol_table::', '0x', '0b1', '-0', '00', '1_0', '__', 'e5', 'd-3', '1.', '.5',
            '2000T', '2000-01-01', '2000-02-30', 'T00:00Z', '-00:00', '+24:00', ':60', '\\x4', '\\u00e9', '\\U00110000', '\\q',
            '\\\n', '{a:', ',,', ',]', '(+)', "{{'''", '{{"', 'AAA=', '=', '\ufeff', 'a', 'b', ' ', '1', '-', '\r\n',
            '$ion_1_1', '\\ud83d\\udca9', 'null.null', 'nul', 'False', '1e', '0.', '0d', '0e0', '-1', '1/', 'symbols:', 'imports:')

TOKENS = ('{', '}', '[', ']', '(', ')', ',', ':', '::', 'a', 'b', '1', '-1', '0', '"s"', "'q'", "'''l'''", "''", 'null', 'null.int',
          'true', 'nan', '+inf', '-inf', '1.5', '2e3', '4d-2', '2000T', '2000-01-01T00:00Z', '{{}}', '{{aGk=}}', '{{"c"}}',
          "{{'''c'''}}", '$ion_1_0', '$4', '$0', '+', '-', '*', '/', '.', '//c\n', '/*c*/', '$ion_symbol_table', 'symbols', '0x1F',
          '0b10', 'a:', 'b::', "'x'::", '"f":', '\\', '#', '{a:1}', '[1]', '(x)', '\n')


def mutate_text(d, s):
    """A few edits of a text."""
    out = s
    for _ in range(1 + d.small(2)):
        n = len(out)
        k = d.weighted(((5, 'insert'), (5, 'delete'), (5, 'replace'), (4, 'snippet'), (2, 'swap'), (2, 'cut'), (2, 'copy'),
                        (1, 'truncate')))
        i = d.integer(0, n)
        if k == 'insert':
            out = out[:i] + d.choice(SIGNIFICANT) + out[i:]
        elif k == 'delete':
            out = out[:i] + out[i + 1:]
        elif k == 'replace':
            out = out[:i] + d.choice(SIGNIFICANT) + out[i + 1:]
        elif k == 'snippet':
            out = out[:i] + d.choice(SNIPPETS) + out[i:]
        elif k == 'swap':
            out = out[:i] + out[i + 1:i + 2] + out[i:i + 1] + out[i + 2:]
        elif k == 'cut':
            out = out[:i] + out[i + 1 + d.small(12):]
        elif k == 'copy':
            j = d.integer(0, n)
            out = out[:i] + out[j:j + 1 + d.small(12)] + out[i:]
        else:
            out = out[:i]
    return out


def token_soup(d):
    out = []
    for _ in range(1 + d.small(11)):
        out.append(d.choice(TOKENS) if not d.chance(12) else d.choice(SNIPPETS))
        out.append(d.weighted(((6, ' '), (5, ''), (1, '\n'), (1, '\t'))))
    return ''.join(out)


BYTES = (0x00, 0x01, 0x0e, 0x0f, 0x10, 0x11, 0x12, 0x1f, 0x20, 0x21, 0x2e, 0x2f, 0x30, 0x31, 0x3f, 0x40, 0x41, 0x44, 0x48, 0x4f,
         0x50, 0x51, 0x52, 0x5e, 0x5f, 0x60, 0x61, 0x63, 0x68, 0x6e, 0x6f, 0x70, 0x71, 0x7e, 0x7f, 0x80, 0x81, 0x84, 0x8a, 0x8b,
         0x8e, 0x8f, 0x90, 0x91, 0x9e, 0xa0, 0xa1, 0xaf, 0xb0, 0xb1, 0xb2, 0xbe, 0xbf, 0xc0, 0xc1, 0xc2, 0xce, 0xcf, 0xd0, 0xd1,
         0xd2, 0xd3, 0xde, 0xdf, 0xe0, 0xe1, 0xe2, 0xe3, 0xe4, 0xe5, 0xee, 0xef, 0xf0, 0xff, 0xea)


def mutate_bytes(d, b, keep=4):
    """A few edits of octets; the first ``keep`` are left alone."""
    out = bytearray(b)
    for _ in range(1 + d.small(2)):
        n = len(out)
        if n <= keep:
            out.append(d.choice(BYTES))
            continue
        k = d.weighted(((4, 'insert'), (4, 'delete'), (5, 'replace'), (3, 'nudge'), (2, 'bit'), (2, 'nibble'), (1, 'swap'),
                        (1, 'cut'), (2, 'copy'), (2, 'truncate')))
        i = d.integer(keep, n - 1)
        if k == 'insert':
            out.insert(i, d.choice(BYTES))
        elif k == 'delete':
            del out[i]
        elif k == 'replace':
            out[i] = d.choice(BYTES) if d.boolean() else d.draw(255)
        elif k == 'nudge':
            out[i] = (out[i] + (1 if d.boolean() else 255)) & 255
        elif k == 'bit':
            out[i] ^= 1 << d.draw(7)
        elif k == 'nibble':
            out[i] = (out[i] & 0xf0) | d.draw(15) if d.boolean() else (out[i] & 0x0f) | d.draw(15) << 4
        elif k == 'swap' and i + 1 < n:
            out[i], out[i + 1] = out[i + 1], out[i]
        elif k == 'cut':
            del out[i:i + 1 + d.small(6)]
        elif k == 'copy':
            j = d.integer(keep, n - 1)
            out[i:i] = out[j:j + 1 + d.small(6)]
        elif k == 'truncate':
            del out[i:]
    return bytes(out)


def byte_soup(d):
    out = bytearray(b'\xe0\x01\x00\xea')
    for _ in range(1 + d.small(13)):
        out.append(d.choice(BYTES) if not d.chance(25) else d.draw(255))
    return bytes(out)
