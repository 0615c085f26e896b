"""Texts which are not valid Ion: one forbidden construct, to be nested among valid values.

Whether a composed text really is invalid is decided by :func:`ionpbt.reftext.parse`, not here.
"""

NUMBERS = ('01', '-01', '00', '-00', '007', '1__0', '1_', '_1_', '-_1', '0x', '0x_1', '0x1_', '0x1__2', '0xG', '0b', '0b2', '0b_1',
           '0b1_', '0b12', '-0x', '-0b', '+1', '+0x1', '+1.5', '+1e5', '1.5_', '1._5', '1_.5', '1.5__5', '01.5', '00.1', '1.2.3',
           '1e', '1e+', '1e-', '1d', '1d+', '1e5.5', '1e5e5', '1d5d5', '1e5d5', '1d1e1', '1x', '12a', '0a', '1-2', '0x1.5',
           '0b1e5', '0xFz', '1e++5', '1.e', '--1', '-', '-a', '0-1', '1$', '5é', '0X', '0B', '1_e5', '1_d5', '0e', '0d',
           '1e5_', '-x1', '-e5', '-.5', '.5', '+.5', '1,5.', '0xx1', '1"a"', "1'a'", '1:', '1::a', '1::1', '-1::a', '0xé')

TIMESTAMPS = ('2000', '2000-', '2000-01', '2000-01-', '200T', '20000T', '2000-1T', '2000-01-1', '2000-01-011', '2000-13T',
              '2000-00T', '2000-01-00', '2000-01-32', '2000-02-30', '2001-02-29', '1900-02-29', '2100-02-29', '2000-04-31', '0000T',
              '0000-01-01', '2000-01-01T00', '2000-01-01T00:', '2000-01-01T00:00', '2000-01-01T0:00Z', '2000-01-01T00:0Z',
              '2000-01-01T24:00Z', '2000-01-01T00:60Z', '2000-01-01T00:00:60Z', '2000-01-01T00:00:00', '2000-01-01T00:00:0Z',
              '2000-01-01T00:00:00.Z', '2000-01-01T00:00:00.', '2000-01-01T00:00:00.0', '2000-01-01T00:00.0Z', '2000-01-01T00Z',
              '2000-01-01T00+00:00', '2000-01-01TZ', '2000-01-01T00:00z', '2000-01-01t00:00Z', '2000t', '2000-01t',
              '2000-01-01T00:00+0:00', '2000-01-01T00:00+00', '2000-01-01T00:00+00:0', '2000-01-01T00:00+24:00',
              '2000-01-01T00:00-24:00', '2000-01-01T00:00+00:60', '2000-01-01T00:00+00:000', '2000-01-01T00:00+0000',
              '2000-01-01T00:00 Z', '2000-01-01 T', '2000T00:00Z', '2000-01T00:00Z', '-2000T', '2000-01-01Z', '2000-01-01+00:00',
              '2000-01-01T00:00ZZ', '2000-01-01T00:00Za', '2000Ta', '2000-01-01a', '2000-01-01T00:00:00.0.0Z', '2_000T',
              '2000-01-01T00:00:00.0_0Z', '2000-01-01T00:00:00,5Z', '2000/01/01', '2000T5', '2000-01-01-', '2000-01-01T00:00:00-',
              '2000-01-01T0000Z', '2000-01-01T00:00:00.5', '+2000T', '2000-01-01T25:00Z', '2000-01-01T99:99Z')

STRINGS = ('"', '"a', '"a\nb"', '"a\rb"', '"\x00"', '"\x01"', '"\x08"', '"\x1f"', '"\\"', '"\\q"', '"\\x"', '"\\x4"', '"\\xg1"',
           '"\\u004"', '"\\u00g1"', '"\\U0010FFF"', '"\\U00110000"', '"\\UFFFFFFFF"', '"\\U0000004"', '"\\8"', '"\\c"', '"\\e"', '"\\N"',
           '"\\X41"', '"\\ "', '"\\1"', '"\\uZZZZ"', '"\\x 1"', '"\\u+041"', '"\\u0x41"', '"\\x-1"', '"\\u 041"', '"a" "b', '"""',
           "'''", "'''a", "'''a''", "'''a'''b'''", "'''\\q'''", "'''\\x1'''", "'''\x00'''", "'''\x07'''", "'''a''' '''b", "'''\\u123'''",
           "'''\\U00110000'''", "''''", "'''''", "'''a\\'''", "'a'''", '"\\u{41}"', '"a"::1', "'''a'''::1", '"a"b"',
           "'''\x1b'''", '"\x7f\x1b"')

SYMBOLS = ("'", "'a", "'a\nb'", "'\x00'", "'\x01'", "'\\q'", "'\\x4'", "'\\u12'", "'\\U00110000'", "'\\'", "a'b'c'", "'a\rb'",
           '$99', '$10', '$1000000', '$99::1', '$10::a', '{$99:1}', 'a@', 'a%', 'é', 'aé', '\xa0', '\ufeff', '$é', '\u2028', '#', '@a', '%', '&a',
           '\\', '\\n', '!', '?', '*', '`', '~', '^', '|', ';', '<', '=', '+', '++', '/', '.', '..', 'a.b', 'a.', 'a-b', 'a+', 'a=b',
           '\U0001f4a9', 'a\x00', '\x00', '\x01', '\x7f')

KEYWORDS = ('null.', 'null.foo', 'null.nul', 'null.nulls', 'null.ints', 'null.in', 'null.Int', 'null.struct.', 'null.list.int',
            'null.true', 'null .int', 'null. int', 'null.1', 'null."int"', "null.'int'", 'null::1', 'true::1', 'false::a', 'nan::1',
            'null.int::1', '{null:1}', '{true:1}', '{false:1}', '{nan:1}', '{null.int:1}', '+inf::1', '{+inf:1}', '-inf::1', '{-inf:1}',
            '+infx', '-infinity', '+in', '-in', '+nan', '-nan', '+i', '-i', '+Inf', '-INF', 'null.symbols', 'null.sexps', 'null.bloba',
            'null.timestamps', 'null.boolean', 'null.decimals', 'null.clobs', 'null.s', 'null.b', 'null.st', 'null.struc', '+inf.', '-inf5',
            'null..int', 'null.int.', 'null.-', 'null.é')

LOBS = ('{{', '{{}', '{{ }', '{{} }', '{{A}}', '{{AA}}', '{{AAA}}', '{{AAA==}}', '{{AA=}}', '{{A===}}', '{{====}}', '{{=}}', '{{AAAA=}}',
        '{{AAAA====}}', '{{AAAAA}}', '{{AA=A}}', '{{AA==AAAA}}', '{{A!AA}}', '{{AAA-}}', '{{AA_A}}', '{{AAAA,}}', '{{AAA\xe9}}', '{{AAAA//c\n}}',
        '{{/*c*/AAAA}}', '{{//c\nAAAA}}', '{{"a" /*c*/}}', '{{//c\n"a"}}', '{{"a" "b"}}', '{{"a"', '{{"a}}', '{{"a"}', '{{"a"} }', '{{"é"}}', '{{"\\u0041"}}',
        '{{"\\U00000041"}}', '{{"\\q"}}', '{{"\\x4"}}', '{{"a\nb"}}', '{{"\x00"}}', '{{"\x80"}}', "{{'a'}}", "{{''}}", "{{'''a'''", "{{'''a}}", "{{'''a'' }}",
        "{{'''é'''}}", "{{'''\\u0041'''}}", "{{'''a''' \"b\"}}", "{{\"b\" '''a'''}}", "{{'''a''' /*c*/ '''b'''}}", "{{'''a''' //c\n '''b'''}}", "{{'''a''' b}}",
        '{{"a"AAAA}}', '{{AAAA"a"}}', '{{{}}}', '{{[]}}', '{{1}}', '{{$}}', '{{AAAA}}}', '{{"a"}}}', '{{"a"::}}', "{{'''\\q'''}}", "{{'''\x01'''}}", '{{a:1}}', '{{AAAA}}::1',
        '{{"a"}}::1', '{ {AAAA}}', '{{AAA\x00}}', '{{A A A}}', "{{'''a''''}}", "{{''''''''}}", '{{"\\x{41}"}}', '{{AA==A}}', '{{AA== =}}', '{{AAA=AAAA}}', '{{AA=AAAAA}}', '{{AAA=AAA=}}', '{{AA==AA==}}', '{{A=AA}}', '{{AAAAAAA=A===}}')

CONTAINERS = ('[', '(', '{', ']', ')', '}', '[1', '(1', '{a:1', '{a', '{a:', '{a:1,', '[1,', '[,]', '[1,,2]', '[,1]', '{,}', '{,a:1}', '{a:1,,b:2}', '[1 2]', '[1 a]',
              '[a b]', '["a" "b"]', '[[] []]', '[1;2]', '(1,2)', '(,)', '(1,)', '{a}', '{a:}', '{:1}', '{a::1}', '{a:1:2}', '{a:1 b:2}', '{1:2}', '{a=1}', '{a b:1}', '{a.b:1}',
              '{"a"}', '{"a" "b":1}', '{"a":}', "{'a'}", "{'''a'''}", "{'''a''':}", '{[]:1}', '{():1}', '{{}:1}', '{1.5:1}', '{2000T:1}', '{a::b:1}', '{a:b:1}', '{a:b::}',
              '{a:b::,c:1}', '[a::]', '[a::,1]', '(a::)', 'a::', 'a::b::', 'a:1', 'a :1', '::', '::1', ':', 'a: :1', 'a:::1', '[a:1]', '(a:1)', ',', '1,', ',1', '1,2', '[}', '(]',
              '{)', '[)', '(}', '{]', '[1)', '(1]', '{a:1]', '[[1)]', '[1]]', '(1))', '{a:1}}', '[a::b::]', '{a:1}:1', '[]::1', '()::1', '{}::1', '{-:1}', '{+:1}', '{a-b:1}',
              '{/:1}', '{a:+}', '[+]', '[a+b]', '{$ion_1_0::1}', '{"a"::b:1}', '(a::,)', '({)}', '[{]}', '{a:[}', '{a:(1]}', '{a /*c*/ b:1}', '[1 /*c*/ 2]', '[1 //c\n 2]',
              "{''''a''':1}", "{'''a''' b:1}", "{a:1 \"b\":2}", "{a: , b:1}", "{a:1,:2}", "[1 :]", "[::]", "{::}", "(::)", "(:)", "(a:)", "[a:]", '{a:: 1}', '{"a" :: 1}')

COMMENTS = ('/*', '/* a', '/* *', '/*/', '/**', '/', '//', '/ * */', '1 /', '/a', '/* /* */ */', '*/', '/[', '[1/*]', '(/*)', '[/]', '{a:1/}', '[1 / 2]', '{a/:1}', '/*\n//*', '#c',
            ';c', '--c', '/\n/', '/* *\n/', '[//]', '{a://c', '{a//:1\n}', '"//', "'/*'/*")

VERSIONS = ('$ion_1_1', '$ion_2_0', '$ion_0_0', '$ion_10_0', '$ion_1_00', '$ion_01_0', '$ion_1_01', '$ion_123_456', '$ion_0_1', '$ion_1_2')

KINDS = (('number', NUMBERS), ('timestamp', TIMESTAMPS), ('string', STRINGS), ('symbol', SYMBOLS), ('keyword', KEYWORDS),
         ('lob', LOBS), ('container', CONTAINERS), ('comment', COMMENTS), ('version', VERSIONS))

GOOD = ('1', '-5', '1.5', '2e3', 'abc', '"s"', "'q'", "'''l'''", 'null', 'true', 'null.int', '[]', '[1,2]', '()', '(a + b)', '{}', '{a:1}',
        '{{aGk=}}', '{{"c"}}', "{{'''c'''}}", '2000T', '2000-01-01T00:00Z', 'a::1', "'b'::[]", 'nan', '+inf', '$4', '$0', '0x1F', '0b10',
        '{"f":1,g:[]}', "''", '$ion_1_0', '4d-2', '//c\n', '/*c*/')


# Pieces of the constructs of each kind, to be joined at random.
PIECES = {
    'number': ('0', '1', '9', '_', '-', '+', '.', 'e', 'E', 'd', 'D', 'x', 'X', 'b', 'B', 'f', '10', '0x', '0b', 'inf'),
    'timestamp': ('2000', '0001', '9999', '-', '-02', '-29', '-12', '-31', 'T', 'Z', '+', ':', '.', '23', '24', '59', '60', '00', 'T23:59', ':59',
                  '+23:59', '-00:00', '.0', '.999', '2000-02-29T', '2001-02-'),
    'string': ('"', "'''", "'''", "'", 'a', '\\', '\\n', '\\x4', '1', '\\u00', '\\U0010', 'FFFF', '\n', '\r', ' ', '\t', '\x0b', '\0', '\xe9', '\U0001f4a9', '/*c*/', '//c\n',
               '::'),
    'symbol': ("'", "'", 'a', '$', '1', '$1', '_', '\\', '\\x41', ' ', '\n', '::', '\xe9', '.', '+', '"', 'null', '$ion_1_0', '/*c*/', '$99'),
    'keyword': ('null', '.', 'int', 'string', 'struct', 'symbol', 's', 'true', 'false', 'nan', '+', '-', 'inf', '::', ':', ' ', '_', '1', '/*c*/', "'"),
    'lob': ('{{', '{{', '{', '}}', '}}', '}', '"', '"', "'", "''", "'''", "'''", 'AAAA', 'A', '=', '==', 'a', ' ', '\n', '\\', '\\x41', '\xe9', '/', '//c\n', '/*c*/', '+/'),
    'container': ('[', ']', '(', ')', '{', '}', ',', ',', ':', '::', 'a', "'a'", '"a"', "'''a'''", '1', ' ', 'a:', 'a:', 'b::', '/*c*/', '//c\n', '+', 'null', '{{', '}}'),
    'comment': ('/', '*', '/*', '*/', '//', '\n', '\r', 'a', '1', ' ', '"', "'", '[', ']', ',', '/*c*/'),
    'version': ('$ion', '_', '_', '1', '0', '1_0', '2', '$ion_1_0', 'a', '::', "'", ' ', '/*c*/'),
}


def gen_pieces(d, kind):
    pieces = PIECES[kind]
    out = [d.choice(pieces) for _ in range(d.integer(2, 8))]
    if kind == 'lob' and d.chance(75):
        out = ['{{'] + out + ['}}']
    return ''.join(out)


def gen_bad(d):
    """(kind, text)"""
    kind, items = d.choice(KINDS)
    k = d.draw(9)
    if k == 7 or (k == 6 and kind == 'lob'):
        return kind, gen_pieces(d, kind)
    text = d.choice(items)
    if k == 9 and kind in ('number', 'timestamp', 'keyword'):
        # splice two of a kind
        other = d.choice(items)
        text = text[:d.integer(0, len(text))] + other[d.integer(0, len(other)):]
    elif k == 8 and len(text) > 1:
        i = d.integer(0, len(text) - 1)
        text = text[:i] + d.choice('0123456789abxeTZ_-+.:"\'\\{}[]() \n/*$') + text[i + 1:]
    return kind, text


NEAR_ALPHABET = {
    'number': '00112379_-+.eEdDxXbBaf',
    'timestamp': '0011239-+:.TZ_tz ',
    'keyword': 'nulintrefas.+-_:01N ',
    'string': '"\'\\nxuU0047fFdD8 \n\r\t\x00\x0b\x7f\x80',
    'symbol': '\'\\$_a01:.+-x \n\t',
    'lob': '{}"\'=+/Aa0_- \n\t\\x8\xe9',
    'comment': '/*\n\r a1[,',
    'version': '$ion_10 2:',
}

NEAR = {
    'keyword': ('null.list', 'null', 'null.null', 'null.bool', 'null.int', 'null.float', 'null.decimal', 'null.timestamp', 'null.string', 'null.symbol',
                'null.blob', 'null.clob', 'null.list', 'null.sexp', 'null.struct', 'true', 'false', 'nan', '+inf', '-inf'),
    'string': ('"ab"', '"\\n\\"b"', '"\\x41\\u00e9"', '"\\U0001F4A9"', '"\\\n"', "'''a'''", "'''a''' '''b'''", "'''a\nb\\''''", "'''\\u0041'''/**/'''b'''", '"\\ud83d\\udca9"'),
    'symbol': ("'ab'", "''", "'\\'x'", "'\\u0041'", 'ab', '$4', '$0', '$a', '_1', "a::b", "'a' :: 1", '$4::$7', 'a::b::1'),
    'lob': ('{{}}', '{{AAAA}}', '{{AAAAAA==}}', '{{AAAAAAA=}}', '{{AA==}}', '{{AAA=}}', '{{ A A A A }}', '{{"a\\x41"}}', '{{"" }}', "{{'''a'''}}", "{{'''a''' '''b\nc'''}}", "{{ '''\\x41''' }}"),
    'comment': ('/**/', '/* a */', '/***/', '//\n', '//a\n1', '1/**/', '/*a*/1', '1//c\n', '/* // */', '/**//**/', '//a\r1', '/*\n*/ a'),
    'version': ('$ion_1_0', '$ion_1_0 $ion_1_0', "'$ion_1_0'", 'a::$ion_1_0', '$ion_1_0::1', '$ion'),
}


def near_number(d):
    """The pieces of a valid number."""
    def digits(least=1):
        return ''.join(d.choice('0123459') for _ in range(least + d.small(3)))
    out = ['-'] if d.chance(25) else []
    k = d.draw(5)
    if k <= 1:
        return out + ['0', d.choice('xXbB' if k else 'xx')] + [d.choice('01'), d.choice(('', '', '_')), d.choice(('1', '01', '1_0'))]
    out.append(d.choice(('0', '0', '1', '10', '1_0', '9' + digits())))
    if k >= 3:
        out += ['.', d.choice(('', digits(), '0', '1_0'))]
    if k in (2, 4):
        out += [d.choice('eEdD'), d.choice(('', '', '-', '+')), digits()[:2]]
    return out


def near_timestamp(d):
    """The pieces of a valid timestamp."""
    out = [d.choice(('0001', '1970', '2000', '2100', '9999'))]
    k = d.draw(6)
    if k >= 1:
        out += ['-', d.choice(('01', '02', '12'))]
    if k < 2:
        return out + ['T']
    out += ['-', d.choice(('01', '28', '29' if out[0] in ('2000',) else '10'))]
    if k == 2:
        return out + d.choice(([], ['T']))
    out += ['T', d.choice(('00', '23', '09')), ':', d.choice(('00', '59', '30'))]
    if k >= 4:
        out += [':', d.choice(('00', '59', '05'))]
    if k >= 5:
        out += ['.', d.choice(('0', '5', '123456', '0000000'))]
    return out + d.choice((['Z'], ['+', '00', ':', '00'], ['-', '00', ':', '00'], ['+', '01', ':', '30'], ['-', '00', ':', '30']))


def gen_near(d):
    """(kind, text): a valid token after one or two small changes which keep to the characters of its kind."""
    kind = d.weighted(((5, 'number'), (6, 'timestamp'), (2, 'keyword'), (2, 'string'), (2, 'symbol'), (2, 'lob'), (1, 'comment'), (1, 'version')))
    if kind == 'number':
        parts = near_number(d)
    elif kind == 'timestamp':
        parts = near_timestamp(d)
    else:
        parts = list(d.choice(NEAR[kind]))
    alphabet = NEAR_ALPHABET[kind]
    for _ in range(d.weighted(((7, 1), (2, 2)))):
        n = len(parts)
        i = d.integer(0, n - 1) if n else 0
        k = d.draw(7)
        if k == 0:
            del parts[i:i + 1]
        elif k == 1:
            parts.insert(i, parts[d.integer(0, n - 1)] if n else '')
        elif k == 2 and n:
            j = d.integer(0, n - 1)
            parts[i], parts[j] = parts[j], parts[i]
        elif k == 3:
            del parts[i:i + 2]
        elif k == 4:
            parts.append(d.choice(alphabet))
        else:
            t = ''.join(parts)
            i = d.integer(0, len(t))
            c = d.choice(alphabet)
            parts = list(t[:i] + (c if k != 7 else '') + t[i + (k != 5):])
    return kind, ''.join(parts)


def valid_padding(d, within=None):
    """A few valid tokens of the container ``within``, ready to be followed by another value."""
    out = []
    for _ in range(d.small(2)):
        g = d.choice(GOOD)
        if within == '{':
            if g[:2] in ('//', '/*'):
                out.append(g)
            else:
                out.append('%s:%s,' % (d.choice(('a', '"b"', "'c'", "'''d'''", '$4', 'x ')), g))
        elif within == '[':
            out.append(g if g[:2] in ('//', '/*') else g + ',')
        else:
            out.append(g + d.choice((' ', '\n', '\t')))
    return ''.join(out)


def embed(d, bad, levels):
    """The construct within ``levels`` containers, among valid values."""
    stack = [d.choice('[({') for _ in range(levels)]
    out = [valid_padding(d)]
    if d.chance(10):
        out.insert(0, '$ion_1_0 ')
    for c in stack:
        out.append(d.choice(('', '', '', 'a::', "'b'::", ' ', '/*c*/')) + c)
        out.append(valid_padding(d, c))
        if c == '{':
            out.append(d.choice(('f:', '"g":', "'h':", "'''i''':", '$5:', 'j :/*c*/')))
    out.append(d.choice(('', '', '', 'a::', "'b' ::", '"s" ' if not stack or stack[-1] == '(' else '')))
    out.append(bad)
    for c in reversed(stack):
        out.append(d.weighted(((4, ''), (2, ' '), (1, '\n'), (1, '/*c*/'))))
        if c == '[':
            out.append(d.choice(('', '', ',1', ',a', ' ,"s"')))
        elif c == '{':
            out.append(d.choice(('', '', ',z:1', ',"y":a')))
        else:
            out.append(d.choice(('', '', ' 1', ' a', '"s"')))
        out.append({'[': ']', '(': ')', '{': '}'}[c])
    out.append(d.choice(('', '', '', ' ', '\n', '\n1', ' abc', '\n//c', ' "s"', '\n[]')))
    return ''.join(out)
