"""Small changes to model values: some keep the value, some change it in a way that is easily overlooked."""
from .gen import gen_scalar, gen_symbol_text, Opts
from .model import mk, shift_minutes

_SMALL = Opts(big=False, wide=False, huge_exponents=False)


def paths(v, path=()):
    """Paths of all nodes of a value."""
    yield path
    if v[0] in ('list', 'sexp'):
        for i, x in enumerate(v[1]):
            for p in paths(x, path + (i,)):
                yield p
    elif v[0] == 'struct':
        for i, (_, x) in enumerate(v[1]):
            for p in paths(x, path + (i,)):
                yield p


def get(v, path):
    for i in path:
        v = v[1][i][1] if v[0] == 'struct' else v[1][i]
    return v


def replace(v, path, new):
    if not path:
        return new
    i, rest = path[0], path[1:]
    items = list(v[1])
    if v[0] == 'struct':
        items[i] = (items[i][0], replace(items[i][1], rest, new))
    else:
        items[i] = replace(items[i], rest, new)
    return mk(v[0], tuple(items), v[2])


def shuffle_fields(d, v):
    """An equal value with the fields of its structs in another order."""
    if v[0] in ('list', 'sexp'):
        return mk(v[0], tuple(shuffle_fields(d, x) for x in v[1]), v[2])
    if v[0] == 'struct':
        return mk('struct', tuple(d.shuffle([(n, shuffle_fields(d, x)) for n, x in v[1]])), v[2])
    return v


def tweak(d, v):
    """v with one node changed a little (it may come out equal)."""
    path = d.choice(list(paths(v)))
    return replace(v, path, tweak_node(d, get(v, path)))


def tweak_node(d, v):
    t, p, a = v
    if d.chance(25):
        return mk(t, p, tweak_annotations(d, a))
    if d.chance(6):
        return gen_scalar(d, _SMALL)
    if t == 'null':
        return mk('null', d.choice(('null', 'bool', 'int', 'float', 'decimal', 'timestamp', 'symbol', 'string', 'clob', 'blob', 'list', 'sexp',
                                    'struct')), a)
    if t == 'bool':
        return d.choice((mk('bool', not p, a), mk('int', int(p), a)))
    if t == 'int':
        options = [mk('int', p + d.choice((1, -1, 256, 1 << 32, 1 << 64)), a), mk('int', -p, a)]
        if abs(p) < 1 << 60:
            options += [mk('float', float(p), a), mk('decimal', (int(p < 0), abs(p), 0), a)]
        if p in (0, 1):
            options.append(mk('bool', bool(p), a))
        return d.choice(options)
    if t == 'float':
        options = [mk('float', -p, a), mk('float', d.choice((float('nan'), float('inf'), float('-inf'))), a)]
        if p == p and abs(p) != float('inf'):
            options.append(mk('float', p * (1 + 2.0 ** -52) if p else 5e-324, a))
            if p == int(p) and abs(p) < 1e18:
                options += [mk('int', int(p), a), mk('decimal', (int(p < 0), abs(int(p)), 0), a)]
        else:
            options.append(mk('float', d.choice((0.0, 1.0)), a))
        return d.choice(options)
    if t == 'decimal':
        s, c, e = p
        options = [(1 - s, c, e), (s, c * 10, e - 1), (s, c + 1, e), (s, c, e + 1), (s, c, e - 1)]
        if c and c % 10 == 0:
            options.append((s, c // 10, e + 1))
        out = mk('decimal', d.choice(options), a)
        if e == 0 and d.chance(15):
            out = mk('int', -c if s else c, a)
        return out
    if t == 'timestamp':
        return mk(t, tweak_timestamp(d, p), a)
    if t in ('symbol', 'string'):
        if p is None:
            return mk('symbol', gen_symbol_text(d, None, False), a)
        return d.choice((mk('string' if t == 'symbol' else 'symbol', p, a), mk(t, p + d.choice(('x', '\0', ' ')), a), mk(t, p[1:], a),
                         mk(t, p.swapcase(), a)))
    if t in ('clob', 'blob'):
        return d.choice((mk('blob' if t == 'clob' else 'clob', p, a), mk(t, p + b'\0', a), mk(t, p[1:], a)))
    items = list(p)
    k = d.draw(7 if t == 'struct' else 6)
    if t in ('list', 'sexp'):
        if k == 0:
            t = 'sexp' if t == 'list' else 'list'
        elif k == 1 and items:
            del items[d.draw(len(items) - 1)]
        elif k == 2:
            items.insert(d.draw(len(items)), gen_scalar(d, _SMALL))
        elif k == 3 and len(items) > 1:
            items = d.shuffle(items)
        elif k == 4 and items:
            items.append(items[-1])
        elif k == 5:
            return mk('struct', tuple(('f%d' % i, x) for i, x in enumerate(items)), a)
        else:
            items = []
        return mk(t, tuple(items), a)
    if k == 0 and items:
        del items[d.draw(len(items) - 1)]
    elif k == 1 and items:
        items.append(d.choice(items))
    elif k == 2 and items:
        i = d.draw(len(items) - 1)
        items[i] = (gen_symbol_text(d, None, False), items[i][1])
    elif k == 3 and len(items) > 1:
        i, j = d.draw(len(items) - 1), d.draw(len(items) - 1)
        items[i], items[j] = (items[i][0], items[j][1]), (items[j][0], items[i][1])
    elif k == 4 and items:
        # the same field with another value
        n, x = d.choice(items)
        items.insert(d.draw(len(items)), (n, tweak_node(d, x)))
    elif k == 5:
        items.append((d.choice(('a', 'b', 'new')), gen_scalar(d, _SMALL)))
    elif k == 7 and len(items) > 2:
        # a field gets the name of another one
        i, j = d.draw(len(items) - 1), d.draw(len(items) - 1)
        x = items.pop(i)
        items.insert(d.draw(len(items)), (items[j % len(items)][0], x[1]))
    else:
        items = d.shuffle(items)
    return mk('struct', tuple(items), a)


def twin(d, v, opts):
    """v with one node replaced by one that compares (and hashes) equal in Python, but is not the same in Ion, where there is such a one."""
    candidates = []
    for path in paths(v):
        node = get(v, path)
        twins = [x for x in twin_nodes(node, opts) if opts.types is None or x[0] in opts.types]
        if twins:
            candidates.append((path, twins))
    if not candidates:
        return v
    path, twins = d.choice(candidates)
    return replace(v, path, d.choice(twins))


def twin_nodes(v, opts):
    t, p, a = v
    if t == 'null':
        return [mk('null', x, a) for x in ('null', 'int', 'string', 'struct') if x != p] if opts.types is None else []
    if t == 'bool':
        return [mk('int', int(p), a), mk('float', float(p), a)]
    if t == 'int':
        out = [mk('bool', bool(p), a)] if p in (0, 1) else []
        if abs(p) < 1 << 53:
            out += [mk('float', float(p), a), mk('decimal', (int(p < 0), abs(p), 0), a)]
        return out
    if t == 'float':
        if p == 0:
            return [mk('float', -p, a), mk('int', 0, a), mk('bool', False, a)]
        return [mk('int', int(p), a)] if p == p and abs(p) < 1 << 53 and p == int(p) else []
    if t == 'decimal':
        s, c, e = p
        out = [mk(t, (s, c * 10, e - 1), a)]
        if c % 10 == 0:
            out.append(mk(t, (s, c // 10, e + 1), a))
        if c == 0:
            out += [mk(t, (1 - s, 0, e), a)] * 2
        if e == 0 and (c or not s):
            out.append(mk('int', -c if s else c, a))
        return out
    if t == 'timestamp':
        return [mk(t, q, a) for q in twin_timestamps(p)]
    if t in ('string', 'symbol'):
        return [] if p is None else [mk('symbol' if t == 'string' else 'string', p, a)]
    if t in ('clob', 'blob'):
        return [mk('blob' if t == 'clob' else 'clob', p, a)]
    if t in ('list', 'sexp'):
        return [mk('sexp' if t == 'list' else 'list', p, a)]
    return []


def twin_timestamps(p):
    prec, y, mo, day, h, mi, s, frac, off = p
    out = []
    if prec == 'Y':
        return [('M', y, 1) + (None,) * 6, ('D', y, 1, 1) + (None,) * 5]
    if prec == 'M':
        return [('D', y, mo, 1) + (None,) * 5] + ([('Y', y) + (None,) * 7] if mo == 1 else [])
    if prec == 'D':
        return [('m', y, mo, day, 0, 0, None, None, None)] + ([('M', y, mo) + (None,) * 6] if day == 1 else [])
    if off is not None and 2 < y < 9998:
        for new in (0, 60, -60, 330, off + 1, off - 60):
            if new != off and abs(new) < 1440:
                fields = shift_minutes(y, mo, day, h, mi, new - off)
                out.append((prec,) + tuple(fields) + (s, frac, new))
        for new in (60, -90, 330):
            fields = shift_minutes(y, mo, day, h, mi, 2 * (new - off))      # equal when the fields of both are taken for UTC
            out += [(prec,) + tuple(fields) + (s, frac, new), p[:8] + (new,)]
        out.append(p[:8] + (None,))
    if prec == 'm':
        out.append(('s',) + p[1:6] + (0, None, off))
        return out
    if s == 0 and frac is None:
        out.append(('m',) + p[1:6] + (None, None, off))
    if frac is None:
        more = [(0, 1), (0, 6)]
    else:
        c, n = frac
        more = [(c * 10, n + 1)] + ([(c // 10, n - 1) if n > 1 else None] if c % 10 == 0 else [])
        if n >= 6:
            more.append((c * 10 + 1, n + 1))
        else:
            more += [(c * 10 ** (6 - n), 6), (c * 10 ** (7 - n) + 3, 7)]
        if n > 6:
            more.append((c + 1 if c % 10 < 9 else c - 1, n))
    return out + [p[:7] + (f, off) for f in more]


def tweak_annotations(d, a):
    a = list(a)
    k = d.draw(5)
    if k == 0 or not a:
        a.insert(d.draw(len(a)), d.choice(('a', 'b', 'new')))
    elif k == 1:
        del a[d.draw(len(a) - 1)]
    elif k == 2:
        a = d.shuffle(a)
    elif k == 3:
        a.append(a[0])
    elif k == 4:
        i = d.draw(len(a) - 1)
        a[i] = (a[i] or '') + 'x'
    else:
        a = []
    return tuple(a)


def tweak_timestamp(d, p):
    prec, y, mo, day, h, mi, s, frac, off = p
    k = 0 if d.chance(20) else d.draw(5)
    if k == 0:
        # another precision of the same point in time
        if prec == 'Y':
            return ('M', y, 1) + (None,) * 6
        if prec == 'M':
            return d.choice((('Y', y) + (None,) * 7, ('D', y, mo, 1) + (None,) * 5))
        if prec == 'D':
            return d.choice((('M', y, mo) + (None,) * 6, ('m', y, mo, day, 0, 0, None, None, d.choice((None, 0)))))
        if prec == 'm':
            return ('s', y, mo, day, h, mi, 0, None, off)
        return d.choice((('m', y, mo, day, h, mi, None, None, off), ('s', y, mo, day, h, mi, s, None if frac else (0, 1), off)))
    if k == 1 and prec in 'ms':
        # another offset at the same instant or with the same fields
        if off is None:
            return p[:8] + (0,)
        if off == 0 and d.boolean():
            return p[:8] + (None,)
        new = d.choice((0, 60, -60, 1, 90))
        if d.boolean() or not 2 < y < 9998:
            return p[:8] + (new,) if 2 < y < 9998 else p[:8] + (None,)
        y2, mo2, d2, h2, mi2 = shift_minutes(y, mo, day, h, mi, new - off)
        return (prec, y2, mo2, d2, h2, mi2, s, frac, new)
    if k == 2 and prec == 's':
        if frac is None:
            return p[:7] + ((d.draw(1), d.choice((1, 3, 6, 7))), off)
        c, n = frac
        return p[:7] + (d.choice(((c * 10, n + 1), (c * 10 + 1, n + 1), ((c + 1) % 10 ** n, n), (c // 10, n - 1) if n > 1 else None)), off)
    if k == 3 and prec == 's':
        return p[:6] + ((s + 1) % 60,) + p[7:]
    if k == 4 and prec in 'ms':
        return p[:5] + ((mi + 1) % 60,) + p[6:]
    return (prec, y + 1 if y < 9990 and not (mo == 2 and day == 29) else y) + p[2:]
