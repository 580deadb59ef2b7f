"""Abstract value domain.

Integers of width w are one of
  int                      a known constant (unsigned representation)
  ('S', w, name)           a provenance atom (an unknown but named value)
  ('L', w, c, ((k,a),..))  linear combination  c + sum k*a  (mod 2^w)
  ('B', w, ((pw,v,lo),..)) concatenation, least significant part first; each
                           part is pw bits of v starting at bit lo
  ('T', w, op, args..)     any other operation, uninterpreted (Herbrand)
  ('C', 1, pred, w, a, b)  undecided comparison (i1)
Pointers are ('P', obj, off) with off an int or a 64 bit term; null is 0.
Floating values are ('F', x) or ('S'/'T', 'd', ...).
No value is ever handed to a decision procedure: everything is decided by
normalisation in this finite-height term domain or left undecided.
"""

def mask(w):
    return (1 << w) - 1


def width(v, d=64):
    if isinstance(v, int):
        return d
    if v[0] == 'P':
        return 64
    return v[1]


def is_const(v):
    return isinstance(v, int)


def is_ptr(v):
    return isinstance(v, tuple) and v[0] == 'P'


def parts(v, w):
    if isinstance(v, int):
        return [(w, v & mask(w), 0)]
    if v[0] == 'B':
        return list(v[2])
    return [(w, v, 0)]


def _app(out, pw, v, lo):
    if out and not isinstance(v, int) and out[-1][1] == v and out[-1][2] + out[-1][0] == lo:
        out[-1] = (out[-1][0] + pw, v, out[-1][2])
    elif out and isinstance(v, int) and isinstance(out[-1][1], int):
        out[-1] = (out[-1][0] + pw, out[-1][1] | ((v >> lo & mask(pw)) << out[-1][0]), 0)
    else:
        out.append((pw, v >> lo & mask(pw), 0) if isinstance(v, int) else (pw, v, lo))


def mk(ps):
    out = []
    for (pw, v, lo) in ps:
        if pw == 0:
            continue
        if not isinstance(v, int) and v[0] == 'T' and v[2] == 'sext' and lo + pw <= v[3]:
            for q in parts(slice_(v[4], v[3], lo, pw), pw):
                if not isinstance(q[1], int) and q[1][0] == 'T' and q[1][2] == 'sext':
                    out.append(q)
                else:
                    _app(out, *q)
            continue
        if isinstance(v, int):
            v = (v >> lo) & mask(pw)
            lo = 0
        if out:
            qw, q, qlo = out[-1]
            if isinstance(v, int) and isinstance(q, int):
                out[-1] = (qw + pw, q | (v << qw), 0)
                continue
            if not isinstance(v, int) and q == v and qlo + qw == lo:
                out[-1] = (qw + pw, q, qlo)
                continue
        out.append((pw, v, lo))
    if len(out) == 1:
        pw, v, lo = out[0]
        if isinstance(v, int):
            return v
        vw = 64 if v[0] == 'P' else v[1]
        if lo == 0 and pw == vw:
            return v
    w = sum(p[0] for p in out)
    return ('B', w, tuple(out))


def slice_(v, w, lo, n):
    """bits lo..lo+n of v (width w)"""
    if isinstance(v, int):
        return (v >> lo) & mask(n)
    if lo == 0 and n == w:
        return v
    if v[0] == 'L' and lo == 0:
        return lin_trunc(v, n)
    if v[0] == 'T' and v[2] == 'sext' and lo + n <= v[3]:
        return slice_(v[4], v[3], lo, n)
    if v[0] == 'T' and v[2] == 'sext' and lo == 0:
        return sext(v[4], v[3], n)
    out = []
    pos = 0
    for (pw, a, alo) in parts(v, w):
        s = max(pos, lo)
        e = min(pos + pw, lo + n)
        if s < e:
            out.append((e - s, a, alo + (s - pos)))
        pos += pw
    return mk(out)


def zext(v, w, n):
    if isinstance(v, int):
        return v
    if n == w:
        return v
    return mk(parts(v, w) + [(n - w, 0, 0)])


def sext(v, w, n):
    if isinstance(v, int):
        if v >> (w - 1):
            return v | (mask(n) & ~mask(w))
        return v
    top = slice_(v, w, w - 1, 1)
    if isinstance(top, int):
        return mk(parts(v, w) + [(n - w, mask(n - w) if top else 0, 0)])
    if v[0] == 'T' and v[2] == 'sext':
        return ('T', n, 'sext', v[3], v[4])
    return ('T', n, 'sext', w, v)


def lin(v, w):
    """-> (const, {atom: coef})"""
    if isinstance(v, int):
        return v & mask(w), {}
    if v[0] == 'L':
        return v[2], dict((a, k) for k, a in v[3])
    if v[0] == 'P':
        o = v[2]
        c, d = lin(o, 64)
        b = ('S', 64, ('base', v[1]))
        d[b] = d.get(b, 0) + 1
        return c, d
    return 0, {v: 1}


def mklin(c, d, w):
    m = mask(w)
    c &= m
    items = []
    base = None
    for a, k in d.items():
        k &= m
        if k == 0:
            continue
        items.append((k, a))
    if not items:
        return c
    if c == 0 and len(items) == 1 and items[0][0] == 1:
        a = items[0][1]
        if a[0] == 'S' and isinstance(a[2], tuple) and a[2][0] == 'base':
            return ('P', a[2][1], 0)
        return a
    # a pointer again?
    bases = [(k, a) for k, a in items if a[0] == 'S' and isinstance(a[2], tuple) and a[2][0] == 'base']
    if len(bases) == 1 and bases[0][0] == 1 and w == 64:
        rest = {a: k for k, a in items if a is not bases[0][1]}
        return ('P', bases[0][1][2][1], mklin(c, rest, 64))
    items.sort(key=lambda t: repr(t[1]))
    return ('L', w, c, tuple(items))


def add(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & mask(w)
    if isinstance(b, int) and b == 0:
        return a
    if isinstance(a, int) and a == 0:
        return b
    ca, da = lin(a, w)
    cb, db = lin(b, w)
    for k, v in db.items():
        da[k] = da.get(k, 0) + v
    return mklin(ca + cb, da, w)


def neg(a, w):
    if isinstance(a, int):
        return (-a) & mask(w)
    c, d = lin(a, w)
    return mklin(-c, {k: -v for k, v in d.items()}, w)


def sub(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (a - b) & mask(w)
    if a == b:
        return 0
    return add(a, neg(b, w), w)


def mulc(a, k, w):
    if isinstance(a, int):
        return (a * k) & mask(w)
    c, d = lin(a, w)
    return mklin(c * k, {x: v * k for x, v in d.items()}, w)


def lin_trunc(v, n):
    c, d = lin(v, v[1])
    r = {}
    cc = c
    for a, k in d.items():
        t = slice_(a, width(a), 0, n)
        c2, d2 = lin(t, n)
        cc += c2 * k
        for x, y in d2.items():
            r[x] = r.get(x, 0) + y * k
    return mklin(cc, r, n)


def strip_bits(v, w):
    return parts(v, w)


def bitop(op, a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
    if a == b:
        return {'and': a, 'or': a, 'xor': 0}[op]
    if op == 'and' and b == 1 and a[0] == 'P' and isinstance(a[1], str) and a[1].startswith('$') and a[2] == 0:
        return 0            # pointers to functions are even (virtual flag of member pointers)
    # split both into aligned parts
    pa, pb = parts(a, w), parts(b, w)
    cuts = set([0, w])
    pos = 0
    for p in pa:
        pos += p[0]
        cuts.add(pos)
    pos = 0
    for p in pb:
        pos += p[0]
        cuts.add(pos)
    # also cut where a constant has bit runs
    for v, ps in ((a, pa), (b, pb)):
        pos = 0
        for p in ps:
            if isinstance(p[1], int):
                prev = None
                for i in range(p[0]):
                    bit = (p[1] >> i) & 1
                    if prev is not None and bit != prev:
                        cuts.add(pos + i)
                    prev = bit
            pos += p[0]
    cuts = sorted(cuts)
    out = []
    for s, e in zip(cuts, cuts[1:]):
        n = e - s
        x = slice_(a, w, s, n)
        y = slice_(b, w, s, n)
        if isinstance(x, int) and isinstance(y, int):
            r = {'and': x & y, 'or': x | y, 'xor': x ^ y}[op]
        elif x == y:
            r = 0 if op == 'xor' else x
        else:
            if isinstance(x, int):
                x, y = y, x
            if isinstance(y, int):
                if y == 0:
                    r = 0 if op == 'and' else x
                elif y == mask(n):
                    if op == 'and':
                        r = x
                    elif op == 'or':
                        r = y
                    else:
                        r = not_(x, n)
                else:
                    r = ('T', n, op, x, y)
            else:
                x, y = sorted((x, y), key=repr)
                r = ('T', n, op, x, y)
        out.extend(parts(r, n))
    return mk(out)


def not_(x, n):
    if isinstance(x, int):
        return x ^ mask(n)
    if x[0] == 'T' and x[2] == 'not':
        return x[3]
    if x[0] == 'C':
        inv = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt',
               'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}
        if x[2] in inv:
            return ('C', 1, inv[x[2]], x[3], x[4], x[5])
    return ('T', n, 'not', x)


def shift(op, a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        if b >= w:
            if op == 'ashr' and a >> (w - 1):
                return mask(w)
            return 0
        if op == 'shl':
            return (a << b) & mask(w)
        if op == 'lshr':
            return a >> b
        s = a - (1 << w) if a >> (w - 1) else a
        return (s >> b) & mask(w)
    if isinstance(b, int):
        if b == 0:
            return a
        if b < w:
            if op == 'shl':
                if a[0] in ('L',):
                    return mulc(a, 1 << b, w)
                return mk([(b, 0, 0)] + parts(slice_(a, w, 0, w - b), w - b))
            if op == 'lshr':
                return mk(parts(slice_(a, w, b, w - b), w - b) + [(b, 0, 0)])
            x = slice_(a, w, b, w - b)
            return sext(x, w - b, w)
    return ('T', w, op, a, b)


def binop(op, a, b, w):
    if op == 'add':
        return add(a, b, w)
    if op == 'sub':
        return sub(a, b, w)
    if op in ('and', 'or', 'xor'):
        return bitop(op, a, b, w)
    if op in ('shl', 'lshr', 'ashr'):
        return shift(op, a, b, w)
    if op == 'mul':
        if isinstance(b, int):
            return mulc(a, b, w)
        if isinstance(a, int):
            return mulc(b, a, w)
        a, b = sorted((a, b), key=repr)
        return ('T', w, 'mul', a, b)
    if isinstance(a, int) and isinstance(b, int) and b != 0:
        if op == 'udiv':
            return a // b
        if op == 'urem':
            return a % b
        sa = a - (1 << w) if a >> (w - 1) else a
        sb = b - (1 << w) if b >> (w - 1) else b
        q = abs(sa) // abs(sb)
        if (sa < 0) != (sb < 0):
            q = -q
        if op == 'sdiv':
            return q & mask(w)
        if op == 'srem':
            return (sa - q * sb) & mask(w)
    if op in ('udiv', 'sdiv') and b == 1:
        return a
    if op in ('sdiv', 'udiv') and isinstance(b, int) and not isinstance(a, int):
        # exact division of a linear form (pointer differences)
        c, d = lin(a, w)
        if c % b == 0 and all(k % b == 0 for k in d.values()):
            return mklin(c // b, {x: k // b for x, k in d.items()}, w)
    return ('T', w, op, a, b)


def signed(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def const_cmp(pred, a, b, w):
    if pred == 'eq':
        return a == b
    if pred == 'ne':
        return a != b
    if pred[0] == 's':
        a, b = signed(a, w), signed(b, w)
    p = pred[1:]
    return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p]


def fmt(v, depth=0):
    if isinstance(v, int):
        return str(v)
    if v is None:
        return 'none'
    if v[0] == 'S':
        return str(v[2]) if not isinstance(v[2], tuple) else '<' + ':'.join(map(str, v[2])) + '>'
    if v[0] == 'P':
        return '&%s+%s' % (v[1], fmt(v[2]))
    if v[0] == 'L':
        s = []
        for k, a in v[3]:
            sk = signed(k, v[1])
            s.append(('%d*' % sk if sk != 1 else '') + fmt(a))
        if v[2]:
            s.append(str(signed(v[2], v[1])))
        return '(' + '+'.join(s) + ')'
    if v[0] == 'B':
        return '{' + ','.join('%s[%d:%d]' % (fmt(a), lo, lo + n) for n, a, lo in v[2]) + '}'
    if v[0] == 'C':
        return '(%s %s %s)' % (fmt(v[4]), v[2], fmt(v[5]))
    if v[0] == 'T':
        return '%s(%s)' % (v[2], ','.join(fmt(x) if isinstance(x, (int, tuple)) else str(x) for x in v[3:]))
    return str(v)
