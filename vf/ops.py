"""Field operator rules: abstract outcomes of the decoder/encoder operator code
compared with the FAST 1.1 operator tables."""
import itertools

from . import terms as T
from .engine import AnalysisError

OPS = ['none', 'constant', 'delta', 'default', 'copy', 'increment', 'tail']
OPI = {n: i for i, n in enumerate(OPS)}
INTS = {'i32': (32, True), 'u32': (32, False), 'i64': (64, True), 'u64': (64, False)}
STRS = ['ascii', 'unicode', 'bytes']
UNDEF, EMPTY, ASSIGNED = 0, 1, 2
PREV = ['undefined', 'empty', 'assigned']
LENMAX = (1 << 24) - 1


class Infeasible(Exception):
    pass


class NeedSplit(Exception):
    def __init__(self, expr):
        self.expr = expr          # affine form; split on expr >= 0


class Undecided(Exception):
    pass


def ops_for(kind):
    if kind in INTS:
        return ['none', 'constant', 'delta', 'default', 'copy', 'increment']
    if kind in STRS:
        return ['none', 'constant', 'delta', 'default', 'copy', 'tail']
    return ['none', 'constant', 'delta', 'default', 'copy']


# ------------------------------------------------------------ affine helpers
def af(c, **kw):
    return (c, dict(kw))


def aadd(a, b):
    d = dict(a[1])
    for x, k in b[1].items():
        v = d.get(x, 0) + k
        if v:
            d[x] = v
        else:
            d.pop(x, None)
    return a[0] + b[0], d


def asub(a, b):
    return aadd(a, (-b[0], {x: -k for x, k in b[1].items()}))


def atom(t, w=32):
    return (0, {('n', w, t): 1})


ZERO = (0, {})


def ge0(e, st, x):
    """decide x >= 0 or demand a case split"""
    lo, hi = e.alo(st, x), e.ahi(st, x)
    if lo > hi:
        raise Infeasible()
    if lo >= 0:
        return True
    if hi < 0:
        return False
    raise NeedSplit(x)


def is0(e, st, x):
    return ge0(e, st, x) and ge0(e, st, (-x[0], {k: -v for k, v in x[1].items()}))


def cases(e, st, fn, depth=12):
    """run fn(state) splitting the state on demand; -> list of results"""
    try:
        return [fn(st)]
    except Infeasible:
        return []
    except NeedSplit as ns:
        if depth == 0:
            raise Undecided('case split depth')
        x = ns.expr
        out = []
        a = st.fork()
        a.facts = a.facts + (x,)
        out += cases(e, a, fn, depth - 1)
        b = st.fork()
        b.facts = b.facts + ((-x[0] - 1, {k: -v for k, v in x[1].items()}),)
        out += cases(e, b, fn, depth - 1)
        return out


# --------------------------------------------------------------- string terms
def toaf(e, st, t, w=64):
    t = e.norm(st, t)
    if isinstance(t, int):
        return (T.signed(t & T.mask(w), w), {})
    r = e.alin(st, t, w, 'u')
    if r is None:
        r = e.alin(st, t, w, 's')
    if r is None:
        r = e.alin(st, t, w, 's', False)
    if r is None:
        raise Undecided('length term %s' % T.fmt(t))
    return r


def content(e, st, oid, ver, lo, n, depth=0):
    """content of object oid (after its first `ver` writes), bytes [lo, lo+n):
    list of (source, start, len), and masked positions"""
    if depth > 6:
        raise Undecided('copy chain')
    if is0(e, st, n):
        return []
    o = st.mem[oid]
    todo = [(lo, aadd(lo, n))]
    segs = []
    masks = []
    log = list(o.log[:ver])
    if ver == len(o.log):
        # what was written at known places since the last write at a symbolic one
        log += [('b', k, sz, v) for k, (sz, v) in sorted(o.cells.items())
                if origin(v, sz) not in (None, (oid, ver, k)) or sz == 1 and masked(v)]
    for ent in reversed(log):
        k, off, size, src = ent[0], ent[1], ent[2], ent[3]
        off = toaf(e, st, off)
        if k == 'b':
            sz = (size, {})
        else:
            sz = toaf(e, st, size)
        if is0(e, st, sz):
            continue
        end = aadd(off, sz)
        ntodo = []
        for (a, b) in todo:
            # overlap of [a,b) and [off,end)
            if not ge0(e, st, asub(asub(b, off), (1, {}))) or not ge0(e, st, asub(asub(end, a), (1, {}))):
                ntodo.append((a, b))
                continue
            s = a if ge0(e, st, asub(a, off)) else off
            t = b if ge0(e, st, asub(end, b)) else end
            if s is not a:
                ntodo.append((a, s))
            if t is not b:
                ntodo.append((t, b))
            ln = asub(t, s)
            if k == 'w':
                so, sver, soff = src
                base = aadd(toaf(e, st, soff), asub(s, off))
                p = s
                for (sn, ss, sl, sm) in content(e, st, so, sver, base, ln, depth + 1):
                    segs.append((p, (sn, ss, sl, sm)))
                    p = aadd(p, sl)
            elif k == 's':
                segs.append((s, ('fill', (0, {}), ln, ())))
            else:
                stored(e, st, oid, src, size, off, s, ln, t, segs, masks, ntodo, depth)
        todo = ntodo
    for (a, b) in todo:
        if is0(e, st, asub(b, a)):
            continue
        # constant cells (a single remaining explicit cell) are not tracked here
        segs.append((a, (o.tag, a, asub(b, a), ())))
    # order by position
    def key_less(x, y):
        return ge0(e, st, asub(y, x))
    out = []
    for p, s in segs:
        i = 0
        while i < len(out) and not (out[i][0] != p and not key_less(out[i][0], p)):
            if out[i][0] == p:
                break
            i += 1
        out.insert(i, (p, s))
    res = []
    for p, s in out:
        sm = list(s[3])
        for m in masks:
            rel = asub(m, p)
            if ge0(e, st, rel) and ge0(e, st, asub(asub(s[2], rel), (1, {}))):
                if not any(asub(x, rel) == (0, {}) for x in sm):
                    sm.append(rel)
        s = (s[0], s[1], s[2], tuple(sm))
        if res and res[-1][0] == s[0] and not res[-1][3] and asub(aadd(res[-1][1], res[-1][2]), s[1]) == (0, {}) and s[0] not in ('byte',):
            q = res[-1]
            res[-1] = (q[0], q[1], aadd(q[2], s[2]), tuple(aadd(x, q[2]) for x in s[3]))
        else:
            res.append(s)
    return res


def origin(v, size):
    """where the bytes of a stored value were loaded from: (object, version, offset)"""
    if isinstance(v, tuple) and v[0] == 'B' and len(v[2]) == 1 and v[2][0][0] == size * 8 and v[2][0][2] % 8 == 0:
        d = v[2][0][2] // 8
        v = v[2][0][1]
    else:
        d = 0
        if not (isinstance(v, tuple) and v[0] == 'S' and v[1] == size * 8):
            return None
    if isinstance(v, tuple) and v[0] == 'S' and isinstance(v[2], tuple):
        if v[2][0] == 'ld':
            return v[2][1], v[2][2], v[2][3] if d == 0 else T.add(v[2][3], d, 64)
        if v[2][0] == 'in':
            return v[2][1], 0, v[2][2] + d
    return None


def stored(e, st, oid, src, size, off, s, ln, t, segs, masks, ntodo, depth):
    """the part [s, t) of a value of size bytes stored at off"""
    v = e.norm(st, src)
    m = masked(v)
    if m is not None and size == 1:
        if m[0] == oid and asub(toaf(e, st, m[2]), off) == (0, {}):
            masks.append(s)
            ntodo.append((s, t))
            return
        masks.append(s)
    g = (m[0], m[1], m[2]) if m is not None and size == 1 else origin(v, size)
    if g is not None:
        p = s
        base = aadd(toaf(e, st, g[2]), asub(s, off))
        for (sn, ss, sl, sm) in content(e, st, g[0], g[1], base, ln, depth + 1):
            segs.append((p, (sn, ss, sl, sm)))
            p = aadd(p, sl)
        return
    segs.append((s, ('byte', (0, {}), ln, ())))


def masked(v):
    """byte with its top bit cleared -> (object, version, offset) it was loaded from"""
    if isinstance(v, tuple) and v[0] == 'B' and len(v[2]) == 2:
        (n0, a, lo), (n1, z, _) = v[2]
        if n0 == 7 and lo % 8 == 0 and n1 == 1 and isinstance(z, int) and z == 0 and isinstance(a, tuple) and a[0] == 'S' \
                and isinstance(a[2], tuple) and a[2][0] in ('ld', 'in'):
            off = a[2][3] if a[2][0] == 'ld' else a[2][2]
            return a[2][1], a[2][2] if a[2][0] == 'ld' else 0, T.add(off, lo // 8, 64) if lo else off
    return None


def str_content(e, st, p, n):
    """segments of the string (pointer term p, length term n)"""
    ln = toaf(e, st, n)
    if is0(e, st, ln):
        return []
    p = e.norm(st, p)
    if isinstance(p, int):
        return [('null', (0, {}), ln, ())]
    r = e.resolve_ptr(st, p)
    oid, off = r
    if st.mem[oid].freed:
        return [('freed', (0, {}), ln, ())]
    if st.mem[oid].tag == 'wirebuf' and not st.mem[oid].log:
        return [('alias:wirebuf', toaf(e, st, off), ln, ())]
    return content(e, st, oid, len(st.mem[oid].log), toaf(e, st, off), ln)


def rewrites(e, st, segs):
    """the forms rewrite() gives for each order of the equality facts"""
    n = len(st.user.get('eqs', ()))
    orders = list(itertools.permutations(range(n))) if n <= 3 else [tuple(range(n))]
    return [rewrite(e, st, segs, o) for o in orders]


def rewrite(e, st, segs, order=None):
    """replace content known to equal the encoded field's by the field's"""
    eqs = st.user.get('eqs', ())
    if order:
        eqs = [eqs[i] for i in order]
    if not eqs:
        return segs
    rules = []
    for (a, b, n) in eqs:
        nf = toaf(e, st, n)
        if is0(e, st, nf):
            continue
        sa = content(e, st, a[0], a[1], toaf(e, st, a[2]), nf)
        sb = content(e, st, b[0], b[1], toaf(e, st, b[2]), nf)
        if len(sa) == 1 and len(sb) == 1:
            x, y = sa[0], sb[0]
            if y[0] == 'field':
                x, y = y, x
            if x[0] == 'field' and y[0] != 'field':
                rules.append((y, x))
    out = []
    todo = list(segs)
    while todo:
        s = todo.pop(0)
        if is0(e, st, s[2]):
            continue
        for frm, to in rules:
            if s[0] != frm[0]:
                continue
            d = asub(s[1], frm[1])
            if not ge0(e, st, d) or not ge0(e, st, asub(frm[2], aadd(d, (1, {})))):
                continue
            # covered part
            avail = asub(frm[2], d)
            if ge0(e, st, asub(avail, s[2])):
                s = ('field', aadd(to[1], d), s[2], s[3])
            else:
                todo.insert(0, (s[0], aadd(s[1], avail), asub(s[2], avail), ()))
                s = ('field', aadd(to[1], d), avail, s[3])
            break
        if out and out[-1][0] == s[0] and not out[-1][3] and is0(e, st, asub(aadd(out[-1][1], out[-1][2]), s[1])):
            q = out[-1]
            out[-1] = (q[0], q[1], aadd(q[2], s[2]), tuple(aadd(x, q[2]) for x in s[3]))
        else:
            out.append(s)
    return out


def same_content(e, st, got, want):
    """-> None or description of the difference"""
    want = list(want)
    got = list(got)
    w2 = []
    for s in want:
        if is0(e, st, s[2]):
            continue
        s = (s[0], s[1], s[2], tuple(s[3]))
        if w2 and w2[-1][0] == s[0] and not w2[-1][3] and asub(aadd(w2[-1][1], w2[-1][2]), s[1]) == (0, {}):
            q = w2[-1]
            w2[-1] = (q[0], q[1], aadd(q[2], s[2]), tuple(aadd(x, q[2]) for x in s[3]))
        else:
            w2.append(s)
    g2 = [s for s in got if not is0(e, st, s[2])]
    if len(g2) != len(w2):
        return 'content %s, expected %s' % (fseg(g2), fseg(w2))
    for g, w in zip(g2, w2):
        if g[0] != w[0]:
            return 'content %s, expected %s' % (fseg(g2), fseg(w2))
        for i in (1, 2):
            d = asub(g[i], w[i])
            if d != (0, {}) and not is0(e, st, d):
                return 'content %s, expected %s' % (fseg(g2), fseg(w2))
        gm, wm = list(g[3]), list(w[3])
        if len(gm) != len(wm):
            return 'stop bit handling: masked %s, expected %s' % (gm, wm)
        for x, y in zip(gm, wm):
            d = asub(x, y)
            if d != (0, {}) and not is0(e, st, d):
                return 'stop bit cleared at %s, expected at %s' % (faf(x), faf(y))
    return None


def faf(x):
    s = []
    for (sg, w, t), k in sorted(x[1].items(), key=repr):
        s.append('%s%s' % ('' if k == 1 else '-' if k == -1 else '%d*' % k, T.fmt(t)))
    if x[0] or not s:
        s.append(str(x[0]))
    return '+'.join(s).replace('+-', '-')


def fseg(ss):
    return '[' + ', '.join('%s@%s:%s%s' % (s[0], faf(s[1]), faf(s[2]), ' masked(%s)' % ','.join(map(faf, s[3])) if s[3] else '') for s in ss) + ']'


# ------------------------------------------------------------ decoder setup
class Cfg(object):
    def __init__(self, api, kind, op, opt, hasinit, prev, shared=True, start='fresh', fabsent=None):
        self.api, self.kind, self.op, self.opt, self.hasinit, self.prev, self.shared, self.start = \
            api, kind, op, opt, hasinit, prev, shared, start
        self.fabsent = fabsent

    @property
    def nullable(self):
        return self.opt and self.op != 'constant'

    def name(self):
        return '%s %s field, operator %s, %s, %s initial value, previous %s%s%s' % (
            {'dec1': 'decoder', 'dec2': 'decoder v2', 'enc1': 'encoder', 'enc2': 'encoder v2'}[self.api],
            self.kind, self.op, 'optional' if self.opt else 'mandatory', 'with' if self.hasinit else 'no',
            PREV[self.prev], '',
            ('' if self.start == 'fresh' else ', field buffer ' + self.start) +
            ('' if self.fabsent is None else ', field absent' if self.fabsent else ', field present'))


def bounded(st, t, lo=0, hi=LENMAX):
    st.iv[t] = (lo, hi, lo, hi)
    return t


INIT = {}
ILEN = ('S', 32, 'ilen')
PLEN = ('S', 32, 'plen')
FLEN = ('S', 32, 'flen')


def z64(t):
    return T.zext(t, 32, 64)


def make_alloc(e, st):
    al = e.new_obj(st, 8, 'zero', 'alloc')
    vt = [n for n, g in e.prog['globals'].items() if g['dem'] == 'vtable for mfast::malloc_allocator']
    if not vt:
        raise AnalysisError('malloc_allocator vtable')
    e.global_obj(st, vt[0])
    e.store(st, ('P', '@' + vt[0], 16), ('P', al, 0), 8, 64)
    return al


def str_field(e, st, f, start, pb):
    """initial typestate of a string field's storage"""
    if start == 'fresh':
        return
    cap = ('S', 31, 'cap')
    c32 = T.mk([(31, cap, 0), (1, 0, 0)])
    if start == 'owned':
        buf = e.new_obj(st, None, 'sym', 'own')
        ln = bounded(st, FLEN)
    else:
        buf = pb
        ln = PLEN
    st.iv[cap] = (1, 1 << 25, 1, 1 << 25)
    # an owned buffer always has room for its content and a terminator
    st.facts = st.facts + ((-1, {('n', 31, cap): 1, ('n', 32, ln): -1}),)
    e.store(st, T.add(ln, 1, 32), ('P', f, 0), 4, 32)
    e.store(st, c32, ('P', f, 4), 4, 32)
    e.store(st, ('P', buf, 0), ('P', f, 8), 8, 64)


class Run(object):
    """one abstract run of a decoder instance"""

    def __init__(self, e, cfg):
        self.e, self.cfg = e, cfg
        st = self.st0 = e.base_state()
        self.field = e.new_obj(st, 16, 'zero', 'field')
        self.obs = e.new_obj(st, 88, 'zero', 'obs')
        c = cfg
        prefix = []
        if c.api[-1] == '1':
            prefix = [OPI[c.op], c.opt]
        k = c.kind
        if k in INTS:
            w = INTS[k][0]
            self.init, self.prev = ('S', w, 'init'), ('S', w, 'prev')
            vals = [c.hasinit, self.init, c.prev, self.prev]
        elif k in STRS:
            ib = e.new_obj(st, None, 'sym', 'init')
            pb = e.new_obj(st, None, 'sym', 'prev')
            self.pb = pb
            bounded(st, ILEN)
            bounded(st, PLEN)
            vals = [c.hasinit, ('P', ib, 0), z64(ILEN), c.prev, ('P', pb, 0), z64(PLEN)]
            str_field(e, st, self.field, c.start, pb)
            st.user['splitint'] = True
        else:
            self.init = (('S', 64, 'init'), ('S', 16, 'inite'))
            self.prev = (('S', 64, 'prev'), ('S', 16, 'preve'))
            vals = [c.hasinit, self.init[0], self.init[1], c.prev, self.prev[0], self.prev[1]]
        al = [('P', make_alloc(e, st), 0)] if k in STRS else []
        f, o = ('P', self.field, 0), ('P', self.obs, 0)
        strm = e.new_obj(st, None, 'sym', 'stream')
        pm = e.new_obj(st, None, 'sym', 'pmap')
        if c.api == 'dec1':
            fn = 'vf_dec1_' + k
            args = prefix + vals + [f, ('P', strm, 0), ('P', pm, 0), o] + al
            if 'shared' in e.dec1_extra:
                args.append(int(c.shared))
        else:
            p = (1 if c.opt else 0) | (2 if c.hasinit else 0) | (4 if c.shared else 0)
            fn = 'vf_dec2_%s_%s_%d' % (k, c.op, p)
            args = vals + [f, ('P', strm, 0), o] + al
        self.fn = fn
        self.outs = e.run(st, fn, args)

    def slot(self, st, i):
        return self.e.norm(st, self.e.load(st, ('P', self.obs, 8 * i), 8, 64))

    def flag(self, st, i):
        v = self.slot(st, i)
        r = self.e.cmp(st, 'ne', 64, v, 0)
        if r is None:
            raise Undecided('typestate flag %s' % T.fmt(v))
        return r


def mem_events(st):
    return [ev for ev in st.events if ev[0] in ('NULLDEREF', 'UAF', 'OOB', 'DOUBLEFREE', 'NULLCOPY', 'RANGE')]


# ------------------------------------------------------------- decoder rules
ABSENT = 'absent'
ANYPREV = 'any'
KEEP = 'keep'


class Exp(object):
    """expected: code of a dynamic error, or value/prev"""

    def __init__(self, code=None, value=None, prev=KEEP):
        self.code, self.value, self.prev = code, value, prev


class BadWire(Exception):
    pass


class DecWire(object):
    """the values a decoder path has read, as symbols"""

    def __init__(self, e, st, run):
        self.e, self.st, self.c = e, st, run.cfg

    def first(self, x):
        pass

    def int(self, i):
        return ('S', INTS[self.c.kind][0], 'wire%d' % i)

    def delta(self, i):
        return ('S', 64, 'wire%d' % i)

    def exponent(self, i):
        return ('S', 16, 'wire%d' % i)

    def mantissa(self, i):
        return ('S', 64, 'wire%d' % i)

    def str(self, i):
        ln = atom(('S', 32, 'wlen%d' % i))
        # the stop bit of a non-empty ASCII string is cleared
        m = ()
        if self.c.kind == 'ascii' and not is0(self.e, self.st, ln):
            m = (asub(ln, (1, {})),)
        return [('wirebuf', ZERO, ln, m)]

    def sub(self, i):
        sgn, cut = self.st.user['sub']
        return sgn, atom(cut)


WIRETYPE = {'i32': 'int', 'u32': 'unsigned int', 'i64': 'long', 'u64': 'unsigned long'}
SIGNED_WIRE = {'int': 32, 'long': 64, 'short': 16, 'signed char': 8}


class EncWire(object):
    """the values an encoder path has written, in order"""

    def __init__(self, e, st, run):
        self.e, self.st, self.c = e, st, run.cfg
        self.w = st.user.get('wire', ())

    def get(self, i, nullable):
        kind, nl, v = self.w[i]
        if kind != 'NULL' and bool(nl) != bool(nullable):
            raise BadWire('value %d is written in the %s representation, the decoder reads the %s one' % (
                i, 'nullable' if nl else 'non-nullable', 'nullable' if nullable else 'non-nullable'))
        return kind, v

    def signed(self, i, nullable, w):
        kind, v = self.get(i, nullable)
        if kind not in SIGNED_WIRE:
            raise BadWire('value %d is written as %s, a signed integer is read' % (i, kind))
        v = T.sext(v, SIGNED_WIRE[kind], 64) if SIGNED_WIRE[kind] < 64 else v
        return v if w == 64 else T.slice_(v, 64, 0, w)

    def int(self, i):
        kind, v = self.get(i, self.c.nullable)
        if kind != WIRETYPE[self.c.kind]:
            raise BadWire('value %d is written as %s, the decoder reads %s' % (i, kind, WIRETYPE[self.c.kind]))
        return v

    def delta(self, i):
        return self.signed(i, self.c.nullable and i == 0, 64)

    def exponent(self, i):
        return self.signed(i, self.c.nullable and i == 0, 16)

    def mantissa(self, i):
        return self.signed(i, False, 64)

    def str(self, i):
        kind, v = self.get(i, self.c.nullable if i == 0 else False)
        if kind != {'ascii': 'ascii', 'unicode': 'unicode', 'bytes': 'byte_vector'}[self.c.kind]:
            raise BadWire('value %d is written as %s' % (i, kind))
        ptr, ln, sn = v
        w = T.width(ln, 32)
        n = toaf(self.e, self.st, ln, w)
        if sn is None:
            if is0(self.e, self.st, n):
                return [('empty', ZERO, ZERO, ())]
            raise BadWire('a null pointer is written with a length')
        g = content(self.e, self.st, sn[0], sn[1], toaf(self.e, self.st, sn[2]), n)
        return g or [('empty', ZERO, ZERO, ())]

    def sub(self, i):
        kind, v = self.get(i, self.c.nullable)
        if kind not in SIGNED_WIRE:
            raise BadWire('the subtraction length is written as %s' % kind)
        w = SIGNED_WIRE[kind]
        r = self.e.alin(self.st, self.e.norm(self.st, v), w, 's') or toaf(self.e, self.st, v, w)
        if ge0(self.e, self.st, r):
            return '+', r
        return '-', (-1 - r[0], {x: -k for x, k in r[1].items()})


def total(segs):
    n = ZERO
    for x in segs:
        n = aadd(n, x[2])
    return n


def dec_rule(e, st, run, W=None):
    """FAST 1.1 section 6: the outcome a decoder must produce for this path
    (presence bits and NULL/value tokens in st.user['key'], values in W)"""
    c = run.cfg
    k = c.kind
    W = W or DecWire(e, st, run)
    key = list(st.user.get('key', ()))

    def nxt(*allowed):
        if not key:
            return None
        x = key.pop(0)
        if x not in allowed:
            return 'bad'
        return x

    def read():
        """value in the stream -> value | ABSENT | None (missing)"""
        x = nxt('V', 'N') if c.nullable else nxt('V')
        if x in (None, 'bad'):
            return x
        if x == 'N':
            return ABSENT
        if k == 'dec':
            if nxt('V') != 'V':
                return 'bad'
            return (W.mantissa(1), W.exponent(0))
        return W.int(0) if k in INTS else W.str(0)

    if k in INTS:
        initv, prevv = run.init, run.prev
        base0 = 0
    elif k in STRS:
        initv = [('init', ZERO, atom(ILEN), ())]
        prevv = [('prev', ZERO, atom(PLEN), ())]
        base0 = []
    else:
        initv, prevv = run.init, run.prev
        base0 = (0, 0)

    def saved(v):
        return v if c.shared else ANYPREV

    op = c.op
    if op == 'none':
        v = read()
        if v in (None, 'bad'):
            return v
        r = Exp(value=v, prev=saved(v))
    elif op == 'constant':
        if c.opt:
            b = nxt(0, 1)
            if b in (None, 'bad'):
                return b
            v = initv if b == 1 else ABSENT
        else:
            v = initv
        r = Exp(value=v, prev=saved(v))
    elif op in ('copy', 'increment'):
        b = nxt(0, 1)
        if b in (None, 'bad'):
            return b
        if b == 1:
            v = read()
            if v in (None, 'bad'):
                return v
            r = Exp(value=v, prev=v)
        elif c.prev == UNDEF:
            if c.hasinit:
                r = Exp(value=initv, prev=initv)
            elif c.opt:
                r = Exp(value=ABSENT, prev=ABSENT)
            else:
                r = Exp(code='D5')
        elif c.prev == EMPTY:
            r = Exp(value=ABSENT, prev=ABSENT) if c.opt else Exp(code='D6')
        elif op == 'copy':
            r = Exp(value=prevv, prev=prevv)
        else:
            v = T.add(prevv, 1, INTS[k][0])
            r = Exp(value=v, prev=v)
    elif op == 'default':
        b = nxt(0, 1)
        if b in (None, 'bad'):
            return b
        if b == 1:
            v = read()
            if v in (None, 'bad'):
                return v
            r = Exp(value=v, prev=(KEEP if v is ABSENT else saved(v)) if c.shared else ANYPREV)
        else:
            v = initv if c.hasinit else ABSENT
            r = Exp(value=v, prev=saved(v))
    elif op == 'delta':
        x = nxt('V', 'N') if c.nullable else nxt('V')
        if x in (None, 'bad'):
            return x
        if x == 'N':
            r = Exp(value=ABSENT, prev=KEEP)
        elif c.prev == EMPTY:
            return Exp(code='D6')
        else:
            base = prevv if c.prev == ASSIGNED else (initv if c.hasinit else base0)
            if k in INTS:
                w = INTS[k][0]
                v = T.add(base, T.slice_(W.delta(0), 64, 0, w), w)
            elif k == 'dec':
                if nxt('V') != 'V':
                    return 'bad'
                v = (T.add(base[0], W.mantissa(1), 64), T.add(base[1], W.exponent(0), 16))
            else:
                sgn, cut = W.sub(0)
                blen = atom(ILEN) if base and base[0][0] == 'init' else atom(PLEN) if base else ZERO
                if not ge0(e, st, asub(blen, cut)):
                    return Exp(code='D7')
                if nxt('V') != 'V':
                    return 'bad'
                w1 = W.str(1)
                if base:
                    s = base[0]
                    if sgn == '+':
                        v = [(s[0], ZERO, asub(blen, cut), ())] + w1
                    else:
                        v = w1 + [(s[0], cut, asub(blen, cut), ())]
                else:
                    v = w1
            r = Exp(value=v, prev=v)
    elif op == 'tail':
        b = nxt(0, 1)
        if b in (None, 'bad'):
            return b
        if b == 1:
            v = read()
            if v in (None, 'bad'):
                return v
            if v is not ABSENT:
                base = prevv if c.prev == ASSIGNED else (initv if c.hasinit else base0)
                blen = atom(ILEN) if base and base[0][0] == 'init' else atom(PLEN) if base else ZERO
                rest = asub(blen, total(v))
                if base and ge0(e, st, rest):
                    v = [(base[0][0], ZERO, rest, ())] + v
            r = Exp(value=v, prev=v)
        elif c.prev == UNDEF:
            if c.hasinit:
                r = Exp(value=initv, prev=initv)
            elif c.opt:
                r = Exp(value=ABSENT, prev=ABSENT)
            else:
                r = Exp(code='D6')
        elif c.prev == EMPTY:
            r = Exp(value=ABSENT, prev=ABSENT) if c.opt else Exp(code='D7')
        else:
            r = Exp(value=prevv, prev=prevv)
    if key:
        return 'bad'
    return r


def fval(v):
    if v is ABSENT or isinstance(v, str):
        return str(v)
    if isinstance(v, list):
        return fseg(v)
    if isinstance(v, tuple) and len(v) == 2 and not isinstance(v[0], str):
        return '%se%s' % (T.fmt(v[0]), T.fmt(v[1]))
    return T.fmt(v)


def compare_value(e, st, run, base, want, what):
    """observed slots base.. against want; -> problem or None"""
    k = run.cfg.kind
    if k in INTS:
        w = INTS[k][0]
        got = T.slice_(run.slot(st, base), 64, 0, w)
        got = e.norm(st, got)
        if got != want and e.cmp(st, 'eq', w, got, want) is not True:
            return '%s is %s, expected %s' % (what, T.fmt(got), T.fmt(want))
    elif k == 'dec':
        gm = e.norm(st, run.slot(st, base))
        ge = e.norm(st, T.slice_(run.slot(st, base + 2), 64, 0, 16))
        if not ((gm == want[0] or e.cmp(st, 'eq', 64, gm, want[0]) is True) and
                (ge == want[1] or e.cmp(st, 'eq', 16, ge, want[1]) is True)):
            return '%s is %se%s, expected %se%s' % (what, T.fmt(gm), T.fmt(ge), T.fmt(want[0]), T.fmt(want[1]))
    else:
        segs = str_content(e, st, run.slot(st, base + 1), run.slot(st, base))
        d = None
        for x, y in zip(rewrites(e, st, segs), rewrites(e, st, want)):
            d = same_content(e, st, x, y)
            if not d:
                return None
        if d:
            return what + ' ' + d
    return None


def check_dec_path(e, st, run, out):
    """-> (list of (aspect, text))   aspects: value, prev, error, bits"""
    c = run.cfg
    exp = dec_rule(e, st, run)
    key = st.user.get('key', ())
    kt = ' '.join(map(str, key)) or '-'
    res = []
    code = None
    if out.kind == 'throw':
        code = out.value.get('code') or out.value.get('type')
    if exp in (None, 'bad'):
        if exp is None and out.kind == 'throw':
            # raised before the stream was consumed: every completion must be
            # this error; judged by the caller
            return [('early', code)]
        return [('bits', 'consumes %s from the presence map/stream, which is not the form the operator prescribes' % kt)]
    if exp.code:
        if out.kind != 'throw':
            return [('error', 'stream %s: no error raised, expected %s' % (kt, exp.code))]
        if code != exp.code:
            return [('error', 'stream %s: raises %s, expected %s' % (kt, code, exp.code))]
        return []
    if out.kind == 'throw':
        return [('error', 'stream %s: raises %s, expected value %s' % (kt, code, fval(exp.value)))]
    absent = run.flag(st, 0)
    if exp.value is ABSENT:
        if not absent:
            res.append(('value', 'stream %s: field present, expected absent' % kt))
    else:
        if absent:
            res.append(('value', 'stream %s: field absent, expected %s' % (kt, fval(exp.value))))
        else:
            p = compare_value(e, st, run, 1, exp.value, 'stream %s: field' % kt)
            if p:
                res.append(('value', p))
    check_prev(e, st, run, exp, kt, res)
    return res


def check_prev(e, st, run, exp, kt, res):
    c = run.cfg
    if exp.prev is not ANYPREV:
        d, em = run.flag(st, 4), run.flag(st, 5)
        want = exp.prev
        if want is KEEP:
            want = {UNDEF: 'undef', EMPTY: ABSENT}.get(c.prev)
            if want is None:
                if k_str(c):
                    want = [('prev', ZERO, atom(PLEN), ())]
                else:
                    want = run.prev
        stn = 'undefined' if not d else 'empty' if em else 'assigned'
        if want == 'undef':
            if d:
                res.append(('prev', 'stream %s: previous value becomes %s, expected it to stay undefined' % (kt, stn)))
        elif want is ABSENT:
            if stn != 'empty':
                res.append(('prev', 'stream %s: previous value becomes %s, expected empty' % (kt, stn)))
        elif stn != 'assigned':
            res.append(('prev', 'stream %s: previous value becomes %s, expected assigned %s' % (kt, stn, fval(want))))
        else:
            p = compare_value(e, st, run, 6, want, 'stream %s: previous value' % kt)
            if p:
                res.append(('prev', p))


def k_str(c):
    return c.kind in STRS


def configs(api, kinds, thorough=True):
    for k in kinds:
        for op in ops_for(k):
            for opt in (0, 1):
                for hi in (0, 1):
                    if op == 'constant' and not hi:
                        continue           # static error S4
                    if op == 'default' and not hi and not opt:
                        continue           # static error S5
                    for prev in (UNDEF, EMPTY, ASSIGNED):
                        for shared in ((True,) if api.endswith('1') else (False,)):
                            starts = ['fresh']
                            if k in STRS:
                                starts.append('owned')
                                if prev == ASSIGNED:
                                    starts.append('aliased by the dictionary')
                            for s in starts:
                                yield Cfg(api, k, op, opt, hi, prev, shared, s)


def check_decoder(e, api, kinds):
    """-> dict(results=[(cfg, aspect, text, where)], paths=n, undecided=[...])"""
    res, und, npaths, ncfg = [], [], 0, 0
    mem = []
    for c in configs(api, kinds):
        run = Run(e, c)
        ncfg += 1
        keys = set()
        early = []
        seen_ok = 0
        for out in run.outs:
            npaths += 1
            if out.kind == 'cut':
                und.append((c, 'cut: %s' % (out.value,)))
                continue
            if out.kind == 'trap':
                mem.append((c, 'trap', str(out.value), e.where(out.state) if out.state.frames else ''))
                continue
            for ev in mem_events(out.state):
                mem.append((c, ev[0], ' '.join(map(str, ev[1:-1])) if ev[0] != 'NULLCOPY' else str(ev[2]), ev[-1]))
            try:
                rs = cases(e, out.state, lambda s: check_dec_path(e, s, run, out))
            except (Undecided, AnalysisError, TypeError, KeyError, IndexError, AttributeError, ValueError) as u:
                und.append((c, str(u)))
                continue
            key = out.state.user.get('key', ())
            keys.add(key)
            wh = blame(out.state)
            for r in rs:
                for asp, txt in r:
                    if asp == 'early':
                        early.append((key, txt, wh))
                    else:
                        res.append((c, asp, txt, wh))
                seen_ok += 1
        # errors raised before the stream was fully read
        for key, code, wh in early:
            ok = early_ok(c, key, code)
            if not ok:
                res.append((c, 'error', 'stream %s...: raises %s, not prescribed for this state' % (' '.join(map(str, key)) or '-', code), wh))
        need = required_keys(c)
        for kk in need:
            if not any(x[:len(kk)] == kk for x in keys) and not any(kk[:len(x[0])] == x[0] for x in early):
                res.append((c, 'bits', 'never takes the form %s prescribed by the operator' % (' '.join(map(str, kk)) or '-',), run.fn))
    return dict(results=res, undecided=und, paths=npaths, configs=ncfg, mem=mem)


def early_ok(c, key, code):
    if c.op == 'delta' and c.prev == EMPTY and code == 'D6' and not c.nullable:
        return True
    return False


def required_keys(c):
    """the stream forms every correct implementation distinguishes"""
    v = [('V',)] + ([('N',)] if c.nullable else [])
    if c.op == 'none':
        return v
    if c.op == 'constant':
        return [(0,), (1,)] if c.opt else [()]
    if c.op == 'delta':
        return v
    return [(0,)] + [(1,) + x for x in v]


def blame(st):
    """innermost repository position of the path: last branch taken in /repo"""
    for w, t, v in reversed(st.path):
        if w.startswith('src/') and 'drv.h' not in w:
            return w
    for ev in reversed(st.events):
        if isinstance(ev[-1], str) and ev[-1].startswith('src/'):
            return ev[-1]
    return '?'


# ------------------------------------------------------------------ encoders
class EncRun(object):
    def __init__(self, e, cfg):
        self.e, self.cfg = e, cfg
        c = cfg
        st = self.st0 = e.base_state()
        self.obs = e.new_obj(st, 88, 'zero', 'obs')
        k = c.kind
        const = c.op == 'constant'
        if k in INTS:
            w = INTS[k][0]
            self.init, self.prev = ('S', w, 'init'), ('S', w, 'prev')
            self.fv = self.init if const else ('S', w, 'field')
            vals = [c.hasinit, self.init, c.prev, self.prev, int(c.fabsent), self.fv]
        elif k in STRS:
            ib = e.new_obj(st, None, 'sym', 'init')
            pb = e.new_obj(st, None, 'sym', 'prev')
            fb = e.new_obj(st, None, 'sym', 'field')
            self.pb, self.fb = pb, fb
            fl = FLEN
            if const:
                fb, fl = ib, ILEN
            for x in (ILEN, PLEN, FLEN):
                bounded(st, x)
            self.fv = [('init' if const else 'field', ZERO, atom(fl), ())]
            st.user['extent'] = {ib: z64(ILEN), pb: z64(PLEN), self.fb: z64(FLEN)}
            vals = [c.hasinit, ('P', ib, 0), z64(ILEN), c.prev, ('P', pb, 0), z64(PLEN), int(c.fabsent), ('P', fb, 0), z64(fl)]
        else:
            self.init = (('S', 64, 'init'), ('S', 16, 'inite'))
            self.prev = (('S', 64, 'prev'), ('S', 16, 'preve'))
            self.fv = self.init if const else (('S', 64, 'field'), ('S', 16, 'fielde'))
            vals = [c.hasinit, self.init[0], self.init[1], c.prev, self.prev[0], self.prev[1], int(c.fabsent), self.fv[0], self.fv[1]]
        al = ('P', make_alloc(e, st), 0)
        o = ('P', self.obs, 0)
        ctx = ('P', e.new_obj(st, None, 'sym', 'ctx'), 0)
        if c.api == 'enc1':
            fn = 'vf_enc1_' + k
            args = [OPI[c.op], c.opt] + vals + [ctx, o, al]
        else:
            p = (1 if c.opt else 0) | (2 if c.hasinit else 0) | (4 if c.shared else 0)
            fn = 'vf_enc2_%s_%s_%d' % (k, c.op, p)
            args = vals + [ctx, o, al]
        self.fn = fn
        self.outs = e.run(st, fn, args)

    slot = Run.slot
    flag = Run.flag


def enc_configs(api, kinds):
    for c in configs(api, kinds):
        if c.start != 'fresh':
            continue
        for ab in ((False, True) if c.opt else (False,)):
            yield Cfg(c.api, c.kind, c.op, c.opt, c.hasinit, c.prev, c.shared, 'fresh', ab)


def may_throw(c):
    """states in which FAST leaves the encoder no (or no agreed) form"""
    if c.op == 'delta' and c.prev == EMPTY and not c.fabsent:
        return ('D6',)
    if c.op in ('copy', 'increment') and c.prev == EMPTY and not c.opt:
        return ('D6',)
    return ()


def short_tail(e, st, run):
    """the whole value was sent and is shorter than the base value"""
    c = run.cfg
    if st.user.get('key', ()) != (1, 'V'):
        return False
    blen = atom(PLEN) if c.prev == ASSIGNED else atom(ILEN) if c.hasinit else ZERO
    n = total(run.fv)
    return ge0(e, st, asub(asub(blen, n), (1, {}))) and total_is(e, st, EncWire(e, st, run).str(0), n)


def total_is(e, st, segs, n):
    d = asub(total([x for x in segs if x[0] != 'empty']), n)
    return is0(e, st, d)


def check_enc_path(e, st, run, out):
    """the stream this path emits, put through the decoder rule table, must
    yield the field's value and the dictionary entry the encoder keeps"""
    c = run.cfg
    kt = ' '.join(map(str, st.user.get('key', ()))) or 'nothing'
    if out.kind == 'throw':
        code = out.value.get('code') or out.value.get('type')
        if code in may_throw(c):
            return []
        return [('error', 'raises %s although the value can be encoded' % code)]
    try:
        exp = dec_rule(e, st, run, EncWire(e, st, run))
    except BadWire as b:
        return [('wire', 'emits %s: %s' % (kt, b))]
    if exp in (None, 'bad'):
        return [('wire', 'emits %s, which is not a form of this operator' % kt)]
    if exp.code:
        return [('wire', 'emits %s, which a decoder must reject with %s' % (kt, exp.code))]
    res = []
    want = ABSENT if c.fabsent else run.fv
    if (exp.value is ABSENT) != (want is ABSENT):
        fam = 'wire'
        if want is ABSENT and c.op == 'default' and c.hasinit and st.user.get('key', ()) == (0,):
            fam = 'default-absent'
        return [(fam, 'emits %s, which decodes to %s while the field is %s' % (
            kt, fval(exp.value), 'absent' if want is ABSENT else 'present'))]
    if want is not ABSENT:
        p = None
        if c.kind in INTS:
            w = INTS[c.kind][0]
            g, x, w2 = exp.value, want, w
            if c.op == 'delta' and w == 32:
                # the delta is the exact difference, not one modulo 2^32
                base = run.prev if c.prev == ASSIGNED else run.init if c.hasinit else 0
                ext = T.sext if INTS[c.kind][1] else T.zext
                g = T.add(ext(base, 32, 64), EncWire(e, st, run).delta(0), 64)
                x, w2 = ext(want, 32, 64), 64
            if e.norm(st, g) != e.norm(st, x) and e.cmp(st, 'eq', w2, g, x) is not True:
                p = 'emits %s, which decodes to %s instead of the field value %s' % (kt, T.fmt(g), T.fmt(x))
        elif c.kind == 'dec':
            for g, x, w in zip(exp.value, want, (64, 16)):
                if e.norm(st, g) != e.norm(st, x) and e.cmp(st, 'eq', w, g, x) is not True:
                    p = 'emits %s, which decodes to %s instead of the field value %s' % (kt, fval(exp.value), fval(want))
        else:
            g = [x for x in exp.value if x[0] != 'empty']
            d = None
            for f in rewrites(e, st, g):
                d = same_content(e, st, f, want)
                if not d:
                    break
            if d:
                p = 'emits %s, which decodes to %s' % (kt, d)
        if p:
            if c.op == 'tail' and short_tail(e, st, run):
                return [('tail-short', p)]
            return [('wire', p)]
    if want is not ABSENT and exp.prev is exp.value:
        # shown equal to the field's value just above
        exp.prev = run.fv
    elif isinstance(exp.prev, list):
        exp.prev = [x for x in exp.prev if x[0] != 'empty']
    exp.value = want
    check_prev(e, st, run, exp, kt, res)
    if c.kind in STRS and run.flag(st, 4) and not run.flag(st, 5):
        ptr = e.norm(st, run.slot(st, 7))
        if T.is_ptr(ptr) and ptr[0] == 'P' and ptr[1] == run.fb:
            res.append(('alias', 'the dictionary entry refers to the message\'s own buffer'))
    return res


def check_encoder(e, api, kinds):
    res, und, npaths, ncfg, mem = [], [], 0, 0, []
    obl = 0
    for c in enc_configs(api, kinds):
        run = EncRun(e, c)
        ncfg += 1
        for out in run.outs:
            npaths += 1
            if out.kind == 'cut':
                und.append((c, 'cut: %s' % (out.value,)))
                continue
            if out.kind == 'trap':
                mem.append((c, 'trap', str(out.value), ''))
                continue
            obl += out.state.user.get('range_checks', 0)
            for ev in mem_events(out.state):
                mem.append((c, ev[0], ' '.join(map(str, ev[1:-1])) if ev[0] != 'NULLCOPY' else str(ev[2]), ev[-1]))
            try:
                rs = cases(e, out.state, lambda s: check_enc_path(e, s, run, out))
            except (Undecided, AnalysisError, TypeError, KeyError, IndexError, AttributeError, ValueError) as u:
                und.append((c, str(u)))
                continue
            wh = blame(out.state)
            for r in rs:
                for asp, txt in r:
                    res.append((c, asp, txt, wh))
    return dict(results=res, undecided=und, paths=npaths, configs=ncfg, mem=mem, ranges=obl)
