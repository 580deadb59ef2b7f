"""Wire layer: the transfer encodings of integers, strings and presence maps.

The functions are interpreted in the same abstract domain as the operators;
integer values are represented by value classes (position of the most
significant bit known, the bits below it unknown), so every bit of the output
carries its provenance and every branch is decided or partitioned.
"""
from . import terms as T
from .engine import State, Outcome, AnalysisError, Engine
from .fast import FastEngine, affine, p_std_copy

WIDTH = {'i16': 16, 'i32': 32, 'u32': 32, 'i64': 64, 'u64': 64}


class StreamEngine(FastEngine):
    """everything below the operators is interpreted, nothing is summarised"""
    SOFT = True
    DROP = ('fast_istream::decode', 'is_next_bit_set', 'set_next_bit', 'fast_ostream::encode', 'encode_null')

    def __init__(self, prog):
        FastEngine.__init__(self, prog)
        self.prims = [(rx, fn) for rx, fn in self.prims if not any(d in rx.pattern for d in self.DROP)]
        self.pcache.clear()
        self.loopcut = 40

    def buf(self, st, size, tag, default='undef'):
        oid = self.new_obj(st, size, default, tag)
        return oid

    def call(self, st, name, args, tag=''):
        return self.run(st, name, args)


def setbytes(st, e, oid, vals):
    o = st.wobj(oid)
    for i, v in enumerate(vals):
        o.cells[i] = (1, v)


def getbytes(e, st, oid, n, start=0):
    return [e.norm(st, e.load_cells(st, oid, start + i, 1)) for i in range(n)]


def sym(name, w):
    return ('S', w, name)


def bits_of(v, w):
    """list of bits, least significant first: 0, 1 or (atom, index)"""
    out = []
    for n, a, lo in T.parts(v, w):
        for i in range(n):
            if isinstance(a, int):
                out.append(a >> i & 1)
            elif a[0] == 'T' and a[2] == 'not':
                out.append(('~',) + ((a[3], lo + i) if not isinstance(bits_of1(a[3], lo + i), int) else (bits_of1(a[3], lo + i), 0)))
            else:
                out.append((a, lo + i))
    return out


def bits_of1(v, i):
    return bits_of(v, T.width(v))[i]


def concat(bits):
    """bits, least significant first -> term"""
    return T.mk([(1, b, 0) if isinstance(b, int) else (1, b[0], b[1]) for b in bits])


# ------------------------------------------------------------------ integers
def classes(signed, w, nullable):
    """partition of the transmitted numbers W (W = value + 1 for nullable
    non-negative values): (name, bit list of W with sign bit on top, value term)"""
    out = []
    off = 1 if nullable else 0

    def val(bits, sub):
        t = concat((bits + [bits[-1]] * w)[:w])
        return T.sub(t, 1, w) if sub else t
    top = w - 1 if signed else w          # W = 2^top only for nullable max
    if not nullable:
        out.append(('0', [0, 0], 0))
    for k in range(top):
        a = sym('x', max(k, 1))
        bits = [(a, i) for i in range(k)] + [1, 0]
        out.append(('[2^%d,2^%d)' % (k, k + 1), bits, val(bits, nullable)))
    if nullable:
        out.append(('max', [0] * top + [1, 0], T.mask(top)))
    if signed:
        out.append(('-1', [1, 1], T.mask(w)))
        for k in range(w - 1):
            a = sym('x', max(k, 1))
            bits = [(a, i) for i in range(k)] + [0, 1]
            out.append(('[-2^%d,-2^%d)' % (k + 1, k), bits, val(bits, False)))
    return out


def wire_bytes(bits, signed, extra=0):
    """the canonical stop-bit encoding of W, `extra` redundant groups in front"""
    b = list(bits)
    sign = b[-1] if signed else 0
    n = len(b) if signed else max(1, len(b) - 1)
    groups = max(1, -(-n // 7)) + extra
    b = (b + [sign] * (7 * groups))[:7 * groups]
    out = []
    for g in range(groups - 1, -1, -1):
        out.append(concat(b[7 * g:7 * g + 7] + [1 if g == 0 else 0]))
    return out


def bad_events(st):
    return [x for x in st.events if x[0] in ('OOB', 'NULLDEREF', 'UAF', 'DOUBLEFREE', 'RANGE')]


def int_variants(typ, encode):
    d = 'enc' if encode else 'dec'
    return [('vf_%s_%s' % (d, typ), False, True), ('vf_%s_%s' % (d, typ), True, True),
            ('vf_%sN_%s' % (d, typ), True, False), ('vf_%sM_%s' % (d, typ), False, False)]


def where_fn(e, name):
    for n, f in e.prog['functions'].items():
        if not f['decl'] and name in f['dem']:
            from .engine import short
            return '%s:%s' % (short(f.get('file', '?')), f.get('line', '?'))
    return name


def check_integers(e, r):
    wh_e, wh_d = where_fn(e, 'fast_ostream::encode<'), where_fn(e, 'fast_istream::decode<')
    for typ, w in WIDTH.items():
        signed = typ[0] == 'i'
        for fn, nullable, rt in int_variants(typ, True):
            cl = classes(signed, w, nullable)
            if typ == 'i16':
                cl = [c for c in cl if c[0] != 'max']
            if nullable:
                st = e.base_state()
                b = e.buf(st, 32, 'out')
                a = [('P', b, 0), 32, sym('v', w), 1] + ([1] if rt else [])
                for o in e.run(st, fn, a):
                    one(e, r, o, '%s NULL' % fn, b, [0x80], wh_e)
            for name, bits, v in cl:
                st = e.base_state()
                b = e.buf(st, 32, 'out')
                a = [('P', b, 0), 32, v, 0] + ([int(nullable)] if rt else [])
                exp = wire_bytes(bits, signed)
                outs = e.run(st, fn, a)
                for o in outs:
                    one(e, r, o, '%s%s value %s' % (fn, ' nullable' if nullable else '', name), b, exp, wh_e)
        for fn, nullable, rt in int_variants(typ, False):
            cl = classes(signed, w, nullable)
            if typ == 'i16':
                cl = [c for c in cl if c[0] != 'max']
            if nullable:
                dec_one(e, r, fn, rt, True, [0x80], w, None, 'NULL', wh_d)
            for name, bits, v in cl:
                full = len(wire_bytes([0] * w if signed else [0] * (w + 1), signed))
                for extra in (0, 1):
                    by = wire_bytes(bits, signed, extra)
                    if extra and len(by) > full:
                        continue
                    dec_one(e, r, fn, rt, nullable, by, w, v, '%s%s' % (name, ' overlong' if extra else ''), wh_d)


def one(e, r, o, key, b, exp, wh):
    if o.kind == 'cut':
        r.undecided(key)
        return
    wh2 = wh
    if o.kind != 'ret':
        r.violation(key, 'ends with %s' % o.kind, wh2)
        return
    bad = bad_events(o.state)
    if bad:
        r.violation(key, str(bad[0]), bad[0][-1])
        return
    n = o.value
    if not isinstance(n, int):
        r.undecided('%s: length %s' % (key, T.fmt(n)))
        return
    got = getbytes(e, o.state, b, min(n, 32))
    want = [e.norm(o.state, x) for x in exp]
    if got != want:
        if any(not isinstance(g, int) and g[0] in ('T', 'L') for g in got):
            r.undecided('%s: %s' % (key, ' '.join(T.fmt(g) for g in got)[:200]))
            return
        r.violation(key, 'writes %s, the transfer encoding is %s' % (
            ' '.join(T.fmt(x) for x in got), ' '.join(T.fmt(x) for x in want)), wh2)
    else:
        r.ok()


def dec_one(e, r, fn, rt, nullable, by, w, v, name, wh):
    key = '%s%s %s' % (fn, ' nullable' if nullable else '', name)
    st = e.base_state()
    b = e.buf(st, len(by), 'in')
    setbytes(st, e, b, by)
    res = e.buf(st, 8, 'res')
    cur = e.buf(st, 8, 'cur')
    outs = e.run(st, fn, [('P', b, 0), len(by), ('P', res, 0), ('P', cur, 0)] + ([int(nullable)] if rt else []))
    for o in outs:
        if o.kind == 'cut':
            r.undecided(key)
            continue
        if o.kind != 'ret':
            r.violation(key, 'ends with %s' % o.kind, wh)
            continue
        bad = bad_events(o.state)
        if bad:
            r.violation(key, str(bad[0]), bad[0][-1])
            continue
        c = e.norm(o.state, e.load(o.state, ('P', cur, 0), 8, 64))
        rv = e.decide(o.state, o.value if isinstance(o.value, int) else T.slice_(o.value, T.width(o.value), 0, 1))
        if c != ('P', b, len(by)):
            r.violation(key, 'does not consume exactly the %d bytes of the field' % len(by), wh)
        elif rv is None:
            r.undecided('%s: result flag' % key)
        elif rv != (v is not None):
            r.violation(key, 'reports %s' % ('a value for NULL' if rv else 'NULL for a value'), wh)
        elif v is None:
            r.ok()
        else:
            g = e.norm(o.state, e.load(o.state, ('P', res, 0), w // 8, w))
            if g == e.norm(o.state, v):
                r.ok()
            elif not isinstance(g, int) and g[0] == 'T':
                r.undecided('%s: %s' % (key, T.fmt(g)))
            else:
                r.violation(key, 'decodes to %s, the value is %s' % (T.fmt(g), T.fmt(v)), wh)


# ------------------------------------------------------------------- strings
def check_strings(e, r, lengths):
    wh_e, wh_d = where_fn(e, 'fast_ostream::encode<'), where_fn(e, 'fast_istream::decode<')
    for kind in ('ascii', 'unicode', 'bytes'):
        for nullable in (0, 1):
            cases = [('NULL', None)] if nullable else []
            for n in lengths:
                cases.append(('length %d' % n, [T.zext(sym('c%d' % i, 7), 7, 8) if kind == 'ascii' else sym('c%d' % i, 8)
                                                for i in range(n)]))
            cases.append(('"\\0"', [0]))
            for name, content in cases:
                key = '%s%s %s' % (kind, ' nullable' if nullable else '', name)
                if content is None:
                    wire = [0x80]
                elif kind == 'ascii':
                    if content == []:
                        wire = [0, 0x80] if nullable else [0x80]
                    elif content == [0]:
                        wire = [0, 0, 0x80] if nullable else [0, 0x80]
                    else:
                        wire = content[:-1] + [concat(bits_of(content[-1], 8)[:7] + [1])]
                else:
                    n = len(content) + nullable
                    wire = wire_bytes([n >> i & 1 for i in range(n.bit_length())] + [0], False) + list(content)

                def nonzero(st):
                    if kind == 'ascii' and content:
                        for c in content:
                            if not isinstance(c, int) and not e.assume_cmp(st, 'ne', 8, c, 0):
                                raise AnalysisError('assume')
                # encode
                st = e.base_state()
                nonzero(st)
                b = e.buf(st, 512, 'out')
                if content is None:
                    d, n = 0, 0
                else:
                    src = e.buf(st, len(content), 'text')
                    setbytes(st, e, src, content)
                    d, n = ('P', src, 0), len(content)
                for o in e.run(st, 'vf_enc_' + kind, [('P', b, 0), 512, d, n, nullable]):
                    if o.kind == 'ret' and isinstance(o.value, int):
                        bad = bad_events(o.state)
                        got = getbytes(e, o.state, b, min(o.value, 512))
                        if bad:
                            r.violation('encode ' + key, str(bad[0]), bad[0][-1])
                        elif got != [e.norm(o.state, x) for x in wire]:
                            r.violation('encode ' + key, 'writes %s, the transfer encoding is %s' % (
                                ' '.join(T.fmt(x) for x in got)[:200], ' '.join(T.fmt(x) for x in wire)[:200]), wh_e)
                        else:
                            r.ok()
                    elif o.kind == 'ret' or o.kind == 'cut':
                        r.undecided('encode ' + key)
                    else:
                        r.violation('encode ' + key, 'ends with %s' % o.kind, wh_e)
                # decode
                st = e.base_state()
                nonzero(st)
                b = e.buf(st, len(wire), 'in')
                setbytes(st, e, b, wire)
                out, ln, cur = (e.buf(st, 8, x) for x in ('ptr', 'len', 'cur'))
                for o in e.run(st, 'vf_dec_' + kind, [('P', b, 0), len(wire), ('P', out, 0), ('P', ln, 0), ('P', cur, 0), nullable]):
                    k = 'decode ' + key
                    if o.kind == 'cut':
                        r.undecided(k)
                        continue
                    if o.kind != 'ret':
                        r.violation(k, 'ends with %s' % o.kind, wh_d)
                        continue
                    bad = bad_events(o.state)
                    s = o.state
                    rv = e.decide(s, o.value if isinstance(o.value, int) else T.slice_(o.value, T.width(o.value), 0, 1))
                    c = e.norm(s, e.load(s, ('P', cur, 0), 8, 64))
                    if bad:
                        r.violation(k, str(bad[0]), bad[0][-1])
                    elif rv is None:
                        r.undecided(k + ': result flag')
                    elif rv != (content is not None):
                        r.violation(k, 'reports %s' % ('a value for NULL' if rv else 'NULL for a value'), wh_d)
                    elif c != ('P', b, len(wire)):
                        r.violation(k, 'does not consume exactly the %d bytes of the field' % len(wire), wh_d)
                    elif content is None:
                        r.ok()
                    else:
                        g = e.norm(s, e.load(s, ('P', ln, 0), 4, 32))
                        pp = e.norm(s, e.load(s, ('P', out, 0), 8, 64))
                        if g != len(content):
                            r.violation(k, 'yields length %s instead of %d' % (T.fmt(g), len(content)), wh_d)
                        elif content:
                            got = None
                            if isinstance(pp, tuple) and pp[0] == 'P' and isinstance(pp[2], int) and pp[1] == b and \
                                    pp[2] >= 0 and pp[2] + len(content) <= len(wire):
                                got = getbytes(e, s, b, len(content), pp[2])
                                if kind == 'ascii':
                                    got[-1] = concat(bits_of(got[-1], 8)[:7] + [0])
                            if got != [e.norm(s, x) for x in content]:
                                r.violation(k, 'yields other characters than were transmitted', wh_d)
                            else:
                                r.ok()
                        else:
                            r.ok()


# ------------------------------------------------------------ presence maps
def merge_bit(e, s0, s1, v):
    """join of the states after v=0 and v=1: differing bits become v (or ~v)"""
    if set(s0.mem) != set(s1.mem):
        return None
    for oid in s0.mem:
        a, b = s0.mem[oid], s1.mem[oid]
        if a is b or (a.cells == b.cells and a.log == b.log):
            continue
        if a.log != b.log or set(a.cells) != set(b.cells):
            keys = sorted(set(a.cells) | set(b.cells))
            return None
        for k in list(a.cells):
            ca, cb = a.cells[k], b.cells[k]
            if ca == cb:
                continue
            if ca[0] != cb[0]:
                return None
            w = ca[0] * 8
            if T.is_ptr(ca[1]) or T.is_ptr(cb[1]):
                return None
            ba, bb = bits_of(ca[1], w), bits_of(cb[1], w)
            out = []
            for x, y in zip(ba, bb):
                if x == y:
                    out.append(x)
                elif x == 0 and y == 1:
                    out.append((v, 0))
                else:
                    return None
            s0.wobj(oid).cells[k] = (ca[0], concat(out))
    return s0


def single(e, outs, what):
    rets = [o for o in outs if o.kind == 'ret']
    if len(outs) == 1 and rets:
        return rets[0]
    return None


def check_pmap_write(e, r, sizes):
    wh = where_fn(e, 'encoder_presence_map::set_next_bit')
    for n in sizes:
        for before in (0, 3):
            key = 'write %d bits after %d bytes' % (n, before)
            st = e.base_state()
            w = e.buf(st, 4096, 'wr')
            b = e.buf(st, 512, 'out')
            pre = [sym('p%d' % i, 8) for i in range(before)]
            setbytes(st, e, b, pre)
            o = single(e, e.run(st, 'vf_wr_open', [('P', w, 0), ('P', b, 0), 512, 1, before, n]), key)
            if o is None:
                r.undecided(key + ': open')
                continue
            st = o.state
            data = e.buf(st, 2, 'data')
            setbytes(st, e, data, [sym('d0', 8), sym('d1', 8)])
            bad = None
            for i in range(n):
                v = sym('b%d' % i, 1)
                s1 = st.fork()
                o0 = single(e, e.run(st, 'vf_wr_bit', [('P', w, 0), 0]), key)
                o1 = single(e, e.run(s1, 'vf_wr_bit', [('P', w, 0), 1]), key)
                if o0 is None or o1 is None:
                    bad = 'bit %d' % i
                    break
                ev = bad_events(o0.state) + bad_events(o1.state)
                if ev:
                    r.violation(key, str(ev[0]), ev[0][-1])
                    bad = ''
                    break
                st = merge_bit(e, o0.state, o1.state, v)
                if st is None:
                    bad = 'join after bit %d' % i
                    break
                if i == 0:
                    o = single(e, e.run(st, 'vf_wr_data', [('P', w, 0), ('P', data, 0), 2]), key)
                    if o is None:
                        bad = 'data'
                        break
                    st = o.state
            if bad is not None:
                if bad:
                    r.undecided(key + ': ' + bad)
                continue
            o = single(e, e.run(st, 'vf_wr_commit', [('P', w, 0)]), key)
            o = o and single(e, e.run(o.state, 'vf_wr_len', [('P', w, 0)]), key)
            if o is None or not isinstance(o.value, int):
                r.undecided(key + ': commit')
                continue
            ev = bad_events(o.state)
            if ev:
                r.violation(key, str(ev[0]), ev[0][-1])
                continue
            got = getbytes(e, o.state, b, min(o.value, 512))
            nb = -(-n // 7)
            want = list(pre)
            for j in range(nb):
                bits = [(sym('b%d' % (7 * j + 6 - k), 1), 0) if 7 * j + 6 - k < n else 0 for k in range(7)]
                want.append(concat(bits + [1 if j == nb - 1 else 0]))
            want += [sym('d0', 8), sym('d1', 8)]
            want = [e.norm(o.state, x) for x in want]
            if got == want:
                r.ok()
            else:
                i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
                r.violation(key, 'byte %d is %s, must be %s (%d bytes, must be %d)' % (
                    i, T.fmt(got[i]) if i < len(got) else 'missing', T.fmt(want[i]) if i < len(want) else 'absent',
                    len(got), len(want)), wh)


def check_pmap_read(e, r, sizes):
    wh = where_fn(e, 'decoder_presence_map::is_next_bit_set')
    for nb in sizes:
        key = 'read %d bytes' % nb
        st = e.base_state()
        b = e.buf(st, nb, 'in')
        setbytes(st, e, b, [concat([(sym('g%d' % j, 7), k) for k in range(7)] + [1 if j == nb - 1 else 0]) for j in range(nb)])
        w = e.buf(st, 4096, 'rd')
        o = single(e, e.run(st, 'vf_rd_open', [('P', w, 0), ('P', b, 0), nb]), key)
        if o is None:
            r.undecided(key + ': open')
            continue
        ev = bad_events(o.state)
        if ev:
            r.violation(key, str(ev[0]), ev[0][-1])
            continue
        o = single(e, e.run(o.state, 'vf_rd_cur', [('P', w, 0)]), key)
        if o is None or e.norm(o.state, o.value) != ('P', b, nb):
            r.violation(key, 'the cursor is not behind the stop bit of the presence map', wh)
            continue
        ends = [pmap_answers(e, r, key, o.state.fork(), w, nb, wh, pick) for pick in (0, -1)]
        if all(x is not False for x in ends) and any(ends):
            r.ok()


def pmap_answers(e, r, key, st, w, nb, wh, pick):
    """query every bit of the map and some beyond it; code that branches on the
    bit is followed along one of its answers. None: nothing branched"""
    forked = False
    for i in range(7 * nb + 9):
        outs = e.run(st, 'vf_rd_bit', [('P', w, 0)])
        want = (sym('g%d' % (i // 7), 7), 6 - i % 7) if i < 7 * nb else 0
        forked = forked or len(outs) > 1
        for o in outs:
            if o.kind != 'ret':
                r.undecided(key + ': bit %d' % i)
                return False
            ev = bad_events(o.state)
            if ev:
                r.violation(key, str(ev[0]), ev[0][-1])
                return False
            v = e.norm(o.state, o.value)
            got = onebit(v)
            if got is None:
                r.undecided('%s: bit %d is %s' % (key, i, T.fmt(v)))
                return False
            exp = want
            if got in (0, 1) and want != 0:
                x = e.norm(o.state, T.slice_(want[0], 7, want[1], 1))
                d = x if isinstance(x, int) else e.decide(o.state, x)
                exp = int(d) if d is not None else want
            if got != exp:
                r.violation(key, 'query %d answers bit %s, must be %s' % (i, got, exp), wh)
                return False
        st = outs[pick].state
    return None if pick and not forked else True


def onebit(v):
    """the single unknown bit a boolean term stands for, 0 or 1"""
    if isinstance(v, int):
        return v & 1
    w = T.width(v)
    if v[0] == 'C' and v[2] == 'ne' and v[5] == 0 or v[0] == 'B' and w == 1:
        x = v[4] if v[0] == 'C' else v
        nz = [b for b in bits_of(x, v[3] if v[0] == 'C' else 1) if b != 0]
        if len(nz) == 1:
            if isinstance(nz[0], tuple) and isinstance(nz[0][0], tuple) and nz[0][0][0] == 'C':
                return onebit(nz[0][0])
            return nz[0]
        return None
    if v[0] == 'B':
        b = bits_of(v, w)
        if all(x == 0 for x in b[1:]):
            if isinstance(b[0], tuple) and b[0][0][0] == 'C':
                return onebit(b[0][0])
            return b[0]
        return None
    if v[0] == 'S' and w == 1:
        return (v, 0)
    return None


# ---------------------------------------------------------------- confinement
def outcome_ok(e, r, key, o, b, n, wh, throw_ok=True):
    """one path of a reader over a window of n unknown bytes"""
    if o.kind == 'cut':
        r.undecided(key)
        return False
    bad = bad_events(o.state)
    if bad:
        r.violation(key, '%s outside the %d bytes given (%s)' % (bad[0][1], n, bad[0][0]), bad[0][-1])
        return False
    if o.kind == 'throw' and throw_ok:
        r.ok()
        return False
    if o.kind != 'ret':
        r.violation(key, 'ends with %s' % o.kind, wh)
        return False
    return True


def inside(e, st, p, b, lo, hi):
    """is pointer p within [b+lo, b+hi]: True/False/None"""
    p = e.norm(st, p)
    if not (isinstance(p, tuple) and p[0] == 'P' and p[1] == b):
        return False
    a = affine(e, st, p[2])
    if a is None:
        return None
    if e.alo(st, a) >= lo and e.ahi(st, a) <= hi:
        return True
    return False


def check_input(e, r, sizes):
    wh = where_fn(e, 'fast_istream::decode<')
    for n in sizes:
        for typ, w in WIDTH.items():
            for fn, nullable, rt in int_variants(typ, False):
                key = '%s%s' % (fn, ' nullable' if nullable else '')
                st = e.base_state()
                b = e.buf(st, n, 'in', 'sym')
                res, cur = e.buf(st, 8, 'res'), e.buf(st, 8, 'cur')
                for o in e.run(st, fn, [('P', b, 0), n, ('P', res, 0), ('P', cur, 0)] + ([int(nullable)] if rt else [])):
                    if outcome_ok(e, r, key, o, b, n, wh):
                        cursor(e, r, key, o.state, cur, b, n, wh)
        for kind in ('ascii', 'unicode', 'bytes'):
            for nullable in (0, 1):
                key = 'vf_dec_%s%s' % (kind, ' nullable' if nullable else '')
                st = e.base_state()
                b = e.buf(st, n, 'in', 'sym')
                out, ln, cur = (e.buf(st, 8, x) for x in ('ptr', 'len', 'cur'))
                for o in e.run(st, 'vf_dec_' + kind, [('P', b, 0), n, ('P', out, 0), ('P', ln, 0), ('P', cur, 0), nullable]):
                    if not outcome_ok(e, r, key, o, b, n, wh) or not cursor(e, r, key, o.state, cur, b, n, wh):
                        continue
                    s = o.state
                    rv = e.decide(s, o.value if isinstance(o.value, int) else T.slice_(o.value, T.width(o.value), 0, 1))
                    if rv is False:
                        continue
                    g = e.norm(s, e.load(s, ('P', ln, 0), 4, 32))
                    pp = e.norm(s, e.load(s, ('P', out, 0), 8, 64))
                    if isinstance(g, int) and g == 0:
                        continue
                    a, l = inside(e, s, pp, b, 0, n), inside(e, s, e.padd(pp, T.zext(g, 32, 64)), b, 0, n)
                    if a is None or l is None:
                        r.undecided(key + ': extent')
                    elif not (a and l):
                        r.violation(key, 'the string handed out reaches beyond the %d bytes of the message' % n, wh)
                    else:
                        r.ok()
        # presence maps, with the queries that reload it
        key = 'presence map'
        st = e.base_state()
        b = e.buf(st, n, 'in', 'sym')
        w = e.buf(st, 4096, 'rd')
        wp = where_fn(e, 'decoder_presence_map::is_next_bit_set')
        for o in e.run(st, 'vf_rd_open', [('P', w, 0), ('P', b, 0), n]):
            if not outcome_ok(e, r, key, o, b, n, wp):
                continue
            oc = e.run(o.state, 'vf_rd_cur', [('P', w, 0)])
            if len(oc) != 1 or oc[0].kind != 'ret':
                r.undecided(key)
                continue
            if inside(e, oc[0].state, oc[0].value, b, 0, n) is not True:
                r.violation(key, 'the cursor leaves the %d bytes of the message' % n, wp)
                continue
            st2 = oc[0].state
            good = True
            for i in range(7 * n + 10):
                # the answer does not influence later queries: a single path suffices
                o2 = e.run(st2, 'vf_rd_bit', [('P', w, 0)])
                fin = [x for x in o2 if outcome_ok(e, r, key + ' query', x, b, n, wp, False)]
                if len(fin) != 1:
                    good = False
                    break
                st2 = fin[0].state
            if good:
                r.ok()


def cursor(e, r, key, st, cur, b, n, wh):
    c = inside(e, st, e.load(st, ('P', cur, 0), 8, 64), b, 0, n)
    if c is None:
        r.undecided(key + ': cursor')
        return False
    if not c:
        r.violation(key, 'the cursor can leave the %d bytes of the message' % n, wh)
        return False
    r.ok()
    return True


def check_output(e, r):
    wh = where_fn(e, 'fast_ostreambuf::sputn')
    for cap in (0, 1, 2, 3, 8, 16):
        for before in range(0, min(cap, 4)):
            for name, extra in (('vf_ob_putc', [sym('c', 8)]),) + tuple(('vf_ob_putn', n) for n in (0, 1, 2, 9, None)):
                key = '%s' % name
                st = e.base_state()
                b = e.buf(st, cap, 'out')
                args = [('P', b, 0), cap, before]
                if name == 'vf_ob_putc':
                    args += extra
                    n = 1
                else:
                    n = extra if extra is not None else sym('n', 64)
                    if extra is None:
                        st.iv[n] = (0, 1 << 31, 0, 1 << 31)
                    src = e.buf(st, n if isinstance(n, int) else None, 'src', 'sym')
                    args += [('P', src, 0), n]
                st.user['extent'] = {b: cap}
                for o in e.run(st, name, args):
                    if o.kind == 'cut':
                        r.undecided(key)
                        continue
                    bad = bad_events(o.state)
                    if bad:
                        r.violation(key, '%s beyond the buffer of %d bytes' % (bad[0][1], cap), bad[0][-1])
                        continue
                    if o.kind == 'throw':
                        r.ok()
                        continue
                    if o.kind != 'ret':
                        r.violation(key, 'ends with %s' % o.kind, wh)
                        continue
                    a = affine(e, o.state, o.value)
                    if a is None:
                        r.undecided(key)
                    elif e.ahi(o.state, a) > cap or e.alo(o.state, a) < 0:
                        r.violation(key, 'claims more bytes than the buffer of %d bytes holds' % cap, wh)
                    else:
                        d = e._asub(a, affine(e, o.state, T.zext(n, T.width(n), 64) if not isinstance(n, int) else n))
                        if e.alo(o.state, d) == before and e.ahi(o.state, d) == before:
                            r.ok()
                        else:
                            r.violation(key, 'the length does not grow by the bytes written', wh)


def check_shrink(e, r):
    """overlong presence maps disallowed: trailing zero bytes of the map go,
    everything before and after it stays"""
    wh = where_fn(e, 'fast_ostreambuf::write_bytes_at')
    for n in (1, 7, 8, 15, 21, 56, 57, 64):
        for before in (0, 1, 2):
            # significant = index of the last byte with a set bit (-1: none)
            nb = -(-n // 7)
            for sig, fill in [(x, f) for x in range(-1, nb) for f in (1, 0) if f or x > 0]:
                key = 'map of %d bits, %s, %d bytes before' % (
                    n, 'all clear' if sig < 0 else '%s set bit in byte %d' % ('last' if fill else 'only', sig), before)
                st = e.base_state()
                b = e.buf(st, 512, 'arena')
                # the message buffer starts inside a larger allocation: what precedes it must stay as well
                pre = [sym('p%d' % i, 8) for i in range(4)]
                setbytes(st, e, b, pre)
                w = e.buf(st, 4096, 'wr')
                o = single(e, e.run(st, 'vf_wr_open', [('P', w, 0), ('P', b, 4 - before), 256, 0, before, n]), key)
                if o is None:
                    r.undecided(key)
                    continue
                data = e.buf(o.state, 2, 'data')
                setbytes(o.state, e, data, [sym('d0', 8), sym('d1', 8)])
                bits = [fill if i // 7 < sig else (1 if i // 7 == sig and (i % 7 == 0) else 0) for i in range(n)]
                for i, v in enumerate(bits):
                    o = o and single(e, e.run(o.state, 'vf_wr_bit', [('P', w, 0), v]), key)
                    if i == 0:
                        o = o and single(e, e.run(o.state, 'vf_wr_data', [('P', w, 0), ('P', data, 0), 2]), key)
                if o is None:
                    r.undecided(key)
                    continue
                keep = max(1, sig + 1)
                wire = []
                for j in range(keep):
                    wire.append(sum(bits[7 * j + k] << (6 - k) for k in range(7) if 7 * j + k < n) | (0x80 if j == keep - 1 else 0))
                for oc in e.run(o.state, 'vf_wr_commit', [('P', w, 0)]):
                    if oc.kind == 'cut':
                        r.undecided(key)
                        continue
                    if oc.kind != 'ret':
                        r.violation(key, 'ends with %s' % oc.kind, wh)
                        continue
                    bad = bad_events(oc.state)
                    if bad:
                        r.violation(key, '%s outside the buffer' % bad[0][1], bad[0][-1])
                        continue
                    ol = single(e, e.run(oc.state, 'vf_wr_len', [('P', w, 0)]), key)
                    if ol is None or not isinstance(ol.value, int):
                        r.undecided(key)
                        continue
                    tot = 4 - before + ol.value
                    got = getbytes(e, ol.state, b, min(tot, 500))
                    want = [e.norm(ol.state, x) for x in pre + wire + [sym('d0', 8), sym('d1', 8)]]
                    if got != want:
                        i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
                        r.violation(key, 'byte %d relative to the map is %s, must be %s (%d bytes, must be %d)' % (
                            i - 4, T.fmt(got[i]) if i < len(got) else 'missing', T.fmt(want[i]) if i < len(want) else 'absent',
                            len(got) - 4, len(want) - 4), wh)
                    else:
                        r.ok()
