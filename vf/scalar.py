"""Numeric fields against the plain values they stand for: every operation of their interface, on values that are symbols
where no decision depends on them and on every kind of limit where one does."""
from .engine import AnalysisError, ended
from .agg import AggEngine, Case, Bad, Open, one, settle, bare
from .walk import Result

KINDS = ('i32', 'u32', 'i64', 'u64', 'enm', 'dec', 'par', 'xpo', 'man')
TEXT = dict(i32='int32', u32='uInt32', i64='int64', u64='uInt64', enm='enum', dec='decimal', par='decimal with operators of its parts',
            xpo='exponent', man='mantissa')
WIDTH = dict(i32=32, u32=32, i64=64, u64=64, enm=64, man=64)
M64 = (1 << 64) - 1
UNDEF = object()


class ScalarEngine(AggEngine):
    def __init__(self, prog):
        AggEngine.__init__(self, prog)
        self.prim(r'^mfast::incompatible_type_conversion_error::(~)?incompatible_type_conversion_error\(', lambda e, st, ins, a, d: None)
        self.prim(r'^llvm\.is\.constant', lambda e, st, ins, a, d: 0)


class W(object):
    def __init__(self, e):
        self.e = e
        self.st0 = e.base_state()

    def room(self, st, n, tag):
        return ('P', self.e.new_obj(st, n, 'undef', tag), 0)

    def emits(self, st, fn, args):
        st.user['emit'] = ()
        st, v = one(self.e, st, fn, args)
        return st, list(st.user['emit']), v


def sx(v, w):
    """v of w bits, as 64 bits"""
    return (v | (M64 ^ ((1 << w) - 1))) if v >> (w - 1) & 1 else v


class Spec(object):
    """an instruction: what a field of it is at first and what its initial value is"""
    def __init__(self, k, opt, has, v, x):
        self.k, self.opt, self.v, self.x = k, opt, v, x
        self.declared = opt
        if k == 'man':
            self.opt = 0          # the presence is the decimal's
        self.has = has
        parted = k in ('par', 'xpo', 'man')
        self.const = parted and bool(has & 2)
        # the presence of the initial values of the parts
        self.hasx = bool(has & 5) if parted else bool(has)
        self.hasm = bool(has & 1) if parted else bool(has)

    def __repr__(self):
        return '%s %s%s' % ('optional' if self.declared else 'mandatory', TEXT[self.k],
                            ' with initial value' if self.has else '')

    def initial(self):
        """(mantissa or value, exponent) or None, as the kind reports it"""
        k = self.k
        if k == 'man':
            return (self.v, None) if self.hasm else None
        if k == 'xpo':
            return (None, self.x) if self.hasx else None
        if k in ('dec', 'par'):
            return (self.v if self.hasm or k == 'dec' else 0, self.x) if self.hasx else None
        return (self.v, None) if self.has else None


class T(object):
    def __init__(self, e, name):
        self.e = e
        self.w = W(e)
        self.res = Result(name)
        self.res.und, self.res.bad, self.res.unknown = {}, {}, []

    def make(self, st, sp):
        i = self.w.room(st, 1024, 'instruction')
        for o in range(0, 1024, 8):
            self.e.store(st, 0, self.e.padd(i, o), 8, 64)
        st, _ = one(self.e, st, 'vf_%s_make' % sp.k, [i, sp.declared, sp.has, sp.v, sp.x])
        return st, i

    def field(self, st, sp, i, tag='field'):
        s = self.w.room(st, 16, tag)
        st, _ = one(self.e, st, 'vf_%s_construct' % sp.k, [i, s])
        return st, s

    def call(self, st, sp, op, args):
        return one(self.e, st, 'vf_%s_%s' % (sp.k, op), args)

    def see(self, st, sp, i, s, fn='show'):
        st, x, _ = self.w.emits(st, 'vf_%s_%s' % (sp.k, fn), [i, s])
        return st, x

    def shape(self, sp, val):
        """what show emits after the state, for a (value, exponent)"""
        if sp.k in ('dec', 'par'):
            return [val[0], val[1] & 0xffff if isinstance(val[1], int) else val[1]]
        if sp.k == 'xpo':
            return [val[1] & 0xffff if isinstance(val[1], int) else val[1]]
        return [val[0]]

    def expect(self, st, sp, i, s, val, init, when):
        """val: None when absent; init: is it the initial value (None: not asked)"""
        for fn in ('show', 'mshow'):
            s2, x = self.see(st.fork(), sp, i, s, fn)
            evs = [z for z in s2.events if z[0] in ('NULLDEREF', 'UAF', 'OOB', 'DOUBLEFREE', 'RANGE')]
            if evs:
                raise Bad('%s: %s' % (when, evs[0][0]))
            if not isinstance(x[0], int):
                raise Open('the state is undetermined')
            ab, pr, op, ini = [x[0] >> k & 1 for k in range(4)]
            if op != (1 if sp.opt else 0):
                raise Bad('%s it says it is %soptional' % (when, '' if op else 'not '))
            if (ab, pr) != ((1, 0) if val is None else (0, 1)):
                raise Bad('%s it is %s' % (when, 'absent' if ab else 'present'))
            if init is not None and ini != (1 if init else 0):
                raise Bad('%s it is %s be its initial value' % (when, 'said to' if ini else 'not said to'))
            if val is not None:
                want = self.shape(sp, val)
                got = x[1:]
                for g, w in zip(got, want):
                    if w is not UNDEF and not same(self.e, s2, g, w):
                        raise Bad('%s it is %s instead of %s' % (when, str(g)[:60], str(w)[:60]))


def plain(t):
    """the symbol under conversions that keep its low bits"""
    while isinstance(t, tuple) and t and t[0] in ('Z', 'S', 'T') and len(t) > 1:
        t = t[1]
    return t


def same(e, st, g, w):
    if isinstance(g, int) and isinstance(w, int):
        return g & M64 == w & M64
    return e.norm(st, g) == e.norm(st, w) or bare(g) == bare(w)


def values(k):
    w = WIDTH.get(k, 64)
    top = (1 << w) - 1
    sgn = k[0] in 'im' or k in ('dec', 'par')
    out = [0, 1, 5, top, 1 << (w - 1), (1 << (w - 1)) - 1, 5 | 1 << (w - 1), 5 | 1 << (w // 2)]
    if sgn and w < 64:
        out = [sx(v, w) for v in out]
    return out


def specs(k, deep):
    out = []
    for opt in (0, 1):
        if k in ('par', 'xpo', 'man'):
            for has in (0, 1, 3, 4, 6):
                out.append(Spec(k, opt, has, 5, 0xfffe))
        else:
            for has in (0, 1):
                for v in (values(k) if has and deep else (5, values(k)[3]) if has else (0,)):
                    out.append(Spec(k, opt, has, v, 3))
    return out


def t_scalar(e, name, k, deep):
    t = T(e, name)
    c = Case(t.w, t.res, TEXT[k])
    for sp in specs(k, deep):
        st0, i = t.make(t.w.st0.fork(), sp)
        st0, f = t.field(st0, sp, i)
        ini = sp.initial()

        def first():
            st = st0.fork()
            val = None if sp.opt else (UNDEF, UNDEF)
            t.expect(st, sp, i, f, val, None, 'when constructed')
            st, _, n = t.w.emits(st, 'vf_%s_casts' % k, [i, f])
            if n != 3 and k != 'man':
                raise Bad('a reference of its type is not to it')
        c.run('first', str(sp), first)

        # values stored: symbols, and whatever a decision might depend on
        def sym(st, tag):
            v = st.fresh(WIDTH.get(k, 64), tag)
            x = st.fresh(16, tag + '_exp')
            return v, x

        def arg(v, w):
            return v

        for how in ('fresh', 'absent', 'other', 'initial'):
            if how == 'absent' and not sp.opt:
                continue

            def stored(vals):
                def g():
                    st = st0.fork()
                    st = before(st, how)
                    for v, x in vals:
                        st, _ = t.call(st, sp, 'put', [i, f, v, x])
                        fixed = None
                        if ini is None:
                            fixed = False
                        else:
                            fixed = t.shape(sp, ini) == t.shape(sp, (v, x))
                        t.expect(st, sp, i, f, (v, x), fixed, 'after %s was stored' % str(t.shape(sp, (v, x)))[:50])
                return g

            def before(st, how):
                if how == 'absent':
                    st, _ = t.call(st, sp, 'put', [i, f, 77, 7])
                    st, _ = t.call(st, sp, 'omit', [i, f])
                elif how == 'other':
                    st, _ = t.call(st, sp, 'put', [i, f, M64 if k != 'i32' else M64, 0x8001])
                elif how == 'initial':
                    st, _ = t.call(st, sp, 'tinit', [i, f])
                return st
            for v in values(k):
                for x in ((0, 1, 0xffff, 63, 0xffc1, sp.x & 0xffff) if k in ('dec', 'par', 'xpo') else (0,)):
                    c.run('store', '%s, %s' % (sp, how), stored([(v, x)]))
            c.run('store', '%s, %s' % (sp, how), stored([(v, 3) for v in values(k)[:4]]))

            def gone():
                st = before(st0.fork(), how)
                st, a = t.see(st, sp, i, f)
                st, _ = t.call(st, sp, 'omit', [i, f])
                val = None if sp.opt or k == 'xpo' and False else (UNDEF, UNDEF)
                if val is None:
                    t.expect(st, sp, i, f, None, ini is None if k != 'man' else None, 'after omit()')
                else:
                    st, b = t.see(st, sp, i, f)
                    if a[1:] != b[1:]:
                        raise Bad('omit() changes the value of a mandatory field')
            c.run('omit', '%s, %s' % (sp, how), gone)
            if k != 'xpo':
                def cleared():
                    st = before(st0.fork(), how)
                    st, _ = t.call(st, sp, 'clear', [i, f])
                    if sp.opt:
                        t.expect(st, sp, i, f, None, None, 'after clear()')
                if k != 'man':
                    c.run('clear', '%s, %s' % (sp, how), cleared)

            def reset():
                st = before(st0.fork(), how)
                st, _ = t.call(st, sp, 'tinit', [i, f])
                if ini is not None:
                    t.expect(st, sp, i, f, ini, True, 'after to_initial_value()')
                elif sp.opt and k != 'man':
                    t.expect(st, sp, i, f, None, True, 'after to_initial_value()')
            c.run('initial', '%s, %s' % (sp, how), reset)

        # the other part stays
        if k in ('xpo', 'man'):
            for op in ('put', 'tinit', 'asref'):
                def part():
                    full = Spec('par', sp.declared, sp.has, sp.v, sp.x)
                    st = st0.fork()
                    st, _ = t.call(st, full, 'put', [i, f, 0x123456789abcdef, 0x1234])
                    if op == 'asref':
                        g = t.w.room(st, 16, 'other')
                        st, _ = t.call(st, sp, 'construct', [i, g])
                        st, _ = t.call(st, full, 'put', [i, g, 77, 7])
                        st, _ = t.call(st, sp, 'asref', [i, f, i, g])
                    else:
                        st, _ = t.call(st, sp, op, [i, f] + ([77, 7] if op == 'put' else []))
                    st, x, _ = t.w.emits(st, 'vf_par_show', [i, f])
                    got, want = (x[2], 0x1234) if k == 'man' else (x[1], 0x123456789abcdef)
                    if got != want:
                        raise Bad('the other part of the decimal becomes %s' % str(got)[:40])
                c.run('part', '%s, %s' % (sp, op), part)

        # what another field holds
        for sq in specs(k, False):
            st1, j = t.make(st0.fork(), sq)
            st1, g = t.field(st1, sq, j, 'other')
            for state in ('put', 'absent', 'initial'):
                if state == 'absent' and not sq.opt or state == 'initial' and sq.initial() is None:
                    continue

                def other(st):
                    if state == 'put':
                        v, x = 6, 0xfff0
                        st, _ = t.call(st, sq, 'put', [j, g, v, x])
                        return st, (v, x)
                    if state == 'absent':
                        st, _ = t.call(st, sq, 'put', [j, g, 6, 3])
                        st, _ = t.call(st, sq, 'omit', [j, g])
                        return st, None
                    st, _ = t.call(st, sq, 'tinit', [j, g])
                    return st, sq.initial()

                def ascref():
                    for prior in ((), (77, 7)):
                        st, val = other(st1.fork())
                        if prior:
                            st, _ = t.call(st, sp, 'put', [i, f] + list(prior))
                        st, _ = t.call(st, sp, 'asref', [i, f, j, g])
                        if val is not None or sp.opt:
                            t.expect(st, sp, i, f, val, None, 'after it was set to one that is %s' % ('absent' if val is None else str(t.shape(sp, val))))
                c.run('as', '%s from %s, %s' % (sp, sq, state), ascref)
        # copies
        for how in ('put', 'absent', 'initial'):
            if how == 'absent' and not sp.opt or how == 'initial' and ini is None or k in ('xpo', 'man'):
                continue

            def copied():
                st = st0.fork()
                if how == 'put':
                    val = (values(k)[-1], 3)
                    st, _ = t.call(st, sp, 'put', [i, f, val[0], 3])
                elif how == 'absent':
                    st, _ = t.call(st, sp, 'put', [i, f, 6, 3])
                    st, _ = t.call(st, sp, 'omit', [i, f])
                    val = None
                else:
                    st, _ = t.call(st, sp, 'tinit', [i, f])
                    val = ini
                g = t.w.room(st, 16, 'copy')
                st, a = t.see(st, sp, i, f)
                st, _ = t.call(st, sp, 'copy', [i, g, f])
                st, b = t.see(st, sp, i, g)
                if a[0] != b[0] or (val is not None and a != b):
                    raise Bad('the copy is %s instead of %s' % (str(b)[:60], str(a)[:60]))
                t.expect(st, sp, i, g, val, None, 'after copying')
            c.run('copy', '%s, %s' % (sp, how), copied)
        # values that no decision depends on
        if k not in ('dec', 'par', 'xpo', 'man', 'enm') or True:
            def symbolic():
                st = st0.fork()
                v, x = sym(st, 'stored')
                wide = v
                fn = 'vf_%s_put' % k
                st, _ = one(e, st, fn, [i, f, wide, 3 if k != 'xpo' else x])
                # is_initial_value decides on it: look at the storage through ==-free means
                b = e.norm(st, e.load(st, e.padd(f, 8), 8, 64))
                if k in ('i32', 'u32'):
                    return
                if k == 'xpo':
                    b = e.norm(st, e.load(st, e.padd(f, 4), 2, 16))
                    if not same(e, st, b, x):
                        raise Bad('the exponent stored is %s' % str(b)[:60])
                elif not same(e, st, b, v):
                    raise Bad('the value stored is %s' % str(b)[:60])
            c.run('symbol', str(sp), symbolic)
    t.res.fns = sorted(e.visited_fns)
    return t.res


CONV = dict(int=lambda v: sx(v & 0xffffffff, 32), unsigned=lambda v: v & 0xffffffff, long=lambda v: v, ulong=lambda v: v)


def t_generic(e, name, k, deep):
    """as() of a field of any type: converts like static_cast, refuses what is no number"""
    t = T(e, name)
    c = Case(t.w, t.res, 'generic ' + TEXT[k])
    vals = (0, 5, 0xffffffff, 0x80000000, 0x7fffffff, M64, 1 << 63, (1 << 63) - 1, 5 | 1 << 32)
    for sp in specs(k, False):
        st0, i = t.make(t.w.st0.fork(), sp)
        st0, f = t.field(st0, sp, i)
        for ty in ('int', 'unsigned', 'long', 'ulong', 'text', 'bytes'):
            for v in vals:
                def f1():
                    st = st0.fork()
                    st, _ = t.call(st, sp, 'put', [i, f, 6, 3])
                    st, a = t.see(st, sp, i, f)
                    if ty in ('text', 'bytes'):
                        outs = e.run(st, 'vf_%s_any_%s' % (k, ty), [i, f, v])
                        if not all(o.kind in ('throw', 'ret') for o in outs):
                            raise Open('%s: %s' % (ty, [o.kind for o in outs][:3]))
                        for o in outs:
                            if o.kind == 'ret':
                                raise Bad('%s is accepted' % ty)
                            c.clean(o.state)
                            s2, b = t.see(o.state, sp, i, f)
                            if a != b:
                                raise Bad('%s was refused, but the value is changed' % ty)
                        return
                    st, r = one(e, st, 'vf_%s_any_%s' % (k, ty), [i, f, v])
                    c.clean(st)
                    n = CONV[ty](v)
                    if k in ('dec', 'par'):
                        st, x = t.see(st, sp, i, f)
                        sn = n - (1 << 64) if n >> 63 else n
                        m, ex = x[1], x[2]
                        if not isinstance(m, int) or not isinstance(ex, int):
                            raise Open('undetermined')
                        m = m - (1 << 64) if m >> 63 else m
                        ex = ex - (1 << 16) if ex >> 15 else ex
                        if ty == 'ulong' and n >> 63:
                            return
                        if sp.const:
                            want = sx(sp.x, 16) - (1 << 64) if sp.x >> 15 else sp.x
                            if ex != want:
                                raise Bad('the exponent is %d where it is fixed at %d' % (ex, want))
                            if abs(sn) < 1 << 50 and m * 10 ** max(ex, 0) != sn * 10 ** max(-ex, 0):
                                raise Bad('%d becomes %de%d' % (sn, m, ex))
                        elif ex < 0 or m * 10 ** ex != sn or (m % 10 == 0 and (m, ex) != (0, 0)):
                            raise Bad('%d becomes %de%d' % (sn, m, ex))
                        return
                    wd = WIDTH[k]
                    n = n & ((1 << wd) - 1)
                    if k == 'i32':
                        n = sx(n, 32)
                    t.expect(st, sp, i, f, (n, None), None, 'after %d was stored' % v)
                c.run(('as', ty), '%s, %s' % (sp, ty), f1)
    t.res.fns = sorted(e.visited_fns)
    return t.res


def t_decimal(e, name, k, deep):
    """normalize() keeps the value; as(integer) is that integer"""
    t = T(e, name)
    c = Case(t.w, t.res, 'normalizing ' + TEXT[k])
    for sp in specs(k, False):
        st0, i = t.make(t.w.st0.fork(), sp)
        st0, f = t.field(st0, sp, i)
        ms = [0, 1, 9, 10, 11, 100, 120, 1000, 10 ** 18, 9 * 10 ** 18, 105, 1010, 99999999990, (1 << 63) - 1]
        for m in ms + [-x for x in ms[1:]] + [-(1 << 63)]:
            for x in (0, 1, -1, 5, -5, -63):
                def g():
                    st = st0.fork()
                    st, _ = t.call(st, sp, 'put', [i, f, m & M64, x & 0xffff])
                    st, _ = one(e, st, 'vf_%s_norm' % k, [i, f])
                    c.clean(st)
                    st, y = t.see(st, sp, i, f)
                    mm, xx = y[1:]
                    if not isinstance(mm, int) or not isinstance(xx, int):
                        raise Open('undetermined')
                    mm = mm - (1 << 64) if mm >> 63 else mm
                    xx = xx - (1 << 16) if xx >> 15 else xx
                    if sp.const:
                        fx = sp.x - (1 << 16) if sp.x >> 15 else sp.x
                        if xx != fx:
                            raise Bad('the exponent is %d where it is fixed at %d' % (xx, fx))
                        d = x - fx
                        want = m * 10 ** d if d >= 0 else (abs(m) // 10 ** -d) * (1 if m >= 0 else -1)
                        if -(1 << 63) <= want < 1 << 63 and mm != want:
                            raise Bad('%de%d becomes %de%d' % (m, x, mm, xx))
                        return
                    if m == 0:
                        if (mm, xx) != (0, 0):
                            raise Bad('0 becomes %de%d' % (mm, xx))
                        return
                    if mm % 10 == 0 or mm * 10 ** (xx - x) != m if xx >= x else True:
                        raise Bad('%de%d becomes %de%d' % (m, x, mm, xx))
                c.run('normalize', str(sp), g)
        for what, fn in (('set_mantissa', 'setm'), ('set_exponent', 'setx')) if k == 'dec' else ():
            for v in (0, 5, -3):
                def h():
                    st = st0.fork()
                    st, _ = t.call(st, sp, 'put', [i, f, 77, 7])
                    st, _ = t.call(st, sp, 'omit', [i, f])
                    st, _ = one(e, st, 'vf_dec_' + fn, [i, f, v & M64])
                    val = (v & M64, 7) if fn == 'setm' else (77, v & 0xffff)
                    t.expect(st, sp, i, f, val, None, 'after %s(%d)' % (what, v))
                c.run(what, str(sp), h)
    t.res.fns = sorted(e.visited_fns)
    return t.res


def t_eq(e, name, k, deep):
    t = T(e, name)
    c = Case(t.w, t.res, 'comparing ' + TEXT[k])
    for sp in specs(k, False):
        for sq in specs(k, False):
            st0, i = t.make(t.w.st0.fork(), sp)
            st0, f = t.field(st0, sp, i)
            st0, j = t.make(st0, sq)
            st0, g = t.field(st0, sq, j, 'other')
            xs = (0, 1, 0xffff) if k in ('dec', 'par') else (0,)
            some = [(v, x) for v in values(k) for x in xs]
            for a in some[::1 if deep else 2] + [None]:
                for b in some + [None]:
                    if a is None and not sp.opt or b is None and not sq.opt:
                        continue

                    def h():
                        st = st0.fork()
                        for s, n, z, val in ((sp, i, f, a), (sq, j, g, b)):
                            st, _ = t.call(st, s, 'put', [n, z] + list(val or (5, 0)))
                            if val is None:
                                st, _ = t.call(st, s, 'omit', [n, z])
                        st, _, r = t.w.emits(st, 'vf_%s_eq' % k, [i, f, j, g])
                        if r != (1 if a == b else 2):
                            raise Bad('%s and %s compare %s' % (a, b, r))
                    c.run('equality', '%s and %s' % (sp, sq), h)
    t.res.fns = sorted(e.visited_fns)
    return t.res


def t_boolean(e, name, deep):
    t = T(e, name)
    c = Case(t.w, t.res, 'boolean')
    for opt in (0, 1):
        for v in (0, 1):
            for how in (0, 1):
                for prior in (None, 0, 1, 'omit'):
                    def g():
                        st = t.w.st0.fork()
                        i = t.w.room(st, 1024, 'instruction')
                        st, _ = one(e, st, 'vf_boolean_make', [i, opt, 0, 0])
                        s = t.w.room(st, 16, 'field')
                        st, _ = one(e, st, 'vf_enm_construct', [i, s])
                        if prior is not None:
                            st, _ = one(e, st, 'vf_boolean_put', [i, s, 1 if prior == 'omit' else prior, 0])
                            if prior == 'omit':
                                st, _ = one(e, st, 'vf_boolean_omit', [i, s])
                        st, _ = one(e, st, 'vf_boolean_put', [i, s, v, how])
                        st, x, _ = t.w.emits(st, 'vf_boolean_show', [i, s])
                        c.clean(st)
                        if x != [2, v, v, 1 - v, 1, ord('ft'[v])]:
                            raise Bad('%s shows as %s' % (bool(v), x))
                    c.run('store', '%s boolean' % ('optional' if opt else 'mandatory'), g)
    for v in (0, 1, 2, 3, 4, 255, 1 << 32, M64):
        for sparse in (0, 1):
            def h():
                st = t.w.st0.fork()
                i = t.w.room(st, 1024, 'instruction')
                vs = (0, 1, 2)
                if sparse:
                    vs = (1, 3, 1 << 32)
                    a = t.w.room(st, 24, 'values')
                    for n, x in enumerate(vs):
                        e.store(st, x, e.padd(a, 8 * n), 8, 64)
                    st, _ = one(e, st, 'vf_scalar_sparse', [i, a])
                else:
                    st, _ = one(e, st, 'vf_enm_make', [i, 0, 0, 0, 0])
                s = t.w.room(st, 16, 'field')
                st, _ = one(e, st, 'vf_enm_construct', [i, s])
                st, _ = one(e, st, 'vf_enm_put', [i, s, v, 0])
                st, _, b = t.w.emits(st, 'vf_scalar_isbool', [i, s])
                if b != 0:
                    raise Bad('is said to be a boolean')
                st, _, r = t.w.emits(st, 'vf_scalar_name', [i, s])
                c.clean(st)
                want = ord('abc'[vs.index(v)]) if v in vs else 0
                if r != want:
                    raise Bad('the name of %d is %s' % (v, r))
            c.run('name', 'enum with %s' % ('values of its own' if sparse else 'consecutive values'), h)
    t.res.fns = sorted(e.visited_fns)
    return t.res


def _work(job):
    fn, args = job
    e = ScalarEngine(_PROG)
    e.gw = set()
    try:
        r = globals()[fn](e, *args)
    except Bad as x:
        r = Result(args[0])
        r.und, r.bad, r.unknown = {}, {('setup', args[0]): ('%s: %s' % (args[0], x), '')}, []
    except Exception as x:
        r = ended(Result(args[0]), args[0], x)
    r.fns = sorted(e.visited_fns)
    r.gw = sorted(e.gw)
    r.unknown = sorted(e.unknown)
    return r


def jobs(deep):
    js = [('t_scalar', (TEXT[k], k, deep)) for k in KINDS]
    js += [('t_generic', ('as() of %s' % TEXT[k], k, deep)) for k in KINDS if k not in ('xpo', 'man')]
    js += [('t_decimal', ('normalizing %s' % TEXT[k], k, deep)) for k in ('dec', 'par')]
    js += [('t_eq', ('comparing %s' % TEXT[k], k, deep)) for k in KINDS if k not in ('xpo', 'man')]
    js.append(('t_boolean', ('booleans and names', deep)))
    return js


def run_jobs(prog, jobs, procs=8):
    import multiprocessing
    global _PROG
    _PROG = prog
    with multiprocessing.get_context('fork').Pool(min(procs, max(1, len(jobs)))) as pool:
        return pool.map(_work, jobs, chunksize=1)
