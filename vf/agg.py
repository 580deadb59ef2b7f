"""Sequences, groups, nested messages and whole messages against the plain values they stand for: every operation of their
interface on every way of defining the elements, with contents that are symbols; storage is tracked block by block."""
from .engine import AnalysisError, HARD, broken, ended
from .vec import VecEngine, leaks, BADEV
from .walk import Result

SEQS = ('inl', 'ref', 'def', 'sol', 'opt', 'typ', 'gen', 'ger', 'ged')
INDEX = dict(inl=0, ref=1, sol=3, opt=4, typ=7, gen=0, ger=1, ged=2)
INDEX['def'] = 2
FIELDS = ('inl', 'ref', 'def', 'sol', 'opt', 'man', 'may', 'typ', 'nested')
ANY = object()


def c_allocate(e, st, ins, a, d):
    n = e.norm(st, a[1])
    p = ('P', e.new_obj(st, n if isinstance(n, int) else None, 'undef', 'heap'), 0)
    z = dict(st.user.get('blocks', {}))
    z[p[1]] = n
    st.user['blocks'] = z
    return p


def bare(x):
    """a value that was widened with zeros is that value"""
    if isinstance(x, tuple) and x[0] == 'B' and len(x[2]) == 2 and x[2][1][1] == 0 and x[2][0][2] == 0:
        return x[2][0][1]
    return x


def c_emit(e, st, ins, a, d):
    st.user['emit'] = st.user.get('emit', ()) + (bare(e.norm(st, a[0])),)
    return None


def chars(e, st, p):
    out = []
    while len(out) < 4096:
        x = e.norm(st, e.load(st, e.padd(p, len(out)), 1, 8))
        if not isinstance(x, int):
            return None
        if x == 0:
            return out
        out.append(x)


def c_strcmp(e, st, ins, a, d):
    from .engine import NOTPRIM
    x, y = chars(e, st, a[0]), chars(e, st, a[1])
    if x is None or y is None:
        return NOTPRIM
    if d.startswith('strncmp'):
        n = e.norm(st, a[2])
        if not isinstance(n, int):
            return NOTPRIM
        x, y = x[:n], y[:n]
    return ((x > y) - (x < y)) & 0xffffffff


class AggEngine(VecEngine):
    MAXSTEPS = 2000000
    uninit_check = True

    def __init__(self, prog):
        VecEngine.__init__(self, prog)
        P = self.prim
        P(r'^mfast::malloc_allocator::allocate\(', c_allocate)
        P(r'^vf_emit$', c_emit)
        P(r'^str(n)?cmp$', c_strcmp)
        P(r'^std::logic_error::(~)?logic_error\(', lambda e, st, ins, a, d: None)
        P(r'^memcmp$|^bcmp$', c_memcmp)


class Bad(Exception):
    pass


class Open(Exception):
    """a path that could not be followed to its end"""


def settle(e, fn, outs):
    """the only outcome of a call"""
    o = outs[0] if outs else None
    for x in outs:
        for ev in x.state.events:
            if ev[0] in HARD or ev[0] == 'UNINIT':
                raise Bad('%s %s at %s' % (ev[0], ', '.join(map(str, ev[1:-1]))[:100], ev[-1]))
    odd = [x for x in outs if x.kind in ('throw', 'trap')]
    if odd and len(odd) == len(outs):
        raise Bad('%s ends in %s %s' % (fn.split('_', 1)[1], odd[0].kind, str(odd[0].value)[:60]))
    if len(outs) != 1 or o.kind != 'ret':
        raise Open('%s: %s' % (fn, [x.kind for x in outs][:3]))
    return o.state, e.norm(o.state, o.value) if o.value is not None else None


def one(e, st, fn, args):
    return settle(e, fn, e.run(st, fn, args))


class Elem(object):
    """a number and a string"""
    def __init__(self, num, text):
        self.num, self.text = num, text

    def __repr__(self):
        return '(%s, %s)' % (str(self.num)[:20], [str(x)[:12] for x in self.text])


class World(object):
    """the messages of one path and what they are to hold"""
    def __init__(self, e):
        self.e = e
        st = e.base_state()
        st, self.alloc = one(e, st, 'vf_keep_allocator', [])
        st, n = one(e, st, 'vf_agg_sizeof', [])
        self.size = n
        self.st0 = st
        st, z = one(e, st.fork(), 'vf_val_sizes', [])
        self.vsize = [z >> k & 0xffff for k in (0, 16, 32, 48)]

    def message(self, st, tag='message'):
        p = ('P', self.e.new_obj(st, self.size, 'undef', tag), 0)
        st, _ = one(self.e, st, 'vf_agg_new', [p, self.alloc])
        return st, p

    def room(self, st, k):
        return ('P', self.e.new_obj(st, self.vsize[k], 'undef', 'value'), 0)

    def value(self, st, tag, n):
        return Elem(st.fresh(32, tag), [st.fresh(8, '%s_%d' % (tag, i)) for i in range(n)])

    def text(self, st, el):
        a = ('P', self.e.new_obj(st, max(1, len(el.text)), 'undef', 'argument'), 0)
        for i, x in enumerate(el.text):
            self.e.store(st, x, self.e.padd(a, i), 1, 8)
        return a, len(el.text)

    def put(self, st, fn, args, el):
        a, n = self.text(st, el)
        st, _ = one(self.e, st, fn, args + [el.num, a, n])
        return st

    def fill(self, st, m, s, n, tag, stale=0):
        """a sequence of n elements; stale: as many were there before"""
        els = []
        if stale > n:
            st, _ = one(self.e, st, 'vf_%s_resize' % s, [m, stale])
            for i in range(stale):
                st = self.put(st, 'vf_%s_put' % s, [m, i], self.value(st, 'gone', 1 + i % 2))
        st, _ = one(self.e, st, 'vf_%s_resize' % s, [m, n])
        for i in range(n):
            el = self.value(st, '%s%d' % (tag, i), (2, 0, 1)[i % 3])
            st = self.put(st, 'vf_%s_put' % s, [m, i], el)
            els.append(el)
        return st, els

    def emits(self, st, fn, args):
        st.user['emit'] = ()
        st, v = one(self.e, st, fn, args)
        return st, list(st.user['emit']), v

    def elems(self, st, m, s):
        st, n, _ = self.emits(st, 'vf_%s_show' % s, [m])
        return st, self.parse(n, s == 'sol')

    def parse(self, x, bare):
        out = []
        while x:
            num = x.pop(0)
            t = []
            if not bare:
                n = x.pop(0)
                if not isinstance(n, int):
                    raise Bad('the length of a string is undetermined')
                t, x = x[:n], x[n:]
            out.append(Elem(num, t))
        return out


def same(got, want, bare):
    if len(got) != len(want):
        return 'holds %d elements instead of %d' % (len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        if w is ANY:
            continue
        if g.num != w.num or (not bare and g.text != w.text):
            return 'element %d is %s instead of %s' % (i, g, w)
    return None


class Seq(object):
    """the operations of one sequence field on messages m and o"""
    def __init__(self, w, s, res):
        self.w, self.e, self.s, self.res = w, w.e, s, res
        self.bare = s == 'sol'
        self.optional = s == 'opt'

    def bad(self, key, what, txt, wh=''):
        self.res.bad.setdefault((self.s, key), ('%s of a %s: %s' % (what, KIND[self.s], txt), wh))

    def start(self, st, tag, pre):
        """pre: (size, stale) or None for an absent sequence"""
        st, m = self.w.message(st, tag)
        els = []
        if pre is not None:
            st, els = self.w.fill(st, m, self.s, pre[0], tag, pre[1])
        return st, m, els

    def finish(self, st, key, what, msgs):
        """after this the messages are gone and so is everything they owned"""
        for m in msgs:
            st, _, _ = self.w.emits(st, 'vf_agg_delete', [m])
        self.clean(st, 'afterwards')
        left = leaks(st, ())
        if left:
            raise Bad('storage is never released')

    def clean(self, st, when):
        evs = [x for x in st.events if x[0] in BADEV]
        if evs:
            raise Bad('%s: %s %s at %s' % (when, evs[0][0], ', '.join(map(str, evs[0][1:-1]))[:100], evs[0][-1]))

    def check(self, st, m, want, absent):
        st, n = self.w.emits(st, 'vf_%s_size' % self.s, [m])[::2]
        if n != len(want):
            raise Bad('size() is %s instead of %d' % (n, len(want)))
        st, a = self.w.emits(st, 'vf_%s_absent' % self.s, [m])[::2]
        if absent is not None and bool(a) != bool(absent):
            raise Bad('the sequence is %s' % ('absent' if a else 'present'))
        st, got = self.w.elems(st, m, self.s)
        t = same(got, want, self.bare)
        if t:
            raise Bad(t)
        return st

    def do(self, key, what, st, fn, args, want, absent, msgs, more=None, ret=None, emits=None):
        """runs an operation and looks at everything afterwards; want: [(message, elements, absent)]"""
        res = self.res
        st.user['emit'] = ()
        for o in self.e.run(st, fn, args):
            if o.kind in ('bound', 'cut'):
                res.und['%s %s' % (key, o.kind)] = res.und.get('%s %s' % (key, o.kind), 0) + 1
                continue
            res.paths += 1
            try:
                if o.kind != 'ret':
                    raise Bad('%s %s' % (o.kind, str(o.value)[:80]))
                s = o.state
                self.clean(s, 'during the operation')
                if ret is not None and self.e.norm(s, o.value) != ret:
                    raise Bad('the result is %s instead of %s' % (str(self.e.norm(s, o.value))[:40], ret))
                if emits is not None and list(s.user['emit']) != emits:
                    raise Bad('yields %s instead of %s' % (str(list(s.user['emit']))[:120], str(emits)[:120]))
                for m, els, ab in want:
                    s = self.check(s, m, els, ab)
                if more:
                    s = more(s)
                self.finish(s, key, what, msgs)
            except Bad as x:
                self.bad(key, what, str(x), '')
            except (Open, AnalysisError) as x:
                res.und[str(x)[:80]] = res.und.get(str(x)[:80], 0) + 1

    def run(self, part, deep):
        w, s = self.w, self.s
        N = (0, 1, 2, 3, 5) if deep else (0, 1, 3)
        pres = [(0, 0), (1, 0), (3, 0), (1, 3), (2, 3)] + ([(0, 3), (2, 0), (5, 0)] if deep else [])
        if self.optional:
            pres = [None] + pres
        FRESH = Elem(0, [])
        for pre in pres:
            st1, m, els = self.start(w.st0.fork(), 'old', pre)
            high = max(pre) if pre else 0
            ab0 = pre is None
            t = 'an absent' if ab0 else 'of %d' % len(els)
            if pre and pre[1] > pre[0]:
                t += ' (formerly %d)' % pre[1]

            def grown(n):
                return els[:n] + [ANY if i < high else FRESH for i in range(len(els), n)]
            if part == 0:
                self.do('size', 'size() ' + t, st1.fork(), 'vf_%s_size' % s, [m], [(m, els, ab0)], ab0, [m], ret=len(els))
                self.do('omit', 'omit() ' + t, st1.fork(), 'vf_%s_omit' % s, [m], [(m, [] if self.optional else els, self.optional)], 0, [m])
                self.do('clear', 'clear() ' + t, st1.fork(), 'vf_%s_clear' % s, [m], [(m, [], self.optional)], 0, [m])
                for n in N:
                    self.do('resize', 'resize(%d) %s' % (n, t), st1.fork(), 'vf_%s_resize' % s, [m, n], [(m, grown(n), 0)], 0, [m])
                    self.do('reserve', 'reserve(%d) %s' % (n, t), st1.fork(), 'vf_%s_reserve' % s, [m, n],
                            [(m, els, None if ab0 else 0)], 0, [m])
                    self.do('grow_by', 'grow_by(%d) %s' % (n, t), st1.fork(), 'vf_%s_grow' % s, [m, n],
                            [(m, grown(len(els) + n), None if n == 0 and ab0 else 0)], 0, [m], ret=len(els))
                    if n > high:      # what is reserved is there when it is used
                        st, _ = one(self.e, st1.fork(), 'vf_%s_reserve' % s, [m, n])
                        self.do('resize', 'reserve(%d), resize(%d) %s' % (n, n, t), st, 'vf_%s_resize' % s, [m, n], [(m, grown(n), 0)], 0, [m])
                for fn, k in [('put', i) for i in range(len(els))] + [('putit', i) for i in range(len(els))] + (
                        [('putback', len(els) - 1), ('putfront', 0)] if els else []):
                    for n in (0, 1, 4):
                        st = st1.fork()
                        x = w.value(st, 'new', n)
                        a, k_ = w.text(st, x)
                        self.do(fn, 'writing element %d %s' % (k, t), st, 'vf_%s_%s' % (s, fn),
                                [m] + ([k] if fn in ('put', 'putit') else []) + [x.num, a, k_],
                                [(m, els[:k] + [x] + els[k + 1:], 0)], 0, [m])
            if part == 1:
                nums = [x.num for x in els]
                if els:
                    self.do('ends', 'front() and back() ' + t, st1.fork(), 'vf_%s_ends' % s, [m], [], 0, [m], emits=[nums[0], nums[-1]] * 2)
                for how in range(6):
                    self.do('walk%d' % how, 'iteration (%s) %s' % (WALKS[how], t), st1.fork(), 'vf_%s_walk' % s, [m, how], [], 0, [m],
                            emits=nums[::-1] if how in (1, 3, 5) else nums)
                for fn in ('relation', 'relationm'):
                    for i in range(len(els) + 1):
                        for j in range(len(els) + 1):
                            r = (i - j + 16) | (i < j) << 8 | (i <= j) << 9 | (i > j) << 10 | (i >= j) << 11 | (i == j) << 12 | (i != j) << 13 | 1 << 14
                            self.do(fn, 'iterators %d and %d %s' % (i, j, t), st1.fork(), 'vf_%s_%s' % (s, fn), [m, i, j], [], 0, [m], ret=r)
                self.do('generic', 'access as a generic sequence ' + t, st1.fork(), 'vf_%s_generic' % s, [m], [(m, els, ab0)], 0, [m], emits=nums * 2)
                self.do('nfields', 'num_fields() ' + t, st1.fork(), 'vf_%s_nfields' % s, [m], [], 0, [m], ret=0x101 if self.bare else 2)
                # a copy of its own
                st = st1.fork()
                v = w.room(st, 2)

                def after(s_):
                    s_, _, _ = w.emits(s_, 'vf_agg_delete', [m])
                    s_, got, _ = w.emits(s_, 'vf_st_dump', [v])
                    self.clean(s_, 'reading the copy')
                    if got[:1] != [1] or got[1:2] != [int(ab0)]:
                        raise Bad('the copy is %s' % ('absent' if got[1:2] == [1] else 'present'))
                    g = [] if ab0 else w.parse(got[3:], self.bare)
                    t_ = same(g, els, self.bare)
                    if t_:
                        raise Bad('the copy ' + t_)
                    s_, _, _ = w.emits(s_, 'vf_st_delete', [v])
                    return s_
                self.do('copy', 'copy ' + t, st, 'vf_%s_copy' % s, [v, m, w.alloc], [], 0, [], more=after)
            if part == 2:
                for q in ([None] if self.optional else []) + [(0, 0), (1, 0), (3, 0), (1, 3)]:
                    st2, o, oels = self.start(st1.fork(), 'other', q)
                    qa = q is None
                    u = '%s and one %s' % (t, 'that is absent' if qa else 'of %d' % len(oels))

                    def apart(st, what):
                        """writing to one does not show in the other"""
                        for i in range(len(oels)):
                            st = w.put(st, 'vf_%s_put' % s, [o, i], w.value(st, 'later', 2))
                        return self.check(st, m, oels, None)
                    self.do('as', 'as() ' + u, st2.fork(), 'vf_%s_as' % s, [m, o], [(m, oels, qa), (o, oels, qa)], 0, [m, o],
                            more=lambda st: apart(st, 'as'))
                    self.do('asrange', 'as(range) ' + u, st2.fork(), 'vf_%s_asrange' % s, [m, o], [(m, oels, None if qa else 0), (o, oels, qa)], 0, [m, o],
                            more=lambda st: apart(st, 'as'))
                    for i in range(len(oels) + 1):
                        for j in range(i, len(oels) + 1):
                            self.do('assign', 'assign(%d, %d) %s' % (i, j, u), st2.fork(), 'vf_%s_assign' % s, [m, o, i, j],
                                    [(m, oels[i:j], None if i == j else 0), (o, oels, qa)], 0, [m, o])
                    self.do('swap', 'swap() ' + u, st2.fork(), 'vf_%s_swap' % s, [m, o], [(m, oels, qa), (o, els, ab0)], 0, [o, m])
                    for i in range(len(els)):
                        for j in range(len(oels)):
                            self.do('elem', 'element %d taking element %d, %s' % (i, j, u), st2.fork(), 'vf_%s_elem' % s, [m, i, o, j],
                                    [(m, els[:i] + [oels[j]] + els[i + 1:], 0), (o, oels, 0)], 0, [m, o])
                self.do('as', 'as() of itself ' + t, st1.fork(), 'vf_%s_as' % s, [m, m], [(m, els, ab0)], 0, [m])
                self.do('swap', 'swap() with itself ' + t, st1.fork(), 'vf_%s_swap' % s, [m, m], [(m, els, ab0)], 0, [m])
                for i in range(len(els)):
                    for j in range(len(els)):
                        self.do('elem', 'element %d taking element %d of the same %s' % (i, j, t), st1.fork(), 'vf_%s_elem' % s, [m, i, m, j],
                                [(m, els[:i] + [els[j]] + els[i + 1:], 0)], 0, [m])


KIND = dict(inl='sequence of fields in place', ref='sequence of a referred template', sol='sequence of a nameless number',
            opt='optional sequence of sequences', typ='sequence of a defined type', gen='generic sequence',
            ger='generic sequence of a referred template', ged='generic sequence of a defined group')
KIND['def'] = 'sequence of a defined group'
WALKS = ('begin', 'rbegin', 'cbegin', 'crbegin', 'begin, mutable', 'rbegin, mutable')


def t_seq(e, name, s, part, slack, deep):
    res = Result(name)
    res.und, res.bad, res.unknown = {}, {}, []
    e.SLACK = slack
    Seq(World(e), s, res).run(part, deep)
    return res


def name_of(st, e, s):
    a = ('P', e.new_obj(st, len(s) + 1, 'undef', 'name'), 0)
    for i, c in enumerate(s + '\0'):
        e.store(st, ord(c), e.padd(a, i), 1, 8)
    return a


class Case(object):
    """one path through a history of calls; anything unexpected is a finding"""
    def __init__(self, w, res, kind):
        self.w, self.res, self.kind = w, res, kind

    def run(self, key, what, f):
        self.res.paths += 1
        try:
            f()
        except Bad as x:
            self.res.bad.setdefault((self.kind, key), ('%s: %s' % (what, x), ''))
        except (Open, AnalysisError) as x:
            b = broken(x)
            if b:
                self.res.bad.setdefault((self.kind, key), ('%s: %s at %s' % (what, b[0], b[1]), ''))
                return
            self.res.und[str(x)[:80]] = self.res.und.get(str(x)[:80], 0) + 1

    def clean(self, st):
        evs = [x for x in st.events if x[0] in BADEV]
        if evs:
            raise Bad('%s %s at %s' % (evs[0][0], ', '.join(map(str, evs[0][1:-1]))[:100], evs[0][-1]))

    def finish(self, st, w, gone):
        for fn, p in gone:
            st, _, _ = w.emits(st, fn, [p])
        self.clean(st)
        if leaks(st, ()):
            raise Bad('storage is never released')


def like(got, want):
    return len(got) == len(want) and all(y is ANY or x == y for x, y in zip(got, want))


def flat(el):
    return [el.num, len(el.text)] + list(el.text)


def t_group(e, name, deep):
    res = Result(name)
    res.und, res.bad, res.unknown = {}, {}, []
    w = World(e)
    c = Case(w, res, 'group')
    import itertools
    PUTS = dict(man=[('vf_man_put', []), ('vf_grp_put', [5]), ('vf_grp_putf', [5])], may=[('vf_may_put', []), ('vf_grp_put', [6]), ('vf_grp_putf', [6])])
    acts = {'man': ['put0', 'put1', 'put2', 'vf_man_omit', 'vf_man_clear'],
            'may': ['put0', 'put1', 'put2', 'vf_may_touch', 'vf_may_omit', 'vf_may_omit2', 'vf_may_clear']}
    for g in ('man', 'may'):
        for n in range(0, 4 if deep else 3):
            for h in itertools.product(acts[g], repeat=n):
                def f():
                    st, m = w.message(w.st0.fork())
                    val, there = [0, 0], g == 'man'
                    for a in h:
                        if a.startswith('put'):
                            fn, x = PUTS[g][int(a[3])]
                            el = w.value(st, 'new', 1 + int(a[3]))
                            t, k = w.text(st, el)
                            st, _, _ = w.emits(st, fn, [m] + x + [el.num, t, k])
                            val, there = flat(el), True
                        else:
                            st, _, _ = w.emits(st, a, [m])
                            if a == 'vf_may_touch':
                                if not there and val != [0, 0]:
                                    val = None
                                there = True
                            elif g == 'may':
                                there = False
                        c.clean(st)
                        st, got, _ = w.emits(st, 'vf_%s_show' % g, [m])
                        if there and got[:1] == [0] and val is None:
                            val = got[1:]
                        if got != ([0] + val if there else [1]):
                            raise Bad('shows %s instead of %s' % (str(got)[:80], str([0] + val if there else 'an absent group')[:80]))
                    if g == 'may':
                        st, _, r = w.emits(st, 'vf_may_present', [m])
                        if r != int(there):
                            raise Bad('the reference to the group is %s' % ('present' if r else 'absent'))
                        outs = e.run(st.fork(), 'vf_may_try', [m])
                        if len(outs) != 1 or outs[0].kind != ('ret' if there else 'throw'):
                            raise Bad('try_get() of %s group ends in %s' % ('a present' if there else 'an absent', [o.kind for o in outs]))
                        if there and bare(e.norm(outs[0].state, outs[0].value)) != val[0]:
                            raise Bad('try_get() yields another value')
                    c.finish(st, w, [('vf_agg_delete', m)])
                c.run((g, h), 'a %s group after %s' % ('mandatory' if g == 'man' else 'optional', ', '.join(h) or 'nothing'), f)
    for nm in ('inl', 'ref', 'sol', 'opt', 'man', 'may', 'typ', 'ma', 'mb', 'na', 'in', 'inlx', 'nosuch', ''):
        for fid in (0, 31, 34, 38, 51, 52, 99):
            def f():
                st, m = w.message(w.st0.fork())
                st, got, _ = w.emits(st, 'vf_msg_names', [m, name_of(st, e, nm), fid])
                M = (1 << 64) - 1
                top = dict(zip(FIELDS[:8], range(8)))
                top[''] = 8
                want = [9, {31: 0, 32: 1, 33: 2, 34: 3, 35: 4, 36: 5, 37: 6, 38: 7, 0: 8}.get(fid, M), top.get(nm, M),
                        2, {51: 0, 52: 1}.get(fid, M), dict(ma=0, mb=1).get(nm, M)]
                c.clean(st)
                if got != want:
                    raise Bad('%s instead of %s' % (got, want))
            c.run('names', 'number of fields and the indices of id %d and name "%s" in a message and a group' % (fid, nm), f)

    def f():
        st, m = w.message(w.st0.fork())
        st, got, _ = w.emits(st, 'vf_msg_iterate', [m])
        c.clean(st)
        if got != ([1] * 9 + [9]) * 2 + [9, 9]:
            raise Bad('does not visit each field once in order: %s' % got)
    c.run('iterate', 'iteration over the fields of a message', f)
    return res


def t_nested(e, name, deep):
    res = Result(name)
    res.und, res.bad, res.unknown = {}, {}, []
    w = World(e)
    c = Case(w, res, 'nested message')
    import itertools
    acts = ['bind1', 'bind2', 'bind3', 'rebind1', 'rebind2', 'rebind3', 'rebind0', 'put0', 'put1', 'deep']
    FRESH = {0: [0], 1: [1, 1, 0, 0], 2: [2, 3, 1, 0], 3: [3, 2]}
    for n in range(0, 5 if deep else 4):
        for h in itertools.product(acts, repeat=n):
            def f():
                st, m = w.message(w.st0.fork())
                k, val, deepv = 0, FRESH[0], None
                for i, a in enumerate(h):
                    if a[:3] in ('bin', 'reb'):
                        t = int(a[-1])
                        st, _, _ = w.emits(st, 'vf_nest_bind' if a[0] == 'b' else 'vf_nest_rebind', [m, t])
                        if t != k:
                            k, val, deepv = t, FRESH[t], None
                    elif a[:3] == 'put':
                        if k not in (1, 2):
                            return
                        el = w.value(st, 'new', 2)
                        t, q = w.text(st, el)
                        st, _, _ = w.emits(st, 'vf_nest_put', [m, el.num, t, q, int(a[3])])
                        val = [1, 1] + flat(el) if k == 1 else [2, 3, 0, 2] + el.text + [el.num]
                    else:
                        x = st.fresh(32, 'deep')
                        st, _, _ = w.emits(st, 'vf_nest_deep', [m, x])
                        k, val, deepv = 3, FRESH[3], x
                    c.clean(st)
                st, got, _ = w.emits(st, 'vf_nest_show', [m])
                if got != val:
                    raise Bad('shows %s instead of %s' % (str(got)[:100], str(val)[:100]))
                if k == 3:
                    st, _, r = w.emits(st, 'vf_nest_deepval', [m])
                    if bare(r) != (deepv if deepv is not None else 0xffffffffff):
                        raise Bad('a sequence of the nested message holds %s' % str(r)[:60])
                c.finish(st, w, [('vf_agg_delete', m)])
            c.run(h[-1:], 'a nested message after ' + (', '.join(h) or 'nothing'), f)
    return res


def furnish(w, st, m, spec, vals):
    """fills a message: spec gives per field the number of elements or whether it is there"""
    for s in ('inl', 'ref', 'def', 'sol', 'opt', 'typ'):
        n = spec.get(s)
        if n is None:
            continue
        n, stale = n if isinstance(n, tuple) else (n, 0)
        if stale > n:
            st, _ = one(w.e, st, 'vf_%s_resize' % s, [m, stale])
            for i in range(stale):
                st = w.put(st, 'vf_%s_put' % s, [m, i], w.value(st, 'gone', 2))
        st, _ = one(w.e, st, 'vf_%s_resize' % s, [m, n])
        for i in range(n):
            st = w.put(st, 'vf_%s_put' % s, [m, i], vals(s, i))
    if 'man' in spec:
        st = w.put(st, 'vf_man_put', [m], vals('man', 0))
    if 'may' in spec:
        st = w.put(st, 'vf_may_put', [m], vals('may', 0))
        if spec['may'] == 'omitted':
            st, _ = one(w.e, st, 'vf_may_omit', [m])
    k = spec.get('nested', 0)
    if k:
        st, _ = one(w.e, st, 'vf_nest_rebind', [m, k])
        if k == 3:
            st, _ = one(w.e, st, 'vf_nest_deep', [m, vals('nested', 0).num])
        else:
            st = w.put(st, 'vf_nest_put', [m], vals('nested', 0)) if False else nest_put(w, st, m, vals('nested', 0))
    return st


def nest_put(w, st, m, el):
    t, q = w.text(st, el)
    st, _ = one(w.e, st, 'vf_nest_put', [m, el.num, t, q, 0])
    return st


SPECS = [{}, dict(inl=2, ref=1, sol=3, opt=2, typ=1, man=1, may=1, nested=1, **{'def': 2}),
         dict(inl=(1, 3), opt=0, may='omitted', nested=2), dict(ref=(0, 2), sol=(1, 2), opt=(1, 3), nested=3, man=1), dict(typ=3, may=1)]


def t_copy(e, name, part, slack, deep):
    """whole messages copied and assigned: the result shows what the source shows, and neither depends on the other"""
    res = Result(name)
    res.und, res.bad, res.unknown = {}, {}, []
    e.SLACK = slack
    w = World(e)
    c = Case(w, res, 'message')

    def vals(st):
        return lambda s, i: w.value(st, s, (1, 2, 0)[i % 3])
    for i, sp in enumerate(SPECS):
        if i % 2 != part:
            continue
        st1, m = w.message(w.st0.fork())
        st1 = furnish(w, st1, m, sp, vals(st1))
        st1, want, _ = w.emits(st1, 'vf_agg_dump', [m])
        for how in ('vf_all_copy', 'vf_mt_of'):
            for first in (0, 1):
                def f():
                    st = st1.fork()
                    if how == 'vf_all_copy':
                        v, dump, dele = ('P', e.new_obj(st, w.size, 'undef', 'copy'), 0), 'vf_agg_dump', 'vf_agg_delete'
                    else:
                        v, dump, dele = w.room(st, 0), 'vf_mt_dump', 'vf_mt_delete'
                    exp = want if how == 'vf_all_copy' else [1] + want
                    st, _, _ = w.emits(st, how, [v, m, w.alloc])
                    c.clean(st)
                    st, got, _ = w.emits(st, dump, [v])
                    if got != exp:
                        raise Bad('the copy shows %s instead of %s' % differ(got, exp))
                    if first:
                        st, _, _ = w.emits(st, 'vf_agg_delete', [m])
                        st, got, _ = w.emits(st, dump, [v])
                        c.clean(st)
                        if got != exp:
                            raise Bad('the copy changes with its source')
                        c.finish(st, w, [(dele, v)])
                    else:
                        st, _, _ = w.emits(st, dele, [v])
                        st, got, _ = w.emits(st, 'vf_agg_dump', [m])
                        c.clean(st)
                        if got != want:
                            raise Bad('the source changes with its copy')
                        c.finish(st, w, [('vf_agg_delete', m)])
                c.run(how, 'a copy (%s) of a message with %s' % ('same type' if how == 'vf_all_copy' else 'generic', sp or 'nothing'), f)
        for tp in SPECS:
            for how in ('vf_msg_as', 'vf_msg_gas'):
                def f():
                    st, o = w.message(st1.fork(), 'target')
                    st = furnish(w, st, o, tp, vals(st))
                    st, _, _ = w.emits(st, how, [o, m])
                    c.clean(st)
                    for again in (0, 1):
                        st, got, _ = w.emits(st, 'vf_agg_dump', [o])
                        c.clean(st)
                        if got != want:
                            raise Bad('shows %s instead of %s' % differ(got, want))
                        if not again:
                            st = furnish(w, st, m, dict(inl=2, sol=1, man=1, may=1, nested=1, **{'def': 1}), vals(st))
                    c.finish(st, w, [('vf_agg_delete', o), ('vf_agg_delete', m)])
                c.run(how, 'a message with %s assigned one with %s' % (tp or 'nothing', sp or 'nothing'), f)

        def f():
            st = st1.fork()
            st, _, _ = w.emits(st, 'vf_msg_as', [m, m])
            st, got, _ = w.emits(st, 'vf_agg_dump', [m])
            c.clean(st)
            if got != want:
                raise Bad('shows %s instead of %s' % differ(got, want))
            c.finish(st, w, [('vf_agg_delete', m)])
        c.run('self', 'a message with %s assigned itself' % (sp or 'nothing'), f)
    return res


def differ(got, want):
    for i, (x, y) in enumerate(zip(got, want)):
        if x != y:
            return str(got[max(0, i - 2):i + 4])[:80], str(want[max(0, i - 2):i + 4])[:80]
    return len(got), len(want)


VALUES = dict(mt=(0, ('none', 'new', 'pair', 'of'), 1), rec=(1, ('new',), 1), st=(2, ('none', 'new', 'of'), 0), gt=(3, ('new', 'of'), 1))
VNAME = dict(mt='message value', rec='value of a defined group', st='sequence value', gt='group value')


def t_values(e, name, ty, slack, deep):
    """values that own a message, a group or a sequence: histories of construction, copy, move and assignment"""
    res = Result(name)
    res.und, res.bad, res.unknown = {}, {}, []
    e.SLACK = slack
    w = World(e)
    c = Case(w, res, VNAME[ty])
    room, ctors, copies = VALUES[ty]
    st0, m = w.message(w.st0.fork())
    st0 = furnish(w, st0, m, SPECS[1], lambda s, i: w.value(st0, s, 1 + i % 2))

    def make(st, how):
        """a value; (state, pointer, alive)"""
        v = w.room(st, room)
        if how == 'of':
            fn = {'mt': 'vf_mt_of', 'gt': 'vf_gt_of', 'st': 'vf_inl_copy'}[ty]
            st, _, _ = w.emits(st, fn, [v, m, w.alloc])
        elif how == 'none':
            st, _, _ = w.emits(st, 'vf_%s_none' % ty, [v])
        else:
            st, _, _ = w.emits(st, 'vf_%s_%s' % (ty, how.split('+')[0]), [v, w.alloc])
        if how.endswith('+put'):
            st = put(st, v)
        return st, v, how != 'none'

    def put(st, v):
        el = w.value(st, 'later', 2)
        t, q = w.text(st, el)
        st, _, _ = w.emits(st, 'vf_%s_put' % ty, [v, el.num, t, q])
        return st

    def dump(st, v, alive):
        if not alive:
            return st, None
        st, got, _ = w.emits(st, 'vf_%s_dump' % ty, [v])
        c.clean(st)
        return st, got
    starts = list(ctors) + ['new+put']
    seconds = starts + (['copy'] if copies else []) + ['move']
    acts = (['a=b', 'b=a', 'a=a'] if copies else []) + ['a<b', 'b<a', 'none']
    for x in starts:
        for y in seconds:
            for act in acts:
                for z in ('a', 'b'):
                    def f():
                        st, a, la = make(st0.fork(), x)
                        st, da = dump(st, a, la)
                        if y in ('copy', 'move'):
                            b, lb = w.room(st, room), la
                            st, _, _ = w.emits(st, 'vf_%s_%s' % (ty, y), [b, a])
                            db = da
                            if y == 'move':
                                la = False
                        else:
                            st, b, lb = make(st, y)
                            st, db = dump(st, b, lb)
                        c.clean(st)
                        if act != 'none':
                            to, fr = dict(a=(a, la, da), b=(b, lb, db))[act[0]], dict(a=(a, la, da), b=(b, lb, db))[act[2]]
                            st, _, _ = w.emits(st, 'vf_%s_%s' % (ty, 'assign' if act[1] == '=' else 'massign'), [to[0], fr[0]])
                            c.clean(st)
                            if act[0] != act[2]:
                                if act[0] == 'a':
                                    la, da = lb, db
                                    lb = lb and act[1] == '='
                                else:
                                    lb, db = la, da
                                    la = la and act[1] == '='
                        for k, l, d in ((a, la, da), (b, lb, db)):
                            st, got = dump(st, k, l)
                            if l and got != d:
                                raise Bad('shows %s instead of %s' % differ(got, d))
                        if (la, lb)[z == 'b']:
                            st = put(st, (a, b)[z == 'b'])
                            c.clean(st)
                            st, got = dump(st, (b, a)[z == 'b'], (lb, la)[z == 'b'])
                            if got is not None and got != (db, da)[z == 'b']:
                                raise Bad('writing to one value shows in another')
                        c.finish(st, w, [('vf_%s_delete' % ty, (a, b)[z == 'b']), ('vf_%s_delete' % ty, (b, a)[z == 'b']), ('vf_agg_delete', m)])
                    c.run((x, y, act), 'a: %s, b: %s, then %s, then a write to %s' % (x, y, act, z), f)
    return res


LINKS = [('put', 0, 0), ('put', 0, 1), ('put', 1, 0), ('put', 1, 1), ('link', 0, 0, 1, 0), ('link', 0, 0, 1, 1), ('link', 0, 1, 1, 0), ('link', 1, 0, 0, 1),
         ('rec', 0, 1), ('rec', 1, 0), ('unlink', 0, 0), ('unlink', 0, 1), ('unlink', 1, 0), ('omit', 0, 1), ('as', 0, 1), ('as', 1, 0), ('copy', 0)]


def t_link(e, name, part, parts, deep):
    """groups that were made to refer to the content of another group"""
    res = Result(name)
    res.und, res.bad, res.unknown = {}, {}, []
    w = World(e)
    c = Case(w, res, 'linked group')
    import itertools
    st0, size = one(e, w.st0.fork(), 'vf_l_sizeof', [])
    ms = []
    for tag in 'ab':
        p = ('P', e.new_obj(st0, size, 'undef', tag), 0)
        st0, _ = one(e, st0, 'vf_l_new', [p, w.alloc])
        ms.append(p)
    rec = w.room(st0, 1)
    st0, _ = one(e, st0, 'vf_rec_new', [rec, w.alloc])
    relem = w.value(st0, 'rec', 2)
    st0 = w.put(st0, 'vf_rec_put', [rec], relem)
    hs = [h for n in range(1, 4 if not deep else 5) for h in itertools.product(LINKS, repeat=n)]
    for h in hs[part::parts]:
        # what the slots refer to
        cells = {0: [0, 0], 1: [0, 0], 2: [0, 0], 3: [0, 0], 4: flat(relem)}
        slots = {(m, i): [not i, 2 * m + i, True] for m in (0, 1) for i in (0, 1)}       # present, cell, own
        fine = True
        for a in h:
            m = a[1]
            if a[0] == 'put':
                s_ = slots[a[1:]]
                s_[0] = True
                continue
            drop = []
            if a[0] in ('link', 'rec'):
                s_ = slots[a[1:3]]
                to = 4 if a[0] == 'rec' else slots[a[3:]][1]
                if a[0] == 'link':
                    slots[a[3:]][0] = True
                if s_[2]:
                    drop.append(s_[1])
                fine = fine and to not in drop
                s_[:] = [True, to, False]
            elif a[0] == 'unlink':
                s_ = slots[a[1:]]
                if not s_[2]:
                    cells[len(cells)] = [0, 0]
                    s_[:] = [not a[2], len(cells) - 1, True]
            elif a[0] == 'omit':
                slots[a[1:]][0] = False
            elif a[0] == 'as':
                for i in (0, 1):
                    s_, o_ = slots[(m, i)], slots[(a[2], i)]
                    if s_[2]:
                        drop.append(s_[1])
                    n = len(cells)
                    cells[n] = None
                    s_[:] = [o_[0], n, True]
            fine = fine and not any(x[1] in drop for x in slots.values())
            if not fine:
                break
        if not fine:
            continue

        def f():
            st = st0.fork()
            val = {0: [0, 0], 1: [0, 0], 2: [0, 0], 3: [0, 0], 4: flat(relem)}
            sl = {(m, i): [not i, 2 * m + i, True] for m in (0, 1) for i in (0, 1)}
            extra = []
            for a in h:
                m = ms[a[1]]
                if a[0] == 'put':
                    el = w.value(st, 'new', 2)
                    t, q = w.text(st, el)
                    st, _, _ = w.emits(st, 'vf_l_put', [m, a[2], el.num, t, q])
                    sl[a[1:]][0] = True
                    val[sl[a[1:]][1]] = flat(el)
                elif a[0] in ('link', 'rec'):
                    if a[0] == 'rec':
                        st, _, _ = w.emits(st, 'vf_l_linkrec', [m, a[2], rec])
                        to = 4
                    else:
                        st, _, _ = w.emits(st, 'vf_l_link', [m, a[2], ms[a[3]], a[4]])
                        sl[a[3:]][0] = True
                        to = sl[a[3:]][1]
                    sl[a[1:3]][:] = [True, to, False]
                elif a[0] == 'unlink':
                    st, _, _ = w.emits(st, 'vf_l_unlink', [m, a[2]])
                    if not sl[a[1:]][2]:
                        n = len(val)
                        val[n] = [0, 0]
                        sl[a[1:]][:] = [not a[2], n, True]
                elif a[0] == 'omit':
                    st, _, _ = w.emits(st, 'vf_l_omit', [m, 1])
                    sl[a[1:]][0] = False
                elif a[0] == 'as':
                    st, _, _ = w.emits(st, 'vf_l_as', [m, ms[a[2]]])
                    new = [(sl[(a[2], i)][0], val[sl[(a[2], i)][1]]) for i in (0, 1)]
                    for i in (0, 1):
                        n = len(val)
                        val[n] = list(new[i][1])
                        sl[(a[1], i)][:] = [new[i][0], n, True]
                else:
                    p = ('P', e.new_obj(st, size, 'undef', 'copy'), 0)
                    st, _, _ = w.emits(st, 'vf_l_copy', [p, m, w.alloc])
                    extra.append((p, [(sl[(a[1], i)][0], list(val[sl[(a[1], i)][1]])) for i in (0, 1)]))
                c.clean(st)

            def look(st):
                for k, p in enumerate(ms):
                    want = sum(([0] + val[sl[(k, i)][1]] if sl[(k, i)][0] else [1] for i in (0, 1)), [])
                    st, got, _ = w.emits(st, 'vf_l_dump', [p])
                    if got != want:
                        raise Bad('message %s shows %s instead of %s' % (('ab'[k],) + differ(got, want)))
                for p, d in extra:
                    want = sum(([0] + v if pr else [1] for pr, v in d), [])
                    st, got, _ = w.emits(st, 'vf_l_dump', [p])
                    if got != want:
                        raise Bad('the copy shows %s instead of %s' % differ(got, want))
                c.clean(st)
                return st
            st = look(st)
            c.finish(st, w, [('vf_l_delete', p) for p, _ in extra] + [('vf_l_delete', ms[0]), ('vf_l_delete', ms[1]), ('vf_rec_delete', rec)])
        c.run(h[-1][0], 'groups after ' + ', '.join('%s%s' % (x[0], list(x[1:])) for x in h), f)
    return res


# equality

INTS = {0: 32, 1: 32, 2: 64, 3: 64, 18 - 1: 64}
VECS = {7: 8, 8: 8, 9: 8, 10: 32, 11: 32, 12: 64, 13: 64}


def k_states(ty, opt):
    """(how to get there, what it then is) of a field"""
    out = [(('init',), None if opt else 0 if ty in INTS else (0, 0) if ty == 4 else ())]
    if opt:
        out.append((('omit', (1, 5, 7)), None))
    if ty == 17:
        return out + [(('set', (1, v, 0)), v) for v in (0, 1, 2)]
    if ty in INTS:
        w = INTS[ty]
        for v in (0, 5, 6, 5 | 1 << (w - 1), 5 | 1 << 16) + ((5 | 1 << 32,) if w == 64 else ()):
            out.append((('set', (1, v, 0)), v))
    elif ty == 4:
        for v, x in ((0, 0), (5, 0), (5, 1), (6, 1), (5, 0xffff), (5 | 1 << 32, 1)):
            out.append((('set', (1, v, x)), (v, x)))
    else:
        w = VECS[ty]
        for n, v, x in ((0, 5, 7), (1, 5, 7), (1, 6, 7), (2, 5, 7), (2, 5, 8), (2, 5 | 1 << (w - 1), 7), (2, 5, 7 | 1 << (w - 1))):
            out.append((('set', (n, v, x)), (v, x)[:n]))
    return out


def c_memcmp(e, st, ins, a, d):
    from .vec import cells, c_memcmp as other
    n = e.norm(st, a[2])
    if isinstance(n, int) and n < 256:
        for x, y in zip(cells(e, st, a[0], n, 1), cells(e, st, a[1], n, 1)):
            if x != y:
                if isinstance(x, int) and isinstance(y, int):
                    return 1 if x > y else 0xffffffff
                return other(e, st, ins, a, d)
        return 0
    return other(e, st, ins, a, d)


def k_apply(w, st, m, i, how):
    if how[0] != 'init':
        st, _ = one(w.e, st, 'vf_k_set', [m, i] + list(how[1]))
        if how[0] == 'omit':
            st, _ = one(w.e, st, 'vf_k_omit', [m, i])
    return st


def t_fieldeq(e, name, part, parts, deep):
    res = Result(name)
    res.und, res.bad, res.unknown = {}, {}, []
    w = World(e)
    c = Case(w, res, 'equality')
    st0, size = one(e, w.st0.fork(), 'vf_k_sizeof', [])
    ms = []
    for tag in 'ab':
        p = ('P', e.new_obj(st0, size, 'undef', tag), 0)
        st0, _ = one(e, st0, 'vf_k_new', [p, w.alloc])
        ms.append(p)
    a, b = ms
    types = []
    for i in range(26):
        st0, t = one(e, st0, 'vf_k_type', [a, i])
        types.append(t)
    for i in range(26):
        if i % parts != part:
            continue
        ty, opt = types[i], i % 2
        ss = k_states(ty, opt)
        for hx, vx in ss:
            st1 = k_apply(w, st0.fork(), a, i, hx)
            for hy, vy in ss:
                def f():
                    st = k_apply(w, st1.fork(), b, i, hy)
                    want = 1 if vx == vy else 2
                    fns = [('vf_k_eq', [a, b]), ('vf_k_eq', [b, a]), ('vf_k_feq', [a, i, b, i]), ('vf_k_feq', [b, i, a, i])]
                    if ty in INTS or ty in (4, 17):
                        fns += [('vf_k_teq', [a, i, b]), ('vf_k_teq', [b, i, a])]
                    for fn, args in fns:
                        s, _, r = w.emits(st.fork(), fn, args)
                        c.clean(s)
                        if r != want:
                            raise Bad('%s with == and != (%s)' % (
                                {1: 'are equal', 2: 'are unequal', 3: 'are both equal and unequal', 0: 'are neither equal nor unequal'}.get(r, str(r)[:40]), fn[3:]))
                c.run(('kind', ty), 'two fields of type %d%s that are %s and %s' % (ty, ', optional' if opt else '', shown(hx, vx), shown(hy, vy)), f)
        # the mandatory and the optional field of one type; fields of different types
        for j in range(26):
            for hx, vx in (ss[0], ss[-1]):
                st1 = k_apply(w, st0.fork(), a, i, hx)
                for hy, vy in (k_states(types[j], j % 2)[0], k_states(types[j], j % 2)[-1]):
                    def f():
                        st = k_apply(w, st1.fork(), b, j, hy)
                        st, _, r = w.emits(st, 'vf_k_feq', [a, i, b, j])
                        c.clean(st)
                        want = 1 if types[i] == types[j] and vx == vy else 2
                        if r != want:
                            raise Bad('compare %s' % r)
                    c.run(('types', ty), 'fields of types %d and %d that are %s and %s' % (ty, types[j], shown(hx, vx), shown(hy, vy)), f)
        # equal whatever the value is
        if part == 0:
            pass

    def f():
        st, m = w.message(st0.fork())
        st, _, r = w.emits(st, 'vf_mk_eq', [m, a])
        c.clean(st)
        if r != 0:
            raise Bad('compare equal')
    c.run('templates', 'messages of unrelated templates', f)
    return res


def shown(how, v):
    return 'absent' if v is None else str(v) if how[0] != 'init' else 'as constructed'


DIFFS = [('inl', 0), ('inl', 1), ('ref', 0), ('def', 1), ('sol', 2), ('opt', 1), ('typ', 0), ('man', 0), ('may', 0), ('nested', 0)]


def t_msgeq(e, name, part, deep):
    """messages with the same content are equal, with one difference they are not"""
    res = Result(name)
    res.und, res.bad, res.unknown = {}, {}, []
    w = World(e)
    c = Case(w, res, 'equality')
    full = dict(SPECS[1])
    st0 = w.st0.fork()
    sym = {}

    def symbolic(s, i):
        return sym.setdefault((s, i), w.value(st0, s, (2, 1, 0)[i % 3] if s != 'man' else 2))

    def concrete(diff):
        def g(s, i):
            x = Elem(7 + i, [65 + i] * 2)
            if diff and diff[:2] == (s, i):
                if diff[2] == 'number':
                    x.num += 1
                elif diff[2] == 'letter':
                    x.text = [x.text[0], x.text[1] + 1]
                elif diff[2] == 'longer':
                    x.text = x.text + [0]
                else:
                    x.text = []
            return x
        return g
    cases = []
    for sp in SPECS + [full]:
        cases.append((sp, symbolic, sp, symbolic, 1, 'the same content, %s' % sp))
    for s, i in DIFFS:
        for d in ('number', 'letter', 'longer', 'empty'):
            if s == 'sol' and d != 'number':
                continue
            cases.append((full, concrete(None), full, concrete((s, i, d)), 2, 'a difference in %s, %s of part %d' % (s, d, i)))

    def but(**kw):
        x = dict(full)
        for k, v in kw.items():
            k = k.rstrip('_')
            if v is None:
                x.pop(k, None)
            else:
                x[k] = v
        return x
    for a, b, eq, what in (
            (full, but(inl=(2, 4)), 1, 'what a sequence held before it shrank'), (full, but(sol=(3, 5)), 1, 'what a sequence held before it shrank'),
            (full, but(opt=(2, 4)), 1, 'what a sequence held before it shrank'),
            (but(may=None), but(may='omitted'), 1, 'what an absent group held before'), (but(may=None), full, 2, 'the presence of a group'),
            (but(may='omitted'), full, 2, 'the presence of a group'),
            (but(opt=None), but(opt=0), 2, 'an empty sequence and an absent one'), (full, but(opt=None), 2, 'an absent sequence'),
            (full, but(inl=3), 2, 'one more element'), (full, but(inl=1), 2, 'one element less'), (full, but(def_=3), 2, 'one more element'),
            (full, but(sol=2), 2, 'one element less'), (full, but(opt=1), 2, 'one element less'), (full, but(typ=0), 2, 'no elements'),
            (full, but(nested=None), 2, 'an unbound nested message'), (full, but(nested=2), 2, 'a nested message of another template'),
            (but(nested=None), but(nested=None), 1, 'unbound nested messages'), (but(nested=3), but(nested=3), 1, 'a nested message of the same template'),
            (but(nested=3), but(nested=None), 2, 'an unbound nested message'), ({}, full, 2, 'an empty message'), ({}, {}, 1, 'empty messages')):
        cases.append((a, concrete(None), b, concrete(None), eq, what))
    for k, (sa, va, sb, vb, want, what) in enumerate(cases):
        if k % 2 != part:
            continue

        def f():
            st, a = w.message(st0.fork(), 'a')
            st, b = w.message(st, 'b')
            st = furnish(w, st, a, sa, va)
            st = furnish(w, st, b, sb, vb)
            for x, y, exp in ((a, b, want), (b, a, want), (a, a, 1), (b, b, 1)):
                s, _, r = w.emits(st.fork(), 'vf_msg_eq', [x, y])
                c.clean(s)
                if r != exp:
                    raise Bad({1: 'equal', 2: 'unequal', 3: 'both equal and unequal', 0: 'neither equal nor unequal'}.get(r, str(r)[:40]) +
                              (' to itself' if x is y else ''))
        c.run(('message', what.split(',')[0]), 'messages with %s' % what, f)
    return res


def _work(job):
    fn, args = job
    e = AggEngine(_PROG)
    e.gw = set()
    try:
        r = globals()[fn](e, *args)
    except Bad as x:
        r = Result(args[0])
        r.und, r.bad, r.unknown = {}, {('setup', args[0]): ('%s: %s' % (args[0], x), '')}, []
    except Exception as x:
        r = ended(Result(args[0]), args[0], x)
    r.fns = sorted(e.visited_fns)
    r.gw = sorted(e.gw)
    r.unknown = sorted(e.unknown)
    return r


def jobs(deep):
    js = []
    for s in SEQS:
        for part in range(3):
            for slack in (0, 40):
                js.append(('t_seq', ('%s, part %d, slack %d' % (KIND[s], part, slack), s, part, slack, deep)))
    js.append(('t_group', ('groups', deep)))
    js.append(('t_nested', ('nested messages', deep)))
    for i in range(8):
        js.append(('t_link', ('linked groups, part %d' % i, i, 8, deep)))
    for slack in (0, 40):
        for part in (0, 1):
            js.append(('t_copy', ('copies of messages, part %d, slack %d' % (part, slack), part, slack, deep)))
        for ty in VALUES:
            js.append(('t_values', ('%ss, slack %d' % (VNAME[ty], slack), ty, slack, deep)))
    return js


def eq_jobs(deep):
    n = 13
    return ([('t_fieldeq', ('equality of fields, part %d' % i, i, n, deep)) for i in range(n)] +
            [('t_msgeq', ('equality of messages, part %d' % i, i, deep)) for i in (0, 1)])


def run_jobs(prog, jobs, procs=8):
    import multiprocessing
    global _PROG
    _PROG = prog
    with multiprocessing.get_context('fork').Pool(min(procs, max(1, len(jobs)))) as pool:
        return pool.map(_work, jobs, chunksize=1)
