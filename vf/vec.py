"""Fields that own, borrow or lack a string, a byte vector or an integer vector, against the sequence of elements they
stand for: every operation of their interface, from every kind of storage, with elements that are symbols."""
from .engine import AnalysisError, NOTPRIM, ended
from .fast import FastEngine, p_reallocate
from .walk import Result
from . import terms as T

TYPES = ('ascii', 'unicode', 'bytes', 'i32', 'u32', 'i64', 'u64')
WIDTH = dict(ascii=1, unicode=1, bytes=1, i32=4, u32=4, i64=8, u64=8)
STRINGS = ('ascii', 'unicode')


def c_reallocate(e, st, ins, a, d):
    """the allocator contract also fixes the size that has to be given for a block"""
    old = e.norm(st, e.load(st, a[1], 8, 64))
    if not isinstance(old, int) and (old[0] != 'P' or old[1] not in st.mem):
        st.events.append(('UNINIT' if old[0] != 'P' else 'FOREIGN', 'what is reallocated is no block of the allocator', e.where(st)))
        e.store(st, 0, a[1], 8, 64)
    else:
        check_size(e, st, old, a[2], 'reallocated')
    n = p_reallocate(e, st, ins, a, d)
    p = e.norm(st, e.load(st, a[1], 8, 64))
    z = dict(st.user.get('blocks', {}))
    z[p[1]] = n
    st.user['blocks'] = z
    return n


def check_size(e, st, p, n, what):
    p, n = e.norm(st, p), e.norm(st, n)
    if isinstance(p, int):
        if p == 0 and what == 'reallocated' and n != 0:
            st.events.append(('SIZE', 'nothing reallocated as a block of size %s' % (n,), e.where(st)))
        return
    own = st.user.get('blocks', {}).get(p[1])
    if p[2] != 0 or own is None:
        st.events.append(('FOREIGN', 'a block the allocator never gave out is ' + what, e.where(st)))
    elif n != own:
        st.events.append(('SIZE', 'a block of size %s is %s as one of size %s' % (own, what, n), e.where(st)))


def c_deallocate(e, st, ins, a, d):
    p = e.norm(st, a[1])
    if isinstance(p, int) and p == 0:
        return None
    if not isinstance(p, tuple) or p[0] != 'P':
        st.events.append(('UNINIT', 'what is released is no determined block', e.where(st)))
        return None
    check_size(e, st, p, a[2], 'released')
    if p[1] not in st.mem:
        return None
    o = st.wobj(p[1])
    if o.freed:
        st.events.append(('DOUBLEFREE', o.tag, e.where(st)))
    o.freed = True
    return None


def c_memcmp(e, st, ins, a, d):
    """the order of two stretches of bytes: any of the three outcomes, remembered"""
    n = e.norm(st, a[2])
    if isinstance(n, int) and n == 0:
        return 0
    from .engine import Multi
    k = (tuple(cells(e, st, a[0], n, 1)), tuple(cells(e, st, a[1], n, 1)))
    if k[0] == k[1]:
        return 0
    have = st.user.get('cmp', {})
    outs = []
    for v in (0, 1, 0xffffffff):
        s = st.fork()
        h = dict(have)
        if k in h:
            if h[k] != v:
                continue
        elif (k[1], k[0]) in h:
            if (-h[(k[1], k[0])]) & 0xffffffff != v:
                continue
        h[k] = v
        s.user['cmp'] = h
        outs.append((s, v))
    return Multi(outs)


def c_memset(e, st, ins, a, d):
    n, v = e.norm(st, a[2]), e.norm(st, a[1])
    if not isinstance(n, int) or n > 4096:
        return NOTPRIM
    w = 32 if d.startswith('memset') else 8
    b = T.trunc(v, w, 8) if w > 8 and not isinstance(v, int) else v & 255 if isinstance(v, int) else v
    for i in range(n):
        e.store(st, b, e.padd(a[0], i), 1, 8)
    return a[0]


class VecEngine(FastEngine):
    MAXSTEPS = 400000

    def __init__(self, prog):
        FastEngine.__init__(self, prog)
        self.LOOPCUT = self.loopcut = 400
        P = self.prim
        P(r'^mfast::malloc_allocator::reallocate\(', c_reallocate)
        P(r'^mfast::malloc_allocator::deallocate\(', c_deallocate)
        P(r'^memcmp$|^bcmp$', c_memcmp)
        P(r'^llvm\.memset|^memset$', c_memset)


def cells(e, st, p, n, w):
    return [e.norm(st, e.load(st, e.padd(p, i * w), w, 8 * w)) for i in range(n)]


class Pre(object):
    """a storage before an operation: kind in absent, kept (absent, storage still owned), owned, borrowed; size and
    capacity in elements"""
    def __init__(self, kind, size=0, cap=0):
        self.kind, self.size, self.cap = kind, size, cap

    def __str__(self):
        return {'absent': 'an absent field', 'kept': 'an absent field that keeps storage for %d' % self.cap,
                'owned': 'a field of %d with storage for %d' % (self.size, self.cap),
                'borrowed': 'a field that refers to %d elements of the caller' % self.size}[self.kind]


PRES = ([Pre('absent')] + [Pre('kept', 0, c) for c in (1, 2, 5)] +
        [Pre('owned', s, s + x) for s in range(4) for x in (1, 2, 4)] + [Pre('owned', 0, 1)] +
        [Pre('borrowed', s) for s in range(4)])


class V(object):
    def __init__(self, e, ty, alloc):
        self.e, self.ty, self.w = e, ty, WIDTH[ty]
        self.alloc = alloc

    def value(self, st, st_obj, pre, tag):
        """builds a storage; returns (pointer, elements, source of a borrowed one)"""
        e, w = self.e, self.w
        p = ('P', e.new_obj(st, 16, 'undef', 'field ' + tag), 0)
        elems = [('sym', '%s%d' % (tag, i), 8 * w) for i in range(pre.size)]
        elems = [st.fresh(8 * w, '%s%d' % (tag, i)) for i in range(pre.size)]
        src, content, cap = None, 0, 0
        if pre.kind in ('owned', 'kept'):
            n = pre.cap * w
            content = ('P', e.new_obj(st, n, 'undef', 'heap'), 0)
            z = dict(st.user.get('blocks', {}))
            z[content[1]] = n
            st.user['blocks'] = z
            cap = n
            for i in range(pre.cap if pre.kind == 'kept' else pre.size):
                e.store(st, elems[i] if pre.kind == 'owned' else st.fresh(8 * w, 'stale'), e.padd(content, i * w), w, 8 * w)
            for i in range(pre.size, pre.cap):
                e.store(st, st.fresh(8 * w, 'stale'), e.padd(content, i * w), w, 8 * w)
        elif pre.kind == 'borrowed':
            content = self.array(st, elems, 'caller')
            src = content
        o = e.run(st, 'vf_vec_set', [p, content, int(pre.kind in ('absent', 'kept')), pre.size, cap])
        if len(o) != 1 or o[0].kind != 'ret':
            raise AnalysisError('storage setup')
        return o[0].state, p, elems, src

    def array(self, st, elems, tag):
        e, w = self.e, self.w
        a = ('P', e.new_obj(st, max(1, len(elems) * w), 'undef', tag), 0)
        for i, x in enumerate(elems):
            e.store(st, x, e.padd(a, i * w), w, 8 * w)
        return a


class Exp(object):
    def __init__(self, elems=None, absent=0, same=None):
        self.elems, self.absent = elems, absent


def one(e, st, fn, args):
    o = [x for x in e.run(st, fn, args)]
    if len(o) != 1 or o[0].kind != 'ret':
        raise AnalysisError('%s: %s' % (fn, [x.kind for x in o][:3]))
    return o[0].state, e.norm(o[0].state, o[0].value) if o[0].value is not None else None


def show(x):
    return str(x)[:40]


def observe(v, st, p, inst):
    """(absent, elements) as the interface shows them"""
    e, ty = v.e, v.ty
    st, ab = one(e, st, 'vf_%s_absent' % ty, [p, inst])
    st, n = one(e, st, 'vf_%s_size' % ty, [p, inst])
    if not isinstance(n, int) or n > 64:
        return st, ab, None, n
    out = []
    for i in range(n):
        st, x = one(e, st, 'vf_%s_get' % ty, [p, inst, i])
        out.append(x)
    st, sp = one(e, st, 'vf_%s_span' % ty, [p, inst])
    if sp != n * 1:
        raise AnalysisError('span')
    return st, ab, out, n


def operations(ty, deep):
    """(name, function suffix, needs, generator of (args description, call arguments, expectation))"""
    ops = []
    N = (0, 1, 2, 3, 5) if not deep else (0, 1, 2, 3, 4, 5, 6, 8)

    def op(name, fn, gen):
        ops.append((name, fn, gen))

    def fill(v, st, tag, n):
        return [st.fresh(8 * v.w, '%s%d' % (tag, i)) for i in range(n)]

    def resize(v, st, el, pre):
        for n in N:
            yield '%d' % n, lambda st, n=n: ([n], el[:n] + [0] * max(0, n - len(el)), 0, None)

    def resize_c(v, st, el, pre):
        for n in N:
            yield '%d, 65' % n, lambda st, n=n: ([n, 65], el[:n] + [65] * max(0, n - len(el)), 0, None)

    def reserve(v, st, el, pre):
        for n in N:
            yield '%d' % n, lambda st, n=n: ([n], el, None if pre.kind in ('absent', 'kept') else 0, None)

    def push(v, st, el, pre):
        def f(st):
            x, = fill(v, st, 'new', 1)
            return [x], el + [x], 0, None
        yield 'x', f

    def pop(v, st, el, pre):
        yield '', lambda st: ([], el[:-1], None if pre.kind in ('absent', 'kept') else 0, None)

    def insert1(v, st, el, pre):
        for k in range(len(el) + 1):
            def f(st, k=k):
                x, = fill(v, st, 'new', 1)
                return [k, x], el[:k] + [x] + el[k:], 0, k
            yield 'at %d' % k, f

    def insertn(v, st, el, pre):
        for k in range(len(el) + 1):
            for n in (0, 1, 3):
                def f(st, k=k, n=n):
                    x, = fill(v, st, 'new', 1)
                    return [k, n, x], el[:k] + [x] * n + el[k:], 0 if n else None, None
                yield '%d at %d' % (n, k), f

    def insert(v, st, el, pre):
        for k in range(len(el) + 1):
            for n in (0, 1, 2, 4):
                def f(st, k=k, n=n):
                    x = fill(v, st, 'new', n)
                    return [k, v.array(st, x, 'argument'), n], el[:k] + x + el[k:], 0 if n else None, None
                yield '%d at %d' % (n, k), f

    def assign(v, st, el, pre):
        for n in N:
            def f(st, n=n):
                x = fill(v, st, 'new', n)
                return [v.array(st, x, 'argument'), n], x, 0, None
            yield '%d' % n, f

    def assignn(v, st, el, pre):
        for n in N:
            def f(st, n=n):
                x, = fill(v, st, 'new', 1)
                return [n, x], [x] * n, 0, None
            yield '%d' % n, f

    def replace(v, st, el, pre):
        for k in range(len(el) + 1):
            for c in range(len(el) - k + 1):
                for n in (0, 1, 2, 4):
                    def f(st, k=k, c=c, n=n):
                        x = fill(v, st, 'new', n)
                        return ([k, c, v.array(st, x, 'argument'), n], el[:k] + x + el[k + c:],
                                0 if n or pre.kind not in ('absent', 'kept') else None, None)
                    yield '%d at %d with %d' % (c, k, n), f

    def append(v, st, el, pre):
        for n in (0, 1, 2, 4):
            def f(st, n=n):
                x = fill(v, st, 'new', n)
                return [v.array(st, x, 'argument'), n], el + x, 0 if n else None, None
            yield '%d' % n, f

    def append_sub(v, st, el, pre):
        for n, k, c in ((3, 1, 1), (3, 0, 2), (2, 1, 0), (4, 2, 1)):
            def f(st, n=n, k=k, c=c):
                x = fill(v, st, 'new', n)
                return [v.array(st, x, 'argument'), n, k, c], el + x[k:k + c], 0 if c else None, None
            yield '%d from %d of %d' % (c, k, n), f

    def append_nc(v, st, el, pre):
        for n in (0, 1, 3):
            def f(st, n=n):
                x, = fill(v, st, 'new', 1)
                return [n, x], el + [x] * n, 0 if n else None, None
            yield '%d' % n, f

    def at(v, st, el, pre):
        if pre.kind != 'owned':
            return
        for k in range(len(el)):
            def f(st, k=k):
                x, = fill(v, st, 'new', 1)
                return [k, x], el[:k] + [x] + el[k + 1:], 0, len(el)
            yield '%d' % k, f
    op('resize', 'resize', resize)
    op('resize with a value', 'resize_c', resize_c)
    op('reserve', 'reserve', reserve)
    op('push_back', 'push', push)
    op('pop_back', 'pop', pop)
    op('insert of one element', 'insert1', insert1)
    op('insert of equal elements', 'insertn', insertn)
    op('insert of a range', 'insert', insert)
    op('insert of a single pass range', 'inserti', insert)
    op('assign of a range', 'assign', assign)
    op('assign of a single pass range', 'assigni', assign)
    op('assign of equal elements', 'assignn', assignn)
    op('replace', 'replace', replace)
    op('element access', 'at', at)
    if ty in STRINGS:
        for nm, fn in (('append of a string', 'append'), ('append of a pointer and a length', 'append_pn'),
                       ('+= of a string', 'plus')):
            op(nm, fn, append)
        op('append of a substring', 'append_sub', append_sub)
        op('append of equal characters', 'append_nc', append_nc)
        op('+= of a character', 'plus_c', push)
        op('= of a string', 'set', assign)
        op('as(string)', 'as_ref', assign)
    return ops


BADEV = ('UAF', 'DOUBLEFREE', 'OOB', 'NULLDEREF', 'SIZE', 'FOREIGN', 'UNINIT', 'RANGE')


def invariant(v, st, p, ab, n, live, borrowed):
    """a storage the field owns has room for its elements and a terminator; nothing else stays allocated"""
    e = v.e
    st, cap = one(e, st, 'vf_vec_cap', [p])
    st, data = one(e, st, 'vf_vec_data', [p])
    own = set()
    if cap:
        if not (isinstance(data, tuple) and data[0] == 'P' and st.user.get('blocks', {}).get(data[1]) == cap):
            return st, 'its capacity of %s is not that of the storage it owns' % (cap,), own
        own.add(data[1])
        if not ab and (n + 1) * v.w > cap:
            return st, 'its storage for %s has no room for %d elements and a terminator' % (cap // v.w, n), own
    return st, None, own


def leaks(st, own):
    return [o for o in st.user.get('blocks', {}) if not st.mem[o].freed and o not in own]


def judge(v, o, res, key, what, p, inst, elems, absent, ret, borrowed, belems, owned2=()):
    e = v.e

    def bad(aspect, txt, wh=''):
        res.bad.setdefault((v.ty, key, aspect), ('%s: %s' % (what, txt), wh))
    if o.kind != 'ret':
        if o.kind in ('bound', 'cut'):
            res.und['%s %s' % (key, o.kind)] = res.und.get('%s %s' % (key, o.kind), 0) + 1
        else:
            bad(o.kind, '%s %s' % (o.kind, str(o.value)[:80]))
        return
    res.paths += 1
    st = o.state
    evs = [x for x in st.events if x[0] in BADEV]
    if evs:
        bad('memory', '%s %s' % (evs[0][0], ', '.join(map(str, evs[0][1:-1]))[:100]), str(evs[0][-1]))
        return
    try:
        st, ab, got, n = observe(v, st.fork(), p, inst)
    except AnalysisError as x:
        bad('observe', 'the field cannot be read afterwards: %s' % x)
        return
    evs = [x for x in st.events if x[0] in BADEV]
    if evs:
        bad('memory', 'reading the field afterwards: %s %s' % (evs[0][0], ', '.join(map(str, evs[0][1:-1]))[:100]), str(evs[0][-1]))
        return
    if absent is not None and bool(ab) != bool(absent):
        bad('presence', 'the field is %s afterwards' % ('absent' if ab else 'present'))
        return
    if got is None or len(got) != len(elems):
        bad('size', 'has %s elements afterwards instead of %d' % (n, len(elems)))
        return
    for i, (x, y) in enumerate(zip(got, elems)):
        if x != y:
            bad('content', 'element %d is %s instead of %s' % (i, show(x), show(y)))
            return
    if ret is not None and e.norm(st, o.value) != ret:
        bad('result', 'returns %s instead of %s' % (show(e.norm(st, o.value)), ret))
        return
    st, t, own = invariant(v, st, p, ab, n, None, borrowed)
    if t:
        bad('capacity', t)
        return
    if borrowed is not None:
        now = cells(e, st, borrowed, len(belems), v.w)
        if now != belems:
            bad('borrowed', "the caller's elements are overwritten")
            return
    left = leaks(st, set(own) | set(owned2))
    if left:
        bad('leak', 'storage is never released')


def t_ops(e, name, ty, part, parts, deep):
    res = Result(name)
    res.und, res.bad, res.unknown = {}, {}, []
    st0 = e.base_state()
    st0, alloc = one(e, st0, 'vf_keep_allocator', [])
    v = V(e, ty, alloc)
    st0, inst = one(e, st0, 'vf_%s_inst' % ty, [1, 0, 0, 0])
    for i, (nm, fn, gen) in enumerate(operations(ty, deep)):
        if i % parts != part:
            continue
        for slack in (0, 3):
            e.SLACK = slack
            for pre in PRES:
                st1, p, el, src = v.value(st0.fork(), None, pre, 'old')
                for txt, mk in gen(v, st1, el, pre):
                    st = st1.fork()
                    args, want, absent, ret = mk(st)
                    for o in e.run(st, 'vf_%s_%s' % (ty, fn), [alloc, p, inst] + args):
                        judge(v, o, res, nm, '%s(%s) on %s' % (nm, txt, pre), p, inst, want, absent, ret, src, el)
    e.SLACK = 0
    return res


def t_whole(e, name, ty, deep):
    """operations on whole fields: refers_to, as, swap, omit, clear, initial values, copies, release, comparison"""
    res = Result(name)
    res.und, res.bad, res.unknown = {}, {}, []
    st0 = e.base_state()
    st0, alloc = one(e, st0, 'vf_keep_allocator', [])
    v = V(e, ty, alloc)
    st0, opt = one(e, st0, 'vf_%s_inst' % ty, [1, 0, 0, 0])
    st0, man = one(e, st0, 'vf_%s_inst' % ty, [0, 0, 0, 0])
    w = v.w
    others = [Pre('absent'), Pre('owned', 0, 1), Pre('owned', 3, 4), Pre('borrowed', 2)]
    for pre in PRES:
        st1, p, el, src = v.value(st0.fork(), None, pre, 'old')
        gone = pre.kind in ('absent', 'kept')
        for n in (0, 2):
            st = st1.fork()
            x = [st.fresh(8 * w, 'new') for _ in range(n)]
            a = v.array(st, x, 'argument')
            for o in e.run(st, 'vf_%s_refers' % ty, [alloc, p, opt, a, n]):
                judge(v, o, res, 'refers_to', 'refers_to(%d) on %s' % (n, pre), p, opt, x, 0, None, src, el)
                if o.kind == 'ret':
                    s, d = one(e, o.state.fork(), 'vf_vec_data', [p])
                    s, c = one(e, s, 'vf_vec_cap', [p])
                    if d != a or c != 0:
                        res.bad.setdefault((ty, 'refers_to', 'borrow'), ('refers_to on %s: the field does not just refer to the '
                                                                         "caller's elements" % pre, ''))
        for inst, o_ in ((opt, 1), (man, 0)):
            if not o_ and gone:
                continue
            for o in e.run(st1.fork(), 'vf_%s_omit' % ty, [alloc, p, inst]):
                judge(v, o, res, 'omit', 'omit() on %s' % pre, p, inst, [] if o_ else el, 1 if o_ else 0, None, src, el)
            for o in e.run(st1.fork(), 'vf_%s_clear' % ty, [alloc, p, inst]):
                judge(v, o, res, 'clear', 'clear() on %s' % pre, p, inst, [], 1 if o_ else 0, None, src, el)
        for o in e.run(st1.fork(), 'vf_%s_release' % ty, [alloc, p, opt]):
            if o.kind == 'ret':
                res.paths += 1
                evs = [x for x in o.state.events if x[0] in BADEV]
                if evs or leaks(o.state, ()):
                    res.bad.setdefault((ty, 'release', ''), ('release of %s: %s' % (pre, evs[0] if evs else 'storage is never released'), ''))
        for q in others:
            st2, p2, el2, src2 = v.value(st1.fork(), None, q, 'other')
            qgone = q.kind in ('absent', 'kept')
            st, c2 = one(e, st2.fork(), 'vf_vec_data', [p2])
            own2 = (c2[1],) if q.kind == 'owned' else ()
            for o in e.run(st2.fork(), 'vf_%s_as' % ty, [alloc, p, opt, p2]):
                judge(v, o, res, 'as', 'as(%s) on %s' % (q, pre), p, opt, el2, 1 if qgone else 0, None, src, el, own2)
                if o.kind == 'ret' and not qgone:
                    s, a2, g2, _ = observe(v, o.state.fork(), p2, opt)
                    if a2 or g2 != el2:
                        res.bad.setdefault((ty, 'as', 'source'), ('as(%s) on %s changes its argument' % (q, pre), ''))
                    s, d1 = one(e, o.state.fork(), 'vf_vec_data', [p])
                    if el2 and d1 == c2:
                        res.bad.setdefault((ty, 'as', 'alias'), ('as(%s) on %s: the field shares storage with its argument' % (q, pre), ''))
            for o in e.run(st2.fork(), 'vf_%s_swap' % ty, [alloc, p, opt, p2]):
                s, c1 = one(e, st2.fork(), 'vf_vec_data', [p])
                own1 = (c1[1],) if pre.kind in ('owned', 'kept') else ()
                judge(v, o, res, 'swap', 'swap(%s) on %s' % (q, pre), p, opt, el2, 1 if qgone else 0, None, src, el, own1)
                judge(v, o, res, 'swap', 'swap(%s) on %s, the other side' % (q, pre), p2, opt, el, 1 if gone else 0, None, src, el, own2)
            if pre.kind == 'absent':      # a fresh storage takes a copy
                for o in e.run(st2.fork(), 'vf_%s_copy' % ty, [alloc, p, opt, p2]):
                    judge(v, o, res, 'copy', 'a copy of %s' % q, p, opt, el2, 1 if qgone else 0, None, src2, el2, own2)
                    if o.kind == 'ret' and el2:
                        s, d1 = one(e, o.state.fork(), 'vf_vec_data', [p])
                        if d1 == c2:
                            res.bad.setdefault((ty, 'copy', 'alias'), ('a copy of %s shares storage with it' % q, ''))
            # equality
            if pre.kind in ('owned', 'borrowed') and q.kind in ('owned', 'borrowed'):
                for op in (0, 1):
                    for o in e.run(st2.fork(), 'vf_%s_cmp' % ty, [p, opt, p2, op]):
                        equality(v, o, res, el, el2, op, pre, q)
                if ty in STRINGS:
                    for op in range(14):
                        for o in e.run(st2.fork(), 'vf_%s_order' % ty, [p, opt, p2, op]):
                            ordering(v, o, res, el, el2, op, pre, q)
        # a field equal to itself through two storages
        if pre.kind == 'owned':
            st2 = st1.fork()
            b = v.array(st2, el, 'caller')
            p2 = ('P', e.new_obj(st2, 16, 'undef', 'field b'), 0)
            st2, _ = one(e, st2, 'vf_vec_set', [p2, b, 0, len(el), 0])
            for op in (0, 1):
                for o in e.run(st2.fork(), 'vf_%s_cmp' % ty, [p, opt, p2, op]):
                    if o.kind == 'ret' and e.norm(o.state, o.value) != 1 - op:
                        res.bad.setdefault((ty, 'equal', op), ('two fields with the same %d elements compare %s' % (
                            len(el), 'unequal' if op == 0 else 'with !='), ''))
                    res.paths += 1
        if ty in STRINGS:
            if pre.kind == 'owned' or pre.kind == 'absent':
                for o in e.run(st1.fork(), 'vf_%s_c_str' % ty, [p, opt]):
                    if o.kind != 'ret':
                        continue
                    res.paths += 1
                    s, got, evs = o.state, None, [x for x in o.state.events if x[0] in BADEV]
                    if not evs:
                        got = cells(e, s, e.norm(s, o.value), len(el) + 1, 1)
                        evs = [x for x in s.events if x[0] in BADEV]
                    if evs or got != el + [0]:
                        res.bad.setdefault((ty, 'c_str', ''), ('c_str() of %s: %s' % (
                            pre, evs[0] if evs else 'does not end in a terminator after its characters'), ''))
        if w == 1:
            for has in (0, 1, 2):
                st = st1.fork()
                iv = [st.fresh(8, 'init') for _ in range((0, 0, 2)[has])]
                a = v.array(st, iv, 'literal')
                st, inst = one(e, st, 'vf_%s_inst' % ty, [1, int(has > 0), a, len(iv)])
                for o in e.run(st.fork(), 'vf_%s_initial' % ty, [alloc, p, inst]):
                    judge(v, o, res, 'to_initial_value', 'to_initial_value() on %s' % pre, p, inst, iv, int(not has), None, src, el)
                    if o.kind == 'ret':
                        for o2 in e.run(o.state.fork(), 'vf_%s_is_initial' % ty, [p, inst]):
                            if o2.kind == 'ret' and e.norm(o2.state, o2.value) != 1:
                                res.bad.setdefault((ty, 'is_initial_value', ''), (
                                    'is_initial_value() is false after to_initial_value()', ''))
                        res.paths += 1
                for o in e.run(st.fork(), 'vf_%s_is_initial' % ty, [p, inst]):
                    if o.kind == 'ret' and (len(iv) != len(el) or gone != (not has)):
                        res.paths += 1
                        if e.norm(o.state, o.value) not in (0,):
                            res.bad.setdefault((ty, 'is_initial_value', 'other'), (
                                'is_initial_value() holds for %s and an initial value of %s' % (
                                    pre, 'no' if not has else len(iv)), ''))
    # standalone values
    for n in (0, 1, 3):
        st = st0.fork()
        x = [st.fresh(8 * w, 'new') for _ in range(n)]
        a = v.array(st, x, 'argument')
        for o in e.run(st, 'vf_%s_value' % ty, [alloc, a, n]):
            res.paths += 1
            evs = [y for y in o.state.events if y[0] in BADEV]
            if o.kind != 'ret' or evs or e.norm(o.state, o.value) != n or leaks(o.state, ()):
                res.bad.setdefault((ty, 'value', ''), ('a standalone value assigned %d elements: %s' % (
                    n, evs[0] if evs else 'storage is never released' if o.kind == 'ret' and leaks(o.state, ()) else
                    '%s %s' % (o.kind, o.value)), ''))
    return res


def bytes_equal(st):
    """every comparison of stretches on the path, as sign"""
    return st.user.get('cmp', {})


def equality(v, o, res, a, b, op, pre, q):
    if o.kind != 'ret':
        return
    e = v.e
    got = e.norm(o.state, o.value)
    res.paths += 1
    if len(a) != len(b):
        want = 0
    elif not a:
        want = 1
    else:
        c = bytes_equal(o.state)
        if len(c) != 1:
            res.und['equality decided in an unfamiliar way'] = 1
            return
        (k, s), = c.items()
        if len(k[0]) != len(a) * v.w:
            res.bad.setdefault((v.ty, 'equality', 'extent'), (
                'two fields of %d elements are compared over %d bytes instead of %d' % (len(a), len(k[0]), len(a) * v.w), ''))
            return
        want = int(s == 0)
    if op:
        want = 1 - want
    if got != want:
        res.bad.setdefault((v.ty, 'equality', op), ('%s of %s and %s is %s' % (('==', '!=')[op], pre, q, got), ''))


OPS = ('==', '!=', '<', '<=', '>', '>=')


def ordering(v, o, res, a, b, op, pre, q):
    if o.kind != 'ret':
        return
    e = v.e
    got = e.norm(o.state, o.value)
    c = bytes_equal(o.state)
    res.paths += 1
    m = min(len(a), len(b))
    s = None
    for k, x in c.items():
        if len(k[0]) == m:
            s = {0: 0, 1: 1}.get(x, -1)
            if list(k[0]) == b[:m] and a[:m] != b[:m]:
                s = -s
    if m == 0:
        s = 0
    if s is None:
        if len(a) == len(b) or op not in (0, 1, 6, 7):
            res.und['order decided in an unfamiliar way'] = 1
            return
        sign = 1        # lengths differ: unequal either way
    else:
        sign = s if s else (len(a) > len(b)) - (len(a) < len(b))
    if op >= 12:
        want = (sign > 0) + 2 * (sign < 0)
        nm = 'compare'
    else:
        nm = OPS[op % 6]
        want = int({'==': sign == 0, '!=': sign != 0, '<': sign < 0, '<=': sign <= 0, '>': sign > 0, '>=': sign >= 0}[nm])
    if got != want:
        res.bad.setdefault((v.ty, 'order', nm, op >= 6), ('%s of %s and %s, whose common part compares %s, is %s' % (
            nm, pre, q, s, got), ''))


def _work(job):
    fn, args = job
    e = VecEngine(_PROG)
    try:
        r = globals()[fn](e, *args)
    except Exception as x:
        r = ended(Result(args[0]), args[0], x)
    r.fns = sorted(e.visited_fns)
    r.unknown = sorted(e.unknown)
    return r


def jobs(deep):
    js = []
    for ty in TYPES:
        for i in range(6):
            js.append(('t_ops', ('operations on %s fields, part %d' % (ty, i), ty, i, 6, deep)))
        js.append(('t_whole', ('whole %s fields' % ty, ty, deep)))
    return js


def run_jobs(prog, jobs, procs=8):
    import multiprocessing
    global _PROG
    _PROG = prog
    with multiprocessing.get_context('fork').Pool(min(procs, max(1, len(jobs)))) as pool:
        return pool.map(_work, jobs, chunksize=1)
