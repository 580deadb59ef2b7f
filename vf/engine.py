"""Path-partitioned abstract interpretation of the program's LLVM IR.

The abstract state is (memory of provenance terms, typestate facts, effect
list).  Abstract states are partitioned by the outcome of the branches that
the terms leave undecided; nothing is executed and no solver is involved:
branch conditions are decided by term normalisation plus the facts recorded
for earlier, syntactically related tests, or else both successors are taken.
"""
import os
import re
import sys
import time
from . import terms as T

sys.setrecursionlimit(10000)


class AnalysisError(Exception):
    """the analysis could not interpret the program (broken anchor)"""
    events = ()           # what was recorded on the path before


# a check is given 900 s: what is not decided by then stays undecided
DEADLINE = time.time() + float(os.environ.get('VF_SECONDS', '660'))

HARD = ('NULLDEREF', 'UAF', 'OOB', 'DOUBLEFREE')


def broken(x):
    """the first misuse of memory on a path whose analysis ended in x"""
    for ev in getattr(x, 'events', ()):
        if ev[0] in HARD:
            return '%s %s' % (ev[0], ', '.join(map(str, ev[1:-1]))[:100]), str(ev[-1])
    return None


def ended(res, name, x):
    """a job that could not be completed: a finding where memory was misused before, otherwise undecided"""
    res.und, res.bad, res.unknown = {}, {}, []
    prev = getattr(type(res), 'prev', None)
    if prev is not None and prev.name == name and isinstance(prev.bad, dict):     # what was found before counts
        res.bad.update({k: v for k, v in prev.bad.items() if isinstance(k, tuple)})
        res.paths = prev.paths
    b = broken(x)
    if b:
        res.bad['memory', name] = ('%s: %s' % (name, b[0]), b[1])
    else:
        res.und['%s: %s %s' % (name, '' if isinstance(x, AnalysisError) else type(x).__name__, str(x)[:200])] = 1
    return res


class Obj(object):
    __slots__ = ('size', 'cells', 'default', 'owner', 'log', 'freed', 'tag')

    def __init__(self, size, default, tag):
        self.size = size
        self.cells = {}
        self.default = default
        self.owner = 0
        self.log = ()
        self.freed = False
        self.tag = tag

    def clone(self):
        o = Obj(self.size, self.default, self.tag)
        o.cells = dict(self.cells)
        o.log = self.log
        o.freed = self.freed
        return o


class Frame(object):
    __slots__ = ('fn', 'bb', 'ip', 'prev', 'loc', 'visits', 'ret_id', 'invoke')

    def __init__(self, fn, loc):
        self.fn = fn
        self.bb = 0
        self.ip = 0
        self.prev = -1
        self.loc = loc
        self.visits = {}
        self.ret_id = -1
        self.invoke = None

    def copy(self):
        f = Frame(self.fn, list(self.loc))
        f.bb, f.ip, f.prev, f.ret_id, f.invoke = self.bb, self.ip, self.prev, self.ret_id, self.invoke
        f.visits = dict(self.visits)
        return f


class State(object):
    _ids = [1]

    def __init__(self):
        self.id = State._ids[0]
        State._ids[0] += 1
        self.mem = {}
        self.known = {}
        self.ne = {}
        self.iv = {}
        self.rel = {}
        self.facts = ()
        self.events = []
        self.frames = []
        self.n = 0
        self.steps = 0
        self.exc = None
        self.user = {}
        self.path = []

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        self.id = State._ids[0]
        State._ids[0] += 1
        s.known = dict(self.known)
        s.ne = dict(self.ne)
        s.iv = dict(self.iv)
        s.rel = dict(self.rel)
        s.facts = self.facts
        s.events = list(self.events)
        s.frames = [f.copy() for f in self.frames]
        s.n = self.n
        s.steps = self.steps
        s.exc = self.exc
        s.user = dict(self.user)
        s.path = list(self.path)
        return s

    def fresh(self, w, name):
        self.n += 1
        return ('S', w, '%s#%d' % (name, self.n))

    def obj(self, oid):
        return self.mem[oid]

    def wobj(self, oid):
        o = self.mem[oid]
        if o.owner != self.id:
            o = o.clone()
            o.owner = self.id
            self.mem[oid] = o
        return o


class Outcome(object):
    def __init__(self, kind, state, value):
        self.kind = kind      # 'ret' | 'throw' | 'trap' | 'cut'
        self.state = state
        self.value = value


def uninit_in(t):
    if not isinstance(t, tuple):
        return False
    if len(t) > 2 and t[0] == 'S' and isinstance(t[2], tuple):
        return t[2][0] == 'uninit'
    return any(uninit_in(x) for x in t if isinstance(x, tuple))


class Engine(object):
    uninit_check = False

    MAXSTEPS = 60000
    LOOPCUT = 3

    def __init__(self, prog):
        self.prog = prog
        self.prims = []
        self.pcache = {}
        self.unknown = set()
        self.typeids = {}
        self.visited_fns = set()
        self.total_steps = 0
        self.total_paths = 0
        self.cuts = 0
        self.loopcut = self.LOOPCUT
        self.opaque_stubs = set()
        self.base_globals = {}
        self.trace_branches = True
        self.install_basics()

    # ------------------------------------------------------------ primitives
    def prim(self, rx, fn):
        self.prims.append((re.compile(rx), fn))
        self.pcache.clear()

    def find_prim(self, name, fi):
        if name in self.pcache:
            return self.pcache[name]
        dem = fi['dem'] if fi else name
        r = None
        for rx, fn in reversed(self.prims):
            if rx.search(dem):
                r = fn
                break
        self.pcache[name] = r
        return r

    # --------------------------------------------------------------- objects
    def new_obj(self, st, size, default, tag):
        st.n += 1
        oid = '%s.%d' % (tag, st.n)
        o = Obj(size, default, tag)
        o.owner = st.id
        st.mem[oid] = o
        return oid

    def global_obj(self, st, name):
        oid = '@' + name
        if oid not in st.mem:
            g = self.prog['globals'].get(name)
            if g is None:
                o = Obj(None, 'sym', oid)
            else:
                o = Obj(g['size'], 'sym' if g['ext'] else 'zero', oid)
                for off, size, v in g['init']:
                    if v[0] == 'z':
                        continue
                    if v[0] == 'str':
                        for i, ch in enumerate(v[1]):
                            o.cells[off + i] = (1, ord(ch))
                        continue
                    val = self.konst(st, v)
                    if isinstance(val, tuple) and val[0] == 'A':
                        continue
                    o.cells[off] = (size, val)
            o.owner = -1
            st.mem[oid] = o
        return oid

    def konst(self, st, c):
        k = c[0]
        if k == 'c':
            return c[2]
        if k == 'g':
            if c[1] in self.prog['functions']:
                return ('P', '$' + c[1], c[2])
            if st is not None:
                self.global_obj(st, c[1])
            return ('P', '@' + c[1], c[2])
        if k == 'u':
            return 0
        if k == 'd':
            return ('F', c[1])
        if k == 'zz':
            return self.zero_agg(c[1])
        if k == 'agg':
            return ('A', [self.konst(st, x) for x in c[1:]])
        if k == 'add':
            return self.padd(self.konst(st, c[1]), c[2])
        if k == 'cast':
            return self.konst(st, c[2])
        if k == 'ce':
            if c[1] in ('sub', 'add'):
                return T.binop(c[1], self.konst(st, c[2]), self.konst(st, c[3]), 64)
            return ('S', 64, 'constexpr:' + repr(c))
        return ('S', 64, 'const?')

    def zero_agg(self, ty):
        if isinstance(ty, list) and ty[0] == 's':
            return ('A', [self.zero_agg(t[1]) for t in ty[1:]])
        if isinstance(ty, list) and ty[0] == 'a':
            return ('A', [self.zero_agg(ty[3]) for _ in range(ty[1])])
        return 0

    def padd(self, p, off):
        if isinstance(off, int) and off == 0:
            return p
        if isinstance(p, tuple) and p[0] == 'P':
            o = T.add(p[2], off if not isinstance(off, int) else off & T.mask(64), 64)
            if isinstance(o, int):
                o = T.signed(o, 64)
            return ('P', p[1], o)
        return T.add(p, off if not isinstance(off, int) else off & T.mask(64), 64)

    def resolve_ptr(self, st, p):
        """-> (oid, off) or None for null"""
        if isinstance(p, int):
            return None if p < 4096 else ('abs', p)
        p = self.norm(st, p)
        if isinstance(p, int):
            return None if p < 4096 else ('abs', p)
        if p[0] == 'P':
            if p[1] not in st.mem:
                if p[1].startswith('@'):
                    self.global_obj(st, p[1][1:])
                else:
                    raise AnalysisError('unknown object %s' % (p[1],))
            off = p[2]
            if not isinstance(off, int):
                off = self.norm(st, off)
            if isinstance(off, int) and off >= 1 << 63:
                off -= 1 << 64
            return p[1], off
        # opaque base
        c, d = T.lin(p, 64)
        bases = sorted([a for a, k in d.items() if k == 1], key=repr)
        if not bases:
            raise AnalysisError('cannot resolve pointer %s' % T.fmt(p))
        # prefer atoms that are already bases
        b = None
        for a in bases:
            if ('ext', a) in st.user:
                b = a
        if b is None:
            b = bases[0]
        oid = st.user.get(('ext', b))
        if oid is None:
            oid = 'ext<%s>' % T.fmt(b)
            o = Obj(None, 'sym', oid)
            o.owner = st.id
            st.mem[oid] = o
            st.user[('ext', b)] = oid
        d2 = dict(d)
        del d2[b]
        off = T.mklin(c, d2, 64)
        if isinstance(off, int):
            off = T.signed(off, 64)
        return oid, off

    def load(self, st, p, size, w, where=None):
        r = self.resolve_ptr(st, p)
        if r is None:
            st.events.append(('NULLDEREF', 'load', self.where(st)))
            return None
        oid, off = r
        if oid == 'abs':
            return st.fresh(w, 'abs')
        o = st.mem[oid]
        if o.freed:
            st.events.append(('UAF', 'load', o.tag, self.where(st)))
        if not isinstance(off, int):
            hook = getattr(self, 'symload', None)
            if hook:
                v = hook(st, oid, off, size, w)
                if v is not None:
                    return v
            return ('S', w, ('ld', oid, len(o.log), off, size))
        if o.size is not None and isinstance(o.size, int) and (off < 0 or off + size > o.size):
            st.events.append(('OOB', 'load', o.tag, off, size, o.size, self.where(st)))
        v = self.load_cells(st, oid, off, size)
        nbits = size * 8
        if isinstance(v, tuple) and v[0] == 'F':
            return v
        if w < nbits and w != 0:
            v = T.slice_(v, nbits, 0, w)
        return v

    def load_cells(self, st, oid, off, size):
        o = st.mem[oid]
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        # assemble
        ps = []
        pos = off
        end = off + size
        over = None
        while pos < end:
            c = o.cells.get(pos)
            if c is None:
                # maybe a wider cell that starts earlier
                hit = None
                for d in range(1, 17):
                    e = o.cells.get(pos - d)
                    if e is not None and e[0] > d:
                        hit = (pos - d, e)
                        break
                if hit:
                    coff, (csz, cv) = hit
                    n = min(end, coff + csz) - pos
                    if isinstance(cv, tuple) and cv[0] == 'F':
                        cv = ('S', csz * 8, ('fbits', cv))
                    ps.extend(T.parts(T.slice_(cv, csz * 8, (pos - coff) * 8, n * 8), n * 8))
                    pos += n
                    continue
                # gap: up to the next cell
                n = 1
                while pos + n < end and (pos + n) not in o.cells:
                    n += 1
                if o.default == 'zero':
                    ps.append((n * 8, 0, 0))
                else:
                    if o.default == 'undef' and not o.log:
                        a = ('S', n * 8, ('uninit', oid, pos, len(o.log)))
                    elif o.log:
                        a = ('S', n * 8, ('ld', oid, len(o.log), pos, n))
                    else:
                        a = ('S', n * 8, ('in', oid, pos, n))
                    wo = st.wobj(oid)
                    wo.cells[pos] = (n, a)
                    o = wo
                    ps.append((n * 8, a, 0))
                pos += n
                continue
            csz, cv = c
            n = min(csz, end - pos)
            if isinstance(cv, tuple) and cv[0] == 'F':
                cv = ('S', csz * 8, ('fbits', cv))
            ps.extend(T.parts(T.slice_(cv, csz * 8, 0, n * 8), n * 8))
            pos += n
        return T.mk(ps)

    gw = None       # when a set: writes to objects with static storage after their initialisation

    def clear_range(self, st, oid, off, size):
        o = st.wobj(oid)
        if self.gw is not None and oid[0] == '@' and not st.user.get('guard'):
            self.gw.add((oid[1:], str(self.where(st))))
        end = off + size
        for k in list(o.cells):
            csz, cv = o.cells[k]
            if k < end and off < k + csz:
                del o.cells[k]
                if isinstance(cv, tuple) and cv[0] == 'F':
                    continue
                if k < off:
                    o.cells[k] = (off - k, T.slice_(cv, csz * 8, 0, (off - k) * 8))
                if k + csz > end:
                    o.cells[end] = (k + csz - end, T.slice_(cv, csz * 8, (end - k) * 8, (k + csz - end) * 8))
        return o

    def store(self, st, v, p, size, w):
        r = self.resolve_ptr(st, p)
        if r is None:
            st.events.append(('NULLDEREF', 'store', self.where(st)))
            return False
        oid, off = r
        if oid == 'abs':
            return True
        o = st.mem[oid]
        if o.freed:
            st.events.append(('UAF', 'store', o.tag, self.where(st)))
        if not isinstance(off, int):
            self.log_write(st, oid, off, size, ('b', off, size, v, self.where(st)))
            return True
        if o.size is not None and isinstance(o.size, int) and (off < 0 or off + size > o.size):
            st.events.append(('OOB', 'store', o.tag, off, size, o.size, self.where(st)))
        if not isinstance(v, tuple) or v[0] not in ('F',):
            if w and w < size * 8:
                v = T.zext(v, w, size * 8)
        o = self.clear_range(st, oid, off, size)
        o.cells[off] = (size, v)
        return True

    def load_ty(self, st, p, ty, size):
        if isinstance(ty, int):
            return self.load(st, p, size, ty)
        if ty == 'p':
            return self.load(st, p, 8, 64)
        if ty in ('d', 'f', 'x'):
            v = self.load(st, p, size, size * 8)
            return v
        if isinstance(ty, list) and ty[0] == 's':
            out = []
            for off, t in ty[1:]:
                out.append(self.load_ty(st, self.padd(p, off), t, self.tsize(t)))
            return ('A', out)
        raise AnalysisError('load type %r' % (ty,))

    def tsize(self, t):
        if isinstance(t, int):
            return (t + 7) // 8
        if t == 'p' or t == 'd':
            return 8
        if t == 'f':
            return 4
        if t == 'x':
            return 16
        if isinstance(t, list) and t[0] == 's':
            if len(t) == 1:
                return 1
            off, lt = t[-1]
            return off + self.tsize(lt)
        if isinstance(t, list) and t[0] == 'a':
            return t[1] * t[2]
        return 8

    def store_ty(self, st, v, p, ty, size):
        if isinstance(ty, list) and ty[0] == 's':
            for i, (off, t) in enumerate(ty[1:]):
                self.store_ty(st, v[1][i] if isinstance(v, tuple) and v[0] == 'A' else 0, self.padd(p, off), t, self.tsize(t))
            return True
        w = ty if isinstance(ty, int) else size * 8
        return self.store(st, v, p, size, w)

    def memcpy(self, st, dst, src, n, move=True):
        n = self.norm(st, n)
        if isinstance(n, int) and n == 0:
            return
        rd = self.resolve_ptr(st, dst)
        rs = self.resolve_ptr(st, src)
        if rd is None or rs is None:
            if not isinstance(n, int):
                # possibly zero length
                st.events.append(('NULLCOPY', n, 'dst' if rd is None else 'src', self.where(st)))
                return
            st.events.append(('NULLDEREF', 'memcpy', self.where(st)))
            return
        (do, doff), (so, soff) = rd, rs
        D, S = st.mem[do], st.mem[so]
        if D.freed or S.freed:
            st.events.append(('UAF', 'memcpy', D.tag if D.freed else S.tag, self.where(st)))
        if isinstance(n, int) and isinstance(doff, int) and isinstance(soff, int) and n <= 4096:
            if S.size is not None and isinstance(S.size, int) and (soff < 0 or soff + n > S.size):
                st.events.append(('OOB', 'memcpy-src', S.tag, soff, n, S.size, self.where(st)))
            if D.size is not None and isinstance(D.size, int) and (doff < 0 or doff + n > D.size):
                st.events.append(('OOB', 'memcpy-dst', D.tag, doff, n, D.size, self.where(st)))
            # collect pieces
            pieces = []
            pos = soff
            while pos < soff + n:
                c = S.cells.get(pos)
                if c is not None and pos + c[0] <= soff + n:
                    pieces.append((pos - soff, c[0], c[1]))
                    pos += c[0]
                else:
                    # up to next cell start or 8 bytes
                    k = 1
                    while pos + k < soff + n and k < 8 and (pos + k) not in S.cells:
                        k += 1
                    v = self.load_cells(st, so, pos, k)
                    S = st.mem[so]
                    pieces.append((pos - soff, k, v))
                    pos += k
            o = self.clear_range(st, do, doff, n)
            for off, sz, v in pieces:
                o.cells[doff + off] = (sz, v)
            return
        srcid = (so, len(S.log), soff)
        self.log_write(st, do, doff, n, ('w', doff, n, srcid, self.where(st)))

    def log_write(self, st, oid, off, n, entry):
        """a write at a symbolic place or of a symbolic length"""
        o = st.wobj(oid)
        lo, hi = -(1 << 63), 1 << 63
        if isinstance(off, int):
            lo, ohi = off, off
        else:
            ohi = 1 << 62
            r = self.alin(st, off, 64, 'u') if not isinstance(off, tuple) or off[0] != 'P' else None
            if r is not None:
                lo, ohi = self.alo(st, r), self.ahi(st, r)
        if isinstance(n, int):
            hi = ohi + n
        else:
            r = self.alin(st, n, 64, 'u')
            if r is not None:
                hi = ohi + self.ahi(st, r)
        gone = [k for k, (sz, v) in o.cells.items() if k < hi and lo < k + sz]
        for k in sorted(gone):
            sz, v = o.cells.pop(k)
            if isinstance(v, tuple):
                if v[0] in 'FP':
                    continue
                i = v[2] if v[0] == 'S' and isinstance(v[2], tuple) else (None, None)
                if i[1] == oid and (i[0] in ('in', 'uninit') and not o.log or i[0] == 'ld' and i[2] == len(o.log)):
                    continue
            o.log = o.log + (('b', k, sz, v, entry[-1]),)
        o.log = o.log + (entry,)
        if o.default == 'zero':
            o.default = 'sym'

    def memset(self, st, dst, val, n):
        n = self.norm(st, n)
        if isinstance(n, int) and n == 0:
            return
        r = self.resolve_ptr(st, dst)
        if r is None:
            st.events.append(('NULLDEREF', 'memset', self.where(st)))
            return
        oid, off = r
        o = st.mem[oid]
        if isinstance(n, int) and isinstance(off, int) and n <= 65536 and isinstance(val, int):
            if o.size is not None and isinstance(o.size, int) and (off < 0 or off + n > o.size):
                st.events.append(('OOB', 'memset', o.tag, off, n, o.size, self.where(st)))
            o = self.clear_range(st, oid, off, n)
            i = 0
            b = val & 255
            while i < n:
                k = 8 if n - i >= 8 else n - i
                o.cells[off + i] = (k, int.from_bytes(bytes([b]) * k, 'little'))
                i += k
            return
        self.log_write(st, oid, off, n, ('s', off, n, val, self.where(st)))

    # ------------------------------------------------------------ conditions
    def norm(self, st, v):
        """apply the facts of the state to a term"""
        if isinstance(v, int) or not st.known:
            return v
        if v in st.known:
            return st.known[v]
        k = v[0]
        if k == 'B':
            ch = False
            ps = []
            for (n, a, lo) in v[2]:
                if not isinstance(a, int):
                    b = st.known.get(a)
                    if b is not None:
                        a = b
                        ch = True
                    else:
                        sl = ('B', n, ((n, a, lo),))
                        b = st.known.get(sl)
                        if b is not None:
                            a, lo, ch = b, 0, True
                ps.append((n, a, lo))
            return T.mk(ps) if ch else v
        if k == 'L':
            ch = False
            c, d = v[2], {}
            for q, a in v[3]:
                b = self.norm(st, a)
                if b != a:
                    ch = True
                    c2, d2 = T.lin(b, v[1])
                    c += c2 * q
                    for x, y in d2.items():
                        d[x] = d.get(x, 0) + y * q
                else:
                    d[a] = d.get(a, 0) + q
            return T.mklin(c, d, v[1]) if ch else v
        if k == 'T' and v[2] == 'sext' and isinstance(v[4], tuple):
            b = self.norm(st, v[4])
            if b != v[4]:
                return T.sext(b, v[3], v[1])
        return v

    def decide(self, st, c):
        """-> True/False/None for an i1 term"""
        if isinstance(c, int):
            return bool(c & 1)
        c = self.norm(st, c)
        if isinstance(c, int):
            return bool(c & 1)
        if c[0] == 'C':
            return self.cmp(st, c[2], c[3], c[4], c[5])
        if c[0] == 'T' and c[2] == 'not':
            r = self.decide(st, c[3])
            return None if r is None else not r
        if c[0] == 'T' and c[2] in ('and', 'or'):
            a, b = self.decide(st, c[3]), self.decide(st, c[4])
            if c[2] == 'and':
                if a is False or b is False:
                    return False
                if a and b:
                    return True
            else:
                if a or b:
                    return True
                if a is False and b is False:
                    return False
            return None
        if c[0] == 'B' and len(c[2]) == 1:
            # one bit of something
            n, a, lo = c[2][0]
            if not isinstance(a, int) and a[0] == 'C' and lo == 0:
                return self.cmp(st, a[2], a[3], a[4], a[5])
        return None

    def split(self, st, c):
        """-> (atomic condition, polarity) to fork on, first undecided leaf"""
        c = self.norm(st, c)
        if isinstance(c, tuple) and c[0] == 'T' and c[2] == 'not':
            return self.split(st, c[3])
        if isinstance(c, tuple) and c[0] == 'T' and c[2] in ('and', 'or', 'xor') and c[1] == 1:
            if self.decide(st, c[3]) is None:
                return self.split(st, c[3])
            return self.split(st, c[4])
        if isinstance(c, tuple) and c[0] == 'T' and c[2] == 'sel1':
            return self.split(st, c[3])
        return c

    @staticmethod
    def strip0(t):
        """(narrower term, its width) of a zero extended concatenation"""
        if isinstance(t, tuple) and t[0] == 'B' and len(t[2]) > 1 and t[2][-1][1] == 0 and isinstance(t[2][-1][1], int):
            return T.mk(list(t[2][:-1])), t[1] - t[2][-1][0]
        return None

    def ival(self, st, t, w):
        """(ulo, uhi, slo, shi)"""
        if isinstance(t, int):
            s = T.signed(t, w)
            return t, t, s, s
        r = st.iv.get(t)
        full = (0, T.mask(w), -(1 << (w - 1)), (1 << (w - 1)) - 1)
        if r is None:
            r = full
        if t[0] == 'B':
            # structural bound: value <= sum of ones, >= const parts
            hi = 0
            lo = 0
            pos = 0
            for n, a, l in t[2]:
                if isinstance(a, int):
                    hi |= a << pos
                    lo |= a << pos
                else:
                    if l == 0 and len(t[2]) <= 2 and a[0] != 'P' and a[1] == n:
                        q = st.iv.get(a)
                        if q:
                            hi += q[1] << pos
                            lo += q[0] << pos
                        else:
                            hi |= T.mask(n) << pos
                    else:
                        hi |= T.mask(n) << pos
                pos += n
            ulo, uhi = max(r[0], lo), min(r[1], hi)
            slo, shi = r[2], r[3]
            s0 = self.strip0(t)
            if s0:
                q = st.iv.get(s0[0])
                if q:
                    ulo, uhi = max(ulo, q[0]), min(uhi, q[1])
            if uhi < (1 << (w - 1)):
                slo, shi = max(slo, ulo), min(shi, uhi)
            elif ulo >= (1 << (w - 1)):
                slo, shi = max(slo, ulo - (1 << w)), min(shi, uhi - (1 << w))
            return ulo, uhi, slo, shi
        if t[0] == 'T' and t[2] == 'sext':
            q = self.ival(st, t[4], t[3])
            return r[0], r[1], max(r[2], q[2]), min(r[3], q[3])
        if t[0] == 'T' and t[2] == 'not':
            q = self.ival(st, t[3], w)
            m = T.mask(w)
            return max(r[0], m - q[1]), min(r[1], m - q[0]), max(r[2], -1 - q[3]), min(r[3], -1 - q[2])
        if t[0] == 'P':
            return max(r[0], 4096), r[1], r[2], r[3]
        return r

    # -------------------------------------------------- affine inequalities
    def alin(self, st, t, w, sg, check=True):
        """exact integer affine form (c, {key: coef}) of the value of t read as
        unsigned ('u') or signed ('s'); None when it may wrap"""
        if isinstance(t, int):
            return (t & T.mask(w) if sg == 'u' else T.signed(t & T.mask(w), w)), {}
        if not check:
            # exact form up to multiples of 2^w
            if t[0] == 'L':
                c, d = T.signed(t[2], w), {}
                for k, a in t[3]:
                    r = self.alin(st, a, w, 's', True) or self.alin(st, a, w, 'u', True)
                    if r is None:
                        return None
                    k = T.signed(k, w)
                    c += k * r[0]
                    for x, y in r[1].items():
                        d[x] = d.get(x, 0) + k * y
                return c, d
            return self.alin(st, t, w, 's', True) or self.alin(st, t, w, 'u', True)
        n = st.known.get(t)
        if isinstance(n, int):
            return self.alin(st, n, w, sg)
        k0 = t[0]
        if k0 == 'B':
            ps = t[2]
            n0, a, lo = ps[0]
            if lo == 0 and not isinstance(a, int) and all(isinstance(p[1], int) and p[1] == 0 for p in ps[1:]):
                aw = T.width(a)
                if aw == n0:
                    if len(ps) == 1:
                        return self.alin(st, a, n0, sg)
                    r = self.alin(st, a, n0, 'u')
                    if r is None and a[0] == 'L':
                        r = self._atom(a, n0, 'u', self.ival(st, a, n0))
                    return r
                r = self.alin(st, a, aw, 'u')
                if r is not None:
                    hi = self.ahi(st, r)
                    lim = T.mask(n0) if (len(ps) > 1 or sg == 'u') else T.mask(n0 - 1)
                    if hi is not None and hi <= lim:
                        return r
                if len(ps) == 1 and sg == 's' and aw > n0:
                    r = self.alin(st, a, aw, 's')
                    if r is not None and r[1] and self.ahi(st, r) < (1 << (n0 - 1)) and self.alo(st, r) >= -(1 << (n0 - 1)):
                        return r
            s0 = self.strip0(t)
            if s0:
                return self.alin(st, s0[0], s0[1], 'u')
            i = self.ival(st, t, w)
            return self._atom(t, w, sg, i)
        if k0 == 'L':
            r = self.alin(st, t, w, sg, False)
            if r is None:
                return None
            lo, hi = self.alo(st, r), self.ahi(st, r)
            if sg == 'u' and lo >= 0 and hi <= T.mask(w):
                return r
            if sg == 's' and lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
                return r
            return None
        if k0 == 'T' and t[2] == 'sext' and sg == 's':
            return self.alin(st, t[4], t[3], 's')
        if k0 == 'T' and t[2] == 'sext':
            r = self.alin(st, t[4], t[3], 's')
            return r if r is not None and self.alo(st, r) >= 0 else None
        if k0 == 'T' and t[2] == 'not':
            r = self.alin(st, t[3], w, sg)
            if r is None:
                return None
            c = -1 if sg == 's' else T.mask(w)
            return c - r[0], {x: -y for x, y in r[1].items()}
        if k0 == 'P':
            return None
        return self._atom(t, w, sg, self.ival(st, t, w))

    def _atom(self, t, w, sg, i):
        if i[1] < (1 << (w - 1)):
            return 0, {('n', w, t): 1}
        return 0, {(sg, w, t): 1}

    def _ib(self, st, r):
        """interval lower bound of an affine form"""
        lo = r[0]
        for (sg, w, t), k in r[1].items():
            n = st.known.get(t)
            if isinstance(n, int):
                lo += k * (T.signed(n, w) if sg == 's' else n)
                continue
            i = self.ival(st, t, w)
            l, h = (i[2], i[3]) if sg == 's' else (i[0], i[1])
            lo += k * (l if k > 0 else h)
        return lo

    @staticmethod
    def _asub(a, b):
        d = dict(a[1])
        for x, k in b[1].items():
            v = d.get(x, 0) - k
            if v:
                d[x] = v
            else:
                d.pop(x, None)
        return a[0] - b[0], d

    def alo(self, st, r, depth=2):
        best = self._ib(st, r)
        if depth and r[1]:
            keys = set(r[1])
            for f in st.facts:
                if keys & set(f[1]):
                    q = self._asub(r, f)
                    if len(q[1]) <= len(r[1]) + 1:
                        v = self.alo(st, q, depth - 1)
                        if v > best:
                            best = v
        return best

    def ahi(self, st, r):
        return -self.alo(st, (-r[0], {x: -k for x, k in r[1].items()}))

    def adiff(self, st, w, a, b, sg):
        if T.is_ptr(a) or T.is_ptr(b):
            return None
        if sg == 'e':
            d = T.sub(a, b, w)
            if T.is_ptr(d):
                return None
            r = self.alin(st, d, w, 's', False)
            if r is None:
                return None
            lo, hi = self.alo(st, r), self.ahi(st, r)
            if lo > -(1 << w) and hi < (1 << w):
                return r, lo, hi
            return None
        x = self.alin(st, a, w, sg)
        if x is None:
            return None
        y = self.alin(st, b, w, sg)
        if y is None:
            return None
        r = self._asub(x, y)
        return r, self.alo(st, r), self.ahi(st, r)

    def acmp(self, st, pred, w, a, b):
        if w < 8:
            return None
        r = self.adiff(st, w, a, b, 'e' if pred in ('eq', 'ne') else pred[0])
        if r is None:
            return None
        r, lo, hi = r
        if pred in ('eq', 'ne'):
            if lo > 0 or hi < 0:
                return pred == 'ne'
            if lo == 0 and hi == 0:
                return pred == 'eq'
            return None
        p = pred[1:]
        if p == 'lt':
            return True if hi < 0 else False if lo >= 0 else None
        if p == 'le':
            return True if hi <= 0 else False if lo > 0 else None
        if p == 'gt':
            return True if lo > 0 else False if hi <= 0 else None
        return True if lo >= 0 else False if hi < 0 else None

    def afact(self, st, pred, w, a, b):
        if w < 8:
            return
        r = self.adiff(st, w, a, b, 'e' if pred in ('eq', 'ne') else pred[0])
        if r is None:
            return
        r, lo, hi = r
        if len(r[1]) == 0 or len(r[1]) > 6:
            return
        neg = (-r[0], {x: -k for x, k in r[1].items()})
        p = pred[1:] if pred not in ('eq', 'ne') else pred
        add = []
        if p in ('ge', 'eq'):
            add.append(r)
        if p in ('le', 'eq'):
            add.append(neg)
        if p == 'gt' or p == 'ne' and lo == 0:
            add.append((r[0] - 1, r[1]))
        if p == 'lt' or p == 'ne' and hi == 0:
            add.append((neg[0] - 1, neg[1]))
        for f in add:
            if f not in st.facts:
                st.facts = st.facts + (f,)

    def cmp(self, st, pred, w, a, b):
        if T.is_ptr(a) and T.is_ptr(b) and a[0] == 'P' == b[0] and a[1] == b[1]:
            a, b, w = a[2], b[2], 64
        r = self.cmp0(st, pred, w, a, b)
        if r is None and not T.is_ptr(a) and not T.is_ptr(b):
            r = self.acmp(st, pred, w, self.norm(st, a), self.norm(st, b))
        return r

    def cmp0(self, st, pred, w, a, b):
        a, b = self.norm(st, a), self.norm(st, b)
        if isinstance(a, int) and isinstance(b, int):
            return T.const_cmp(pred, a & T.mask(w), b & T.mask(w), w)
        if a == b:
            return pred in ('eq', 'ule', 'uge', 'sle', 'sge')
        c = ('C', 1, pred, w, a, b)
        if c in st.known:
            return bool(st.known[c])
        pa, pb = T.is_ptr(a), T.is_ptr(b)
        if pa or pb:
            if pa and isinstance(b, int) and b == 0 or pb and isinstance(a, int) and a == 0:
                return {'eq': False, 'ne': True, 'ugt': pa, 'ult': pb, 'uge': pa, 'ule': pb}.get(pred)
            if pa and pb:
                if a[1] == b[1]:
                    if isinstance(a[2], int) and isinstance(b[2], int):
                        return T.const_cmp(pred, a[2] & T.mask(64), b[2] & T.mask(64), 64)
                    return self.cmp(st, pred, 64, a[2], b[2])
                if pred == 'eq':
                    return False
                if pred == 'ne':
                    return True
        if pred in ('eq', 'ne'):
            r = self.eq(st, w, a, b)
            if r is None:
                return None
            return r if pred == 'eq' else not r
        ia, ib = self.ival(st, a, w), self.ival(st, b, w)
        o = 0 if pred[0] == 'u' else 2
        alo, ahi, blo, bhi = ia[o], ia[o + 1], ib[o], ib[o + 1]
        p = pred[1:]
        if p == 'lt':
            if ahi < blo:
                return True
            if alo >= bhi:
                return False
        elif p == 'le':
            if ahi <= blo:
                return True
            if alo > bhi:
                return False
        elif p == 'gt':
            if alo > bhi:
                return True
            if ahi <= blo:
                return False
        elif p == 'ge':
            if alo >= bhi:
                return True
            if ahi < blo:
                return False
        rs = self.getrel(st, pred[0], a, b)
        want = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[p]
        if all(x in want for x in rs):
            return True
        if not any(x in want for x in rs):
            return False
        bf = self.bitform(pred, w, a, b)
        if bf is not None:
            d = bf[0] & 1 if isinstance(bf[0], int) else self.decide(st, bf[0])
            if d is not None:
                return bool(d) == bf[1]
        return None

    def bitform(self, pred, w, a, b):
        """(bit, positive) when an order comparison asks for one bit: the
        comparison holds exactly when the bit is set (clear)"""
        if isinstance(a, int):
            a, b = b, a
            pred = {'ult': 'ugt', 'ule': 'uge', 'ugt': 'ult', 'uge': 'ule',
                    'slt': 'sgt', 'sle': 'sge', 'sgt': 'slt', 'sge': 'sle'}.get(pred)
        if pred is None or pred in ('eq', 'ne') or not isinstance(b, int) or isinstance(a, int) or T.is_ptr(a):
            return None
        ps = T.parts(a, w)
        top = w
        while ps and isinstance(ps[-1][1], int) and not (ps[-1][1] >> ps[-1][2]) & T.mask(ps[-1][0]):
            top -= ps[-1][0]
            ps = ps[:-1]
        if not ps or isinstance(ps[-1][1], int):
            return None
        if pred[0] == 's':
            if top == w:
                if pred in ('slt', 'sge') and b == 0 or pred in ('sle', 'sgt') and b == T.mask(w):
                    return T.slice_(a, w, w - 1, 1), pred in ('slt', 'sle')
                return None
            if b >> (w - 1):
                return None
        th = b + (pred[1:] in ('gt', 'le'))
        if th != 1 << (top - 1):
            return None
        return T.slice_(a, w, top - 1, 1), pred[1:] in ('gt', 'ge')

    def eq(self, st, w, a, b):
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            if b in st.ne.get(a, ()):
                return False
            i = self.ival(st, a, w)
            if not (i[0] <= b <= i[1]):
                return False
            sb = T.signed(b, w)
            if not (i[2] <= sb <= i[3]):
                return False
            if a[0] == 'B':
                pos = 0
                sym = []
                for n, x, lo in a[2]:
                    bb = (b >> pos) & T.mask(n)
                    if isinstance(x, int):
                        if x != bb:
                            return False
                    else:
                        sym.append((n, x, lo, bb))
                    pos += n
                if len(sym) == 1:
                    n, x, lo, bb = sym[0]
                    t = T.mk([(n, x, lo)])
                    if t != a:
                        if n == 1:
                            r = self.decide(st, t)
                            if r is None:
                                return None
                            return r == bool(bb)
                        return self.eq(st, n, t, bb)
                else:
                    for n, x, lo, bb in sym:
                        t = T.mk([(n, x, lo)])
                        if n == 1:
                            r = self.decide(st, t)
                            if r is not None and r != bool(bb):
                                return False
                        else:
                            r = self.eq(st, n, t, bb)
                            if r is False:
                                return False
            if a[0] == 'L' and len(a[3]) == 1 and a[3][0][0] in (1, T.mask(w)):
                k, x = a[3][0]
                if k == 1:
                    return self.eq(st, w, x, (b - a[2]) & T.mask(w))
                return self.eq(st, w, x, (a[2] - b) & T.mask(w))
            if a[0] == 'T' and a[2] == 'sext':
                lowv = b & T.mask(a[3])
                if T.sext(lowv, a[3], w) != b:
                    return False
                return self.eq(st, a[3], a[4], lowv)
            return None
        # both symbolic
        d = T.sub(a, b, w)
        if isinstance(d, int):
            return d == 0
        # parallel widening
        ua, ub = self.unwrap(a), self.unwrap(b)
        if ua and ub and ua[0] == ub[0] and ua[1] == ub[1]:
            return self.eq(st, ua[1], ua[2], ub[2])
        if ua and ub and ua[0] == 'z' and ub[0] == 'z' and ua[1] != ub[1]:
            pass
        for k in ('u', 's'):
            rs = self.getrel(st, k, a, b)
            if rs == '=':
                return True
            if '=' not in rs:
                return False
        if d in st.ne and 0 in st.ne[d]:
            return False
        dn = self.norm(st, d)
        if isinstance(dn, int):
            return dn == 0
        return None

    def unwrap(self, a):
        if a[0] == 'B' and len(a[2]) == 2 and isinstance(a[2][1][1], int) and a[2][1][1] == 0 and a[2][0][2] == 0:
            n, x, lo = a[2][0]
            if not isinstance(x, int):
                return ('z', n, T.mk([(n, x, 0)]))
        if a[0] == 'T' and a[2] == 'sext':
            return ('s', a[3], a[4])
        return None

    def getrel(self, st, kind, a, b):
        sw = False
        ra, rb = repr(a), repr(b)
        if ra > rb:
            a, b, sw = b, a, True
        r = st.rel.get((kind, a, b), '<=>')
        if sw:
            r = ''.join({'<': '>', '>': '<', '=': '='}[x] for x in r)
        return r

    def setrel(self, st, kind, a, b, allow):
        r = self.getrel(st, kind, a, b)
        n = ''.join(x for x in '<=>' if x in r and x in allow)
        if not n:
            return False
        ra, rb = repr(a), repr(b)
        if ra > rb:
            a, b = b, a
            n = ''.join({'<': '>', '>': '<', '=': '='}[x] for x in n)
        st.rel[(kind, a, b)] = n
        return True

    def assume(self, st, c, val):
        """record that the atomic i1 term c has value val; False if infeasible"""
        c = self.norm(st, c)
        if isinstance(c, int):
            return bool(c & 1) == val
        d = self.decide(st, c)
        if d is not None:
            return d == val
        if c[0] == 'T' and c[2] == 'not':
            return self.assume(st, c[3], not val)
        if c[0] == 'C':
            pred, w, a, b = c[2], c[3], c[4], c[5]
            a, b = self.norm(st, a), self.norm(st, b)
            st.known[c] = int(val)
            if not val:
                pred = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt',
                        'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}.get(pred)
                if pred is None:
                    return True
            bf = self.bitform(pred, w, a, b)
            if bf is not None and not isinstance(bf[0], int) and bf[0][0] in 'BS' and not self.assume(st, bf[0], bf[1]):
                return False
            return self.assume_cmp(st, pred, w, a, b)
        if c[0] == 'B' and len(c[2]) == 1:
            n, a, lo = c[2][0]
            if not isinstance(a, int) and a[0] == 'C':
                return self.assume(st, a, val)
        st.known[c] = int(val)
        return True

    def assume_cmp(self, st, pred, w, a, b):
        if T.is_ptr(a) and T.is_ptr(b) and a[0] == 'P' == b[0] and a[1] == b[1]:
            return self.assume_cmp(st, pred, 64, a[2], b[2])
        if isinstance(a, int) and isinstance(b, int):
            return T.const_cmp(pred, a & T.mask(w), b & T.mask(w), w)
        if not T.is_ptr(a) and not T.is_ptr(b):
            self.afact(st, pred, w, a, b)
        return self.assume_cmp0(st, pred, w, a, b)

    def assume_cmp0(self, st, pred, w, a, b):
        if isinstance(a, int) and not isinstance(b, int):
            a, b = b, a
            pred = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ule': 'uge', 'ugt': 'ult', 'uge': 'ule',
                    'slt': 'sgt', 'sle': 'sge', 'sgt': 'slt', 'sge': 'sle'}[pred]
        if isinstance(b, int):
            u = self.unwrap(a)
            if pred == 'eq':
                if isinstance(a, tuple) and a[0] == 'L' and len(a[3]) == 1 and a[3][0][0] in (1, T.mask(w)):
                    k, x = a[3][0]
                    return self.assume_cmp(st, 'eq', w, x, ((b - a[2]) if k == 1 else (a[2] - b)) & T.mask(w))
                if a[0] == 'B':
                    pos = 0
                    for n, x, lo in a[2]:
                        bb = (b >> pos) & T.mask(n)
                        if isinstance(x, int):
                            if x != bb:
                                return False
                        else:
                            t = T.mk([(n, x, lo)])
                            if t != a and n == 1:
                                if not self.assume(st, t, bool(bb)):
                                    return False
                            elif t != a:
                                if not self.assume_cmp(st, 'eq', n, t, bb):
                                    return False
                            else:
                                st.known[a] = b
                        pos += n
                    return True
                if a[0] == 'T' and a[2] == 'sext':
                    if not self.assume_cmp(st, 'eq', a[3], a[4], b & T.mask(a[3])):
                        return False
                if a[0] == 'C' and w == 1:
                    return self.assume(st, a, bool(b))
                st.known[a] = b
                return True
            if pred == 'ne':
                if a[0] == 'L' and len(a[3]) == 1 and a[3][0][0] in (1, T.mask(w)):
                    k, x = a[3][0]
                    return self.assume_cmp(st, 'ne', w, x, ((b - a[2]) if k == 1 else (a[2] - b)) & T.mask(w))
                if u:
                    if u[0] == 'z' and b <= T.mask(u[1]):
                        return self.assume_cmp(st, 'ne', u[1], u[2], b)
                    if u[0] == 's':
                        return self.assume_cmp(st, 'ne', u[1], u[2], b & T.mask(u[1]))
                if a[0] == 'B':
                    syms = []
                    pos = 0
                    for n, x, lo in a[2]:
                        bb = (b >> pos) & T.mask(n)
                        if isinstance(x, int):
                            if x != bb:
                                return True
                        else:
                            syms.append((n, x, lo, bb))
                        pos += n
                    if len(syms) == 1:
                        n, x, lo, bb = syms[0]
                        t = T.mk([(n, x, lo)])
                        if t != a:
                            if n == 1:
                                return self.assume(st, t, not bool(bb))
                            return self.assume_cmp(st, 'ne', n, t, bb)
                    s0 = self.strip0(a)
                    if s0 and b <= T.mask(s0[1]):
                        return self.assume_cmp(st, 'ne', s0[1], s0[0], b)
                st.ne[a] = st.ne.get(a, frozenset()) | {b}
                # tighten interval ends
                return self.tighten(st, a, w)
            # order against constant
            s0 = self.strip0(a)
            if s0 and pred[0] == 'u' and b <= T.mask(s0[1]):
                return self.assume_cmp(st, pred, s0[1], s0[0], b)
            if u and u[0] == 'z':
                if pred[0] == 'u' or b < (1 << (w - 1)):
                    if b <= T.mask(u[1]):
                        return self.assume_cmp(st, 'u' + pred[1:], u[1], u[2], b)
                    return True
                return True
            if u and u[0] == 's' and pred[0] == 's':
                sb = T.signed(b, w)
                if -(1 << (u[1] - 1)) <= sb < (1 << (u[1] - 1)):
                    return self.assume_cmp(st, pred, u[1], u[2], sb & T.mask(u[1]))
                return True
            i = list(st.iv.get(a, (0, T.mask(w), -(1 << (w - 1)), (1 << (w - 1)) - 1)))
            k = 0 if pred[0] == 'u' else 2
            bb = b if k == 0 else T.signed(b, w)
            p = pred[1:]
            if p == 'lt':
                i[k + 1] = min(i[k + 1], bb - 1)
            elif p == 'le':
                i[k + 1] = min(i[k + 1], bb)
            elif p == 'gt':
                i[k] = max(i[k], bb + 1)
            else:
                i[k] = max(i[k], bb)
            h = 1 << (w - 1)
            if i[1] < h:
                i[2], i[3] = max(i[2], i[0]), min(i[3], i[1])
            if i[2] >= 0:
                i[0], i[1] = max(i[0], i[2]), min(i[1], i[3])
            if i[0] > i[1] or i[2] > i[3]:
                return False
            st.iv[a] = tuple(i)
            return self.tighten(st, a, w)
        ua, ub = self.unwrap(a), self.unwrap(b)
        if ua and ub and ua[0] == ub[0] and ua[1] == ub[1] and (ua[0] == 's' or True):
            if pred in ('eq', 'ne') or ua[0] == 'z':
                p2 = pred if pred in ('eq', 'ne') else 'u' + pred[1:]
                if not self.assume_cmp(st, p2, ua[1], ua[2], ub[2]):
                    return False
        if pred == 'eq':
            ok = self.setrel(st, 'u', a, b, '=') and self.setrel(st, 's', a, b, '=')
            return ok
        if pred == 'ne':
            return self.setrel(st, 'u', a, b, '<>') and self.setrel(st, 's', a, b, '<>')
        allow = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[pred[1:]]
        if not self.setrel(st, pred[0], a, b, allow):
            return False
        r = self.getrel(st, pred[0], a, b)
        if '=' not in r:
            return self.setrel(st, 's' if pred[0] == 'u' else 'u', a, b, '<>')
        return True

    def tighten(self, st, a, w):
        ex = st.ne.get(a)
        i = st.iv.get(a)
        if not ex:
            if i and i[0] == i[1]:
                st.known[a] = i[0]
            return True
        i = list(i or (0, T.mask(w), -(1 << (w - 1)), (1 << (w - 1)) - 1))
        while i[0] in ex:
            i[0] += 1
        while i[1] in ex:
            i[1] -= 1
        while (i[2] & T.mask(w)) in ex:
            i[2] += 1
        while (i[3] & T.mask(w)) in ex:
            i[3] -= 1
        if i[0] > i[1] or i[2] > i[3]:
            return False
        st.iv[a] = tuple(i)
        if i[0] == i[1]:
            st.known[a] = i[0]
        return True

    # ------------------------------------------------------------- reporting
    def where(self, st):
        for f in reversed(st.frames):
            fi = f.fn
            bb = fi['bb'][f.bb]
            ip = min(f.ip, len(bb) - 1)
            line = bb[ip][3]
            return '%s:%s' % (short(fi.get('file', '?')), line or fi.get('line', '?'))
        return '?'

    def callpath(self, st):
        return [(short(f.fn.get('file', '?')), f.fn['bb'][f.bb][min(f.ip, len(f.fn['bb'][f.bb]) - 1)][3], f.fn['dem'][:120]) for f in st.frames]

    # ------------------------------------------------------------- execution
    SOFT = False

    def run(self, st, name, args, budget=None):
        """interpret function `name`; returns list of Outcome"""
        fi = self.prog['functions'].get(name)
        if fi is None or fi['decl']:
            raise AnalysisError('no definition of %s' % name)
        saved = st.frames
        st.frames = []
        self.push(st, fi, args)
        out = []
        work = [st]
        limit = budget or self.MAXSTEPS
        npaths = 0
        while work:
            s = work.pop()
            if time.time() > DEADLINE:
                raise AnalysisError('out of time')
            try:
                r = self.step_until(s, limit)
            except (AnalysisError, TypeError, KeyError, IndexError, AttributeError, ValueError) as x:
                err = x
                if not isinstance(x, AnalysisError):
                    err = AnalysisError('%s: %s at %s' % (type(x).__name__, str(x)[:80], self.where(s)))
                err.events = err.events or list(s.events)
                if not self.SOFT:
                    raise err from x
                # the path is not followed any further; what happened on it before counts
                r = Outcome('trap' if broken(err) else 'cut', s, str(err))
            for x in (r if isinstance(r, list) else [r]):
                if isinstance(x, Outcome):
                    out.append(x)
                    npaths += 1
                    if npaths > 4000:
                        raise AnalysisError('too many paths in %s' % fi['dem'])
                else:
                    work.append(x)
        for o in out:
            o.state.frames = [f.copy() for f in saved]
        self.total_paths += len(out)
        return out

    def push(self, st, fi, args):
        loc = [None] * fi['n']
        for i, a in enumerate(args):
            if i < len(fi['args']):
                loc[i] = a
        st.frames.append(Frame(fi, loc))
        self.visited_fns.add(fi['dem'])
        if len(st.frames) > 200:
            raise AnalysisError('recursion too deep at %s' % fi['dem'])

    def val(self, st, f, x):
        if isinstance(x, int):
            return f.loc[x]
        return self.konst(st, x)

    def jump(self, st, f, to):
        f.prev = f.bb
        f.bb = to
        f.ip = 0
        # phis
        bb = f.fn['bb'][to]
        vals = []
        i = 0
        while i < len(bb) and bb[i][0] == 'phi':
            for (pb, v) in bb[i][4]:
                if pb == f.prev:
                    vals.append((bb[i][1], self.val(st, f, v)))
                    break
            i += 1
        for r, v in vals:
            f.loc[r] = v
        f.ip = i

    def step_until(self, st, limit):
        while True:
            if not st.frames:
                raise AnalysisError('no frame')
            f = st.frames[-1]
            ins = f.fn['bb'][f.bb][f.ip]
            st.steps += 1
            self.total_steps += 1
            if not self.total_steps & 16383 and time.time() > DEADLINE:
                raise AnalysisError('out of time')
            if st.steps > limit:
                self.cuts += 1
                return Outcome('cut', st, 'step limit in ' + f.fn['dem'][:100])
            r = self.exec1(st, f, ins)
            if r is None:
                continue
            return r

    def unwind(self, st, exc):
        """propagate exc; returns None (continue) or Outcome"""
        while st.frames:
            f = st.frames[-1]
            if f.invoke is not None:
                dest = f.invoke
                f.invoke = None
                st.exc = exc
                self.jump(st, f, dest)
                lp = f.fn['bb'][dest][f.ip]
                if lp[0] != 'landingpad':
                    raise AnalysisError('no landingpad')
                sel = self.match_clauses(exc, lp[5])
                if sel is None and not lp[4]:
                    st.frames.pop()
                    continue
                f.loc[lp[1]] = ('A', [('P', exc['obj'], 0) if exc.get('obj') else ('S', 64, 'exc'), sel or 0])
                f.ip += 1
                return None
            st.frames.pop()
        return Outcome('throw', st, exc)

    def typeid(self, name):
        if name not in self.typeids:
            self.typeids[name] = len(self.typeids) + 1
        return self.typeids[name]

    def ti_bases(self, name, seen=None):
        seen = seen if seen is not None else set()
        if name in seen:
            return seen
        seen.add(name)
        g = self.prog['globals'].get(name)
        if g:
            for off, size, v in g['init']:
                if v[0] == 'g' and v[1].startswith('_ZTI'):
                    self.ti_bases(v[1], seen)
        return seen

    def match_clauses(self, exc, clauses):
        bases = set()
        for t in exc.get('ti', ()):
            self.ti_bases(t, bases)
        for c in clauses:
            if c[0] == 'c' or (c[0] == 'cast'):
                return self.typeid('<catchall>')
            if c[0] == 'g':
                if c[1] in bases or exc.get('any'):
                    return self.typeid(c[1])
        return None

    def do_ret(self, st, v):
        f = st.frames.pop()
        if not st.frames:
            return Outcome('ret', st, v)
        c = st.frames[-1]
        ins = c.fn['bb'][c.bb][c.ip]
        if ins[1] >= 0:
            c.loc[ins[1]] = v
        c.invoke = None
        if ins[0] == 'invoke':
            self.jump(st, c, ins[7])
        else:
            c.ip += 1
        return None

    def finish_call(self, st, f, ins, v):
        if ins[1] >= 0:
            f.loc[ins[1]] = v
        f.invoke = None
        if ins[0] == 'invoke':
            self.jump(st, f, ins[7])
        else:
            f.ip += 1

    def exec1(self, st, f, ins):
        op = ins[0]
        if op == 'br':
            if ins[4] is None:
                self.jump(st, f, ins[5])
                return None
            c = self.val(st, f, ins[4])
            d = self.decide(st, c)
            if d is not None:
                # widening: concrete loops are bounded by the step limit
                self.jump(st, f, ins[5] if d else ins[6])
                return None
            key = (f.bb,)
            n = f.visits.get(key, 0) + 1
            f.visits[key] = n
            if n > self.loopcut:
                self.cuts += 1
                return Outcome('cut', st, 'loop bound in %s' % f.fn['dem'][:100])
            leaf = self.split(st, c)
            if self.uninit_check and uninit_in(leaf):
                st.events.append(('UNINIT', 'control depends on memory never initialised', self.where(st)))
                if self.assume(st, leaf, False):
                    return [st]
                return []
            s2 = st.fork()
            out = []
            w = self.where(st)
            for s, v in ((st, True), (s2, False)):
                if self.assume(s, leaf, v):
                    if self.trace_branches:
                        s.path.append((w, T.fmt(leaf), v))
                    out.append(s)
            return out
        if op in ('icmp',):
            a, b = self.val(st, f, ins[5]), self.val(st, f, ins[6])
            w = ins[7] if isinstance(ins[7], int) else 64
            f.loc[ins[1]] = self.icmp(st, ins[4], w, a, b)
            f.ip += 1
            return None
        if op == 'load':
            p = self.val(st, f, ins[4])
            v = self.load_ty(st, p, ins[2], ins[5])
            if v is None:
                return Outcome('trap', st, 'null dereference')
            f.loc[ins[1]] = v
            f.ip += 1
            return None
        if op == 'store':
            v, p = self.val(st, f, ins[4]), self.val(st, f, ins[5])
            if not self.store_ty(st, v, p, ins[7], ins[6]):
                return Outcome('trap', st, 'null dereference')
            f.ip += 1
            return None
        if op == 'getelementptr':
            p = self.val(st, f, ins[4])
            off = ins[5]
            p = self.padd(p, off)
            for sc, idx, iw in ins[6]:
                i = self.norm(st, self.val(st, f, idx))
                if iw < 64:
                    i = T.sext(i, iw, 64)
                p = self.padd(p, T.mulc(i, sc, 64))
            f.loc[ins[1]] = p
            f.ip += 1
            return None
        if op in ('call', 'invoke'):
            return self.exec_call(st, f, ins)
        if op == 'ret':
            v = self.val(st, f, ins[4]) if len(ins) > 4 else None
            return self.do_ret(st, v)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a, b = self.norm(st, self.val(st, f, ins[4])), self.norm(st, self.val(st, f, ins[5]))
            f.loc[ins[1]] = T.binop(op, a, b, ins[2])
            f.ip += 1
            return None
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'fptrunc', 'fpext',
                  'sitofp', 'uitofp', 'fptosi', 'fptoui'):
            a = self.norm(st, self.val(st, f, ins[4]))
            fw = ins[5]
            if op == 'zext':
                r = T.zext(a, fw, ins[2])
            elif op == 'sext':
                r = T.sext(a, fw, ins[2])
            elif op == 'trunc':
                if isinstance(a, tuple) and a[0] == 'P':
                    r = ('B', ins[2], ((ins[2], a, 0),))
                else:
                    r = T.slice_(a, fw, 0, ins[2])
            elif op in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast'):
                r = a
            else:
                r = ('T', ins[2] if isinstance(ins[2], int) else 64, op, a)
            f.loc[ins[1]] = r
            f.ip += 1
            return None
        if op == 'alloca':
            n = self.val(st, f, ins[5])
            size = ins[4] * n if isinstance(n, int) else None
            oid = self.new_obj(st, size, 'undef', 'local(%s)' % f.fn['dem'][:40])
            f.loc[ins[1]] = ('P', oid, 0)
            f.ip += 1
            return None
        if op == 'select':
            c = self.val(st, f, ins[4])
            d = self.decide(st, c)
            if d is None:
                leaf = self.split(st, c)
                s2 = st.fork()
                out = []
                for s, v in ((st, True), (s2, False)):
                    if self.assume(s, leaf, v):
                        if self.trace_branches:
                            s.path.append((self.where(s), T.fmt(leaf), v))
                        out.append(s)
                return out
            f.loc[ins[1]] = self.val(st, f, ins[5] if d else ins[6])
            f.ip += 1
            return None
        if op == 'switch':
            c = self.norm(st, self.val(st, f, ins[4]))
            w = ins[7]
            if isinstance(c, int):
                for v, bb in ins[6]:
                    if v == c & T.mask(w):
                        self.jump(st, f, bb)
                        return None
                self.jump(st, f, ins[5])
                return None
            out = []
            dest = {}
            rest = st
            for v, bb in ins[6]:
                r = self.eq(rest, w, c, v)
                if r is False:
                    continue
                s = rest.fork()
                if self.assume_cmp(s, 'eq', w, c, v):
                    s.path.append((self.where(s), 'switch ' + T.fmt(c), v))
                    self.jump(s, s.frames[-1], bb)
                    out.append(s)
                if r is True:
                    return out
                if not self.assume_cmp(rest, 'ne', w, c, v):
                    return out
            rest.path.append((self.where(rest), 'switch ' + T.fmt(c), 'default'))
            self.jump(rest, rest.frames[-1], ins[5])
            out.append(rest)
            return out
        if op == 'extractvalue':
            a = self.val(st, f, ins[4])
            for i in ins[5]:
                a = a[1][i] if isinstance(a, tuple) and a[0] == 'A' else ('S', 64, ('xv', repr(a), i))
            f.loc[ins[1]] = a
            f.ip += 1
            return None
        if op == 'insertvalue':
            a = self.val(st, f, ins[4])
            v = self.val(st, f, ins[5])
            ty = ins[2]
            if not (isinstance(a, tuple) and a[0] == 'A'):
                n = len(ty) - 1 if ty[0] == 's' else ty[1]
                a = ('A', [0] * n)
            a = ('A', list(a[1]))
            if len(ins[6]) == 1:
                a[1][ins[6][0]] = v
            else:
                sub = ('A', list(a[1][ins[6][0]][1]))
                sub[1][ins[6][1]] = v
                a[1][ins[6][0]] = sub
            f.loc[ins[1]] = a
            f.ip += 1
            return None
        if op == 'resume':
            e = st.exc
            st.frames.pop()
            return self.unwind(st, e)
        if op == 'unreachable':
            return Outcome('cut', st, 'unreachable in ' + f.fn['dem'][:100])
        if op == 'fcmp' or op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg'):
            vs = [self.val(st, f, x) for x in ins[4:] if not isinstance(x, str) and not (isinstance(x, str))]
            f.loc[ins[1]] = ('T', 1 if op == 'fcmp' else 64, op, repr([repr(v) for v in vs]))
            f.ip += 1
            return None
        if op == 'freeze':
            f.loc[ins[1]] = self.val(st, f, ins[4])
            f.ip += 1
            return None
        if op in ('cmpxchg', 'atomicrmw', 'fence'):
            if ins[1] >= 0:
                f.loc[ins[1]] = st.fresh(64, op)
            f.ip += 1
            return None
        raise AnalysisError('opcode %s in %s' % (op, f.fn['dem']))

    def icmp(self, st, pred, w, a, b):
        a, b = self.norm(st, a), self.norm(st, b)
        r = self.cmp(st, pred, w, a, b)
        if r is not None:
            return int(r)
        # a zero/sign extended i1 compared with zero is the i1 itself
        if pred in ('eq', 'ne'):
            x, k = (a, b) if isinstance(b, int) else (b, a)
            if isinstance(k, int) and isinstance(x, tuple) and x[0] == 'B' and \
                    any(isinstance(p[1], tuple) and p[1][0] == 'T' and p[1][2] == 'sext' and p[0] > 1 and p[2] >= p[1][3] - 1 for p in x[2]):
                # replicated sign bits: all equal, so one of them decides
                ps, kk, pos, q = [], 0, 0, 0
                for n, y, lo in x[2]:
                    bb = (k >> pos) & T.mask(n)
                    pos += n
                    if isinstance(y, tuple) and y[0] == 'T' and y[2] == 'sext' and n > 1 and lo >= y[3] - 1:
                        if bb not in (0, T.mask(n)):
                            return int(pred == 'ne')
                        top = T.slice_(y[4], y[3], y[3] - 1, 1)
                        ps.extend(T.parts(top, 1))
                        n, bb = 1, bb & 1
                    else:
                        ps.append((n, y, lo))
                    kk |= bb << q
                    q += n
                return self.icmp(st, pred, q, T.mk(ps), kk)
            if isinstance(k, int) and isinstance(x, tuple) and x[0] == 'B':
                sym = [p for p in x[2] if not isinstance(p[1], int)]
                if len(sym) == 1 and sym[0][0] == 1:
                    pos = 0
                    for p in x[2]:
                        if p is sym[0]:
                            break
                        pos += p[0]
                    others_ok = True
                    t = T.mk([sym[0]])
                    bit = (k >> pos) & 1
                    one = (pred == 'eq') == bool(bit)
                    return t if one else T.not_(t, 1)
            if isinstance(k, int) and w == 1 and isinstance(x, tuple):
                one = (pred == 'eq') == bool(k)
                return x if one else T.not_(x, 1)
        return ('C', 1, pred, w, a, b)

    # ----------------------------------------------------------------- calls
    def exec_call(self, st, f, ins):
        callee = ins[4]
        args = [self.val(st, f, a) for a in ins[5]]
        # byval copies
        for i, bv in enumerate(ins[6]):
            if bv and i < len(args):
                oid = self.new_obj(st, bv, 'undef', 'byval')
                self.memcpy(st, ('P', oid, 0), args[i], bv)
                args[i] = ('P', oid, 0)
        name = None
        if isinstance(callee, list) and callee[0] == 'g':
            name = callee[1]
        else:
            cv = self.norm(st, self.val(st, f, callee))
            if isinstance(cv, tuple) and cv[0] == 'P' and cv[1].startswith('$'):
                name = cv[1][1:]
            else:
                h = getattr(self, 'indirect', None)
                if h:
                    r = h(st, f, ins, cv, args)
                    if r is not None:
                        return self.apply(st, f, ins, r)
                if isinstance(cv, int) and cv < 4096:
                    st.events.append(('NULLDEREF', 'call', self.where(st)))
                    return Outcome('trap', st, 'null call')
                self.unknown.add('indirect call at ' + self.where(st))
                return self.apply(st, f, ins, self.default_ret(st, ins, 'icall'))
        name = self.prog['aliases'].get(name, name)
        fi = self.prog['functions'].get(name)
        p = self.find_prim(name, fi)
        if p is not None:
            r = p(self, st, ins, args, fi['dem'] if fi else name)
            if r is not NOTPRIM:
                return self.apply(st, f, ins, r)
        if fi is None or fi['decl']:
            self.unknown.add(fi['dem'] if fi else name)
            return self.apply(st, f, ins, self.default_ret(st, ins, (fi['dem'] if fi else name).split('(')[0]))
        f.invoke = ins[8] if ins[0] == 'invoke' else None
        self.push(st, fi, args)
        return None

    def default_ret(self, st, ins, nm):
        ty = ins[2]
        return self.sym_ty(st, ty, 'ret:' + nm)

    def sym_ty(self, st, ty, nm):
        if ty == 'v':
            return None
        if isinstance(ty, int):
            return st.fresh(ty, nm)
        if isinstance(ty, list) and ty[0] == 's':
            return ('A', [self.sym_ty(st, t[1], nm + '.%d' % i) for i, t in enumerate(ty[1:])])
        return st.fresh(64, nm)

    def apply(self, st, f, ins, r):
        """r: a value, Throw, Stop or list of (state, value-or-Throw)"""
        if isinstance(r, Multi):
            out = []
            for s, v in r.outs:
                x = self.apply(s, s.frames[-1], ins, v)
                if x is None:
                    out.append(s)
                elif isinstance(x, Outcome):
                    out.append(x)
                else:
                    out.extend(x)
            return out
        if isinstance(r, Throw):
            f.invoke = ins[8] if ins[0] == 'invoke' else None
            return self.unwind(st, r.exc)
        if isinstance(r, Stop):
            return Outcome(r.kind, st, r.why)
        self.finish_call(st, f, ins, r)
        return None

    # --------------------------------------------------------------- basics
    def install_basics(self):
        P = self.prim
        P(r'^llvm\.memcpy|^llvm\.memmove|^memcpy$|^memmove$', p_memcpy)
        P(r'^llvm\.memset|^memset$', p_memset)
        P(r'^operator new(\[\])?\(', p_new)
        P(r'^operator delete', p_delete)
        P(r'^malloc$', p_malloc)
        P(r'^calloc$', p_malloc)
        P(r'^free$', p_free)
        P(r'^realloc$', p_realloc)
        P(r'^strlen$', p_strlen)
        P(r'^__cxa_guard_acquire$', p_guard)
        P(r'^__cxa_guard_release$', p_guard_rel)
        P(r'^__cxa_guard_abort$|^__cxa_atexit$|^__cxa_free_exception$|^__cxa_end_catch$', lambda e, s, i, a, n: 0)
        P(r'^__cxa_allocate_exception$', p_allocexc)
        P(r'^__cxa_throw$', p_throw)
        P(r'^__cxa_rethrow$', lambda e, s, i, a, n: Throw(s.exc))
        P(r'^__cxa_begin_catch$', lambda e, s, i, a, n: a[0])
        P(r'^llvm\.eh\.typeid\.for', p_typeid)
        P(r'^__clang_call_terminate|^std::terminate\(\)|^abort$|^__cxa_throw_bad_array_new_length|^std::__throw_', lambda e, s, i, a, n: Stop('cut', 'abort: ' + n))
        P(r'^__assert_fail$', p_assert)
        P(r'^boost::throw_exception', p_boost_throw)
        P(r'^boost::exception_detail::throw_exception_', p_boost_throw)
        P(r'^llvm\.(umin|umax|smin|smax)\.', p_minmax)
        P(r'^llvm\.(bswap|ctlz|cttz|ctpop|fshl|fshr)', p_intr)
        P(r'^llvm\.abs', p_intr)
        P(r'^llvm\.trap|^llvm\.ubsantrap', lambda e, s, i, a, n: Stop('trap', 'llvm.trap'))
        P(r'^llvm\.(uadd|usub|sadd|ssub|umul|smul)\.with\.overflow', p_ovf)


def short(p):
    i = p.find('/src/')
    return p[i + 1:] if i >= 0 else p


class _NotPrim(object):
    pass


NOTPRIM = _NotPrim()


class Multi(object):
    def __init__(self, outs):
        self.outs = outs


class Throw(object):
    def __init__(self, exc):
        self.exc = exc


class Stop(object):
    def __init__(self, kind, why):
        self.kind = kind
        self.why = why


def p_memcpy(e, st, ins, a, n):
    e.memcpy(st, a[0], a[1], a[2])
    return a[0]


def p_memset(e, st, ins, a, n):
    e.memset(st, a[0], a[1], a[2])
    return a[0]


def p_new(e, st, ins, a, n):
    sz = e.norm(st, a[0])
    return ('P', e.new_obj(st, sz if isinstance(sz, int) else None, 'undef', 'new'), 0)


def p_delete(e, st, ins, a, n):
    if isinstance(a[0], tuple):
        r = e.resolve_ptr(st, a[0])
        if r and r[0] != 'abs':
            if st.mem[r[0]].freed:
                st.events.append(('DOUBLEFREE', st.mem[r[0]].tag, e.where(st)))
            st.wobj(r[0]).freed = True
    return None


def p_malloc(e, st, ins, a, n):
    sz = e.norm(st, a[-1])
    oid = e.new_obj(st, sz if isinstance(sz, int) else None, 'zero' if n == 'calloc' else 'undef', 'heap')
    st.wobj(oid).tag = 'heap'
    st.events.append(('ALLOC', oid, sz))
    return ('P', oid, 0)


def p_free(e, st, ins, a, n):
    if isinstance(a[0], int) and a[0] == 0:
        return None
    r = e.resolve_ptr(st, a[0])
    if r and r[0] != 'abs':
        o = st.wobj(r[0])
        if o.freed:
            st.events.append(('DOUBLEFREE', o.tag, e.where(st)))
        o.freed = True
        st.events.append(('FREE', r[0], e.where(st)))
    return None


def p_realloc(e, st, ins, a, n):
    sz = e.norm(st, a[1])
    oid = e.new_obj(st, sz if isinstance(sz, int) else None, 'undef', 'heap')
    p = e.norm(st, a[0])
    st.events.append(('ALLOC', oid, sz))
    if not (isinstance(p, int) and p == 0):
        r = e.resolve_ptr(st, p)
        if r and r[0] != 'abs':
            old = st.mem[r[0]]
            new = st.wobj(oid)
            new.cells = dict(old.cells)
            new.default = 'sym'
            new.log = (('w', 0, ('S', 64, 'oldsize'), (r[0], len(old.log), r[1]), e.where(st)),)
            new.cells = dict(old.cells) if not old.log else {}
            st.wobj(r[0]).freed = True
            st.events.append(('FREE', r[0], e.where(st)))
    return ('P', oid, 0)


def cstr(e, st, p, maxn=400):
    """constant C string at p or None"""
    if not (isinstance(p, tuple) and p[0] == 'P'):
        return None
    r = e.resolve_ptr(st, p)
    if r is None or not isinstance(r[1], int):
        return None
    out = []
    o = st.mem[r[0]]
    for i in range(maxn):
        c = o.cells.get(r[1] + i)
        if c is None:
            if o.default == 'zero':
                break
            return None
        if c[0] != 1 or not isinstance(c[1], int):
            return None
        if c[1] == 0:
            break
        out.append(chr(c[1]))
    return ''.join(out)


def p_strlen(e, st, ins, a, n):
    s = cstr(e, st, a[0])
    if s is not None:
        return len(s)
    return ('S', 64, ('strlen', repr(a[0])))


def p_guard(e, st, ins, a, n):
    v = e.load(st, a[0], 1, 8)
    if not (isinstance(v, int) and v == 0):
        return 0
    if e.gw is not None:
        st.user['guard'] = st.user.get('guard', 0) + 1
    return 1


def p_guard_rel(e, st, ins, a, n):
    e.store(st, 1, a[0], 1, 8)
    if e.gw is not None:
        st.user['guard'] = max(0, st.user.get('guard', 0) - 1)
    return None


def p_allocexc(e, st, ins, a, n):
    return ('P', e.new_obj(st, None, 'undef', 'exc'), 0)


def p_throw(e, st, ins, a, n):
    ti = a[1]
    nm = ti[1][1:] if isinstance(ti, tuple) and ti[0] == 'P' else '?'
    oid = a[0][1] if isinstance(a[0], tuple) and a[0][0] == 'P' else None
    code = None
    if oid is not None:
        code = st.user.get(('exc', oid))
    g = e.prog['globals'].get(nm, {}).get('dem', nm)
    exc = {'type': g.replace('typeinfo for ', ''), 'ti': (nm,), 'obj': oid, 'code': code, 'where': e.where(st)}
    return Throw(exc)


def p_boost_throw(e, st, ins, a, n):
    m = re.search(r'throw_exception_?<(.*?)>\(', n)
    ty = m.group(1) if m else '?'
    obj = None
    code = None
    for x in a:
        if isinstance(x, tuple) and x[0] == 'P':
            obj = x[1]
            code = st.user.get(('exc', obj))
            break
    ti = tuple(k for k, g in e.prog['globals'].items() if g['dem'] == 'typeinfo for ' + ty)
    return Throw({'type': ty, 'ti': ti, 'obj': obj, 'code': code, 'where': e.where(st), 'any': not ti})


def p_typeid(e, st, ins, a, n):
    t = a[0]
    if isinstance(t, int):
        return e.typeid('<catchall>')
    return e.typeid(t[1][1:])


def p_assert(e, st, ins, a, n):
    st.events.append(('ASSERT', cstr(e, st, a[0]) or '?', e.where(st)))
    return Stop('cut', 'assert')


def p_minmax(e, st, ins, a, n):
    w = ins[2]
    m = re.match(r'llvm\.(\w+)\.', n).group(1)
    pred = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[m]
    x, y = e.norm(st, a[0]), e.norm(st, a[1])
    r = e.cmp(st, pred, w, x, y)
    if r is not None:
        return x if r else y
    c = ('C', 1, pred, w, x, y)
    s2 = st.fork()
    outs = []
    if e.assume(st, c, True):
        outs.append((st, x))
    if e.assume(s2, c, False):
        outs.append((s2, y))
    return Multi(outs)


def p_intr(e, st, ins, a, n):
    return ('T', ins[2], n, *[x for x in a])


def p_ovf(e, st, ins, a, n):
    op = re.match(r'llvm\.[us](\w+)\.with', n).group(1)
    w = ins[2][1][1]
    x, y = e.norm(st, a[0]), e.norm(st, a[1])
    v = T.binop(op, x, y, w)
    if isinstance(x, int) and isinstance(y, int):
        if n[5] == 's':
            x, y = T.signed(x, w), T.signed(y, w)
        z = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
        return ('A', [v, int(not (-(1 << (w - 1)) <= z < 1 << (w - 1) if n[5] == 's' else 0 <= z < 1 << w))])
    return ('A', [v, ('T', 1, n, a[0], a[1])])
