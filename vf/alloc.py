"""The allocators against the contract of mfast::allocator: histories of requests with sizes around every limit the code
compares with; the system allocator is a model that remembers extents."""
from .engine import AnalysisError, Multi, NOTPRIM, ended
from .fast import FastEngine
from .walk import Result

PAGE = 4096


def k_malloc(e, st, ins, a, d):
    n = e.norm(st, a[0])
    if not isinstance(n, int):
        return NOTPRIM
    if st.user.get('fail') == 0:
        return 0
    if st.user.get('fail') is not None:
        st.user['fail'] -= 1
    return ('P', e.new_obj(st, n, 'undef', 'system'), 0)


def k_realloc(e, st, ins, a, d):
    p, n = e.norm(st, a[0]), e.norm(st, a[1])
    if not isinstance(n, int):
        return NOTPRIM
    if st.user.get('fail') == 0:
        return 0
    q = ('P', e.new_obj(st, n, 'undef', 'system'), 0)
    if not isinstance(p, int):
        o = st.wobj(p[1])
        if o.freed or p[2] != 0 or o.tag != 'system':
            st.events.append(('DOUBLEFREE', o.tag, e.where(st)))
            return q
        e.memcpy(st, q, p, min(n, o.size))
        st.wobj(p[1]).freed = True
    return q


def k_free(e, st, ins, a, d):
    p = e.norm(st, a[0])
    if isinstance(p, int):
        if p:
            st.events.append(('DOUBLEFREE', 'a number', e.where(st)))
        return None
    o = st.wobj(p[1])
    if o.freed or p[2] != 0 or o.tag != 'system':
        st.events.append(('DOUBLEFREE', o.tag, e.where(st)))
    o.freed = True
    return None


class AllocEngine(FastEngine):
    MAXSTEPS = 400000

    def __init__(self, prog):
        FastEngine.__init__(self, prog)
        self.LOOPCUT = self.loopcut = 200
        # the allocators themselves are interpreted here
        self.prims[:] = [x for x in self.prims if 'malloc_allocator' not in getattr(x[0], 'pattern', str(x[0]))]
        P = self.prim
        P(r'^malloc$', k_malloc)
        P(r'^realloc$', k_realloc)
        P(r'^free$', k_free)


BAD = ('UAF', 'DOUBLEFREE', 'OOB', 'NULLDEREF', 'UNINIT', 'RANGE')


class Block(object):
    def __init__(self, p, n, mark, grows=False):
        self.p, self.n, self.mark, self.grows = p, n, mark, grows


def mark(e, st, p, n):
    """writes a symbol at the first and the last byte of a block"""
    m = []
    for k in sorted({0, n // 2, n - 1} if n else ()):
        x = st.fresh(8, 'mark')
        e.store(st, x, e.padd(p, k), 1, 8)
        m.append((k, x))
    return m


def intact(e, st, b, upto=None):
    for k, x in b.mark:
        if upto is not None and k >= upto:
            continue
        y = e.norm(st, e.load(st, e.padd(b.p, k), 1, 8))
        if y != x:
            return False
    return True


def step(e, st, live, act, res, hist, A, arena):
    """yields (state, live blocks)"""
    what, arg = act
    txt = '%s after %s' % (show(act), ', '.join(map(show, hist)) or 'nothing')

    def bad(key, t, wh=''):
        res.bad.setdefault((('malloc', 'arena')[arena is not None], key), ('%s: %s' % (txt, t), wh))
    if what in ('nomem', 'nogrow'):
        st.user['fail'] = 0
        if what == 'nomem':
            outs = e.run(st, 'vf_allocate', [A, arg])
        else:
            can = [k for k, b in enumerate(live) if b.grows]
            if not can:
                return
            b = live[can[0]]
            cell = ('P', e.new_obj(st, 8, 'undef', 'cell'), 0)
            e.store(st, b.p, cell, 8, 64)
            outs = e.run(st, 'vf_reallocate', [A, cell, b.n, arg])
    elif what in ('allocate', 'new'):
        outs = e.run(st, 'vf_allocate' if what == 'allocate' else 'vf_new_in', [A if what == 'allocate' else arena, arg])
    elif what == 'reset':
        outs = e.run(st, 'vf_arena_reset', [arena])
    elif what == 'grow':
        can = [k for k, b in enumerate(live) if b.grows]     # only what reallocate returned may be reallocated
        if not can:
            return
        i = can[arg[0] % len(can)]
        b = live[i]
        cell = ('P', e.new_obj(st, 8, 'undef', 'cell'), 0)
        e.store(st, b.p, cell, 8, 64)
        outs = e.run(st, 'vf_reallocate', [A, cell, b.n, arg[1]])
    elif what == 'first':
        cell = ('P', e.new_obj(st, 8, 'undef', 'cell'), 0)
        e.store(st, 0, cell, 8, 64)
        outs = e.run(st, 'vf_reallocate', [A, cell, 0, arg])
    elif what == 'release':
        if not live:
            return
        i = arg % len(live)
        outs = e.run(st, 'vf_deallocate', [A, live[i].p, live[i].n])
    for o in outs:
        res.paths += 1
        failed = o.kind == 'throw' and what in ('nomem', 'nogrow')      # every block handed out before is still good
        if o.kind != 'ret' and not failed:
            if o.kind in ('bound', 'cut'):
                res.und['history %s' % o.kind] = 1
            else:
                bad('failure', '%s %s' % (o.kind, str(o.value)[:60]))
            continue
        s, new = o.state, list(live)
        evs = [x for x in s.events if x[0] in BAD]
        if evs:
            bad('memory', '%s %s' % (evs[0][0], str(evs[0][1:-1])[:80]), str(evs[0][-1]))
            continue
        s.user['fail'] = None
        fresh = None
        if failed:
            pass
        elif what in ('allocate', 'new', 'nomem'):
            fresh = Block(e.norm(s, o.value), arg, None)
        elif what in ('grow', 'first', 'nogrow'):
            n = e.norm(s, o.value)
            want = arg[1] if what == 'grow' else arg
            if not isinstance(n, int) or n < want:
                bad('size', 'says %s bytes are available' % (n,))
                continue
            fresh = Block(e.norm(s, e.load(s, cell, 8, 64)), n, None, True)
            if what in ('grow', 'nogrow'):
                old = new.pop(i if what == 'grow' else can[0])
                if not intact(e, s, Block(fresh.p, 0, old.mark), min(old.n, want)):
                    bad('content', 'the content is lost')
                    continue
        elif what == 'release':
            new.pop(i)
        elif what == 'reset':
            new = []
        if fresh is not None:
            p = fresh.p
            if not (isinstance(p, tuple) and p[0] == 'P' and isinstance(p[2], int)):
                bad('block', 'yields %s' % (p,))
                continue
            ob = s.mem[p[1]]
            if p[2] % 8:
                bad('alignment', 'yields a block at offset %d of a chunk' % p[2])
                continue
            if ob.freed or p[2] + fresh.n > ob.size:
                bad('extent', 'a block of %d bytes reaches beyond the %d of its chunk' % (p[2] + fresh.n, ob.size))
                continue
            clash = [b for b in new if b.p[1] == p[1] and b.n and fresh.n and b.p[2] < p[2] + fresh.n and p[2] < b.p[2] + b.n]
            if clash:
                bad('overlap', 'a block overlaps one handed out before')
                continue
            fresh.mark = mark(e, s, p, fresh.n)
            new.append(fresh)
        lost = [b for b in new if b is not fresh and not intact(e, s, b)]
        if lost:
            bad('content', 'the content of another block changes')
            continue
        yield s, new


def show(a):
    w, x = a
    return {'nomem': 'allocate(%s) without memory left', 'nogrow': 'reallocate to %s without memory left', 'allocate': 'allocate(%s)', 'new': 'new of %s bytes in the arena', 'reset': 'reset()%.0s', 'first': 'reallocate(null, 0, %s)',
            'grow': 'reallocate%s', 'release': 'deallocate(block %s)'}[w] % ((x,) if w != 'reset' else (0,))


SIZES = (0, 1, 8, 60, 2000, 3960, 4007, 4032, 4033, 4064, 4072, 4073, 5000, 8160, 12288)


def t_arena(e, name, firsts, depth, acts):
    res = Result(name)
    res.und, res.bad, res.unknown = {}, {}, []
    st = e.base_state()
    size = e.run(st.fork(), 'vf_arena_size', [])[0].value
    arena = ('P', e.new_obj(st, size, 'undef', 'arena'), 0)
    o = e.run(st, 'vf_arena', [arena])
    st = o[0].state
    A = e.run(st.fork(), 'vf_arena_base', [arena])[0].value

    def end(s, hist):
        for o in e.run(s.fork(), 'vf_arena_end', [arena]):
            evs = [x for x in o.state.events if x[0] in BAD]
            left = [x for x in o.state.mem.values() if x.tag == 'system' and not x.freed]
            if o.kind != 'ret' or evs or left:
                res.bad.setdefault(('arena', 'destruction'), ('destruction after %s: %s' % (
                    ', '.join(map(show, hist)), evs[0] if evs else '%d chunks are never released' % len(left) if left else o.kind), ''))

    def go(s, live, hist):
        if len(hist) == depth:
            end(s, hist)
            return
        for act in (firsts if not hist else acts):
            for s2, l2 in step(e, s.fork(), live, act, res, hist, A, arena):
                go(s2, l2, hist + [act])
    go(st, [], [])
    return res


CYCLE = (1, 60, 2000, 4000, 4072, 4073, 5000, 8160, 9000)
ROUNDS = 14


def t_cycle(e, name, seqs):
    """the same requests repeated between resets: in the end the arena lives on the memory it has"""
    res = Result(name)
    res.und, res.bad, res.unknown = {}, {}, []
    st0 = e.base_state()
    size = e.run(st0.fork(), 'vf_arena_size', [])[0].value
    arena = ('P', e.new_obj(st0, size, 'undef', 'arena'), 0)
    st0 = e.run(st0, 'vf_arena', [arena])[0].state
    for seq in seqs:
        st, n, res.paths = st0.fork(), None, res.paths + 1
        counts = []
        for k in range(ROUNDS):
            for x in seq + (None,):
                outs = e.run(st, *(('vf_arena_reset', [arena]) if x is None else ('vf_new_in', [arena, x])))
                if len(outs) != 1 or outs[0].kind != 'ret':
                    break
                st = outs[0].state
            else:
                counts.append(sum(1 for x in st.mem.values() if x.tag == 'system' and not x.freed))
                continue
            break
        if len(counts) < ROUNDS:
            res.und['a repeated history branches or ends'] = 1
        elif counts[-1] > counts[-4]:
            res.bad.setdefault(('arena', 'growth'), ('allocating %s bytes and resetting, over and over: the chunks claimed from the system are %s' % (
                ', '.join(map(str, seq)), ', '.join(map(str, counts))), ''))
    return res


def t_malloc(e, name, deep):
    res = Result(name)
    res.und, res.bad, res.unknown = {}, {}, []
    st = e.base_state()
    o = e.run(st, 'vf_malloc', [])
    st, A = o[0].state, o[0].value
    sizes = (1, 8, 31, 32, 33, 63, 64, 65, 95, 96, 127, 128, 129, 1000, 2000)
    firsts = [('first', n) for n in sizes] + [('allocate', n) for n in sizes[:4]]
    acts = [('grow', (0, 10)), ('grow', (0, 65)), ('grow', (0, 700)), ('release', 0), ('first', 40), ('allocate', 24), ('nomem', 24), ('nogrow', 700)]

    def go(s, live, hist):
        if len(hist) == (4 if deep else 3):
            for b in live:
                s = e.run(s, 'vf_deallocate', [A, b.p, b.n])[0].state
            evs = [x for x in s.events if x[0] in BAD]
            left = [x for x in s.mem.values() if x.tag == 'system' and not x.freed]
            if evs or left:
                res.bad.setdefault(('malloc', 'release'), ('releasing every block after %s: %s' % (
                    ', '.join(map(show, hist)), evs[0] if evs else 'a block is never released'), ''))
            return
        for act in (firsts if not hist else acts):
            for s2, l2 in step(e, s.fork(), live, act, res, hist, A, None):
                go(s2, l2, hist + [act])
    go(st, [], [])
    # no memory
    for fn, args in (('vf_allocate', [A, 10]), ('first', None), ('grow', None)):
        s = st.fork()
        if fn == 'vf_allocate':
            s.user['fail'] = 0
            outs = e.run(s, fn, args)
        else:
            cell = ('P', e.new_obj(s, 8, 'undef', 'cell'), 0)
            e.store(s, 0, cell, 8, 64)
            n = 0
            if fn == 'grow':
                o = e.run(s, 'vf_reallocate', [A, cell, 0, 10])[0]
                s, n = o.state, o.value
            s.user['fail'] = 0
            outs = e.run(s, 'vf_reallocate', [A, cell, n, 500])
        for o in outs:
            res.paths += 1
            if o.kind != 'throw':
                res.bad.setdefault(('malloc', 'exhausted'), ('%s without memory left does not fail' % fn, ''))
    return res


def _work(job):
    fn, args = job
    e = AllocEngine(_PROG)
    try:
        r = globals()[fn](e, *args)
    except Exception as x:
        r = ended(Result(args[0]), args[0], x)
    r.fns = sorted(e.visited_fns)
    r.unknown = sorted(e.unknown)
    return r


def jobs(deep):
    js = [('t_malloc', ('malloc_allocator', deep))]
    acts = [('allocate', n) for n in SIZES] + [('reset', None), ('grow', (0, 100)), ('grow', (1, 1990)), ('first', 20), ('first', 1000), ('release', 0),
            ('nomem', 60), ('nomem', 5000), ('nogrow', 3000)]
    few = [('allocate', n) for n in (1, 60, 4007, 4072, 5000)] + [('reset', None), ('first', 500), ('grow', (0, 1990)), ('grow', (0, 40)), ('nomem', 4500)]
    for i in range(0, len(acts), 2):
        js.append(('t_arena', ('arena_allocator, histories starting with %s' % ' or '.join(map(show, acts[i:i + 2])), acts[i:i + 2], 3, acts)))
    for a in few:
        js.append(('t_arena', ('arena_allocator, long histories starting with %s' % show(a), [a], 6 if deep else 5, few)))
    import itertools
    seqs = [q for n in ((1, 2, 3, 4) if deep else (1, 2, 3)) for q in itertools.product(CYCLE if n < 4 else CYCLE[1::2], repeat=n)]
    for i in range(16):
        js.append(('t_cycle', ('arena_allocator, histories repeated between resets (%d)' % i, seqs[i::16])))
    return js


def run_jobs(prog, jobs, procs=8):
    import multiprocessing
    global _PROG
    _PROG = prog
    with multiprocessing.get_context('fork').Pool(min(procs, max(1, len(jobs)))) as pool:
        return pool.map(_work, jobs, chunksize=1)
