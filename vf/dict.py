"""Which fields share a previous value: the dictionary rules of FAST 1.1 against the previous values that building a
codec gives to two fields placed anywhere in symbolic templates."""
from .engine import Multi, AnalysisError, p_boost_throw, ended
from .fast import FastEngine, p_allocate
from . import strs
from .walk import Result, heap_left

KIND, OP, CTX, WRAP, WRAP2, SAMEDESC, SAMETEMPLATE, ORDER, LENGTH = range(9)
(DNS, DTNS, DDICT, TNAME, TNS, TTNS, TDICT, TREF, TREFNS, GNS, GDICT, GREF, GREFNS, HNS, HDICT, HREF, HREFNS,
 FNS, FNAME, OKEY, ONS, ODICT, MKEY, MNS, MDICT, LNAME, LNS) = range(27)
SNAMES = ('templates.ns templates.templateNs templates.dictionary template.name template.ns template.templateNs '
          'template.dictionary template.typeRef template.typeRefNs group.ns group.dictionary group.typeRef '
          'group.typeRefNs inner.ns inner.dictionary inner.typeRef inner.typeRefNs field.ns field.name op.key op.ns '
          'op.dictionary mantissa.key mantissa.ns mantissa.dictionary length.name length.ns').split()
SORT = {TNAME: 'template', TREF: 'type', GREF: 'type', HREF: 'type'}
for _k in (DDICT, TDICT, GDICT, HDICT, ODICT, MDICT):
    SORT[_k] = 'dictionary'
for _k in (FNAME, OKEY, MKEY, LNAME):
    SORT[_k] = 'key'
for _k in range(27):
    SORT.setdefault(_k, 'ns')
NONE, CONST, DELTA, DEFAULT, COPY, INCR, TAIL = range(7)
USES = (DELTA, COPY, INCR, TAIL)
KINDS = ('int32', 'uint32', 'int64', 'uint64', 'decimal', 'exponent', 'ascii', 'unicode', 'byte_vector', 'enum')
OPSOK = {'int': (NONE, CONST, DELTA, DEFAULT, COPY, INCR), 'str': (NONE, CONST, DELTA, DEFAULT, COPY, TAIL),
         'dec': (NONE, CONST, DELTA, DEFAULT, COPY)}


def d_ask(e, st, ins, a, d):
    k = (e.norm(st, a[0]), e.norm(st, a[1]))
    return st.user['ask'].get(k, 0)


def d_str(e, st, ins, a, d):
    k = (e.norm(st, a[0]), e.norm(st, a[1]))
    have = st.user.get('slots', {})
    dom = st.user['dom'].get(k, '')
    if k in have:
        return strs.new_cstr(e, st, have[k])
    name = ('name', SORT[k[0]], k)
    if dom == 'free':
        opts = [(), (name,)]
    elif dom == 'ne':
        opts = [(name,)]
    else:
        opts = [(dom,) if dom else ()]
    outs = []
    for i, o in enumerate(opts):
        s = st if i == len(opts) - 1 else st.fork()
        x = dict(s.user.get('slots', {}))
        x[k] = o
        s.user['slots'] = x
        outs.append((s, strs.new_cstr(e, s, o)))
    return Multi(outs)


def d_emit(e, st, ins, a, d):
    w = (e.norm(st, a[1]), e.norm(st, a[0]))
    v = dict(st.user.get('seen', {}))
    v[w] = e.norm(st, a[2])
    st.user['seen'] = v


LEFT, RIGHT, PARENT = 16, 24, 8


def tree_insert(e, st, ins, a, d):
    left, x, p, h = e.norm(st, a[0]), e.norm(st, a[1]), e.norm(st, a[2]), e.norm(st, a[3])
    if not isinstance(left, int):
        raise AnalysisError('undecided side of a map insertion')

    def S(v, o, f):
        e.store(st, v, e.padd(o, f), 8, 64)

    def L(o, f):
        return e.norm(st, e.load(st, e.padd(o, f), 8, 64))
    S(p, x, PARENT)
    S(0, x, LEFT)
    S(0, x, RIGHT)
    e.store(st, 0, x, 4, 32)
    if left & 1:
        S(x, p, LEFT)
        if p == h:
            S(x, h, PARENT)
            S(x, h, RIGHT)
        elif p == L(h, LEFT):
            S(x, h, LEFT)
    else:
        S(x, p, RIGHT)
        if p == L(h, RIGHT):
            S(x, h, RIGHT)
    return None


def tree_step(fwd):
    R, LF = (RIGHT, LEFT) if fwd else (LEFT, RIGHT)

    def f(e, st, ins, a, d):
        def L(o, k):
            return e.norm(st, e.load(st, e.padd(o, k), 8, 64))
        x = e.norm(st, a[0])
        if not fwd and e.norm(st, e.load(st, x, 4, 32)) == 1 and L(L(x, PARENT), PARENT) == x:
            return L(x, RIGHT)
        n = L(x, R)
        if n != 0:
            while L(n, LF) != 0:
                n = L(n, LF)
            return n
        y = L(x, PARENT)
        while x == L(y, R):
            x, y = y, L(y, PARENT)
        if not fwd or L(x, RIGHT) != y:
            x = y
        return x
    return f


def install_tree(e):
    P = e.prim
    P(r'^std::_Rb_tree_insert_and_rebalance\(', tree_insert)
    P(r'^std::_Rb_tree_increment\(', tree_step(True))
    P(r'^std::_Rb_tree_decrement\(', tree_step(False))


class DictEngine(FastEngine):
    MAXSTEPS = 2000000

    def __init__(self, prog):
        FastEngine.__init__(self, prog)
        self.LOOPCUT = self.loopcut = 1000
        strs.install(self)
        install_tree(self)
        P = self.prim
        P(r'^vf_ask$', d_ask)
        P(r'^vf_str$', d_str)
        P(r'^vf_emit$', d_emit)
        P(r'^void boost::(exception_detail::throw_exception_|throw_exception)<', p_boost_throw)
        P(r'^mfast::arena_allocator::allocate\(', arena_allocate)


def arena_allocate(e, st, ins, a, d):
    n = e.norm(st, a[1])
    return ('P', e.new_obj(st, n if isinstance(n, int) else None, 'undef', 'arena'), 0)


# ---------------------------------------------------------------------- rules
class Cfg(object):
    """a placement of two fields and what is symbolic about it"""

    def __init__(self, name, ask, dom):
        self.name, self.ask, self.dom = name, ask, dom


def role_name(k):
    return ('A', 'B')[k[0]] + {0: '', 1: '.mantissa', 2: '.length'}[k[1]]


def effective(st, k):
    """(qualified key parts..., uses previous values, type) of an entry, by FAST 1.1 6.3.1 and the scoping rules"""
    which, role = k
    ask, slots = st.user['ask'], st.user.get('slots', {})

    def A(q):
        return ask.get((q, which), 0)
    same = ask.get((SAMETEMPLATE, 0), 0)

    def S(s):
        w = which
        if s in (DNS, DTNS, DDICT) and (same or ask.get((SAMEDESC, 0), 0)):
            w = 0
        if TNAME <= s <= TREFNS and same:
            w = 0
        return strs.sub(st, slots.get((s, w), ()))
    kind = KINDS[A(KIND)]
    chain = []          # from the inside out: (ns, dictionary, typeref, typeref ns)
    if A(WRAP2) and (role != 2 or A(WRAP2) == 2):
        chain.append((S(HNS), S(HDICT), S(HREF) if role != 2 else (), S(HREFNS)))
    if A(WRAP):
        chain.append((S(GNS), S(GDICT), S(GREF), S(GREFNS)))
    chain.append((S(TNS), S(TDICT), S(TREF), S(TREFNS)))
    chain.append((S(DNS), S(DDICT), (), ()))
    ctx = A(CTX)
    if role == 1:
        okey, ons, od = (S(MKEY), S(MNS), S(MDICT)) if ctx else ((), (), ())
    else:
        okey, ons, od = (S(OKEY), S(ONS), S(ODICT)) if ctx else ((), (), ())
    own = S(LNS) if role == 2 else S(FNS)
    ns = ons or own
    for c in chain:
        ns = ns or c[0]
    d = od
    for c in chain:
        d = d or c[1]
    d = d or ('global',)
    if role == 2:
        key = okey or S(LNAME) or strs.cat(S(FNAME), ('....length',))
    elif role == 1:
        key = okey or strs.cat(S(FNAME), ('....mantissa',))
    elif kind == 'exponent':
        key = okey or strs.cat(S(FNAME), ('....exponent',))
    else:
        key = okey or S(FNAME)
    tmpl = (S(TTNS) or S(DTNS), S(TNAME))
    typ = ((), ())
    for i, c in enumerate(chain):
        if c[2]:
            tns = c[3]
            for x in chain[i:]:
                tns = tns or x[0]
            typ = (tns, c[2])
            break
    t = {1: 'int64', 2: 'uint32'}.get(role) or {'enum': 'uint64?'}.get(kind, 'uint64?' if kind == 'uint64' else kind)
    if role == 2 and not A(LENGTH):
        return None
    return dict(dict=d, ns=ns, key=key, template=tmpl, type=typ, uses=A(OP) in USES, t=t)


def same(st, parts_pairs):
    """-> [(state, all pairs equal)]"""
    work = [(st, 0)]
    out = []
    while work:
        s, i = work.pop()
        if i == len(parts_pairs):
            out.append((s, True))
            continue
        for s2, r in strs.compare(s, *parts_pairs[i]):
            if r != 0:
                out.append((s2, False))
            else:
                work.append((s2, i + 1))
    return out


def same_entry(st, x, y):
    """-> [(state, do they denote the same dictionary entry)]"""
    out = []
    for s, eq in same(st, [(x['dict'], y['dict'])]):
        if not eq:
            out.append((s, False))
            continue
        for s1, tm in same(s, [(x['dict'], ('template',))]):
            if tm:
                out += same(s1, [(x['template'][0], y['template'][0]), (x['template'][1], y['template'][1]),
                                 (x['ns'], y['ns']), (x['key'], y['key'])])
                continue
            for s2, ty in same(s1, [(x['dict'], ('type',))]):
                if ty:
                    out += same(s2, [(x['type'][0], y['type'][0]), (x['type'][1], y['type'][1]),
                                     (x['ns'], y['ns']), (x['key'], y['key'])])
                else:
                    out += same(s2, [(x['ns'], y['ns']), (x['key'], y['key'])])
    return out


def show_parts(p):
    if not p:
        return "''"
    return ''.join(x if isinstance(x, str) else '<%s>' % (SNAMES[x[2][0]] if x[0] == 'name' else '%s%d' % x[1:])
                   for x in p)


def show_entry(x):
    return 'dictionary %s, ns %s, key %s, template %s|%s, type %s|%s' % tuple(
        show_parts(p) for p in (x['dict'], x['ns'], x['key']) + x['template'] + x['type'])


def entries(st, seen=None):
    ks = []
    for w in (0, 1):
        ks.append((w, 0))
        if KINDS[st.user['ask'].get((KIND, w), 0)] == 'exponent':
            ks.append((w, 1))
        if st.user['ask'].get((WRAP2, w), 0) == 2 and st.user['ask'].get((LENGTH, w), 0):
            ks.append((w, 2))
    return ks


def judge(e, st, res, cfg, kind, val):
    """one path of the build against the rules"""
    ks = entries(st)
    seen = st.user.get('seen', {})
    eff = {k: effective(st, k) for k in ks}
    pairs = [(a, b) for i, a in enumerate(ks) for b in ks[i + 1:]]
    work = [(st, 0, [])]
    done = []
    while work:
        s, i, acc = work.pop()
        if i == len(pairs):
            done.append((s, acc))
            continue
        a, b = pairs[i]
        x, y = effective(s, a), effective(s, b)
        for s2, eq in (same_entry(s, x, y) if x['uses'] and y['uses'] else [(s, False)]):
            work.append((s2, i + 1, acc + [eq]))
    for s, acc in done:
        res.paths += 1
        clash = [p for p, q in zip(pairs, acc) if q and eff[p[0]]['t'] != eff[p[1]]['t']]
        if kind == 'throw':
            if val.get('code') != 'D4' or not clash:
                if not [p for p in clash if 'uint64?' in (eff[p[0]]['t'],)]:
                    res.bad.setdefault(('error', str(val.get('code'))), (
                        'error %s (%s) although no two fields of different type name one entry' % (val.get('code'), val.get('type')),
                        str(val.get('where'))))
            continue
        if clash:
            a, b = clash[0]
            res.bad.setdefault(('types', ''), ('no D4 although %s (%s) and %s (%s) name one entry' % (
                role_name(a), eff[a]['t'], role_name(b), eff[b]['t']), ''))
            continue
        for k in ks:
            if not (isinstance(seen.get(k), tuple) and seen[k][0] == 'P'):
                res.bad.setdefault(('missing', role_name(k)), ('%s has no previous value' % role_name(k), ''))
                return
        for (a, b), q in zip(pairs, acc):
            got = seen[a] == seen[b]
            if got != q:
                x, y = effective(s, a), effective(s, b)
                res.bad.setdefault(('share', role_name(a), role_name(b), q), (
                    '%s and %s %s although they denote %s [%s: %s] [%s: %s] uses %s/%s' % (
                        role_name(a), role_name(b), 'share a previous value' if got else 'have separate previous values',
                        'the same entry' if q else 'different entries', role_name(a), show_entry(x), role_name(b),
                        show_entry(y), x['uses'], y['uses']), ''))


def t_dict(e, name, ask, dom, reset=False, two=False):
    res = Result(name)
    res.und, res.bad = {}, {}
    st = e.base_state()
    st.user.update(ask=ask, dom=dom, slots={}, names={}, lits={'dictionary': ('global', 'template', 'type')})
    if not hasattr(e, 'rsize'):
        outs = e.run(st.fork(), 'vf_repo_size', [])
        e.rsize = outs[0].value
    src = e.new_obj(st, 16, 'undef', 'src')
    repo = e.new_obj(st, e.rsize, 'undef', 'repo')
    repo2 = e.new_obj(st, e.rsize, 'undef', 'repo2')
    R, R2 = ('P', repo, 0), ('P', repo2, 0)

    def seq(states, fn, args):
        out = []
        for s in states:
            for o in e.run(s, fn, args):
                if o.kind == 'ret':
                    out.append(o.state)
                elif o.kind == 'throw' and fn == 'vf_build':
                    judge(e, o.state, res, None, 'throw', o.value)
                else:
                    t = '%s in %s: %s' % (o.kind, fn, str(o.value)[:80])
                    if o.kind in ('throw', 'trap'):
                        res.bad.setdefault(('failure', fn), (t, ''))
                    else:
                        res.und[t] = res.und.get(t, 0) + 1
        return out
    sts = seq([st], 'vf_make', [('P', src, 0)])
    sts = seq(sts, 'vf_repo', [R])
    sts = seq(sts, 'vf_build', [R])
    sts = seq(sts, 'vf_report', [R])
    for s in sts:
        if s.user.get('opaque'):
            res.und['a string the analysis lost track of'] = res.und.get('a string the analysis lost track of', 0) + 1
            continue
        miss = [k for k in s.user.get('seen', {}) if k[1] == 9]
        if miss:
            res.bad.setdefault(('template', ''), ('a template with an id is not found after building', ''))
            continue
        judge(e, s.fork(), res, None, 'ret', None)
    if two:
        for s in sts:
            again(e, res, s, R, R2, src, seq)
    if reset:
        for s in sts:
            after_reset(e, res, s, R, seq)
    for s in sts:
        for ev in s.events:
            if ev[0] in ('UAF', 'DOUBLEFREE', 'OOB', 'NULLDEREF'):
                res.bad.setdefault(('memory', ev[0]), ('%s %s' % (ev[0], str(ev[1:])[:120]), str(ev[-1])))
    res.unknown = sorted(e.unknown)
    return res


def again(e, res, st, R, R2, src, seq):
    """a second codec built from the same description has entries of its own, and so has the description itself"""
    first = dict(st.user.get('seen', {}))
    s = st.fork()
    s.user['seen'] = {}
    out = seq([s], 'vf_repo', [R2])
    out = seq(out, 'vf_build', [R2])
    out = seq(out, 'vf_report', [R2])
    for s2 in out:
        res.paths += 1
        mine = dict(s2.user['seen'])
        s2.user['seen'] = {}
        for s3 in seq([s2], 'vf_report_source', [('P', src, 0)]):
            desc = s3.user['seen']
            for k in first:
                for n, other in (('another codec', mine), ('the description', desc)):
                    if any(isinstance(v, tuple) and v == first[k] for v in other.values()):
                        res.bad.setdefault(('codecs', role_name(k)), (
                            'the previous value of %s is shared with %s built from the same templates' % (role_name(k), n), ''))


def after_reset(e, res, st, R, seq):
    seen = dict(st.user.get('seen', {}))
    s = st.fork()
    sts = [s]
    for k, p in sorted(seen.items()):
        sts = seq(sts, 'vf_assign', [p])
    sts = seq(sts, 'vf_reset', [R])
    for k, p in sorted(seen.items()):
        for s in sts:
            x = effective(s, k)
            if x is None or not x['uses']:
                continue
            for o in e.run(s.fork(), 'vf_defined', [p]):
                res.paths += 1
                v = e.norm(o.state, o.value)
                if o.kind == 'ret' and v not in (0,):
                    res.bad.setdefault(('reset', role_name(k)), (
                        'the previous value of %s survives a reset of the dictionary' % role_name(k), ''))
    # destruction
    own = [p for k, p in sorted(seen.items()) if k[1] == 0 and KINDS[s.user['ask'].get((KIND, k[0]), 0)] in
           ('ascii', 'unicode', 'byte_vector')] if sts else []
    if not own:
        return
    for p in sorted(set(own), key=repr):
        sts = seq(sts, 'vf_own', [p])
    sts = seq(sts, 'vf_destroy', [R])
    for s in sts:
        res.paths += 1
        left = [o for o, x in s.mem.items() if x.tag == 'heap' and not x.freed]
        if left:
            res.bad.setdefault(('leak', ''), ('a string held by a dictionary entry is not released with the codec', ''))
        for ev in s.events:
            if ev[0] in ('UAF', 'DOUBLEFREE'):
                res.bad.setdefault(('release', ev[0]), ('%s of a string held by a dictionary entry' % ev[0], str(ev[-1])))


# -------------------------------------------------------------- presence bits
PK = list(KINDS) + ['sequence', 'group', 'set', 'templateref', 'int32 vector', 'uint32 vector', 'int64 vector', 'uint64 vector']
PSTR = (6, 7, 8)


def rule_bits(op, optional):
    """FAST 1.1 appendix 4: does a field occupy a bit"""
    if op == CONST:
        return int(bool(optional))
    return int(op in (DEFAULT, COPY, INCR, TAIL))


def want_bits(kind, op, opt, mop):
    if kind == 11:
        return int(bool(opt))
    if kind >= 13:
        return 0
    n = rule_bits(op, opt)
    if kind == 5:
        n += rule_bits(mop, 0)
    return n


def combos():
    for kind in range(len(PK)):
        if kind in (11, 13) or kind > 13:
            ops = (NONE,)
        elif kind in PSTR:
            ops = OPSOK['str']
        elif kind in (4, 5):
            ops = OPSOK['dec'] + ((INCR,) if kind == 5 else ())
        else:
            ops = OPSOK['int']
        for op in ops:
            for opt in ((0, 1) if kind != 13 else (0,)):
                for mop in (OPSOK['int'] if kind in (5, 10, 11) else (NONE,)):
                    yield kind, op, opt, mop


def t_pmap(e, name, part, parts):
    res = Result(name)
    res.und, res.bad, res.unknown = {}, {}, []
    base = e.base_state()
    rsize = e.run(base.fork(), 'vf_repo_size', [])[0].value
    if e.norm(base, rsize) != rsize:
        rsize = e.norm(base, rsize)
    FIELDS = ('bits', 'nullable', 'optional', 'op', 'inner', 'segment')

    def run(fn, args, pre=None):
        st = base.fork()
        o = e.new_obj(st, 48, 'zero', 'seen')
        a = [('P', o, 0)]
        if pre:
            r = ('P', e.new_obj(st, rsize, 'undef', 'repo'), 0)
            outs = e.run(st, 'vf_repo', [r])
            st = outs[0].state
            a.append(r)
        got = []
        for x in e.run(st, fn, a + args):
            if x.kind != 'ret':
                res.und['%s %s' % (fn, x.kind)] = 1
                continue
            got.append({f: e.norm(x.state, e.load(x.state, ('P', o, 8 * i), 8, 64)) for i, f in enumerate(FIELDS)})
        return got

    def expect(what, g, kind, op, opt, mop, seg=None):
        res.paths += 1
        w = {'bits': want_bits(kind, op, opt, mop), 'optional': int(bool(opt)) if kind != 13 else None,
             'nullable': int(bool(opt) and op != CONST) if kind not in (13,) else None}
        if kind in (10, 11):
            w['inner'] = rule_bits(mop, 0)
            if kind == 10:
                w['nullable'] = int(bool(opt))
        if seg is not None:
            w['segment'] = seg
        for f, v in w.items():
            if v is not None and g[f] != v:
                d = {'bits': 'occupies %s presence bits instead of %s', 'nullable': 'nullable is %s instead of %s',
                     'optional': 'optional is %s instead of %s', 'inner': 'reserves %s presence bits for its own segment instead of %s',
                     'segment': 'leaves its segment a reservation of %s presence bits instead of %s'}[f] % (g[f], v)
                k = '%s %s' % (f, PK[kind])
                res.bad.setdefault((f, PK[kind], what), ('%s: a field of kind %s, operator %d, %s%s %s' % (
                    what, PK[kind], op, 'optional' if opt else 'mandatory',
                    ', inner operator %d' % mop if kind in (5, 10, 11) else '', d), ''))
    for i, (kind, op, opt, mop) in enumerate(combos()):
        if i % parts != part:
            continue
        for g in run('vf_built', [kind, op, opt, mop]):
            expect('as built', g, kind, op, opt, mop)
        if kind <= 9 or kind == 12:
            for op0, opt0 in ((COPY if kind else DELTA, 1 - opt), (NONE, opt), (CONST, 1)):
                for first in (0, 1):
                    for g in run('vf_changed', [kind, op, opt, mop, op0, opt0, first]):
                        expect('changed after it was built', g, kind, op, opt, mop)
        for k2, o2, p2 in ((0, COPY, 0), (6, NONE, 1), (3, CONST, 1)):
            for g in run('vf_copied', [kind, op, opt, mop, k2, o2, p2], True):
                expect("a codec's own copy", g, kind, op, opt, mop, want_bits(kind, op, opt, mop) + rule_bits(o2, p2))
    res.unknown = sorted(e.unknown)
    return res


def _work(job):
    fn, args = job
    e = DictEngine(_PROG)
    try:
        r = globals()[fn](e, *args)
    except Exception as x:
        r = ended(Result(args[0]), args[0], x)
    r.fns = sorted(e.visited_fns)
    return r


def run_jobs(prog, jobs, procs=8):
    import multiprocessing
    global _PROG
    _PROG = prog
    with multiprocessing.get_context('fork').Pool(min(procs, max(1, len(jobs)))) as pool:
        return pool.map(_work, jobs, chunksize=1)


# ------------------------------------------------------------------ scenarios
def jobs(deep, what=None):
    js = []

    def job(name, ask, dom, reset=False, two=False):
        js.append(('t_dict', (name, ask, dom, reset, two)))

    def plus(a, b):
        a = dict(a)
        a.update(b)
        return a

    def probe(d):
        """B names everything explicitly"""
        a = {(CTX, 1): 1, (OP, 1): COPY, (KIND, 1): 0}
        s = {(ODICT, 1): d, (ONS, 1): 'ne', (OKEY, 1): 'ne', (TNAME, 1): 'ne', (FNAME, 1): 'ne'}
        return a, s
    base = {(OP, 0): COPY, (KIND, 0): 0, (SAMEDESC, 0): 1}
    names = {(FNAME, 0): 'ne', (TNAME, 0): 'ne'}

    def both(name, ask, dom, d, **kw):
        for order in (0, 1):
            a, s = probe(d)
            a.update(base)
            a.update(ask)
            a[(ORDER, 0)] = order
            s.update(names)
            s.update(dom)
            job('%s, %s' % (name, ('first', 'second')[order]), a, s, **kw)
    for wrap in (0, 1, 2):
        w = {(WRAP, 0): wrap}
        wn = ('', ' in a group', ' in a sequence')[wrap]
        # namespaces
        nsd = {(k, 0): 'free' for k in (DNS, TNS, GNS, FNS, ONS, OKEY)}
        d = dict(nsd)
        d[(ODICT, 0)] = 'other'
        both('namespace and key of a field with an operator context' + wn, plus(w, {(CTX, 0): 1}), d, 'other')
        both('namespace of a field without an operator context' + wn, w, nsd, 'global')
        # dictionaries
        dd = {(k, 0): 'free' for k in (DDICT, TDICT, GDICT, ODICT)}
        dd.update({(TTNS, 1): 'ne', (TTNS, 0): 'ne', (TREF, 0): 'ne', (TREF, 1): 'ne'})
        both('dictionary of a field with an operator context' + wn, plus(w, {(CTX, 0): 1}), dd, 'ne')
        dd = dict(dd)
        del dd[(ODICT, 0)]
        both('dictionary of a field without an operator context' + wn, w, dd, 'ne')
        # types
        td = {(k, 0): 'free' for k in (TREF, TREFNS, GREF, GREFNS, GNS, TNS)}
        td.update({(ODICT, 0): 'type', (DNS, 0): 'ne', (TREF, 1): 'ne', (TREFNS, 1): 'ne', (ONS, 0): 'ne'})
        both('application type' + wn, plus(w, {(CTX, 0): 1}), td, 'type')
    # template scope
    ns = {(TTNS, 0): 'free', (TTNS, 1): 'free', (DTNS, 0): 'free', (ODICT, 0): 'template', (DNS, 0): 'ne', (TNS, 0): 'free'}
    both('template scope', {(CTX, 0): 1}, ns, 'template')
    ns2 = dict(ns)
    ns2.update({(DTNS, 1): 'free', (DNS, 1): 'free', (DDICT, 1): 'free', (DDICT, 0): 'free'})
    both('template scope over two descriptions', {(CTX, 0): 1, (SAMEDESC, 0): 0}, ns2, 'template')
    both('scope ends with its element', {(SAMETEMPLATE, 0): 1, (WRAP, 0): 1},
         {(GNS, 0): 'ne', (GDICT, 0): 'ne', (GREF, 0): 'ne', (TNS, 0): 'free', (TDICT, 0): 'free', (TREF, 0): 'free'}, 'ne')
    # B after A's scope, implicit on both sides
    for wa, wb in ((1, 0), (0, 1), (2, 0), (1, 1)) if not deep else ((1, 0), (0, 1), (2, 0), (1, 1), (2, 2), (0, 2)):
        for sametmpl in (0, 1):
            for order in (0, 1):
                a = dict(base)
                a.update({(WRAP, 0): wa, (WRAP, 1): wb, (OP, 1): COPY, (SAMETEMPLATE, 0): sametmpl, (ORDER, 0): order})
                s = {(FNAME, 0): 'ne', (FNAME, 1): 'ne', (TNAME, 0): 'ne', (TNAME, 1): 'ne'}
                for k in (GNS, GDICT):
                    s[(k, 0)] = 'ne' if not deep else 'free'
                    s[(k, 1)] = 'free'
                for k in (TNS, TDICT):
                    s[(k, 0)] = 'free'
                s[(TREF, 0)] = s[(GREF, 0)] = 'ne'
                job('two fields without operator contexts, wrapped %d %d, %s template, order %d' % (
                    wa, wb, ('another', 'the same')[sametmpl], order), a, s)
    # nested scopes
    for h in (1, 2):
        for g in (1, 2):
            s = {(k, 0): 'free' for k in (HNS, HDICT, GNS, GDICT, TNS, TDICT)}
            s.update({(GREF, 0): 'ne', (TREF, 0): 'ne'})
            both('two levels (%s in %s)' % (('group', 'sequence')[h - 1], ('group', 'sequence')[g - 1]),
                 {(WRAP, 0): g, (WRAP2, 0): h}, s, 'ne')
            s = {(k, 0): 'free' for k in (HREF, HREFNS, GREF, HNS)}
            s.update({(TREF, 0): 'ne', (TREFNS, 0): 'ne', (ODICT, 0): 'type', (DNS, 0): 'ne', (TREF, 1): 'ne', (TREFNS, 1): 'ne', (ONS, 0): 'ne'})
            both('application types at two levels (%s in %s)' % (('group', 'sequence')[h - 1], ('group', 'sequence')[g - 1]),
                 {(WRAP, 0): g, (WRAP2, 0): h, (CTX, 0): 1}, s, 'type')
    # lengths
    for ctx in (0, 1):
        for g in (0, 1):
            s = {(k, 0): 'free' for k in (HNS, HDICT, LNAME, LNS, TNS, TDICT)}
            s.update({(GNS, 0): 'ne', (GDICT, 0): 'free'} if g else {})
            if ctx:
                s.update({(OKEY, 0): 'free', (ONS, 0): 'free', (ODICT, 0): 'free', (LNS, 0): 'free', (TNS, 0): '', (TDICT, 0): 'ne'})
                s[(GNS, 0)] = ''
            a = {(WRAP2, 0): 2, (LENGTH, 0): 1, (CTX, 0): ctx, (WRAP, 0): g, (KIND, 1): 1}
            both('length of a sequence%s%s' % (' in a group' if g else '', ' with an operator context' if ctx else ''),
                 a, s, 'ne', reset=True)
    for order in (0, 1):
        job('lengths of two sequences, order %d' % order,
            {(WRAP2, 0): 2, (WRAP2, 1): 2, (LENGTH, 0): 1, (LENGTH, 1): 1, (OP, 0): COPY, (OP, 1): COPY, (ORDER, 0): order,
             (SAMETEMPLATE, 0): 1},
            {(FNAME, 0): 'ne', (FNAME, 1): 'ne', (LNAME, 0): 'free', (LNAME, 1): 'free', (TNAME, 0): 'ne'})
    if what == 'scope':
        return js
    if what == 'kinds':
        js = []
    # kinds and operators
    for k1 in range(10):
        for k2 in range(10):
            job('%s and %s' % (KINDS[k1], KINDS[k2]),
                {(KIND, 0): k1, (KIND, 1): k2, (OP, 0): COPY, (OP, 1): DELTA, (SAMETEMPLATE, 0): 1, (CTX, 0): 1, (CTX, 1): 1},
                {(FNAME, 0): 'ne', (FNAME, 1): 'ne', (OKEY, 0): 'ne', (OKEY, 1): 'ne', (MKEY, 0): 'free', (MKEY, 1): 'ne',
                 (TNAME, 0): 'ne'}, True, k1 == k2)
    for op in USES[:3]:
        for order in (0, 1):
            job('a length with operator %d, order %d' % (op, order),
                {(WRAP2, 0): 2, (LENGTH, 0): 1, (OP, 0): op, (OP, 1): COPY, (KIND, 1): 1, (ORDER, 0): order, (SAMETEMPLATE, 0): order},
                {(FNAME, 0): 'ne', (FNAME, 1): 'ne', (LNAME, 0): 'free', (TNAME, 0): 'ne', (TNAME, 1): 'ne'}, True, True)
    for k in range(10):
        fam = 'dec' if k in (4, 5) else 'str' if k in (6, 7, 8) else 'int'
        for op in OPSOK[fam]:
            job('operator %d on %s' % (op, KINDS[k]),
                {(KIND, 0): k, (KIND, 1): k, (OP, 0): op, (OP, 1): COPY, (SAMEDESC, 0): 1, (ORDER, 0): op % 2},
                {(FNAME, 0): 'ne', (FNAME, 1): 'ne', (TNAME, 0): 'ne', (TNAME, 1): 'ne'}, True, True)
    return js
