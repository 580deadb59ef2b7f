"""Views: the fields an iterator yields against the references of the <view> element and the content of the message (V01)."""
from . import terms as T
from .engine import AnalysisError, ended
from .tmpl import El, XmlEngine, mk
from . import js
from .walk import Result

WHERE = 'src/mfast/view_iterator.cpp'

# kind, name, fields; o: optional. The id tells an aggregate from another one.
SHAPE = (('u', 'a', 1), ('u', 'b', 1),
         ('g', 'g', 1, 70, (('u', 'x', 1), ('g', 'h', 1, 71, (('u', 'z', 1), ('u', 'v', 1))), ('u', 'y', 1))),
         ('s', 's', 1, 72, (('u', 'p', 1), ('g', 'n', 1, 73, (('u', 'q', 1),)), ('s', 'u', 1, 74, (('u', 'w', 1), ('u', 't', 0))), ('u', 'k', 0))),
         ('s', 'e', 0, 75, (('u', '', 0),)),
         ('g', 'm', 0, 76, (('u', 'c', 1),)))

ALL = ['a', 'b', 'g', 'g.x', 'g.y', 'g.h', 'g.h.z', 'g.h.v', 's', 's[0]', 's[0].p', 's[1].p', 's[2].k', 's[0].n', 's[0].n.q', 's[1].n.q', 's[0].u',
       's[0].u[0].w', 's[0].u[1].w', 's[0].u[1].t', 's[0].u[0]', 's[0].k', 'e', 'e[0]', 'e[1]', 'e[0].', 'm', 'm.c']
SOME = ['a', 'g', 'g.x', 'g.h.z', 'g.y', 's[0]', 's[0].p', 's[0].n.q', 's[1].p', 's[0].u[0].w', 's[0].u[1].w', 'm.c']


def document(views, shape=SHAPE):
    def fld(f):
        a = {'presence': 'optional' if f[2] else 'mandatory'}
        if f[1]:
            a['name'] = f[1]
        if f[0] == 'u':
            return El('uInt32', a)
        a['id'] = str(f[3])
        return El('group' if f[0] == 'g' else 'sequence', a, *[fld(x) for x in f[4]])
    t = El('template', {'name': 'P', 'id': '1'}, *[fld(f) for f in shape])
    vs = [El('view', {'name': 'V%d' % i, 'reference': 'P'},
             *[El('field', {'name': 'f%d' % j}, *[El('reference', {'name': r}) for r in alts]) for j, alts in enumerate(v)]) for i, v in enumerate(views)]
    return El('templates', {}, t, *vs)


# a content: one entry for each field; None absent, 1 present, a tuple for a group, a tuple of tuples for a sequence
def full(shape, n):
    return tuple(1 if f[0] == 'u' else full(f[4], n) if f[0] == 'g' else tuple(full(f[4], n) for _ in range(n)) for f in shape)


def empty(shape):
    return tuple((None if f[2] else 1) if f[0] == 'u' else (None if f[2] else empty(f[4])) if f[0] == 'g' else (None if f[2] else ()) for f in shape)


def without(shape, c):
    """every content with one optional thing less, or one element less"""
    for i, f in enumerate(shape):
        rep = lambda x: c[:i] + (x,) + c[i + 1:]
        if c[i] is None:
            continue
        if f[2]:
            yield rep(None)
        if f[0] == 'g':
            for x in without(f[4], c[i]):
                yield rep(x)
        elif f[0] == 's':
            for n in range(len(c[i])):
                yield rep(c[i][:n])
            for j, el in enumerate(c[i]):
                for x in without(f[4], el):
                    yield rep(c[i][:j] + (x,) + c[i][j + 1:])


def contents(deep):
    out = [full(SHAPE, 2), empty(SHAPE), full(SHAPE, 1)]
    out += list(without(SHAPE, full(SHAPE, 2 if deep else 1)))
    return list(dict.fromkeys(out))


def puts(shape, c, at=()):
    """the operations that give a message its content"""
    for i, f in enumerate(shape):
        p = at + (i,)
        if c[i] is None:
            continue
        if f[0] == 'u':
            yield p, None
        elif f[0] == 'g':
            yield p, 0
            for x in puts(f[4], c[i], p):
                yield x
        else:
            yield p, len(c[i])
            for j, el in enumerate(c[i]):
                for x in puts(f[4], el, p + (j,)):
                    yield x


def resolve(ref, shape, c, at=()):
    """what a reference stands for: None, ('v', path of the number) or ('i', id)"""
    head, _, rest = ref.partition('.')
    more = '.' in ref
    name, _, idx = head.partition('[')
    i = [f[1] for f in shape].index(name)
    f, x = shape[i], c[i]
    if x is None:
        return None
    at = at + (i,)
    if f[0] == 'u':
        return 'v', at
    if f[0] == 'g':
        return resolve(rest, f[4], x, at) if more else ('i', f[3])
    if not idx:
        return 'i', f[3]
    j = int(idx[:-1])
    if j >= len(x):
        return None
    at = at + (j,)
    # a whole element: the first of its fields
    return resolve(rest if more else f[4][0][1], f[4], x[j], at)


def views(deep):
    out = [[]] + [[[r]] for r in ALL] + [[[]], [['a'], []], [[], ['b']]]
    for x in ALL:
        for y in ALL:
            out += [[[x, y]], [[x], [y]]]
    n = 0
    for x in SOME:
        for y in SOME:
            for z in SOME:
                if x == y == z:
                    continue
                three = [[[x, y, z]], [[x, y], [z]], [[x], [y, z]], [[x], [y], [z]]]
                n += 1
                if deep:
                    out += three
                elif n % 5 == 0:
                    out += three[1:3]
    return out


def start(e, vs):
    s = e.base_state().fork()
    s.user['docs'] = (document(vs),)
    s.user.pop('seen', None)
    outs = e.run(s, 'vf_load', [mk(e, s, list(b'doc'))])
    if len(outs) != 1 or outs[0].kind != 'ret':
        raise AnalysisError('loading the document: %s' % [(o.kind, str(o.value)[:80]) for o in outs][:2])
    return outs[0].state, outs[0].value


def only(outs, what):
    if len(outs) != 1 or outs[0].kind != 'ret':
        raise AnalysisError('%s: %s' % (what, [o.kind for o in outs][:3]))
    return outs[0].state


def fill(e, s, desc, c):
    oid = e.new_obj(s, 256, 'undef', 'message')
    msg = ('P', oid, 0)
    s = only(e.run(s, 'vf_message', [msg, desc, 0]), 'constructing a message')
    val = {}
    for p, n in puts(SHAPE, c):
        a = e.new_obj(s, 8 * (len(p) + 1), 'undef', 'path')
        for k, i in enumerate(p + (-1,)):
            e.store(s, i & (1 << 64) - 1, ('P', a, 8 * k), 8, 64)
        if n is None:
            n = val[p] = s.fresh(32, 'f%s' % '_'.join(map(str, p)))
        s = only(e.run(s, 'vf_put', [msg, ('P', a, 0), n]), 'filling a message')
    return s, msg, val


def t_views(e, name, vs, cs):
    res = Result(name)
    s0, desc = start(e, vs)
    m = js.memory(s0)
    if m:
        js.add(res, (m[0], 'loading'), '%s: %s' % (name, m[1]), m[2])
        return res
    for c in cs:
        s1, msg, val = fill(e, s0.fork(), desc, c)
        for k, v in enumerate(vs):
            want = []
            for alts in v:
                if not alts:
                    continue
                got = [r for r in (resolve(a, SHAPE, c) for a in alts) if r]
                want.append(('absent',) if not got else got[0])
            st = s1.fork()
            st.user['seen'] = ()
            for o in e.run(st, 'vf_view', [msg, desc, k]):
                if o.kind in ('cut', 'bound'):
                    res.bounded += 1
                    continue
                if o.kind == 'stuck':
                    res.und['%s: %s' % (name, o.value)] = 1
                    continue
                res.paths += 1
                m = js.memory(o.state)
                wh = o.value.get('where') if o.kind == 'throw' else e.where(o.state)
                txt = None
                if m:
                    txt, wh = m[1], m[2]
                elif o.kind != 'ret':
                    txt = '%s %s' % (o.kind, str(o.value)[:80])
                else:
                    seen = o.state.user['seen']
                    if len(seen) != len(want):
                        txt = 'the iterator yields %d fields instead of %d' % (len(seen), len(want))
                        if len(seen) >= 8:
                            txt = 'the iterator does not reach its end'
                    else:
                        for i, (w, g) in enumerate(zip(want, seen)):
                            ok = g[0] == 0 if w[0] == 'absent' else g[0] == 2 and g[1] == w[1] if w[0] == 'i' else g[0] == 1 and g[1] == e.norm(o.state, T.zext(val[w[1]], 32, 64))
                            if not ok:
                                txt = 'field %d of the view is %s instead of %s' % (i + 1, told(g, val, e, o.state), told_w(w))
                                break
                    wh = WHERE
                if txt:
                    js.add(res, (txt.split(' instead')[0][:60], ' | '.join(', '.join(a) for a in v)),
                           '%s for the references %s of a message with %s' % (txt, ' | '.join(', '.join(a) for a in v), content(c)), wh)
    return res


def told(g, val, e, st):
    if g[0] == 0:
        return 'absent'
    if g[0] == 2:
        return 'the aggregate %s' % g[1]
    return 'the number %s' % (T.fmt(g[1]) if not isinstance(g[1], int) else g[1])


def told_w(w):
    return 'absent' if w[0] == 'absent' else 'the aggregate %d' % w[1] if w[0] == 'i' else 'the number at %s' % '.'.join(map(str, w[1]))


def content(c, shape=SHAPE):
    out = []
    for f, x in zip(shape, c):
        if x is None:
            continue
        n = f[1] or '.'
        out.append(n if f[0] == 'u' else '%s(%s)' % (n, content(x, f[4])) if f[0] == 'g' else '%s[%s]' % (n, '; '.join(content(y, f[4]) for y in x)))
    return ' '.join(out)


def t_refused(e, name, ref, view='P'):
    res = Result(name)
    s = e.base_state().fork()
    d = document([[[ref]]])
    d.kids[-1].attrs = [(k, view if k == 'reference' else v) for k, v in d.kids[-1].attrs]
    s.user['docs'] = (d,)
    for o in e.run(s, 'vf_load', [mk(e, s, list(b'doc'))]):
        if o.kind in ('cut', 'bound', 'stuck'):
            res.und['%s: %s' % (name, o.kind)] = 1
            continue
        res.paths += 1
        m = js.memory(o.state)
        if m:
            js.add(res, (m[0],), '%s: %s' % (name, m[1]), m[2])
        elif o.kind != 'throw':
            js.add(res, ('accepted',), 'the reference "%s" into "%s" is accepted' % (ref, view), 'src/mfast/xml_parser/view_info_builder.cpp')
    return res


def jobs(deep):
    out = []
    vs = views(deep)
    cs = contents(deep)
    few = cs[:3] + cs[3::7]
    n = 40
    head = [v for v in vs if sum(map(len, v)) < 3]
    tail = [v for v in vs if sum(map(len, v)) >= 3]
    for what, l, c in (('one and two references', head, cs if deep else cs[:3] + cs[3::3]), ('three references', tail, few)):
        for i in range(0, len(l), n):
            out.append(('t_views', ('%s: part %d' % (what, i // n), l[i:i + n], c), {}))
    for r in ('zz', 'g.zz', 's[].p', 's[x].p', 's.p', 'a[0]', 's[0', 's[0].n.zz', 'g[0].x'):
        out.append(('t_refused', ('the reference %s' % r, r), {}))
    out.append(('t_refused', ('an unknown template', 'a', 'Q'), {}))
    return out


def _work(job):
    fn, args, kw = job
    e = XmlEngine(_PROG)
    e.gw = set()
    try:
        r = globals()[fn](e, *args, **kw)
    except Exception as x:
        r = ended(Result(args[0]), args[0], x)
    r.fns = sorted(e.visited_fns)
    r.gw = sorted(e.gw)
    r.unknown = sorted(e.unknown)
    return r


def run_jobs(prog, jobs, procs=8):
    import multiprocessing
    global _PROG, _JOBS
    _PROG, _JOBS = prog, jobs
    with multiprocessing.get_context('fork').Pool(min(procs, max(1, len(jobs)))) as pool:
        return pool.map(_nth, range(len(jobs)), chunksize=1)


def _nth(i):
    return _work(_JOBS[i])
