"""Abstract semantics of the wire primitives used by the FAST operator rules."""
import re
from . import terms as T
from .engine import Engine, State, Outcome, Multi, Throw, Stop, NOTPRIM, AnalysisError, cstr

INTW = {'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'short': 16, 'unsigned short': 16,
        'signed char': 8, 'unsigned char': 8, 'char': 8}


def template_args(dem, after):
    """template arguments following the name `after` in a demangled name"""
    i = dem.find(after + '<')
    if i < 0:
        return []
    i += len(after) + 1
    depth = 0
    out = ['']
    while i < len(dem):
        c = dem[i]
        if c == '>' and depth == 0:
            break
        if c == '<':
            depth += 1
        if c == '>':
            depth -= 1
        if c == ',' and depth == 0:
            out.append('')
        else:
            out[-1] += c
        i += 1
    return [x.strip() for x in out]


def params(dem):
    """top-level parameter types of a demangled function name"""
    # the parameter list is the last top-level parenthesised group
    d = dem
    end = d.rfind(')')
    depth = 0
    i = end
    while i >= 0:
        if d[i] == ')':
            depth += 1
        elif d[i] == '(':
            depth -= 1
            if depth == 0:
                break
        i -= 1
    body = d[i + 1:end]
    out = ['']
    depth = 0
    for c in body:
        if c in '<(':
            depth += 1
        elif c in '>)':
            depth -= 1
        if c == ',' and depth == 0:
            out.append('')
        else:
            out[-1] += c
    return [x.strip() for x in out if x.strip()]


def nullable_of(e, st, dem, targs, args, default_index):
    """value of the Nullable argument: constant or i1 term"""
    for t in targs:
        m = re.match(r'std::integral_constant<bool, (true|false)>$', t)
        if m:
            return int(m.group(1) == 'true')
    for t in targs:
        if t == 'bool':
            return e.norm(st, T.slice_(args[default_index], T.width(args[default_index], 1), 0, 1)) \
                if not isinstance(args[default_index], int) else args[default_index] & 1
    raise AnalysisError('nullable argument of %s' % dem)


def resolve_bool(e, st, v, cont):
    """run cont(state, bool) for each feasible value of v"""
    d = e.decide(st, v)
    if d is not None:
        return cont(st, d)
    s2 = st.fork()
    outs = []
    for s, b in ((st, True), (s2, False)):
        if e.assume(s, e.split(s, v), b):
            r = cont(s, b)
            outs.extend(r.outs if isinstance(r, Multi) else [(s, r)])
    return Multi(outs)


def p_decode_int(e, st, ins, a, dem):
    targs = template_args(dem, 'fast_istream::decode')
    if not targs or targs[0] not in INTW:
        return NOTPRIM
    w = INTW[targs[0]]
    nl = nullable_of(e, st, dem, targs[1:], a, 2)

    def cont(s, n):
        outs = []
        k = s.user.get('nread', 0)
        s.user['nread'] = k + 1
        if n:
            s2 = s.fork()
            s2.events.append(('READ', targs[0], True, 'null', e.where(s2)))
            s2.user['key'] = s2.user.get('key', ()) + ('N',)
            outs.append((s2, 0))
        s.events.append(('READ', targs[0], bool(n), 'value', e.where(s)))
        s.user['key'] = s.user.get('key', ()) + ('V',)
        if s.user.get('splitint') and targs[0] == 'int':
            # the subtraction length: both signs, as two abstract values
            s3 = s.fork()
            a1, a2 = ('S', 32, 'sub%d' % k), ('S', 32, 'ncut%d' % k)
            for q, at, v in ((s, a1, a1), (s3, a2, T.not_(a2, 32))):
                q.iv[at] = (0, (1 << 31) - 1, 0, (1 << 31) - 1)
                q.user['sub'] = ('+' if at is a1 else '-', at)
                e.store(q, v, a[1], 4, 32)
                outs.append((q, 1))
            return Multi(outs)
        e.store(s, ('S', w, 'wire%d' % k), a[1], w // 8, w)
        outs.append((s, 1))
        return Multi(outs)
    return resolve_bool(e, st, nl, cont)


def p_decode_str(e, st, ins, a, dem):
    ps = params(dem)
    kind = [k for k in ('ascii', 'unicode', 'byte_vector') if any(k + '_field_instruction' in p for p in ps)]
    if not kind:
        return NOTPRIM
    kind = kind[0]
    targs = template_args(dem, 'fast_istream::decode')
    nl = nullable_of(e, st, dem, targs, a, 4)

    def cont(s, n):
        outs = []
        k = s.user.get('nread', 0)
        s.user['nread'] = k + 1
        if n:
            s2 = s.fork()
            s2.events.append(('READ', kind, True, 'null', e.where(s2)))
            s2.user['key'] = s2.user.get('key', ()) + ('N',)
            outs.append((s2, 0))
        s.events.append(('READ', kind, bool(n), 'value', e.where(s)))
        s.user['key'] = s.user.get('key', ()) + ('V',)
        oid = e.new_obj(s, None, 'sym', 'wirebuf')
        s.user['wirebuf%d' % k] = oid
        ln = ('S', 32, 'wlen%d' % k)
        s.iv[ln] = (0, (1 << 24) - 1, 0, (1 << 24) - 1)
        e.store(s, ('P', oid, 0), a[1], 8, 64)
        e.store(s, ln, a[2], 4, 32)
        outs.append((s, 1))
        return Multi(outs)
    return resolve_bool(e, st, nl, cont)


def p_pmap_bit(e, st, ins, a, dem):
    s2 = st.fork()
    for s, b in ((st, 1), (s2, 0)):
        s.events.append(('BIT', b, e.where(s)))
        s.user['key'] = s.user.get('key', ()) + (b,)
    return Multi([(st, 1), (s2, 0)])


def p_err_ctor(e, st, ins, a, dem):
    if isinstance(a[0], tuple) and a[0][0] == 'P':
        st.user[('exc', a[0][1])] = cstr(e, st, a[-1])
    return None


def p_first(e, st, ins, a, dem):
    return a[0]


def p_none(e, st, ins, a, dem):
    return None


def p_set_bit(e, st, ins, a, dem):
    v = a[1]
    v = e.norm(st, v)

    def cont(s, b):
        s.events.append(('BIT', int(b), e.where(s)))
        s.user['key'] = s.user.get('key', ()) + (int(b),)
        return Multi([(s, None)])
    if not isinstance(v, int) and T.width(v) != 1:
        v = e.icmp(st, 'ne', T.width(v), v, 0)
    return resolve_bool(e, st, v, cont)


def p_encode_null(e, st, ins, a, dem):
    write(e, st, 'NULL', True, None)
    return None


def write(e, st, kind, nullable, val):
    """one value appended to the stream: token N (NULL) or V"""
    st.events.append(('WRITE', kind, nullable, val, e.where(st)))
    st.user['key'] = st.user.get('key', ()) + ('N' if kind == 'NULL' else 'V',)
    st.user['wire'] = st.user.get('wire', ()) + ((kind, nullable, val),)


def p_encode(e, st, ins, a, dem):
    ps = params(dem)
    kind = [k for k in ('ascii', 'unicode', 'byte_vector') if any(k + '_field_instruction' in p for p in ps)]
    targs = template_args(dem, 'fast_ostream::encode')
    if kind:
        kind = kind[0]
        nl = nullable_of(e, st, dem, targs, a, 4)
        isnull = e.icmp(st, 'eq', 64, a[1], 0)

        def val(s):
            return (e.norm(s, a[1]), e.norm(s, a[2]), snap(e, s, a[1]))
    elif targs and targs[0] in INTW:
        kind = targs[0]
        nl = nullable_of(e, st, dem, targs[1:], a, 3)
        isnull = a[2]

        def val(s):
            return e.norm(s, a[1])
    else:
        return NOTPRIM

    def cont(s, n):
        if not n:
            write(e, s, kind, False, val(s))
            return Multi([(s, None)])

        def c2(s3, nul):
            write(e, s3, 'NULL' if nul else kind, True, None if nul else val(s3))
            return Multi([(s3, None)])
        return resolve_bool(e, s, isnull, c2)
    return resolve_bool(e, st, nl, cont)


def p_std_copy(e, st, ins, a, dem):
    targs = template_args(dem, 'std::copy')
    if not targs:
        return NOTPRIM
    t = targs[0].replace(' const', '')
    t2 = targs[1].replace(' const', '') if len(targs) > 1 else t
    sizes = {'char*': 1, 'unsigned char*': 1, 'mfast::utf8_char*': 1, 'signed char*': 1,
             'int*': 4, 'unsigned int*': 4, 'long*': 8, 'unsigned long*': 8}
    if t not in sizes or sizes[t] != sizes.get(t2):
        return NOTPRIM
    n = T.sub(e.norm(st, a[1]), e.norm(st, a[0]), 64)
    e.memcpy(st, a[2], a[0], n)
    return e.padd(a[2], n)


def affine(e, st, t):
    t = e.norm(st, t)
    if isinstance(t, int):
        return (T.signed(t & T.mask(64), 64), {})
    return e.alin(st, t, 64, 's') or e.alin(st, t, 64, 'u') or e.alin(st, t, 64, 's', False)


def neg(a):
    return (-a[0], {x: -k for x, k in a[1].items()})


def range_ok(e, st, p, n, what, back=False):
    """obligation: [p, p+n) (or [p-n, p)) lies within the known extent of its object"""
    na = affine(e, st, n)
    p = e.norm(st, p)
    if isinstance(p, int):
        if na is not None and e.ahi(st, na) > 0:
            st.events.append(('RANGE', what, 'null', e.where(st)))
        return
    oid, off = e.resolve_ptr(st, p)
    ext = st.user.get('extent', {}).get(oid)
    if ext is None or na is None:
        return
    oa = affine(e, st, off)
    if oa is None:
        return
    e0 = affine(e, st, ext)
    if back:
        need = e._asub(oa, na)
    else:
        need = e._asub(e._asub(e0, oa), na)
    st.user['range_checks'] = st.user.get('range_checks', 0) + 1
    if e.alo(st, need) < 0:
        st.events.append(('RANGE', what, st.mem[oid].tag, e.where(st)))


def snap(e, st, p):
    """content identity: (object, number of writes so far, offset)"""
    p = e.norm(st, p)
    if isinstance(p, int):
        return None
    oid, off = e.resolve_ptr(st, p)
    return (oid, len(st.mem[oid].log), off)


def equal_content(e, st, a, b, n):
    sa, sb = snap(e, st, a), snap(e, st, b)
    if sa is not None and sb is not None:
        st.user['eqs'] = st.user.get('eqs', ()) + ((sa, sb, e.norm(st, n)),)


ELEM = {'char const*': 1, 'char*': 1, 'unsigned char const*': 1, 'unsigned char*': 1, 'mfast::utf8_char const*': 1}


def p_mismatch(e, st, ins, a, dem):
    """std::mismatch: the length k of the common run is abstract; the first k
    elements are equal.  The three-iterator form reads the second range up to
    the length of the first: an obligation (RANGE) on the second range."""
    ts = template_args(dem, ' std::mismatch')
    if len(ts) != 2:
        return NOTPRIM
    rev = [t.startswith('std::reverse_iterator<') for t in ts]
    inner = [t[len('std::reverse_iterator<'):-1] if r else t for t, r in zip(ts, rev)]
    if rev[0] != rev[1] or any(x not in ELEM for x in inner):
        return NOTPRIM
    rv = rev[0]
    if rv:
        ret, its = a[0], [e.norm(st, e.load(st, x, 8, 64)) for x in a[1:]]
    else:
        its = [e.norm(st, x) for x in a]
    if len(its) not in (3, 4):
        return NOTPRIM
    f1, l1, f2 = its[:3]
    n1 = T.sub(f1, l1, 64) if rv else T.sub(l1, f1, 64)
    if T.is_ptr(n1):
        return NOTPRIM
    n1 = e.norm(st, n1)
    k = st.fresh(32, 'run')
    st.iv[k] = (0, (1 << 24) - 1, 0, (1 << 24) - 1)
    k64 = T.zext(k, 32, 64)
    if not e.assume_cmp(st, 'ule', 64, k64, n1):
        raise AnalysisError('mismatch range')
    if len(its) == 4:
        l2 = its[3]
        n2 = T.sub(f2, l2, 64) if rv else T.sub(l2, f2, 64)
        if T.is_ptr(n2):
            return NOTPRIM
        e.assume_cmp(st, 'ule', 64, k64, e.norm(st, n2))
        range_ok(e, st, f2, n2, 'mismatch second range', rv)
    else:
        range_ok(e, st, f2, n1, 'mismatch second range', rv)
    range_ok(e, st, f1, n1, 'mismatch first range', rv)
    if rv:
        r1, r2 = T.sub(f1, k64, 64), T.sub(f2, k64, 64)
        equal_content(e, st, r1, r2, k64)
        e.store(st, r1, ret, 8, 64)
        e.store(st, r2, e.padd(ret, 8), 8, 64)
        return None
    equal_content(e, st, f1, f2, k64)
    return ('A', [e.padd(f1, k64), e.padd(f2, k64)])


def p_memcmp(e, st, ins, a, dem):
    n = e.norm(st, a[2])
    if isinstance(n, int) and n == 0:
        return 0
    range_ok(e, st, a[0], n, 'memcmp first operand')
    range_ok(e, st, a[1], n, 'memcmp second operand')
    s2 = st.fork()
    outs = []
    equal_content(e, st, a[0], a[1], n)
    outs.append((st, 0))
    if e.assume_cmp(s2, 'ne', 64, n, 0):
        r = s2.fresh(32, 'memcmp')
        e.assume_cmp(s2, 'ne', 32, r, 0)
        outs.append((s2, r))
    return Multi(outs)


def p_std_equal(e, st, ins, a, dem):
    ts = template_args(dem, ' std::equal')
    if len(ts) != 2 or any(t not in ELEM for t in ts) or len(a) not in (3, 4):
        return NOTPRIM
    n = T.sub(e.norm(st, a[1]), e.norm(st, a[0]), 64)
    if T.is_ptr(n):
        return NOTPRIM
    if len(a) == 4:
        n2 = T.sub(e.norm(st, a[3]), e.norm(st, a[2]), 64)
        if T.is_ptr(n2) or e.cmp(st, 'eq', 64, n, n2) is not True:
            return NOTPRIM
    r = p_memcmp(e, st, ins, [a[0], a[2], n], dem)
    if r == 0:
        return 1
    return Multi([(s, 1 if isinstance(v, int) else 0) for s, v in r.outs])


def p_reallocate(e, st, ins, a, d):
    """allocator contract: fresh storage, old content moved, old storage gone"""
    old = e.norm(st, e.load(st, a[1], 8, 64))
    n = e.norm(st, a[3])
    if isinstance(n, int):
        n += e.SLACK           # an allocator may return more than asked for
    oid = e.new_obj(st, n if isinstance(n, int) else None, 'undef', 'heap')
    if not (isinstance(old, int) and old == 0):
        e.memcpy(st, ('P', oid, 0), old, e.norm(st, a[2]))
        p_deallocate(e, st, ins, [a[0], old, a[2]], d)
    e.store(st, ('P', oid, 0), a[1], 8, 64)
    return n


def p_deallocate(e, st, ins, a, d):
    p = e.norm(st, a[1])
    if isinstance(p, int) and p == 0:
        return None
    r = e.resolve_ptr(st, p)
    if isinstance(p, tuple) and p[0] == 'S' and isinstance(p[2], tuple) and p[2][0] == 'uninit':
        st.events.append(('UNINIT', 'a pointer never initialised is released', e.where(st)))
    if r and r[0] != 'abs':
        o = st.wobj(r[0])
        if o.freed:
            st.events.append(('DOUBLEFREE', o.tag, e.where(st)))
        o.freed = True
    return None


def p_allocate(e, st, ins, a, d):
    n = e.norm(st, a[1])
    return ('P', e.new_obj(st, n if isinstance(n, int) else None, 'undef', 'heap'), 0)


class FastEngine(Engine):
    SLACK = 0

    def __init__(self, prog):
        Engine.__init__(self, prog)
        P = self.prim
        P(r'mfast::fast_istream::decode<', lambda e, s, i, a, d: p_decode_str(e, s, i, a, d) if '_field_instruction' in d else p_decode_int(e, s, i, a, d))
        P(r'^mfast::decoder_presence_map::is_next_bit_set\(', p_pmap_bit)
        P(r'^mfast::fast_(dynamic|static|reportable)_error::fast_(dynamic|static|reportable)_error\(char const\*\)', p_err_ctor)
        P(r'boost::exception_detail::set_info|boost::operator<< ?<|boost::operator<<.*error_info', p_first)
        P(r'^void mfast::check_overflow<', p_none)
        P(r'^mfast::encoder_presence_map::set_next_bit\(', p_set_bit)
        P(r'^mfast::fast_ostream::encode_null\(', p_encode_null)
        P(r'mfast::fast_ostream::encode<', p_encode)
        P(r'^llvm\.expect', p_first)
        P(r' std::copy<', p_std_copy)
        P(r' std::mismatch<', p_mismatch)
        P(r'^memcmp$|^bcmp$|^__builtin_memcmp', p_memcmp)
        P(r'^bool std::equal<', p_std_equal)
        P(r'^boost::(?!io::).*::~|^mfast::fast_(dynamic|static|reportable)_error::~|^std::(bad_)?\w*(exception|bad_alloc)::~|^llvm\.invariant', p_none)
        P(r'^mfast::malloc_allocator::reallocate\(', p_reallocate)
        P(r'^mfast::malloc_allocator::deallocate\(', p_deallocate)
        P(r'^mfast::malloc_allocator::allocate\(', p_allocate)

    def base_state(self):
        """state after the analysed static initialisers"""
        if getattr(self, '_base', None) is None:
            st = State()
            gw, self.gw = self.gw, None
            try:
                for c in self.prog['ctors']:
                    fi = self.prog['functions'].get(c)
                    if not fi or fi['decl']:
                        continue
                    outs = self.run(st, c, [])
                    rets = [o for o in outs if o.kind == 'ret']
                    if len(rets) != 1:
                        continue
                    st = rets[0].state
            finally:
                self.gw = gw
            st.events = []
            st.path = []
            self._base = st
        return self._base.fork()
