"""Abstract strings: what is known about a string is the sequence of its parts.

A part is literal text or a symbolic name.  Symbolic names are compared by
identity, which is decided lazily: the first comparison a name takes part in
splits the state over the names it may be equal to.  C strings and
std::string objects share the representation; the members of std::string are
modelled by their documented meaning.
"""
import re
from .engine import Multi, Throw, Stop, NOTPRIM, cstr, AnalysisError

SEP = re.compile(r'(::|\|\|)')


def cat(*ps):
    out = []
    for p in ps:
        for x in p:
            if x == '':
                continue
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] = out[-1] + x
            else:
                out.append(x)
    return tuple(out)


def sub(st, parts):
    """parts with the decided names put in"""
    r = st.user.get('names', {})
    out = []
    for x in parts:
        if not isinstance(x, str):
            v = r.get(x)
            if v is not None:
                x = v
        out.append(x)
    return cat(tuple(out))


def comps(parts):
    out = [()]
    for x in parts:
        if isinstance(x, str):
            for j, t in enumerate(SEP.split(x)):
                if j % 2:
                    out.append((t,))
                    out.append(())
                elif t:
                    out[-1] = cat(out[-1], (t,))
        else:
            out[-1] = out[-1] + (x,)
    return out


def undecided(x):
    return isinstance(x, tuple) and x[0] == 'name'


def resolve(st, x):
    """a symbolic non-empty name becomes one of the atoms of its sort or a new one"""
    sort = x[1]
    names = st.user.get('names', {})
    used = sorted(set(v for v in names.values() if isinstance(v, tuple) and v[1] == sort))
    opts = list(used) + list(st.user.get('lits', {}).get(sort, ())) + [('atom', sort, len(used))]
    outs = []
    for i, o in enumerate(opts):
        s = st if i == len(opts) - 1 else st.fork()
        d = dict(names)
        d[x] = o
        s.user['names'] = d
        outs.append(s)
    return outs


def compare(st, p, q):
    """-> [(state, -1 | 0 | 1)]"""
    work, done = [st], []
    while work:
        s = work.pop()
        a, b = comps(sub(s, p)), comps(sub(s, q))
        r = None
        for x, y in zip(a, b):
            if x == y:
                continue
            u = [z for z in x + y if undecided(z)]
            if u:
                # decide the later one against what is already decided
                work.extend(resolve(s, u[0]))
                r = 'split'
                break
            r = -1 if repr(x) < repr(y) else 1
            break
        else:
            r = 0 if len(a) == len(b) else (-1 if len(a) < len(b) else 1)
        if r != 'split':
            done.append((s, r))
    return done


def at(e, st, p):
    if not isinstance(p, tuple):
        return None
    r = e.resolve_ptr(st, p)
    if r is None or r[0] == 'abs' or not isinstance(r[1], int):
        return None
    return r[0], r[1]


def new_cstr(e, st, parts):
    """a C string object with these parts"""
    parts = sub(st, parts)
    oid = e.new_obj(st, None, 'sym', 'text')
    o = st.wobj(oid)
    if not parts:
        o.cells[0] = (1, 0)
    elif all(isinstance(x, str) for x in parts):
        t = ''.join(parts)
        for i, ch in enumerate(t):
            o.cells[i] = (1, ord(ch) & 255)
        o.cells[len(t)] = (1, 0)
    else:
        o.cells[0] = (1, ord(parts[0][0]) if isinstance(parts[0], str) else 1)
    d = dict(st.user.get('cs', {}))
    d[oid] = parts
    st.user['cs'] = d
    return ('P', oid, 0)


def text(e, st, p):
    """parts of the C string at p, or None"""
    a = at(e, st, p)
    if a is None:
        return None
    if a[1] == 0 and a[0] in st.user.get('cs', {}):
        return sub(st, st.user['cs'][a[0]])
    c = cstr(e, st, p)
    return None if c is None else ((c,) if c else ())


def get(e, st, p):
    a = at(e, st, p)
    v = None if a is None else st.user.get('str', {}).get(a)
    return None if v is None else sub(st, v)


def put(e, st, p, parts):
    a = at(e, st, p)
    if a is None:
        raise AnalysisError('string at an unknown address')
    d = dict(st.user.get('str', {}))
    d[a] = cat(parts)
    st.user['str'] = d


def length(e, st, parts):
    parts = sub(st, parts)
    if all(isinstance(x, str) for x in parts):
        return sum(len(x) for x in parts)
    k = ('S', 64, ('strlen', parts))
    if k not in st.iv:
        st.iv[k] = (1, 1 << 20, 1, 1 << 20)
    return k


def argtypes(dem):
    """top level parameter types of a demangled name"""
    i = dem.rfind(')')
    depth, j = 0, i
    while j >= 0:
        if dem[j] == ')':
            depth += 1
        elif dem[j] == '(':
            depth -= 1
            if depth == 0:
                break
        j -= 1
    out, cur, d = [], '', 0
    for ch in dem[j + 1:i]:
        if ch in '(<[':
            d += 1
        if ch in ')>]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out, dem[:j]


STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'


def arg_text(e, st, ty, v, n=None):
    if STR in ty:
        return get(e, st, v)
    if ty.startswith('char const*') or ty.startswith('char*'):
        t = text(e, st, v)
        if t is not None and isinstance(n, int) and all(isinstance(x, str) for x in t):
            return (''.join(t)[:n],) if n else ()
        if t is not None and n is not None and not isinstance(n, int):
            # the whole of the text
            if e.norm(st, n) == length(e, st, t):
                return t
            return None
        if t is not None and isinstance(n, int):
            return None
        return t
    if ty == 'char':
        c = e.norm(st, v)
        return (chr(c & 255),) if isinstance(c, int) else None
    return None


def p_member(e, st, ins, a, dem):
    tys, head = argtypes(dem)
    m = head[len(STR) + 2:]
    m = re.sub(r'\[abi:\w+\]', '', m)
    m = re.sub(r'^basic_string<.*>$', 'basic_string', m)
    this = a[0]
    if m == '~basic_string' or m in ('reserve', 'shrink_to_fit', '_M_dispose'):
        return None
    if m == 'basic_string' or m in ('operator=', 'assign', 'append', 'operator+=', 'push_back'):
        args = a[1:]
        if tys and 'std::allocator' in tys[-1] and STR not in tys[-1]:
            tys = tys[:-1]
        if m == 'basic_string' and not tys:
            put(e, st, this, ())
            return None
        if len(tys) == 2 and tys[0] == 'unsigned long' and tys[1] == 'char':
            n, c = e.norm(st, args[0]), e.norm(st, args[1])
            if isinstance(n, int) and isinstance(c, int) and n < 4096:
                v = (chr(c & 255) * n,) if n else ()
            else:
                v = (('opaque', repr((n, c))),)
        elif len(tys) == 2 and tys[0].startswith('char') and tys[1].startswith('char') and '*' in tys[1]:
            x, y = at(e, st, args[0]), at(e, st, args[1])
            n = None
            if x and y and x[0] == y[0]:
                n = y[1] - x[1]
            v = arg_text(e, st, tys[0], args[0], n) if n is not None else None
        else:
            n = e.norm(st, args[1]) if len(tys) == 2 and tys[1] == 'unsigned long' else None
            v = arg_text(e, st, tys[0], args[0], n)
        if v is None:
            v = (('opaque', '%s@%s' % (m, repr(args)[:60])),)
            st.user['opaque'] = st.user.get('opaque', 0) + 1
        if m in ('append', 'operator+=', 'push_back'):
            v = cat(get(e, st, this) or (), v)
        put(e, st, this, v)
        return None if m in ('basic_string', 'push_back') else this
    cur = get(e, st, this)
    if cur is None:
        return NOTPRIM
    if m in ('c_str', 'data', '_M_data'):
        return new_cstr(e, st, cur)
    if m in ('size', 'length'):
        return length(e, st, cur)
    if m == 'empty':
        return 0 if cur else 1
    if m == 'clear':
        put(e, st, this, ())
        return None
    if m == 'swap':
        o = get(e, st, a[1])
        put(e, st, this, o or ())
        put(e, st, a[1], cur)
        return None
    if m == 'compare' and len(tys) == 1:
        o = arg_text(e, st, tys[0], a[1])
        if o is None:
            return NOTPRIM
        return Multi([(s, r & 0xffffffff) for s, r in compare(st, cur, o)])
    return NOTPRIM


def p_free(e, st, ins, a, dem):
    m = re.search(r'std::operator(==|!=|<=|>=|<|>|\+)<char', dem)
    tys, head = argtypes(dem)
    op = m.group(1)
    if op == '+':
        x, y = arg_text(e, st, tys[0], a[1]), arg_text(e, st, tys[1], a[2])
        if x is None or y is None:
            return NOTPRIM
        put(e, st, a[0], cat(x, y))
        return None
    x, y = arg_text(e, st, tys[0], a[0]), arg_text(e, st, tys[1], a[1])
    if x is None or y is None:
        return NOTPRIM
    f = {'==': lambda r: r == 0, '!=': lambda r: r != 0, '<': lambda r: r < 0, '>': lambda r: r > 0,
         '<=': lambda r: r <= 0, '>=': lambda r: r >= 0}[op]
    return Multi([(s, int(f(r))) for s, r in compare(st, x, y)])


def p_strcmp(e, st, ins, a, dem):
    x, y = text(e, st, a[0]), text(e, st, a[1])
    if x is None or y is None:
        return NOTPRIM
    return Multi([(s, r & 0xffffffff) for s, r in compare(st, x, y)])


def p_strlen(e, st, ins, a, dem):
    t = text(e, st, a[0])
    if t is None:
        return NOTPRIM
    return length(e, st, t)


def install(e):
    P = e.prim
    P('^' + re.escape(STR) + '::', p_member)
    P(r'std::operator(==|!=|<|>|<=|>=|\+)<char, std::char_traits<char>', p_free)
    P(r'^strcmp$', p_strcmp)
    P(r'^strlen$|^std::char_traits<char>::length\(', p_strlen)
