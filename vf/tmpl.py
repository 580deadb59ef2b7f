"""Loading XML templates: the instructions a description gets against the ones its elements and attributes prescribe."""
import re
from . import terms as T
from .engine import AnalysisError, Multi, NOTPRIM, Stop, Throw, p_boost_throw, ended
from .fast import FastEngine
from .dict import install_tree
from . import js
from .js import guarded, zstr, byte
from .walk import Result


# ------------------------------------------------------------------- documents
class El(object):
    """an element; the order of its attributes is that of the text"""
    n = 0

    def __init__(self, tag, attrs=(), *kids):
        self.tag, self.attrs, self.kids = tag, list(attrs.items()) if isinstance(attrs, dict) else list(attrs), list(kids)
        self.parent = None
        El.n += 1
        self.id = El.n
        for k in self.kids:
            k.parent = self

    def get(self, a, d=None):
        for k, v in self.attrs:
            if k == a:
                return v
        return d

    def find(self, *tags):
        for k in self.kids:
            if k.tag in tags:
                return k
        return None

    def text(self):
        a = ''.join(' %s="%s"' % (k, v if isinstance(v, str) else '<%s>' % v.name) for k, v in self.attrs)
        if not self.kids:
            return '<%s%s/>' % (self.tag, a)
        return '<%s%s>%s</%s>' % (self.tag, a, ''.join(k.text() for k in self.kids), self.tag)

    def walk(self):
        yield self
        for k in self.kids:
            for x in k.walk():
                yield x


class Numeral(object):
    """any text that denotes a number of the width"""
    def __init__(self, name, w, signed=False):
        self.name, self.w, self.signed = name, w, signed


class Chars(object):
    """any characters but the terminator"""
    def __init__(self, name, n):
        self.name, self.n = name, n


def node(e, st, el):
    if el is None:
        return 0
    if isinstance(el, Comment):
        el = el
    k = ('xmlnode', el.id)
    oid = st.user.get(k)
    if oid is None:
        oid = e.new_obj(st, 104, 'undef', 'element <%s>' % el.tag)
        st.user[k] = oid
        st.user[('xmlel', oid)] = el
    return ('P', oid, 0)


class Comment(object):
    tag = '#comment'
    kids = ()
    attrs = ()

    def __init__(self):
        El.n += 1
        self.id = El.n
        self.parent = None

    def text(self):
        return '<!---->'

    def walk(self):
        return ()

    def get(self, a, d=None):
        return d


def attr_node(e, st, el, i):
    if i >= len(el.attrs):
        return 0
    k = ('xmlattr', el.id, i)
    oid = st.user.get(k)
    if oid is None:
        oid = e.new_obj(st, 80, 'undef', 'attribute %s' % el.attrs[i][0])
        st.user[k] = oid
        st.user[('xmlat', oid)] = (el, i)
    return ('P', oid, 0)


def el_of(e, st, p):
    p = e.norm(st, p)
    if isinstance(p, tuple) and p[0] == 'P':
        el = st.user.get(('xmlel', p[1]))
        if el is not None:
            return el
    raise AnalysisError('not an element')


def text(e, st, v):
    """a C string object with the value of an attribute"""
    if isinstance(v, (Numeral, Chars)):
        key = ('xmltext', v.name, 0)
        if key not in st.user:
            n = v.n if isinstance(v, Chars) else 1
            cs = []
            for i in range(n):
                c = ('S', 8, '%s.%d' % (v.name, i))
                e.assume_cmp(st, 'ne', 8, c, 0)
                cs.append(c)
            st.user[key] = mk(e, st, cs)
            if isinstance(v, Numeral):
                if not v.signed:
                    e.assume_cmp(st, 'ne', 8, cs[0], 45)
                st.user[('numeral', cs[0])] = v
        return st.user[key]
    key = ('xmltext', v)
    if key not in st.user:
        st.user[key] = mk(e, st, list(v.encode()))
    return st.user[key]


def mk(e, st, cs):
    oid = e.new_obj(st, len(cs) + 1, 'undef', 'attribute value')
    for i, c in enumerate(cs + [0]):
        e.store(st, c, ('P', oid, i), 1, 8)
    return ('P', oid, 0)


def plain(e, st, p):
    p = e.norm(st, p)
    if isinstance(p, int):
        return None
    return bytes(zstr(e, st, p)).decode()


def x_first(e, st, ins, a, d):
    el = el_of(e, st, a[0])
    n = plain(e, st, a[1]) if len(a) > 1 else None
    for k in el.kids:
        if isinstance(k, El) and n in (None, k.tag):
            return node(e, st, k)
    return 0


def x_next(e, st, ins, a, d):
    el = el_of(e, st, a[0])
    n = plain(e, st, a[1]) if len(a) > 1 else None
    if el.parent is None:
        return 0
    ks = el.parent.kids
    for k in ks[ks.index(el) + 1:]:
        if isinstance(k, El) and n in (None, k.tag):
            return node(e, st, k)
    return 0


def x_nextnode(e, st, ins, a, d):
    el = el_of(e, st, a[0])
    if el.parent is None:
        return 0
    ks = el.parent.kids
    i = ks.index(el) + 1
    return node(e, st, ks[i]) if i < len(ks) else 0


def x_firstnode(e, st, ins, a, d):
    el = el_of(e, st, a[0])
    return node(e, st, el.kids[0]) if el.kids else 0


def x_name(e, st, ins, a, d):
    return text(e, st, el_of(e, st, a[0]).tag)


def x_findattr(e, st, ins, a, d):
    el = el_of(e, st, a[0])
    n = plain(e, st, a[1])
    for i, (k, v) in enumerate(el.attrs):
        if k == n:
            return attr_node(e, st, el, i)
    return 0


def x_attribute(e, st, ins, a, d):
    el = el_of(e, st, a[0])
    n = plain(e, st, a[1])
    want = plain(e, st, a[2]) if len(a) > 2 else None
    v = el.get(n)
    if v is None or (want is not None and v != want):
        return 0
    return text(e, st, v)


def x_firstattr(e, st, ins, a, d):
    return attr_node(e, st, el_of(e, st, a[0]), 0)


def at_of(e, st, p):
    p = e.norm(st, p)
    if isinstance(p, tuple) and p[0] == 'P':
        x = st.user.get(('xmlat', p[1]))
        if x:
            return x
    raise AnalysisError('not an attribute')


def a_next(e, st, ins, a, d):
    el, i = at_of(e, st, a[0])
    return attr_node(e, st, el, i + 1)


def a_name(e, st, ins, a, d):
    el, i = at_of(e, st, a[0])
    return text(e, st, el.attrs[i][0])


def a_value(e, st, ins, a, d):
    el, i = at_of(e, st, a[0])
    return text(e, st, el.attrs[i][1])


def a_int(e, st, ins, a, d):
    raise AnalysisError('numeric attribute ' + d[:60])


WID = {'int': (32, 1), 'unsigned int': (32, 0), 'long': (64, 1), 'unsigned long': (64, 0), 'short': (16, 1), 'unsigned short': (16, 0),
       'long long': (64, 1), 'unsigned long long': (64, 0)}


class CastError(Exception):
    pass


def number(e, st, cs, w, signed, strict=False):
    """text to integer as boost::lexical_cast does"""
    if len(cs) == 1 and ('numeral', e.norm(st, cs[0])) in st.user:
        n = st.user[('numeral', e.norm(st, cs[0]))]
        t = ('S', n.w, n.name)
        if n.w == w:
            return t
        if n.w < w:
            return T.zext(t, n.w, w)
        raise AnalysisError('numeral of another width')
    if not all(isinstance(c, int) for c in cs):
        raise AnalysisError('symbolic numeral')
    t = bytes(cs).decode('latin1')
    if not re.match(r'^[+-]?[0-9]+$', t):
        raise CastError()
    v = int(t)
    if signed:
        if not -2 ** (w - 1) <= v < 2 ** (w - 1):
            raise CastError()
    elif abs(v) >= 2 ** w:
        raise CastError()
    return v & T.mask(w)


def x_cast(e, st, ins, a, d):
    m = re.match(r'^([a-z ]+?) boost::lexical_cast<(?:[a-z ]+), (.*?)>\(', d)
    if not m or m.group(1) not in WID:
        raise AnalysisError('lexical_cast ' + d[:80])
    w, sg = WID[m.group(1)]
    src = m.group(2)
    if 'basic_string' in src:
        cs = js.strget(e, st, a[0])
    else:
        p = e.load(st, a[0], 8, 64) if '*' in src else a[0]
        cs = zstr(e, st, p)
    try:
        return number(e, st, cs, w, sg)
    except CastError:
        return Throw({'type': 'bad_lexical_cast', 'ti': '_ZTIN5boost16bad_lexical_castE', 'obj': None, 'code': None})


def x_stoi(e, st, ins, a, d):
    n = re.search(r'::(sto\w+)\(', d).group(1)
    w, sg = {'stoi': (32, 1), 'stol': (64, 1), 'stoul': (64, 0), 'stoull': (64, 0), 'stoll': (64, 1)}[n]
    cs = js.strget(e, st, a[0])
    if not all(isinstance(c, int) for c in cs):
        return number(e, st, cs, w, sg)
    m = re.match(r'\s*([+-]?\d+)', bytes(cs).decode('latin1'))
    v = int(m.group(1)) if m else None
    if v is None or (sg and not -2 ** (w - 1) <= v < 2 ** (w - 1)) or (not sg and abs(v) >= 2 ** w):
        return Throw({'type': 'std::invalid_argument', 'ti': '_ZTISt16invalid_argument', 'obj': None, 'code': None})
    return v & T.mask(w)


def ti_of(e, st, p):
    v = e.load(st, e.norm(st, p), 8, 64)
    v = e.norm(st, v)
    if not (isinstance(v, tuple) and v[0] == 'P'):
        raise AnalysisError('no vtable')
    return e.norm(st, e.load(st, ('P', v[1], v[2] - 8), 8, 64)), e.norm(st, e.load(st, ('P', v[1], v[2] - 16), 8, 64))


def bases(prog, g):
    """(name, offset) of the bases of a class, itself included"""
    out = [(g, 0)]
    init = {o: v for o, _, v in prog['globals'].get(g, {}).get('init', [])}
    kind = init.get(0, ['?', ''])[1] if 0 in init else ''
    if 'si_class_type' in str(kind):
        out += bases(prog, init[16][1])
    elif 'vmi_class_type' in str(kind):
        i = 24
        while i in init:
            off = init[i + 8]
            o = off[2] if off[0] == 'c' else None
            if o is None:
                raise AnalysisError('virtual base')
            out += [(b, (o >> 8) + x) for b, x in bases(prog, init[i][1])]
            i += 16
    return out


def x_dyncast(e, st, ins, a, d):
    p = e.norm(st, a[0])
    if isinstance(p, int) and p == 0:
        return 0
    ti, top = ti_of(e, st, p)
    want = e.norm(st, a[2])
    if not (isinstance(ti, tuple) and isinstance(want, tuple)):
        raise AnalysisError('dynamic_cast')
    top = T.signed(top, 64)
    for b, off in bases(e.prog, ti[1].lstrip('@$')):
        if b == want[1].lstrip('@$'):
            return e.padd(p, top + off)
    return 0


def x_parse(e, st, ins, a, d):
    return 0


def x_root(e, st, ins, a, d):
    docs = st.user['docs']
    st.user['docs'] = docs[1:]
    return node(e, st, docs[0])


def x_emit_str(e, st, ins, a, d):
    n = e.norm(st, a[1])
    if not isinstance(n, int):
        raise AnalysisError('a string of unknown length')
    n = T.signed(n, 64)
    cs = zstr(e, st, a[0]) if n < 0 else [byte(e, st, a[0], i) for i in range(n)]
    st.user['seen'] = st.user.get('seen', ()) + (('str', tuple(cs)),)
    return None


def x_drop(e, st, ins, a, d):
    """the text of a document goes with it"""
    for k in [k for k in st.user if isinstance(k, tuple) and k[0] == 'xmltext']:
        st.wobj(st.user.pop(k)[1]).freed = True
    return None


def none(e, st, ins, a, d):
    return None


class XmlEngine(js.JsEngine):
    MAXSTEPS = 3000000

    def __init__(self, prog):
        js.JsEngine.__init__(self, prog)
        self.LOOPCUT = self.loopcut = 3000
        install_tree(self)
        P = lambda rx, fn: self.prim(rx, guarded(fn))
        X = r'^tinyxml2::XML'
        P(X + r'Node::(FirstChildElement|FirstChildElement)\(', x_first)
        P(X + r'Node::NextSiblingElement\(', x_next)
        P(X + r'Node::NextSibling\(', x_nextnode)
        P(X + r'Node::(FirstChild)\(', x_firstnode)
        P(X + r'Element::Name\(|' + X + r'Node::Value\(', x_name)
        P(X + r'Element::FindAttribute\(', x_findattr)
        P(X + r'Element::Attribute\(', x_attribute)
        P(X + r'Element::FirstAttribute\(', x_firstattr)
        P(X + r'Attribute::Next\(', a_next)
        P(X + r'Attribute::Name\(', a_name)
        P(X + r'Attribute::Value\(', a_value)
        P(X + r'(Attribute|Element)::(Int|Unsigned|Int64|Unsigned64|Bool|Query\w+|IntValue|UnsignedValue)\w*\(', a_int)
        P(X + r'Document::XMLDocument\(', none)
        P(X + r'Document::~XMLDocument\(', x_drop)
        P(X + r'Document::Parse\(', x_parse)
        P(r'^vf_root$', x_root)
        P(r'boost::lexical_cast<', x_cast)
        P(r'^std::(__cxx11::)?sto(i|l|ul|ull|ll)\(', x_stoi)
        P(r'^__dynamic_cast$', x_dyncast)
        P(r'^vf_emit_str$', x_emit_str)
        P(r'^(void )?boost::(exception_detail::throw_exception_|throw_exception)<', p_boost_throw)
        P(r'^boost::throw_exception', p_boost_throw)
        P(r'^mfast::fast_(static|dynamic)_error::~?fast_', none)
        P(r' std::(copy|equal|mismatch)<', lambda *a: NOTPRIM)
        P(r'^bool std::operator(<|==|!=) ?<char', s_compare)
        P(r'std::operator\+ ?<char', s_plus)


def s_arg(e, st, p, d):
    return js.strget(e, st, p) if 'basic_string' in d else zstr(e, st, p)


def two_args(d):
    """the two parameter types of a demangled binary operator on strings"""
    body = d[d.rindex('>(') + 2:-1] if '>(' in d else d
    parts, depth, cur = [], 0, ''
    i = d.rfind(')')
    # cut at the parenthesis that opens the parameter list
    k, dep = i, 0
    while k >= 0:
        if d[k] == ')':
            dep += 1
        elif d[k] == '(':
            dep -= 1
            if dep == 0:
                break
        k -= 1
    for ch in d[k + 1:i]:
        if ch in '<(':
            depth += 1
        elif ch in '>)':
            depth -= 1
        if ch == ',' and depth == 0:
            parts.append(cur)
            cur = ''
        else:
            cur += ch
    return parts + [cur]


def s_compare(e, st, ins, a, d):
    pa = two_args(d)
    x, y = s_arg(e, st, a[0], pa[0]), s_arg(e, st, a[1], pa[1])
    if not all(isinstance(c, int) for c in x + y):
        if x == y:
            return int('operator==' in d)
        raise AnalysisError('order of symbolic strings')
    x, y = bytes(x), bytes(y)
    return int(x < y if 'operator<' in d else x == y if 'operator==' in d else x != y)


def s_plus(e, st, ins, a, d):
    pa = two_args(d)
    one = lambda p, t: js.strget(e, st, p) if 'basic_string' in t else zstr(e, st, p) if '*' in t else [e.norm(st, p)]
    js.strput(e, st, a[0], one(a[1], pa[0]) + one(a[2], pa[1]))
    return None


def load(e, docs):
    s = e.base_state().fork()
    s.user['docs'] = tuple(docs)
    s.user.pop('seen', None)
    return e.run(s, 'vf_load', [mk(e, s, list(b'doc')), len(docs)])


# ------------------------------------------------------------------- the rules
class Wrong(Exception):
    """the document is not a valid set of templates"""


D_DESC, D_TEMPLATE, D_FIELD, D_END, D_CTX, D_NOCTX, D_INIT, D_INITSTR, D_MANTISSA, D_LENGTH, D_LENGTHINST, D_NOLENGTH, \
    D_GROUP, D_ENUM, D_ELEMENT = range(15)
INT = {'int32': (0, 32, 1), 'uInt32': (1, 32, 0), 'int64': (2, 64, 1), 'uInt64': (3, 64, 0)}
DEC, EXP, TREF, ASCII, UNICODE, BYTES, SEQ, GROUP, TEMPLATE, ENUM = 4, 5, 6, 7, 8, 9, 14, 15, 16, 17
VECS = {'int32Vector': 10, 'uInt32Vector': 11, 'int64Vector': 12, 'uInt64Vector': 13}
OPS = {'constant': 1, 'delta': 2, 'default': 3, 'copy': 4, 'increment': 5, 'tail': 6}


class F(object):
    """an instruction"""
    def __init__(self, kind, **kw):
        self.kind, self.op, self.optional, self.id, self.tag, self.name, self.ns = kind, 0, False, 0, 0, '', ''
        self.ctx = self.init = self.mantissa = self.length = self.subs = self.elements = None
        self.int = None
        self.dictionary = self.tname = self.tns = ''
        self.lid, self.lname, self.lns = 0, '', ''
        self.__dict__.update(kw)

    def like(self, **kw):
        f = F(self.kind)
        f.__dict__.update(self.__dict__)
        f.__dict__.update(kw)
        return f


def builtin():
    t = {n: F(k, int=(w, s)) for n, (k, w, s) in INT.items()}
    t.update({n: F(k) for n, k in VECS.items()})
    t.update(decimal=F(DEC), string=F(ASCII), byteVector=F(BYTES), group=F(GROUP),
             sequence=F(SEQ, length=F(1, int=(32, 0), name='__length__')), enum=F(ENUM),
             boolean=F(ENUM, init=0, elements=[('false', None), ('true', None)]))
    return t


def integer(v, w, signed):
    """the number a text denotes, 64 bit"""
    if isinstance(v, Numeral):
        if v.w > w or v.signed != bool(signed):
            raise AnalysisError('numeral of another type')
        t = ('S', v.w, v.name)
        return (T.sext if v.signed else T.zext)(t, v.w, 64) if v.w < 64 else t
    if not re.match(r'^[+-]?[0-9]+$', v):
        raise Wrong('not a number: ' + v)
    n = int(v)
    if not (-2 ** (w - 1) <= n < 2 ** (w - 1) if signed else 0 <= n < 2 ** w):
        raise Wrong('out of range: ' + v)
    return n


def decimal(v):
    if isinstance(v, Numeral):
        raise AnalysisError('decimal numeral')
    m = re.match(r'^(-?)([0-9]*)(?:\.([0-9]+))?$', v)
    if not m or not (m.group(2) or m.group(3)):
        raise Wrong('not a decimal: ' + v)
    n, x = int(m.group(2) + (m.group(3) or '')), -len(m.group(3) or '')
    while n and n % 10 == 0:
        n, x = n // 10, x + 1
    if n == 0:
        x = 0
    n = -n if m.group(1) else n
    if not -2 ** 63 <= n < 2 ** 63 or not -63 <= x <= 63:
        raise Wrong('out of range: ' + v)
    return n, x


def hexbytes(v):
    t = v.replace(' ', '').replace('-', '')
    if len(t) % 2 or not re.match('^[0-9a-fA-F]*$', t):
        raise Wrong('not hexadecimal: ' + v)
    return list(bytes.fromhex(t))


class Reader(object):
    def __init__(self, registry):
        self.types, self.templates, self.tns = builtin(), registry, ''

    def description(self, doc):
        self.tns = doc.get('templateNs', '')
        out = []
        for el in doc.kids:
            if el.tag == 'define':
                c = [k for k in el.kids if isinstance(k, El)]
                if el.get('name') is not None and c:
                    f, = self.field(c[0], self.tns, el.get('name'))
                    self.types[el.get('name')] = f
                    if f.kind in (SEQ, GROUP, ENUM):
                        self.templates[(f.ns or self.tns, el.get('name'))] = f
            elif el.tag == 'template':
                out.append(self.template(el))
        return out

    def template(self, el):
        ns = el.get('templateNs', self.tns)
        f = F(TEMPLATE, id=integer(el.get('id', '0'), 32, 0), name=el.get('name', ''), ns=el.get('ns', ''), tns_=el.get('templateNs', ''),
              dictionary=el.get('dictionary', ''), reset=el.get('scp:reset', el.get('reset')) in ('yes', 'true'))
        f.tname, f.tns = self.typeref(el) or ('', '')
        f.subs = self.fields(el, ns)
        self.templates[(ns, f.name)] = f
        return f

    def typeref(self, *els):
        for el in els:
            r = el.find('typeRef')
            if r:
                return r.get('name', ''), r.get('ns', '')
        return None

    def typeref_of(self, base, *els):
        return self.typeref(*els) or (base.tname, base.tns)

    def fields(self, el, ns):
        return [f for k in el.kids if isinstance(k, El) for f in self.field(k, ns)]

    def operator(self, el, base, value):
        """(operator, context, initial value)"""
        op = None
        for k in el.kids if el else ():
            if k.tag in OPS:
                op = k
                break
        if op is None:
            return base.op, base.ctx, base.init
        b = base.ctx or (None, None, None)
        ctx = tuple(op.get(a, x) for a, x in zip(('key', 'ns', 'dictionary'), b))
        v = op.get('value')
        return OPS[op.tag], None if ctx == (None, None, None) else ctx, base.init if v is None else value(v)

    def field(self, el, ns, define=None):
        a = dict(el.attrs)
        content, tname = el, el.tag
        if el.tag == 'field':
            c = [k for k in el.kids if isinstance(k, El)]
            if not c:
                raise Wrong('a field without a type')
            content = c[0]
            tname = content.tag
            if tname == 'type':
                tname = content.get('name')
                if tname is None:
                    raise Wrong('a type without a name')
            else:
                a.update((k, v) for k, v in content.attrs if k != 'name')
        if tname in ('typeRef', 'length'):
            return []
        if tname == 'templateRef':
            return self.reference(el, ns)
        if tname == 'template':
            raise Wrong('a template in a template')
        if tname == 'string' and a.get('charset') == 'unicode':
            base = F(UNICODE)
        elif content.tag == 'type' and (content.get('ns'), tname) in self.templates:
            base = self.templates[(content.get('ns'), tname)]
        elif tname in self.types:
            base = self.types[tname]
        else:
            raise Wrong('unknown type ' + tname)
        f = base.like(name=define if define is not None else a.get('name', ''))
        if 'presence' in a:
            f.optional = a['presence'] == 'optional'
        if 'id' in a:
            f.id = integer(a['id'], 32, 0)
        if 'ns' in a:
            f.ns = a['ns']
        elif content.tag == 'type' and content.get('ns') is not None:
            f.ns = None         # whether it is also the namespace of the field is not laid down
        if 'mfast:tag' in a:
            t = integer(a['mfast:tag'], 64, 0)
            f.tag = t if base.tag == 0 else T.bitop('or', base.tag, t, 64)
        k = f.kind
        if f.int:
            f.op, f.ctx, f.init = self.operator(el, base, lambda v: integer(v, *f.int))
        elif k in (DEC, EXP):
            m, x = el.find('mantissa'), el.find('exponent')
            if m or x or base.mantissa:
                f.kind = EXP
                mb = base.mantissa or F(2, int=(64, 1))
                f.mantissa = mb.like()
                f.mantissa.op, f.mantissa.ctx, f.mantissa.init = self.operator(m, mb, lambda v: integer(v, 64, 1))
                f.op, f.ctx, f.init = self.operator(x, base, self.exponent)
            else:
                f.op, f.ctx, f.init = self.operator(el, base, decimal)
        elif k in (ASCII, UNICODE, BYTES):
            f.op, f.ctx, f.init = self.operator(el, base, hexbytes if k == BYTES else lambda v: v)
            n = el.find('length')
            if n and k != ASCII:
                f.lid, f.lname, f.lns = integer(n.get('id', str(base.lid)), 32, 0), n.get('name', base.lname), n.get('ns', base.lns)
        elif k == GROUP or k == SEQ:
            f.dictionary = a.get('dictionary', base.dictionary)
            f.tname, f.tns = self.typeref_of(base, el, content)
            if not base.subs:
                f.subs = self.fields(content, ns)
            if k == SEQ:
                n = content.find('length')
                b = base.length
                f.length = b.like(optional=f.optional)
                if n:
                    g = f.length
                    g.op, g.ctx, g.init = self.operator(n, b, lambda v: integer(v, 32, 0))
                    g.id, g.name, g.ns = integer(n.get('id', str(b.id)), 32, 0), n.get('name', ''), n.get('ns', b.ns)
        elif k == ENUM:
            if base.elements is None:
                f.elements = [(x.get('name'), x.get('value')) for x in content.kids if x.tag == 'element']
                if any(n is None for n, _ in f.elements):
                    raise Wrong('an element without a name')
                vs = [v for _, v in f.elements if v is not None]
                if vs and len(vs) != len(f.elements):
                    raise Wrong('elements with and without a value')
                f.elements = [(n, None if v is None else integer(v, 64, 0)) for n, v in f.elements]
            at = el if any(x.tag in OPS for x in el.kids) else content

            def element(v):
                for i, (n, x) in enumerate(f.elements):
                    if n == v:
                        return i if x is None else x
                raise Wrong('not an element: ' + v)
            f.op, f.ctx, f.init = self.operator(at, base, element)
        return [f]

    def exponent(self, v):
        n = integer(v, 16, 1)
        if not isinstance(n, int) or not -63 <= n <= 63:
            raise Wrong('exponent out of range')
        return 0, n

    def reference(self, el, ns):
        n = el.get('name')
        if n is None:
            return [F(TREF)]
        t = self.templates.get((el.get('templateNs', ns), n))
        if t is None or t.kind != TEMPLATE:
            raise Wrong('unknown template ' + n)
        return list(t.subs)


# ------------------------------------------------------------------- what the description holds
class Expect(object):
    def __init__(self):
        self.items = []

    def v(self, label, code, a=0, b=0):
        self.items.append((label, (code, a, b)))

    def s(self, label, t):
        if isinstance(t, Chars):
            t = tuple(('S', 8, '%s.%d' % (t.name, i)) for i in range(t.n))
        elif isinstance(t, list):
            t = tuple(t)
        else:
            t = tuple((t or '').encode())
        self.items.append((label, ('str', t)))

    def context(self, w, c):
        if c is None:
            self.v(w + ': no context of its operator', D_NOCTX)
        else:
            self.v(w + ': context of its operator', D_CTX)
            for n, x in zip(('key', 'namespace of the key', 'dictionary'), c):
                self.s('%s: %s' % (w, n), x)

    def init(self, w, x, text=False):
        w += ': initial value'
        if x is None:
            self.v(w, D_INIT, 0, 0)
        elif text:
            n = x.n if isinstance(x, Chars) else len(x) if isinstance(x, list) else len(x.encode())
            self.v(w, D_INITSTR, 1, n)
            self.s(w, x)
        else:
            self.v(w, D_INIT, 1, x)

    def field(self, f, w):
        w = '%s/%s' % (w, f.name or '?')
        self.v(w + ': type and operator', D_FIELD, f.kind, f.op)
        if f.kind == TREF:          # its id is its position
            self.items.append((w + ': presence', (None,)))
        else:
            self.v(w + ': presence, id and tag', int(f.optional), f.id, f.tag)
        self.s(w + ': name', f.name)
        if f.kind != TREF and f.ns is not None:
            self.s(w + ': namespace', f.ns)
        else:
            self.items.append((w, None))
        if f.int:
            self.context(w, f.ctx)
            self.init(w, f.init)
        elif f.kind in (DEC, EXP):
            self.context(w, f.ctx)
            self.init(w, None if f.init is None else f.init[0] if f.mantissa is None else f.mantissa.init or 0)
            self.v(w + ': exponent of the initial value', D_INIT, 0 if f.init is None else f.init[1])
            if f.mantissa:
                self.v(w + ': operator of the mantissa', D_MANTISSA, f.mantissa.op)
                self.context(w + ' (mantissa)', f.mantissa.ctx)
                self.init(w + ' (mantissa)', f.mantissa.init)
        elif f.kind in (ASCII, UNICODE, BYTES):
            self.context(w, f.ctx)
            self.init(w, f.init, True)
            if f.kind != ASCII:
                self.v(w + ': id of the length', D_LENGTH, f.lid)
                self.s(w + ': name of the length', f.lname)
                self.s(w + ': namespace of the length', f.lns)
        elif f.kind == ENUM:
            self.context(w, f.ctx)
            self.init(w, f.init)
            self.v(w + ': number of elements', D_ENUM, len(f.elements), int(any(v is not None for _, v in f.elements)))
            for i, (n, v) in enumerate(f.elements):
                self.v('%s: value of %s' % (w, n), D_ELEMENT, i if v is None else v)
                self.s('%s: element %d' % (w, i), n)
        elif f.kind == SEQ:
            self.v(w + ': length', D_LENGTHINST)
            self.field(f.length, w + ' (length)')
            self.subs(f, w)
        elif f.kind == GROUP:
            self.subs(f, w)
        self.v(w + ': end', D_END)

    def subs(self, f, w):
        self.v(w + ': content', D_GROUP)
        self.s(w + ': dictionary', f.dictionary)
        self.s(w + ': type', f.tname)
        self.s(w + ': namespace of the type', f.tns)
        for k in f.subs or ():
            self.field(k, w)

    def description(self, doc, ts):
        self.v('templates: number', D_DESC, len(ts))
        self.s('templates: namespace', doc.get('ns', ''))
        self.s('templates: template namespace', doc.get('templateNs', ''))
        self.s('templates: dictionary', doc.get('dictionary', ''))
        for t in ts:
            w = t.name
            self.v(w + ': id and reset', D_TEMPLATE, t.id, int(t.reset))
            self.s(w + ': name', t.name)
            self.s(w + ': namespace', t.ns)
            self.s(w + ': template namespace', t.tns_)
            self.subs(t, w)
            self.v(w + ': end', D_END)


WHERE = 'src/mfast/xml_parser/field_builder.cpp'


def opaque(st):
    """whether the path looked into the text of a numeral"""
    ns = {k[1] for k in st.user if isinstance(k, tuple) and k[0] == 'numeral'}
    if not ns:
        return False
    t = repr([k for k, v in st.known.items() if k[:1] != ('C',) or k[2] not in ('eq', 'ne') or k[5] not in (0, 45)])
    return any(repr(n) in t for n in ns)


def num_eq(e, st, a, b):
    a, b = e.norm(st, a), e.norm(st, b)
    if a == b:
        return True
    if isinstance(a, int) and isinstance(b, int):
        return (a - b) & T.mask(64) == 0
    return False


def wide(e, st, v):
    return v & T.mask(64) if isinstance(v, int) else v


def t_load(e, name, docs):
    res = Result(name)
    templates, want, wrong = {}, None, None
    try:
        for d in docs:
            r = Reader(templates)
            ts = r.description(d)
            want = Expect()
            want.description(d, ts)
    except Wrong as x:
        wrong = str(x)
    for o in load(e, docs):
        if o.kind in ('bound', 'cut'):
            res.bounded += 1
            continue
        if o.kind == 'stuck':
            res.und['%s: %s' % (name, o.value)] = 1
            continue
        st = o.state
        wh = e.where(st) if o.kind != 'throw' else o.value.get('where')
        m = js.memory(st)
        if m:
            js.add(res, (m[0], name), '%s: %s' % (name, m[1]), m[2])
            continue
        txt = None
        if o.kind == 'throw':
            if wrong is None:
                txt = 'refused with %s' % (o.value.get('code') or o.value.get('type'))
            key = 'refused'
        elif o.kind != 'ret':
            txt, key = '%s %s' % (o.kind, o.value), o.kind
        elif wrong:
            txt, key, wh = 'accepted (%s)' % wrong, 'accepted', None
        else:
            txt, key = differ(e, st, want.items, st.user.get('seen', ()))
            wh = None
        if txt and opaque(st):
            res.und['%s: looks into the text of a number' % name] = 1
            continue
        res.paths += 1
        if txt:
            js.add(res, (key,), '%s in %s' % (txt, ' + '.join(d.text() for d in docs))[:900], wh)
    return res


def differ(e, st, want, seen):
    i = 0
    for label, w in want:
        if i >= len(seen):
            return '%s is missing' % label, label
        g = seen[i]
        i += 1
        if w is None or w == (None,):
            if (g[0] != 'str') == (w is None):
                return '%s: structure' % label, label
            continue
        if (w[0] == 'str') != (g[0] == 'str'):
            return '%s: %s where %s is expected' % (label, show(g), show(w)), label
        if w[0] == 'str':
            if len(w[1]) != len(g[1]) or not all(num_eq(e, st, x, y) for x, y in zip(w[1], g[1])):
                return '%s is %s instead of %s' % (label, show(g), show(w)), label
        elif not all(num_eq(e, st, x, y) for x, y in zip(w, g)):
            return '%s is %s instead of %s' % (label, show(g), show(w)), label
    if i != len(seen):
        return 'more than the document prescribes', 'surplus'
    return None, None


def show(x):
    if x[0] == 'str':
        if all(isinstance(c, int) for c in x[1]):
            return repr(bytes(c & 255 for c in x[1]).decode('latin1'))
        return '"%s"' % ' '.join(T.fmt(c) if not isinstance(c, int) else chr(c) for c in x[1])
    return '(%s)' % ', '.join(str(T.signed(v, 64)) if isinstance(v, int) else T.fmt(v) for v in x)


# ------------------------------------------------------------------- documents
def T_(*kids, **kw):
    """templates with one template"""
    a = {k.replace('_', ':'): v for k, v in kw.items()}
    return El('templates', a, El('template', {'name': 'A', 'id': '1'}, *kids))


class Gen(object):
    def __init__(self):
        self.n = 0

    def name(self, p='f'):
        self.n += 1
        return '%s%d' % (p, self.n)


CTX = ({}, {'key': 'K'}, {'dictionary': 'type'}, {'ns': 'M'}, {'key': 'K', 'ns': 'M', 'dictionary': 'D'})
PRES = ({}, {'presence': 'optional'}, {'presence': 'mandatory'})


def value_of(g, t):
    if t in INT:
        return Numeral(g.name('n'), INT[t][1], bool(INT[t][2]))
    if t == 'decimal':
        return '12.50'
    if t == 'byteVector':
        return '0a fF-10'
    return Chars(g.name('c'), 3)


def simple(t, extra=()):
    g = Gen()
    out = []
    i = 0
    for op in (None,) + tuple(OPS):
        for val in ((False,) if op is None else (False, True)):
            for p in PRES:
                kids = []
                if op:
                    a = dict(CTX[i % len(CTX)])
                    if val:
                        a['value'] = value_of(g, t)
                    kids.append(El(op, a))
                a = {'name': g.name()}
                a.update(p)
                a.update(extra)
                if i % 3 == 0:
                    a['id'] = Numeral(g.name('i'), 32)
                if i % 4 == 1:
                    a['ns'] = 'N%d' % i
                out.append(El(t, a, *kids))
                i += 1
    return out


def parts(name, fs, n):
    return [('%s: part %d' % (name, i // n), [T_(*fs[i:i + n])]) for i in range(0, len(fs), n)]


def jobs(deep):
    out = []

    def add(name, *docs):
        out.append(('t_load', (name, list(docs)), {}))
    S = lambda n, **kw: El('string', dict(name=n, **kw))
    U = lambda n, **kw: El('uInt32', dict(name=n, **kw))
    for t in INT:
        for n, d in parts('fields of type ' + t, simple(t), 10):
            add(n, *d)
        _, w, s = INT[t]
        for v in (-2 ** (w - 1) if s else 0, 2 ** (w - 1) - 1, 2 ** w - 1 if not s else 7):
            add('%s: initial value %d' % (t, v), T_(El(t, {'name': 'x'}, El('copy', {'value': str(v)}))))
        for v in (str(2 ** w), str(-2 ** w), str(2 ** (w - 1)) if s else '-1', str(-2 ** (w - 1) - 1), '1x', '1.5', 'x', ''):
            add('%s: initial value %s' % (t, v or 'empty'), T_(El(t, {'name': 'x'}, El('copy', {'value': v}))))
    for t, ex in (('string', {}), ('string', {'charset': 'unicode'}), ('string', {'charset': 'ascii'}), ('byteVector', {}), ('decimal', {})):
        for n, d in parts('fields of type %s %s' % (t, ex.get('charset', '')), simple(t, ex), 10):
            add(n, *d)
    add('empty initial values', T_(El('string', {'name': 'x'}, El('copy', {'value': ''})), El('byteVector', {'name': 'y'}, El('tail', {'value': ''})),
                                   El('string', {'name': 'z', 'charset': 'unicode'}, El('default', {'value': ''}))))
    for v in ('0g', '0', '123', 'x'):
        add('byteVector: initial value %s' % v, T_(El('byteVector', {'name': 'x'}, El('copy', {'value': v}))))
    for v in ('0', '5', '-5', '1.0', '0.50', '-0.25', '100', '.5', '-.5', '0.00', '12345678901234567.89', '922337203685477580.7',
              '-9223372036854775808', '9223372036854775807', '9223372036854775808', '1.2.3', '1.', 'x', '1e', '', '-', '1.-5', '0.' + '0' * 62 + '1',
              '0.' + '0' * 63 + '1'):
        add('decimal: initial value %s' % (v[:24] or 'empty'), T_(El('decimal', {'name': 'x'}, El('delta', {'value': v}))))
    M, X = (lambda *k: El('mantissa', {}, *k)), (lambda *k: El('exponent', {}, *k))
    add('decimals in two parts', T_(
        El('decimal', {'name': 'a'}, X(El('copy')), M(El('delta'))), El('decimal', {'name': 'b', 'presence': 'optional'}, X(El('constant', {'value': '-2'})), M(El('delta', {'value': Numeral('m', 64, True)}))),
        El('decimal', {'name': 'c', 'id': '9'}, M(El('copy', {'key': 'K', 'dictionary': 'D', 'ns': 'M'}))), El('decimal', {'name': 'd'}, X(El('default', {'value': '63', 'key': 'Q'}))),
        El('decimal', {'name': 'e'}, X(El('tail', {'value': '-63'})), M(El('increment', {'value': '12'}))), El('decimal', {'name': 'f'}, X(), M())))
    for v in ('64', '-64', '128', 'x', '99999', '1.5'):
        add('exponent: initial value %s' % v, T_(El('decimal', {'name': 'x'}, X(El('copy', {'value': v})))))
    add('mantissa: initial value x', T_(El('decimal', {'name': 'x'}, M(El('copy', {'value': 'x'})))))
    add('vectors', T_(*[El(t, dict(name=t + str(i), id=str(i + 3), **p)) for t in VECS for i, p in enumerate(PRES)]))
    L = lambda *k, **kw: El('length', kw, *k)
    add('lengths of strings', T_(
        El('byteVector', {'name': 'a'}, L(name='n', id='4294967295', ns='N')), El('string', {'name': 'b', 'charset': 'unicode'}, El('copy'), L(name='m', id='7')),
        El('byteVector', {'name': 'c'}, L(ns='O'), El('delta', {'value': '01'})), El('string', {'name': 'd', 'charset': 'unicode', 'presence': 'optional'})))
    add('groups', T_(
        El('group', {'name': 'a', 'dictionary': 'template', 'ns': 'N', 'id': '5'}, El('typeRef', {'name': 'R', 'ns': 'S'}), U('x'), U('y', presence='optional')),
        El('group', {'name': 'b', 'presence': 'optional'}, El('group', {'name': 'c', 'presence': 'optional'}, U('x'), S('z')), U('w')),
        El('group', {'name': 'e'}), U('last')))
    add('sequences', T_(
        El('sequence', {'name': 'a', 'dictionary': 'type', 'ns': 'N', 'id': '5'}, El('typeRef', {'name': 'R'}), L(name='n', id='8', ns='O'), U('x')),
        El('sequence', {'name': 'b', 'presence': 'optional'}, L(El('copy', {'key': 'K', 'value': Numeral('v', 32)}), name='n2'), U('x'), S('y')),
        El('sequence', {'name': 'c', 'presence': 'optional'}, El('sequence', {'name': 'd'}, L(El('delta')), U('x')), El('group', {'name': 'g'}, U('z'))),
        El('sequence', {'name': 'e'}), El('sequence', {'name': 'h'}, L(El('increment', {'value': '2'}))), U('last')))
    add('comments', El('templates', {'dictionary': 'D'}, Comment(), El('template', {'name': 'A', 'id': '1'}, Comment(), U('x'), Comment(),
        El('group', {'name': 'g'}, Comment(), U('y'), Comment()), El('int32', {'name': 'z'}, Comment(), El('copy'), Comment()),
        El('decimal', {'name': 'd'}, Comment(), X(Comment(), El('copy'))), El('sequence', {'name': 's'}, Comment(), L(Comment(), El('copy')), U('q')),
        El('enum', {'name': 'e'}, Comment(), El('element', {'name': 'p'}), Comment(), El('element', {'name': 'q'})),
        El('field', {'name': 'f'}, Comment(), El('uInt64'))), Comment()))
    add('namespaces and ids of templates', El('templates', {'ns': 'N', 'templateNs': 'TN', 'dictionary': 'DD'},
        El('template', {'name': 'A', 'id': Numeral('t', 32), 'ns': 'X', 'templateNs': 'Y', 'dictionary': 'Z'}, El('typeRef', {'name': 'R', 'ns': 'S'}), U('x', ns='Q')),
        El('template', {'name': 'B'}), El('template', {'name': 'C', 'id': '4294967295', 'reset': 'yes'}, S('s')),
        El('template', {'name': 'D', 'id': '3', 'scp:reset': 'yes'}), El('template', {'name': 'E', 'reset': 'no'}), El('template', {'name': 'F', 'reset': 'true'}),
        El('template', {'name': 'G', 'scp:reset': 'no'}), El('template', {'name': 'H', 'scp:reset': 'true'})))
    for v in ('-1', 'x', '4294967296', '1.0', ''):
        add('template id %s' % (v or 'empty'), El('templates', {}, El('template', {'name': 'A', 'id': v})))
        add('field id %s' % (v or 'empty'), T_(U('x', id=v)))
        add('id %s of a length' % (v or 'empty'), T_(El('byteVector', {'name': 'a'}, L(id=v))))
        add('id %s of the length of a sequence' % (v or 'empty'), T_(El('sequence', {'name': 'a'}, L(id=v), U('x'))))
    add('tags', T_(U('x', **{'mfast:tag': Numeral('g', 64)}), El('group', {'name': 'g', 'mfast:tag': '12'}, S('y', **{'mfast:tag': '3'}))))
    add('tags of defined types', El('templates', {}, El('define', {'name': 'T'}, U('', **{'mfast:tag': '8589934593'})), El('template', {'name': 'A'}, El('field', {'name': 'a', 'mfast:tag': '18446744073709551614'}, El('type', {'name': 'T'})),
        El('field', {'name': 'b'}, El('type', {'name': 'T'})), S('c', **{'mfast:tag': '8589934594'}))))
    R = lambda n=None, **kw: El('templateRef', dict(kw, **({'name': n} if n else {})))
    base = lambda n, *k, **kw: El('template', dict({'name': n}, **kw), *k)
    add('references to templates', El('templates', {'templateNs': 'TN'}, base('A', U('x'), S('y')), base('B', U('p'), R('A'), U('q'), El('group', {'name': 'g'}, R('A'))),
        base('C', R('B'), El('sequence', {'name': 's'}, R('A')), El('sequence', {'name': 't', 'presence': 'optional'}, U('z'), R('A')))))
    add('references to a template with one sequence', El('templates', {}, base('A', El('sequence', {'name': 's', 'presence': 'optional', 'id': '3'}, L(El('copy')), U('x'))),
        base('B', R('A')), base('C', U('p'), R('A'))))
    add('a long template', El('templates', {}, base('A', U('x'), S('y')), base('B', *([U('u%d' % i) for i in range(12)] + [R('A')] + [U('v%d' % i) for i in range(12)]))))
    add('references alone in their group', El('templates', {'templateNs': 'TN'}, base('A', U('x'), templateNs='O'),
        base('B', El('group', {'name': 'g'}, R('A', templateNs='O')), El('sequence', {'name': 's'}, R('A', templateNs='O')))))
    add('names that look alike', El('templates', {'templateNs': 'T'}, base('AB', U('x')), base('B', S('y'), templateNs='TA'), base('C', R('AB'), R('B', templateNs='TA'))))
    for k in ('group', 'sequence', 'enum'):
        add('types of other documents: %s' % k, El('templates', {'templateNs': 'T1'}, El('define', {'name': 'G'}, El(k, {'dictionary': 'D', 'presence': 'optional'}, *([El('element', {'name': 'x'})] if k == 'enum' else [U('x')])))),
            El('templates', {'templateNs': 'T2'}, base('B', El('field', {'name': 'f'}, El('type', {'name': 'G', 'ns': 'T1'})), U('last'))))
        add('types of other documents: %s without namespace' % k, El('templates', {'templateNs': 'T1'}, El('define', {'name': 'G'}, El(k, {}, *([El('element', {'name': 'x'})] if k == 'enum' else [U('x')])))),
            El('templates', {'templateNs': 'T1'}, base('B', El('field', {'name': 'f'}, El('type', {'name': 'G'})), U('last'))))
    add('dynamic references', T_(U('x'), R(), El('group', {'name': 'g', 'presence': 'optional'}, R()), El('sequence', {'name': 's'}, R())))
    add('references by namespace', El('templates', {'templateNs': 'TN'}, base('A', U('x')), base('A', U('y'), S('z'), templateNs='O'),
        base('B', R('A'), templateNs='O'), base('C', R('A', templateNs='O'), R('A', templateNs='TN')), base('D', R('A', templateNs='TN'), templateNs='O', ns='N'),
        base('E', El('group', {'name': 'g', 'ns': 'NN'}, R('A'), U('w')), ns='N')))
    add('references to other documents', El('templates', {'templateNs': 'T1'}, base('A', U('x'))), El('templates', {'templateNs': 'T2'}, base('A', S('y')), base('B', R('A'), R('A', templateNs='T1'))))
    for n, d in (
                     ('unknown', (base('B', R('A')),)),
                     ('in another namespace', (base('A', U('x'), templateNs='O'), base('B', R('A')))),
                     ('in no such namespace', (base('A', U('x')), base('B', R('A', templateNs='O')))),
                     ('unknown, alone in a group', (base('B', El('group', {'name': 'g'}, R('A'))),)),
                     ('unknown, alone in a sequence', (base('B', El('sequence', {'name': 'g'}, R('A'))),))):
        add('a reference to a template: %s' % n, El('templates', {'templateNs': 'TN'}, *d))
    D = lambda n, el: El('define', {'name': n}, el)
    Fi = lambda n, *k, **kw: El('field', dict({'name': n}, **kw), *k)
    Ty = lambda n, **kw: El('type', dict({'name': n}, **kw))
    for t in tuple(INT) + ('string', 'byteVector', 'decimal'):
        g = Gen()
        v = value_of(g, t)
        add('defined types: %s' % t, El('templates', {}, D('T', El(t, {'id': '7', 'ns': 'TN', 'presence': 'optional'}, El('copy', {'key': 'K', 'dictionary': 'D', 'value': v}))),
            D('P', El(t)), base('A',
            Fi('a', Ty('T')), Fi('b', Ty('T'), presence='mandatory'), Fi('c', Ty('T'), id='8'), Fi('d', Ty('T'), ns='N2'),
            Fi('e', Ty('T'), El('delta', {'value': value_of(g, t)})), Fi('f', Ty('T'), El('default', {'key': 'K2', 'value': value_of(g, t)})),
            Fi('g', Ty('P')), Fi('h', Ty('P'), El('copy', {'dictionary': 'E'}), presence='optional'), Fi('i', El(t), presence='optional', id='9'))))
    add('defined types: unicode', El('templates', {}, D('T', El('string', {'charset': 'unicode'}, El('copy', {'value': 'ab'}), L(name='n', id='4', ns='M'))),
        base('A', Fi('a', Ty('T')), Fi('b', Ty('T'), L(id='5')), Fi('c', El('string', {'charset': 'unicode'})), Fi('d', Ty('T'), L(name='q'), El('tail')))))
    add('defined types: byteVector with length', El('templates', {}, D('T', El('byteVector', {}, L(name='n', id='4', ns='M'))),
        base('A', Fi('a', Ty('T')), Fi('b', Ty('T'), L(id='5')), Fi('d', Ty('T'), L(name='q')))))
    add('defined types: decimal in two parts', El('templates', {}, D('T', El('decimal', {'presence': 'optional'}, X(El('copy', {'value': '-2'})), M(El('delta', {'value': '5', 'key': 'K'})))),
        base('A', Fi('a', Ty('T')), Fi('b', Ty('T'), M(El('copy'))), Fi('c', Ty('T'), X(El('default', {'value': '3'})), presence='mandatory'))))
    for k in ('group', 'sequence'):
        add('defined types: %s' % k, El('templates', {'templateNs': 'TT'}, D('T', El(k, {'dictionary': 'D', 'id': '4', 'ns': 'N', 'presence': 'optional'}, El('typeRef', {'name': 'R', 'ns': 'S'}), U('x'), S('y'))),
            base('A', Fi('a', Ty('T')), Fi('b', Ty('T'), presence='mandatory', id='5', dictionary='E'), Fi('c', Ty('T'), El('typeRef', {'name': 'Q'})), Fi('d', El(k, {}, U('z'))),
                 Fi('e', Ty('T', ns='N')))))
    add('defined types: length of a sequence', El('templates', {}, D('T', El('sequence', {}, L(El('copy', {'key': 'K', 'value': '2'}), name='n', id='3'), U('x'))),
        base('A', Fi('a', Ty('T')), Fi('b', Ty('T'), presence='optional'), Fi('c', El('sequence', {}, L(El('delta'), name='m'), U('x'))))))
    add('a definition of a defined type', El('templates', {}, D('T', El('uInt32', {'id': '3'}, El('copy', {'value': '4'}))), D('V', El('field', {}, Ty('T'), El('delta'))),
        base('A', Fi('a', Ty('V')), Fi('b', Ty('T')))))
    E = lambda n, v=None: El('element', dict({'name': n}, **({} if v is None else {'value': v})))
    En = lambda n, *k, **kw: El('enum', dict({'name': n}, **kw), *k)
    add('enumerations', T_(En('a', E('x'), E('y'), E('z')), En('b', E('x', '1'), E('y', '9'), presence='optional'),
        En('c', El('copy', {'value': 'y', 'key': 'K'}), E('x', '3'), E('y', '7')), En('d', El('default', {'value': 'y'}), E('x'), E('y'), id='3'),
        En('e', El('constant', {'value': 'x'}), E('x', '18446744073709551615')), El('boolean', {'name': 'f'}), El('boolean', {'name': 'g', 'presence': 'optional'}, El('copy', {'value': 'true'})),
        El('boolean', {'name': 'h'}, El('default', {'value': 'false'})), En('i', El('delta'), E('x'), E('y'))))
    add('defined types: enumerations', El('templates', {}, D('T', El('enum', {'presence': 'optional', 'id': '3'}, E('x', '3'), E('y', '7'))), D('V', El('enum', {}, El('copy', {'value': 'q'}), E('p'), E('q'))),
        base('A', Fi('a', Ty('T')), Fi('b', Ty('T'), El('copy', {'value': 'y'}), presence='mandatory'), Fi('c', Ty('V')), Fi('d', Ty('V'), El('default', {'value': 'p'})),
             Fi('e', El('enum', {}, El('copy', {'value': 'y'}), E('x'), E('y'))), Fi('f', El('enum', {}, E('x'), E('y')), El('copy', {'value': 'y'})))))
    for n, k in (('an unknown initial value', [El('copy', {'value': 'q'}), E('x')]), ('an element without a name', [El('element', {'value': '1'})]),
                 ('elements with and without a value', [E('x', '1'), E('y')]), ('a negative value', [E('x', '-1')]), ('a value that is not a number', [E('x', 'v')])):
        add('enumerations: %s' % n, T_(En('a', *k)))
    add('enumerations: an unknown initial value of a defined type', El('templates', {}, D('T', El('enum', {}, E('x'))), base('A', Fi('a', Ty('T'), El('copy', {'value': 'q'})))))
    for n, d in (('an unknown type', T_(El('uint32', {'name': 'x'}))), ('an unknown defined type', T_(Fi('x', Ty('T')))), ('a field without a type', T_(Fi('x'))),
                 ('a type without a name', T_(Fi('x', El('type')))), ('a nested template', T_(El('template', {'name': 'B'}))),
                 ('an unknown type in a group', T_(El('group', {'name': 'g'}, El('uint', {'name': 'x'})))), ('an operator among fields', T_(El('copy'))),
                 ('an unknown type in a sequence', T_(El('sequence', {'name': 'g'}, L(), El('uint', {'name': 'x'}))))):
        add('refused: %s' % n, d)
    add('fields in other namespaces', T_(*[El(t, {'name': t, 'ns': 'NS'}) for t in tuple(INT) + tuple(VECS) + ('string', 'byteVector', 'decimal', 'boolean')]
        + [El('group', {'name': 'g', 'ns': 'NS'}, U('x', ns='NT')), El('sequence', {'name': 's', 'ns': 'NS'}, U('x')), El('enum', {'name': 'e', 'ns': 'NS'}, E('x'))]))
    return out


def _work(job):
    fn, args, kw = job
    e = XmlEngine(_PROG)
    try:
        r = globals()[fn](e, *args, **kw)
    except Exception as x:
        r = ended(Result(args[0]), args[0], x)
    r.fns = sorted(e.visited_fns)
    r.unknown = sorted(e.unknown)
    return r


def run_jobs(prog, jobs, procs=8):
    import multiprocessing
    global _PROG, _JOBS
    _PROG, _JOBS = prog, jobs
    with multiprocessing.get_context('fork').Pool(min(procs, max(1, len(jobs)))) as pool:
        return pool.map(_nth, range(len(jobs)), chunksize=1)


def _nth(i):
    return _work(_JOBS[i])
