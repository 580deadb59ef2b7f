"""Structure of whole messages: presence map scopes, groups, sequences, nested messages, template identification.

The codec is interpreted over whole messages with the wire reduced to its
grammar: which presence map a bit belongs to, NULL or value, and the lengths
and template ids.  All values are abstract.  A recursive-descent parser of the
FAST 1.1 message grammar, written from the template XML alone, has to accept
the token sequence of every path and yield the field tree that the codec
yields through its public interface.
"""
import os
import re
import xml.etree.ElementTree as ET
from . import terms as T
from .engine import Multi, Throw, Stop, NOTPRIM, AnalysisError, State, Outcome, ended
from .fast import FastEngine, INTW, template_args, params, nullable_of, resolve_bool, p_none

HERE = os.path.dirname(os.path.abspath(__file__))
(E_ABSENT, E_INT, E_GROUP, E_END, E_SEQ, E_ELEM, E_MSG, E_VEC, E_DEC, E_MESSAGE) = range(10)
NAMES = ['absent', 'int', 'group', 'end', 'seq', 'elem', 'msg', 'vec', 'dec', 'message']


# ------------------------------------------------------------ template model
class F(object):
    def __init__(self, kind, name, optional=False, op='none', init=None, kids=(), length=None, exp=None, man=None,
                 ref=None, ityp=None):
        self.__dict__.update(kind=kind, name=name, optional=optional, op=op, init=init, kids=list(kids), length=length,
                             exp=exp, man=man, ref=ref, ityp=ityp)

    def has_bit(self):
        if self.kind == 'group':
            return self.optional
        if self.op == 'constant':
            return self.optional
        return self.op in ('copy', 'default', 'increment', 'tail')

    def nullable(self):
        return self.optional and self.op != 'constant'


OPS = ('constant', 'copy', 'default', 'delta', 'increment', 'tail')


def _strip(tag):
    return tag.split('}')[-1]


def parse_xml(path):
    root = ET.parse(path).getroot()
    temps = {}

    def op_of(node, conv=int):
        for c in node:
            t = _strip(c.tag)
            if t in OPS:
                v = c.get('value')
                return t, (conv(v) if v is not None else None)
        return 'none', None

    def fields(node):
        out = []
        for c in node:
            t = _strip(c.tag)
            if t in OPS or t in ('length', 'element', 'exponent', 'mantissa'):
                continue
            opt = c.get('presence') == 'optional'
            nm = c.get('name') or ''
            if t in ('int32', 'int64', 'uInt32', 'uInt64'):
                op, init = op_of(c)
                out.append(F('int', nm, opt, op, init, ityp={'int32': 'int', 'int64': 'long', 'uInt32': 'unsigned int',
                                                             'uInt64': 'unsigned long'}[t]))
            elif t in ('enum', 'boolean'):
                names = ['false', 'true'] if t == 'boolean' else [e.get('name') for e in c if _strip(e.tag) == 'element']
                op, init = op_of(c, lambda v: names.index(v))
                out.append(F('int', nm, opt, op, init, ityp='unsigned long'))
            elif t == 'string':
                op, init = op_of(c, str)
                out.append(F('str', nm, opt, op, init, ityp='unicode' if c.get('charset') == 'unicode' else 'ascii'))
            elif t == 'byteVector':
                out.append(F('str', nm, opt, ityp='byte_vector'))
            elif t == 'int64Vector':
                out.append(F('vec', nm, opt))
            elif t == 'group':
                out.append(F('group', nm, opt, kids=fields(c)))
            elif t == 'sequence':
                ln = [x for x in c if _strip(x.tag) == 'length']
                op, init = op_of(ln[0]) if ln else ('none', None)
                out.append(F('seq', nm, opt, kids=fields(c), length=F('int', nm + '.length', opt, op, init,
                                                                     ityp='unsigned int')))
            elif t == 'decimal':
                sub = {_strip(x.tag): op_of(x) for x in c}
                out.append(F('dec', nm, opt, exp=F('int', nm + '.exp', opt, *sub['exponent'], ityp='short'),
                             man=F('int', nm + '.man', False, *sub['mantissa'], ityp='long')))
            elif t == 'templateRef':
                if c.get('name'):
                    out.extend(temps_by_name[c.get('name')].kids)
                else:
                    out.append(F('dyn', '(templateRef)'))
            else:
                raise AnalysisError('template model: ' + t)
        return out
    temps_by_name = {}
    for i, t in enumerate(root):
        f = F('template', t.get('name'), kids=fields(t))
        f.id = int(t.get('id'))
        f.reset = t.get('reset') == 'yes'
        f.index = i
        temps_by_name[f.name] = f
        temps[f.id] = f
    return temps


def bits(kids):
    n = 0
    for f in kids:
        if f.kind == 'seq':
            n += f.length.has_bit()
        elif f.kind == 'dec':
            n += f.exp.has_bit() + f.man.has_bit()
        elif f.kind in ('int', 'str', 'group'):
            n += f.has_bit()
    return n


class Bad(Exception):
    """the token sequence is not a sentence of the message grammar"""


class Err(Bad):
    """the grammar demands a dynamic error here"""


class Model(object):
    """recursive-descent reading of the tokens of consecutive messages"""

    def __init__(self, temps, known, active, eng, st):
        self.temps, self.known, self.active = temps, known, active
        self.e, self.st = eng, st
        self.dict = {}
        self.out = []
        self.tok = []
        self.i = 0
        self.bitsused = {}

    # tokens
    def peek(self):
        return self.tok[self.i] if self.i < len(self.tok) else ('EOF',)

    def next(self, kind, what):
        t = self.peek()
        if t[0] != kind:
            raise Bad('expected %s for %s, found %s' % (kind, what, show(t)))
        self.i += 1
        return t

    def bit(self, m, what):
        t = self.next('BIT', what)
        if t[1] != m:
            raise Bad('the presence bit of %s belongs to another presence map' % what)
        self.bitsused[m] = self.bitsused.get(m, 0) + 1
        return t[2]

    def map(self, what):
        t = self.next('MAP', what)
        if t[1] in self.bitsused:
            raise Bad('presence map of %s is one already used' % what)
        self.bitsused[t[1]] = 0
        self.size = t[2]
        return t[1], t[2]

    def done(self, m, size, what):
        if self.writing:
            t = self.next('COMMIT', what)
            if t[1] != m:
                raise Bad('another presence map than the one of %s is written' % what)
            n = self.bitsused[m]
            if size is not None and not (isinstance(size, int) and (size + 6) // 7 >= (n + 6) // 7):
                raise Bad('presence map of %s has %d bits but room for %s' % (what, n, T.fmt(size)))

    def value(self, ityp, nullable, what):
        t = self.next('VAL', what)
        if t[1] is None:                       # NULL written without a type
            if not nullable:
                raise Bad('NULL where %s is not nullable' % what)
            return None
        if t[2] is not None and bool(t[2]) != bool(nullable):
            raise Bad('%s is transferred %s' % (what, 'nullable' if t[2] else 'not nullable'))
        if t[1] != ityp:
            raise Bad('%s is transferred as %s' % (what, t[1]))
        return t[3]

    # grammar
    def message(self, tok, force, writing):
        self.tok, self.i, self.writing = tok, 0, writing
        self.out = []
        self.mark(E_MESSAGE, self.segment(force, 'the message', True))
        if self.peek()[0] != 'EOF':
            raise Bad('left over after the message: %s' % show(self.peek()))
        return self.out

    def mark(self, kind, body):
        t, kids = body
        self.out.append((kind, t.id, 0))
        self.out.extend(kids)
        self.out.append((E_END, 0, 0))

    def segment(self, force, what, top):
        resets = self.eat_reset()
        m, size = self.map(what)
        resets += self.eat_reset()
        if self.bit(m, 'the template identifier of ' + what):
            i = self.value('unsigned int', False, 'template identifier of ' + what)
            if not isinstance(i, int):
                raise Bad('template identifier of %s' % what)
            if i not in self.known:
                raise Err('D9')
            self.active = i
        if self.active is None:
            raise Err('D9')
        t = self.temps[self.active]
        resets += self.eat_reset()
        if resets != int(bool(force or t.reset)):
            raise Bad('the dictionary is %s for %s' % ('reset' if resets else 'not reset', what))
        if resets:
            self.dict = {}
        kids = self.fields(t.kids, m)
        self.done(m, size, what)
        return t, kids

    def eat_reset(self):
        n = 0
        while self.peek()[0] == 'RESET':
            self.i += 1
            n += 1
        return min(n, 1)

    def fields(self, kids, m):
        out = []
        for f in kids:
            self.field(f, m, out)
        return out

    def sub(self, kids, m, what):
        """fields of a group or element, with a presence map of its own if any bit is needed"""
        if bits(kids):
            m2, size = self.map('presence map of ' + what)
            out = self.fields(kids, m2)
            self.done(m2, size, what)
            return out
        return self.fields(kids, m)

    def field(self, f, m, out):
        if f.kind == 'int':
            v = self.simple(f, m, f.ityp)
            out.append((E_ABSENT, 0, 0) if v is None else (E_INT, v, 0))
        elif f.kind == 'str':
            v = self.simple(f, m, f.ityp)
            out.append((E_ABSENT, 0, 0) if v is None else ('STR',) + strv(v))
        elif f.kind == 'vec':
            n = self.value('unsigned int', f.optional, 'length of ' + f.name)
            if n is None:
                out.append((E_ABSENT, 0, 0))
                return
            out.append((E_VEC, n, 0))
            for k in range(n):
                out.append((E_INT, self.value('long', False, 'an element of ' + f.name), 0))
        elif f.kind == 'dec':
            x = self.simple(f.exp, m, 'short')
            if x is None:
                out.append((E_ABSENT, 0, 0))
                return
            out.append((E_DEC, self.simple(f.man, m, 'long'), ('exp16', x)))
        elif f.kind == 'group':
            if f.optional and not self.bit(m, 'group ' + f.name):
                out.append((E_ABSENT, 0, 0))
                return
            out.append((E_GROUP, 0, 0))
            out.extend(self.sub(f.kids, m, 'group ' + f.name))
            out.append((E_END, 0, 0))
        elif f.kind == 'seq':
            n = self.simple(f.length, m, 'unsigned int')
            if n is None:
                out.append((E_ABSENT, 0, 0))
                return
            if not isinstance(n, int):
                raise Bad('length of %s' % f.name)
            out.append((E_SEQ, n, 0))
            for k in range(n):
                out.append((E_ELEM, 0, 0))
                out.extend(self.sub(f.kids, m, 'an element of ' + f.name))
                out.append((E_END, 0, 0))
        elif f.kind == 'dyn':
            saved = self.active
            t, kids = self.segment(False, 'the nested message', False)
            self.active = saved
            out.append((E_MSG, t.id, 0))
            out.extend(kids)
            out.append((E_END, 0, 0))
        else:
            raise AnalysisError(f.kind)

    def simple(self, f, m, ityp):
        """operator rules for the shapes used here; None is absent"""
        b = self.bit(m, f.name) if f.has_bit() else None
        if f.op == 'constant':
            return f.init if b in (None, 1) else None
        if f.op == 'none':
            return self.value(ityp, f.nullable(), f.name)
        if f.op == 'default':
            return self.value(ityp, f.nullable(), f.name) if b else f.init
        key = f.name
        if b:
            v = self.value(ityp, f.nullable(), f.name)
        elif key not in self.dict:
            if f.init is None and not f.optional:
                raise Err('D5')
            v = f.init
        else:
            v = self.dict[key]
            if v is None and not f.optional:
                raise Err('D6')
            if f.op == 'increment' and v is not None:
                v = T.add(v, 1, 64)
        self.dict[key] = v
        return v


def show(t):
    if t[0] == 'VAL':
        return 'value of type %s' % (t[1],)
    return t[0]


# ------------------------------------------------------------------- engine
def fork_values(e, st, vals):
    outs = []
    for i, v in enumerate(vals):
        s = st if i == len(vals) - 1 else st.fork()
        outs.append((s, v))
    return outs


def tok(st, *t):
    st.user['tok'] = st.user.get('tok', ()) + (t,)


def oid_of(e, st, p):
    p = e.norm(st, p)
    if isinstance(p, tuple) and p[0] == 'P':
        return p[1]
    return '?'


def w_map(e, st, ins, a, d):
    o = oid_of(e, st, a[1])
    if sum(1 for t in st.user['tok'] if t[0] == 'MAP') >= st.user.get('maxmaps', 99):
        return Stop('bound', 'nesting bound')
    st.user['mapn'] = st.user.get('mapn', 0) + 1
    m = (o, st.user['mapn'])
    st.user['mapof'] = dict(st.user.get('mapof', {}))
    st.user['mapof'][o] = m
    tok(st, 'MAP', m, None)
    return 1


def mapid(st, o):
    return st.user.get('mapof', {}).get(o, (o, 0))


def w_bit(e, st, ins, a, d):
    m = mapid(st, oid_of(e, st, a[0]))
    s2 = st.fork()
    outs = []
    for s, b in ((st, 1), (s2, 0)):
        tok(s, 'BIT', m, b)
        outs.append((s, b))
    return Multi(pick(st, outs))


def pick(st, outs):
    """restrict the choices of a scripted prefix"""
    script = st.user.get('script')
    if script is None:
        return outs
    k = outs[0][0].user.get('nch', 0)
    outs[0][0].user['script'] = script
    c = script[k % len(script)]
    s, v = outs[c % len(outs)]
    s.user['nch'] = k + 1
    return [(s, v)]


def at_id(st):
    """the next number is a template identifier: first bit of a fresh map, set"""
    t = st.user.get('tok', ())
    return len(t) >= 2 and t[-1][0] == 'BIT' and t[-1][2] == 1 and t[-2][0] in ('MAP', 'RESET') and \
        (t[-2][0] == 'RESET' or t[-2][1] == t[-1][1]) and t[-1][1] in st.user.get('idmaps', (t[-1][1],))


def w_read(e, st, ins, a, dem):
    targs = template_args(dem, 'fast_istream::decode')
    if not targs or targs[0] not in INTW:
        return NOTPRIM
    ty = targs[0]
    w = INTW[ty]
    nl = nullable_of(e, st, dem, targs[1:], a, 2)

    def cont(s, n):
        outs = []
        if ty == 'unsigned int':
            vals = list(s.user['ids']) if at_id(s) else [2, 1, 0]
        else:
            k = s.user.get('nread', 0)
            s.user['nread'] = k + 1
            vals = [('S', w, 'wire%d' % k)]
        states = [s]
        for i in range(1, len(vals) + (1 if n else 0)):
            states.append(s.fork())
        for q, v in zip(states, vals):
            tok(q, 'VAL', ty, bool(n), v)
            if ty == 'int':
                q.iv[v] = (T.mask(32) + 1 - 63, 63, -63, 63) if False else q.iv.get(v, (0, T.mask(32), -63, 63))
            e.store(q, v, a[1], w // 8, w)
            outs.append((q, 1))
        if n:
            q = states[-1]
            tok(q, 'VAL', ty, True, None)
            outs.append((q, 0))
        return Multi(pick(s, outs))
    return resolve_bool(e, st, nl, cont)


def w_read_str(e, st, ins, a, dem):
    ps = params(dem)
    kind = [k for k in ('ascii', 'unicode', 'byte_vector') if any(k + '_field_instruction' in p for p in ps)][0]
    targs = template_args(dem, 'fast_istream::decode')
    nl = nullable_of(e, st, dem, targs, a, 4)

    def cont(s, n):
        outs = []
        k = s.user.get('nread', 0)
        s.user['nread'] = k + 1
        s2 = s.fork() if n else None
        oid = e.new_obj(s, 8, 'sym', 'wirebuf%d' % k)
        o = s.wobj(oid)
        for j in range(2):
            o.cells[j] = (1, ('S', 8, 'chr%d.%d' % (k, j)))
        tok(s, 'VAL', kind, bool(n), (('S', 8, 'chr%d.0' % k), ('S', 8, 'chr%d.1' % k)))
        e.store(s, ('P', oid, 0), a[1], 8, 64)
        e.store(s, 2, a[2], 4, 32)
        outs.append((s, 1))
        if n:
            tok(s2, 'VAL', kind, True, None)
            outs.append((s2, 0))
        return Multi(pick(s, outs))
    return resolve_bool(e, st, nl, cont)


def w_find(e, st, ins, a, d):
    i = e.norm(st, T.slice_(a[1], 32, 0, 32) if not isinstance(a[1], int) else a[1])
    if not isinstance(i, int):
        raise AnalysisError('template lookup with an abstract id')
    return st.user['repo'].get(i, 0)


def w_unique(e, st, ins, a, d):
    r = st.user['repo']
    return list(r.values())[0] if len(r) == 1 else 0


def w_reset(e, st, ins, a, d):
    tok(st, 'RESET')
    for p in st.user['prevs']:
        q = e.padd(p, 4)
        v = e.norm(st, e.load(st, q, 4, 32))
        e.store(st, T.binop('and', v, 0x7fffffff, 32), q, 4, 32)
    return None


def w_init(e, st, ins, a, d):
    o = oid_of(e, st, a[0])
    st.user['mapn'] = st.user.get('mapn', 0) + 1
    m = (o, st.user['mapn'])
    st.user['mapof'] = dict(st.user.get('mapof', {}))
    st.user['mapof'][o] = m
    tok(st, 'MAP', m, e.norm(st, a[2]))
    return None


def w_setbit(e, st, ins, a, d):
    v = e.norm(st, a[1])
    if not isinstance(v, int) and T.width(v) != 1:
        v = e.icmp(st, 'ne', T.width(v), v, 0)
    m = mapid(st, oid_of(e, st, a[0]))

    def cont(s, b):
        tok(s, 'BIT', m, int(b))
        return Multi([(s, None)])
    return resolve_bool(e, st, v, cont)


def w_commit(e, st, ins, a, d):
    tok(st, 'COMMIT', mapid(st, oid_of(e, st, a[0])))
    return None


def w_null(e, st, ins, a, d):
    tok(st, 'VAL', None, True, None)
    return None


def w_write(e, st, ins, a, dem):
    ps = params(dem)
    kind = [k for k in ('ascii', 'unicode', 'byte_vector') if any(k + '_field_instruction' in p for p in ps)]
    targs = template_args(dem, 'fast_ostream::encode')
    if kind:
        kind = kind[0]
        nl = nullable_of(e, st, dem, targs, a, 4)
        isnull = e.icmp(st, 'eq', 64, a[1], 0)

        def val(s):
            n = e.norm(s, a[2])
            if not isinstance(n, int):
                return ('?',)
            return tuple(e.norm(s, e.load(s, e.padd(a[1], j), 1, 8)) for j in range(n))
    elif targs and targs[0] in INTW:
        kind = targs[0]
        nl = nullable_of(e, st, dem, targs[1:], a, 3)
        isnull = a[2]

        def val(s):
            return e.norm(s, a[1])
    else:
        return NOTPRIM

    def cont(s, n):
        if not n:
            tok(s, 'VAL', kind, False, val(s))
            return Multi([(s, None)])

        def c2(s3, nul):
            if nul:
                tok(s3, 'VAL', None, True, None)
            else:
                tok(s3, 'VAL', kind, True, val(s3))
            return Multi([(s3, None)])
        return resolve_bool(e, s, isnull, c2)
    return resolve_bool(e, st, nl, cont)


def w_emit(e, st, ins, a, d):
    st.user['tree'] = st.user.get('tree', ()) + ((e.norm(st, a[0]), e.norm(st, a[1]), e.norm(st, a[2])),)
    return None


def w_emit_str(e, st, ins, a, d):
    n = e.norm(st, a[1])
    if isinstance(n, int) and n < 64:
        v = tuple(e.norm(st, e.load(st, e.padd(a[0], j), 1, 8)) for j in range(n))
        if v and all(isinstance(x, int) for x in v):
            v = (''.join(map(chr, v)),)
    else:
        v = ('?',)
    st.user['tree'] = st.user.get('tree', ()) + (('STR',) + v,)
    return None


def w_ask(e, st, ins, a, d):
    what, rng = e.norm(st, a[0]), e.norm(st, a[1])
    vals = list(st.user['nest']) if what == E_MSG else list(range(rng))
    return Multi(pick(st, fork_values(e, st, vals)))


def w_val(e, st, ins, a, d):
    what = e.norm(st, a[0])
    if what == E_ABSENT:
        return 1
    if what == E_DEC:
        return 3
    k = st.user.get('nval', 0)
    st.user['nval'] = k + 1
    return ('S', 64, 'val%d' % k)


def w_prev(e, st, ins, a, d):
    st.user['prevs'] = st.user.get('prevs', ()) + (a[0],)
    return None


class WalkEngine(FastEngine):
    MAXSTEPS = 3000000
    uninit_check = True

    def __init__(self, prog):
        FastEngine.__init__(self, prog)
        P = self.prim
        P(r'mfast::fast_istream::decode<', lambda e, s, i, a, d: w_read_str(e, s, i, a, d) if '_field_instruction' in d else w_read(e, s, i, a, d))
        P(r'^mfast::fast_istream::decode\(mfast::decoder_presence_map', w_map)
        P(r'^mfast::decoder_presence_map::is_next_bit_set\(', w_bit)
        P(r'^mfast::template_repo<.*>::find\(', w_find)
        P(r'^mfast::template_repo<.*>::unique_entry\(', w_unique)
        P(r'mfast::template_repo<.*>::build', p_none)
        P(r'^mfast::template_repo_base::reset_dictionary\(', w_reset)
        P(r'^mfast::encoder_presence_map::init\(', w_init)
        P(r'^mfast::encoder_presence_map::set_next_bit\(', w_setbit)
        P(r'^mfast::encoder_presence_map::commit\(', w_commit)
        P(r'^mfast::fast_ostream::encode_null\(', w_null)
        P(r'mfast::fast_ostream::encode<', w_write)
        P(r'^vf_emit$', w_emit)
        P(r'^vf_emit_str$', w_emit_str)
        P(r'^vf_ask$', w_ask)
        P(r'^vf_val$', w_val)
        P(r'^vf_prev$', w_prev)

    def call1(self, st, fn, args):
        outs = self.run(st, fn, args)
        r = [o for o in outs if o.kind == 'ret']
        if len(outs) != 1 or not r:
            raise AnalysisError('%s: %s' % (fn, [(o.kind, o.value) for o in outs][:3]))
        return r[0].state, r[0].value


# ------------------------------------------------------------------ scenarios
XML = os.path.join(os.path.dirname(HERE), 'drivers', 'gen', 'shapes.xml')
SIZES = ('fast_decoder', 'dec2', 'fast_encoder', 'enc2', 'message', 'entry2', 'eentry2')


class Walk(object):
    """one codec with a set of registered templates"""

    def __init__(self, eng, api, temps, ids, known=None, nest=()):
        self.e, self.api, self.temps = eng, api, temps
        self.ids = list(ids)
        self.known = set(known if known is not None else [i for i in ids if i in temps])
        self.nest = list(nest)
        e = eng
        st = e.base_state()
        if not hasattr(e, 'sizes'):
            e.sizes = {}
            for k, n in enumerate(SIZES):
                e.sizes[n] = e.call1(st.fork(), 'vf_sizes', [k])[1]
        st.user.update(ids=self.ids, repo={}, nest=[temps[i].index for i in self.nest], prevs=(), tok=(), tree=())
        self.msg = {}
        dec = api.startswith('dec')
        for i in sorted(self.known | set(self.nest)):
            st, _ = e.call1(st, 'vf_prevs', [temps[i].index])
        repo = {}
        for i in sorted(self.known):
            if dec:
                m = e.new_obj(st, e.sizes['message'], 'undef', 'message')
                st, _ = e.call1(st, 'vf_message', [('P', m, 0), temps[i].index])
                self.msg[i] = m
                if api == 'dec1':
                    repo[i] = ('P', m, 0)
                else:
                    en = e.new_obj(st, e.sizes['entry2'], 'undef', 'entry')
                    st, _ = e.call1(st, 'vf_entry_dec2', [('P', en, 0), ('P', m, 0), temps[i].index])
                    repo[i] = ('P', en, 0)
            else:
                n = 8 if api == 'enc1' else e.sizes['eentry2']
                en = e.new_obj(st, n, 'undef', 'entry')
                st, _ = e.call1(st, 'vf_entry_' + api, [('P', en, 0), temps[i].index])
                repo[i] = ('P', en, 0)
        st.user['repo'] = repo
        built = set(o for o, x in st.mem.items() if x.tag == 'heap')
        d = e.new_obj(st, e.sizes[{'dec1': 'fast_decoder', 'dec2': 'dec2', 'enc1': 'fast_encoder', 'enc2': 'enc2'}[api]],
                      'undef', 'codec')
        st, _ = e.call1(st, 'vf_open_' + api, [('P', d, 0)])
        self.codec = d
        # what belongs to the codec object, not to messages
        self.codec_heap = set(o for o, x in st.mem.items() if x.tag == 'heap') - built
        st.user['hist'] = ()
        self.start = st

    def model(self, st):
        active = list(self.known)[0] if len(self.known) == 1 else None
        return Model(self.temps, self.known, active, self.e, st)

    def decode(self, st, force=0, script=None):
        """all paths of decoding one more message; list of (outcome, verdict)"""
        e = self.e
        st.user['tok'], st.user['tree'] = (), ()
        st.user['script'], st.user['nch'] = script, 0
        st.events = []
        st.steps = 0
        buf = e.new_obj(st, 100, 'sym', 'buffer')
        outs = e.run(st, 'vf_decode_' + self.api, [('P', self.codec, 0), ('P', buf, 0), 100, force])
        for o in outs:
            o.state.user['hist'] += ((tuple(o.state.user['tok']), force, None, None),)
        return [(o, self.judge(o, False)) for o in outs]

    def fill(self, st, t, script=None, fresh=True):
        """messages of template t filled through the public interface: list of states"""
        e = self.e
        st.steps = 0
        st.events = []
        st.user['script'], st.user['nch'] = script, 0
        if ('fill', t) not in st.user:
            m = e.new_obj(st, e.sizes['message'], 'undef', 'message')
            st, _ = e.call1(st, 'vf_message', [('P', m, 0), self.temps[t].index])
            st.user[('fill', t)] = m
        m = st.user[('fill', t)]
        res = []
        for o in e.run(st, 'vf_message_fill', [('P', m, 0)]):
            if o.kind != 'ret':
                res.append((o, None))
                continue
            s = o.state
            s.user['tree'] = ()
            s.user['script'] = None
            for o2 in e.run(s, 'vf_message_dump', [('P', m, 0)]):
                res.append((o2, o2.state.user['tree']))
        return res

    def encode(self, st, t, force=0):
        e = self.e
        m = st.user[('fill', t)]
        tree = st.user['tree']
        st.user['tok'] = ()
        st.user['script'] = None
        st.steps = 0
        buf = e.new_obj(st, 100, 'sym', 'buffer')
        outs = e.run(st, 'vf_encode_' + self.api, [('P', self.codec, 0), ('P', m, 0), ('P', buf, 0), 100, force])
        for o in outs:
            o.state.user['hist'] += ((tuple(o.state.user['tok']), force, tree, t),)
        return [(o, self.judge(o, True)) for o in outs]

    def judge(self, o, writing):
        """None when right, else (aspect, text); ('?', ..) undecided"""
        st = o.state
        for ev in st.events:
            if ev[0] in MEMEV:
                return ('memory', '%s %s' % (ev[0], ev[1]), ev[-1])
        if o.kind == 'bound':
            return None
        if o.kind not in ('ret', 'throw'):
            return ('?', '%s %s' % (o.kind, str(o.value)[:100]), '')
        m = self.model(st)
        h = st.user['hist']
        if writing and (h[-1][3] not in self.known or
                        any(t[0] == E_MSG and t[1] not in self.known for t in h[-1][2])):
            if o.kind == 'throw' and o.value.get('code') == 'D9':
                return None
            return ('error', 'no D9 for a message of an unknown template', self.last(st))
        try:
            for tk, force, tree, tid in h[:-1]:
                m.message(list(tk), force, writing)
        except Bad:
            return ('?', 'earlier message', '')
        tk, force, tree, tid = h[-1]
        try:
            exp = m.message(list(tk), force, writing)
        except Err as x:
            if o.kind == 'throw':
                code = o.value.get('code')
                if code == str(x):
                    return None
                return ('error', 'error %s where %s is due' % (code, x), self.last(st))
            if writing:
                return ('structure', 'what is written makes the decoder raise %s' % x, self.last(st))
            return ('error', 'no error where %s is due' % x, self.last(st))
        except Bad as x:
            if o.kind == 'throw':
                return ('error', 'unexpected error %s' % o.value.get('code'), o.value.get('where', ''))
            return ('structure', str(x), self.last(st))
        if o.kind == 'throw':
            return ('error', 'unexpected error %s' % o.value.get('code'), o.value.get('where', ''))
        got = list(tree if writing else st.user['tree'])
        d = self.differ(st, exp, got)
        if d:
            return (d[0], d[1], self.last(st))
        return None

    def last(self, st):
        return 'src/mfast/coder (%s)' % self.api

    def differ(self, st, exp, got):
        e = self.e
        und = None
        for i in range(max(len(exp), len(got))):
            if i >= len(exp) or i >= len(got):
                return ('structure', 'field tree ends early or late')
            a, b = exp[i], got[i]
            if a[0] != b[0]:
                return ('structure', 'field %d is %s, expected %s' % (i, nm(b), nm(a)))
            if a[0] == 'STR':
                if len(a) != len(b):
                    return ('structure', 'string of another length')
                for x, y in zip(a[1:], b[1:]):
                    if isinstance(x, str) or isinstance(y, str):
                        if x != y:
                            return ('value', 'string %s, expected %s' % (y, x))
                        continue
                    x, y = (T.bitop('and', e.norm(st, z), 0x7f, 8) for z in (x, y))
                    if x != y:
                        return ('value', 'other characters')
                continue
            for x, y in zip(a[1:], b[1:]):
                if isinstance(x, tuple) and x[0] == 'exp16':
                    x = x[1]
                    x = T.sext(x, 16, 64) if not isinstance(x, int) else T.signed(x & 0xffff, 16) & T.mask(64)
                x, y = e.norm(st, x), e.norm(st, y)
                if isinstance(x, int) and isinstance(y, int):
                    if (x ^ y) & T.mask(64):
                        return ('value', 'field %d is %s, expected %s' % (i, y, x))
                    continue
                c = e.cmp(st, 'eq', 64, x, y)
                if c is None:
                    c = linked(st, x, y)
                if not c:
                    return ('value', 'field %d is %s, expected %s' % (i, T.fmt(y), T.fmt(x)))
        return None


def linked(st, x, y):
    """equal by a chain of the equalities assumed on the path"""
    eqs = [(k[4], k[5]) for k, v in st.known.items() if k[0] == 'C' and k[2] == 'eq' and v]
    seen = set([x])
    work = [x]
    while work:
        a = work.pop()
        for p, q in eqs:
            for u, v in ((p, q), (q, p)):
                if u == a and v not in seen:
                    seen.add(v)
                    work.append(v)
    return y in seen


def strv(v):
    if isinstance(v, str):
        return (v,)
    if v and all(isinstance(x, int) for x in v):
        return (''.join(map(chr, v)),)
    return tuple(v)


def nm(t):
    return t[0] if isinstance(t[0], str) else NAMES[t[0]] if t[0] < len(NAMES) else 'of unknown type'


# ------------------------------------------------------------------ running
_PROG = None


class Result(object):
    last = prev = None

    def __init__(self, name):
        Result.prev, Result.last = Result.last, self
        self.name = name
        self.paths = 0
        self.bounded = 0
        self.bad = {}          # text -> (aspect, where, count)
        self.und = {}
        self.unknown = set()
        self.fns = 0

    def add(self, res):
        for o, v in res:
            if o.kind == 'bound':
                self.bounded += 1
                continue
            if v is None:
                self.paths += 1
            elif v[0] == '?':
                self.und[v[1]] = self.und.get(v[1], 0) + 1
            else:
                self.paths += 1
                k = (v[0], generic(v[1]))
                if k not in self.bad:
                    self.bad[k] = (v[1], where_of(o, v))


def generic(t):
    return re.sub(r'\d+', 'n', re.sub(r'\((\d+,)?(wire|val)\d+\)', '(v)', t))


def where_of(o, v):
    for ev in reversed(o.state.events):
        if isinstance(ev[-1], str) and ':' in ev[-1]:
            return ev[-1]
    return v[2] if len(v) > 2 else ''


def t_decode(e, api, temps, ti, scripts, maxmaps=99, nest=(), extra=()):
    r = Result('%s template %s' % (api, temps[ti].name))
    w = Walk(e, api, temps, [ti] + list(nest) + list(extra), [ti] + list(nest) if nest else None)
    w.start.user['maxmaps'] = maxmaps
    r.add(w.decode(w.start.fork()))
    for sc, force in scripts:
        r1 = w.decode(w.start.fork(), script=sc)
        if r1[0][0].kind != 'ret':
            continue
        r.add(w.decode(r1[0][0].state, force=force))
    r.unknown = set(e.unknown)
    return r


def t_encode(e, api, temps, ti, scripts, nest=()):
    r = Result('%s template %s' % (api, temps[ti].name))
    w = Walk(e, api, temps, [ti] + list(nest), None, nest)

    def both(st, force):
        for o, tree in w.fill(st, ti):
            if o.kind != 'ret':
                r.add([(o, ('?', str(o.value)[:100], ''))])
            else:
                r.add(w.encode(o.state, ti, force))
    both(w.start.fork(), 0)
    for sc, force in scripts:
        f = w.fill(w.start.fork(), ti, sc)
        if f[0][0].kind != 'ret':
            continue
        r1 = [o for o, _ in w.encode(f[0][0].state, ti) if o.kind == 'ret']
        if r1:
            both(r1[0].state, force)
    r.unknown = set(e.unknown)
    return r


def t_stream(e, api, temps, known, ids, depth, forces, nest=(), maxmaps=99):
    """consecutive messages of several templates: identifiers, active template, reset"""
    r = Result('%s stream over %s' % (api, '+'.join(temps[i].name for i in known)))
    w = Walk(e, api, temps, ids, known, nest)
    w.start.user['maxmaps'] = maxmaps
    level = [w.start]
    for d in range(depth):
        nxt = {}
        for st in level:
            for force in forces:
                if api.startswith('dec'):
                    res = w.decode(st.fork(), force=force)
                    r.add(res)
                    outs = [o for o, v in res if o.kind in ('ret', 'throw') and v is None]
                else:
                    outs = []
                    for t in ids:
                        for o, tree in w.fill(st.fork(), t):
                            if o.kind != 'ret':
                                r.add([(o, ('?', str(o.value)[:100], ''))])
                                continue
                            res = w.encode(o.state, t, force)
                            r.add(res)
                            outs += [x for x, v in res if x.kind in ('ret', 'throw') and v is None]
                for o in outs:
                    tk = o.state.user['hist'][-1][0]
                    key = tuple((t[0], t[2] if t[0] == 'BIT' else t[3] if t[0] == 'VAL' and isinstance(t[3], int) else None)
                                for t in tk if t[0] in ('BIT', 'RESET', 'VAL')) + (force, o.kind)
                    if o.kind == 'ret':
                        nxt.setdefault(key, o.state)
        level = list(nxt.values())
    r.unknown = set(e.unknown)
    return r


def heap_left(e, st, skip):
    """allocations never released, other than those a dictionary entry owns"""
    own = set()
    for p in st.user['prevs']:
        c = e.norm(st, e.load(st, e.padd(p, 8), 8, 64))
        if isinstance(c, tuple) and c[0] == 'P':
            own.add(c[1])
    return [o for o, x in st.mem.items() if x.tag == 'heap' and not x.freed and o not in own and o not in skip]


def t_life(e, api, temps, ti, script, maxmaps=99, nest=(), slack=0):
    """message objects through decoding or filling, copying, refilling and destruction"""
    dec = api.startswith('dec')
    r = Result('%s life of %s messages%s' % (api, temps[ti].name, ', generous allocator' if slack else ''))
    e.SLACK = slack
    if dec:
        w = Walk(e, api, temps, [ti] + list(nest), [ti] + list(nest) if nest else None)
        w.start.user['maxmaps'] = maxmaps
        st = w.start.fork()
    else:
        w = Walk(e, api, temps, [ti] + list(nest), None, nest)
        st = w.start.fork()
    base = w.codec_heap
    if dec:
        r1 = w.decode(st, script=script)
        if r1[0][0].kind != 'ret':
            return r
        second = [o for o, v in w.decode(r1[0][0].state) if o.kind == 'ret' and v is None]
    else:
        f = w.fill(st, ti, script)
        second = [o for o, t in w.fill(f[0][0].state, ti) if o.kind == 'ret']

    def bad(o, aspect, text):
        r.add([(o, (aspect, text, 'message life cycle'))])

    def call(o, fn, args):
        s = o.state
        s.steps = 0
        s.user['script'] = None
        outs = e.run(s, fn, args)
        if len(outs) != 1 or outs[0].kind != 'ret':
            x = outs[0]
            r.add([(x, ('?', '%s: %s %s' % (fn, x.kind, str(x.value)[:80]), ''))])
            return None
        return outs[0]
    for o in second:
        st = o.state
        msgs = list(w.msg.values()) if dec else [st.user[('fill', ti)]]
        m = msgs[0] if not dec else w.msg[ti]
        o.state.events = []
        o.state.user['tree'] = ()
        c = e.new_obj(o.state, e.sizes['message'], 'undef', 'copy')
        seq = [('vf_message_dump', m), ('vf_message_copy', c, m), ('vf_message_dump', c)]
        trees = []
        x = o
        for step in seq:
            x.state.user['tree'] = ()
            x = call(x, step[0], [('P', q, 0) for q in step[1:]])
            if x is None:
                break
            if step[0] == 'vf_message_dump':
                trees.append(x.state.user['tree'])
        if x is None:
            continue
        d = w.differ(x.state, list(trees[0]), list(trees[1]))
        if d:
            bad(x, 'value', 'a copy of the message differs: ' + d[1])
            continue
        # change the original; the copy must not notice
        x.state.user['script'], x.state.user['nch'] = [1, 0, 2], 0
        if not nest:
            fl = e.run(x.state, 'vf_message_fill', [('P', m, 0)])
            if len(fl) != 1 or fl[0].kind != 'ret':
                r.add([(fl[0], ('?', 'refill', ''))])
                continue
            x = fl[0]
        x.state.user['tree'] = ()
        x = call(x, 'vf_message_dump', [('P', c, 0)])
        if x is None:
            continue
        d = w.differ(x.state, list(trees[0]), list(x.state.user['tree']))
        if d:
            bad(x, 'value', 'changing a message changes its copy: ' + d[1])
            continue
        order = [c] + msgs if len(trees[0]) % 2 else msgs + [c]
        for q in order:
            x = call(x, 'vf_message_destroy', [('P', q, 0)])
            if x is None:
                break
        if x is None:
            continue
        evs = [ev for ev in x.state.events if ev[0] in MEMEV]
        if evs:
            bad(x, 'memory', '%s %s' % (evs[0][0], re.sub(r'\.\d+', '', str(evs[0][1]))))
            continue
        left = heap_left(e, x.state, base)
        if left:
            bad(x, 'memory', 'storage of the message is never released (%d of %s bytes)' % (len(left), x.state.mem[left[0]].size))
            continue
        r.add([(x, None)])
    r.unknown = set(e.unknown)
    return r


MEMEV = ('DOUBLEFREE', 'UNINIT', 'NULLDEREF', 'UAF', 'RANGE', 'OOB')


def _work(job):
    fn, args = job
    e = WalkEngine(_PROG)
    e.LOOPCUT = 1000
    e.loopcut = 1000
    temps = parse_xml(XML)
    try:
        r = globals()[fn](e, args[0], temps, *args[1:])
    except Exception as x:
        r = ended(Result('%s %s' % (fn, args[:2])), '%s %s' % (fn, args[:2]), x)
    r.fns = sorted(e.visited_fns)
    r.steps = e.total_steps
    return r


def run_jobs(prog, jobs, procs=8):
    import multiprocessing
    global _PROG
    _PROG = prog
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(procs, max(1, len(jobs)))) as pool:
        return pool.map(_work, jobs, chunksize=1)
