"""JSON rendering and reading of messages: the text written for a message against its content, and the content read from a
text against what the text states.  Streams and std::string are modelled by their documented meaning, character by
character; field values, and the characters of strings that need no escape, are symbols."""
import os
import re
import xml.etree.ElementTree as ET
from .engine import Multi, Stop, Throw, AnalysisError, cstr, broken, ended
from .fast import FastEngine
from .walk import Result
from . import terms as T

HERE = os.path.dirname(os.path.abspath(__file__))
XML = os.path.join(os.path.dirname(HERE), 'drivers', 'gen', 'json.xml')
E_ABSENT, E_INT, E_GROUP, E_END, E_SEQ, E_ELEM, E_MSG, E_VEC, E_DEC, E_BAD = range(10)
FT = ('int32', 'uInt32', 'int64', 'uInt64', 'decimal', 'exponent', 'templateRef', 'ascii', 'unicode', 'byteVector')
INTS = {'int32': (32, True), 'uInt32': (32, False), 'int64': (64, True), 'uInt64': (64, False)}
BOOL = 'boolean'


class F(object):
    """one field of a template, read from the template definition"""
    def __init__(self, el):
        self.kind = el.tag.split('}')[1]
        if self.kind == 'string':
            self.kind = el.get('charset', 'ascii')
        self.name = el.get('name', '')
        self.optional = el.get('presence') == 'optional'
        tag = [v for k, v in el.attrib.items() if k.endswith('}tag')]
        self.tag = {'RAW': 1, 'IGNORE': 2}[tag[0]] if tag else 0
        self.sub = [F(x) for x in el if x.tag.split('}')[1] in KINDS]


KINDS = ('int32', 'uInt32', 'int64', 'uInt64', 'decimal', 'string', 'byteVector', 'int32Vector', 'uInt32Vector', 'int64Vector',
         'uInt64Vector', 'group', 'sequence', 'enum', 'boolean', 'templateRef')


def templates():
    out = {}
    for t in ET.parse(XML).getroot():
        if t.tag.endswith('template'):
            out[int(t.get('id'))] = (t.get('name'), [F(x) for x in t])
    return out


TPL = templates()


# ------------------------------------------------------------------- streams
class Ios(object):
    """state of a stream"""
    def __init__(self, inp=()):
        self.out = ()
        self.inp = tuple(inp)
        self.pos = 0
        self.eof = self.fail = False
        self.skip = True
        self.base = 10
        self.width = 0
        self.fill = 32
        self.flags = 0x1002

    def copy(self):
        x = Ios()
        x.__dict__.update(self.__dict__)
        return x


def ios(e, st, p, w=True):
    p = e.norm(st, p)
    if not (isinstance(p, tuple) and p[0] == 'P'):
        raise AnalysisError('stream')
    k = ('ios', p[1])
    s = st.user.get(k)
    if s is None:
        s = Ios()
    if w:
        s = s.copy()
        st.user[k] = s
    return s


def new_stream(e, st, inp=()):
    vt = e.new_obj(st, 64, 'zero', 'iosvtable')
    oid = e.new_obj(st, 512, 'undef', 'stream')
    e.store(st, ('P', vt, 32), ('P', oid, 0), 8, 64)
    st.user[('ios', oid)] = Ios(inp)
    return ('P', oid, 0)


def byte(e, st, p, i):
    return e.norm(st, e.load(st, e.padd(p, i), 1, 8))


def zstr(e, st, p):
    """the characters of a C string, up to its terminator"""
    out = []
    for i in range(4096):
        c = byte(e, st, p, i)
        if isinstance(c, int) and c == 0:
            return out
        if not isinstance(c, int) and e.cmp(st, 'ne', 8, c, 0) is not True:
            raise AnalysisError('C string of unknown length')
        out.append(c)
    raise AnalysisError('C string without end')


def dec(v):
    return [ord(c) for c in str(v)]


def digits_of(e, st, v, w, signed):
    """(negative, digits) of a number whose decimal digits the scenario has named, or a concrete one"""
    v = e.norm(st, v)
    if isinstance(v, int):
        return dec(T.signed(v, w) if signed else v & T.mask(w))
    d = st.user.get('digits', {})
    for t, (neg, ds) in d.items():
        if v == t:
            return ([45] if neg else []) + list(ds)
        if v == T.neg(t, w):
            return ([] if neg else [45]) + list(ds)
    return None


def canon(e, st, v, w, signed):
    v = e.norm(st, v)
    if isinstance(v, int):
        return T.signed(v, w) if signed else v & T.mask(w)
    return ('n', e.norm(st, (T.sext if signed else T.zext)(v, w, 128)))


def pad(s, toks):
    n = s.width - len(toks)
    s.width = 0
    return (s.fill,) * max(0, n) + tuple(toks)


def put_num(e, st, s, v, w, signed):
    v = e.norm(st, v)
    if s.base == 16:
        if isinstance(v, int):
            s.out += pad(s, [ord(c) for c in '%x' % (v & T.mask(w))])
            return
        # one byte as two digits; any other symbol stays what it is
        hi = e.norm(st, T.slice_(v, w, 8, w - 8))
        if isinstance(hi, int) and hi == 0 and s.width == 2 and s.fill == 48:
            s.width = 0
            s.out += (('hex', e.norm(st, T.slice_(v, w, 0, 8))),)
            return
        s.out += (('hexraw', s.width, s.fill, v),)
        s.width = 0
        return
    if s.base != 10:
        raise AnalysisError('base of a number')
    ds = digits_of(e, st, v, w, signed)
    if ds is None:
        if s.width:
            raise AnalysisError('padded number')
        ds = [canon(e, st, v, w, signed)]
    s.out += pad(s, ds)


OWID = {'int': (32, 1), 'unsigned int': (32, 0), 'long': (64, 1), 'unsigned long': (64, 0), 'short': (16, 1), 'unsigned short': (16, 0),
        'long long': (64, 1), 'unsigned long long': (64, 0), 'bool': (8, 0)}


def o_member(e, st, ins, a, d):
    arg = d[d.index('<<(') + 3:].split(')')[0] if not d.endswith('&))') else 'manip'
    s = ios(e, st, a[0])
    if arg in OWID:
        w, sg = OWID[arg]
        v = a[1]
        if arg in ('bool',) or (arg.endswith('short')):
            v = T.slice_(e.norm(st, v), 32, 0, w) if not isinstance(v, int) and T.width(v) != w else v
        put_num(e, st, s, v, w, bool(sg))
        return a[0]
    if '(*)' in d:
        manip(e, st, s, a[1])
        return a[0]
    raise AnalysisError('output of ' + d[-60:])


def manip(e, st, s, f):
    f = e.norm(st, f)
    n = f[1][1:] if isinstance(f, tuple) else '?'
    fi = e.prog['functions'].get(n)
    n = fi['dem'] if fi else n
    for k, v in (('std::hex', 16), ('std::dec', 10), ('std::oct', 8)):
        if n.startswith(k):
            s.base = v
            return
    if n.startswith('std::skipws'):
        s.skip = True
    elif n.startswith('std::noskipws'):
        s.skip = False
    elif 'std::ws<' in n or n.startswith('std::ws'):
        skip_ws(e, st, s, True)
    elif 'nouppercase' in n or 'noshowbase' in n or 'std::right' in n or 'std::flush' in n:
        pass
    else:
        raise AnalysisError('manipulator ' + n)


def o_free(e, st, ins, a, d):
    s = ios(e, st, a[0])
    tail = d[d.rindex('(') + 1:]
    if '_Setw' in d:
        s.width = e.norm(st, a[1])
        if not isinstance(s.width, int):
            raise AnalysisError('width')
        s.width &= T.mask(32)
    elif '_Setfill' in d:
        v = e.norm(st, a[1])
        s.fill = v & 255 if isinstance(v, int) else v
    elif 'char const*)' in d or 'char const*' in tail:
        s.out += pad(s, zstr(e, st, a[1]))
    elif 'basic_string' in tail or 'STR' in tail or 'basic_string<char' in d.split('>(')[-1]:
        s.out += pad(s, strget(e, st, a[1]))
    elif 'char)' in d:
        v = e.norm(st, a[1])
        s.out += pad(s, [v & 255 if isinstance(v, int) else v])
    else:
        raise AnalysisError('output of ' + d[-60:])
    return a[0]


def o_put(e, st, ins, a, d):
    s = ios(e, st, a[0])
    v = e.norm(st, a[1])
    s.out += (v & 255 if isinstance(v, int) else v,)
    return a[0]


def count(e, st, n):
    n = e.norm(st, n)
    if not isinstance(n, int):
        raise AnalysisError('unknown number of characters')
    return T.signed(n, 64)


def o_write(e, st, ins, a, d):
    s = ios(e, st, a[0])
    n = count(e, st, a[2])
    s.out += tuple(byte(e, st, a[1], i) for i in range(max(0, n)))
    return a[0] if 'sputn' not in d else n


def o_sputc(e, st, ins, a, d):
    o_put(e, st, ins, a, d)
    return T.zext(e.norm(st, a[1]), 8, 32) if not isinstance(a[1], int) else a[1] & 255


def i_good(e, st, ins, a, d):
    s = ios(e, st, a[0], False)
    if '::good' in d:
        return int(not (s.eof or s.fail))
    if '::eof' in d:
        return int(s.eof)
    if 'operator!' in d or '::fail' in d:
        return int(s.fail)
    if 'operator bool' in d:
        return int(not s.fail)
    if '::bad' in d:
        return 0
    return (2 if s.eof else 0) | (4 if s.fail else 0)       # rdstate


def i_setstate(e, st, ins, a, d):
    s = ios(e, st, a[0])
    v = e.norm(st, a[1])
    if not isinstance(v, int):
        raise AnalysisError('setstate')
    if '::clear' in d:
        s.eof = s.fail = False
    s.eof |= bool(v & 2)
    s.fail |= bool(v & 5)
    return None


WS = (32, 9, 10, 11, 12, 13)


def item(s):
    return s.inp[s.pos] if s.pos < len(s.inp) else None


def take(e, st, s):
    """the next character, or None"""
    x = item(s)
    if x is None:
        return None
    if isinstance(x, tuple) and x[0] == 'int':
        # the digits of a number of the scenario: give out the first character and leave a marked rest
        v, neg = x[1], x[2]
        c = 45 if neg else st.fresh(8, 'digit')
        if not neg:
            e.assume_cmp(st, 'uge', 8, c, 48)
            e.assume_cmp(st, 'ule', 8, c, 57)
        s.inp = s.inp[:s.pos] + (('head', c, x), ('rest', x)) + s.inp[s.pos + 1:]
        x = s.inp[s.pos]
    if isinstance(x, tuple) and x[0] == 'head':
        s.pos += 1
        return x[1]
    if isinstance(x, tuple) and x[0] == 'rest':
        raise AnalysisError('a number read digit by digit')
    s.pos += 1
    return x


def unify(s):
    """a number whose first character has been put back is whole again"""
    x = item(s)
    if isinstance(x, tuple) and x[0] == 'head':
        s.inp = s.inp[:s.pos] + (x[2],) + s.inp[s.pos + 2:]


def is_ws(e, st, c):
    if isinstance(c, int):
        return c in WS
    if isinstance(c, tuple) and c[0] in ('int', 'head', 'rest'):
        return False
    for w in WS:
        if not e.assume_cmp(st, 'ne', 8, c, w):
            return True
    return False


def skip_ws(e, st, s, manipulator=False):
    if manipulator and (s.eof or s.fail):
        s.fail = True
        return
    while True:
        x = item(s)
        if x is None:
            s.eof = True
            return
        if not is_ws(e, st, x):
            return
        s.pos += 1


def sentry(e, st, s, noskip=False):
    if s.eof or s.fail:
        s.fail = True
        return False
    if s.skip and not noskip:
        skip_ws(e, st, s)
        if s.eof:
            s.fail = True
            return False
    return True


def i_char(e, st, ins, a, d):
    s = ios(e, st, a[0])
    if sentry(e, st, s):
        c = take(e, st, s)
        if c is None:
            s.eof = s.fail = True
        else:
            e.store(st, c, a[1], 1, 8)
    return a[0]


def i_cstring(e, st, ins, a, d):
    s = ios(e, st, a[0])
    w = s.width
    if sentry(e, st, s):
        out = []
        while not w or len(out) < w - 1:
            x = item(s)
            if x is None:
                s.eof = True
                break
            if is_ws(e, st, x):
                break
            out.append(take(e, st, s))
        for i, c in enumerate(out + [0]):
            e.store(st, c, e.padd(a[1], i), 1, 8)
        if not out:
            s.fail = True
    s.width = 0
    return a[0]


def concrete(x):
    return isinstance(x, int)


def lex_int(e, st, s):
    """an optionally signed integer: (python int) or (term, width, signed) or None"""
    unify(s)
    x = item(s)
    if isinstance(x, tuple) and x[0] == 'int':
        s.pos += 1
        if s.pos == len(s.inp):
            s.eof = True
        return x[1]
    if isinstance(x, tuple) and x[0] in ('head', 'rest'):
        raise AnalysisError('part of a number')
    p, t = s.pos, ''
    while p < len(s.inp) and concrete(s.inp[p]) and (chr(s.inp[p]).isdigit() or (not t and s.inp[p] in (43, 45))):
        t += chr(s.inp[p])
        p += 1
    s.pos = p
    if p == len(s.inp):
        s.eof = True
    elif not concrete(s.inp[p]):
        y = s.inp[p]
        if isinstance(y, tuple) and y[0] in ('int', 'head', 'rest'):
            raise AnalysisError('adjacent numbers')
        if e.cmp(st, 'ugt', 8, y, 57) is not True and e.cmp(st, 'ult', 8, y, 48) is not True:
            raise AnalysisError('an integer of symbolic digits')
    if not re.search('[0-9]', t):
        return None
    return int(t)


def put_int(e, st, s, v, p, w, signed):
    n = w // 8
    if v is None:
        e.store(st, 0, p, n, w)
        s.fail = True
        return
    if isinstance(v, int):
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, T.mask(w))
        x = v
        if v > hi:
            x, s.fail = hi, True
        elif v < lo:
            if signed:
                x, s.fail = lo, True
            elif -v > hi:
                x, s.fail = hi, True
            else:
                x = v & hi
        e.store(st, x & T.mask(w), p, n, w)
        return
    t, tw, tsigned, neg = v
    t = e.norm(st, t)
    if tw == w and (tsigned == signed or not neg):
        if tsigned != signed and e.cmp(st, 'slt', w, t, 0) is not False:
            # may or may not be in range
            e.store(st, st.fresh(w, 'clamped'), p, n, w)
            s.fail = True
            return
        e.store(st, t, p, n, w)
    elif tw == w:
        e.store(st, t, p, n, w)             # negative into unsigned: strtoull
    elif tw < w:
        e.store(st, (T.sext if tsigned else T.zext)(t, tw, w), p, n, w)
    else:
        e.store(st, st.fresh(w, 'clamped'), p, n, w)
        s.fail = True


def i_member(e, st, ins, a, d):
    s = ios(e, st, a[0])
    if '(*)' in d:
        manip(e, st, s, a[1])
        return a[0]
    arg = d[d.index('>>(') + 3:].split('&)')[0]
    if arg in OWID:
        w, sg = OWID[arg]
        if sentry(e, st, s):
            put_int(e, st, s, lex_int(e, st, s), a[1], w, bool(sg))
        return a[0]
    if arg in ('double', 'float', 'long double'):
        if sentry(e, st, s):
            v = lex_int(e, st, s)
            if v is None:
                s.fail = True
            else:
                x = item(s)
                if x == 46:
                    s.pos += 1
                    while is_digit_item(e, st, item(s)):
                        s.pos += 1
                x = item(s)
                if concrete(x) and x in (69, 101):
                    s.pos += 1
                    if lex_int(e, st, s) is None:
                        s.fail = True
                if s.pos == len(s.inp):
                    s.eof = True
            n = 8 if arg == 'double' else 4
            e.store(st, st.fresh(8 * n, 'fp'), a[1], n, 8 * n)
        return a[0]
    raise AnalysisError('input of ' + arg)


def is_digit_item(e, st, x):
    if x is None:
        return False
    if isinstance(x, int):
        return 48 <= x <= 57
    if isinstance(x, tuple) and x[0] in ('int', 'head', 'rest'):
        return False
    return e.cmp(st, 'uge', 8, x, 48) is True and e.cmp(st, 'ule', 8, x, 57) is True


def i_setw(e, st, ins, a, d):
    s = ios(e, st, a[0])
    v = e.norm(st, a[1])
    s.width = v if isinstance(v, int) else 0
    return a[0]


def wide(c):
    return c & 255 if isinstance(c, int) else T.zext(c, 8, 32)


def i_peek(e, st, ins, a, d):
    s = ios(e, st, a[0])
    if not sentry(e, st, s, True):
        return 0xffffffff
    x = item(s)
    if x is None:
        s.eof = True
        return 0xffffffff
    c = take(e, st, s)
    s.pos -= 1
    return wide(c)


def i_get(e, st, ins, a, d):
    s = ios(e, st, a[0])
    if d.endswith('get()'):
        if not sentry(e, st, s, True):
            return 0xffffffff
        c = take(e, st, s)
        if c is None:
            s.eof = s.fail = True
            return 0xffffffff
        return wide(c)
    if d.endswith('get(char&)'):
        if sentry(e, st, s, True):
            c = take(e, st, s)
            if c is None:
                s.eof = s.fail = True
            else:
                e.store(st, c, a[1], 1, 8)
        return a[0]
    n = count(e, st, a[2])
    out = []
    if sentry(e, st, s, True):
        while len(out) < n - 1:
            x = item(s)
            if x is None:
                s.eof = True
                break
            if isinstance(x, int) and x == 10:
                break
            out.append(take(e, st, s))
    for i, c in enumerate(out + [0]):
        e.store(st, c, e.padd(a[1], i), 1, 8)
    if not out:
        s.fail = True
    return a[0]


def i_read(e, st, ins, a, d):
    s = ios(e, st, a[0])
    n = count(e, st, a[2])
    if sentry(e, st, s, True):
        for i in range(n):
            c = take(e, st, s)
            if c is None:
                s.eof = s.fail = True
                break
            e.store(st, c, e.padd(a[1], i), 1, 8)
    return a[0]


def i_unget(e, st, ins, a, d):
    s = ios(e, st, a[0])
    s.eof = False
    if sentry(e, st, s, True):
        if s.pos == 0:
            s.fail = True
            return a[0]
        if 'putback' in d:
            c = e.norm(st, a[1])
            c = c & 255 if isinstance(c, int) else c
            x = s.inp[s.pos - 1]
            x = x[1] if isinstance(x, tuple) and x[0] == 'head' else x
            x = e.norm(st, x)
            if x != c:
                # a read-only buffer refuses a different character
                s.fail = True
                return a[0]
        s.pos -= 1
    return a[0]


def i_bump(e, st, ins, a, d):
    s = ios(e, st, a[0])
    if 'sungetc' in d or 'sputbackc' in d:
        s.pos -= 1
        return 0
    if 'snextc' in d:
        take(e, st, s)
    c = take(e, st, s)
    if c is None:
        return 0xffffffff
    if 'sbumpc' not in d:
        s.pos -= 1
    return wide(c)


def i_ignore(e, st, ins, a, d):
    s = ios(e, st, a[0])
    if sentry(e, st, s, True) and take(e, st, s) is None:
        s.eof = True
    return a[0]


def b_flags(e, st, ins, a, d):
    s = ios(e, st, a[0])
    old = {10: 2, 16: 8, 8: 64}[s.base] | (0x1000 if s.skip else 0)
    if d.endswith('flags() const'):
        return old
    v = e.norm(st, a[1])
    if not isinstance(v, int):
        raise AnalysisError('flags')
    if 'unsetf' in d:
        n = old & ~v
    elif d.endswith('setf(std::_Ios_Fmtflags)'):
        n = old | v
    elif 'setf(' in d:
        m = e.norm(st, a[2])
        n = (old & ~m) | (v & m)
    else:
        n = v
    s.base = 16 if n & 8 else 8 if n & 64 else 10
    s.skip = bool(n & 0x1000)
    return old


def b_width(e, st, ins, a, d):
    s = ios(e, st, a[0])
    old = s.width
    if not d.endswith('const'):
        s.width = count(e, st, a[1])
    return old


def b_fill(e, st, ins, a, d):
    s = ios(e, st, a[0])
    old = s.fill
    if not d.endswith('const'):
        v = e.norm(st, a[1])
        s.fill = v & 255 if isinstance(v, int) else v
    return old


def b_manip(e, st, ins, a, d):
    s = ios(e, st, a[0])
    manip(e, st, s, ('P', '$' + next(k for k, f in e.prog['functions'].items() if f['dem'] == d), 0))
    return a[0]


def b_rdbuf(e, st, ins, a, d):
    return a[0]


# ------------------------------------------------------------------ C library
def c_cmp(e, st, ins, a, d):
    """strcmp, strncmp, memcmp on short stretches: equal or not"""
    n = 4096 if d.startswith('strcmp') else count(e, st, a[2])
    outs, cur = [], st
    for i in range(n):
        x, y = byte(e, cur, a[0], i), byte(e, cur, a[1], i)
        if x != y:
            r = e.cmp(cur, 'eq', 8, x, y)
            if isinstance(x, int) and isinstance(y, int):
                outs.append((cur, 0xffffffff if x < y else 1))
                break
            if r is False:
                outs.append((cur, 1))
                break
            if r is None:
                s = cur.fork()
                if e.assume_cmp(s, 'ne', 8, x, y):
                    outs.append((s, 1))
                if not e.assume_cmp(cur, 'eq', 8, x, y):
                    break
        if not d.startswith('mem') and isinstance(y, int) and y == 0:
            outs.append((cur, 0))
            break
    else:
        outs.append((cur, 0))
    return outs[0][1] if len(outs) == 1 and outs[0][0] is st else Multi(outs)


def c_strchr(e, st, ins, a, d):
    c = e.norm(st, a[1])
    t = cstr(e, st, a[0])
    if t is None:
        raise AnalysisError('strchr')
    c = c & 255 if isinstance(c, int) else T.slice_(c, 32, 0, 8)
    outs, cur = [], st
    for i, ch in enumerate(t + '\0'):
        r = e.cmp(cur, 'eq', 8, c, ord(ch))
        if r is True:
            outs.append((cur, e.padd(a[0], i)))
            break
        if r is None:
            s = cur.fork()
            if e.assume_cmp(s, 'eq', 8, c, ord(ch)):
                outs.append((s, e.padd(a[0], i)))
            if not e.assume_cmp(cur, 'ne', 8, c, ord(ch)):
                break
    else:
        outs.append((cur, 0))
    return Multi(outs)


def c_isdigit(e, st, ins, a, d):
    c = e.norm(st, a[0])
    kind = d.split('(')[0].replace('std::', '')
    if isinstance(c, int):
        c = T.signed(c, 32)
        if not 0 <= c < 128:
            return 0
        ch = chr(c)
        return int({'isdigit': ch.isdigit(), 'isspace': c in WS, 'isxdigit': ch in '0123456789abcdefABCDEF',
                    'isalpha': ch.isalpha(), 'iscntrl': c < 32 or c == 127, 'isalnum': ch.isalnum()}[kind])
    if kind == 'isdigit':
        lo, hi = 48, 57
    elif kind == 'iscntrl':
        lo, hi = 0, 31
    else:
        raise AnalysisError(kind)
    outs = []
    for yes in (1, 0):
        for pred, k in ((('uge', lo), ('ule', hi)),) if yes else ():
            pass
    s1 = st.fork()
    if e.assume_cmp(s1, 'uge', 32, c, lo) and e.assume_cmp(s1, 'ule', 32, c, hi):
        outs.append((s1, 1))
    s2 = st.fork()
    if e.assume_cmp(s2, 'ult', 32, c, lo):
        outs.append((s2, 0))
    s3 = st.fork()
    if e.assume_cmp(s3, 'ugt', 32, c, hi):
        outs.append((s3, 0))
    return Multi(outs)


def c_snprintf(e, st, ins, a, d):
    f = cstr(e, st, a[2]) if d.startswith(('snprintf', 'std::snprintf')) else None
    if f is None:
        raise AnalysisError('format of ' + d)
    out, i, k = [], 0, 3
    for m in re.finditer(r'%(0?)(\d*)(h|hh|l|ll|j|z)?([dixXuc%])|([^%])', f):
        z, wd, ln, cv, lit = m.groups()
        if lit is not None:
            out.append(ord(lit))
            continue
        if cv == '%':
            out.append(37)
            continue
        v = e.norm(st, a[k])
        k += 1
        w = 64 if ln in ('l', 'll', 'j', 'z') else 32
        if cv == 'c':
            out.append(v & 255 if isinstance(v, int) else T.slice_(v, 32, 0, 8))
            continue
        if cv in 'xX':
            if not isinstance(v, int):
                raise AnalysisError('hexadecimal of a symbol')
            ds = [ord(c) for c in ('%' + cv) % (v & T.mask(w))]
        else:
            ds = digits_of(e, st, v, w, cv in 'di')
            if ds is None:
                raise AnalysisError('digits of a symbol')
        n = int(wd) if wd else 0
        out += [48 if z else 32] * max(0, n - len(ds)) + ds
    size = count(e, st, a[1])
    for i, c in enumerate(out[:size - 1] + [0]):
        e.store(st, c, e.padd(a[0], i), 1, 8)
    return len(out)


# ----------------------------------------------------------------- std::string
STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
STR2 = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'


def skey(e, st, p):
    p = e.norm(st, p)
    if not (isinstance(p, tuple) and p[0] == 'P' and isinstance(p[2], int)):
        raise AnalysisError('std::string')
    return ('str', p[1], p[2])


def strget(e, st, p):
    k = skey(e, st, p)
    if k not in st.user:
        raise AnalysisError('std::string never constructed')
    return list(st.user[k])


def strput(e, st, p, cs):
    st.user[skey(e, st, p)] = tuple(c & 255 if isinstance(c, int) else c for c in cs)
    st.user.pop(('buf',) + skey(e, st, p)[1:], None)


def strbuf(e, st, p):
    k = ('buf',) + skey(e, st, p)[1:]
    oid = st.user.get(k)
    if oid is None:
        cs = strget(e, st, p)
        oid = e.new_obj(st, len(cs) + 1, 'undef', 'string buffer')
        for i, c in enumerate(cs + [0]):
            e.store(st, c, ('P', oid, i), 1, 8)
        st.user[k] = oid
    return ('P', oid, 0)


def chars(e, st, p, n):
    return [byte(e, st, p, i) for i in range(n)]


def s_member(e, st, ins, a, d):
    m = re.search(r'allocator<char> ?>::(~?[\w+=\[\]]+)(?:\(|<)', d[d.index('basic_string'):])
    if not m:
        raise AnalysisError(d[-60:])
    m = m.group(1)
    arg = d[d.rindex('::' + m) + len(m) + 2:]
    p = a[0]
    if m == 'basic_string':
        if arg.startswith('()') or arg.startswith('(std::allocator'):
            strput(e, st, p, [])
        elif 'char const*, unsigned long' in arg:
            strput(e, st, p, chars(e, st, a[1], count(e, st, a[2])))
        elif 'char const*' in arg or 'char*' in arg:
            if 'char const*, char const*' in arg or arg.count('char') > 3:
                n = e.norm(st, T.sub(0, 0, 64))
                raise AnalysisError('range constructor')
            strput(e, st, p, zstr(e, st, a[1]))
        elif 'basic_string' in arg or arg.startswith('<char'):
            strput(e, st, p, strget(e, st, a[1]))
        elif 'unsigned long, char' in arg:
            v = e.norm(st, a[2])
            strput(e, st, p, [v] * count(e, st, a[1]))
        else:
            raise AnalysisError('string constructor ' + arg)
        return None
    if m == '~basic_string':
        st.user.pop(skey(e, st, p), None)
        return None
    cs = strget(e, st, p) if m != 'substr' else []
    if m == 'clear':
        strput(e, st, p, [])
        return None
    if m in ('operator+=', 'push_back', 'append', 'assign', 'operator='):
        new = [] if m in ('assign', 'operator=') else cs
        if 'char const*, unsigned long' in arg:
            new = new + chars(e, st, a[1], count(e, st, a[2]))
        elif '(unsigned long, char)' in arg:
            new = new + [e.norm(st, a[2])] * count(e, st, a[1])
        elif '(char)' in arg:
            v = e.norm(st, a[1])
            new = new + [v & 255 if isinstance(v, int) else v]
        elif 'basic_string' in arg:
            new = new + strget(e, st, a[1])
        elif '(char const*)' in arg:
            new = new + zstr(e, st, a[1])
        else:
            raise AnalysisError('string ' + m + arg)
        strput(e, st, p, new)
        return p if m != 'push_back' else None
    if m in ('size', 'length'):
        return len(cs)
    if m == 'empty':
        return int(not cs)
    if m in ('c_str', 'data'):
        return strbuf(e, st, p)
    if m in ('operator[]', 'at'):
        return e.padd(strbuf(e, st, p), count(e, st, a[1]))
    if m in ('reserve', 'shrink_to_fit'):
        return None
    if m == 'back':
        return e.padd(strbuf(e, st, p), len(cs) - 1)
    if m == 'front':
        return strbuf(e, st, p)
    if m == 'pop_back':
        strput(e, st, p, cs[:-1])
        return None
    if m == 'begin':
        return strbuf(e, st, p)
    if m == 'end':
        return e.padd(strbuf(e, st, p), len(cs))
    if m == 'resize':
        n = count(e, st, a[1])
        strput(e, st, p, (cs + [0] * n)[:n])
        return None
    if m in ('find', 'rfind', 'find_first_of', 'find_first_not_of', 'find_last_of', 'find_last_not_of', 'compare'):
        if 'basic_string' in arg:
            w = strget(e, st, a[1])
        elif arg.startswith('(char,'):
            w = [e.norm(st, a[1])]
        elif arg.startswith('(char const*, unsigned long)') or arg == '(char const*)':
            w = zstr(e, st, a[1])
        else:
            raise AnalysisError('std::string::' + m + arg)
        if not all(isinstance(c, int) for c in cs + w):
            raise AnalysisError('std::string::%s among symbolic characters' % m)
        t, w = bytes(c & 255 for c in cs), bytes(c & 255 for c in w)
        if m == 'compare':
            return (t > w) - (t < w) & T.mask(32)
        i = e.norm(st, a[2])
        n = len(t)
        if not isinstance(i, int):
            raise AnalysisError('std::string::' + m)
        if m == 'find':
            r = t.find(w, i) if i <= n else -1
        elif m == 'rfind':
            r = t.rfind(w, 0, min(i, n) + len(w))
        else:
            rng = range(i, n) if 'first' in m else range(min(i, n - 1), -1, -1)
            r = next((k for k in rng if (t[k:k + 1] in [w[j:j + 1] for j in range(len(w))]) != ('not' in m)), -1)
        return r & T.mask(64)
    if m in ('erase', 'substr') and '(unsigned long, unsigned long)' in arg:
        at, k = (a[1], a[2]) if m == 'erase' else (a[2], a[3])
        at, k = e.norm(st, at), e.norm(st, k)
        if m == 'substr':
            cs = strget(e, st, a[1])
        if not (isinstance(at, int) and isinstance(k, int)):
            raise AnalysisError('std::string::' + m)
        if at > len(cs):
            return Throw({'type': 'std::out_of_range', 'ti': ('_ZTISt12out_of_range',), 'obj': None, 'code': None})
        if m == 'erase':
            strput(e, st, p, cs[:at] + cs[at + k:])
            return p
        strput(e, st, p, cs[at:at + k])
        return None
    raise AnalysisError('std::string::' + m)


# ------------------------------------------------------------------- scenario
def v_ask(e, st, ins, a, d):
    what, n = e.norm(st, a[0]), e.norm(st, a[1])
    plan = st.user.get('plan', {})
    i = st.user.get('asked', 0)
    n = plan.get(('range', what), n)
    outs = []
    opts = plan.get('ask', {}).get(i)
    for v in (opts if opts is not None else range(n)):
        s = st.fork()
        s.user['asked'] = i + 1
        outs.append((s, v))
    return Multi(outs)


def v_val(e, st, ins, a, d):
    what = e.norm(st, a[0])
    w = T.signed(what, 32)
    vals = st.user.get('plan', {}).get('val', {}).get(w)
    if vals is not None:
        outs = []
        for v in vals:
            s = st.fork()
            outs.append((s, v(e, s) if callable(v) else v & T.mask(64)))
        return Multi(outs)
    return st.fresh(64, 'value')


def v_chars(e, st, ins, a, d):
    what = T.signed(e.norm(st, a[0]), 32)
    outs = []
    for mk in st.user['plan']['chars'][what]:
        s = st.fork()
        cs = mk(e, s)
        oid = e.new_obj(s, len(cs), 'undef', 'the characters a field refers to')
        for i, c in enumerate(cs):
            e.store(s, c, ('P', oid, i), 1, 8)
        e.store(s, len(cs), a[1], 8, 64)
        outs.append((s, ('P', oid, 0)))
    return Multi(outs)


def v_emit(e, st, ins, a, d):
    st.user['seen'] = st.user.get('seen', ()) + (tuple(e.norm(st, x) for x in a[:3]),)
    return None


def unbound(t):
    """whether some nested message of a content has not been set"""
    def field(x):
        return x == ('unset',) or x is not None and x[0] in 'gqm' and (any(map(field, x[-1])) if x[0] in 'gm' else
                                                                       any(any(map(field, r)) for r in x[1]))
    return any(map(field, t))


def v_emit_str(e, st, ins, a, d):
    n = e.norm(st, a[1])
    if not isinstance(n, int):
        raise AnalysisError('a string of unknown length')
    st.user['seen'] = st.user.get('seen', ()) + (('str', tuple(byte(e, st, a[0], i) for i in range(n))),)
    return None


def guarded(fn):
    """what a summary cannot tell ends the path, not the analysis"""
    def f(e, st, ins, a, d):
        try:
            return fn(e, st, ins, a, d)
        except AnalysisError as x:
            return Stop('stuck', str(x))
    return f


class JsEngine(FastEngine):
    MAXSTEPS = 400000

    def __init__(self, prog):
        FastEngine.__init__(self, prog)
        self.LOOPCUT = self.loopcut = 400
        P = lambda rx, fn: self.prim(rx, guarded(fn))
        P(r'^std::ostream::operator<<|^std::basic_ostream<char, .*>::operator<<', o_member)
        P(r'^std::(basic_ostream<char, std::char_traits<char> ?>|ostream)& std::operator<<', o_free)
        P(r'^std::ostream::put\(', o_put)
        P(r'^std::ostream::write\(|::sputn\(', o_write)
        P(r'::sputc\(', o_sputc)
        P(r'^std::ostream::flush', lambda e, st, ins, a, d: a[0])
        P(r'^std::(basic_ios<char, std::char_traits<char> ?>|ios)::(good|eof|fail|bad|operator!|operator bool|rdstate)', i_good)
        P(r'^std::(basic_ios<char, std::char_traits<char> ?>|ios)::(setstate|clear)\(', i_setstate)
        P(r'^std::(basic_ios<char, std::char_traits<char> ?>|ios)::rdbuf', b_rdbuf)
        P(r'^std::(basic_ios<char, std::char_traits<char> ?>|ios)::fill', b_fill)
        P(r'^std::ios_base::(flags|setf|unsetf)', b_flags)
        P(r'^std::ios_base::width', b_width)
        P(r'^std::(hex|dec|oct|skipws|noskipws)\(', b_manip)
        P(r'^std::istream::operator>>', i_member)
        P(r'^std::basic_istream<char.*& std::operator>>.*(char|unsigned char)&\)$', i_char)
        P(r'^std::basic_istream<char.*& std::operator>>.*char( \(&\) ?\[\d+\]|\*)\)$', i_cstring)
        P(r'^std::basic_istream<char.*& std::operator>>.*_Setw\)$', i_setw)
        P(r'^std::basic_istream<char.*& std::ws<', lambda e, st, ins, a, d: (skip_ws(e, st, ios(e, st, a[0]), True), a[0])[1])
        P(r'^std::istream::peek\(', i_peek)
        P(r'^std::istream::get\(', i_get)
        P(r'^std::istream::read\(', i_read)
        P(r'^std::istream::(unget|putback)\(', i_unget)
        P(r'^std::istream::ignore\(', i_ignore)
        P(r'::(sbumpc|sgetc|snextc|sungetc|sputbackc)\(', i_bump)
        P(r'^(str|strn|mem)cmp$|^bcmp$', c_cmp)
        P(r'^strchr$', c_strchr)
        P(r'^(std::)?is(digit|space|xdigit|alpha|cntrl|alnum)(\(int\))?$', c_isdigit)
        P(r'^(std::)?snprintf', c_snprintf)
        P('^' + re.escape(STR) + '::|^' + re.escape(STR2) + '::', s_member)
        P(r'^strlen$|^std::char_traits<char>::length\(', lambda e, st, ins, a, d: len(zstr(e, st, a[0])))
        P(r'mfast::json::json_decode_error::(~?json_decode_error)\(', lambda e, st, ins, a, d: None)
        P(r'^boost::exception_detail|^std::runtime_error::', lambda e, st, ins, a, d: None)
        P(r'^vf_ask$', v_ask)
        P(r'^vf_val$', v_val)
        P(r'^vf_chars$', v_chars)
        P(r'^vf_emit$', v_emit)
        P(r'^vf_emit_str$', v_emit_str)

    def load(self, st, p, size, w, where=None):
        n = len(st.events)
        v = FastEngine.load(self, st, p, size, w, where)
        if len(st.events) > n and st.events[-1][0] == 'OOB':
            return 0            # reported; what follows reads on as if it ended there
        return v


# ----------------------------------------------------------------- the content
class Odd(Exception):
    pass


def parse_tree(e, st, fields, ev):
    return [parse_field(e, st, f, ev) for f in fields]


def parse_field(e, st, f, ev):
    x = ev.pop(0)
    if x[0] == 'str':
        if f.kind not in ('ascii', 'unicode', 'byteVector'):
            raise Odd('a string where %s was expected' % f.kind)
        return ('s', list(x[1]))
    w = x[0]
    if w == E_ABSENT:
        return None if f.kind != 'templateRef' else ('unset',)
    if f.kind in INTS and w == E_INT:
        return ('i', low(e, st, x[1], *INTS[f.kind]))
    if f.kind in ('enum', BOOL) and w == E_INT:
        return ('i', low(e, st, x[1], 64, False))
    if f.kind == 'decimal' and w == E_DEC:
        n = e.norm(st, x[2])
        return ('d', e.norm(st, x[1]), T.signed(n, 64) if isinstance(n, int) else n)
    if f.kind.endswith('Vector') and w == E_VEC:
        return ('v', [('i', low(e, st, ev.pop(0)[1], *INTS[f.kind[:-6]])) for _ in range(x[1])])
    if f.kind == 'group' and w == E_GROUP:
        r = parse_tree(e, st, f.sub, ev)
        end(ev)
        return ('g', r)
    if f.kind == 'sequence' and w == E_SEQ:
        out = []
        for _ in range(x[1]):
            if ev.pop(0)[0] != E_ELEM:
                raise Odd('element')
            out.append(parse_tree(e, st, f.sub, ev))
            end(ev)
        return ('q', out)
    if f.kind == 'templateRef' and w == E_MSG:
        r = parse_tree(e, st, TPL[x[1]][1], ev)
        end(ev)
        return ('m', x[1], r)
    raise Odd('%s for %s' % (w, f.kind))


def end(ev):
    if ev.pop(0)[0] != E_END:
        raise Odd('end')


def low(e, st, v, w, signed):
    v = e.norm(st, v)
    if w < 64 and not isinstance(v, int):
        v = e.norm(st, T.slice_(v, 64, 0, w))
    elif w < 64:
        v &= T.mask(w)
    return (v, w, signed)


# ------------------------------------------------------------ text of a content
CTL = {8: 'b', 9: 't', 10: 'n', 12: 'f', 13: 'r'}


def escape(c):
    if isinstance(c, int):
        if c in CTL:
            return [92, ord(CTL[c])]
        if c < 32:
            return [ord(x) for x in '\\u%04x' % c]
        if c in (34, 92):
            return [92, c]
    return [c]


def quoted(cs):
    return [34] + [x for c in cs for x in escape(c)] + [34]


def lit(t):
    return [ord(c) for c in t]


def j_int(e, st, v):
    v, w, signed = v
    ds = digits_of(e, st, v, w, signed)
    return ds if ds is not None else [canon(e, st, v, w, signed)]


def j_decimal(e, st, m, x):
    ds = digits_of(e, st, m, 64, True)
    if ds is None:
        raise AnalysisError('digits')
    neg, ds = (ds[0] == 45), [d for d in ds if d != 45]
    if x >= 0:
        zero = ds == [48]
        return [45] * neg + ds + ([] if zero else [48] * x)
    n = len(ds) + x
    if n > 0:
        return [45] * neg + ds[:n] + [46] + ds[n:]
    return [45] * neg + [48, 46] + [48] * -n + ds


def j_value(e, st, f, t, raw, ign):
    k = t[0]
    if k == 'i':
        if f.kind == BOOL:
            return lit('true' if t[1][0] else 'false')
        return j_int(e, st, t[1])
    if k == 'd':
        return j_decimal(e, st, t[1], t[2])
    if k == 's':
        if f.kind != 'byteVector':
            return quoted(t[1])
        if f.tag & raw:
            return list(t[1])
        out = [34]
        for i, c in enumerate(t[1]):
            if len(t[1]) == 16 and i in (4, 6, 8, 10):
                out.append(45)
            out += lit('%02x' % c) if isinstance(c, int) else [('hex', c)]
        return out + [34]
    if k == 'v':
        return joined('[', [j_int(e, st, x[1]) for x in t[1]], ']')
    if k == 'g':
        return j_aggregate(e, st, f.sub, t[1], raw, ign)
    if k == 'm':
        return j_aggregate(e, st, TPL[t[1]][1], t[2], raw, ign)
    if k == 'q':
        els = []
        for x in t[1]:
            if len(f.sub) == 1 and not f.sub[0].name and f.sub[0].kind != 'templateRef':
                els.append(j_value(e, st, f.sub[0], x[0], raw, ign))
            else:
                els.append(j_aggregate(e, st, f.sub, x, raw, ign))
        return joined('[', els, ']')
    raise Odd(k)


def joined(a, xs, b):
    out = lit(a)
    for i, x in enumerate(xs):
        out += ([44] if i else []) + x
    return out + lit(b)


def j_aggregate(e, st, fields, tree, raw, ign):
    if len(fields) == 1 and fields[0].kind == 'templateRef':
        if tree[0] != ('unset',):
            return j_value(e, st, fields[0], tree[0], raw, ign)
        return lit('null')
    out = []
    for f, t in zip(fields, tree):
        if t is not None and t != ('unset',) and not (f.tag & ign):
            out.append(quoted(lit(f.name)) + [58] + j_value(e, st, f, t, raw, ign))
    return joined('{', out, '}')


def show(ts):
    out = ''
    for c in ts:
        if isinstance(c, int):
            out += chr(c) if 32 <= c < 127 else '<%02x>' % (c & 255)
        elif isinstance(c, tuple) and c[0] == 'n':
            out += '<value>'
        elif isinstance(c, tuple) and c[0] in ('hex', 'hexraw'):
            out += '<%s>' % c[0]
        else:
            out += '<c>'
    return out


def spread(ts):
    out = []
    for c in ts:
        if isinstance(c, tuple) and c[0] == 'hex':
            out += [('hexdigit', c[1], 4), ('hexdigit', c[1], 0)]
        else:
            out.append(c)
    return out


def unknown_bytes(t, acc):
    """the 8 bit symbols a term depends on"""
    if isinstance(t, tuple):
        if t[0] == 'S' and len(t) == 3:
            if isinstance(t[2], tuple) and t[2][0] == 'ld':
                unknown_bytes(t[2][3], acc)
            elif t[1] == 8:
                acc.add(t)
            else:
                acc.add(None)
        else:
            for x in t[1:]:
                unknown_bytes(x, acc)
    return acc


def char_value(e, st, c):
    """the character a term stands for once the bytes it depends on are known"""
    if isinstance(c, tuple) and c[0] == 'hexdigit':
        v = e.norm(st, c[1])
        return ord('0123456789abcdef'[(v >> c[2]) & 15]) if isinstance(v, int) else None
    c = e.norm(st, c)
    if isinstance(c, int):
        return c & 255
    if c[0] == 'S' and isinstance(c[2], tuple) and c[2][0] == 'ld' and not st.mem[c[2][1]].log:
        off = e.norm(st, c[2][3])
        if isinstance(off, int):
            v = e.norm(st, e.load_cells(st, c[2][1], T.signed(off, 64), 1))
            return v if isinstance(v, int) else None
    return None


def same_char(e, st, x, y):
    """True, False, or None when it is not known what the characters are"""
    if x == y:
        return True
    if isinstance(x, tuple) and x[0] in ('hexraw', 'n') or isinstance(y, tuple) and y[0] in ('hexraw', 'n'):
        return False
    if not any(isinstance(z, tuple) and (z[0] == 'hexdigit' or z[0] != 'S' or not isinstance(z[2], str)) for z in (x, y)):
        x, y = e.norm(st, x), e.norm(st, y)
        return x == y or e.cmp(st, 'eq', 8, x, y) is True
    if not any(isinstance(z, tuple) and z[0] == 'hexdigit' for z in (x, y)):
        u, v = e.norm(st, x), e.norm(st, y)
        if u == v or e.cmp(st, 'eq', 8, u, v) is True:
            return True
    syms = unknown_bytes(x, unknown_bytes(y, set()))
    if len(syms) != 1 or None in syms:
        return None
    sym = next(iter(syms))
    seen = False
    for val in range(256):
        s = st.fork()
        if not e.assume(s, ('C', 1, 'eq', 8, sym, val), True):
            continue
        a, b = char_value(e, s, x), char_value(e, s, y)
        if a is None or b is None:
            return None
        if a != b:
            return False
        seen = True
    return True if seen else None


def same_text(e, st, a, b):
    a, b = spread(a), spread(b)
    if len(a) != len(b):
        return False
    r = True
    for x, y in zip(a, b):
        q = same_char(e, st, x, y)
        if q is False:
            return False
        if q is None:
            r = None
    return r


MEM = {'NULLDEREF': 'a null pointer is dereferenced', 'UAF': 'released storage is used', 'OOB': 'storage is used out of its bounds',
       'DOUBLEFREE': 'storage is released twice', 'UNINIT': 'a value never set is used'}


def memory(st):
    for ev in st.events:
        if ev[0] in MEM:
            return (ev[0], '%s (%s)' % (MEM[ev[0]], ', '.join(str(x) for x in ev[1:-1])[:80]), ev[-1])
    return None


def where_of(o, default):
    return default


def add(res, key, txt, wh):
    if key not in res.bad:
        res.bad[key] = (txt, wh)


def start(e, tid, plan):
    s = e.base_state().fork()
    oid = e.new_obj(s, 256, 'undef', 'message')
    outs = e.run(s, 'vf_message', [('P', oid, 0), tid])
    if len(outs) != 1 or outs[0].kind != 'ret':
        raise AnalysisError('constructing a message')
    s = outs[0].state
    s.user['plan'] = plan
    s.user['asked'] = 0
    s.user.pop('seen', None)
    return s, ('P', oid, 0)


def dump(e, st, msg, tid):
    st.user['seen'] = ()
    outs = e.run(st, 'vf_dump', [msg])
    if len(outs) != 1 or outs[0].kind != 'ret':
        raise AnalysisError('reading a message back')
    st = outs[0].state
    ev = list(st.user['seen'])
    return st, parse_tree(e, st, TPL[tid][1], ev)


ENC_WHERE = 'src/mfast/json/json_encode.cpp'
DEC_WHERE = 'src/mfast/json/json_decode.cpp'


def t_encode(e, name, tid, plan, raw=0, ign=None, seq=False):
    res = Result(name)
    s, msg = start(e, tid, plan)
    for o in e.run(s, 'vf_fill', [msg]):
        if o.kind != 'ret':
            raise AnalysisError('filling a message: %s %s' % (o.kind, o.value))
        st = o.state
        try:
            st, tree = dump(e, st, msg, tid)
            fields = TPL[tid][1]
            if seq:
                want = j_value(e, st, fields[0], tree[0] or ('q', []), raw, 0)
            else:
                want = j_aggregate(e, st, fields, tree, raw, ign or 0)
        except Odd as x:
            raise AnalysisError('content: %s' % x)
        st.events = []
        os_ = new_stream(e, st)
        if seq:
            outs = e.run(st, 'vf_encode_seq', [os_, msg, raw])
        elif ign is None:
            outs = e.run(st, 'vf_encode', [os_, msg, raw])
        else:
            outs = e.run(st, 'vf_encode_ignore', [os_, msg, raw, ign])
        for q in outs:
            if q.kind in ('bound', 'cut'):
                res.bounded += 1
                continue
            m = memory(q.state)
            if m:
                add(res, (m[0], generic(name)), '%s: %s' % (name, m[1]), m[2])
                continue
            if q.kind == 'stuck':
                res.und['%s: %s' % (name, q.value)] = 1
                continue
            if q.kind != 'ret':
                add(res, ('throw', generic(name)), '%s: the message is not rendered (%s %s)' % (name, q.kind, q.value), ENC_WHERE)
                continue
            got = list(ios(e, q.state, os_, False).out)
            res.paths += 1
            if e.norm(q.state, q.value) != 1 and not (isinstance(q.value, int) and q.value & 1):
                add(res, ('good', generic(name)), '%s: success is not reported' % name, ENC_WHERE)
            elif same_text(e, q.state, got, want) is None:
                res.und['%s: text of computed characters' % generic(name)] = 1
            elif not same_text(e, q.state, got, want):
                add(res, ('text', generic(name)), '%s: writes %s, to write %s' % (name, show(got)[:160], show(want)[:160]), ENC_WHERE)
    return res


def generic(n):
    return n.split(':')[0]


# --------------------------------------------------------------------- reading
def N(v, neg=False):
    """a number: concrete text, or a symbolic integer"""
    return ('n', v)


def O(*ms):
    return ('o', list(ms))


def A(*vs):
    return ('a', list(vs))


def S(*cs):
    """a string of elements: a str of plain characters, a symbol, or (source text, characters it stands for)"""
    out = []
    for c in cs:
        if isinstance(c, str):
            out += [([x], [x]) for x in c.encode()]
        elif isinstance(c, tuple) and c[0] == 'esc':
            out.append((lit(c[1]), list(c[2])))
        else:
            out.append(([c], [c]))
    return ('s', out)


def L(t):
    return ('l', t)


def esc(src, dst):
    return ('esc', src, dst if isinstance(dst, (bytes, list, tuple)) else dst.encode())


def render(v, ws=''):
    w = lit(ws)
    k = v[0]
    if k == 'n':
        return (lit(v[1]) if isinstance(v[1], str) else list(v[1]) if isinstance(v[1], list) else [v[1]])
    if k == 'l':
        return lit(v[1])
    if k == 's':
        return [34] + [x for src, _ in v[1] for x in src] + [34]
    if k == 'a':
        out = [91] + w
        for i, x in enumerate(v[1]):
            out += ([44] + w if i else []) + render(x, ws) + w
        return out + [93]
    if k == 'o':
        out = [123] + w
        for i, (n, x) in enumerate(v[1]):
            out += ([44] + w if i else []) + [34] + lit(n) + [34] + w + [58] + w + render(x, ws) + w
        return out + [125]
    if k == 'raw':
        return list(v[1])


class Num(object):
    """symbolic integers of a width and sign"""
    def __init__(self, name, w, signed, neg=False):
        if signed:
            t = T.mk([(w - 1, ('S', w - 1, name), 0), (1, int(neg), 0)])
        else:
            t = ('S', w, name)
        self.item = ('int', (t, w, signed, neg), neg)


def num(name, kind, neg=False):
    return ('n', Num(name, *(INTS[kind] + (neg,))).item)


ANY = ('any',)


def expect(f, v):
    """the content a field is to have"""
    if v is None or v == ('l', 'null'):
        return None
    k = v[0]
    if f.kind in INTS:
        w, sg = INTS[f.kind]
        x = v[1]
        if isinstance(x, str):
            return ('i', (int(x), w, sg))
        return ('i', x[1])
    if f.kind == 'enum':
        return ('i', (int(v[1]), 64, False))
    if f.kind == BOOL:
        return ('i', ({'true': 1, 'false': 0, '1': 1, '0': 0}[v[1]], 64, False))
    if f.kind == 'decimal':
        return ('d', v[2] if len(v) > 2 else v[1])
    if f.kind in ('ascii', 'unicode'):
        return ('s', [x for _, d in v[1] for x in d])
    if f.kind == 'byteVector':
        if f.tag & 1:
            return ('s', render(v))
        t = ''.join(chr(x) for _, d in v[1] for x in d if isinstance(x, int))
        t = t.replace('-', '').replace(' ', '')
        return ('s', [int(t[i:i + 2], 16) for i in range(0, len(t), 2)])
    if f.kind.endswith('Vector'):
        sub = F.__new__(F)
        sub.kind, sub.tag = f.kind[:-6], 0
        return ('v', [expect(sub, x) for x in v[1]])
    if f.kind == 'group':
        return ('g', expect_all(f.sub, v))
    if f.kind == 'sequence':
        els = []
        for x in v[1]:
            if len(f.sub) == 1 and not f.sub[0].name:
                els.append([expect(f.sub[0], x)])
            else:
                els.append(expect_all(f.sub, x))
        return ('q', els)
    raise AnalysisError('expectation for ' + f.kind)


def expect_all(fields, v):
    d = dict(v[1]) if v[0] == 'o' else {}
    out = []
    for f in fields:
        if f.name in d:
            out.append(expect(f, d[f.name]))
        elif f.optional:
            out.append(None)
        else:
            out.append(ANY)
    return out


def same_int(e, st, got, want):
    gv, w, sg = got
    x = want
    if isinstance(x[0], int):
        g = e.norm(st, gv)
        return isinstance(g, int) and (T.signed(g, w) if sg else g) == x[0]
    t, tw, tsg = x[0], x[1], x[2]
    return canon(e, st, gv, w, sg) == canon(e, st, t, tw, tsg)


def same(e, st, got, want):
    """'' or what differs"""
    if want == ANY:
        return ''
    if want is None or got is None:
        return '' if want is got else ('a field is absent' if got is None else 'a field is present')
    k = want[0]
    if got[0] != k:
        return 'a field is of another kind'
    if k == 'i':
        return '' if same_int(e, st, got[1], want[1]) else 'an integer differs'
    if k == 'd':
        m, x = got[1], got[2]
        if isinstance(want[1], str):
            from fractions import Fraction
            if not isinstance(m, int) or not isinstance(x, int):
                return 'a decimal differs'
            ok = Fraction(T.signed(m, 64)) * Fraction(10) ** x == Fraction(want[1])
        else:
            ok = x == want[1][1] and e.norm(st, m) == e.norm(st, want[1][0])
        return '' if ok else 'a decimal differs'
    if k == 's':
        return '' if same_text(e, st, got[1], want[1]) is not False else 'a string is %s, to be %s' % (show(got[1])[:60], show(want[1])[:60])
    if k in 'v':
        if len(got[1]) != len(want[1]):
            return 'a vector has %d elements, to have %d' % (len(got[1]), len(want[1]))
        return next((r for r in (same(e, st, a, b) for a, b in zip(got[1], want[1])) if r), '')
    if k == 'g':
        return next((r for r in (same(e, st, a, b) for a, b in zip(got[1], want[1])) if r), '')
    if k == 'q':
        if len(got[1]) != len(want[1]):
            return 'a sequence has %d elements, to have %d' % (len(got[1]), len(want[1]))
        for x, y in zip(got[1], want[1]):
            r = next((r for r in (same(e, st, a, b) for a, b in zip(x, y)) if r), '')
            if r:
                return r
        return ''
    raise AnalysisError('comparison')


NEXT = lit(',{"')


def t_decode(e, name, tid, cases, raw=0, seq=False, reuse=False):
    """cases: (text items, value or None for an error, setup)"""
    res = Result(name)
    base, msg = start(e, tid, {'ask': {}, ('range', E_ABSENT): 1, ('range', E_SEQ): 3, ('range', E_VEC): 3,
                               'chars': {7: [lambda e, s: lit('old')], 8: [lambda e, s: lit('old')], 9: [lambda e, s: [1, 2]], -9: [lambda e, s: lit('{}')]},
                               'val': {4: [7], 17: [0], E_DEC: [0]}})
    bases = [base]
    if reuse:
        base.user['plan']['range', E_SEQ] = 3
        bases = [o.state for o in e.run(base, 'vf_fill', [msg]) if o.kind == 'ret'][-1:]
    for b in bases:
        for label, items, want, setup in cases:
            st = b.fork()
            if setup:
                setup(e, st)
            key = '%s: %s' % (name, label)
            tail = NEXT if want is not None and not (want[0] in 'nl') else []
            is_ = new_stream(e, st, list(items) + tail)
            st.events = []
            try:
                outs = e.run(st, 'vf_decode_seq' if seq else 'vf_decode', [is_, msg, raw])
            except AnalysisError as x:
                b = broken(x)
                if b:
                    add(res, ('memory', generic(name)), '%s: %s' % (key, b[0]), b[1])
                else:
                    res.und['%s: %s' % (key, x)] = 1
                continue
            for q in outs:
                if q.kind in ('bound', 'cut'):
                    res.bounded += 1
                    continue
                m = memory(q.state)
                if q.kind == 'stuck' and not m:
                    res.und['%s: %s' % (key, q.value)] = 1
                    continue
                res.paths += 1
                if m:
                    add(res, (m[0], key), '%s: %s' % (key, m[1]), m[2])
                    continue
                text = show(items)[:120]
                if q.kind == 'throw':
                    if want is not None:
                        add(res, ('throw', key), '%s: %s is rejected' % (key, text), q.value.get('where') or DEC_WHERE)
                    continue
                if q.kind != 'ret':
                    add(res, (q.kind, key), '%s: reading %s ends in %s' % (key, text, q.kind), DEC_WHERE)
                    continue
                if want is None:
                    add(res, ('accept', key), '%s: %s is accepted without an error' % (key, text), DEC_WHERE)
                    continue
                try:
                    s2, tree = dump(e, q.state, msg, tid)
                except Odd as x:
                    add(res, ('tree', key), '%s: %s leaves %s' % (key, text, x), DEC_WHERE)
                    continue
                fields = TPL[tid][1]
                if seq:
                    r = same(e, s2, tree[0], expect(fields[0], want))
                else:
                    r = next((r for r in (same(e, s2, a, w) for a, w in zip(tree, expect_all(fields, want))) if r), '')
                m = memory(s2)
                if r:
                    add(res, ('tree', key), '%s: after reading %s %s' % (key, text, r), DEC_WHERE)
                elif m:
                    add(res, (m[0], key), '%s: %s' % (key, m[1]), m[2])
                else:
                    s = ios(e, q.state, is_, False)
                    if tail and s.pos != len(s.inp) - len(tail):
                        add(res, ('rest', key), '%s: reading %s %s' % (key, text, 'takes characters of what follows' if s.pos > len(s.inp) - len(tail)
                                                                      else 'leaves part of it unread'), DEC_WHERE)
                    elif s.fail:
                        add(res, ('fail', key), '%s: reading %s leaves the stream failed' % (key, text), DEC_WHERE)
    return res


# ------------------------------------------------------------------------ jobs
def sym_char(name, hi):
    """a character of which the three high bits are known, no escape needed"""
    def mk(e, st):
        c = T.mk([(5, ('S', 5, name), 0), (3, hi, 0)])
        for k in (34, 92):
            if k >> 5 == hi:
                e.assume_cmp(st, 'ne', 8, c, k)
        return c
    return mk


def all_of(*ms):
    def mk(e, st):
        out = []
        for m in ms:
            out.append(m if isinstance(m, int) else m(e, st))
        return out
    return mk


def string_makers(part):
    one = [x for x in range(32)] + [34, 92, 127] + [sym_char('c', h) for h in range(1, 8)]
    few = [0, 1, 10, 34, 92, 0x1f, sym_char('d', 2), sym_char('f', 7)]
    if part == 0:
        return [all_of()] + [all_of(x) for x in one]
    if part == 1:
        return [all_of(x, y) for x in few for y in few]
    return [all_of(sym_char('a', 3), x, sym_char('b', 6)) for x in few] + [all_of(*[sym_char('k%d' % i, 3) for i in range(9)])]


def any_byte(name):
    return lambda e, st: ('S', 8, name)


def bytes_makers(part):
    if part == 0:
        return [all_of(*[any_byte('b%d' % i) for i in range(n)]) for n in (0, 1, 2, 3, 15, 16, 17)]
    return [all_of(x, y) for x in (0, 5, 0x10, 0xab, 0xff) for y in (0, 9, 0x7f, 0x80)]


def mantissa(n, neg):
    def mk(e, st):
        nm = 'm%d' % n
        t = T.mk([(63, ('S', 63, nm), 0), (1, int(neg), 0)])
        ds = []
        for i in range(n):
            c = ('S', 8, '%s.%d' % (nm, i))
            e.assume_cmp(st, 'uge', 8, c, 48 if i or n > 1 and False else 49)
            e.assume_cmp(st, 'ule', 8, c, 57)
            ds.append(c)
        d = dict(st.user.get('digits', {}))
        d[t] = (neg, tuple(ds))
        st.user['digits'] = d
        e.assume_cmp(st, 'ne', 64, t, 0)
        return t
    return mk


EXPS = (-63, -21, -20, -19, -18, -17, -6, -5, -4, -3, -2, -1, 0, 1, 2, 18, 63)


def encode_jobs(deep):
    js = []

    def add(name, tid, plan=None, **kw):
        js.append(('t_encode', (name, tid, plan or {}), kw))
    add('integers', 1)
    ms = [('%d digit' % n, mantissa(n, s)) for n in ((1, 2, 3, 5, 18, 19) if not deep else range(1, 20)) for s in (False, True)]
    for i in range(0, len(ms), 4):
        add('decimals: part %d' % (i // 4), 2, {'val': {4: [m for _, m in ms[i:i + 4]], E_DEC: EXPS}, ('range', E_ABSENT): 1})
    add('decimals: extremes', 2, {'val': {4: [0, 1, -1, 10, (1 << 63) - 1, -(1 << 63)], E_DEC: EXPS}})
    for k, tid, ft in (('ascii strings', 3, 7), ('unicode strings', 4, 8)):
        for part in range(3):
            add('%s: part %d' % (k, part), tid, {'chars': {ft: string_makers(part)}, ('range', E_ABSENT): 2 if part == 0 else 1})
    for part in range(2):
        add('byte vectors: part %d' % part, 5, {'chars': {9: bytes_makers(part)}}, raw=1)
    raw = [all_of(*lit('{}')), all_of(*(lit('{"x":') + [sym_char('r', 3)] + lit('}')))]
    add('fields holding JSON', 6, {'chars': {-9: raw}}, raw=1)
    add('fields holding JSON: rendered as bytes', 6, {'chars': {-9: raw}}, raw=0)
    add('integer vectors', 7)
    add('integer vectors: 64 bit', 8)
    add('groups', 9)
    add('sequences', 10)
    add('sequences: alone', 10, seq=True)
    add('sequences of sequences', 11)
    add('sequences of unnamed sequences', 18)
    add('sequences of unnamed fields', 12, {'chars': {-9: raw[1:]}}, raw=1)
    add('sequences of unnamed fields: strings', 13, {'chars': {7: [all_of(), all_of(34), all_of(sym_char('p', 3))]}})
    add('enumerations', 14, {'val': {17: [0, 1]}})
    add('enumerations: other values', 14, {'val': {17: [1, 0]}})
    add('enumerations: values without a name', 14, {'val': {17: [7, 2]}})
    add('nested messages', 16)
    add('ignored fields', 17, ign=2)
    add('ignored fields: none', 17, ign=0)
    add('ignored fields: rendered', 17)
    add('ignored fields: in the form with a mask', 1, ign=2)
    add('nested messages: in the form with a mask', 16, ign=2)
    return js


HEXES = [(0x41, 'A'), (0, '\0'), (0x7f, '\x7f'), (0x80, '\x80'), (0xe9, '\xe9'), (0x7ff, '\u07ff'), (0x800, '\u0800'), (0x4e2d, '\u4e2d'),
         (0xd7ff, '\ud7ff'), (0xe000, '\ue000'), (0xffff, '\uffff'), (0xabcd, '\uabcd')]
PAIRS = ['\U00010000', '\U00010437', '\U00024b62', '\U0010ffff', '\U0001d11e']


def esc_u(cp, up=False):
    t = '%04X' % cp if up else '%04x' % cp
    return esc('\\u' + t, chr(cp).encode('utf-8', 'surrogatepass'))


def esc_pair(ch):
    v = ord(ch) - 0x10000
    return esc('\\u%04x\\u%04X' % (0xd800 + (v >> 10), 0xdc00 + (v & 0x3ff)), ch)


def plain(name):
    """any character of a string that is neither a quote nor a backslash, nor a control character"""
    c = ('S', 8, name)

    def setup(e, st):
        for k in (34, 92, 0xff):
            e.assume_cmp(st, 'ne', 8, c, k)
        e.assume_cmp(st, 'ugt', 8, c, 31)
    return c, setup


def ok(label, v, setup=None, spaces=('', ' ', '\n\t')):
    return [('%s%s' % (label, '' if not w else ', spaced'), render(v, w), v, setup) for w in spaces]


def err(label, text, setup=None):
    return [(label, lit(text) if isinstance(text, str) else text, None, setup)]


def cut(label, v):
    t = render(v)
    return [('%s cut off after %d characters' % (label, n), t[:n], None, None) for n in range(len(t))]


SKIPS = [('a number', ('n', '12')), ('a fraction', ('n', '-1.5e3')), ('true', L('true')), ('false', L('false')), ('null', L('null')),
         ('a string', S('a', esc('\\"', '"'), '}]{')), ('an object', O(('a2', ('n', '9')), ('y', O(('z', S('}')))))),
         ('an array', A(A(), S(']'), O(), ('n', '1'))), ('an empty object', O()), ('an empty string', S()),
         ('a string ending in a backslash', S(esc('\\\\', '\\'))), ('a unicode escape', S(esc('\\u0022', '"'), 'x'))]


def decode_jobs(deep):
    js = []

    def add(name, tid, cases, **kw):
        js.append(('t_decode', (name, tid, sum(cases, [])), kw))
    u32, i32, i64, u64 = (lambda n, s=False: num(n, 'uInt32')), (lambda n, s=False: num(n, 'int32', s)), \
        (lambda n, s=False: num(n, 'int64', s)), (lambda n: num(n, 'uInt64'))
    full = O(('a1', i32('p')), ('a2', u32('q')), ('a3', i64('r')), ('a4', u64('s')))
    add('integers', 1, [
        ok('all members', full), ok('negative numbers', O(('a1', i32('p', True)), ('a2', u32('q')), ('a3', i64('r', True)))),
        ok('another order', O(('a4', u64('s')), ('a3', i64('r')), ('a2', u32('q')))),
        ok('null', O(('a1', L('null')), ('a2', u32('q')), ('a4', L('null')), ('a3', i64('r')))),
        ok('an optional member left out', O(('a2', u32('q')), ('a3', i64('r')))), ok('an empty object', O()),
        ok('limits', O(('a1', ('n', str(-2 ** 31))), ('a2', ('n', str(2 ** 32 - 1))), ('a3', ('n', str(-2 ** 63))), ('a4', ('n', str(2 ** 64 - 1))))),
        ok('other limits', O(('a1', ('n', str(2 ** 31 - 1))), ('a2', ('n', '0')), ('a3', ('n', str(2 ** 63 - 1))), ('a4', ('n', '0')))),
        ok('a message that is null', L('null'), spaces=('',))])
    add('integers: out of range', 1, [err('%s for %s' % (v, n), '{"%s":%d}' % (n, v)) for n, v in (
        ('a1', 2 ** 31), ('a1', -2 ** 31 - 1), ('a2', 2 ** 32), ('a2', -1), ('a2', -2 ** 33), ('a3', 2 ** 63), ('a3', -2 ** 63 - 1),
        ('a4', 2 ** 64), ('a4', -1))] + [err('a negative number for a2', render(O(('a2', ('n', Num('x', 32, True, True).item))))),
                                         err('a negative number for a4', render(O(('a4', ('n', Num('x', 64, True, True).item)))))])
    add('integers: malformed', 1, [err(t, t) for t in (
        '{"a2":1 "a3":2}', '{"a2" 1}', '{a2:1}', '{"a2":"1"}', '{"a2":{}}', '{"a2":[1]}', '{"a2":true}', '{"a2":nulx}', '{"a2":nul}', '{"a2":}',
        '{"a2":1,}', '{,"a2":1}', '{"a2":1.5}', '{"a2":1]', '["a2"]', '"a2"', '12 ', '{"a2":1;}', '{"a2"=1}', '{"a2":--1}', 'nulx', 'true', '', ' ',
        '{"a2":1,,"a3":2}', "{'a2':1}")])
    add('integers: cut off', 1, [cut('an object', O(('a1', ('n', '-12')), ('xx', L('null')), ('a2', ('n', '5')), ('a4', L('null'))))])
    add('unknown members', 1, [ok('first %s' % n, O(('zz', v), ('a2', u32('q')))) + ok('last %s' % n, O(('a2', u32('q')), ('a', v))) for n, v in SKIPS])
    add('unknown members: malformed', 1, [err(t, t) for t in (
        '{"zz":tru}', '{"zz":nul}', '{"zz":fals}', '{"zz":}', '{"zz":x}', '{"zz":{"a":1}', '{"zz":[1}', '{"zz":"a}', '{"zz":-}', '{"zz":nulx,"a2":1}',
        '{"zz":[1,2,"a]}', '{"zz":"\\x"}')])
    add('unknown members: cut off', 1, [cut('an unknown member', O(('zz', v))) for n, v in SKIPS[4:9]])
    dec = []
    for t in ('0', '-0', '0.5', '-0.5', '-0.05', '123.45', '-12.50', '1e3', '1E-3', '1.5e2', '-1.5E+2', '100', '0.001', '1e17', '9223372036854775807',
              '-9223372036854775808', '0.000000000000000001', '12345678901.23456789', '-0.0', '1e-63', '9223372036854775.807'):
        dec += ok(t, O(('d1', ('n', t))), spaces=('', ' '))
    add('decimals', 2, [dec])
    ips, frs, exs = ('0', '-0', '7', '-12'), ('', '.0', '.5', '.05', '.250'), ('', 'e0', 'E+3', 'e-2')
    if deep:
        ips, frs, exs = ips + ('-1', '100', '922337203685477580', '-922337203685477580'), frs + ('.00', '.1', '.7', '.123456'), exs + ('e+00', 'E63', 'e-63', 'e1')
    for i in ips:
        add('decimals: grid %s' % i, 2, [ok(i + f + x, O(('d1', ('n', i + f + x))), spaces=('',)) for f in frs for x in exs
                                         if -2 ** 63 <= int(i + f[1:]) < 2 ** 63 and len((i + f[1:]).lstrip('-')) < 19 or not f])
    add('decimals: out of range', 2, [err(t, '{"d1":%s}' % t) for t in (
        '9223372036854775808', '-9223372036854775809', '922337203685477580.8', '92233720368547758.08', '0.99999999999999999999', '1e40000',
        '1.5e-32768', '-9223372036854775.80801', '99999999999999999999.5')])
    add('decimals: malformed', 2, [err(t, '{"d1":%s}' % t) for t in ('', '"1"', '.5', 'e5', '1e', '1.5e+', '--1', '{}', '[]', 'true', '1.5x', '1 2')] +
        [cut('a decimal', O(('d1', ('n', '-1.25e2'))))])
    c, setup = plain('c')
    strs = [('no characters', S(), None), ('a character', S(c), setup), ('characters around an escape', S(c, esc('\\n', '\n'), c), setup)]
    strs += [('the escape \\' + a, S(esc('\\' + a, b)), None) for a, b in zip('btnfr"/\\', '\b\t\n\f\r"/\\')]
    strs += [('\\u%04x' % cp, S('x', esc_u(cp, i % 2), 'y'), None) for i, (cp, _) in enumerate(HEXES)]
    strs += [('a surrogate pair', S('x', esc_pair(ch), 'y'), None) for ch in PAIRS]
    strs += [('several unicode escapes', S(esc_u(0x4e2d), esc_u(0x83ef), esc_pair(PAIRS[1]), esc_pair(PAIRS[2]), esc_u(0x41)), None),
             ('two leading surrogates', S(esc_u(0xd800), esc_pair(PAIRS[1])), None), ('a trailing surrogate alone', S(esc_u(0xdc00), 'x'), None),
             ('a leading surrogate alone', S(esc_u(0xdbff), 'x', esc_u(0xd801), esc('\\n', '\n')), None), ('a leading surrogate before another character', S(esc_u(0xd83d), esc_u(0x41)), None),
             ('escapes in a row', S(esc('\\\\', '\\'), esc('\\"', '"'), esc('\\\\', '\\')), None), ('brackets', S('{[}],:'), None)]
    for tid, nm, k in ((3, 's1', 'ascii strings'), (4, 's2', 'unicode strings')):
        add(k, tid, [ok(lab, O((nm, v)), s, spaces=('',)) for lab, v, s in strs])
        add(k + ': malformed', tid, [err(t, '{"%s":%s}' % (nm, t)) for t in (
            '', '"a', '12', 'abc', "'a'", '{}', '[]', '"\\x"', '"\\u12"', '"\\u12g4"', '"\\uzzzz"', '"\\u 123"', 'true', '"a" "b"')] +
            [err('an escaped NUL', lit('{"%s":"\\' % nm) + [0] + lit('"}'))] +
            [cut('a string', O((nm, S('ab', esc('\\"', '"'), esc_u(0x41), esc_pair(PAIRS[0]))), ('zz', S(esc('\\\\', '\\')))))])
    hx = [('"%s"' % t, S(t)) for t in ('', '00', '0aFf', '01020304-0506-0708-090a-0b0c0d0e0f10', 'deadBEEF')]
    add('byte vectors', 5, [ok(lab, O(('b1', v), ('b2', u32('q'))), spaces=('',)) for lab, v in hx], raw=1)
    add('byte vectors: malformed', 5, [err(t, '{"b1":%s}' % t) for t in ('', '"0', '"0"', '"0g"', '"xx"', '12', '{}', '[1]', '"012"')], raw=1)
    rw = [('an empty object', O()), ('an object', O(('x', S('a', esc('\\"', '"'), '}')), ('y', A(('n', '1'), O())))), ('a nested object', O(('x', O(('y', O()))))),
          ('a unicode escape', O(('x', S(esc_u(0x41), esc_pair(PAIRS[1])))))]
    add('fields holding JSON', 6, [ok(lab, O(('r1', v), ('r0', u32('q'))), spaces=('',)) + ok('optional ' + lab, O(('r2', v), ('r1', O())), spaces=('',))
                                   for lab, v in rw], raw=1)
    add('fields holding JSON: again', 6, [ok(lab, O(('r1', v), ('r2', v)), spaces=('',)) for lab, v in rw[:2]], raw=1, reuse=True)
    add('fields holding JSON: malformed', 6, [err(t, '{"r1":%s}' % t) for t in ('', '12', '"a"', '[1]', '{"a":"b}', '{')] +
        [cut('a raw object', O(('r1', rw[1][1])))], raw=1)
    for tid, a, ka, b, kb in ((7, 'v1', 'int32', 'v2', 'uInt32'), (8, 'v3', 'int64', 'v4', 'uInt64')):
        for n in (0, 1, 2, 3):
            add('integer vectors: %d of %s' % (n, ka), tid, [ok('%d elements' % n, O((a, A(*[num('e%d' % i, ka, i % 2 == 1) for i in range(n)])),
                                                                                      (b, A(*[num('f%d' % i, kb) for i in range(n)]))))])
        add('integer vectors: malformed %s' % ka, tid, [err(t, '{"%s":%s}' % (b, t)) for t in (
            '12', '[1', '[1,', '[1}', '[,1]', '[1,]', '["1"]', '{}', '[1 2]', '[-1]', '[true]', '[1.5]', '[[1]]', '', '[1', '[null]', '[1,,2]', '[1]2')])
    add('integer vectors: again', 7, [ok('one element', O(('v1', A(('n', '9'))), ('v2', A(('n', '8')))), spaces=('',)) +
                                      ok('none', O(('v2', A())), spaces=('',))], reuse=True)
    grp = O(('g1', O(('g2', u32('p')))), ('g3', O(('g4', i64('q')), ('g5', O(('g6', u32('r')))))), ('g7', u32('s')))
    gc = [ok('all groups', grp), ok('an optional group left out', O(('g1', O()), ('g7', u32('s')))),
          ok('an optional group that is null', O(('g1', O()), ('g3', L('null')), ('g7', u32('s')))),
          ok('an inner group left out', O(('g3', O(('g4', i64('q')))), ('g7', u32('s')))),
          ok('unknown members in groups', O(('g3', O(('g7', ('n', '5')), ('g4', i64('q')))), ('g7', u32('s'))))]
    add('groups', 9, gc)
    add('groups: again', 9, gc, reuse=True)
    add('groups: malformed', 9, [err(t, '{"g1":%s}' % t) for t in ('12', '"a"', '[]', '{"g2":1', '{"g2":1]', 'true', '{"g2"}', '', ',"g7":1', '{]', '{},"g7"')] + [cut('groups', O(('g1', O(('g2', ('n', '1')))), ('g3', O(('g4', ('n', '2'))))))])
    el = lambda *n: O(*[(k, u32('x%s%d' % (k, i))) for i, k in enumerate(n)])
    for n in (0, 1, 2, 3):
        q = A(*[O(('q2', u32('a%d' % i)), ('q3', u32('b%d' % i))) if i != 1 else O(('q3', u32('b%d' % i))) for i in range(n)])
        add('sequences: of %d' % n, 10, [ok('%d elements' % n, O(('q1', q), ('q4', u32('z'))))])
        add('sequences: of %d alone' % n, 10, [ok('%d elements' % n, q)], seq=True)
        if n < 3:
            add('sequences: of %d again' % n, 10, [ok('%d elements' % n, O(('q1', q)), spaces=('',))], reuse=True)
    add('sequences: left out', 10, [ok('left out', O(('q4', u32('z')))), ok('null', O(('q1', L('null')), ('q4', u32('z'))))])
    add('sequences: left out again', 10, [ok('left out', O(('q4', u32('z')))), ok('null', O(('q1', L('null')), ('q4', u32('z'))))], reuse=True)
    add('sequences: malformed', 10, [err(t, '{"q1":%s}' % t) for t in ('12', '{}', '"a"', '[1]', '[{},]', '[,{}]', '[{} {}]', '[{}', '[{}}', '[{"q3":1}', 'true', '', ',"q4":1', '[{"q2":}]', '[{"q3":1}{}]', '[nul]')] +
        [cut('a sequence', O(('q1', A(O(('q3', ('n', '1'))), O(('q3', ('n', '2')))))))])
    add('sequences: cut off alone', 10, [cut('a sequence', A(O(('q3', ('n', '1'))), O(('q3', ('n', '2')))))], seq=True)
    add('sequences of sequences', 11, [ok('nested', O(('n1', A(O(('n2', A(O(('n3', u32('a'))), O(('n3', u32('b')))))), O(), O(('n2', A()))))))])
    add('sequences of unnamed sequences', 18, [ok('nested', O(('z1', A(A(u32('a'), u32('b')), A(), A(u32('c')))))), ok('none', O(('z1', A()))), ok('one', O(('z1', A(A()))))])
    add('sequences of unnamed sequences: again', 18, [ok('more', O(('z1', A(A(u32('a'), u32('b')), A(u32('d')), A(u32('c')))))), ok('fewer', O(('z1', A(A(u32('a'))))))], reuse=True)
    add('sequences of unnamed sequences: malformed', 18, [err(t, '{"z1":%s}' % t) for t in ('[[1', '[[1]', '[[1,]]', '[1]', '[[1]]]', '[[1}]', '[{}]', '[[1],]')] +
        [cut('nested', O(('z1', A(A(('n', '1')), A()))))])
    add('sequences of unnamed fields', 12, [ok('numbers', O(('p1', A(u32('a'), u32('b'), u32('c'))))), ok('none', O(('p1', A()))),
                                            ok('objects', O(('p1', A()), ('p2', A(O(), O(('x', ('n', '1')))))), spaces=('',))], raw=1)
    add('sequences of unnamed fields: strings', 13, [ok('strings', O(('p3', A(S(), S(c), S('b')))), setup)])
    add('sequences of unnamed fields: malformed', 12, [err(t, '{"p1":%s}' % t) for t in ('[1', '[1,]', '["a"]', '[{}]', '[1 2]', '1', '[1}')] +
        [cut('numbers', O(('p1', A(('n', '1'), ('n', '2')))))], raw=1)
    add('enumerations', 14, [ok('values', O(('e1', ('n', '1')), ('e2', ('n', '0')), ('e3', L('true')), ('e4', L('false')))),
                             ok('other values', O(('e1', ('n', '0')), ('e3', L('false')), ('e4', L('true')))),
                             ok('numbers for truth', O(('e3', ('n', '1')), ('e4', ('n', '0'))), spaces=('',)),
                             ok('null', O(('e1', ('n', '1')), ('e2', L('null')), ('e3', L('true')), ('e4', L('null'))))])
    add('enumerations: malformed', 14, [err(t, t) for t in ('{"e3":tru}', '{"e3":fals}', '{"e3":falsx}', '{"e3":trux}', '{"e4":nullx}', '{"e3":xrue}', '{"e3":}', '{"e1":}', '{"e1":,"e3":true}', '{"e3":"true"}', '{"e1":true}', '{"e1":"x"}', '{"e3":truex}', '{"e3":2}')] +
        [cut('truth', O(('e3', L('true')), ('e4', L('false'))))])
    return js


def _work(job):
    fn, args, kw = job
    e = JsEngine(_PROG)
    e.gw = set()
    try:
        r = globals()[fn](e, *args, **kw)
    except Exception as x:
        r = ended(Result(args[0]), args[0], x)
    r.fns = sorted(e.visited_fns)
    r.gw = sorted(e.gw)
    r.unknown = sorted(e.unknown)
    return r


def run_jobs(prog, jobs, procs=8):
    import multiprocessing
    global _PROG, _JOBS
    _PROG, _JOBS = prog, jobs
    with multiprocessing.get_context('fork').Pool(min(procs, max(1, len(jobs)))) as pool:
        return pool.map(_nth, range(len(jobs)), chunksize=1)


def _nth(i):
    return _work(_JOBS[i])
