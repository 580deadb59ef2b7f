"""What is shared between threads: an interprocedural effect analysis of the LLVM IR.

For every function: which of its parameters, and which objects with static storage, it may write to directly (through addresses
computed from them, not through pointers loaded from memory), propagated over the call graph to a fixpoint.  A write to an object
with static storage is harmless while it is initialised: in the functions that run before main, or between acquiring and releasing
its guard.  Member functions of objects every codec and message shares (instructions, descriptions, operators) are followed through
their virtual tables."""
import re

SYSTEM = re.compile(r'^(boost::|std::|__gnu|tinyxml2::|guard variable|vtable|typeinfo|construction vtable|VTT|llvm\.|__|_GLOBAL|vf_|thread-local|TLS)')
ONCE = re.compile(r'^(__cxx_global_(var_init|array_dtor)|_GLOBAL__(sub_)?[ID]|__tls_init|thread-local (initialization|wrapper))')
ATOMIC = re.compile(r'^(std::(__)?atomic|std::(recursive_|shared_|timed_)?mutex|std::(lock_guard|unique_lock|scoped_lock|shared_lock|call_once|once_flag)|boost::(mutex|lock_guard|atomic))')
LOCK = re.compile(r'^(pthread_(mutex|rwlock|spin)_(\w*lock|rdlock|wrlock)|pthread_once|std::call_once|__gthread_(mutex_lock|once))')
READS = re.compile(r'^(llvm\.threadlocal|str(n)?(len|cmp|chr|rchr|str|spn|cspn)|memc(mp|hr)|__cxa_|__dynamic_cast|bcmp|puts|printf|_Unwind|std::(basic_)?string<[^(]*> ?(::)?(size|length|c_str|data|compare)|operator delete)')
SHARED = re.compile(r'^mfast::([\w:]*_instruction(_ex|_base)?|templates_description|instruction_tag|\w*_(de|en)coder_detail::\w+|(de|en)coder_detail::\w+|malloc_allocator)::[~\w]+(<.*>)?\(.*\) const$')


class Share(object):
    def __init__(self, progs, repo):
        self.repo = repo.rstrip('/') + '/'
        self.fns, self.globals = {}, {}
        for p in progs:
            for n, f in p['functions'].items():
                if n not in self.fns or self.fns[n]['decl'] and not f['decl']:
                    self.fns[n] = f
            for n, g in p['globals'].items():
                if n not in self.globals or self.globals[n]['ext'] and not g['ext']:
                    self.globals[n] = g
        self.ctors = set()
        for p in progs:
            for c in p['ctors']:
                self.ctors.add(c if isinstance(c, str) else c[-1])
        self.mutable = {n for n, g in self.globals.items() if not g['const'] and not g['ext'] and not SYSTEM.match(g['dem'])
                        and not n.startswith(('_ZGV', 'llvm.', '_ZTV', '_ZTI', '_ZTS'))}
        self.local = {}
        self.sites = 0
        for n, f in self.fns.items():
            if not f['decl']:
                self.local[n] = self.scan(n, f)
        self.solve()

    # -- one function ---------------------------------------------------------
    def scan(self, n, f):
        """-> {writes: [(root, why, line, guarded)], calls: [(callee, [roots of arguments], line, guarded)], ret: roots}"""
        roots = {i: {('arg', i)} for i in range(len(f['args']))}
        slots = {}

        def of(v):
            if isinstance(v, int):
                return roots.get(v, set())
            if isinstance(v, list) and v:
                if v[0] == 'g':
                    return {('g', v[1])}
                if v[0] in ('add', 'cast'):
                    return of(v[1] if v[0] == 'add' else v[2])
                if v[0] == 'ce':
                    r = set()
                    for x in v[2:]:
                        r |= of(x)
                    return r
            return set()
        calls = {}
        for rnd in range(8):
            changed = False
            for b in f['bb']:
                for ins in b:
                    op, d = ins[0], ins[1]
                    r = None
                    if op == 'alloca':
                        r = {('slot', d)}
                    elif op == 'getelementptr':
                        r = of(ins[4])
                    elif op == 'phi':
                        r = set()
                        for x in ins[4]:
                            r |= of(x[1])
                    elif op == 'select':
                        r = of(ins[5]) | of(ins[6])
                    elif op in ('freeze', 'addrspacecast', 'bitcast', 'inttoptr', 'ptrtoint', 'extractvalue'):
                        r = of(ins[4])
                    elif op == 'insertvalue':
                        r = of(ins[4]) | of(ins[5])
                    elif op == 'load':
                        r = set()
                        for s in of(ins[4]):
                            if s[0] == 'slot':
                                r |= slots.get(s[1], set())
                    elif op == 'store':
                        v = of(ins[4])
                        for s in of(ins[5]):
                            if s[0] == 'slot' and not v <= slots.setdefault(s[1], set()):
                                slots[s[1]] |= v
                                changed = True
                    elif op in ('call', 'invoke'):
                        r = {('ret', id(ins))}
                        calls[id(ins)] = ins
                    if r is not None and isinstance(d, int) and d >= 0 and not r <= roots.get(d, set()):
                        roots.setdefault(d, set()).update(r)
                        changed = True
            if not changed:
                break
        guards = self.guarded(f)
        L = dict(writes=[], calls=[], ret=set(), callno={}, lock=False)
        for bi, b in enumerate(f['bb']):
            for ii, ins in enumerate(b):
                op, line = ins[0], ins[3]
                g = {x for x, region in guards.items() if (bi, ii) in region}
                if op == 'store':
                    self.sites += 1
                    for s in of(ins[5]):
                        L['writes'].append((s, 'store', line, g))
                elif op in ('atomicrmw', 'cmpxchg'):
                    pass
                elif op in ('call', 'invoke'):
                    self.sites += 1
                    c = ins[4]
                    callee = c[1] if isinstance(c, list) and c[0] == 'g' else None
                    args = [of(a) for a in ins[5]]
                    L['callno'][id(ins)] = len(L['calls'])
                    L['calls'].append((callee, args, line, g))
                elif op == 'ret' and len(ins) > 4:
                    L['ret'] |= of(ins[4])
        return L

    def guarded(self, f):
        """guard variable -> instructions between acquiring it and releasing it"""
        out = {}
        bb = f['bb']
        succ = []
        for b in bb:
            t = b[-1]
            s = []
            if t[0] == 'br':
                s = [x for x in t[5:] if isinstance(x, int)]
            elif t[0] == 'switch':
                s = [t[5]] + [x[1] for x in t[6]]
            elif t[0] == 'invoke':
                s = [t[-2], t[-1]]
            succ.append(s)
        for bi, b in enumerate(bb):
            for ii, ins in enumerate(b):
                if ins[0] in ('call', 'invoke') and isinstance(ins[4], list) and ins[4][0] == 'g' and ins[4][1] == '__cxa_guard_acquire':
                    a = ins[5][0]
                    if not (isinstance(a, list) and a[0] == 'g'):
                        continue
                    t = b[-1]
                    if t[0] != 'br' or len(t) < 7:
                        continue
                    inside = set()
                    for first, other in ((t[5], t[6]), (t[6], t[5])):
                        # the side that releases the guard is the one that initialises
                        seen, todo, region, released = set(), [first], set(), False
                        while todo:
                            k = todo.pop()
                            if k in seen:
                                continue
                            seen.add(k)
                            end = False
                            for jj, x in enumerate(bb[k]):
                                region.add((k, jj))
                                if x[0] in ('call', 'invoke') and isinstance(x[4], list) and x[4][0] == 'g' and x[4][1] in (
                                        '__cxa_guard_release', '__cxa_guard_abort') and x[5][0] == a:
                                    released = end = True
                                    break
                            if not end:
                                todo += succ[k]
                        if released:
                            # what can also be reached around the guard is not protected
                            around, todo = set(), [0]
                            while todo:
                                k = todo.pop()
                                if k in around:
                                    continue
                                around.add(k)
                                todo += [x for x in succ[k] if not (k == bi and x == first)]
                            inside |= {x for x in region if x[0] not in around}
                    out.setdefault(a[1], set()).update(inside)
        return out

    # -- all functions --------------------------------------------------------
    def resolve(self, n, s, seen=()):
        """roots of a call's value in terms of the caller's parameters and globals"""
        L = self.local[n]
        if s[0] != 'ret':
            return {s}
        if s in seen:
            return set()
        i = L['callno'].get(s[1])
        if i is None:
            return set()
        callee, args, line, g = L['calls'][i]
        r = set()
        for t in self.ret.get(callee, ()):
            if t[0] == 'g':
                r.add(t)
            elif t[0] == 'arg' and t[1] < len(args):
                for u in args[t[1]]:
                    r |= self.resolve(n, u, seen + (s,))
        return r

    def solve(self):
        self.ret = {n: set() for n in self.local}
        self.writes = {n: {} for n in self.local}       # parameter -> (line, file) of a write
        self.found = {}                                  # (global, function) -> (line, how, guards)
        for rnd in range(12):
            changed = False
            for n, L in self.local.items():
                r = set()
                for s in L['ret']:
                    r |= {x for x in self.resolve(n, s) if x[0] in ('arg', 'g')}
                if not r <= self.ret[n]:
                    self.ret[n] |= r
                    changed = True
            if not changed:
                break
        for rnd in range(20):
            changed = False
            for n, L in self.local.items():
                f = self.fns[n]
                W = self.writes[n]

                def write(s, how, line, g):
                    ch = False
                    for t in self.resolve(n, s):
                        if t[0] == 'arg' and t[1] not in W:
                            W[t[1]] = (line, how)
                            ch = True
                        elif t[0] == 'g' and t[1] in self.mutable and (t[1], n) not in self.found and '_ZGV' + t[1][2:] not in g \
                                and not self.first(t[1], g):
                            self.found[(t[1], n)] = (line, how)
                    return ch
                for s, how, line, g in L['writes']:
                    changed |= write(s, how, line, g)
                for callee, args, line, g in L['calls']:
                    if callee is None:
                        continue
                    dem = self.fns[callee]['dem'] if callee in self.fns else callee
                    if ATOMIC.match(dem):
                        continue
                    if callee in self.local:
                        ks = [k for k in self.writes[callee]]
                    elif dem.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
                        ks = [0]
                    elif READS.match(dem) or dem.startswith('llvm.') or dem.endswith(' const'):
                        ks = []
                    elif callee in self.fns and self.fns[callee]['decl']:
                        ks = [k for k, a in enumerate(self.fns[callee]['args']) if a[0] == 'p' and not (len(a) > 3 and a[3])]
                        if not dem.startswith('std::') and '(' not in dem and dem not in ('memcpy', 'memmove', 'memset', 'strcpy', 'strncpy', 'snprintf', 'sprintf', 'strtok'):
                            ks = []
                    else:
                        ks = []
                    for k in ks:
                        if k < len(args):
                            for s in args[k]:
                                changed |= write(s, 'call of %s' % dem.split('(')[0][:80], line, g)
            if not changed:
                break

    def first(self, name, g):
        return any(self.globals.get(x, {}).get('dem', '') == 'guard variable for ' + self.globals[name]['dem'] for x in g)

    def once(self, n):
        """runs before main only"""
        if not hasattr(self, '_callers'):
            self._callers, taken = {}, set()
            for m, L in self.local.items():
                for callee, args, line, g in L['calls']:
                    if callee:
                        self._callers.setdefault(callee, set()).add(m)
                    for a in args:
                        taken |= {s[1] for s in a if s[0] == 'g'}
            self._taken = taken
            self._once = {}
        if n in self._once:
            return self._once[n]
        self._once[n] = False
        f = self.fns[n]
        if ONCE.match(f['dem']) or ONCE.match(n) or n in self.ctors:
            self._once[n] = True
        else:
            cs = self._callers.get(n, ())
            # only a function nobody else can name
            self._once[n] = bool(cs) and n not in self._taken and self.internal(n) and all(self.once(c) for c in cs)
        return self._once[n]

    def internal(self, n):
        return '(anonymous namespace)' in self.fns[n]['dem'] or n.startswith('_ZL')

    def locked(self, n, depth=3):
        for callee, args, line, g in self.local.get(n, dict(calls=[]))['calls']:
            if callee:
                dem = self.fns[callee]['dem'] if callee in self.fns else callee
                if LOCK.match(callee) or LOCK.match(dem) or ATOMIC.match(dem):
                    return True
        return False

    def where(self, n, line):
        f = self.fns[n]
        fl = f.get('file', '')
        if fl.startswith(self.repo):
            fl = fl[len(self.repo):]
        return '%s:%s in %s' % (fl, line, f['dem'].split('(')[0])

    def mine(self, n):
        return self.fns[n].get('file', '').startswith(self.repo + 'src/')

    # -- verdicts --------------------------------------------------------------
    def statics(self):
        """(key, text, where, undecided) for each write to an object with static storage after its initialisation"""
        for (g, n), (line, how) in sorted(self.found.items()):
            if not self.mine(n) or self.once(n):
                continue
            gd = self.globals[g]['dem']
            if self.constructs(g, n):
                continue
            yield ('static | %s | %s' % (gd, self.fns[n]['dem'].split('(')[0]),
                   '%s is shared by all threads and written to (%s) without protection' % (gd, how), self.where(n, line), self.locked(n))

    def constructs(self, g, n):
        return False

    def methods(self):
        """const member functions of shared objects that write to the object"""
        for n, L in sorted(self.local.items()):
            f = self.fns[n]
            if not SHARED.match(f['dem']) or not self.mine(n):
                continue
            k = 1 if f['args'] and f['args'][0][1] else 0
            if k in self.writes[n]:
                line, how = self.writes[n][k]
                yield ('const | %s' % f['dem'].split('(')[0], '%s is const, belongs to an object all threads share, and writes to it (%s)' % (
                    f['dem'].split('(')[0], how), self.where(n, line), self.locked(n))
            else:
                yield None

    def operators(self):
        """member functions of stateless objects with static storage, through their virtual tables"""
        for g in sorted(self.mutable):
            vts = [v[1] for off, size, v in self.globals[g]['init'] if isinstance(v, list) and v[0] in ('g', 'add') and 'ZTV' in str(v)]
            vts = set(re.findall(r"_ZTV\w+", str(vts))) | set(re.findall(r"_ZTV\w+", str(self.globals[g]['init'])))
            vts |= self.tables(g)
            for vt in vts:
                for m in re.findall(r"'(_Z\w+)'", str(self.globals.get(vt, {}).get('init', ''))):
                    if m not in self.local or not self.mine(m):
                        continue
                    f = self.fns[m]
                    name = f['dem'].split('(')[0]
                    if '~' in name or re.search(r'_instruction', name):
                        continue
                    k = 1 if f['args'] and f['args'][0][1] else 0
                    if k in self.writes[m]:
                        line, how = self.writes[m][k]
                        yield ('object | %s | %s' % (self.globals[g]['dem'], name), '%s is shared by all threads and modified by its member function %s (%s)' % (
                            self.globals[g]['dem'], name, how), self.where(m, line), self.locked(m))
                    else:
                        yield None

    def tables(self, g):
        """virtual tables a constructor called on the object installs"""
        r = set()
        if not hasattr(self, '_ctor'):
            self._ctor = {}
            for n, L in self.local.items():
                for callee, args, line, gg in L['calls']:
                    if callee in self.local and args:
                        for s in args[0]:
                            if s[0] == 'g' and re.search(r'::(\w+)::\1\(|^(\w+)::\2\(', self.fns[callee]['dem']):
                                self._ctor.setdefault(s[1], set()).add(callee)
        for c in self._ctor.get(g, ()):
            for b in self.fns[c]['bb']:
                for ins in b:
                    if ins[0] == 'store' and '_ZTV' in str(ins[4]):
                        r |= set(re.findall(r"_ZTV\w+", str(ins[4])))
        return r
