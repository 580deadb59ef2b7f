"""What codecs and messages used by different threads have in common (T01)."""
from vf import ir
from vf import agg, js, scalar, share

DRIVERS = ('walk.cpp', 'agg.cpp', 'scalar.cpp', 'vec.cpp', 'json.cpp')


def t01(r):
    progs = [ir.program(ir.lib('core', 'coder', 'json', 'xml'))]
    for d in DRIVERS:
        progs.append(ir.program([ir.driver(d)]))
    for p in progs:
        r.unit(*p['units'])
    r.rule('Interprocedural effect analysis of the LLVM IR: for each function the parameters and the objects with static storage it may write to, '
           'propagated over the call graph to a fixpoint; a write outside dynamic initialisation and outside the region its guard protects is a '
           'violation, as is a const member function of an instruction, description, operator or allocator that writes to its object')
    r.rule('Abstract interpretation of the operations of messages, numeric fields and JSON conversion: no path stores to an object with static storage '
           '(default values, default instructions, instructions of generated types) after its initialisation')
    r.assumption('std::, boost and the C library are as safe for threads as they promise; what templates are loaded through a common registry is not covered')
    s = share.Share(progs, ir.REPO)
    r.count('functions in scope', len(s.fns))
    r.count('functions with effects computed', len(s.local))
    r.count('objects with static storage that are not constant', len(s.mutable))
    r.count('stores and calls', s.sites)
    r.ok(len(s.mutable))
    for key, text, where, und in s.statics():
        if und:
            r.undecided(text)
        else:
            r.violation(key, text, where)
    for what, gen in (('const member functions of shared objects', s.methods()), ('member functions of static objects', s.operators())):
        n = 0
        for x in gen:
            n += 1
            if x is None:
                r.ok(1)
            elif x[3]:
                r.undecided(x[1])
            else:
                r.violation(x[0], x[1], x[2])
        r.count(what, n)
    paths = 0
    for mod, libs, drv in ((agg, ("core", "coder"), "agg.cpp"), (scalar, ("core", "coder"), "scalar.cpp"), (js, ("core", "json"), "json.cpp")):
        p = ir.program(ir.lib(*libs) + [ir.driver(drv)], dce=True)
        seen = set()
        for res in mod.run_jobs(p, mod.jobs(False) if mod is not js else js.encode_jobs(False) + js.decode_jobs(False)):
            paths += res.paths
            seen |= set(getattr(res, 'gw', ()))
        for name, where in sorted(seen):
            g = p['globals'].get(name)
            if g is None or g['const'] or g['ext'] or share.SYSTEM.match(g['dem']) or name.startswith('_ZGV'):
                continue
            r.violation('value | %s' % g['dem'], '%s is shared by all threads and written to by an operation of a message' % g['dem'], where)
    r.count('paths interpreted', paths)
    r.ok(paths)

