"""Dictionaries and presence bits as laid down when a codec is built from templates (C10..C12)."""
from vf import ir
from vf import dict as D

TECH = ('Abstract interpretation of the LLVM IR of the construction of a codec from templates: names, namespaces and '
        'dictionaries are symbolic strings whose identities are split on demand, std::string is modelled by its parts and '
        'std::map is interpreted; the previous values two fields end up with are compared with the scoping rules of '
        'FAST 1.1; nothing is executed and no solver is used')


def collect(r, res, where='src/mfast/coder/common/dictionary_builder.cpp'):
    fns = set()
    for x in res:
        r.ok(max(0, x.paths - len(x.bad)))
        r.count('paths interpreted', x.paths)
        fns.update(getattr(x, 'fns', ()))
        for k, (txt, wh) in sorted(x.bad.items(), key=repr):
            if x.unknown:
                # an unmodelled library call: what it returned is anyone's guess
                r.undecided('%s: %s' % (x.name, txt))
                continue
            r.violation('%s | %s' % (x.name, ' '.join(map(str, k))), '%s: %s' % (x.name, txt),
                        wh or where)
        for t, n in x.und.items():
            r.undecided('%s: %s (%d)' % (x.name, t, n))
        for u in x.unknown:
            r.undecided('%s: unmodelled %s' % (x.name, u))
        r.sample('%s: %d paths' % (x.name, x.paths))
    r.count('functions interpreted', len(fns))
    r.count('scenarios', len(res))


def program(r, drv):
    p = ir.program(ir.lib('core', 'coder') + [ir.driver(drv)], dce=True)
    r.unit(*p['units'])
    r.count('functions in scope', len(p['functions']))
    r.rule(TECH)
    return p


def c10(r):
    p = program(r, 'dict.cpp')
    r.assumption('names contain neither "::" nor "||" nor the suffixes of implicit names')
    r.rule('two fields share a previous value exactly when dictionary, scope and qualified key agree, where the dictionary and '
           'the namespace come from the innermost enclosing element that has one and the key defaults to the name')
    collect(r, D.run_jobs(p, D.jobs(r.tier != 'quick', 'scope')))


def c11(r):
    p = program(r, 'pmap.cpp')
    r.rule('presence bits of a field by kind, operator and presence, as built, changed and copied; a segment reserves their sum')
    collect(r, D.run_jobs(p, [('t_pmap', ('presence bits, part %d' % i, i, 8)) for i in range(8)]))


def c12(r):
    p = program(r, 'dict.cpp')
    r.rule('fields of different type never share an entry (D4); only operators that use previous values have one; a reset '
           'reaches every entry; codecs and descriptions share none; a string held by an entry is released once')
    collect(r, D.run_jobs(p, D.jobs(r.tier != 'quick', 'kinds')))
