"""Instructions built from XML templates and views over messages (X01, V01)."""
from vf import ir
from vf import tmpl, view
from .dictionary import collect

TECH = ('Abstract interpretation of the LLVM IR of the template loader over an abstract document object model: attribute values, ids and '
        'initial values are symbols where their text does not matter, std::map, std::set, std::deque and the registry are interpreted; '
        'the description every path builds is compared, member by member, with the one the elements and attributes prescribe; nothing is '
        'executed and no solver is used')


def x01(r):
    p = ir.program(ir.lib('core', 'xml') + [ir.driver('xml.cpp')], dce=True)
    r.unit(*p['units'])
    r.count('functions in scope', len(p['functions']))
    r.rule(TECH)
    r.rule('every path over a valid document ends in the description the document prescribes, every path over an invalid one in an '
           'error; storage is used only within bounds')
    r.assumption('tinyxml2 reports the elements and attributes of the document; boost::lexical_cast converts text as specified')
    collect(r, tmpl.run_jobs(p, tmpl.jobs(r.tier != 'quick')), tmpl.WHERE)


def v01(r):
    p = ir.program(ir.lib('core', 'xml') + [ir.driver('view.cpp')], dce=True)
    r.unit(*p['units'])
    r.count('functions in scope', len(p['functions']))
    r.rule('Abstract interpretation of the LLVM IR of the view builder and the view iterator: views are built from abstract documents, messages hold '
           'a symbol in each number, and what the iterator yields on every path is compared with the references resolved by name; nothing is '
           'executed and no solver is used')
    r.rule('one field of the message, or an absent one, for each field of the view, in order: the first of its references that is present; storage '
           'is used only within bounds')
    r.assumption('one template with every way of nesting, and messages that lack at most one of its parts or everything, represent the others')
    collect(r, view.run_jobs(p, view.jobs(r.tier != 'quick')), view.WHERE)
