"""Containers of elements and the allocators behind them (M03, M04)."""
from vf import ir
from vf import vec, alloc, agg, scalar
from .dictionary import collect as _collect

TECH = ('Abstract interpretation of the LLVM IR of the container interface of fields and of the allocators: elements are '
        'symbols, sizes and capacities are enumerated around every limit the code compares with, storage is tracked block by '
        'block; the outcome of every path is compared with the sequence of elements the operation is to leave; nothing is '
        'executed and no solver is used')


def program(r, drv, *libs):
    p = ir.program(ir.lib('core', 'coder') + [ir.driver(drv)], dce=True)
    r.unit(*p['units'])
    r.count('functions in scope', len(p['functions']))
    r.rule(TECH)
    return p


def collect(r, res, where):
    _collect(r, res, where)


def m03(r):
    p = program(r, 'vec.cpp')
    r.rule('each operation leaves the elements, the presence and the ownership of storage it promises, reads and writes '
           'nothing outside, keeps room for a terminator, and gives storage back exactly once with the size it was obtained with')
    r.assumption('sizes 0..8 and spare capacities 1, 2, 4 represent the others; arguments do not alias the field')
    collect(r, vec.run_jobs(p, vec.jobs(r.tier != 'quick')), 'src/mfast/vector_ref.h')


def m04(r):
    p = program(r, 'alloc.cpp')
    r.rule('blocks are as large as promised, aligned, disjoint from every other live block, keep their content when they grow, '
           'and all memory goes back to the system exactly once')
    r.assumption('malloc, realloc and free behave as specified')
    collect(r, alloc.run_jobs(p, alloc.jobs(r.tier != 'quick')), 'src/mfast/arena_allocator.cpp')


def m05(r):
    p = program(r, 'agg.cpp')
    r.rule('each operation leaves the elements, the presence and the values it promises; nothing outside is touched; a value that was copied '
           'or moved does not depend on another one; all storage is released exactly once with the size it was obtained with')
    r.assumption('sizes up to 5 and capacities with and without room to spare represent the others; assigned ranges do not alias the sequence')
    collect(r, agg.run_jobs(p, agg.jobs(r.tier != 'quick')), 'src/mfast/sequence_ref.h')


def m06(r):
    p = program(r, 'agg.cpp')
    r.rule('== holds exactly when the same fields are present and hold the same values, in both directions, and != is its negation')
    r.assumption('the enumerated differences (one element, one bit, one length, one presence) represent the others')
    collect(r, agg.run_jobs(p, agg.eq_jobs(r.tier != 'quick')), 'src/mfast/field_comparator.h')


def m07(r):
    p = program(r, 'scalar.cpp')
    r.rule('after every operation on a numeric field its presence, its value, the value of the other part of a decimal and whether it is '
           'said to be its initial value are those of a plain optional number put through the same operations')
    r.assumption('values at and around the limits of each type represent the others; a field is set to values of its own type, or to integers '
                 'through the interface that takes any')
    collect(r, scalar.run_jobs(p, scalar.jobs(r.tier != 'quick')), 'src/mfast/int_ref.h')
