"""Transfer encodings and buffers below the operators (W01..W05)."""
import traceback

from vf import ir
from vf.engine import AnalysisError
from vf.stream import (StreamEngine, check_integers, check_strings, check_pmap_write, check_pmap_read, check_input,
                       check_output, check_shrink)

TECH = ('Abstract interpretation of the LLVM IR clang resolves from the current sources: the position of the most '
        'significant bit of a number (or of the bytes of a buffer) is partitioned, everything below it stays symbolic '
        'with bit-precise provenance, and the bytes (or the value) that come out are compared with the transfer encoding '
        'of FAST 1.1; nothing is executed and no solver is used')


def engine(r):
    p = ir.program(ir.lib('core', 'coder') + [ir.driver('stream.cpp')], dce=True)
    r.unit(*p['units'])
    r.count('functions in scope', len(p['functions']))
    r.rule(TECH)
    return StreamEngine(p)


def part(f, e, r, *a):
    """what cannot be interpreted leaves the rest of the part undecided"""
    try:
        f(e, r, *a)
    except (AnalysisError, TypeError, KeyError, IndexError, AttributeError, ValueError) as x:
        traceback.print_exc()
        r.undecided('%s: %s %s' % (f.__name__, type(x).__name__, str(x)[:160]))


def w01(r):
    e = engine(r)
    r.rule('every value class of every integer type, nullable or not, NULL, canonical and one overlong group: exact bytes '
           'written, exact value read, exact number of bytes consumed')
    part(check_integers, e, r)


def w02(r):
    e = engine(r)
    r.rule('strings of symbolic characters: exact bytes written; exact characters, length and bytes consumed when read')
    part(check_strings, e, r, (0, 1, 2, 3, 7, 130) if r.tier == 'quick' else list(range(0, 20)) + [63, 64, 126, 127, 128, 129, 130, 300])


def w03(r):
    e = engine(r)
    r.rule('bit i written to a presence map is in byte i/7 position 6-i%7 of the output with the stop bit on the last byte; '
           'query i of a received map answers that bit, and clear beyond the map')
    big = r.tier != 'quick'
    part(check_pmap_write, e, r, range(1, 260 if big else 70))
    part(check_pmap_read, e, r, range(1, 60 if big else 24))


def w04(r):
    e = engine(r)
    r.rule('over a window of n unknown bytes every path of every decoding primitive reads inside the window, leaves the '
           'cursor inside it, hands out only strings inside it, or raises an error')
    part(check_input, e, r, range(0, 20 if r.tier != 'quick' else 12))


def w05(r):
    e = engine(r)
    r.rule('every path of the output primitives writes inside the buffer or raises an error, and the reported length is '
           'exactly what was written; removing overlong presence map bytes keeps everything before and after the map')
    part(check_output, e, r)
    part(check_shrink, e, r)
