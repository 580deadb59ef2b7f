"""JSON rendering and reading of messages (J01, J02)."""
from vf import ir
from vf import js
from .dictionary import collect

TECH = ('Abstract interpretation of the LLVM IR of the JSON encoder and decoder together with generated message types: numbers, '
        'characters and bytes are symbols, streams are sequences of items; the text of every path is compared with the rendering '
        'of the content of the message read through the public references, and the content after decoding with the value the text '
        'denotes; nothing is executed and no solver is used')


def program(r):
    p = ir.program(ir.lib('core', 'json') + [ir.driver('json.cpp')], dce=True)
    r.unit(*p['units'])
    r.count('functions in scope', len(p['functions']))
    r.rule(TECH)
    r.assumption('standard streams and strings behave as specified')
    return p


def j01(r):
    p = program(r)
    r.rule('every path renders exactly the present, unmasked fields in order as one well-formed JSON value, with every character '
           'and byte of the content and nothing from outside of it')
    collect(r, js.run_jobs(p, js.encode_jobs(r.tier != 'quick')), js.ENC_WHERE)


def j02(r):
    p = program(r)
    r.rule('every path over well-formed text leaves the fields the text names with the values it denotes and all other optional fields '
           'absent; every path over malformed, cut off or out-of-range text ends in an error; storage is used only within bounds')
    collect(r, js.run_jobs(p, js.decode_jobs(r.tier != 'quick')), js.DEC_WHERE)
