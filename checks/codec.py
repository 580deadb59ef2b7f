"""Operator semantics of the codecs (C01..C04, C05, C06, M01)."""
from vf import ir, ops
from vf.fast import FastEngine

KINDS = ['i32', 'u32', 'i64', 'u64', 'dec', 'ascii', 'unicode', 'bytes']

TECH = ('Abstract interpretation of the LLVM IR clang resolves from the current sources (virtual dispatch through '
        'the operator tables included): one abstract state per path over presence/typestate of field, initial value '
        'and dictionary entry, value provenance (which source each byte or number comes from) and exact affine '
        'arithmetic; nothing is executed and no solver is used')

ASSUME = ['lengths of strings are below 2^31 (the capacity of value_storage)',
          'the stream primitives (integer/string transfer) have the contract checked under W01..W05',
          'allocation does not fail']


def decoders(r):
    for api, drv in (('dec1', 'dec_v1.cpp'), ('dec2', 'dec_v2.cpp')):
        p = ir.program(ir.lib('core', 'coder') + [ir.driver(drv)], dce=True)
        r.unit(*p['units'])
        e = FastEngine(p)
        e.SOFT = True
        e.dec1_extra = ()
        yield api, e, ops.check_decoder(e, api, KINDS)


def encoders(r):
    for api, drv in (('enc1', 'enc_v1.cpp'), ('enc2', 'enc_v2.cpp')):
        p = ir.program(ir.lib('core', 'coder') + [ir.driver(drv)], dce=True)
        r.unit(*p['units'])
        e = FastEngine(p)
        e.SOFT = True
        yield api, e, ops.check_encoder(e, api, KINDS)


def _basic(r, api, res):
    r.count('operator configurations (%s)' % api, res['configs'])
    r.count('paths interpreted (%s)' % api, res['paths'])
    r.ok(res['paths'] - len(res['undecided']))
    for c, txt in res['undecided']:
        r.undecided('%s: %s' % (c.name(), txt))
    if not r.assume:
        r.rule(TECH)
        for a in ASSUME:
            r.assumption(a)


def _mem(r, api, res):
    for c, ev, det, wh in res['mem']:
        r.violation('%s %s %s | %s %s' % (api, c.kind, c.op, ev, det), '%s: %s' % (ev, det), wh)


def _dec(r, aspects):
    for api, e, res in decoders(r):
        _basic(r, api, res)
        for c, asp, txt, wh in res['results']:
            if asp in aspects:
                r.violation('%s | %s' % (c.name(), asp), txt, wh)
        for c in list(ops.configs(api, ['i32', 'ascii']))[::40]:
            r.sample(c.name())


FAMILY = {'tail-short': 'tail value shorter than the base', 'default-absent': 'default absent with initial value'}


def _enc(r, aspects):
    for api, e, res in encoders(r):
        _basic(r, api, res)
        for c, asp, txt, wh in res['results']:
            if asp in aspects:
                if asp in FAMILY:
                    r.violation('%s | %s' % (api, FAMILY[asp]), txt, wh)
                else:
                    r.violation('%s | %s' % (c.name(), asp), txt, wh)
        for c in list(ops.enc_configs(api, ['i32', 'ascii']))[::40]:
            r.sample(c.name())


def c01(r):
    r.rule('for every operator x presence x initial value x dictionary state x field type, each decoding path must '
           'give the field the value (or absence) of the FAST 1.1 operator table')
    _dec(r, ('value',))


def c02(r):
    r.rule('on each decoding path the dictionary entry must end in the state and value of the FAST 1.1 operator table')
    _dec(r, ('prev',))


def c03(r):
    r.rule('what each encoding path writes (presence bits, NULLs, values, nullability, width), put through the decoder '
           'operator table, must give back the field value or absence; a delta is the exact difference; no error '
           'for an encodable value')
    _enc(r, ('wire', 'error', 'tail-short', 'default-absent'))


def c04(r):
    r.rule('on each encoding path the encoder dictionary entry must end in the state and value a decoder reading that '
           'output ends in')
    _enc(r, ('prev',))


def c05(r):
    r.rule('a decoding path raises exactly the dynamic error code the operator table demands, and none otherwise')
    _dec(r, ('error',))


def c06(r):
    r.rule('each decoding path consumes presence map bits and stream values exactly in the order and number the '
           'operator, presence and type demand')
    _dec(r, ('bits',))


def m01(r):
    r.rule('typestate of every buffer (owned/borrowed/released) along every codec path: no read of released content, no '
           'double release, no release of borrowed content, no access beyond a known extent; the dictionary never refers '
           'to the message\'s own buffer after encoding')
    for api, e, res in decoders(r):
        _basic(r, api, res)
        _mem(r, api, res)
    for api, e, res in encoders(r):
        _basic(r, api, res)
        _mem(r, api, res)
        r.count('extent obligations (%s)' % api, res['ranges'])
        for c, asp, txt, wh in res['results']:
            if asp == 'alias':
                r.violation('%s | alias' % c.name(), txt, wh)
