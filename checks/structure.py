"""Whole messages: segments, groups, sequences, nested messages, template identification (C07..C09, M02)."""
from vf import ir
from vf import walk

TECH = ('Path-partitioned abstract interpretation of the LLVM IR of the public codec interface over whole messages; the '
        'stream is abstracted to its grammar (which presence map, which bit, NULL or value, lengths 0..2, template '
        'identifiers), values stay abstract, and a recursive-descent acceptor of the FAST 1.1 message grammar written '
        'from the template definitions decides the token sequence and the field tree of every path; nothing is executed '
        'and no solver is used')
GROUPS, SEQS, LENOPS, DYN, STAT, VECS, SPLIT, RESET, TYPES, DEEP, DYNSEQ, LEAF, BARE, BOXED = 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 21, 22, 23
ALL = [SEQS, LENOPS, GROUPS, BOXED, VECS, SPLIT, TYPES, RESET, STAT, LEAF, BARE, DEEP]
SC = [([0], 0), ([1], 1), ([0, 1], 0)]
SC2 = SC + [([1, 0, 2], 0), ([2, 1], 1), ([0, 0, 1], 1)]


def program(r):
    p = ir.program(ir.lib('core', 'coder') + [ir.driver('walk.cpp')], dce=True)
    r.unit(*p['units'])
    r.count('functions in scope', len(p['functions']))
    r.rule(TECH)
    r.assumption('the bit and value primitives behave as checked under W01..W05, the operators on single fields as under C01..C06')
    r.assumption('sequence and vector lengths 0, 1, 2 and two levels of dynamic nesting represent the others')
    return p


def collect(r, res, aspects=None):
    fns = set()
    for x in res:
        r.ok(x.paths - len(x.bad))
        r.count('paths interpreted', x.paths)
        r.count('paths beyond the nesting bound', x.bounded)
        fns.update(getattr(x, 'fns', ()))
        for (asp, g), (txt, wh) in sorted(x.bad.items()):
            r.violation('%s | %s | %s' % (x.name, asp, g), '%s: %s' % (x.name, txt), wh)
        for t, n in x.und.items():
            r.undecided('%s: %s (%d)' % (x.name, t, n))
        for u in x.unknown:
            r.undecided('%s: unmodelled %s' % (x.name, u))
        r.sample('%s: %d paths' % (x.name, x.paths))
    r.count('functions interpreted', len(fns))


def c07(r):
    p = program(r)
    deep = r.tier != 'quick'
    sc = SC2 if deep else SC
    jobs = []
    for api in ('dec1', 'dec2'):
        jobs.append(('t_decode', (api, DYN, sc[:1], 3, (LEAF, BOXED, BARE), ())))
        jobs.append(('t_decode', (api, DYNSEQ, sc[:1], 4 if deep else 3, (LEAF,))))
        for t in ALL:
            jobs.append(('t_decode', (api, t, sc)))
    r.rule('decoding: one bit per field that needs one, in the map of its own segment; a segment map is read exactly when '
           'the group or element needs bits; lengths, elements, nested targets and absence come out as transmitted, for '
           'a first message and for a message after it')
    collect(r, walk.run_jobs(p, jobs))


def c08(r):
    p = program(r)
    deep = r.tier != 'quick'
    sc = SC2 if deep else SC
    jobs = []
    for api in ('enc1', 'enc2'):
        jobs.append(('t_encode', (api, DYN, sc[:1], (LEAF, BOXED, BARE, RESET))))
        jobs.append(('t_encode', (api, DYNSEQ, sc[:1], (LEAF, BARE))))
        for t in ALL:
            jobs.append(('t_encode', (api, t, sc)))
    r.rule('encoding: what is written is read back by the message grammar as the same field tree; every presence map is '
           'written exactly once, after its last bit, in a reservation that holds all its bits')
    collect(r, walk.run_jobs(p, jobs))


def c09(r):
    p = program(r)
    jobs = []
    deep = r.tier != 'quick'
    for api in ('dec1', 'dec2', 'enc1', 'enc2'):
        jobs.append(('t_stream', (api, (LEAF, RESET), (LEAF, RESET, BARE), 3 if deep else 2, (0, 1))))
        jobs.append(('t_stream', (api, (LEAF,), (LEAF, BARE), 3, (0, 1))))
        jobs.append(('t_stream', (api, (LEAF, BARE, RESET), (LEAF, BARE, RESET, BOXED), 2, (0,))))
        if api.startswith('dec'):
            jobs.append(('t_decode', (api, DYN, [], 3 if deep else 2, (LEAF, RESET), (BARE,))))
            jobs.append(('t_stream', (api, (DYN, BARE), (DYN, BARE, LEAF), 2, (0,), (), 3 if deep else 2)))
        else:
            jobs.append(('t_encode', (api, DYN, SC[:2], (LEAF, RESET))))
            jobs.append(('t_stream', (api, (DYN, BARE), (DYN, BARE, LEAF), 3 if deep else 2, (0,), (BARE,))))
            jobs.append(('t_stream', (api, (DYN, LEAF), (DYN,), 2, (0,), (LEAF, BARE))))
    r.rule('a template identifier selects exactly that template and stays active for messages without one; an unknown or '
           'missing template is error D9; the dictionary is reset exactly when the template or the caller demands it')
    collect(r, walk.run_jobs(p, jobs))


def m02(r):
    p = program(r)
    deep = r.tier != 'quick'
    jobs = []
    for api in ('dec1', 'dec2', 'enc1'):
        for t in (BOXED, SEQS, GROUPS, VECS, TYPES, LENOPS, DEEP):
            if deep or (t in (SEQS, DEEP) and api != 'dec2'):
                jobs.append(('t_life', (api, t, [1, 0], 99, (), 56)))
            for sc in ([1], [0], [2, 0, 1], [0, 1]) if r.tier != 'quick' else ([1], [0]) if t != DEEP else ([1], [2, 0]):
                jobs.append(('t_life', (api, t, sc)))
        for sc in ([0], [1]):
            jobs.append(('t_life', (api, DYN, sc, 3, (LEAF, BOXED))))
        jobs.append(('t_life', (api, DYNSEQ, [0, 2], 4 if deep else 3, (LEAF, BOXED) if deep else (BOXED,))))
    r.rule('storage of a message with groups, sequences, vectors, strings and nested messages: a copy is equal and '
           'independent, and after destruction everything allocated is released exactly once and nothing is used after '
           'release, whatever the message held before')
    collect(r, walk.run_jobs(p, jobs))
