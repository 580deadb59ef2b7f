"""Builds the resolved program (LLVM IR) from /repo's current sources."""
import glob
import hashlib
import json
import os
import pickle
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.environ.get('VF_BUILD', os.path.join(VERIF, 'build'))
LLVM = '/usr/lib/llvm-18/bin'
FLAGS = ['-std=c++14', '-DSIZEOF_VOID_P=8', '-DMFAST_STATIC_DEFINE', '-DMFAST_CODER_STATIC_DEFINE',
         '-DMFAST_JSON_STATIC_DEFINE', '-DMFAST_XML_PARSER_STATIC_DEFINE', '-DMFAST_SQLITE3_STATIC_DEFINE',
         '-DNDEBUG', '-g1', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-inline', '-w', '-fno-discard-value-names',
         '-ferror-limit=5']
PASSES = 'sroa,simplifycfg'


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout


def hash_tree(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for root, dirs, files in os.walk(p):
                dirs.sort()
                if '.git' in dirs:
                    dirs.remove('.git')
                for f in sorted(files):
                    fp = os.path.join(root, f)
                    h.update(fp.encode())
                    with open(fp, 'rb') as fh:
                        h.update(fh.read())
        elif os.path.exists(p):
            h.update(p.encode())
            with open(p, 'rb') as fh:
                h.update(fh.read())
    return h.hexdigest()[:24]


def tool():
    src = os.path.join(VERIF, 'tool', 'irdump.cpp')
    out = os.path.join(BUILD, 'irdump-' + hash_tree([src]))
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    cf = sh([LLVM + '/llvm-config', '--cxxflags']).split()
    cf = [c for c in cf if not c.startswith('-std=')]
    lf = sh([LLVM + '/llvm-config', '--ldflags']).split()
    tmp = out + '.%d' % os.getpid()
    sh(['clang++', '-O1', '-std=c++17'] + cf + [src, '-o', tmp] + lf + ['-lLLVM-18'])
    os.rename(tmp, out)
    return out


_src_hash = None


def src_hash():
    global _src_hash
    if _src_hash is None:
        _src_hash = hash_tree([os.path.join(REPO, 'src')])
    return _src_hash


def compile_one(src, extra, outdir):
    key = hashlib.sha256((src_hash() + src + hash_tree([src]) + ' '.join(FLAGS + list(extra)) + PASSES +
                          hash_tree([os.path.join(VERIF, 'drivers')] if src.startswith(VERIF) else [])).encode()).hexdigest()[:24]
    ll = os.path.join(outdir, key + '.bc')
    if not os.path.exists(ll):
        tmp = ll + '.%d.tmp' % os.getpid()
        sh(['clang++'] + FLAGS + list(extra) + ['-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(VERIF, 'drivers'),
            '-emit-llvm', '-c', src, '-o', tmp])
        tmp2 = ll + '.%d.opt' % os.getpid()
        sh([LLVM + '/opt', '-passes=' + PASSES, tmp, '-o', tmp2])
        os.unlink(tmp)
        os.rename(tmp2, ll)
    return ll


DIRS = {
    'core': ['mfast', 'mfast/instructions'],
    'coder': ['mfast/coder/*'],
    'json': ['mfast/json'],
    'xml': ['mfast/xml_parser'],
    'sqlite': ['mfast/sqlite3'],
    'gen': ['fast_type_gen'],
}


def lib(*names):
    """every .cpp of the named libraries, as found in the tree now"""
    r = []
    for n in names:
        for d in DIRS[n]:
            r += sorted(glob.glob(os.path.join(REPO, 'src', d, '*.cpp')))
    return [os.path.relpath(x, os.path.join(REPO, 'src')) for x in r]


def driver(n):
    return os.path.join(VERIF, 'drivers', n)


def program(srcs, extra=(), name='prog', dce=False):
    """compile + link + dump; srcs relative to /repo/src or absolute.
    dce: keep only what the drivers (absolute sources) reach"""
    t0 = time.time()
    td = tool()
    outdir = os.path.join(BUILD, 'ir')
    os.makedirs(outdir, exist_ok=True)
    ab = [s if s.startswith('/') else os.path.join(REPO, 'src', s) for s in srcs]
    for a in ab:
        if not os.path.exists(a):
            raise BuildError('source vanished: ' + a)
    with ThreadPoolExecutor(8) as ex:
        lls = list(ex.map(lambda s: compile_one(s, extra, outdir), ab))
    key = hashlib.sha256((' '.join(lls) + td + str(dce)).encode()).hexdigest()[:24]
    pk = os.path.join(outdir, key + '.pickle')
    if not os.path.exists(pk):
        linked = os.path.join(outdir, key + '.%d.linked.bc' % os.getpid())
        js = os.path.join(outdir, key + '.%d.json' % os.getpid())
        sh([LLVM + '/llvm-link'] + lls + ['-o', linked])
        if dce:
            keep = []
            for a, l in zip(ab, lls):
                if a.startswith(VERIF):
                    keep += [x.split()[-1] for x in sh([LLVM + '/llvm-nm', '--defined-only', l]).splitlines()
                             if x.split()[-1].startswith('vf_')]
            lst = linked + '.api'
            with open(lst, 'w') as fh:
                fh.write('\n'.join(keep) + '\n')
            sh([LLVM + '/opt', '-passes=internalize,globaldce', '-internalize-public-api-file=' + lst, linked, '-o', linked])
            os.unlink(lst)
        sh([td, linked, js])
        with open(js) as fh:
            prog = json.load(fh)
        os.unlink(linked)
        os.unlink(js)
        tmp = pk + '.%d' % os.getpid()
        with open(tmp, 'wb') as fh:
            pickle.dump(prog, fh, protocol=4)
        os.rename(tmp, pk)
    else:
        with open(pk, 'rb') as fh:
            prog = pickle.load(fh)
    prog['units'] = [os.path.relpath(a, REPO) if a.startswith(REPO) else os.path.relpath(a, VERIF) for a in ab]
    prog['build_s'] = time.time() - t0
    return prog
