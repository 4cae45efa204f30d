"""Compiles /repo's current sources to LLVM bitcode and dumps normalised IR."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import pickle
import shutil
import time
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DYSCO_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
TOOL = os.path.join(BUILD, 'irdump')
CLANG = 'clang++-18'
FLAGS = ['-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-DNDEBUG',
         '-isystem', os.path.join(VERIF, 'vfw', 'include'), '-I/usr/include/casacore', '-I' + REPO, '-fPIC', '-Wno-everything']


class AnalysisError(Exception):
    """The analysis can not be carried out (anchor vanished)."""


class BuildError(Exception):
    """The sources can not be compiled."""


def repo_sources():
    fs = sorted(glob.glob(os.path.join(REPO, '*.cc')) + glob.glob(os.path.join(REPO, '*.cpp')) +
                glob.glob(os.path.join(REPO, '*.h')))
    return fs


def source_hash(extra=()):
    h = hashlib.sha256()
    for f in list(repo_sources()) + list(extra) + [TOOL] + sorted(glob.glob(os.path.join(VERIF, 'vfw', 'include', 'bits', '*'))) + [__file__]:
        h.update(os.path.basename(f).encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
        h.update(b'\0')
    return h.hexdigest()[:24]


def ensure_tool():
    if not os.path.exists(TOOL):
        subprocess.check_call([os.path.join(VERIF, 'tools', 'build.sh')])


_tmp = None


def cache_dir():
    """Directory for the products of this state of the sources."""
    ensure_tool()
    d = os.path.join(BUILD, 'cache', source_hash())
    if not os.path.isdir(d):
        root = os.path.join(BUILD, 'cache')
        if os.path.isdir(root):
            def age(x):
                try:
                    return os.path.getmtime(x)
                except OSError:     # removed by another run
                    return time.time()
            olds = sorted((os.path.join(root, x) for x in os.listdir(root)), key=age)
            for o in olds[:-8]:
                if time.time() - age(o) > 1200:
                    shutil.rmtree(o, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
    try:
        os.utime(d)
    except OSError:
        pass
    return d


MAINS = ('decompress.cc', 'dscompress.cc')


def library_units():
    return [f for f in repo_sources() if f.endswith(('.cc', '.cpp')) and os.path.basename(f) not in MAINS]


def compile_units(units):
    d = cache_dir()

    def one(u):
        o = os.path.join(d, os.path.basename(u) + ('' if u.startswith(REPO) else '.h' + hashlib.sha256(open(u, 'rb').read()).hexdigest()[:8]) + '.bc')
        if os.path.exists(o):
            return o
        t = o + '.%d' % os.getpid()
        r = subprocess.run([CLANG] + FLAGS + ['-emit-llvm', '-c', u, '-o', t], stderr=subprocess.PIPE, text=True)
        if r.returncode != 0:
            raise BuildError('can not compile %s:\n%s' % (u, r.stderr[-3000:]))
        os.replace(t, o)
        return o
    with cf.ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, units))


def dump(units, args, tag):
    """Runs irdump over the units; returns the decoded JSON."""
    d = cache_dir()
    bcs = compile_units(units)
    key = hashlib.sha256(json.dumps([[os.path.basename(b) for b in bcs], args]).encode()).hexdigest()[:16]
    p = os.path.join(d, '%s.%s.pickle' % (tag, key))
    if os.path.exists(p):
        with open(p, 'rb') as f:
            return pickle.load(f)
    j = p + '.%d.json' % os.getpid()
    r = subprocess.run([TOOL] + bcs + ['-o', j] + args, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise BuildError('irdump failed: ' + r.stderr[-3000:])
    with open(j) as f:
        m = json.load(f)
    os.unlink(j)
    with open(p + '.t%d' % os.getpid(), 'wb') as f:
        pickle.dump(m, f, protocol=4)
    os.replace(p + '.t%d' % os.getpid(), p)
    return m
