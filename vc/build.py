"""Compiles the current sources of /repo and the contract harnesses to LLVM IR."""
import hashlib
import os
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HIMALAYA_REPO', '/repo')
SRC = os.path.join(REPO, 'source', 'himalaya')
BUILD = os.environ.get('VC_BUILD', os.path.join(VERIF, 'build'))

CXXFLAGS = ['-std=c++14', '-O2', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-ffp-contract=off',
            '-fno-math-errno', '-fno-pie', '-fno-pic', '-DEIGEN_DONT_VECTORIZE', '-DNDEBUG', '-w', '-include', os.path.join(VERIF, 'contracts', 'vc_pre.hpp'),
            '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'source'),
            '-I' + SRC, '-I' + os.path.join(VERIF, 'contracts', 'shim'), '-I/usr/include/eigen3']


class BuildError(Exception):
    pass


def _hash_tree():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, 'include'), os.path.join(REPO, 'source')):
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.hpp', '.h', '.inc', '.ipp')):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, 'rb').read())
    return h.hexdigest()


_hh = None


def headers_hash():
    global _hh
    if _hh is None:
        _hh = _hash_tree()
    return _hh


LLVM = '/usr/lib/llvm-18/bin/'


def _run(cmd, what):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('%s failed on %s\n%s' % (os.path.basename(cmd[0]), what, r.stderr[-3000:]))
    return r.stdout


def compile_ll(path, extra=(), std_flags=None, cut=()):
    """compile one C++ file to IR, cached by content; functions whose mangled name matches `cut` are removed before
    optimisation, so that their callers call the contract given in the harness"""
    flags = list(std_flags if std_flags is not None else CXXFLAGS) + list(extra)
    h = hashlib.sha256()
    h.update(headers_hash().encode())
    h.update('\0'.join(flags).encode())
    h.update('\0'.join(cut).encode())
    h.update(open(path, 'rb').read())
    if path.startswith(VERIF):
        h.update(open(os.path.join(VERIF, 'contracts', 'vc.hpp'), 'rb').read())
        for inc in re.findall(r'#include "(?:himalaya/)?(.*\.cpp)"', open(path).read()):
            h.update(open(os.path.join(SRC, inc), 'rb').read())
    h.update(open(os.path.join(VERIF, 'contracts', 'shim', 'Eigen', 'vc_shim.inc'), 'rb').read())
    h.update(b'bodies and aliases removed from the text')
    key = h.hexdigest()[:24]
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, os.path.basename(path) + '.' + key + '.bc')
    if not os.path.exists(out):
        tmp = out + '.tmp%d' % os.getpid()
        src = path
        if cut:
            raw = tmp + '.raw.bc'
            _run([LLVM + 'clang++'] + flags + ['-Xclang', '-disable-llvm-passes', '-c', '-emit-llvm', path, '-o', raw], path)
            names = [n for n in _run([LLVM + 'llvm-nm', '--defined-only', '--format=just-symbols', raw], path).split()
                     if any(re.search(c, n) for c in cut)]
            if names:
                _run([LLVM + 'llvm-dis', raw, '-o', raw + '.ll'], path)
                t = without_bodies(open(raw + '.ll').read(), set(names))
                open(raw + '.ll', 'w').write(t)
                _run([LLVM + 'llvm-as', raw + '.ll', '-o', raw], path)
                os.remove(raw + '.ll')
            ir_flags = [f for f in ('-O2', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-pie', '-fno-pic', '-w')]
            _run([LLVM + 'clang++'] + ir_flags + ['-x', 'ir', raw, '-c', '-emit-llvm', '-o', tmp], path)
            os.remove(raw)
        else:
            _run([LLVM + 'clang++'] + flags + ['-c', '-emit-llvm', src, '-o', tmp], path)
        os.replace(tmp, out)
    return out


def without_bodies(text, names):
    """turn the definitions of the named functions into declarations"""
    out, skip, alias = [], False, {}
    for m in re.finditer(r'^@("[^"]*"|[\w.$]+) = .*\balias .*ptr @("[^"]*"|[\w.$]+)$', text, re.M):
        if m.group(2).strip('"') in names:
            alias.setdefault(m.group(2), []).append(m.group(1))
    for l in text.split('\n'):
        if alias and ' alias ' in l and any(l.startswith('@%s = ' % a) for x in alias.values() for a in x):
            continue
        if skip:
            skip = l != '}'
            continue
        m = re.match(r'define .*?@("[^"]*"|[\w.$]+)\(', l)
        if m and m.group(1).strip('"') in names:
            i, depth = m.end(), 1
            while depth:
                depth += l[i] == '('
                depth -= l[i] == ')'
                i += 1
            head = re.sub(r'^define (?:(?:linkonce_odr|weak_odr|linkonce|weak|internal|dso_local|hidden|noundef) )*', 'declare ', l[:i])
            out.append(head)
            out += [head.replace('@' + m.group(1), '@' + a) for a in alias.get(m.group(1), ())]
            skip = True
            continue
        out.append(l)
    return '\n'.join(out)


def link(files, extra_per_file=None, opt=None, cut=()):
    """compile (in parallel), llvm-link, disassemble; returns path of the .ll"""
    def one(f):
        return compile_ll(f, (extra_per_file or {}).get(f, ()), cut=cut if f.startswith(REPO) else ())
    with ThreadPoolExecutor(8) as ex:
        bcs = list(ex.map(one, files))
    key = hashlib.sha256('\0'.join(bcs + list(opt or [])).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, 'link.' + key + '.ll')
    if not os.path.exists(out):
        tmp = out + '.tmp%d' % os.getpid()
        r = subprocess.run(['/usr/lib/llvm-18/bin/llvm-link', '-S'] + bcs + ['-o', tmp], capture_output=True, text=True)
        if r.returncode:
            raise BuildError('llvm-link failed\n' + r.stderr[-3000:])
        if opt:
            r = subprocess.run(['/usr/lib/llvm-18/bin/opt', '-S'] + list(opt) + [tmp, '-o', tmp + '.o'], capture_output=True, text=True)
            if r.returncode:
                raise BuildError('opt failed\n' + r.stderr[-3000:])
            os.replace(tmp + '.o', tmp)
        os.replace(tmp, out)
    return out


def src(*names):
    return [os.path.join(SRC, n) for n in names]


def all_sources():
    """the C++ library sources as listed by the project's CMakeLists.txt"""
    txt = open(os.path.join(REPO, 'CMakeLists.txt')).read()
    fs = re.findall(r'\$\{SOURCE_PATH\}/([A-Za-z0-9_/]+\.cpp)', txt)
    return [f for f in fs if 'LibraryLink' not in f]


def undefined(ll):
    """declared but not defined functions of a linked module"""
    return re.findall(r'^declare [^@]*@"?([\w.$]+)"?\(', open(ll).read(), re.M)


def definers(names, files, cut=()):
    """library sources that define one of the functions"""
    names = set(names)
    with ThreadPoolExecutor(8) as ex:
        bcs = list(ex.map(lambda f: compile_ll(f, cut=cut), files))
    out = []
    for f, b in zip(files, bcs):
        r = subprocess.run(['/usr/lib/llvm-18/bin/llvm-nm', '--defined-only', '--format=just-symbols', b], capture_output=True, text=True)
        if names & set(r.stdout.split()):
            out.append(f)
    return out


def generated(template, text, name=None):
    """contracts/<template> with GENERATED replaced, written to build/"""
    t = open(os.path.join(VERIF, 'contracts', template)).read().replace('GENERATED', text)
    os.makedirs(BUILD, exist_ok=True)
    p = os.path.join(BUILD, name or template.split('.')[0] + '_gen.cpp')
    if not os.path.exists(p) or open(p).read() != t:
        tmp = p + str(os.getpid())
        open(tmp, 'w').write(t)
        os.replace(tmp, p)
    return p
