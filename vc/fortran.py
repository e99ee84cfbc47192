"""The external Fortran routines: which use static memory, which change their arguments (from the compiler's tree dump)."""
import glob
import os
import re
import subprocess
import tempfile
from . import build

HEAD = re.compile(r'^(?:[a-z_][\w()=, ]*? )?(\w+) \((.*)\)$')


def dump():
    out = ''
    with tempfile.TemporaryDirectory() as d:
        for f in sorted(glob.glob(os.path.join(build.SRC, 'mh2l', '*.f')) + glob.glob(os.path.join(build.SRC, 'mh2l', '*.f90'))):
            r = subprocess.run(['gfortran', '-O0', '-c', '-fdump-tree-original'] + ([] if f.endswith('.f90') else ['-ffixed-line-length-none']) + [f, '-o', 'x.o'],
                               cwd=d, capture_output=True, text=True)
            if r.returncode:
                raise build.BuildError('gfortran: ' + r.stderr[-800:])
            for g in glob.glob(os.path.join(d, '*.original')):
                out += open(g, errors='replace').read() + '\n'
                os.remove(g)
    return out


class Routine:
    def __init__(self, name, params):
        self.name, self.params = name, params
        self.static, self.static_access, self.writes, self.calls = {}, set(), set(), []


def split_args(s):
    out, depth, cur = [], 0, ''
    for c in s:
        if c == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
            continue
        depth += c in '(<['
        depth -= c in ')>]'
        cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def routines(text=None):
    text = dump() if text is None else text
    fs = {}
    cur = None
    for l in text.split('\n'):
        if l and not l[0].isspace() and not l.startswith(('{', '}', '__attribute__')):
            m = HEAD.match(l.strip())
            if m:
                ps = [re.split(r'[ &*]+', a.strip())[-1] for a in split_args(m.group(2)) if a.strip() not in ('', 'void')]
                cur = fs[m.group(1)] = Routine(m.group(1), ps)
            continue
        if cur is None:
            continue
        s = l.strip()
        m = re.match(r'static (.+?) ([\w.]+)(?:\[[^]]*\])*( \[value-expr: (.*?)\]| = .*)?;', s)
        if m:
            const = re.match(r'[A-Z]\.\d+$', m.group(2)) or 'const ' in m.group(1) + ' '
            cur.static[m.group(2)] = not const
            continue
        m = re.match(r'\*(\w+)(?:\[.*?\])? = ', s) or re.match(r'\(\*(\w+)\)\[.*?\] = ', s)
        if m and m.group(1) in cur.params:
            cur.writes.add(m.group(1))
        m = re.match(r'(?:REALPART|IMAGPART)_EXPR <\*(\w+)> = ', s)
        if m and m.group(1) in cur.params:
            cur.writes.add(m.group(1))
        for n in re.findall(r'[A-Za-z_]\w*(?:\.\d+)?', s):
            if cur.static.get(n):
                cur.static_access.add(n)
        for m in re.finditer(r'\b(\w+) \(', s):
            if s.startswith('__attribute__') or m.group(1) in ('spec', '__complex__', 'if', 'else', 'goto', 'while', 'switch', 'return') or m.group(1).startswith('__builtin'):
                continue
            i, depth = m.end(), 1
            while i < len(s) and depth:
                depth += s[i] == '('
                depth -= s[i] == ')'
                i += 1
            cur.calls.append((m.group(1), split_args(s[m.end():i - 1])))
    # transitive closure
    changed = True
    for r in fs.values():
        r.state = {n for n in r.static_access}
        r.unknown = set()
    while changed:
        changed = False
        for r in fs.values():
            for n, args in r.calls:
                c = fs.get(n)
                if c is None:
                    r.unknown.add(n)
                    continue
                if not c.state <= r.state or not c.unknown <= r.unknown:
                    r.state |= c.state
                    r.unknown |= c.unknown
                    changed = True
                for a, p in zip(args, c.params):
                    if p in c.writes and a in r.params and a not in r.writes:
                        r.writes.add(a)
                        changed = True
    return fs


# inputs of each routine, by their names in the Fortran code (with aliases), in the order used by the contracts
S = ['t', 'mg|g', 't1', 't2', 'st', 'ct', 'q', 'mu', 'tanb|tb', 'vv|v2', 'gs']
DD = ['t', 'b', 'a0', 't1', 't2', 'b1', 'b2', 'st', 'ct', 'sb', 'cb', 'q', 'mu', 'tanb|tb', 'vv|v2']
TT = ['t', 'a0', 'bl', 't1', 't2', 'st', 'ct', 'q', 'mu', 'tanb|tb', 'vv|v2']
TB = [x for x in DD if x != 'a0']
EVEN = ['s11', 's12', 's22']
API = dict(dszhiggs=(S + ['os'], EVEN), dszodd=(S, ['dma']), ddshiggs=(DD + ['atat'], EVEN), ddsodd=(DD + ['atat'], ['dma']),
           tausqhiggs=(TT + ['os'], EVEN), tausqodd=(TT, ['dma']), taubot=(TB, EVEN), taubotodd=(TB, ['dma']))
INT = {'os', 'atat'}


def stubs():
    """contracts of the external routines: outputs are arbitrary functions of the inputs; parameter order, outputs and use of static memory as in the Fortran code"""
    fs = routines()
    out = 'extern "C" {\n'
    for n, (ins, outs) in API.items():
        r = fs.get(n)
        if r is None:
            raise build.BuildError('external routine %s not found' % n)
        name = {}
        for x in ins + outs:
            c = [p for p in x.split('|') if p in r.params]
            if len(c) != 1:
                raise build.BuildError('%s: no parameter %s' % (n, x))
            name[x] = c[0]
        if len(r.params) != len(name):
            raise build.BuildError('%s: unexpected parameters %s' % (n, r.params))
        if not set(name[x] for x in outs) <= r.writes:
            raise build.BuildError('%s does not set %s' % (n, outs))
        bad = r.writes - {name[x] for x in outs} - {'st', 'ct', 'sb', 'cb', 't1', 'b1', 'b2'}
        if bad:
            raise build.BuildError('%s changes its inputs %s' % (n, sorted(bad)))
        out += 'int %s_(%s)\n{\n   external(%s);\n' % (n, ', '.join(('int* ' if p in INT else 'double* ') + p for p in r.params), 'true' if not r.state else 'false')
        for x in outs:
            out += '   *%s = fn("%s %s", %s);\n' % (name[x], n, x, ', '.join('*' + name[y] for y in ins))
        out += '   return 0;\n}\n'
    return out + '}\n', fs
