"""Parser for the subset of textual LLVM IR (clang/opt 18) that the sources of
/repo compile to.  Produces plain Python structures; no semantics here."""
import re

# ---------------------------------------------------------------- types
# 'iN' -> ('i',N); 'double' -> ('d',); 'ptr' -> ('p',); 'void' -> ('v',)
# struct -> ('s',(types),packed); array -> ('a',n,t); vector -> ('vec',n,t)
D = ('d',)
P = ('p',)
V = ('v',)
_icache = {}


def I(n):
    t = _icache.get(n)
    if t is None:
        t = _icache[n] = ('i', n)
    return t


class IRError(Exception):
    pass


TOK = re.compile(r'''\s*(c"(?:[^"\\]|\\..)*"|"(?:[^"\\]|\\.)*"|[%@][-a-zA-Z$._0-9]+|[%@]"[^"]*"|\.\.\.|[-+]?[0-9]+\.[0-9]+(?:e[-+]?[0-9]+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?[0-9]+|![a-zA-Z_.0-9]*|\#[0-9]+|[a-zA-Z_$.][a-zA-Z_$.0-9]*|.)''')


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        mm = m(s, pos)
        if mm is None:
            break
        t = mm.group(1)
        if t == ';':
            break
        if t.strip():
            out.append(t)
        pos = mm.end()
    return out


def unq(n):
    if len(n) > 1 and n[1] == '"':
        return n[0] + n[2:-1]
    return n


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}     # name -> dict(init, ty, const)
        self.funcs = {}       # name -> Function (parsed lazily)
        self.decls = set()
        self._layout = {}

    # ------------------------------------------------------------ layout
    def resolve(self, t):
        while isinstance(t, str):
            t = self.types[t]
        return t

    def size_align(self, t):
        r = self._layout.get(t)
        if r is not None:
            return r
        tt = self.resolve(t)
        k = tt[0]
        if k == 'i':
            n = tt[1]
            b = max(1, (n + 7) // 8)
            a = 1
            while a < b:
                a *= 2
            r = (a if n > 64 or b in (1, 2, 4, 8) else a, min(a, 16))
        elif k == 'd' or k == 'p':
            r = (8, 8)
        elif k == 'f':
            r = (4, 4)
        elif k == 'x86':
            r = (16, 16)
        elif k == 'a':
            s, a = self.size_align(tt[2])
            r = (tt[1] * s, a)
        elif k == 'vec':
            s, a = self.size_align(tt[2])
            r = (tt[1] * s, tt[1] * s)
        elif k == 's':
            off = 0
            al = 1
            for f in tt[1]:
                s, a = self.size_align(f)
                if tt[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            off = (off + al - 1) // al * al
            r = (off, al)
        else:
            raise IRError('size of %r' % (tt,))
        self._layout[t] = r
        return r

    def field_offset(self, t, idx):
        tt = self.resolve(t)
        off = 0
        for i, f in enumerate(tt[1]):
            s, a = self.size_align(f)
            if tt[2]:
                a = 1
            off = (off + a - 1) // a * a
            if i == idx:
                return off, f
            off += s
        raise IRError('field')


class Function:
    __slots__ = ('name', 'params', 'ret', 'lines', 'blocks', 'entry', 'module', 'src', 'linkage', 'sret')

    def __init__(self, name):
        self.name = name
        self.blocks = None


PARAM_ATTR = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'signext',
              'zeroext', 'immarg', 'returned', 'inreg', 'noalias', 'nofree', 'swiftself', 'allocptr', 'allocalign',
              'dead_on_unwind', 'writable', 'inalloca', 'nest'}


class TS:
    """token stream"""
    __slots__ = ('t', 'i')

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.eat(x):
            raise IRError('expected %r at %r' % (x, ' '.join(self.t[max(0, self.i - 5):self.i + 5])))

    def skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1


def parse_type(ts):
    x = ts.next()
    if x == 'double':
        t = D
    elif x == 'ptr':
        t = P
        if ts.peek() == 'addrspace':
            raise IRError('addrspace')
    elif x == 'void':
        t = V
    elif x == 'float':
        t = ('f',)
    elif x == 'x86_fp80':
        t = ('x86',)
    elif x == 'metadata':
        t = ('md',)
    elif x == 'label':
        t = ('label',)
    elif x == 'token':
        t = ('token',)
    elif x == 'opaque':
        t = ('s', (), False)
    elif x[0] == 'i' and x[1:].isdigit():
        t = I(int(x[1:]))
    elif x == '[':
        n = int(ts.next())
        ts.expect('x')
        e = parse_type(ts)
        ts.expect(']')
        t = ('a', n, e)
    elif x == '<' and ts.peek() == '{':
        ts.next()
        fs = []
        while not ts.eat('}'):
            fs.append(parse_type(ts))
            ts.eat(',')
        ts.expect('>')
        t = ('s', tuple(fs), True)
    elif x == '<':
        n = int(ts.next())
        ts.expect('x')
        e = parse_type(ts)
        ts.expect('>')
        t = ('vec', n, e)
    elif x == '{':
        fs = []
        while not ts.eat('}'):
            fs.append(parse_type(ts))
            ts.eat(',')
        t = ('s', tuple(fs), False)
    elif x[0] == '%':
        t = unq(x)
    else:
        raise IRError('type %r in %r' % (x, ' '.join(ts.t[:20])))
    # function type  "double (double, ...)"
    if ts.peek() == '(' and t is not None and _looks_like_fnty(ts):
        ts.skip_paren()
        return ('fn', t)
    return t


def _looks_like_fnty(ts):
    n = ts.peek(1)
    if n is None:
        return False
    return n in (')', '...', 'ptr', 'double', 'void', 'float', '{', '[') or (n[0] == 'i' and n[1:].isdigit()) or n[0] == '%'


# operands: ('r',name) register ; ('c',int) ; ('fd',float) ; ('g',name) ; ('null',) ; ('undef',)
#           ('zero',) ; ('agg',[(ty,op)]) ; ('str',bytes) ; ('ce',opname,...)
def parse_value(ts, ty):
    x = ts.next()
    c = x[0]
    if c == '%':
        return ('r', unq(x)[1:])
    if c == '@':
        return ('g', unq(x)[1:])
    if x == 'true':
        return ('c', 1)
    if x == 'false':
        return ('c', 0)
    if x == 'null':
        return ('null',)
    if x in ('undef', 'poison'):
        return ('undef',)
    if x == 'zeroinitializer':
        return ('zero',)
    if x == 'none':
        return ('undef',)
    if c == 'c' and x.startswith('c"'):
        return ('str', unesc(x[2:-1]))
    if x.startswith('0x') and ty == D:
        import struct
        return ('fd', struct.unpack('>d', bytes.fromhex(x[2:].rjust(16, '0')))[0])
    if ty == D and (c.isdigit() or c in '-+'):
        return ('fd', float(x))
    if c.isdigit() or (c == '-' and len(x) > 1):
        if x.startswith('0x'):
            return ('undef',)
        return ('c', int(x))
    if x in ('[', '{'):
        close = ']' if x == '[' else '}'
        l = []
        while not ts.eat(close):
            et = parse_type(ts)
            l.append((et, parse_value(ts, et)))
            ts.eat(',')
        return ('agg', l)
    if x == '<':
        l = []
        if ts.eat('{'):
            while not ts.eat('}'):
                et = parse_type(ts)
                l.append((et, parse_value(ts, et)))
                ts.eat(',')
            ts.expect('>')
            return ('agg', l)
        while not ts.eat('>'):
            et = parse_type(ts)
            l.append((et, parse_value(ts, et)))
            ts.eat(',')
        return ('agg', l)
    if x == 'getelementptr':
        while ts.peek() in ('inbounds', 'nuw', 'nusw'):
            ts.next()
        if ts.peek() == 'inrange':
            ts.next()
            ts.skip_paren()
        ts.expect('(')
        bt = parse_type(ts)
        ts.expect(',')
        pt = parse_type(ts)
        pv = parse_value(ts, pt)
        idx = []
        while ts.eat(','):
            ts.eat('inrange')
            it = parse_type(ts)
            idx.append((it, parse_value(ts, it)))
        ts.expect(')')
        return ('ce', 'gep', bt, pv, idx)
    if x in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc'):
        ts.expect('(')
        t1 = parse_type(ts)
        v = parse_value(ts, t1)
        ts.expect('to')
        t2 = parse_type(ts)
        ts.expect(')')
        return ('ce', x, t1, v, t2)
    if x in ('sub', 'add', 'mul', 'icmp', 'select', 'xor', 'and', 'or', 'shl'):
        while ts.peek() != '(':
            ts.next()
        ts.skip_paren()
        return ('undef',)
    raise IRError('value %r in %r' % (x, ' '.join(ts.t[max(0, ts.i - 8):ts.i + 8])))


def unesc(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


FLAGS = {'nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'inbounds',
         'disjoint', 'nneg', 'volatile', 'tail', 'musttail', 'notail', 'samesign', 'nusw', 'atomic'}
BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'bitcast', 'inttoptr', 'ptrtoint',
        'fptrunc', 'fpext'}


def parse_ret_attrs(ts):
    while True:
        x = ts.peek()
        if x in PARAM_ATTR or x in ('fastcc', 'ccc', 'coldcc', 'internal', 'dso_local', 'linkonce_odr', 'hidden',
                                    'unnamed_addr', 'local_unnamed_addr', 'weak_odr', 'private', 'protected',
                                    'external', 'weak', 'available_externally', 'linkonce', 'dllimport'):
            ts.next()
        elif x in ('align',):
            ts.next()
            if ts.peek() == '(':
                ts.skip_paren()
            else:
                ts.next()
        elif x in ('dereferenceable', 'dereferenceable_or_null', 'nofpclass', 'range', 'sret', 'byval', 'byref',
                   'captures', 'allocsize', 'memory', 'elementtype', 'preallocated', 'initializes', 'allockind'):
            ts.next()
            ts.skip_paren()
        else:
            return


def parse_call_args(ts):
    ts.expect('(')
    args = []
    while not ts.eat(')'):
        if ts.eat('...'):
            continue
        t = parse_type(ts)
        parse_ret_attrs(ts)
        if t == ('md',):
            # skip metadata arg
            d = 0
            while not (d == 0 and ts.peek() in (',', ')')):
                x = ts.next()
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
            args.append((t, ('undef',)))
        else:
            args.append((t, parse_value(ts, t)))
        ts.eat(',')
    return args


def parse_instr(line):
    ts = TS(tokenize(line))
    dst = None
    if ts.peek()[0] == '%' and ts.peek(1) == '=':
        dst = unq(ts.next())[1:]
        ts.next()
    op = ts.next()
    while op in ('tail', 'musttail', 'notail'):
        op = ts.next()
    if op in BIN:
        while ts.peek() in FLAGS:
            ts.next()
        t = parse_type(ts)
        a = parse_value(ts, t)
        ts.expect(',')
        b = parse_value(ts, t)
        return (op, dst, t, a, b)
    if op == 'fneg':
        while ts.peek() in FLAGS:
            ts.next()
        t = parse_type(ts)
        return ('fneg', dst, t, parse_value(ts, t))
    if op == 'freeze':
        t = parse_type(ts)
        return ('freeze', dst, t, parse_value(ts, t))
    if op in ('icmp', 'fcmp'):
        while ts.peek() in FLAGS:
            ts.next()
        pred = ts.next()
        t = parse_type(ts)
        a = parse_value(ts, t)
        ts.expect(',')
        b = parse_value(ts, t)
        return (op, dst, pred, t, a, b)
    if op == 'select':
        while ts.peek() in FLAGS:
            ts.next()
        ct = parse_type(ts)
        c = parse_value(ts, ct)
        ts.expect(',')
        t = parse_type(ts)
        a = parse_value(ts, t)
        ts.expect(',')
        t2 = parse_type(ts)
        b = parse_value(ts, t2)
        return ('select', dst, c, t, a, b)
    if op in CAST:
        while ts.peek() in FLAGS:
            ts.next()
        t = parse_type(ts)
        a = parse_value(ts, t)
        ts.expect('to')
        t2 = parse_type(ts)
        return (op, dst, t, a, t2)
    if op == 'load':
        while ts.peek() in FLAGS:
            ts.next()
        t = parse_type(ts)
        ts.expect(',')
        pt = parse_type(ts)
        p = parse_value(ts, pt)
        return ('load', dst, t, p)
    if op == 'store':
        while ts.peek() in FLAGS:
            ts.next()
        t = parse_type(ts)
        v = parse_value(ts, t)
        ts.expect(',')
        pt = parse_type(ts)
        p = parse_value(ts, pt)
        return ('store', None, t, v, p)
    if op == 'getelementptr':
        while ts.peek() in ('inbounds', 'nuw', 'nusw'):
            ts.next()
        bt = parse_type(ts)
        ts.expect(',')
        pt = parse_type(ts)
        p = parse_value(ts, pt)
        idx = []
        while ts.eat(','):
            if ts.peek() and ts.peek()[0] == '!':
                break
            it = parse_type(ts)
            idx.append((it, parse_value(ts, it)))
        return ('gep', dst, bt, p, idx)
    if op == 'alloca':
        t = parse_type(ts)
        n = ('c', 1)
        if ts.eat(','):
            if ts.peek() != 'align':
                it = parse_type(ts)
                n = parse_value(ts, it)
        return ('alloca', dst, t, n)
    if op == 'phi':
        while ts.peek() in FLAGS:
            ts.next()
        t = parse_type(ts)
        inc = {}
        while True:
            ts.expect('[')
            v = parse_value(ts, t)
            ts.expect(',')
            b = unq(ts.next())[1:]
            ts.expect(']')
            inc[b] = v
            if not ts.eat(','):
                break
            if ts.peek()[0] == '!':
                break
        return ('phi', dst, t, inc)
    if op == 'br':
        t = parse_type(ts)
        if t == ('label',):
            return ('jmp', None, unq(ts.next())[1:])
        c = parse_value(ts, t)
        ts.expect(',')
        ts.expect('label')
        a = unq(ts.next())[1:]
        ts.expect(',')
        ts.expect('label')
        b = unq(ts.next())[1:]
        return ('br', None, c, a, b)
    if op == 'switch':
        t = parse_type(ts)
        v = parse_value(ts, t)
        ts.expect(',')
        ts.expect('label')
        d = unq(ts.next())[1:]
        ts.expect('[')
        cases = []
        while not ts.eat(']'):
            ct = parse_type(ts)
            cv = parse_value(ts, ct)
            ts.expect(',')
            ts.expect('label')
            cases.append((cv[1], unq(ts.next())[1:]))
        return ('switch', None, t, v, d, cases)
    if op == 'ret':
        t = parse_type(ts)
        if t == V:
            return ('ret', None, V, None)
        return ('ret', None, t, parse_value(ts, t))
    if op == 'unreachable':
        return ('unreachable', None)
    if op == 'resume':
        t = parse_type(ts)
        return ('resume', None, t, parse_value(ts, t))
    if op in ('call', 'invoke'):
        while ts.peek() in FLAGS:
            ts.next()
        parse_ret_attrs(ts)
        t = parse_type(ts)
        if t[0] == 'fn':
            t = t[1]
        parse_ret_attrs(ts)
        if ts.peek() == 'asm':
            ts.next()
            while ts.peek() in ('sideeffect', 'alignstack', 'inteldialect', 'unwind'):
                ts.next()
            tpl = ts.next()
            ts.eat(',')
            return ('asm', dst, tpl, ts.peek())
        f = parse_value(ts, P)
        args = parse_call_args(ts)
        if op == 'call':
            return ('call', dst, t, f, args, None, None)
        while ts.peek() != 'to':
            ts.next()
        ts.expect('to')
        ts.expect('label')
        a = unq(ts.next())[1:]
        ts.expect('unwind')
        ts.expect('label')
        b = unq(ts.next())[1:]
        return ('call', dst, t, f, args, a, b)
    if op == 'landingpad':
        t = parse_type(ts)
        clauses = []
        cleanup = False
        while ts.peek() is not None:
            x = ts.next()
            if x == 'cleanup':
                cleanup = True
            elif x in ('catch', 'filter'):
                ct = parse_type(ts)
                clauses.append((x, parse_value(ts, ct)))
            else:
                break
        return ('landingpad', dst, t, cleanup, clauses)
    if op == 'extractvalue':
        t = parse_type(ts)
        v = parse_value(ts, t)
        idx = []
        while ts.eat(','):
            if ts.peek()[0] == '!':
                break
            idx.append(int(ts.next()))
        return ('extractvalue', dst, t, v, idx)
    if op == 'insertvalue':
        t = parse_type(ts)
        v = parse_value(ts, t)
        ts.expect(',')
        et = parse_type(ts)
        e = parse_value(ts, et)
        idx = []
        while ts.eat(','):
            if ts.peek()[0] == '!':
                break
            idx.append(int(ts.next()))
        return ('insertvalue', dst, t, v, et, e, idx)
    if op == 'fence':
        return ('nop', None)
    if op in ('extractelement', 'insertelement', 'shufflevector', 'cmpxchg', 'atomicrmw', 'va_arg'):
        return ('unsupported', dst, op)
    raise IRError('instr %r' % line)


def parse_module(path):
    m = Module()
    with open(path) as fh:
        lines = fh.read().split('\n')
    i = 0
    n = len(lines)
    while i < n:
        l = lines[i]
        if l.startswith('%') and ' = type ' in l:
            nm, rest = l.split(' = type ', 1)
            m.types[unq(nm)] = parse_type(TS(tokenize(rest)))
        elif l.startswith('@'):
            _parse_global(m, l)
        elif l.startswith('define '):
            j = i + 1
            while lines[j] != '}':
                j += 1
            f = _parse_header(l)
            f.lines = lines[i + 1:j]
            f.module = m
            m.funcs[f.name] = f
            i = j
        elif l.startswith('declare '):
            mm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
            if mm:
                m.decls.add(mm.group(1).strip('"'))
        i += 1
    return m


def _parse_global(m, l):
    mm = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', l)
    name = mm.group(1).strip('"')
    rest = mm.group(2)
    if re.match(r'.*\balias\b', rest.split('"')[0]) and ' alias ' in ' ' + rest:
        ts = TS(tokenize(rest))
        while ts.next() != 'alias':
            pass
        parse_type(ts)
        ts.expect(',')
        parse_type(ts)
        v = parse_value(ts, P)
        m.globals[name] = dict(alias=v)
        return
    ts = TS(tokenize(rest))
    const = False
    ext = False
    while True:
        x = ts.next()
        if x == 'constant':
            const = True
            break
        if x == 'global':
            break
        if x in ('external', 'extern_weak', 'available_externally'):
            ext = x != 'available_externally'
        if x in ('thread_local', 'addrspace') and ts.peek() == '(':
            ts.skip_paren()
    t = parse_type(ts)
    init = None
    if not ext:
        try:
            init = parse_value(ts, t)
        except IRError:
            init = ('undef',)
    m.globals[name] = dict(ty=t, init=init, const=const)


def _parse_header(l):
    mm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
    name = mm.group(1).strip('"')
    f = Function(name)
    f.linkage = l[7:mm.start()]
    f.sret = bool(re.match(r'\(ptr[^,]*\bsret\(', l[mm.end() - 1:]))
    ts = TS(tokenize(l[mm.end() - 1:]))
    # return type: parse tokens before @
    pre = TS(tokenize(l[7:mm.start()]))
    parse_ret_attrs(pre)
    f.ret = parse_type(pre)
    ts.expect('(')
    ps = []
    while not ts.eat(')'):
        if ts.eat('...'):
            continue
        t = parse_type(ts)
        parse_ret_attrs(ts)
        nm = ts.peek()
        if nm and nm[0] == '%':
            nm = unq(ts.next())[1:]
        else:
            nm = str(len(ps))
        ps.append((t, nm))
        ts.eat(',')
    f.params = ps
    return f


def body(f):
    """parse the body of f lazily -> dict label -> list of instrs"""
    if f.blocks is not None:
        return f.blocks
    blocks = {}
    cur = None
    lines = f.lines
    i = 0
    n = len(lines)
    # entry label: explicit or implicit number
    first = True
    while i < n:
        l = lines[i]
        if not l.strip():
            i += 1
            continue
        if l[0] not in ' ;':
            mm = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', l)
            if mm:
                lab = mm.group(1).strip('"')
                cur = blocks.setdefault(lab, [])
                if first:
                    f.entry = lab
                    first = False
                i += 1
                continue
        if l.lstrip().startswith(';'):
            i += 1
            continue
        if first:
            # implicit entry label: count of unnamed params
            lab = str(sum(1 for _, nm in f.params if nm.isdigit()))
            cur = blocks.setdefault(lab, [])
            f.entry = lab
            first = False
        s = l.strip()
        if ' invoke ' in ' ' + s and ' to label ' not in s:
            i += 1
            s += ' ' + lines[i].strip()
        elif s.startswith('switch ') and ']' not in s:
            while True:
                i += 1
                s += ' ' + lines[i].strip()
                if lines[i].strip().startswith(']'):
                    break
        elif ' landingpad ' in s or s.startswith('landingpad'):
            while i + 1 < n and re.match(r'^\s+(catch|filter|cleanup)\b', lines[i + 1]):
                i += 1
                s += ' ' + lines[i].strip()
        cur.append(s)
        i += 1
    # parse
    for lab, ins in blocks.items():
        blocks[lab] = [parse_instr(s) for s in ins]
    f.blocks = blocks
    f.lines = None
    return blocks
