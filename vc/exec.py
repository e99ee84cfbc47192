"""Symbolic executor over LLVM IR: generates, for a contract harness, all
feasible paths with their path conditions, exported terms and the
verification conditions raised on them."""
import math
import re
import struct
from . import ir
from . import sym as S
from .sym import Node, isc

NULLOBJ = 0


class VCError(Exception):
    """outside the reach of the verifier (never a violation)"""


GLOBAL = re.compile(r'@("[^"]*"|[-\w.$]+)')


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off

    def __hash__(self):
        return hash((self.obj, self.off))

    def __repr__(self):
        return 'P(%s+%s)' % (self.obj, self.off)


NULL = Ptr(NULLOBJ, 0)


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, FnPtr) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Obj:
    __slots__ = ('name', 'size', 'cells', 'lazy', 'const', 'io', 'zero', 'freed')

    def __init__(self, name, size):
        self.name = name
        self.size = size
        self.cells = {}     # off -> (size, value)
        self.lazy = None    # list of (start,end,srcname,shift) or None
        self.const = False
        self.io = False
        self.zero = None    # list of (start,end) zero filled
        self.freed = False

    def clone(self):
        o = Obj(self.name, self.size)
        o.cells = dict(self.cells)
        o.lazy = list(self.lazy) if self.lazy else self.lazy
        o.const = self.const
        o.io = self.io
        o.zero = list(self.zero) if self.zero else None
        return o


class Frame:
    __slots__ = ('fn', 'blocks', 'regs', 'block', 'idx', 'prev', 'dst', 'normal', 'unwind', 'visits')

    def __init__(self, fn, dst, normal, unwind):
        self.fn = fn
        self.blocks = ir.body(fn)
        self.regs = {}
        self.block = fn.entry
        self.idx = 0
        self.prev = None
        self.dst = dst
        self.normal = normal
        self.unwind = unwind
        self.visits = {}

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.blocks = self.blocks
        f.regs = dict(self.regs)
        f.block = self.block
        f.idx = self.idx
        f.prev = self.prev
        f.dst = self.dst
        f.normal = self.normal
        f.unwind = self.unwind
        f.visits = dict(self.visits)
        return f


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.owned = set()
        self.pc = []          # list of bool Nodes
        self.outs = {}        # label -> term
        self.checks = []      # (label, cond, len(pc))
        self.exc = None
        self.counters = {}
        self.log = []         # calls recorded by contracts
        self.ghost = {}
        self.status = None
        self.ret = None
        self.caught = []

    def clone(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.owned = set()
        self.owned = set()
        s.pc = list(self.pc)
        s.outs = dict(self.outs)
        s.checks = list(self.checks)
        s.exc = self.exc
        s.counters = dict(self.counters)
        s.log = list(self.log)
        s.ghost = dict(self.ghost)
        s.caught = list(self.caught)
        return s


FTYPE = {'d': 'd'}


class Throw(Exception):
    def __init__(self, tinfo=None):
        self.tinfo = tinfo


class Park(Exception):
    """the path waits at this point until all others have got there or ended"""

    def __init__(self, key):
        self.key = key


class Fork(Exception):
    """raised by handlers: list of (cond, value) alternatives"""

    def __init__(self, alts):
        self.alts = alts


class Executor:
    def __init__(self, module, solver=None, contracts=None, max_paths=20000, max_visits=4000,
                 select_fork=False, global_havoc=None, max_steps=30000000):
        self.m = module
        self.solver = solver          # solver.feasible(pc) -> bool
        self.contracts = contracts or {}
        self.max_paths = max_paths
        self.max_visits = max_visits
        self.nobj = 0
        self.base = State()
        self.gobj = {}
        self.lazy_syms = {}
        self.steps = 0
        self.max_steps = max_steps
        self.called = set()           # functions whose bodies were executed
        self.contract_used = set()    # functions replaced by contract
        self.external_used = set()
        self.infeasible = 0
        self.joined = 0
        self.reached_blocks = set()
        self.select_fork = select_fork
        self.global_havoc = global_havoc or (lambda name: False)
        self.null_lazy_ptr_ok = True
        self.dynamic = self.dynamic_globals()     # not yet initialised

    def dynamic_globals(self):
        """variables whose value is set by static initialisers of the module"""
        m = self.m
        if getattr(m, '_dynamic', None) is None:
            names, todo, seen = set(), [], set()
            g = m.globals.get('llvm.global_ctors')
            if g and g['init'][0] == 'agg':
                todo = [ev[1][1][1][1] for et, ev in g['init'][1]]
            while todo:
                f = todo.pop()
                if f in seen or f not in m.funcs:
                    continue
                seen.add(f)
                for ln in m.funcs[f].lines:
                    for n in GLOBAL.findall(ln):
                        n = n.strip('"')
                        if n in m.funcs:
                            if n.startswith(('__cxx_global_var_init', '_GLOBAL__')):
                                todo.append(n)
                        elif n in m.globals and not m.globals[n].get('const'):
                            names.add(n)
            m._dynamic = frozenset(names)
        return m._dynamic

    # ------------------------------------------------------------ objects
    def new_obj(self, st, name, size):
        self.nobj += 1
        o = Obj(name, size)
        st.mem[self.nobj] = o
        st.owned.add(self.nobj)
        return Ptr(self.nobj, 0)

    def new_symbolic(self, st, name, size):
        p = self.new_obj(st, name, size)
        st.mem[p.obj].lazy = [(0, size, name, 0)]
        return p

    def wobj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            raise VCError('write through invalid pointer (obj %r)' % oid)
        if oid not in st.owned:
            o = o.clone()
            st.mem[oid] = o
            st.owned.add(oid)
        return o

    def global_ptr(self, st, name):
        if name in self.m.funcs or name in self.m.decls or name in self.contracts:
            return FnPtr(name)
        oid = self.gobj.get(name)
        if oid is not None and oid in st.mem:
            return Ptr(oid, 0)
        g = self.m.globals.get(name)
        if g is None:
            raise VCError('unknown global ' + name)
        if 'alias' in g:
            return self.const(st, ('p',), g['alias'])
        if oid is None:
            self.nobj += 1
            oid = self.nobj
            self.gobj[name] = oid
        try:
            size = self.m.size_align(g['ty'])[0]
        except ir.IRError:
            size = 1 << 20
        o = Obj('@' + name, size)
        st.mem[oid] = o
        st.owned.add(oid)
        if g['init'] is None or name.startswith('_ZTV') or name.startswith('_ZTT'):
            o.io = True
            o.size = 1 << 30
        elif not g['const'] and self.global_havoc(name):
            o.lazy = [(0, size, '@' + name, 0)]
        else:
            self.init_global(st, o, 0, g['ty'], g['init'])
            o.const = g['const']
        return Ptr(oid, 0)

    def init_global(self, st, o, off, ty, v):
        t = self.m.resolve(ty)
        k = v[0]
        if k == 'zero':
            o.zero = (o.zero or []) + [(off, off + self.m.size_align(ty)[0])]
            return
        if k == 'undef':
            return
        if k == 'str':
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, b)
            return
        if k == 'agg':
            if t[0] == 'a':
                es = self.m.size_align(t[2])[0]
                for i, (et, ev) in enumerate(v[1]):
                    self.init_global(st, o, off + i * es, et, ev)
            elif t[0] == 's':
                for i, (et, ev) in enumerate(v[1]):
                    fo, _ = self.m.field_offset(t, i)
                    self.init_global(st, o, off + fo, et, ev)
            else:
                es = self.m.size_align(t[2])[0]
                for i, (et, ev) in enumerate(v[1]):
                    self.init_global(st, o, off + i * es, et, ev)
            return
        val = self.const(st, ty, v)
        o.cells[off] = (self.m.size_align(ty)[0], val)

    # ------------------------------------------------------------ constants
    def const(self, st, ty, v):
        k = v[0]
        if k == 'c':
            t = self.m.resolve(ty)
            return S.mask(v[1], t[1])
        if k == 'fd':
            return S.dconst(v[1])
        if k == 'null':
            return NULL
        if k == 'g':
            return self.global_ptr(st, v[1])
        if k == 'undef':
            return self.undef(ty)
        if k == 'zero':
            return self.zeroval(ty)
        if k == 'agg':
            return [self.const(st, et, ev) for et, ev in v[1]]
        if k == 'ce':
            if v[1] == 'gep':
                base = self.const(st, ('p',), v[3])
                return self.gep(st, v[2], base, [(t, self.const(st, t, x)) for t, x in v[4]])
            if v[1] in ('inttoptr', 'ptrtoint', 'bitcast'):
                return self.const(st, v[2], v[3])
            if v[1] in ('trunc', 'zext', 'sext') and v[3] == ('undef',):
                return self.undef(v[4])
        raise VCError('constant %r' % (v,))

    def zeroval(self, ty):
        t = self.m.resolve(ty)
        if t[0] == 'i':
            return 0
        if t[0] == 'd':
            return S.dconst(0.0)
        if t[0] == 'p':
            return NULL
        if t[0] == 's':
            return [self.zeroval(f) for f in t[1]]
        if t[0] == 'a':
            return [self.zeroval(t[2]) for _ in range(t[1])]
        raise VCError('zero of %r' % (t,))

    def undef(self, ty):
        t = self.m.resolve(ty)
        if t[0] == 'i':
            return S.fresh('undef', t[1])
        if t[0] == 'd':
            return S.fresh('undef', 'd')
        if t[0] == 'p':
            return NULL
        if t[0] == 's':
            return [self.undef(f) for f in t[1]]
        if t[0] == 'a':
            return [self.undef(t[2]) for _ in range(t[1])]
        return None

    # ------------------------------------------------------------ memory
    def gep(self, st, bt, p, idx):
        if isinstance(p, FnPtr):
            return p
        off = p.off
        t = bt
        first = True
        for it, iv in idx:
            if first:
                es = self.m.size_align(t)[0]
                first = False
                n = self.m.resolve(it)[1]
                off = self._offadd(off, iv, n, es)
            else:
                tt = self.m.resolve(t)
                if tt[0] == 's':
                    if not isc(iv):
                        raise VCError('symbolic struct index')
                    fo, ft = self.m.field_offset(t, iv)
                    off = self._offadd(off, fo, 64, 1)
                    t = ft
                else:
                    es = self.m.size_align(tt[2])[0]
                    n = self.m.resolve(it)[1]
                    off = self._offadd(off, iv, n, es)
                    t = tt[2]
        return Ptr(p.obj, off)

    def _offadd(self, off, iv, n, es):
        if isc(iv):
            d = S.sgn(iv, n) * es
            if isc(off) or isinstance(off, int):
                return off + d
            return S.ibin('add', off, S.mask(d, 64), 64)
        x = iv if n == 64 else S.icast('sext', iv, n, 64)
        x = S.ibin('mul', x, es, 64)
        if isinstance(off, int):
            return S.ibin('add', x, S.mask(off, 64), 64)
        return S.ibin('add', off, x, 64)

    def load(self, st, p, ty):
        t = self.m.resolve(ty)
        if t[0] in ('s', 'a'):
            if t[0] == 's':
                return [self.load(st, Ptr(p.obj, p.off + self.m.field_offset(t, i)[0]), f) for i, f in enumerate(t[1])]
            es = self.m.size_align(t[2])[0]
            return [self.load(st, Ptr(p.obj, p.off + i * es), t[2]) for i in range(t[1])]
        if not isinstance(p, Ptr):
            raise VCError('load from %r' % (p,))
        o = st.mem.get(p.obj)
        if o is None:
            raise VCError('load through invalid pointer')
        if o.name and o.name[0] == '@' and o.name[1:] in self.dynamic:
            raise VCError('%s is read before its static initialiser has run' % o.name)
        size = self.m.size_align(t)[0]
        if o.io:
            if t[0] == 'p':
                return Ptr(p.obj, 0)
            if t[0] == 'i':
                return 1
            return S.dconst(0.0)
        off = p.off
        if not isinstance(off, int):
            return self.load_symbolic(st, o, p, t, size)
        return self.load_at(st, p.obj, o, off, t, size)

    def load_symbolic(self, st, o, p, t, size):
        # case split over the feasible concrete offsets
        vals = self.concretize(st, p.off, 0, o.size)
        alts = []
        for c, v in vals:
            alts.append((c, Ptr(p.obj, v)))
        raise Fork(('ptr', p, alts))

    def concretize(self, st, term, lo, hi):
        """enumerate feasible values of a 64-bit int term"""
        from . import smt
        return smt.enumerate_values(st.pc, term, 64, limit=64)

    def load_at(self, st, oid, o, off, t, size):
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return self.coerce(c[1], t, size)
        if c is not None and c[0] > size:
            return self.coerce(self.extract(c[1], c[0], 0, size), t, size)
        # overlapping cell starting before
        for d in range(1, 16):
            c2 = o.cells.get(off - d)
            if c2 is not None and c2[0] > d:
                if c2[0] >= d + size:
                    return self.coerce(self.extract(c2[1], c2[0], d, size), t, size)
                break
        # pieces inside?
        inner = [k for k in range(off, off + size) if k in o.cells]
        if not inner:
            if o.lazy:
                for (a, b, nm, sh) in reversed(o.lazy):
                    if a <= off and off + size <= b:
                        v = self.lazy_value(st, nm, off + sh, t, size)
                        return v
            if o.zero:
                for (a, b) in o.zero:
                    if a <= off and off + size <= b:
                        return self.zeroval(t)
            return self.undef(t)
        # concat from pieces
        val = 0
        k = off
        while k < off + size:
            c3 = o.cells.get(k)
            if c3 is not None and k + c3[0] <= off + size:
                piece, w = self.asint(c3[1], c3[0]), c3[0]
            else:
                piece, w = self.asint(self.load_at(st, oid, o, k, ir.I(8), 1), 1), 1
            val = S.ibin('or', val, S.ibin('shl', S.icast('zext', piece, w * 8, size * 8) if not isc(piece) else piece,
                                           (k - off) * 8, size * 8), size * 8)
            k += w
        return self.coerce(val, t, size)

    def asint(self, v, size):
        if isinstance(v, Node) and v.ty == 'd':
            return S.bitcast_d2i(v)
        if isinstance(v, (Ptr, FnPtr)):
            raise VCError('pointer reinterpreted')
        if isinstance(v, Node) and v.ty == 1 and size == 1:
            return S.mk('zext', (v,), 8)
        return v

    def extract(self, v, vsize, d, size):
        v = self.asint(v, vsize)
        x = S.ibin('lshr', v, d * 8, vsize * 8)
        return S.icast('trunc', x, vsize * 8, size * 8) if size < vsize else x

    def coerce(self, v, t, size):
        if t[0] == 'd':
            if isinstance(v, Node) and v.ty == 'd':
                return v
            if isinstance(v, Ptr):
                raise VCError('ptr as double')
            return S.bitcast_i2d(v)
        if t[0] == 'i':
            if isinstance(v, Node) and v.ty == 'd':
                return S.bitcast_d2i(v)
            if isinstance(v, Node) and v.ty == 1 and t[1] == 8:
                return S.mk('zext', (v,), 8)
            if isinstance(v, (Ptr, FnPtr)):
                if v == NULL:
                    return 0
                return v
            if t[1] < size * 8:
                return S.icast('trunc', v, size * 8, t[1]) if not (isinstance(v, Node) and v.ty == t[1]) else v
            return v
        if t[0] == 'p':
            if isinstance(v, (Ptr, FnPtr)):
                return v
            if v == 0:
                return NULL
            raise VCError('int as pointer %r' % (v,))
        return v

    def lazy_value(self, st, nm, off, t, size):
        k = (nm, off, size)
        v = self.lazy_syms.get(k)
        if v is None:
            if t[0] == 'd':
                v = S.sym('%s+%d' % (nm, off), 'd')
            elif t[0] == 'i':
                v = S.sym('%s+%d' % (nm, off), size * 8)
            else:
                raise VCError('lazy pointer %s+%d' % (nm, off))
            self.lazy_syms[k] = v
        return self.coerce(v, t, size)

    def store(self, st, p, v, size):
        if isinstance(v, list):
            raise VCError('aggregate store')
        if not isinstance(p, Ptr):
            raise VCError('store to %r' % (p,))
        o = st.mem.get(p.obj)
        if o is None:
            raise VCError('store through invalid pointer')
        if o.io:
            return
        if not isinstance(p.off, int):
            vals = self.concretize(st, p.off, 0, o.size)
            raise Fork(('ptr', p, [(c, Ptr(p.obj, x)) for c, x in vals]))
        if o.const:
            raise VCError('store to constant object ' + o.name)
        if p.off < 0 or p.off + size > o.size:
            raise VCError('out of bounds store to %s at %d' % (o.name, p.off))
        o = self.wobj(st, p.obj)
        self.clear(o, p.off, size)
        o.cells[p.off] = (size, v)

    def clear(self, o, off, size):
        """remove cells overlapping [off,off+size), keeping partial remains"""
        cells = o.cells
        if len(cells) < 64:
            ks = [k for k in cells if k < off + size and k + cells[k][0] > off]
        else:
            ks = [k for k in range(off - 16, off + size) if k in cells and k + cells[k][0] > off] if size < 4096 else \
                 [k for k in cells if k < off + size and k + cells[k][0] > off]
        for k in ks:
            sz, v = cells.pop(k)
            if k < off:
                for j in range(k, off):
                    cells[j] = (1, self.extract(v, sz, j - k, 1))
            if k + sz > off + size:
                for j in range(off + size, k + sz):
                    cells[j] = (1, self.extract(v, sz, j - k, 1))
        return

    def memcpy(self, st, d, s, n):
        if n == 0:
            return
        so = st.mem.get(s.obj)
        do = st.mem.get(d.obj)
        if so is None or do is None:
            raise VCError('memcpy invalid')
        if do.io:
            return
        for p, o in ((s, so), (d, do)):
            if not isinstance(p.off, int):
                raise Fork(('ptr', p, [(c, Ptr(p.obj, x)) for c, x in self.concretize(st, p.off, 0, o.size)]))
        if so.io:
            o = self.wobj(st, d.obj)
            self.clear(o, d.off, n)
            return
        items = []
        for k, (sz, v) in so.cells.items():
            if k < s.off + n and k + sz > s.off:
                if k >= s.off and k + sz <= s.off + n:
                    items.append((k - s.off + d.off, sz, v))
                else:
                    for j in range(max(k, s.off), min(k + sz, s.off + n)):
                        items.append((j - s.off + d.off, 1, self.extract(v, sz, j - k, 1)))
        lz = []
        if so.lazy:
            for (a, b, nm, sh) in so.lazy:
                a2, b2 = max(a, s.off), min(b, s.off + n)
                if a2 < b2:
                    lz.append((a2 - s.off + d.off, b2 - s.off + d.off, nm, sh + s.off - d.off))
        zs = []
        if so.zero:
            for (a, b) in so.zero:
                a2, b2 = max(a, s.off), min(b, s.off + n)
                if a2 < b2:
                    zs.append((a2 - s.off + d.off, b2 - s.off + d.off))
        if d.off < 0 or d.off + n > do.size:
            raise VCError('memcpy out of bounds to %s' % do.name)
        o = self.wobj(st, d.obj)
        self.clear(o, d.off, n)
        self.cut(o, d.off, d.off + n)
        for k, sz, v in items:
            o.cells[k] = (sz, v)
        if lz:
            o.lazy = (o.lazy or []) + lz
        if zs:
            o.zero = (o.zero or []) + zs

    def cut(self, o, a, b):
        """remove lazy/zero ranges in [a,b)"""
        for attr in ('lazy', 'zero'):
            l = getattr(o, attr)
            if not l:
                continue
            new = []
            for e in l:
                x, y = e[0], e[1]
                if y <= a or x >= b:
                    new.append(e)
                    continue
                if x < a:
                    new.append((x, a) + tuple(e[2:]))
                if y > b:
                    new.append((b, y) + tuple(e[2:]))
            setattr(o, attr, new)

    def memset(self, st, d, byte, n):
        if n == 0:
            return
        do = st.mem.get(d.obj)
        if do is None:
            raise VCError('memset invalid')
        if do.io:
            return
        o = self.wobj(st, d.obj)
        self.clear(o, d.off, n)
        self.cut(o, d.off, d.off + n)
        if byte == 0:
            o.zero = (o.zero or []) + [(d.off, d.off + n)]
        else:
            if not isc(byte):
                raise VCError('symbolic memset')
            for i in range(n):
                o.cells[d.off + i] = (1, byte)

    def cstr(self, st, p):
        o = st.mem[p.obj]
        b = bytearray()
        k = p.off
        while True:
            c = o.cells.get(k)
            if c is None or c[1] == 0:
                break
            b.append(c[1])
            k += 1
        return b.decode('latin1')

    # ------------------------------------------------------------ running
    def start(self, fname, args, st=None):
        f = self.m.funcs[fname]
        st = st or self.base.clone()
        fr = Frame(f, None, None, None)
        for (t, nm), a in zip(f.params, args):
            fr.regs[nm] = a
        st.frames.append(fr)
        self.called.add(fname)
        return st

    def run(self, st):
        """returns list of final states (status 'ret' or 'throw')"""
        work = [st]
        done = []
        parked = {}
        while work or parked:
            if not work:
                from . import merge
                k = min(parked)
                out, rest = merge.merge(self, parked.pop(k))
                self.joined += 1
                for s in out:
                    s.ghost['joined'] = k
                done += rest
                work = out
                continue
            s = work.pop()
            try:
                r = self.run_path(s, work)
            except Park as p:
                parked.setdefault(p.key, []).append(s)
                continue
            if r is not None:
                done.append(r)
                if len(done) > self.max_paths:
                    raise VCError('more than %d paths' % self.max_paths)
        return done

    def assume(self, st, c):
        """add c to the path; False if infeasible"""
        self.newpc = len(st.pc)
        return self.assume1(st, c)

    def assume1(self, st, c):
        if isc(c):
            return bool(c)
        if c.op == 'and':
            return self.assume1(st, c.args[0]) and self.assume1(st, c.args[1])
        st.pc.append(c)
        return True

    def feasible(self, st):
        if self.solver is None:
            return True
        return self.solver.feasible(st.pc, self.newpc)

    def run_path(self, st, work):
        while True:
            fr = st.frames[-1]
            ins = fr.blocks[fr.block][fr.idx]
            self.steps += 1
            if self.steps > self.max_steps:
                raise VCError('step limit')
            try:
                r = self.step(st, fr, ins, work)
            except Fork as fk:
                # alternatives for a pointer register: rewrite the register and retry
                kind, p, alts = fk.alts
                for c, np in alts:
                    s2 = st.clone()
                    f2 = s2.frames[-1]
                    for k, v in list(f2.regs.items()):
                        if v is p or v == p:
                            f2.regs[k] = np
                    if self.assume(s2, c):
                        work.append(s2)
                return None
            if r is not None:
                if r is False:
                    return None
                return r

    def val(self, st, fr, ty, v):
        if v[0] == 'r':
            try:
                return fr.regs[v[1]]
            except KeyError:
                raise VCError('unset register %s in %s' % (v[1], fr.fn.name))
        if v[0] == 'agg':
            return [self.val(st, fr, et, ev) for et, ev in v[1]]
        return self.const(st, ty, v)

    def goto(self, st, fr, label):
        fr.prev = fr.block
        fr.block = label
        fr.idx = 0
        n = fr.visits.get(label, 0) + 1
        fr.visits[label] = n
        if n > self.max_visits:
            raise VCError('loop bound exceeded in %s block %s' % (fr.fn.name, label))
        self.reached_blocks.add((fr.fn.name, label))
        blk = fr.blocks[label]
        i = 0
        new = {}
        while blk[i][0] == 'phi':
            ins = blk[i]
            new[ins[1]] = self.val(st, fr, ins[2], ins[3][fr.prev])
            i += 1
        fr.regs.update(new)
        fr.idx = i

    def decided(self, st, c):
        """value of the condition c where the path leaves only one"""
        nc = S.bnot(c)
        for v, x in ((False, c), (True, nc)):
            s2 = st.clone()
            if not (self.assume(s2, x) and self.feasible(s2)):
                return v
        return None

    def split(self, st, c):
        """returns list of (state, bool) for feasible outcomes of condition c; st is reused"""
        if isc(c):
            return [(st, bool(c))]
        # syntactic check
        pcs = st.pc
        nc = S.bnot(c)
        for x in pcs:
            if x is c:
                return [(st, True)]
            if x is nc:
                return [(st, False)]
        s2 = st.clone()
        out = []
        if self.assume(st, c) and self.feasible(st):
            out.append((st, True))
        else:
            self.infeasible += 1
        if self.assume(s2, nc) and self.feasible(s2):
            out.append((s2, False))
        else:
            self.infeasible += 1
        return out

    def step(self, st, fr, ins, work):
        op = ins[0]
        R = fr.regs
        if op in ('fmul', 'fadd', 'fsub', 'fdiv'):
            R[ins[1]] = S.fbin(op, self.val(st, fr, ins[2], ins[3]), self.val(st, fr, ins[2], ins[4]))
        elif op == 'frem':
            R[ins[1]] = S.call('fmod', self.val(st, fr, ins[2], ins[3]), self.val(st, fr, ins[2], ins[4]))
        elif op in ir.BIN:
            t = self.m.resolve(ins[2])
            a = self.val(st, fr, t, ins[3])
            b = self.val(st, fr, t, ins[4])
            if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
                R[ins[1]] = self.ptr_arith(op, a, b)
            else:
                R[ins[1]] = S.ibin(op, a, b, t[1])
        elif op == 'fneg':
            R[ins[1]] = S.fneg(self.val(st, fr, ins[2], ins[3]))
        elif op == 'freeze':
            R[ins[1]] = self.val(st, fr, ins[2], ins[3])
        elif op == 'load':
            R[ins[1]] = self.load(st, self.val(st, fr, ir.P, ins[3]), ins[2])
        elif op == 'store':
            v = self.val(st, fr, ins[2], ins[3])
            self.store_ty(st, self.val(st, fr, ir.P, ins[4]), v, ins[2])
        elif op == 'gep':
            p = self.val(st, fr, ir.P, ins[3])
            R[ins[1]] = self.gep(st, ins[2], p, [(t, self.val(st, fr, t, x)) for t, x in ins[4]])
        elif op == 'alloca':
            n = self.val(st, fr, ir.I(64), ins[3])
            sz = self.m.size_align(ins[2])[0] * n
            R[ins[1]] = self.new_obj(st, fr.fn.name + ':' + ins[1], sz)
        elif op == 'icmp':
            t = self.m.resolve(ins[3])
            a = self.val(st, fr, t, ins[4])
            b = self.val(st, fr, t, ins[5])
            if t[0] == 'p' or isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
                R[ins[1]] = self.ptr_cmp(ins[2], a, b)
            else:
                R[ins[1]] = S.icmp(ins[2], a, b, t[1])
        elif op == 'fcmp':
            R[ins[1]] = S.fcmp(ins[2], self.val(st, fr, ins[3], ins[4]), self.val(st, fr, ins[3], ins[5]))
        elif op == 'select':
            c = self.val(st, fr, ir.I(1), ins[2])
            a = self.val(st, fr, ins[3], ins[4])
            b = self.val(st, fr, ins[3], ins[5])
            t = self.m.resolve(ins[3])
            if isc(c):
                R[ins[1]] = a if c else b
            elif t[0] == 'd' and self.select_fork == 'decided':
                d = self.decided(st, c)
                R[ins[1]] = S.ite(c, a, b) if d is None else a if d else b
            elif t[0] == 'd' and not self.select_fork:
                R[ins[1]] = S.ite(c, a, b)
            elif t[0] == 'i' and not isinstance(a, Ptr) and not isinstance(b, Ptr) and not self.select_fork:
                R[ins[1]] = S.iite(c, a, b, t[1])
            elif a == b and not isinstance(a, Node):
                R[ins[1]] = a
            else:
                outs = self.split(st, c)
                for s2, tv in outs:
                    f2 = s2.frames[-1]
                    f2.regs[ins[1]] = a if tv else b
                    f2.idx += 1
                    if s2 is not st:
                        work.append(s2)
                if not outs or outs[0][0] is not st:
                    return False
                return None
        elif op in ir.CAST:
            R[ins[1]] = self.cast(st, op, self.val(st, fr, ins[2], ins[3]), self.m.resolve(ins[2]), self.m.resolve(ins[4]))
        elif op == 'jmp':
            self.goto(st, fr, ins[2])
            return None
        elif op == 'br':
            c = self.val(st, fr, ir.I(1), ins[2])
            if isc(c):
                self.goto(st, fr, ins[3] if c else ins[4])
                return None
            outs = self.split(st, c)
            live = None
            for s2, tv in outs:
                self.goto(s2, s2.frames[-1], ins[3] if tv else ins[4])
                if s2 is st:
                    live = True
                else:
                    work.append(s2)
            return None if live else False
        elif op == 'switch':
            v = self.val(st, fr, ins[2], ins[3])
            n = self.m.resolve(ins[2])[1]
            if isc(v):
                tgt = ins[4]
                for cv, lab in ins[5]:
                    if S.mask(cv, n) == v:
                        tgt = lab
                        break
                self.goto(st, fr, tgt)
                return None
            conds = []
            rest = 1
            for cv, lab in ins[5]:
                c = S.icmp('eq', v, S.mask(cv, n), n)
                conds.append((c, lab))
                rest = S.band(rest, S.bnot(c))
            # group by label
            by = {}
            for c, lab in conds:
                by[lab] = S.bor(by.get(lab, 0), c)
            by[ins[4]] = S.bor(by.get(ins[4], 0), rest)
            for lab, c in by.items():
                s2 = st.clone()
                if self.assume(s2, c) and self.feasible(s2):
                    self.goto(s2, s2.frames[-1], lab)
                    work.append(s2)
            return False
        elif op == 'ret':
            v = self.val(st, fr, ins[2], ins[3]) if ins[3] is not None else None
            return self.do_return(st, v)
        elif op == 'call':
            return self.do_call(st, fr, ins, work)
        elif op == 'extractvalue':
            v = self.val(st, fr, ins[2], ins[3])
            for i in ins[4]:
                v = v[i]
            R[ins[1]] = v
        elif op == 'insertvalue':
            v = self.val(st, fr, ins[2], ins[3])
            e = self.val(st, fr, ins[4], ins[5])
            R[ins[1]] = self.insval(v, e, ins[6])
        elif op == 'landingpad':
            R[ins[1]] = [st.exc[1], st.ghost.get('sel', 0)]
        elif op == 'resume':
            return self.unwind(st)
        elif op == 'unreachable':
            # reached only through noreturn calls
            raise VCError('unreachable executed in ' + fr.fn.name)
        elif op == 'nop':
            pass
        elif op == 'unsupported':
            raise VCError('unsupported instruction ' + ins[2])
        else:
            raise VCError('instr ' + op)
        fr.idx += 1
        return None

    def insval(self, v, e, idx):
        v = list(v)
        if len(idx) == 1:
            v[idx[0]] = e
        else:
            v[idx[0]] = self.insval(v[idx[0]], e, idx[1:])
        return v

    def store_ty(self, st, p, v, ty):
        t = self.m.resolve(ty)
        if t[0] == 's':
            for i, f in enumerate(t[1]):
                self.store_ty(st, Ptr(p.obj, p.off + self.m.field_offset(t, i)[0]), v[i], f)
            return
        if t[0] == 'a':
            es = self.m.size_align(t[2])[0]
            for i in range(t[1]):
                self.store_ty(st, Ptr(p.obj, p.off + i * es), v[i], t[2])
            return
        sz = self.m.size_align(t)[0]
        if t[0] == 'i' and t[1] < sz * 8 and isinstance(v, Node):
            v = S.icast('zext', v, t[1], sz * 8)
        self.store(st, p, v, sz)

    def cast(self, st, op, a, t1, t2):
        if op in ('zext', 'sext', 'trunc'):
            if isinstance(a, (Ptr, FnPtr)):
                raise VCError('cast of pointer')
            return S.icast(op, a, t1[1], t2[1])
        if op == 'sitofp':
            return S.sitofp(a, t1[1])
        if op == 'uitofp':
            return S.uitofp(a, t1[1])
        if op == 'bitcast':
            if t1[0] == 'd' and t2[0] == 'i':
                return S.bitcast_d2i(a)
            if t1[0] == 'i' and t2[0] == 'd':
                return S.bitcast_i2d(a)
            return a
        if op in ('ptrtoint', 'inttoptr'):
            if op == 'inttoptr' and a == 0:
                return NULL
            if op == 'ptrtoint' and a == NULL:
                return 0
            return a
        if op in ('fptosi', 'fptoui'):
            d = S.dval(a)
            if d is not None and d == d and abs(d) < 2**62:
                return S.mask(int(d), t2[1])
            return S.mk(op, (a,), t2[1])
        if op in ('fpext', 'fptrunc'):
            return S.call(op, a)
        raise VCError('cast ' + op)

    def ptr_arith(self, op, a, b):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and \
                isinstance(a.off, int) and isinstance(b.off, int):
            return S.mask(a.off - b.off, 64)
        if op == 'add' and isinstance(a, Ptr) and isc(b) and isinstance(a.off, int):
            return Ptr(a.obj, a.off + S.sgn(b, 64))
        if op == 'sub' and isinstance(a, Ptr) and isc(b) and isinstance(a.off, int):
            return Ptr(a.obj, a.off - S.sgn(b, 64))
        if op == 'and' and isinstance(a, Ptr) and isc(b):
            if b < 16:
                return a.off & b
            return Ptr(a.obj, a.off)   # alignment of fresh blocks
        if op == 'or' and isinstance(a, Ptr) and b == 0:
            return a
        raise VCError('pointer arithmetic ' + op)

    def ptr_cmp(self, pred, a, b):
        def addr(x):
            if x == 0:
                return NULL
            return x
        a, b = addr(a), addr(b)
        if pred in ('eq', 'ne'):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and not (
                    isinstance(a.off, int) and isinstance(b.off, int)):
                oa = a.off if isinstance(a.off, Node) else S.mask(a.off, 64)
                ob = b.off if isinstance(b.off, Node) else S.mask(b.off, 64)
                r = S.icmp('eq', oa, ob, 64)
                return r if pred == 'eq' else S.bnot(r)
            e = (a == b)
            return int(e if pred == 'eq' else not e)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and isinstance(a.off, int) and isinstance(b.off, int):
            return S.icmp(pred, S.mask(a.off, 64), S.mask(b.off, 64), 64)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return S.icmp(pred, a.obj << 32, b.obj << 32, 64)
        raise VCError('ptr cmp')

    def do_return(self, st, v):
        fr = st.frames.pop()
        if not st.frames:
            st.status = 'ret'
            st.ret = v
            return st
        up = st.frames[-1]
        if fr.dst is not None:
            up.regs[fr.dst] = v
        if fr.normal is not None:
            self.goto(st, up, fr.normal)
        else:
            up.idx += 1
        return None

    # ------------------------------------------------------------ exceptions
    def throw(self, st, tinfo, ptr):
        st.exc = (tinfo, ptr)
        return self.unwind_from_call(st)

    def unwind_from_call(self, st):
        """the current top frame's current instruction is the call that throws"""
        fr = st.frames[-1]
        ins = fr.blocks[fr.block][fr.idx]
        if ins[0] == 'call' and ins[6] is not None:
            if self.enter_pad(st, fr, ins[6]):
                return None
        return self.unwind(st)

    def enter_pad(self, st, fr, lab):
        blk = fr.blocks[lab]
        i = 0
        while blk[i][0] == 'phi':
            i += 1
        lp = blk[i]
        assert lp[0] == 'landingpad'
        sel = 0
        for kind, v in lp[4]:
            if kind == 'filter':
                sel = -1 & 0xffffffff
                break
            if v[0] == 'null':
                sel = 1
                break
            if v[0] == 'g' and self.type_matches(st.exc[0], v[1]):
                sel = self.typeid(v[1])
                break
        if sel == 0 and not lp[3]:
            return False
        st.ghost['sel'] = sel
        self.goto(st, fr, lab)
        return True

    def typeid(self, name):
        return (hash(name) & 0x3fffffff) + 2

    STD_BASES = {'_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt11logic_error': ['_ZTISt9exception'],
                 '_ZTISt12out_of_range': ['_ZTISt11logic_error', '_ZTISt9exception'],
                 '_ZTISt12domain_error': ['_ZTISt11logic_error', '_ZTISt9exception'],
                 '_ZTISt16invalid_argument': ['_ZTISt11logic_error', '_ZTISt9exception'],
                 '_ZTISt9bad_alloc': ['_ZTISt9exception'], '_ZTISt12system_error': ['_ZTISt13runtime_error', '_ZTISt9exception']}

    def type_matches(self, thrown, catch):
        return thrown == catch or catch in self.STD_BASES.get(thrown, [])

    def unwind(self, st):
        while True:
            st.frames.pop()
            if not st.frames:
                st.status = 'throw'
                return st
            fr = st.frames[-1]
            ins = fr.blocks[fr.block][fr.idx]
            if ins[0] == 'call' and ins[6] is not None:
                if self.enter_pad(st, fr, ins[6]):
                    return None

    # ------------------------------------------------------------ calls
    def do_call(self, st, fr, ins, work):
        _, dst, rt, fv, args, normal, unwind = ins
        if fv[0] == 'g':
            name = fv[1]
        else:
            p = self.val(st, fr, ir.P, fv)
            if isinstance(p, FnPtr):
                name = p.name
            elif isinstance(p, Ptr) and st.mem.get(p.obj) is not None and st.mem[p.obj].io:
                return self.finish_call(st, fr, ins, self.io_ret(rt, p))
            else:
                raise VCError('indirect call in ' + fr.fn.name)
        if name.startswith('llvm.'):
            if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.prefetch',
                                'llvm.invariant', 'llvm.va_', 'llvm.stack')):
                v = NULL if dst is not None else None
                if name.startswith('llvm.lifetime.end'):
                    p = self.val(st, fr, args[1][0], args[1][1])
                    if isinstance(p, Ptr) and p.off == 0 and p.obj in st.mem and not st.mem[p.obj].const:
                        o = self.wobj(st, p.obj)
                        o.cells, o.lazy, o.zero = {}, None, None
                return self.finish_call(st, fr, ins, v)
        avals = [self.val(st, fr, t, v) for t, v in args]
        h = self.contracts.get(name)
        if h is not None:
            self.contract_used.add(name)
            return self.run_handler(st, fr, ins, h, avals, work)
        if name.startswith(STRFUN):
            self.external_used.add(name)
            return self.run_handler(st, fr, ins, string_result, avals, work)
        f = self.m.funcs.get(name)
        if f is None and name in self.m.globals and 'alias' in self.m.globals[name]:
            al = self.m.globals[name]['alias']
            f = self.m.funcs.get(al[1]) if al[0] == 'g' else None
            if f is not None:
                h = self.contracts.get(f.name)
                if h is not None:
                    self.contract_used.add(f.name)
                    return self.run_handler(st, fr, ins, h, avals, work)
        if f is not None:
            if len(st.frames) > 200:
                raise VCError('recursion depth')
            nf = Frame(f, dst, normal, unwind)
            for (t, nm), a in zip(f.params, avals):
                nf.regs[nm] = a
            st.frames.append(nf)
            self.called.add(name)
            self.reached_blocks.add((name, f.entry))
            return None
        h = EXT.get(name)
        if h is None:
            for pre, hh in EXT_PREFIX:
                if name.startswith(pre):
                    h = hh
                    break
        if h is None:
            raise VCError('call of unknown external function %s in %s' % (name, fr.fn.name))
        self.external_used.add(name)
        return self.run_handler(st, fr, ins, h, avals, work)

    def io_ret(self, rt, p):
        t = self.m.resolve(rt)
        if t[0] == 'v':
            return None
        if t[0] == 'p':
            return p
        if t[0] == 'i':
            return 0
        return S.dconst(0.0)

    def run_handler(self, st, fr, ins, h, avals, work):
        """handler returns value, or raises Throw, or returns ('alts', [(cond, value|Throw)])"""
        try:
            v = h(self, st, avals, ins)
        except Throw as e:
            return self.throw(st, e.tinfo, NULL)
        if isinstance(v, Alts):
            live = None
            alts = v.alts
            for i, (c, val, eff) in enumerate(alts):
                s2 = st.clone() if i + 1 < len(alts) else st
                f2 = s2.frames[-1]
                if not self.assume(s2, c) or (not isc(c) and not self.feasible(s2)):
                    if s2 is st:
                        live = False
                    continue
                if eff:
                    eff(s2)
                if isinstance(val, Throw):
                    r = self.throw(s2, val.tinfo, NULL)
                else:
                    r = self.finish_call(s2, f2, ins, val)
                if s2 is not st:
                    if r is None:
                        work.append(s2)
                    elif r is not False:
                        # finished state (throw out of the harness)
                        s2.frames = []
                        work.append(_Done(r))
                else:
                    live = r
            return live
        if v is DEAD:
            return False
        return self.finish_call(st, fr, ins, v)

    def finish_call(self, st, fr, ins, v):
        if ins[1] is not None:
            fr.regs[ins[1]] = v
        if ins[5] is not None:
            self.goto(st, fr, ins[5])
        else:
            fr.idx += 1
        return None

    def run_ctors(self, st):
        """run the static initialisers of the module (iostream init skipped)"""
        self.dynamic = frozenset()
        g = self.m.globals.get('llvm.global_ctors')
        if not g or g['init'][0] != 'agg':
            return st
        for et, ev in g['init'][1]:
            fn = ev[1][1][1]
            if fn[0] == 'g' and fn[1] in self.m.funcs:
                s = self.start(fn[1], [], st)
                r = self.run(s)
                if len(r) != 1:
                    raise VCError('static initialiser forks')
                st = r[0]
                st.status = None
        return st


class _Done:
    """wrapper so that finished states can sit on the worklist"""

    def __init__(self, st):
        self.st = st


_orig_run_path = Executor.run_path


def _run_path(self, st, work):
    if isinstance(st, _Done):
        return st.st
    return _orig_run_path(self, st, work)


Executor.run_path = _run_path


class Alts:
    """several outcomes of a contract: (assumption, value or Throw, effect or None)"""

    def __init__(self, alts):
        self.alts = alts


DEAD = object()


# ---------------------------------------------------------------- externals
def _math1(nm):
    def h(ex, st, a, ins):
        if nm == 'fabs':
            return S.fabs(a[0])
        x = S.dval(a[0])
        if nm == 'sqrt' and x is not None and x >= 0:
            return S.dconst(math.sqrt(x))
        return S.call(nm, *a)
    return h


def _pow(ex, st, a, ins):
    y = S.dval(a[1])
    if y is not None and y == int(y) and 0 < y <= 32 and False:
        pass
    return S.call('pow', *a)


def _minmax(nm):
    def h(ex, st, a, ins):
        return S.call(nm, *a)
    return h


def _imm(pred):
    def h(ex, st, a, ins):
        n = ex.m.resolve(ins[2])[1]
        c = S.icmp(pred, a[0], a[1], n)
        return S.iite(c, a[0], a[1], n)
    return h


def _iabs(ex, st, a, ins):
    n = ex.m.resolve(ins[2])[1]
    c = S.icmp('slt', a[0], 0, n)
    return S.iite(c, S.ibin('sub', 0, a[0], n), a[0], n)


def _malloc(ex, st, a, ins):
    if not isc(a[0]):
        raise VCError('symbolic allocation size')
    return ex.new_obj(st, 'heap', a[0])


def _memcpy(ex, st, a, ins):
    if not isc(a[2]):
        raise VCError('symbolic memcpy size')
    ex.memcpy(st, a[0], a[1], a[2])
    return a[0] if ins[1] is not None else None


def _memset(ex, st, a, ins):
    if not isc(a[2]):
        raise VCError('symbolic memset size')
    ex.memset(st, a[0], a[1], a[2])
    return a[0] if ins[1] is not None else None


def _nop(ex, st, a, ins):
    return None


def _ret0(ex, st, a, ins):
    return a[0] if a else None


def _throw(ex, st, a, ins):
    ti = a[1].name if isinstance(a[1], FnPtr) else None
    if isinstance(a[1], Ptr) and a[1].obj in st.mem:
        ti = st.mem[a[1].obj].name.lstrip('@')
    raise Throw(ti)


def _thrower(ti):
    def h(ex, st, a, ins):
        raise Throw(ti)
    return h


def _strlen(ex, st, a, ins):
    return len(ex.cstr(st, a[0]))


def _begin_catch(ex, st, a, ins):
    return NULL


def _const(v):
    def h(ex, st, a, ins):
        return v
    return h


def _default_ret(ex, st, a, ins):
    t = ex.m.resolve(ins[2])
    if t[0] == 'v':
        return None
    if t[0] == 'p':
        return a[0] if a and isinstance(a[0], Ptr) else NULL
    if t[0] == 'i':
        return 0
    return S.dconst(0.0)


def _typeid_for(ex, st, a, ins):
    nm = st.mem[a[0].obj].name.lstrip('@') if isinstance(a[0], Ptr) else a[0].name
    return ex.typeid(nm)


def _str_create(ex, st, a, ins):
    sz = ex.load(st, a[1], ir.I(64))
    return ex.new_obj(st, 'heap', (sz + 1) if isc(sz) else 4096)


def _assume(ex, st, a, ins):
    return None


def _terminate(ex, st, a, ins):
    raise VCError('std::terminate reached')


def _cabs(ex, st, a, ins):
    if getattr(ex.solver, 'mode', None) == 'real':
        for i in (0, 1):
            if all(v == 0 for v in ex.solver.canon.key(a[i])):   # purely real or imaginary
                return S.fabs(a[1 - i])
    return S.call('hypot', *a)


def _muldc3(ex, st, a, ins):
    re = S.fbin('fsub', S.fbin('fmul', a[0], a[2]), S.fbin('fmul', a[1], a[3]))
    im = S.fbin('fadd', S.fbin('fmul', a[0], a[3]), S.fbin('fmul', a[1], a[2]))
    return [re, im]


def _divdc3(ex, st, a, ins):
    d = S.fbin('fadd', S.fbin('fmul', a[2], a[2]), S.fbin('fmul', a[3], a[3]))
    re = S.fbin('fdiv', S.fbin('fadd', S.fbin('fmul', a[0], a[2]), S.fbin('fmul', a[1], a[3])), d)
    im = S.fbin('fdiv', S.fbin('fsub', S.fbin('fmul', a[1], a[2]), S.fbin('fmul', a[0], a[3])), d)
    return [re, im]


def _cfun(nm):
    def h(ex, st, a, ins):
        return [S.call(nm + '.re', *a), S.call(nm + '.im', *a)]
    return h


def string_result(ex, st, a, ins):
    """some text, returned by value (never looked at)"""
    p = a[0]
    o = ex.wobj(st, p.obj)
    ex.clear(o, p.off, 32)
    ex.cut(o, p.off, p.off + 32)
    o.cells[p.off] = (8, Ptr(p.obj, p.off + 16))
    o.cells[p.off + 8] = (8, 0)
    o.cells[p.off + 16] = (1, 0)
    return None


STRFUN = ('_ZNSt7__cxx119to_string',)

EXT = {
    'llvm.memcpy.p0.p0.i64': _memcpy, 'llvm.memmove.p0.p0.i64': _memcpy, 'memcpy': _memcpy, 'memmove': _memcpy,
    'llvm.memset.p0.i64': _memset, 'memset': _memset,
    'malloc': _malloc, '_Znwm': _malloc, '_Znam': _malloc, 'free': _nop, '_ZdlPv': _nop, '_ZdaPv': _nop,
    '_ZdlPvm': _nop,
    '__cxa_allocate_exception': _malloc, '__cxa_free_exception': _nop, '__cxa_throw': _throw,
    '__cxa_begin_catch': _begin_catch, '__cxa_end_catch': _nop, '_ZSt9terminatev': _terminate,
    '__cxa_rethrow': _thrower(None),
    'llvm.assume': _assume, 'llvm.eh.typeid.for': _typeid_for, 'llvm.eh.typeid.for.p0': _typeid_for,
    'strlen': _strlen, '__cxa_guard_acquire': _const(1), '__cxa_guard_release': _nop, '__cxa_guard_abort': _nop,
    '__cxa_atexit': _const(0),
    'pthread_mutex_lock': _const(0), 'pthread_mutex_unlock': _const(0),
    '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_createERmm': _str_create,
    '__muldc3': _muldc3, '__divdc3': _divdc3, 'clog': _cfun('clog'), 'csqrt': _cfun('csqrt'),
    'cabs': _cabs, 'hypot': _math1('hypot'), 'carg': lambda ex, st, a, ins: S.call('atan2', a[1], a[0]),
    'llvm.pow.f64': _pow, 'pow': _pow, 'llvm.abs.i32': _iabs, 'llvm.abs.i64': _iabs,
    'llvm.smax.i32': _imm('sgt'), 'llvm.smin.i32': _imm('slt'), 'llvm.smax.i64': _imm('sgt'),
    'llvm.smin.i64': _imm('slt'), 'llvm.umax.i32': _imm('ugt'), 'llvm.umin.i32': _imm('ult'),
    'llvm.umax.i64': _imm('ugt'), 'llvm.umin.i64': _imm('ult'),
    'llvm.maxnum.f64': _minmax('fmax'), 'llvm.minnum.f64': _minmax('fmin'), 'fmax': _minmax('fmax'), 'fmin': _minmax('fmin'),
    '_ZSt20__throw_length_errorPKc': _thrower('_ZTISt12length_error'),
    '_ZSt17__throw_bad_allocv': _thrower('_ZTISt9bad_alloc'),
    '_ZSt20__throw_out_of_rangePKc': _thrower('_ZTISt12out_of_range'),
    '_ZSt24__throw_out_of_range_fmtPKcz': _thrower('_ZTISt12out_of_range'),
    '_ZSt20__throw_system_errori': _thrower('_ZTISt12system_error'),
    '_ZSt16__throw_bad_castv': _thrower('_ZTISt8bad_cast'),
    'vsnprintf': _const(1), 'toupper': _const(65),
}
for _f in ('sqrt', 'log', 'exp', 'fabs', 'sin', 'cos'):
    EXT['llvm.%s.f64' % _f] = _math1(_f)
    EXT[_f] = _math1(_f)
for _f in ('tan', 'atan', 'asin', 'acos', 'atan2', 'log1p', 'cbrt', 'exp2', 'log2', 'log10', 'tanh', 'sinh', 'cosh', 'fmod', 'floor', 'expm1'):
    EXT[_f] = _math1(_f)
    EXT['llvm.%s.f64' % _f] = _math1(_f)
EXT_PREFIX = [
    ('_ZNSt13runtime_error', _nop), ('_ZNSt9exception', _nop), ('_ZNSt11logic_error', _nop),
    ('_ZNSt9bad_alloc', _nop), ('_ZNSt12out_of_range', _nop), ('_ZNSt16invalid_argument', _nop),
    ('_ZNSo', _default_ret), ('_ZSt16__ostream_insert', _default_ret), ('_ZNSt7__cxx1112basic_string', _default_ret),
    ('_ZStls', _default_ret), ('_ZNKSt5ctype', _default_ret), ('_ZSt4endl', _default_ret),
    ('_ZNSt8ios_base', _default_ret), ('_ZNSt9basic_ios', _default_ret), ('_ZNSt6locale', _default_ret),
    ('_ZNSt7__cxx1118basic_stringstream', _default_ret), ('_ZNSt7__cxx1119basic_ostringstream', _default_ret),
    ('_ZNSt7__cxx1115basic_stringbuf', _default_ret), ('_ZSt9use_facet', _default_ret),
]
