"""Symbolic executor for the LLVM IR of the code under check.

Every execution path of a harness function is followed; branch conditions over
symbolic machine words are decided by the SMT solver; calls whose outcomes are
identical are merged back into one path."""
import time
from term import *
from solver import Solver, Node
import ir

M64 = (1 << 64) - 1
OBJ_SHIFT = 32
OBJ_MASK = (1 << OBJ_SHIFT) - 1
FIRST_STATE_OBJ = 1 << 24


MISSING = object()


class Unsupported(Exception):
    pass


class Limit(Unsupported):
    pass


class PathEnd(Exception):
    def __init__(self, kind, info=None):
        self.kind = kind
        self.info = info


class Frag:
    """bytes assembled from parts of stored values: list of (value,size,index) or None"""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def __eq__(self, o):
        return isinstance(o, Frag) and self.b == o.b

    def __hash__(self):
        return hash(len(self.b))


class Opq:
    """bitwise or remainder result that is only resolved as far as it is used"""
    __slots__ = ('k', 'a', 'b', 'w')

    def __init__(self, k, a, b, w):
        self.k = k
        self.a = a
        self.b = b
        self.w = w

    def __eq__(self, o):
        return isinstance(o, Opq) and (self.k, self.a, self.b, self.w) == (o.k, o.a, o.b, o.w)

    def __hash__(self):
        return hash((self.k, self.w))


class Frame:
    __slots__ = ('fn', 'regs', 'bi', 'ii', 'prev', 'dst', 'objs')

    def __init__(self, fn, regs, dst):
        self.fn = fn
        self.regs = regs
        self.bi = 0
        self.ii = 0
        self.prev = -1
        self.dst = dst
        self.objs = []

    def clone(self):
        f = Frame(self.fn, list(self.regs), self.dst)
        f.bi = self.bi
        f.ii = self.ii
        f.prev = self.prev
        f.objs = list(self.objs)
        return f


class State:
    __slots__ = ('frames', 'mem', 'owned', 'nobj', 'node', 'bd', 'vb', 'ne', 'dec', 'models', 'maybe', 'inputs', 'outs',
                 'covers', 'prints', 'panic_ok', 'steps', 'retval')

    def clone(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.owned = set()
        self.owned = set()
        s.nobj = self.nobj
        s.node = self.node
        s.bd = dict(self.bd)
        s.vb = dict(self.vb)
        s.ne = set(self.ne)
        s.dec = dict(self.dec)
        s.models = self.models
        s.maybe = self.maybe
        s.inputs = dict(self.inputs)
        s.outs = list(self.outs)
        s.covers = set(self.covers)
        s.prints = self.prints
        s.panic_ok = self.panic_ok
        s.steps = self.steps
        s.retval = None
        return s


def signed(x, w):
    return x - (1 << w) if x >> (w - 1) else x


# messages of panics that claim something else than a shortage of machine integers
REFUSALS = ('division by zero', 'divide by zero', 'divisor of zero', 'logic error', 'out of bounds', 'already borrowed',
            'already mutably borrowed', 'entered unreachable code', 'Number is not')
PANICS = ('panicking', 'begin_panic', 'unwrap_failed', 'expect_failed', 'handle_alloc_error', 'panic_',
          'slice_index', 'handle_error', 'rust_panic', 'capacity_overflow', 'panic_fmt', 'abort', '_fail')


class Exec:
    def __init__(self, mod, solver=None, step_limit=3000000, path_limit=200000, deadline=None):
        self.mod = mod
        self.solver = solver or Solver()
        self.step_limit = step_limit
        self.path_limit = path_limit
        self.deadline = deadline
        self.gaddr = {}
        self.gmem = {}
        self.faddr = {}
        self.alias = {}
        self.code = {}
        self.called = set()
        self.foreign = set()
        self.instrs = 0
        self.forks = 0
        self.merges = 0
        self.pool = 48
        self.cut = 0
        self.on_violation = None
        self.ovf = set()
        self._layout()

    # ---------------------------------------------------------------- setup
    def _layout(self):
        n = 16
        for name in self.mod.globals:
            self.gaddr[name] = n << OBJ_SHIFT
            n += 1
        for name in list(self.mod.funcs) + sorted(self.mod.decls):
            self.gaddr[name] = n << OBJ_SHIFT
            self.faddr[n << OBJ_SHIFT] = name
            n += 1
        self.ngl = n
        for name in list(self.mod.globals):
            self._place(name)
        for f in self.mod.funcs.values():
            self.code[f.name] = None

    def _place(self, name):
        t, init = self.mod.globals[name]
        if init is None:
            if 'GLOBAL_PANIC_COUNT' in name:
                self.gmem[self.gaddr[name] >> OBJ_SHIFT] = {0: (8, 0)}
            return
        if init[0] == 'alias':
            a = self.gaddr[name] = self.address(init[1][1])
            if a in self.faddr and name not in self.faddr.values():
                self.alias[name] = self.faddr[a]
            return
        cells = {}
        try:
            self._init(cells, 0, t, init)
        except Unsupported:
            return
        self.gmem[self.gaddr[name] >> OBJ_SHIFT] = cells

    def address(self, name):
        """address of a global or function, loading it from the library if need be"""
        a = self.gaddr.get(name)
        if a is not None:
            return a
        a = self.gaddr[name] = self.ngl << OBJ_SHIFT
        self.ngl += 1
        if self.mod.load(name) and name in self.mod.globals:
            self._place(name)
        else:
            self.faddr[a] = name
        return self.gaddr[name]

    def _init(self, cells, off, t, c):
        if c[0] == 'b':
            for i, x in enumerate(c[1]):
                cells[off + i] = (1, x)
            return
        if c[0] == 'u':
            return
        if t[0] == 'nm':
            t = self.mod.types[t[1]]
        if c[0] == 'agg':
            for i, (et, ec) in enumerate(c[1]):
                eo, _ = self.mod.field(t, i)
                self._init(cells, off + eo, et, ec)
            return
        if c[0] == 'z':
            for i in range(self.mod.sizeof(t)):
                cells[off + i] = (1, 0)
            return
        cells[off] = (self.mod.sizeof(t), self.kconst(t, c))

    def kconst(self, t, c):
        k = c[0]
        if k == 'c':
            if t[0] == 'i':
                return c[1] & ((1 << t[1]) - 1)
            return c[1]
        if k == 'g':
            return self.address(c[1])
        if k == 'u':
            if t[0] == 'nm':
                t = self.mod.types[t[1]]
            if t[0] == 'st':
                return tuple(self.kconst(e, c) for e in t[1])
            if t[0] == 'arr':
                return tuple(self.kconst(t[2], c) for _ in range(t[1]))
            return None
        if k == 'z':
            if t[0] == 'nm':
                t = self.mod.types[t[1]]
            if t[0] == 'st':
                return tuple(self.kconst(e, c) for e in t[1])
            if t[0] == 'arr':
                return tuple(self.kconst(t[2], c) for _ in range(t[1]))
            return 0
        if k == 'agg':
            return tuple(self.kconst(et, ec) for et, ec in c[1])
        if k == 'gep':
            base = self.kconst(ir.PTR, c[2])
            t = c[1]
            off = 0
            for i, (it, ic) in enumerate(c[3]):
                if i == 0:
                    off += ic[1] * self.mod.sizeof(t)
                else:
                    o, t = self.mod.field(t, ic[1])
                    off += o
            return (base + off) & M64
        raise Unsupported('constant %r' % (c,))

    def opnd(self, v):
        if v[0] == 'r':
            return v[1]
        t, c = v[1]
        return (self.kconst(t, c),)

    def compile(self, f):
        out = []
        for b in f.blocks:
            ins = []
            for x in b:
                op = x[0]
                o = self.opnd
                if op == 'load':
                    ins.append(('load', x[1], x[2], o(x[3])))
                elif op == 'store':
                    ins.append(('store', x[1], o(x[2]), o(x[3])))
                elif op == 'gep':
                    ins.append(('gep', x[1], o(x[2]), x[3], [(s, o(v), w) for s, v, w in x[4]]))
                elif op == 'call':
                    ins.append(('call', x[1], x[2], x[3], [o(v) for _, v in x[4]], [t for t, _ in x[4]]))
                elif op == 'icall':
                    ins.append(('icall', x[1], x[2], o(x[3]), [o(v) for _, v in x[4]], [t for t, _ in x[4]]))
                elif op == 'ret':
                    ins.append(('ret', o(x[2]) if x[1] else None))
                elif op == 'br':
                    ins.append(('br', o(x[1]), x[2], x[3]))
                elif op == 'switch':
                    ins.append(('switch', o(x[1]), x[2][1], x[3], x[4]))
                elif op == 'icmp':
                    w = x[3][1] if x[3][0] == 'i' else 64
                    ins.append(('icmp', x[1], x[2], w, o(x[4]), o(x[5])))
                elif op == 'bin':
                    ins.append(('bin', x[1], x[2], x[3][1], o(x[4]), o(x[5])))
                elif op == 'cast':
                    w1 = x[3][1] if x[3][0] == 'i' else 64
                    w2 = x[5][1] if x[5][0] == 'i' else 64
                    ins.append(('cast', x[1], x[2], w1, o(x[4]), w2))
                elif op == 'select':
                    ins.append(('select', x[1], o(x[2]), o(x[4]), o(x[5])))
                elif op == 'extract':
                    ins.append(('extract', x[1], o(x[2]), x[3]))
                elif op == 'insert':
                    ins.append(('insert', x[1], o(x[3]), o(x[4]), x[5]))
                elif op == 'phi':
                    ins.append(('phi', x[1], {b_: o(v) for b_, v in x[2]}))
                elif op == 'mov':
                    ins.append(('mov', x[1], o(x[2])))
                elif op == 'rmw':
                    ins.append(('rmw', x[1], x[2], x[3], o(x[4]), o(x[5])))
                elif op == 'cas':
                    ins.append(('cas', x[1], x[2], o(x[3]), o(x[4]), o(x[5])))
                else:
                    ins.append(x)
            out.append(ins)
        self.code[f.name] = out
        return out

    # ---------------------------------------------------------------- memory
    def obj(self, st, oid):
        c = st.mem.get(oid)
        if c is None:
            c = self.gmem.get(oid)
            if c is None:
                for name, a in self.gaddr.items():
                    if a >> OBJ_SHIFT == oid:
                        if self.mod.globals.get(name, (0, 0))[1] is None:
                            self.mod.globals.pop(name, None)
                            if self.mod.load(name) and name in self.mod.globals:
                                self._place(name)
                                c = self.gmem.get(oid)
                        break
                if c is None:
                    raise Unsupported('access to invalid address (object %x)' % oid)
        return c

    def wobj(self, st, oid):
        if oid in st.owned:
            return st.mem[oid]
        c = dict(self.obj(st, oid))
        st.mem[oid] = c
        st.owned.add(oid)
        return c

    def newobj(self, st):
        oid = st.nobj
        st.nobj += 1
        st.mem[oid] = {}
        st.owned.add(oid)
        return oid

    @staticmethod
    def _byte(cell, i):
        """i-th byte of a cell (size, value)"""
        size, v = cell
        if isinstance(v, int):
            return ((v >> (8 * i)) & 255, 1, 0)
        if isinstance(v, Frag):
            return v.b[i]
        if v is None:
            return None
        if size == 1:
            return (v, 1, 0)
        return (v, size, i)

    def read(self, cells, off, size):
        c = cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        parts = [None] * size
        for o, cell in cells.items():
            if o < off + size and o + cell[0] > off:
                for i in range(cell[0]):
                    if off <= o + i < off + size:
                        parts[o + i - off] = self._byte(cell, i)
        return self.assemble(parts)

    @staticmethod
    def assemble(parts):
        n = len(parts)
        if all(p is None for p in parts):
            return None
        p0 = parts[0]
        if p0 is not None and p0[1] == n and all(
                p is not None and p[0] is p0[0] and p[1] == n and p[2] == i for i, p in enumerate(parts)):
            return p0[0]
        if all(p is not None and p[1] == 1 and isinstance(p[0], int) for p in parts):
            return sum(p[0] << (8 * i) for i, p in enumerate(parts))
        # value followed by known zero bytes
        if p0 is not None and p0[1] == 1 and isinstance(p0[0], Fm) and all(
                p is not None and p[0] == 0 and isinstance(p[0], int) for p in parts[1:]):
            return p0[0]
        return Frag(parts)

    def clear(self, cells, off, size):
        for o in [o for o, c in cells.items() if o < off + size and o + c[0] > off]:
            c = cells.pop(o)
            if o < off or o + c[0] > off + size:
                for i in range(c[0]):
                    if not off <= o + i < off + size:
                        b = self._byte(c, i)
                        if b is not None:
                            cells[o + i] = (1, b[0]) if b[1] == 1 else (1, Frag([b]))

    def store(self, st, addr, size, v):
        cells = self.wobj(st, addr >> OBJ_SHIFT)
        off = addr & OBJ_MASK
        c = cells.get(off)
        if c is None or c[0] != size:
            self.clear(cells, off, size)
        else:
            # same shape: overwrite
            pass
        if v is None:
            cells.pop(off, None)
        else:
            cells[off] = (size, v)

    def load_t(self, st, addr, t):
        k = t[0]
        if k == 'nm':
            t = self.mod.types[t[1]]
            k = t[0]
        if k in ('st', 'arr'):
            n = len(t[1]) if k == 'st' else t[1]
            out = []
            for i in range(n):
                o, et = self.mod.field(t, i)
                out.append(self.load_t(st, addr + o, et))
            return tuple(out)
        v = self.read(self.obj(st, addr >> OBJ_SHIFT), addr & OBJ_MASK, self.mod.sizeof(t))
        if k == 'i' and t[1] < 8 and isinstance(v, int):
            v &= (1 << t[1]) - 1
        return v

    def store_t(self, st, addr, t, v):
        k = t[0]
        if k == 'nm':
            t = self.mod.types[t[1]]
            k = t[0]
        if k in ('st', 'arr'):
            if v is None:
                self.clear(self.wobj(st, addr >> OBJ_SHIFT), addr & OBJ_MASK, self.mod.sizeof(t))
                return
            for i, x in enumerate(v):
                o, et = self.mod.field(t, i)
                self.store_t(st, addr + o, et, x)
            return
        self.store(st, addr, self.mod.sizeof(t), v)

    def memcpy(self, st, dst, src, n):
        if n == 0:
            return
        sc = self.obj(st, src >> OBJ_SHIFT)
        so = src & OBJ_MASK
        do = dst & OBJ_MASK
        new = []
        for o, c in sc.items():
            if o < so + n and o + c[0] > so:
                if o >= so and o + c[0] <= so + n:
                    new.append((o - so + do, c))
                else:
                    for i in range(c[0]):
                        if so <= o + i < so + n:
                            b = self._byte(c, i)
                            if b is not None:
                                new.append((o + i - so + do, (1, b[0]) if b[1] == 1 else (1, Frag([b]))))
        dc = self.wobj(st, dst >> OBJ_SHIFT)
        self.clear(dc, do, n)
        for o, c in new:
            dc[o] = c

    # ---------------------------------------------------------------- knowledge
    def ival(self, st, p):
        if isinstance(p, int):
            return p, p
        lo, hi = interval(p, st.vb)
        if len(p.t) > 1 or len(next(iter(p.t))) > 1:
            L, g, s = _norm(p)
            b = st.bd.get(L.key())
            if b is not None:
                a, e = b
                if s > 0:
                    if a is not None:
                        lo = max(lo, g * a + p.c)
                    if e is not None:
                        hi = min(hi, g * e + p.c)
                else:
                    if e is not None:
                        lo = max(lo, -g * e + p.c)
                    if a is not None:
                        hi = min(hi, -g * a + p.c)
        return lo, hi

    def quick(self, st, f):
        if f is True or f is False:
            return f
        o = f.op
        if o == 'and':
            r = st.dec.get(f)
            if r is not None:
                return r
            res = True
            for g in f.a:
                q = self.quick(st, g)
                if q is False:
                    return False
                if q is None:
                    res = None
            return res
        if o == 'or':
            r = st.dec.get(f)
            if r is not None:
                return r
            res = False
            for g in f.a:
                q = self.quick(st, g)
                if q is True:
                    return True
                if q is None:
                    res = None
            return res
        lo, hi = self.ival(st, f.a)
        b = f.b
        if o == 'le':
            return True if hi <= b else False if lo > b else None
        if o == 'ge':
            return True if lo >= b else False if hi < b else None
        if lo == hi:
            return (lo == b) == (o == 'eq')
        if b < lo or b > hi or (f.a.key(), b) in st.ne:
            return o == 'ne'
        return None

    def learn(self, st, f):
        if f is True:
            return
        if f is False:
            raise PathEnd('infeasible')
        o = f.op
        if o == 'and':
            for g in f.a:
                self.learn(st, g)
            return
        if o == 'or':
            st.dec[f] = True
            st.dec[neg(f)] = False
            # unit propagation
            open_ = [g for g in f.a if self.quick(st, g) is not False]
            if len(open_) == 1:
                self.learn(st, open_[0])
            return
        L = f.a
        if len(L.t) == 1:
            m = next(iter(L.t))
            if len(m) == 1:
                v = m[0]
                lo, hi = st.vb.get(v) or (Vars.lo[v], Vars.hi[v])
                if o == 'le':
                    hi = min(hi, f.b)
                elif o == 'ge':
                    lo = max(lo, f.b)
                elif o == 'eq':
                    lo = max(lo, f.b)
                    hi = min(hi, f.b)
                else:
                    if f.b == lo:
                        lo += 1
                    elif f.b == hi:
                        hi -= 1
                    else:
                        st.ne.add((L.key(), f.b))
                while (L.key(), lo) in st.ne and lo < hi:
                    lo += 1
                while (L.key(), hi) in st.ne and lo < hi:
                    hi -= 1
                st.vb[v] = (lo, hi)
                return
        k = L.key()
        lo, hi = st.bd.get(k) or (None, None)
        if o == 'le':
            hi = f.b if hi is None else min(hi, f.b)
        elif o == 'ge':
            lo = f.b if lo is None else max(lo, f.b)
        elif o == 'eq':
            lo = f.b if lo is None else max(lo, f.b)
            hi = f.b if hi is None else min(hi, f.b)
        else:
            if f.b == lo:
                lo += 1
            elif f.b == hi:
                hi -= 1
            else:
                st.ne.add((k, f.b))
        while lo is not None and (k, lo) in st.ne:
            lo += 1
        while hi is not None and (k, hi) in st.ne:
            hi -= 1
        st.bd[k] = (lo, hi)

    def assume(self, st, f):
        if f is True:
            return
        if f is False:
            raise PathEnd('infeasible')
        self.learn(st, f)
        st.node = Node(st.node, f)

    def known(self, st, m):
        """m is a model of the path condition, or None when the solver could not tell"""
        if m is not None:
            st.models = [m]
            st.maybe = False
        else:
            st.models = []

    def settle(self, st):
        """establish whether a state whose feasibility was left open is feasible"""
        if st.maybe:
            st.maybe = False
            r, m = self.solver.check(st.node, True)
            if r == 'unsat':
                raise PathEnd('infeasible')
            self.known(st, m)

    def decide(self, st, f):
        """truth of f on this path; forks the state when both values are possible"""
        q = self.quick(st, f)
        if q is not None:
            return q
        if st.maybe:
            self.settle(st)
        nf = neg(f)
        yes = []
        no = []
        for m in st.models:
            (yes if evalf(f, m) else no).append(m)
        if yes and no:
            other = st.clone()
            other.models = no
            st.models = yes
        elif not yes and not no:
            r, m = self.solver.check(st.node, f)
            if r == 'unsat':
                r, m = self.solver.check(st.node, nf)
                if r == 'unsat':
                    raise PathEnd('infeasible')
                self.known(st, m)
                self.learn(st, nf)
                return False
            r2, m2 = self.solver.check(st.node, nf)
            if r2 == 'unsat':
                self.known(st, m)
                self.learn(st, f)
                return True
            other = st.clone()
            self.known(st, m)
            self.known(other, m2)
        elif yes:
            r, m = self.solver.check(st.node, nf)
            if r == 'unsat':
                self.learn(st, f)
                return True
            other = st.clone()
            self.known(other, m)
        else:
            if st.panic_ok and f in self.ovf:
                # overflow: nearly always ends in a permitted panic, so feasibility is only asked if it matters
                r, m = 'maybe', None
            else:
                r, m = self.solver.check(st.node, f)
            if r == 'unsat':
                self.learn(st, nf)
                return False
            other = st.clone()
            self.known(other, m)
            if r == 'maybe':
                other.maybe = True
            self.assume(other, f)
            self.assume(st, nf)
            self.forks += 1
            self.work.append(other)
            return False
        self.assume(other, nf)
        self.assume(st, f)
        self.forks += 1
        self.work.append(other)
        return True

    # ---------------------------------------------------------------- word arithmetic
    def view(self, st, p, lo, w):
        """representative of p in [lo, lo+2^w)"""
        if isinstance(p, int):
            return ((p - lo) & ((1 << w) - 1)) + lo
        if not isinstance(p, Poly):
            p = self.num(st, p, w)
            if isinstance(p, int):
                return ((p - lo) & ((1 << w) - 1)) + lo
        a, b = self.ival(st, p)
        k1 = (a - lo) >> w
        k2 = (b - lo) >> w
        if k1 == k2:
            return p if k1 == 0 else padd(p, -(k1 << w))
        if k2 - k1 <= 4:
            for k in sorted(range(k1, k2 + 1), key=abs):
                b0 = lo + (k << w)
                if self.decide(st, f_and(ge(p, b0), le(p, b0 + (1 << w) - 1))):
                    return p if k == 0 else padd(p, -(k << w))
            raise PathEnd('infeasible')
        # any representative modulo 2^w will do: prefer small coefficients
        half = 1 << (w - 1)
        t = {m: ((x + half) & ((1 << w) - 1)) - half for m, x in p.t.items()}
        t = {m: x for m, x in t.items() if x}
        if t != p.t:
            c = ((p.c + half) & ((1 << w) - 1)) - half
            return self.view(st, Poly(t, c) if t else c, lo, w)
        q, r = self.divmod_c(st, padd(p, -lo), 1 << w)
        return padd(r, lo)

    def vs(self, st, p, w):
        return self.view(st, p, -(1 << (w - 1)), w)

    def vu(self, st, p, w):
        return self.view(st, p, 0, w)

    def divmod_c(self, st, p, c):
        """floor division of integer p by positive constant c"""
        if isinstance(p, int):
            return p // c, p % c
        if c == 1:
            return p, 0
        if all(x % c == 0 for x in p.t.values()):
            return Poly({m: x // c for m, x in p.t.items()}, p.c // c), p.c % c
        # split off the divisible part: p = c*s + p0
        s = Poly({m: x // c for m, x in p.t.items() if x // c}, p.c // c)
        p0 = Poly({m: x % c for m, x in p.t.items() if x % c}, p.c % c)
        if not s.t:
            s = s.c
        a, b = self.ival(st, p0)
        if a // c == b // c:
            k = a // c
            return padd(s, k), padd(p0, -k * c)
        key = ('c', p0.key(), p0.c, c)
        e = Vars.memo.get(key)
        if e is None:
            a, b = p0.interval()
            q = Vars.new('q', a // c, b // c, ('div', p0, c, key))
            r = Vars.new('r', 0, c - 1, ('mod', p0, c, key))
            e = Vars.memo[key] = (q, r)
        q, r = e
        rp = mkvar(r)
        lo, hi = self.ival(st, rp)
        if lo == hi:
            rp = lo
        # with a known remainder the quotient is implied; keep both in terms of the variables
        return padd(s, mkvar(q)), rp

    def divmod_v(self, st, n, d):
        """floor division for integer terms n >= 0, d > 0"""
        if isinstance(d, int):
            return self.divmod_c(st, n, d)
        if self.decide(st, lt(n, d)):
            return 0, n
        kn = (n, 0) if isinstance(n, int) else (n.key(), n.c)
        key = ('v', kn, d.key(), d.c)
        e = Vars.memo.get(key)
        if e is None:
            hi = n if isinstance(n, int) else max(0, n.interval()[1])
            q = Vars.new('q', 0, hi, ('idiv', n, d, key))
            r = Vars.new('r', 0, hi, ('imod', n, d, key))
            e = Vars.memo[key] = (q, r)
        return mkvar(e[0]), mkvar(e[1])

    def num(self, st, v, w):
        """value as int or Poly"""
        if isinstance(v, (int, Poly)):
            return v
        if isinstance(v, Fm):
            return 1 if self.decide(st, v) else 0
        if isinstance(v, Opq):
            if v.k == 'srem':
                r = v.b
                if self.decide(st, eq(r, 0)):
                    return 0
                if self.decide(st, ge(v.a[0], 0)):
                    return r
                return padd(r, -v.a[1])
            # small operands: enumerate
            a = self.small(st, v.a, v.w)
            b = self.small(st, v.b, v.w)
            if a is not None and b is not None:
                return a & b if v.k == 'and' else a | b if v.k == 'or' else a ^ b
            raise Unsupported('bitwise %s of symbolic words' % v.k)
        if isinstance(v, Frag):
            return self.whole(st, v.b)
        if v is None:
            raise Unsupported('use of an undefined value')
        raise Unsupported('value %r' % (v,))

    def whole(self, st, parts):
        """number made of bytes of other values, lowest first"""
        r, i = 0, 0
        while i < len(parts):
            p = parts[i]
            if p is None:
                raise Unsupported('use of a partly undefined value')
            v, size, k = p
            j = i
            while (j + 1 < len(parts) and parts[j + 1] is not None and size > 1 and parts[j + 1][0] is v and
                   parts[j + 1][1:] == (size, parts[j][2] + 1)):
                j += 1
            x = self.vu(st, self.num(st, v, 8 * size), 8 * size)
            if k:
                x = self.divmod_c(st, x, 1 << (8 * k))[0]
            if k + j - i + 1 < size:
                x = self.divmod_c(st, x, 1 << (8 * (j - i + 1)))[1]
            r = padd(r, pscale(x, 1 << (8 * i)))
            i = j + 1
        return r

    def small(self, st, p, w, limit=16):
        """concrete value of p by enumeration when its range is small, else None"""
        p = self.num(st, p, w)
        if isinstance(p, int):
            return p
        p = self.vu(st, p, w)
        if isinstance(p, int):
            return p
        lo, hi = self.ival(st, p)
        if hi - lo >= limit:
            return None
        for x in range(lo, hi):
            if self.decide(st, eq(p, x)):
                return x
        return hi

    def lowbit(self, st, v, w):
        """formula for the least significant bit"""
        if isinstance(v, int):
            return bool(v & 1)
        if isinstance(v, Fm):
            return v
        if isinstance(v, Opq):
            if v.k == 'srem':
                if v.a[1] % 2 == 0:
                    return self.lowbit(st, v.b, w)
                return self.lowbit(st, self.num(st, v, w), w)
            a = self.lowbit(st, v.a, w)
            b = self.lowbit(st, v.b, w)
            return f_and(a, b) if v.k == 'and' else f_or(a, b) if v.k == 'or' else neg(f_iff(a, b))
        v = self.num(st, v, w)
        _, r = self.divmod_c(st, v, 2)
        return eq(r, 1)

    def sign(self, st, v, w):
        """formula: value is negative as a signed word"""
        if isinstance(v, int):
            return bool(v >> (w - 1))
        if isinstance(v, Fm):
            return False if w > 1 else v
        if isinstance(v, Opq) and v.k != 'srem':
            a = self.sign(st, v.a, w)
            b = self.sign(st, v.b, w)
            return f_and(a, b) if v.k == 'and' else f_or(a, b) if v.k == 'or' else neg(f_iff(a, b))
        return lt(self.vs(st, v, w), 0)

    def iszero(self, st, v, w):
        if isinstance(v, Fm):
            return neg(v)
        if isinstance(v, Opq):
            if v.k == 'srem':
                return eq(v.b, 0)
            if v.k == 'or':
                return f_and(self.iszero(st, v.a, w), self.iszero(st, v.b, w))
            if v.k == 'xor':
                return self.icmp(st, 'eq', w, v.a, v.b)
        v = self.num(st, v, w)
        return self.icmp(st, 'eq', w, v, 0)

    def icmp(self, st, pred, w, a, b):
        if isinstance(a, int) and isinstance(b, int):
            if pred == 'eq':
                return a == b
            if pred == 'ne':
                return a != b
            if pred[0] == 's':
                a = signed(a, w)
                b = signed(b, w)
            p = pred[1:]
            return a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b
        if a is None or b is None:
            raise Unsupported('comparison of an undefined value')
        if pred == 'ne':
            return neg(self.icmp(st, 'eq', w, a, b))
        if isinstance(a, int) and not isinstance(b, (int, Poly)):
            sw = {'eq': 'eq', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle',
                  'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}
            return self.icmp(st, sw[pred], w, b, a)
        if isinstance(a, Fm):
            if isinstance(b, int) and pred == 'eq':
                return neg(a) if b == 0 else a if b == 1 else False
            if isinstance(b, Fm) and pred == 'eq':
                return f_iff(a, b)
        if isinstance(a, Opq) and isinstance(b, int):
            if pred == 'eq' and b == 0:
                return self.iszero(st, a, w)
            if pred == 'slt' and b == 0:
                return self.sign(st, a, w)
            if pred == 'sge' and b == 0:
                return neg(self.sign(st, a, w))
            if pred == 'sgt' and b == (1 << w) - 1:
                return neg(self.sign(st, a, w))
            if pred == 'sle' and b == (1 << w) - 1:
                return self.sign(st, a, w)
        a = self.num(st, a, w)
        b = self.num(st, b, w)
        if isinstance(a, int) and isinstance(b, int):
            return self.icmp(st, pred, w, a, b)
        if pred == 'eq':
            # pick the representative that needs no split
            for lo in (-(1 << (w - 1)), 0):
                hi = lo + (1 << w)
                x = signed(a, w) if isinstance(a, int) and lo < 0 else a
                y = signed(b, w) if isinstance(b, int) and lo < 0 else b
                la, ha = self.ival(st, x)
                lb, hb = self.ival(st, y)
                if la >= lo and lb >= lo and ha < hi and hb < hi:
                    return eq(x, y)
            return eq(self.vs(st, a, w), self.vs(st, b, w))
        if pred[0] == 's':
            a = self.vs(st, a, w)
            b = self.vs(st, b, w)
        else:
            a = self.vu(st, a, w)
            b = self.vu(st, b, w)
        p = pred[1:]
        return lt(a, b) if p == 'lt' else le(a, b) if p == 'le' else gt(a, b) if p == 'gt' else ge(a, b)

    def binop(self, st, op, w, a, b):
        mask = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add':
                return (a + b) & mask
            if op == 'sub':
                return (a - b) & mask
            if op == 'mul':
                return (a * b) & mask
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & mask if b < w else 0
            if op == 'lshr':
                return a >> b if b < w else 0
            if op == 'ashr':
                return (signed(a, w) >> min(b, w - 1)) & mask
            if b == 0:
                raise PathEnd('ub', 'division by zero')
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            sa, sb = signed(a, w), signed(b, w)
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0):
                q = -q
            return (q if op == 'sdiv' else sa - q * sb) & mask
        if a is None or b is None:
            if op == 'and' and (a == 0 or b == 0):
                return 0
            raise Unsupported('arithmetic on an undefined value')
        if w == 1 or (isinstance(a, Fm) and isinstance(b, Fm) and op in ('and', 'or', 'xor')):
            if isinstance(a, (int, Fm)) and isinstance(b, (int, Fm)):
                fa, fb = tobool(a), tobool(b)
                if op == 'and':
                    return fnum(f_and(fa, fb))
                if op == 'or':
                    return fnum(f_or(fa, fb))
                if op in ('xor', 'add', 'sub'):
                    if fa is True:
                        return fnum(neg(fb))
                    if fb is True:
                        return fnum(neg(fa))
                    if fa is False:
                        return fnum(fb)
                    if fb is False:
                        return fnum(fa)
                    return fnum(neg(f_iff(fa, fb)))
        if isinstance(a, Fm) and isinstance(b, int):
            if op == 'and':
                return a if b & 1 else 0
            if op == 'xor' and b == 1:
                return neg(a)
            if op == 'or' and b == 0:
                return a
        if op in ('and', 'or', 'xor'):
            return self.bitop(st, op, w, a, b)
        if op == 'srem' and isinstance(b, int) and isinstance(a, Opq) and a.k != 'srem':
            c = abs(signed(b, w))
            if c == 2:
                if not self.decide(st, self.lowbit(st, a, w)):
                    return 0
                return mask if self.decide(st, self.sign(st, a, w)) else 1
        if op in ('shl', 'ashr', 'lshr') and isinstance(a, Opq) and a.k != 'srem' and not (op != 'shl' and b == w - 1):
            # shifts distribute over bitwise operations
            if not isinstance(b, int):
                b = self.small(st, b, w, 130)
            if isinstance(b, int) and b < w:
                return self.binop(st, a.k, w, fnum(self.binop(st, op, w, a.a, b)), fnum(self.binop(st, op, w, a.b, b)))
        if op in ('ashr', 'lshr') and isinstance(b, int) and isinstance(a, Opq) and b == w - 1:
            s = self.sign(st, a, w)
            if op == 'lshr':
                return fnum(s)
            return mask if self.decide(st, s) else 0
        a = self.num(st, a, w)
        b = self.num(st, b, w)
        if isinstance(a, int) and isinstance(b, int):
            return self.binop(st, op, w, a, b)
        if op in ('add', 'sub', 'mul'):
            x = signed(a, w) if isinstance(a, int) else a
            y = signed(b, w) if isinstance(b, int) else b
            r = padd(x, y) if op == 'add' else psub(x, y) if op == 'sub' else pmul(x, y)
            if isinstance(r, int):
                return r & mask
            return self.shrink(r, w)
        if op in ('shl', 'lshr', 'ashr'):
            if not isinstance(b, int):
                b = self.small(st, b, w, 130)
                if b is None:
                    raise Unsupported('symbolic shift amount')
                if isinstance(a, int):
                    return self.binop(st, op, w, a, b)
            if b >= w:
                raise PathEnd('ub', 'shift')
            if b == 0:
                return a
            if op == 'shl':
                return self.shrink(pscale(a, 1 << b), w)
            x = self.vs(st, a, w) if op == 'ashr' else self.vu(st, a, w)
            if op == 'lshr' and b == w - 1:
                return fnum(ge(x, 1 << b))
            q, _ = self.divmod_c(st, x, 1 << b)
            return q & mask if isinstance(q, int) else q
        if op in ('udiv', 'urem'):
            x = self.vu(st, a, w)
            y = self.vu(st, b, w)
            if self.decide(st, eq(y, 0)):
                raise PathEnd('ub', 'division by zero')
            q, r = self.divmod_v(st, x, y)
            z = q if op == 'udiv' else r
            return z & mask if isinstance(z, int) else z
        if op in ('sdiv', 'srem'):
            x = self.vs(st, a, w)
            y = self.vs(st, b, w)
            if self.decide(st, eq(y, 0)):
                raise PathEnd('ub', 'division by zero')
            if isinstance(y, int):
                c = abs(y)
                if c == 1:
                    return 0 if op == 'srem' else self.shrink(pscale(x, y), w) if not isinstance(x, int) else (x * y) & mask
                q, r = self.divmod_c(st, x, c)
                if op == 'srem':
                    if isinstance(r, int) and r == 0:
                        return 0
                    if isinstance(r, int) and isinstance(x, int):
                        return self.binop(st, op, w, a, b)
                    lo, hi = self.ival(st, x)
                    if lo >= 0:
                        return r
                    return Opq('srem', (x, c), r, w)
                rz = self.quick(st, eq(r, 0))
                if rz is not True and self.ival(st, x)[0] < 0:
                    if not self.decide(st, f_or(ge(x, 0), eq(r, 0))):
                        q = padd(q, 1)
                if y < 0:
                    q = pscale(q, -1)
                return q & mask if isinstance(q, int) else q
            sx = self.decide(st, lt(x, 0))
            sy = self.decide(st, lt(y, 0))
            n = pscale(x, -1) if sx else x
            d = pscale(y, -1) if sy else y
            q, r = self.divmod_v(st, n, d)
            z = pscale(q, -1 if sx != sy else 1) if op == 'sdiv' else pscale(r, -1 if sx else 1)
            return z & mask if isinstance(z, int) else z
        raise Unsupported(op)

    def shrink(self, p, w):
        """keep coefficients small (congruence modulo 2^w)"""
        m = 1 << w
        if all(-m < c < m for c in p.t.values()) and -m < p.c < m:
            return p
        h = m >> 1
        t = {}
        for k, c in p.t.items():
            c = (c + h) % m - h
            if c:
                t[k] = c
        c = (p.c + h) % m - h
        return Poly(t, c) if t else c & (m - 1)

    def cttz(self, st, x, w):
        for i in range(w):
            if self.decide(st, self.lowbit(st, x, w)):
                return i
            if isinstance(x, (int, Fm)):
                return w
            if isinstance(x, Opq):
                x = self.binop(st, 'ashr', w, x, 1)
            else:
                x, _ = self.divmod_c(st, x, 2)
        return w

    def bitop(self, st, op, w, a, b):
        mask = (1 << w) - 1
        if op == 'and' and isinstance(a, Poly) and isinstance(b, Poly):
            s = padd(a, b)
            if s == 0:
                # lowest bit that is set
                k = self.cttz(st, a, w)
                return 1 << k if k < w else 0
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            if op == 'and':
                if b == 0:
                    return 0
                if b == mask:
                    return a
                if b == 1:
                    return fnum(self.lowbit(st, a, w))
                if b & (b + 1) == 0:
                    p = self.num(st, a, w)
                    _, r = self.divmod_c(st, p, b + 1)
                    return r
                nb = (~b) & mask
                if nb & (nb + 1) == 0:
                    p = self.num(st, a, w)
                    _, r = self.divmod_c(st, p, nb + 1)
                    z = psub(p, r)
                    return z & mask if isinstance(z, int) else z
                if b == 1 << (w - 1):
                    return b if self.decide(st, self.sign(st, a, w)) else 0
            elif op == 'or':
                if b == 0:
                    return a
                if b == mask:
                    return mask
                if b == 1:
                    if self.decide(st, self.lowbit(st, a, w)):
                        return a
                    return self.binop(st, 'add', w, a, 1)
            else:
                if b == 0:
                    return a
                if b == mask:
                    r = padd(pscale(self.num(st, a, w), -1), -1)
                    return r & mask if isinstance(r, int) else r
                if b == 1:
                    if self.decide(st, self.lowbit(st, a, w)):
                        return self.binop(st, 'sub', w, a, 1)
                    return self.binop(st, 'add', w, a, 1)
        if a == b:
            return 0 if op == 'xor' else a
        return Opq(op, a, b, w)

    def cast(self, st, op, w1, v, w2):
        if isinstance(v, int):
            if op == 'trunc':
                return v & ((1 << w2) - 1)
            if op == 'sext':
                return signed(v, w1) & ((1 << w2) - 1)
            return v
        if op in ('ptrtoint', 'inttoptr', 'bitcast'):
            if w1 == w2:
                return v
        if v is None:
            return None
        if isinstance(v, Fm):
            if op == 'sext' and w1 == 1:
                return (1 << w2) - 1 if self.decide(st, v) else 0
            return v
        if isinstance(v, Opq):
            if op == 'trunc' and w2 == 1:
                return fnum(self.lowbit(st, v, w1))
            v = self.num(st, v, w1)
            if isinstance(v, int):
                return self.cast(st, op, w1, v & ((1 << w1) - 1), w2)
        v = self.num(st, v, w1)
        if op == 'trunc':
            if w2 == 1:
                return fnum(self.lowbit(st, v, w1))
            return self.shrink(v, w2)
        if op == 'zext':
            r = self.vu(st, v, w1)
        elif op == 'sext':
            r = self.vs(st, v, w1)
        else:
            raise Unsupported('cast %s' % op)
        return r & ((1 << w2) - 1) if isinstance(r, int) else r

    # ---------------------------------------------------------------- intrinsics and externals
    def intrinsic(self, st, name, args, types):
        """returns (handled, value)"""
        p = name.split('.')
        k = p[1]
        if k in ('sadd', 'uadd', 'ssub', 'usub', 'smul', 'umul') and p[2] in ('with', 'sat'):
            w = int(p[-1][1:])
            v = self.vs if k[0] == 's' else self.vu
            lo = -(1 << (w - 1)) if k[0] == 's' else 0
            hi = lo + (1 << w) - 1
            a = v(st, args[0], w)
            b = v(st, args[1], w)
            r = padd(a, b) if k[1:] == 'add' else psub(a, b) if k[1:] == 'sub' else pmul(a, b)
            if p[2] == 'sat':
                if self.decide(st, gt(r, hi)):
                    r = hi
                elif self.decide(st, lt(r, lo)):
                    r = lo
                return r & ((1 << w) - 1) if isinstance(r, int) else r
            if isinstance(r, int):
                return (r & ((1 << w) - 1), int(not lo <= r <= hi))
            o = f_or(gt(r, hi), lt(r, lo))
            q = self.quick(st, o)
            if q is None:
                self.ovf.add(o)
            return (r, fnum(o if q is None else q))
        if k in ('smax', 'smin', 'umax', 'umin'):
            w = int(p[2][1:])
            v = self.vs if k[0] == 's' else self.vu
            a = v(st, args[0], w)
            b = v(st, args[1], w)
            c = self.decide(st, ge(a, b))
            r = a if c == (k[1:] == 'max') else b
            return r & ((1 << w) - 1) if isinstance(r, int) else r
        if k in ('scmp', 'ucmp'):
            w = int(p[3][1:])
            v = self.vs if k[0] == 's' else self.vu
            a = v(st, args[0], w)
            b = v(st, args[1], w)
            rw = int(p[2][1:])
            if self.decide(st, lt(a, b)):
                return (1 << rw) - 1
            return 0 if self.decide(st, eq(a, b)) else 1
        if k == 'abs':
            w = int(p[2][1:])
            a = self.vs(st, args[0], w)
            if self.decide(st, lt(a, 0)):
                a = pscale(a, -1)
            return a & ((1 << w) - 1) if isinstance(a, int) else a
        if k in ('ctpop', 'cttz', 'ctlz', 'bswap', 'bitreverse'):
            w = int(p[2][1:])
            a = args[0]
            if not isinstance(a, int):
                if k == 'cttz':
                    return self.cttz(st, a, w)
                if k == 'ctlz':
                    x = self.vu(st, a, w)
                    for i in range(w):
                        if self.decide(st, ge(x, 1 << (w - 1 - i))):
                            return i
                    return w
                s = self.small(st, a, w, 16)
                if s is None:
                    raise Unsupported(name)
                a = s
            if k == 'ctpop':
                return bin(a).count('1')
            if k == 'cttz':
                return (a & -a).bit_length() - 1 if a else w
            if k == 'ctlz':
                return w - a.bit_length()
            if k == 'bswap':
                return int.from_bytes(a.to_bytes(w // 8, 'little'), 'big')
            return int(bin(a)[2:].zfill(w)[::-1], 2)
        if k in ('fshl', 'fshr'):
            w = int(p[2][1:])
            if all(isinstance(x, int) for x in args):
                s = args[2] % w
                cat = (args[0] << w) | args[1]
                return ((cat << s) >> w) & ((1 << w) - 1) if k == 'fshl' else (cat >> s) & ((1 << w) - 1)
            if isinstance(args[2], int) and args[0] == args[1]:
                s = args[2] % w
                if k == 'fshr':
                    s = (w - s) % w
                if s == 0:
                    return args[0]
                x = self.vu(st, args[0], w)
                q, r = self.divmod_c(st, x, 1 << (w - s))
                return padd(pscale(r, 1 << s), q)
            raise Unsupported(name)
        if k in ('memcpy', 'memmove'):
            n = self.small(st, args[2], 64)
            if n is None:
                raise Unsupported('symbolic memcpy length')
            self.memcpy(st, args[0], args[1], n)
            return None
        if k == 'memset':
            n = self.small(st, args[2], 64)
            c = self.num(st, args[1], 8)
            if n is None or not isinstance(c, int):
                raise Unsupported('memset')
            if n:
                cells = self.wobj(st, args[0] >> OBJ_SHIFT)
                off = args[0] & OBJ_MASK
                self.clear(cells, off, n)
                for i in range(n):
                    cells[off + i] = (1, c)
            return None
        if k in ('assume', 'donothing', 'prefetch', 'sideeffect'):
            return None
        if k in ('expect', 'expect.with.probability', 'launder', 'strip'):
            return args[0]
        if k == 'trap' or k == 'ubsantrap' or k == 'debugtrap':
            raise PathEnd('panic', name)
        if k == 'threadlocal':
            return args[0]
        if k == 'ptrmask':
            return args[0] & args[1]
        if k == 'is' and p[2] == 'constant':
            return 0
        raise Unsupported(name)

    def external(self, st, name, args, rt):
        n = name
        if '__rust_alloc_zeroed' in n or n == '@calloc':
            size = args[0] if n != '@calloc' else args[0] * args[1]
            oid = self.newobj(st)
            for i in range(0, size, 8):
                s = min(8, size - i)
                st.mem[oid][i] = (s, 0)
            return oid << OBJ_SHIFT
        if '__rust_no_alloc_shim' in n:
            return None
        if '__rust_alloc_error_handler' in n:
            raise PathEnd('panic', n)
        if '__rust_alloc' in n or n == '@malloc':
            if not isinstance(args[0], int):
                raise Unsupported('symbolic allocation size')
            return self.newobj(st) << OBJ_SHIFT
        if '__rust_dealloc' in n or n == '@free':
            oid = args[0] >> OBJ_SHIFT
            st.mem.pop(oid, None)
            st.owned.discard(oid)
            return None
        if '__rust_realloc' in n:
            oid = self.newobj(st)
            self.memcpy(st, oid << OBJ_SHIFT, args[0], args[1])
            st.mem.pop(args[0] >> OBJ_SHIFT, None)
            st.owned.discard(args[0] >> OBJ_SHIFT)
            return oid << OBJ_SHIFT
        if '3std2io5stdio' in n:
            return self.stdio(st, n, args)
        if '3std' in n and '12thread_local' in n and ('register' in n or 'enable' in n):
            return None
        if n in ('@memcmp', '@bcmp'):
            a = self.read(self.obj(st, args[0] >> OBJ_SHIFT), args[0] & OBJ_MASK, args[2])
            b = self.read(self.obj(st, args[1] >> OBJ_SHIFT), args[1] & OBJ_MASK, args[2])
            if isinstance(a, int) and isinstance(b, int):
                x = a.to_bytes(args[2], 'little')
                y = b.to_bytes(args[2], 'little')
                return 0 if x == y else (1 if x > y else M64 >> 32)
            return self.memcmp(st, n == '@memcmp', args[0], args[1], args[2])
        if any(s in n for s in PANICS):
            raise PathEnd('panic', self.panic_text(st, name, args))
        return MISSING

    def memcmp(self, st, order, p, q, n):
        a, b = self.obj(st, p >> OBJ_SHIFT), self.obj(st, q >> OBJ_SHIFT)
        p, q = p & OBJ_MASK, q & OBJ_MASK
        same, i = True, 0
        while i < n:
            k = max(k for k in (8, 4, 2, 1) if i + k <= n)
            x, y = self.read(a, p + i, k), self.read(b, q + i, k)
            if x is None or y is None or k > 1 and (isinstance(x, Frag) or isinstance(y, Frag)):
                k = 1
                x, y = self.read(a, p + i, k), self.read(b, q + i, k)
            e = self.icmp(st, 'eq', 8 * k, x, y)
            if order and not self.decide(st, tobool(e)):
                for j in range(k):
                    x, y = self.read(a, p + i + j, 1), self.read(b, q + i + j, 1)
                    if not self.decide(st, tobool(self.icmp(st, 'eq', 8, x, y))):
                        return M64 >> 32 if self.decide(st, tobool(self.icmp(st, 'ult', 8, x, y))) else 1
                raise PathEnd('infeasible')
            same = f_and(same, tobool(e))
            i += k
        return fnum(neg(same))

    def printed(self, st):
        st.prints += 1
        if self.forbid_print:
            raise PathEnd('done')

    def stdio(self, st, n, args):
        """the standard streams: only the fact that something is written to standard output is kept"""
        if '_print' in n and 'eprint' not in n:
            self.printed(st)
            return None
        if n.endswith(('7_eprint', '7__eprint')) or '__eprint' in n:
            return None
        if n.endswith(('6stdout', '6stderr')):
            # the handle: a pointer to a stream object
            return self.newobj(st) << OBJ_SHIFT
        if n.endswith('4lock'):
            return args[0]
        if '5Write' in n:
            out = '6Stdout' in n or '10StdoutLock' in n
            end = n[n.rindex('5Write') + 6:]
            if end.startswith('5flush'):
                return 0
            if out:
                self.printed(st)
            if end.startswith(('9write_all', '9write_fmt')):
                return 0
            if end.startswith('5write'):
                return (0, args[2])
        if 'drop_in_place' in n or '4Drop' in n:
            return None
        return MISSING

    def panic_text(self, st, name, args):
        try:
            if name.endswith('panic_fmt') and isinstance(args[1], int) and args[1] & 1:
                args = [args[0], args[1] >> 1]
            for i in range(len(args) - 1):
                a, l = args[i], args[i + 1]
                if isinstance(a, int) and isinstance(l, int) and 0 < l < 200 and (a >> OBJ_SHIFT) in self.gmem:
                    b = self.read(self.gmem[a >> OBJ_SHIFT], a & OBJ_MASK, l)
                    if isinstance(b, int):
                        return b.to_bytes(l, 'little').decode('utf-8', 'replace')
        except Exception:
            pass
        return name

    def harness_call(self, st, name, args):
        """the vp_* functions used by the harness crate"""
        n = name[4:]
        if n in ('sym_i64', 'sym_u64'):
            key = args[0]
            if not isinstance(key, int):
                raise Unsupported('symbolic input id')
            if n == 'sym_i64':
                lo, hi = signed(args[1], 64), signed(args[2], 64)
            else:
                lo, hi = args[1], args[2]
            if key in st.inputs:
                return st.inputs[key]
            mk = ('in', key, lo, hi)
            v = Vars.memo.get(mk)
            if v is None:
                v = Vars.memo[mk] = Vars.new('i%d' % key, lo, hi)
            p = mkvar(v)
            st.inputs[key] = p
            return p
        if n == 'param':
            return self.params[args[0]] & M64
        if n == 'assume':
            f = tobool(args[0])
            q = self.quick(st, f)
            if q is True:
                return None
            if q is False:
                raise PathEnd('assume')
            self.ended += 1
            ok = [m for m in st.models if evalf(f, m)]
            if ok:
                st.models = ok
                self.assume(st, f)
                return None
            r, m = self.solver.check(st.node, f, effort=1)
            if r == 'unsat':
                raise PathEnd('assume')
            self.known(st, m)
            self.assume(st, f)
            return None
        if n == 'check':
            self.nchecks += 1
            f = tobool(args[0])
            code = args[1]
            q = self.quick(st, f)
            if q is True:
                return None
            nf = neg(f)
            r, m = self.solver.check(st.node, nf, effort=1)
            if r == 'unsat':
                self.discharged += 1
                self.learn(st, f)
                return None
            if r == 'unknown':
                self.inconclusive('check %d undecided' % code, st)
                self.assume(st, f)
                st.models = [m for m in st.models if evalf(f, m)]
                return None
            self.report(st, 'check %d' % code, m)
            if q is False:
                raise PathEnd('violation')
            r, m2 = self.solver.check(st.node, f)
            if r == 'unsat':
                raise PathEnd('violation')
            self.known(st, m2)
            self.ended += 1
            self.assume(st, f)
            return None
        if n == 'out':
            st.outs.append((args[0], args[1]))
            return None
        if n == 'cover':
            st.covers.add(args[0])
            return None
        if n == 'panic_ok':
            st.panic_ok = args[0]
            return None
        if n == 'stop':
            raise PathEnd('done')
        if n == 'split':
            # explore the two values of a condition separately
            f = tobool(args[0])
            return int(self.decide(st, f))
        raise Unsupported('harness function ' + name)

    # ---------------------------------------------------------------- reporting
    def getmodel(self, st, effort=1):
        if not st.models:
            r, m = self.solver.check(st.node, True, effort=effort)
            if r == 'sat':
                self.known(st, m)
            return r
        return 'sat'

    def inputs_of(self, st, model):
        model = dict(model)
        out = {}
        for k, p in st.inputs.items():
            out[k] = evalp(p, model)
        return out

    def report(self, st, what, model):
        v = (what, self.inputs_of(st, model))
        if what != 'unsupported':
            self.violations.append(v)
        if self.on_violation:
            self.on_violation(*v)

    def inconclusive(self, what, st=None):
        self.problems[what] = self.problems.get(what, 0) + 1

    def finish(self, st, kind, info=None):
        self.paths += 1
        self.ended += 1
        self.outcomes[kind] = self.outcomes.get(kind, 0) + 1
        if kind in ('infeasible', 'assume', 'violation', 'cut'):
            return
        if kind == 'panic':
            self.panics[info] = self.panics.get(info, 0) + 1
            if not st.panic_ok or st.panic_ok == 2 and any(w in info for w in REFUSALS):
                r = self.getmodel(st)
                if r == 'sat':
                    self.report(st, 'panic: %s' % info, st.models[0])
                    return
                if r == 'unknown':
                    self.inconclusive('panic path undecided: %s' % info)
                return
        if kind == 'unsupported':
            # the path is not decided; its inputs are still tried on the real code
            n = sum(v for k, v in self.problems.items() if k.startswith('unsupported'))
            r = self.getmodel(st) if n < 40 else 'unknown'
            if r == 'unsat':
                return
            self.inconclusive('unsupported: %s' % info)
            if r == 'sat':
                self.report(st, 'unsupported', st.models[0])
            if n > 400:
                raise Limit('too many paths with unsupported steps')
            return
        if kind in ('ub', 'steps'):
            r = self.getmodel(st)
            if r == 'sat':
                self.report(st, '%s: %s' % (kind, info), st.models[0])
            elif r == 'unknown':
                self.inconclusive('%s path undecided' % kind)
            return
        if kind in ('done', 'panic'):
            if st.prints and self.forbid_print:
                r = self.getmodel(st)
                if r == 'sat':
                    self.report(st, 'output', st.models[0])
                elif r == 'unknown':
                    self.inconclusive('printing path undecided')
                return
        if kind in ('done', 'panic'):
            for c in st.covers:
                self.coverhits[c] = self.coverhits.get(c, 0) + 1
        if kind in ('done', 'panic') and self.sample_every:
            self.sample_n += 1
            if self.sample_n % self.sample_every == 1 and len(self.samples) < self.sample_max:
                if self.getmodel(st, 0) == 'sat':
                    model = dict(st.models[0])
                    outs = []
                    for t, v in st.outs:
                        if isinstance(v, Fm):
                            v = int(evalf(v, model))
                        elif isinstance(v, Poly):
                            v = evalp(v, model)
                        elif not isinstance(v, int):
                            v = None
                        outs.append((t, None if v is None else v & M64))
                    self.samples.append((kind, self.inputs_of(st, model), outs, st.prints))

    # ---------------------------------------------------------------- main loop
    def run(self, fname, params, sample_every=0, sample_max=50, forbid_print=False):
        self.params = params
        self.forbid_print = forbid_print
        self.violations = []
        self.problems = {}
        self.outcomes = {}
        self.panics = {}
        self.coverhits = {}
        self.samples = []
        self.sample_every = sample_every
        self.sample_max = sample_max
        self.sample_n = 0
        self.paths = 0
        self.ended = 0
        self.nchecks = 0
        self.discharged = 0
        Vars.reset()
        self.solver.reset()
        st = State()
        st.frames = []
        st.mem = {}
        st.owned = set()
        st.nobj = FIRST_STATE_OBJ
        st.node = None
        st.bd = {}
        st.vb = {}
        st.ne = set()
        st.dec = {}
        st.models = [{-1: i} for i in range(self.pool)]
        st.maybe = False
        st.inputs = {}
        st.outs = []
        st.covers = set()
        st.prints = 0
        st.panic_ok = 0
        st.steps = 0
        st.retval = None
        f = self.mod.funcs['@' + fname]
        self.work = []
        self.push_frame(st, f, [], None)
        for s in self.explore([st], 0):
            self.finish(s, 'done')

    def push_frame(self, st, f, args, dst):
        if self.code[f.name] is None:
            self.compile(f)
        self.called.add(f.name)
        regs = [None] * f.nslots
        for (slot, _), v in zip(f.params, args):
            regs[slot] = v
        st.frames.append(Frame(f, regs, dst))
        if len(st.frames) > 2000:
            raise PathEnd('steps', 'recursion depth')

    def explore(self, states, depth):
        """run states until they return to the given frame depth; returns those that do"""
        saved = self.work
        self.work = list(states)
        rets = []
        try:
            while self.work:
                st = self.work.pop()
                try:
                    r = self.step(st, depth)
                    rets.append(r)
                except PathEnd as e:
                    if e.kind != 'none':
                        self.finish(self.cur, e.kind, e.info)
                except (Limit, RecursionError, MemoryError):
                    raise
                except Unsupported as e:
                    self.finish(self.cur, 'unsupported', str(e))
                except (TypeError, KeyError, AttributeError, IndexError, ValueError, AssertionError) as e:
                    # a value of a kind that the instruction is not modelled for
                    tb = e.__traceback__
                    while tb.tb_next:
                        tb = tb.tb_next
                    self.finish(self.cur, 'unsupported', '%s %s in %s, line %d' % (
                        type(e).__name__, e, tb.tb_frame.f_code.co_name, tb.tb_lineno))
                if self.paths > self.path_limit:
                    raise Limit('path limit exceeded')
                if self.deadline and time.time() > self.deadline:
                    raise Limit('time limit exceeded')
        finally:
            self.work = saved
        return rets

    def merge(self, base, rets, ended):
        """base: (node, bd, vb, ne, dec) at the call"""
        groups = []
        for s in rets:
            for g in groups:
                t = g[0]
                if self.same(s, t):
                    g.append(s)
                    break
            else:
                groups.append([s])
        if len(groups) == len(rets):
            return rets
        node, bd, vb, ne, dec = base
        out = []
        for g in groups:
            s = g[0]
            if len(g) == 1:
                out.append(s)
                continue
            self.merges += len(g) - 1
            full = len(groups) == 1 and ended == 0
            s.steps = max(x.steps for x in g)
            s.nobj = max(x.nobj for x in g)
            s.models = [m for x in g for m in x.models]
            s.maybe = not s.models and all(x.maybe for x in g)
            s.bd = self.hull(bd, [x.bd for x in g])
            s.vb = self.hull(vb, [x.vb for x in g])
            s.ne = set.intersection(*[x.ne for x in g]) if not full else set(ne)
            s.dec = dict(dec)
            if full:
                s.node = node
            else:
                alts = []
                for x in g:
                    n = x.node
                    fs = []
                    while n is not node:
                        fs.append(n.f)
                        n = n.parent
                    alts.append(f_and(*reversed(fs)))
                s.node = node
                f = f_or(*alts)
                if f is not True:
                    self.learn(s, f)
                    s.node = Node(node, f)
            out.append(s)
        return out

    @staticmethod
    def hull(base, ds):
        """bounds that hold in every one of the merged states"""
        out = {}
        d0 = ds[0]
        for k, (lo, hi) in d0.items():
            for d in ds[1:]:
                b = d.get(k)
                if b is None:
                    break
                l, h = b
                lo = None if lo is None or l is None else min(lo, l)
                hi = None if hi is None or h is None else max(hi, h)
            else:
                if lo is not None or hi is not None:
                    out[k] = (lo, hi)
        for k, v in base.items():
            if k not in out:
                out[k] = v
        return out

    def same(self, a, b):
        if a.retval != b.retval or a.prints != b.prints or a.panic_ok != b.panic_ok:
            return False
        if a.outs != b.outs or a.covers != b.covers or a.inputs != b.inputs:
            return False
        # the caller's registers are those of the state at the call except the result
        m1, m2 = a.mem, b.mem
        if m1.keys() != m2.keys():
            return False
        for k, v in m1.items():
            w = m2[k]
            if v is not w and v != w:
                return False
        return True

    def call(self, st, dst, rt, name, args, types):
        """returns the state to continue with"""
        fr = st.frames[-1]
        name = self.alias.get(name, name)
        f = self.mod.funcs.get(name)
        if f is None or name in self.foreign:
            if name.startswith('@llvm.'):
                v = self.intrinsic(st, name, args, types)
            elif name.startswith('@vp_'):
                v = self.harness_call(st, name, args)
            else:
                v = self.external(st, name, args, rt)
            if v is not MISSING:
                if dst is not None:
                    fr.regs[dst] = v
                fr.ii += 1
                return st
            if f is None:
                if not self.mod.load(name) or name not in self.mod.funcs:
                    raise Unsupported('external function %s' % name)
                self.foreign.add(name)
                f = self.mod.funcs[name]
                self.code[name] = None
        fr.ii += 1
        self.push_frame(st, f, args, dst)
        if f.nbranch == 0:
            return st
        depth = len(st.frames) - 1
        base = (st.node, dict(st.bd), dict(st.vb), set(st.ne), dict(st.dec))
        e0 = self.ended
        cur = self.cur
        rets = self.explore([st], depth)
        self.cur = cur
        if not rets:
            raise PathEnd('none')
        if len(rets) > 1:
            rets = self.merge(base, rets, self.ended - e0)
        for s in rets[1:]:
            self.work.append(s)
        return rets[0]

    def step(self, st, depth):
        self.cur = st
        limit = self.cut or self.step_limit
        n = 0
        while True:
            fr = st.frames[-1]
            regs = fr.regs
            code = self.code[fr.fn.name]
            block = code[fr.bi]
            ins = block[fr.ii]
            n += 1
            st.steps += 1
            if st.steps > limit:
                raise PathEnd('cut' if self.cut else 'steps', 'step limit')
            op = ins[0]
            if op == 'load':
                a = ins[3]
                a = regs[a] if a.__class__ is int else a[0]
                if a.__class__ is not int:
                    a = self.addr(st, a)
                regs[ins[1]] = self.load_t(st, a, ins[2])
            elif op == 'store':
                v = ins[2]
                v = regs[v] if v.__class__ is int else v[0]
                a = ins[3]
                a = regs[a] if a.__class__ is int else a[0]
                if a.__class__ is not int:
                    a = self.addr(st, a)
                self.store_t(st, a, ins[1], v)
            elif op == 'gep':
                a = ins[2]
                a = regs[a] if a.__class__ is int else a[0]
                if a.__class__ is not int:
                    a = self.addr(st, a)
                off = ins[3]
                for sc, i, w in ins[4]:
                    i = regs[i] if i.__class__ is int else i[0]
                    if i.__class__ is not int:
                        x = self.small(st, i, w, 64)
                        if x is None:
                            raise Unsupported('symbolic index')
                        i = x
                    off += sc * signed(i, w)
                regs[ins[1]] = (a + off) & M64
            elif op == 'br':
                c = ins[1]
                c = regs[c] if c.__class__ is int else c[0]
                if c.__class__ is not int:
                    if c.__class__ is bool:
                        pass
                    elif c is None:
                        raise Unsupported('branch on an undefined value')
                    elif c.__class__ is Fm:
                        c = self.decide(st, c)
                    else:
                        c = self.decide(st, self.lowbit(st, c, 1))
                fr.prev = fr.bi
                fr.bi = ins[2] if c else ins[3]
                fr.ii = 0
                continue
            elif op == 'jmp':
                fr.prev = fr.bi
                fr.bi = ins[1]
                fr.ii = 0
                continue
            elif op == 'call' or op == 'icall':
                args = [regs[a] if a.__class__ is int else a[0] for a in ins[4]]
                if op == 'call':
                    name = ins[3]
                else:
                    a = regs[ins[3]]
                    name = self.faddr.get(a)
                    if name is None:
                        raise Unsupported('indirect call to unknown address')
                self.instrs += n
                n = 0
                st = self.call(st, ins[1], ins[2], name, args, ins[5])
                self.cur = st
                continue
            elif op == 'ret':
                v = ins[1]
                if v is not None:
                    v = regs[v] if v.__class__ is int else v[0]
                for o in fr.objs:
                    st.mem.pop(o, None)
                    st.owned.discard(o)
                st.frames.pop()
                st.retval = v
                if fr.dst is not None:
                    st.frames[-1].regs[fr.dst] = v
                if len(st.frames) == depth:
                    self.instrs += n
                    return st
                continue
            elif op == 'icmp':
                a = ins[4]
                a = regs[a] if a.__class__ is int else a[0]
                b = ins[5]
                b = regs[b] if b.__class__ is int else b[0]
                r = self.icmp(st, ins[2], ins[3], a, b)
                if r.__class__ is Fm:
                    q = self.quick(st, r)
                    if q is not None:
                        r = q
                regs[ins[1]] = r if r.__class__ is Fm else int(r)
            elif op == 'bin':
                a = ins[4]
                a = regs[a] if a.__class__ is int else a[0]
                b = ins[5]
                b = regs[b] if b.__class__ is int else b[0]
                regs[ins[1]] = fnum(self.binop(st, ins[2], ins[3], a, b))
            elif op == 'cast':
                a = ins[4]
                a = regs[a] if a.__class__ is int else a[0]
                regs[ins[1]] = self.cast(st, ins[2], ins[3], a, ins[5])
            elif op == 'alloca':
                oid = self.newobj(st)
                fr.objs.append(oid)
                regs[ins[1]] = oid << OBJ_SHIFT
            elif op == 'extract':
                a = ins[2]
                a = regs[a] if a.__class__ is int else a[0]
                for i in ins[3]:
                    a = a[i]
                regs[ins[1]] = a
            elif op == 'insert':
                a = ins[2]
                a = regs[a] if a.__class__ is int else a[0]
                v = ins[3]
                v = regs[v] if v.__class__ is int else v[0]
                regs[ins[1]] = self.insert(a, v, ins[4])
            elif op == 'select':
                c = ins[2]
                c = regs[c] if c.__class__ is int else c[0]
                a = ins[3]
                a = regs[a] if a.__class__ is int else a[0]
                b = ins[4]
                b = regs[b] if b.__class__ is int else b[0]
                if c.__class__ is Fm:
                    if a.__class__ is int and b.__class__ is int and a == 1 and b == 0:
                        regs[ins[1]] = c
                    elif a.__class__ is int and b.__class__ is int and a == 0 and b == 1:
                        regs[ins[1]] = neg(c)
                    else:
                        regs[ins[1]] = a if self.decide(st, c) else b
                elif c is None:
                    raise Unsupported('select on an undefined value')
                else:
                    if c.__class__ is not int:
                        c = self.decide(st, self.lowbit(st, c, 1))
                    regs[ins[1]] = a if c else b
            elif op == 'switch':
                c = ins[1]
                c = regs[c] if c.__class__ is int else c[0]
                w = ins[2]
                tgt = ins[3]
                if c.__class__ is int:
                    for k, b in ins[4]:
                        if k == c:
                            tgt = b
                            break
                else:
                    for k, b in ins[4]:
                        f = self.icmp(st, 'eq', w, c, k)
                        if self.decide(st, tobool(f)):
                            tgt = b
                            break
                fr.prev = fr.bi
                fr.bi = tgt
                fr.ii = 0
                continue
            elif op == 'phi':
                # all phis of the block read their inputs at once
                vals = []
                i = fr.ii
                while block[i][0] == 'phi':
                    v = block[i][2][fr.prev]
                    vals.append((block[i][1], regs[v] if v.__class__ is int else v[0]))
                    i += 1
                for d, v in vals:
                    regs[d] = v
                fr.ii = i
                continue
            elif op == 'mov':
                a = ins[2]
                regs[ins[1]] = regs[a] if a.__class__ is int else a[0]
            elif op == 'rmw':
                a = self.reg(regs, ins[4])
                v = self.reg(regs, ins[5])
                if a.__class__ is not int:
                    a = self.addr(st, a)
                old = self.load_t(st, a, ins[3])
                w = ins[3][1] if ins[3][0] == 'i' else 64
                how = ins[2]
                if how == 'xchg':
                    new = v
                elif how in ('add', 'sub', 'and', 'or', 'xor'):
                    new = fnum(self.binop(st, how, w, old, v))
                elif how == 'nand':
                    new = self.binop(st, 'xor', w, self.binop(st, 'and', w, old, v), (1 << w) - 1)
                elif how in ('max', 'min', 'umax', 'umin'):
                    new = self.intrinsic(st, '@llvm.%s.i%d' % (how if how[0] == 'u' else 's' + how, w), [old, v], None)
                else:
                    raise Unsupported('atomicrmw ' + how)
                self.store_t(st, a, ins[3], new)
                regs[ins[1]] = old
            elif op == 'cas':
                a = self.reg(regs, ins[3])
                c = self.reg(regs, ins[4])
                v = self.reg(regs, ins[5])
                if a.__class__ is not int:
                    a = self.addr(st, a)
                old = self.load_t(st, a, ins[2])
                w = ins[2][1] if ins[2][0] == 'i' else 64
                hit = self.decide(st, tobool(self.icmp(st, 'eq', w, old, c)))
                if hit:
                    self.store_t(st, a, ins[2], v)
                regs[ins[1]] = (old, int(hit))
            elif op == 'unreachable':
                raise PathEnd('ub', 'unreachable code reached')
            elif op == 'asm':
                pass
            else:
                raise Unsupported('instruction %s' % (ins,))
            fr.ii += 1

    @staticmethod
    def reg(regs, a):
        return regs[a] if a.__class__ is int else a[0]

    def addr(self, st, a):
        if a is None:
            raise Unsupported('undefined pointer')
        raise Unsupported('symbolic pointer')

    def insert(self, agg, v, ix):
        l = list(agg)
        if len(ix) == 1:
            l[ix[0]] = v
        else:
            l[ix[0]] = self.insert(l[ix[0]], v, ix[1:])
        return tuple(l)


def fnum(f):
    return int(f) if f.__class__ is bool else f


from term import _norm  # noqa: E402
