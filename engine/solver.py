"""SMT back end: z3 used incrementally along the path condition, with a fresh
z3 and then cvc5 as fallbacks.  Answers are 'sat' (with a model), 'unsat' or
'unknown'; unknown is never turned into a verdict."""
import time
import z3
from term import Vars, Poly, Fm, evalf


def is_linear(f):
    if f is True or f is False:
        return True
    if f.op in ('and', 'or'):
        return all(is_linear(g) for g in f.a)
    nl = Vars.nl
    return all(len(m) == 1 and not nl[m[0]] for m in f.a.t)


class Node:
    """one conjunct of a path condition; path conditions share prefixes"""
    __slots__ = ('parent', 'depth', 'f', 'lin')

    def __init__(self, parent, f):
        self.parent = parent
        self.depth = parent.depth + 1 if parent is not None else 1
        self.f = f
        self.lin = is_linear(f)


class Stack:
    """an incremental z3 solver kept in step with a path condition"""

    def __init__(self, owner, only_linear, ms):
        self.o = owner
        self.only_linear = only_linear
        self.s = z3.Solver()
        self.s.set('timeout', ms)
        self.stack = []
        self.levels = []
        self.have = set()

    def assert_defs(self, f):
        todo = set()
        self.o.fvars(f, todo)
        todo -= self.have
        lev = self.levels[-1]
        while todo:
            v = todo.pop()
            self.have.add(v)
            lev.append(v)
            cs, more = self.o.defs(v)
            if self.only_linear and Vars.defn[v] is not None and Vars.defn[v][0] in ('idiv', 'imod'):
                cs = cs[:2]
            self.s.add(*cs)
            todo |= more - self.have

    def push(self, f):
        self.s.push()
        self.levels.append([])
        self.assert_defs(f)
        self.s.add(self.o.zf(f))

    def pop(self, n):
        for _ in range(n):
            for v in self.levels.pop():
                self.have.discard(v)
        self.s.pop(n)

    def sync(self, node):
        st = self.stack
        path = []
        n = node
        while n is not None and n.depth > len(st):
            path.append(n)
            n = n.parent
        k = n.depth if n is not None else 0
        while n is not None and st[n.depth - 1] is not n:
            path.append(n)
            n = n.parent
            k -= 1
        extra = len(st) - k
        if extra:
            self.pop(extra)
            del st[k:]
        for n in reversed(path):
            if self.only_linear and not n.lin:
                self.push(True)
            else:
                self.push(n.f)
            st.append(n)

    def check(self, node, f):
        self.sync(node)
        self.push(f)
        r = self.s.check()
        m = self.o.getmodel(self.s) if r == z3.sat else None
        self.pop(1)
        return r, m


class Solver:
    def __init__(self, quick_ms=100, slow_ms=20000, use_cvc5=True, mid_ms=500):
        self.mid_ms = mid_ms
        self.quick_ms = quick_ms
        self.slow_ms = slow_ms
        self.use_cvc5 = use_cvc5
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.fallbacks = 0
        self.cvc5_used = 0
        self.time = 0.0
        self.lin_q = 0
        self.full_q = 0
        self.reset()

    def reset(self):
        self.full = Stack(self, False, self.quick_ms)
        self.linear = Stack(self, True, self.quick_ms)
        self.zv = {}
        self.zp = {}
        self.zfm = {}
        self.npush = 0

    # --- translation
    def var(self, v):
        x = self.zv.get(v)
        if x is None:
            x = self.zv[v] = z3.Int('v%d' % v)
        return x

    def lin(self, p):
        """z3 term of a Poly, constant included"""
        k = (p.key(), p.c)
        x = self.zp.get(k)
        if x is None:
            ts = []
            for m, c in p.key():
                t = self.var(m[0])
                for v in m[1:]:
                    t = t * self.var(v)
                ts.append(t if c == 1 else z3.IntVal(c) * t)
            if p.c or not ts:
                ts.append(z3.IntVal(p.c))
            x = ts[0] if len(ts) == 1 else z3.Sum(ts)
            self.zp[k] = x
        return x

    def term(self, p):
        return z3.IntVal(p) if isinstance(p, int) else self.lin(p)

    def zf(self, f):
        if f is True or f is False:
            return z3.BoolVal(f)
        x = self.zfm.get(f)
        if x is None:
            o = f.op
            if o == 'and':
                x = z3.And([self.zf(g) for g in f.a])
            elif o == 'or':
                x = z3.Or([self.zf(g) for g in f.a])
            else:
                t = self.lin(f.a)
                b = z3.IntVal(f.b)
                x = t <= b if o == 'le' else t >= b if o == 'ge' else t == b if o == 'eq' else t != b
            self.zfm[f] = x
        return x

    def fvars(self, f, out):
        if f is True or f is False:
            return
        if f.op in ('and', 'or'):
            for g in f.a:
                self.fvars(g, out)
        else:
            for m in f.a.t:
                out.update(m)

    def defs(self, v):
        """z3 constraints defining variable v, and the variables they mention"""
        x = self.var(v)
        d = Vars.defn[v]
        cs = [x >= Vars.lo[v], x <= Vars.hi[v]]
        more = set()
        if d is not None:
            k, n = d[0], d[1]
            if isinstance(n, Poly):
                more |= n.vars()
            if isinstance(d[2], Poly):
                more |= d[2].vars()
            q, r = Vars.memo[d[3]]
            more |= {q, r}
            if k == 'div':
                cs.append(self.term(n) == d[2] * self.var(q) + self.var(r))
            elif k == 'mod':
                pass
            elif k == 'idiv':
                den = self.term(d[2])
                cs.append(z3.Implies(den > 0, z3.And(self.term(n) == den * self.var(q) + self.var(r),
                                                     self.var(r) < den)))
        return cs, more

    def check(self, node, f, model=True, effort=0):
        """satisfiability of path condition `node` together with formula f"""
        t0 = time.time()
        self.queries += 1
        self.npush += 1
        if self.npush > 20000:
            self.reset()
        lin = is_linear(f)
        nonlin = [] if lin else [f]
        n = node
        while n is not None:
            if not n.lin:
                nonlin.append(n.f)
            n = n.parent
        if not nonlin:
            r, m = self.linear.check(node, f)
        else:
            r = None
            if lin:
                r, m = self.linear.check(node, f)
                self.lin_q += 1
                if r == z3.sat:
                    if not all(evalf(g, m) for g in nonlin):
                        r = None
                elif r == z3.unknown:
                    r = None
            if r is None:
                self.full_q += 1
                r, m = self.full.check(node, f)
                if r == z3.sat and not self.holds(node, f, m):
                    r = z3.unknown
        if r == z3.unknown:
            r, m = self.fallback(node, f, self.slow_ms if effort else self.mid_ms, not nonlin)
        self.time += time.time() - t0
        if r == z3.sat:
            self.sat += 1
            return 'sat', m
        if r == z3.unsat:
            self.unsat += 1
            return 'unsat', None
        self.unknown += 1
        return 'unknown', None

    def getmodel(self, s):
        zm = s.model()
        out = {}
        for d in zm.decls():
            n = d.name()
            if n[0] == 'v':
                out[int(n[1:])] = zm[d].as_long()
        return out

    def all_constraints(self, node, f):
        fs = [f]
        while node is not None:
            fs.append(node.f)
            node = node.parent
        todo = set()
        for g in fs:
            self.fvars(g, todo)
        done = set()
        cs = []
        while todo:
            v = todo.pop()
            done.add(v)
            c, more = self.defs(v)
            cs += c
            todo |= more - done
        return cs + [self.zf(g) for g in fs]

    def fallback(self, node, f, total_ms, lin=False):
        """a portfolio of fresh solvers with growing time limits: nonlinear queries are heavy-tailed"""
        self.fallbacks += 1
        cs = self.all_constraints(node, f)
        ms = 100
        seed = 0
        t0 = time.time()
        while True:
            for k in (0, 1) if lin else (0, 2, 3, 4):
                if k == 0:
                    s = z3.Solver()
                elif k == 1:
                    s = z3.SolverFor('QF_LIA')
                elif k == 2:
                    s = z3.Tactic('smt').solver()
                elif k == 3:
                    s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'smt').solver()
                else:
                    s = z3.SolverFor('QF_NIA')
                s.set('timeout', ms)
                if seed:
                    s.set('random_seed', seed)
                s.add(*cs)
                r = s.check()
                if r == z3.sat:
                    m = self.getmodel(s)
                    # the solver's model must be a model of the terms as well
                    if self.holds(node, f, m):
                        return r, m
                if r == z3.unsat:
                    return r, None
                if (time.time() - t0) * 1000 > total_ms:
                    if self.use_cvc5 and total_ms > 2000:
                        r, m = self.cvc5(cs)
                        if r != z3.sat or self.holds(node, f, m):
                            return r, m
                    return z3.unknown, None
            ms *= 3
            seed += 17

    @staticmethod
    def holds(node, f, m):
        # variables with a definition are worked out again from the inputs
        m = {v: x for v, x in m.items() if Vars.defn[v] is None}
        if any(not Vars.lo[v] <= x <= Vars.hi[v] for v, x in m.items()):
            return False
        if not evalf(f, m):
            return False
        while node is not None:
            if not evalf(node.f, m):
                return False
            node = node.parent
        return True

    def cvc5(self, cs):
        import cvc5
        s = z3.Solver()
        s.add(*cs)
        self.cvc5_used += 1
        sv = cvc5.Solver()
        sv.setOption('tlimit-per', str(self.slow_ms))
        sv.setOption('produce-models', 'true')
        sv.setLogic('QF_NIA')
        p = cvc5.InputParser(sv)
        txt = '\n'.join(l for l in s.to_smt2().split('\n')
                        if not l.startswith(('(set-', '(check-sat', '(exit')))
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
        sm = p.getSymbolManager()
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            c.invoke(sv, sm)
        r = sv.checkSat()
        if r.isUnsat():
            return z3.unsat, None
        if r.isSat():
            m = {}
            for t in sm.getDeclaredTerms():
                n = str(t)
                if n[0] == 'v':
                    m[int(n[1:])] = sv.getValue(t).getIntegerValue()
            return z3.sat, m
        return z3.unknown, None
