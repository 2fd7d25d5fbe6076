"""Integer terms and formulas used by the symbolic executor.

A Poly is a polynomial with integer coefficients over integer variables.  A
machine word of width w is represented by any Poly congruent to it modulo 2^w;
the executor chooses the signed or unsigned representative when an operation
needs one.  An Fm is a boolean combination of atoms `L <= b`, `L >= b`,
`L == b`, `L != b` where L is a Poly without constant term, in normal form."""
import random
from math import gcd


class Vars:
    """global table of integer variables"""
    lo = []
    hi = []
    name = []
    nl = []        # definition is not linear
    defn = []      # None for inputs, else ('div', poly, c) | ('mod',..) | ('idiv',..) | ('imod',..) | ('wrap',..)
    memo = {}

    @classmethod
    def new(cls, name, lo, hi, defn=None):
        i = len(cls.lo)
        cls.lo.append(lo)
        cls.hi.append(hi)
        cls.name.append(name)
        cls.defn.append(defn)
        cls.nl.append(defn is not None and any(
            isinstance(x, Poly) and any(len(m) > 1 or cls.nl[m[0]] for m in x.t) for x in defn[1:3]) or
            defn is not None and defn[0] in ('idiv', 'imod'))
        return i

    @classmethod
    def reset(cls):
        cls.lo.clear()
        cls.hi.clear()
        cls.name.clear()
        cls.defn.clear()
        cls.nl.clear()
        cls.memo.clear()
        Poly.Z.clear()


class Poly:
    __slots__ = ('t', 'c', 'k', 'h', 'iv')
    Z = {}

    def __init__(self, t, c):
        self.t = t
        self.c = c
        self.k = None
        self.h = None
        self.iv = None

    def key(self):
        k = self.k
        if k is None:
            k = self.k = tuple(sorted(self.t.items()))
        return k

    def __hash__(self):
        h = self.h
        if h is None:
            h = self.h = hash((self.key(), self.c))
        return h

    def __eq__(self, o):
        if self is o:
            return True
        return isinstance(o, Poly) and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def vars(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    def interval(self):
        """interval from the declared bounds of the variables"""
        iv = self.iv
        if iv is None:
            iv = self.iv = interval(self, NOVB)
        return iv

    def __repr__(self):
        return ' + '.join(['%d*%s' % (c, '*'.join(Vars.name[v] for v in m)) for m, c in self.key()] + [str(self.c)])


NOVB = {}


def interval(p, vb):
    lo = hi = p.c
    LO = Vars.lo
    HI = Vars.hi
    for m, c in p.t.items():
        if len(m) == 1:
            v = m[0]
            b = vb.get(v)
            if b is None:
                a, b = LO[v], HI[v]
            else:
                a, b = b
        elif len(m) == 2 and m[0] == m[1]:
            v = m[0]
            b = vb.get(v)
            if b is None:
                a, b = LO[v], HI[v]
            else:
                a, b = b
            if a >= 0:
                a, b = a * a, b * b
            elif b <= 0:
                a, b = b * b, a * a
            else:
                a, b = 0, max(a * a, b * b)
        else:
            a = b = 1
            for v in m:
                q = vb.get(v)
                if q is None:
                    x, y = LO[v], HI[v]
                else:
                    x, y = q
                p1 = a * x
                p2 = a * y
                p3 = b * x
                p4 = b * y
                a = min(p1, p2, p3, p4)
                b = max(p1, p2, p3, p4)
        if c > 0:
            lo += c * a
            hi += c * b
        else:
            lo += c * b
            hi += c * a
    return lo, hi


def mkvar(v):
    return Poly({(v,): 1}, 0)


def padd(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a + b
        a, b = b, a
    if isinstance(b, int):
        return a if b == 0 else Poly(a.t, a.c + b)
    t = dict(a.t)
    for m, c in b.t.items():
        x = t.get(m, 0) + c
        if x:
            t[m] = x
        else:
            t.pop(m, None)
    c = a.c + b.c
    return Poly(t, c) if t else c


def pscale(a, k):
    if isinstance(a, int):
        return a * k
    if k == 0:
        return 0
    if k == 1:
        return a
    return Poly({m: c * k for m, c in a.t.items()}, a.c * k)


def psub(a, b):
    return padd(a, pscale(b, -1))


def pmul(a, b):
    if isinstance(a, int):
        return pscale(b, a) if not isinstance(b, int) else a * b
    if isinstance(b, int):
        return pscale(a, b)
    t = {}
    for m, c in a.t.items():
        for n, d in b.t.items():
            k = tuple(sorted(m + n))
            t[k] = t.get(k, 0) + c * d
    if a.c:
        for n, d in b.t.items():
            t[n] = t.get(n, 0) + a.c * d
    if b.c:
        for n, d in a.t.items():
            t[n] = t.get(n, 0) + b.c * d
    t = {m: c for m, c in t.items() if c}
    c = a.c * b.c
    return Poly(t, c) if t else c


class Fm:
    __slots__ = ('op', 'a', 'b', 'h')

    def __init__(self, op, a, b=None):
        self.op = op
        self.a = a
        self.b = b
        self.h = None

    def __hash__(self):
        h = self.h
        if h is None:
            h = self.h = hash((self.op, self.a, self.b))
        return h

    def __eq__(self, o):
        if self is o:
            return True
        return isinstance(o, Fm) and self.op == o.op and hash(self) == hash(o) and self.a == o.a and self.b == o.b

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        if self.op in ('and', 'or'):
            return '(' + (' %s ' % self.op).join(map(repr, self.a)) + ')'
        return '[%r %s %r]' % (self.a, self.op, self.b)


def _norm(p):
    """p = g*s*L + c with L normal; returns L, g, s"""
    g = 0
    for c in p.t.values():
        g = gcd(g, c)
    first = min(p.t)
    s = 1 if p.t[first] > 0 else -1
    if g == 1 and s == 1:
        if p.c == 0:
            return p, 1, 1
        return Poly(p.t, 0), 1, 1
    return Poly({m: c // g * s for m, c in p.t.items()}, 0), g, s


def le0(p):
    """formula p <= 0"""
    if isinstance(p, int):
        return p <= 0
    L, g, s = _norm(p)
    # g*s*L <= -c
    if s > 0:
        return Fm('le', L, (-p.c) // g)
    return Fm('ge', L, -((-p.c) // g))


def eq0(p):
    if isinstance(p, int):
        return p == 0
    L, g, s = _norm(p)
    if p.c % g:
        return False
    return Fm('eq', L, -p.c // g * s)


def le(a, b):
    return le0(psub(a, b))


def lt(a, b):
    return le0(padd(psub(a, b), 1))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    return eq0(psub(a, b))


def neg(f):
    if f is True or f is False:
        return not f
    o = f.op
    if o == 'le':
        return Fm('ge', f.a, f.b + 1)
    if o == 'ge':
        return Fm('le', f.a, f.b - 1)
    if o == 'eq':
        return Fm('ne', f.a, f.b)
    if o == 'ne':
        return Fm('eq', f.a, f.b)
    if o == 'and':
        return Fm('or', tuple(neg(x) for x in f.a))
    return Fm('and', tuple(neg(x) for x in f.a))


def f_and(*fs):
    out = []
    for f in fs:
        if f is False:
            return False
        if f is True:
            continue
        if f.op == 'and':
            for x in f.a:
                if x not in out:
                    out.append(x)
        elif f not in out:
            out.append(f)
    if not out:
        return True
    return out[0] if len(out) == 1 else Fm('and', tuple(out))


def f_or(*fs):
    out = []
    for f in fs:
        if f is True:
            return True
        if f is False:
            continue
        if f.op == 'or':
            for x in f.a:
                if x not in out:
                    out.append(x)
        elif f not in out:
            out.append(f)
    if not out:
        return False
    return out[0] if len(out) == 1 else Fm('or', tuple(out))


def f_iff(a, b):
    return f_or(f_and(a, b), f_and(neg(a), neg(b)))


def tobool(x):
    """concrete 0/1 int or Fm/bool -> Fm/bool"""
    if isinstance(x, int):
        return bool(x)
    return x


def evalp(p, model):
    if isinstance(p, int):
        return p
    s = p.c
    for m, c in p.t.items():
        x = c
        for v in m:
            y = model.get(v)
            if y is None:
                y = evalv(v, model)
            x *= y
        s += x
    return s


def guess(seed, name, lo, hi):
    """a pseudo-random value for an input; only used to find feasible paths cheaply"""
    r = random.Random('%d/%s' % (seed, name))
    k = seed % 6
    if k == 0:
        b = r.choice((3, 8))
    elif k == 1:
        b = r.choice((2, 5, 12))
    elif k == 2:
        b = r.choice((4, 16, 30))
    elif k == 3:
        b = r.choice((20, 31, 60))
    elif k == 4:
        b = r.choice((1, 3, 50, 63))
    else:
        b = r.choice((6, 10))
    x = r.randint(-(1 << b), 1 << b)
    if seed % 7 == 0:
        x *= 2
    if lo >= 0:
        x = abs(x)
    if not lo <= x <= hi:
        if hi - lo > 1000 and r.random() < 0.3:
            x = r.choice((lo, hi, hi - 1, lo + 1))
        else:
            x = lo + (x - lo) % (hi - lo + 1)
    return x


def evalv(v, model):
    d = Vars.defn[v]
    if d is None:
        lo, hi = Vars.lo[v], Vars.hi[v]
        seed = model.get(-1)
        x = 0 if lo <= 0 <= hi else lo
        if seed:
            x = guess(seed, Vars.name[v], lo, hi)
    else:
        k = d[0]
        n = evalp(d[1], model)
        if k == 'div':
            x = n // d[2]
        elif k == 'mod':
            x = n % d[2]
        else:
            q = evalp(d[2], model)
            if k == 'idiv':
                x = n // q if q else 0
            else:
                x = n % q if q else 0
    model[v] = x
    return x


def evalf(f, model):
    if f is True or f is False:
        return f
    o = f.op
    if o == 'and':
        return all(evalf(x, model) for x in f.a)
    if o == 'or':
        return any(evalf(x, model) for x in f.a)
    x = evalp(f.a, model)
    if o == 'le':
        return x <= f.b
    if o == 'ge':
        return x >= f.b
    if o == 'eq':
        return x == f.b
    return x != f.b
