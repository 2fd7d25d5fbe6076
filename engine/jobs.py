"""Describes jobs: expressions over the public interface with symbolic inputs.

The exact side of a harness computes in 128-bit integers.  Every job is checked
here to stay within them, so the reference itself cannot overflow."""
MIN, MAX = -(1 << 63), (1 << 63) - 1
UMAX = (1 << 64) - 1


class Sym:
    """one symbolic input"""
    def __init__(self, lo, hi, unsigned=False):
        self.lo, self.hi, self.unsigned = lo, hi, unsigned

    def __mul__(self, k):
        return Lin(0, [(self, k)])
    __rmul__ = __mul__

    def __add__(self, o):
        return Lin(0, [(self, 1)]) + o
    __radd__ = __add__

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + (-1 * o if isinstance(o, (Sym, Lin)) else -o)

    def __rsub__(self, o):
        return -1 * self + o


class Lin:
    """constant + sum of factor * input"""
    def __init__(self, c, terms):
        m = {}
        for s, f in terms:
            m[id(s)] = (s, m.get(id(s), (s, 0))[1] + f)
        self.c, self.terms = c, list(m.values())

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.terms)
        o = lin(o)
        return Lin(self.c + o.c, self.terms + o.terms)
    __radd__ = __add__

    def __mul__(self, k):
        return Lin(self.c * k, [(s, f * k) for s, f in self.terms])
    __rmul__ = __mul__

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + (-1 * o if isinstance(o, (Sym, Lin)) else -o)

    def __rsub__(self, o):
        return -1 * self + o

    def mag(self):
        return abs(self.c) + sum(abs(f) * max(abs(s.lo), abs(s.hi)) for s, f in self.terms)

    def word(self, lo=MIN, hi=MAX):
        a = self.c + sum(min(f * s.lo, f * s.hi) for s, f in self.terms)
        b = self.c + sum(max(f * s.lo, f * s.hi) for s, f in self.terms)
        assert lo <= a and b <= hi, 'input form leaves the machine word'


def lin(x):
    if isinstance(x, int):
        return Lin(x, [])
    if isinstance(x, Sym):
        return Lin(0, [(x, 1)])
    return x


def bits(b):
    return Sym(MIN, MAX) if b >= 64 else Sym(-(1 << b), 1 << b)


def pos(b):
    return Sym(1, 1 << b)


class R:
    """ratio of two signed integers"""
    def __init__(self, p, q=1):
        self.a = [lin(p), lin(q)]
        for x in self.a:
            x.word()

    def mag(self):
        return self.a[0].mag(), self.a[1].mag()

    def enc(self, ids):
        return [0] + form(self.a[0], ids) + form(self.a[1], ids)


class U:
    """ratio of two unsigned integers and a sign"""
    def __init__(self, positive, p, q=1):
        self.s = int(positive)
        self.a = [lin(p), lin(q)]
        for x in self.a:
            x.word(0, UMAX)

    def mag(self):
        return self.a[0].mag(), self.a[1].mag()

    def enc(self, ids):
        return [1, self.s] + form(self.a[0], ids) + form(self.a[1], ids)


class H:
    """homographic"""
    def __init__(self, x, *c):
        assert len(c) == 4
        self.x, self.a = x, [lin(v) for v in c]
        for v in self.a:
            v.word()

    def mag(self):
        p, q = self.x.mag()
        a, b, c, d = (v.mag() for v in self.a)
        return a * p + b * q, c * p + d * q

    def enc(self, ids):
        return [2] + self.x.enc(ids) + sum((form(v, ids) for v in self.a), [])


class C:
    """combine"""
    def __init__(self, x, y, *c):
        assert len(c) == 8
        self.x, self.y, self.a = x, y, [lin(v) for v in c]
        for v in self.a:
            v.word()

    def mag(self):
        p, q = self.x.mag()
        r, s = self.y.mag()
        m = [p * r, p * s, q * r, q * s]
        v = [x.mag() for x in self.a]
        return sum(x * y for x, y in zip(v, m)), sum(x * y for x, y in zip(v[4:], m))

    def enc(self, ids):
        return [3] + self.x.enc(ids) + self.y.enc(ids) + sum((form(v, ids) for v in self.a), [])


class T:
    """what is left of a number after reading k symbols, with primer pr (0 none, 1 turn, 2 reflect, 3 ground)"""
    def __init__(self, k, pr, x):
        self.k, self.pr, self.x = k, pr, x

    def mag(self):
        m = max(self.x.mag())
        return m, m

    def enc(self, ids):
        return [4, self.k, self.pr] + self.x.enc(ids)


def form(f, ids):
    out = [f.c, len(f.terms)]
    for s, k in f.terms:
        if id(s) not in ids:
            ids[id(s)] = (len(ids), s)
        out += [ids[id(s)][0], k]
    return out


def job(group, fn, k, exprs, cfg='checked', panic_ok=0, **kw):
    lim = (1 << 126)
    for e in exprs:
        p, q = e.mag()
        assert 2 * p < lim and 2 * q < lim, 'exact value may exceed the reference: %s' % group
    if fn in ('h_compare', 'h_same'):
        (p, q), (r, s) = exprs[0].mag(), exprs[1].mag()
        assert p * s < lim and r * q < lim, group
    if fn == 'h_consume':
        p, q = exprs[0].mag()
        assert max(p, q) << 63 <= lim, group
    ids = {}
    body = sum((e.enc(ids) for e in exprs), [])
    decl = [len(ids)]
    assert len(ids) <= 12
    for _, s in sorted(ids.values(), key=lambda v: v[0]):
        decl += [1, 0, 0] if s.unsigned else [0, s.lo, s.hi]
    d = dict(group=group, fn=fn, params=[k, panic_ok] + decl + body, cfg=cfg)
    d.update(kw)
    return d
