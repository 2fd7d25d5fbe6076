"""The jobs that decide each property.

Every job runs one harness function with some inputs symbolic and the rest
fixed; the executor follows all of its paths.  Families of jobs are shared
between properties where the same runs decide several of them."""
from jobs import *

ASSUMPTIONS = [
    'The LLVM IR emitted by rustc for the working tree (no optimisation, mem2reg) is what the executor decides; '
    'sampled paths are replayed on native builds of the same sources.',
    'Memory allocation succeeds and the machine word has 64 bits.',
    'The exact reference computes in 128-bit integers; every job is checked to stay inside them.',
    'z3 and cvc5 are trusted for unsat answers; sat answers are replayed on the real build.',
]

# operands with every primer, special values and a few lengths of expansion
POINTS = [(0, 1), (1, 1), (-1, 1), (1, 2), (-1, 2), (2, 1), (-2, 1), (1, 3), (-1, 3), (2, 3), (-2, 3),
          (3, 2), (-5, 3), (7, 5), (-7, 5), (22, 7), (-4, 9), (13, 16)]

# coefficients (nx, n, dx, d)
HOM = [(2, -3, 4, 5), (1, 0, 0, 3), (7, -22, 5, -3), (0, 1, 1, 0), (3, 1, -6, 4), (1, 1, 1, -1), (-2, 1, 4, 3),
       (5, 0, 0, -1), (1, -1, 0, 1), (6, 4, 2, 8), (-9, 2, -3, 7), (0, -4, 3, 1), (1, 2, 2, 4), (12, -8, 5, 5)]

# coefficients (nxy, nx, ny, n, dxy, dx, dy, d)
ADD, SUB = (0, 1, 1, 0, 0, 0, 0, 1), (0, 1, -1, 0, 0, 0, 0, 1)
MUL, DIV = (1, 0, 0, 0, 0, 0, 0, 1), (0, 1, 0, 0, 0, 0, 1, 0)
COMB = [ADD, SUB, MUL, DIV, (1, 2, 3, 4, 5, 6, -7, 8), (2, -4, 6, 8, 1, 3, 5, 7), (-3, 1, 0, 2, 0, 4, 1, -5),
        (4, 2, -2, 6, 8, -2, 4, 2), (0, 0, 0, 5, 1, 1, 1, 1), (1, -1, 1, -1, 2, 0, 0, 3)]


def word(w, p, q):
    """the fraction whose expansion starts with the symbols w and continues as p/q"""
    for c in reversed(w):
        p, q = (p, 2 * q) if c == 'A' else (q, p + q)
    return p, q


def primed(pr, p, q):
    return {'': (p, q), 'T': (q, p), 'R': (-p, q), 'G': (-q, p)}[pr]


def tail(b, low=None):
    """a fraction in (0,1) with two free inputs; low: below or above one half"""
    s, t = pos(b), pos(b)
    if low is None:
        return lin(s), s + t
    return (lin(s), 2 * s + t) if low else (s + t, 2 * s + t)


WORDS = ['', 'A', 'U', 'AU', 'UA', 'UU', 'AAUA', 'UUAU', 'UAAUAUUA', 'AUUUAAUAUAAU']


# ---------------------------------------------------------------- families

def ratio_full(k):
    """ratios of any two machine words"""
    s, t = bits(64), bits(64)
    L = [job('ratio', 'h_exact', k, [R(s, t)], need=(0, 1, 2), cost=20)]
    for p in (0, 1):
        u, v = Sym(0, UMAX, True), Sym(0, UMAX, True)
        L.append(job('ratio-u%d' % p, 'h_exact', k, [U(p, u, v)], need=(0, 1, 2), cost=20))
    return L


def ratio_deep(words, k, b=20):
    """ratios whose expansion starts with a long given word"""
    L = []
    for i, w in enumerate(words):
        p, q = word(w, *tail(b))
        p, q = primed(('', 'T', 'R', 'G')[i % 4], p, q)
        L.append(job('ratio-deep', 'h_exact', len(w) + k, [R(p, q)], need=(0,), cost=3))
    return L


LONG = ['A' * 20, 'U' * 24, 'AU' * 10, 'UAA' * 8, 'AAU' * 7, 'UUA' * 9, 'AUUAUAAUAUUUAAAUAUUA']
LONGER = ['A' * 40, 'U' * 44, 'AU' * 20, 'UAA' * 14, 'UUA' * 16, 'AAAUUUU' * 5]


LONGEST = ['A' * 48, 'U' * 56, 'A' * 30 + 'U' * 20, 'U' * 25 + 'A' * 22, 'UA' * 22, 'AAU' * 14, 'U' * 62, 'UUUA' * 12]


def ratio_end(b, wr=False):
    """small ratios, read to the end of their expansions"""
    s, t = bits(b), bits(b)
    L = [job('ratio-end', 'h_exact', 12 * b, [R(s, t)], need=(0, 1, 2), cost=30)]
    return L


def hom_all(xs, b, k, panic_ok=0, cfg='checked', **kw):
    """all four coefficients free over fixed operands"""
    L = []
    for x in xs:
        c = [bits(b) for _ in range(4)]
        L.append(job('hom-all', 'h_exact', k, [H(R(*x), *c)], cfg=cfg, panic_ok=panic_ok, need=(0, 1),
                     cost=40 + 40 * k, **kw))
    return L


def hom_two(xs, b, k, which, panic_ok=0, cfg='checked', **kw):
    """two coefficients free, the others fixed"""
    L = []
    for i, x in enumerate(xs):
        for j, (u, v) in enumerate(which):
            c = list(HOM[(3 * i + j) % len(HOM)])
            if (u, v) == (0, 1) and c[2] == c[3] == 0:
                c[3] = 5
            c[u], c[v] = bits(b), bits(b)
            L.append(job('hom-two', 'h_exact', k, [H(R(*x), *c)], cfg=cfg, panic_ok=panic_ok, cost=10, **kw))
    return L


def hom_x(coefs, b, k, panic_ok=2, **kw):
    """fixed coefficients over every ratio of b-bit integers"""
    s, t = bits(b), pos(b)
    return [job('hom-x', 'h_exact', k, [H(R(s, t), *c)], panic_ok=panic_ok, cost=5, **kw) for c in coefs]


def hom_deep(coefs, words, k, b=3):
    """fixed coefficients over operands whose expansion starts with a long word"""
    L = []
    for i, c in enumerate(coefs):
        for j, w in enumerate(words):
            p, q = primed(('', 'T', 'R', 'G')[(i + j) % 4], *word(w, *tail(b)))
            L.append(job('hom-deep', 'h_exact', len(w) + k, [H(R(p, q), *c)], panic_ok=2, cost=6))
    return L


def comb_num(pairs, b, k, part, panic_ok=0, cfg='checked', **kw):
    """four coefficients of a combine free: the numerator, the denominator, or a mixed set"""
    L = []
    for i, (x, y) in enumerate(pairs):
        c = list(COMB[(i * 3 + 4) % len(COMB)])
        if part == 'num' and not any(c[4:]):
            c = list(COMB[4])
        for j in {'num': (0, 1, 2, 3), 'den': (4, 5, 6, 7), 'two': (1, 2), 'mix': (3, 7)}[part]:
            c[j] = bits(b)
        L.append(job('comb-' + part, 'h_exact', k, [C(R(*x), R(*y), *c)], cfg=cfg, panic_ok=panic_ok, cost=20, **kw))
    return L


def comb_x(coefs, ys, b, k, side, panic_ok=2, **kw):
    """one operand of a combine free, the rest fixed"""
    L = []
    for c in coefs:
        for y in ys:
            s, t = bits(b), pos(b)
            e = C(R(s, t), R(*y), *c) if side == 'x' else C(R(*y), R(s, t), *c)
            L.append(job('comb-' + side, 'h_exact', k, [e], panic_ok=panic_ok, cost=8, **kw))
    return L


def compare_point(ys, b):
    """every ratio of b-bit integers against fixed numbers"""
    L = []
    for i, y in enumerate(ys):
        s, t = bits(b), pos(b)
        a, c = R(s, t), R(*y)
        L.append(job('cmp-point', 'h_compare', 0, [a, c] if i % 2 else [c, a], need=(0, 1, 2, 3), cost=3))
    return L


def compare_word(words, b):
    """two free numbers that share a prefix and then part"""
    L = []
    for i, w in enumerate(words):
        for pr in ('', 'T', 'R', 'G'):
            for lo in (0, 1):
                x = primed(pr, *word(w, *tail(b, lo)))
                y = primed(pr, *word(w, *tail(b, not lo)))
                L.append(job('cmp-word', 'h_compare', 0, [R(*x), R(*y)], need=(0,), cost=1))
            # one ends where the other goes on
            x = primed(pr, *word(w, 1, 2))
            y = primed(pr, *word(w, *tail(b)))
            L.append(job('cmp-end', 'h_compare', 0, [R(*x), R(*y)] if i % 2 else [R(*y), R(*x)], need=(0, 1, 2, 3), cost=1))
    return L


def compare_sign(b):
    """two free numbers with different primers"""
    L = []
    for p in ('', 'T', 'R', 'G'):
        for r in ('', 'T', 'R', 'G'):
            if p != r:
                x, y = primed(p, *tail(b)), primed(r, *tail(b))
                L.append(job('cmp-sign', 'h_compare', 0, [R(*x), R(*y)], need=(0,), cost=1))
    return L


def compare_twin(words, b):
    """two free numbers that share a very long prefix, and a number with its own twin"""
    L = []
    for i, w in enumerate(words):
        pr = ('', 'T', 'R', 'G')[i % 4]
        lo = (i // 4) % 2
        try:
            x = R(*primed(pr, *word(w, *tail(b, lo))))
            y = R(*primed(pr, *word(w, *tail(b, not lo))))
            h = R(*primed(pr, *word(w, 1, 2)))
            z = R(*primed(pr, *word(w, *tail(b))))
        except AssertionError:
            continue
        L.append(job('cmp-twin', 'h_compare', 0, [x, y], need=(0,), cost=2))
        L.append(job('cmp-twin', 'h_compare', 0, [h, z] if i % 2 else [z, h], need=(0, 1, 2, 3), cost=2))
    return L


def compare_small(b):
    """all pairs of small ratios"""
    s, t, u, v = bits(b), pos(b), bits(b), pos(b)
    return [job('cmp-small', 'h_compare', 0, [R(s, t), R(u, v)], need=(0, 1, 2, 3), cost=30)]


def compare_near(ks):
    """neighbouring fractions s/(s+k) and (s+1)/(s+k+1), and their reciprocals"""
    L = []
    for k in ks:
        s = Sym(1, 1 << 40)
        L.append(job('cmp-near', 'h_compare', 0, [R(s, s + k), R(s + 1, s + (k + 1))], need=(0, 1), cost=1))
    return L


def compare_self(b):
    """a free number against itself, written with a common factor"""
    L = []
    for f in (1, 2, 3, 6):
        s, t = bits(b), pos(b)
        L.append(job('cmp-self', 'h_compare', 0, [R(s, t), R(f * s, f * t)], need=(0, 2), cost=10))
    return L


def compare_lazy():
    """the sign decides, although the expansions cannot be read without overflow"""
    L = []
    for a, b in [((1, 3001), (7006, 6999)), ((2, 3001), (7006, 6999)), ((1, 3001), (7057, 6999))]:
        s, t = Sym(1, 2), Sym(-2, -1)
        x = C(R(*a), R(*b), s, 0, 0, 0, 0, 0, 0, 1)
        y = C(R(*a), R(*b), t, 0, 0, 0, 0, 0, 0, 1)
        L.append(job('cmp-lazy', 'h_compare', 0, [x, y], need=(0, 3), cost=3))
        L.append(job('cmp-lazy', 'h_compare', 0, [y, x], need=(0, 1), cost=3))
    return L


def compare_built(b):
    """results of arithmetic compared"""
    L = []
    s = bits(b)
    for c, x, e in [((1, 1, 0, 1), (1, 3), (4, 3)), ((2, 0, 0, 1), (-5, 3), (-10, 3)), ((0, 1, 1, 0), (22, 7), (7, 22))]:
        L.append(job('cmp-built', 'h_compare', 0, [H(R(*x), *c), R(s, 7)], need=(0, 1, 3), cost=3))
        L.append(job('cmp-built', 'h_compare', 0, [R(s, 11), H(R(*x), *c)], need=(0, 1, 3), cost=3))
    return L


def nest_hh(pairs, b, k, panic_ok=2):
    """one homographic on another, over every ratio of b-bit integers"""
    L = []
    for c1, c2 in pairs:
        s, t = bits(b), pos(b)
        L.append(job('nest-hh', 'h_exact', k, [H(H(R(s, t), *c1), *c2)], panic_ok=panic_ok, cost=8))
    return L


def nest_coef(xs, b, k, panic_ok=2):
    """coefficients free at both levels of a nest of homographics"""
    L = []
    for i, x in enumerate(xs):
        c1, c2 = list(HOM[i % len(HOM)]), list(HOM[(i + 4) % len(HOM)])
        c1[i % 4] = bits(b)
        c2[(i + 1) % 4] = bits(b)
        L.append(job('nest-coef', 'h_exact', k, [H(H(R(*x), *c1), *c2)], panic_ok=panic_ok, cost=8))
    return L


def nest_ch(sets, b, k, panic_ok=2):
    """a combine of a homographic"""
    L = []
    for i, (c1, c2, y) in enumerate(sets):
        s, t = bits(b), pos(b)
        x, y = H(R(s, t), *c1), R(*y)
        L.append(job('nest-ch', 'h_exact', k, [C(x, y, *c2) if i % 2 else C(y, x, *c2)], panic_ok=panic_ok, cost=25))
    return L


def nest_hc(sets, b, k, panic_ok=2):
    """a homographic of a combine"""
    L = []
    for i, (c1, c2, y) in enumerate(sets):
        s, t = bits(b), pos(b)
        x = C(R(s, t), R(*y), *c2) if i % 2 else C(R(*y), R(s, t), *c2)
        L.append(job('nest-hc', 'h_exact', k, [H(x, *c1)], panic_ok=panic_ok, cost=20))
    return L


def nest_cc(sets, b, k, panic_ok=2):
    """a combine of combines with free coefficients"""
    L = []
    for i, (x, y, z) in enumerate(sets):
        c1, c2 = list(COMB[i % len(COMB)]), list(COMB[(i + 3) % len(COMB)])
        c1[i % 4] = bits(b)
        c2[(i + 2) % 4] = bits(b)
        e = C(R(*x), R(*y), *c1)
        L.append(job('nest-cc', 'h_exact', k, [C(e, R(*z), *c2) if i % 2 else C(R(*z), e, *c2)], panic_ok=panic_ok, cost=20))
    return L


def nest_deep(depths, b, k, panic_ok=2):
    """towers of transformations, and sums of sums, over free operands"""
    L = []
    steps = [(1, 1, 0, 2), (1, 0, 1, 1), (2, -1, 0, 1), (0, 1, 1, 0), (1, -1, 0, 3), (-1, 2, 0, 1)]
    for n, d in enumerate(depths):
        for i in range(len(steps)):
            s, t = bits(b), pos(b)
            e = R(s, t)
            for j in range(d):
                e = H(e, *steps[(i * (n + 1) + j * (1 + i % 3)) % len(steps)])
            L.append(job('nest-tower', 'h_exact', k, [e], panic_ok=panic_ok, cost=10))
        for i, y in enumerate([(1, 3), (-2, 3), (3, 2)]):
            s = bits(b)
            e = R(s, 3)
            for j in range(d):
                z = R(*((y[0] + j) * (-1) ** j, y[1]) if (y[0] + j) else (5, 7))
                op = [ADD, SUB, MUL, (0, 1, 1, 1, 0, 0, 0, 2)][(i + j) % 4]
                e = C(e, z, *op) if j % 2 else C(z, e, *op)
            L.append(job('nest-chain', 'h_exact', k, [e], panic_ok=panic_ok, cost=20))
            # a balanced tree
            t = [R(bits(b) if i == j else 2 * j - 3, 3 + j) for j in range(4)]
            L.append(job('nest-tree', 'h_exact', k, [C(C(t[0], t[1], *ADD), C(t[2], t[3], *MUL), *SUB)], panic_ok=panic_ok, cost=20))
    return L


def constant(ms, b):
    """transformations with the same value everywhere, written with every factor: (expression, value)"""
    out = []
    vals = [(1, 2), (1, 1), (0, 1), (-1, 1), (-1, 2), (2, 1), (1, 3), (-5, 3)]
    n = 0
    for p, q in vals:
        for u, v in ms:
            f = Sym(1, 1 << b)
            x = POINTS[(5 * n + 3) % len(POINTS)]
            if u * x[0] + v * x[1] == 0:
                v += 2
            out.append((H(R(*x), u * p * f, v * p * f, u * q * f, v * q * f), (p, q)))
            y = POINTS[(7 * n + 4) % len(POINTS)]
            if u * x[0] * y[1] + v * y[0] * x[1] + x[1] * y[1] != 0:
                out.append((C(R(*x), R(*y), 0, u * p * f, v * p * f, p * f, 0, u * q * f, v * q * f, q * f), (p, q)))
            n += 1
    return out


FACTORS = [(1, 2), (0, 1), (3, -7)]


def pick(tier, quick, thorough):
    return quick if tier == 'quick' else thorough


NEST = [(HOM[0], COMB[0], (1, 3)), (HOM[2], COMB[2], (-5, 3)), (HOM[4], COMB[4], (2, 3)), (HOM[6], COMB[1], (22, 7)),
        (HOM[5], COMB[6], (-7, 5)), (HOM[9], COMB[3], (-1, 2)), (HOM[10], COMB[5], (3, 2)), (HOM[13], COMB[9], (-1, 3))]
TRIPLES = [((1, 3), (-5, 3), (2, 3)), ((-2, 3), (3, 2), (1, 2)), ((7, 5), (1, 2), (-1, 3)), ((2, 1), (-1, 2), (5, 3)),
           ((-1, 3), (-2, 1), (3, 2)), ((1, 2), (1, 3), (-1, 1)), ((0, 1), (2, 3), (7, 5)), ((1, 1), (-3, 2), (1, 3))]
HPAIRS = [(HOM[i], HOM[(5 * i + 3) % len(HOM)]) for i in range(len(HOM))]


def undefined_jobs(tier):
    """results that do not exist: zero denominators everywhere they can arise"""
    b = pick(tier, 20, 24)
    L = []
    s = bits(64)
    L.append(job('undef-ratio', 'h_exact', 0, [R(s, 0)], need=(1,), cost=1))
    for p in (0, 1):
        L.append(job('undef-ratio', 'h_exact', 0, [U(p, Sym(0, UMAX, True), 0)], need=(1,), cost=1))
    # the denominator of a homographic vanishes at the operand
    for x in POINTS:
        s, t, m = bits(b), bits(b), bits(b)
        L.append(job('undef-hom', 'h_exact', 1, [H(R(*x), s, t, m * x[1], m * -x[0])], need=(1,), panic_ok=2, cost=3))
    # it vanishes for one value of a free operand
    for c in HOM:
        s, t = bits(10), pos(10)
        L.append(job('undef-hom-x', 'h_exact', 0, [H(R(s, t), *c)], panic_ok=2, need=(0,), cost=3))
    # whole denominator zero
    s, t = bits(64), bits(64)
    for x in POINTS:
        L.append(job('undef-hom-0', 'h_exact', 1, [H(R(*x), s, t, 0, 0)], need=(1,), cost=2))
    for x, y in PAIRS:
        s, t, u, v = (bits(b) for _ in range(4))
        L.append(job('undef-comb-0', 'h_exact', 1, [C(R(*x), R(*y), s, t, u, v, 0, 0, 0, 0)], need=(1,), cost=3))
        m = bits(b)
        # the denominator has the factor q x - p, or q' y - p'
        L.append(job('undef-comb', 'h_exact', 1, [C(R(*x), R(*y), s, t, u, v, m * x[1], 0, m * -x[0], 0)], need=(1,),
                     panic_ok=2, cost=10))
        L.append(job('undef-comb', 'h_exact', 1, [C(R(*x), R(*y), u, s, v, t, 3 * y[1], -3 * y[0], m * y[1], m * -y[0])],
                     need=(1,), panic_ok=2, cost=10))
    # nothing over nothing
    for (x, y), c in CSETS:
        s, t = bits(12), bits(12)
        p, q = x[0] * y[1] + y[0] * x[1], x[1] * y[1]
        L.append(job('undef-zero', 'h_exact', 1, [C(R(*x), R(*y), 0, 0, 0, 0, 0, s * q, s * q, s * -p)], need=(1,), panic_ok=2, cost=5))
        L.append(job('undef-sum', 'h_exact', 1, [C(R(*x), R(*y), *c[:3], t, 0, s * q, s * q, s * -p)], need=(1,), panic_ok=2, cost=5))
        p, q = x[0] * y[0], x[1] * y[1]
        L.append(job('undef-mul', 'h_exact', 1, [C(R(*x), R(*y), *c[:3], t, s * q, 0, 0, s * -p)], need=(1,), panic_ok=2, cost=5))
    # x / (y - y) and x / (y * 0) with a free operand
    for y in [(1, 3), (-5, 3), (2, 1)]:
        s, t = bits(10), pos(10)
        L.append(job('undef-comb-x', 'h_exact', 0, [C(R(s, t), R(*y), 0, 1, 0, 0, 0, 0, y[1], -y[0])], need=(1,), panic_ok=2, cost=5))
        L.append(job('undef-nest', 'h_exact', 0, [C(R(s, t), H(R(*y), y[1], -y[0], 0, 7), *DIV)], need=(1,), panic_ok=2, cost=5))
    s, t = bits(3), pos(3)
    L.append(job('undef-nest', 'h_exact', 0, [H(C(R(s, t), R(s, t), *SUB), 0, 1, 1, 0)], need=(1,), panic_ok=2, cost=9))
    return L


PAIRS = [((1, 3), (-5, 3)), ((2, 3), (3, 2)), ((-1, 2), (7, 5)), ((0, 1), (22, 7)), ((1, 1), (-2, 3)), ((-2, 1), (-1, 1)),
         ((7, 5), (1, 2)), ((-5, 3), (-4, 9)), ((2, 1), (0, 1)), ((-1, 3), (1, 1))]


def consume_jobs(tier):
    L = []
    b = pick(tier, 5, 6)
    s, t = bits(b), pos(b)
    L.append(job('consume-small', 'h_consume', 3, [R(s, t)], need=(0, 1), cost=5))
    for base in (61, 62):
        s = Sym(0, 1 << pick(tier, 6, 10))
        for pr in ('', 'T', 'R', 'G'):
            L.append(job('consume-deep', 'h_consume', 3, [R(*primed(pr, lin(1), (1 << base) + s))], need=(0,), cost=2))
    for w in LONGER + ['A' * 58, 'A' * 57 + 'U', 'A' * 59, 'UA' * 30, 'A' * 60]:
        for pr in ('', 'G'):
            p, q = word(w, *tail(3))
            try:
                L.append(job('consume-word', 'h_consume', 4, [R(*primed(pr, p, q))], need=(0,), cost=3))
            except AssertionError:
                pass
    # results of arithmetic
    for i, x in enumerate(POINTS):
        s = bits(b - 1)
        c = list(HOM[i % len(HOM)])
        c[(i + 1) % 4] = s
        L.append(job('consume-hom', 'h_consume', 3, [H(R(*x), *c)], panic_ok=2, cost=4))
        c = list(COMB[i % len(COMB)])
        c[(i + 1) % 8] = s
        L.append(job('consume-comb', 'h_consume', 3, [C(R(*x), R(*POINTS[(3 * i + 4) % len(POINTS)]), *c)], panic_ok=2, cost=4))
    return L


KINDS = [[(-1, 1)], [(0, 1)], [(1, 1)], [(1, 3), (2, 3), (1, 2), (3, 8)], [(3, 1), (3, 2), (2, 1), (22, 7)],
         [(-2, 3), (-1, 3), (-1, 2), (-4, 9)], [(-5, 3), (-3, 1), (-2, 1), (-7, 5)]]


def kinds(turn=0):
    """a pair of operands for every combination of special values and primers"""
    out = []
    for i, a in enumerate(KINDS):
        for j, b in enumerate(KINDS):
            out.append((a[(i + j + turn) % len(a)], b[(2 * i + j + turn) % len(b)]))
    return out


def hom_long(words, b, k, panic_ok=2):
    """fixed operands with long expansions, one coefficient free"""
    L = []
    for i, w in enumerate(words):
        for j, pr in enumerate(('', 'T', 'R', 'G')):
            p, q = primed(pr, *word(w, 1, 2))
            c = list(HOM[(4 * i + 3 * j) % len(HOM)])
            c[(i + j) % 4] = bits(b)
            L.append(job('hom-long', 'h_exact', k, [H(R(p, q), *c)], panic_ok=panic_ok, cost=6))
    return L


def comb_long(words, b, k, panic_ok=2):
    """fixed operands with long expansions, one coefficient of a combine free"""
    L = []
    prs = ('', 'T', 'R', 'G')
    for i, w in enumerate(words):
        for j, v in enumerate(words):
            x = primed(prs[i % 4], *word(w, 1, 2))
            y = primed(prs[(i + j) % 4], *word(v, 1, 2))
            c = list(COMB[(i + 2 * j) % len(COMB)])
            c[(i + 3 * j) % 8] = bits(b)
            L.append(job('comb-long', 'h_exact', k, [C(R(*x), R(*y), *c)], panic_ok=panic_ok, cost=6))
    return L


def scaled_ratio(fr, b=64):
    """a fixed value written with every common factor that fits a word"""
    L = []
    for p, q in fr:
        m = (MAX if b >= 64 else 1 << b) // max(abs(p), abs(q))
        s = Sym(-m, m)
        L.append(job('scaled-ratio', 'h_exact', 80, [R(s * p, s * q)], need=(0, 1, 2), cost=3))
        for sg in (0, 1):
            u = Sym(0, UMAX // max(abs(p), abs(q)))
            if u.hi <= MAX:
                L.append(job('scaled-ratio', 'h_exact', 80, [U(sg, u * abs(p), u * abs(q))], need=(0, 1, 2), cost=3))
    return L


def scaled_hom(sets, m, k, panic_ok=2, cfg='checked', group='scaled-hom'):
    """the coefficients of a transformation multiplied by a free factor"""
    return [job(group, 'h_exact', k, [H(R(*x), *(f * v for v in c))], cfg=cfg, panic_ok=panic_ok, cost=4)
            for x, c in sets for f in [Sym(1, m)]]


def scaled_comb(sets, m, k, panic_ok=2, cfg='checked', group='scaled-comb'):
    return [job(group, 'h_exact', k, [C(R(*x), R(*y), *(f * v for v in c))], cfg=cfg, panic_ok=panic_ok, cost=4)
            for (x, y), c in sets for f in [Sym(1, m)]]


FRACS = [(1, 2), (1, 3), (-2, 3), (5, 3), (-22, 7), (13, 16), (17, 1), (-1, 1)]
HSETS = [(POINTS[i], HOM[(5 * i + 2) % len(HOM)]) for i in range(len(POINTS))]
CSETS = [(PAIRS[i], COMB[(3 * i + 4) % len(COMB)]) for i in range(len(PAIRS))]


def comb_pair(pairs, b, k, cfg='checked', panic_ok=2, group='comb-pair', n=0, base=None, **kw):
    """every two coefficients of a combine free, the others small or zero"""
    L = []
    for u in range(8):
        for v in range(u):
            x, y = pairs[n % len(pairs)]
            c = list((base or ZERO)[n % len(base or ZERO)])
            c[u], c[v] = bits(b), bits(b)
            if not any(isinstance(z, Sym) or z for z in c[4:]):
                c[7] = 1
            L.append(job(group, 'h_exact', k, [C(R(*x), R(*y), *c)], cfg=cfg, panic_ok=panic_ok, cost=8, **kw))
            n += 1
    return L


ZERO = [(0, 0, 1, 0, 0, 0, 0, 1), (1, 0, 0, 0, 0, 0, 1, 0), (0, 1, 0, 1, 1, 0, 0, 1), (0, 0, 0, 3, 0, 2, 0, 0), (2, 0, -1, 0, 0, 1, 3, 0), (0, 2, 0, 0, 2, 0, 0, -2)]


TARGETS = [(1, 2), (-1, 2), (2, 1), (-2, 1), (1, 1), (-1, 1), (0, 1), (1, 3)]


def through(c, t):
    """coefficients of two transformations that take c to t"""
    (p, q), (u, v) = c, t
    # t + (x - c) and t / (1 + (x - c))
    return [(q * v, q * u - p * v, 0, q * v), (0, u * q, q * v, (q - p) * v)] if u else [(q, -p, 0, q), (q, -p, 1, 3)]


def hom_near(cs, es, k, panic_ok=2, group='hom-near'):
    """operands very near a point which the transformation takes near a place where the symbols part"""
    L = []
    n = 0
    for i, c in enumerate(cs):
        for j, t in enumerate(TARGETS):
            for h in through(c, t):
                e = es[n % len(es)]
                s = Sym(1 << e, (1 << e) + 40)
                sg = 1 if (i + j + n) % 2 else -1
                L.append(job(group, 'h_exact', k, [H(R(c[0] * s + sg, c[1] * s), *h)], panic_ok=panic_ok, cost=4))
                n += 1
    return L


def comb_near(cs, es, k, panic_ok=2, group='comb-near'):
    """sums and products of two operands that nearly reach a place where the symbols part"""
    L = []
    n = 0
    for i, (p, q) in enumerate(cs):
        for j, (u, v) in enumerate(TARGETS):
            e = es[n % len(es)]
            s = Sym(1 << e, (1 << e) + 20)
            sg = 1 if (i + n) % 2 else -1
            x = R(p * s + sg, q * s)
            # y = t - c, and y = t / c
            a, b = u * q - v * p, v * q
            L.append(job(group, 'h_exact', k, [C(x, R(a, b), *ADD) if n % 3 else C(R(a, b), x, *ADD)], panic_ok=panic_ok, cost=4))
            a, b = u * q, v * p
            if a:
                L.append(job(group, 'h_exact', k, [C(x, R(a, b), *MUL) if n % 2 else C(R(a, b), x, *MUL)], panic_ok=panic_ok, cost=4))
            n += 1
    return L


NEAR = [(1, 3), (-2, 3), (5, 3), (-7, 5)]


# coefficients of several magnitudes, and pairs of operands with every two primers
WIDE = [(2, -300, -90, 1, 1, -7, -46, -52), (-5, 3, 0, -17, 1, -3, -1, 40), (100, -1, 7, 9, 3, 11, -200, 5), (-2, 5, 1, -3, 9, 0, 4, -1),
        (1, -1000, 3, 31, -8, 6, 0, 77), (13, 4, -6, -2, 21, -5, 3, -8), (0, 60, -7, -500, -1, 2, 30, 1), (-3, -4, -5, 1, 2, 15, -1, -16),
        (7, 0, 1, -2, -40, 1, 6, 3)]
OTHERS = [(a, b) for a, b in kinds(2) if a[0] ** 2 not in (0, a[1] ** 2) and b[0] ** 2 not in (0, b[1] ** 2)]


def c01(tier):
    if tier == 'quick':
        fast = [x for x in POINTS if x not in ((13, 16), (22, 7), (7, 5), (-7, 5), (-4, 9))]
        return (hom_all(fast, 20, 0) + hom_two(POINTS, 20, 2, [(0, 1), (2, 3), (1, 2)]) + hom_x(HOM, 20, 3) +
                hom_deep(HOM[:6], WORDS[6:], 4) + hom_long(HWORDS, 6, 20) + scaled_hom(HSETS, 1 << 40, 12) +
                hom_near(NEAR, [6, 11, 17], 14))
    fast = [x for x in POINTS if x != (13, 16)]
    return (hom_all(fast, 20, 0) + hom_all([(1, 3), (-5, 3), (1, 2), (-2, 1)], 20, 1) +
            hom_two(POINTS, 24, 3, [(0, 1), (2, 3), (1, 2), (0, 3), (0, 2), (1, 3)]) + hom_x(HOM, 24, 4) +
            hom_deep(HOM, WORDS[5:] + LONG, 8) + hom_long(HWORDS + LONG, 8, 40) +
            scaled_hom([(x, c) for x in POINTS for c in HOM], 1 << 40, 40) +
            hom_near(NEAR + [(22, 7), (-1, 2)], [5, 9, 14, 20, 26], 20))


HWORDS = ['AUA', 'UUAU', 'UAAU', 'AAUAUUA', 'UAUAAUAA', 'UUUUAAAA']


def c02(tier):
    if tier == 'quick':
        return (comb_num(PAIRS[:6], 20, 0, 'num') + comb_num(PAIRS[:6], 20, 0, 'den', panic_ok=2) +
                comb_num(kinds(0), 16, 3, 'two', panic_ok=2) + comb_num(kinds(1), 16, 3, 'mix', panic_ok=2) +
                comb_x(COMB, [(1, 3), (-5, 3)], 12, 1, 'x') + comb_x(COMB, [(-2, 3), (3, 2)], 12, 1, 'y') +
                comb_long(HWORDS[:5], 4, 12) + scaled_comb(CSETS, 1 << 40, 8) +
                comb_near(NEAR, [4, 7, 10], 10) +
                sum((comb_pair(OTHERS, 12, 2, group='comb-any', n=t, base=WIDE, time=120) for t in (0, 5, 11, 18)), []))
    return (sum((comb_pair(OTHERS, 16, 3, group='comb-any', n=t, base=WIDE) for t in range(0, 70, 7)), []) +
            comb_num(PAIRS, 20, 1, 'num', panic_ok=2) + comb_num(PAIRS, 20, 1, 'den', panic_ok=2) +
            sum((comb_num(kinds(t), 20, 4, 'two', panic_ok=2) + comb_num(kinds(t + 1), 20, 4, 'mix', panic_ok=2)
                 for t in range(4)), []) +
            comb_x(COMB, [(1, 3), (-5, 3), (3, 2), (-1, 2), (2, 1), (7, 5)], 16, 2, 'x') +
            comb_x(COMB, [(-2, 3), (3, 2), (-2, 1), (1, 2), (22, 7)], 16, 2, 'y') +
            comb_long(HWORDS + LONG[:4], 5, 24) + scaled_comb([(p, c) for p in PAIRS for c in COMB], 1 << 40, 30) +
            comb_near(NEAR + [(22, 7), (-1, 2)], [4, 6, 8, 11, 13], 16))


def c03(tier):
    if tier == 'quick':
        return (nest_hh(HPAIRS, 8, 2) + nest_coef(POINTS, 5, 2) + nest_ch(NEST, 5, 2) + nest_hc(NEST, 5, 2) +
                nest_cc(TRIPLES, 5, 1) + nest_deep([3, 5], 3, 2))
    return (nest_hh(HPAIRS, 10, 3) + nest_coef(POINTS, 7, 3) + nest_ch(NEST, 7, 3) + nest_hc(NEST, 7, 3) +
            nest_cc(TRIPLES, 7, 2) + nest_deep([3, 4, 6, 8], 4, 4))


def c04(tier):
    b, ws = pick(tier, (40, WORDS), (24, WORDS + LONG))
    L = (compare_point(POINTS, pick(tier, 40, 62)) + compare_word(ws, b) + compare_sign(b) + compare_self(pick(tier, 4, 5)) +
         compare_lazy() + compare_built(20) + compare_small(pick(tier, 3, 4)) +
         compare_twin(LONG + LONGER + LONGEST, 12))
    return L


def c05(tier):
    return (ratio_full(pick(tier, 5, 8)) + scaled_ratio(FRACS) + ratio_deep(WORDS + LONG + LONGER, 6, 12) + ratio_full_wrapping(pick(tier, 4, 6)))


def ratio_full_wrapping(k):
    L = ratio_full(k)
    for j in L:
        j['cfg'] = 'wrapping'
        j['group'] += '-wr'
    return L


def c06(tier):
    L = ratio_end(pick(tier, 5, 6)) + scaled_ratio(FRACS)
    L += scaled_hom(HSETS, 1 << 16, 60) + scaled_comb(CSETS, 1 << 12, 80)
    b = pick(tier, 2, 3)
    for i, x in enumerate(POINTS):
        c = list(HOM[i % len(HOM)])
        c[i % 4] = bits(2 * b)
        c[(i + 1) % 4] = bits(b)
        L.append(job('end-hom', 'h_exact', 60, [H(R(*x), *c)], need=(0, 2), panic_ok=2, cost=6))
    for i, (x, y) in enumerate(PAIRS):
        c = list(COMB[i % len(COMB)])
        c[i % 8] = bits(2 * b)
        c[(i + 1) % 8] = bits(b)
        L.append(job('end-comb', 'h_exact', 80, [C(R(*x), R(*y), *c)], need=(0, 2), panic_ok=2, cost=6))
    # the end stays, however often it is read
    for i, x in enumerate(FRACS[:-1]):
        m = Sym(1, 1 << 12)
        L.append(job('end-stays', 'h_end', 140, [R(x[0] * m, x[1] * m)], need=(0, 2), cost=4))
        s = bits(b + 1)
        c = list(HOM[i])
        c[1] = s
        L.append(job('end-stays', 'h_end', 140, [H(R(*x), *c)], need=(0, 2), panic_ok=2, cost=6))
        c = list(COMB[i])
        c[3] = s
        L.append(job('end-stays', 'h_end', 140, [C(R(*x), R(*POINTS[4 + i]), *c)], need=(0, 2), panic_ok=2, cost=6))
    L += hom_near(NEAR[:pick(tier, 2, 4)], [7, 13, 19], 80, group='end-near') + comb_near(NEAR[:pick(tier, 2, 4)], [3, 5, 7], 80, group='end-near')
    s, t = bits(b + 1), pos(b + 1)
    for c in HOM:
        L.append(job('end-hom-x', 'h_exact', 80, [H(R(s, t), *c)], need=(0, 2), panic_ok=2, cost=6))
    for i, c in enumerate(COMB):
        s, t = bits(b), pos(b)
        L.append(job('end-comb-x', 'h_exact', 80, [C(R(s, t), R(*POINTS[3 + i]), *c)], need=(0, 2), panic_ok=2, cost=6))
    return L


def c08(tier):
    L = []
    for cfg in ('checked', 'wrapping'):
        L += hom_all([(1, 1), (-1, 2), (1, 3), (0, 1), (-1, 1), (2, 1)], 64, 0, 2, cfg)
        L += hom_two(POINTS[:12], 64, pick(tier, 0, 1), [(0, 3), (1, 2), (2, 3)], 2, cfg)
        L += comb_num(PAIRS[:8], 64, 0, 'two', 2, cfg) + comb_num(PAIRS[:8], 64, 0, 'mix', 2, cfg)
        L += scaled_hom(HSETS, 1 << 58, 3, cfg=cfg) + scaled_comb(CSETS, 1 << 58, 3, cfg=cfg)
        # operands whose expansion drives the coefficients out of the word
        for i, w in enumerate(['A' * 30, 'A' * 62, 'U' * 60, 'AU' * 25, 'UAA' * 15]):
            p, q = primed(('', 'T', 'R', 'G', '')[i], *word(w, 1, 2))
            if max(abs(p), abs(q)) >= 1 << 63:
                continue
            for c in HOM[:4]:
                c = list(c)
                c[i % 4] = bits(40)
                L.append(job('over-long', 'h_exact', 2, [H(R(p, q), *c)], cfg=cfg, panic_ok=2, cost=8, steps=3000000))
    L += comb_pair(PAIRS[:3] + PAIRS[6:8], 64, pick(tier, 0, 1), 'wrapping')
    for x, y in [((-1, 1), (1, 3)), ((1, 1), (-2, 3)), ((1, 3), (-1, 1)), ((-2, 3), (1, 1))]:
        L += comb_pair([(x, y)], 64, pick(tier, 0, 1), 'wrapping', group='comb-special')
    for i, x in enumerate([(1, 2), (1, 3), (2, 3)]):
        for j, y in enumerate([(1, 2), (1, 3), (2, 3)]):
            L += comb_pair([(x, y)], 64, 0, 'wrapping', group='comb-ends', n=3 * i + 2 * j)
    return L


SMALL = [(0, 1), (1, 1), (-1, 1), (1, 2), (-1, 2), (2, 1), (-2, 1), (1, 3), (-1, 3), (2, 3), (-2, 3), (3, 2), (-5, 3), (5, 1),
         (-4, 1), (1, 5), (-1, 4), (4, 5), (-5, 4), (-3, 5)]


def c09(tier):
    """operands with terms up to five, coefficients up to 2^20: no panic"""
    L = hom_two(SMALL, 20, pick(tier, 1, 3), pick(tier, [(0, 3), (1, 2)], [(0, 3), (1, 2), (0, 1), (2, 3), (0, 2), (1, 3)]), panic_ok=0)
    L += hom_all([(1, 3), (-1, 2), (2, 1), (-5, 3), (1, 1), (-2, 3)] if tier == 'quick' else SMALL, 20, 0, panic_ok=0)
    pairs = [(SMALL[i], SMALL[(7 * i + 3 + t) % len(SMALL)]) for t in pick(tier, (0,), (0, 5, 11)) for i in range(len(SMALL))]
    for part in ('num', 'den', 'two', 'mix'):
        L += comb_num(pairs, 20, pick(tier, 0 if part in ('num', 'den') else 2, 1 if part in ('num', 'den') else 4), part, panic_ok=0)
    L += scaled_hom([(x, c) for x, c in HSETS if max(map(abs, x)) <= 5], 1 << 15, 40, panic_ok=0)
    few = [(a, c) for a, c in OTHERS if max(map(abs, a + c)) <= 5]
    for t in pick(tier, (0, 9), range(0, 60, 6)):
        L += comb_pair(few, pick(tier, 16, 19), pick(tier, 1, 3), panic_ok=0, group='tot-any', n=t, base=WIDE)
    s, t = Sym(-5, 5), Sym(1, 5)
    L += [job('tot-hom-x', 'h_exact', pick(tier, 4, 12), [H(R(s, t), *c)], cost=4) for c in HOM]
    for c in COMB:
        for y in pick(tier, SMALL[3:7], SMALL):
            s, t = Sym(-5, 5), Sym(1, 5)
            L.append(job('tot-comb-x', 'h_exact', pick(tier, 2, 6), [C(R(s, t), R(*y), *c)], cost=4))
            L.append(job('tot-comb-y', 'h_exact', pick(tier, 2, 6), [C(R(*y), R(s, t), *c)], cost=4))
    return L


def c10(tier):
    return consume_jobs(tier)


def c11(tier):
    L = []
    b = pick(tier, 5, 6)
    # one value, two ratios
    s, t = bits(b), pos(b)
    for f in (2, 3, -1, -5):
        L.append(job('same-ratio', 'h_same', 12 * b, [R(s, t), R(f * s, f * t)], need=(0, 1, 2), cost=12))
    for w in WORDS + LONG[:4]:
        for f in (2, 7):
            p, q = word(w, *tail(12))
            p, q = primed('R' if f == 2 else 'T', p, q)
            L.append(job('same-word', 'h_same', len(w) + 3, [R(p, q), R(f * p, f * q)], need=(0, 2), cost=2))
    # one value, with every common factor that fits a word
    for p, q in FRACS:
        f = Sym(1, MAX // max(abs(p), abs(q)))
        L.append(job('same-scaled', 'h_same', 80, [R(p, q), R(f * p, f * q)], need=(0,), cost=2))
    # a result of arithmetic and the ratio of the same value
    for i, x in enumerate(POINTS):
        s = bits(pick(tier, 8, 12))
        p, q = x
        L.append(job('same-hom', 'h_same', 3, [H(R(p, q), s, 3, 0, 5), R(s * p + 3 * q, 5 * q)], need=(0,), panic_ok=2, cost=3))
        L.append(job('same-hom', 'h_same', 3, [H(R(p, q), 2, s, 0, 7), R(s * q + 2 * p, 7 * q)], need=(0,), panic_ok=2, cost=3))
        L.append(job('same-comb', 'h_same', 3, [C(R(p, q), R(2, 3), *ADD[:3], s, *ADD[4:]), R(3 * p + 2 * q + 3 * q * s, 3 * q)],
                     need=(0,), panic_ok=2, cost=3))
        L.append(job('same-comb', 'h_same', 3, [C(R(-2, 3), R(p, q), *MUL[:3], s, *MUL[4:]), R(3 * q * s - 2 * p, 3 * q)],
                     need=(0,), panic_ok=2, cost=3))
    # a transformation with the same value everywhere
    for e, v in constant(FACTORS, 24):
        L.append(job('same-const', 'h_same', 40, [e, R(*v)], need=(0,), panic_ok=2, cost=3))
    # x + x = 2 x and x * 1 = x
    for i, x in enumerate(POINTS):
        s, t = bits(4), pos(4)
        if x[0] != 0:
            L.append(job('same-law', 'h_same', 3, [C(R(s, t), R(*x), *MUL), H(R(s, t), x[0], 0, 0, x[1])], need=(0,), panic_ok=2, cost=4))
        L.append(job('same-law', 'h_same', 3, [C(R(*x), R(s, t), *ADD), H(R(s, t), x[1], x[0], 0, x[1])], need=(0,), panic_ok=2, cost=4))
    return L


def rest(tier):
    """the remainder of an expansion that has been read in part, used as a number"""
    L = []
    n, b, k = pick(tier, (4, 4, 2), (6, 6, 4))
    prs = ('', 'T', 'R', 'G')
    for i, w in enumerate(WORDS[1:] + LONG[:3]):
        # read up to the free tail, or some way into it
        x = lambda: R(*primed(prs[i % 4], *word(w, *tail(b))))
        j = len(w) + i % 2
        L.append(job('rest', 'h_exact', k + 2, [T(j, (i + 1) % 4, x())], panic_ok=2, cost=4))
        L.append(job('rest-hom', 'h_exact', k, [H(T(j, i % 4, x()), *HOM[i % len(HOM)])], panic_ok=2, cost=8))
        L.append(job('rest-comb', 'h_exact', k - 1, [C(T(j, (i + 2) % 4, x()), R(*POINTS[3 + i % 8]), *COMB[i % len(COMB)])], panic_ok=2, cost=10))
        L.append(job('rest-comb', 'h_exact', k - 1, [C(R(*POINTS[3 + i % 8]), T(j, i % 4, x()), *COMB[(i + 3) % len(COMB)])], panic_ok=2, cost=10))
        L.append(job('rest-consume', 'h_consume', 3, [T(j, i % 4, x())], panic_ok=0, cost=5))
        L.append(job('rest-cmp', 'h_compare', 0, [T(j, i % 4, x()), R(*POINTS[(5 * i + 3) % len(POINTS)])], cost=5))
        y = lambda: R(*primed(prs[(i + 1) % 4], *word(w, *tail(2))))
        L.append(job('rest-cmp', 'h_compare', 0, [T(j, i % 4, y()), T(j, (i + i // 4) % 4, y())], cost=8))
        L.append(job('rest-rest', 'h_exact', k, [T(2, i % 4, T(len(w), (i + 1) % 4, x()))], panic_ok=2, cost=5))
    for i, x in enumerate(POINTS[3:]):
        # fixed operands read to every depth, one coefficient free
        for j in range(n):
            s = bits(b + 4)
            L.append(job('rest-coef', 'h_exact', k + 1, [H(T(j, (i + j) % 4, R(*x)), 2, s, 1, 3 + j)], panic_ok=2, cost=4))
        # results of arithmetic read in part, on their own and as operands
        for j in (1, 3):
            s = bits(b)
            c = list(HOM[(i + j) % len(HOM)])
            c[i % 4] = s
            e = T(j, (i + 1) % 4, H(R(*x), *c))
            L.append(job('rest-of-hom', 'h_exact', k, [e], panic_ok=2, cost=6))
            L.append(job('rest-of-hom', 'h_exact', k, [H(e, *HOM[(3 * i) % len(HOM)])], panic_ok=2, cost=8))
            s = bits(b - 1)
            c = list(COMB[(i + j) % len(COMB)])
            c[i % 4] = s
            e = T(j, i % 4, C(R(*x), R(*POINTS[3 + (i * 7 + 2) % 11]), *c))
            L.append(job('rest-of-comb', 'h_exact', k, [e], panic_ok=2, cost=6))
            L.append(job('rest-of-comb', 'h_exact', k - 1, [H(e, *HOM[(3 * i + 1) % len(HOM)])], panic_ok=2, cost=10))
    return L


def c12(tier):
    L = []
    n, b = pick(tier, (3, 6), (5, 7))
    for i, (x, y) in enumerate([((1, 3), (-5, 3)), ((2, 3), (7, 5)), ((-2, 3), (3, 2)), ((22, 7), (-4, 9))]):
        s, t = pos(b), pos(b)
        e = H(R(*x), *HOM[2 * i][:1], s, *HOM[2 * i][2:])
        f = R(t, t + 3)
        L.append(job('history', 'h_history', n, [e, f], panic_ok=2, cost=10))
        c = list(COMB[i + 4])
        c[3] = s
        L.append(job('history', 'h_history', n, [C(R(*x), R(*y), *c), H(R(*y), 1, t, 3, 5)], panic_ok=2, cost=10))
        p, q = primed(('', 'T', 'R', 'G')[i], *word(LONG[i], *tail(12)))
        r, u = primed(('', 'T', 'R', 'G')[3 - i], *word(LONG[i + 2], *tail(12)))
        L.append(job('history', 'h_history', n + 2, [R(p, q), R(r, u)], panic_ok=2, cost=5))
        for what in (1, 2, 3):
            s, t = pos(b - 2), pos(b - 2)
            e = R(*primed(('', 'T', 'R', 'G')[(i + what) % 4], *word(WORDS[i + 3], *tail(b - 2))))
            L.append(job('history-use', 'h_history', 10 * what + n, [H(R(*x), *HOM[2 * i][:1], s, *HOM[2 * i][2:]), R(*y)], panic_ok=2, cost=8))
            L.append(job('history-use', 'h_history', 10 * what + n, [R(*x), e], panic_ok=2, cost=8))
            c = list(COMB[i + 4])
            c[3] = t
            L.append(job('history-use', 'h_history', 10 * what + n, [C(R(*x), R(*y), *c), H(R(*y), 1, 2, 3, 5)], panic_ok=2, cost=8))
    return L


def c13(tier):
    kw = dict(forbid_print=True)
    L = ratio_full(2) + hom_two(POINTS, 12, 2, [(0, 3)], panic_ok=2) + comb_num(PAIRS, 12, 1, 'two', panic_ok=2)
    L += hom_x(HOM[:6], 10, 2) + comb_x(COMB[:5], [(1, 3)], 8, 1, 'x') + comb_x(COMB[5:], [(1, 3)], 8, 1, 'y')
    L += compare_point(POINTS, 20) + [j for j in undefined_jobs(tier) if j['group'] in ('undef-hom', 'undef-ratio', 'undef-comb')]
    L += hom_long(HWORDS[:3], 4, 30) + comb_long(HWORDS[:3], 3, 30) + consume_jobs(tier)
    for j in L:
        j.update(kw)
    return L


def c14(tier):
    L = []
    for which in (0, 1):
        # maps of one value, written with every common factor
        for i, x in enumerate(POINTS):
            f, g = bits(24), Sym(1, 1 << 24)
            c = [(0, f * 1, 0, lin(g)), (3 * g, 6 * g, 3 * g, 6 * g), (2 * g, -1 * g, -2 * g, lin(g)), (lin(0), lin(0), 2 * g, 7 * g)][i % 4]
            L.append(job('unwrap-const', 'h_unwrap', 2, [H(R(*x), *c)], panic_ok=which, cost=3))
    for which in (0, 1):
        s, t = bits(64), bits(64)
        L.append(job('unwrap', 'h_unwrap', 4, [R(s, t)], panic_ok=which, need=(0,), cost=5))
        for x in POINTS:
            s = bits(16)
            L.append(job('unwrap-hom', 'h_unwrap', 2, [H(R(*x), 2, s, 0, 3)], panic_ok=which, need=(0,), cost=3))
            L.append(job('unwrap-comb', 'h_unwrap', 2, [C(R(*x), R(2, 3), 1, 2, 0, s, 0, 0, 0, 3)], panic_ok=which, need=(0,), cost=3))
    return L


PROPS = {
    'C01': dict(jobs=c01),
    'C02': dict(jobs=c02),
    'C03': dict(jobs=c03),
    'C04': dict(jobs=c04),
    'C05': dict(jobs=c05),
    'C06': dict(jobs=c06),
    'C07': dict(jobs=undefined_jobs),
    'C08': dict(jobs=c08),
    'C09': dict(jobs=c09),
    'C10': dict(jobs=c10),
    'C11': dict(jobs=c11),
    'C12': dict(jobs=c12),
    'C13': dict(jobs=c13),
    'C14': dict(jobs=c14),
    'C15': dict(jobs=rest),
}
