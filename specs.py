"""What is explored for each property."""
from explore import Run

ASSUMPTIONS = [
    "GMP and MPFR are replaced by value-level models (integers, rationals and reals of unbounded size); every "
    "counterexample is replayed on the real libraries, and sampled path witnesses are compared with real runs",
    "an allocation request above 1 MiB is refused (models 'no memory'); smaller ones succeed unless a fault is injected",
    "clang-18 -O0 LLVM IR after mem2reg is taken as the meaning of the C source",
]


class Spec:
    def __init__(self, runs, bounds, outside, quick=35, thorough=600, assumptions=(), query_ms=3000, regions=False):
        self.runs = runs
        self.bounds = bounds
        self.outside = outside
        self.budget = {"quick": quick, "thorough": thorough}
        self.assumptions = assumptions
        self.query_ms = query_ms
        self.regions = regions


PROPS = {}


def R(h, e, **kw):
    opts = {k: kw.pop(k) for k in ("must", "thorough", "weight", "fuel", "oom", "name") if k in kw}
    return Run(h, e, kw, **opts)


def thorough(runs):
    for r in runs:
        r.thorough = True
    return runs


def bits(*rows):
    """pattern mask of an n-by-n matrix given as row strings ('x' marks an entry): bit i+n*j"""
    n = len(rows)
    return sum(1 << (i + n * j) for i, r in enumerate(rows) for j, c in enumerate(r) if c == "x")


T3 = bits("xx.", "xxx", ".xx")
A3 = bits("xxx", "xx.", "x.x")
L3 = bits("x..", "xx.", "xxx")
U3 = bits("xxx", ".xx", "..x")
P3 = bits(".xx", "x.x", "xx.")
C3 = bits("x.x", "xx.", ".xx")
D3 = 511
A4 = bits("xxxx", "xx..", "x.x.", "x..x")
B4 = bits("x..x", ".x.x", "..xx", "xxxx")
C4 = bits("x..x", "xx..", ".xx.", "..xx")
T4 = bits("xx..", "xxx.", ".xxx", "..xx")
Z4 = bits("..xx", "..xx", "xx..", "xx..")
D4 = 65535
A5 = bits("xxxxx", "xx...", "x.x..", "x..x.", "x...x")
T5 = bits("xx...", "xxx..", ".xxx.", "..xxx", "...xx")
C5 = bits("x...x", "xx...", ".xx..", "..xx.", "...xx")
G5 = bits("x.x..", ".x.x.", "x.x.x", ".x.xx", "..xxx")
H5 = bits("..x.x", "x..x.", ".x..x", "x.x..", ".x.xx")
S4 = [A4, B4, C4, T4, Z4]
S5 = [A5, T5, C5, G5, H5]


def diag(n):
    return sum(1 << (i + n * i) for i in range(n))


def some(pat, n, k, seed):
    """k of the entries of a pattern"""
    ps = [t for t in range(n * n) if pat >> t & 1]
    out = 0
    s = seed * 7 + 3
    while bin(out).count("1") < min(k, len(ps)):
        s = (s * 1103515245 + 12345) & 0x7FFFFFFF
        out |= 1 << ps[(s >> 8) % len(ps)]
    return out


E3 = bits("x..", "..x", ".x.")
F3 = bits("x.x", "..x", ".xx")
I3 = bits("..x", ".x.", "x..")
Q3 = [E3, T3, P3, F3, C3, A3, I3, D3, bits(".x.", "x.x", ".xx"), bits("x..", "x.x", "xx."), bits("xx.", "..x", "xx."),
      bits("..x", "x..", "xxx"), L3, U3]
Q4 = S4 + [D4, bits("x...", "..x.", ".x.x", "..xx"), bits(".x..", "x...", "..xx", "..xx"), bits("xx..", ".xx.", "x..x", "..x."),
           bits("x.x.", ".x.x", "x...", ".x.."), bits("...x", "x.x.", ".xx.", "xx..")]
Q5 = S5 + [bits("x....", "..x..", ".x...", "...x.", "....x"), bits(".x...", "..x..", "x....", "...xx", "...xx"),
           bits("xxxxx", "x.x..", "xx.x.", "x...x", "xx..."), bits("....x", "x....", ".xx..", "..xx.", "x..x.")]


def put(d, n, t, kw):
    for a, b in kw.items():
        b = b(n, t) if callable(b) else b
        if b is not None:
            d[a] = b


def sweep(entry, k3=2, k4=1, k5=1, big=1, ns=3, sizes=(6, 7, 8), nsb=1, **kw):
    """every pair of ordering and pivoting scheme, over patterns of order 3 to 5 and matrices of order 6 and more"""
    out = []
    for order in range(3):
        for piv in range(6):
            c = order * 6 + piv
            for n, k, Q, s in ((3, k3, Q3, ns + 1), (4, k4, Q4, ns), (5, k5, Q5, ns - 1)):
                for r in range(k):
                    t = c * k + r + order
                    pat = Q[(5 * r + c + 3 * order) % len(Q)]
                    d = dict(n=n, order=order, pivot=piv, pat=pat, sym=some(pat, n, s, t), nz=t % 2, jumbled=t // 2 % 2)
                    if piv in (3, 4):
                        d["tol"] = t % 5
                    put(d, n, t, kw)
                    out.append(R("solve.c", entry, **d))
            for r in range(big):
                t = c * big + r
                n = sizes[(t + t // 6) % len(sizes)]
                d = dict(n=n, order=order, pivot=piv, shape=(t + order) % 8, seed=t % 6, nsym=nsb, nz=t % 2, jumbled=t // 2 % 2)
                if piv in (3, 4):
                    d["tol"] = t % 3
                put(d, n, t, kw)
                out.append(R("solve.c", entry, **d))
    return out

def large(entry, count=9, first=0, sizes=(16, 20, 25, 33, 40, 64), drop=(), **kw):
    """matrices of order 16 to 64 with a few entries in each column, one of them symbolic"""
    out = []
    for t in range(first, first + count):
        n = sizes[(t + t // 6) % len(sizes)]
        d = dict(n=n, shape=(1, 8, 9)[t // 2 % 3], seed=t % 5, nsym=1, order=t % 3, pivot=(t // 3 + t % 3) % 6, nz=1, jumbled=t % 2)
        if d["pivot"] in (3, 4):
            d["tol"] = t % 3
        put(d, n, t, kw)
        out.append(R("solve.c", entry, **{k: v for k, v in d.items() if k not in drop}))
    return out

def convert(same, count):
    """larger matrices copied between formats (and value types, unless same), one value symbolic"""
    out = []
    for t in range(count):
        st = t // 9 % 5
        dt = st if same else (t + t // 45) % 5
        m, n = ((7, 5), (4, 11), (12, 12), (1, 20), (20, 1), (9, 3), (16, 10))[t % 7]
        if dt == 0 and st in (1, 2, 4):
            m, n = 4, 3
        out.append(R("copy.c", "h_convert", skind=t % 3, dkind=t // 3 % 3, stype=st, dtype=dt, m=m, n=n, dens=(12, 35, 60, 90)[t % 4], seed=t % 50,
                     rev=t // 2 % 2, extra=t % 3, dup=int(st == dt and t % 4 == 1), scale=t // 2 % 2, round=t % 5, prec=t // 2 % 4, symk=t % 6,
                     must=("converted",)))
    return out


def drawn(harness, entry, count, first=0, **kw):
    """runs over patterns of a fixed pseudo-random sequence (numbers first, first+1, ...), each with entries at symbolic rows"""
    import random
    out = []
    for t in range(first, first + count):
        r = random.Random(t)
        d = dict(kind=r.randrange(6), seed=r.randrange(1000), dens=r.choice((3, 6, 10, 15, 20, 30, 50)))
        if entry == "h_order_rnd":
            d.update(n=r.choice((5, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24, 26, 28, 30)), alpha=r.choice((0, 0, 1, 2, 3, 4)), aggr=r.randrange(2), nsym=1)
        elif entry == "h_analyze_rnd":
            d.update(n=r.choice((5, 6, 8, 12, 16, 20, 26, 32, 40)), order=1 + r.randrange(2))
        else:
            n = r.choice((4, 5, 6, 8, 10, 12, 14, 16, 18, 20, 22, 24))
            sym = int(r.random() < .25)
            m = n if sym or r.random() < .25 else r.choice((3, 4, 6, 9, 14, 20, 26))
            d.update(n=n, m=m, sym=sym, tight=r.randrange(2), kr=r.choice((0, 1, 2, 2, 3, 4, 7)), kc=r.choice((0, 0, 1, 2)), aggr=r.randrange(2), nsym=1)
        d.update(kw)
        out.append(R(harness, entry, **d))
    return out


PLAIN = dict(scale=0, jumbled=0, nz=1)

# ---------------------------------------------------------------- the solver
PROPS["C01"] = Spec(
    [R("solve.c", "h_solve", n=1, bsym=1, sym=1, jumbled=0, must=("solved", "singular")),
     R("solve.c", "h_solve", n=2, nrhs=1, how=0, sym=15, bsym=3, **PLAIN, must=("solved", "singular")),
     R("solve.c", "h_solve", n=2, nrhs=2, how=1, sym=15, pat=15, bsym=3, tol=1, **PLAIN),
     R("solve.c", "h_solve", n=2, nrhs=1, how=0, pat=15, sym=15, bsym=3, order=2, pivot=0, nz=0, scale=1, jumbled=0),
     R("solve.c", "h_solve", n=2, nrhs=2, how=1, pat=15, sym=15, bsym=3, order=1, pivot=3, tol=0, nz=0, scale=1, jumbled=1)]
    + [R("solve.c", "h_solve", n=3, nrhs=1, how=k % 2, pat=p, sym=p, bsym=7 if k % 2 else 0, order=k % 3, pivot=k % 6,
         scale=0, jumbled=k % 2, nz=1, tol=0)
       for k, p in enumerate([T3, A3, L3, U3, P3, C3, D3])]
    + [R("solve.c", "h_solve", n=4, nrhs=2 - k % 2, how=k % 2, pat=p, sym=some(p, 4, 3, k), bsym=4, order=k % 3,
         pivot=(k + 3) % 6, scale=0, jumbled=k // 2 % 2, nz=0, tol=k % 3)
       for k, p in enumerate(S4 + [D4])]
    + [R("solve.c", "h_solve", n=5, nrhs=1, how=k % 2, pat=p, sym=some(p, 5, 3, k), bsym=2, order=k % 3,
         pivot=(k + 1) % 6, scale=0, jumbled=k % 2, nz=0, tol=k % 3)
       for k, p in enumerate(S5)]
    + sweep("h_solve", k3=1, k4=1, k5=1, big=3, sizes=(6, 7, 9, 12, 14), nrhs=lambda n, t: 1 + t % 4, how=lambda n, t: t // 3 % 2,
            bsym=lambda n, t: 1 << t % n if n < 6 or t % 4 == 0 else 0, scale=lambda n, t: int(t % 5 == 4 and n < 6),
            nsym=lambda n, t: None if n < 6 else int(t % 4 != 0))
    + [R("solve.c", "h_solve", n=2, nrhs=k, how=h, pat=15, sym=9, bsym=1, order=1, pivot=3 * h, tol=0, nz=0, scale=h, jumbled=0) for k in (0, 3, 5) for h in (0, 1)]
    + large("h_solve", 18, nrhs=lambda n, t: 1 + t % 2, bsym=0, scale=0, how=lambda n, t: t // 3 % 2)
    + large("h_solve", 12, 18, sizes=(16, 20, 25, 33, 40), nsym=0, nrhs=1, bsym=lambda n, t: 1 << 7 * t % min(n, 20), scale=0, how=lambda n, t: t // 3 % 2),
    "n<=2: all patterns (n=2) and all values, every ordering and pivoting scheme, 1-2 (some runs 0-5) right-hand sides, symbolic positive "
    "scales; n=3: seven patterns with all entries symbolic (nonzero); n=4,5: eleven patterns with three symbolic entries "
    "and one symbolic right-hand-side row, other entries fixed integers; sorted and reversed columns; every one of the 18 ordering and pivoting pairs again on patterns of order 3, 4 and 5 (2-4 symbolic entries, the rest fixed, some beyond 2^64) and on matrices of order 6 to 12 and 16 to 64 (one symbolic entry)",
    "n>64; n=3 explicit zero entries; n>=4 with more than three symbolic entries; storage formats and types other than the "
    "required CSC/dense mpz", quick=100)

PROPS["C02"] = Spec(
    [R("solve.c", "h_singular", n=1, sym=1, jumbled=0, must=("ok", "singular")),
     R("solve.c", "h_singular", n=2, sym=15, jumbled=0, nz=1, must=("ok", "singular")),
     R("solve.c", "h_singular", n=2, sym=15, pat=15, jumbled=0, nz=0, order=2, must=("ok", "singular"))]
    + [R("solve.c", "h_singular", n=3, pat=p, sym=p, order=k % 3, pivot=k % 6, jumbled=k % 2, nz=1, tol=0)
       for k, p in enumerate([T3, A3, L3, U3, P3, C3, D3])]
    + [R("solve.c", "h_singular", n=3, pat=T3, sym=T3, order=2, pivot=p, jumbled=0, nz=0, tol=0) for p in (0, 2)]
    + [R("solve.c", "h_solve", n=2, nrhs=1, how=0, pat=15, sym=15, bsym=0, order=2, pivot=p, tol=4, nz=0, scale=0, jumbled=0,
         must=("solved", "singular")) for p in (3, 4)]
    + [R("solve.c", "h_singular", n=3, pat=T3, sym=some(T3, 3, 4, p), order=2, pivot=p, jumbled=0, nz=0, tol=4) for p in (3, 4)]
    + [R("solve.c", "h_singular", n=3, sym=0, order=k, pivot=k, jumbled=0, nz=0) for k in range(3)]
    + [R("solve.c", "h_singular", n=4, pat=p, sym=some(p, 4, 3, k), order=k % 3, pivot=(k + 3) % 6, jumbled=k // 2 % 2,
         nz=0, tol=k % 3) for k, p in enumerate(S4 + [D4])]
    + [R("solve.c", "h_singular", n=5, pat=p, sym=some(p, 5, 3, k), order=k % 3, pivot=(k + 1) % 6, jumbled=k % 2,
         nz=0, tol=k % 3) for k, p in enumerate(S5)]
    + [R("solve.c", "h_solve", n=2, nrhs=1, how=0, pat=15, sym=15, bsym=0, order=2, pivot=p, tol=0, nz=0, scale=0, jumbled=0,
         must=("solved", "singular")) for p in (0, 3)]
    + sweep("h_singular", k3=3, k4=2, k5=1, big=5, sizes=(6, 8, 9, 11, 14))
    + large("h_singular", 18),
    "n<=2: all patterns and values with every ordering and pivoting scheme; n=3: all 512 patterns (fixed values), seven "
    "patterns with all entries symbolic; n=4,5: eleven patterns with three symbolic entries; tolerance zero; structurally singular matrices; every one of the 18 ordering and pivoting pairs again on patterns of order 3, 4 and 5 (2-4 symbolic entries, the rest fixed, some beyond 2^64) and on matrices of order 6 to 11 and 16 to 64 (one symbolic entry)",
    "n>64, n>=4 with more than three symbolic entries", quick=60)

PROPS["C03"] = Spec(
    [R("solve.c", "h_float", n=1, nrhs=1, sym=1, bsym=1, jumbled=0, pat=1, pivot=0, order=0, nz=0, must=("ok",)),
     R("solve.c", "h_float", n=2, nrhs=1, sym=15, bsym=3, pat=15, order=2, pivot=3, tol=0, fmt=0, round=0, prec=0, **PLAIN, must=("ok",)),
     R("solve.c", "h_float", n=2, nrhs=2, sym=15, bsym=1, pat=15, order=1, pivot=0, fmt=1, round=3, prec=2, **PLAIN, must=("ok",)),
     R("solve.c", "h_float", n=2, nrhs=1, sym=9, bsym=1, pat=15, order=0, pivot=2, fmt=1, scale=1, jumbled=0, nz=1, must=("ok",)),
     R("solve.c", "h_float", n=2, nrhs=2, sym=15, bsym=3, pat=15, order=0, pivot=5, fmt=0, round=0, prec=0, scale=1, jumbled=0, nz=1),
     R("solve.c", "h_float", n=3, nrhs=1, sym=some(D3, 3, 3, 1), bsym=2, pat=D3, order=2, pivot=0, fmt=1, round=1, prec=1, **PLAIN),
     R("solve.c", "h_float", n=3, nrhs=1, sym=T3, bsym=0, pat=T3, order=1, pivot=4, tol=0, fmt=0, round=1, prec=1, **PLAIN)]
    + sweep("h_float", k3=1, k4=1, k5=0, big=2, ns=1, sizes=(6, 7, 8, 11), nrhs=lambda n, t: 1 + t % 4, bsym=0, fmt=lambda n, t: t % 2,
            round=lambda n, t: t % 5, prec=lambda n, t: t // 3 % 4, scale=0)
    + large("h_float", 9, nrhs=lambda n, t: 1 + t % 3, bsym=0, scale=0, fmt=lambda n, t: t % 2, round=lambda n, t: t % 5,
            prec=lambda n, t: t // 3 % 4),
    "n<=3 (n=3: dense with three symbolic entries and tridiagonal fully symbolic), double and multiple-precision output, "
    "precisions 24, 53, 128, 200, all five rounding modes, 1-4 right-hand sides; every one of the 18 ordering and pivoting pairs again on patterns of order 3, 4 and 5 (2-4 symbolic entries, the rest fixed, some beyond 2^64) and on matrices of order 6 to 8 and 16 to 64 (one symbolic entry)",
    "n>64, other precisions, overflow of the double range is only covered as far as the solver picks such values",
    assumptions=["rounding is modelled as a function of exact value, precision and mode, and mpq_get_d as truncation toward zero; "
                 "the replayed traces compare it with MPFR and GMP"], quick=60)

PROPS["C04"] = Spec(
    [R("solve.c", "h_factors", n=1, sym=1, jumbled=0, identity=1, must=("ok",)),
     R("solve.c", "h_factors", n=2, sym=15, identity=1, jumbled=0, nz=1, tol=0, must=("ok", "singular")),
     R("solve.c", "h_factors", n=2, sym=15, pat=15, identity=1, jumbled=1, nz=0, order=2, tol=1)]
    + [R("solve.c", "h_factors", n=3, pat=p, sym=p, identity=1, order=k % 3, pivot=k % 6, jumbled=k % 2, nz=1, tol=0)
       for k, p in enumerate([T3, A3, L3, U3, P3, C3, D3])]
    + [R("solve.c", "h_factors", n=3, sym=0, identity=1, order=k, pivot=(k + 3) % 6, jumbled=1, nz=0, tol=0) for k in range(3)]
    + [R("solve.c", "h_factors", n=4, pat=p, sym=some(p, 4, 3, k), identity=1, order=k % 3, pivot=(k + 3) % 6,
         jumbled=k // 2 % 2, nz=0, tol=k % 3) for k, p in enumerate(S4 + [D4])]
    + [R("solve.c", "h_factors", n=5, pat=p, sym=some(p, 5, 3, k + 5), identity=1, order=(k + 1) % 3, pivot=(k + 1) % 6,
         jumbled=k % 2, nz=0, tol=k % 3) for k, p in enumerate(S5)]
    + sweep("h_factors", k3=3, k4=2, k5=1, big=4, sizes=(6, 7, 8, 10, 13), identity=1)
    + large("h_factors", 18, identity=1),
    "n<=2: all patterns and values with every ordering and pivoting scheme; n=3: all 512 patterns with fixed values, seven "
    "with all entries symbolic; n=4,5: eleven patterns with three symbolic entries; every one of the 18 ordering and pivoting pairs again on patterns of order 3, 4 and 5 (2-4 symbolic entries, the rest fixed, some beyond 2^64) and on matrices of order 6 to 10 and 16 to 64 (one symbolic entry)",
    "n>64, n>=4 with more than three symbolic entries", quick=70)

PROPS["C05"] = Spec(
    [R("solve.c", "h_factors", n=2, pat=15, sym=15, identity=0, jumbled=0, nz=0, order=2, pivot=p,
       must=("ok",) + {0: ("small",), 1: ("diagonal",), 2: ("first",), 3: ("small", "tol-diag", "tol-refused"),
                       4: ("large", "tol-diag", "tol-refused"), 5: ("large",)}[p]) for p in range(6)]
    + [R("solve.c", "h_factors", n=3, pat=D3, sym=some(D3, 3, 4, p), identity=0, jumbled=p % 2, nz=0, order=p % 3, pivot=p,
         tol=p % 3) for p in range(6)]
    + [R("solve.c", "h_factors", n=3, pat=T3, sym=T3, identity=0, jumbled=0, nz=1, order=2, pivot=p, tol=1) for p in (1, 3, 4, 5)]
    + [R("solve.c", "h_factors", n=2, pat=15, sym=15, identity=1, jumbled=0, nz=0, order=2, pivot=p, tol=4) for p in (3, 4)]
    + [R("solve.c", "h_flip", n=2, pat=15, sym=15, nz=0, jumbled=0, order=2, pivot=p, tol=1, must=("ok",)) for p in range(6)]
    + [R("solve.c", "h_flip", n=3, pat=D3, sym=some(D3, 3, 2, p), nz=0, jumbled=0, order=2, pivot=p, tol=2) for p in range(6)]
    + [R("solve.c", "h_factors", n=4, pat=D4, sym=some(D4, 4, 2, p), identity=0, jumbled=p % 2, nz=0, order=p % 3, pivot=p,
         tol=p % 3) for p in range(6)]
    + sweep("h_factors", k3=2, k4=2, k5=1, big=4, sizes=(6, 7, 9, 12), identity=0)
    + large("h_factors", 18, 18, identity=0)
    + large("h_flip", 12, flip=lambda n, t: (7919 * t + 5) % (1 << min(n, 20))),
    "n=2 dense: all values, all six schemes, tolerances 0, 1, 1/2, 1/8 and symbolic in (0,1]; n=3 dense: four symbolic entries, "
    "n=3 tridiagonal: all symbolic; n=4 dense: two symbolic; sign flips of every subset of rows for n=2, n=3 (two symbolic); every one of the 18 ordering and pivoting pairs again on patterns of order 3, 4 and 5 (2-4 symbolic entries, the rest fixed, some beyond 2^64) and on matrices of order 6 to 9 and 16 to 64 (one symbolic entry)",
    "n>64; for the first-nonzero scheme 'first' is taken in the order of L's stored column; NaN tolerance", quick=60)

PROPS["C06"] = Spec(
    [R("solve.c", "h_reuse", n=1, sym=1, bsym=1, csym=1, jumbled=0, pat=1, pivot=3, scale=1),
     R("solve.c", "h_reuse", n=2, pat=15, sym=15, bsym=3, csym=3, nz=0, scale=1, order=2, pivot=0, check=1, jumbled=0, must=("ok",)),
     R("solve.c", "h_reuse", n=2, pat=15, sym=15, bsym=3, csym=3, nz=1, scale=0, order=0, pivot=3, tol=0, check=0, jumbled=1, must=("ok",)),
     R("solve.c", "h_reuse", n=2, pat=15, sym=9, bsym=1, csym=2, nz=0, scale=2, order=1, pivot=5, check=1, jumbled=0, must=("ok",)),
     R("solve.c", "h_reuse", n=2, sym=15, bsym=1, csym=0, nz=1, scale=1, check=0, jumbled=0, tol=0),
     R("solve.c", "h_reuse", n=3, pat=D3, sym=some(D3, 3, 3, 2), bsym=1, csym=4, nz=0, scale=1, order=0, pivot=0, check=1, jumbled=1),
     R("solve.c", "h_reuse", n=3, pat=T3, sym=T3, bsym=0, csym=1, nz=1, scale=0, order=2, pivot=4, tol=0, check=0, jumbled=0),
     R("solve.c", "h_reuse", n=3, pat=P3, sym=P3, bsym=2, csym=1, nz=1, scale=1, order=1, pivot=2, check=1, jumbled=0)]
    + sweep("h_reuse", k3=1, k4=0, k5=0, big=0, ns=2, bsym=1, csym=2, scale=lambda n, t: t % 3, check=lambda n, t: t // 2 % 2)
    + sweep("h_reuse", k3=0, k4=1, k5=0, big=2, ns=1, sizes=(6, 7, 8, 11), bsym=lambda n, t: int(n < 6), csym=0, scale=0, check=lambda n, t: t // 2 % 2)
    + large("h_reuse", 18, sizes=(16, 20, 25, 33), scale=0, bsym=0, csym=0, check=lambda n, t: t // 3 % 2),
    "n<=3; histories analyze, factorize, solve b, solve c, solve b again, one-call solve; n=2 with all values, n=3 dense with "
    "three symbolic entries, tridiagonal and hollow patterns with all symbolic; check option on and off; every one of the 18 ordering and pivoting pairs again on patterns of order 3, 4 and 5 (2-4 symbolic entries, the rest fixed, some beyond 2^64) and on matrices of order 6 to 8 and 16 to 33 (one symbolic entry)",
    "n>33, longer histories; histories that interleave two factorizations", quick=90)

PROPS["C08"] = Spec(
    [R("solve.c", "h_default", n=1, sym=1, bsym=1, pat=1, jumbled=0),
     R("solve.c", "h_default", n=2, pat=15, sym=15, bsym=3, nz=1, jumbled=0, must=("ok",)),
     R("solve.c", "h_default", n=2, pat=15, sym=15, bsym=0, nz=0, jumbled=1, xtype=0, must=("ok",)),
     R("solve.c", "h_default", n=3, pat=T3, sym=some(T3, 3, 4, 1), bsym=1, nz=0, jumbled=0, xtype=2),
     R("solve.c", "h_default", n=3, pat=D3, sym=some(D3, 3, 3, 4), bsym=1, nz=0, jumbled=0, xtype=1)]
    + large("h_default", 12, drop=("order", "pivot", "tol"), bsym=0, xtype=lambda n, t: t % 3),
    "n<=3 (n=2 dense all values) and orders 16 to 64 with one symbolic entry, results in mpq, double, mpfr",
    "printed output")

PROPS["C14"] = Spec(
    [R("solve.c", "h_check", n=1, nrhs=1, sym=1, bsym=1, pat=1, jumbled=0, pivot=0, order=2, must=("right", "wrong")),
     R("solve.c", "h_check", n=2, nrhs=1, pat=15, sym=15, bsym=3, nz=1, jumbled=0, order=2, pivot=0, other=0, must=("right",)),
     R("solve.c", "h_check", n=2, nrhs=2, pat=15, sym=15, bsym=3, nz=1, jumbled=0, order=0, pivot=3, tol=0, other=1, must=("right", "wrong")),
     R("solve.c", "h_check", n=2, nrhs=1, pat=15, sym=9, bsym=3, nz=0, jumbled=1, order=1, other=1, tol=0, must=("right", "wrong")),
     R("solve.c", "h_check", n=3, nrhs=1, pat=D3, sym=some(D3, 3, 2, 3), bsym=1, nz=0, jumbled=0, order=0, pivot=0, other=1),
     R("solve.c", "h_check", n=3, nrhs=2, pat=T3, sym=some(T3, 3, 3, 3), bsym=2, nz=0, jumbled=0, order=2, pivot=5, other=1),
     R("solve.c", "h_check", n=3, nrhs=1, pat=A3, sym=A3, bsym=2, nz=1, jumbled=0, order=2, pivot=1, other=0)]
    + sweep("h_check", k3=1, k4=1, k5=1, big=2, ns=1, sizes=(6, 7, 8, 10), nrhs=lambda n, t: 1 + t % 4, bsym=0, other=lambda n, t: t % 2,
            nsym=lambda n, t: 1 - t % 2 if n > 5 else None)
    + large("h_check", 12, nrhs=lambda n, t: 1 + t % 4, bsym=0, other=0),
    "n<=3; right factors and factors of a matrix that differs in any one entry by any value; 1-4 right-hand sides; every one of the 18 ordering and pivoting pairs again on patterns of order 3, 4 and 5 (2-4 symbolic entries, the rest fixed, some beyond 2^64) and on matrices of order 6 to 8 (16 to 64 with the right factors) (one symbolic entry)",
    "n>64; wrong solutions of other origins", quick=80)

# ---------------------------------------------------------------- matrices
PROPS["C09"] = Spec(
    [R("copy.c", "h_copy", sym=15, m=2, n=2, must=("copied",)),
     R("copy.c", "h_copy", sym=511, type=0, m=3, n=3, extra=0, dup=0, rev=0, scale=0, must=("copied",)),
     R("copy.c", "h_copy", sym=511, type=0, m=3, n=3, extra=1, dup=0, rev=1, scale=1),
     R("copy.c", "h_copy", sym=63, type=1, m=2, n=3, extra=0),
     R("copy.c", "h_copy", sym=63, type=3, m=3, n=2, extra=1),
     R("copy.c", "h_copy", sym=7, type=4, m=3, n=1, extra=0),
     R("copy.c", "h_copy", sym=7, type=2, m=1, n=3, extra=2),
     R("copy.c", "h_copy", sym=1, m=0), R("copy.c", "h_copy", sym=1, n=0),
     R("copy.c", "h_copy", sym=1, m=1, n=1)]
    + convert(True, 90),
    "every pair of storage formats, all patterns of matrices up to 3x3 (2x2 with every value type; 3x3 with integers, with and "
    "without a symbolic scale), all values (explicit zeros included), empty dimensions, sorted and unsorted entries, unused room in the arrays, one "
    "duplicate triplet; matrices up to 16x10 with one symbolic value",
    "matrices larger than 16x10 (3x3 with more than one symbolic value); shallow sources; duplicates when the target is dense; NaN and infinities", quick=75)

PROPS["C10"] = Spec(
    [R("copy.c", "h_cast", stype=s, dtype=t, nv=0, must=("cast",)) for s in range(5) for t in range(5)]
    + [R("copy.c", "h_cast", stype=s, dtype=t, nv=1, dkind=2, round=0, prec=1) for s in range(5) for t in range(5)
       if (s, t) not in ((1, 0), (2, 0), (4, 0))]
    + convert(False, 90),
    "every pair of value types, every value (doubles: every double, with NaN and infinities when the target is int64), dense, CSC "
    "and triplet targets, 1 and 2 values, precisions 24, 53, 128, 200, five rounding modes, symbolic scale; matrices up to 16x10 with one symbolic value, every pair of formats",
    "non-finite sources for the GMP types (undefined there); three or more symbolic values at once; overflow and underflow of double results",
    assumptions=["rounding to a float is modelled as a function of value, precision and mode with a relative error bound; the "
                 "rounded value itself is compared with MPFR on replayed traces"])

PROPS["C11"] = Spec(
    [R("copy.c", "h_expand", more=0, stype=0, sym=7, kind=k, must=("expanded",)) for k in range(3)]
    + [R("copy.c", "h_expand", more=0, stype=0, nv=3, kind=2, sym=s) for s in (1, 3, 6)]
    + [R("copy.c", "h_expand", more=0, stype=s, nv=v, sym=7, kind=2, must=("expanded",)) for s in (1, 2) for v in (0, 1)]
    + [R("copy.c", "h_expand", more=0, stype=s, nv=2, sym=3, kind=k, round=r, prec=p) for s in (1, 2)
       for k, r, p in ((2, 0, 0), (0, 3, 1), (1, 1, 2))]
    + [R("copy.c", "h_expand", more=0, stype=s, nv=3, sym=1, kind=2, round=2, prec=1) for s in (1, 2)]
    + [R("copy.c", "h_expand", more=e, stype=s, nv=v, sym=1 << p, kind=p % 3, round=p % 5, prec=p % 4)
       for s in range(3) for e, v, p in ((1, 0, 5), (1, 0, 2), (2, 1, 12), (2, 1, 0), (2, 3, 7))],
    "arrays of up to 3 rationals (all values), one or two doubles or multiple-precision numbers (all finite values; three with one "
    "symbolic), dense, CSC and triplet, precisions 24, 53, 128, 200, five rounding modes; all-zero and empty arrays; arrays of 6 to 15 with one symbolic",
    "more symbolic numbers; NaN and infinities; overflow of MPFR's exponent range",
    assumptions=["rounding is modelled by its relative error bound 2^(1-prec)"])

PROPS["C12"] = Spec(
    [R("mat.c", "h_mcheck", kind=0, bad=0, pr=0, type=0, must=("valid", "invalid")),
     R("mat.c", "h_mcheck", kind=1, bad=0, pr=0, type=3, must=("valid", "invalid"))]
    + [R("mat.c", "h_mcheck", kind=k, bad=b, pr=b % 4, m=2, n=2) for k in (0, 1) for b in range(1, 11)]
    + [R("mat.c", "h_mcheck", kind=k, bad=0, pr=3, m=2, n=1, cap=2) for k in (0, 1)]
    + [R("mat.c", "h_mcheck_dense", must=("valid", "invalid"))]
    + [R("mat.c", "h_mcheck_big", kind=t % 2, type=t // 2 % 5, m=(3, 6, 9, 14)[t % 4], n=(7, 4, 11)[t % 3], step=1 + t % 4, rev=t // 3 % 2, what=(0, 0, 1, 2, 3)[t % 5],
         pos=5 * t % 17, pr=t // 5 % 4) for t in range(40)],
    "dimensions 0-3, up to 4 stored entries, every 64-bit value of every pointer, index, nz; header fields of any value; dense with any dimensions; matrices up to 16x13 in which one pointer, index or nz is any 64-bit value",
    "more than one symbolic number in larger matrices", quick=45)

PROPS["C13"] = Spec(
    [R("mat.c", "h_alloc", kind=k, wide=0, must=("made", "no-memory", "too-big")) for k in (1, 2, 3)]
    + [R("mat.c", "h_alloc", kind=k, fault=0, wide=0) for k in (0, 4)]
    + [R("mat.c", "h_alloc", kind=k, wide=w, mc=0, nc=0, zc=0, opt=1, shallow=0, init=1 - w % 2, must=("made", "no-memory")) for k in (1, 2, 3) for w in (1, 2, 3)]
    + [R("mat.c", "h_shallow", must=("freed",))],
    "every kind and value type (valid or not), every 64-bit dimension (0-3 concretely, negative, 2^18 and up), failure of any one "
    "request, shallow or not, initialised or not; all 16 ownership combinations; three shapes with dimensions up to 70",
    "other dimensions between 4 and 2^18", quick=45)

PROPS["C20"] = Spec(
    [R("mat.c", "h_mem", must=("got", "ok", "failed", "freed")), R("mat.c", "h_grow", must=("ok", "failed")),
     R("mat.c", "h_product", must=("asked", "refused"))],
    "every 64-bit size and count, item sizes 1 and 8 (realloc), 0, 1, 8, 16, 2^62 (calloc), memory limit 48 bytes, one or all requests failing, "
    "old blocks of 0-3 items; below them, the product of every count and item sizes 0, 1, 6, 8, 24, 2^32, 2^62+1; growth and collapse of a sparse matrix with up to 4 entries",
    "other item sizes")

PROPS["C07"] = Spec(
    [R("analyze.c", "h_analyze", n=k, must=("no-memory", "ok") if k else ("ok",), type=2 * k) for k in (0, 1, 2)]
    + [R("analyze.c", "h_analyze", n=2, fault=0, must=("ok",))]
    + [R("analyze.c", "h_analyze", n=3, fault=0, pr=0, type=k % 5, order=k % 4, sorted=k // 4, must=("ok",)) for k in (0, 1, 2, 5, 6, 7)]
    + [R("analyze.c", "h_analyze", n=3, pr=1, type=3, order=k % 3, sorted=1, fault=1 + k // 3, nz=5) for k in range(6)]
    + [R("analyze.c", "h_analyze", n=4, fault=0, pr=0, type=0, order=k, sorted=1, nz=z) for k in (1, 2) for z in (3, 5)]
    + [R("analyze.c", "h_analyze", n=4, fault=0, pr=0, type=0, order=k, sorted=1, thorough=True) for k in (1, 2)]
    + [R("analyze.c", "h_analyze_bad", must=("bad",))]
    + [R("analyze.c", "h_analyze_big", order=k, must=("ok",)) for k in (0, 1)]
    + drawn("analyze.c", "h_analyze_rnd", 80) + thorough(drawn("analyze.c", "h_analyze_rnd", 1500, 80)),
    "every pattern with n<=3 (symbolic column pointers and row indices, sorted or not), n=4 with 3 or 5 entries (thorough: up to 9); "
    "n=12..40 in six shapes with up to two entries at symbolic places; 80 (thorough: 1580) patterns of order 5 to 40 drawn from a fixed sequence with one entry at a symbolic place; every order, all value types; one or all requests failing; "
    "one row index of any 64-bit value",
    "other patterns with n>4; natural ordering of an invalid pattern", quick=60)

# (order, density, seed) of drawn patterns in which the minimum degree ordering runs out of room and compresses its graph
GC = ((14, 21, 49), (16, 8, 26), (16, 9, 26), (16, 10, 125), (16, 14, 49), (16, 16, 87), (16, 17, 120), (16, 18, 120), (18, 6, 122), (18, 8, 26), (18, 9,
      26), (18, 9, 78), (18, 9, 158), (18, 10, 76), (18, 11, 26), (18, 11, 92), (18, 11, 138), (18, 12, 92), (18, 12, 120), (18, 12, 158), (18, 13, 92),
      (18, 14, 179), (18, 15, 179), (18, 16, 74), (18, 17, 26), (18, 20, 117), (20, 6, 13), (20, 8, 78), (20, 9, 95), (20, 9, 177), (20, 10,
      76), (20, 10, 85), (20, 10, 102), (20, 10, 130), (20, 10, 152), (20, 10, 164), (20, 10, 169), (20, 11, 102), (20, 11, 123), (20, 11, 150), (20, 12,
      0), (20, 12, 42), (20, 12, 92), (20, 12, 120), (20, 12, 158), (20, 12, 162), (20, 13, 0), (20, 13, 38), (20, 13, 92), (20, 13, 120), (20, 13, 158),
      (20, 13, 162), (20, 14, 62), (20, 14, 84), (20, 14, 119), (20, 14, 133), (20, 14, 162), (20, 14, 165), (20, 15, 2), (20, 15, 144), (20, 16, 36), (20,
      16, 106), (20, 16, 162), (20, 17, 2), (20, 17, 4), (20, 17, 90), (20, 18, 90))

# ---------------------------------------------------------------- AMD
PROPS["C21"] = Spec(
    [R("amd.c", "h_order", n=k, mode=0, must=("ok",)) for k in (1, 2)]
    + [R("amd.c", "h_order", n=2, mode=1, nz=z, must=("jumbled",)) for z in (2, 3, 4)]
    + [R("amd.c", "h_order", n=3, mode=0, ctl=c, must=("ok",)) for c in (0, 1, 2, 3)]
    + [R("amd.c", "h_order", n=3, mode=1, nz=z, ctl=z, must=("jumbled",)) for z in (2, 3)]
    + [R("amd.c", "h_order", n=4, mode=0, nz=z, ctl=z % 4) for z in (3, 4)]
    + [R("amd.c", "h_order", n=4, mode=0, nz=z, ctl=(z + 1) % 4, thorough=True) for z in range(2, 13)]
    + [R("amd.c", "h_order", n=4, mode=1, nz=z, ctl=z % 4, thorough=True) for z in (3, 4, 5)]
    + [R("amd.c", "h_order_big", shape=s, size=z, alpha=a, aggr=g, must=("ok",))
       for s, z, a, g in ((0, 1, 0, 1), (1, 0, 3, 0), (2, 2, 5, 1), (3, 1, 2, 1), (3, 3, 6, 0), (4, 0, 4, 1), (5, 1, 1, 1), (2, 1, 2, 0))]
    + [R("amd.c", "h_order_big", thorough=True), R("amd.c", "h_print", must=("ok",))]
    + [R("amd.c", "h_order_rnd", kind=0, seed=k, n=28, dens=10, nsym=1, alpha=0, aggr=k % 2, must=("collected", "ok")) for k in (2, 3, 9, 16)]
    + [R("amd.c", "h_order_rnd", kind=0, seed=k, n=n, dens=d, nsym=1, alpha=0, aggr=k % 2, must=("collected", "ok")) for n, d, k in GC]
    + drawn("amd.c", "h_order_rnd", 120) + thorough(drawn("amd.c", "h_order_rnd", 1500, 120) + drawn("amd.c", "h_order_rnd", 150, 3000, nsym=2)),
    "every pattern with n<=3 (sorted), n<=3 with up to 4 unsorted or repeated entries, n=4 with 3-4 entries (thorough: 2-12); "
    "n=12..33 in eight shape and control combinations with two entries at symbolic places (dense rows included); 191 (thorough: 1841) patterns of order 5 to 30 drawn from a fixed "
    "sequence with one entry at a symbolic place (supervariables, absorption, dense rows, garbage collection); int and long versions",
    "other patterns with n>4; NaN control settings", quick=60)

PROPS["C22"] = Spec(
    [R("amd.c", "h_valid_" + v, nc=c, cap=k, null=0, must=("ok", "invalid") + (("jumbled",) if k > 1 and c else ()))
     for v in "il" for c, k in ((0, 0), (1, 3), (2, 2), (3, 2))]
    + [R("amd.c", "h_valid_" + v, nc=3, cap=3, nr=3, null=0) for v in "il"]
    + [R("amd.c", "h_valid_" + v, nc=2, cap=4, nr=3, null=0) for v in "il"]
    + [R("amd.c", "h_valid_" + v, nc=1, cap=1, must=("ok", "invalid")) for v in "il"]
    + [R("amd.c", "h_codes_" + v, n=n, cap=c, bad=0) for v in "il" for n, c in ((0, 0), (1, 2), (2, 2), (3, 1))]
    + [R("amd.c", "h_codes_" + v, n=1, cap=1, must=("ok", "invalid", "no-memory")) for v in "il"]
    + [R("amd.c", "h_codes_" + v, n=3, cap=2, fault=f, bad=0, info=f % 2) for v in "il" for f in (0, 1, 2)]
    + [R("amd.c", "h_huge_i", must=("invalid",)), R("amd.c", "h_huge_l", must=("invalid", "too-big"))],
    "every value of every column pointer and row index (n<=3, up to 4 row indices allocated), int and long; NULL arguments, negative "
    "sizes; any one or all requests failing; nz up to the largest integer with one column",
    "larger matrices", quick=60)

PROPS["C23"] = Spec(
    [R("amd.c", "h_pre", n=n, nz=z, must=("ok",) + (("dup",) if z > 1 else ())) for n, z in ((1, 0), (1, 2), (2, 1), (2, 2), (2, 3), (2, 4), (3, 1), (3, 2), (3, 3), (3, 4))]
    + [R("amd.c", "h_pre", n=3, nz=5), R("amd.c", "h_pre", n=4, nz=3)]
    + [R("amd.c", "h_pre", n=4, nz=z, thorough=True) for z in (4, 5)]
    + [R("amd.c", "h_jumbled", n=n, nz=z, must=("ok",)) for n, z in ((1, 2), (2, 2), (2, 3), (3, 2), (3, 3), (3, 4))]
    + [R("amd.c", "h_jumbled", n=4, nz=z) for z in (3, 4)]
    + [R("amd.c", "h_jumbled", n=4, nz=z, thorough=True) for z in (5, 6)],
    "every pattern, sorted or not, with or without repeats: n<=3 with up to 4-5 entries, n=4 with 3-4 (thorough: 6); int and long",
    "larger patterns", quick=60)

# ---------------------------------------------------------------- COLAMD
PROPS["C24"] = Spec(
    [R("col.c", "h_col", m=m, n=n, must=("ok",)) for m, n in ((0, 0), (0, 3), (3, 0))]
    + [R("col.c", "h_col", m=2, n=2, mode=0, must=("ok", "rows-ignored", "cols-ignored")),
       R("col.c", "h_col", m=2, n=3, mode=0), R("col.c", "h_col", m=3, n=2, mode=0)]
    + [R("col.c", "h_col", m=m, n=n, mode=1, nz=3, must=("jumbled", "ok")) for m, n in ((1, 3), (3, 1), (2, 2))]
    + [R("col.c", "h_col", m=3, n=3, mode=0, nz=z, ctl=z % 4, must=("ok",)) for z in range(1, 10)]
    + [R("col.c", "h_col", m=3, n=3, mode=1, nz=z, ctl=c, tight=t) for z, c, t in ((3, 1, 0), (4, 0, 1), (4, 1, 1))]
    + [R("col.c", "h_col", m=m, n=n, mode=0, nz=z, ctl=c, tight=1) for m, n, z, c in ((4, 3, 4, 0), (3, 4, 5, 1), (4, 4, 4, 1))]
    + [R("col.c", "h_col", m=4, n=4, mode=0, nz=z, ctl=z % 4, thorough=True) for z in range(2, 13)]
    + [R("col.c", "h_col", m=4, n=4, mode=1, nz=z, ctl=z % 2, tight=1, thorough=True) for z in (3, 4, 5, 6)]
    + [R("col.c", "h_sym", n=0), R("col.c", "h_sym", n=1, mode=1, nz=2), R("col.c", "h_sym", n=2, mode=0, must=("sym",)),
       R("col.c", "h_sym", n=2, mode=1, nz=3), R("col.c", "h_sym", n=3, mode=0, ctl=1),
       R("col.c", "h_sym", n=3, mode=0, ctl=0), R("col.c", "h_sym", n=3, mode=1, nz=3, ctl=0)]
    + [R("col.c", "h_sym", n=4, mode=0, nz=z, ctl=z % 4) for z in (3, 4)]
    + [R("col.c", "h_sym", n=4, mode=z % 2, nz=z, ctl=z % 4, thorough=True) for z in range(2, 13)]
    + [R("col.c", "h_col_big", shape=s, size=z, tight=t, kr=r, kc=c, sym=y)
       for s, z, t, r, c, y in ((0, 1, 1, 0, 0, 0), (0, 2, 0, 1, 1, 0), (3, 3, 1, 1, 0, 0), (2, 3, 1, 5, 6, 0), (5, 2, 1, 0, 3, 0),
                                (4, 2, 0, 4, 4, 0), (0, 2, 1, 1, 0, 1), (3, 1, 0, 0, 0, 1), (1, 1, 0, 2, 0, 1))]
    + [R("col.c", "h_col_big", thorough=True), R("col.c", "h_report", must=("ok",))]
    + [r for k, d in enumerate((15, 30, 50)) for r in drawn("col.c", "h_col_rnd", 16, 9000 + 20*k, kind=2, sym=0, kr=2, kc=0, dens=d)]
    + drawn("col.c", "h_col_rnd", 120) + thorough(drawn("col.c", "h_col_rnd", 2500, 160) + drawn("col.c", "h_col_rnd", 150, 4000, nsym=2)),
    "every pattern up to 3x3 (sorted), 3x3 with up to 4 unsorted or repeated entries, up to 4x4 with 4-5 entries (thorough: 12), with the "
    "default, disabled, zero, huge and small thresholds, aggressive absorption on and off, and both the recommended and the smallest "
    "workspace; n=12..33 in nine shape and control combinations with two entries at symbolic places; 168 (thorough: 2818) patterns of up to 26 by 24 drawn from a fixed "
    "sequence with one entry at a symbolic place (columns made empty by ignored rows, super-columns, garbage collection); int and long versions",
    "other larger patterns; NaN knobs", quick=75)

PROPS["C25"] = Spec(
    [R("col.c", "h_bad_" + v, nc=c, nr=r, cap=k, sym=0, null=0, room=0, must=("ok", "nnz", "p0")) for v in "il" for c, r, k in ((1, 1, 2), (2, 2, 2), (3, 2, 2))]
    + [R("col.c", "h_bad_" + v, nc=2, nr=3, cap=3, sym=0, null=0, room=0, must=("ok", "jumbled", "negative", "row")) for v in "il"]
    + [R("col.c", "h_bad_" + v, nc=c, nr=c, cap=k, sym=0, null=0, room=r) for v in "il" for r, c, k in ((1, 1, 2), (1, 2, 2), (2, 1, 1), (3, 2, 2))]
    + [R("col.c", "h_bad_" + v, nc=c, cap=k, sym=1, null=0, fault=f) for v in "il" for f, c, k in ((0, 1, 2), (0, 2, 2), (0, 2, 3), (1, 1, 1), (1, 2, 2), (2, 2, 1))]
    + [R("col.c", "h_bad_" + v, nc=1, nr=1, cap=1, must=("ok", "nrow", "ncol", "small", "no-stats", "no-memory")) for v in "il"]
    + [R("col.c", "h_bad_" + v, nc=0, nr=2, cap=1, null=0) for v in "il"]
    + [R("col.c", "h_bad_" + v, nc=3, nr=3, cap=3, null=0, sym=s, thorough=True) for v in "il" for s in (0, 1)]
    + [R("col.c", "h_rec_i", zone=0, must=("negative", "overflow", "size")), R("col.c", "h_rec_i", zone=4),
       R("col.c", "h_rec_l", zone=0, must=("negative", "size"))]
    + [R("col.c", "h_rec_l", zone=z, must=("overflow",)) for z in (1, 2, 3)] + [R("col.c", "h_rec_l", zone=4, thorough=True)],
    "every value of every column pointer and row index (up to 3 columns, 3 row indices), every workspace size and negative dimensions, NULL arguments, "
    "int and long versions; any one or all requests of the symmetric variant failing; the workspace recommendation for every int argument "
    "and for long arguments with at most one beyond 2^57 (thorough: any)",
    "larger matrices", quick=100)

PROPS["C26"] = Spec(
    [R("mat.c", "h_alloc", kind=k, fault=0, wide=0, opt=0, shallow=0, init=1, must=("too-big",) if k in (1, 2, 3) else (), **d)
     for k in (1, 2, 3) for d in (dict(mc=2), dict(nc=2), dict(zc=2))]
    + [R("mat.c", "h_mem", what=w, fault=0) for w in (0, 1, 2)]
    + [R("mat.c", "h_product", what=w, deny=0, must=("asked", "refused")) for w in (0, 1, 2)]
    + [R("amd.c", "h_huge_i", must=("invalid",)), R("amd.c", "h_huge_l", must=("invalid", "too-big")),
       R("col.c", "h_huge_i", must=("too-small", "overflow")), R("col.c", "h_huge_l", must=("too-small", "overflow")),
       R("col.c", "h_shuge_i", must=("refused",)), R("col.c", "h_shuge_l", must=("refused",)),
       R("col.c", "h_rec_i", zone=4, must=("overflow", "size")), R("col.c", "h_rec_l", zone=0), R("col.c", "h_rec_l", zone=3, must=("overflow",)),
       R("analyze.c", "h_analyze_huge", must=("ok", "refused"))]
    + [R("col.c", "h_rec_l", zone=z, thorough=True) for z in (1, 2, 4)],
    "every 64-bit dimension and count given to matrix creation, the memory wrappers, the workspace recommendation (long: one argument "
    "beyond 2^57; thorough: any), AMD (n=1), COLAMD (one column), SYMAMD (n=1) and symbolic analysis (n<=2)",
    "matrices whose column pointers really fill memory (n beyond 3 in the ordering routines)", quick=60)

# ---------------------------------------------------------------- wrappers
PROPS["C16"] = Spec(
    [R("wrap.c", "h_z3", op=o, must=("ok", "undefined") if o == 5 else ("ok",)) for o in range(6)]
    + [R("wrap.c", "h_z1", op=o, must=("ok",)) for o in range(13) if o != 10]
    + [R("wrap.c", "h_z1", op=10, must=("ok",))]
    + [R("wrap.c", "h_q3", must=("ok", "undefined")), R("wrap.c", "h_q1", must=("ok", "undefined"))]
    + [R("wrap.c", "h_f", op=o, must=("ok",)) for o in range(15)]
    + [R("wrap.c", "h_prec", must=("undefined",))],
    "unbounded integers and rationals, every 64-bit argument, every double; every aliasing of the operands; every rounding mode; mpfr "
    "precisions 2 to the harness's list; digit counts of |w| <= 70",
    "SLIP_gmp_printf-style formatting and scanning, mpfr_asprintf, and the aborts GMP itself raises for sizes beyond its limits", quick=75)

# ---------------------------------------------------------------- sessions, arguments
PROPS["C17"] = Spec(
    [R("init.c", "h_outside", must=("refused",)), R("init.c", "h_sessions", n=0, must=("session",)), R("init.c", "h_sessions", n=2, what=1)]
    + [R("init.c", "h_sessions", n=1, what=w) for w in (0, 2, 3, 4, 6, 7)]
    + [R("init.c", "h_history", n=k, must=("end",)) for k in range(5)]
    + [R("init.c", "h_history", n=5, thorough=True), R("init.c", "h_sessions", n=1, thorough=True), R("init.c", "h_sessions", n=2, again=0, thorough=True)],
    "every public routine before the first and after a finalized session (objects with symbolic values); every sequence of up to 5 (thorough: 6) "
    "steps of initialize, custom initialize, finalize, malloc and matrix creation; every pair of sessions with two sets of custom functions and the same workload out of eight (thorough: any two) "
    "(solves with the three orderings, copies, wrappers, memory routines)",
    "a plain initialization after a custom one, NULL custom functions, threads", quick=60)

PROPS["C18"] = Spec(
    [R("args.c", "h_" + e, must=(m,)) for e, m in (("backslash", "refused"), ("analyze", "refused"), ("factorize", "refused"), ("copy", "refused"), ("allocate", "refused"), ("query", "query"))]
    + [R("args.c", "h_solve", few=1, must=("refused",)), R("args.c", "h_solve", few=0, thorough=True)],
    "1x1 and 2x2 systems with symbolic values; every combination of defects (solve: pairs; thorough: all), with every 32-bit kind and type and every 64-bit dimension",
    "ordering and pivot codes that do not exist (they select a default); objects whose arrays are shorter than their dimensions claim", quick=60)

# ---------------------------------------------------------------- failing requests, memory safety
def F(entry, *a, **kw):
    return R("oom.c", entry, *a, oom=True, **kw)

def oom_large(entry, count, sizes, modes, **kw):
    """systems of order 6 and more under allocation failures (mode 1, 2) or none (0)"""
    out = []
    for t in range(count):
        n = sizes[(t + t // len(sizes)) % len(sizes)]
        d = dict(n=n - 1, shape=(1, 8, 9, 2)[t // 2 % 4] if n < 14 else (1, 8, 9)[t // 2 % 3], seed=t % 6, nsym=0, order=t % 3, pivot=(t // 3 + t % 3) % 6,
                 grow=t // 2 % 2, mode=modes[t % len(modes)])
        put(d, n, t, kw)
        out.append(F(entry, **d))
    return out

PROPS["C15"] = Spec(
    [F("h_z", mode=m, must=("ok", "no-memory")) for m in (1, 2)] + [F("h_q", mode=m, must=("ok", "no-memory")) for m in (1, 2)]
    + [F("h_init", mode=m, must=("ok", "no-memory")) for m in (1, 2)] + [F("h_make", mode=m, must=("ok", "no-memory")) for m in (1, 2)]
    + [F("h_copy", mode=1, grow=0, must=("ok", "no-memory"))] + [F("h_copy", mode=2, grow=0, kind=k, type=t) for k in (0, 1, 2) for t in (0, 2)]
    + [F("h_copy", mode=1, grow=1, kind=2, ckind=2)]
    + [R("analyze.c", "h_analyze", n=2, nz=3, type=0, pr=0, sorted=1, fault=f, must=("ok", "no-memory")) for f in (1, 2)]
    + [F("h_factorize", n=0, pivot=3, order=0, mode=m) for m in (1, 2)]
    + [F("h_factorize", n=1, pat=15, sym=1, order=0, grow=1, pivot=3, mode=1, must=("ok", "no-memory")),
       F("h_factorize", n=1, pat=15, sym=0, order=0, grow=0, mode=2), F("h_factorize", n=1, pat=7, sym=0, order=1, grow=1, mode=1),
       F("h_factorize", n=2, pat=479, sym=0, order=2, pivot=0, grow=1, tight=1), F("h_factorize", n=2, pat=511, sym=0, order=0, pivot=4, grow=0, mode=2)]
    + [F("h_solve", n=0, mode=1, grow=0, order=0, pivot=3, sym=1, pat=1),
       F("h_solve", n=1, pat=15, sym=0, bsym=0, order=1, pivot=3, grow=1, mode=1, scale=0, must=("ok", "no-memory")),
       F("h_solve", n=1, pat=15, sym=1, bsym=1, order=0, pivot=3, grow=1, how=0, scale=0, mode=1, check=0),
       F("h_solve", n=1, pat=13, sym=0, bsym=2, order=0, pivot=0, grow=0, how=1, mode=1, check=1),
       F("h_solve", n=2, pat=511, sym=0, bsym=0, order=0, pivot=3, how=1, grow=0, scale=0, mode=2, check=1)]
    + oom_large("h_factorize", 18, (6, 8, 11, 14), (1, 2, 1), tight=lambda n, t: int(t % 4 > 0))
    + oom_large("h_solve", 20, (6, 7, 9, 12), (1, 2, 1), bsym=0, scale=0, how=lambda n, t: t % 4, check=lambda n, t: t // 4 % 2)
    + [F("h_copy", mode=m, thorough=True) for m in (1, 2)]
    + [F("h_factorize", n=1, thorough=True, mode=m, pivot=p, order=o) for m in (1, 2) for p in (0, 3, 5) for o in (0, 1, 2)]
    + [F("h_factorize", n=2, pat=511, sym=z, thorough=True, mode=m, pivot=3, order=o) for m in (1, 2) for z in (0, 1, 16) for o in (0, 1)]
    + [F("h_solve", n=1, thorough=True, mode=m, pivot=3, order=o, how=h) for m in (1, 2) for o in (0, 1) for h in range(4)]
    + [F("h_solve", n=2, pat=511, sym=z, thorough=True, mode=m, pivot=3, order=0, how=h) for m in (1, 2) for z in (0, 1) for h in range(4)],
    "every request index, one failure or all from there on, in: each big-number wrapper that stores a result (aliased operands, big operands "
    "whose blocks are replaced on every write), creation of numbers, options and matrices, copies between all kinds and types (2 entries, one symbolic), "
    "checks at all print levels, analysis, factorization (1x1, 2x2 and 3x3; estimates of 1 that force growth), solving and the driver (three result types); factorization, solving and driver on fixed systems of order 6 to 14",
    "requests GMP and MPFR make for scratch space inside one call; larger systems; symbolic values beyond order 3", quick=75)

PROPS["C19"] = Spec(
    [R("oom.c", "h_factorize", n=n, mode=0, grow=1, tight=1, order=o, pivot=p, **d) for n, o, p, d in (
        (0, 0, 0, {}), (0, 1, 3, {}), (1, 0, 0, {}), (1, 1, 3, {}), (1, 2, 5, dict(pat=15)), (2, 0, 3, dict(pat=511, sym=1)), (2, 1, 1, dict(pat=471, sym=256)), (2, 2, 2, dict(pat=511, sym=16)), (2, 0, 4, dict(pat=186, sym=8)))]
    + [R("oom.c", "h_solve", n=n, mode=0, order=o, pivot=p, check=1, **d) for n, o, p, d in (
        (0, 0, 3, {}), (1, 0, 3, dict(pat=15, sym=1)), (1, 1, 0, dict(pat=13, sym=5)), (2, 0, 3, dict(pat=511, sym=1, bsym=1)), (2, 2, 4, dict(pat=340, sym=64, bsym=4)))]
    + oom_large("h_factorize", 18, (12, 16, 25, 33), (0,), nsym=1, tight=1)
    + oom_large("h_solve", 9, (12, 16, 25, 33), (0,), nsym=1, bsym=0, scale=0, how=lambda n, t: t % 4, check=lambda n, t: t // 4 % 2)
    + [R("mat.c", "h_grow", fault=0, must=("ok",))]
    + [R("oom.c", e, mode=0, must=("ok",)) for e in ("h_z", "h_q", "h_copy", "h_make")]
    + [R("solve.c", "h_solve", n=0), R("solve.c", "h_solve", n=1)]
    + [R("solve.c", "h_solve", n=2, nrhs=1, how=1, pivot=p, order=p % 3, scale=p % 2, jumbled=1, nz=0, tol=1) for p in range(6)]
    + [R("oom.c", "h_factorize", n=2, mode=0, grow=1, thorough=True, pat=511, order=o, pivot=p) for o in (0, 1, 2) for p in range(6)]
    + [R("solve.c", "h_solve", n=2, thorough=True, order=o, pivot=p) for o in (0, 1, 2) for p in range(6)],
    "every access, allocation, release and signed operation on all paths of: factorization (n<=3, symbolic entries, initial estimates of one entry so that L and U "
    "grow repeatedly, every number replaced on every write), solving and the driver (n<=3), copies between all kinds and types, creation, checks, wrappers; factorization and driver at orders 12 to 33 with one symbolic entry",
    "larger systems; memory behaviour inside GMP and MPFR", quick=60)

# ---------------------------------------------------------------- the FORTRAN routines
def fort(n, bar, room, rev=0, gap=0, versus=1, fix=0, pat=0, **kw):
    return R("f77.c", "h_f77", n=n, fix=fix, pat=pat, bar=bar, room=room, rev=rev, gap=gap, versus=versus, **kw)


def fortr(kind, seed, n, dens, nsym, bar, room, rev=0, gap=0, versus=1, **kw):
    return R("f77.c", "h_f77_rnd", kind=kind, seed=seed, n=n, dens=dens, nsym=nsym, bar=bar, room=room, rev=rev, gap=gap, versus=versus, **kw)


PROPS["C28"] = Spec(
    [fort(n, bar, room, must=("ok",)) for n in (1, 2, 3, 4) for bar in (0, 1) for room in (0, 1, 2, 3)]
    + [fort(5, bar, 0, rev=3 * bar, gap=1 - bar, must=("ok", "compressed")) for bar in (0, 1)]
    + [fort(5, bar, 3, rev=3 - 3 * bar, must=("ok",)) for bar in (0, 1)]
    + [fort(6, bar, 3 * bar, fix=0x3f << 6 * f, pat=0x2d2d2d2d >> f & 0x3f << 6 * f, versus=f, must=("ok",)) for bar in (0, 1) for f in (0, 1)]
    + [fort(7, b, 0, rev=rev, fix=0x1fffff & ~free, pat=418728 & ~free, versus=b, must=("ok", "compressed"))
       for b in (0, 1) for free, rev in ((0x3fe, 0), (0x7fc00, 0), (0x155155, 0), (0x0ff00f, 3))]
    + [fortr(k, 70 + 6 * b + k, 7 + k % 4, 30 - 2 * k, 2, b, k // 4, must=("ok",)) for k in range(6) for b in (0, 1)]
    + [fortr(k, 3 * k + b, (14, 16, 12, 15, 10, 16)[k], (15, 20, 25, 12, 40, 18)[k], 1, b, (0, 1, 2, 3, 0, 1)[k], rev=k % 4, gap=k % 2, must=("ok",))
       for k in range(6) for b in (0, 1)]
    + [fortr(k, 40 + 2 * k + b, (39, 32, 36)[k % 3], (6, 8, 12)[k // 2], 1, b, (0, 1, 0)[k % 3], rev=(k + b) % 4, gap=b, versus=0, must=("ok",))
       for k in range(6) for b in (0, 1)]
    + thorough([fort(5, bar, room, rev=rev, gap=gap, weight=2) for bar in (0, 1) for room in (0, 1, 2, 3) for rev in (0, 1, 2, 3) for gap in (0, 1)]
               + [fort(6, bar, room, weight=6) for bar in (0, 1) for room in (0, 2)]
               + [fortr(s % 6, 100 + s, 10 + 7 * s % 30, 5 + 11 * s % 40, 2, s % 2, s % 4, rev=s % 3, gap=s % 2, versus=int(7 * s % 30 < 7), weight=2)
                  for s in range(48)]),
    "both routines on every graph of 1 to 5 nodes (6 nodes: six of the fifteen pairs fixed; 7 nodes: 9 to 12 of the 21 pairs free), workspace equal to the matrix, one more, n more, "
    "ample; graphs of 7 to 39 nodes from a pseudo-random sequence with one or two edges at symbolic places",
    "graphs of more nodes with every edge symbolic; input which breaks the stated requirements (the routines do not test it); comparison of fill "
    "with the C version above 16 nodes",
    quick=90, thorough=800,
    assumptions=["engine/f77.py translates the FORTRAN source statement by statement to C, which clang-18 compiles to IR; sampled paths "
                 "are compared with the routines as compiled by gfortran, and so is every counterexample"])

# ---------------------------------------------------------------- what is printed
def prm(kind, type, lev, m, n, step=1, nsym=2, gap=0, none=0, **kw):
    return R("print.c", "h_pr_matrix", kind=kind, type=type, level=lev + 1, m=m, n=n, step=step, nsym=nsym, gap=gap, none=none, **kw)


PROPS["C29"] = Spec(
    [prm(k, t, lev, 5 - (t == 4) * 3, 9 - (t == 4) * 7, step=1 + k, nsym=4 if t < 4 else 2, gap=k % 2, must=("printed",) if lev >= 2 else ())
     for k in range(3) for t in range(5) for lev in (-1, 0, 1, 2, 3)]
    + [prm(k, t, lev, 3, 2, nsym=1, none=1) for k, t, lev in ((0, 0, 3), (1, 3, 2), (2, 4, 3))]
    + [prm(k, t, lev, m, n, step=s, nsym=3, gap=(k + 1) % 3, must=("printed",)) for k in range(3) for t in range(4) for lev in (2, 3)
       for m, n, s in ((7, 8, 1), (19, 2, 1), (2, 19, 1), (12, 12, 4), (1, 1, 1), (0, 3, 1), (3, 0, 1))]
    + [prm(k, 4, lev, 3, 3, step=2, nsym=1, must=("printed",)) for k in range(3) for lev in (2, 3)]
    + [R("print.c", "h_pr_invalid", kind=k, type=(k + b) % 5, bad=b, level=lev, none=0, must=("invalid",) if b else ())
       for k in range(3) for b in range(8) for lev in range(4) if not (b == 6 and k == 2)]
    + [R("print.c", "h_pr_invalid", kind=k, type=k, bad=0, level=3, none=1) for k in range(3)]
    + [R("print.c", "h_pr_late", kind=k, type=t, level=lev, m=m, n=n, at=at, must=("valid", "invalid")) for k in (0, 1) for lev in range(4)
       for t, m, n, at in ((0, 6, 8, 0), (3, 7, 5, 1), (1, 4, 9, 3), (4, 3, 3, 4))]
    + [R("print.c", "h_pr_solve", order=o, pivot=p, check=c, level=lev, none=int(lev == 3 and p % 2)) for o in range(3) for p in range(6)
       for c, lev in ((1, 1), (o % 2, 2 + p % 2))]
    + [R("print.c", "h_pr_amd", long=l, what=w, none=int(w == 0 and s == 0), status=s, must=("ok",), **{"from": f}) for l in range(2) for w in range(4) for s, f in
       ((0, 13), (1, 0), (2, 2), (3, 4), (4, 5), (0, 7), (1, 8), (0, 9), (0, 10), (0, 11), (2, 12), (0, 1), (1, 3), (4, 6))]
    + [R("print.c", "h_pr_colamd", long=l, sym=s, st=t, none=0, must=("printed",)) for l in range(2) for s in range(2) for t in range(13)]
    + [R("print.c", "h_pr_colamd", long=l, sym=l, st=0, none=1) for l in range(2)]
    + [R("print.c", "h_pr_verdict", nrhs=r, level=lev, entry=(r + lev + o) % 4, order=o) for r in (0, 1) for lev in range(4) for o in range(3)]
    + [R("print.c", "h_pr_analyze", order=o, level=lev, n=n, shape=sh, seed=3 * n + sh, must=("ok",)) for o in range(3) for lev in range(4)
       for n, sh in ((1, 0), (4, 1), (7, 3), (10, 6))]
    + thorough([prm(k, t, 3, m, n, step=s, nsym=4, gap=g, must=("printed",)) for k in range(3) for t in range(4) for s in (1, 2, 3, 5) for g in (0, 2)
                for m, n in ((3, 11), (11, 3), (17, 17))]
               + [R("print.c", "h_pr_verdict", nrhs=2, level=lev, entry=e, order=o, weight=2) for lev in range(4) for e in range(4) for o in range(3)]
               + [R("print.c", "h_pr_analyze", order=o, level=lev, n=n, shape=sh, seed=sd) for o in (1, 2) for lev in (1, 2, 3) for n in range(12)
                  for sh in range(8) for sd in (5, 17)]),
    "matrices of up to 19 rows or columns (17 by 17 at most), each kind and type, levels -1 to 3, 1 to 4 entries and the scale symbolic (every entry, for double and mpfr); 2-by-2 matrices "
    "with every structural field any 64-bit value; solves with a 2-by-2 matrix; AMD statistics with one or two of them any "
    "double, COLAMD statistics with every printed number any int or 64-bit value; analysis of matrices of order 3 to 12",
    "wording other than the words named, layout and number of digits; SLIP_matrix_check of a double matrix with more than 5 entries",
    quick=60, thorough=500,
    assumptions=["the printf function of SuiteSparse_config and the mpfr print routines are replaced by a recorder of the numbers passed "
                 "to each conversion (taken with the width of the conversion); the native replay parses the text really printed"])

# ---------------------------------------------------------------- comparison of the library models with the libraries
# (not a property: run by hand as 'check.py SELF')
PROPS["SELF"] = Spec(
    [R("models.c", "h_zops", op=k, vb=b) for k in range(34) for b in range(2)]
    + [R("models.c", "h_zops", op=k, vb=2) for k in (0, 5, 9, 14, 21, 29, 30, 33)]
    + [R("models.c", "h_fops", op=k, rnd=k % 5) for k in range(30)] + [R("models.c", "h_lang")],
    "-", "-", quick=100)

# ---------------------------------------------------------------- floating-point helpers
PROPS["C27"] = Spec(
    [],
    "hypot: all finite x, y of magnitude up to 2^1022, error at most 5*2^-53 relative plus 2^-1074; complex quotient: larger components of "
    "numerator and denominator in 2^-900..2^900 and within a factor 2^100 of each other, smaller components anything, error at most "
    "16*2^-53 of the modulus; a zero denominator with any numerator up to 2^900. 74 regions (signs, which component is the larger) "
    "cover these ranges; no loops",
    "infinities and NaN as arguments, results within a factor 4 of overflow, quotients which themselves over- or underflow, componentwise "
    "accuracy of the quotient, compilers that use extended precision",
    quick=150, thorough=600, query_ms=5000, regions=True,
    assumptions=[
        "every double operation returns the exact result of its operands with a relative error of at most 2^-53 and (products, quotients) an "
        "absolute error of at most 2^-1075 (round to nearest, gradual underflow)",
        "inputs range over the real numbers of a region, which include its doubles; a counterexample counts only if the real function is "
        "wrong at the doubles nearest to it, judged in exact rational arithmetic",
        "clang-18 -O0 LLVM IR after mem2reg is taken as the meaning of the C source"])
