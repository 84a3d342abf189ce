"""Rounding-error model of double arithmetic, decided by z3's nonlinear real arithmetic.

The compiled functions (LLVM IR, through llir) run over pairs (V, E): V is the
exact value of what was computed so far, as a real expression of the symbolic
inputs, and E a bound on |computed - V|, a sum of eps * M with eps rational and M
a nonnegative real expression.  Every operation rounds: error at most
2^-53 |V| plus 2^-1075 (underflow).  Branches on computed values fork with the
condition widened by the errors.  The claims are decided over all real inputs of
the stated ranges, which include all doubles of them.
"""
import ctypes
import itertools
import os
import subprocess
import time
from fractions import Fraction
import z3
import prog
import llir
from core import SB, UNDEF, NAN, INF, LongJmp

U = Fraction(1, 2 ** 53)
ETA = Fraction(1, 2 ** 1075)
MAX = (2 - Fraction(1, 2 ** 52)) * 2 ** 1023
SAFE = 1024
TINY = Fraction(1, 2 ** 70)


def up(q):
    """a rational of few digits, at least q"""
    if q == 0:
        return q
    e = q.numerator.bit_length() - q.denominator.bit_length() - 40
    s = Fraction(2) ** e
    k = -((-q) // s)
    return k * s


def rat(q):
    return z3.RealVal("%d/%d" % (q.numerator, q.denominator)) if q.denominator != 1 else z3.RealVal(q.numerator)


class Poly:
    """a polynomial with rational coefficients: {((var, exponent), ...): coefficient}"""
    __slots__ = ("d", "_k")

    def __init__(self, d):
        self.d = d
        self._k = None

    @staticmethod
    def const(q):
        return Poly({(): Fraction(q)} if q else {})

    @staticmethod
    def var(n):
        return Poly({((n, 1),): Fraction(1)})

    def __add__(self, o):
        d = dict(self.d)
        for m, c in o.d.items():
            c = d.get(m, 0) + c
            if c:
                d[m] = c
            else:
                d.pop(m, None)
        return Poly(d)

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        d = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                e = dict(m1)
                for v, k in m2:
                    e[v] = e.get(v, 0) + k
                m = tuple(sorted(e.items()))
                c = d.get(m, 0) + c1 * c2
                if c:
                    d[m] = c
                else:
                    d.pop(m, None)
        return Poly(d)

    def times(self, q):
        return Poly({m: c * q for m, c in self.d.items()} if q else {})

    def isconst(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def value(self):
        return self.d.get((), Fraction(0))

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.d.items()))
        return self._k

    def vars(self):
        return {v for m in self.d for v, k in m}

    def content(self):
        """the largest monomial which divides every term"""
        it = iter(self.d)
        g = dict(next(it))
        for m in it:
            e = dict(m)
            for v in list(g):
                k = min(g[v], e.get(v, 0))
                if k:
                    g[v] = k
                else:
                    del g[v]
        return g

    def cut(self, g):
        d = {}
        for m, c in self.d.items():
            e = dict(m)
            for v, k in g.items():
                e[v] -= k
                if not e[v]:
                    del e[v]
            d[tuple(sorted(e.items()))] = c
        return Poly(d)

    def z(self):
        t = []
        for m, c in self.d.items():
            x = rat(c)
            for v, k in m:
                for _ in range(k):
                    x = x * z3.Real(v)
            t.append(x)
        return z3.simplify(z3.Sum(t)) if t else rat(Fraction(0))


ZERO, ONE = Poly.const(0), Poly.const(1)


class FV:
    __slots__ = ("v", "err")

    def __init__(self, v, err=()):
        self.v = v
        self.err = err


class Special:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


SNAN = Special("nan")
SINF = Special("inf")


class Infeasible(Exception):
    pass


class Unsupported(Exception):
    pass


class Cell:
    def __init__(self):
        self.cells = {}


class E:
    """the executor behind the generated code: one path"""

    def __init__(self, prefix, base, cfg):
        self.prefix = list(prefix)
        self.pos = 0
        self.cov = [0] * 400
        self.fuel = 4000
        self.G = []
        self.cfg = cfg
        self.cons = []      # (z3 constraint, variables)
        self.deps = {}      # defined variable -> ([constraints], variables they need)
        self.n = 0
        self.signs = {}
        self.defs = {}
        self.restricted = []
        for p, op in base:
            self.add(p, op)

    # ------------------------------------------------------------ solver
    def rel(self, p, op):
        z = p.z()
        return {">=": z >= 0, ">": z > 0, "==": z == 0, "!=": z != 0, "<=": z <= 0, "<": z < 0}[op]

    def add(self, p, op):
        """p op 0 on this path"""
        self.cons.append((self.rel(p, op), p.vars()))

    def define(self, n, eqs):
        self.deps[n] = ([self.rel(p, op) for p, op in eqs], set().union(*(p.vars() for p, op in eqs)) - {n})

    def context(self, need, everything=False):
        """the constraints that matter for the variables"""
        need = set(need)
        todo, out, done = list(need), [], set()
        if everything:
            todo += list(self.deps)
        while todo:
            v = todo.pop()
            need.add(v)
            if v in done or v not in self.deps:
                continue
            done.add(v)
            cs, vs = self.deps[v]
            out += cs
            todo += [x for x in vs if x not in done]
        out += [c for c, vs in self.cons if everything or vs <= need]
        return out

    def ask(self, conds, need, everything=False, qt=None):
        """(verdict, model) of conds together with what is known"""
        s = z3.SolverFor("QF_NRA")
        s.set("timeout", qt or self.cfg.qt)
        s.add(*self.context(need, everything))
        s.add(*conds)
        t = time.time()
        r = s.check()
        self.cfg.time += time.time() - t
        self.cfg.queries[str(r)] = self.cfg.queries.get(str(r), 0) + 1
        return r, (s.model() if r == z3.sat else None)

    def proved(self, p, op, qt=None, wide=False):
        """p op 0 for every input of this path"""
        if p.isconst():
            q = p.value()
            return {">=": q >= 0, "==": q == 0, ">": q > 0, "<=": q <= 0, "!=": q != 0, "<": q < 0}[op]
        c = [z3.Not(self.rel(p, op))]
        r, m = self.ask(c, p.vars(), qt=qt)
        if r != z3.unsat and wide:
            r, m = self.ask(c, p.vars(), everything=True, qt=qt)
        return r == z3.unsat

    def claim(self, p, op, what, ok=None):
        """decide p op 0 on this path; look for a counterexample when it is not proved"""
        self.cfg.claims += 1
        if ok is None:
            ok = self.proved(p, op, wide=True)
        if ok:
            self.cfg.proved += 1
            return True
        self.cfg.open[what] = self.cfg.open.get(what, 0) + 1
        neg = z3.Not(self.rel(p, op)) if not p.isconst() else z3.BoolVal(True)
        for extra in [[]] + self.cfg.spread:
            if self.cfg.hit:
                break
            r, m = self.ask([neg] + [self.rel(a, o) for a, o in extra], p.vars(), everything=True, qt=3000)
            if m is not None:
                self.cfg.candidate(m, what)
        self.restricted.append(what)
        if p.isconst():
            raise Infeasible()
        self.add(p, op)
        return False

    def fresh(self, n):
        self.n += 1
        return "%s!%d" % (n, self.n)

    def fork(self, alts):
        """alts: list of (tag, [(p, op)...]); returns the tag taken on this path"""
        if self.pos < len(self.prefix):
            k = self.prefix[self.pos]
            self.pos += 1
        else:
            k = None
            for j, (tag, cs) in enumerate(alts):
                vs = set().union(*(p.vars() for p, op in cs)) if cs else set()
                if not cs or self.ask([self.rel(p, op) for p, op in cs], vs)[0] != z3.unsat:
                    if k is None:
                        k = j
                    else:
                        self.cfg.work.append(self.prefix + [j])
            if k is None:
                raise Infeasible()
            self.prefix.append(k)
            self.pos += 1
        tag, cs = alts[k]
        for p, op in cs:
            self.add(p, op)
        return tag

    # ------------------------------------------------------------ values
    def lift(self, x):
        if isinstance(x, (FV, Special)):
            return x
        if isinstance(x, (int, float)):
            if x != x:
                return SNAN
            if x in (float("inf"), float("-inf")):
                return SINF
            return FV(Poly.const(Fraction(x)))
        if x is NAN:
            return SNAN
        if x is INF:
            return SINF
        raise Unsupported("value %r" % (x,))

    def absv(self, v):
        """|v| as a polynomial: its sign is settled on this path"""
        if v.isconst():
            return v if v.value() >= 0 else -v
        k = v.key()
        s = self.signs.get(k)
        if s is None:
            s = self.fork([(1, [(v, ">=")]), (-1, [(v, "<")])])
            self.signs[k] = s
            self.signs[(-v).key()] = -s
        return v if s > 0 else -v

    def esum(self, err):
        r = ZERO
        for q, m in err:
            r = r + m.times(q)
        return r

    def merge(self, a, *lists):
        """the sum of error terms, as a multiple of a (= |V|) as far as the solver shows it"""
        d = {}
        for l in lists:
            for q, m in l:
                if m.isconst():
                    q, m = q * m.value(), ONE
                if len(m.d) == 1:
                    (mo, c), = m.d.items()
                    if c > 0:
                        q, m = q * c, Poly({mo: Fraction(1)})
                if q:
                    o = d.get(m.key())
                    d[m.key()] = (q + (o[0] if o else 0), m)
        rel, out = Fraction(0), []
        for q, m in d.values():
            if m.key() == a.key():
                rel += q
            elif self.proved(a.times(TINY) - m.times(q), ">=", 1000):
                rel += TINY
            elif self.proved(a - m, ">=", 1000):
                rel += q
            else:
                out.append((up(q), m))
        if rel:
            out.append((up(rel), a))
        return tuple(out)

    def scale(self, err, q, m):
        return [(a * q, b * m) for a, b in err]

    def rounded(self, v, err, eta):
        if v.isconst() and not err:
            q = v.value()
            if abs(q) <= MAX and Fraction(float(q)) == q:
                return FV(v)
        a = self.absv(v)
        e = [(q * (1 + U), m) for q, m in err] + [(U, a)]
        if eta:
            e.append((ETA, ONE))
        e = self.merge(a, e)
        self.claim(Poly.const(MAX) - a - self.esum(e), ">=", "an intermediate result overflows")
        return FV(v, e)

    def quotient(self, a, b, what="q"):
        """a / b (b is not zero on this path): a polynomial, or a new variable"""
        if not a.d:
            return a
        if b.isconst():
            return a.times(1 / b.value())
        g, h = a.content(), b.content()
        c = {v: min(k, h[v]) for v, k in g.items() if v in h}
        if c:
            a, b = a.cut(c), b.cut(c)
        if b.isconst():
            return a.times(1 / b.value())
        ma, ca = next(iter(a.d.items()))
        if ma in b.d:
            f = ca / b.d[ma]
            if b.times(f).key() == a.key():
                return Poly.const(f)
        for s in self.sqrts:
            if s[1].key() == a.key() and Poly.var(s[0]).key() == b.key():
                return b
        k = ("/", a.key(), b.key())
        if k not in self.defs:
            n = (-a).key()
            if ("/", n, b.key()) in self.defs:
                return -self.defs["/", n, b.key()]
            q = self.fresh(what)
            self.define(q, [(Poly.var(q) * b - a, "==")])
            self.defs[k] = Poly.var(q)
        return self.defs[k]

    @property
    def sqrts(self):
        return self.defs.setdefault("sqrts", [])

    def root(self, v):
        """sqrt(v) as a variable (times a monomial), for v >= 0 on this path"""
        if not v.d:
            return v
        g = {x: k // 2 * 2 for x, k in v.content().items() if k >= 2}
        if g:
            r = self.root(v.cut(g))
            m = Poly({tuple(sorted((x, k // 2) for x, k in g.items())): Fraction(1)})
            return r * self.absv(m)
        if v.isconst():
            f = v.value()
            n, d = f.numerator, f.denominator
            import math
            if math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d:
                return Poly.const(Fraction(math.isqrt(n), math.isqrt(d)))
        for n, w in self.sqrts:
            if w.key() == v.key():
                return Poly.var(n)
        n = self.fresh("w")
        w = Poly.var(n)
        self.define(n, [(w, ">="), (w * w - v, "==")])
        self.sqrts.append((n, v))
        return w

    # ------------------------------------------------------------ operations
    def fbin(self, op, x, y):
        x, y = self.lift(x), self.lift(y)
        if isinstance(x, Special) or isinstance(y, Special):
            return self.special(op, x, y)
        if op == "+" or op == "-":
            if not y.err and not y.v.d:
                return x
            v = x.v + y.v if op == "+" else x.v - y.v
            return self.rounded(v, list(x.err) + list(y.err), False)
        if op == "*":
            e = []
            if x.err:
                e += self.scale(x.err, 1, self.absv(y.v))
            if y.err:
                e += self.scale(y.err, 1, self.absv(x.v))
            for q, m in x.err:
                e += self.scale(y.err, q, m)
            return self.rounded(x.v * y.v, e, True)
        if op == "/":
            if y.v.isconst():
                zero = not y.v.d
            else:
                zero = self.fork([(False, [(y.v, "!=")]), (True, [(y.v, "==")])])
            if zero:
                if y.err:
                    raise Unsupported("division by a rounded zero")
                if not x.err and self.fork([(True, [(x.v, "==")]), (False, [(x.v, "!=")])]):
                    return SNAN
                return SINF
            ab = self.absv(y.v)
            f = Fraction(1)
            if y.err:
                self.claim(ab - self.esum(y.err).times(SAFE), ">=", "a divisor may be lost to rounding")
                f = 1 + max(q for q, m in y.err) * 2 if len(y.err) == 1 and y.err[0][1].key() == ab.key() else Fraction(SAFE, SAFE - 1)
            q = self.quotient(x.v, y.v)
            e = [(a * f, self.quotient(m, ab, "e")) for a, m in x.err]
            if y.err:
                aq = self.absv(q)
                e += [(a * f, aq * self.quotient(m, ab, "e")) for a, m in y.err]
            return self.rounded(q, e, True)
        raise Unsupported("operation " + op)

    def special(self, op, x, y):
        if x is SNAN or y is SNAN:
            return SNAN
        if op == "/" and x is not SINF:
            return FV(ZERO)
        if x is SINF and y is SINF:
            return SNAN
        return SINF if op != "*" else SNAN

    def fconv(self, x, kind):
        x = self.lift(x)
        if kind == "dbl" or isinstance(x, Special):
            return x
        if kind != "float":
            raise Unsupported(kind)
        a = self.absv(x.v)
        e = self.merge(a, list(x.err), [(2 ** 29 * U * 2, a), (2 ** 29 * U * Fraction(2) ** -125, ONE)])
        self.claim(Poly.const(Fraction(2) ** 128) - a - self.esum(e), ">=", "an intermediate result overflows")
        return FV(x.v, e)

    def cannot(self, why):
        raise Unsupported(why)

    def fneg(self, x):
        x = self.lift(x)
        if isinstance(x, Special):
            return x
        return FV(-x.v, x.err)

    def x_llvm_fabs(self, x):
        x = self.lift(x)
        if isinstance(x, Special):
            return x
        return FV(self.absv(x.v), x.err)
    x_fabs = x_llvm_fabs

    def x_llvm_fmuladd(self, a, b, c):
        return self.fbin("+", self.fbin("*", a, b), c)

    def x_sqrt(self, x):
        x = self.lift(x)
        if isinstance(x, Special):
            return x
        v = x.v
        if not v.d and not x.err:
            return x
        if not v.isconst() and self.fork([(True, [(v, ">=")]), (False, [(v, "<")])]) is False:
            return SNAN
        if x.err:
            self.claim(v - self.esum(x.err).times(SAFE), ">=", "the argument of a square root may be lost to rounding")
        if not v.isconst() and self.fork([(True, [(v, ">")]), (False, [(v, "==")])]) is False:
            if x.err:
                raise Unsupported("square root of a rounded zero")
            return FV(ZERO)
        w = self.root(v)
        f = Fraction(SAFE, 2 * SAFE - 2)
        return self.rounded(w, [(q * f, self.quotient(m, w, "e") if m.key() != v.key() else w) for q, m in x.err], False)
    x_llvm_sqrt = x_sqrt

    def x_fmax(self, a, b):
        return a if self.fcmp("oge", a, b) else b

    def x_fmin(self, a, b):
        return a if self.fcmp("ole", a, b) else b
    x_llvm_maxnum = x_fmax
    x_llvm_minnum = x_fmin

    def fcmp(self, cc, x, y):
        x, y = self.lift(x), self.lift(y)
        if x is SNAN or y is SNAN:
            return cc[0] == "u"
        if isinstance(x, Special) or isinstance(y, Special):
            raise Unsupported("comparison with an infinity")
        if cc in ("ord", "uno"):
            return cc == "ord"
        d = x.v - y.v
        e = self.esum(tuple(x.err) + tuple(y.err))
        exact = not x.err and not y.err
        op = cc[1:]
        if exact and d.isconst():
            q = d.value()
            return {"eq": q == 0, "ne": q != 0, "ge": q >= 0, "gt": q > 0, "le": q <= 0, "lt": q < 0}[op]
        if op in ("eq", "ne"):
            same = [(d, "==")] if exact else [(d - e, "<="), (-d - e, "<=")]
            # two sums of errors that are both zero leave the values equal
            diff = [(d, "!=")] if exact else [(d * d + e, ">")]
            return self.fork([(op == "eq", same), (op != "eq", diff)])
        if op in ("le", "lt"):
            d, op = -d, {"le": "ge", "lt": "gt"}[op]
        if exact:
            return self.fork([(True, [(d, ">=" if op == "ge" else ">")]), (False, [(d, "<" if op == "ge" else "<=")])])
        return self.fork([(True, [(d + e, ">=")]), (False, [(d - e, "<=")])])

    def br(self, b):
        return bool(b)

    def i1(self, b):
        return 1 if b else 0

    def zext(self, x, *w):
        return int(x)

    def sts(self, p, v, size):
        p[0].cells[p[1]] = (size, v)

    def lds(self, p, size, *a):
        c = p[0].cells.get(p[1])
        if c is None:
            raise Unsupported("load of an unset cell")
        return c[1]

    def alloca(self, size, *a):
        return (Cell(), 0)

    def out_of_fuel(self):
        raise Unsupported("too many steps")

    def __getattr__(self, n):
        if n.startswith("x_") or n in ("bin_", "iintr", "pcmp", "peq", "trunc", "ucmp", "switch", "callptr", "ovf"):
            raise Unsupported("operation " + n)
        raise AttributeError(n)


class Code:
    """the current source of SuiteSparse_config, encoded and built"""

    def __init__(self, tmp, build=True):
        path = prog.REPO + "/SuiteSparse_config/SuiteSparse_config.c"
        ll, so = os.path.join(tmp, "config.m.ll"), os.path.join(tmp, "config.so")
        if build:
            prog.to_ll(("config", path, ["-DNTIMER"], tmp))
            prog.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-DNTIMER"] + prog.INC + [path, "-o", so, "-lm"])
        with open(ll) as f:
            mod = llir.parse_module(f.read(), "config")
        names = ["SuiteSparse_hypot", "SuiteSparse_divcomplex"]
        cg = llir.CodeGen()
        cg.add_modules([mod], names)
        self.names = [f[1] for f in cg.fnames]
        ns = dict(SB=SB, UNDEF=UNDEF, NAN=NAN, INF=INF, LongJmp=LongJmp)
        ns["FN"] = fn = {}
        ns["XF"] = lambda n: (n, 0)
        exec(compile(cg.source(), "<ir:config>", "exec"), ns)
        self.f = {}
        for py, nm, tag, np_, va in cg.fnames:
            fn[py] = (ns[py], 0)
            self.f[nm] = ns[py]
        self.lib = ctypes.CDLL(so)
        self.lib.SuiteSparse_hypot.restype = ctypes.c_double
        self.lib.SuiteSparse_hypot.argtypes = [ctypes.c_double] * 2
        self.lib.SuiteSparse_divcomplex.argtypes = [ctypes.c_double] * 4 + [ctypes.POINTER(ctypes.c_double)] * 2

    def hypot(self, x, y):
        return self.lib.SuiteSparse_hypot(x, y)

    def div(self, a, b, c, d, alias=0):
        cr, ci = ctypes.c_double(7), ctypes.c_double(9)
        r = self.lib.SuiteSparse_divcomplex(a, b, c, d, ctypes.byref(cr), ctypes.byref(ci))
        return r, cr.value, ci.value


def approx(m, v):
    """a double near the model's value of v"""
    x = m.eval(v, model_completion=True)
    if z3.is_algebraic_value(x):
        x = x.approx(40)
    q = x.as_fraction()
    try:
        return float(q)
    except OverflowError:
        return None


# ------------------------------------------------------------------ claims
def two(e):
    return Poly.const(Fraction(2) ** e)


KH = 5          # hypot: error at most KH * 2^-53 relative
KD = 16         # divcomplex: error at most KD * 2^-53 relative to the modulus


def sq(x):
    return x * x


def bad_hypot(code, x, y):
    """the real function's result is wrong for (x, y): text, or None"""
    s = code.hypot(x, y)
    if s != s or s in (float("inf"), float("-inf")):
        return "hypot(%r, %r) = %r is not finite" % (x, y, s)
    h2 = Fraction(x) ** 2 + Fraction(y) ** 2
    f, a = Fraction(s), Fraction(1, 2 ** 1074)
    # |f - h| <= k h + a   <=>   (f + a)^2 >= (1-k)^2 h^2 and (f - a) <= (1+k) h
    k = KH * U
    if f < 0 or (f + a) ** 2 < (1 - k) ** 2 * h2 or (f > a and (f - a) ** 2 > (1 + k) ** 2 * h2):
        return "hypot(%r, %r) = %r is not within %d * 2^-53 of the exact value" % (x, y, s, KH)


def bad_div(code, a, b, c, d):
    r, cr, ci = code.div(a, b, c, d)
    if (r == 1) != (c == 0 and d == 0) or r not in (0, 1):
        return "divcomplex(%r, %r, %r, %r) returns %d" % (a, b, c, d, r)
    if c == 0 and d == 0:
        return None
    t = "divcomplex(%r, %r, %r, %r) = (%r, %r)" % (a, b, c, d, cr, ci)
    for v in (cr, ci):
        if v != v or v in (float("inf"), float("-inf")):
            return t + " is not finite"
    a, b, c, d, x, y = (Fraction(v) for v in (a, b, c, d, cr, ci))
    n = c * c + d * d
    e2 = (x - (a * c + b * d) / n) ** 2 + (y - (b * c - a * d) / n) ** 2
    if e2 > (KD * U) ** 2 * (a * a + b * b) / n:
        return t + " is not within %d * 2^-53 of the exact quotient" % KD


def in_range_div(a, b, c, d):
    A, B = max(abs(a), abs(b)), max(abs(c), abs(d))
    if B == 0:
        return True
    if not (2.0 ** -900 <= A <= 2.0 ** 900 and 2.0 ** -900 <= B <= 2.0 ** 900):
        return False
    return Fraction(A) <= Fraction(2) ** 100 * Fraction(B) and Fraction(B) <= Fraction(2) ** 100 * Fraction(A)


class Claim:
    """one function over one input region"""

    def __init__(self, name, fn, region):
        self.name, self.fn, self.region = name, fn, region


class Cfg:
    def __init__(self, code, claim, qt):
        self.code, self.claim, self.qt = code, claim, qt
        self.work, self.queries, self.open, self.unsupported = [], {}, {}, {}
        self.time = 0.0
        self.claims = self.proved = self.paths = self.infeasible = self.narrowed = 0
        self.hit = None
        self.unconfirmed = 0
        self.spread = []
        self.base = []
        self.vars = []
        claim.region(self)

    def candidate(self, m, what):
        """a model of the negated claim: judge the real function at doubles near it"""
        vals = []
        for v in self.vars:
            f = float(v.value()) if v.isconst() else approx(m, v.z())
            if f is None:
                return
            vals.append(f)
        # the point itself, then points near it whose digits are not as special as those of a solver's model
        for k in range(12):
            w = [v * (1 + Fraction((k * (7919 + 104729 * j)) % 9973, 9973 * 50)) for j, v in enumerate(map(Fraction, vals))]
            try:
                w = [float(x) for x in w]
            except OverflowError:
                continue
            t = self.judge(*w)
            if t:
                self.hit = (what, w, t)
                return
        self.unconfirmed += 1


def run_claim(code, claim, budget, qt):
    c = Cfg(code, claim, qt)
    end = time.time() + budget
    c.work.append([])
    while c.work and not c.hit and time.time() < end:
        p = c.work.pop()
        try:
            e = E(p, c.base, c)
            claim.fn(code, c, e)
            c.paths += 1
            if e.restricted:
                c.narrowed += 1
        except Infeasible:
            c.infeasible += 1
        except Unsupported as x:
            c.unsupported[str(x)] = c.unsupported.get(str(x), 0) + 1
            for extra in [[]] + c.spread:
                r, m = e.ask([e.rel(a, o) for a, o in extra], (), everything=True, qt=3000)
                if m is not None and not c.hit:
                    c.candidate(m, str(x))
    return c


def hypot_region(case):
    """(which argument is the larger one, its sign, the sign of the ratio) or zero"""
    def region(c):
        top = 1022
        c.judge = lambda a, b: bad_hypot(c.code, a, b) if max(abs(a), abs(b)) <= 2.0 ** top else None
        if case == "zero":
            c.vars = [ZERO, ZERO]
            return
        big, s, r = case
        X, t = Poly.var("X"), Poly.var("t")
        x = X if s > 0 else -X
        c.vars = [x, t * X.times(r)][::1 if big == 0 else -1]
        c.base = [(X, ">"), (two(top) - X, ">="), (t, ">="), (ONE - t, ">=")]
        mid = [(X - ONE, ">="), (Poly.const(9) - X, ">=")]
        c.spread = [mid + [(t.times(2) - ONE, ">="), (t - ONE, "<")], mid + [(t.times(8) - ONE, ">="), (t.times(3) - ONE, "<=")], mid + [(t, "==")],
                    [(X - two(top - 1), ">"), (t.times(2) - ONE, ">=")], [(X - two(-600), "<="), (X - two(-700), ">="), (t.times(2) - ONE, ">=")]]
    return region


def within(e, g, ref, mod, lim, what):
    """|computed - ref| <= lim * mod + slack terms: the exact part first, then each error term as a share of lim"""
    if (g.v - ref).isconst() and not (g.v - ref).d or e.proved(g.v - ref, "=="):
        rest, used = [], Fraction(0)
        for q, m in g.err:
            if m.key() == mod.key() or e.proved(mod - m, ">="):
                used += q
            elif e.proved(mod.times(TINY) - m.times(q), ">="):
                used += TINY
            else:
                rest.append((q, m))
        if not rest and used <= lim:
            return e.claim(ONE, ">=", what, True)
        if rest == [(q, m) for q, m in rest if m.isconst()] and sum(q * m.value() for q, m in rest) <= Fraction(1, 2 ** 1074) and used <= lim:
            return e.claim(ONE, ">=", what, True)
    err = e.esum(g.err)
    slack = Poly.const(Fraction(1, 2 ** 1074))
    e.claim(mod.times(lim) + slack - err - (g.v - ref), ">=", what)
    e.claim(mod.times(lim) + slack - err + (g.v - ref), ">=", what)


def do_hypot(code, c, e):
    x, y = c.vars
    r = e.lift(code.f["SuiteSparse_hypot"](e, FV(x), FV(y)))
    if isinstance(r, Special):
        e.claim(-ONE, ">=", "the result is %s" % r, False)
        return
    h = e.root(x * x + y * y)
    e.claim(r.v, ">=", "the result is negative")
    within(e, r, h, h, KH * U, "the result is not within %d * 2^-53" % KH)


def div_region(case):
    def region(c):
        a, b, r, B = (Poly.var(n) for n in "abrB")
        if case == "zero":
            c.vars = [a, b, ZERO, ZERO]
            c.base = [(two(900) - a, ">="), (a + two(900), ">="), (two(900) - b, ">="), (b + two(900), ">=")]
            c.judge = lambda *v: bad_div(c.code, *v)
            return
        # the denominator is B and r B, the numerator a B and b B, with signs and the larger components by cases
        ma, sa, sb, mb, sp, sr = case
        den = [B.times(sp), (r * B).times(sr)]
        num = [(a * B).times(sa), (b * B).times(sb)]
        c.vars = num + (den if mb == 0 else den[::-1])
        A, A2 = (a, b) if ma == 0 else (b, a)
        c.base = [(B - two(-900), ">="), (two(900) - B, ">="), (r, ">="), (ONE - r, ">="), (A2, ">="), (A - A2, ">="),
                  (A - two(-100), ">="), (two(100) - A, ">="), (A * B - two(-900), ">="), (two(900) - A * B, ">=")]
        mid = [(B - ONE, ">="), (B.times(3) - Poly.const(8), "<="), (A.times(3) - ONE, ">="), (A - Poly.const(2), "<")]
        c.spread = [mid + [(r.times(2) - ONE, ">="), (r - ONE, "<"), (A2.times(3) - A, ">="), (A2 - A, "<")],
                    mid + [(r.times(2) - ONE, ">="), (r - ONE, "<"), (A2, "==")], mid + [(r, "=="), (A2.times(3) - A, ">=")],
                    [(B - two(899), ">="), (r.times(2) - ONE, ">="), (A2.times(2) - A, ">=")],
                    [(B - two(-870), "<="), (r.times(2) - ONE, ">="), (A2.times(2) - A, ">=")]]
        c.judge = lambda *v: bad_div(c.code, *v) if in_range_div(*v) else None
    return region


def do_div(code, c, e):
    C, D = Cell(), Cell()
    flag = code.f["SuiteSparse_divcomplex"](e, *[FV(x) for x in c.vars], (C, 0), (D, 0))
    zero = not c.vars[2].d and not c.vars[3].d
    if not isinstance(flag, int):
        raise Unsupported("result %r" % (flag,))
    if flag != int(zero):
        e.claim(-ONE, ">=", "the result is 1 exactly when the denominator is zero", False)
    if zero:
        e.claim(ONE, ">=", "the result is 1 exactly when the denominator is zero", True)
        return
    a, b, p, q = c.vars
    re, im = (e.lift(o.cells[0][1]) if 0 in o.cells else SNAN for o in (C, D))
    if isinstance(re, Special) or isinstance(im, Special):
        e.claim(-ONE, ">=", "the quotient is not finite", False)
        return
    n = p * p + q * q
    mod = e.quotient(e.root(a * a + b * b), e.root(n), "mod")
    # each component within KD/2 * 2^-53 of |a|/|b|, so the quotient within KD * 2^-53
    within(e, re, e.quotient(a * p + b * q, n, "re"), mod, KD * U / 2, "the real part is not within %d * 2^-53" % KD)
    within(e, im, e.quotient(b * p - a * q, n, "im"), mod, KD * U / 2, "the imaginary part is not within %d * 2^-53" % KD)


# ------------------------------------------------------------------ the check
REGIONS = [("hypot", do_hypot, hypot_region, k) for k in ["zero"] + list(itertools.product((0, 1), (1, -1), (1, -1)))] + \
          [("div", do_div, div_region, k) for k in ["zero"] + list(itertools.product((0, 1), (1, -1), (1, -1), (0, 1), (1, -1), (1, -1)))]


def one(code, k, budget, qt):
    name, fn, region, case = REGIONS[k]
    t = time.time()
    c = run_claim(code, Claim(name, fn, region(case)), budget, qt)
    # the real functions at points of the region the solver picks
    wit = []
    if not c.hit:
        e = E([], c.base, c)
        for extra in [[]] + c.spread:
            r, m = e.ask([e.rel(a, o) for a, o in extra], (), everything=True, qt=2000)
            if m is None:
                continue
            vals = [float(v.value()) if v.isconst() else approx(m, v.z()) for v in c.vars]
            if None in vals:
                continue
            bad = c.judge(*vals)
            wit.append((vals, bad))
            if bad:
                c.hit = ("the real function at a point of the region", vals, bad)
                break
    return dict(k=k, name="%s %s" % (name, case), paths=c.paths, infeasible=c.infeasible, left=len(c.work), claims=c.claims,
                proved=c.proved, open=c.open, queries=c.queries, time=c.time, hit=c.hit, unconfirmed=c.unconfirmed,
                unsupported=c.unsupported, wit=wit, spent=time.time() - t)


def _worker(args):
    k, tmp, budget, qt = args
    global _CODE
    if "_CODE" not in globals():
        _CODE = Code(tmp, False)
    return one(_CODE, k, budget, qt)


def decide(budget, qt):
    """(names of the encoded functions, one record per region)"""
    import shutil
    import tempfile
    from concurrent.futures import ProcessPoolExecutor, as_completed
    tmp = tempfile.mkdtemp(prefix="fperr.")
    end = time.time() + budget
    res = []
    try:
        names = Code(tmp).names
        with ProcessPoolExecutor(8) as ex:
            fs = [ex.submit(_worker, (k, tmp, max(20, budget / 4), qt)) for k in range(len(REGIONS))]
            for f in as_completed(fs):
                res.append(f.result())
                if res[-1]["hit"] or time.time() > end:
                    for g in fs:
                        g.cancel()
                    break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return names, sorted(res, key=lambda r: r["k"])
