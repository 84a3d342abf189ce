"""Value-level models of the GMP/MPFR entry points the code under test calls.

An mpz value is an integer polynomial over the symbolic inputs, stored on the
limb block the mpz_t points to; memory behaviour (lazy allocation, growth
through the registered memory functions, double clear, uninitialised use) is
executed on the executor's heap.  mpq values are rational functions (canonical
form taken lazily), mpfr values are reals with an explicit rounding operator.
"""
import math
from fractions import Fraction
from core import *          # noqa
from core import _Undef     # noqa
import core
from poly import Poly, ZERO, ONE


class QV:
    """canonical form of n/d, not yet computed"""
    __slots__ = ("n", "d", "can")

    def __init__(self, n, d):
        self.n, self.d, self.can = n, d, None


class QPart:
    __slots__ = ("q", "den")

    def __init__(self, q, den):
        self.q, self.den = q, den


class MF:
    """mpfr datum"""
    __slots__ = ("kind", "n", "d")

    def __init__(self, kind, n=None, d=None):
        self.kind, self.n, self.d = kind, n, d


def limbs(v):
    return (abs(v).bit_length() + 63) // 64


def ilog2(fr):
    """floor(log2(fr)) for positive Fraction"""
    n, d = fr.numerator, fr.denominator
    e = n.bit_length() - d.bit_length()
    if Fraction(2) ** e > fr:
        e -= 1
    return e


# rounding modes of MPFR: 0 N, 1 Z, 2 U, 3 D, 4 A, 5 F
def round_int(fr, rnd):
    fl = fr.numerator // fr.denominator
    if fr.denominator == 1:
        return fl
    if rnd == 1:
        return fl if fr > 0 else fl + 1
    if rnd == 2:
        return fl + 1
    if rnd == 3:
        return fl
    if rnd == 4:
        return fl + 1 if fr > 0 else fl
    r = fr - fl
    h = Fraction(1, 2)
    if r < h:
        return fl
    if r > h:
        return fl + 1
    return fl if fl % 2 == 0 else fl + 1


def round_prec(fr, prec, rnd):
    if fr == 0:
        return fr
    e = ilog2(abs(fr)) - (prec - 1)
    sc = Fraction(2) ** e
    return round_int(fr / sc, rnd) * sc


def fr_to_double(fr, rnd):
    """Fraction -> double under an MPFR rounding mode (with subnormals)"""
    if fr == 0:
        return 0.0
    e = ilog2(abs(fr)) - 52
    if e < -1074:
        e = -1074
    sc = Fraction(2) ** e
    v = round_int(fr / sc, rnd) * sc
    try:
        return float(v)
    except OverflowError:
        pos = v > 0
        big = 1.7976931348623157e308
        if rnd == 1 or (rnd == 2 and not pos) or (rnd == 3 and pos):
            return big if pos else -big
        return INF if pos else -INF


def lift(n, d, zeros, limit=60):
    """q with n = q*d modulo the zero relations, over the integers, or None (bounded search)"""
    basis = [(d, ONE)] + [(z, ZERO) for z in zeros]
    if any(isinstance(c, Fraction) for p in [n, d] + zeros for c in p.t.values()):
        return None

    def reduce(g, c):
        qs, r = g.divrem([b[0] for b in basis], early=False)
        for q, b in zip(qs, basis):
            if q.t and b[1].t:
                c = c.sub(q.mul(b[1]))
        return r, c

    def target():
        r, c = reduce(n, ZERO)
        return c.neg() if r.is_zero() else None
    q = target()
    if q is not None:
        return q
    pairs = [(i, j) for j in range(len(basis)) for i in range(j)]
    steps = 0
    while pairs and steps < limit:
        pairs.sort(key=lambda ij: -(max(basis[ij[0]][0].t) + max(basis[ij[1]][0].t)))
        i, j = pairs.pop()
        steps += 1
        (f, cf), (g, cg) = basis[i], basis[j]
        mf, mg = max(f.t), max(g.t)
        lf, lg = f.t[mf], g.t[mg]
        lcm = 0
        k = 0
        a, b = mf, mg
        while a or b:
            lcm |= max(a & 0xFF, b & 0xFF) << k
            a >>= 8
            b >>= 8
            k += 8
        gg = math.gcd(lf, lg)
        combos = [(lg // gg, -(lf // gg))]
        if lf % lg and lg % lf:
            # combination whose leading coefficient is the gcd
            x0, x1, y0, y1, p, r = 1, 0, 0, 1, lf, lg
            while r:
                t = p // r
                x0, x1, y0, y1, p, r = x1, x0 - t * x1, y1, y0 - t * y1, r, p - t * r
            combos.append((x0, y0))
        for x, y in combos:
            sf, sg = Poly({lcm - mf: x}), Poly({lcm - mg: y})
            h = f.mul(sf).add(g.mul(sg))
            if h.is_zero():
                continue
            h, ch = reduce(h, cf.mul(sf).add(cg.mul(sg)))
            if h.is_zero():
                continue
            if len(h.t) > 60 or h.degree() > 10 or len(ch.t) > 80:
                continue
            basis.append((h, ch))
            pairs += [(m, len(basis) - 1) for m in range(len(basis) - 1)]
            q = target()
            if q is not None:
                return q
    return None


class GmpExecutor(core.Executor):
    grow = False

    def gmp_reset(self):
        self.memfun = None
        self.grow = False
        self.ALLOC_LIMIT = 1 << 20
        self.dummy = self.new_obj(8, "gmpdummy")
        self.dummy.val = ZERO
        self.divfacts = {}
        self.lcms = set()
        self.vprec = {}
        self.mpfr_cache = None

    # ---------------------------------------------------------------- alloc
    def galloc(self, n):
        if self.memfun is None:
            o = self.new_obj(n, "libgmp")
            return (o, 0)
        p = self.callptr(self.memfun[0], n)
        if p == 0:
            raise Violation("gmp-null", "allocation function returned NULL to GMP")
        return p

    def gfree(self, p, n):
        o = p[0]
        if not o.live:
            raise Violation("double-free", "GMP object cleared twice")
        if o.kind == "libgmp" or self.memfun is None:
            if o.kind == "heap":
                raise Violation("bad-free", "block of the custom allocator freed by the default one")
            o.live = False
            return
        self.callptr(self.memfun[2], p, n)

    def grealloc(self, p, old, new):
        if p[0].kind == "libgmp" or self.memfun is None:
            o = self.new_obj(new, "libgmp")
            o.val = p[0].val
            p[0].live = False
            return (o, 0)
        q = self.callptr(self.memfun[1], p, old, new)
        if q == 0:
            raise Violation("gmp-null", "reallocation function returned NULL to GMP")
        if q[0].val is None:
            q[0].val = p[0].val
        return q

    def x___gmp_set_memory_functions(self, a, r, f):
        self.memfun = (a, r, f)

    def x___gmp_get_memory_functions(self, a, r, f):
        for p, v in zip((a, r, f), self.memfun or (0, 0, 0)):
            if p != 0:
                self.sts(p, v, 8)

    # ---------------------------------------------------------------- mpz
    def zptr(self, p):
        """limb pointer of an mpz_t (checks it was initialised)"""
        o, off = self._chk(p, 16, "read")
        d = self.ld((o, off + 8), 8, "p")
        if d is UNDEF:
            raise Violation("uninit", "use of an uninitialised mpz_t")
        if d == 0:
            raise Violation("null-deref", "use of an mpz_t whose limbs are NULL")
        if not d[0].live:
            raise Violation("use-after-free", "use of a cleared mpz_t")
        return o, off, d

    def zraw(self, p):
        o, off, d = self.zptr(p)
        v = d[0].val
        if v is None:
            raise Violation("uninit", "read of an mpz_t without value")
        if d[0] is self.dummy:
            return ZERO
        return v

    def zr(self, p):
        v = self.zraw(p)
        if v.__class__ is QPart:
            n, d = self.canon(v.q)
            v = d if v.den else n
        return self.norm(v) if (self.subst or self.zero) else v

    def zw(self, p, v, need=None):
        o, off, d = self.zptr(p)
        al = self.ld((o, off), 4, "i32")
        if al is UNDEF:
            raise Violation("uninit", "write to an uninitialised mpz_t")
        const = v.__class__ is Poly and v.is_const()
        if need is None:
            need = limbs(v.const_value()) if const else 1
        if need > 0:
            if al == 0:
                d = self.galloc(8 * need)
                self.sts((o, off), need, 4)
                self.sts((o, off + 8), d, 8)
            elif need > al or (self.grow and not const and al < 3):
                nn = max(need, al + 1) if self.grow else need
                d = self.grealloc(d, 8 * al, 8 * nn)
                self.sts((o, off), nn, 4)
                self.sts((o, off + 8), d, 8)
            d[0].val = v
        elif d[0] is not self.dummy:
            d[0].val = v
        if const:
            c = v.const_value()
            sz = limbs(c) * sgn(c)
        elif v.__class__ is QPart:
            sz = SG((v.q.n, v.q.d)) if not v.den else 1
        else:
            sz = SG((v,))
        self.sts((o, off + 4), sz, 4)

    def _zinit(self, p):
        o, off = self._chk(p, 16, "write")
        self.sts((o, off), 0, 4)
        self.sts((o, off + 4), 0, 4)
        self.sts((o, off + 8), (self.dummy, 0), 8)

    x___gmpz_init = _zinit

    def x___gmpz_init2(self, p, bits):
        if bits.__class__ is SI:
            # the initial allocation is only a hint to GMP: one limb stands
            # for any size (the block grows through the registered functions)
            n = 1
        else:
            n = max(1, (self.cint(bits) + 63) // 64)
        o, off = self._chk(p, 16, "write")
        d = self.galloc(8 * n)
        self.sts((o, off), n, 4)
        self.sts((o, off + 4), 0, 4)
        self.sts((o, off + 8), d, 8)
        d[0].val = ZERO

    def x___gmpz_inits(self, *ps):
        for p in ps:
            if p != 0:
                self._zinit(p)

    def x___gmpz_clears(self, *ps):
        for p in ps:
            if p != 0:
                self.x___gmpz_clear(p)

    def x___gmpz_clear(self, p):
        o, off = self._chk(p, 16, "read")
        al = self.ld((o, off), 4, "i32")
        d = self.ld((o, off + 8), 8, "p")
        if al is UNDEF or d is UNDEF:
            raise Violation("uninit", "clear of an uninitialised mpz_t")
        if al != 0:
            if d == 0:
                raise Violation("null-deref", "clear of broken mpz_t")
            self.gfree(d, 8 * al)

    def x___gmpz_set(self, a, b):
        self.zw(a, self.zr(b))

    def x___gmpz_init_set(self, a, b):
        self._zinit(a)
        self.zw(a, self.zr(b))

    def ipoly(self, y):
        if y.__class__ is int:
            return Poly.const(y)
        if y.__class__ is SI:
            return y.p
        return Poly.const(self.cint(y))

    def x___gmpz_set_si(self, a, y):
        self.zw(a, self.ipoly(y))

    def x___gmpz_set_ui(self, a, y):
        self.zw(a, self.ipoly(self.zext(y, 64)))

    def x___gmpz_init_set_si(self, a, y):
        self._zinit(a)
        self.zw(a, self.ipoly(y))

    def x___gmpz_init_set_ui(self, a, y):
        self._zinit(a)
        self.zw(a, self.ipoly(self.zext(y, 64)))

    def x___gmpz_set_str(self, a, s, base):
        t = self.cstr(s)
        self.zw(a, Poly.const(int(t, self.cint(base) or 10)))
        return 0

    def cstr(self, p):
        o = p[0]
        if o.kind == "str":
            b = o.val[p[1]:]
            return b.split(b"\0")[0].decode("latin1")
        n = self.x_strlen(p)
        return "".join(chr(self.lds((o, p[1] + k), 1, "i8") & 255) for k in range(n))

    def x___gmpz_add(self, a, b, c):
        self.zw(a, self.zr(b).add(self.zr(c)))

    def x___gmpz_sub(self, a, b, c):
        self.zw(a, self.zr(b).sub(self.zr(c)))

    def x___gmpz_mul(self, a, b, c):
        x, y = self.zr(b), self.zr(c)
        need = None
        if x.is_const() and y.is_const():
            need = limbs(x.const_value()) + limbs(y.const_value())
            if x.is_zero() or y.is_zero():
                need = 0
        self.zw(a, self.norm(x.mul(y)), need)

    def x___gmpz_mul_si(self, a, b, c):
        self.zw(a, self.zr(b).mul(self.ipoly(c)))

    def x___gmpz_mul_ui(self, a, b, c):
        self.zw(a, self.zr(b).mul(self.ipoly(self.zext(c, 64))))

    def x___gmpz_submul(self, a, b, c):
        self.zw(a, self.norm(self.zr(a).sub(self.zr(b).mul(self.zr(c)))))

    def x___gmpz_addmul(self, a, b, c):
        self.zw(a, self.norm(self.zr(a).add(self.zr(b).mul(self.zr(c)))))

    def x___gmpz_neg(self, a, b):
        self.zw(a, self.zr(b).neg())

    def x___gmpz_swap(self, a, b):
        for k, s in ((0, 4), (4, 4), (8, 8)):
            x = self.ld((a[0], a[1] + k), s)
            y = self.ld((b[0], b[1] + k), s)
            self.sts((a[0], a[1] + k), y, s)
            self.sts((b[0], b[1] + k), x, s)

    def psign_split(self, p):
        """case split on the sign of a polynomial"""
        if p.is_const():
            return sgn(p.const_value())
        if self.br(SB("==", (p,))):
            return 0
        return 1 if self.br(SB(">", (p,))) else -1

    def x___gmpz_abs(self, a, b):
        p = self.zr(b)
        if p.is_const():
            self.zw(a, Poly.const(abs(p.const_value())))
            return
        neg = self.br(SB("<", (p,)))
        self.zw(a, p.neg() if neg else p)

    def cmpres(self, fs, raw=None):
        s = 1
        out = []
        for f in fs:
            f = self.norm(f)
            if f.is_const():
                s *= sgn(f.const_value())
            else:
                out.append(f)
        if s == 0:
            # settled by the normal form: keep the raw pair for the solver
            if raw is not None:
                self.confirm_z3(SB("==", fs, raw))
            return 0
        if not out:
            return s
        if s < 0:
            out.append(Poly.const(-1))
        return SG(tuple(out), raw)

    def x___gmpz_cmp(self, a, b):
        p, q = self.zr(a), self.zr(b)
        return self.cmpres((p.sub(q),), (p, q))

    def x___gmpz_cmpabs(self, a, b):
        p, q = self.zr(a), self.zr(b)
        return self.cmpres((p.sub(q), p.add(q)))

    def x___gmpz_cmp_si(self, a, y):
        p = self.zr(a)
        return self.cmpres((p.sub(self.ipoly(y)),))

    def x___gmpz_cmp_ui(self, a, y):
        p = self.zr(a)
        return self.cmpres((p.sub(self.ipoly(self.zext(y, 64))),))

    def x___gmpz_cmpabs_ui(self, a, y):
        p = self.zr(a)
        q = self.ipoly(self.zext(y, 64))
        return self.cmpres((p.sub(q), p.add(q)))

    def x_v_mpz_sgn(self, a):
        v = self.zraw(a)
        if v.__class__ is QPart:
            if v.den:
                return 1
            return self.cmpres((v.q.n, v.q.d))
        return self.cmpres((v,))

    def x_v_mpq_sgn(self, a):
        # sign of the numerator, as the macro does
        return self.x_v_mpz_sgn(a)

    def nonzero(self, p, what):
        if p.is_const():
            if p.is_zero():
                raise Violation("div-zero", what)
            return
        self.require(SB("!=", (p,)), "div-zero", what)

    def quotient(self, n, d, what="mpz_divexact"):
        """n / d, which must be exact"""
        self.nonzero(d, what + ": division by zero")
        f = self.divfacts.get((n, d))
        if f is not None:
            return f
        n0, d0 = n, d
        n, d = self.norm(n), self.norm(d)
        f = self.divfacts.get((n, d))
        if f is not None:
            return f
        if n.is_const() and d.is_const():
            q, r = divmod(n.const_value(), d.const_value())
            if r:
                raise Violation("inexact", "%s: %d not divisible by %d" % (what, n.const_value(), d.const_value()))
            return Poly.const(q)
        q = n.divexact(d)
        if q is not None:
            return q
        if self.zero:
            for order in ([d] + self.zero, self.zero + [d]):
                qs, r = n.divrem(order, early=False)
                if r.is_zero():
                    return qs[0] if order[0] is d else qs[-1]
            # try to use the zero relations in the other direction
            g = self.groebner_quotient(n, d)
            if g is not None:
                return g
        # look for a counterexample among the samples, then ask the solver
        idx = self.alive_idx()
        for r in idx:
            dv = self.eval_row(d, r)
            if dv == 0 or self.eval_row(n, r) % dv:
                w = Row()
                w.ex = self
                for k, v in enumerate(self.vars):
                    if v.fn is None:
                        w[k] = v.arr[r]
                if self.row_ok(w, self.pc):
                    self.report("inexact", "%s: division is not exact" % what, w)
                    raise Violation("inexact-reported", what)
        for row in self.extra:
            dv = self.eval_dict(d, row)
            if dv == 0 or self.eval_dict(n, row) % dv:
                if self.row_ok(row, self.pc):
                    self.report("inexact", "%s: division is not exact" % what, row)
                    raise Violation("inexact-reported", what)
        self.stats.undecided += 1
        self.notes_undecided.append(what + " exactness")
        if self.dbgq:
            print("QUOT", n.show(self.vname), "BY", d.show(self.vname), "MOD", [z.show(self.vname) for z in self.zero])
        v = self.fresh("quot", "int", None, None, fn=lambda ev: ev(n) // ev(d))
        Q = Poly.var(v)
        self.assume_def(SB("==", (Q.mul(d).sub(n),)))
        self.divfacts[n, d] = Q
        return Q

    def groebner_quotient(self, n, d):
        """n in <d> + <zero relations> over the integers?  returns the cofactor of d"""
        vs = sorted(set(n.vars()) | set(d.vars()) | {k for z in self.zero for k in z.vars()})
        if len(vs) > 14:
            return None
        import itertools
        t0 = time.time()
        for perm in itertools.islice(itertools.permutations(vs), 0, 24):
            mp = dict(zip(vs, perm))
            ren = lambda p: Poly({sum(((m >> (8 * k)) & 0xFF) << (8 * mp[k]) for k in vs): c for m, c in p.t.items()})
            q = lift(ren(n), ren(d), [ren(z) for z in self.zero])
            if q is not None:
                inv = {v: k for k, v in mp.items()}
                return Poly({sum(((m >> (8 * k)) & 0xFF) << (8 * inv[k]) for k in vs): c for m, c in q.t.items()})
            if time.time() - t0 > 0.5:
                break
        return None

    def x___gmpz_divexact(self, a, b, c):
        self.zw(a, self.quotient(self.zr(b), self.zr(c)))

    def x___gmpz_divexact_ui(self, a, b, c):
        self.zw(a, self.quotient(self.zr(b), self.ipoly(self.zext(c, 64))))

    def tdiv(self, n, d, what):
        self.nonzero(d, what)
        q = self.divfacts.get((n, d)) or n.divexact(d)
        if q is not None:
            return q
        s = self.psign_split(d)
        if s < 0:
            n, d = n.neg(), d.neg()
        return self.trunc_rat(n, d)

    def x___gmpz_tdiv_q(self, a, b, c):
        self.zw(a, self.tdiv(self.zr(b), self.zr(c), "mpz_tdiv_q"))

    def rdiv(self, n, d, rnd, what):
        """quotient rounded down (3), up (2) or toward zero (1)"""
        if rnd == 1:
            return self.tdiv(n, d, what)
        self.nonzero(d, what)
        if n.is_const() and d.is_const():
            x, y = n.const_value(), d.const_value()
            return Poly.const(x // y if rnd == 3 else -((-x) // y))
        q = self.divfacts.get((n, d)) or n.divexact(d)
        if q is not None:
            return q
        if self.psign_split(d) < 0:
            n, d = n.neg(), d.neg()
        return self.int_round(n, d, rnd)

    def x___gmpz_fdiv_q(self, a, b, c):
        self.zw(a, self.rdiv(self.zr(b), self.zr(c), 3, "mpz_fdiv_q"))

    def x___gmpz_cdiv_q(self, a, b, c):
        self.zw(a, self.rdiv(self.zr(b), self.zr(c), 2, "mpz_cdiv_q"))

    def _divr(self, q, r, n, d, rnd, what):
        k = self.rdiv(n, d, rnd, what)
        rem = self.norm(n.sub(k.mul(d)))
        if q is not None:
            self.zw(q, k)
        if r is not None:
            self.zw(r, rem)
        return rem

    def x___gmpz_tdiv_r(self, r, b, c):
        self._divr(None, r, self.zr(b), self.zr(c), 1, "mpz_tdiv_r")

    def x___gmpz_fdiv_r(self, r, b, c):
        self._divr(None, r, self.zr(b), self.zr(c), 3, "mpz_fdiv_r")

    def x___gmpz_cdiv_r(self, r, b, c):
        self._divr(None, r, self.zr(b), self.zr(c), 2, "mpz_cdiv_r")

    def x___gmpz_tdiv_qr(self, q, r, b, c):
        self._divr(q, r, self.zr(b), self.zr(c), 1, "mpz_tdiv_qr")

    def x___gmpz_fdiv_qr(self, q, r, b, c):
        self._divr(q, r, self.zr(b), self.zr(c), 3, "mpz_fdiv_qr")

    def x___gmpz_cdiv_qr(self, q, r, b, c):
        self._divr(q, r, self.zr(b), self.zr(c), 2, "mpz_cdiv_qr")

    def x___gmpz_mod(self, r, b, c):
        n, d = self.zr(b), self.zr(c)
        self.nonzero(d, "mpz_mod")
        self._divr(None, r, n, d.neg() if self.psign_split(d) < 0 else d, 3, "mpz_mod")

    def _divui(self, q, r, b, c, rnd, what):
        rem = self._divr(q, r, self.zr(b), self.ipoly(self.zext(c, 64)), rnd, what)
        if rem.is_const():
            return self.trunc(abs(rem.const_value()), 64)
        lo = self.psign_split(rem)
        return SI.mk(rem.neg() if lo < 0 else rem, 0, I64MAX)

    def x___gmpz_tdiv_q_ui(self, q, b, c):
        return self._divui(q, None, b, c, 1, "mpz_tdiv_q_ui")

    def x___gmpz_fdiv_q_ui(self, q, b, c):
        return self._divui(q, None, b, c, 3, "mpz_fdiv_q_ui")

    def x___gmpz_cdiv_q_ui(self, q, b, c):
        return self._divui(q, None, b, c, 2, "mpz_cdiv_q_ui")

    def x___gmpz_tdiv_r_ui(self, r, b, c):
        return self._divui(None, r, b, c, 1, "mpz_tdiv_r_ui")

    def x___gmpz_fdiv_r_ui(self, r, b, c):
        return self._divui(None, r, b, c, 3, "mpz_fdiv_r_ui")

    def x___gmpz_tdiv_ui(self, b, c):
        return self._divui(None, None, b, c, 1, "mpz_tdiv_ui")

    def x___gmpz_fdiv_ui(self, b, c):
        return self._divui(None, None, b, c, 3, "mpz_fdiv_ui")

    def x___gmpz_tdiv_q_2exp(self, a, b, n):
        self.zw(a, self.rdiv(self.zr(b), Poly.const(1 << self.cint(n)), 1, "mpz_tdiv_q_2exp"))

    def x___gmpz_fdiv_q_2exp(self, a, b, n):
        self.zw(a, self.rdiv(self.zr(b), Poly.const(1 << self.cint(n)), 3, "mpz_fdiv_q_2exp"))

    def x___gmpz_add_ui(self, a, b, c):
        self.zw(a, self.zr(b).add(self.ipoly(self.zext(c, 64))))

    def x___gmpz_sub_ui(self, a, b, c):
        self.zw(a, self.zr(b).sub(self.ipoly(self.zext(c, 64))))

    def x___gmpz_ui_sub(self, a, b, c):
        self.zw(a, self.ipoly(self.zext(b, 64)).sub(self.zr(c)))

    def x___gmpz_addmul_ui(self, a, b, c):
        self.zw(a, self.norm(self.zr(a).add(self.zr(b).mul(self.ipoly(self.zext(c, 64))))))

    def x___gmpz_submul_ui(self, a, b, c):
        self.zw(a, self.norm(self.zr(a).sub(self.zr(b).mul(self.ipoly(self.zext(c, 64))))))

    def x___gmpz_init_set_d(self, a, d):
        self._zinit(a)
        self.x___gmpz_set_d(a, d)

    def x___gmpz_init_set_str(self, a, s, base):
        self._zinit(a)
        return self.x___gmpz_set_str(a, s, base)

    def x___gmpz_cmpabs_d(self, a, d):
        p = self.zr(a)
        n, dd = self.rat(d)
        return self.cmpres((p.mul(dd).sub(n), p.mul(dd).add(n)))

    def x___gmpz_divisible_ui_p(self, b, c):
        n, d = self.zr(b), self.ipoly(self.zext(c, 64))
        return self._divisible(n, d)

    def x___gmpz_even_p(self, b):
        return self._divisible(self.zr(b), Poly.const(2))

    def _divisible(self, n, d):
        if d.is_zero() or n.is_zero():
            c = self.cmpres((n,))
            return int(c == 0) if c.__class__ is int else int(self.br(c == 0))
        if n.is_const() and d.is_const():
            return int(n.const_value() % d.const_value() == 0)
        if self.divfacts.get((n, d)) is not None or n.divexact(d) is not None:
            return 1
        s = self.psign_split(d)
        if s == 0:
            return int(self.psign_split(n) == 0)
        if s < 0:
            d = d.neg()
        q = self.int_round(n, d, 3)
        return int(self.br(SB("==", (self.norm(n.sub(q.mul(d))),))))

    def x___gmpz_lcm_ui(self, a, b, c):
        self.zw(a, self.lcm_of(self.zr(b), self.ipoly(self.zext(c, 64))))

    def x___gmpz_sgn(self, a):
        return self.x_v_mpz_sgn(a)

    def x___gmpz_fits_ulong_p(self, a):
        return self._fits(a, 0, (1 << 64) - 1)

    def x___gmpz_fits_sint_p(self, a):
        return self._fits(a, -(1 << 31), (1 << 31) - 1)

    def x___gmpz_fits_uint_p(self, a):
        return self._fits(a, 0, (1 << 32) - 1)

    def _fits(self, a, lo, hi):
        p = self.zr(a)
        if p.is_const():
            return int(lo <= p.const_value() <= hi)
        return int(self.br(SB("<=", (p.sub(Poly.const(hi)),))) and self.br(SB(">=", (p.sub(Poly.const(lo)),))))

    def x___gmpz_tstbit(self, a, n):
        p = self.zr(a)
        if p.is_const():
            return p.const_value() >> self.cint(n) & 1
        raise Unsupported("mpz_tstbit")

    def x___gmpz_realloc2(self, p, bits):
        """room for bits; the value is kept when it fits (constants only)"""
        v = self.zr(p)
        if v.is_const():
            self.zw(p, v, max(limbs(v.const_value()), (self.cint(bits) + 63) // 64))


    def x___gmpz_divisible_p(self, b, c):
        return self._divisible(self.zr(b), self.zr(c))

    def gcd_of(self, p, q):
        if p.is_const() and q.is_const():
            return Poly.const(math.gcd(p.const_value(), q.const_value()))
        if q.is_const() and abs(q.const_value()) == 1 or p.is_const() and abs(p.const_value()) == 1:
            return ONE
        for x, y in ((p, q), (q, p)):
            if x.is_zero():
                s = self.psign_split(y)
                return y.neg() if s < 0 else y
        if p == q or p == q.neg():
            return p.neg() if self.psign_split(p) < 0 else p
        key = ("gcd",) + tuple(sorted((p.key(), q.key())))
        v = self.memo.get(key)
        if v is None:
            G = self.fresh("gcd", "int", 0, None, fn=lambda ev: math.gcd(int(ev(p)), int(ev(q))))
            a = self.fresh("cof", "int", None, None, fn=lambda ev: int(ev(p)) // (ev(Poly.var(G)) or 1))
            b = self.fresh("cof", "int", None, None, fn=lambda ev: int(ev(q)) // (ev(Poly.var(G)) or 1))
            g, A, B = Poly.var(G), Poly.var(a), Poly.var(b)
            v = self.memo[key] = g
            self.zdef(lambda z, p=p, q=q: z3.And(z(p) == z(g) * z(A), z(q) == z(g) * z(B),
                                                 (z(g) == 0) == z3.And(z(p) == 0, z(q) == 0)))
            self.divfacts[p, g] = A
            self.divfacts[q, g] = B
            self.divfacts[self.norm(p), g] = A
            self.divfacts[self.norm(q), g] = B
            self.assume_def(SB("==", (g.mul(A).sub(p),)))
            self.assume_def(SB("==", (g.mul(B).sub(q),)))
            # the definitions may rewrite p and q
            self.memo[("gcd",) + tuple(sorted((self.norm(p).key(), self.norm(q).key())))] = v
        return v

    def x___gmpz_gcd(self, a, b, c):
        self.zw(a, self.gcd_of(self.zr(b), self.zr(c)))

    def x___gmpz_gcd_ui(self, a, b, c):
        g = self.gcd_of(self.zr(b), self.ipoly(self.zext(c, 64)))
        if a != 0:
            self.zw(a, g)
        return g.const_value() if g.is_const() else SI(g, 0, I64MAX)

    def lcm_of(self, p, q):
        if p.is_zero() or q.is_zero():
            return ZERO
        if p.is_const() and q.is_const():
            x, y = p.const_value(), q.const_value()
            return Poly.const(abs(x * y) // math.gcd(x, y))
        for x, y in ((p, q), (q, p)):
            if x.is_const() and abs(x.const_value()) == 1:
                if self.br(SB("<", (y,))):
                    return y.neg()
                return y
        if p == q:
            return p.neg() if self.br(SB("<", (p,))) else p
        key = ("lcm",) + tuple(sorted((p.key(), q.key())))
        v = self.memo.get(key)
        if v is None:
            def f(ev):
                x, y = int(ev(p)), int(ev(q))
                return abs(x * y) // math.gcd(x, y) if x and y else 0
            L = self.fresh("lcm", "int", 0, None, fn=f)
            l = Poly.var(L)
            a = self.fresh("cof", "int", None, None, fn=lambda ev: ev(l) // (ev(p) or 1))
            b = self.fresh("cof", "int", None, None, fn=lambda ev: ev(l) // (ev(q) or 1))
            A, B = Poly.var(a), Poly.var(b)
            v = self.memo[key] = l
            self.divfacts[l, p] = A
            self.divfacts[l, q] = B
            self.lcms.update((L, a, b))
            self.zdef(lambda z, p=p, q=q: (z(l) == 0) == z3.Or(z(p) == 0, z(q) == 0))
            self.assume_def(SB("==", (p.mul(A).sub(l),)))
            self.assume_def(SB("==", (q.mul(B).sub(l),)))
            self.divfacts[self.norm(l), p] = A
            self.divfacts[self.norm(l), q] = B
        return v

    def x___gmpz_lcm(self, a, b, c):
        self.zw(a, self.lcm_of(self.zr(b), self.zr(c)))

    def x___gmpz_pow_ui(self, a, b, n):
        p = self.zr(b)
        r = ONE
        for _ in range(self.cint(n)):
            r = r.mul(p)
        self.zw(a, r)

    def x___gmpz_ui_pow_ui(self, a, b, n):
        self.zw(a, Poly.const(self.cint(b) ** self.cint(n)))

    def x___gmpz_mul_2exp(self, a, b, n):
        self.zw(a, self.zr(b).scale(1 << self.cint(n)))

    def x___gmpz_sizeinbase(self, a, base):
        p = self.zr(a)
        base = self.cint(base)
        if p.is_const():
            v = abs(p.const_value())
            n = 1
            while v >= base:
                v //= base
                n += 1
            return n
        v = self.fresh("sizeinbase", "int", 1, 1 << 40, fn=lambda ev: self._sib(abs(int(ev(p))), base))
        return SI(Poly.var(v), 1, 1 << 40)

    def _sib(self, v, base):
        n = 1
        while v >= base:
            v //= base
            n += 1
        return n

    def x___gmpz_size(self, a):
        p = self.zr(a)
        if p.is_const():
            return limbs(p.const_value())
        raise Unsupported("mpz_size")

    def x___gmpz_fits_slong_p(self, a):
        p = self.zr(a)
        if p.is_const():
            return int(I64MIN <= p.const_value() <= I64MAX)
        return int(self.br(SB("<=", (p.sub(Poly.const(I64MAX)),))) and self.br(SB(">=", (p.sub(Poly.const(I64MIN)),))))

    def x___gmpz_get_si(self, a):
        p = self.zr(a)
        if p.is_const():
            return self._getsi(p.const_value())
        if self.x___gmpz_fits_slong_p(a):
            p = self.norm(p)
            return SI.mk(p, I64MIN, I64MAX)
        v = self.fresh("getsi", "int", I64MIN, I64MAX, fn=lambda ev: self._getsi(int(ev(p))))
        return SI(Poly.var(v), I64MIN, I64MAX)

    def _getsi(self, v):
        low = abs(v) & ((1 << 64) - 1)
        if v > 0:
            r = low & I64MAX
        else:
            r = -1 - ((low - 1) & I64MAX) if v < 0 else 0
        return r

    def x___gmpz_get_ui(self, a):
        p = self.zr(a)
        if p.is_const():
            return self.trunc(abs(p.const_value()), 64)
        raise Unsupported("get_ui")

    # doubles: GMP truncates toward zero
    def to_double(self, n, d, rnd):
        n, d = self.norm(n), self.norm(d)
        if d.is_const() and d.const_value() < 0:
            n, d = n.neg(), d.neg()
        q = n.divexact(d)
        if q is not None:
            n, d = q, ONE
        if n.is_const() and d.is_const():
            return fr_to_double(Fraction(n.const_value()) / Fraction(d.const_value()), rnd)
        if self.exact_in(n, d, 53):
            return SD(n, d)
        # sign/content-normalise n/d so equal rationals share a key
        c = math.gcd(n.content(), d.content())
        if c > 1:
            n, d = n.divexact(Poly.const(c)), d.divexact(Poly.const(c))
        key = ("dbl", rnd, n.key(), d.key())
        v = self.memo.get(key) or self.same_rounded(("dbl", rnd), n, d)
        if v is None:
            def fn(ev):
                x = fr_to_double(Fraction(ev(n)) / Fraction(ev(d)), rnd)
                return Fraction(x)
            k = self.fresh("dbl", "real", None, None, fn=fn)
            self.vprec[k] = 53
            v = self.memo[key] = Poly.var(k)
            self.memo.setdefault(("dbl", rnd), []).append((n, d, v))
            self.zdef(lambda z: z3.And(z(v) * z(n) * z(d) >= 0, z3.Implies(z(n) == 0, z(v) == 0)))
            self.relerr(v, n, d, 53, True)
        return SD(v)

    def same_rounded(self, key, n, d):
        """the rounded value of an equal rational, when one is known"""
        for a, b, v in self.memo.get(key, ()):
            if self.norm(a.mul(d).sub(n.mul(b))).is_zero():
                return v
        return None

    def relerr(self, v, n, d, prec, dbl=False):
        """v = n/d rounded to prec bits (barring overflow and underflow): relative error, exactness"""
        if not d.is_const():
            return
        dv = d.const_value()
        if dv == 1 and all(self.vars[k].sort == "int" for k in n.vars()) and self.int_poly(n):
            lim = 1 << prec
            self.zdef(lambda z: z3.Implies(z3.And(z(n) <= lim, z(n) >= -lim), z(v) == z(n)))
        if dbl and (dv >> 900 or any(self.vars[k].sort != "int" for k in n.vars())):
            lo, hi = self.interval(n)
            if dv != 1 or lo is None or hi is None or not (lo >= 1 or hi <= -1) or max(abs(lo), abs(hi)) >= 1 << 900:
                return  # may leave the range of normal numbers
        sc = 1 << (prec - 1)
        big = 1 << 1000
        self.zdef(lambda z: z3.Implies(z3.And(z(n) <= big, z(n) >= -big) if dbl else True, z3.And((z(v) * z(d) - z(n)) * sc <= z3.If(z(n) >= 0, z(n), -z(n)),
                                   (z(n) - z(v) * z(d)) * sc <= z3.If(z(n) >= 0, z(n), -z(n)))))

    def exact_in(self, n, d, prec):
        """is n/d known to be representable with prec bits?"""
        if not d.is_const():
            return False
        dv = d.const_value()
        if isinstance(dv, Fraction) or dv & (dv - 1):
            if dv != 1:
                return False
        vs = n.vars()
        if len(n.t) == 1 and len(vs) == 1 and n.degree() == 1:
            c = n.t[max(n.t)]
            cc = abs(c)
            if not isinstance(c, Fraction) and cc & (cc - 1) == 0:
                k = vs[0]
                if self.vprec.get(k, 1 << 30) <= prec:
                    return True
        # bounded integer
        if all(self.vars[k].sort == "int" for k in vs):
            lo, hi = self.interval(n)
            if lo is not None and hi is not None and max(abs(lo), abs(hi)) <= 1 << prec:
                return True
        return False

    def interval(self, p):
        lo = hi = 0
        for m, c in p.t.items():
            a, b = c, c
            k = 0
            while m:
                e = m & 0xFF
                for _ in range(e):
                    v = self.vars[k]
                    if v.lo is None or v.hi is None:
                        return None, None
                    x = (a * v.lo, a * v.hi, b * v.lo, b * v.hi)
                    a, b = min(x), max(x)
                m >>= 8
                k += 1
            lo += a
            hi += b
        return lo, hi

    def x___gmpz_get_d(self, a):
        return self.to_double(self.zr(a), ONE, 1)

    def x___gmpz_set_d(self, a, d):
        if d.__class__ is float:
            if d != d or d in (INF, -INF):
                raise Violation("fpe", "mpz_set_d of non-finite value")
            self.zw(a, Poly.const(int(d)))
            return
        self.zw(a, self.trunc_rat(d.n, d.d))

    def x___gmpz_cmp_d(self, a, d):
        p = self.zr(a)
        n, dd = self.rat(d)
        return self.cmpres((p.mul(dd).sub(n),))

    # ---------------------------------------------------------------- mpq
    def qparts(self, p):
        return p, (p[0], p[1] + 16)

    def qr(self, p):
        """(num Poly, den Poly) of the rational's value"""
        a = self.zraw(p)
        b = self.zraw((p[0], p[1] + 16))
        if a.__class__ is QPart and b.__class__ is QPart and a.q is b.q and not a.den and b.den:
            n, d = self.norm(a.q.n), self.norm(a.q.d)
        else:
            n, d = self.zr(p), self.zr((p[0], p[1] + 16))
            if d.is_const():
                if d.const_value() <= 0:
                    raise Violation("mpq-canonical", "mpq operand with non-positive denominator")
            else:
                lo, _ = self.interval(d)
                if not (lo is not None and lo > 0) and not self.known_pos(d):
                    self.require(SB(">", (d,)), "mpq-canonical", "mpq operand with non-positive denominator")
        if d.is_const() and d.const_value() < 0:
            n, d = n.neg(), d.neg()
        return n, d

    def known_pos(self, d):
        vs = d.vars()
        if len(d.t) == 1:
            c = d.t[max(d.t)]
            if c > 0 and all(self.vars[k].lo is not None and self.vars[k].lo > 0 for k in vs):
                return True
        return False

    def simplify_q(self, n, d):
        n, d = self.norm(n), self.norm(d)
        if d.is_const() and d.const_value() == 1:
            return n, d
        if n.is_zero():
            return ZERO, ONE
        if n.is_const() and d.is_const():
            f = Fraction(n.const_value(), d.const_value())
            return Poly.const(f.numerator), Poly.const(f.denominator)
        q = n.divexact(d)
        if q is not None:
            return q, ONE
        q = d.divexact(n)
        if q is not None:
            return (ONE, q)
        if self.zero:
            q = self.divfacts.get((n, d))
            if q is None and self.lcms and any(k in self.lcms for k in n.vars()):
                for order in ([d] + self.zero, self.zero + [d]):
                    qs, r = n.divrem(order, early=False)
                    if r.is_zero():
                        q = qs[0] if order[0] is d else qs[-1]
                        break
                else:
                    q = self.groebner_quotient(n, d)
            if q is not None:
                return q, ONE
        c = math.gcd(n.content(), d.content())
        if c > 1:
            n, d = n.divexact(Poly.const(c)), d.divexact(Poly.const(c))
        return n, d

    def qw(self, p, n, d):
        """store canonical(n/d)"""
        n, d = self.simplify_q(n, d)
        pd = (p[0], p[1] + 16)
        if d.is_const() and abs(d.const_value()) == 1 and self.int_poly(n):
            self.zw(p, n.scale(d.const_value()))
            self.zw(pd, ONE)
            return
        if n.is_const() and d.is_const():
            if d.const_value() < 0:
                n, d = n.neg(), d.neg()
            self.zw(p, n)
            self.zw(pd, d)
            return
        q = QV(n, d)
        self.zw(p, QPart(q, False))
        self.zw(pd, QPart(q, True))

    def canon(self, q):
        """canonical numerator and denominator polynomials of a QV"""
        if q.can is None:
            n, d = self.simplify_q(q.n, q.d)
            if d.is_const() and abs(d.const_value()) == 1 and self.int_poly(n):
                q.can = (n.scale(d.const_value()), ONE)
            elif n.is_const() and d.is_const():
                s = sgn(d.const_value())
                q.can = (n.scale(s), d.scale(s))
            else:
                key = ("canon", n.key(), d.key())
                r = self.memo.get(key)
                if r is None:
                    def fn(ev):
                        return (Fraction(ev(n)) / Fraction(ev(d))).numerator

                    def fd(ev):
                        return (Fraction(ev(n)) / Fraction(ev(d))).denominator
                    a = self.fresh("cnum", "int", None, None, fn=fn)
                    b = self.fresh("cden", "int", 1, None, fn=fd)
                    A, B = Poly.var(a), Poly.var(b)
                    r = self.memo[key] = (A, B)
                    self.assume_def(SB("==", (A.mul(d).sub(n.mul(B)),)))
                q.can = r
        return q.can

    def x___gmpq_init(self, p):
        self._chk(p, 32, "write")
        self._zinit(p)
        q = (p[0], p[1] + 16)
        d = self.galloc(8)
        self.sts((q[0], q[1]), 1, 4)
        self.sts((q[0], q[1] + 4), 1, 4)
        self.sts((q[0], q[1] + 8), d, 8)
        d[0].val = ONE

    def x___gmpq_clear(self, p):
        self.x___gmpz_clear(p)
        self.x___gmpz_clear((p[0], p[1] + 16))

    def x___gmpq_set(self, a, b):
        x = self.zraw(b)
        y = self.zraw((b[0], b[1] + 16))
        self.zw(a, x)
        self.zw((a[0], a[1] + 16), y)

    def x___gmpq_swap(self, a, b):
        self.x___gmpz_swap(a, b)
        self.x___gmpz_swap((a[0], a[1] + 16), (b[0], b[1] + 16))

    def x___gmpq_set_z(self, a, z):
        self.zw(a, self.zr(z))
        self.zw((a[0], a[1] + 16), ONE)

    def x___gmpq_set_si(self, a, n, d):
        # no canonicalisation
        self.zw(a, self.ipoly(n))
        self.zw((a[0], a[1] + 16), self.ipoly(self.zext(d, 64)))

    def x___gmpq_set_ui(self, a, n, d):
        self.zw(a, self.ipoly(self.zext(n, 64)))
        self.zw((a[0], a[1] + 16), self.ipoly(self.zext(d, 64)))

    def x___gmpq_set_num(self, a, z):
        self.zw(a, self.zr(z))

    def x___gmpq_set_den(self, a, z):
        self.zw((a[0], a[1] + 16), self.zr(z))

    def x___gmpq_get_num(self, z, a):
        self.zw(z, self.zr(a))

    def x___gmpq_get_den(self, z, a):
        self.zw(z, self.zr((a[0], a[1] + 16)))

    def x___gmpq_canonicalize(self, a):
        n, d = self.zr(a), self.zr((a[0], a[1] + 16))
        self.nonzero(d, "mpq_canonicalize: zero denominator")
        self.qw(a, n, d)

    def x___gmpq_set_d(self, a, d):
        if d.__class__ is float and (d != d or d in (INF, -INF)):
            raise Violation("fpe", "mpq_set_d of non-finite value")
        if d is UNDEF:
            UNDEF._bad()
        n, dd = self.rat(d)
        # a real-valued symbolic double has an unknown dyadic denominator
        self.qw(a, n, dd)

    def x___gmpz_set_q(self, z, q):
        n, d = self.qr(q)
        self.zw(z, self.tdiv(n, d, "mpz_set_q"))

    def x___gmpq_get_d(self, a):
        n, d = self.qr(a)
        if not (d.is_const()) and not self.known_pos(d):
            if self.psign_split(d) < 0:
                n, d = n.neg(), d.neg()
        return self.to_double(n, d, 1)

    def x___gmpq_add(self, a, b, c):
        n1, d1 = self.qr(b)
        n2, d2 = self.qr(c)
        if d1 == d2:
            self.qw(a, n1.add(n2), d1)
        else:
            q = d1.divexact(d2)
            if q is not None:
                self.qw(a, n1.add(n2.mul(q)), d1)
                return
            q = d2.divexact(d1)
            if q is not None:
                self.qw(a, n2.add(n1.mul(q)), d2)
                return
            self.qw(a, n1.mul(d2).add(n2.mul(d1)), d1.mul(d2))

    def x___gmpq_sub(self, a, b, c):
        n1, d1 = self.qr(b)
        n2, d2 = self.qr(c)
        if d1 == d2:
            self.qw(a, n1.sub(n2), d1)
        else:
            self.qw(a, n1.mul(d2).sub(n2.mul(d1)), d1.mul(d2))

    def x___gmpq_mul(self, a, b, c):
        n1, d1 = self.qr(b)
        n2, d2 = self.qr(c)
        # cross cancellation keeps the polynomials small
        n1, d2 = self.simplify_q(n1, d2)
        n2, d1 = self.simplify_q(n2, d1)
        self.qw(a, n1.mul(n2), d1.mul(d2))

    def x___gmpq_div(self, a, b, c):
        n1, d1 = self.qr(b)
        n2, d2 = self.qr(c)
        self.nonzero(n2, "mpq_div: division by zero")
        n1, n2 = self.simplify_q(n1, n2)
        d2, d1 = self.simplify_q(d2, d1)
        self.qw(a, n1.mul(d2), d1.mul(n2))

    def x___gmpq_inv(self, a, b):
        n, d = self.qr(b)
        self.nonzero(n, "mpq_inv: division by zero")
        self.qw(a, d, n)

    def x___gmpq_neg(self, a, b):
        n, d = self.qr(b)
        self.qw(a, n.neg(), d)

    def x___gmpq_abs(self, a, b):
        x = self.zraw(b)
        y = self.zraw((b[0], b[1] + 16))
        if x.__class__ is QPart:
            n, d = self.qr(b)
            sn = self.psign_split(n)
            sd = self.psign_split(d)
            self.qw(a, n.scale(-1) if sn < 0 else n, d.scale(-1) if sd < 0 else d)
            return
        # plain parts: |num|, den unchanged (as GMP does)
        p = self.zr(b)
        neg = self.psign_split(p) < 0
        self.zw(a, p.neg() if neg else p)
        self.zw((a[0], a[1] + 16), y)

    def x___gmpq_cmp(self, a, b):
        n1, d1 = self.qr(a)
        n2, d2 = self.qr(b)
        l, r = n1.mul(d2), n2.mul(d1)
        fs = [l.sub(r)]
        for d in (d1, d2):
            if not d.is_const() and not self.known_pos(d):
                fs.append(d)
        return self.cmpres(tuple(fs), (l, r) if len(fs) == 1 else None)

    def x___gmpq_cmp_ui(self, a, n, d):
        n1, d1 = self.qr(a)
        n2, d2 = self.ipoly(self.zext(n, 64)), self.ipoly(self.zext(d, 64))
        l, r = n1.mul(d2), n2.mul(d1)
        fs = [l.sub(r)]
        if not d1.is_const() and not self.known_pos(d1):
            fs.append(d1)
        return self.cmpres(tuple(fs), (l, r) if len(fs) == 1 else None)

    def x___gmpq_cmp_si(self, a, n, d):
        n1, d1 = self.qr(a)
        n2, d2 = self.ipoly(n), self.ipoly(self.zext(d, 64))
        fs = [n1.mul(d2).sub(n2.mul(d1))]
        if not d1.is_const() and not self.known_pos(d1):
            fs.append(d1)
        return self.cmpres(tuple(fs))

    def x___gmpq_cmp_z(self, a, z):
        n1, d1 = self.qr(a)
        fs = [n1.sub(self.zr(z).mul(d1))]
        if not d1.is_const() and not self.known_pos(d1):
            fs.append(d1)
        return self.cmpres(tuple(fs))

    def x___gmpq_equal(self, a, b):
        n1, d1 = self.qr(a)
        n2, d2 = self.qr(b)
        l, r = n1.mul(d2), n2.mul(d1)
        c = self.cmpres((l.sub(r),), (l, r))
        if c.__class__ is int:
            return int(c == 0)
        return int(self.br(c == 0))

    def x___gmpq_mul_2exp(self, a, b, e):
        n, d = self.qr(b)
        self.qw(a, n.scale(1 << self.cint(e)), d)

    def x___gmpq_div_2exp(self, a, b, e):
        n, d = self.qr(b)
        self.qw(a, n, d.scale(1 << self.cint(e)))

    def x___gmpq_set_f(self, a, b):
        raise Unsupported("mpf")

    def x___gmpq_inits(self, *ps):
        for p in ps:
            if p == 0:
                return
            self.x___gmpq_init(p)

    def x___gmpq_clears(self, *ps):
        for p in ps:
            if p == 0:
                return
            self.x___gmpq_clear(p)

    # ---------------------------------------------------------------- mpfr
    def x_mpfr_init2(self, p, prec):
        prec = self.cint(prec)
        o, off = self._chk(p, 32, "write")
        d = self.galloc(8 * ((prec + 63) // 64) + 8)
        self.sts((o, off), prec, 8)
        self.sts((o, off + 8), 1, 4)
        self.sts((o, off + 16), I64MIN + 2, 8)
        self.sts((o, off + 24), d, 8)
        d[0].val = MF("nan")

    def x_mpfr_init(self, p):
        self.x_mpfr_init2(p, 53)

    def fobj(self, p):
        o, off = self._chk(p, 32, "read")
        d = self.ld((o, off + 24), 8, "p")
        if d is UNDEF:
            raise Violation("uninit", "use of an uninitialised mpfr_t")
        if d == 0:
            raise Violation("null-deref", "use of an mpfr_t without significand")
        if not d[0].live:
            raise Violation("use-after-free", "use of a cleared mpfr_t")
        return o, off, d[0]

    def x_mpfr_clear(self, p):
        o, off = self._chk(p, 32, "read")
        d = self.ld((o, off + 24), 8, "p")
        prec = self.ld((o, off), 8)
        if d is UNDEF:
            raise Violation("uninit", "clear of an uninitialised mpfr_t")
        if d == 0:
            return          # the real library accepts a NULL significand
        self.gfree(d, 8 * ((prec + 63) // 64) + 8)
        self.sts((o, off + 24), 0, 8)

    def fr(self, p):
        o, off, d = self.fobj(p)
        if d.val is None:
            raise Violation("uninit", "read of an mpfr_t without value")
        return d.val

    def fprec(self, p):
        return self.cint(self.ld(p, 8))

    x_mpfr_get_prec = fprec

    def mround(self, n, d, prec, rnd):
        """value n/d rounded to prec bits -> (n,d)"""
        n, d = self.norm(n), self.norm(d)
        if d.is_const() and d.const_value() < 0:
            n, d = n.neg(), d.neg()
        q = n.divexact(d)
        if q is not None:
            n, d = q, ONE
        if n.is_const() and d.is_const():
            f = round_prec(Fraction(n.const_value()) / Fraction(d.const_value()), prec, rnd)
            return Poly.const(f.numerator), Poly.const(f.denominator)
        if self.exact_in(n, d, prec):
            return n, d
        c = math.gcd(n.content(), d.content())
        if c > 1:
            n, d = n.divexact(Poly.const(c)), d.divexact(Poly.const(c))
        key = ("mpfr", prec, rnd, n.key(), d.key())
        v = self.memo.get(key) or self.same_rounded(("mpfr", prec, rnd), n, d)
        if v is None:
            k = self.fresh("mpfr", "real", None, None,
                           fn=lambda ev: round_prec(Fraction(ev(n)) / Fraction(ev(d)), prec, rnd))
            self.vprec[k] = prec
            v = self.memo[key] = Poly.var(k)
            self.memo.setdefault(("mpfr", prec, rnd), []).append((n, d, v))
            self.zdef(lambda z: z3.And(z(v) * z(n) * z(d) >= 0, (z(n) == 0) == (z(v) == 0)))
            self.relerr(v, n, d, prec)
        return v, ONE

    def fw(self, p, val, rnd=0, rounded=False):
        o, off, d = self.fobj(p)
        if val.kind == "num" and not rounded:
            prec = self.cint(self.ld((o, off), 8))
            n, dd = self.mround(val.n, val.d, prec, rnd)
            val = MF("num", n, dd)
        d.val = val
        return 0

    def dval(self, x):
        if x.__class__ is float:
            if x != x:
                return MF("nan")
            if x in (INF, -INF):
                return MF("inf", sgn(x))
        if x is UNDEF:
            UNDEF._bad()
        n, d = self.rat(x)
        return MF("num", n, d)

    def x_mpfr_set_d(self, p, x, rnd):
        return self.fw(p, self.dval(x), self.cint(rnd))

    def x_mpfr_set(self, p, q, rnd):
        return self.fw(p, self.fr(q), self.cint(rnd))

    def x_mpfr_set4(self, p, q, rnd, s):
        return self.fw(p, self.fr(q), self.cint(rnd))

    def x_mpfr_set_si(self, p, y, rnd):
        return self.fw(p, MF("num", self.ipoly(y), ONE), self.cint(rnd))

    def x_mpfr_set_si_2exp(self, p, y, e, rnd):
        e = self.cint(e)
        return self.fw(p, MF("num", self.ipoly(y).scale(1 << max(e, 0)), Poly.const(1 << max(-e, 0))), self.cint(rnd))

    def x_mpfr_set_ui(self, p, y, rnd):
        return self.fw(p, MF("num", self.ipoly(self.zext(y, 64)), ONE), self.cint(rnd))

    def x_mpfr_set_ui_2exp(self, p, y, e, rnd):
        return self.x_mpfr_set_si_2exp(p, self.zext(y, 64), e, rnd)

    def x_mpfr_set_z(self, p, z, rnd):
        return self.fw(p, MF("num", self.zr(z), ONE), self.cint(rnd))

    def x_mpfr_set_q(self, p, q, rnd):
        n, d = self.qr(q)
        if not d.is_const() and not self.known_pos(d):
            if self.psign_split(d) < 0:
                n, d = n.neg(), d.neg()
        return self.fw(p, MF("num", n, d), self.cint(rnd))

    def x_mpfr_set_nan(self, p):
        self.fw(p, MF("nan"))

    def x_mpfr_set_inf(self, p, s):
        self.fw(p, MF("inf", 1 if self.cint(s) >= 0 else -1))

    def x_mpfr_set_zero(self, p, s):
        self.fw(p, MF("num", ZERO, ONE))

    def fnum(self, v, what):
        if v.kind != "num":
            raise Unsupported(what + " of nan/inf")
        return v.n, v.d

    def x_mpfr_mul(self, p, a, b, rnd):
        n1, d1 = self.fnum(self.fr(a), "mpfr_mul")
        n2, d2 = self.fnum(self.fr(b), "mpfr_mul")
        return self.fw(p, MF("num", n1.mul(n2), d1.mul(d2)), self.cint(rnd))

    def x_mpfr_mul_d(self, p, a, x, rnd):
        va, vx = self.fr(a), self.dval(x)
        if va.kind != "num" or vx.kind != "num":
            if va.kind == "nan" or vx.kind == "nan":
                return self.fw(p, MF("nan"))
            raise Unsupported("mpfr_mul_d with inf")
        return self.fw(p, MF("num", va.n.mul(vx.n), va.d.mul(vx.d)), self.cint(rnd))

    def x_mpfr_div_d(self, p, a, x, rnd):
        va, vx = self.fr(a), self.dval(x)
        n1, d1 = self.fnum(va, "mpfr_div_d")
        n2, d2 = self.fnum(vx, "mpfr_div_d")
        s = self.psign_split(n2)
        if s == 0:
            z = self.psign_split(n1)
            return self.fw(p, MF("nan") if z == 0 else MF("inf", z))
        return self.fw(p, MF("num", n1.mul(d2).scale(s), d1.mul(n2).scale(s)), self.cint(rnd))

    def x_mpfr_div(self, p, a, b, rnd):
        n1, d1 = self.fnum(self.fr(a), "mpfr_div")
        n2, d2 = self.fnum(self.fr(b), "mpfr_div")
        s = self.psign_split(n2)
        if s == 0:
            raise Unsupported("mpfr_div by zero")
        return self.fw(p, MF("num", n1.mul(d2).scale(s), d1.mul(n2).scale(s)), self.cint(rnd))

    def x_mpfr_ui_pow_ui(self, p, a, b, rnd):
        a, b = self.zext(a, 64), self.zext(b, 64)
        return self.fw(p, MF("num", Poly.const(self.cint(a) ** self.cint(b)), ONE), self.cint(rnd))

    # num op num; nan and infinities only where the result is unambiguous
    def _fbin(self, p, op, va, vb, rnd):
        rnd = self.cint(rnd)
        if va.kind == "nan" or vb.kind == "nan":
            return self.fw(p, MF("nan"))
        if va.kind != "num" or vb.kind != "num":
            if op in "+-" and (va.kind == "num" or vb.kind == "num"):
                return self.fw(p, MF("inf", va.n if va.kind == "inf" else vb.n if op == "+" else -vb.n))
            if op == "/" and va.kind == "num":
                return self.fw(p, MF("num", ZERO, ONE))
            raise Unsupported("mpfr operation on infinities")
        n1, d1, n2, d2 = va.n, va.d, vb.n, vb.d
        if op in "+-":
            if op == "-":
                n2 = n2.neg()
            if d1 == d2:
                return self.fw(p, MF("num", n1.add(n2), d1), rnd)
            return self.fw(p, MF("num", n1.mul(d2).add(n2.mul(d1)), d1.mul(d2)), rnd)
        if op == "*":
            return self.fw(p, MF("num", n1.mul(n2), d1.mul(d2)), rnd)
        s = self.psign_split(n2)
        if s == 0:
            z = self.psign_split(n1)
            return self.fw(p, MF("nan") if z == 0 else MF("inf", z))
        return self.fw(p, MF("num", n1.mul(d2).scale(s), d1.mul(n2).scale(s)), rnd)

    def _fz(self, z):
        return MF("num", self.zr(z), ONE)

    def _fq(self, q):
        n, d = self.qr(q)
        if not d.is_const() and not self.known_pos(d) and self.psign_split(d) < 0:
            n, d = n.neg(), d.neg()
        return MF("num", n, d)

    def _fsi(self, y):
        return MF("num", self.ipoly(y), ONE)

    def _fui(self, y):
        return MF("num", self.ipoly(self.zext(y, 64)), ONE)

    def x_mpfr_add(self, p, a, b, r): return self._fbin(p, "+", self.fr(a), self.fr(b), r)
    def x_mpfr_sub(self, p, a, b, r): return self._fbin(p, "-", self.fr(a), self.fr(b), r)
    def x_mpfr_add_d(self, p, a, x, r): return self._fbin(p, "+", self.fr(a), self.dval(x), r)
    def x_mpfr_sub_d(self, p, a, x, r): return self._fbin(p, "-", self.fr(a), self.dval(x), r)
    def x_mpfr_add_z(self, p, a, z, r): return self._fbin(p, "+", self.fr(a), self._fz(z), r)
    def x_mpfr_sub_z(self, p, a, z, r): return self._fbin(p, "-", self.fr(a), self._fz(z), r)
    def x_mpfr_mul_z(self, p, a, z, r): return self._fbin(p, "*", self.fr(a), self._fz(z), r)
    def x_mpfr_div_z(self, p, a, z, r): return self._fbin(p, "/", self.fr(a), self._fz(z), r)
    def x_mpfr_add_q(self, p, a, q, r): return self._fbin(p, "+", self.fr(a), self._fq(q), r)
    def x_mpfr_sub_q(self, p, a, q, r): return self._fbin(p, "-", self.fr(a), self._fq(q), r)
    def x_mpfr_mul_q(self, p, a, q, r): return self._fbin(p, "*", self.fr(a), self._fq(q), r)
    def x_mpfr_div_q(self, p, a, q, r): return self._fbin(p, "/", self.fr(a), self._fq(q), r)
    def x_mpfr_add_si(self, p, a, y, r): return self._fbin(p, "+", self.fr(a), self._fsi(y), r)
    def x_mpfr_sub_si(self, p, a, y, r): return self._fbin(p, "-", self.fr(a), self._fsi(y), r)
    def x_mpfr_mul_si(self, p, a, y, r): return self._fbin(p, "*", self.fr(a), self._fsi(y), r)
    def x_mpfr_div_si(self, p, a, y, r): return self._fbin(p, "/", self.fr(a), self._fsi(y), r)
    def x_mpfr_add_ui(self, p, a, y, r): return self._fbin(p, "+", self.fr(a), self._fui(y), r)
    def x_mpfr_sub_ui(self, p, a, y, r): return self._fbin(p, "-", self.fr(a), self._fui(y), r)
    def x_mpfr_mul_ui(self, p, a, y, r): return self._fbin(p, "*", self.fr(a), self._fui(y), r)
    def x_mpfr_div_ui(self, p, a, y, r): return self._fbin(p, "/", self.fr(a), self._fui(y), r)
    def x_mpfr_d_div(self, p, x, a, r): return self._fbin(p, "/", self.dval(x), self.fr(a), r)
    def x_mpfr_ui_div(self, p, y, a, r): return self._fbin(p, "/", self._fui(y), self.fr(a), r)
    def x_mpfr_si_div(self, p, y, a, r): return self._fbin(p, "/", self._fsi(y), self.fr(a), r)
    def x_mpfr_ui_sub(self, p, y, a, r): return self._fbin(p, "-", self._fui(y), self.fr(a), r)
    def x_mpfr_sqr(self, p, a, r): return self._fbin(p, "*", self.fr(a), self.fr(a), r)

    def x_mpfr_mul_2si(self, p, a, e, rnd):
        v, e = self.fr(a), self.cint(e)
        if v.kind == "num":
            v = MF("num", v.n.scale(1 << max(e, 0)), v.d.scale(1 << max(-e, 0)))
        return self.fw(p, v, self.cint(rnd))

    x_mpfr_mul_2ui = x_mpfr_mul_2exp = x_mpfr_mul_2si

    def x_mpfr_div_2si(self, p, a, e, rnd):
        return self.x_mpfr_mul_2si(p, a, -self.cint(e), rnd)

    x_mpfr_div_2ui = x_mpfr_div_2exp = x_mpfr_div_2si

    def x_mpfr_abs(self, p, a, rnd):
        v = self.fr(a)
        if v.kind == "num":
            s = self.psign_split(v.n) * (1 if v.d.is_const() and v.d.const_value() > 0 else self.psign_split(v.d))
            v = MF("num", v.n.neg(), v.d) if s < 0 else v
        elif v.kind == "inf":
            v = MF("inf", 1)
        return self.fw(p, v, self.cint(rnd))

    def x_mpfr_swap(self, a, b):
        for k in (0, 8, 16, 24):
            s = 4 if k == 8 else 8
            x, y = self.ld((a[0], a[1] + k), s), self.ld((b[0], b[1] + k), s)
            self.sts((a[0], a[1] + k), y, s)
            self.sts((b[0], b[1] + k), x, s)

    def x_mpfr_prec_round(self, p, prec, rnd):
        v = self.fr(p)
        self.x_mpfr_set_prec(p, prec)
        return self.fw(p, v, self.cint(rnd))

    def x_mpfr_set_prec(self, p, prec):
        prec = self.cint(prec)
        o, off, d = self.fobj(p)
        old = 8 * ((self.cint(self.ld((o, off), 8)) + 63) // 64) + 8
        new = 8 * ((prec + 63) // 64) + 8
        if new > old:
            q = self.galloc(new)
            self.gfree(self.ld((o, off + 24), 8, "p"), old)
            self.sts((o, off + 24), q, 8)
            d = q[0]
        self.sts((o, off), prec, 8)
        d.val = MF("nan")

    def x_mpfr_log2(self, p, a, rnd):
        raise Unsupported("mpfr_log2")

    def x_mpfr_neg(self, p, a, rnd):
        v = self.fr(a)
        if v.kind == "num":
            v = MF("num", v.n.neg(), v.d)
        elif v.kind == "inf":
            v = MF("inf", -v.n)
        return self.fw(p, v, self.cint(rnd))

    def int_round(self, n, d, rnd):
        """Poly of the integer nearest n/d under rnd"""
        n, d = self.norm(n), self.norm(d)
        if n.is_const() and d.is_const():
            return Poly.const(round_int(Fraction(n.const_value()) / Fraction(d.const_value()), rnd))
        q = n.divexact(d)
        if q is not None and self.int_poly(q):
            return q
        if rnd == 1:
            return self.trunc_rat(n, d)
        key = ("iround", rnd, n.key(), d.key())
        v = self.memo.get(key)
        if v is None:
            k = self.fresh("iround", "int", None, None,
                           fn=lambda ev: round_int(Fraction(ev(n)) / Fraction(ev(d)), rnd))
            v = self.memo[key] = Poly.var(k)
            R = v
            if rnd in (0, 5):
                self.assume_def(SB("<=", (R.mul(d).sub(n).scale(2).sub(d),)))
                self.assume_def(SB(">=", (R.mul(d).sub(n).scale(2).add(d),)))
            else:
                self.assume_def(SB("<", (R.mul(d).sub(n).sub(d),)))
                self.assume_def(SB(">", (R.mul(d).sub(n).add(d),)))
                if rnd == 2:
                    self.assume_def(SB(">=", (R.mul(d).sub(n),)))
                if rnd == 3:
                    self.assume_def(SB("<=", (R.mul(d).sub(n),)))
        return v

    def x_mpfr_get_z(self, z, a, rnd):
        v = self.fr(a)
        if v.kind != "num":
            self.zw(z, ZERO)
            return 0
        self.zw(z, self.int_round(v.n, v.d, self.cint(rnd)))
        return 0

    def x_mpfr_get_q(self, q, a):
        v = self.fr(a)
        if v.kind != "num":
            self.qw(q, ZERO, ONE)
            return
        self.qw(q, v.n, v.d)

    def x_mpfr_get_d(self, a, rnd):
        v = self.fr(a)
        if v.kind == "nan":
            return NAN
        if v.kind == "inf":
            return INF * v.n
        return self.to_double(v.n, v.d, self.cint(rnd))

    def x_mpfr_get_si(self, a, rnd):
        v = self.fr(a)
        if v.kind == "nan":
            return 0
        if v.kind == "inf":
            return I64MAX if v.n > 0 else I64MIN
        z = self.int_round(v.n, v.d, self.cint(rnd))
        if z.is_const():
            return min(max(z.const_value(), I64MIN), I64MAX)
        if self.br(SB(">", (z.sub(Poly.const(I64MAX)),))):
            return I64MAX
        if self.br(SB("<", (z.sub(Poly.const(I64MIN)),))):
            return I64MIN
        return SI.mk(self.norm(z), I64MIN, I64MAX)

    def x_mpfr_sgn(self, a):
        v = self.fr(a)
        if v.kind == "nan":
            return 0
        if v.kind == "inf":
            return v.n
        return self.cmpres((v.n, v.d) if not v.d.is_const() else (v.n,))

    def x_mpfr_nan_p(self, a):
        return int(self.fr(a).kind == "nan")

    def x_mpfr_inf_p(self, a):
        return int(self.fr(a).kind == "inf")

    def x_mpfr_number_p(self, a):
        return int(self.fr(a).kind == "num")

    def x_mpfr_zero_p(self, a):
        v = self.fr(a)
        if v.kind != "num":
            return 0
        c = self.cmpres((v.n,))
        return int(c == 0) if c.__class__ is int else int(self.br(c == 0))

    def x_mpfr_cmp3(self, a, b, s):
        va, vb = self.fr(a), self.fr(b)
        n1, d1 = self.fnum(va, "mpfr_cmp")
        n2, d2 = self.fnum(vb, "mpfr_cmp")
        l, r = n1.mul(d2), n2.mul(d1)
        return self.cmpres((l.sub(r),), (l, r))

    def x_mpfr_cmp(self, a, b):
        return self.x_mpfr_cmp3(a, b, 1)

    def x_mpfr_equal_p(self, a, b):
        va, vb = self.fr(a), self.fr(b)
        if va.kind != "num" or vb.kind != "num":
            return int(va.kind == vb.kind == "inf" and va.n == vb.n)
        c = self.x_mpfr_cmp3(a, b, 1)
        return int(c == 0) if c.__class__ is int else int(self.br(c == 0))

    def x_mpfr_cmp_q(self, a, q):
        n1, d1 = self.fnum(self.fr(a), "mpfr_cmp_q")
        n2, d2 = self.qr(q)
        fs = [n1.mul(d2).sub(n2.mul(d1))]
        if not d2.is_const() and not self.known_pos(d2):
            fs.append(d2)
        return self.cmpres(tuple(fs))

    def _fcmp(self, va, vb):
        if va.kind == "nan" or vb.kind == "nan":
            return 0
        if va.kind == "inf" or vb.kind == "inf":
            x = va.n if va.kind == "inf" else 0
            y = vb.n if vb.kind == "inf" else 0
            return sgn(x - y)
        l, r = va.n.mul(vb.d), vb.n.mul(va.d)
        return self.cmpres((l.sub(r),), (l, r))

    def x_mpfr_cmp_d(self, a, x):
        return self._fcmp(self.fr(a), self.dval(x))

    def x_mpfr_cmp_z(self, a, z):
        return self._fcmp(self.fr(a), self._fz(z))

    def x_mpfr_cmp_si(self, a, y):
        return self._fcmp(self.fr(a), self._fsi(y))

    def x_mpfr_cmp_ui(self, a, y):
        return self._fcmp(self.fr(a), self._fui(y))

    def x_mpfr_cmp_si_2exp(self, a, y, e):
        e = self.cint(e)
        return self._fcmp(self.fr(a), MF("num", self.ipoly(y).scale(1 << max(e, 0)), Poly.const(1 << max(-e, 0))))

    def x_mpfr_cmp_ui_2exp(self, a, y, e):
        return self.x_mpfr_cmp_si_2exp(a, self.zext(y, 64), e)

    def x_mpfr_integer_p(self, a):
        v = self.fr(a)
        if v.kind != "num":
            return 0
        return self._divisible(v.n, v.d)

    def x_mpfr_signbit(self, a):
        c = self.x_mpfr_sgn(a)
        c = c < 0
        return int(self.br(c)) if c.__class__ is SB else int(c)

    def x_mpfr_get_ui(self, a, rnd):
        z = self.int_round(*self.fnum(self.fr(a), "mpfr_get_ui"), self.cint(rnd))
        if z.is_const():
            return self.trunc(min(max(z.const_value(), 0), (1 << 64) - 1), 64)
        if self.br(SB("<", (z,))):
            return 0
        if self.br(SB(">", (z.sub(Poly.const(I64MAX)),))):
            raise Unsupported("mpfr_get_ui of a huge value")
        return SI.mk(self.norm(z), 0, I64MAX)

    def x_mpfr_fits_slong_p(self, a, rnd):
        v = self.fr(a)
        if v.kind != "num":
            return 0
        z = self.int_round(v.n, v.d, self.cint(rnd))
        if z.is_const():
            return int(I64MIN <= z.const_value() <= I64MAX)
        return int(self.br(SB("<=", (z.sub(Poly.const(I64MAX)),))) and self.br(SB(">=", (z.sub(Poly.const(I64MIN)),))))

    def x_mpfr_set_erangeflag(self):
        pass

    x_mpfr_clear_flags = x_mpfr_clear_erangeflag = x_mpfr_clear_underflow = x_mpfr_clear_overflow = x_mpfr_set_erangeflag

    def x_mpfr_set_default_prec(self, p):
        pass

    def x_mpfr_get_default_prec(self):
        return 53

    def x_mpfr_free_cache(self):
        pass

    def x___gmpfr_vasprintf(self, strp, fmt, va):
        d = self.galloc(2)
        self.sts((d[0], 0), 0, 1)
        self.sts(strp, d, 8)
        d[0].text = self.render(self.cstr(fmt), va[0].text or ())
        return 0

    x_mpfr_vasprintf = x___gmpfr_vasprintf

    def x_mpfr_free_str(self, p):
        if p == 0:
            raise Violation("null-deref", "mpfr_free_str(NULL)")
        self.gfree(p, 2)

    # ---------------------------------------------------------------- v_*
    def x_v_int(self, name, lo, hi):
        nm = self.cstr(name)
        lo, hi = self.cint(lo), self.cint(hi)
        if lo == hi:
            self.inputs.append((nm, "c", lo))
            return lo
        v = self.fresh(nm, "int", lo, hi)
        p = Poly.var(v)
        self.inputs.append((nm, "i", p))
        return SI(p, lo, hi)

    def x_v_fork(self, x):
        """case split: the caller gets a concrete value"""
        return self.concretize(x)

    def x_v_choose(self, name, n):
        nm = self.cstr(name)
        if nm in self.fixed:
            d = self.fixed[nm]
        else:
            d = self.choose(self.cint(n), nm)
        self.inputs.append((nm, "c", d))
        return d

    def x_v_double(self, name, special):
        """any double; special: include nan/inf"""
        nm = self.cstr(name)
        k = self.choose(4, nm + ".class") if self.cint(special) else 0
        if k:
            v = (NAN, INF, -INF)[k - 1]
            self.inputs.append((nm, "d", v))
            return v
        mx = Fraction(1.7976931348623157e308)
        v = self.fresh(nm, "real", -mx, mx)
        self.vprec[v] = 53
        p = Poly.var(v)
        self.inputs.append((nm, "d", p))
        return SD(p)

    def x_v_mpz(self, z, name):
        nm = self.cstr(name)
        v = self.fresh(nm, "int", None, None)
        p = Poly.var(v)
        self.inputs.append((nm, "i", p))
        self.zw(z, p)

    def x_v_mpq(self, q, name):
        """canonical symbolic rational (coprime, den > 0)"""
        nm = self.cstr(name)
        a = self.fresh(nm + ".n", "int", None, None)
        b = self.fresh(nm + ".d", "int", 1, None)
        A, B = Poly.var(a), Poly.var(b)
        self.filters.append(((a, b), lambda xs: math.gcd(int(xs[0]), int(xs[1])) == 1))
        for r in self.alive_idx():
            if math.gcd(int(self.vars[a].arr[r]), int(self.vars[b].arr[r])) != 1:
                # repair the sample instead of dropping it
                f = Fraction(int(self.vars[a].arr[r]), int(self.vars[b].arr[r]))
                self.vars[a].arr[r], self.vars[b].arr[r] = f.numerator, f.denominator
        self.inputs.append((nm + ".n", "i", A))
        self.inputs.append((nm + ".d", "i", B))
        self.zw(q, A)
        self.zw((q[0], q[1] + 16), B)

    def x_v_mpfr(self, x, name):
        """finite mpfr value that is exactly a double times 1"""
        nm = self.cstr(name)
        mx = Fraction(1.7976931348623157e308)
        v = self.fresh(nm, "real", -mx, mx)
        self.vprec[v] = 53
        p = Poly.var(v)
        self.inputs.append((nm, "d", p))
        self.fw(x, MF("num", p, ONE), 0)

    def x_v_assume(self, c):
        if c.__class__ is int:
            c = bool(c & 1)
        self.assume(c)

    def x_v_check_(self, c, msg):
        if self.pos < len(self.prefix):
            # examined on the path this prefix branched from
            if c.__class__ is SB:
                c = self.simp(c)
                if c.__class__ is SB:
                    self.take(c, None)
                    return
            if not c:
                raise Violation("property", self.cstr(msg))
            return
        if c.__class__ is int:
            c = bool(c & 1)
        self.check(c, self.cstr(msg))

    def x_v_fail(self, msg):
        raise Violation("property", self.cstr(msg))

    def x_v_reach(self, name):
        self.reached.add(self.cstr(name))

    def x_v_outstanding(self):
        return len(self.heap)

    def x_v_fault_on(self, mode):
        self.fault = {1: "oneshot", 2: "persistent"}[self.cint(mode)]
        self.nalloc = 0
        self.fault_at = None

    def x_v_fault_off(self):
        self.fault = None

    def x_v_fault_fired(self):
        return int(getattr(self, "fault_at", None) is not None)

    def x_v_fuel(self, n):
        self.fuel += self.cint(n)

    def x_v_obs_int(self, name, v):
        self.obs.append((self.cstr(name), "i", v))

    def x_v_obs_mpz(self, name, z):
        self.obs.append((self.cstr(name), "z", self.zr(z)))

    def x_v_obs_mpq(self, name, q):
        n, d = self.qr(q)
        self.obs.append((self.cstr(name), "q", (n, d)))

    def x_v_obs_d(self, name, d):
        self.obs.append((self.cstr(name), "d", d))

    def x_v_limit(self, n):
        self.ALLOC_LIMIT = self.cint(n)

    def x_v_grow(self, n):
        self.grow = bool(self.cint(n))

    def x_v_shadow(self, p, n):
        """snapshot of memory bytes [p, p+n) as a token"""
        o, off = self._chk(p, self.cint(n), "read")
        n = self.cint(n)
        self.snaps.append((o, off, n, {k: c for k, c in o.cells.items() if off <= k < off + n}, o.zero))
        return len(self.snaps) - 1

    def x_v_same(self, t):
        o, off, n, cells, zero = self.snaps[self.cint(t)]
        now = {k: c for k, c in o.cells.items() if off <= k < off + n}
        if zero or o.zero:
            for k in set(cells) | set(now):
                if k not in cells:
                    cells[k] = (now[k][0], 0)
                if k not in now:
                    now[k] = (cells[k][0], 0)
        if set(cells) != set(now):
            return 0
        for k in cells:
            a, b = cells[k], now[k]
            if a[0] != b[0]:
                return 0
            if a[1] is b[1]:
                continue
            x, y = a[1], b[1]
            if x is UNDEF or y is UNDEF:
                return 0
            if x.__class__ is SG or y.__class__ is SG:
                continue
            if x.__class__ is float and y.__class__ is float and x != x and y != y:
                continue
            c = x == y
            if c.__class__ is SB:
                c = self.br(c)
            if not c:
                return 0
        return 1

    def new_path_state(self):
        self.found = []
        self.notes_undecided = []
        self.snaps = []
