"""Sparse multivariate polynomials with integer (or Fraction) coefficients.

A monomial is a packed Python int: 8 bits per variable, variable k occupying
bits 8k..8k+7 (top bit of each field is a guard, so exponents are < 128).
Monomial multiplication is integer addition; lexicographic order is integer
order.
"""
from fractions import Fraction

GUARD = 0


def _guard(nv):
    g = 0
    for k in range(nv):
        g |= 0x80 << (8 * k)
    return g


_GUARDS = {}


def guard_for(m):
    n = (m.bit_length() + 7) // 8 + 1
    g = _GUARDS.get(n)
    if g is None:
        g = _GUARDS[n] = _guard(n)
    return g


def mono_div(a, b):
    """a / b as monomials, or None if b does not divide a."""
    if b > a:
        return None
    g = guard_for(a)
    d = (a | g) - b
    if d & g == g:
        return d ^ g
    return None


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    # -- construction ------------------------------------------------------
    @staticmethod
    def const(c):
        return Poly({0: c} if c else {})

    @staticmethod
    def var(k):
        return Poly({1 << (8 * k): 1})

    # -- queries -----------------------------------------------------------
    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and 0 in t)

    def const_value(self):
        return self.t.get(0, 0)

    def is_zero(self):
        return not self.t

    def vars(self):
        m = 0
        for k in self.t:
            m |= k
        out = []
        k = 0
        while m:
            if m & 0xFF:
                out.append(k)
            m >>= 8
            k += 1
        return out

    def degree(self):
        d = 0
        for m in self.t:
            s = 0
            while m:
                s += m & 0xFF
                m >>= 8
            if s > d:
                d = s
        return d

    def key(self):
        return tuple(sorted(self.t.items()))

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    # -- arithmetic --------------------------------------------------------
    def add(self, o):
        a, b = self.t, o.t
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            s = r.get(m, 0) + c
            if s:
                r[m] = s
            else:
                r.pop(m, None)
        return Poly(r)

    def neg(self):
        return Poly({m: -c for m, c in self.t.items()})

    def sub(self, o):
        r = dict(self.t)
        for m, c in o.t.items():
            s = r.get(m, 0) - c
            if s:
                r[m] = s
            else:
                r.pop(m, None)
        return Poly(r)

    def scale(self, k):
        if not k:
            return Poly({})
        if k == 1:
            return self
        return Poly({m: c * k for m, c in self.t.items()})

    def mul(self, o):
        a, b = self.t, o.t
        if len(a) < len(b):
            a, b = b, a
        if not b:
            return Poly({})
        r = {}
        get = r.get
        for mb, cb in b.items():
            for ma, ca in a.items():
                m = ma + mb
                r[m] = get(m, 0) + ca * cb
        return Poly({m: c for m, c in r.items() if c})

    def content(self):
        import math
        g = 0
        for c in self.t.values():
            if isinstance(c, Fraction):
                return 1
            g = math.gcd(g, c)
            if g == 1:
                break
        return g or 1

    def divexact(self, d):
        """Exact division over the integers, or None."""
        if not d.t:
            return None
        if d.is_const():
            c = d.t[0]
            out = {}
            for m, a in self.t.items():
                if isinstance(a, Fraction) or isinstance(c, Fraction):
                    out[m] = a / Fraction(c)
                else:
                    q, r = divmod(a, c)
                    if r:
                        return None
                    out[m] = q
            return Poly(out)
        q, r = self.divrem([d])
        if r.t:
            return None
        return q[0]

    def divrem(self, divs, early=True):
        """Multi-divisor division; returns ([quotients], remainder)."""
        import heapq
        rem = dict(self.t)
        qs = [dict() for _ in divs]
        lead = []
        for d in divs:
            lm = max(d.t)
            lead.append((lm, d.t[lm], d.t))
        out = {}
        heap = [-m for m in rem]
        heapq.heapify(heap)
        while heap:
            m = -heapq.heappop(heap)
            c = rem.pop(m, 0)
            if not c:
                continue
            done = False
            for k, (lm, lc, dt) in enumerate(lead):
                qm = mono_div(m, lm)
                if qm is None:
                    continue
                if isinstance(c, Fraction) or isinstance(lc, Fraction):
                    qc = c / Fraction(lc)
                else:
                    qc, rr = divmod(c, lc)
                    if rr:
                        continue
                qd = qs[k]
                qd[qm] = qd.get(qm, 0) + qc
                for dm, dc in dt.items():
                    if dm == lm:
                        continue
                    mm = dm + qm
                    o = rem.get(mm)
                    if o is None:
                        rem[mm] = -qc * dc
                        heapq.heappush(heap, -mm)
                    else:
                        s = o - qc * dc
                        rem[mm] = s  # may be 0; skipped on pop
                done = True
                break
            if not done:
                out[m] = c
                if early and len(divs) == 1:
                    # not divisible: remainder non-zero is all we need
                    for mm, cc in rem.items():
                        if cc:
                            out[mm] = cc
                    break
        return [Poly({m: c for m, c in q.items() if c}) for q in qs], Poly(out)

    def eval(self, env):
        """env: function var-index -> value (scalar or numpy array)."""
        tot = 0
        for m, c in self.t.items():
            v = c
            k = 0
            mm = m
            while mm:
                e = mm & 0xFF
                if e:
                    x = env(k)
                    if e == 1:
                        v = v * x
                    else:
                        v = v * x ** e
                mm >>= 8
                k += 1
            tot = tot + v
        return tot

    def show(self, name=lambda k: "v%d" % k):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), reverse=True):
            s = []
            k = 0
            while m:
                e = m & 0xFF
                if e == 1:
                    s.append(name(k))
                elif e:
                    s.append("%s^%d" % (name(k), e))
                m >>= 8
                k += 1
            if not s:
                out.append(str(c))
            elif c == 1:
                out.append("*".join(s))
            else:
                out.append("%s*%s" % (c, "*".join(s)))
        return " + ".join(out)


ZERO = Poly({})
ONE = Poly({0: 1})
