"""Symbolic executor: values, memory, path conditions, solver.

Integers that depend on inputs are polynomials over mathematical-integer
variables together with an interval; every machine operation that could leave
the machine range is a solver query (overflow), so the mathematical-integer
representation never hides a wrap.
"""
import math
import sys
if hasattr(sys, "set_int_max_str_digits"):
    sys.set_int_max_str_digits(0)
import random
import re
import struct
import time
from fractions import Fraction
import numpy as np
import z3
from poly import Poly, ZERO, ONE

NAN = float("nan")
INF = float("inf")
I64MIN, I64MAX = -(1 << 63), (1 << 63) - 1


class Violation(Exception):
    def __init__(self, kind, msg=""):
        Exception.__init__(self, kind + ": " + msg)
        self.kind = kind
        self.msg = msg


class PathEnd(Exception):
    pass


class Unsupported(Exception):
    pass


class OutOfFuel(Exception):
    pass


class Deadline(Exception):
    pass


class LongJmp(Exception):
    def __init__(self, tok, val):
        self.tok = tok
        self.val = val


class Exit(Exception):
    pass


class _Undef:
    __slots__ = ()

    def _bad(self, *a):
        raise Violation("uninit", "use of uninitialised value")
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _bad
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _bad
    __bool__ = __neg__ = __getitem__ = __and__ = __rand__ = _bad
    __hash__ = object.__hash__

    def __repr__(self):
        return "UNDEF"


UNDEF = _Undef()


class Obj:
    __slots__ = ("cells", "size", "live", "kind", "zero", "val", "id", "const", "site", "text")

    def __init__(self, size, kind, zero=False):
        self.cells = {}
        self.size = size
        self.live = True
        self.kind = kind
        self.zero = zero
        self.val = None
        self.const = False
        self.id = 0
        self.site = None
        self.text = None

    def __repr__(self):
        return "<Obj %s#%s size=%s%s>" % (self.kind, self.id, self.size, "" if self.live else " dead")


class PI:
    """a pointer converted to an integer"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __sub__(self, o):
        if isinstance(o, PI) and o.p[0] is self.p[0]:
            return self.p[1] - o.p[1]
        raise Unsupported("ptrtoint arithmetic")

    def __add__(self, o):
        raise Unsupported("ptrtoint arithmetic")
    __radd__ = __mul__ = __rmul__ = __rsub__ = __add__

    def __eq__(self, o):
        if isinstance(o, PI):
            return self.p[0] is o.p[0] and self.p[1] == o.p[1]
        if o == 0:
            return False
        raise Unsupported("ptrtoint compare")

    def __ne__(self, o):
        return not self == o

    def __and__(self, o):
        raise Unsupported("ptrtoint and")
    __hash__ = object.__hash__


class SB:
    """sign(product of factors) <op> 0"""
    __slots__ = ("op", "fs", "raw")

    def __init__(self, op, fs, raw=None):
        self.op = op
        self.fs = fs
        self.raw = raw

    def __bool__(self):
        raise Unsupported("symbolic boolean used concretely")

    def __xor__(self, o):
        if o is True:
            return SB(NEG[self.op], self.fs, self.raw)
        raise Unsupported("xor")

    def show(self, ex):
        return " * ".join("(" + f.show(ex.vname) + ")" for f in self.fs) + " " + self.op + " 0"


NEG = {"<": ">=", ">=": "<", "==": "!=", "!=": "==", ">": "<=", "<=": ">"}
FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}


def sgn(x):
    return (x > 0) - (x < 0)


def holds(op, s):
    if op == "==":
        return s == 0
    if op == "!=":
        return s != 0
    if op == "<":
        return s < 0
    if op == "<=":
        return s <= 0
    if op == ">":
        return s > 0
    return s >= 0


def cmp_iv(op, lo, hi):
    """decide (x op 0) for x in [lo,hi]; None if undecided"""
    if op == "<":
        return True if hi < 0 else (False if lo >= 0 else None)
    if op == "<=":
        return True if hi <= 0 else (False if lo > 0 else None)
    if op == ">":
        return True if lo > 0 else (False if hi <= 0 else None)
    if op == ">=":
        return True if lo >= 0 else (False if hi < 0 else None)
    if op == "==":
        if lo == hi == 0:
            return True
        return False if (lo > 0 or hi < 0) else None
    if lo == hi == 0:
        return False
    return True if (lo > 0 or hi < 0) else None


class SI:
    """machine integer with polynomial value"""
    __slots__ = ("p", "lo", "hi")

    def __init__(self, p, lo, hi):
        self.p = p
        self.lo = lo
        self.hi = hi

    @staticmethod
    def mk(p, lo, hi):
        if p.is_const():
            return p.const_value()
        return SI(p, lo, hi)

    def __add__(self, o):
        if o.__class__ is int or o.__class__ is bool:
            return SI(self.p.add(Poly.const(int(o))), self.lo + o, self.hi + o)
        if o.__class__ is SI:
            return SI.mk(self.p.add(o.p), self.lo + o.lo, self.hi + o.hi)
        return NotImplemented
    __radd__ = __add__

    def __neg__(self):
        return SI(self.p.neg(), -self.hi, -self.lo)

    def __sub__(self, o):
        if o.__class__ is int:
            return SI(self.p.add(Poly.const(-o)), self.lo - o, self.hi - o)
        if o.__class__ is SI:
            return SI.mk(self.p.sub(o.p), self.lo - o.hi, self.hi - o.lo)
        return NotImplemented

    def __rsub__(self, o):
        if o.__class__ is int:
            return SI(Poly.const(o).sub(self.p), o - self.hi, o - self.lo)
        return NotImplemented

    def __mul__(self, o):
        if o.__class__ is int:
            if o == 0:
                return 0
            a, b = self.lo * o, self.hi * o
            return SI(self.p.scale(o), min(a, b), max(a, b))
        if o.__class__ is SI:
            c = (self.lo * o.lo, self.lo * o.hi, self.hi * o.lo, self.hi * o.hi)
            return SI.mk(self.p.mul(o.p), min(c), max(c))
        return NotImplemented
    __rmul__ = __mul__

    def cmp(self, op, o):
        if o.__class__ is int or o.__class__ is bool:
            r = cmp_iv(op, self.lo - o, self.hi - o)
            if r is not None:
                return r
            return SB(op, (self.p.add(Poly.const(-int(o))),))
        if o.__class__ is SI:
            d = self.p.sub(o.p)
            if d.is_const():
                return holds(op, d.const_value())
            r = cmp_iv(op, self.lo - o.hi, self.hi - o.lo)
            if r is not None:
                return r
            return SB(op, (d,), (self.p, o.p))
        if o is UNDEF:
            o._bad()
        return NotImplemented

    def __lt__(self, o):
        return self.cmp("<", o)

    def __le__(self, o):
        return self.cmp("<=", o)

    def __gt__(self, o):
        return self.cmp(">", o)

    def __ge__(self, o):
        return self.cmp(">=", o)

    def __eq__(self, o):
        return self.cmp("==", o)

    def __ne__(self, o):
        return self.cmp("!=", o)
    __hash__ = object.__hash__

    def __bool__(self):
        raise Unsupported("SI as bool")


class SG:
    """int whose sign is the sign of a product of polynomials"""
    __slots__ = ("fs", "raw")

    def __init__(self, fs, raw=None):
        self.fs = fs
        self.raw = raw

    def cmp(self, op, o):
        if o.__class__ is int and o == 0:
            return SB(op, self.fs, self.raw)
        raise Unsupported("comparison of a GMP sign result with a non-zero constant")

    __lt__ = lambda self, o: self.cmp("<", o)
    __le__ = lambda self, o: self.cmp("<=", o)
    __gt__ = lambda self, o: self.cmp(">", o)
    __ge__ = lambda self, o: self.cmp(">=", o)
    __eq__ = lambda self, o: self.cmp("==", o)
    __ne__ = lambda self, o: self.cmp("!=", o)
    __hash__ = object.__hash__

    def __mul__(self, o):
        if o.__class__ is SG:
            return SG(self.fs + o.fs)
        if o.__class__ is int:
            if o == 0:
                return 0
            return self if o > 0 else SG(self.fs + (Poly.const(-1),))
        raise Unsupported("SG arithmetic")
    __rmul__ = __mul__

    def __neg__(self):
        return SG(self.fs + (Poly.const(-1),))

    def __rsub__(self, o):
        if o == 0:
            return -self
        raise Unsupported("SG arithmetic")

    def __add__(self, o):
        raise Unsupported("SG arithmetic")
    __radd__ = __sub__ = __add__

    def __bool__(self):
        raise Unsupported("SG as bool")


class SD:
    """finite double whose exact real value is n/d (d a positive polynomial)"""
    __slots__ = ("n", "d")

    def __init__(self, n, d=ONE):
        self.n = n
        self.d = d

    def _no(self, *a):
        raise Unsupported("SD operator")
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __bool__ = _no
    __hash__ = object.__hash__


class Var:
    __slots__ = ("name", "sort", "lo", "hi", "_arr", "z", "zr", "inp", "fn", "ex")

    @property
    def arr(self):
        """sample values (derived variables are evaluated on first use)"""
        a = self._arr
        if a is None:
            ex = self.ex
            a = np.empty(K, dtype=object)
            a[:] = 0
            for r in np.nonzero(ex.alive)[0]:
                try:
                    a[r] = self.fn(lambda p, r=r: ex.eval_row(p, r))
                except Exception:
                    ex.kills.append(r)
            self._arr = a
        return a


def put_value(f, k, x):
    """the polynomial (monomial -> coefficient) with the variable k replaced by x"""
    out = {}
    for m, c in f.items():
        e = m >> 8 * k & 255
        m -= e << 8 * k
        out[m] = out.get(m, 0) + c * x ** e
    return {m: c for m, c in out.items() if c}


def horner(co, x):
    r = 0
    for c in reversed(co):
        r = r * x + c
    return r


def int_sign_cuts(co):
    """integers t such that between two neighbours of the list, and outside it, the sign of the polynomial does not
    change over the integers (its values are monotone where those of its difference keep their sign)"""
    while co and not co[-1]:
        co = co[:-1]
    d = len(co) - 1
    if d <= 0:
        return []
    if d == 1:
        q = -co[0] // co[1]
        return [q, q + 1]
    diff = [0] * d
    for e in range(1, d + 1):
        b = 1
        for j in range(e):
            # binomial (e, j)
            diff[j] += co[e] * b
            b = b * (e - j) // (j + 1)
    cuts = sorted(set(int_sign_cuts(diff)) | {c + 1 for c in int_sign_cuts(diff)})
    big = 2 + max(abs(c) for c in co[:-1]) // abs(co[-1])
    pts = sorted({-big - 1, big + 1, *cuts})
    out = set(cuts)
    for a, b in zip(pts, pts[1:]):
        sa, sb = sgn(horner(co, a)), sgn(horner(co, b))
        if sa == sb:
            continue
        while b - a > 1:
            m = (a + b) // 2
            if sgn(horner(co, m)) == sa:
                a = m
            else:
                b = m
        out.update((a, b))
        # a run of zeros cannot be longer than the degree
        z = b
        while sgn(horner(co, z)) == 0 and z - b <= d:
            z += 1
            out.add(z)
        z = a
        while sgn(horner(co, z)) == 0 and a - z <= d:
            z -= 1
            out.add(z)
    return sorted(out)


class Row(dict):
    """assignment var index -> value; derived variables on demand"""
    __slots__ = ("ex",)

    def __missing__(self, k):
        v = self.ex.vars[k]
        if v.fn is not None:
            x = v.fn(lambda p: self.ex.eval_dict(p, self))
        else:
            x = v.arr[0]
        self[k] = x
        return x


class Stats:
    FIELDS = ("paths", "forks", "branches", "checks", "discharged", "undecided",
              "solver_calls", "solver_time", "unsat", "sat", "unknown", "obligations",
              "unwitnessed", "unsupported", "infeasible")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def add(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(o, f))


K = 384


class Executor:
    """one instance per process; reset() before every path"""

    def __init__(self, prog, seed=1):
        self.prog = prog
        self.seed = seed
        self.cov = bytearray(len(prog.fnames))
        self.stats = Stats()
        self.deadline = None
        self.query_timeout = 4000
        self.queries = []
        self.samplecache = {}
        self.ns = prog.bind(self)

    # ------------------------------------------------------------ path run
    def reset(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.log = []            # decisions taken
        self.pending = []        # alternative prefixes found
        self.fuel = self.max_fuel
        self.vars = []
        self.pc = []             # SB atoms that hold
        self.zero = []           # polys known to be zero (for reduction)
        self.truncs = {}         # var -> (n, d): trunc(n/d), d > 0
        self.subst = {}          # var -> Poly
        self.normcache = {}
        self.known = {}
        self.facache = {}
        self.kills = []
        self.spare = []
        self.alive = np.ones(K, dtype=bool)
        self.extra = []          # solver models: list of dict var->value
        self.filters = []        # (vars, fn(values)->bool)
        self.defs = []           # z3 side constraints (callables)
        self.inputs = []         # (name, kind, payload)
        self.obs = []            # observations
        self.prints = [0, [], ""]
        self.ntok = 0
        self.jmp = {}
        self.nobj = 0
        self.heap = {}
        self.fault = None
        self.fault_at = None
        self.faulty = False
        self.xg = {}
        self.nalloc = 0
        self.memo = {}
        self.notes = []
        self.gmp_reset()
        self.G = self.prog.make_globals(self)
        self.checks_here = 0
        self.unsat_pc = False

    max_fuel = 3000000

    def fault_used(self):
        return self.faulty

    def xglobal(self, name):
        """a global of the C library (stdout, stderr)"""
        p = self.xg.get(name)
        if p is None:
            o = self.new_obj(8, "libc")
            o.cells[0] = (8, (self.new_obj(8, "FILE"), 0))
            p = self.xg[name] = (o, 0)
        return p

    def out_of_fuel(self):
        raise OutOfFuel()

    def unreachable(self, fn):
        raise Violation("unreachable", "unreachable reached in " + fn)

    # ------------------------------------------------------------ objects
    def new_obj(self, size, kind, zero=False):
        o = Obj(size, kind, zero)
        self.nobj += 1
        o.id = self.nobj
        return o

    def alloca(self, n):
        if n.__class__ is not int:
            n = self.concretize(n)
        return (self.new_obj(n, "stack"), 0)

    def byval(self, p, n):
        """the callee's own copy of a structure passed by value"""
        q = self.alloca(n)
        self.x_llvm_memcpy(q, p, n)
        return q

    def insertv(self, a, v, idx):
        a = list(a)
        if len(idx) > 1:
            a[idx[0]] = self.insertv(a[idx[0]], v, idx[1:])
        else:
            a[idx[0]] = v
        return a

    def new_token(self):
        self.ntok += 1
        return self.ntok

    def setjmp(self, env, tok):
        self.jmp[env[0].id, env[1]] = tok

    def x_longjmp(self, env, val):
        tok = self.jmp.get((env[0].id, env[1]))
        if tok is None:
            raise Violation("longjmp", "longjmp without setjmp")
        raise LongJmp(tok, val or 1)

    # ------------------------------------------------------------ memory
    def _chk(self, p, sz, what):
        if p.__class__ is not tuple:
            if p.__class__ is int:
                raise Violation("null-deref", what + " through null/invalid pointer %d" % p)
            if p is UNDEF:
                UNDEF._bad()
            raise Unsupported("deref of %r" % (p,))
        o, off = p
        if o.__class__ is not Obj:
            raise Violation("bad-pointer", what + " through function pointer")
        if not o.live:
            raise Violation("use-after-free", "%s of freed %s" % (what, o.kind))
        if off.__class__ is not int:
            # bounds obligation, then case split on the offset
            size = o.size
            if size.__class__ is not int:
                size = self.concretize(size)
            self.require(off >= 0, "oob-" + what, "negative offset in %s" % o)
            self.require(off <= size - sz, "oob-" + what, "offset past end in %s" % o)
            off = self.concretize(off)
        if o.size.__class__ is not int:
            self.require(o.size >= off + sz, "oob-" + what, "offset past end of %s" % o)
            if off < 0:
                raise Violation("oob-" + what, "offset %s" % off)
        elif off < 0 or off + sz > o.size:
            raise Violation("oob-" + what, "%s of %d bytes at offset %d of %r" % (what, sz, off, o))
        return o, off

    def lds(self, p, sz, k):
        o, off = self._chk(p, sz, "read")
        c = o.cells.get(off)
        if c is not None and c[0] == sz:
            return c[1]
        # overlapping cells?
        parts = []
        for d in range(-7, sz):
            cc = o.cells.get(off + d)
            if cc is not None and (d >= 0 or cc[0] + d > 0):
                parts.append((off + d, cc))
        if not parts:
            if o.zero:
                return 0.0 if k == "d" else 0
            if o.val is not None and o.kind == "str":
                return self._bytes_val(o.val[off:off + sz], k)
            return UNDEF
        # byte-wise assembly of concrete cells
        buf = [0 if o.zero else None] * sz
        for q, (s, v) in parts:
            b = self._to_bytes(v, s)
            for t in range(s):
                if 0 <= q + t - off < sz:
                    buf[q + t - off] = b[t]
        if any(x is None for x in buf):
            return UNDEF
        return self._bytes_val(bytes(buf), k)

    def _to_bytes(self, v, s):
        if v.__class__ is int or v.__class__ is bool:
            return (int(v) & ((1 << (8 * s)) - 1)).to_bytes(s, "little")
        if v.__class__ is float:
            return struct.pack("<d", v)
        if v is UNDEF:
            return [None] * s
        raise Unsupported("partial access to symbolic or pointer cell")

    def _bytes_val(self, b, k):
        if k == "d":
            return struct.unpack("<d", b)[0]
        return int.from_bytes(b, "little", signed=True)

    def sts(self, p, v, sz):
        o, off = self._chk(p, sz, "write")
        if o.const:
            raise Violation("write-const", "write to constant")
        cells = o.cells
        c = cells.get(off)
        if c is None or c[0] != sz:
            for d in range(-7, sz):
                if d == 0:
                    continue
                cc = cells.get(off + d)
                if cc is not None and (d > 0 or cc[0] + d > 0):
                    self._split(o, off + d)
            if c is not None and c[0] > sz:
                self._split(o, off)
        cells[off] = (sz, v)

    def _split(self, o, off):
        s, v = o.cells.pop(off)
        b = self._to_bytes(v, s)
        for t in range(s):
            if b[t] is not None:
                x = b[t]
                o.cells[off + t] = (1, x - 256 if x > 127 else x)
            elif o.zero:
                o.cells[off + t] = (1, UNDEF)

    def ld(self, p, sz, k="i64"):
        c = p[0].cells.get(p[1])
        return c[1] if c is not None and c[0] == sz else self.lds(p, sz, k)

    def st(self, p, v, sz):
        self.sts(p, v, sz)

    def x_llvm_memcpy(self, d, s, n, *a):
        if n.__class__ is not int:
            n = self.concretize(n)
        if n == 0:
            return d
        so, soff = self._chk(s, n, "read")
        do, doff = self._chk(d, n, "write")
        if do.const:
            raise Violation("write-const", "memcpy to constant")
        self._copy(do, doff, so, soff, n)
        return d

    x_memcpy = x_llvm_memmove = x_memmove = x_llvm_memcpy

    def _copy(self, do, doff, so, soff, n):
        if n > 4096 or n > 4 * len(so.cells):
            src = [(k, v) for k, v in so.cells.items() if soff <= k < soff + n]
        else:
            src = []
            for k in range(soff, soff + n):
                v = so.cells.get(k)
                if v is not None:
                    src.append((k, v))
        # cells straddling the borders
        for k in list(so.cells):
            c = so.cells[k]
            if (k < soff < k + c[0]) or (k < soff + n < k + c[0]):
                self._split(so, k)
                return self._copy(do, doff, so, soff, n)
        self._clear(do, doff, n)
        for k, v in src:
            do.cells[doff + k - soff] = v
        if so.kind == "str":
            for t in range(n):
                b = so.val[soff + t]
                do.cells[doff + t] = (1, b - 256 if b > 127 else b)
        elif so.zero and not do.zero:
            have = set()
            for k, (s, v) in src:
                have.update(range(k, k + s))
            t = soff
            while t < soff + n:
                if t not in have:
                    if (t - soff + doff) % 8 == 0 and t + 8 <= soff + n and not any(t + q in have for q in range(8)):
                        do.cells[doff + t - soff] = (8, 0)
                        t += 8
                        continue
                    do.cells[doff + t - soff] = (1, 0)
                t += 1
        elif do.zero and not so.zero:
            # copied uninitialised bytes: mark
            have = set()
            for k, (s, v) in src:
                have.update(range(k, k + s))
            for t in range(soff, soff + n):
                if t not in have:
                    do.cells[doff + t - soff] = (1, UNDEF)

    def _clear(self, o, off, n):
        for k in list(o.cells):
            c = o.cells[k]
            if k >= off + n or k + c[0] <= off:
                continue
            if k < off or k + c[0] > off + n:
                self._split(o, k)
                return self._clear(o, off, n)
        for k in list(o.cells):
            if off <= k < off + n:
                del o.cells[k]

    def x_llvm_memset(self, d, b, n, *a):
        if n.__class__ is not int:
            n = self.concretize(n)
        if n == 0:
            return d
        o, off = self._chk(d, n, "write")
        self._clear(o, off, n)
        if b == 0 and off == 0 and n == o.size:
            o.zero = True
            return d
        if o.zero and b == 0:
            return d
        t = off
        v8 = int.from_bytes(bytes([b & 255]) * 8, "little", signed=True)
        while t < off + n:
            if t % 8 == 0 and t + 8 <= off + n:
                o.cells[t] = (8, v8)
                t += 8
            else:
                o.cells[t] = (1, b)
                t += 1
        return d

    x_memset = x_llvm_memset

    # ------------------------------------------------------------ heap
    ALLOC_LIMIT = 1 << 20

    def maybe_fail(self):
        """allocation request: may it fail here?"""
        f = self.fault
        if f is None:
            return False
        self.nalloc += 1
        if f == "none":
            return False
        if f == "dead":
            return True
        # fork: fails at this request or not
        if self.choose(2, "alloc%d" % self.nalloc):
            self.notes.append("allocation request %d fails" % self.nalloc)
            self.fault_at = self.nalloc
            self.faulty = True
            self.fault = "dead" if f == "persistent" else "none"
            return True
        return False

    def _size(self, n):
        if n.__class__ is int:
            n &= (1 << 64) - 1
            return n
        # symbolic size: small sizes are case-split, large ones refused
        if self.br(n.cmp("<", 0)) if n.lo < 0 else False:
            return 1 << 63
        c = n.cmp(">", self.ALLOC_LIMIT)
        if c.__class__ is SB:
            c = self.br(c)
        if c:
            return 1 << 62
        return self.concretize(n)

    def x_malloc(self, n):
        n = self._size(n)
        if self.maybe_fail():
            return 0
        if n > self.ALLOC_LIMIT:
            return 0
        o = self.new_obj(n, "heap")
        self.heap[o.id] = o
        return (o, 0)

    def x_calloc(self, a, b):
        if a.__class__ is int and b.__class__ is int:
            n = (a & ((1 << 64) - 1)) * (b & ((1 << 64) - 1))
        else:
            a = self.zext(a, 64) if not (a.__class__ is int and a >= 0) else a
            b = self.zext(b, 64) if not (b.__class__ is int and b >= 0) else b
            n = a * b
            c = n > self.ALLOC_LIMIT
            if c.__class__ is SB:
                c = self.br(c)
            n = (1 << 62) if c else self.concretize(n)
        if self.maybe_fail():
            return 0
        if n > self.ALLOC_LIMIT:
            return 0
        o = self.new_obj(n, "heap", True)
        self.heap[o.id] = o
        return (o, 0)

    def x_realloc(self, p, n):
        n = self._size(n)
        if p == 0:
            if self.maybe_fail():
                return 0
            if n > self.ALLOC_LIMIT:
                return 0
            o = self.new_obj(n, "heap")
            self.heap[o.id] = o
            return (o, 0)
        o, off = self._heapchk(p, "realloc")
        if self.maybe_fail():
            return 0
        if n > self.ALLOC_LIMIT:
            return 0
        if n == 0:
            self._kill(o)
            return 0
        q = self.new_obj(n, "heap")
        self.heap[q.id] = q
        m = min(o.size, n)
        self._copy(q, 0, o, 0, m)
        q.val = o.val
        self._kill(o)
        return (q, 0)

    def _heapchk(self, p, what):
        if p.__class__ is not tuple:
            if p is UNDEF:
                UNDEF._bad()
            raise Violation("bad-free", what + " of non-pointer %r" % (p,))
        o, off = p
        if o.__class__ is not Obj or o.kind != "heap":
            raise Violation("bad-free", what + " of non-heap object")
        if not o.live:
            raise Violation("double-free", what + " of freed block")
        if off.__class__ is not int or off != 0:
            raise Violation("bad-free", what + " of interior pointer")
        return o, off

    def _kill(self, o):
        o.live = False
        o.cells = {}
        del self.heap[o.id]

    def x_free(self, p):
        if p.__class__ is int and p == 0:
            return None
        o, off = self._heapchk(p, "free")
        self._kill(o)

    # ------------------------------------------------------------ pointers
    def peq(self, a, b):
        if a.__class__ is tuple and b.__class__ is tuple:
            if a[0] is not b[0]:
                return False
            x, y = a[1], b[1]
            if x.__class__ is int and y.__class__ is int:
                return x == y
            c = x == y
            return self.br(c) if c.__class__ is SB else c
        return a == b

    def pcmp(self, cc, a, b):
        if a.__class__ is tuple and b.__class__ is tuple and a[0] is b[0]:
            x, y = a[1], b[1]
            op = {"ult": "<", "ule": "<=", "ugt": ">", "uge": ">="}[cc]
            if x.__class__ is int and y.__class__ is int:
                return holds(op, x - y)
            c = {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y}[op]()
            return self.br(c) if c.__class__ is SB else c
        raise Violation("ptr-compare", "relational comparison of unrelated pointers")

    def ptrtoint(self, a):
        return 0 if a == 0 else PI(a)

    def inttoptr(self, a):
        if a.__class__ is PI:
            return a.p
        if a.__class__ is int:
            return a
        raise Unsupported("inttoptr")

    def callptr(self, p, *args):
        if p.__class__ is not tuple:
            if p is UNDEF:
                UNDEF._bad()
            raise Violation("null-call", "call through null function pointer")
        f = p[0]
        if f.__class__ is Obj:
            raise Violation("bad-call", "call through data pointer")
        if f.__class__ is str:
            return getattr(self, "x_" + f)(*args)
        return f(self, *args)

    # ------------------------------------------------------------ integers
    def i1(self, c):
        if c.__class__ is int:
            return c & 1
        if c.__class__ is bool:
            return int(c)
        if c.__class__ is SB:
            return int(self.br(c))
        if c is UNDEF:
            UNDEF._bad()
        raise Unsupported("i1 of %r" % (c,))

    def fix(self, r, op, w, nsw, fn):
        M = 1 << (w - 1)
        if r.__class__ is bool:
            return int(r)
        if r.__class__ is int:
            if nsw:
                raise Violation("overflow", "signed overflow in %s (%s)" % (fn, op))
            r &= 2 * M - 1
            return r - 2 * M if r >= M else r
        if r.__class__ is SI:
            if r.lo >= -M and r.hi < M:
                return r
            if r.p.is_const():
                return self.fix(r.p.const_value(), op, w, nsw, fn)
            if nsw:
                if r.hi >= M:
                    self.require(r.cmp("<", M), "overflow", "signed overflow in %s (%s)" % (fn, op))
                if r.lo < -M:
                    self.require(r.cmp(">=", -M), "overflow", "signed overflow in %s (%s)" % (fn, op))
                return SI(r.p, max(r.lo, -M), min(r.hi, M - 1))
            return self.wrap(r, w)
        if r.__class__ is SG:
            return r
        raise Unsupported("integer op result %r" % (r,))

    def ovf(self, op, w, a, b):
        """llvm.*.with.overflow: [wrapped result, overflow bit]"""
        M = 1 << (w - 1)
        sg = op[0] == "s"
        if not sg:
            a, b = self.zext(a, w), self.zext(b, w)
        lo, hi = (-M, M - 1) if sg else (0, 2 * M - 1)
        f = op[1:]
        r = a + b if f == "add" else a - b if f == "sub" else a * b
        if r.__class__ is bool:
            r = int(r)
        if r.__class__ is int:
            return [self.trunc(r, w), not lo <= r <= hi]
        if r.__class__ is not SI:
            raise Unsupported("overflow check of %r" % (r,))
        c = r.cmp("<=", hi)
        ok = self.br(c) if c.__class__ is SB else c
        if ok:
            c = r.cmp(">=", lo)
            ok = self.br(c) if c.__class__ is SB else c
        if ok:
            r = SI.mk(r.p, max(r.lo, lo), min(r.hi, hi))
        return [self.trunc(r, w), not ok]

    def iintr(self, op, w, a, b=0, *rest):
        """integer intrinsics"""
        M = 1 << (w - 1)
        if op == "abs":
            c = a < 0
            if self.br(c) if c.__class__ is SB else c:
                if a.__class__ is int:
                    return self.trunc(-a, w)
                return self.fix(0 - a, "sub", w, False, "abs")
            return a
        if op in ("smax", "smin", "umax", "umin"):
            c = a < b if op[0] == "s" else self.ucmp("ult", a, b, w)
            if c.__class__ is SB:
                c = self.br(c)
            return (b if c else a) if op[1:] == "max" else (a if c else b)
        if op.endswith(".sat"):
            r, o = self.ovf(op[:-4], w, a, b)
            if not o:
                return r
            if op[0] == "u":
                return -1 if op[1:4] == "add" else 0
            neg = self.cint(a) < 0
            return -M if neg else M - 1
        a = self.cint(a) & (2 * M - 1)
        if op == "ctlz":
            return w - a.bit_length()
        if op == "cttz":
            return (a & -a).bit_length() - 1 if a else w
        if op == "ctpop":
            return bin(a).count("1")
        return self.trunc(int.from_bytes(a.to_bytes(w // 8, "little"), "big"), w)

    def wrap(self, r, w):
        """reduce an SI modulo 2^w to the signed range"""
        M = 1 << (w - 1)
        c = r.cmp(">=", -M)
        ok = self.br(c) if c.__class__ is SB else c
        if ok:
            c = r.cmp("<", M)
            ok = self.br(c) if c.__class__ is SB else c
        if ok:
            return SI.mk(r.p, max(r.lo, -M), min(r.hi, M - 1))
        # one-step wraps first
        for k in (1, -1):
            lo, hi = r.lo - k * 2 * M, r.hi - k * 2 * M
            if lo >= -M and hi < M:
                return SI(r.p.sub(Poly.const(k * 2 * M)), lo, hi)
        v = self.fresh("wrap", "int", (r.lo + M) // (2 * M), (r.hi + M) // (2 * M),
                       fn=lambda ev: (ev(r.p) + M) // (2 * M))
        q = r.p.sub(Poly.var(v).scale(2 * M))
        self.assume_def(SB(">=", (q.add(Poly.const(M)),)))
        self.assume_def(SB("<", (q.sub(Poly.const(M)),)))
        return SI(q, -M, M - 1)

    def zext(self, a, w):
        if a.__class__ is int:
            return a if a >= 0 else a + (1 << w)
        if a.__class__ is bool:
            return int(a)
        if a.__class__ is SI:
            if a.lo >= 0:
                return a
            if self.br(a.cmp(">=", 0)):
                return SI(a.p, 0, a.hi)
            return SI(a.p.add(Poly.const(1 << w)), a.lo + (1 << w), (1 << w) - 1)
        if a.__class__ is SG:
            # zext of a sign value: sign case split
            return self.sign_of(a) & ((1 << w) - 1)
        if a is UNDEF:
            return UNDEF
        raise Unsupported("zext")

    def sign_of(self, a):
        if self.br(SB("==", a.fs, a.raw)):
            return 0
        return 1 if self.br(SB(">", a.fs, a.raw)) else -1

    def trunc(self, a, w):
        M = 1 << (w - 1)
        if a.__class__ is int:
            a &= 2 * M - 1
            return a - 2 * M if a >= M else a
        if a.__class__ is SI:
            if a.lo >= -M and a.hi < M:
                return a
            return self.wrap(a, w)
        if a.__class__ is SG or a is UNDEF:
            return a
        if a.__class__ is bool:
            return int(a)
        raise Unsupported("trunc")

    def trunc1(self, a):
        if a.__class__ is int:
            return a & 1
        if a is UNDEF:
            return UNDEF
        if a.__class__ is SI:
            return self.concretize(a) & 1
        if a.__class__ is bool or a.__class__ is SB:
            return a
        raise Unsupported("trunc to i1")

    def cint(self, a):
        if a.__class__ is int:
            return a
        if a.__class__ is bool:
            return int(a)
        if a.__class__ is SI:
            return self.concretize(a)
        if a.__class__ is SG:
            return self.sign_of(a)
        if a.__class__ is SB:
            return int(self.br(a))
        if a is UNDEF:
            UNDEF._bad()
        raise Unsupported("integer expected, got %r" % (a,))

    def ucmp(self, cc, a, b, w):
        op = {"ult": "<", "ule": "<=", "ugt": ">", "uge": ">="}[cc]
        if a.__class__ is int and b.__class__ is int:
            m = (1 << w) - 1
            return holds(op, (a & m) - (b & m))
        a = self.zext(a, w)
        b = self.zext(b, w)
        if op == "<":
            return a < b
        if op == "<=":
            return a <= b
        if op == ">":
            return a > b
        return a >= b

    def bin_sdiv(self, a, b, w):
        if a.__class__ is not int or b.__class__ is not int:
            return self._divsym(a, b, w, True)
        if b == 0:
            raise Violation("div-zero", "division by zero")
        q = abs(a) // abs(b)
        q = q if (a < 0) == (b < 0) else -q
        if q >= 1 << (w - 1):
            raise Violation("overflow", "sdiv overflow")
        return q

    def bin_srem(self, a, b, w):
        if a.__class__ is not int or b.__class__ is not int:
            q = self._divsym(a, b, w, True)
            return a - q * b
        if b == 0:
            raise Violation("div-zero", "remainder by zero")
        r = abs(a) % abs(b)
        return r if a >= 0 else -r

    def bin_udiv(self, a, b, w):
        a, b = self.zext(a, w), self.zext(b, w)
        if a.__class__ is not int or b.__class__ is not int:
            q = self._divsym(a, b, w, False)
            return self.wrap(q, w) if q.__class__ is SI and q.hi >= 1 << (w - 1) else q
        if b == 0:
            raise Violation("div-zero", "division by zero")
        return self.trunc(a // b, w)

    def bin_urem(self, a, b, w):
        a, b = self.zext(a, w), self.zext(b, w)
        if a.__class__ is not int or b.__class__ is not int:
            q = self._divsym(a, b, w, False)
            r = a - q * b
            return self.wrap(r, w) if r.__class__ is SI and r.hi >= 1 << (w - 1) else r
        if b == 0:
            raise Violation("div-zero", "remainder by zero")
        return self.trunc(a % b, w)

    def _divsym(self, a, b, w, signed):
        A = a.p if a.__class__ is SI else Poly.const(self.cint(a))
        B = b.p if b.__class__ is SI else Poly.const(self.cint(b))
        c = b != 0
        self.require(c, "div-zero", "division by zero")
        # sign split keeps truncation simple
        na = a.__class__ is SI and a.lo < 0 and self.br(SB("<", (A,))) or (a.__class__ is int and a < 0)
        nb = b.__class__ is SI and b.lo < 0 and self.br(SB("<", (B,))) or (b.__class__ is int and b < 0)
        AA = A.neg() if na else A
        BB = B.neg() if nb else B
        mx = max(abs(a.lo), abs(a.hi)) if a.__class__ is SI else abs(a)
        v = self.fresh("quo", "int", 0, mx, fn=lambda ev: ev(AA) // ev(BB) if ev(BB) else 0)
        Q = Poly.var(v)
        r = AA.sub(Q.mul(BB))
        self.assume_def(SB(">=", (r,)))
        self.assume_def(SB("<", (r.sub(BB),)))
        if na != nb:
            return SI(Q.neg(), -mx, 0)
        return SI(Q, 0, mx)

    def _bits(self, a, w):
        a = self.cint(a)
        return a & ((1 << w) - 1)

    def bin_and(self, a, b, w):
        if w == 1:
            return self.i1(a) & self.i1(b)
        return self.trunc(self._bits(a, w) & self._bits(b, w), w)

    def bin_or(self, a, b, w):
        if w == 1:
            return self.i1(a) | self.i1(b)
        return self.trunc(self._bits(a, w) | self._bits(b, w), w)

    def bin_xor(self, a, b, w):
        if w == 1:
            if b.__class__ is int and (b & 1) and a.__class__ is SB:
                return SB(NEG[a.op], a.fs, a.raw)
            return self.i1(a) ^ self.i1(b)
        if a.__class__ is SI and b == -1:
            return SI(a.p.neg().sub(ONE), -a.hi - 1, -a.lo - 1)
        return self.trunc(self._bits(a, w) ^ self._bits(b, w), w)

    def bin_shl(self, a, b, w):
        b = self.cint(b)
        if not 0 <= b < w:
            raise Violation("shift", "shift amount")
        r = a * (1 << b)
        if r.__class__ is int:
            return self.trunc(r, w)
        return self.fix(r, "shl", w, False, "")

    def bin_lshr(self, a, b, w):
        b = self.cint(b)
        if a.__class__ is SI and a.lo >= 0:
            return self._divsym(a, 1 << b, w, False) if b else a
        return self.trunc(self._bits(a, w) >> b, w)

    def bin_ashr(self, a, b, w):
        return self.cint(a) >> self.cint(b)

    def switch(self, v, cases):
        v2 = v
        if v.__class__ is SI:
            for c in cases:
                t = v == c
                if t.__class__ is SB:
                    t = self.br(t)
                if t:
                    return c
            return None
        return self.cint(v2)

    # ------------------------------------------------------------ doubles
    def rat(self, x):
        """exact value of a finite double as (num Poly, den Poly>0)"""
        if x.__class__ is SD:
            return x.n, x.d
        f = Fraction(x)
        return Poly.const(f.numerator), Poly.const(f.denominator)

    def opaque_double(self, key, fn, n=None, d=None, facts=None):
        """a double that is a function of its arguments (same key, same value)"""
        v = self.memo.get(key)
        if v is None:
            v = self.fresh(key[0], "real", None, None, fn=fn)
            self.memo[key] = v
            if facts:
                facts(Poly.var(v))
        return SD(Poly.var(v))

    def round_facts(self, n, d):
        """facts about R = round-to-nearest-double of n/d"""
        def f(R):
            # |R*d - n| * 2^53 <= |n|   (no under/overflow in the modelled range)
            # sign agreement is what branch conditions use
            pass
        return f

    def round_double(self, tag, n, d):
        """nearest double to n/d (d > 0); exact constants folded"""
        n, d = self.norm(n), self.norm(d)
        if n.is_const() and d.is_const():
            v = Fraction(n.const_value()) / Fraction(d.const_value())
            try:
                return float(v)
            except OverflowError:
                return INF if v > 0 else -INF
        q = n.divexact(d)
        if q is not None:
            n, d = q, ONE
        vs = n.vars()
        if len(vs) == 1 and vs[0] in self.vprec and self.exact_in(n, d, 53):
            return SD(n, d)  # a double times a power of two
        key = ("rnd", n.key(), d.key())

        def fn(ev, n=n, d=d):
            dd = ev(d)
            return Fraction(float(Fraction(ev(n)) / dd)) if dd else Fraction(0)
        r = self.opaque_double(key, fn)
        fl = self.memo.get(key + ("f",))
        if fl is None:
            self.memo[key + ("f",)] = True
            P = r.n
            self.vprec[P.vars()[0]] = 53
            # R has the sign of n, and rounding is monotone
            self.zdef(lambda z: z3.And(z3.Implies(z(n) >= 0, z(P) >= 0), z3.Implies(z(n) <= 0, z(P) <= 0)))
            if d.is_const():
                lo, hi = self.interval(n)
                if lo is not None and hi is not None and max(abs(lo), abs(hi)) < d.const_value() << 900:
                    v = self.vars[P.vars()[0]]
                    v.lo = Fraction(float(Fraction(lo) / d.const_value()))
                    v.hi = Fraction(float(Fraction(hi) / d.const_value()))
            self.relerr(P, n, d, 53, True)
        return r

    def fbin(self, op, a, b):
        if a.__class__ is float and b.__class__ is float:
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op == "/":
                if b == 0.0:
                    if a != a or a == 0.0:
                        return NAN
                    s = math.copysign(1.0, a) * math.copysign(1.0, b)
                    return INF * s
                return a / b
            raise Unsupported("frem")
        if a is UNDEF or b is UNDEF:
            UNDEF._bad()
        for x in (a, b):
            if x.__class__ is float and (x != x or x in (INF, -INF)):
                raise Unsupported("symbolic double with inf/nan arithmetic")
        n1, d1 = self.rat(a)
        n2, d2 = self.rat(b)
        if op == "+":
            n, d = n1.mul(d2).add(n2.mul(d1)), d1.mul(d2)
        elif op == "-":
            n, d = n1.mul(d2).sub(n2.mul(d1)), d1.mul(d2)
        elif op == "*":
            n, d = n1.mul(n2), d1.mul(d2)
        elif op == "/":
            if n2.is_const() and n2.const_value():
                s = sgn(n2.const_value())
                n, d = n1.mul(d2).scale(s), d1.mul(n2).scale(s)
            else:
                if self.br(SB("==", (n2,))):
                    raise Unsupported("division by symbolic zero double")
                s = 1 if self.br(SB(">", (n2,))) else -1
                n, d = n1.mul(d2).scale(s), d1.mul(n2).scale(s)
        else:
            raise Unsupported("frem")
        return self.round_double(op, n, d)

    def fconv(self, a, kind):
        """a floating-point value converted to another format"""
        if kind == "dbl":
            return a
        if kind == "float" and a.__class__ is float:
            try:
                return struct.unpack("<f", struct.pack("<f", a))[0]
            except OverflowError:
                return math.copysign(INF, a)
        raise Unsupported("%s arithmetic on a symbolic value" % kind)

    def cannot(self, why):
        raise Unsupported(why)

    def fneg(self, a):
        if a.__class__ is float:
            return -a
        return SD(a.n.neg(), a.d)

    def fcmp(self, cc, a, b):
        if a is UNDEF or b is UNDEF:
            UNDEF._bad()
        if a.__class__ is float and b.__class__ is float:
            un = a != a or b != b
            if cc == "ord":
                return not un
            if cc == "uno":
                return un
            if un:
                return cc[0] == "u"
            op = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}[cc[1:]]
            if a == b:
                return holds(op, 0)
            return holds(op, 1 if a > b else -1)
        for x in (a, b):
            if x.__class__ is float and x != x:
                return cc[0] == "u"
        if cc == "ord":
            return True
        if cc == "uno":
            return False
        op = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}[cc[1:]]
        for x, s in ((a, 1), (b, -1)):
            if x.__class__ is float and x in (INF, -INF):
                return holds(op, s if x > 0 else -s)
        n1, d1 = self.rat(a)
        n2, d2 = self.rat(b)
        n = n1.mul(d2).sub(n2.mul(d1))
        if n.is_const():
            return holds(op, sgn(n.const_value()))
        return SB(op, (n,))

    def sitofp(self, a, w):
        if a.__class__ is int:
            return float(a)
        if a is UNDEF:
            return UNDEF
        if a.__class__ is SI:
            if a.lo >= -(1 << 53) and a.hi <= 1 << 53:
                return SD(a.p)
            p = self.norm(a.p)
            if p.is_const():
                return float(p.const_value())
            M = Poly.const(1 << 53)
            if self.br(SB("<=", (p.sub(M),))) and self.br(SB(">=", (p.add(M),))):
                return SD(p)
            return self.round_double("sitofp", p, ONE)
        return float(self.cint(a))

    def uitofp(self, a, w):
        return self.sitofp(self.zext(a, w), w)

    def fptosi(self, a, w):
        M = 1 << (w - 1)
        if a.__class__ is float:
            if a != a or a in (INF, -INF) or not -M <= int(a) < M:
                raise Violation("float-cast", "double %r does not fit in i%d" % (a, w))
            return int(a)
        if a is UNDEF:
            UNDEF._bad()
        n, d = a.n, a.d
        # obligations: trunc in range  <=>  -M-1 < v < M
        self.require(SB("<", (n.sub(d.scale(M)),)), "float-cast", "double too large for i%d" % w)
        self.require(SB(">", (n.add(d.scale(M + 1)),)), "float-cast", "double too small for i%d" % w)
        q = self.trunc_rat(n, d)
        return SI.mk(q, -M, M - 1)

    def fptoui(self, a, w):
        if a.__class__ is float:
            if a != a or not -1 < a < (1 << w):
                raise Violation("float-cast", "double %r does not fit in u%d" % (a, w))
            return self.trunc(int(a), w)
        raise Unsupported("fptoui symbolic")

    def trunc_rat(self, n, d):
        """Poly for trunc(n/d), d > 0"""
        n, d = self.norm(n), self.norm(d)
        if n.is_const() and d.is_const():
            return Poly.const(int(Fraction(n.const_value()) / Fraction(d.const_value())))
        q = n.divexact(d)
        if q is not None and self.int_poly(q):
            return q
        neg = self.br(SB("<", (n,)))
        key = ("trunc", n.key(), d.key())
        v = self.memo.get(key)
        if v is None:
            v = self.fresh("trunc", "int", None, None, fn=lambda ev: int(Fraction(ev(n)) / Fraction(ev(d) or 1)))
            self.memo[key] = v
            Q = Poly.var(v)
            self.truncs[v] = (n, d)
            if neg:
                # n <= Q*d  and (Q-1)*d < n
                self.assume_def(SB(">=", (Q.mul(d).sub(n),)))
                self.assume_def(SB("<", (Q.mul(d).sub(d).sub(n),)))
                self.assume_def(SB("<=", (Q,)))
                if self.int_poly(d) and self.int_poly(n):
                    self.assume_def(SB(">=", (Q.sub(n),)))
            else:
                self.assume_def(SB(">=", (Q,)))
                if self.int_poly(d) and self.int_poly(n):
                    self.assume_def(SB("<=", (Q.sub(n),)))
                self.assume_def(SB("<=", (Q.mul(d).sub(n),)))
                self.assume_def(SB(">", (Q.mul(d).add(d).sub(n),)))
        return Poly.var(v)

    def int_poly(self, p):
        for c in p.t.values():
            if isinstance(c, Fraction) and c.denominator != 1:
                return False
        return all(self.vars[k].sort == "int" for k in p.vars())

    def _m1(self, fn, a):
        if a.__class__ is float:
            return fn(a)
        raise Unsupported("math function of symbolic double")

    def x_sqrt(self, a):
        return self._m1(lambda x: math.sqrt(x) if x >= 0 else NAN, a)

    x_llvm_sqrt = x_sqrt

    def x_llvm_fabs(self, a):
        if a.__class__ is SD:
            return SD(a.n.neg(), a.d) if self.br(SB("<", (a.n,))) else a
        return abs(a)

    x_fabs = x_llvm_fabs

    def x_llvm_ceil(self, a):
        return self._m1(lambda x: float(math.ceil(x)) if math.isfinite(x) else x, a)

    def x_llvm_floor(self, a):
        if a.__class__ is SD:
            raise Unsupported("floor of symbolic double")
        return self._m1(lambda x: float(math.floor(x)) if math.isfinite(x) else x, a)

    x_ceil, x_floor = x_llvm_ceil, x_llvm_floor

    def x_llvm_trunc(self, a):
        if a.__class__ is SD:
            # trunc of a double is a double
            return SD(self.trunc_rat(a.n, a.d))
        return self._m1(lambda x: float(math.trunc(x)) if math.isfinite(x) else x, a)

    x_trunc = x_llvm_trunc

    def x_llvm_round(self, a):
        return self._m1(lambda x: float(math.floor(abs(x) + 0.5)) * (1 if x >= 0 else -1) if math.isfinite(x) else x, a)

    x_round = x_llvm_round

    def _fext(self, a, b, hi):
        for x, y in ((a, b), (b, a)):
            if x.__class__ is float and x != x:
                return y
        c = self.fcmp("olt", a, b)
        if c.__class__ is SB:
            c = self.br(c)
        return (b if c else a) if hi else (a if c else b)

    def x_llvm_maxnum(self, a, b):
        return self._fext(a, b, True)

    def x_llvm_minnum(self, a, b):
        return self._fext(a, b, False)

    x_fmax, x_fmin = x_llvm_maxnum, x_llvm_minnum

    def x_labs(self, a):
        return self.iintr("abs", 64, a)

    x_llabs = x_labs

    def x_abs(self, a):
        return self.iintr("abs", 32, a)

    def _byte(self, p):
        v = self.lds(p, 1, "i8")
        if v is UNDEF:
            UNDEF._bad()
        return self.cint(v) & 255

    def x_strcmp(self, a, b):
        return self.x_strncmp(a, b, I64MAX)

    def x_strncmp(self, a, b, n):
        for k in range(self.cint(n)):
            x, y = self._byte((a[0], a[1] + k)), self._byte((b[0], b[1] + k))
            if x != y or x == 0:
                return x - y
        return 0

    def x_memcmp(self, a, b, n):
        n = self.cint(n)
        k = 0
        while k < n:
            # cells of equal shape are compared as values
            c = a[0].cells.get(a[1] + k)
            d = b[0].cells.get(b[1] + k)
            if c is not None and d is not None and c[0] == d[0] and c[0] <= n - k and \
                    (c[1].__class__ is SI or d[1].__class__ is SI or c[1].__class__ is int and c[1] == d[1]):
                r = c[1] == d[1]
                if r.__class__ is SB:
                    r = self.br(r)
                if r:
                    k += c[0]
                    continue
                return 1    # the sign is not modelled
            x, y = self._byte((a[0], a[1] + k)), self._byte((b[0], b[1] + k))
            if x != y:
                return x - y
            k += 1
        return 0

    def x_log2(self, a):
        return self._m1(lambda x: math.log2(x) if x > 0 else (-INF if x == 0 else NAN), a)

    def x_pow(self, a, b):
        if a.__class__ is float and b.__class__ is float:
            return math.pow(a, b)
        raise Unsupported("pow")

    def x_llvm_fmuladd(self, a, b, c):
        return self.fbin("+", self.fbin("*", a, b), c)

    def x_llvm_is_fpclass(self, a, mask):
        if a.__class__ is float:
            cl = 0
            if a != a:
                cl = 3
            elif a in (INF, -INF):
                cl = 0x200 if a > 0 else 4
            elif a == 0:
                cl = 0x40 if math.copysign(1, a) > 0 else 0x20
            elif abs(a) < 2.2250738585072014e-308:
                cl = 0x80 if a > 0 else 0x10
            else:
                cl = 0x100 if a > 0 else 8
            return bool(cl & mask)
        fin = mask & 0x1f8
        if fin == 0:
            return False
        if fin == 0x1f8:
            return True
        raise Unsupported("fpclass")

    # ------------------------------------------------------------ misc libc
    def x_printf(self, *a):
        return 1

    x_puts = x_fflush = x_putchar = x_fprintf = x_printf

    def x_abort(self):
        raise Violation("abort", "abort called")

    def x___assert_fail(self, *a):
        raise Violation("assert", "assertion in code under test failed")

    def x_exit(self, c):
        raise Exit()

    def x_clock_gettime(self, c, p):
        self.sts(p, 0, 8)
        self.sts((p[0], p[1] + 8), 0, 8)
        return 0

    def va_start(self, ap, va):
        self.sts(ap, 0, 4)
        ap[0].text = list(va)

    # what the code under test prints (v_printf): numbers in order, and text
    CONV = re.compile(r"%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|j|z|t|L|Z|Q|R[ZUDNYA]?|F)?([a-zA-Z%])")

    def render(self, fmt, va):
        """pieces of formatted output: str, or (kind, value)"""
        out, pos, k = [], 0, 0
        for m in self.CONV.finditer(fmt):
            out.append(fmt[pos:m.start()])
            pos = m.end()
            if m.group(5) == "%":
                out.append("%")
                continue
            k += (m.group(2) == "*") + (m.group(3) == "*")
            if k >= len(va):
                raise Unsupported("printf with too few arguments")
            v, c, ln = va[k], m.group(5), m.group(4) or ""
            k += 1
            if ln == "Z":
                out.append(("z", self.zr(v)))
            elif ln == "Q":
                out.append(("q", self.qr(v)))
            elif ln[:1] == "R":
                out.append(("f", self.fr(v)))
            elif c in "diu":
                if v is UNDEF:
                    UNDEF._bad()
                out.append(("i", v if ln in ("l", "ll", "j", "z", "t") else self.trunc(v, 32)))
            elif c in "fgeFGEaA":
                if v is UNDEF:
                    UNDEF._bad()
                out.append(("d", v))
            elif c == "s":
                if v == 0:
                    raise Violation("null-deref", "NULL printed with %s")
                t = v[0].text
                out += t if t is not None else [self.cstr(v)]
            elif c == "c":
                out.append("?")
            elif c != "p":
                raise Unsupported("printf conversion " + m.group(0))
        out.append(fmt[pos:])
        return out

    def x_v_printf(self, fmt, *va):
        self.prints[0] += 1
        for x in self.render(self.cstr(fmt), va):
            if x.__class__ is str:
                self.prints[2] += x
            else:
                self.prints[1].append(x)
        return 1

    # files: a stream is a list of items ("ws",), ("int", v), ("mpz", poly), ("dbl", v), ("txt", str)
    def x_v_file(self):
        o = self.new_obj(216, "global")
        o.text = [[], 0, False]
        return (o, 0)

    def stream(self, f):
        if f == 0 or f[0].text.__class__ is not list or len(f[0].text) != 3:
            raise Violation("file", "not a stream")
        return f[0].text

    def x_v_put_int(self, f, v):
        self.stream(f)[0].append(("int", v))

    def x_v_put_dbl(self, f, v):
        self.stream(f)[0].append(("dbl", v))

    def x_v_put_mpz(self, f, z):
        self.stream(f)[0].append(("mpz", self.zr(z)))

    def x_v_put_text(self, f, t):
        for w in re.findall(r"\s+|\S+", self.cstr(t)):
            self.stream(f)[0].append(("ws",) if w.isspace() else ("txt", w))

    def x_v_put_end(self, f):
        self.stream(f)[1] = 0

    def x_feof(self, f):
        return 1 if self.stream(f)[2] else 0

    x_feof_unlocked = x_feof

    def x_rewind(self, f):
        self.stream(f)[1:] = [0, False]

    def x_fclose(self, f):
        self.stream(f)
        return 0

    SCAN = re.compile(r"\s+|%(\*?)(hh|h|ll|l|j|z|t|L|Z|Q|F)?([a-zA-Z%])|.", re.S)

    def scan(self, f, fmt, va):
        st = self.stream(f)
        items = st[0]
        n = k = 0

        def blank():
            while st[1] < len(items) and items[st[1]][0] == "ws":
                st[1] += 1
            if st[1] == len(items):
                st[2] = True
                return True
            return False
        for m in self.SCAN.finditer(fmt):
            t = m.group(0)
            if t.isspace():
                blank()
                continue
            if m.group(3) is None or m.group(3) == "%" or m.group(1):
                raise Unsupported("scanf directive " + t)
            ln, c = m.group(2) or "", m.group(3)
            if c == "n":
                self.sts(va[k], st[1] + 1, 4)
                k += 1
                continue
            if blank():
                return n or -1
            it = items[st[1]]
            if it[0] == "txt":
                if it[1][0] in "+-.0123456789inIN":
                    raise Unsupported("scanf of text " + it[1])
                return n
            if k >= len(va):
                raise Unsupported("scanf with too few arguments")
            if ln == "Z" and c == "d" and it[0] in ("int", "mpz"):
                self.zw(va[k], it[1] if it[0] == "mpz" else self.ipoly(it[1]))
            elif ln in ("l", "ll", "j", "z", "t") and c in "di" and it[0] == "int":
                self.sts(va[k], it[1], 8)
            elif ln == "l" and c in "fgeFGE" and it[0] == "dbl":
                self.sts(va[k], it[1], 8)
            else:
                raise Unsupported("scanf of %s with %s" % (it[0], t))
            n += 1
            k += 1
            st[1] += 1
            if st[1] == len(items):
                st[2] = True
        return n

    def x___isoc99_fscanf(self, f, fmt, *va):
        return self.scan(f, self.cstr(fmt), va)

    x_fscanf = x___isoc23_fscanf = x___isoc99_fscanf

    def x___gmp_vfscanf(self, f, fmt, va):
        return self.scan(f, self.cstr(fmt), va[0].text or ())

    def x___gmp_fscanf(self, f, fmt, *va):
        return self.scan(f, self.cstr(fmt), va)

    def x_v_pr_reset(self):
        self.prints = [0, [], ""]

    def x_v_pr_calls(self):
        return self.prints[0]

    def x_v_pr_n(self):
        return len(self.prints[1])

    def x_v_pr_has(self, t):
        return self.cstr(t) in self.prints[2]

    def printed(self, k, kinds):
        k = self.cint(k)
        if not 0 <= k < len(self.prints[1]):
            return None
        x = self.prints[1][k]
        return x if x[0] in kinds else None

    def pr_same(self, a, b):
        """a == b for (num, den) pairs"""
        n = a[0].mul(b[1]).sub(b[0].mul(a[1]))
        n = self.norm(n)
        return n.const_value() == 0 if n.is_const() else SB("==", (n,))

    def x_v_pr_int(self, k, x):
        v = self.printed(k, "iz")
        if v is None:
            return False
        if v[0] == "z":
            return self.pr_same((v[1], Poly.const(1)), (self.ipoly(x), Poly.const(1)))
        return v[1] == x

    def x_v_pr_dbl(self, k, x):
        v = self.printed(k, "d")
        if v is None:
            return False
        if v[1].__class__ is float and v[1] != v[1]:
            return x.__class__ is float and x != x
        return self.fcmp("oeq", v[1], x)

    def x_v_pr_mpz(self, k, x):
        v = self.printed(k, "z")
        return False if v is None else self.pr_same((v[1], Poly.const(1)), (self.zr(x), Poly.const(1)))

    def x_v_pr_mpq(self, k, x):
        v = self.printed(k, "q")
        return False if v is None else self.pr_same(v[1], self.qr(x))

    def x_v_pr_mpfr(self, k, x):
        v = self.printed(k, "f")
        if v is None:
            return False
        a, b = v[1], self.fr(x)
        if a.kind != "num" or b.kind != "num":
            return a.kind == b.kind and (a.kind != "inf" or a.n == b.n)
        return self.pr_same((a.n, a.d), (b.n, b.d))

    def x_qsort(self, base, n, sz, cmp):
        n, sz = self.cint(n), self.cint(sz)
        if n <= 1:
            return
        o, off = self._chk(base, n * sz, "write")
        w = 8 if sz % 8 == 0 else 4 if sz % 4 == 0 else 1
        ty = "i%d" % (8 * w)
        items = [[self.lds((o, off + k * sz + t), w, ty) for t in range(0, sz, w)] for k in range(n)]
        ta = self.new_obj(sz, "stack")
        tb = self.new_obj(sz, "stack")

        def put(ob, it):
            for t, v in enumerate(it):
                self.sts((ob, t * w), v, w)
        out = []
        for v in items:
            j = len(out)
            while j > 0:
                put(ta, out[j - 1])
                put(tb, v)
                r = self.callptr(cmp, (ta, 0), (tb, 0))
                c = r > 0
                if c.__class__ is SB:
                    c = self.br(c)
                if not c:
                    break
                j -= 1
            out.insert(j, v)
        for k, v in enumerate(out):
            for t, x in enumerate(v):
                self.sts((o, off + k * sz + t * w), x, w)

    def x_strlen(self, p):
        n = 0
        while True:
            b = self.lds((p[0], p[1] + n), 1, "i8")
            if b == 0:
                return n
            n += 1

    # ------------------------------------------------------------ variables
    def vname(self, k):
        return self.vars[k].name

    def fresh(self, name, sort, lo, hi, fn=None, samples=None):
        """new variable; fn(ev) defines its value on samples (derived) """
        k = len(self.vars)
        v = Var()
        v.name = "%s_%d" % (name, k)
        v.sort, v.lo, v.hi = sort, lo, hi
        v.fn = fn
        v.inp = fn is None
        v.z = v.zr = None
        v.ex = self
        v._arr = None
        if fn is None:
            key = (name, k, sort, lo, hi)
            arr = self.samplecache.get(key)
            if arr is None:
                if len(self.samplecache) > 3000:
                    self.samplecache.clear()
                arr = self.samplecache[key] = self.gen_samples(name, k, sort, lo, hi)
            v._arr = arr.copy()
        self.vars.append(v)
        return k

    def gen_samples(self, name, k, sort, lo, hi):
        rng = random.Random("%s/%s/%d/%s" % (self.seed, name, k, sort))
        arr = np.empty(K, dtype=object)
        L = lo if lo is not None else None
        H = hi if hi is not None else None
        if sort == "real":
            pool = [0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.0, -2.0, 3.0, 0.1, -0.1, 1e10, -1e10,
                    9007199254740993.0, 2.0 ** 62, 2.0 ** 63, -2.0 ** 63, 2.0 ** 64, -2.0 ** 64,
                    9223372036854774784.0, 1e-5, 1e300, -1e300, 0.25, 7.75, 123456.789]
            for r in range(K):
                x = pool[rng.randrange(len(pool))] if rng.random() < 0.5 else \
                    (rng.randint(-9, 9) if rng.random() < 0.6 else rng.uniform(-100, 100))
                x = Fraction(float(x))
                if L is not None and x < L:
                    x = Fraction(L)
                if H is not None and x > H:
                    x = Fraction(H)
                arr[r] = x
            return arr
        small = None
        if L is not None and H is not None and H - L <= 40:
            small = (L, H)
        a = max(L, -5) if L is not None else -5
        b = min(H, 5) if H is not None else 5
        bnd = []
        for x in (L, H):
            if x is not None:
                bnd += [x, x + 1, x - 1]
        bnd += [1 << 53, (1 << 53) + 1, 1 << 31, -(1 << 31), (1 << 62), 1 << 32, 3037000500]
        bnd = [x for x in bnd if (L is None or x >= L) and (H is None or x <= H)]
        for r in range(K):
            if small:
                arr[r] = rng.randint(*small)
                continue
            t = rng.random()
            if a > b or (t < 0.12 and L is not None and H is not None):
                arr[r] = rng.choice(bnd) if bnd else (L if L is not None else H)
            elif t < 0.22:
                aa = max(L, -99) if L is not None else -99
                bb = min(H, 99) if H is not None else 99
                arr[r] = rng.randint(aa, bb) if aa <= bb else rng.choice(bnd)
            else:
                x = rng.randint(a, b)
                if x == 0 and rng.random() < 0.5:
                    x = rng.randint(a, b)
                arr[r] = x
        return arr

    def eval_row(self, p, r):
        vs = self.vars
        return p.eval(lambda k: vs[k].arr[r])

    def eval_dict(self, p, row):
        return p.eval(lambda k: row[k])

    def eval_alive(self, p):
        """values of p on the alive samples (object array)"""
        idx = self.alive_idx()
        vs = self.vars
        r = p.eval(lambda k: vs[k].arr[idx])
        return r, idx

    def alive_idx(self):
        return np.nonzero(self.alive)[0]

    def signs(self, fs):
        while True:
            r = self._signs(fs)
            if not self.kills:
                return r
            self.alive[self.kills] = False
            self.kills = []

    def _signs(self, fs):
        idx = self.alive_idx()
        if not len(idx):
            s = np.zeros(0, dtype=int)
        else:
            vs = self.vars
            s = np.ones(len(idx), dtype=int)
            for f in fs:
                v = f.eval(lambda k: vs[k].arr[idx])
                if isinstance(v, np.ndarray):
                    s = s * ((v > 0).astype(int) - (v < 0).astype(int))
                else:
                    s = s * sgn(v)
        ex = []
        bad = []
        for row in self.extra:
            t = 1
            try:
                for f in fs:
                    t *= sgn(self.eval_dict(f, row))
            except Exception:
                bad.append(row)
                t = 0
            ex.append(t)
        if bad:
            self.extra = [r for r in self.extra if not any(r is q for q in bad)]
            return self._signs(fs)
        return s, idx, ex

    # ------------------------------------------------------------ norm
    def norm(self, p):
        if p.is_const():
            return p
        if not self.subst and not self.zero:
            return p
        c = self.normcache.get(p)
        if c is not None:
            return c
        q = p
        if self.subst:
            vs = q.vars()
            for _ in range(64):
                hit = [k for k in vs if k in self.subst]
                if not hit:
                    break
                q = self.substitute(q, hit)
                vs = q.vars()
        if self.zero and not q.is_const():
            q = q.divrem(self.zero, early=False)[1]
        if len(self.normcache) > 20000:
            self.normcache.clear()
        self.normcache[p] = q
        return q

    def substitute(self, p, ks):
        out = ZERO
        powers = {}
        for m, c in p.t.items():
            rest = m
            term = None
            for k in ks:
                e = (m >> (8 * k)) & 0xFF
                if e:
                    rest -= e << (8 * k)
                    w = powers.get((k, e))
                    if w is None:
                        w = ONE
                        for _ in range(e):
                            w = w.mul(self.subst[k])
                        powers[k, e] = w
                    term = w if term is None else term.mul(w)
            base = Poly({rest: c})
            out = out.add(base if term is None else base.mul(term))
        return out

    def add_zero(self, f):
        """record f == 0 as a rewrite"""
        f = self.norm(f)
        if f.is_const():
            return
        self.normcache = {}
        # linear-solvable variable?
        best = None
        for m, c in f.t.items():
            if m and m & (m - 1) == 0 and (m.bit_length() - 1) % 8 == 0 and c in (1, -1):
                k = (m.bit_length() - 1) // 8
                if any(((mm >> (8 * k)) & 0xFF) for mm in f.t if mm != m):
                    continue
                if best is None or k > best[0]:
                    best = (k, m, c)
        if best:
            k, m, c = best
            rest = Poly({mm: cc for mm, cc in f.t.items() if mm != m})
            e = rest.neg() if c == 1 else rest
            # an int variable may only be replaced by an integer expression
            if self.vars[k].sort == "real" or self.int_poly(e):
                self.subst[k] = e
                # keep earlier substitutions closed
                for kk in list(self.subst):
                    if kk != k and k in self.subst[kk].vars():
                        self.subst[kk] = self.substitute(self.subst[kk], [k])
                if self.zero:
                    z, self.zero = self.zero, []
                    for g in z:
                        self.add_zero(g)
                return
        lm = max(f.t)
        lc = f.t[lm]
        if lc == -1:
            f = f.neg()
            lc = 1
        if lc == 1:
            self.zero.append(f)
        else:
            g = f.content()
            if g > 1:
                self.add_zero(Poly({m: c // g for m, c in f.t.items()}))
            else:
                self.zero.append(f)

    # ------------------------------------------------------------ branching
    def split_factor(self, f):
        """(sign, [irreducible-ish factors]) of a non-constant polynomial:
        content, common monomial and leading sign are taken out"""
        r = self.facache.get(f)
        if r is not None:
            return r
        t = f.t
        out = []
        s = 1
        com = None
        for m in t:
            if com is None:
                com = m
            elif com:
                # fieldwise minimum
                g = 0
                k = 0
                a, b = com, m
                while a and b:
                    e = min(a & 0xFF, b & 0xFF)
                    g |= e << k
                    a >>= 8
                    b >>= 8
                    k += 8
                com = g
            if not com:
                break
        if com:
            k = 0
            mm = com
            while mm:
                e = mm & 0xFF
                if e:
                    if e & 1:
                        out.append(Poly.var(k))
                    else:
                        out += [Poly.var(k), Poly.var(k)]
                mm >>= 8
                k += 1
            t = {m - com: c for m, c in t.items()}
        lm = max(t)
        if t[lm] < 0:
            s = -1
            t = {m: -c for m, c in t.items()}
        if lm or len(t) > 1:
            p = Poly(t)
            g = p.content()
            if g > 1:
                p = Poly({m: c // g for m, c in t.items()})
            out.append(p)
        r = (s, out)
        if len(self.facache) > 20000:
            self.facache.clear()
        self.facache[f] = r
        return r

    def divide_known(self, f, out):
        """take factors known to be nonzero out of f (appended to out)"""
        for g, k in list(self.known.items()):
            if k & 2 or len(g.t) < 2:
                continue
            while len(f.t) > 1:
                q = f.divexact(g)
                if q is None:
                    break
                out.append(g)
                f = q
                if f.is_const():
                    return f
        return f

    def learn(self, f, allowed):
        """record the possible signs (bit 1 neg, 2 zero, 4 pos) of a factor"""
        old = self.known.get(f, 7)
        self.known[f] = old & allowed

    def sgnset(self, f):
        k = self.known.get(f)
        if k is not None:
            return k
        if len(f.t) == 1:
            m = max(f.t)
            if m & (m - 1) == 0:
                v = self.vars[(m.bit_length() - 1) // 8]
                r = 7
                if v.lo is not None and v.lo >= 0:
                    r &= 6 if v.lo == 0 else 4
                if v.hi is not None and v.hi <= 0:
                    r &= 3 if v.hi == 0 else 1
                return r
        return 7

    def never_zero(self, f):
        """no integer values of its variables make f zero (divisibility, or no integer root)"""
        c = f.t.get(0, 0)
        if not c or c.__class__ is not int:
            return False
        g = 0
        for m, k in f.t.items():
            if m:
                if k.__class__ is not int:
                    return False
                g = math.gcd(g, k)
        vs = f.vars()
        if any(self.vars[v].sort != "int" for v in vs):
            return False
        if c % g:
            return True
        if len(vs) > 1 or len(f.t) < 3:
            return False
        c //= g
        if abs(c) > 100000:
            return False
        sh = 8 * vs[0]
        co = [(m >> sh, k // g) for m, k in f.t.items()]
        for d in range(1, abs(c) + 1):
            if d * d > abs(c):
                break
            if c % d == 0:
                for x in (d, -d, c // d, -(c // d)):
                    if sum(k * x ** e for e, k in co) == 0:
                        return False
        return True

    def simp(self, c):
        """normalise an SB; returns bool or SB"""
        fs = []
        s = 1
        for f in c.fs:
            f = self.norm(f)
            if f.is_const():
                s *= sgn(f.const_value())
                if not s:
                    break
            else:
                sf, ff = self.split_factor(f)
                s *= sf
                for g in ff:
                    if len(g.t) > 3 and g not in self.known:
                        g = self.divide_known(g, fs)
                        if g.is_const():
                            s *= sgn(g.const_value())
                            continue
                        sf, gg = self.split_factor(g)
                        s *= sf
                        fs += gg
                    else:
                        fs.append(g)
        if s == 0 or not fs:
            return holds(c.op, s)
        # equal factors pair up; factors of known sign drop out
        if len(fs) > 1:
            cnt = {}
            for f in fs:
                cnt[f] = cnt.get(f, 0) + 1
            fs = []
            for f, e in cnt.items():
                fs += [f] if e & 1 else [f, f]
        nf = []
        seen = set()
        zero_possible = []
        for f in fs:
            k = self.sgnset(f)
            if k == 2:
                return holds(c.op, 0)
            if k == 4:
                continue
            if k == 1:
                s = -s
                continue
            if f in seen:
                if k & 2 == 0:
                    nf.remove(f)      # square of a nonzero factor
                    continue
            seen.add(f)
            nf.append(f)
        if not nf:
            return holds(c.op, s)
        if c.op in ("==", "!="):
            uniq = []
            for f in nf:
                if f not in uniq and self.sgnset(f) & 2 and not self.never_zero(f):
                    uniq.append(f)
            if not uniq:
                return c.op == "!="
            nf = uniq
        fs = nf
        # sign sets
        sets = 2 if False else None
        cur = 4 if s > 0 else 1
        for f in fs:
            k = self.sgnset(f)
            if k == 7:
                cur = None
                break
            n = 0
            for a in (1, 2, 4):
                if cur & a:
                    for b in (1, 2, 4):
                        if k & b:
                            n |= 2 if (a == 2 or b == 2) else (4 if a == b else 1)
            cur = n
        if cur is not None:
            t = {holds(c.op, v) for b, v in ((1, -1), (2, 0), (4, 1)) if cur & b}
            if len(t) == 1:
                return t.pop()
        op = c.op
        if s < 0:
            op = FLIP[op]
        if len(fs) == 1:
            # single-variable interval check
            f = fs[0]
            vs = f.vars()
            if len(vs) == 1 and f.degree() == 1:
                v = self.vars[vs[0]]
                if v.lo is not None and v.hi is not None:
                    a = f.t.get(1 << (8 * vs[0]), 0)
                    b = f.t.get(0, 0)
                    lo, hi = sorted((a * v.lo + b, a * v.hi + b))
                    r = cmp_iv(op, lo, hi)
                    if r is not None:
                        return r
        elif op in ("==", "!="):
            pass
        return SB(op, tuple(fs), c.raw)

    def br(self, c):
        if c.__class__ is not SB:
            return bool(c)
        self.stats.branches += 1
        c = self.simp(c)
        if c.__class__ is not SB:
            return c
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.log.append(d)
            self.take(c if d else SB(NEG[c.op], c.fs, c.raw), None)
            return bool(d)
        if self.deadline and time.time() > self.deadline:
            raise Deadline()
        s, idx, ex = self.signs(c.fs)
        t = [holds(c.op, x) for x in s]
        te = [holds(c.op, x) for x in ex]
        anyt = any(t) or any(te)
        anyf = (len(t) and not all(t)) or (len(te) and not all(te))
        dec = None
        if not anyt:
            r = self.feasible(c)
            if r is False:
                dec = 0
        if dec is None and not anyf:
            r = self.feasible(SB(NEG[c.op], c.fs))
            if r is False:
                dec = 1
        if dec is None:
            # both (possibly) feasible: prefer the witnessed side
            if self.rng_first:
                dec = 1 if anyt else 0
            else:
                dec = 0 if anyf else 1
            self.stats.forks += 1
            self.pending.append(self.log + [1 - dec])
        self.log.append(dec)
        self.pos += 1
        self.take(c if dec else SB(NEG[c.op], c.fs, c.raw), None)
        return bool(dec)

    rng_first = True

    def choose(self, n, tag):
        """n-way fork on a concrete choice (an input of the harness)"""
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.log.append(d)
            return d
        if self.deadline and time.time() > self.deadline:
            raise Deadline()
        for d in range(n - 1, 0, -1):
            self.pending.append(self.log + [d])
            self.stats.forks += 1
        self.log.append(0)
        self.pos += 1
        return 0

    def take(self, c, _):
        """assert SB c on the current path"""
        if self.fresh_since_filter():
            pass
        s, idx, ex = self.signs(c.fs)
        if len(idx):
            good = np.array([holds(c.op, x) for x in s], dtype=bool)
            self.alive[idx] = good
        if self.extra:
            self.extra = [r for r, x in zip(self.extra, ex) if holds(c.op, x)]
        self.pc.append(c)
        if len(c.fs) == 1:
            f = self.norm(c.fs[0])
            if not f.is_const():
                sf, ff = self.split_factor(f)
                if len(ff) == 1:
                    al = {"<": 1, "<=": 3, "==": 2, "!=": 5, ">": 4, ">=": 6}[c.op]
                    if sf < 0:
                        al = (al & 2) | (4 if al & 1 else 0) | (1 if al & 4 else 0)
                    self.learn(ff[0], al)
                elif c.op == "!=":
                    for g in ff:
                        self.learn(g, 5)
        elif c.op == "!=":
            for f in c.fs:
                f = self.norm(f)
                if not f.is_const():
                    for g in self.split_factor(f)[1]:
                        self.learn(g, 5)
        if c.op == "==":
            if len(c.fs) == 1:
                self.add_zero(c.fs[0])
                self.renorm_known()

    def renorm_known(self):
        """facts about factors carry over to their reduced forms"""
        for f, k in list(self.known.items()):
            g = self.norm(f)
            if g is f or g.is_const() or g == f:
                continue
            sf, ff = self.split_factor(g)
            if sf < 0:
                k = (k & 2) | (4 if k & 1 else 0) | (1 if k & 4 else 0)
            if len(ff) == 1:
                self.learn(ff[0], k)
            elif k & 2 == 0:
                for h in ff:
                    self.learn(h, 5)

    def fresh_since_filter(self):
        return False

    def assume_def(self, c):
        """definitional constraint on a fresh variable (true by construction)"""
        c = self.simp(c)
        if c.__class__ is SB:
            self.take(c, None)

    def zdef(self, f):
        self.defs.append(f)

    def assume(self, c):
        if c.__class__ is SB:
            c = self.simp(c)
        if c.__class__ is not SB:
            if not c:
                raise PathEnd()
            return
        s, idx, ex = self.signs(c.fs)
        if not any(holds(c.op, x) for x in s) and not any(holds(c.op, x) for x in ex):
            if self.pos >= len(self.prefix) and self.feasible(c) is False:
                raise PathEnd()
        self.take(c, None)

    def concretize(self, a):
        """case split on the value of a symbolic integer"""
        if a.__class__ is int:
            return a
        if a.__class__ is bool:
            return int(a)
        if a is UNDEF:
            UNDEF._bad()
        if a.__class__ is not SI:
            return self.cint(a)
        for _ in range(4096):
            p = self.norm(a.p)
            if p.is_const():
                return p.const_value()
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos]
                self.pos += 1
                self.log.append(v)
            else:
                v = self.pick(p)
                if v is None:
                    raise PathEnd()
                self.log.append(v)
                self.pos += 1
            if self.br(SB("==", (p.sub(Poly.const(v)),))):
                return v
        raise Unsupported("too many values to case split")

    def pick(self, p):
        idx = self.alive_idx()
        if len(idx):
            v = self.eval_row(p, idx[0])
            return int(v)
        for row in self.extra:
            return int(self.eval_dict(p, row))
        r, m = self.solve([])
        if r == "unsat":
            return None
        if m is None:
            raise Unsupported("cannot pick a value (solver: %s)" % r)
        self.extra.append(m)
        return int(self.eval_dict(p, m))

    # ------------------------------------------------------------ solver
    def feasible(self, c):
        """is PC and c satisfiable?  True/False/None(unknown)"""
        self.spare = []
        r, m = self.solve([c], timeout=self.branch_timeout)
        if r == "unsat":
            return False
        if m is not None:
            self.extra.append(m)
            self.extra.extend(self.spare)
            return True
        return None

    branch_timeout = 400
    slow = None
    dbgq = False

    def zvar(self, k, real):
        v = self.vars[k]
        if real or v.sort == "real":
            if v.zr is None:
                v.zr = z3.Real(v.name + "r")
            return v.zr
        if v.z is None:
            v.z = z3.Int(v.name)
        return v.z

    def zpoly(self, p, real):
        terms = []
        for m, c in p.t.items():
            fs = []
            k = 0
            while m:
                e = m & 0xFF
                if e:
                    fs += [self.zvar(k, real)] * e
                m >>= 8
                k += 1
            if isinstance(c, Fraction):
                if c.denominator == 1:
                    c = c.numerator
                    cc = z3.RealVal(c) if real else z3.IntVal(c)
                else:
                    cc = z3.RealVal(str(c))
            else:
                cc = z3.RealVal(c) if real else z3.IntVal(c)
            if not fs:
                terms.append(cc)
                continue
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            if c != 1:
                t = cc * t
            terms.append(t)
        if not terms:
            return z3.RealVal(0) if real else z3.IntVal(0)
        r = terms[0]
        for t in terms[1:]:
            r = r + t
        return r

    def zatom(self, c, real):
        op = c.op
        fs = [self.zpoly(f, real) for f in c.fs]
        if op in ("==", "!=") and len(fs) > 1:
            e = z3.Or(*[f == 0 for f in fs])
            return e if op == "==" else z3.Not(e)
        x = fs[0]
        for f in fs[1:]:
            x = x * f
        if op == "==":
            return x == 0
        if op == "!=":
            return x != 0
        if op == "<":
            return x < 0
        if op == "<=":
            return x <= 0
        if op == ">":
            return x > 0
        return x >= 0

    def slice(self, atoms):
        """PC atoms connected to the given ones"""
        want = set()
        for a in atoms:
            for f in a.fs:
                want.update(f.vars())
        info = [(set(v for f in a.fs for v in f.vars()), a) for a in self.pc]
        if not atoms:
            return [a for a in self.pc]
        out = []
        used = [False] * len(info)
        ch = True
        while ch:
            ch = False
            for i, (vs, a) in enumerate(info):
                if not used[i] and vs & want:
                    used[i] = True
                    want |= vs
                    out.append(a)
                    ch = True
        return out

    def solve(self, atoms, want_model=True, timeout=None):
        """('sat'|'unsat'|'unknown', model row or None)"""
        t0 = time.time()
        try:
            return self._solve(atoms, want_model, timeout or self.query_timeout)
        finally:
            self.stats.solver_calls += 1
            dt = time.time() - t0
            self.stats.solver_time += dt
            if self.slow is not None and dt > 0.4:
                self.slow.append((dt, [a.show(self) for a in atoms], [a.show(self) for a in self.pc]))

    def _solve(self, atoms, want_model, timeout):
        use = self.slice(atoms) if atoms and not self.defs else list(self.pc)
        allat = use + list(atoms)
        vs = set()
        deg = 0
        real = False
        for a in allat:
            d = 0
            for f in a.fs:
                vs.update(f.vars())
                d += f.degree()
            deg = max(deg, d)
        if self.defs:
            vs = set(range(len(self.vars)))
        anyreal = any(self.vars[k].sort == "real" for k in vs)

        def build(s, real):
            for a in allat:
                s.add(self.zatom(a, real))
            for k in vs:
                v = self.vars[k]
                z = self.zvar(k, real)
                if v.lo is not None:
                    s.add(z >= v.lo)
                if v.hi is not None:
                    s.add(z <= v.hi)
            for f in self.defs:
                s.add(f(lambda p: self.zpoly(p, real)))
            if self.truncs:
                trunc_lemmas(s, real)

        if self.truncs:
            lems = []
            for a in allat:
                if len(a.fs) != 1:
                    continue
                f = a.fs[0]
                v = f.vars()
                if len(v) != 1 or v[0] not in self.truncs or f.degree() != 1:
                    continue
                c1 = f.t[max(f.t)]
                c0 = f.t.get(0, 0)
                if abs(c1) != 1:
                    continue
                t = -c0 * c1
                lems.append((v[0],) + self.truncs[v[0]] + (t,))
                vs.update(self.truncs[v[0]][0].vars())
                vs.update(self.truncs[v[0]][1].vars())

        def trunc_lemmas(s, real):
            for v, n, d, t0 in lems:
                Q = self.zvar(v, real)
                zn, zd = self.zpoly(n, real), self.zpoly(d, real)
                for t in (t0 - 1, t0, t0 + 1):
                    if t >= 1:
                        s.add((Q >= t) == (zn >= t * zd))
                        s.add((Q <= t - 1) == (zn < t * zd))
                    if t <= -1:
                        s.add((Q <= t) == (zn <= t * zd))
                        s.add((Q >= t + 1) == (zn > t * zd))

        linear = deg <= 1 and not self.defs
        if linear:
            s = z3.Solver()
            s.set("timeout", timeout)
            build(s, False)
            r = s.check()
            if r == z3.unsat:
                self.stats.unsat += 1
                return "unsat", None
            if r == z3.sat:
                self.stats.sat += 1
                return "sat", self.model_row(s.model(), vs, False)
            self.stats.unknown += 1
            return "unknown", None
        if not anyreal and self.no_int_solution(allat):
            self.stats.unsat += 1
            return "unsat", None
        if not anyreal:
            q, m = self.one_variable(allat, vs)
            if q == "unsat" or m is not None:
                setattr(self.stats, q, getattr(self.stats, q) + 1)
                return q, m
        # a model by vectorised sampling first, then the solver
        if want_model:
            m = self.batch_model(allat)
            if m is not None:
                self.stats.sat += 1
                return "sat", m
        if self.truncs and lems and not anyreal and self.linear_unsat(allat, lems):
            self.stats.unsat += 1
            return "unsat", None
        s = z3.SolverFor("QF_NRA") if not self.defs else z3.Solver()
        s.set("timeout", timeout)
        build(s, True)
        r = s.check()
        if r == z3.unsat:
            self.stats.unsat += 1
            return "unsat", None
        if r == z3.sat:
            m = self.model_row(s.model(), vs, True)
            if m is not None:
                self.stats.sat += 1
                return "sat", m
        if not anyreal and self.linear_unsat(allat):
            self.stats.unsat += 1
            return "unsat", None
        if want_model:
            for bound in (3, 12) if deg > 1 else (None,):
                s = z3.Solver()
                s.set("timeout", timeout)
                build(s, False)
                for k in vs:
                    if bound and self.vars[k].sort == "int" and self.vars[k].inp:
                        z = self.zvar(k, False)
                        s.add(z >= -bound, z <= bound)
                q = s.check()
                if q == z3.sat:
                    m = self.model_row(s.model(), vs, False)
                    if m is not None:
                        self.stats.sat += 1
                        return "sat", m
                if q == z3.unsat and bound is None:
                    self.stats.unsat += 1
                    return "unsat", None
                if q == z3.unknown:
                    break
            m = self.random_model(allat, vs, 300)
            if m is not None:
                self.stats.sat += 1
                return "sat", m
        self.stats.unknown += 1
        return ("sat?" if r == z3.sat else "unknown"), None

    def one_variable(self, atoms, vs):
        """decide the conditions which constrain one integer variable each: the sign of a polynomial over the
        integers only changes at finitely many places, found exactly.  A variable with few possible values is
        replaced by each of them in the other conditions.  ("unsat", None), ("sat", row) or ("", None)"""
        polys = []
        for a in atoms:
            fs = []
            for f in a.fs:
                den = 1
                for c in f.t.values():
                    if c.__class__ is Fraction:
                        den = den * c.denominator // math.gcd(den, c.denominator)
                fs.append({m: int(c * den) for m, c in f.t.items()})
            polys.append((a.op, fs))
        self.one_work = 4000
        q, vals = self.one_decide(polys, {})
        if q == "unsat":
            return q, None
        if q == "":
            return "", None
        if self.defs or self.filters or any(self.vars[k].fn is not None for k in vs):
            return "", None
        idx = self.alive_idx()
        row = Row()
        row.ex = self
        for k, v in enumerate(self.vars):
            if v.fn is not None:
                continue
            if k in vals:
                row[k] = vals[k]
            elif len(idx):
                row[k] = v.arr[idx[0]]
            elif self.extra:
                row[k] = self.extra[0][k]
            else:
                row[k] = v.arr[0]
        try:
            if self.row_ok(row, list(self.pc) + list(atoms)):
                return "sat", row
        except Exception:
            pass
        return "", None

    def one_decide(self, polys, vals):
        per = {}
        multi = []
        for op, fs in polys:
            sg = 1
            ks = set()
            gs = []
            for f in fs:
                if not f or len(f) == 1 and 0 in f:
                    sg *= sgn(f.get(0, 0))
                    continue
                for m in f:
                    k = 0
                    while m:
                        if m & 255:
                            ks.add(k)
                        m >>= 8
                        k += 1
                gs.append(f)
            if not gs or not sg:
                if not holds(op, sg):
                    return "unsat", None
                continue
            if sg < 0:
                gs[0] = {m: -c for m, c in gs[0].items()}
            if len(ks) == 1:
                per.setdefault(ks.pop(), []).append((op, gs))
                continue
            if op == "==" and len(gs) == 1 and 0 in gs[0]:
                g = 0
                for m, c in gs[0].items():
                    if m:
                        g = math.gcd(g, c)
                if gs[0][0] % g:
                    return "unsat", None
            multi.append((op, gs))
        few = None
        for k, at in per.items():
            v = self.vars[k]
            if v.sort != "int":
                return "", None
            cuts = {0}
            ps = []
            n = 0
            for op, fs in at:
                cs = []
                for f in fs:
                    co = [0] * (1 + max(m >> 8 * k for m in f))
                    for m, c in f.items():
                        co[m >> 8 * k] = c
                    cs.append(co)
                    n += 1
                    if len(co) > 12 or n > 200:
                        return "", None
                    for c in int_sign_cuts(co):
                        cuts.update((c - 1, c, c + 1))
                ps.append((op, cs))
            if v.lo is not None:
                cuts.add(math.ceil(v.lo))
            if v.hi is not None:
                cuts.add(math.floor(v.hi))
            every = multi and any(op == "==" for op, _ in ps)
            good = []
            for x in sorted(cuts, key=abs):
                if v.lo is not None and x < v.lo or v.hi is not None and x > v.hi:
                    continue
                for op, cs in ps:
                    t = 1
                    for co in cs:
                        t *= sgn(horner(co, x))
                        if not t:
                            break
                    if not holds(op, t):
                        break
                else:
                    good.append(x)
                    if not every:
                        break
            if not good:
                return "unsat", None
            vals[k] = good[0]
            if every and (few is None or len(good) < len(few[1])):
                few = k, good
        if not multi:
            return "sat", vals
        if few is None or len(few[1]) > 6:
            return "", None
        k, good = few
        base = [(op, gs) for q, at in per.items() if q != k for op, gs in at]
        unknown = False
        for x in good:
            self.one_work -= len(multi)
            if self.one_work < 0:
                return "", None
            nv = dict(vals)
            nv[k] = x
            r, m = self.one_decide(base + [(op, [put_value(f, k, x) for f in gs]) for op, gs in multi], nv)
            if r == "sat":
                return r, m
            unknown = unknown or r != "unsat"
        return ("" if unknown else "unsat"), None

    def no_int_solution(self, atoms):
        """an equality over integers whose coefficients' gcd does not divide its constant"""
        for a in atoms:
            if a.op != "==":
                continue
            for f in a.fs:
                c0 = f.t.get(0, 0)
                if not c0 or any(isinstance(c, Fraction) for c in f.t.values()):
                    break
                g = 0
                for m, c in f.t.items():
                    if m:
                        g = math.gcd(g, c)
                if g <= 1 or c0 % g == 0:
                    break
            else:
                return True
        return False

    def linear_unsat(self, atoms, lems=()):
        """integer infeasibility with every monomial taken as a variable of its own"""
        s = z3.Solver()
        s.set("timeout", 400)
        mv = {}

        def lin(f):
            t = []
            for m, c in f.t.items():
                if isinstance(c, Fraction):
                    return None
                if m == 0:
                    t.append(z3.IntVal(c))
                    continue
                x = mv.get(m)
                if x is None:
                    x = mv[m] = z3.Int("m%x" % m)
                t.append(c * x)
            return z3.Sum(t) if t else z3.IntVal(0)
        for a in atoms:
            es = [lin(f) for f in a.fs]
            if any(e is None for e in es):
                continue
            if a.op == "==":
                s.add(z3.Or(*[e == 0 for e in es]))
            elif a.op == "!=":
                s.add(z3.And(*[e != 0 for e in es]))
            elif len(es) == 1:
                e = es[0]
                s.add({"<": e < 0, "<=": e <= 0, ">": e > 0, ">=": e >= 0}[a.op])
        for v, n, d, t0 in lems:
            Q, zn, zd = lin(Poly.var(v)), lin(n), lin(d)
            if zn is None or zd is None:
                continue
            for t in (t0 - 1, t0, t0 + 1):
                if t >= 1:
                    s.add((Q >= t) == (zn >= t * zd), (Q <= t - 1) == (zn < t * zd))
                if t <= -1:
                    s.add((Q <= t) == (zn <= t * zd), (Q >= t + 1) == (zn > t * zd))
        for m, x in mv.items():
            k = 0
            mm = m
            even = True
            while mm:
                if mm & 0xFF & 1:
                    even = False
                mm >>= 8
            if even:
                s.add(x >= 0)
            if m & (m - 1) == 0 and (m.bit_length() - 1) % 8 == 0:
                v = self.vars[(m.bit_length() - 1) // 8]
                if v.lo is not None:
                    s.add(x >= math.ceil(v.lo))
                if v.hi is not None:
                    s.add(x <= math.floor(v.hi))
        return s.check() == z3.unsat

    def batch_model(self, atoms, N=3000):
        """rows of PC + atoms found by vectorised sampling of small values"""
        try:
            return self._batch_model(atoms, N)
        except OverflowError:      # a value past the machine integers of the vectors: no row from here
            return None

    def _batch_model(self, atoms, N):
        at = list(self.pc) + [a for a in atoms if not any(a is q for q in self.pc)]
        seed = "%s/%d/%d/%s" % (self.seed, len(self.log), len(self.vars), len(self.pc))
        rng = np.random.default_rng(abs(hash(seed)) if False else int.from_bytes(seed.encode()[-7:], "little"))
        need = set()
        for a in at:
            for f in a.fs:
                need.update(f.vars())
        derived = set(k for k in need if self.vars[k].fn is not None)
        # close derived variables over what they are evaluated from: checked per row
        sub = {}
        for k, e in self.subst.items():
            if self.vars[k].fn is None and all(self.vars[q].fn is None for q in e.vars()):
                sub[k] = e
        base = [k for k, v in enumerate(self.vars) if v.fn is None and k not in sub]
        first = [a for a in at if not any(self.vars[k].fn is not None for f in a.fs for k in f.vars())]
        best = None
        big = any(c.__class__ is Fraction or abs(c) >> 40 for a in at for f in a.fs for c in f.t.values()) or any(
            c.__class__ is not Fraction and abs(c) >> 40 for e in sub.values() for c in e.t.values())
        for rng_hi in (2, 5, 1, 40):
            cols = {}
            ok = np.ones(N, dtype=bool)
            for k in base:
                v = self.vars[k]
                lo = -rng_hi if v.lo is None else max(-rng_hi, math.ceil(v.lo))
                hi = rng_hi if v.hi is None else min(rng_hi, math.floor(v.hi))
                if lo > hi:
                    lo = hi = int(v.lo if v.lo is not None and v.lo > 0 else v.hi)
                    if abs(lo) > 1 << 20:
                        cols = None
                        break
                cols[k] = rng.integers(lo, hi + 1, N)
                if big:
                    cols[k] = cols[k].astype(object)
            if cols is None:
                break
            bigs = False
            for k, e in sub.items():
                try:
                    x = e.eval(lambda q: cols[q])
                except KeyError:
                    bigs = True
                    break
                if not isinstance(x, np.ndarray):
                    x = np.full(N, x)
                if x.dtype == object:
                    if self.vars[k].sort == "int":
                        ok &= np.array([getattr(t, "denominator", 1) == 1 for t in x])
                        x = np.array([int(t) for t in x], dtype=object if big else None)
                    else:
                        bigs = True
                        break
                v = self.vars[k]
                if v.lo is not None:
                    ok &= x >= v.lo
                if v.hi is not None:
                    ok &= x <= v.hi
                cols[k] = x
            if bigs:
                break
            for a in first:
                t = None
                for f in a.fs:
                    x = f.eval(lambda q: cols[q])
                    x = np.sign(x) if isinstance(x, np.ndarray) else sgn(x)
                    if isinstance(x, np.ndarray) and x.dtype == object:
                        x = x.astype(int)
                    t = x if t is None else t * x
                g = holds(a.op, t)
                if isinstance(g, np.ndarray):
                    ok &= g
                elif not g:
                    ok[:] = False
                if not ok.any():
                    break
            for r in np.nonzero(ok)[0][:40 if derived or self.filters else 8]:
                row = Row()
                row.ex = self
                for k in cols:
                    row[k] = int(cols[k][r])
                try:
                    if self.row_ok(row, at):
                        if best is None:
                            best = row
                        else:
                            self.spare.append(row)
                except Exception:
                    pass
                if best is not None and len(self.spare) >= 5:
                    break
            if best is not None:
                return best
        return None

    def random_model(self, atoms, vs, tries=1500):
        """directed random search for an integer model of all of PC + atoms"""
        rng = random.Random("%s/%d/%d" % (self.seed, len(self.log), len(self.vars)))
        at = list(self.pc) + [a for a in atoms if a not in self.pc]
        for _ in range(tries):
            row = Row()
            row.ex = self
            ok = True
            try:
                for k, v in enumerate(self.vars):
                    if v.fn is not None:
                        continue
                    if k in self.subst and all(q in row for q in self.subst[k].vars()):
                        row[k] = self.eval_dict(self.subst[k], row)
                        if v.sort == "int" and isinstance(row[k], Fraction):
                            ok = False
                            break
                    elif v.sort == "real":
                        row[k] = v.arr[rng.randrange(K)]
                    else:
                        row[k] = v.arr[rng.randrange(K)] if rng.random() < .5 else self.small(rng, v)
                # substituted variables that refer to later ones
                if ok and self.row_ok(row, at):
                    return row
            except (ZeroDivisionError, ValueError, TypeError):
                continue
        return None

    def small(self, rng, v):
        lo = -3 if v.lo is None else max(v.lo, -3)
        hi = 3 if v.hi is None else min(v.hi, 3)
        if lo > hi:
            return v.arr[rng.randrange(K)]
        return rng.randint(lo, hi)

    def row_ok(self, row, atoms):
        for k, v in enumerate(self.vars):
            if v.fn is not None and k not in row:
                continue
            x = row[k]
            if v.lo is not None and x < v.lo or v.hi is not None and x > v.hi:
                return False
        for a in atoms:
            t = 1
            for f in a.fs:
                t *= sgn(self.eval_dict(f, row))
            if not holds(a.op, t):
                return False
        for ks, fn in self.filters:
            if not fn([row[k] for k in ks]):
                return False
        return True

    def model_row(self, m, vs, real):
        """turn a z3 model into a full sample row, re-validated by evaluation"""
        row = Row()
        row.ex = self
        idx = self.alive_idx()
        base = idx[0] if len(idx) else None
        for k, v in enumerate(self.vars):
            if k in vs and v.fn is None:
                z = m.eval(self.zvar(k, real), model_completion=True)
                if z3.is_int_value(z):
                    x = z.as_long()
                elif z3.is_rational_value(z):
                    x = Fraction(z.numerator_as_long(), z.denominator_as_long())
                    if x.denominator == 1 and v.sort == "int":
                        x = int(x)
                elif z3.is_algebraic_value(z):
                    a = z.approx(20)
                    x = Fraction(a.numerator_as_long(), a.denominator_as_long())
                else:
                    return None
                if v.sort == "int" and isinstance(x, Fraction):
                    return None
                if v.sort == "real":
                    x = Fraction(float(x))
                row[k] = x
            elif v.fn is not None:
                continue
            elif base is not None:
                row[k] = v.arr[base]
            elif self.extra:
                row[k] = self.extra[0][k]
            else:
                row[k] = v.arr[0]
        try:
            ok = self.row_ok(row, self.pc)
        except Exception:
            ok = False
        return row if ok else self.repair(row)

    def repair(self, row):
        return None

    def witness(self):
        """a concrete assignment satisfying the path condition, or None"""
        idx = self.alive_idx()
        for r in idx[:64]:
            row = Row()
            row.ex = self
            for k, v in enumerate(self.vars):
                if v.fn is None:
                    row[k] = v.arr[r]
            try:
                if self.row_ok(row, self.pc):
                    return row
            except Exception:
                pass
        for row in self.extra:
            try:
                if self.row_ok(row, self.pc):
                    return row
            except Exception:
                pass
        r, m = self.solve([], timeout=8000)
        return m

    # ------------------------------------------------------------ assertions
    def require(self, c, kind, msg):
        """safety obligation: c must hold here"""
        self.stats.obligations += 1
        if c.__class__ is SB:
            c = self.simp(c)
        if c.__class__ is not SB:
            if not c:
                raise Violation(kind, msg)
            return
        if self.pos < len(self.prefix):
            # already examined on the path that spawned this prefix
            self.take(c, None)
            return
        n = SB(NEG[c.op], c.fs)
        s, idx, ex = self.signs(c.fs)
        bad = any(holds(n.op, x) for x in s) or any(holds(n.op, x) for x in ex)
        if not bad:
            r, m = self.solve([n])
            if m is not None:
                self.extra.append(m)
                bad = True
            elif r != "unsat":
                self.stats.undecided += 1
        if bad:
            self.fork_violation(n, kind, msg)
        self.take(c, None)

    def fork_violation(self, n, kind, msg):
        """record a counterexample where n holds, and go on with its negation"""
        save = (self.alive.copy(), list(self.extra), len(self.pc), self.zero[:], dict(self.subst))
        sknown = dict(self.known)
        self.take(n, None)
        w = self.witness()
        self.report(kind, msg, w)
        self.alive, self.extra, npc, self.zero, self.subst = save
        del self.pc[npc:]
        self.known = sknown
        self.normcache = {}

    def report(self, kind, msg, w):
        self.found.append(dict(kind=kind, msg=msg, inputs=self.render_inputs(w) if w is not None else None,
                               notes=list(self.notes), fault=getattr(self, "fault_at", None) if self.fault else None,
                               pc=[c.show(self)[:200] for c in self.pc[-12:]]))

    def render_inputs(self, w):
        out = []
        for name, kind, payload in self.inputs:
            if kind == "c":
                out.append((name, "i", str(payload)))
            elif kind == "i":
                v = self.eval_dict(payload, w)
                out.append((name, "i", str(int(v))))
            elif kind == "d":
                if payload.__class__ is float:
                    f = payload
                else:
                    f = float(self.eval_dict(payload, w))
                out.append((name, "d", f.hex() if f == f and f not in (INF, -INF) else repr(f)))
        return out

    def check(self, c, msg, kind="property"):
        self.stats.checks += 1
        raw = c
        if c.__class__ is SB:
            c = self.simp(c)
        if c.__class__ is not SB:
            if not c:
                raise Violation(kind, msg)
            self.stats.discharged += 1
            if raw.__class__ is SB:
                self.confirm_z3(raw)
            return
        n = SB(NEG[c.op], c.fs)
        s, idx, ex = self.signs(c.fs)
        bad = any(holds(n.op, x) for x in s) or any(holds(n.op, x) for x in ex)
        if not bad:
            r, m = self.solve([n], timeout=3 * self.query_timeout)
            if r == "unsat":
                self.stats.discharged += 1
            elif m is not None:
                self.extra.append(m)
                bad = True
            else:
                self.stats.undecided += 1
                self.notes_undecided.append(msg)
        if bad:
            self.fork_violation(n, kind, msg)
        self.take(c, None)

    def confirm_z3(self, c):
        """let the solver confirm an identity that the normal form settled"""
        if c.op != "==" or c.raw is None:
            return
        key = (c.raw[0], c.raw[1])
        if key in self.confirmed:
            return
        if len(self.confirmed) > 4000:
            return
        self.confirmed.add(key)
        a, b = c.raw
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", 2000)
        s.add(self.zpoly(a, False) != self.zpoly(b, False))
        for k, e in self.subst.items():
            s.add(self.zvar(k, False) == self.zpoly(e, False))
        for f in self.zero:
            s.add(self.zpoly(f, False) == 0)
        r = s.check()
        self.stats.solver_calls += 1
        self.stats.solver_time += time.time() - t0
        if r == z3.unsat:
            self.stats.unsat += 1
        elif r == z3.sat:
            self.stats.sat += 1
            self.notes_undecided.append("z3 disagrees with normal form")
        else:
            self.stats.unknown += 1

    # hooks of gmp.py
    def gmp_reset(self):
        pass
