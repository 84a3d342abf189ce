"""LLVM textual IR (clang-18, after mem2reg) -> Python functions.

Each IR function becomes one Python function f(E, args...) that runs over the
values of core.py (concrete ints/floats/pointers or symbolic terms).  The
translation keeps every instruction: no function of the code under test is
summarised here.
"""
import re
import struct as _struct


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types ----
class Ty:
    __slots__ = ("k", "w", "n", "el", "fields", "packed")

    def __init__(self, k, w=0, n=0, el=None, fields=None, packed=False):
        self.k = k
        self.w = w
        self.n = n
        self.el = el
        self.fields = fields
        self.packed = packed

    def __repr__(self):
        return "Ty(%s,%s)" % (self.k, self.w or self.n or self.el)


I1 = Ty("int", 1)
PTR = Ty("ptr")
DBL = Ty("dbl")
VOID = Ty("void")
_INT = {1: I1}


def int_ty(w):
    t = _INT.get(w)
    if t is None:
        t = _INT[w] = Ty("int", w)
    return t


class Module:
    def __init__(self, tag):
        self.tag = tag
        self.types = {}
        self.globals = {}   # name -> dict
        self.funcs = {}     # name -> Func
        self.decls = {}


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []
        self.ret = None
        self.blocks = []    # (label, [instr text])
        self.internal = False
        self.vararg = False
        self.byval = {}


NAME = r'(?:[-a-zA-Z$._0-9]+|"[^"]*")'


class P:
    """cursor over a string"""

    def __init__(self, s, mod):
        self.s = s
        self.i = 0
        self.mod = mod

    def ws(self):
        s = self.s
        while self.i < len(s) and s[self.i] in " \t":
            self.i += 1

    def peek(self, t):
        self.ws()
        return self.s.startswith(t, self.i)

    def eat(self, t):
        self.ws()
        if self.s.startswith(t, self.i):
            self.i += len(t)
            return True
        return False

    def need(self, t):
        if not self.eat(t):
            raise IRError("expected %r at %r" % (t, self.s[self.i:self.i + 60]))

    def word(self):
        self.ws()
        m = re.compile(r"[-a-zA-Z$._0-9]+").match(self.s, self.i)
        if not m:
            return None
        self.i = m.end()
        return m.group()

    def peekword(self):
        j = self.i
        w = self.word()
        self.i = j
        return w

    def name(self):
        self.ws()
        m = re.compile(NAME).match(self.s, self.i)
        if not m:
            raise IRError("name at %r" % self.s[self.i:self.i + 60])
        self.i = m.end()
        return m.group().strip('"')

    def type(self):
        self.ws()
        t = self._type0()
        # function type or old-style pointers
        while True:
            self.ws()
            if self.i < len(self.s) and self.s[self.i] == "*":
                self.i += 1
                t = PTR
                continue
            return t

    def _type0(self):
        s = self.s
        if self.eat("["):
            m = re.compile(r"\s*(\d+)\s*x\s*").match(s, self.i)
            self.i = m.end()
            el = self.type()
            self.need("]")
            return Ty("arr", n=int(m.group(1)), el=el)
        if self.eat("<{"):
            fs = []
            while not self.eat("}>"):
                fs.append(self.type())
                self.eat(",")
            return Ty("struct", fields=fs, packed=True)
        if self.peek("<"):
            raise IRError("vector type unsupported: " + s[self.i:self.i + 40])
        if self.eat("{"):
            fs = []
            while not self.eat("}"):
                fs.append(self.type())
                self.eat(",")
            return Ty("struct", fields=fs)
        if self.eat("%"):
            n = self.name()
            return Ty("named", n=n)
        w = self.word()
        if w is None:
            raise IRError("type at %r" % s[self.i:self.i + 60])
        if w == "ptr":
            if self.peek("addrspace"):
                raise IRError("addrspace")
            return PTR
        if re.fullmatch(r"i\d+", w):
            return int_ty(int(w[1:]))
        if w == "double":
            return DBL
        if w == "void":
            return VOID
        if w in ("float", "x86_fp80", "label", "metadata", "half", "opaque"):
            return Ty(w)
        raise IRError("type word %r" % w)


def SK(t):
    return "i%d" % t.w if t.k == "int" else {"ptr": "p", "dbl": "d"}[t.k]


class Layout:
    def __init__(self, mod):
        self.mod = mod
        self.cache = {}

    def resolve(self, t):
        while t.k == "named":
            t = self.mod.types[t.n]
        return t

    def size_align(self, t):
        key = id(t)
        r = self.cache.get(key)
        if r is not None and r[2] is t:
            return r[0], r[1]
        s, a = self._sa(t)
        self.cache[key] = (s, a, t)
        return s, a

    def _sa(self, t):
        k = t.k
        if k == "int":
            b = 1
            while b * 8 < t.w:
                b *= 2
            return b, min(b, 16)
        if k in ("ptr", "dbl"):
            return 8, 8
        if k == "float":
            return 4, 4
        if k == "x86_fp80":
            return 16, 16
        if k == "arr":
            s, a = self.size_align(t.el)
            return s * t.n, a
        if k == "struct":
            off = 0
            al = 1
            for f in t.fields:
                s, a = self.size_align(f)
                if t.packed:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        if k == "named":
            if self.mod.types[t.n] is None:
                return 1, 1
            return self.size_align(self.mod.types[t.n])
        raise IRError("size of %r" % t)

    def size(self, t):
        return self.size_align(t)[0]

    def members(self, t):
        """(type, offset) of the members of an aggregate"""
        if t.k == "arr":
            s = self.size(t.el)
            return [(t.el, s * k) for k in range(t.n)]
        out = []
        for k in range(len(t.fields)):
            off, f = self.field_off(t, k)
            out.append((f, off))
        return out

    def field_off(self, t, idx):
        off = 0
        for j, f in enumerate(t.fields):
            s, a = self.size_align(f)
            if t.packed:
                a = 1
            off = (off + a - 1) // a * a
            if j == idx:
                return off, f
            off += s
        raise IRError("field")


# --------------------------------------------------------------- parsing ----
def parse_module(text, tag):
    mod = Module(tag)
    lines = text.split("\n")
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        if not ln or ln[0] in ";!" or ln.startswith(("source_filename", "target ", "attributes")):
            i += 1
            continue
        if ln[0] == "%":
            m = re.match(r'%(' + NAME + r') = type (.*)$', ln)
            nm = m.group(1).strip('"')
            body = m.group(2)
            if body.strip() == "opaque":
                mod.types[nm] = None
            else:
                mod.types[nm] = P(body, mod).type()
            i += 1
            continue
        if ln[0] == "@":
            parse_global(ln, mod)
            i += 1
            continue
        if ln.startswith("declare"):
            f = parse_sig(ln, mod)
            mod.decls[f.name] = f
            i += 1
            continue
        if ln.startswith("define"):
            f = parse_sig(ln, mod)
            i += 1
            cur = None
            while lines[i] != "}":
                l = lines[i]
                if not l.strip() or l.lstrip().startswith(";"):
                    i += 1
                    continue
                m = re.match(r'^(' + NAME + r'):', l)
                if m:
                    cur = [m.group(1).strip('"'), []]
                    f.blocks.append(cur)
                    i += 1
                    continue
                if cur is None:
                    # clang leaves the entry block unlabelled; its number
                    # follows the unnamed parameters
                    cur = [str(len(f.params)), []]
                    f.blocks.append(cur)
                t = l.strip()
                if t.startswith("switch"):
                    while not t.endswith("]"):
                        i += 1
                        t += " " + lines[i].strip()
                        if lines[i].strip().startswith("]"):
                            break
                # strip metadata
                t = re.sub(r', ![-a-zA-Z._0-9]+ ![0-9]+', '', t)
                t = re.sub(r', !dbg ![0-9]+', '', t)
                if "llvm.dbg" not in t:
                    cur[1].append(t)
                i += 1
            mod.funcs[f.name] = f
            i += 1
            continue
        i += 1
    return mod


LINK = ("private", "internal", "external", "common", "weak", "linkonce",
        "linkonce_odr", "weak_odr", "extern_weak", "appending",
        "available_externally", "dso_local", "unnamed_addr",
        "local_unnamed_addr", "hidden", "protected", "thread_local",
        "noundef", "signext", "zeroext", "noalias", "nonnull", "returned",
        "nocapture", "readonly", "writeonly", "immarg", "inreg", "noreturn",
        "fastcc", "ccc", "nofree", "allocptr", "allocalign", "tail",
        "musttail", "notail", "nnan", "ninf", "nsz", "arcp", "contract",
        "afn", "reassoc", "fast", "inbounds", "nuw", "nsw", "exact",
        "disjoint", "nneg", "volatile", "captures",
        "dead_on_unwind", "writable", "nest", "swiftself", "dead_on_return", "samesign")


def skip_attrs(p):
    while True:
        w = p.peekword()
        if w in LINK:
            p.word()
            continue
        if w == "byval":
            p.word()
            p.need("(")
            p.byval = p.type()
            p.need(")")
            continue
        if w in ("align", "dereferenceable", "dereferenceable_or_null", "byval", "sret", "memory"):
            p.word()
            if p.eat("("):
                depth = 1
                while depth:
                    c = p.s[p.i]
                    depth += (c == "(") - (c == ")")
                    p.i += 1
            else:
                p.word()
            continue
        return


def parse_sig(ln, mod):
    p = P(ln, mod)
    p.word()
    internal = " internal " in ln.split("@")[0]
    skip_attrs(p)
    ret = p.type()
    skip_attrs(p)
    p.need("@")
    f = Func(p.name())
    f.internal = internal
    f.ret = ret
    p.need("(")
    while not p.eat(")"):
        if p.eat("..."):
            f.vararg = True
            continue
        t = p.type()
        p.byval = None
        skip_attrs(p)
        nm = None
        if p.eat("%"):
            nm = p.name()
        if p.byval is not None:
            f.byval[len(f.params)] = p.byval
        f.params.append((t, nm))
        p.eat(",")
    return f


def parse_global(ln, mod):
    p = P(ln, mod)
    p.need("@")
    nm = p.name()
    p.need("=")
    head = ln[p.i:].split("{")[0].split("[")[0]
    g = dict(name=nm, external=" external " in head,
             internal=(" private " in head or " internal " in head), const=False)
    skip_attrs(p)
    w = p.peekword()
    if w == "global":
        p.word()
    elif w == "constant":
        p.word()
        g["const"] = True
    elif w == "alias":
        raise IRError("alias " + ln)
    g["ty"] = p.type()
    if not g["external"]:
        g["init"] = parse_const(p, g["ty"])
    mod.globals[nm] = g


def parse_float(w):
    if w.startswith("0x"):
        return _struct.unpack(">d", bytes.fromhex(w[2:].rjust(16, "0")))[0]
    return float(w)


def parse_const(p, ty):
    """constant -> ('int',v) ('f',v) ('null',) ('zero',) ('undef',)
    ('g',name,off) ('agg',[(ty,const)...]) ('str',bytes)"""
    p.ws()
    s = p.s
    if p.eat("zeroinitializer"):
        return ("zero",)
    if p.eat("undef") or p.eat("poison"):
        return ("undef",)
    if p.eat("null"):
        return ("null",)
    if p.eat("true"):
        return ("int", 1)
    if p.eat("false"):
        return ("int", 0)
    if p.peek('c"'):
        p.i += 2
        out = bytearray()
        while s[p.i] != '"':
            if s[p.i] == "\\":
                out.append(int(s[p.i + 1:p.i + 3], 16))
                p.i += 3
            else:
                out.append(ord(s[p.i]))
                p.i += 1
        p.i += 1
        return ("str", bytes(out))
    if p.eat("@"):
        return ("g", p.name(), 0)
    w = p.peekword()
    if w == "getelementptr":
        p.word()
        skip_attrs(p)
        p.need("(")
        bt = p.type()
        p.need(",")
        p.type()
        skip_attrs(p)
        base = parse_const(p, PTR)
        idx = []
        while p.eat(","):
            skip_attrs(p)
            t = p.type()
            c = parse_const(p, t)
            if c[0] != "int":
                raise IRError("const gep idx")
            idx.append(c[1])
        p.need(")")
        lay = Layout(p.mod)
        off = lay.size(bt) * idx[0]
        t = bt
        for k in idx[1:]:
            t = lay.resolve(t)
            if t.k == "arr":
                off += lay.size(t.el) * k
                t = t.el
            else:
                o, t = lay.field_off(t, k)
                off += o
        if base[0] == "null":
            return ("int", off)
        return ("g", base[1], base[2] + off)
    if w in ("inttoptr", "ptrtoint", "bitcast"):
        p.word()
        p.need("(")
        t = p.type()
        c = parse_const(p, t)
        p.need("to")
        p.type()
        p.need(")")
        return c
    if p.peek("{") or p.peek("[") or p.peek("<{"):
        lay = Layout(p.mod)
        br = {"{": "}", "[": "]", "<{": "}>"}
        o = "<{" if p.peek("<{") else s[p.i]
        p.need(o)
        items = []
        while not p.eat(br[o]):
            t = p.type()
            items.append((t, parse_const(p, t)))
            p.eat(",")
        return ("agg", items)
    if ty.k == "dbl":
        p.ws()
        m = re.compile(r"0x[0-9A-Fa-f]+|[-+0-9.eE]+").match(s, p.i)
        p.i = m.end()
        return ("f", parse_float(m.group()))
    if ty.k == "float":
        p.ws()
        m = re.compile(r"0x[0-9A-Fa-f]+|[-+0-9.eE]+").match(s, p.i)
        p.i = m.end()
        return ("f", parse_float(m.group()))
    m = re.compile(r"-?\d+").match(s, p.i)
    if not m:
        raise IRError("const %r" % s[p.i:p.i + 60])
    p.i = m.end()
    return ("int", int(m.group()))


# --------------------------------------------------------------- codegen ----
BIN = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor",
       "shl", "lshr", "ashr"}
FBIN = {"fadd": "+", "fsub": "-", "fmul": "*", "fdiv": "/", "frem": "%"}


def const_refs(c):
    if c[0] == "g":
        return [c[1]]
    if c[0] == "agg":
        return [n for _, e in c[1] for n in const_refs(e)]
    return []


class CodeGen:
    """generates Python source for all functions of several modules"""

    def __init__(self):
        self.src = []
        self.gidx = {}       # (tag or None, name) -> index in G
        self.glist = []      # (modtag, gdict, layout)
        self.fidx = {}       # (tag or None, name) -> pyname
        self.fnames = []     # (pyname, display)
        self.externs = set()
        self.mods = []
        self.consts = []

    def add_modules(self, mods, roots):
        """register all symbols, generate what the root functions reach"""
        self.mods = mods
        home = {}            # (tag|None, name) -> (mod, func)
        ghome = {}
        for m in mods:
            for nm, f in m.funcs.items():
                key = (m.tag if f.internal else None, nm)
                if key in home and not f.internal:
                    if nm.startswith(("h_", "v_")):
                        continue
                    raise IRError("duplicate function " + nm)
                home[key] = (m, f)
            for nm, g in m.globals.items():
                if g["external"]:
                    continue
                key = (m.tag if g["internal"] else None, nm)
                if key not in ghome:
                    ghome[key] = (m, g)
        todo = []
        seen = set()

        def visit(m, nm):
            for key in ((m.tag, nm), (None, nm)):
                if key in home:
                    if key not in seen:
                        seen.add(key)
                        mm, f = home[key]
                        py = "f%d_%s" % (len(self.fnames), re.sub(r"\W", "_", nm))
                        self.fidx[key] = py
                        self.fnames.append((py, nm, mm.tag, len(f.params), f.vararg))
                        todo.append((mm, f))
                    return
                if key in ghome:
                    if key not in self.gidx:
                        mm, g = ghome[key]
                        self.gidx[key] = len(self.glist)
                        self.glist.append((mm, g))
                        for n2 in const_refs(g["init"]):
                            visit(mm, n2)
                    return

        for r in roots:
            if (None, r) not in home:
                raise IRError("no such harness entry: " + r)
            visit(home[(None, r)][0], r)
        gen = []
        while todo:
            m, f = todo.pop()
            gen.append((m, f))
            for lab, ins in f.blocks:
                for t in ins:
                    for n2 in re.findall(r"@(" + NAME + ")", t):
                        visit(m, n2.strip('"'))
        for m, f in gen:
            n = len(self.src)
            try:
                self.func(m, f)
            except IRError as x:
                # no verdict about paths through this function, instead of none at all
                del self.src[n:]
                py = self.find_func(m, f.name) if f.internal else self.fidx[(None, f.name)]
                self.src.append("def %s(E,*a):\n  E.cannot(%r)" % (py, "%s: %s" % (f.name, x)))

    def find_func(self, m, nm):
        return self.fidx.get((m.tag, nm)) or self.fidx.get((None, nm))

    def find_glob(self, m, nm):
        k = self.gidx.get((m.tag, nm))
        if k is None:
            k = self.gidx.get((None, nm))
        return k

    # -- constants and operands
    def cexpr(self, m, c, ty):
        k = c[0]
        if k == "int":
            v = c[1]
            if ty.k == "int" and ty.w > 1:
                b = 1 << ty.w
                v &= b - 1
                if v >= b >> 1:
                    v -= b
            return repr(v)
        if k == "f":
            v = c[1]
            if v != v:
                return "NAN"
            if v in (float("inf"), float("-inf")):
                return "INF" if v > 0 else "-INF"
            return repr(v)
        if k == "null":
            return "0"
        if k in ("zero", "undef") and ty.k in ("struct", "arr", "named"):
            lay = Layout(m)
            return "[" + ",".join(self.cexpr(m, c, t) for t, d in lay.members(lay.resolve(ty))) + "]"
        if k == "zero":
            return "0.0" if ty.k == "dbl" else "0"
        if k == "undef":
            return "UNDEF"
        if k == "g":
            nm, off = c[1], c[2]
            py = self.find_func(m, nm)
            if py:
                return "FN[%r]" % py
            gi = self.find_glob(m, nm)
            if gi is None:
                if nm in m.decls:
                    self.externs.add(nm)
                    return "XF(%r)" % nm
                if nm in m.globals:
                    return "E.xglobal(%r)" % nm
                raise IRError("unknown global " + nm)
            if off:
                return "(G[%d][0],%d)" % (gi, off)
            return "G[%d]" % gi
        raise IRError("cexpr %r" % (c,))

    def operand(self, m, p, ty, env):
        p.ws()
        if p.eat("%"):
            return env(p.name())
        c = parse_const(p, ty)
        return self.cexpr(m, c, ty)

    # -- functions
    def func(self, m, f):
        lay = Layout(m)
        py = self.find_func(m, f.name) if f.internal else self.fidx[(None, f.name)]
        names = {}

        def env(n):
            v = names.get(n)
            if v is None:
                v = names[n] = "v%d" % len(names)
            return v

        # unnamed params are numbered
        params = []
        cnt = 0
        for t, nm in f.params:
            if nm is None:
                nm = str(cnt)
            params.append(env(nm))
            cnt += 1
        blocks = {}
        order = []
        first = f.blocks[0][0]
        # clang unnamed entry block label: use a synthetic label
        raw = {}
        for lab, ins in f.blocks:
            raw[lab] = ins
            order.append(lab)
        # the entry block might be referenced by a number in phis
        # phis: collect
        phis = {lab: [] for lab in order}
        bodies = {}
        succs = {lab: [] for lab in order}
        setjmps = []
        for lab in order:
            body = []
            for ins in raw[lab]:
                mm = re.match(r"^%(" + NAME + r") = phi ", ins)
                if mm:
                    p = P(ins, m)
                    p.i = mm.end()
                    ty = p.type()
                    dst = env(mm.group(1).strip('"'))
                    inc = {}
                    while True:
                        p.need("[")
                        v = self.operand(m, p, ty, env)
                        p.need(",")
                        p.need("%")
                        inc[p.name()] = v
                        p.need("]")
                        if not p.eat(","):
                            break
                    phis[lab].append((dst, inc))
                else:
                    body.append(ins)
            bodies[lab] = body
        for lab in order:
            t = bodies[lab][-1]
            for s in re.findall(r"label %(" + NAME + ")", t):
                succs[lab].append(s.strip('"'))
        preds = {lab: [] for lab in order}
        for lab in order:
            for s in succs[lab]:
                preds[s].append(lab)
        # setjmp split
        has_setjmp = any("@_setjmp(" in i for b in bodies.values() for i in b)
        split = {}
        if has_setjmp:
            norder = []
            for lab in order:
                norder.append(lab)
                for q, ins in enumerate(bodies[lab]):
                    if "@_setjmp(" in ins:
                        nl = lab + "$sj"
                        bodies[nl] = bodies[lab][q + 1:]
                        bodies[lab] = bodies[lab][:q + 1] + ["br label %" + '"' + nl + '"']
                        phis[nl] = []
                        succs[nl] = succs[lab]
                        succs[lab] = [nl]
                        preds[nl] = [lab, lab]
                        for s in succs[nl]:
                            preds[s] = [nl if x == lab else x for x in preds[s]]
                            for ph in phis[s]:
                                if lab in ph[1]:
                                    ph[1][nl] = ph[1].pop(lab)
                        norder.append(nl)
                        split[lab] = nl
                        break
            order = norder
        # which blocks are inlined into their unique predecessor
        pos = {lab: k for k, lab in enumerate(order)}
        inl = set()
        for lab in order:
            if len(preds[lab]) == 1 and lab != order[0]:
                inl.add(lab)
        depth_cut = 24
        dispatch = []   # labels needing a number
        num = {}

        def getnum(lab):
            if lab not in num:
                num[lab] = len(dispatch)
                dispatch.append(lab)
            return num[lab]

        getnum(order[0])
        for lab in order:
            if lab not in inl:
                getnum(lab)
        emitted = {}
        done = 0

        def emit_jump(frm, to, ind, out, depth):
            ph = phis[to]
            pads = "  " * ind
            asg = []
            for dst, inc in ph:
                v = inc[frm]
                if v != dst:
                    asg.append((dst, v))
            if len(asg) == 1:
                out.append(pads + "%s=%s" % asg[0])
            elif asg:
                out.append(pads + ",".join(a for a, _ in asg) + "=" + ",".join(b for _, b in asg))
            if to in inl and depth < depth_cut and to not in num:
                emit_block(to, ind, out, depth)
                return
            k = getnum(to)
            if pos[to] <= pos[frm]:
                out.append(pads + "E.fuel-=1")
                out.append(pads + "if E.fuel<0: E.out_of_fuel()")
            out.append(pads + "bb=%d;continue" % k)

        def emit_block(lab, ind, out, depth):
            for ins in bodies[lab][:-1]:
                self.instr(m, lay, f, ins, env, ind, out)
            term = bodies[lab][-1]
            pads = "  " * ind
            if term.startswith("br label"):
                to = re.match(r"br label %(" + NAME + ")", term).group(1).strip('"')
                emit_jump(lab, to, ind, out, depth)
            elif term.startswith("br i1"):
                p = P(term, m)
                p.i = 5
                c = self.operand(m, p, I1, env)
                t, fl = [x.strip('"') for x in re.findall(r"label %(" + NAME + ")", term)]
                if re.match(r"v\d+$", c):
                    out.append(pads + "if %s.__class__ is SB: %s=E.br(%s)" % (c, c, c))
                out.append(pads + "if %s:" % c)
                emit_jump(lab, t, ind + 1, out, depth + 1)
                out.append(pads + "else:")
                emit_jump(lab, fl, ind + 1, out, depth + 1)
            elif term.startswith("switch"):
                p = P(term, m)
                p.i = 6
                ty = p.type()
                v = self.operand(m, p, ty, env)
                p.need(",")
                p.need("label")
                p.need("%")
                dflt = p.name()
                p.need("[")
                cases = []
                while not p.eat("]"):
                    p.type()
                    c = parse_const(p, ty)
                    p.need(",")
                    p.need("label")
                    p.need("%")
                    cases.append((c[1], p.name()))
                out.append(pads + "if %s.__class__ is not int: sw=E.switch(%s,%r)" % (v, v, tuple(c for c, _ in cases)))
                out.append(pads + "else: sw=%s" % v)
                kw = "if"
                for c, l in cases:
                    out.append(pads + "%s sw==%d:" % (kw, c))
                    emit_jump(lab, l, ind + 1, out, depth + 1)
                    kw = "elif"
                if cases:
                    out.append(pads + "else:")
                    emit_jump(lab, dflt, ind + 1, out, depth + 1)
                else:
                    emit_jump(lab, dflt, ind, out, depth)
            elif term.startswith("ret"):
                p = P(term, m)
                p.i = 3
                ty = p.type()
                if ty.k == "void":
                    out.append(pads + "return None")
                else:
                    out.append(pads + "return " + self.operand(m, p, ty, env))
            elif term.startswith("unreachable"):
                out.append(pads + "E.unreachable(%r)" % f.name)
            else:
                raise IRError("terminator " + term)

        base = 4 if has_setjmp else 3
        codes = []
        while done < len(dispatch):
            lab = dispatch[done]
            out = []
            emit_block(lab, 0, out, 0)
            codes.append(out)
            done += 1
        src = self.src
        src.append("def %s(E%s%s):" % (py, "".join("," + x for x in params), ",*va" if f.vararg else ""))
        src.append("  G=E.G;E.fuel-=1;E.cov[%d]=1" % self._covidx(py))
        src.append("  if E.fuel<0: E.out_of_fuel()")
        for k, t in f.byval.items():
            src.append("  %s=E.byval(%s,%d)" % (params[k], params[k], lay.size(t)))
        if f.vararg:
            src.append("  E_va=va")
        if len(codes) == 1 and not has_setjmp and not any("continue" in l for l in codes[0]):
            for l in codes[0]:
                src.append("  " + l)
            return
        src.append("  bb=0")
        if has_setjmp:
            src.append("  tok=E.new_token()")
            src.append("  sjbb=-1")
            src.append("  while True:")
            src.append("   try:")
            src.append("    while True:")
            ind = "     "
        else:
            src.append("  while True:")
            ind = "    "

        def tree(lo, hi, pre):
            if hi - lo == 1:
                for l in codes[lo]:
                    src.append(pre + l)
                return
            if hi - lo <= 3:
                for k in range(lo, hi):
                    src.append(pre + ("if bb==%d:" % k if k == lo else ("elif bb==%d:" % k if k < hi - 1 else "else:")))
                    for l in codes[k]:
                        src.append(pre + " " + l)
                return
            mid = (lo + hi) // 2
            src.append(pre + "if bb<%d:" % mid)
            tree(lo, mid, pre + " ")
            src.append(pre + "else:")
            tree(mid, hi, pre + " ")

        tree(0, len(codes), ind)
        if has_setjmp:
            src.append("   except LongJmp as e:")
            src.append("    if e.tok!=tok: raise")
            lab = list(split)[0]
            if len(split) > 1:
                raise IRError("several setjmp in one function")
            src.append("    %s=e.val" % self._sjvar)
            src.append("    bb=%d" % num[split[lab]])
            src.append("   finally:")
            src.append("    pass")

    def _covidx(self, py):
        return int(re.match(r"f(\d+)_", py).group(1))

    # -- instructions
    def instr(self, m, lay, f, ins, env, ind, out):
        pads = "  " * ind
        dst = None
        mm = re.match(r"^%(" + NAME + r") = ", ins)
        p = P(ins, m)
        if mm:
            dst = env(mm.group(1).strip('"'))
            p.i = mm.end()
        op = p.word()
        o = out.append
        if op == "alloca":
            ty = p.type()
            n = "1"
            if p.eat(","):
                if not p.peek("align"):
                    t = p.type()
                    n = self.operand(m, p, t, env)
            sz = lay.size(ty)
            o(pads + "%s=E.alloca(%s)" % (dst, "%d*%s" % (sz, n) if n != "1" else sz))
            return
        if op == "load":
            skip_attrs(p)
            ty = p.type()
            p.need(",")
            p.type()
            a = self.operand(m, p, PTR, env)
            sz = lay.size(ty)
            if lay.resolve(ty).k in ("struct", "arr"):
                # aggregate values are nested lists of scalars
                def build(t, off):
                    t = lay.resolve(t)
                    if t.k in ("struct", "arr"):
                        return "[" + ",".join(build(x, off + d) for x, d in lay.members(t)) + "]"
                    return "E.lds((%s[0],%s[1]+%d),%d,%r)" % (a, a, off, lay.size(t), SK(t))
                o(pads + "%s=%s" % (dst, build(ty, 0)))
                return
            k = {"int": "i", "ptr": "p", "dbl": "d"}.get(ty.k)
            if k is None:
                raise IRError("load of " + repr(ty))
            if k == "i":
                k = "i%d" % ty.w
            o(pads + "c=%s[0].cells.get(%s[1])" % (a, a))
            o(pads + "%s=c[1] if c is not None and c[0]==%d else E.lds(%s,%d,%r)" % (dst, sz, a, sz, k))
            return
        if op == "store":
            skip_attrs(p)
            ty = p.type()
            v = self.operand(m, p, ty, env)
            p.need(",")
            p.type()
            a = self.operand(m, p, PTR, env)
            sz = lay.size(ty)
            if lay.resolve(ty).k in ("struct", "arr"):
                def spill(t, off, e):
                    t = lay.resolve(t)
                    if t.k in ("struct", "arr"):
                        for j, (x, d) in enumerate(lay.members(t)):
                            spill(x, off + d, "%s[%d]" % (e, j))
                    else:
                        o(pads + "E.sts((%s[0],%s[1]+%d),%s,%d)" % (a, a, off, e, lay.size(t)))
                o(pads + "c=%s" % v)
                spill(ty, 0, "c")
                return
            if ty.k not in ("int", "ptr", "dbl"):
                raise IRError("store of " + repr(ty))
            o(pads + "c=%s[0].cells" % a)
            o(pads + "if %s[1] in c and c[%s[1]][0]==%d: c[%s[1]]=(%d,%s)" % (a, a, sz, a, sz, v))
            o(pads + "else: E.sts(%s,%s,%d)" % (a, v, sz))
            return
        if op == "getelementptr":
            skip_attrs(p)
            bt = p.type()
            p.need(",")
            p.type()
            b = self.operand(m, p, PTR, env)
            coff = 0
            terms = []
            t = bt
            firstidx = True
            while p.eat(","):
                ity = p.type()
                v = self.operand(m, p, ity, env)
                isc = re.fullmatch(r"-?\d+", v)
                if firstidx:
                    s = lay.size(bt)
                    firstidx = False
                    if isc:
                        coff += s * int(v)
                    else:
                        terms.append((v, s))
                    continue
                t = lay.resolve(t)
                if t.k == "arr":
                    s = lay.size(t.el)
                    if isc:
                        coff += s * int(v)
                    else:
                        terms.append((v, s))
                    t = t.el
                else:
                    off, t = lay.field_off(t, int(v))
                    coff += off
            e = []
            for v, s in terms:
                e.append("%s*%d" % (v, s) if s != 1 else v)
            if coff:
                e.append(str(coff))
            if not e:
                o(pads + "%s=%s" % (dst, b))
            else:
                o(pads + "%s=(%s[0],%s[1]+%s)" % (dst, b, b, "+".join(e)))
            return
        if op in BIN:
            nsw = False
            while True:
                w = p.peekword()
                if w in ("nsw", "nuw", "exact", "disjoint"):
                    p.word()
                    if w == "nsw":
                        nsw = True
                else:
                    break
            ty = p.type()
            a = self.operand(m, p, ty, env)
            p.need(",")
            b = self.operand(m, p, ty, env)
            w = ty.w
            if op in ("add", "sub", "mul"):
                sym = {"add": "+", "sub": "-", "mul": "*"}[op]
                o(pads + "%s=%s%s%s" % (dst, a, sym, b if not b.startswith("-") else "(%s)" % b))
                M = 1 << (w - 1)
                # recomputation inside fix uses the operands
                if dst in (a, b):
                    raise IRError("ssa")
                o(pads + "if %s.__class__ is not int or not %d<=%s<%d: %s=E.fix(%s,%r,%d,%s,%s)" %
                  (dst, -M, dst, M, dst, dst, op, w, nsw, "%r" % f.name))
                return
            o(pads + "%s=E.bin_%s(%s,%s,%d)" % (dst, op, a, b, w))
            return
        if op in FBIN:
            skip_attrs(p)
            ty = p.type()
            a = self.operand(m, p, ty, env)
            p.need(",")
            b = self.operand(m, p, ty, env)
            o(pads + "%s=E.fbin(%r,%s,%s)" % (dst, FBIN[op], a, b))
            if ty.k != "dbl":
                o(pads + "%s=E.fconv(%s,%r)" % (dst, dst, ty.k))
            return
        if op == "fneg":
            skip_attrs(p)
            ty = p.type()
            a = self.operand(m, p, ty, env)
            o(pads + "%s=E.fneg(%s)" % (dst, a))
            return
        if op == "icmp":
            cc = p.word()
            ty = p.type()
            a = self.operand(m, p, ty, env)
            p.need(",")
            b = self.operand(m, p, ty, env)
            if ty.k == "ptr":
                if cc in ("eq", "ne"):
                    if b == "0":
                        o(pads + "%s=%s%s0" % (dst, a, "==" if cc == "eq" else "!="))
                    else:
                        o(pads + "%s=E.peq(%s,%s)%s" % (dst, a, b, "" if cc == "eq" else "^True"))
                else:
                    o(pads + "%s=E.pcmp(%r,%s,%s)" % (dst, cc, a, b))
                return
            sg = {"eq": "==", "ne": "!=", "slt": "<", "sle": "<=", "sgt": ">", "sge": ">="}
            if ty.w == 1:
                o(pads + "%s=E.i1(%s)%sE.i1(%s)" % (dst, a, sg[cc], b))
                return
            if cc in sg:
                o(pads + "%s=%s%s%s" % (dst, a, sg[cc], b))
            else:
                o(pads + "%s=E.ucmp(%r,%s,%s,%d)" % (dst, cc, a, b, ty.w))
            return
        if op == "fcmp":
            skip_attrs(p)
            cc = p.word()
            ty = p.type()
            a = self.operand(m, p, ty, env)
            p.need(",")
            b = self.operand(m, p, ty, env)
            o(pads + "%s=E.fcmp(%r,%s,%s)" % (dst, cc, a, b))
            return
        if op in ("sext", "zext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui",
                  "ptrtoint", "inttoptr", "bitcast", "freeze", "fptrunc", "fpext"):
            skip_attrs(p)
            ty = p.type()
            a = self.operand(m, p, ty, env)
            if op == "freeze":
                o(pads + "%s=%s" % (dst, a))
                return
            p.need("to")
            t2 = p.type()
            if op == "sext":
                if ty.w == 1:
                    o(pads + "%s=-E.i1(%s)" % (dst, a))
                else:
                    o(pads + "%s=%s" % (dst, a))
            elif op == "zext":
                if ty.w == 1:
                    o(pads + "%s=E.i1(%s)" % (dst, a))
                else:
                    o(pads + "%s=%s" % (dst, a))
                    o(pads + "if %s.__class__ is not int or %s<0: %s=E.zext(%s,%d)" % (dst, dst, dst, a, ty.w))
            elif op == "trunc":
                M = 1 << (t2.w - 1)
                if t2.w == 1:
                    o(pads + "%s=E.trunc1(%s)" % (dst, a))
                else:
                    o(pads + "%s=%s" % (dst, a))
                    o(pads + "if %s.__class__ is not int or not %d<=%s<%d: %s=E.trunc(%s,%d)" % (dst, -M, dst, M, dst, a, t2.w))
            elif op in ("fptrunc", "fpext"):
                o(pads + "%s=E.fconv(%s,%r)" % (dst, a, t2.k))
            elif op in ("bitcast",):
                if ty.k != t2.k:
                    raise IRError("bitcast " + ins)
                o(pads + "%s=%s" % (dst, a))
            elif op in ("ptrtoint", "inttoptr"):
                o(pads + "%s=E.%s(%s)" % (dst, op, a))
            else:
                w = t2.w if op.startswith("fpto") else ty.w
                o(pads + "%s=E.%s(%s,%d)" % (dst, op, a, w))
            return
        if op in ("extractvalue", "insertvalue"):
            ty = p.type()
            a = self.operand(m, p, ty, env)
            if op == "insertvalue":
                p.need(",")
                t2 = p.type()
                v = self.operand(m, p, t2, env)
            idx = []
            while p.eat(","):
                idx.append(int(p.word()))
            if op == "extractvalue":
                o(pads + "%s=%s%s" % (dst, a, "".join("[%d]" % k for k in idx)))
            else:
                o(pads + "%s=E.insertv(%s,%s,%r)" % (dst, a, v, idx))
            return
        if op == "select":
            skip_attrs(p)
            p.type()
            c = self.operand(m, p, I1, env)
            p.need(",")
            t = p.type()
            a = self.operand(m, p, t, env)
            p.need(",")
            p.type()
            b = self.operand(m, p, t, env)
            o(pads + "%s=%s if E.i1(%s) else %s" % (dst, a, c, b))
            return
        if op in ("call", "tail", "musttail", "notail"):
            if op != "call":
                p.need("call")
            self.call(m, lay, f, p, dst, env, pads, o)
            return
        raise IRError("instruction " + ins)

    def call(self, m, lay, f, p, dst, env, pads, o):
        skip_attrs(p)
        ret = p.type()
        skip_attrs(p)
        if p.peek("("):    # function type (vararg)
            depth = 0
            while True:
                c = p.s[p.i]
                depth += (c == "(") - (c == ")")
                p.i += 1
                if depth == 0:
                    break
        if p.eat("@"):
            nm = p.name()
            direct = True
        else:
            p.need("%")
            callee = env(p.name())
            direct = False
        p.need("(")
        args = []
        while not p.eat(")"):
            t = p.type()
            skip_attrs(p)
            if t.k == "metadata":
                while p.s[p.i] not in ",)":
                    p.i += 1
                args.append("None")
            else:
                args.append(self.operand(m, p, t, env))
            p.eat(",")
        pre = pads + ("%s=" % dst if dst else "")
        a = "".join("," + x for x in args)
        if not direct:
            o(pre + "E.callptr(%s%s)" % (callee, a))
            return
        py = self.find_func(m, nm)
        if nm == "_setjmp":
            self._sjvar = dst
            o(pads + "E.setjmp(%s,tok)" % args[0])
            o(pads + "%s=0" % dst)
            return
        if py:
            o(pre + "%s(E%s)" % (py, a))
            return
        if nm.startswith("llvm.va_start"):
            o(pads + "E.va_start(%s,E_va)" % args[0])
            return
        if nm.startswith(("llvm.lifetime", "llvm.va_end", "llvm.assume", "llvm.experimental")):
            return
        base = nm
        if nm.startswith("llvm."):
            base = "_".join(nm.split(".")[:2])
            if nm.startswith("llvm.is.constant"):
                o(pre + "0")
                return
            if nm.startswith("llvm.is.fpclass"):
                base = "llvm_is_fpclass"
            mm = re.match(r"llvm\.(sadd|ssub|smul|uadd|usub|umul)\.with\.overflow\.i(\d+)", nm)
            if mm:
                o(pre + "E.ovf(%r,%r,%s,%s)" % (mm.group(1), int(mm.group(2)), args[0], args[1]))
                return
            mm = re.match(r"llvm\.(abs|smax|smin|umax|umin|ctlz|cttz|ctpop|bswap|sadd\.sat|uadd\.sat|ssub\.sat|usub\.sat)\.i(\d+)", nm)
            if mm:
                o(pre + "E.iintr(%r,%r,%s)" % (mm.group(1), int(mm.group(2)), ",".join(args)))
                return
        self.externs.add(base)
        o(pre + "E.x_%s(%s)" % (re.sub(r"\W", "_", base), ",".join(args)))

    def source(self):
        return "\n".join(self.src) + "\n"
