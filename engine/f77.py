"""FORTRAN 77 (fixed form, the subset used by the ordering routines) -> C.

The C text keeps the control flow and every array access of the source: arrays
stay 1-based (name[index-1]), arguments are passed by reference, DO loops have
their trip count computed on entry.  It is compiled by clang like the other
sources.  Whatever is outside the subset raises F77Error.
"""
import re


class F77Error(Exception):
    pass


TOK = re.compile(r"\s*(\d+\.\d*(?:[ED][-+]?\d+)?|\d+|\.[A-Z]+\.|[A-Z][A-Z0-9_]*|\*\*|//|==|/=|<=|>=|<|>|[-+*/(),=:]|'[^']*')")
REL = {".GT.": ">", ".GE.": ">=", ".LT.": "<", ".LE.": "<=", ".EQ.": "==", ".NE.": "!=", ".AND.": "&&", ".OR.": "||",
       ".NOT.": "!", ".TRUE.": "1", ".FALSE.": "0", ".EQV.": "==", ".NEQV.": "!=",
       "==": "==", "/=": "!=", "<=": "<=", ">=": ">=", "<": "<", ">": ">"}
INTR = {"MAX": "f77_max", "MAX0": "f77_max", "MIN": "f77_min", "MIN0": "f77_min", "MOD": "f77_mod", "ABS": "f77_abs", "IABS": "f77_abs",
        "IAND": "f77_and", "IOR": "f77_or", "IEOR": "f77_xor", "SIGN": "f77_sign", "ISIGN": "f77_sign", "REAL": "(float)", "FLOAT": "(float)", "DBLE": "(double)", "INT": "(int)"}
CT = {"INTEGER": "int", "LOGICAL": "int", "REAL": "float", "DOUBLE PRECISION": "double", "INTEGER*8": "long", "INTEGER*4": "int"}

PRELUDE = """
static inline int f77_max (int a, int b) { return a > b ? a : b ; }
static inline int f77_min (int a, int b) { return a < b ? a : b ; }
static inline int f77_mod (int a, int b) { return a % b ; }
static inline int f77_abs (int a) { return a < 0 ? -a : a ; }
static inline int f77_and (int a, int b) { return a & b ; }
static inline int f77_or (int a, int b) { return a | b ; }
static inline int f77_xor (int a, int b) { return a ^ b ; }
static inline int f77_sign (int a, int b) { return (b < 0) == (a < 0) ? a : -a ; }
"""


def lines(text):
    """(label, statement) with continuations joined"""
    out = []
    for ln in text.split("\n"):
        if not ln.strip() or ln[0] in "Cc*!dD":
            continue
        if "!" in ln and "'" not in ln:
            ln = ln[:ln.index("!")]
            if not ln.strip():
                continue
        if "\t" in ln[:6]:
            k = ln.index("\t")
            lab, rest = ln[:k].strip(), ln[k + 1:]
            if rest[:1] in "123456789" and rest[:1]:
                out[-1] = (out[-1][0], out[-1][1] + " " + rest[1:].strip())
                continue
        else:
            lab, cont, rest = ln[:5].strip(), ln[5:6], ln[6:72]
            if cont not in ("", " ", "0"):
                out[-1] = (out[-1][0], out[-1][1] + " " + rest.strip())
                continue
        out.append((lab, rest.strip().upper()))
    flat = []
    for lab, st in out:
        for k, x in enumerate(st.split(";") if "'" not in st else [st]):
            if x.strip() or k == 0:
                flat.append((lab if k == 0 else "", x.strip()))
    return flat


class Sub:
    def __init__(self, name, args, result=None, funcs=None):
        self.name, self.args, self.result, self.funcs = name, args, result, funcs or {}
        self.types, self.dims, self.params = {}, {}, {}
        self.body = []
        self.depth = []     # open DO loops: label
        self.tmp = 0
        self.open = []      # "if" / label of a do / "enddo"

    def toks(self, s):
        out, i = [], 0
        s = s.rstrip()
        while i < len(s):
            m = TOK.match(s, i)
            if not m:
                raise F77Error("cannot read: " + s[i:])
            out.append(m.group(1))
            i = m.end()
        return out

    def ref(self, n):
        return n.lower() + "_v" if n not in self.args else "(*%s_v)" % n.lower()

    def expr(self, t):
        """tokens -> C"""
        out, i = [], 0
        while i < len(t):
            w = t[i]
            if w in REL:
                out.append(REL[w])
            elif re.match(r"[A-Z]", w):
                if i + 1 < len(t) and t[i + 1] == "(":
                    d, j = 1, i + 2
                    while d:
                        d += {"(": 1, ")": -1}.get(t[j], 0)
                        j += 1
                    a = self.split(t[i + 2:j - 1])
                    if w in self.dims:
                        out.append(self.elem(w, a))
                    elif w in INTR:
                        f = INTR[w]
                        e = [self.expr(x) for x in a]
                        if f in ("f77_max", "f77_min") and len(e) > 2:
                            r = e[0]
                            for x in e[1:]:
                                r = "%s(%s,%s)" % (f, r, x)
                            out.append(r)
                        else:
                            out.append("%s(%s)" % (f, ",".join(e)))
                    elif w in self.funcs:
                        out.append("%s_ (%s)" % (w.lower(), ", ".join(self.arg(x) for x in a)))
                    else:
                        raise F77Error("call of " + w)
                    i = j
                    continue
                if w in self.dims:
                    out.append(w.lower() + "_v")
                else:
                    if w not in self.params:
                        self.declare(w)
                    out.append(self.params.get(w) or self.ref(w))
            elif w in ("**", "//", ":") or w[0] == "'":
                raise F77Error("operator " + w)
            else:
                out.append(w if not re.match(r"\d+\.", w) else w.replace("D", "E"))
            i += 1
        return " ".join(out)

    def declare(self, w):
        if w not in self.types:
            self.types[w] = "int" if w[0] in "IJKLMN" else "float"

    def split(self, t):
        out, d, cur = [], 0, []
        for w in t:
            if w == "," and d == 0:
                out.append(cur)
                cur = []
                continue
            d += {"(": 1, ")": -1}.get(w, 0)
            cur.append(w)
        if cur or out:
            out.append(cur)
        return out

    def elem(self, w, idx):
        if len(idx) != 1:
            raise F77Error("array of several dimensions: " + w)
        return "%s_v[(%s)-1]" % (w.lower(), self.expr(idx[0]))

    def decl(self, ty, rest):
        if "::" in rest:
            if rest[:rest.index("::")].strip():
                raise F77Error("declaration: " + rest)
            rest = rest[rest.index("::") + 2:]
        for it in self.split(self.toks(rest)):
            n = it[0]
            if n in self.funcs:
                continue
            self.types[n] = ty
            if len(it) > 1:
                self.dims[n] = it[2:-1]

    def arg(self, a):
        """an argument, by reference"""
        if len(a) == 1 and a[0] in self.dims:
            return a[0].lower() + "_v"
        if len(a) == 1 and re.match("[A-Z]", a[0]) and a[0] not in self.params:
            self.declare(a[0])
            return "&" + self.ref(a[0])
        if a[0] in self.dims and len(a) > 3 and a[1] == "(" and a[-1] == ")" and len(self.split(a)) == 1:
            d = 0
            for k, w in enumerate(a[1:], 1):
                d += {"(": 1, ")": -1}.get(w, 0)
                if d == 0:
                    break
            if k == len(a) - 1:
                return "&" + self.expr(a)
        return "&(int []) { %s } [0]" % self.expr(a)

    # ------------------------------------------------------------ statements
    def simple(self, s):
        """an unconditional statement"""
        c = s.replace(" ", "")
        m = re.match(r"GO\s*TO\s*\(?\s*(\d+)\s*\)?$", s)
        if m:
            return "goto L%s ;" % m.group(1)
        if c == "CONTINUE":
            return ";"
        if c in ("RETURN", "STOP"):
            return "return %s_v ;" % self.name.lower() if self.result else "return ;"
        if c in ("EXIT", "CYCLE"):
            return {"EXIT": "break ;", "CYCLE": "continue ;"}[c]
        m = re.match(r"CALL\s+([A-Z][A-Z0-9_]*)\s*(?:\((.*)\))?$", s)
        if m:
            args = [self.arg(a) for a in self.split(self.toks(m.group(2) or ""))]
            return "%s_ (%s) ;" % (m.group(1).lower(), ", ".join(args))
        t = self.toks(s)
        d = 0
        for i, w in enumerate(t):
            d += {"(": 1, ")": -1}.get(w, 0)
            if w == "=" and d == 0:
                return "%s = %s ;" % (self.expr(t[:i]), self.expr(t[i + 1:]))
        raise F77Error("statement: " + s)

    def cond(self, s):
        """text after IF: (condition tokens, rest)"""
        i = s.index("(")
        d = 0
        for j in range(i, len(s)):
            d += {"(": 1, ")": -1}.get(s[j], 0)
            if d == 0:
                return s[i + 1:j], s[j + 1:].strip()
        raise F77Error("IF: " + s)

    def stmt(self, lab, s):
        o = self.body.append
        c = s.replace(" ", "")
        if lab:
            o("L%s: ;" % int(lab))
        m = re.match(r"DO\s*(\d+)\s*,?\s*([A-Z][A-Z0-9_]*)\s*=(.*)$", s)
        m2 = re.match(r"DO\s+([A-Z][A-Z0-9_]*)\s*=(.*)$", s) if not m else None
        m3 = re.match(r"DO\s*WHILE\s*\(", s)
        if m or m2:
            v, r = (m.group(2), m.group(3)) if m else m2.groups()
            a = self.split(self.toks(r))
            if len(a) not in (2, 3):
                raise F77Error("DO: " + s)
            self.declare(v)
            self.tmp += 1
            k = self.tmp
            x, e = self.ref(v), [self.expr(q) for q in a]
            st = e[2] if len(e) > 2 else "1"
            o("{ int s%d = %s ; int e%d = %s ; %s = %s ;" % (k, st, k, e[1], x, e[0]))
            if st == "1":
                o("for ( ; %s <= e%d ; %s++) {" % (x, k, x)) if False else \
                    o("for (int c%d = e%d - %s + 1 ; c%d > 0 ; c%d--, %s += s%d) {" % (k, k, x, k, k, x, k))
            else:
                o("for (int c%d = (e%d - %s + s%d) / s%d ; c%d > 0 ; c%d--, %s += s%d) {" % (k, k, x, k, k, k, k, x, k))
            self.open.append(str(int(m.group(1))) if m else "enddo")
        elif m3:
            t, r = self.cond(s)
            o("{ while (%s) {" % self.expr(self.toks(t)))
            self.open.append("enddo")
        elif c in ("ENDDO",):
            if not self.open or self.open.pop() != "enddo":
                raise F77Error("ENDDO")
            o("} }")
        elif c == "ENDIF":
            if not self.open or self.open.pop() != "if":
                raise F77Error("ENDIF")
            o("}")
        elif c == "ELSE":
            o("} else {")
        elif re.match(r"ELSE\s*IF\s*\(", s):
            t, r = self.cond(s)
            if r != "THEN":
                raise F77Error(s)
            o("} else if (%s) {" % self.expr(self.toks(t)))
        elif re.match(r"IF\s*\(", s):
            t, r = self.cond(s)
            if r == "THEN":
                o("if (%s) {" % self.expr(self.toks(t)))
                self.open.append("if")
            else:
                o("if (%s) { %s }" % (self.expr(self.toks(t)), self.simple(r)))
        else:
            o(self.simple(s))
        while lab and self.open and self.open[-1] == str(int(lab)):
            self.open.pop()
            o("} }")

    def text(self):
        if self.open:
            raise F77Error("open block in " + self.name)
        head = "%s %s_ (%s)" % (self.result or "void", self.name.lower(), ", ".join(
            "%s *%s_v" % (self.types.get(a, "int" if a[0] in "IJKLMN" else "float"), a.lower()) for a in self.args))
        loc = []
        for n, t in self.types.items():
            if n in self.args or n in self.params:
                continue
            if n in self.dims:
                loc.append("%s %s_v [%s] ;" % (t, n.lower(), self.expr(self.dims[n])))
            else:
                loc.append("%s %s_v ;" % (t, n.lower()))
        return head, head + "\n{\n" + "\n".join(loc) + "\n" + "\n".join(self.body) + (
            "\nreturn %s_v ;" % self.name.lower() if self.result else "") + "\n}\n"


HEAD = re.compile(r"(?:(DOUBLE\s+PRECISION|INTEGER(?:\s*\*\s*[48])?|LOGICAL|REAL)\s+)?(SUBROUTINE|FUNCTION)\s+([A-Z][A-Z0-9_]*)\s*(?:\((.*)\))?$")
TYPE = r"(DOUBLE\s+PRECISION|INTEGER\s*\*\s*[48]|INTEGER|LOGICAL|REAL)"


def ctype(t):
    return CT[re.sub(r"\s*\*\s*", "*", re.sub(r"\s+", " ", t))]


def translate(text):
    subs, cur = [], None
    ls = lines(text)
    funcs = {}
    for lab, s in ls:
        m = HEAD.match(s)
        if m and m.group(2) == "FUNCTION":
            funcs[m.group(3)] = ctype(m.group(1)) if m.group(1) else "int" if m.group(3)[0] in "IJKLMN" else "float"
    for lab, s in ls:
        c = s.replace(" ", "")
        m = HEAD.match(s)
        if m and cur is None:
            nm = m.group(3)
            cur = Sub(nm, [a.strip() for a in (m.group(4) or "").split(",") if a.strip()], funcs.get(nm),
                      {k: v for k, v in funcs.items() if k != nm})
            if nm in funcs:
                cur.types[nm] = funcs[nm]
            subs.append(cur)
            continue
        if cur is None:
            raise F77Error("outside a subroutine: " + s)
        m = re.match(TYPE + r"\s*(?=\s|:)(.*)$", s)
        if m and "=" not in m.group(2):
            cur.decl(ctype(m.group(1)), m.group(2))
        elif re.match(r"(INTRINSIC|EXTERNAL|IMPLICIT|SAVE)\b", s):
            pass
        elif c.startswith("PARAMETER("):
            for it in cur.split(cur.toks(s[s.index("(") + 1:s.rindex(")")])):
                cur.params[it[0]] = "(" + cur.expr(it[2:]) + ")"
        elif c == "END" or re.match(r"END\s*(SUBROUTINE|FUNCTION)\b", s):
            if lab:
                cur.body.append("L%s: ;" % int(lab))
            cur = None
        else:
            cur.stmt(lab, s)
    t = [x.text() for x in subs]
    return PRELUDE + "".join(h + " ;\n" for h, b in t) + "".join(b for h, b in t)


if __name__ == "__main__":
    import sys
    print(translate(open(sys.argv[1]).read()))
