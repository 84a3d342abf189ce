"""Compile /repo's current sources and a harness to LLVM IR and load them."""
import glob
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
import f77
import llir
from core import (SB, UNDEF, NAN, INF, LongJmp, Obj)

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARN = os.path.join(HERE, "harness")
CLANG = "/usr/bin/clang-18"
OPT = "/usr/bin/opt-18" if os.path.exists("/usr/bin/opt-18") else "opt"
INC = ["-I" + REPO + "/SLIP_LU/Include", "-I" + REPO + "/SLIP_LU/Source",
       "-I" + REPO + "/AMD/Include", "-I" + REPO + "/COLAMD/Include",
       "-I" + REPO + "/SuiteSparse_config", "-I" + REPO + "/SLIP_LU/Demo", "-I" + HARN]


def sources():
    """(tag, path, defines) for every library source file"""
    out = []
    for p in sorted(glob.glob(REPO + "/SLIP_LU/Source/*.c")):
        out.append(("slip_" + os.path.basename(p)[:-2], p, []))
    for p in sorted(glob.glob(REPO + "/AMD/Source/*.c")):
        b = os.path.basename(p)[:-2]
        if b == "amd_global":
            out.append((b, p, []))
            continue
        out.append((b + "_i", p, ["-DDINT"]))
        out.append((b + "_l", p, ["-DDLONG"]))
    for p in sorted(glob.glob(REPO + "/COLAMD/Source/*.c")):
        b = os.path.basename(p)[:-2]
        out.append((b + "_i", p, []))
        out.append((b + "_l", p, ["-DDLONG"]))
    out.append(("config", REPO + "/SuiteSparse_config/SuiteSparse_config.c", ["-DNTIMER"]))
    return out


FORTRAN = {"f77.c"}    # harnesses which call the FORTRAN routines


def fortran():
    return [("fort_" + os.path.basename(p)[:-2], p) for p in sorted(glob.glob(REPO + "/AMD/Source/*.f"))]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-3000:])
    return r.stdout


def to_ll(args):
    tag, path, defs, out = args
    ll = os.path.join(out, tag + ".ll")
    run([CLANG, "-O0", "-Xclang", "-disable-O0-optnone", "-S", "-emit-llvm", "-fcommon", "-w",
         "-include", os.path.join(HARN, "shim.h"), "-DVERIF_SYM"] + defs + INC + [path, "-o", ll])
    m = os.path.join(out, tag + ".m.ll")
    run([OPT, "-S", "-passes=mem2reg", ll, "-o", m])
    os.unlink(ll)
    return tag, m


def compile_all(harnesses, out):
    jobs = [(t, p, d, out) for t, p, d in sources()]
    jobs += [("harness_" + h[:-2], os.path.join(HARN, h), [], out) for h in harnesses]
    if FORTRAN & set(harnesses):
        for tag, path in fortran():
            c = os.path.join(out, tag + ".c")
            with open(path) as f:
                text = f.read()
            try:
                text = f77.translate(text)
            except f77.F77Error as e:
                raise BuildError("%s: %s" % (path, e))
            with open(c, "w") as f:
                f.write(text)
            jobs.append((tag, c, [], out))
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(to_ll, jobs))


class ModCache:
    def __init__(self, harnesses):
        self.tmp = tempfile.mkdtemp(prefix="symx.")
        try:
            lls = compile_all(harnesses, self.tmp)
            self.mods = {}
            for tag, path in lls:
                with open(path) as f:
                    self.mods[tag] = llir.parse_module(f.read(), tag)
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)


def template(lay, mod, ty, init, off, out):
    """flatten an initialiser to (off, size, kind, value)"""
    t = lay.resolve(ty)
    k = init[0]
    if k == "zero" or k == "undef":
        return
    if k == "str":
        for j, b in enumerate(init[1]):
            out.append((off + j, 1, "v", b - 256 if b > 127 else b))
        return
    if k == "agg":
        if t.k == "arr":
            s = lay.size(t.el)
            for j, (ety, e) in enumerate(init[1]):
                template(lay, mod, ety, e, off + j * s, out)
        else:
            for j, (ety, e) in enumerate(init[1]):
                o, ft = lay.field_off(t, j)
                template(lay, mod, ety, e, off + o, out)
        return
    s = lay.size(t)
    if k == "int":
        v = init[1]
        if t.k == "int" and t.w > 1:
            v &= (1 << t.w) - 1
            if v >> (t.w - 1):
                v -= 1 << t.w
        out.append((off, s, "v", v))
    elif k == "f":
        out.append((off, s, "v", init[1]))
    elif k == "null":
        out.append((off, s, "v", 0))
    elif k == "g":
        out.append((off, s, "g", (init[1], init[2])))
    else:
        raise llir.IRError("init %r" % (init,))


class Prog:
    def __init__(self, cache, harness, entries):
        tag = "harness_" + harness[:-2]
        mods = [m for t, m in cache.mods.items() if not t.startswith("harness_") or t == tag]
        cg = llir.CodeGen()
        cg.add_modules(mods, entries)
        self.cg = cg
        self.fnames = cg.fnames
        self.display = [f[1] for f in cg.fnames]
        self.is_repo = [not f[2].startswith("harness_") for f in cg.fnames]
        self.entries = {e: cg.fidx[(None, e)] for e in entries}
        self.src = cg.source()
        self.code = compile(self.src, "<ir:%s>" % harness, "exec")
        self.instr = None

    def bind(self, ex):
        ns = dict(SB=SB, UNDEF=UNDEF, NAN=NAN, INF=INF, LongJmp=LongJmp)
        fn = {}
        ns["FN"] = fn
        xf = {}

        def XF(name):
            r = xf.get(name)
            if r is None:
                r = xf[name] = (name, 0)
            return r
        ns["XF"] = XF
        exec(self.code, ns)
        for py, nm, tag, np_, va in self.fnames:
            fn[py] = (ns[py], 0)
        self.tmpl = []
        self.shared = {}
        for gi, (m, g) in enumerate(self.cg.glist):
            lay = llir.Layout(m)
            size = lay.size(g["ty"])
            if g["const"] and g["init"][0] == "str":
                o = Obj(size, "str")
                o.val = g["init"][1]
                o.const = True
                self.shared[gi] = (o, 0)
                self.tmpl.append(None)
                continue
            cells = []
            template(lay, m, g["ty"], g["init"], 0, cells)
            self.tmpl.append((size, g["const"], cells, m))
        self.fn = fn
        self.XF = XF
        return ns

    def make_globals(self, ex):
        G = []
        for gi, t in enumerate(self.tmpl):
            if t is None:
                G.append(self.shared[gi])
                continue
            o = ex.new_obj(t[0], "global", True)
            G.append((o, 0))
        for gi, t in enumerate(self.tmpl):
            if t is None:
                continue
            o = G[gi][0]
            for off, s, k, v in t[2]:
                if k == "g":
                    nm, d = v
                    py = self.cg.find_func(t[3], nm)
                    if py:
                        v = self.fn[py]
                    else:
                        gx = self.cg.find_glob(t[3], nm)
                        if gx is None:
                            v = self.XF(nm)
                        else:
                            v = (G[gx][0], d)
                o.cells[off] = (s, v)
            o.const = t[1]
        return G
