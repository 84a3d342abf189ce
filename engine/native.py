"""Native build of the code under test with a harness, and replay of inputs."""
import glob
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from prog import sources, fortran, FORTRAN, INC, HARN, run, BuildError

WRAP = ["malloc", "calloc", "realloc", "free", "__gmpz_divexact", "__gmpq_cmp", "__gmpq_mul",
        "__gmpq_div", "__gmpq_add"]


class Native:
    """built lazily; one executable per harness file and flavour"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="symxn.")
        self.objs = {}
        self.bins = {}
        self.seq = 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def flags(self, flavour):
        if flavour == "asan":
            return ["-g", "-O0", "-fsanitize=address,undefined", "-fno-sanitize=alignment",
                    "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
        return ["-g", "-O0"]

    def library(self, flavour):
        if flavour in self.objs:
            return self.objs[flavour]
        jobs = []
        for tag, path, defs in sources():
            o = os.path.join(self.dir, "%s.%s.o" % (tag, flavour))
            jobs.append((["gcc", "-c", "-w", "-fcommon", "-include", os.path.join(HARN, "shim.h")] + self.flags(flavour) +
                         defs + INC + [path, "-o", o], o))
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda j: run(j[0]), jobs))
        self.objs[flavour] = [o for _, o in jobs]
        return self.objs[flavour]

    def binary(self, harness, flavour="asan"):
        k = (harness, flavour)
        if k in self.bins:
            return self.bins[k]
        objs = self.library(flavour)
        if harness in FORTRAN:
            objs = list(objs)
            for tag, path in fortran():
                o = os.path.join(self.dir, "%s.%s.o" % (tag, flavour))
                run(["gfortran", "-c", "-w"] + self.flags(flavour) + [path, "-o", o])
                objs.append(o)
        b = os.path.join(self.dir, harness[:-2] + "." + flavour)
        run(["gcc", "-w", "-fcommon", "-include", os.path.join(HARN, "shim.h")] + self.flags(flavour) + INC +
            [os.path.join(HARN, harness), os.path.join(HARN, "native.c")] + objs +
            ["-o", b, "-rdynamic"] + ["-Wl,--wrap=" + w for w in WRAP] + ["-lmpfr", "-lgmp", "-lm", "-ldl"])
        self.bins[k] = b
        return b

    def run(self, harness, entry, inputs, flavour="asan", fault=None, timeout=30, path=None):
        """(status, output): status in ok, fail, crash, mismatch, exhausted, hang"""
        b = self.binary(harness, flavour if flavour != "valgrind" else "plain")
        if path is None:
            self.seq += 1
            path = os.path.join(self.dir, "in.%d" % self.seq)
        with open(path, "w") as f:
            for name, kind, v in inputs:
                f.write("%s %s\n" % (name, v))
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "allocator_may_return_null=1:detect_leaks=0:abort_on_error=0:exitcode=77"
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77"
        env.pop("V_FAULT", None)
        if fault is not None:
            env["V_FAULT"] = str(fault)
        cmd = [b, entry, path]
        if flavour == "valgrind":
            cmd = ["valgrind", "-q", "--error-exitcode=77", "--undef-value-errors=yes"] + cmd
            timeout *= 4
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env,
                               timeout=timeout, stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            return "hang", "timeout"
        out = r.stdout.decode("latin1")
        if flavour == "valgrind" and r.returncode == 77:
            return "crash", out
        if r.returncode == 9 and "V-FAIL" in out:
            return "fail", out
        if r.returncode == 0 and "V-DONE" in out:
            return "ok", out
        if r.returncode == 3:
            return "exhausted", out
        if r.returncode in (2, 4):
            return "mismatch", out
        return "crash", out

    def confirm(self, harness, entry, inputs, kind, oom):
        """replay a counterexample; returns (confirmed, status, output, fault)"""
        st, out = self.run(harness, entry, inputs)
        if st in ("fail", "crash", "hang"):
            return True, st, out, None
        if kind in ("uninit",) and st in ("ok", "exhausted"):
            s2, o2 = self.run(harness, entry, inputs, "valgrind")
            if s2 in ("fail", "crash"):
                return True, s2, o2, None
        if oom or "V-REQUESTS" in out:
            nreq = 0
            for l in out.split("\n"):
                if l.startswith("V-REQUESTS"):
                    nreq = max(nreq, int(l.split()[1]))
            for k in range(1, min(nreq, 400) + 1):
                s2, o2 = self.run(harness, entry, inputs, fault=k)
                if s2 in ("fail", "crash", "hang"):
                    return True, s2, o2, k
        return False, st, out, None
