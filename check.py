#!/usr/bin/env python3-vt
"""check.py PROPERTY: decide one property of /repo's current tree."""
import json
import os
import sys
import time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, HERE)
import collections
import traceback
import prog
import native
import explore
import specs


def load_known():
    known = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                d = dict(x.split("=", 1) for x in l[8:].split() if "=" in x)
                d["text"] = l[8:].strip()
                known.append(d)
    return known


def match_known(known, pid, entry, f):
    for d in known:
        if d.get("property") != pid or d.get("entry") not in (entry, None):
            continue
        if d.get("msg") and d["msg"].replace("_", " ") not in f["msg"]:
            continue
        return d
    return None


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = specs.PROPS[pid]
    t0 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET", spec.budget[tier]))
    runs = [r for r in spec.runs if tier == "thorough" or not r.thorough]
    only = os.environ.get("VERIF_ONLY")
    if only:
        runs = [r for r in runs if only in r.name]
    harnesses = sorted({r.harness for r in runs})
    known = load_known()
    nat = native.Native()
    violations = []
    findings = collections.OrderedDict()
    unconfirmed = collections.Counter()
    tried = collections.Counter()
    if spec.regions:
        return by_regions(pid, tier, seed, spec, budget, t0)
    replays = os.path.join(HERE, "evidence", "replays")
    os.makedirs(replays, exist_ok=True)
    build_failed = None
    try:
        try:
            cache = prog.ModCache(harnesses)
            progs = {}
            for h in harnesses:
                es = sorted({r.entry for r in runs if r.harness == h})
                progs[h] = prog.Prog(cache, h, es)
        except prog.BuildError as e:
            # a tree that does not compile has no behaviour to judge
            print("cannot build the tree under test:\n" + str(e))
            sys.exit(2)

        def on_found(f):
            r = runs[f["run"]]
            key = (r.name, f["kind"], f["msg"])
            if f["inputs"] is None:
                unconfirmed[key] += 1
                return False
            d = match_known(known, pid, r.entry, f)
            if d is not None and d["text"] in findings:
                return False
            if tried[key] >= 6:
                unconfirmed[key] += 1
                return False
            tried[key] += 1
            ok, st, out, k = nat.confirm(r.harness, r.entry, f["inputs"], f["kind"], r.oom)
            if not ok:
                unconfirmed[key] += 1
                if os.environ.get("VERIF_DEBUG"):
                    print("UNCONFIRMED", key, st, f["inputs"], f["notes"], out[-600:])
                return False
            if d is not None:
                findings[d["text"]] = f
                return False
            path = os.path.join(replays, "%s-%d.txt" % (pid, len(violations)))
            with open(path, "w") as g:
                g.write("# %s: %s (%s)\n# harness %s entry %s%s\n" % (
                    pid, f["msg"], f["kind"], r.harness, r.entry, "" if k is None else " V_FAULT=%d" % k))
                g.write("# native replay: %s\n" % st)
                for l in out.split("\n")[-40:]:
                    g.write("# | %s\n" % l)
                for n in f["notes"]:
                    g.write("# note %s\n" % n)
                for name, kind, v in f["inputs"]:
                    g.write("%s %s\n" % (name, v))
            violations.append((f, path, r, st))
            return True

        tot, stopped = explore.explore(progs, runs, budget, seed, on_found=on_found, qt=spec.query_ms)

        # translation check: replay witnesses of finished paths on the real code
        traces = 0
        mism = []
        tdl = time.time() + (15 if tier == "quick" else 60)
        if not stopped:
            per = max(2, (24 if tier == "quick" else 120) // max(1, len(runs)))
            jobs = []
            for r, t in zip(runs, tot):
                for tr in t.traces[:per]:
                    jobs.append((r, tr))
            if jobs:
                for h in sorted({r.harness for r, _ in jobs}):
                    nat.binary(h)
            from concurrent.futures import ThreadPoolExecutor

            def one(j):
                r, (inp, obs) = j[1]
                if time.time() > tdl:
                    return None
                st, out = nat.run(r.harness, r.entry, inp, path=os.path.join(nat.dir, "tr.%d" % j[0]))
                got = [l[6:] for l in out.split("\n") if l.startswith("V-OBS ")]
                if st != "ok" or got != obs:
                    return (r, inp, obs, st, got, out)
                return True
            with ThreadPoolExecutor(8) as ex:
                for res in ex.map(one, enumerate(jobs)):
                    if res is True:
                        traces += 1
                    elif res is not None:
                        mism.append(res)
        for r, inp, obs, st, got, out in mism:
            # the real code breaks on an input where the encoding saw no error
            f = dict(kind="native", msg="real run disagrees with the encoding (%s)" % st, inputs=inp, notes=[])
            if st in ("fail", "crash", "hang"):
                key = (r.name, f["kind"], f["msg"])
                path = os.path.join(replays, "%s-%d.txt" % (pid, len(violations)))
                with open(path, "w") as g:
                    g.write("# %s: %s\n# harness %s entry %s\n" % (pid, f["msg"], r.harness, r.entry))
                    for l in out.split("\n")[-40:]:
                        g.write("# | %s\n" % l)
                    for name, kind, v in inp:
                        g.write("%s %s\n" % (name, v))
                if match_known(known, pid, r.entry, f) is None:
                    violations.append((f, path, r, st))
    finally:
        nat.close()

    st = explore.Stats()
    outcomes = collections.Counter()
    for t in tot:
        st.add(t.stats)
        outcomes.update(t.outcomes)
    funcs = set()
    for r, t in zip(runs, tot):
        p = progs[r.harness]
        for h, cov in t.cov.items():
            for k, c in enumerate(cov):
                if c and p.is_repo[k]:
                    funcs.add(p.display[k])
    missing = [r.name + ":" + l for r, t in zip(runs, tot) for l in r.must if l not in t.reached and t.complete]
    samples = []
    for r, t in zip(runs, tot):
        for inp, obs in t.traces[:1]:
            if len(samples) < 6:
                samples.append({"run": r.name, "inputs": ["%s=%s" % (n, v) for n, k, v in inp][:60], "observed": obs[:20]})
    ev = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=st.paths, transitions=st.branches, traces_validated_against_impl=traces,
            samples=samples or ["none"],
            exhaustive=all(t.complete for t in tot) and not stopped and not outcomes.get("unsupported", 0),
            runs=[dict(name=r.name, paths=t.stats.paths, complete=t.complete, open_prefixes=t.left,
                       outcomes=dict(t.outcomes), checks=t.stats.checks, undecided=t.stats.undecided,
                       solver_calls=t.stats.solver_calls, solver_s=round(t.stats.solver_time, 2),
                       reached=sorted(t.reached), unsupported=dict(t.why.most_common(4)),
                       undecided_what=dict(t.undec.most_common(4))) for r, t in zip(runs, tot)],
            assertions_checked=st.checks, assertions_discharged=st.discharged,
            safety_obligations=st.obligations, undecided=st.undecided,
            solver_queries=st.solver_calls, solver_unsat=st.unsat, solver_sat=st.sat, solver_unknown=st.unknown,
            solver_seconds=round(st.solver_time, 2), forks=st.forks,
            functions_encoded=sorted(funcs), functions_encoded_count=len(funcs),
            bounds=spec.bounds, outside=spec.outside,
            unconfirmed_candidates=[{"what": " / ".join(k), "count": v} for k, v in unconfirmed.items()],
            encoding_mismatches=[{"run": r.name, "inputs": ["%s=%s" % (n, v) for n, k, v in inp][:40], "expected": obs[:10],
                                  "native": got[:10], "status": s} for r, inp, obs, s, got, out in mism[:5]],
            unreached_labels=missing,
        ),
        assumptions=specs.ASSUMPTIONS + list(spec.assumptions),
        wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as g:
        json.dump(ev, g, indent=1)
    errors = [e for t in tot for e in t.errors]
    print("%s %s: %d paths, %d branches, %d assertions (%d discharged), %d obligations, %d queries (%.1fs), "
          "%d traces replayed, undecided %d, unsupported %d, %.1fs" % (
              pid, tier, st.paths, st.branches, st.checks, st.discharged, st.obligations, st.solver_calls,
              st.solver_time, traces, st.undecided, st.unsupported, time.time() - t0))
    for r, t in zip(runs, tot):
        print("  %-46s paths %6d cpu %.1f %s%s" % (r.name, t.stats.paths, t.spent, "complete" if t.complete else "open %d" % t.left,
                                          "" if not t.why else " " + str(dict(t.why.most_common(2)))))
    for k, v in unconfirmed.items():
        print("  candidate not confirmed on the real code (%d): %s" % (v, " / ".join(k)))
    for r, inp, obs, s, got, out in mism[:3]:
        print("  encoding mismatch in %s: %s expected %s got %s" % (r.name, s, obs[:6], got[:6]))
    for m in missing:
        print("  label not reached: " + m)
    if errors:
        print("engine error:\n" + errors[0])
    for text in findings:
        d = [k for k in known if k["text"] == text][0]
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    if violations:
        f, path, r, s = violations[0]
        print("  %s: %s [%s] native: %s" % (r.name, f["msg"], f["kind"], s))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    sys.exit(0)


def by_regions(pid, tier, seed, spec, budget, t0):
    """a property of floating-point functions: rounding-error model over regions of inputs (engine/fperr.py)"""
    import fperr
    replays = os.path.join(HERE, "evidence", "replays")
    os.makedirs(replays, exist_ok=True)
    try:
        names, res = fperr.decide(budget, spec.query_ms)
    except prog.BuildError as e:
        print("cannot build the tree under test:\n" + str(e))
        sys.exit(2)
    q = collections.Counter()
    for r in res:
        q.update(r["queries"])
    hits = [r for r in res if r["hit"]]
    done = len(res) == len(fperr.REGIONS) and all(not r["left"] and not r["open"] and not r["unsupported"] for r in res)
    ev = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=sum(r["paths"] for r in res), transitions=sum(r["paths"] + r["infeasible"] for r in res),
            traces_validated_against_impl=sum(len(r["wit"]) for r in res),
            samples=[{"run": r["name"], "inputs": ["%r" % v for v in w[0]]} for r in res[::9] for w in r["wit"][:1]] or ["none"],
            exhaustive=done,
            runs=[dict(name=r["name"], paths=r["paths"], open_prefixes=r["left"], claims=r["claims"], proved=r["proved"],
                       not_proved=r["open"], unsupported=r["unsupported"], queries=r["queries"], solver_s=round(r["time"], 2)) for r in res],
            assertions_checked=sum(r["claims"] for r in res), assertions_discharged=sum(r["proved"] for r in res),
            solver_queries=sum(q.values()), solver_unsat=q["unsat"], solver_sat=q["sat"], solver_unknown=q["unknown"],
            solver_seconds=round(sum(r["time"] for r in res), 2),
            functions_encoded=sorted(names), functions_encoded_count=len(names),
            bounds=spec.bounds, outside=spec.outside,
            unconfirmed_candidates=sum(r["unconfirmed"] for r in res)),
        assumptions=list(spec.assumptions), wall_s=round(time.time() - t0, 2), violations=len(hits))
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as g:
        json.dump(ev, g, indent=1)
    print("%s %s: %d regions of %d, %d paths, %d claims (%d proved), %d queries (%.1fs), %d points replayed, %.1fs" % (
        pid, tier, len(res), len(fperr.REGIONS), ev["coverage"]["states"], ev["coverage"]["assertions_checked"],
        ev["coverage"]["assertions_discharged"], sum(q.values()), ev["coverage"]["solver_seconds"],
        ev["coverage"]["traces_validated_against_impl"], time.time() - t0))
    for r in res:
        if r["open"] or r["unsupported"] or r["left"]:
            print("  %-40s not proved: %s %s%s" % (r["name"], r["open"], r["unsupported"], " open %d" % r["left"] if r["left"] else ""))
    if hits:
        what, vals, text = hits[0]["hit"]
        path = os.path.join(replays, pid + "-0.txt")
        with open(path, "w") as g:
            g.write("# %s: %s: %s\n# arguments, in order\n%s\n" % (pid, hits[0]["name"], what, "\n".join(v.hex() for v in vals)))
            g.write("# native: %s\n" % text)
        print("  %s: %s; native: %s" % (hits[0]["name"], what, text))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
