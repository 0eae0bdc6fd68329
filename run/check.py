#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property against /repo."""
import json, os, random, sys, time, traceback
from collections import Counter
from pathlib import Path
sys.path.insert(0, str(Path(__file__).resolve().parent))
import laws, props, tk

PID = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
if "--tier" in sys.argv:
    TIER = sys.argv[sys.argv.index("--tier") + 1]
SEED = int(os.environ.get("VERIF_SEED", "1"))
MAXROWS = 1500000


class Report:
    def __init__(self):
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.evals = self.nontrivial = 0
        self.samples, self.what = [], []
        self.violations, self.known = [], Counter()
        self.per = Counter()
        self.rejected = None


def nontrivial(row):
    """A call whose operand is not 0 / NaR, and which returned."""
    f = row.split()
    k = 1 if f[0].startswith(".") else 0
    return f[k + 3] != "0" and f[k + 3] != str(-(1 << (int(f[k + 2]) - 1)))


def batches(plan):
    """Cut a plan into runs of bounded size."""
    cur, size = [], 0
    for p in plan:
        c = p[-1]
        if cur and size + c > MAXROWS:
            yield cur
            cur, size = [], 0
        cur.append(p)
        size += c
    if cur:
        yield cur


def explore(w, rep, kind, plan, seed, view="full"):
    law = kind == "laws"
    consts = {}
    if law:
        consts["ExtraFile"], where = w.extras(sorted(set(map(laws.key, plan))), seed, each=40 if TIER == "quick" else 400)
        plan = [p[:-1] + where[laws.key(p)] + p[-1:] for p in plan]
    for b, part in enumerate(batches(plan)):
        stim, n = w.generate(part, seed + 1000 * b, tag="g%d" % time.monotonic_ns(),
                             module="GenLaws" if law else "Gen", consts=consts)
        if not law:
            n = w.extend(stim, seed)
        trace = w / ("trace%d" % time.monotonic_ns())
        w.drive(stim, trace)
        rows, dev, known, st = w.validate(trace, module="LawTrace" if law else "Trace",
                                          consts=None if law else {"View_": view})
        rep.states += st["distinct"]
        rep.transitions += st["generated"]
        rep.traces += len(rows) if law else 0
        rep.evals += len(rows)
        rep.nontrivial += len({r for r in rows if nontrivial(r)})
        for r in rows:
            rep.per[r.split(" ", 1)[0]] += 1
        rnd = random.Random(seed)
        rep.samples += [rows[rnd.randrange(len(rows))] for _ in range(3)]
        for i, e in dev:
            rep.violations.append({"kind": kind, "row": rows[i - 1], "expected": e})
        for i, k in known:
            rep.known[k] += 1
            rep.known_rows.setdefault(k, rows[i - 1])
        if not law:
            rep.traces += min(512, len(rows))
        if not law and view == "full" and b == 0 and not rep.violations:
            sensitivity(w, rep, rows, seed)
        stim.unlink()
        trace.unlink()
        if rep.violations:
            return


def sensitivity(w, rep, rows, seed, k=1200):
    """How many recorded results would be rejected had they been one unit off: the tightness of the oracle."""
    rnd = random.Random(seed)
    out = []
    for r in rnd.sample(rows, min(k, len(rows))):
        f = r.split()
        v = int(f[5]) + rnd.choice((-1, 1))
        if f[0].startswith("to_") and v < 0 or not f[0].startswith("to_") and not -(1 << int(f[2]) - 1) <= v < 1 << int(f[2]) - 1:
            continue
        f[5] = str(v)
        out.append(" ".join(f))
    if not out:
        return
    t = w / "mutated"
    t.write_text("\n".join(out) + "\n")
    _, dev, _, _ = w.validate(t, chunks=len(out))
    rep.rejected = {"results_changed_by_one_unit": len(out), "rejected": len(dev)}


def design(w, rep, module, consts, invs):
    body = "SPECIFICATION Spec\n" + "".join("INVARIANT %s\n" % i for i in invs)
    out, st = w.tlc(tk.SPEC / (module + ".tla"), consts, body=body)
    if not st["ok"]:
        raise RuntimeError("the specification itself failed %s %s:\n%s" % (module, invs, out[-3000:]))
    rep.states += st["distinct"]
    rep.transitions += st["generated"]
    rep.what.append("%s %s: %s hold in all %d states" % (module, consts, ", ".join(invs), st["distinct"]))


def replay(rep):
    d = tk.VERIF / "replays"
    d.mkdir(exist_ok=True)
    p = d / ("%s.json" % PID)
    p.write_text(json.dumps({"property": PID, "seed": SEED, "tier": TIER,
                             "violations": rep.violations[:50], "count": len(rep.violations)}, indent=1))
    return p


def evidence(rep):
    d = tk.VERIF / "evidence"
    d.mkdir(exist_ok=True)
    cov = {
        "states": rep.states, "transitions": rep.transitions,
        "traces_validated_against_impl": rep.traces,
        "evaluations": rep.evals, "distinct_nontrivial": rep.nontrivial,
        "rule": "Calls (or short histories of calls) generated by TLC from the specification's own structure and a seeded "
                "stream, executed on the library built from /repo, each recorded result checked by TLC against the "
                "specification; non-trivial: distinct, and the first operand is neither 0 nor NaR. A validated trace is one "
                "recorded behaviour (a chunk of calls, or one history).",
        "per_operation": dict(sorted(rep.per.items())),
        "design": rep.what,
        "known_findings": dict(rep.known),
        **({"sensitivity": rep.rejected} if rep.rejected else {}),
        "samples": rep.samples[:12] or rep.what[:3],
    }
    e = {"property": PID, "tier": TIER, "seed": SEED, "level": "model_checking", "coverage": cov,
         "assumptions": ["gcc, libm and x87 hardware of this sandbox", "TLC and the operator overrides in tlc/java",
                         "operands outside the generated set are not observed"],
         "wall_s": round(time.time() - rep.t0, 2), "violations": len(rep.violations)}
    (d / (PID + ".json")).write_text(json.dumps(e, indent=1) + "\n")


def main():
    rep = Report()
    rep.known_rows = {}
    w = tk.Work()
    try:
        w.library()
    except tk.BuildError as e:
        print("the library does not build:\n%s" % str(e)[:2000])
        return 2
    if PID in props.SPECIAL:
        props.SPECIAL[PID](w, rep, TIER, SEED)
    for part in props.parts(PID, TIER):
        if part[0] == "mc":
            design(w, rep, part[1], part[2], part[3])
        elif part[0] == "fns":
            pf = w / "fns.plan"
            pf.write_text("".join("%s %d\n" % x for x in part[1]))
            design(w, rep, "MC_Verdict", {"PlanFile": str(pf), "Step_": part[2]}, ["Design"])
        else:
            explore(w, rep, part[0], part[1], SEED, *part[2:])
        if rep.violations:
            break
    for k, r in rep.known_rows.items():
        print("KNOWN-FINDING: property=%s %s (%d calls, e.g. %s)" % (PID, k, rep.known[k], r))
    evidence(rep)
    print("%s %s: %d states, %d observed calls/histories, %d violations, %.1f s"
          % (PID, TIER, rep.states, rep.evals, len(rep.violations), time.time() - rep.t0))
    if rep.violations:
        p = replay(rep)
        for v in rep.violations[:5]:
            print("  observed %s   specification: %s" % (v["row"], v["expected"]))
        print("VIOLATION property=%s replay=%s" % (PID, p))
        return 1
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
