"""Sessions: the library has no state (spec/Session.tla)."""
import random, re, subprocess
import laws, tk
from laws import T, TO, FROM, convs

ROUNDS = {"quick": 60, "thorough": 600}
COLDS = {"quick": 12, "thorough": 60}
SOAK = {"quick": ("300000", "70000"), "thorough": ("20000000", "1100000")}


def plan(tier, unary, binary):
    k = 1 if tier == "quick" else 12
    p = []
    for f, n in T:
        for o in unary + ["precision"] + binary + TO + FROM + [c for c, _, _ in convs(f, n)]:
            p.append(("same", o, f, n, k))
    p.append(("mix", "exp", 0, 16, 150 * k))
    return p


def check(w, rep, tier, seed, unary, binary):
    for lib, bad in (("pure", False), ("cache", True), ("race", True)):
        out, st = w.tlc(tk.SPEC / "MC_Session.tla", {"Library": lib, "Threads": 2, "Length": 3},
                        body="SPECIFICATION Spec\nINVARIANT NeverRejects\nINVARIANT MemoIsFunction\n", native=True)
        if st["ok"] == bad or (bad and "NeverRejects is violated" not in out):
            raise RuntimeError("MC_Session %s:\n%s" % (lib, out[-2000:]))
        rep.states += st["distinct"]
        rep.transitions += st["generated"]
        rep.what.append("MC_Session Library=%s: %s" % (lib, "rejected, as it must be" if bad else
                                                       "never rejected in all %d states" % st["distinct"]))
    entries = plan(tier, unary, binary)
    extra, where = w.extras(sorted({p[1:4] for p in entries if p[0] == "same"}), seed)
    entries = [p[:4] + (where[p[1:4]] if p[0] == "same" else (1, 0)) + p[4:] for p in entries]
    stim, n = w.generate(entries, seed, tag="sess", module="GenSession",
                         consts={"ExtraFile": str(extra),"Steps": 40 if tier == "quick" else 120, "Threads": 8})
    exe = w.program("session", [tk.VERIF / "driver/session.c"], libs=("-lm", "-lpthread"))
    trace, index = w / "sess.trace", w / "sess.index"
    subprocess.run([str(exe), str(stim), str(trace), str(index), str(ROUNDS[tier]), str(COLDS[tier])], check=True, timeout=3000)
    validate(w, rep, trace, index, seed)
    if any(v["row"].split()[-1] == "2" for v in rep.violations):
        return                                      # calls that hang: enough is known
    calls = set()
    for line in stim.read_text().splitlines():
        x = line.split()
        calls |= {" ".join(x[3 + 5 * j:8 + 5 * j]) for j in range(int(x[0]))}
    big = w / "soak.stim"
    big.write_text("".join(c + "\n" for c in sorted(calls)))
    exe = w.program("soak", [tk.VERIF / "driver/soak.c"], libs=("-lm", "-lpthread"))
    trace, index = w / "soak.trace", w / "soak.index"
    subprocess.run([str(exe), str(big), str(trace), str(index), *SOAK[tier], str(seed)], check=True, timeout=3000)
    rep.what.append("a session of %d calls: each alone, then %s in random order in each of 4 processes (two with 4 threads), "
                    "and %s in a row of every function" % ((len(calls),) + SOAK[tier]))
    validate(w, rep, trace, index, seed)


def validate(w, rep, trace, index, seed):
    rows = trace.read_text().splitlines()
    n = len(index.read_text().splitlines())
    out, st = w.tlc(tk.SPEC / "SessionTrace.tla", {"TraceFile": str(trace), "IndexFile": str(index)})
    if not st["ok"] or st["distinct"] != len(rows) + n:
        raise RuntimeError("validation did not finish:\n" + out[-4000:])
    rep.states += st["distinct"]
    rep.transitions += st["generated"]
    rep.traces += n
    rep.evals += len(rows)
    rep.nontrivial += len({tuple(r.split()[3:8]) for r in rows})
    for r in rows:
        rep.per["phase %s" % r.split()[1]] += 1
    rnd = random.Random(seed)
    rep.samples += [rows[rnd.randrange(len(rows))] for _ in range(5)]
    for i, e in tk.printed(out, "DEVIATION"):
        rep.violations.append({"kind": "session", "row": rows[i - 1], "expected": "first observed " + e})
