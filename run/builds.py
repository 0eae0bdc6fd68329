"""Every build of the library computes the same function, without undefined behaviour (spec/Builds.tla)."""
import os, random, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import tk

BASE = ["-std=c99", "-D_ISOC99_SOURCE", "-w"]
BUILDS = [("gcc -Os (as shipped)", ["gcc"] + tk.CFLAGS),
          ("gcc -O0, stack filled with a pattern", ["gcc", "-O0", "-ftrivial-auto-var-init=pattern"] + BASE),
          ("gcc -O3", ["gcc", "-O3"] + BASE),
          ("clang -O2", ["clang", "-O2"] + BASE),
          ("clang -O0, stack zeroed", ["clang", "-O0", "-ftrivial-auto-var-init=zero"] + BASE),
          ("gcc, undefined behaviour traps", ["gcc", "-O1", "-fsanitize=undefined,float-cast-overflow",
                                              "-fsanitize-undefined-trap-on-error"] + BASE),
          ("gcc, address sanitizer", ["gcc", "-O1", "-fsanitize=address"] + BASE)]


def check(w, rep, plan, seed):
    stim, n = w.generate(plan, seed, tag="builds")
    w.extend(stim, seed)

    def one(k):
        name, cc = BUILDS[k]
        objs = w.compile_library(cc, "b%d" % k)
        san = [f for f in cc if f.startswith("-fsanitize=address")]
        exe = w.program("driver%d" % k, [tk.VERIF / "driver/driver.c"], cc=cc[0], flags=["-std=gnu11", "-O1"], objs=objs,
                        libs=san + ["-lm"])
        out = w / ("builds%d" % k)
        subprocess.run([str(exe), str(stim), str(out)], check=True, timeout=3000, stderr=subprocess.DEVNULL,
                       env={**os.environ, "ASAN_OPTIONS": "detect_leaks=0:symbolize=0"})
        return out
    with ThreadPoolExecutor(tk.CORES) as ex:
        outs = list(ex.map(one, range(len(BUILDS))))
    cols = [o.read_text().splitlines() for o in outs]
    rows = []
    for r in zip(*cols):
        f = [x.split() for x in r]
        assert len({tuple(x[:5]) for x in f}) == 1
        rows.append(" ".join(f[0][:5] + [y for x in f for y in x[5:]]))
    if not rows:
        raise RuntimeError("no build made a call")
    trace = w / "builds.trace"
    trace.write_text("\n".join(rows) + "\n")
    _, dev, _, st = w.validate(trace, module="Builds")
    rep.states += st["distinct"]
    rep.transitions += st["generated"]
    rep.traces += len(rows)
    rep.evals += len(rows) * len(BUILDS)
    rep.nontrivial += len(set(rows))
    rep.what += ["build: %s" % b[0] for b in BUILDS]
    for r in rows:
        rep.per[r.split(" ", 1)[0]] += 1
    rnd = random.Random(seed)
    rep.samples += [rows[rnd.randrange(len(rows))] for _ in range(5)]
    for i, e in dev:
        rep.violations.append({"kind": "builds", "row": rows[i - 1],
                               "expected": "every build as the first; deviating: " + BUILDS[int(re.search(r"\d+", e)[0]) - 1][0]})
