"""Shared machinery of the checks: build from /repo, run TLC, drive, validate."""
import atexit, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("TAKUM_REPO", "/repo"))
SPEC = VERIF / "spec"
TLAJ = "/opt/veriftools/tla/tla2tools.jar"
COMM = "/opt/veriftools/tla/CommunityModules-deps.jar"
CFLAGS = ["-std=c99", "-Os", "-D_ISOC99_SOURCE"]      # the library's own flags
QUADMATH = subprocess.run(["gcc", "-print-file-name=libquadmath.a"], stdout=subprocess.PIPE, text=True).stdout.strip()
CORES = os.cpu_count() or 8


class BuildError(Exception):
    pass


class Work:
    """A scratch directory, removed at exit."""

    def __init__(self):
        self.dir = Path(tempfile.mkdtemp(prefix="takumcheck."))
        atexit.register(lambda: shutil.rmtree(self.dir, ignore_errors=True))
        self.cls = None
        self.objs = None
        self.cov = None

    def __truediv__(self, name):
        return self.dir / name

    # ---- TLC ---------------------------------------------------------
    def classes(self):
        if self.cls is None:
            out = self.dir / "cls"
            out.mkdir()
            src = sorted(str(p) for p in (VERIF / "tlc/java/tlc2/module").glob("*.java"))
            subprocess.run(["javac", "-nowarn", "-cp", TLAJ, "-d", str(out)] + src, check=True,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            self.cls = out
        return self.cls

    def tlc(self, module, consts=None, workers=CORES, extra=(), body="SPECIFICATION Spec\n",
            deadlock=False, timeout=3000, heap="12g", native=False):
        """Run TLC on module; returns (stdout, stats)."""
        tag = "%s_%d" % (Path(module).stem, time.monotonic_ns())
        cfg = self.dir / (tag + ".cfg")
        txt = body
        if not deadlock:
            txt += "CHECK_DEADLOCK FALSE\n"
        if consts:
            txt += "CONSTANTS\n" + "".join("  %s = %s\n" % (k, tla(v)) for k, v in consts.items())
        cfg.write_text(txt)
        cp = TLAJ + ":" + COMM if native else "%s:%s:%s" % (self.classes(), TLAJ, COMM)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-DTLA-Library=" + str(SPEC),
               "-Djava.io.tmpdir=" + str(self.dir), "-cp", cp, "tlc2.TLC", "-nowarning", "-noGenerateSpecTE",
               "-workers", str(workers), "-metadir", str(self.dir / (tag + ".meta")),
               "-config", str(cfg)] + list(extra) + [str(module)]
        r = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", r.stdout)
        ok = "No error has been found" in r.stdout
        return r.stdout, {"ok": ok, "rc": r.returncode,
                          "generated": int(m.group(1)) if m else 0,
                          "distinct": int(m.group(2)) if m else 0}

    # ---- library -----------------------------------------------------
    def library(self):
        """Compile every source of /repo/src as it is now."""
        if self.objs is None:
            self.objs = self.compile_library(["gcc"] + CFLAGS, "obj")
        return self.objs

    def compile_library(self, cc, name):
        out = self.dir / name
        out.mkdir()

        def one(s):
            o = out / (s.stem + ".o")
            r = subprocess.run(list(cc) + ["-c", str(s), "-o", str(o)],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise BuildError("%s:\n%s" % (s, r.stdout))
            return str(o)
        with ThreadPoolExecutor(CORES) as ex:
            return list(ex.map(one, sorted((REPO / "src").glob("*.c"))))

    def program(self, name, srcs, flags=("-std=gnu11", "-O1"), libs=("-lm",), cc="gcc", objs=None):
        exe = self.dir / name
        r = subprocess.run([cc] + list(flags) + ["-I", str(REPO), "-I", str(VERIF / "driver")]
                           + [str(s) for s in srcs] + (objs or self.library()) + ["-o", str(exe)] + list(libs),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError(r.stdout)
        return exe

    def driver(self):
        exe = self.dir / "driver"
        return exe if exe.exists() else self.program("driver", [VERIF / "driver/driver.c"])

    def hints(self):
        """The numbers the source text mentions, as rows m e10 e2: places worth visiting, nothing is concluded from them."""
        f = self / "hints"
        if f.exists():
            return f
        rows = set()
        for p in sorted(REPO.glob("src/*.[ch]")):
            for t in re.findall(r"(?<![\w.])(?:0[xX][0-9a-fA-F]*\.?[0-9a-fA-F]*(?:[pP][-+]?\d+)?|(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)",
                                p.read_text(errors="replace")):
                m = re.fullmatch(r"0[xX]([0-9a-fA-F]*)\.?([0-9a-fA-F]*)(?:[pP]([-+]?\d+))?", t)
                if m:
                    v, e10, e2 = int((m[1] + m[2]) or "0", 16), 0, int(m[3] or 0) - 4 * len(m[2])
                    while v and e2 < 0 and v % 2 == 0:
                        v, e2 = v // 2, e2 + 1
                else:
                    m = re.fullmatch(r"(\d*)\.?(\d*)(?:[eE]([-+]?\d+))?", t)
                    v, e10, e2 = int((m[1] + m[2]) or "0"), int(m[3] or 0) - len(m[2]), 0
                    while v and e10 < 0 and v % 10 == 0:
                        v, e10 = v // 10, e10 + 1
                if v > 12 or v and (e10 or e2):
                    if v < 10**60 and abs(e10) < 5000 and abs(e2) < 17000:
                        rows.add((v, e10, e2))
        f.write_text("".join("%d %d %d\n" % r for r in sorted(rows)[:400]))
        return f

    # ---- calls -------------------------------------------------------
    def generate(self, plan, seed, tag="g", module="Gen", consts=None):
        """plan: rows (op, fam, n, count) -> file of calls, sorted."""
        pf, of = self / (tag + ".plan"), self / (tag + ".stim")
        pf.write_text("".join(" ".join(map(str, p)) + "\n" for p in plan))
        out, st = self.tlc(SPEC / (module + ".tla"), {"Seed": seed, "PlanFile": str(pf), "OutFile": str(of),
                                                            "HintFile": str(self.hints()), **(consts or {})},
                           workers=8)
        if not st["ok"]:
            raise RuntimeError("generation failed:\n" + out[-3000:])
        lines = of.read_text().splitlines()
        want = st["distinct"] - len(plan)
        if len(lines) != want:
            raise RuntimeError("generated %d calls, wrote %d" % (want, len(lines)))
        # interleave cheap and expensive calls, deterministically
        lines = sorted(set(lines))
        k = max(1, len(lines) // 512)
        lines = [x for j in range(k) for x in lines[j::k]]
        of.write_text("\n".join(lines) + "\n")
        return of, len(lines)

    def extend(self, stim, seed, runs=None, only_new=False):
        """Coverage-guided variations of the calls in stim, appended to them (driver/explore.c)."""
        if self.cov is None:
            objs = self.compile_library(["clang"] + CFLAGS + ["-fsanitize-coverage=inline-8bit-counters,trace-cmp,trace-loads"],
                                        "cov")
            ref = self / "reference.o"
            subprocess.run(["gcc", "-std=gnu11", "-O2", "-c", str(VERIF / "driver/reference.c"), "-o", str(ref)], check=True)
            self.cov = self.program("explore", [VERIF / "driver/explore.c", ref], cc="clang", objs=objs,
                                    libs=("-no-pie", QUADMATH, "-lm"))
        lines = stim.read_text().splitlines()
        k = len({tuple(x.split(" ", 3)[:3]) for x in lines})
        runs = runs or max(8000, min(400000, 12000000 // max(k, 1)))
        ps = [(self / ("ext%d" % i), i) for i in range(CORES)]
        ps = [(f, subprocess.Popen([str(self.cov), str(stim), str(f), str(runs), str(seed), str(i), str(CORES)])) for f, i in ps]
        for f, q in ps:
            if q.wait():
                raise RuntimeError("the exploration failed")
        new = sorted({x for f, _ in ps for x in f.read_text().splitlines()} - set(lines))
        if only_new:
            return new
        step = max(1, len(lines) // max(1, len(new)))
        out, it = [], iter(new)
        for i, x in enumerate(lines):        # interleaved, as the validation is cut into chunks
            out.append(x)
            if i % step == 0:
                out += [y for y in [next(it, None)] if y]
        out += list(it)
        stim.write_text("\n".join(out) + "\n")
        return len(out)

    def extras(self, keys, seed, each=200):
        """Coverage-guided operands for the functions in keys: (file of calls, {(op, fam, n): (first, number)})."""
        stim, _ = self.generate([k + (200,) for k in keys], seed, tag="x%d" % time.monotonic_ns())
        rows, where = [], {}
        by = {}
        for x in self.extend(stim, seed, only_new=True):
            f = x.split()
            by.setdefault((f[0], int(f[1]), int(f[2])), []).append(x)
        for k in keys:
            got = by.get(k, [])
            have = {tuple(x.split()[3:5]) for x in got}
            near = [x for x in got for a, b in [x.split()[3:5]]     # neighbours: the path changes between them
                    if any((str(int(a) + d), b) in have or (a, str(int(b) + d)) in have for d in (1, -1))]
            rest = sorted(set(got) - set(near))
            near = near[::max(1, -(-len(near) // each))]
            got = near + rest[::max(1, -(-len(rest) // max(each // 2, each - len(near))))]
            where[k] = (len(rows) + 1, len(got))
            rows += got
        out = self / ("extra%d" % time.monotonic_ns())
        out.write_text("\n".join(rows or ["none 0 8 0 0"]) + "\n")
        return out, where

    def drive(self, stim, trace):
        subprocess.run([str(self.driver()), str(stim), str(trace)], check=True, timeout=3000)
        return trace

    def validate(self, trace, module="Trace", consts=None, chunks=512):
        """Returns (rows, deviations, known) ; indices are 1-based."""
        rows = Path(trace).read_text().splitlines()
        c = {"TraceFile": str(trace), "Chunks": min(chunks, max(1, len(rows)))}
        if module == "Trace":
            c["View_"] = "full"
        c.update(consts or {})
        out, st = self.tlc(SPEC / (module + ".tla"), c)
        if not st["ok"] or st["distinct"] != len(rows) + c["Chunks"]:
            raise RuntimeError("validation did not finish:\n" + out[-4000:])
        return rows, printed(out, "DEVIATION"), [(i, k.strip('"')) for i, k in printed(out, "KNOWN")], st


def printed(out, tag):
    """What a specification printed as <<tag, index, value>>; TLC breaks long tuples over lines."""
    flat = re.sub(r"\s+", " ", out)
    got = re.findall(r'<< ?"%s", (\d+), (".*?"|<<.*?>>) ?>>' % tag, flat)
    if len(got) != flat.count('"%s"' % tag):
        raise RuntimeError("cannot read what TLC printed:\n" + out[-4000:])
    return [(int(i), e) for i, e in got]


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    return '"%s"' % v
