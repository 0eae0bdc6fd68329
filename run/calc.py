"""The calculator: run TLC-generated sessions on example/calculator, have TLC validate what it printed."""
import random, re, resource, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from decimal import Decimal, InvalidOperation
import tk

SYMBOL = {"addition": "+", "subtraction": "-", "multiplication": "*", "division": "/", "power": "^", "absolute": "abs",
          "inversion": "inv", "square_root": "sqrt"}
BAD = ["foo", "A", "1x", "0x", "--", "+-", "sin2", "takum", "1.2.3", "pi", "ab", "1,5"]
MESSAGES = [("stack underflow", "underflow"), ("invalid expression, final stack size is not one", "size"),
            ("invalid token", "token")]


def text(kind, x, y):
    if kind == "reg":
        return chr(ord("a") + int(x) - 1)
    if kind == "op":
        return SYMBOL.get(x, x)
    if kind == "type":
        return "takum%s%s" % ("_linear" if x == "1" else "", y)
    if kind == "int":
        v, sign = abs(int(x)), "-" if x.startswith("-") else ""
        return sign + ("%d" % v if y == "10" else "0x%x" % v if y == "16" else "0%o" % v)
    if kind == "dec":
        m, e = int(x), int(y)
        if e > 0:
            return "%de%d" % (m, e)
        d = "%d" % abs(m)
        d = d.rjust(-e + 1, "0")
        return ("-" if m < 0 else "") + (d[:e] + "." + d[e:] if e else d + ".")
    return {"help": "?", "nan": "nan", "inf": "-inf" if x == "-1" else "inf", "bad": BAD[int(x)] if kind == "bad" else ""}[kind]


def observe(seg):
    """One line's output as words of the specification."""
    s = seg.strip()
    if not s:
        return "none"
    if s.startswith("This is an RPN"):
        return "help"
    m = re.fullmatch(r"([a-z]) ← (\S+)", s)
    if not m:
        return "other"
    reg, val = ord(m.group(1)) - ord("a") + 1, m.group(2)
    if val == "NaR":
        return "nar %d" % reg
    if re.fullmatch(r"-?\d+", val) and len(val.lstrip("-")) > 6 or re.fullmatch(r"-?\d+", val):
        return "int %d %s" % (reg, val) + numeric(val)
    return "num %d" % reg + numeric(val) if numeric(val) else "other"


def numeric(val):
    try:
        d = Decimal(val)
    except InvalidOperation:
        return ""
    if not d.is_finite() or d == 0:
        return ""
    sign, digits, e = d.as_tuple()
    digs = "".join(map(str, digits)).rstrip("0") or "0"
    if len(digs) > 6:
        return ""
    return " %d %s %d" % (-1 if sign else 1, digs.ljust(6, "0"), d.adjusted())


def converse(w, exe, inp):
    """What the calculator did with inp: its exit code (None: it hung), output and complaints, cut where they run away."""
    limit = lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 25, 1 << 25))
    with tempfile.TemporaryFile(dir=w.dir) as o, tempfile.TemporaryFile(dir=w.dir) as e:
        try:
            code = subprocess.run([str(exe)], input=inp.encode(), stdout=o, stderr=e, timeout=20, preexec_fn=limit).returncode
        except subprocess.TimeoutExpired:
            code = None
        except BrokenPipeError:
            code = -1
        got = []
        for f in (o, e):
            f.seek(0)
            got.append(f.read(1 << 22).decode(errors="replace"))
    return code, got[0], got[1]


def check(w, rep, tier, seed):
    out, st = w.tlc(tk.SPEC / "MC_Calc.tla", {"MaxTokens": 3 if tier == "quick" else 4, "MaxLines": 2},
                    body="SPECIFICATION Spec\n" + "".join("INVARIANT %s\n" % i for i in
                                                         ("LineIsPrivate", "TypeChangesEndTheLine", "StackBounded")))
    if not st["ok"]:
        raise RuntimeError("MC_Calc:\n" + out[-3000:])
    rep.states += st["distinct"]
    rep.transitions += st["generated"]
    rep.what.append("MC_Calc: a line is private, writes exactly the register it prints, failed lines print nothing: %d states"
                    % st["distinct"])
    exe = w.program("calculator", [tk.REPO / "example/calculator.c", tk.REPO / "example/util.c"], flags=tk.CFLAGS)
    server = w.program("server", [tk.VERIF / "driver/server.c"])
    stim, n = w.generate([(40, 0)] * (150 if tier == "quick" else 1500)
                         + [(0, k) for k in range(1, 9)] * (2 if tier == "quick" else 20), seed, tag="calc", module="GenCalc")
    sess = {}
    for l in stim.read_text().splitlines():
        f = l.split()
        sess.setdefault(int(f[0]), {})[int(f[1])] = [f[i:i + 3] for i in range(2, len(f), 3)]

    hung = [0]

    def run(k):
        lines = [sess[k][i] for i in sorted(sess[k])]
        gap = lambda i: " " if (k + i) % 7 else "  "
        inp = "".join(gap(i).join(text(*t) for t in l) + ("\n" if i + 1 < len(lines) or k % 5 or not l else "") for i, l in enumerate(lines))
        if hung[0] > 8:
            return k, [], [], inp
        code, printed, complaints = converse(w, exe, inp)
        hung[0] += code is None
        segs = printed.split("> ")
        head, segs = segs[0], segs[1:]
        # the last prompt waits for a line that does not come
        shown = [observe(segs[i]) if i < len(segs) else "missing" for i in range(len(lines))]
        if code != 0 or head.strip() != "type '?' for help" or len(segs) != len(lines) + 1:
            shown[-1] = "crashed"
        rows = ["%d%s %s" % (len(l), "".join(" " + " ".join(t) for t in l), x) for l, x in zip(lines, shown)]
        errs = []
        for e in complaints.splitlines():
            errs.append(next((b for a, b in MESSAGES if e.startswith(a)), "unknown"))
        return k, rows, errs, inp
    with ThreadPoolExecutor(tk.CORES) as ex:
        res = [r for r in ex.map(run, sorted(sess)) if r[1]]
    trace, index = w / "calc.trace", w / "calc.index"
    rows, idx, owner = [], [], []
    for k, r, e, inp in res:
        idx.append("%d %d %s" % (len(rows) + 1, len(r), " ".join(e)))
        rows += r
        owner += [k] * len(r)
    trace.write_text("\n".join(rows) + "\n")
    index.write_text("\n".join(idx) + "\n")
    out, st = w.tlc(tk.SPEC / "CalcTrace.tla", {"TraceFile": str(trace), "IndexFile": str(index), "Exe": str(server)})
    want = len(res) + len(rows) + sum(int(r.split(" ", 1)[0]) for r in rows)
    if not st["ok"] or st["distinct"] != want:
        raise RuntimeError("validation did not finish (%d of %d):\n" % (st["distinct"], want) + out[-4000:])
    rep.states += st["distinct"]
    rep.transitions += st["generated"]
    rep.traces += len(res)
    rep.evals += len(rows)
    rep.nontrivial += len({r for r in rows if int(r.split(" ", 1)[0]) > 1})
    for r in rows:
        m = re.search(r" (none|int|num|nar|help)\b(?!.* (none|int|num|nar|help)\b)", r)
        rep.per[m.group(1) if m else "other"] += 1
    rnd = random.Random(seed)
    rep.samples += [rows[rnd.randrange(len(rows))][:200] for _ in range(6)]
    for i, k in tk.printed(out, "KNOWN"):
        k = k.strip('"')
        rep.known[k] += 1
        rep.known_rows.setdefault(k, rows[i - 1])
    for i, e in tk.printed(out, "DEVIATION"):
        rep.violations.append({"kind": "calculator", "row": rows[i - 1][:300], "expected": e,
                               "input": next(r[3] for r in res if r[0] == owner[i - 1])[:5000]})
