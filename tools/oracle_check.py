#!/usr/bin/env python3-vt
"""Development aid, not a check: compares the enclosures of spec/Elem.tla, as TLC
evaluates them, with mpmath at random points (containment and width)."""
import random, subprocess, sys, os, re, tempfile
import mpmath as mp
mp.mp.prec = 1500
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
random.seed(int(sys.argv[1]) if len(sys.argv) > 1 else 1)
N = int(sys.argv[2]) if len(sys.argv) > 2 else 60
def pt(lo, hi, sign=True, bits=60):
    m = random.getrandbits(bits) | (1 << (bits - 1)) | 1
    if random.random() < .2: m = 1 << (bits-1)
    if random.random() < .2: m = (1 << bits) - 1
    if sign and random.random() < .5: m = -m
    return m, random.randint(lo, hi) - bits
fns = {
 'ExpI': (lambda: pt(-250, 12), mp.exp), 'ExpM1I': (lambda: pt(-250, 12), mp.expm1),
 'LnI': (lambda: pt(-250, 250, False) if random.random()<.7 else ((1<<60)+random.randint(-1<<random.randint(1,58), 1<<random.randint(1,58)), -60), mp.log),
 'Ln1pI': (lambda: pt(-250, 250, False) if random.random()<.5 else pt(-250, 0), mp.log1p),
 'AtanI': (lambda: pt(-250, 250), mp.atan), 'AsinI': (lambda: pt(-250, 0), mp.asin), 'AcosI': (lambda: pt(-250, 0), mp.acos),
 'SinC': (lambda: pt(-250, 256), mp.sin), 'CosC': (lambda: pt(-250, 256), mp.cos),
 'SinPC': (lambda: pt(-250, 70), lambda x: mp.sin(mp.pi*(mp.fmod(x,2)))), 'CosPC': (lambda: pt(-250, 70), lambda x: mp.cos(mp.pi*mp.fmod(x,2))),
 'SinhI': (lambda: pt(-250, 12), mp.sinh), 'CoshI': (lambda: pt(-250, 12), mp.cosh), 'TanhI': (lambda: pt(-250, 12), mp.tanh),
 'AsinhI': (lambda: pt(-250, 250), mp.asinh), 'AcoshI': (lambda: pt(2, 250, False) if random.random()<.5 else ((1<<60)+random.randint(0, 1<<random.randint(1,60)), -60), mp.acosh),
 'AtanhI': (lambda: pt(-250, 0), mp.atanh),
}
rows = [(f,)+g() for f, (g, _) in fns.items() for _ in range(N)]
body = "\n".join('ASSUME PrintT(<<"R", %d, %s(Point(%s, %d))>>)' % (i, f, big, e) for i, (f, m, e) in enumerate(rows)
   for big in ["(%s(%d*2^45+%d*2^20+%d))" % ('-' if m < 0 else '', abs(m) >> 45, (abs(m) >> 20) & (2**25-1), abs(m) & (2**20-1))])
mod = "---- MODULE OC ----\nEXTENDS Elem, TLC\nSinC(F)==SinCosI(F)[1]\nCosC(F)==SinCosI(F)[2]\nSinPC(F)==SinCosPiI(F)[1]\nCosPC(F)==SinCosPiI(F)[2]\n" + body + "\nVARIABLE x\nInit == x=0\nNext == x'=x\n====\n"
d = tempfile.mkdtemp()
open(d+"/OC.tla", "w").write(mod); open(d+"/OC.cfg", "w").write("INIT Init\nNEXT Next\n")
cls = d+"/cls"
T = "/opt/veriftools/tla/tla2tools.jar"
subprocess.check_call("mkdir -p %s; javac -cp %s -d %s %s/tlc/java/tlc2/module/*.java" % (cls, T, cls, V), shell=True)
o = subprocess.run(["java", "-XX:+UseParallelGC", "-Xss64m", "-DTLA-Library=%s/spec" % V, "-cp", "%s:%s:/opt/veriftools/tla/CommunityModules-deps.jar" % (cls, T), "tlc2.TLC", "-nowarning", "OC.tla"], cwd=d, capture_output=True, text=True).stdout
n = 0; worst = {}
for i, lo, hi, e in re.findall(r'<<\s*"R",\s*(\d+),\s*<<\s*(-?\d+),\s*(-?\d+),\s*(-?\d+)\s*>>\s*>>', o):
    f, m, ex = rows[int(i)]; n += 1
    lo, hi, e = int(lo), int(hi), int(e)
    y = fns[f][1](mp.ldexp(mp.mpf(m), ex))
    L, H = mp.ldexp(mp.mpf(lo), e), mp.ldexp(mp.mpf(hi), e)
    if not (L <= y <= H): 
        if abs(e) < 5000: print("NOT CONTAINED", f, m, ex, mp.nstr((y-L)/(H-L) if H>L else y-L, 10), mp.nstr(y,20), mp.nstr(L,20))
    w = mp.log((H-L)/abs(y), 2) if H > L and y != 0 else -999
    worst[f] = max(worst.get(f, -9999), float(w))
print(n, "of", len(rows), worst)
if n < len(rows): print(o[-3000:])
