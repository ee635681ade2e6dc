#!/usr/bin/env python3-vt
"""difftest.py: the verifier against the machine. Compiles difftest/ops.cpp (which does not depend on /repo) natively and to the IR
the verifier reads. For every function and many inputs: (1) executed by the verifier on those inputs, the only path must return what
the machine returns; (2) executed on symbolic inputs, some path must admit that input and that result (a path condition or
loop summary that excludes a real run would make proofs unsound), and where no loop rule was used the result must be the only one."""
import ctypes, multiprocessing, os, random, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "vc"))
import z3
import build, stubs
import exec as X
from llvm import Module, Layouts, Unsupported
from sym import State, bv

def one(job):
    """-> (name, differences, concrete comparisons, symbolic comparisons, undecided, skipped)"""
    nm, so, n, budget, seed = job
    mod, lay = ENV
    rnd = random.Random("%s %s" % (seed, nm))
    bad, concrete, symbolic, skipped = [], 0, 0, []
    f = getattr(ctypes.CDLL(so), "t_" + nm)
    f.restype, f.argtypes = ctypes.c_uint64, [ctypes.c_uint64] * 2
    ins = [(x, y) for x in (0, 1, 2, 3) for y in (0, 1, 2)] + [(2**64 - 1, 1), (2**63, 2**63), (2**32 - 1, 2**32), (255, 128)]
    ins += [(rnd.getrandbits(rnd.choice((3, 8, 16, 33, 64))), rnd.getrandbits(rnd.choice((3, 8, 16, 33, 64)))) for _ in range(n)]
    if nm == "lopaque":
        ins = [(x, y) for x, y in ins if x < 2**60]
    want = {(x, y): f(x, y) for x, y in ins}
    UNDECIDED[0] = 0

    def exe():
        ex = X.Exec(mod, lay, props=frozenset(("T",)))
        ex.crash_prop, ex.unit, ex.deadline, ex.dep = ("T",), nm, time.time() + budget, None
        stubs.install(ex)
        return ex
    loop = nm[0] == "l" and nm not in ("logic", "lshr", "lim", "lambda")
    for x, y in ins[:8] + rnd.sample(ins[8:], min(6, len(ins) - 8)):
        if loop and (x & 0xffff) > 40:
            continue
        try:
            ex = exe()
            out = [s for s in ex.run_function(State(), "t_" + nm, [x, y])]
        except Unsupported as e:
            skipped.append((nm, "concrete", str(e)[:100])); break
        conc = [s for s in out if s.status == "ret" and not z3.is_expr(s.ret)]
        concrete += 1
        if len(out) == 1 and len(conc) == 1:
            if bv(conc[0].ret, 64).as_long() != want[x, y]:
                bad.append((nm, x, y, "executes to %s, the machine returns %s" % (conc[0].ret, want[x, y])))
        elif not any(consistent(s, [], want[x, y]) for s in out):
            bad.append((nm, x, y, "no path returns what the machine returns, %s" % want[x, y]))
        if any(o.failed for o in ex.obls.values()):
            bad.append((nm, x, y, "a run that is fine is reported: %s" % [o.name for o in ex.obls.values() if o.failed][0]))
    try:
        ex = exe()
        a, b = z3.BitVecs("a b", 64)
        out = [s for s in ex.run_function(State(), "t_" + nm, [a, b])]
    except Unsupported as e:
        skipped.append((nm, "symbolic", str(e)[:100]))
        return nm, bad, concrete, symbolic, UNDECIDED[0], skipped
    exact = not ex.loops_proved and nm != "lcas"
    t0 = time.time()
    for x, y in ins:
        if time.time() - t0 > budget:
            break
        sub = [a == x, b == y]
        symbolic += 1
        if not any(consistent(s, sub, want[x, y]) for s in out):
            bad.append((nm, x, y, "symbolically, no path admits the machine's result %s" % want[x, y]))
        elif exact and any(consistent(s, sub, want[x, y], True) for s in out):
            bad.append((nm, x, y, "symbolically, another result than %s is possible" % want[x, y]))
    return nm, bad, concrete, symbolic, UNDECIDED[0], skipped

def main(n=24, budget=300):
    global ENV
    src = os.path.join(HERE, "tools", "difftest", "ops.cpp")
    seed, t0 = os.environ.get("VERIF_SEED", "1"), time.time()
    with tempfile.TemporaryDirectory() as d:
        so, bc, ll = (os.path.join(d, f) for f in ("t.so", "t.bc", "t.ll"))
        flags = [f for f in build.FLAGS if "-DReiser" not in f]
        build.run([build.CLANG] + flags + ["-shared", "-o", so, src])
        build.run([build.CLANG] + flags + ["-emit-llvm", "-c", "-o", bc, src])
        build.run([build.LLBIN + "llvm-dis", bc, "-o", ll])
        ENV = (Module(bc), Layouts(open(ll).read()))
        names = sorted(f for f in (l.split("@t_")[1].split("(")[0] for l in open(ll) if l.startswith("define ") and "@t_" in l))
        with multiprocessing.get_context("fork").Pool(8) as p:
            jobs = [(nm, p.apply_async(one, ((nm, so, n, budget, seed),))) for nm in names]
            res = []
            for nm, j in jobs:
                try: res.append(j.get(max(1, t0 + 6 * budget - time.time())))
                except multiprocessing.TimeoutError: res.append((nm, [], 0, 0, 0, [(nm, "all", "time limit")]))
            p.terminate()
    bad = [x for r in res for x in r[1]]
    print("difftest: %d functions, %d concrete and %d symbolic comparisons, %d differences, %d comparisons undecided, %d skipped, %.0f s"
          % (len(names), sum(r[2] for r in res), sum(r[3] for r in res), len(bad), sum(r[4] for r in res),
             sum(len(r[5]) for r in res), time.time() - t0))
    for b in bad[:40]: print("  DIFFERENCE t_%s(%d, %d): %s" % b)
    for r in res:
        for s in r[5]: print("  skipped t_%s (%s): %s" % s)
    return not bad

ENV = None
UNDECIDED = [0]

def consistent(s, sub, want, other=False):
    if s.status != "ret": return False if not other else sat(list(s.pc) + sub, False)
    v = bv(s.ret, 64)
    return sat(list(s.pc) + sub + [v != want if other else v == want], not other)

def sat(cs, undecided):
    k = z3.Solver(); k.set("timeout", 10000); k.add(*cs)
    r = k.check()
    if r == z3.unknown:
        UNDECIDED[0] += 1
        return undecided
    return r == z3.sat

if __name__ == "__main__":
    sys.exit(0 if main() else 1)
