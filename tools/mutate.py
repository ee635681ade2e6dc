#!/usr/bin/env python3-vt
"""mutate.py FILE.. [-n MAX] [-s SKIP]: single-point mutants of the given source files of /repo (in a scratch copy), each tried
against all units of the affected modules; prints those that no obligation notices."""
import os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "vc"))
MODS = {"Semaphore": ["sem"], "Mutex": ["mutex"], "RingBufferSimple": ["ring"], "RingBufferGuarded": ["rbg"],
        "MemoryPool": ["pool", "opool"], "BlockPool": ["opool"], "ObjectPool": ["opool"], "MessageQueue": ["mq"]}
args = sys.argv[1:]
MAX = int(args[args.index("-n") + 1]) if "-n" in args else 10**6
SKIP = int(args[args.index("-s") + 1]) if "-s" in args else 0
files = [a for a in args if a.endswith("pp")]
T = tempfile.mkdtemp(prefix="mut_")
os.environ["VERIF_REPO"] = T
subprocess.run("git -C /repo archive HEAD | tar -x -C %s" % T, shell=True, check=True)
import build, runner

def code_lines(text):
    """(line number, code) without comments, #else branches and declarations"""
    incomment, skip = False, 0
    for i, l in enumerate(text.split("\n")):
        s = l
        if incomment:
            if "*/" in s: incomment = False; s = s.split("*/", 1)[1]
            else: continue
        s = re.sub(r"/\*.*?\*/", "", s)
        if "/*" in s: incomment = True; s = s.split("/*")[0]
        s = re.sub(r"//.*", "", s)
        if re.match(r"\s*#ifndef REISER_RT_HAS_PTHREADS", s): skip = 1
        elif re.match(r"\s*#else", s): skip = 1 - skip if skip else 1
        elif re.match(r"\s*#endif", s): skip = 0
        if skip or not s.strip() or s.strip().startswith("#") or "static_assert" in s or "template" in s or "= delete" in s: continue
        yield i, s

RULES = [(r"==", "!="), (r"!=", "=="), (r"<(?=\s)(?!<)", "<="), (r"(?<=\s)<(?=\s)", ">"), (r"(?<=\s)>(?=\s)", ">="), (r"(?<=\s)>(?=\s)", "<"),
         (r"\+\+", "--"), (r"--", "++"), (r"(?<=\s)\+(?=\s)", "-"), (r"(?<=\s)-(?=\s)", "+"), (r"(?<=\s)\*(?=\s\w)", "+"), (r"%", "/"),
         (r"&&", "||"), (r"\|\|", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<![\w.'\"])0(?![\w.])", "1"), (r"(?<![\w.'\"])1(?![\w.])", "0"),
         (r"(?<![\w.'\"])1(?![\w.])", "2"), (r"(?<![\w.'\"])2(?![\w.])", "3"),
         (r">>", "<<"), (r"(?<=\s)&(?=\s)", "|"), (r"\bif \( (?=.*\))", "if ( ! "), (r"~0", "0"),
         (r"nullptr", "(decltype(nullptr))1") if False else (r"compare_exchange_weak", "compare_exchange_weak_")]

def mutants(text):
    lines = text.split("\n")
    for i, s in code_lines(text):
        for a, b in RULES[:-1]:
            for m in re.finditer(a, s):
                l = lines[i]
                if a.startswith(r"\bif"):
                    k = l.index("if (") + 4
                    d = 1; e = k
                    while e < len(l) and d:
                        d += {"(": 1, ")": -1}.get(l[e], 0); e += 1
                    if d: continue
                    yield i, l[:k] + "!( " + l[k:e - 1] + ")" + l[e - 1:]
                    continue
                yield i, l[:m.start()] + b + l[m.end():]
        t = s.strip()
        if t.endswith(";") and not re.match(r"(return\b|using\b|friend\b|class\b|struct\b|const\b|typedef\b|alignas|explicit|virtual|inline|static|\[\[|public|private|}|~|\w[\w:<>]* [&*]?\w+;$)", t):
            yield i, re.sub(r"\S.*", ";", lines[i], count=1)

try:
    for f in files:
        base = os.path.basename(f)
        key = max((k for k in MODS if base.startswith(k)), key=len)
        mods = MODS[key]
        path = os.path.join(T, "src", base)
        text = open(path).read()
        us = runner.load_units(mods)
        har = sorted({h for M, _ in us for h in M.HARNESS})
        seen = set()
        ms = [m for m in mutants(text)]
        print("%s: %d mutants" % (base, len(ms)), flush=True)
        st = {"killed": 0, "stillborn": 0, "survived": 0, "undecided": 0}
        for k, (i, l) in enumerate(ms[SKIP:SKIP + MAX]):
            lines = text.split("\n")
            if (i, l) in seen or lines[i] == l: continue
            seen.add((i, l))
            old = lines[i]; lines[i] = l
            open(path, "w").write("\n".join(lines))
            d = tempfile.mkdtemp()
            t0 = time.time()
            try:
                try: mod, lay = build.load(har, d)
                except build.BuildError: st["stillborn"] += 1; continue
                except Exception as e: st["undecided"] += 1; print("  undecided (%s) line %d: %s" % (str(e)[:80], i + 1, l.strip())); continue
            finally:
                shutil.rmtree(d)
            bad = lambda r: any(o["failed"] for o in r["obls"])
            props = sorted({p for _, u in us for p in u.props})
            res = runner.run_units(mod, lay, [u for _, u in us], props, budget=120, stop=bad, until=time.time() + 400)
            if any(bad(r) for r in res): st["killed"] += 1
            elif any(r["error"] or r["unknowns"] for r in res):
                st["undecided"] += 1
                e = [r["error"] or r["unknowns"][0] for r in res if r["error"] or r["unknowns"]]
                print("  undecided %s:%d: %s   <- %s   [%s]" % (base, i + 1, l.strip(), old.strip(), str(e[0])[:120]), flush=True)
            else:
                st["survived"] += 1
                print("  SURVIVED %s:%d: %s   <- %s   (%ds)" % (base, i + 1, l.strip(), old.strip(), time.time() - t0), flush=True)
        open(path, "w").write(text)
        print(base, st, flush=True)
finally:
    shutil.rmtree(T)
