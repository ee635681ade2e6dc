"""Thorough tier: the obligations that z3 discharged are given to cvc5 as well.

A sample per unit, limited in time; cvc5 answering `sat` where z3 answered `unsat` is a disagreement, which fails the check."""
import hashlib
import os
import subprocess
import time

import z3

PER_UNIT = 400        # obligations written down per unit
SECONDS = 240         # time for cvc5 per unit
EACH_MS = 20000


class Logger:
    def __init__(self, directory):
        self.dir = directory
        self.seen = {}
        self.skipped = 0
        self.unit = None

    def __call__(self, ex, pc, notgoal, unit, name, r):
        if r != z3.unsat:
            return
        self.unit = unit
        s = z3.Solver()
        s.add(*pc)
        if notgoal is not None:
            s.add(notgoal)
        text = "(set-logic ALL)\n" + s.to_smt2()
        h = hashlib.sha1(text.encode()).hexdigest()
        if h in self.seen:
            return
        if len(self.seen) >= PER_UNIT:
            self.skipped += 1
            return
        p = os.path.join(self.dir, h + ".smt2")
        with open(p, "w") as f:
            f.write(text)
        self.seen[h] = (name, p)

    def summary(self):
        out = {"unit": self.unit, "solver": "cvc5 1.1.2", "obligations_given": 0, "confirmed": 0, "no_answer": 0, "not_expressible": 0,
               "not_tried": self.skipped, "disagreements": [], "seconds": 0}
        t = time.time()
        for h, (name, p) in self.seen.items():
            if time.time() - t > SECONDS:
                out["not_tried"] += 1
                continue
            out["obligations_given"] += 1
            try:
                r = subprocess.run(["cvc5", "--tlimit=%d" % EACH_MS, p], capture_output=True, text=True, timeout=EACH_MS / 1000 + 10)
                a = r.stdout.strip().split("\n")[-1]
            except subprocess.TimeoutExpired:
                a = "timeout"
            if a == "unsat":
                out["confirmed"] += 1
            elif a == "sat":
                out["disagreements"].append(name)
            elif "rror" in a or (a != "unknown" and r.returncode not in (0,) and "timeout" not in a and "interrupted" not in a):
                out["not_expressible"] += 1
            else:
                out["no_answer"] += 1
            if a != "sat":
                os.remove(p)
        out["seconds"] = round(time.time() - t, 1)
        return out
