"""Replayability."""
import json
import os
import random
import subprocess
import sys

from sim import core, gen, outcome, real, timeline as T

NAME = "C01"
LEVEL = "exploration"
QUICK, THOROUGH = 160, 20000
CHUNK = 80
REAL = T.REAL + ["DamageSimulator (with samples)", "KillTimeEstimator", "RotationAnalysisUtils", "printed CSV export", "the Python interpreter: every run starts fresh ones"]
STUB = ["the wall clock (frozen, backwards, jumping)", "the seeds of numpy's and Python's generators", "the hash seed, heap layout and garbage collector of each process"]
ASSUME = ["event ids are compared by order of first appearance", "sampled, not enumerated"]
RULE = ("A run is a batch of some rotations computed in two fresh interpreters that differ in hash seed, wall clock, heap layout, garbage collection, order of work, "
        "preceding other work and reuse of library and statistics; every outcome (presses, export, hits, per-skill damage, ranges, samples, kill times, intervals) "
        "must be identical. Non-trivial: at least one rotation with two or more skills.")
MEASURE = "distinct batches of rotations"
WANT = ("press", "inst", "skill", "sample", "kill", "csv", "interval")


def make(seed, i):
    rng = random.Random(seed)
    n = rng.randint(4, 14)
    cases = []
    while len(cases) < n:
        focus = rng.choice(["C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C19", "C20"])
        c = gen.make_real_case(rng, focus) if i % 4 == 0 and rng.random() < .7 else gen.make_case(rng.getrandbits(64), focus, small=rng.random() < .5)
        for _ in range(rng.choice([1, 1, 2])):
            c = T.copy(c)
            if cases and rng.random() < .5:
                c["ops"] = [o for o in c["ops"] if rng.random() < .8] or c["ops"]
            c["np"], c["samples"], c["hp"] = rng.getrandbits(32), rng.choice([1, 3, 5]), int(10 ** rng.uniform(2, 6))
            cases.append(c)
    prior = [gen.make_case(rng.getrandbits(64), rng.choice(["C06", "C08", "C12", "C13"]), small=True) for _ in range(rng.choice([0, 1, 2, 3]))]
    for c in prior:
        c["np"], c["samples"], c["hp"] = 1, 2, 1000
    envs = []
    for k in range(2):
        order = list(range(len(cases)))
        if k:
            rng.shuffle(order)
            order = [-1 - j for j in range(len(prior))] + order
            if rng.random() < .3:
                order = order[:1] * 2 + order  # the same work twice
        envs.append({"hash": rng.randint(1, 2 ** 32 - 1), "seed": rng.getrandbits(32), "clock": rng.choice(["real", "frozen", "backwards", "jumps", "slow"]) if k else "real",
                     "junk": rng.choice([0, 100, 5000]), "gc": rng.choice(["on", "off", "eager"]), "warm": k == 1 and rng.random() < .6, "order": order})
    return {"cases": cases, "prior": prior, "envs": envs}


def run_child(case, env, full=False):
    e = dict(os.environ, PYTHONHASHSEED=str(env["hash"]))
    p = subprocess.run([sys.executable, os.path.join(core.VERIF, "sim", "child.py"), "--norandom"], env=e, text=True, capture_output=True,
                       input=json.dumps({"env": env, "cases": case["cases"], "prior": case["prior"], "want": WANT, "full": full}))
    if p.returncode:
        raise RuntimeError("child failed: " + p.stderr[-2000:])
    return json.loads(p.stdout)


def judge(case):
    a, b = [run_child(case, e) for e in case["envs"]]
    x, y = case["envs"]
    faults = {"other hash seed": x["hash"] != y["hash"], "clock " + y["clock"]: 1, "preceding work": any(k < 0 for k in y["order"]),
              "other order of work": [k for k in y["order"] if k >= 0] != x["order"], "reused library and statistics": y["warm"],
              "other heap or collector": (x["junk"], x["gc"]) != (y["junk"], y["gc"])}
    v = core.Verdict(faults={k: int(n) for k, n in faults.items() if n}, probes={"rotations": len(case["cases"])})
    v.sig = core.digest(case["cases"]) if any(len({o["skill"] for o in c["ops"]}) > 1 for c in case["cases"]) else None
    if a != b:
        a, b = [run_child(case, e, True) for e in case["envs"]]
        for k in sorted(a, key=int):
            d = outcome.differs(a[k], b[k]) if k in b else None
            if d:
                v.violation = ("differs", f"rotation {k}, first process against second: {d}")
                return v
        v.violation = ("differs", "the outcome differs between two processes, but not when asked again")
    return v


def shrink(case):
    n = len(case["cases"])

    def renumber(c, keep):
        m = {old: new for new, old in enumerate(keep)}
        c["cases"] = [c["cases"][k] for k in keep]
        for e in c["envs"]:
            e["order"] = [k if k < 0 else m[k] for k in e["order"] if k < 0 or k in m]
        return c
    if n > 1:
        for k in range(n):
            yield renumber(T.copy(case), [k])
        for k in range(n):
            yield renumber(T.copy(case), [j for j in range(n) if j != k])
    if case["prior"]:
        c = T.copy(case)
        c["prior"] = []
        for e in c["envs"]:
            e["order"] = [k for k in e["order"] if k >= 0]
        yield c
    x, y = case["envs"]
    for f in ("clock", "junk", "gc", "warm", "hash", "order"):
        if x[f] != y[f]:
            c = T.copy(case)
            c["envs"][1][f] = x[f]
            yield c
    if n == 1:
        c0 = case["cases"][0]
        k = len(c0["ops"]) // 2
        while k >= 1:
            for i in range(0, len(c0["ops"]), k):
                c = T.copy(case)
                del c["cases"][0]["ops"][i:i + k]
                if c["cases"][0]["ops"]:
                    yield c
            k //= 2


def prepare(seed, tier):
    T.prepare()
