"""Rotation analysis conserves damage."""
import contextlib
import math
import random

import numpy as np

from sim import core, formula, gen, outcome, real, sheet, timeline as T

NAME = "C18"
LEVEL = "exploration"
QUICK, THOROUGH = 6000, 250000
REAL = ["RotationAnalysisUtils", "DamageSimulator.get_per_skill_damage (in the fights)", "RotationBuilder and DamageBuilder (in the fights)"]
STUB = ["numpy's choice: every resampled run is picked by the simulator"]
ASSUME = ["snapshot times within 1e-6 ms of a timestamp may fall either way", "sampled, not enumerated"]
RULE = ("A run is one list of per-skill damage (generated with snapshot times on and around interval boundaries, or from a simulated fight) asked for at "
        "seeded times and intervals, or one set of runs resampled with seeded picks (all the best, all the worst, each equally often, random). Non-trivial: two or more "
        "hits or runs.")
MEASURE = "distinct (rows, interval, timestamps) and (runs, k, picks)"


def make(seed, i):
    rng = random.Random(seed)
    k = rng.random()
    if k < .3:
        n = rng.choice([1, 2, 3, 8, 20])
        if rng.random() < .25:  # every run equally often, one run per trial: the mean of all runs, repeated values included
            few = [rng.choice([rng.randint(0, 9), rng.uniform(0, 30000), -5.0]) for _ in range(rng.choice([1, 2, 3]))]
            return {"kind": "max", "x": [rng.choice(few) for _ in range(n)], "k": 1, "trials": 40 * n, "picks": "even", "seed": rng.getrandbits(32), "tuple": rng.random() < .3}
        if rng.random() < .04:
            n = rng.choice([100, 1000, 1025, 5000])
            return {"kind": "max", "x": [round(rng.uniform(0, 30000), 3) for _ in range(n)], "k": rng.choice([1, 2, 50, 129]), "trials": rng.choice([300, 1001]),
                    "picks": "random", "seed": rng.getrandbits(32), "tuple": False}
        return {"kind": "max", "x": [rng.choice([rng.uniform(0, 30000), rng.randint(0, 9), -5.0, 1e9]) for _ in range(n)], "k": rng.choice([1, 1, 2, 3, 7, n]),
                "trials": rng.choice([1, 2, 5, 20]), "picks": rng.choice(["random", "random", "best", "worst", "one best"]), "seed": rng.getrandbits(32),
                "tuple": rng.random() < .3}
    if k < .42:
        return {"kind": "fight", "fight": gen.make_case(rng.getrandbits(64), rng.choice(["C05", "C08", "C11", "C10"]), small=True),
                "interval": rng.choice([1, 2, 3, 5]), "at": [rng.choice([rng.randint(-2, 40), rng.uniform(0, 30)]) for _ in range(4)]}
    interval = rng.choice([1, 1, 2, 3, 5, 10, 60])
    rows = []
    if rng.random() < .02:  # a long fight
        n, long = rng.choice([300, 1001, 2049]), rng.choice([300, 700, 1300])
        rows = [[rng.choice([rng.randint(0, long) * 1000, rng.randint(-3000, long * 1000)]), round(rng.uniform(0, 40000), 2)] for _ in range(n)]
        return {"kind": "rows", "rows": rows, "interval": interval, "at": [rng.randint(0, long) for _ in range(5)]}
    for _ in range(rng.choice([0, 1, 2, 4, 9, 25])):
        t = rng.choice([rng.randint(0, 8) * interval * 1000, rng.randint(0, 8) * interval * 1000 + rng.choice([-1, 1, .25, -.25]), rng.randint(-3000, 40000),
                        rng.randint(0, 40) * 100 + .1 * 3])
        rows.append([t, rng.choice([rng.uniform(0, 40000), rng.randint(0, 5), 0, 12345.67])])
    if rng.random() < .3:
        rows.sort()
    at = [rng.choice([rng.randint(-2, 12) * interval, rng.uniform(-1, 40), rows[rng.randrange(len(rows))][0] / 1000 if rows else 0]) for _ in range(5)]
    return {"kind": "rows", "rows": rows, "interval": interval, "at": at}


def row(t, d):
    from ama_xiv_combat_sim.simulator.damage_simulator import PerInstanceDamage
    return PerInstanceDamage(application_time=t + 500, snapshot_time=t, skill_name="A", potency=1, skill_modifier_condition=set(), status_effects=(),
                             expected_damage=d, standard_deviation=0, event_id=0, target="Boss", damage_class=None)


def judge(case):
    v = core.Verdict(sig=core.digest(case), faults={case["kind"]: 1})
    try:
        with real.quiet():
            v.violation = maxima(case, v) if case["kind"] == "max" else cumulative(case, v)
    except core.NoProgress:
        raise
    except Exception as e:
        v.violation = ("raises", f"{type(e).__name__}: {e}"[:400])
    return v


@contextlib.contextmanager
def picking(case, log):
    rng = random.Random(case["seed"])
    state = {"at": 0}

    def pick(pool, size):
        pool = list(np.asarray(pool).ravel())
        n = int(np.prod(size))
        if case["picks"] == "even":
            out = [pool[(state["at"] + j) % len(pool)] for j in range(n)]
            state["at"] += n
        elif case["picks"] == "best":
            out = [max(pool)] * n
        elif case["picks"] == "worst":
            out = [min(pool)] * n
        else:
            out = [rng.choice(pool) for _ in range(n)]
            if case["picks"] == "one best" and n:
                out[rng.randrange(n)] = max(pool)
        return np.asarray(out).reshape(size)

    def shape(size):
        return () if size is None else tuple(size) if isinstance(size, (tuple, list)) else (int(size),)

    def choice(a, size=None, replace=True, p=None):
        if isinstance(a, (int, np.integer)):
            idx = np.arange(a)
            mine = a == len(case["x"]) and case["picks"] != "even"
            vals = pick(case["x"], shape(size)) if mine else pick(idx, shape(size))
            out = np.vectorize(lambda y: case["x"].index(y))(vals) if mine else vals
            log.append((shape(size), np.asarray(case["x"])[out]))
            return out if size is not None else int(out)
        out = pick(a, shape(size))
        log.append((shape(size), np.asarray(out)))
        return out if size is not None else float(out)

    def randint(low, high=None, size=None, dtype=int):
        low, high = (0, low) if high is None else (low, high)
        if (low, high) != (0, len(case["x"])):
            raise AssertionError("unforeseen draw")
        return choice(high, size)

    old = {n: getattr(np.random, n) for n in ("choice", "randint")}
    try:
        np.random.choice, np.random.randint = choice, randint
        yield
    finally:
        for n, f in old.items():
            setattr(np.random, n, f)


def maxima(case, v):
    u = real.R().RotationAnalysisUtils
    log = []
    x = tuple(case["x"]) if case["tuple"] else np.asarray(case["x"])
    before = list(x)
    with picking(case, log):
        got = float(u.get_expected_max_in_k_runs(x, case["k"], num_trials=case["trials"]))
    if list(x) != before:
        return ("argument", "the runs passed by the caller were modified")
    lo, hi = min(case["x"]), max(case["x"])
    tol = 1e-9 * max(1, abs(lo), abs(hi))
    if not lo - tol <= got <= hi + tol:
        return ("bounds", f"expected maximum {got} of runs between {lo} and {hi}")
    if case["picks"] == "even" and log and abs(got - math.fsum(case["x"]) / len(case["x"])) > .03 * (hi - lo) + tol:
        return ("resampling", f"single runs picked equally often average {got}, all runs {math.fsum(case['x']) / len(case['x'])}")
    draws = np.concatenate([a.ravel() for _, a in log]) if log else np.asarray([])
    if draws.size == case["k"] * case["trials"]:
        v.probes["draws matched"] = 1
        # consecutive picks form a trial; a table of picks may hold the trials in its columns
        ways = [draws.reshape(case["trials"], case["k"]).max(axis=1).mean()]
        if len(log) == 1 and log[0][1].ndim == 2 and log[0][1].shape == (case["k"], case["trials"]):
            ways.append(log[0][1].max(axis=0).mean())
        if all(abs(got - w) > tol for w in ways):
            return ("resampling", f"expected maximum {got}, the picked runs give {ways[0]}")
    elif draws.size:
        return ("draws", f"{draws.size} runs were picked for {case['trials']} trials of {case['k']}")
    return None


def cumulative(case, v):
    u = real.R().RotationAnalysisUtils
    if case["kind"] == "fight":
        try:
            stats, lib, rb = outcome.build(case["fight"])
            sim = real.R().DamageSimulator(stats, real.R().DamageBuilder(stats, lib).get_damage_instances(rb.get_skill_timing()), 1)
        except (KeyError, RuntimeError):
            v.note = "rejected"
            return None
        rows = sim.get_per_skill_damage(rb)
        snaps = {e.event_id: (float(e.event_times.primary), e.skill.name) for e in rb.get_skill_timing().get_q()}
        for r in rows:
            if r.snapshot_time is None or (float(r.snapshot_time), r.skill_name) != snaps.get(r.event_id):
                return ("snapshot", f"hit of {r.skill_name} at {r.application_time} has snapshot time {r.snapshot_time}, its event {snaps.get(r.event_id)}")
        if any(float(r.snapshot_time) > float(r.application_time) + 1e-6 for r in rows):
            return ("snapshot", f"a hit applies before it snapshots: {rows}"[:300])
    else:
        rows = [row(t, d) for t, d in case["rows"]]
    data = [(float(r.snapshot_time), float(r.expected_damage)) for r in rows]
    total = math.fsum(d for _, d in data)
    if len(data) < 2:
        v.sig = None

    def upto(ms, eps=0.0):
        return math.fsum(d for t, d in data if t <= ms + eps)

    def bad(ms, got, slack):
        lo, hi = upto(ms, -2e-6), upto(ms, 2e-6)
        return not (lo - slack <= got <= hi + slack)

    slack = 1e-9 * max(1, total)
    seen = []
    for t in sorted(case["at"]):
        got = float(u.get_all_damage_snapshots_before_timestamp(rows, t))
        if bad(1000 * t, got, slack):
            return ("cumulative", f"up to {t} s: {got}, the snapshots give {upto(1000 * t)}")
        if seen and got < seen[-1] - slack:
            return ("decreases", f"cumulative damage {got} at {t} s after {seen[-1]}")
        seen.append(got)
    if not rows:
        return None
    res = u.get_dps_at_intervals(rows, case["interval"])
    ts, ds = [float(x) for x in res["snapshot_time"]], [float(x) for x in res["total_snapshotted_damage"]]
    if len(ts) != len(ds) or not ts:
        return ("intervals", f"{len(ts)} times for {len(ds)} values")
    last = max(t for t, _ in data)
    for t, d in zip(ts, ds):
        if bad(1000 * t, d, .0051 + slack):
            return ("interval damage", f"up to {t} s: {d}, the snapshots give {upto(1000 * t)} (interval {case['interval']} s)")
    if any(b < a - .01 for a, b in zip(ds, ds[1:])) or any(b <= a for a, b in zip(ts, ts[1:])):
        return ("order", f"times {ts} or damage {ds} not increasing")
    if abs(ds[-1] - total) > .0051 + slack:
        return ("total", f"ends at {ds[-1]}, all hits together {total} (interval {case['interval']} s)")
    if last >= 0 and abs(1000 * ts[-1] - last) > 1e-6:
        return ("last time", f"the last entry is at {ts[-1]} s, the last snapshot at {last / 1000} s")
    # a value for every interval before the last snapshot
    want = [k * case["interval"] for k in range(1, int(last / 1000 / case["interval"]) + 2) if 1000 * k * case["interval"] < last - 1e-6]
    if [t for t in ts if 1000 * t < last - 1e-6 and t > 0] != [float(w) for w in want]:
        return ("interval times", f"times {ts}, expected every {case['interval']} s before {last / 1000} s")
    return None


def shrink(case):
    if case["kind"] == "fight":
        for f in T.shrink_case(case["fight"]):
            yield dict(case, fight=f)
    key = {"rows": "rows", "max": "x"}.get(case["kind"])
    if key:
        n = len(case[key])
        for a, b in ((0, n // 2), (n // 2, n), (0, n * 9 // 10)) if n > 30 else ():
            yield dict(case, **{key: case[key][a:b]})
        for i in range(len(case[key])):
            c = T.copy(case)
            del c[key][i]
            if case.get("picks") == "even":
                c["trials"] = 40 * len(c["x"])
            if c[key]:
                yield c
    if case["kind"] == "max" and case["picks"] != "even":
        for f, y in (("trials", 1), ("k", 1), ("picks", "random")):
            if case[f] != y:
                yield dict(case, **{f: y})
    elif case["kind"] != "max":
        for i in range(len(case["at"])):
            c = T.copy(case)
            del c["at"][i]
            yield c
