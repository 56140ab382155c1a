"""Kill times."""
import math
import random

import numpy as np

from sim import core, formula, gen, outcome, real, sheet, timeline as T

NAME = "C16"
LEVEL = "exploration"
QUICK, THOROUGH = 8000, 400000
REAL = ["KillTimeEstimator", "DamageSimulator", "DamageTracker", "RotationBuilder", "DamageBuilder"]
STUB = ["numpy's uniform generator: each sample's draws are decided by the simulator", "the boss (its HP)", "the other players (their rotations)"]
ASSUME = ["the damage formula as restated in sim/formula.py; the hits of each rotation as the builders give them (judged by the other properties)",
          "sampled, not enumerated"]
RULE = ("A run is one to four rotations (of several players, with limit breaks among the hits) merged for one boss, with seeded draws per sample and a "
        "boss HP on, just above or just below the accumulated damage at some hit. Kill times are recomputed by an own merge. Non-trivial: two or more "
        "hits. Two runs are the same if rotations, draws and HP agree.")
MEASURE = "distinct (rotations, draws, HP)"
TOP = 1 - 2.0 ** -53


def make(seed, i):
    rng = random.Random(seed)
    k = rng.choice([1, 1, 2, 2, 3, 4])
    rots = []
    for a in range(k):
        s = sheet.make_stats(rng)
        s.update(main_stat=rng.randint(2500, 4800), version="7.1", level=100)
        hits = sheet.make_hits(rng, rng.choice([1, 2, 4, 6]), "ABCD"[a])
        for h in hits:
            h["cls"] = rng.choice(["DIRECT", "DIRECT", "PHYSICAL_DOT"])
            h["t"] = abs(h["t"])
            h.pop("gc", None), h.pop("gd", None), h.pop("mgc", None), h.pop("mgd", None)
            h["b"], h["d"] = {}, {}
            if rng.random() < .25:
                h["name"] += " LB " + str(rng.randint(1, 3)) if rng.random() < .5 else "LB"
                x = rng.choice([1000, 54321, 7, 250000, 1234567, rng.randint(1, 400000), rng.choice([16777217, 33554435, 98765431])])
                h["lb"] = [rng.choice(["Mean Damage", "Exact Damage"]), x]
                h["extra"] = rng.choice([[], [], ["Positional"], ["No Combo", "Zeta"], ["Buff 3", "4 Stack"], ["12 Foo", "A", "Zz 9"]])
        rots.append({"stats": s, "hits": hits, "start": rng.choice([None, 0, 0]), "order": rng.sample(range(len(hits)), len(hits))})
    s = rng.choice([1, 2, 3, 5, 9])
    us = [rng.choice([0.0, TOP, rng.random(), rng.random(), rng.random()]) for _ in range(s)]
    case = {"rots": rots, "us": us, "hp": [rng.choice(["at", "at", "above", "below", "over", "one", "mid"]), rng.random(), rng.randrange(s)],
            "seed": rng.getrandbits(32), "twice": rng.random() < .2}
    big = rng.random()
    if big < .01:
        case["samples"] = rng.choice([256, 257, 999, 1000, 1025, 2001])
    elif big < .02:
        case["repeat"] = rng.choice([20, 60, 150])
    elif big < .12:
        case["doubles"] = [rng.randrange(k) for _ in range(rng.choice([1, 1, 2]))]  # players with the same rotation, added as the same object
    return case


def enlarged(case):
    """many samples or a long fight, from their short description"""
    if case.get("repeat", 1) > 1:
        rots = []
        for rot in case["rots"]:
            hits = [dict(h, t=h["t"] + 9000 * k) for k in range(case["repeat"]) for h in rot["hits"]]
            rots.append(dict(rot, hits=hits, order=random.Random(case["seed"]).sample(range(len(hits)), len(hits))))
        case = dict(case, rots=rots)
    if case.get("samples", 0) > len(case["us"]):
        rng = random.Random(case["seed"])
        case = dict(case, us=case["us"] + [rng.random() for _ in range(case["samples"] - len(case["us"]))])
    return case


def build(rot):
    """a real rotation with exactly the given hits, on a library of its own"""
    r = real.R()
    job = rot["stats"]["job_class"]
    lib = r.SkillLibrary(rot["stats"]["version"], rot["stats"]["level"])
    lib.set_current_job_class(job)
    stats = real.mk_stats(rot["stats"])
    seen = {}
    for h in rot["hits"]:
        if h["name"] in seen:
            continue
        seen[h["name"]] = h
        lib.add_skill(r.Skill(name=h["name"], is_GCD=False, timing_spec=r.TimingSpec(base_cast_time=0, animation_lock=0, application_delay=0),
                              damage_spec=r.DamageSpec(potency=h["potency"], damage_class=r.DamageClass[h["cls"]])))
    rb = r.RotationBuilder(stats, lib, fight_start_time=rot["start"])
    for k in rot["order"]:
        h = rot["hits"][k]
        cond = ", ".join(h.get("extra", []) + ([f"{h['lb'][0]}: {h['lb'][1]}"] if "lb" in h else []))
        rb.add(gen.exact(h["t"]), h["name"], skill_modifier=r.SkillModifier(with_condition=cond) if cond else None, targets=h["target"])
    return rb, stats, lib


def doubles(case):
    return [case["rots"][i] for i in case.get("doubles", ()) if i < len(case["rots"])]


def expected(case):
    """per rotation the instances; per sample the merged (time, damage)"""
    r = real.R()
    merged = [[] for _ in case["us"]]
    for rot in case["rots"] + doubles(case):
        rb, stats, lib = build(rot)
        hero = formula.Hero(rot["stats"])
        for inst in r.DamageBuilder(stats, lib).get_damage_instances(rb.get_skill_timing()):
            h = formula.from_instance(inst, hero)
            lb = [c for c in inst[2].with_condition if c.startswith(("Mean Damage", "Exact Damage"))]
            for j, u in enumerate(case["us"]):
                if lb and "LB" in inst[1].name:
                    kind, x = lb[0].split(": ")
                    x = float(x)
                    dmg = x if kind.startswith("Exact") else math.floor(x * (.95 + .1 * u))
                    any_ = {x} if kind.startswith("Exact") else sheet.floors(x * (.95 + .1 * u))
                else:
                    dmg = h.value(u, h.crit > u, h.dh > u)
                    any_ = sheet.values(h, u, h.crit > u, h.dh > u)
                merged[j].append((inst[0], dmg, len(any_) > 1))
    for m in merged:
        m.sort(key=lambda x: x[0])
    return merged


def judge(case):
    case = enlarged(case)
    with real.quiet():
        merged = expected(case)
    if not merged[0]:
        return core.Verdict(note="rejected")
    v = compare(case, [[x[:2] for x in m] for m in merged])
    if v.violation and v.violation[0] in ("kill time", "accumulated") and any(x[2] for m in merged for x in m):
        return core.Verdict(note="ambiguous")  # some value depends on the last bit before a floor
    return v


def compare(case, merged):
    r = real.R()
    n, s = len(merged[0]), len(case["us"])
    kind, frac, j = case["hp"]
    cum = np.cumsum([d for _, d in merged[j]]).tolist()
    at = cum[min(n - 1, int(frac * n))]
    hp = {"at": at, "above": at + 1, "below": max(1, at - 1), "over": cum[-1] + 1, "one": 1, "mid": max(1, math.floor(cum[-1] * frac))}[kind]
    want = []
    for m in merged:
        acc, t0 = 0.0, None
        for t, d in m:
            acc += d
            if acc >= hp:
                t0 = t / 1000
                break
        want.append(t0)
    odd = {"x": False}

    def give(shape, k):
        if shape and shape[-1] == s:
            return np.broadcast_to(np.asarray(case["us"]), shape)
        if int(np.prod(shape)) > n:
            odd["x"] = True
        return np.full(shape, case["us"][0])

    v = core.Verdict(sig=core.digest([case["rots"], case["us"], hp]) if n > 1 else None, sim_ms=merged[0][-1][0] - merged[0][0][0],
                     faults={"boss HP " + kind: 1, "rotations merged": len(case["rots"]),
                             "limit break": sum("lb" in h for x in case["rots"] for h in x["hits"])},
                     probes={"some samples fail": int(None in want and any(w is not None for w in want)), "all samples fail": int(not any(w is not None for w in want))})
    try:
        with real.quiet(), sheet.Draws(give).on():
            k = r.KillTimeEstimator(boss_hp=hp)
            built = [build(rot)[0] for rot in case["rots"]]
            for rb in built:
                k.add_rotation(rb)
            for i in case.get("doubles", ()):
                if i < len(built):
                    k.add_rotation(built[i])
            kt, cs, all_t = k.estimate_kill_time(num_samples=s, verbose=False)
            if case["twice"]:
                kt2, cs, all_t = k.estimate_kill_time(num_samples=s, verbose=False)
                if outcome.canon(kt) != outcome.canon(kt2):
                    v.violation = ("twice", f"asked twice: {list(kt)} then {list(kt2)}")
                    return v
    except core.NoProgress:
        raise
    except Exception as e:
        v.violation = ("raises", f"{type(e).__name__}: {e}"[:400])
        return v
    kt, cs, all_t = list(kt), np.asarray(cs), [float(t) for t in all_t]
    if len(kt) != s:
        v.violation = ("samples", f"{len(kt)} kill times for {s} samples")
    elif any(a is None and b is not None for a, b in zip(kt, kt[1:])):
        v.violation = ("failures", f"failures are not last: {kt}")
    elif all_t != [float(t) for t, _ in merged[0]]:
        v.violation = ("times", f"merged hit times {all_t}, expected {[t for t, _ in merged[0]]}")
    elif cs.shape != (n, s):
        v.violation = ("shape", f"accumulated damage has shape {cs.shape} for {n} hits and {s} samples")
    elif not odd["x"]:
        got = sorted([round(float(x), 6) for x in kt if x is not None])
        w = sorted([round(x, 6) for x in want if x is not None])
        if got != w:
            v.violation = ("kill time", f"boss HP {hp}: kill times {got} (then failures), expected {w}")
        else:
            # simultaneous hits may be summed in either order: compare where the time changes
            for j in range(s):
                acc = 0.0
                for i, (t, d) in enumerate(merged[j]):
                    acc += d
                    if (i + 1 == n or merged[j][i + 1][0] != t) and abs(cs[i, j] - acc) > 1e-6 * max(1, acc):
                        v.violation = ("accumulated", f"sample {j}: {cs[i, j]} accumulated up to {t} ms, expected {acc}")
                        return v
    return v


def shrink(case):
    for i in range(len(case["rots"])):
        if len(case["rots"]) > 1:
            c = T.copy(case)
            del c["rots"][i]
            yield c
        for k in range(len(case["rots"][i]["hits"])):
            c = T.copy(case)
            del c["rots"][i]["hits"][k]
            o = c["rots"][i]["order"]
            c["rots"][i]["order"] = [x - (x > k) for x in o if x != k]
            if c["rots"][i]["hits"]:
                yield c
            if case["rots"][i]["hits"][k].get("extra"):
                c = T.copy(case)
                c["rots"][i]["hits"][k]["extra"] = []
                yield c
    if len(case["us"]) > 1:
        for j in range(len(case["us"])):
            c = T.copy(case)
            del c["us"][j]
            c["hp"][2] = min(c["hp"][2], len(c["us"]) - 1)
            yield c
    if case["twice"]:
        yield dict(case, twice=False)
    if case.get("doubles"):
        yield dict(case, doubles=case["doubles"][1:])
    if case.get("samples"):
        for k in (0, case["samples"] // 2, case["samples"] - 1):
            yield dict(case, samples=k)
    if case.get("repeat", 1) > 1:
        for k in (1, case["repeat"] // 2, case["repeat"] - 1):
            yield dict(case, repeat=k)
