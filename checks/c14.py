"""Every sampled hit is a possible hit."""
import math
import random

import numpy as np

from sim import core, gen, formula, outcome, real, sheet, timeline as T

NAME = "C14"
LEVEL = "exploration"
QUICK, THOROUGH = 14000, 600000
REAL = ["DamageSimulator", "DamageTracker", "ComputeDamageUtils", "StatFns", "Stats", "Skill / SkillModifier / StatusEffects",
        "builders and shipped library (in the fights on the shipped library)"]
STUB = ["numpy's uniform generator: every draw is decided by the simulator"]
ASSUME = ["the damage formula as restated in sim/formula.py", "a draw within 1e-12 of a rate that is neither 0 nor 1 may fall either way",
          "rounding of the last bit before a floor is not judged", "sampled, not enumerated"]
RULE = ("A run is one set of damage instances sampled under a seeded plan of draws: uniform, all extreme (0, the largest number below 1, the rates "
        "themselves and their neighbours) or constant. Every sample must equal the formula's value for its own draws. Non-trivial: two or more hits. "
        "Two runs are the same if they have the same hits and plan.")
MEASURE = "distinct (hits, plan of draws)"
TOP = 1 - 2.0 ** -53


def make(seed, i):
    rng = random.Random(seed)
    k = rng.random()
    case = {"seed": rng.getrandbits(32), "mode": rng.choice(["uniform", "edge", "edge", "rate", "const"]), "samples": rng.choice([2, 3, 5, 8, 17]),
            "const": rng.choice([0.0, TOP, .5, rng.random()])}
    if k < .1:
        case["fight"] = gen.make_real_case(rng, rng.choice(["C06", "C09", "C19", "C08"]))
    else:
        case["stats"] = sheet.make_stats(rng)
        case["hits"] = sheet.make_hits(rng, rng.choice([0, 1, 2, 3, 5, 8]))
        if rng.random() < .5:
            rng.shuffle(case["hits"])
        big = rng.random()
        if big < .015 and case["hits"]:
            case["repeat"] = max(1, rng.choice([100, 256, 257, 1000, 1024, 2049, 4999, 5000]) // len(case["hits"]))
            case["samples"] = 2
        elif big < .03:
            case["samples"] = rng.choice([100, 255, 257, 1000, 1024, 1025, 4097])
            case["hits"] = case["hits"][:2]
    return case


def giver(case, rates):
    rng = np.random.RandomState(case["seed"])
    mode = case["mode"]

    def give(shape, k):
        u = rng.random_sample(shape)
        if mode == "uniform":
            return u
        if mode == "const":
            return np.full(shape, case["const"])
        pick = rng.randint(0, 6, size=shape)
        edges = [0.0, TOP, 5e-324, .5]
        if mode == "rate" and rates:
            flat = [x for r in rates for x in r]
            flat = [min(max(y, 0.0), TOP) for x in flat for y in (x, x - 1e-9, x + 1e-9)] + [0.0, TOP]
            near = rng.randint(0, len(flat), size=shape)
            return np.where(pick < 5, np.asarray(flat)[near], u)
        v = np.asarray(edges)[rng.randint(0, len(edges), size=shape)]
        return np.where(pick < 4, v, u)

    return give


def inputs(case):
    """-> stats dict, stats, instances with distinct names"""
    if "fight" in case:
        f = case["fight"]
        stats, lib, rb = outcome.build(f)
        insts = real.R().DamageBuilder(stats, lib).get_damage_instances(rb.get_skill_timing())
        return f["stats"], stats, insts
    return case["stats"], real.mk_stats(case["stats"]), sheet.mk_instances(sheet.repeated(case["hits"], case.get("repeat", 1)))


def judge(case):
    r = real.R()
    with real.quiet():
        try:
            sd, stats, insts = inputs(case)
        except KeyError:
            return core.Verdict(note="rejected")
    hero = formula.Hero(sd)
    given = sorted(range(len(insts)), key=lambda k: insts[k][0])
    exp = [formula.from_instance(insts[k], hero) for k in given]
    if any(x.conflict for x in exp):
        try:
            with real.quiet():
                r.DamageSimulator(stats, insts, 2)
        except RuntimeError:
            return core.Verdict(note="refused")
        return core.Verdict(("contradiction", "a hit both guaranteed and forbidden to crit or direct hit was accepted"))
    n, s = len(insts), case["samples"]
    draws = sheet.Draws(giver(case, [(x.crit, x.dh) for x in exp]))
    v = core.Verdict(sig=core.digest([outcome.instances(insts), case["mode"], s, case["seed"]]) if n > 1 else None,
                     faults={"draws: " + case["mode"]: 1})
    try:
        with real.quiet(), draws.on():
            sim = r.DamageSimulator(stats, insts, s, save_damage_matrix=True, save_crit_dh_status=True)
    except core.NoProgress:
        raise
    except Exception as e:
        v.violation = ("raises", f"{type(e).__name__}: {e}"[:400])
        return v
    v.violation = compare(case, sim, insts, given, exp, draws, n, s)
    v.probes = {"crit and direct hit": int(any(x.crit > 0 and x.dh > 0 for x in exp)), "guaranteed": int(any(x.crit == 1 or x.dh == 1 for x in exp)),
                "forbidden": int(any(x.crit == 0 or x.dh == 0 for x in exp)), "exact match of draws": int(bool(sheet.triples(draws.log, n, s)))}
    return v


def pair_rows(sim, insts, given, exp):
    """the rows of the results may order simultaneous hits either way: pair rows and hits by time, name and target, in order"""
    rows = sim.get_per_skill_damage()
    pool = {}
    for pos, k in enumerate(given):
        t, sk, mod, (b, d), e, tgt = insts[k]
        pool.setdefault((float(t), sk.name, tgt, e, repr(outcome.canon(mod.with_condition))), []).append(exp[pos])
    out = []
    for row in rows:
        key = (float(row.application_time), row.skill_name, row.target, row.event_id, repr(outcome.canon(row.skill_modifier_condition)))
        if not pool.get(key):
            return None, f"row {key} is none of the hits"
        out.append(pool[key].pop(0))
    left = [k for k, x in pool.items() if x]
    if left:
        return None, f"hits missing from the results: {left[:3]}"
    return out, None


def compare(case, sim, insts, given, exp, draws, n, s):
    exp, err = pair_rows(sim, insts, given, exp)
    if err:
        return ("rows", err)
    m = np.asarray(sim.get_damage_matrix())
    cs, ds = np.asarray(sim.get_crit_status()), np.asarray(sim.get_dh_status())
    raw, dps = np.asarray(sim.get_raw_damage()), np.asarray(sim.get_dps())
    for what, a, shape in (("damage matrix", m, (n, s)), ("crit status", cs, (n, s)), ("direct-hit status", ds, (n, s)), ("raw damage", raw, (s,)),
                           ("DPS", dps, (s,))):
        if a.shape != shape:
            return ("shape", f"{what} has shape {a.shape} for {n} hits and {s} samples")
    ranges = sim.get_damage_ranges()
    for i in range(n):
        for j in range(s):
            c, d, x = bool(cs[i, j]), bool(ds[i, j]), m[i, j]
            h = exp[i]
            if (c and h.crit == 0) or (not c and h.crit == 1) or (d and h.dh == 0) or (not d and h.dh == 1):
                return ("status", f"hit {i} with crit rate {h.crit} and direct-hit rate {h.dh}: sample {j} has crit {c}, direct hit {d}")
            lo, hi = ranges[i][1 + 2 * d + c][1:3]
            if not lo <= x <= hi:
                return ("range", f"hit {i} sample {j}: {x} is outside the published range [{lo}, {hi}] for crit {c}, direct hit {d}")
            if not sheet.possible(h, x, c, d):
                return ("impossible", f"hit {i} sample {j}: no draw gives {x} with crit {c}, direct hit {d} (base {h.base})")
    tr = sheet.triples(draws.log, n, s)
    if tr and n:
        first = None
        for u, uc, ud in tr:
            bad = None
            for i in range(n):
                h = exp[i]
                for j in range(s):
                    c, d = bool(cs[i, j]), bool(ds[i, j])
                    if (c != (h.crit > uc[i, j]) and (abs(h.crit - uc[i, j]) > 1e-12 or h.crit in (0, 1))) or \
                            (d != (h.dh > ud[i, j]) and (abs(h.dh - ud[i, j]) > 1e-12 or h.dh in (0, 1))):
                        bad = ("status", f"hit {i} sample {j}: crit {c} for draw {uc[i, j]!r} and rate {h.crit!r}, "
                                         f"direct hit {d} for draw {ud[i, j]!r} and rate {h.dh!r}")
                    elif m[i, j] not in sheet.values(h, u[i, j], c, d):
                        bad = ("value", f"hit {i} sample {j}: {m[i, j]} but draw {u[i, j]!r} with crit {c}, direct hit {d} gives "
                                        f"{sorted(sheet.values(h, u[i, j], c, d))}")
                    if bad:
                        break
                if bad:
                    break
            if not bad:
                first = None
                break
            first = first or bad
        if first:
            return first
    tot = m.sum(axis=0) if n else np.zeros(s)
    if not np.allclose(raw, tot, rtol=1e-12, atol=1e-6):
        return ("total", f"raw damage {raw.tolist()} is not the sum of the hits {tot.tolist()}")
    if n:
        span = (max(i[0] for i in insts) - min(i[0] for i in insts)) / 1000
        want = tot / span if span > 0 else np.full(s, math.inf)
        if not all(a == b or abs(a - b) <= 1e-9 * abs(b) for a, b in zip(dps.tolist(), want.tolist())):
            return ("dps", f"DPS {dps.tolist()}, expected {want.tolist()} over {span} s")
    return None


def shrink(case):
    if "fight" in case:
        for f in T.shrink_case(case["fight"]):
            yield dict(case, fight=f)
        return
    for i in range(len(case["hits"])):
        c = T.copy(case)
        del c["hits"][i]
        yield c
    if case["samples"] > 2:
        yield dict(case, samples=2)
        yield dict(case, samples=case["samples"] // 2)
    if case.get("repeat", 1) > 1:
        for k in (1, case["repeat"] // 2, case["repeat"] * 9 // 10, case["repeat"] - 1):
            yield dict(case, repeat=k)
    if case["mode"] != "uniform":
        yield dict(case, mode="uniform")
    for i, h in enumerate(case["hits"]):
        for f in ("gc", "gd", "mgc", "mgd", "trait", "single", "pet_mod", "pet_scalar"):
            if f in h:
                c = T.copy(case)
                del c["hits"][i][f]
                yield c
        for f in ("b", "d"):
            for g in h[f]:
                c = T.copy(case)
                del c["hits"][i][f][g]
                yield c


def prepare(seed, tier):
    T.prepare()
