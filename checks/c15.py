"""Analytic statistics agree with the samples."""
import math
import random

import numpy as np

from sim import core, formula, outcome, real, sheet, timeline as T
from checks import c14

NAME = "C15"
LEVEL = "exploration"
QUICK, THOROUGH = 12000, 500000
REAL = c14.REAL
STUB = ["numpy's uniform generator: an evenly spread lattice of draws, decided by the simulator"]
ASSUME = ["the damage formula as restated in sim/formula.py", "the spread within one crit/direct-hit outcome is that of the uniform distribution "
          "over its range, as the library documents", "sampled, not enumerated"]
RULE = ("A run is one set of damage instances in a seeded order and grouping: published ranges, probabilities, means and variances against the restated "
        "formula, the totals against the sums, the results of the same hits in another order and split into groups, and the mean and spread of samples "
        "from evenly spread draws. Non-trivial: two or more hits.")
MEASURE = "distinct (hits, order, grouping)"
N = 1021  # prime; rank-1 lattice
GEN = (1, 306, 774, 388, 610)
LABEL = [(0, 0), (1, 0), (0, 1), (1, 1)]


def make(seed, i):
    rng = random.Random(seed)
    n = rng.choice([0, 1, 2, 3, 5, 8, 14])
    case = {"stats": sheet.make_stats(rng), "hits": sheet.make_hits(rng, n), "seed": rng.getrandbits(32)}
    order = list(range(n))
    rng.shuffle(order)
    case["order"] = order
    case["groups"] = [rng.randint(0, 2) for _ in range(n)]
    case["lattice"] = rng.random() < .35
    if n and rng.random() < .015:
        case["repeat"], case["lattice"] = max(1, rng.choice([100, 256, 257, 1000, 1024, 2049, 4999, 5000]) // n), False
    return case


def close(a, b, rel=1e-9, abs_=1e-6):
    return abs(a - b) <= rel * max(abs(a), abs(b)) + abs_


def judge(case):
    r = real.R()
    hits = sheet.repeated(case["hits"], case.get("repeat", 1))
    if case.get("repeat", 1) > 1:
        rng = random.Random(case["seed"])
        case = dict(case, order=rng.sample(range(len(hits)), len(hits)), groups=[rng.randint(0, 2) for _ in hits])
    insts = sheet.mk_instances(hits)
    exp = sheet.expected_hits(case["stats"], hits, insts)
    if exp is None:
        return core.Verdict(note="refused")
    stats = real.mk_stats(case["stats"])
    v = core.Verdict(sig=core.digest(case) if len(hits) > 1 else None,
                     faults={"order of the hits": int(case["order"] != sorted(case["order"])), "grouping": int(len(set(case["groups"])) > 1),
                             "lattice of draws": int(case["lattice"])})
    try:
        with real.quiet(), np.errstate(all="ignore"):
            v.violation = run(case, r, hits, insts, exp, stats)
    except core.NoProgress:
        raise
    except Exception as e:
        v.violation = ("raises", f"{type(e).__name__}: {e}"[:400])
    return v


def table(sim):
    """name -> (ranges, mean, variance, crit rate, dh rate)"""
    rg = sim.get_damage_ranges()
    mean, var = sim.get_expected_damage_per_damage_instance(), sim.get_variance_per_damage_instance()
    c, d = (np.atleast_1d(x) for x in sim.get_crit_and_dh_rates())
    rows = sim.get_per_skill_damage()
    if not len(rg) == len(mean) == len(var) == len(rows):
        raise AssertionError(f"{len(rg)} ranges, {len(mean)} means, {len(var)} variances, {len(rows)} rows")
    out = {}
    for i, x in enumerate(rg):
        out[x[0]] = ([(y[1], y[2], y[3]) for y in x[1:]], float(mean[i]), float(var[i]), float(c[i]), float(d[i]), rows[i])
    return out


def run(case, r, hits, insts, exp, stats):
    np.random.seed(case["seed"] % 2 ** 32)
    sim = r.DamageSimulator(stats, list(insts), 1)
    tab = table(sim)
    if sorted(tab) != sorted(h["name"] for h in hits):
        return ("rows", f"results for {sorted(tab)} but hits {sorted(h['name'] for h in hits)}")
    tm = tv = 0.0
    for i, h in enumerate(hits):
        rg, mean, var, c, d, row = tab[h["name"]]
        e = exp[h["name"]]
        m = s2 = 0.0
        for (lab, (lo, hi, p)) in zip(LABEL, rg):
            los, his = sheet.ends(e, *lab)
            if lo not in los or hi not in his:
                return ("range", f"{h['name']} crit {lab[0]} direct hit {lab[1]}: range [{lo}, {hi}], expected [{sorted(los)}, {sorted(his)}]")
            if not close(p, e.probs()[lab], abs_=1e-9):
                return ("probability", f"{h['name']} crit {lab[0]} direct hit {lab[1]}: probability {p}, expected {e.probs()[lab]}")
            mid, w = (lo + hi) / 2, hi - lo
            m += p * mid
            s2 += p * (mid * mid + w * w / 12)
        if not close(sum(x[2] for x in rg), 1):
            return ("probability", f"{h['name']}: probabilities sum to {sum(x[2] for x in rg)}")
        if not close(c, e.crit) or not close(d, e.dh):
            return ("rates", f"{h['name']}: crit and direct-hit rates {c}, {d}, expected {e.crit}, {e.dh}")
        want = max(0.0, s2 - m * m)
        if not close(mean, m):
            return ("mean", f"{h['name']}: expected damage {mean}, its ranges and probabilities give {m}")
        if not close(var, want, 1e-7, 1e-9 * s2 + 1e-6):
            return ("variance", f"{h['name']}: variance {var}, its ranges and probabilities give {want}")
        if not close(row.expected_damage, mean) or not close(row.standard_deviation ** 2, want, 1e-7, 1e-9 * s2 + 1e-6):
            return ("row", f"{h['name']}: per-skill damage {row.expected_damage} +- {row.standard_deviation}, expected {mean} +- {math.sqrt(want)}")
        if outcome.canon(tuple(row.status_effects)) != outcome.canon(tuple(insts[i][3])) or set(row.skill_modifier_condition) != set(insts[i][2].with_condition):
            return ("row", f"{h['name']}: per-skill row with other effects or conditions than the hit")
        if row.event_id != h.get("ev", i):
            return ("row", f"{h['name']}: event {row.event_id} of the hit with event {h.get('ev', i)}")
        if row.target != h["target"] or not close(row.potency, h["potency"]) or row.damage_class.name != h["cls"] or not close(row.application_time, h["t"]):
            return ("row", f"{h['name']}: per-skill row {row} for {h}")
        tm += m
        tv += want
    if not close(float(sim.get_expected_damage()), tm) or not close(float(sim.get_damage_variance()), tv, 1e-7, 1e-9 * tm * tm + 1e-6):
        return ("total", f"total {sim.get_expected_damage()} with variance {sim.get_damage_variance()}, sums over the hits {tm}, {tv}")
    # another order
    other = table(r.DamageSimulator(stats, [insts[k] for k in case["order"]], 1))
    for n in tab:
        if any(not close(a, b) for a, b in zip(flat(tab[n]), flat(other[n]))):
            return ("order", f"{n}: {tab[n][:5]}, with the hits in another order {other[n][:5]}")
    # in groups
    gm = gv = 0.0
    for g in range(3):
        part = [insts[k] for k in case["order"] if case["groups"][k] == g]
        ps = r.DamageSimulator(stats, part, 1)
        gm += float(ps.get_expected_damage())
        gv += float(ps.get_damage_variance())
    if not close(gm, tm) or not close(gv, tv, 1e-7, 1e-9 * tm * tm + 1e-6):
        return ("grouping", f"groups sum to {gm}, {gv}, all hits together {tm}, {tv}")
    if case["lattice"] and hits:
        return lattice(case, r, hits, insts, exp, stats, tab)
    return None


def flat(t):
    return [y for x in t[0] for y in x] + list(t[1:5])


def lattice(case, r, hits, insts, exp, stats, tab):
    n = len(hits)
    state = {"k": 0, "odd": False}
    off = random.Random(case["seed"]).random()

    def lat(g):
        return (np.arange(N) * GEN[g % len(GEN)] % N + off) / N

    def give(shape, k):
        if shape and shape[-1] == N:
            lead = int(np.prod(shape[:-1]))
            if lead % n == 0 and lead:
                out = np.concatenate([np.tile(lat(state["k"] + b), (n, 1)) for b in range(lead // n)])
                state["k"] += lead // n
                return out.reshape(shape)
        if shape and int(np.prod(shape)) >= N:
            state["odd"] = True
        return np.full(shape, .5)

    with sheet.Draws(give).on():
        sim = r.DamageSimulator(stats, list(insts), N, save_damage_matrix=True, save_crit_dh_status=True)
    if state["odd"] or state["k"] < 3:  # another way of drawing: not judged here
        return None
    m, cs, ds = (np.asarray(x, dtype=float) for x in (sim.get_damage_matrix(), sim.get_crit_status(), sim.get_dh_status()))
    rows = sim.get_per_skill_damage()
    for i in range(n):
        name = rows[i].skill_name
        rg, mean, var, c, d, _ = tab[name]
        for what, got, want in (("crits", cs[i].mean(), c), ("direct hits", ds[i].mean(), d)):
            if abs(got - want) > 2 / N:
                return ("frequency", f"{name}: {what} in {got:.4f} of evenly spread draws, published rate {want:.4f}")
        top = max(x[1] for x in rg)
        if abs(m[i].mean() - mean) > .012 * top + 4:
            return ("sampled mean", f"{name}: mean {m[i].mean()} over evenly spread draws, published {mean}")
        if abs(m[i].std() - math.sqrt(max(0, var))) > .02 * top + 4:
            return ("sampled spread", f"{name}: standard deviation {m[i].std()} over evenly spread draws, published {math.sqrt(max(0, var))}")
    return None


def shrink(case):
    if case.get("repeat", 1) > 1:
        for k in (1, case["repeat"] // 2, case["repeat"] * 9 // 10, case["repeat"] - 1):
            yield dict(case, repeat=k)
    for i in range(len(case["hits"])):
        c = T.copy(case)
        del c["hits"][i], c["groups"][i]
        c["order"] = [k - (k > i) for k in c["order"] if k != i]
        yield c
    if case["order"] != sorted(case["order"]):
        yield dict(case, order=sorted(case["order"]))
    if case["lattice"]:
        yield dict(case, lattice=False)
    for i, h in enumerate(case["hits"]):
        for f in ("gc", "gd", "mgc", "mgd", "trait", "single", "pet_mod", "pet_scalar", "ev"):
            if f in h:
                c = T.copy(case)
                del c["hits"][i][f]
                yield c
        for f in ("b", "d"):
            for g in h[f]:
                c = T.copy(case)
                del c["hits"][i][f][g]
                yield c
