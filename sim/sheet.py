"""Damage sheets: statistics plus a list of damage instances, and the seam on the random draws."""
import contextlib
import itertools
import math
import random

import numpy as np

from . import formula, real

F = math.floor
JOBS = {90: [j for j in formula.JOB_MOD if j not in ("VPR", "PCT")], 100: list(formula.JOB_MOD)}
VERSION = {90: ["6.55", "7.1"], 100: ["7.0", "7.01", "7.05", "7.1"]}
CLASSES = ["DIRECT"] * 6 + ["PHYSICAL_DOT"] * 2 + ["MAGICAL_DOT"] * 2 + ["PET"] * 2 + ["AUTO"] * 2
FORCE = ["DEFAULT", "FORCE_YES", "FORCE_NO"]


def make_stats(rng):
    level = rng.choice([90, 100])
    c = formula.LEVEL[level]
    sub = lambda: rng.choice([c["sub"], c["sub"] + rng.randint(0, 2500), c["sub"] + rng.randint(0, 3200)])
    return {"wd": rng.randint(90, 150), "weapon_delay": rng.choice([2.0, 2.56, 2.64, 2.96, 3.36, 3.44, None]), "main_stat": rng.randint(1500, 5200),
            "det_stat": c["main"] + rng.randint(0, 2600), "dh_stat": sub(), "crit_stat": sub(), "speed_stat": sub(), "job_class": rng.choice(JOBS[level]),
            "version": rng.choice(VERSION[level]), "level": level, "tenacity": sub(), "healer_or_caster_strength": rng.randint(330, 600),
            "num_roles_in_party": rng.choice([5, 5, 4, 3, 1])}


def make_effect(rng, p):
    e = {}
    if rng.random() < p:
        e["damage_mult"] = rng.choice([1.05, 1.1, 1.2, .9, 1.13, .5])
    if rng.random() < p:
        e["crit_rate_add"] = rng.choice([.1, .2, .02, .05])
    if rng.random() < p:
        e["dh_rate_add"] = rng.choice([.2, .03, .1])
    if rng.random() < p / 2:
        e["main_stat_mult"] = rng.choice([1.05, .75, .5])
    if rng.random() < p / 2:
        e["main_stat_add"] = rng.choice([50, 262, 100])
    return e


def make_hits(rng, n, names="H"):
    grid = rng.choice([1, 100, 1000, 2500])
    hits = []
    kinds = {k: rng.random() < .5 for k in ("force", "force_mod", "force_eff", "eff", "trait", "single", "small")}
    for i in range(n):
        p = rng.choice([100, 250, 400, 777, 1, 5, 30, 0, 1300]) if kinds["small"] else rng.choice([100, 170, 250, 400, 777, 1300, 55])
        h = {"name": f"{names}{i}", "t": rng.randint(-3, 40) * grid, "potency": p, "cls": rng.choice(CLASSES), "target": rng.choice(["Boss", "Add"])}
        if kinds["force"] and rng.random() < .4:
            h["gc"], h["gd"] = rng.choice(FORCE), rng.choice(FORCE)
        if kinds["force_mod"] and rng.random() < .4:
            h["mgc"], h["mgd"] = rng.choice(FORCE), rng.choice(FORCE)
        if kinds["trait"] and rng.random() < .3:
            h["trait"] = rng.choice([1, 1.2, 1.3])
        if kinds["single"] and rng.random() < .3:
            h["single"] = rng.choice([.5, 1.15, .75])
        if kinds["small"] and rng.random() < .25:
            h["potency"], h["single"] = rng.choice([1, 2, 3]), rng.choice([.75, .5, .3, .9, 1.15])
        if h["cls"] == "PET":
            if rng.random() < .5:
                h["pet_mod"] = rng.choice([100, 110, 115])
            if rng.random() < .5:
                h["pet_scalar"] = rng.choice([.88, 1.0, .95])
        h["b"] = make_effect(rng, .35) if kinds["eff"] else {}
        h["d"] = make_effect(rng, .2) if kinds["eff"] else {}
        if kinds["force_eff"] and rng.random() < .3:
            h[rng.choice("bbd")][rng.choice(["guaranteed_crit", "guaranteed_dh"])] = rng.choice(FORCE)
        if kinds["eff"] and rng.random() < .03:
            h[rng.choice("bd")][rng.choice(["crit_rate_add", "crit_rate_add", "dh_rate_add"])] = rng.choice([.8, .95, 1.2])
        hits.append(h)
    if rng.random() < .4:  # hits of one event: several targets, follow-ups
        for i, h in enumerate(hits):
            h["ev"] = rng.choice([i, rng.randrange(max(1, n // 2)), max(0, i - 1)])
    return hits


def _eff(d):
    r = real.R()
    from ama_xiv_combat_sim.simulator.trackers.status_effects import StatusEffects
    return StatusEffects(**{k: (r.ForcedCritOrDH[v] if k.startswith("guar") else v) for k, v in d.items()})


def repeated(hits, times):
    """the hits over and over: a long fight"""
    if times < 2:
        return hits
    n = len(hits)
    return [dict(h, name=f"{h['name']} {k}", t=h["t"] + 9000 * k, ev=h.get("ev", i) + n * k) for k in range(times) for i, h in enumerate(hits)]


def mk_instances(hits):
    r = real.R()
    out = []
    for i, h in enumerate(hits):
        kw = dict(potency=h["potency"], damage_class=r.DamageClass[h["cls"]], guaranteed_crit=r.ForcedCritOrDH[h.get("gc", "DEFAULT")],
                  guaranteed_dh=r.ForcedCritOrDH[h.get("gd", "DEFAULT")])
        for a, b in (("trait", "trait_damage_mult_override"), ("pet_mod", "pet_job_mod_override"), ("pet_scalar", "pet_scalar"),
                     ("single", "single_damage_mult")):
            if a in h:
                kw[b] = h[a]
        sk = r.Skill(name=h["name"], is_GCD=False, damage_spec=r.DamageSpec(**kw), timing_spec=r.TimingSpec(base_cast_time=0, animation_lock=0))
        mod = r.SkillModifier(with_condition=h.get("cond", ""), guaranteed_crit=r.ForcedCritOrDH[h.get("mgc", "DEFAULT")],
                              guaranteed_dh=r.ForcedCritOrDH[h.get("mgd", "DEFAULT")])
        out.append((h["t"], sk, mod, (_eff(h["b"]), _eff(h["d"])), h.get("ev", i), h["target"]))
    return out


def expected_hits(stats, hits, insts):
    """name -> formula.Hit; None if some hit carries contradictory guarantees"""
    hero = formula.Hero(stats)
    out = {}
    for h, inst in zip(hits, insts):
        x = formula.from_instance(inst, hero)
        if x.conflict:
            return None
        out[h["name"]] = x
    return out


EPS = 1e-11


def floors(x, m=1.1):
    """what floor may give for the product x of a whole number and m: with rounding if the product is inexact"""
    if (m * 1024).is_integer():
        return {F(x)}
    return {F(x), F(x * (1 + EPS)), F(x * (1 - EPS))}


def times(v, m):
    return floors(v * m, float(m))


def rolls(hit, x, crit, dh):
    """the values a rolled base damage can lead to, allowing for rounding before each floor"""
    xs = {x}
    if crit:
        xs = {v + a for v in xs for a in times(v, hit.bonus)}
    if dh:
        xs = {v + a for v in xs for a in times(v, .25)}
    xs = {a for v in xs for a in times(v, hit.trait)}
    return {a for v in xs for a in times(v, hit.mult)}


def values(hit, u, crit, dh):
    return {a for x in floors(hit.base * (.95 + .1 * u)) for a in rolls(hit, x, crit, dh)}


def ends(hit, crit, dh):
    lo = {a for x in floors(.95 * hit.base) for a in rolls(hit, x, crit, dh)}
    hi = {a for x in floors(1.05 * hit.base) for a in rolls(hit, x, crit, dh)}
    return lo, hi


def possible(hit, v, crit, dh):
    """is v the value of some draw?  the roll is monotone in the base"""
    lo, hi = F(.95 * hit.base) - 1, F(1.05 * hit.base) + 1
    while lo < hi:
        m = (lo + hi) // 2
        if max(rolls(hit, m, crit, dh)) < v:
            lo = m + 1
        else:
            hi = m
    return any(v in rolls(hit, x, crit, dh) for x in range(max(F(.95 * hit.base), lo - 1), min(F(1.05 * hit.base), lo + 1) + 1))


# ------------------------------------------------------------- the seam on the random draws
class Draws:
    """Replaces the uniform draws of numpy.random for the duration; give(shape, k) decides the k-th array."""

    def __init__(self, give):
        self.give, self.log = give, []

    def _draw(self, shape):
        a = np.asarray(self.give(tuple(shape), len(self.log)), dtype=float).reshape(shape)
        self.log.append(a.copy())
        return a

    def rand(self, *shape):
        return self._draw(shape) if shape else float(self._draw((1,))[0])

    def random_sample(self, size=None):
        if size is None:
            return float(self._draw((1,))[0])
        return self._draw(size if isinstance(size, (tuple, list)) else (size,))

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None:
            size = np.broadcast(np.asarray(low), np.asarray(high)).shape
            if size == ():
                return low + (high - low) * float(self._draw((1,))[0])
        return low + (high - low) * self._draw(size if isinstance(size, (tuple, list)) else (size,))

    @contextlib.contextmanager
    def on(self):
        names = {"rand": self.rand, "random_sample": self.random_sample, "random": self.random_sample, "ranf": self.random_sample,
                 "sample": self.random_sample, "uniform": self.uniform}
        old = {n: getattr(np.random, n) for n in names}
        try:
            for n, f in names.items():
                setattr(np.random, n, f)
            yield self
        finally:
            for n, f in old.items():
                setattr(np.random, n, f)


def triples(log, n, s):
    """candidates for the (damage, crit, direct hit) draws, the likeliest first"""
    arrs = []
    for a in log:
        if a.shape == (n, s):
            arrs.append(a)
        elif a.size == 3 * n * s and a.ndim == 3 and a.shape[1:] == (n, s):
            arrs.extend(a)
        elif a.size == n * s and a.ndim == 1 and n > 1:
            arrs.append(a.reshape(n, s))
    if len(arrs) < 3:
        return []
    out = [tuple(arrs[-3:])]
    if len(arrs) <= 4:
        out += [p for p in itertools.permutations(arrs, 3) if p[0] is not arrs[-3] or p[1] is not arrs[-2]]
    return out
