"""Everything a user sees of a fight, in a canonical form that can be compared and digested."""
import enum
import math

import numpy as np

from . import real


def canon(x, depth=0):
    """A value as plain data: sets sorted, enums by name, objects by their attributes."""
    if depth > 40:
        raise ValueError("too deep")
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, enum.Enum):
        return x.name
    if isinstance(x, (int, np.integer)):
        return float(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        return "nan" if math.isnan(x) else "inf" if x == math.inf else "-inf" if x == -math.inf else x
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.ndarray):
        return [list(x.shape)] + [canon(v, depth + 1) for v in x.ravel().tolist()]
    if isinstance(x, (set, frozenset)):
        return ["set"] + sorted((canon(v, depth + 1) for v in x), key=repr)
    if isinstance(x, dict):
        return ["dict"] + sorted(([canon(k, depth + 1), canon(v, depth + 1)] for k, v in x.items()), key=repr)
    if isinstance(x, (list, tuple)):
        return [canon(v, depth + 1) for v in x]
    if isinstance(x, type) or callable(x):
        return getattr(x, "__qualname__", "fn")
    d = {}
    for c in type(x).__mro__:
        for s in getattr(c, "__slots__", ()):
            if hasattr(x, s):
                d[s] = getattr(x, s)
    d.update(getattr(x, "__dict__", {}))
    return [type(x).__name__] + sorted(([k, canon(v, depth + 1)] for k, v in d.items()), key=repr)


def instances(insts):
    """damage instances in the order given; event ids by first appearance"""
    ids = {}
    return [[float(t), sk.name, canon(mod.with_condition), mod.guaranteed_crit.name, mod.guaranteed_dh.name, canon(b), canon(d),
             canon(sk.get_damage_spec(mod)), ids.setdefault(e, len(ids)), tgt] for t, sk, mod, (b, d), e, tgt in insts]


def per_skill(rows):
    ids = {}
    return [[canon(r.application_time), canon(r.snapshot_time), r.skill_name, canon(r.potency), canon(r.skill_modifier_condition),
             canon(r.status_effects), canon(r.expected_damage), canon(r.standard_deviation), ids.setdefault(r.event_id, len(ids)), r.target,
             canon(r.damage_class)] for r in rows]


def library(lib):
    """all that a library holds, by its public interface"""
    import contextlib
    import io
    out = {}
    for job in lib.get_jobs():
        o = io.StringIO()
        with contextlib.redirect_stdout(o):
            lib.print_skill_names(job)
        names = [n for n in o.getvalue().split("\n") if n]
        out[job] = [canon(lib.get_status_effect_priority(job)), canon(lib.get_all_combo_breakers(job)), canon(lib.get_all_resource_settings(job)),
                    {n: canon(lib.get_skill(n, job)) for n in names}]
    return [canon(lib.get_version()), canon(lib.get_level()), out]


def names_of(out):
    return {j: sorted(v[3]) for j, v in out[2].items()}


def build(case, lib=None):
    stats = real.mk_stats(case["stats"])
    lib = lib or real.mk_lib(case["lib"])
    rb = real.mk_builder(case, stats, lib)
    for o in real.delivered(case):
        real.do_press(rb, o)
    return stats, lib, rb


def result(rb, stats, lib, db=None, samples=5, seed=7, hp=None, want=("press", "inst", "skill", "sample", "kill", "csv", "interval"), extra=False):
    """the full outcome of a rotation; output is captured by replacing print's stream"""
    r = real.R()
    res = {}
    q = rb.get_skill_timing()
    if "press" in want:
        res["press"] = canon(rb.get_button_press_timing())
    if "csv" in want:
        with real.quiet() as o:
            rb.print_button_press_timings_as_csv()
        res["csv"] = o.getvalue()
    db = db or r.DamageBuilder(stats, lib)
    insts = db.get_damage_instances(q)
    if "inst" in want:
        res["inst"] = instances(insts)
    try:
        if "skill" in want or "sample" in want:
            np.random.seed(seed)
            sim = r.DamageSimulator(stats, insts, samples, save_damage_matrix=True, save_crit_dh_status=True)
            rows = sim.get_per_skill_damage(rb)
            if "skill" in want:
                res["skill"] = per_skill(rows)
                res["ranges"] = canon(sim.get_damage_ranges())
                res["expect"] = [canon(sim.get_expected_damage()), canon(sim.get_damage_variance())]
            if "sample" in want:
                res["sample"] = [canon(sim.get_damage_matrix()), canon(sim.get_raw_damage()), canon(sim.get_dps()),
                                 canon(sim.get_crit_status()), canon(sim.get_dh_status())]
            if "interval" in want and rows:
                res["interval"] = canon(r.RotationAnalysisUtils.get_dps_at_intervals(rows, 3))
            if extra:
                np.random.seed(seed)
                res["expected max"] = canon(r.RotationAnalysisUtils.get_expected_max_in_k_runs(np.ravel(sim.get_dps()), 2, 5))
        if "kill" in want and insts:
            res["kill"] = kill(rb, samples, seed, hp)
    except RuntimeError as e:
        if "forced_" not in str(e):  # contradictory guarantees: the documented refusal
            raise
        res["refused"] = str(e)
    return res


def kill(rb, samples, seed, hp=None):
    np.random.seed(seed)
    k = real.R().KillTimeEstimator(boss_hp=hp or 20000)
    k.add_rotation(rb)
    with real.quiet():
        kt, cum, all_t = k.estimate_kill_time(num_samples=samples, verbose=False)
    return [canon(kt), canon(cum), canon(all_t)]


def differs(a, b):
    """the first place where two outcomes differ, or None"""
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            return f"{k}: {where(a.get(k), b.get(k))}"
    return None


def where(a, b, path=""):
    if type(a) is type(b) and isinstance(a, list):
        if len(a) != len(b):
            return f"{path} has {len(a)} entries against {len(b)}: {str(a)[:150]} against {str(b)[:150]}"
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return where(x, y, f"{path}[{i}]")
    if type(a) is type(b) and isinstance(a, dict):
        for k in sorted(set(a) | set(b), key=str):
            if a.get(k) != b.get(k):
                return where(a.get(k), b.get(k), f"{path}.{k}")
    return f"{path}: {str(a)[:150]} against {str(b)[:150]}"
