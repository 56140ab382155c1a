import random

from sim import core, gen, real, timeline as T

NAME = "C19"
LEVEL = "exploration"
QUICK, THOROUGH = 4800, 192000
RULE, MEASURE, REAL, STUB, ASSUME = T.RULE, T.MEASURE, T.REAL, T.STUB, T.ASSUME
_t = T.Timeline(NAME)


def make(seed, i):
    r = random.Random(f"plain {seed}")
    if r.random() < .01:
        # a skill with dropoff whose damage is not conditional
        return {"plain": True, "potency": r.choice([100, 180, 500]), "drop": r.choice([.5, .6, .25]), "n": r.randint(2, 10)}
    return _t.make(seed, i)


def judge(case):
    if not case.get("plain"):
        return _t.judge(case)
    sk = {"name": "Nova", "is_GCD": True, "damage_spec": {"potency": case["potency"]}, "aoe_dropoff": case["drop"], "has_aoe": True,
          "timing_spec": {"base_cast_time": 0, "animation_lock": 650, "application_delay": 500}}
    c = {"lib": {"kind": "syn", "version": "7.1", "level": 100, "jobs": {"PCT": {"skills": [sk]}}}, "builder": {"fight_start": 0},
         "stats": {"wd": 132, "weapon_delay": 2.96, "main_stat": 3330, "det_stat": 2182, "dh_stat": 940, "crit_stat": 2502, "speed_stat": 420,
                   "job_class": "PCT", "version": "7.1", "level": 100},
         "ops": [{"t": 1.0, "skill": "Nova", "targets": ", ".join(gen.CROWD[: case["n"]])}]}
    _, hits, *_ = real.run_real(c)
    got = [h[4] for h in sorted(hits)]
    want = [real.num(case["potency"])] + [real.num((1 - case["drop"]) * case["potency"])] * (case["n"] - 1)
    v = core.Verdict(sig=core.digest(["plain", got]), probes={"dropoff of a skill with unconditional damage": 1})
    if got == [want[0]] * case["n"]:
        v.violation = ("plain-dropoff", "a skill with unconditional damage hits every target with full potency, whatever its dropoff")
    elif got != want:
        v.violation = ("hits", f"potencies: expected {want} got {got}")
    return v


def shrink(case):
    if case.get("plain"):
        if case["n"] > 2:
            yield dict(case, n=2)
        return
    yield from _t.shrink(case)


def prepare(seed, tier):
    T.prepare()
