"""Isolation between simultaneous users."""
import random

import numpy as np

from sim import core, gen, outcome, real, sheet, threads, timeline as T

NAME = "C02"
LEVEL = "exploration"
QUICK, THOROUGH = 1500, 60000
CHUNK = 320
REAL = T.REAL + ["DamageSimulator (all but the samples, which share numpy's generator)"]
STUB = ["the thread scheduler: threads are parked and released one at a time at executed lines of the repository"]
ASSUME = ["threads switch between executed lines of the repository, not inside one", "samples drawn from numpy's shared generator are not compared",
          "sampled, not enumerated"]
RULE = ("A run is two or three threads (computing different rotations on one library and one set of statistics, on libraries of their own, for characters of different levels, or building "
        "libraries of different patches) interleaved by a seeded scheduler: quanta of random length, or switches concentrated on a random subset of source "
        "places or functions. Each result must equal the one computed alone. Non-trivial: at least one switch.")
MEASURE = "distinct (work, sequence of switches)"
WANT = ("press", "inst", "skill", "interval")
ROLES = ["tank", "healer", "ranged", "caster", "melee"]
VL = [("7.1", 100), ("6.55", 90), ("7.0", 100), ("7.05", 100), ("7.1", 90)]


def plan(rng):
    return {"seed": rng.getrandbits(32), "mode": rng.choice(["steps", "steps", "places", "function", "function", "function"]), "mean": rng.choice([1, 3, 10, 40, 200, 1000]), "bucket": rng.randrange(41)}


def make(seed, i):
    rng = random.Random(seed)
    k = rng.random()
    n = rng.choice([2, 2, 3])
    if k < .01:
        return {"kind": "libraries", "libs": [list(x) for x in rng.sample(VL, 2)], "plan": dict(plan(rng), mean=rng.choice([40, 200, 1000]), mode="steps")}
    if k < .06:
        role = rng.choice(ROLES)
        return {"kind": "roles", "libs": [list(x) + [role if rng.random() < .8 else rng.choice(ROLES)] for x in rng.sample(VL, 2)], "plan": plan(rng)}
    focus = rng.choice(["C05", "C06", "C07", "C08", "C09", "C10", "C12", "C13", "C19", "C20"] + 8 * ["C02"])
    base = gen.make_real_case(rng, focus) if rng.random() < .1 else gen.make_case(rng.getrandbits(64), focus, small=rng.random() < .8)
    cases = []
    for _ in range(n):
        c = T.copy(base)
        if rng.random() < .8:
            c["ops"] = [o for o in c["ops"] if rng.random() < .75] or c["ops"][:1]
        if rng.random() < .3:
            c["builder"]["autos"] = not c["builder"].get("autos", False)
        if rng.random() < .6:
            for o in c["ops"]:
                if rng.random() < .4 and "job" not in o:
                    o["mod"] = dict(o.get("mod") or {}, cond=rng.choice(["Moon", "Sun", "Moon, Sun", ""]))
        cases.append(c)
    case = {"kind": "shared", "cases": cases, "plan": plan(rng)}
    if k > .6:  # short rotations by characters of different levels, switched very often
        case["kind"] = "heroes"
        case["plan"].update(**rng.choice(4 * [{"mode": "function", "mean": 1000}] + [{"mode": "steps", "mean": rng.choice([1, 2, 5])}]))
        for c in case["cases"]:
            c["ops"] = c["ops"][:rng.choice([1, 2, 3])]
            for o in c["ops"]:
                if rng.random() < .7:
                    o.pop("t", None)
            st = sheet.make_stats(rng)
            c["stats"].update({f: st[f] for f in st if f not in ("job_class", "version", "level")})
            if base["lib"]["kind"] == "syn":
                c["stats"].update(level=st["level"], version=st["version"])
        return case
    if k < .3:
        case["kind"] = "own"
        for j in range(1, n):
            case["cases"][j] = gen.make_case(rng.getrandbits(64), focus, small=True)
    return case


def alone(case, lib, stats):
    rb = real.mk_builder(case, stats, lib)
    for o in real.delivered(case):
        real.do_press(rb, o)
    return outcome.result(rb, stats, lib, want=WANT)


def role_lib(v, l, role):
    import importlib
    r = real.R()
    m = importlib.import_module(f"ama_xiv_combat_sim.simulator.skills.add_{role}_skills_to_skill_library")
    lib = getattr(m, f"add_{role}_skills_to_skill_library")(r.SkillLibrary(v, l))
    return r.generic.add_generic_skills_to_library(lib)


_solo = {}


def solo_lib(x):
    x = tuple(x)
    if x not in _solo:
        with real.quiet():
            lib = real.R().create_skill_library(*x) if len(x) == 2 else role_lib(*x)
        _solo[x] = digests(outcome.library(lib))
    return _solo[x]


def digests(out):
    return [out[0], out[1], {j: [v[0], v[1], v[2], {n: core.digest(s) for n, s in v[3].items()}] for j, v in out[2].items()}]


def judge(case):
    with real.quiet():
        return judge_(case)


def judge_(case):
    v = core.Verdict()
    if case["kind"] in ("libraries", "roles"):
        try:
            want = [solo_lib(x) for x in case["libs"]]
        except (ImportError, AttributeError):
            return core.Verdict(note="rejected")
        mk = (lambda x: real.R().create_skill_library(*x)) if case["kind"] == "libraries" else (lambda x: role_lib(*x))
        fns = [lambda x=x: mk(x) for x in case["libs"]]
    else:
        want, fns = [], []
        first = case["cases"][0]
        lib, stats = real.mk_lib(first["lib"]), real.mk_stats(first["stats"])
        for c in case["cases"]:
            shared, heroes = case["kind"] == "shared", case["kind"] == "heroes"
            try:
                want.append(alone(c, lib if shared or heroes else real.mk_lib(c["lib"]), stats if shared else real.mk_stats(c["stats"])))
            except (KeyError, RuntimeError, AssertionError):
                return core.Verdict(note="rejected")
            if shared:
                fns.append(lambda c=c: alone(c, lib, stats))
            elif heroes:
                fns.append(lambda c=c: alone(c, lib, real.mk_stats(c["stats"])))
            else:
                fns.append(lambda c=c: alone(c, real.mk_lib(c["lib"]), real.mk_stats(c["stats"])))
    s = threads.Scheduler(case["plan"], fns).run()
    got = s.result
    v.faults = {"thread switch": s.switches, "kind " + case["kind"]: 1}
    if s.free:
        v.faults["released by the watchdog"] = 1
    v.sig = core.digest([case["kind"], case.get("libs") or [c["ops"] for c in case["cases"]], s.trace]) if s.switches else None
    for i, e in enumerate(s.error):
        if isinstance(e, core.NoProgress):
            raise e
        if e is not None:
            v.violation = ("raises", f"thread {i}: {type(e).__name__}: {e}; alone it finishes"[:400])
            return v
    for i, (w, g) in enumerate(zip(want, got)):
        if case["kind"] in ("libraries", "roles"):
            g = digests(outcome.library(g))
            d = None if g == w else outcome.where(w, g)
        else:
            d = outcome.differs(w, g)
        if d:
            v.violation = ("differs", f"thread {i} of {len(want)}, alone against together ({s.switches} switches): {d}")
            return v
    return v


def shrink(case):
    key = "cases" if "cases" in case else "libs"
    if len(case[key]) > 2:
        for i in range(len(case[key])):
            c = T.copy(case)
            del c[key][i]
            yield c
    for m in (1000, 200, 40):
        if case["plan"]["mode"] == "steps" and case["plan"]["mean"] < m:
            yield dict(case, plan=dict(case["plan"], mean=m))
    if key == "cases" and case["kind"] == "own":
        for i, x in enumerate(case["cases"]):
            for k, y in enumerate(T.shrink_case(x)):
                if k > 60:
                    break
                c = T.copy(case)
                c["cases"][i] = y
                yield c
    elif key == "cases":
        for i, x in enumerate(case["cases"]):
            for k in range(len(x["ops"])):
                if len(x["ops"]) > 1:
                    c = T.copy(case)
                    del c["cases"][i]["ops"][k]
                    yield c


def prepare(seed, tier):
    import multiprocessing as mp
    todo = [x for x in VL] + [x + (role,) for x in VL for role in ROLES]
    real.R()
    # each in a process of its own that has built nothing else
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as p:
        for x, d in zip(todo, p.map(_try_solo, todo, chunksize=1)):
            if d is not None:
                _solo[x] = d
    T.prepare()


def _try_solo(x):
    try:
        return solo_lib(x)
    except (ImportError, AttributeError):
        return None
