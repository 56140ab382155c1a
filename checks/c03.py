"""Interruption leaves builders usable."""
import random

import numpy as np

from sim import core, gen, interrupt, outcome, real, timeline as T

NAME = "C03"
LEVEL = "exploration"
QUICK, THOROUGH = 1500, 80000
REAL = T.REAL + ["DamageSimulator", "KillTimeEstimator", "create_skill_library"]
STUB = ["the user's interrupt and the memory allocator: KeyboardInterrupt or MemoryError raised at a chosen executed line of the repository"]
ASSUME = ["an interruption takes effect between two executed lines of the repository's code (inside a library call it acts like one at the calling line)",
          "sampled, not enumerated"]
CHUNK = 750
RULE = ("A run is one computation (timings, damage instances, simulation and per-skill damage, kill times, building the library) interrupted one to three "
        "times at seeded points (uniform over time, or uniform over source places so that rarely executed ones are hit as often), then repeated on the "
        "same objects, sometimes after adding further actions; the result must equal the undisturbed one. Non-trivial: at least one interruption fired.")
MEASURE = "distinct (computation, kind, function interrupted, hits)"
OPS = ["timing", "damage", "damage", "sim", "kill", "all", "add"]


def make(seed, i):
    rng = random.Random(seed)
    if rng.random() < .004:
        v, l = rng.choice([("7.1", 100), ("6.55", 90), ("7.0", 100)])
        return {"op": "library", "version": v, "level": l, "cuts": [cut(rng)]}
    focus = rng.choice(["C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C19", "C20"])
    case = gen.make_real_case(rng, focus) if rng.random() < .08 else gen.make_case(rng.getrandbits(64), focus, small=rng.random() < .85)
    n = len(real.delivered(case))
    case["op"] = rng.choice(OPS)
    case["cuts"] = [cut(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    case["later"] = rng.randint(1, n - 1) if n > 1 and rng.random() < .25 else n  # this many presses before the interruption
    case["warm"] = rng.random() < .35
    if case["op"] == "add" and rng.random() < .5:
        case["times"] = rng.choice([2, 2, 3, 5])
    return case


def cut(rng):
    return {"exc": rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"]), "mode": rng.choice(["time", "place", "place"]), "f": rng.random(),
            "g": rng.random()}


EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


def computation(op, rb, stats, lib, db, kte):
    r = real.R()
    np.random.seed(5)
    if op == "timing":
        return lambda: rb.get_skill_timing()
    if op == "damage":
        return lambda: db.get_damage_instances(rb.get_skill_timing())
    if op == "kill":
        return lambda: kte.estimate_kill_time(num_samples=3, verbose=False)

    def sim():
        s = r.DamageSimulator(stats, db.get_damage_instances(rb.get_skill_timing()), 3, save_damage_matrix=True)
        return s.get_per_skill_damage(rb), s.get_damage_ranges()

    if op == "sim":
        return sim

    def everything():
        sim()
        rb.get_button_press_timing()
        rb.print_button_press_timings_as_csv()
        kte.estimate_kill_time(num_samples=2, verbose=False)

    return everything


def judge(case):
    if case["op"] == "library":
        return judge_library(case)
    r = real.R()
    with real.quiet():
        lib = real.mk_lib(case["lib"])
        try:
            s, l, rb0 = outcome.build(case, lib)
            plain = outcome.result(rb0, s, l)
        except (KeyError, RuntimeError, AssertionError):
            return core.Verdict(note="rejected")
        if "refused" in plain:
            return core.Verdict(note="refused")
        plain_lib = outcome.library(lib) if case["lib"]["kind"] == "syn" else None
        ops = real.delivered(case)

        def objects():
            stats = real.mk_stats(case["stats"])
            lib = real.mk_lib(case["lib"])
            rb = real.mk_builder(case, stats, lib)
            for o in ops[: case["later"]]:
                real.do_press(rb, o)
            kte = r.KillTimeEstimator(boss_hp=20000)
            kte.add_rotation(rb)
            return rb, stats, lib, r.DamageBuilder(stats, lib), kte

        mine = rb, stats, lib, db, kte = objects()
        twin = mine if case.get("warm") else objects()  # the one that is measured; warm: a complete computation came before
        v = core.Verdict(sim_ms=0)
        if case["op"] == "add":
            return judge_add(case, v, lib, stats, plain)
        places = []
        for c in case["cuts"]:
            fn = computation(case["op"], *mine)
            rec = interrupt.Points(record=True)
            try:
                rec.run(computation(case["op"], *twin))
            except (KeyError, RuntimeError, AssertionError, IndexError, TypeError):
                return core.Verdict(note="rejected")
            at = interrupt.choose(rec.where, c["mode"], c["f"], c["g"])
            if at is None:
                continue
            np.random.seed(5)
            pt = interrupt.Points(at, EXC[c["exc"]]("injected"))
            err = None
            try:
                pt.run(fn)
            except core.NoProgress:
                raise
            except BaseException as e:
                err = e
            if pt.fired is None:
                continue
            v.faults[c["exc"]] = v.faults.get(c["exc"], 0) + 1
            places.append([c["exc"], pt.fired[2]])
            if err is None:
                v.violation = ("swallowed", f"{c['exc']} in {pt.fired} during '{case['op']}' was swallowed")
                return v
            if not isinstance(err, EXC[c["exc"]]):
                v.violation = ("replaced", f"{c['exc']} in {pt.fired} during '{case['op']}' came out as {type(err).__name__}: {err}"[:300])
                return v
        for o in ops[case["later"]:]:
            real.do_press(rb, o)
        v.sig = core.digest([case["op"], places, plain["inst"]]) if places else None
        try:
            res = outcome.result(rb, stats, lib, db=db)
            if plain["inst"]:
                np.random.seed(7)
                k = kte.estimate_kill_time(num_samples=5, verbose=False)
                res["kill"] = [outcome.canon(x) for x in k]
        except core.NoProgress:
            raise
        except Exception as e:
            v.violation = ("raises", f"after the interruption at {places}: {type(e).__name__}: {e}"[:400])
            return v
        d = outcome.differs(plain, res)
        if d:
            v.violation = ("differs", f"undisturbed against repeated after {places} during '{case['op']}': {d}")
        elif plain_lib is not None and outcome.library(lib) != plain_lib:
            v.violation = ("library", f"the library changed: {outcome.where(plain_lib, outcome.library(lib))}")
    return v


def judge_add(case, v, lib, stats, plain):
    """an interrupted addition is reported and has either happened or not"""
    ops = real.delivered(case)
    o, rest = dict(ops[-1]), ops[:-1]
    if "t" not in o:
        o["n"] = case.get("times", 1)

    def new():
        rb = real.mk_builder(case, stats, lib)
        for x in rest:
            real.do_press(rb, x)
        return rb

    without = outcome.result(new(), stats, lib)
    rb = new()
    real.do_press(rb, o)
    with_ = outcome.result(rb, stats, lib)
    rb, c = new(), case["cuts"][0]
    rec = interrupt.Points(record=True)
    other = new()
    rec.run(lambda: real.do_press(other, o))
    pt = interrupt.Points(interrupt.choose(rec.where, c["mode"], c["f"], c["g"]), EXC[c["exc"]]("injected"))
    err = None
    try:
        pt.run(lambda: real.do_press(rb, o))
    except core.NoProgress:
        raise
    except BaseException as e:
        err = e
    if pt.fired is None:
        return v
    v.faults[c["exc"]] = 1
    v.sig = core.digest(["add", c["exc"], pt.fired[2], without["inst"]])
    if err is None or not isinstance(err, EXC[c["exc"]]):
        v.violation = ("swallowed", f"{c['exc']} in {pt.fired} while adding {o['skill']}: {err!r}")
        return v
    res = outcome.result(rb, stats, lib)
    if res != without and res != with_:
        v.violation = ("add", f"interrupted at {pt.fired} while adding {o['skill']}: neither added nor not: {outcome.differs(without, res)}")
    return v


_LIB = {}


def lib_digest(v, l):
    if (v, l) not in _LIB:
        _LIB[(v, l)] = core.digest(outcome.library(real.real_lib(v, l)))
    return _LIB[(v, l)]


def judge_library(case):
    r = real.R()
    want = lib_digest(case["version"], case["level"])
    c = case["cuts"][0]
    v = core.Verdict(faults={})
    with real.quiet():
        build = lambda: r.create_skill_library(case["version"], case["level"])
        rec = interrupt.Points(record=True)
        rec.run(build)
        at = interrupt.choose(rec.where, c["mode"], c["f"], c["g"])
        pt = interrupt.Points(at, EXC[c["exc"]]("injected"))
        err = None
        try:
            pt.run(build)
        except core.NoProgress:
            raise
        except BaseException as e:
            err = e
        if pt.fired is not None:
            v.faults[c["exc"] + " while building the library"] = 1
            v.sig = core.digest([case["version"], pt.fired[2]])
            if err is None or not isinstance(err, EXC[c["exc"]]):
                v.violation = ("swallowed", f"{c['exc']} in {pt.fired} while building the library: {err!r}")
                return v
        lib = build()
    if core.digest(outcome.library(lib)) != want:
        a, b = outcome.library(real.real_lib(case["version"], case["level"])), outcome.library(lib)
        v.violation = ("differs", f"the library built after an interruption at {pt.fired} differs: {outcome.where(a, b)}")
    return v


def shrink(case):
    if len(case["cuts"]) > 1:
        for i in range(len(case["cuts"])):
            c = T.copy(case)
            del c["cuts"][i]
            yield c
    if case["op"] == "library":
        return
    n = len(real.delivered(case))
    if case["later"] != n:
        yield dict(case, later=n)
        return
    if case["op"] == "add":
        for c in T.shrink_case(case):
            if c["ops"] and c["ops"][-1] == case["ops"][-1]:
                c["later"] = len(real.delivered(c))
                yield c
        return
    for op in ("timing", "damage"):
        if case["op"] not in ("timing", op):
            yield dict(case, op=op)
    for c in T.shrink_case(case):
        c["later"] = len(real.delivered(c))
        yield c
        if len(c["ops"]) < len(case["ops"]):
            # the same point is elsewhere now: try a few
            for k in range(4):
                d = T.copy(c)
                for q in d["cuts"]:
                    q["f"], q["g"] = (q["f"] + .17 * k) % 1, (q["g"] + .31 * k) % 1
                yield d


def prepare(seed, tier):
    T.prepare()
    for v, l in (("7.1", 100), ("6.55", 90), ("7.0", 100)):
        lib_digest(v, l)
