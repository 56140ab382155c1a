"""Results depend only on what was added."""
import random

from sim import core, gen, model as M, outcome, real, timeline as T

NAME = "C04"
LEVEL = "exploration"
QUICK, THOROUGH = 1400, 60000
REAL = T.REAL + ["DamageSimulator", "KillTimeEstimator", "RotationAnalysisUtils"]
STUB = ["the callers: in which order they submit actions, when they ask for results, which objects they reuse (seeded)"]
ASSUME = ["the outcome of the plain history (submit in the order of the plan, ask once, fresh objects) is the reference",
          "untimed actions keep their order; timed actions may be submitted in any order", "sampled, not enumerated"]
RULE = ("A run is one rotation under one seeded history: a random submission order, results asked for in between, a damage builder that was used or "
        "abandoned before, settings toggled and set back or changed after construction, repeated requests, returned lists changed by the caller; its outcome (presses, hits, per-skill damage, samples, kill times, "
        "export) must equal that of the plain history, and every argument must be as it was. Non-trivial: two or more hits and a history that "
        "differs from the plain one.")
MEASURE = "distinct (hit sequence, history) pairs"


def make(seed, i):
    rng = random.Random(seed)
    focus = rng.choice(["C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C19", "C20", "C21"])
    case = gen.make_real_case(rng, focus) if rng.random() < .12 else gen.make_case(rng.getrandbits(64), focus, small=rng.random() < .5)
    other = gen.make_case(rng.getrandbits(64), rng.choice(["C06", "C12", "C13", "C08"]), small=True)
    other_same = rng.random() < .5  # the other rotation uses the same library and job
    ts = [o for o in case["ops"] if "t" in o]
    if ts and rng.random() < .4:  # the same skill at the same instant, used differently
        o = T.copy(rng.choice(ts))
        o["mod"] = rng.choice([{"cond": rng.choice(["Moon", "Sun", "No Combo"])}, {"nocast": True}, {"nodelay": True}, {"force": True}, {"gc": "FORCE_YES"}])
        if rng.random() < .3:
            o["targets"] = rng.choice(gen.TARGETS)
        jobs = [j for j, x in case["lib"].get("jobs", {}).items() if any(s["name"] == o["skill"] for s in x["skills"])]
        if len(jobs) > 1 and rng.random() < .7:  # by two players
            o["job"] = gen.PARTY if o.get("job") != gen.PARTY else case["stats"]["job_class"]
            o.pop("mod")
        o.setdefault("f", []).append("dup")
        case["ops"].append(o)
    for o in case["ops"]:
        if "boss" in (o.get("mod") or ()):
            o["mod"]["pct"] = rng.choice([0, 0, 10, 16, 25, 28, 33, 40, 50])
    ops = real.delivered(case)
    timed = [k for k, o in enumerate(ops) if "t" in o]
    seq = [k for k, o in enumerate(ops) if "t" not in o]
    rng.shuffle(timed)
    order = []
    a, b = list(timed), list(seq)
    while a or b:
        order.append((a if a and (not b or rng.random() < len(a) / (len(a) + len(b))) else b).pop(0))
    hist = []
    p_ask = rng.choice([0, .1, .3])
    for k in order:
        hist.append(["press", k])
        if rng.random() < p_ask:
            hist.append(rng.choice([["timing"], ["result"], ["presses"], ["result"], ["abandon", rng.randint(0, 6)], ["kill"], ["toggle"], ["meddle"]]))
    for _ in range(rng.choice([0, 0, 1, 2])):
        hist.append(rng.choice([["timing"], ["result"], ["presses"], ["kill"], ["abandon", rng.randint(0, 6)], ["toggle"], ["meddle"]]))
    case["history"] = hist
    case["db"] = rng.choice(["fresh", "reused", "reused", "other", "abandoned"])
    case["other"] = other
    case["other_same"] = other_same
    case["share_mods"] = rng.random() < .5
    case["born"] = rng.choice(["", "", "autos", "trailing", "both"])  # the builder starts with other settings, changed later
    case["sim_order"] = [rng.randrange(len(ASK)) for _ in range(rng.choice([0, 4, 8]))]
    return case


ASK = ["rows", "rows with snapshots", "ranges", "expected", "variance", "rates", "raw", "dps", "ids", "times", "matrix"]


def ask(sim, rb, what):
    r = outcome
    if what == "rows":
        return r.per_skill(sim.get_per_skill_damage())
    if what == "rows with snapshots":
        return r.per_skill(sim.get_per_skill_damage(rb))
    return r.canon({"ranges": sim.get_damage_ranges, "expected": sim.get_expected_damage, "variance": sim.get_damage_variance, "rates": sim.get_crit_and_dh_rates,
                    "raw": sim.get_raw_damage, "dps": sim.get_dps, "ids": sim.get_event_ids, "times": sim.get_damage_time, "matrix": sim.get_damage_matrix}[what]())


def run_history(case, lib):
    """-> outcome, complaints about arguments"""
    r = real.R()
    complaints = []
    stats = real.mk_stats(case["stats"])
    w = real.mk_downtime(case["builder"].get("downtime", []))
    ops = real.delivered(case)
    mods = [real.mk_mod(o.get("mod")) for o in ops]
    if case.get("share_mods"):  # the caller may reuse one object for equal modifiers
        seen = {}
        for i, o in enumerate(ops):
            if o.get("mod"):
                mods[i] = seen.setdefault(core.digest(o["mod"]), mods[i])
    watch = {"downtime windows": w, "statistics": stats, "modifiers": mods}
    before = {k: outcome.canon(v) for k, v in watch.items()}
    if case["lib"]["kind"] == "syn":
        before["library"] = outcome.library(lib)
    bd = case["builder"]
    autos, trailing = bd.get("autos", False), bd.get("ignore_trailing_dots", False)
    born = dict(bd, autos=autos ^ (case["born"] in ("autos", "both")), ignore_trailing_dots=trailing ^ (case["born"] in ("trailing", "both")))
    rb = real.mk_builder(dict(case, builder=born), stats, lib, downtime=w)
    db = r.DamageBuilder(stats, lib)

    def drain(b, n=None):
        q = rb.get_skill_timing()
        if n is None:
            return b.get_damage_instances(q)
        for _ in range(n):  # an event consumer that stops half-way
            if q.is_empty():
                break
            q.get_next()

    if case["db"] in ("other", "abandoned"):
        oc = dict(case["other"])
        olib = lib if case["other_same"] and case["lib"]["kind"] == "syn" else real.mk_lib(oc["lib"])
        try:
            if olib is lib:
                oc = dict(case, ops=case["ops"][: max(1, len(case["ops"]) // 2)])
            s2, _, rb2 = outcome.build(oc, olib)
            if olib is lib:
                db.get_damage_instances(rb2.get_skill_timing())
        except (KeyError, RuntimeError, AssertionError):
            pass
    for h in case["history"]:
        if h[0] == "press":
            o = ops[h[1]]
            if o.get("mod") is None:
                real.do_press(rb, o)
            else:
                real.do_press(rb, o, mods[h[1]])
        elif h[0] == "timing":
            rb.get_skill_timing()
        elif h[0] == "presses":
            got = rb.get_button_press_timing()
            was = outcome.canon(got)
            if got:  # what was handed out is the caller's
                got[0][0] = -1
                got.clear()
            if outcome.canon(rb.get_button_press_timing()) != was:
                complaints.append("changing the returned button presses changed the rotation")
        elif h[0] == "result":
            try:
                drain(db)
            except KeyError:
                pass
        elif h[0] == "abandon":
            drain(db, h[1])
        elif h[0] == "kill":
            try:
                if drain(r.DamageBuilder(stats, lib)):
                    outcome.kill(rb, 2, 3)
            except (RuntimeError, KeyError):
                pass
        elif h[0] == "meddle":  # what the library hands out is the caller's, too
            job = case["stats"]["job_class"]
            if case["lib"]["kind"] == "syn":
                lib.get_all_resource_settings(job).clear()
                lib.get_all_combo_breakers(job).clear()
        elif h[0] == "toggle":
            rb.set_enable_autos(not autos)
            rb.set_ignore_trailing_dots(not trailing)
            rb.get_skill_timing()
            rb.set_enable_autos(autos)
            rb.set_ignore_trailing_dots(trailing)
    if case["born"] in ("autos", "both"):
        rb.set_enable_autos(autos)
    if case["born"] in ("trailing", "both"):
        rb.set_ignore_trailing_dots(trailing)
    use = r.DamageBuilder(stats, lib) if case["db"] == "fresh" else db
    res = outcome.result(rb, stats, lib, db=use)
    insts = use.get_damage_instances(rb.get_skill_timing())
    b4 = outcome.instances(insts)
    try:
        sim = r.DamageSimulator(stats, insts, 3, save_damage_matrix=True)
        first = {}
        for k in case["sim_order"]:
            got = ask(sim, rb, ASK[k])
            if first.setdefault(k, got) != got:
                complaints.append(f"the simulator asked again for {ASK[k]}: {outcome.where(first[k], got)}")
    except RuntimeError:
        pass
    shuffled = list(reversed(insts))
    try:
        r.DamageSimulator(stats, shuffled, 2)
    except RuntimeError:
        pass
    if outcome.instances(list(reversed(shuffled))) != b4 or [x[0] for x in shuffled] != [x[0] for x in reversed(insts)]:
        complaints.append("damage instances passed to DamageSimulator were modified")
    if res.get("inst") != b4:
        complaints.append("asked twice: " + str(outcome.where(res.get("inst"), b4)))
    for k, v in watch.items():
        now = outcome.canon(v)
        if now != before[k]:
            complaints.append(f"{k} passed by the caller were modified: {outcome.where(before[k], now)}")
    if "library" in before:
        now = outcome.library(lib)
        if now != before["library"]:
            complaints.append(f"the library was modified: {outcome.where(before['library'], now)}")
    return res, complaints


def judge(case):
    faults = {}
    for h in case["history"]:
        if h[0] != "press":
            faults["request in between: " + h[0]] = faults.get("request in between: " + h[0], 0) + 1
    ks = [h[1] for h in case["history"] if h[0] == "press"]
    if ks != sorted(ks):
        faults["submission out of order"] = 1
    faults["damage builder " + case["db"]] = 1
    if case["born"]:
        faults["settings changed after construction"] = 1
    with real.quiet():
        lib = real.mk_lib(case["lib"])
        try:
            s, l, rb = outcome.build(case, lib)
            plain = outcome.result(rb, s, l)
        except (KeyError, AssertionError) as e:
            return core.Verdict(note="rejected", faults={})
        try:
            res, complaints = run_history(case, lib)
        except core.NoProgress:
            raise
        except Exception as e:
            return core.Verdict(("raises", f"with this history: {type(e).__name__}: {e}"[:500]), faults=faults)
    v = core.Verdict(faults=faults, sig=core.digest([plain["inst"], case["history"], case["db"]]) if len(plain["inst"]) > 1 else None,
                     sim_ms=max([x[0] for x in plain["inst"]] or [0]) - min([x[0] for x in plain["inst"]] or [0]))
    d = outcome.differs(plain, res)
    if d:
        v.violation = ("differs", "plain history against this history: " + d)
    elif complaints:
        v.violation = ("argument", complaints[0])
    return v


def shrink(case):
    n = len(real.delivered(case))
    for k in range(len(case["history"])):
        if case["history"][k][0] != "press":
            c = T.copy(case)
            del c["history"][k]
            yield c
    if case["db"] != "fresh":
        c = T.copy(case)
        c["db"] = "fresh"
        yield c
    for f, z in (("share_mods", False), ("born", ""), ("sim_order", [])):
        if case[f] != z:
            c = T.copy(case)
            c[f] = z
            yield c
    c0 = T.copy(case)
    if any(o.get("dropped") for o in c0["ops"]):
        c0["ops"] = real.delivered(case)
        yield c0
        return
    for k in range(n):
        c = T.copy(case)
        del c["ops"][k]
        if not c["ops"]:
            continue
        c["history"] = [h if h[0] != "press" or h[1] < k else ["press", h[1] - 1] for h in c["history"] if h != ["press", k]]
        yield c
    for c in T.shrink_case(case):
        if len(c["ops"]) == n:
            yield c


def prepare(seed, tier):
    T.prepare()
