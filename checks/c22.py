"""Example rotations fit the library they are asked for."""
import contextlib
import importlib
import pkgutil
import random

from sim import core, interrupt, outcome, real, threads, timeline as T

NAME = "C22"
LEVEL = "exploration"
QUICK, THOROUGH = 1000, 40000
REAL = ["get_example_rotations", "add_*_rotations_to_rotation_library", "ExampleRotationUtils", "SpecificRotations", "Stats", "RotationBuilder", "SkillLibrary"]
STUB = ["the thread scheduler: callers are parked and released one at a time at executed lines of the repository",
        "the user's interrupt: KeyboardInterrupt or MemoryError raised at a chosen executed line"]
ASSUME = ["the recorded tables (read when the modules are first loaded) say which rotations exist, from which patch on and with which statistics",
          "threads switch between executed lines of the repository, not inside one", "sampled, not enumerated"]
RULE = ("A run is one to three callers, each asking for example rotations of one or more libraries (patch and level) one after the other, all of them, one "
        "role's or those of a generated table; their work is interleaved by a seeded scheduler, or a single caller is interrupted at a seeded point and asks again. "
        "What each request gives is compared with what the tables record for that patch and level. Non-trivial: at least one rotation was given.")
MEASURE = "distinct (requests, table, sequence of switches or point of interruption)"
VL = [("7.1", 100), ("6.55", 90), ("7.0", 100), ("7.05", 100), ("7.1", 90), ("7.05", 90)]
ROLES = ["tank", "healer", "ranged", "caster", "melee"]
PKG = "ama_xiv_combat_sim.example_rotations"
HOSTS = ["tank/war", "tank/pld", "tank/drk", "tank/gnb", "healer/whm", "healer/sch", "healer/ast", "healer/sge", "ranged/brd", "ranged/dnc", "ranged/mch", "caster/blm",
         "caster/smn", "caster/rdm", "caster/pct", "melee/sam", "melee/nin", "melee/mnk", "melee/drg", "melee/rpr", "melee/vpr"]
SYN_JOBS = ["WAR", "SAM", "WHM", "BLM", "NIN", "BRD"]


_tables = None


def tables():
    """{role: {name: {level: entry}}}, as recorded"""
    global _tables
    if _tables is None:
        out = {}
        for role in ROLES:
            sub = importlib.import_module(f"{PKG}.{role}")
            for m in pkgutil.iter_modules(sub.__path__):
                mod = importlib.import_module(f"{PKG}.{role}.{m.name}")
                for v in list(vars(mod).values()):
                    if hasattr(v, "add_rotation_data") and isinstance(getattr(v, "rotations", None), dict):
                        out.setdefault(role, {}).update(v.rotations)
        _tables = {r: {k: dict(x) for k, x in t.items()} for r, t in out.items()}
        for t in _tables.values():
            for x in t.values():
                for l in x:
                    x[l] = {k: (dict(v) if isinstance(v, dict) else v) for k, v in x[l].items()}
    return _tables


_names = {}


def names(v, l, job):
    if (v, l, job) not in _names:
        lib = real.real_lib(v, l)
        with real.quiet() as o:
            lib.print_skill_names(job)
        _names[v, l, job] = sorted(n for n in o.getvalue().split("\n") if n)
    return _names[v, l, job]


def plan(rng):
    return {"seed": rng.getrandbits(32), "mode": rng.choice(["steps", "steps", "function"]), "mean": rng.choice([1, 3, 10, 40, 200, 1000]), "bucket": rng.randrange(41)}


def syn_table(rng):
    """a generated table, as JSON"""
    out = {}
    for k in range(rng.randint(1, 4)):
        job = rng.choice(SYN_JOBS)
        levels = {}
        for l in rng.sample([90, 100], rng.choice([1, 2, 2])):
            pool = [n for n in names("7.1", l, job) if n in names("7.05", l, job) and (l == 100 or n in names("6.55", l, job))]
            party = []
            for _ in range(rng.choice([0, 0, 1, 3])):
                pj, n = rng.choice([("SCH", "Chain Stratagem"), ("DRG", "Battle Litany"), ("RPR", "Arcane Circle"), ("AST", "Divination"), (job, rng.choice(pool))])
                p = [rng.choice([0, .8, 1.5, 6.28, 7.1, rng.randint(0, 9000) / 1000]), n, pj]
                if rng.random() < .5:
                    p.append(rng.choice([{"gc": "FORCE_YES"}, {"nodelay": True}, {"cond": "No Combo"}, {}]))
                party.append(p)
            st = {"wd": rng.randint(100, 150), "main_stat": rng.randint(2000, 5000), "det_stat": rng.randint(400, 3000), "crit_stat": rng.randint(400, 3000),
                  "dh_stat": rng.randint(400, 3000), "speed_stat": rng.randint(400, 1500), "job_class": job}
            for f, x in (("weapon_delay", rng.choice([2.56, 3.0, 3.44])), ("tenacity", rng.randint(400, 1200)), ("healer_or_caster_strength", rng.randint(200, 500))):
                if rng.random() < .4:
                    st[f] = x
            e = {"stats": st, "skills": [rng.choice(pool) for _ in range(rng.randint(1, 8))], "start_version": rng.choice(["6.55", "6.55", "7.0", "7.05", "7.1"])}
            if party or rng.random() < .2:
                e["party_skills"] = party
            if rng.random() < .5:
                e["end_version"] = rng.choice([v for v in ["6.55", "7.0", "7.01", "7.05", "7.1"] if v >= e["start_version"]])
            levels[str(l)] = e
        out[f"K{k}"] = levels
    return out


def make(seed, i):
    rng = random.Random(seed)
    kind = rng.choice(["role", "role", "syn", "syn", "syn", "all"])
    n = 1 if rng.random() < .35 else rng.choice([2, 2, 3])
    role = rng.choice(ROLES)
    vl = rng.sample(VL, min(len(VL), rng.choice([2, 3])))
    callers = []
    for _ in range(n):
        asks = []
        for _ in range(rng.choice([1, 1, 2, 3]) if kind != "all" else rng.choice([1, 1, 2])):
            v, l = rng.choice(vl)
            asks.append([v, l, (role if rng.random() < .8 else rng.choice(ROLES)) if kind == "role" else kind])
        callers.append(asks)
    if n > 1 and len({tuple(a[0][:2]) for a in callers}) == 1:
        others = [x for x in vl if list(x) != callers[0][0][:2]]
        if others:
            callers[1][0][:2] = rng.choice(others)
    case = {"callers": callers, "plan": plan(rng)}
    if kind == "syn":
        case["table"] = syn_table(rng)
        apart = random.Random(f"host {seed}")
        if apart.random() < .5:
            case["host"] = apart.choice(HOSTS)
    if n == 1 and rng.random() < .6:
        case["cut"] = {"exc": rng.choice(["KeyboardInterrupt", "MemoryError"]), "f": rng.random(), "mode": rng.choice(["time", "place"]), "g": rng.random(), "ask": rng.randrange(len(callers[0]))}
    return case


def table(case, what):
    if what == "syn":
        return {k: {int(l): x for l, x in t.items()} for k, t in case["table"].items()}
    t = tables()
    return {k: x for r in (ROLES if what == "all" else [what]) for k, x in t.get(r, {}).items()}


def real_table(case):
    out = {}
    for k, t in case["table"].items():
        out[k] = {}
        for l, e in t.items():
            e = dict(e, stats=dict(e["stats"]), skills=tuple(e["skills"]))
            if "party_skills" in e:
                e["party_skills"] = tuple(tuple(p[:3]) + ((real.mk_mod(p[3]),) if len(p) > 3 else ()) for p in e["party_skills"])
            out[k][int(l)] = e
    return out


def expected(case, v, l, what):
    """{name: (statistics, presses)} by the tables"""
    r = real.R()
    lib = real.real_lib(v, l)
    out = {}
    for k, t in table(case, what).items():
        e = t.get(l)
        if e is None or v < e["start_version"] or (e.get("end_version") is not None and v > e["end_version"]):
            continue
        st = dict(e["stats"])
        st.setdefault("healer_or_caster_strength", r.GameConsts.HEALER_CASTER_STRENGTH.get(st["job_class"]))
        stats = r.Stats(**st, version=v, level=l)
        rb = r.RotationBuilder(stats, lib, ignore_trailing_dots=True, snap_dots_to_server_tick_starting_at=0)
        for p in e.get("party_skills") or ():
            m = p[3] if len(p) > 3 else None
            if m is not None:
                rb.add(p[0], p[1], skill_modifier=real.mk_mod(m) if isinstance(m, dict) else m, job_class=p[2])
            else:
                rb.add(p[0], p[1], job_class=p[2])
        for s in e["skills"]:
            rb.add_next(s)
        out[k] = shown(rb)
    return out


def shown(rb, presses=True):
    if presses:
        rb.get_skill_timing()
    return [outcome.canon(rb.get_stats())] + ([outcome.canon(rb.get_button_press_timing())] if presses else [])


_want = {}


def want(case, v, l, what):
    if what == "syn":
        return expected(case, v, l, what)
    k = v, l, what
    if k not in _want:
        _want[k] = expected(case, v, l, what)
    return _want[k]


def request(ex, v, l, what, info):
    lib = real.real_lib(v, l)
    if what == "all":
        return ex.get_example_rotations(lib)
    res = {}
    if what != "syn":
        res["mine"] = lib  # what the caller had collected before
        getattr(ex, what)(lib, res)
        if res.pop("mine", None) is not lib:
            raise RuntimeError("the caller's own rotation is gone")
        return res
    if callable(info):
        info(lib, res)
        return res
    info.set_version(v)
    info.set_level(l)
    for k in info.rotations:
        if info.rotation_is_valid(k):
            ex.add_to_rotation_library(ex.Utils.get_example_rotation(lib, k, info), res)
    return res


_ex = None


def ex():
    global _ex
    if _ex is None:
        from types import SimpleNamespace
        g = importlib.import_module(PKG + ".get_example_rotations")
        s = SimpleNamespace(get_example_rotations=g.get_example_rotations)
        for r in ROLES:
            setattr(s, r, getattr(importlib.import_module(f"{PKG}.add_{r}_rotations_to_rotation_library"), f"add_{r}_rotations_to_rotation_library"))
        s.Utils = importlib.import_module(PKG + ".example_rotation_utils").ExampleRotationUtils
        s.Table = importlib.import_module(PKG + ".specific_rotations").SpecificRotations
        s.add_to_rotation_library = importlib.import_module(PKG + ".add_rotation_to_rotation_library").add_to_rotation_library
        _ex = s
    return _ex


EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


@contextlib.contextmanager
def hosted(case, info):
    """a job's own code, with the generated table in place of its recorded one; -> that code, or the table if there is no such code"""
    if "host" not in case:
        yield info
        return
    role, job = case["host"].split("/")
    mod = fn = key = None
    try:
        mod = importlib.import_module(f"{PKG}.{role}.{job}")
        fn = getattr(mod, f"add_{job}_rotations", None)
        key = [k for k, t in vars(mod).items() if hasattr(t, "add_rotation_data") and isinstance(getattr(t, "rotations", None), dict)]
    except ImportError:
        pass
    if fn is None or len(key or ()) != 1:
        yield info
        return
    old = getattr(mod, key[0])
    setattr(mod, key[0], info)
    try:
        yield fn
    finally:
        setattr(mod, key[0], old)


def judge(case):
    tables()  # as recorded
    info = None
    if "table" in case:
        info = ex().Table()
        for k, t in real_table(case).items():
            info.add_rotation_data(k, t)
    with real.quiet(), hosted(case, info) as way:
        return judge_(case, info, way)


def judge_(case, table, info):
    x = ex()
    v = core.Verdict(faults={})
    if "host" in case and callable(info):
        v.faults["generated table in a job's own code"] = 1
    if table is not None:
        before = outcome.canon(table.rotations)
    try:
        wants = [[want(case, *a) for a in asks] for asks in case["callers"]]
    except (KeyError, AssertionError):
        return core.Verdict(note="rejected")
    trace = 0
    if len(case["callers"]) == 1:
        got = []
        for j, a in enumerate(case["callers"][0]):
            c = case.get("cut")
            if c and c["ask"] == j:
                p = interrupt.Points(record=True)
                p.run(lambda: request(x, *a, info))
                at = interrupt.choose(p.where, c["mode"], c["f"], c["g"])
                p = interrupt.Points(at, EXC[c["exc"]]())
                try:
                    p.run(lambda: request(x, *a, info))
                    swallowed = p.fired is not None
                except (KeyboardInterrupt, MemoryError):
                    swallowed = False
                if p.fired:
                    v.faults[c["exc"]] = 1
                    trace = core.digest([p.fired[2], at])
                if swallowed:
                    v.violation = ("swallowed", f"{c['exc']} in {p.fired[2]} was not reported to the caller")
                    return v
            try:
                got.append(request(x, *a, info))
            except Exception as e:
                v.violation = ("raises", f"asked for {a}: {type(e).__name__}: {e}"[:400])
                return v
        got = [got]
    else:
        s = threads.Scheduler(case["plan"], [lambda asks=asks: [request(x, *a, info) for a in asks] for asks in case["callers"]]).run()
        v.faults["thread switch"] = s.switches
        trace = s.trace
        for i, e in enumerate(s.error):
            if isinstance(e, core.NoProgress):
                raise e
            if e is not None:
                v.violation = ("raises", f"caller {i}: {type(e).__name__}: {e}"[:400])
                return v
        got = s.result
    if sum(len(a) for a in case["callers"]) > 1:
        v.faults["requests for several libraries"] = 1
    n = 0
    rng = random.Random(case["plan"]["seed"])
    for i, (asks, ws, gs) in enumerate(zip(case["callers"], wants, got)):
        for a, w, g in zip(asks, ws, gs):
            n += len(g)
            if sorted(w) != sorted(g):
                v.violation = ("names", f"caller {i} asked for {a}: recorded for it are {sorted(w)}, given {sorted(g)}")
                return v
            play = set(g) if len(g) < 5 else set(rng.sample(sorted(g), 4))  # the statistics of all of them, the presses of some
            for k in g:
                now = shown(g[k], k in play)
                if now != w[k][:len(now)]:
                    v.violation = ("differs", f"caller {i} asked for {a}, rotation {k}, as recorded against given: {outcome.where(w[k], now)}")
                    return v
    if table is not None and outcome.canon(table.rotations) != before:
        v.violation = ("table", f"the recorded rotations were modified: {outcome.where(before, outcome.canon(table.rotations))}")
        return v
    v.sig = core.digest([case["callers"], case.get("table"), trace]) if n else None
    return v


def shrink(case):
    cs = case["callers"]
    if len(cs) > 1:
        for i in range(len(cs)):
            c = T.copy(case)
            del c["callers"][i]
            yield c
    for i, a in enumerate(cs):
        if len(a) > 1:
            for j in range(len(a)):
                c = T.copy(case)
                del c["callers"][i][j]
                if c.get("cut"):
                    c["cut"]["ask"] = min(c["cut"]["ask"], len(a) - 2)
                yield c
    if case.get("cut"):
        c = T.copy(case)
        del c["cut"]
        yield c
    if "host" in case:
        c = T.copy(case)
        del c["host"]
        yield c
    for k in case.get("table", {}):
        if len(case["table"]) > 1:
            c = T.copy(case)
            del c["table"][k]
            yield c
        for l, e in case["table"][k].items():
            if len(case["table"][k]) > 1:
                c = T.copy(case)
                del c["table"][k][l]
                yield c
            for f in ("party_skills", "skills"):
                for j in range(len(e.get(f, ()))):
                    if f == "party_skills" or len(e[f]) > 1:
                        c = T.copy(case)
                        del c["table"][k][l][f][j]
                        yield c
    for m in (1000, 200, 40):
        if case["plan"]["mode"] == "steps" and case["plan"]["mean"] < m:
            yield dict(case, plan=dict(case["plan"], mean=m))


def prepare(seed, tier):
    T.prepare()
    tables()
    ex()
    for v, l in VL:
        real.real_lib(v, l)
    with real.quiet():
        for v, l in VL:
            for what in ROLES + ["all"]:
                want({}, v, l, what)
