"""The timeline checks: a simulated fight run by the real builders against the reference model."""
import json
import random

from . import core, gen, model as M, real

REAL = ["RotationBuilder", "SnapshotAndApplicationEvents", "DamageBuilder", "status-effect, combo, job-resource and channeling trackers",
        "Skill / SkillModifier / specs", "SkillLibrary", "Stats", "generic skills (Death, Weakness, Brink of Death, Wait)",
        "create_skill_library and all job data (in the runs on the shipped library)"]
STUB = ["the player and the party (their presses come from the seeded plan)", "the boss (untargetable windows come from the seeded plan)",
        "wall clock (never read by this code)"]
ASSUME = ["the reference model (sim/model.py) states the intended semantics; it shares no code with the library",
          "events of the same skill at the same instant whose order is not determined: runs whose outcome depends on it are not judged",
          "sampled, not enumerated"]
RULE = ("A run is one simulated fight: a generated skill library (or the shipped one), a seeded plan of presses on a time grid, and seeded faults "
        "placed mostly at instants where something is in flight or ends. Non-trivial: at least two hits, and at least one fault fired or one hit "
        "carrying an effect or a condition. Two runs are the same if their hits have the same skills, targets, effects and conditions in the same order.")
MEASURE = "distinct sequences of hits (skill by first appearance, target, class, conditions, buffs, debuffs), times left out"

ALL = real.HIT_FIELDS


def sig(hits, faults):
    if len(hits) < 2:
        return None
    names = {}

    def c(n):
        return names.setdefault(n, len(names))

    out = []
    rich = bool(faults)
    for h in sorted(hits):
        b, d = h[7][-1], h[8][-1]
        rich = rich or b or d or h[3]
        out.append([c(h[1]), h[2], h[5], sorted(c(x) for x in h[3]), sorted(c(x) for x in b), sorted(c(x) for x in d)])
    return core.digest(out) if rich else None


class Timeline:
    """fields: the hit fields this property is about; only(hit): the hits it is about"""

    def __init__(self, name, fields=ALL, only=None, presses=False, real_share=.12, extra=None):
        self.name, self.fields, self.only, self.presses, self.real_share, self.extra = name, fields, only, presses, real_share, extra

    def make(self, seed, i):
        rng = random.Random(seed)
        if rng.random() < self.real_share:
            return gen.make_real_case(rng, self.name)
        return gen.make_case(rng.getrandbits(64), self.name, small=rng.random() < .4, extreme=True)

    def project(self, hits):
        idx = [ALL.index(f) for f in self.fields]
        keep = [h for h in hits if self.only is None or self.only(h)]
        return sorted(tuple(h[i] if i in idx else None for i in range(len(h))) for h in keep)

    def judge(self, case):
        faults = gen.faults_of(case)
        M.PROBE.clear()
        lib = None
        rejected = None
        try:
            if case["lib"]["kind"] == "real":
                lib = real.mk_lib(case["lib"])
            exp = real.Expected(case, lib)
        except M.Reject as e:
            rejected = str(e)
        probes = {k: 1 for k, v in M.PROBE.items() if v}
        if rejected:
            return core.Verdict(note="rejected", faults=faults)
        try:
            presses, hits, insts, rb, stats, lib2 = real.run_real(real.with_log(case, exp.logged), lib)
        except core.NoProgress:
            raise
        except (Exception, RecursionError) as e:
            if exp.ambiguous:
                return core.Verdict(note="ambiguous", faults=faults)
            return core.Verdict(("raises", f"{type(e).__name__}: {e}"[:600]), faults=faults)
        if exp.ambiguous:
            return core.Verdict(note="ambiguous", faults=faults)
        span = (max(h[0] for h in exp.hits) - min(min(h[0] for h in exp.hits), min((p[0] for p in exp.presses), default=0))) if exp.hits else 0
        v = core.Verdict(sig=sig(exp.hits, faults), faults=faults, probes=probes, sim_ms=max(0, span))
        v.violation = self.compare(case, exp, presses, hits, insts, rb)
        if v.violation and exp.tied and exp.other_orders(300, 1):
            v.violation, v.note = None, "ambiguous"
        return v

    def compare(self, case, exp, presses, hits, insts, rb=None):
        times = [i[0] for i in insts]
        if times != sorted(times):
            return ("order", f"damage instances are not in time order: {times}"[:400])
        if self.presses and sorted(presses) != sorted(exp.presses):
            a = [p for p in exp.presses if p not in presses]
            b = [p for p in presses if p not in exp.presses]
            return ("presses", f"button presses: expected {a[:3]} got {b[:3]} ({len(exp.presses)} expected, {len(presses)} got)")
        if self.presses and any(a[0] > b[0] for a, b in zip(presses, presses[1:])):
            return ("press order", f"button presses are not in time order: {[p[:2] for p in presses]}"[:400])
        if self.presses and presses and not any("," in p[1] for p in presses):
            ex = real.export(rb)
            want = [(real.num(round(p[0], 4)),) + tuple(x.strip() for x in p[1:]) for p in presses]
            if sorted(ex, key=repr) != sorted(want, key=repr) or [x[0] for x in ex] != [x[0] for x in want]:
                d = next((a, b) for a, b in zip(ex + [None] * len(want), want + [None] * len(ex)) if a != b)
                return ("export", f"the printed export has {d[0]} where the press is {d[1]} ({len(ex)} lines, {len(want)} presses)")
        d = real.diff_hits(self.project(exp.hits), self.project(hits))
        if d:
            return ("hits", d)
        if self.extra:
            return self.extra(case, exp, presses, hits, insts)
        return None

    # --------------------------------------------------------- shrinking
    def shrink(self, case):
        yield from shrink_case(case)


def copy(x):
    return json.loads(json.dumps(x))


def used_skills(case):
    return {(o["skill"], o.get("job") or case["stats"]["job_class"]) for o in case["ops"]}


def shrink_case(case):
    ops = case["ops"]
    n = len(ops)
    k = n // 2
    while k >= 1:
        for i in range(0, n, k):
            c = copy(case)
            del c["ops"][i:i + k]
            if c["ops"]:
                yield c
        k //= 2
    for f in ("downtime", "snap", "autos", "ignore_trailing_dots", "default_target"):
        if case["builder"].get(f):
            c = copy(case)
            del c["builder"][f]
            yield c
    w = case["builder"].get("downtime")
    if isinstance(w, dict):
        for t in w:
            c = copy(case)
            del c["builder"]["downtime"][t]
            yield c
    elif w:
        for i in range(len(w)):
            c = copy(case)
            del c["builder"]["downtime"][i]
            yield c
    if case["builder"].get("fight_start") != 0 and "fight_start" in case["builder"]:
        c = copy(case)
        c["builder"]["fight_start"] = 0
        yield c
    for i, o in enumerate(ops):
        for f in ("mod", "targets", "n", "f", "dropped"):
            if f in o:
                c = copy(case)
                if f == "dropped":
                    del c["ops"][i]
                else:
                    del c["ops"][i][f]
                if c["ops"]:
                    yield c
    lib = case["lib"]
    if lib["kind"] == "syn":
        used = used_skills(case)
        for job, jj in lib["jobs"].items():
            for i, s in enumerate(jj["skills"]):
                if (s["name"], job) not in used and s["name"] not in ("Auto", "Shot"):
                    c = copy(case)
                    del c["lib"]["jobs"][job]["skills"][i]
                    yield c
                    continue
                for f in list(s):
                    if f in ("name", "timing_spec", "is_GCD"):
                        continue
                    c = copy(case)
                    del c["lib"]["jobs"][job]["skills"][i][f]
                    if f == "damage_spec":
                        c["lib"]["jobs"][job]["skills"][i].pop("aoe_dropoff", None)
                    yield c
                    v = s[f]
                    if isinstance(v, dict) and "?" in v and "aoe_dropoff" not in s:
                        c = copy(case)
                        c["lib"]["jobs"][job]["skills"][i][f] = v["?"][0][1]
                        yield c
                    elif isinstance(v, list) and len(v) > 1:
                        for q in range(len(v)):
                            c = copy(case)
                            del c["lib"]["jobs"][job]["skills"][i][f][q]
                            yield c
                    elif isinstance(v, dict) and "?" not in v and f != "damage_spec":
                        for q in list(v):
                            if q != "duration":
                                c = copy(case)
                                del c["lib"]["jobs"][job]["skills"][i][f][q]
                                yield c
            for f in ("prio", "breakers"):
                if jj.get(f):
                    c = copy(case)
                    del c["lib"]["jobs"][job][f]
                    yield c
        if len(lib["jobs"]) > 1:
            for job in list(lib["jobs"]):
                if job != case["stats"]["job_class"] and not any(o.get("job") == job for o in ops):
                    c = copy(case)
                    del c["lib"]["jobs"][job]
                    yield c
        if lib.get("generic") and not any(o["skill"].startswith(("Death", "Weak", "Brink", "Wait")) for o in ops):
            c = copy(case)
            c["lib"]["generic"] = False
            yield c


def prepare():
    """built once, before the workers are forked"""
    for v, l in gen.VERSIONS:
        real.real_lib(v, l)
