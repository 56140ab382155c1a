"""Drives the repository's real code with a case, and reads its public results."""
import contextlib
import io
import math
import os
import random
import sys
from types import SimpleNamespace

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import numpy as np  # noqa: E402

from . import model as M  # noqa: E402


def load():
    """Imports the system under test (once)."""
    from ama_xiv_combat_sim.simulator.calcs.damage_class import DamageClass
    from ama_xiv_combat_sim.simulator.calcs.forced_crit_or_dh import ForcedCritOrDH
    from ama_xiv_combat_sim.simulator.damage_simulator import DamageSimulator
    from ama_xiv_combat_sim.simulator.game_data.game_consts import GameConsts
    from ama_xiv_combat_sim.simulator.skills.skill import Skill
    from ama_xiv_combat_sim.simulator.skills.skill_library import SkillLibrary
    from ama_xiv_combat_sim.simulator.skills.skill_modifier import SkillModifier
    from ama_xiv_combat_sim.simulator.skills.create_skill_library import create_skill_library
    from ama_xiv_combat_sim.simulator.specs.channeling_spec import ChannelingSpec
    from ama_xiv_combat_sim.simulator.specs.combo_spec import ComboSpec
    from ama_xiv_combat_sim.simulator.specs.damage_spec import DamageSpec
    from ama_xiv_combat_sim.simulator.specs.follow_up import FollowUp
    from ama_xiv_combat_sim.simulator.specs.job_resource_settings import JobResourceSettings
    from ama_xiv_combat_sim.simulator.specs.job_resource_spec import JobResourceSpec
    from ama_xiv_combat_sim.simulator.specs.status_effect_spec import StatusEffectSpec
    from ama_xiv_combat_sim.simulator.specs.timing_spec import TimingSpec
    from ama_xiv_combat_sim.simulator.stats import Stats
    from ama_xiv_combat_sim.simulator.timeline_builders.damage_builder import DamageBuilder
    from ama_xiv_combat_sim.simulator.timeline_builders.rotation_builder import RotationBuilder
    from ama_xiv_combat_sim.kill_time_estimator.kill_time_estimator import KillTimeEstimator
    from ama_xiv_combat_sim.rotation_analysis.rotation_analysis_utils import RotationAnalysisUtils
    from ama_xiv_combat_sim.simulator.rotation_import_utils.csv_utils import CSVUtils
    import ama_xiv_combat_sim.simulator.game_data.generic_skills.add_generic_skills_to_library as generic
    return SimpleNamespace(**{k: v for k, v in locals().items()})


_R = None


def R():
    global _R
    if _R is None:
        _R = load()
    return _R


def _fix(d):
    out = {}
    for k, v in d.items():
        if isinstance(v, list):
            v = tuple(v)
        elif v == "inf":
            v = math.inf
        elif k in ("guaranteed_crit", "guaranteed_dh"):
            v = R().ForcedCritOrDH[v]
        elif k == "damage_class":
            v = R().DamageClass[v]
        out[k] = v
    return out


def _field(d, conv):
    if isinstance(d, dict) and "?" in d:
        return {c: conv(v) for c, v in d["?"]}
    return conv(d)


def mk_skill(j):
    r = R()
    one = lambda cls: (lambda d: None if d is None else cls(**_fix(d)))
    many = lambda cls: (lambda l: tuple(cls(**_fix(x)) for x in l))

    def fus(l):
        out = []
        for x in l:
            x = dict(x)
            sk = mk_skill(x.pop("skill"))
            out.append(r.FollowUp(skill=sk, **_fix(x)))
        return tuple(out)

    kw = {}
    for f, conv in (("damage_spec", one(r.DamageSpec)), ("timing_spec", one(r.TimingSpec)), ("buff_spec", one(r.StatusEffectSpec)),
                    ("debuff_spec", one(r.StatusEffectSpec)), ("channeling_spec", one(r.ChannelingSpec)),
                    ("job_resource_spec", many(r.JobResourceSpec)), ("combo_spec", many(r.ComboSpec)), ("follow_up_skills", fus)):
        if f in j:
            kw[f] = _field(j[f], conv)
    for f in ("is_GCD", "job_resources_snapshot", "aoe_dropoff", "off_class_default_condition", "has_aoe"):
        if f in j:
            kw[f] = j[f]
    if "ignored_conditions_for_bonus_potency" in j:
        kw["ignored_conditions_for_bonus_potency"] = tuple(j["ignored_conditions_for_bonus_potency"])
    if "status_effect_denylist" in j:
        kw["status_effect_denylist"] = tuple(j["status_effect_denylist"])
    return r.Skill(name=j["name"], **kw)


GENERIC = [
    {"name": "Death", "is_GCD": False, "timing_spec": {"base_cast_time": 0, "animation_lock": 0, "application_delay": 0}},
    {"name": "Weakness", "is_GCD": False, "timing_spec": {"base_cast_time": 0, "animation_lock": 0, "application_delay": 0}},
    {"name": "Brink of Death", "is_GCD": False, "timing_spec": {"base_cast_time": 0, "animation_lock": 0, "application_delay": 0}},
]
for _g, _m in zip(GENERIC, (None, 0.75, 0.5)):
    _n = _g["name"]
    _g["follow_up_skills"] = [
        {"skill": {"name": _n, "buff_spec": {"clear_all_status_effects": True}}, "delay_after_parent_application": 0},
        {"skill": {"name": _n, "combo_spec": [{"break_all_combos_only": True}]}, "delay_after_parent_application": 0},
        {"skill": {"name": _n, "job_resource_spec": [{"clear_all_resources_only": True}]}, "delay_after_parent_application": 0},
    ]
    if _m:
        _g["follow_up_skills"].append({"skill": {"name": _n, "buff_spec": {"duration": 100000, "main_stat_mult": _m}},
                                       "delay_after_parent_application": 0})

_REAL_LIBS = {}


def real_lib(version, level):
    k = (version, level)
    if k not in _REAL_LIBS:
        with quiet():
            _REAL_LIBS[k] = R().create_skill_library(version, level)
    return _REAL_LIBS[k]


def mk_lib(lj):
    r = R()
    if lj["kind"] == "real":
        return real_lib(lj["version"], lj["level"])
    lib = r.SkillLibrary(lj["version"], lj["level"])
    for job, jj in lj["jobs"].items():
        lib.set_current_job_class(job)
        lib.set_status_effect_priority(tuple(jj.get("prio", ())))
        for g, b in jj.get("breakers", ()):
            lib.add_combo_breaker(g, tuple(b))
        for n, s in jj.get("resources", {}).items():
            lib.add_resource(n, r.JobResourceSettings(**_fix(s)))
        for s in jj["skills"]:
            lib.add_skill(mk_skill(s))
    if lj.get("generic"):
        with quiet():
            lib = r.generic.add_generic_skills_to_library(lib)
    return lib


class MLib:
    """The model's view of a library, for the player's job."""

    def __init__(self, lj, job, lib=None):
        self.sk = {}
        self.lj = lj
        self.lib = lib
        if lj["kind"] == "real":
            self.prio = lib.get_status_effect_priority(job)
            self.breakers = lib.get_all_combo_breakers(job)
            self.resources = lib.get_all_resource_settings(job)
        else:
            jj = lj["jobs"][job]
            self.prio = tuple(jj.get("prio", ()))
            self.breakers = {g: tuple(b) for g, b in jj.get("breakers", ())}
            self.resources = {n: SimpleNamespace(max_value=s.get("max_value", 0), skill_allowlist=tuple(s.get("skill_allowlist", ())),
                                                 expiry_from_last_gain=M._num(s.get("expiry_from_last_gain", math.inf)),
                                                 add_number_to_conditional=s.get("add_number_to_conditional", True))
                              for n, s in jj.get("resources", {}).items()}
            for jb, jx in lj["jobs"].items():
                for s in jx["skills"]:
                    self.sk[(s["name"], jb)] = M.from_json(s)
                if lj.get("generic"):
                    for s in GENERIC:
                        self.sk[(s["name"], jb)] = M.from_json(s)

    def has(self, n, job):
        if self.lj["kind"] == "real":
            return self.lib.has_skill(n, job)
        return (n, job) in self.sk

    def skill(self, n, job):
        k = (n, job)
        if k not in self.sk:
            if self.lj["kind"] == "real":
                self.sk[k] = M.from_real(self.lib.get_skill(n, job))
            elif self.lj.get("generic") and n.startswith("Wait "):
                lock = int(round(1000 * float(n[5:-1])))
                self.sk[k] = M.from_json({"name": n, "is_GCD": False, "timing_spec": {"base_cast_time": 0, "animation_lock": lock}})
            else:
                raise M.Reject("unknown skill " + n)
        return self.sk[k]


@contextlib.contextmanager
def quiet():
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
        yield o


def mk_stats(sj):
    return R().Stats(**sj)


def mk_mod(m):
    if m is None:
        return None
    r = R()
    return r.SkillModifier(with_condition=m.get("cond", ""), guaranteed_crit=r.ForcedCritOrDH[m.get("gc", "DEFAULT")],
                           guaranteed_dh=r.ForcedCritOrDH[m.get("gd", "DEFAULT")], force_combo=bool(m.get("force")),
                           ignore_cast_times=bool(m.get("nocast")), ignore_application_delay=bool(m.get("nodelay")),
                           bonus_percent=m.get("pct"))


def mk_downtime(w):
    """[[a, z, cls]...] for all targets, or {target: [[a, z, cls]...]}; in seconds"""
    r = R()
    one = lambda l: tuple((x[0], x[1]) if len(x) < 3 or x[2] is None else (x[0], x[1], r.DamageClass[x[2]]) for x in l)
    return {t: one(l) for t, l in w.items()} if isinstance(w, dict) else one(w)


def mk_builder(case, stats, lib, downtime=None):
    b = case["builder"]
    return R().RotationBuilder(stats, lib, snap_dots_to_server_tick_starting_at=b.get("snap"), enable_autos=b.get("autos", False),
                               ignore_trailing_dots=b.get("ignore_trailing_dots", False), fight_start_time=b.get("fight_start"),
                               downtime_windows=mk_downtime(b.get("downtime", [])) if downtime is None else downtime,
                               default_target=b.get("default_target", M.DEFAULT_TARGET))


def delivered(case):
    """The presses that reach the system: dropped ones are part of the trace but not delivered."""
    return [o for o in case["ops"] if not o.get("dropped")]


def do_press(rb, o, mod=None):
    m = mk_mod(o.get("mod")) if mod is None else mod
    if "t" in o:
        rb.add(o["t"], o["skill"], skill_modifier=m, job_class=o.get("job"), targets=o.get("targets"))
    else:
        rb.add_next(o["skill"], skill_modifier=m, job_class=o.get("job"), targets=o.get("targets"), num_times=o.get("n", 1))


def num(x):
    x = float(x)
    return x if math.isinf(x) or math.isnan(x) else round(x, 7)


EFF = ("crit_rate_add", "dh_rate_add", "damage_mult", "main_stat_add", "main_stat_mult")


def eff(s, names):
    return tuple(num(getattr(s, f)) for f in EFF) + (M.enum_name(s.guaranteed_crit), M.enum_name(s.guaranteed_dh), tuple(sorted(names)))


def hit_real(inst, snap):
    t, sk, mod, (b, d), eid, tgt = inst
    dm = sk.get_damage_spec(mod)
    return (num(t), sk.name, tgt, tuple(sorted(mod.with_condition)), num(dm.potency), dm.damage_class.name,
            (M.enum_name(mod.guaranteed_crit), M.enum_name(mod.guaranteed_dh)), eff(b, b.status_effects), eff(d, d.status_effects), num(snap))


def hit_model(h):
    return (num(h.t), h.name, h.target, tuple(sorted(h.have)), num(h.damage.potency), M.enum_name(h.damage.damage_class),
            (h.m.gc, h.m.gd), eff(h.buffs, h.buffs.names), eff(h.debuffs, h.debuffs.names), num(h.snap))


HIT_FIELDS = ("time", "skill", "target", "conditions", "potency", "class", "forced", "buffs", "debuffs", "snapshot")


def timeline(rb, stats, lib, db=None):
    """presses and hits of a builder, by the public interface"""
    q = rb.get_skill_timing()
    ids = {e.event_id: (e.event_times.primary, e.skill.name) for e in q.get_q()}
    db = db or R().DamageBuilder(stats, lib)
    insts = db.get_damage_instances(q)
    hits = [hit_real(i, ids[i[4]][0]) for i in insts]
    for i in insts:
        if ids[i[4]][1] != i[1].name:
            raise AssertionError(f"event id {i[4]} of {i[1].name} belongs to {ids[i[4]][1]}")
    return canon_presses(rb.get_button_press_timing()), hits, insts


def canon_presses(ps):
    return [(num(p[0]), p[1], p[2], p[3]) for p in ps]


def export(rb):
    """the printed export of the presses as (time in ms, skill, job, conditions), in the printed order"""
    with quiet() as o:
        rb.print_button_press_timings_as_csv()
    lines = [x for x in o.getvalue().split("\n") if x.strip()]
    out = []
    for x in lines[1:]:
        try:
            t, name, job, cond = (y.strip() for y in x.split(", ", 3))
            out.append((num(round(1000 * float(t), 4)), name, job, cond))
        except ValueError:
            out.append((x, "", "", ""))
    return out


def new_model(case, lib=None):
    stats = mk_stats(case["stats"])
    job = case["stats"]["job_class"]
    if case["lib"]["kind"] == "real" and lib is None:
        lib = mk_lib(case["lib"])
    ml = MLib(case["lib"], job, lib)
    b = case["builder"]
    ms = lambda l: tuple((x[0] * 1000, x[1] * 1000, x[2] if len(x) > 2 else None) for x in l)
    w = b.get("downtime", [])
    cfg = SimpleNamespace(autos=b.get("autos", False), ignore_trailing_dots=b.get("ignore_trailing_dots", False), snap=b.get("snap"),
                          fight_start=b.get("fight_start"), downtime={t: ms(l) for t, l in w.items()} if isinstance(w, dict) else ms(w),
                          default_target=b.get("default_target", M.DEFAULT_TARGET))
    st = SimpleNamespace(speed_stat=stats.speed_stat, version=stats.version, level=stats.level, weapon_delay=case["stats"].get("weapon_delay", M.WEAPON.get(job)),
                         job_class=job, trait_haste=TRAIT.get((job, stats.level), 0), trait_auto=TRAIT.get((job, stats.level), 0))
    m = M.Model(st, ml, cfg)
    m.mods = []
    for o in delivered(case):
        if "t" in o:
            m.press(o["t"], o["skill"], o.get("job"), o.get("targets"), o.get("mod"))
            m.mods.append(m.timed[-1][2])
        else:
            m.press_next(o["skill"], o.get("job"), o.get("targets"), o.get("mod"), o.get("n", 1))
            m.mods.append(m.seq[-1][1])
    return m


class Expected:
    """What the reference model expects of a case.

    `ambiguous`: the outcome depends on the order of events whose order is not determined."""

    def __init__(self, case, lib=None, tries=6):
        self.m = new_model(case, lib)
        presses, hits = self.m.run()
        self.presses, self.hits, self.raw = canon_presses(presses), sorted(hit_model(h) for h in hits), hits
        self.tied = self.m.tied
        self.logged = [x.pct for x in self.m.mods]
        self.ambiguous = False
        self.case, self.lib = case, lib
        if self.tied:
            self.ambiguous = self.other_orders(tries, 0)

    def other_orders(self, tries, salt):
        m = new_model(self.case, self.lib)
        for i in range(tries):
            _, hits = m.run(random.Random(f"tie {salt} {i}"))
            if sorted(hit_model(h) for h in hits) != self.hits or [x.pct for x in m.mods] != self.logged:
                return True
        return False

    def compare(self, presses, hits):
        """-> None, or what differs, or 'ambiguous'"""
        d = None
        if sorted(presses) != sorted(self.presses):
            a = [p for p in self.presses if p not in presses]
            b = [p for p in presses if p not in self.presses]
            d = f"button presses: expected {a[:3]} got {b[:3]} ({len(self.presses)} expected, {len(presses)} got)"
        d = d or diff_hits(self.hits, hits)
        if d is None:
            return None
        if self.ambiguous or (self.tied and self.other_orders(300, 1)):
            return "ambiguous"
        return d


TRAIT = {("MNK", 90): 0.2, ("MNK", 100): 0.2, ("NIN", 100): 0.15}


def with_log(case, logged):
    """the case with what the log shows in place of what happened"""
    if not any("boss" in (o.get("mod") or ()) for o in case["ops"]):
        return case
    ops = []
    for o, p in zip(delivered(case), logged):
        if "boss" in (o.get("mod") or ()):
            o = dict(o, mod=dict(o["mod"], pct=p))
        ops.append(o)
    return dict(case, ops=ops)


def run_real(case, lib=None):
    with quiet():
        stats = mk_stats(case["stats"])
        lib = lib or mk_lib(case["lib"])
        rb = mk_builder(case, stats, lib)
        for o in delivered(case):
            do_press(rb, o)
        p, h, insts = timeline(rb, stats, lib)
    return p, h, insts, rb, stats, lib


def diff_hits(exp, got):
    """exp, got: lists of hit tuples (sorted).  -> None or a description"""
    got_s = sorted(got)
    if exp == got_s:
        return None
    from collections import Counter
    a, b = Counter(exp), Counter(got_s)
    miss, extra = list((a - b).elements()), list((b - a).elements())
    txt = []
    for m in miss[:3]:
        near = [x for x in extra if x[1] == m[1]]
        near.sort(key=lambda x: (x[2] != m[2], abs(x[0] - m[0])))
        if near:
            x = near[0]
            txt.append("hit " + m[1] + f" at {m[0]} on {m[2]}: " + "; ".join(
                f"{f} expected {u!r} got {v!r}" for f, u, v in zip(HIT_FIELDS, m, x) if u != v))
        else:
            txt.append(f"missing hit {m}")
    if not miss:
        for x in extra[:3]:
            txt.append(f"unexpected hit {x}")
    txt.append(f"({len(exp)} hits expected, {len(got_s)} got, {len(miss)} missing, {len(extra)} unexpected)")
    return " | ".join(txt)
