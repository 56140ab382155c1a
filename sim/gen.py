"""Seeded generation of simulated fights: a rotation plan (the workload) plus a
fault sequence that disturbs it.

Everything is drawn from one random.Random.  The result is a JSON case (see
real.py).  The fault kinds are those a player's rotation meets: presses that
come late, early, twice, out of order or not at all; a stall that pushes back
everything after it; death; a target that cannot be hit for a while; a switch
of target.  Fault instants are biased to the instants at which something is in
flight or about to end (found by a dry run of the reference model).
"""
import json
import random

from . import model as M

# probability of each feature of the skills and of the fight, by property
BASE = dict(cast=.4, buff=.5, debuff=.35, uses=.2, prio=.15, allow=.2, deny=.15, extend=.2, expires=.2, cond=.2, force=.15, fu=.35,
            dot=.25, combo=.2, res=.2, chan=.1, haste=.15, aoe=.2, multi=.25, party=.2, death=.1, down=.2, autos=.2, seq=.3, timed=.75,
            snap=.3, trail=.3, start=.4, tie=.3, modif=.2, pos=0)
FOCUS = {
    "C02": dict(cond=.9, modif=.9, combo=.4, res=.4, aoe=.4, multi=.4, buff=.7, debuff=.5, dot=.4, fu=.5, repeat=.8, allow=.3, uses=.3, autos=.3),
    "C05": dict(fu=.8, cast=.6, dot=.3, tie=.6, multi=.4, delaymix=.7, down=.1, autos=.15, seq=.4),
    "C06": dict(buff=.95, debuff=.8, fu=.5, cast=.6, allow=.4, deny=.3, prio=.4, tie=.6, multi=.3, delaymix=.8, down=.05, force=.25, dot=.3),
    "C07": dict(buff=.95, debuff=.7, uses=.6, extend=.7, expires=.5, tie=.6, fu=.3, down=.05, force=.2, allow=.3, delaymix=.4, repeat=.7),
    "C08": dict(dot=1., buff=.5, debuff=.5, multi=.4, snap=.5, trail=.5, down=.15, tie=.4, fu=.4, repeat=.6, autos=.15),
    "C09": dict(autos=1., chan=.45, haste=.6, cast=.6, party=.5, down=.4, multi=.4, targets=.6, dot=.15, trail=.4, tie=.4, extend=.4, cond=.4,
                repeat=.6, waits=.3),
    "C10": dict(down=1., multi=.5, dot=.4, autos=.4, cast=.5, fu=.5, buff=.5, debuff=.5, targets=.5, delaymix=.6, tie=.5),
    "C11": dict(seq=1., timed=.3, cast=.75, haste=.7, cond=.3, buff=.5, tie=.3, speed=.8, start=.4, down=.15, waits=.4, death=.05, uses=.3),
    "C12": dict(combo=1., seq=.35, tie=.5, cast=.4, buff=.2, debuff=.1, dot=.1, modif=.4, death=.15, down=.05, longgap=.5),
    "C13": dict(res=1., seq=.35, tie=.5, cast=.4, buff=.2, debuff=.1, dot=.1, death=.15, down=.05, fu=.5, delaymix=.6, longgap=.3),
    "C19": dict(multi=1., targets=.8, aoe=.7, debuff=.8, buff=.4, fu=.6, dot=.3, down=.15, cast=.4, tie=.4, delaymix=.5, res=.3, combo=.3),
    "C21": dict(pos=1., combo=.7, seq=.5, cond=.5, modif=.6, buff=.5, debuff=.2, fu=.2, dot=.1, cast=.3, tie=.5, death=.1, down=.05, multi=.2, res=.2,
                longgap=.3, repeat=.5),
    "C20": dict(death=1., buff=.8, debuff=.5, combo=.4, res=.4, dot=.4, fu=.4, cast=.4, delaymix=.6, tie=.5, down=.05, uses=.3, extend=.4),
}
NAMES = ["Alba", "Bran", "Cole", "Dusk", "Ember", "Frost", "Gale", "Haze", "Iron", "Jade", "Kite", "Lark", "Moss", "Nova"]
TARGETS = ["Default Target", "Boss", "Add"]
CROWD = TARGETS + [f"Mob {i}" for i in range(1, 8)]
JOBS = ["SAM", "NIN", "MNK", "BLM", "WAR", "WHM", "BRD", "DRG"]
PARTY = "DNC"
WEAPON = M.WEAPON


def exact(ms):
    """a press time in seconds that the library reads as exactly this many ms"""
    while int(1000 * (ms / 1000)) != ms or 1000 * (ms / 1000) != ms:
        ms += 1
    return ms / 1000


class Gen:
    def __init__(self, rng, focus=None, small=False):
        self.r = rng
        self.focus = focus
        self.p = dict(BASE, delaymix=.4, repeat=.4, targets=.3, speed=.3, waits=.15, longgap=.15)
        self.p.update(FOCUS.get(focus, {}))
        # swarm: switch off a random subset of what is not in focus
        for k in list(self.p):
            if k not in FOCUS.get(focus, {}) and rng.random() < .35:
                self.p[k] = 0
        self.on = {k: rng.random() < min(1, 1.6 * v) for k, v in self.p.items()}
        for k, v in self.p.items():
            if v >= 1:
                self.on[k] = True
        self.grid = rng.choice([500, 500, 500, 250, 1000, 100, 50])
        self.small = small
        self.long = False
        self.faults = []

    def chance(self, k, f=1.0):
        return self.on[k] and self.r.random() < min(1, f * max(self.p[k], .3))

    def g(self, lo, hi):
        """a duration on the grid, now and then off it by a few ms"""
        v = self.r.randrange(lo, hi + 1, 1)
        v = int(round(v / self.grid)) * self.grid
        if self.r.random() < .12:
            v += self.r.choice([-1, 1, -3, 2])
        return max(lo, v)

    # ------------------------------------------------------------- skills
    def status(self, own, others, debuff=False):
        r = self.r
        d = {"duration": self.g(500, r.choice([4000, 9000, 20000]))}
        if r.random() < .15:
            d["duration"] = 0 if r.random() < .2 else self.grid
        for f, vals in (("crit_rate_add", (.05, .1, .2)), ("dh_rate_add", (.1, .2)), ("damage_mult", (1.05, 1.1, 1.3, .9)),
                        ("main_stat_add", (30, 262)), ("main_stat_mult", (1.1, .75))):
            if r.random() < .3:
                d[f] = r.choice(vals)
        if not any(k in d for k in ("crit_rate_add", "dh_rate_add", "damage_mult", "main_stat_add", "main_stat_mult")):
            d["damage_mult"] = 1.2
        if self.chance("extend"):
            if r.random() < .4:
                d["max_duration"] = d["duration"] + self.g(0, 2 * d["duration"] + 1000)
            if r.random() < .3:
                d["extends_existing_duration"] = False
            if r.random() < .2:
                d["extend_only"] = True
        if self.chance("uses"):
            d["num_uses"] = r.choice([1, 1, 2, 3])
            if r.random() < .5:
                d["max_num_uses"] = d["num_uses"] + r.choice([0, 1, 2])
        if self.chance("allow"):
            d["skill_allowlist"] = r.sample(others, min(len(others), r.randint(1, 4)))
        if self.chance("expires"):
            d["expires_status_effects"] = r.sample(self.names, min(len(self.names), r.choice([1, 1, 2])))
        if self.chance("force") and not self.forced:
            self.forced = True
            d[r.choice(["guaranteed_crit", "guaranteed_dh"])] = r.choice(["FORCE_YES", "FORCE_NO"])
        if self.chance("cond"):
            d["add_to_skill_modifier_condition"] = True
            self.condnames.append(own)
        if self.chance("haste", 1.5) and r.random() < (.25 if debuff else .4 if "skill_allowlist" in d else 1):
            for k in r.sample(["haste_time_reduction", "auto_attack_delay_reduction", "flat_cast_time_reduction", "flat_gcd_recast_time_reduction"],
                              r.choice([1, 1, 1, 2])):
                d[k] = r.choice([.1, .15, .25]) if k.startswith("haste") else r.choice([.1, .25, .4]) if k.startswith("auto") else r.choice([500, 1000, 250])
        if not debuff and self.on["expires"] and r.random() < .06:
            d["clear_all_status_effects"] = True
        return d

    def damage(self, classes=("DIRECT",)):
        r = self.r
        d = {"potency": r.choice([100, 180, 250, 340, 500, 777]), "damage_class": r.choice(classes)}
        if r.random() < .1:
            d["guaranteed_crit"] = "FORCE_YES"
        return d

    def timing(self, gcd):
        r = self.r
        t = {"base_cast_time": 0, "animation_lock": r.choice([0, 650, 600, 500, 1000, 10]), "application_delay": 0}
        if self.chance("cast", .9):
            t["base_cast_time"] = r.choice([1500, 2000, 2500, 400, 500, 3500, self.g(500, 4000)])
        if self.chance("delaymix") or r.random() < .5:
            t["application_delay"] = r.choice([500, 0, self.g(0, 1500), self.g(0, 4000), 620, self.g(500, 9000) if self.on["delaymix"] else 1000])
        if gcd and r.random() < .3:
            t["gcd_base_recast_time"] = r.choice([2500, 1500, 2000, 3500, 4000])
        if r.random() < .2:
            t["affected_by_speed_stat"] = False
        if r.random() < .2:
            t["affected_by_haste_buffs"] = False
        return t

    def follow(self, own, dot):
        r = self.r
        f = {}
        nm = r.choice([own + " fu", own + " fu", r.choice(self.names), "Aftermath", "Zeal"])
        sk = {"name": nm}
        if dot:
            sk["name"] = own + " (dot)"
            if r.random() < .2:
                sk["name"] = "Bleed (dot)"
            sk["damage_spec"] = self.damage(("PHYSICAL_DOT", "MAGICAL_DOT"))
            f["delay_after_parent_application"] = 0
            f["dot_duration"] = r.choice([self.g(1000, 15000), 9000, 6000, 15000, 3000])
            if self.long:
                f["dot_duration"] = r.choice([30000, 18000, 60000, 45000 + self.g(0, 3000)])
            f["snapshot_buffs_with_parent"], f["snapshot_debuffs_with_parent"] = r.choice([(True, True), (True, True), (True, False), (False, True), (False, False)])
            if r.random() < .25:
                f["primary_target_only"] = False
        else:
            k = r.random()
            if k < .65:
                sk["damage_spec"] = self.damage(("DIRECT", "PET", "DIRECT"))
            if k > .5 and (self.on["buff"] or self.on["debuff"]):
                if r.random() < .6:
                    sk["buff_spec"] = self.status(nm, self.names + [own + " fu"])
                else:
                    sk["debuff_spec"] = self.status(nm, self.names + [own + " fu"], True)
            if self.on["res"] and self.resources and r.random() < .3:
                sk["job_resource_spec"] = [self.resource_change()]
            if self.on["deny"] and r.random() < .2:
                sk["status_effect_denylist"] = r.sample(self.names, 1)
            f["delay_after_parent_application"] = r.choice([0, 0, self.g(0, 3000), self.g(0, 8000)])
            f["snapshot_buffs_with_parent"], f["snapshot_debuffs_with_parent"] = r.choice([(True, True), (True, True), (True, False), (False, True), (False, False)])
            f["primary_target_only"] = r.random() < .5
        f["skill"] = sk
        return f

    def resource_change(self):
        r = self.r
        d = {"name": r.choice(self.resources), "change": r.choice([1, 1, 2, 3, -1, -1, -2, -5])}
        if r.random() < .3:
            d["duration"] = self.g(1000, 15000)
        if d["change"] > 0 and r.random() < .5:
            d["refreshes_duration_of_last_gained"] = True
        return d

    def timed_by(self, s, cond):
        """now and then the state of a combo or of a resource decides how long the skill is cast"""
        t = s["timing_spec"]
        if "?" not in t and self.r.random() < .3:
            s["timing_spec"] = {"?": [["", t], [cond, dict(t, base_cast_time=0 if t["base_cast_time"] else self.r.choice([1500, 2500, 3500]))]]}

    def skill(self, nm):
        r = self.r
        s = {"name": nm, "is_GCD": r.random() < .6}
        s["timing_spec"] = self.timing(s["is_GCD"])
        others = self.names + ["Auto", nm + " fu", nm + " (dot)"]
        has_damage = r.random() < .7
        if has_damage:
            s["damage_spec"] = self.damage(("DIRECT", "DIRECT", "DIRECT", "PET", "MAGICAL_DOT"))
        if self.chance("buff", .8):
            s["buff_spec"] = self.status(nm, others)
        if self.chance("debuff", .6):
            s["debuff_spec"] = self.status(nm, others, True)
        if not has_damage and "buff_spec" not in s and "debuff_spec" not in s:
            s["damage_spec"] = self.damage()
        if self.chance("deny"):
            s["status_effect_denylist"] = r.sample(self.names, min(len(self.names), r.choice([1, 2])))
        fus = []
        if self.chance("fu", .8):
            fus += [self.follow(nm, False) for _ in range(r.choice([1, 1, 2, 3]))]
        if self.chance("dot", .7):
            fus += [self.follow(nm, True) for _ in range(r.choice([1, 1, 2]))]
        if fus:
            r.shuffle(fus)
            s["follow_up_skills"] = fus
        if self.chance("chan", .5):
            s["channeling_spec"] = {"duration": self.g(1000, 10000)}
            if r.random() < .5:
                s["channeling_spec"]["skill_allowlist"] = r.sample(self.names, min(len(self.names), 2))
                s["channeling_spec"]["num_uses"] = r.choice([1, 2, 3])
        if self.chance("combo", .9):
            s["combo_spec"] = []
            for _ in range(r.choice([1, 1, 1, 2])):
                c = {"combo_group": r.choice([0, 0, 1, 2])}
                if r.random() < .65:
                    c["combo_actions"] = r.sample(self.names, min(len(self.names), r.choice([1, 1, 2])))
                if r.random() < .08:
                    c["combo_auto_succeed"] = True
                s["combo_spec"].append(c)
            if r.random() < .08:
                s["combo_spec"].insert(r.randint(0, len(s["combo_spec"])), {"break_all_combos_only": True})
            self.timed_by(s, "No Combo")
            if "damage_spec" in s:
                s["damage_spec"] = {"?": [["", s["damage_spec"]], ["No Combo", dict(s["damage_spec"], potency=50)]]}
        if self.on["res"] and self.resources:
            if r.random() < .8:
                s["job_resource_spec"] = [self.resource_change() for _ in range(r.choice([1, 1, 2]))]
                if r.random() < .08:
                    s["job_resource_spec"].insert(r.randint(0, len(s["job_resource_spec"])), {"clear_all_resources_only": True})
            if r.random() < .3:
                s["job_resources_snapshot"] = False
            self.timed_by(s, f"{r.choice([1, 1, 2])} {r.choice(self.resources)}")
            if "damage_spec" in s and "?" not in s["damage_spec"] and r.random() < .7:
                rn = r.choice(self.resources)
                d = s["damage_spec"]
                s["damage_spec"] = {"?": [["", d]] + [[f"{i} {rn}", dict(d, potency=d["potency"] + 100 * i)] for i in range(1, 6)]}
        if self.on["pos"] and r.random() < .75:
            self.positional(s)
        if self.chance("cond"):
            self.conditional.append(s)
        if self.on["aoe"] and "damage_spec" in s and r.random() < .6:
            if "?" not in s["damage_spec"]:
                s["damage_spec"] = {"?": [["", s["damage_spec"]]]}
            s["aoe_dropoff"] = r.choice([.5, .6, .25, .7])
            s["has_aoe"] = True
        return s

    def positional(self, s):
        """damage that depends on where the boss faces, in the ways the shipped skills' does"""
        r = self.r
        d = {"potency": 0, "damage_class": "DIRECT"}
        low = r.choice([100, 120, 140, 180, 200])
        pos, combo = r.choice([40, 60, 100]), r.choice([0, 80, 140, 200])
        ents = []
        kinds = [""] + ([r.choice(["Moon", "Sun", r.choice(self.names)])] if r.random() < .5 else [])
        for i, k in enumerate(kinds):
            up = i * r.choice([0, 50, 120])
            least = low + r.choice([10, 20]) if i and r.random() < .4 else None
            for miss, fail in ((0, 0), (1, 0), (0, 1), (1, 1)) if combo or i else ((0, 0), (1, 0)):
                e = dict(d, potency=low + up + (0 if miss else pos) + (0 if fail else combo))
                if least and r.random() < .8:
                    e["use_min_potency"] = least
                ents.append([", ".join(([k] if k else []) + ["No Positional"] * miss + ["No Combo"] * fail), e])
        if len(kinds) > 1 and r.random() < .5:
            s["ignored_conditions_for_bonus_potency"] = [kinds[1]]
        if r.random() < .15 and not s.get("follow_up_skills"):
            s.pop("damage_spec", None)
            s["follow_up_skills"] = {"?": [[k, [{"skill": {"name": s["name"] + " fu", "damage_spec": e}, "delay_after_parent_application": r.choice([0, 500])}]]
                                           for k, e in ents]}
        else:
            s["damage_spec"] = {"?": ents}

    def facing(self, skill):
        """what happened to a press whose outcome is known from a log: nothing wrong, positional missed, combo failed; or a meaningless percentage"""
        r = self.r
        return r.choice([[], [], ["No Positional"], ["No Positional"], ["No Positional"], ["No Combo"], ["No Combo", "No Positional"], r.choice([3, 7, 51, 99])])

    def conditions(self):
        """lets some skills depend on conditions: those of the press and of status effects"""
        r = self.r
        for s in self.conditional:
            c = r.choice(self.condnames + ["Moon", "Sun"])
            f = r.choice(["damage_spec", "timing_spec"] + ["timing_spec"] * 3 * (self.focus in ("C09", "C11")) + ["combo_spec", "job_resource_spec", "buff_spec", "follow_up_skills", "debuff_spec"])
            if "channeling_spec" in s and r.random() < .5:
                f = "channeling_spec"
            if f not in s or "?" in s[f]:
                continue
            other = json.loads(json.dumps(s[f]))
            if f == "damage_spec":
                other["potency"] += 33
            elif f == "timing_spec":
                other["base_cast_time"] = 0 if other["base_cast_time"] else 1500
            elif f == "channeling_spec":
                if r.random() < .4:
                    other = None
                else:
                    other["duration"] += r.choice([1500, 4000])
            elif f in ("buff_spec", "debuff_spec"):
                if r.random() < .4:
                    other = None
                else:
                    other["damage_mult"] = 1.5
                    other["duration"] += 1000
            elif f == "combo_spec":
                other = other[1:] if r.random() < .5 else [{"combo_group": r.choice([0, 1])}]
            elif f == "job_resource_spec":
                other = other[1:] if r.random() < .5 else [self.resource_change()]
            else:
                other = other[:-1]
            s[f] = {"?": [["", s[f]], [c, other]]}

    def library(self):
        r = self.r
        n = r.randint(2, 4 if self.small else 6)
        pool = NAMES[:]
        r.shuffle(pool)
        self.names = pool[:n]
        self.forced = False
        self.condnames, self.conditional = [], []
        self.resources = ["Gauge", "Heat"][: r.choice([1, 2])] if self.on["res"] else []
        self.job = r.choice(JOBS)
        self.version, self.level = r.choice([("7.0", 100), ("7.1", 100), ("7.05", 100), ("6.55", 90), ("7.1", 90)])
        skills = [self.skill(x) for x in self.names]
        self.conditions()
        auto = {"name": "Shot" if self.job == "BRD" else "Auto", "is_GCD": False, "damage_spec": {"potency": 90, "damage_class": "AUTO"},
                "timing_spec": {"base_cast_time": 0, "animation_lock": 0, "application_delay": r.choice([532, 0, 500, 1000])}}
        job = {"skills": skills + [auto]}
        if self.on["prio"]:
            pool = list(self.names)
            r.shuffle(pool)
            job["prio"] = pool[: r.randint(2, 3)]
        if self.on["combo"] and r.random() < .4:
            job["breakers"] = [[g, r.sample([0, 1, 2], r.choice([1, 2]))] for g in r.sample([0, 1, 2], r.choice([1, 1, 2, 3]))]
        if self.resources:
            job["resources"] = {}
            for x in self.resources:
                d = {"max_value": r.choice([2, 3, 5]), "skill_allowlist": r.sample(self.names, max(1, len(self.names) - r.choice([0, 0, 1])))}
                if r.random() < .4:
                    d["expiry_from_last_gain"] = self.g(2000, 12000)
                if r.random() < .2:
                    d["add_number_to_conditional"] = False
                job["resources"][x] = d
        jobs = {self.job: job}
        self.party = []
        if self.on["party"] and r.random() < .8:
            ps = []
            for nm in ("Oath", "Pact", r.choice(self.names))[: r.choice([1, 2, 3])]:
                s = {"name": nm, "is_GCD": False,
                     "timing_spec": {"base_cast_time": r.choice([0, 0, 2000]), "animation_lock": 650, "application_delay": r.choice([0, 500, self.g(0, 2000)])}}
                k = r.choice(["buff_spec", "debuff_spec", "buff_spec"])
                f = self.forced
                self.forced = True
                e = self.status(nm, self.names, k == "debuff_spec")
                self.forced = f
                e.pop("expires_status_effects", None)
                e.pop("clear_all_status_effects", None)
                s[k] = e
                if r.random() < .4:
                    s[k] = {"?": [["", dict(e, damage_mult=1.01)], ["Full", e]]}
                    s["off_class_default_condition"] = "Full"
                if r.random() < .2:
                    s["channeling_spec"] = {"duration": self.g(1000, 6000)}
                ps.append(s)
                self.party.append(nm)
            jobs[PARTY] = {"skills": ps}
        return {"kind": "syn", "version": self.version, "level": self.level, "jobs": jobs, "generic": bool(self.on["death"] or self.on["waits"])}

    # ------------------------------------------------------------- the plan
    def mod(self):
        r = self.r
        m = {}
        if r.random() < .5:
            m["cond"] = r.choice(["Moon", "Sun", "Moon, Sun", "Nothing"])
        if r.random() < .15:
            m["nocast"] = True
        if r.random() < .15:
            m["nodelay"] = True
        if self.on["combo"] and r.random() < .4:
            m["force"] = True
        if r.random() < .15 and not self.forced:
            m[r.choice(["gc", "gd"])] = r.choice(["FORCE_YES", "FORCE_NO"])
        return m or None

    def targets(self):
        r = self.r
        if self.focus == "C19" and r.random() < .12:
            t = CROWD[:]
            if r.random() < .5:
                r.shuffle(t)
            return ", ".join(t[:r.randint(4, 10)])
        if self.on["multi"] and r.random() < .5:
            k = r.choice([2, 2, 3])
            t = TARGETS[:]
            if r.random() < .5:
                r.shuffle(t)
            return ", ".join(t[:k])
        if self.on["targets"] and r.random() < .6:
            return r.choice(TARGETS)
        return None

    def op(self, t=None):
        r = self.r
        o = {}
        if t is not None:
            o["t"] = t
        if self.party and r.random() < .3:
            o["skill"], o["job"] = r.choice(self.party), PARTY
        else:
            o["skill"] = r.choice(self.names)
            if self.on["repeat"] and r.random() < .5:
                o["skill"] = self.names[0]
            if self.on["modif"] and r.random() < .5:
                m = self.mod()
                if m:
                    o["mod"] = m
            if self.on["pos"] and r.random() < .8:
                o.setdefault("mod", {})["boss"] = self.facing(o["skill"])
        tg = self.targets()
        if tg:
            o["targets"] = tg
        return o

    def plan(self):
        r = self.r
        ops = []
        timed = self.on["timed"] or not self.on["seq"]
        n = r.randint(2, 6) if self.small else r.choice([2, 3, 4, 5, 6, 8, 10, 14])
        if timed:
            span = r.choice([3000, 8000, 15000, 30000])
            if self.on["longgap"] and r.random() < .6:
                span = r.choice([40000, 65000])
            if self.long:
                n = r.choice([40, 60, 80])
                span = n * r.choice([500, 1500, 2500])
            start = r.choice([0, 0, 0, -3000, -1000, 1000])
            times = sorted(self.g(0, span) + start for _ in range(n))
            if self.on["tie"]:
                for i in range(1, n):
                    if r.random() < .25:
                        times[i] = times[i - 1]
            if self.on["longgap"]:
                for i in range(1, n):
                    if r.random() < .2:
                        times[i] = times[i - 1] + 30000 + r.choice([0, 0, 1, -1, 500, -500])
            ops += [self.op(exact(t)) for t in times]
            if self.on["waits"] and r.random() < .5:
                for _ in range(r.choice([1, 1, 2])):
                    ops.append({"skill": "Wait %.2fs" % r.choice([.5, 1, 2.5, 1.25, .1]), "t": exact(self.g(0, span) + start)})
        if self.on["seq"]:
            for _ in range(r.randint(2, 5) if self.small else r.randint(30, 60) if self.long else r.randint(2, 12)):
                o = self.op()
                if r.random() < .15 and "boss" not in o.get("mod", ()):
                    o["n"] = 2
                ops.append(o)
                if self.on["waits"] and r.random() < .2:
                    ops.append({"skill": "Wait %.2fs" % r.choice([.5, 1, 2.5, 1.25, 0.1])})
        return ops

    def windows(self, instants):
        r = self.r
        ins = instants or [0]

        def one():
            a = r.choice([r.choice(ins), self.g(0, 12000), r.choice(ins) - self.grid])
            b = r.choice([r.choice(ins), a + self.g(500, 6000), a + 1, a + self.grid])
            if b <= a:
                b = a + self.grid
            c = r.choice([None, None, None, "DIRECT", "AUTO", "PHYSICAL_DOT", "MAGICAL_DOT"])
            w = [exact(a), exact(b)]
            return w + [c] if c else w

        overlap = r.random() < .35

        def several():
            ws, end = [], None
            if overlap:
                return [one() for _ in range(r.choice([2, 2, 3]))]
            for w in sorted(one() for _ in range(r.choice([1, 1, 2, 3]))):
                if end is None or w[0] >= end:
                    ws.append(w)
                    end = w[1]
            return ws

        if r.random() < .5:
            return several()
        return {t: several() for t in r.sample(TARGETS, r.choice([1, 2]))}

    def case(self, instants_of=None):
        """instants_of(case) -> the interesting instants (ms) of a case, by a dry run"""
        r = self.r
        lib = self.library()
        stats = {"wd": 132, "weapon_delay": WEAPON[self.job], "main_stat": 3330, "det_stat": 2182, "dh_stat": 940, "crit_stat": 2502,
                 "speed_stat": {90: 400, 100: 420}[self.level], "job_class": self.job, "version": self.version, "level": self.level}
        if self.on["speed"] or r.random() < .2:
            stats["speed_stat"] += r.choice([0, 132, 416, 700, 1200])
        stats.update(tenacity=751, healer_or_caster_strength=351)
        if self.on["autos"] and r.random() < .4:
            stats["weapon_delay"] = r.choice([2.0, 2.5, 3.0, 1.5])
        if r.random() < .15:
            del stats["weapon_delay"]
        b = {"autos": self.on["autos"] and r.random() < .95, "ignore_trailing_dots": self.on["trail"] and r.random() < .8}
        if self.on["snap"] and r.random() < .8:
            b["snap"] = r.choice([0, 1, 2, .5, 2.25, -1, 1.5])
        if self.on["start"] and r.random() < .8:
            b["fight_start"] = r.choice([0, 0, 0, 0, 1000, -2000])
        if r.random() < .15:
            b["default_target"] = "Boss"
        case = {"lib": lib, "stats": stats, "builder": b, "ops": self.plan()}
        ins = instants_of(case) if instants_of else []
        self.disturb(case, ins)
        return case

    # ------------------------------------------------------------- the faults
    def disturb(self, case, ins):
        r = self.r
        ops = case["ops"]
        timed = [o for o in ops if "t" in o]
        span = [int(1000 * o["t"]) for o in timed] or [0, 5000]
        lo, hi = min(span), max(span) + 5000

        def when(near=None):
            k = r.random()
            if ins and k < .75:
                return r.choice(ins) + r.choice([0, 0, 0, 0, 1, -1, 2, self.grid, -self.grid])
            return r.randrange(lo, hi + 1)

        kinds = r.sample(["delay", "early", "drop", "dup", "late_dup", "stall", "retarget", "align"], r.choice([0, 1, 2, 3]))
        for k in kinds:
            for _ in range(r.choice([1, 1, 2])):
                timed = [o for o in ops if "t" in o]
                if not timed and k in ("delay", "early", "late_dup", "stall", "align"):
                    continue
                if not ops:
                    continue
                o = r.choice(timed if k in ("delay", "early", "late_dup", "stall", "align") else ops)
                if k == "delay":
                    o["t"] = exact(int(1000 * o["t"]) + self.g(1, 3000))
                elif k == "early":
                    o["t"] = exact(int(1000 * o["t"]) - self.g(1, 3000))
                elif k == "align":
                    o["t"] = exact(when())
                elif k == "drop":
                    if len([x for x in ops if not x.get("dropped")]) < 3:
                        continue
                    o["dropped"] = True
                elif k == "dup":
                    c = json.loads(json.dumps(o))
                    c.setdefault("f", []).append("dup")
                    ops.insert(ops.index(o) + 1, c)
                    continue
                elif k == "late_dup":
                    c = json.loads(json.dumps(o))
                    c["t"] = exact(int(1000 * o["t"]) + self.g(1, 2500))
                    c.setdefault("f", []).append("late_dup")
                    ops.append(c)
                    continue
                elif k == "stall":
                    d = self.g(500, 6000)
                    t0 = o["t"]
                    for x in timed:
                        if x["t"] >= t0:
                            x["t"] = exact(int(1000 * x["t"]) + d)
                elif k == "retarget":
                    o["targets"] = r.choice(TARGETS)
                o.setdefault("f", []).append(k)
        if self.on["death"] and r.random() < .9:
            for _ in range(r.choice([1, 1, 1, 2])):
                o = {"skill": r.choice(["Death", "Death", "Weakness", "Brink of Death"]), "f": ["death"]}
                if any("t" in x for x in ops) or not ops:
                    o["t"] = exact(when())
                    ops.append(o)
                else:
                    ops.insert(r.randint(0, len(ops)), o)
        if self.on["down"] and r.random() < .9:
            case["builder"]["downtime"] = self.windows(ins)
        if any("t" in o for o in ops) and r.random() < .5:
            # submission out of order: the timed ops are shuffled among their places
            idx = [i for i, o in enumerate(ops) if "t" in o]
            pick = [ops[i] for i in idx]
            r.shuffle(pick)
            for i, o in zip(idx, pick):
                ops[i] = o
            case["reordered"] = True


def faults_of(case):
    out = {}
    for o in case["ops"]:
        for f in o.get("f", ()):
            out[f] = out.get(f, 0) + 1
    w = case["builder"].get("downtime")
    if w:
        out["untargetable window"] = sum(len(x) for x in w.values()) if isinstance(w, dict) else len(w)
    if case.get("reordered"):
        out["out-of-order submission"] = 1
    return out


def instants(model):
    """the instants of a finished dry run at which something happens or ends (relative to the shifted time)"""
    out = set()
    for e in model.events:
        out.add(int(e.snap))
        if e.app is not None:
            out.add(int(e.app))
        at = int(model.when(e))
        for f in (e.skill.buff, e.skill.debuff):
            try:
                sp = M.look(f, e.have)
            except M.Reject:
                sp = None
            if sp is not None and sp.duration < M.INF:
                out.add(int(at + sp.duration))
    return sorted(out)[:200]


def make_case(seed, focus=None, small=False, extreme=False):
    from . import real
    rng = random.Random(seed)
    g = Gen(rng, focus, small)
    # a separate stream, so that the other fights stay as they are
    apart = random.Random(f"long {seed}")
    g.long = extreme and not small and apart.random() < .02

    def ins(case):
        try:
            m = real.new_model(case)
            m.run()
            return instants(m)
        except M.Reject:
            return []

    case = g.case(ins)
    if extreme:
        if "snap" in case["builder"] and apart.random() < .2:
            case["builder"]["snap"] = exact(apart.randint(-3000, 6000))
        if apart.random() < .1:
            case["stats"]["speed_stat"] = apart.randint(400, 2200)
        if "weapon_delay" in case["stats"] and apart.random() < .1:
            case["stats"]["weapon_delay"] = apart.randint(20, 36) / 10 + apart.choice([0, .04, .08])
        if apart.random() < .15:  # other ways to write the same lists
            for o in case["ops"]:
                comma = apart.choice([",", " , ", ",  ", ", "])
                if o.get("targets"):
                    o["targets"] = o["targets"].replace(", ", comma)
                if o.get("mod") and "cond" in o["mod"]:
                    o["mod"] = dict(o["mod"], cond=o["mod"]["cond"].replace(", ", comma))
    return later(case, apart.choice([1000, 1024, 4321]) * 1000) if extreme and apart.random() < .04 else case


def later(case, ms):
    """the same fight, far into the log"""
    if any("t" not in o for o in case["ops"]):
        return case
    at = lambda t: exact(round(1000 * t) + ms)
    for o in case["ops"]:
        o["t"] = at(o["t"])
    w = case["builder"].get("downtime")
    if w and case["builder"].get("fight_start") is not None:
        move = lambda ws: [[at(x[0]), at(x[1])] + list(x[2:]) for x in ws]
        case["builder"]["downtime"] = {k: move(x) for k, x in w.items()} if isinstance(w, dict) else move(w)
    return case


# ------------------------------------------------------------- fights on the shipped library
VERSIONS = [("7.1", 100), ("7.0", 100), ("6.55", 90), ("7.05", 100), ("7.1", 90)]
REAL_JOBS = ["SAM", "NIN", "MNK", "DRG", "RPR", "VPR", "BLM", "SMN", "RDM", "PCT", "WAR", "PLD", "DRK", "GNB", "WHM", "SCH", "AST", "SGE", "BRD", "DNC", "MCH"]
_names = {}


def skill_names(lib, version, level, job):
    from . import real
    k = (version, level, job)
    if k not in _names:
        with real.quiet() as o:
            lib.print_skill_names(job)
        _names[k] = [x for x in o.getvalue().split("\n") if x]
    return _names[k]


def usable(sk):
    return sk.timing_spec is not None and sk.name not in ("Auto", "Shot")


def cond_keys(sk):
    out = []
    for f in (sk.damage_spec, sk.timing_spec, sk.buff_spec, sk.debuff_spec, sk.follow_up_skills, sk.job_resource_spec, sk.combo_spec):
        if isinstance(f, dict):
            out += [", ".join(sorted(k)) for k in f if k and not any(x.startswith("Target ") for x in k)]
    return sorted(set(out))


def make_real_case(rng, focus=None):
    from . import real
    version, level = rng.choice(VERSIONS)
    lib = real.real_lib(version, level)
    jobs = [j for j in REAL_JOBS if lib.has_job_class(j)]
    job = rng.choice(jobs if focus != "C21" else [j for j in jobs if j in ("SAM", "NIN", "MNK", "DRG", "RPR", "VPR")])
    p = dict(BASE)
    p.update(FOCUS.get(focus, {}))
    grid = rng.choice([500, 500, 100, 250, 50])
    generic = ("Death", "Weakness", "Brink of Death")
    names = [n for n in skill_names(lib, version, level, job)
             if not n.startswith(("Wait", "LB")) and n not in generic and usable(lib.get_skill(n, job))]

    def feature(n):
        s = lib.get_skill(n, job)
        w = 1
        fus = [f for l in (s.follow_up_skills.values() if isinstance(s.follow_up_skills, dict) else [s.follow_up_skills]) for f in l]
        if focus == "C08" and any(f.dot_duration is not None for f in fus):
            w += 5
        if focus in ("C06", "C07", "C20") and (s.buff_spec is not None or s.debuff_spec is not None or fus):
            w += 4
        if focus == "C12" and s.combo_spec:
            w += 5
        if focus == "C13" and s.job_resource_spec:
            w += 5
        if focus == "C05" and fus:
            w += 4
        if focus == "C19" and (s.has_aoe or s.aoe_dropoff is not None):
            w += 5
        if focus == "C21" and M.positional(M.from_real(s)) is not None:
            w += 12
        if focus == "C21" and s.combo_spec:
            w += 2
        if focus == "C09" and s.channeling_spec is not None:
            w += 5
        return w

    weights = [feature(n) for n in names]
    party = []
    if rng.random() < .5:
        for j in rng.sample([x for x in jobs if x != job], 3):
            for n in skill_names(lib, version, level, j):
                s = lib.get_skill(n, j)
                if usable(s) and (getattr(s, "has_party_buff", False) or getattr(s, "has_party_debuff", False)) and not s.job_resource_spec \
                        and not s.combo_spec and not n.startswith(("Wait", "LB")):
                    party.append((j, n))
    pool = rng.choices(names, weights, k=rng.randint(3, 9))
    g = Gen(rng, focus)
    g.grid = grid

    def op(t=None):
        o = {} if t is None else {"t": t}
        if party and rng.random() < .2:
            o["job"], o["skill"] = rng.choice(party)
        else:
            o["skill"] = rng.choice(pool)
            ks = cond_keys(lib.get_skill(o["skill"], job))
            if ks and rng.random() < .35:
                o["mod"] = {"cond": rng.choice(ks)}
                if rng.random() < .15:
                    o["mod"]["force"] = True
            if focus == "C21" and rng.random() < .9:
                o.setdefault("mod", {})["boss"] = g.facing(o["skill"])
        if rng.random() < .5 * p["multi"]:
            o["targets"] = ", ".join(CROWD[: rng.choice([2, 3] if focus != "C19" or rng.random() < .85 else [6, 8, 9, 10])])
        elif rng.random() < .2:
            o["targets"] = rng.choice(TARGETS)
        return o

    ops = []
    if rng.random() < p["timed"]:
        span = rng.choice([10000, 25000, 45000])
        n = rng.randint(4, 16)
        ops += [op(exact(t)) for t in sorted(rng.randrange(0, span + 1) // grid * grid for _ in range(n))]
    if not ops or rng.random() < p["seq"]:
        ops += [op() for _ in range(rng.randint(4, 16))]
    stats = {"wd": 132, "weapon_delay": WEAPON.get(job, 2.96), "main_stat": 3330, "det_stat": 2182, "dh_stat": 940, "crit_stat": 2502,
             "speed_stat": {90: 400, 100: 420}[level] + rng.choice([0, 0, 132, 416, 700]), "job_class": job, "version": version, "level": level,
             "tenacity": 751, "healer_or_caster_strength": 351}
    if rng.random() < .15:
        del stats["weapon_delay"]
    b = {"autos": rng.random() < .8 * p["autos"] or p["autos"] >= 1, "ignore_trailing_dots": rng.random() < p["trail"]}
    if rng.random() < p["snap"]:
        b["snap"] = rng.choice([0, 1, 2, .5, 2.25, -1])
    if rng.random() < p["start"]:
        b["fight_start"] = 0
    case = {"lib": {"kind": "real", "version": version, "level": level}, "stats": stats, "builder": b, "ops": ops}
    g.on["death"] = rng.random() < p["death"]
    g.on["down"] = rng.random() < p["down"]
    try:
        m = real.new_model(case, lib)
        m.run()
        ins = instants(m)
    except M.Reject:
        ins = []
    g.disturb(case, ins)
    return case
