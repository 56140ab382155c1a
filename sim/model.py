"""Reference model: an executable specification of the timeline semantics.

It shares no code with the repository.  It works on plain skill descriptions
(`MSkill`), which are made either from a generated JSON description or by
reading the data fields of the repository's Skill objects.

Times are in ms.  `run()` returns the presses and the hits that a rotation must
produce.  Where the order of two events is not determined (same instant, same
name) `tied` is set, and `run(rng)` picks a random order of such events; callers
discard a case whose outcome depends on it.
"""
import math
from collections import Counter
from types import SimpleNamespace

PROBE = Counter()  # how often rare conditions were hit, by the model's account

INF = math.inf
TICK = 3000
COMBO_WINDOW = 30000
SNAP_BEFORE_END = 500
TARGET_GAP = 135
GCD = 2500
MIN_GCD = 1500
WEAPON = {"PLD": 2.24, "WAR": 3.36, "DRK": 2.96, "GNB": 2.8, "DRG": 2.8, "RPR": 3.2, "MNK": 2.56, "SAM": 2.64, "NIN": 2.56, "VPR": 2.64, "BRD": 3.04,
          "MCH": 2.64, "DNC": 3.12, "BLM": 3.28, "SMN": 3.12, "RDM": 3.44, "PCT": 2.96, "WHM": 3.44, "SCH": 3.12, "AST": 3.2, "SGE": 2.8}
DEFAULT_TARGET = "Default Target"

_LEVEL = {90: (400, 1900), 100: (420, 2780)}  # sub, div
_SPEED = 130


class Reject(Exception):
    """The case is outside of what the library supports (it must raise, too)."""


DEF = dict(
    damage_spec=dict(potency=None, damage_class="DIRECT", guaranteed_crit="DEFAULT", guaranteed_dh="DEFAULT",
                     trait_damage_mult_override=None, pet_job_mod_override=None, pet_scalar=1.0, single_damage_mult=1,
                     use_min_potency=None),
    timing_spec=dict(base_cast_time=0, gcd_base_recast_time=GCD, animation_lock=650, application_delay=0,
                     affected_by_speed_stat=True, affected_by_haste_buffs=True),
    se=dict(duration=0, max_duration=None, num_uses=INF, max_num_uses=None, crit_rate_add=0, dh_rate_add=0, damage_mult=1,
            main_stat_add=0, main_stat_mult=1, auto_attack_delay_reduction=0, haste_time_reduction=0,
            flat_cast_time_reduction=0, flat_gcd_recast_time_reduction=0, extends_existing_duration=True,
            expires_status_effects=(), skill_allowlist=None, guaranteed_crit="DEFAULT", guaranteed_dh="DEFAULT",
            add_to_skill_modifier_condition=False, extend_only=False, clear_all_status_effects=False),
    channeling_spec=dict(duration=0, skill_allowlist=(), num_uses=INF),
    res=dict(name="", change=0, duration=INF, refreshes_duration_of_last_gained=False, clear_all_resources_only=False),
    combo=dict(combo_actions=(), combo_group=0, combo_auto_succeed=False, break_all_combos_only=False),
    fu=dict(delay_after_parent_application=0, snapshot_buffs_with_parent=True, snapshot_debuffs_with_parent=True,
            dot_duration=None, primary_target_only=True),
)


def conds(s):
    s = s or ""
    return frozenset(x.strip() for x in s.split(",")) if len(s) else frozenset()


def enum_name(x):
    return getattr(x, "name", x)


class Table:
    """A conditional specification: the entry with the most conditions, all of them met, wins."""

    def __init__(self, entries):
        self.entries = list(entries)

    def get(self, have):
        best = None
        for k, v in self.entries:
            if k <= have and (best is None or len(k) >= len(best[0])):
                best = (k, v)
        if best is None:
            raise Reject("no entry for condition")
        return best[1]


def look(spec, have):
    return spec.get(have) if isinstance(spec, Table) else spec


class MSkill:
    __slots__ = ("name", "damage", "timing", "buff", "debuff", "chan", "res", "combo", "deny", "gcd", "res_snap", "fus", "off", "key", "ignored")


def _num(x):
    return INF if x == "inf" else (-INF if x == "-inf" else x)


def _ns(kind, d):
    if d is None:
        return None
    o = dict(DEF[kind])
    for k, v in d.items():
        o[k] = tuple(v) if isinstance(v, list) else _num(v)
    if kind == "se":
        if o["max_duration"] is None:
            o["max_duration"] = o["duration"]
        if o["max_num_uses"] is None:
            o["max_num_uses"] = o["num_uses"]
    return SimpleNamespace(**o)


def _field(d, conv):
    if isinstance(d, dict) and "?" in d:
        # later duplicates of the same key replace earlier ones but keep their place
        out = {}
        for c, v in d["?"]:
            out[conds(c)] = conv(v)
        return Table(out.items())
    return conv(d)


def _dropoff(d, drop):
    ents = d["?"] if "?" in d else [["", d]]
    out = [list(e) for e in ents]
    for c, v in ents:
        for k in range(2, 11):
            w = dict(v)
            w["potency"] = (1 - drop) * v["potency"]
            out.append([f"{c}, Target {k}" if c else f"Target {k}", w])
    return {"?": out}


def from_json(j):
    s = MSkill()
    s.name = j["name"]
    dmg = j.get("damage_spec")
    if dmg is not None and j.get("aoe_dropoff") is not None and "?" in dmg:
        dmg = _dropoff(dmg, j["aoe_dropoff"])
    s.damage = _field(dmg, lambda d: _ns("damage_spec", d))
    s.timing = _field(j.get("timing_spec"), lambda d: _ns("timing_spec", d))
    s.buff = _field(j.get("buff_spec"), lambda d: _ns("se", d))
    s.debuff = _field(j.get("debuff_spec"), lambda d: _ns("se", d))
    s.chan = _field(j.get("channeling_spec"), lambda d: _ns("channeling_spec", d))
    s.res = _field(j.get("job_resource_spec", []), lambda l: tuple(_ns("res", x) for x in l))
    s.combo = _field(j.get("combo_spec", []), lambda l: tuple(_ns("combo", x) for x in l))
    s.deny = tuple(j.get("status_effect_denylist", ()))
    s.gcd = bool(j.get("is_GCD"))
    s.res_snap = j.get("job_resources_snapshot", True)
    s.off = j.get("off_class_default_condition", "")
    s.ignored = frozenset(j.get("ignored_conditions_for_bonus_potency", ()))

    def fu(x):
        d = dict(x)
        sk = from_json(d.pop("skill"))
        n = _ns("fu", d)
        n.skill = sk
        import json as _j
        n.key = _j.dumps(x, sort_keys=True)
        return n

    s.fus = _field(j.get("follow_up_skills", []), lambda l: tuple(fu(x) for x in l))
    return s


def from_real(k, cache=None):
    """Reads the data of one of the repository's Skill objects."""
    s = MSkill()
    s.name = k.name

    def tab(v, conv=lambda x: x):
        if isinstance(v, dict):
            return Table([(frozenset(a), conv(b)) for a, b in v.items()])
        return conv(v)

    s.damage = tab(k.damage_spec)
    s.timing = tab(k.timing_spec)
    s.buff = tab(k.buff_spec)
    s.debuff = tab(k.debuff_spec)
    s.chan = tab(k.channeling_spec)
    s.res = tab(k.job_resource_spec)
    s.combo = tab(k.combo_spec)
    s.deny = k.status_effect_denylist
    s.gcd = bool(k.is_GCD)
    s.res_snap = k.job_resources_snapshot
    s.off = k.off_class_default_condition
    s.ignored = frozenset(k.ignored_conditions_for_bonus_potency)

    def fus(l):
        out = []
        for f in l:
            n = SimpleNamespace(**{a: getattr(f, a) for a in DEF["fu"]})
            n.skill = from_real(f.skill)
            n.key = f  # equality of the described follow-ups
            out.append(n)
        return tuple(out)

    s.fus = tab(k.follow_up_skills, fus)
    return s


POS, COMBO = "No Positional", "No Combo"


def positional(sk):
    """the conditional damage of a skill with a positional, or None"""
    tab = sk.damage if isinstance(sk.damage, Table) else None
    if tab is None and isinstance(sk.fus, Table):
        ents = [(k, next((f.skill.damage for f in l if f.skill.damage is not None), None)) for k, l in sk.fus.entries]
        ents = [e for e in ents if e[1] is not None]
        if any(isinstance(e[1], Table) for e in ents):
            return None
        tab = Table(ents) if ents else None
    if tab is None or not any(POS in k for k, _ in tab.entries):
        return None
    return tab


def percent(tab, ignored, have):
    """the part of the potency that the log shows as a bonus, in whole percent, or None"""
    base = have - ignored
    try:
        e, low = tab.get(base), tab.get(base | {POS, COMBO})
    except Reject:
        return None
    if e is None or low is None or not e.potency:
        return None
    return int(100 * (e.potency - (e.use_min_potency or low.potency)) / e.potency)


def logged(sk, have, boss):
    """What happened at a press (boss: set of what went wrong, or a percentage that fits nothing) -> the percentage in the log
    (None: nothing usable is logged), the conditions of the hit"""
    tab = positional(sk)
    if tab is None:
        return (boss if isinstance(boss, int) else 37), have
    full = [have, have | {POS}, have | {COMBO}, have | {POS, COMBO}]
    seen = [percent(tab, sk.ignored, h) for h in full]
    if None in seen:
        return None, have
    if isinstance(boss, int):
        if boss in seen or boss == 0:
            return None, have
        PROBE["percentage fits nothing"] += 1
        return boss, have
    truth = have | frozenset(boss)
    p = percent(tab, sk.ignored, truth)
    # what can be concluded: no bonus at all means the positional was missed; otherwise the first of the four that fits
    if p == 0:
        if truth != have | {POS}:
            return None, have
    elif full[seen.index(p)] != truth:
        return None, have
    PROBE["positional missed" if POS in truth else "positional hit"] += 1
    PROBE["combo failed, by the log"] += COMBO in truth and COMBO not in have
    PROBE["condition ignored for the percentage"] += bool(have & sk.ignored)
    return p, truth


class Effects:
    """Buffs of the player and debuffs of each target."""

    def __init__(self, prio):
        self.prio = prio or ()
        self.buffs = {}
        self.debuffs = {}

    def expire(self, t):
        for d in [self.buffs] + list(self.debuffs.values()):
            for n in [n for n, e in d.items() if e[1] < t or e[2] == 0]:
                if d[n][2] == 0:
                    PROBE["effect used up"] += 1
                del d[n]
            for e in d.values():
                if e[1] == t:
                    PROBE["event exactly at the end of an effect"] += 1

    @staticmethod
    def _put(d, t, name, sp):
        old = d.get(name)
        if old is None:
            if not sp.extend_only:
                d[name] = [t, t + sp.duration, sp.num_uses, sp]
            return
        left = max(old[1] - t, 0)
        PROBE["effect re-applied while in force"] += 1
        if sp.extends_existing_duration:
            left = min(sp.max_duration, left + sp.duration)
        d[name] = [old[0], t + left, min(old[2] + sp.num_uses, sp.max_num_uses), sp]

    def _end(self, name, t, target):
        for d in (self.buffs, self.debuffs.setdefault(target, {})):
            if name in d:
                d[name][1] = t

    def apply(self, t, skill, have, targets):
        b, d = look(skill.buff, have), look(skill.debuff, have)
        if b is not None:
            if b.clear_all_status_effects:
                PROBE["buffs cleared"] += bool(self.buffs)
                self.buffs = {}
            self._put(self.buffs, t, skill.name, b)
            for n in b.expires_status_effects:
                self._end(n, t, DEFAULT_TARGET)
        if d is not None:
            for tg in targets:
                self._put(self.debuffs.setdefault(tg, {}), t, skill.name, d)
                for n in d.expires_status_effects:
                    self._end(n, t, tg)

    def read(self, t, skill, target=None):
        """The combined effect on `skill`; reading uses up one use of each."""
        d = self.buffs if target is None else self.debuffs.setdefault(target, {})
        names = [n for n, e in d.items()
                 if e[0] <= t and n not in skill.deny
                 and (e[3].skill_allowlist is None or skill.name in e[3].skill_allowlist)]
        ranked = [n for n in self.prio if n in names]
        if ranked:
            names = [n for n in names if n == ranked[0] or n not in ranked]
        r = SimpleNamespace(crit_rate_add=0.0, dh_rate_add=0.0, damage_mult=1.0, main_stat_add=0.0, main_stat_mult=1.0,
                            auto_attack_delay_mult=1.0, haste_time_mult=1.0, flat_cast_time_reduction=0,
                            flat_gcd_recast_time_reduction=0, guaranteed_crit="DEFAULT", guaranteed_dh="DEFAULT",
                            names=tuple(names))
        new = []
        for n in names:
            e = d[n]
            sp = e[3]
            e[2] -= 1
            r.crit_rate_add += sp.crit_rate_add
            r.dh_rate_add += sp.dh_rate_add
            r.damage_mult *= sp.damage_mult
            r.main_stat_mult *= sp.main_stat_mult
            r.main_stat_add += sp.main_stat_add
            r.auto_attack_delay_mult *= 1 - sp.auto_attack_delay_reduction
            r.haste_time_mult *= 1 - sp.haste_time_reduction
            r.flat_cast_time_reduction += sp.flat_cast_time_reduction
            r.flat_gcd_recast_time_reduction += sp.flat_gcd_recast_time_reduction
            for f in ("guaranteed_crit", "guaranteed_dh"):
                v = enum_name(getattr(sp, f))
                if v != "DEFAULT":
                    if getattr(r, f) != "DEFAULT":
                        raise Reject("two forced statuses")
                    setattr(r, f, v)
            if sp.add_to_skill_modifier_condition:
                new.append(n)
        return r, frozenset(new)


class Combos:
    def __init__(self, breakers):
        self.last = {}
        self.breakers = breakers or {}

    def use(self, t, skill, have, force):
        ok = True
        for c in look(skill.combo, have):
            if c.break_all_combos_only:
                self.last = {}
                continue
            lt, ln = self.last.get(c.combo_group, (-INF, None))
            good = (c.combo_auto_succeed or force or len(c.combo_actions) == 0
                    or (lt + COMBO_WINDOW >= t and ln in c.combo_actions))
            PROBE["combo exactly at 30 s"] += lt + COMBO_WINDOW == t
            PROBE["combo failed"] += not good
            PROBE["combo succeeded after an action"] += bool(good and c.combo_actions)
            self.last[c.combo_group] = (t, skill.name) if good else (-INF, None)
            for g, by in self.breakers.items():
                if c.combo_group in by:
                    self.last[g] = (-INF, None)
            ok = ok and good
        return frozenset() if ok else frozenset(["No Combo"])


class Resources:
    def __init__(self, settings):
        self.settings = settings or {}
        self.log = {n: [] for n in self.settings}

    def add(self, t, skill, have):
        for r in look(skill.res, have):
            if r.clear_all_resources_only:
                for n in self.log:
                    self.log[n].append((t, INF, -INF, False))
                continue
            if r.name not in self.log:
                raise Reject("unknown resource")
            self.log[r.name].append((t, t + r.duration, r.change, r.refreshes_duration_of_last_gained))

    def read(self, t, skill):
        out = []
        for n, st in self.settings.items():
            if skill.name not in st.skill_allowlist:
                continue
            total, fresh = 0, None
            # note: entries dated later than t still count as refreshes
            for s, e, ch, rf in sorted(self.log[n], key=lambda x: x[0]):
                if fresh is None:
                    fresh = s
                if fresh + st.expiry_from_last_gain < s:
                    total = 0
                if rf:
                    fresh = s
                PROBE["resource gain exactly at its end"] += e == t
                if s <= t <= e:
                    PROBE["resource clamped"] += not 0 <= total + ch <= st.max_value
                    total = max(0, min(total + ch, st.max_value))
            if fresh is not None and fresh + st.expiry_from_last_gain < t:
                total = 0
            if total > 0:
                out.append(f"{total} {n}" if st.add_number_to_conditional else n)
        return frozenset(out)


def ten(x):
    return int(10 * math.floor(x / 10))


SAME = ("snap", "app", "have", "m", "b", "d", "targets", "res_done", "res_read", "combo_done")


def same(a, b):
    """two events that are interchangeable"""
    return a["skill"] is b["skill"] and all(a[f] == b[f] for f in SAME)


class Model:
    def __init__(self, stats, lib, cfg):
        """stats: speed_stat, version, level, weapon_delay, job_class, trait_haste, trait_auto
        lib: skill(name, job), has(name, job), prio, resources, breakers   (of the player's job)
        cfg: autos, ignore_trailing_dots, snap, fight_start, downtime, default_target"""
        self.st, self.lib, self.cfg = stats, lib, cfg
        self.timed, self.seq = [], []

    # --- input
    def press(self, t, skill, job=None, targets=None, mod=None):
        self.timed.append((int(1000 * t),) + self._p(skill, job, targets, mod))

    def press_next(self, skill, job=None, targets=None, mod=None, n=1):
        for _ in range(n):
            self.seq.append(self._p(skill, job, targets, mod))

    def _p(self, skill, job, targets, mod):
        job = self.st.job_class if job is None else job
        sk = self.lib.skill(skill, job)
        if mod is None:
            mod = dict(cond=sk.off if job != self.st.job_class else "")
        m = SimpleNamespace(have=conds(mod.get("cond", "")), gc=mod.get("gc", "DEFAULT"), gd=mod.get("gd", "DEFAULT"),
                            force=bool(mod.get("force")), nocast=bool(mod.get("nocast")), nodelay=bool(mod.get("nodelay")), boss=mod.get("boss"),
                            pct=None)
        tg = tuple(x.strip() for x in (self.cfg.default_target if targets is None else targets).split(","))
        return (sk, m, job, tg)

    # --- timing rules
    def speed(self, ms):
        sub, div = _LEVEL[self.st.level]
        a = math.ceil(_SPEED * (sub - self.st.speed_stat) / div)
        return int(1000 * (math.floor(ms * (1000 + a) / 10000) / 100))

    def cast(self, tm, m, b):
        if m.nocast:
            return 0
        c = self.speed(tm.base_cast_time) if tm.affected_by_speed_stat else tm.base_cast_time
        if tm.affected_by_haste_buffs:
            c = ten(c * b.haste_time_mult * (1 - self.st.trait_haste))
        return max(0, c - b.flat_cast_time_reduction)

    def recast(self, tm, b, d):
        r = self.speed(tm.gcd_base_recast_time) if tm.affected_by_speed_stat else tm.gcd_base_recast_time
        if tm.affected_by_haste_buffs:
            r = ten(r * b.haste_time_mult * d.haste_time_mult * (1 - self.st.trait_haste))
        r -= b.flat_gcd_recast_time_reduction
        if tm.gcd_base_recast_time == GCD:
            r = max(r, MIN_GCD)
        return r

    # --- pass 1: presses -> events
    def trackers(self):
        return Effects(self.lib.prio), Resources(self.lib.resources), Combos(self.lib.breakers)

    def emit(self, prio, snap, app, skill, have, m, flags, targets):
        if snap == app:
            app, flags = None, (True, True)
        self.events.append(SimpleNamespace(prio=prio, snap=snap, app=app, skill=skill, have=have, m=m, flags=flags,
                                           targets=targets, n=len(self.events)))

    BLANK = SimpleNamespace(have=frozenset(), gc="DEFAULT", gd="DEFAULT", force=False, nocast=False, nodelay=False, boss=None, pct=None)

    def one_press(self, t, sk, m, job, targets, se, rs, co):
        self.presses.append([t, sk.name, job if job != self.st.job_class else "", ",".join(sorted(m.have))])
        se.expire(t)
        b, c1 = se.read(t, sk)
        d, c2 = se.read(t, sk, DEFAULT_TARGET)
        have = m.have | c1 | c2 | rs.read(t, sk)
        have |= co.use(t, sk, have, m.force)
        if m.boss is not None:
            m.pct, have = logged(sk, have, m.boss)
        tm = look(sk.timing, have)
        if tm is None:
            raise Reject("no timing")
        if job == self.st.job_class:
            self.mains.append((t, targets[0]))
        # the hit
        ct = self.cast(tm, m, b)
        snap = t + max(0, ct - SNAP_BEFORE_END)
        app = t + ct
        if not m.nodelay:
            app += max(0, tm.application_delay - SNAP_BEFORE_END) if ct > 1e-6 else tm.application_delay
        self.emit(int(1000 * snap), snap, app, sk, have, m, (True, True), targets)
        se.apply(app, sk, have, targets)
        rs.add(snap, sk, have)
        for i, f in enumerate(look(sk.fus, have)):
            if f.dot_duration is not None:
                for tg in targets:
                    self.dots.setdefault((tg, f.key), (f, []))[1].append((app, snap, i + 1))
                continue
            fa = app + f.delay_after_parent_application
            if f.snapshot_buffs_with_parent or f.snapshot_debuffs_with_parent:
                fs, fl = snap, (f.snapshot_buffs_with_parent, f.snapshot_debuffs_with_parent)
            else:
                fs, fl = fa, (True, True)
            ft = targets[:1] if f.primary_target_only else targets
            self.emit(int(1000 * fs) + i + 1, fs, fa, f.skill, frozenset(), self.BLANK, fl, ft)
            se.apply(fa, f.skill, frozenset(), ft)
            rs.add(fa, f.skill, frozenset())
        return tm, b, d, ct

    def pass1(self):
        self.events, self.presses, self.mains, self.dots, self._timed = [], [], [], {}, None
        se, rs, co = self.trackers()
        t = 0 if self.cfg.fight_start is None else self.cfg.fight_start
        gcd_free = -INF
        for sk, m, job, tg in self.seq:
            if sk.gcd:
                t = max(t, gcd_free)
            tm, b, d, ct = self.one_press(t, sk, m, job, tg, se, rs, co)
            if sk.gcd:
                gcd_free = t + self.recast(tm, b, d)
            t += ct + tm.animation_lock
        se, rs, co = self.trackers()
        for t, sk, m, job, tg in self.sorted_timed():
            self.one_press(t, sk, m, job, tg, se, rs, co)
        last = None
        if self.cfg.ignore_trailing_dots:
            last = max((self.when(e) for e in self.events), default=None)
        self.tick(last)
        if self.cfg.autos:
            self.autos(last)
        shift = 0
        if self.cfg.fight_start is None:
            f = self.first_damage()
            if f is not None:
                shift = f
        for e in self.events:
            e.snap -= shift
            e.prio -= int(1000 * shift)
            if e.app is not None:
                e.app -= shift
        for p in self.presses:
            p[0] -= shift
        self.presses.sort(key=lambda p: p[0])
        self.downtime()

    def sorted_timed(self):
        if self._timed is None:
            k = lambda x: (x[0], x[1].name, x[3], x[4], sorted(x[2].have))
            self._timed = sorted(self.timed, key=lambda x: (k(x), self.key(0)))
            for a, b in zip(self._timed, self._timed[1:]):
                if k(a) == k(b) and (a[2] != b[2] or a[2].boss is not None):
                    self.tied = True
        return self._timed

    @staticmethod
    def when(e):
        return e.snap if e.app is None else e.app

    def first_damage(self):
        ts = [self.when(e) for e in self.events if look(e.skill.damage, e.have) is not None]
        return min(ts) if ts else None

    def tick(self, last):
        for (tg, _), (f, apps) in self.dots.items():
            apps = sorted(apps, key=lambda a: a[0])
            k = 0
            for i, (app, snap, order) in enumerate(apps):
                end = app + f.dot_duration
                if i + 1 < len(apps):
                    PROBE["dot refreshed while ticking"] += apps[i + 1][0] < end
                    end = min(end, apps[i + 1][0])
                first = app
                if self.cfg.snap is not None:
                    off = (app - 1000 * self.cfg.snap) % TICK
                    if off > 1e-6:
                        first = int(app - off + TICK)
                for at in range(first, end, TICK):
                    if last is not None and at > last:
                        continue
                    self.emit(int(1000 * snap) + order + k, snap, at, f.skill, frozenset(), self.BLANK,
                              (f.snapshot_buffs_with_parent, f.snapshot_debuffs_with_parent), (tg,))
                    k += 1

    # --- autos
    def windows(self, target):
        w = self.cfg.downtime
        return w if isinstance(w, tuple) else w.get(target, ())

    def busy(self):
        """The player's own timed casts and channels."""
        se, rs, co = self.trackers()
        out, ch = [], None  # ch: [start, spec, uses]

        def stop(t):
            out.append((ch[0], min(ch[0] + ch[1].duration, t)))

        for t, sk, m, job, tg in self.sorted_timed():
            own = job == self.st.job_class
            se.expire(t)
            if own and "Wait" not in sk.name:
                cs = look(sk.chan, m.have)
                if cs is not None:
                    if ch:
                        stop(t)
                    ch = [t, cs, cs.num_uses]
                elif ch:
                    keep = False
                    if sk.name in ch[1].skill_allowlist:
                        ch[2] -= 1
                        keep = ch[2] > 0
                    if not keep:
                        stop(t)
                        ch = None
            b, c1 = se.read(t, sk)
            _, c2 = se.read(t, sk, DEFAULT_TARGET)
            have = m.have | c1 | c2 | rs.read(t, sk)
            have |= co.use(t, sk, have, m.force)
            ct = self.cast(look(sk.timing, have), m, b)
            if own and ct > 0:
                out.append((t, t + ct))
            se.apply(t, sk, have, (self.cfg.default_target,))
            rs.add(t, sk, have)
        if ch:
            stop(INF)
        return out

    def autos(self, last):
        name = "Shot" if self.lib.has("Shot", self.st.job_class) else "Auto"
        sk = self.lib.skill(name, self.st.job_class)
        delay = look(sk.timing, frozenset()).application_delay
        if last is None:
            last = max((self.when(e) for e in self.events), default=None)
        t = self.first_damage()
        if t is None:
            return
        zero = t if self.cfg.fight_start is None else 0
        mains = sorted(self.mains, key=lambda x: x[0])
        busy = self.busy()
        while t + delay < last:
            tg = mains[0][1] if mains else self.cfg.default_target
            # the main target of the last press up to now; presses on the same target do not matter
            for mt, mtg in mains:
                if mt <= t:
                    tg = mtg
            self.emit(int(1000 * t), t, t + delay, sk, frozenset(), self.BLANK, (True, True), (tg,))
            se = Effects(self.lib.prio)
            order = self.order(self.events)
            for e in sorted(order, key=self.when):
                if self.when(e) <= t and (look(e.skill.buff, e.have) is not None or look(e.skill.debuff, e.have) is not None):
                    se.expire(self.when(e))
                    se.apply(self.when(e), e.skill, e.have, (self.cfg.default_target,))
            se.expire(t)
            b, _ = se.read(t, sk)
            d, _ = se.read(t, sk, DEFAULT_TARGET)
            t += ten(int(1000 * self.st.weapon_delay) * (1 - self.st.trait_auto) * b.auto_attack_delay_mult * d.auto_attack_delay_mult)
            # held back until neither a window of the target attacked so far nor a cast or channel is in the way
            for _ in range(1000):
                hold = [zero + z for a, z, cls in self.windows(tg) if a <= t - zero < z and cls in (None, "AUTO") and zero + z > t]
                ends = [z for a, z in busy if a <= t < z]
                PROBE["auto held back by downtime"] += bool(hold)
                PROBE["auto held back by a cast or channel"] += bool(ends)
                if not hold and not ends:
                    break
                t = max(hold + ends)
            if len(self.events) > 20000:
                raise Reject("too many events")

    def downtime(self):
        kept = []
        for e in self.order(self.events):
            dm = look(e.skill.damage, e.have)
            ok = []
            for tg in e.targets:
                if dm is not None:
                    cls = enum_name(dm.damage_class)
                    hit = False
                    for x in (self.when(e) + TARGET_GAP * len(ok), e.snap):
                        for a, z, c in self.windows(tg):
                            if a <= x < z and c in (None, cls):
                                hit = True
                    if hit:
                        PROBE["hit removed by downtime"] += 1
                        continue
                ok.append(tg)
            if ok:
                e.targets = tuple(ok)
                kept.append(e)
        for i, e in enumerate(kept):
            e.id = i
        self.events = kept

    # --- pass 2: events -> hits
    rng = None
    tied = False

    def key(self, n):
        return n if self.rng is None else self.rng.random()

    def order(self, evs):
        return sorted(evs, key=lambda e: (e.prio, e.skill.name, self.key(e.n)))

    def pass2(self):
        import heapq
        se, rs, co = self.trackers()
        hits, q, n = [], [], 0
        for e in self.order(self.events):
            heapq.heappush(q, (e.prio, e.skill.name, self.key(n), n, dict(
                snap=e.snap, app=e.app, skill=e.skill, have=e.have, m=e.m, b=e.flags[0], d=e.flags[1], targets=e.targets,
                snap0=e.snap, id=e.id, res_done=False, res_read=False, combo_done=False)))
            n += 1
        while q:
            prio, name, _, _, e = heapq.heappop(q)
            if q and q[0][:2] == (prio, name) and not same(e, q[0][4]):
                self.tied = True
            t, sk, have, m = e["snap"], e["skill"], e["have"], e["m"]
            se.expire(t)
            landing = e["app"] is None
            b, d = e["b"], e["d"]
            if landing:
                if not e["res_read"]:
                    have |= rs.read(t, sk)
                if not e["res_done"]:
                    rs.add(t, sk, have)
                if not e["combo_done"]:
                    have |= co.use(t, sk, have, m.force)
                if not isinstance(b, SimpleNamespace):
                    b, c = se.read(t, sk)
                    have |= c
                many = len(e["targets"]) > 1
                for i, tg in enumerate(e["targets"]):
                    h, dd, at = have, d, t
                    if many:
                        h = h | {f"Target {i+1}"}
                        at = t + i * TARGET_GAP
                    if not isinstance(dd, SimpleNamespace):
                        dd, c = se.read(t, sk, tg)
                        h = h | c
                        if not many:
                            have = h
                    dm = look(sk.damage, h)
                    if dm is not None:
                        hits.append(SimpleNamespace(t=at, name=sk.name, have=h, buffs=b, debuffs=dd, target=tg, damage=dm,
                                                    snap=e["snap0"], m=m, id=e["id"]))
                se.apply(t, sk, have, e["targets"])
            else:
                if b is True:
                    b, c = se.read(t, sk)
                    have |= c
                res_read = False
                if not e["res_read"] and sk.res_snap:
                    have |= rs.read(t, sk)
                    res_read = True
                combo_done = False
                if not e["combo_done"]:
                    have |= co.use(t, sk, have, m.force)
                    combo_done = True
                if not e["res_done"]:
                    rs.add(t, sk, have)
                many = len(e["targets"]) > 1
                extra = prio - int(1000 * t)
                for i, tg in enumerate(e["targets"]):
                    h, dd, at = have, d, e["app"]
                    if many:
                        h = h | {f"Target {i+1}"}
                        at = at + i * TARGET_GAP
                    if dd is True:
                        dd, c = se.read(t, sk, tg)
                        h = h | c
                    f = dict(e)
                    f.update(snap=at, app=None, have=h, b=b, d=dd, targets=(tg,), res_done=True, res_read=res_read, combo_done=combo_done)
                    heapq.heappush(q, (int(1000 * at) + extra, sk.name, self.key(n), n, f))
                    n += 1
        hits.sort(key=lambda h: (h.t, h.name))
        return hits

    def run(self, rng=None):
        self.rng = rng
        self.tied = False
        self.pass1()
        return self.presses, self.pass2()
