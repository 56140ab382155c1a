"""The damage formula, restated: from a hit (skill's damage spec, forced status,
effects) and statistics to base damage, rates, and the value for given draws.

Plain floats and math.floor; no code of the library.
"""
import math
from types import SimpleNamespace

from . import model

F = math.floor
LEVEL = {90: dict(main=390, sub=400, div=1900, ap=195, tap=156, ten=100), 100: dict(main=440, sub=420, div=2780, ap=237, tap=190, ten=112)}
TANK = ("GNB", "WAR", "PLD", "DRK")
MAGIC = ("SCH", "WHM", "AST", "SGE", "RDM", "BLM", "SMN", "PCT")
RANGED = ("DNC", "BRD", "MCH")
JOB_MOD = dict(SCH=115, SGE=115, WHM=115, AST=115, WAR=105, DRK=105, PLD=100, GNB=100, SAM=112, DRG=115, RPR=115, MNK=110, NIN=110, VPR=110,
               DNC=115, MCH=115, BRD=115, RDM=115, SMN=115, BLM=115, PCT=115)


def name(x):
    return getattr(x, "name", x)


class Hero:
    """statistics of the player"""

    def __init__(self, s):
        self.__dict__.update(dict(num_roles_in_party=5, healer_or_caster_strength=None, tenacity=None), **s)
        if s.get("weapon_delay") is None:
            self.weapon_delay = model.WEAPON[self.job_class]
        c = LEVEL[self.level]
        self.c = c
        k = F(200 * (self.crit_stat - c["sub"]) / c["div"])
        self.crit_rate, self.crit_bonus = (k + 50) / 1000, (k + 400) / 1000
        self.dh_rate = F(550 * (self.dh_stat - c["sub"]) / c["div"]) / 1000
        self.det = F(140 * (self.det_stat - c["main"]) / c["div"]) + 1000
        self.det_dh = self.det + F(140 * (self.dh_stat - c["sub"]) / c["div"])
        self.tank = self.job_class in TANK
        self.magic = self.job_class in MAGIC
        self.trait = 1.3 if self.magic else 1.2 if self.job_class in RANGED else 1
        self.tnc = None if not self.tank else F(c["ten"] * (self.tenacity - c["sub"]) / c["div"]) + 1000
        self.mod = JOB_MOD[self.job_class]
        self.spd = F(130 * (self.speed_stat - c["sub"]) / c["div"] + 1000)

    def ap(self, main, tank):
        return F((self.c["tap"] if tank else self.c["ap"]) * (main - self.c["main"]) / self.c["main"]) + 100

    def wdm(self, mod):
        return F(self.c["main"] * mod / 1000 + self.wd)


def forced(hit, what):
    """YES / NO / None of a hit: its damage spec, its modifier, its buffs and debuffs"""
    all_ = {name(x) for x in (getattr(hit.spec, what), getattr(hit.mod, what), getattr(hit.buffs, what), getattr(hit.debuffs, what))}
    if "FORCE_YES" in all_ and "FORCE_NO" in all_:
        return "conflict"
    return "yes" if "FORCE_YES" in all_ else "no" if "FORCE_NO" in all_ else None


def base(hit, h):
    """base damage before the +-5% and before crit, direct hit, traits and damage multipliers"""
    s, b, d = hit.spec, hit.buffs, hit.debuffs
    cls = name(s.damage_class)
    p = s.potency
    if p == 0:
        return 0
    det = h.det_dh if forced(hit, "guaranteed_dh") == "yes" else h.det
    add = b.main_stat_add + d.main_stat_add
    main = F(h.main_stat * b.main_stat_mult * d.main_stat_mult) + add
    main = F(main * (1 + 0.01 * h.num_roles_in_party))
    wd = h.wdm(h.mod)
    if cls == "DIRECT":
        ap = h.ap(main, h.tank)
        if h.magic:
            x = F(ap * det / 1000) / 100
            x = F(x * F(wd * p / 100))
        else:
            x = F(F(p * ap / 100) / 100 * det / 10) / 100
            if h.tank:
                x = F(x * h.tnc / 10) / 100
            x = F(x * wd)
    elif cls == "MAGICAL_DOT":
        x = F(F(p * wd) / 100)
        x = F(F(x * h.ap(main, h.tank)) * h.spd)
        x = F(F(x * det) / 1000)
        if h.tank:
            x = F(x * h.tnc / 1000)
        x = F(F(x / 1000) / 100)
    elif cls == "PHYSICAL_DOT":
        x = F(p * h.ap(main, h.tank) * det / 100) / 1000
        if h.tank:
            x = F(x * h.tnc / 1000)
        x = F(F(x * h.spd) / 1000)
        x = F(F(x * wd) / 100)
    elif cls == "PET":
        m = h.mod if s.pet_job_mod_override is None else s.pet_job_mod_override
        diff = F(h.c["main"] * h.mod / 100) - F(h.c["main"] * m / 100)
        main = (F((h.main_stat - diff) * b.main_stat_mult * d.main_stat_mult) + add) * s.pet_scalar
        x = F(F(p * h.ap(main, False) / 100) / 100 * det / 10) / 100
        if h.tank:
            x = F(x * h.tnc / 10) / 100
        x = F(x * h.wdm(m))
    elif cls == "AUTO":
        if h.magic:
            main = h.healer_or_caster_strength * (1 + 0.01 * h.num_roles_in_party)
        x = F(F(p * h.ap(main, h.tank) / 100) / 100 * det / 10) / 100
        if h.tank:
            x = F(x * h.tnc / 10) / 100
        spd = 1000 if h.magic else h.spd
        auto = F(wd * (h.weapon_delay / 3))
        x = F(F(F(x * spd) / 10 * auto) / 100)
    else:
        raise ValueError(cls)
    extra = 0
    if forced(hit, "guaranteed_dh") == "yes":
        extra += F(x * (0.25 * (b.dh_rate_add + d.dh_rate_add)))
    if forced(hit, "guaranteed_crit") == "yes":
        extra += F(x * (h.crit_bonus * (b.crit_rate_add + d.crit_rate_add)))
    return max(1.0, (x + extra) * s.single_damage_mult)


def rates(hit, h):
    out = []
    for what, own, add in (("guaranteed_crit", h.crit_rate, "crit_rate_add"), ("guaranteed_dh", h.dh_rate, "dh_rate_add")):
        f = forced(hit, what)
        out.append(1 if f == "yes" else 0 if f == "no" else min(1, own + getattr(hit.buffs, add) + getattr(hit.debuffs, add)))
    return out


class Hit:
    """all that the samples of one hit depend on"""

    def __init__(self, spec, mod, buffs, debuffs, h):
        self.spec, self.mod, self.buffs, self.debuffs = spec, mod, buffs, debuffs
        self.conflict = "conflict" in (forced(self, "guaranteed_crit"), forced(self, "guaranteed_dh"))
        if self.conflict:
            return
        self.base = base(self, h)
        self.crit, self.dh = rates(self, h)
        self.bonus = h.crit_bonus
        self.trait = h.trait if spec.trait_damage_mult_override is None else spec.trait_damage_mult_override
        self.mult = buffs.damage_mult * debuffs.damage_mult

    def roll(self, x, crit, dh):
        """from the rolled base damage (a whole number) on"""
        x += F(x * self.bonus) if crit else 0
        x += F(x * 0.25) if dh else 0
        return F(F(x * self.trait) * self.mult)

    def value(self, u, crit, dh):
        return self.roll(F(self.base * (0.95 + 0.1 * u)), crit, dh)

    def range(self, crit, dh):
        return self.roll(F(0.95 * self.base), crit, dh), self.roll(F(1.05 * self.base), crit, dh)

    def probs(self):
        c, d = self.crit, self.dh
        return {(0, 0): (1 - c) * (1 - d), (1, 0): c * (1 - d), (0, 1): (1 - c) * d, (1, 1): c * d}

    def moments(self):
        """mean and variance by the stated model: four cases, each uniform over its range"""
        m = s = 0.0
        for (c, d), p in self.probs().items():
            lo, hi = self.range(c, d)
            mid, w = (lo + hi) / 2, hi - lo
            m += p * mid
            s += p * (mid * mid + w * w / 12)
        return m, s - m * m


def from_instance(inst, h):
    t, sk, mod, (b, d), eid, tgt = inst
    return Hit(sk.get_damage_spec(mod), mod, b, d, h)


def ns(**k):
    return SimpleNamespace(**k)
