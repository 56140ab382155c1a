from sim import timeline as T

NAME = "C10"
LEVEL = "exploration"
QUICK, THOROUGH = 4400, 176000
RULE, MEASURE, REAL, STUB, ASSUME = T.RULE, T.MEASURE, T.REAL, T.STUB, T.ASSUME
_t = T.Timeline(NAME, fields=('time', 'skill', 'target', 'class', 'buffs', 'debuffs', 'snapshot'))
make, judge, shrink = _t.make, _t.judge, _t.shrink


def prepare(seed, tier):
    T.prepare()
