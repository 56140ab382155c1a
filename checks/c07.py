from sim import timeline as T

NAME = "C07"
LEVEL = "exploration"
QUICK, THOROUGH = 6400, 256000
RULE, MEASURE, REAL, STUB, ASSUME = T.RULE, T.MEASURE, T.REAL, T.STUB, T.ASSUME
_t = T.Timeline(NAME, fields=('time', 'skill', 'target', 'conditions', 'buffs', 'debuffs'))
make, judge, shrink = _t.make, _t.judge, _t.shrink


def prepare(seed, tier):
    T.prepare()
