from sim import timeline as T

NAME = "C09"
LEVEL = "exploration"
QUICK, THOROUGH = 4800, 192000
RULE, MEASURE, REAL, STUB, ASSUME = T.RULE, T.MEASURE, T.REAL, T.STUB, T.ASSUME
_t = T.Timeline(NAME, fields=('time', 'skill', 'target', 'class', 'buffs', 'debuffs'), only=lambda h: h[5] == 'AUTO')
make, judge, shrink = _t.make, _t.judge, _t.shrink


def prepare(seed, tier):
    T.prepare()
