from sim import timeline as T

NAME = "C20"
LEVEL = "exploration"
QUICK, THOROUGH = 4800, 192000
RULE, MEASURE, REAL, STUB, ASSUME = T.RULE, T.MEASURE, T.REAL, T.STUB, T.ASSUME
_t = T.Timeline(NAME, presses=True)
make, judge, shrink = _t.make, _t.judge, _t.shrink


def prepare(seed, tier):
    T.prepare()
