from sim import timeline as T

NAME = "C21"
LEVEL = "exploration"
QUICK, THOROUGH = 4800, 192000
RULE, MEASURE, REAL, STUB, ASSUME = T.RULE, T.MEASURE, T.REAL, T.STUB, T.ASSUME
STUB = STUB + ["the combat log (its bonus percentages are computed from what happened in the simulated fight)"]
_t = T.Timeline(NAME, fields=("time", "skill", "target", "conditions", "potency"), presses=True, real_share=.35)
make, judge, shrink = _t.make, _t.judge, _t.shrink


def prepare(seed, tier):
    T.prepare()
