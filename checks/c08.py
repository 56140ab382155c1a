from sim import timeline as T

NAME = "C08"
LEVEL = "exploration"
QUICK, THOROUGH = 4800, 192000
RULE, MEASURE, REAL, STUB, ASSUME = T.RULE, T.MEASURE, T.REAL, T.STUB, T.ASSUME
_t = T.Timeline(NAME, only=lambda h: h[5] in ('PHYSICAL_DOT', 'MAGICAL_DOT') or '(dot)' in h[1])
make, judge, shrink = _t.make, _t.judge, _t.shrink


def prepare(seed, tier):
    T.prepare()
