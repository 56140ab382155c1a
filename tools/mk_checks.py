"""Writes the thin timeline check modules."""
T = {
 "C05": dict(presses=True, quick=5200),
 "C06": dict(fields=("time", "skill", "target", "conditions", "buffs", "debuffs", "snapshot"), quick=5600),
 "C07": dict(fields=("time", "skill", "target", "conditions", "buffs", "debuffs"), quick=6400),
 "C08": dict(quick=4800, only="lambda h: h[5] in ('PHYSICAL_DOT', 'MAGICAL_DOT') or '(dot)' in h[1]"),
 "C09": dict(quick=4800, fields=("time", "skill", "target", "class", "buffs", "debuffs"), only="lambda h: h[5] == 'AUTO'"),
 "C10": dict(quick=4400, fields=("time", "skill", "target", "class", "buffs", "debuffs", "snapshot")),
 "C11": dict(quick=5600, presses=True, fields=("time", "skill", "target", "potency", "snapshot")),
 "C12": dict(quick=5200, fields=("time", "skill", "target", "conditions", "potency")),
 "C13": dict(quick=5200, fields=("time", "skill", "target", "conditions", "potency")),
 "C19": dict(quick=4800),
 "C20": dict(quick=4800, presses=True),
}
for n, d in T.items():
    kw = [f"fields={d['fields']!r}" if "fields" in d else "", f"only={d['only']}" if "only" in d else "", "presses=True" if d.get("presses") else ""]
    kw = ", ".join(x for x in kw if x)
    open(f"checks/{n.lower()}.py", "w").write(f'''from sim import timeline as T

NAME = "{n}"
LEVEL = "exploration"
QUICK, THOROUGH = {d["quick"]}, {d["quick"] * 40}
RULE, MEASURE, REAL, STUB, ASSUME = T.RULE, T.MEASURE, T.REAL, T.STUB, T.ASSUME
_t = T.Timeline(NAME{", " + kw if kw else ""})
make, judge, shrink = _t.make, _t.judge, _t.shrink


def prepare(seed, tier):
    T.prepare()
''')
