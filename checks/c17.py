"""CSV import is faithful, whatever the file system does."""
import builtins
import contextlib
import csv
import errno
import io
import os
import random
import shutil
import tempfile

from sim import core, gen, outcome, real, timeline as T

NAME = "C17"
LEVEL = "exploration"
QUICK, THOROUGH = 4000, 160000
REAL = ["CSVUtils", "pandas.read_csv", "RotationBuilder", "DamageBuilder"]
STUB = ["the file system under open(): short reads, read errors, open errors, torn and missing files, decided by the simulator"]
ASSUME = ["Python's csv module reads the same rows from well-formed files", "sampled, not enumerated"]
RULE = ("A run is one generated file (line ends, quoting, column order and case, extra and optional columns varied) imported into a rotation that may "
        "already hold presses, under one seeded fault; then the fault is healed and the import repeated on a fresh rotation. Non-trivial: two or more "
        "rows or a fault.")
MEASURE = "distinct (file, fault) pairs"
JOB = "SAM"
SKILLS = ["Alba", "Bran", "Cole", "Alb", "Dusk, the Late", "Haze", "Éclat", "NA"]
COLS = ["time", "skill_name", "job_class", "skill_conditional", "targets"]
FAULTS = ["none", "short", "short", "eio", "eio", "open", "missing", "torn", "unknown", "badtime"]


def make(seed, i):
    rng = random.Random(seed)
    n = rng.choice([0, 1, 2, 3, 6, 12, 40])
    if random.Random(f"long {seed}").random() < .02:
        n = rng.choice([513, 1001, 1100, 2500])
    numeric = rng.random() < .12
    cond = rng.choice([[""], ["", "", "X"], ["", "X", "X, Y"], ["3", "4"] if numeric else ["", "Y"]])
    tgts = rng.choice([None, [""], ["", "Boss"], ["Boss", "Add", "Boss, Add"], ["1", "2"] if numeric else ["Boss"]])
    rows = []
    for k in range(n):
        t = rng.choice([str(rng.randint(0, 60)), f"{rng.randint(0, 60000) / 1000:.3f}", repr(rng.randint(0, 600) / 10), "0", f"-{rng.randint(0, 3)}.5"])
        rows.append([t, rng.choice(SKILLS), rng.choice(["", "", JOB, "DNC"]), rng.choice(cond), rng.choice(tgts) if tgts else ""])
    fault = rng.choice(FAULTS)
    cols = list(COLS if tgts else COLS[:4])
    if rng.random() < .3:
        rng.shuffle(cols)
    return {"rows": rows, "cols": cols, "extra": rng.random() < .15, "case": rng.choice(["lower", "title", "upper", "mixed"]), "eol": rng.choice(["\n", "\n", "\r\n"]),
            "end": rng.random() < .8, "quote": rng.choice(["minimal", "minimal", "all"]), "fault": fault, "at": rng.random(), "chunk": rng.choice([1, 2, 7, 64]),
            "errno": rng.choice(["EACCES", "EMFILE", "EIO", "ENFILE", "EISDIR"]), "seed": rng.getrandbits(32), "before": rng.choice([0, 0, 2])}


def lib_json():
    sk = []
    for k, n in enumerate(SKILLS):
        sk.append({"name": n, "is_GCD": False, "timing_spec": {"base_cast_time": 0, "animation_lock": 0, "application_delay": 0},
                   "damage_spec": {"?": [["", {"potency": 100 + 10 * k}], ["X", {"potency": 101 + 10 * k}], ["X, Y", {"potency": 102 + 10 * k}],
                                         ["3", {"potency": 103 + 10 * k}], ["Y", {"potency": 104 + 10 * k}], ["4", {"potency": 105 + 10 * k}]]}})
    return {"kind": "syn", "version": "7.1", "level": 100, "jobs": {JOB: {"skills": sk}, "DNC": {"skills": sk}}}


STATS = {"wd": 132, "weapon_delay": 2.64, "main_stat": 3330, "det_stat": 2182, "dh_stat": 940, "crit_stat": 2502, "speed_stat": 420, "job_class": JOB,
         "version": "7.1", "level": 100}


def text(case):
    o = io.StringIO()
    w = csv.writer(o, lineterminator=case["eol"], quoting=csv.QUOTE_ALL if case["quote"] == "all" else csv.QUOTE_MINIMAL)
    f = {"lower": str.lower, "title": lambda c: c[0].upper() + c[1:], "upper": str.upper, "mixed": lambda c: c.swapcase() if len(c) % 2 else c}[case["case"]]
    w.writerow([f(c) for c in case["cols"]] + (["comment"] if case["extra"] else []))
    for k, r in enumerate(case["rows"]):
        d = dict(zip(COLS, r))
        if case["fault"] == "unknown" and k == bad_row(case):
            d["skill_name"] = "No Such Skill"
        if case["fault"] == "badtime" and k == bad_row(case):
            d["time"] = "soon"
        w.writerow([d[c] for c in case["cols"]] + (["x"] if case["extra"] else []))
    s = o.getvalue()
    if not case["end"] and s.endswith(case["eol"]):
        s = s[:-len(case["eol"])]
    return s.encode()


def bad_row(case):
    return min(len(case["rows"]) - 1, int(case["at"] * len(case["rows"]))) if case["rows"] else None


class Raw(io.RawIOBase):
    """a file that gives what it likes"""

    def __init__(self, data, case, fired, name):
        self.data, self.pos, self.case, self.fired, self.name = data, 0, case, fired, name
        self.rng = random.Random(case["seed"])
        self.limit = int(case["at"] * (len(data) + 1)) if case["fault"] == "eio" else None

    def readable(self):
        return True

    def readinto(self, b):
        n = min(len(b), len(self.data) - self.pos)
        if self.case["fault"] in ("short", "eio"):
            m = min(n, self.rng.randint(1, self.case["chunk"]))
            if m < n:
                self.fired["short read"] = self.fired.get("short read", 0) + 1
            n = m
        if self.limit is not None and self.pos + n >= self.limit:
            if self.pos >= self.limit or self.limit == 0 or n == 0:
                self.fired["read error"] = 1
                raise OSError(errno.EIO, os.strerror(errno.EIO), self.name)
            n = self.limit - self.pos
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


@contextlib.contextmanager
def file_system(path, data, case, fired):
    real_open = builtins.open

    def fake(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, *a, **k):
        try:
            mine = os.fspath(file) == path
        except TypeError:
            mine = False
        if not mine:
            return real_open(file, mode, buffering, encoding, errors, newline, *a, **k)
        if any(c in mode for c in "wax+"):
            fired["write"] = 1
            raise OSError(errno.EROFS, os.strerror(errno.EROFS), path)
        if case["fault"] == "missing":
            fired["missing file"] = 1
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
        if case["fault"] == "open":
            fired["open error " + case["errno"]] = 1
            raise OSError(getattr(errno, case["errno"]), os.strerror(getattr(errno, case["errno"])), path)
        raw = Raw(data, case, fired, path)
        if buffering == 0:
            return raw
        buf = io.BufferedReader(raw, 64 if case["fault"] != "none" else io.DEFAULT_BUFFER_SIZE)
        return buf if "b" in mode else io.TextIOWrapper(buf, encoding=encoding or "utf-8", errors=errors, newline=newline)

    old = builtins.open, io.open
    builtins.open = io.open = fake
    try:
        yield
    finally:
        builtins.open, io.open = old


def parse(data):
    """-> rows as dicts, or None if the header or a quote is torn"""
    rd = list(csv.reader(io.StringIO(data.decode(errors="replace"), newline=""), strict=False))
    rd = [r for r in rd if r]
    if not rd:
        return None
    head = [c.lower() for c in rd[0]]
    if not set(COLS[:4]) <= set(head):
        return None
    out = []
    for r in rd[1:]:
        r = r + [""] * (len(head) - len(r))
        out.append({c: r[head.index(c)] if c in head else "" for c in COLS})
    return out


def judge(case):
    lib = real.mk_lib(lib_json())
    d = tempfile.mkdtemp(prefix="verif_csv_")
    try:
        with real.quiet():
            return run(case, lib, os.path.join(d, "rotation.csv"))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def new_rb(case, lib):
    r = real.R()
    rb = r.RotationBuilder(real.mk_stats(STATS), lib, fight_start_time=0)
    for k in range(case["before"]):
        rb.add(100 + k, SKILLS[k])
    return rb


def see(rb, lib):
    stats = real.mk_stats(STATS)
    q = rb.get_skill_timing()
    p = outcome.canon(rb.get_button_press_timing())
    return [sorted(p, key=repr), sorted((x[:8] + x[9:] for x in outcome.instances(real.R().DamageBuilder(stats, lib).get_damage_instances(q))), key=repr)]


def run(case, lib, path):
    r = real.R()
    data = full = text(case)
    fired = {}
    if case["fault"] == "torn":
        data = full[: int(case["at"] * len(full))]
        fired["torn file"] = 1
    if case["fault"] in ("unknown", "badtime") and case["rows"]:
        fired[{"unknown": "unknown skill", "badtime": "unreadable time"}[case["fault"]]] = 1
    if case["fault"] != "missing":
        with open(path, "wb") as f:
            f.write(data)
    rb = new_rb(case, lib)
    start = see(rb, lib)
    err = got = None
    with file_system(path, data, case, fired):
        try:
            got = r.CSVUtils.populate_rotation_from_csv(rb, path)
        except core.NoProgress:
            raise
        except Exception as e:
            err = e
    v = core.Verdict(faults=fired, sig=core.digest([data.decode(errors="replace"), case["fault"], case["at"], case["chunk"]])
                     if len(case["rows"]) > 1 or fired else None)
    if case["fault"] != "missing" and open(path, "rb").read() != data or "write" in fired:
        v.violation = ("file", "the import changed the file")
        return v
    after = see(rb, lib)
    if "read error" in fired or any(k.startswith("open error") for k in fired):
        if err is None:
            v.violation = ("swallowed", f"the fault {sorted(fired)} was not reported; {len(got[1])} rows imported")
        elif after != start:
            v.violation = ("partial", f"the read failed ({type(err).__name__}) but the rotation changed: {outcome.where(start, after)}")
        else:
            v.violation = again(case, lib, path, data)
        return v
    if "missing file" in fired:
        if after != start:
            v.violation = ("partial", "a missing file changed the rotation")
        elif err is None and len(got[1]) != 0:
            v.violation = ("invented", f"a missing file gave {len(got[1])} rows")
        return v
    v.violation = compare(case, lib, data, start, after, err, got)
    return v


def compare(case, lib, data, start, after, err, got):
    rows = parse(data)
    torn = case["fault"] == "torn"
    if rows is None:
        return None if err is not None or after == start else ("invented", "presses from a file without a header")
    known = True
    for x in rows:
        try:
            float(x["time"])
        except ValueError:
            if err is None:
                return ("time", f"a row with time {x['time']!r} was accepted")
            return None if after == start else ("partial", f"unreadable time, but the rotation changed: {outcome.where(start, after)}")
        known = known and x["skill_name"] in SKILLS and x["job_class"] in ("", JOB, "DNC")
    if not known:
        return None if err is not None else ("skipped", "a row naming an unknown skill was not reported")
    if err is not None:
        if torn and data.count(b'"') % 2:
            return None  # torn inside a quoted field: refusing is fine
        return ("raises", f"{type(err).__name__}: {err}"[:300])
    ref = new_rb(case, lib)
    for x in rows:
        ref.add(float(x["time"]), x["skill_name"], skill_modifier=real.R().SkillModifier(with_condition=x["skill_conditional"]) if x["skill_conditional"] else None,
                job_class=x["job_class"] or None, targets=x["targets"] or None)
    want = see(ref, lib)
    if after != want:
        return ("presses", "imported against typed in: " + str(outcome.where(after, want)))
    res = [(float(x.t), x.skill_name, x.job_class or "", x.skill_conditional or "", x.targets or "") for x in got[1]]
    exp = [(float(x["time"]), x["skill_name"], x["job_class"], x["skill_conditional"], x["targets"]) for x in rows]
    if res != exp:
        return ("rows", "rows reported: " + str(outcome.where([list(x) for x in res], [list(x) for x in exp])))
    if got[0] is not case and see(got[0], lib) != want:
        return ("returned", "the returned rotation is not the one asked for")
    return None


def again(case, lib, path, data):
    """once the fault is gone the import works, also on the rotation that saw the fault"""
    calm = dict(case, fault="none")
    rb = new_rb(calm, lib)
    start = see(rb, lib)
    err = got = None
    with file_system(path, data, calm, {}):
        try:
            got = real.R().CSVUtils.populate_rotation_from_csv(rb, path)
        except Exception as e:
            err = e
    x = compare(calm, lib, data, start, see(rb, lib), err, got)
    return x and ("after heal: " + x[0], x[1])


def shrink(case):
    n = len(case["rows"])
    k = n // 2
    while k >= 1:
        for i in range(0, n, k):
            c = T.copy(case)
            del c["rows"][i:i + k]
            yield c
        k //= 2
    for f, y in (("extra", False), ("case", "lower"), ("eol", "\n"), ("end", True), ("quote", "minimal"), ("before", 0), ("chunk", 64)):
        if case[f] != y:
            yield dict(case, **{f: y})
    if case["cols"] != [c for c in COLS if c in case["cols"]]:
        yield dict(case, cols=[c for c in COLS if c in case["cols"]])
    if case["fault"] != "none":
        yield dict(case, fault="none")
    for i, r in enumerate(case["rows"]):
        for j, y in ((2, ""), (3, ""), (4, ""), (0, "0")):
            if r[j] != y:
                c = T.copy(case)
                c["rows"][i][j] = y
                yield c
