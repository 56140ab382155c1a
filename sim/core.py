"""The runner: seeds, worker processes, minimisation, replay files, evidence.

A check is a module with
  NAME, LEVEL, QUICK, THOROUGH (numbers of runs)
  make(seed, i)      -> case            a pure function of its arguments
  judge(case)        -> Verdict         runs the real code under the simulator; a pure function of the case and the code
  shrink(case)       -> iterable of smaller cases
One integer (VERIF_SEED) decides everything.
"""
import gc
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import resource
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable
CASE_LIMIT_S = 60  # a run that takes this long (normally some ms) makes no progress


class Verdict:
    """violation: None or (class, message).  The class is what minimisation preserves.
    note: how the run counts ('checked', 'ambiguous', 'rejected')
    sig: what identifies the behaviour reached, for counting distinct ones (None: trivial)
    faults: {kind: times fired}; probes: {name: count}; sim_ms: simulated time covered"""
    __slots__ = ("violation", "note", "sig", "faults", "probes", "sim_ms", "known")

    def __init__(self, violation=None, note="checked", sig=None, faults=None, probes=None, sim_ms=0):
        self.violation, self.note, self.sig = violation, note, sig
        self.faults, self.probes, self.sim_ms = faults or {}, probes or {}, sim_ms


class NoProgress(BaseException):
    pass


def _alarm(*_):
    raise NoProgress()


def sub_seed(seed, prop, i):
    return int.from_bytes(hashlib.sha256(f"{seed}/{prop}/{i}".encode()).digest()[:8], "big")


def digest(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:16]


def from_repo(e):
    """did this exception come out of the code under test (not out of the harness)?"""
    from . import real
    if isinstance(e, MemoryError):
        return False
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + os.sep
    repo = os.path.abspath(real.REPO) + os.sep
    last = None
    for f in traceback.extract_tb(e.__traceback__):
        n = os.path.abspath(f.filename)
        last = "repo" if n.startswith(repo) else "harness" if n.startswith(here) else last
    return last == "repo"


def guarded(mod, case, limit=CASE_LIMIT_S):
    """judge(case), where a run without progress is a violation"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        v = mod.judge(case)
    except NoProgress:
        v = Verdict(("no-progress", f"the run did not finish within {limit} s (it normally takes some ms)"))
    except Exception as e:
        if not from_repo(e):
            raise
        v = Verdict(("raises", f"{type(e).__name__}: {e}"[:400]))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return v


def _limits():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass


def _worker(modname, seed, indices, out, deadline):
    _limits()
    mod = importlib.import_module(modname)
    gc.freeze()
    for i in indices:
        if time.monotonic() > deadline:
            out.put(("late", i, None))
            break
        try:
            case = mod.make(sub_seed(seed, mod.NAME, i), i)
            v = guarded(mod, case)
            out.put(("ok", i, (v.violation, v.note, v.sig, v.faults, v.probes, v.sim_ms)))
        except BaseException:  # noqa: harness error: reported as such, never as a violation
            out.put(("err", i, traceback.format_exc()))
    out.put(("end", None, None))


def run_chunk(modname, seed, indices, workers, deadline):
    ctx = mp.get_context("fork")
    out = ctx.Queue()
    parts = [indices[w::workers] for w in range(workers)]
    ps = [ctx.Process(target=_worker, args=(modname, seed, p, out, deadline), daemon=False) for p in parts if p]
    for p in ps:
        p.start()
    res, errs, late, ended = {}, [], 0, 0
    while ended < len(ps):
        try:
            k, i, x = out.get(timeout=5)
        except Exception:
            if not any(p.is_alive() for p in ps) and out.empty():
                break
            continue
        if k == "ok":
            res[i] = x
        elif k == "err":
            errs.append((i, x))
        elif k == "late":
            late += 1
        else:
            ended += 1
    for p in ps:
        p.join(5)
        if p.is_alive():
            p.kill()
    if ended < len(ps) and not errs:
        errs.append((None, f"{len(ps) - ended} worker(s) died"))
    return res, errs, late


def minimise(mod, case, cls, budget_s=25, max_tries=1500):
    """greedy: takes any smaller case that still shows a violation of the same class"""
    t0, tries = time.monotonic(), 0
    again = True
    while again and time.monotonic() - t0 < budget_s and tries < max_tries:
        again = False
        for c in mod.shrink(case):
            tries += 1
            if time.monotonic() - t0 > budget_s or tries > max_tries:
                break
            try:
                v = guarded(mod, c, 10 if cls != "no-progress" else 5)
            except Exception:
                continue
            if v.violation and v.violation[0] == cls:
                case = c
                again = True
                break
    return case, tries


def known_findings(prop):
    """recorded, unrepaired defects of a property"""
    p = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(p):
        return []
    ks = [json.loads(line[6:]) for line in open(p) if line.startswith("known:")]
    return [k for k in ks if k["property"] == prop]


def is_known(known, violation):
    for k in known:
        if k["class"] == violation[0] and re.search(k["match"], violation[1]):
            return k
    return None


def replay_cmd(path):
    return f"{PY} {VERIF}/check.py --replay {path}"


def replay(path):
    r = json.load(open(path))
    mod = importlib.import_module("checks." + r["property"].lower())
    if r.get("prepare") and hasattr(mod, "prepare"):
        mod.prepare(r["seed"], "quick")
    for c in r.get("history", ()):
        guarded(mod, c)
    v = guarded(mod, r["case"])
    return r, v


def replays(path):
    p = subprocess.run([PY, os.path.join(VERIF, "check.py"), "--replay", path], capture_output=True, text=True)
    return "reproduced exactly" if "reproduced exactly" in p.stdout else "reproduced" if p.returncode == 1 else f"NOT reproduced (exit {p.returncode})"


def with_history(mod, seed, before, k, path, budget_s=150):
    """The failure needs what the same process computed before: finds a short history that leads to it.  Updates the replay file."""
    r = json.load(open(path))
    t0 = time.monotonic()
    r["prepare"] = True

    def fails(idx):
        r["history"] = [mod.make(sub_seed(seed, mod.NAME, i), i) for i in idx]
        r["case"] = r["original"]
        with open(path, "w") as f:
            json.dump(r, f, indent=1, default=str)
        p = subprocess.run([PY, os.path.join(VERIF, "check.py"), "--replay", path], capture_output=True, text=True)
        return p.returncode == 1 and "VIOLATION" in p.stdout

    if fails([]):
        before = []
    elif not fails(before):
        return replays(path)
    idx, n = list(before), 2
    while len(idx) >= 1 and time.monotonic() - t0 < budget_s:
        size = max(1, len(idx) // n)
        for a in range(0, len(idx), size):
            rest = idx[:a] + idx[a + size:]
            if time.monotonic() - t0 < budget_s and fails(rest):
                idx, n = rest, max(2, n - 1)
                break
        else:
            if size == 1:
                break
            n = min(len(idx), 2 * n)
    fails(idx)
    subprocess.run([PY, os.path.join(VERIF, "check.py"), "--replay", path, "--adopt"], capture_output=True)
    return replays(path)



def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--log", help="write the digest of every run to this file (to prove determinism)")
    ap.add_argument("--adopt", action="store_true", help=argparse.SUPPRESS)
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--dump", type=int, help="print the case with this index")
    a = ap.parse_args(argv)
    if a.replay:
        r, v = replay(a.replay)
        if a.adopt and v.violation:
            r["violation"] = list(v.violation)
            with open(a.replay, "w") as f:
                json.dump(r, f, indent=1, default=str)
        if v.violation:
            print(f"{r['property']}: {v.violation[0]}: {v.violation[1]}")
            print("reproduced exactly" if list(v.violation) == r["violation"] else "reproduced, with another message")
            print(f"VIOLATION property={r['property']} replay={a.replay}")
            return 1
        print("not reproduced")
        return 0
    mod = importlib.import_module("checks." + a.property.lower())
    if a.dump is not None:
        print(json.dumps(mod.make(sub_seed(a.seed, mod.NAME, a.dump), a.dump), indent=1))
        return 0
    t0 = time.monotonic()
    known = known_findings(mod.NAME)
    cap = 420 if a.tier == "quick" else 3 * 3600
    total = a.runs or (mod.QUICK if a.tier == "quick" else mod.THOROUGH)
    if hasattr(mod, "prepare"):
        mod.prepare(a.seed, a.tier)
    chunk = max(a.workers * 4, min(total, getattr(mod, "CHUNK", max(200, total // 8))))
    done, late = {}, 0
    bad, broken = [], []
    i = 0
    while i < total and not bad and not late:
        idx = list(range(i, min(total, i + chunk)))
        i += len(idx)
        res, errs, late = run_chunk("checks." + a.property.lower(), a.seed, idx, a.workers, t0 + cap)
        done.update(res)
        bad = sorted(k for k, v in res.items() if v[0] and not is_known(known, v[0]))
        broken += errs
        if (len(broken) > max(3, .02 * len(done)) or any(e[0] is None for e in broken)) and not bad:
            print("HARNESS ERROR (not a violation):", file=sys.stderr)
            for e in broken[:3]:
                print(f"run {e[0]}: {e[1]}", file=sys.stderr)
            return 3
    wall_explore = time.monotonic() - t0
    if a.log:
        with open(a.log, "w") as f:
            for k in sorted(done):
                v = done[k]
                f.write(f"{k} {digest([v[0], v[1], v[2], v[3], v[4], v[5]])}\n")
    code, nviol, shown = 0, len(bad), []
    seen = {json.dumps(k) for v in done.values() if v[0] for k in [is_known(known, v[0])] if k}
    for k in known:
        if json.dumps(k) not in seen:
            continue
        print(f"KNOWN-FINDING: property={mod.NAME} {k['what']}")
    if bad:
        # shortest first: the lowest index of each violation class
        classes = {}
        for k in bad:
            classes.setdefault(done[k][0][0], k)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for cls, k in sorted(classes.items(), key=lambda x: x[1])[:2]:
            case = mod.make(sub_seed(a.seed, mod.NAME, k), k)
            small, tries = minimise(mod, case, cls)
            v = guarded(mod, small)
            if not v.violation:  # cannot happen for a deterministic run; fall back to the original
                small, v = case, Verdict(tuple(done[k][0]))
            path = os.path.join(VERIF, "replays", f"{mod.NAME}-{a.seed}-{k}.json")
            with open(path, "w") as f:
                json.dump({"property": mod.NAME, "seed": a.seed, "run": k, "violation": list(v.violation), "case": small,
                           "original": case, "minimisation_tries": tries, "replay": replay_cmd(path)}, f, indent=1, default=str)
            how = replays(path)
            if how.startswith("NOT"):
                c0 = k - (k % chunk)
                before = [j for j in list(range(c0, k))[(k - c0) % a.workers::a.workers]]
                how = with_history(mod, a.seed, before, k, path)
                how += " (with the runs of the same process before it)"
            print(f"{mod.NAME} run {k} of seed {a.seed}: {v.violation[0]}: {v.violation[1]}"[:3000])
            print("replay in a fresh process: " + how)
            print(f"VIOLATION property={mod.NAME} replay={path}")
            shown.append(path)
        code = 1
    if not a.no_evidence:
        write_evidence(mod, a, done, wall_explore, time.monotonic() - t0, nviol, late, total, len(broken))
    if not bad:
        n = sum(1 for v in done.values() if v[1] == "checked")
        print(f"{mod.NAME} {a.tier} seed {a.seed}: {len(done)} runs, {n} checked, no violation, {time.monotonic() - t0:.1f} s"
              + (f", {len(broken)} runs not judged (harness error)" if broken else ""))
    return code


def write_evidence(mod, a, done, wall_explore, wall, nviol, late, total, broken=0):
    faults, probes, notes, sigs = {}, {}, {}, set()
    sim = 0
    for v in done.values():
        for k, n in v[3].items():
            faults[k] = faults.get(k, 0) + n
        for k, n in v[4].items():
            probes[k] = probes.get(k, 0) + n
        notes[v[1]] = notes.get(v[1], 0) + 1
        if v[2] is not None and v[1] == "checked":
            sigs.add(v[2])
        sim += v[5]
    if broken:
        notes["harness error"] = broken
    ks = sorted(done)
    samples = []
    for k in ks[:: max(1, len(ks) // 2)][:2]:
        c = mod.make(sub_seed(a.seed, mod.NAME, k), k)
        samples.append({"run": k, "seed": sub_seed(a.seed, mod.NAME, k), "outcome": done[k][1], "case": c})
    rate = len(done) / max(wall_explore, 1e-9) * 3600
    ev = {
        "property": mod.NAME, "tier": a.tier, "seed": a.seed, "level": mod.LEVEL,
        "coverage": {
            "evaluations": len(done), "distinct_nontrivial": len(sigs), "rule": mod.RULE, "samples": samples,
            "simulated_runs_planned": total, "runs_per_hour": round(rate), "seeds_per_hour": round(rate),
            "outcomes": notes, "simulated_time_s": round(sim / 1000, 1), "faults_injected": faults,
            "probes": probes, "distinct_measure": mod.MEASURE, "real_components": mod.REAL, "stubbed_components": mod.STUB,
            "workers": a.workers, "stopped_by_wall_cap": bool(late),
        },
        "assumptions": mod.ASSUME, "wall_s": round(wall, 2), "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", f"{mod.NAME}.json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(p + ".tmp", p)
