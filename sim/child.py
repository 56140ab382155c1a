"""One process of a user: reads a list of jobs and an environment, prints the digest of every outcome.

Run in a fresh interpreter by checks/c01.py: the hash seed, the clock, the heap and the preceding work are those of the environment."""
import ctypes
import json
import os
import random
import sys
import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def jumpy(kind, seed):
    """a wall clock that stands still, runs backwards, or jumps"""
    rng = random.Random(seed)
    now = [1.7e9]

    def read():
        if kind == "frozen":
            return now[0]
        now[0] += {"backwards": -rng.random() * 3600, "jumps": rng.choice([-1, 1]) * 10 ** rng.uniform(-6, 9), "slow": 1e-9}[kind]
        return now[0]
    return read


def main():
    job = json.load(sys.stdin)
    env = job["env"]
    if env["clock"] != "real":
        c = jumpy(env["clock"], env["seed"])
        time.time = time.perf_counter = time.monotonic = time.process_time = c
        time.time_ns = time.perf_counter_ns = time.monotonic_ns = lambda: int(c() * 1e9)
    rng = random.Random(env["seed"])
    junk = [bytearray(rng.randint(1, 4000)) for _ in range(env["junk"])]
    if env["junk"]:
        del junk[::2]
    import gc
    if env["gc"] == "off":
        gc.disable()
    elif env["gc"] == "eager":
        gc.set_threshold(100)
    import numpy as np
    from sim import outcome, real
    real.R()
    gc.freeze()
    random.seed(env["seed"])
    np.random.seed(env["seed"] % 2 ** 32)
    libs, stats = {}, {}
    out = {}

    def one(case):
        if env["warm"]:
            k = json.dumps(case["lib"], sort_keys=True)
            lib = libs[k] = libs[k] if k in libs else real.mk_lib(case["lib"])
            k = json.dumps(case["stats"], sort_keys=True)
            st = stats[k] = stats[k] if k in stats else real.mk_stats(case["stats"])
        else:
            lib, st = real.mk_lib(case["lib"]), real.mk_stats(case["stats"])
        try:
            rb = real.mk_builder(case, st, lib)
            for o in real.delivered(case):
                real.do_press(rb, o)
            return outcome.result(rb, st, lib, seed=case["np"], samples=case["samples"], hp=case["hp"], want=job["want"], extra=True)
        except Exception as e:
            return {"raises": f"{type(e).__name__}: {e}"[:200] if isinstance(e, (TypeError, AttributeError, IndexError)) else type(e).__name__}

    from sim import core
    for i in env["order"]:
        if i < 0:  # preceding work whose outcome nobody asks for
            with real.quiet():
                one(job["prior"][-i - 1])
            continue
        with real.quiet():
            res = one(job["cases"][i])
        out[i] = res if job.get("full") else core.digest(res)
    json.dump(out, sys.stdout)


if __name__ == "__main__":
    if "--norandom" in sys.argv:
        sys.argv.remove("--norandom")
        try:  # fixed addresses, so that code that depends on them repeats exactly
            ctypes.CDLL(None).personality(0x0040000)
        except (OSError, AttributeError):
            pass
        os.execv(sys.executable, [sys.executable] + sys.argv)
    main()
