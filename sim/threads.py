"""Runs several threads of real code one at a time; a seeded scheduler decides at every executed line of the repository which one goes on."""
import random
import threading
import time
import zlib

from . import interrupt


class Scheduler:
    """plan: {"seed", "mode": "steps" | "places" | "function", "mean", "bucket"}"""

    def __init__(self, plan, fns, patience=8.0):
        self.rng = random.Random(plan["seed"])
        self.plan, self.fns = plan, fns
        n = len(fns)
        self.batons = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.ids = {}
        self.result, self.error = [None] * n, [None] * n
        self.left = 0
        self.steps = self.switches = 0
        self.trace = 0  # digest of the interleaving
        self.free = False  # the watchdog let everybody run
        self.patience = patience
        self.done = threading.Semaphore(0)
        self.beat = time.monotonic()
        self.places = {}
        self.calm, self.phase, self.rest = False, 300, plan.get("rest", 1000)

    def quantum(self):
        """hot phases of some hundred switches alternate with calm ones, so that long work stays affordable"""
        self.phase -= 1
        if self.phase <= 0:
            self.calm = not self.calm
            self.phase = self.rng.choice([20, 100]) if self.calm else self.rng.choice([50, 200, 400])
        m = max(self.plan["mean"], self.rest) if self.calm else self.plan["mean"]
        return 1 + int(self.rng.expovariate(1 / m)) if m > 1 else 1

    def due(self, code, line):
        if self.plan["mode"] == "places":
            k = (code.co_filename, line)
            b = self.places.get(k)
            if b is None:
                b = self.places[k] = zlib.crc32(f"{code.co_name}:{line - code.co_firstlineno}".encode()) % 41 == self.plan["bucket"]
            if b and not self.calm and self.rng.random() < .5:
                return True
        elif self.plan["mode"] == "function":
            b = self.places.get(code)
            if b is None:
                b = self.places[code] = zlib.crc32(code.co_name.encode()) % 41 == self.plan["bucket"]
            if b and self.rng.random() < (.4 if self.switches < 400 else .08 if self.switches < 1200 else .01):
                return True
        self.left -= 1
        return self.left <= 0

    def point(self, code, line):
        me = self.ids.get(threading.get_ident())
        if me is None or self.free:
            return
        self.steps += 1
        if self.steps & 1023 == 0:
            self.beat = time.monotonic()
        if not self.due(code, line):
            return
        self.left = self.quantum()
        self.hand_over(me)

    def hand_over(self, me):
        nxt = self.rng.choice(sorted(self.alive))
        if nxt == me:
            return
        self.switches += 1
        self.trace = zlib.crc32(f"{self.steps} {me} {nxt}".encode(), self.trace)
        self.beat = time.monotonic()
        self.batons[nxt].release()
        self.batons[me].acquire()

    def body(self, i):
        self.ids[threading.get_ident()] = i
        self.batons[i].acquire()
        try:
            self.result[i] = self.fns[i]()
        except BaseException as e:
            self.error[i] = e
        self.alive.discard(i)
        if self.alive and not self.free:
            nxt = self.rng.choice(sorted(self.alive))
            self.switches += 1
            self.left = self.quantum()
            self.batons[nxt].release()
        self.done.release()

    def run(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.fns))]
        interrupt.watch(self.point)
        try:
            for t in ts:
                t.start()
            self.left = self.quantum()
            self.beat = time.monotonic()
            self.batons[self.rng.randrange(len(ts))].release()
            left = len(ts)
            while left:
                if self.done.acquire(timeout=1.0):
                    left -= 1
                elif not self.free and time.monotonic() - self.beat > self.patience:
                    # somebody waits for a lock that a parked thread holds: let all run
                    self.free = True
                    for b in self.batons:
                        b.release()
        finally:
            interrupt.watch(None)
        for t in ts:
            t.join(5)
        return self
