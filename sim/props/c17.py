"""C17: threads sharing lazy arrays and caches all get the right data, without deadlock."""
import random

from sim import core, data, ops, threads, world
from sim.props import c01, c02

TIMEOUT = 60.0
SHRINK_LISTS = ["threads", "sched", "wsched", "values"]
_ak = None
EXCLUDE = c01.EXCLUDE | {"cartesian", "combinations"}


def template():
    global _ak
    threads.install()
    import awkward as ak
    _ak = ak
    c02.template()


def gen(rng, tier):
    plan = c01.gen(rng, tier)
    del plan["ops"]
    plan["sched"] = None
    allowed = [o for o in ops.swarm(rng) if o not in EXCLUDE]
    nt = rng.choice([2, 2, 3, 4])
    plan["threads"] = [[[ops.choose(rng, allowed), rng.randrange(1 << 16), rng.randrange(1 << 16), ops.entropy(rng)]
                        for _ in range(rng.choice([1, 2, 4]))] for _ in range(nt)]
    plan["prep"] = [[ops.choose(rng, ["field", "range", "fields", "take"]), rng.randrange(1 << 16), ops.entropy(rng)] for _ in range(rng.choice([0, 1, 2]))]
    p = rng.choice([0.1, 0.3, 0.5, 0.9])
    plan["sched"] = [rng.randint(1, nt) if rng.random() < p else 0 for _ in range(rng.choice([60, 200, 500]))]
    plan["trace"] = rng.choice([0, 0, 1, 7, 50])
    q = rng.choice([0, 0.05, 0.2])
    plan["wsched"] = [rng.choice([1, 2, 3]) if rng.random() < q else 0 for _ in range(60)]
    plan["fail"] = rng.random() < 0.4
    return plan


class TWorld(world.World):
    """A world whose callbacks are switch points and whose faults are charged to the running thread."""
    sim = None
    hits = None

    def cache_get(self, c, key):
        self.sim.point("get")
        try:
            return world.World.cache_get(self, c, key)
        finally:
            self.sim.point("got")

    def cache_set(self, c, key, value):
        self.sim.point("set")
        world.World.cache_set(self, c, key, value)
        self.sim.point("was set")

    def generate(self, name, layout, length=True, form=True):
        self.sim.point("gen")
        n = self.live_faults
        try:
            return world.World.generate(self, name, layout, length, form)
        finally:
            if self.live_faults > n:
                self.hits[self.sim.current()] = self.hits.get(self.sim.current(), 0) + 1
            self.sim.point("generated")


def execute(plan, log):
    ak = _ak
    w = TWorld(log, plan["wsched"], ("evict", "forget") + (("gen",) if plan["fail"] else ()))
    w.sim = s = threads.Sim(log, plan["sched"], plan["trace"])
    w.hits = {}
    caches = [world.SimCache(w, "c%d" % i, plan["capacity"]) for i in range(plan["ncaches"])]
    lz = world.Lazy(w, caches, random.Random("lazy%d" % plan["lazy"]), plan["prob"], plan["form"], plan["length"],
                    plan["top"], plan["cacheless"])
    eager = data.layout(plan["values"], plan["schema"], plan["layout"], plan["exotic"])
    lazy = data.layout(plan["values"], plan["schema"], plan["layout"], plan["exotic"], lz)
    pool = [(ak.Array(eager), ak.Array(lazy))]
    log.nontrivial = lz.count > 0 and len(plan["threads"]) > 1
    for name, i, e in plan["prep"]:
        pe, pl = pool[i % len(pool)]
        f = ops.resolve(name, e, pe)
        if f is not None:
            a, b = ops.outcome(f, pe, pe), ops.outcome(f, pl, pl)
            if a[0] == "ok" and b[0] == "ok" and isinstance(a[1], ak.Array) and ops.typestr(a[1]) == ops.typestr(b[1]):
                pool.append((a[1], b[1]))

    # what each operation gives alone (on the eager twin)
    jobs = []
    for t in plan["threads"]:
        js = []
        for name, i, j, e in t:
            pe, pl = pool[i % len(pool)]
            oe, ol = pool[j % len(pool)]
            f = ops.resolve(name, e, pe)
            if f is None or c01.skip(name, pe, oe):
                continue
            js.append((name, e, f, pl, ol, c02.run(f, pe, oe, name in c01.MERGY)[1]))
        jobs.append(js)

    def body(k):
        def go():
            for n, (name, e, f, pl, ol, ve) in enumerate(jobs[k]):
                before = w.hits.get(k, 0)
                try:
                    vl = c02.run(f, pl, ol, name in c01.MERGY)[1]
                except threads.Aborted:
                    raise
                log.ev("t", k, n, name, vl[0])
                where = "thread %d op %d %s e=%s" % (k, n, name, e)
                if vl[0] == "err" and vl[1] == "Aborted":
                    raise threads.Aborted()
                if w.hits.get(k, 0) > before and vl[0] == "err":
                    log.probe("reported_in_thread")
                    continue
                c02.same(name, ve, vl, where)
                log.probe("compared")
        return go
    w.armed = True
    s.run([body(k) for k in range(len(jobs))])
    w.armed = False
    log.state(s.switches, tuple(sorted(w.gens.items())))
    log.probe("runs_with_switches", 1 if s.switches else 0)
    for n, (pe, pl) in enumerate(pool):
        c02.same("", c02.outcome(c01.value, pe, True), c02.outcome(c01.value, pl, True), "afterwards, array %d" % n)
    c02.scan(caches, lz, "afterwards")


def simplify(plan):
    for key, v in (("trace", 0), ("fail", False), ("prep", [])):
        if plan[key] != v:
            yield dict(plan, **{key: v})
    for c in c01.simplify(plan):
        yield c
    for i, t in enumerate(plan["threads"]):
        for j in range(len(t)):
            yield dict(plan, threads=plan["threads"][:i] + [t[:j] + t[j + 1:]] + plan["threads"][i + 1:])
