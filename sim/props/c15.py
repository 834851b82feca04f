"""C15: operations never change existing arrays."""
import copy
import pickle
import random

from sim import core, data, ops
from sim.props import c01, c02

TIMEOUT = 60.0
SHRINK_LISTS = ["ops", "sched", "values"]
_ak = _np = None
OWN = ["set", "set", "iter", "npview", "copy", "pick", "record", "numpy_out", "layoutview"]


def template():
    global _ak, _np
    import awkward as ak
    import numpy as np
    _ak, _np = ak, np
    c02.template()


def gen(rng, tier):
    plan = c01.gen(rng, tier)
    cols = None
    if rng.random() < 0.4:
        # columns that can be combined with each other, many of them with missing values
        leaf = rng.choice(["i64", "f64", "bool"])
        cols = [[k, rng.choice([["opt", [leaf]], ["opt", [leaf]], [leaf]])] for k in ["x", "y", "z"][:rng.randint(2, 3)]]
        s = ["rec", cols]
        plan["schema"] = rng.choice([s, s, ["opt", s], ["list", s]])
        plan["values"] = data.rand_data(rng, plan["schema"], rng.choice([1, 2, 3, 5, 8]))
    plan["islazy"] = rng.random() < 0.25
    if not plan["islazy"]:
        plan["prob"] = 0
    pf = rng.choice([0, 0, 0.1, 0.3]) if plan["islazy"] else 0
    plan["sched"] = [rng.choice([1, 2, 3, 4]) if rng.random() < pf else 0 for _ in range(40)]
    own = rng.choice([0.1, 0.3, 0.6])
    plan["exotic"] = rng.choice([0, 0.5, 0.9])
    allowed = [o for o in ops.swarm(rng) if o not in c01.EXCLUDE] + ["repartition"] * rng.choice([0, 1])
    if cols:
        allowed += ["arith_fields"] * 6 + ["zip_fields", "broadcast", "where", "arith"]
    oom = rng.choice([0, 0, 0.2])
    plan["ops"] = [[rng.choice(OWN) if rng.random() < own else ops.choose(rng, allowed), rng.randrange(1 << 16), rng.randrange(1 << 16), ops.entropy(rng),
                    1 + rng.randrange(12) if rng.random() < oom else 0] for _ in range(rng.choice([4, 8, 16, 24]))]
    return plan


class View(object):
    """Something a user holds, and what it showed when it was obtained."""

    def __init__(self, kind, x, origin):
        self.kind, self.x, self.origin = kind, x, origin
        self.rest = self.of = None
        if kind == "iter":
            self.x, self.rest, self.of = x
        self.want = self.now()

    def now(self):
        ak, np = _ak, _np
        if self.kind == "iter":
            return None
        if self.kind == "np":
            return data.canon(self.x.tolist()) if not self.x.dtype.hasobject else repr(self.x)
        if self.kind == "bytes":
            return data.canon(ak.to_list(pickle.loads(self.x)))
        if self.kind == "layout":
            return data.canon(ak.to_list(self.x)) + str(self.x.form)
        return c01.value(self.x, False)


def check(views, where, log):
    for n, v in enumerate(views):
        if v.kind == "iter":
            continue
        try:
            got = v.now()
        except core.Violation:
            raise
        except MemoryError:
            raise
        except Exception as e:
            raise core.Violation("value-lost", "%s: %s %d (from %s) cannot be read any more: %s: %s; it was %s" % (where, v.kind, n, v.origin, type(e).__name__, str(e)[:200], str(v.want)[:300]))
        if got != v.want:
            raise core.Violation("value-changed", "%s: %s %d (from %s) is now %s, was %s" % (where, v.kind, n, v.origin, str(got)[:400], str(v.want)[:400]))
    log.probe("views_checked", len(views))


def execute(plan, log):
    ak, np = _ak, _np
    vs = core.vsim().lib
    w, caches, lz, eager, lazy = c01.build(plan, log, ("evict", "forget", "gen", "interrupt"))
    log.nontrivial = True
    first = ak.Array(lazy if plan["islazy"] else eager)
    pool = [first]
    views = [View("array", first, "start")]

    def keep(kind, x, origin):
        if len(views) < 24:
            views.append(View(kind, x, origin))

    for k, (name, i, j, e, oom) in enumerate(plan["ops"]):
        a, o = pool[i % len(pool)], pool[j % len(pool)]
        where = "op %d %s e=%s" % (k, name, e)
        if name in OWN:
            own(name, a, o, e, pool, views, keep, where, log)
            check(views, where, log)
            continue
        f = ops.resolve(name, e, a)
        if f is None:
            continue
        w.armed = True
        if oom:
            vs.vs_alloc_arm(oom, 1, 0, 0)
        r = c02.outcome(f, a, o)
        if oom:
            vs.vs_alloc_disarm()
            if vs.vs_alloc_failed():
                log.fault("alloc")
        w.armed = False
        log.ev(k, name, r[0])
        log.state(name, r[0], type(getattr(a, "layout", None)).__name__, len(views) > 4)
        check(views, where, log)
        if r[0] == "ok" and isinstance(r[1], (ak.Array, ak.Record)):
            v = c02.outcome(c01.value, r[1], False)
            if v[0] == "ok" and len(pool) < 10:
                pool.append(r[1])
                keep("array", r[1], name)
        elif r[0] == "ok" and isinstance(r[1], np.ndarray):
            keep("np", r[1], name)
    # finish what was half iterated
    for n, v in enumerate(views):
        if v.kind == "iter":
            got = data.canon([ak.to_list(x) for x in v.x])
            if got != v.rest:
                raise core.Violation("value-changed", "iterator %d of array %s goes on with %s, expected %s" % (n, v.origin, got[:300], v.rest[:300]))


def own(name, a, o, e, pool, views, keep, where, log):
    ak, np = _ak, _np
    if name == "set":
        if not isinstance(a, ak.Array):
            return
        fields = ak.fields(a)
        if not fields and not isinstance(a.layout, (ak.layout.RecordArray,)):
            return
        f = "new%d" % (e[0] % 3) if e[1] % 3 else (fields[e[0] % len(fields)] if fields else "x")
        what = [o, 7, a[fields[e[2] % len(fields)]] if fields else 1][e[2] % 3]
        r = c02.outcome(ak.with_field, a, what, f)
        rv = c02.outcome(c01.value, r[1], False) if r[0] == "ok" else r
        g = c02.outcome(a.__setitem__, f, what)
        log.ev("set", r[0], g[0])
        if r[0] != g[0]:
            raise core.Violation("assignment-differs", "%s: with_field %s, assignment %s" % (where, str(r)[:200], str(g)[:200]))
        for v in list(views):
            if v.of is a:           # an iterator of the object itself may go either way
                views.remove(v)
        if r[0] == "ok" and rv[0] == "ok":
            log.probe("assigned")
            got = c01.value(a, False)
            if got != rv[1]:
                raise core.Violation("assignment-differs", "%s: with_field gives %s, assignment gives %s" % (where, str(rv)[:300], str(got)[:300]))
            for v in views:
                if v.x is a:
                    v.want = v.now()
        elif r[0] == "ok":
            # cannot be shown: nothing more is asked of this one object
            for v in list(views):
                if v.x is a:
                    views.remove(v)
            for n, x in enumerate(pool):
                if x is a:
                    pool[n] = pool[0] if pool[0] is not a else ak.Array([1, 2, 3])
    elif name == "iter":
        if not isinstance(a, ak.Array) or len(a) == 0:
            return
        whole = [ak.to_list(x) for x in a]
        it = iter(a)
        n = e[0] % len(whole)
        for _ in range(n):
            next(it)
        keep("iter", (it, data.canon(whole[n:]), a), "iterator")
    elif name == "npview":
        r = c02.outcome(np.asarray, a)
        if r[0] == "ok" and isinstance(r[1], np.ndarray) and r[1].dtype.names is None and not np.ma.isMaskedArray(r[1]):
            keep("np", r[1], "np.asarray")
    elif name == "layoutview":
        lay = getattr(a, "layout", None)
        for _ in range(1 + e[0] % 3):
            nxt = getattr(lay, "content", None)
            if isinstance(nxt, ak.layout.Content):
                lay = nxt
            elif isinstance(lay, ak.layout.RecordArray) and lay.numfields:
                lay = lay.field(e[1] % lay.numfields)
        if isinstance(lay, ak.layout.Content):
            keep("layout", lay, "layout")
    elif name == "numpy_out":
        r = c02.outcome(ak.to_numpy, a)
        if r[0] == "ok" and isinstance(r[1], np.ndarray) and r[1].dtype.names is None and not np.ma.isMaskedArray(r[1]):
            keep("np", r[1], "ak.to_numpy")
    elif name == "copy":
        b = [ak.Array, copy.copy, copy.deepcopy, ak.copy][e[0] % 4]
        r = c02.outcome(b, a)
        if r[0] == "ok" and isinstance(r[1], (ak.Array, ak.Record)) and r[1] is not a:
            keep("array", r[1], "copy")
            if len(pool) < 10:
                pool.append(r[1])
    elif name == "pick":
        r = c02.outcome(pickle.dumps, a, -1)
        if r[0] == "ok":
            keep("bytes", r[1], "pickle")
    elif name == "record":
        if isinstance(a, ak.Array) and len(a):
            r = a[e[0] % len(a)]
            if isinstance(r, (ak.Record, ak.Array)):
                keep("array", r, "item")
                if len(pool) < 10:
                    pool.append(r)


def simplify(plan):
    for key, v in (("islazy", False), ("exotic", 0), ("prob", 0)):
        if plan[key] != v:
            yield dict(plan, **{key: v})
    for i, o in enumerate(plan["ops"]):
        if o[4]:
            yield dict(plan, ops=plan["ops"][:i] + [o[:4] + [0]] + plan["ops"][i + 1:])
