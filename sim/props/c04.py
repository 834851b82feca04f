"""C04: lazy arrays sharing one cache never get each other's data."""
import copy
import pickle

from sim import core, data, ops, threads, world
from sim.props import c02

TIMEOUT = 60.0
SHRINK_LISTS = ["threads", "sched", "wsched"]
_ak = None


def template():
    global _ak
    threads.install()
    import awkward as ak
    _ak = ak
    c02.template()


# All sources of a run have the same form and length and differ in every value, so that nothing but the
# values can tell that one array was given another's data.
def item(shape, k, i):
    b = k * 10000 + i * 100
    if shape == "flat":
        return b
    if shape == "list":
        return [b + j for j in range((i * 7) % 4)]
    if shape == "rec":
        return {"x": b, "y": [b + 50 + j for j in range(i % 3)]}
    if shape == "deep":
        return {"x": {"pt": b, "eta": b + 1}, "y": [{"z": b + 50 + j} for j in range(i % 3)]}
    if shape == "opt":
        return None if i % 3 == 1 else {"x": b, "y": [b + 1]}
    if shape == "tup":
        return (b, [b + 1])
    if shape == "str":
        return {"x": "s%06d" % b, "y": b}
    raise AssertionError(shape)


CREATE = ["virtual", "virtual", "virtualform", "layout", "layoutkey", "buffers", "buffers", "parts", "columns", "partitioned", "nested", "ownkey"]
DERIVE = ["range", "range", "field", "field", "copy", "deepcopy", "pickle", "with_cache", "repartition", "take", "mask", "twice",
          "inner", "at", "concat", "zip", "akcopy", "with_field", "again"]


def gen(rng, tier):
    def program():
        out = []
        for _ in range(rng.choice([3, 6, 10])):
            out.append([rng.choice(CREATE) if rng.random() < 0.4 else rng.choice(DERIVE + ["read"] * 12 + ["evict", "drop"]),
                        rng.randrange(1 << 16), ops.entropy(rng)])
        return out
    nt = rng.choice([1, 1, 2, 3])
    p = rng.choice([0.1, 0.3, 0.6])
    q = rng.choice([0, 0, 0.1, 0.3])
    return {"shape": rng.choice(["flat", "list", "rec", "rec", "deep", "opt", "tup", "str"]), "n": rng.choice([1, 2, 4, 7]),
            "ncaches": rng.choice([1, 1, 2]), "capacity": rng.choice([None, None, 1, 3, 6]),
            "threads": [program() for _ in range(nt)],
            "sched": [rng.randint(1, nt) if rng.random() < p else 0 for _ in range(300)] if nt > 1 else [],
            "trace": rng.choice([0, 1, 1, 3, 10]),
            "wsched": [rng.choice([1, 2, 3, 4]) if rng.random() < q else 0 for _ in range(60)]}


class TWorld(world.World):
    sim = None

    def cache_get(self, c, key):
        self.sim.point("get")
        try:
            return world.World.cache_get(self, c, key)
        finally:
            self.sim.point("got")

    def cache_set(self, c, key, value):
        self.sim.point("set")
        world.World.cache_set(self, c, key, value)
        self.sim.point("was set")


def keys(x, out):
    ak = _ak
    L = ak.layout
    if isinstance(x, ak.partition.PartitionedArray):
        for p in x.partitions:
            keys(p, out)
    elif isinstance(x, L.VirtualArray):
        out.append(x.cache_key)
    elif isinstance(x, L.RecordArray):
        for c in x.contents:
            keys(c, out)
    elif hasattr(x, "content"):
        keys(x.content, out)
    elif hasattr(x, "contents"):
        for c in x.contents:
            keys(c, out)


def execute(plan, log):
    ak = _ak
    import numpy as np
    L = ak.layout
    w = TWorld(log, plan["wsched"], ("evict", "forget", "lose"))
    w.sim = s = threads.Sim(log, plan["sched"], plan["trace"])
    caches = [world.SimCache(w, "c%d" % i, plan["capacity"]) for i in range(plan["ncaches"])]
    shape, n = plan["shape"], plan["n"]
    count = [0]
    pool = []       # [array or None, expected list]
    issued = {}

    def fresh():
        count[0] += 1
        k = count[0]
        vals = [item(shape, k, i) for i in range(n)]
        return k, vals, ak.from_iter(vals + [item(shape, k, i) for i in range(8)], highlevel=False)[:n]

    def gen_of(k, layout):
        def g():
            log.ev("gen", k)
            log.probe("generated")
            return layout
        return g

    def add(a, m):
        if len(pool) < 60:
            pool.append([a, m])

    def create(kind, e):
        k, vals, lay = fresh()
        cache = caches[e[0] % len(caches)]
        if kind == "virtual":
            a = ak.virtual(gen_of(k, ak.Array(lay) if e[1] % 2 else lay), length=n, cache=cache)
        elif kind == "virtualform":
            a = ak.virtual(gen_of(k, lay), length=n if e[1] % 3 else None, form=lay.form, cache=cache)
        elif kind == "layout":
            a = ak.Array(L.VirtualArray(L.ArrayGenerator(gen_of(k, lay), (), length=n), L.ArrayCache(cache)))
        elif kind == "layoutkey":
            a = ak.Array(L.VirtualArray(L.ArrayGenerator(gen_of(k, lay), (), length=n, form=lay.form), L.ArrayCache(cache), "mine-%d" % k))
        elif kind == "ownkey":
            a = ak.virtual(gen_of(k, lay), length=n, cache=cache, cache_key="user-%d" % k)
        elif kind == "buffers":
            f, ln, c = ak.to_buffers(ak.Array(lay))
            c = {kk: np.array(v) for kk, v in c.items()}
            a = ak.from_buffers(f, ln, c, lazy=True, lazy_cache=cache)
        elif kind == "parts":
            p = ak.repartition(ak.Array(lay), max(1, n // 2))
            f, ln, c = ak.to_buffers(p)
            c = {kk: np.array(v) for kk, v in c.items()}
            a = ak.from_buffers(f, ln, c, lazy=True, lazy_cache=cache)
        elif kind == "columns":
            k2, vals2, lay2 = fresh()
            a = ak.Array({"x": ak.virtual(gen_of(k, lay), length=n, cache=cache), "y": ak.virtual(gen_of(k2, lay2), length=n, cache=cache)})
            vals = [{"x": v, "y": u} for v, u in zip(vals, vals2)]
        elif kind == "partitioned":
            k2, vals2, lay2 = fresh()
            a = ak.partitioned([ak.virtual(gen_of(k, lay), length=n, cache=cache), ak.virtual(gen_of(k2, lay2), length=n, cache=cache)])
            vals = vals + vals2
        elif kind == "nested":
            # a lazy table whose columns are lazy themselves
            k2, vals2, lay2 = fresh()

            def table():
                log.ev("gen", k, "table")
                return ak.zip({"x": ak.virtual(gen_of(k, lay), length=n, cache=cache),
                               "y": ak.virtual(gen_of(k2, lay2), length=n, cache=cache)}, depth_limit=1)
            a = ak.virtual(table, length=n, cache=cache)
            vals = [{"x": v, "y": u} for v, u in zip(vals, vals2)]
        ks = []
        keys(a.layout, ks)
        for key in ks:
            if key in issued:
                raise core.Violation("identity-reused", "%s %d got the cache identity of array %d" % (kind, k, issued[key]))
        for key in ks:
            issued[key] = k
        log.probe("identities", len(ks))
        log.ev("create", kind, k, len(ks))
        add(a, vals)

    def derive(kind, i, e):
        live = [p for p in pool if p[0] is not None]
        if not live:
            return
        a, m = live[i % len(live)]
        isrec = all(isinstance(v, dict) for v in m) and len(m) > 0
        if kind == "range":
            lo = e[0] % (len(m) + 1)
            hi = lo + e[1] % (len(m) - lo + 1)
            add(a[lo:hi], m[lo:hi])
        elif kind == "field" and isrec:
            f = sorted(m[0])[e[0] % len(m[0])]
            add(a[f], [v[f] for v in m])
        elif kind == "inner" and len(m) and isinstance(m[0], list) and all(isinstance(v, list) for v in m):
            add(a[:, :1], [v[:1] for v in m])
        elif kind == "at" and len(m):
            j = e[0] % len(m)
            x = a[j]
            if isinstance(m[j], list):
                add(x, m[j])
            else:
                check(x, m[j], "item %d" % j)
        elif kind == "copy":
            add(copy.copy(a), m)
        elif kind == "deepcopy":
            add(copy.deepcopy(a), m)
        elif kind == "akcopy":
            add(ak.copy(a), m)
        elif kind == "pickle":
            add(pickle.loads(pickle.dumps(a, -1)), m)
        elif kind == "with_cache":
            add(ak.with_cache(a, caches[e[0] % len(caches)]), m)
        elif kind == "repartition" and len(m):
            add(ak.repartition(a, e[0] % len(m) + 1), m)
        elif kind == "take" and len(m):
            idx = [x % len(m) for x in e[:3]]
            add(a[idx], [m[j] for j in idx])
        elif kind == "mask":
            b = [(e[0] >> j) & 1 == 1 for j in range(len(m))]
            add(a[np.array(b, dtype=bool)], [v for v, t in zip(m, b) if t])
        elif kind == "twice":
            lo = e[0] % (len(m) + 1)
            add(a[lo:], m[lo:])
            add(a[:lo], m[:lo])
        elif kind == "again":
            # the same slice twice: two lazy arrays of the same part
            lo = e[0] % (len(m) + 1)
            add(a[lo:], m[lo:])
            add(a[lo:], m[lo:])
        elif kind == "concat" and len(m):
            b, mb = live[e[0] % len(live)]
            if shape in ("flat", "list") and len(mb) and type(m[0]) is type(mb[0]) is int:
                add(ak.concatenate([a, b]), m + mb)
        elif kind == "zip" and len(m):
            b, mb = live[e[0] % len(live)]
            if len(mb) == len(m):
                add(ak.zip({"x": a, "y": b}, depth_limit=1), [{"x": u, "y": v} for u, v in zip(m, mb)])
        elif kind == "with_field" and isrec:
            b, mb = live[e[0] % len(live)]
            if len(mb) == len(m) and not isinstance(a.layout, ak.partition.PartitionedArray) and not isinstance(b.layout, ak.partition.PartitionedArray):
                add(ak.with_field(a, b, "w"), [dict(u, w=v) for u, v in zip(m, mb)])
        else:
            return
        log.ev("derive", kind)
        log.state(kind, type(a.layout).__name__, len(issued))

    def check(a, m, where):
        got = a if not isinstance(a, (ak.Array, ak.Record)) else ak.to_list(a)
        log.probe("compared")
        if data.canon(got) != data.canon(m):
            raise core.Violation("wrong-data", "%s: expected %s, got %s" % (where, str(m)[:300], str(got)[:300]))

    def body(t):
        def go():
            for kind, i, e in plan["threads"][t]:
                where = "thread %d %s" % (t, kind)
                if kind in CREATE:
                    create(kind, e)
                elif kind == "read":
                    live = [p for p in pool if p[0] is not None]
                    if live:
                        a, m = live[i % len(live)]
                        check(a, m, where)
                elif kind == "evict":
                    log.fault("evict_all")
                    caches[i % len(caches)].d.clear()
                elif kind == "drop":
                    if pool:
                        pool[i % len(pool)][0] = None
                else:
                    derive(kind, i, e)
        return go
    w.armed = True
    s.run([body(t) for t in range(len(plan["threads"]))])
    w.armed = False
    log.nontrivial = count[0] > 1
    for rounds in range(2):
        for j, (a, m) in enumerate(pool):
            if a is not None:
                check(a, m, "finally array %d" % j)


def simplify(plan):
    for key, v in (("trace", 0), ("capacity", None), ("ncaches", 1), ("shape", "flat"), ("n", 2)):
        if plan[key] != v:
            yield dict(plan, **{key: v})
    for i, t in enumerate(plan["threads"]):
        for j in range(len(t)):
            yield dict(plan, threads=plan["threads"][:i] + [t[:j] + t[j + 1:]] + plan["threads"][i + 1:])
