"""C10: arrays stored as named buffers come back intact or not at all."""
import json
import pickle
import random
from collections.abc import MutableMapping

from sim import core, data, ops, world
from sim.props import c01, c02, c14

TIMEOUT = 60.0
SHRINK_LISTS = ["ops", "wsched", "rsched", "damage", "cuts", "values"]
_ak = _np = None
EXCLUDE = c01.EXCLUDE | {"to_regular"}      # looks at unreachable rows of columns, which are not stored


def template():
    global _ak, _np
    import awkward as ak
    import numpy as np
    _ak, _np = ak, np
    c14.template()


def gen(rng, tier):
    s = data.rand_schema(rng, rng.choice([0, 1, 2, 2, 3]), None)
    if rng.random() < 0.4 and s[0] != "rec":
        s = ["rec", [["x", s], ["y", ["f64"]]]]
    n = rng.choice([0, 1, 2, 3, 5, 8])
    mode = rng.choice(["whole", "whole", "whole", "parts", "bypart", "pickle", "buffers_of_slice"])
    pw = rng.choice([0, 0, 0.1, 0.4])
    pr = rng.choice([0, 0, 0.1, 0.3, 0.6])
    kinds = rng.sample([1, 2, 3, 4], rng.choice([1, 2, 4]))
    allowed = [o for o in ops.swarm(rng) if o not in EXCLUDE]
    return {"schema": s, "values": data.rand_data(rng, s, n), "layout": rng.randrange(10**9), "exotic": rng.choice([0, 0.3, 0.7, 1]),
            "mode": mode, "lazy": rng.random() < 0.5, "cuts": [rng.randint(0, n) for _ in range(rng.choice([0, 1, 2, 4]))] if mode in ("parts", "bypart") else [],
            "slice": [rng.randint(0, n), rng.randint(0, n)], "pstart": rng.choice([0, 0, 1, 7]),
            "keyfmt": rng.randrange(4), "formkey": rng.randrange(4), "formas": rng.randrange(3), "hold": rng.randrange(5),
            "cache": rng.randrange(4), "capacity": rng.choice([None, 1, 2]), "proto": rng.choice([2, 3, 4, 5]), "virtual_src": rng.choice([0, 0, 0.5]),
            "wsched": [rng.choice(kinds) if rng.random() < pw else 0 for _ in range(20)],
            "rsched": [[rng.choice(kinds), rng.random()] if rng.random() < pr else 0 for _ in range(rng.choice([10, 40]))],
            "damage": [[rng.randrange(100), rng.choice(["lose", "cut", "cut", "empty"]), rng.random()] for _ in range(rng.choice([0, 0, 1, 1, 2]))],
            "ops": [[ops.choose(rng, allowed), rng.randrange(1 << 16), rng.randrange(1 << 16), ops.entropy(rng)] for _ in range(rng.choice([0, 2, 4]))]}


class StoreError(Exception):
    pass


class Store(MutableMapping):
    """The user's store of named buffers.  Keeps what was written as its own copy."""

    def __init__(self, log, hold):
        self.log, self.hold, self.d = log, hold, {}
        self.wsched, self.rsched, self.wi, self.ri = [], [], 0, 0
        self.faults = 0
        self.written = []

    def arm(self, wsched=(), rsched=()):
        self.wsched, self.rsched, self.wi, self.ri = list(wsched), list(rsched), 0, 0

    def __setitem__(self, key, value):
        if not isinstance(key, str):
            raise core.Violation("bad-key", repr(key))
        d = self.wsched[self.wi] if self.wi < len(self.wsched) else 0
        self.wi += 1
        self.log.ev("put", key, value.nbytes, d)
        if d in (1, 2):
            self.faults += 1
            self.log.fault("write_error" if d == 1 else "write_interrupt")
            raise (StoreError if d == 1 else world.SourceInterrupt)(key)
        if d in (3, 4):
            self.faults += 1
            self.log.fault("torn_write")        # part of it reaches the store, then the writer dies
            self.d[key] = value.tobytes()[:value.nbytes // 2]
            raise world.SourceInterrupt(key)
        self.written.append(key)
        self.d[key] = value.tobytes()

    def __getitem__(self, key):
        d = self.rsched[self.ri] if self.ri < len(self.rsched) else 0
        self.ri += 1
        b = self.d.get(key)
        if d:
            kind, frac = d
            if kind == 1 or kind == 2:
                self.faults += 1
                self.log.fault("read_error" if kind == 1 else "read_interrupt")
                self.log.ev("get", key, "fail")
                raise (StoreError if kind == 1 else world.SourceInterrupt)(key)
            if kind == 3:
                self.faults += 1
                self.log.fault("read_missing")
                self.log.ev("get", key, "missing")
                raise KeyError(key)
            if kind == 4 and b:
                self.faults += 1
                self.log.fault("short_read")
                b = b[:int(frac * len(b))]
        self.log.ev("get", key, None if b is None else len(b))
        if b is None:
            raise KeyError(key)
        if self.hold == 0:
            return _np.frombuffer(b, dtype=_np.uint8)
        if self.hold == 1:
            return b
        if self.hold == 2:
            return bytearray(b)
        if self.hold == 3:
            return memoryview(b)
        return _np.frombuffer(b, dtype=_np.uint8).copy()

    def __delitem__(self, key):
        del self.d[key]

    def __iter__(self):
        return iter(sorted(self.d))

    def __len__(self):
        return len(self.d)


KEYFMT = ["part{partition}-{form_key}-{attribute}", "{form_key}/{attribute}/{partition}", "x{attribute}:{partition}:{form_key}", None]
FORMKEY = ["node{id}", "{id}", "a{id}b", None]


def formats(plan):
    kf = KEYFMT[plan["keyfmt"]]
    fk = FORMKEY[plan["formkey"]]
    if kf is None:
        kf = lambda partition, form_key, attribute: "%s|%s|%s" % (attribute, partition, form_key)
    if fk is None:
        fk = lambda **v: "F" + v["id"]
    return kf, fk


def norm(v, loose=False):
    """Types up to the spelling of the schema: what is stored is exactly what was given, so nothing is loosened."""
    return c01.value(v, loose)


def attempt(f):
    return c02.outcome(f)


def check(want, got, where, faulty):
    """want: ('ok', value); got: outcome.  A fault may turn the outcome into an error, never into another value."""
    if got[0] == "err":
        if not faulty:
            raise core.Violation("outcome-differs", "%s: %s" % (where, str(got)[:500]))
        return False
    if got[1][0] != want[0]:
        raise core.Violation("value-differs", "%s: stored %s, got %s" % (where, want[0][:500], got[1][0][:500]))
    if got[1][1] != want[1]:
        raise core.Violation("type-differs", "%s: stored %s, got %s" % (where, want[1][:300], got[1][1][:300]))
    return True


def dopickle(plan, array, want, log):
    b = pickle.dumps(array, plan["proto"])
    log.ev("pickle", len(b))
    for _, kind, frac in plan["damage"]:
        cut = b[:int(frac * len(b))]
        log.fault("truncated_pickle")
        check(want, attempt(lambda: norm(pickle.loads(cut))), "a truncated pickle", True)
    check(want, attempt(lambda: norm(pickle.loads(b))), "pickle", False)
    c = pickle.loads(pickle.dumps(pickle.loads(b), plan["proto"]))
    check(want, attempt(lambda: norm(c)), "twice pickled", False)
    if isinstance(array, _ak.Array) and len(array) and "union" not in want[1][:20]:
        one = attempt(lambda: array[len(array) // 2])
        if one[0] == "ok" and isinstance(one[1], (_ak.Array, _ak.Record)):
            w1 = norm(one[1])
            check(w1, attempt(lambda: norm(pickle.loads(pickle.dumps(one[1], plan["proto"])))), "pickled element", False)
            log.probe("pickled_element")


def execute(plan, log):
    ak, np = _ak, _np
    vals, s = plan["values"], plan["schema"]
    log.nontrivial = True
    lay = data.layout(vals, s, plan["layout"], plan["exotic"])
    edges = [0] + sorted(min(c, len(vals)) for c in plan["cuts"]) + [len(vals)]
    mode = plan["mode"]
    w = world.World(log)
    if mode == "buffers_of_slice":
        a, b = sorted(plan["slice"])
        lay = lay[min(a, len(vals)):min(b, len(vals))]
        array = ak.Array(lay)
    elif mode in ("parts", "bypart"):
        parts = [data.layout(vals[a:b], s, plan["layout"], plan["exotic"]) for a, b in zip(edges[:-1], edges[1:])]
        array = ak.Array(ak.partition.IrregularlyPartitionedArray(parts))
    else:
        lz = None
        if plan["virtual_src"]:
            lz = world.Lazy(w, [], random.Random(plan["layout"]), plan["virtual_src"], 1, 1, True, 1)
            lay = data.layout(vals, s, plan["layout"], plan["exotic"], lz)
        array = ak.Array(lay)
    want = norm(array)
    log.ev("array", want[0][:200], want[1])
    if mode == "pickle":
        dopickle(plan, array, want, log)
        check(want, attempt(lambda: norm(array)), "the source array afterwards", False)
        return
    kf, fk = formats(plan)
    store = Store(log, plan["hold"])
    pstart = plan["pstart"]

    def save():
        del store.written[:]
        if mode == "bypart":
            got = []
            for i, p in enumerate(array.layout.partitions):
                got.append(ak.to_buffers(ak.Array(p), store, partition_start=pstart + i, form_key=fk, key_format=kf)[:2])
        else:
            got = [ak.to_buffers(array, store, partition_start=pstart, form_key=fk, key_format=kf)[:2]]
        if len(set(store.written)) != len(store.written):
            raise core.Violation("key-written-twice", str(sorted(store.written))[:400])
        return got

    # a writer that dies part-way is run again, as after a crash, until it gets through
    sched = list(plan["wsched"])
    saved = None
    for _ in range(len(sched) + 1):
        store.arm(sched)
        r = attempt(save)
        if r[0] == "ok":
            if store.wi <= len(sched) and any(sched[:store.wi]):
                raise core.Violation("fault-swallowed", "a write failed and to_buffers returned")
            saved = r[1]
            break
        sched = sched[store.wi:]
        if r[1] not in ("StoreError", "SourceInterrupt"):
            if mode == "parts" and r[1] == "ValueError" and "form" in r[2].lower():
                log.probe("forms_differ")
                return
            raise core.Violation("outcome-differs", "to_buffers: %s" % (r,))
        log.probe("rewritten")
    store.arm()
    check(want, attempt(lambda: norm(array)), "the source array after to_buffers", False)
    if mode == "bypart" and len(set(str(f) for f, _ in saved)) == 1 and len(saved) > 1:
        log.probe("joined_partitions")
        saved = [(saved[0][0], [n for _, n in saved])]
    nodes = set()
    for form, _ in saved:
        nodes.update(c for c in json.loads(form.tojson(False, True)).get("class", "").split())
    log.state(mode, plan["lazy"], plan["hold"], sorted(nodes), want[1][:80])

    def formarg(form):
        if plan["formas"] == 0:
            return form
        if plan["formas"] == 1:
            return form.tojson(False, True)
        return json.loads(form.tojson(False, True))

    cache = world.SimCache(w, "c", plan["capacity"])
    keep = []

    def load():
        out = []
        for i, (form, n) in enumerate(saved):
            kw = {}
            if plan["lazy"]:
                kw["lazy"] = True
                kw["lazy_cache"] = [cache, "new", None, cache][plan["cache"]]
                if plan["cache"] == 3:
                    kw["lazy_cache_key"] = "mine%d-%d" % (i, len(keep))
                    keep.append(0)
            out.append(ak.from_buffers(formarg(form), n, store, partition_start=pstart + i, key_format=kf, **kw))
        if len(out) == 1:
            return out[0]
        return ak.Array(ak.partition.IrregularlyPartitionedArray([x.layout for x in out]))

    def whole():
        return norm(load())

    # 1. a healthy store
    check(want, attempt(whole), "rebuilt", False)
    log.probe("rebuilt")
    # 2. reads that fail now and then; the same array object is retried after recovery
    if plan["rsched"]:
        f0 = store.faults
        store.arm((), plan["rsched"])
        a = attempt(load)
        if a[0] == "ok":
            v = attempt(lambda: norm(a[1]))
            check(want, v, "rebuilt from a store failing now and then", store.faults > f0)
            if v[0] == "err":
                log.probe("failed_use")
            store.arm()
            check(want, attempt(lambda: norm(a[1])), "the same array after the store recovered", False)
            if store.faults > f0:
                log.probe("recovered")
        else:
            if store.faults == f0:
                raise core.Violation("outcome-differs", "from_buffers raised on a healthy store: %s" % (a,))
            log.probe("failed_rebuild")
        store.arm()
    # 3. buffers lost or cut short for good, then brought back
    if plan["damage"] and store.d:
        good = dict(store.d)
        keys = sorted(good)
        for k, kind, frac in plan["damage"]:
            key = keys[k % len(keys)]
            log.fault("buffer_" + kind)
            if kind == "lose":
                store.d.pop(key, None)
            elif key in store.d:
                store.d[key] = store.d[key][:0 if kind == "empty" else int(frac * len(store.d[key]))]
            log.ev("damage", key, kind, len(store.d.get(key, b"")))
        a = attempt(load)
        hurt = store.d != good
        if a[0] == "ok":
            if not check(want, attempt(lambda: norm(a[1])), "rebuilt from a damaged store (%s)" % (plan["damage"],), hurt):
                log.probe("damage_reported")
            store.d = good
            check(want, attempt(lambda: norm(a[1])) if plan["lazy"] else attempt(whole), "the same array after the store was repaired", False)
        else:
            if not hurt:
                raise core.Violation("outcome-differs", "from_buffers raised on a healthy store: %s" % (a,))
            log.probe("damage_reported")
            store.d = good
        check(want, attempt(whole), "rebuilt after the store was repaired", False)
    # 4. the rebuilt array behaves like the original, also while reads fail
    twin = load()
    for k, (name, i, j, e) in enumerate(plan["ops"]):
        f = ops.resolve(name, e, array)
        if f is None or c01.skip(name, array, array) or (mode in ("parts", "bypart") and c14.skip(name, array, array, e)):
            continue
        loose = name in c01.MERGY
        where = "op %d %s e=%s" % (k, name, e)
        _, ve = c02.run(f, array, array, loose)
        f0 = store.faults
        store.arm((), plan["rsched"][k * 5:])
        _, vl = c02.run(f, twin, twin, loose)
        store.arm()
        log.ev("op", k, name, ve[0], vl[0])
        if store.faults > f0:
            log.probe("op_hit_by_fault")
            if vl[0] == "ok":
                c02.same(name, ve, vl, where + " (returned although a read failed)")
            _, vl = c02.run(f, twin, twin, loose)
        c02.same(name, ve, vl, where)
        log.probe("op_compared")
    check(want, attempt(lambda: norm(array)), "the source array at the end", False)


def simplify(plan):
    for k, v in (("exotic", 0), ("lazy", False), ("hold", 0), ("keyfmt", 0), ("formkey", 0), ("formas", 0), ("virtual_src", 0), ("pstart", 0), ("cache", 0), ("capacity", None)):
        if plan[k] != v:
            yield dict(plan, **{k: v})
    for i in range(len(plan["values"])):
        yield dict(plan, values=plan["values"][:i] + plan["values"][i + 1:])
