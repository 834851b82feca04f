"""C03: lazy data are read only when needed, and only once while cached."""
import gc
import json
import random
import weakref

from sim import core, data, ops, world
from sim.props import c01

TIMEOUT = 60.0
SHRINK_LISTS = ["ops", "sched", "values"]
_ak = None
READS = ["to_list", "sum", "arith", "mask", "take", "iterate", "to_json", "at", "str_", "is_none", "copy_", "num", "concat",
         "packed", "pickle", "materialized", "fill_none", "local_index", "firsts", "len2"]


def template():
    global _ak
    import awkward as ak
    _ak = ak
    c01.template()


def gen(rng, tier):
    n = rng.choice([0, 1, 2, 3, 5, 8])
    names = rng.sample(data.FIELDS, rng.randint(1, 4))
    s = ["rec", [[f, data.rand_schema(rng, rng.choice([0, 1, 2]), {"uni": False})] for f in names]]
    p = rng.choice([0, 0, 0.1, 0.3])
    out = []
    for _ in range(rng.choice([4, 8, 14])):
        k = rng.choice(["field", "field", "fields", "range", "range", "type", "len", "keys", "read", "read", "drop", "gc", "copy", "numfields"])
        out.append([k, rng.randrange(1 << 16), ops.entropy(rng), rng.choice(READS)])
    return {"schema": s, "values": data.rand_data(rng, s, n), "layout": rng.randrange(10**9), "exotic": rng.choice([0, 0.3, 0.7]),
            "lazy": rng.randrange(10**9), "prob": rng.choice([0.5, 1.0]), "top": rng.random() < 0.5,
            "mode": rng.choice(["virtual", "virtual", "buffers", "parts"]), "hold": rng.random() < 0.5,
            "ops": out, "sched": [rng.choice([1, 2]) if rng.random() < p else 0 for _ in range(40)]}


class Sources(object):
    """Notes every read of a source and judges it."""

    def __init__(self, log):
        self.log, self.reads, self.known = log, [], {}


class Store(object):
    """A mapping of buffers that notes what is read."""

    def __init__(self, d, where, notes):
        self.d, self.where, self.notes = d, where, notes

    def __getitem__(self, key):
        self.notes.append(self.where[key])
        return self.d[key]


def paths_of_buffers(form, container, parts):
    """buffer name -> path of the node it belongs to"""
    key2path = {}

    def walk(f, path):
        key2path[f["form_key"]] = path
        if f["class"] == "RecordArray":
            it = f["contents"].items() if isinstance(f["contents"], dict) else enumerate(f["contents"])
            for k, c in it:
                walk(c, path + "/" + str(k))
        elif "contents" in f:
            for i, c in enumerate(f["contents"]):
                walk(c, path + "/u%d" % i)
        elif "content" in f:
            walk(f["content"], path)
    walk(json.loads(form.tojson(False, True)), "")
    out = {}
    for k in container:
        part, fk, attr = k.split("-", 2)
        out[k] = key2path[fk]
    return out


def related(a, b):
    a, b = ("".join("/" + x for x in p.split("/") if x in data.FIELDS) + "/" for p in (a, b))
    return a.startswith(b) or b.startswith(a)


def execute(plan, log):
    ak = _ak
    import numpy as np
    eager = data.layout(plan["values"], plan["schema"], plan["layout"], plan["exotic"])
    notes = []          # paths read
    w = world.World(log, plan["sched"], ("evict",))
    cache = world.SimCache(w, "c0")
    once = {}

    class NotingLazy(world.Lazy):
        def __call__(self, layout, path, schema):
            r = [self.rng.random() for _ in range(6)]
            # record columns and, if asked, the whole array; below an option record, columns are found only by reading
            if (path == "" and not plan["top"]) or r[0] >= self.prob or not world.declarable(layout.form):
                return layout
            L = ak.layout
            box = {}
            name = "%d%s" % (self.count, path)
            self.count += 1

            def generate():
                notes.append(path)
                log.ev("gen", name)
                c = cref()
                if c is not None and box["key"] in c.d:
                    raise core.Violation("generated-while-cached", "source %s is generated while the cache holds it" % name)
                return layout
            g = L.ArrayGenerator(generate, (), form=layout.form, length=len(layout))
            v = L.VirtualArray(g, L.ArrayCache(cache))
            box["key"] = v.cache_key
            return v

    cref = weakref.ref(cache)
    if plan["mode"] == "virtual":
        lz = NotingLazy(w, [cache], random.Random("lazy%d" % plan["lazy"]), plan["prob"])
        lazy = ak.Array(data.layout(plan["values"], plan["schema"], plan["layout"], plan["exotic"], lz))
        log.nontrivial = log.nontrivial or lz.count > 0
    else:
        src = ak.Array(eager)
        if plan["mode"] == "parts" and len(src) > 1:
            src = ak.repartition(src, 1 + plan["lazy"] % 3)
        form, length, cont = ak.to_buffers(src)
        store = Store(cont, paths_of_buffers(form, cont, length), notes)
        lazy = ak.from_buffers(form, length, store, lazy=True, lazy_cache=cache)
        log.nontrivial = True
        del src
    if notes:
        raise core.Violation("read-too-early", "constructing read %s" % notes)
    if not plan["hold"]:
        del cache
    w.armed = True
    # pool entries: eager twin, lazy twin, columns it may read
    pool = [(ak.Array(eager), lazy, [""], "")]
    del lazy
    for k, (kind, i, e, how) in enumerate(plan["ops"]):
        n = i % len(pool)
        pe, pl, cols, base = pool[n]
        del notes[:]
        where = "op %d %s" % (k, kind)
        fs = ops._fields(pe)
        log.ev("op", k, kind)
        if kind in ("field", "fields") and not fs:
            continue
        if kind == "field":
            f = fs[e[0] % len(fs)]
            new = (pe[f], pl[f], [base + "/" + f], base + "/" + f)
        elif kind == "fields":
            ks = list(dict.fromkeys(fs[x % len(fs)] for x in e[:2]))
            new = (pe[ks], pl[ks], [base + "/" + f for f in ks], base)
        elif kind == "range":
            s = ops._slice(len(pe), [e[0], e[1], 0])
            new = (pe[s], pl[s], cols, base)
        elif kind == "copy":
            import copy
            new = (copy.copy(pe), copy.copy(pl), cols, base)
        elif kind == "type":
            if data.normtype(ak.type(pe)) != data.normtype(ak.type(pl)):
                raise core.Violation("type-differs", "%s: %s, %s" % (where, ak.type(pe), ak.type(pl)))
            new = None
        elif kind == "len":
            if len(pe) != len(pl):
                raise core.Violation("length-differs", "%s: %d, %d" % (where, len(pe), len(pl)))
            new = None
        elif kind in ("keys", "numfields"):
            if list(ak.fields(pe)) != list(ak.fields(pl)):
                raise core.Violation("fields-differ", where)
            new = None
        elif kind == "gc":
            gc.collect()
            new = None
        elif kind == "drop":
            if len(pool) > 1:
                pool.pop(n)
            new = None
        else:
            # reading: only the selected columns, and only what the cache does not hold
            if how == "len2":
                how = "to_list"
            if how == "sum":
                how = "red_sum"
            f = ops.resolve(how, e, pe)
            if f is None or c01.skip(how, pe, pe):
                continue
            a = ops.outcome(lambda: c01.value(f(pe, pe), True))
            try:
                b = ("ok", c01.value(f(pl, pl), True))
            except core.Violation:
                raise
            except Exception as ex:
                b = ("err", type(ex).__name__, str(ex))
            if a[0] != b[0] or (a[0] == "ok" and a[1][0] != b[1][0]):
                raise core.Violation("value-differs", "%s %s: eager %s, lazy %s" % (where, how, str(a)[:300], str(b)[:300]))
            log.probe("read")
            for p in notes:
                if not any(related(p, c) for c in cols):
                    raise core.Violation("read-too-much", "%s %s on columns %s read %s" % (where, how, cols, p))
            log.probe("columns_not_read", 1 if cols != [""] else 0)
            if "buffers" == plan["mode"] or "parts" == plan["mode"]:
                c = cref()
                log.ev("cached", -1 if c is None else len(c.d))
            log.state(how, tuple(sorted(set(notes))), tuple(cols))
            if a[0] == "ok" and how == "to_list" and not log.faults:
                # nothing was evicted: a second look at the same array must not read at all
                del notes[:]
                ak.to_list(pl)
                if notes and not log.faults:
                    raise core.Violation("read-again", "%s: a second to_list read %s again" % (where, sorted(set(notes))))
                log.probe("second_look")
            continue
        if notes:
            raise core.Violation("read-too-early", "%s on %s read %s" % (where, type(pl.layout).__name__, notes))
        log.probe("no_read_op")
        if new is not None and len(pool) < 10 and isinstance(new[0], ak.Array):
            pool.append(new)
        del pe, pl, new


def simplify(plan):
    for key, v in (("exotic", 0), ("prob", 1.0), ("top", False), ("mode", "virtual"), ("hold", True)):
        if plan[key] != v:
            yield dict(plan, **{key: v})
    s = plan["schema"]
    if len(s[1]) > 1:
        for i in range(len(s[1])):
            yield dict(plan, schema=["rec", s[1][:i] + s[1][i + 1:]], values=[v[:i] + v[i + 1:] for v in plan["values"]])
