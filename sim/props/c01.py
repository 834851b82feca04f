"""C01: lazy twin == eager twin under any cache behaviour."""
import random
import re

from sim import core, data, ops, world

TIMEOUT = 60.0
SHRINK_LISTS = ["ops", "sched", "values"]
_ak = None


def template():
    global _ak
    import awkward as ak
    _ak = ak
    ops.init()


SLICY = {"jagged_mask", "jagged_rev", "take_none", "tuple_index"}   # unsupported index shapes: only that both refuse
MERGY = {"where", "concat"}     # in a union, numbers of a lazy part may keep their own numeric type
LOOSE = MERGY | {"fill_none"}
EXCLUDE = {"repartition", "with_parameter"}


def gen(rng, tier):
    ops.OPS or ops.init()
    s = data.rand_schema(rng, rng.choice([0, 1, 2, 2, 3]), {"leafs": ["i64", "f64", "bool", "i32", "f32", "u8", "str"]})
    if rng.random() < 0.4 and s[0] != "rec":
        s = ["rec", [["x", s], ["y", ["f64"]]]]
    n = rng.choice([0, 1, 2, 3, 5, 8])
    allowed = [o for o in ops.swarm(rng) if o not in EXCLUDE]
    nops = rng.choice([3, 5, 8, 12])
    pf = rng.choice([0, 0.1, 0.3, 0.7])
    return {"schema": s, "values": data.rand_data(rng, s, n), "layout": rng.randrange(10**9),
            "exotic": rng.choice([0, 0.3, 0.7]), "lazy": rng.randrange(10**9),
            "prob": rng.choice([0.15, 0.4, 0.8, 1.0]), "form": rng.choice([0, 0.5, 1]), "length": rng.choice([0.5, 1, 1]),
            "cacheless": rng.choice([0, 0, 0.3, 1]), "ncaches": rng.randint(1, 2),
            "capacity": rng.choice([None, None, 1, 2, 3]), "top": rng.random() < 0.6,
            "ops": [[ops.choose(rng, allowed), rng.randrange(1 << 16), rng.randrange(1 << 16), ops.entropy(rng)] for _ in range(nops)],
            "sched": [rng.choice([1, 2, 3, 4]) if rng.random() < pf else 0 for _ in range(rng.choice([20, 60]))]}


def build(plan, log, faults):
    w = world.World(log, plan["sched"], faults)
    caches = [world.SimCache(w, "c%d" % i, plan["capacity"]) for i in range(plan["ncaches"])]
    lz = world.Lazy(w, caches, random.Random("lazy%d" % plan["lazy"]), plan["prob"], plan["form"], plan["length"],
                    plan["top"], plan["cacheless"])
    eager = data.layout(plan["values"], plan["schema"], plan["layout"], plan["exotic"])
    lazy = data.layout(plan["values"], plan["schema"], plan["layout"], plan["exotic"], lz)
    return w, caches, lz, eager, lazy


def value(x, loose=False):
    """Canonical (value, type) of a result."""
    ak = _ak
    if isinstance(x, (ak.Array, ak.Record)):
        v = ak.to_list(x)
        return data.canon(data.loosen(v) if loose else v), data.normtype(ak.type(x))
    return data.canon(x), type(x).__name__


def typeloose(name, a, b):
    """Unions may be spelled merged or unmerged; of an empty result only the emptiness is settled."""
    u = ("union" in a[1]) + ("union" in b[1])
    if name == "tuple_index" and a[1].replace("?", "") == b[1].replace("?", ""):
        return True         # an option type without missing items may be dropped
    return u == 2 or (u == 1 and name in LOOSE) or a[0] == "[]"


def skip(name, pe, oe):
    """How zero-length fixed-size dimensions broadcast is not settled."""
    if name == "arith_fields" and (not isinstance(pe, _ak.Array) or len(pe) == 0):
        return True
    if name in ("sort", "argsort") and ("?" in ops.typestr(pe) or "option" in ops.typestr(pe)):
        return True         # refused or not depending on how the option is represented (a limitation of sorting)
    if name in ("is_none", "cartesian", "concat"):    # inner dimensions of NumPy data are treated differently, eagerly
        return re.search(r"\* (option\[|\?)?\d+ \*", str(_ak.type(pe))) is not None
    return name == "arith2" and not all(isinstance(y, _ak.Array) and len(y) > 0 for y in (pe, oe))


def unsettled(v, a, b):
    """Results that are not operated on further: dimensions of size zero (broadcasting them is not settled,
    and not a question of laziness); same type spelled with differently nested options or lists."""
    t = ops.typestr(a)
    return bool(re.search(r"[\*\[] ?0 \*", t)) or (v[0] == "[]" and "*" in t[4:]) or t != ops.typestr(b)


def step(name, e, pe, pl, log, k, pool):
    f = ops.resolve(name, e, pe)
    if f is None:
        log.ev("skip", name)
        return
    oe, ol = pool[1]
    if skip(name, pe, oe):
        return
    log.ev("op", k, name)
    re_ = ops.outcome(f, pe, oe)
    rl = ops.outcome(f, pl, ol)
    loose = name in MERGY
    ve = ops.outcome(value, re_[1], loose) if re_[0] == "ok" else re_
    vl = ops.outcome(value, rl[1], loose) if rl[0] == "ok" else rl
    log.ev("res", re_[0], ve[0], str(ve[1])[:200])
    where = "op %d %s e=%s" % (k, name, e)
    if ve[0] != vl[0]:
        raise core.Violation("outcome-differs", "%s: eager %s, lazy %s" % (where, str(ve)[:400], str(vl)[:400]))
    if ve[0] == "err":
        log.probe("both_raise")
        if ve[1] != vl[1] and name not in SLICY:
            raise core.Violation("error-differs", "%s: eager %s, lazy %s" % (where, str(ve)[:400], str(vl)[:400]))
        return
    if ve[1][0] != vl[1][0]:
        raise core.Violation("value-differs", "%s: eager %s, lazy %s" % (where, ve[1][0][:500], vl[1][0][:500]))
    if ve[1][1] != vl[1][1] and not typeloose(name, ve[1], vl[1]):
        raise core.Violation("type-differs", "%s: eager %s, lazy %s" % (where, ve[1][1][:300], vl[1][1][:300]))
    log.probe("compared")
    if unsettled(ve[1], re_[1], rl[1]):
        log.probe("type_spelling")
        return None
    return re_[1], rl[1]


def execute(plan, log):
    ak = _ak
    w, caches, lz, eager, lazy = build(plan, log, ("evict", "lose", "forget"))
    log.nontrivial = log.nontrivial or lz.count > 0
    pool = [(ak.Array(eager), ak.Array(lazy))]
    w.armed = True
    want = data.canon(data.plain_all(plan["values"], plan["schema"]))
    for k, (name, i, j, e) in enumerate(plan["ops"]):
        pe, pl = pool[i % len(pool)]
        other = pool[j % len(pool)]
        r = step(name, e, pe, pl, log, k, (None, other))
        if r is not None and isinstance(r[0], (ak.Array, ak.Record)) and len(pool) < 12:
            pool.append(r)
            log.state(name, str(type(r[1].layout).__name__), w.i > 0, len(r[0]) if isinstance(r[0], ak.Array) else -1,
                      tuple(len(c.d) for c in caches))
    r = ops.outcome(ak.to_list, pool[0][1])
    if r[0] != "ok" or data.canon(r[1]) != want:
        raise core.Violation("value-differs", "finally: %s vs %s" % (str(r)[:500], want[:500]))


def simplify(plan):
    for key, v in (("exotic", 0), ("prob", 1.0), ("form", 0), ("form", 1), ("cacheless", 0), ("capacity", None), ("ncaches", 1), ("top", False),
                   ("length", 1)):
        if plan[key] != v:
            yield dict(plan, **{key: v})
    s = plan["schema"]
    if s[0] == "rec" and len(s[1]) > 1:
        for i in range(len(s[1])):
            yield dict(plan, schema=["rec", s[1][:i] + s[1][i + 1:]], values=[v[:i] + v[i + 1:] for v in plan["values"]])
