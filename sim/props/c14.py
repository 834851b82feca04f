"""C14: splitting an array into partitions is invisible."""
import random
import re

from sim import core, data, ops, world
from sim.props import c01, c02

TIMEOUT = 60.0
SHRINK_LISTS = ["ops", "sched", "cuts"]
_ak = _np = None
EXCLUDE = c01.EXCLUDE - {"repartition"}
FAULTS = ("evict", "forget", "gen", "interrupt", "short", "storefail")


def template():
    global _ak, _np
    import awkward as ak
    import numpy as np
    _ak, _np = ak, np
    c02.template()


def gen(rng, tier):
    plan = c01.gen(rng, tier)
    n = rng.choice([0, 1, 2, 3, 5, 8, 12])
    plan["values"] = data.rand_data(rng, plan["schema"], n)
    allowed = [o for o in ops.swarm(rng) if o not in EXCLUDE]
    if rng.random() < 0.5:
        allowed.append("repartition")
    plan["ops"] = [[ops.choose(rng, allowed), rng.randrange(1 << 16), rng.randrange(1 << 16), ops.entropy(rng)] for _ in range(rng.choice([3, 5, 8, 12]))]
    k = rng.choice([0, 1, 2, 3, 6])
    plan["cuts"] = [rng.randint(0, n) for _ in range(k)]
    plan["how"] = rng.choice(["lazy", "lazy", "eager", "eager", "eager", "repartition", "slices"])
    pf = rng.choice([0, 0, 0.1, 0.3, 0.6]) if plan["how"] == "lazy" else 0
    plan["sched"] = [rng.choice([1, 2, 3, 4, 5]) if rng.random() < pf else 0 for _ in range(rng.choice([20, 60, 120]))]
    return plan


def split(plan, w, caches, log):
    """The same data as one array and as partitions."""
    ak = _ak
    vals, s = plan["values"], plan["schema"]
    whole = data.layout(vals, s, plan["layout"], plan["exotic"])
    cuts = sorted(min(c, len(vals)) for c in plan["cuts"])
    edges = [0] + cuts + [len(vals)]
    lz = None
    if plan["how"] == "repartition":
        out = ak.Array(whole)
        if len(vals):
            out = ak.repartition(out, max(1, len(vals) // (len(cuts) + 1)))
        return whole, out, lz
    parts = []
    if plan["how"] == "lazy":
        lz = world.Lazy(w, caches, random.Random("lazy%d" % plan["lazy"]), plan["prob"], plan["form"], plan["length"], True, plan["cacheless"])
    for i, (a, b) in enumerate(zip(edges[:-1], edges[1:])):
        if plan["how"] == "slices":
            parts.append(whole[a:b])
        else:
            parts.append(data.layout(vals[a:b], s, plan["layout"], plan["exotic"], lz))
        if b == a:
            log.probe("empty_partition")
    return whole, ak.Array(ak.partition.IrregularlyPartitionedArray(parts)), lz


def execute(plan, log):
    ak = _ak
    w = world.World(log, plan["sched"], FAULTS)
    caches = [world.SimCache(w, "c%d" % i, plan["capacity"]) for i in range(plan["ncaches"])]
    whole, part, lz = split(plan, w, caches, log)
    log.nontrivial = len(plan["cuts"]) > 0
    pool = [(ak.Array(whole), part)]
    c02.same("", c02.outcome(c01.value, pool[0][0], True), c02.outcome(c01.value, part, True), "at first")
    for k, (name, i, j, e) in enumerate(plan["ops"]):
        pe, pl = pool[i % len(pool)]
        oe, ol = pool[j % len(pool)]
        f = ops.resolve(name, e, pe)
        if f is None or c01.skip(name, pe, oe) or skip(name, pe, oe, e) or skip(name, pl, ol, e):
            continue
        where = "op %d %s e=%s" % (k, name, e)
        loose = name in c01.LOOSE or name == "take_none"
        re_, ve = c02.run(f, pe, oe, loose)
        before = w.live_faults
        w.armed = True
        rl, vl = c02.run(f, pl, ol, loose)
        w.armed = False
        log.ev("op", k, name, ve[0], vl[0])
        if w.live_faults > before:
            log.probe("op_hit_by_fault")
            if vl[0] == "err":
                log.probe("reported")
            else:
                c02.same(name, ve, vl, where + " (returned normally although a partition failed)")
            if rl[0] == "ok" and not refused(ve, c02.outcome(c01.value, rl[1], loose)):
                c02.same(name, ve, c02.outcome(c01.value, rl[1], loose), where + " (re-reading the result after recovery)")
            rl, vl = c02.run(f, pl, ol, loose)
        if refused(ve, vl):
            log.probe("refused")
            continue
        c02.same(name, noopt(name, ve), noopt(name, vl), where)
        log.probe("compared")
        log.state(name, ve[0], type(getattr(pl, "layout", None)).__name__, type(getattr(rl[1], "layout", None)).__name__ if rl[0] == "ok" else "")
        if ve[0] == "ok" and not c01.unsettled(ve[1], re_[1], rl[1]) and isinstance(re_[1], (ak.Array, ak.Record)) and len(pool) < 12:
            pool.append((re_[1], rl[1]))
    for n, (pe, pl) in enumerate(pool):
        c02.same("", c02.outcome(c01.value, pe, True), c02.outcome(c01.value, pl, True), "finally, array %d" % n)


def refused(ve, vl):
    """Partitions whose types differ (an option, union or dimension that only some have) are refused loudly; and
    fixed-size dimensions are compared partition by partition."""
    if vl[0] == "err" and ve[0] == "ok":
        return "cannot broadcast" in vl[2] or "not regular" in vl[2] or "inconsistent types in PartitionedArray" in vl[2] or "the Form of partition" in vl[2]
    return ve[0] == "err" and ("cannot broadcast" in ve[2] or "not regular" in ve[2] or "the Form of partition" in ve[2])


def noopt(name, v):
    """Whether an item could have been missing is known only for the partitions that were looked at."""
    if v[0] == "ok" and (name.startswith("red") or name in ("take_none", "pad_none", "tuple_index")):
        return ("ok", (v[1][0], v[1][1].replace("?", "")))
    return v


def has(x, *kinds):
    layout = getattr(x, "layout", None)
    if isinstance(layout, _ak.partition.PartitionedArray):
        return any(has(_ak.Array(y), *kinds) for y in layout.partitions)
    form = str(getattr(layout, "form", ""))
    return any(k in form for k in kinds)


def fixed(x):
    return has(x, "RegularArray", "inner_shape")


def skip(name, x, o, e):
    if name in ("broadcast", "arith2", "where", "arith", "zip2") and isinstance(x, _ak.Array) and isinstance(o, _ak.Array):
        if len(x) != len(o) or fixed(x) or fixed(o):
            return True     # fixed-size dimensions and single items are broadcast by their sizes, partition by partition
    if name in ("arith_fields", "to_numpy", "jagged_rev", "jagged_mask") and fixed(x):
        return True
    if name == "to_numpy" and not re.match(r"^\d+ \* (\?)?(u?int\d+|float\d+|bool)$", str(_ak.type(x))):
        return True         # whether lists are rectangular is a matter of each partition
    if name == "concat" and e[1] % 3 and isinstance(x, _ak.Array) and isinstance(o, _ak.Array) and (len(x) == 0 or len(o) == 0 or (e[0] % 4 == 3 and len(x) != len(o))):
        return True         # an empty operand has no partition to give the result its type
    if name in ("sort", "argsort", "local_index") and (has(x, "Record", "Union") or "?" in ops.typestr(x) or "option" in ops.typestr(x)):
        return True         # the axis of each column depends on its depth
    if name == "arith2" and (has(x, "string") or has(o, "string")):
        return True
    if name.startswith("zip") and has(x, "string", "Union", "RegularArray"):
        return True         # zip stops at strings and unions, even of whole columns
    if (name == "pad_none" or name.startswith("red")) and has(x, "string", "Record", "Mask", "Option", "Union"):
        return True         # axis -1 of records; which lists can be missing depends on the data
    if name == "fill_none" and isinstance(x, _ak.Array) and len(x) < 2:
        return True         # the fill value's type counts only where something is missing
    if name == "nan_to_num" and has(x, "string"):
        return True         # makes strings of numbers of strings
    if name == "unflatten":
        return True         # counts that straddle partitions are refused (limitation of this version)
    if name in ("flatten", "ravel", "flatten_none") and has(x, "Record", "Union"):
        return True         # record columns are flattened partition by partition
    return False


def simplify(plan):
    for p in c01.simplify(plan):
        if len(p["values"]) == len(plan["values"]):
            yield p
    for h in ("eager", "slices"):
        if plan["how"] != h:
            yield dict(plan, how=h, sched=[])
    if plan["values"]:
        for i in range(len(plan["values"])):
            yield dict(plan, values=plan["values"][:i] + plan["values"][i + 1:], cuts=[c - (c > i) for c in plan["cuts"]])
