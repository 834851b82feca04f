"""C19: reading shared arrays from several native threads."""
import json

from sim import core, native

TIMEOUT = 120.0
SHRINK_LISTS = ["schedule", "threads"]
TRANSFORMS = ["carry", "indexed", "option", "mask", "starts", "regular", "outer", "record", "identities", "slice"]


def template():
    pass


def value(rng, t):
    if t == "int":
        return rng.choice([0, 1, 2, 3, -5, 7, 100, 1 << 40])
    if t == "float":
        return rng.choice([0.5, 1.25, -2.5, 3.75, 1e10, 0.0])
    if t == "bool":
        return rng.random() < 0.5
    if t == "str":
        return rng.choice(["", "a", "bc", "hello", "two words", "h\u00e9"])
    if t[0] == "opt":
        return None if rng.random() < 0.3 else value(rng, t[1])
    if t[0] == "list":
        return [value(rng, t[1]) for _ in range(rng.choice([0, 0, 1, 2, 3, 5]))]
    if t[0] == "fixed":
        return [value(rng, t[1]) for _ in range(t[2])]
    if t[0] == "rec":
        return {k: value(rng, v) for k, v in t[1]}
    if t[0] == "union":
        return value(rng, rng.choice(t[1]))


def shape(rng, deep):
    if deep == 0 or rng.random() < 0.2:
        return rng.choice(["int", "int", "float", "bool", "str"])
    k = rng.choice(["list", "list", "opt", "rec", "fixed", "union"])
    if k == "rec":
        return ["rec", [[n, shape(rng, deep - 1)] for n in ["x", "y", "z"][:rng.choice([1, 2, 3])]]]
    if k == "opt":
        return ["opt", shape(rng, deep - 1)]
    if k == "fixed":
        return ["fixed", shape(rng, deep - 1), rng.choice([1, 2, 3])]
    if k == "union":
        return ["union", ["int", "str"] if rng.random() < 0.5 else ["float", ["list", "int"]]]
    return ["list", shape(rng, deep - 1)]


def item(rng):
    k = rng.random()
    if k < 0.3:
        return "@%d" % rng.choice([0, 1, 2, -1, 5])
    if k < 0.6:
        return ":%d,%d,%d" % (rng.choice([99, 0, 1, -2]), rng.choice([99, 3, -1, 10]), rng.choice([99, 1, 2, -1]))
    if k < 0.7:
        return "..."
    if k < 0.75:
        return "new"
    if k < 0.85:
        return "." + rng.choice(["x", "y", "z"])
    if k < 0.95:
        return "[" + ",".join(str(rng.choice([0, 1, -1, 2])) for _ in range(rng.choice([1, 3]))) + "]"
    return "a%d" % rng.randrange(4)


def op(rng, n):
    a = str(rng.randrange(n))
    b = lambda: str(rng.randrange(2))
    ax = lambda: str(rng.choice([0, 1, 1, -1, 2]))
    name = rng.choice(["tojson", "tojson", "pretty", "tostring", "type", "form", "at", "range", "field", "fields", "nothing", "slice", "slice", "slice",
                       "num", "flatten", "localindex", "reduce", "reduce", "sort", "argsort", "combinations", "rpad", "clip", "fillna", "merge", "merge",
                       "unique", "valid", "copy", "simplify", "totype", "depth", "iterate", "newkey", "newref", "parse"])
    if name in ("newkey", "newref"):
        return [name]
    if name == "parse":
        return [name, native.hexed(rng.choice(["[1, 2.5, null]", "[[1], [], [2, 3]]", "[{\"x\": \"a\"}, {\"x\": \"b\"}]", "[true, \"x\", [1]]", "[1, 2", "{\"a\": [1, {}]}"]))]
    if name == "pretty":
        return [name, a, "3"]
    if name == "at":
        return [name, a, str(rng.choice([0, 1, 2, -1, 50]))]
    if name == "range":
        return [name, a, str(rng.choice([0, 1, -2])), str(rng.choice([2, 5, -1]))]
    if name == "field":
        return [name, a, rng.choice(["x", "y", "nope"])]
    if name == "fields":
        return [name, a, "x", "y"]
    if name == "slice":
        return [name, a] + [item(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    if name in ("num", "flatten", "localindex"):
        return [name, a, ax()]
    if name == "reduce":
        return [name, a, rng.choice(["sum", "prod", "max", "min", "argmax", "argmin", "any", "all", "count", "count_nonzero"]), b(), b()]
    if name in ("sort", "argsort"):
        return [name, a, b(), "1"]
    if name == "combinations":
        return [name, a, str(rng.choice([1, 2, 2, 3])), b(), ax()]
    if name in ("rpad", "clip"):
        return [name, a, str(rng.choice([0, 1, 3])), ax()]
    if name == "merge":
        return [name, a, str(rng.randrange(n))]
    if name == "totype":
        return [name, a, rng.choice(["float32", "int64", "float64", "bool", "int8"])]
    return [name, a]


def gen(rng, tier):
    arrays = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        t = shape(rng, rng.choice([1, 2, 3]))
        arrays.append([json.dumps([value(rng, t) for _ in range(rng.choice([1, 3, 5, 9]))]), [rng.choice(TRANSFORMS) for _ in range(rng.choice([0, 0, 1, 2, 3]))]])
    n = rng.choice([2, 2, 2, 3, 4])
    ops = [op(rng, len(arrays)) for _ in range(rng.choice([2, 4, 8]))]
    threads = []
    for _ in range(n):
        # often the same operations in several threads
        threads.append([rng.choice(ops) if rng.random() < 0.7 else op(rng, len(arrays)) for _ in range(rng.choice([1, 2, 4, 8]))])
    return {"arrays": arrays, "threads": threads, "schedule": native.schedule(rng, n)}


def execute(plan, log):
    if not plan["threads"] or not plan["arrays"]:
        return
    lines = ["sched " + " ".join("%d %d" % (g, t) for g, t in plan["schedule"])]
    lines += ["array %s %s" % (native.hexed(j), " ".join(ts)) for j, ts in plan["arrays"]]
    for t in plan["threads"]:
        lines.append("thread")
        lines += ["op " + " ".join(o) for o in t]
    r = native.run(lines, log)
    if r is None:
        return
    native.judge(r, [" / ".join(" ".join(o) for o in t) + " on " + str(plan["arrays"]) for t in plan["threads"]])
    k = r["keys"]
    if k[0] != k[1] or k[2] != k[3]:
        raise core.Violation("numbers-repeated", "%d cache keys and %d identity references were drawn, but the counters went on by %d and %d" % (k[0], k[2], k[1], k[3]))
    log.state(r["signature"])
    for t, g in zip(plan["threads"], r["got"]):
        log.ev(g)
        for o, line in zip(t, g.split("\n")):
            log.probe("%s %s" % (o[0], "raised" if "raised:" in line else "done"))


def simplify(plan):
    for i, t in enumerate(plan["threads"]):
        for j in range(len(t)):
            yield dict(plan, threads=plan["threads"][:i] + [t[:j] + t[j + 1:]] + plan["threads"][i + 1:])
    for i, (j, ts) in enumerate(plan["arrays"]):
        for k in range(len(ts)):
            yield dict(plan, arrays=plan["arrays"][:i] + [[j, ts[:k] + ts[k + 1:]]] + plan["arrays"][i + 1:])
        v = json.loads(j)
        for k in range(len(v)):
            if len(v) > 1:
                yield dict(plan, arrays=plan["arrays"][:i] + [[json.dumps(v[:k] + v[k + 1:]), ts]] + plan["arrays"][i + 1:])
    for i, (g, t) in enumerate(plan["schedule"]):
        if g > 1:
            yield dict(plan, schedule=plan["schedule"][:i] + [[g // 2, t]] + plan["schedule"][i + 1:])
