"""C20: a typed layout builder produces exactly what was written to it."""
import gc
import json

from sim import core

TIMEOUT = 60.0
SHRINK_LISTS = ["ops"]
ak = np = None
COMMAND = {"int64": "int64", "float64": "float64", "bool": "boolean"}


def template():
    global ak, np
    import awkward
    import awkward.forth
    import numpy
    ak, np = awkward, numpy


def number(rng, kind=None):
    return {"class": "NumpyArray", "primitive": kind or rng.choice(["int64", "float64", "bool"])}


def lists(rng, content):
    o = rng.choice(["i64", "i64", "i32", "u32"])
    suffix = {"i64": "64", "i32": "32", "u32": "U32"}[o]
    if rng.random() < 0.25:
        return {"class": "ListArray" + suffix, "starts": o, "stops": o, "content": content}
    return {"class": "ListOffsetArray" + suffix, "offsets": o, "content": content}


def rand_form(rng, depth):
    """Nested lists, records, options, unions and indexed arrays of numbers."""
    r = rng.random()
    if depth <= 0 or r < 0.15:
        return number(rng)
    if r < 0.5:
        return lists(rng, rand_form(rng, depth - 1))
    if r < 0.8:
        return {"class": "RecordArray", "contents": {x: rand_form(rng, depth - 1) for x in rng.sample(["x", "y", "z", "w"], rng.randint(1, 3))}}
    if r < 0.88:
        return {"class": "IndexedOptionArray64", "index": "i64", "content": plain_form(rng, depth - 1)}
    if r < 0.92:
        return {"class": "IndexedArray64", "index": "i64", "content": plain_form(rng, depth - 1)}
    return {"class": "UnionArray8_64", "tags": "i8", "index": "i64", "contents": [plain_form(rng, depth - 1) for _ in range(rng.randint(2, 3))]}


def plain_form(rng, depth):
    """not an option, union or indexed array itself"""
    while True:
        f = rand_form(rng, depth)
        if f["class"][:5] not in ("Index", "Union") and first(f)["class"][:5] != "Index":
            return f


def first(form):
    """The node that takes an entry's first command (null must not be ambiguous)."""
    while form["class"] == "RecordArray":
        form = list(form["contents"].values())[0]
    return form


def rand_special(rng):
    k = rng.choice(["categorical", "string", "bytestring"])
    if k == "categorical":
        return {"class": "IndexedArray64", "index": "i64", "content": number(rng), "parameters": {"__array__": "categorical"}}
    return {"class": "ListOffsetArray64", "offsets": "i64", "parameters": {"__array__": k},
            "content": {"class": "NumpyArray", "primitive": "uint8", "parameters": {"__array__": "char" if k == "string" else "byte"}}}


def keyed(form, keys, rng):
    """Some nodes carry form keys of their own."""
    if rng.random() < 0.5:
        keys[0] += 1
        form["form_key"] = "node%d" % keys[0]
    c = form.get("contents", form.get("content"))
    for f in (c.values() if isinstance(c, dict) and "class" not in c else c if isinstance(c, list) else [c] if c else []):
        keyed(f, keys, rng)
    return form


def param(form):
    return form.get("parameters", {}).get("__array__")


def value(rng, form, size):
    """(value, commands)"""
    c = form["class"]
    if c == "NumpyArray":
        p = form["primitive"]
        v = {"int64": lambda: rng.choice([0, 1, -1, rng.randint(-9, 9), rng.randint(-2**53, 2**53)]),
             "float64": lambda: rng.choice([0.0, -0.5, 1e300, rng.randint(-99, 99) / 4.0]),
             "bool": lambda: rng.random() < 0.5}[p]()
        return v, [[COMMAND[p], v]]
    if param(form) in ("string", "bytestring"):
        s = rng.choice(["", "a", "one", "two words", "x" * 70])
        return s, [[param(form), s]]
    if c.startswith("List"):
        out, cmd = [], [["begin_list"]]
        for _ in range(rng.choice([0, 0, 1, 2, 3, size])):
            v, k = value(rng, form["content"], 2)
            out.append(v)
            cmd += k
        return out, cmd + [["end_list"]]
    if c == "RecordArray":
        out, cmd = {}, []
        for x, f in form["contents"].items():
            v, k = value(rng, f, size)
            out[x] = v
            cmd += k
        return out, cmd
    if c.startswith("IndexedOption") and rng.random() < 0.3:
        return None, [["null"]]
    if c.startswith("Union"):
        t = rng.randrange(len(form["contents"]))
        v, k = value(rng, form["contents"][t], size)
        return v, [["tag", t]] + k
    return value(rng, form["content"], size)


def wrong(form, cmd):
    """Commands that are illegal where cmd is the next legal one."""
    out = []
    if cmd[0] in ("int64", "float64", "boolean"):
        out += [[k, v] for k, v in (("int64", 3), ("float64", 2.5), ("boolean", True)) if k != cmd[0]]
        out += [["begin_list"]]
    elif cmd[0] == "begin_list":
        out += [["int64", 3], ["float64", 2.5], ["boolean", True]]
    return out


def unions(form):
    c = form.get("contents", form.get("content"))
    sub = c.values() if isinstance(c, dict) and "class" not in c else c if isinstance(c, list) else [c] if c else []
    return form["class"].startswith("Union") or any(unions(f) for f in sub)


def gen(rng, tier):
    builders = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        if rng.random() < 0.35:
            f = rand_special(rng)
            for _ in range(rng.choice([0, 0, 1, 2])):
                f = lists(rng, f)
        else:
            f = rand_form(rng, rng.choice([0, 1, 2, 3, 4]))
        if rng.random() < 0.6:
            f = keyed(f, [0], rng)
        builders.append({"form": f, "initial": rng.choice([8, 8, 8, 1, 2, 1024]), "connect": rng.random() < 0.6,
                         "size": rng.choice([1, 1, 2, 3, 10, 1024]), "factor": rng.choice([1.1, 1.5, 2.0])})
    ops = []
    total = rng.choice([3, 10, 30, 80])
    many = [rng.choice([2, 2, 5, 40]) for _ in builders]
    while len(ops) < total:
        b = rng.randrange(len(builders))
        v, cmds = value(rng, builders[b]["form"], many[b])
        for i, c in enumerate(cmds):
            w = wrong(builders[b]["form"], c)
            if w and rng.random() < 0.01:
                ops.append(["wrong", b, rng.choice(w)])
            ops.append(["cmd", b, c, v if i == len(cmds) - 1 else None, i == len(cmds) - 1])
        r = rng.random()
        if r < 0.3:
            ops.append(["snap", b])
        elif r < 0.35:
            ops.append(["unsupported"])
        elif r < 0.4:
            ops.append(["drop", b])
        elif r < 0.45:
            ops.append(["end_list", b])
    # interleave the builders' histories
    per = {}
    for o in ops:
        per.setdefault(o[1] if len(o) > 1 else None, []).append(o)
    out = []
    while any(per.values()):
        k = rng.choice([k for k in per if per[k]])
        for _ in range(rng.choice([1, 1, 2, 7])):
            if per[k]:
                out.append(per[k].pop(0))
                if rng.random() < 0.04 and k is not None:
                    out.append(["snap", k])
    return {"builders": builders, "ops": out}


def plain(x):
    if isinstance(x, bytes):
        return x.decode("latin-1")
    if isinstance(x, list):
        return [plain(i) for i in x]
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return x


def execute(plan, log):
    vs = core.vsim().lib
    vs.vs_alloc_poison(1, 1 << 20)
    live = []
    for p in plan["builders"]:
        form = ak.forms.Form.fromjson(json.dumps(p["form"]))
        b = {"form": form, "done": [], "dead": False}
        if p["connect"]:
            b["b"] = ak.layout.LayoutBuilder(form, vm_init=False)
            b["vm"] = ak.forth.ForthMachine32(b["b"].vm_source(), output_initial_size=p["size"], output_resize_factor=p["factor"])
            b["b"].connect(b["vm"])
        else:
            b["b"] = ak.layout.LayoutBuilder(form, initial=p["initial"])
        live.append(b)
    kept = []
    log.nontrivial = False
    depth = [0] * len(live)
    for n, op in enumerate(plan["ops"]):
        where = "op %d %s" % (n, op)
        if op[0] == "unsupported":
            try:
                ak.layout.LayoutBuilder(ak.forms.ListOffsetForm("i64", ak.forms.VirtualForm(None, False)))
                raise core.Violation("accepted", "%s: builder for an unsupported form" % where)
            except ValueError:
                log.fault("unsupported form")
            continue
        b = live[op[1]]
        p = plan["builders"][op[1]]
        if op[0] == "drop":
            # snapshots outlive the builder
            continue
        if op[0] == "cmd":
            if b["dead"]:
                continue
            cmd = op[2]
            arg = [cmd[1].encode("latin-1") if cmd[0] == "bytestring" else cmd[1]] if len(cmd) > 1 else []
            try:
                getattr(b["b"], cmd[0])(*arg)
            except Exception as e:
                raise core.Violation("legal-command-raised", "%s: %s: %s; form %s" % (where, type(e).__name__, str(e)[:300], json.dumps(p["form"])))
            depth[op[1]] += (cmd[0] == "begin_list") - (cmd[0] == "end_list")
            if op[4]:
                b["done"].append(op[3])
            log.state(cmd[0], depth[op[1]], p["form"]["class"], len(b["done"]).bit_length())
            log.nontrivial = True
        elif op[0] == "wrong":
            if b["dead"]:
                continue
            try:
                getattr(b["b"], op[2][0])(*op[2][1:])
                raise core.Violation("illegal-command-accepted", "%s: form %s" % (where, json.dumps(p["form"])))
            except ValueError as e:
                log.fault("illegal " + op[2][0])
            b["dead"] = True
        elif op[0] == "end_list":
            if b["dead"] or depth[op[1]]:
                continue
            try:
                b["b"].end_list()
                raise core.Violation("illegal-command-accepted", "%s: form %s" % (where, json.dumps(p["form"])))
            except ValueError as e:
                log.fault("illegal end_list")
            b["dead"] = True
        if op[0] == "snap" or b["dead"]:
            check(b, p, where, log, kept)
        if len(kept) > 12:
            kept.pop(0)
        for got, want, w in kept:
            now = values(got)
            if now != want:
                raise core.Violation("snapshot-changed", "%s: snapshot taken at %s was %s, is %s" % (where, w, str(want)[:300], str(now)[:300]))
        d = vs.vs_alloc_damage()
        if d:
            raise core.Violation("memory-damaged", "%s: %d allocations written outside of their bounds" % (where, d))
    for i, b in enumerate(live):
        check(b, plan["builders"][i], "at the end, builder %d" % i, log, kept)
        b.clear()
    del live[:]
    gc.collect()
    for got, want, w in kept:
        if values(got) != want:
            raise core.Violation("snapshot-changed", "after the builders are gone: snapshot taken at %s was %s, is %s" % (w, str(want)[:300], str(values(got))[:300]))


def values(layout):
    return repr(plain(ak.to_list(layout)))


def check(b, p, where, log, kept):
    try:
        s = b["b"].snapshot()
        got = values(s)
    except ValueError as e:
        if b["dead"]:
            log.probe("snapshot after an error raises")
            return
        raise core.Violation("snapshot-raised", "%s: %s; form %s" % (where, str(e)[:300], json.dumps(p["form"])))
    log.ev("snapshot", got)
    # a union of numbers becomes an array of the more general kind of number
    if unions(p["form"]):
        ok, want = plain(ak.to_list(s)) == b["done"], str(b["done"])
    else:
        ok, want = got == repr(b["done"]), repr(b["done"])
    if not ok:
        raise core.Violation("wrong-data", "%s: snapshot has %s, written %s; form %s" % (where, got[-500:], want[-500:], json.dumps(p["form"])))
    t, u = str(s.form.type({})), str(b["form"].type({}))
    if t != u and not unions(p["form"]):
        raise core.Violation("wrong-type", "%s: snapshot has type %s, form has %s" % (where, t, u))
    if b["b"].form() != b["form"]:
        raise core.Violation("wrong-form", "%s: builder's form is not the one given" % where)
    kept.append((s, got, where))
    log.probe("snapshot")


def simplify(plan):
    ops = plan["ops"]
    for i in range(len(plan["builders"])):
        if any(len(o) > 1 and o[1] == i for o in ops):
            yield dict(plan, ops=[o for o in ops if not (len(o) > 1 and o[1] == i)])
    for i, p in enumerate(plan["builders"]):
        for k, v in (("connect", False), ("initial", 8)):
            if p[k] != v:
                yield dict(plan, builders=plan["builders"][:i] + [dict(p, **{k: v})] + plan["builders"][i + 1:])
    for n in (len(ops) // 2, len(ops) * 3 // 4, len(ops) - 1):
        if 0 < n < len(ops):
            yield dict(plan, ops=ops[:n])
