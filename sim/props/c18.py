"""C18: importing from a failing source raises and never returns partial data."""
import collections
import gc
import random
import weakref

from sim import core, data, world

TIMEOUT = 60.0
SHRINK_LISTS = ["sched", "values"]
_ak = _np = None
WORDS = data.WORDS


class SourceError(Exception):
    pass


def template():
    global _ak, _np
    import awkward as ak
    import numpy as np
    _ak, _np = ak, np


# values: anything, not only one type; JSON encoding of python data
def rand_any(rng, depth):
    r = rng.random()
    if depth <= 0 or r < 0.35:
        return rng.choice([["n"], ["b", rng.random() < 0.5], ["i", rng.randint(-99, 99)], ["f", rng.randint(-40, 40) / 4.0],
                           ["s", rng.choice(WORDS)], ["y", rng.choice(WORDS)], ["c", rng.randint(-3, 3), rng.randint(-3, 3)],
                           ["d", rng.randint(0, 9999)], ["t", rng.randint(0, 9999)]])
    if r < 0.75:
        return ["L", [rand_any(rng, depth - 1) for _ in range(rng.choice([0, 1, 2, 3, 5]))]]
    if r < 0.87:
        return ["T", [rand_any(rng, depth - 1) for _ in range(rng.randint(0, 3))]]
    names = ["x", "y", "\u00e9"][:rng.randint(0, 3)]
    return ["R", [[k, rand_any(rng, depth - 1)] for k in names]]


def encode(v, s):
    k = s[0]
    if v is None:
        return ["n"]
    if k == "bool":
        return ["b", v]
    if k in ("f64", "f32"):
        return ["f", v]
    if k in data.NUM:
        return ["i", v]
    if k == "str":
        return ["s", v]
    if k == "bytes":
        return ["y", v]
    if k in ("list", "reg"):
        return ["L", [encode(x, s[-1]) for x in v]]
    if k == "opt":
        return encode(v, s[1])
    if k == "rec":
        return ["R", [[n, encode(x, t)] for (n, t), x in zip(s[1], v)]]
    if k == "tup":
        return ["T", [encode(x, t) for t, x in zip(s[1], v)]]
    if k == "uni":
        return encode(v[1], s[1][v[0]])
    raise AssertionError(s)


def gen(rng, tier):
    n = rng.choice([0, 1, 2, 3, 5, 9])
    if rng.random() < 0.6:
        s = data.rand_schema(rng, rng.choice([0, 1, 2, 3]), {"leafs": ["i64", "f64", "bool", "str", "bytes"]})
        vals = [encode(v, s) for v in data.rand_data(rng, s, n)]
        mixed = False
    else:
        d = rng.choice([0, 1, 2, 3])
        vals = [rand_any(rng, d) for _ in range(n)]
        mixed = True
    p = rng.choice([0, 0.02, 0.05, 0.15, 0.4])
    kinds = rng.sample(range(1, 13), rng.choice([1, 3, 12]))
    return {"values": vals, "mixed": mixed, "forms": rng.randrange(10**9), "plainness": rng.choice([0, 0.3, 0.8]), "api": rng.choice(["from_iter", "from_iter", "Array", "columns", "record", "builder", "layout"]),
            "initial": rng.choice([1, 2, 8, 1024]), "resize": rng.choice([1.1, 1.5, 3.0]),
            "sched": [rng.choice(kinds) if rng.random() < p else 0 for _ in range(rng.choice([10, 40, 120]))]}


def plain(v):
    k = v[0]
    if k == "n":
        return None
    if k in "bifs":
        return v[1]
    if k == "y":
        return v[1].encode("utf-8")
    if k == "c":
        return complex(v[1], v[2])
    if k == "d":
        return _np.datetime64(v[1], "s")
    if k == "t":
        return _np.timedelta64(v[1], "s")
    if k == "L":
        return [plain(x) for x in v[1]]
    if k == "T":
        return tuple(plain(x) for x in v[1])
    return {n: plain(x) for n, x in v[1]}


class Src(object):
    """State shared by all iterables of one source: the schedule of faults."""

    def __init__(self, log, sched, rng, plainness):
        self.log, self.sched, self.i, self.rng, self.plainness = log, sched, 0, rng, plainness
        self.hit = None
        self.objs = []
        self.inner = None
        self.cycles = []

    def next(self):
        d = self.sched[self.i] if self.i < len(self.sched) else 0
        self.i += 1
        return d

    def track(self, o):
        self.objs.append(weakref.ref(o))
        return o

    def fault(self, what):
        self.hit = what
        self.log.fault("source_" + what)
        self.log.ev("fault", what)

    def step(self, item):
        """One element is about to be delivered: returns it, something broken instead, or raises."""
        d = self.next()
        if d == 1 or d == 2:
            self.fault("raise")
            raise SourceError("here")
        if d == 3:
            self.fault("interrupt")
            raise world.SourceInterrupt("here")
        if d == 4:
            self.fault("object")
            return object()
        if d == 5:
            self.fault("hugeint")
            return 1 << 70
        if d == 6:
            self.fault("surrogate")
            return "a\ud800b"
        if d == 7:
            self.fault("badkey")
            return {"x": 1, 2: 3}
        if d == 8:
            self.fault("cycle")
            x = []
            x.append(x)
            self.cycles.append(x)
            return x
        if d == 9:
            self.fault("memory")
            raise MemoryError("source")
        if d == 10:
            # not a failure: the source itself imports something while being imported
            self.log.fault("reentrant_import")
            self.log.ev("reenter")
            got = _ak.to_list(_ak.from_iter(iter([[1, 2], [], [{"a": 3}]]), initial=1))
            if got != [[1, 2], [], [{"a": 3}]]:
                raise core.Violation("reentrant-import-wrong", repr(got))
        if d == 11:
            self.log.fault("gc")
            gc.collect()
        if d == 12:
            self.fault("notiter")
            return BadIter(self)
        return item


class BadIter(object):
    """Says it is iterable, but fails when asked for its iterator."""

    def __init__(self, src):
        self.src = src

    def __iter__(self):
        self.src.log.ev("baditer")
        raise SourceError("no iterator")


class It(object):
    def __init__(self, src, items):
        self.src, self.items, self.k = src, items, 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.k >= len(self.items):
            d = self.src.next()         # failing instead of ending
            if d in (1, 2):
                self.src.fault("raise_at_end")
                raise SourceError("at end")
            raise StopIteration
        x = self.src.step(self.items[self.k])
        self.k += 1
        return x


class Iterable(object):
    def __init__(self, src, items):
        self.src, self.items = src, items

    def __iter__(self):
        return self.src.track(It(self.src, self.items))


class Seq(object):
    def __init__(self, src, items):
        self.src, self.items = src, items

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        if i >= len(self.items):
            raise IndexError(i)
        return self.src.step(self.items[i])


def agen(src, items):
    for x in items:
        yield src.step(x)


class MyDict(dict):
    pass


class MyStr(str):
    pass


Pair = {n: collections.namedtuple("P%d" % n, ["f%d" % i for i in range(n)]) for n in range(4)}


def make(src, v):
    np = _np
    rng = src.rng
    k = v[0]
    r = rng.random()
    fancy = r >= src.plainness
    q = rng.randrange(6)
    if k == "b" and fancy and q == 0:
        return np.bool_(v[1])
    if k == "i" and fancy and q < 3:
        return [np.int64, np.int32, np.int16][q](v[1])
    if k == "f" and fancy and q < 2:
        return [np.float64, np.float32][q](v[1])
    if k == "s" and fancy and q < 2:
        return MyStr(v[1])
    if k == "T":
        t = tuple(make(src, x) for x in v[1])
        return Pair[len(t)](*t) if fancy and q < 3 and len(t) < 4 else t
    if k == "R":
        items = [(n, make(src, x)) for n, x in v[1]]
        return [dict, collections.OrderedDict, MyDict][q % 3 if fancy else 0](items)
    if k == "L":
        if fancy and q == 4 and v[1] and all(x[0] == v[1][0][0] and x[0] in "if" for x in v[1]):
            src.log.probe("numpy_list")
            return np.array([x[1] for x in v[1]])
        items = [make(src, x) for x in v[1]]
        if not fancy:
            return items
        if q == 0:
            return src.track(agen(src, items))
        if q == 1:
            return src.track(Iterable(src, items))
        if q == 2:
            return src.track(It(src, items))
        if q == 3:
            return src.track(Seq(src, items))
        if q == 5:
            return collections.deque(items)
        return items
    return plain(v)


def top(src, vals):
    items = [make(src, v) for v in vals]
    q = src.rng.randrange(5)
    if q == 0:
        return items
    if q == 1:
        return src.track(agen(src, items))
    if q == 2:
        return src.track(Iterable(src, items))
    if q == 3:
        return src.track(It(src, items))
    return map(lambda x: src.step(x), items)


def canon(x, mixed):
    return data.canon(fix(x) if mixed else x)


def fix(x):
    """Numbers that share a place in a list are widened together."""
    if isinstance(x, (bool, int, float)):
        return complex(x)
    if isinstance(x, list):
        return [fix(y) for y in x]
    if isinstance(x, tuple):
        return tuple(fix(y) for y in x)
    if isinstance(x, dict):
        return {k: fix(v) for k, v in x.items()}
    return x


def norm(x):
    """A record in a place where other records have more fields has None there: drop those."""
    if isinstance(x, list):
        return [norm(y) for y in x]
    if isinstance(x, tuple):
        return tuple(norm(y) for y in x)
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items() if v is not None}
    return x


def execute(plan, log):
    ak = _ak
    api = plan["api"]
    mixed = plan["mixed"] or api == "builder"
    vals = plan["values"]
    kw = {"initial": plan["initial"], "resize": plan["resize"]}
    expect = [plain(v) for v in vals]
    before = ak.Array([[1, 2, 3], [], [4]])
    other = ak.from_iter(expect, **kw)          # the same values through another array; must stay as it is
    other0 = canon(norm(ak.to_list(other)), mixed)
    builder = ak.ArrayBuilder(initial=plan["initial"], resize=plan["resize"]) if api == "builder" else None
    snap = None
    if builder is not None:
        builder.append([1, 2])
        snap = builder.snapshot()

    def imp(s, builder):
        if api == "from_iter":
            return ak.from_iter(top(s, vals), **kw), expect
        if api == "layout":
            return ak.from_iter(top(s, vals), highlevel=False, **kw), expect
        if api == "Array":
            return ak.Array(top(s, vals)), expect
        if api == "columns":
            return ak.Array({"p": top(s, vals), "q": top(s, vals)}), [{"p": x, "q": x} for x in expect]
        if api == "record":
            return ak.from_iter({"p": top(s, vals), "q": 1}, **kw), {"p": expect, "q": 1}
        builder.append(top(s, vals))
        return builder.snapshot(), [[1, 2], expect]

    for attempt in range(2):
        s = Src(log, plan["sched"] if attempt == 0 else [], random.Random("forms%d" % plan["forms"]), plan["plainness"])
        err = None
        got = want = None
        try:
            got, want = imp(s, builder)
            got = canon(norm(ak.to_list(got)), mixed)
        except core.Violation:
            raise
        except BaseException as ex:
            err = (type(ex).__name__, str(ex)[:200])
        log.ev("attempt", attempt, s.hit, err and err[0], s.i)
        log.state(api, s.hit, err and err[0], vals[0][0] if vals else "")
        if s.hit is None:
            if err is not None:
                raise core.Violation("good-source-refused", "%s: %s" % (api, err))
            w = canon(norm(want), mixed)
            if got != w:
                raise core.Violation("value-differs", "%s: source %s, array %s" % (api, w[:600], got[:600]))
            log.probe("imported")
        else:
            if err is None:
                raise core.Violation("failure-swallowed", "%s: the source failed (%s), the call returned %s" % (api, s.hit, got[:400]))
            exp = {"raise": "SourceError", "raise_at_end": "SourceError", "interrupt": "SourceInterrupt", "memory": "MemoryError"}.get(s.hit)
            if exp and err[0] != exp:
                raise core.Violation("failure-replaced", "%s: the source failed with %s, the caller saw %s" % (api, exp, err))
            log.probe("failure_reported")
        refs = s.objs
        for c in s.cycles:
            del c[:]
        s = None
        gc.collect()
        left = sum(1 for r in refs if r() is not None)
        if left:
            raise core.Violation("source-leaked", "%d of %d source objects are still held after the import ended" % (left, len(refs)))
        if ak.to_list(before) != [[1, 2, 3], [], [4]] or canon(norm(ak.to_list(other)), mixed) != other0:
            raise core.Violation("other-array-changed", "")
        if snap is not None:
            if ak.to_list(snap) != [[1, 2]]:
                raise core.Violation("snapshot-changed", repr(ak.to_list(snap)))
            if err is not None:
                builder = ak.ArrayBuilder(initial=plan["initial"], resize=plan["resize"])
                builder.append([1, 2])
        if attempt == 0 and err is None:
            break


def simplify(plan):
    for k, v in (("plainness", 1.0), ("initial", 1024), ("resize", 1.5), ("api", "from_iter")):
        if plan[k] != v:
            yield dict(plan, **{k: v})
    for i, v in enumerate(plan["values"]):
        if v[0] in "LTR" and v[1]:
            for j in range(len(v[1])):
                yield dict(plan, values=plan["values"][:i] + [[v[0], v[1][:j] + v[1][j + 1:]]] + plan["values"][i + 1:])
