"""C05: ArrayBuilder holds exactly the history appended to it; snapshots never change."""
import random

from sim import builder, core, data

TIMEOUT = 60.0
SHRINK_LISTS = ["ops", "sources"]
_ak = _np = None
NAMES = [None, None, "", "p", "q"]
FIELDS = ["x", "y", "z", "", "long field name"]
DT = ["2020-05-27T10:41:11", "1970-01-01T00:00:00", "2100-12-31T23:59:59", "1965-03-02"]
UNITS = ["s", "us", "D", "ms"]
SCALARS = ["null", "boolean", "integer", "real", "complex", "datetime", "timedelta", "bytestring", "string"]


def template():
    global _ak, _np
    import awkward as ak
    import numpy as np
    _ak, _np = ak, np


def obj(rng, depth, bad):
    r = rng.random()
    if bad and r < 0.15:
        return {"bad": rng.choice(["obj", "big", "key"])}
    if depth <= 0 or r < 0.4:
        return rng.choice([None, True, False, rng.randint(-5, 5), rng.randint(-2**40, 2**40), 0.5, -2.25, "s", "", "two words", {"c": [1.5, -2.0]},
                           {"b": "raw"}])
    if r < 0.6:
        return [obj(rng, depth - 1, bad) for _ in range(rng.randint(0, 3))]
    if r < 0.8:
        return {"t": [obj(rng, depth - 1, bad) for _ in range(rng.randint(0, 3))]}
    return {"d": [[k, obj(rng, depth - 1, bad)] for k in rng.sample(["x", "y", "z"], rng.randint(0, 3))]}


def make(o):
    """JSON description -> Python object"""
    if isinstance(o, list):
        return [make(x) for x in o]
    if isinstance(o, dict):
        if "bad" in o:
            return builder.Bad()
        if "c" in o:
            return complex(*o["c"])
        if "b" in o:
            return o["b"].encode()
        if "t" in o:
            return tuple(make(x) for x in o["t"])
        return {k: make(x) for k, x in o["d"]}
    return o


def gen(rng, tier):
    wide = rng.choice([0.0, 0.1, 0.5])          # how much types are mixed
    scal = rng.sample(SCALARS, rng.choice([1, 2, 3, 9]))
    names = rng.sample(["x", "y", "z"], rng.randint(1, 3))
    recn = rng.sample(NAMES[:1] + ["p", "q"], rng.choice([1, 1, 2, 3]))
    srcs = []
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        s = data.rand_schema(rng, rng.choice([0, 1, 2]), {"uni": False})
        srcs.append({"schema": s, "values": data.rand_data(rng, s, rng.randint(1, 4), 3), "layout": rng.randrange(10**9), "exotic": rng.choice([0, 0.5, 0.9])})
    plan_ops = []
    bad = rng.choice([0, 0, 0.02, 0.08])
    n = rng.choice([5, 15, 40, 120, 120 if tier == "quick" else 400])
    shape = []      # rough idea of what is open, to make legal programs likely

    def scalar():
        k = rng.choice(scal)
        v = None
        if k == "boolean":
            v = rng.random() < 0.5
        elif k == "integer":
            v = rng.choice([0, 1, -1, rng.randint(-100, 100), rng.randint(-2**52, 2**52)])
        elif k == "real":
            v = rng.choice([0.0, 0.5, -1.25, 1e300, float(rng.randint(-9, 9))])
        elif k == "complex":
            v = [rng.choice([0.0, 1.5]), rng.choice([0.0, -2.5])]
        elif k in ("datetime", "timedelta"):
            v = [rng.choice(DT) if k == "datetime" else rng.randint(-10**6, 10**6), rng.choice(UNITS[:rng.choice([1, 4])])]
        elif k in ("bytestring", "string"):
            v = rng.choice(["", "a", "hello", "\u00e9\u4e2d", "nul\x00inside", "z" * rng.randint(0, 40)])
        return [k, v]

    def value(depth):
        r = rng.random()
        if depth <= 0 or r < 0.45:
            plan_ops.append(scalar())
        elif r < 0.65:
            plan_ops.append(["begin_list", None])
            for _ in range(rng.choice([0, 1, 2, 4])):
                value(depth - 1)
                misc()
            plan_ops.append(["end_list", None])
        elif r < 0.75:
            k = rng.choice([0, 1, 2, 3]) if rng.random() < wide else 2
            plan_ops.append(["begin_tuple", k])
            for i in rng.sample(range(k), rng.choice([k, k, rng.randint(0, k)])):
                plan_ops.append(["index", i])
                value(depth - 1)
                misc()
            plan_ops.append(["end_tuple", None])
        elif r < 0.92:
            plan_ops.append(["begin_record", rng.choice(recn)])
            for f in rng.sample(names, rng.choice([len(names), rng.randint(0, len(names))])):
                plan_ops.append(["field", f])
                value(depth - 1)
                misc()
            plan_ops.append(["end_record", None])
        elif srcs:
            plan_ops.append([rng.choice(["append_at", "append_at", "append_array", "append_record", "extend"]), [rng.randrange(99), rng.randrange(99)]])
        else:
            plan_ops.append(["append", obj(rng, 2, False)])

    def misc():
        r = rng.random()
        if r < bad:
            plan_ops.append(rng.choice([["end_list", None], ["end_tuple", None], ["end_record", None], ["index", rng.choice([-1, -2, 0, 1, 5])],
                                        ["field", "x"], ["begin_tuple", -1], ["badarg", rng.randrange(6)], ["append", obj(rng, 2, True)],
                                        scalar(), ["begin_list", None], ["begin_record", "p"], ["append_at", [0, 99999]]]))
        elif r < bad + 0.03:
            plan_ops.append(rng.choice([["snapshot", None], ["snapshot", None], ["check", None], ["drop", rng.randrange(99)], ["peek", rng.randrange(99)]]))
        elif r < bad + 0.033:
            plan_ops.append(["clear", None])

    depth = rng.choice([0, 1, 2, 3])
    if rng.random() < 0.01:
        for i in range(rng.choice([30, 100, 120])):
            plan_ops.extend([["begin_record", "n%d" % i], ["field", "x"], ["integer", i], ["end_record", None]])
    while len(plan_ops) < n:
        if rng.random() < 0.05:
            plan_ops.append(["append", obj(rng, 2, bad > 0)])
        else:
            value(depth)
        misc()
    return {"ops": plan_ops, "sources": srcs, "initial": rng.choice([0, 1, 1, 2, 3, 8, 1024]), "resize": rng.choice([1.0, 1.01, 1.1, 1.5, 2.0, 10.0])}


class Run(object):
    def __init__(self, plan, log):
        ak = _ak
        self.plan, self.log = plan, log
        self.b = ak.ArrayBuilder(initial=plan["initial"], resize=plan["resize"])
        self.m = builder.Model()
        self.src = []
        for s in plan["sources"]:
            lay = data.layout(s["values"], s["schema"], s["layout"], s["exotic"])
            self.src.append((ak.Array(lay), data.plain_all(s["values"], s["schema"])))
        self.snaps = []
        self.extending = []

    same = staticmethod(builder.canon)

    def pre(self):
        """Around every call of the real thing; C06 makes allocations fail here."""

    def post(self):
        pass

    def guard(self, f, *args):
        self.pre()
        try:
            return f(*args)
        finally:
            self.post()

    def both(self, name, *args):
        """A command on the model and on the real thing; returns the pair of outcomes."""
        m, b = self.m, self.b
        k = name
        try:
            if k in ("null", "boolean", "integer", "real", "complex", "datetime", "timedelta", "bytestring", "string"):
                m.put(args[0] if args else None)
            elif k == "append":
                m.append(args[0])
            else:
                getattr(m, k)(*args)
            legal = True
        except builder.Illegal as e:
            legal = False
        if k == "append":
            call, args = b.append, (hostile(args[0]),)
        else:
            call = getattr(b, k)
        try:
            self.pre()
            try:
                call(*args)
            finally:
                self.post()
            ok, err = True, None
        except (ValueError, TypeError, RuntimeError) as e:
            ok, err = False, e
        return legal, ok, err

    def step(self, n, op):
        np = _np
        k, v = op
        log = self.log
        if k == "snapshot":
            self.pre()
            try:
                s = self.b.snapshot()
            finally:
                self.post()
            self.compare(s, "snapshot after op %d" % n)
            self.snaps.append((s, builder.canon(_ak.to_list(s))))
            return
        if k == "check":
            self.check(n)
            return
        if k == "drop":
            if self.snaps:
                self.snaps.pop(v % len(self.snaps))
            return
        if k == "clear":
            self.guard(self.b._layout.clear)
            self.m.clear()
            self.check(n)
            log.probe("clear")
            return
        if k == "peek":
            want = self.m.value()
            if want:
                got = self.b[v % len(want)]
                got = _ak.to_list(got)
                if self.same(got) != self.same(want[v % len(want)]):
                    raise core.Violation("value-differs", "item %d after op %d: %s, expected %s" % (v % len(want), n, str(got)[:300], str(want)[:300]))
            return
        if k == "badarg":
            before = builder.canon(self.m.value())
            for f, a in [[("integer", 2**70)], [("integer", "x")], [("real", "x")], [("string", 3)], [("bytestring", 3)], [("datetime", 3)]][v % 6]:
                try:
                    getattr(self.b, f)(a)
                    raise core.Violation("accepted", "%s(%r) did not raise" % (f, a))
                except (TypeError, ValueError, RuntimeError):
                    log.fault("bad_argument")
            return
        if k in ("complex",):
            args = (complex(*v),)
        elif k == "datetime":
            args = (np.datetime64(v[0]).astype("datetime64[%s]" % v[1]),)
        elif k == "timedelta":
            args = (np.timedelta64(v[0], v[1]),)
        elif k == "bytestring":
            args = (v.encode(),)
        elif k in ("null", "begin_list", "end_list", "end_tuple", "end_record"):
            args = ()
        elif k == "append":
            args = (make(v),)
        elif k in ("append_at", "append_array", "append_record", "extend"):
            return self.source(n, k, v)
        else:
            args = (v,)
        legal, ok, err = self.both(k, *args)
        if legal and not ok:
            raise core.Violation("legal-command-failed", "op %d %s %s: %s: %s" % (n, k, v, type(err).__name__, str(err)[:300]))
        if not legal and ok:
            raise core.Violation("illegal-command-accepted", "op %d %s %s" % (n, k, v))
        if not legal:
            log.fault("illegal_command")
            self.check(n)
            if self.m.stuck or (k == "append" and self.m.open()):
                # what is open now cannot be completed any more; only the finished data count
                self.b._layout.clear()
                self.m.clear()

    def source(self, n, k, v):
        if not self.src:
            return
        ak = _ak
        a, want = self.src[v[0] % len(self.src)]
        at = v[1]
        if at < 1000:
            at = at % len(want)
        m, b = self.m, self.b
        try:
            m.place()
            legal = True
        except builder.Illegal:
            legal = False
        try:
            if k == "append_at":
                legal = legal and at < len(want)
                self.guard(b.append, a, at)
                vals = [want[at]] if at < len(want) else []
            elif k == "append_record":
                r = a[at % len(want)]
                if not isinstance(r, ak.Record):
                    return
                self.guard(b.append, r)
                vals = [want[at % len(want)]]
            elif k == "append_array":
                self.guard(b.append, a)
                vals = [list(want)]
            else:
                if m.stack[-1].kind not in ("top", "list"):
                    return
                self.extending = want
                self.guard(b.extend, a)
                vals = want
            ok, err = True, None
        except (ValueError, RuntimeError, TypeError) as e:
            ok, err, vals = False, e, []
        if ok and not legal:
            raise core.Violation("illegal-command-accepted", "op %d %s %s" % (n, k, v))
        if legal and not ok:
            raise core.Violation("legal-command-failed", "op %d %s %s: %s: %s" % (n, k, v, type(err).__name__, str(err)[:300]))
        for x in vals:
            if k == "append_array":
                m.place().lst = m.place().lst or builder.Node()
            m.put(x)
        self.log.probe(k)

    def compare(self, s, where):
        want = self.m.value()
        got = _ak.to_list(s)
        self.log.probe("compared")
        if self.same(got) != self.same(want):
            raise core.Violation("value-differs", "%s: got %s, expected %s" % (where, str(got)[:600], str(want)[:600]))

    def check(self, n):
        if len(self.b) != len(self.m.stack[0].items):
            raise core.Violation("length-differs", "after op %s: %d, expected %d" % (n, len(self.b), len(self.m.stack[0].items)))
        self.compare(self.b.snapshot(), "after op %s" % n)

    def old(self, where):
        for i, (s, want) in enumerate(self.snaps):
            got = _ak.to_list(s)
            if builder.canon(got) != want:
                raise core.Violation("snapshot-changed", "%s: snapshot %d is now %s, was %s" % (where, i, str(got)[:400], want[:400]))
        for i, (a, want) in enumerate(self.src):
            if builder.canon(_ak.to_list(a)) != builder.canon(want):
                raise core.Violation("source-changed", "%s: source array %d changed" % (where, i))


def hostile(o):
    """The same object with something inconvertible where the model has Bad."""
    if isinstance(o, builder.Bad):
        return object()
    if isinstance(o, list):
        return [hostile(x) for x in o]
    if isinstance(o, tuple):
        return tuple(hostile(x) for x in o)
    if isinstance(o, dict):
        return {k: hostile(x) for k, x in o.items()}
    return o


def execute(plan, log):
    r = Run(plan, log)
    log.nontrivial = len(plan["ops"]) > 3
    for n, op in enumerate(plan["ops"]):
        r.step(n, op)
        log.ev(n, op[0], len(r.m.stack))
        log.state(op[0], len(r.m.stack), r.m.stack[-1].kind, type(r.b._layout.snapshot()).__name__ if n % 7 == 0 else "")
    r.check("last")
    r.old("finally")
    s = r.b.snapshot()
    want = builder.canon(r.m.value())
    r.b._layout.clear()
    r.b.integer(1)
    got = _ak.to_list(s)
    if builder.canon(got) != want:
        raise core.Violation("snapshot-changed", "after clear: %s" % str(got)[:400])
    del r.b
    if builder.canon(_ak.to_list(s)) != want:
        raise core.Violation("snapshot-changed", "after the builder is gone")
    r.old("after the builder is gone")


def simplify(plan):
    for key, v in (("initial", 1024), ("resize", 1.5)):
        if plan[key] != v:
            yield dict(plan, **{key: v})
