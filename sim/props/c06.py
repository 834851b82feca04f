"""C06: a failed allocation while building loses nothing already built."""
import copy

from sim import builder, core
from sim.props import c05

TIMEOUT = 60.0
SHRINK_LISTS = ["ops", "sources", "fails"]
template = c05.template


def gen(rng, tier):
    plan = c05.gen(rng, tier)
    plan["initial"] = rng.choice([0, 1, 1, 2, 3, 8])
    plan["resize"] = rng.choice([1.0, 1.1, 1.5, 2.0])
    n = len(plan["ops"])
    plan["fails"] = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        # [command at or after which to arm, n-th allocation of that command, how many fail, scalar too, calls to keep trying, go on without clearing]
        plan["fails"].append([rng.randrange(n), rng.choice([1, 1, 1, 2, 2, 3, 4, 6, 9]), rng.choice([1, 1, 1, 2, 100]), rng.choice([0, 0, 1]), rng.choice([1, 3, 30]), int(rng.random() < 0.6)])
    return plan


class Oom(Exception):
    pass


class Run(c05.Run):
    want = None
    same = staticmethod(builder.canon)

    def pre(self):
        if self.want:
            # the bundled pybind11 does not survive failing small allocations when it returns new objects
            self.vs.vs_alloc_arm(self.want[1], self.want[2], 0, 0 if self.name == "snapshot" else self.want[3])

    def post(self):
        self.vs.vs_alloc_disarm()
        if self.want:
            self.failed = self.vs.vs_alloc_failed()
            self.want[4] -= 1
            if self.failed or self.want[4] <= 0:
                self.want = None



def lean(x):
    """A record lacking a field and one having None there look the same: which field names the failed call
    introduced is not settled."""
    if isinstance(x, builder.RecVal):
        x = builder.plain(x)
    if isinstance(x, dict):
        return {k: lean(v) for k, v in x.items() if v is not None}
    if isinstance(x, list):
        return [lean(v) for v in x]
    if isinstance(x, tuple):
        return tuple(lean(v) for v in x)
    return x


def canon(x):
    return builder.canon(lean(x))


def execute(plan, log):
    ak = c05._ak
    r = Run(plan, log)
    r.vs = core.vsim().lib
    fails = sorted((list(f) for f in plan["fails"]), key=lambda f: f[0])
    log.nontrivial = False
    for n, op in enumerate(plan["ops"]):
        while fails and fails[0][0] <= n and r.want is None:
            r.want = fails.pop(0)
        r.failed, r.name = 0, op[0]
        before = [x for x in r.m.stack[0].items]
        model = copy.deepcopy(r.m) if r.want and len(r.m.stack) == 1 else None
        go_on = bool(r.want and r.want[5])
        err = None
        try:
            r.step(n, op)
        except MemoryError as e:
            err = e
        except core.Violation as e:
            if not (r.failed and e.kind == "legal-command-failed"):
                raise
            err = e
        log.ev(n, op[0], len(r.m.stack), r.failed, type(err).__name__)
        log.state(op[0], len(r.m.stack), r.m.stack[-1].kind, bool(r.failed), err is not None)
        if err is not None and not r.failed:
            raise err
        if not r.failed:
            continue
        log.fault("alloc", r.failed)
        if err is None:
            log.probe("survived_failure")
            continue
        log.probe("failed_call")
        after(r, before, op, n, model if go_on else None)
    r.want = None
    r.check("last")
    r.old("finally")


def after(r, before, op, n, model):
    """A call failed for lack of memory: what was complete before must still be there, exactly, or be reported as lost."""
    ak = c05._ak
    r.same = canon
    old = canon([builder.plain(x) for x in before])
    new = canon(r.m.value())
    r.old("after a failed allocation in op %d %s" % (n, op))
    try:
        items = ak.to_list(r.b.snapshot())
        got = canon(items)
    except (ValueError, RuntimeError, MemoryError) as e:
        r.log.probe("reported_lost")
        got = None
    if op[0] == "clear":
        if got is not None and got not in (old, "[]"):
            raise core.Violation("data-altered", "op %d clear failed for lack of memory; the builder now holds %s, before %s" % (n, got[:300], old[:300]))
    elif op[0] == "extend" and got is not None:
        # values are appended one by one
        if not (len(before) <= len(items) <= len(before) + len(r.extending) and canon(items) == canon([builder.plain(x) for x in before] + r.extending[:len(items) - len(before)])):
            raise core.Violation("data-altered", "op %d %s failed for lack of memory; the builder now holds %s, before %s" % (n, op, got[:300], old[:300]))
    elif got is not None and got not in (old, new):
        raise core.Violation("data-altered", "op %d %s failed for lack of memory; the builder now holds %s, before %s" % (n, op, got[:300], old[:300]))
    if model is not None and got == old and op[0] not in ("clear", "append", "append_array", "extend"):
        # the failed command left nothing behind: building goes on as if it had not been tried
        r.m = model
        r.log.probe("went_on")
        return
    # start again
    r.b._layout.clear()
    r.m.clear()
    if len(r.b) != 0 or builder.canon(ak.to_list(r.b.snapshot())) != "[]":
        raise core.Violation("not-cleared", "after op %d" % n)
    r.old("after clearing")


def simplify(plan):
    for key, v in (("initial", 1024), ("resize", 1.5)):
        if plan[key] != v:
            yield dict(plan, **{key: v})
    for i, f in enumerate(plan["fails"]):
        for g in ([f[0], 1, 1, 0, 1, f[5]], [f[0], f[1], 1, f[3], f[4], f[5]], [f[0], f[1], f[2], 0, f[4], f[5]], f[:5] + [0], [0] + f[1:]):
            if g != f:
                yield dict(plan, fails=plan["fails"][:i] + [g] + plan["fails"][i + 1:])
