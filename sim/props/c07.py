"""C07: running out of memory in an array operation is an exception, never bad data."""
from sim import core, data, ops
from sim.props import c01, c02

TIMEOUT = 60.0
SHRINK_LISTS = ["ops", "values"]
_ak = None


def template():
    global _ak
    import awkward as ak
    _ak = ak
    c02.template()


def gen(rng, tier):
    plan = c01.gen(rng, tier)
    plan["sched"] = []
    plan["islazy"] = rng.random() < 0.25
    if not plan["islazy"]:
        plan["prob"] = 0
    scal = 0    # the pybind11 casts do not survive failing small allocations
    out = []
    for o in plan["ops"]:
        # which of the allocations of this operation fails, for how long, and whether small C++ allocations count
        out.append(o + [[rng.randrange(1 << 16), rng.choice([1, 1, 1, 2, 10**6]), scal, int(rng.random() < 0.3)] if rng.random() < 0.7 else None])
    plan["ops"] = out
    return plan


def execute(plan, log):
    ak = _ak
    vs = core.vsim().lib
    vs.vs_alloc_junk(0x5A)
    w, caches, lz, eager, lazy = c01.build(plan, log, ())
    subject = lazy if plan["islazy"] else data.layout(plan["values"], plan["schema"], plan["layout"], plan["exotic"])
    pool = [(ak.Array(eager), ak.Array(subject))]
    kept = [c02.outcome(c01.value, pool[0][1], False)]
    twin = None
    log.nontrivial = False
    for k, (name, i, j, e, fail) in enumerate(plan["ops"]):
        pe, pl = pool[i % len(pool)]
        oe, ol = pool[j % len(pool)]
        f = ops.resolve(name, e, pe)
        if f is None or c01.skip(name, pe, oe):
            continue
        where = "op %d %s e=%s" % (k, name, e)
        loose = name in c01.MERGY
        full = fail and fail[3]         # reading the result is part of the operation

        def act(a, o):
            r = f(a, o)
            if full:
                c01.value(r, loose)
            return r

        if fail:
            vs.vs_alloc_arm(-1, 0, 0, fail[2])
        re_ = c02.outcome(act, pe, oe)
        n = 0
        if fail:
            n = vs.vs_alloc_seen()
            vs.vs_alloc_disarm()
        ve = c02.outcome(c01.value, re_[1], loose) if re_[0] == "ok" else re_
        log.ev("op", k, name, ve[0], n)
        rl = None
        if fail and n:
            at = 1 + fail[0] % n
            vs.vs_alloc_arm(at, fail[1], 0, fail[2])
            rl = c02.outcome(act, pl, ol)
            vs.vs_alloc_disarm()
            failed = vs.vs_alloc_failed()
            log.ev("armed", at, failed, rl[0])
            if failed:
                log.fault("alloc", failed)
                log.state(name, at if at < 8 else 8, rl[0], rl[1] if rl[0] == "err" else "", type(pl.layout).__name__)
            c02.scan(caches, lz, where)
            for m, (want, (_, a)) in enumerate(zip(kept, pool)):
                got = c02.outcome(c01.value, a, False)
                if got != want:
                    raise core.Violation("operand-changed", "%s (allocation %d of %d failed): array %d is now %s, was %s" % (where, at, n, m, str(got)[:400], str(want)[:400]))
            if rl[0] == "ok":
                log.probe("failure_harmless" if failed else "not_reached")
                vl = c02.outcome(c01.value, rl[1], loose)
                c02.same(name, ve, vl, where + " (returned although allocation %d of %d failed)" % (at, n) if failed else where)
            else:
                log.probe("reported" if failed else "both_raise")
                if not failed and ve[0] == "ok":
                    raise core.Violation("outcome-differs", "%s: raises %s only in the second run" % (where, rl))
        rl = c02.outcome(act, pl, ol)
        vl = c02.outcome(c01.value, rl[1], loose) if rl[0] == "ok" else rl
        c02.same(name, ve, vl, where + " (repeated with enough memory)")
        if ve[0] == "ok" and not c01.unsettled(ve[1], re_[1], rl[1]) and isinstance(re_[1], (ak.Array, ak.Record)) and len(pool) < 8:
            pool.append((re_[1], rl[1]))
            kept.append(c02.outcome(c01.value, rl[1], False))


def simplify(plan):
    for key, v in (("islazy", False), ("exotic", 0), ("prob", 0)):
        if plan[key] != v:
            yield dict(plan, **{key: v})
    for i, o in enumerate(plan["ops"]):
        if o[4]:
            for g in (None, [o[4][0], 1, 0, 0], [o[4][0], 1, 0, o[4][3]]):
                if g != o[4]:
                    yield dict(plan, ops=plan["ops"][:i] + [o[:4] + [g]] + plan["ops"][i + 1:])
