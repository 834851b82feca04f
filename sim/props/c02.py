"""C02: a failed on-demand read is reported, leaves nothing behind, and is retryable."""
import random

from sim import core, data, ops
from sim.props import c01

TIMEOUT = 60.0
SHRINK_LISTS = ["ops", "sched", "values"]
simplify = c01.simplify
_ak = None
FAULTS = ("evict", "forget", "gen", "interrupt", "short", "form", "garbage", "storefail")


def template():
    global _ak
    import awkward as ak
    _ak = ak
    c01.template()


def gen(rng, tier):
    plan = c01.gen(rng, tier)
    plan["form"] = rng.choice([0, 0.5, 1, 1])
    p = rng.choice([0.05, 0.15, 0.3, 0.6])
    kinds = rng.sample([1, 2, 3, 4, 5, 6], rng.choice([1, 2, 3, 6]))
    plan["sched"] = [rng.choice(kinds) if rng.random() < p else 0 for _ in range(rng.choice([20, 60, 120]))]
    return plan


def outcome(f, *args):
    try:
        return ("ok", f(*args))
    except BaseException as ex:
        if isinstance(ex, (core.Violation, SystemExit)):
            raise
        return ("err", type(ex).__name__, str(ex))


def scan(caches, lz, where):
    """Nothing wrong may be stored under the identity of any source."""
    ak = _ak
    for c in caches:
        for key, val in list(c.d.items()):
            if not isinstance(val, ak.layout.Content):
                raise core.Violation("bad-cache-entry", "%s: %s holds a %s" % (where, key, type(val).__name__))
            want = lz.sources.get(key)
            if want is not None and (len(val) < len(want) or str(val.form) != str(want.form)):
                raise core.Violation("bad-cache-entry", "%s: an array of length %d form %s is stored for a source of length %d form %s"
                                     % (where, len(val), val.form, len(want), want.form))


def same(name, ve, vl, where):
    if ve[0] != vl[0]:
        raise core.Violation("outcome-differs", "%s: eager %s, lazy %s" % (where, str(ve)[:400], str(vl)[:400]))
    if ve[0] == "ok":
        if ve[1][0] != vl[1][0]:
            raise core.Violation("value-differs", "%s: eager %s, lazy %s" % (where, ve[1][0][:500], vl[1][0][:500]))
        if ve[1][1] != vl[1][1] and not c01.typeloose(name, ve[1], vl[1]):
            raise core.Violation("type-differs", "%s: eager %s, lazy %s" % (where, ve[1][1][:300], vl[1][1][:300]))


def run(f, a, o, loose):
    r = outcome(f, a, o)
    if r[0] != "ok":
        return r, r
    return r, outcome(c01.value, r[1], loose)


def execute(plan, log):
    ak = _ak
    w, caches, lz, eager, lazy = c01.build(plan, log, FAULTS)
    pool = [(ak.Array(eager), ak.Array(lazy))]
    for k, (name, i, j, e) in enumerate(plan["ops"]):
        pe, pl = pool[i % len(pool)]
        oe, ol = pool[j % len(pool)]
        f = ops.resolve(name, e, pe)
        if f is None or c01.skip(name, pe, oe):
            continue
        where = "op %d %s e=%s" % (k, name, e)
        loose = name in c01.MERGY
        re_, ve = run(f, pe, oe, loose)
        log.ev("op", k, name, ve[0])
        before = w.live_faults
        w.armed = True
        rl, vl = run(f, pl, ol, loose)
        w.armed = False
        scan(caches, lz, where)
        if w.live_faults > before:
            log.probe("op_hit_by_fault")
            if vl[0] == "err":
                log.probe("reported")
                if ve[0] == "ok":
                    log.state(name, vl[1], type(pl.layout).__name__)
            else:
                # the failed part was not needed after all: then the answer must be right
                log.probe("fault_harmless")
                same(name, ve, vl, where + " (returned normally although a source failed)")
            if rl[0] == "ok":
                # a result whose own parts failed to be read must be readable now
                vl2 = outcome(c01.value, rl[1], loose)
                same(name, ve, vl2, where + " (re-reading the result after recovery)")
            rl, vl = run(f, pl, ol, loose)
            same(name, ve, vl, where + " (retry after recovery)")
            log.probe("retried_ok")
            scan(caches, lz, where + " (retry)")
        else:
            same(name, ve, vl, where)
        if ve[0] == "ok" and not c01.unsettled(ve[1], re_[1], rl[1]) and isinstance(re_[1], (ak.Array, ak.Record)) and len(pool) < 12:
            pool.append((re_[1], rl[1]))
    for n, (pe, pl) in enumerate(pool):
        same("", outcome(c01.value, pe, True), outcome(c01.value, pl, True), "finally, array %d" % n)
    scan(caches, lz, "finally")
