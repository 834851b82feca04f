"""C13: Forth machines running at the same time do not disturb each other."""
from sim import core, forth, native
from sim.props import c11, c12

TIMEOUT = 120.0
SHRINK_LISTS = ["schedule", "machines", "moves"]


def template():
    c12.template()


def gen(rng, tier):
    mode = "native" if rng.random() < 0.8 else "bindings"
    n = rng.choice([2, 2, 3, 4])
    bufs = [forth.data(rng, rng.choice([40, 200, 600, 600])).hex() for _ in range(rng.choice([1, 1, 2]))]
    machines = []
    same = rng.random() < 0.4
    for i in range(n):
        if same and machines:
            m = dict(machines[0])
        else:
            g = forth.Gen(rng, reads=rng.random() < 0.85, errors=rng.choice([0, 0, 0.02]), hostile=rng.choice([0, 0, 0.1]))
            prog = g.prog()
            if g.reads and rng.random() < 0.6:
                # many reads of the same places
                prog["main"] = [["lit", rng.choice([2, 5, 12])], ["lit", 0], ["do", g.body(1, 1, False, 4) + [["lit", 0], ["seek", g.inputs[0]]]]] + prog["main"]
            m = {"prog": prog, "bits": rng.choice([32, 32, 64]), "init": rng.choice([0, 1, 2, 8, 1024]), "resize": rng.choice([1.1, 1.5, 2.0]),
                 "stack": rng.choice([1024, 1024, 64, 6]), "depth": rng.choice([64, 64, 5]),
                 "inputs": {x: rng.randrange(len(bufs)) for x in g.inputs}}
        m["late"] = rng.random() < 0.3
        acts = []
        k = rng.random()
        if k < 0.5:
            acts = [["run"], ["all"]]
        elif k < 0.8:
            acts = [["begin"]] + [rng.choice([["step", rng.choice([1, 3, 20, 200])], ["resume"]]) for _ in range(rng.choice([1, 3, 6]))] + [["all"]]
        else:
            acts = [["run"], ["all"], ["run"], ["all"]]
        if m["prog"]["words"] and rng.random() < 0.3:
            acts.append(["call", rng.choice(m["prog"]["words"])[0]])
        m["acts"] = acts
        machines.append(m)
    plan = {"mode": mode, "bufs": bufs, "machines": machines}
    if mode == "native":
        plan["schedule"] = native.schedule(rng, n)
        plan["moves"] = []
    else:
        plan["schedule"] = []
        plan["form"] = rng.choice(["guard", "guard", "array"])
        plan["moves"] = [[rng.randrange(n), rng.choice(["step", "step", "step", "resume", "restart", "forget", "new"]), rng.choice([1, 1, 2, 5, 20])]
                         for _ in range(rng.choice([10, 40, 100]))]
    return plan


def execute(plan, log):
    if not plan["machines"]:
        return
    if plan["mode"] == "bindings":
        return bindings(plan, log)
    lines = ["sched " + " ".join("%d %d" % (g, t) for g, t in plan["schedule"])]
    lines += ["buf " + b for b in plan["bufs"]]
    for m in plan["machines"]:
        lines.append("machine %d %d %d %d %s %d %s" % (m["bits"], m["stack"], m["depth"], m["init"], m["resize"], m["late"], native.hexed(forth.source(m["prog"]))))
        lines += ["in %s %d" % (k, v) for k, v in sorted(m["inputs"].items())]
        lines += ["act " + " ".join(str(x) for x in a) for a in m["acts"]]
    r = native.run(lines, log)
    if r is None:
        return
    native.judge(r, [forth.source(m["prog"]) for m in plan["machines"]])
    log.state(r["signature"])
    for g in r["got"]:
        log.ev(g)
        log.probe("raised" if "raised:" in g else "error" if any("=%d;" % e in g for e in range(2, 20)) else "finished")


def bindings(plan, log):
    """The Python machines, taking turns instruction by instruction, on the same write-protected inputs."""
    np = c11.np
    shared, keep = [], []
    for b in plan["bufs"]:
        b = bytes.fromhex(b)
        if plan["form"] == "guard" and b:
            keep.append(c12.Guarded(b, "end"))
            shared.append(keep[-1].array)
        else:
            shared.append(np.frombuffer(b, np.uint8).copy())
    copies = [bytes(x) for x in shared]

    def make(m):
        return c11.machine(m)

    def ins(m):
        return {k: shared[v] for k, v in m["inputs"].items()}

    def final(x, m, err):
        v = forth.visible(x, m["prog"], err is None) if err is None else {"var": dict(x.variables)}
        return err, v

    alone = []
    for m in plan["machines"]:
        ref = forth.Model(m["prog"], {k: copies[v] for k, v in m["inputs"].items()}, m["bits"], m["stack"], m["depth"])
        try:
            for _ in ref.main():
                pass
        except forth.Unsettled as e:
            log.probe("unsettled " + str(e))      # too long, for one
            return
        x = make(m)
        x.begin(ins(m))
        err, k = None, 0
        while err is None and not x.is_done:
            err = c11.attempt(x.resume)
            k += 1
            if k > 5000:
                raise core.Violation("no-progress", "more than 5000 pauses")
        alone.append(final(x, m, err))
    xs = []
    for m in plan["machines"]:
        x = make(m)
        x.begin(ins(m))
        xs.append([x, None])
    n = len(xs)
    switches, last = 0, None

    def over(i):
        return xs[i][1] is not None or xs[i][0].is_done

    def check(i):
        got = final(xs[i][0], plan["machines"][i], xs[i][1])
        if got != alone[i]:
            raise core.Violation("interference", "machine %d, taking turns with %d others: %s; alone: %s; program: %s" % (
                i, n - 1, str(got)[:500], str(alone[i])[:500], forth.source(plan["machines"][i]["prog"])[:1000]))
        log.probe("compared")

    for who, what, k in plan["moves"]:
        i = who % n
        m = plan["machines"][i]
        if i != last:
            switches += 1
            last = i
        if over(i):
            check(i)
            xs[i][0].begin(ins(m))
            xs[i][1] = None
        if what == "step":
            for _ in range(k):
                if not over(i):
                    xs[i][1] = c11.attempt(xs[i][0].step)
        elif what == "resume":
            xs[i][1] = c11.attempt(xs[i][0].resume)
        elif what == "restart":
            xs[i][0].begin(ins(m))
        elif what == "forget":
            xs[i][0].reset()
            xs[i][0].begin(ins(m))
        else:
            xs[i][0] = make(m)
            xs[i][0].begin(ins(m))
        log.state(i, what, xs[i][0].count_instructions)
        log.ev(i, what, k, xs[i][1], xs[i][0].count_instructions)
    for i in range(n):
        while not over(i):
            xs[i][1] = c11.attempt(xs[i][0].resume)
        check(i)
    log.fault("turn", switches)
    for a, b in zip(shared, copies):
        if bytes(a) != b:
            raise core.Violation("shared-data-modified", "a shared input buffer is not what it was")


def simplify(plan):
    for i, m in enumerate(plan["machines"]):
        def put(x):
            return dict(plan, machines=plan["machines"][:i] + [x] + plan["machines"][i + 1:])
        for j in range(len(m["acts"])):
            if len(m["acts"]) > 1:
                yield put(dict(m, acts=m["acts"][:j] + m["acts"][j + 1:]))
        for key, v in (("init", 1024), ("resize", 1.5), ("stack", 1024), ("depth", 64), ("late", False)):
            if m[key] != v:
                yield put(dict(m, **{key: v}))
        for b in c11.smaller(m["prog"]["main"]):
            yield put(dict(m, prog=dict(m["prog"], main=b)))
    for i, (g, t) in enumerate(plan["schedule"]):
        if g > 1:
            yield dict(plan, schedule=plan["schedule"][:i] + [[g // 2, t]] + plan["schedule"][i + 1:])
