"""C11: stepping, pausing and resuming a Forth program changes nothing."""
import gc

from sim import core, forth

TIMEOUT = 60.0
SHRINK_LISTS = ["drives"]
_fm = None
np = None


def template():
    global _fm, np
    import numpy
    import awkward  # noqa: F401
    import awkward.forth as fm
    _fm, np = fm, numpy


HOST = [
    [],
    [["lit", 3], ["lit", 0], ["do", [["w", "i"], ["w", "drop"]]]],
    [["lit", 7], ["w", "drop"], ["w", "true"], ["if", [["exit"]]], ["lit", 1]],
    [["lit", 4], ["lit", 0], ["do", [["w", "i"], ["lit", 2], ["w", "="], ["if", [["exit"]]]]]],
    [["lit", 4], ["until", [["w", "1-"], ["w", "dup"], ["w", "0="]]], ["w", "drop"]],
    [["lit", 6], ["lit", 0], ["doplus", [["lit", 2], ["lit", 0], ["do", [["w", "j"], ["w", "i"], ["w", "+"], ["w", "drop"]]], ["lit", 2]]]],
    [["pause"], ["lit", 1], ["w", "drop"]],
    [["lit", 3], ["lit", 0], ["do", [["w", "true"], ["if", [["pause"]]]]]],
    [["w", "false"], ["ifelse", [["lit", 1]], [["pause"], ["exit"]]]],
]


def gen(rng, tier):
    g = forth.Gen(rng, reads=rng.random() < 0.7, errors=rng.choice([0, 0, 0, 0.02]))
    prog = g.prog()
    hosts = rng.sample(range(len(HOST)), 2)
    for i, h in enumerate(hosts):
        prog["words"].insert(rng.randrange(len(prog["words"]) + 1) if i else 0, ["h%d" % i, HOST[h]])
    drives = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        k = rng.choice(["step", "mix", "mix", "mix", "abandon", "reset", "calls", "decompiled", "after"])
        d = [k]
        if k in ("mix", "abandon"):
            moves = []
            for _ in range(rng.choice([2, 4, 8, 20])):
                moves.append(rng.choice([["step", rng.choice([1, 1, 2, 3, 7])], ["step", 1], ["resume"], ["call", rng.randrange(2)],
                                         ["peek"], ["pushpop", rng.randrange(-5, 5)], ["other"], ["keep"], ["gc"]]))
            d.append(moves)
        elif k in ("calls", "after"):
            d.append([[rng.randrange(8), [rng.randrange(-3, 6) for _ in range(rng.choice([0, 0, 1, 2]))]] for _ in range(rng.choice([1, 1, 2]))])
        drives.append(d)
    plan = {"prog": prog, "bits": rng.choice([32, 64]), "inputs": {x: forth.data(rng, rng.choice([0, 20, 100, 600, 600, 600, 1500])).hex() for x in g.inputs},
            "drives": drives, "init": rng.choice([1, 1, 2, 3, 1024]), "resize": rng.choice([1.1, 1.5, 2.0]),
            "stack": rng.choice([1024, 1024, 1024, 6]), "depth": rng.choice([64, 64, 64, 5])}
    if any(d[0] in ("mix", "abandon") for d in drives):
        plan["stack"], plan["depth"] = 1024, 64
    return plan


def machine(plan, src=None):
    cls = _fm.ForthMachine32 if plan["bits"] == 32 else _fm.ForthMachine64
    return cls(forth.source(plan["prog"]) if src is None else src, stack_size=plan["stack"], recursion_depth=plan["depth"],
               output_initial_size=plan["init"], output_resize_factor=plan["resize"])


def inputs(plan):
    return {k: np.frombuffer(bytes.fromhex(v), np.uint8).copy() for k, v in plan["inputs"].items()}


def model(plan):
    return forth.Model(plan["prog"], {k: bytes.fromhex(v) for k, v in plan["inputs"].items()}, plan["bits"], plan["stack"], plan["depth"])


def attempt(f, *args):
    """The machine's error, or None."""
    try:
        f(*args)
    except ValueError as e:
        return forth.error(e)
    return None


def compare(want, got, where, plan):
    if want != got:
        bad = [k for k in want if want[k] != got[k]]
        raise core.Violation("state-differs", "%s: %s is %s, should be %s; program: %s" % (
            where, bad, str([got[k] for k in bad])[:500], str([want[k] for k in bad])[:500], forth.source(plan["prog"])[:1500]))


def against(want, got, what, where, plan):
    if want != got:
        raise core.Violation("outcome-differs", "%s: %s is %r, should be %r; program: %s" % (where, what, got, want, forth.source(plan["prog"])[:1500]))


def execute(plan, log):
    prog = plan["prog"]
    ref = model(plan)
    pauses = []
    try:
        for _ in ref.main():
            pauses.append(ref.visible())
    except forth.Unsettled as e:
        log.probe("unsettled " + str(e))
        return
    final = ref.visible(ref.error is None)
    log.ev("model", len(pauses), ref.error, ref.instr, final)
    log.probe("error" if ref.error else "finished")

    def finish(m, err, where):
        against(ref.error, err, "the error", where, plan)
        compare(final, forth.visible(m, prog, ref.error is None), where + " at the end", plan)
        if ref.error is None:
            against(True, m.is_done, "is_done", where, plan)
            against("is done", attempt(m.resume), "the answer to resume at the end", where, plan)

    # straight run
    m = machine(plan)
    ins = inputs(plan)
    at = {}
    err = attempt(m.run, ins)
    n = 0
    while err is None and not m.is_done and n < len(pauses):
        compare(pauses[n], forth.visible(m, prog), "run, pause %d" % n, plan)
        at[m.count_instructions] = pauses[n]
        n += 1
        err = attempt(m.resume)
    against(None, None, "", "", plan)
    # a pause as the very last instruction may leave the machine either done or to be resumed once more
    against(True, n == len(pauses) or (n == len(pauses) - 1 and ref.error is None), "number of pauses %d of %d" % (n, len(pauses)), "run", plan)
    finish(m, err, "run")
    total = m.count_instructions
    log.ev("run", total, m.count_reads, m.count_writes)
    counts = (total, m.count_reads, m.count_writes)
    log.nontrivial = bool(pauses) or len(plan["drives"]) > 0

    # single steps
    trace = {}
    s = machine(plan)
    s.begin(ins)
    err, n = None, 0
    while err is None and not s.is_done:
        err = attempt(s.step)
        n += 1
        if n > total + 5:
            raise core.Violation("no-progress", "stepping does not come to an end: %d steps, where running takes %d instructions; program: %s" % (n, total, forth.source(prog)[:1500]))
        if err is None and not s.is_done and total < 600:
            trace[s.count_instructions] = forth.visible(s, prog)
    finish(s, err, "step")
    against(counts, (s.count_instructions, s.count_reads, s.count_writes), "instruction, read and write counts", "step", plan)
    for c, v in at.items():
        if c in trace:
            compare(v, trace[c], "step, after %d instructions" % c, plan)
    log.ev("stepped", n)

    for dn, d in enumerate(plan["drives"]):
        where = "drive %d %s" % (dn, d[0])
        if d[0] == "step":
            s.begin(ins)
            err = None
            while err is None and not s.is_done:
                err = attempt(s.step)
            finish(s, err, where)
        elif d[0] == "reset":
            m.reset()
            against("not ready", attempt(m.resume), "the answer to resume after reset", where, plan)
            straight(m, ins, where, pauses, prog, plan, finish)
        elif d[0] == "decompiled":
            straight(machine(plan, m.decompiled), ins, where, pauses, prog, plan, finish)
        elif d[0] in ("mix", "abandon"):
            m = machine(plan)
            m.begin(ins)
            drive(plan, log, m, d[1], trace, total, where, finish, d[0] == "abandon")
            if d[0] == "abandon":
                straight(m, ins, where + " and restarted", pauses, prog, plan, finish)
        elif d[0] in ("calls", "after"):
            try:
                calls(plan, log, d, where)
            except forth.Unsettled as e:
                log.probe("unsettled call")


def straight(m, ins, where, pauses, prog, plan, finish):
    err = attempt(m.run, ins)
    n = 0
    while err is None and not m.is_done:
        if n >= len(pauses):
            raise core.Violation("outcome-differs", "%s: more pauses than in the program" % where)
        compare(pauses[n], forth.visible(m, prog), "%s, pause %d" % (where, n), plan)
        n += 1
        err = attempt(m.resume)
    finish(m, err, where)


def drive(plan, log, m, moves, trace, total, where, finish, abandon):
    prog = plan["prog"]
    err, extra = None, 0
    kept = []
    rewinds = "rewind" in forth.source(prog)
    i = 0
    guard = 0
    while err is None and not m.is_done:
        if i < len(moves):
            mv = moves[i]
            i += 1
        elif abandon:
            return
        else:
            mv = ["resume"] if guard % 3 else ["step", 1]
        guard += 1
        if guard > total + 50:
            raise core.Violation("no-progress", "%s: %d steps and resumes, where running takes %d instructions; program: %s" % (where, guard, total, forth.source(prog)[:1500]))
        k = mv[0]
        if k == "step":
            for _ in range(mv[1]):
                if err is None and not m.is_done:
                    err = attempt(m.step)
        elif k == "resume":
            err = attempt(m.resume)
        elif k == "call":
            before = m.count_instructions
            r = forth.Model(prog, m_inputs(plan), plan["bits"], plan["stack"], plan["depth"])
            n = sum(1 for _ in r.called("h%d" % mv[1]))
            e = attempt(m.call, "h%d" % mv[1])
            for _ in range(n):
                if e is None:
                    e = attempt(m.resume)
            against(None, e, "the error of a word called meanwhile", where, plan)
            extra += m.count_instructions - before
            log.fault("call")
        elif k == "peek":
            m.current_bytecode_position, m.current_recursion_depth, m.is_segment_done, m.decompiled, m.bytecodes, m.outputs, m.stack, m.dictionary
            try:
                log.state("at", m.current_instruction.split()[0], min(9, m.current_recursion_depth))
            except ValueError:
                pass
        elif k == "pushpop":
            if len(m.stack) < plan["stack"]:
                m.stack_push(mv[1])
                against(mv[1], m.stack_pop(), "what was pushed", where, plan)
        elif k == "other":
            o = machine(plan)
            attempt(o.run, {x: np.arange(40, dtype=np.uint8) % 3 for x in prog["inputs"]} if total < 400 else inputs(plan))
        elif k == "keep":
            kept.append({name: (m.output_NumpyArray(name), np.asarray(m.output_NumpyArray(name)).copy()) for name, _ in prog["outputs"]})
        elif k == "gc":
            gc.collect()
        log.state(where.split()[2], k, min(9, len(m.stack)), err)
        if err is None and not m.is_done:
            c = m.count_instructions - extra
            if c in trace:
                compare(trace[c], forth.visible(m, prog), "%s, after %s, %d instructions" % (where, mv, c), plan)
                log.probe("stop compared")
    if err is None:
        against(total, m.count_instructions - extra, "instruction count", where, plan)
    finish(m, err, where)
    if not rewinds:
        for snap in kept:
            for name, (a, copy) in snap.items():
                if not np.array_equal(np.asarray(a), copy, equal_nan=copy.dtype.kind == "f"):
                    raise core.Violation("snapshot-changed", "%s: output %s seen as %s became %s" % (where, name, copy.tolist(), np.asarray(a).tolist()))


def m_inputs(plan):
    return {k: bytes.fromhex(v) for k, v in plan["inputs"].items()}


def calls(plan, log, d, where):
    """Words called from outside, before or after the program proper, against the model."""
    prog = plan["prog"]
    ref = model(plan)
    m = machine(plan)
    ins = inputs(plan)
    names = [w for w, _ in prog["words"]]
    err = None
    if d[0] == "after":
        for _ in ref.main():
            pass
        if ref.error:
            return
        err = attempt(m.run, ins)
        while err is None and not m.is_done:
            err = attempt(m.resume)
    else:
        m.begin(ins)
    for k, args in d[1]:
        name = names[k % len(names)]
        if prog["words"][k % len(names)][1][-1:] == [["pause"]]:
            return      # whether the call is over at that pause is left open
        if len(ref.stack) + len(args) > plan["stack"]:
            return
        for a in args:
            ref.stack.append(a)
            m.stack_push(a)
        base = 1 if d[0] == "calls" else 0      # the program proper is waiting
        ref.depth = base
        e = attempt(m.call, name)
        for _ in ref.called(name):
            against(None, e, "the error before a pause", "%s %s" % (where, name), plan)
            compare(ref.visible(), forth.visible(m, prog), "%s %s at a pause" % (where, name), plan)
            e = attempt(m.resume)
        log.ev("call", name, e)
        against(ref.error, e, "the error", "%s %s" % (where, name), plan)
        compare(ref.visible(ref.error is None), forth.visible(m, prog, ref.error is None), "%s %s" % (where, name), plan)
        log.state("call", d[0], e, min(5, len(args)))
        if ref.error:
            return
    if d[0] == "calls":
        ref.depth = 0
        e = None
        for _ in ref.main():
            e = attempt(m.resume)
            against(None, e, "the error before a pause", where, plan)
            compare(ref.visible(), forth.visible(m, prog), where + ", program at a pause", plan)
        if not m.is_done:
            e = attempt(m.resume)
        against(ref.error, e, "the error", where + ", program", plan)
        compare(ref.visible(ref.error is None), forth.visible(m, prog, ref.error is None), where + ", program", plan)


def _bodies(prog):
    yield "main", prog["main"]


def simplify(plan):
    prog = plan["prog"]
    for key, v in (("init", 1024), ("resize", 1.5), ("stack", 1024), ("depth", 64), ("bits", 32)):
        if plan[key] != v:
            yield dict(plan, **{key: v})
    for i, d in enumerate(plan["drives"]):
        if len(d) > 1:
            for j in range(len(d[1])):
                yield dict(plan, drives=plan["drives"][:i] + [[d[0], d[1][:j] + d[1][j + 1:]]] + plan["drives"][i + 1:])
    for b in smaller(prog["main"]):
        yield dict(plan, prog=dict(prog, main=b))
    for i, (name, body) in enumerate(prog["words"]):
        if name[0] != "h" and ('"%s"' % name) not in __import__("json").dumps([prog["main"]] + [b for w, b in prog["words"] if w != name]):
            yield dict(plan, prog=dict(prog, words=prog["words"][:i] + prog["words"][i + 1:]))
        for b in smaller(body):
            yield dict(plan, prog=dict(prog, words=prog["words"][:i] + [[name, b]] + prog["words"][i + 1:]))
    src = forth.source(dict(prog, variables=[], inputs=[], outputs=[]))
    for key in ("variables", "inputs"):
        for x in prog[key]:
            if x not in src.split():
                yield dict(plan, prog=dict(prog, **{key: [y for y in prog[key] if y != x]}), inputs={k: v for k, v in plan["inputs"].items() if k != x})
    for o in prog["outputs"]:
        if o[0] not in src.split():
            yield dict(plan, prog=dict(prog, outputs=[y for y in prog["outputs"] if y != o]))


def smaller(body):
    n = len(body)
    for size in (8, 4, 2, 1):
        if size <= n:
            for i in range(0, n - size + 1):
                yield body[:i] + body[i + size:]
    for i, node in enumerate(body):
        if node[0] in ("if", "ifelse", "do", "doplus", "until", "again", "while"):
            for part in node[1:]:
                yield body[:i] + part + body[i + 1:]
            for k in range(1, len(node)):
                for b in smaller(node[k]):
                    yield body[:i] + [node[:k] + [b] + node[k + 1:]] + body[i + 1:]
        elif node[0] == "lit" and node[1] not in (0, 1):
            yield body[:i] + [["lit", 1]] + body[i + 1:]
