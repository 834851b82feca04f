"""C12: malformed or truncated input to a Forth program is an error, never garbage."""
import ctypes
import mmap

from sim import core, forth
from sim.props import c11

TIMEOUT = 60.0
SHRINK_LISTS = ["rounds"]
PAGE = 4096
L = None


def template():
    c11.template()
    global L
    L = ctypes.CDLL(None)
    L.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]


def gen(rng, tier):
    g = forth.Gen(rng, reads=True, errors=rng.choice([0, 0.02, 0.05]), hostile=rng.choice([0.1, 0.4, 0.7]))
    prog = g.prog()
    if rng.random() < 0.5:
        # mostly reading
        body = []
        while len(body) < 24:
            body.extend(g.piece(0, 0, False))
        prog["main"] = [n for n in prog["main"]] + [n for n in body]
    ins = {x: forth.data(rng, rng.choice([0, 5, 40, 300, 900, 900])).hex() for x in g.inputs}
    rounds = []
    for _ in range(rng.choice([2, 3, 4, 6])):
        f = []
        if rng.random() < 0.75:
            for _ in range(rng.choice([1, 1, 2, 3])):
                x = rng.choice(g.inputs)
                n = len(ins[x]) // 2
                f.append(rng.choice([
                    ["truncate", x, rng.randrange(n + 1)], ["truncate", x, rng.randrange(n + 1)],
                    ["flip", x, rng.randrange(1 << 16), rng.randrange(8)], ["flip", x, rng.randrange(64), rng.randrange(8)],
                    ["extreme", x, rng.randrange(64), rng.choice(["ffffffffffffffff", "8000000000000000", "0000000000000080", "7fffffffffffffff", "ffffffffffffff7f", "00000080", "ffffff7f", "ffff", "80", "fffefdfcfbfaf9f8f7f6f5f4"])],
                    ["noise", x, rng.randrange(1 << 16), rng.choice([1, 4, 30, 200])],
                    ["empty", x]]))
        rounds.append({"faults": f, "how": rng.choice(["run", "run", "run", "step", "flags"]), "edge": rng.choice(["end", "end", "start"]),
                       "form": rng.choice(["guard", "guard", "guard", "bytes", "bytearray", "strided", "reversed", "2d", "items"]),
                       "alloc": [rng.choice([1, 2, 3, 5, 8, 13, 20, 35]), rng.choice([1, 1, 100])] if rng.random() < 0.25 else None,
                       "bad": rng.choice(["missing", "type", "extra"]) if rng.random() < 0.05 else None})
    return {"prog": prog, "bits": rng.choice([32, 64]), "inputs": ins, "rounds": rounds,
            "init": rng.choice([0, 1, 1, 2, 3, 1024]), "resize": rng.choice([1.0, 1.1, 1.5, 2.0]),
            "stack": rng.choice([1024, 1024, 1024, 8, 4, 2]), "depth": rng.choice([64, 64, 64, 64, 5, 3])}


def faulty(data, faults, log):
    data = {k: bytearray.fromhex(v) for k, v in data.items()}
    for f in faults:
        if f[1] not in data:
            continue
        b = data[f[1]]
        if f[0] == "truncate":
            del b[f[2]:]
        elif f[0] == "flip" and b:
            b[f[2] % len(b)] ^= 1 << f[3]
        elif f[0] == "extreme":
            e = bytes.fromhex(f[3])
            o = f[2] % max(1, len(b) - len(e) + 1)
            b[o:o + len(e)] = e
        elif f[0] == "noise" and b:
            o = f[2] % len(b)
            for i in range(o, min(len(b), o + f[3])):
                b[i] = (i * 167 + f[2] * 13 + 89) & 255
        elif f[0] == "empty":
            del b[:]
        log.fault(f[0])
    return {k: bytes(v) for k, v in data.items()}


class Guarded(object):
    """Bytes lying against an unmapped page, in write-protected memory."""

    def __init__(self, data, edge):
        n = max(1, -(-len(data) // PAGE))
        self.map = mmap.mmap(-1, (n + 2) * PAGE)
        self.base = ctypes.addressof(ctypes.c_char.from_buffer(self.map))
        self.at = self.base + PAGE + (n * PAGE - len(data) if edge == "end" else 0)
        ctypes.memmove(self.at, data, len(data))
        ok = L.mprotect(self.base, PAGE, 0) == 0 and L.mprotect(self.base + (n + 1) * PAGE, PAGE, 0) == 0 and L.mprotect(self.base + PAGE, n * PAGE, 1) == 0
        assert ok
        self.array = (ctypes.c_uint8 * len(data)).from_address(self.at)


def present(data, form, edge, keep):
    np = c11.np
    if form == "guard":
        g = Guarded(data, edge)
        keep.append(g)
        return g.array
    if form == "bytes":
        return data
    if form == "bytearray":
        b = bytearray(data)
        keep.append((b, data))
        return b
    a = np.frombuffer(data, np.uint8).copy()
    if form == "strided":
        big = np.full(2 * len(data), 0xA5, np.uint8)
        big[::2] = a
        keep.append((big, big.copy()))
        return big[::2]
    if form == "reversed":
        rev = a[::-1].copy()
        keep.append((rev, rev.copy()))
        return rev[::-1]
    keep.append((a, a.copy()))
    if form == "2d" and len(data) and len(data) % 2 == 0:
        return a.reshape(2, -1)
    if form == "items" and len(data) % 4 == 0:
        return a.view(np.uint32)
    return a


def execute(plan, log):
    vs = core.vsim().lib
    prog = plan["prog"]
    np = c11.np
    vs.vs_alloc_poison(1, 1 << 20)
    m = c11.machine(plan)
    keep = []
    log.nontrivial = False
    for n, r in enumerate(plan["rounds"]):
        where = "round %d %s %s" % (n, r["how"], r["form"])
        good = faulty(plan["inputs"], r["faults"], log)
        ref = forth.Model(prog, good, plan["bits"], plan["stack"], plan["depth"])
        pauses = []
        try:
            for _ in ref.main():
                pauses.append(ref.visible())
        except forth.Unsettled as e:
            log.probe("unsettled " + str(e))
            continue
        final = ref.visible(ref.error is None)
        log.ev("model", n, ref.error)
        ins = {k: present(v, r["form"], r["edge"], keep) for k, v in good.items()}
        if r["bad"]:
            wrong = dict(ins)
            name = sorted(wrong)[0]
            if r["bad"] == "missing":
                del wrong[name]
            elif r["bad"] == "type":
                wrong[name] = object()
            else:
                wrong["nosuch"] = b"123"
            try:
                m.run(wrong)
                raise core.Violation("bad-input-accepted", "%s: %s input accepted" % (where, r["bad"]))
            except (ValueError, TypeError, RuntimeError, BufferError):
                log.fault("bad " + r["bad"])
        if r["alloc"]:
            vs.vs_alloc_arm(r["alloc"][0], r["alloc"][1], 0, 0)
        try:
            got = go(m, ins, r, pauses, prog, plan, where, log)
        except MemoryError:
            got = "memory"
        finally:
            if r["alloc"]:
                vs.vs_alloc_disarm()
        damage = vs.vs_alloc_damage()
        if damage:
            raise core.Violation("memory-damaged", "%s: %d allocations written outside of their bounds; program: %s" % (where, damage, forth.source(prog)[:1500]))
        unchanged(keep, where)
        if r["alloc"] and vs.vs_alloc_failed():
            log.fault("alloc")
        if got == "refused":
            log.probe("refused")
            continue
        if got == "memory":
            if not r["alloc"]:
                raise core.Violation("outcome-differs", "%s: MemoryError without reason" % where)
            if m.is_ready and not ref.rewound:
                # what was written before stays
                now = forth.visible(m, prog, False)
                for k, v in now["out"].items():
                    if v != final["out"][k][:len(v)]:
                        raise core.Violation("output-corrupted", "%s: after a failed allocation, output %s is %s, should begin like %s" % (where, k, str(v)[:300], str(final["out"][k])[:300]))
            log.probe("memory")
            continue
        log.ev("got", n, got, final)
        log.state(sorted(f[0] for f in r["faults"])[:2], ref.error, r["how"], r["form"])
        c11.against(ref.error, got, "the error", where, plan)
        c11.compare(final, forth.visible(m, prog, ref.error is None), where, plan)
        log.probe(ref.error or "finished")
    unchanged(keep, "at the end")


def unchanged(keep, where):
    for k in keep:
        if isinstance(k, tuple) and bytes(k[0]) != bytes(k[1]):
            raise core.Violation("input-modified", "%s: the input's bytes changed from %s to %s" % (where, bytes(k[1])[:80], bytes(k[0])[:80]))


def go(m, ins, r, pauses, prog, plan, where, log):
    """The machine's error or None; "refused" if it does not take input of this form."""
    awkward_form = r["form"] in ("strided", "reversed")

    def attempt(f, *args):
        try:
            if r["how"] == "flags" and f != m.begin:
                e = f(*args, raise_user_halt=False, raise_recursion_depth_exceeded=False, raise_stack_underflow=False, raise_stack_overflow=False,
                      raise_read_beyond=False, raise_seek_beyond=False, raise_skip_beyond=False, raise_rewind_beyond=False,
                      raise_division_by_zero=False, raise_varint_too_big=False)
                return e
            f(*args)
        except ValueError as e:
            return forth.error(e)
        except BufferError as e:
            return "?" + str(e)
        return None

    n = 0
    if r["how"] == "step":
        err = attempt(m.begin, ins)
        if err is not None and err[0] == "?" and awkward_form:
            return "refused"
        c11.against(None, err, "the error of begin", where, plan)
        k = 0
        while err is None and not m.is_done:
            err = attempt(m.step)
            k += 1
            if k > 20000:
                raise core.Violation("no-progress", "%s: stepping does not come to an end" % where)
        return err
    err = attempt(m.run, ins)
    if err is not None and err[0] == "?" and awkward_form:
        return "refused"
    while err is None and not m.is_done:
        if n >= len(pauses):
            raise core.Violation("outcome-differs", "%s: more pauses than in the program" % where)
        c11.compare(pauses[n], forth.visible(m, prog), "%s, pause %d" % (where, n), plan)
        if r["form"] == "bytearray":
            # its owner tries to make it larger: refused, or without effect on the machine
            for b in ins.values():
                try:
                    b.extend(bytes(5000))
                    del b[-5000:]
                    log.probe("resized")
                except BufferError:
                    log.probe("resize refused")
        n += 1
        err = attempt(m.resume)
    return err


def simplify(plan):
    for p in c11.simplify(dict(plan, drives=[])):
        q = dict(p)
        del q["drives"]
        yield q
    for i, r in enumerate(plan["rounds"]):
        for key, v in (("how", "run"), ("form", "guard"), ("alloc", None), ("bad", None)):
            if r[key] != v:
                yield dict(plan, rounds=plan["rounds"][:i] + [dict(r, **{key: v})] + plan["rounds"][i + 1:])
        for j in range(len(r["faults"])):
            yield dict(plan, rounds=plan["rounds"][:i] + [dict(r, faults=r["faults"][:j] + r["faults"][j + 1:])] + plan["rounds"][i + 1:])
