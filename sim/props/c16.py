"""C16: array memory stays valid until the last reference is gone, and is then given back."""
import ctypes
import gc
import random
import weakref

from sim import core, data, ops, world
from sim.props import c01, c02

TIMEOUT = 60.0
SHRINK_LISTS = ["acts", "values"]
_ak = _np = None
DERIVE = ["op", "op", "op", "op", "numpy", "node", "node", "index", "indexview", "iter", "record", "buffers", "memview", "again", "lowiter", "virtual", "field", "wrap", "partition", "rawnode"]
SOURCE = ["layout", "layout", "numpy", "buffers", "builder", "forth", "forthinput", "lazy", "fromiter", "json"]


def template():
    global _ak, _np
    import awkward as ak
    import numpy as np
    _ak, _np = ak, np
    c02.template()


def gen(rng, tier):
    s = data.rand_schema(rng, rng.choice([0, 1, 2, 3]), None)
    if rng.random() < 0.3 and s[0] != "rec":
        s = ["rec", [["x", s], ["y", ["f64"]]]]
    n = rng.choice([1, 2, 3, 5, 8])
    allowed = [o for o in ops.swarm(rng) if o not in c01.EXCLUDE]
    acts = []
    m = rng.choice([8, 16, 30])
    pd = rng.choice([0.2, 0.4])
    for i in range(m):
        r = rng.random()
        if i == 0 or r < 0.15:
            acts.append(["src", rng.choice(SOURCE), rng.randrange(1 << 30)])
        elif r < 0.15 + pd:
            acts.append(["drop", rng.randrange(1 << 16)])
        elif r < 0.22 + pd:
            acts.append(["gc"])
        elif r < 0.28 + pd:
            acts.append(["cyc", rng.randrange(1 << 16)])
        else:
            k = rng.choice(DERIVE)
            acts.append(["derive", rng.randrange(1 << 16), k, ops.choose(rng, allowed) if k == "op" else "", ops.entropy(rng)])
    return {"schema": s, "values": data.rand_data(rng, s, n), "exotic": rng.choice([0, 0.5, 1]), "acts": acts, "gcoff": rng.random() < 0.5}


class Bufs(object):
    """Source buffers that turn into poison the moment nobody refers to them (but stay mapped)."""

    def __init__(self, log):
        self.log, self.live, self.made = log, 0, 0

    def gone(self, addr, n):
        ctypes.memset(addr, 0xDB, n)
        self.live -= 1

    def buf(self, raw):
        n = len(raw)
        addr = ctypes.CDLL(None).malloc
        addr.restype = ctypes.c_void_p
        a = addr(ctypes.c_size_t(max(1, n)))
        ctypes.memmove(a, raw, n)
        b = (ctypes.c_uint8 * n).from_address(a)
        weakref.finalize(b, self.gone, a, n)
        self.live += 1
        self.made += 1
        return b

    def array(self, x):
        x = _np.ascontiguousarray(x)
        if x.size == 0:
            return x
        return _np.frombuffer(self.buf(x.tobytes()), dtype=x.dtype).reshape(x.shape)


class H(object):
    """A live handle: the object, and how to read its value."""

    def __init__(self, obj, read, kind):
        self.obj, self.read, self.kind = obj, read, kind
        self.keep = None        # caches that a low-level object refers to only weakly, by design
        self.value = read(obj)


def read_array(x):
    return data.canon(_ak.to_list(x)) + str(_ak.type(x))


def read_layout(x):
    return data.canon(_ak.to_list(x))


def read_np(x):
    if isinstance(x, _np.ma.MaskedArray):
        return str(x.dtype) + data.canon(x.tolist())
    return str(x.dtype) + data.canon(x.tolist())


def read_mv(x):
    return repr(x.tolist())


def read_buffers(x):
    form, length, d = x
    return str(form) + str(length) + repr([(k, read_np(v)) for k, v in sorted(d.items())])


class IterState(object):
    """An iterator part-way: what is left is read through copies of nothing, so it is read only once, at the end."""

    def __init__(self, it, rest):
        self.it, self.rest, self.done = it, rest, False

    def finish(self):
        if not self.done:
            self.done = True
            got = [data.canon(_ak.to_list(x)) for x in self.it]
            if got != self.rest:
                raise core.Violation("dangling", "iterator: expected the rest %s, got %s" % (self.rest, got))


def read_iter(x):
    return ""


def source(kind, e, plan, bufs, log):
    ak, np = _ak, _np
    rng = random.Random("src%d" % e)
    vals, s = plan["values"], plan["schema"]
    if kind == "layout":
        lay = data.layout(vals, s, e, plan["exotic"])
        form, n, d = ak.to_buffers(ak.Array(lay))
        del lay
        return H(ak.from_buffers(form, n, {k: bufs.array(v) for k, v in d.items()}), read_array, "array")
    if kind == "numpy":
        x = bufs.array(np.arange(rng.choice([4, 6, 12])) * 1.5)
        if rng.random() < 0.5:
            x = x.reshape(2, -1)
        if rng.random() < 0.3:
            x = x[::-1]
        return H(ak.from_numpy(x) if rng.random() < 0.5 else ak.Array(x), read_array, "array")
    if kind == "buffers":
        a = ak.Array([[1.5, 2.5], [], [3.5]])
        form, n, d = ak.to_buffers(a)
        return H(ak.from_buffers(form, n, {k: bytes(v.tobytes()) for k, v in d.items()}), read_array, "array")
    if kind == "builder":
        b = ak.ArrayBuilder(initial=rng.choice([1, 4, 64]))
        for v in vals:
            b.append(data.plain(v, s))
        return H(b, lambda x: data.canon(ak.to_list(x.snapshot())), "builder")
    if kind == "forth":
        m = ak.forth.ForthMachine64("input x output y float64 output z int32 0 do x d-> stack dup y <- stack 2 * z <- stack loop".replace("0 do", "5 0 do"), output_initial_size=rng.choice([1, 2, 64]))
        m.run({"x": bufs.array(np.arange(5) + 0.5)})
        return H(m, lambda x: repr([(k, ak.to_list(v)) for k, v in sorted(x.outputs.items())]), "machine")
    if kind == "forthinput":
        m = ak.forth.ForthMachine64("input x output y float64 begin x d-> stack y <- stack pause again")
        m.begin({"x": bufs.array(np.arange(50) + 0.5)})
        m.resume()
        return H(m, lambda x: (x.resume(), str(ak.to_list(x.outputs["y"])[-1] + 0.5 - len(x.outputs["y"])))[1], "paused")
    if kind == "lazy":
        w = world.World(log)
        w.keep = [_Dict()] if rng.random() < 0.7 else []       # the sources refer to the caches of what they generate
        lz = world.Lazy(w, w.keep, rng, 0.7, 1, 1, True, 0.2)
        lay = data.layout(vals, s, e, plan["exotic"], lz)
        return H(ak.Array(lay), read_array, "array")
    if kind == "json":
        return H(ak.from_json('[{"x": [1, 2], "y": "one"}, {"x": [], "y": "two"}]'), read_array, "array")
    return H(ak.from_iter(data.plain_all(vals, s)), read_array, "array")


class _Dict(dict):
    pass


def nodes(layout):
    out = []
    for name in ("content", "contents", "array"):
        try:
            x = getattr(layout, name)
        except Exception:
            continue
        for y in (x if isinstance(x, list) else [x]):
            if isinstance(y, _ak.layout.Content):
                out.append(y)
    return out


def indexes(layout):
    out = []
    for name in ("offsets", "starts", "stops", "index", "tags", "mask"):
        x = getattr(layout, name, None)
        if x is not None and type(x).__name__.startswith("Index"):
            out.append(x)
    return out


def derive(h, kind, name, e, others):
    ak, np = _ak, _np
    x = h.obj
    if h.kind == "builder":
        if e[0] % 3 == 0:
            x.append(1)
            h.value = h.read(x)
        return H(x.snapshot(), read_array, "array")
    if h.kind == "machine":
        if kind == "index":
            return H(x.output_Index32("z"), lambda i: repr(np.asarray(i).tolist()), "index")
        return H(ak.Array(x.outputs[["y", "z"][e[0] % 2]]), read_array, "array")
    if h.kind == "paused":
        return H(ak.Array(x.outputs["y"]), read_array, "array")
    if h.kind == "index":
        return H(np.asarray(x), read_np, "np")
    if h.kind == "np":
        if isinstance(x, np.ma.MaskedArray) or x.dtype.fields or x.dtype.kind not in "iufb":
            return None
        if e[0] % 2:
            return H(ak.from_numpy(x), read_array, "array")
        return H(memoryview(x), read_mv, "mv")
    if h.kind == "buffers":
        form, n, d = x
        return H(ak.from_buffers(form, n, d), read_array, "array")
    if h.kind == "layout":
        if kind in ("node", "rawnode"):
            ns = nodes(x)
            return H(ns[e[0] % len(ns)], read_layout, "layout") if ns else None
        if kind == "index":
            ix = indexes(x)
            return H(ix[e[0] % len(ix)], lambda i: repr(np.asarray(i).tolist()), "index") if ix else None
        if kind == "indexview":
            ix = indexes(x)
            return H(np.asarray(ix[e[0] % len(ix)]), read_np, "np") if ix else None
        if kind == "lowiter":
            it = iter(x)
            k = e[0] % (len(x) + 1)
            for _ in range(k):
                next(it)
            return H(IterState(it, [data.canon(ak.to_list(y)) for y in list(x)[k:]]), read_iter, "iter")
        if isinstance(x, ak.layout.NumpyArray):
            return H(np.asarray(x), read_np, "np")
        return H(ak.Array(x), read_array, "array")
    if h.kind in ("iter", "mv"):
        return None
    if h.kind == "layoutrecord":
        return H(ak.Record(x), read_array, "record")
    # arrays and records
    if kind == "op" or h.kind == "record":
        if not name:
            if h.kind == "record" and isinstance(x.layout, ak.layout.Record):
                if e[0] % 2:
                    return H(x.layout.array, read_layout, "layout")
                return H(x.layout, read_layout, "layoutrecord")
            return None
        o = others[e[1] % len(others)].obj if others else x
        f = ops.resolve(name, e, x)
        if f is None or c01.skip(name, x, o):
            return None
        r = f(x, o)
        return wrap(r)
    if kind == "numpy":
        return H(ak.to_numpy(x), read_np, "np") if e[0] % 2 else H(np.asarray(x), read_np, "np")
    if kind in ("node", "rawnode"):
        lay = x.layout
        if isinstance(lay, ak.partition.PartitionedArray):
            return H(lay.partitions[e[0] % len(lay.partitions)], read_layout, "layout")
        if kind == "rawnode":
            return H(lay, read_layout, "layout")
        ns = nodes(lay)
        return H(ns[e[0] % len(ns)], read_layout, "layout") if ns else None
    if kind in ("index", "indexview"):
        ix = indexes(x.layout)
        if not ix:
            return None
        i = ix[e[0] % len(ix)]
        return H(i, lambda i: repr(np.asarray(i).tolist()), "index") if kind == "index" else H(np.asarray(i), read_np, "np")
    if kind in ("iter", "lowiter"):
        it = iter(x) if kind == "iter" else iter(x.layout)
        rest = [data.canon(ak.to_list(y)) for y in x]
        k = e[0] % (len(rest) + 1)
        for _ in range(k):
            next(it)
        return H(IterState(it, rest[k:]), read_iter, "iter")
    if kind == "record":
        if len(x) == 0:
            return None
        return wrap(x[e[0] % len(x)])
    if kind == "buffers":
        return H(ak.to_buffers(x), read_buffers, "buffers")
    if kind == "memview":
        return H(memoryview(np.asarray(x)), read_mv, "mv")
    if kind == "again":
        return H(ak.Array(x.layout), read_array, "array")
    if kind == "virtual":
        lay = x.layout
        if isinstance(lay, ak.partition.PartitionedArray):
            return None
        if e[0] % 2:
            return H(ak.virtual(lambda keep=x.caches: lay, length=len(lay), cache=None if e[1] % 2 else "new"), read_array, "array")
        return H(ak.Array(ak.layout.VirtualArray(ak.layout.ArrayGenerator(lambda keep=x.caches: lay, length=len(lay)))), read_array, "array")
    if kind == "field":
        f = ak.fields(x)
        return wrap(x[f[e[0] % len(f)]]) if f else None
    if kind == "wrap":
        lay = x.layout
        if isinstance(lay, ak.partition.PartitionedArray) or len(lay) == 0:
            return None
        return H(ak.Array(ak.layout.ListOffsetArray64(ak.layout.Index64(np.array([0, len(lay) // 2, len(lay)])), lay)), read_array, "array")
    if kind == "partition":
        return H(ak.repartition(x, 1 + e[0] % 3), read_array, "array") if len(x) else None
    return None


def wrap(r):
    ak, np = _ak, _np
    if isinstance(r, ak.Array):
        return H(r, read_array, "array")
    if isinstance(r, ak.Record):
        return H(r, read_array, "record")
    if isinstance(r, np.ndarray):
        return H(r, read_np, "np")
    return None


def check(pool, where):
    for i, h in enumerate(pool):
        v = h.read(h.obj)
        if v != h.value:
            raise core.Violation("dangling", "%s: handle %d (%s) was %s, is %s" % (where, i, h.kind, h.value[:500], v[:500]))


def program(plan, log, bufs):
    ak = _ak
    pool = []
    for k, act in enumerate(plan["acts"]):
        try:
            if act[0] == "src":
                h = source(act[1], act[2], plan, bufs, log)
                pool.append(h)
                log.ev("src", act[1], h.value[:60])
                log.probe("src_" + act[1])
            elif act[0] == "derive" and pool:
                i = act[1] % len(pool)
                h = derive(pool[i], act[2], act[3], act[4], [o for o in pool if o.kind == "array"])
                if h is not None:
                    if h.kind not in ("array", "record"):
                        h.keep = getattr(pool[i].obj, "caches", None) if pool[i].kind in ("array", "record") else pool[i].keep
                    log.ev("derive", i, act[2], act[3], h.kind, h.value[:60])
                    log.probe("derived_" + h.kind)
                    log.state(pool[i].kind, act[2], act[3], h.kind)
                    if len(pool) < 14:
                        pool.append(h)
                h = None
            elif act[0] == "drop" and pool:
                i = act[1] % len(pool)
                log.ev("drop", i, pool[i].kind)
                log.fault("drop")
                if pool[i].kind == "iter" and act[1] % 3 == 0:
                    pool[i].obj.finish()
                del pool[i]
            elif act[0] == "gc":
                log.fault("gc")
                gc.collect()
            elif act[0] == "cyc" and pool:
                # the handle becomes part of a reference cycle and is dropped: only a collection frees it
                i = act[1] % len(pool)
                log.ev("cycle", i)
                log.fault("cycle")
                box = [pool[i]]
                box.append(box)
                del pool[i]
                box = None
        except core.Violation:
            raise
        except Exception as ex:
            log.ev("error", k, type(ex).__name__)
            log.probe("refused")
            ex = None
        h = None
        check(pool, "after act %d %s" % (k, act[:3]))
    log.nontrivial = True
    for h in pool:
        if h.kind == "iter":
            h.obj.finish()


def execute(plan, log):
    vs = core.vsim().lib
    if plan["gcoff"]:
        gc.disable()
    bufs = Bufs(log)
    vs.vs_alloc_poison(0xDD, 2000)
    leaks = []
    for rep in range(3):
        gc.collect()
        live = vs.vs_alloc_live()
        made = bufs.made
        program(plan, log, bufs)
        gc.collect()
        d = vs.vs_alloc_live() - live
        dmg = vs.vs_alloc_flush()
        log.ev("end", bufs.live, dmg)
        if dmg:
            raise core.Violation("write-after-free", "%d freed buffers were written to" % dmg)
        if vs.vs_alloc_doublefree():
            raise core.Violation("double-free", "a buffer was given back twice")
        if bufs.live:
            raise core.Violation("leak", "%d of %d source buffers are still referenced after everything was dropped" % (bufs.live, bufs.made - made))
        leaks.append(d)
        if d == 0:
            break
        log.probe("live_delta")
    else:
        # the first time round may fill caches for good; twice more may not
        if leaks[1] and leaks[2]:
            raise core.Violation("leak", "buffers still allocated after everything was dropped: %s" % leaks)


def simplify(plan):
    for k, v in (("exotic", 0), ("gcoff", False)):
        if plan[k] != v:
            yield dict(plan, **{k: v})
