"""C09: writing JSON to a simulated file."""
import os
import tempfile

from sim import core, data

TIMEOUT = 30.0
SHRINK_LISTS = ["events", "values"]
_ak = None
_path = None


def template():
    global _ak, _path
    import awkward as ak
    _ak = ak
    _path = os.path.join(tempfile.mkdtemp(prefix="vsim-c09-"), "out.json")
    import atexit
    import shutil
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(os.path.dirname(_path), ignore_errors=True))
    assert core.vsim().ok


KINDS = {"leafs": ["i64", "f64", "bool", "i32", "f32", "u8", "str"]}


def gen(rng, tier):
    s = data.rand_schema(rng, rng.randint(0, 3), KINDS)
    n = rng.choice([0, 1, 2, 5, 10, 30, 60])
    plan = {"schema": s, "values": data.rand_data(rng, s, n), "layout": rng.randrange(10**9),
            "pretty": rng.random() < 0.4, "maxdecimals": rng.choice([None, None, 1, 3]),
            "buffersize": rng.choice([1, 2, 4, 7, 16, 33, 64, 256, 1024, 65536]),
            "nan": rng.random() < 0.2, "events": [], "limit": -1, "open_errno": 0, "close_errno": 0,
            "shape": rng.choice(["array", "array", "record", "partitioned", "method"]),
            "stale": rng.choice([0, 0, 10, 5000]), "splits": [rng.random() for _ in range(rng.randint(0, 3))]}
    mode = rng.choice(["clean", "short", "short", "enospc", "enospc", "eio", "eintr", "close", "open", "late"])
    plan["mode"] = mode
    if mode in ("short", "eio", "eintr"):
        plan["events"] = [[0, rng.choice([1, 2, 3, 9, 40, 500])] for _ in range(rng.randint(0, 8))]
    if mode == "eio":
        plan["events"].append([rng.choice([2, 3]), 0])
    if mode == "eintr":
        plan["events"].insert(rng.randint(0, len(plan["events"])), [1, 0])
    if mode == "enospc":
        plan["limit"] = ["frac", rng.random()]
    if mode == "late":
        plan["limit"] = ["minus", rng.choice([1, 1, 2, 3])]
    if mode == "close":
        plan["close_errno"] = rng.choice([28, 5])
    if mode == "open":
        plan["open_errno"] = rng.choice([13, 28])
    return plan


def execute(plan, log):
    ak, vs = _ak, core.vsim()
    lay = data.layout(plan["values"], plan["schema"], plan["layout"])
    arr = ak.Array(lay)
    opts = {"pretty": plan["pretty"], "maxdecimals": plan["maxdecimals"]}
    if plan["nan"]:
        opts.update(nan_string="nan?", infinity_string="inf?", minus_infinity_string="-inf?")
        if plan["schema"][0] in ("f64", "f32"):
            import numpy as np
            arr = ak.Array(np.array([(np.nan, np.inf, -np.inf, v)[i % 4] for i, v in enumerate(plan["values"])]))
    shape = plan["shape"]
    if shape == "record":
        if plan["schema"][0] not in ("rec", "tup") or len(plan["values"]) == 0:
            shape = "array"
        else:
            arr = arr[len(plan["values"]) // 2]
    target = arr
    if shape == "partitioned":
        n = len(plan["values"])
        cuts = sorted(int(f * (n + 1)) for f in plan["splits"])
        cuts = [0] + cuts + [n]
        parts = [arr.layout[a:b] for a, b in zip(cuts[:-1], cuts[1:])]
        target = ak.partition.IrregularlyPartitionedArray(parts)
        opts = {"pretty": plan["pretty"], "maxdecimals": plan["maxdecimals"]}

    def call(dest):
        if shape == "partitioned":
            kw = dict(opts)
            if dest is None:
                return target.tojson(**kw)
            return target.tojson(dest, buffersize=plan["buffersize"], **kw)
        if shape == "method":
            o = dict(opts)
            if dest is None:
                return target.layout.tojson(**o)
            return target.layout.tojson(dest, buffersize=plan["buffersize"], **o)
        if dest is None:
            return ak.to_json(target, **opts)
        return ak.to_json(target, dest, buffersize=plan["buffersize"], **opts)

    try:
        want = call(None).encode("utf-8")
        werr = None
    except Exception as e:
        werr = type(e).__name__
        want = b""
    limit = plan["limit"]
    if isinstance(limit, list):
        limit = int(limit[1] * len(want)) if limit[0] == "frac" else max(0, len(want) - limit[1])
    with open(_path, "wb") as f:
        f.write(b"s" * plan["stale"])
    vs.file_set(_path, b"s" * plan["stale"], limit=limit, events=plan["events"],
                open_errno=plan["open_errno"], close_errno=plan["close_errno"])
    err = None
    try:
        call(_path)
    except Exception as e:
        err = type(e).__name__
    fired = [vs.file_stat(_path, i) for i in range(6)]
    used = vs.file_stat(_path, 8) + fired[5] > 0
    for i, nm in ((0, "short_write"), (1, "EINTR"), (2, "EIO"), (3, "ENOSPC"), (4, "close_failure"), (5, "open_failure")):
        log.fault(nm, fired[i])
    if used:
        disk = vs.file_get(_path)
    else:
        with open(_path, "rb") as f:
            disk = f.read()
    log.ev("write", shape, plan["mode"], len(want), plan["buffersize"], fired, err, len(disk))
    log.state(shape, plan["mode"], err, min(len(want) // 64, 12), tuple(min(f, 3) for f in fired), plan["buffersize"], plan["pretty"])
    hard = sum(fired[1:6])
    if err is None:
        if werr is not None:
            raise core.Violation("memory-vs-file", "memory raised %s, file did not" % werr)
        if disk != want:
            raise core.Violation("incomplete-file-reported-as-written", "fired=%s want %d bytes, disk has %d; first difference at %d" % (
                fired, len(want), len(disk), next((i for i, (a, b) in enumerate(zip(disk, want)) if a != b), min(len(disk), len(want)))))
        if fired[4] or fired[5]:
            raise core.Violation("failure-ignored", "close/open failure not reported, fired=%s" % fired)
        log.probe("bytes_compared")
    else:
        log.probe("raised")
        if not hard and werr is None:
            raise core.Violation("healthy-write-raised", err)
    # after recovery the same call completes
    vs.file_set(_path, b"")
    if werr is None:
        try:
            call(_path)
        except Exception as e:
            raise core.Violation("write-after-recovery-raised", repr(e)[:300])
        disk = vs.file_get(_path) if vs.file_stat(_path, 8) else open(_path, "rb").read()
        if disk != want:
            raise core.Violation("write-after-recovery-wrong", "")
        # the text itself round-trips through an independent parser
        if not plan["nan"] and plan["maxdecimals"] is None:
            import json
            back = json.loads(want.decode("utf-8"))
            ref = data.plain_all(plan["values"], plan["schema"])
            if shape == "record":
                ref = ref[len(plan["values"]) // 2]

            def norm(v):
                if isinstance(v, tuple):
                    return {str(i): norm(x) for i, x in enumerate(v)}
                if isinstance(v, list):
                    return [norm(x) for x in v]
                if isinstance(v, dict):
                    return {k: norm(x) for k, x in v.items()}
                return v
            if norm(back) != norm(ref):
                raise core.Violation("wrong-text", "%s vs %s" % (str(back)[:300], str(ref)[:300]))


def simplify(plan):
    for k, v in (("pretty", False), ("maxdecimals", None), ("nan", False), ("stale", 0), ("shape", "array"), ("buffersize", 65536)):
        if plan[k] != v:
            yield dict(plan, **{k: v})
    if isinstance(plan["limit"], list):
        yield dict(plan, limit=0)
