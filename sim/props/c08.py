"""C08: reading JSON from a simulated file."""
import base64
import json
import os
import tempfile

from sim import core, data

TIMEOUT = 30.0
SHRINK_LISTS = ["events", "damage"]
_ak = None
_path = None


def template():
    global _ak, _path
    import awkward as ak
    _ak = ak
    _path = os.path.join(tempfile.mkdtemp(prefix="vsim-c08-"), "in.json")
    import atexit
    import shutil
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(os.path.dirname(_path), ignore_errors=True))
    assert core.vsim().ok


# ---- text generation
def fmt(rng, v, style):
    ws = lambda: rng.choice(style["ws"])  # noqa: E731
    if v is None:
        return "null"
    if v is True:
        return "true"
    if v is False:
        return "false"
    if isinstance(v, float):
        r = rng.random()
        if r < 0.3 and v == int(v) and abs(v) < 1e6:
            return "%de0" % int(v)
        if r < 0.5:
            return "%.6e" % v if float("%.6e" % v) == v else repr(v)
        return repr(v)
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        if rng.random() < style["esc"]:
            return json.dumps(v)
        return json.dumps(v, ensure_ascii=False)
    if isinstance(v, (list, tuple)):
        return "[" + ws() + ("," + ws()).join(fmt(rng, x, style) + ws() for x in v) + "]"
    if isinstance(v, dict):
        return "{" + ws() + ("," + ws()).join(
            json.dumps(k) + ws() + ":" + ws() + fmt(rng, x, style) + ws() for k, x in v.items()) + "}"
    raise AssertionError(v)


KINDS = {"leafs": ["i64", "f64", "bool", "str"], "tup": False, "reg": False}


def gen(rng, tier):
    style = {"ws": rng.choice([[""], ["", " "], ["", "\n", "  ", "\t"]]), "esc": rng.choice([0, 0.5, 1])}
    ndocs = rng.choice([1, 1, 1, 2, 3, rng.randint(0, 8)])
    s = data.rand_schema(rng, rng.randint(0, 3), KINDS)
    docs = []
    for _ in range(ndocs):
        shape = rng.random()
        if shape < 0.7:
            docs.append(data.plain_all(data.rand_data(rng, s, rng.choice([0, 1, 3, 6, 12, 25])), s))
        else:
            docs.append(data.plain(data.rand_raw(rng, s), s))
    if rng.random() < 0.1:
        docs.append("q" * rng.choice([60, 64, 100, 127, 128, 300]))
    if rng.random() < 0.1:
        docs.append([rng.choice([2**53 + 1, 2**63 - 1, -2**63, 1e300, 5e-324, 0.1, 1 / 3, 123456789.123])
                     for _ in range(4)])
    seps = [rng.choice(["\n", " ", "\n\n"]) for _ in docs]
    text = "".join(fmt(rng, d, style) + sep for d, sep in zip(docs, seps))
    if rng.random() < 0.5:
        text = text.rstrip()
    raw = text.encode("utf-8")
    plan = {"raw": base64.b64encode(raw).decode(), "events": [], "damage": [], "buffersize": 65536,
            "initial": rng.choice([1, 2, 3, 10, 1024]), "resize": rng.choice([1.1, 1.5, 2.0, 8.0]),
            "nan": rng.random() < 0.2, "open_errno": 0, "trunc": None}
    plan["buffersize"] = rng.choice([4, 5, 6, 7, 8, 11, 16, 31, 64, 100, 1024, 65536, max(4, len(raw)),
                                     max(4, len(raw) - 1), len(raw) + 1 if len(raw) > 3 else 4])
    mode = rng.choice(["clean", "partial", "partial", "eio", "eio", "eintr", "trunc", "trunc", "corrupt", "corrupt",
                       "nul", "open", "mixed"])
    plan["mode"] = mode
    n = len(raw)
    if mode in ("partial", "eio", "eintr", "mixed"):
        k = rng.randint(0, 12)
        plan["events"] = [[0, rng.choice([1, 2, 3, 5, 8, 17, 64])] for _ in range(k)]
    if mode in ("eio", "mixed"):
        plan["events"].append([2, 0])
        if rng.random() < 0.3:
            plan["events"] += [[0, rng.randint(1, 64)], [2, 0]]
    if mode == "eintr":
        plan["events"].insert(rng.randint(0, len(plan["events"])), [1, 0])
    if mode in ("trunc", "mixed") and n:
        plan["trunc"] = rng.choice([rng.randrange(n), n - 1, max(0, n - 2), 0])
    if mode in ("corrupt",) and n:
        for _ in range(rng.choice([1, 1, 2, 3])):
            plan["damage"].append([rng.randrange(n), rng.choice([ord(c) for c in ',:[]{}"0 x\\e-.tn'] + [255, 1])])
    if mode == "nul" and n:
        at = rng.randrange(n)
        plan["damage"] += [[i, 0] for i in range(at, min(n, at + rng.choice([1, 1, 4, n])))]
    if mode == "open":
        plan["open_errno"] = rng.choice([13, 24, 5])
    return plan


# ---- reference
class Dup(Exception):
    pass


def reference(raw, nan):
    """('ok', [docs], comparable) or ('bad',)"""
    try:
        text = raw.decode("utf-8")
        comparable = True
    except UnicodeDecodeError:
        text = raw.decode("utf-8", "surrogateescape")
        comparable = False
    dup = []

    def hook(pairs):
        d = {}
        for k, v in pairs:
            if k in d:
                dup.append(k)
            d[k] = v
        return d

    def const(x):
        raise ValueError("constant")

    dec = json.JSONDecoder(object_pairs_hook=hook, parse_constant=const)
    i = 0
    docs = []
    while True:
        while i < len(text) and text[i] in " \t\r\n":
            i += 1
        if i >= len(text):
            break
        try:
            v, i = dec.raw_decode(text, i)
        except ValueError:
            return ("bad", None, False)
        except RecursionError:
            return ("ok", None, False)
        docs.append(v)
    return ("ok", docs, comparable and not dup)


def nanify(v):
    if v == "NaN!":
        return float("nan")
    if v == "+oo":
        return float("inf")
    if v == "-oo":
        return float("-inf")
    if isinstance(v, list):
        return [nanify(x) for x in v]
    if isinstance(v, dict):
        return {k: nanify(x) for k, x in v.items()}
    return v


def show(x):
    ak = _ak
    return data.canon(ak.to_list(x))


def numnorm(c):
    return c


def same(got, want):
    """Equal up to the builder's documented widening: int -> float, absent field -> None."""
    if isinstance(want, bool) or isinstance(got, bool):
        return got is want
    if isinstance(want, (int, float)) and isinstance(got, (int, float)):
        return got == want or (got != got and want != want) or float(got) == float(want)
    if isinstance(want, list) and isinstance(got, list):
        return len(got) == len(want) and all(same(g, w) for g, w in zip(got, want))
    if isinstance(want, dict) and isinstance(got, dict):
        return all(k in got and same(got[k], want[k]) for k in want) and all(
            k in want or got[k] is None for k in got)
    return got == want and type(got) == type(want)


def execute(plan, log):
    ak, vs = _ak, core.vsim()
    raw = base64.b64decode(plan["raw"])
    if plan["nan"]:
        raw = raw.replace(b'"one"', b'"NaN!"').replace(b'"xy"', b'"+oo"').replace(b'"a"', b'"-oo"')
        opts = {"nan_string": "NaN!", "infinity_string": "+oo", "minus_infinity_string": "-oo"}
    else:
        opts = {}
    disk = bytearray(raw)
    if plan["trunc"] is not None:
        disk = disk[:plan["trunc"]]
    for pos, b in plan["damage"]:
        if pos < len(disk):
            disk[pos] = b
    disk = bytes(disk)
    with open(_path, "wb") as f:
        f.write(disk)
    vs.file_set(_path, disk, events=plan["events"], open_errno=plan["open_errno"])
    ref = reference(disk, plan["nan"])
    err = None
    try:
        out = ak.from_json(_path, buffersize=plan["buffersize"], initial=plan["initial"], resize=plan["resize"], **opts)
        got = ak.to_list(out)
    except Exception as e:
        err = type(e).__name__
    fired = [vs.file_stat(_path, i) for i in range(6)]
    opens, closes = vs.file_stat(_path, 8), vs.file_stat(_path, 9)
    consumed_all = vs.file_stat(_path, 12) >= len(disk)
    for i, nm in ((0, "partial_read"), (1, "EINTR"), (2, "EIO"), (5, "open_failure")):
        log.fault(nm, fired[i])
    if plan["trunc"] is not None:
        log.fault("truncated")
    if plan["damage"]:
        log.fault("corrupt_byte", len(plan["damage"]))
    log.ev("read", plan["mode"], len(disk), plan["buffersize"], fired, opens, closes, err)
    log.state(plan["mode"], err, ref[0], min(len(disk) // 16, 12), tuple(min(f, 3) for f in fired), plan["buffersize"])
    hard = fired[1] + fired[2] + fired[5]
    if err is None:
        log.ev("value", data.canon(got))
        if ref[0] == "bad":
            raise core.Violation("invalid-json-accepted", "disk=%r gave %s" % (disk[:300], data.canon(got)[:300]))
        if fired[5]:
            raise core.Violation("open-failure-ignored", data.canon(got)[:200])
        docs = ref[1]
        if docs is not None and ref[2]:
            want = docs[0] if len(docs) == 1 else docs
            if plan["nan"]:
                want = nanify(want)
            if not same(got, want):
                raise core.Violation("wrong-data", "disk=%r events=%s got %s want %s" % (
                    disk[:200], plan["events"], data.canon(got)[:400], data.canon(want)[:400]))
            log.probe("values_compared")
    else:
        log.probe("raised")
        if not hard and ref[0] == "ok" and plan["trunc"] is None and not plan["damage"]:
            raise core.Violation("good-file-rejected", "%s for disk=%r buffersize=%d events=%s" % (
                err, disk[:300], plan["buffersize"], plan["events"]))
    # once the disk works again, the intact file reads correctly in the same process
    if hard or plan["trunc"] is not None or plan["damage"]:
        with open(_path, "wb") as f:
            f.write(raw)
        vs.file_set(_path, raw)
        ok = reference(raw, plan["nan"])
        if ok[0] == "ok" and ok[2]:
            try:
                got = ak.to_list(ak.from_json(_path, buffersize=plan["buffersize"], **opts))
            except Exception as e:
                raise core.Violation("good-file-rejected-after-recovery", repr(e)[:300])
            want = ok[1][0] if len(ok[1]) == 1 else ok[1]
            if plan["nan"]:
                want = nanify(want)
            if not same(got, want):
                raise core.Violation("wrong-data-after-recovery", data.canon(got)[:300])
    # memory and file agree
    if not plan["nan"] and plan["mode"] == "clean" and err is None and raw:
        try:
            mem = ak.to_list(ak.from_json(raw.decode("utf-8"), initial=plan["initial"], resize=plan["resize"]))
        except Exception as e:
            raise core.Violation("memory-vs-file", "file ok, memory raised %r" % e)
        if data.canon(mem) != data.canon(got):
            raise core.Violation("memory-vs-file", "%s vs %s" % (data.canon(mem)[:300], data.canon(got)[:300]))


def simplify(plan):
    raw = base64.b64decode(plan["raw"])
    if plan["buffersize"] != 65536:
        yield dict(plan, buffersize=65536)
    for e in range(len(plan["events"])):
        if plan["events"][e][0] == 0 and plan["events"][e][1] != 1:
            evs = [list(x) for x in plan["events"]]
            evs[e][1] = 1
            yield dict(plan, events=evs)
    if plan["trunc"] is None and not plan["damage"]:
        n = len(raw)
        lines = raw.split(b"\n")
        if len(lines) > 1:
            for i in range(len(lines)):
                yield dict(plan, raw=base64.b64encode(b"\n".join(lines[:i] + lines[i + 1:])).decode())
