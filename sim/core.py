"""Simulator core: seeded plans, forked deterministic executions, history hashing,
coverage counters, minimisation, replay files, evidence.

A *plan* is a JSON document that fixes everything about one execution: data,
operations, schedule decisions and faults.  plan = gen(rng) is a pure function of
(property, VERIF_SEED, run index); execute(plan) is a pure function of (plan, code).
Every execution happens in a freshly forked child of a template process, so no run
sees another's process state; a crash or hang of the child is an outcome of the run.
"""
import ctypes
import hashlib
import json
import os
import resource
import random
import select
import signal
import sys
import time
import traceback


class Violation(Exception):
    def __init__(self, kind, detail=""):
        Exception.__init__(self, kind + ": " + detail)
        self.kind = kind
        self.detail = detail


class Log(object):
    """Recorded history of one run.  Never draws random numbers, never reads a clock."""

    def __init__(self, keep=False):
        self.h = hashlib.sha1()
        self.n = 0
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.keep = keep
        self.lines = []
        self.nontrivial = False

    def ev(self, *parts):
        s = "|".join(str(p) for p in parts)
        self.h.update(s.encode("utf-8", "surrogatepass") + b"\n")
        self.n += 1
        if self.keep:
            self.lines.append(s if len(s) < 400 else s[:400] + "...")

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] = self.faults.get(kind, 0) + n
            self.nontrivial = True

    def probe(self, name, n=1):
        if n:
            self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *key):
        self.states.add(hashlib.sha1(repr(key).encode()).hexdigest()[:12])

    def digest(self):
        return self.h.hexdigest()


class VSim(object):
    """ctypes face of the preloaded library (allocator and stdio seams)."""

    def __init__(self):
        self.lib = ctypes.CDLL(None)
        self.ok = hasattr(self.lib, "vs_present")
        if self.ok:
            L = self.lib
            for n in ("vs_alloc_seen", "vs_alloc_failed", "vs_alloc_live", "vs_alloc_freed",
                      "vs_alloc_damage", "vs_alloc_doublefree", "vs_alloc_flush", "vs_file_size", "vs_file_stat"):
                getattr(L, n).restype = ctypes.c_long
            L.vs_alloc_arm.argtypes = [ctypes.c_long, ctypes.c_long, ctypes.c_long, ctypes.c_int]
            L.vs_alloc_poison.argtypes = [ctypes.c_int, ctypes.c_long]
            L.vs_file_set.argtypes = [ctypes.c_char_p, ctypes.c_char_p, ctypes.c_long, ctypes.c_long,
                                      ctypes.POINTER(ctypes.c_long), ctypes.c_int, ctypes.c_int, ctypes.c_int]
            L.vs_file_stat.argtypes = [ctypes.c_char_p, ctypes.c_int]
            L.vs_file_size.argtypes = [ctypes.c_char_p]
            L.vs_file_get.argtypes = [ctypes.c_char_p, ctypes.c_void_p]

    def file_set(self, name, data=b"", limit=-1, events=(), open_errno=0, close_errno=0):
        flat = [int(x) for e in events for x in e]
        arr = (ctypes.c_long * max(1, len(flat)))(*flat)
        r = self.lib.vs_file_set(name.encode(), data, len(data), limit, arr, len(events), open_errno, close_errno)
        assert r == 0

    def file_get(self, name):
        n = self.lib.vs_file_size(name.encode())
        buf = ctypes.create_string_buffer(max(1, n))
        self.lib.vs_file_get(name.encode(), buf)
        return buf.raw[:n]

    def file_stat(self, name, what):
        return self.lib.vs_file_stat(name.encode(), what)


_vsim = None


def vsim():
    global _vsim
    if _vsim is None:
        _vsim = VSim()
    return _vsim


def run_rng(prop, base, i):
    return random.Random("%s/%d/%d" % (prop, base, i))


# ---------------------------------------------------------------- one execution
def execute_here(mod, plan, keep=False):
    """Execute in this process. Returns result dict."""
    log = Log(keep)
    out = {"v": None}
    try:
        mod.execute(plan, log)
    except Violation as v:
        out["v"] = {"kind": v.kind, "detail": v.detail[:2000]}
        log.ev("VIOLATION", v.kind)
    except (MemoryError, OSError) as e:  # the machine, not the code under test
        out["err"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
    except BaseException as e:
        # a call that every run makes without error on a correct tree raised: the code under test is broken
        # (each property's runs are clean on the unchanged tree, so this never comes from the harness alone)
        tb = "".join(traceback.format_exception(type(e), e, e.__traceback__))
        out["v"] = {"kind": "unexpected-exception", "detail": "%s: %s\n%s" % (type(e).__name__, e, tb[-1200:])}
        log.ev("VIOLATION", "unexpected-exception", type(e).__name__)
    out["hash"] = log.digest()
    out["n"] = log.n
    out["faults"] = log.faults
    out["probes"] = log.probes
    out["states"] = sorted(log.states)
    out["nt"] = bool(log.nontrivial)
    if keep:
        out["lines"] = log.lines
    return out


def execute_forked(mod, plan, timeout=60.0, keep=False):
    """Execute in a forked child; crash and hang become results."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            # the child's own noise must not reach the check's output
            dn = os.open(os.devnull, os.O_RDWR)
            os.dup2(dn, 0)
            if not os.environ.get("VSIM_VERBOSE"):
                os.dup2(dn, 1)
                os.dup2(dn, 2)
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            res = execute_here(mod, plan, keep)
            data = json.dumps(res).encode()
            o = 0
            while o < len(data):
                o += os.write(w, data[o:o + 65536])
            os.close(w)
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    end = time.monotonic() + timeout
    hung = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            hung = True
            break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            hung = True
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    if hung:
        os.kill(pid, signal.SIGKILL)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    base = {"hash": "", "n": 0, "faults": {}, "probes": {}, "states": [], "nt": True}
    if hung:
        base["v"] = {"kind": "hang", "detail": "no progress within %.0f s" % timeout}
        base["hash"] = "hang"
        return base
    try:
        return json.loads(b"".join(chunks).decode())
    except ValueError:
        sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
        base["v"] = {"kind": "crash", "detail": "process died, signal %d" % sig}
        base["hash"] = "crash%d" % sig
        return base


# ---------------------------------------------------------------- minimisation
def ddmin_list(items, test, budget):
    """Smallest sublist (by delta debugging) for which test(sublist) holds."""
    n = 2
    items = list(items)
    while len(items) >= 1 and budget[0] > 0:
        size = max(1, len(items) // n)
        changed = False
        i = 0
        while i < len(items) and budget[0] > 0:
            cand = items[:i] + items[i + size:]
            budget[0] -= 1
            if test(cand):
                items = cand
                changed = True
                n = max(2, n - 1)
            else:
                i += size
        if not changed:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


def minimise(mod, plan, kind, timeout=20.0, seconds=60.0):
    """Shrink the plan while the same violation kind persists."""
    end = time.monotonic() + seconds
    budget = [400]

    def fails(p):
        if time.monotonic() > end:
            return False
        r = execute_forked(mod, p, timeout)
        return r.get("v") is not None and r["v"]["kind"] == kind

    best = json.loads(json.dumps(plan))
    lists = getattr(mod, "SHRINK_LISTS", ["ops", "faults", "sched"])
    for _ in range(3):
        before = json.dumps(best, sort_keys=True)
        for key in lists:
            path = key.split(".")
            node = best
            ok = True
            for k in path[:-1]:
                if k not in node:
                    ok = False
                    break
                node = node[k]
            if not ok or not isinstance(node.get(path[-1]), list):
                continue

            def put(v):
                p = json.loads(json.dumps(best))
                nd = p
                for k in path[:-1]:
                    nd = nd[k]
                nd[path[-1]] = v
                return p
            best = put(ddmin_list(node[path[-1]], lambda v: fails(put(v)), budget))
        if hasattr(mod, "simplify"):
            progress = True
            while progress and budget[0] > 0 and time.monotonic() < end:
                progress = False
                for cand in mod.simplify(json.loads(json.dumps(best))):
                    budget[0] -= 1
                    if budget[0] <= 0 or time.monotonic() > end:
                        break
                    if fails(cand):
                        best = cand
                        progress = True
                        break
        if json.dumps(best, sort_keys=True) == before or time.monotonic() > end:
            break
    return best
