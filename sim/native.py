"""Running a scenario in the native thread simulator (native/nsim_*.cpp)."""
import json
import os
import subprocess

from sim import core


def schedule(rng, threads):
    """Preemptions: gaps between 1 and 50,000 events, log-uniform, some runs dense."""
    style = rng.choice(["few", "few", "some", "some", "dense", "fine", "early"])
    n = {"few": rng.choice([1, 2, 3]), "some": rng.choice([5, 10, 20]), "dense": rng.choice([40, 100]), "fine": rng.choice([50, 200, 500]), "early": rng.choice([4, 12])}[style]
    top = {"few": 16, "some": 14, "dense": 9, "fine": 5, "early": 7}[style]
    out = []
    for _ in range(n):
        k = rng.randrange(top)
        out.append([rng.randrange(1 << k, 2 << k), rng.randrange(threads)])
    return out


def hexed(s):
    return (s.encode() if isinstance(s, str) else s).hex()


def run(lines, log):
    env = {k: v for k, v in os.environ.items() if k != "LD_PRELOAD"}
    p = subprocess.run([os.environ["VSIM_NATIVE"]], input=("\n".join(lines) + "\n").encode(), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
    if p.returncode == 5:
        if b"overrun" in p.stdout:
            raise core.Violation("no-progress", "the threads together do not come to an end within twenty times the events they take alone")
        log.probe("simulator's memory exhausted")
        return None
    if p.returncode != 0 or not p.stdout:
        raise core.Violation("crash", "the process of the concurrent run died with status %d: %s" % (p.returncode, p.stderr.decode("utf-8", "replace")[-300:]))
    r = json.loads(p.stdout.decode("utf-8", "replace"))
    log.ev("native", r["events"], r.get("switches"), r.get("signature"))
    if r.get("deadlock"):
        raise core.Violation("deadlock", "all threads wait for one another after %d events" % r["events"])
    if r.get("hopeless"):
        log.probe("crashes alone")
        return None
    log.fault("preemption", r["switches"])
    log.n += r["events"]
    return r


def judge(r, names):
    if r["races"]:
        raise core.Violation("race", "conflicting accesses that nothing orders, %d times: %s" % (r["racy"], demangle(r["races"])))
    for i, (a, b) in enumerate(zip(r["solo"], r["got"])):
        if a != b:
            k = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), min(len(a), len(b)))
            raise core.Violation("interference", "thread %d (%s): alone ...%s, together ...%s" % (i, names[i][:300], a[max(0, k - 120):k + 200], b[max(0, k - 120):k + 200]))
    if r["modified"]:
        raise core.Violation("shared-data-modified", "the shared data %s is not what it was" % r["modified"])


def demangle(xs):
    try:
        return subprocess.run(["c++filt"], input="\n".join(xs).encode(), stdout=subprocess.PIPE, timeout=20).stdout.decode()[:1500]
    except Exception:
        return "; ".join(xs)[:1500]
