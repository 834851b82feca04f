"""Run many seeds of a property and group the violations by signature (development aid)."""
import collections, json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, V + "/tools")
import vbuild
sys.argv_ = sys.argv
import importlib.util
prop, runs = sys.argv[1], sys.argv[2]
spec = importlib.util.spec_from_file_location("chk", V + "/check.py")
src = open(V + "/check.py").read().replace("\nmain()\n", "\n")
ns = {"__file__": V + "/check.py", "__name__": "chk"}
exec(compile(src, V + "/check.py", "exec"), ns)
env = ns["environment"](vbuild.build("pkg"), vbuild.build("preload"))
cfg = json.load(open(V + "/sim/props/%s.json" % prop.lower()))
if cfg.get("native"): env["VSIM_NATIVE"] = vbuild.build("native")
env["VSIM_MAXV"] = "100000"
ps = [ns["worker"](env, ["run", prop, "quick", os.environ.get("VERIF_SEED", "1"), str(w), "8", runs, "600"]) for w in range(8)]
g = collections.defaultdict(list); nr = 0; errs = []
for p in ps:
    o, e = p.communicate()
    try: r = json.loads(o)
    except ValueError: print(e.decode()[-2000:]); continue
    nr += r["runs"]; errs += r["errors"]
    for v in r["violations"]:
        d = v["v"]["detail"]
        sig = v["v"]["kind"] + " " + re.sub(r"[0-9]+", "#", d)[:int(os.environ.get("SIGLEN","60"))]
        if os.environ.get("SIGRE"):
            m = re.search(os.environ["SIGRE"], d); sig = v["v"]["kind"] + " " + (m.group(0) if m else "?")
        g[sig].append(v)
print(nr, "runs", sum(map(len, g.values())), "violations", len(errs), "errors")
for e in errs[:3]: print(e["i"], e["err"][-1500:])
for s, vs in sorted(g.items(), key=lambda kv: -len(kv[1])):
    vs.sort(key=lambda v: len(json.dumps(v["plan"])))
    print(len(vs), s, "i=%d" % vs[0]["i"]); print("      ", vs[0]["v"]["detail"][:int(os.environ.get("DLEN","300"))])
os.makedirs("/tmp/survey", exist_ok=True)
for n, (s, vs) in enumerate(sorted(g.items(), key=lambda kv: -len(kv[1]))):
    json.dump({"v": vs[0]["v"], "plan": vs[0]["plan"]}, open("/tmp/survey/%s-%d.json" % (prop, vs[0]["i"]), "w"))
