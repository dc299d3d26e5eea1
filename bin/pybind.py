"""C17: the Python package against direct calls of the same library."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys
import vlib, meta, gens
from vlib import VERIF, HarnessError

def run(cases, seed, tier, tree, work, res, shards=None):
    entries = meta.load_yaml(tree)
    so = vlib.build_shared(tree, work)
    pk = os.path.join(work, "pkg"); shutil.copytree(os.path.join(tree, "bindings", "python"), pk)
    shutil.copy(so, os.path.join(pk, "tindicators", "libindicators.so"))
    yj = os.path.join(work, "yaml.json"); json.dump(entries, open(yj, "w"))
    st, err = gens.stub_library(tree, work, seed)
    if not st: res.notes.append("no stub library: " + err)
    py = gens.python_numpy(); n = 8
    def one(s):
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        try:
            p = subprocess.run([py, os.path.join(VERIF, "harness", "pyrun.py"), pk, os.path.join(pk, "tindicators", "libindicators.so"), st or "-", str(seed * 100 + s), str(max(1, cases // n)), yj],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=e, timeout=600 if tier == "quick" else 20000)
            return s, p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired: return s, "timeout", "", ""
    with cf.ThreadPoolExecutor(vlib.JOBS) as ex: outs = list(ex.map(one, shards or range(n)))
    for s, rc, out, err in outs:
        rep = dict(module="pybind", seed=seed, cases=cases, shard=s)
        if rc == "timeout": res.inconclusive.append("shard %d ran out of time" % s); continue
        for line in out.splitlines():
            if not line.startswith("{"): continue
            r = json.loads(line)
            if r["t"] == "viol": res.viol.append(dict(key=r["key"], msg=r["msg"], replay=rep))
            elif r["t"] == "sample": res.samples.append(r["what"])
            elif r["t"] == "stat":
                for k, x in r.items():
                    if isinstance(x, int): res.add(k, x)
        if rc != 0:
            if rc == -9: res.inconclusive.append("shard %d was killed" % s)
            elif rc > 0 and ("ModuleNotFoundError: No module named 'numpy'" in err): raise HarnessError(err[-800:])
            else: res.viol.append(dict(key="package:crash", msg="using the package ended the interpreter with status %s: %s" % (rc, err[-1500:]), replay=rep))

def replay(rp, tree, work):
    import check
    res = check.Result(); run(rp["cases"], rp["seed"], "quick", tree, work, res, [rp["shard"]])
    for v in res.viol: print(v["key"], v["msg"])
    print("reproduced" if res.viol else "not reproduced")
    return 1 if res.viol else 0
