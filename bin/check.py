#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] | --replay FILE | --setup

Rebuilds /repo's current tree, runs the property's monitors on it and judges what they observed.
Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: the check itself could not work.
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import vlib
from vlib import VERIF, HarnessError

GROUPS = {
    "overlay": """
        dema ema hfsma hma hfema sma lf rmf mama rema tema trima vidya vwma vwap wilders wma zlema rmta gf1 gf2 gf3 gf4 ehma evwma lma pwma
        swma dwma shmma ahma t3 mhlma idwma emsd hwma mgdyn linreg tsf bbands bf2 bf3 kc kama psar pc pbands edcf frama roof ssmooth hf
        avgprice medprice typprice wcprice""".split(),
    "momentum": """
        cmi hd linregintercept linregslope fosc abands apo aroon aroonosc ao bop mesastoch cmo cci copp dpo fisher fi kst macd ppo pfe posc
        qstick rsi tsi rmi smi stoch stochrsi trix willr arsi mom roc rocr ichi""".split(),
    "volume": """
        ad adosc cmf emv kvo marketfi mfi nvi obv pvi pvt vosc wad atr natr tr ce cvi volatility mass rvi hurst ultosc vi dm dx di adx adxr
        vhf er msw""".split(),
    "math": """
        lag max min sum stddev stderr md var crossany crossover decay edecay add sub mul div abs acos asin atan ceil cos cosh exp floor ln
        log10 round sin sinh sqrt tan tanh todeg torad trunc""".split(),
}
GROUPED = {n for g in GROUPS.values() for n in g}

def group(name, present):
    """The indicators of a value property; ones the lists do not know go to the last group."""
    return [n for n in present if n in GROUPS[name] or (name == "math" and n not in GROUPED)]

def M(mode, variant, quick, thorough, group=None, tool=None):
    return dict(kind="mon", mode=mode, variant=variant, cases=dict(quick=quick, thorough=thorough), group=group, tool=tool)
def P(module, quick, thorough):
    return dict(kind="py", module=module, cases=dict(quick=quick, thorough=thorough))

PROPS = {
    "C01": dict(jobs=[M("safety", "asan", 5000, 120000), M("safety", "conv", 3000, 80000), M("safety", "msan", 600, 15000), M("safety", "vg", 6, 120, tool="valgrind")], count="values_observed",
                rule="random indicator calls, reference calls and streams under ASan+UBSan (exactly sized heap arrays), under UBSan with every float-to-int conversion watched, under MSan (poisoned stack and heap) and under valgrind, 40% with hostile "
                     "options and 30% with NaN/inf/huge data; non-trivial: the options were accepted and the input is longer than the start"),
    "C02": dict(jobs=[M("contract", "rel", 5000, 120000), M("contract", "asan", 1000, 25000)], count="values_observed",
                rule="random valid calls of the fast, reference and streaming forms with sentinel-filled outputs between guard bands; non-trivial: at least one output value was due"),
    "C03": dict(jobs=[M("options", "rel", 20000, 500000)], count="rejected",
                rule="random whole-number and real option vectors around every boundary; distinct option vectors are counted"),
    "C04": dict(jobs=[M("stream", "rel", 4500, 120000)], count="chunks",
                rule="one history fed whole, bar by bar and in two random cuttings, compared with the batch answer; non-trivial: at least one output"),
    "C05": dict(jobs=[M("progress", "rel", 15000, 300000)], count="chunks",
                rule="progress, identity and outputs due are checked after every chunk of random cuttings; non-trivial: at least one output"),
    "C06": dict(jobs=[M("ref", "rel", 9000, 200000)], count="ref_calls",
                rule="fast, streaming and reference implementation on the same random case; non-trivial: at least one output"),
    "C07": dict(jobs=[M("values", "rel", 18000, 220000, "overlay")], count="bars_compared",
                rule="random cases compared bar by bar with an independent definition evaluated in extended precision; non-trivial: at least one bar was comparable"),
    "C08": dict(jobs=[M("values", "rel", 30000, 400000, "momentum")], count="bars_compared",
                rule="random cases compared bar by bar with an independent definition evaluated in extended precision; non-trivial: at least one bar was comparable"),
    "C09": dict(jobs=[M("values", "rel", 20000, 250000, "volume")], count="bars_compared",
                rule="random cases compared bar by bar with an independent definition evaluated in extended precision; non-trivial: at least one bar was comparable"),
    "C10": dict(jobs=[M("values", "rel", 50000, 600000, "math")], count="bars_compared",
                rule="random cases compared bar by bar with an independent definition evaluated in extended precision; non-trivial: at least one bar was comparable"),
    "C11": dict(jobs=[M("causal", "rel", 5000, 120000)], count="prefixes",
                rule="a call on a history compared with calls on its prefixes and on histories with the same past; non-trivial: at least one output"),
    "C12": dict(jobs=[M("purity", "fi", 400, 10000), M("safety", "msan", 250, 6000)], count="rounds",
                rule="the same call repeated with different heap and stack poison and unrelated calls in between, compared bit by bit; calls and streams whose branches and answers MSan traces back to uninitialised memory; non-trivial: at least one output"),
    "C13": dict(jobs=[M("oom", "fi", 1200, 60000), M("oom", "fiasan", 250, 20000)], count="faults_injected",
                rule="every allocation point (all up to 24, else sampled) of a call or stream history fails, once and for good; distinct cases with at least one allocation or a stream"),
    "C14": dict(jobs=[M("range", "rel", 6000, 150000)], count="bounds_checked",
                rule="documented ranges, band orderings and identities checked on every output bar; non-trivial: at least one output"),
    "C15": dict(jobs=[M("long", "rel", 80, 600)], count="bars_compared",
                rule="histories of thousands of bars compared with the definition; non-trivial: at least one bar was comparable"),
    "C16": dict(jobs=[P("meta", 20000, 1000000)], count="lookups",
                rule="every row of the compiled table against indicators.yaml and the implementation's own behaviour; random names for the lookup"),
    "C17": dict(jobs=[P("pybind", 160, 4000)], count="bars_compared",
                rule="random calls through the Python package, compared with direct calls of the C library on the same data"),
    "C18": dict(jobs=[P("gens", 20, 400)], count="programs",
                rule="random indicator catalogues through codegen.py, compiled and loaded; the C# and documentation generators on the real catalogue"),
    "C19": dict(jobs=[M("threads", "tsan", 200, 5000), M("threads", "rel", 1000, 25000)], count="rounds",
                rule="2..6 threads run calls, streams and lookups at once under ThreadSanitizer and in release; answers compared with solitary runs"),
    "C20": dict(jobs=[M("life", "fi", 2500, 60000), M("leak", "fi", 5000, 120000), M("life", "fiasan", 500, 12000), M("leak", "fiasan", 1000, 25000)], count="rounds",
                rule="many streams of several indicators alive at once, interleaved and freed in random order or mid-life, with an allocation ledger; distinct schedules"),
}

ENV = {
    "ASAN_OPTIONS": "allocator_may_return_null=1:detect_leaks=0:detect_stack_use_after_return=1:exitcode=99:max_allocation_size_mb=2000",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99",
    "MSAN_OPTIONS": "poison_in_malloc=0:poison_in_free=0:allocator_may_return_null=1:exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=1:allocator_may_return_null=1:exitcode=66",
}
VALGRIND = ["valgrind", "-q", "--trace-children=no", "--child-silent-after-fork=no", "--leak-check=no", "--error-exitcode=0", "--undef-value-errors=yes"]

def read_known(path=os.path.join(VERIF, "known_findings.txt")):
    """Lines `known: property=<id> key=<key> <text>`; fixed: lines suppress nothing."""
    known = {}
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+)\s*(.*)", line.strip())
            if m: known[(m[1], m[2])] = m[3]
    return known

def parse(out):
    recs = []
    for line in out.splitlines():
        if line.startswith("{"):
            try: recs.append(json.loads(line))
            except ValueError: raise HarnessError("unreadable monitor line: " + line[:300])
    return recs

def run_mon(exe, args, env, timeout, tool=None, log=None):
    cmd = [exe] + args
    if tool == "valgrind":
        cmd = VALGRIND + ["--log-file=" + log + ".%p"] + cmd
    e = dict(os.environ); e.update(ENV)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=e, timeout=timeout)
    except subprocess.TimeoutExpired as t:
        o = t.stdout or b""
        return None, parse(o.decode("utf8", "replace").rsplit("\n", 1)[0] if isinstance(o, bytes) else o.rsplit("\n", 1)[0])
    if p.returncode != 0:
        raise HarnessError("monitor %s exited %d: %s" % (" ".join(args), p.returncode, p.stderr[-1500:]))
    return 0, parse(p.stdout)

class Result:
    def __init__(self):
        self.viol = []          # dict(key,msg,replay)
        self.counters = {}
        self.samples = []
        self.notes = []
        self.inconclusive = []
    def add(self, k, n):
        self.counters[k] = self.counters.get(k, 0) + n

def frame_of(msg, tree):
    """The first frame of a sanitizer report that lies in the library: makes a key that survives line shifts."""
    for m in re.finditer(r"#\d+ \S+ in (\S+) (\S+?):\d+", msg):
        if "/harness/" not in m[2] and ("/indicators/" in m[2] or "/utils/" in m[2]): return m[1]
    m = re.search(r"/(?:indicators|utils)/([\w.]+):\d+", msg)
    return m[1] if m else ""

def crash_key(rec, tree):
    kind = rec["how"]
    m = re.search(r"(?:AddressSanitizer|ThreadSanitizer|MemorySanitizer): ([\w-]+(?: race)?)", rec["msg"]) or re.search(r"runtime error: ([a-z ]+)", rec["msg"])
    if m: kind = m[1].strip().replace(" ", "-")
    return "%s:%s:crash:%s" % (rec["ind"], rec["phase"].split("-")[0] or "harness", kind)

def run_monitor_job(job, tier, seed, tree, work, res, exes):
    v = job["variant"]
    if v not in exes: exes[v] = vlib.build_mon(tree, work, v)
    exe = exes[v]
    cases = job["cases"][tier]
    infos = exes.get("infos")
    if infos is None:
        p = vlib.run([exe, "--list"])
        if p.returncode: raise HarnessError("the monitor cannot list indicators: " + p.stderr[-500:])
        infos = exes["infos"] = [l.split()[0] for l in p.stdout.splitlines() if l.strip()]
    names = group(job["group"], infos) if job["group"] else infos
    if not names: raise HarnessError("no indicators in group %s" % job["group"])
    shards = min(len(names), 40)
    jseed = seed * 1009 + (sum(map(ord, v)) % 1000)
    timeout = 700 if tier == "quick" else 20000
    common = ["--mode", job["mode"], "--seed", str(jseed), "--tier", tier]
    t0 = time.time()
    def one(s):
        only = ",".join(names[s::shards])
        log = os.path.join(work, "vg.%s.%d" % (job["mode"], s)) if job["tool"] else None
        rc, recs = run_mon(exe, common + ["--cases", str(cases), "--only", only], None, timeout, job["tool"], log)
        return s, rc, recs, log
    with cf.ThreadPoolExecutor(vlib.JOBS) as ex: outs = list(ex.map(one, range(shards)))
    if not any(recs for _, _, recs, _ in outs): raise HarnessError("the monitor printed nothing")
    for s, rc, recs, log in outs:
        if rc is None: res.inconclusive.append("shard %d of %s/%s ran out of its %d s" % (s, job["mode"], v, timeout))
        for r in recs:
            t = r["t"]
            rep = lambda: dict(mode=job["mode"], variant=v, tool=job["tool"], seed=jseed, tier=tier, ind=r.get("ind"), case=r.get("case"))
            if t == "viol": res.viol.append(dict(key=r["key"], msg=r["msg"], replay=rep()))
            elif t == "sample":
                res.samples.append("%s/%s case %s: %s" % (job["mode"], v, r["case"], r["what"]))
            elif t == "nomodel": res.notes.append("no definition for %s: not examined" % r["ind"])
            elif t == "stat":
                for k, x in r.items():
                    if isinstance(x, int): res.add(k, x); res.add(job["mode"] + "." + v + "." + k, x) if k in ("cases", "distinct") else None
            elif t == "crash":
                if r["how"] == "killed":
                    res.inconclusive.append("%s case %d was killed (out of memory?)" % (r["ind"], r["case"])); continue
                if r["how"] == "hang":
                    rc2, again = run_mon(exe, common + ["--first", str(r["case"]), "--cases", "1", "--only", r["ind"], "--cpu", "40"], None, 200)
                    if rc2 is not None and not any(a["t"] == "crash" for a in again):
                        res.inconclusive.append("%s case %d was slow once" % (r["ind"], r["case"])); continue
                res.viol.append(dict(key=crash_key(r, tree), msg="%s in %s: %s" % (r["how"], r["phase"], r["msg"][:2500]), replay=rep()))
        if job["tool"] == "valgrind":
            d, b = os.path.split(log)
            for f in sorted(os.listdir(d)):
                if not f.startswith(b + "."): continue
                text = open(os.path.join(d, f), errors="replace").read()
                blocks = re.split(r"\n==\d+== *\n", "\n" + text)
                for blk in blocks:
                    head = re.search(r"==\d+== ([A-Z][^\n]+)", blk)
                    if not head or "Warning" in head[1] or "noted but unhandled" in blk or not re.search(r"\bat 0x", blk): continue
                    fn = re.search(r"(ti_\w+)", blk)
                    if not fn: fn = re.search(r"collect", blk)
                    if fn is None: continue
                    res.viol.append(dict(key="valgrind:%s:%s" % (fn[0], head[1].split("(")[0].strip().replace(" ", "-")[:50]), msg=blk.strip()[:2500],
                                         replay=dict(mode=job["mode"], variant=v, tool="valgrind", seed=jseed, tier=tier, ind=None, case=None, only=",".join(names[s::shards]), cases=cases)))
    res.notes.append("%s/%s: %d cases per indicator on %d indicators, %.1f s" % (job["mode"], v, cases, len(names), time.time() - t0))

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?"); ap.add_argument("--tier"); ap.add_argument("--replay"); ap.add_argument("--setup", action="store_true")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.setup:
        for tool in ("gcc", "g++", "clang", "clang++", "valgrind"):
            if not shutil.which(tool): raise HarnessError("no " + tool)
        vlib.python_with_yaml(); os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True); os.makedirs(vlib.BUILD, exist_ok=True)
        print("setup: toolchain present"); return 0
    if a.replay:
        rp = json.load(open(a.replay)); a.prop = rp["property"]
    if a.prop not in PROPS: ap.error("unknown property")
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    spec = PROPS[a.prop]
    t0 = time.time()
    work = os.path.join(vlib.BUILD, "%s-%d" % (a.prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        tree = vlib.snapshot(os.path.join(work, "src"))
        if a.replay: return replay(rp, tree, work)
        res = Result(); exes = {}
        todo = sorted({j["variant"] for j in spec["jobs"] if j["kind"] == "mon"})
        for v in todo: exes[v] = vlib.build_mon(tree, work, v)
        res.notes.append("built %s in %.1f s" % (", ".join(todo) or "nothing", time.time() - t0))
        for job in spec["jobs"]:
            if job["kind"] == "mon": run_monitor_job(job, tier, seed, tree, work, res, exes)
            else:
                mod = __import__(job["module"])
                mod.run(job["cases"][tier], seed, tier, tree, work, res)
        return report(a.prop, spec, tier, seed, res, t0)
    finally:
        if not a.keep: shutil.rmtree(work, ignore_errors=True)

def report(prop, spec, tier, seed, res, t0):
    known = read_known()
    fresh, old = {}, {}
    for v in res.viol:
        (old if (prop, v["key"]) in known else fresh).setdefault(v["key"], v)
    observed = res.counters.get(spec["count"], 0)
    distinct = res.counters.get("distinct", 0)
    samples = res.samples[::max(1, len(res.samples) // 12)][:14]
    ev = dict(property=prop, tier=tier, seed=seed, level=LEVELS.get(prop, "exploration"),
              coverage=dict(evaluations=res.counters.get("cases", 0), distinct_nontrivial=distinct, rule=spec["rule"], samples=samples or ["(none)"],
                            observed={k: n for k, n in sorted(res.counters.items()) if n}, deciding_counter=spec["count"], notes=res.notes[:60], inconclusive=res.inconclusive[:60]),
              assumptions=ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=len(fresh))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for k in old: print("KNOWN-FINDING: property=%s %s (%s)" % (prop, k, known[(prop, k)]))
    for n in res.inconclusive[:10]: print("inconclusive:", n)
    print("%s %s seed %d: %d cases, %d distinct non-trivial, %s %d, %.1f s" % (prop, tier, seed, res.counters.get("cases", 0), distinct, spec["count"], observed, time.time() - t0))
    if fresh:
        rd = os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True)
        for n, (k, v) in enumerate(fresh.items()):
            if n >= 12: print("... and %d more kinds" % (len(fresh) - 12)); break
            path = os.path.join("replays", "%s-%s.json" % (prop, hashlib.sha1(k.encode()).hexdigest()[:10]))
            with open(os.path.join(VERIF, path), "w") as f: json.dump(dict(property=prop, key=k, msg=v["msg"], **v["replay"]), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s: %s" % (k, v["msg"][:600].replace("\n", "\n    ")))
        return 1
    if observed == 0 or distinct == 0: raise HarnessError("nothing was observed (%s=%d, distinct=%d)" % (spec["count"], observed, distinct))
    return 0

def replay(rp, tree, work):
    if "module" in rp:
        mod = __import__(rp["module"]); return mod.replay(rp, tree, work)
    exe = vlib.build_mon(tree, work, rp["variant"])
    args = ["--mode", rp["mode"], "--seed", str(rp["seed"]), "--tier", rp.get("tier", "quick")]
    if rp.get("ind"): args += ["--first", str(rp["case"]), "--cases", "1", "--only", rp["ind"], "--verbose"]
    else: args += ["--cases", str(rp["cases"]), "--only", rp["only"]]
    log = os.path.join(work, "vg")
    rc, recs = run_mon(exe, args, None, 600, rp.get("tool"), log)
    bad = False
    for r in recs:
        if r["t"] in ("viol", "crash", "note"): print(json.dumps(r)); bad = bad or r["t"] != "note"
    if rp.get("tool"):
        for f in os.listdir(work):
            if f.startswith("vg."):
                t = open(os.path.join(work, f)).read()
                if "ti_" in t: print(t); bad = True
    print("reproduced" if bad else "not reproduced")
    return 1 if bad else 0

LEVELS = {"C13": "fault_enumeration"}
ASSUMPTIONS = [
    "options that stand for a number of bars are whole numbers",
    "values are judged on finite input data; other data only for memory safety, termination and the call contract",
    "the library is built by gcc with the repository's release flags (or the sanitizer's) from the current tree, with freshly generated indicators.h and indicators_index.c",
]

if __name__ == "__main__":
    try: sys.exit(main())
    except HarnessError as e:
        print("HARNESS ERROR:", e); sys.exit(2)
