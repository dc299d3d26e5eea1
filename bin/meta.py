"""C16: the compiled indicator table, the header and the lookup against indicators.yaml and the published catalogue."""
import json, os, subprocess, sys, time
import vlib
from vlib import VERIF, HarnessError

def load_yaml(tree):
    p = vlib.run([vlib.python_with_yaml(), "-c", "import yaml,json,sys; print(json.dumps(list(yaml.safe_load(open(sys.argv[1],encoding='utf8')).items())))", os.path.join(tree, "indicators.yaml")])
    if p.returncode: raise HarnessError("indicators.yaml cannot be read: " + p.stderr[-800:])
    return json.loads(p.stdout)

def version_of(tree):
    p = vlib.run([sys.executable, "-c", "import version; print(version.version, end='')"], cwd=tree)
    if p.returncode: raise HarnessError("version.py: " + p.stderr[-500:])
    return p.stdout

def cstr(s):
    return '"' + "".join(c if c.isalnum() or c in " _.,-+()%'/" and c != '"' else "".join("\\%03o" % b for b in c.encode()) for c in s) + '"'

def rows_source(entries, version):
    """C++ source of the expected table; refers to every symbol the catalogue promises."""
    L = ['#include "indicators.h"', "#include <cstddef>", '#include "meta_row.hpp"', "const char* want_version = %s;" % cstr(version),
         "const int want_count = %d;" % len(entries), "const Want want[] = {"]
    for name, (full, typ, ins, opts, outs, feats, _src) in entries:
        s = "stream" in feats
        L.append("{%s, %s, TI_TYPE_%s, TI_INDICATOR_%s_INDEX, %d, %d, %d, {%s}, {%s}, {%s}, ti_%s_start, ti_%s, %s, %s, %s, %s}," % (
            cstr(name), cstr(full), typ.upper(), name.upper(), len(ins), len(opts), len(outs),
            ", ".join(map(cstr, ins)) or "0", ", ".join(map(cstr, opts)) or "0", ", ".join(map(cstr, outs)) or "0", name, name,
            "ti_%s_ref" % name if "ref" in feats else "0", *(["ti_%s_stream_%s" % (name, k) if s else "0" for k in ("new", "run", "free")])))
    L.append("};")
    return "\n".join(L) + "\n"

def build(tree, work, entries, version, tag):
    d = os.path.join(work, "meta-" + tag); os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "rows.cc"), "w").write(rows_source(entries, version))
    jobs, objs = vlib.lib_jobs(tree, os.path.join(d, "obj"), vlib.RELEASE)
    vlib.compile_all(jobs)
    extra, bad = [], None
    for src in (os.path.join(d, "rows.cc"), os.path.join(VERIF, "harness", "meta.cc")):
        o = os.path.join(d, os.path.basename(src) + ".o")
        p = vlib.run(["g++", "-std=c++17", "-w", "-O1", "-I", tree, "-I", os.path.join(VERIF, "harness"), "-c", src, "-o", o])
        if p.returncode: bad = "the header does not declare what the catalogue promises:\n" + p.stderr[-1500:]; break
        extra.append(o)
    exe = os.path.join(d, "meta")
    if not bad:
        p = vlib.run(["g++", "-o", exe] + extra + objs + ["-lm"])
        if p.returncode: bad = "the library does not define what the catalogue promises:\n" + p.stderr[-1500:]
    return exe, bad

def judge_exe(exe, cases, seed, res, replay):
    p = vlib.run([exe, str(seed), str(cases)], timeout=600)
    recs = []
    for line in p.stdout.splitlines():
        if line.startswith("{"): recs.append(json.loads(line))
    if p.returncode not in (0,):
        res.viol.append(dict(key="meta:crash", msg="the table walk ended with status %d: %s %s" % (p.returncode, p.stdout[-400:], p.stderr[-800:]), replay=replay))
    for r in recs:
        if r["t"] == "viol": res.viol.append(dict(key=r["key"], msg=r["msg"], replay=replay))
        elif r["t"] == "sample": res.samples.append(r["what"])
        elif r["t"] == "stat":
            for k, x in r.items():
                if isinstance(x, int): res.add(k, x)
    return recs

def run(cases, seed, tier, tree, work, res):
    replay = dict(module="meta", cases=cases, seed=seed)
    entries = load_yaml(tree)
    t0 = time.time()
    exe, bad = build(tree, work, entries, version_of(tree), "yaml")
    if bad: res.viol.append(dict(key="meta:symbols", msg=bad, replay=replay)); res.add("distinct", len(entries)); res.add("lookups", 1)
    else: judge_exe(exe, cases, seed, res, replay)
    # the published catalogue: what callers of the released library compiled against
    gold = json.load(open(os.path.join(VERIF, "models", "catalogue.json"))); now = dict(entries)
    for name, g in gold.items():
        res.add("catalogue_rows", 1)
        if name not in now: res.viol.append(dict(key="%s:catalogue:gone" % name, msg="%s is no longer in the catalogue" % name, replay=replay)); continue
        full, typ, ins, opts, outs, feats, _ = now[name]
        for what, a, b in (("type", typ, g["type"]), ("inputs", ins, g["inputs"]), ("options", opts, g["options"]), ("outputs", outs, g["outputs"])):
            if a != b: res.viol.append(dict(key="%s:catalogue:%s" % (name, what), msg="%s: %s are %s, published as %s" % (name, what, a, b), replay=replay))
        for f in g["features"]:
            if f not in feats: res.viol.append(dict(key="%s:catalogue:%s" % (name, f), msg="%s lost its %s implementation" % (name, f), replay=replay))
    for name, row in entries:
        if not any(os.path.exists(os.path.join(tree, "indicators", name + e)) for e in (".c", ".cc", ".cpp", ".cxx")):
            res.notes.append("%s has no source file of its own name" % name)
    res.notes.append("table walk in %.1f s" % (time.time() - t0))

def replay(rp, tree, work):
    import check
    res = check.Result(); run(rp["cases"], rp["seed"], "quick", tree, work, res)
    for v in res.viol: print(v["key"], v["msg"])
    print("reproduced" if res.viol else "not reproduced")
    return 1 if res.viol else 0
