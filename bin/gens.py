"""C18: the generators (codegen.py, the C# bindings, the documentation) on random and real catalogues."""
import concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys
import vlib, meta
from vlib import VERIF, HarnessError

CKEY = set("auto break case char const continue default do double else enum extern float for goto if int long register return short signed sizeof static struct switch typedef union unsigned void volatile while asm new delete class this try catch and or not xor bool true false".split())

def random_catalogue(r, count=None):
    """name -> [full, type, inputs, options, outputs, features, source], in random order; names chosen to be close to each other."""
    cat = {}; pool = []
    n = count or r.choice([1, 2, 3, 5, 9, 17, 30])
    while len(cat) < n:
        u = r.random()
        if pool and u < 0.35: s = r.choice(pool) + r.choice("abz09_")
        elif pool and u < 0.5: s = r.choice(pool)[:-1]
        else: s = "".join(r.choice("abcxyz019_m") for _ in range(r.randint(1, 7)))
        if not re.fullmatch(r"[a-z][a-z0-9_]*", s) or s in CKEY or s in cat or re.search(r"_(start|ref|stream|stream_new|stream_run|stream_free)$", s) or s in ("version", "build", "buffer_new", "buffer_free", "count", "real", "indicator_count", "indicators", "find_indicator") or s.startswith("stream") or s.startswith("indicator"): continue
        if s + "_" in ("",): continue
        pool.append(s)
        ins = r.choice([["series"], ["high", "low", "close"], ["open", "high", "low", "close", "volume"], ["close", "volume"], ["i%d" % k for k in range(r.randint(1, 10))]])
        opts = ["code", "lag"] + ["opt_%d" % k for k in range(r.randint(0, 8))]
        outs = ["out_%d" % k for k in range(r.randint(1, 10))] if r.random() < 0.5 else [s + "_v"]
        feats = r.choice([[], ["ref"], ["stream"], ["ref", "stream"], ["stream", "ref"]])
        cat[s] = ["Full name of %s (%d)" % (s, r.randint(0, 99)), r.choice(["overlay", "indicator", "math", "simple", "comparative"]), ins, opts, outs, feats, "a source"]
    return cat

def stub(name, row):
    full, typ, ins, opts, outs, feats, _ = row
    body = ("    int lag = (int)options[1]; if (options[0]) return (int)options[0];\n"
            "    for (int k = 0; k < %d; ++k) for (int j = 0; j + lag < size; ++j) { double v = 1000.0 * k; for (int s = 0; s < %d; ++s) v += (s + 1) * inputs[s][j + lag]; for (int q = 0; q < %d; ++q) v += (q + 1) * options[q]; outputs[k][j] = v; }\n    return 0;\n") % (len(outs), len(ins), len(opts))
    sig = "(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs)"
    L = ['#include "../indicators.h"', "#include <new>", "int ti_%s_start(TI_REAL const *options) { return (int)options[1]; }" % name, "int ti_%s%s {\n%s}" % (name, sig, body)]
    if "ref" in feats: L.append("int ti_%s_ref%s { return ti_%s(size, inputs, options, outputs); }" % (name, sig, name))
    if "stream" in feats:
        L.append("struct ti_%s_stream : ti_stream { double o[12]; };" % name)
        L.append("int ti_%s_stream_new(TI_REAL const *options, ti_stream **stream) { ti_%s_stream *p = new ti_%s_stream(); p->index = TI_INDICATOR_%s_INDEX; p->progress = -(int)options[1]; for (int q = 0; q < %d; ++q) p->o[q] = options[q]; *stream = p; return 0; }" % (name, name, name, name.upper(), len(opts)))
        L.append("int ti_%s_stream_run(ti_stream *st, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) { ti_%s_stream *p = (ti_%s_stream*)st; TI_REAL *o = outputs[0]; for (int i = 0; i < size; ++i) { if (p->progress++ >= 0) *o++ = inputs[0][i] + %d; } return 0; }" % (name, name, name, sum(map(ord, name))))
        L.append("void ti_%s_stream_free(ti_stream *st) { delete (ti_%s_stream*)st; }" % (name, name))
    return "\n".join(L) + "\n"

def yaml_text(cat, r):
    q = lambda s: '"' + s.replace('"', '\\"') + '"'
    return "# catalogue\n" + "".join("%s: [%s, %s, [%s], [%s], [%s], [%s], '%s']\n" % (q(n), q(v[0]), v[1], ", ".join(v[2]), ", ".join(v[3]), ", ".join(v[4]), ", ".join(v[5]), v[6]) for n, v in cat.items())

def make_tree(tree, dst, cat, r):
    os.makedirs(os.path.join(dst, "indicators"))
    for f in ("codegen.py", "docsgen.py", "version.py"): shutil.copy2(os.path.join(tree, f), dst)
    shutil.copytree(os.path.join(tree, "utils"), os.path.join(dst, "utils"))
    open(os.path.join(dst, "indicators.yaml"), "w").write(yaml_text(cat, r))
    for n, row in cat.items(): open(os.path.join(dst, "indicators", n + ".cc"), "w").write(stub(n, row))
    p = vlib.run([vlib.python_with_yaml(), "codegen.py"], cwd=dst)
    before = sorted(os.listdir(os.path.join(dst, "indicators")))
    return p, before

def stub_library(tree, work, seed):
    """A library built from a random catalogue, whose return codes and values the caller chooses: for the Python binding."""
    r = random.Random(seed * 31 + 7); dst = os.path.join(work, "stublib"); cat = random_catalogue(r, 14)
    p, _ = make_tree(tree, dst, cat, r)
    if p.returncode: return None, p.stderr[-800:]
    so = os.path.join(dst, "libstub.so")
    srcs = [os.path.join(dst, "indicators", n + ".cc") for n in cat]
    ob = []
    for s, cc in [(x, ["g++", "-std=c++17"]) for x in srcs] + [(os.path.join(dst, "indicators_index.c"), ["gcc", "-std=c99"])]:
        o = s + ".o"; q = vlib.run(cc + ["-w", "-O1", "-fPIC", "-c", s, "-o", o])
        if q.returncode: return None, q.stderr[-800:]
        ob.append(o)
    q = vlib.run(["g++", "-shared", "-o", so] + ob)
    return (so, "") if q.returncode == 0 else (None, q.stderr[-800:])

def one_catalogue(tree, work, seed, k):
    r = random.Random(seed * 1000003 + k); dst = os.path.join(work, "cat%d" % k)
    viol, stat, samples = [], {}, []
    cat = random_catalogue(r)
    replay = dict(module="gens", seed=seed, first=k, cases=1)
    def bad(key, msg): viol.append(dict(key=key, msg="catalogue of %s: %s" % (", ".join(list(cat)[:8]), msg[:1500]), replay=replay))
    try:
        p, files = make_tree(tree, dst, cat, r)
        if p.returncode: bad("codegen:fails", "codegen.py ended with status %d: %s" % (p.returncode, p.stderr[-800:])); return viol, stat, samples, cat
        if files != sorted(n + ".cc" for n in cat): bad("codegen:files", "codegen.py changed the sources: %s" % files)
        for n, row in cat.items():
            if open(os.path.join(dst, "indicators", n + ".cc")).read() != stub(n, row): bad("codegen:files", "codegen.py changed %s.cc" % n)
        entries = list(cat.items())
        jd = os.path.join(dst, "m"); os.makedirs(jd)
        exe, err = meta.build(dst, jd, entries, meta.version_of(dst), "x")
        if err: bad("codegen:symbols", err); return viol, stat, samples, cat
        class R: pass
        import check
        res = check.Result(); meta.judge_exe(exe, 300, seed + k, res, replay)
        for v in res.viol: bad("codegen:" + v["key"].split(":", 1)[1 if v["key"].startswith("meta") else 0].split(":")[-1], v["msg"])
        stat = {q: n for q, n in res.counters.items() if q in ("rows", "row_checks", "lookups")}
        # running the generator again changes nothing but the build stamp
        strip = lambda t: re.sub(r"#define TI_BUILD \d+", "", t)
        one = [strip(open(os.path.join(dst, f)).read()) for f in ("indicators.h", "indicators_index.c")]
        vlib.run([vlib.python_with_yaml(), "codegen.py"], cwd=dst)
        if one != [strip(open(os.path.join(dst, f)).read()) for f in ("indicators.h", "indicators_index.c")]: bad("codegen:idempotent", "a second run of codegen.py generates something else")
        # dispatch: a stream made by one indicator is run and freed as that indicator's
        streams = [n for n, v in cat.items() if "stream" in v[5]]
        if streams:
            L = ['#include "indicators.h"', "#include <stdio.h>", "int main(void) { int bad = 0;"]
            for n in streams:
                ne, no = len(cat[n][2]), len(cat[n][4])
                L.append("{ double o[12] = {0, 1}; double x[4] = {1, 2, 3, 4}, y[10][4]; const double *in[11] = {%s}; double *out[11] = {%s}; ti_stream *s = 0; if (ti_%s_stream_new(o, &s)) bad = 1;" % (", ".join(["x"] * ne), ", ".join("y[%d]" % q for q in range(no)), n))
                L.append("  if (ti_stream_get_info(s) != ti_find_indicator(\"%s\")) { printf(\"info %s\\n\"); bad = 1; }" % (n, n))
                L.append("  if (ti_stream_get_progress(s) != -1) { printf(\"progress %s\\n\"); bad = 1; }" % n)
                L.append("  if (ti_stream_run(s, 4, in, out)) bad = 1; if (y[0][0] != 2 + %d || y[0][2] != 4 + %d) { printf(\"run %s %%g\\n\", y[0][0]); bad = 1; }" % (sum(map(ord, n)), sum(map(ord, n)), n))
                L.append("  if (ti_stream_get_progress(s) != 3) { printf(\"progress after %s\\n\"); bad = 1; } ti_stream_free(s); }" % n)
            L.append("return bad; }")
            src = os.path.join(jd, "disp.c"); open(src, "w").write("\n".join(L))
            od = os.path.join(jd, "meta-x", "obj")
            objs = [os.path.join(od, f) for f in os.listdir(od)]
            q = vlib.run(["gcc", "-w", "-O0", "-I", dst, "-c", src, "-o", src + ".o"])
            if q.returncode == 0: q = vlib.run(["g++", "-o", src + ".x", src + ".o"] + objs)
            if q.returncode: bad("codegen:dispatch", q.stderr[-600:])
            else:
                q = vlib.run([src + ".x"])
                if q.returncode: bad("codegen:dispatch", "generic stream functions reach the wrong indicator (status %d): %s" % (q.returncode, q.stdout[-400:]))
                stat["dispatches"] = len(streams)
        docs(dst, dst, entries, bad, stat, "docs")
        if k < 6: samples.append("codegen.py on %d random indicators: %s" % (len(cat), ", ".join(list(cat)[:6])))
    finally:
        shutil.rmtree(dst, ignore_errors=True)
    return viol, stat, samples, cat

def scaffold(tree, work, seed, k):
    """New catalogue entries get a skeleton with every promised function; existing sources get only what they lack."""
    r = random.Random(seed * 7000003 + k); dst = os.path.join(work, "new%d" % k); viol = []
    cat = random_catalogue(r, r.choice([1, 2, 4, 7])); replay = dict(module="gens", seed=seed, first=k, cases=1)
    def bad(key, msg): viol.append(dict(key=key, msg="catalogue of %s: %s" % (", ".join(list(cat)), msg[:1500]), replay=replay))
    state = {}; ext = {}; made = 0
    old = r.random() < 0.25                                   # codegen.py --old: C sources
    try:
        os.makedirs(os.path.join(dst, "indicators"))
        for f in ("codegen.py", "version.py"): shutil.copy2(os.path.join(tree, f), dst)
        open(os.path.join(dst, "indicators.yaml"), "w").write(yaml_text(cat, r))
        for n, row in cat.items():
            u = r.random(); ext[n] = ".cc"
            if u < 0.4: state[n] = None; ext[n] = ".c" if old else ".cc"; continue
            have = list(row); have[5] = [f for f in row[5] if r.random() < 0.5]; state[n] = stub(n, have)
            if old or r.random() < 0.3: ext[n] = ".c"         # a C source from before: moves to .cc when something is added to it
            open(os.path.join(dst, "indicators", n + ext[n]), "w").write(state[n])
        e = {q: v for q, v in os.environ.items() if not q.startswith("GIT_")}
        e.update(GIT_CEILING_DIRECTORIES=os.path.dirname(dst), GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_SYSTEM="/dev/null", HOME=dst)
        for c in (["git", "init", "-q", "."], ["git", "add", "-A"]):   # the scratch tree is a repository of its own: codegen.py moves and adds files with git
            if vlib.run(c, cwd=dst, env=e).returncode: raise HarnessError("%s in %s failed" % (" ".join(c), dst))
        p = vlib.run([vlib.python_with_yaml(), "codegen.py"] + ["--old"] * old, cwd=dst, env=e)
        if p.returncode: bad("scaffold:fails", "codegen.py%s ended with status %d: %s" % (" --old" * old, p.returncode, p.stderr[-800:])); return viol, made
        lacks = {n: state[n] is not None and any("ti_%s_%s" % (n, f) not in state[n] for f in row[5]) for n, row in cat.items()}
        now = {n: ".cc" if lacks[n] and not old else ext[n] for n in cat}
        got = sorted(os.listdir(os.path.join(dst, "indicators")))
        if got != sorted(n + now[n] for n in cat): bad("scaffold:files", "the sources are now %s, expected %s" % (got, sorted(n + now[n] for n in cat))); return viol, made
        for n, row in cat.items():
            t = open(os.path.join(dst, "indicators", n + now[n])).read(); made += 1; f = n + now[n]
            defs = re.findall(r"^(?:DONTOPTIMIZE)?\s*(?:int|void) (ti_\w+)\([^;{]*\)[^;{]*\{", t, re.M)
            want = ["ti_%s_start" % n, "ti_" + n] + (["ti_%s_ref" % n] if "ref" in row[5] else []) + (["ti_%s_stream_%s" % (n, q) for q in ("new", "run", "free")] if "stream" in row[5] else [])
            if sorted(defs) != sorted(want): bad("scaffold:functions", "%s (%s) now defines %s, promised %s" % (f, "new" if state[n] is None else "extended", sorted(defs), sorted(want)))
            if state[n] is not None:
                it = iter(t.split("\n"))
                if not all(l in it for l in state[n].rstrip("\n").split("\n")): bad("scaffold:rewritten", "codegen.py lost or reordered what was in %s" % f)
                elif now[n] == ext[n] and not t.startswith(state[n].rstrip("\n")): bad("scaffold:rewritten", "codegen.py changed what was in %s" % f)
                if not lacks[n] and t != state[n]: bad("scaffold:rewritten", "codegen.py changed the complete %s" % f)
            # what the skeleton unpacks: each name of the catalogue from its own slot, nothing from another
            for arr, names in (("inputs", row[2]), ("options", row[3]), ("outputs", row[4])):
                for nm, k in re.findall(r"\b(\w+)\s*=\s*%s\[(\d+)\]\s*;" % arr, t if state[n] is None else ""):
                    if int(k) >= len(names) or names[int(k)] != nm: bad("scaffold:unpack", "%s reads %s from %s[%s] of %s" % (f, nm, arr, k, names))
                if state[n] is None and set(nm for nm, k in re.findall(r"\b(\w+)\s*=\s*%s\[(\d+)\]\s*;" % arr, t)) != set(names): bad("scaffold:unpack", "%s does not unpack %s %s" % (f, arr, names))
        q = vlib.run([vlib.python_with_yaml(), "codegen.py"] + ["--old"] * old, cwd=dst, env=e)   # again: nothing is left to add
        if q.returncode: bad("scaffold:again", "the second codegen.py%s ended with status %d: %s" % (" --old" * old, q.returncode, q.stderr[-800:]))
        for n in cat:
            f = os.path.join(dst, "indicators", n + now[n])
            if not os.path.exists(f) or len(re.findall(r"^(?:DONTOPTIMIZE)?\s*(?:int|void) (ti_\w+)\(", open(f).read(), re.M)) != 2 + ("ref" in cat[n][5]) + 3 * ("stream" in cat[n][5]): bad("scaffold:again", "the second codegen.py%s changed %s" % (" --old" * old, n + now[n]))
    finally:
        shutil.rmtree(dst, ignore_errors=True)
    return viol, made

def docs(tree, cwd, entries, bad, stat, key):
    p = vlib.run([vlib.python_with_yaml(), "docsgen.py", "index.markdown"], cwd=tree)
    path = os.path.join(tree, "index.markdown")
    if p.returncode or not os.path.exists(path): bad(key + ":fails", "docsgen.py ended with status %d: %s" % (p.returncode, p.stderr[-600:])); return
    t = open(path, encoding="utf8").read(); os.remove(path)
    m = re.search(r"\*\*(\d+) indicators\*\*", t)
    if not m or int(m[1]) != len(entries): bad(key + ":count", "the documentation counts %s indicators, there are %d" % (m and m[1], len(entries)))
    v = meta.version_of(tree)
    if "v" + v not in t: bad(key + ":version", "the documentation does not give version " + v)
    secs = re.split(r"^#### ", t, flags=re.M)[1:]
    if len(secs) != len(entries): bad(key + ":sections", "%d sections for %d indicators" % (len(secs), len(entries)))
    for (name, (full, typ, ins, opts, outs, feats, src)), s in zip(entries, secs):
        head = s.split("\n", 1)[0].strip()
        sig = re.search(r"```python\s*\nti\.(\S+?)\(\s*(.*?)\)\s*->\s*NamedTuple\(\.\.\.,\s*(.*?)\)\s*\n```", s, re.S)
        stat["doc_sections"] = stat.get("doc_sections", 0) + 1
        if head != full.strip(): bad(key + ":section", "section %r where %r belongs" % (head, full)); break
        if not sig: bad(key + ":signature", "%s has no signature" % name); break
        params = [x.strip() for x in sig[2].split(",") if x.strip()]; res = [x.strip() for x in sig[3].split(",") if x.strip()]
        if sig[1] != name or params != [x + ": np.ndarray" for x in ins] + list(opts) or res != [x + " = np.ndarray" for x in outs]: bad(key + ":signature", "%s is documented as %s" % (name, sig[0][:300])); break
        f = re.search(r"\*Implementation:\* \[([^\]]+)\]\(([^)]+)\)", s)
        if not f or not os.path.exists(os.path.join(tree, "indicators", f[1])) or not f[2].endswith("/indicators/" + f[1]) or os.path.splitext(f[1])[0] != name: bad(key + ":link", "%s links to %s" % (name, f and f[0])); break
        if src not in s: bad(key + ":source", "%s does not cite its source" % name); break

def csharp(tree, work, entries, bad, stat):
    d = os.path.join(work, "lean"); shutil.copytree(os.path.join(tree, "bindings"), d)
    pk = os.path.join(d, "python", "tindicators")
    so = vlib.build_shared(tree, os.path.join(work))
    shutil.copy(so, os.path.join(pk, "libindicators.so")); shutil.copy(so, os.path.join(pk, "indicators.dll"))
    e = dict(os.environ, PYTHONPATH=os.path.join(d, "python"), PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([python_numpy(), "generate-bindings.py"], cwd=os.path.join(d, "lean"), env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    cs = os.path.join(d, "lean", "tindicators.cs")
    if p.returncode or not os.path.exists(cs): bad("csharp:fails", "generate-bindings.py ended with status %d: %s" % (p.returncode, p.stderr[-800:])); return
    t = open(cs, encoding="utf8").read(); shutil.rmtree(d, ignore_errors=True)
    if t.count("{") != t.count("}") or t.count("(") != t.count(")"): bad("csharp:balance", "unbalanced brackets in the generated C#")
    a, b = t.find("namespace Streaming"), t.find("namespace Default")
    if a < 0 or b < 0: bad("csharp:namespaces", "the generated C# lacks a namespace"); return
    parts = dict(Streaming=t[a:b] if a < b else t[a:], Default=t[b:] if a < b else t[b:a])
    clean = lambda x: x.replace(" ", "_").replace("%", "")
    for ns, text in parts.items():
        secs = re.split(r"public class ", text)[1:]
        classes = {}
        for s in secs:
            m = re.match(r"(\w+) : (\w+)<(\w+)> \{", s)
            if not m: bad("csharp:class", "unreadable class: " + s[:80]); continue
            if m[1] in classes: bad("csharp:duplicate", "class %s twice in %s" % (m[1], ns))
            classes[m[1]] = (m[2], m[3], s)
        want = 0
        for name, (full, typ, ins, opts, outs, feats, src) in entries:
            if "series" in ins and len(ins) > 1: continue
            if ns == "Streaming" and "stream" not in feats: continue
            want += 1; cls = re.sub("[^0-9a-zA-Z]", "", full); stat["cs_classes"] = stat.get("cs_classes", 0) + 1
            if cls not in classes: bad("csharp:missing", "%s has no class %s in %s" % (name, cls, ns)); continue
            base, data, s = classes[cls]; it = "IndicatorDataPoint" if "series" in ins else "TradeBar"
            if base != dict(Streaming="IndicatorBase", Default="WindowIndicator")[ns] or data != it: bad("csharp:base", "%s derives from %s<%s>" % (cls, base, data))
            o = list(map(clean, opts)); ctor = re.search(r"public %s\(([^)]*)\)" % cls, s)
            params = ["double " + x for x in o] + (["int windowsize=0"] if ns == "Default" else [])
            if not ctor or [x.strip() for x in ctor[1].split(",") if x.strip()] != params: bad("csharp:constructor", "%s takes (%s), the indicator (%s)" % (cls, ctor and ctor[1], ", ".join(params)))
            arrs = re.findall(r"new double\[\]\s*\{([^}]*)\}", s)
            if not arrs or any([x.strip() for x in y.split(",") if x.strip()] != o for y in arrs): bad("csharp:options", "%s passes the options %s" % (cls, arrs))
            ids = re.findall(r"public Identity (\w+);", s)
            if ids != [clean(x).upper() for x in outs]: bad("csharp:outputs", "%s exposes %s" % (cls, ids))
            for arr, n in (("inputs", len(ins)), ("outputs", len(outs))):
                m = re.search(r"IntPtr\[\] %s = new IntPtr\[(\d+)\]" % arr, s)
                if not m or int(m[1]) != n: bad("csharp:arrays", "%s allocates %s %s, the indicator has %d" % (cls, m and m[1], arr, n))
                al = re.findall(r"%s\[(\d+)\] = Marshal\.AllocHGlobal" % arr, s)
                if al != [str(i) for i in range(n)]: bad("csharp:arrays", "%s fills %s %s" % (cls, arr, al))
            fed = re.findall(r"\(double\)(?:data|value)\.(\w+)", s)
            if fed != (["Value"] if "series" in ins else [x.capitalize() for x in ins]): bad("csharp:inputs", "%s is fed %s" % (cls, fed))
            eps = re.findall(r'EntryPoint="(\w+)"\)\]\s*static extern (\w+) (\w+)\(([^)]*)\);', s)
            we = {"ti_%s_stream_new" % name: "int", "ti_%s_stream_run" % name: "int", "ti_%s_stream_free" % name: "void", "ti_stream_get_progress": "int"} if ns == "Streaming" else {"ti_%s_start" % name: "int", "ti_%s" % name: "int"}
            if {x[0]: x[1] for x in eps} != we or any(x[0] != x[2] for x in eps): bad("csharp:imports", "%s imports %s" % (cls, eps))
            upd = re.findall(r"(\w+)\.Update\(data\.Time, \(decimal\)tmp\[([^\]]+)\]\)", s)
            if [u[0] for u in upd] != [clean(x).upper() for x in outs]: bad("csharp:updates", "%s updates %s" % (cls, upd))
            if ns == "Streaming" and [u[1] for u in upd] != [str(i) for i in range(len(outs))]: bad("csharp:updates", "%s updates from %s" % (cls, upd))
            if ns == "Streaming" and int((re.search(r"double\[\] tmp = new double\[(\d+)\]", s) or [0, -1])[1]) < max(len(ins), len(outs)): bad("csharp:arrays", "%s: its scratch array is too small" % cls)
        if len(classes) != want: bad("csharp:extra", "%d classes in %s, %d expected" % (len(classes), ns, want))
    stat["cases"] = stat.get("cases", 0) + len(entries)

def python_numpy():
    for py in ("/opt/vp/venv/bin/python", "python3-vt", "python3", sys.executable):
        try:
            if subprocess.run([py, "-c", "import numpy"], stderr=subprocess.DEVNULL).returncode == 0: return py
        except OSError: pass
    raise HarnessError("no python with numpy")

def run(cases, seed, tier, tree, work, res, first=0):
    entries = meta.load_yaml(tree)
    replay = dict(module="gens", seed=seed, first=0, cases=0)
    stat = {}
    bad = lambda key, msg: res.viol.append(dict(key=key, msg=msg[:1500], replay=replay))
    docs(tree, tree, entries, bad, stat, "docs"); csharp(tree, work, entries, bad, stat)
    for k, n in stat.items(): res.add(k, n)
    seen = set()
    with cf.ThreadPoolExecutor(4) as ex:
        for viol, st, samples, cat in ex.map(lambda k: one_catalogue(tree, work, seed, k), range(first, first + cases)):
            res.viol += viol; res.samples += samples; res.add("programs", 1); res.add("cases", 1)
            for k, n in st.items(): res.add(k, n)
            if tuple(cat) not in seen: seen.add(tuple(cat)); res.add("distinct", 1)
        for viol, made in ex.map(lambda k: scaffold(tree, work, seed, k), range(first, first + 3 * cases)):
            res.viol += viol; res.add("scaffolds", made)

def replay(rp, tree, work):
    import check
    res = check.Result(); run(rp["cases"], rp["seed"], "quick", tree, work, res, rp["first"])
    for v in res.viol: print(v["key"], v["msg"])
    print("reproduced" if res.viol else "not reproduced")
    return 1 if res.viol else 0
