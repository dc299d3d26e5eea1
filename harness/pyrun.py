"""Drives the Python package of the current tree against direct calls of the same C library.  argv: package-parent, library, stub library (or -), seed, cases, yaml-json."""
import sys, json, ctypes, random, math, traceback, threading
sys.dont_write_bytecode = True
pkgdir, lib, stub, seed, cases, yamljson = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), sys.argv[6]
sys.path.insert(0, pkgdir)
import numpy as np
try:
    import pandas as pd
except ImportError:
    pd = None
rng = random.Random(seed * 7919 + 13)
entries = json.load(open(yamljson))
ctr = dict(cases=0, distinct=0, bars_compared=0, rejected=0, forms=0, calls=0, errors_checked=0)
nviol = {}
def emit(d): print(json.dumps(d), flush=True)
def viol(key, msg):
    nviol[key] = nviol.get(key, 0) + 1
    if nviol[key] <= 1 and len(nviol) < 40: emit(dict(t="viol", key=key, msg=msg[:1500]))

import tindicators
from tindicators import ti, InvalidOption, OutOfMemory, NoSuchIndicator, Indicators
C = ctypes.CDLL(lib)
D = ctypes.c_double

def raw(name, ins, opts, nout):
    """The C library, called directly: (code, start, list of outputs)."""
    n = len(ins[0]); o = (D * max(1, len(opts)))(*opts)
    st = getattr(C, "ti_%s_start" % name); st.restype = ctypes.c_int; start = st(o)
    keep = [(D * max(1, n))(*x) for x in ins]
    ip = (ctypes.POINTER(D) * (len(ins) + 1))(*[ctypes.cast(k, ctypes.POINTER(D)) for k in keep])
    cnt = max(0, n - start); outs = [(D * max(1, cnt))() for _ in range(nout)]
    op = (ctypes.POINTER(D) * (nout + 1))(*[ctypes.cast(k, ctypes.POINTER(D)) for k in outs])
    f = getattr(C, "ti_" + name); f.restype = ctypes.c_int; code = f(n, ip, o, op)
    return code, start, [list(x[:cnt]) for x in outs]

def bits(v): return np.asarray(v, dtype=np.float64).view(np.uint64)
def same(a, b): a = np.asarray(a, dtype=np.float64); b = np.asarray(b, dtype=np.float64); return a.shape == b.shape and bool(np.all((bits(a) == bits(b)) | (np.isnan(a) & np.isnan(b))))

def clean(x): return x.replace(" ", "_").replace("%", "")
def gen_options(opts):
    o = []
    for nm in opts:
        u = rng.random()
        if any(s in nm for s in ("period", "length", "window")) or u < 0.5: v = rng.randint(1, 6) if u < 0.5 else rng.randint(2, 30)
        else: v = rng.choice([0.05, 0.1, 0.25, 0.5, 1, 1.5, 2, 0.02, 0.2])
        o.append(v)
    if rng.random() < 0.6: o.sort()
    for k, nm in enumerate(opts): # the whole range of a factor, in every notation Python prints
        if nm in ("threshold", "gamma", "stddev", "multiple", "coef", "beta", "lambda", "v", "exponent", "power", "alpha") and rng.random() < 0.15: o[k] = rng.choice([1e16, 1e-05, 2.5e20, 1e-300, 3e300, 123456789.25, 1e5, 0.1 + 0.2])
    if rng.random() < 0.12 and o: o[rng.randrange(len(o))] = rng.choice([0, -1, -7, 0.5, -0.25])
    return o
def gen_data(names, n):
    base = []; v = rng.uniform(20, 200)
    for i in range(n): v = max(5.0, v + rng.uniform(-2, 2)); base.append(v)
    out = []
    for k, nm in enumerate(names):
        if nm == "volume": x = [float(rng.randint(0, 5000)) for _ in range(n)]
        elif nm == "high": x = [b + rng.uniform(0, 2) + 1 for b in base]
        elif nm == "low": x = [b - rng.uniform(0, 2) - 1 for b in base]
        elif nm == "open": x = [b + rng.uniform(-1, 1) for b in base]
        elif nm == "close": x = list(base)
        else: x = list(base) if k == 0 else [b + rng.uniform(-3, 3) for b in base]
        out.append(x)
    return out
class Series:
    """As much of a pandas Series as matters: iterates over values, is indexed by label, turns into an array."""
    def __init__(self, v, labels): self.v = list(v); self.labels = list(labels)
    def __len__(self): return len(self.v)
    def __iter__(self): return iter(self.v)
    def __array__(self, dtype=None, copy=None): return np.array(self.v, dtype=dtype or np.float64)
    def __getitem__(self, k):
        if isinstance(k, slice): return Series(self.v[k], self.labels[k])
        return self.v[self.labels.index(k)]
FORMS = ["ints", "int64", "int32", "floats32", "longdouble", "bigendian", "masked", "list", "tuple", "array", "strided", "reversed", "readonly", "float32", "series", "noncontig2d", "fortran"]
def dress(form, x):
    a = np.array(x, dtype=np.float64)
    if form == "list": return x, x
    if form == "tuple": return tuple(x), x
    if form == "array": return a, x
    if form == "strided": b = np.empty(2 * len(x)); b[:] = -999; b[::2] = a; return b[::2], x
    if form == "reversed": return a[::-1].copy()[::-1], x
    if form == "readonly": a.flags.writeable = False; return a, x
    if form == "float32": f = a.astype(np.float32); return f, [float(z) for z in f]
    if form == "series":
        labels = list(range(len(x))) if rng.random() < 0.3 else list(range(len(x), 0, -1)) if rng.random() < 0.5 else ["d%d" % k for k in range(len(x))]
        return (pd.Series(x, index=labels, dtype=float) if pd else Series(x, labels)), x
    if form in ("ints", "int64", "int32"):
        w = [int(z) for z in x]
        return (w if form == "ints" else np.array(w, dtype=form)), [float(z) for z in w]
    if form == "floats32": f = a.astype(np.float32); return list(f), [float(z) for z in f]
    if form == "longdouble": return a.astype(np.longdouble), x
    if form == "bigendian": return a.astype(">f8"), x
    if form == "masked": return np.ma.array(a), x
    if form == "noncontig2d": b = np.zeros((len(x), 3)); b[:, 1] = a; return b[:, 1], x
    b = np.asfortranarray(np.zeros((2, len(x)))); b[1, :] = a; return b[1, :], x

def rows(result, nout, n):
    if nout == 1: return [result]
    return list(result)

sigs = set()
objects = {}  # indicator objects in use for the whole run
kept = []     # results handed out earlier, with a copy of what they were
def recheck():
    for what, res, copy in kept:
        ctr["errors_checked"] += 1
        if not same(res, copy): viol("kept", "the result of %s changed during later calls" % what)
def one(name, ins_n, opts_n, outs_n, lib_ti):
    start0 = 1
    opts = gen_options(opts_n); n = rng.choice([0, 1, 2, 3, 5]) if rng.random() < 0.25 else rng.randint(1, 120)
    data = gen_data(ins_n, n); form = rng.choice(FORMS); ctr["cases"] += 1
    dressed, plain = zip(*[dress(form, x) for x in data])
    snap = [np.array(d, dtype=np.float64, copy=True) for d in dressed]
    if rng.random() < 0.5: call = getattr(lib_ti, name)
    else: call = objects.setdefault(name, getattr(lib_ti, name))
    ctr["calls"] += 1
    if form not in ("ints", "int64", "int32") and rng.random() < 0.05 and n: # gaps in the data are passed on like any number
        for x in plain: x[rng.randrange(n)] = math.nan
        dressed, plain = zip(*[dress(form, x) for x in plain]); snap = [np.array(d, dtype=np.float64, copy=True) for d in dressed]
    if rng.random() < 0.2: opts = [np.float64(v) if rng.random() < 0.7 or v != round(v) or abs(v) > 1e9 else np.int64(v) for v in opts] # as they come out of an array
    pad = rng.random() < 0.7; how = rng.randrange(4); kw = {}; args = list(dressed) + list(opts)
    uniq = len(set(ins_n)) == len(ins_n)
    if how == 1 and opts_n: kw = dict(zip(map(clean, opts_n), opts)); args = list(dressed)
    elif how == 2 and uniq: kw = dict(zip(map(clean, ins_n), dressed)); kw.update(zip(map(clean, opts_n), opts)); args = []
    elif how == 3 and opts_n: cut = rng.randrange(len(opts_n) + 1); args = list(dressed) + opts[:cut]; kw = dict(zip(map(clean, opts_n[cut:]), opts[cut:]))
    if not pad or rng.random() < 0.3: kw["pad"] = pad
    if rng.random() < 0.5: order = list(kw); rng.shuffle(order); kw = {k: kw[k] for k in order} # names, not their order, decide
    code, start, want = raw(name, plain, opts, len(outs_n))
    what = "%s(%s) on %d bars given as %s, %s" % (name, ", ".join(map(str, opts)), n, form, "padded" if pad else "unpadded")
    if ctr["cases"] % 997 == 3: emit(dict(t="sample", what=what))
    try: got = call(*args, **kw)
    except InvalidOption as e:
        ctr["rejected"] += 1
        if code != 1: viol(name + ":exception", "%s raised InvalidOption, the library returns %d" % (what, code))
        elif name not in str(e): viol("message", "the InvalidOption for %s does not name it: %s" % (what, e))
        return
    except OutOfMemory:
        if code != 2: viol(name + ":exception", "%s raised OutOfMemory, the library returns %d" % (what, code))
        return
    except Exception as e:
        viol(name + ":raises:" + type(e).__name__, "%s raised %s" % (what, "".join(traceback.format_exception_only(type(e), e)).strip())); return
    if code: viol(name + ":noexception", "%s returned normally, the library returns code %d" % (what, code)); return
    for d, s in zip(dressed, snap):
        if not same(np.array(d, dtype=np.float64), s): viol("inputs", what + " changed its inputs")
    if len(outs_n) > 1:
        if not hasattr(got, "_fields"): viol(name + ":shape", what + ": several outputs do not come as a named tuple"); return
        if tuple(got._fields) != tuple(map(clean, outs_n)): viol(name + ":fields", "%s: fields %s, outputs %s" % (what, got._fields, outs_n)); return
        outs = [getattr(got, clean(o)) for o in outs_n]
        if any(a is not b for a, b in zip(outs, got)): viol(name + ":fields", what + ": fields and positions differ")
    else: outs = [got]
    for k, o in enumerate(outs):
        o = np.asarray(o); lead = min(n, start)
        if o.ndim != 1 or o.dtype != np.float64: viol(name + ":dtype", "%s: output %d is %s %s" % (what, k, o.dtype, o.shape)); return
        exp = [math.nan] * (lead if pad else 0) + want[k]
        if len(o) != len(exp): viol(name + ":length", "%s: output %d has %d values, expected %d" % (what, k, len(o), len(exp))); return
        if not same(o, exp):
            j = int(np.argmax(~((bits(o) == bits(exp)) | (np.isnan(o) & np.isnan(np.array(exp)))))); viol(name + ":value", "%s: output %d value %d is %r, the library gives %r" % (what, k, j, float(o[j]), exp[j])); return
        ctr["bars_compared"] += len(want[k])
    if rng.random() < 0.15: # the same object again with other bars of the same number: the first answer stays what it was
        was = [np.array(o, copy=True) for o in outs]; other = [[v * 1.5 + 3 for v in x] for x in plain]
        again = rows(call(*other, *opts, pad=pad), len(outs_n), n); _, _, w2 = raw(name, other, opts, len(outs_n)); ctr["calls"] += 1
        for k, o in enumerate(outs):
            if not same(o, was[k]): viol("kept", "the result of %s changed during the next call of the same object" % what)
            if not same(again[k], [math.nan] * (min(n, start) if pad else 0) + w2[k]): viol(name + ":value", "%s: a second call of the same object answers wrongly" % what)
    if rng.random() < 0.3: kept.extend((what, o, np.array(o, copy=True)) for o in outs)
    if len(kept) > 60: recheck(); del kept[:]
    if rng.random() < 0.1: # what the caller does to a result stays in the result
        for o in outs:
            if o.flags.writeable and not any(o is k[1] for k in kept): o[:] = -777.25
    if len(want[0]):
        sig = (name, tuple(opts), n, form, pad, how)
        if sig not in sigs: sigs.add(sig); ctr["distinct"] += 1

def main():
    names = [e[0] for e in entries]
    if list(ti.available_indicators) != sorted(names): viol("available", "available_indicators differs from the catalogue")
    if str(len(names)) not in repr(ti): viol("repr", "repr(ti) does not give the number of indicators")
    C.ti_version.restype = ctypes.c_char_p
    if ti.version != C.ti_version().decode(): viol("version", "ti.version is %s" % ti.version)
    for name, (full, typ, ins, opts, outs, feats, src) in entries:
        i = getattr(ti, name).info
        if (i.name, i.full_name, i.type) != (name, full, typ): viol(name + ":info", "info says %s" % ((i.name, i.full_name, i.type),))
        if tuple(i.inputs) != tuple(map(clean, ins)) or tuple(i.options) != tuple(map(clean, opts)) or tuple(i.outputs) != tuple(map(clean, outs)): viol(name + ":info", "info lists %s %s %s" % (i.inputs, i.options, i.outputs))
        text = repr(getattr(ti, name))
        if name not in text or full not in text or any(clean(x) not in text for x in ins + opts + outs): viol(name + ":repr", "repr is " + text)
    for bad in ["nope", "", "smaa", "sm", "SMA", "ti_sma", "zzz", "a" * 400]:
        ctr["errors_checked"] += 1
        try: getattr(ti, bad); viol("nosuch", "ti.%s did not raise" % bad[:20])
        except NoSuchIndicator: pass
        except Exception as e: viol("nosuch", "ti.%s raised %r" % (bad[:20], e))
    # documented examples
    doc = [(lambda: ti.sma(np.arange(10), 3), [math.nan, math.nan, 1, 2, 3, 4, 5, 6, 7, 8]), (lambda: ti.ema([1, 2, 3, 4, 5], 4), [1, 1.4, 2.04, 2.824, 3.6944])]
    pb = lambda: ti.pbands([207.75, 204.94, 204.15, 203.38, 201.37, 199.85], [203.90, 202.34, 202.52, 198.61, 198.56, 198.01], [207.48, 204.53, 203.86, 203.13, 199.25, 199.23], 3)
    doc += [(lambda: pb().pbands_lower, [math.nan, math.nan, 200.28, 198.61, 196.305, 194.71]), (lambda: pb().pbands_upper, [math.nan, math.nan, 204.15, 203.54, 201.37, 199.85])]
    for k, (f, w) in enumerate(doc):
        ctr["errors_checked"] += 1
        try: g = f(); ok = len(g) == len(w) and np.allclose(g, w, rtol=0, atol=1e-9, equal_nan=True)
        except Exception as e: g = repr(e); ok = False
        if not ok: viol("documented", "documented example %d gives %s" % (k, g))
    for c in range(cases):
        for name, (full, typ, ins, opts, outs, feats, src) in entries: one(name, ins, opts, outs, ti)
    for c in range(cases): # inputs of unequal length, missing arguments
        name, (full, typ, ins, opts, outs, feats, src) = rng.choice(entries); n = rng.randint(2, 40); data = gen_data(ins, n); ctr["errors_checked"] += 1
        if len(ins) > 1:
            k = rng.randrange(len(ins)); data[k] = data[k][:rng.randint(0, n - 1)]
            try: getattr(ti, name)(*data, *gen_options(opts)); viol("unequal", "%s accepted inputs of different lengths" % name)
            except (ValueError, InvalidOption): pass
            except Exception as e: viol("unequal", "%s raised %r for inputs of different lengths" % (name, e))
        if opts:
            try: getattr(ti, name)(*gen_data(ins, n), *gen_options(opts)[:-1]); viol("missing", "%s accepted a call without its last option" % name)
            except InvalidOption: viol("missing", "%s took a missing option for an invalid one" % name)
            except Exception: pass
    recheck()
    # several threads, one library
    bad = []; sma = ti.sma
    def worker(k):
        r = random.Random(k)
        for _ in range(20):
            n = r.randint(1, 60); x = [r.uniform(1, 100) for _ in range(n)]; p = r.randint(1, 9); g = sma(x, p) if r.random() < 0.5 else ti.sma(x, p); _, s, w = raw("sma", [x], [p], 1)
            if not same(g, [math.nan] * min(n, s) + w[0]): bad.append((n, p))
    th = [threading.Thread(target=worker, args=(k,)) for k in range(4)]; [t.start() for t in th]; [t.join() for t in th]
    if bad: viol("threads", "sma from several threads answers differently: %s" % bad[:3])
    if stub != "-":
        st = Indicators(stub)
        for code in (0, 1, 2):
            for name in st.available_indicators:
                i = getattr(st, name).info; n = rng.randint(0, 12); lag = rng.randint(0, 6); ctr["errors_checked"] += 1; ctr["cases"] += 1
                data = [[rng.uniform(-9, 9) for _ in range(n)] for _ in i.inputs]; o = [float(code), float(lag)] + [rng.choice([1.5, -2, 7]) for _ in i.options[2:]]
                if len(i.options) < 2: continue
                try: g = getattr(st, name)(*data, *o); got = 0
                except InvalidOption: got = 1
                except OutOfMemory: got = 2
                except Exception as e: got = repr(e)
                if got != code: viol("codes", "a library returning %d for %s makes the binding answer %s" % (code, name, got)); continue
                if code == 0:
                    outs = [g] if len(i.outputs) == 1 else list(g)
                    for k, v in enumerate(outs): # stub output k, value j: 1000 k + sum of inputs at j + lag, options folded in
                        exp = [math.nan] * min(lag, n) + [1000 * k + sum((s + 1) * data[s][j + lag] for s in range(len(data))) + sum((q + 1) * o[q] for q in range(len(o))) for j in range(n - lag)]
                        if len(v) != len(exp) or not np.allclose(v, exp, rtol=1e-12, atol=1e-9, equal_nan=True): viol("marshal", "%s: output %d is %s, expected %s" % (name, k, list(v)[:8], exp[:8]))
                        else: ctr["bars_compared"] += max(0, n - lag)
    emit(dict(t="stat", **ctr))
main()
