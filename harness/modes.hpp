// One mode per oracle.  A mode builds a case, runs the library on it and reports violations; it returns a hash that
// identifies what was explored (0: nothing worth counting).
#pragma once
struct Mode { std::function<bool(const ti_indicator_info*)> applies; std::function<uint64_t(Rng&, Case&)> run; bool stderr_is_report = false; };
static bool any(const ti_indicator_info*) { return true; }
static bool has_stream(const ti_indicator_info* ii) { return ii->stream_new != 0; }
static bool has_ref(const ti_indicator_info* ii) { return ii->indicator_ref != 0; }
static uint64_t case_hash(const Case& c) {
    if (!nontrivial(c)) return 0;
    bump(K_NONTRIV);
    uint64_t h = 0x1234; auto add = [&](double d) { uint64_t u; memcpy(&u, &d, 8); h = Rng::mix(h ^ u); };
    for (double d : c.o) add(d);
    add(c.n); for (auto& s : c.in) for (double d : s) add(d);
    return h ? h : 1;
}
static void child_init() {
#ifdef VAR_FI
    fi::reset();
#endif
}
static void child_done() {}
static bool make(Rng& r, Case& c, int typical = 160, double longer = 0) {
    long_share = longer; huge_periods = longer / 2; struct Off { ~Off() { long_share = huge_periods = 0; } } off;
    if (gen_case(r, c.ii, model_of(c.ii), c, typical)) return true;
    bump(K_INFEASIBLE); return false;
}
// ---- C02: output contract
static void contract_run(const Case& c, const Run& r, const char* what) {
    if (r.rc == RC_THREW) violate(c, fmt("%s:exception", what), fmt("%s let an exception escape", what));
    else if (r.rc != TI_OKAY) violate(c, fmt("%s:rc", what), fmt("%s returned %d for valid options", what, r.rc));
    if (!r.guards) violate(c, fmt("%s:outside", what), fmt("%s wrote outside the %d values due per output", what, r.cnt));
    if (r.rc == TI_OKAY && r.unwritten) violate(c, fmt("%s:unwritten", what), fmt("%s left %d of %d values unwritten", what, r.unwritten, r.cnt * c.ii->outputs));
    if (r.inputs_changed) violate(c, fmt("%s:inputs", what), fmt("%s modified its inputs", what));
    if (r.options_changed) violate(c, fmt("%s:options", what), fmt("%s modified its options", what));
}
struct GiantPeriods { GiantPeriods(double p) { giant_periods = p; } ~GiantPeriods() { giant_periods = 0; } };
struct OddReals { OddReals(double p) { odd_reals = p; } ~OddReals() { odd_reals = 0; } };
static uint64_t mode_contract(Rng& r, Case& c) {
    OddReals odd(0.08); GiantPeriods giant(r.chance(0.002) ? 0.8 : 0);
    if (!make(r, c, 120, 0.002)) return 0;
    int st = c.ii->start(c.o.data()), want = model_of(c.ii).start(c.o.data());
    if (st < 0) violate(c, "start:negative", fmt("start is %d", st));
    if (st != want) violate(c, "start:value", fmt("start is %d, the definition's first output is at bar %d", st, want));
    contract_run(c, run_plain(c), "plain");
    if (has_ref(c.ii)) contract_run(c, run_ref(c), "ref");
    if (has_stream(c.ii)) { StreamLog l; Run q = run_stream(c, gen_chunks(r, c.n, st), r.chance(0.5), &l); contract_run(c, q, "stream"); }
    return case_hash(c);
}
// ---- C03: option validation
static double hostile_option(Rng& r) {
    static const double odd[] = {NAN, INFINITY, -INFINITY, 1e300, -1e300, 1e10, -1e10, 2147483648.0, -2147483649.0, 4294967297.0, 4294967298.0, 5e-324, -0.0};
#ifdef VAR_INTOPT
    if (r.chance(0.06)) return r.chance(0.5) ? -0.0 : 5e-324;
#endif
    if (r.chance(0.06)) return odd[r.below(sizeof odd / sizeof *odd)]; // not a number of anything
    if (r.chance(0.01)) { static const double far[] = {1000, 10000, 46340, 46341, 65535, 65536, 100000, 1000000, 10000000}; return far[r.below(9)]; }
    static const double v[] = {-1000, -20, -6, -2, -1, -0.5, 0, 0, 0.25, 0.7, 0.999, 1, 1, 1.5, 2, 2, 2.5, 3, 4, 5, 5.5, 6, 7, 8, 12, 13, 14, 39.5, 40, 41, 42, 60};
    return v[r.below(sizeof v / sizeof *v)];
}
static void gen_hostile(Rng& r, Case& c, bool whole) { // whole: periods are whole numbers, as everywhere in the documentation
    if (!gen_valid_options(r, c.ii, model_of(c.ii), c.o)) c.o.assign(std::max(1, c.ii->options), 1);
    int how = r.below(4);
    for (int k = 0; k < c.ii->options; ++k) if (how == 0 || r.chance(how == 1 ? 0.5 : 0.25)) c.o[k] = hostile_option(r);
    if (how == 3 && c.ii->options) c.o[r.below(c.ii->options)] = hostile_option(r);
    bool fl = r.chance(0.4); auto t = tokens_of(c.ii);
    for (int k = 0; k < c.ii->options; ++k) { if (fl || (whole && t[k][0] != 'r')) c.o[k] = std::floor(c.o[k]); if (t[k][0] == 'r' && c.o[k] >= 1000 && c.o[k] <= 1e7) c.o[k] = 100; }
}
static uint64_t mode_options(Rng& r, Case& c) {
    gen_hostile(r, c, true); const spec::Model& m = model_of(c.ii);
    c.n = r.chance(0.5) ? r.below(6) : r.range(6, 90); gen_inputs(r, c);
    // An output buffer as large as the input is always enough; a rejected call must leave it alone.
    phase("plain"); Args a(c, 0, c.n); vector<Arr> outs; vector<double*> op;
    for (int k = 0; k < c.ii->outputs; ++k) outs.emplace_back(c.n + 8);
    for (auto& o : outs) op.push_back(o.p);
    op.push_back(nullptr); bump(K_CALLS);
    int rc = guarded([&] { return c.ii->indicator(c.n, a.ip.data(), a.opt.p, op.data()); }); phase("-");
    bump(rc == TI_OKAY ? K_ACCEPT : K_REJECT);
    if (rc != TI_OKAY && rc != TI_INVALID_OPTION) violate(c, "plain:code", fmt("plain returned %d", rc));
    if (rc != TI_OKAY) { bool touched = a.in_changed(0) || a.opt_changed(); for (auto& o : outs) { if (!o.guards_ok()) touched = true; for (int j = 0; j < o.n; ++j) if (!is_sent(o.p[j])) touched = true; } if (touched) violate(c, "plain:sideeffect", "a rejected call wrote to the caller's arrays"); }
    bool want = m.valid(c.o.data());
    if ((rc == TI_OKAY) != want) violate(c, rc == TI_OKAY ? "plain:accepts" : "plain:rejects", fmt("plain %s options that are %s", rc == TI_OKAY ? "accepts" : "rejects", want ? "valid" : "invalid"));
    if (has_stream(c.ii)) {
        phase("stream_new"); ti_stream* const mark = (ti_stream*)0x10; ti_stream* st = mark; Args oa(c, 0, 0); bump(K_CALLS);
        int sc = guarded([&] { return c.ii->stream_new(oa.opt.p, &st); }); phase("-");
        bump(sc == TI_OKAY ? K_ACCEPT : K_REJECT);
        if (sc != TI_OKAY && sc != TI_INVALID_OPTION) violate(c, "stream:code", fmt("stream_new returned %d", sc));
        if ((sc == TI_OKAY) != (rc == TI_OKAY)) violate(c, sc == TI_OKAY ? "stream:accepts" : "stream:rejects", fmt("stream_new returns %d, plain returns %d", sc, rc));
        if (oa.opt_changed()) violate(c, "stream:sideeffect", "stream_new wrote to the options");
        if (sc == TI_OKAY) { if (st == mark || !st) violate(c, "stream:nostream", "TI_OKAY without a stream"); else { phase("stream_free"); guarded([&] { c.ii->stream_free(st); return 0; }); phase("-"); } }
    }
    uint64_t h = 7; for (double d : c.o) { uint64_t u; memcpy(&u, &d, 8); h = Rng::mix(h ^ u); }
    if (rc != TI_OKAY) bump(K_NONTRIV);
    return h | 1;
}
// ---- C04: streaming equals batch, however the bars are cut
static uint64_t mode_stream(Rng& r, Case& c) {
    if (!make(r, c, 160, 0.002)) return 0;
    Expect x = expect(c, model_of(c.ii)); Run p = run_plain(c); if (p.rc != TI_OKAY) { violate(c, "plain:rc", fmt("plain returned %d", p.rc)); return 0; }
    int st = c.ii->start(c.o.data());
    for (int k = 0; k < 4; ++k) {
        vector<int> ch = k == 0 ? whole(c.n) : k == 1 ? ones(c.n) : gen_chunks(r, c.n, st);
        StreamLog l; Run q = run_stream(c, ch, k & 1, &l);
        string cs; for (size_t i = 0; i < ch.size() && i < 12; ++i) cs += fmt("%d ", ch[i]);
        if (q.rc != TI_OKAY) { violate(c, "stream:rc", fmt("stream returned %d", q.rc)); break; }
        if (q.unwritten || !q.guards) { violate(c, "stream:count", l.why + " (chunks " + cs + "...)"); break; }
        if (!same(c, x, p, q, "stream:value", "batch", fmt("stream in chunks %s...", cs.c_str()).c_str(), 1)) break;
    }
    return case_hash(c);
}
// ---- C05: stream progress, identity, dispatch
static uint64_t mode_progress(Rng& r, Case& c) {
    OddReals odd(0.05); GiantPeriods giant(r.chance(0.004) ? 0.8 : 0);
    if (!make(r, c, 60, 0.002)) return 0;
    int st = c.ii->start(c.o.data());
    for (int k = 0; k < 3; ++k) {
        StreamLog l; Run q = run_stream(c, gen_chunks(r, c.n, st), k & 1, &l);
        if (q.rc != TI_OKAY) violate(c, "rc", fmt("stream returned %d", q.rc));
        else if (!l.why.empty()) violate(c, "log", l.why);
    }
    // generic dispatch and the indicator's own function are the same operation
    auto ch = gen_chunks(r, c.n, st); Run a = run_stream(c, ch, false, nullptr), b = run_stream(c, ch, true, nullptr);
    for (int k = 0; k < c.ii->outputs && k < (int)b.v.size(); ++k) if (a.v[k].size() != b.v[k].size() || (a.v[k].size() && memcmp(a.v[k].data(), b.v[k].data(), a.v[k].size() * 8))) { violate(c, "dispatch", "ti_stream_run and the indicator's own run function give different outputs"); break; }
    return case_hash(c);
}
// ---- C06: optimised and reference implementations agree
static uint64_t mode_ref(Rng& r, Case& c) {
    if (!make(r, c, 160, 0.001)) return 0;
    Expect x = expect(c, model_of(c.ii)); Run p = run_plain(c), q = run_ref(c);
    if (p.rc != q.rc) violate(c, "rc", fmt("plain returned %d, reference %d", p.rc, q.rc));
    if (p.rc == TI_OKAY && q.rc == TI_OKAY) {
        if (q.unwritten != p.unwritten) violate(c, "count", fmt("reference left %d values unwritten, plain %d", q.unwritten, p.unwritten));
        else same(c, x, q, p, "value", "reference", "optimised");
        if (has_stream(c.ii)) { Run s = run_stream(c, gen_chunks(r, c.n, x.start), false, nullptr); if (s.rc == TI_OKAY) same(c, x, q, s, "streamvalue", "reference", "stream"); }
    }
    return case_hash(c);
}
// ---- C07..C10: values
static uint64_t values_case(Rng& r, Case& c, int typical) {
    if (!make(r, c, typical, 0.001)) return 0;
    Expect x = expect(c, model_of(c.ii)); Run p = run_plain(c);
    if (p.rc != TI_OKAY) { violate(c, "plain:rc", fmt("plain returned %d", p.rc)); return 0; }
    long cmp = judge(c, x, p, "plain");
    if (has_stream(c.ii)) { Run s = run_stream(c, gen_chunks(r, c.n, x.start), false, nullptr); if (s.rc == TI_OKAY) judge(c, x, s, "stream"); }
    if (!cmp) return 0;
    return case_hash(c);
}
static uint64_t mode_values(Rng& r, Case& c) { return values_case(r, c, 160); }
static uint64_t mode_long(Rng& r, Case& c) {
    const spec::Model& m = model_of(c.ii); bool slow = !strcmp(c.ii->name, "hurst") || !strcmp(c.ii->name, "edcf"); double u = r.unit();
    huge_periods = !slow && u > 0.96 ? 0.6 : 0; bool ok = gen_valid_options(r, c.ii, m, c.o); huge_periods = 0;
    if (!ok) { bump(K_INFEASIBLE); return 0; }
    int cap = slow ? 1500 : tier_thorough ? 12000 : 4000; c.n = r.range(cap / 2, cap);
    if (u > 0.96) c.n = std::max(0, m.start(c.o.data())) + r.range(1, 1500); // windows far longer than usual
    else if (!slow && u < (tier_thorough ? 0.04 : 0.03)) c.n = r.range(65600, 70000); // past every power of two a counter might wrap at
    else if (!slow && u < 0.12) c.n = r.range(8200, 20000);
    gen_inputs(r, c);
    Expect x = expect(c, m); Run p = run_plain(c); if (p.rc != TI_OKAY) { violate(c, "plain:rc", fmt("plain returned %d", p.rc)); return 0; }
    long cmp = judge(c, x, p, "plain");
    if (has_stream(c.ii)) { vector<int> ch; int left = c.n; while (left) { int k = std::min(left, r.chance(0.1) ? r.range(1, 900) : r.range(1, 9)); ch.push_back(k); left -= k; } Run s = run_stream(c, ch, true, nullptr); if (s.rc == TI_OKAY) judge(c, x, s, "stream"); else violate(c, "stream:rc", fmt("stream returned %d", s.rc)); }
    if (!cmp) return 0;
    return case_hash(c);
}
// ---- C11: outputs depend only on the past
static uint64_t mode_causal(Rng& r, Case& c) {
    if (!make(r, c, 120, 0.001)) return 0;
    const spec::Model& m = model_of(c.ii); Expect x = expect(c, m); Run p = run_plain(c); if (p.rc != TI_OKAY) return 0;
    int lo = std::max(0, x.start);
    for (int k = 0; k < 6; ++k) {
        int n = k == 0 ? c.n - 1 : lo + r.below(std::max(1, c.n - lo)) + 1; if (n < 0 || n > c.n) continue;
        bump(K_PREFIX);
        if (k % 2 == 0) { Run q = run_plain(c, n); if (q.rc == TI_OKAY) { if (!same(c, x, p, q, "prefix", "the longer history", fmt("the first %d bars alone", n).c_str(), 2)) break; } }
        else { // same past, different future
            Case d = c; Case e; e.ii = c.ii; e.n = c.n; gen_inputs(r, e);
            for (size_t s = 0; s < d.in.size(); ++s) for (int i = n; i < c.n; ++i) d.in[s][i] = e.in[s][i];
            Run q = run_plain(d); for (auto& v : q.v) if ((int)v.size() > std::max(0, n - lo)) v.resize(std::max(0, n - lo));
            if (q.rc == TI_OKAY && !same(c, x, p, q, "future", "one future", fmt("another future from bar %d", n).c_str(), 2)) break;
        }
    }
    return case_hash(c);
}
// ---- C14: ranges and orderings
struct Bound { const char* name; int out; double lo, hi; };
static const Bound bounds[] = {
    {"rsi", 0, 0, 100}, {"stochrsi", 0, 0, 1}, {"mfi", 0, 0, 100}, {"stoch", 0, 0, 100}, {"stoch", 1, 0, 100}, {"willr", 0, -100, 0}, {"cmo", 0, -100, 100},
    {"aroon", 0, 0, 100}, {"aroon", 1, 0, 100}, {"aroonosc", 0, -100, 100}, {"adx", 0, 0, 100}, {"adxr", 0, 0, 100}, {"dx", 0, 0, 100}, {"dm", 0, 0, INFINITY}, {"dm", 1, 0, INFINITY},
    {"di", 0, 0, INFINITY}, {"di", 1, 0, INFINITY}, {"var", 0, 0, INFINITY}, {"stddev", 0, 0, INFINITY}, {"stderr", 0, 0, INFINITY}, {"md", 0, 0, INFINITY}, {"volatility", 0, 0, INFINITY},
    {"emsd", 0, 0, INFINITY}, {"atr", 0, 0, INFINITY}, {"natr", 0, 0, INFINITY}, {"tr", 0, 0, INFINITY}, {"bop", 0, -1, 1}, {"cmf", 0, -1, 1}, {"er", 0, 0, 1}, {"vhf", 0, 0, INFINITY},
    {"ultosc", 0, 0, 100}, {"msw", 0, -1, 1}, {"msw", 1, -1, 1}, {"crossany", 0, 0, 1}, {"crossover", 0, 0, 1}, {"tsi", 0, -100, 100}, {"rmi", 0, 0, 100}, {"rvi", 0, 0, 100}, {"smi", 0, -100, 100},
    {"arsi", 0, 0, 100}, {"vi", 0, 0, INFINITY}, {"vi", 1, 0, INFINITY}, {"mass", 0, 0, INFINITY}, {"hd", 0, 0, 50}, {"acos", 0, 0, 3.1415926535897936}, {"asin", 0, -1.5707963267948970, 1.5707963267948970},
    {"sin", 0, -1, 1}, {"cos", 0, -1, 1}, {"tanh", 0, -1, 1}, {"abs", 0, 0, INFINITY}, {"sqrt", 0, 0, INFINITY}, {"exp", 0, 0, INFINITY}, {"cosh", 0, 1, INFINITY}, {"atan", 0, -1.5707963267948970, 1.5707963267948970},
};
// Averages with non-negative weights summing to one lie between the smallest and the largest bar of the history they have seen.
static const char* const averages[] = {"sma", "ema", "wma", "wilders", "trima", "vwma", "kama", "max", "min", "pwma", "idwma", "vwap", "medprice", "typprice", "wcprice", "avgprice", "lag", "edcf", "hfsma", "hfema", "hf", "frama"};
static bool has_range(const ti_indicator_info* ii) {
    string n = ii->name; for (auto& b : bounds) if (n == b.name) return true;
    for (auto a : averages) if (n == a) return true;
    for (auto a : {"bbands", "abands", "kc", "pc", "pbands", "ichi", "aroonosc", "macd", "decay", "edecay", "psar"}) if (n == a) return true;
    return false;
}
static void range_run(const Case& c, const Expect& x, const Run& q, const char* what) {
    string n = c.ii->name; int st = std::max(0, x.start);
    auto usable = [&](int k, int i) { return i < (int)x.fin[k].size() && x.fin[k][i]; };
    auto slack = [&](int k, int i) { double t = x.tol[k][i]; return t >= 0 && std::isfinite(t) ? t : 1e-3 * x.scale[k] + 1e-9; };
    for (auto& b : bounds) if (n == b.name) for (size_t j = 0; j < q.v[b.out].size(); ++j) {
        int i = j + st; double v = q.v[b.out][j]; if (!usable(b.out, i)) { bump(K_SKIP_NONFIN); continue; }
        double eps = slack(b.out, i) + (std::isfinite(b.hi) ? 1e-9 * std::fabs(b.hi) : 0); bump(K_BOUNDS);
        // a quantity that is a square root or a sum of squares may be zero, never negative
        if (!(v >= b.lo - (b.hi == INFINITY && n != "vi" ? 0 : eps)) && !(b.hi == INFINITY && v >= b.lo - 1e-12 * x.scale[b.out] - 1e-300)) { violate(c, fmt("%s:range", what), fmt("%s %s at bar %d is %.17g, below %g", what, c.ii->output_names[b.out], i, v, b.lo)); return; }
        if (!(v <= b.hi + eps)) { violate(c, fmt("%s:range", what), fmt("%s %s at bar %d is %.17g, above %g", what, c.ii->output_names[b.out], i, v, b.hi)); return; }
    }
    bool avg = false; for (auto a : averages) if (n == a) avg = true;
    if (avg) {
        double lo = INFINITY, hi = -INFINITY; size_t nin = c.in.size(); if (n == "vwma" || n == "vwap" || n == "evwma") nin--;
        for (int i = 0; i < c.n; ++i) {
            for (size_t s = 0; s < nin; ++s) { lo = std::min(lo, c.in[s][i]); hi = std::max(hi, c.in[s][i]); }
            if (i < st) continue;
            double v = q.v[0][i - st]; if (!usable(0, i)) { bump(K_SKIP_NONFIN); continue; }
            if (v == 0) { bump(K_SKIP_NONFIN); continue; } // the documented answer when no bar carries any weight
            double eps = slack(0, i) + 1e-9 * std::max(std::fabs(lo), std::fabs(hi)); bump(K_BOUNDS);
            if (!(v >= lo - eps && v <= hi + eps)) { violate(c, fmt("%s:average", what), fmt("%s %s at bar %d is %.17g, outside the data seen so far [%g, %g]", what, c.ii->output_names[0], i, v, lo, hi)); return; }
        }
    }
    auto ordered = [&](int a, int b) { // output a <= output b, bar by bar
        for (size_t j = 0; j < q.v[a].size(); ++j) { int i = j + st; if (!usable(a, i) || !usable(b, i)) { bump(K_SKIP_NONFIN); continue; } double eps = slack(a, i) + slack(b, i); bump(K_BOUNDS);
            if (!(q.v[a][j] <= q.v[b][j] + eps)) { violate(c, fmt("%s:order", what), fmt("%s at bar %d: %s %.17g exceeds %s %.17g", what, i, c.ii->output_names[a], q.v[a][j], c.ii->output_names[b], q.v[b][j])); return; } }
    };
    if (n == "bbands") { ordered(0, 1); ordered(1, 2); }
    if (n == "abands") { ordered(0, 2); ordered(2, 1); }
    if (n == "kc") { ordered(0, 1); ordered(1, 2); }
    if (n == "pc" || n == "pbands") ordered(0, 1);
    if (n == "macd") for (size_t j = 0; j < q.v[0].size(); ++j) { double d = q.v[0][j] - q.v[1][j] - q.v[2][j]; bump(K_BOUNDS); if (std::isfinite(d) && std::fabs(d) > 1e-9 * (x.scale[0] + x.scale[1] + x.scale[2]) + 1e-12) { violate(c, "identity", fmt("macd - signal - histogram = %g at value %zu", d, j)); break; } }
    if (n == "decay" || n == "edecay") for (int i = 0; i < c.n; ++i) { bump(K_BOUNDS); if (!(q.v[0][i] >= c.in[0][i])) { violate(c, "envelope", fmt("output %g below the input %g at bar %d", q.v[0][i], c.in[0][i], i)); break; } }
    if (n == "pc") for (int i = st; i < c.n; ++i) { bump(K_BOUNDS); if (!(q.v[0][i - st] <= c.in[1][i] && q.v[1][i - st] >= c.in[0][i])) { violate(c, "channel", fmt("bar %d pierces its own channel", i)); break; } }
}
static uint64_t mode_range(Rng& r, Case& c) {
    if (!make(r, c, 220)) return 0;
    Expect x = expect(c, model_of(c.ii)); Run p = run_plain(c); if (p.rc != TI_OKAY) return 0;
    range_run(c, x, p, "plain");
    if (has_stream(c.ii)) { Run s = run_stream(c, gen_chunks(r, c.n, x.start), false, nullptr); if (s.rc == TI_OKAY) range_run(c, x, s, "stream"); }
    return case_hash(c);
}
// ---- C01: memory safety and undefined behaviour (sanitizer build decides; the mode only supplies the workload)
static uint64_t mode_safety(Rng& r, Case& c) {
    OddReals odd(0.05);
    const spec::Model& m = model_of(c.ii);
    bool hostile = r.chance(0.4); huge_periods = r.chance(0.03) ? 0.5 : 0; struct Off { ~Off() { huge_periods = 0; } } off;
    if (hostile) gen_hostile(r, c, true); else if (!gen_valid_options(r, c.ii, m, c.o)) { bump(K_INFEASIBLE); return 0; }
#ifdef VAR_INTOPT
    for (double& o : c.o) if (!(std::fabs(o) < 1073741824.0)) o = r.range(-40, 400); // a conversion of the option itself is not what this build looks for
#endif
    c.n = 0; Run probe; { phase("plain-probe"); // is the option vector accepted at all?
        Args a(c, 0, 0); vector<Arr> outs; vector<double*> op; for (int k = 0; k < c.ii->outputs; ++k) outs.emplace_back(0);
        c.in.assign(c.ii->inputs, {}); Args b(c, 0, 0); for (auto& o : outs) op.push_back(o.p); op.push_back(nullptr); bump(K_CALLS);
        probe.rc = guarded([&] { return c.ii->indicator(0, b.ip.data(), b.opt.p, op.data()); }); phase("-"); }
    if (probe.rc != TI_OKAY) { bump(K_REJECT); if (has_stream(c.ii)) { phase("stream_new"); ti_stream* st = nullptr; Args oa(c, 0, 0); int rc = guarded([&] { return c.ii->stream_new(oa.opt.p, &st); }); if (rc == TI_OKAY && st) guarded([&] { c.ii->stream_free(st); return 0; }); phase("-"); } return 0; }
    bump(K_ACCEPT);
    phase("start"); int start = c.ii->start(c.o.data()); phase("-");
    if (start < 0) { violate(c, "start", fmt("start is %d: callers sizing the output from it overrun", start)); }
#if !defined VAR_VALGRIND && !defined VAR_MSAN
    long_share = 0.0012;
#endif
    bool heavy = slow_one(c.ii); c.n = gen_size(r, start, 120, heavy); long_share = 0; if (start > 400 && heavy) c.n %= 200; // quadratic in the period
    if (start > 0 && (double)(c.n - start) * start > 2e6) c.n = start + (int)(2e6 / start); // many references walk the whole window for every bar
    gen_inputs(r, c);
    if (r.chance(0.3)) { // data no feed should contain, but which must not take the process down
        static const double odd[] = {NAN, INFINITY, -INFINITY, 0, -0.0, 1e308, -1e308, 5e-324, 1e-300, -1, 1e16, 2147483648.0, -2147483649.0};
        double p = r.chance(0.3) ? 0.6 : r.real(0.005, 0.1); int one = r.chance(0.5) ? r.below(sizeof odd / sizeof *odd) : -1;
        for (auto& s : c.in) for (auto& v : s) if (r.chance(p)) v = odd[one >= 0 ? one : r.below(sizeof odd / sizeof *odd)];
    }
    run_plain(c);
    bool frac = false; auto t = tokens_of(c.ii); for (int k = 0; k < c.ii->options; ++k) if (t[k][0] != 'r' && c.o[k] != std::floor(c.o[k])) frac = true;
    if (has_ref(c.ii) && !frac) run_ref(c);
    if (has_stream(c.ii)) { run_stream(c, gen_chunks(r, c.n, start), r.chance(0.5), nullptr); if (r.chance(0.3)) run_stream(c, ones(c.n), true, nullptr); }
    return case_hash(c);
}
#include "modes2.hpp"
static const std::map<string, Mode>& modes() {
    static const std::map<string, Mode> m = {
        {"contract", {any, mode_contract}}, {"options", {any, mode_options}}, {"stream", {has_stream, mode_stream}}, {"progress", {has_stream, mode_progress}},
        {"ref", {has_ref, mode_ref}}, {"values", {any, mode_values}}, {"long", {any, mode_long}}, {"causal", {any, mode_causal}}, {"range", {has_range, mode_range}},
        {"safety", {any, mode_safety, true}},
        {"purity", {any, mode_purity}}, {"life", {has_stream, mode_life}}, {"leak", {any, mode_leak}},
#ifdef VAR_FI
        {"oom", {any, mode_oom}},
#else
        {"threads", {any, mode_threads}},
#endif
    };
    return m;
}
