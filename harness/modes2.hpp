// Modes about state, resources, faults and threads.
#pragma once
static bool bits_equal(const Run& a, const Run& b) {
    if (a.rc != b.rc || a.v.size() != b.v.size()) return false;
    for (size_t k = 0; k < a.v.size(); ++k) if (a.v[k].size() != b.v[k].size() || (a.v[k].size() && memcmp(a.v[k].data(), b.v[k].data(), a.v[k].size() * 8))) return false;
    return true;
}
static string first_diff(const Case& c, const Run& a, const Run& b) {
    if (a.rc != b.rc) return fmt("return codes %d and %d", a.rc, b.rc);
    for (size_t k = 0; k < a.v.size() && k < b.v.size(); ++k) {
        if (a.v[k].size() != b.v[k].size()) return fmt("%zu and %zu values", a.v[k].size(), b.v[k].size());
        for (size_t j = 0; j < a.v[k].size(); ++j) if (memcmp(&a.v[k][j], &b.v[k][j], 8)) return fmt("output %s value %zu: %.17g and %.17g", c.ii->output_names[k], j, a.v[k][j], b.v[k][j]);
    }
    return "?";
}
struct Poison { // fills fresh heap blocks and the stack below the call with a byte pattern, when the build has the allocator hook
    Poison(int b) {
#ifdef VAR_FI
        fi::poison = b; stack_poison = true; stack_fill = (unsigned char)b;
#endif
    }
    ~Poison() {
#ifdef VAR_FI
        fi::poison = -1; stack_poison = false;
#endif
    }
};
struct Ledger { // what the library allocated and did not give back during a scope
#ifdef VAR_FI
    long live0, unk0; Ledger() : live0(fi::live), unk0(fi::unknown_free) {}
    long leaked() const { return fi::live - live0; } long wild() const { return fi::unknown_free - unk0; }
#else
    long leaked() const { return 0; } long wild() const { return 0; }
#endif
};
static const ti_indicator_info* some_indicator(Rng& r, bool stream) {
    for (;;) { const ti_indicator_info* ii = &ti_indicators[r.below(ti_indicator_count())]; if (spec::registry().count(ii->name) && (!stream || has_stream(ii))) return ii; }
}
// ---- C12: an answer depends on the arguments only
// A call that resembles c: one option changed, or the same options on other data, so that anything remembered by option,
// length or address of the previous call is offered a wrong match.
static bool relative(Rng& r, const Case& c, Case& d) {
    if (d.ii != c.ii || r.chance(0.3)) return false;
    const spec::Model& m = model_of(c.ii); d.o = c.o; d.n = c.n;
    if (c.ii->options && r.chance(0.7)) {
        bool ok = false;
        for (int t = 0; t < 12 && !ok; ++t) { d.o = c.o; Case e; e.ii = c.ii; if (!gen_valid_options(r, c.ii, m, e.o)) break; int k = r.below(c.ii->options); if (e.o[k] == c.o[k]) continue; d.o[k] = e.o[k]; ok = m.valid(d.o.data()) && m.start(d.o.data()) < 20000; }
        if (!ok) d.o = c.o;
    }
    if (r.chance(0.3)) d.n = gen_size(r, m.start(d.o.data()), 60, slow_one(d.ii));
    gen_inputs(r, d); return true;
}
static uint64_t mode_purity(Rng& r, Case& c) {
    OddReals odd(0.05);
    if (!make(r, c, 140, 0.003)) return 0;
    int st = c.ii->start(c.o.data()); vector<int> ch = gen_chunks(r, c.n, st);
    Run base, sbase, rbase;
    static const int pat[] = {0x00, 0xff, 0x7f, 0x3f, 0xc1};
    for (int k = 0; k < 4; ++k) {
        bump(K_ROUNDS);
        if (k) { // other calls in between must leave no trace
            for (int t = 0; t < 2; ++t) { Case d; d.ii = r.chance(0.5) ? c.ii : some_indicator(r, false); if (relative(r, c, d) || make(r, d, 60)) { Poison p(0xc1); run_plain(d); if (has_stream(d.ii) && r.chance(0.5)) run_stream(d, gen_chunks(r, d.n, 0), true, nullptr); } }
        }
        Poison p(k == 0 ? 0 : k == 1 ? 0xff : pat[r.below(5)]);
        Run a = run_plain(c); if (k == 0) base = a; else if (!bits_equal(base, a)) { violate(c, "plain:impure", "the same call gives different answers: " + first_diff(c, base, a)); break; }
        if (has_stream(c.ii)) { Run s = run_stream(c, ch, k & 1, nullptr); if (k == 0) sbase = s; else if (!bits_equal(sbase, s)) { violate(c, "stream:impure", "the same stream history gives different answers: " + first_diff(c, sbase, s)); break; } }
        if (has_ref(c.ii)) { Run q = run_ref(c); if (k == 0) rbase = q; else if (!bits_equal(rbase, q)) { violate(c, "ref:impure", "the same reference call gives different answers: " + first_diff(c, rbase, q)); break; } }
    }
    int s2 = c.ii->start(c.o.data()); if (s2 != st) violate(c, "start:impure", fmt("start was %d and is now %d", st, s2));
    return case_hash(c);
}
// ---- C20 / C12: many streams alive at once, created, run and freed in any order
struct Live {
    Case c; vector<int> ch; size_t at = 0; int done = 0, start = 0; ti_stream* st = nullptr; Run got; bool dead = false;
};
static bool live_open(Live& L) {
    L.start = L.c.ii->start(L.c.o.data()); L.got.v.resize(L.c.ii->outputs); Args oa(L.c, 0, 0); phase("stream_new"); bump(K_STREAMS);
    L.got.rc = guarded([&] { return L.c.ii->stream_new(oa.opt.p, &L.st); }); phase("-");
    if (L.got.rc != TI_OKAY || !L.st) { violate(L.c, "life:new", fmt("stream_new returned %d", L.got.rc)); return false; }
    return true;
}
static void live_step(Live& L, bool dispatch) {
    int k = L.ch[L.at++]; int cnt = std::max(0, L.done + k - L.start) - std::max(0, L.done - L.start); bump(K_CHUNKS);
    Args a(L.c, L.done, k); vector<Arr> outs; vector<double*> op; for (int j = 0; j < L.c.ii->outputs; ++j) outs.emplace_back(cnt);
    for (auto& o : outs) op.push_back(o.p); op.push_back(nullptr); phase("stream_run");
    int rc = guarded([&] { return dispatch ? ti_stream_run(L.st, k, a.ip.data(), op.data()) : L.c.ii->stream_run(L.st, k, a.ip.data(), op.data()); }); phase("-");
    L.done += k; collect(L.c, L.got, outs, cnt, true); if (rc != TI_OKAY) L.got.rc = rc;
}
static void live_close(Live& L, bool dispatch) { phase("stream_free"); guarded([&] { if (dispatch) ti_stream_free(L.st); else L.c.ii->stream_free(L.st); return 0; }); phase("-"); L.st = nullptr; }
static uint64_t mode_life(Rng& r, Case& c) {
    OddReals odd(0.05);
    if (!make(r, c, 60)) return 0;
    Ledger led; uint64_t h = case_hash(c);
    {
        vector<Live> pool; pool.reserve(16); int born = r.range(2, 6);
        for (int k = 0; k < born; ++k) { Live L; if (k == 0) L.c = c; else { L.c.ii = r.chance(0.6) ? c.ii : some_indicator(r, true); if (!make(r, L.c, 60)) continue; } L.ch = gen_chunks(r, L.c.n, L.c.ii->start(L.c.o.data())); pool.push_back(std::move(L)); }
        int open = 0, guard = 0; size_t next = 0;
        while (guard++ < 4000) {
            vector<Live*> up; for (auto& L : pool) if (L.st) up.push_back(&L);
            if (up.empty() && next >= pool.size()) break;
            bool birth = next < pool.size() && (up.empty() || r.chance(0.25));
            bump(K_ROUNDS); h = Rng::mix(h ^ (birth ? 1 : 2) ^ (up.size() << 3));
            if (birth) { Live& L = pool[next++]; if (live_open(L)) ++open; continue; }
            Live& L = *up[r.below(up.size())];
            if (L.at >= L.ch.size()) { live_close(L, r.chance(0.5)); continue; }
            if (r.chance(0.01)) { L.dead = true; live_close(L, r.chance(0.5)); continue; } // freed in mid-life, or before the first bar
            live_step(L, r.chance(0.5));
        }
        for (auto& L : pool) if (L.st) live_close(L, true);
        for (auto& L : pool) if (L.got.rc == TI_OKAY && L.at) { // alone, with the same cuts
            vector<int> ch(L.ch.begin(), L.ch.begin() + L.at); Run s = run_stream(L.c, ch, false, nullptr); s.cnt = L.got.cnt;
            if (!bits_equal(s, L.got)) violate(L.c, "life:crosstalk", "a stream that shares the process with others answers differently from one that is alone: " + first_diff(L.c, s, L.got));
        }
        run_plain(c); if (has_ref(c.ii) && false) run_ref(c);
    }
    if (led.leaked() > 0) violate(c, "life:leak", fmt("%ld blocks were never freed", led.leaked()));
    if (led.wild() > 0) violate(c, "life:wildfree", fmt("%ld frees of blocks that were not allocated or already freed", led.wild()));
    return h | 1;
}
static uint64_t mode_leak(Rng& r, Case& c) { // plain calls, accepted and rejected, give everything back
    bool hostile = r.chance(0.3); if (hostile) gen_hostile(r, c, true); else if (!gen_valid_options(r, c.ii, model_of(c.ii), c.o)) { bump(K_INFEASIBLE); return 0; }
    bool ok = model_of(c.ii).valid(c.o.data()); c.n = ok ? gen_size(r, model_of(c.ii).start(c.o.data()), 80, slow_one(c.ii)) : r.below(40); gen_inputs(r, c);
    Ledger led;
    if (ok) { run_plain(c); if (has_stream(c.ii)) run_stream(c, gen_chunks(r, c.n, 0), true, nullptr); }
    else { Args a(c, 0, c.n); vector<Arr> outs; vector<double*> op; for (int k = 0; k < c.ii->outputs; ++k) outs.emplace_back(c.n + 64); for (auto& o : outs) op.push_back(o.p); op.push_back(nullptr);
        phase("plain"); bump(K_REJECT); guarded([&] { return c.ii->indicator(c.n, a.ip.data(), a.opt.p, op.data()); });
        if (has_stream(c.ii)) { phase("stream_new"); ti_stream* st = nullptr; int rc = guarded([&] { return c.ii->stream_new(a.opt.p, &st); }); if (rc == TI_OKAY && st) guarded([&] { c.ii->stream_free(st); return 0; }); } phase("-"); }
    if (led.leaked() > 0) violate(c, ok ? "plain:leak" : "rejected:leak", fmt("%ld blocks were never freed by %s call", led.leaked(), ok ? "a valid" : "a rejected"));
    if (led.wild() > 0) violate(c, "plain:wildfree", fmt("%ld frees of blocks that were not allocated or already freed", led.wild()));
    uint64_t h = 3; for (double d : c.o) { uint64_t u; memcpy(&u, &d, 8); h = Rng::mix(h ^ u); } h = Rng::mix(h ^ c.n); if (c.n) { uint64_t u; memcpy(&u, &c.in[0][c.n - 1], 8); h = Rng::mix(h ^ u); } bump(K_NONTRIV);
    return h | 1;
}
#ifdef VAR_FI
struct Fault { Fault(long from, long to) { fi::count = 0; fi::failed = 0; fi::fail_from = from; fi::fail_to = to; } ~Fault() { fi::fail_from = -1; fi::fail_to = -1; } };
// ---- C13: running out of memory
static void oom_rc(const Case& c, const Run& r, const Run& base, long k, const char* what) {
    if (!fi::failed) return;
    bump(K_FAULTS);
    if (r.rc == RC_THREW) violate(c, fmt("%s:oom:exception", what), fmt("%s let an exception escape when allocation %ld failed", what, k));
    else if (r.rc == TI_OKAY) { if (!bits_equal(r, base)) violate(c, fmt("%s:oom:silent", what), fmt("%s reported success with other values when allocation %ld failed: %s", what, k, first_diff(c, base, r).c_str())); }
    else if (r.rc != TI_OUT_OF_MEMORY) violate(c, fmt("%s:oom:code", what), fmt("%s returned %d when allocation %ld failed", what, r.rc, k));
    if (!r.guards) violate(c, fmt("%s:oom:outside", what), fmt("%s wrote outside its outputs when allocation %ld failed", what, k));
    if (r.inputs_changed || r.options_changed) violate(c, fmt("%s:oom:inputs", what), fmt("%s changed its inputs when allocation %ld failed", what, k));
}
static void ledger_check(const Case& c, const Ledger& led, const char* what, long k) {
    if (led.leaked() > 0) violate(c, fmt("%s:oom:leak", what), fmt("%s leaked %ld blocks when allocation %ld failed", what, led.leaked(), k));
    if (led.wild() > 0) violate(c, fmt("%s:oom:wildfree", what), fmt("%s freed %ld blocks it did not own when allocation %ld failed", what, led.wild(), k));
}
static uint64_t mode_oom(Rng& r, Case& c) {
    if (!make(r, c, 60)) return 0;
    Run base; long total;
    { Fault f(-1, -1); base = run_plain(c); total = fi::count; } bump(K_ALLOCS, total);
    if (base.rc != TI_OKAY) { violate(c, "plain:rc", fmt("plain returned %d", base.rc)); return 0; }
    auto points = [&](long n) { vector<long> p; if (n <= 24) for (long k = 1; k <= n; ++k) p.push_back(k); else { for (long k = 1; k <= 8; ++k) p.push_back(k); for (int j = 0; j < 12; ++j) p.push_back(r.range(9, n - 1)); p.push_back(n); } return p; };
    for (long k : points(total)) for (int forever = 0; forever < 2; ++forever) {
        Ledger led; { Run q; { Fault f(k, forever ? 1L << 40 : k); q = run_plain(c); oom_rc(c, q, base, k, "plain"); } }
        ledger_check(c, led, "plain", k);
    }
    { Run q = run_plain(c); if (!bits_equal(q, base)) violate(c, "plain:oom:after", "after a failed call the next one answers differently: " + first_diff(c, base, q)); }
    if (has_stream(c.ii)) {
        vector<int> ch = gen_chunks(r, c.n, c.ii->start(c.o.data())); Run sb; long st;
        { Fault f(-1, -1); sb = run_stream(c, ch, false, nullptr); st = fi::count; } bump(K_ALLOCS, st);
        if (sb.rc != TI_OKAY) { violate(c, "stream:rc", fmt("stream returned %d", sb.rc)); return 0; }
        for (long k : points(st)) for (int forever = 0; forever < 2; ++forever) {
            Ledger led; { Run q; { Fault f(k, forever ? 1L << 40 : k); q = run_stream(c, ch, r.chance(0.5), nullptr); if (q.rc == -2) violate(c, "stream:oom:nostream", fmt("stream_new reported success without a stream when allocation %ld failed", k)); else oom_rc(c, q, sb, k, "stream"); } }
            ledger_check(c, led, "stream", k);
        }
        Run q = run_stream(c, ch, true, nullptr); if (!bits_equal(q, sb)) violate(c, "stream:oom:after", "after a failed stream the next one answers differently: " + first_diff(c, sb, q));
    }
    return total || has_stream(c.ii) ? case_hash(c) : 0;
}
#else
// ---- C19: concurrent use
static uint64_t mode_threads(Rng& r, Case& c) {
    if (!make(r, c, 100)) return 0;
    int T = r.range(2, 6); struct Job { Case c; vector<int> ch; Run p, q, s; bool bad = false; string why; };
    vector<Job> jobs(T);
    for (int t = 0; t < T; ++t) { Job& j = jobs[t]; j.c.ii = c.ii; if (t == 0 || r.chance(0.5)) j.c = c; else { j.c.ii = r.chance(0.7) ? c.ii : some_indicator(r, false); if (!make(r, j.c, 100)) j.c = c; } j.ch = gen_chunks(r, j.c.n, j.c.ii->start(j.c.o.data())); }
    // The threads share nothing but the library; each repeats its own calls and the answers are compared with a solitary run.
    auto once = [](Job& j, bool record) {
        const ti_indicator_info* ii = j.c.ii; double* o = j.c.o.data(); int st = std::max(0, ii->start(o)), cnt = std::max(0, j.c.n - st);
        vector<const double*> in; for (auto& x : j.c.in) in.push_back(x.data()); in.push_back(nullptr);
        auto call = [&](ti_indicator_function f) { Run r; r.v.assign(ii->outputs, vector<double>(cnt + 1, 0)); vector<double*> op; for (auto& v : r.v) op.push_back(v.data()); op.push_back(nullptr); r.rc = f(j.c.n, in.data(), o, op.data()); for (auto& v : r.v) v.resize(cnt); return r; };
        Run p = call(ii->indicator), q, s; if (ii->indicator_ref) q = call(ii->indicator_ref);
        if (ii->stream_new) {
            ti_stream* z = nullptr; s.v.resize(ii->outputs); s.rc = ii->stream_new(o, &z);
            if (s.rc == TI_OKAY) { int done = 0; for (int k : j.ch) { int m = std::max(0, done + k - st) - std::max(0, done - st); vector<const double*> ip; for (auto& x : j.c.in) ip.push_back(x.data() + done); ip.push_back(nullptr); vector<vector<double>> ov(ii->outputs, vector<double>(m + 1)); vector<double*> op; for (auto& v : ov) op.push_back(v.data()); op.push_back(nullptr);
                ti_stream_run(z, k, ip.data(), op.data()); done += k; for (int y = 0; y < ii->outputs; ++y) s.v[y].insert(s.v[y].end(), ov[y].begin(), ov[y].begin() + m); if (ti_stream_get_progress(z) != done - ii->start(o)) { j.bad = true; j.why = "progress"; } }
                ti_stream_free(z); }
        }
        if (ti_find_indicator(ii->name) != ii) { j.bad = true; j.why = "lookup"; }
        if (record) { j.p = p; j.q = q; j.s = s; }
        else { if (!bits_equal(p, j.p)) { j.bad = true; j.why = "plain " + first_diff(j.c, j.p, p); } if (!bits_equal(q, j.q)) { j.bad = true; j.why = "reference " + first_diff(j.c, j.q, q); } if (!bits_equal(s, j.s)) { j.bad = true; j.why = "stream " + first_diff(j.c, j.s, s); } }
    };
    bool after = r.chance(0.3); // in this case the library's first use in the process may be the concurrent one
    if (!after) for (auto& j : jobs) once(j, true);
    phase("threads"); vector<std::thread> th; volatile int go = 0;
    vector<Job> par = jobs; std::vector<char> rec(T, after);
    for (int t = 0; t < T; ++t) th.emplace_back([&, t] { for (int k = 0; k < 4; ++k) once(par[t], rec[t] && k == 0); });
    for (auto& t : th) t.join(); phase("-"); (void)go; bump(K_CALLS, T * 4L); bump(K_ROUNDS, T);
    if (after) for (int t = 0; t < T; ++t) { once(jobs[t], true); if (!bits_equal(jobs[t].p, par[t].p) || !bits_equal(jobs[t].s, par[t].s) || !bits_equal(jobs[t].q, par[t].q)) { par[t].bad = true; par[t].why = "concurrent first use"; } }
    for (auto& j : par) if (j.bad) { violate(j.c, "threads", "concurrent use changes the answer: " + j.why); break; }
    return case_hash(c);
}
#endif
