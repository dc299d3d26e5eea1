// The monitor: runs the real library on generated workloads and judges what it observes.
//   mon --mode M --seed S --cases N [--only a,b] [--first K --count 1] [--size typical] [--shard i/n]
// Prints JSON lines: {"t":"viol",...}, {"t":"sample",...}, {"t":"stat",...}; exit code 0 unless the harness itself failed.
#include <csignal>
#include <cstdarg>
#include <new>
#include <set>
#include <thread>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <poll.h>
#include <time.h>
#include <unistd.h>
#include "gen.hpp"
#ifdef VAR_VALGRIND
#include <valgrind/memcheck.h>
#endif
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/lsan_interface.h>
#endif
using std::string; using std::vector;
typedef spec::LD LD;

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#define VAR_MSAN 1
#include <sanitizer/msan_interface.h>
#endif
#endif
#include "alloc.hpp"

// ---- reporting -------------------------------------------------------------------------------
enum Ctr { K_CASES, K_NONTRIV, K_CALLS, K_BARS, K_SKIP_NONFIN, K_SKIP_ILL, K_OUTS, K_STREAMS, K_CHUNKS, K_REJECT, K_ACCEPT, K_REFS, K_FAULTS, K_ALLOCS, K_BOUNDS, K_PREFIX, K_ROUNDS, K_DISTINCT, K_INFEASIBLE, K_COUNT };
static const char* ctr_name[K_COUNT] = {"cases", "nontrivial", "calls", "bars_compared", "bars_undefined_skipped", "bars_illconditioned_skipped", "values_observed", "streams", "chunks", "rejected", "accepted", "ref_calls", "faults_injected", "allocations_seen", "bounds_checked", "prefixes", "rounds", "distinct", "infeasible"};
struct Shared { volatile long cur; volatile long done; volatile long ctr[K_COUNT]; char phase[64]; };
static Shared* sh;
static int out_fd = 1;
static void bump(int k, long n = 1) { sh->ctr[k] = sh->ctr[k] + n; }
static void phase(const char* p) { strncpy(sh->phase, p, sizeof sh->phase - 1); }
static void emit(const string& s) { string t = s + "\n"; size_t o = 0;
#ifdef VAR_MSAN
    __msan_unpoison(t.data(), t.size()); // libstdc++'s own code is not instrumented
#endif
     while (o < t.size()) { ssize_t w = write(out_fd, t.data() + o, t.size() - o); if (w <= 0) _exit(97); o += w; } }
static string esc(const string& s) { string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
static string fmt(const char* f, ...) { static char b[1 << 16]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static string opts_str(const Case& c) { string s; for (int k = 0; k < c.ii->options; ++k) s += fmt("%s%.17g", k ? "," : "", c.o[k]); return s; }
static string case_str(const Case& c) { return fmt("%s(%s) size=%d shape=%s", c.ii->name, opts_str(c).c_str(), c.n, c.ii->inputs ? shape_name(c.shape) : "-"); }
static std::map<string, int> viol_seen;
static bool verbose = false;
static void violate(const Case& c, const string& kind, const string& msg) {
    string key = string(c.ii->name) + ":" + kind;
    if (viol_seen[key]++ >= 2) return;
    emit(fmt("{\"t\":\"viol\",\"key\":\"%s\",\"ind\":\"%s\",\"case\":%ld,\"msg\":\"%s\"}", esc(key).c_str(), c.ii->name, sh->cur, esc(msg + " | " + case_str(c)).c_str()));
    if (verbose) for (auto& x : c.in) { string s = "  in:"; for (double v : x) s += fmt(" %.17g", v); emit("{\"t\":\"note\",\"msg\":\"" + s + "\"}"); }
}

// ---- running the library ---------------------------------------------------------------------
static const int RC_THREW = -77; // an exception came out of the C interface
template<class F> static int guarded(F f) {
    ARM();
    try { int rc = f(); DISARM(); return rc; } catch (...) { DISARM(); return RC_THREW; }
}
static const uint64_t SENT = 0x7ff4dead5eed0b5full; // a signalling-NaN pattern no computation produces
static double sentinel() { double d; memcpy(&d, &SENT, 8); return d; }
static bool is_sent(const double& d) { uint64_t u; memcpy(&u, &d, 8); return u == SENT; }
static const int PAD = 48;
struct Arr { // n doubles with guard bands (or, under a sanitizer, an exactly sized heap block)
    double* base = nullptr; double* p = nullptr; int n = 0;
    Arr() {}
    explicit Arr(int n_) : n(n_) {
#ifdef VAR_EXACT
        base = p = (double*)own_malloc(sizeof(double) * (size_t)(n ? n : 0) + (n ? 0 : 1));
        for (int i = 0; i < n; ++i) memcpy(p + i, &SENT, 8);
#else
        if (posix_memalign((void**)&base, 64, sizeof(double) * (n + 2 * PAD))) abort();
        p = base + PAD; for (int i = 0; i < n + 2 * PAD; ++i) memcpy(base + i, &SENT, 8);
#endif
    }
    Arr(const Arr&) = delete; Arr& operator=(const Arr&) = delete;
    Arr(Arr&& o) noexcept : base(o.base), p(o.p), n(o.n) { o.base = nullptr; }
    ~Arr() {
#ifdef VAR_EXACT
        own_free(base);
#else
        free(base);
#endif
    }
    bool guards_ok() const {
#ifndef VAR_EXACT
        for (int i = 0; i < PAD; ++i) if (!is_sent(base[i]) || !is_sent(p[n + i])) return false;
#endif
        return true;
    }
};
struct Run {
    int rc = -1; int cnt = 0; vector<vector<double>> v; // v[k][j]: j-th value of output k
    bool guards = true; int unwritten = 0; bool inputs_changed = false, options_changed = false;
};
struct Args { // private copies of the inputs and options, so that writes to them are seen
    vector<Arr> in; vector<const double*> ip; Arr opt; const Case& c;
    Args(const Case& c_, int from, int n) : opt((int)c_.o.size()), c(c_) {
        for (auto& x : c.in) { in.emplace_back(n); if (n > 0) memcpy(in.back().p, x.data() + from, n * sizeof(double)); }
        for (auto& a : in) ip.push_back(a.p);
        ip.push_back(nullptr);
        memcpy(opt.p, c.o.data(), c.o.size() * sizeof(double));
    }
    bool in_changed(int from) const { for (size_t k = 0; k < in.size(); ++k) { if (!in[k].guards_ok()) return true; if (in[k].n > 0 && memcmp(in[k].p, c.in[k].data() + from, in[k].n * sizeof(double))) return true; } return false; }
    bool opt_changed() const { return !opt.guards_ok() || memcmp(opt.p, c.o.data(), c.o.size() * sizeof(double)); }
};
static void collect(const Case& c, Run& r, vector<Arr>& outs, int cnt, bool append) {
    for (int k = 0; k < c.ii->outputs; ++k) {
        if (!outs[k].guards_ok()) r.guards = false;
#ifdef VAR_MSAN
        if (cnt > 0) __msan_check_mem_is_initialized(outs[k].p, cnt * sizeof(double));
#endif
        for (int j = 0; j < cnt; ++j) {
            if (is_sent(outs[k].p[j])) r.unwritten++;
#ifdef VAR_VALGRIND
            if (VALGRIND_CHECK_MEM_IS_DEFINED(outs[k].p + j, sizeof(double))) {}
#endif
            r.v[k].push_back(outs[k].p[j]);
        }
    }
    (void)append; bump(K_OUTS, (long)cnt * c.ii->outputs);
}
static Run run_plain_fn(const Case& c, ti_indicator_function f, int n, const char* ph) {
    Run r; phase(ph); bump(K_CALLS);
    int start = c.ii->start(c.o.data()); int cnt = std::max(0, n - std::max(0, start));
    Args a(c, 0, n); vector<Arr> outs; vector<double*> op;
    for (int k = 0; k < c.ii->outputs; ++k) { outs.emplace_back(cnt); }
    for (auto& o : outs) op.push_back(o.p);
    op.push_back(nullptr);
    r.rc = guarded([&] { return f(n, a.ip.data(), a.opt.p, op.data()); });
    phase("-");
    r.cnt = cnt; r.v.resize(c.ii->outputs);
    r.inputs_changed = a.in_changed(0); r.options_changed = a.opt_changed();
    if (r.rc == TI_OKAY) collect(c, r, outs, cnt, false);
    else for (auto& o : outs) if (!o.guards_ok()) r.guards = false;
    return r;
}
static Run run_plain(const Case& c, int n = -1) { return run_plain_fn(c, c.ii->indicator, n < 0 ? c.n : n, "plain"); }
static Run run_ref(const Case& c, int n = -1) { bump(K_REFS); return run_plain_fn(c, c.ii->indicator_ref, n < 0 ? c.n : n, "ref"); }
// Runs a stream over the given chunk sizes.  `dispatch`: through ti_stream_run/ti_stream_free instead of the indicator's own functions.
struct StreamLog { string why; int bad_chunk = -1; };
static Run run_stream(const Case& c, const vector<int>& chunks, bool dispatch, StreamLog* log) {
    Run r; r.v.resize(c.ii->outputs); phase("stream_new"); bump(K_STREAMS); bump(K_CALLS);
    ti_stream* st = nullptr; Args oa(c, 0, 0);
    r.rc = guarded([&] { return c.ii->stream_new(oa.opt.p, &st); }); phase("-");
    r.options_changed = oa.opt_changed();
    if (r.rc != TI_OKAY) return r;
    if (!st) { if (log) log->why = "stream_new returned TI_OKAY and no stream"; r.rc = -2; return r; }
    int start = c.ii->start(c.o.data()), done = 0;
    auto fail = [&](const string& w, int ch) { if (log && log->why.empty()) { log->why = w; log->bad_chunk = ch; } };
    auto look = [&](int consumed, int ch) {
        if (ti_stream_get_info(st) != c.ii) fail(fmt("ti_stream_get_info names %s", ti_stream_get_info(st) ? ti_stream_get_info(st)->name : "(null)"), ch);
        int p = ti_stream_get_progress(st);
        if (p != consumed - start) fail(fmt("progress %d after %d bars, start %d", p, consumed, start), ch);
    };
    look(0, -1);
    for (size_t q = 0; q < chunks.size(); ++q) {
        int k = chunks[q]; bump(K_CHUNKS); bump(K_CALLS);
        int cnt = std::max(0, done + k - start) - std::max(0, done - start);
        Args a(c, done, k); vector<Arr> outs; vector<double*> op;
        for (int j = 0; j < c.ii->outputs; ++j) outs.emplace_back(cnt);
        for (auto& o : outs) op.push_back(o.p);
        op.push_back(nullptr);
        phase("stream_run");
        int rc = guarded([&] { return dispatch ? ti_stream_run(st, k, a.ip.data(), op.data()) : c.ii->stream_run(st, k, a.ip.data(), op.data()); });
        phase("-");
        if (a.in_changed(done)) r.inputs_changed = true;
        done += k;
        int before = r.unwritten; bool g = r.guards;
        collect(c, r, outs, cnt, true);
        if (rc != TI_OKAY) { fail(fmt("stream_run returned %d", rc), (int)q); r.rc = rc; break; }
        if (r.unwritten != before) fail(fmt("chunk of %d bars at bar %d: %d of %d values not written", k, done - k, r.unwritten - before, cnt * c.ii->outputs), (int)q);
        if (g && !r.guards) fail(fmt("chunk of %d bars at bar %d: wrote outside the %d values due", k, done - k, cnt), (int)q);
        look(done, (int)q);
    }
    r.cnt = std::max(0, done - start);
    phase("stream_free"); guarded([&] { if (dispatch) ti_stream_free(st); else c.ii->stream_free(st); return 0; });
    phase("-");
    return r;
}
static vector<int> whole(int n) { return {n}; }
static vector<int> ones(int n) { return vector<int>(n, 1); }
static vector<int> gen_chunks(Rng& r, int n, int start) {
    vector<int> c; int left = n; int style = r.below(5); int big = r.range(2, 40);
    if (style == 4) { // cut exactly around the first output
        int a = std::min(n, std::max(0, start + r.range(-1, 1))); if (a) c.push_back(a); left = n - a;
        if (left > 0 && r.chance(0.5)) { c.push_back(1); left--; }
    }
    while (left > 0) {
        int k = style == 0 ? r.range(1, 3) : style == 1 ? big : style == 2 ? (r.chance(0.5) ? 1 : r.range(1, 60)) : r.range(1, std::max(1, n));
        k = std::min(k, left); if (r.chance(0.08)) c.push_back(0);
        c.push_back(k); left -= k;
    }
    if (r.chance(0.2)) c.push_back(0);
    return c;
}

// ---- expected values ---------------------------------------------------------------------------
static int dump_bar = getenv("DUMPBAR") ? atoi(getenv("DUMPBAR")) : -1; // debugging aid
struct Expect { int start = 0; vector<vector<LD>> v; vector<vector<double>> tol; vector<double> scale; vector<vector<char>> fin; };
static Expect expect(const Case& c, const spec::Model& m) {
    Expect x; x.start = m.start(c.o.data());
    spec::Env<LD> e; e.n = c.n; e.o = c.o.data();
    double inmax = 0;
    for (auto& s : c.in) { e.in.emplace_back(s.begin(), s.end()); for (double d : s) inmax = std::max(inmax, std::fabs(d)); }
    e.out.assign(c.ii->outputs, vector<LD>(c.n, 0));
    e.aux.assign(c.n, 0); if (c.n > 0) m.run_ld(e);
    vector<char> murky(c.n, 0);
    x.v = e.out; x.tol.assign(c.ii->outputs, vector<double>(c.n, 0)); x.fin.assign(c.ii->outputs, vector<char>(c.n, 1)); x.scale.assign(c.ii->outputs, 0);
    for (auto& o : x.v) o.resize(c.n);
    static const uint64_t salts[4] = {0x1234567, 0x9e3779b97f4a7c15ull, 0xdeadbeefcafef00dull, 0x0f0f33335555aaaaull};
    for (int s = 0; s < 4 && c.n > 0; ++s) {
        spec::Noisy::salt = salts[s]; spec::Noisy::run_no = s; spec::Noisy::tick = 0;
        spec::Env<spec::Noisy> q; q.n = c.n; q.o = c.o.data();
        for (auto& ser : c.in) { q.in.emplace_back(); for (double d : ser) q.in.back().push_back(spec::Noisy(d)); }
        q.out.assign(c.ii->outputs, vector<spec::Noisy>(c.n));
        q.aux.assign(c.n, spec::Noisy(0)); m.run_noisy(q);
        for (int i = 0; i < c.n; ++i) if (!(std::fabs(q.aux[i].v - (double)e.aux[i]) <= 1e-6 * (1 + std::fabs((double)e.aux[i])))) murky[i] = 1;
        for (int k = 0; k < c.ii->outputs; ++k) for (int i = std::max(0, x.start); i < c.n; ++i) {
            double nv = q.out[k][i].v, ev = (double)x.v[k][i];
            if (dump_bar >= 0 && std::abs(i - dump_bar) < 3) fprintf(stderr, "run %d out %d bar %d: %.17g exact %.17g in %.17g\n", s, k, i, nv, ev, c.in[0][i]);
            if (!std::isfinite(nv) || !std::isfinite(ev)) { x.fin[k][i] = 0; continue; }
            x.tol[k][i] = std::max(x.tol[k][i], (double)std::fabs((LD)nv - x.v[k][i]));
        }
    }
    double far = c.n <= 1000 ? 1 : std::pow(c.n / 1000.0, 1.5) / (c.n < 8000 ? 8 : 1); if (far < 1) far = 1; // a weighted sum of running sums wanders like n^1.5
    for (int k = 0; k < c.ii->outputs; ++k) {
        double sc = 0;
        for (int i = std::max(0, x.start); i < c.n; ++i) if (x.fin[k][i]) { double a = std::fabs((double)x.v[k][i]); if (a < 1e15) sc = std::max(sc, a); else x.fin[k][i] = 0; }
        x.scale[k] = sc; vector<double> spread = x.tol[k];
        for (int i = std::max(0, x.start); i < c.n; ++i) {
            double s = 0; // four perturbed runs may agree by chance at one bar, so its neighbours have a say in the spread
            for (int j = std::max(std::max(0, x.start), i - 4); j <= std::min(c.n - 1, i + 4); ++j) if (x.fin[k][j]) s = std::max(s, spread[j]);
            if (!x.fin[k][i]) { x.tol[k][i] = INFINITY; continue; }
            if (murky[i] || s > 1e-3 * sc && s > 1e-9 * inmax) { x.tol[k][i] = -1; continue; } // the data do not determine this bar in double precision
            x.tol[k][i] = 8 * std::max(1.0, c.n / 250.0) * s + far * (1e-9 * sc + 1e-12 * inmax) + 1e-300;
        }
    }
    return x;
}
// Compares a run with the definition.  Returns the number of comparable bars.
static long judge(const Case& c, const Expect& x, const Run& r, const char* what, int n = -1) {
    long cmp = 0; if (n < 0) n = c.n;
    if (dump_bar >= 0) for (int k = 0; k < c.ii->outputs; ++k) for (int i = std::max(x.start, dump_bar - 3); i <= dump_bar + 3; ++i) if (i - x.start < (int)r.v[k].size()) fprintf(stderr, "%s out %d bar %d got %.17g want %.17Lg tol %g\n", what, k, i, r.v[k][i - x.start], x.v[k][i], x.tol[k][i]);
    for (int k = 0; k < c.ii->outputs; ++k) for (int i = std::max(0, x.start); i < n; ++i) {
        size_t j = i - std::max(0, x.start); if (j >= r.v[k].size()) break;
        double got = r.v[k][j], tol = x.tol[k][i];
        if (std::isinf(tol)) { bump(K_SKIP_NONFIN); continue; }
        if (!std::isfinite(got)) { violate(c, fmt("%s:nonfinite", what), fmt("%s output %s at bar %d is %g, definition gives %.17Lg", what, c.ii->output_names[k], i, got, x.v[k][i])); return cmp; }
        if (tol < 0) { bump(K_SKIP_ILL); continue; }
        ++cmp; bump(K_BARS);
        if (std::fabs((LD)got - x.v[k][i]) > tol) { violate(c, fmt("%s:value", what), fmt("%s output %s at bar %d is %.17g, definition gives %.17Lg (tolerance %.3g)", what, c.ii->output_names[k], i, got, x.v[k][i], tol)); return cmp; }
    }
    return cmp;
}
// Compares two runs of the library against each other, with the tolerance the definition justifies.
static bool same(const Case& c, const Expect& x, const Run& a, const Run& b, const char* what, const char* an, const char* bn, int twin = 0) {
    for (int k = 0; k < c.ii->outputs; ++k) {
        size_t m = std::min(a.v[k].size(), b.v[k].size());
        for (size_t j = 0; j < m; ++j) {
            int i = (int)j + std::max(0, x.start); double p = a.v[k][j], q = b.v[k][j];
            double tol = i < (int)x.tol[k].size() ? x.tol[k][i] : INFINITY;
            // twin 1: a bar whose value is undefined has to read alike in both; twin 2: the runs make the very same steps, so that even an
            // ill-conditioned bar has to repeat
            if ((twin == 2 && tol < 0) || (twin && std::isinf(tol))) tol = 1e-6 * std::max(std::fabs(p), std::fabs(q));
            if (tol < 0) { bump(K_SKIP_ILL); continue; }
            if (!twin && std::isinf(tol)) { bump(K_SKIP_NONFIN); continue; }
            bump(K_BARS);
            bool bad = std::isnan(p) != std::isnan(q) || (!std::isnan(p) && std::fabs(p - q) > 2 * tol);
            if (std::isinf(p) || std::isinf(q)) bad = p != q;
            if (bad) { violate(c, what, fmt("output %s at bar %d: %s gives %.17g, %s gives %.17g (tolerance %.3g)", c.ii->output_names[k], i, an, p, bn, q, 2 * tol)); return false; }
        }
    }
    return true;
}
static const spec::Model& model_of(const ti_indicator_info* ii) { return spec::registry().at(ii->name); }
static bool nontrivial(const Case& c) { return c.n > model_of(c.ii).start(c.o.data()); }

#include "modes.hpp"

// ---- driver ------------------------------------------------------------------------------------
static bool known_mode(const string& m) { return modes().count(m) > 0; }
int main(int argc, char** argv) {
    string mode, only; uint64_t seed = 1; long cases = 10, first = 0; int si = 0, sn = 1; bool nofork = false;
    for (int i = 1; i < argc; ++i) {
        string a = argv[i]; auto val = [&]() { return string(argv[++i]); };
        if (a == "--mode") mode = val(); else if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--cases") cases = atol(val().c_str()); else if (a == "--first") first = atol(val().c_str());
        else if (a == "--only") only = "," + val() + ","; else if (a == "--shard") { sscanf(argv[++i], "%d/%d", &si, &sn); }
        else if (a == "--verbose") verbose = true; else if (a == "--nofork") nofork = true; else if (a == "--tier") tier_thorough = val() == "thorough";
        else if (a == "--cpu") cpu_limit = atol(val().c_str());
        else if (a == "--list") { for (int t = 0; t < ti_indicator_count(); ++t) printf("%s %d\n", ti_indicators[t].name, ti_indicators[t].type); return 0; }
        else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
    }
    if (!known_mode(mode)) { fprintf(stderr, "unknown mode\n"); return 2; }
    const Mode& md = modes().at(mode);
    sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int n = ti_indicator_count(), idx = 0;
    for (int t = 0; t < n; ++t) {
        const ti_indicator_info* ii = &ti_indicators[t];
        if (!md.applies(ii)) continue;
        if (!only.empty() && only.find("," + string(ii->name) + ",") == string::npos) continue;
        if ((idx++ % sn) != si) continue;
        if (!spec::registry().count(ii->name)) { emit(fmt("{\"t\":\"nomodel\",\"ind\":\"%s\"}", ii->name)); continue; }
        memset((void*)sh, 0, sizeof *sh);
        long next = first; int crashes = 0;
        auto work = [&](long from) {
            std::unordered_set<uint64_t> distinct;
            for (long k = from; k < first + cases; ++k) {
                sh->cur = k; Rng r(seed, mode + "/" + ii->name, k);
                struct itimerval tv = {{0, 0}, {cpu_limit, 0}}; setitimer(ITIMER_PROF, &tv, 0);
                Case c; c.ii = ii; uint64_t h = md.run(r, c);
                bump(K_CASES); sh->done = k + 1;
                if (h && distinct.insert(h).second) bump(K_DISTINCT);
                if (k == first + 3 || (k == first && cases == 1)) emit(fmt("{\"t\":\"sample\",\"ind\":\"%s\",\"case\":%ld,\"what\":\"%s\"}", ii->name, k, esc(case_str(c)).c_str()));
            }
            struct itimerval tv = {{0, 0}, {0, 0}}; setitimer(ITIMER_PROF, &tv, 0);
        };
        if (nofork) { work(next); }
        else while (next < first + cases && crashes < 3) {
            int pe[2]; if (pipe(pe)) return 2;
            fflush(stdout); pid_t pid = fork();
            if (pid < 0) return 2;
            if (pid == 0) { dup2(pe[1], 2); close(pe[0]); close(pe[1]); struct rlimit nocore = {0, 0}; setrlimit(RLIMIT_CORE, &nocore); child_init(); work(next); child_done(); _exit(0); }
            close(pe[1]); string err; char buf[4096]; ssize_t g;
            while ((g = read(pe[0], buf, sizeof buf)) > 0) { if (err.size() < 60000) err.append(buf, g); }
            close(pe[0]); int st = 0; waitpid(pid, &st, 0);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { if (!err.empty() && md.stderr_is_report) { emit(fmt("{\"t\":\"stderr\",\"ind\":\"%s\",\"case\":%ld,\"msg\":\"%s\"}", ii->name, sh->cur, esc(err.substr(0, 3000)).c_str())); } break; }
            if (WIFEXITED(st) && WEXITSTATUS(st) == 97) return 2;
            ++crashes; string how = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGPROF ? "hang" : WTERMSIG(st) == SIGKILL ? "killed" : fmt("signal%d", WTERMSIG(st))) : fmt("exit%d", WEXITSTATUS(st));
            emit(fmt("{\"t\":\"crash\",\"ind\":\"%s\",\"case\":%ld,\"how\":\"%s\",\"phase\":\"%s\",\"msg\":\"%s\"}", ii->name, sh->cur, how.c_str(), esc(sh->phase).c_str(), esc(err.substr(0, 4000)).c_str()));
            next = sh->cur + 1;
        }
        string s = fmt("{\"t\":\"stat\",\"ind\":\"%s\"", ii->name);
        for (int k = 0; k < K_COUNT; ++k) s += fmt(",\"%s\":%ld", ctr_name[k], sh->ctr[k]);
        emit(s + "}");
    }
    return 0;
}
