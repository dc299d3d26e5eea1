// Case generation: options, sizes and inputs, all a function of (seed, stream name, indicator, case number).
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
extern "C" {
#include "indicators.h"
}
#include "model.hpp"

struct Rng {
    uint64_t s[2];
    static uint64_t mix(uint64_t z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    Rng(uint64_t seed, const std::string& tag, uint64_t no) {
        uint64_t h = 1469598103934665603ull; for (unsigned char c : tag) h = (h ^ c) * 1099511628211ull;
        s[0] = mix(seed * 0x1000193 + h); s[1] = mix(s[0] ^ mix(no + 77));
        for (int i = 0; i < 4; ++i) next();
    }
    uint64_t next() { uint64_t a = s[0], b = s[1]; s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 18) ^ (b >> 5); return s[1] + b; }
    int below(int n) { return n <= 1 ? 0 : (int)(next() % (uint64_t)n); }
    int range(int a, int b) { return a + below(b - a + 1); }
    double unit() { return (next() >> 11) * 0x1p-53; }
    double real(double a, double b) { return a + (b - a) * unit(); }
    bool chance(double p) { return unit() < p; }
};

// ---- option domains -------------------------------------------------------------------------
// One token per option: p = period, pA:B = integer in [A,B], e = even 2..40, rA:B = real in [A,B]
// (half the time rounded to a multiple of 1/16), o = odd integer 1..15.
inline const std::map<std::string, std::string>& option_domains() {
    static const std::map<std::string, std::string> d = {
        {"arsi", "r0.05:3"}, {"bbands", "p r0:4"}, {"ce", "p r0:5"}, {"evwma", "p r0.5:4"},
        {"frama", "e p2:200"}, {"gf1", "e"}, {"gf2", "e"}, {"gf3", "e"}, {"gf4", "e"}, {"bf2", "e"}, {"bf3", "e"},
        {"hf", "p1:12 r0:4"}, {"hfsma", "p p1:8 r0:4"}, {"hfema", "p p1:8 r0:4"}, {"hwma", "p7:13"},
        {"hurst", "p2:24"}, {"idwma", "p r1:2"}, {"kc", "p r0:4"}, {"lf", "r0:0.95"}, {"mama", "r0.05:1 r0:0.3"},
        {"mesastoch", "p p6:60"}, {"mgdyn", "r2:30"}, {"psar", "r0.005:0.1 r0.1:0.6"}, {"pwma", "p r-2:3"},
        {"rema", "p r0:4"}, {"rmf", "p5:60 o"}, {"rmta", "p r0.05:1"}, {"t3", "p r0:1.2"},
        {"vidya", "p p r0:1"}, {"kst", "p p p p p p p p"}, {"copp", "p p p"}, {"rvi", "p p"}, {"edcf", "p1:30"}, {"msw", "p"},
        {"stoch", "p p1:20 p1:20"}, {"ichi", "p p p"}, {"ultosc", "p p p"}, {"macd", "p p p"}, {"smi", "p p p"}, {"posc", "p p"},
    };
    return d;
}
static double huge_periods = 0; // how often a period is far beyond what anyone charts (a mode that affords it raises this)
static double odd_reals = 0; // how often a factor (an option that is no period) is far from the usual ones
static double giant_periods = 0; // how often a period exceeds any history at hand
inline int gen_period(Rng& r) {
    if (giant_periods > 0 && r.chance(giant_periods)) return r.chance(0.5) ? r.range(30000, 40000) : r.range(60000, 200000);
    if (huge_periods > 0 && r.chance(huge_periods)) return r.chance(0.8) ? r.range(256, 1100) : r.range(1100, 5000);
    double u = r.unit();
    if (u < 0.25) return r.range(1, 5);
    if (u < 0.70) return r.range(4, 20);
    if (u < 0.95) return r.range(16, 64);
    if (u < 0.995) return r.range(60, 160);
    return r.range(160, 700);
}
inline double gen_token(Rng& r, const std::string& t) {
    double a = 0, b = 0;
    bool far = r.chance(0.03); // a value beyond the usual ones, if the indicator accepts it
    if (t[0] == 'e') return far ? 2 * r.range(20, 120) : 2 * r.range(1, 20);
    if (t[0] == 'o') return 2 * r.range(0, far ? 40 : 7) + 1;
    if (t[0] == 'p') {
        if (t.size() == 1) return gen_period(r);
        sscanf(t.c_str() + 1, "%lf:%lf", &a, &b);
        return r.range((int)a, far ? 4 * (int)b : (int)b);
    }
    sscanf(t.c_str() + 1, "%lf:%lf", &a, &b);
    if (odd_reals > 0 && r.chance(odd_reals)) { // a factor nobody charts; the definition says whether it is in the domain
        switch (r.below(6)) { case 0: return -r.real(a, b); case 1: return 0; case 2: return -std::round(r.real(1, 6)); case 3: return r.real(b, 100 * b + 1); case 4: return 1e-9; default: return r.chance(0.5) ? a : b; }
    }
    if (far) b += 3 * (b - a);
    double v = r.real(a, b);
    if (r.chance(0.5)) { double q = std::round(v * 16) / 16; if (q >= a && q <= b) v = q; }
    return v;
}
inline std::vector<std::string> tokens_of(const ti_indicator_info* ii) {
    std::vector<std::string> t;
    auto& d = option_domains(); auto it = d.find(ii->name);
    if (it == d.end()) { t.assign(ii->options, "p"); return t; }
    std::string s = it->second; size_t i = 0;
    while (i < s.size()) { size_t j = s.find(' ', i); if (j == std::string::npos) j = s.size(); t.push_back(s.substr(i, j - i)); i = j + 1; }
    t.resize(ii->options, "p");
    return t;
}
// Options inside the documented domain: valid by the definition and inside the table above.
inline bool gen_valid_options(Rng& r, const ti_indicator_info* ii, const spec::Model& m, std::vector<double>& o) {
    auto t = tokens_of(ii);
    for (int attempt = 0; attempt < 400; ++attempt) {
        o.clear(); for (auto& k : t) o.push_back(gen_token(r, k));
        if (attempt % 2 == 1) { // indicators that need ascending periods: sort the leading run of periods
            size_t run = 0; while (run < t.size() && t[run] == "p") ++run;
            if (!strcmp(ii->name, "kst")) run = 4;
            if (!strcmp(ii->name, "macd")) run = 2;
            std::sort(o.begin(), o.begin() + run);
        }
        o.resize(std::max<size_t>(1, o.size()), 0);
        if (m.valid(o.data())) return true;
    }
    return false;
}

// ---- inputs -----------------------------------------------------------------------------------
enum { SH_WALK, SH_JUMPY, SH_FLAT, SH_STEPS, SH_UP, SH_DOWN, SH_ZIGZAG, SH_WAVE, SH_TIES, SH_FLATTAIL, SH_FLATHEAD, SH_RAW, SH_SPIKE, SH_SIGNED, SH_LEVEL, SH_COUNT };
inline const char* shape_name(int s) {
    static const char* n[] = {"walk", "jumpy", "flat", "steps", "up", "down", "zigzag", "wave", "ties", "flattail", "flathead", "raw", "spike", "signed", "level"};
    return n[s];
}
inline double grid(double v, double g = 64) { return std::round(v * g) / g; }
inline std::vector<double> gen_series(Rng& r, int n, int shape) {
    std::vector<double> x(n); double v = grid(r.real(20, 400));
    double a = grid(r.real(20, 60)), b = grid(r.real(60, 200)), w = r.real(0.05, 1.5), amp = r.real(1, 15), vol = r.chance(0.5) ? 2 : r.real(0.1, 6);
    int cut = n > 0 ? r.below(n) : 0;
    for (int i = 0; i < n; ++i) {
        double step = grid(r.real(-vol, vol));
        switch (shape) {
            case SH_WALK: case SH_SPIKE: v += step; break;
            case SH_JUMPY: v += r.chance(0.15) ? grid(r.real(-60, 60)) : step; break;
            case SH_FLAT: break;
            case SH_STEPS: if (r.chance(0.12)) v += grid(r.real(-20, 20)); break;
            case SH_UP: v += std::fabs(step) + 1.0 / 64; break;
            case SH_DOWN: v -= 0; v = grid(v * (1 - r.unit() * 0.01)) ; break;
            case SH_ZIGZAG: v = (i & 1) ? a : b; break;
            case SH_WAVE: v = grid(b + amp * std::sin(w * i) + r.real(-0.5, 0.5)); break;
            case SH_TIES: v = 20 + r.below(4); break;
            case SH_FLATTAIL: if (i < cut) v += step; break;
            case SH_FLATHEAD: if (i >= cut) v += step; break;
            case SH_RAW: v = i ? v * (1 + r.real(-0.02, 0.02)) : r.real(20, 400); break;
            case SH_SIGNED: v = grid(r.real(-50, 50)); if (r.chance(0.05)) v = 0; break;
            case SH_LEVEL: v += step; if (i == cut) v += 4096; break;
        }
        if (shape != SH_SIGNED && v < 4) v = grid(8 + r.real(0, 4));
        x[i] = v;
        if (shape == SH_SPIKE && r.chance(0.02)) x[i] = v * 128;
    }
    return x;
}
inline int gen_shape(Rng& r, bool allow_signed) {
    for (;;) {
        double u = r.unit(); int s;
        if (u < 0.35) s = SH_WALK; else s = r.below(SH_COUNT);
        if (s == SH_SIGNED && !allow_signed) continue;
        return s;
    }
}
static double decimal_share = 0.15; // how often prices come in cents
struct Bars { std::vector<double> o, h, l, c, v; };
inline Bars gen_bars(Rng& r, int n, int shape) {
    Bars b; auto base = gen_series(r, n, shape);
    b.o.resize(n); b.h.resize(n); b.l.resize(n); b.c = base; b.v.resize(n);
    bool doji = r.chance(0.25), flatbars = (shape == SH_FLAT || shape == SH_STEPS) && r.chance(0.5), zerov = r.chance(0.25), raw = shape == SH_RAW, fracv = r.chance(0.15);
    double up = r.real(0, 3);
    for (int i = 0; i < n; ++i) {
        double c = b.c[i], o = flatbars ? c : (r.chance(0.5) && i ? b.c[i-1] : c + (raw ? r.real(-1, 1) : grid(r.real(-1, 1))));
        double hi = std::max(o, c), lo = std::min(o, c);
        if (!flatbars) {
            if (!(doji && r.chance(0.3))) hi += raw ? r.real(0, up) : grid(r.real(0, up));
            if (!(doji && r.chance(0.3))) lo -= raw ? r.real(0, up) : grid(r.real(0, up));
        }
        if (lo <= 0) { lo = std::min(o, c); }
        b.o[i] = o; b.h[i] = hi; b.l[i] = lo;
        b.v[i] = zerov && r.chance(0.15) ? 0 : fracv ? r.range(1, 640) / 64.0 : r.range(1, 5000);
        if (!raw && r.chance(0.1) && i) b.v[i] = b.v[i-1];
    }
    return b;
}
struct Case {
    const ti_indicator_info* ii = nullptr;
    std::vector<double> o; int n = 0; int shape = 0;
    std::vector<std::vector<double>> in;
};
inline bool near_ties(const std::string& n) { // turns on comparisons of computed prices, which decimals leave to the last bit
    static const std::set<std::string> s = {"mfi", "kvo", "cmi", "fisher", "psar", "posc", "cvi"};
    return s.count(n) > 0;
}
inline bool may_go_negative(const std::string& n) { // nothing in the definition divides by a price or takes its logarithm
    static const char* const names[] = {"atr", "tr", "stoch", "willr", "aroon", "aroonosc", "pc", "medprice", "typprice", "wcprice", "avgprice", "ao", "ce", "dm", "psar", "ichi", "smi", "qstick", "bop", "cci", "vosc", "vwma", "kc", "fisher", "ad", "adosc", "cmf", "wad", "cmi", "ultosc", "vi", "di", "dx", "adx", "adxr", "rmi", "frama", "pbands", "emv", "kvo", "fi", "obv", "mass", "cvi", "max", "min"};
    for (auto x : names) if (n == x) return true;
    return false;
}
inline void gen_inputs(Rng& r, Case& c) {
    const ti_indicator_info* ii = c.ii; std::string nm = ii->name;
    bool ohlc = false; for (int k = 0; k < ii->inputs; ++k) if (strcmp(ii->input_names[k], "series")) ohlc = true;
    bool simple = ii->type == TI_TYPE_SIMPLE;
    c.shape = simple ? SH_RAW : gen_shape(r, !ohlc && nm != "hurst" && nm != "volatility" && nm != "mgdyn");
    c.in.clear();
    if (simple) {
        for (int k = 0; k < ii->inputs; ++k) {
            std::vector<double> x(c.n);
            double lo = -1000, hi = 1000;
            if (nm == "acos" || nm == "asin") lo = -1, hi = 1;
            if (nm == "ln" || nm == "log10" || nm == "sqrt") lo = 0.001, hi = 1e6;
            if (nm == "exp" || nm == "sinh" || nm == "cosh" || nm == "tanh") lo = -20, hi = 20;
            if (nm == "tan" || nm == "sin" || nm == "cos") lo = -100, hi = 100;
            if (r.chance(0.12)) { // the range a double has beyond 32- and 64-bit integers
                static const double mag[] = {1e5, 2147483648.0, 1e10, 9007199254740992.0, 2e19, 1e100};
                double m = mag[r.below(6)];
                if (lo == -1000) { lo = -m; hi = m; } else if (lo == 0.001) { hi = m; }
            }
            bool ints = r.chance(0.2);
            for (auto& v : x) { v = r.real(lo, hi); if (ints || r.chance(0.15)) v = grid(v, 2); if (r.chance(0.02) && lo <= 0) v = 0; if (v < lo) v = hi; }
            c.in.push_back(x);
        }
        return;
    }
    Bars b = gen_bars(r, c.n, c.shape);
    bool cents = c.shape != SH_RAW && r.chance(decimal_share), cprice = cents && !near_ties(nm);
    if (c.shape != SH_RAW && !cents && r.chance(0.12)) { // other units: powers of two, so that ties and exact sums stay what they are
        double k = std::ldexp(1.0, r.range(-24, 20)), kv = std::ldexp(1.0, r.range(-12, 20));
        for (auto* s : {&b.o, &b.h, &b.l, &b.c}) for (auto& v : *s) v *= k;
        if (r.chance(0.5)) for (auto& v : b.v) v *= kv;
    }
    if (cents) { // prices in cents, volumes in hundredths: what feeds deliver, and what doubles cannot hold exactly
        if (cprice) for (auto* s : {&b.o, &b.h, &b.l, &b.c}) for (auto& v : *s) v = std::round(v * 100) / 100;
        if (r.chance(0.5)) for (auto& v : b.v) v = std::round(v * 10) / 100;
    }
    if (!cents && ohlc && may_go_negative(nm) && r.chance(0.06) && c.n) { double d = b.c[r.below(c.n)]; for (auto* s : {&b.o, &b.h, &b.l, &b.c}) for (auto& v : *s) v -= d; } // spreads and the like: prices around zero
    for (int k = 0; k < ii->inputs; ++k) {
        std::string in = ii->input_names[k];
        if (in == "open") c.in.push_back(b.o);
        else if (in == "high") c.in.push_back(b.h);
        else if (in == "low") c.in.push_back(b.l);
        else if (in == "close") c.in.push_back(b.c);
        else if (in == "volume") c.in.push_back(b.v);
        else if (k == 0) c.in.push_back(b.c);
        else { // a second series of a two-series function: independent, sometimes sharing values with the first
            auto x = gen_series(r, c.n, r.chance(0.5) ? c.shape : gen_shape(r, true));
            double d = c.n && r.chance(0.6) ? c.in[0][0] - x[0] : 0;
            for (int i = 0; i < c.n; ++i) { x[i] += d; if (r.chance(0.15)) x[i] = c.in[0][i]; }
            c.in.push_back(x);
        }
    }
}
static double long_share = 0; // how often a history of thousands of bars is drawn, set by the mode
inline int gen_size_any(Rng& r, int start, int typical, bool slow) {
    if (start > 20000) return r.below(200); // a window no test history can fill
    if (long_share > 0 && r.chance(long_share)) return std::max(0, start) + (slow ? r.range(300, 1200) : r.chance(0.12) ? r.range(65600, 70000) : r.range(2000, 9000));
    if (r.chance(0.008)) return std::max(0, start) + r.range(300, typical * 12);
    double u = r.unit();
    if (u < 0.06) return r.below(4);
    if (u < 0.16) return std::max(0, start + r.range(-2, 3));
    if (u < 0.30) return std::max(0, start) + r.range(1, 20);
    if (u < 0.33) return r.below(start + 8);
    return std::max(0, start) + r.range(20, typical);
}
// `slow` indicators take time quadratic in the period for every bar.
inline bool slow_one(const ti_indicator_info* ii) { return !strcmp(ii->name, "hurst") || !strcmp(ii->name, "edcf"); }
inline int gen_size(Rng& r, int start, int typical, bool slow) {
    int n = gen_size_any(r, start, typical, slow);
    if (start > 0 && (double)(n - start) * start > 2e7) n = start + (int)(2e7 / start);
    if (slow && start > 0 && (double)(n - start) * start * start > 1e8) n = start + (int)(1e8 / start / start);
    return n;
}
inline bool gen_case(Rng& r, const ti_indicator_info* ii, const spec::Model& m, Case& c, int typical = 160) {
    c.ii = ii;
    if (!gen_valid_options(r, ii, m, c.o)) return false;
    c.n = gen_size(r, m.start(c.o.data()), typical, slow_one(ii));
    gen_inputs(r, c);
    return true;
}
