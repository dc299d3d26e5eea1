// Executable definitions of the indicators ("the specification"), written independently of the
// implementation style of the library: naive, window by window, no rolling state.
//
// Each model is a template over the number type R.  It is run once with long double (the expected
// value) and several times with Noisy (double arithmetic in which every *inexact* operation is
// perturbed by about 2^-41): the spread between the runs bounds what rounding can legitimately do
// to the answer, so ill-conditioned bars get a wide tolerance and well-conditioned ones a tight one.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <string>
#include <vector>

namespace spec {

typedef long double LD;

struct Noisy {
    double v;
    static thread_local uint64_t salt;
    static double jolt(double r) {
        if (r == 0 || !std::isfinite(r)) return r;
        uint64_t b; memcpy(&b, &r, 8);
        b = (b ^ salt) * 0x9E3779B97F4A7C15ull; b ^= b >> 29; b *= 0xBF58476D1CE4E5B9ull; b ^= b >> 32;
        double u = (double)(int64_t)b * (1.0 / 9223372036854775808.0); // [-1,1)
        return r + r * u * 0x1p-41;
    }
    static thread_local int run_no;
    // An unconditional perturbation, opposite in successive runs: marks a place where an implementation is entitled to round
    // even though the exact value happens to be representable.
    static double rough(double r) { return r + r * ((run_no & 1) ? 0x1p-41 : -0x1p-41) * (1 + 0.25 * (run_no >> 1)); }
    static thread_local uint64_t tick; // advances with every call, so equal values get unrelated perturbations
    static double fuzz(double r) { return jolt2(r, ++tick); }
    static double jolt2(double r, uint64_t k) { k = (k ^ salt) * 0x9E3779B97F4A7C15ull; k ^= k >> 29; k *= 0xBF58476D1CE4E5B9ull; k ^= k >> 32; return r + r * ((double)(int64_t)k * (1.0 / 9223372036854775808.0)) * 0x1p-41; }
    // Sign patterns of the four runs: all down, all up, alternating, alternating the other way.
    static bool sign(uint64_t i) { return run_no < 2 ? run_no & 1 : (i ^ run_no) & 1; }
    Noisy() : v(0) {}
    Noisy(double x) : v(x) {}
    Noisy(int x) : v(x) {}
    Noisy(LD x) : v((double)x) { if ((LD)v != x) v = jolt(v); }
    explicit operator double() const { return v; }
    explicit operator LD() const { return v; }
    explicit operator int() const { return (int)v; }
    explicit operator bool() const { return v != 0; }
    friend Noisy operator+(Noisy a, Noisy b) {
        double s = a.v + b.v;
        double bb = s - a.v, err = (a.v - (s - bb)) + (b.v - bb);
        return Noisy(err == 0 ? s : jolt(s));
    }
    friend Noisy operator-(Noisy a, Noisy b) { return a + Noisy(-b.v); }
    friend Noisy operator*(Noisy a, Noisy b) {
        double p = a.v * b.v;
        return Noisy(std::fma(a.v, b.v, -p) == 0 ? p : jolt(p));
    }
    friend Noisy operator/(Noisy a, Noisy b) {
        double q = a.v / b.v;
        return Noisy(std::fma(q, b.v, -a.v) == 0 ? q : jolt(q));
    }
    Noisy operator-() const { return Noisy(-v); }
    Noisy& operator+=(Noisy b) { return *this = *this + b; }
    Noisy& operator-=(Noisy b) { return *this = *this - b; }
    Noisy& operator*=(Noisy b) { return *this = *this * b; }
    Noisy& operator/=(Noisy b) { return *this = *this / b; }
    friend bool operator<(Noisy a, Noisy b) { return a.v < b.v; }
    friend bool operator>(Noisy a, Noisy b) { return a.v > b.v; }
    friend bool operator<=(Noisy a, Noisy b) { return a.v <= b.v; }
    friend bool operator>=(Noisy a, Noisy b) { return a.v >= b.v; }
    friend bool operator==(Noisy a, Noisy b) { return a.v == b.v; }
    friend bool operator!=(Noisy a, Noisy b) { return a.v != b.v; }
};
#define NFUN1(f) inline Noisy f(Noisy a) { return Noisy(Noisy::jolt(std::f(a.v))); } inline LD f(LD a) { return std::f(a); }
NFUN1(exp) NFUN1(log) NFUN1(sin) NFUN1(cos) NFUN1(tan) NFUN1(atan) NFUN1(asin) NFUN1(acos)
NFUN1(sinh) NFUN1(cosh) NFUN1(tanh) NFUN1(log10)
inline Noisy sqrt(Noisy a) { double s = std::sqrt(a.v); return Noisy(std::fma(s, s, -a.v) == 0 ? s : Noisy::jolt(s)); }
inline LD sqrt(LD a) { return std::sqrt(a); }
inline Noisy fabs(Noisy a) { return Noisy(std::fabs(a.v)); }
inline LD fabs(LD a) { return std::fabs(a); }
inline Noisy floor(Noisy a) { return Noisy(std::floor(a.v)); }
inline LD floor(LD a) { return std::floor(a); }
inline Noisy ceil(Noisy a) { return Noisy(std::ceil(a.v)); }
inline LD ceil(LD a) { return std::ceil(a); }
inline Noisy pow(Noisy a, Noisy b) { return Noisy(Noisy::jolt(std::pow(a.v, b.v))); }
inline LD pow(LD a, LD b) { return std::pow(a, b); }
inline Noisy rough(Noisy a) { return Noisy(Noisy::rough(a.v)); }
inline LD rough(LD a) { return a; }
inline Noisy fuzz(Noisy a) { return Noisy(Noisy::fuzz(a.v)); }
inline LD fuzz(LD a) { return a; }
// What a rolling sum is entitled to have accumulated in rounding: zero in the exact run, a random fraction of `s` otherwise.
inline Noisy drift(Noisy s) { double d = std::fabs(Noisy::fuzz(s.v) - s.v) * 0.25 + std::fabs(s.v) * 0x1p-45; return Noisy(Noisy::sign(Noisy::tick) ? d : -d); }
// A sign or angle the data leave open: both extremes are tried.
inline Noisy coin(Noisy a, Noisy b, int i) { return Noisy::sign(i) ? a : b; }
inline LD coin(LD a, LD, int) { return a; }
inline LD drift(LD) { return 0; }
// The same with a fixed size, up in the second run and down in the first.
inline Noisy swing(Noisy s) { double d = std::fabs(s.v) * 0x1p-40; return Noisy::run_no == 1 ? Noisy(d) : Noisy::run_no == 0 ? Noisy(-d) : drift(s); }
inline LD swing(LD) { return 0; }
template<class R> R undefined() { return R(std::numeric_limits<double>::quiet_NaN()); }
template<class R> R rmax(R a, R b) { return a > b ? a : b; }
template<class R> R rmin(R a, R b) { return a < b ? a : b; }
template<class R> R sq(R a) { return a * a; }

template<class R> struct Env {
    int n = 0;                          // bars
    std::vector<std::vector<R>> in;     // in[k][i]
    const double* o = nullptr;          // raw options
    std::vector<R> aux;                 // optional: a hidden quantity that must be determined for the bar to be (a window length, a period)
    std::vector<std::vector<R>> out;    // out[k][i], absolute bar index; only i >= start is meaningful
    int P(int k) const { return (int)o[k]; }
};

struct Model {
    std::string name;
    // Option validity and number of bars consumed before the first output.
    bool (*valid)(const double* o);
    int (*start)(const double* o);
    void (*run_ld)(Env<LD>&);
    void (*run_noisy)(Env<Noisy>&);
};
std::map<std::string, Model>& registry();
struct Reg { Reg(const char* n, bool (*v)(const double*), int (*s)(const double*), void (*a)(Env<LD>&), void (*b)(Env<Noisy>&)) { registry()[n] = Model{n, v, s, a, b}; } };

inline int OI(const double* o, int k) { return (int)o[k]; }

// DEF(name, validity of options, start) { body }: body sees R, e (Env<R>), n, x = first input.
#define DEF(NAME, VALID, START) \
    struct M_##NAME { \
        static bool valid(const double* o) { (void)o; auto P = [o](int k) { return (int)o[k]; }; (void)P; return (VALID); } \
        static int start(const double* o) { (void)o; auto P = [o](int k) { return (int)o[k]; }; (void)P; return (START); } \
        template<class R> static void run(Env<R>& e); \
    }; \
    static Reg reg_##NAME(#NAME, M_##NAME::valid, M_##NAME::start, M_##NAME::run<LD>, M_##NAME::run<Noisy>); \
    template<class R> void M_##NAME::run(Env<R>& e)

template<class R> using Vec = std::vector<R>;

// ---- building blocks ----
template<class R> R wsum(const Vec<R>& x, int i, int p) { R s = 0; for (int j = i - p + 1; j <= i; ++j) s += x[j]; return s; }
template<class R> R wmean(const Vec<R>& x, int i, int p) { R m = wsum(x, i, p) / R(p); return p & (p - 1) ? fuzz(m) : m; } // or the sum times 1/p: that rounds even where the mean is exact
template<class R> R wmax(const Vec<R>& x, int i, int p) { R m = x[i]; for (int j = std::max(0, i - p + 1); j <= i; ++j) if (x[j] > m) m = x[j]; return m; }
template<class R> R wmin(const Vec<R>& x, int i, int p) { R m = x[i]; for (int j = std::max(0, i - p + 1); j <= i; ++j) if (x[j] < m) m = x[j]; return m; }
// Population variance, floored at zero.  mean(x^2) - mean(x)^2 is an accepted way to evaluate it, so the Noisy runs shift it by what that
// form may lose: a share of the largest square seen so far, up in one run and down in another.
template<class R> Vec<R> hist(const Vec<R>& x) { Vec<R> h(x.size()); R m = 0; for (size_t j = 0; j < x.size(); ++j) h[j] = m = rmax(m, fabs(x[j])); return h; } // largest magnitude seen so far
template<class R> R wvar(const Vec<R>& x, int i, int p, const Vec<R>& h) { R m = wmean(x, i, p), s = 0; for (int j = i - p + 1; j <= i; ++j) s += sq(x[j] - m); R v = s / R(p) + swing(sq(h[i])); return v < R(0) ? R(0) : v; }
template<class R> R wlin(const Vec<R>& x, int i, int p) { R s = 0; for (int j = 0; j < p; ++j) s += x[i - p + 1 + j] * R(j + 1); return s / (R(p) * R(p + 1) / R(2)); }
template<class R> Vec<R> ema_from(const Vec<R>& x, R k, int from = 0) { // seeded with x[from]
    Vec<R> y(x.size());
    for (int i = from; i < (int)x.size(); ++i) y[i] = i == from ? x[i] : fuzz(y[i - 1] + k * (x[i] - y[i - 1])); // k * x + (1 - k) * y is as good a way, and rounds even where x equals y
    return y;
}
// The same of a difference of terms as large as `s`: (a - b) - y may be evaluated as a - (b + y), which rounds at the size of a.
template<class R> Vec<R> ema_of_diff(const Vec<R>& x, R k, int from, const Vec<R>& s) {
    Vec<R> y(x.size());
    for (int i = from; i < (int)x.size(); ++i) y[i] = i == from ? x[i] : y[i - 1] + k * (x[i] - y[i - 1] + (y[i - 1] != R(0) ? drift(s[i]) : R(0)));
    return y;
}
template<class R> Vec<R> ema(const Vec<R>& x, int p, int from = 0) { return ema_from(x, R(2) / R(p + 1), from); }
template<class R> R truerange(const Vec<R>& h, const Vec<R>& l, const Vec<R>& c, int i) {
    R v = h[i] - l[i];
    if (i == 0) return v;
    v = rmax(v, fabs(h[i] - c[i - 1]));
    v = rmax(v, fabs(l[i] - c[i - 1]));
    return v;
}

} // namespace spec
