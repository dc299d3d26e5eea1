#include "model.hpp"
namespace spec {
#define X e.in[0]
#define Y e.in[1]
#define N e.n
#define OUT e.out[0]

// ---------------- element-wise ----------------
#define EL1(NAME, EXPR) DEF(NAME, true, 0) { for (int i = 0; i < N; ++i) { R a = X[i]; OUT[i] = (EXPR); } }
#define EL2(NAME, EXPR) DEF(NAME, true, 0) { for (int i = 0; i < N; ++i) { R a = X[i], b = Y[i]; OUT[i] = (EXPR); } }
EL2(add, a + b) EL2(sub, a - b) EL2(mul, a * b) EL2(div, a / b)
EL1(abs, fabs(a)) EL1(acos, acos(a)) EL1(asin, asin(a)) EL1(atan, atan(a)) EL1(ceil, ceil(a)) EL1(cos, cos(a))
EL1(cosh, cosh(a)) EL1(exp, exp(a)) EL1(floor, floor(a)) EL1(ln, log(a)) EL1(log10, log10(a))
EL1(round, floor(a + R(0.5))) EL1(sin, sin(a)) EL1(sinh, sinh(a)) EL1(sqrt, sqrt(a)) EL1(tan, tan(a)) EL1(tanh, tanh(a))
EL1(todeg, a * R(180) / R(3.14159265358979323846264338327950288L)) EL1(torad, a * R(3.14159265358979323846264338327950288L) / R(180))
EL1(trunc, a < R(0) ? ceil(a) : floor(a))

// ---------------- crossing, lags, decay ----------------
DEF(crossover, true, 1) { for (int i = 1; i < N; ++i) OUT[i] = (X[i] > Y[i] && X[i-1] <= Y[i-1]) ? 1 : 0; }
DEF(crossany, true, 1) { for (int i = 1; i < N; ++i) OUT[i] = ((X[i] > Y[i] && X[i-1] <= Y[i-1]) || (X[i] < Y[i] && X[i-1] >= Y[i-1])) ? 1 : 0; }
DEF(lag, P(0) >= 0, P(0)) { int p = e.P(0); for (int i = p; i < N; ++i) OUT[i] = X[i-p]; }
DEF(decay, P(0) >= 1, 0) { R s = R(1) / R(e.P(0)); for (int i = 0; i < N; ++i) OUT[i] = i == 0 ? X[0] : rmax(X[i], OUT[i-1] - s); }
DEF(edecay, P(0) >= 1, 0) { R s = R(1) - R(1) / R(e.P(0)); for (int i = 0; i < N; ++i) OUT[i] = i == 0 ? X[0] : rmax(X[i], OUT[i-1] * s); }

// ---------------- price transforms ----------------
DEF(medprice, true, 0) { for (int i = 0; i < N; ++i) OUT[i] = (e.in[0][i] + e.in[1][i]) / R(2); }
DEF(typprice, true, 0) { for (int i = 0; i < N; ++i) OUT[i] = (e.in[0][i] + e.in[1][i] + e.in[2][i]) / R(3); }
DEF(wcprice, true, 0) { for (int i = 0; i < N; ++i) OUT[i] = (e.in[0][i] + e.in[1][i] + R(2) * e.in[2][i]) / R(4); }
DEF(avgprice, true, 0) { for (int i = 0; i < N; ++i) OUT[i] = (e.in[0][i] + e.in[1][i] + e.in[2][i] + e.in[3][i]) / R(4); }
DEF(marketfi, true, 0) { for (int i = 0; i < N; ++i) OUT[i] = e.in[2][i] != R(0) ? (e.in[0][i] - e.in[1][i]) / e.in[2][i] : R(0); }
DEF(bop, true, 0) { for (int i = 0; i < N; ++i) { R hl = e.in[1][i] - e.in[2][i]; OUT[i] = hl > R(0) ? (e.in[3][i] - e.in[0][i]) / hl : R(0); } }
DEF(tr, true, 0) { for (int i = 0; i < N; ++i) OUT[i] = truerange(e.in[0], e.in[1], e.in[2], i); }
DEF(emv, true, 1) {
    for (int i = 1; i < N; ++i) {
        R d = (e.in[0][i] + e.in[1][i]) / R(2) - (e.in[0][i-1] + e.in[1][i-1]) / R(2);
        R box = e.in[2][i] / R(10000) / (e.in[0][i] - e.in[1][i]);
        OUT[i] = d != R(0) ? d / box : R(0);
    }
}

// ---------------- volume accumulation ----------------
template<class R> R clv(const Vec<R>& h, const Vec<R>& l, const Vec<R>& c, int i) {
    R hl = h[i] - l[i];
    return hl != R(0) ? ((c[i] - l[i]) - (h[i] - c[i])) / hl : R(0);
}
DEF(ad, true, 0) { R s = 0; for (int i = 0; i < N; ++i) { s += clv(e.in[0], e.in[1], e.in[2], i) * e.in[3][i]; OUT[i] = s; } }
DEF(obv, true, 0) { R s = 0; for (int i = 0; i < N; ++i) { if (i) { if (X[i] > X[i-1]) s += Y[i]; else if (X[i] < X[i-1]) s -= Y[i]; } OUT[i] = s; } }
DEF(nvi, true, 0) { R v = 1000; for (int i = 0; i < N; ++i) { if (i && Y[i] < Y[i-1]) v = v + v * ((X[i] - X[i-1]) / X[i-1]); OUT[i] = v; } }
DEF(pvi, true, 0) { R v = 1000; for (int i = 0; i < N; ++i) { if (i && Y[i] > Y[i-1] && Y[i-1] > R(0)) v = v + v * ((X[i] - X[i-1]) / X[i-1]); OUT[i] = v; } }
DEF(wad, true, 1) {
    auto &h = e.in[0], &l = e.in[1], &c = e.in[2]; R s = 0;
    for (int i = 1; i < N; ++i) {
        if (c[i] > c[i-1]) s += c[i] - rmin(c[i-1], l[i]);
        else if (c[i] < c[i-1]) s += c[i] - rmax(c[i-1], h[i]);
        OUT[i] = s;
    }
}
DEF(adosc, P(0) >= 1 && P(1) >= P(0), P(1) - 1) {
    Vec<R> a(N); R s = 0;
    for (int i = 0; i < N; ++i) { s += clv(e.in[0], e.in[1], e.in[2], i) * e.in[3][i]; a[i] = s; }
    auto f = ema(a, e.P(0)), g = ema(a, e.P(1));
    for (int i = 0; i < N; ++i) OUT[i] = f[i] - g[i];
}
DEF(cmf, P(0) >= 1, P(0) - 1) {
    int p = e.P(0); Vec<R> a(N);
    for (int i = 0; i < N; ++i) a[i] = clv(e.in[0], e.in[1], e.in[2], i) * e.in[3][i];
    for (int i = p - 1; i < N; ++i) { R v = wsum(e.in[3], i, p); OUT[i] = v != R(0) ? wsum(a, i, p) / v : R(0); }
}
DEF(mfi, P(0) >= 1, P(0)) {
    int p = e.P(0); Vec<R> t(N), u(N), d(N);
    for (int i = 0; i < N; ++i) {
        t[i] = (e.in[0][i] + e.in[1][i] + e.in[2][i]);
        if (i) { R m = t[i] / R(3) * e.in[3][i]; if (t[i] > t[i-1]) u[i] = m; else if (t[i] < t[i-1]) d[i] = m; }
        if (i >= p) { R su = wsum(u, i, p), sd = wsum(d, i, p); OUT[i] = su + sd != R(0) ? R(100) * (su / (su + sd)) : undefined<R>(); } // a window without money flow has no index
    }
}
DEF(vwma, P(0) >= 1, P(0) - 1) {
    int p = e.P(0); Vec<R> a(N); for (int i = 0; i < N; ++i) a[i] = X[i] * Y[i];
    for (int i = p - 1; i < N; ++i) { R s = wsum(a, i, p); R w = wsum(Y, i, p); OUT[i] = w != R(0) ? s / w : R(0); }
}
DEF(vosc, P(0) >= 1 && P(1) >= P(0), P(1) - 1) {
    for (int i = e.P(1) - 1; i < N; ++i) { R s = wmean(X, i, e.P(0)), l = wmean(X, i, e.P(1)); OUT[i] = s - l != R(0) ? R(100) * (s - l) / l : R(0); }
}

// ---------------- moving averages ----------------
DEF(sma, P(0) >= 1, P(0) - 1) { int p = e.P(0); for (int i = p - 1; i < N; ++i) OUT[i] = wmean(X, i, p); }
DEF(sum, P(0) >= 1, P(0) - 1) { int p = e.P(0); for (int i = p - 1; i < N; ++i) OUT[i] = wsum(X, i, p); }
DEF(ema, P(0) >= 1, 0) { OUT = ema(X, e.P(0)); }
DEF(wma, P(0) >= 1, P(0) - 1) { int p = e.P(0); for (int i = p - 1; i < N; ++i) OUT[i] = wlin(X, i, p); }
DEF(wilders, P(0) >= 1, P(0) - 1) { int p = e.P(0); for (int i = p - 1; i < N; ++i) OUT[i] = i == p - 1 ? wmean(X, i, p) : OUT[i-1] + (X[i] - OUT[i-1]) / R(p); }
DEF(dema, P(0) >= 1, (P(0) - 1) * 2) { int p = e.P(0); auto a = ema(X, p), b = ema(a, p, p - 1); for (int i = 2 * (p - 1); i < N; ++i) OUT[i] = a[i] * R(2) - b[i]; }
DEF(tema, P(0) >= 1, (P(0) - 1) * 3) {
    int p = e.P(0); auto a = ema(X, p), b = ema(a, p, p - 1), c = ema(b, p, 2 * p - 2);
    for (int i = 3 * (p - 1); i < N; ++i) OUT[i] = R(3) * a[i] - R(3) * b[i] + c[i];
}
DEF(trix, P(0) >= 1, (P(0) - 1) * 3 + 1) {
    int p = e.P(0); auto a = ema(X, p), b = ema(a, p, p - 1), c = ema(b, p, 2 * p - 2);
    for (int i = 3 * (p - 1) + 1; i < N; ++i) OUT[i] = c[i] != R(0) ? R(100) * (c[i] - c[i-1]) / c[i] : R(0);
}
DEF(zlema, P(0) >= 1, std::max(0, (P(0) - 1) / 2 - 1)) {
    int lag = (e.P(0) - 1) / 2, s = std::max(0, lag - 1); R k = R(2) / R(e.P(0) + 1);
    for (int i = s; i < N; ++i) OUT[i] = i == s ? X[i] : OUT[i-1] + k * ((X[i] + (X[i] - X[i-lag])) - OUT[i-1]);
}
DEF(rmta, P(0) >= 1, P(0) - 1) {
    R beta = e.o[1], b = 0, r = 0;
    for (int i = 0; i < N; ++i) {
        if (i == 0) { b = beta * X[0] + X[0]; r = beta * X[0] + (R(1) - beta) * (X[0] + b); }
        else { R nb = beta * b + X[i]; r = beta * r + (R(1) - beta) * (X[i] + nb - b); b = nb; }
        OUT[i] = r;
    }
}
DEF(kama, P(0) >= 1, P(0) - 1) {
    int p = e.P(0); Vec<R> d(N); for (int i = 1; i < N; ++i) d[i] = fabs(X[i] - X[i-1]);
    R fast = R(2) / R(3), slow = R(2) / R(31);
    for (int i = p - 1; i < N; ++i) {
        if (i == p - 1) { OUT[i] = X[i]; continue; }
        R s = wsum(d, i, p), er = s != R(0) ? fabs(X[i] - X[i-p]) / s : R(1);
        R sc = sq(er * (fast - slow) + slow);
        OUT[i] = OUT[i-1] + sc * (X[i] - OUT[i-1]);
    }
}

// ---------------- regression ----------------
template<class R> void linfit(const Vec<R>& x, int i, int p, R& slope, R& at0) { // abscissae 1..p, at0 = value at abscissa 0
    R mx = R(p + 1) / R(2), my = wmean(x, i, p), sxy = 0, sxx = 0;
    for (int j = 0; j < p; ++j) { R dx = R(j + 1) - mx; sxy += dx * (x[i - p + 1 + j] - my); sxx += dx * dx; }
    slope = p > 1 ? sxy / sxx : R(0); at0 = my - slope * mx;
}
DEF(linreg, P(0) >= 1, P(0) - 1) { int p = e.P(0); for (int i = p - 1; i < N; ++i) { R b, a; linfit(X, i, p, b, a); OUT[i] = a + b * R(p); } }
DEF(linregintercept, P(0) >= 1, P(0) - 1) { int p = e.P(0); for (int i = p - 1; i < N; ++i) { R b, a; linfit(X, i, p, b, a); OUT[i] = a + b; } }
DEF(linregslope, P(0) >= 1, P(0) - 1) { int p = e.P(0); auto big = hist(X); for (int i = p - 1; i < N; ++i) { R b, a; linfit(X, i, p, b, a); OUT[i] = b + drift(big[i]) * R(8) / R(p); } }
DEF(tsf, P(0) >= 1, P(0) - 1) { int p = e.P(0); for (int i = p - 1; i < N; ++i) { R b, a; linfit(X, i, p, b, a); OUT[i] = a + b * R(p + 1); } }
DEF(fosc, P(0) >= 1, P(0)) {
    int p = e.P(0); Vec<R> h = hist(X); // the fit is made of running sums over everything seen
    for (int i = p; i < N; ++i) { R b, a; linfit(X, i - 1, p, b, a); R f = a + b * R(p + 1) + R(8) * drift(h[i-1]); OUT[i] = X[i] - f != R(0) ? R(100) * (X[i] - f) / X[i] : R(0); }
}

// ---------------- rates, oscillators ----------------
DEF(mom, P(0) >= 1, P(0)) { int p = e.P(0); for (int i = p; i < N; ++i) OUT[i] = X[i] - X[i-p]; }
DEF(roc, P(0) >= 1, P(0)) { int p = e.P(0); for (int i = p; i < N; ++i) OUT[i] = X[i-p] != R(0) ? (X[i] - X[i-p]) / X[i-p] : R(0); }
DEF(rocr, P(0) >= 1, P(0)) { int p = e.P(0); for (int i = p; i < N; ++i) OUT[i] = X[i-p] != R(0) ? X[i] / X[i-p] : R(0); }
DEF(qstick, P(0) >= 1, P(0) - 1) { int p = e.P(0); Vec<R> d(N); for (int i = 0; i < N; ++i) d[i] = Y[i] - X[i]; for (int i = p - 1; i < N; ++i) OUT[i] = wmean(d, i, p); }
DEF(dpo, P(0) >= 1, std::max(P(0) - 1, P(0) / 2 + 1)) { int p = e.P(0), b = p / 2 + 1; for (int i = std::max(p - 1, b); i < N; ++i) OUT[i] = X[i-b] - wmean(X, i, p); }
DEF(apo, P(0) >= 1 && P(1) >= 2 && P(1) >= P(0), 1) { auto a = ema(X, e.P(0)), b = ema(X, e.P(1)); for (int i = 1; i < N; ++i) OUT[i] = a[i] - b[i]; }
DEF(ppo, P(0) >= 1 && P(1) >= 2 && P(1) >= P(0), 1) { auto a = ema(X, e.P(0)), b = ema(X, e.P(1)); for (int i = 1; i < N; ++i) OUT[i] = a[i] - b[i] != R(0) ? R(100) * (a[i] - b[i]) / b[i] : R(0); }
template<class R> R up(const Vec<R>& x, int i) { return x[i] > x[i-1] ? x[i] - x[i-1] : R(0); }
template<class R> R dn(const Vec<R>& x, int i) { return x[i] < x[i-1] ? x[i-1] - x[i] : R(0); }
DEF(cmo, P(0) >= 1, P(0)) {
    int p = e.P(0);
    for (int i = p; i < N; ++i) { R u = 0, d = 0; for (int j = i - p + 1; j <= i; ++j) { u += up(X, j); d += dn(X, j); } OUT[i] = u + d != R(0) ? R(100) * (u - d) / (u + d) : R(0); }
}
template<class R> Vec<R> rsi_of(const Vec<R>& x, int p) {
    int n = x.size(); Vec<R> out(n); R su = 0, sd = 0;
    for (int i = 1; i < n; ++i) {
        if (i <= p) { su += up(x, i); sd += dn(x, i); if (i == p) { su = su / R(p); sd = sd / R(p); } }
        else { su = su + (up(x, i) - su) / R(p); sd = sd + (dn(x, i) - sd) / R(p); }
        if (i >= p) out[i] = su != R(0) ? R(100) * (su / (su + sd)) : R(0);
    }
    return out;
}
DEF(rsi, P(0) >= 1, P(0)) { OUT = rsi_of(X, e.P(0)); }
DEF(stochrsi, P(0) >= 2, P(0) * 2 - 1) {
    int p = e.P(0); auto r = rsi_of(X, p); for (int i = 0; i < N; i += 2) r[i] = rough(r[i]);
    for (int i = 2 * p - 1; i < N; ++i) { R lo = r[i], hi = r[i]; for (int j = i - p + 1; j <= i; ++j) { lo = rmin(lo, r[j]); hi = rmax(hi, r[j]); } OUT[i] = hi - lo != R(0) ? (r[i] - lo) / (hi - lo) : R(0);
        if (hi - lo < R(1e-8) && lo > R(0) && hi < R(100)) OUT[i] = coin(R(0), R(1), i); } // flat prices: the index moves by rounding only
}
DEF(var, P(0) >= 1, P(0) - 1) { int p = e.P(0); auto big = hist(X); for (int i = p - 1; i < N; ++i) OUT[i] = wvar(X, i, p, big); }
DEF(stddev, P(0) >= 1, P(0) - 1) { int p = e.P(0); auto big = hist(X); for (int i = p - 1; i < N; ++i) OUT[i] = sqrt(wvar(X, i, p, big)); }
DEF(stderr, P(0) >= 1, P(0) - 1) { int p = e.P(0); auto big = hist(X); for (int i = p - 1; i < N; ++i) OUT[i] = sqrt(wvar(X, i, p, big)) / sqrt(R(p)); }
DEF(md, P(0) >= 1, P(0) - 1) { int p = e.P(0); for (int i = p - 1; i < N; ++i) { R m = wmean(X, i, p), s = 0; for (int j = i - p + 1; j <= i; ++j) s += fabs(X[j] - m); OUT[i] = s / R(p); } }
DEF(volatility, P(0) >= 1, P(0)) {
    int p = e.P(0); Vec<R> c(N); for (int i = 1; i < N; ++i) c[i] = X[i-1] != R(0) ? X[i] / X[i-1] - R(1) : R(0);
    auto big = hist(c); for (int i = p; i < N; ++i) OUT[i] = sqrt(wvar(c, i, p, big)) * sqrt(R(252));
}
DEF(bbands, P(0) >= 1, P(0) - 1) {
    int p = e.P(0); R k = e.o[1]; auto big = hist(X);
    for (int i = p - 1; i < N; ++i) { R m = wmean(X, i, p), s = sqrt(wvar(X, i, p, big)); e.out[0][i] = m - k * s; e.out[1][i] = m; e.out[2][i] = m + k * s; }
}
DEF(cci, P(0) >= 1, (P(0) - 1) * 2) {
    int p = e.P(0); Vec<R> t(N); for (int i = 0; i < N; ++i) t[i] = (e.in[0][i] + e.in[1][i] + e.in[2][i]) / R(3);
    auto big = hist(t);
    for (int i = 2 * (p - 1); i < N; ++i) { R m = rough(wmean(t, i, p)) + drift(big[i]), s = 0; for (int j = i - p + 1; j <= i; ++j) s += fabs(t[j] - m); s = s / R(p) * R(15) / R(1000); OUT[i] = s != R(0) ? (t[i] - m) / s : R(0); }
}
DEF(cvi, P(0) >= 1, P(0) * 2 - 1) {
    int p = e.P(0); Vec<R> d(N); for (int i = 0; i < N; ++i) d[i] = X[i] - Y[i]; auto a = ema(d, p);
    for (int i = 2 * p - 1; i < N; ++i) OUT[i] = a[i] - a[i-p] != R(0) ? R(100) * (a[i] - a[i-p]) / a[i-p] : R(0);
}
DEF(mass, P(0) >= 1, P(0) + 15) {
    int p = e.P(0); Vec<R> d(N), q(N); for (int i = 0; i < N; ++i) d[i] = X[i] - Y[i];
    auto a = ema(d, 9), b = ema(a, 9, 8);
    for (int i = 16; i < N; ++i) q[i] = a[i] != R(0) ? a[i] / b[i] : R(0);
    for (int i = 15 + p; i < N; ++i) OUT[i] = wsum(q, i, p);
}
DEF(ao, true, 33) { Vec<R> m(N); for (int i = 0; i < N; ++i) m[i] = (X[i] + Y[i]) / R(2); for (int i = 33; i < N; ++i) OUT[i] = wmean(m, i, 5) - wmean(m, i, 34); }
DEF(natr, P(0) >= 1, P(0) - 1) {
    int p = e.P(0); Vec<R> t(N); for (int i = 0; i < N; ++i) t[i] = truerange(e.in[0], e.in[1], e.in[2], i);
    R a = 0; for (int i = p - 1; i < N; ++i) { a = i == p - 1 ? wmean(t, i, p) : a + (t[i] - a) / R(p); OUT[i] = a != R(0) ? R(100) * a / e.in[2][i] : R(0); }
}
DEF(msw, P(0) >= 1, P(0)) {
    int p = e.P(0); R pi = R(3.1415926), tp = R(2) * pi; // the published algorithm truncates pi
    for (int i = p; i < N; ++i) {
        R re = 0, im = 0, ph;
        for (int j = 0; j < p; ++j) { R a = tp * R(j) / R(p); re += cos(a) * X[i-j]; im += sin(a) * X[i-j]; }
        if (fabs(re) > R(0.001)) ph = atan(im / re); else ph = tp / R(2) * (im < R(0) ? R(-1) : R(1));
        if (re < R(0)) ph += pi;
        ph += pi / R(2);
        if (ph < R(0)) ph += tp;
        if (ph > tp) ph -= tp;
        e.out[0][i] = sin(ph); e.out[1][i] = sin(ph + pi / R(4));
    }
}

// ---------------- directional movement ----------------
template<class R> void dirs(const Vec<R>& h, const Vec<R>& l, int i, R& p, R& m) { // Wilder's +DM, -DM of one bar
    R u = h[i] - h[i-1], d = l[i-1] - l[i];
    p = (u > R(0) && u >= d) ? u : R(0); // equal moves count on both sides, as in the library this one derives from
    m = (d > R(0) && d >= u) ? d : R(0);
}
template<class R> void dm_of(const Vec<R>& h, const Vec<R>& l, int p, Vec<R>& up_, Vec<R>& dn_) {
    int n = h.size(); up_.assign(n, R(0)); dn_.assign(n, R(0)); R k = R(p - 1) / R(p), a = 0, b = 0;
    for (int i = 1; i < n; ++i) { R u, d; dirs(h, l, i, u, d); if (i < p) { a += u; b += d; } else { a = a * k + u; b = b * k + d; } up_[i] = a; dn_[i] = b; }
}
DEF(dm, P(0) >= 1, P(0) - 1) { dm_of(X, Y, e.P(0), e.out[0], e.out[1]); }
}
