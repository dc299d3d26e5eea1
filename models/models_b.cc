#include "model.hpp"
namespace spec {
std::map<std::string, Model>& registry() { static std::map<std::string, Model> r; return r; }
thread_local uint64_t Noisy::salt = 0x1234567; thread_local int Noisy::run_no = 0; thread_local uint64_t Noisy::tick = 0;
#define X e.in[0]
#define Y e.in[1]
#define N e.n
#define OUT e.out[0]
#define H e.in[0]
#define L e.in[1]
#define C e.in[2]
#define V e.in[3]

template<class R> Vec<R> trv(Env<R>& e) { Vec<R> t(N); for (int i = 0; i < N; ++i) t[i] = truerange(H, L, C, i); return t; }
template<class R> void dirs(const Vec<R>& h, const Vec<R>& l, int i, R& p, R& m) {
    R u = h[i] - h[i-1], d = l[i-1] - l[i];
    p = (u > R(0) && u >= d) ? u : R(0); // equal moves count on both sides, as in the library this one derives from
    m = (d > R(0) && d >= u) ? d : R(0);
}
template<class R> void dm_of(const Vec<R>& h, const Vec<R>& l, int p, Vec<R>& a_, Vec<R>& b_) {
    int n = h.size(); a_.assign(n, R(0)); b_.assign(n, R(0)); R k = R(p - 1) / R(p), a = 0, b = 0;
    for (int i = 1; i < n; ++i) { R u, d; dirs(h, l, i, u, d); if (i < p) { a += u; b += d; } else { a = a * k + u; b = b * k + d; } a_[i] = a; b_[i] = b; }
}
// Wilder-style accumulation: plain sum of the first bars up to `upto`, then decayed by (p-1)/p
template<class R> Vec<R> wsmooth(const Vec<R>& x, int p, int from, int upto) {
    int n = x.size(); Vec<R> y(n); R s = 0, k = R(p - 1) / R(p);
    for (int i = from; i < n; ++i) { if (i <= upto) s += x[i]; else s = s * k + x[i]; y[i] = s; }
    return y;
}
template<class R> Vec<R> dx_of(const Vec<R>& h, const Vec<R>& l, int p) {
    Vec<R> a, b; dm_of(h, l, p, a, b); Vec<R> d(a.size());
    for (size_t i = 0; i < d.size(); ++i) { R s = a[i] + b[i]; d[i] = s != R(0) ? R(100) * fabs(a[i] - b[i]) / s : R(0); }
    return d;
}
template<class R> Vec<R> adx_of(const Vec<R>& h, const Vec<R>& l, int p) {
    auto y = wsmooth(dx_of(h, l, p), p, p - 1, 2 * (p - 1));
    for (auto& v : y) v = v / R(p);
    return y;
}

// ---------------- directional, trend ----------------
DEF(di, P(0) >= 1, P(0) - 1) {
    int p = e.P(0); Vec<R> a, b; dm_of(H, L, p, a, b); auto t = trv(e); auto s = wsmooth(t, p, 1, p - 1);
    for (int i = p - 1; i < N; ++i) { e.out[0][i] = a[i] != R(0) ? R(100) * a[i] / s[i] : R(0); e.out[1][i] = b[i] != R(0) ? R(100) * b[i] / s[i] : R(0); }
}
DEF(dx, P(0) >= 1, P(0) - 1) { OUT = dx_of(H, L, e.P(0)); }
DEF(adx, P(0) >= 2, 2 * (P(0) - 1)) { OUT = adx_of(H, L, e.P(0)); }
DEF(adxr, P(0) >= 2, 3 * (P(0) - 1)) { int p = e.P(0); auto a = adx_of(H, L, p); for (int i = 3 * (p - 1); i < N; ++i) OUT[i] = (a[i] + a[i-(p-1)]) / R(2); }
template<class R> int lastmax(const Vec<R>& x, int i, int w) { int b = i - w + 1; for (int j = b; j <= i; ++j) if (x[j] >= x[b]) b = j; return b; }
template<class R> int lastmin(const Vec<R>& x, int i, int w) { int b = i - w + 1; for (int j = b; j <= i; ++j) if (x[j] <= x[b]) b = j; return b; }
DEF(aroon, P(0) >= 1, P(0)) {
    int p = e.P(0);
    for (int i = p; i < N; ++i) { e.out[0][i] = R(100) * R(p - (i - lastmin(L, i, p + 1))) / R(p); e.out[1][i] = R(100) * R(p - (i - lastmax(H, i, p + 1))) / R(p); }
}
DEF(aroonosc, P(0) >= 1, P(0)) { int p = e.P(0); for (int i = p; i < N; ++i) OUT[i] = R(100) * R(lastmax(H, i, p + 1) - lastmin(L, i, p + 1)) / R(p); }
DEF(max, P(0) >= 1, P(0) - 1) { int p = e.P(0); for (int i = p - 1; i < N; ++i) OUT[i] = wmax(X, i, p); }
DEF(min, P(0) >= 1, P(0) - 1) { int p = e.P(0); for (int i = p - 1; i < N; ++i) OUT[i] = wmin(X, i, p); }
DEF(willr, P(0) >= 1, P(0) - 1) { int p = e.P(0); for (int i = p - 1; i < N; ++i) { R hi = wmax(H, i, p), lo = wmin(L, i, p); OUT[i] = hi != lo ? R(-100) * (hi - C[i]) / (hi - lo) : R(0); } }
DEF(stoch, P(0) >= 1 && P(1) >= 1 && P(2) >= 1, P(0) + P(1) + P(2) - 3) {
    int p = e.P(0), ks = e.P(1), d = e.P(2); Vec<R> f(N), k(N);
    for (int i = p - 1; i < N; ++i) { R hi = wmax(H, i, p), lo = wmin(L, i, p); f[i] = hi != lo ? R(100) * (C[i] - lo) / (hi - lo) : R(0); }
    for (int i = p + ks - 2; i < N; ++i) k[i] = wmean(f, i, ks);
    for (int i = p + ks + d - 3; i < N; ++i) { e.out[0][i] = k[i]; e.out[1][i] = wmean(k, i, d); }
}
DEF(macd, P(0) >= 1 && P(1) >= 2 && P(1) >= P(0) && P(2) >= 1, P(1) - 1) {
    int s = e.P(0), l = e.P(1); bool classic = s == 12 && l == 26; // the customary smoothing constants of MACD(12,26)
    auto a = ema_from(X, classic ? R(15) / R(100) : R(2) / R(s + 1)), b = ema_from(X, classic ? R(75) / R(1000) : R(2) / R(l + 1));
    Vec<R> m(N); for (int i = 0; i < N; ++i) m[i] = a[i] - b[i];
    auto g = ema(m, e.P(2), l - 1);
    for (int i = l - 1; i < N; ++i) { e.out[0][i] = m[i]; e.out[1][i] = g[i]; e.out[2][i] = m[i] - g[i]; }
}
DEF(kvo, P(0) >= 1 && P(1) >= P(0), 1) {
    Vec<R> vf(N); int trend = 0; R cm = 0;
    for (int i = 1; i < N; ++i) {
        R t = H[i] + L[i] + C[i], y = H[i-1] + L[i-1] + C[i-1], dm = H[i] - L[i];
        int nt = t > y ? 1 : t < y ? -1 : 0;
        if (nt && nt != trend) { trend = nt; cm = H[i-1] - L[i-1]; }
        cm += dm;
        vf[i] = dm != R(0) ? V[i] * fabs(R(2) * (dm / cm) - R(1)) * R(100) * R(trend < 0 ? -1 : 1) : R(0);
    }
    auto a = ema(vf, e.P(0), 1), b = ema(vf, e.P(1), 1);
    for (int i = 1; i < N; ++i) OUT[i] = a[i] - b[i];
}
DEF(abands, P(0) >= 1, P(0) - 1) {
    int p = e.P(0); Vec<R> u(N), d(N);
    for (int i = 0; i < N; ++i) { R s = H[i] + L[i], m = s > R(0) ? R(4) * (H[i] - L[i]) / s : R(0); u[i] = H[i] * (R(1) + m); d[i] = L[i] * (R(1) - m); }
    for (int i = p - 1; i < N; ++i) { e.out[0][i] = wmean(d, i, p); e.out[1][i] = wmean(u, i, p); e.out[2][i] = wmean(C, i, p); }
}
DEF(ultosc, P(0) >= 1 && P(1) >= P(0) && P(2) >= P(1), P(2)) {
    Vec<R> bp(N), r(N);
    for (int i = 1; i < N; ++i) { R lo = rmin(L[i], C[i-1]), hi = rmax(H[i], C[i-1]); bp[i] = C[i] - lo; r[i] = hi - lo; }
    for (int i = e.P(2); i < N; ++i) {
        R s = 0; int w[3] = {4, 2, 1};
        for (int k = 0; k < 3; ++k) { R b = wsum(bp, i, e.P(k)); if (b != R(0)) s += R(w[k]) * b / wsum(r, i, e.P(k)); }
        OUT[i] = s * R(100) / R(7);
    }
}
DEF(fisher, P(0) >= 1, P(0) - 1) {
    int p = e.P(0); Vec<R> m(N); for (int i = 0; i < N; ++i) m[i] = (H[i] + L[i]) / R(2);
    R v = 0, f = 0;
    for (int i = p - 1; i < N; ++i) {
        R lo = wmin(m, i, p), hi = wmax(m, i, p), d = hi - lo; if (d == R(0)) d = R(1) / R(1000);
        v = R(66) / R(100) * ((m[i] - lo) / d - R(0.5)) + R(67) / R(100) * v;
        if (v > R(0.99)) v = R(999) / R(1000);
        if (v < R(-0.99)) v = R(-999) / R(1000);
        e.out[1][i] = f;
        f = R(0.5) * log((R(1) + v) / (R(1) - v)) + R(0.5) * f;
        e.out[0][i] = f;
    }
}
DEF(vhf, P(0) >= 1, P(0)) {
    int p = e.P(0); Vec<R> d(N); for (int i = 1; i < N; ++i) d[i] = fabs(X[i] - X[i-1]);
    for (int i = p; i < N; ++i) { R r = wmax(X, i, p) - wmin(X, i, p); OUT[i] = r != R(0) ? r / wsum(d, i, p) : R(0); }
}
DEF(vidya, P(0) >= 1 && P(1) >= P(0) && P(1) >= 2 && o[2] >= 0 && o[2] <= 1, P(1) - 2) {
    int s = e.P(0), l = e.P(1); R al = e.o[2]; auto big = hist(X);
    for (int i = l - 2; i < N; ++i) {
        if (i == l - 2) { OUT[i] = X[i]; continue; }
        R a = sqrt(wvar(X, i, s, big)), b = sqrt(wvar(X, i, l, big)), k = a != R(0) && b != R(0) ? a / b : R(0);
        OUT[i] = OUT[i-1] + al * k * (X[i] - OUT[i-1]);
    }
}
DEF(trima, P(0) >= 1, P(0) - 1) {
    int p = e.P(0); for (int i = p - 1; i < N; ++i) { R s = 0, w = 0; for (int j = 0; j < p; ++j) { R k = std::min(j + 1, p - j); s += k * X[i-j]; w += k; } OUT[i] = s / w; }
}
inline int isq(int p) { int r = 0; while ((long)(r + 1) * (r + 1) <= p) ++r; return r; }
DEF(hma, P(0) >= 1, P(0) + isq(P(0)) - 2) {
    int p = e.P(0), q = std::max(1, p / 2), r = isq(p); Vec<R> d(N);
    for (int i = p - 1; i < N; ++i) d[i] = R(2) * wlin(X, i, q) - wlin(X, i, p);
    for (int i = p + r - 2; i < N; ++i) OUT[i] = wlin(d, i, r);
}
DEF(psar, o[0] > 0 && o[1] > o[0], 1) {
    if (N < 2) return;
    R step = e.o[0], cap = e.o[1];
    bool lng = H[0] + L[0] <= H[1] + L[1];
    R ext = lng ? H[0] : L[0], sar = lng ? L[0] : H[0], acc = step;
    for (int i = 1; i < N; ++i) {
        sar = sar + acc * (ext - sar);
        if (lng) {
            if (i >= 2) sar = rmin(sar, L[i-2]);
            sar = rmin(sar, L[i-1]);
            if (H[i] > ext) { acc = rmin(acc + step, cap); ext = H[i]; }
            if (L[i] < sar) { lng = false; acc = step; sar = ext; ext = L[i]; }
        } else {
            if (i >= 2) sar = rmax(sar, H[i-2]);
            sar = rmax(sar, H[i-1]);
            if (L[i] < ext) { acc = rmin(acc + step, cap); ext = L[i]; }
            if (H[i] > sar) { lng = true; acc = step; sar = ext; ext = H[i]; }
        }
        OUT[i] = sar;
    }
}
DEF(atr, P(0) >= 1, P(0) - 1) { int p = e.P(0); auto t = trv(e); for (int i = p - 1; i < N; ++i) OUT[i] = i == p - 1 ? wmean(t, i, p) : OUT[i-1] + (t[i] - OUT[i-1]) / R(p); }
DEF(fi, P(0) >= 1, 1) {
    Vec<R> f(N); for (int i = 1; i < N; ++i) f[i] = Y[i] * (X[i] - X[i-1]);
    OUT = ema_from(f, R(2) / (R(e.o[0]) + R(1)), 1);
}
DEF(kst, (P(0) < P(1) && P(1) < P(2) && P(2) < P(3) && P(0) >= 1 && P(1) >= 1 && P(2) >= 1 && P(3) >= 1 && P(4) >= 1 && P(5) >= 1 && P(6) >= 1 && P(7) >= 1), P(3)) {
    Vec<R> k(N), v(N); int s = e.P(3);
    for (int j = 0; j < 4; ++j) {
        int p = e.P(j); Vec<R> r(N); for (int i = p; i < N; ++i) r[i] = (X[i] - X[i-p]) / X[i-p];
        auto m = ema(r, e.P(4 + j), p); for (int i = s; i < N; ++i) k[i] += m[i] * R(j + 1);
    }
    for (int i = s; i < N; ++i) k[i] = k[i] / R(10);
    v = ema(k, 9, s);
    for (int i = s; i < N; ++i) { e.out[0][i] = k[i]; e.out[1][i] = v[i]; }
}
DEF(kc, P(0) >= 1 && o[1] >= 0, 0) {
    R k = R(2) / (R(e.o[0]) + R(1)), m = e.o[1]; auto a = ema_from(C, k), t = ema_from(trv(e), k);
    for (int i = 0; i < N; ++i) { e.out[0][i] = a[i] - m * t[i]; e.out[1][i] = a[i]; e.out[2][i] = a[i] + m * t[i]; }
}
DEF(pc, P(0) >= 1, P(0) - 1) { int p = e.P(0); for (int i = p - 1; i < N; ++i) { e.out[0][i] = wmin(L, i, p); e.out[1][i] = wmax(H, i, p); } }
template<class R> R slope_of(const Vec<R>& x, int i, int p) { // rounding-aware form
    if (p < 2) return R(0);
    R y = 0, xy = 0, P = R(p); for (int j = 0; j < p; ++j) { y += x[i-p+1+j]; xy += x[i-p+1+j] * R(j + 1); }
    R sx = P * (P + R(1)) / R(2), sxx = P * (P + R(1)) * (R(2) * P + R(1)) / R(6);
    return (xy / P - sx / P * y / P) / (sxx / P - (sx / P) * (sx / P));
}
template<class R> void pb_of(Env<R>& e, int p, Vec<R>& lo, Vec<R>& hi) {
    lo.assign(N, R(0)); hi.assign(N, R(0)); auto big = hist(C); // running sums remember the rounding of the largest price
    for (int i = p - 1; i < N; ++i) {
        R b = slope_of(C, i, p) + drift(big[i]) * R(12) / R(p); hi[i] = H[i]; lo[i] = L[i];
        for (int j = 1; j < p; ++j) { hi[i] = rmax(hi[i], H[i-j] + R(j) * b); lo[i] = rmin(lo[i], L[i-j] + R(j) * b); }
    }
}
DEF(pbands, P(0) >= 1, P(0) - 1) { pb_of(e, e.P(0), e.out[0], e.out[1]); }
DEF(posc, P(0) >= 1 && P(1) >= 1, P(0) - 1) {
    int p = e.P(0); Vec<R> lo, hi, f(N); pb_of(e, p, lo, hi);
    for (int i = p - 1; i < N; ++i) { R a = C[i] - lo[i]; f[i] = a != R(0) ? R(100) * a / (hi[i] - lo[i]) : R(0); }
    OUT = ema(f, e.P(1), p - 1);
}
DEF(er, P(0) >= 1, P(0)) {
    int p = e.P(0); Vec<R> d(N); for (int i = 1; i < N; ++i) d[i] = fabs(X[i] - X[i-1]);
    for (int i = p; i < N; ++i) { R c = fabs(X[i] - X[i-p]); OUT[i] = c != R(0) ? c / wsum(d, i, p) : R(0); }
}
DEF(copp, P(0) >= 1 && P(1) >= 1 && P(2) >= 1 && P(1) >= P(0), (int)(o[1] + o[2] - 1)) {
    int s = e.P(0), l = e.P(1), w = e.P(2); Vec<R> r(N);
    for (int i = l; i < N; ++i) r[i] = (X[i-s] != R(0) && X[i-l] != R(0)) ? R(50) * ((X[i] / X[i-s] - R(1)) + (X[i] / X[i-l] - R(1))) : undefined<R>(); // no rate of change from a zero price
    for (int i = l + w - 1; i < N; ++i) OUT[i] = wlin(r, i, w);
}
DEF(ce, P(0) >= 1, P(0) - 1) {
    int p = e.P(0); R k = e.o[1], a = 0; auto t = trv(e);
    for (int i = p - 1; i < N; ++i) { a = i == p - 1 ? wmean(t, i, p) : a + (t[i] - a) / R(p); e.out[0][i] = wmax(H, i, p) - k * a; e.out[1][i] = wmin(L, i, p) + k * a; }
}
DEF(ichi, P(0) > 0 && P(0) <= P(1) && P(1) <= P(2), P(2) - 1 + P(1)) {
    int a = e.P(0), b = e.P(1), c = e.P(2); auto mid = [&](int i, int p) { return (wmax(H, i, p) + wmin(L, i, p)) / R(2); };
    for (int i = c - 1 + b; i < N; ++i) { e.out[0][i] = mid(i, a); e.out[1][i] = mid(i, b); e.out[2][i] = (mid(i - b, a) + mid(i - b, b)) / R(2); e.out[3][i] = mid(i - b, c); }
}
DEF(mhlma, P(0) >= 1 && P(1) >= 1, P(1) - 1) {
    int p = e.P(0), m = e.P(1); Vec<R> d(N); for (int i = 0; i < N; ++i) d[i] = (wmax(X, i, p) + wmin(X, i, p)) / R(2);
    auto g = ema(d, m); for (int i = m - 1; i < N; ++i) { e.out[0][i] = wmean(d, i, m); e.out[1][i] = g[i]; }
}

// ---------------- Ehlers family ----------------
// Homodyne discriminator; everything before bar `s` is zero.
template<class R> struct Homodyne {
    Vec<R> I1, Q1, period, smooth; Vec<char> lost;
    Homodyne(const Vec<R>& x, int s, R turn) {
        int n = x.size(); Vec<R> S(n), D(n), I2(n), Q2(n), Re(n), Im(n); I1 = Q1 = period = smooth = Vec<R>(n); lost.assign(n, 0);
        auto at = [&](const Vec<R>& v, int i) { return i >= s ? v[i] : R(0); };
        R c1 = R(962) / R(10000), c2 = R(5769) / R(10000), big = 0, xm = 0;
        for (int i = s; i < n; ++i) {
            R pp = at(period, i - 1), g = R(75) / R(1000) * pp + R(54) / R(100);
            auto hilb = [&](const Vec<R>& v) { return (rough(c1 * at(v, i)) + rough(c2 * at(v, i - 2)) - c2 * at(v, i - 4) - c1 * at(v, i - 6)) * g; }; xm = rmax(xm, fabs(x[i]));
            S[i] = (R(4) * x[i] + R(3) * x[i-1] + R(2) * x[i-2] + x[i-3]) / R(10);
            D[i] = hilb(S); Q1[i] = hilb(D); I1[i] = at(D, i - 3);
            R jI = hilb(I1), jQ = hilb(Q1), a = R(1) / R(5), b = R(4) / R(5);
            I2[i] = a * (I1[i] - jQ) + b * at(I2, i - 1);
            Q2[i] = a * (Q1[i] + jI) + b * at(Q2, i - 1);
            Re[i] = a * (I2[i] * at(I2, i - 1) + Q2[i] * at(Q2, i - 1)) + b * at(Re, i - 1);
            Im[i] = a * (I2[i] * at(Q2, i - 1) - Q2[i] * at(I2, i - 1)) + b * at(Im, i - 1);
            R p = carry(i, s); big = rmax(big, fabs(Re[i]) + fabs(Im[i]) + xm * xm * R(1e-13)); // when the phasor is degenerate the two-slot history keeps the value of two bars ago
            if (Im[i] != R(0) && Re[i] != R(0)) p = turn / atan(Im[i] / Re[i]);
            if (fabs(Im[i]) < big * R(1e-10) || fabs(Re[i]) < big * R(1e-10)) lost[i] = 1, p = coin(R(1e9), R(-1e9), i); // a phasor lost in rounding
            if (p > R(1.5) * pp) p = R(1.5) * pp;
            if (p < R(67) / R(100) * pp) p = R(67) / R(100) * pp;
            if (p < R(6)) p = R(6);
            if (p > R(50)) p = R(50);
            period[i] = a * p + b * pp;
            smooth[i] = R(33) / R(100) * period[i] + R(67) / R(100) * at(smooth, i - 1);
        }
    }
    R carry(int i, int s) { return i - 2 >= s ? period[i-2] : R(0); }
};
DEF(mama, (o[0] >= 0 && o[0] <= 1 && o[1] >= 0 && o[1] <= 1), 6) {
    Homodyne<R> h(X, 6, R(360)); R fast = e.o[0], slow = e.o[1], m = 0, f = 0, ph = 0, xm = 0; double memory = 0; int since = 1000;
    for (int i = 6; i < N; ++i) {
        R p = h.I1[i] != R(0) ? atan(h.Q1[i] / h.I1[i]) : R(0); xm = rmax(xm, fabs(X[i]));
        if (fabs(h.I1[i]) < xm * R(1e-10)) p = coin(R(1.58), R(-1.58), i); // the sign of the in-phase part is rounding noise
        R a = rmax(slow, fast / rmax(R(1), ph - p)); ph = p;
        // An angle the data do not determine stays in the recursion: those bars are not comparable until it has been forgotten.
        if (i >= 14 && (h.lost[i] || fabs(h.I1[i]) < xm * R(1e-10))) memory = 1, since = 0;
        memory *= 1 - 0.5 * (double)a; if (memory > 1e-9 || ++since < 150) e.aux[i] = coin(R(1), R(-1), i);
        m = a * X[i] + (R(1) - a) * m; f = R(0.5) * a * m + (R(1) - R(0.5) * a) * f;
        e.out[0][i] = m; e.out[1][i] = f;
    }
}
template<class R> R PI_() { return R(3.14159265358979323846264338327950288L); }
// After a phasor was lost in rounding the period is not determined until the recursion has forgotten it.
template<class R> void blur(Env<R>& e, const Homodyne<R>& h, int s) { int since = 1000; for (int i = s + 9; i < (int)h.lost.size(); ++i) { if (h.lost[i]) since = 0; if (++since < 120) e.aux[i] = coin(R(1), R(-1), i); } }
DEF(hd, true, 5) { Homodyne<R> h(X, 5, R(2) * PI_<R>()); OUT = h.smooth; blur(e, h, 5); }
DEF(arsi, o[0] > 0 && o[0] < 2147483647 / 50, 5) {
    Homodyne<R> h(X, 5, R(2) * PI_<R>()); R part = e.o[0]; blur(e, h, 5);
    for (int i = 5; i < N; ++i) {
        R len = part * h.smooth[i]; int w = (int)len; e.aux[i] += len; R u = 0, d = 0;
        if (fabs(len - floor(len + R(0.5))) < R(2e-6) * (R(1) + len)) e.aux[i] += coin(R(0), R(1), i); // either side of a whole number of bars
        for (int j = 0; j < w && j < i; ++j) { R c = X[i-j] - X[i-j-1]; if (c > R(0)) u += c; else d -= c; }
        OUT[i] = u + d != R(0) ? R(100) * u / (u + d) : R(0);
    }
}
template<class R> R rad(R x) { return x * R(3.141592) / R(180); } // the constants of the published listing, to its digits
DEF(mesastoch, P(0) >= 1 && P(1) >= 1, P(0) + 2) {
    int p = e.P(0); R ang = rad(R(0.707) * R(360) / R(e.P(1)));
    R a = (cos(ang) + sin(ang) - R(1)) / cos(ang), a1 = exp(R(-1.414) * R(3.141459) / R(10)), c2 = R(2) * a1 * cos(rad(R(1.414) * R(180) / R(10))), c3 = -(a1 * a1), c1 = R(1) - c2 - c3;
    Vec<R> hp(N), f(N), st(N), re(N); bool moved = false; int lost = -100; auto at = [](const Vec<R>& v, int i) { return i >= 0 ? v[i] : R(0); };
    for (int i = 2; i < N; ++i) {
        hp[i] = sq(R(1) - a / R(2)) * (X[i] - R(2) * X[i-1] + X[i-2]) + R(2) * (R(1) - a) * at(hp, i - 1) - sq(R(1) - a) * at(hp, i - 2);
        f[i] = c1 * (hp[i] + hp[i-1]) / R(2) + c2 * f[i-1] + c3 * f[i-2];
        if (i < p + 2) continue;
        R hi = wmax(f, i, p), lo = wmin(f, i, p), d = f[i] - lo;
        st[i] = d != R(0) ? d / (hi - lo) : R(0);
        moved = moved || f[i] != R(0); if (moved && hi - lo < R(1e-280)) lost = i; // the filter has decayed out of the range of doubles
        if (i - lost < 60) e.aux[i] = coin(R(0), R(1), i);
        re[i] = c1 * (st[i] + st[i-1]) / R(2) + c2 * re[i-1] + c3 * re[i-2];
        OUT[i] = re[i];
    }
}
template<class R> Vec<R> ssm(const Vec<R>& x, R pi) { // two-pole super smoother, cut-off 10 bars
    int n = x.size(); Vec<R> f(n); R a1 = exp(R(-1.414) * pi / R(10)), c2 = R(2) * a1 * cos(R(1.414) * pi / R(10)), c3 = -(a1 * a1), c1 = R(1) - c2 - c3;
    for (int i = 0; i < n; ++i) f[i] = c1 * (x[i] + (i >= 1 ? x[i-1] : R(0))) / R(2) + c2 * (i >= 1 ? f[i-1] : R(0)) + c3 * (i >= 2 ? f[i-2] : R(0));
    return f;
}
DEF(ssmooth, true, 0) { OUT = ssm(X, R(3.14159)); }
DEF(roof, true, 0) {
    R pi = R(3.14159), w = R(0.707) * R(2) * pi / R(48), a = (cos(w) + sin(w) - R(1)) / cos(w); Vec<R> hp(N);
    auto at = [](const Vec<R>& v, int i) { return i >= 0 ? v[i] : R(0); };
    for (int i = 0; i < N; ++i) hp[i] = sq(R(1) - a / R(2)) * (X[i] - R(2) * at(X, i - 1) + at(X, i - 2)) + R(2) * (R(1) - a) * at(hp, i - 1) - sq(R(1) - a) * at(hp, i - 2);
    OUT = ssm(hp, pi);
}
DEF(frama, P(0) >= 1 && P(1) >= 2 && P(0) % 2 == 0, 0) {
    int p = e.P(0), h = p / 2; R w = log(R(2) / (R(1) + R(e.o[1])));
    for (int i = 0; i < N; ++i) {
        R m = (H[i] + L[i]) / R(2);
        if (i < p) { OUT[i] = m; continue; }
        R n3 = (wmax(H, i, p) - wmin(L, i, p)) / R(p), n1 = (wmax(H, i, h) - wmin(L, i, h)) / R(h), n2 = (wmax(H, i - h, h) - wmin(L, i - h, h)) / R(h), dim = 0;
        if (n1 > R(0) && n2 > R(0) && n3 > R(0)) dim = (log(n1 + n2) - log(n3)) / log(R(2));
        R a = exp(w * (dim - R(1)));
        if (a < R(0.01)) a = R(1) / R(100);
        if (a > R(1)) a = R(1);
        OUT[i] = a * m + (R(1) - a) * OUT[i-1];
    }
}
bool gf_valid(int p) { return p >= 1 && p % 2 == 0 && p <= 40; }
#include "tables.inc"
template<class R> void iir(Env<R>& e, const Vec<R>& b, const Vec<R>& a, bool norm, int seed) { // y = sum b x + sum a y[-k]
    R t = 0; for (auto v : b) t += v; for (auto v : a) t += v;
    for (int i = 0; i < N; ++i) {
        if (i < seed) { OUT[i] = X[i]; continue; }
        R s = 0; for (int k = 0; k < (int)b.size(); ++k) if (i - k >= 0) s += b[k] * X[i-k];
        for (int k = 0; k < (int)a.size(); ++k) if (i - 1 - k >= 0) s += a[k] * OUT[i-1-k];
        OUT[i] = norm ? s / t : s;
    }
}
template<class R> R D6(double v) { return R((LD)std::llround(v * 1e6)) / R(1000000); }
DEF(gf1, gf_valid(P(0)), 0) { int k = e.P(0) / 2 - 1; iir(e, {D6<R>(GF1_B0[k])}, {D6<R>(GF1_A1[k])}, true, 0); }
DEF(gf2, gf_valid(P(0)), 0) { int k = e.P(0) / 2 - 1; iir(e, {D6<R>(GF2_B0[k])}, {D6<R>(GF2_A1[k]), D6<R>(GF2_A2[k])}, true, 0); }
DEF(gf3, gf_valid(P(0)), 0) { int k = e.P(0) / 2 - 1; iir(e, {D6<R>(GF3_B0[k])}, {D6<R>(GF3_A1[k]), D6<R>(GF3_A2[k]), D6<R>(GF3_A3[k])}, true, 0); }
DEF(gf4, gf_valid(P(0)), 0) { int k = e.P(0) / 2 - 1; iir(e, {D6<R>(GF4_B0[k])}, {D6<R>(GF4_A1[k]), D6<R>(GF4_A2[k]), D6<R>(GF4_A3[k]), D6<R>(GF4_A4[k])}, true, 5); }
DEF(bf2, gf_valid(P(0)), (int)std::ceil(2 * o[0] / (3.1415 * 3.1415))) { int k = e.P(0) / 2 - 1; R b = D6<R>(BF2_B0[k]); iir(e, {b, D6<R>(BF2_B1[k]), b}, {D6<R>(BF2_A1[k]), D6<R>(BF2_A2[k])}, false, 0); }
DEF(bf3, gf_valid(P(0)), (int)std::ceil(3 * o[0] / (3.1415 * 3.1415))) { int k = e.P(0) / 2 - 1; R b = D6<R>(BF3_B0[k]), c = D6<R>(BF3_B1[k]); iir(e, {b, c, c, b}, {D6<R>(BF3_A1[k]), D6<R>(BF3_A2[k]), D6<R>(BF3_A3[k])}, false, 0); }
DEF(lf, o[0] >= 0, 0) {
    R g = e.o[0], l[4] = {0, 0, 0, 0};
    for (int i = 0; i < N; ++i) {
        R m[4]; m[0] = (R(1) - g) * X[i] + g * l[0];
        for (int k = 1; k < 4; ++k) m[k] = -g * m[k-1] + l[k-1] + g * l[k];
        for (int k = 0; k < 4; ++k) l[k] = m[k];
        OUT[i] = (l[0] + R(2) * l[1] + R(2) * l[2] + l[3]) / R(6);
    }
}
template<class R> R nth(Vec<R> v, int k) { std::sort(v.begin(), v.end()); return v[k]; }
template<class R> Vec<R> win(const Vec<R>& x, int i, int p) { return Vec<R>(x.begin() + (i - p + 1), x.begin() + i + 1); }
DEF(rmf, P(1) >= 1 && P(0) >= 1 && P(1) % 2 == 1, P(1) - 1) {
    int m = e.P(1); R w = R(2) * PI_<R>() / R(e.o[0]), a = (cos(w) + sin(w) - R(1)) / cos(w);
    for (int i = m - 1; i < N; ++i) { R md = nth(win(X, i, m), m / 2); OUT[i] = i == m - 1 ? md : a * md + (R(1) - a) * OUT[i-1]; }
}
DEF(rema, P(0) >= 1 && o[1] >= 0, 0) {
    R a = R(2) / (R(1) + R(e.o[0])), l = e.o[1];
    for (int i = 0; i < N; ++i) {
        if (i == 0) OUT[0] = X[0];
        else if (i == 1) OUT[1] = OUT[0] + a * (X[1] - OUT[0]);
        else OUT[i] = (OUT[i-1] * (R(1) + R(2) * l) + a * (X[i] - OUT[i-1]) - l * OUT[i-2]) / (R(1) + l);
    }
}
DEF(t3, P(0) >= 1 && o[1] >= 0, 0) {
    R k = R(2) / (R(e.o[0]) + R(1)), v = e.o[1]; Vec<R> y = X;
    for (int r = 0; r < 3; ++r) { auto a = ema_from(y, k), b = ema_from(a, k); for (int i = 0; i < N; ++i) y[i] = a[i] * (R(1) + v) - b[i] * v; }
    OUT = y;
}
template<class R> R hampel(const Vec<R>& w, R cand, R thr, bool strict) {
    int k = w.size() / 2; R med = nth(w, k); Vec<R> a(w.size()); for (size_t j = 0; j < w.size(); ++j) a[j] = fabs(w[j] - med);
    R lim = thr * R(14826) / R(10000) * nth(a, k), d = fabs(cand - med);
    return (strict ? d < lim : d <= lim) ? cand : med;
}
DEF(hf, P(0) >= 1 && o[1] >= 0, 2 * P(0)) { int k = e.P(0); for (int i = 2 * k; i < N; ++i) OUT[i] = hampel(win(X, i, 2 * k + 1), X[i], R(e.o[1]), true); }
DEF(hfsma, P(0) >= 1 && P(1) >= 1 && o[2] >= 0, P(0) - 1 + 2 * P(1)) {
    int p = e.P(0), k = e.P(1); Vec<R> s(N); for (int i = p - 1; i < N; ++i) s[i] = wmean(X, i, p);
    for (int i = p - 1 + 2 * k; i < N; ++i) OUT[i] = hampel(win(s, i, 2 * k + 1), s[i-k], R(e.o[2]), false);
}
DEF(hfema, P(0) >= 1 && P(1) >= 1 && o[2] >= 0, 2 * P(1)) {
    int k = e.P(1); auto s = ema(X, e.P(0));
    for (int i = 2 * k; i < N; ++i) OUT[i] = hampel(win(s, i, 2 * k + 1), s[i-k], R(e.o[2]), false);
}
DEF(hurst, P(0) >= 2, P(0)) {
    int p = e.P(0); Vec<R> r(N); for (int i = 1; i < N; ++i) r[i] = X[i] != R(0) && X[i-1] != R(0) ? log(X[i] / X[i-1]) : R(0);
    auto big = hist(r);
    for (int i = p; i < N; ++i) {
        if (big[i] == R(0)) { e.out[0][i] = 0; e.out[1][i] = 2; continue; } // the price has never moved
        R m = rough(wmean(r, i, p)) + drift(big[i]), c = 0, hi = 0, lo = 0, s = 0; // deviations accumulated from the newest return to the oldest
        for (int j = 0; j < p; ++j) { R d = r[i-j] - m; c += d; hi = j ? rmax(hi, c) : c; lo = j ? rmin(lo, c) : c; s += d * d; }
        s = sqrt(s / R(p)); R rng = hi - lo, h = rng != R(0) ? log(rng / s) / log(R(p)) : undefined<R>();
        e.out[0][i] = h; e.out[1][i] = R(2) - h;
    }
}

// ---------------- weighted averages ----------------
DEF(hwma, P(0) >= 7 && P(0) <= 13, P(0) - 1) { int p = e.P(0); for (int i = p - 1; i < N; ++i) { R s = 0; for (int j = 0; j < p; ++j) s += R((LD)HENDERSON[p-7][12-j]) / R(1000) * X[i-j]; OUT[i] = s; } }
DEF(idwma, P(0) >= 1 && o[1] >= 1 && o[1] <= 2, P(0) - 1) { int p = e.P(0); R x = e.o[1]; for (int i = p - 1; i < N; ++i) { R s = 0, w = 0; for (int j = 0; j < p; ++j) { R c = R(1) / pow(R(j + 1), x); s += c * X[i-j]; w += c; } OUT[i] = s / w; } }
DEF(pwma, P(0) >= 1, P(0) - 1) { int p = e.P(0); R x = e.o[1]; for (int i = p - 1; i < N; ++i) { R s = 0, w = 0; for (int j = 0; j < p; ++j) { R c = pow(R(p - j), x); s += c * X[i-j]; w += c; } OUT[i] = s / w; } }
DEF(swma, P(0) >= 1 && P(0) % 6 != 0 && P(0) % 6 != 5, P(0) - 1) { int p = e.P(0); for (int i = p - 1; i < N; ++i) { R s = 0, w = 0; for (int j = 0; j < p; ++j) { R c = sin(R(j % 12 + 1) * PI_<R>() / R(6)); s += c * X[i-j]; w += c; } OUT[i] = s / w; } }
DEF(shmma, P(0) >= 1, P(0) - 1) {
    int p = e.P(0); for (int i = p - 1; i < N; ++i) { R s = 0; for (int j = 0; j < p; ++j) s += (R(p - 1) / R(2) - R(j)) * X[i-j]; OUT[i] = wmean(X, i, p) + R(6) * s / (R(p) * R(p + 1)); }
}
DEF(dwma, P(0) >= 1, 2 * (P(0) - 1)) { int p = e.P(0); Vec<R> f(N); for (int i = p - 1; i < N; ++i) f[i] = wlin(X, i, p); for (int i = 2 * (p - 1); i < N; ++i) OUT[i] = wlin(f, i, p); }
DEF(lma, P(0) >= 1, P(0) - 1) { int p = e.P(0); for (int i = p - 1; i < N; ++i) OUT[i] = R(2) * wlin(X, i, p) - wmean(X, i, p); }
DEF(ahma, P(0) >= 1, 0) { int p = e.P(0); for (int i = 0; i < N; ++i) OUT[i] = i < p ? X[i] : OUT[i-1] + (X[i] - (OUT[i-1] + OUT[i-p]) / R(2)) / R(p); }
DEF(ehma, P(0) >= 1, 0) {
    R p = e.P(0); auto a = ema_from(X, R(2) / (p / R(2) + R(1))), b = ema_from(X, R(2) / (p + R(1))); Vec<R> d(N);
    for (int i = 0; i < N; ++i) d[i] = R(2) * a[i] - b[i];
    OUT = ema_from(d, R(2) / (sqrt(p) + R(1)));
}
DEF(evwma, P(0) >= 1 && o[1] > 0, P(0) - 1) {
    int p = e.P(0); R g = e.o[1];
    for (int i = p - 1; i < N; ++i) {
        if (i == p - 1) { OUT[i] = X[i]; continue; }
        R n = wsum(Y, i, p), f = Y[i] / (g * n); OUT[i] = n != R(0) ? OUT[i-1] * (R(1) - f) + f * X[i] : R(0);
    }
}
DEF(edcf, P(0) >= 1, 2 * P(0) - 1) {
    int p = e.P(0);
    for (int i = 2 * p - 1; i < N; ++i) {
        R num = 0, den = 0;
        for (int c = 0; c < p; ++c) { R d = 0; for (int b = 1; b < p; ++b) d += sq(X[i-c] - X[i-c-b]); num += d * X[i-c]; den += d; }
        OUT[i] = den != R(0) ? num / den : R(0);
    }
}
DEF(emsd, P(0) >= 1 && P(1) >= 1, P(0) - 1) { int p = e.P(0); auto big = hist(X); for (int i = p - 1; i < N; ++i) OUT[i] = sqrt(wvar(X, i, p, big)); }
DEF(mgdyn, true, 0) { R k = e.o[0]; for (int i = 0; i < N; ++i) OUT[i] = i == 0 ? X[0] : OUT[i-1] + (X[i] - OUT[i-1]) / (k * sq(sq(X[i] / OUT[i-1]))); }
DEF(pfe, P(0) >= 1 && P(1) >= 1, P(0)) {
    int p = e.P(0); Vec<R> d(N), f(N); for (int i = 1; i < N; ++i) d[i] = sqrt(sq(X[i] - X[i-1]) + R(1));
    for (int i = p; i < N; ++i) { R c = X[i] - X[i-p]; f[i] = (c > R(0) ? R(100) : R(-100)) * sqrt(c * c + R(100)) / wsum(d, i, p); }
    OUT = ema(f, e.P(1), p);
}
DEF(pvt, true, 1) { for (int i = 1; i < N; ++i) { R c = Y[i] != R(0) ? Y[i] * (X[i] - X[i-1]) / X[i-1] : R(0); OUT[i] = (i == 1 ? Y[0] : OUT[i-1]) + c; } }
template<class R> R share(R a, R b) { return a != R(0) ? R(100) * a / (a + b) : R(0); }
DEF(rmi, P(0) >= 1 && P(1) >= 1, P(1)) {
    int b = e.P(1); R k = R(2) / (R(1) + R(e.o[0])); Vec<R> u(N), d(N);
    for (int i = b; i < N; ++i) { R c = X[i] - X[i-b]; u[i] = rmax(R(0), c); d[i] = rmax(R(0), -c); }
    auto g = ema_from(u, k, b), l = ema_from(d, k, b); for (int i = b; i < N; ++i) OUT[i] = share(g[i], l[i]);
}
DEF(rvi, P(0) >= 1 && P(1) >= 1, P(1) - 1) {
    int p = e.P(1); R k = R(2) / R(e.P(0) + 1), g = 0, l = 0; auto big = hist(X);
    for (int i = p - 1; i < N; ++i) {
        R b = slope_of(X, i, p), a = wmean(X, i, p) - b * (R(p + 1) / R(2)), up = X[i] + R(8) * drift(big[i]) - (a + b * R(p)), s = up * up / R(p);
        if (p == 1) up = s = R(0);
        else if (fabs(up) < R(1e-9) * big[i]) up = coin(fabs(up), -fabs(up), i); // on the line: the side is rounding
        if (up > R(0)) g = g + k * (s - g); else l = l + k * (s - l);
        OUT[i] = g != R(0) ? R(100) * g / (g + l) : R(50);
    }
}
DEF(smi, P(0) >= 1 && P(1) >= 1 && P(2) >= 1, P(0) - 1) {
    int q = e.P(0); R k = R(2) / (R(1) + R(e.o[1])), m = R(2) / (R(1) + R(e.o[2])); Vec<R> a(N), b(N);
    for (int i = q - 1; i < N; ++i) { R hi = wmax(H, i, q), lo = wmin(L, i, q); a[i] = C[i] - (hi + lo) / R(2); b[i] = hi - lo; }
    auto n = ema_from(ema_of_diff(a, k, q - 1, C), m, q - 1), d = ema_from(ema_of_diff(b, k, q - 1, H), m, q - 1);
    for (int i = q - 1; i < N; ++i) OUT[i] = d[i] != R(0) ? R(200) * n[i] / d[i] : R(0);
}
DEF(tsi, P(0) >= 1 && P(1) >= 1, 1) {
    R k = R(2) / (R(1) + R(e.o[0])), m = R(2) / (R(1) + R(e.o[1])); Vec<R> a(N), b(N);
    for (int i = 1; i < N; ++i) { a[i] = X[i] - X[i-1]; b[i] = fabs(a[i]); }
    auto n = ema_from(ema_of_diff(a, k, 1, X), m, 1), d = ema_from(ema_from(b, k, 1), m, 1);
    for (int i = 1; i < N; ++i) OUT[i] = d[i] != R(0) ? R(100) * n[i] / d[i] : R(0);
}
DEF(vi, P(0) >= 1, P(0)) {
    int p = e.P(0); Vec<R> a(N), b(N); auto t = trv(e); for (int i = 1; i < N; ++i) { a[i] = fabs(H[i] - L[i-1]); b[i] = fabs(L[i] - H[i-1]); }
    for (int i = p; i < N; ++i) { R s = wsum(t, i, p), u = wsum(a, i, p), d = wsum(b, i, p); e.out[0][i] = u != R(0) ? u / s : R(0); e.out[1][i] = d != R(0) ? d / s : R(0); }
}
DEF(vwap, P(0) >= 1, P(0) - 1) {
    int p = e.P(0); Vec<R> a(N); for (int i = 0; i < N; ++i) a[i] = (H[i] + L[i] + C[i]) / R(3) * V[i];
    for (int i = p - 1; i < N; ++i) { R s = wsum(a, i, p); OUT[i] = s != R(0) ? s / wsum(V, i, p) : R(0); }
}
DEF(cmi, P(0) >= 1, P(0) - 1) { int p = e.P(0); auto t = trv(e); for (int i = p - 1; i < N; ++i) OUT[i] = R(100) * log((wmax(t, i, p) - wmin(t, i, p)) / wsum(t, i, p)) / log(R(p)); }
}
