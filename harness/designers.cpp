// C08 / C09 / C10: filter designs against the closed-form response of the transformed prototypes.
#include <edsp/filter.hpp>
#include "mc.hpp"
using mc::Ctx;
using namespace edsp::filter;
typedef long double ld;
typedef std::complex<long double> cld;
static const ld PI = 3.14159265358979323846264338327950288L;

template <typename B> cld response1(const B& s, ld w) {
    const cld q = std::polar(1.0L, -w), q2 = std::polar(1.0L, -2 * w);
    return ((ld)s.b0() + (ld)s.b1() * q + (ld)s.b2() * q2) / ((ld)s.a0() + (ld)s.a1() * q + (ld)s.a2() * q2);
}
template <typename C> cld response(const C& cas, ld w) { cld h = 1; for (auto& s : cas) h *= response1(s, w); return h; }
// largest pole radius of a biquad
template <typename B> ld radius(const B& s) {
    const ld a1 = (ld)s.a1() / s.a0(), a2 = (ld)s.a2() / s.a0(), d = a1 * a1 - 4 * a2;
    if (d < 0) return std::sqrt(a2); ld r = std::sqrt(d); return std::max(std::fabs((-a1 + r) / 2), std::fabs((-a1 - r) / 2));
}
static ld cheb(int n, ld x) { return std::fabs(x) <= 1 ? std::cos(n * std::acos(x)) : ((x < 0 && n % 2) ? -1 : 1) * std::cosh(n * std::acosh(std::fabs(x))); }
static ld tanh_(ld w) { return w >= PI - 1e-15L ? 1e18L : std::tan(w / 2); }

enum Kind { LP, HP, BP, BS };
static const char* kname[] = {"low-pass", "high-pass", "band-pass", "band-stop"};
// frequency variable of the low-pass prototype (edge at 1) for digital frequency w
static ld proto(Kind k, ld w, ld w1, ld w2) {
    const ld O = tanh_(w), A = std::tan(w1 / 2), B = std::tan(w2 / 2);
    switch (k) { case LP: return O / A; case HP: return O == 0 ? 1e18L : A / O; default: break; }
    const ld num = O * O - A * B, den = O * (B - A); 
    ld x = k == BP ? (den == 0 ? 1e18L : num / den) : (num == 0 ? 1e18L : den / num);
    return std::fabs(x);
}
static std::vector<ld> grid(ld w1, ld w2, int steps) {
    std::vector<ld> g; for (int i = 0; i <= steps; ++i) g.push_back(PI * i / steps);
    for (ld e : {w1, w2}) for (ld m : {0.5L, 0.9L, 0.99L, 1.0L, 1.01L, 1.1L, 1.5L}) if (e * m < PI) g.push_back(e * m);
    g.push_back((w1 + w2) / 2); g.push_back(std::sqrt(w1 * w2)); g.push_back(2 * std::atan(std::sqrt(std::tan(w1 / 2) * std::tan(w2 / 2))));
    return g;
}
// compares the magnitude of the cascade with `mag(x)` (x = prototype frequency) on the grid
template <typename T, typename C, typename F> void compare(Ctx& c, const C& cas, Kind k, ld w1, ld w2, int order, F mag, const char* what, ld exact = 0) {
    const size_t stages = k == LP || k == HP ? (order + 1) / 2 : order;
    if (!c.ok(cas.size() == stages)) c.fail("stages", "%s has %zu stages, expected %zu", what, (size_t)cas.size(), stages);
    if ((1 - exact) * (1 - exact) < 64 * std::numeric_limits<T>::epsilon()) return;   // the poles cannot be told from the unit circle in this element type
    ld rmax = 0; for (auto& s : cas) { if (!c.ok(s.stability())) c.fail("stable", "%s: a stage reports itself unstable (a1 %Lg a2 %Lg)", what, (ld)s.a1(), (ld)s.a2()); rmax = std::max(rmax, radius(s)); }
    if (!c.ok(rmax < 1)) c.fail("stable", "%s: pole radius %Lg", what, rmax);
    // coefficients are rounded to T: allow for the sensitivity of the poles and zeros near the unit circle
    const ld eps = std::numeric_limits<T>::epsilon(), edge = std::min(w1, PI - w2);
    const ld tol = 2000 * eps * order * (1 + 1 / (edge * edge) + (k >= BP ? 1 / ((w2 - w1) * (w2 - w1)) : 0) + 1 / ((1 - rmax) * (1 - rmax)) / 8);
    if (tol > 0.05L) return;                                   // too ill-conditioned for this element type
    for (ld w : grid(w1, w2, c.tier(32, 200))) {
        const ld got = std::abs(response(cas, w)), want = mag(proto(k, w, w1, w2));
        if (!c.ok(std::fabs(got - want) <= tol)) c.fail("magnitude", "%s at %.6Lf of Nyquist: magnitude %.12Lg, expected %.12Lg (tolerance %Lg)", what, w / PI, got, want, tol);
    }
    c.nontrivial();
}
struct Band { double f1, f2; };
static const std::vector<double> kEdges = {0.0005, 0.002, 0.005, 0.01, 0.02, 0.05, 0.075, 0.1, 0.125, 0.15, 0.2, 0.24, 0.25, 0.26, 0.3, 0.35, 0.4, 0.45, 0.48, 0.49, 0.498};
static const std::vector<Band> kBands = [] { std::vector<Band> r; const double e[] = {0.01, 0.02, 0.03, 0.05, 0.1, 0.15, 0.2, 0.24, 0.25, 0.26, 0.3, 0.35, 0.4, 0.45, 0.48}; for (int i = 0; i < 15; ++i) for (int k = i + 1; k < 15; ++k) r.push_back({e[i], e[k]}); return r; }();
static const std::vector<double> kRates = {1, 44100, 8000, 192000, 0.375};

template <typename T> struct Edges { T fs, fc, bw; ld w1, w2; };
template <typename T> Edges<T> edges(Ctx& c, Kind k) {
    Edges<T> e; e.fs = T(c.pick(kRates, "rate"));
    if (k <= HP) { e.fc = T(c.pick(kEdges, "edge") * e.fs); e.bw = 0; e.w1 = e.w2 = 2 * PI * ((ld)e.fc / e.fs); }
    else { Band b = c.pick(kBands, "band"); e.fc = T((b.f1 + b.f2) / 2 * e.fs); e.bw = T((b.f2 - b.f1) * e.fs);
        e.w1 = 2 * PI * (((ld)e.fc - (ld)e.bw / 2) / e.fs); e.w2 = 2 * PI * (((ld)e.fc + (ld)e.bw / 2) / e.fs); }
    return e;
}
template <typename T, designer_type D, size_t M, typename... P> void run(Ctx& c, Kind k, int order, const Edges<T>& e, P... p);

#if defined(C08) || defined(C09)
template <typename T, designer_type D, size_t M, typename F, typename... P> void design(Ctx& c, Kind k, int order, const Edges<T>& e, F mag, const char* what, P... p) {
    const std::size_t n = (std::size_t)order; const bool narrow = sizeof(T) < sizeof(double); auto far = [&](const auto& f) { ld r = 0; for (auto& s : f) r = std::max(r, radius(s)); return r; };   // pole radius of the same design in double
    const double fs = e.fs, fc = e.fc, bw = e.bw;
    if (k == LP) { auto f = make_filter<T, D, filter_type::LowPass, M>(n, e.fs, e.fc, p...); compare<T>(c, f, k, e.w1, e.w2, order, mag, what, narrow ? far(make_filter<double, D, filter_type::LowPass, M>(n, fs, fc, (double)p...)) : 0); }
    if (k == HP) { auto f = make_filter<T, D, filter_type::HighPass, M>(n, e.fs, e.fc, p...); compare<T>(c, f, k, e.w1, e.w2, order, mag, what, narrow ? far(make_filter<double, D, filter_type::HighPass, M>(n, fs, fc, (double)p...)) : 0); }
    if (k == BP) { auto f = make_filter<T, D, filter_type::BandPass, M>(n, e.fs, e.fc, e.bw, p...); compare<T>(c, f, k, e.w1, e.w2, order, mag, what, narrow ? far(make_filter<double, D, filter_type::BandPass, M>(n, fs, fc, bw, (double)p...)) : 0); }
    if (k == BS) { auto f = make_filter<T, D, filter_type::BandStop, M>(n, e.fs, e.fc, e.bw, p...); compare<T>(c, f, k, e.w1, e.w2, order, mag, what, narrow ? far(make_filter<double, D, filter_type::BandStop, M>(n, fs, fc, bw, (double)p...)) : 0); }
}
#endif
#if defined(C08)
template <typename T, size_t M> void butter(Ctx& c) {
    const Kind k = (Kind)c.choose(4, "kind"); const int order = c.range(1, M, "order"); auto e = edges<T>(c, k);
    char what[200]; snprintf(what, sizeof what, "Butterworth %s order %d (max %zu) fs %g fc %g bw %g", kname[k], order, M, (double)e.fs, (double)e.fc, (double)e.bw); c.at("%s", what);
    design<T, designer_type::Butterworth, M>(c, k, order, e, [order](ld x) { return 1 / std::sqrt(1 + std::pow(x, 2 * order)); }, what);
}
SCENARIO(max1, 4) { butter<double, 1>(c); }
SCENARIO(max2, 4) { butter<double, 2>(c); }
SCENARIO(max3, 4) { butter<double, 3>(c); }
SCENARIO(max6, 8) { butter<double, 6>(c); }
SCENARIO(max11, 8) { butter<double, 11>(c); }
SCENARIO(max20, 8) { butter<double, 20>(c); }
SCENARIO(max4_float, 8) { butter<float, 4>(c); }
// shelves: prototype |H|^2 = (g^2 x^-2n...) -- unit gain far away, requested gain on the shelf, monotone in between
template <typename T, size_t M> void shelf(Ctx& c) {
    const int kind = c.choose(3, "kind"), order = c.range(1, M, "order"); auto e = edges<T>(c, kind == 2 ? BP : LP);
    const T db = T(c.pick({-60.0, -24.0, -6.0, -1.0, -0.3, 0.0, 0.45, 3.0, 12.5, 30.0, 50.0}, "gain")); const std::size_t n = (std::size_t)order;
    char what[200]; snprintf(what, sizeof what, "Butterworth %s order %d fs %g fc %g bw %g gain %g dB", kind == 0 ? "low shelf" : kind == 1 ? "high shelf" : "band shelf", order, (double)e.fs, (double)e.fc, (double)e.bw, (double)db); c.at("%s", what);
    const ld G = std::pow(10.0L, (ld)db / 20);
    // analog low shelf of order n: |H|^2 = (x^2n + G) / (x^2n + 1/G) * ... normalised to 1 at infinity
    auto mag = [&](ld x) { ld y = std::pow(x, 2 * order); return std::sqrt((y + G) / (y + 1 / G)); };
    const ld tol = 1e4L * std::numeric_limits<T>::epsilon() * std::max<ld>(G, 1) * order * (1 + 1 / (std::min(e.w1, PI - e.w2) * std::min(e.w1, PI - e.w2)) + (kind == 2 ? 4 / ((e.w2 - e.w1) * (e.w2 - e.w1)) : 0));
    if (tol > 0.05L) return;
    auto go = [&](auto f, Kind k) {
        for (auto& s : f) if (!c.ok(s.stability())) c.fail("stable", "%s: unstable stage", what);
        for (ld w : grid(e.w1, e.w2, c.tier(32, 200))) { const ld got = std::abs(response(f, w)), want = mag(proto(k, w, e.w1, e.w2));
            if (!c.ok(std::fabs(got - want) <= tol)) c.fail("shelf-magnitude", "%s at %.6Lf of Nyquist: magnitude %.12Lg, expected %.12Lg", what, w / PI, got, want); }
    };
    if (kind == 0) go(make_filter<T, designer_type::Butterworth, filter_type::LowShelf, M>(n, e.fs, e.fc, db), LP);
    if (kind == 1) go(make_filter<T, designer_type::Butterworth, filter_type::HighShelf, M>(n, e.fs, e.fc, db), HP);
    if (kind == 2) go(make_filter<T, designer_type::Butterworth, filter_type::BandShelf, M>(n, e.fs, e.fc, e.bw, db), BP);
}
SCENARIO(shelves, 8) { shelf<double, 7>(c); }
SCENARIO(shelves_float, 8) { shelf<float, 3>(c); }
#elif defined(C09)
template <typename T, size_t M> void cheb1(Ctx& c) {
    const Kind k = (Kind)c.choose(4, "kind"); const int order = c.range(1, M, "order"); auto e = edges<T>(c, k);
    const T rip = T(c.pick({0.01, 0.5, 1.0, 3.0, 6.0, 12.5}, "ripple")); const ld e2 = std::pow(10.0L, (ld)rip / 10) - 1;
    char what[200]; snprintf(what, sizeof what, "Chebyshev I %s order %d (max %zu) fs %g fc %g bw %g ripple %g dB", kname[k], order, M, (double)e.fs, (double)e.fc, (double)e.bw, (double)rip); c.at("%s", what);
    design<T, designer_type::ChebyshevI, M>(c, k, order, e, [=](ld x) { ld t = cheb(order, x); return 1 / std::sqrt(1 + e2 * t * t); }, what, rip);
}
template <typename T, size_t M> void cheb2(Ctx& c) {
    const Kind k = (Kind)c.choose(4, "kind"); const int order = c.range(1, M, "order"); auto e = edges<T>(c, k);
    const T att = T(c.pick({1.5, 3.0, 20.0, 40.0, 60.0, 96.5}, "attenuation")); const ld e2 = 1 / (std::pow(10.0L, (ld)att / 10) - 1);
    char what[200]; snprintf(what, sizeof what, "Chebyshev II %s order %d (max %zu) fs %g fc %g bw %g attenuation %g dB", kname[k], order, M, (double)e.fs, (double)e.fc, (double)e.bw, (double)att); c.at("%s", what);
    design<T, designer_type::ChebyshevII, M>(c, k, order, e, [=](ld x) { if (x == 0) return 1.0L; ld t = cheb(order, 1 / x); return 1 / std::sqrt(1 + 1 / (e2 * t * t)); }, what, att);
}
// shelves: |H|^2 = (G^2 + e^2 T^2) / (1 + e^2 T^2), the cut being the reciprocal of the boost
template <typename T, designer_type D, size_t M> void shelf(Ctx& c) {
    const int kind = c.choose(3, "kind"), order = c.range(1, M, "order"); auto e = edges<T>(c, kind == 2 ? BP : LP);
    const T db = T(c.pick({-45.0, -24.0, -6.0, -0.4, 0.0, 2.0, 3.5, 12.5, 30.0}, "gain")), rip = T(c.pick({0.1, 0.75, 1.0, 3.0}, "ripple")); const std::size_t n = (std::size_t)order;
    char what[220]; snprintf(what, sizeof what, "Chebyshev %s %s order %d fs %g fc %g bw %g gain %g dB ripple %g dB", D == designer_type::ChebyshevI ? "I" : "II", kind == 0 ? "low shelf" : kind == 1 ? "high shelf" : "band shelf", order, (double)e.fs, (double)e.fc, (double)e.bw, (double)db, (double)rip); c.at("%s", what);
    const ld a = std::fabs((ld)db), G = std::pow(10.0L, a / 20), Gb = std::pow(10.0L, (a - rip) / 20), e2 = (G * G - Gb * Gb) / (Gb * Gb - 1);
    auto mag = [&](ld x) { ld t = cheb(order, x), t2 = e2 * t * t, v = std::sqrt((G * G + t2) / (1 + t2)); if (std::isinf(t2)) v = 1; return db < 0 ? 1 / v : v; };
    const ld tol = 3e4L * std::numeric_limits<T>::epsilon() * G * order * order * (1 + 1 / (std::min(e.w1, PI - e.w2) * std::min(e.w1, PI - e.w2)) + (kind == 2 ? 4 / ((e.w2 - e.w1) * (e.w2 - e.w1)) : 0));
    if (tol > 0.05L) return;
    const bool wide = rip >= std::fabs(db);   // a ripple as large as the gain (or no gain at all): only the bounds are specified
    auto go = [&](auto f, Kind k) {
        for (auto& s : f) if (!c.ok(s.stability())) c.fail("stable", "%s: unstable stage", what);
        if (wide) { const ld lo = db < 0 ? 1 / G : 1, hi = db < 0 ? 1 : G; for (ld w : grid(e.w1, e.w2, c.tier(32, 200))) { const ld got = std::abs(response(f, w)); if (!c.ok(got >= lo - tol && got <= hi + tol)) c.fail("shelf-wide", "%s at %.6Lf of Nyquist: magnitude %.12Lg outside [%.12Lg, %.12Lg]", what, w / PI, got, lo, hi); } return; }
        for (ld w : grid(e.w1, e.w2, c.tier(32, 200))) { const ld got = std::abs(response(f, w)), x = proto(k, w, e.w1, e.w2), want = mag(x);
            if (D == designer_type::ChebyshevI) { if (!c.ok(std::fabs(got - want) <= tol)) c.fail("shelf-magnitude", "%s at %.6Lf of Nyquist: magnitude %.12Lg, expected %.12Lg", what, w / PI, got, want); }
            else { const ld lo = db < 0 ? 1 / G : Gb, hi = db < 0 ? 1 / Gb : G;   // type II: on the shelf within the ripple, unit gain far away
                if (x <= 0.999L && !c.ok(got >= lo - tol && got <= hi + tol)) c.fail("shelf-gain", "%s at %.6Lf of Nyquist: magnitude %.12Lg outside [%.12Lg, %.12Lg]", what, w / PI, got, lo, hi);
                if (x >= 1e15L && !c.ok(std::fabs(got - 1) <= tol)) c.fail("shelf-far", "%s at %.6Lf of Nyquist: magnitude %.12Lg, expected 1", what, w / PI, got); } }
    };
    if (kind == 0) go(make_filter<T, D, filter_type::LowShelf, M>(n, e.fs, e.fc, db, rip), LP);
    if (kind == 1) go(make_filter<T, D, filter_type::HighShelf, M>(n, e.fs, e.fc, db, rip), HP);
    if (kind == 2) go(make_filter<T, D, filter_type::BandShelf, M>(n, e.fs, e.fc, e.bw, db, rip), BP);
}
SCENARIO(shelves1, 8) { shelf<double, designer_type::ChebyshevI, 6>(c); }
SCENARIO(shelves2, 8) { shelf<double, designer_type::ChebyshevII, 6>(c); }
SCENARIO(shelves1_float, 8) { shelf<float, designer_type::ChebyshevI, 3>(c); }
SCENARIO(type1_max1, 4) { cheb1<double, 1>(c); }
SCENARIO(type1_max2, 4) { cheb1<double, 2>(c); }
SCENARIO(type1_max3, 4) { cheb1<double, 3>(c); }
SCENARIO(type1_max8, 8) { cheb1<double, 8>(c); }
SCENARIO(type1_max16, 8) { cheb1<double, 16>(c); }
SCENARIO(type2_max16, 8) { cheb2<double, 16>(c); }
SCENARIO(type1_max4_float, 8) { cheb1<float, 4>(c); }
SCENARIO(type2_max1, 4) { cheb2<double, 1>(c); }
SCENARIO(type2_max2, 4) { cheb2<double, 2>(c); }
SCENARIO(type2_max3, 4) { cheb2<double, 3>(c); }
SCENARIO(type2_max8, 8) { cheb2<double, 8>(c); }
SCENARIO(type2_max4_float, 8) { cheb2<float, 4>(c); }
#else
static const std::vector<double> kFc = {0.001, 0.01, 0.05, 0.1, 0.2, 0.25, 0.3, 0.4, 0.45, 0.49};
static const std::vector<double> kQ = {0.05, 0.3, 0.5, 0.70710678118654752, 1, 2.5, 10, 80};
template <typename T, typename B> void values(Ctx& c, const B& f, ld wc, ld q, ld ratio, std::vector<std::pair<ld, ld>> pts, const char* what) {
    const ld cond = 100 * std::numeric_limits<T>::epsilon() * ratio * (1 + 1 / (wc * wc) + 1 / ((PI - wc) * (PI - wc)));   // below it the poles are distinguishable from the unit circle in T
    if (cond < 1 && !c.ok(f.stability() && radius(f) < 1)) c.fail("stable", "%s is unstable", what);
    for (auto& p : pts) { const ld got = std::abs(response1(f, p.first)), tol = 2e3L * std::numeric_limits<T>::epsilon() * (1 + p.second) * (1 + q) * (1 + 1 / (wc * wc) + 1 / ((PI - wc) * (PI - wc)));
        if (tol > 0.05L) continue;
        if (!c.ok(std::fabs(got - p.second) <= tol)) c.fail("gain", "%s: magnitude at %.6Lf of Nyquist is %.12Lg, expected %.12Lg", what, p.first / PI, got, p.second); }
}
template <typename T> void rbj(Ctx& c) {
    const T fs = T(c.pick(kRates)), fc = T(c.pick(kFc) * fs), Q = T(c.pick(kQ)); const int kind = c.choose(6, "kind");
    const T db = T(kind >= 4 ? c.pick({-60.0, -24.0, -6.0, -1.0, -0.3, 0.0, 0.45, 1.0 /* the default */, 3.0, 12.5, 30.0, 50.0}) : 1.0);
    const ld wc = 2 * PI * ((ld)fc / fs), q = Q; const designer_type D = designer_type::RBJ; const int steps = c.tier(64, 512);
    char what[160]; snprintf(what, sizeof what, "RBJ kind %d fs %g fc %g Q %g gain %g dB", kind, (double)fs, (double)fc, (double)Q, (double)db); c.at("%s", what);
    std::vector<std::pair<ld, ld>> p;
    const ld K = std::tan(wc / 2), G = std::pow(10.0L, (ld)db / 20), A = std::sqrt(G);
    auto analog = [&](std::function<ld(cld)> h) { for (int i = 0; i < steps; ++i) { ld w = PI * i / steps; p.push_back({w, h(cld(0, std::tan(w / 2) / K))}); } p.push_back({wc, h(cld(0, 1))}); };
    switch (kind) {   // the analog prototypes of the Audio EQ cookbook
        case 0: analog([=](cld s) { return std::abs(1.0L / (s * s + s / q + 1.0L)); }); p.push_back({PI, 0}); values<T>(c, make_filter<T, D, filter_type::LowPass, 2>(fc, fs, Q), wc, q, std::pow(10.0L, std::fabs((ld)db) / 20), p, what); break;
        case 1: analog([=](cld s) { return std::abs(s * s / (s * s + s / q + 1.0L)); }); p.push_back({PI, 1}); values<T>(c, make_filter<T, D, filter_type::HighPass, 2>(fc, fs, Q), wc, q, std::pow(10.0L, std::fabs((ld)db) / 20), p, what); break;
        case 2: analog([=](cld s) { return std::abs(s / (s * s + s / q + 1.0L)); }); p.push_back({PI, 0}); values<T>(c, make_filter<T, D, filter_type::BandPass, 2>(fc, fs, Q), wc, q, std::pow(10.0L, std::fabs((ld)db) / 20), p, what); break;
        case 3: analog([=](cld) { return 1.0L; }); p.push_back({PI, 1}); values<T>(c, make_filter<T, D, filter_type::AllPass, 2>(fc, fs, Q), wc, q, std::pow(10.0L, std::fabs((ld)db) / 20), p, what); break;
        case 4: analog([=](cld s) { return std::abs(A * (s * s + std::sqrt(A) / q * s + A) / (A * s * s + std::sqrt(A) / q * s + 1.0L)); }); p.push_back({PI, 1}); values<T>(c, (db == 1 ? make_filter<T, D, filter_type::LowShelf, 2>(fc, fs, Q) : make_filter<T, D, filter_type::LowShelf, 2>(fc, fs, Q, db)), wc, q, std::pow(10.0L, std::fabs((ld)db) / 20), p, what); break;
        default: analog([=](cld s) { return std::abs(A * (A * s * s + std::sqrt(A) / q * s + 1.0L) / (s * s + std::sqrt(A) / q * s + A)); }); p.push_back({PI, G}); values<T>(c, (db == 1 ? make_filter<T, D, filter_type::HighShelf, 2>(fc, fs, Q) : make_filter<T, D, filter_type::HighShelf, 2>(fc, fs, Q, db)), wc, q, std::pow(10.0L, std::fabs((ld)db) / 20), p, what);
    }
    if (kind == 3) { // all-pass: phase is -180 degrees at the design frequency
        auto f = make_filter<T, D, filter_type::AllPass, 2>(fc, fs, Q); if (!c.ok(std::abs(response1(f, wc) + 1.0L) < 1e4L * std::numeric_limits<T>::epsilon() * (1 + 1 / (wc * wc)) * (1 + q))) c.fail("phase", "%s: all-pass response at the design frequency is not -1", what); }
}
template <typename T> void zoelzer(Ctx& c) {
    const T fs = T(c.pick(kRates)), fc = T(c.pick(kFc) * fs), Q = T(c.pick(kQ)); const int kind = c.choose(5, "kind");
    const T db = T(kind >= 3 ? c.pick({-60.0, -24.0, -6.0, -1.0, -0.3, 0.0, 0.45, 1.0 /* the default */, 3.0, 12.5, 30.0, 50.0}) : 1.0);
    const ld wc = 2 * PI * ((ld)fc / fs), q = Q; const designer_type D = designer_type::Zolzer; const int steps = c.tier(64, 512);
    char what[160]; snprintf(what, sizeof what, "Zoelzer kind %d fs %g fc %g Q %g gain %g dB", kind, (double)fs, (double)fc, (double)Q, (double)db); c.at("%s", what);
    std::vector<std::pair<ld, ld>> p;
    const ld K = std::tan(wc / 2), V = std::pow(10.0L, (ld)db / 20), r2 = std::sqrt(2.0L);
    auto analog = [&](std::function<ld(cld)> h) { for (int i = 0; i < steps; ++i) { ld w = PI * i / steps; p.push_back({w, h(cld(0, std::tan(w / 2) / K))}); } p.push_back({wc, h(cld(0, 1))}); };
    switch (kind) {
        case 0: analog([=](cld s) { return std::abs(1.0L / (s * s + s / q + 1.0L)); }); p.push_back({PI, 0}); values<T>(c, make_filter<T, D, filter_type::LowPass, 2>(fc, fs, Q), wc, q, std::pow(10.0L, std::fabs((ld)db) / 20), p, what); break;
        case 1: analog([=](cld s) { return std::abs(s * s / (s * s + s / q + 1.0L)); }); p.push_back({PI, 1}); values<T>(c, make_filter<T, D, filter_type::HighPass, 2>(fc, fs, Q), wc, q, std::pow(10.0L, std::fabs((ld)db) / 20), p, what); break;
        case 2: analog([=](cld s) { return std::abs((s / q) / (s * s + s / q + 1.0L)); }); p.push_back({PI, 0}); values<T>(c, make_filter<T, D, filter_type::BandPass, 2>(fc, fs, Q), wc, q, std::pow(10.0L, std::fabs((ld)db) / 20), p, what); break;
        case 3: { ld v = V >= 1 ? V : 1 / V; auto boost = [=](cld s) { return std::abs((s * s + std::sqrt(2 * v) * s + v) / (s * s + r2 * s + 1.0L)); };
            if (V >= 1) { analog(boost); } 
            else analog([=](cld s) { return std::abs((s * s + r2 * s + 1.0L) / (s * s + std::sqrt(2 / V) * s + 1 / V)); });
            p.push_back({PI, 1}); values<T>(c, (db == 1 ? make_filter<T, D, filter_type::LowShelf, 2>(fc, fs, Q) : make_filter<T, D, filter_type::LowShelf, 2>(fc, fs, Q, db)), wc, q, std::pow(10.0L, std::fabs((ld)db) / 20), p, what); break; }
        default:
            if (V >= 1) analog([=](cld s) { return std::abs((V * s * s + std::sqrt(2 * V) * s + 1.0L) / (s * s + r2 * s + 1.0L)); });
            else analog([=](cld s) { return std::abs((s * s + r2 * s + 1.0L) / (s * s / V + std::sqrt(2 / V) * s + 1.0L)); });
            p.push_back({PI, V}); values<T>(c, (db == 1 ? make_filter<T, D, filter_type::HighShelf, 2>(fc, fs, Q) : make_filter<T, D, filter_type::HighShelf, 2>(fc, fs, Q, db)), wc, q, std::pow(10.0L, std::fabs((ld)db) / 20), p, what);
    }
}
SCENARIO(rbj_double, 8) { rbj<double>(c); }
SCENARIO(rbj_float, 8) { rbj<float>(c); }
SCENARIO(zoelzer_double, 8) { zoelzer<double>(c); }
SCENARIO(zoelzer_float, 8) { zoelzer<float>(c); }
#endif
