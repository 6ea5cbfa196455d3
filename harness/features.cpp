// C21 statistics, C22 temporal features, C23 spectral and statistical descriptors, C24 converters, C31 numeric helpers.
#include <stdexcept>
#include <numeric>
#include <complex>
#include <cmath>
#include "inputs.hpp"
using mc::Ctx; typedef long double ld;
// every descriptor: a call through any forward iterator, and a model giving the defined value and an error bound in T
template <typename T> struct Lim { static constexpr ld eps = std::numeric_limits<T>::epsilon(), max = std::numeric_limits<T>::max(), min = std::numeric_limits<T>::min(); };
struct Ref { ld v, tol; bool in; };                                          // value, absolute tolerance, inside the domain
static const Ref OUT{0, 0, false};
typedef std::vector<ld> V;
static ld sum(const V& x) { ld s = 0; for (ld v : x) s += v; return s; }
template <typename T> Ref rel(ld v, size_t n, ld k = 8) { return std::isfinite(v) && std::fabs(v) < Lim<T>::max / 4 ? Ref{v, std::fabs(v) * Lim<T>::eps * (k + n) + Lim<T>::min, true} : OUT; }
template <typename T> bool fits(ld v) { return std::isfinite(v) && std::fabs(v) < Lim<T>::max / 16 && std::fabs(v) > Lim<T>::min * 1024; }
static bool all_pos(const V& x) { for (ld v : x) if (!(v > 0)) return false; return true; }
static ld ipow(ld x, int k) { ld r = 1; while (k-- > 0) r *= x; return r; }
// central moment with the error a two-pass evaluation in T can make
template <typename T> Ref mom(const V& x, int k) {
    const ld n = x.size(), m = sum(x) / n; ld a = 0; for (ld v : x) a += std::fabs(v); a /= n;
    const ld d = Lim<T>::eps * (n + 3) * a; ld v = 0, abs = 0, up = 0;
    for (ld e : x) { const ld q = e - m, t = ipow(q, k); v += t; abs += std::fabs(t); up += ipow(std::fabs(q) + d, k); }
    if (!(up < Lim<T>::max / 16)) return OUT;
    return {v / n, 2 * ((up - abs) + up * Lim<T>::eps * (n + k + 4)) / n + Lim<T>::min, true};
}
struct Fn { const char* name; std::vector<double> par; };
#define RET(e) return static_cast<ld>(e)

#if defined(C21)
#include <edsp/statistics/mean.hpp>
#include <edsp/statistics/moment.hpp>
#include <edsp/statistics/variance.hpp>
#include <edsp/statistics/skewness.hpp>
#include <edsp/statistics/kurtosis.hpp>
#include <edsp/statistics/generalized_mean.hpp>
#include <edsp/statistics/geometric_mean.hpp>
#include <edsp/statistics/harmonic_mean.hpp>
#include <edsp/statistics/norm.hpp>
#include <edsp/statistics/median.hpp>
#include <edsp/statistics/max.hpp>
#include <edsp/statistics/min.hpp>
#include <edsp/statistics/peak.hpp>
namespace st = edsp::statistics;
static const std::vector<Fn> FN = {{"mean", {0}}, {"moment", {1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12}}, {"moment about a given value", {1, 2, 3, 4, 5, 6, 7, 8}}, {"variance", {0}}, {"standard_deviation", {0}}, {"skewness", {0}}, {"kurtosis", {0}},
    {"generalized_mean", {1, 2, 3, 4, 5, 6, 7, -1, -2, -3, -5}}, {"geometric_mean", {0}}, {"harmonic_mean", {0}}, {"norm", {0}}, {"median", {0}},
    {"max", {0}}, {"min", {0}}, {"maxabs", {0}}, {"minabs", {0}}, {"peak position", {0}}, {"peak value", {0}}, {"peakabs position", {0}}, {"peakabs value", {0}}};
template <typename T, typename I> ld call(int f, double p, I a, I b) {
    switch (f) {
        case 0: RET(st::mean(a, b));
        case 1: switch ((int)p) { case 1: RET(st::moment<1>(a, b)); case 2: RET(st::moment<2>(a, b)); case 3: RET(st::moment<3>(a, b)); case 4: RET(st::moment<4>(a, b)); case 5: RET(st::moment<5>(a, b)); case 6: RET(st::moment<6>(a, b)); case 7: RET(st::moment<7>(a, b)); case 8: RET(st::moment<8>(a, b)); case 9: RET(st::moment<9>(a, b)); case 11: RET(st::moment<11>(a, b)); default: RET(st::moment<12>(a, b)); }
        case 2: switch ((int)p) { case 1: RET(st::moment<1>(a, b, T(0.5))); case 2: RET(st::moment<2>(a, b, T(0.5))); case 3: RET(st::moment<3>(a, b, T(0.5))); case 4: RET(st::moment<4>(a, b, T(0.5))); case 5: RET(st::moment<5>(a, b, T(0.5))); case 6: RET(st::moment<6>(a, b, T(0.5))); case 7: RET(st::moment<7>(a, b, T(0.5))); default: RET(st::moment<8>(a, b, T(0.5))); }
        case 3: RET(st::variance(a, b)); case 4: RET(st::standard_deviation(a, b)); case 5: RET(st::skewness(a, b)); case 6: RET(st::kurtosis(a, b));
        case 7: RET(st::generalized_mean(a, b, (int)p)); case 8: RET(st::geometric_mean(a, b)); case 9: RET(st::harmonic_mean(a, b)); case 10: RET(st::norm(a, b)); case 11: RET(st::median(a, b));
        case 12: RET(st::max(a, b)); case 13: RET(st::min(a, b)); case 14: RET(st::maxabs(a, b)); case 15: RET(st::minabs(a, b));
        case 16: RET(st::peak(a, b).first); case 17: RET(st::peak(a, b).second); case 18: RET(st::peakabs(a, b).first); default: RET(st::peakabs(a, b).second);
    }
}
template <typename T> Ref model(int f, double p, const V& x, const V&) {
    const ld n = x.size(), e = Lim<T>::eps;
    switch (f) {
        case 0: { ld a = 0; for (ld v : x) a += std::fabs(v); if (!(a < Lim<T>::max / 4)) return OUT; return {sum(x) / n, e * (n + 4) * a / n * 2 + Lim<T>::min, true}; }
        case 1: return mom<T>(x, (int)p);
        case 2: { ld v = 0, a = 0; for (ld q : x) { const ld d = q - 0.5L; const ld t = ipow(d, (int)p); v += t; a += std::fabs(t); } if (!(a < Lim<T>::max / 16)) return OUT; return {v / n, a / n * e * (n + 8 + 2 * p) * 2 + Lim<T>::min, true}; }
        case 3: return mom<T>(x, 2);
        case 4: { Ref m = mom<T>(x, 2); if (!m.in) return m; const ld s = std::sqrt(m.v); return {s, std::sqrt(m.v + m.tol) - std::sqrt(std::max((ld)0, m.v - m.tol)) + s * e * 4, true}; }
        case 5: case 6: { Ref m2 = mom<T>(x, 2), mk = mom<T>(x, f == 5 ? 3 : 4); if (!m2.in || !mk.in || !(m2.v > m2.tol * 1000)) return OUT;
            const ld den = f == 5 ? std::pow(m2.v, 1.5L) : m2.v * m2.v; if (!fits<T>(den)) return OUT; const ld v = mk.v / den;
            ld a = 0; const ld m = sum(x) / n; for (ld q : x) a += ipow(std::fabs(q - m), f == 5 ? 3 : 4);
            return {v, 2 * (mk.tol / den + (a / n / den) * (2 * m2.tol / m2.v + 8 * e)), true}; }
        case 7: { const bool even = std::fmod(std::fabs(p), 2.0) == 0; if (p != 1 && !even && !all_pos(x)) return OUT; if (p == 1) { ld s = 0, a = 0; for (ld q : x) { s += q; a += std::fabs(q); } return {s / n, e * (n + 8) * a / n * 2 + Lim<T>::min, a < Lim<T>::max / 4}; } ld s = 0; for (ld q : x) { if (q == 0) return OUT; const ld t = p > 0 ? ipow(std::fabs(q), (int)p) : 1 / ipow(std::fabs(q), (int)-p); if (!fits<T>(t)) return OUT; s += t; } if (!fits<T>(s)) return OUT; { const ld v = std::pow(s / n, 1 / (ld)p); return rel<T>(v, n, 16 + 2 * std::fabs(std::log(s / n))); } }
        case 8: { bool zero = false; for (ld q : x) { if (q < 0) return OUT; zero |= q == 0; } if (zero) return {0, 0, true}; ld s = 0, a = 0; for (ld q : x) { s += std::log(q); a += std::fabs(std::log(q)); } const ld v = std::exp(s / n); return {v, v * e * ((n + 8) * (1 + a / n)) * 2 + Lim<T>::min * e, true}; }
        case 9: { if (!all_pos(x)) return OUT; ld s = 0; for (ld q : x) { if (!fits<T>(q)) return OUT; s += 1 / q; } if (!fits<T>(s)) return OUT; return rel<T>(n / s, n); }
        case 10: { ld s = 0; bool any = false; for (ld q : x) { s += q * q; any |= q != 0; } if (any && !fits<T>(s)) return OUT; return rel<T>(std::sqrt(s), n); }
        case 11: { V s = x; std::sort(s.begin(), s.end()); const size_t h = s.size() / 2; const ld v = s.size() % 2 ? s[h] : (s[h - 1] + s[h]) / 2; return {v, s.size() % 2 ? 0 : (std::fabs(s[h - 1]) + std::fabs(s[h])) * e + Lim<T>::min * e, s.size() % 2 || std::fabs(s[h - 1]) + std::fabs(s[h]) < Lim<T>::max / 4}; }
        case 12: return {*std::max_element(x.begin(), x.end()), 0, true}; case 13: return {*std::min_element(x.begin(), x.end()), 0, true};
        default: {
            size_t hi = 0, ahi = 0, alo = 0; for (size_t i = 1; i < x.size(); ++i) { if (x[i] > x[hi]) hi = i; if (std::fabs(x[i]) > std::fabs(x[ahi])) ahi = i; if (std::fabs(x[i]) < std::fabs(x[alo])) alo = i; }
            switch (f) { case 14: return {std::fabs(x[ahi]), 0, true}; case 15: return {std::fabs(x[alo]), 0, true}; case 16: return {(ld)hi, 0, true}; case 17: return {x[hi], 0, true}; case 18: return {(ld)ahi, 0, true}; default: return {x[ahi], 0, true}; }
        }
    }
}
template <typename T, typename I> ld call2(int, double, I, I, I) { return 0; }
static bool pairwise(int) { return false; }
static const std::initializer_list<double> ALPHA = {-2, -1, -0.5, 0, 0.5, 1, 3}, POS = {0.25, 1, 2, 7};
static bool positive(int f) { return f >= 7 && f <= 9; }
#elif defined(C22)
#include <edsp/feature/temporal/energy.hpp>
#include <edsp/feature/temporal/power.hpp>
#include <edsp/feature/temporal/rms.hpp>
#include <edsp/feature/temporal/rssq.hpp>
#include <edsp/feature/temporal/azcr.hpp>
#include <edsp/feature/temporal/duration.hpp>
#include <edsp/feature/temporal/leq.hpp>
#include <edsp/feature/statistics/centroid.hpp>  // both kinds of feature can be used in one program
#include <edsp/feature/temporal/snr.hpp>
#include <edsp/feature/temporal/amdf.hpp>
#include <edsp/feature/temporal/asdf.hpp>
#include <edsp/feature/perceptual/loudness.hpp>
namespace ft = edsp::feature;
static const std::vector<Fn> FN = {{"energy", {0}}, {"power", {0}}, {"rms", {0}}, {"rssq", {0}}, {"azcr", {0}}, {"duration", {1, 44100, 0.5}}, {"effective_duration", {0, 0.25, 0.5, 1}}, {"leq", {0}}, {"snr", {0}}, {"loudness", {0}}};
template <typename T, typename I> ld call(int f, double p, I a, I b) {
    switch (f) { case 0: RET(ft::energy(a, b)); case 1: RET(ft::power(a, b)); case 2: RET(ft::rms(a, b)); case 3: RET(ft::rssq(a, b)); case 5: RET(ft::duration(a, b, T(p))); case 6: RET(ft::effective_duration(a, b, T(8000), T(p))); case 7: RET(ft::leq(a, b)); case 9: RET(ft::loudness(a, b)); } return 0;
}
template <typename T, typename I> ld call_bidi(int, double, I a, I b) { RET(ft::azcr(a, b)); }
template <typename T, typename I> ld call2(int, double, I a, I b, I y) { RET(ft::snr(a, b, y)); }
static bool pairwise(int f) { return f == 8; }
template <typename T> Ref model(int f, double p, const V& x, const V& y) {
    const ld n = x.size(), e = Lim<T>::eps; ld s = 0; bool zero = true; for (ld q : x) { s += q * q; zero &= q == 0; }
    if (!zero && !fits<T>(s / n)) return OUT;
    switch (f) {
        case 0: return rel<T>(s, n); case 1: return rel<T>(s / n, n); case 2: return rel<T>(std::sqrt(s / n), n); case 3: return rel<T>(std::sqrt(s), n);
        case 4: { if (n < 2) return OUT; ld k = 0; for (size_t i = 1; i < x.size(); ++i) k += (x[i] < 0) != (x[i - 1] < 0); return rel<T>(k / (n - 1), 0); }
        case 5: return rel<T>(n / (T)p, 0);
        case 6: { ld m = 0; for (ld q : x) m = std::max(m, std::fabs(q)); const ld lim = (T)p * m; ld k = 0; for (ld q : x) { if (std::fabs(q) != lim && std::fabs(std::fabs(q) - lim) < 8 * e * lim) return OUT; k += std::fabs(q) > lim; } return rel<T>(k / 8000, 0); }
        case 7: if (zero) return OUT; return {10 * std::log10(s / n), (n + 8) * e * 10 + std::fabs(std::log10(s / n)) * 40 * e, true};
        case 8: { V d; for (size_t i = 0; i < x.size(); ++i) d.push_back((ld)((T)x[i] - (T)y[i])); Ref a = mom<T>(x, 2), b = mom<T>(d, 2); if (!a.in || !b.in || !(a.v > 1000 * a.tol) || !(b.v > 1000 * b.tol)) return OUT;
            const ld v = 10 * std::log10(a.v / b.v); return {v, 10 * (a.tol / a.v + b.tol / b.v + 8 * e) + 40 * e * (std::fabs(std::log10(a.v)) + std::fabs(std::log10(b.v))), true}; }
        default: return rel<T>(std::pow(s, 0.67L), n, 16 + 2 * std::fabs(zero ? 0 : std::log(s)));
    }
}
static const std::initializer_list<double> ALPHA = {-2, -1, -0.5, 0, 0.5, 1, 3}, POS = {-1, 0.5, 2};
static bool positive(int f) { return pairwise(f); }
#elif defined(C23)
#include <edsp/feature/statistics/centroid.hpp>
#include <edsp/feature/statistics/crest.hpp>
#include <edsp/feature/statistics/decrease.hpp>
#include <edsp/feature/statistics/entropy.hpp>
#include <edsp/feature/statistics/flatness.hpp>
#include <edsp/feature/statistics/flux.hpp>
#include <edsp/feature/statistics/rolloff.hpp>
#include <edsp/feature/statistics/slope.hpp>
#include <edsp/feature/statistics/spread.hpp>
#include <edsp/feature/statistics/variation.hpp>
#include <edsp/feature/spectral/spectral_centroid.hpp>
#include <edsp/feature/spectral/spectral_crest.hpp>
#include <edsp/feature/spectral/spectral_decrease.hpp>
#include <edsp/feature/spectral/spectral_entropy.hpp>
#include <edsp/feature/spectral/spectral_flatness.hpp>
#include <edsp/feature/spectral/spectral_flux.hpp>
#include <edsp/feature/spectral/spectral_irregularity.hpp>
#include <edsp/feature/spectral/spectral_kurtosis.hpp>
#include <edsp/feature/spectral/spectral_rolloff.hpp>
#include <edsp/feature/spectral/spectral_skewness.hpp>
#include <edsp/feature/spectral/spectral_slope.hpp>
#include <edsp/feature/spectral/spectral_spread.hpp>
#include <edsp/feature/spectral/spectral_variation.hpp>
namespace ft = edsp::feature; namespace fs = edsp::feature::statistics;
enum F { CENT, WCENT, SCENT, CREST, SCREST, DECR, SDECR, ENT, SENT, FLAT, SFLAT, FLUXE, FLUXM, FLUXL, SFLUX, ROLL, SROLL, SLOPE, SSLOPE, SPR, WSPR, SSPR, VAR, SVAR, IRREG, SKEW, KURT };
static const std::vector<Fn> FN = {{"centroid", {0}}, {"weighted_centroid", {0}}, {"spectral_centroid", {0}}, {"crest", {0}}, {"spectral_crest", {0}}, {"decrease", {0}}, {"spectral_decrease", {0}}, {"entropy", {0}}, {"spectral_entropy", {0}}, {"flatness", {0}}, {"spectral_flatness", {0}},
    {"flux<euclidean>", {0}}, {"flux<manhattan>", {0}}, {"flux<logarithmic>", {0}}, {"spectral_flux", {0}}, {"rolloff", {0, 0.25, 0.5, 0.75, 0.85, 1}}, {"spectral_rolloff", {0.5, 0.95}}, {"slope", {0}}, {"spectral_slope", {0}}, {"spread", {0}}, {"weighted_spread", {0}}, {"spectral_spread", {0}}, {"variation", {0}}, {"spectral_variation", {0}}, {"spectral_irregularity", {0}}, {"spectral_skewness", {0}}, {"spectral_kurtosis", {0}}};
static bool pairwise(int f) { switch (f) { case WCENT: case SCENT: case FLUXE: case FLUXM: case FLUXL: case SFLUX: case SLOPE: case SSLOPE: case WSPR: case SSPR: case VAR: case SVAR: return true; } return false; }
template <typename T, typename I> ld call(int f, double p, I a, I b) {
    switch (f) { case CENT: RET(fs::centroid(a, b)); case CREST: RET(fs::crest(a, b)); case SCREST: RET(ft::spectral_crest(a, b)); case DECR: RET(fs::decrease(a, b)); case SDECR: RET(ft::spectral_decrease(a, b)); case ENT: RET(fs::entropy(a, b)); case SENT: RET(ft::spectral_entropy(a, b));
        case FLAT: RET(fs::flatness(a, b)); case SFLAT: RET(ft::spectral_flatness(a, b)); case ROLL: RET(fs::rolloff(a, b, T(p))); case SROLL: RET(p == 0.95 ? ft::spectral_rolloff(a, b) : ft::spectral_rolloff(a, b, T(p))); case SPR: RET(fs::spread(a, b)); case SKEW: RET(ft::spectral_skewness(a, b)); case KURT: RET(ft::spectral_kurtosis(a, b)); } return 0;
}
template <typename T, typename I> ld call_ra(int, double, I a, I b) { RET(ft::spectral_irregularity(a, b)); }
template <typename T, typename I> ld call2(int f, double, I a, I b, I y) {
    switch (f) { case WCENT: RET(fs::weighted_centroid(a, b, y)); case SCENT: RET(ft::spectral_centroid(a, b, y)); case FLUXE: RET((fs::flux<edsp::distances::euclidean>(a, b, y))); case FLUXM: RET((fs::flux<edsp::distances::manhattan>(a, b, y))); case FLUXL: RET((fs::flux<edsp::distances::logarithmic>(a, b, y))); case SFLUX: RET(ft::spectral_flux(a, b, y));
        case SLOPE: RET(fs::slope(a, b, y)); case SSLOPE: RET(ft::spectral_slope(a, b, y)); case WSPR: RET(fs::weighted_spread(a, b, y)); case SSPR: RET(ft::spectral_spread(a, b, y)); case VAR: RET(fs::variation(a, b, y)); case SVAR: RET(ft::spectral_variation(a, b, y)); } return 0;
}
template <typename T> Ref model(int f, double p, const V& x, const V& y) {
    const ld n = x.size(), e = Lim<T>::eps; bool neg = false, zero = false; ld S = 0, sq = 0;
    for (ld q : x) { if (q != 0 && !fits<T>(q * q * q * q)) return OUT; sq += q * q; S += std::fabs(q); neg |= q < 0; zero |= q == 0; }
    if (pairwise(f)) for (ld q : y) if (q != 0 && !fits<T>(q * q * q)) return OUT;
    const ld s = sum(x), k = S > 0 && std::fabs(s) > 0 ? S / std::fabs(s) : 0; const bool bad = !(std::fabs(s) > 1e3 * e * (n + 4) * S);   // k: condition of the sum
    switch (f) {
        case CENT: case WCENT: case SCENT: { if (bad) return OUT; ld w = 0, a = 0; for (size_t i = 0; i < x.size(); ++i) { const ld t = x[i] * (f == CENT ? (ld)i : y[i]); w += t; a += std::fabs(t); } const ld v = w / s; return {v, 2 * e * (n + 4) * (a / std::fabs(s) + std::fabs(v) * k) + Lim<T>::min, true}; }
        case CREST: case SCREST: { ld m = 0; for (ld q : x) m = std::max(m, std::fabs(q)); if (S == 0) return OUT; return rel<T>(m / S, n); }
        case DECR: case SDECR: { if (n < 2) return OUT; ld w = 0, a = 0, d = 0, D = 0; for (size_t i = 1; i < x.size(); ++i) { w += (x[i] - x[0]) / i; a += std::fabs(x[i] - x[0]) / i; d += x[i]; D += std::fabs(x[i]); } if (!(std::fabs(d) > 1e3 * e * (n + 4) * D)) return OUT; return {w / d, (a / std::fabs(d) + std::fabs(w / d) * D / std::fabs(d)) * e * (2 * n + 8) * 2 + Lim<T>::min, true}; }
        case ENT: case SENT: { if (n < 2 || neg || (f == SENT && S == 0)) return OUT; const ld t = f == SENT ? s : 1; ld w = 0, a = 0; for (ld q : x) { if (q == 0) continue; const ld z = q / t; w -= z * std::log2(z); a += z * (std::fabs(std::log2(z)) * (n + 6) + (f == SENT ? 2 * (n + 4) : 2)); } const ld l = std::log2(n); return {w / l, 2 * a * e / l + Lim<T>::min, true}; }
        case FLAT: case SFLAT: { if (neg || S == 0) return OUT; if (zero) return {0, 0, true}; ld w = 0, a = 0; for (ld q : x) { w += std::log(q); a += std::fabs(std::log(q)); } const ld v = std::exp(w / n) * n / s; return {v, v * e * (2 * n + 8) * (1 + a / n) * 2, true}; }
        case FLUXE: case FLUXM: case FLUXL: case SFLUX: { const ld t = sum(y); ld U = 0; for (ld q : y) U += std::fabs(q); if (bad || !(std::fabs(t) > 1e3 * e * (n + 4) * U)) return OUT; if (f == FLUXL && !(all_pos(x) && all_pos(y))) return OUT; ld v = 0, tol = 0; const ld g = U / std::fabs(t); for (size_t i = 0; i < x.size(); ++i) { const ld a = x[i] / s, b = y[i] / t, d = e * (n + 4) * (std::fabs(a) * k + std::fabs(b) * g);
                if (f == FLUXM) { v += std::fabs(a - b); tol += d + std::fabs(a - b) * e * n; } else if (f == FLUXL) { const ld l = std::log(a / b); v += l; tol += 2 * e * (n + 4) + std::fabs(l) * e * (n + 4); } else { v += (a - b) * (a - b); tol += (std::fabs(a - b) + d) * (std::fabs(a - b) + d) - (a - b) * (a - b) + (a - b) * (a - b) * e * n; } }
            return {v, 2 * tol + Lim<T>::min, true}; }
        case ROLL: case SROLL: { ld tot = 0; bool exact = true; for (ld q : x) { tot += q * q; exact &= q * 16 == std::floor(q * 16) && std::fabs(q) < 64; } const ld lim = (T)p * tot; exact = exact && p * 4 == std::floor(p * 4) && n < 64; ld acc = 0; size_t k = x.size() - 1;
            for (size_t i = 0; i < x.size(); ++i) { acc += x[i] * x[i]; if (!exact && std::fabs(acc - lim) < tot * e * (2 * n + 8)) return OUT; if (acc > lim) { k = i; break; } } return rel<T>(k / n, 0); }
        case SLOPE: case SSLOPE: { if (bad) return OUT; ld fm = 0, ff = 0, FM = 0, U = 0; for (size_t i = 0; i < x.size(); ++i) { fm += x[i] * y[i]; FM += std::fabs(x[i] * y[i]); ff += y[i] * y[i]; U += std::fabs(y[i]); } const ld t = sum(y), den = n * ff - t * t, dt = (n * ff + U * U) * e * (n + 4); if (!(den > 1000 * dt) || !fits<T>(den * s)) return OUT;
            const ld num = n * fm - t * s, nt = (n * FM + U * S) * e * (n + 4); return {num / den / s, 2 * (nt / den / std::fabs(s) + std::fabs(num / den / s) * (dt / den + k * e * (n + 8))) + Lim<T>::min, true}; }
        case SPR: case WSPR: case SSPR: { if (neg || S == 0) return OUT; ld w = 0, W = 0; for (size_t i = 0; i < x.size(); ++i) { const ld t = x[i] * (f == SPR ? (ld)i : y[i]); w += t; W += std::fabs(t); } const ld c = w / s, d = e * (2 * n + 6) * W / s; ld q = 0, u = 0; for (size_t i = 0; i < x.size(); ++i) { const ld k = (f == SPR ? (ld)i : y[i]) - c; q += k * k * x[i]; u += (std::fabs(k) + d) * (std::fabs(k) + d) * x[i]; }
            const ld v = std::sqrt(q / s); return {v, 2 * (std::sqrt(u / s * (1 + e * (n + 8))) - v) + v * e * (2 * n + 8) + Lim<T>::min, true}; }
        case VAR: case SVAR: { ld a = 0, b = 0; for (size_t i = 0; i < x.size(); ++i) { a += y[i] * y[i]; b += x[i] * y[i]; } if (!(a > 0 && sq > 0) || !fits<T>(sq * a)) return OUT; return {1 - b / (std::sqrt(sq) * std::sqrt(a)), e * (3 * n + 12), true}; }
        case IRREG: { if (n < 2) return OUT; ld a = 0, b = 0; for (size_t i = 0; i + 1 < x.size(); ++i) { a += (x[i + 1] - x[i]) * (x[i + 1] - x[i]); b += x[i] * x[i]; } if (!(b > 0)) return OUT; return rel<T>(a / b, 2 * n); }
        default: { Ref m2 = mom<T>(x, 2), mk = mom<T>(x, f == SKEW ? 3 : 4); if (!m2.in || !mk.in || !(m2.v > m2.tol * 1000)) return OUT; const ld den = f == SKEW ? std::pow(m2.v, 1.5L) : m2.v * m2.v; if (!fits<T>(den)) return OUT; ld a = 0; for (ld q : x) a += std::pow(std::fabs(q - s / n), f == SKEW ? 3.0L : 4.0L);
            return {mk.v / den, 2 * (mk.tol / den + (a / n / den) * (2 * m2.tol / m2.v + 8 * e)), true}; }
    }
}
static const std::initializer_list<double> ALPHA = {0, 0.25, 1, 3, 7, -2}, POS = {0.5, 1, 4}, SIGNED = {0, 0.5, 3, -2};
static bool positive(int f) { return pairwise(f); }
#endif

#if defined(C21) || defined(C22) || defined(C23)
#if !defined(C22)
template <typename T, typename I> ld call_bidi(int f, double p, I a, I b) { return call<T>(f, p, a, b); }
static bool bidi(int) { return false; }
#else
static bool bidi(int f) { return f == 4; }
#endif
#if !defined(C23)
template <typename T, typename I> ld call_ra(int f, double p, I a, I b) { return call<T>(f, p, a, b); }
static bool ra(int) { return false; }
#else
static bool ra(int f) { return f == IRREG; }
#endif
template <typename T> void one(Ctx& c, int f, double p, const std::vector<T>& x, const std::vector<T>& y, int iter, const char* in) {
    const V lx(x.begin(), x.end()), ly(y.begin(), y.end()); const Ref r = model<T>(f, p, lx, ly); if (!r.in) { c.nontrivial(0); return; }
    if ((bidi(f) && iter == 2) || (ra(f) && iter)) return;
    c.at("%s(%g) of %zu %s values, iterator kind %d: %s %s", FN[f].name, p, x.size(), sizeof(T) == 4 ? "float" : "double", iter, in, x.size() < 9 ? mc::show(x).c_str() : "");
    ld got = 0; bool intact = true;
    if (iter == 0) { in::Exact<T> a(x, 0), b(y, 0); const T* A = a.begin(); const T* E = a.end(); const T* B = b.begin(); got = pairwise(f) ? call2<T>(f, p, A, E, B) : bidi(f) ? call_bidi<T>(f, p, A, E) : ra(f) ? call_ra<T>(f, p, A, E) : call<T>(f, p, A, E); intact = in::same(A, x) && in::same(B, y); }
    else if (iter == 1) { std::list<T> a(x.begin(), x.end()), b(y.begin(), y.end()); got = pairwise(f) ? call2<T>(f, p, a.cbegin(), a.cend(), b.cbegin()) : bidi(f) ? call_bidi<T>(f, p, a.cbegin(), a.cend()) : call<T>(f, p, a.cbegin(), a.cend()); }
    else if (iter == 2) { std::forward_list<T> a(x.begin(), x.end()), b(y.begin(), y.end()); got = pairwise(f) ? call2<T>(f, p, a.cbegin(), a.cend(), b.cbegin()) : call<T>(f, p, a.cbegin(), a.cend()); }
    else { std::vector<T> a(x), b(y); got = pairwise(f) ? call2<T>(f, p, a.begin(), a.end(), b.begin()) : bidi(f) ? call_bidi<T>(f, p, a.begin(), a.end()) : ra(f) ? call_ra<T>(f, p, a.begin(), a.end()) : call<T>(f, p, a.begin(), a.end()); intact = a == x && b == y; }
    if (!c.ok(intact)) c.fail(std::string(FN[f].name) + "-modifies-input", "%s modified its input", FN[f].name);
    if (!c.ok(std::isfinite(got) && std::fabs(got - r.v) <= r.tol)) c.fail(FN[f].name, "%s(%g) of %zu values (%s %s%s) is %.12Lg, defined %.12Lg (tolerance %.3Lg)", FN[f].name, p, x.size(), in, x.size() < 9 ? mc::show(x).c_str() : "", y.size() && y.size() < 9 ? (" and " + mc::show(y)).c_str() : "", got, r.v, r.tol);
}
// every word over the alphabet (pairs of words for the two-sequence descriptors), every descriptor, iterator kind and type
SCENARIO(words, 32) {
    const int f = c.choose((int)FN.size(), "descriptor"); const bool two = pairwise(f), pos = positive(f);
    const double p = FN[f].par[c.choose((int)FN[f].par.size(), "parameter")];
    const int n = c.range(1, two ? c.tier(4, 5) : pos ? c.tier(6, 7) : c.tier(5, 6));
    const auto x = in::word<double>(c, n, pos ? POS : ALPHA); const auto y = two ? in::word<double>(c, n, POS) : std::vector<double>();
    for (int it = 0; it < 4; ++it) { one<double>(c, f, p, x, y, it, ""); one<float>(c, f, p, in::cast<float>(x), in::cast<float>(y), it, ""); }
}
#if defined(C23)
// zeros and negative values in either sequence of the two-sequence descriptors
SCENARIO(signed_pairs, 32) {
    const int f = c.choose((int)FN.size(), "descriptor"); if (!pairwise(f)) { c.check(true, "-", "-"); return; } const double p = FN[f].par[0]; const int n = c.range(1, c.tier(3, 4));
    const auto x = in::word<double>(c, n, SIGNED), y = in::word<double>(c, n, SIGNED); for (int it = 0; it < 4; ++it) { one<double>(c, f, p, x, y, it, ""); one<float>(c, f, p, in::cast<float>(x), in::cast<float>(y), it, ""); }
}
#endif
// the same signals at every order of magnitude the element type has
template <typename T> void scales(Ctx& c, int f, double p, int k) {
    for (int e : in::scales<T>()) for (size_t n : {1, 2, 3, 8, 33}) for (int sgn = 0; sgn < 2; ++sgn) for (int both = 0; both < (pairwise(f) ? 2 : 1); ++both) {
        auto x = in::scaled<T>(k, n, e), y = in::scaled<T>((k + 1) % 3, n, both ? e : 0); if (sgn) { for (auto& v : x) v = std::fabs(v); for (auto& v : y) v = std::fabs(v); } if (!pairwise(f)) y.clear();
        char in[64]; snprintf(in, sizeof in, "%s times 2^%d", in::shape_name(k), e); one<T>(c, f, p, x, y, 0, in); one<T>(c, f, p, x, y, 3, in);
    }
}
SCENARIO(magnitudes, 32) {
    const int f = c.choose((int)FN.size(), "descriptor"); const double p = FN[f].par[c.choose((int)FN[f].par.size(), "parameter")]; const int k = c.pick({0, 1, 2, 4, 5}, "shape"), t = c.choose(2, "type"); c.split(); if (t) scales<float>(c, f, p, k); else scales<double>(c, f, p, k);
}
// structured signals at every length around the block sizes
SCENARIO(shapes, 32) {
    const int f = c.choose((int)FN.size(), "descriptor"); const double p = FN[f].par[c.choose((int)FN[f].par.size(), "parameter")]; const int k = c.choose(in::SHAPES, "shape"); c.split();
    for (size_t n : in::sizes(c.tier(0, 1))) for (int sgn = 0; sgn < 2; ++sgn) {
        auto x = in::shape(k, n), y = in::shape(pairwise(f) ? (k + 1) % in::SHAPES : 0, n);
        if (sgn) { for (auto& e : x) e = std::fabs(e) + (k == 3 ? 1e-3 : 0); for (auto& e : y) e = std::fabs(e) + 1e-3; }
        if (!pairwise(f)) y.clear(); const auto xf = in::cast<float>(x), yf = in::cast<float>(y);
        for (int it = 0; it < 4; ++it) { one<double>(c, f, p, x, y, it, in::shape_name(k)); one<float>(c, f, p, xf, yf, it, in::shape_name(k)); }
    }
}
SCENARIO(long_inputs, 32) {
    const int f = c.choose((int)FN.size(), "descriptor"); const double p = FN[f].par[c.choose((int)FN[f].par.size(), "parameter")]; const int k = c.pick({0, 2}, "shape"); c.split();
    for (size_t n : c.thorough() ? in::longer(true) : std::vector<size_t>{4097, 32769, 65537}) for (int sgn = 0; sgn < 2; ++sgn) {
        auto x = in::shape(k, n), y = in::shape(pairwise(f) ? 0 : 1, n); if (k == 2) { for (auto& e : x) e /= (double)n; for (auto& e : y) e += 3; } if (sgn) { for (auto& e : x) e = std::fabs(e) + 1e-3; for (auto& e : y) e = std::fabs(e) + 1e-3; }
        if (!pairwise(f)) y.clear(); const auto xf = in::cast<float>(x), yf = in::cast<float>(y);
        for (int it = 0; it < 2; ++it) { one<double>(c, f, p, x, y, it, in::shape_name(k)); one<float>(c, f, p, xf, yf, it, in::shape_name(k)); }
    }
}
// more elements than a single-precision float counts: few of them are not zero, so that every sum is exact
#if defined(C22)
#ifdef NDEBUG   // the same code is covered with assertions on by the shorter inputs
SCENARIO(huge_inputs, 8) {
    const size_t n = (1u << 24) + (1u << 23) + (size_t)c.choose(c.tier(3, 8), "offset"), period = (size_t)c.pick({1, 2, 3, 1000}, "half period"); c.at("%zu values, alternating every %zu", n, period); c.nontrivial(1); in::Exact<float> x(n, 0, 0.f); float* a = x.begin(); float* e = x.end(); size_t turns = 0; for (size_t i = 0; i < n; ++i) a[i] = i / period % 2 ? -0.5f : 1.f; turns = (n - 1) / period;
    auto near = [&](const char* what, ld g, ld w) { if (!c.ok(std::fabs(g - w) <= 1e-5L * std::fabs(w))) c.fail(what, "%s of %zu values alternating every %zu is %Lg, defined %Lg", what, n, period, g, w); };
    near("azcr", ft::azcr(a, e), (ld)turns / (ld)(n - 1)); near("duration", ft::duration(a, e, 44100.f), (ld)n / 44100); const size_t high = n / (2 * period) * period + std::min(n % (2 * period), period); near("effective_duration", ft::effective_duration(a, e, 8000.f, 0.75f), (ld)high / 8000); near("effective_duration", ft::effective_duration(a, e, 8000.f, 0.25f), (ld)n / 8000);
}
#endif
#elif defined(C23)
#ifdef NDEBUG   // the same code is covered with assertions on by the shorter inputs
SCENARIO(huge_inputs, 8) {
    const size_t n = (1u << 24) + (1u << 23) + (size_t)c.choose(c.tier(2, 8), "offset"); const int p1 = c.choose(3, "first"), p2 = c.choose(4, "second"); const size_t at[] = {3, 5000, 1u << 20}, far[] = {(1u << 24) - 1, (1u << 24) + 1, (1u << 24) + 40001, n - 1}; in::Exact<float> x(n, 0, 0.f); float* a = x.begin(); float* e = x.end(); const ld i = at[p1], j = far[p2]; a[at[p1]] = 1; a[far[p2]] = 3; c.at("%zu values, 1 at %zu and 3 at %zu", n, at[p1], far[p2]); c.nontrivial(1);
    auto near = [&](const char* what, ld g, ld w, ld tol) { if (!c.ok(std::fabs(g - w) <= tol * std::fabs(w))) c.fail(what, "%s of %zu values with 1 at %Lg and 3 at %Lg is %Lg, defined %Lg", what, n, i, j, g, w); };
    const ld m = (i + 3 * j) / 4, l = std::log2((ld)n); near("centroid", fs::centroid(a, e), m, 1e-6L); near("spread", fs::spread(a, e), std::sqrt(((i - m) * (i - m) + 3 * (j - m) * (j - m)) / 4), 1e-5L); near("decrease", fs::decrease(a, e), (1 / i + 3 / j) / 4, 1e-5L); near("crest", fs::crest(a, e), 0.75L, 1e-6L); near("rolloff", fs::rolloff(a, e, 0.5f), j / (ld)n, 1e-6L); near("rolloff", fs::rolloff(a, e, 0.05f), i / (ld)n, 1e-6L); near("spectral_entropy", ft::spectral_entropy(a, e), (2 - 0.75L * std::log2(3.0L)) / l, 1e-5L); near("spectral_irregularity", ft::spectral_irregularity(a, e), j + 1 == (ld)n ? 11 : 2, 1e-6L);
}
#endif
#elif defined(C21)
#ifdef NDEBUG   // the same code is covered with assertions on by the shorter inputs
SCENARIO(huge_inputs, 4) {
    const size_t n = (1u << 24) + (1u << 23) + 1, k = (1u << 24) + (size_t)c.choose(c.tier(3, 8), "offset"); in::Exact<float> x(n, 0, 0.f); float* a = x.begin(); float* e = x.end(); a[k] = 4; a[k + 7] = -8; c.at("%zu values, 4 at %zu, -8 at %zu", n, k, k + 7); c.nontrivial(1);
    auto near = [&](const char* what, ld g, ld w) { if (!c.ok(std::fabs(g - w) <= 1e-5L * std::fabs(w))) c.fail(what, "%s of %zu values with 4 at %zu and -8 at %zu is %Lg, defined %Lg", what, n, k, k + 7, g, w); };
    using namespace edsp::statistics; near("mean", mean(a, e), -4 / (ld)n); near("norm", norm(a, e), std::sqrt(80.0L)); near("max", max(a, e), 4); near("min", min(a, e), -8); near("maxabs", maxabs(a, e), 8); near("minabs", minabs(a, e), 0); near("variance", variance(a, e), 80 / (ld)n); near("skewness", skewness(a, e), -448 / (ld)n / std::pow(80 / (ld)n, 1.5L)); near("kurtosis", kurtosis(a, e), 4352 / (ld)n / std::pow(80 / (ld)n, 2.0L)); const auto p = peak(a, e), q = peakabs(a, e); near("peak position", p.first, (ld)k); near("peak", p.second, 4); near("peakabs position", q.first, (ld)(k + 7));
}
#endif
#endif
#endif
#if defined(C21)
// extrema are exact for integers too, and for infinities
SCENARIO(extrema, 8) {
    const int n = c.range(1, c.tier(5, 6)); std::vector<int> x(n); for (auto& e : x) e = (int)c.pick({-7, -2, 0, 2, 7});
    const int mx = *std::max_element(x.begin(), x.end()), mn = *std::min_element(x.begin(), x.end()); c.at("extrema of %s", mc::show(x).c_str());
    c.check(st::max(x.begin(), x.end()) == mx, "max", "max of %s", mc::show(x).c_str()); c.check(st::min(x.begin(), x.end()) == mn, "min", "min of %s", mc::show(x).c_str());
    int a = 0, i = 0; for (int e : x) a = std::max(a, std::abs(e)); int lo = a; for (int e : x) lo = std::min(lo, std::abs(e));
    c.check(st::maxabs(x.begin(), x.end()) == a, "maxabs", "maxabs of %s", mc::show(x).c_str()); c.check(st::minabs(x.begin(), x.end()) == lo, "minabs", "minabs of %s", mc::show(x).c_str());
    while (x[i] != mx) ++i; c.check(st::peak(x.begin(), x.end()).first == i, "peak position", "peak of %s", mc::show(x).c_str());
    i = 0; while (std::abs(x[i]) != a) ++i; const auto pk = st::peakabs(x.begin(), x.end()); c.check(pk.first == i && pk.second == x[i], "peakabs position", "peakabs of %s", mc::show(x).c_str());
}
#elif defined(C22)
// amdf / asdf: every lag
template <typename T> void df(Ctx& c, const std::vector<T>& x, int which, const char* in) {
    const size_t n = x.size(); c.at("%s of %zu values", which ? "asdf" : "amdf", n); in::Exact<T> s(x, 0), d(n, 0, T(77)); for (auto v : x) if (std::fabs((ld)v) > 1e9) return;
    if (which) edsp::feature::asdf((const T*)s.begin(), (const T*)s.end(), d.begin()); else edsp::feature::amdf((const T*)s.begin(), (const T*)s.end(), d.begin());
    for (size_t k = 0; k < n; ++k) { ld w = 0; for (size_t j = 0; j + k < n; ++j) { const ld q = std::fabs((ld)x[j] - (ld)x[j + k]); w += which ? q * q : q; } w /= n;
        if (!c.ok(std::fabs((ld)d[k] - w) <= w * Lim<T>::eps * (n + 8) + Lim<T>::min)) c.fail(which ? "asdf" : "amdf", "%s of %zu values (%s %s), lag %zu: %.12Lg, defined %.12Lg", which ? "asdf" : "amdf", n, in, n < 9 ? mc::show(x).c_str() : "", k, (ld)d[k], w); }
    c.check(in::same(s.begin(), x), "df-input", "input modified");
}
SCENARIO(difference_functions, 16) {
    const int w = c.choose(2, "function"), mode = c.choose(2, "mode");
    if (mode == 0) { const int n = c.range(1, c.tier(5, 6)); const auto x = in::word<double>(c, n, ALPHA); df<double>(c, x, w, ""); df<float>(c, in::cast<float>(x), w, ""); }
    else { const int k = c.choose(in::SHAPES, "shape"); c.split(); auto ns = in::sizes(c.tier(0, 1)); if (k == 0) { ns.push_back(2049); ns.push_back(c.tier(4096, 9000)); } for (size_t n : ns) { df<double>(c, in::shape(k, n), w, in::shape_name(k)); df<float>(c, in::cast<float>(in::shape(k, n)), w, in::shape_name(k)); } }
}
#endif

#if defined(C22)
// continuous level: every sequence of frames, the mean of the levels of the last W frames (frames not seen yet count as zero, as in the moving average)
SCENARIO(continuous_level, 8) {
    const int w = c.range(1, 4), n = c.tier(6, 8); edsp::feature::continuous_leq<double> q((size_t)w); V lev; c.log("window %d", w);
    for (int i = 0; i < n; ++i) { const int k = c.choose(4, "frame"); static const std::vector<std::vector<double>> fr = {{1}, {-2, 0.5}, {0.25, 0.25, -1}, {100, -3}}; lev.push_back(10 * std::log10(std::inner_product(fr[k].begin(), fr[k].end(), fr[k].begin(), 0.0L) / fr[k].size()));
        c.at("continuous_leq frame %d", i); const ld got = q.extract(fr[k].begin(), fr[k].end()); ld s = 0; for (int j = std::max(0, i + 1 - w); j <= i; ++j) s += lev[j]; s /= w; if (!c.ok(std::fabs(got - s) <= 1e-11L)) c.fail("continuous_leq", "frame %d of window %d: level %Lg, expected %Lg", i, w, got, s); }
}
#endif
#if defined(C24)
#include <edsp/converter/db2mag.hpp>
#include <edsp/converter/db2pow.hpp>
#include <edsp/converter/mag2db.hpp>
#include <edsp/converter/pow2db.hpp>
#include <edsp/converter/deg2rad.hpp>
#include <edsp/converter/rad2deg.hpp>
#include <edsp/converter/peak2peak.hpp>
#include <edsp/converter/peak2rms.hpp>
#include <edsp/converter/complex2real.hpp>
#include <edsp/converter/real2complex.hpp>
#include <edsp/auditory/converter/bark2hertz.hpp>
#include <edsp/auditory/converter/cent2hertz.hpp>
#include <edsp/auditory/converter/erb2hertz.hpp>
#include <edsp/auditory/converter/hertz2bark.hpp>
#include <edsp/auditory/converter/hertz2cent.hpp>
#include <edsp/auditory/converter/hertz2erb.hpp>
#include <edsp/auditory/converter/hertz2mel.hpp>
#include <edsp/auditory/converter/mel2hertz.hpp>
namespace cv = edsp::converter; namespace au = edsp::auditory::converter;
static const ld PI = 3.14159265358979323846264338327950288L;
static const char* cname[] = {"mag2db", "pow2db", "deg2rad", "hertz2mel", "hertz2erb", "hertz2bark", "hertz2cent"};
static const char* iname[] = {"db2mag", "db2pow", "rad2deg", "mel2hertz", "erb2hertz", "bark2hertz", "cent2hertz"};
template <typename T> T fwd(int k, T x) { switch (k) { case 0: return cv::mag2db(x); case 1: return cv::pow2db(x); case 2: return cv::deg2rad(x); case 3: return au::hertz2mel(x); case 4: return au::hertz2erb(x); case 5: return au::hertz2bark(x); default: return au::hertz2cent(x); } }
template <typename T> T bwd(int k, T x) { switch (k) { case 0: return cv::db2mag(x); case 1: return cv::db2pow(x); case 2: return cv::rad2deg(x); case 3: return au::mel2hertz(x); case 4: return au::erb2hertz(x); case 5: return au::bark2hertz(x); default: return au::cent2hertz(x); } }
static ld mf(int k, ld f) { switch (k) { case 0: return 20 * std::log10(f); case 1: return 10 * std::log10(f); case 2: return f * PI / 180; case 3: return 1127.01048L * std::log1p(f / 700); case 4: return 21.4L * std::log10(1 + 4.37L * f / 1000); case 5: { const ld b = 26.81L * f / (1960 + f) - 0.53L; return b < 2 ? b + 0.15L * (2 - b) : b > 20.1L ? b + 0.22L * (b - 20.1L) : b; } default: { const ld p = 1200 / std::log(2.0L); return p * std::log(f) + 5700 - p * std::log(440.0L); } } }
static ld mb(int k, ld z) { switch (k) { case 0: return std::pow(10.0L, z / 20); case 1: return std::pow(10.0L, z / 10); case 2: return z * 180 / PI; case 3: return 700 * std::expm1(z / 1127.01048L); case 4: return (std::pow(10.0L, z / 21.4L) - 1) * 1000 / 4.37L; case 5: { const ld b = z < 2 ? (20 * z - 6) / 17 : z > 20.1L ? (50 * z + 221.1L) / 61 : z; return 1960 * (b + 0.53L) / (26.28L - b); } default: { const ld p = 1200 / std::log(2.0L); return std::exp((z - (5700 - p * std::log(440.0L))) / p); } } }
// the grid of arguments of a conversion: logarithmic for magnitudes and frequencies, both signs where defined, dense around the Bark boundaries
static std::vector<double> grid(int k, bool deep) {
    std::vector<double> g; const int N = deep ? 20000 : 3000;
    if (k < 2) for (int i = 0; i <= N; ++i) g.push_back(std::pow(10.0, -15 + 30.0 * i / N));
    else if (k == 2) for (int i = 0; i <= N; ++i) g.push_back(-2000 + 4000.0 * i / N);
    else { const double lo = k == 6 ? 16.5 : 0; for (int i = 0; i <= N; ++i) g.push_back(lo + (i == 0 ? 0 : 24000.0 * i / N)); for (int i = 0; i <= N / 4; ++i) g.push_back(std::max(lo, 1e-3) * std::pow(10.0, 7.0 * i / N * 4)); }
    if (k == 5) for (ld edge : {mb(5, 2.0L), mb(5, 20.1L)}) for (int i = -200; i <= 200; ++i) g.push_back((double)edge + i * 0.01 + 0.003);
    if (k < 2) for (double e : {1.0, 10.0, 100.0, 0.1, 0.5, 2.0}) g.push_back(e);
    std::sort(g.begin(), g.end()); return g;
}
template <typename T> void conv(Ctx& c, int k) {
    const ld e = Lim<T>::eps; ld last = 0; bool have = false; T lastx = 0;
    for (double d : grid(k, c.tier(0, 1))) {
        const T x = (T)d; if (k == 5 && (ld)x > 1e6L) continue; c.tick();
        c.at("%s(%.12g) %s", cname[k], (double)x, sizeof(T) == 4 ? "float" : "double");
        const ld y = fwd<T>(k, x), w = mf(k, x);
        // inputs are rounded to T: the formulas are well conditioned except logarithms at 1 (absolute error) and Bark at its ends
        const ld tol = 32 * e * (std::fabs(w) + (k < 2 ? 10 : k == 6 ? 9000 : k == 5 ? 2 : k == 3 ? std::fabs((ld)x) * 2 : k == 4 ? 10 : 0)) + (k == 3 ? 0 : Lim<T>::min);
        const bool edge = k == 5 && (std::fabs(26.81L * x / (1960 + (ld)x) - 0.53L - 2) < 64 * e || std::fabs(26.81L * x / (1960 + (ld)x) - 0.53L - 20.1L) < 64 * e * 20);
        if (!edge && !c.ok(std::isfinite(y) && std::fabs(y - w) <= tol)) c.fail(cname[k], "%s(%.9g) = %.12Lg, defined %.12Lg", cname[k], (double)x, y, w);
        if (have && x > lastx) { const ld step = w - mf(k, lastx); if (step > 4 * tol && !c.ok(y > last)) c.fail(std::string(cname[k]) + "-monotone", "%s(%.9g) = %.9Lg is not above %s(%.9g) = %.9Lg", cname[k], (double)x, y, cname[k], (double)lastx, last); }
        have = true; last = y; lastx = x;
        if (k == 6 && !(y > 0)) continue;
        if (k == 5 && std::fabs(y) > 27.5L) continue;   // past the last critical band the inverse loses all precision
        const ld back = bwd<T>(k, (T)y); const ld yr = (T)y; const ld wb = mb(k, yr), amp = k == 5 ? std::fabs(wb) * 30 / (std::max(0.05L, 26.28L - (yr > 20.1L ? (50 * yr + 221.1L) / 61 : yr))) : std::fabs(wb) * (k < 2 ? 1 + std::fabs(yr) / 8 : k == 3 ? 4 + std::fabs(yr) / 500 : k == 6 ? 1 + std::fabs(yr) / 1000 + 6 : k == 4 ? 4 + std::fabs(yr) / 5 : 1);
        const ld tolb = 64 * e * (amp + (k >= 3 && k <= 5 ? 300 : 0));
        if (!c.ok(std::isfinite(back) && std::fabs(back - wb) <= tolb)) c.fail(iname[k], "%s(%.12Lg) = %.12Lg, defined %.12Lg", iname[k], yr, back, wb);
        // round trip: within the error the rounding of y allows
        const ld deriv = std::fabs(mb(k, yr + 1e-6L * (1 + std::fabs(yr))) - mb(k, yr)) / (1e-6L * (1 + std::fabs(yr)));
        if (!edge && !c.ok(std::fabs(back - (ld)x) <= 2 * tolb + 4 * deriv * (tol + std::fabs(y) * e))) c.fail(std::string(cname[k]) + "-roundtrip", "%s(%s(%.9g)) = %.12Lg", iname[k], cname[k], (double)x, back);
    }
}
SCENARIO(conversions, 14) { const int k = c.choose(7, "conversion"); if (c.choose(2, "type")) conv<float>(c, k); else conv<double>(c, k); }
// backward conversions over their own grid (negative decibels, every Bark branch) and cents of negative frequencies
SCENARIO(inverse, 7) {
    const int k = c.choose(7, "conversion"); const int N = c.tier(2000, 20000); const double lo[] = {-400, -200, -40, 0, 0, 0, 1}, hi[] = {400, 200, 40, 4000, 43, 25.5, 14000};
    ld last = 0; for (int i = 0; i <= N; ++i) { const double z = lo[k] + (hi[k] - lo[k]) * i / N; c.at("%s(%.12g)", iname[k], z); const ld y = bwd<double>(k, z), w = mb(k, z); if (!c.ok(std::fabs(y - w) <= 1e-11L * (std::fabs(w) + (k >= 3 && k <= 5 ? 300 : 0)))) c.fail(iname[k], "%s(%.12g) = %.12Lg, defined %.12Lg", iname[k], z, y, w);
        if (i && !c.ok(y > last)) c.fail(std::string(iname[k]) + "-monotone", "%s is not increasing at %.12g", iname[k], z); last = y; c.tick();
        if (k == 6) { const ld neg = au::cent2hertz(-z); c.check(std::fabs(neg + w) <= 1e-11L * std::fabs(w), "cent-odd", "cent2hertz(-%g) = %Lg, expected %Lg", z, neg, -w); const double f = 16.5 + z; c.check(std::fabs((ld)au::hertz2cent(-f) + mf(6, f)) <= 1e-8L, "cent-odd", "hertz2cent(-%g)", f); } }
}
template <typename T> void peaks(Ctx& c, const std::vector<T>& x, const char* in) {
    const size_t n = x.size(); ld hi = x[0], lo = x[0], s = 0, a = 0; for (ld v : x) { hi = std::max(hi, v); lo = std::min(lo, v); s += v * v; a = std::max(a, std::fabs(v)); } c.at("peak2peak/peak2rms of %s %s", in, mc::show(x).substr(0, 200).c_str());
    for (int it = 0; it < 2; ++it) { in::Exact<T> b(x, 0); std::list<T> l(x.begin(), x.end()); const ld pp = it ? cv::peak2peak(l.cbegin(), l.cend()) : cv::peak2peak((const T*)b.begin(), (const T*)b.end());
        if (!c.ok(std::fabs(pp - (hi - lo)) <= (hi - lo) * Lim<T>::eps)) c.fail("peak2peak", "peak2peak of %s %s is %Lg, defined %Lg", in, mc::show(x).substr(0, 200).c_str(), pp, hi - lo);
        if (a == 0 || !fits<T>(s) || !fits<T>(s / n)) continue; const ld w = a / std::sqrt(s / n), pr = it ? cv::peak2rms(l.cbegin(), l.cend()) : cv::peak2rms((const T*)b.begin(), (const T*)b.end());
        if (!c.ok(std::fabs(pr - w) <= w * Lim<T>::eps * (n + 8))) c.fail("peak2rms", "peak2rms of %s %s is %Lg, defined %Lg", in, mc::show(x).substr(0, 200).c_str(), pr, w); }
}
SCENARIO(peak_ratios, 8) {
    if (c.choose(2, "mode") == 0) { const auto x = in::word<double>(c, c.range(1, c.tier(5, 6)), {-3, -1, -0.5, 0, 0.5, 1, 2}); peaks<double>(c, x, ""); peaks<float>(c, in::cast<float>(x), ""); }
    else { const int k = c.choose(in::SHAPES, "shape"); c.split(); for (size_t n : in::sizes(c.tier(0, 1))) { peaks<double>(c, in::shape(k, n), in::shape_name(k)); peaks<float>(c, in::cast<float>(in::shape(k, n)), in::shape_name(k)); } }
}
template <typename T> void cplx(Ctx& c, size_t n) {
    c.at("complex conversions n=%zu", n); std::vector<T> re(n), im(n); for (size_t i = 0; i < n; ++i) { re[i] = (T)(i + 1); im[i] = (T)(-0.5 * i - 3); }
    in::Exact<T> a(re, 0), b(im, 0), o1(n, 0, T(77)), o2(n, 0, T(77)); in::Exact<std::complex<T>> z(n, 0, std::complex<T>(9, 9)), r(n, 0, std::complex<T>(9, 9));
    cv::real2complex((const T*)a.begin(), (const T*)a.end(), (const T*)b.begin(), z.begin()); cv::complex2real((const std::complex<T>*)z.begin(), (const std::complex<T>*)z.end(), o1.begin(), o2.begin()); cv::real2complex((const T*)a.begin(), (const T*)a.end(), r.begin());
    for (size_t i = 0; i < n; ++i) { c.check(z[i] == std::complex<T>(re[i], im[i]), "real2complex", "element %zu of %zu", i, n); c.check(r[i] == std::complex<T>(re[i], 0), "real2complex-real", "element %zu of %zu", i, n); c.check(o1[i] == re[i] && o2[i] == im[i], "complex2real", "element %zu of %zu", i, n); }
    std::list<T> la(re.begin(), re.end()), lb(im.begin(), im.end()); std::list<std::complex<T>> lz(n); cv::real2complex(la.begin(), la.end(), lb.begin(), lz.begin()); size_t i = 0; for (auto& e : lz) { c.check(e == std::complex<T>(re[i], im[i]), "real2complex", "list element %zu of %zu", i, n); ++i; }
}
SCENARIO(long_peak_ratios, 8) { const int k = c.pick({0, 2}, "shape"), i = c.choose((int)in::longer(c.thorough()).size(), "length"); c.split(); for (size_t n : {in::longer(c.thorough())[(size_t)i]}) { peaks<double>(c, in::shape(k, n), in::shape_name(k)); peaks<float>(c, in::cast<float>(in::shape(k, n)), in::shape_name(k)); } }
SCENARIO(long_conversions, 1) { for (size_t n : in::longer(c.thorough())) { cplx<double>(c, n); cplx<float>(c, n); } }
SCENARIO(complex_conversions, 1) { for (size_t n = 0; n <= (size_t)c.tier(70, 300); ++n) { cplx<double>(c, n); cplx<float>(c, n); } }
#endif

#if defined(C31)
#include <edsp/math/numeric.hpp>
#include <edsp/math/complex.hpp>
#include <edsp/math/constant.hpp>
namespace em = edsp::math; typedef __int128 i128;
static bool prime(i128 n) { if (n < 2) return false; for (i128 d = 2; d * d <= n; ++d) if (n % d == 0) return false; return true; }
template <typename T> void integer(Ctx& c, T x, bool primes) {
    const i128 v = x; c.at("integer helpers of %lld (%zu bytes)", (long long)x, sizeof(T)); c.tick();
    if (!c.ok(em::is_odd(x) == ((v % 2 + 2) % 2 == 1))) c.fail("is_odd", "is_odd(%lld) = %d", (long long)x, em::is_odd(x));
    if (!c.ok(em::is_even(x) == ((v % 2 + 2) % 2 == 0))) c.fail("is_even", "is_even(%lld) = %d", (long long)x, em::is_even(x));
    if (!c.ok(em::is_negative(x) == (v < 0))) c.fail("is_negative", "is_negative(%lld)", (long long)x);
    if (!c.ok(em::sign(x) == (v < 0 ? T(-1) : T(1)))) c.fail("sign", "sign(%lld) = %lld", (long long)x, (long long)em::sign(x));
    if (v > 0) {
        const bool p2 = (v & (v - 1)) == 0; if (!c.ok(em::is_power_two(x) == p2)) c.fail("is_power_two", "is_power_two(%lld) = %d", (long long)x, em::is_power_two(x));
        i128 p = 1; while (p < v) p *= 2; if (p <= (i128)std::numeric_limits<T>::max() && !c.ok((i128)em::next_power_two(x) == p)) c.fail("next_power_two", "next_power_two(%lld) = %lld, expected %lld", (long long)x, (long long)em::next_power_two(x), (long long)p);
    } else if (v < 0 && !c.ok(!em::is_power_two(x))) c.fail("is_power_two", "is_power_two(%lld)", (long long)x);
    if (primes && !c.ok(em::is_prime(x) == prime(v))) c.fail("is_prime", "is_prime(%lld) = %d", (long long)x, em::is_prime(x));
    if (v > -30000 && v < 30000 && (sizeof(T) > 2 || (v > -180 && v < 180)) && (sizeof(T) > 1 || (v > -11 && v < 11)) && !c.ok((i128)em::square(x) == v * v)) c.fail("square", "square(%lld) = %lld", (long long)x, (long long)em::square(x));
}
// exhaustive over 8 and 16 bit types, a full prefix of the wider ones, and every neighbourhood of a power of two
SCENARIO(integers, 16) {
    const int w = c.choose(8, "type"), part = c.choose(2, "part");
    const auto span = [&](auto tag, long long lo, long long hi) { typedef decltype(tag) T; for (long long v = lo; v <= hi; ++v) integer<T>(c, (T)v, true); };
    const auto wide = [&](auto tag) { typedef decltype(tag) T; for (int b = 0; b < (int)sizeof(T) * 8; ++b) for (int d = -3; d <= 3; ++d) for (int s = 0; s < 2; ++s) { const i128 v = (s ? -1 : 1) * (((i128)1 << b) + d); if (v < (i128)std::numeric_limits<T>::min() || v > (i128)std::numeric_limits<T>::max()) continue; integer<T>(c, (T)v, v < ((i128)1 << 34)); } };
    if (part == 0) switch (w) { case 0: span((int8_t)0, -128, 127); break; case 1: span((uint8_t)0, 0, 255); break; case 2: span((int16_t)0, -32768, 32767); break; case 3: span((uint16_t)0, 0, 65535); break;
        case 4: span((int32_t)0, -c.tier(20000, 200000), c.tier(100000, 1000000)); break; case 5: span((uint32_t)0, 0, c.tier(100000, 1000000)); break; case 6: span((int64_t)0, -c.tier(20000, 200000), c.tier(100000, 1000000)); break; case 7: span((uint64_t)0, 0, c.tier(100000, 1000000)); break; }
    else switch (w) { case 0: wide((int8_t)0); break; case 1: wide((uint8_t)0); break; case 2: wide((int16_t)0); break; case 3: wide((uint16_t)0); break; case 4: wide((int32_t)0); break; case 5: wide((uint32_t)0); break; case 6: wide((int64_t)0); break; case 7: wide((uint64_t)0); break; }
}
// squares of primes, products of neighbouring primes: where a trial division stops early
SCENARIO(semiprimes, 1) { std::vector<long long> p; for (long long i = 2; i < c.tier(3000, 20000); ++i) if (prime(i)) p.push_back(i); for (size_t i = 0; i + 3 < p.size(); ++i) for (int d = 0; d < 3; ++d) { const long long v = p[i] * p[i + d]; c.at("is_prime(%lld)", v); c.tick(); if (!c.ok(!em::is_prime(v))) c.fail("is_prime", "is_prime(%lld = %lld * %lld)", v, p[i], p[i + d]); } for (long long q : p) c.check(em::is_prime((uint64_t)q), "is_prime", "is_prime(%lld) = 0", q); }
// beyond 32 bits: primes, squares of primes and products of neighbouring primes around every power of two
SCENARIO(wide_primes, 8) {
    const int b = c.range(28, c.tier(38, 44), "bits"); c.split(); int k = 0; for (long long d = -260; d <= 260; ++d) { const long long v = (1ll << b) + d; if (v % 2 == 0 || v % 3 == 0 || v % 5 == 0) continue; const bool p = prime(v); if (!p && ++k % 8) continue; c.at("is_prime(%lld)", v); c.tick(); if (!c.ok(em::is_prime(v) == p && em::is_prime((uint64_t)v) == p)) c.fail("is_prime", "is_prime(%lld) = %d", v, !p); }
    std::vector<long long> q; for (long long v = (1ll << b / 2) - 60; v < (1ll << b / 2) + 60; ++v) if (v > 1 && prime(v)) q.push_back(v); for (size_t i = 0; i + 1 < q.size(); ++i) for (size_t j = i; j <= i + 1; ++j) { const long long v = q[i] * q[j]; c.at("is_prime(%lld)", v); c.tick(); if (!c.ok(!em::is_prime(v) && !em::is_prime((uint64_t)v))) c.fail("is_prime", "is_prime(%lld = %lld * %lld) = 1", v, q[i], q[j]); }
}
template <typename T> void real(Ctx& c) {
    std::vector<T> g; const T inf = std::numeric_limits<T>::infinity(), nan = std::numeric_limits<T>::quiet_NaN(), den = std::numeric_limits<T>::denorm_min(), mn = std::numeric_limits<T>::min(), mx = std::numeric_limits<T>::max();
    for (T v : {T(0), den, mn / 2, mn, T(1e-10), T(0.25), T(0.5), T(0.75), T(1), std::nextafter(T(1), T(0)), std::nextafter(T(1), T(2)), T(1.5), T(2), T(2.5), T(3), T(7), T(8), T(1000), T(1024), T(1e6), T(1048576), T(1e15), mx, inf}) { g.push_back(v); g.push_back(-v); } g.push_back(nan);
    for (T x : g) {
        c.at("real helpers of %g", (double)x); c.tick(); const bool fin = std::isfinite(x);
        c.check(em::is_nan(x) == (x != x), "is_nan", "is_nan(%g)", (double)x); c.check(em::is_inf(x) == (x == inf || x == -inf), "is_inf", "is_inf(%g)", (double)x); c.check(em::is_zero(x) == (x == 0), "is_zero", "is_zero(%g)", (double)x);
        c.check(em::is_denormal(x) == (x != 0 && std::fabs(x) < mn), "is_denormal", "is_denormal(%g)", (double)x); c.check(em::is_normal(x) == (fin && std::fabs(x) >= mn), "is_normal", "is_normal(%g)", (double)x); c.check(em::is_negative(x) == (x < 0), "is_negative", "is_negative(%g)", (double)x);
        if (x == x) c.check(em::sign(x) == (x < 0 ? T(-1) : T(1)), "sign", "sign(%g)", (double)x);
        if (fin) { const T f = em::fract(x); c.check(f == (T)((ld)x - std::floor((ld)x)) && f >= 0 && f <= 1, "fract", "fract(%g) = %g", (double)x, (double)f); c.check(em::half(x) == x / 2, "half", "half(%g) = %g", (double)x, (double)em::half(x)); }
        if (fin && x != 0 && std::fabs(x) > mn && std::fabs(x) < mx / 4) c.check(em::inv(x) == T(1) / x, "inv", "inv(%g) = %g", (double)x, (double)em::inv(x));
        if (fin && std::fabs(x) < 1e15) c.check(em::square(x) == x * x, "square", "square(%g) = %g", (double)x, (double)em::square(x));
        for (T y : g) if (fin && std::isfinite(y) && std::fabs(x) < 1e16 && std::fabs(y) < 1e16) {
            c.check(em::distance<edsp::distances::manhattan>(x, y) == std::fabs(x - y), "manhattan", "manhattan(%g, %g) = %g", (double)x, (double)y, (double)em::distance<edsp::distances::manhattan>(x, y)); c.check(em::distance<edsp::distances::euclidean>(x, y) == (x - y) * (x - y), "euclidean", "euclidean(%g, %g) = %g", (double)x, (double)y, (double)em::distance<edsp::distances::euclidean>(x, y));
            if (std::fabs(x) >= 1e-11 && std::fabs(y) >= 1e-11) { const ld w = std::log(std::fabs((ld)x) / std::fabs((ld)y)); c.check(std::fabs((ld)em::distance<edsp::distances::logarithmic>(x, y) - w) <= Lim<T>::eps * 4 * (1 + std::fabs(w)), "logarithmic", "logarithmic(%g, %g)", (double)x, (double)y); }
            const std::complex<T> z(x, y); c.check(em::magnitude(z) == std::abs(z) && em::phase(z) == std::arg(z) && em::real(z) == x && em::imag(z) == y && em::conj(z) == std::complex<T>(x, -y), "complex", "complex helpers of (%g, %g)", (double)x, (double)y);
        }
        for (T y : g) { const std::complex<T> z(x, y); c.check(em::is_nan(z) == (x != x || y != y), "complex-nan", "is_nan(%g, %g)", (double)x, (double)y); c.check(em::is_inf(z) == (std::isinf(x) || std::isinf(y)), "complex-inf", "is_inf(%g, %g)", (double)x, (double)y); }
    }
    // power-of-two helpers on integral values of the floating types
    for (int b = 0; b < (sizeof(T) == 4 ? 24 : 53); ++b) for (int d = -2; d <= 2; ++d) { const long long v = (1ll << b) + d; if (v < 1 || (long long)(T)v != v) continue; long long p = 1; while (p < v) p *= 2; c.at("power of two %lld", v); c.check(em::is_power_two((T)v) == ((v & (v - 1)) == 0), "is_power_two", "is_power_two(%lld.0)", v); c.check(em::next_power_two((T)v) == (T)p, "next_power_two", "next_power_two(%lld.0) = %g", v, (double)em::next_power_two((T)v)); }
    const T i = inf; c.check(em::is_inf(em::infinity<T>()) && em::infinity<T>().real() == i && em::infinity<T>().imag() == i, "infinity", "complex infinity");
}
SCENARIO(reals, 2) { if (c.choose(2, "type")) real<float>(c); else real<double>(c); }
// constants equal their closed forms
SCENARIO(constants, 1) {
    typedef edsp::constants<double> K; const ld pi = 3.14159265358979323846264338327950288L, e = std::exp(1.0L), ln2 = std::log(2.0L), ln10 = std::log(10.0L), phi = (1 + std::sqrt(5.0L)) / 2, g = 0.577215664901532860606512090082402431L;
    const struct { const char* n; double v; ld w; } t[] = {
#define K_(n, w) {#n, K::n, w}
        K_(half, .5L), K_(third, 1 / 3.0L), K_(twothirds, 2 / 3.0L), K_(two_thirds, 2 / 3.0L), K_(sixth, 1 / 6.0L), K_(three_quarters, .75L), K_(root_two, std::sqrt(2.0L)), K_(root_three, std::sqrt(3.0L)), K_(half_root_two, std::sqrt(2.0L) / 2), K_(ln_two, ln2), K_(ln_ln_two, std::log(ln2)), K_(root_ln_four, std::sqrt(2 * ln2)), K_(one_div_root_two, 1 / std::sqrt(2.0L)),
        K_(pi, pi), K_(half_pi, pi / 2), K_(third_pi, pi / 3), K_(sixth_pi, pi / 6), K_(two_pi, 2 * pi), K_(two_thirds_pi, 2 * pi / 3), K_(three_quarters_pi, 3 * pi / 4), K_(four_thirds_pi, 4 * pi / 3), K_(one_div_two_pi, 1 / (2 * pi)), K_(one_div_root_two_pi, 1 / std::sqrt(2 * pi)), K_(root_pi, std::sqrt(pi)), K_(root_half_pi, std::sqrt(pi / 2)), K_(root_two_pi, std::sqrt(2 * pi)), K_(log_root_two_pi, std::log(std::sqrt(2 * pi))), K_(one_div_root_pi, 1 / std::sqrt(pi)), K_(root_one_div_pi, 1 / std::sqrt(pi)), K_(pi_minus_three, pi - 3), K_(four_minus_pi, 4 - pi), K_(pi_pow_e, std::pow(pi, e)), K_(pi_sqr, pi * pi), K_(pi_sqr_div_six, pi * pi / 6), K_(pi_cubed, pi * pi * pi), K_(cbrt_pi, std::cbrt(pi)), K_(one_div_cbrt_pi, 1 / std::cbrt(pi)),
        K_(e, e), K_(exp_minus_half, std::exp(-.5L)), K_(e_pow_pi, std::pow(e, pi)), K_(root_e, std::sqrt(e)), K_(log10_e, 1 / ln10), K_(one_div_log10_e, ln10), K_(ln_ten, ln10), K_(degree, pi / 180), K_(radian, 180 / pi), K_(sin_one, std::sin(1.0L)), K_(cos_one, std::cos(1.0L)), K_(sinh_one, std::sinh(1.0L)), K_(cosh_one, std::cosh(1.0L)), K_(phi, phi), K_(ln_phi, std::log(phi)), K_(one_div_ln_phi, 1 / std::log(phi)), K_(euler, g), K_(one_div_euler, 1 / g), K_(euler_sqr, g * g), K_(zeta_two, pi * pi / 6), K_(zeta_three, 1.20205690315959428539973816151144999L), K_(catalan, 0.915965594177219015054603514932384110L), K_(glaisher, 1.28242712910062263687534256886979172L), K_(khinchin, 2.68545200106530644530971483548179569L),
        K_(extreme_value_skewness, 12 * std::sqrt(6.0L) * 1.20205690315959428539973816151144999L / (pi * pi * pi)), K_(rayleigh_skewness, 2 * std::sqrt(pi) * (pi - 3) / std::pow(4 - pi, 1.5L)), K_(rayleigh_kurtosis, 3 - (6 * pi * pi - 24 * pi + 16) / ((4 - pi) * (4 - pi))), K_(rayleigh_kurtosis_excess, -(6 * pi * pi - 24 * pi + 16) / ((4 - pi) * (4 - pi))), K_(two_div_pi, 2 / pi), K_(root_two_div_pi, std::sqrt(2 / pi))};
    for (auto& k : t) { c.at("constant %s", k.n); c.tick(); c.check(std::fabs(k.v - k.w) <= 4e-16L * std::max(1.0L, std::fabs(k.w)), std::string("constant-") + k.n, "%s = %.18g, closed form %.18Lg", k.n, k.v, k.w); }
}
#endif
