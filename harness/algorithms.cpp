// C18-C20: element-wise algorithms, search / comparison / assembly, spaces.
#include <stdexcept>
#include <edsp/algorithm/amplifier.hpp>
#include <edsp/algorithm/clipper.hpp>
#include <edsp/algorithm/ceil.hpp>
#include <edsp/algorithm/floor.hpp>
#include <edsp/algorithm/round.hpp>
#include <edsp/algorithm/fix.hpp>
#include <edsp/algorithm/rectify.hpp>
#include <edsp/algorithm/normalize.hpp>
#include <edsp/algorithm/derivative.hpp>
#include <edsp/algorithm/linear_search.hpp>
#include <edsp/algorithm/binary_search.hpp>
#include <edsp/algorithm/indexof.hpp>
#include <edsp/algorithm/equal.hpp>
#include <edsp/algorithm/concatenate.hpp>
#include <edsp/algorithm/padder.hpp>
#include <edsp/algorithm/silence.hpp>
#include <edsp/algorithm/linspace.hpp>
#include <edsp/algorithm/logspace.hpp>
#include <edsp/auditory/audspace.hpp>
#include <edsp/auditory/converter/hertz2mel.hpp>
#include <edsp/auditory/converter/hertz2erb.hpp>
#include <edsp/auditory/converter/hertz2bark.hpp>
#include <edsp/auditory/converter/hertz2cent.hpp>
#include "inputs.hpp"
using mc::Ctx; typedef long double ld;
#if defined(C18)
enum Op { AMP, AMPCLIP, CLIP, CEIL, FLOOR, ROUND, FIX, RECT, NORM, NORMRMS, DERIV, OPS };
static const char* names[] = {"amplifier", "amplifier-clip", "clipper", "ceil", "floor", "round", "fix", "rectify", "normalize", "normalize_rms", "derivative"};
struct Par { double k, lo, hi; };
template <typename T, typename I, typename O> void run(int op, I a, I b, O o, Par p) {
    switch (op) {
        case AMP: edsp::amplifier(a, b, o, (T)p.k); break; case AMPCLIP: edsp::amplifier(a, b, o, (T)p.k, (T)p.lo, (T)p.hi); break; case CLIP: edsp::clipper(a, b, o, (T)p.lo, (T)p.hi); break;
        case CEIL: edsp::algorithm::ceil(a, b, o); break; case FLOOR: edsp::algorithm::floor(a, b, o); break; case ROUND: edsp::algorithm::round(a, b, o); break; case FIX: edsp::algorithm::fix(a, b, o); break;
        case RECT: edsp::rectify(a, b, o); break; case NORM: edsp::normalize(a, b, o); break; case NORMRMS: edsp::normalize_rms(a, b, o); break; case DERIV: edsp::derivative(a, b, o); break;
    }
}
static ld away(ld x) { ld i = std::floor(std::fabs(x)); if (std::fabs(x) - i >= 0.5L) i += 1; return x < 0 ? -i : i; }
static ld clip(ld v, ld lo, ld hi) { return v < lo ? lo : v > hi ? hi : v; }
template <typename T> ld model(int op, const std::vector<T>& x, size_t i, Par p, ld peak, ld rms) {
    const ld v = x[i];
    switch (op) {
        case AMP: return (T)p.k * v; case AMPCLIP: return clip((T)p.k * v, (T)p.lo, (T)p.hi); case CLIP: return clip(v, (T)p.lo, (T)p.hi);
        case CEIL: return std::ceil(v); case FLOOR: return std::floor(v); case ROUND: return away(v); case FIX: return v < 0 ? std::ceil(v) : std::floor(v);
        case RECT: return std::fabs(v); case NORM: return v / peak; case NORMRMS: return v / rms; case DERIV: return i ? v - (ld)x[i - 1] : v;
    } return 0;
}
template <typename T> void one(Ctx& c, int op, const std::vector<T>& x, int iter, Par p, const char* in) {
    const size_t n = x.size(); ld peak = 0, sq = 0; for (T v : x) { peak = std::max(peak, std::fabs((ld)v)); sq += (ld)v * v; } const ld rms = n ? std::sqrt(sq / n) : 0;
    if ((op == NORM && !(peak > std::numeric_limits<T>::min())) || (op == NORMRMS && !(rms * rms > std::numeric_limits<T>::min()))) { c.nontrivial(0); return; }   // silent input: outside the domain
    if (op == NORMRMS && !(sq < std::numeric_limits<T>::max())) return;
    const ld e = std::numeric_limits<T>::epsilon() * (op == NORMRMS ? 4 + (ld)n / 2 : 2);
    c.at("%s n=%zu iterators %d k=%g clip [%g, %g] %s", names[op], n, iter, p.k, p.lo, p.hi, in);
    std::vector<T> got; const std::vector<T> before = x; bool intact = true;
    if (iter == 0) { in::Exact<T> s(x, 0), d(n, 0, T(77)); run<T>(op, (const T*)s.begin(), (const T*)s.end(), d.begin(), p); got.assign(d.begin(), d.end()); intact = in::same(s.begin(), x); }
    else if (iter == 1) { std::list<T> s(x.begin(), x.end()), d(n, T(77)); run<T>(op, s.cbegin(), s.cend(), d.begin(), p); got.assign(d.begin(), d.end()); intact = std::equal(x.begin(), x.end(), s.begin()); }
    else if (iter == 2) { in::Exact<T> s(x, 0); run<T>(op, s.begin(), s.end(), s.begin(), p); got.assign(s.begin(), s.end()); }
    else { std::vector<T> s(x), d(n + 4, T(77)); run<T>(op, s.begin(), s.end(), d.begin() + 2, p); intact = s == x; for (size_t i : {(size_t)0, (size_t)1, n + 2, n + 3}) if (!c.ok(d[i] == T(77))) c.fail(std::string(names[op]) + "-outside", "%s of %zu elements wrote outside its destination", names[op], n); got.assign(d.begin() + 2, d.begin() + 2 + (long)n); }
    if (!c.ok(intact)) c.fail(std::string(names[op]) + "-modifies-input", "%s modified its input", names[op]);
    for (size_t i = 0; i < n; ++i) {
        const ld w = model(op, x, i, p, peak, rms); ld tol = 0; if (op == AMP || op == AMPCLIP || op == DERIV || op == NORM || op == NORMRMS) tol = e * std::max(std::fabs(w), op == DERIV ? (ld)std::fabs(x[i]) : 0) + std::numeric_limits<T>::denorm_min();
        const ld wt = (T)w;      // infinities and overflow as the element type has them
        if (!c.ok(mc::near(got[i], wt, 0, tol))) c.fail(names[op], "%s (k=%g, [%g, %g]), %s, element %zu of %zu (%.17Lg): got %.17Lg, expected %.17Lg", names[op], p.k, p.lo, p.hi, in, i, n, (ld)x[i], (ld)got[i], wt);
    }
}
static Par parameters(Ctx& c, int op) {
    Par p{1, -1, 1};
    if (op == AMP || op == AMPCLIP) p.k = c.pick({2.0, -0.5, 0.1, 0.0, 1.0}, "factor");
    if (op == AMPCLIP || op == CLIP) { const int w = c.choose(4, "limits"); p.lo = w == 0 ? -1 : w == 1 ? 0.25 : w == 2 ? -3 : 0; p.hi = w == 0 ? 1 : w == 1 ? 0.75 : w == 2 ? -0.5 : 0; }
    return p;
}
template <typename T> std::initializer_list<T> critical() { static const std::initializer_list<T> l = {T(0), T(0.5), T(-0.5), T(-1), T(2.5), T(-1.5), T(1) - std::numeric_limits<T>::epsilon() / 2, T(0.25)}; return l; }
template <typename T> void words(Ctx& c, int maxlen) { const int op = c.choose(OPS, "operation"), iter = c.choose(4, "iterators"); const Par p = parameters(c, op); const int n = c.range(0, maxlen, "length"); std::vector<T> v((size_t)n); for (auto& e : v) e = c.pick(critical<T>()); one<T>(c, op, v, iter, p, mc::show(v).c_str()); }
SCENARIO(critical_words_double, 8) { words<double>(c, c.tier(3, 4)); }
SCENARIO(critical_words_float, 8) { words<float>(c, c.tier(2, 4)); }
template <typename T> void extremes(Ctx& c) {
    const int op = c.choose(OPS, "operation"), iter = c.choose(4, "iterators"); const Par p = parameters(c, op); typedef std::numeric_limits<T> L;
    std::vector<T> v = {c.pick({L::max(), L::lowest(), L::min(), L::denorm_min(), -L::denorm_min(), T(0.5) - L::epsilon() / 4, -T(0.5) + L::epsilon() / 4, T(1) / L::epsilon(), T(1) / L::epsilon() - T(0.5), T(-0.0), T(1e9), T(-123456.5), L::infinity(), -L::infinity()})};
    if (std::isinf(v[0]) && (op == NORM || op == NORMRMS || op == DERIV || op == AMP || op == AMPCLIP)) return;
    if (c.choose(2)) v.push_back(T(-2)); one<T>(c, op, v, iter, p, "extreme value");
}
SCENARIO(extreme_values_double, 2) { extremes<double>(c); }
SCENARIO(extreme_values_float, 2) { extremes<float>(c); }
SCENARIO(lengths_shapes, 8) {
    const int op = c.choose(OPS, "operation"), iter = c.choose(4, "iterators"), t = c.choose(2, "type"), s = c.choose(in::SHAPES, "shape"); const auto n = c.pick(in::sizes(c.thorough()), "length"); const Par p = parameters(c, op);
    if (t) one<float>(c, op, in::cast<float>(in::shape(s, n)), iter, p, in::shape_name(s)); else one<double>(c, op, in::shape(s, n), iter, p, in::shape_name(s));
}
SCENARIO(long_inputs, 8) {
    const int op = c.choose(OPS, "operation"), iter = c.choose(4, "iterators"), t = c.choose(2, "type"), s = c.pick({0, 2}, "shape"); const auto n = c.pick(in::longer(c.thorough()), "length"); const Par p{-0.5, -0.25, 0.125};
    if (t) one<float>(c, op, in::cast<float>(in::shape(s, n)), iter, p, in::shape_name(s)); else one<double>(c, op, in::shape(s, n), iter, p, in::shape_name(s));
}
template <typename T> void magnitudes(Ctx& c) { const int op = c.choose(OPS, "operation"), s = c.pick({0, 1, 2, 5}, "shape"), e = c.pick(in::scales<T>(), "exponent"); const auto n = (size_t)c.pick({1, 2, 7, 64}, "length"); const double k = std::ldexp(1.0, e); const Par p{c.pick({0.1, -3.0}, "factor"), -0.25 * k, 0.75 * k}; if ((op == AMPCLIP || op == CLIP) && !std::isfinite((T)(p.hi))) return; char in[64]; snprintf(in, sizeof in, "%s times 2^%d", in::shape_name(s), e); one<T>(c, op, in::scaled<T>(s, n, e), 0, p, in); }
SCENARIO(magnitudes_double, 4) { magnitudes<double>(c); }
SCENARIO(magnitudes_float, 4) { magnitudes<float>(c); }
// integer input
SCENARIO(integers, 8) {
    const int op = c.pick({CLIP, AMP, AMPCLIP, RECT, DERIV, CEIL, FLOOR, ROUND, FIX}, "operation"); const int n = c.range(0, c.tier(3, 4)); std::vector<int> x((size_t)n), d((size_t)n + 1, 77); for (auto& e : x) e = c.pick({0, 1, -1, -3, 7, 2});
    std::vector<int> w; const Par p{-2, -2, 5};
    switch (op) { case CLIP: edsp::clipper(x.begin(), x.end(), d.begin(), -2, 5); break; case AMP: edsp::amplifier(x.begin(), x.end(), d.begin(), -2); break; case AMPCLIP: edsp::amplifier(x.begin(), x.end(), d.begin(), -2, -2, 5); break; default: run<int>(op, x.begin(), x.end(), d.begin(), p); }
    for (size_t i = 0; i < x.size(); ++i) { const ld e = model<int>(op, x, i, p, 1, 1); if (!c.ok(d[i] == (int)e)) c.fail(std::string(names[op]) + "-int", "%s of integers %s, element %zu: got %d, expected %Lg", names[op], mc::show(x).c_str(), i, d[i], e); }
    if (!c.ok(d.back() == 77)) c.fail(std::string(names[op]) + "-outside", "%s wrote past the end", names[op]);
}
#elif defined(C19)
template <typename It> int idx(It f, It l, It r) { return r == l ? -1 : (int)std::distance(f, r); }
inline int idx(int, int n, int i) { return i == n ? -1 : i; }
template <typename T> void search(Ctx& c, int maxlen) {
    const int n = c.range(0, maxlen, "length"); auto v = in::word<T>(c, (size_t)n, {-1, 0, 0.5, 2}); const T key = (T)c.pick({-1.0, 0.0, 0.5, 2.0, -2.0, 1.0, 3.0}, "value");
    const auto w = v; int first = -1, count = 0; for (int i = 0; i < n; ++i) if (v[(size_t)i] == key) { if (first < 0) first = i; ++count; }
    std::list<T> l(v.begin(), v.end()); c.at("search %s for %g", mc::show(v).c_str(), (double)key);
    in::Exact<T> x(v, 0); const T* b = x.begin(); const T* e = x.end();
    if (!c.ok(idx(b, e, edsp::linear_search(b, e, key)) == first && idx(l.begin(), l.end(), edsp::linear_search(l.begin(), l.end(), key)) == first)) c.fail("linear_search", "linear search of %g in %s is not %d", (double)key, mc::show(v).c_str(), first);
    if (!c.ok(edsp::index_of(b, e, key) == first && edsp::index_of(l.begin(), l.end(), key) == first)) c.fail("index_of", "index_of %g in %s is %d, expected %d", (double)key, mc::show(v).c_str(), (int)edsp::index_of(b, e, key), first);
    if (!c.ok(in::same(b, w))) c.fail("modified", "a search modified its input");
    std::sort(v.begin(), v.end()); in::Exact<T> y(v, 0); const T* sb = y.begin(); const T* se = y.end(); std::list<T> sl(v.begin(), v.end());
    const T* r = edsp::algorithm::binary_search(sb, se, key); auto lr = edsp::algorithm::binary_search(sl.cbegin(), sl.cend(), key);
    if (!c.ok(count ? (r != se && r >= sb && r < se && *r == key && lr != sl.cend() && *lr == key) : (r == se && lr == sl.cend()))) c.fail("binary_search", "binary search of %g in %s: position %d, %d occurrences", (double)key, mc::show(v).c_str(), idx(sb, se, r), count);
}
SCENARIO(search_double, 8) { search<double>(c, c.tier(5, 7)); }
SCENARIO(search_float, 8) { search<float>(c, c.tier(3, 6)); }
SCENARIO(search_int, 8) { search<int>(c, c.tier(3, 6)); }
// a value that is equal to nothing (not a number) is never found, and does not hide the others
SCENARIO(search_nan, 4) {
    const int n = c.range(0, c.tier(4, 5), "length"); const double nan = std::numeric_limits<double>::quiet_NaN(), inf = std::numeric_limits<double>::infinity(); std::vector<double> v((size_t)n); for (auto& e : v) e = c.pick({nan, 0.0, -0.0, inf}); const double key = c.pick({nan, 0.0, -0.0, inf, -inf, 1.0}, "value"); int first = -1; for (int i = n; i-- > 0;) if (v[(size_t)i] == key) first = i;
    if (!c.ok(idx(0, n, (int)(edsp::linear_search(v.begin(), v.end(), key) - v.begin())) == first && edsp::index_of(v.begin(), v.end(), key) == first)) c.fail("index_of", "search of %g in %s: %d and %d, expected %d", key, mc::show(v).c_str(), (int)(edsp::linear_search(v.begin(), v.end(), key) - v.begin()), (int)edsp::index_of(v.begin(), v.end(), key), first);
    auto w = v; bool same = true; for (double e : v) same &= e == e; if (!c.ok(edsp::algorithm::equal(v.begin(), v.end(), w.begin(), w.end()) == same)) c.fail("equal", "equal(%s, itself) is %d", mc::show(v).c_str(), !same);
}
SCENARIO(search_long, 8) {       // every length, every position, present and absent values
    const auto n = (size_t)c.pick(in::sizes(c.thorough())); std::vector<double> v(n); for (size_t i = 0; i < n; ++i) v[i] = 2.0 * (double)i - (double)n;
    for (size_t i = 0; i <= n; ++i) for (int odd = 0; odd < 2; ++odd) {
        const double key = 2.0 * (double)i - (double)n + odd; const int want = !odd && i < n ? (int)i : -1;
        if (!c.ok(idx(v.begin(), v.end(), edsp::algorithm::binary_search(v.begin(), v.end(), key)) == want)) c.fail("binary_search", "length %zu, key %g: not found at %d", n, key, want);
        if (!c.ok(idx(v.begin(), v.end(), edsp::linear_search(v.begin(), v.end(), key)) == want && edsp::index_of(v.begin(), v.end(), key) == want)) c.fail("linear_search", "length %zu, key %g: not found at %d", n, key, want);
    }
}
SCENARIO(search_longer, 8) {     // long sequences: values around every sixteenth part and the ends
    const auto n = c.pick(in::longer(c.thorough())); c.split(); std::vector<double> v(n); for (size_t i = 0; i < n; ++i) v[i] = 2.0 * (double)i - (double)n; std::list<double> l(v.begin(), v.end());
    std::vector<size_t> at; for (size_t k = 0; k <= 16; ++k) for (int d = -2; d <= 2; ++d) { const long i = (long)(n * k / 16) + d; if (i >= 0 && i <= (long)n) at.push_back((size_t)i); } for (size_t b : {(size_t)255, (size_t)256, (size_t)32767, (size_t)32768, (size_t)65535, (size_t)65536}) if (b < n) at.push_back(b);
    for (size_t i : at) for (int odd = 0; odd < 2; ++odd) {
        const double key = 2.0 * (double)i - (double)n + odd; const long want = !odd && i < n ? (long)i : -1; auto pos = [&](std::vector<double>::iterator r) { return r == v.end() ? -1L : (long)(r - v.begin()); };
        if (!c.ok(pos(edsp::algorithm::binary_search(v.begin(), v.end(), key)) == want)) c.fail("binary_search", "length %zu, key %g: not found at %ld", n, key, want);
        if (!c.ok(pos(edsp::linear_search(v.begin(), v.end(), key)) == want && (long)edsp::index_of(v.begin(), v.end(), key) == want)) c.fail("linear_search", "length %zu, key %g: not found at %ld", n, key, want);
    }
    for (size_t i : at) { auto it = edsp::algorithm::binary_search(l.begin(), l.end(), 2.0 * (double)i - (double)n); if (!c.ok(i < n ? it != l.end() && *it == v[i] : it == l.end())) c.fail("binary_search", "list of length %zu: value at %zu not found", n, i); if (i > 40 && i < n - 40) break; }
    for (size_t i : at) if (i < n) { auto w = v; w[i] += 1e-9; if (!c.ok(!edsp::algorithm::equal(v.begin(), v.end(), w.begin(), w.end()) || w == v)) c.fail("equal", "sequences of length %zu that differ at %zu are equal", n, i); }
    auto w = v; if (!c.ok(edsp::algorithm::equal(v.begin(), v.end(), w.begin(), w.end()))) c.fail("equal", "equal sequences of length %zu differ", n);
    for (double t : {0.2, 0.5}) { auto x = in::shape(0, n); ld p = 0; for (double e : x) p += (ld)e * e; p /= n; if (!c.ok(edsp::silence(x.begin(), x.end(), t) == (p < t))) c.fail("silence", "silence of %zu dense samples at %g, mean power %Lg", n, t, p); }
}
template <typename T> void equality(Ctx& c, int maxlen) {
    const int n = c.range(0, maxlen), m = c.range(0, maxlen); auto a = in::word<T>(c, (size_t)n, {0, 1, -2}), b = in::word<T>(c, (size_t)m, {0, 1, -2}); const bool want = a == b; in::Exact<T> x(a, 0), y(b, 0); const T *xb = x.begin(), *xe = x.end(), *yb = y.begin(), *ye = y.end();
    c.at("equal %s %s", mc::show(a).c_str(), mc::show(b).c_str());
    if (!c.ok(edsp::algorithm::equal(xb, xe, yb, ye) == want)) c.fail("equal", "equal(%s, %s) is %d", mc::show(a).c_str(), mc::show(b).c_str(), !want);
    bool wp = n == m; for (int i = 0; wp && i < n; ++i) wp = std::fabs((double)a[(size_t)i] - (double)b[(size_t)i]) <= 1; int calls = 0;
    if (!c.ok(edsp::algorithm::equal(xb, xe, yb, ye, [&](const T& p, const T& q) { ++calls; return std::fabs((double)p - (double)q) <= 1; }) == wp)) c.fail("equal-predicate", "equal(%s, %s) within one is %d", mc::show(a).c_str(), mc::show(b).c_str(), !wp);
    std::list<T> l(b.begin(), b.end()), k(a.begin(), a.end()); if (!c.ok(edsp::algorithm::equal(k.begin(), k.end(), l.begin(), l.end()) == want)) c.fail("equal-list", "equal(%s, %s) is %d", mc::show(a).c_str(), mc::show(b).c_str(), !want);
}
SCENARIO(equality_double, 8) { equality<double>(c, c.tier(3, 4)); }
SCENARIO(equality_int, 8) { equality<int>(c, c.tier(3, 4)); }
SCENARIO(equality_one_difference, 4) {
    const auto n = (size_t)c.pick(in::sizes(c.thorough())); auto v = in::shape(0, n); for (size_t i = 0; i < n; ++i) for (double d : {1.0, 1e-9, 1e-14}) { auto w = v; w[i] += d; if (w[i] == v[i]) continue; if (!c.ok(!edsp::algorithm::equal(v.begin(), v.end(), w.begin(), w.end()))) c.fail("equal", "sequences of length %zu that differ by %g at %zu are equal", n, d, i); }
    auto w = v; if (!c.ok(edsp::algorithm::equal(v.begin(), v.end(), w.begin(), w.end()))) c.fail("equal", "equal sequences of length %zu are not equal", n); w.push_back(0); if (!c.ok(!edsp::algorithm::equal(v.begin(), v.end(), w.begin(), w.end()) && !edsp::algorithm::equal(w.begin(), w.end(), v.begin(), v.end()))) c.fail("equal", "a prefix of length %zu is equal to the whole", n);
}
template <typename T> void concat(Ctx& c, size_t n, size_t m, const std::vector<T>& a, const std::vector<T>& b, int iter) {
    auto w = a; w.insert(w.end(), b.begin(), b.end()); c.at("concatenate %zu %zu iterators %d", n, m, iter); std::vector<T> g;
    if (iter == 0) { in::Exact<T> x(a, 0), y(b, 0), d(n + m, 0, T(77)); edsp::concatenate((const T*)x.begin(), (const T*)x.end(), (const T*)y.begin(), (const T*)y.end(), d.begin()); g.assign(d.begin(), d.end()); if (!c.ok(in::same(x.begin(), a) && in::same(y.begin(), b))) c.fail("concatenate-modifies-input", "concatenate modified its input"); }
    else if (iter == 1) { std::list<T> x(a.begin(), a.end()), y(b.begin(), b.end()), d(n + m, T(77)); edsp::concatenate(x.cbegin(), x.cend(), y.cbegin(), y.cend(), d.begin()); g.assign(d.begin(), d.end()); }
    else { std::vector<T> d(n + m + 2, T(77)); edsp::concatenate(a.begin(), a.end(), b.begin(), b.end(), d.begin() + 1); if (!c.ok(d[0] == T(77) && d.back() == T(77))) c.fail("concatenate-outside", "concatenate wrote outside"); g.assign(d.begin() + 1, d.end() - 1); }
    if (!c.ok(g == w)) c.fail("concatenate", "concatenate(%s, %s) = %s", mc::show(a).c_str(), mc::show(b).c_str(), mc::show(g).c_str());
}
SCENARIO(concatenation, 8) { const auto n = (size_t)c.range(0, c.tier(20, 40)), m = (size_t)c.range(0, c.tier(20, 40)); const int iter = c.choose(3); concat<double>(c, n, m, in::shape(0, n), in::shape(6, m), iter); concat<int>(c, n, m, in::cast<int>(in::shape(2, n)), in::cast<int>(in::shape(6, m)), iter); }
SCENARIO(padding, 8) {
    const auto n = (size_t)c.range(0, c.tier(40, 80)), extra = (size_t)c.range(0, c.tier(40, 80)); const int iter = c.choose(3); auto a = in::shape(0, n); auto w = a; w.resize(n + extra, 0); std::vector<double> g; c.at("pad %zu by %zu iterators %d", n, extra, iter);
    if (iter == 0) { in::Exact<double> x(a, 0), d(n + extra, 0, 77.0); edsp::padder((const double*)x.begin(), (const double*)x.end(), d.begin(), d.end()); g.assign(d.begin(), d.end()); if (!c.ok(in::same(x.begin(), a))) c.fail("padder-modifies-input", "padder modified its input"); }
    else if (iter == 1) { std::list<double> x(a.begin(), a.end()); std::vector<double> d(n + extra, 77.0); edsp::padder(x.cbegin(), x.cend(), d.begin(), d.end()); g = d; }
    else { std::vector<double> d(n + extra + 2, 77.0); edsp::padder(a.begin(), a.end(), d.begin() + 1, d.end() - 1); if (!c.ok(d[0] == 77 && d.back() == 77)) c.fail("padder-outside", "padder wrote outside"); g.assign(d.begin() + 1, d.end() - 1); }
    if (!c.ok(g == w)) c.fail("padder", "padding %zu elements to %zu: %s", n, n + extra, mc::show(g, 90).c_str());
}
SCENARIO(long_assembly, 8) {
    const auto n = c.pick(in::longer(c.thorough())), m = (size_t)c.pick({0, 1, 1000, 65537}); const int iter = c.choose(3); c.split(); concat<double>(c, n, m, in::shape(0, n), in::shape(6, m), iter); concat<double>(c, m, n, in::shape(0, m), in::shape(6, n), iter);
    auto a = in::shape(0, n), w = a; w.resize(n + m, 0); in::Exact<double> x(a, 0), d(n + m, 0, 77.0); edsp::padder((const double*)x.begin(), (const double*)x.end(), d.begin(), d.end()); c.check(in::same(d.begin(), w), "padder", "padding %zu elements to %zu", n, n + m);
}
template <typename T> void silent(Ctx& c, int maxlen) {
    const int n = c.range(1, maxlen); auto v = in::word<T>(c, (size_t)n, {0, 0.5, -1, 2}); const double t = c.pick({0.1, 0.2, 0.3, 0.7, 1.3, 2.1, 3.9, 4.1, 0.01}); ld p = 0; for (T e : v) p += (ld)e * e; p /= n; if (std::fabs(p - t) < 1e-5L) return;
    { const bool pow2 = (n & (n - 1)) == 0; if (pow2 && !c.ok(!edsp::silence(v.begin(), v.end(), (T)p))) c.fail("silence-boundary", "silence(%s, %Lg) although the mean power is not below that", mc::show(v).c_str(), p); }
    if (!c.ok(edsp::silence(v.begin(), v.end(), (T)t) == (p < t))) c.fail("silence", "silence(%s, %g) is %d, mean power %Lg", mc::show(v).c_str(), t, !(p < t), p);
    std::list<T> l(v.begin(), v.end()); if (!c.ok(edsp::silence(l.begin(), l.end(), (T)t) == (p < t))) c.fail("silence-list", "silence(%s, %g)", mc::show(v).c_str(), t);
}
SCENARIO(silence_double, 8) { silent<double>(c, c.tier(5, 6)); }
SCENARIO(silence_float, 8) { silent<float>(c, c.tier(4, 6)); }
#elif defined(C20)
template <typename T> ld unit() { return std::numeric_limits<T>::epsilon(); }
template <typename T> void space(Ctx& c, int kind, size_t n, ld a, ld b, int iter) {
    static const char* names[] = {"linspace", "logspace", "melspace", "erbspace", "barkspace", "centspace", "audspace-mel", "audspace-erb", "audspace-bark", "audspace-cent"};
    const T x1 = (T)a, x2 = (T)b; std::vector<T> g; using namespace edsp; c.at("%s n=%zu [%Lg, %Lg] %s iterators %d", names[kind], n, a, b, sizeof(T) == 4 ? "float" : "double", iter);
    auto call = [&](auto first, auto last) {
        switch (kind) {
            case 0: linspace(first, x1, x2, (long)n); break; case 1: logspace(first, x1, x2, (int)n); break;
            case 2: auditory::melspace(first, last, x1, x2); break; case 3: auditory::erbspace(first, last, x1, x2); break; case 4: auditory::barkspace(first, last, x1, x2); break; case 5: auditory::centspace(first, last, x1, x2); break;
            case 6: auditory::audspace(first, x1, x2, (int)n, auditory::mel); break; case 7: auditory::audspace(first, x1, x2, (long)n, auditory::erb); break; case 8: auditory::audspace(first, x1, x2, (int)n, auditory::bark); break; case 9: auditory::audspace(first, x1, x2, (long)n, auditory::cent); break;
        } };
    if (iter == 0) { in::Exact<T> d(n, 0, T(77)); call(d.begin(), d.end()); g.assign(d.begin(), d.end()); }
    else if (iter == 1) { std::list<T> d(n, T(77)); call(d.begin(), d.end()); g.assign(d.begin(), d.end()); }
    else { std::vector<T> d(n + 2, T(77)); call(d.begin() + 1, d.end() - 1); if (!c.ok(d[0] == 77 && d.back() == 77)) c.fail(std::string(names[kind]) + "-count", "%s of %zu points wrote another number of points", names[kind], n); g.assign(d.begin() + 1, d.end() - 1); }
    for (size_t i = 0; i < n; ++i) {
        const ld u = n > 1 ? (ld)i / (ld)(n - 1) : 0, x = (ld)x1 + ((ld)x2 - x1) * u, dx = 6 * unit<T>() * std::max(std::fabs((ld)x1), std::fabs((ld)x2));   // error of the linear point
        ld w = x, tol = dx;
        auto scale = [&](auto f) { w = f((double)x); tol = std::fabs(f((double)(x + dx)) - f((double)(x - dx))) + 8 * unit<T>() * (std::fabs(w) + 30); };
        switch (kind) {
            case 1: w = std::pow(10.0L, x); tol = w * (2.4L * dx + 8 * unit<T>()); break;
            case 2: case 6: scale([](double f) { return 1127.01048L * std::log1p(f / 700.0L); }); break;
            case 3: case 7: scale([](double f) { return 21.4L * std::log10(1 + 4.37L * f / 1000); }); break;
            case 4: case 8: scale([](double f) { const ld z = 26.81L * f / (1960 + (ld)f) - 0.53L; return z < 2 ? z + 0.15L * (2 - z) : z > 20.1L ? z + 0.22L * (z - 20.1L) : z; }); break;
            case 5: case 9: scale([](double f) { return 1200 * std::log2(f / 440.0L) + 5700; }); tol += 64 * unit<T>() * 12000; break;
        }
        if (!c.ok(std::fabs(g[i] - w) <= tol)) c.fail(names[kind], "%s of %zu points in [%Lg, %Lg] (%s): point %zu is %.12Lg, expected %.12Lg", names[kind], n, a, b, sizeof(T) == 4 ? "float" : "double", i, (ld)g[i], w);
    }
}
static void any(Ctx& c, int kind, size_t n, ld a, ld b, int t, int iter) { if (t) space<float>(c, kind, n, a, b, iter); else space<double>(c, kind, n, a, b, iter); }
SCENARIO(linear_every_length, 8) { const int t = c.choose(2), iter = c.choose(3); const auto n = (size_t)c.range(1, c.tier(300, 1100)); const int b = c.choose(9); const ld A[] = {0, -1, 3, 1e6L, 0.1L, -5, 0, 440, 1e-8L}, B[] = {1, 1, -3, -1e6L, 0.7L, -5, -0.3L, 441, 1e8L}; any(c, 0, n, A[b], B[b], t, iter); }
SCENARIO(logarithmic_every_length, 8) { const int t = c.choose(2), iter = c.choose(3); const auto n = (size_t)c.range(1, c.tier(300, 1100)); const int b = c.choose(6); const ld A[] = {0, -1, 3, -5, 2, 0.1L}, B[] = {1, 1, -3, -5, 4, 0.7L}; any(c, 1, n, A[b], B[b], t, iter); }
SCENARIO(auditory_every_length, 8) { const int kind = c.range(2, 9), t = c.choose(2), iter = c.choose(3); const auto n = (size_t)c.range(1, c.tier(64, 300)); const int b = c.choose(6); const ld A[] = {20, 20000, 440, 100, 15000, 30}, B[] = {20000, 20, 440, 500, 22050, 300}; any(c, kind, n, A[b], B[b], t, iter); }
SCENARIO(long_spaces, 8) { const int kind = c.choose(10), t = c.choose(2); const auto n = (size_t)c.pick({1000, 1023, 1024, 1025, 4096, 44100, 65536, 100001}); const int b = c.choose(2); any(c, kind, n, kind < 2 ? (b ? -1 : 2) : 20, kind < 2 ? (b ? 3 : 1) : b ? 20000 : 500, t, 0); }
// more points than a single-precision float counts
#ifdef NDEBUG   // the same code is covered with assertions on by the shorter inputs
SCENARIO(huge_spaces, 8) {
    const int kind = c.choose(10, "function"); const size_t n = (1u << 24) + (size_t)c.choose(c.tier(4, 8), "offset"); const float x1 = 100, x2 = 500; using namespace edsp; c.at("kind %d, %zu points", kind, n); c.nontrivial(1);
    in::Exact<float> d(n, 0, -77.f); float* f = d.begin(); float* l = d.end();
    switch (kind) { case 0: linspace(f, x1, x2, (long)n); break; case 1: logspace(f, x1 / 100, x2 / 100, (int)n); break; case 2: auditory::melspace(f, l, x1, x2); break; case 3: auditory::erbspace(f, l, x1, x2); break; case 4: auditory::barkspace(f, l, x1, x2); break; case 5: auditory::centspace(f, l, x1, x2); break;
        default: auditory::audspace(f, x1, x2, (long)n, kind == 6 ? auditory::mel : kind == 7 ? auditory::erb : kind == 8 ? auditory::bark : auditory::cent); }
    auto value = [&](double x) -> double { switch (kind) { case 0: return x; case 1: return std::pow(10.0, x / 100); case 2: case 6: return 1127.01048 * std::log1p(x / 700); case 3: case 7: return 21.4 * std::log10(1 + 4.37 * x / 1000); case 4: case 8: { const double z = 26.81 * x / (1960 + x) - 0.53; return z < 2 ? z + 0.15 * (2 - z) : z; } default: return 1200 * std::log2(x / 440) + 5700; } };
    for (size_t i = 0; i < n; ++i) { const double w = value(100 + 400 * ((double)i / (double)(n - 1))), tol = kind == 1 ? 3e-5 * w : 2e-3 * (kind == 5 || kind == 9 ? 5 : 1); if (!(std::fabs(f[i] - w) <= tol)) { c.fail("huge", "kind %d with %zu points: point %zu is %g, expected %g", kind, n, i, (double)f[i], w); break; } } c.check(true, "huge", "");
}
#endif
#endif
