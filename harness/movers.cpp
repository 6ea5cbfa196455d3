// C03 / C04: moving average, moving RMS, median and moving median against the last N samples.
#include <edsp/filter/moving_average_filter.hpp>
#include <edsp/filter/moving_rms_filter.hpp>
#include <edsp/filter/moving_median_filter.hpp>
#include <edsp/statistics/median.hpp>
#include <forward_list>
#include <list>
#include <memory>
#include <numeric>
#include "inputs.hpp"
using mc::Ctx;
typedef long double ld;

struct Avg { static const char* name() { return "moving_average"; } template <typename T> using F = edsp::filter::moving_average<T>;
    static ld out(const std::deque<ld>& w) { ld s = 0; for (ld x : w) s += x; return s / w.size(); } };
struct Rms { static const char* name() { return "moving_rms"; } template <typename T> using F = edsp::filter::moving_rms<T>;
    static ld out(const std::deque<ld>& w) { ld s = 0; for (ld x : w) s += x * x; return std::sqrt(s / w.size()); } };
struct Med { static const char* name() { return "moving_median"; } template <typename T> using F = edsp::filter::moving_median<T>;
    static ld out(const std::deque<ld>& w) { std::vector<ld> v(w.begin(), w.end()); std::sort(v.begin(), v.end()); size_t n = v.size(); return n % 2 ? v[n / 2] : (v[n / 2 - 1] + v[n / 2]) / 2; } };

struct Window { std::deque<ld> w; explicit Window(size_t n) : w(n, 0.0L) {} void push(ld x) { w.pop_front(); w.push_back(x); } };

template <typename K, typename T> struct Pair {
    typename K::template F<T> f; Window m; uint64_t pushes = 0;
    explicit Pair(size_t n) : f(n), m(n) {}
    void sample(Ctx& c, T x, const char* how) {
        const T y = f(x); m.push(x); ++pushes; cmp(c, y, how);
    }
    void cmp(Ctx& c, T y, const char* how) {
        const ld e = K::out(m.w);
        if (!c.ok(mc::near(y, e, 8 * std::numeric_limits<T>::epsilon(), 16 * std::numeric_limits<T>::epsilon())))
            c.fail("output", "%s window %zu, %s: got %.17Lg, expected %.17Lg for the last samples %s", K::name(), m.w.size(), how, (ld)y, e, mc::show(m.w).c_str());
    }
    void block(Ctx& c, std::vector<T> x, bool in_place) {
        std::vector<T> y(x.size() + 2, T(77));
        if (in_place) { y = x; y.push_back(77); y.push_back(77); f.filter(y.begin(), y.end() - 2, y.begin()); }
        else f.filter(x.cbegin(), x.cend(), y.begin());
        for (size_t i = 0; i < x.size(); ++i) { m.push(x[i]); ++pushes; cmp(c, y[i], in_place ? "block in place" : "block"); }
        if (!c.ok(y[x.size()] == 77 && y[x.size() + 1] == 77)) c.fail("overrun", "block of %zu writes past its end", x.size());
    }
    void size(Ctx& c) { if (!c.ok(f.size() == m.w.size())) c.fail("size", "%s: size() is %zu, expected %zu", K::name(), (size_t)f.size(), m.w.size()); }
};

// every history over small alphabets, closed under the state (window contents, ring offset)
template <typename K, typename T> void histories(Ctx& c, size_t nmax) {
    const size_t n = static_cast<size_t>(c.range(1, static_cast<int>(nmax), "window"));
    auto p = std::make_unique<Pair<K, T>>(n);
    c.log("%s(%zu)", K::name(), n);
    const T vals[] = {0, 1, T(-0.5), 3};
    for (int step = 0;; ++step) {
        p->size(c);
        mc::Hash h; h << (int)p->m.w.size() << (p->pushes % p->m.w.size()); h.seq(p->m.w);
        c.state(h.h, 1);
        int op = c.choose(10, "op");
        switch (op) {
            case 0: case 1: case 2: case 3: p->sample(c, vals[op], "sample"); break;
            case 4: p->block(c, {1, T(-0.5), 3}, false); break;
            case 5: p->block(c, {3, 1, 0, T(-0.5)}, true); break;
            case 6: c.log("reset"); p->f.reset(); p->m = Window(p->m.w.size()); p->pushes = 0; break;
            case 7: { size_t k = static_cast<size_t>(c.range(1, static_cast<int>(nmax), "size")); c.log("resize %zu", k); p->f.resize(k); p->m = Window(k); p->pushes = 0; break; }
            case 8: { auto q = std::make_unique<Pair<K, T>>(*p); p->sample(c, 2, "source of a copy"); p = std::move(q); break; }  // continue on the copy only
            case 9: { Pair<K, T> q(*p); q.sample(c, 3, "copy"); q.f.reset(); break; }                                          // copy must not disturb us
        }
    }
}
// long streams with larger windows, resets and resizes in between
template <typename K, typename T> void streams(Ctx& c) {
    std::vector<int> ns; for (int i = 1; i <= 33; ++i) ns.push_back(i);
    for (int i : {47, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000}) ns.push_back(i);
    const int n = c.pick(ns, "window"), pat = c.choose(6, "pattern"), brk = c.choose(4, "break");
    const int len = c.tier(std::max(3 * n + 5, 300), std::max(20 * n, 5000));
    c.at("%s window %d pattern %d break %d", K::name(), n, pat, brk);
    Pair<K, T> p(static_cast<size_t>(n));
    uint32_t r = 12345;
    auto sample = [&](int i) -> T { r = r * 1664525u + 1013904223u;
        switch (pat) { case 0: return T(i % 7) - 3; case 1: return i == 5 ? 8 : 0; case 2: return i % 2 ? 1 : -1; case 3: return T(int(r >> 24)) / 16 - 8; case 4: return T(i % 129) / 8; default: return T((i * i) % 17) - 8; } };
    std::deque<ld>& w = p.m.w;
    for (int i = 0; i < len; ++i) {
        if (brk && i == len / 2) {
            if (brk == 1) { p.f.reset(); p.m = Window(w.size()); }
            if (brk == 2) { p.f.resize(static_cast<size_t>(n + 3)); p.m = Window(static_cast<size_t>(n + 3)); }
            if (brk == 3) { p.f.resize(static_cast<size_t>(std::max(1, n / 2))); p.m = Window(static_cast<size_t>(std::max(1, n / 2))); }
            p.size(c);
        }
        if (i % 11 == 3) { std::vector<T> b; for (int k = 0; k < 5; ++k) b.push_back(sample(i * 5 + k)); p.block(c, b, i % 2 == 0); }
        else p.sample(c, sample(i), "stream");
    }
}
// wildly different magnitudes: output stays finite and within rounding of the largest sample seen
template <typename K, typename T> void magnitudes(Ctx& c) {
    const int n = c.range(1, 4, "window"), depth = c.tier(6, 8);
    Pair<K, T> p(static_cast<size_t>(n)); ld big = 0;
    const T vals[] = {0, 1, T(1e8), T(-1e8), T(1e-3), T(0.1)};
    const int mode = c.choose(2, "api");
    std::vector<T> in, out;
    for (int i = 0; i < depth; ++i) in.push_back(vals[c.choose(6, "value")]);
    if (mode) { out.resize(in.size()); p.f.filter(in.begin(), in.end(), out.begin()); } else for (T x : in) out.push_back(p.f(x));
    for (size_t i = 0; i < in.size(); ++i) {
        p.m.push(in[i]); big = std::max(big, (ld)std::fabs(in[i]));
        // rms works on squares: an absolute error of eps*big^2 in the mean square
        const ld eps = std::numeric_limits<T>::epsilon() * 16, tol = std::string(K::name()) == "moving_rms" ? std::sqrt(eps) * big : eps * big;
        if (!c.ok(std::isfinite(out[i]) && mc::near(out[i], K::out(p.m.w), eps, tol)))
            c.fail("magnitude", "%s(%d): output %.17Lg, expected %.17Lg for the last samples %s after input %s", K::name(), n, (ld)out[i], K::out(p.m.w), mc::show(p.m.w).c_str(), mc::show(in).c_str());
    }
}
// windows past the 8, 12, 15 and 16 bit boundaries, blocks longer than the window: running exact sums and a histogram of the window
template <typename K> void large_windows(Ctx& c) {
    const bool med = std::string(K::name()) == "moving_median", rms = std::string(K::name()) == "moving_rms"; const int n = med ? c.pick({300, 2049, 4096}, "window") : c.pick({4096, 32769, 65536, 70001}, "window"), mode = c.choose(3, "api"), brk = c.choose(3, "break"); c.split();
    int w = n; typename K::template F<double> f((size_t)n); const int len = 2 * n + 50; std::vector<double> x((size_t)len), y((size_t)len); uint32_t r = 4711; for (auto& v : x) { r = r * 1664525u + 1013904223u; v = (int(r >> 24) - 128) / 16.0; }
    c.at("%s(%d), mode %d, break %d", K::name(), n, mode, brk); std::deque<int> win((size_t)w, 0); std::vector<int> hist(512, 0); hist[128] = w; int64_t s = 0, q = 0;
    const int cut = n + 25; auto part = [&](int a, int b) {
        if (mode == 0) for (int i = a; i < b; ++i) y[i] = f(x[i]); else if (mode == 1) f.filter(x.begin() + a, x.begin() + b, y.begin() + a); else { std::copy(x.begin() + a, x.begin() + b, y.begin() + a); f.filter(y.begin() + a, y.begin() + b, y.begin() + a); }
        for (int i = a; i < b; ++i) { const int v = (int)(x[i] * 16), o = win.front(); win.pop_front(); win.push_back(v); s += v - o; q += v * v - o * o; --hist[o + 128]; ++hist[v + 128];
            if (med && i % 7 && i > 100) continue; ld e; if (med) { int k = 0, lo = 0, hi = 0; const int kl = (w - 1) / 2, kh = w / 2; for (int h = 0; h < 512; ++h) { if (k <= kl && kl < k + hist[h]) lo = h; if (k <= kh && kh < k + hist[h]) hi = h; k += hist[h]; } e = (ld)(lo + hi - 256) / 2 / 16; } else e = rms ? std::sqrt((ld)q / 256 / w) : (ld)s / 16 / w;
            if (!c.ok(mc::near(y[i], e, 1e-13L, 1e-13L))) c.fail("output", "%s(%d), sample %d (%s): got %.17g, expected %.17Lg", K::name(), w, i, mode ? "block" : "sample", y[i], e); } };
    part(0, cut); if (brk) { if (brk == 1) f.reset(); else { w = n / 2 + 3; f.resize((size_t)w); } win.assign((size_t)w, 0); std::fill(hist.begin(), hist.end(), 0); hist[128] = w; s = q = 0; } c.check((int)f.size() == w, "size", "%s: size() is %zu, expected %d", K::name(), (size_t)f.size(), w); part(cut, len);
}
// signals of every order of magnitude: the output scales with the input
template <typename K, typename T> void scales(Ctx& c) {
    const bool rms = std::string(K::name()) == "moving_rms"; const int n = c.pick({1, 2, 3, 8}, "window"), s = c.pick({0, 1, 2, 4, 5}, "shape"), e = c.pick(in::scales<T>(), "exponent"), mode = c.choose(2, "api"); typedef std::numeric_limits<T> L;
    if (e < L::min_exponent + 40 || e > L::max_exponent - 20) return; if (rms && (2 * e < L::min_exponent + 30 || 2 * e > L::max_exponent - 20)) return;
    const auto x = in::scaled<T>(s, (size_t)(3 * n + 2), e); std::vector<T> y(x.size()); typename K::template F<T> f((size_t)n); Window m((size_t)n); c.at("%s(%d), %s times 2^%d", K::name(), n, in::shape_name(s), e);
    if (mode) f.filter(x.begin(), x.end(), y.begin()); else for (size_t i = 0; i < x.size(); ++i) y[i] = f(x[i]);
    ld big = 0; for (size_t i = 0; i < x.size(); ++i) { m.push(x[i]); big = std::max(big, std::fabs((ld)x[i])); const ld w = K::out(m.w), tol = big * (rms ? std::sqrt((ld)L::epsilon()) * 4 : 16 * L::epsilon()); if (!c.ok(std::fabs(y[i] - w) <= tol)) c.fail("magnitude", "%s(%d), %s times 2^%d, sample %zu: got %.12Lg, expected %.12Lg", K::name(), n, in::shape_name(s), e, i, (ld)y[i], w); }
}
#ifdef C03
SCENARIO(average_scales, 2) { if (c.choose(2, "type")) scales<Avg, float>(c); else scales<Avg, double>(c); }
SCENARIO(rms_scales, 2) { if (c.choose(2, "type")) scales<Rms, float>(c); else scales<Rms, double>(c); }
SCENARIO(average_large_windows, 8) { large_windows<Avg>(c); }
SCENARIO(rms_large_windows, 8) { large_windows<Rms>(c); }
SCENARIO(average_histories_double, 8) { histories<Avg, double>(c, c.tier(4, 5)); }
SCENARIO(average_histories_float, 4) { histories<Avg, float>(c, c.tier(3, 5)); }
SCENARIO(rms_histories_double, 8) { histories<Rms, double>(c, c.tier(4, 5)); }
SCENARIO(rms_histories_float, 4) { histories<Rms, float>(c, c.tier(3, 5)); }
SCENARIO(average_streams, 8) { streams<Avg, double>(c); }
SCENARIO(rms_streams, 8) { streams<Rms, double>(c); }
SCENARIO(average_magnitudes, 8) { magnitudes<Avg, double>(c); }
SCENARIO(rms_magnitudes, 8) { magnitudes<Rms, double>(c); }
SCENARIO(rms_magnitudes_float, 8) { magnitudes<Rms, float>(c); }
#else
SCENARIO(median_scales, 2) { if (c.choose(2, "type")) scales<Med, float>(c); else scales<Med, double>(c); }
SCENARIO(median_histories, 8) { histories<Med, double>(c, c.tier(4, 5)); }
SCENARIO(median_histories_float, 4) { histories<Med, float>(c, c.tier(3, 5)); }
SCENARIO(median_streams, 8) { streams<Med, double>(c); }
SCENARIO(median_large_windows, 8) { large_windows<Med>(c); }
SCENARIO(median_magnitudes, 8) { magnitudes<Med, double>(c); }

template <typename T, typename C> void one_median(Ctx& c, const C& data, const char* kind) {
    std::vector<ld> s(data.begin(), data.end()); std::sort(s.begin(), s.end());
    const size_t n = s.size(); const ld e = n % 2 ? s[n / 2] : (s[n / 2 - 1] + s[n / 2]) / 2;
    const C copy = data;
    const ld y = edsp::statistics::median(data.begin(), data.end());
    if (!c.ok(mc::near(y, e, 4 * std::numeric_limits<T>::epsilon(), 0))) c.fail("median", "median of %s %s is %.17Lg, expected %.17Lg", kind, mc::show(data).c_str(), y, e);
    if (!c.ok(copy == data)) c.fail("input-modified", "median modified its input (%s)", kind);
}
SCENARIO(median_sequences, 8) {
    const int n = c.range(1, c.tier(6, 8), "length");
    const double vals[] = {-2, -0.5, 0, 1, 3};
    std::vector<double> v; for (int i = 0; i < n; ++i) v.push_back(vals[c.choose(5)]);
    one_median<double>(c, v, "vector");
    one_median<double>(c, std::list<double>(v.begin(), v.end()), "list");
    one_median<float>(c, std::vector<float>(v.begin(), v.end()), "float vector");
    { std::vector<double> w = v; double y = edsp::statistics::median(w.begin(), w.end()); (void)y; if (!c.ok(w == v)) c.fail("input-modified", "median modified its mutable input"); }
    if (n % 2) { std::vector<int> w; for (double x : v) w.push_back((int)(2 * x)); std::vector<int> k = w; std::vector<int> s = w; std::sort(s.begin(), s.end());
        if (!c.ok(edsp::statistics::median(w.begin(), w.end()) == s[n / 2] && w == k)) c.fail("median-int", "median of integers %s", mc::show(k).c_str()); }
}
SCENARIO(median_permutations, 8) {
    const int n = c.range(1, c.tier(7, 8), "length");
    std::vector<double> pool, v; for (int i = 0; i < n; ++i) pool.push_back(i * 1.5 - 2);
    while (!pool.empty()) { int k = c.choose((int)pool.size()); v.push_back(pool[k]); pool.erase(pool.begin() + k); }
    one_median<double>(c, v, "permutation");
}
SCENARIO(median_long, 4) {
    const int n = c.pick({4096, 4097, 32768, 65537, 70000, 70001}, "length"), pat = c.choose(4, "pattern"); c.split(); std::vector<double> v; uint32_t r = 7;
    for (int i = 0; i < n; ++i) { r = r * 1664525u + 1013904223u; v.push_back(pat == 0 ? i : pat == 1 ? -i : pat == 2 ? std::abs(i - n / 2) : double(r >> 12)); }
    one_median<double>(c, v, "pattern");
}
SCENARIO(median_magnitudes_sequences, 4) { const int s = c.pick({0, 1, 2, 4, 5}, "shape"); for (int e : in::scales<double>()) for (size_t n : {1, 2, 3, 4, 9, 64}) { if (e < -1000 && n % 2 == 0) continue; one_median<double>(c, in::scaled<double>(s, n, e), "scaled"); } for (int e : in::scales<float>()) for (size_t n : {1, 2, 3, 4, 9, 64}) { if (e < -110 && n % 2 == 0) continue; one_median<float>(c, in::scaled<float>(s, n, e), "scaled"); } }
SCENARIO(median_lengths, 4) {
    const int n = c.range(1, c.tier(200, 1000), "length"), pat = c.choose(5, "pattern");
    std::vector<double> v; uint32_t r = 7;
    for (int i = 0; i < n; ++i) { r = r * 1664525u + 1013904223u;
        v.push_back(pat == 0 ? i : pat == 1 ? -i : pat == 2 ? std::abs(i - n / 2) : pat == 3 ? double(r >> 20) : (i * 7) % 5); }
    one_median<double>(c, v, "pattern");
}
#endif
