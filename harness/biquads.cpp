// C05 / C06 / C07: biquad, cascade, stability and pole/zero constructors.
#include <edsp/filter/biquad.hpp>
#include <edsp/filter/biquad_cascade.hpp>
#include <list>
#include <memory>
#include "inputs.hpp"
using mc::Ctx;
typedef long double ld;
typedef std::complex<long double> cld;

// ---- reference: direct form I over explicit histories of inputs and outputs -----------------
struct Ref {
    ld a1 = 0, a2 = 0, b0 = 1, b1 = 0, b2 = 0, x1 = 0, x2 = 0, y1 = 0, y2 = 0, unit = 1, big = 1;
    Ref() {}
    Ref(ld A0, ld A1, ld A2, ld B0, ld B1, ld B2) : a1(A1 / A0), a2(A2 / A0), b0(B0 / A0), b1(B1 / A0), b2(B2 / A0) {}
    void reset() { x1 = x2 = y1 = y2 = 0; big = unit; }
    ld tick(ld x) { ld y = b0 * x + b1 * x1 + b2 * x2 - a1 * y1 - a2 * y2; x2 = x1; x1 = x; y2 = y1; y1 = y; big = std::max(big, std::max(std::fabs(x), std::fabs(y))); return y; }
    void a0(ld v) { a1 /= v; a2 /= v; b0 /= v; b1 /= v; b2 /= v; }
};
struct Coef { double a0, a1, a2, b0, b1, b2; };
static const Coef kCoefs[] = {
    {1, 0, 0, 1, 0, 0}, {1, -0.5, 0.25, 1, 2, 1}, {2, 1, 0.5, -1, 0.5, 3}, {-0.5, 0.25, -0.125, 0, 0, 1},
    {1, -1, 0, 1, -1, 0}, {4, 0, 2, 0.5, 0, -0.5}, {1, 1.25, 0.75, 0.25, 0, 0}, {1, 0, 0, 0.5, 0.25, 0.125}, {1, -2, 1, 0, 1, 0}};
template <typename T> edsp::filter::biquad<T> make(const Coef& k) { return edsp::filter::biquad<T>(T(k.a0), T(k.a1), T(k.a2), T(k.b0), T(k.b1), T(k.b2)); }
inline Ref ref(const Coef& k) { return Ref(k.a0, k.a1, k.a2, k.b0, k.b1, k.b2); }

template <typename T> struct Twin {
    edsp::filter::biquad<T> f; Ref m;
    Twin() {}
    explicit Twin(const Coef& k) : f(make<T>(k)), m(ref(k)) {}
    void cmp(Ctx& c, T y, ld e, const char* how) {
        if (!c.ok(mc::near(y, e, 64 * std::numeric_limits<T>::epsilon(), 64 * std::numeric_limits<T>::epsilon() * m.big)))
            c.fail("output", "%s: got %.17Lg, expected %.17Lg (a1 %Lg a2 %Lg b0 %Lg b1 %Lg b2 %Lg)", how, (ld)y, e, m.a1, m.a2, m.b0, m.b1, m.b2);
    }
    void tick(Ctx& c, T x) { ld e = m.tick(x); cmp(c, f.tick(x), e, "tick"); }
    void block(Ctx& c, const std::vector<T>& x, int how) {
        std::vector<T> y(x.size() + 1, T(55));
        if (how == 0) f.filter(x.cbegin(), x.cend(), y.begin());
        else if (how == 1) { std::copy(x.begin(), x.end(), y.begin()); f.filter(y.begin(), y.end() - 1, y.begin()); }
        else { std::list<T> l(x.begin(), x.end()); std::vector<T> o; f.filter(l.begin(), l.end(), std::back_inserter(o)); if (!c.ok(o.size() == x.size())) c.fail("block-length", "block of %zu gives %zu outputs", x.size(), o.size()); std::copy(o.begin(), o.end(), y.begin()); }
        for (size_t i = 0; i < x.size(); ++i) { ld e = m.tick(x[i]); cmp(c, y[i], e, how == 1 ? "block in place" : "block"); }
        if (!c.ok(y[x.size()] == T(55))) c.fail("overrun", "block of %zu writes past the end", x.size());
    }
    void accessors(Ctx& c) {
        const ld t = 8 * std::numeric_limits<T>::epsilon();
        if (!c.ok(mc::near(f.a1() / f.a0(), m.a1, t, t) && mc::near(f.a2() / f.a0(), m.a2, t, t) && mc::near(f.b0() / f.a0(), m.b0, t, t) && mc::near(f.b1() / f.a0(), m.b1, t, t) && mc::near(f.b2() / f.a0(), m.b2, t, t)))
            c.fail("accessors", "coefficients a0 %g a1 %g a2 %g b0 %g b1 %g b2 %g, expected a1 %Lg a2 %Lg b0 %Lg b1 %Lg b2 %Lg (a0 = 1)", (double)f.a0(), (double)f.a1(), (double)f.a2(), (double)f.b0(), (double)f.b1(), (double)f.b2(), m.a1, m.a2, m.b0, m.b1, m.b2);
    }
    void set(Ctx& c, int which, T v) {
        c.log("set %d to %g", which, (double)v);
        switch (which) { case 0: f.set_a1(v); m.a1 = v; break; case 1: f.set_a2(v); m.a2 = v; break; case 2: f.set_b0(v); m.b0 = v; break;
            case 3: f.set_b1(v); m.b1 = v; break; case 4: f.set_b2(v); m.b2 = v; break; default: f.set_a0(v); m.a0(v); }
        m.reset();
    }
};
#if defined(C05)
template <typename T> void histories(Ctx& c, int depth) {
    const int k = c.choose((int)(sizeof kCoefs / sizeof *kCoefs) + 1, "coefficients");
    auto p = k ? std::make_unique<Twin<T>>(kCoefs[k - 1]) : std::make_unique<Twin<T>>();
    std::unique_ptr<Twin<T>> other;
    for (int i = 0; i < depth; ++i) {
        switch (c.choose(11, "op")) {
            case 0: c.log("tick 1"); p->tick(c, 1); break;
            case 1: c.log("tick -0.75"); p->tick(c, T(-0.75)); break;
            case 2: p->block(c, {T(0.5), -2, 1}, 0); break;
            case 3: p->block(c, {1, 0, T(-0.25), 2}, 1); break;
            case 4: p->block(c, {T(0.125), 3}, 2); break;
            case 5: c.log("reset"); p->f.reset(); p->m.reset(); break;
            case 6: { int w = c.choose(6, "coefficient"); p->set(c, w, T(w == 5 ? 2 : -0.375)); break; }
            case 7: { auto q = std::make_unique<Twin<T>>(*p); p->tick(c, 5); other = std::move(p); p = std::move(q); break; }       // continue on a copy
            case 8: if (!other) throw mc::Prune{}; std::swap(p, other); break;                                                     // back to the source
            case 9: { Twin<T> q(kCoefs[1]); q.tick(c, 1); q.f = p->f; q.m = p->m; q.tick(c, T(0.5)); q.tick(c, -1); break; }       // assignment
            case 10: p->block(c, {}, c.choose(2)); break;
        }
        p->accessors(c);
    }
}
SCENARIO(histories_double, 8) { histories<double>(c, c.tier(4, 6)); }
SCENARIO(histories_float, 8) { histories<float>(c, c.tier(4, 5)); }
SCENARIO(histories_long_double, 8) { histories<long double>(c, c.tier(3, 5)); }

// every coefficient combination of a grid, impulse + step + alternating stream, every split point
template <typename T> void grid(Ctx& c) {
    const std::vector<double> vb = {-1, 0, 0.5, 1}, va = {-0.5, 0, 0.75};
    Coef k{c.pick({1.0, 2.0, -0.25}), 0, 0, 0, 0, 0};
    k.a1 = c.pick(va) * k.a0; k.a2 = c.pick(va) * k.a0; k.b0 = c.pick(vb); k.b1 = c.pick(vb); k.b2 = c.pick(vb);
    const int sig = c.choose(3, "signal"), n = c.tier(12, 24);
    std::vector<T> x; for (int i = 0; i < n; ++i) x.push_back(sig == 0 ? i == 0 : sig == 1 ? 1 : (i % 3) - T(0.5));
    for (int s = 0; s <= n; ++s) { Twin<T> t(k); t.accessors(c);
        t.block(c, {x.begin(), x.begin() + s}, s % 3); t.block(c, {x.begin() + s, x.end()}, (s + 1) % 3); }
    Twin<T> t(k); for (T v : x) t.tick(c, v);
}
SCENARIO(grid_double, 8) { grid<double>(c); }
SCENARIO(grid_float, 8) { grid<float>(c); }
// signals of every order of magnitude
template <typename T> void scales(Ctx& c) {
    const int k = c.choose((int)(sizeof kCoefs / sizeof *kCoefs), "coefficients"), s = c.pick({0, 1, 5}, "shape"), e = c.pick(in::scales<T>(), "exponent"), how = c.choose(4, "api"); if (e < std::numeric_limits<T>::min_exponent + 40 || e > std::numeric_limits<T>::max_exponent - 20) return;
    Twin<T> t(kCoefs[k]); t.m.unit = std::ldexp(1.0L, e); t.m.reset(); c.at("coefficients %d, %s times 2^%d", k, in::shape_name(s), e); auto x = in::scaled<T>(s, 12, e); x.resize(20, T(0)); if (how < 3) t.block(c, x, how); else for (T v : x) t.tick(c, v);
}
SCENARIO(scales_double, 4) { scales<double>(c); }
SCENARIO(scales_float, 4) { scales<float>(c); }
// long block of every length
SCENARIO(lengths, 4) {
    const int n = c.range(0, c.tier(300, 1100), "length"), how = c.choose(3);
    Twin<double> t(kCoefs[1 + c.choose(2)]); c.at("block of %d", n);
    uint32_t r = 99; std::vector<double> x; for (int i = 0; i < n; ++i) { r = r * 1664525u + 1013904223u; x.push_back(int(r >> 20) / 64.0 - 32); }
    t.block(c, x, how); t.block(c, x, how); t.tick(c, 1);
}
SCENARIO(long_blocks, 4) {
    const auto n = (size_t)c.pick(c.thorough() ? std::vector<int>{4096, 10000, 32768, 65536, 70001, 200000} : std::vector<int>{4097, 65537, 70001}, "length"); const int how = c.choose(3), k = 1 + c.choose(2); c.split(); Twin<double> t(kCoefs[k]); c.at("block of %zu", n);
    uint32_t r = 99; std::vector<double> x; for (size_t i = 0; i < n; ++i) { r = r * 1664525u + 1013904223u; x.push_back(int(r >> 20) / 64.0 - 32); }
    t.block(c, x, how); t.tick(c, 1);
}
#elif defined(C06)
template <typename T, size_t N> void cascades(Ctx& c, int depth) {
    typedef edsp::filter::biquad_cascade<T, N> Cas;
    auto f = std::make_unique<Cas>(); std::vector<Ref> m; int nb = 0;
    auto tick = [&](ld x) { for (auto& r : m) x = r.tick(x); return x; };
    auto tol = [&]() { ld b = 1; for (auto& r : m) b = std::max(b, r.big); return 256 * std::numeric_limits<T>::epsilon() * b; };
    auto cmp = [&](T y, ld e, const char* how) { if (!c.ok(mc::near(y, e, tol(), tol()))) c.fail("output", "%s through %zu stages: got %.17Lg, expected %.17Lg", how, m.size(), (ld)y, e); };
    for (int i = 0; i < depth; ++i) {
        switch (c.choose(12, "op")) {
            case 0: case 1: case 2: { if (m.size() == N) throw mc::Prune{}; int k = 1 + (nb++ * 2 + 1) % 8; c.log("push_back %d", k); f->push_back(make<T>(kCoefs[k])); m.push_back(ref(kCoefs[k])); break; }
            case 3: { if (m.size() == N) throw mc::Prune{}; const Coef& k = kCoefs[1 + nb++ % 3]; c.log("emplace_back"); f->emplace_back(T(k.a0), T(k.a1), T(k.a2), T(k.b0), T(k.b1), T(k.b2)); m.push_back(ref(k)); break; }
            case 4: { c.log("tick"); ld e = tick(1); cmp(f->tick(1), e, "tick"); e = tick(-0.5); cmp(f->tick(T(-0.5)), e, "tick"); break; }
            case 5: case 6: { std::vector<T> x = {1, T(-2), T(0.5), 0, 3}, y(6, T(44)); bool ip = c.choose(2);
                if (ip) { std::copy(x.begin(), x.end(), y.begin()); f->filter(y.begin(), y.end() - 1, y.begin()); } else f->filter(x.cbegin(), x.cend(), y.begin());
                for (size_t k = 0; k < x.size(); ++k) { ld e = tick(x[k]); cmp(y[k], e, ip ? "block in place" : "block"); }
                if (!c.ok(y[5] == T(44))) c.fail("overrun", "block writes past the end"); break; }
            case 7: c.log("reset"); f->reset(); for (auto& r : m) r.reset(); break;
            case 8: c.log("clear"); f->clear(); m.clear(); break;
            case 9: { if (m.empty()) throw mc::Prune{}; size_t k = (size_t)c.choose((int)m.size()); c.log("modify stage %zu", k); (*f)[k].set_b0(T(0.75)); m[k].b0 = 0.75; m[k].reset(); break; }
            case 10: { auto g = std::make_unique<Cas>(*f); f->tick(7); f->clear(); f = std::move(g); break; }   // continue on a copy
            case 11: { if (m.size() == N) throw mc::Prune{}; Twin<T> w(kCoefs[1]); w.tick(c, 1); c.log("push_back of a used biquad"); f->push_back(w.f); m.push_back(w.m); w.tick(c, 3); break; }
        }
        const Cas& k = *f; const size_t n = m.size();
        if (!c.ok(k.size() == n && k.capacity() == N && k.max_size() == N)) c.fail("size", "size %zu capacity %zu, expected %zu of %zu", (size_t)k.size(), (size_t)k.capacity(), n, N);
        if (!c.ok((size_t)(f->end() - f->begin()) == n && (size_t)(k.end() - k.begin()) == n && (size_t)(k.cend() - k.cbegin()) == n)) c.fail("iteration-length", "iteration does not span %zu stages", n);
        size_t j = 0; for (auto it = f->begin(); it != f->end(); ++it, ++j)
            if (!c.ok(&*it == &(*f)[j] && &k[j] == &*(k.begin() + (long)j) && &k[j] == &*(k.cbegin() + (long)j) && mc::near(it->b0(), m[j].b0, 1e-6L, 0) && mc::near(it->b1(), m[j].b1, 1e-6L, 0) && mc::near(it->a1(), m[j].a1, 1e-6L, 0) && mc::near(it->a2(), m[j].a2, 1e-6L, 0) && mc::near(it->b2(), m[j].b2, 1e-6L, 0)))
                c.fail("stage", "stage %zu is not the appended one", j);
    }
    // settle: an impulse through what is there
    for (int i = 0; i < 4; ++i) { ld e = tick(i == 0); cmp(f->tick(i == 0), e, "tick"); }
}
SCENARIO(capacity1, 8) { cascades<double, 1>(c, c.tier(5, 6)); }
SCENARIO(capacity2, 8) { cascades<double, 2>(c, c.tier(5, 6)); }
SCENARIO(capacity3, 8) { cascades<double, 3>(c, c.tier(5, 7)); }
SCENARIO(capacity5_float, 8) { cascades<float, 5>(c, c.tier(5, 6)); }
// signals of every order of magnitude
template <typename T> void scales(Ctx& c) {
    const int n = c.choose(4, "stages"), s = c.pick({0, 1, 5}, "shape"), e = c.pick(in::scales<T>(), "exponent"), api = c.choose(2); if (e < std::numeric_limits<T>::min_exponent + 40 || e > std::numeric_limits<T>::max_exponent - 20) return; const ld unit = std::ldexp(1.0L, e);
    edsp::filter::biquad_cascade<T, 3> f; std::vector<Ref> m; for (int i = 0; i < n; ++i) { f.push_back(make<T>(kCoefs[1 + i])); m.push_back(ref(kCoefs[1 + i])); m.back().unit = unit; m.back().reset(); }
    auto x = in::scaled<T>(s, 12, e); x.resize(20, T(0)); std::vector<T> y(20); c.at("%d stages, %s times 2^%d", n, in::shape_name(s), e); if (api) f.filter(x.begin(), x.end(), y.begin()); else for (size_t i = 0; i < x.size(); ++i) y[i] = f.tick(x[i]);
    ld b = unit; for (size_t i = 0; i < x.size(); ++i) { ld w = x[i]; for (auto& r : m) { w = r.tick(w); b = std::max(b, r.big); } if (!c.ok(std::fabs(y[i] - w) <= 256 * std::numeric_limits<T>::epsilon() * b)) c.fail("magnitude", "%d stages, %s times 2^%d, sample %zu: got %.12Lg, expected %.12Lg", n, in::shape_name(s), e, i, (ld)y[i], w); }
}
SCENARIO(scales_double, 2) { scales<double>(c); }
SCENARIO(scales_float, 2) { scales<float>(c); }
// long cascades: number of stages x block length
SCENARIO(many_stages, 4) {
    const int n = c.range(0, 40, "stages"), len = c.range(1, c.tier(40, 300), "length"), api = c.choose(2);
    edsp::filter::biquad_cascade<double, 40> f; std::vector<Ref> m;
    const Coef gentle[] = {{1, -0.5, 0.25, 0.5, 0.5, 0.25}, {2, 0.5, 0.25, 1, 0, -0.5}, {1, 0, 0, 0, 1, 0}};
    for (int i = 0; i < n; ++i) { f.push_back(make<double>(gentle[i % 3])); m.push_back(ref(gentle[i % 3])); }
    std::vector<double> x, y((size_t)len); for (int i = 0; i < len; ++i) x.push_back((i % 5) - 1.5);
    if (api) f.filter(x.begin(), x.end(), y.begin()); else for (int i = 0; i < len; ++i) y[i] = f.tick(x[i]);
    for (int i = 0; i < len; ++i) { ld e = x[i]; for (auto& r : m) e = r.tick(e); if (!c.ok(mc::near(y[i], e, 1e-9L, 1e-9L))) c.fail("output", "%d stages, sample %d: got %.17g, expected %.17Lg", n, i, y[i], e); }
}
SCENARIO(long_blocks, 4) {
    const int n = c.pick({4097, 65537, 70001}, "length"), api = c.choose(2), stages = c.pick({1, 2, 7}, "stages"); c.split();
    edsp::filter::biquad_cascade<double, 7> f; std::vector<Ref> m; const Coef gentle[] = {{1, -0.5, 0.25, 0.5, 0.5, 0.25}, {2, 0.5, 0.25, 1, 0, -0.5}, {1, 0, 0, 0, 1, 0}};
    for (int i = 0; i < stages; ++i) { f.push_back(make<double>(gentle[i % 3])); m.push_back(ref(gentle[i % 3])); }
    std::vector<double> x, y((size_t)n); for (int i = 0; i < n; ++i) x.push_back((i % 5) - 1.5);
    if (api) f.filter(x.begin(), x.end(), y.begin()); else { f.filter(x.begin(), x.begin() + n / 3, y.begin()); f.filter(x.begin() + n / 3, x.end(), y.begin() + n / 3); }
    for (int i = 0; i < n; ++i) { ld e = x[i]; for (auto& r : m) e = r.tick(e); if (!c.ok(mc::near(y[i], e, 1e-9L, 1e-9L))) c.fail("output", "%d stages, sample %d of a block of %d: got %.17g, expected %.17Lg", stages, i, n, y[i], e); }
}
#else
template <typename T> void stability(Ctx& c) {
    const int steps = c.tier(48, 96); const double step = 6.0 / steps;
    const double a0 = c.pick({1.0, 2.0, -1.0, 0.5, -4.0}), a1 = -3 + step * c.choose(steps + 1), a2 = -1.5 + step / 2 * c.choose(steps + 1);
    const double b = c.pick({0.0, 1.0, 100.0});
    // exact: roots of z^2 + a1 z + a2 (all values dyadic; boundary cases have perfect-square discriminants)
    const ld d = (ld)a1 * a1 - 4 * (ld)a2; bool in;
    if (d < 0) in = a2 < 1; else { ld s = std::sqrt(d); in = std::fabs((-a1 + s) / 2) < 1 && std::fabs((-a1 - s) / 2) < 1; }
    edsp::filter::biquad<T> f(T(a0), T(a1 * a0), T(a2 * a0), T(b), T(b + 1), T(-b));
    if (!c.ok(f.stability() == in && static_cast<bool>(f) == in)) c.fail("stability", "a0 %g a1 %g a2 %g: stability() is %d, poles inside: %d", a0, a1 * a0, a2 * a0, (int)f.stability(), (int)in);
    edsp::filter::biquad<T> g; g.set_a1(T(a1)); g.set_a2(T(a2)); g.set_b0(T(b));
    if (!c.ok(g.stability() == in)) c.fail("stability-setters", "a1 %g a2 %g set later: stability() is %d, poles inside: %d", a1, a2, (int)g.stability(), (int)in);
    f.tick(1); f.tick(-3); if (!c.ok(f.stability() == in)) c.fail("stability-history", "stability depends on the samples");
}
// next to the boundary of the stability triangle, at distances far below single precision (all values exact)
template <typename T> void boundary(Ctx& c) {
    const ld d = std::ldexp(1.0L, sizeof(T) == 4 ? -20 : -40); const ld a2 = c.range(-8, 8) / 8.0L + d * c.range(-1, 1), a1 = (c.choose(2) ? 1 : -1) * (1 + a2 + d * c.range(-2, 2)); const ld a0 = c.pick({1.0, 2.0, -0.25}, "a0");
    if ((ld)T(a1) != a1 || (ld)T(a2) != a2) { c.nontrivial(0); return; } const bool in = std::fabs(a2) < 1 && std::fabs(a1) < 1 + a2; c.at("a1 %.17Lg a2 %.17Lg", a1, a2);
    edsp::filter::biquad<T> f(T(a0), T(a1 * a0), T(a2 * a0), T(1), T(0), T(0)); if (!c.ok(f.stability() == in && static_cast<bool>(f) == in)) c.fail("stability", "a0 %Lg a1 %.17Lg a2 %.17Lg: stability() is %d, poles inside: %d", a0, a1, a2, (int)f.stability(), (int)in);
}
SCENARIO(boundary_double, 2) { boundary<double>(c); }
SCENARIO(boundary_float, 2) { boundary<float>(c); }
SCENARIO(stability_double, 8) { stability<double>(c); }
SCENARIO(stability_float, 8) { stability<float>(c); }

template <typename T> void cmp5(Ctx& c, const edsp::filter::biquad<T>& f, ld a1, ld a2, ld b1, ld b2, const char* key, const std::string& what) {
    const ld t = 4 * std::numeric_limits<T>::epsilon();
    if (!c.ok(f.a0() == 1 && mc::near(f.b0(), 1, t, 0) && mc::near(f.a1(), a1, t, t) && mc::near(f.a2(), a2, t, t) && mc::near(f.b1(), b1, t, t) && mc::near(f.b2(), b2, t, t)))
        c.fail(key, "%s: b0 %g b1 %g b2 %g a0 %g a1 %g a2 %g, expected 1 %Lg %Lg 1 %Lg %Lg", what.c_str(), (double)f.b0(), (double)f.b1(), (double)f.b2(), (double)f.a0(), (double)f.a1(), (double)f.a2(), b1, b2, a1, a2);
}
static std::string zs(std::complex<double> z) { std::ostringstream o; o << z; return o.str(); }
template <typename T> void poles_zeros(Ctx& c) {
    typedef std::complex<T> C;
    const std::vector<double> g = {-2, -1, -0.75, -0.5, 0, 0.25, 0.5, 1, 1.5};
    if (c.choose(2, "order") == 0) {
        T p = T(c.pick(g)), z = T(c.pick(g));
        edsp::filter::biquad<T> f(C(p, 0), C(z, 0));
        cmp5(c, f, -p, 0, -z, 0, "one-pole", "pole " + zs(p) + " zero " + zs(z));
        // impulse response of (1 - z q)/(1 - p q)
        ld e = 1; for (int i = 0; i < 6; ++i) { ld want = i == 0 ? 1 : (i == 1 ? p - z : e * p); e = want; T y = f.tick(i == 0); if (!c.ok(mc::near(y, want, 1e-5L, 1e-5L))) c.fail("one-pole-response", "pole %g zero %g: impulse response %g at %d, expected %Lg", (double)p, (double)z, (double)y, i, want); }
        if (!c.ok(f.stability() == (std::fabs(p) < 1))) c.fail("one-pole-stability", "pole %g reported %d", (double)p, (int)f.stability());
        return;
    }
    auto pairof = [&](C& x, C& y) {
        if (c.choose(2, "conjugate")) { T re = T(c.pick(g)), im = T(c.pick({0.25, 0.5, 1.0, -0.5})); x = C(re, im); y = C(re, -im); }
        else { x = C(T(c.pick(g)), 0); y = C(T(c.pick(g)), 0); }
    };
    C p1, p2, z1, z2; pairof(p1, p2); pairof(z1, z2);
    edsp::filter::biquad<T> f(p1, z1, p2, z2);
    cmp5(c, f, -(p1 + p2).real(), (p1 * p2).real(), -(z1 + z2).real(), (z1 * z2).real(), "two-pole", "poles " + zs(p1) + zs(p2) + " zeros " + zs(z1) + zs(z2));
    if (!c.ok(f.stability() == (std::abs(p1) < 1 && std::abs(p2) < 1))) c.fail("two-pole-stability", "poles %s %s reported %d", zs(p1).c_str(), zs(p2).c_str(), (int)f.stability());
}
SCENARIO(poles_zeros_double, 8) { poles_zeros<double>(c); }
SCENARIO(poles_zeros_float, 8) { poles_zeros<float>(c); }
SCENARIO(accessors, 8) {
    const std::vector<double> v = {-2, 0, 0.5, 3};
    Coef k{c.pick({1.0, 2.0, -0.5}), c.pick(v), c.pick(v), c.pick(v), c.pick(v), c.pick(v)};
    Twin<double> t(k); t.accessors(c);
    for (int i = 0; i < c.tier(2, 3); ++i) { t.set(c, c.choose(6, "setter"), c.pick({4.0, -1.0})); t.accessors(c); }
    t.tick(c, 1); t.tick(c, 2); t.accessors(c);
    Twin<double> u; u.accessors(c);
}
#endif
