// C30 the ADSR envelope, C34 mu-law companding, C35 the frequency response, C36 the attack-release follower.
#include <stdexcept>
#include <complex>
#include "inputs.hpp"
#if defined(C30)
#include <edsp/experimental/envelope/adsr.hpp>
#elif defined(C34)
#include <edsp/experimental/quantizer/mu_law_compressor.hpp>
#elif defined(C35)
#include <edsp/filter.hpp>
#else
#include <edsp/experimental/envelope/ar.hpp>
#endif
using mc::Ctx; typedef std::string S;
#if defined(C30)
template <typename T> using Env = edsp::envelope::adsr<T>;
// The specification: the phases, with exact arithmetic (every value, rate and time of the exploration is a dyadic number).
struct Spec {
    enum { IDLE, ATTACK, DECAY, SUSTAIN, RELEASE }; int st = IDLE; double fs = 44100, target = 0, v = 0, ra = 0.001, rd = 0.001, rr = 0.001, tr = -1, s = 0.5;
    void on() { if (target <= 0) target = 1; st = ATTACK; }
    void off() { target = 0; st = RELEASE; if (tr > 0) rr = v / (tr * fs); }
    double tick() {
        switch (st) {
            case ATTACK: v += ra; if (v >= target) { v = target; st = DECAY; } break;
            case DECAY: if (v > s) { v = std::max(s, v - rd); } else v = std::min(s, v + rd); if (v == s) st = SUSTAIN; break;
            case RELEASE: v -= rr; if (v <= 0) { v = 0; st = IDLE; } break;
        }
        return v;
    }
};
static const char* phase[] = {"idle", "attack", "decay", "sustain", "release"};
template <typename T> void histories(Ctx& c, int depth) {
    alignas(Env<T>) static thread_local unsigned char mem[sizeof(Env<T>)]; memset(mem, 0, sizeof mem); Env<T>& e = *new (mem) Env<T>(); Spec m; S t;
    e.set_sample_rate(64); m.fs = 64; e.set_attack_rate(T(.25)); m.ra = .25; e.set_decay_rate(T(.125)); m.rd = .125; e.set_release_rate(T(.0625)); m.rr = .0625;
    auto tick = [&](int n) { for (int i = 0; i < n; ++i) { const int was = m.st; const double before = m.v, w = m.tick(), g = (double)e(T(1)); c.tick(); if (!c.ok(g == w)) c.fail("gain", "the gain is %.9g, not %.9g (phase %s, before %.9g) after %s", g, w, phase[was], before, t.c_str()); if (!c.ok(g >= 0 && g <= 1)) c.fail("range", "the gain is %.9g after %s", g, t.c_str()); if (was == Spec::ATTACK && m.st == was) c.nontrivial(1); } };
    for (int i = 0; i < depth; ++i) {
        const int op = c.choose(16, "operation"); c.at("%s%d", t.c_str(), op);
        switch (op) {
            case 0: t += "key on; "; e.key_on(); m.on(); break; case 1: t += "key off; "; e.key_off(); m.off(); break;
            case 2: t += "sample; "; tick(1); break; case 3: t += "3 samples; "; tick(3); break; case 4: t += "20 samples; "; tick(20); break;
            case 5: t += "sustain .75; "; e.set_sustain_level(T(.75)); m.s = .75; c.check(e.sustain_level() == T(.75), "query", "sustain_level after %s", t.c_str()); break;
            case 6: t += "sustain .25; "; e.set_sustain_level(T(.25)); m.s = .25; break;
            case 7: t += "attack rate .5; "; e.set_attack_rate(T(.5)); m.ra = .5; break;
            case 8: t += "attack time .125; "; e.set_attack_time(T(.125)); m.ra = 1 / (.125 * m.fs); c.check(e.attack_time() == T(.125), "query", "attack_time() is %g after %s", (double)e.attack_time(), t.c_str()); break;
            case 9: t += "decay time .125; "; e.set_decay_time(T(.125)); m.rd = (1 - m.s) / (.125 * m.fs); c.check(e.decay_time() == T(.125), "query", "decay_time() is %g after %s", (double)e.decay_time(), t.c_str()); break;
            case 10: t += "release time .25; "; e.set_release_time(T(.25)); m.rr = m.s / (.25 * m.fs); m.tr = .25; c.check(e.release_time() == T(.25), "query", "release_time() is %g after %s", (double)e.release_time(), t.c_str()); break;
            case 11: t += "release rate .5; "; e.set_release_rate(T(.5)); m.rr = .5; m.tr = -1; break;
            case 12: { const double fs = m.fs == 64 ? 128 : 64; t += "sample rate " + std::to_string((int)fs) + "; "; m.ra = m.ra * m.fs / fs; m.rd = m.rd * m.fs / fs; m.rr = m.rr * m.fs / fs; m.fs = fs; e.set_sample_rate(T(fs)); break; }
            case 13: t += "target .375; "; e.set_target(T(.375)); m.target = .375; m.s = .375; if (m.v < .375) m.st = Spec::ATTACK; else if (m.v > .375) m.st = Spec::DECAY; break;
            case 14: t += "attack target .875; "; e.set_attack_target(T(.875)); m.target = .875; break;
            case 15: t += "block of 5; "; { T x[5] = {1, T(-.5), 2, 0, 1}, y[5]; e.apply(x, x + 5, y); for (int k = 0; k < 5; ++k) { const double w = m.tick() * (double)x[k]; c.tick(); if (!c.ok((double)y[k] == w)) c.fail("apply", "sample %d of a block is %.9g, not %.9g, after %s", k, (double)y[k], w, t.c_str()); } } break;
        }
        if (!c.ok(e.sample_rate() == T(m.fs) && e.attack_rate() == T(m.ra) && e.decay_rate() == T(m.rd) && e.release_rate() == T(m.rr) && e.sustain_level() == T(m.s))) c.fail("query", "rates %g %g %g level %g at %g Hz, expected %g %g %g level %g at %g Hz, after %s", (double)e.attack_rate(), (double)e.decay_rate(), (double)e.release_rate(), (double)e.sustain_level(), (double)e.sample_rate(), m.ra, m.rd, m.rr, m.s, m.fs, t.c_str());
        mc::Hash h; h << m.st << m.fs << m.target << m.v << m.ra << m.rd << m.rr << m.tr << m.s; for (unsigned char b : mem) h << (int)b; c.state(h.value(), depth - i - 1);
    }
    // whatever happened before, a key press and a release run through every phase and end in silence
    t += "key on; "; e.key_on(); m.on(); tick(40); t += "key off; "; e.key_off(); m.off(); tick(80); c.check((double)e(1) == m.v, "end", "%s", t.c_str());
}
SCENARIO(histories_double, 32) { histories<double>(c, c.tier(6, 9)); }
SCENARIO(histories_float, 16) { histories<float>(c, c.tier(4, 6)); }
// the configured times, for ordinary rates and levels: every phase is monotone and ends within one sample of its time
template <typename T> void times(Ctx& c) {
    const T fs = c.pick({T(8000), T(44100), T(48000)}, "rate"), ta = c.pick({T(0.001), T(0.01), T(0.0137)}, "attack"), td = c.pick({T(0.002), T(0.02)}, "decay"), tr = c.pick({T(0.001), T(0.03)}, "release"), s = c.pick({T(0.1), T(0.5), T(0.73), T(0)}, "sustain"); const int early = c.choose(4, "release in"), order = c.choose(2, "order");
    char w[128]; snprintf(w, sizeof w, "rate %g attack %g decay %g release %g sustain %g, released in phase %d", (double)fs, (double)ta, (double)td, (double)tr, (double)s, early); c.at("%s", w); Env<T> e; if (order) e.set_sample_rate(fs); e.set_sustain_level(s); e.set_attack_time(ta); e.set_decay_time(td); e.set_release_time(tr); if (!order) e.set_sample_rate(fs);
    for (int i = 0; i < 3; ++i) c.check(e(1) == 0, "idle", "%s: an idle envelope is not silent", w); T v = 0; auto bound = [&](T time) { return (int)std::ceil(time * fs * T(1.0001)) + 2; }; auto low = [&](T time) { return (int)std::floor(time * fs * T(0.9999)) - 2; };
    auto release = [&] { const T from = v; e.key_off(); int n = 0; while (v > 0) { const T x = e(1); c.tick(); if (!c.ok(x >= 0 && x < v)) c.fail("release-monotone", "%s: %g after %g while releasing", w, (double)x, (double)v); v = x; if (!c.ok(++n <= bound(tr))) c.fail("release-time", "%s: still %g after %d samples of release from %g", w, (double)v, n, (double)from); } c.check(from == 0 || n >= low(tr), "release-short", "%s: released in %d samples", w, n); for (int i = 0; i < 5; ++i) c.check(e(1) == 0, "silence", "%s: not silent after the release", w); };
    for (int round = 0; round < 2; ++round) {
        e.key_on(); int n = 0; v = 0; while (v < 1) { const T x = e(1); c.tick(); if (!c.ok(x > v && x <= 1)) c.fail("attack-monotone", "%s: %g after %g while attacking", w, (double)x, (double)v); v = x; ++n; if (early == 0 && n == low(ta) / 2) break; if (!c.ok(n <= bound(ta))) c.fail("attack-time", "%s: still %g after %d samples of attack", w, (double)v, n); }
        if (v < 1) { release(); continue; } c.check(n >= low(ta), "attack-short", "%s: attacked in %d samples", w, n); n = 0;
        while (v > s) { const T x = e(1); c.tick(); if (!c.ok(x < v && x >= s)) c.fail("decay-monotone", "%s: %g after %g while decaying", w, (double)x, (double)v); v = x; ++n; if (early == 1 && n == low(td) / 2) break; if (!c.ok(n <= bound(td))) c.fail("decay-time", "%s: still %g after %d samples of decay", w, (double)v, n); }
        if (v > s) { release(); continue; } c.check(n >= low(td), "decay-short", "%s: decayed in %d samples", w, n);
        if (early == 3) { e.key_on(); int k = 0; while (v < 1) { const T x = e(1); if (!c.ok(x > v && x <= 1)) c.fail("retrigger", "%s: %g after %g in an attack from the sustain level", w, (double)x, (double)v); v = x; if (!c.ok(++k <= bound(ta))) c.fail("retrigger-time", "%s", w); } release(); continue; }
        for (int i = 0; i < 50; ++i) c.check(e(1) == s, "sustain", "%s: the sustain level is not held", w); release();
    }
    c.nontrivial(1);
}
SCENARIO(times_double, 16) { times<double>(c); }
SCENARIO(times_float, 16) { times<float>(c); }
#elif defined(C34)
using namespace edsp::quantizer;
template <typename T> T comp(T x, T a, std::ptrdiff_t mu) { T y; mu_law_compression(&x, &x + 1, &y, a, mu); return y; }
template <typename T> T expd(T x, T a, std::ptrdiff_t mu) { T y; inverse_mu_law_compression(&x, &x + 1, &y, a, mu); return y; }
static const int MU[] = {255, 1, 2, 15, 100, 1023, 65535};
template <typename T> void grid(Ctx& c, int ty) {
    const std::ptrdiff_t mu = MU[c.choose(7, "factor")]; const T a = c.pick({T(1), T(2), T(32768), T(0.125), T(1e-20), T(1e20)}, "maximum"); const int steps = c.tier(2000, 20000); const T tol = ty ? T(1e-5) : T(1e-12); T last = -std::numeric_limits<T>::infinity(); c.at("mu %td maximum %g", mu, (double)a);
    for (int i = -steps; i <= steps; ++i) {
        const T x = a * (T)i / (T)steps, y = comp(x, a, mu), z = expd(y, a, mu), e = expd(x, a, mu); c.tick(); const long double r = std::abs((long double)x) / a, w = (x < 0 ? -1.L : 1.L) * a * log1pl(mu * r) / log1pl((long double)mu), ew = (x < 0 ? -1.L : 1.L) * a * (powl(1.L + mu, r) - 1) / mu;
        if (!c.ok(std::abs((long double)y - w) <= a * tol)) c.fail("compress", "compressing %.9g (maximum %g, mu %td) gives %.9g, not %.9Lg", (double)x, (double)a, mu, (double)y, w); if (!c.ok(std::abs((long double)e - ew) <= a * tol)) c.fail("expand", "expanding %.9g (maximum %g, mu %td) gives %.9g, not %.9Lg", (double)x, (double)a, mu, (double)e, ew);
        if (!c.ok(y > last)) c.fail("monotone", "compression (mu %td) is not increasing at %.9g", mu, (double)x); last = y; if (!c.ok(std::abs(y) <= a * (1 + tol) && std::abs(z) <= a * (1 + tol))) c.fail("range", "%.9g leaves the range: %.9g %.9g", (double)x, (double)y, (double)z);
        if (!c.ok(comp(-x, a, mu) == -y && expd(-x, a, mu) == -e)) c.fail("odd", "not odd at %.9g (mu %td)", (double)x, mu); if (!c.ok(std::abs(z - x) <= a * tol * (ty ? 30 : 1000))) c.fail("inverse", "%.9g comes back as %.9g (maximum %g, mu %td)", (double)x, (double)z, (double)a, mu); if (!c.ok(std::abs(comp(e, a, mu) - x) <= a * tol * (ty ? 300 : 1000))) c.fail("inverse2", "compressing the expansion of %.9g gives %.9g", (double)x, (double)comp(e, a, mu));
    }
    c.check(comp(T(0), a, mu) == 0 && std::abs(comp(a, a, mu) - a) <= a * tol && std::abs(comp(T(-a), a, mu) + a) <= a * tol && std::abs(expd(a, a, mu) - a) <= a * tol, "ends", "the ends are not kept (mu %td)", mu); c.nontrivial(1);
}
SCENARIO(grid_double, 28) { grid<double>(c, 0); }
SCENARIO(grid_float, 28) { grid<float>(c, 1); }
// sequences: every element exactly once, also in place, nothing outside
template <typename T> void sequences(Ctx& c) {
    const int n = c.range(0, c.tier(5, 7), "length"), mu = MU[c.choose(3, "factor")]; const auto x = in::word<T>(c, (size_t)n, {T(0), T(1), T(-1), T(0.25), T(-0.01)}); const bool inv = c.choose(2, "inverse"); std::vector<T> want; for (T v : x) want.push_back(inv ? expd(v, T(1), mu) : comp(v, T(1), mu)); in::Exact<T> a(x, 0), o(x.size(), 0, T(9)); auto f = [&](T* b, T* e, T* d) { if (inv) inverse_mu_law_compression(b, e, d, T(1), mu); else mu_law_compression(b, e, d, T(1), mu); };
    c.at("%s", mc::show(x).c_str()); f(a.begin(), a.end(), o.begin()); c.check(in::same(o.begin(), want), "sequence", "%s", mc::show(x).c_str()); c.check(in::same(a.begin(), x), "input", "the input changed: %s", mc::show(x).c_str()); f(a.begin(), a.end(), a.begin()); c.check(in::same(a.begin(), want), "in-place", "%s", mc::show(x).c_str());
}
SCENARIO(sequences, 16) { if (c.choose(2, "type")) sequences<float>(c); else sequences<double>(c); }
#elif defined(C35)
template <typename T> void response(Ctx& c, const std::vector<T>& b, const std::vector<T>& a, int K, bool exact_denominator) {
    typedef std::complex<T> Z; typedef std::complex<long double> L; const S what = "numerator " + mc::show(b) + " denominator " + mc::show(a) + " at " + std::to_string(K); c.at("%s", what.c_str()); in::Exact<T> eb(b, 0), ea(a, 0); std::vector<Z> storage((size_t)K + 2, Z(77, -77)); Z* out = storage.data() + 1;
    edsp::filter::freq(eb.begin(), eb.end(), ea.begin(), ea.end(), out, K); c.tick(); c.check(storage[0] == Z(77, -77) && storage[(size_t)K + 1] == Z(77, -77), "extent", "%s: written outside the %d values", what.c_str(), K); c.check(in::same(eb.begin(), b) && in::same(ea.begin(), a), "input", "%s: coefficients changed", what.c_str());
    for (int k = 0; k < K; ++k) {
        const long double w = 3.14159265358979323846264338327950288L * k / K; L num = 0, den = 0; long double sn = 0, sd = 0; for (size_t i = 0; i < b.size(); ++i) { num += (long double)b[i] * std::polar(1.L, -w * i); sn += std::abs(b[i]); } for (size_t i = 0; i < a.size(); ++i) { den += (long double)a[i] * std::polar(1.L, -w * i); sd += std::abs(a[i]); }
        if (std::abs(den) <= 1e-3L * sd) continue; const L r = num / den; const long double eps = 64 * std::numeric_limits<T>::epsilon() * (1 + b.size() + a.size()), tol = eps * (sn / std::abs(den) + std::abs(r) * sd / std::abs(den)) + eps * std::abs(r); if (!c.ok(std::abs(L(out[k].real(), out[k].imag()) - r) <= tol)) c.fail("response", "%s: value %d is (%.9g, %.9g), not (%.9Lg, %.9Lg)", what.c_str(), k, (double)out[k].real(), (double)out[k].imag(), r.real(), r.imag());
    }
    c.nontrivial(1);
}
template <typename T> void words(Ctx& c) { const int M = c.range(1, c.tier(3, 4), "M"), N = c.range(1, c.tier(3, 4), "N"), K = c.pick({1, 2, 3, 8}, "K"); auto b = in::word<T>(c, (size_t)M, {T(0), T(1), T(-0.5)}), a = in::word<T>(c, (size_t)N, {T(0), T(1), T(-0.5)}); response<T>(c, b, a, K, true); }
SCENARIO(coefficients_double, 32) { words<double>(c); }
SCENARIO(coefficients_float, 32) { words<float>(c); }
// long filters and many frequencies
SCENARIO(orders, 32) { const int M = c.pick({1, 2, 3, 5, 8, 16, 31, 64}, "M"), N = c.pick({1, 2, 4, 9, 32, 65}, "N"), K = c.pick({1, 4, 7, 64, 512, 1000}, "K"); c.split(); auto make = [](int n, int k) { std::vector<double> v; for (int i = 0; i < n; ++i) v.push_back(i == 0 ? 1. : std::cos(1.7 * i + k) / (i + 1)); return v; }; response<double>(c, make(M, 0), make(N, 1), K, false); auto f = [](const std::vector<double>& v) { return std::vector<float>(v.begin(), v.end()); }; response<float>(c, f(make(M, 0)), f(make(N, 1)), K, false); }
// a designed section: the sampled response of its coefficients agrees with what the section does to an impulse
SCENARIO(sections, 16) {
    const double fc = c.pick({200., 1000., 3000.}, "cutoff"), q = c.pick({0.3, 0.707, 2.0}, "Q"); const int kind = c.choose(3, "type"), K = 16; using namespace edsp::filter; biquad<double> s = kind == 0 ? make_filter<double, designer_type::RBJ, filter_type::LowPass, 2>(fc, 8000., q) : kind == 1 ? make_filter<double, designer_type::RBJ, filter_type::HighPass, 2>(fc, 8000., q) : make_filter<double, designer_type::RBJ, filter_type::BandPass, 2>(fc, 8000., q); const std::vector<double> b = {s.b0(), s.b1(), s.b2()}, a = {s.a0(), s.a1(), s.a2()}; response<double>(c, b, a, K, false); std::vector<std::complex<double>> h(K); freq(b.begin(), b.end(), a.begin(), a.end(), h.begin(), K); std::vector<std::complex<double>> y(K);
    for (int n = 0; n < 4000; ++n) { const double v = s.tick(n == 0); for (int k = 0; k < K; ++k) y[(size_t)k] += v * std::polar(1., -3.14159265358979323846 * k * n / K); } for (int k = 0; k < K; ++k) if (!c.ok(std::abs(y[(size_t)k] - h[(size_t)k]) < 1e-9)) c.fail("section", "at %d of %d the response is (%g, %g), the section has (%g, %g)", k, K, h[(size_t)k].real(), h[(size_t)k].imag(), y[(size_t)k].real(), y[(size_t)k].imag());
}
#else
template <typename T> using Env = edsp::envelope::ar<T>;
struct Spec { long double fs, ta, tr, ga = 0, gr = 0, v = 0; bool rect; void reset() { ga = ta > 0 ? expl(-1000 / (ta * fs)) : 0; gr = tr > 0 ? expl(-1000 / (tr * fs)) : 0; v = 0; } long double tick(long double x) { if (rect) x = fabsl(x); const long double g = v < x ? ga : gr; return v = (1 - g) * x + g * v; } };
template <typename T> void histories(Ctx& c, int depth) {
    const T fs = c.pick({T(8), T(44100)}, "rate"), ta = c.pick({T(0), T(10), T(500)}, "attack"), tr = c.pick({T(0), T(0.5), T(250)}, "release"); const bool rect = c.choose(2, "rectified"); Env<T> e(fs, ta, tr, rect); Spec m; m.fs = fs; m.ta = ta; m.tr = tr; m.rect = rect; m.reset(); char cfg[96]; snprintf(cfg, sizeof cfg, "rate %g attack %g release %g rectified %d: ", (double)fs, (double)ta, (double)tr, rect); S t = cfg; const T tol = sizeof(T) == 4 ? T(2e-5) : T(1e-12); long double lo = 0, hi = 0;
    auto feed = [&](T x, T got) { const long double r = m.rect ? std::abs(x) : x, before = m.v, w = m.tick(x); lo = std::min(lo, r); hi = std::max(hi, r); c.tick(); if (!c.ok(std::abs((long double)got - w) <= tol * (1 + std::abs(hi - lo)))) c.fail("value", "the envelope is %.9g, not %.9Lg, after %s", (double)got, w, t.c_str()); if (!c.ok(got >= lo - tol * (hi - lo) && got <= hi + tol * (hi - lo))) c.fail("range", "the envelope %.9g leaves [%.9Lg, %.9Lg] after %s", (double)got, lo, hi, t.c_str()); if (!c.ok(std::fpclassify(got) != FP_SUBNORMAL)) c.fail("denormal", "a denormal envelope after %s", t.c_str()); if (r > before && before != 0) c.nontrivial(1); };
    for (int i = 0; i < depth; ++i) {
        const int op = c.choose(10, "operation"); c.at("%s%d", t.c_str(), op); static const double xs[] = {1, -0.5, 0, 4};
        if (op < 4) { t += std::to_string(xs[op]).substr(0, 4) + "; "; feed((T)xs[op], e((T)xs[op])); }
        else switch (op) {
            case 4: t += "reset; "; e.reset(); m.reset(); lo = hi = 0; break; case 5: t += "attack 100; "; e.set_attack_time(100); m.ta = 100; m.reset(); lo = hi = 0; break; case 6: t += "release 0; "; e.set_release_time(0); m.tr = 0; m.reset(); lo = hi = 0; break;
            case 7: t += "rate 100; "; e.set_sample_rate(100); m.fs = 100; m.reset(); lo = hi = 0; break; case 8: t += "flip rectification; "; m.rect = !m.rect; e.set_rectification(m.rect); break;
            case 9: { t += "block; "; T x[4] = {T(.5), T(-2), T(.25), T(.25)}, y[4]; e.apply(x, x + 4, y); for (int k = 0; k < 4; ++k) feed(x[k], y[k]); break; }
        }
        if (!c.ok(e.sample_rate() == (T)m.fs && e.attack_time() == (T)m.ta && e.release_time() == (T)m.tr && e.rectification() == m.rect)) c.fail("query", "settings after %s", t.c_str());
    }
    // a reset follower is a fresh one
    e.reset(); Env<T> f((T)m.fs, (T)m.ta, (T)m.tr, m.rect); static const double probe[] = {.3, 1, -1, 0, 0, 2}; for (double x : probe) c.check(e((T)x) == f((T)x), "reset", "a reset follower differs from a fresh one after %s", t.c_str());
}
SCENARIO(histories_double, 32) { histories<double>(c, c.tier(4, 6)); }
SCENARIO(histories_float, 32) { histories<float>(c, c.tier(3, 5)); }
// the time constants: a step reaches 1 - 1/e after the attack time, falls to 1/e after the release time, and dies out completely
template <typename T> void steps(Ctx& c) {
    const T fs = c.pick({T(1000), T(8000), T(44100)}, "rate"), ta = c.pick({T(1), T(10), T(100)}, "attack"), tr = c.pick({T(2), T(50), T(300)}, "release"), a = c.pick({T(1), T(0.01), T(100), T(1e-30), T(1e30)}, "level"); const bool rect = c.choose(2, "rectified"); char w[96]; snprintf(w, sizeof w, "rate %g attack %g release %g level %g", (double)fs, (double)ta, (double)tr, (double)a); c.at("%s", w); Env<T> e(fs, ta, tr, rect); T v = 0; const int na = (int)std::lround(ta * fs / 1000), nr = (int)std::lround(tr * fs / 1000); const T tol = T(0.002);
    for (int i = 1; i <= na; ++i) { const T x = e(rect && (i & 1) ? -a : a); c.tick(); if (!c.ok(x > v && x <= a)) c.fail("rise", "%s: %g after %g while rising", w, (double)x, (double)v); v = x; } c.check(std::abs(v / a - T(1 - std::exp(-na * 1000.0 / (ta * fs)))) < tol, "attack-constant", "%s: %g after the attack time", w, (double)(v / a));
    for (int i = 0; i < 8 * na; ++i) v = e(a); const T top = v; for (int i = 1; i <= nr; ++i) { const T x = e(0); c.tick(); if (!c.ok(x < v && x >= 0)) c.fail("fall", "%s: %g after %g while falling", w, (double)x, (double)v); v = x; } c.check(std::abs(v / top - T(std::exp(-nr * 1000.0 / (tr * fs)))) < tol, "release-constant", "%s: %g after the release time", w, (double)(v / top));
    c.nontrivial(1);
}
SCENARIO(steps_double, 16) { steps<double>(c); }
SCENARIO(steps_float, 16) { steps<float>(c); }
SCENARIO(denormals, 4) { const bool rect = c.choose(2, "rectified"); const double x0 = c.pick({1.0, 1e-300, 1e-307}, "start"); Env<double> e(1000, 1, 1, rect); e(x0); c.at("start %g", x0); double v = 1; for (int i = 0; i < 2000; ++i) { v = e(0); c.check(std::fpclassify(v) != FP_SUBNORMAL, "denormal", "denormal envelope %g", v); } c.check(v == 0, "silence", "the envelope never reaches zero: %g", v); c.nontrivial(1); }
#endif
