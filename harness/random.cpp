// C33: noise generators over an engine whose every word is chosen by the explorer, and over the default engine at a controlled clock.
#include <stdexcept>
#include <cmath>
#include <edsp/random/random_generator.hpp>
#include <edsp/random.hpp>
#include <edsp/math/numeric.hpp>
#include "inputs.hpp"
using mc::Ctx; typedef std::string S; using namespace edsp::random;
static long long CLOCK = 0; static int readings = 0;
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { ++readings; return time_point(duration(CLOCK)); } } } }
// engines: full 32-bit words (a few extreme ones), and an 8-bit engine of which every word is tried
static Ctx* C; static std::vector<uint32_t> drawn, script; static size_t at = 0; static bool replay = false; static std::vector<size_t> seeds;
static const uint32_t WORDS[] = {0x80000000u, 0, 0xffffffffu, 1, 0x7fffffffu, 0xdeadbeefu};
struct Wide { using result_type = uint32_t; static int alphabet; explicit Wide(size_t seed) { seeds.push_back(seed); } static constexpr result_type min() { return 0; } static constexpr result_type max() { return 0xffffffffu; } result_type operator()() { if (replay) return script.at(at++); const uint32_t w = drawn.size() < 8 ? WORDS[C->choose(alphabet, "engine word")] : 0xdeadbeefu; drawn.push_back(w); return w; } };
int Wide::alphabet = 3;
struct Narrow { using result_type = uint32_t; explicit Narrow(size_t) {} static constexpr result_type min() { return 0; } static constexpr result_type max() { return 255; } result_type operator()() { return script.at(at++); } };
static void start(Ctx& c, int alphabet) { C = &c; drawn.clear(); script.clear(); at = 0; replay = false; seeds.clear(); readings = 0; Wide::alphabet = alphabet; }
static S text(const char* n, double a, double b) { char t[96]; snprintf(t, sizeof t, "%s [%g, %g]", n, a, b); return t; }
template <typename T> using Uniform = std::conditional_t<std::is_integral<T>::value, std::uniform_int_distribution<T>, std::uniform_real_distribution<T>>;
// the white samples that the recorded words stand for
template <typename T> std::vector<T> white_of(T lo, T hi, int n) { script = drawn; at = 0; replay = true; Wide e(0); Uniform<T> d(lo, hi); std::vector<T> v; for (int i = 0; i < n; ++i) v.push_back((T)d(e)); replay = false; return v; }
static const double RANGE[][2] = {{-1, 1}, {0, 1}, {-32768, 32767}, {2, 3}, {0, 0}};
template <typename T> void white(Ctx& c, int n) {
    start(c, c.tier(4, 6)); const int k = c.choose(5, "range"); const T lo = (T)RANGE[k][0], hi = (T)RANGE[k][1]; CLOCK = 12345; white_noise_generator<T, Wide> g(lo, hi); std::vector<T> got; for (int i = 0; i < n; ++i) { got.push_back(g()); if (!c.ok(got.back() >= lo && got.back() <= hi)) c.fail("range", "white noise %s gives %.17g", text("in", lo, hi).c_str(), (double)got.back()); }
    c.check(seeds.size() == 1 && seeds[0] == 12345, "seed", "the engine is not seeded from the clock once"); const size_t used = drawn.size(); const auto w = white_of<T>(lo, hi, n); c.check(at == used, "words", "%zu words drawn for %d samples, %zu needed", used, n, at); c.check(got == w, "white", "white noise %s is %s, not %s", text("in", lo, hi).c_str(), mc::show(got).c_str(), mc::show(w).c_str()); c.nontrivial(1);
}
SCENARIO(white_words, 32) { switch (c.choose(4, "type")) { case 0: white<double>(c, 2); break; case 1: white<float>(c, 3); break; case 2: white<int>(c, 3); break; default: white<short>(c, 3); } }
// coloured noise is a fixed filter of the white samples, bounded by its gain
template <typename T> void coloured(Ctx& c, int n, bool pink) {
    start(c, c.tier(3, 4)); const int k = c.choose(3, "range"); const T lo = (T)RANGE[k][0], hi = (T)RANGE[k][1]; const double m = std::max(std::abs((double)lo), std::abs((double)hi)); std::vector<T> got; CLOCK = 7;
    if (pink) { pink_noise_generator<T, Wide> g(lo, hi); for (int i = 0; i < n; ++i) got.push_back(g()); } else { brown_noise_generator<T, Wide> g(lo, hi); for (int i = 0; i < n; ++i) got.push_back(g()); }
    c.check(seeds.size() == 1 && seeds[0] == 7, "seed", "the engine is not seeded from the clock once"); const auto w = white_of<T>(lo, hi, n); double b[7] = {0, 0, 0, 0, 0, 0, 0}, l = 0; const double tol = m * (sizeof(T) == 4 ? 1e-5 : 1e-12);
    for (int i = 0; i < n; ++i) { double want; const double x = w[(size_t)i]; if (pink) { b[0] = .99886 * b[0] + x * .0555179; b[1] = .99332 * b[1] + x * .0750759; b[2] = .969 * b[2] + x * .153852; b[3] = .8665 * b[3] + x * .3104856; b[4] = .55 * b[4] + x * .5329522; b[5] = -.7616 * b[5] - x * .016898; want = (b[0] + b[1] + b[2] + b[3] + b[4] + b[5] + b[6] + x * .5362) * .11; b[6] = x * .115926; } else { l = (l + .02 * x) / 1.02; want = 3.5 * l; }
        if (!c.ok(std::abs(got[(size_t)i] - want) <= tol)) c.fail("filter", "%s noise %s: sample %d is %.9g, the filtered white noise is %.9g", pink ? "pink" : "brown", text("of", lo, hi).c_str(), i, (double)got[(size_t)i], want); }
    c.nontrivial(1);
}
SCENARIO(pink_words, 32) { const int f = c.choose(2, "type"); if (f) coloured<float>(c, c.tier(6, 9), true); else coloured<double>(c, 4, true); }
SCENARIO(brown_words, 32) { const int f = c.choose(2, "type"); if (f) coloured<float>(c, c.tier(6, 9), false); else coloured<double>(c, 4, false); }
// the worst case of a long run: constant extreme words, alternating ones, every period up to 8
SCENARIO(long_runs, 16) {
    start(c, 2); const bool pink = c.choose(2, "colour"); const int period = c.range(1, c.tier(8, 10), "period"), bits = c.choose(1 << period, "pattern"), n = 20000; std::vector<uint32_t> s; for (int i = 0; i < 2 * n + 2; ++i) s.push_back(bits >> (i / 2 % period) & 1 ? 0xffffffffu : 0); script = s; replay = true; at = 0; double top = 0; pink_noise_generator<double, Wide> p(-1, 1); brown_noise_generator<double, Wide> b(-1, 1);
    for (int i = 0; i < n; ++i) { const double v = pink ? p() : b(); top = std::max(top, std::abs(v)); if (!c.ok(std::isfinite(v))) c.fail("finite", "sample %d is %g", i, v); c.tick(); } // the gains: sum of the magnitudes of the impulse responses
    const double gain = pink ? .11 * (.0555179 / (1 - .99886) + .0750759 / (1 - .99332) + .153852 / (1 - .969) + .3104856 / (1 - .8665) + .5329522 / (1 - .55) + .016898 / (1 - .7616) + .115926 + .5362) : 3.5; c.check(top <= gain * (1 + 1e-9), "gain", "%s noise in [-1, 1] reaches %g, its gain is %g", pink ? "pink" : "brown", top, gain); if (bits == 0) c.check(top > .9 * (pink ? gain * .97 : gain), "constant", "a constant drives %s noise to %g only", pink ? "pink" : "brown", top); replay = false; c.nontrivial(1);
}
template <typename T> void gradient(Ctx& c, int n) {
    start(c, c.tier(4, 6)); CLOCK = 99; perlin_noise_generator<T, Wide> g; std::vector<T> got; for (int i = 0; i < n; ++i) got.push_back(g()); c.check(seeds.size() == 1 && seeds[0] == 99, "seed", "the engine is not seeded from the clock once"); const auto pos = white_of<T>(T(0), T(511), n);
    for (int i = 0; i < n; ++i) { const T v = got[(size_t)i], f = pos[(size_t)i] - std::floor(pos[(size_t)i]); if (!c.ok(v >= -1 && v <= 1)) c.fail("range", "gradient noise gives %.9g at %.9g", (double)v, (double)pos[(size_t)i]); if (f == 0) c.check(v == 0, "lattice", "gradient noise is %.9g at the integer %.9g", (double)v, (double)pos[(size_t)i]); // between the lattice points: the interpolation of one of the four pairs of slopes
        const double u = (double)f * f * f * (f * (f * 6. - 15) + 10); bool ok = false; for (int s = 0; s < 4; ++s) { const double a = (s & 1 ? -f : f), b = (s & 2 ? 1 - f : f - 1); ok |= std::abs(v - 2 * (a + u * (b - a))) <= (sizeof(T) == 4 ? 1e-4 : 1e-9); } if (!c.ok(ok)) c.fail("gradient", "gradient noise at %.9g is %.9g, no pair of unit slopes gives that", (double)pos[(size_t)i], (double)v); }
    c.nontrivial(1);
}
SCENARIO(gradient_words, 16) { if (c.choose(2, "type")) gradient<float>(c, c.tier(3, 4)); else gradient<double>(c, 2); }
// gradient noise at every position of a fine grid over the whole range: bounded, and continuous where a cell joins the next
SCENARIO(gradient_grid, 16) {
    start(c, 2); const int cell = c.range(0, 510, "cell"); replay = true; double last = 0; perlin_noise_generator<double, Wide> g; const int steps = c.tier(64, 512); auto at_position = [&](double x) { const unsigned long long w = (unsigned long long)(x / 511. * 18446744073709551616.L); script = {(uint32_t)w, (uint32_t)(w >> 32)}; at = 0; return g(); };
    for (int i = 0; i <= steps; ++i) { const double x = cell + (i + .5) / (steps + 1); const double v = at_position(x); c.tick(); if (!c.ok(v >= -1 && v <= 1)) c.fail("range", "gradient noise gives %.9g at %.9g", v, x); if (i) if (!c.ok(std::abs(v - last) <= 10. / steps)) c.fail("continuity", "gradient noise jumps from %.9g to %.9g at %.9g", last, v, x); last = v; if (i == 0 || i == steps) if (!c.ok(std::abs(v) <= 8. / steps)) c.fail("joint", "gradient noise is %.9g beside an integer (%.9g)", v, x); } replay = false; c.nontrivial(1);
    // neighbouring cells share the slope at their common integer
    if (cell < 510) { replay = true; const double h = 1e-4, l = at_position(cell + 1 - h), r = at_position(cell + 1 + h); c.check(std::abs(l + r) < 1e-3 * h * 10 + 1e-6, "slope", "the slope left of %d differs from the one right of it (%.9g, %.9g)", cell + 1, l, r); replay = false; }
}
// the lattice comes from a permutation: over one period as many gradients point up as down
SCENARIO(gradient_balance, 1) {
    start(c, 2); perlin_noise_generator<double, Wide> g; replay = true; int up = 0; const int period = 256; auto at_position = [&](double x) { const unsigned long long w = (unsigned long long)(x / 511. * 18446744073709551616.L); script = {(uint32_t)w, (uint32_t)(w >> 32)}; at = 0; return g(); };
    std::vector<int> sign; for (int cell = 0; cell < 510; ++cell) { const double v = at_position(cell + 1e-3); c.check(std::abs(std::abs(v) - 2e-3) < 1e-5, "gradient", "the gradient at %d is not plus or minus one (%.9g)", cell, v / 2e-3); sign.push_back(v > 0); if (cell < period) up += v > 0; else c.check(sign[cell] == sign[cell - period], "period", "the noise does not repeat after %d cells (cell %d)", period, cell); }
    c.check(up == period / 2, "balance", "%d of %d gradients point up", up, period); replay = false; c.nontrivial(1);
}
// binary: one exactly for the words below the probability; every word of an 8-bit engine (a double takes seven; the first six vary over extremes)
SCENARIO(binary_words, 16) {
    start(c, c.tier(6, 6)); const double p = c.pick({0., 1., 0.5, 0.25, 0.999999, 1e-9}, "probability"); CLOCK = 5; binary_generator<double, Wide> g(p); std::vector<double> got; for (int i = 0; i < 2; ++i) got.push_back(g()); c.check(seeds.size() == 1 && seeds[0] == 5, "seed", "the engine is not seeded from the clock once"); script = drawn; replay = true; at = 0; Wide e(0); for (double v : got) { const double u = std::generate_canonical<double, 53>(e); c.check(v == (u < p ? 1 : 0), "binary", "probability %g: %g for the canonical %.17g", p, v, u); if (p == 0) c.check(v == 0, "never", "a one with probability zero"); if (p == 1) c.check(v == 1, "always", "a zero with probability one"); } replay = false; c.nontrivial(1);
}
SCENARIO(uniform_words, 4) { // integer white noise over every word: each value equally often
    start(c, 1); const int n = c.pick({1, 2, 4, 8, 16, 32, 64, 128, 256}, "values"); std::vector<int> count((size_t)n); for (uint32_t w = 0; w < 256; ++w) { script = {w}; at = 0; white_noise_generator<int, Narrow> g(-3, -3 + n - 1); int v; try { v = g(); } catch (const std::out_of_range&) { continue; } if (!c.ok(v >= -3 && v < -3 + n)) c.fail("range", "%d", v); count[(size_t)(v + 3)]++; } for (int i = 0; i < n; ++i) c.check(count[(size_t)i] == count[0] && count[0] > 0 && count[0] >= 256 / n - 1, "uniform", "value %d of %d appears %d times", i - 3, n, count[(size_t)i]); c.nontrivial(1);
}
SCENARIO(constants, 2) { const double v = c.pick({0., 1., -2.5, 1e300}, "value"); constant_generator<double> g(v); for (int i = 0; i < 20; ++i) c.check(g() == v, "constant", "sample %d", i); constant_generator<float> f((float)0.1); c.check(f() == 0.1f && f() == 0.1f, "constant", "float"); }
// the default engine: a function of the clock reading only, and the standard distribution of the name
template <typename D, DistributionType K, typename T, typename... A> void standard(Ctx& c, const char* name, A... a) {
    const long long t = CLOCK; const int n = c.tier(200, 5000); c.at("%s", name); random_generator<K, T> g(a...), h(a...); CLOCK = t + 1; random_generator<K, T> other(a...); CLOCK = t; std::mt19937 e((size_t)t); D d(a...); bool differs = false;
    for (int i = 0; i < n; ++i) { const T v = g(), w = (T)d(e), x = h(), y = other(); c.tick(); if (!c.ok(memcmp(&v, &w, sizeof v) == 0 || v == w)) c.fail("standard", "%s: sample %d at clock %lld is %.17g, the standard distribution gives %.17g", name, i, t, (double)v, (double)w); if (!c.ok(v == x)) c.fail("seed", "%s: two generators of the same moment differ at sample %d", name, i); differs |= v != y; } c.check(differs, "clock", "%s: another clock reading gives the same sequence", name); c.nontrivial(1);
}
template <typename T> void reals(Ctx& c, int k) {
    switch (k) {
        case 0: standard<std::uniform_real_distribution<T>, DistributionType::Uniform, T>(c, "uniform", T(-1), T(2)); break; case 1: standard<std::exponential_distribution<T>, DistributionType::Exponential, T>(c, "exponential", T(2)); break; case 2: standard<std::gamma_distribution<T>, DistributionType::Gamma, T>(c, "gamma", T(2), T(3)); break; case 3: standard<std::weibull_distribution<T>, DistributionType::Weibull, T>(c, "weibull", T(2), T(3)); break; case 4: standard<std::extreme_value_distribution<T>, DistributionType::ExtremeValue, T>(c, "extreme value", T(1), T(2)); break; case 5: standard<std::normal_distribution<T>, DistributionType::Normal, T>(c, "normal", T(1), T(2)); break;
        case 6: standard<std::lognormal_distribution<T>, DistributionType::LogNormal, T>(c, "lognormal", T(0), T(1)); break; case 7: standard<std::chi_squared_distribution<T>, DistributionType::ChiSquared, T>(c, "chi squared", T(3)); break; case 8: standard<std::cauchy_distribution<T>, DistributionType::Cauchy, T>(c, "cauchy", T(0), T(1)); break; case 9: standard<std::fisher_f_distribution<T>, DistributionType::Fisher, T>(c, "fisher", T(2), T(3)); break; default: standard<std::student_t_distribution<T>, DistributionType::Student, T>(c, "student", T(4)); }
}
static double BOUND[] = {0, 1, 3, 7}, WEIGHT[] = {1, 2, 1, 0};
SCENARIO(distributions, 16) {
    CLOCK = c.pick({1ll, 0ll, 4294967296ll, 1700000000123456789ll, -5ll}, "clock"); const int k = c.choose(18, "distribution"); if (k <= 10) { if (c.choose(2, "type")) reals<float>(c, k); else reals<double>(c, k); return; }
    switch (k) { case 11: standard<std::bernoulli_distribution, DistributionType::Bernoulli, bool>(c, "bernoulli", 0.3); break; case 12: standard<std::binomial_distribution<int>, DistributionType::Binomial, int>(c, "binomial", 10, 0.3); break; case 13: standard<std::geometric_distribution<int>, DistributionType::Geometric, int>(c, "geometric", 0.3); break; case 14: standard<std::poisson_distribution<int>, DistributionType::Poisson, int>(c, "poisson", 4.0); break; case 15: standard<std::discrete_distribution<int>, DistributionType::Discrete, int>(c, "discrete", &WEIGHT[0], &WEIGHT[3]); break; case 16: standard<std::piecewise_constant_distribution<double>, DistributionType::PieceWiseConstant, double>(c, "piecewise constant", &BOUND[0], &BOUND[4], &WEIGHT[0]); break; case 17: standard<std::piecewise_linear_distribution<double>, DistributionType::PieceWiseLinear, double>(c, "piecewise linear", &BOUND[0], &BOUND[4], &WEIGHT[0]); break; }
}
template <typename T> void defaults(Ctx& c) {
    CLOCK = c.pick({1ll, 4294967297ll, 1700000000123456789ll}, "clock"); const int k = c.choose(5, "generator"); const int n = c.tier(300, 3000); c.at("default engine, generator %d", k); auto both = [&](auto make, auto want) { auto a = make(), b = make(); for (int i = 0; i < n; ++i) { const T v = a(), w = want(); c.tick(); if (!c.ok(v == b())) c.fail("seed", "generator %d: two of the same moment differ", k); if (!c.ok(std::abs(v - w) <= 1e-5 * (1 + std::abs(w)))) c.fail("default", "generator %d: sample %d is %g, not %g", k, i, (double)v, (double)w); } }; std::mt19937 e((size_t)CLOCK); std::uniform_real_distribution<T> d(-1, 1); std::bernoulli_distribution q(0.25); double l = 0;
    if (k == 0) both([] { return white_noise_generator<T>(-1, 1); }, [&] { return d(e); }); else if (k == 1) both([] { return brown_noise_generator<T>(-1, 1); }, [&] { l = (l + .02 * d(e)) / 1.02; return (T)(3.5 * l); }); else if (k == 2) both([] { return binary_generator<T>(T(0.25)); }, [&] { return (T)q(e); }); else if (k == 3) { perlin_noise_generator<T> a, b; double top = 0; for (int i = 0; i < n; ++i) { const T v = a(); c.check(v == b(), "seed", "gradient noise: two of the same moment differ"); top = std::max(top, (double)std::abs(v)); } c.check(top <= 1 && top > 0.5, "range", "gradient noise reaches %g", top); } else { pink_noise_generator<T> a(-1, 1), b(-1, 1); for (int i = 0; i < n; ++i) c.check(a() == b(), "seed", "pink noise: two of the same moment differ"); }
    c.nontrivial(1);
}
SCENARIO(default_engine, 8) { if (c.choose(2, "type")) defaults<float>(c); else defaults<double>(c); }
// math::rand: the words of the random device are the choices
static std::vector<unsigned> device; static size_t device_at = 0;
namespace std { void random_device::_M_init(const string&) {} void random_device::_M_fini() {} random_device::result_type random_device::_M_getval() { return device[device_at++ % device.size()]; } }
static const unsigned DEVICE[] = {0, 1, 0xffffffffu, 0x80000000u, 5489, 0x7fffffffu, 0xdeadbeefu, 12345};
template <typename T> T draw(unsigned word, T lo, T hi) { device = {word}; device_at = 0; return edsp::math::rand<T>(lo, hi); }
template <typename T> void device_words(Ctx& c, const char* type) {
    static const double R[][2] = {{0, 1}, {-1, 1}, {0, 100}, {-3, -3}, {-100, 50}, {7, 8}}; const int k = c.choose(6, "range"), block = c.choose(c.tier(8, 64), "block of words"); const bool real = std::is_floating_point<T>::value, uns = std::is_unsigned<T>::value; const T lo = (T)(uns ? std::abs(R[k][0]) : R[k][0]), hi = (T)(uns ? std::abs(R[k][0]) + R[k][1] - R[k][0] : R[k][1]);
    std::vector<int> count(real ? 8 : (size_t)((double)hi - (double)lo) + 1, 0); const int n = 256;
    for (int i = 0; i < n; ++i) { const unsigned w = (unsigned)(block * n + i) * 2654435761u + (i == 0 ? DEVICE[block % 8] : 0); c.at("rand<%s>(%g, %g) with the device word %u", type, (double)lo, (double)hi, w); const T v = draw<T>(w, lo, hi); if (!c.ok(v >= lo && v <= hi)) c.fail("rand-range", "rand<%s>(%g, %g) with the device word %u is %g", type, (double)lo, (double)hi, w, (double)v); c.check(v == draw<T>(w, lo, hi), "rand-seed", "two draws from the same device word differ"); if (hi > lo) ++count[real ? std::min<size_t>(7, (size_t)(8 * ((double)v - (double)lo) / ((double)hi - (double)lo))) : (size_t)((double)v - (double)lo)]; }
    if (hi > lo && count.size() <= 8) for (size_t i = 0; i < count.size(); ++i) { const double e = (double)n / count.size(); c.check(count[i] > e / 2 && count[i] < 2 * e, "rand-uniform", "rand<%s>(%g, %g): part %zu of %zu is hit by %d of %d device words", type, (double)lo, (double)hi, i, count.size(), count[i], n); }
    if (hi > lo) c.nontrivial(1);
}
SCENARIO(device_draws, 16) { switch (c.choose(6, "type")) { case 0: device_words<float>(c, "float"); break; case 1: device_words<double>(c, "double"); break; case 2: device_words<int>(c, "int"); break; case 3: device_words<unsigned>(c, "unsigned"); break; case 4: device_words<short>(c, "short"); break; default: device_words<long>(c, "long"); }
    device = {DEVICE[c.choose(8, "word")]}; device_at = 0; const float f = edsp::math::rand<float>(); const int a = edsp::math::rand<int>(); const double d = edsp::math::rand<double>(); c.check(f == f && d == d && !std::isinf(f) && !std::isinf(d), "rand", "a draw over the whole range is not finite"); device_at = 0; c.check(f == edsp::math::rand<float>(), "rand-seed", "two draws from the same device word differ"); (void)a; }
