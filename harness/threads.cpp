// C44: calls on distinct data in different threads, under every interleaving up to a preemption bound.  The real library code
// runs on fibers; control can pass to another thread at every lock, at every entry, middle and exit of a planner function of the
// transform library, at every execution of a plan, and at every element the library reads or writes through its iterators.
#include <stdlib.h>
#include <stdexcept>
#include <fftw3.h>
#include <edsp/algorithm.hpp>
#include <edsp/algorithm/silence.hpp>
#include <edsp/algorithm/derivative.hpp>
#include <edsp/statistics.hpp>
#include <edsp/filter.hpp>
#include <edsp/windowing.hpp>
#include <edsp/oscillator.hpp>
#include <edsp/random.hpp>
#include <edsp/converter.hpp>
#include <edsp/auditory/audspace.hpp>
#include <edsp/experimental/envelope/adsr.hpp>
#include <edsp/experimental/envelope/ar.hpp>
#include <edsp/experimental/quantizer/mu_law_compressor.hpp>
#include <edsp/spectral/cepstrum.hpp>
#include <edsp/spectral/convolution.hpp>
#include <edsp/spectral/correlation.hpp>
#include <edsp/spectral/dct.hpp>
#include <edsp/spectral/dft.hpp>
#include <edsp/spectral/hartley.hpp>
#include <edsp/spectral/hilbert.hpp>
#include <edsp/spectral/spectrum.hpp>
#include <edsp/feature/temporal/amdf.hpp>
#include <edsp/feature/temporal/asdf.hpp>
#include <edsp/feature/temporal/azcr.hpp>
#include <edsp/feature/temporal/duration.hpp>
#include <edsp/feature/temporal/leq.hpp>
#include <edsp/feature/temporal/rms.hpp>
#include <edsp/feature/temporal/rssq.hpp>
#include <edsp/feature/temporal/snr.hpp>
#include <edsp/feature/perceptual/loudness.hpp>
#include <edsp/feature/spectral/spectral_irregularity.hpp>
#include <edsp/feature/spectral/spectral_entropy.hpp>
#include <edsp/feature/statistics/centroid.hpp>
#include <edsp/feature/statistics/crest.hpp>
#include <edsp/feature/statistics/decrease.hpp>
#include <edsp/feature/statistics/entropy.hpp>
#include <edsp/feature/statistics/flatness.hpp>
#include <edsp/feature/statistics/flux.hpp>
#include <edsp/feature/statistics/rolloff.hpp>
#include <edsp/feature/statistics/slope.hpp>
#include <edsp/feature/statistics/spread.hpp>
#include <edsp/feature/statistics/variation.hpp>
#include "sched.hpp"
#include "inputs.hpp"
using mc::Ctx; typedef std::string S; typedef std::vector<double> V;
// ---- the transform library: the real one, with its planner watched -------------------------------
static int planning[2] = {-1, -1}; static bool made_safe[2] = {false, false}; static S broken; static std::map<void*, int> plans;   // plan -> executions in progress
static void plan_in(int p, const char* what) { if (!sched::in_fiber()) return; sched::yield(); if (planning[p] >= 0 && planning[p] != sched::cur && !made_safe[p] && broken.empty()) broken = S(what) + " while another thread is inside the planner"; planning[p] = sched::cur; sched::yield(); }
static void plan_out(int p) { if (!sched::in_fiber()) return; sched::yield(); planning[p] = -1; }
static void exec_in(void* q) { if (!sched::in_fiber()) return; sched::yield(); auto i = plans.find(q); if (i == plans.end()) { if (broken.empty()) broken = "a plan is executed that does not exist"; } else ++i->second; sched::yield(); }
static void exec_out(void* q) { if (!sched::in_fiber()) return; auto i = plans.find(q); if (i != plans.end()) --i->second; sched::yield(); }
extern "C" {
#define PLAN(P, K, name, params, args) fftw##K##plan fftw##K##plan_##name params { static auto r = real<fftw##K##plan (*) params>("fftw" #K "plan_" #name); plan_in(P, "fftw" #K "plan_" #name); auto q = r args; if (q) plans[(void*)q] = 0; plan_out(P); return q; }
#define EXEC(K, name, params, args) void fftw##K##execute_##name params { static auto r = real<void (*) params>("fftw" #K "execute_" #name); exec_in((void*)q); if (!sched::in_fiber() || plans.count((void*)q)) r args; exec_out((void*)q); }
#define API(P, K, R) \
    PLAN(P, K, dft_1d, (int n, fftw##K##complex* i, fftw##K##complex* o, int s, unsigned f), (n, i, o, s, f)) \
    PLAN(P, K, dft_r2c_1d, (int n, R* i, fftw##K##complex* o, unsigned f), (n, i, o, f)) PLAN(P, K, dft_c2r_1d, (int n, fftw##K##complex* i, R* o, unsigned f), (n, i, o, f)) \
    PLAN(P, K, r2r_1d, (int n, R* i, R* o, fftw##K##r2r_kind k, unsigned f), (n, i, o, k, f)) PLAN(P, K, dft, (int k, const int* n, fftw##K##complex* i, fftw##K##complex* o, int s, unsigned f), (k, n, i, o, s, f)) \
    PLAN(P, K, dft_r2c, (int k, const int* n, R* i, fftw##K##complex* o, unsigned f), (k, n, i, o, f)) PLAN(P, K, dft_c2r, (int k, const int* n, fftw##K##complex* i, R* o, unsigned f), (k, n, i, o, f)) \
    EXEC(K, dft, (const fftw##K##plan q, fftw##K##complex* i, fftw##K##complex* o), (q, i, o)) EXEC(K, dft_r2c, (const fftw##K##plan q, R* i, fftw##K##complex* o), (q, i, o)) \
    EXEC(K, dft_c2r, (const fftw##K##plan q, fftw##K##complex* i, R* o), (q, i, o)) EXEC(K, r2r, (const fftw##K##plan q, R* i, R* o), (q, i, o)) \
    void fftw##K##execute(const fftw##K##plan q) { static auto r = real<void (*)(const fftw##K##plan)>("fftw" #K "execute"); exec_in((void*)q); if (!sched::in_fiber() || plans.count((void*)q)) r(q); exec_out((void*)q); } \
    void fftw##K##destroy_plan(fftw##K##plan q) { static auto r = real<void (*)(fftw##K##plan)>("fftw" #K "destroy_plan"); if (!q) return; plan_in(P, "fftw" #K "destroy_plan"); auto i = plans.find((void*)q); if (i == plans.end()) { if (broken.empty()) broken = "a plan is destroyed twice"; } else { if (i->second && broken.empty()) broken = "a plan is destroyed while another thread executes it"; plans.erase(i); r(q); } plan_out(P); } \
    void fftw##K##make_planner_thread_safe(void) { made_safe[P] = true; }
API(0, _, double)
API(1, f_, float)
}
// ---- iterators that hand control over at every element -------------------------------------------
template <typename T> struct It {
    typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T* pointer; typedef T& reference; typedef std::random_access_iterator_tag iterator_category; T* p = nullptr;
    It() {} explicit It(T* q) : p(q) {} T& operator*() const { if (sched::in_fiber()) sched::yield(); return *p; } T* operator->() const { return p; } T& operator[](difference_type k) const { return *(*this + k); }
    It& operator++() { ++p; return *this; } It operator++(int) { return It(p++); } It& operator--() { --p; return *this; } It operator--(int) { return It(p--); } It& operator+=(difference_type k) { p += k; return *this; } It& operator-=(difference_type k) { p -= k; return *this; }
    It operator+(difference_type k) const { return It(p + k); } It operator-(difference_type k) const { return It(p - k); } difference_type operator-(const It& o) const { return p - o.p; } friend It operator+(difference_type k, const It& i) { return i + k; }
    bool operator==(const It& o) const { return p == o.p; } bool operator!=(const It& o) const { return p != o.p; } bool operator<(const It& o) const { return p < o.p; } bool operator>(const It& o) const { return p > o.p; } bool operator<=(const It& o) const { return p <= o.p; } bool operator>=(const It& o) const { return p >= o.p; }
};
typedef It<double> I; typedef std::complex<double> C; typedef std::complex<float> CF;
// ---- the calls: each works on its own data, seeded by who makes the call -------------------------
static V data(int who, int k = 0, size_t n = 4) { V v(n); for (size_t i = 0; i < n; ++i) v[i] = 0.5 + (double)((i * 7 + (size_t)who * 5 + (size_t)k * 3) % 11) * (who % 2 ? 0.25 : 0.75); return v; }
static std::vector<float> dataf(int who, size_t n = 4) { const V v = data(who, 0, n); return std::vector<float>(v.begin(), v.end()); }
static V flat(const std::vector<C>& v) { V r; for (auto& e : v) { r.push_back(e.real()); r.push_back(e.imag()); } return r; }
static V flat(const std::vector<CF>& v) { V r; for (auto& e : v) { r.push_back(e.real()); r.push_back(e.imag()); } return r; }
static V wide(const std::vector<float>& v) { return V(v.begin(), v.end()); }
struct Yielding { typedef uint32_t result_type; uint32_t x; explicit Yielding(size_t = 0) : x(77) {} static constexpr uint32_t min() { return 0; } static constexpr uint32_t max() { return 0xffffffffu; } uint32_t operator()() { if (sched::in_fiber()) sched::yield(); return x = x * 1664525u + 1013904223u; } };   // a seed independent of the clock
typedef edsp::filter::biquad_cascade<double, 2> cascade2; typedef edsp::random::white_noise_generator<double, Yielding> white_noise; typedef edsp::random::brown_noise_generator<double, Yielding> brown_noise; typedef edsp::random::pink_noise_generator<double, Yielding> pink_noise; typedef edsp::random::perlin_noise_generator<double, Yielding> perlin_noise;
struct Call { const char* name; std::function<V(int)> run; };
#define IN1(name, e) {name, [](int w) -> V { V x = data(w); I f(x.data()), l(x.data() + x.size()); (void)f; (void)l; return V{(double)(e)}; }}
#define IN2(name, e) {name, [](int w) -> V { V x = data(w), y = data(w, 1); I f(x.data()), l(x.data() + x.size()), g(y.data()); return V{(double)(e)}; }}
#define MAP(name, e) {name, [](int w) -> V { V x = data(w), y(x.size() * 2); x[1] = -x[1]; I f(x.data()), l(x.data() + x.size()), o(y.data()); e; return y; }}
#define GEN(name, e) {name, [](int w) -> V { V y(5); I f(y.data()), l(y.data() + y.size()); (void)w; e; return y; }}
#define SPEC(name, N, e) {name, [](int w) -> V { V x = data(w), y(N); e; return y; }}
#define OBJ(name, decl, e) {name, [](int w) -> V { V x = data(w), y(x.size()); I f(x.data()), l(x.data() + x.size()), o(y.data()); decl; e; return y; }}
namespace es = edsp::statistics; namespace ft = edsp::feature; namespace fs = edsp::feature::statistics;
static const std::vector<Call>& spectral_calls() { static const std::vector<Call> v = {
    SPEC("dct", 4, edsp::dct(x.begin(), x.end(), y.begin())), SPEC("idct", 4, edsp::idct(x.begin(), x.end(), y.begin())), SPEC("hartley", 4, edsp::hartley(x.begin(), x.end(), y.begin())), SPEC("cepstrum", 4, edsp::cepstrum(x.begin(), x.end(), y.begin())), SPEC("spectrum", 3, edsp::spectrum(x.begin(), x.end(), y.begin())),
    {"dft", [](int w) -> V { V x = data(w); std::vector<C> y(3); edsp::dft(x.begin(), x.end(), y.begin()); return flat(y); }}, {"idft", [](int w) -> V { V x = data(w, 0, 6), y(4); x[1] = x[5] = 0; std::vector<C> c; for (size_t i = 0; i < 3; ++i) c.push_back({x[2 * i], x[2 * i + 1]}); edsp::idft(c.begin(), c.end(), y.begin()); return y; }},
    {"cdft", [](int w) -> V { V x = data(w, 0, 8); std::vector<C> c, y(4); for (size_t i = 0; i < 4; ++i) c.push_back({x[2 * i], x[2 * i + 1]}); edsp::cdft(c.begin(), c.end(), y.begin()); return flat(y); }}, {"cidft", [](int w) -> V { V x = data(w, 0, 8); std::vector<C> c, y(4); for (size_t i = 0; i < 4; ++i) c.push_back({x[2 * i], x[2 * i + 1]}); edsp::cidft(c.begin(), c.end(), y.begin()); return flat(y); }},
    {"conv", [](int w) -> V { V x = data(w), z = data(w, 1), y(4); edsp::conv(x.begin(), x.end(), z.begin(), y.begin()); return y; }}, {"xcorr", [](int w) -> V { V x = data(w), z = data(w, 1), y(4); edsp::xcorr(x.begin(), x.end(), z.begin(), y.begin()); return y; }},
    {"hilbert", [](int w) -> V { V x = data(w); std::vector<C> y(4); edsp::hilbert(x.begin(), x.end(), y.begin()); return flat(y); }},
    {"dct float", [](int w) -> V { auto x = dataf(w); std::vector<float> y(4); edsp::dct(x.begin(), x.end(), y.begin()); return wide(y); }}, {"dft float", [](int w) -> V { auto x = dataf(w); std::vector<CF> y(3); edsp::dft(x.begin(), x.end(), y.begin()); return flat(y); }}, {"hartley float", [](int w) -> V { auto x = dataf(w, 5); std::vector<float> y(5); edsp::hartley(x.begin(), x.end(), y.begin()); return wide(y); }},
    {"engine", [](int w) -> V { V x = data(w), y(4), r; std::vector<C> c(3); edsp::fft_engine<double> e(4); e.dft(x.data(), c.data()); e.idft(c.data(), y.data()); e.idft_scale(y.data()); r = y; e.dct(x.data(), y.data()); r.insert(r.end(), y.begin(), y.end()); return r; }},
    {"engine float", [](int w) -> V { auto x = dataf(w), y = x; V r; std::vector<CF> c(3); edsp::fft_engine<float> e(4); e.dft(x.data(), c.data()); e.idft(c.data(), y.data()); r = wide(y); e.dht(x.data(), y.data()); const V q = wide(y); r.insert(r.end(), q.begin(), q.end()); return r; }},
}; return v; }
static const std::vector<Call>& value_calls() { static const std::vector<Call> v = {
    IN1("mean", es::mean(f, l)), IN1("median", es::median(f, l)), IN1("variance", es::variance(f, l)), IN1("standard_deviation", es::standard_deviation(f, l)), IN1("skewness", es::skewness(f, l)), IN1("kurtosis", es::kurtosis(f, l)), IN1("geometric_mean", es::geometric_mean(f, l)), IN1("harmonic_mean", es::harmonic_mean(f, l)), IN1("generalized_mean", es::generalized_mean(f, l, 3)), IN1("moment", es::moment<3>(f, l)), IN1("norm", es::norm(f, l)), IN1("max", es::max(f, l)), IN1("maxabs", es::maxabs(f, l)), IN1("min", es::min(f, l)), IN1("minabs", es::minabs(f, l)), IN1("peak", es::peak(f, l).second), IN1("peakabs", es::peakabs(f, l).first),
    IN1("centroid", fs::centroid(f, l)), IN1("spread", fs::spread(f, l)), IN1("crest", fs::crest(f, l)), IN1("decrease", fs::decrease(f, l)), IN1("entropy", fs::entropy(f, l)), IN1("flatness", fs::flatness(f, l)), IN1("rolloff", fs::rolloff(f, l, 0.5)), IN1("spectral_entropy", ft::spectral_entropy(f, l)), IN1("spectral_irregularity", ft::spectral_irregularity(f, l)), IN1("loudness", ft::loudness(f, l)),
    IN1("energy", ft::energy(f, l)), IN1("power", ft::power(f, l)), IN1("rms", ft::rms(f, l)), IN1("rssq", ft::rssq(f, l)), IN1("azcr", ft::azcr(f, l)), IN1("leq", ft::leq(f, l)), IN1("effective_duration", ft::effective_duration(f, l, 8000.0, 0.5)), IN1("peak2rms", edsp::peak2rms(f, l)), IN1("peak2peak", edsp::peak2peak(f, l)), IN1("silence", edsp::silence(f, l, 1.0)), IN1("binary_search", edsp::binary_search(f, l, 1.5) - f), IN1("linear_search", edsp::linear_search(f, l, 1.5) - f), IN1("index_of", edsp::index_of(f, l, 1.5)),
    IN2("snr", ft::snr(f, l, g)), IN2("flux", fs::flux<edsp::distances::euclidean>(f, l, g)), IN2("slope", fs::slope(f, l, g)), IN2("variation", fs::variation(f, l, g)), IN2("weighted_centroid", fs::weighted_centroid(f, l, g)), IN2("weighted_spread", fs::weighted_spread(f, l, g)), IN2("equal", edsp::equal(f, l, g, g + 4)),
}; return v; }
static const std::vector<Call>& block_calls() { static const std::vector<Call> v = {
    MAP("amplifier", edsp::amplifier(f, l, o, 3.0)), MAP("amplifier clipped", edsp::amplifier(f, l, o, 3.0, -1.0, 2.0)), MAP("ceil", edsp::ceil(f, l, o)), MAP("floor", edsp::floor(f, l, o)), MAP("round", edsp::round(f, l, o)), MAP("fix", edsp::fix(f, l, o)), MAP("clipper", edsp::clipper(f, l, o, -1.0, 1.0)), MAP("rectify", edsp::rectify(f, l, o)), MAP("derivative", edsp::derivative(f, l, o)), MAP("normalize", edsp::normalize(f, l, o)), MAP("normalize_rms", edsp::normalize_rms(f, l, o)), MAP("padder", edsp::padder(f, l, o, o + 7)), MAP("concatenate", edsp::concatenate(f, l, f, l, o)), MAP("amdf", ft::amdf(f, l, o)), MAP("asdf", ft::asdf(f, l, o)),
    MAP("mu_law_compression", edsp::quantizer::mu_law_compression(f, l, o, 8.0, 255)), MAP("inverse_mu_law_compression", edsp::quantizer::inverse_mu_law_compression(f, l, o, 8.0, 255)),
    GEN("linspace", edsp::linspace(f, 0.0 + w, 1.0, 5)), GEN("logspace", edsp::logspace(f, 0.0, 1.0 + w, 5)), GEN("melspace", edsp::auditory::audspace(f, 100.0 + w, 1000.0, 5, edsp::auditory::mel)), GEN("erbspace", edsp::auditory::audspace(f, 100.0 + w, 1000.0, 5, edsp::auditory::erb)), GEN("barkspace", edsp::auditory::audspace(f, 100.0 + w, 1000.0, 5, edsp::auditory::bark)), GEN("centspace", edsp::auditory::audspace(f, 100.0 + w, 1000.0, 5, edsp::auditory::cent)),
    GEN("windows", { using namespace edsp::windowing; l = f + 3 + w % 2; switch (w % 2) { case 0: hamming(f, l); break; default: hanning(f, l); } }), GEN("flattop", edsp::windowing::flattop(f, f + 3 + w % 2)), GEN("blackman", edsp::windowing::blackman(f, f + 3 + w % 2)), GEN("blackman_harris", edsp::windowing::blackman_harris(f, f + 3 + w % 2)), GEN("blackman_nutall", edsp::windowing::blackman_nutall(f, f + 3 + w % 2)), GEN("triangular", edsp::windowing::triangular(f, f + 3 + w % 2)), GEN("bartlett", edsp::windowing::bartlett(f, f + 3 + w % 2)), GEN("welch", edsp::windowing::welch(f, f + 3 + w % 2)), GEN("boxcar", edsp::windowing::boxcar(f, f + 3 + w % 2)),
    OBJ("biquad", edsp::filter::biquad<double> b(1 + w, 0.5, 0.25, 1, -0.5, 0.25), b.filter(f, l, o)), OBJ("biquad_cascade", cascade2 b; b.push_back(edsp::filter::biquad<double>(1 + w, 0.5, 0.25, 1, -0.5, 0.25)); b.push_back(edsp::filter::biquad<double>(1, 0.5, 0, 1, -0.25, 0)), b.filter(f, l, o)), OBJ("moving_average", edsp::filter::moving_average<double> b(2 + (size_t)w), b.filter(f, l, o)), OBJ("moving_rms", edsp::filter::moving_rms<double> b(2 + (size_t)w), b.filter(f, l, o)), OBJ("moving_median", edsp::filter::moving_median<double> b(2 + (size_t)w), b.filter(f, l, o)),
    OBJ("butterworth", auto b = (edsp::filter::make_filter<double, edsp::filter::designer_type::Butterworth, edsp::filter::filter_type::LowPass, 4>(3, 1000.0 + 100 * w, 8000.0)), b.filter(f, l, o)),
    OBJ("sine", edsp::oscillators::sin_oscillator<double> b(1 + w, 8, 1, 0), for (; f != l; ++f, ++o) *o = *f * b()), OBJ("square", edsp::oscillators::square_oscillator<double> b(1 + w, 8, 1, 0.5), for (; f != l; ++f, ++o) *o = *f * b()), OBJ("sawtooth", edsp::oscillators::sawtooth_oscillator<double> b(1 + w, 8, 1, 0.25), for (; f != l; ++f, ++o) *o = *f * b()),
    OBJ("adsr", edsp::envelope::adsr<double> b; b.set_sample_rate(8); b.set_attack_time(0.5); b.set_decay_time(0.5); b.set_sustain_level(0.5); b.set_release_time(0.25 * (w + 1)); b.key_on(), b.apply(f, l, o)), OBJ("ar", edsp::envelope::ar<double> b(8, 0.5, 0.25 * (w + 1), true), b.apply(f, l, o)),
    OBJ("white noise", white_noise b(0, 1), for (; f != l; ++f, ++o) *o = *f + b()), OBJ("brown noise", brown_noise b(-1, 1), for (; f != l; ++f, ++o) *o = *f + b()), OBJ("pink noise", pink_noise b(-1, 1), for (; f != l; ++f, ++o) *o = *f + b()), OBJ("perlin noise", perlin_noise b, for (; f != l; ++f, ++o) *o = *f + b()),
}; return v; }
// ---- exploration: every schedule with at most so many preemptions --------------------------------
static std::vector<const Call*> prog; static std::vector<V> got;
static void thread_body(int t) { const V r = prog[(size_t)t]->run(t); got[(size_t)t] = r; }
static void explore(Ctx& c, int preemptions) {
    using namespace sched; const int count = (int)prog.size(); S text; planning[0] = planning[1] = -1; broken.clear();
    std::vector<V> alone; for (int t = 0; t < count; ++t) { alone.push_back(prog[(size_t)t]->run(t)); text += (t ? " || " : "") + S(prog[(size_t)t]->name); } c.at("%s", text.c_str()); c.nontrivial(1); got.assign((size_t)count, V()); prepare(count, thread_body);
    try {
        int last = -1;
        for (int steps = 0; unfinished(); ++steps) {
            std::vector<int> en; for (int i = 0; i < count; ++i) if (enabled(i)) en.push_back(i);
            if (!c.ok(!en.empty())) { S s; for (int i = 0; i < count; ++i) s += f[i].done ? "finished " : "waiting "; c.fail("deadlock", "no thread can run: %s in %s", s.c_str(), text.c_str()); } if (!c.ok(steps < 20000)) c.fail("livelock", "no progress in %s", text.c_str());
            int t = en[0]; const bool can = last >= 0 && enabled(last);
            if (can) { if (preemptions > 0 && en.size() > 1) { const int k = c.choose((int)en.size(), "next thread"); t = last; if (k) { int skipped = 0; for (int e : en) if (e != last && ++skipped == k) t = e; --preemptions; } } else t = last; }
            else if (en.size() > 1) t = en[(size_t)c.choose((int)en.size(), "next thread")];
            run(t); last = t; if (!c.ok(broken.empty())) c.fail("planner", "%s, in %s", broken.c_str(), text.c_str());
        }
    } catch (...) { broken.clear(); drain(); throw; }
    for (auto& k : locks) c.check(k.second.writer < 0 && k.second.readers.empty(), "lock-held", "a lock is still held after %s", text.c_str());
    for (int t = 0; t < count; ++t) if (!c.ok(got[(size_t)t] == alone[(size_t)t])) c.fail(S("result-") + prog[(size_t)t]->name, "%s gives %s, alone %s; running together: %s", prog[(size_t)t]->name, mc::show(got[(size_t)t]).c_str(), mc::show(alone[(size_t)t]).c_str(), text.c_str());
}
SCENARIO(transforms, 64) { const auto& s = spectral_calls(); const int a = c.choose((int)s.size(), "first call"), b = c.choose((int)s.size(), "second call"); if (b < a) { c.nontrivial(0); return; } prog = {&s[(size_t)a], &s[(size_t)b]}; explore(c, c.tier(3, 4)); }
SCENARIO(three_transforms, 64) { const auto& s = spectral_calls(); prog = {&s[(size_t)c.choose(c.tier(4, (int)s.size()), "first call")], &s[(size_t)c.choose((int)s.size(), "second call")], &s[(size_t)c.pick({0, 5, 12}, "third call")]}; explore(c, c.tier(1, 2)); }
SCENARIO(values, 32) { const auto& s = value_calls(); const int a = c.choose((int)s.size(), "first call"), b = (a + c.choose(c.tier(2, (int)s.size()), "second call")) % (int)s.size(); prog = {&s[(size_t)a], &s[(size_t)b]}; explore(c, c.tier(2, 3)); }
SCENARIO(blocks, 32) { const auto& s = block_calls(); const int a = c.choose((int)s.size(), "first call"), b = (a + c.choose(c.tier(2, (int)s.size()), "second call")) % (int)s.size(); prog = {&s[(size_t)a], &s[(size_t)b]}; explore(c, c.tier(2, 3)); }
