// C32: every function of the C interface against the C++ function on the same data, bit for bit: exhaustive words, structured
// inputs of every small length, exact buffers (a read or write outside is a violation), cells beyond the result untouched.
#include <stdexcept>
#include <cstdlib>
#include <cmath>
#include <functional>
extern "C" {
#include <cedsp/algorithm.h>
#include <cedsp/converter.h>
#include <cedsp/core.h>
#include <cedsp/spectral.h>
#include <cedsp/statistics.h>
#include <cedsp/windowing.h>
}
#include <edsp/algorithm.hpp>
#include <edsp/converter.hpp>
#include <edsp/core/library_info.hpp>
#include <edsp/core/system.hpp>
#include <edsp/spectral/cepstrum.hpp>
#include <edsp/spectral/convolution.hpp>
#include <edsp/spectral/correlation.hpp>
#include <edsp/spectral/dct.hpp>
#include <edsp/spectral/dft.hpp>
#include <edsp/spectral/spectrum.hpp>
#include <edsp/spectral/hilbert.hpp>
#include <edsp/spectral/hartley.hpp>
#include <edsp/statistics.hpp>
#include <edsp/windowing.hpp>
#include "inputs.hpp"
using mc::Ctx; typedef double T; typedef std::complex<double> Z; typedef std::vector<T> V; namespace es = edsp::statistics; namespace ew = edsp::windowing;
static bool eq(double a, double b) { return memcmp(&a, &b, sizeof a) == 0 || (a != a && b != b); }
static T* zr(Z* z) { return reinterpret_cast<T*>(z); } static const T* zr(const Z* z) { return reinterpret_cast<const T*>(z); }
static complex_t* ct(T* p) { return reinterpret_cast<complex_t*>(p); } static const complex_t* ct(const T* p) { return reinterpret_cast<const complex_t*>(p); } static Z* cz(T* p) { return reinterpret_cast<Z*>(p); } static const Z* cz(const T* p) { return reinterpret_cast<const Z*>(p); }

// out = f(a, b, n, out): a has na(n) values, b nb(n), out no(n); p one real parameter
struct Map { const char* name; int min_n, per_a, per_b; size_t (*no)(int n); void (*c)(const T*, const T*, int, T*, T); void (*ref)(const T*, const T*, int, T*, T); };
static size_t same_n(int n) { return n; } static size_t one(int) { return 1; } static size_t two_n(int n) { return 2 * n; } static size_t half(int n) { return 2 * (n / 2 + 1); } static size_t half_r(int n) { return n / 2 + 1; }
#define FN(min, pa, pb, no, cname, CE, RE) {#cname, min, pa, pb, no, [](const T* a, const T* b, int n, T* o, T p) { CE; }, [](const T* a, const T* b, int n, T* o, T p) { RE; }}
static const std::vector<Map>& maps() { static const std::vector<Map> m = {
    FN(0, 1, 0, same_n, array_scale, array_scale(a, n, o, p), edsp::amplifier(a, a + n, o, p)),
    FN(0, 1, 0, same_n, array_scale_clip, array_scale_clip(a, n, o, 1.5, -p * p, 1), edsp::amplifier(a, a + n, o, 1.5, -p * p, 1.0)),
    FN(0, 1, 0, same_n, array_clip, array_clip(a, n, o, -p * p, 0.5), edsp::clipper(a, a + n, o, -p * p, 0.5)),
    FN(0, 1, 0, same_n, array_ceil, array_ceil(a, n, o), edsp::ceil(a, a + n, o)),
    FN(0, 1, 0, same_n, array_floor, array_floor(a, n, o), edsp::floor(a, a + n, o)),
    FN(0, 1, 0, same_n, array_round, array_round(a, n, o), edsp::round(a, a + n, o)),
    FN(0, 1, 0, same_n, array_trunc, array_trunc(a, n, o), edsp::fix(a, a + n, o)),
    FN(0, 1, 0, same_n, array_abs, array_abs(a, n, o), edsp::rectify(a, a + n, o)),
    FN(1, 1, 0, same_n, array_normalize, array_normalize(a, n, o), edsp::normalize(a, a + n, o)),
    FN(0, 0, 0, same_n, array_linspace, array_linspace(o, n, p, 3), edsp::linspace(o, p, 3.0, n)),
    FN(0, 0, 0, same_n, array_logspace, array_logspace(o, n, p, 2), edsp::logspace(o, p, 2.0, n)),
    FN(0, 1, 1, two_n, array_concatenate, array_concatenate(a, n, b, n, o), edsp::concatenate(a, a + n, b, b + n, o)),
    FN(1, 1, 1, [](int n) { return (size_t)(2 * n - 1); }, array_concatenate, array_concatenate(a, n - 1, b, n, o), edsp::concatenate(a, a + n - 1, b, b + n, o)),
    FN(1, 1, 1, [](int n) { return (size_t)(2 * n - 1); }, array_concatenate, array_concatenate(a, n, b, n - 1, o), edsp::concatenate(a, a + n, b, b + n - 1, o)),
    FN(0, 1, 0, same_n, array_padder, array_padder(a, n, o, n), edsp::padder(a, a + n, o, o + n)),
    FN(0, 1, 0, two_n, array_padder, array_padder(a, n, o, 2 * n), edsp::padder(a, a + n, o, o + 2 * n)),
    FN(0, 1, 1, one, equal, *o = equal(a, n, b) != 0, *o = edsp::equal(a, a + n, b, b + n)),
    FN(0, 1, 0, one, equal, *o = equal(a, n, a) != 0, *o = edsp::equal(a, a + n, a, a + n)),
    FN(0, 1, 0, one, index_of, *o = index_of(a, n, p), { int k = -1; for (int i = n; i-- > 0;) if (a[i] == p) k = i; *o = k; }),
    FN(0, 1, 0, one, linear_search, *o = linear_search(a, n, p), { auto it = edsp::linear_search(a, a + n, p); *o = it == a + n ? -1 : int(it - a); }),
    FN(0, 1, 0, one, contains, *o = contains(a, n, p) != 0, *o = std::find(a, a + n, p) != a + n),
    FN(0, 1, 0, one, binary_search, { V s(a, a + n); std::sort(s.begin(), s.end()); *o = binary_search(s.data(), n, p); }, { V s(a, a + n); std::sort(s.begin(), s.end()); auto e = s.data() + n; auto it = edsp::binary_search((const T*)s.data(), (const T*)e, p); *o = it == e ? -1 : int(it - s.data()); }),
    FN(1, 1, 0, one, peak2peak, *o = peak2peak(a, n), *o = edsp::peak2peak(a, a + n)),
    FN(1, 1, 0, one, peak2rms, *o = peak2rms(a, n), *o = edsp::peak2rms(a, a + n)),
    FN(0, 1, 0, two_n, real2complex, real2complex(a, n, ct(o)), edsp::real2complex(a, a + n, cz(o))),
    FN(0, 1, 1, two_n, ri2complex, ri2complex(a, b, n, ct(o)), for (int i = 0; i < n; ++i) { o[2 * i] = a[i]; o[2 * i + 1] = b[i]; }),
    FN(0, 2, 0, two_n, complex2real, complex2real(ct(a), n, o, o + n), for (int i = 0; i < n; ++i) { o[i] = a[2 * i]; o[n + i] = a[2 * i + 1]; }),
    FN(1, 1, 0, same_n, cepstrum, cepstrum(a, n, o), edsp::cepstrum(a, a + n, o)),
    FN(1, 1, 1, same_n, conv, conv(a, b, n, o), edsp::conv(a, a + n, b, o)),
    FN(1, 1, 1, same_n, xcorr, xcorr(a, b, n, o), edsp::xcorr(a, a + n, b, o)),
    FN(1, 1, 0, same_n, dct, dct(a, n, o), edsp::dct(a, a + n, o)),
    FN(1, 1, 0, same_n, idct, idct(a, n, o), edsp::idct(a, a + n, o)),
    FN(1, 1, 0, same_n, hartley, hartley(a, n, o), edsp::hartley(a, a + n, o)),
    FN(1, 1, 0, half_r, spectrum, spectrum(a, n, o), edsp::spectrum(a, a + n, o)),
    FN(1, 1, 0, two_n, hilbert, hilbert(a, n, ct(o)), edsp::hilbert(a, a + n, cz(o))),
    FN(1, 1, 0, half, fft, fft(a, n, ct(o)), edsp::dft(a, a + n, cz(o))),
    FN(2, 2, 0, [](int n) { return (size_t)(2 * (n - 1)); }, ifft, ifft(ct(a), n, o), edsp::idft(cz(a), cz(a) + n, o)),
    FN(1, 2, 0, two_n, complex_fft, complex_fft(ct(a), n, ct(o)), edsp::cdft(cz(a), cz(a) + n, cz(o))),
    FN(1, 2, 0, two_n, complex_ifft, complex_ifft(ct(a), n, ct(o)), edsp::cidft(cz(a), cz(a) + n, cz(o))),
    FN(0, 0, 0, one, get_fft_size, *o = get_fft_size(n), *o = n / 2 + 1), FN(1, 0, 0, one, get_ifft_size, *o = get_ifft_size(n), *o = 2 * (n - 1)),
    FN(1, 1, 0, one, kurtosis, *o = kurtosis(a, n), *o = es::kurtosis(a, a + n)),
    FN(1, 1, 0, one, skewness, *o = skewness(a, n), *o = es::skewness(a, a + n)),
    FN(1, 1, 0, [](int) { return (size_t)8; }, moment, for (int k = 1; k <= 8; ++k) o[k - 1] = moment(a, n, k), { o[0] = es::moment<1>(a, a + n); o[1] = es::moment<2>(a, a + n); o[2] = es::moment<3>(a, a + n); o[3] = es::moment<4>(a, a + n); o[4] = es::moment<5>(a, a + n); o[5] = es::moment<6>(a, a + n); o[6] = es::moment<7>(a, a + n); o[7] = es::moment<8>(a, a + n); }),
    FN(1, 1, 0, one, geometric_mean, *o = geometric_mean(a, n), *o = es::geometric_mean(a, a + n)),
    FN(1, 1, 0, [](int) { return (size_t)5; }, generalized_mean, for (int k = -2; k <= 2; ++k) o[k + 2] = k ? generalized_mean(a, n, k) : 0, for (int k = -2; k <= 2; ++k) o[k + 2] = k ? es::generalized_mean(a, a + n, k) : 0),
    FN(1, 1, 0, one, harmonic_mean, *o = harmonic_mean(a, n), *o = es::harmonic_mean(a, a + n)),
    FN(1, 1, 0, one, max, *o = max(a, n), *o = es::max(a, a + n)), FN(1, 1, 0, one, min, *o = min(a, n), *o = es::min(a, a + n)),
    FN(1, 1, 0, one, max_abs, *o = max_abs(a, n), *o = es::maxabs(a, a + n)), FN(1, 1, 0, one, min_abs, *o = min_abs(a, n), *o = es::minabs(a, a + n)),
    FN(1, 1, 0, [](int) { return (size_t)2; }, peak, { auto k = peak(a, n); o[0] = k.index; o[1] = k.value; }, { auto k = es::peak(a, a + n); o[0] = k.first; o[1] = k.second; }),
    FN(1, 1, 0, [](int) { return (size_t)2; }, peak_abs, { auto k = peak_abs(a, n); o[0] = k.index; o[1] = k.value; }, { auto k = es::peakabs(a, a + n); o[0] = k.first; o[1] = k.second; }),
    FN(1, 1, 0, one, mean, *o = mean(a, n), *o = es::mean(a, a + n)), FN(1, 1, 0, one, median, *o = median(a, n), *o = es::median(a, a + n)),
    FN(1, 1, 0, one, variance, *o = variance(a, n), *o = es::variance(a, a + n)), FN(1, 1, 0, one, standard_deviation, *o = standard_deviation(a, n), *o = es::standard_deviation(a, a + n)),
    FN(1, 1, 0, one, norm, *o = norm(a, n), *o = es::norm(a, a + n)),
#define WIN(w) FN(1, 0, 0, same_n, w, w(o, n), ew::w(o, o + n))
    WIN(bartlett), WIN(blackman), WIN(blackman_harris), WIN(blackman_nutall), WIN(boxcar), WIN(flattop), WIN(hamming), WIN(hanning), WIN(triangular), WIN(welch), WIN(rectangular),
    FN(1, 1, 0, same_n, db2mag, for (int i = 0; i < n; ++i) o[i] = db2mag(a[i]), for (int i = 0; i < n; ++i) o[i] = edsp::db2mag(a[i])), FN(1, 1, 0, same_n, db2pow, for (int i = 0; i < n; ++i) o[i] = db2pow(a[i]), for (int i = 0; i < n; ++i) o[i] = edsp::db2pow(a[i])),
    FN(1, 1, 0, same_n, mag2db, for (int i = 0; i < n; ++i) o[i] = mag2db(a[i]), for (int i = 0; i < n; ++i) o[i] = edsp::mag2db(a[i])), FN(1, 1, 0, same_n, pow2db, for (int i = 0; i < n; ++i) o[i] = pow2db(a[i]), for (int i = 0; i < n; ++i) o[i] = edsp::pow2db(a[i])),
    FN(1, 1, 0, same_n, deg2rad, for (int i = 0; i < n; ++i) o[i] = deg2rad(a[i]), for (int i = 0; i < n; ++i) o[i] = edsp::deg2rad(a[i])), FN(1, 1, 0, same_n, rad2deg, for (int i = 0; i < n; ++i) o[i] = rad2deg(a[i]), for (int i = 0; i < n; ++i) o[i] = edsp::rad2deg(a[i])),
  }; return m; }
static void compare(Ctx& c, const Map& f, const V& a, const V& b, int n, T p) {
    const size_t no = f.no(n); in::Exact<T> ea(a, 0), eb(b, 0), oc(no, 0, 7.75), orf(no, 0, 7.75);
    c.at("%s(a = %s, b = %s, n = %d, parameter %g)", f.name, mc::show(a).c_str(), mc::show(b).c_str(), n, p);
    f.c(ea.begin(), eb.begin(), n, oc.begin(), p); f.ref(ea.begin(), eb.begin(), n, orf.begin(), p);
    for (size_t i = 0; i < no; ++i) if (!c.ok(eq(oc[i], orf[i]))) c.fail(f.name, "%s of a = %s, b = %s, n = %d, parameter %g: value %zu is %.17g, the library computes %.17g", f.name, mc::show(a).c_str(), mc::show(b).c_str(), n, p, i, oc[i], orf[i]);
    c.check(in::same(ea.begin(), a) && in::same(eb.begin(), b), std::string(f.name) + "-input", "%s changed its input", f.name);
}
// every function on every word over a small alphabet (two arrays: every pair of words)
SCENARIO(words, 32) {
    const auto& f = maps()[c.choose((int)maps().size(), "function")]; const int pa = f.per_a, pb = f.per_b, per = std::max(1, pa + pb); const int n = c.range(f.min_n, (pa + pb == 0 ? 12 : c.tier(5, 7) / per + (per == 1 ? 0 : 1)));
    V a(pa * n), b(pb * n); for (auto& x : a) x = c.pick({-1.5, 0.0, 1.0, 2.5, 1.0 / 3, -2.5}); for (auto& x : b) x = c.pick({-1.5, 0.0, 1.0, 2.5, 1.0 / 3, -2.5});
    for (T p : {1.0, -1.5, 0.25, 2.5}) compare(c, f, a, b, n, p);
}
// every function on structured inputs of every small length and around powers of two, equal and different second arrays
SCENARIO(shapes, 32) {
    const auto& f = maps()[c.choose((int)maps().size(), "function")]; const int k = c.choose(in::SHAPES, "shape"); const int l = f.per_b ? c.choose(in::SHAPES, "second shape") : 0;
    for (size_t n : in::sizes(c.thorough())) { if ((int)n < f.min_n) continue; compare(c, f, f.per_a ? in::shape(k, n * f.per_a) : V(), f.per_b ? in::shape(l, n * f.per_b) : V(), (int)n, 0.25); }
}
SCENARIO(long_inputs, 32) {
    const auto& f = maps()[c.choose((int)maps().size(), "function")]; const int n = c.pick({4097, 33000, 66000}, "length"); c.split(); compare(c, f, f.per_a ? in::shape(0, n * f.per_a) : V(), f.per_b ? in::shape(1, n * f.per_b) : V(), n, 0.25);
}
// concatenation and padding of every pair of lengths
SCENARIO(lengths, 8) {
    const int n = c.range(0, c.tier(20, 40)), m = c.range(0, c.tier(20, 40)); in::Exact<T> a(in::shape(0, n), 0), b(in::shape(2, m), 0), o(n + m, 0, 7.75); c.at("array_concatenate %d + %d, array_padder %d to %d", n, m, n, n + m);
    array_concatenate(a.begin(), n, b.begin(), m, o.begin()); for (int i = 0; i < n + m; ++i) c.check(eq(o[i], i < n ? a[i] : b[i - n]), "array_concatenate", "array_concatenate of %d and %d values: value %d is %g", n, m, i, o[i]);
    std::fill(o.begin(), o.end(), 7.75); array_padder(a.begin(), n, o.begin(), n + m); for (int i = 0; i < n + m; ++i) c.check(eq(o[i], i < n ? a[i] : 0), "array_padder", "array_padder from %d to %d values: value %d is %g", n, n + m, i, o[i]);
    array_abs(a.begin(), n, a.begin()); for (int i = 0; i < n; ++i) c.check(eq(a[i], std::fabs(in::shape(0, n)[i])), "array_abs", "array_abs in place: value %d is %g", i, a[i]);
}
SCENARIO(library, 1) {
    typedef edsp::library_info L; c.nontrivial(1); c.at("library information");
    c.check(get_major_version() == 0 && get_minor_version() == 0 && get_patch_version() == 1, "version", "version %d.%d.%d", get_major_version(), get_minor_version(), get_patch_version());
    c.check(std::string(get_version()) == std::to_string(get_major_version()) + "." + std::to_string(get_minor_version()) + "." + std::to_string(get_patch_version()), "version", "version string %s", get_version());
    unsigned h, m, s, y, d; char mon[4]; c.check(sscanf(get_build_time(), "%2u:%2u:%2u", &h, &m, &s) == 3 && h < 24 && m < 60 && s < 61, "build-time", "build time %s", get_build_time());
    c.check(sscanf(get_build_date(), "%3s %2u %4u", mon, &d, &y) == 3 && d >= 1 && d <= 31 && y > 2000, "build-date", "build date %s", get_build_date());
    c.check(get_fft_library() == std::string("fftw"), "fft-library", "FFT library %s", get_fft_library()); c.check(get_codec_library() == std::string("sndfile"), "codec-library", "codec library %s", get_codec_library()); c.check(get_resample_library() == std::string("samplerate"), "resample-library", "resample library %s", get_resample_library());
}
// every history of environment calls over two names against the process environment as a map
SCENARIO(environment, 8) {
    const char* names[] = {"MC_ENV_A", "MC_ENV_B"}; const char* values[] = {"", "x", "a value = with spaces"}; const int depth = c.tier(6, 8); std::string now[2]; bool set[2] = {false, false}; unsetenv(names[0]); unsetenv(names[1]); std::string hist;
    for (int k = 0; k < depth; ++k) {
        mc::Hash h; for (int i = 0; i < 2; ++i) h << set[i] << now[i]; c.state(h.value(), depth - k);
        const int op = c.choose(4, "operation"), i = c.choose(2, "name");
        if (op == 0) { const char* v = values[c.choose(3, "value")]; hist += std::string("set ") + names[i] + "='" + v + "'; "; c.at("%s", hist.c_str()); c.check(set_environment(names[i], v) == 0, "set", "%s failed", hist.c_str()); set[i] = true; now[i] = v; c.check(getenv(names[i]) && now[i] == getenv(names[i]), "set", "%sthe environment holds %s", hist.c_str(), getenv(names[i]) ? getenv(names[i]) : "nothing"); }
        else if (op == 1) { int e = -77; hist += std::string("get ") + names[i] + "; "; c.at("%s", hist.c_str()); const char* r = get_environment(names[i], &e); if (set[i]) { c.check(r && now[i] == r && e == 0, "get", "%sgives %s, error %d", hist.c_str(), r ? r : "null", e); } else c.check(!r && e == (int)edsp::system_env::error::not_found, "get", "%sgives %s, error %d", hist.c_str(), r ? r : "null", e); const char* q = get_environment(names[i], nullptr); c.check(q == r || (q && r && std::string(q) == r), "get", "%sdiffers without an error output", hist.c_str()); }
        else if (op == 2) { hist += std::string("exist ") + names[i] + "; "; c.at("%s", hist.c_str()); c.check((exist_environment(names[i]) != 0) == set[i], "exist", "%sgives %d", hist.c_str(), exist_environment(names[i])); }
        else { hist += "empty name; "; c.at("%s", hist.c_str()); int e = 0; if (i) { c.check(!get_environment("", &e) && e == (int)edsp::system_env::error::empty, "empty-name", "reading an empty name: error %d", e); } else { c.check(set_environment("", "x") == (int)edsp::system_env::error::empty, "empty-name", "setting an empty name succeeds"); } }
    }
}
