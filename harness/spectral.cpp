// C12-C16: transforms against their defining sums, evaluated in extended precision.
#include <stdexcept>
#include <edsp/spectral/dft.hpp>
#include <edsp/spectral/dct.hpp>
#include <edsp/spectral/hartley.hpp>
#include <edsp/spectral/convolution.hpp>
#include <edsp/spectral/correlation.hpp>
#include <edsp/spectral/hilbert.hpp>
#include <edsp/spectral/spectrum.hpp>
#include <edsp/spectral/cepstrum.hpp>
#include "inputs.hpp"
using mc::Ctx;
typedef long double ld;
typedef std::complex<ld> lc;
static const ld PI = 3.14159265358979323846264338327950288L;
template <typename T> using cx = std::complex<T>;

// ---- definitions ------------------------------------------------------------------------
static std::vector<lc> twiddles(size_t n) { std::vector<lc> w(n); for (size_t i = 0; i < n; ++i) { const ld a = 2 * PI * (ld)i / (ld)n; w[i] = lc(std::cos(a), std::sin(a)); } return w; }
static std::vector<lc> DFT_sum(const std::vector<lc>& x, bool inverse) {
    const size_t n = x.size(); auto w = twiddles(n); std::vector<lc> y(n);
    for (size_t k = 0; k < n; ++k) { lc s = 0; size_t j = 0; for (size_t i = 0; i < n; ++i) { if (x[i] != lc(0)) s += x[i] * (inverse ? w[j] : std::conj(w[j])); j += k; if (j >= n) j -= n; } y[k] = inverse ? s / (ld)n : s; }
    return y;
}
// the same sum for long inputs, split by the prime factors of the length (checked against the sum in `reference`)
static void split(const lc* x, size_t stride, size_t n, size_t N, const std::vector<lc>& w, lc* y) {
    if (n == 1) { y[0] = x[0]; return; }
    size_t p = 2; while (n % p) ++p;
    const size_t m = n / p; std::vector<lc> part(n); for (size_t r = 0; r < p; ++r) split(x + r * stride, stride * p, m, N, w, part.data() + r * m);
    for (size_t k = 0; k < n; ++k) { lc s = 0; for (size_t r = 0; r < p; ++r) s += part[r * m + k % m] * std::conj(w[(r * k) % n * (N / n)]); y[k] = s; }
}
static std::vector<lc> DFT_split(const std::vector<lc>& x, bool inverse) {
    const size_t n = x.size(); auto w = twiddles(n); std::vector<lc> y(n); std::vector<lc> v(x); if (inverse) for (auto& e : v) e = std::conj(e);
    split(v.data(), 1, n, n, w, y.data()); if (inverse) for (auto& e : y) e = std::conj(e) / (ld)n;
    return y;
}
static std::vector<lc> DFT(const std::vector<lc>& x, bool inverse = false) { return x.size() < 1200 ? DFT_sum(x, inverse) : DFT_split(x, inverse); }
template <typename V> std::vector<lc> lift(const V& v) { std::vector<lc> o; for (auto& e : v) o.push_back(lc(e)); return o; }
static std::vector<ld> DCT2(const std::vector<ld>& x) { const size_t n = x.size(); std::vector<ld> y(n);
    if (n >= 1200) { std::vector<lc> v(4 * n, 0); for (size_t i = 0; i < n; ++i) v[2 * i + 1] = x[i]; auto f = DFT(v); for (size_t k = 0; k < n; ++k) y[k] = 2 * f[k].real(); return y; }
    for (size_t k = 0; k < n; ++k) { ld s = 0; for (size_t i = 0; i < n; ++i) if (x[i] != 0) s += x[i] * std::cos(PI * (ld)((2 * i + 1) * k % (4 * n)) / (2 * (ld)n)); y[k] = 2 * s; } return y; }
static std::vector<ld> DCT3(const std::vector<ld>& x) { const size_t n = x.size(); std::vector<ld> y(n);
    if (n >= 1200) { std::vector<lc> v(4 * n, 0); for (size_t i = 0; i < n; ++i) v[i] = x[i]; auto f = DFT(v); for (size_t k = 0; k < n; ++k) y[k] = (2 * f[2 * k + 1].real() - x[0]) / (2 * (ld)n); return y; }
    for (size_t k = 0; k < n; ++k) { ld s = x[0]; for (size_t i = 1; i < n; ++i) if (x[i] != 0) s += 2 * x[i] * std::cos(PI * (ld)((2 * k + 1) * i % (4 * n)) / (2 * (ld)n)); y[k] = s / (2 * (ld)n); } return y; }
static std::vector<ld> DHT(const std::vector<ld>& x) { const size_t n = x.size();
    if (n >= 1200) { auto f = DFT(std::vector<lc>(x.begin(), x.end())); std::vector<ld> y(n); for (size_t k = 0; k < n; ++k) y[k] = f[k].real() - f[k].imag(); return y; }
    auto w = twiddles(n); std::vector<ld> y(n); for (size_t k = 0; k < n; ++k) { ld s = 0; size_t j = 0; for (size_t i = 0; i < n; ++i) { s += x[i] * (w[j].real() + w[j].imag()); j += k; if (j >= n) j -= n; } y[k] = s; } return y; }
template <typename V> ld l2(const V& v) { ld s = 0; for (auto& e : v) s += std::norm(lc(e)); return std::sqrt(s); }
template <typename T> ld eps(size_t n) { return 16 * std::numeric_limits<T>::epsilon() * (2 + std::log2((ld)n)); }

template <typename T, typename G, typename W> void compare(Ctx& c, const char* what, const G& got, const W& want, ld tol, const char* in) {
    for (size_t k = 0; k < want.size(); ++k) if (!c.ok(std::abs(lc(got[k]) - lc(want[k])) <= tol))
        c.fail(what, "%s, %s, length %zu: element %zu is (%.12Lg, %.12Lg), expected (%.12Lg, %.12Lg)", sizeof(T) == 4 ? "float" : "double", in, want.size(), k, lc(got[k]).real(), lc(got[k]).imag(), lc(want[k]).real(), lc(want[k]).imag());
}
template <typename T, typename G> void intact(Ctx& c, const char* what, const G& got, const std::vector<T>& before) {
    if (!c.ok(memcmp(got.begin(), before.data(), before.size() * sizeof(T)) == 0)) c.fail(std::string(what) + "-modifies-input", "the input of %s of length %zu was modified", what, before.size());
}
// ---- one transform of each kind through the public functions ------------------------------
enum Kind { CDFT, CIDFT, RDFT, RIDFT, FDCT, IDCT, HART, KINDS };
static const char* kname[] = {"cdft", "cidft", "dft", "idft", "dct", "idct", "hartley"};
template <typename T> void apply(Ctx& c, Kind k, const std::vector<double>& re, const std::vector<double>& im, size_t off, size_t doff, bool inplace, const char* in) {
    const size_t n = re.size();
    if (k == CDFT || k == CIDFT) {
        std::vector<cx<T>> x(n); for (size_t i = 0; i < n; ++i) x[i] = cx<T>((T)re[i], (T)im[i]);
        in::Exact<cx<T>> src(x, off), dst(n, doff, cx<T>(77)); auto want = DFT(lift(x), k == CIDFT);
        const ld tol = eps<T>(n) * l2(x) * std::sqrt((ld)n) / (k == CIDFT ? (ld)n : 1);
        auto* d = inplace ? src.begin() : dst.begin();
        c.at("%s %s n=%zu %s off=%zu/%zu inplace=%d", kname[k], sizeof(T) == 4 ? "float" : "double", n, in, off, doff, inplace);
        if (k == CDFT) edsp::cdft(src.begin(), src.end(), d); else edsp::cidft(src.begin(), src.end(), d);
        compare<T>(c, kname[k], d, want, tol, in);
        if (!inplace) intact<cx<T>>(c, kname[k], src, x);
        return;
    }
    std::vector<T> x(n); for (size_t i = 0; i < n; ++i) x[i] = (T)re[i];
    std::vector<ld> xl(x.begin(), x.end());
    c.at("%s %s n=%zu %s off=%zu/%zu inplace=%d", kname[k], sizeof(T) == 4 ? "float" : "double", n, in, off, doff, inplace);
    if (k == RDFT) {
        in::Exact<T> src(x, off); in::Exact<cx<T>> dst(n / 2 + 1, doff, cx<T>(77));
        edsp::dft(src.begin(), src.end(), dst.begin());
        auto want = DFT(lift(x)); want.resize(n / 2 + 1);
        compare<T>(c, "dft", dst.begin(), want, eps<T>(n) * l2(x) * std::sqrt((ld)n), in); intact<T>(c, "dft", src, x);
    } else if (k == RIDFT) {                       // half spectrum of an even-length real signal
        if (n % 2) return;
        auto full = DFT(lift(x)); std::vector<cx<T>> half(n / 2 + 1); for (size_t i = 0; i < half.size(); ++i) half[i] = cx<T>((T)full[i].real(), (T)full[i].imag());
        half[0].imag(0); half.back().imag(0);
        in::Exact<cx<T>> src(half, off); in::Exact<T> dst(n, doff, T(77));
        edsp::idft(src.begin(), src.end(), dst.begin());
        compare<T>(c, "idft", dst.begin(), xl, 4 * eps<T>(n) * l2(x), in); intact<cx<T>>(c, "idft", src, half);
    } else {
        in::Exact<T> src(x, off), dst(n, doff, T(77)); auto* d = inplace ? src.begin() : dst.begin();
        ld tol = eps<T>(n) * l2(x) * std::sqrt((ld)n) * 2; std::vector<ld> want;
        if (k == FDCT) { edsp::dct(src.begin(), src.end(), d); want = DCT2(xl); }
        else if (k == IDCT) { edsp::idct(src.begin(), src.end(), d); want = DCT3(xl); tol /= 2 * (ld)n; }
        else { edsp::hartley(src.begin(), src.end(), d); want = DHT(xl); }
        compare<T>(c, kname[k], d, want, tol, in);
        if (!inplace) intact<T>(c, kname[k], src, x);
        if (k == FDCT) { in::Exact<T> y(std::vector<T>(d, d + n), 0), z(n, 0, T(77)); edsp::idct(y.begin(), y.end(), z.begin()); compare<T>(c, "idct(dct)", z.begin(), xl, 4 * eps<T>(n) * l2(x), in); }
    }
}
static void transform(Ctx& c, Kind k, bool dbl, const std::vector<double>& re, const std::vector<double>& im, size_t off, size_t doff, bool inplace, const char* in) {
    if (dbl) apply<double>(c, k, re, im, off, doff, inplace, in); else apply<float>(c, k, re, im, off, doff, inplace, in);
}
static void all_sizes(Ctx& c, std::initializer_list<int> kinds) {
    const Kind k = (Kind)c.pick(kinds, "kind"); const bool dbl = c.choose(2, "type") == 1;
    const auto n = c.pick(in::sizes(c.thorough()), "length");
    const int s = c.choose(in::SHAPES, "shape"), buf = c.choose(4, "buffers");
    transform(c, k, dbl, in::shape(s, n), in::shape((s + 3) % in::SHAPES, n), buf == 1 || buf == 2, buf == 2, buf == 3, in::shape_name(s));
}
static const std::vector<int>& long_lengths(bool deep) { static const std::vector<int> q{2000, 2048, 3001, 4095, 4096, 4097, 8192, 10000, 32768, 65536, 70000, 131072}, d{1500, 2000, 2047, 2048, 2049, 3001, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 16384, 32768, 44100, 48000, 65535, 65536, 65538, 70000, 131072, 262144, 1 << 20}; return deep ? d : q; }
static void reference(Ctx& c) {                                      // the two ways of evaluating the definition agree
    const auto n = (size_t)c.range(1, c.tier(200, 1100), "length"); auto re = in::shape(0, n), im = in::shape(6, n); std::vector<lc> v(n); for (size_t i = 0; i < n; ++i) v[i] = lc(re[i], im[i] / 1e6);
    for (int inv = 0; inv < 2; ++inv) { auto a = DFT_sum(v, inv), b = DFT_split(v, inv); for (size_t k = 0; k < n; ++k) c.check(std::abs(a[k] - b[k]) < 1e-15L, "reference", "length %zu", n); }
}
static void long_inputs(Ctx& c, std::initializer_list<int> kinds) {
    const Kind k = (Kind)c.pick(kinds, "kind"); const bool dbl = c.choose(2, "type") == 1; const auto n = (size_t)c.pick(long_lengths(c.thorough()), "length"); const int s = c.pick({0, 5}, "shape"); c.split();
    transform(c, k, dbl, in::shape(s, n), in::shape((s + 3) % in::SHAPES, n), 0, 0, false, in::shape_name(s));
}
static void basis(Ctx& c, std::initializer_list<int> kinds) {       // linear maps are determined by their basis
    const Kind k = (Kind)c.pick(kinds, "kind"); const bool dbl = c.choose(2, "type") == 1;
    const auto n = (size_t)c.range(1, c.tier(24, 72), "length"); const auto i = (size_t)c.choose((int)n, "index"); const bool imag = (k == CDFT || k == CIDFT) && c.choose(2, "imaginary");
    std::vector<double> e(n, 0), z(n, 0); e[i] = 1; transform(c, k, dbl, imag ? z : e, imag ? e : z, 0, 0, false, "basis vector");
}
static void words(Ctx& c, std::initializer_list<int> kinds) {       // every sequence over a small alphabet
    const Kind k = (Kind)c.pick(kinds, "kind"); const auto n = (size_t)c.range(1, c.tier(5, 7), "length");
    auto w = in::word<double>(c, n, {0, 1, -2}); std::vector<double> im(n); for (size_t i = 0; i < n; ++i) im[i] = -w[n - 1 - i] / 2;
    transform(c, k, true, w, im, 0, 0, false, mc::show(w).c_str());
}
static void sequences(Ctx& c, std::initializer_list<int> kinds) {   // earlier transforms must not matter
    for (int i = 0; i < 3; ++i) { const Kind k = (Kind)c.pick(kinds, "kind"); const auto n = c.pick({2, 5, 8}, "length"); transform(c, k, true, in::shape(0, (size_t)n), in::shape(2, (size_t)n), 0, 0, false, "sequence"); }
}
static void magnitudes(Ctx& c, std::initializer_list<int> kinds) {  // signals of every order of magnitude
    const Kind k = (Kind)c.pick(kinds, "kind"); const bool dbl = c.choose(2, "type") == 1; const int s = c.pick({0, 2, 5}, "shape"), e = dbl ? c.pick(in::scales<double>(), "exponent") : c.pick(in::scales<float>(), "exponent"); if (std::abs(e) > (dbl ? 900 : 100)) return; const auto n = (size_t)c.pick({1, 2, 6, 16, 33}, "length");
    char in[64]; snprintf(in, sizeof in, "%s times 2^%d", in::shape_name(s), e); transform(c, k, dbl, in::scaled<double>(s, n, e), in::scaled<double>((s + 1) % 3, n, e), 0, 0, c.choose(2, "in place"), in);
}
#if defined(C12)
#define KS {CDFT, CIDFT, RDFT, RIDFT}
SCENARIO(lengths_shapes_buffers, 8) { all_sizes(c, KS); }
SCENARIO(long_inputs, 8) { long_inputs(c, KS); }
SCENARIO(magnitudes, 4) { magnitudes(c, KS); }
SCENARIO(reference, 2) { reference(c); }
SCENARIO(basis_vectors, 8) { basis(c, KS); }
SCENARIO(small_alphabet, 8) { words(c, KS); }
SCENARIO(earlier_transforms, 8) { sequences(c, KS); }
#elif defined(C14)
#define KS {FDCT, IDCT, HART}
SCENARIO(lengths_shapes_buffers, 8) { all_sizes(c, KS); }
SCENARIO(long_inputs, 8) { long_inputs(c, KS); }
SCENARIO(magnitudes, 4) { magnitudes(c, KS); }
SCENARIO(reference, 2) { reference(c); }
SCENARIO(basis_vectors, 8) { basis(c, KS); }
SCENARIO(small_alphabet, 8) { words(c, KS); }
SCENARIO(earlier_transforms, 8) { sequences(c, {FDCT, IDCT, HART, CDFT}); }
#elif defined(C13)
// every sequence of engine operations and buffer placements; each result must be the definition's
template <typename E, bool Copy = std::is_copy_constructible<E>::value> struct Copier { static void go(std::unique_ptr<E>& e) { auto q = std::make_unique<E>(*e); std::swap(e, q); } };
template <typename E> struct Copier<E, false> { static void go(std::unique_ptr<E>&) {} };
template <typename E, bool Move = std::is_move_constructible<E>::value> struct Mover { static void go(std::unique_ptr<E>& e) { auto q = std::make_unique<E>(std::move(*e)); std::swap(e, q); } };
template <typename E> struct Mover<E, false> { static void go(std::unique_ptr<E>&) {} };
template <typename T> void engine(Ctx& c, const std::vector<int>& lengths, int depth, bool offsets) {
    typedef edsp::fft_engine<T> E; const auto n = (size_t)c.pick(lengths, "length"); auto e = std::make_unique<E>(n);
    const char* names[] = {"complex dft", "complex idft", "real dft", "real idft", "dht", "dct", "idct", "copy", "move"};
    for (int step = 0; step < depth; ++step) {
        const int op = c.choose(offsets ? 7 : 9, "transform"); const int buf = op < 7 ? c.choose(offsets ? 4 : 3, "buffers") : 0;
        const size_t off = buf & 1, doff = buf == 3; const bool inplace = buf == 2;
        c.at("%s engine of length %zu, step %d: %s, buffers %d", sizeof(T) == 4 ? "float" : "double", n, step, names[op], buf);
        auto re = in::shape(step % 3 == 1 ? 2 : 0, n), im = in::shape(step % 3 == 2 ? 1 : 6, n); for (auto& v : im) v /= 1e6;
        const ld t = 2 * eps<T>(n) * std::sqrt((ld)n);
        if (op == 7) { Copier<E>::go(e); continue; }
        if (op == 8) { Mover<E>::go(e); continue; }
        if (op <= 1) {
            std::vector<cx<T>> x(n); for (size_t i = 0; i < n; ++i) x[i] = cx<T>((T)re[i], (T)im[i]);
            in::Exact<cx<T>> src(x, off), dst(n, doff, cx<T>(7)); auto* d = inplace ? src.begin() : dst.begin();
            if (op == 0) e->dft(src.begin(), d); else { e->idft(static_cast<const cx<T>*>(src.begin()), d); e->idft_scale(d); }
            compare<T>(c, names[op], d, DFT(lift(x), op == 1), t * l2(x) / (op == 1 ? (ld)n : 1), "engine"); if (!inplace) intact<cx<T>>(c, "engine", src, x);
            continue;
        }
        std::vector<T> x(n); for (size_t i = 0; i < n; ++i) x[i] = (T)re[i]; std::vector<ld> xl(x.begin(), x.end());
        if (op == 2) {
            in::Exact<T> src(x, off); in::Exact<cx<T>> dst(n / 2 + 1, doff, cx<T>(7)); e->dft(static_cast<const T*>(src.begin()), dst.begin());
            auto want = DFT(lift(x)); want.resize(n / 2 + 1); compare<T>(c, names[op], dst.begin(), want, t * l2(x), "engine"); intact<T>(c, "engine", src, x);
        } else if (op == 3) {
            auto full = DFT(lift(x)); std::vector<cx<T>> half(n / 2 + 1); for (size_t i = 0; i < half.size(); ++i) half[i] = cx<T>((T)full[i].real(), (T)full[i].imag());
            half[0].imag(0); if (n % 2 == 0) half.back().imag(0);
            in::Exact<cx<T>> src(half, off); in::Exact<T> dst(n, doff, T(7)); e->idft(static_cast<const cx<T>*>(src.begin()), dst.begin()); e->idft_scale(dst.begin());
            compare<T>(c, names[op], dst.begin(), xl, 4 * t * l2(x) / (ld)n * std::sqrt((ld)n), "engine"); intact<cx<T>>(c, "engine", src, half);
        } else {
            in::Exact<T> src(x, off), dst(n, doff, T(7)); auto* d = inplace ? src.begin() : dst.begin();
            if (op == 4) { e->dht(src.begin(), d); compare<T>(c, names[op], d, DHT(xl), t * l2(x), "engine"); }
            else if (op == 5) { e->dct(src.begin(), d); compare<T>(c, names[op], d, DCT2(xl), 2 * t * l2(x), "engine"); }
            else { e->idct(src.begin(), d); e->idct_scale(d); compare<T>(c, names[op], d, DCT3(xl), 2 * t * l2(x) / (ld)n, "engine"); }
            if (!inplace) intact<T>(c, "engine", src, x);
        }
    }
}
SCENARIO(double_histories, 8) { engine<double>(c, {1, 2, 3, 4, 5, 8, 12, 16}, c.tier(3, 4), false); }
SCENARIO(float_histories, 8) { engine<float>(c, {1, 2, 3, 4, 7, 8, 16}, c.tier(3, 4), false); }
SCENARIO(float_alignment, 8) { engine<float>(c, {4, 16, 32, 64, 100, 128}, c.tier(2, 3), true); }
SCENARIO(double_long, 8) { engine<double>(c, long_lengths(c.thorough()), 1, false); }
SCENARIO(float_long, 8) { engine<float>(c, long_lengths(c.thorough()), 1, false); }
SCENARIO(double_alignment, 8) { engine<double>(c, {4, 16, 32, 64, 100, 128}, c.tier(2, 3), true); }
#elif defined(C15)
using edsp::spectral::CorrelationScale;
enum Op { CONV, XCORR, AUTO, OPS };
template <typename T, typename In, typename Out> void run(int op, In a, In ae, In b, Out o, CorrelationScale s) {
    if (op == CONV) edsp::conv(a, ae, b, o); else if (op == XCORR) edsp::xcorr(a, ae, b, o, s); else edsp::xcorr(a, ae, o, s);
}
template <typename T> void pair(Ctx& c, int op, const std::vector<double>& da, const std::vector<double>& db, int scale, int iter, const char* in) {
    const size_t n = da.size(); auto a = in::cast<T>(da), b = in::cast<T>(op == AUTO ? da : db); std::vector<ld> want(n, 0);
    if (n >= 1200) {                 // the same sums through the reference transform of the zero-padded inputs
        std::vector<lc> u(2 * n, 0), v(2 * n, 0); for (size_t i = 0; i < n; ++i) { u[i] = a[i]; v[i] = b[i]; } u = DFT(u); v = DFT(v); for (size_t i = 0; i < 2 * n; ++i) u[i] *= op == CONV ? v[i] : std::conj(v[i]); u = DFT(u, true);
        for (size_t k = 0; k < n; ++k) want[k] = u[k].real() / (op != CONV && scale == 1 ? (ld)n : op != CONV && scale == 2 ? (ld)(n - k) : 1);
    } else for (size_t k = 0; k < n; ++k) {
        if (op == CONV) for (size_t i = 0; i <= k; ++i) want[k] += (ld)a[i] * b[k - i]; else for (size_t i = k; i < n; ++i) want[k] += (ld)a[i] * b[i - k];
        if (op != CONV && scale == 1) want[k] /= (ld)n; if (op != CONV && scale == 2) want[k] /= (ld)(n - k);
    }
    const auto cs = scale == 0 ? CorrelationScale::None : scale == 1 ? CorrelationScale::Biased : CorrelationScale::Unbiased;
    const ld tol = 2 * eps<T>(2 * n) * l2(a) * l2(b) / (op != CONV && scale == 1 ? (ld)n : 1);
    const char* name[] = {"conv", "xcorr", "autocorrelation"}; char key[64]; snprintf(key, sizeof key, "%s%s", name[op], op == CONV || scale == 0 ? "" : scale == 1 ? "-biased" : "-unbiased");
    c.at("%s n=%zu scale=%d iterators=%d %s", name[op], n, scale, iter, in);
    if (iter == 0) { in::Exact<T> x(a, 0), y(b, 0), z(n, 0, T(77)); run<T>(op, (const T*)x.begin(), (const T*)x.end(), (const T*)y.begin(), z.begin(), cs); compare<T>(c, key, z, want, tol, in); intact<T>(c, name[op], x, a); intact<T>(c, name[op], y, b); }
    else if (iter == 1) { std::list<T> x(a.begin(), a.end()), y(b.begin(), b.end()), z(n, T(77)); run<T>(op, x.cbegin(), x.cend(), y.cbegin(), z.begin(), cs); std::vector<T> g(z.begin(), z.end()); compare<T>(c, key, g, want, tol, in); if (!c.ok(std::equal(a.begin(), a.end(), x.begin()) && std::equal(b.begin(), b.end(), y.begin()))) c.fail("modifies-input", "%s modified its input", name[op]); }
    else { in::Exact<T> x(a, 0), y(b, 0); run<T>(op, (const T*)x.begin(), (const T*)x.end(), (const T*)y.begin(), x.begin(), cs); compare<T>(c, key, x, want, tol, in); intact<T>(c, name[op], y, b); }   // in place
}
SCENARIO(lengths_shapes, 8) {
    const int op = c.choose(OPS, "operation"), scale = op == CONV ? 0 : c.choose(3, "scale"), dbl = c.choose(2, "type"), iter = c.choose(3, "iterators"); const auto n = c.pick(in::sizes(c.thorough()), "length");
    const int s = c.choose(in::SHAPES, "shape"); int s2 = op == AUTO ? s : c.pick({0, 2, 5}, "shape 2");
    if (dbl) pair<double>(c, op, in::shape(s, n), in::shape(s2, n), scale, iter, in::shape_name(s)); else pair<float>(c, op, in::shape(s, n), in::shape(s2, n), scale, iter, in::shape_name(s));
}
SCENARIO(long_inputs, 8) {
    const int op = c.choose(OPS, "operation"), scale = op == CONV ? 0 : c.choose(3, "scale"), dbl = c.choose(2, "type"); const auto n = (size_t)c.pick(long_lengths(c.thorough()), "length"); if (n > 200000) throw mc::Prune{};
    const int s = c.pick({0, 5}, "shape"), s2 = op == AUTO ? s : 0; c.split();
    if (dbl) pair<double>(c, op, in::shape(s, n), in::shape(s2, n), scale, 0, in::shape_name(s)); else pair<float>(c, op, in::shape(s, n), in::shape(s2, n), scale, 0, in::shape_name(s));
}
SCENARIO(magnitudes, 8) {
    const int op = c.choose(OPS, "operation"), scale = op == CONV ? 0 : c.choose(3, "scale"), dbl = c.choose(2, "type"), s = c.pick({0, 2, 5}, "shape"), e = dbl ? c.pick(in::scales<double>(), "exponent") : c.pick(in::scales<float>(), "exponent"), other = op == AUTO ? e : c.pick({e, 0, -e}, "exponent 2"); if (std::abs(e) > (dbl ? 900 : 100) || std::abs(e + other) > (dbl ? 900 : 90)) return;
    char in[64]; snprintf(in, sizeof in, "%s times 2^%d and 2^%d", in::shape_name(s), e, other); const auto n = (size_t)c.pick({1, 2, 9, 32}, "length"); const auto a = in::scaled<double>(s, n, e), b = op == AUTO ? a : in::scaled<double>(0, n, other); if (dbl) pair<double>(c, op, a, b, scale, 0, in); else pair<float>(c, op, a, b, scale, 0, in);
}
SCENARIO(basis_pairs, 8) {           // bilinear maps are determined by pairs of basis vectors
    const int op = c.choose(2, "operation"), dbl = c.choose(2, "type"); const auto n = (size_t)c.range(1, c.tier(14, 28), "length"); const auto i = (size_t)c.choose((int)n), j = (size_t)c.choose((int)n); const int scale = op == CONV ? 0 : c.choose(3, "scale");
    std::vector<double> a(n, 0), b(n, 0); a[i] = 1; b[j] = -2; if (dbl) pair<double>(c, op, a, b, scale, 0, "basis"); else pair<float>(c, op, a, b, scale, 0, "basis");
}
SCENARIO(small_alphabet, 8) {
    const int op = c.choose(OPS, "operation"); const auto n = (size_t)c.range(1, c.tier(4, 5), "length"); auto a = in::word<double>(c, n, {0, 1, -2}); auto b = op == AUTO ? a : in::word<double>(c, n, {0, 1, -2});
    pair<double>(c, op, a, b, op == CONV ? 0 : c.choose(3, "scale"), 0, "words");
}
#ifdef NDEBUG
SCENARIO(huge_lags, 6) {             // more samples than a float can count
    const int op = c.pick({XCORR, AUTO}, "operation"), scale = c.choose(3, "scale"); const size_t n = 17u << 20; c.split(); c.nontrivial(1);
    const std::vector<size_t> ia = {0, 5, n / 2, n - 6, n - 1}, ib = op == AUTO ? ia : std::vector<size_t>{0, 3, n / 3}; std::vector<float> a(n, 0), b(op == AUTO ? 0 : n, 0), o(n, 77.f); for (auto i : ia) a[i] = 1; if (op != AUTO) for (auto i : ib) b[i] = 2;
    c.at("%s of %zu samples, scale %d", op == AUTO ? "autocorrelation" : "xcorr", n, scale); run<float>(op, (const float*)a.data(), (const float*)a.data() + n, (const float*)b.data(), o.data(), scale == 0 ? CorrelationScale::None : scale == 1 ? CorrelationScale::Biased : CorrelationScale::Unbiased);
    std::vector<float> w(n, 0); for (auto i : ia) for (auto j : ib) if (i >= j) w[i - j] += op == AUTO ? 1 : 2;
    for (size_t k = 0; k < n; ++k) { const double d = scale == 0 ? 1 : scale == 1 ? (double)n : (double)(n - k), want = w[k] / d; if (!(std::fabs(o[k] - want) <= 1e-4 / d)) { c.fail("huge", "%s of %zu samples, scale %d: lag %zu is %g, expected %g", op == AUTO ? "autocorrelation" : "xcorr", n, scale, k, o[k], want); return; } }
    c.check(true, "huge", "ok");
}
#endif
#elif defined(C16)
template <typename T> void hil(Ctx& c, const std::vector<double>& d, const char* in) {
    const size_t n = d.size(); auto x = in::cast<T>(d); in::Exact<T> src(x, 0); in::Exact<cx<T>> dst(n, 0, cx<T>(77)); c.at("hilbert n=%zu %s", n, in);
    edsp::hilbert((const T*)src.begin(), (const T*)src.end(), dst.begin());
    auto f = DFT(lift(x)); for (size_t k = 1; k < n; ++k) { if (2 * k < n) f[k] *= 2; else if (2 * k > n) f[k] = 0; }
    compare<T>(c, "hilbert", dst, DFT(f, true), 4 * eps<T>(n) * l2(x), in); intact<T>(c, "hilbert", src, x);
    std::list<T> l(x.begin(), x.end()); in::Exact<cx<T>> d2(n, 0, cx<T>(77)); edsp::hilbert(l.cbegin(), l.cend(), d2.begin()); compare<T>(c, "hilbert-list", d2, dst, 0, in);
}
template <typename T> void spec(Ctx& c, const std::vector<double>& d, const char* in) {
    const size_t n = d.size(); auto x = in::cast<T>(d); in::Exact<T> src(x, 0), dst(n / 2 + 1, 0, T(77)); c.at("spectrum n=%zu %s", n, in);
    edsp::spectrum((const T*)src.begin(), (const T*)src.end(), dst.begin());
    auto f = DFT(lift(x)); std::vector<ld> want; for (size_t k = 0; k <= n / 2; ++k) want.push_back(std::norm(f[k]));
    const ld t = eps<T>(n) * l2(x) * std::sqrt((ld)n); ld m = 0; for (auto& e : f) m = std::max(m, std::abs(e));
    compare<T>(c, "spectrum", dst, want, 4 * t * (m + t) + std::numeric_limits<T>::min(), in); intact<T>(c, "spectrum", src, x);
}
template <typename T> void ceps(Ctx& c, const std::vector<double>& d, const char* in) {
    const size_t n = d.size(); auto x = in::cast<T>(d); auto xl = lift(x); xl.resize(2 * n, 0); auto f = DFT(xl); ld lo = 1e300L; for (auto& e : f) lo = std::min(lo, std::abs(e));
    const ld t = eps<T>(2 * n) * l2(x) * std::sqrt(2 * (ld)n); if (!(lo > 16 * t)) return;   // the logarithm is not defined where the spectrum vanishes
    ld big = 0; for (auto& e : f) { e = std::log(std::abs(e)); big = std::max(big, std::abs(e)); }
    in::Exact<T> src(x, 0), dst(n, 0, T(77)); c.at("cepstrum n=%zu %s", n, in); c.nontrivial();
    edsp::cepstrum((const T*)src.begin(), (const T*)src.end(), dst.begin());
    auto want = DFT(f, true); want.resize(n); compare<T>(c, "cepstrum", dst, want, 2 * t / lo + 4 * eps<T>(2 * n) * (big + 1), in); intact<T>(c, "cepstrum", src, x);
}
static void one(Ctx& c, int op, int dbl, const std::vector<double>& v, const char* in) {
    if (op == 0) { if (dbl) hil<double>(c, v, in); else hil<float>(c, v, in); } else if (op == 1) { if (dbl) spec<double>(c, v, in); else spec<float>(c, v, in); } else { if (dbl) ceps<double>(c, v, in); else ceps<float>(c, v, in); }
}
SCENARIO(lengths_shapes, 8) { const int op = c.choose(3), dbl = c.choose(2); const auto n = c.pick(in::sizes(c.thorough())); const int s = c.choose(in::SHAPES); one(c, op, dbl, in::shape(s, n), in::shape_name(s)); }
SCENARIO(long_inputs, 8) { const int op = c.choose(3), dbl = c.choose(2); const auto n = (size_t)c.pick(long_lengths(c.thorough())); if (n > 200000) throw mc::Prune{}; c.split(); if (op == 2) { std::vector<double> v(n); double g = 3; for (auto& e : v) { e = g; g *= -0.7; } one(c, op, dbl, v, "decaying"); } else one(c, op, dbl, in::shape(0, n), "dense"); }
SCENARIO(magnitudes, 4) { const int op = c.choose(3), dbl = c.choose(2), s = c.pick({0, 1, 2, 5}, "shape"), e = dbl ? c.pick(in::scales<double>(), "exponent") : c.pick(in::scales<float>(), "exponent"); if (std::abs(e) > (dbl ? 900 : 100) || (op == 1 && std::abs(e) > (dbl ? 450 : 50))) return; char in[64]; snprintf(in, sizeof in, "%s times 2^%d", in::shape_name(s), e); one(c, op, dbl, in::scaled<double>(s, (size_t)c.pick({1, 2, 7, 16, 33}), e), in); }
SCENARIO(decaying, 8) { const int op = c.choose(3), dbl = c.choose(2); const auto n = c.pick(in::sizes(c.thorough())); const double r = c.pick({0.5, -0.7, 0.1}); std::vector<double> v(n); double g = 3; for (auto& e : v) { e = g; g *= r; } one(c, op, dbl, v, "decaying"); }
SCENARIO(basis_vectors, 8) { const int op = c.choose(3), dbl = c.choose(2); const auto n = (size_t)c.range(1, c.tier(32, 80)); std::vector<double> v(n, 0); v[(size_t)c.choose((int)n)] = c.pick({1.0, -2.0}); one(c, op, dbl, v, "basis vector"); }
SCENARIO(small_alphabet, 8) { const int op = c.choose(3); const auto n = (size_t)c.range(1, c.tier(6, 8)); auto w = in::word<double>(c, n, {0, 1, -2}); one(c, op, 1, w, mc::show(w).c_str()); }
#endif
