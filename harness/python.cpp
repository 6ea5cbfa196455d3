// C39: every function and class of the Python module, called through an embedded interpreter on enumerated arrays in every
// memory layout, against the C++ library on the same values, to 1e-10 of the largest value.
#include <stdexcept>
#include <cstdlib>
#include <cmath>
#include <complex>
#include <fstream>
#include <functional>
#include <unistd.h>
#include <boost/python.hpp>
#include <boost/python/numpy.hpp>
#include <edsp/algorithm.hpp>
#include <edsp/auditory/audspace.hpp>
#include <edsp/auditory/converter/bark2hertz.hpp>
#include <edsp/auditory/converter/cent2hertz.hpp>
#include <edsp/auditory/converter/erb2hertz.hpp>
#include <edsp/auditory/converter/hertz2bark.hpp>
#include <edsp/auditory/converter/hertz2cent.hpp>
#include <edsp/auditory/converter/hertz2erb.hpp>
#include <edsp/auditory/converter/hertz2mel.hpp>
#include <edsp/auditory/converter/mel2hertz.hpp>
#include <edsp/converter.hpp>
#include <edsp/core/system.hpp>
#include <edsp/feature/spectral/spectral_centroid.hpp>
#include <edsp/feature/spectral/spectral_crest.hpp>
#include <edsp/feature/spectral/spectral_decrease.hpp>
#include <edsp/feature/spectral/spectral_entropy.hpp>
#include <edsp/feature/spectral/spectral_flatness.hpp>
#include <edsp/feature/spectral/spectral_flux.hpp>
#include <edsp/feature/spectral/spectral_irregularity.hpp>
#include <edsp/feature/spectral/spectral_kurtosis.hpp>
#include <edsp/feature/spectral/spectral_rolloff.hpp>
#include <edsp/feature/spectral/spectral_skewness.hpp>
#include <edsp/feature/spectral/spectral_slope.hpp>
#include <edsp/feature/spectral/spectral_spread.hpp>
#include <edsp/feature/spectral/spectral_variation.hpp>
#include <edsp/feature/statistics/centroid.hpp>
#include <edsp/feature/statistics/crest.hpp>
#include <edsp/feature/statistics/decrease.hpp>
#include <edsp/feature/statistics/entropy.hpp>
#include <edsp/feature/statistics/flatness.hpp>
#include <edsp/feature/statistics/flux.hpp>
#include <edsp/feature/statistics/rolloff.hpp>
#include <edsp/feature/statistics/slope.hpp>
#include <edsp/feature/statistics/spread.hpp>
#include <edsp/feature/statistics/variation.hpp>
#include <edsp/feature/temporal/amdf.hpp>
#include <edsp/feature/temporal/asdf.hpp>
#include <edsp/feature/temporal/azcr.hpp>
#include <edsp/feature/temporal/duration.hpp>
#include <edsp/feature/temporal/energy.hpp>
#include <edsp/feature/temporal/leq.hpp>
#include <edsp/feature/temporal/power.hpp>
#include <edsp/feature/temporal/rms.hpp>
#include <edsp/feature/temporal/rssq.hpp>
#include <edsp/filter.hpp>
#include <edsp/io/decoder.hpp>
#include <edsp/io/encoder.hpp>
#include <edsp/io/metadata.hpp>
#include <edsp/io/resampler.hpp>
#include <edsp/oscillator.hpp>
#include <edsp/spectral/cepstrum.hpp>
#include <edsp/spectral/convolution.hpp>
#include <edsp/spectral/correlation.hpp>
#include <edsp/spectral/dct.hpp>
#include <edsp/spectral/dft.hpp>
#include <edsp/spectral/hartley.hpp>
#include <edsp/spectral/hilbert.hpp>
#include <edsp/spectral/spectrum.hpp>
#include <edsp/statistics.hpp>
#include <edsp/string/join.hpp>
#include <edsp/string/split.hpp>
#include <edsp/string/to_lower.hpp>
#include <edsp/string/to_upper.hpp>
#include <edsp/string/trim.hpp>
#include <edsp/windowing.hpp>
#include "inputs.hpp"
namespace bp = boost::python; namespace bn = boost::python::numpy; namespace es = edsp::statistics; namespace ew = edsp::windowing; namespace ft = edsp::feature::temporal; namespace fs = edsp::feature::statistics; namespace fp = edsp::feature::spectral; namespace au = edsp::auditory;
using mc::Ctx; typedef double T; typedef std::complex<double> Z; typedef std::vector<T> V; typedef std::string S; typedef bp::object O;
extern "C" PyObject* PyInit_pedsp();
static O *M, *H;   // the module; the helpers below
static const char* HELP = R"(
import numpy as np, sys
def make(raw, n, cplx, layout):
    w = 'c16' if cplx else 'f8'; half = 'c8' if cplx else 'f4'
    v = np.frombuffer(raw, dtype=w).copy()
    if layout == 0: return v
    if layout == 1: b = np.full(2 * n, 99, w); b[::2] = v; return b[::2]
    if layout == 2: return v[::-1].copy()[::-1]
    if layout == 3: b = np.full(n + 2, 99, w); b[1:n + 1] = v; return b[1:n + 1]
    if layout == 4: b = np.full((n, 3), 99, w); b[:, 1] = v; return b[:, 1]
    if layout == 5: return v.astype(half)
    if layout == 6: return v.astype('>' + w)
    if layout == 7: return v.real.astype('i8')
    if layout == 8: v.setflags(write=False); return v
    if layout == 9: b = np.zeros(16 * (n + 1), 'u1'); b[1:1 + 8 * n * (2 if cplx else 1)] = np.frombuffer(raw, 'u1'); return np.frombuffer(b.data, w, n, 1)
    if layout == 10: return np.broadcast_to(v[:1], (n,))
    if layout == 11: return v.real.astype('i2')[::-1]
    if layout == 12: return v.astype('G' if cplx else 'g')
def root(a):
    while getattr(a, 'base', None) is not None and isinstance(a.base, np.ndarray): a = a.base
    return a
def values(a, cplx): return np.ascontiguousarray(a, 'c16' if cplx else 'f8').tobytes()
def raw(a): return root(a).tobytes()
def array_of(r, want): return type(r) is np.ndarray and r.ndim == 1 and r.dtype == np.dtype(want) and r.flags.c_contiguous and r.flags.writeable and r.flags.owndata
def kind(r):
    return (type(r).__name__ + (' of %s %s' % (r.dtype, r.shape) if isinstance(r, np.ndarray) else ''))
def refs(a): return sys.getrefcount(a)
def wrong(k, n, cplx):
    v = np.ones(n, 'c16' if cplx else 'f8')
    return [np.float64(1), v.reshape(1, n), v.reshape(n, 1), np.ones((2, 2, 2)), list(v), None, 'text', np.array(['a'] * n), np.array([None] * n), 3, np.array(5.0), np.array([[]]), np.ones(n, 'c16')][k]
WRONG = ['a number', 'an array 1 x n', 'an array n x 1', 'an array 2 x 2 x 2', 'a list', 'None', 'a string', 'an array of strings', 'an array of objects', 'an integer', 'an array without dimensions', 'an empty array of two dimensions', 'an array of complex values']
def call(f, *args):
    try: return (0, f(*args))
    except Exception as e: return (1, type(e).__name__ + ': ' + str(e)[:200])
def sort(a): return np.sort(a)
)";
static void python() {
    if (M) return;
    setenv("PYTHONMALLOC", "malloc", 1); setenv("OPENBLAS_NUM_THREADS", "1", 1); setenv("PYTHONDONTWRITEBYTECODE", "1", 1); PyImport_AppendInittab("pedsp", PyInit_pedsp);
    PyConfig cfg; PyConfig_InitPythonConfig(&cfg); PyConfig_SetString(&cfg, &cfg.program_name, L"/opt/vp/venv/bin/python3"); cfg.install_signal_handlers = 0; cfg.parse_argv = 0; const PyStatus st = Py_InitializeFromConfig(&cfg); if (PyStatus_Exception(st)) { fprintf(stderr, "python does not start: %s\n", st.err_msg ? st.err_msg : ""); _exit(3); } PyConfig_Clear(&cfg);
    try { H = new O(bp::import("__main__").attr("__dict__")); bp::exec(HELP, *H, *H); M = new O(bp::import("pedsp")); } catch (const bp::error_already_set&) { PyErr_Print(); _exit(3); }
}
static O help(const char* name) { return (*H)[name]; }
static S error() { PyObject *t, *v, *b; PyErr_Fetch(&t, &v, &b); S m = "an exception"; if (v) { PyObject* s = PyObject_Str(v); if (s) m = PyUnicode_AsUTF8(s); Py_XDECREF(s); } Py_XDECREF(t); Py_XDECREF(v); Py_XDECREF(b); return m; }
#define GUARD(what, hist) catch (const bp::error_already_set&) { const S m = error(); c.check(false, what, "%sraises %s", S(hist).c_str(), m.c_str()); }
static S str(const O& o) { return bp::extract<S>(bp::str(o)); }
static S text(const O& bytes) { char* p; Py_ssize_t n; PyBytes_AsStringAndSize(bytes.ptr(), &p, &n); return S(p, n); }
static V flat(const O& a, bool cplx) { const S s = text(help("values")(a, cplx)); V v(s.size() / 8); if (!v.empty()) memcpy(v.data(), s.data(), v.size() * 8); return v; }
static O bytes(const void* p, size_t n) { return O(bp::handle<>(PyBytes_FromStringAndSize((const char*)p, n))); }
enum { LAYOUTS = 13 };
static const char* LAYOUT[] = {"contiguous", "every second", "reversed", "inner slice", "column", "single precision", "big endian", "64 bit integers", "read-only", "unaligned", "broadcast", "reversed 16 bit integers", "extended precision"};
static O make(const V& v, bool cplx, int layout) { return help("make")(bytes(v.data(), v.size() * 8), v.size() / (cplx ? 2 : 1), cplx, layout); }
static bool eq(double a, double b) { return memcmp(&a, &b, sizeof a) == 0 || (a != a && b != b); }
static bool near(double a, double b, double scale) { return eq(a, b) || std::fabs(a - b) <= 1e-10 * scale; }
static O resolve(const S& path) { O o = *M; size_t i = 0; while (i < path.size()) { const size_t d = std::min(path.find('.', i), path.size()); o = o.attr(path.substr(i, d - i).c_str()); i = d + 1; } return o; }
// result kinds: 'r' array of doubles, 'z' array of complex, 's' number, 't' tuple of arrays or numbers
struct Fn { const char* path; int arrays; bool cplx; int min_n; char kind; O (*py)(O& f, O& a, O& b, int n, T p); size_t (*no)(int); void (*ref)(T* a, T* b, int n, T* o, T p); bool differ; };
static size_t same_n(int n) { return n; } static size_t one(int) { return 1; } static size_t two_n(int n) { return 2 * n; } static size_t half(int n) { return 2 * (n / 2 + 1); } static size_t half_r(int n) { return n / 2 + 1; }
static Z* cz(T* p) { return reinterpret_cast<Z*>(p); }
#define FN(path, arrays, cplx, min, kind, PY, no, RE) {path, arrays, cplx, min, kind, [](O& f, O& A, O& B, int n, T p) -> O { return PY; }, no, [](T* a, T* b, int n, T* o, T p) { RE; }, false}
#define FD(path, arrays, cplx, min, kind, PY, no, RE) {path, arrays, cplx, min, kind, [](O& f, O& A, O& B, int n, T p) -> O { return PY; }, no, [](T* a, T* b, int n, T* o, T p) { RE; }, true}
static const std::vector<Fn>& fns() { static const std::vector<Fn> m = {
    FN("algorithm.scale", 1, 0, 0, 'r', f(A, p), same_n, edsp::amplifier(a, a + n, o, p)),
    FN("algorithm.scale_clip", 1, 0, 0, 'r', f(A, 1.5, -p * p, 1.0), same_n, edsp::amplifier(a, a + n, o, 1.5, -p * p, 1.0)),
    FN("algorithm.clip", 1, 0, 0, 'r', f(A, -p * p, 0.5), same_n, edsp::clipper(a, a + n, o, -p * p, 0.5)),
    FN("algorithm.ceil", 1, 0, 0, 'r', f(A), same_n, edsp::ceil(a, a + n, o)), FN("algorithm.floor", 1, 0, 0, 'r', f(A), same_n, edsp::floor(a, a + n, o)),
    FN("algorithm.round", 1, 0, 0, 'r', f(A), same_n, edsp::round(a, a + n, o)), FN("algorithm.trunc", 1, 0, 0, 'r', f(A), same_n, edsp::fix(a, a + n, o)), FN("algorithm.abs", 1, 0, 0, 'r', f(A), same_n, edsp::rectify(a, a + n, o)),
    FN("algorithm.normalize", 1, 0, 1, 'r', f(A), same_n, edsp::normalize(a, a + n, o)),
    FN("algorithm.linspace", 0, 0, 0, 'r', f(p, 3.0, n), same_n, edsp::linspace(o, p, 3.0, n)), FN("algorithm.logspace", 0, 0, 0, 'r', f(p, 2.0, n), same_n, edsp::logspace(o, p, 2.0, n)),
    FD("algorithm.concatenate", 2, 0, 0, 'r', f(A, B), two_n, { std::copy(a, a + n, o); std::copy(b, b + n, o + n); }),
    FN("algorithm.pad", 1, 0, 0, 'r', f(A, 2 * n), two_n, edsp::padder(a, a + n, o, o + 2 * n)), FN("algorithm.pad", 1, 0, 0, 'r', f(A, n), same_n, edsp::padder(a, a + n, o, o + n)),
    FD("algorithm.equal", 2, 0, 0, 's', f(A, B), one, *o = edsp::equal(a, a + n, b, b + n)), FN("algorithm.equal", 1, 0, 0, 's', f(A, A), one, *o = edsp::equal(a, a + n, a, a + n)),
    FN("algorithm.index_of", 1, 0, 0, 's', f(A, p), one, { *o = -1; for (int i = n; i-- > 0;) if (a[i] == p) *o = i; }),
    FN("algorithm.linear_search", 1, 0, 0, 's', f(A, p), one, { *o = -1; for (int i = n; i-- > 0;) if (a[i] == p) *o = i; }),
    FN("algorithm.binary_search", 1, 0, 0, 's', ([&] { O s = help("sort")(A); const int at = bp::extract<int>(f(s, p)); if (at < 0) return O(at); return O(bool(at < n && bp::extract<T>(O(s[at]).attr("__float__")())() == p)); }()), one, { *o = -1; for (int i = 0; i < n; ++i) if (a[i] == p) *o = 1; }),
    FN("converter.peak2peak", 1, 0, 1, 's', f(A), one, *o = edsp::peak2peak(a, a + n)), FN("converter.peak2rms", 1, 0, 1, 's', f(A), one, *o = edsp::peak2rms(a, a + n)),
    FN("converter.real2complex", 1, 0, 0, 'z', f(A), two_n, edsp::real2complex(a, a + n, cz(o))),
    FN("converter.ri2complex", 2, 0, 0, 'z', f(A, B), two_n, for (int i = 0; i < n; ++i) { o[2 * i] = a[i]; o[2 * i + 1] = b[i]; }),
    FN("converter.complex2real", 1, 1, 0, 't', f(A), two_n, for (int i = 0; i < n; ++i) { o[i] = a[2 * i]; o[n + i] = a[2 * i + 1]; }),
    FN("converter.db2mag", 0, 0, 1, 's', f(p), one, *o = edsp::db2mag(p)), FN("converter.db2pow", 0, 0, 1, 's', f(p), one, *o = edsp::db2pow(p)), FN("converter.mag2db", 0, 0, 1, 's', f(p), one, *o = edsp::mag2db(p)),
    FN("converter.pow2db", 0, 0, 1, 's', f(p), one, *o = edsp::pow2db(p)), FN("converter.deg2rad", 0, 0, 1, 's', f(p), one, *o = edsp::deg2rad(p)), FN("converter.rad2deg", 0, 0, 1, 's', f(p), one, *o = edsp::rad2deg(p)),
    FN("spectral.cepstrum", 1, 0, 1, 'r', f(A), same_n, edsp::cepstrum(a, a + n, o)), FN("spectral.conv", 2, 0, 1, 'r', f(A, B), same_n, edsp::conv(a, a + n, b, o)), FN("spectral.xcorr", 2, 0, 1, 'r', f(A, B), same_n, edsp::xcorr(a, a + n, b, o)),
    FN("spectral.dct", 1, 0, 1, 'r', f(A), same_n, edsp::dct(a, a + n, o)), FN("spectral.idct", 1, 0, 1, 'r', f(A), same_n, edsp::idct(a, a + n, o)), FN("spectral.hartley", 1, 0, 1, 'r', f(A), same_n, edsp::hartley(a, a + n, o)),
    FN("spectral.spectrum", 1, 0, 1, 'r', f(A), half_r, edsp::spectrum(a, a + n, o)), FN("spectral.hilbert", 1, 0, 1, 'z', f(A), two_n, edsp::hilbert(a, a + n, cz(o))),
    FN("spectral.rfft", 1, 0, 1, 'z', f(A), half, edsp::dft(a, a + n, cz(o))), FN("spectral.irfft", 1, 1, 2, 'r', f(A), [](int n) { return (size_t)(2 * (n - 1)); }, edsp::idft(cz(a), cz(a) + n, o)),
    FN("spectral.fft", 1, 1, 1, 'z', f(A), two_n, edsp::cdft(cz(a), cz(a) + n, cz(o))), FN("spectral.ifft", 1, 1, 1, 'z', f(A), two_n, edsp::cidft(cz(a), cz(a) + n, cz(o))),
    FN("statistics.kurtosis", 1, 0, 1, 's', f(A), one, *o = es::kurtosis(a, a + n)), FN("statistics.skewness", 1, 0, 1, 's', f(A), one, *o = es::skewness(a, a + n)),
#define MOM(k) FN("statistics.moment", 1, 0, 1, 's', f(A, k), one, *o = es::moment<k>(a, a + n))
    MOM(1), MOM(2), MOM(3), MOM(4), MOM(5), MOM(6), MOM(7), MOM(8),
#define GM(k) FN("statistics.generalized_mean", 1, 0, 1, 's', f(A, k), one, *o = es::generalized_mean(a, a + n, k))
    GM(-2), GM(-1), GM(1), GM(2), GM(3),
#define ST(py, cpp) FN("statistics." #py, 1, 0, 1, 's', f(A), one, *o = es::cpp(a, a + n))
    ST(geometric_mean, geometric_mean), ST(harmonic_mean, harmonic_mean), ST(max, max), ST(min, min), ST(max_abs, maxabs), ST(min_abs, minabs), ST(mean, mean), ST(median, median), ST(variance, variance), ST(standard_deviation, standard_deviation), ST(norm, norm),
    FN("statistics.peak", 1, 0, 1, 't', f(A), [](int) { return (size_t)2; }, { auto k = es::peak(a, a + n); o[0] = k.first; o[1] = k.second; }), FN("statistics.peak_abs", 1, 0, 1, 't', f(A), [](int) { return (size_t)2; }, { auto k = es::peakabs(a, a + n); o[0] = k.first; o[1] = k.second; }),
#define WIN(w) FN("windowing." #w, 0, 0, 1, 'r', f(n), same_n, ew::w(o, o + n))
    WIN(bartlett), WIN(blackman), WIN(blackman_harris), WIN(blackman_nutall), WIN(boxcar), WIN(flattop), WIN(hamming), WIN(hanning), WIN(triangular), WIN(welch), WIN(rectangular),
#define AU(w) FN("auditory." #w, 0, 0, 1, 's', f(p * p * 400), one, *o = au::w<T>(p * p * 400))
    AU(hertz2mel), AU(hertz2bark), AU(hertz2cent), AU(hertz2erb), AU(mel2hertz), AU(erb2hertz), FN("auditory.bark2hertz", 0, 0, 1, 's', f(p * p * 4), one, *o = au::bark2hertz<T>(p * p * 4)), FN("auditory.cent2hertz", 0, 0, 1, 's', f(p * 1000), one, *o = au::cent2hertz<T>(p * 1000)),
#define AS(w) FN("auditory." #w, 0, 0, 1, 'r', f(p * p * 10, 3000.0, n), same_n, au::w(o, o + n, p * p * 10, 3000.0))
    AS(erbspace), AS(barkspace), AS(centspace), AS(melspace),
#define TM(w) FN("temporal." #w, 1, 0, 1, 's', f(A), one, *o = ft::w(a, a + n))
    TM(rms), TM(power), TM(energy), TM(leq), TM(azcr), FN("temporal.rssq", 1, 0, 1, 's', f(A), one, *o = edsp::feature::rssq(a, a + n)),
    FN("temporal.duration", 1, 0, 1, 's', f(A, p * p * 100), one, *o = ft::duration(a, a + n, p * p * 100)), FN("temporal.effective_duration", 1, 0, 1, 's', f(A, 44100.0, p * p / 8), one, *o = ft::effective_duration(a, a + n, 44100.0, p * p / 8)),
    FN("temporal.amdf", 1, 0, 1, 'r', f(A), same_n, ft::amdf(a, a + n, o)), FN("temporal.asdf", 1, 0, 1, 'r', f(A), same_n, ft::asdf(a, a + n, o)),
#define S1(ns, w) FN(#w, 1, 0, 1, 's', f(A), one, *o = ns::w(a, a + n))
#define SS(w) FN("statistics." #w, 1, 0, 1, 's', f(A), one, *o = fs::w(a, a + n))
#define SS2(w) FN("statistics." #w, 2, 0, 1, 's', f(A, B), one, *o = fs::w(a, a + n, b))
    SS(centroid), SS(crest), SS(decrease), SS(entropy), SS(flatness), SS(spread), SS2(weighted_centroid), SS2(weighted_spread), SS2(slope), FN("statistics.flux", 2, 0, 1, 's', f(A, B), one, *o = (fs::flux<edsp::distances::euclidean, T*>(a, a + n, b))),
    FN("statistics.rolloff", 1, 0, 1, 's', f(A, p * p / 8), one, *o = fs::rolloff(a, a + n, p * p / 8)),
#define SP(w) FN("spectral.spectral_" #w, 1, 0, 1, 's', f(A), one, *o = fp::spectral_##w(a, a + n))
#define SP2(w) FN("spectral.spectral_" #w, 2, 0, 1, 's', f(A, B), one, *o = fp::spectral_##w(a, a + n, b))
    SP(crest), SP(kurtosis), SP(skewness), SP(entropy), SP(flatness), SP(irregularity), SP(decrease), SP2(centroid), SP2(spread), SP2(variation), SP2(flux), SP2(slope),
    FN("spectral.spectral_rolloff", 1, 0, 1, 's', f(A, p * p / 8), one, *o = fp::spectral_rolloff(a, a + n, p * p / 8)),
  }; return m; }
static V result(Ctx& c, const Fn& f, const O& r, const S& where) {
    V v; if (f.kind == 's') { bp::extract<T> e(r); if (!c.ok(e.check())) { c.fail(f.path, "%s gives %s instead of a number: %s", f.path, S(bp::extract<S>(help("kind")(r))).c_str(), where.c_str()); return v; } v.push_back(e()); return v; }
    if (f.kind == 't') { if (!c.ok(PyTuple_Check(r.ptr()))) { c.fail(f.path, "%s does not give a tuple: %s", f.path, where.c_str()); return v; } for (int i = 0; i < bp::len(r); ++i) { O e = r[i]; bp::extract<T> x(e); if (x.check()) v.push_back(x()); else { const V w = flat(e, false); v.insert(v.end(), w.begin(), w.end()); } } return v; }
    if (!c.ok(bp::extract<bool>(help("array_of")(r, f.kind == 'z' ? "c16" : "f8"))())) { c.fail(f.path, "%s gives %s instead of a new contiguous array: %s", f.path, S(bp::extract<S>(help("kind")(r))).c_str(), where.c_str()); return v; } return flat(r, f.kind == 'z');
}
static void compare(Ctx& c, const Fn& f, const V& va, const V& vb, int n, T p, int la, int lb) {
    const S where = "a = " + mc::show(va) + " " + LAYOUT[la] + (f.arrays > 1 ? ", b = " + mc::show(vb) + " " + LAYOUT[lb] : S()) + ", n = " + std::to_string(n) + ", parameter " + std::to_string(p); c.at("%s: %s", f.path, where.c_str());
    try {
        O A, B, fn = resolve(f.path); V ea, eb; S ra, rb; if (f.arrays > 0) { A = make(va, f.cplx, la); ea = flat(A, f.cplx); ra = text(help("raw")(A)); } if (f.arrays > 1) { B = make(vb, f.cplx, lb); eb = flat(B, f.cplx); rb = text(help("raw")(B)); }
        in::Exact<T> xa(ea, 0), xb(eb, 0), o(f.no(n), 0, 7.75); f.ref(xa.begin(), xb.begin(), n, o.begin(), p); const auto refs = Py_REFCNT(A.ptr());
        O r = f.py(fn, A, B, n, p); c.check(!PyErr_Occurred(), f.path, "%s leaves an error pending", f.path); c.check(f.arrays == 0 || Py_REFCNT(A.ptr()) == refs, f.path, "%s keeps %ld references to its argument", f.path, (long)(Py_REFCNT(A.ptr()) - refs));
        if (f.arrays > 0) c.check(text(help("raw")(A)) == ra, f.path, "%s changes its argument: %s", f.path, where.c_str()); if (f.arrays > 1) c.check(text(help("raw")(B)) == rb, f.path, "%s changes its second argument: %s", f.path, where.c_str());
        A = O(); B = O(); const V v = result(c, f, r, where); if (!c.ok(v.size() == o.size())) { c.fail(f.path, "%s gives %zu values, not %zu: %s", f.path, v.size(), o.size(), where.c_str()); return; }
        T scale = 0; for (T x : o) if (std::fabs(x) > scale && std::isfinite(x)) scale = std::fabs(x);
        for (size_t i = 0; i < v.size(); ++i) if (!c.ok(near(v[i], o[i], scale))) { c.fail(f.path, "%s: value %zu is %.17g, the library computes %.17g: %s", f.path, i, v[i], o[i], where.c_str()); break; }
    } catch (const bp::error_already_set&) { const S m = error(); c.check(false, f.path, "%s raises %s: %s", f.path, m.c_str(), where.c_str()); }
}
// every function on every word over a small alphabet (two arrays: every pair of words), every layout in turn
SCENARIO(words, 32) {
    python(); const auto& f = fns()[c.choose((int)fns().size(), "function")]; const int per = f.arrays * (f.cplx ? 2 : 1); const int n = c.range(f.min_n, per == 0 ? 12 : per == 1 ? c.tier(3, 5) : std::max(f.min_n, c.tier(1, 2)));
    V a(f.arrays > 0 ? n * (f.cplx ? 2 : 1) : 0), b(f.arrays > 1 ? n : 0); for (auto& x : a) x = c.pick({-1.5, 0.0, 1.0, 2.5, 1.0 / 3}); for (auto& x : b) x = c.pick({-1.5, 0.0, 1.0, 2.5, 1.0 / 3});
    const int layouts = f.arrays ? LAYOUTS : 1; for (T p : {1.0, -1.5, 2.5}) for (int l = 0; l < layouts; ++l) { if (l == 10 && n == 0) continue; compare(c, f, a, b, n, p, l, f.arrays > 1 ? (l + 5) % (n ? LAYOUTS : 10) : 0); }
}
// every function on structured inputs of every small length, every pair of layouts
SCENARIO(shapes, 32) {
    python(); const auto& f = fns()[c.choose((int)fns().size(), "function")]; const int la = f.arrays ? c.choose(LAYOUTS, "layout") : 0, lb = f.arrays > 1 ? c.choose(LAYOUTS, "second layout") : 0, k = f.arrays ? c.choose(c.tier(3, (int)in::SHAPES), "shape") : 0;
    static const std::vector<int> quick = {1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 129, 256, 1000}; std::vector<int> ns = quick; if (c.thorough()) { ns.clear(); for (auto n : in::sizes(false)) ns.push_back((int)n); }
    if (f.arrays > 1 && !c.thorough()) ns = {1, 2, 5, 8, 129, 300};
    for (int n : ns) if (n >= f.min_n) { V a = f.arrays > 0 ? in::shape(k * 2 % in::SHAPES, n * (f.cplx ? 2 : 1)) : V(), b = f.arrays > 1 ? in::shape((k + lb) % in::SHAPES, n) : V(); for (auto& x : a) x *= 3; for (auto& x : b) x *= 2; compare(c, f, a, b, n, 1.5, la, lb); }
}
SCENARIO(long_inputs, 32) {
    python(); const auto& f = fns()[c.choose((int)fns().size(), "function")]; const bool quadratic = strstr(f.path, "amdf") || strstr(f.path, "asdf"); const int n = c.pick({4097, 33000, 66000}, "length"), la = f.arrays ? c.pick({0, 2, 3}, "layout") : 0; c.split(); if (quadratic && n > 5000) { c.nontrivial(0); return; }
    V a = f.arrays > 0 ? in::shape(0, n * (f.cplx ? 2 : 1)) : V(), b = f.arrays > 1 ? in::shape(6, n) : V(); compare(c, f, a, b, n, 1.5, la, la);
}
// arrays of the wrong dimensions, kinds and lengths are refused with an exception, and the function still works afterwards
SCENARIO(wrong, 32) {
    python(); const auto& f = fns()[c.choose((int)fns().size(), "function")]; if (!f.arrays) { c.nontrivial(0); return; } const int n = c.pick({2, 3, 128}, "length"), pos = c.choose(f.arrays, "argument"), k = c.choose(17, "wrong argument"); const V good = in::shape(6, n * (f.cplx ? 2 : 1));
    O A = make(good, f.cplx, 0), B = make(good, f.cplx, 0), fn = resolve(f.path); S what; bool refuse = true; O bad;
    if (k < 13) { what = bp::extract<S>(help("WRONG")[k]); if (k == 12 && f.cplx) return; bad = help("wrong")(k, n, f.cplx); }
    else { const int m = k == 13 ? 0 : k == 14 ? n - 1 : k == 15 ? n + 1 : 2 * n; what = "an array of " + std::to_string(m) + " values"; bad = make(in::shape(6, m * (f.cplx ? 2 : 1)), f.cplx, 0); refuse = f.arrays == 2 && !f.differ; }
    c.at("%s with %s as argument %d, n = %d", f.path, what.c_str(), pos + 1, n); const S before = k < 13 && !bp::extract<bool>(bp::eval("lambda x: hasattr(x, 'tobytes')", *H)(bad))() ? S() : text(bad.attr("tobytes")());
    if (pos == 0) A = bad; else B = bad; bool raised = false; S message; long refs = Py_REFCNT(bad.ptr());
    try { O r = f.py(fn, A, B, n, 1.5); } catch (const bp::error_already_set&) { raised = true; PyObject *t, *v, *b; PyErr_Fetch(&t, &v, &b); const bool ordinary = PyErr_GivenExceptionMatches(t, PyExc_ValueError) || PyErr_GivenExceptionMatches(t, PyExc_TypeError) || PyErr_GivenExceptionMatches(t, PyExc_IndexError); c.check(ordinary, f.path, "%s given %s raises %s", f.path, what.c_str(), ((PyTypeObject*)t)->tp_name); Py_XDECREF(t); Py_XDECREF(v); Py_XDECREF(b); }
    if (S(f.path) != "algorithm.binary_search" || k >= 13) c.check(raised || !refuse, f.path, "%s accepts %s as argument %d, n = %d", f.path, what.c_str(), pos + 1, n); c.check(!PyErr_Occurred(), f.path, "%s given %s leaves an error pending", f.path, what.c_str());
    if (!before.empty()) c.check(text(bad.attr("tobytes")()) == before, f.path, "%s changes the refused argument", f.path); c.check(Py_REFCNT(bad.ptr()) == refs || k == 5 || k == 9 || k == 6, f.path, "%s keeps a reference to a refused argument", f.path);
    compare(c, f, good, f.arrays > 1 ? good : V(), n, 1.5, 0, 0);
}
// lengths of generated arrays, padding and concatenation
SCENARIO(lengths, 16) {
    python(); const char* gen[] = {"windowing.bartlett", "windowing.blackman", "windowing.blackman_harris", "windowing.blackman_nutall", "windowing.boxcar", "windowing.flattop", "windowing.hamming", "windowing.hanning", "windowing.triangular", "windowing.welch", "windowing.rectangular", "algorithm.linspace", "algorithm.logspace", "auditory.erbspace", "auditory.barkspace", "auditory.centspace", "auditory.melspace", "algorithm.pad", "algorithm.concatenate", "algorithm.equal"};
    const int k = c.choose(20, "function"), m = c.range(-2, c.tier(20, 40)); O f = resolve(gen[k]); c.at("%s with length %d", gen[k], m);
    if (k < 17) { O r = k < 11 ? help("call")(f, m) : help("call")(f, 1.0, 3.0, m); const bool raised = bp::extract<int>(r[0])() == 1; c.check(raised == (m < 0), gen[k], "%s of length %d %s", gen[k], m, raised ? str(r[1]).c_str() : "is accepted"); if (!raised) { O a = r[1]; c.check(bp::len(a) == m, gen[k], "%s of length %d has %d values", gen[k], m, (int)bp::len(a)); } return; }
    for (int n = 0; n <= c.tier(20, 40); ++n) { const V v = in::shape(0, n); O a = make(v, false, 0);
        if (k == 17) { O r = help("call")(f, a, m); const bool raised = bp::extract<int>(r[0])() == 1; c.check(raised == (m < n), gen[k], "padding %d values to %d %s", n, m, raised ? str(r[1]).c_str() : "is accepted"); if (!raised) { V w = v; w.resize(m); const V g = flat(O(r[1]), false); c.check(g.size() == w.size() && in::same(g.data(), w), gen[k], "padding %d values to %d gives %s", n, m, mc::show(g).c_str()); } }
        else if (m >= 0) { const V w = in::shape(2, m); O b = make(w, false, 0); if (k == 18) { V both = v; both.insert(both.end(), w.begin(), w.end()); const V g = flat(f(a, b), false); c.check(g.size() == both.size() && in::same(g.data(), both), gen[k], "concatenating %d and %d values gives %s", n, m, mc::show(g).c_str()); } else c.check(bp::extract<bool>(f(a, b))() == (v == w), gen[k], "equality of %d and %d values", n, m); } }
}
// moving filters: every history of samples, blocks, resets and resizes against the C++ filter
template <typename F> static void filters(Ctx& c, const char* name) {
    const int size = c.range(1, 3), depth = c.tier(4, 5); O cls = resolve(S("filter.") + name), obj = cls(size); F ref(size); S hist = S(name) + "(" + std::to_string(size) + "): "; std::vector<double> all; uint64_t at = 0;
    try { for (int k = 0; k < depth; ++k) {
        const int op = c.choose(5, "operation"); c.nontrivial(1);
        if (op == 0) { const double x = (double)((at += 7) % 5) - 1.5; hist += "sample " + std::to_string(x) + "; "; c.at("%s", hist.c_str()); const double got = bp::extract<T>(obj(x)), want = ref(x); c.check(eq(got, want), name, "%sgives %.17g, the library %.17g", hist.c_str(), got, want); }
        else if (op == 1) { const int b = c.choose(5, "block"), n = b == 0 ? 0 : b == 1 ? 1 : 4, l = b == 2 ? 2 : b == 3 ? 5 : b == 4 ? 6 : 0; V v(n); for (auto& x : v) x = (double)((at += 3) % 7) - 2.5; hist += "block of " + std::to_string(n) + " " + LAYOUT[l] + "; "; c.at("%s", hist.c_str()); O a = make(v, false, l); const V g = flat(obj.attr("filter")(a), false); V w(n); ref.filter(v.begin(), v.end(), w.begin()); bool same = g.size() == w.size(); for (int i = 0; same && i < n; ++i) same = eq(g[i], w[i]); c.check(same && flat(a, false) == v, name, "%sgives %s, the library %s", hist.c_str(), mc::show(g).c_str(), mc::show(w).c_str()); }
        else if (op == 2) { hist += "reset; "; c.at("%s", hist.c_str()); obj.attr("reset")(); ref.reset(); }
        else if (op == 3) { const int m = c.pick({1, 2, 4}, "size"); hist += "resize " + std::to_string(m) + "; "; c.at("%s", hist.c_str()); obj.attr("resize")(m); ref.resize(m); }
        else { hist += "block of wrong dimensions; "; c.at("%s", hist.c_str()); O r = help("call")(O(obj.attr("filter")), help("wrong")(c.pick({1, 7}, "wrong"), 3, false)); c.check(bp::extract<int>(r[0])() == 1, name, "%sis accepted", hist.c_str()); }
        c.check(bp::extract<long>(obj.attr("size")())() == (long)ref.size(), name, "%ssize %ld, the library %ld", hist.c_str(), (long)bp::extract<long>(obj.attr("size")()), (long)ref.size());
    } } GUARD(name, hist)
}
SCENARIO(moving_filters, 32) { python(); const int k = c.choose(3, "filter"); if (k == 0) filters<edsp::filter::moving_median<T>>(c, "MovingMedianFilter"); else if (k == 1) filters<edsp::filter::moving_average<T>>(c, "MovingAverageFilter"); else filters<edsp::filter::moving_rms<T>>(c, "MovingRmsFilter"); }
// scalar arguments outside the domain raise and leave everything usable
SCENARIO(arguments, 16) {
    python(); c.nontrivial(1); const char* cls[] = {"MovingMedianFilter", "MovingAverageFilter", "MovingRmsFilter"}; const char* bad[] = {"0", "-1", "0.5", "-0.5", "0.0", "float('nan')", "float('inf')", "-float('inf')", "1e30", "-1e30", "None", "'3'"}; const int kind = c.choose(5, "kind"); S what; O r;
    if (kind == 0) { const int k = c.choose(3, "filter"), b = c.choose(12, "length"); what = S(cls[k]) + "(" + bad[b] + ")"; c.at("%s", what.c_str()); r = help("call")(resolve(S("filter.") + cls[k]), bp::eval(bad[b], *H)); c.check(bp::extract<int>(r[0])() == 1, cls[k], "%s is accepted", what.c_str()); }
    else if (kind == 1) { const int k = c.choose(3, "filter"), n = c.range(1, 3, "length"); const S b = c.pick({"0", "-1", "None", "'3'", "2 ** 70"}, "new length"); what = S(cls[k]) + "(" + std::to_string(n) + ").resize(" + b + ")"; c.at("%s", what.c_str()); try { O f = resolve(S("filter.") + cls[k])(n), g = resolve(S("filter.") + cls[k])(n); f(1.5); g(1.5); r = help("call")(O(f.attr("resize")), bp::eval(b.c_str(), *H)); c.check(bp::extract<int>(r[0])() == 1, cls[k], "%s is accepted", what.c_str()); for (double x : {0.5, -2.0, 3.0, 1.0}) c.check(eq(bp::extract<T>(f(x)), bp::extract<T>(g(x))) && bp::extract<long>(f.attr("size")())() == n, cls[k], "%s is refused but changes the filter", what.c_str()); } GUARD(cls[k], what) }
    else if (kind == 2) { const S e = c.pick({"core.get_environment(None)", "core.exist_environment(None)", "core.set_environment(None, 'x')", "core.set_environment('MC_PY_C', None)", "core.set_environment(None, None)", "core.get_environment(3)", "core.exist_environment(3)", "core.set_environment('MC_PY_C', 3)"}, "call"); c.at("%s", e.c_str()); bp::dict d; d["core"] = M->attr("core"); try { bp::eval(e.c_str(), d); c.check(false, "environment", "%s is accepted", e.c_str()); } catch (const bp::error_already_set&) { PyErr_Clear(); } c.check(!getenv("MC_PY_C"), "environment", "%s sets a variable", e.c_str()); }
    else if (kind == 3) { const char* ch[] = {"0", "1", "129", "2 ** 31 - 1", "2 ** 31", "2 ** 31 + 2", "2 ** 32", "2 ** 32 + 1", "2 ** 63", "2 ** 64", "-1", "None"}; const char* ra[] = {"0", "-1", "0.5", "1", "256", "257", "float('nan')", "float('inf')", "1e30"}; const char* qu[] = {"BestQuality", "MediumQuality", "Fastest", "ZeroOrderHold", "Linear"}; const int i = c.choose(12, "channels"), j = c.choose(9, "ratio"), q = c.choose(5, "quality"); if (i == 3 && q > 2) return;   // a state of that size is the caller's wish
        what = S("Resampler(") + ch[i] + ", " + qu[q] + ", " + ra[j] + ")"; c.at("%s", what.c_str()); r = help("call")(resolve("io.Resampler"), bp::eval(ch[i], *H), O(resolve("io.ResampleQuality").attr(qu[q])), bp::eval(ra[j], *H)); c.check(bp::extract<int>(r[0])() == 0 || i >= 8, "Resampler", "%s raises %s", what.c_str(), i >= 8 ? "" : str(r[1]).c_str());
        if (bp::extract<int>(r[0])() == 0) { O o = r[1]; if (i != 1) c.check(bp::extract<int>(o.attr("error")())() != 0 || i == 2 || i == 3, "Resampler", "%s reports no error", what.c_str()); help("call")(O(o.attr("error_string"))); help("call")(O(o.attr("ratio"))); help("call")(O(o.attr("reset"))); if (i < 2 && j < 6) help("call")(O(o.attr("process")), make(V{0.5, 1, -1}, false, 5)); } }
    else { const char* os[] = {"Sinusoidal(1.0, 8.0, 1.0, 0.0)", "Square(1.0, 8.0, 1.0, 0.5)", "Sawtooth(1.0, 8.0, 1.0, 0.5)", "Triangular(1.0, 8.0, 1.0)"}; const int k = c.choose(4, "oscillator"); const S n = c.pick({"0", "-1", "None", "2 ** 70", "1.5", "3"}, "N"); what = S(os[k]) + ".generate(" + n + ")"; c.at("%s", what.c_str()); bp::dict d; d["o"] = M->attr("oscillator"); try { O o = bp::eval((S("o.") + os[k]).c_str(), d); r = help("call")(O(o.attr("generate")), bp::eval(n.c_str(), *H)); if (n == "0" || n == "3") c.check(bp::extract<int>(r[0])() == 0 && bp::len(r[1]) == (n == "3" ? 3 : 0), "generate", "%s fails", what.c_str()); else c.check(bp::extract<int>(r[0])() == 1, "generate", "%s is accepted", what.c_str()); } GUARD("generate", what) }
    c.check(!PyErr_Occurred(), "pending", "an error is pending after %s", what.c_str());
}
// oscillators: every history of settings and blocks against the C++ oscillator
template <typename R> static void shape_param(std::false_type, O&, R&, Ctx&, S&) {}
template <typename R> static void set_shape(O& o, edsp::oscillators::square_oscillator<T>& r, T v) { o.attr("set_duty")(v); r.set_duty(v); }
template <typename R> static void set_shape(O& o, edsp::oscillators::sawtooth_oscillator<T>& r, T v) { o.attr("set_width")(v); r.set_width(v); }
template <typename R> static void set_shape(O&, edsp::oscillators::sin_oscillator<T>&, T) {}
static double get_shape(O& o, edsp::oscillators::square_oscillator<T>& r, T& w) { w = r.duty(); return bp::extract<T>(o.attr("duty")()); }
static double get_shape(O& o, edsp::oscillators::sawtooth_oscillator<T>& r, T& w) { w = r.width(); return bp::extract<T>(o.attr("width")()); }
static double get_shape(O&, edsp::oscillators::sin_oscillator<T>&, T& w) { return w = 0; }
template <typename R> static void oscillators(Ctx& c, const char* name, O obj, R ref) {
    const int depth = c.tier(4, 6); S hist = S(name) + ": ";
    try { for (int k = 0; k < depth; ++k) {
        const int op = c.choose(8, "operation"); const T v = op < 5 || op == 7 ? c.pick({0.25, 0.75}, "value") : 0; c.nontrivial(1); char buf[80];
        snprintf(buf, sizeof buf, "%s %g; ", (const char*[]){"amplitude", "frequency", "phase", "rate", "timestamp", "reset", "generate", "shape"}[op], v); hist += buf; c.at("%s", hist.c_str());
        switch (op) { case 0: obj.attr("set_amplitude")(v); ref.set_amplitude(v); break; case 1: obj.attr("set_frequency")(v * 40); ref.set_frequency(v * 40); break; case 2: obj.attr("set_phase")(v); ref.set_phase(v); break; case 3: obj.attr("set_sample_rate")(v * 400); ref.set_sample_rate(v * 400); break; case 4: obj.attr("set_timestamp")(v); ref.set_timestamp(v); break; case 5: obj.attr("reset")(); ref.reset(); break;
            case 6: { const int n = c.pick({0, 3}, "samples"); const V g = flat(obj.attr("generate")(n), false); V w(n); for (auto& x : w) x = ref(); bool same = g.size() == w.size(); for (int i = 0; same && i < n; ++i) same = eq(g[i], w[i]); c.check(same, name, "%sgives %s, the library %s", hist.c_str(), mc::show(g).c_str(), mc::show(w).c_str()); break; }
            default: set_shape<R>(obj, ref, v); }
        const char* q[] = {"amplitude", "frequency", "phase", "sample_rate", "timestamp"}; const T want[] = {ref.amplitude(), ref.frequency(), ref.phase(), ref.sample_rate(), ref.timestamp()}; for (int i = 0; i < 5; ++i) c.check(eq(bp::extract<T>(obj.attr(q[i])()), want[i]), name, "%s%s is %g, the library %g", hist.c_str(), q[i], (T)bp::extract<T>(obj.attr(q[i])()), want[i]);
        T w; const T g = get_shape(obj, ref, w); c.check(eq(g, w), name, "%sthe shape is %g, the library %g", hist.c_str(), g, w);
    } } GUARD(name, hist)
}
SCENARIO(oscillator_classes, 32) {
    python(); namespace eo = edsp::oscillators; switch (c.choose(4, "oscillator")) { case 0: oscillators(c, "Sinusoidal", resolve("oscillator.Sinusoidal")(0.5, 100.0, 12.5, 0.25), eo::sin_oscillator<T>(0.5, 100.0, 12.5, 0.25)); break; case 1: oscillators(c, "Square", resolve("oscillator.Square")(0.5, 100.0, 12.5, 0.25), eo::square_oscillator<T>(0.5, 100.0, 12.5, 0.25)); break;
        case 2: oscillators(c, "Sawtooth", resolve("oscillator.Sawtooth")(0.5, 100.0, 12.5, 0.25), eo::sawtooth_oscillator<T>(0.5, 100.0, 12.5, 0.25)); break; default: oscillators(c, "Triangular", resolve("oscillator.Triangular")(0.5, 100.0, 12.5), eo::triangular_oscillator<T>(0.5, 100.0, 12.5)); }
}
// strings
static O pystr(const S& s) { return O(bp::handle<>(PyUnicode_DecodeUTF8(s.data(), s.size(), nullptr))); }
static S cpp(const O& o) { Py_ssize_t n; const char* p = PyUnicode_AsUTF8AndSize(o.ptr(), &n); return p ? S(p, n) : S("<no string>"); }
SCENARIO(strings, 16) {
    python(); const int n = c.range(0, c.tier(4, 6)); S s; for (int i = 0; i < n; ++i) s += c.pick<const char*>({" ", "a", "Z", ",", "\xC3\xA9", "\t"}); O u = pystr(s); c.at("string functions on '%s'", s.c_str());
    auto run = [&](const char* f, S want) { const S got = cpp(resolve(S("string.") + f)(u)); c.check(got == want, f, "%s of '%s' is '%s', the library gives '%s'", f, s.c_str(), got.c_str(), want.c_str()); };
    { S w = s; edsp::string::trim(w); run("trim", w); } { S w = s; edsp::string::ltrim(w); run("ltrim", w); } { S w = s; edsp::string::rtrim(w); run("rtrim", w); }
    { S w; edsp::string::tolower(s.cbegin(), s.cend(), std::back_inserter(w)); run("to_lower", w); } { S w; edsp::string::toupper(s.cbegin(), s.cend(), std::back_inserter(w)); run("to_upper", w); }
    for (char d : {',', ' ', 'a'}) { std::vector<S> w; edsp::string::split(s, std::back_inserter(w), d); O l = resolve("string.split")(u, S(1, d)); std::vector<S> g; for (int i = 0; i < bp::len(l); ++i) g.push_back(cpp(O(l[i]))); c.check(PyList_Check(l.ptr()) && g == w, "split", "split of '%s' at '%c' gives %zu parts, the library %zu", s.c_str(), d, g.size(), w.size());
        bp::list parts; for (auto& x : w) parts.append(pystr(x)); S j; edsp::string::join(w.cbegin(), w.cend(), j, d); const S got = cpp(resolve("string.join")(parts, S(1, d))); c.check(got == j, "join", "join of %zu parts with '%c' gives '%s', the library '%s'", w.size(), d, got.c_str(), j.c_str()); }
    if (n == 0) { bp::list l; l.append(1); for (O bad : {O(), O(3), O(l), O(2.5)}) { for (const char* f : {"trim", "ltrim", "rtrim", "to_lower", "to_upper"}) c.check(bp::extract<int>(help("call")(resolve(S("string.") + f), bad)[0])() == 1, f, "%s accepts %s", f, str(bad).c_str()); c.check(bp::extract<int>(help("call")(resolve("string.join"), bad, ",")[0])() == 1, "join", "join accepts %s", str(bad).c_str()); c.check(bp::extract<int>(help("call")(resolve("string.split"), bad, ",")[0])() == 1, "split", "split accepts %s", str(bad).c_str()); c.check(bp::extract<int>(help("call")(resolve("string.split"), "a", bad)[0])() == 1, "split", "split accepts the delimiter %s", str(bad).c_str()); } }
}
// the environment, every history over two names
SCENARIO(environment, 8) {
    python(); const char* names[] = {"MC_PY_A", "MC_PY_B"}; const char* values[] = {"", "x", "a value = with spaces"}; const int depth = c.tier(5, 7); S now[2], hist; bool set[2] = {false, false}; unsetenv(names[0]); unsetenv(names[1]); O get = resolve("core.get_environment"), put = resolve("core.set_environment"), has = resolve("core.exist_environment");
    try { for (int k = 0; k < depth; ++k) {
        mc::Hash h; for (int i = 0; i < 2; ++i) h << set[i] << now[i]; c.state(h.value(), depth - k); const int op = c.choose(3, "operation"), i = c.choose(2, "name"); c.nontrivial(1);
        if (op == 0) { const char* v = values[c.choose(3, "value")]; hist += S("set ") + names[i] + "='" + v + "'; "; c.at("%s", hist.c_str()); put(names[i], v); set[i] = true; now[i] = v; c.check(getenv(names[i]) && now[i] == getenv(names[i]), "set", "%sis not in the environment", hist.c_str()); }
        else if (op == 1) { hist += S("get ") + names[i] + "; "; c.at("%s", hist.c_str()); O r = get(names[i]); const S v = bp::extract<S>(r[0]); const int e = bp::extract<int>(r[1]); c.check(set[i] ? v == now[i] && e == 0 : v.empty() && e != 0, "get", "%sgives '%s', error %d", hist.c_str(), v.c_str(), e); }
        else { hist += S("exists ") + names[i] + "; "; c.at("%s", hist.c_str()); c.check(bool(bp::extract<bool>(bp::eval("bool", *H)(has(names[i])))()) == set[i], "exist", "%sis wrong", hist.c_str()); }
    } } GUARD("environment", hist)
}
// files: histories of encoder and decoder operations in lock step with the C++ classes
static S scratch(const char* name) { const char* d = getenv("MC_SCRATCH"); return S(d ? d : "/tmp") + "/py-" + std::to_string(getpid()) + "-" + name; }
// the whole file except the creation time that libsndfile stores in the PEAK chunk (the two files may be written in different seconds)
static S slurp(const S& p) { std::ifstream f(p, std::ios::binary); S s(std::istreambuf_iterator<char>(f), {}); const size_t k = s.find("PEAK"); if (k != S::npos && k + 16 <= s.size()) for (size_t i = 12; i < 16; ++i) s[k + i] = 0; return s; }
SCENARIO(files, 32) {
    python(); const int ch = c.pick({1, 2}, "channels"), depth = c.tier(5, 6); const S p1 = scratch("a.wav"), p2 = scratch("b.wav"), bad = scratch("none") + "/x.wav"; unlink(p1.c_str()); unlink(p2.c_str()); S hist = "Encoder(8000, " + std::to_string(ch) + "): ";
    try { O e = resolve("io.Encoder")(8000, ch); edsp::io::encoder<float> r(8000, ch); uint64_t at = 0;
      for (int k = 0; k < depth - 1; ++k) { const int op = c.choose(5, "operation"); c.nontrivial(1);
        if (op == 0) { hist += "open; "; c.at("%s", hist.c_str()); const bool g = bp::extract<bool>(e.attr("open")(p1)), w = r.open(p2); c.check(g == w, "Encoder", "%sgives %d, the library %d", hist.c_str(), g, w); } else if (op == 1) { hist += "open an impossible path; "; c.at("%s", hist.c_str()); const bool g = bp::extract<bool>(e.attr("open")(bad)), w = r.open(bad); c.check(g == w, "Encoder", "%sgives %d, the library %d", hist.c_str(), g, w); }
        else if (op == 2) { hist += "close; "; c.at("%s", hist.c_str()); e.attr("close")(); r.close(); }
        else if (op == 3) { const int nl = c.pick({0, 3, 40, 41, 42, 43, 44, 45, 3000}, "samples and layout"), n = nl / 10, l = nl % 10; std::vector<float> v(n); for (auto& x : v) x = (float)((int)((at += 37) % 64) - 32) / 64; hist += "write " + std::to_string(n) + "; "; c.at("%s", hist.c_str()); O a = make(V(v.begin(), v.end()), false, 0).attr("astype")(l == 3 ? "f8" : l == 4 ? "g" : l == 5 ? ">f8" : "f4"); if (l == 1) a = bp::eval("lambda a: np.repeat(a, 2)[::2]", *H)(a); if (l == 2) a = bp::eval("lambda a: a[::-1].copy()[::-1]", *H)(a); const long g = bp::extract<long>(e.attr("write")(a)), w = r.write(v.begin(), v.end()); c.check(g == w, "Encoder", "%sreports %ld, the library %ld", hist.c_str(), g, w); }
        else { hist += "write a matrix; "; c.at("%s", hist.c_str()); c.check(bp::extract<int>(help("call")(O(e.attr("write")), help("wrong")(1, 3, false))[0])() == 1, "Encoder", "%sis accepted", hist.c_str()); }
        c.check(bp::extract<bool>(e.attr("is_open")())() == r.is_open() && bp::extract<long>(e.attr("channels")())() == r.channels() && bp::extract<double>(e.attr("samplerate")())() == r.sample_rate(), "Encoder", "%sthe queries differ from the library", hist.c_str()); } } GUARD("Encoder", hist)
    const S f1 = slurp(p1), f2 = slurp(p2); c.check(f1 == f2, "Encoder", "%sthe file differs from the library's (%zu and %zu bytes)", hist.c_str(), f1.size(), f2.size()); unlink(p1.c_str()); unlink(p2.c_str());
}
SCENARIO(reading, 32) {
    python(); const int ch = c.pick({1, 2, 3}, "channels"), frames = c.pick({0, 5, 400}, "frames"), depth = c.tier(5, 6); const S p = scratch("r.wav"); { edsp::io::encoder<float> e(8000, ch); e.open(p); std::vector<float> v((size_t)(frames * ch)); for (size_t i = 0; i < v.size(); ++i) v[i] = (float)((int)(i * 37 % 64) - 32) / 64; e.write(v.begin(), v.end()); }
    S hist = "Decoder of " + std::to_string(frames) + " x " + std::to_string(ch) + ": "; O d = resolve("io.Decoder")(); edsp::io::decoder<float> r;
    try { for (int k = 0; k < depth; ++k) { const int op = c.choose(5, "operation"); c.nontrivial(1);
        if (op == 0) { hist += "open; "; c.at("%s", hist.c_str()); const bool g = bp::extract<bool>(d.attr("open")(p)), w = r.open(p); c.check(g == w, "Decoder", "%sgives %d, the library %d", hist.c_str(), g, w); } else if (op == 1) { hist += "open nothing; "; c.at("%s", hist.c_str()); const bool g = bp::extract<bool>(d.attr("open")(p + ".none")), w = r.open(p + ".none"); c.check(g == w, "Decoder", "%sgives %d, the library %d", hist.c_str(), g, w); }
        else if (op == 2) { hist += "close; "; c.at("%s", hist.c_str()); d.attr("close")(); r.close(); }
        else if (op == 3) { const int to = c.pick({0, 3}, "frame"); hist += "seek " + std::to_string(to) + "; "; c.at("%s", hist.c_str()); const long g = bp::extract<long>(d.attr("seek")(to)), w = r.seek(to); c.check(g == w, "Decoder", "%sgives %ld, the library %ld", hist.c_str(), g, w); }
        else { const int n = c.pick({0, 6, 1200}, "samples"); hist += "read " + std::to_string(n) + "; "; c.at("%s", hist.c_str()); O a = d.attr("read")(n); std::vector<float> w((size_t)n); const long got = r.read(w.begin(), w.end()); w.resize((size_t)got); const long c2 = std::max<long>(r.channels(), 1); c.check(bp::extract<long>(a.attr("shape")[0])() == got / c2 && bp::extract<long>(a.attr("shape")[1])() == c2, "Decoder", "%sgives shape %s for %ld samples of %ld channels", hist.c_str(), str(a.attr("shape")).c_str(), got, c2); const V g = flat(a.attr("reshape")(-1), false); c.check(g == V(w.begin(), w.begin() + got / c2 * c2), "Decoder", "%sreads other samples than the library", hist.c_str()); }
        c.check(bp::extract<bool>(d.attr("is_open")())() == r.is_open() && bp::extract<long>(d.attr("channels")())() == r.channels() && bp::extract<long>(d.attr("frames")())() == r.frames() && bp::extract<bool>(d.attr("seekable")())() == r.seekable() && bp::extract<double>(d.attr("samplerate")())() == r.sample_rate(), "Decoder", "%sthe queries differ from the library", hist.c_str()); } } GUARD("Decoder", hist)
    unlink(p.c_str());
}
SCENARIO(resampling, 16) {
    python(); const int ch = c.pick({1, 2}, "channels"), q = c.choose(5, "quality"), depth = c.tier(3, 4); const float ratio = c.pick({0.5f, 1.f, 2.5f}, "ratio"); const char* names[] = {"BestQuality", "MediumQuality", "Fastest", "ZeroOrderHold", "Linear"}; O quality = resolve("io.ResampleQuality").attr(names[q]);
    O o = resolve("io.Resampler")(ch, quality, ratio); edsp::io::resampler<float> r(ch, (edsp::io::resample_quality)q, ratio); S hist = S("Resampler ") + names[q] + " x " + std::to_string(ratio) + ", " + std::to_string(ch) + " channels: "; uint64_t at = 0;
    try { for (int k = 0; k < depth; ++k) { const int op = c.choose(3, "operation"); c.nontrivial(1);
        if (op == 0) { hist += "reset; "; c.at("%s", hist.c_str()); const int g = bp::extract<int>(o.attr("reset")()), w = r.reset(); c.check(g == w, "Resampler", "%sgives %d, the library %d", hist.c_str(), g, w); }
        else if (op == 1) { const int nl = c.pick({0, 30, 33, 34, 4000, 4005}, "frames and type"), n = ch * (nl / 10), l = nl % 10; std::vector<float> v((size_t)n); for (auto& x : v) x = (float)((int)((at += 37) % 64) - 32) / 64; hist += "process " + std::to_string(n) + "; "; c.at("%s", hist.c_str()); O a = make(V(v.begin(), v.end()), false, 0).attr("astype")(l == 3 ? "f8" : l == 4 ? "g" : l == 5 ? ">f8" : "f4"); O t = o.attr("process")(a); in::Exact<float> out((size_t)((float)n * ratio) + 1, 0, 0.f); const auto w = r.process(v.begin(), v.end(), out.begin()); O y = t[0];
            c.check(bp::extract<long>(t[1])() == w.first && bp::extract<long>(y.attr("shape")[0])() == w.second && bp::extract<long>(y.attr("shape")[1])() == ch, "Resampler", "%suses %s and gives %s; the library uses %ld and gives %ld", hist.c_str(), str(t[1]).c_str(), str(y.attr("shape")).c_str(), w.first, w.second); const V g = flat(y.attr("reshape")(-1), false); V want; for (long i = 0; i < w.second * ch; ++i) want.push_back(out[(size_t)i]); c.check(g == want, "Resampler", "%sgives other samples than the library", hist.c_str()); }
        else { hist += "process a matrix; "; c.at("%s", hist.c_str()); c.check(bp::extract<int>(help("call")(O(o.attr("process")), help("wrong")(1, 3, false))[0])() == 1, "Resampler", "%sis accepted", hist.c_str()); }
        c.check(bp::extract<float>(o.attr("ratio")())() == ratio && bp::extract<int>(o.attr("error")())() == r.error() && S(bp::extract<S>(o.attr("error_string")())) == r.error_string().to_string() && bool(o.attr("quality")() == quality), "Resampler", "%sthe queries differ from the library", hist.c_str()); } } GUARD("Resampler", hist)
    for (float x : {-1.f, 0.f, 0.5f, 200.f, 300.f}) c.check(bp::extract<bool>(resolve("io.Resampler").attr("valid_ratio")(x))() == r.valid_ratio(x), "Resampler", "valid_ratio(%g)", x);
}
// inputs longer than a single-precision float counts (2^24 samples): the buffer for the result has to be as long as the result
SCENARIO(long_input, 4) {
    python(); const int ch = c.pick({1, 2}, "channels"), q = c.pick({3, 4}, "quality"), k = c.choose(3, "frames"); const long n = ch * ((16777216L >> (ch == 2)) + 1 + k) + (k == 2 ? ch - 1 : 0); const float ratio = c.pick({1.f, 0.5f, 0.1f}, "ratio"); const char* names[] = {"", "", "", "ZeroOrderHold", "Linear"}; c.nontrivial(1);
    c.at("Resampler %s x %g, %d channels, %ld samples", names[q], ratio, ch, n);
    try { O o = resolve("io.Resampler")(ch, O(resolve("io.ResampleQuality").attr(names[q])), ratio); edsp::io::resampler<float> r(ch, (edsp::io::resample_quality)q, ratio);
        bn::ndarray a = bp::extract<bn::ndarray>(bp::eval("lambda n: (np.arange(n, dtype='i4') % 61).astype('f4') / 64", *H)(n)); const float* v = (const float*)a.get_data(); O t = o.attr("process")(a); in::Exact<float> out((size_t)((double)ratio * (double)(n / ch)) * (size_t)ch, 0, 0.f); const auto w = r.process(v, v + n, out.begin());
        bn::ndarray y = bp::extract<bn::ndarray>(t[0]); c.check(bp::extract<long>(t[1])() == w.first && y.shape(0) == w.second && y.shape(1) == ch, "Resampler", "uses %s and gives %s; the library uses %ld and gives %ld", str(t[1]).c_str(), str(y.attr("shape")).c_str(), w.first, w.second);
        c.check(!memcmp(y.get_data(), &out[0], (size_t)(w.second * ch) * sizeof(float)), "Resampler", "gives other samples than the library"); } GUARD("Resampler", S("a long input"))
}
static S frame(const char* id, const S& t) { S p = S(1, '\x03') + t; return S(id) + S("\0\0\0", 3) + S(1, (char)p.size()) + S(2, '\0') + p; }
SCENARIO(metadata, 4) {
    python(); const int mask = c.choose(64, "fields"), set = c.choose(2, "values"); const char* v[2][6] = {{"Title", "Artist", "Album", "Jazz", "7", "1999"}, {"\xC3\xA9\xE2\x82\xAC", "a b", "x", "Own genre", "12", "2019"}}; const char* id[] = {"TIT2", "TPE1", "TALB", "TCON", "TRCK", "TDRC"}; S body; for (int i = 0; i < 6; ++i) if (mask >> i & 1) body += frame(id[i], v[set][i]);
    S f("\xFF\xFB\x90\x00", 4); f.resize(417, '\0'); const S p = scratch("m.mp3"); { std::ofstream o(p, std::ios::binary); o << "ID3" << S("\x04\0\0\0\0", 5) << (char)(body.size() >> 7) << (char)(body.size() & 127) << body << f << f << f << f; } c.at("MetaDataReader with fields %d of set %d", mask, set); c.nontrivial(1);
    O m = resolve("io.MetaDataReader")(p); auto want = [&](int i) { return mask >> i & 1 ? S(v[set][i]) : S(); }; const char* q[] = {"title", "artist", "album", "genre"}; for (int i = 0; i < 4; ++i) c.check(cpp(m.attr(q[i])()) == want(i), "MetaDataReader", "%s is '%s', not '%s'", q[i], cpp(m.attr(q[i])()).c_str(), want(i).c_str());
    c.check(bp::extract<long>(m.attr("track")())() == atol(want(4).c_str()) && bp::extract<long>(m.attr("year")())() == atol(want(5).c_str()), "MetaDataReader", "track %s, year %s", str(m.attr("track")()).c_str(), str(m.attr("year")()).c_str()); unlink(p.c_str());
}
// the module offers every documented name
SCENARIO(names, 1) {
    python(); c.nontrivial(1); c.at("module contents"); struct { const char* f; O want; } t[] = {{"core.get_major_version", O(0)}, {"core.get_minor_version", O(0)}, {"core.get_patch_version", O(1)}, {"core.get_version", O("0.0.1")}, {"core.get_fft_library", O("fftw")}, {"core.get_codec_library", O("sndfile")}, {"core.get_resample_library", O("samplerate")}};
    for (auto& e : t) { O g = resolve(e.f)(); c.check(bool(g == e.want), e.f, "%s gives %s", e.f, str(g).c_str()); }
}
