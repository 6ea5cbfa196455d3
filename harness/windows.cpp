// C17: window functions against their documented formulas, every length and type.
#include <stdexcept>
#include <edsp/windowing.hpp>
#include "inputs.hpp"
using mc::Ctx; typedef long double ld;
static const ld PI = 3.14159265358979323846264338327950288L;
using namespace edsp::windowing;
static ld cosines(std::initializer_list<ld> a, ld x) { ld s = 0; int k = 0; for (ld v : a) { s += (k % 2 ? -1 : 1) * v * std::cos(k * x); ++k; } return s; }
static const char* names[] = {"bartlett", "blackman", "blackman_harris", "blackman_nutall", "boxcar", "flattop", "hamming", "hanning", "rectangular", "triangular", "welch"};
static ld formula(int w, ld n, ld N) {
    const ld x = 2 * PI * n / (N - 1);
    switch (w) {
        case 0: return 1 - std::fabs((n - (N - 1) / 2) / ((N - 1) / 2));
        case 1: return cosines({0.42L, 0.5L, 0.08L}, x);
        case 2: return cosines({0.35875L, 0.48829L, 0.14128L, 0.01168L}, x);
        case 3: return cosines({0.3635819L, 0.4891775L, 0.1365995L, 0.0106411L}, x);
        case 5: return cosines({0.21557895L, 0.41663158L, 0.277263158L, 0.083578947L, 0.006947368L}, x);
        case 6: return cosines({0.54L, 0.46L}, x);
        case 7: return cosines({0.5L, 0.5L}, x);
        case 9: return 1 - std::fabs((n - (N - 1) / 2) / ((std::fmod(N, 2) ? N + 1 : N) / 2));
        case 10: { const ld q = (n - (N - 1) / 2) / ((N - 1) / 2); return 1 - q * q; }
    }
    return 1;
}
template <typename It> void direct(int w, It f, It l) {
    switch (w) { case 0: bartlett(f, l); break; case 1: blackman(f, l); break; case 2: blackman_harris(f, l); break; case 3: blackman_nutall(f, l); break; case 4: boxcar(f, l); break; case 5: flattop(f, l); break; case 6: hamming(f, l); break; case 7: hanning(f, l); break; case 8: rectangular(f, l); break; case 9: triangular(f, l); break; case 10: welch(f, l); break; }
}
template <typename It> void factory(int w, It f, It l) {
    switch (w) { case 0: make_window<WindowType::Bartlett>(f, l); break; case 1: make_window<WindowType::Blackman>(f, l); break; case 2: make_window<WindowType::BlackmanHarris>(f, l); break; case 3: make_window<WindowType::BlackmanNuttall>(f, l); break; case 4: make_window<WindowType::Boxcar>(f, l); break; case 5: make_window<WindowType::FlatTop>(f, l); break; case 6: make_window<WindowType::Hamming>(f, l); break; case 7: make_window<WindowType::Hanning>(f, l); break; case 8: make_window<WindowType::Rectangular>(f, l); break; case 9: make_window<WindowType::Triangular>(f, l); break; case 10: make_window<WindowType::Welch>(f, l); break; }
}
template <typename T, typename C> void verify(Ctx& c, int w, C& buf, size_t n) {
    // rounding: the argument of the cosines grows up to 8 pi and carries a relative error of a few eps
    const ld tol = 128 * std::max<ld>(std::numeric_limits<T>::epsilon(), std::numeric_limits<double>::epsilon()); size_t i = 0; std::vector<ld> got;
    for (auto& e : buf) got.push_back(e);
    for (; i < n; ++i) {
        if (!c.ok(std::fabs(got[i] - formula(w, i, n)) <= tol)) c.fail(names[w], "%s window of length %zu: element %zu is %.12Lg, expected %.12Lg", names[w], n, i, got[i], formula(w, i, n));
        if (!c.ok(std::fabs(got[i] - got[n - 1 - i]) <= tol)) c.fail(std::string(names[w]) + "-symmetry", "%s window of length %zu is not symmetric at %zu", names[w], n, i);
        if (!c.ok(got[i] <= 1 + tol + 1e-8L && got[i] >= (w == 5 ? -0.0706L : 0) - tol)) c.fail(std::string(names[w]) + "-range", "%s window of length %zu: element %zu = %Lg", names[w], n, i, got[i]);
    }
}
template <typename T> void one(Ctx& c, int w, size_t n, int how) {
    c.at("%s length %zu how %d size %zu", names[w], n, how, sizeof(T));
    if (how < 2) { in::Exact<T> b(n, 0, T(77)); if (how) factory(w, b.begin(), b.end()); else direct(w, b.begin(), b.end()); verify<T>(c, w, b, n); }
    else if (how == 2) { std::list<T> b(n, T(77)); direct(w, b.begin(), b.end()); verify<T>(c, w, b, n); }
    else { std::vector<T> b(n + 6, T(77)); direct(w, b.begin() + 3, b.begin() + 3 + (long)n); for (int k = 0; k < 3; ++k) if (!c.ok(b[k] == 77 && b[n + 3 + k] == 77)) c.fail("outside", "%s of length %zu wrote outside the range", names[w], n); std::vector<T> m(b.begin() + 3, b.begin() + 3 + (long)n); verify<T>(c, w, m, n); }
}
SCENARIO(every_length, 8) {
    const int w = c.choose(11, "window"), t = c.choose(3, "type"), how = c.choose(4, "call"); const auto n = (size_t)c.range(2, c.tier(260, 1100), "length");
    if (t == 0) one<double>(c, w, n, how); else if (t == 1) one<float>(c, w, n, how); else one<long double>(c, w, n, how);
}
SCENARIO(long_windows, 8) {
    const int w = c.choose(11, "window"), t = c.choose(2, "type"), how = c.choose(2, "call"); const auto n = (size_t)c.pick({511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 44100, 65535, 65536, 65537, 70001}, "length");
    if (t == 0) one<double>(c, w, n, how); else one<float>(c, w, n, how);
}
// longer than the odd numbers of a single-precision float: counters and positions kept in the element type stop or jump
#ifdef NDEBUG   // the same code is covered with assertions on by the shorter inputs
SCENARIO(huge_windows, 8) {
    const int w = c.choose(11, "window"), k = c.choose(c.tier(2, 4), "offset"); const size_t n = (1u << 25) + 11 + (size_t)k; c.at("%s length %zu", names[w], n); c.nontrivial(1);
    in::Exact<float> b(n, 0, 77.f); direct(w, b.begin(), b.end()); float* f = b.begin(); const double pi2 = 2 * 3.14159265358979323846;
    for (size_t i = 0; i < n; ++i) {   // every element against a double-precision formula; the cosines by the angle sum from cos(x)
        const double x = pi2 * (double)i / (double)(n - 1), q = ((double)i - (double)(n - 1) / 2) / ((double)(n - 1) / 2); double e = 1; if (w == 0) e = 1 - std::fabs(q); else if (w == 9) e = 1 - std::fabs((double)i - (double)(n - 1) / 2) / ((double)(n % 2 ? n + 1 : n) / 2); else if (w == 10) e = 1 - q * q;
        else if (w != 4 && w != 8) { const double c1 = std::cos(x), c2 = 2 * c1 * c1 - 1, c3 = c1 * (2 * c2 - 1), c4 = 2 * c2 * c2 - 1; switch (w) { case 1: e = 0.42 - 0.5 * c1 + 0.08 * c2; break; case 2: e = 0.35875 - 0.48829 * c1 + 0.14128 * c2 - 0.01168 * c3; break; case 3: e = 0.3635819 - 0.4891775 * c1 + 0.1365995 * c2 - 0.0106411 * c3; break; case 5: e = 0.21557895 - 0.41663158 * c1 + 0.277263158 * c2 - 0.083578947 * c3 + 0.006947368 * c4; break; case 6: e = 0.54 - 0.46 * c1; break; default: e = 0.5 - 0.5 * c1; } }
        if (!(std::fabs(f[i] - e) <= 2e-5)) { c.fail(names[w], "%s window of length %zu: element %zu is %g, expected %g", names[w], n, i, (double)f[i], e); break; }
    }
    c.check(true, "huge", "");
}
#endif
