// C11: oscillators against the closed form at an independently kept time.
#include <edsp/oscillator.hpp>
#include <memory>
#include "mc.hpp"
using mc::Ctx;
using namespace edsp::oscillators;
typedef long double ld;
static const ld PI = 3.14159265358979323846264338327950288L;
enum Kind { SIN, SQUARE, SAW, TRI };

struct Model { Kind k; ld amp, sr, f, p, t = 0;   // p: phase / duty / width
    ld at(ld t) const {
        if (k == SIN) return amp * std::sin(2 * PI * f * t + p);
        const ld x = f * t - std::floor(f * t);
        if (k == SQUARE) return x < p ? amp : -amp;
        return x < p ? amp * (2 * x / p - 1) : amp * (1 - 2 * (x - p) / (1 - p));
    } };
// a uniform face over the four classes
template <typename O> struct Extra { static void set(O&, ld) {} static bool get(const O&, ld) { return true; } };
template <typename T> struct Extra<sin_oscillator<T>> { static void set(sin_oscillator<T>& o, ld v) { o.set_phase(T(v)); } static bool get(const sin_oscillator<T>& o, ld v) { return o.phase() == T(v); } };
template <typename T> struct Extra<square_oscillator<T>> { static void set(square_oscillator<T>& o, ld v) { o.set_duty(T(v)); } static bool get(const square_oscillator<T>& o, ld v) { return mc::near(o.duty(), v, 4 * std::numeric_limits<T>::epsilon(), 0); } };
template <typename T> struct Extra<sawtooth_oscillator<T>> { static void set(sawtooth_oscillator<T>& o, ld v) { o.set_width(T(v)); } static bool get(const sawtooth_oscillator<T>& o, ld v) { return o.width() == T(v); } };
template <typename T> struct Extra<triangular_oscillator<T>> { static void set(triangular_oscillator<T>& o, ld v) { o.set_width(T(v)); } static bool get(const triangular_oscillator<T>& o, ld v) { return o.width() == T(v); } };
template <typename T, typename O> struct Maker { static O make(const Model& m) { return O(T(m.amp), T(m.sr), T(m.f), T(m.p)); } };
template <typename T> struct Maker<T, triangular_oscillator<T>> { static triangular_oscillator<T> make(const Model& m) { return triangular_oscillator<T>(T(m.amp), T(m.sr), T(m.f)); } };

template <typename T, typename O> void observe(Ctx& c, const O& o, const Model& m) {
    const ld e = 8 * std::numeric_limits<T>::epsilon();
    if (!c.ok(o.amplitude() == T(m.amp) && o.frequency() == T(m.f) && o.sample_rate() == T(m.sr) && mc::near(o.sampling_period(), 1 / m.sr, e, 0)))
        c.fail("accessors", "kind %d: amplitude %Lg frequency %Lg rate %Lg period %Lg, expected %Lg %Lg %Lg", m.k, (ld)o.amplitude(), (ld)o.frequency(), (ld)o.sample_rate(), (ld)o.sampling_period(), m.amp, m.f, m.sr);
    if (!c.ok(Extra<O>::get(o, m.p))) c.fail("accessors", "kind %d: phase / duty / width is not the one set (%Lg)", m.k, m.p);
    if (!c.ok(mc::near(o.timestamp(), m.t, e, e))) c.fail("timestamp", "kind %d: timestamp %.17Lg, expected %.17Lg", m.k, (ld)o.timestamp(), m.t);
}
template <typename T, typename O> void sample(Ctx& c, O& o, Model& m, ld dt) {
    const ld y = o(); const ld tol = m.amp * 64 * std::numeric_limits<T>::epsilon() * (1 + (m.k != SIN && dt == 0 ? 8 : 2 * PI * m.f * (m.t + 1))) + m.amp * 8 * m.f * dt / (m.k == SIN || m.k == SQUARE ? 1 : std::max<ld>(1e-3L, std::min(m.p > 0 ? m.p : 1, m.p < 1 ? 1 - m.p : 1)));
    if (!c.ok(std::fabs(y) <= m.amp * (1 + 4 * std::numeric_limits<T>::epsilon()) + tol)) c.fail("range", "kind %d: output %Lg exceeds the amplitude %Lg", m.k, y, m.amp);
    bool ok = std::fabs(y - m.at(m.t)) <= tol;
    if (!ok && dt > 0) ok = std::fabs(y - m.at(m.t + dt)) <= tol || std::fabs(y - m.at(m.t - dt)) <= tol;
    if (!c.ok(ok)) c.fail("output", "kind %d amp %Lg rate %Lg f %Lg param %Lg at t = %.17Lg: got %.17Lg, expected %.17Lg", m.k, m.amp, m.sr, m.f, m.p, m.t, y, m.at(m.t));
    m.t += 1 / m.sr;
}
// every history over dyadic parameters (exact arithmetic)
template <typename T, typename O> void histories(Ctx& c, Kind k, int depth) {
    Model m{k, 2, 16, 1, k == TRI ? 0.5L : 0.25L}; m.f = c.pick({1.0, 2.0, 0.5}, "frequency"); if (k != TRI) m.p = c.pick({0.25, 0.0, 1.0, 0.5}, "parameter");
    auto o = std::make_unique<O>(Maker<T, O>::make(m));
    for (int i = 0; i < depth; ++i) {
        observe<T>(c, *o, m);
        mc::Hash h; h << (double)m.amp << (double)m.sr << (double)m.f << (double)m.p << (double)m.t; c.state(h.h, depth - i);
        switch (c.choose(9, "op")) {
            case 0: c.log("sample"); sample<T>(c, *o, m, 0); break;
            case 1: m.amp = c.pick({1.0, 0.0, 3.0}); c.log("amplitude %Lg", m.amp); o->set_amplitude(T(m.amp)); break;
            case 2: m.f = c.pick({1.0, 4.0, 0.25}); c.log("frequency %Lg", m.f); o->set_frequency(T(m.f)); break;
            case 3: m.p = k == SIN ? c.pick({0.0, 0.5, 4.0, -5.0}) : c.pick({0.0, 0.5, 0.75, 1.0}); c.log("phase/duty/width %Lg", m.p); Extra<O>::set(*o, m.p); break;
            case 4: m.sr = c.pick({16.0, 8.0, 64.0}); c.log("sample rate %Lg", m.sr); o->set_sample_rate(T(m.sr)); break;
            case 5: m.t = c.pick({0.25, 3.0, 0.9375, sizeof(T) == 4 ? (k == SIN ? 17.5 : 131072.25) : 8589934592.25}); c.log("time %Lg", m.t); o->set_timestamp(T(m.t)); break;
            case 6: m.t = 0; c.log("reset"); o->reset(); break;
            case 7: { c.log("continue on a copy"); auto q = std::make_unique<O>(*o); (*o)(); o->set_frequency(7); o = std::move(q); break; }
            case 8: for (int j = 0; j < 5; ++j) sample<T>(c, *o, m, 0); break;
        }
    }
    observe<T>(c, *o, m); for (int j = 0; j < 3; ++j) sample<T>(c, *o, m, 0);
}
SCENARIO(sin_histories, 8) { histories<double, sin_oscillator<double>>(c, SIN, c.tier(5, 7)); }
SCENARIO(square_histories, 8) { histories<double, square_oscillator<double>>(c, SQUARE, c.tier(5, 7)); }
SCENARIO(sawtooth_histories, 8) { histories<double, sawtooth_oscillator<double>>(c, SAW, c.tier(5, 7)); }
SCENARIO(triangular_histories, 8) { histories<double, triangular_oscillator<double>>(c, TRI, c.tier(5, 7)); }
SCENARIO(sin_histories_float, 8) { histories<float, sin_oscillator<float>>(c, SIN, c.tier(4, 6)); }
SCENARIO(square_histories_float, 8) { histories<float, square_oscillator<float>>(c, SQUARE, c.tier(4, 6)); }
SCENARIO(sawtooth_histories_float, 8) { histories<float, sawtooth_oscillator<float>>(c, SAW, c.tier(4, 6)); }

// long streams with ordinary (non-dyadic) parameters: time may drift by rounding only
template <typename T, typename O> void stream(Ctx& c, Kind k) {
    Model m{k, 0.7L, 0, 0, 0}; m.sr = c.pick({44100.0, 8000.0, 1000.0, 48000.5}, "rate"); m.f = c.pick({440.0, 0.3, 1.0, 123.4, 399.9}, "frequency");
    m.p = k == TRI ? 0.5 : c.pick({0.3, 0.5, 0.0, 1.0, 0.9}, "parameter"); m.t = 0; const ld t0 = c.pick({0.0, 1.7, 100.25}, "start");
    m.sr = (ld)T(m.sr); m.f = (ld)T(m.f); m.p = (ld)T(m.p); m.amp = (ld)T(m.amp);
    O o = Maker<T, O>::make(m); o.set_timestamp(T(t0)); m.t = (ld)T(t0);
    const bool dbl = sizeof(T) > 4; const int n = dbl ? c.tier(4000, 60000) : 300; const ld eps = std::numeric_limits<T>::epsilon();
    c.at("kind %d rate %Lg f %Lg param %Lg start %Lg", k, m.sr, m.f, m.p, t0);
    for (int i = 0; i < n; ++i) {
        const ld dt = (i + 8) * eps * (m.t + 1 / m.sr) * 2;
        if (i == n / 2) { m.f = (ld)T(m.f * 1.5L); o.set_frequency(T(m.f)); }
        if (i == 3 * n / 4) { m.amp = (ld)T(0.3L); o.set_amplitude(T(m.amp)); }
        sample<T>(c, o, m, dt);
        if (!c.ok(std::fabs(o.timestamp() - m.t) <= dt + eps * m.t)) c.fail("timestamp", "after %d samples: timestamp %.17Lg, expected %.17Lg", i + 1, (ld)o.timestamp(), m.t);
    }
}
SCENARIO(sin_stream, 8) { stream<double, sin_oscillator<double>>(c, SIN); }
SCENARIO(square_stream, 8) { stream<double, square_oscillator<double>>(c, SQUARE); }
SCENARIO(sawtooth_stream, 8) { stream<double, sawtooth_oscillator<double>>(c, SAW); }
SCENARIO(triangular_stream, 4) { stream<double, triangular_oscillator<double>>(c, TRI); }
SCENARIO(square_stream_float, 8) { stream<float, square_oscillator<float>>(c, SQUARE); }
SCENARIO(sawtooth_stream_float, 8) { stream<float, sawtooth_oscillator<float>>(c, SAW); }
// the factory builds the named oscillator
SCENARIO(factory, 1) {
    Model m{SIN, 3, 32, c.pick({1.0, 2.0}), c.pick({0.25, 0.5, 0.75})};
    { auto o = make_oscillator<double, OscillatorType::Sinusoidal>((double)m.amp, (double)m.sr, (double)m.f, (double)m.p); Model k = m; for (int i = 0; i < 40; ++i) sample<double>(c, o, k, 0); }
    { auto o = make_oscillator<double, OscillatorType::Square>((double)m.amp, (double)m.sr, (double)m.f, (double)m.p); Model k = m; k.k = SQUARE; for (int i = 0; i < 40; ++i) sample<double>(c, o, k, 0); }
    { auto o = make_oscillator<double, OscillatorType::Sawtooth>((double)m.amp, (double)m.sr, (double)m.f, (double)m.p); Model k = m; k.k = SAW; for (int i = 0; i < 40; ++i) sample<double>(c, o, k, 0); }
    { auto o = make_oscillator<double, OscillatorType::Triangular>((double)m.amp, (double)m.sr, (double)m.f); Model k = m; k.k = TRI; k.p = 0.5; for (int i = 0; i < 40; ++i) sample<double>(c, o, k, 0); }
}
