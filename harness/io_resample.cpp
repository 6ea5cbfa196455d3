// C29: the resampler over the real conversion library: every partition of the input, every ratio, quality and channel count.
#include <stdexcept>
#include <algorithm>
#include <samplerate.h>
#include <edsp/io/resampler.hpp>
#include "inputs.hpp"
using mc::Ctx; typedef std::string S; typedef edsp::io::resampler<float> R;
static std::vector<int> composition(Ctx& c, int total, const char* label) { std::vector<int> b; int run = 1; for (int i = 1; i < total; ++i) { if (c.choose(2, label)) { b.push_back(run); run = 1; } else ++run; } if (total) b.push_back(run); return b; }
static std::vector<float> signal(int frames, int ch, int kind) { std::vector<float> x((size_t)(frames * ch)); for (int i = 0; i < frames; ++i) for (int k = 0; k < ch; ++k) x[(size_t)(i * ch + k)] = kind == 0 ? (float)std::sin(0.11 * i * (k + 1) + k) : kind == 1 ? (i % (5 + k) == 0 ? 1.f : -0.25f) : (float)(i == 3 * k); return x; }
// one long block through the library itself: what any block-wise stream has to reproduce
static std::vector<float> reference(const std::vector<float>& x, int ch, int q, double ratio) {
    int e = 0; SRC_STATE* s = src_new(q, ch, &e); std::vector<float> out((size_t)(std::ceil((double)(x.size() / ch) * ratio) + 64) * ch); SRC_DATA d; memset(&d, 0, sizeof d); d.data_in = x.data(); d.data_out = out.data(); d.input_frames = (long)x.size() / ch; d.output_frames = (long)out.size() / ch; d.src_ratio = ratio; src_process(s, &d); out.resize((size_t)d.output_frames_gen * ch); src_delete(s); return out;
}
// streams x in the given blocks, resubmitting what was not consumed; also drives the library directly with the same blocks
static std::vector<float> stream(Ctx& c, R& r, const std::vector<float>& x, int ch, int q, double ratio, const std::vector<int>& blocks, const S& what) {
    std::vector<float> out; size_t from = 0, given = 0; int e = 0; SRC_STATE* s = src_new(q, ch, &e); struct D { SRC_STATE* s; ~D() { src_delete(s); } } del{s};
    for (int b : blocks) {
        given += (size_t)b; const long frames = (long)(given - from), room = (long)(ratio * (double)frames); in::Exact<float> in(std::vector<float>(x.begin() + from * ch, x.begin() + given * ch), 0); in::Exact<float> o((size_t)(room * ch), 0, 77.f);
        c.at("%s, block %d", what.c_str(), b); const auto n = r.process(in.begin(), in.end(), o.begin()); c.tick();
        if (!c.ok(r.error() == 0)) c.fail("error", "%s: error %d (%s)", what.c_str(), r.error(), r.error_string().data());
        if (!c.ok(n.first >= 0 && n.first <= frames)) c.fail("consumed", "%s: %ld of %ld frames consumed", what.c_str(), n.first, frames);
        if (!c.ok(n.second >= 0 && n.second <= room)) c.fail("produced", "%s: %ld frames produced, %ld at most", what.c_str(), n.second, room);
        for (size_t k = 0; k < in.size(); ++k) if (!c.ok(in.begin()[k] == x[from * ch + k])) c.fail("input", "%s: the input was modified", what.c_str());
        std::vector<float> ro((size_t)(room * ch) + 1, 77.f); SRC_DATA d; memset(&d, 0, sizeof d); d.data_in = &x[from * ch]; d.data_out = ro.data(); d.input_frames = frames; d.output_frames = room; d.src_ratio = ratio; src_process(s, &d);
        if (!c.ok(n.first == d.input_frames_used && n.second == d.output_frames_gen)) c.fail("accounting", "%s: reported %ld used %ld produced, the conversion used %ld and produced %ld", what.c_str(), n.first, n.second, d.input_frames_used, d.output_frames_gen);
        for (long k = 0; k < room * ch; ++k) if (!c.ok(o[(size_t)k] == (k < n.second * ch ? ro[(size_t)k] : 77.f))) c.fail("data", "%s: sample %ld is %g", what.c_str(), k, o[(size_t)k]);
        out.insert(out.end(), o.begin(), o.begin() + n.second * ch); from += (size_t)n.first;
    }
    return out;
}
static const double RATIOS[] = {1, 0.5, 2, 1.5, 0.75, 0.1, 3.3, 1.0884353741496599, 0.9, 8};
static void prefix(Ctx& c, const std::vector<float>& got, const std::vector<float>& ref, const S& what) { const size_t n = std::min(got.size(), ref.size()); for (size_t k = 0; k < n; ++k) if (!c.ok(std::abs(got[k] - ref[k]) <= 1e-4f)) c.fail("prefix", "%s: sample %zu of the stream is %g, converting it at once gives %g", what.c_str(), k, got[k], ref[k]); }
static edsp::io::resample_quality named(int q) { switch (q) { case 0: return edsp::io::best_quality; case 1: return edsp::io::medium_quality; case 2: return edsp::io::sinc_fastest; case 3: return edsp::io::zero_order_hold; case 4: return edsp::io::linear; } return (edsp::io::resample_quality)q; }
static S text(long ch, int q, double ratio) { char b[96]; snprintf(b, sizeof b, "channels %ld quality %d ratio %g", ch, q, ratio); return b; }
SCENARIO(partitions, 64) {
    const int q = c.range(0, 4, "quality"), ch = c.pick({1, 2, 3}, "channels"); const float ratio = (float)RATIOS[c.choose(c.tier(6, 10), "ratio")]; const int unit = q == 4 ? 5 : c.pick({1, q <= 2 ? 40 : 5}, "unit"); auto blocks = composition(c, c.tier(5, 7), "cut"); int total = 0; for (auto& b : blocks) { b = unit == 1 ? b : b * unit - (b & 1); total += b; }
    const auto x = signal(total, ch, c.choose(2, "signal")); const S what = text(ch, q, ratio) + " blocks " + mc::show(blocks); c.at("%s", what.c_str()); R r(ch, named(q), ratio);
    c.check(r.channels() == ch && r.quality() == named(q) && r.ratio() == ratio && r.error() == 0, "queries", "%s: channels %ld quality %d ratio %g error %d", what.c_str(), r.channels(), (int)r.quality(), r.ratio(), r.error());
    const auto got = stream(c, r, x, ch, q, ratio, blocks, what); prefix(c, got, reference(x, ch, q, ratio), what); if (got.size() > (size_t)ch) c.nontrivial(1);
    // a reset at any point gives a fresh resampler
    c.check(r.reset() == 0 && r.error() == 0, "reset-error", "%s: reset reports %d", what.c_str(), r.error()); R f(ch, named(q), ratio); const auto again = stream(c, r, x, ch, q, ratio, blocks, what + " after a reset"), fresh = stream(c, f, x, ch, q, ratio, blocks, what); c.check(again == fresh && again == got, "reset", "%s: the stream after a reset differs from the one of a fresh resampler", what.c_str());
}
// a reset after every prefix of a stream
SCENARIO(resets, 32) {
    const int q = c.range(0, 4, "quality"), ch = c.pick({1, 2, 4}, "channels"); const float ratio = (float)RATIOS[c.choose(c.tier(4, 10), "ratio")]; const int unit = q <= 2 ? 60 : 7, at = c.range(1, 4, "blocks before the reset"); c.split(); std::vector<int> head((size_t)at, unit), tail(4, unit + 3); const auto a = signal(unit * 4, ch, 0), b = signal((unit + 3) * 4, ch, 1); const S what = text(ch, q, ratio) + " reset after " + std::to_string(at);
    R r(ch, named(q), ratio), f(ch, named(q), ratio); stream(c, r, a, ch, q, ratio, head, what); c.check(r.reset() == 0, "reset-error", "%s", what.c_str()); c.check(stream(c, r, b, ch, q, ratio, tail, what + ", then") == stream(c, f, b, ch, q, ratio, tail, what + ", fresh"), "reset", "%s: the stream differs from the one of a fresh resampler", what.c_str()); c.nontrivial(1);
}
// the channels do not influence each other, two resamplers do not either
SCENARIO(channels, 16) {
    const int q = c.range(0, 4, "quality"), ch = c.range(2, c.tier(4, 8), "channels"), frames = q <= 2 ? 200 : 40; const float ratio = (float)RATIOS[c.choose(c.tier(4, 10), "ratio")]; const auto x = signal(frames, ch, 0); const S what = text(ch, q, ratio); const std::vector<int> blocks = {frames / 2, frames - frames / 2}; R all(ch, named(q), ratio); std::vector<R*> single; const auto got = stream(c, all, x, ch, q, ratio, blocks, what);
    for (int k = 0; k < ch; ++k) { std::vector<float> y; for (int i = 0; i < frames; ++i) y.push_back(x[(size_t)(i * ch + k)]); R r(1, named(q), ratio); const auto one = stream(c, r, y, 1, q, ratio, blocks, what + " alone"); c.check(one.size() * ch == got.size(), "channel-length", "%s: %zu samples, %zu frames alone", what.c_str(), got.size(), one.size()); for (size_t i = 0; i < one.size(); ++i) if (!c.ok(std::abs(one[i] - got[i * ch + k]) <= 1e-5f)) c.fail("channel", "%s: frame %zu of channel %d is %g, alone it is %g", what.c_str(), i, k, got[i * ch + k], one[i]); }
    c.nontrivial(1);
}
// invalid settings: the predicate rejects them, every operation reports an error and no frame, nothing crashes
SCENARIO(invalid, 4) {
    const float inf = std::numeric_limits<float>::infinity(); const float ratio = c.pick({1.f, 0.f, -1.f, 257.f, 1e-3f, 1e30f, inf, -inf, std::nanf(""), 256.f, 1 / 256.f}, "ratio"); const int q = c.pick({0, 4, 5, -1, 99}, "quality"); const long ch = c.pick({1L, 0L, -1L, 2L, 1L << 31, (1L << 31) + 2, (1L << 32) + 1, std::numeric_limits<long>::max()}, "channels"); const bool many = ch > 2; const bool valid = ratio >= 1 / 256.f && ratio <= 256.f;
    c.check(R::valid_ratio(ratio) == valid, "valid_ratio", "valid_ratio(%g) is %d", ratio, R::valid_ratio(ratio)); if (ratio != ratio) return; const S what = text(ch, q, ratio); c.at("%s", what.c_str()); const bool ok = ch >= 1 && !many && q >= 0 && q <= 4; R r(ch, named(q), ratio); if (!c.ok((r.error() == 0) == ok)) c.fail("construction", "%s: error %d after construction", what.c_str(), r.error());
    const int frames = c.pick({0, 1, 8}, "frames"); const long room = valid ? (long)((double)ratio * frames) : 0; in::Exact<float> in((size_t)(frames * (many ? 1 : std::max(1L, ch))), 0, 0.5f), out((size_t)(room * (many ? 1 : std::max(1L, ch))), 0, 77.f);
    for (int i = 0; i < 2; ++i) { c.at("%s processing %d frames", what.c_str(), frames); const auto n = r.process(in.begin(), in.end(), out.begin()); if (!c.ok((r.error() == 0) == (ok && valid))) c.fail("reported", "%s: error %d after processing", what.c_str(), r.error()); if (r.error()) { c.check(r.error_string().data() && r.error_string().size(), "message", "%s: no message for error %d", what.c_str(), r.error()); c.check(n.first == 0 && n.second == 0, "frames", "%s: %ld frames used, %ld produced by a failed conversion", what.c_str(), n.first, n.second); for (size_t k = 0; k < out.size(); ++k) c.check(out[k] == 77.f, "written", "%s: a failed conversion wrote its output", what.c_str()); } c.at("%s reset", what.c_str()); const int e = r.reset(); c.check((e == 0) == ok && e == r.error(), "reset-result", "%s: reset() is %d, error() %d", what.c_str(), e, r.error()); }
    if (!ok || !valid) c.nontrivial(1);
}
