// C28: real files in a scratch directory, every partition into write blocks and read blocks, every seek position.
#include <stdexcept>
#include <array>
#include <limits>
#include <unistd.h>
#include <edsp/io/decoder.hpp>
#include <edsp/io/encoder.hpp>
#include "inputs.hpp"
using mc::Ctx; typedef std::string S;
static S path() { const char* d = getenv("MC_SCRATCH"); return S(d ? d : "/tmp") + "/rt" + std::to_string(getpid()) + ".wav"; }
template <typename T> T value(size_t i, int set) {
    if (std::is_floating_point<T>::value && set == 1) { const T s[] = {T(0), T(-0.0), T(1), T(-1), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), T(0.1), T(1e-20)}; return s[i % 12]; }
    if (std::is_integral<T>::value) { const T s[] = {0, 1, T(-1), std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), 256, -257, 12345}; return set ? s[i % 8] : T(i * 7919 % 30011 - 15000); }
    return (T)std::sin(0.37 * (double)i + 0.1) + (T)i;
}
struct File { S p; ~File() { unlink(p.c_str()); } };
// writes the samples in the given blocks (frames), checks every report
template <typename T> void put(Ctx& c, const S& p, const std::vector<T>& x, int ch, int sr, const std::vector<int>& blocks, const S& what) {
    edsp::io::encoder<T> e((size_t)sr, (size_t)ch); if (!c.ok(e.open(p) && e.is_open())) c.fail("open", "cannot open %s for writing: %s", p.c_str(), what.c_str()); size_t at = 0;
    for (int b : blocks) { const size_t n = (size_t)b * ch; in::Exact<T> in(std::vector<T>(x.begin() + at, x.begin() + at + n), 0); const auto w = e.write(in.begin(), in.end()); if (!c.ok((size_t)w == n)) c.fail("write-count", "writing %zu samples reported %td: %s", n, (std::ptrdiff_t)w, what.c_str()); at += n; }
    if (!c.ok(e.channels() == ch && e.sample_rate() == sr)) c.fail("encoder-queries", "channels %td rate %g: %s", e.channels(), e.sample_rate(), what.c_str()); e.close(); c.check(!e.is_open(), "close", "is_open after close");
}
template <typename T, size_t N> void get(Ctx& c, const S& p, const std::vector<T>& x, int ch, int sr, const std::vector<int>& blocks, int seek_before, int seek_to, const S& what) {
    edsp::io::decoder<T, N> d; if (!c.ok(d.open(p) && d.is_open())) c.fail("reopen", "cannot read back: %s", what.c_str()); const long frames = (long)x.size() / ch;
    if (!c.ok(d.frames() == frames && d.channels() == ch && d.samples() == (long)x.size() && d.sample_rate() == sr)) c.fail("properties", "frames %td channels %td samples %td rate %g, written %ld frames of %d channels at %d Hz: %s", d.frames(), d.channels(), d.samples(), d.sample_rate(), frames, ch, sr, what.c_str());
    long pos = 0; int i = 0;
    for (int b : blocks) {
        if (i++ == seek_before) { const long r = d.seek(seek_to); if (!c.ok(r == seek_to)) c.fail("seek", "seek(%d) returned %ld: %s", seek_to, r, what.c_str()); pos = seek_to; }
        if (!c.ok(d.current() == pos)) c.fail("current", "position %td, expected %ld: %s", d.current(), pos, what.c_str());
        const size_t want = (size_t)b * ch, have = (size_t)std::max(0l, std::min((long)b, frames - pos)) * ch; in::Exact<T> out(want, 0, (T)77); const auto n = d.read(out.begin(), out.end());
        if (!c.ok((size_t)n == have)) c.fail("read-count", "reading %zu samples at frame %ld reported %td, expected %zu: %s", want, pos, (std::ptrdiff_t)n, have, what.c_str());
        for (size_t k = 0; k < want; ++k) { const T w = k < have ? x[(size_t)pos * ch + k] : (T)77; if (!c.ok(memcmp(&out[k], &w, sizeof(T)) == 0)) c.fail("data", "sample %zu read at frame %ld is %.9g, written %.9g: %s", k, pos, (double)out[k], (double)w, what.c_str()); }
        pos += (long)have / ch;
    }
}
static std::vector<int> composition(Ctx& c, int total, const char* label) { std::vector<int> b; int run = 1; for (int i = 1; i < total; ++i) { if (c.choose(2, label)) { b.push_back(run); run = 1; } else ++run; } if (total) b.push_back(run); return b; }
static const char* tn[] = {"float", "double", "int", "short"};
template <typename T> void partitions(Ctx& c, int ty) {
    const int ch = c.pick({1, 2, 3}, "channels"), frames = c.range(0, c.tier(4, 6), "frames"), set = c.choose(2, "values"), sr = c.pick({8000, 96000}, "rate"); std::vector<T> x((size_t)(ch * frames)); for (size_t i = 0; i < x.size(); ++i) x[i] = value<T>(i, set);
    const auto w = composition(c, frames, "write cut"); const S p = path(); File guard{p}; S what = S(tn[ty]) + " ch " + std::to_string(ch) + " write " + mc::show(w); c.at("%s", what.c_str()); put<T>(c, p, x, ch, sr, w, what);
    // every partition of the reads (one frame past the end included), read with a buffer smaller than the blocks
    for (unsigned cut = 0; cut < (1u << frames); ++cut) { std::vector<int> r; int run = 1; for (int i = 0; i < frames; ++i) { if (cut >> i & 1) { r.push_back(run); run = 1; } else ++run; } r.push_back(run); const S wh = what + " read " + mc::show(r); c.at("%s", wh.c_str()); c.tick(); get<T, 3>(c, p, x, ch, sr, r, -1, 0, wh); get<T, 8>(c, p, x, ch, sr, r, -1, 0, wh); }
}
SCENARIO(partitions, 32) { const int ty = c.choose(4, "type"); switch (ty) { case 0: partitions<float>(c, ty); break; case 1: partitions<double>(c, ty); break; case 2: partitions<int>(c, ty); break; default: partitions<short>(c, ty); } }
// every seek position at every block boundary
template <typename T> void seeks(Ctx& c, int ty) {
    const int ch = c.pick({1, 2, 3}), frames = c.tier(5, 7); std::vector<T> x((size_t)(ch * frames)); for (size_t i = 0; i < x.size(); ++i) x[i] = value<T>(i, 0); const S p = path(); File guard{p}; S what = S(tn[ty]) + " ch " + std::to_string(ch); c.at("%s", what.c_str()); put<T>(c, p, x, ch, 44100, {frames}, what);
    for (int a = 1; a <= 3; ++a) for (int b = 1; b <= 3; ++b) for (int k = 0; k < 3; ++k) for (int s = 0; s <= frames; ++s) { c.at("%s reads %d %d %d seek before %d to %d", what.c_str(), a, b, a, k, s); get<T, 6>(c, p, x, ch, 44100, {a, b, a}, k, s, what + " seek " + std::to_string(s)); }
}
SCENARIO(seeks, 12) { const int ty = c.choose(4, "type"); switch (ty) { case 0: seeks<float>(c, ty); break; case 1: seeks<double>(c, ty); break; case 2: seeks<int>(c, ty); break; default: seeks<short>(c, ty); } }
// long files: more than one internal buffer, every channel count, sizes around the buffer size
SCENARIO(long_files, 32) {
    const int ch = c.range(1, 8, "channels"); const int frames = c.pick({0, 1, 127, 128, 129, 170, 171, 204, 205, 341, 342, 512, 1023, 1024, 1025, 2048, 3000, 4097, 33000, 66000}, "frames"), blk = c.pick({1, 100, 1024, 100000}, "block"); if ((blk == 1 && frames > 400) || (blk == 100 && frames > 5000) || (frames > 5000 && ch > 3)) { c.nontrivial(0); return; } c.split();
    std::vector<float> x((size_t)(ch * frames)); for (size_t i = 0; i < x.size(); ++i) x[i] = value<float>(i, 0); std::vector<int> w, r; for (int f = 0; f < frames; f += blk) w.push_back(std::min(blk, frames - f)); for (int f = 0; f < frames; f += blk) r.push_back(blk); r.push_back(3);
    const S p = path(); File guard{p}; S what = "ch " + std::to_string(ch) + " frames " + std::to_string(frames) + " block " + std::to_string(blk); c.at("%s", what.c_str()); put<float>(c, p, x, ch, 48000, w, what); get<float, 1024>(c, p, x, ch, 48000, r, -1, 0, what); get<float, 1024>(c, p, x, ch, 48000, {frames + 5}, -1, 0, what);
    std::vector<double> y(x.begin(), x.end()); put<double>(c, p, y, ch, 48000, w, what); get<double, 1000>(c, p, y, ch, 48000, r, -1, 0, what); get<double, 8>(c, p, y, ch, 48000, {frames / 2, frames}, -1, 0, what);
}
// the same objects reused: several files after one another, reopening without closing, missing and malformed files in between
SCENARIO(reuse, 8) {
    edsp::io::encoder<double> e(16000, 2); edsp::io::decoder<double> d; std::vector<double> stored; bool exists = false, reading = false; size_t pos = 0; const S p = path(), bad = path() + ".bad"; File g1{p}, g2{bad}; { FILE* f = fopen(bad.c_str(), "w"); fputs("not a sound file", f); fclose(f); } S t;
    const int depth = c.tier(5, 6); double serial = 0; for (int i = 0; i < depth; ++i) {
        const int op = c.choose(6, "operation"); if (op == 0 && e.is_open()) { e.close(); t += "encoder reopened; "; } static const char* names[] = {"write file", "open", "open missing", "open malformed", "read 2 frames", "close"}; t += S(names[op]) + "; "; c.at("%s", t.c_str());
        if (op == 0) { if (reading) { d.close(); reading = false; } c.check(e.open(p), "open", "%s", t.c_str()); stored.clear(); const int n = c.choose(2, "length") ? 3 : 1; for (int k = 0; k < 2 * n; ++k) stored.push_back(serial += 0.25); const auto w = e.write(stored.data(), stored.data() + stored.size()); c.check((size_t)w == stored.size(), "write-count", "%s", t.c_str()); e.close(); exists = true; }
        else if (op == 1) { const bool r = d.open(p); c.check(r == exists && d.is_open() == exists, "open-result", "open() returned %d: %s", r, t.c_str()); reading = exists; pos = 0; if (exists) c.check(d.samples() == (long)stored.size() && d.channels() == 2 && d.sample_rate() == 16000, "properties", "%s", t.c_str()); }
        else if (op == 2 || op == 3) { const bool r = d.open(op == 2 ? p + ".none" : bad); c.check(!r && !d.is_open(), "open-bad", "opening an unreadable file succeeded: %s", t.c_str()); reading = false; }
        else if (op == 4) { double o[4] = {-1, -1, -1, -1}; const long n = d.read(o, o + 4), w = reading ? std::min(4l, (long)(stored.size() - pos)) : 0; c.check(n == w, "read-count", "read %ld, expected %ld: %s", n, w, t.c_str()); for (long k = 0; k < n; ++k) c.check(o[k] == stored[pos + (size_t)k], "data", "%s", t.c_str()); pos += (size_t)n; }
        else { d.close(); reading = false; c.check(!d.is_open(), "close", "%s", t.c_str()); }
    }
}
// the same files wherever they are and whatever they are called
SCENARIO(paths, 4) {
    const int ch = c.pick({1, 2}, "channels"); in::Path q; in::path(c, q, "wav"); std::vector<float> x((size_t)(ch * 5)); for (size_t i = 0; i < x.size(); ++i) x[i] = value<float>(i, 0); std::vector<double> y(x.begin(), x.end()); const S what = "file " + q.p; c.at("%s", what.c_str());
    put<float>(c, q.p, x, ch, 8000, {2, 3}, what); get<float, 4>(c, q.p, x, ch, 8000, {4, 4}, 1, 2, what); put<double>(c, q.p, y, ch, 8000, {5}, what); get<double, 4>(c, q.p, y, ch, 8000, {1, 7}, -1, 0, what); c.nontrivial(1);
}
// a file is written with the channels and the rate that were asked for, or not at all
template <typename T> void extremes(Ctx& c, const char* type) {
    const size_t big = (size_t)1 << 32, rate = c.pick({(size_t)8000, (size_t)1, (size_t)192000, (size_t)2147483647, (size_t)1 << 31, big, big + 1, big + 8000, ~(size_t)0}, "rate"), ch = c.pick({(size_t)1, (size_t)2, (size_t)0, (size_t)1024, (size_t)1025, (size_t)1 << 31, big, big + 1, big + 2, ~(size_t)0}, "channels");
    const S p = path(), what = S(type) + " encoder of " + std::to_string(ch) + " channels at " + std::to_string(rate) + " Hz"; File guard{p}; c.at("%s", what.c_str()); edsp::io::encoder<T> e(rate, ch); const bool open = e.open(p); c.check(open == e.is_open(), "open", "%s: open() returned %d", what.c_str(), open);
    const bool usual = ch >= 1 && ch <= 2 && rate <= 192000; c.check(!usual || open, "open", "%s cannot be opened", what.c_str()); if (!open) { c.nontrivial(1); return; }
    std::vector<T> x(ch <= 1024 ? ch * 2 : 2, T(1)); const auto n = e.write(x.data(), x.data() + x.size()); e.close(); edsp::io::decoder<T> d; if (!d.open(p)) { c.check(!usual, "reopen", "%s: the file cannot be read back", what.c_str()); return; }
    if (!c.ok((size_t)d.channels() == ch && d.sample_rate() == (double)rate)) c.fail("extremes", "%s: the file holds %td channels at %g Hz", what.c_str(), d.channels(), d.sample_rate()); c.check(n == (long)x.size() && d.samples() == n, "extremes-samples", "%s: %td samples written, %td in the file", what.c_str(), (std::ptrdiff_t)n, d.samples());
}
SCENARIO(extremes, 4) { switch (c.choose(4, "type")) { case 0: extremes<float>(c, "float"); break; case 1: extremes<double>(c, "double"); break; case 2: extremes<int>(c, "int"); break; default: extremes<short>(c, "short"); } }
