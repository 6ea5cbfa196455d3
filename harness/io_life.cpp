// C27: every history of decoder / encoder operations against a fault-injecting stand-in of the sound-file library.
// The stand-in hands out handles, checks every use of them, and lets the explorer choose the outcome of each call.
#include <stdexcept>
#include <array>
#include <memory>
#include <sndfile.h>
#include <sys/mman.h>
#include <edsp/io/decoder.hpp>
#include <edsp/io/encoder.hpp>
#include "inputs.hpp"
using mc::Ctx; typedef std::string S;
struct Handle { bool live; int mode, channels; long frames, pos; };
static std::vector<Handle*> handles; static Ctx* C = nullptr; static int opens = 0, closes = 0; static S misuse; static std::vector<double> written; static long last_transfer = 0, bulk = 0; static int next_channels = 1; static long next_frames = 0; static bool null_use = false;
static Handle* get(SNDFILE* f, const char* what) { if (!f) { null_use = true; return nullptr; } for (auto h : handles) if ((SNDFILE*)h == f) { if (!h->live) misuse = S(what) + " on a closed file"; return h->live ? h : nullptr; } misuse = S(what) + " on a handle that was never opened"; return nullptr; }
static double sample(long i) { return (double)(i % 30011) + 1; }
extern "C" {
static SNDFILE* do_open(int mode, SF_INFO* info) { if (!C->choose(2, "sf_open succeeds")) { if (mode == SFM_READ) memset(info, 0, sizeof *info); return nullptr; } ++opens; auto h = new Handle{true, mode, mode == SFM_READ ? next_channels : info->channels, next_frames, 0}; handles.push_back(h); if (mode == SFM_READ) { memset(info, 0, sizeof *info); info->channels = h->channels; info->frames = h->frames; info->samplerate = 44100; info->format = SF_FORMAT_WAV | SF_FORMAT_FLOAT; info->seekable = 1; } return (SNDFILE*)h; }
SNDFILE* sf_open(const char*, int mode, SF_INFO* info) { return do_open(mode, info); }
SNDFILE* sf_open_fd(int, int mode, SF_INFO* info, int) { return do_open(mode, info); }
int sf_close(SNDFILE* f) { if (!f) return 1; ++closes; for (auto h : handles) if ((SNDFILE*)h == f) { if (!h->live) misuse = "a file closed twice"; h->live = false; return 0; } misuse = "sf_close of a handle that was never opened"; return 1; }
sf_count_t sf_seek(SNDFILE* f, sf_count_t n, int whence) { auto h = get(f, "sf_seek"); if (!h) return 0; const long p = (whence & 3) == SEEK_SET ? n : (whence & 3) == SEEK_CUR ? h->pos + n : h->frames + n; if (p < 0 || p > h->frames || (n != 0 && !C->choose(2, "sf_seek succeeds"))) return -1; h->pos = p; return p; }
int sf_error(SNDFILE*) { return 0; }
const char* sf_strerror(SNDFILE*) { return "stand-in"; }
}
// transfers: whole frames only, and the explorer picks a full, a partial or an empty one
static long transfer(Handle* h, long items, long avail, const char* what) { if (items < 0 || items % h->channels) return 0; long n = std::min(items, avail); switch (n > h->channels ? C->choose(3, what) : n ? C->choose(2, what) * 2 : 0) { case 1: n = h->channels; break; case 2: n = 0; break; } last_transfer += n; return n; }
template <typename T> sf_count_t rd(SNDFILE* f, T* p, sf_count_t items) { auto h = get(f, "sf_read"); if (!h) return 0; if (h->mode != SFM_READ) { misuse = "read from a file opened for writing"; return 0; } const long n = transfer(h, items, (h->frames - h->pos) * h->channels, "sf_read transfers"); for (long i = 0; i < n; ++i) p[i] = (T)sample(h->pos * h->channels + i); h->pos += n / h->channels; return n; }
template <typename T> sf_count_t wr(SNDFILE* f, const T* p, sf_count_t items) { auto h = get(f, "sf_write"); if (!h) return 0; if (h->mode != SFM_WRITE) { misuse = "write to a file opened for reading"; return 0; } if (bulk) return items < 0 || items % h->channels ? 0 : last_transfer = std::min<long>(items, bulk); const long n = transfer(h, items, 1l << 40, "sf_write transfers"); for (long i = 0; i < n; ++i) written.push_back(p[i]); h->frames += n / h->channels; return n; }
extern "C" {
#define RW(name, T) sf_count_t sf_read_##name(SNDFILE* f, T* p, sf_count_t n) { return rd(f, p, n); } sf_count_t sf_write_##name(SNDFILE* f, const T* p, sf_count_t n) { return wr(f, p, n); } sf_count_t sf_readf_##name(SNDFILE* f, T* p, sf_count_t n) { auto h = f ? get(f, "sf_readf") : nullptr; return h ? rd(f, p, n * h->channels) / h->channels : 0; } sf_count_t sf_writef_##name(SNDFILE* f, const T* p, sf_count_t n) { auto h = f ? get(f, "sf_writef") : nullptr; return h ? wr(f, p, n * h->channels) / h->channels : 0; }
RW(float, float) RW(double, double) RW(int, int) RW(short, short)
}
static void reset(Ctx& c) { C = &c; for (auto h : handles) delete h; handles.clear(); opens = closes = 0; misuse.clear(); written.clear(); last_transfer = 0; null_use = false; bulk = 0; }
static int live() { int n = 0; for (auto h : handles) n += h->live; return n; }
static Handle* current() { for (auto h : handles) if (h->live) return h; return nullptr; }
static void consistent(Ctx& c, bool open, const S& t) { if (!c.ok(misuse.empty())) c.fail("misuse", "%s after %s", misuse.c_str(), t.c_str()); if (!c.ok(live() <= 1)) c.fail("leak", "%d files held at once after %s", live(), t.c_str()); if (!c.ok(open == (live() == 1))) c.fail("is_open", "is_open() is %d while %d files are held, after %s", open, live(), t.c_str()); }
template <typename X> void copies(std::true_type, X& x) { std::unique_ptr<X> y(new X(x)); }
template <typename X> void copies(std::false_type, X&) {}
// one history on one object; the object is destroyed at the end whatever its state
template <typename T, size_t N> void decode(Ctx& c) {
    reset(c); next_channels = c.pick({1, 2, 3}, "channels"); next_frames = c.pick({0, 1, 4}, "frames"); const int depth = c.tier(5, 6); S t = "channels " + std::to_string(next_channels) + " frames " + std::to_string(next_frames) + ": ";
    {
        edsp::io::decoder<T, N> d; consistent(c, d.is_open(), t + "construction");
        for (int i = 0; i < depth; ++i) {
            const int op = c.choose(8, "operation"); last_transfer = 0; Handle* h = current();
            if (op == 0) { t += "end; "; break; }
            if (op == 1) { t += "open; "; c.at("%s", t.c_str()); const bool r = d.open("x.wav"); if (!c.ok(r == (live() == 1))) c.fail("open-result", "open() returned %d, after %s", r, t.c_str()); if (r) { c.check(d.channels() == next_channels && d.frames() == next_frames && d.samples() == next_frames * next_channels && d.sample_rate() == 44100 && d.seekable(), "queries", "properties of the open file after %s", t.c_str()); } }
            else if (op == 2) { t += "close; "; c.at("%s", t.c_str()); d.close(); c.check(live() == 0, "close", "close() left a file open after %s", t.c_str()); }
            else if (op <= 5) {
                static const int mult[] = {1, 2, 7}; const long want = op == 5 ? (long)next_channels * 3 + 1 : (long)next_channels * mult[op - 3]; t += "read " + std::to_string(want) + "; "; c.at("%s", t.c_str());
                in::Exact<T> out((size_t)want, 0, (T)-7); const long from = h ? h->pos * h->channels : 0; const long n = d.read(out.begin(), out.end());
                if (!c.ok(n == last_transfer)) c.fail("read-count", "read() reported %ld samples, %ld were transferred, after %s", n, last_transfer, t.c_str()); if (!c.ok(h || n == 0)) c.fail("read-closed", "read() on a closed decoder reported %ld, after %s", n, t.c_str());
                for (long k = 0; k < want; ++k) if (!c.ok(out[(size_t)k] == (k < n ? (T)sample(from + k) : (T)-7))) c.fail("read-data", "sample %ld of a read after %s", k, t.c_str());
            } else if (op == 6) { const long p = c.pick({0, 1, 9}, "position"); t += "seek " + std::to_string(p) + "; "; c.at("%s", t.c_str()); const long r = d.seek(p); if (h) { if (!c.ok(r == -1 || (r == p && h->pos == p))) c.fail("seek", "seek(%ld) returned %ld, after %s", p, r, t.c_str()); const long q = d.current(); c.check(q == h->pos, "current", "current() is %ld, the file is at %ld, after %s", q, h->pos, t.c_str()); } }
            else { t += "copy; "; c.at("%s", t.c_str()); copies(std::integral_constant<bool, std::is_copy_constructible<edsp::io::decoder<T, N>>::value>(), d); }
            consistent(c, d.is_open(), t);
        }
        t += "destroy; "; c.at("%s", t.c_str());
    }
    if (!c.ok(misuse.empty())) c.fail("misuse", "%s after %s", misuse.c_str(), t.c_str()); if (!c.ok(opens == closes && live() == 0)) c.fail("balance", "%d files opened, %d closed, after %s", opens, closes, t.c_str());
}
template <typename T> void encode(Ctx& c) {
    reset(c); const int ch = c.pick({1, 2, 3}, "channels"), depth = c.tier(5, 6); next_frames = 0; S t = "channels " + std::to_string(ch) + ": ";
    {
        edsp::io::encoder<T> e(8000, (size_t)ch); consistent(c, e.is_open(), t + "construction"); long serial = 0;
        for (int i = 0; i < depth; ++i) {
            const int op = c.choose(6, "operation"); last_transfer = 0; Handle* h = current();
            if (op == 0) { t += "end; "; break; }
            if (op == 1) { t += "open; "; c.at("%s", t.c_str()); const bool r = e.open("x.wav"); if (!c.ok(r == (live() == 1))) c.fail("open-result", "open() returned %d, after %s", r, t.c_str()); c.check(e.channels() == ch && e.sample_rate() == 8000, "queries", "properties after %s", t.c_str()); if (r) c.check(current()->channels == ch, "open-channels", "the file was opened with %d channels, after %s", current()->channels, t.c_str()); }
            else if (op == 2) { t += "close; "; c.at("%s", t.c_str()); e.close(); c.check(live() == 0, "close", "close() left a file open after %s", t.c_str()); }
            else if (op <= 4) {
                const long want = op == 3 ? ch : ch * 5L; t += "write " + std::to_string(want) + "; "; c.at("%s", t.c_str()); std::vector<T> v((size_t)want); for (auto& x : v) x = (T)sample(serial++); in::Exact<T> in(v, 0); const size_t had = written.size();
                const long n = e.write(in.begin(), in.end()); if (!c.ok(n == last_transfer)) c.fail("write-count", "write() reported %ld samples, %ld were transferred, after %s", n, last_transfer, t.c_str()); if (!c.ok(h || n == 0)) c.fail("write-closed", "write() on a closed encoder reported %ld, after %s", n, t.c_str());
                for (size_t k = had; k < written.size(); ++k) if (!c.ok(written[k] == (double)v[k - had])) c.fail("write-data", "sample %zu of a write after %s", k - had, t.c_str()); if (h) for (long k = 0; k < n; ++k) if (!c.ok(in.begin()[k] == v[(size_t)k])) c.fail("write-input", "write() changed its input");
            } else { t += "copy; "; c.at("%s", t.c_str()); copies(std::integral_constant<bool, std::is_copy_constructible<edsp::io::encoder<T>>::value>(), e); }
            consistent(c, e.is_open(), t);
        }
        t += "destroy; "; c.at("%s", t.c_str());
    }
    if (!c.ok(misuse.empty())) c.fail("misuse", "%s after %s", misuse.c_str(), t.c_str()); if (!c.ok(opens == closes && live() == 0)) c.fail("balance", "%d files opened, %d closed, after %s", opens, closes, t.c_str());
}
SCENARIO(decoder_histories, 32) { switch (c.choose(c.tier(2, 4), "type")) { case 0: decode<float, 4>(c); break; case 1: decode<double, 6>(c); break; case 2: decode<int, 5>(c); break; default: decode<short, 1024>(c); } }
SCENARIO(encoder_histories, 32) { switch (c.choose(4, "type")) { case 0: encode<float>(c); break; case 1: encode<double>(c); break; case 2: encode<int>(c); break; default: encode<short>(c); } }
// blocks of more samples than an int counts: the range is address space only, nothing reads or writes it
template <typename T> void long_block(Ctx& c) {
    reset(c); const int ch = c.pick({1, 2, 3}, "channels"); const bool writing = c.choose(2, "write"); const long count = (c.pick({1l << 31, 1l << 32, 3l << 31}, "samples") + c.pick({-6, 0, 6, 60}, "offset")) / ch * ch; c.nontrivial(1); S t = std::string(writing ? "write" : "read") + " of " + std::to_string(count) + " samples, " + std::to_string(ch) + " channels"; c.at("%s", t.c_str());
    void* m = mmap(nullptr, (size_t)count * sizeof(T), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) throw std::runtime_error("no address space for the range"); T* p = (T*)m; next_channels = ch; next_frames = 5;
    if (writing) { const bool part = c.choose(2, "partial"); edsp::io::encoder<T> e(8000, (size_t)ch); if (e.open("x.wav")) { bulk = part ? (1l << 31) / ch * ch : 1l << 40; const long n = e.write(p, p + count), want = std::min(count, bulk); if (!c.ok(n == want && last_transfer == want)) c.fail("long-write", "%s reports %ld of the %ld samples the file takes", t.c_str(), n, want); } }
    else { edsp::io::decoder<T, 8> d; if (d.open("x.wav")) { const long n = d.read(p, p + count); if (!c.ok(n == last_transfer)) c.fail("long-read", "%s reports %ld of the %ld samples transferred", t.c_str(), n, last_transfer); for (long k = 0; k < n; ++k) if (!c.ok(p[k] == (T)sample(k))) c.fail("long-read", "sample %ld of a %s", k, t.c_str()); } }
    munmap(m, (size_t)count * sizeof(T)); if (!c.ok(misuse.empty())) c.fail("misuse", "%s after %s", misuse.c_str(), t.c_str());
}
SCENARIO(long_blocks, 8) { switch (c.choose(4, "type")) { case 0: long_block<float>(c); break; case 1: long_block<double>(c); break; case 2: long_block<int>(c); break; default: long_block<short>(c); } }
