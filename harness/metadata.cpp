// C37: tags written byte by byte (independently of the reader's library) in several containers, every subset of the
// fields x value sets x text encodings; and every truncation, byte corruption and unreadable kind of file.
#include <stdexcept>
#include <memory>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
#include <edsp/io/metadata.hpp>
#include "inputs.hpp"
using mc::Ctx; typedef std::string S;
static S esc(const S& s) { S o; for (unsigned char ch : s) { if (ch >= 32 && ch < 127) o += (char)ch; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); o += b; } } return "\"" + o + "\""; }
struct Tags { S t[4]; unsigned track = 0, year = 0; };   // title artist album genre, UTF-8
static const char* const FIELD[] = {"title", "artist", "album", "genre"};
static std::vector<unsigned> points(const S& u) { std::vector<unsigned> r; for (size_t i = 0; i < u.size();) { unsigned char a = u[i]; int n = a < 0x80 ? 1 : a < 0xE0 ? 2 : a < 0xF0 ? 3 : 4; unsigned v = n == 1 ? a : a & (0xFF >> (n + 1)); for (int k = 1; k < n; ++k) v = v << 6 | (u[i + k] & 63); i += n; r.push_back(v); } return r; }
static bool latin(const S& u) { for (unsigned p : points(u)) if (p > 255) return false; return true; }
static S to_latin(const S& u) { S r; for (unsigned p : points(u)) r += (char)p; return r; }
static S to_utf16(const S& u, bool le) { S r; auto put = [&](unsigned v) { if (le) { r += (char)v; r += (char)(v >> 8); } else { r += (char)(v >> 8); r += (char)v; } }; for (unsigned p : points(u)) if (p > 0xFFFF) { p -= 0x10000; put(0xD800 + (p >> 10)); put(0xDC00 + (p & 1023)); } else put(p); return r; }
static S be(unsigned v, int n = 4) { S r; while (n--) r += (char)(v >> (8 * n)); return r; }
static S le(unsigned v, int n = 4) { S r; for (int i = 0; i < n; ++i) r += (char)(v >> (8 * i)); return r; }
static S safe(unsigned v) { S r; for (int i = 3; i >= 0; --i) r += (char)((v >> (7 * i)) & 127); return r; }
static S pad(S s, size_t n) { s.resize(n, '\0'); return s; }

// four silent MPEG-1 layer III frames
static S frames() { S f("\xFF\xFB\x90\x00", 4); f.resize(417, '\0'); S r; for (int i = 0; i < 4; ++i) r += f; return r; }
static S id3v1(const Tags& g, int genre) { S r = "TAG" + pad(to_latin(g.t[0]), 30) + pad(to_latin(g.t[1]), 30) + pad(to_latin(g.t[2]), 30) + pad(g.year ? std::to_string(g.year) : S(), 4) + S(28, '\0') + S(1, '\0') + S(1, (char)g.track) + S(1, (char)genre); return r; }
// enc 0 latin-1, 1 UTF-16 with mark (little endian), 2 UTF-16BE without mark (2.4), 3 UTF-8 (2.4)
static S id3v2(const Tags& g, int ver, int enc, bool total) {
    S body; auto frame = [&](const char* id, const S& u) { if (u.empty()) return; S p(1, (char)enc); p += enc == 0 ? to_latin(u) : enc == 1 ? S("\xFF\xFE", 2) + to_utf16(u, true) : enc == 2 ? to_utf16(u, false) : u; body += S(id) + (ver == 4 ? safe(p.size()) : be(p.size())) + S(2, '\0') + p; };
    frame("TIT2", g.t[0]); frame("TPE1", g.t[1]); frame("TALB", g.t[2]); frame("TCON", g.t[3]); if (g.track) frame("TRCK", std::to_string(g.track) + (total ? "/99" : "")); if (g.year) frame(ver == 4 ? "TDRC" : "TYER", std::to_string(g.year));
    return "ID3" + S(1, (char)ver) + S(2, '\0') + safe(body.size() + 64) + body + S(64, '\0');
}
static S comment(const Tags& g) { S r; int n = 0; auto add = [&](const char* k, const S& v) { if (v.empty()) return; S e = S(k) + "=" + v; r += le(e.size()) + e; ++n; }; add("TITLE", g.t[0]); add("ARTIST", g.t[1]); add("ALBUM", g.t[2]); add("GENRE", g.t[3]); if (g.track) add("TRACKNUMBER", std::to_string(g.track)); if (g.year) add("DATE", std::to_string(g.year)); return le(2) + "mc" + le(n) + r; }
static S flac(const Tags& g) { S si = be(4096, 2) + be(4096, 2) + be(0, 3) + be(0, 3) + S("\x0A\xC4\x42\xF0", 4) + be(0) + S(16, '\0'), vc = comment(g); return "fLaC" + S(1, '\0') + be(si.size(), 3) + si + S(1, (char)0x84) + be(vc.size(), 3) + vc; }
static S riff(const S& form, const S& chunks) { return "RIFF" + le(4 + chunks.size()) + form + chunks; }
static S chunk(const char* id, S d, bool big = false) { const unsigned n = d.size(); if (n & 1) d += '\0'; return S(id) + (big ? be(n) : le(n)) + d; }
static S wav(const Tags& g, int ver) {
    S c = chunk("fmt ", le(1, 2) + le(1, 2) + le(8000) + le(16000) + le(2, 2) + le(16, 2)) + chunk("data", S(8, '\0'));
    c += chunk("ID3 ", id3v2(g, ver, ver == 4 ? 3 : 1, false));
    return riff("WAVE", c);
}
static S aiff(const Tags& g) { S c = chunk("COMM", be(1, 2) + be(4) + be(16, 2) + S("\x40\x0B\xFA\x00\x00\x00\x00\x00\x00\x00", 10), true) + chunk("SSND", S(16, '\0'), true) + chunk("ID3 ", id3v2(g, 3, 1, false), true); return "FORM" + be(4 + c.size()) + "AIFF" + c; }
static unsigned crc_ogg(const S& s) { unsigned c = 0; for (unsigned char b : s) { c ^= (unsigned)b << 24; for (int i = 0; i < 8; ++i) c = c & 0x80000000u ? c << 1 ^ 0x04C11DB7u : c << 1; } return c; }
static S page(int flags, unsigned seq, const std::vector<S>& packets) { S lace, body; for (auto& p : packets) { size_t n = p.size(); while (n >= 255) { lace += '\xFF'; n -= 255; } lace += (char)n; body += p; } S h = "OggS" + S(1, '\0') + S(1, (char)flags) + S(8, '\0') + le(77) + le(seq); S r = h + le(0) + S(1, (char)lace.size()) + lace + body; return h + le(crc_ogg(r)) + r.substr(h.size() + 4); }
static S vorbis(const Tags& g) { S id = S("\x01vorbis", 7) + le(0) + S(1, '\1') + le(44100) + le(0) + le(128000) + le(0) + S("\xB8\x01", 2), cm = S("\x03vorbis", 7) + comment(g) + S(1, '\1'), su = S("\x05vorbis", 7) + S(40, '\x55'); return page(2, 0, {id}) + page(0, 1, {cm, su}) + page(4, 2, {S(30, '\0')}); }
static S opus(const Tags& g) { S id = "OpusHead" + S(1, '\1') + S(1, '\1') + le(0, 2) + le(48000) + le(0, 2) + S(1, '\0'), cm = "OpusTags" + comment(g); return page(2, 0, {id}) + page(0, 1, {cm}) + page(4, 2, {S(30, '\0')}); }

struct Format { const char* name; const char* ext; S (*make)(const Tags&); bool narrow; };
static const std::vector<Format>& formats() {
    static const std::vector<Format> f = {
        {"mp3 ID3v2.3 latin-1", "mp3", [](const Tags& g) { return id3v2(g, 3, 0, false) + frames(); }, true},
        {"mp3 ID3v2.3 UTF-16", "mp3", [](const Tags& g) { return id3v2(g, 3, 1, true) + frames(); }, false},
        {"mp3 ID3v2.4 UTF-16BE", "mp3", [](const Tags& g) { return id3v2(g, 4, 2, false) + frames(); }, false},
        {"mp3 ID3v2.4 UTF-8", "mp3", [](const Tags& g) { return id3v2(g, 4, 3, true) + frames(); }, false},
        {"flac", "flac", flac, false}, {"ogg vorbis", "ogg", vorbis, false}, {"opus", "opus", opus, false},
        {"wav ID3v2.3", "wav", [](const Tags& g) { return wav(g, 3); }, false}, {"wav ID3v2.4", "wav", [](const Tags& g) { return wav(g, 4); }, false},
        {"aiff", "aiff", aiff, false},
    };
    return f;
}
static S scratch(const char* ext) { const char* d = getenv("MC_SCRATCH"); return S(d ? d : "/tmp") + "/meta" + std::to_string(getpid()) + "." + ext; }
static void put(const S& path, const S& data) { std::ofstream o(path, std::ios::binary | std::ios::trunc); o.write(data.data(), data.size()); }
static void expect(Ctx& c, const edsp::io::metadata& m, const Tags& g, const char* key, const S& what) {
    const S got[] = {m.title(), m.artist(), m.album(), m.genre()};
    for (int i = 0; i < 4; ++i) if (!c.ok(got[i] == g.t[i])) c.fail(S(key) + "-" + FIELD[i], "%s: %s() = %s, expected %s", what.c_str(), FIELD[i], esc(got[i]).c_str(), esc(g.t[i]).c_str());
    if (!c.ok(m.track() == g.track)) c.fail(S(key) + "-track", "%s: track() = %zu, expected %u", what.c_str(), (size_t)m.track(), g.track);
    if (!c.ok(m.year() == g.year)) c.fail(S(key) + "-year", "%s: year() = %zu, expected %u", what.c_str(), (size_t)m.year(), g.year);
}
static const std::vector<S>& values() { static const std::vector<S> v = {"", "a", "Song of 2 words", "caf\xC3\xA9 \xC3\xBF\xC2\xA1", "\xE6\x97\xA5\xE6\x9C\xAC \xD0\xA9 \xF0\x9F\x8E\xB5", S(300, 'L')}; return v; }

// every format, every assignment of values to the six fields
SCENARIO(tags, 32) {
    const auto& f = formats()[c.choose((int)formats().size(), "format")]; Tags g; S what = f.name;
    const int nv = c.tier(4, (int)values().size());
    for (int i = 0; i < 4; ++i) { int v = c.choose(nv, FIELD[i]); if (!c.thorough() && v >= 2) v += 1; g.t[i] = values()[v]; if (v) { if (i == 3) g.t[i] = "g" + g.t[i]; what += S(" ") + FIELD[i] + "=" + esc(g.t[i].substr(0, 40)); } if (f.narrow && !latin(g.t[i])) throw mc::Prune{}; }
    g.track = c.pick({0, 7, 250}); g.year = c.pick({0, 1999, 2026}); what += " track=" + std::to_string(g.track) + " year=" + std::to_string(g.year);
    const S path = scratch(f.ext); put(path, f.make(g)); c.at("metadata of a %s", what.c_str());
    const edsp::io::metadata m(path); expect(c, m, g, f.name, what); expect(c, m, g, f.name, what + " (read again)");
    edsp::io::metadata copy(m); put(path, S()); expect(c, copy, g, f.name, what + " (copy of the reader, the file emptied)");
}
static Tags sample() { Tags g; g.t[0] = "T\xC3\xA9"; g.t[1] = "A \xD0\xA9"; g.t[2] = "al"; g.t[3] = "gen"; g.track = 3; g.year = 1987; return g; }
// track numbers and years of any size the container can hold
SCENARIO(numbers, 4) {
    const auto& f = formats()[c.choose((int)formats().size(), "format")]; Tags g = sample(); if (f.narrow) g.t[1] = "A"; const bool comments = S(f.name) == "flac" || S(f.name) == "ogg vorbis" || S(f.name) == "opus";
    g.track = c.pick({0u, 1u, 9u, 99u, 127u, 128u, 255u, 256u, 300u, 999u, 32768u, 65535u, 65536u, 100000u, 2147483647u}); g.year = c.pick({0u, 1u, 99u, 255u, 256u, 999u, 1000u, 1899u, 1970u, 2100u, 9999u, 10000u, 40000u, 70000u, 2147483647u});
    if (g.year > 9999 && !comments) throw mc::Prune{};   // ID3 dates have four digits
    const S what = S(f.name) + " with track " + std::to_string(g.track) + " and year " + std::to_string(g.year), path = scratch(f.ext); put(path, f.make(g)); c.at("metadata of a %s", what.c_str()); expect(c, edsp::io::metadata(path), g, "number", what);
}
// ID3v1: fixed fields of 30 bytes, numbered genres; with and without an ID3v2 tag, which has precedence
SCENARIO(id3v1_tags, 16) {
    static const struct { int n; const char* name; } G[] = {{255, ""}, {0, "Blues"}, {17, "Rock"}, {79, "Hard Rock"}};
    Tags a; const int gi = c.choose(4, "genre"); for (int i = 0; i < 3; ++i) a.t[i] = c.pick({S(), S("x"), S("caf\xC3\xA9"), S(30, 'w')}); a.t[3] = G[gi].name; a.track = c.pick({0, 1, 255}); a.year = c.pick({0, 1984});
    Tags b, w = a; const bool both = c.choose(2, "also ID3v2"); if (both) { const int mask = c.choose(16, "fields"); for (int i = 0; i < 4; ++i) if (mask >> i & 1) w.t[i] = b.t[i] = S("v2 ") + FIELD[i]; if (mask & 1) w.track = b.track = 12; if (mask & 2) w.year = b.year = 2001; }
    const S path = scratch("mp3"), what = "ID3v1 " + esc(a.t[0]) + " " + esc(a.t[1]) + " " + esc(a.t[2]) + " " + a.t[3] + (both ? " with ID3v2" : ""); put(path, (both ? id3v2(b, 3, 1, false) : S()) + frames() + id3v1(a, G[gi].n)); c.at("metadata of %s", what.c_str());
    expect(c, edsp::io::metadata(path), w, "id3v1", what);
}
// the reference for damaged files: the library's view of the file, an absent tag being empty
static Tags reference(const S& path) { Tags r; TagLib::FileRef f(path.c_str()); if (auto* t = f.tag()) { r.t[0] = t->title().to8Bit(true); r.t[1] = t->artist().to8Bit(true); r.t[2] = t->album().to8Bit(true); r.t[3] = t->genre().to8Bit(true); r.track = t->track(); r.year = t->year(); } return r; }
static void damaged(Ctx& c, const Format& f, const S& bytes, const S& what) { const S path = scratch(f.ext); put(path, bytes); c.at("metadata of %s", what.c_str()); const Tags r = reference(path); edsp::io::metadata m(path); expect(c, m, r, "damaged", what); c.tick(); }
SCENARIO(truncations, 16) {
    const int fi = c.choose((int)formats().size(), "format"); const auto& f = formats()[fi]; Tags g = sample(); if (f.narrow) g.t[1] = "A"; const S full = f.make(g); const int part = c.choose(8, "part"); c.split();
    for (size_t n = part; n <= full.size(); n += 8) { if (n > 700 && n + 420 < full.size() && !c.thorough()) continue; damaged(c, f, full.substr(0, n), S(f.name) + " cut to " + std::to_string(n) + " bytes"); }
}
SCENARIO(corruptions, 32) {
    const int fi = c.choose((int)formats().size(), "format"); const auto& f = formats()[fi]; Tags g = sample(); if (f.narrow) g.t[1] = "A"; const S full = f.make(g); const int part = c.choose(8, "part"), how = c.choose(c.tier(3, 11), "corruption"); c.split();
    for (size_t i = part; i < full.size() && i < 400; i += 8) { S s = full; const unsigned char b = s[i]; s[i] = how == 0 ? 0 : how == 1 ? 0xFF : how == 2 ? b ^ 0x80 : how == 3 ? b ^ 1 : (char)(b ^ (1 << (how - 3))); damaged(c, f, s, S(f.name) + " with byte " + std::to_string(i) + " replaced"); }
}
// the same files wherever they are and whatever they are called
SCENARIO(paths, 4) {
    const auto& f = formats()[c.choose((int)formats().size(), "format")]; Tags g = sample(); if (f.narrow) g.t[1] = "A"; in::Path p; in::path(c, p, f.ext); put(p.p, f.make(g)); const S what = S(f.name) + " called " + esc(p.p); c.at("metadata of a %s", what.c_str()); expect(c, edsp::io::metadata(p.p), g, "path", what); c.nontrivial(1);
}
// files that hold no tags at all
SCENARIO(unreadable, 4) {
    const char* const exts[] = {"mp3", "flac", "ogg", "opus", "wav", "aiff", "m4a", "wma", "ape", "mpc", "wv", "tta", "spx", "txt", "xyz", "mod", "it", "s3m", "xm"}; const S ext = exts[c.choose(19, "extension")]; const int kind = c.choose(7, "kind");
    const S path = scratch(ext.c_str()); unlink(path.c_str()); rmdir(path.c_str()); S what = ext + " "; S p = path;
    switch (kind) { case 0: what += "missing"; break; case 1: what += "empty"; put(path, S()); break; case 2: what += "directory"; mkdir(path.c_str(), 0700); break; case 3: what += "text"; put(path, S(500, 'q')); break; case 4: what += "zeros"; put(path, S(2000, '\0')); break; case 5: what += "path below a file"; put(path, "x"); p = path + "/y." + ext; break; default: what += "dangling link"; if (symlink("/nonexistent/nowhere", path.c_str())) throw mc::Prune{}; }
    c.at("metadata of a file: %s", what.c_str()); { edsp::io::metadata m(p); expect(c, m, Tags(), "unreadable", what); edsp::io::metadata n(m); expect(c, n, Tags(), "unreadable", what); } unlink(path.c_str()); rmdir(path.c_str());
    if (kind == 0) { edsp::io::metadata e{S()}; expect(c, e, Tags(), "unreadable", "empty path"); edsp::io::metadata noext(scratch("") + "noext"); expect(c, noext, Tags(), "unreadable", "no extension"); }
}
// several readers over changing files: each keeps what its file held when it was opened
SCENARIO(histories, 8) {
    const int depth = c.tier(4, 5); std::unique_ptr<edsp::io::metadata> r[2]; Tags seen[2], disk[2]; bool there[2] = {false, false}; S hist; const S path[2] = {scratch("flac"), scratch("mp3")}; unlink(path[0].c_str()); unlink(path[1].c_str());
    for (int k = 0; k < depth; ++k) {
        const int op = c.choose(4, "operation"), i = c.choose(2, "which");
        if (op == 0) { Tags g; const int v = c.choose(3, "tags"); if (v) { g = sample(); if (v == 2) { g.t[0] = "other"; g.t[3] = ""; g.track = 0; } } put(path[i], i ? id3v2(g, 3, 1, false) + frames() : flac(g)); disk[i] = g; there[i] = true; hist += "write; "; }
        else if (op == 1) { unlink(path[i].c_str()); there[i] = false; hist += "remove; "; }
        else if (op == 2) { const int j = c.choose(2, "file"); r[i].reset(new edsp::io::metadata(path[j])); seen[i] = there[j] ? disk[j] : Tags(); hist += "open; "; }
        else { if (!r[i]) throw mc::Prune{}; if (r[1 - i]) *r[1 - i] = *r[i]; else r[1 - i].reset(new edsp::io::metadata(*r[i])); seen[1 - i] = seen[i]; hist += "copy; "; }
        c.at("%s", hist.c_str()); for (int j = 0; j < 2; ++j) if (r[j]) expect(c, *r[j], seen[j], "history", hist);
    }
    unlink(path[0].c_str()); unlink(path[1].c_str());
}
