// Enumerated inputs shared by the harnesses: exhaustive over small alphabets, structured shapes for long ones.
#pragma once
#include "mc.hpp"
#include <forward_list>
#include <list>
#include <memory>
#include <sys/stat.h>
#include <unistd.h>
namespace in {
typedef long double ld;
inline double lcg(uint64_t& s) { s = s * 6364136223846793005ull + 1442695040888963407ull; return static_cast<double>(s >> 11) / 9007199254740992.0 * 2 - 1; }
// shape k of length n: a fixed family of structured signals
enum { SHAPES = 8 };
inline std::vector<double> shape(int k, size_t n) {
    std::vector<double> v(n); uint64_t s = 12345 + static_cast<uint64_t>(k) * 977 + n;
    for (size_t i = 0; i < n; ++i) switch (k) {
        case 0: v[i] = lcg(s); break;                                               // dense, both signs
        case 1: v[i] = i % 2 ? -1 : 1; break;                                       // alternating
        case 2: v[i] = static_cast<double>(i) - static_cast<double>(n) / 2; break;  // ramp through zero
        case 3: v[i] = 0; break;                                                    // silence
        case 4: v[i] = -0.25; break;                                                // constant
        case 5: v[i] = i + 1 == n ? 3 : 0; break;                                   // impulse at the end
        case 6: v[i] = lcg(s) * 1e6 + 2e6; break;                                   // large, positive
        case 7: v[i] = lcg(s) * 1e-6; break;                                        // small
    }
    return v;
}
inline const char* shape_name(int k) { static const char* n[] = {"dense", "alternating", "ramp", "silence", "constant", "impulse", "large", "small"}; return n[k]; }
// a heap block of exactly n elements of T at a chosen element offset: reads or writes outside are caught by ASan
template <typename T> struct Exact {
    std::unique_ptr<T[]> p; size_t n, off;
    explicit Exact(size_t n, size_t off = 0, T fill = T()) : p(new T[n + off]), n(n), off(off) { std::fill(p.get(), p.get() + n + off, fill); }
    template <typename V> Exact(const V& v, size_t off) : p(new T[v.size() + off]), n(v.size()), off(off) { std::fill(p.get(), p.get() + off, T()); size_t i = off; for (auto& e : v) p[i++] = static_cast<T>(e); }
    T* begin() { return p.get() + off; }
    T* end() { return begin() + n; }
    const T* begin() const { return p.get() + off; }
    const T* end() const { return begin() + n; }
    T& operator[](size_t i) { return begin()[i]; }
    const T& operator[](size_t i) const { return begin()[i]; }
    size_t size() const { return n; }
};
// every vector over an alphabet, one choice per element
template <typename T> std::vector<T> word(mc::Ctx& c, size_t n, std::initializer_list<double> alphabet) {
    std::vector<T> v(n); for (auto& e : v) e = static_cast<T>(c.pick(alphabet)); return v;
}
inline std::vector<size_t> sizes(bool deep) {
    std::vector<size_t> s; for (size_t n = 1; n <= (deep ? 130u : 34u); ++n) s.push_back(n);
    for (size_t n : {63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025}) if (n > s.back()) s.push_back(n);
    return s;
}
// long inputs: past the 12, 13, 15 and 16 bit boundaries and the usual block sizes
inline std::vector<size_t> longer(bool deep) {
    if (deep) return {2047, 2048, 2049, 4095, 4096, 4097, 8192, 10000, 16385, 32767, 32768, 32769, 44100, 65535, 65536, 65537, 70001, 131073, 200000};
    return {2048, 4097, 10000, 32769, 65537, 70001};
}
// powers of two to scale a signal by: no result may depend on an absolute magnitude
template <typename T> inline const std::vector<int>& scales() { static const std::vector<int> d{-1040, -1000, -700, -500, -300, -150, -60, -30, 30, 60, 150, 250, 300, 500, 700, 1000}, f{-140, -120, -100, -60, -40, -20, -10, 10, 20, 30, 40, 60, 100, 120}; return sizeof(T) == 4 ? f : d; }
template <typename T> inline std::vector<T> scaled(int k, size_t n, int e) { auto v = shape(k, n); std::vector<T> o(n); for (size_t i = 0; i < n; ++i) o[i] = std::ldexp(static_cast<T>(v[i]), e); return o; }
template <typename T> inline std::vector<T> cast(const std::vector<double>& v) { return std::vector<T>(v.begin(), v.end()); }
template <typename T> inline bool same(const T* a, const std::vector<T>& b) { return b.empty() || memcmp(a, b.data(), b.size() * sizeof(T)) == 0; }
// paths of files: long ones, and names with every kind of character; the folders are made when the path is chosen
struct Path { std::string p; std::vector<std::string> dirs; Path(const Path&) = delete; Path() {} ~Path() { unlink(p.c_str()); for (size_t i = dirs.size(); i-- > 0;) rmdir(dirs[i].c_str()); } };
inline void path(mc::Ctx& c, Path& out, const char* ext) {
    const char* d = getenv("MC_SCRATCH"); std::string base = std::string(d ? d : "/tmp") + "/path" + std::to_string(getpid()); mkdir(base.c_str(), 0700); out.dirs.push_back(base);
    const int kind = c.choose(12, "path"); std::string name = "a";
    const char* names[] = {"two words", "caf\xC3\xA9 \xE6\x97\xA5", "50%s%n%d", "dots.in.name", "-dash", "UPPER", "quote'\"`$(x)", "~tilde#?*"};
    if (kind < 4) { const size_t total = kind == 0 ? 120 : kind == 1 ? 256 : kind == 2 ? 300 : 700; while (base.size() + 2 < total) { base += "/" + std::string(std::min<size_t>(200, total - base.size() - 1), 'd'); mkdir(base.c_str(), 0700); out.dirs.push_back(base); } } else name = names[kind - 4];
    out.p = base + "/" + name + "." + ext;
}
}
