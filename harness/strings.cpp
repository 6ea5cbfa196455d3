// C25: split, join, trim, case conversion over every short word of an alphabet covering each class of character.
#include <stdexcept>
#include <algorithm>
#include <string>
#include <edsp/string/split.hpp>
#include <edsp/string/join.hpp>
#include <edsp/string/trim.hpp>
#include <edsp/string/to_lower.hpp>
#include <edsp/string/to_upper.hpp>
#include "inputs.hpp"
using mc::Ctx; typedef std::string S;
static S esc(const S& s) { S o; for (unsigned char ch : s) { if (ch > 32 && ch < 127) o += (char)ch; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); o += b; } } return "\"" + o + "\""; }
static S esc(const std::vector<S>& v) { S o; for (auto& s : v) o += esc(s) + " "; return "[" + o + "]"; }
static bool ws(char ch) { return ch == ' ' || ch == '\t' || ch == '\n' || ch == '\v' || ch == '\f' || ch == '\r'; }
static char low(char ch) { return ch >= 'A' && ch <= 'Z' ? ch + 32 : ch; }
static char up(char ch) { return ch >= 'a' && ch <= 'z' ? ch - 32 : ch; }
static std::vector<S> segs(const S& s, char d) { std::vector<S> r; S cur; for (char ch : s) { if (ch == d) { if (!cur.empty()) r.push_back(cur); cur.clear(); } else cur += ch; } if (!cur.empty()) r.push_back(cur); return r; }
static S glue(const std::vector<S>& v, char d) { S r; for (size_t i = 0; i < v.size(); ++i) { if (i) r += d; r += v[i]; } return r; }
static void all(Ctx& c, const S& s, char d) {
    c.at("strings: %s delimiter %s", esc(s).c_str(), esc(S(1, d)).c_str()); const auto want = segs(s, d);
    { const S in = s; std::vector<S> got; edsp::string::split(in, std::back_inserter(got), d); if (!c.ok(got == want)) c.fail("split", "split(%s, %s) = %s, expected %s", esc(s).c_str(), esc(S(1, d)).c_str(), esc(got).c_str(), esc(want).c_str()); c.check(in == s, "split-input", "split changed its input");
      in::Exact<S> raw(want.size()); edsp::string::split(s, raw.begin(), d); c.check(std::equal(want.begin(), want.end(), raw.begin()), "split", "split into an array");
      if (d == ' ') { std::list<S> l; edsp::string::split(s, std::back_inserter(l)); c.check(std::vector<S>(l.begin(), l.end()) == want, "split-default", "default delimiter of split(%s)", esc(s).c_str()); }
      S back = "old"; edsp::string::join(got.begin(), got.end(), back, d); if (!c.ok(back == glue(want, d))) c.fail("split-join", "join(split(%s)) = %s", esc(s).c_str(), esc(back).c_str()); }
    { S l = s, r = s, t = s; edsp::string::ltrim(l); edsp::string::rtrim(r); edsp::string::trim(t); size_t a = 0, b = s.size(); while (a < s.size() && ws(s[a])) ++a; while (b > 0 && ws(s[b - 1])) --b;
      if (!c.ok(l == s.substr(a))) c.fail("ltrim", "ltrim(%s) = %s", esc(s).c_str(), esc(l).c_str()); if (!c.ok(r == s.substr(0, b))) c.fail("rtrim", "rtrim(%s) = %s", esc(s).c_str(), esc(r).c_str()); if (!c.ok(t == (a < b ? s.substr(a, b - a) : S()))) c.fail("trim", "trim(%s) = %s", esc(s).c_str(), esc(t).c_str()); }
    { S wl, wu; for (char ch : s) { wl += low(ch); wu += up(ch); } in::Exact<char> a(s, 0), o(s.size(), 0, '!'); edsp::string::tolower((const char*)a.begin(), (const char*)a.end(), o.begin()); if (!c.ok(S(o.begin(), o.end()) == wl)) c.fail("tolower", "tolower(%s) = %s", esc(s).c_str(), esc(S(o.begin(), o.end())).c_str());
      edsp::string::toupper((const char*)a.begin(), (const char*)a.end(), o.begin()); if (!c.ok(S(o.begin(), o.end()) == wu)) c.fail("toupper", "toupper(%s) = %s", esc(s).c_str(), esc(S(o.begin(), o.end())).c_str()); c.check(S(a.begin(), a.end()) == s, "case-input", "case conversion changed its input");
      S p = s; edsp::string::tolower(p.begin(), p.end(), p.begin()); c.check(p == wl, "tolower-inplace", "tolower in place of %s", esc(s).c_str()); p = s; edsp::string::toupper(p.begin(), p.end(), std::begin(p)); c.check(p == wu, "toupper-inplace", "toupper in place of %s", esc(s).c_str()); }
}
SCENARIO(words, 16) {
    const int n = c.range(0, c.tier(6, 7)); S s; const char d = c.pick({' ', ',', 'a', '\0'}); for (int i = 0; i < n; ++i) s += c.pick({' ', '\t', ',', 'a', 'Z', '\0', '\n'}); all(c, s, d);
}
// every byte, alone, at either end and as delimiter
SCENARIO(bytes, 8) {
    const char ch = (char)c.choose(256, "byte");
    for (const S& s : {S(1, ch), S("aB") + ch, S(1, ch) + "aB", S("a") + ch + "B", S(2, ch) + " " + S(2, ch), S(" ") + ch + " "}) for (int d = 0; d < 256; ++d) all(c, s, (char)d);
}
// long strings: many segments, long runs
SCENARIO(lengths, 4) {
    const int k = c.choose(4, "pattern"); for (int n = 0; n <= c.tier(300, 2000); n += n < 40 ? 1 : 37) { S s; for (int i = 0; i < n; ++i) s += k == 0 ? 'x' : k == 1 ? (i % 2 ? ' ' : 'y') : k == 2 ? ' ' : (i % 7 == 3 ? ' ' : (char)('A' + i % 57)); all(c, s, ' '); all(c, " " + s + " ", ','); }
}
SCENARIO(long_strings, 4) {
    const int k = c.choose(5, "pattern"), n = c.pick({4096, 32769, 65537, 70001}, "length"); c.split(); S s; for (int i = 0; i < n; ++i) s += k == 0 ? 'x' : k == 1 ? (i % 2 ? ' ' : 'y') : k == 2 ? ' ' : k == 3 ? (i % 7 == 3 ? ' ' : (char)('A' + i % 57)) : (i + 2 < n ? 'q' : '\t'); all(c, s, ' '); if (k == 4) all(c, S(n - 1, ' ') + "z", ',');
}
// joining sequences of every length, including empty elements and non-string elements
SCENARIO(joins, 8) {
    const int n = c.range(0, c.tier(5, 6)); const char d = c.pick({' ', ',', '\0'}); std::vector<S> v(n); for (auto& e : v) e = c.pick({S(), S("a"), S(" b "), S("c\0d", 3), S(",")});
    c.at("join %s", esc(v).c_str()); std::list<S> l(v.begin(), v.end()); S o1 = "old", o2; edsp::string::join(v.begin(), v.end(), o1, d); edsp::string::join(l.cbegin(), l.cend(), o2, d); const S w = glue(v, d);
    if (!c.ok(o1 == w)) c.fail("join", "join(%s) = %s", esc(v).c_str(), esc(o1).c_str()); c.check(o2 == w, "join", "join of a list %s = %s", esc(v).c_str(), esc(o2).c_str());
    if (d == ' ') { S o; edsp::string::join(v.begin(), v.end(), o); c.check(o == w, "join-default", "default delimiter"); }
    std::vector<int> iv; std::vector<S> is; for (int i = 0; i < n; ++i) { iv.push_back(i * 37 - 40); is.push_back(std::to_string(i * 37 - 40)); } S o; edsp::string::join(iv.begin(), iv.end(), o, d); c.check(o == glue(is, d), "join-int", "join of integers %s", esc(o).c_str());
}
