// C38: every history of logger lifetimes, insertions, manipulators and settings against a plain-text model.
#include <iostream>
#include <sstream>
#include <memory>
#include <edsp/core/logger.hpp>
#include <edsp/core/library_info.hpp>
#include <edsp/core/system.hpp>
#include "inputs.hpp"
using mc::Ctx; typedef std::string S; using edsp::logger;
static S esc(const S& s) { S o; for (unsigned char ch : s) { if (ch >= 32 && ch < 127) o += (char)ch; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); o += b; } } return "\"" + o + "\""; }
// what std::cout receives while one of these lives
struct Capture { std::stringbuf b; std::streambuf* old; Capture() : old(std::cout.rdbuf(&b)) {} ~Capture() { std::cout.rdbuf(old); } S get() { std::cout.flush(); return b.str(); } };
static void defaults() { logger::set_default_level(logger::trace); logger::set_default_name("console"); logger::set_default_path(""); }

template <typename T> static S plain(const T& v) { std::ostringstream o; o << v; return o.str() + " "; }
static const char heap_text[] = {'v', 'i', 'e', 'w', 'X', 'Y', '\0'};
struct Op { const char* name; void (*run)(logger&); S want; };
template <typename M> static logger& manip(logger& l, M m) { return l << m; }
static const std::vector<Op>& ops() {
    using namespace edsp; static const std::vector<Op> v = {
        {"int32 -2147483648", [](logger& l) { l << std::int32_t(-2147483647 - 1); }, "-2147483648 "},
        {"uint32 max", [](logger& l) { l << std::uint32_t(4294967295u); }, "4294967295 "},
        {"int16", [](logger& l) { l << std::int16_t(-32768); }, "-32768 "},
        {"uint16", [](logger& l) { l << std::uint16_t(65535); }, "65535 "},
        {"int64 min", [](logger& l) { l << std::int64_t(-9223372036854775807LL - 1); }, "-9223372036854775808 "},
        {"uint64 max", [](logger& l) { l << std::uint64_t(18446744073709551615ULL); }, "18446744073709551615 "},
        {"float", [](logger& l) { l << 0.1f; }, plain(0.1f)},
        {"double", [](logger& l) { l << -1e300; }, plain(-1e300)},
        {"literal", [](logger& l) { l << "text"; }, "text "},
        {"empty literal", [](logger& l) { l << ""; }, " "},
        {"string with NUL", [](logger& l) { l << S("a\0b", 3); }, S("a\0b ", 4)},
        {"long string", [](logger& l) { l << S(3000, 'z'); }, S(3000, 'z') + " "},
        {"unterminated view", [](logger& l) { std::unique_ptr<char[]> p(new char[4]); for (int i = 0; i < 4; ++i) p[i] = "view"[i]; l << edsp::basic_string_view<char>(p.get(), 4); }, "view "},
        {"part of a view", [](logger& l) { l << edsp::string_view(heap_text + 1, 2); }, "ie "},
        {"empty view", [](logger& l) { l << edsp::string_view(heap_text, 0); }, " "},
        {"space()", [](logger& l) { l.space(); }, " "},
        {"tab", [](logger& l) { l << edsp::tab; }, "\t"},
        {"endl", [](logger& l) { l << edsp::endl; }, "\n"},
        {"red", [](logger& l) { l << edsp::red; }, "\033[31m"},
        {"yellow", [](logger& l) { l << edsp::yellow; }, "\033[33m"},
        {"blue", [](logger& l) { l << edsp::blue; }, "\033[34m"},
        {"cyan", [](logger& l) { l << edsp::cyan; }, "\033[36m"},
        {"white", [](logger& l) { l << edsp::white; }, "\033[37m"},
        {"magenta", [](logger& l) { l << edsp::magenta; }, "\033[35m"},
        {"green", [](logger& l) { l << edsp::green; }, "\033[32m"},
        {"grey", [](logger& l) { l << edsp::grey; }, "\033[30m"},
        {"bold", [](logger& l) { l << edsp::bold; }, "\033[1m"},
        {"endc", [](logger& l) { l << edsp::endc; }, "\033[00m"},
        {"reset", [](logger& l) { l << edsp::reset; }, "\033[00m"},
        {"fft_lib", [](logger& l) { l << edsp::core::fft_lib::fftw; }, "FFTW "},
        {"unknown codec", [](logger& l) { l << edsp::core::codec_lib::unknown; }, "\033[31mnot found \033[00m"},
        {"own manipulator", [](logger& l) { l << logger::logger_manipulator([](logger& x) -> logger& { return x << "m"; }); }, "m "},
    };
    return v;
}
// one message, every word over every kind of insertion
SCENARIO(messages, 32) {
    defaults(); const auto& all = ops(); const int n = c.range(0, c.tier(3, 4)); std::vector<int> w(n); for (auto& x : w) x = c.choose((int)all.size(), "insertion");
    S want, names; Capture cap;
    {
        logger l("n", logger::info);
        for (int x : w) { names += S(all[x].name) + "; "; c.at("logger << %s", names.c_str()); all[x].run(l); want += all[x].want; if (!c.ok(l.str() == want)) c.fail(S("text ") + all[x].name, "after %sthe message is %s, expected %s", names.c_str(), esc(l.str()).c_str(), esc(want).c_str()); }
        c.check(cap.get().empty(), "early", "text delivered before the logger ended (%s): %s", names.c_str(), esc(cap.get()).c_str());
        c.check(l.name() == "n" && l.level() == logger::info, "identity", "name or level changed by %s", names.c_str());
    }
    want += "\033[00m"; if (!c.ok(cap.get() == want)) c.fail("delivered", "%sdelivered %s, expected %s", names.c_str(), esc(cap.get()).c_str(), esc(want).c_str());
}
// numbers appear as a stream with default settings writes them, whatever was written before
template <typename T> static void number(Ctx& c, const char* type, std::initializer_list<double> extra) {
    std::vector<T> v; for (double d : extra) if (!std::is_integral<T>::value || (d >= (double)std::numeric_limits<T>::min() && d <= (double)(std::numeric_limits<T>::max() / 2))) v.push_back((T)d); v.push_back(std::numeric_limits<T>::max()); v.push_back(std::numeric_limits<T>::lowest()); v.push_back(std::numeric_limits<T>::min());
    for (T a : v) for (T b : v) { c.at("logger << %s %s << %s", type, plain(a).c_str(), plain(b).c_str()); c.tick(); logger l("n", logger::off); l << a << edsp::red << b; const S want = plain(a) + "\033[31m" + plain(b); if (!c.ok(l.str() == want)) c.fail(S("number ") + type, "%s, %s in a message: %s, expected %s", plain(a).c_str(), plain(b).c_str(), esc(l.str()).c_str(), esc(want).c_str()); }
}
SCENARIO(numbers, 8) {
    defaults(); const std::initializer_list<double> d = {0, -0.0, 1, -1, 3, 10, 100, 255, 256, 999, 1000, 65535, 65536, 99999, 100000, 999999, 1e6, 1000001, 1e7, 123456789, 4294967295.0, 4294967296.0, 1e15, 1e18, -1e6, 0.1, 0.5, 2.5, 1e-4, 1e-5, 123456.5, 1234567.5, 3.14159265358979, 1e300, -1e-300, 1.0 / 3, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()};
    switch (c.choose(8, "type")) { case 0: number<std::int16_t>(c, "int16", d); break; case 1: number<std::uint16_t>(c, "uint16", d); break; case 2: number<std::int32_t>(c, "int32", d); break; case 3: number<std::uint32_t>(c, "uint32", d); break; case 4: number<std::int64_t>(c, "int64", d); break; case 5: number<std::uint64_t>(c, "uint64", d); break; case 6: number<float>(c, "float", d); break; default: number<double>(c, "double", d); }
}
// chained temporaries, as the convenience macros use them, at every level
SCENARIO(macros, 4) {
    defaults(); const int d = c.range(0, 6), m = c.choose(6, "macro"); logger::set_default_level((logger::levels)d); Capture cap;
    switch (m) { case 0: eTrace() << "x" << 1 << edsp::red << 2.5; break; case 1: eDebug() << "x" << 1 << edsp::red << 2.5; break; case 2: eInfo() << "x" << 1 << edsp::red << 2.5; break; case 3: eWarning() << "x" << 1 << edsp::red << 2.5; break; case 4: eError() << "x" << 1 << edsp::red << 2.5; break; default: eCritical() << "x" << 1 << edsp::red << 2.5; }
    const S got = cap.get(), want = m >= d ? "x 1 \033[31m2.5 \033[00m" : ""; if (!c.ok(got == want)) c.fail("macro", "message of level %d with minimum level %d delivered %s", m, d, esc(got).c_str()); defaults();
}
// every byte and every pair of bytes as text
SCENARIO(bytes, 8) {
    defaults(); const int a = c.choose(256, "byte"); for (int b = 0; b < 256; ++b) { const char t[2] = {(char)a, (char)b}; Capture cap; S want;
        { logger l(logger::critical); l << S(t, 2) << edsp::string_view(t, 2) << edsp::string_view(t, 1) << std::uint8_t(a) << std::int8_t(b); want = S(t, 2) + " " + S(t, 2) + " " + S(t, 1) + " " + S(1, (char)a) + " " + S(1, (char)b) + " \033[00m"; if (a && b) { const char z[3] = {(char)a, (char)b, 0}; l << z; want = want.substr(0, want.size() - 5) + S(t, 2) + " \033[00m"; } }
        if (!c.ok(cap.get() == want)) c.fail("bytes", "bytes %d %d delivered %s", a, b, esc(cap.get()).c_str()); }
}
// life cycles of up to two loggers interleaved with the settings
SCENARIO(histories, 32) {
    defaults(); const int depth = c.tier(6, 8); Capture cap; std::unique_ptr<logger> l[2]; S text[2], name[2]; int lev[2] = {0, 0}; S out, dn = "console", dp, hist; int dl = 0, ids = 0;
    for (int k = 0; k < depth; ++k) {
        mc::Hash h; for (int i = 0; i < 2; ++i) { h << (l[i] ? 1 : 0); if (l[i]) h << text[i] << name[i] << lev[i]; } h << out << dn << dp << dl; c.state(h.value(), depth - k);
        const int op = c.choose(14, "operation"); const int i = op >= 7 && op < 14; const int o = op % 7; char b[100];
        if (o <= 1) {   // create or destroy
            if (o == 0) { if (l[i]) throw mc::Prune{}; const int kind = c.choose(4, "constructor"); lev[i] = kind == 0 ? 0 : c.pick({0, 3, 6}); S nm = "N" + std::to_string(++ids);
                l[i].reset(kind == 0 ? new logger() : kind == 1 ? new logger((logger::levels)lev[i]) : kind == 2 ? new logger(edsp::string_view(nm.data(), nm.size()), (logger::levels)lev[i]) : new logger(edsp::string_view(nm.data(), nm.size()), "console", (logger::levels)lev[i]));
                name[i] = kind < 2 ? dn : nm; text[i] = ""; snprintf(b, sizeof b, "create %d (kind %d, level %d); ", i, kind, lev[i]); }
            else { if (!l[i]) throw mc::Prune{}; l[i].reset(); if (lev[i] != 6 && lev[i] >= dl) out += text[i] + "\033[00m"; snprintf(b, sizeof b, "end %d; ", i); }
        } else if (o <= 3) { if (!l[i]) throw mc::Prune{}; if (o == 2) { *l[i] << "a" << (i ? 7 : 8); text[i] += i ? "a 7 " : "a 8 "; } else { *l[i] << edsp::red << edsp::tab; text[i] += "\033[31m\t"; } snprintf(b, sizeof b, "insert %d; ", i); }
        else if (o == 4) { if (!l[i]) throw mc::Prune{}; lev[i] = c.pick({0, 3, 6}); l[i]->set_level((logger::levels)lev[i]); snprintf(b, sizeof b, "set_level %d to %d; ", i, lev[i]); }
        else if (o == 5) { if (i) { dn = c.pick({S("core"), S()}); logger::set_default_name(dn); } else { dl = c.pick({0, 2, 4, 6}); logger::set_default_level((logger::levels)dl); } snprintf(b, sizeof b, "default level %d name %s; ", dl, dn.c_str()); }
        else { if (i) throw mc::Prune{}; dp = "/p"; logger::set_default_path(dp); snprintf(b, sizeof b, "default path; "); }
        hist += b; c.at("%s", hist.c_str());
        for (int j = 0; j < 2; ++j) if (l[j]) { if (!c.ok(l[j]->str() == text[j])) c.fail("text", "%slogger %d holds %s, expected %s", hist.c_str(), j, esc(l[j]->str()).c_str(), esc(text[j]).c_str()); if (!c.ok(l[j]->name() == name[j])) c.fail("name", "%slogger %d is named %s, expected %s", hist.c_str(), j, esc(l[j]->name()).c_str(), esc(name[j]).c_str()); if (!c.ok(l[j]->level() == lev[j])) c.fail("level", "%slogger %d has level %d, expected %d", hist.c_str(), j, (int)l[j]->level(), lev[j]); }
        if (!c.ok(logger::default_level() == dl && logger::default_name() == dn && logger::default_path() == dp)) c.fail("settings", "%sdefaults are not those last set", hist.c_str());
        if (!c.ok(cap.get() == out)) c.fail("delivered", "%sdelivered %s, expected %s", hist.c_str(), esc(cap.get()).c_str(), esc(out).c_str());
    }
}
