// C41: every public header can be included alone, next to every other one in any order, and in several
// translation units of one program, under C++14 and C++17.  Each execution is one program, compiled by the
// real compiler from the current tree.
#include <dirent.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <algorithm>
#include "mc.hpp"
using mc::Ctx;
static std::string repo() { const char* r = getenv("EDSP_REPO"); return r ? r : "/repo"; }
static void walk(const std::string& dir, const std::string& rel, std::vector<std::string>& out) {
    DIR* d = opendir(dir.c_str()); if (!d) return;
    while (dirent* e = readdir(d)) { std::string n = e->d_name; if (n[0] == '.') continue;
        const std::string p = dir + "/" + n, r = rel + "/" + n; struct stat s; if (stat(p.c_str(), &s)) continue;
        if (S_ISDIR(s.st_mode)) walk(p, r, out);
        else if (n.size() > 4 && n.compare(n.size() - 4, 4, ".hpp") == 0) out.push_back(r); }
    closedir(d);
}
// back ends of other third-party libraries (not installed) and the bundled third-party headers are reached through the public ones
static const std::vector<std::string>& headers() {
    static std::vector<std::string> h; if (!h.empty()) return h;
    walk(repo() + "/include/edsp", "edsp", h); std::vector<std::string> k;
    for (auto& x : h) if (x.find("/internal/") == std::string::npos && x.find("/thirdparty/") == std::string::npos) k.push_back(x);
    std::sort(k.begin(), k.end()); h = k; return h;
}
static std::string scratch() { const char* s = getenv("MC_SCRATCH"); return (s ? std::string(s) : "/tmp") + "/hdr" + std::to_string(getpid()); }
static int sh(Ctx& c, const std::vector<std::string>& args, std::string& out) {
    const std::string log = scratch() + ".log"; fflush(nullptr);
    pid_t p = fork();
    if (p == 0) { int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 1); dup2(fd, 2); std::vector<char*> v; for (auto& a : args) v.push_back(const_cast<char*>(a.c_str())); v.push_back(nullptr); execvp(v[0], v.data()); _exit(127); }
    int st = 0; while (waitpid(p, &st, WNOHANG) == 0) { usleep(5000); c.tick(); }
    FILE* f = fopen(log.c_str(), "r"); out.clear(); if (f) { char b[20000]; size_t n = fread(b, 1, sizeof b - 1, f); out.assign(b, n); fclose(f); } unlink(log.c_str());
    return WIFEXITED(st) ? WEXITSTATUS(st) : 128;
}
static std::string first_error(const std::string& log) { size_t k = log.find("error:"); if (k == std::string::npos) k = log.find("multiple definition"); if (k == std::string::npos) return log.substr(0, 400); size_t b = log.rfind('\n', k); b = b == std::string::npos ? 0 : b + 1; return log.substr(b, 400); }
static void put(const std::string& f, const std::string& s) { FILE* h = fopen(f.c_str(), "w"); fwrite(s.data(), 1, s.size(), h); fclose(h); }
static std::string incl(const std::vector<std::string>& hs) { std::string s; for (auto& h : hs) s += "#include <" + h + ">\n"; return s; }
static std::vector<std::string> flags(const std::string& std_, bool ndebug) {
    std::vector<std::string> a = {"g++", "-std=" + std_, "-include", "cstdint", "-w", "-O0", "-fmax-errors=3", "-DUSE_LIBFFTW", "-DUSE_LIBSNDFILE", "-DUSE_LIBSAMPLERATE", "-DUSE_TAGLIB", "-I" + repo() + "/include", "-I/usr/include/taglib"};
    if (ndebug) a.push_back("-DNDEBUG"); return a;
}
static void accepts(Ctx& c, const std::string& text, const std::string& what, const char* key, const std::string& std_, bool ndebug) {
    const std::string f = scratch() + ".cpp"; put(f, text + "int main() { return 0; }\n");
    auto a = flags(std_, ndebug); a.insert(a.end(), {"-fsyntax-only", f}); std::string log; c.at("%s under %s", what.c_str(), std_.c_str());
    const int rc = sh(c, a, log); unlink(f.c_str());
    if (rc == 127 || rc == 128) { fprintf(stderr, "compiler did not run\n"); _exit(77); }
    if (!c.ok(rc == 0)) c.fail(key, "%s does not compile under %s: %s", what.c_str(), std_.c_str(), first_error(log).c_str());
}
static const char* STD[] = {"c++14", "c++17"};
SCENARIO(alone, 64) { const auto& h = headers(); const auto i = (size_t)c.choose((int)h.size(), "header"); const std::string s = STD[c.choose(2, "standard")]; c.split();
    accepts(c, incl({h[i]}), h[i] + " alone", ("alone:" + h[i]).c_str(), s, true); accepts(c, incl({h[i], h[i]}), h[i] + " twice, debug", ("alone-debug:" + h[i]).c_str(), s, false); }
// each header first and last among all the others, so that it is seen before and after every other one
SCENARIO(orders, 16) { auto h = headers(); const int k = c.choose(c.tier(8, (int)h.size()), "rotation"), dir = c.choose(2, "direction"), s = c.choose(2, "standard"); c.split();
    std::rotate(h.begin(), h.begin() + (long)((size_t)k * h.size() / (size_t)c.tier(8, (int)h.size())), h.end()); if (dir) std::reverse(h.begin(), h.end());
    accepts(c, incl(h), "all headers, " + h[0] + " first" + (dir ? ", backwards" : ""), "orders", STD[s], true); }
// two translation units that include everything, in opposite orders, make one program
SCENARIO(several_units, 2) { const int s = c.choose(2, "standard"); c.split(); auto h = headers(); const std::string base = scratch(); std::vector<std::string> objs; std::string log;
    for (int u = 0; u < 3; ++u) { if (u == 1) std::reverse(h.begin(), h.end()); const std::string f = base + "_" + std::to_string(u) + ".cpp", o = base + "_" + std::to_string(u) + ".o";
        put(f, incl(h) + (u == 0 ? "int main() { return 0; }\n" : "int unit" + std::to_string(u) + "() { return 0; }\n")); auto a = flags(STD[s], true); a.insert(a.end(), {"-c", f, "-o", o}); const int rc = sh(c, a, log); unlink(f.c_str());
        if (!c.ok(rc == 0)) c.fail("unit", "a unit including every header does not compile: %s", first_error(log).c_str()); objs.push_back(o); }
    std::vector<std::string> a = {"g++"}; a.insert(a.end(), objs.begin(), objs.end()); a.insert(a.end(), {"-o", base + ".out", "-lfftw3", "-lfftw3f", "-lfftw3l", "-lsndfile", "-lsamplerate", "-ltag"}); const int rc = sh(c, a, log); for (auto& o : objs) unlink(o.c_str()); unlink((base + ".out").c_str());
    if (!c.ok(rc == 0)) c.fail("link", "units that include every header do not link (%s): %s", STD[s], first_error(log).c_str());
}
// a program that includes one header and uses it needs no other include, in both build types
struct Use { const char *header, *body; };
static const Use USES[] = {
#include "header_uses.inc"
};
SCENARIO(used_alone, 64) { const auto i = (size_t)c.choose((int)(sizeof USES / sizeof *USES), "use"); const int s = c.choose(2, "standard"), nd = c.choose(2, "NDEBUG"), t = c.choose(2, "type"); c.split();
    const std::string h = USES[i].header;
    accepts(c, "#include <" + h + ">\nusing T = " + (t ? "float" : "double") + ";\nT x[8] = {1, 2, 3, 4, 5, 6, 7, 8}, y[32];\nvoid use() { " + USES[i].body + " }\n", "a use of " + h, ("use:" + h).c_str(), STD[s], nd != 0); }
