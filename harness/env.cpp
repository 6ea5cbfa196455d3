// C26: system_env under every interleaving.  The real library code runs on fibers; the pthread locks and the environment
// functions it reaches are interposed so that the explorer decides, at each of them, which thread runs next.
#include <stdlib.h>
#include <stdexcept>
#include <edsp/core/system.hpp>
#include "sched.hpp"
using mc::Ctx; typedef edsp::system_env Env; typedef std::string S;
extern char** environ;
extern "C" {
// The environment itself: the real one of this process, entered and left at scheduling points.
static char* find(const char* n) { const size_t l = strlen(n); if (!l) return nullptr; for (char** e = environ; e && *e; ++e) if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1; return nullptr; }
char* getenv(const char* n) noexcept { if (!sched::in_fiber()) return find(n); sched::enter(false, "getenv during a write"); char* r = find(n); sched::leave(false); return r; }
char* secure_getenv(const char* n) noexcept { return getenv(n); }
int setenv(const char* n, const char* v, int o) noexcept { static auto r = real<int (*)(const char*, const char*, int)>("setenv"); if (!sched::in_fiber()) return r(n, v, o); sched::enter(true, "setenv during another access"); int rc; if (sched::fault) { errno = sched::fault; rc = -1; } else rc = r(n, v, o); const int e = errno; sched::leave(true); errno = e; return rc; }
int unsetenv(const char* n) noexcept { static auto r = real<int (*)(const char*)>("unsetenv"); if (!sched::in_fiber()) return r(n); sched::enter(true, "unsetenv during another access"); const int rc = r(n); sched::leave(true); return rc; }
int putenv(char* s) noexcept { static auto r = real<int (*)(char*)>("putenv"); if (!sched::in_fiber()) return r(s); sched::enter(true, "putenv during another access"); const int rc = r(s); sched::leave(true); return rc; }
}
// ---- operations, specification -----------------------------------------------------------------
struct Op { int kind; S name, value; };   // 0 get, 1 exist, 2 set, 3 set without overwriting
struct Done { int thread; Op op; S result; int begin, end; };
typedef std::map<S, S> M;
static S show(const Op& o) { static const char* k[] = {"get", "exist", "set", "set-keep"}; return S(k[o.kind]) + " " + o.name + (o.kind > 1 ? "=" + o.value : ""); }
static S spec(M& m, const Op& o) {
    if (o.name.empty()) return o.kind == 1 ? "0" : "empty"; auto i = m.find(o.name);
    if (o.kind == 0) return i == m.end() ? "not_found" : "value " + i->second; if (o.kind == 1) return i == m.end() ? "0" : "1";
    if (o.name.find('=') != S::npos) return "invalid"; if (o.kind == 2 || i == m.end()) m[o.name] = o.value; return "ok";
}
static S err(Env::error e) { switch (e) { case Env::error::no_error: return "ok"; case Env::error::empty: return "empty"; case Env::error::not_found: return "not_found"; case Env::error::invalid_argument: return "invalid"; case Env::error::no_memory: return "no_memory"; default: return "unknown"; } }
static S perform(const Op& o) {
    const edsp::string_view n(o.name.data(), o.name.size()), v(o.value.data(), o.value.size());
    switch (o.kind) { case 0: { auto r = Env::get_env(n); return r ? "value " + S(r->data(), r->size()) : err(r.error()); } case 1: return Env::exist(n) ? "1" : "0"; case 2: return err(Env::set_env(n, v)); default: return err(Env::set_env(n, v, false)); }
}
static bool linear(std::vector<Done>& h, std::vector<bool>& used, M m, size_t left) {
    if (!left) return true; int first_end = 1 << 30; for (size_t i = 0; i < h.size(); ++i) if (!used[i]) first_end = std::min(first_end, h[i].end);
    for (size_t i = 0; i < h.size(); ++i) if (!used[i] && h[i].begin < first_end) { M k = m; if (spec(k, h[i].op) != h[i].result) continue; used[i] = true; if (linear(h, used, k, left - 1)) return true; used[i] = false; }
    return false;
}
static std::vector<std::vector<Op>> prog; static std::vector<Done> hist; static int stamp = 0; static uint64_t shape[sched::MAXT];
static void thread_body(int t) { for (auto& o : prog[t]) { const size_t slot = hist.size(); hist.push_back({t, o, "", ++stamp, 1 << 30}); const S r = perform(o); hist[slot].result = r; hist[slot].end = ++stamp; mc::Hash k; k.add(shape[t]).add(r); shape[t] = k.value(); } }
static M env_now() { M m; for (char** e = environ; e && *e; ++e) { const char* q = strchr(*e, '='); if (q) m[S(*e, q - *e)] = q + 1; } return m; }
static void explore(Ctx& c) {
    using namespace sched; prepare((int)prog.size(), thread_body); hist.clear(); stamp = 0; clearenv(); M initial; if (c.choose(2, "initially")) { ::setenv("A", "0", 1); initial["A"] = "0"; }
    for (int i = 0; i < n; ++i) shape[i] = 0;
    S text; for (auto& t : prog) { text += "["; for (auto& o : t) text += show(o) + "; "; text += "] "; } c.log("program %s", text.c_str());
    for (int steps = 0;; ++steps) {
        std::vector<int> en; for (int i = 0; i < n; ++i) if (enabled(i)) en.push_back(i);
        if (!unfinished()) break; if (!c.ok(!en.empty())) c.fail("deadlock", "no thread can run although some have not finished: %s", text.c_str()); if (!c.ok(steps < 5000)) c.fail("livelock", "no progress after 5000 steps: %s", text.c_str());
        mc::Hash h; h.add(text); h.add((int)initial.size()); for (int i = 0; i < n; ++i) { h.add(f[i].pc).add(f[i].done).add(shape[i]).add(f[i].wait != nullptr); } for (auto& d : hist) h.add(d.thread).add(d.end == (1 << 30)); for (auto& e : env_now()) h.add(e.first).add(e.second); for (auto& l : locks) h.add(l.second.writer).add((int)l.second.readers.size()); h.add(readers_in).add(writers_in);
        c.state(h.value(), 1);
        const int t = en[c.choose((int)en.size(), "thread")]; run(t);
        if (!c.ok(!overlap)) c.fail("exclusion", "%s, in %s", overlap_text.c_str(), text.c_str());
    }
    for (auto& l : locks) c.check(l.second.writer < 0 && l.second.readers.empty(), "lock-held", "a lock is still held after every call returned: %s", text.c_str());
    std::vector<bool> used(hist.size()); S res; for (auto& d : hist) res += show(d.op) + " -> " + d.result + "; ";
    if (!c.ok(linear(hist, used, initial, hist.size()))) c.fail("results", "no sequential order of the calls explains their results: %s(initially %s)", res.c_str(), initial.empty() ? "empty" : "A=0");
}
static Op menu(int k) { static const Op m[] = {{2, "A", "1"}, {0, "A", ""}, {3, "A", "2"}, {1, "A", ""}, {2, "B", ""}, {0, "B", ""}, {0, "", ""}}; return m[k]; }
SCENARIO(two_threads, 8) { prog.assign(2, {}); for (auto& t : prog) for (int i = 0; i < 2; ++i) t.push_back(menu(c.choose(c.tier(5, 7), "operation"))); explore(c); }
SCENARIO(three_threads, 8) { prog.assign(3, {}); for (auto& t : prog) t.push_back(menu(c.choose(c.tier(4, 7), "operation"))); explore(c); }
SCENARIO(three_threads_two, 8) { prog.assign(3, {}); for (size_t t = 0; t < 3; ++t) for (size_t i = 0; i < (t == 2 ? 1u : 2u); ++i) prog[t].push_back(menu(c.choose(c.tier(3, 5), "operation"))); explore(c); }
// sequential histories: every sequence of calls against the specification, names and values as views of longer text, faults of setenv
SCENARIO(histories, 8) {
    const int n = c.tier(4, 5); clearenv(); sched::cur = -1; M m; S trace;
    for (int i = 0; i < n; ++i) {
        const int kind = c.choose(4, "operation"); static const S names[] = {"A", "AB", "", "A=B"}; const S name = names[c.choose(4, "name")]; const int val = kind > 1 ? c.choose(3, "value") : 0; static const S vals[] = {"", "x", "y=z"}; Op o{kind, name, vals[val]};
        const S n2 = name + "BCD", v2 = o.value + "tail"; const edsp::string_view nv(n2.data(), name.size()), vv(v2.data(), o.value.size()); S r; trace += show(o) + "; "; c.at("%s", trace.c_str());
        switch (kind) { case 0: { auto g = Env::get_env(nv); r = g ? "value " + S(g->data(), g->size()) : err(g.error()); break; } case 1: r = Env::exist(nv) ? "1" : "0"; break; case 2: r = err(Env::set_env(nv, vv)); break; default: r = err(Env::set_env(nv, vv, false)); }
        const S w = spec(m, o); if (!c.ok(r == w)) c.fail("history", "%s returned %s, expected %s", trace.c_str(), r.c_str(), w.c_str()); if (!c.ok(env_now() == m)) c.fail("contents", "the environment after %s differs from what was set", trace.c_str());
    }
}
static Env::error fault_result; static Env::error fault_exists;
static void fault_body(int) { fault_result = Env::set_env("A", "1"); }
SCENARIO(faults, 1) {
    c.at("default views"); { auto g = Env::get_env(edsp::string_view()); c.check(!g && g.error() == Env::error::empty, "null-name", "get_env of a default view"); c.check(!Env::exist(edsp::string_view()), "null-name", "exist of a default view"); c.check(Env::set_env(edsp::string_view(), "x") == Env::error::empty, "null-name", "set_env of a default view"); c.check(Env::set_env("N", edsp::string_view()) == Env::error::no_error && Env::exist("N"), "null-value", "set_env with a default value"); }
    static const struct { int e; Env::error want; } k[] = {{ENOMEM, Env::error::no_memory}, {EINVAL, Env::error::invalid_argument}, {EPERM, Env::error::unknown}};
    for (auto& q : k) { c.at("setenv fails with %d", q.e); using namespace sched; fault = q.e; n = 1; tls_reset(0); body = fault_body; locks.clear(); readers_in = writers_in = 0; f[0].done = false; f[0].wait = nullptr; if (!f[0].stack) f[0].stack = (char*)malloc(256 << 10); getcontext(&f[0].ctx); f[0].ctx.uc_stack.ss_sp = f[0].stack; f[0].ctx.uc_stack.ss_size = 256 << 10; f[0].ctx.uc_link = &main_ctx; makecontext(&f[0].ctx, (void (*)())entry, 1, 0);
        clearenv(); for (int i = 0; i < 100 && !f[0].done; ++i) run(0); fault = 0; c.check(f[0].done, "fault", "set_env did not return"); c.check(fault_result == q.want, "fault", "setenv failing with errno %d reported as %d", q.e, (int)fault_result); for (auto& l : locks) c.check(l.second.writer < 0, "fault-lock", "the lock is held after a failed set_env"); }
}
