// mc.hpp - a small stateless / explicit-state model checker for real C++ code.
//
// A *scenario* is an ordinary function that drives the code under test next to a reference
// model and takes every non-deterministic decision (which operation, which argument, which
// fault, which thread runs next) through Ctx::choose(n).  The explorer re-runs the scenario
// until every combination of choices has been executed once (depth-first enumeration of the
// choice tree).  Ctx::state(h, remaining) turns the search into explicit-state search: a state
// that was already expanded with at least as many remaining steps is not expanded again.
//
// Every execution runs the implementation itself, so every enumerated trace is validated
// against the implementation.  Crashes, sanitizer reports and hangs are violations too: the
// choices made so far live in shared memory and survive the death of the worker.
#pragma once
#include <algorithm>
#include <chrono>
#include <cmath>
#include <complex>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {

struct Violation { std::string key, msg; };
struct Prune {};
struct Skip {};

struct Shared {                       // survives a crash of the worker
    volatile uint64_t executions;
    volatile uint64_t progress;
    volatile uint32_t depth;
    volatile uint16_t path[4096];
    volatile char where[512];         // last ctx.at(...) marker
};

struct Stats {
    uint64_t executions = 0, transitions = 0, evals = 0, pruned = 0, nontrivial = 0;
    bool complete = true;
};

class Ctx {
public:
    // ---- for scenarios -------------------------------------------------------------
    bool thorough() const { return thorough_; }
    template <typename T> T tier(T quick, T deep) const { return thorough_ ? deep : quick; }

    int choose(int n, const char* label = "") {
        if (n <= 0) fatal("choose(0)");
        uint32_t c;
        if (pos_ < path_.size()) {
            c = path_[pos_];
            if (!replay_ && arity_[pos_] != static_cast<uint32_t>(n)) fatal("non-deterministic scenario");
            if (replay_ && c >= static_cast<uint32_t>(n)) fatal("replay choice out of range");
        } else {
            c = 0;
            path_.push_back(0);
            arity_.push_back(static_cast<uint32_t>(n));
        }
        if (sh_ && pos_ < 4096) { sh_->path[pos_] = static_cast<uint16_t>(c); }
        ++pos_;
        if (sh_) { sh_->depth = static_cast<uint32_t>(pos_); sh_->progress = sh_->progress + 1; }
        ++st_.transitions;
        if (logging_ && n > 1) logf("  choose %s = %u of %d", label, c, n);
        shard_gate(n);
        return static_cast<int>(c);
    }
    template <typename C> auto pick(const C& c, const char* label = "") -> decltype(c[0]) {
        return c[static_cast<size_t>(choose(static_cast<int>(c.size()), label))];
    }
    template <typename T> T pick(std::initializer_list<T> l, const char* label = "") {
        return *(l.begin() + choose(static_cast<int>(l.size()), label));
    }
    int range(int lo, int hi, const char* label = "") { return lo + choose(hi - lo + 1, label); }

    // explicit-state pruning: returns normally the first time, throws Prune afterwards
    void state(uint64_t h, int remaining) {
        auto r = visited_.emplace(h, remaining);
        if (!r.second) {
            if (pos_ < fresh_from_) return;                 // replaying a known prefix
            if (r.first->second >= remaining) { ++st_.pruned; throw Prune{}; }
            r.first->second = remaining;
        }
    }
    void log(const char* fmt, ...) {
        if (!logging_) return;
        char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
        trace_.push_back(b);
        if (trace_fd_ >= 0) { std::string s = std::string(b) + "\n"; (void)!write(trace_fd_, s.data(), s.size()); }
    }
    // where-marker: cheap description of the case being executed, survives a crash
    void at(const char* fmt, ...) {
        char b[480]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
        if (sh_) { memcpy(const_cast<char*>(sh_->where), b, sizeof b); sh_->progress = sh_->progress + 1; }
        if (logging_) log("%s", b);
    }
    [[noreturn]] void fail(const std::string& key, const char* fmt, ...) {
        char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
        throw Violation{key, b};
    }
    void check(bool ok, const std::string& key, const char* fmt, ...) {
        ++st_.evals;
        if (ok) return;
        char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
        throw Violation{key, b};
    }
    bool ok(bool cond) { ++st_.evals; return cond; }     // hot-path: if(!c.ok(x)) c.fail(...)
    void nontrivial(uint64_t n = 1) { st_.nontrivial += n; }
    bool logging() const { return logging_; }
    void split() { if (!replay_ && nshards_ > 1 && !gated_) gate(); }   // all choices made: the body runs in one shard only
    void tick() { if (sh_) sh_->progress = sh_->progress + 1; }

    // ---- for the explorer ----------------------------------------------------------
    std::vector<uint32_t> path_, arity_;
    size_t pos_ = 0, fresh_from_ = 0;
    Stats st_;
    Shared* sh_ = nullptr;
    bool thorough_ = false, logging_ = false, replay_ = false;
    int trace_fd_ = -1;
    std::vector<std::string> trace_;
    std::unordered_map<uint64_t, int> visited_;
    int shard_ = 0, nshards_ = 1;
    uint64_t unit_ = 0, prod_ = 1;
    bool gated_ = false, new_unit_ = true;
    std::vector<uint32_t> last_prefix_;

    void begin() { pos_ = 0; prod_ = 1; gated_ = false; }
    void shard_gate(int n) {
        if (replay_ || nshards_ <= 1 || gated_) return;
        prod_ *= static_cast<uint64_t>(n);
        if (prod_ < static_cast<uint64_t>(nshards_) * 16) return;
        gate();
    }
    void gate() {
        gated_ = true;
        std::vector<uint32_t> prefix(path_.begin(), path_.begin() + static_cast<long>(pos_));
        if (prefix != last_prefix_) { ++unit_; last_prefix_ = prefix; }
        if (unit_ % static_cast<uint64_t>(nshards_) != static_cast<uint64_t>(shard_)) throw Skip{};
    }
    // advance to the next path; false when the tree is exhausted
    bool next() {
        path_.resize(pos_); arity_.resize(pos_);
        while (!path_.empty() && path_.back() + 1 >= arity_.back()) { path_.pop_back(); arity_.pop_back(); }
        if (path_.empty()) return false;
        ++path_.back();
        fresh_from_ = path_.size();
        return true;
    }
    void logf(const char* fmt, ...) {
        char b[512]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
        trace_.push_back(b);
        if (trace_fd_ >= 0) { std::string s = std::string(b) + "\n"; (void)!write(trace_fd_, s.data(), s.size()); }
    }
    [[noreturn]] void fatal(const char* m) { fprintf(stderr, "mc: internal error: %s\n", m); fflush(stderr); _exit(77); }
};

// ---- hashing / comparison helpers --------------------------------------------------------
inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h;
}
struct Hash {
    uint64_t h = 0x12345678abcdefull;
    Hash& operator<<(uint64_t v) { h = mix(h, v); return *this; }
    Hash& operator<<(int v) { return *this << static_cast<uint64_t>(static_cast<int64_t>(v)); }
    Hash& operator<<(double d) { if (d == 0) d = 0; uint64_t u; memcpy(&u, &d, 8); return *this << u; }
    Hash& operator<<(const std::string& s) { *this << static_cast<uint64_t>(s.size()); for (unsigned char ch : s) *this << static_cast<uint64_t>(ch); return *this; }
    template <typename V> Hash& add(const V& v) { return *this << v; }
    Hash& add(bool v) { return *this << static_cast<uint64_t>(v); }
    uint64_t value() const { return h; }
    template <typename C> Hash& seq(const C& c) { *this << static_cast<uint64_t>(c.size()); for (auto& e : c) *this << static_cast<double>(e); return *this; }
};
// equal up to rounding; NaN equals NaN, infinities compare exactly
inline bool near(long double a, long double b, long double rel, long double abs_tol) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b)) return a == b;
    long double d = a > b ? a - b : b - a;
    long double m = std::max(std::fabs(a), std::fabs(b));
    return d <= abs_tol || d <= rel * m;
}
template <typename V> std::string show(const V& v, size_t max = 24) {
    std::ostringstream o; o.precision(17); o << "[";
    size_t i = 0; for (auto it = v.begin(); it != v.end(); ++it, ++i) { if (i == max) { o << " ..."; break; } o << (i ? " " : "") << *it; }
    o << "]"; return o.str();
}

// ---- scenario registry -------------------------------------------------------------------
struct Scenario { std::string name; std::function<void(Ctx&)> fn; int shards; };
inline std::vector<Scenario>& registry() { static std::vector<Scenario> r; return r; }
struct Reg { Reg(const char* n, std::function<void(Ctx&)> f, int shards) { registry().push_back({n, std::move(f), shards}); } };
#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
// SCENARIO(name, shards) { ... c.choose(...) ... }
#define SCENARIO(name, shards)                                                            \
    static void MC_CAT(scn_, name)(mc::Ctx & c);                                          \
    static mc::Reg MC_CAT(reg_, name)(#name, MC_CAT(scn_, name), shards);                 \
    static void MC_CAT(scn_, name)(mc::Ctx & c)

struct Found { std::string key, msg; std::vector<uint32_t> path; };

inline std::string jesc(const std::string& s) {
    std::string o; for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += static_cast<char>(ch); }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += static_cast<char>(ch);
    } return o;
}

inline double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

inline void explore(Ctx& c, const Scenario& s, double deadline, std::vector<Found>& found) {
    std::set<std::string> keys;
    for (;;) {
        c.begin();
        bool skipped = false;
        try { s.fn(c); if (!c.gated_ && c.nshards_ > 1) c.gate(); }
        catch (const Prune&) {}
        catch (const Skip&) { skipped = true; }
        catch (const Violation& v) {
            bool mine = true;
            if (!c.gated_ && c.nshards_ > 1) { try { c.gate(); } catch (const Skip&) { mine = false; } }
            if (mine && keys.insert(v.key).second && found.size() < 64)
                found.push_back({v.key, v.msg, {c.path_.begin(), c.path_.begin() + static_cast<long>(c.pos_)}});
        }
        catch (const std::exception& e) {
            std::string key = std::string("unexpected-exception:") + e.what();
            if (keys.insert(key).second && found.size() < 64)
                found.push_back({key, e.what(), {c.path_.begin(), c.path_.begin() + static_cast<long>(c.pos_)}});
        }
        if (!skipped) { ++c.st_.executions; if (c.sh_) c.sh_->executions = c.sh_->executions + 1; }
        if (!c.next()) break;
        if ((c.st_.executions & 63) == 0 && now() > deadline) { c.st_.complete = false; break; }
    }
}

inline std::string path_str(const std::vector<uint32_t>& p) {
    std::string o; for (size_t i = 0; i < p.size(); ++i) { if (i) o += ','; o += std::to_string(p[i]); } return o.empty() ? "-" : o;
}
inline std::vector<uint32_t> parse_path(const std::string& s) {
    std::vector<uint32_t> p; if (s == "-") return p; std::stringstream ss(s); std::string t;
    while (std::getline(ss, t, ',')) p.push_back(static_cast<uint32_t>(std::stoul(t))); return p;
}

// worker: explores one shard of one scenario, writes a line-oriented result file
inline int worker(const Scenario& s, int shard, int nshards, bool thorough, double deadline, Shared* sh, const std::string& out) {
    Ctx c; c.sh_ = sh; c.thorough_ = thorough; c.shard_ = shard; c.nshards_ = nshards;
    std::vector<Found> found;
    explore(c, s, deadline, found);
    FILE* f = fopen(out.c_str(), "w");
    if (!f) return 76;
    fprintf(f, "stats %llu %llu %llu %llu %llu %d\n", (unsigned long long)c.st_.executions, (unsigned long long)c.st_.transitions,
            (unsigned long long)c.st_.evals, (unsigned long long)c.st_.pruned, (unsigned long long)c.st_.nontrivial, c.st_.complete ? 1 : 0);
    for (auto& v : found) fprintf(f, "found\t%s\t%s\t%s\n", jesc(v.key).c_str(), path_str(v.path).c_str(), jesc(v.msg).c_str());
    fclose(f);
    if (!c.visited_.empty()) {
        FILE* g = fopen((out + ".states").c_str(), "wb");
        if (g) { for (auto& kv : c.visited_) fwrite(&kv.first, 8, 1, g); fclose(g); }
    }
    return 0;
}

// main: [--tier quick|thorough] [--jobs N] [--budget SECONDS] --out FILE  |  --replay scenario:path
inline int run(int argc, char** argv) {
    std::string tier = "quick", out, replay, only; int jobs = 8; double budget = 240;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
        if (a == "--tier") tier = val(); else if (a == "--jobs") jobs = std::stoi(val()); else if (a == "--budget") budget = std::stod(val());
        else if (a == "--out") out = val(); else if (a == "--replay") replay = val(); else if (a == "--only") only = val();
    }
    const bool thorough = tier == "thorough";
    if (!replay.empty()) {
        auto k = replay.find(':'); std::string name = replay.substr(0, k);
        for (auto& s : registry()) if (s.name == name) {
            Ctx c; c.thorough_ = thorough; c.logging_ = true; c.replay_ = true; c.trace_fd_ = 1;
            c.path_ = parse_path(replay.substr(k + 1)); c.arity_.assign(c.path_.size(), 0);
            c.begin();
            try { s.fn(c); printf("RESULT ok\n"); return 0; }
            catch (const Violation& v) { printf("RESULT violation %s: %s\n", v.key.c_str(), v.msg.c_str()); return 1; }
            catch (const Prune&) { printf("RESULT pruned\n"); return 0; }
            catch (const std::exception& e) { printf("RESULT unexpected exception: %s\n", e.what()); return 1; }
        }
        fprintf(stderr, "no scenario %s\n", name.c_str()); return 2;
    }
    struct Task { const Scenario* s; int shard, n; };
    std::vector<Task> tasks;
    for (auto& s : registry()) if (only.empty() || s.name == only)
        for (int i = 0; i < s.shards; ++i) tasks.push_back({&s, i, s.shards});
    std::stable_sort(tasks.begin(), tasks.end(), [](const Task& a, const Task& b) { return a.n > b.n; });
    const double t0 = now(), deadline = t0 + budget;
    std::string dir = out + ".d"; mkdir(dir.c_str(), 0700);
    struct Slot { pid_t pid = 0; size_t task = 0; Shared* sh = nullptr; uint64_t last = 0; double since = 0; };
    std::vector<Slot> slots(static_cast<size_t>(jobs));
    for (auto& sl : slots) sl.sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    struct Agg { Stats st; std::unordered_set<uint64_t> states; };
    std::map<std::string, Agg> agg;
    std::vector<std::pair<std::string, Found>> all;
    bool internal = false, hung = false;
    size_t next = 0, done = 0; int running = 0;
    const bool stop = getenv("MC_STOP") != nullptr;      // development: the first violation is enough
    auto outfile = [&](size_t t) { return dir + "/" + std::to_string(t); };
    while (done < tasks.size()) {
        // nothing more to learn: enough crashes or hangs were seen to report, or the time is over and something was found
        if (next < tasks.size() && !all.empty() && (stop || all.size() > 60 || now() > deadline)) {
            for (size_t t = next; t < tasks.size(); ++t) agg[tasks[t].s->name].st.complete = false;
            tasks.resize(next);
            if (done == tasks.size()) break;
        }
        for (auto& sl : slots) if (!sl.pid && next < tasks.size()) {
            memset(static_cast<void*>(sl.sh), 0, sizeof(Shared));
            fflush(stdout); fflush(stderr);
            pid_t p = fork();
            if (p == 0) {
                struct rlimit rl { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
                std::string err = outfile(next) + ".err"; int fd = open(err.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); dup2(fd, 2);
                int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
                _exit(worker(*tasks[next].s, tasks[next].shard, tasks[next].n, thorough, deadline, sl.sh, outfile(next)));
            }
            sl.pid = p; sl.task = next++; sl.last = 0; sl.since = now(); ++running;
        }
        usleep(2000);
        for (auto& sl : slots) if (sl.pid) {
            int status = 0; pid_t r = waitpid(sl.pid, &status, WNOHANG);
            const auto& t = tasks[sl.task];
            bool hang = false;
            if (r == 0) {
                if (sl.sh->progress != sl.last) { sl.last = sl.sh->progress; sl.since = now(); continue; }
                else if (now() - sl.since > (hung ? 15 : 60)) { hang = hung = true; kill(sl.pid, SIGKILL); waitpid(sl.pid, &status, 0); }
                else continue;
            }
            Agg& a = agg[t.s->name];
            const bool okexit = !hang && WIFEXITED(status) && WEXITSTATUS(status) == 0;
            if (okexit) {
                FILE* f = fopen(outfile(sl.task).c_str(), "r");
                if (f) {
                    char* line = nullptr; size_t cap = 0;
                    while (getline(&line, &cap, f) > 0) {
                        std::string l = line; if (!l.empty() && l.back() == '\n') l.pop_back();
                        if (l.compare(0, 5, "stats") == 0) {
                            unsigned long long e, tr, ev, pr, nt; int comp; sscanf(l.c_str(), "stats %llu %llu %llu %llu %llu %d", &e, &tr, &ev, &pr, &nt, &comp);
                            a.st.executions += e; a.st.transitions += tr; a.st.evals += ev; a.st.pruned += pr; a.st.nontrivial += nt; if (!comp) a.st.complete = false;
                        } else if (l.compare(0, 5, "found") == 0) {
                            std::vector<std::string> fs; std::stringstream ss(l); std::string x; while (std::getline(ss, x, '\t')) fs.push_back(x);
                            if (fs.size() >= 4) all.push_back({t.s->name, {fs[1], fs[3], parse_path(fs[2])}});
                        }
                    }
                    free(line); fclose(f);
                }
                FILE* g = fopen((outfile(sl.task) + ".states").c_str(), "rb");
                if (g) { uint64_t h; while (fread(&h, 8, 1, g) == 1) a.states.insert(h); fclose(g); unlink((outfile(sl.task) + ".states").c_str()); }
            } else {
                Found v; std::vector<uint32_t> p; for (uint32_t i = 0; i < sl.sh->depth && i < 4096; ++i) p.push_back(sl.sh->path[i]);
                v.path = p;
                char what[64];
                if (hang) snprintf(what, sizeof what, "hang");
                else if (WIFSIGNALED(status)) snprintf(what, sizeof what, "signal-%d", WTERMSIG(status));
                else snprintf(what, sizeof what, "exit-%d", WEXITSTATUS(status));
                if (!hang && WIFEXITED(status) && (WEXITSTATUS(status) == 77 || WEXITSTATUS(status) == 76)) internal = true;
                if (!hang && WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) internal = true;
                std::string err; FILE* f = fopen((outfile(sl.task) + ".err").c_str(), "r");
                if (f) { char buf[4096]; size_t n = fread(buf, 1, sizeof buf - 1, f); err.assign(buf, n); fclose(f); }
                std::string summary; auto k = err.find("ERROR: AddressSanitizer: "); if (k != std::string::npos) { summary = err.substr(k + 25, 40); summary = "asan-" + summary.substr(0, summary.find(' ')); }
                k = err.find("runtime error: "); if (k != std::string::npos) { summary = "ubsan"; }
                v.key = "crash:" + (summary.empty() ? std::string(what) : summary);
                std::string where(const_cast<const char*>(sl.sh->where));
                v.msg = jesc(std::string(what) + " at {" + where + "} " + err.substr(0, 1500));
                all.push_back({t.s->name, v});
                a.st.complete = false; a.st.executions += sl.sh->executions;
            }
            sl.pid = 0; --running; ++done;
        }
    }
    FILE* f = fopen(out.c_str(), "w");
    fprintf(f, "{\"tier\":\"%s\",\"internal_error\":%s,\"wall_s\":%.2f,\"scenarios\":[", tier.c_str(), internal ? "true" : "false", now() - t0);
    bool first = true;
    for (auto& kv : agg) {
        fprintf(f, "%s{\"name\":\"%s\",\"executions\":%llu,\"transitions\":%llu,\"evals\":%llu,\"pruned\":%llu,\"nontrivial\":%llu,\"states\":%llu,\"complete\":%s}", first ? "" : ",",
                kv.first.c_str(), (unsigned long long)kv.second.st.executions, (unsigned long long)kv.second.st.transitions, (unsigned long long)kv.second.st.evals,
                (unsigned long long)kv.second.st.pruned, (unsigned long long)kv.second.st.nontrivial,
                (unsigned long long)(kv.second.states.empty() ? kv.second.st.executions : kv.second.states.size()), kv.second.st.complete ? "true" : "false");
        first = false;
    }
    fprintf(f, "],\"found\":[");
    std::map<std::string, bool> seen; first = true;
    for (auto& sv : all) {
        std::string id = sv.first + "/" + sv.second.key; if (seen[id]) continue; seen[id] = true;
        fprintf(f, "%s{\"scenario\":\"%s\",\"key\":\"%s\",\"path\":\"%s\",\"msg\":\"%s\"}", first ? "" : ",", sv.first.c_str(), sv.second.key.c_str(), path_str(sv.second.path).c_str(), sv.second.msg.c_str());
        first = false;
    }
    fprintf(f, "]}\n"); fclose(f);
    for (size_t t = 0; t < tasks.size(); ++t) { unlink(outfile(t).c_str()); unlink((outfile(t) + ".err").c_str()); }
    rmdir(dir.c_str());
    return internal ? 2 : 0;
}
} // namespace mc

#ifndef MC_NO_MAIN
int main(int argc, char** argv) { return mc::run(argc, argv); }
#endif
