// A controlled scheduler: the threads of a program under test are fibers, and control passes between them only where the code
// under test reaches an interposed function (a lock, or whatever the harness adds), so that the explorer decides who runs next.
#pragma once
#include <ucontext.h>
#include <dlfcn.h>
#include <link.h>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <map>
#include <set>
#include <algorithm>
#include "mc.hpp"
namespace sched {
enum { MAXT = 4 };
struct Fiber { ucontext_t ctx; char* stack; bool done = false; void* wait = nullptr; bool wait_write = true; uint64_t pc = 0; };
static ucontext_t main_ctx; static Fiber f[MAXT]; static int n = 0, cur = -1; static void (*body)(int);
// thread-local storage of this program: every fiber has its own copy, so that thread_local means what it means for threads
static char* tls = nullptr; static size_t tls_size = 0, tls_init = 0; static const char* tls_image = nullptr; static std::vector<char> tls_main, tls_of[MAXT];
static int tls_find(dl_phdr_info* i, size_t, void*) { for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS) { tls = (char*)i->dlpi_tls_data; tls_size = i->dlpi_phdr[k].p_memsz; tls_init = i->dlpi_phdr[k].p_filesz; tls_image = (const char*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr); } return 1; }
static void tls_reset(int i) { if (!tls_size) dl_iterate_phdr(tls_find, nullptr); tls_of[i].assign(tls_size, 0); if (tls_size) memcpy(tls_of[i].data(), tls_image, tls_init); }
static void tls_swap(std::vector<char>& out, std::vector<char>& in) { if (!tls_size) return; out.assign(tls, tls + tls_size); memcpy(tls, in.data(), tls_size); }
static void* key(void* l);
struct Lock { int writer = -1, depth = 0; std::multiset<int> readers; };
static std::map<void*, Lock> locks;
static int readers_in = 0, writers_in = 0; static bool overlap = false; static std::string overlap_text; static int fault = 0;
static bool free_for(void* l, int t, bool write) { auto& k = locks[l]; (void)t; return k.writer < 0 && (!write || k.readers.empty()); }
static bool in_fiber() { return cur >= 0; }
static void yield() { ++f[cur].pc; const int me = cur; cur = -1; swapcontext(&f[me].ctx, &main_ctx); }
static void* key(void* l) { char* p = (char*)l; return tls && p >= tls && p < tls + tls_size ? (void*)(tls_of[cur].data() + (p - tls)) : l; }
static void run(int t) { cur = t; tls_swap(tls_main, tls_of[t]); swapcontext(&main_ctx, &f[t].ctx); tls_swap(tls_of[t], tls_main); cur = -1; }
static void lock(void* l, bool write, bool recursive = false) { l = key(l); if (recursive && locks[l].writer == cur) { ++locks[l].depth; return; } f[cur].wait = l; f[cur].wait_write = write; yield(); f[cur].wait = nullptr; auto& k = locks[l]; if (write) k.writer = cur; else k.readers.insert(cur); }
static bool trylock(void* l, bool write) { l = key(l); yield(); if (!free_for(l, cur, write)) return false; auto& k = locks[l]; if (write) k.writer = cur; else k.readers.insert(cur); return true; }
static void unlock(void* l) { l = key(l); auto& k = locks[l]; if (k.writer == cur && k.depth) { --k.depth; return; } if (k.writer == cur) k.writer = -1; else { auto i = k.readers.find(cur); if (i != k.readers.end()) k.readers.erase(i); } yield(); }
// taken and given back without a scheduling point, unless it has to wait
static void lock_now(void* l) { void* k = key(l); if (free_for(k, cur, true)) locks[k].writer = cur; else lock(l, true); }
static void unlock_now(void* l) { locks[key(l)].writer = -1; }
static void enter(bool write, const char* what) { yield(); if (writers_in || (write && readers_in)) { overlap = true; overlap_text = what; } (write ? writers_in : readers_in)++; yield(); }
static void leave(bool write) { (write ? writers_in : readers_in)--; yield(); }
static void tramp(int i) { body(i); f[i].done = true; }
static void entry(int i) { tramp(i); cur = -1; setcontext(&main_ctx); }
static void prepare(int threads, void (*b)(int), size_t stack = 256 << 10) {
    n = threads; body = b; locks.clear(); readers_in = writers_in = 0; overlap = false; cur = -1;
    for (int i = 0; i < n; ++i) { tls_reset(i); f[i].done = false; f[i].wait = nullptr; f[i].pc = 0; if (!f[i].stack) f[i].stack = (char*)malloc(stack); getcontext(&f[i].ctx); f[i].ctx.uc_stack.ss_sp = f[i].stack; f[i].ctx.uc_stack.ss_size = stack; f[i].ctx.uc_link = &main_ctx; makecontext(&f[i].ctx, (void (*)())entry, 1, i); }
}
static bool unfinished() { for (int i = 0; i < n; ++i) if (!f[i].done) return true; return false; }
static bool enabled(int i) { return !f[i].done && (!f[i].wait || free_for(f[i].wait, i, f[i].wait_write)); }
// lets the remaining fibers run to their ends, so that an execution cut short leaves nothing allocated
static void drain() { for (bool any = true; any;) { any = false; for (int i = 0; i < n; ++i) while (enabled(i)) { run(i); any = true; } } }
}
// ---- interposed functions: under control inside a fiber, pass through outside -------------------
template <typename F> static F real(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
static void* outside_held = nullptr;   // outside fibers this program is single threaded
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { if (sched::in_fiber()) { sched::lock(m, true, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP); return 0; } if (outside_held == m && (m->__data.__kind & 3) != PTHREAD_MUTEX_RECURSIVE_NP) { fprintf(stderr, "a thread locks a mutex it already holds\n"); abort(); } outside_held = m; return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { if (sched::in_fiber()) return sched::trylock(m, true) ? 0 : EBUSY; static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock"); return r(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { if (sched::in_fiber()) { sched::unlock(m); return 0; } outside_held = nullptr; return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { if (sched::in_fiber()) { sched::lock(m, false); return 0; } static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock"); return r(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { if (sched::in_fiber()) { sched::lock(m, true); return 0; } static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock"); return r(m); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept { if (sched::in_fiber()) { sched::unlock(m); return 0; } static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock"); return r(m); }
int sched_yield(void) noexcept { if (sched::in_fiber()) { sched::yield(); return 0; } static auto r = real<int (*)()>("sched_yield"); return r(); }
// one-time initialisations: a thread that finds one running waits for it (they happen once per process, so they add no scheduling point of their own)
int pthread_once(pthread_once_t* o, void (*fn)(void)) { if (*o == 2) return 0; const bool in = sched::in_fiber(); if (in) sched::lock_now(o); if (*o != 2) { fn(); *o = 2; } if (in) sched::unlock_now(o); return 0; }
int __cxa_guard_acquire(long long* g) { if (*(volatile char*)g) return 0; if (sched::in_fiber()) { sched::lock_now(g); if (*(volatile char*)g) { sched::unlock_now(g); return 0; } } return 1; }
void __cxa_guard_release(long long* g) { *(char*)g = 1; if (sched::in_fiber()) sched::unlock_now(g); }
void __cxa_guard_abort(long long* g) { if (sched::in_fiber()) sched::unlock_now(g); }
}
