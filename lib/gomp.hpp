// A controlled OpenMP runtime.
//
// The harness is compiled with -fopenmp -fsanitize=thread but linked against neither libgomp nor libtsan:
// this header supplies both interfaces.  Team threads are coroutines on one OS thread; at every
// synchronisation operation (region entry, asking for the next chunk, atomic, critical, barrier, region exit)
// the explorer picks who runs next.  Every memory access of the compiled code reports here, and two accesses of
// different threads of one region to the same byte, at least one of them a write and not both atomic or in a
// critical section, are a violation.  Runs without such a race that order their synchronisation operations alike
// are equivalent, so enumerating the orders of synchronisation operations covers every interleaving of accesses.
#pragma once
#include "mc.hpp"
#include <ucontext.h>
#include <malloc.h>
#include <cstdlib>
#include <cstring>
#include <new>
#include <vector>
#include <memory>
#define GOMP_NS __attribute__((no_sanitize_thread))
namespace gomp {

enum Kind { DYNAMIC, STATIC, GUIDED };
struct Config {
    int threads = 2;
    Kind kind = DYNAMIC; long chunk = 1;          // what schedule(runtime) means
    bool exhaustive = true;                        // every order (choose) or a bounded number of deviations from `policy`
    int policy = 0;                                // 0 run until blocked, 1 round robin, 2 highest thread first
};
GOMP_NS inline Config &cfg() { static Config c; return c; }

struct WS {
    unsigned long long start = 0, incr = 1, n = 0; bool neg = false;
    Kind kind = DYNAMIC; long chunk = 1; unsigned long long next = 0;
    unsigned long long pos[8] = {0}; bool taken = false; int sect = 0, nsect = 0;
};
struct Fiber { ucontext_t ctx; char *stack = nullptr; int ws = -1; bool done = false, waiting = false; };
static const int MAXT = 6;
static const size_t STK = 512 * 1024;
struct Cell { uintptr_t addr; unsigned gen; unsigned char r[MAXT], w[MAXT], ar[MAXT], aw[MAXT]; };
static const size_t NCELL = 1 << 16;
struct RT {
    Fiber f[MAXT]; ucontext_t main; int n = 0, cur = 0; bool active = false; bool busy = false;
    void (*fn)(void *) = nullptr; void *data = nullptr; std::vector<std::unique_ptr<WS>> ws; int live = 0;
    int crit = -1; int crit_owner[MAXT] = {0}; int nested = 0; std::exception_ptr err;
    std::string race; Cell *cells = nullptr; unsigned gen = 1; size_t used = 0; unsigned long regions = 0, points = 0, accesses = 0, maxteam = 0;
    bool track = true; std::vector<int> order; std::string trace;
};
GOMP_NS inline char *rt_mem() { static char m[sizeof(RT)] __attribute__((aligned(16))); return m; }
GOMP_NS inline RT &rt() { static bool made = false; RT *r = (RT *)rt_mem(); if (!made) { made = true; new (r) RT; } return *r; }
struct Busy { bool o; GOMP_NS Busy() : o(rt().busy) { rt().busy = true; } GOMP_NS ~Busy() { rt().busy = o; } };

GOMP_NS inline void new_epoch() { RT &r = rt(); ++r.gen; r.used = 0; }
GOMP_NS inline Cell *cell(uintptr_t a) {
    RT &r = rt();
    if (!r.cells) { r.cells = (Cell *)calloc(NCELL, sizeof(Cell)); }
    size_t h = (a * 0x9E3779B97F4A7C15ull) >> 48;
    for (size_t k = 0; k < NCELL; ++k) {
        Cell *c = &r.cells[(h + k) & (NCELL - 1)];
        if (c->gen != r.gen) { memset(c, 0, sizeof *c); c->gen = r.gen; c->addr = a; ++r.used; return c; }
        if (c->addr == a) return c;
    }
    return nullptr;
}
GOMP_NS inline void access(const volatile void *p, size_t n, bool write, bool atomic) {
    RT &r = rt();
    if (!r.active || r.busy || r.n < 2 || !r.track) return;
    uintptr_t a = (uintptr_t)p, e = a + n;
    if (a >= (uintptr_t)r.f[r.cur].stack && a < (uintptr_t)r.f[r.cur].stack + STK) return;    // own stack
    if (r.crit == r.cur) atomic = true;
    ++r.accesses;
    for (uintptr_t g = a & ~7ull; g < e; g += 8) {
        unsigned char m = 0;
        for (int b = 0; b < 8; ++b) if (g + b >= a && g + b < e) m |= 1 << b;
        if (r.used * 2 > NCELL) return;
        Cell *c = cell(g); if (!c) return;
        for (int t = 0; t < r.n; ++t) if (t != r.cur) {
            unsigned char x = c->w[t]; if (write) x |= c->r[t];
            if (!atomic) { x |= c->aw[t]; if (write) x |= c->ar[t]; }
            if (x & m) { Busy bz; if (!r.race.empty()) continue;
                r.race = "threads " + std::to_string(t) + " and " + std::to_string(r.cur) + " of a team of " + std::to_string(r.n) +
                    " access the same memory (" + std::to_string(n) + " bytes) in one parallel region, " + (write ? "the second writing" : "the first writing");
            }
        }
        if (atomic) { (write ? c->aw : c->ar)[r.cur] |= m; } else { (write ? c->w : c->r)[r.cur] |= m; }
    }
}
GOMP_NS inline void fresh(void *p, size_t n) {      // newly allocated memory carries no history
    RT &r = rt();
    if (!r.active || r.busy || !r.cells || r.n < 2) return;
    uintptr_t a = (uintptr_t)p, e = a + n;
    for (uintptr_t g = a & ~7ull; g < e; g += 8) {
        size_t h = (g * 0x9E3779B97F4A7C15ull) >> 48;
        for (size_t k = 0; k < NCELL; ++k) {
            Cell *c = &r.cells[(h + k) & (NCELL - 1)];
            if (c->gen != r.gen) break;
            if (c->addr == g) { memset(c->r, 0, MAXT); memset(c->w, 0, MAXT); memset(c->ar, 0, MAXT); memset(c->aw, 0, MAXT); break; }
        }
    }
}

GOMP_NS inline int pick(bool may_stay) noexcept {
    RT &r = rt(); Busy b; ++r.points;
    int opt[MAXT], no = 0;
    auto runnable = [&](int t) { return !r.f[t].done && !r.f[t].waiting && (r.crit < 0 || r.crit == t || !r.crit_owner[t]); };
    int c = r.cur, pol = cfg().policy;
    if (pol == 2) { for (int t = r.n - 1; t >= 0; --t) if ((may_stay || t != c) && runnable(t)) opt[no++] = t; }
    else {
        if (pol == 0 && may_stay && runnable(c)) opt[no++] = c;
        for (int k = 1; k <= r.n; ++k) { int t = (c + k) % r.n; if (t == c && (pol == 0 || !may_stay)) continue; if (runnable(t)) opt[no++] = t; }
    }
    if (no == 0) return -1;
    int i = 0;
    if (no > 1 && !r.err) {
        try { mc::transition(); i = cfg().exhaustive ? mc::choose(no) : mc::deviate(no); } catch (...) { r.err = std::current_exception(); i = 0; }
    }
    return opt[i];
}
GOMP_NS inline void go(int t) {
    RT &r = rt(); int o = r.cur; if (t == o) return;
    r.cur = t; swapcontext(&r.f[o].ctx, &r.f[t].ctx);
}
GOMP_NS inline void point() { RT &r = rt(); if (!r.active || r.busy || r.n < 2) return; int t = pick(true); if (t >= 0) go(t); }
GOMP_NS inline void stuck(const char *what) {
    RT &r = rt(); Busy b;
    if (!r.err) { try { mc::fail("deadlock", what); } catch (...) { r.err = std::current_exception(); } }
    r.active = false; setcontext(&r.main);
}
GOMP_NS inline void tramp() {
    RT &r = rt();
    r.busy = false;
    r.fn(r.data);
    r.busy = true; r.f[r.cur].done = true; --r.live;
    if (r.live == 0) { r.active = false; r.busy = false; setcontext(&r.main); }
    // a barrier the finished thread never reached
    int t = pick(false); r.busy = false;
    if (t < 0) stuck("a thread waits at a barrier that another thread of the team never reaches");
    r.cur = t; setcontext(&r.f[t].ctx);
}
GOMP_NS inline void parallel(void (*fn)(void *), void *data, unsigned nt, std::unique_ptr<WS> pre = nullptr) {
    RT &r = rt();
    if (r.active) {                                  // nested region: a team of one
        if (r.busy) { fn(data); return; }
        ++r.nested; 
        std::vector<std::unique_ptr<WS>> sv; { Busy b; sv.swap(r.ws); if (pre) r.ws.push_back(std::move(pre)); }
        int on = r.n, oc = r.cur, ow = r.f[r.cur].ws; (void)on; (void)oc; r.f[r.cur].ws = r.ws.empty() ? -1 : 0;
        fn(data);
        { Busy b; sv.swap(r.ws); } r.f[r.cur].ws = ow; --r.nested; return;
    }
    r.busy = true;
    int n = nt ? (int)nt : cfg().threads; if (n > MAXT) n = MAXT;
    r.n = n; r.fn = fn; r.data = data; r.live = n; r.ws.clear(); r.crit = -1; new_epoch(); ++r.regions; if ((unsigned long)n > r.maxteam) r.maxteam = n;
    bool haspre = (bool)pre; if (haspre) r.ws.push_back(std::move(pre));
    for (int t = 0; t < n; ++t) {
        Fiber &f = r.f[t];
        if (!f.stack) f.stack = (char *)malloc(STK);
        getcontext(&f.ctx); f.ctx.uc_stack.ss_sp = f.stack; f.ctx.uc_stack.ss_size = STK; f.ctx.uc_link = nullptr;
        makecontext(&f.ctx, (void (*)())tramp, 0);
        f.done = f.waiting = false; f.ws = haspre ? 0 : -1; r.crit_owner[t] = 0;
    }
    r.active = true; r.cur = cfg().policy == 2 ? n - 1 : 0;
    int t = n > 1 ? pick(true) : 0; r.cur = t; r.busy = false;
    volatile bool back = false;
    getcontext(&r.main);
    if (!back) { back = true; setcontext(&r.f[t].ctx); }
    r.active = false; r.busy = false; r.n = 0;
}
// raise what happened inside the region: must be called by the harness outside any region
inline void settle() {
    RT &r = rt();
    if (r.err) { auto e = r.err; r.err = nullptr; r.race.clear(); std::rethrow_exception(e); }
    if (!r.race.empty()) { std::string m; m.swap(r.race); mc::fail("race", m); }
}
GOMP_NS inline void barrier() {
    RT &r = rt(); if (!r.active || r.nested || r.n < 2) return;
    r.f[r.cur].waiting = true;
    bool all = true; for (int t = 0; t < r.n; ++t) if (!r.f[t].done && !r.f[t].waiting) all = false;
    bool somedone = false; for (int t = 0; t < r.n; ++t) if (r.f[t].done) somedone = true;
    if (all) { if (somedone) stuck("a thread waits at a barrier that another thread of the team never reaches");
        for (int t = 0; t < r.n; ++t) r.f[t].waiting = false; new_epoch(); point(); return; }
    int t = pick(false); if (t < 0) stuck("no thread can run"); go(t);
}
GOMP_NS inline bool give(WS &w, int t, int T, unsigned long long *a, unsigned long long *b) {
    unsigned long long k, e;
    if (w.kind == STATIC) {
        if (w.chunk <= 0) {
            if (w.pos[t]++) return false;
            unsigned long long q = w.n / T, rem = w.n % T; k = t * q + ((unsigned long long)t < rem ? t : rem); e = k + q + ((unsigned long long)t < rem);
            if (k == e) return false;
        } else { k = (w.pos[t]++ * T + t) * w.chunk; if (k >= w.n) return false; e = k + w.chunk; if (e > w.n) e = w.n; }
    } else {
        if (w.next >= w.n) return false;
        unsigned long long c = w.chunk > 0 ? w.chunk : 1;
        if (w.kind == GUIDED) { unsigned long long q = (w.n - w.next + T - 1) / T; if (q > c) c = q; }
        k = w.next; e = k + c; if (e > w.n) e = w.n; w.next = e;
    }
    *a = w.start + k * w.incr; *b = w.start + e * w.incr; return true;
}
GOMP_NS inline std::unique_ptr<WS> mk(unsigned long long s, unsigned long long e, unsigned long long i, bool up, Kind k, long chunk) {
    std::unique_ptr<WS> w(new WS); w->start = s; w->incr = i; w->kind = k; w->chunk = chunk;
    if (up) w->n = e > s ? (e - s + i - 1) / i : 0; else w->n = s > e ? (s - e + (0 - i) - 1) / (0 - i) : 0;
    return w;
}
GOMP_NS inline std::unique_ptr<WS> mks(long s, long e, long i, Kind k, long chunk) {
    std::unique_ptr<WS> w(new WS); w->start = s; w->incr = i; w->kind = k; w->chunk = chunk;
    if (i > 0) w->n = e > s ? (e - s + i - 1) / i : 0; else w->n = s > e ? (s - e - i - 1) / (-i) : 0;
    return w;
}
GOMP_NS inline int me() { return rt().active && !rt().nested ? rt().cur : 0; }
GOMP_NS inline int team() { return rt().active && !rt().nested ? rt().n : 1; }
template<class F> GOMP_NS WS &enter(F make) {
    RT &r = rt(); Busy b; int &k = r.f[r.cur].ws; ++k;
    if ((int)r.ws.size() <= k) { r.ws.resize(k + 1); }
    if (!r.ws[k]) r.ws[k] = make();
    return *r.ws[k];
}
GOMP_NS inline WS &here() { RT &r = rt(); return *r.ws[r.f[r.cur].ws]; }
GOMP_NS inline bool more(unsigned long long *a, unsigned long long *b) { point(); Busy bb; return give(here(), me(), team(), a, b); }
struct Single { RT *r; };
// an orphaned construct outside any region runs with a team of one
GOMP_NS inline void orphan() { RT &r = rt(); if (!r.active) { r.cur = 0; } }
} // namespace gomp

extern "C" {
GOMP_NS void GOMP_parallel(void (*fn)(void *), void *d, unsigned n, unsigned) { gomp::parallel(fn, d, n); }
#define GOMP_PL(name, K, C) \
GOMP_NS void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long chunk, unsigned) { gomp::parallel(fn, d, n, gomp::mks(s, e, i, K, C)); }
#define GOMP_PLR(name) \
GOMP_NS void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { gomp::parallel(fn, d, n, gomp::mks(s, e, i, gomp::cfg().kind, gomp::cfg().chunk)); }
GOMP_PL(static, gomp::STATIC, chunk) GOMP_PL(dynamic, gomp::DYNAMIC, chunk) GOMP_PL(guided, gomp::GUIDED, chunk)
GOMP_PL(nonmonotonic_dynamic, gomp::DYNAMIC, chunk) GOMP_PL(nonmonotonic_guided, gomp::GUIDED, chunk)
GOMP_PLR(runtime) GOMP_PLR(nonmonotonic_runtime) GOMP_PLR(maybe_nonmonotonic_runtime)
#define GOMP_LS(name, K) \
GOMP_NS bool GOMP_loop_##name##_start(long s, long e, long i, long chunk, long *a, long *b) { gomp::orphan(); gomp::enter([&]{ return gomp::mks(s, e, i, K, chunk); }); return gomp::more((unsigned long long *)a, (unsigned long long *)b); } \
GOMP_NS bool GOMP_loop_##name##_next(long *a, long *b) { return gomp::more((unsigned long long *)a, (unsigned long long *)b); } \
GOMP_NS bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long chunk, unsigned long long *a, unsigned long long *b) { gomp::orphan(); gomp::enter([&]{ return gomp::mk(s, e, i, up, K, (long)chunk); }); return gomp::more(a, b); } \
GOMP_NS bool GOMP_loop_ull_##name##_next(unsigned long long *a, unsigned long long *b) { return gomp::more(a, b); }
#define GOMP_LR(name) \
GOMP_NS bool GOMP_loop_##name##_start(long s, long e, long i, long *a, long *b) { gomp::orphan(); gomp::enter([&]{ return gomp::mks(s, e, i, gomp::cfg().kind, gomp::cfg().chunk); }); return gomp::more((unsigned long long *)a, (unsigned long long *)b); } \
GOMP_NS bool GOMP_loop_##name##_next(long *a, long *b) { return gomp::more((unsigned long long *)a, (unsigned long long *)b); } \
GOMP_NS bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long *a, unsigned long long *b) { gomp::orphan(); gomp::enter([&]{ return gomp::mk(s, e, i, up, gomp::cfg().kind, gomp::cfg().chunk); }); return gomp::more(a, b); } \
GOMP_NS bool GOMP_loop_ull_##name##_next(unsigned long long *a, unsigned long long *b) { return gomp::more(a, b); }
GOMP_LS(static, gomp::STATIC) GOMP_LS(dynamic, gomp::DYNAMIC) GOMP_LS(guided, gomp::GUIDED)
GOMP_LS(nonmonotonic_dynamic, gomp::DYNAMIC) GOMP_LS(nonmonotonic_guided, gomp::GUIDED)
GOMP_LR(runtime) GOMP_LR(nonmonotonic_runtime) GOMP_LR(maybe_nonmonotonic_runtime)
GOMP_NS void GOMP_loop_end(void) { gomp::barrier(); }
GOMP_NS void GOMP_loop_end_nowait(void) {}
GOMP_NS bool GOMP_loop_end_cancel(void) { gomp::barrier(); return false; }
GOMP_NS void GOMP_barrier(void) { gomp::barrier(); }
GOMP_NS bool GOMP_single_start(void) { gomp::orphan(); gomp::WS &w = gomp::enter([]{ return std::unique_ptr<gomp::WS>(new gomp::WS); }); gomp::point(); if (w.taken) return false; w.taken = true; return true; }
GOMP_NS unsigned GOMP_sections_start(unsigned n) { gomp::orphan(); gomp::WS &w = gomp::enter([&]{ std::unique_ptr<gomp::WS> x(new gomp::WS); x->nsect = n; return x; }); gomp::point(); return w.sect < w.nsect ? ++w.sect : 0; }
GOMP_NS unsigned GOMP_sections_next(void) { gomp::WS &w = gomp::here(); gomp::point(); return w.sect < w.nsect ? ++w.sect : 0; }
GOMP_NS void GOMP_sections_end(void) { gomp::barrier(); }
GOMP_NS void GOMP_sections_end_nowait(void) {}
GOMP_NS void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned cnt, unsigned) { std::unique_ptr<gomp::WS> x(new gomp::WS); x->nsect = cnt; gomp::parallel(fn, d, n, std::move(x)); }
GOMP_NS static void gomp_enter_crit() {
    gomp::RT &r = gomp::rt(); if (!r.active || r.n < 2) return;
    r.crit_owner[r.cur] = 1; 
    int t = gomp::pick(true);
    if (t < 0) gomp::stuck("no thread can enter the critical section");
    gomp::go(t);
    r.crit = r.cur;
}
GOMP_NS static void gomp_leave_crit() { gomp::RT &r = gomp::rt(); if (!r.active || r.n < 2) return; r.crit = -1; r.crit_owner[r.cur] = 0; gomp::point(); }
GOMP_NS void GOMP_critical_start(void) { gomp_enter_crit(); }
GOMP_NS void GOMP_critical_end(void) { gomp_leave_crit(); }
GOMP_NS void GOMP_critical_name_start(void **) { gomp_enter_crit(); }
GOMP_NS void GOMP_critical_name_end(void **) { gomp_leave_crit(); }
GOMP_NS void GOMP_atomic_start(void) { gomp_enter_crit(); }
GOMP_NS void GOMP_atomic_end(void) { gomp_leave_crit(); }
GOMP_NS void GOMP_ordered_start(void) {}
GOMP_NS void GOMP_ordered_end(void) {}
GOMP_NS void GOMP_task(void (*fn)(void *), void *d, void (*cpy)(void *, void *), long sz, long al, bool, unsigned, void **, int, void *) {
    if (cpy) { std::vector<char> buf(sz + al); char *p = (char *)(((uintptr_t)buf.data() + al - 1) & ~(uintptr_t)(al - 1)); cpy(p, d); fn(p); } else fn(d);
}
GOMP_NS void GOMP_taskwait(void) {}
GOMP_NS void GOMP_taskgroup_start(void) {}
GOMP_NS void GOMP_taskgroup_end(void) {}
GOMP_NS int omp_get_num_threads(void) throw() { return gomp::team(); }
GOMP_NS int omp_get_thread_num(void) throw() { return gomp::me(); }
GOMP_NS int omp_get_max_threads(void) throw() { return gomp::cfg().threads; }
GOMP_NS int omp_get_num_procs(void) throw() { return gomp::cfg().threads; }
GOMP_NS int omp_get_thread_limit(void) throw() { return gomp::MAXT; }
GOMP_NS int omp_in_parallel(void) throw() { return gomp::rt().active && gomp::rt().n > 1; }
GOMP_NS int omp_get_level(void) throw() { return gomp::rt().active ? 1 + gomp::rt().nested : 0; }
GOMP_NS int omp_get_dynamic(void) throw() { return 0; }
GOMP_NS void omp_set_num_threads(int) throw() {}
GOMP_NS void omp_set_dynamic(int) throw() {}
GOMP_NS double omp_get_wtime(void) throw() { return 0; }
// ---- instrumentation
GOMP_NS void __tsan_init() {}
GOMP_NS void __tsan_func_entry(void *) {}
GOMP_NS void __tsan_func_exit(void *) {}
#define GOMP_RW(n) \
GOMP_NS void __tsan_read##n(void *p) { gomp::access(p, n, false, false); } GOMP_NS void __tsan_write##n(void *p) { gomp::access(p, n, true, false); } \
GOMP_NS void __tsan_unaligned_read##n(void *p) { gomp::access(p, n, false, false); } GOMP_NS void __tsan_unaligned_write##n(void *p) { gomp::access(p, n, true, false); } \
GOMP_NS void __tsan_volatile_read##n(void *p) { gomp::access(p, n, false, false); } GOMP_NS void __tsan_volatile_write##n(void *p) { gomp::access(p, n, true, false); }
GOMP_RW(1) GOMP_RW(2) GOMP_RW(4) GOMP_RW(8) GOMP_RW(16)
GOMP_NS void __tsan_read_range(void *p, long n) { gomp::access(p, n, false, false); }
GOMP_NS void __tsan_write_range(void *p, long n) { gomp::access(p, n, true, false); }
GOMP_NS void __tsan_vptr_update(void *p, void *) { gomp::access(p, 8, true, false); }
GOMP_NS void __tsan_vptr_read(void *p) { gomp::access(p, 8, false, false); }
#define GOMP_AT(n, T) \
GOMP_NS T __tsan_atomic##n##_load(const volatile void *q, int) { volatile T *p = (volatile T *)q; gomp::point(); gomp::access(p, n / 8, false, true); return *p; } \
GOMP_NS void __tsan_atomic##n##_store(volatile void *q, T v, int) { volatile T *p = (volatile T *)q; gomp::point(); gomp::access(p, n / 8, true, true); *p = v; } \
GOMP_NS T __tsan_atomic##n##_exchange(volatile void *q, T v, int) { volatile T *p = (volatile T *)q; gomp::point(); gomp::access(p, n / 8, true, true); T o = *p; *p = v; return o; } \
GOMP_NS T __tsan_atomic##n##_fetch_add(volatile void *q, T v, int) { volatile T *p = (volatile T *)q; gomp::point(); gomp::access(p, n / 8, true, true); T o = *p; *p = o + v; return o; } \
GOMP_NS T __tsan_atomic##n##_fetch_sub(volatile void *q, T v, int) { volatile T *p = (volatile T *)q; gomp::point(); gomp::access(p, n / 8, true, true); T o = *p; *p = o - v; return o; } \
GOMP_NS T __tsan_atomic##n##_fetch_and(volatile void *q, T v, int) { volatile T *p = (volatile T *)q; gomp::point(); gomp::access(p, n / 8, true, true); T o = *p; *p = o & v; return o; } \
GOMP_NS T __tsan_atomic##n##_fetch_or(volatile void *q, T v, int) { volatile T *p = (volatile T *)q; gomp::point(); gomp::access(p, n / 8, true, true); T o = *p; *p = o | v; return o; } \
GOMP_NS T __tsan_atomic##n##_fetch_xor(volatile void *q, T v, int) { volatile T *p = (volatile T *)q; gomp::point(); gomp::access(p, n / 8, true, true); T o = *p; *p = o ^ v; return o; } \
GOMP_NS bool __tsan_atomic##n##_compare_exchange_strong(volatile void *q, void *cq, T v, int, int) { T *c = (T *)cq; volatile T *p = (volatile T *)q; gomp::point(); gomp::access(p, n / 8, true, true); T o = *p; if (o == *c) { *p = v; return 1; } *c = o; return 0; } \
GOMP_NS bool __tsan_atomic##n##_compare_exchange_weak(volatile void *q, void *cq, T v, int, int) { T *c = (T *)cq; volatile T *p = (volatile T *)q; gomp::point(); gomp::access(p, n / 8, true, true); T o = *p; if (o == *c) { *p = v; return 1; } *c = o; return 0; } \
GOMP_NS T __tsan_atomic##n##_compare_exchange_val(volatile void *q, T c, T v, int, int) { volatile T *p = (volatile T *)q; gomp::point(); gomp::access(p, n / 8, true, true); T o = *p; if (o == c) *p = v; return o; }
GOMP_AT(8, unsigned char) GOMP_AT(16, unsigned short) GOMP_AT(32, unsigned int) GOMP_AT(64, unsigned long)
GOMP_NS void __tsan_atomic_thread_fence(int) {}
GOMP_NS void __tsan_atomic_signal_fence(int) {}
void *__real_memmove(void *, const void *, size_t); void *__real_memcpy(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
GOMP_NS void *__wrap_memmove(void *d, const void *s, size_t n) { gomp::access(s, n, false, false); gomp::access(d, n, true, false); return __real_memmove(d, s, n); }
GOMP_NS void *__wrap_memcpy(void *d, const void *s, size_t n) { gomp::access(s, n, false, false); gomp::access(d, n, true, false); return __real_memcpy(d, s, n); }
GOMP_NS void *__wrap_memset(void *d, int c, size_t n) { gomp::access(d, n, true, false); return __real_memset(d, c, n); }
}
GOMP_NS void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); gomp::fresh(p, n); return p; }
GOMP_NS void operator delete(void *p) noexcept { free(p); }
GOMP_NS void operator delete(void *p, size_t) noexcept { free(p); }
