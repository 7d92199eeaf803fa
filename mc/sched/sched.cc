// A controlled OpenMP runtime with access recording.
//
// The native modules of the library, compiled with -fopenmp -fsanitize=thread, are linked against this file instead of
// libgomp and libtsan.  One thread of a parallel region runs at a time; at every request for the next iteration the
// runtime decides which iteration is given to which thread.  All memory accesses made inside a region are recorded; two
// accesses of different iterations to one address, at least one of them a write, in the same barrier phase and without a
// common lock, are a conflict.  Without a conflict every interleaving of the accesses of the explored order gives the
// same result, so only orders and assignments of whole iterations have to be enumerated.
#include <pthread.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <malloc.h>
#include <dlfcn.h>
#include <new>
#include <vector>
#include <map>
#include <set>
#include <string>
#include <algorithm>

typedef unsigned long ul;
enum { MAXT = 16 };

struct Config { int on, threads, rule, statics; } cfg;
// orders given by the driver: for n iterations, sequence of (iteration, thread)
static std::map<int, std::vector<std::pair<int, int> > > table;

struct Team {
    int T; void (*fn)(void *); void *data;
    // loop
    bool loop; long start, end, incr; long n; std::vector<std::pair<int, int> > plan; size_t pos; int loops;
    int epoch;
};
static Team team;
enum State { IDLE, RUN, WANT_ITER, BARRIER, DONE };
struct Thr { pthread_t id; State st; pthread_cond_t cv; bool go; char *lo, *hi; long next; bool have; int unit; std::vector<ul> locks; uint64_t lockset; };
static Thr thr[MAXT];
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t back = PTHREAD_COND_INITIALIZER;
static bool ctl;                     // the controller has the baton
static int made;                     // pool threads that exist
static volatile int active;          // a controlled region runs
static __thread int self = -1;
static __thread int nested;           // > 0: inside a region opened inside a region; such a region is run by its thread alone
#define ALONE (self < 0 || nested)

struct Stats { ul regions, loops, units, accesses, conflicts, handoffs, atomic_reads; } stats;
static std::set<std::string> reports;
static std::set<ul> seen_fn, multi_fn;

// ---------------------------------------------------------------- shadow
#define ATOMIC 2ul
struct Acc { int unit, thread; uint64_t locks; uint8_t r, w; void *pc_r, *pc_w; };
struct Cell { ul key; unsigned gen; int epoch; int n; Acc a[10]; };
static const ul CELLS = 1 << 19;
static Cell *cells;
static unsigned gen = 1;
static ul used;

static Cell *cell(ul k, bool make) {
    ul h = (k * 0x9E3779B97F4A7C15ul) >> 45;
    for (ul i = 0; i < CELLS; i++) {
        Cell *c = cells + ((h + i) & (CELLS - 1));
        if (c->gen != gen) {
            if (!make) return 0;
            if (++used > CELLS / 2) { fprintf(stderr, "sched: the shadow memory is full\n"); abort(); }
            c->gen = gen; c->key = k; c->n = 0; c->epoch = team.epoch;
            return c;
        }
        if (c->key == k) return c;
    }
    abort();
}

static void where(char *out, size_t n, void *pc) {
    Dl_info i;
    if (dladdr(pc, &i) && i.dli_sname) snprintf(out, n, "%s+%lx", i.dli_sname, (ul)pc - (ul)i.dli_saddr);
    else if (dladdr(pc, &i) && i.dli_fname) { const char *b = strrchr(i.dli_fname, '/'); snprintf(out, n, "%s+%lx", b ? b + 1 : i.dli_fname, (ul)pc - (ul)i.dli_fbase); }
    else snprintf(out, n, "%p", pc);
}

static void conflict(void *p, void *q, bool pw, bool qw, int u, int v) {
    stats.conflicts++;
    if (reports.size() > 20) return;
    char a[300], b[300], f[300], line[1200];
    where(a, 300, p); where(b, 300, q); where(f, 300, (void *)team.fn);
    snprintf(line, 1200, "in %s: iterations %d and %d: %s at %s and %s at %s", f, u, v, pw ? "write" : "read", a, qw ? "write" : "read", b);
    reports.insert(line);
}

static void touch(void *addr, ul size, bool write, void *pc, uint64_t extra = 0) {
    Thr &t = thr[self];
    char *p = (char *)addr;
    if (p >= t.lo && p < t.hi) return;
    stats.accesses++;
    ul a = (ul)addr, e = a + size;
    while (a < e) {
        ul k = a >> 3, upto = std::min(e, (k + 1) << 3);
        uint8_t mask = 0;
        for (ul b = a; b < upto; b++) mask |= 1 << (b & 7);
        Cell *c = cell(k, true);
        if (c->epoch != team.epoch) { c->n = 0; c->epoch = team.epoch; }
        uint64_t locks = t.lockset | extra;
        Acc *mine = 0;
        for (int i = 0; i < c->n; i++) {
            Acc &o = c->a[i];
            if (o.unit == t.unit && o.thread == self && o.locks == locks) { mine = &o; continue; }
            if (o.unit == t.unit && o.thread == self) continue;
            if (o.thread == self && (o.unit < 0 || t.unit < 0)) continue;   // the thread's own code around its iterations
            if (o.locks & locks) continue;
            // a plain read of a word that is otherwise only changed by atomic operations (the view counts of memory views,
            // which are read only to see that they are not negative)
            if ((!write && (o.locks & ATOMIC)) || ((locks & ATOMIC) && !(o.w & mask))) { stats.atomic_reads++; continue; }
            if (write && ((o.r | o.w) & mask)) conflict(pc, (o.w & mask) ? o.pc_w : o.pc_r, true, (o.w & mask) != 0, t.unit, o.unit);
            else if (!write && (o.w & mask)) conflict(pc, o.pc_w, false, true, t.unit, o.unit);
        }
        if (!mine) {
            if (c->n == 10) {   // many readers: forget one that only read
                int v = 0;
                for (int i = 0; i < c->n; i++) if (!c->a[i].w) { v = i; break; }
                mine = &c->a[v];
            } else mine = &c->a[c->n++];
            mine->unit = t.unit; mine->thread = self; mine->locks = locks; mine->r = mine->w = 0;
        }
        if (write) { mine->w |= mask; mine->pc_w = pc; } else { mine->r |= mask; mine->pc_r = pc; }
        a = upto;
    }
}

static void fresh(void *p, ul size) {
    for (ul k = (ul)p >> 3; k <= ((ul)p + size - 1) >> 3; k++) { Cell *c = cell(k, false); if (c) c->n = 0; }
}

#define REC(sz, w) if (__builtin_expect(active, 0) && self >= 0) touch(p, sz, w, __builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_read1(void *p) { REC(1, false); }
void __tsan_read2(void *p) { REC(2, false); }
void __tsan_read4(void *p) { REC(4, false); }
void __tsan_read8(void *p) { REC(8, false); }
void __tsan_read16(void *p) { REC(16, false); }
void __tsan_write1(void *p) { REC(1, true); }
void __tsan_write2(void *p) { REC(2, true); }
void __tsan_write4(void *p) { REC(4, true); }
void __tsan_write8(void *p) { REC(8, true); }
void __tsan_write16(void *p) { REC(16, true); }
void __tsan_unaligned_read2(void *p) { REC(2, false); }
void __tsan_unaligned_read4(void *p) { REC(4, false); }
void __tsan_unaligned_read8(void *p) { REC(8, false); }
void __tsan_unaligned_read16(void *p) { REC(16, false); }
void __tsan_unaligned_write2(void *p) { REC(2, true); }
void __tsan_unaligned_write4(void *p) { REC(4, true); }
void __tsan_unaligned_write8(void *p) { REC(8, true); }
void __tsan_unaligned_write16(void *p) { REC(16, true); }
void __tsan_volatile_read1(void *p) { REC(1, false); }
void __tsan_volatile_read4(void *p) { REC(4, false); }
void __tsan_volatile_read8(void *p) { REC(8, false); }
void __tsan_volatile_write1(void *p) { REC(1, true); }
void __tsan_volatile_write4(void *p) { REC(4, true); }
void __tsan_volatile_write8(void *p) { REC(8, true); }
void __tsan_read_range(void *p, ul n) { REC(n, false); }
void __tsan_write_range(void *p, ul n) { REC(n, true); }
void __tsan_vptr_update(void **p, void *) { REC(8, true); }
void __tsan_vptr_read(void **p) { REC(8, false); }

// atomic operations exclude each other
#define AREC(sz) if (__builtin_expect(active, 0) && self >= 0) touch((void *)p, sz, true, __builtin_return_address(0), ATOMIC)
#define AT(bits, T)                                                                                             \
    T __tsan_atomic##bits##_load(const volatile T *p, int) { AREC(bits / 8); return *p; }                        \
    void __tsan_atomic##bits##_store(volatile T *p, T v, int) { AREC(bits / 8); *p = v; }                        \
    T __tsan_atomic##bits##_exchange(volatile T *p, T v, int) { AREC(bits / 8); T o = *p; *p = v; return o; }     \
    T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int) { AREC(bits / 8); T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int) { AREC(bits / 8); T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int) { AREC(bits / 8); T o = *p; *p = o & v; return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int) { AREC(bits / 8); T o = *p; *p = o | v; return o; }  \
    T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int) { AREC(bits / 8); T o = *p; *p = o ^ v; return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { AREC(bits / 8); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { AREC(bits / 8); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; }   \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int, int) { AREC(bits / 8); T o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// the modules are linked with --wrap for these
void *__real_malloc(size_t); void __real_free(void *);
#define IN (__builtin_expect(active, 0) && self >= 0)
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (IN && n) { touch((void *)s, n, false, __builtin_return_address(0)); touch(d, n, true, __builtin_return_address(0)); } return memcpy(d, s, n); }
void *__wrap___memcpy_chk(void *d, const void *s, size_t n, size_t) { return __wrap_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (IN && n) { touch((void *)s, n, false, __builtin_return_address(0)); touch(d, n, true, __builtin_return_address(0)); } return memmove(d, s, n); }
void *__wrap_memset(void *d, int v, size_t n) { if (IN && n) touch(d, n, true, __builtin_return_address(0)); return memset(d, v, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { if (IN && n) { touch((void *)a, n, false, __builtin_return_address(0)); touch((void *)b, n, false, __builtin_return_address(0)); } return memcmp(a, b, n); }
static void *got(void *p) { if (IN && p) fresh(p, malloc_usable_size(p)); return p; }
static void gone(void *p, void *pc) { if (IN && p) { ul n = malloc_usable_size(p); touch(p, n, true, pc); fresh(p, n); } }
void *__wrap_malloc(size_t n) { return got(malloc(n)); }
void *__wrap_calloc(size_t n, size_t m) { return got(calloc(n, m)); }
void __wrap_free(void *p) { gone(p, __builtin_return_address(0)); free(p); }
void *__wrap_realloc(void *p, size_t n) { gone(p, __builtin_return_address(0)); return got(realloc(p, n)); }
void *__wrap__Znwm(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); return got(p); }
void *__wrap__Znam(size_t n) { return __wrap__Znwm(n); }
void __wrap__ZdlPv(void *p) { gone(p, __builtin_return_address(0)); free(p); }
void __wrap__ZdlPvm(void *p, size_t) { gone(p, __builtin_return_address(0)); free(p); }
void __wrap__ZdaPv(void *p) { gone(p, __builtin_return_address(0)); free(p); }
void __wrap__ZdaPvm(void *p, size_t) { gone(p, __builtin_return_address(0)); free(p); }
}

// ---------------------------------------------------------------- threads and the controller
static void to_controller(State s) {       // called by a pool thread: gives the baton back, waits for it
    Thr &t = thr[self];
    pthread_mutex_lock(&mu);
    t.st = s; t.go = false; ctl = true;
    pthread_cond_signal(&back);
    while (!t.go) pthread_cond_wait(&t.cv, &mu);
    pthread_mutex_unlock(&mu);
}

static void to_thread(int i) {             // called by the controller: runs thread i until it gives the baton back
    stats.handoffs++;
    pthread_mutex_lock(&mu);
    ctl = false; thr[i].st = RUN; thr[i].go = true;
    pthread_cond_signal(&thr[i].cv);
    while (!ctl) pthread_cond_wait(&back, &mu);
    pthread_mutex_unlock(&mu);
}

static void *pool(void *arg) {
    self = (int)(long)arg;
    Thr &t = thr[self];
    pthread_attr_t at; void *lo; size_t sz;
    pthread_getattr_np(pthread_self(), &at);
    pthread_attr_getstack(&at, &lo, &sz);
    pthread_attr_destroy(&at);
    t.lo = (char *)lo; t.hi = t.lo + sz;
    pthread_mutex_lock(&mu);
    while (!t.go) pthread_cond_wait(&t.cv, &mu);
    pthread_mutex_unlock(&mu);
    for (;;) {
        t.unit = -1; t.lockset = 0;
        team.fn(team.data);
        to_controller(DONE);
    }
    return 0;
}

static std::vector<std::pair<int, int> > plan_for(int n, int T) {
    std::vector<std::pair<int, int> > r;
    std::map<int, std::vector<std::pair<int, int> > >::iterator it = table.find(n);
    if (it != table.end()) {
        for (size_t i = 0; i < it->second.size(); i++) r.push_back(std::make_pair(it->second[i].first, it->second[i].second % T));
        return r;
    }
    for (int i = 0; i < n; i++) {
        switch (cfg.rule) {
            case 0: r.push_back(std::make_pair(i, i % T)); break;
            case 1: r.push_back(std::make_pair(n - 1 - i, i % T)); break;
            case 2: r.push_back(std::make_pair((i * 2 < n) ? i * 2 : (i - (n + 1) / 2) * 2 + 1, (i / 2) % T)); break;
            case 3: r.push_back(std::make_pair((i + n / 2) % n, i * T / n)); break;
            default: r.push_back(std::make_pair((n / 2 + ((i & 1) ? -(i + 1) / 2 : i / 2) + n) % n, (i * i) % T)); break;
        }
    }
    // the last rule may repeat: complete it
    std::vector<bool> has(n);
    std::vector<std::pair<int, int> > q;
    for (size_t i = 0; i < r.size(); i++) if (!has[r[i].first]) { has[r[i].first] = true; q.push_back(r[i]); }
    for (int i = 0; i < n; i++) if (!has[i]) q.push_back(std::make_pair(i, i % T));
    return q;
}

static void control() {
    int T = team.T;
    // order in which threads run when nothing else decides (static loops, code around loops)
    std::vector<int> ord;
    std::vector<std::pair<int, int> > p = plan_for(T, T);
    for (size_t i = 0; i < p.size(); i++) ord.push_back(p[i].first);
    for (;;) {
        for (int k = 0; k < T; k++) if (thr[ord[k]].st == IDLE) to_thread(ord[k]);
        int want = 0, barrier = 0, done = 0;
        for (int i = 0; i < T; i++) { want += thr[i].st == WANT_ITER; barrier += thr[i].st == BARRIER; done += thr[i].st == DONE; }
        if (want) {
            // threads asking for an iteration: all threads are here or will not come (they passed the loop's end)
            if (team.pos < team.plan.size()) {
                int t = team.plan[team.pos].second;
                if (thr[t].st != WANT_ITER) for (int i = 0; i < T; i++) if (thr[i].st == WANT_ITER) { t = i; break; }
                thr[t].have = true; thr[t].next = team.plan[team.pos].first;
                team.pos++;
                to_thread(t);
            } else {
                for (int k = 0; k < T; k++) if (thr[ord[k]].st == WANT_ITER) { thr[ord[k]].have = false; to_thread(ord[k]); break; }
            }
            continue;
        }
        if (barrier) {
            if (barrier + done != T) { fprintf(stderr, "sched: barrier\n"); abort(); }
            team.epoch++; team.loop = false;
            for (int i = 0; i < T; i++) if (thr[i].st == BARRIER) { thr[i].st = IDLE; thr[i].unit = -1; }
            continue;
        }
        if (done == T) return;
    }
}

static __thread long serial_pos, serial_end, serial_incr;
extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned num, unsigned) {
    stats.regions++;
    seen_fn.insert((ul)fn);
    if (!cfg.on || self >= 0 || active || cfg.threads < 2 || num == 1) {
        long p = serial_pos, e = serial_end, i = serial_incr;
        nested++;
        fn(data);
        nested--;
        serial_pos = p; serial_end = e; serial_incr = i;
        return;
    }
    int T = cfg.threads;
    if (num && (int)num < T) T = num;
    while (made < T) {
        Thr &t = thr[made];
        pthread_cond_init(&t.cv, 0); t.go = false; t.st = IDLE;
        pthread_create(&t.id, 0, pool, (void *)(long)made);
        made++;
    }
    multi_fn.insert((ul)fn);
    team.T = T; team.fn = fn; team.data = data; team.loop = false; team.epoch = 0; team.loops = 0;
    for (int i = 0; i < T; i++) { thr[i].st = IDLE; thr[i].unit = -1; thr[i].lockset = 0; }
    gen++; used = 0;
    active = 1;
    control();
    active = 0;
}
int omp_get_num_threads() { return !ALONE ? team.T : 1; }
int omp_get_thread_num() { return !ALONE ? self : 0; }
int omp_get_max_threads() { return cfg.on ? cfg.threads : 1; }
void omp_set_num_threads(int) {}
int omp_in_parallel() { return self >= 0; }

static bool give(long *istart, long *iend) {
    if (ALONE) {
        if ((serial_incr > 0 && serial_pos >= serial_end) || (serial_incr < 0 && serial_pos <= serial_end)) return false;
        *istart = serial_pos; *iend = serial_pos + serial_incr; serial_pos += serial_incr;
        return true;
    }
    thr[self].unit = -1;
    to_controller(WANT_ITER);
    if (!thr[self].have) return false;
    *istart = team.start + thr[self].next * team.incr;
    *iend = *istart + team.incr;
    thr[self].unit = thr[self].next;
    stats.units++;
    return true;
}
static void open_loop(long start, long end, long incr) {
    if (ALONE) { serial_pos = start; serial_end = end; serial_incr = incr; return; }
    if (!team.loop) {
        team.loop = true; team.start = start; team.end = end; team.incr = incr; team.loops++;
        team.n = incr > 0 ? (end > start ? (end - start + incr - 1) / incr : 0) : (end < start ? (start - end - incr - 1) / -incr : 0);
        team.plan = plan_for(team.n, team.T); team.pos = 0;
        stats.loops++;
    }
}
#define LOOP(kind) \
    bool GOMP_loop_##kind##_start(long s, long e, long i, long, long *a, long *b) { open_loop(s, e, i); return give(a, b); } \
    bool GOMP_loop_##kind##_next(long *a, long *b) { return give(a, b); }
LOOP(dynamic) LOOP(guided) LOOP(static) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
bool GOMP_loop_runtime_start(long s, long e, long i, long *a, long *b) { open_loop(s, e, i); return give(a, b); }
bool GOMP_loop_runtime_next(long *a, long *b) { return give(a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *a, long *b) { open_loop(s, e, i); return give(a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *a, long *b) { return give(a, b); }
void GOMP_barrier() { if (!ALONE) to_controller(BARRIER); }
void GOMP_loop_end() { if (!ALONE) { thr[self].unit = -1; to_controller(BARRIER); } }
void GOMP_loop_end_nowait() { if (!ALONE) thr[self].unit = -1; }
#define PAR(kind) \
    void GOMP_parallel_loop_##kind(void (*fn)(void *), void *data, unsigned num, long, long, long, long, unsigned flags) { fprintf(stderr, "sched: combined loop\n"); abort(); }
PAR(dynamic) PAR(guided) PAR(static) PAR(nonmonotonic_dynamic) PAR(nonmonotonic_guided)
// units inside a critical section do not overlap: bit 0 = atomic section, bit 1 = atomic operations, others = named sections
static std::map<void *, int> names;
static uint64_t bit(void *n) { if (!names.count(n)) { int k = names.size(); names[n] = 3 + k % 60; } return 1ul << names[n]; }
void GOMP_atomic_start() { if (self >= 0) thr[self].lockset |= 1; }
void GOMP_atomic_end() { if (self >= 0) thr[self].lockset &= ~1ul; }
void GOMP_critical_start() { if (self >= 0) thr[self].lockset |= 4; }
void GOMP_critical_end() { if (self >= 0) thr[self].lockset &= ~4ul; }
void GOMP_critical_name_start(void **n) { if (self >= 0) thr[self].lockset |= bit(n); }
void GOMP_critical_name_end(void **n) { if (self >= 0) thr[self].lockset &= ~bit(n); }
bool GOMP_single_start() { return ALONE || self == 0; }

// ---------------------------------------------------------------- driver
void sched_config(int on, int threads, int rule) {
    if (!cells) cells = (Cell *)calloc(CELLS, sizeof(Cell));
    cfg.on = on; cfg.threads = std::min(threads, (int)MAXT); cfg.rule = rule;
}
void sched_order(int n, const int *iters, const int *threads) {
    std::vector<std::pair<int, int> > v;
    for (int i = 0; i < n; i++) v.push_back(std::make_pair(iters[i], threads[i]));
    table[n] = v;
}
void sched_clear() { table.clear(); reports.clear(); memset(&stats, 0, sizeof stats); }
ul sched_stat(int k) { return ((ul *)&stats)[k]; }
int sched_report(int k, char *out, int n) {
    if (k >= (int)reports.size()) return 0;
    std::set<std::string>::iterator it = reports.begin();
    std::advance(it, k);
    snprintf(out, n, "%s", it->c_str());
    return 1;
}
int sched_region(int multi, int k, char *out, int n) {
    std::set<ul> &s = multi ? multi_fn : seen_fn;
    if (k >= (int)s.size()) return 0;
    std::set<ul>::iterator it = s.begin();
    std::advance(it, k);
    Dl_info i;
    if (dladdr((void *)*it, &i)) { const char *b = strrchr(i.dli_fname, '/'); snprintf(out, n, "%s %lx", b ? b + 1 : i.dli_fname, *it - (ul)i.dli_fbase); }
    else snprintf(out, n, "?");
    return 1;
}
}
