// Runtime behind rt.hpp: allocator with one arena per thread, vector clocks, scheduler, synchronisation models and the
// entry points that code compiled with -fsanitize=thread calls.  Not itself instrumented.
#include "rt.hpp"
#include <atomic>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <execinfo.h>
#include <link.h>
#include <map>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sched.h>
#include <unistd.h>
#include <unordered_map>

extern "C" char __executable_start, end;

namespace {
    const int MAXT = 4; // 0 is the main thread
    const uintptr_t BASE = 0x200000000000ull, ARENA = 1ull << 28;

    struct Cell {
        uint32_t rc[3], wc[3]; // clocks of the last read and write per controlled thread
        uint8_t rm[3], wm[3];  // bytes touched at that clock
    };

    thread_local int arena = 0;
    thread_local int me = -1; // index of the controlled thread, -1 when not controlled
    thread_local bool busy = false; // inside the runtime
    thread_local char *stackLow = nullptr, *stackHigh = nullptr;

    uintptr_t top[MAXT];
    bool mapped = false;
    struct Block { Block *next; };
    Block *freeList[MAXT][64];

    Cell *shadow[MAXT], *globals;
    uintptr_t globalLow, globalHigh;

    bool running = false;
    rt::Report *report;
    rt::Plan plan;
    int count = 0, active = -1;
    bool done[3], blocked[3];
    const void *waitsFor[3];
    sem_t go[3], finished;
    uint32_t vc[3][3];
    struct Sync { uint32_t vc[3] = {0, 0, 0}; int owner = -1, readers[3] = {0, 0, 0}; int state = 0; };
    std::unordered_map<uintptr_t, Sync> *syncs;
    std::unordered_map<uintptr_t, Cell> *elsewhere;
    uint64_t spins = 0;

    void map() {
        if (mapped) return;
        mapped = true;
        for (int i = 0; i < MAXT; ++i) {
            void *p = mmap((void *) (BASE + i * ARENA), ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
            if (p != (void *) (BASE + i * ARENA)) abort();
            top[i] = BASE + i * ARENA + 64;
        }
    }

    int sizeClass(size_t n) { // header included
        int c = 0;
        size_t s = 32;
        while (s < n) {
            s = c % 2 ? s / 3 * 4 : s / 2 * 3;
            ++c;
        }
        return c;
    }

    size_t classSize(int c) {
        size_t s = 32;
        for (int i = 0; i < c; ++i) s = i % 2 ? s / 3 * 4 : s / 2 * 3;
        return (s + 15) / 16 * 16;
    }

    std::atomic_flag heapLock = ATOMIC_FLAG_INIT;
    struct Heap {
        Heap() { while (heapLock.test_and_set(std::memory_order_acquire)) sched_yield(); }
        ~Heap() { heapLock.clear(std::memory_order_release); }
    };

    struct Quiet {
        bool was;
        Quiet() : was(busy) { busy = true; }
        ~Quiet() { busy = was; }
    };

    void *allocate(size_t n, size_t align = 16) {
        int a = busy ? 0 : arena;
        Quiet q;
        Heap h;
        map();
        if (align > 16) {
            uintptr_t p = (top[a] + 16 + align - 1) / align * align;
            if (p + n > BASE + (a + 1) * ARENA) return nullptr;
            top[a] = (p + n + 15) / 16 * 16;
            ((size_t *) p)[-1] = n;
            ((size_t *) p)[-2] = 1000;
            return (void *) p;
        }
        int c = sizeClass(n + 16);
        if (c >= 64) return nullptr;
        uintptr_t b;
        if (freeList[a][c]) {
            b = (uintptr_t) freeList[a][c];
            freeList[a][c] = freeList[a][c]->next;
        } else {
            b = top[a];
            size_t s = classSize(c);
            if (b + s > BASE + (a + 1) * ARENA) return nullptr;
            top[a] += s;
        }
        ((size_t *) b)[0] = c;
        ((size_t *) b)[1] = n;
        if (running && a > 0 && shadow[a]) memset(&shadow[a][(b - BASE - a * ARENA) / 8], 0, (n + 23) / 8 * sizeof(Cell));
        return (void *) (b + 16);
    }

    void release(void *p) {
        if (!p) return;
        uintptr_t b = (uintptr_t) p - 16;
        if (b < BASE || b >= BASE + MAXT * ARENA) return;
        size_t c = ((size_t *) b)[0];
        if (c >= 64) return;
        int a = (int) ((b - BASE) / ARENA);
        // memory of another thread is not reused: no accidental sharing
        if (running && a != (busy ? 0 : arena)) return;
        Quiet q;
        Heap h;
        auto *f = (Block *) b;
        f->next = freeList[a][c];
        freeList[a][c] = f;
    }

    // ---- scheduler
    void switchTo(int t) {
        int self = me;
        active = t;
        spins = 0;
        sem_post(&go[t]);
        if (self >= 0 && !done[self]) while (sem_wait(&go[self])) {}
    }

    int other(bool voluntary) {
        for (int k = 1; k <= count; ++k) {
            int t = (me + k) % count;
            if (t != me && !done[t] && !blocked[t]) return t;
        }
        (void) voluntary;
        return -1;
    }

    bool has(const std::vector<uint64_t> &v, uint64_t k) {
        for (auto q: v) if (q == k) return true;
        return false;
    }

    // a synchronisation operation is about to happen
    void point() {
        if (me < 0 || busy || !running) return;
        Quiet q;
        uint64_t k = report->points++;
        if (has(plan.at, k) || ++spins > 2000) {
            int t = other(true);
            spins = 0;
            if (t >= 0) switchTo(t);
        }
        if (report->points > 3000000) { report->overflow = true; _exit(9); }
    }

    void call() {
        if (me < 0 || busy || !running) return;
        uint64_t k = report->calls++;
        if (plan.atCall.empty()) return;
        Quiet q;
        if (has(plan.atCall, k)) {
            int t = other(true);
            if (t >= 0) switchTo(t);
        }
    }

    void block(const void *on) { // until somebody wakes
        blocked[me] = true;
        waitsFor[me] = on;
        int t = other(false);
        if (t < 0) {
            report->deadlock = true;
            _exit(8);
        }
        switchTo(t);
    }

    void wake(const void *on) {
        for (int t = 0; t < count; ++t) if (blocked[t] && waitsFor[t] == on) blocked[t] = false;
    }

    Sync &sync(const void *p) { return (*syncs)[(uintptr_t) p]; }

    void acquire(const void *p) {
        auto &s = sync(p);
        for (int i = 0; i < 3; ++i) if (s.vc[i] > vc[me][i]) vc[me][i] = s.vc[i];
    }

    void releaseTo(const void *p) {
        auto &s = sync(p);
        for (int i = 0; i < 3; ++i) if (vc[me][i] > s.vc[i]) s.vc[i] = vc[me][i];
        ++vc[me][me];
    }

    bool controlled() { return me >= 0 && !busy && running; }

    // ---- accesses
    Cell *cell(uintptr_t g) { // g: address of the granule
        if (g >= BASE && g < BASE + MAXT * ARENA) {
            int a = (int) ((g - BASE) / ARENA);
            return &shadow[a][(g - BASE - a * ARENA) / 8];
        }
        if (g >= globalLow && g < globalHigh) return &globals[(g - globalLow) / 8];
        return &(*elsewhere)[g];
    }

    void where(std::string &s, void *pc) {
        Dl_info i;
        if (dladdr(pc, &i) && i.dli_sname) {
            int st;
            char *d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
            s += d ? std::string(d).substr(0, 160) : i.dli_sname;
            free(d);
        } else {
            char b[40];
            snprintf(b, sizeof b, "%p", pc);
            s += b;
        }
    }

    void touch(uintptr_t g, uint8_t mask, bool write, bool atomic, void *pc) {
        Cell &c = *cell(g);
        uint32_t now = vc[me][me];
        for (int u = 0; u < count; ++u) {
            if (u == me || atomic) continue;
            bool ww = (c.wm[u] & mask) && c.wc[u] > vc[me][u], rw = write && (c.rm[u] & mask) && c.rc[u] > vc[me][u];
            if ((ww || rw) && report->race.empty()) {
                Quiet q;
                std::string s = std::string(write ? "write" : "read") + " of thread " + std::to_string(me) + " and unordered " + (ww ? "write" : "read") + " of thread " + std::to_string(u);
                char b[60];
                bool glob = g >= globalLow && g < globalHigh;
                snprintf(b, sizeof b, " at %s %p in ", glob ? "global" : g >= BASE && g < BASE + MAXT * ARENA ? "heap" : "other", (void *) g);
                s += b;
                where(s, pc);
                report->race = s;
            }
        }
        if (write) {
            if (c.wc[me] != now) c.wm[me] = 0;
            c.wc[me] = now;
            if (!atomic) c.wm[me] |= mask;
        } else {
            if (c.rc[me] != now) c.rm[me] = 0;
            c.rc[me] = now;
            if (!atomic) c.rm[me] |= mask;
        }
        if (atomic) { // plain accesses of others still conflict
            for (int u = 0; u < count; ++u) {
                if (u == me) continue;
                bool ww = (c.wm[u] & mask) && c.wc[u] > vc[me][u], rw = write && (c.rm[u] & mask) && c.rc[u] > vc[me][u];
                if ((ww || rw) && report->race.empty()) report->race = "atomic and unordered plain access of the same object";
            }
        }
    }

    inline void access(const void *p, size_t n, bool write, void *pc, bool atomic = false) {
        if (me < 0 || busy || !running || n == 0) return;
        if ((char *) p >= stackLow && (char *) p < stackHigh) return;
        Quiet q;
        ++report->accesses;
        uintptr_t a = (uintptr_t) p, e = a + n;
        for (uintptr_t g = a & ~7ull; g < e; g += 8) {
            uint8_t m = 0xff;
            if (g < a) m &= 0xff << (a - g);
            if (g + 8 > e) m &= 0xff >> (g + 8 - e);
            touch(g, m, write, atomic, pc);
        }
    }

    struct Start { int index; const std::function<void()> *f; };

    void *body(void *v) {
        auto *s = (Start *) v;
        busy = true;
        pthread_attr_t at;
        pthread_getattr_np(pthread_self(), &at);
        void *lo;
        size_t size;
        pthread_attr_getstack(&at, &lo, &size);
        pthread_attr_destroy(&at);
        stackLow = (char *) lo;
        stackHigh = (char *) lo + size;
        arena = s->index + 1;
        while (sem_wait(&go[s->index])) {}
        me = s->index;
        busy = false;
        (*s->f)();
        busy = true;
        done[me] = true;
        int t = other(false);
        if (t >= 0) {
            active = t;
            sem_post(&go[t]);
        } else {
            bool all = true;
            for (int i = 0; i < count; ++i) all &= done[i];
            if (!all) { report->deadlock = true; _exit(8); }
            sem_post(&finished);
        }
        me = -1;
        return nullptr;
    }
}

rt::Report rt::run(const std::vector<std::function<void()>> &threads, const Plan &p) {
    Report r;
    Quiet q;
    count = (int) threads.size();
    plan = p;
    report = &r;
    syncs = new std::unordered_map<uintptr_t, Sync>();
    elsewhere = new std::unordered_map<uintptr_t, Cell>();
    globalLow = (uintptr_t) &__executable_start & ~7ull;
    globalHigh = ((uintptr_t) &end + 15) & ~7ull;
    auto zeros = [](size_t n) { return (Cell *) mmap(nullptr, n * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); };
    globals = zeros((globalHigh - globalLow) / 8 + 2);
    for (int i = 0; i < MAXT; ++i) shadow[i] = zeros(ARENA / 8 + 2);
    for (int i = 0; i < 3; ++i) {
        done[i] = blocked[i] = false;
        for (int j = 0; j < 3; ++j) vc[i][j] = i == j;
        sem_init(&go[i], 0, 0);
    }
    sem_init(&finished, 0, 0);
    pthread_t id[3];
    Start st[3];
    running = true;
    for (int i = 0; i < count; ++i) {
        st[i] = {i, &threads[i]};
        pthread_create(&id[i], nullptr, body, &st[i]);
    }
    active = p.first;
    sem_post(&go[p.first]);
    while (sem_wait(&finished)) {}
    for (int i = 0; i < count; ++i) pthread_join(id[i], nullptr);
    running = false;
    for (size_t i = 0; i < ARENA / 8; i += 1 << 20) {}
    r.granules = elsewhere->size();
    return r;
}

// ---- allocation
extern "C" {
void *malloc(size_t n) { void *p = allocate(n ? n : 1); if (!p) errno = ENOMEM; return p; }
void free(void *p) { release(p); }
void *calloc(size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) return nullptr;
    void *p = malloc(n);
    if (p) { Quiet q; memset(p, 0, n); }
    return p;
}
void *realloc(void *p, size_t n) {
    if (!p) return malloc(n);
    size_t old = ((size_t *) p)[-1];
    void *r = malloc(n);
    if (r) {
        Quiet q;
        memcpy(r, p, old < n ? old : n);
    }
    release(p);
    return r;
}
void *memalign(size_t a, size_t n) { return allocate(n ? n : 1, a); }
void *aligned_alloc(size_t a, size_t n) { return allocate(n ? n : 1, a); }
int posix_memalign(void **r, size_t a, size_t n) { return (*r = allocate(n ? n : 1, a)) ? 0 : ENOMEM; }
size_t malloc_usable_size(void *p) { return p ? ((size_t *) p)[-1] : 0; }

// ---- block operations of the C library
void *memcpy(void *__restrict d, const void *__restrict s, size_t n) {
    access(s, n, false, __builtin_return_address(0));
    access(d, n, true, __builtin_return_address(0));
    void *r = d;
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
void *memmove(void *d, const void *s, size_t n) {
    access(s, n, false, __builtin_return_address(0));
    access(d, n, true, __builtin_return_address(0));
    void *r = d;
    if ((uintptr_t) d - (uintptr_t) s >= n) asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    else if (n) {
        char *dd = (char *) d + n - 1;
        const char *ss = (const char *) s + n - 1;
        asm volatile("std; rep movsb; cld" : "+D"(dd), "+S"(ss), "+c"(n) : : "memory");
    }
    return r;
}
void *memset(void *d, int v, size_t n) {
    access(d, n, true, __builtin_return_address(0));
    void *r = d;
    asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
    return r;
}

// ---- plain accesses
#define PC __builtin_return_address(0)
#define ACC(N) \
void __tsan_read##N(void *p) { access(p, N, false, PC); } \
void __tsan_write##N(void *p) { access(p, N, true, PC); } \
void __tsan_volatile_read##N(void *p) { access(p, N, false, PC); } \
void __tsan_volatile_write##N(void *p) { access(p, N, true, PC); } \
void __tsan_unaligned_read##N(void *p) { access(p, N, false, PC); } \
void __tsan_unaligned_write##N(void *p) { access(p, N, true, PC); } \
void __tsan_unaligned_volatile_read##N(void *p) { access(p, N, false, PC); } \
void __tsan_unaligned_volatile_write##N(void *p) { access(p, N, true, PC); } \
void __tsan_read_write##N(void *p) { access(p, N, false, PC); access(p, N, true, PC); } \
void __tsan_unaligned_read_write##N(void *p) { access(p, N, false, PC); access(p, N, true, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *p, unsigned long n) { access(p, n, false, PC); }
void __tsan_write_range(void *p, unsigned long n) { access(p, n, true, PC); }
void __tsan_vptr_read(void **p) { access(p, 8, false, PC); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) access(p, 8, true, PC); }
void __tsan_init() {}
void __tsan_func_entry(void *) { call(); }
void __tsan_func_exit() {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
void *__tsan_memset(void *d, int v, size_t n) { return memset(d, v, n); }

// ---- atomics: sequentially consistent, synchronising unless relaxed
static void beforeAtomic(const volatile void *p, size_t n, bool write, int order, void *pc) {
    if (!controlled()) return;
    point();
    {
        Quiet q;
        if (order != __ATOMIC_RELAXED) acquire((const void *) p);
    }
    access((const void *) p, n, write, pc, true);
    Quiet q;
    if (write && order != __ATOMIC_RELAXED) releaseTo((const void *) p);
}
#define ATOM(B, T) \
T __tsan_atomic##B##_load(const volatile T *p, int o) { beforeAtomic(p, sizeof(T), false, o, PC); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##B##_store(volatile T *p, T v, int o) { beforeAtomic(p, sizeof(T), true, o, PC); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_exchange(volatile T *p, T v, int o) { beforeAtomic(p, sizeof(T), true, o, PC); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int o) { beforeAtomic(p, sizeof(T), true, o, PC); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int o) { beforeAtomic(p, sizeof(T), true, o, PC); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int o) { beforeAtomic(p, sizeof(T), true, o, PC); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int o) { beforeAtomic(p, sizeof(T), true, o, PC); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int o) { beforeAtomic(p, sizeof(T), true, o, PC); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_nand(volatile T *p, T v, int o) { beforeAtomic(p, sizeof(T), true, o, PC); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int o, int) { beforeAtomic(p, sizeof(T), true, o, PC); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int o, int) { beforeAtomic(p, sizeof(T), true, o, PC); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int o, int) { beforeAtomic(p, sizeof(T), true, o, PC); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
static char fence;
void __tsan_atomic_thread_fence(int) {
    if (!controlled()) return;
    Quiet q;
    acquire(&fence);
    releaseTo(&fence);
}
void __tsan_atomic_signal_fence(int) {}

// ---- locks
#define REAL(name) ((decltype(&name)) dlsym(RTLD_NEXT, #name))
static void lockObject(const void *m, bool exclusive) {
    point();
    Quiet q;
    while (true) {
        auto &s = sync(m);
        bool free = s.owner < 0;
        if (exclusive) for (int i = 0; i < 3; ++i) free &= s.readers[i] == 0;
        if (free) break;
        block(m);
    }
    auto &s = sync(m);
    if (exclusive) s.owner = me; else ++s.readers[me];
    acquire(m);
}
static void unlockObject(const void *m) {
    {
        Quiet q;
        auto &s = sync(m);
        if (s.owner == me) s.owner = -1; else if (s.readers[me]) --s.readers[me];
        releaseTo(m);
        wake(m);
    }
    point();
}
static bool tryObject(const void *m, bool exclusive) {
    point();
    Quiet q;
    auto &s = sync(m);
    bool free = s.owner < 0;
    if (exclusive) for (int i = 0; i < 3; ++i) free &= s.readers[i] == 0;
    if (!free) return false;
    if (exclusive) s.owner = me; else ++s.readers[me];
    acquire(m);
    return true;
}
static int *recursion(const void *m) { static std::map<const void *, int> r; return &r[m]; }
int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!controlled()) return REAL(pthread_mutex_lock)(m);
    { // recursive mutexes
        Quiet q;
        if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE && sync(m).owner == me) { ++*recursion(m); return 0; }
    }
    lockObject(m, true);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!controlled()) return REAL(pthread_mutex_trylock)(m);
    return tryObject(m, true) ? 0 : EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!controlled()) return REAL(pthread_mutex_unlock)(m);
    {
        Quiet q;
        if (*recursion(m) > 0) { --*recursion(m); return 0; }
    }
    unlockObject(m);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) { if (!controlled()) return REAL(pthread_rwlock_rdlock)(m); lockObject(m, false); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { if (!controlled()) return REAL(pthread_rwlock_wrlock)(m); lockObject(m, true); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { if (!controlled()) return REAL(pthread_rwlock_tryrdlock)(m); return tryObject(m, false) ? 0 : EBUSY; }
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) { if (!controlled()) return REAL(pthread_rwlock_trywrlock)(m); return tryObject(m, true) ? 0 : EBUSY; }
int pthread_rwlock_unlock(pthread_rwlock_t *m) { if (!controlled()) return REAL(pthread_rwlock_unlock)(m); unlockObject(m); return 0; }

int pthread_once(pthread_once_t *o, void (*f)()) {
    if (!controlled()) return REAL(pthread_once)(o, f);
    point();
    while (true) {
        Quiet q;
        auto &s = sync(o);
        if (s.state == 2 || *o == 2) { acquire(o); return 0; }
        if (s.state == 0) { s.state = 1; break; }
        block(o);
    }
    f();
    Quiet q;
    sync(o).state = 2;
    releaseTo(o);
    wake(o);
    return 0;
}

// ---- initialisation of local statics
int __cxa_guard_acquire(long long *g) {
    char *b = (char *) g;
    if (!controlled()) {
        if (b[0]) return 0;
        b[1] = 1;
        return 1;
    }
    point();
    Quiet q;
    while (true) {
        if (b[0]) { acquire(g); return 0; }
        if (!b[1]) { b[1] = 1; return 1; }
        block(g);
    }
}
void __cxa_guard_release(long long *g) {
    char *b = (char *) g;
    b[0] = 1;
    b[1] = 0;
    if (controlled()) {
        {
            Quiet q;
            releaseTo(g);
            wake(g);
        }
        point();
    }
}
void __cxa_guard_abort(long long *g) {
    ((char *) g)[1] = 0;
    if (controlled()) {
        Quiet q;
        wake(g);
    }
}
}

void *operator new(size_t n) { void *p = allocate(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, std::align_val_t a) { void *p = allocate(n ? n : 1, (size_t) a); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void *p) noexcept { release(p); }
void operator delete[](void *p) noexcept { release(p); }
void operator delete(void *p, size_t) noexcept { release(p); }
void operator delete[](void *p, size_t) noexcept { release(p); }
void operator delete(void *p, std::align_val_t) noexcept { release(p); }
void operator delete[](void *p, std::align_val_t) noexcept { release(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { release(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { release(p); }
