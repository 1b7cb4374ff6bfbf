// C14: exceptions and allocation failures.  For every construction and query: the user's function throws at every single
// call, every single allocation fails (once, or that one and all later ones).  The exception must reach the caller
// unchanged, nothing may leak, and afterwards everything gives the results it gave before.
#include "world.hpp"
#include <new>
using namespace vp;

// every allocation of the process passes here: operator new, and malloc as Eigen calls it (linked with --wrap)
static long live = 0, count = 0, failAt = 0;
static bool armed = false, persistent = false;
static bool hit = false;

static bool refused() {
    if (!armed) return false;
    ++count;
    if (failAt && (count == failAt || (persistent && count > failAt))) { hit = true; return true; }
    return false;
}

extern "C" {
void *__real_malloc(size_t);
void __real_free(void *);
void *__real_realloc(void *, size_t);
}

// blocks carry a mark, freed blocks are overwritten and kept for a while: freeing twice and using freed memory show
static const uint64_t ALIVE = 0x5ca1ab1e0ddba11ull, DEAD = 0xdeadbeefdeadbeefull;
#ifdef __SANITIZE_ADDRESS__
static const bool guard = false; // the sanitizer does it
#else
static const bool guard = true;
#endif

struct alignas(16) Head {
    uint64_t mark, size;
};

static void *get(size_t n) {
    if (!guard) { void *p = __real_malloc(n); if (p) ++live; return p; }
    auto *h = (Head *) __real_malloc(n + sizeof(Head));
    if (!h) return nullptr;
    h->mark = ALIVE;
    h->size = n;
    ++live;
    return h + 1;
}

static void put(void *p) {
    if (!p) return;
    --live;
    if (!guard) { __real_free(p); return; }
    Head *h = (Head *) p - 1;
    if (h->mark != ALIVE) {
        fprintf(stderr, "%s\n", h->mark == DEAD ? "memory was freed twice" : "memory that was not allocated was freed");
        abort();
    }
    h->mark = DEAD;
    memset(p, 0xdb, h->size);
    static Head *ring[512];
    static unsigned at = 0;
    if (h->size > 65536) { __real_free(h); return; }
    std::swap(ring[at++ % 512], h);
    if (h) __real_free(h);
}

extern "C" {
void *__wrap_malloc(size_t n) { return refused() ? nullptr : get(n); }
void __wrap_free(void *p) { put(p); }
void *__wrap_realloc(void *p, size_t n) {
    if (refused()) return nullptr;
    void *q = get(n);
    if (q && p) {
        size_t old = n;
        if (guard) old = ((Head *) p - 1)->size;
        else { void *r = __real_realloc(p, n); __real_free(q); --live; return r; }
        memcpy(q, p, std::min(n, old));
        put(p);
    }
    return q;
}
}

void *operator new(size_t n) {
    void *p = refused() ? nullptr : get(n);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return refused() ? nullptr : get(n); }
void *operator new(size_t n, std::align_val_t a) {
    void *p = refused() ? nullptr : aligned_alloc((size_t) a, (n + (size_t) a - 1) / (size_t) a * (size_t) a);
    if (!p) throw std::bad_alloc();
    ++live;
    return p;
}
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, size_t) noexcept { put(p); }
void operator delete[](void *p, size_t) noexcept { put(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { put(p); }
void operator delete(void *p, std::align_val_t) noexcept { if (p) { --live; __real_free(p); } }
void operator delete(void *p, size_t, std::align_val_t) noexcept { if (p) { --live; __real_free(p); } }

struct Stop { // thrown by the user's function: not derived from anything
    int k;
};
struct StopError : std::runtime_error {
    int k;
    explicit StopError(int k_) : std::runtime_error("user error"), k(k_) {}
};

enum Result { NORMAL, STOP, STOPERROR, BADALLOC, OTHER };
static const char *resultNames[] = {"no exception", "the user's exception", "the user's std::exception", "std::bad_alloc", "another exception"};

struct Ran {
    Result r = NORMAL;
    int k = 0;
    uint64_t h = 0;
    std::string what;
};

template<typename F>
static Ran attempt(F f) {
    Ran q;
    try {
        q.h = f();
    } catch (const Stop &s) {
        q.r = STOP;
        q.k = s.k;
    } catch (const StopError &s) {
        q.r = STOPERROR;
        q.k = s.k;
    } catch (const std::bad_alloc &) {
        q.r = BADALLOC;
    } catch (const std::exception &e) {
        q.r = OTHER;
        q.k = -1;
    } catch (...) {
        q.r = OTHER;
    }
    armed = false;
    return q;
}

static uint64_t run(World &w, const Op &op) {
    Out o;
    op.run(w, o);
    return mc::hash(o.s);
}

struct Constructor {
    std::string name;
    std::function<void(World &)> build;
    std::vector<std::string> uses; // operations whose results are compared afterwards
};

static std::vector<Constructor> constructors() {
    return {{"A automatic", [](World &w) { w.A(); }, {"A.byIndex(0,4,D,D)", "A.pairs(1,3,D,D)"}},
            {"C uniform", [](World &w) { w.C(); }, {"C.byIndex(0,4,D,D)"}},
            {"H half", [](World &w) { w.H(); }, {"H.byIndex(0,5,D)"}},
            {"P periodic", [](World &w) { w.P(); }, {"P.byIndex(0,4)"}},
            {"S Sturm-Liouville", [](World &w) { w.S(); }, {"S.byIndex(0,3,D,D)"}},
            {"T transformation", [](World &w) { w.T(); }, {"T.maps"}},
#ifdef WITH_MATSCS
            {"M system", [](World &w) { w.M(); }, {"M.propagate", "M.propagatePsi"}},
#endif
            {"eigenfunction of A", [](World &w) { w.fA(); }, {"fA(array)"}},
            {"eigenfunction of H", [](World &w) { w.fH(); }, {"fH(array)"}},
            {"eigenfunction of P", [](World &w) { w.fP(); }, {"fP(array)"}},
            {"eigenfunction of S", [](World &w) { w.fS(); }, {"fS(array)"}}};
}

struct Base { // fault-free run
    long allocations = 0, calls = 0;
    uint64_t h = 0;
    std::unique_ptr<World> w; // kept by the query modes
    std::vector<uint64_t> after; // results of the companions
};

static const std::vector<Op> &ops() {
    static const std::vector<Op> o = operations();
    return o;
}

static const Op &opNamed(const std::string &n) {
    for (auto &o: ops()) if (o.name == n) return o;
    fprintf(stderr, "no operation %s\n", n.c_str());
    _exit(5);
}

static void execution(mc::Ctx &c) {
    static const std::vector<Constructor> cons = constructors();
    static const std::vector<Setting> sets = settings();
    int mode = (int) c.choose("mode", 4);
    static const char *modes[] = {"construction, function throws", "construction, allocation fails", "query, allocation fails", "query, function throws"};
    c.trail.back().label = modes[mode];
    int s = (int) c.choose("setting", sets.size());
    c.trail.back().label = sets[s].name;
    if (mode < 2) {
        int k = (int) c.choose("object", cons.size());
        const Constructor &con = cons[k];
        c.trail.back().label = con.name;
        auto &base = c.memo([&] {
            Base b;
            for (int warm = 0; warm < 2; ++warm) {
                World w(sets[s]);
                count = 0;
                failAt = 0;
                armed = true;
                con.build(w);
                armed = false;
                b.allocations = count;
                b.calls = (long) w.calls;
                b.after.clear();
                for (auto &u: con.uses) b.after.push_back(run(w, opNamed(u)));
                b.after.push_back(run(w, opNamed("B.byIndex(0,4,D,D)")));
            }
            return std::make_shared<Base>(std::move(b));
        });
        long n = mode == 0 ? base->calls : base->allocations;
        int variant = (int) c.choose("variant", mode == 0 ? 3 : 2);
        static const char *vn[2][3] = {{"own type", "runtime_error", "bad_alloc"}, {"once", "from then on", ""}};
        c.trail.back().label = vn[mode][variant];
        // blocks of consecutive fault points are the units of work
        int block = (int) c.choose("block", (n + 63) / 64);
        c.shard();
        int at = block * 64 + (int) c.choose("at", std::min(64l, n - block * 64l)) + 1;
        c.note(mc::strf("%s %d of %ld", mode ? "allocation" : "call", at, n));
        long before = live;
        Ran q;
        long after;
        bool same = true, thrown2 = false;
        uint64_t companion;
        {
            World w(sets[s]);
            w.B(); // an object that existed before
            w.onCall = nullptr;
            uint64_t called = 0;
            if (mode == 0) w.onCall = [&] {
                if ((int) ++called != at) return;
                if (variant == 0) throw Stop{at};
                if (variant == 1) throw StopError(at);
                throw std::bad_alloc();
            };
            hit = false;
            count = 0;
            failAt = mode == 1 ? at : 0;
            persistent = variant == 1;
            armed = mode == 1;
            q = attempt([&] { con.build(w); return (uint64_t) 0; });
            armed = false;
            w.onCall = nullptr;
            companion = run(w, opNamed("B.byIndex(0,4,D,D)"));
            // again, without the fault
            try {
                con.build(w);
                for (size_t i = 0; i < con.uses.size(); ++i) same = same && run(w, opNamed(con.uses[i])) == base->after[i];
            } catch (...) { thrown2 = true; }
        }
        after = live;
        c.step(2);
        Result expected = mode == 1 ? BADALLOC : variant == 0 ? STOP : variant == 1 ? STOPERROR : BADALLOC;
        c.check(q.r == expected, "exception", "%s reached the caller instead of %s", resultNames[q.r], resultNames[expected]);
        if (expected == STOP || expected == STOPERROR) c.check(q.k == at, "exception", "the exception of call %d reached the caller, not that of call %d", q.k, at);
        c.check(after == before, "leak", "%ld allocations were never freed", after - before);
        c.check(!thrown2, "repeat", "the repeated operation threw");
        c.check(same, "repeat", "the repeated construction gives other results");
        c.check(companion == base->after.back(), "companion", "an object that existed before gives other results");
        c.state(mc::hash(mc::strf("%d %d %d %d %d", mode, s, k, variant, at)));
        c.outcome(mc::hash(mc::strf("%d %d %d %d %d", mode, s, k, at, (int) q.r)));
        return;
    }
    // queries
    std::vector<int> sel;
    for (size_t i = 0; i < ops().size(); ++i) if (ops()[i].kind != 2 || mode == 3) sel.push_back((int) i);
    int k = sel[c.choose("query", sel.size())];
    const Op &op = ops()[k];
    c.trail.back().label = op.name;
    if (mode == 3) {
        // the first user function call of the whole operation, construction included, throws: every lazily built object
        // is left out; then it works
        auto &base = c.memo([&] {
            auto b = std::make_shared<Base>();
            World w(sets[s]);
            b->h = run(w, op);
            b->calls = (long) w.calls;
            return b;
        });
        std::vector<int> when{1, 2, 3, (int) base->calls / 2, (int) base->calls};
        int at = c.pick("call", when);
        if (base->calls == 0 || at < 1) throw mc::Skip();
        int second = (int) c.choose("second fault", 3); // none, same place, one later
        c.shard();
        long before = live;
        Ran q[3];
        {
            World w(sets[s]);
            for (int i = 0; i < 3; ++i) {
                uint64_t called = 0;
                int n = i == 0 ? at : i == 1 && second ? at + second - 1 : 0;
                w.onCall = [&] { if (n && (int) ++called == n) throw Stop{n}; };
                q[i] = attempt([&] { return run(w, op); });
                w.onCall = nullptr;
                if (i == 0) { c.step(); }
            }
        }
        long after = live;
        c.check(q[0].r == STOP && q[0].k == at, "exception", "%s reached the caller instead of the user's", resultNames[q[0].r]);
        if (second == 1) c.check(q[1].r == STOP && q[1].k == at, "exception", "second fault: %s", resultNames[q[1].r]);
        c.check(q[2].r == NORMAL && q[2].h == base->h, "repeat", "the repeated operation gives other results (%s)", resultNames[q[2].r]);
        c.check(after == before, "leak", "%ld allocations were never freed", after - before);
        c.state(mc::hash(mc::strf("%d %d %d %d %d", mode, s, k, at, second)));
        c.outcome(q[2].h);
        return;
    }
    auto &base = c.memo([&] {
        auto b = std::make_shared<Base>();
        b->w = std::make_unique<World>(sets[s]);
        op.prepare(*b->w);
        b->w->B();
        for (int warm = 0; warm < 2; ++warm) {
            count = 0;
            failAt = 0;
            armed = true;
            b->h = run(*b->w, op);
            armed = false;
            b->allocations = count;
        }
        b->after.push_back(run(*b->w, opNamed("B.byIndex(0,4,D,D)")));
        return b;
    });
    if (base->allocations == 0) { c.counters["queries without allocations"]++; throw mc::Skip(); }
    bool all = c.flag("from then on");
    int block = (int) c.choose("block", (base->allocations + 63) / 64);
    c.shard();
    int at = block * 64 + (int) c.choose("at", std::min(64l, base->allocations - block * 64l)) + 1;
    c.note(mc::strf("allocation %d of %ld", at, base->allocations));
    World &w = *base->w;
    long before = live;
    count = 0;
    failAt = at;
    persistent = all;
    hit = false;
    uint64_t calls = w.calls;
    armed = true;
    Ran q = attempt([&] { return run(w, op); });
    long after = live;
    c.check(q.r == BADALLOC, "exception", "%s reached the caller instead of std::bad_alloc", resultNames[q.r]);
    c.check(after == before, "leak", "%ld allocations were never freed", after - before);
    Ran again = attempt([&] { return run(w, op); });
    c.step(2);
    c.check(again.r == NORMAL && again.h == base->h, "repeat", "the repeated query gives other results (%s)", resultNames[again.r]);
    c.check(w.calls == calls, "potential called", "a query called the potential");
    if (at % 64 == 0 || at == base->allocations) {
        c.check(run(w, opNamed("B.byIndex(0,4,D,D)")) == base->after[0], "companion", "another object gives other results");
    }
    c.state(mc::hash(mc::strf("%d %d %d %d %d", mode, s, k, at, (int) all)));
    c.outcome(mc::hash(mc::strf("%d %d %d", s, k, at)));
}

MC_MAIN(execution)
