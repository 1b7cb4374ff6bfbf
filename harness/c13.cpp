// C13: one solver queried from several threads.  Every pair of operations runs on shared objects under the controlled
// scheduler of rt.hpp in a forked process: every access is checked for unordered conflicts, and switches are explored at
// synchronisation operations and function entries; results must equal those of a fresh process.
#include "world.hpp"
#include "rt.hpp"
using namespace vp;

static Pristine pristine;

struct Answer {
    rt::Report r;
    std::string out[3];
    bool crashed = false;
    int status = 0;
};

// threads: for every thread the operations it performs
static Answer play(const Setting &set, const std::vector<std::vector<int>> &threads, const rt::Plan &plan) {
    static const std::vector<Op> ops = operations();
    int fd[2];
    if (pipe(fd)) _exit(5);
    pid_t p = fork();
    if (p == 0) {
        close(fd[0]);
        mc::arm(30);
        World w(set);
        for (auto &t: threads) for (int i: t) if (ops[i].kind != 2) ops[i].prepare(w);
        Answer a;
        std::vector<std::function<void()>> fs;
        for (size_t t = 0; t < threads.size(); ++t)
            fs.push_back([&, t] {
                for (int i: threads[t]) {
                    if (ops[i].kind == 2) { // constructions work on objects of their own
                        World v(set);
                        a.out[t] += perform(v, ops[i]);
                    } else a.out[t] += perform(w, ops[i]);
                }
            });
        a.r = rt::run(fs, plan);
        auto send = [&](const void *q, size_t n) { while (n) { ssize_t k = write(fd[1], q, n); if (k <= 0) _exit(5); q = (const char *) q + k; n -= k; } };
        auto str = [&](const std::string &s) { size_t n = s.size(); send(&n, sizeof n); send(s.data(), n); };
        str(a.r.race);
        uint64_t v[4] = {a.r.points, a.r.calls, a.r.accesses, a.r.granules};
        send(v, sizeof v);
        for (auto &o: a.out) str(o);
        _exit(0);
    }
    close(fd[1]);
    Answer a;
    bool ok = true;
    auto get = [&](void *q, size_t n) { while (n && ok) { ssize_t k = read(fd[0], q, n); if (k <= 0) { ok = false; break; } q = (char *) q + k; n -= k; } };
    auto str = [&](std::string &s) { size_t n = 0; get(&n, sizeof n); if (!ok || n > 100000000) { ok = false; return; } s.resize(n); get(s.data(), n); };
    str(a.r.race);
    uint64_t v[4] = {0, 0, 0, 0};
    get(v, sizeof v);
    for (auto &o: a.out) str(o);
    close(fd[0]);
    waitpid(p, &a.status, 0);
    a.r.points = v[0];
    a.r.calls = v[1];
    a.r.accesses = v[2];
    a.r.granules = v[3];
    a.r.deadlock = WIFEXITED(a.status) && WEXITSTATUS(a.status) == 8;
    a.crashed = !ok || a.status;
    return a;
}

static void execution(mc::Ctx &c) {
    static const std::vector<Op> ops = operations();
    static std::map<std::pair<int, int>, std::string> fresh;
    auto sets = settings();
    if (!c.thorough) sets.resize(2);
    int s = (int) c.choose("setting", sets.size());
    c.trail.back().label = sets[s].name;
    std::vector<int> list;
    for (size_t i = 0; i < ops.size(); ++i) if (c.thorough || s == 0 || ops[i].core) list.push_back((int) i);
    int ai = (int) c.choose("thread 1", list.size());
    int a = list[ai];
    c.trail.back().label = ops[a].name;
    int bi = ai + (int) c.choose("thread 2", list.size() - ai);
    int b = list[bi];
    c.trail.back().label = ops[b].name;
    int shape = 0;
    if (c.thorough) shape = (int) c.choose("shape", 3);
    c.shard();
    std::vector<std::vector<int>> threads{{a}, {b}};
    if (shape == 1) threads = {{a, b}, {b, a}};
    if (shape == 2) threads = {{a}, {b}, {a}};
    auto want = [&](int op) -> const std::string & {
        auto it = fresh.find({s, op});
        if (it == fresh.end()) it = fresh.emplace(std::make_pair(s, op), pristine.ask(c.worker, s, op)).first;
        return it->second;
    };
    auto judge = [&](const Answer &r) {
        c.step(1 + r.r.points);
        c.check(!r.r.deadlock, "deadlock", "the threads wait for each other");
        c.check(!r.crashed, "crash", "the process ended with status 0x%x", r.status);
        c.check(r.r.race.empty(), "race", "%s", r.r.race.c_str());
        for (size_t t = 0; t < threads.size(); ++t) {
            std::string w;
            for (int i: threads[t]) w += want(i);
            if (r.out[t] != w) c.fail("result", mc::strf("thread %d gave ", (int) t) + Out::readable(r.out[t]) + " instead of " + Out::readable(w));
            ++c.checks;
        }
        c.counters["accesses"] += r.r.accesses;
        c.counters["synchronisation_points"] += r.r.points;
        c.state(mc::hash(mc::strf("%d %d %d", a, b, shape)) ^ (r.r.accesses * 31 + r.r.points));
        c.outcome(mc::hash(r.out[0]) ^ mc::hash(r.out[1]) * 3);
    };
    rt::Plan plan;
    plan.first = (int) c.choose("first", 2);
    // no switch that is not forced; the number of points tells where one can be inserted
    auto &base = c.memo([&] { Answer r = play(sets[s], threads, plan); return r; });
    int what = (int) c.choose("switch", 3);
    static const char *names[] = {"none", "at synchronisation", "at a call"};
    c.trail.back().label = names[what];
    if (what == 0) return judge(base);
    if (what == 1) {
        if (base.crashed || base.r.points == 0) throw mc::Skip();
        uint64_t n = std::min<uint64_t>(base.r.points, c.thorough ? 200 : 14);
        plan.at.push_back(c.choose("point", n));
        auto &one = c.memo([&] { Answer r = play(sets[s], threads, plan); return r; });
        // a second switch at a later point
        uint64_t m = std::min<uint64_t>(one.r.points, plan.at[0] + (c.thorough ? 30 : 4));
        uint64_t k = c.choose("second", m > plan.at[0] ? m - plan.at[0] : 1);
        if (k == 0) return judge(one);
        plan.at.push_back(plan.at[0] + k);
        return judge(play(sets[s], threads, plan));
    }
    // at function entries: the first ones and some spread over the rest (there are no further synchronisation points
    // between them, so each such execution is equivalent to one above; this validates that)
    if (base.crashed || plan.first || (!c.thorough && !(ops[a].core && ops[b].core && s == 0))) throw mc::Skip();
    uint64_t k = c.choose("entry", c.thorough ? 10 : 4);
    plan.atCall.push_back(k < 2 ? k * 3 : base.r.calls / 2 * (k - 1) / (c.thorough ? 9 : 3));
    if (k % 2) plan.atCall.push_back(plan.atCall[0] + 40);
    judge(play(sets[s], threads, plan));
}

int main(int argc, char **argv) {
    pristine.start(12);
    return mc::run(argc, argv, execution);
}
