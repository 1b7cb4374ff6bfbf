// C12: queries are pure.  All sequences of operations up to a depth on solver objects; every result must equal, bit for
// bit, what a process gets that never did anything else, and no query may call the potential.
#include "world.hpp"
using namespace vp;

static Pristine pristine;

static void execution(mc::Ctx &c) {
    static const std::vector<Op> ops = operations();
    static std::map<std::pair<int, int>, std::string> fresh;
    auto sets = settings();
    if (!c.thorough) sets.resize(3);
    int s = (int) c.choose("setting", sets.size());
    c.trail.back().label = sets[s].name;
    int mode = (int) c.choose("mode", 4);
    static const char *modes[] = {"sequence", "burst", "prepared", "nested"};
    c.trail.back().label = modes[mode];
    auto want = [&](int op) -> const std::string & {
        auto it = fresh.find({s, op});
        if (it == fresh.end()) it = fresh.emplace(std::make_pair(s, op), pristine.ask(c.worker, s, op)).first;
        return it->second;
    };
    World w(sets[s]);
    std::vector<int> small;
    for (size_t i = 0; i < ops.size(); ++i) if (ops[i].core) small.push_back((int) i);
    auto pickOp = [&](bool all) {
        int i = all ? (int) c.choose("op", ops.size()) : small[c.choose("op", small.size())];
        c.trail.back().label = ops[i].name;
        return i;
    };
    auto go = [&](int i, bool prepared) {
        if (prepared) ops[i].prepare(w);
        uint64_t before = w.calls;
        std::string r = perform(w, ops[i]);
        c.step();
        if (prepared && ops[i].kind != 2)
            c.check(w.calls == before, "potential called", "%s called the potential %d times", ops[i].name.c_str(), (int) (w.calls - before));
        const std::string &q = want(i);
        if (r != q) c.fail("history", ops[i].name + " gave " + Out::readable(r) + " instead of " + Out::readable(q));
        ++c.checks;
        c.state(mc::hash(r, mc::hash(ops[i].name)));
        c.outcome(mc::hash(r));
    };
    if (mode == 0) {
        int a = pickOp(true);
        c.shard();
        int b = pickOp(true);
        // the first operation again, or (thorough) every third one
        if (c.thorough) {
            int third = pickOp(false);
            go(a, true);
            go(b, true);
            go(third, true);
        } else {
            go(a, true);
            go(b, true);
            go(a, true);
            bool core = ops[a].core && ops[b].core;
            if (core) {
                int third = pickOp(false);
                go(third, true);
            }
        }
    } else if (mode == 1) {
        // the same operation many times, then another one
        int a = pickOp(true);
        c.shard();
        int n = c.thorough ? 300 : 70;
        if (ops[a].kind == 2) n /= 10;
        for (int i = 0; i < n; ++i) go(a, true);
        for (int i: small) go(i, true);
        // different energies and positions in between
        auto &A = w.A();
        uint64_t before = w.calls;
        for (int i = 0; i < 200; ++i) A.propagate(i * 0.37 - 5, bc(1, i - 10), w.set.dom.a, w.set.dom.a + (w.set.dom.b - w.set.dom.a) * ((i * 7) % 11) / 11);
        c.check(w.calls == before, "potential called", "propagate called the potential");
        for (int i: small) go(i, true);
        go(a, true);
    } else if (mode == 2) {
        // all objects exist beforehand, built in forward or reverse order
        bool reverse = c.flag("reverse");
        int a = pickOp(true);
        c.shard();
        int b = pickOp(false);
        for (size_t i = 0; i < ops.size(); ++i) ops[reverse ? ops.size() - 1 - i : i].prepare(w);
        go(a, true);
        go(b, true);
        go(a, true);
    } else {
        // the first, middle or a late call of the potential builds and uses other solvers
        int when = c.pick("call", std::vector<int>{1, 9, 40});
        int inner = pickOp(false);
        c.shard();
        int a = pickOp(true);
        int n = 0;
        bool inside = false;
        w.onCall = [&] {
            if (inside || ++n != when) return;
            inside = true;
            World v(sets[s]);
            std::string r = perform(v, ops[inner]);
            const std::string &q = want(inner);
            if (r != q) c.fail("nested", ops[inner].name + " inside the potential gave " + Out::readable(r) + " instead of " + Out::readable(q));
            inside = false;
        };
        go(a, false);
        w.onCall = nullptr;
        go(a, true);
    }
    // where the potential was called
    double a = std::min(0., std::min(w.set.dom.a, w.set.dom.a - w.set.dom.b)), b = std::max(1., std::max(w.set.dom.b, w.set.dom.b - w.set.dom.a));
    c.check(w.calls == 0 || (w.lo >= a - 1e-13 && w.hi <= b + 1e-13), "outside", "a user function was called on [%.17g,%.17g]", w.lo, w.hi);
}

int main(int argc, char **argv) {
    pristine.start(12);
    return mc::run(argc, argv, execution);
}
