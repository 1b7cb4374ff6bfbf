// C01: eigenvalues requested by index are complete, correctly indexed and correct.
#include "probs.hpp"
using namespace vp;

static void execution(mc::Ctx &c) {
    const Dom d = c.pick("domain", domains(c.thorough));
    const std::string kind = c.pick("potential", concat(kinds(c.thorough), c.thorough ? std::vector<std::string>{} : std::vector<std::string>{"deepwells", "cubic", "const300"}));
    std::vector<Builder> bs{AUTO8, AUTO5};
    if (c.thorough) { bs.push_back(AUTO10); bs.push_back({"auto1e-6", true, 1e-6, 0, true}); }
    // uniform partitions do not know about jumps: only for smooth problems
    bs.push_back(uniform(24));
    const Builder b = c.pick("builder", bs);
    Prob p = prob(kind, d.a, d.b);
    if (!b.automatic && !p.jumps.empty()) throw mc::Skip();
    c.shard();
    auto &ms = c.memo([&] { return b.make(p); });
    const BC l = c.pick("left", bcs(c.thorough));
    const BC r = c.pick("right", bcs(c.thorough));
    static const std::vector<std::pair<int, int>> ranges{{0, 7}, {0, 1}, {1, 2}, {2, 3}, {3, 4}, {2, 6}, {3, 3}, {11, 13}, {37, 38}, {5, 45}, {240, 242}, {1030, 1031}};
    auto rg = c.pick<std::pair<int, int>>("range", ranges, [](const std::pair<int, int> &x) { return mc::strf("%d..%d", x.first, x.second); });
    if (rg.first >= 240 && !c.thorough && l.name != "D" && r.name != "R8") throw mc::Skip();
    if (rg.first >= 240 && (!b.automatic || b.tol > 1e-7) && rg.first * 3.2 / (d.b - d.a) > 300) throw mc::Skip(); // beyond the partition's accuracy
    auto ev = ms->eigenvaluesByIndex(rg.first, rg.second, l.Y(), r.Y());
    c.step();
    std::string got;
    for (auto &e: ev) got += mc::strf("(%d:%.12g)", e.first, e.second);
    c.check((int) ev.size() == rg.second - rg.first, "count", "%d eigenvalues for %d..%d: %s", (int) ev.size(), rg.first, rg.second, got.c_str());
    double rel = !b.automatic ? 3e-4 : b.tol < 1e-7 ? 2e-6 : b.tol < 5e-6 ? 2e-4 : 3e-3;
    for (size_t i = 0; i < ev.size(); ++i) {
        int n = rg.first + (int) i;
        c.check(ev[i].first == n, "index", "position %zu has index %d: %s", i, ev[i].first, got.c_str());
        double E = ev[i].second, w = rel * (1 + std::fabs(E));
        c.check(std::isfinite(E) && (i == 0 || ev[i - 1].second <= E + w), "order", "%s", got.c_str());
        int lo = ref::count(p.P, E - w, l.r(), r.r()), hi = ref::count(p.P, E + w, l.r(), r.r());
        ++c.checks;
        if (!(lo <= n && n < hi)) c.check(false, "value", "index %d: E=%.12g, but %d eigenvalues lie below E-w and %d below E+w (w=%.2g), reference %.12Lg; %s",
                n, E, lo, hi, w, ref::eigenvalue(p.P, l.r(), r.r(), n), got.c_str());
        c.state(mc::hash(&n, 4, mc::hash(l.name + "/" + r.name)));
        c.outcome((uint64_t) llround(E * 1e4));
        if (c.leaves % 8 == 0) {
            double v = w / 20;
            int lo2 = ref::count(p.P, E - v, l.r(), r.r()), hi2 = ref::count(p.P, E + v, l.r(), r.r());
            ++c.counters[lo2 <= n && n < hi2 ? "within_tenth_of_tolerance" : "beyond_tenth_of_tolerance"];
        }
    }
    c.note(got);
}

MC_MAIN(execution)
