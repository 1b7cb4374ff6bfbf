// C02: eigenvalues in an energy window are exactly those of the window, and adjacent windows compose.
#include "probs.hpp"
using namespace vp;

static void execution(mc::Ctx &c) {
    Dom d = c.pick("domain", domains(c.thorough));
    std::string kind = c.pick("potential", concat(kinds(c.thorough), c.thorough ? std::vector<std::string>{} : std::vector<std::string>{"deepwells", "hill"}));
    Builder b = c.pick("builder", c.thorough ? std::vector<Builder>{AUTO8, AUTO5, uniform(24)} : std::vector<Builder>{AUTO8, uniform(24)});
    Prob p = prob(kind, d.a, d.b);
    if (!b.automatic && !p.jumps.empty()) throw mc::Skip();
    BC l = c.pick("left", bcs(c.thorough));
    BC r = c.pick("right", bcs(c.thorough));
    c.shard();
    auto &ms = c.memo([&] { return b.make(p); });
    double rel = !b.automatic ? 3e-4 : b.tol < 1e-7 ? 2e-6 : 3e-3;
    static const int heights[] = {0, 60, 250, 1030};
    if (int h = heights[c.choose("at index", !(c.thorough || l.name == "D" || r.name == "R8") ? 1 : b.automatic && b.tol < 1e-7 ? 4 : 2)]) {
        // one window around some high index, estimated by Weyl's law
        double L = d.b - d.a, A = std::pow(h * (double) ref::PI / L, 2), B = std::pow((h + 3.3) * (double) ref::PI / L, 2);
        bool all = c.flag("from below the spectrum");
        if (all) A = (double) ref::eigenvalue(p.P, l.r(), r.r(), 0) - 10;
        if (all && (d.b - d.a != 1 || h > 300)) throw mc::Skip();
        auto v = ms->eigenvalues(A, B, l.Y(), r.Y());
        c.step();
        double wa = rel * (1 + std::fabs(A)), wb = rel * (1 + std::fabs(B));
        int from = ref::count(p.P, A + wa, l.r(), r.r()), to = ref::count(p.P, B - wb, l.r(), r.r());
        int from2 = ref::count(p.P, A - wa, l.r(), r.r()), to2 = ref::count(p.P, B + wb, l.r(), r.r());
        std::string t = mc::strf("[%.12g,%.12g] has %d eigenvalues", A, B, (int) v.size());
        c.check((int) v.size() >= to - from && (int) v.size() <= to2 - from2, "missing", "%s, %d..%d are in it", t.c_str(), from, to);
        for (size_t k = 0; k < v.size(); ++k) {
            c.check(v[k].first == v[0].first + (int) k && v[k].first >= from2 && v[k].first < to2, "gap", "position %d has index %d: %s, %d..%d are in it", (int) k, v[k].first, t.c_str(), from, to);
            if (all && k % 50 && k + 3 < v.size()) continue;
            double w = rel * (1 + std::fabs(v[k].second));
            c.check(ref::count(p.P, v[k].second - w, l.r(), r.r()) <= v[k].first && v[k].first < ref::count(p.P, v[k].second + w, l.r(), r.r()), "value", "index %d is not at %.12g: %s", v[k].first, v[k].second, t.c_str());
        }
        c.outcome(t);
        return;
    }
    const int N = 6;
    // breakpoints of the windows, from the reference spectrum
    struct Grid {
        std::vector<double> e;
        std::vector<std::string> name;
        std::vector<double> exact; // eigenvalues as the solver reports them
    };
    auto &g = c.memo([&] {
        Grid g;
        std::vector<double> ref;
        for (int i = 0; i <= N; ++i) ref.push_back((double) ref::eigenvalue(p.P, l.r(), r.r(), i));
        auto add = [&](double e, const std::string &n) { g.e.push_back(e); g.name.push_back(n); };
        double scale = 1 + std::fabs(ref[0]);
        add(ref[0] - 40 * scale, "far below");
        add(ref[0] - 3 * rel * scale, "just below 0");
        add((double) p.P.lower() - 0.5, "below V");
        for (int i = 0; i < N; ++i) {
            add((ref[i] + ref[i + 1]) / 2, mc::strf("between %d and %d", i, i + 1));
            if (i == 1 || i == 2) {
                add(ref[i] + 4 * rel * (1 + std::fabs(ref[i])), mc::strf("just above %d", i));
                g.exact.push_back(ref[i]);
            }
        }
        add(ref[2], "reference 2");
        auto ev = ms->eigenvaluesByIndex(0, 4, l.Y(), r.Y());
        // a solution that decays through a sector by more than the working precision has no meaningful angle at its eigenvalue
        auto meaningful = [&](double E) {
            for (auto &s: ms->sectors) if ((s->max - s->min) * std::sqrt(std::max(0., (double) p.P.upper() - E)) > 10) return false;
            return true;
        };
        for (auto &e: ev) if ((e.first == 0 || e.first == 3) && meaningful(e.second)) add(e.second, mc::strf("solver's %d", e.first));
        std::vector<size_t> o(g.e.size());
        for (size_t i = 0; i < o.size(); ++i) o[i] = i;
        std::sort(o.begin(), o.end(), [&](size_t x, size_t y) { return g.e[x] < g.e[y]; });
        Grid s;
        for (size_t i: o) if (s.e.empty() || g.e[i] > s.e.back()) { s.e.push_back(g.e[i]); s.name.push_back(g.name[i]); }
        return s;
    });
    typedef std::vector<std::pair<int, double>> Ev;
    size_t n = g.e.size();
    auto &table = c.memo([&] { // every window of the grid
        std::vector<Ev> t(n * n);
        for (size_t i = 0; i < n; ++i)
            for (size_t j = i; j < n; ++j) t[i * n + j] = ms->eigenvalues(g.e[i], g.e[j], l.Y(), r.Y());
        return t;
    });
    size_t i = c.choose("from", n);
    c.trail.back().label = g.name[i];
    size_t j = c.choose("to", n);
    c.trail.back().label = g.name[j];
    double A = g.e[i], B = g.e[j];
    auto txt = [](const Ev &v) { std::string s; for (auto &e: v) s += mc::strf("(%d:%.12g)", e.first, e.second); return s; };
    if (j < i) { // reversed window
        auto v = ms->eigenvalues(A, B, l.Y(), r.Y());
        c.step();
        c.check(v.empty(), "reversed", "window [%.12g,%.12g] returned %s", A, B, txt(v).c_str());
        return;
    }
    const Ev &v = table[i * n + j];
    c.step();
    std::string t = mc::strf("[%.12g,%.12g]: ", A, B) + txt(v);
    for (size_t k = 0; k < v.size(); ++k) {
        double E = v[k].second, w = rel * (1 + std::fabs(E));
        int m = v[k].first;
        c.check(k == 0 || v[k - 1].first + 1 == m, "gap", "indices are not consecutive: %s", t.c_str());
        c.check(E >= A - w && E <= B + w, "outside", "%s", t.c_str());
        int lo = ref::count(p.P, E - w, l.r(), r.r()), hi = ref::count(p.P, E + w, l.r(), r.r());
        c.check(lo <= m && m < hi, "value", "index %d is not at %.12g: %s", m, E, t.c_str());
        c.state(mc::hash(&m, 4));
    }
    // all eigenvalues clearly inside the window are there
    double wa = rel * (1 + std::fabs(A)), wb = rel * (1 + std::fabs(B));
    int from = ref::count(p.P, A + wa, l.r(), r.r()), to = ref::count(p.P, B - wb, l.r(), r.r());
    for (int m = from; m < to; ++m) {
        bool found = false;
        for (auto &e: v) found |= e.first == m;
        c.check(found, "missing", "eigenvalue %d is missing in %s", m, t.c_str());
    }
    int from2 = ref::count(p.P, A - wa, l.r(), r.r()), to2 = ref::count(p.P, B + wb, l.r(), r.r());
    c.check((int) v.size() <= std::max(0, to2 - from2), "surplus", "at most %d..%d lie in %s", from2, to2, t.c_str());
    // composition with every window that continues this one
    for (size_t k = j; k < n; ++k) {
        const Ev &x = table[j * n + k], &whole = table[i * n + k];
        c.step();
        bool same = whole.size() == v.size() + x.size();
        for (size_t q = 0; same && q < whole.size(); ++q) {
            auto &e = q < v.size() ? v[q] : x[q - v.size()];
            same = e.first == whole[q].first && std::fabs(e.second - whole[q].second) <= rel * (1 + std::fabs(e.second));
        }
        c.check(same, "compose", "[%.12g,%.12g] then [%.12g,%.12g]: %s + %s is not %s", A, B, B, g.e[k], txt(v).c_str(), txt(x).c_str(), txt(whole).c_str());
    }
    c.outcome(t);
    c.note(t);
}

MC_MAIN(execution)
