// C09: eigenvalues of coupled (periodic, antiperiodic, ...) boundary conditions: complete, indexed and with multiplicity.
#include "periodic.hpp"
using namespace vp;
typedef std::vector<std::tuple<int, double, int>> Ev;

static void execution(mc::Ctx &c) {
    Dom d = c.pick("domain", domains(c.thorough));
    std::string kind = c.pick("potential", concat(kinds(c.thorough), c.thorough ? std::vector<std::string>{} : std::vector<std::string>{"hill", "comb"}));
    Builder b = c.pick("builder", std::vector<Builder>{AUTO8, uniform(24), AUTO5});
    Prob p = prob(kind, d.a, d.b);
    if (!b.automatic && !p.jumps.empty()) throw mc::Skip();
    if (b.name == "uniform24" && kind == "deepwells" && d.b - d.a > 5) throw mc::Skip();
    Coupling k = c.pick("K", couplings(c.thorough));
    if (!c.thorough && b.tol > 1e-7 && c.trail.back().v % 2) throw mc::Skip();
    c.shard();
    auto &pm = c.memo([&] { return makePeriodic(p, b, k, p.fn<double>()); });
    double rel = !b.automatic ? 1e-5 : b.tol < 1e-7 ? 1e-6 : 1e-3;
    double L = d.b - d.a;
    // reference answers are reused for values already verified
    auto &ok = c.memo([] { return std::map<int, std::vector<double>>(); });
    auto right = [&](int n, int m, double E) {
        double w = rel * (1 + std::fabs(E));
        for (double e: ok[2 * n + m - 1]) if (std::fabs(e - E) <= w / 50) return true;
        bool g = pcount(p.P, E - w, k) <= n && n + m - 1 < pcount(p.P, E + w, k);
        if (g) ok[2 * n + m - 1].push_back(E);
        return g;
    };
    auto txt = [](const Ev &v) { std::string t; for (auto &e: v) t += mc::strf("(%d:%.12g x%d)", std::get<0>(e), std::get<1>(e), std::get<2>(e)); return t; };
    const int N = 8;
    auto &refs = c.memo([&] { std::vector<double> r; for (int i = 0; i <= N; ++i) r.push_back(peigenvalue(p.P, k, i)); return r; });
    bool anti = k.b > 0 || (k.b == 0 && k.a < 0);
    auto content = [&](const Ev &v, const std::string &t) { // what every answer must satisfy
        for (size_t i = 0; i < v.size(); ++i) {
            auto[n, E, m] = v[i];
            c.check(m == 1 || m == 2, "multiplicity", "%s", t.c_str());
            c.check(std::isfinite(E) && (i == 0 || (std::get<0>(v[i - 1]) + std::get<2>(v[i - 1]) == n && std::get<1>(v[i - 1]) <= E + 1e-12)), "order", "%s", t.c_str());
            if (!right(n, m, E)) c.check(false, "value", "index %d (multiplicity %d) is not at %.12g, reference %.12g: %s", n, m, E, peigenvalue(p.P, k, n), t.c_str());
            c.checks++;
            if (n + 1 <= N) { // multiplicity
                double w = rel * (1 + std::fabs(E));
                if (m == 2) c.check(refs[n + 1] - refs[n] <= 4 * w, "multiplicity", "%d and %d differ by %.3g: %s", n, n + 1, refs[n + 1] - refs[n], t.c_str());
                else if (n % 2 == (anti ? 0 : 1) && i + 1 < v.size()) {
                    double split = std::get<1>(v[i + 1]) - E;
                    if (refs[n + 1] - refs[n] > 4 * w) c.check(split > 0, "multiplicity", "%s", t.c_str());
                    // an exactly double eigenvalue of a constant potential is recognised up to rounding
                    if (p.P.p.size() == 1 && p.P.p[0].c.size() == 1 && (k.name == "I" || k.name == "-I"))
                        c.check(false, "double", "the double eigenvalue %d was split by %.3g: %s", n, split, t.c_str());
                }
            }
            c.state(mc::hash(&n, 4, mc::hash(&m, 4)));
        }
    };
    std::string op = c.pick("query", std::vector<std::string>{"index", "window", "matching"});
    if (op == "index") {
        int lo = (int) c.choose("from", c.thorough ? N : 6), hi = lo + (int) c.choose("length", 5);
        int high = (int) c.choose("shift", 3);
        int s[3] = {0, 20, 301};
        if (high && (hi - lo > 2 || lo > 3)) throw mc::Skip();
        lo += s[high];
        hi += s[high];
        Ev v = pm->eigenvaluesByIndex(lo, hi);
        c.step();
        std::string t = mc::strf("%d..%d: ", lo, hi) + txt(v);
        content(v, t);
        // every index asked for is covered, nothing else but the other half of a double eigenvalue
        int from = 1 << 30, to = -1;
        for (auto &e: v) { from = std::min(from, std::get<0>(e)); to = std::max(to, std::get<0>(e) + std::get<2>(e)); }
        if (lo == hi) c.check(v.empty() || (v.size() == 1 && std::get<2>(v[0]) == 2 && std::get<0>(v[0]) + 1 == lo), "empty range", "%s", t.c_str());
        else {
            c.check(from <= lo && to >= hi, "missing", "%s", t.c_str());
            c.check((from == lo || (from == lo - 1 && std::get<2>(v[0]) == 2)) && (to == hi || (to == hi + 1 && std::get<2>(v.back()) == 2)), "surplus", "%s", t.c_str());
        }
        // the same numbers come with their eigenfunctions
        if (!high && hi - lo <= 2) {
            auto q = pm->eigenpairsByIndex(lo, hi);
            c.step();
            bool same = q.size() == v.size();
            for (size_t i = 0; same && i < v.size(); ++i) same = std::get<0>(q[i]) == std::get<0>(v[i]) && std::get<1>(q[i]) == std::get<1>(v[i]) && (int) std::get<2>(q[i]).size() == std::get<2>(v[i]);
            c.check(same, "eigenpairs", "eigenpairsByIndex disagrees with %s", t.c_str());
        }
        c.outcome(t);
    } else if (op == "window") {
        auto &g = c.memo([&] {
            double up = (double) p.P.upper(), far = refs[0] - 30 * (1 + std::fabs(refs[0]));
            far = std::min(refs[0] - 1, std::max(far, up - std::pow(200 / L, 2)));
            std::vector<double> e{far, refs[0] - 4 * rel * (1 + std::fabs(refs[0]))};
            for (int i = 0; i + 1 <= 6; ++i) {
                double w = rel * (1 + std::fabs(refs[i]));
                if (refs[i + 1] - refs[i] > 40 * w) {
                    e.push_back((refs[i] + refs[i + 1]) / 2);
                    if (i == 0 || i == 3) e.push_back(refs[i] + 4 * w);
                    if (i == 2) e.push_back(refs[i + 1] - 4 * rel * (1 + std::fabs(refs[i + 1])));
                }
            }
            std::sort(e.begin(), e.end());
            return e;
        });
        size_t i = c.choose("Emin", g.size()), j = c.choose("Emax", g.size());
        Ev v = pm->eigenvalues(g[i], g[j]);
        c.step();
        std::string t = mc::strf("[%.12g,%.12g]: ", g[i], g[j]) + txt(v);
        content(v, t);
        int from = pcount(p.P, g[i], k), to = pcount(p.P, g[j], k), n = 0;
        for (auto &e: v) n += std::get<2>(e);
        c.check(n == std::max(0, to - from) && (v.empty() || std::get<0>(v[0]) == from), "window", "indices %d..%d lie in %s", from, to, t.c_str());
        if (j % 2 == 0) {
            auto q = pm->eigenpairs(g[i], g[j]);
            c.step();
            bool same = q.size() == v.size();
            for (size_t i = 0; same && i < v.size(); ++i) same = std::get<0>(q[i]) == std::get<0>(v[i]) && std::get<1>(q[i]) == std::get<1>(v[i]) && (int) std::get<2>(q[i]).size() == std::get<2>(v[i]);
            c.check(same, "eigenpairs", "eigenpairs disagrees with %s", t.c_str());
        }
        c.outcome(t);
    } else { // the matching error and the two-column propagation it is made of
        auto &es = c.memo([&] {
            std::vector<double> e{(double) p.P.lower() - 2, pm->matslise.sectors[0]->vs[0], (double) p.P.upper() + 5, (double) p.P.upper() + 80, refs[1]};
            std::vector<double> r;
            for (double x: e) if (std::sqrt(std::max(0., (double) p.P.upper() - x)) * L < 30) r.push_back(x);
            return r;
        });
        double E = es[c.choose("E", es.size())];
        bool useH = !c.flag("without step formulas");
        auto &ms = pm->matslise;
        double xm = ms.sectors[ms.matchIndex]->max;
        auto r = pm->matchingError(E, useH);
        c.step();
        double om = std::sqrt(std::max(1., std::fabs(E - (double) p.P.lower())));
        for (int q = 0; q < 2; ++q) {
            matslise::Y<> l0, r0;
            l0.data << 1, q ? -1 : 1, 0, 0;
            r0.data << k.a + (q ? -k.b : k.b), k.c + (q ? -k.d : k.d), 0, 0;
            auto ref = [&](const matslise::Y<> &y, double from) { return ref::integrate(p.P, E, {y.data[0], y.data[1], 0, 0}, from, xm).u; };
            ref::S x = ref(l0, d.a), z = ref(r0, d.b);
            double sc = std::fabs((double) x.y) + std::fabs((double) x.d) / om + std::fabs((double) z.y) + std::fabs((double) z.d) / om;
            double scE = std::fabs((double) x.ye) + std::fabs((double) x.de) / om + std::fabs((double) z.ye) + std::fabs((double) z.de) / om + sc * L / om;
            double tol = b.automatic ? (b.tol < 1e-7 ? 1e-6 : 3e-3) : 1e-6;
            if (!useH) tol *= 30;
            std::string t = mc::strf("column %d E=%.12g", q, E);
            c.near(r.first.data(0, q), (double) (x.y - z.y), tol * sc, "matching value", t);
            c.near(r.first.data(1, q), (double) (x.d - z.d), tol * sc * om, "matching derivative", t);
            c.near(r.first.data(2, q), (double) (x.ye - z.ye), tol * scE, "matching dE", t);
            c.near(r.first.data(3, q), (double) (x.de - z.de), tol * scE * om, "matching dE", t);
            auto a = ms.propagate(E, l0, d.a, xm, useH), e = ms.propagate(E, r0, d.b, xm, useH);
            c.near(r.second[q], (a.second - e.second) / 3.14159265358979323846, 1e-9, "matching angle", t);
        }
        matslise::Y<double, 1, 2> y;
        y.data << 1, 0.3, -2, 1, 0.1, 0, 0, -0.4;
        for (double f: {0., 0.33, 1.}) for (double z: {0.1, 0.5, 1.}) {
            double a = d.a + f * L, e = d.a + z * L;
            auto two = pm->propagate(E, y, a, e, useH);
            for (int q = 0; q < 2; ++q) {
                auto one = ms.propagate(E, y.col(q), a, e, useH);
                for (int i = 0; i < 4; ++i) c.near(two.first.data(i, q), one.first.data[i], 1e-10 * one.first.data.cwiseAbs().maxCoeff(), "columns", mc::strf("column %d row %d from %g to %g", q, i, a, e));
                c.near(two.second[q], one.second, 1e-9 * (1 + std::fabs(one.second)), "column angle", mc::strf("column %d from %g to %g", q, a, e));
            }
            c.step();
        }
        c.outcome((uint64_t) llround(r.first.data(0, 0) * 1e6));
    }
}

MC_MAIN(execution)
