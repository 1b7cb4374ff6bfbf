// C10: eigenfunctions of coupled boundary conditions solve the equation and satisfy the coupling.
#include "periodic.hpp"
using namespace vp;

static void execution(mc::Ctx &c) {
    std::vector<Dom> ds = domains(c.thorough);
    ds.erase(std::remove_if(ds.begin(), ds.end(), [](const Dom &d) { return d.b - d.a > 4; }), ds.end()); // tunnelling through a long domain leaves no digits
    if (!c.thorough) ds.push_back({"[-1,2]", -1, 2});
    Dom d = c.pick("domain", ds);
    std::string kind = c.pick("potential", concat(kinds(c.thorough), c.thorough ? std::vector<std::string>{} : std::vector<std::string>{"hill", "comb", "const4"}));
    if (kind == "deepwells") throw mc::Skip();
    Builder b = c.pick("builder", std::vector<Builder>{AUTO8, uniform(16)});
    Prob p = prob(kind, d.a, d.b);
    if (!b.automatic && !p.jumps.empty()) throw mc::Skip();
    Coupling k = c.pick("K", couplings(true));
    c.shard();
    auto &pm = c.memo([&] { return makePeriodic(p, b, k, p.fn<double>()); });
    auto &pairs = c.memo([&] {
        auto r = pm->eigenpairsByIndex(0, c.thorough ? 12 : 8);
        for (auto &e: pm->eigenpairsByIndex(21, 24)) r.push_back(std::move(e));
        return r;
    });
    auto &refs = c.memo([&] {
        std::vector<double> r;
        auto all = pm->eigenvaluesByIndex(0, 27);
        auto at = [&](int n) { for (auto &e: all) if (std::get<0>(e) <= n && n < std::get<0>(e) + std::get<2>(e)) return std::get<1>(e); return 1e300; };
        for (auto &q: pairs) {
            int n = std::get<0>(q);
            r.push_back(std::min(n ? at(n) - at(n - 1) : 1e9, at(n + (int) std::get<2>(q).size()) - at(n)));
        }
        return r;
    });
    size_t i = c.choose("eigenvalue", pairs.size());
    auto &q = pairs[i];
    int n = std::get<0>(q);
    double E = std::get<1>(q), L = d.b - d.a;
    bool direct = c.flag("eigenfunction(E)");
    auto own = direct ? pm->eigenfunction(E) : std::vector<std::unique_ptr<matslise::PeriodicMatslise<double>::Eigenfunction>>();
    c.step();
    auto &fs = direct ? own : std::get<2>(q);
    // a nearly double eigenvalue: the function of one is determined up to errors amplified by the inverse gap
    double gap = refs[i] / (1 + std::fabs(E)), loose = 1 + 1e-2 / std::max(gap, 1e-12);
    if (std::get<2>(q).size() == 2) loose = 1;
    // a state bound by the coupling alone lives at both ends of a barrier: its error grows in between
    if (E < (double) p.P.lower()) loose *= std::max(1., 1e-2 * std::exp(L * std::sqrt((double) p.P.lower() - E)));
    std::string t = mc::strf("index %d E=%.12g of multiplicity %zu", n, E, std::get<2>(q).size());
    if (!direct) c.check(fs.size() == 1 || fs.size() == 2, "count", "%zu functions, %s", fs.size(), t.c_str());
    else if (gap > 1e-2) c.check(fs.size() == std::get<2>(q).size(), "count", "%zu functions, %s", fs.size(), t.c_str());
    else c.check(!fs.empty(), "count", "no function, %s", t.c_str());
    double om = std::sqrt(std::max(1., E - (double) p.P.lower())) + std::sqrt(std::max(0., (double) p.P.upper() - E));
    double kn = k.K().norm();
    double gram[2][2] = {{0, 0}, {0, 0}};
    std::vector<std::array<double, 4>> ends;
    for (auto &f: fs) {
        auto &ef = *f;
        const int M = 200;
        double big = 0, n2 = 0;
        Eigen::ArrayXd xs(M);
        for (int j = 0; j < M; ++j) xs[j] = d.a + L * (j + 0.5) / M;
        auto ys = ef(xs);
        for (int j = 0; j < M; ++j) { big = std::max(big, std::hypot(ys(j, 0), ys(j, 1) / om)); n2 += ys(j, 0) * ys(j, 0) * L / M; }
        c.check(std::isfinite(n2) && big > 0, "finite", "norm %g, %s", n2, t.c_str());
        auto l = ef(d.a), r = ef(d.b);
        ends.push_back({l[0], l[1], r[0], r[1]});
        double tol = (b.automatic ? 2e-6 : 2e-5) * loose;
        if (tol > 0.1) { ++c.counters["near_degenerate"]; continue; }
        c.near(n2, 1, 1e-3 + tol, "norm", t);
        double e0 = r[0] - (k.a * l[0] + k.b * l[1]), e1 = r[1] - (k.c * l[0] + k.d * l[1]);
        c.near(std::hypot(e0, e1 / om), 0, tol * big * kn * std::max(1., std::fabs(k.b) * om), "coupling", t + mc::strf(" (%.10g,%.10g) at the left, (%.10g,%.10g) at the right end", l[0], l[1], r[0], r[1]));
        // the equation across the whole domain: the exact flow between neighbouring points
        double at = d.a;
        auto v = l;
        for (double g: {0.03, 0.11, 0.21, 0.35, 0.5, 0.62, 0.777, 0.9, 1.}) {
            double x = g == 1. ? d.b : d.a + L * g;
            auto w0 = ref::integrate(p.P, E, {v[0], v[1], 0, 0}, at, x).u;
            auto u = ef(x);
            c.near(std::hypot(u[0] - (double) w0.y, (u[1] - (double) w0.d) / om), 0, tol * (big + std::hypot((double) w0.y, (double) w0.d / om)) * 3, "equation", t + mc::strf(" x=%.17g", x));
            at = x;
            v = u;
            c.step();
        }
        c.state(mc::hash(&E, 8, mc::hash(l.data(), 16)));
    }
    if (fs.size() == 2) { // linearly independent, and together every starting value is reached
        (void) gram;
        double det = ends[0][0] * ends[1][1] - ends[0][1] * ends[1][0];
        double sc = std::hypot(ends[0][0], ends[0][1] / om) * std::hypot(ends[1][0], ends[1][1] / om) * om;
        c.check(std::fabs(det) > 1e-3 * sc, "independent", "the two functions are dependent (%g of %g), %s", det, sc, t.c_str());
    }
    c.outcome((uint64_t) llround(E * 1e6) + n + direct);
    c.note(t);
}

MC_MAIN(execution)
