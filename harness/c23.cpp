// C23: eigenvalueError of the full-range, half-range and Sturm-Liouville solvers: finite, non-negative, independent of the
// scaling of the conditions, small at returned eigenvalues, an honest distance to the eigenvalue elsewhere.
#include "probs.hpp"
#include "slref.hpp"
#include "matslise/liouville.h"
using namespace vp;
using namespace matslise;

struct Problem {
    // the three solvers behind one face
    std::function<double(double, int)> error; // E, index (-1: left out)
    std::function<double(double, double, double, int)> scaled; // scales of both conditions
    std::function<std::vector<std::pair<int, double>>(int, int)> values;
    std::function<int(double)> count; // of the reference
    std::function<double(int, double)> refine; // index, close value
    double small; // accepted error estimate at a returned eigenvalue, relative to 1+|E|
    double honest;
    bool coarse = false; // the estimate has to tell the order of the error
    double length;
};

static double bisect(const std::function<int(double)> &count, int n, double E) {
    double w = 1e-9 * (1 + std::fabs(E));
    double lo = E - w, hi = E + w;
    while (count(lo) > n) { lo -= w; w *= 4; }
    w = 1e-9 * (1 + std::fabs(E));
    while (count(hi) <= n) { hi += w; w *= 4; }
    for (int i = 0; i < 60 && hi - lo > 1e-13 * (1 + std::fabs(E)); ++i) {
        double m = (lo + hi) / 2;
        (count(m) > n ? hi : lo) = m;
    }
    return (lo + hi) / 2;
}

static const std::vector<double> &scales() {
    static std::vector<double> s{1e-3, -7, 1e6};
    return s;
}

static void execution(mc::Ctx &c) {
    std::string solver = c.pick("solver", std::vector<std::string>{"full", "half", "sturm-liouville"});
    Problem *pr;
    std::string where;
    if (solver == "full") {
        Dom d = c.pick("domain", domains(c.thorough));
        std::string kind = c.pick("potential", concat(kinds(c.thorough), c.thorough ? std::vector<std::string>{} : std::vector<std::string>{"deepwells", "cubic", "comb"}));
        Builder b = c.pick("builder", std::vector<Builder>{AUTO8, AUTO5, uniform(24), uniform(4)});
        Prob p = prob(kind, d.a, d.b);
        if (!b.automatic && (!p.jumps.empty() || (b.n == 4 && d.b - d.a > 3.5))) throw mc::Skip();
        c.shard();
        auto &ms = c.memo([&] { return std::shared_ptr<Matslise<double>>(b.make(p)); });
        BC l = c.pick("left", bcs(c.thorough)), r = c.pick("right", bcs(c.thorough));
        pr = &c.memo([&] {
            auto m = ms;
            Problem q;
            q.error = [=](double E, int n) { return n == -1 ? m->eigenvalueError(E, l.Y(), r.Y()) : m->eigenvalueError(E, l.Y(), r.Y(), n); };
            q.scaled = [=](double E, double s, double t, int n) { return m->eigenvalueError(E, BC{"", l.y * s, l.d * s}.Y(), BC{"", r.y * t, r.d * t}.Y(), n); };
            q.values = [=](int i, int j) { return m->eigenvaluesByIndex(i, j, l.Y(), r.Y()); };
            q.count = [=](double E) { return ref::count(p.P, E, l.r(), r.r()); };
            q.coarse = !b.automatic && b.n == 4; // the error is far beyond rounding
            q.small = b.automatic ? 4 * b.tol : q.coarse ? INFINITY : 3e-6;
            q.honest = q.coarse ? 1e-6 : q.small;
            q.length = (double) (p.P.max() - p.P.min());
            return q;
        });
    } else if (solver == "half") {
        double w = c.pick("xmax", std::vector<double>{1, 5, (double) ref::PI, 0.2});
        std::string kind = c.pick("potential", std::vector<std::string>{"zero", "const-6", "x2", "mathieu", "doublewell", "hill", "narrow"});
        Builder b = c.pick("builder", std::vector<Builder>{AUTO8, AUTO5, uniform(12)});
        Prob p = prob(kind, -w, w);
        c.shard();
        auto &ms = c.memo([&] {
            auto V = p.fn<double>();
            if (!b.automatic) return std::make_shared<MatsliseHalf<double>>(V, w, b.tol, sector_builder::UniformSectorBuilder<Matslise<double>>(b.n));
            return std::make_shared<MatsliseHalf<double>>(V, w, b.tol, sector_builder::AutomaticSectorBuilder<Matslise<double>>{b.tol});
        });
        BC s = c.pick("side", bcs(c.thorough));
        bool both = c.flag("both sides given");
        pr = &c.memo([&] {
            auto m = ms;
            Problem q;
            q.error = [=](double E, int n) {
                if (both) return n == -1 ? m->eigenvalueError(E, s.Y(), s.Y()) : m->eigenvalueError(E, s.Y(), s.Y(), n);
                return n == -1 ? m->eigenvalueError(E, s.Y()) : m->eigenvalueError(E, s.Y(), n);
            };
            q.scaled = [=](double E, double f, double g, int n) {
                BC u{"", s.y * f, s.d * f};
                (void) g;
                return both ? m->eigenvalueError(E, u.Y(), u.Y(), n) : m->eigenvalueError(E, u.Y(), n);
            };
            q.values = [=](int i, int j) { return m->eigenvaluesByIndex(i, j, s.Y()); };
            q.count = [=](double E) { return ref::count(p.P, E, {s.y, -s.d}, s.r()); };
            q.small = b.automatic ? 4 * b.tol : 3e-6;
            q.honest = q.small;
            q.length = (double) (p.P.max() - p.P.min());
            return q;
        });
    } else {
        auto pos = sl::positive(c.thorough);
        sl::Dom d = c.pick("domain", sl::domains(c.thorough));
        sl::Fn p = c.pick("p", pos), w = c.pick("w", pos), q0 = c.pick("q", sl::potentials(c.thorough));
        double tol = c.pick("tolerance", std::vector<double>{1e-8, 1e-5});
        c.shard();
        typedef SturmLiouville<double> SL;
        auto &s = c.memo([&] { return std::make_shared<SL>(p.fn<double>(), q0.fn<double>(), w.fn<double>(), Domain<double>{d.a, d.b}, tol); });
        auto &P = c.memo([&] { return std::make_shared<sl::Problem>(sl::problem(p, q0, w, d.a, d.b)); });
        std::vector<BC> bb{{"D", 0, 1}, {"N", 1, 0}, {"R+", 1, 1}, {"R-", 2, -1}};
        BC l = c.pick("left", bb), r = c.pick("right", bb);
        pr = &c.memo([&] {
            Problem q;
            auto m = s;
            auto PP = P;
            double pa = (double) p(d.a), pb = (double) p(d.b);
            q.error = [=](double E, int n) { return n == -1 ? m->eigenvalueError(E, l.Y(), r.Y()) : m->eigenvalueError(E, l.Y(), r.Y(), n); };
            q.scaled = [=](double E, double f, double g, int n) { return m->eigenvalueError(E, BC{"", l.y * f, l.d * f}.Y(), BC{"", r.y * g, r.d * g}.Y(), n); };
            q.values = [=](int i, int j) { return m->eigenvaluesByIndex(i, j, l.Y(), r.Y()); };
            q.count = [=](double E) { return sl::count(*PP, E, l.y, l.d * pa, r.y, r.d * pb); };
            q.small = 4 * tol;
            q.honest = q.small;
            q.length = d.b - d.a;
            return q;
        });
    }
    Problem &P = *pr;
    std::vector<int> idx{0, 1, 2, 3, 4, 9, 25};
    if (c.thorough) for (int i: {5, 6, 7, 8, 40, 60}) idx.push_back(i);
    int n = c.pick("index", idx);
    struct Found { double E, gap, exact; };
    auto &f = c.memo([&] {
        auto v = P.values(std::max(0, n - 1), n + 2);
        c.check((int) v.size() == n + 2 - std::max(0, n - 1), "count", "%d eigenvalues", (int) v.size());
        Found f{0, 1e300, 0};
        for (auto &e: v) if (e.first == n) f.E = e.second;
        for (auto &e: v) if (e.first != n) f.gap = std::min(f.gap, std::fabs(e.second - f.E));
        f.exact = bisect(P.count, n, f.E);
        return f;
    });
    double scale = 1 + std::fabs(f.E);
    bool apart = f.gap > 1e-3 * scale;
    int off = (int) c.choose("E", P.coarse ? 1 : 12);
    bool given = !c.flag("index left out");
    int arg = given ? n : -1;
    if (off == 0) {
        double e = P.error(f.E, arg), t = std::fabs(f.E - f.exact);
        c.step();
        c.check(std::isfinite(e) && e >= 0, "finite", "eigenvalueError(%.15g)=%g for eigenvalue %d", f.E, e, n);
        c.check(e <= P.small * scale, "small", "eigenvalueError(%.15g)=%g for the returned eigenvalue %d (really %.15g)", f.E, e, n, f.exact);
        c.maxima[mc::strf("est/%s/%g", solver.c_str(), P.small)] = std::max(c.maxima[mc::strf("est/%s/%g", solver.c_str(), P.small)], e / scale);
        if (P.coarse && t > 1e-7 * scale && t < 1e-3 * scale) { double &r = c.maxima["coarse: error/estimate"]; r = std::max(r, t / e); ++c.counters["errors beyond 1e-7"]; }
        double &m = c.maxima[mc::strf("true-est/%s/%g", solver.c_str(), P.small)];
        m = std::max(m, (t - e) / scale);
        c.check((P.coarse && t > 1e-3 * scale) || t <= (P.coarse ? 40 : 1) * e + P.honest / 12 * scale, "honest", "eigenvalueError(%.15g)=%g, but eigenvalue %d is %.15g", f.E, e, n, f.exact);
        c.outcome(mc::hash(mc::strf("%.3g", e)));
    } else if (off >= 7) { // anywhere else: between eigenvalues, far below, far above
        double E = off == 7 ? f.E + f.gap / 2 : off == 8 ? f.E - f.gap / 2 : off == 9 ? f.E - 10 * scale : off == 10 ? f.E + 3.7 * scale : f.E - 100 - f.gap;
        double e = P.error(E, arg);
        c.step();
        // Newton's method may run away from there; nothing but the sign is required
        c.check(!(e < 0), "sign", "eigenvalueError(%.15g)=%g (eigenvalue %d is %.15g)", E, e, n, f.E);
    } else {
        if (!apart) { ++c.counters["near-degenerate eigenvalues: no distance"]; return; }
        static const double fr[] = {0, 1e-4, -1e-4, 1e-2, -1e-2, 0.05, -0.05};
        // where decaying parts matter the matching error is exponential beyond sqrt(|E|)/length
        double E = f.exact + fr[off] * std::min(f.gap, 2 * std::sqrt(scale) / P.length), dist = std::fabs(E - f.exact);
        double e = P.error(E, arg);
        c.step();
        c.check(std::isfinite(e) && e >= 0, "finite", "eigenvalueError(%.15g)=%g beside eigenvalue %d", E, e, n);
        c.check(std::fabs(e - dist) <= 1e-3 * dist + P.small * scale, "distance", "eigenvalueError(%.15g)=%.10g, but eigenvalue %d is %.15g, %.10g away", E, e, n, f.exact, dist);
        double &m = c.maxima[mc::strf("dist/%s/%g", solver.c_str(), P.small)];
        m = std::max(m, std::fabs(e - dist) / (scale));
        for (double s: scales()) for (double t: {1., -1e3}) {
            double g = P.scaled(E, s, t, arg);
            c.near(g, e, 1e-9 * e + 1e-10 * scale, "scaling", mc::strf("conditions scaled by %g and %g at E=%.15g", s, t, E));
        }
        c.step(6);
        c.outcome(mc::hash(mc::strf("%.2g", e)));
    }
    c.state(mc::hash(mc::strf("%d %.10g", n, f.E)));
}

MC_MAIN(execution)
