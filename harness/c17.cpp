// C17: Sturm-Liouville problems.  Every (p, q, w, domain, tolerance, conditions) of the alphabets: eigenvalues of all index
// ranges against zero counting in the original variable, eigenfunctions against the reference solution.
#include "slref.hpp"
#include "matslise/liouville.h"
using namespace sl;
typedef matslise::SturmLiouville<double> SL;
typedef matslise::Y<double> Y;

struct BC {
    std::string name;
    double y, d;
};

static Y bc(const BC &b, double s = 1) {
    Y r;
    r.data << b.y * s, b.d * s, 0, 0;
    return r;
}

struct World {
    std::unique_ptr<SL> s;
    Problem P;
};

static double tolE(double tol, double E) { return 3 * tol * (1 + std::fabs(E)) + 1e-10 * (1 + std::fabs(E)); }

static void execution(mc::Ctx &c) {
    Dom d = c.pick("domain", domains(c.thorough));
    auto pos = positive(true);
    Fn p = c.pick("p", pos), w = c.pick("w", pos), q = c.pick("q", potentials(true));
    double tol = c.pick("tolerance", c.thorough ? std::vector<double>{1e-8, 1e-5, 1e-6, 1e-7} : std::vector<double>{1e-8, 1e-5});
    c.shard();
    auto &W = c.memo([&] {
        auto W = std::make_shared<World>();
        W->s = std::make_unique<SL>(p.fn<double>(), q.fn<double>(), w.fn<double>(), matslise::Domain<double>{d.a, d.b}, tol);
        W->P = problem(p, q, w, d.a, d.b);
        return W;
    });
    SL &s = *W->s;
    const Problem &P = W->P;
    std::vector<BC> bcs{{"D", 0, 1}, {"N", 1, 0}, {"R+", 1, 1}, {"R-", 2, -1}, {"-D", 0, -3}, {"steep", 1, 5}};
    if (c.thorough) { bcs.push_back({"R3", -3, 1}); bcs.push_back({"-N", -40, 0}); bcs.push_back({"-steep", 1, -5}); }
    BC l = c.pick("left", bcs), r = c.pick("right", bcs);
    double pa = (double) p(d.a), pb = (double) p(d.b);
    auto values = [&](int from, int to) { c.step(); return s.eigenvaluesByIndex(from, to, bc(l), bc(r)); };
    int top = 5;
    auto &all = c.memo([&] {
        auto v = values(0, top);
        c.check((int) v.size() == top, "number", "%d eigenvalues instead of %d", (int) v.size(), top);
        for (int i = 0; i < top; ++i) {
            c.check(v[i].first == i, "index", "index %d at place %d", v[i].first, i);
            double E = v[i].second, t = tolE(tol, E);
            if (i) c.check(E > v[i - 1].second, "order", "not increasing");
            int lo = count(P, E - t, l.y, l.d * pa, r.y, r.d * pb), hi = count(P, E + t, l.y, l.d * pa, r.y, r.d * pb);
            c.check(lo <= i && i < hi, "eigenvalue", "eigenvalue %d: %.15g is not one within %.3g (%d eigenvalues below, %d up to it)", i, E, t, lo, hi);
        }
        return v;
    });
    int what = (int) c.choose("aspect", 3);
    if (what == 0) {
        int from = (int) c.choose("from", top + 1), n = (int) c.choose("length", top - from + 1);
        auto v = values(from, from + n);
        c.check((int) v.size() == n, "range", "%d eigenvalues for [%d,%d)", (int) v.size(), from, from + n);
        for (int i = 0; i < n; ++i) {
            c.check(v[i].first == from + i, "range", "index %d instead of %d", v[i].first, from + i);
            c.near(v[i].second, all[from + i].second, 2 * tolE(tol, v[i].second), "range value");
        }
        c.outcome(mc::hash(mc::strf("%d %d %.8g", from, n, all[0].second)));
    } else if (what == 1) {
        int k = (int) c.pick("index", c.thorough ? std::vector<int>{9, 17, 40} : std::vector<int>{9, 17});
        auto v = values(k, k + 1);
        c.check(v.size() == 1 && v[0].first == k, "single", "eigenvalue %d alone", k);
        double E = v[0].second, t = tolE(tol, E);
        int lo = count(P, E - t, l.y, l.d * pa, r.y, r.d * pb), hi = count(P, E + t, l.y, l.d * pa, r.y, r.d * pb);
        c.check(lo <= k && k < hi, "eigenvalue", "eigenvalue %d: %.15g is not one within %.3g (%d, %d)", k, E, t, lo, hi);
        // rescaled conditions
        auto u = s.eigenvaluesByIndex(k, k + 1, bc(l, -7), bc(r, 1e-3));
        c.check(u.size() == 1, "rescaled", "no eigenvalue with rescaled conditions");
        c.near(u[0].second, E, 2 * t, "rescaled");
        c.outcome(mc::hash(mc::strf("%.8g", E)));
    } else {
        bool scaled = c.flag("rescaled conditions");
        auto ps = s.eigenpairsByIndex(0, 4, bc(l, scaled ? -5 : 1), bc(r, scaled ? 0.2 : 1));
        c.check(ps.size() == 4, "pairs", "%d pairs", (int) ps.size());
        double L = d.b - d.a;
        for (int i = 0; i < 4; ++i) {
            double E = std::get<1>(ps[i]);
            c.check(std::get<0>(ps[i]) == i, "pairs", "index");
            c.near(E, all[i].second, 2 * tolE(tol, E), "pair value");
            auto &f = *std::get<2>(ps[i]);
            std::vector<double> x;
            std::vector<R> y, yd;
            R top = 0, topd = 0, growth = 0;
            // a state that lives at an end and decays to the matching point is the growing direction of the backward
            // propagation: its values are not determined within the tolerance (as in C06)
            for (size_t k = 0; k < P.ip.size(); ++k) {
                R m = (P.ip[k].a + P.ip[k].b) / 2, g = P.ip[k](m) * (P.q[k](m) - E * P.w[k](m));
                if (g > 0) growth += std::sqrt(g) * (P.ip[k].b - P.ip[k].a);
            }
            if (growth > 6) { c.counters["functions skipped: decay over the barrier beyond e^6"]++; continue; }
            // positions of the reference's steps
            S u = integrate(P, E, {l.y, l.d * pa, 0}, P.b, nullptr, [&](R r, const S &q) { x.push_back((double) r); y.push_back(q.y); yd.push_back(q.v / p(r)); }, true);
            R scale = 1 / std::sqrt(u.n);
            for (size_t k = 0; k < y.size(); ++k) { y[k] *= scale; yd[k] *= scale; top = std::max(top, std::fabs(y[k])); topd = std::max(topd, std::fabs(yd[k])); }
            // distance to the other eigenvalues and growth decide how much an error in E moves the function
            double gap = 1e300;
            for (int j = 0; j < 5; ++j) if (j != i) gap = std::min(gap, std::fabs(all[j].second - E));
            R mid = 0;
            double sens = (1 + std::fabs(E)) / std::min(gap, 1 + std::fabs(E));
            // sign: where the reference is large
            size_t big = std::max_element(y.begin(), y.end(), [](R a, R b) { return std::fabs(a) < std::fabs(b); }) - y.begin();
            double sign = f(x[big])[0] * (double) y[big] > 0 ? 1 : -1;
            Eigen::ArrayXd xs((Eigen::Index) x.size());
            for (size_t k = 0; k < x.size(); ++k) xs[k] = x[k];
            auto arr = f(xs);
            double e = 1e-4 * std::max(1., std::min(500., tol * 2e8)) * (1 + sens);
            for (size_t k = 0; k < x.size(); ++k) {
                auto v = f(x[k]);
                c.near(sign * v[0], (double) y[k], e * (double) top, "value");
                c.near(sign * v[1], (double) yd[k], e * (double) (topd + top / L), "derivative");
                c.check(std::fabs(arr(k, 0) - v[0]) <= 1e-11 * (double) top && std::fabs(arr(k, 1) - v[1]) <= 1e-9 * (double) (topd + top / L), "array", "array and single evaluation differ at %g", x[k]);
            }
            auto fa = f(d.a), fb = f(d.b);
            double hl = std::hypot(l.y, l.d), hr = std::hypot(r.y, r.d);
            c.near((fa[0] * l.d - fa[1] * l.y) / hl, 0, e * (double) (top + topd), "left condition");
            c.near((fb[0] * r.d - fb[1] * r.y) / hr, 0, e * (double) (top + topd), "right condition");
        }
        c.outcome(mc::hash(mc::strf("%.8g", (*std::get<2>(ps[0]))(d.a)[1])));
    }
    c.state(mc::hash(mc::strf("%d %.12g", what, all[0].second)));
}

MC_MAIN(execution)
