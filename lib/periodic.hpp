// Shared by C09 and C10: couplings (y,y')(max) = K (y,y')(min), det K = 1, and the reference count of their eigenvalues.
#ifndef VERIF_PERIODIC_HPP
#define VERIF_PERIODIC_HPP

#include "probs.hpp"

namespace vp {
    struct Coupling {
        std::string name;
        double a, b, c, d;

        Eigen::Matrix2d K() const {
            Eigen::Matrix2d k;
            k << a, b, c, d;
            return k;
        }
    };

    inline std::vector<Coupling> couplings(bool thorough) {
        std::vector<Coupling> k{{"I", 1, 0, 0, 1}, {"-I", -1, 0, 0, -1}, {"diag(2,.5)", 2, 0, 0, .5}, {"[1 0;2 1]", 1, 0, 2, 1},
                                {"[1 -1;0 1]", 1, -1, 0, 1}, {"[1 1;0 1]", 1, 1, 0, 1}, {"[0 1;-1 0]", 0, 1, -1, 0}};
        if (thorough) for (auto &q: std::vector<Coupling>{{"[-1 0;1 -1]", -1, 0, 1, -1}, {"[0 -1;1 0]", 0, -1, 1, 0}, {"[.6 -.8;.8 .6]", .6, -.8, .8, .6},
                                                          {"diag(-3,-1/3)", -3, 0, 0, -1. / 3}, {"[2 1;1 1]", 2, 1, 1, 1}, {"[-2 -5;1 2]", -2, -5, 1, 2}, {"[1 0;-4 1]", 1, 0, -4, 1}}) k.push_back(q);
        return k;
    }

    // number of eigenvalues below E with multiplicity: the interlacing separated problem y(min)=0, K^-1 Y(max) = (0,*)
    // and the side of E decided by the discriminant
    inline int pcount(const ref::Pot &P, double E, const Coupling &k) {
        ref::S c = ref::integrate(P, E, {1, 0, 0, 0}, P.min(), P.max()).u, s = ref::integrate(P, E, {0, 1, 0, 0}, P.min(), P.max()).u;
        R D = k.d * c.y - k.b * c.d - k.c * s.y + k.a * s.d;
        int n = ref::count(P, E, {0, 1}, {k.b, k.d});
        bool anti = k.b > 0 || (k.b == 0 && k.a < 0);
        return (n % 2 == 0) != anti ? (D < 2 ? n + 1 : n) : (D > 2 ? n + 1 : n);
    }

    inline double peigenvalue(const ref::Pot &P, const Coupling &k, int n) {
        double L = (double) (P.max() - P.min()), g = (double) P.lower() + std::pow((double) ref::PI * n / L, 2), w = 1 + std::fabs(g) / 4, lo = g - w, hi = g + w;
        for (double s = w; pcount(P, lo, k) > n; s *= 2) lo -= s;
        for (double s = w; pcount(P, hi, k) <= n; s *= 2) hi += s;
        for (int i = 0; i < 70 && hi - lo > 1e-13 * (1 + std::fabs(lo)); ++i) {
            double m = (lo + hi) / 2;
            (pcount(P, m, k) > n ? hi : lo) = m;
        }
        return (lo + hi) / 2;
    }

    inline std::unique_ptr<matslise::PeriodicMatslise<double>> makePeriodic(const Prob &p, const Builder &b, const Coupling &k, const std::function<double(const double &)> &V) {
        using namespace matslise;
        double a = (double) p.P.min(), e = (double) p.P.max();
        if (!b.automatic) return std::make_unique<PeriodicMatslise<double>>(V, a, e, b.tol, sector_builder::UniformSectorBuilder<Matslise<double>>(b.n), k.K());
        if (p.jumps.empty() && b.jumps) return std::make_unique<PeriodicMatslise<double>>(V, a, e, b.tol, k.K());
        sector_builder::AutomaticSectorBuilder<Matslise<double>> sb{b.tol};
        for (double j: p.jumps) sb.jumps.push_back(j);
        return std::make_unique<PeriodicMatslise<double>>(V, a, e, b.tol, sb, k.K());
    }
}
#endif
