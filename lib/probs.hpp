// Alphabets shared by the harnesses: problems (piecewise polynomial potentials), domains, boundary conditions, builders.
#ifndef VERIF_PROBS_HPP
#define VERIF_PROBS_HPP

#include "ref.hpp"
#include "explore.hpp"
#include "matslise/matslise.h"
#include <memory>

namespace vp {
    typedef ref::R R;

    struct Dom {
        std::string name;
        double a, b;
    };

    struct Prob {
        std::string name;
        ref::Pot P;
        std::vector<double> jumps;

        template<typename S>
        std::function<S(const S &)> fn() const {
            auto p = std::make_shared<ref::Pot>(P);
            return [p](const S &x) -> S { return (S) (*p)((R) x); };
        }
    };

    struct BC {
        std::string name;
        double y, d;

        ref::BC r() const { return {y, d}; }

        template<typename S=double>
        matslise::Y<S> Y() const {
            matslise::Y<S> v;
            v.data << S(y), S(d), S(0), S(0);
            return v;
        }
    };

    inline std::vector<Dom> domains(bool thorough) {
        std::vector<Dom> d{{"[0,1]",   0,  1},
                           {"[-5,5]",  -5, 5},
                           {"[-3,-1]", -3, -1},
                           {"[0,pi]",  0,  (double) ref::PI}};
        if (thorough) {
            d.push_back({"[-1,2]", -1, 2});
            d.push_back({"[40,40.5]", 40, 40.5});
            d.push_back({"[-8,3]", -8, 3});
        }
        return d;
    }

    inline Prob prob(const std::string &kind, double a, double b) {
        using std::vector;
        R A = a, B = b, L = B - A, M = (A + B) / 2;
        auto one = [&](vector<R> c, R x0) { return Prob{kind, ref::Pot{{ref::Piece{A, B, x0, c}}}, {}}; };
        auto pieces = [&](vector<std::pair<double, vector<R>>> v) { // (right end as fraction, coefficients around the mid)
            Prob p{kind, {}, {}};
            double l = a;
            for (size_t i = 0; i < v.size(); ++i) {
                double r = i + 1 == v.size() ? b : a + (b - a) * v[i].first;
                p.P.p.push_back(ref::Piece{l, r, M, v[i].second});
                if (i + 1 < v.size()) p.jumps.push_back(r);
                l = r;
            }
            return p;
        };
        if (kind == "zero") return one({0}, M);
        if (kind == "const4") return one({4}, M);
        if (kind == "const-6") return one({-6}, M);
        if (kind == "const300") return one({300}, M);
        if (kind == "linear") return one({0, 3}, A);
        if (kind == "slope-20") return one({10, -20 / L}, A);
        if (kind == "harmonic") return one({0, 0, 1}, M);
        if (kind == "x2") return one({0, 0, 1}, 0);
        if (kind == "narrow") return one({-10, 0, 160 / (L * L)}, M);
        if (kind == "hill") return one({20, 0, -80 / (L * L)}, M);
        if (kind == "cubic") return one({1, 0, -2 / L, 1}, M);
        if (kind == "doublewell") { R s = 4 / (L * L); return one({40, 0, -80 * s, 0, 40 * s * s}, M); }
        if (kind == "deepwells") { R s = 4 / (L * L); return one({400, 0, -1600 * s, 0, 1600 * s * s}, M); } // near-degenerate pairs
        if (kind == "mathieu") {
            Prob p{kind, ref::analytic([](R x) { return 4 * cos(2 * x); }, A, B, std::max(2, (int) ceil(L * 2))), {}};
            return p;
        }
        if (kind == "exp") {
            Prob p{kind, ref::analytic([=](R x) { return exp(2 * (x - M) / L); }, A, B, 2), {}};
            return p;
        }
        if (kind == "step") return pieces({{0.4, {0}}, {1, {5}}});
        if (kind == "stepdown") return pieces({{0.6, {12}}, {1, {-3, 1}}});
        if (kind == "barrier") return pieces({{0.35, {0}}, {0.65, {25}}, {1, {0, 0, 0.5}}});
        if (kind == "well") return pieces({{0.3, {0}}, {0.45, {-25}}, {1, {1}}});
        if (kind == "comb") return pieces({{0.2, {0}}, {0.3, {10}}, {0.5, {0}}, {0.6, {10}}, {0.9, {0, 2}}, {1, {-4}}});
        fprintf(stderr, "unknown kind %s\n", kind.c_str());
        _exit(5);
    }

    inline std::vector<std::string> kinds(bool thorough) {
        std::vector<std::string> k{"zero", "const-6", "linear", "x2", "mathieu", "step", "barrier", "doublewell", "slope-20", "well"};
        if (thorough) for (auto s: {"const4", "harmonic", "narrow", "hill", "cubic", "exp", "stepdown", "comb", "const300", "deepwells"}) k.push_back(s);
        return k;
    }

    inline std::vector<BC> bcs(bool thorough) {
        std::vector<BC> b{{"D",  0,  1},
                          {"N",  1,  0},
                          {"R+", 1,  1},
                          {"R-", 1,  -1},
                          {"R8", -8, 5},
                          {"-D", 0,  -2}};
        if (thorough) {
            b.push_back({"R23", 2, -3});
            b.push_back({"R33", -3, 3});
            b.push_back({"-N", -1e3, 0});
            b.push_back({"tiny", 1e-5, 3e-5});
            b.push_back({"steep", 1, 40});
            b.push_back({"steep-", 1, -40});
        }
        return b;
    }

    struct Builder {
        std::string name;
        bool automatic;
        double tol;
        int n;
        bool jumps;

        template<typename S=double>
        std::unique_ptr<matslise::Matslise<S>> make(const Prob &p) const { return make<S>(p, p.fn<S>()); }

        template<typename S=double>
        std::unique_ptr<matslise::Matslise<S>> make(const Prob &p, const std::function<S(const S &)> &V) const {
            using namespace matslise;
            S a = (S) p.P.min(), b = (S) p.P.max();
            if (automatic) {
                sector_builder::AutomaticSectorBuilder<Matslise<S>> sb{S(tol)};
                if (jumps) for (double j: p.jumps) sb.jumps.push_back(S(j));
                return std::make_unique<Matslise<S>>(V, a, b, S(tol), sb);
            }
            return std::make_unique<Matslise<S>>(V, a, b, S(tol), sector_builder::UniformSectorBuilder<Matslise<S>>(n));
        }
    };

    inline const Builder AUTO8{"auto1e-8", true, 1e-8, 0, true};
    inline const Builder AUTO5{"auto1e-5", true, 1e-5, 0, true};
    inline const Builder AUTO10{"auto1e-10", true, 1e-10, 0, true};

    inline Builder uniform(int n, double tol = 1e-8) { return {"uniform" + std::to_string(n), false, tol, n, false}; }

    // is the n-th eigenvalue within w of E?  Answers are reused for values of E closer than w/50 to one already verified.
    struct Spectrum {
        const ref::Pot &P;
        ref::BC l, r;
        std::map<int, std::vector<double>> ok;

        bool at(int n, double E, double w) {
            for (double e: ok[n]) if (std::fabs(e - E) <= w / 50) return true;
            bool g = ref::count(P, E - w, l, r) <= n && n < ref::count(P, E + w, l, r);
            if (g) ok[n].push_back(E);
            return g;
        }
    };

    template<typename T>
    std::vector<T> concat(std::vector<T> a, const std::vector<T> &b) {
        a.insert(a.end(), b.begin(), b.end());
        return a;
    }
}
#endif
