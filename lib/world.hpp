// Shared by C12 (histories), C13 (schedules), C14 (faults) and C15 (invalid requests): solver objects over instrumented
// potentials and an alphabet of operations whose results are compared bit for bit.
#ifndef VERIF_WORLD_HPP
#define VERIF_WORLD_HPP

#include "probs.hpp"
#include "matslise/liouville.h"
#ifdef WITH_MATSCS
#include "matslise/matscs.h"
#endif
#include <sys/socket.h>

namespace vp {
    struct Out {
        std::string s;

        void raw(const void *p, size_t n) { s.append((const char *) p, n); }

        Out &operator<<(double x) {
            if (x == 0) x = 0; // no difference between the zeros
            if (std::isnan(x)) x = NAN;
            raw(&x, sizeof x);
            return *this;
        }

        Out &operator<<(int x) { raw(&x, sizeof x); return *this; }

        template<typename M>
        Out &matrix(const M &m) {
            *this << (int) m.rows() << (int) m.cols();
            for (int j = 0; j < m.cols(); ++j) for (int i = 0; i < m.rows(); ++i) *this << (double) m(i, j);
            return *this;
        }

        static std::string readable(const std::string &s) {
            std::string r;
            for (size_t i = 0; i + 8 <= s.size() && r.size() < 500; i += 4) {
                // results mix 4 and 8 byte values: print what looks like either
                int k;
                memcpy(&k, &s[i], 4);
                if (std::abs(k) < 100000) { r += std::to_string(k) + " "; continue; }
                double d;
                memcpy(&d, &s[i], 8);
                r += mc::strf("%.17g ", d);
                i += 4;
            }
            return r;
        }
    };

    typedef matslise::Matslise<double> Ms;
    typedef matslise::Matslise<double>::Eigenfunction Ef;
    typedef matslise::Y<double> YD;

    inline YD bc(double y, double d) {
        YD r;
        r.data << y, d, 0, 0;
        return r;
    }

    struct Setting {
        std::string name;
        std::string kind, other;
        Dom dom;
        double tol;
        int n; // uniform sectors of the third solver
    };

    inline std::vector<Setting> settings() {
        return {{"mathieu", "mathieu", "x2", {"[0,pi]", 0, (double) ref::PI}, 1e-8, 20},
                {"step", "step", "well", {"[-5,5]", -5, 5}, 1e-8, 40},
                {"doublewell", "doublewell", "barrier", {"[-1,2]", -1, 2}, 1e-6, 12},
                {"zero", "zero", "const-6", {"[0,1]", 0, 1}, 1e-8, 7},
                {"linear", "linear", "slope-20", {"[-3,-1]", -3, -1}, 1e-9, 9}};
    }

    struct World {
        Setting set;
        // instrumentation of the user's functions
        uint64_t calls = 0;
        double lo = 1e300, hi = -1e300;
        std::function<void()> onCall;

        Prob a, b;
        std::unique_ptr<Ms> A_, B_, C_;
        std::unique_ptr<matslise::MatsliseHalf<double>> H_;
        std::unique_ptr<matslise::PeriodicMatslise<double>> P_, Q_;
        std::unique_ptr<matslise::SturmLiouville<double>> S_;
        std::unique_ptr<matslise::LiouvilleTransformation<double>> T_;
#ifdef WITH_MATSCS
        std::unique_ptr<matslise::Matscs<double>> M_;
#endif
        std::unique_ptr<Ef> fA_, gA_, fH_, fP_, fS_;
        matslise::sector_builder::AutomaticSectorBuilder<Ms> shared;

        explicit World(const Setting &s) : set(s), a(prob(s.kind, s.dom.a, s.dom.b)), b(prob(s.other, s.dom.a, s.dom.b)), shared(s.tol) {
            shared.jumps.assign(a.jumps.rbegin(), a.jumps.rend());
        }

        double mid() const { return set.dom.a + 0.37 * (set.dom.b - set.dom.a); }

        std::function<double(double)> watched(std::function<double(double)> f) {
            return [this, f](double x) {
                ++calls;
                lo = std::min(lo, x);
                hi = std::max(hi, x);
                if (onCall) onCall();
                return f(x);
            };
        }

        std::function<double(double)> fn(const Prob &p) {
            auto f = p.fn<double>();
            return watched([f](double x) { return f(x); });
        }

        template<typename T, typename F>
        T &lazy(std::unique_ptr<T> &p, F make) {
            if (!p) p = make();
            return *p;
        }

        Ms &A() { return lazy(A_, [&] { return std::make_unique<Ms>(fn(a), set.dom.a, set.dom.b, set.tol, shared); }); }

        Ms &B() {
            return lazy(B_, [&] {
                matslise::sector_builder::AutomaticSectorBuilder<Ms> sb(set.tol);
                sb.jumps = b.jumps;
                return std::make_unique<Ms>(fn(b), set.dom.a, set.dom.b, set.tol, sb);
            });
        }

        Ms &C() { return lazy(C_, [&] { return std::make_unique<Ms>(fn(a), set.dom.a, set.dom.b, set.tol, matslise::sector_builder::UniformSectorBuilder<Ms>(set.n)); }); }

        matslise::MatsliseHalf<double> &H() {
            return lazy(H_, [&] { return std::make_unique<matslise::MatsliseHalf<double>>(watched([](double x) { return x * x + 3 * std::cos(x); }), set.dom.b - set.dom.a, set.tol); });
        }

        matslise::PeriodicMatslise<double> &P() {
            return lazy(P_, [&] { return std::make_unique<matslise::PeriodicMatslise<double>>(fn(a), set.dom.a, set.dom.b, set.tol, shared); });
        }

        matslise::PeriodicMatslise<double> &Q() {
            Eigen::Matrix2d K;
            K << -1, 0, 0.5, -1;
            return lazy(Q_, [&] { return std::make_unique<matslise::PeriodicMatslise<double>>(fn(a), set.dom.a, set.dom.b, set.tol, shared, K); });
        }

        matslise::SturmLiouville<double> &S() {
            return lazy(S_, [&] {
                return std::make_unique<matslise::SturmLiouville<double>>(watched([](double x) { return 1 + x; }), watched([](double x) { return x * x; }),
                                                                         watched([](double x) { return std::exp(x / 2); }), matslise::Domain<double>{0, 1}, set.tol);
            });
        }

        matslise::LiouvilleTransformation<double> &T() {
            return lazy(T_, [&] {
                return std::make_unique<matslise::LiouvilleTransformation<double>>(matslise::Domain<double>{0, 1}, watched([](double x) { return 1 + x; }),
                                                                                  watched([](double x) { return x * x; }), watched([](double x) { return std::exp(x / 2); }));
            });
        }

#ifdef WITH_MATSCS

        matslise::Matscs<double> &M() {
            return lazy(M_, [&] {
                auto f = [this](double x) {
                    ++calls;
                    lo = std::min(lo, x);
                    hi = std::max(hi, x);
                    if (onCall) onCall();
                    Eigen::MatrixXd v(2, 2);
                    v << x * x, 0.5 * x, 0.5 * x, 3 + std::cos(x);
                    return v;
                };
                return std::make_unique<matslise::Matscs<double>>(f, 2, set.dom.a, set.dom.b, matslise::sector_builder::UniformSectorBuilder<matslise::Matscs<double>>(5));
            });
        }

#endif

        double eig(int i) { return A().eigenvaluesByIndex(i, i + 1, bc(0, 1), bc(0, 1)).at(0).second; }

        Ef &fA() { return lazy(fA_, [&] { return A().eigenfunction(eig(2), bc(0, 1), bc(0, 1), 2); }); }

        Ef &gA() { return lazy(gA_, [&] { return A().eigenfunction(eig(1), bc(0, 1), bc(0, 1)); }); }

        Ef &fH() { return lazy(fH_, [&] { return std::move(std::get<2>(H().eigenpairsByIndex(1, 2, bc(0, 1)).at(0))); }); }

        Ef &fP() { return lazy(fP_, [&] { return std::move(std::get<2>(P().eigenpairsByIndex(1, 2).at(0)).at(0)); }); }

        Ef &fS() { return lazy(fS_, [&] { return std::move(std::get<2>(S().eigenpairsByIndex(1, 2, bc(0, 1), bc(1, 0)).at(0))); }); }

        // everything is destroyed in the given order; what is built next may get the same addresses
        void drop() {
            fA_.reset();
            gA_.reset();
            fH_.reset();
            fP_.reset();
            fS_.reset();
            A_.reset();
            B_.reset();
            C_.reset();
            H_.reset();
            P_.reset();
            Q_.reset();
            S_.reset();
            T_.reset();
#ifdef WITH_MATSCS
            M_.reset();
#endif
        }
    };

    struct Op {
        std::string name;
        // 0: solver queries, 1: eigenfunction evaluation of objects kept in the world, 2: construction
        int kind;
        std::function<void(World &, Out &)> run;
        std::function<void(World &)> prepare; // builds the objects the query needs
        bool core; // member of the small alphabet
    };

    inline void put(Out &o, const std::vector<std::pair<int, double>> &v) {
        o << (int) v.size();
        for (auto &q: v) o << q.first << q.second;
    }

    inline void put(Out &o, const std::vector<std::tuple<int, double, int>> &v) {
        o << (int) v.size();
        for (auto &q: v) o << std::get<0>(q) << std::get<1>(q) << std::get<2>(q);
    }

    inline void evaluate(Out &o, const Ef &f, double a, double b) {
        for (double t: {0.31, 0.9, 0.5, 0.02}) o.matrix(f(a + t * (b - a)));
        Eigen::ArrayXd x(5);
        for (int i = 0; i < 5; ++i) x[i] = a + (b - a) * (0.1 + 0.2 * i);
        o.matrix(f(x));
    }

    inline std::vector<Op> operations() {
        std::vector<Op> r;
        auto D = bc(0, 1), N = bc(1, 0), R1 = bc(1, -2), D5 = bc(0, -5);
        auto add = [&](const std::string &n, int kind, bool core, std::function<void(World &)> prep, std::function<void(World &, Out &)> f) { r.push_back({n, kind, f, prep, core}); };
        auto pA = [](World &w) { w.A(); };
        auto pB = [](World &w) { w.B(); };
        auto pC = [](World &w) { w.C(); };
        auto pH = [](World &w) { w.H(); };
        auto pP = [](World &w) { w.P(); };
        auto pQ = [](World &w) { w.Q(); };
        auto pS = [](World &w) { w.S(); };
        auto pT = [](World &w) { w.T(); };
        auto pairs = [](Out &o, auto v, double a, double b) {
            o << (int) v.size();
            for (auto &q: v) {
                o << std::get<0>(q) << std::get<1>(q);
                evaluate(o, *std::get<2>(q), a, b);
            }
        };
        auto ppairs = [](Out &o, auto v, double a, double b) {
            o << (int) v.size();
            for (auto &q: v) {
                o << std::get<0>(q) << std::get<1>(q) << (int) std::get<2>(q).size();
                for (auto &f: std::get<2>(q)) evaluate(o, *f, a, b);
            }
        };
        add("A.byIndex(0,4,D,D)", 0, true, pA, [=](World &w, Out &o) { put(o, w.A().eigenvaluesByIndex(0, 4, D, D)); });
        add("A.byIndex(0,4,N,N)", 0, true, pA, [=](World &w, Out &o) { put(o, w.A().eigenvaluesByIndex(0, 4, N, N)); });
        add("A.byIndex(0,4,D,R)", 0, false, pA, [=](World &w, Out &o) { put(o, w.A().eigenvaluesByIndex(0, 4, D, R1)); });
        add("A.byIndex(3,6,D,D)", 0, false, pA, [=](World &w, Out &o) { put(o, w.A().eigenvaluesByIndex(3, 6, D, D)); });
        add("A.byIndex(12,13,D)", 0, false, pA, [=](World &w, Out &o) { put(o, ((matslise::AbstractMatslise<double> &) w.A()).eigenvaluesByIndex(12, 13, D)); });
        add("A.byIndex(0,2,-5D,D)", 0, false, pA, [=](World &w, Out &o) { put(o, w.A().eigenvaluesByIndex(0, 2, D5, D)); });
        add("A.window(D,D)", 0, true, pA, [=](World &w, Out &o) { put(o, w.A().eigenvalues(-30, 70, D, D)); });
        add("A.window(N,R)", 0, false, pA, [=](World &w, Out &o) { put(o, w.A().eigenvalues(-30, 70, N, R1)); });
        add("A.window empty", 0, false, pA, [=](World &w, Out &o) { put(o, w.A().eigenvalues(-500, -400, D, D)); });
        add("A.pairs(1,3,D,D)", 0, true, pA, [=](World &w, Out &o) { pairs(o, w.A().eigenpairsByIndex(1, 3, D, D), w.set.dom.a, w.set.dom.b); });
        add("A.pairs(0,2,R,N)", 0, false, pA, [=](World &w, Out &o) { pairs(o, w.A().eigenpairsByIndex(0, 2, R1, N), w.set.dom.a, w.set.dom.b); });
        add("A.eigenfunction", 0, false, pA, [=](World &w, Out &o) { evaluate(o, *w.A().eigenfunction(w.eig(0), D, D), w.set.dom.a, w.set.dom.b); });
        add("A.error", 0, true, pA, [=](World &w, Out &o) { o << w.A().eigenvalueError(w.eig(1), D, D, 1) << w.A().eigenvalueError(w.eig(0) + 1e-3, D, D) << w.A().eigenvalueError(w.eig(0), D, N, 0); });
        add("A.propagate", 0, true, pA, [=](World &w, Out &o) {
            for (double E: {3.1, 47.3}) {
                auto q = w.A().propagate(E, N, w.set.dom.a, w.set.dom.b);
                o.matrix(q.first.data) << q.second;
            }
        });
        add("A.propagate back", 0, false, pA, [=](World &w, Out &o) {
            for (bool h: {false, true}) {
                auto q = w.A().propagate(3.1, R1, w.set.dom.b, w.mid(), h);
                o.matrix(q.first.data) << q.second;
            }
        });
        add("A.propagate2", 0, false, pA, [=](World &w, Out &o) {
            matslise::Y<double, 1, 2> y;
            y.data << 1, 0, 0, 1, 0, 0, 0, 0;
            auto q = w.A().propagate(3.1, y, w.mid(), w.set.dom.b);
            o.matrix(q.first.data).matrix(q.second);
        });
        add("A.matching", 0, true, pA, [=](World &w, Out &o) {
            for (auto &s: {D, N}) for (double E: {3.1, 15.2}) {
                auto m = w.A().matchingError(E, s, D);
                o << std::get<0>(m) << std::get<1>(m) << std::get<2>(m);
            }
        });
        add("A.minimum", 0, false, pA, [=](World &w, Out &o) { o << w.A().estimatePotentialMinimum(); });
        add("B.byIndex(0,4,D,D)", 0, true, pB, [=](World &w, Out &o) { put(o, w.B().eigenvaluesByIndex(0, 4, D, D)); });
        add("B.propagate", 0, false, pB, [=](World &w, Out &o) {
            auto q = w.B().propagate(3.1, N, w.set.dom.a, w.set.dom.b);
            o.matrix(q.first.data) << q.second;
        });
        add("B.pairs(1,2,D,D)", 0, false, pB, [=](World &w, Out &o) { pairs(o, w.B().eigenpairsByIndex(1, 2, D, D), w.set.dom.a, w.set.dom.b); });
        add("C.byIndex(0,4,D,D)", 0, true, pC, [=](World &w, Out &o) { put(o, w.C().eigenvaluesByIndex(0, 4, D, D)); });
        add("C.window(D,D)", 0, false, pC, [=](World &w, Out &o) { put(o, w.C().eigenvalues(-30, 70, D, D)); });
        add("C.propagate", 0, false, pC, [=](World &w, Out &o) {
            auto q = w.C().propagate(3.1, N, w.set.dom.a, w.set.dom.b);
            o.matrix(q.first.data) << q.second;
        });
        add("H.byIndex(0,5,D)", 0, true, pH, [=](World &w, Out &o) { put(o, w.H().eigenvaluesByIndex(0, 5, D)); });
        add("H.byIndex(0,5,N)", 0, false, pH, [=](World &w, Out &o) { put(o, w.H().eigenvaluesByIndex(0, 5, N)); });
        add("H.window", 0, false, pH, [=](World &w, Out &o) { put(o, w.H().eigenvalues(-10, 30, D)); });
        add("H.pairs(0,3,D)", 0, true, pH, [=](World &w, Out &o) { double m = w.set.dom.b - w.set.dom.a; pairs(o, w.H().eigenpairsByIndex(0, 3, D), -m, m); });
        add("H.error", 0, false, pH, [=](World &w, Out &o) { for (auto &q: w.H().eigenvaluesByIndex(0, 2, D)) o << w.H().eigenvalueError(q.second, D, q.first) << w.H().eigenvalueError(q.second, D); });
        add("P.byIndex(0,4)", 0, true, pP, [=](World &w, Out &o) { put(o, w.P().eigenvaluesByIndex(0, 4)); });
        add("P.window", 0, false, pP, [=](World &w, Out &o) { put(o, w.P().eigenvalues(-30, 60)); });
        add("P.pairs(0,3)", 0, true, pP, [=](World &w, Out &o) { ppairs(o, w.P().eigenpairsByIndex(0, 3), w.set.dom.a, w.set.dom.b); });
        add("P.pairs window", 0, false, pP, [=](World &w, Out &o) { ppairs(o, w.P().eigenpairs(-30, 20), w.set.dom.a, w.set.dom.b); });
        add("P.matching", 0, false, pP, [=](World &w, Out &o) {
            auto m = w.P().matchingError(3.1);
            o.matrix(m.first.data).matrix(m.second);
        });
        add("Q.byIndex(0,4)", 0, false, pQ, [=](World &w, Out &o) { put(o, w.Q().eigenvaluesByIndex(0, 4)); });
        add("Q.pairs(1,2)", 0, false, pQ, [=](World &w, Out &o) { ppairs(o, w.Q().eigenpairsByIndex(1, 2), w.set.dom.a, w.set.dom.b); });
        add("S.byIndex(0,3,D,D)", 0, true, pS, [=](World &w, Out &o) { put(o, w.S().eigenvaluesByIndex(0, 3, D, D)); });
        add("S.byIndex(0,3,N,R)", 0, false, pS, [=](World &w, Out &o) { put(o, w.S().eigenvaluesByIndex(0, 3, N, R1)); });
        add("S.pairs(0,2,D,D)", 0, false, pS, [=](World &w, Out &o) { pairs(o, w.S().eigenpairsByIndex(0, 2, D, D), 0, 1); });
        add("S.error", 0, false, pS, [=](World &w, Out &o) { for (auto &q: w.S().eigenvaluesByIndex(0, 2, D, D)) o << w.S().eigenvalueError(q.second, D, D, q.first) << w.S().eigenvalueError(q.second, D, D); });
        add("T.maps", 0, true, pT, [=](World &w, Out &o) {
            for (double t: {0., .2, .77, 1.}) {
                double x = w.T().r2x(t);
                o << x << w.T().x2r(x);
                YD z = bc(1, 2);
                auto y = w.T().z2y(t, z);
                o.matrix(y.data).matrix(w.T().y2z(x, y).data);
            }
        });
#ifdef WITH_MATSCS
        auto pM = [](World &w) { w.M(); };
        auto my = [](double s) {
            matslise::Y<double, Eigen::Dynamic> y(2, 2);
            y.data.setZero();
            y.data(0, 0) = 1;
            y.data(1, 1) = s;
            y.data(2, 1) = 0.5;
            return y;
        };
        add("M.propagate", 0, true, pM, [=](World &w, Out &o) {
            for (double E: {3.1, 12.}) {
                auto q = w.M().propagate(E, my(1), w.set.dom.a, w.set.dom.b);
                o.matrix(q.first.data) << q.second;
            }
        });
        add("M.propagate back", 0, false, pM, [=](World &w, Out &o) {
            auto q = w.M().propagate(3.1, my(2), w.set.dom.b, w.mid(), false);
            o.matrix(q.first.data) << q.second;
        });
        add("M.propagateColumn", 0, false, pM, [=](World &w, Out &o) {
            matslise::Y<double, Eigen::Dynamic, 1> y(2, 1);
            y.data.setZero();
            y.data(0, 0) = 1;
            o.matrix(w.M().propagateColumn(3.1, y, w.set.dom.a, w.set.dom.b).data);
        });
        add("M.propagatePsi", 0, false, pM, [=](World &w, Out &o) {
            Eigen::MatrixXd psi = Eigen::MatrixXd::Identity(2, 2);
            o.matrix(w.M().propagatePsi(3.1, psi, w.set.dom.a, w.mid()));
        });
#endif
        auto at = [](World &w, double t) { return w.set.dom.a + t * (w.set.dom.b - w.set.dom.a); };
        auto pfA = [](World &w) { w.fA(); };
        auto pgA = [](World &w) { w.gA(); };
        auto pfH = [](World &w) { w.fH(); };
        auto pfP = [](World &w) { w.fP(); };
        auto pfS = [](World &w) { w.fS(); };
        for (double t: {0.1, 0.8}) add(mc::strf("fA(%g)", t), 1, true, pfA, [=](World &w, Out &o) { o.matrix(w.fA()(at(w, t))); });
        add("fA(array)", 1, true, pfA, [=](World &w, Out &o) { evaluate(o, w.fA(), w.set.dom.a, w.set.dom.b); });
        add("fA(ends)", 1, false, pfA, [=](World &w, Out &o) { for (double t: {1., 0., 1.5, -.2}) o.matrix(w.fA()(at(w, t))); });
        add("gA(.8)", 1, false, pgA, [=](World &w, Out &o) { o.matrix(w.gA()(at(w, .8))); });
        for (double t: {-.6, .6}) add(mc::strf("fH(%g)", t), 1, t > 0, pfH, [=](World &w, Out &o) { o.matrix(w.fH()(t * (w.set.dom.b - w.set.dom.a))); });
        add("fH(array)", 1, false, pfH, [=](World &w, Out &o) { double m = w.set.dom.b - w.set.dom.a; evaluate(o, w.fH(), -m, m); });
        for (double t: {0.1, 0.8}) add(mc::strf("fP(%g)", t), 1, false, pfP, [=](World &w, Out &o) { o.matrix(w.fP()(at(w, t))); });
        add("fP(array)", 1, false, pfP, [=](World &w, Out &o) { evaluate(o, w.fP(), w.set.dom.a, w.set.dom.b); });
        for (double t: {0.1, 0.8}) add(mc::strf("fS(%g)", t), 1, t > .5, pfS, [=](World &w, Out &o) { o.matrix(w.fS()(t)); });
        add("fS(array)", 1, false, pfS, [=](World &w, Out &o) { evaluate(o, w.fS(), 0, 1); });
        auto nothing = [](World &) {};
        add("new A", 2, true, nothing, [=](World &w, Out &o) {
            w.fA_.reset();
            w.gA_.reset();
            w.A_.reset();
            put(o, w.A().eigenvaluesByIndex(0, 4, D, D));
        });
        add("new B", 2, true, nothing, [=](World &w, Out &o) {
            w.B_.reset();
            put(o, w.B().eigenvaluesByIndex(0, 4, D, D));
        });
        add("new H", 2, false, nothing, [=](World &w, Out &o) {
            w.fH_.reset();
            w.H_.reset();
            put(o, w.H().eigenvaluesByIndex(0, 3, N));
        });
        add("new P", 2, false, nothing, [=](World &w, Out &o) {
            w.fP_.reset();
            w.P_.reset();
            put(o, w.P().eigenvaluesByIndex(0, 3));
        });
        add("new S", 2, false, nothing, [=](World &w, Out &o) {
            w.fS_.reset();
            w.S_.reset();
            put(o, w.S().eigenvaluesByIndex(0, 3, D, D));
        });
        add("new T", 2, false, nothing, [=](World &w, Out &o) {
            w.T_.reset();
            o << w.T().r2x(.4) << w.T().V(.3);
        });
        // fixed energies, and then the same questions to another problem, probably at the same address
        auto askA = [=](World &w, Out &o) {
            evaluate(o, *w.A().eigenfunction(12.5, D, D), w.set.dom.a, w.set.dom.b);
            o << w.A().eigenvalueError(12.5, D, N, 1);
            auto q = w.A().propagate(3.1, N, w.set.dom.a, w.set.dom.b);
            o.matrix(q.first.data) << q.second;
            auto m = w.A().matchingError(15.2, D, D);
            o << std::get<0>(m) << std::get<1>(m) << std::get<2>(m) << w.A().estimatePotentialMinimum();
        };
        auto askH = [=](World &w, Out &o) {
            double m = w.set.dom.b - w.set.dom.a;
            evaluate(o, *w.H().eigenfunction(12.5, D, 1), -m, m);
            o << w.H().eigenvalueError(12.5, D, 2);
        };
        auto askP = [=](World &w, Out &o) {
            auto m = w.P().matchingError(3.1);
            o.matrix(m.first.data).matrix(m.second);
            put(o, w.P().eigenvalues(-3, 20));
        };
        auto askS = [=](World &w, Out &o) { o << w.S().eigenvalueError(12.5, D, D, 1); };
        auto askT = [=](World &w, Out &o) {
            for (double t: {.8, .1, .45}) o << w.T().r2x(t * w.T().rDomain().max) << w.T().x2r(t * w.T().xDomain().max);
            o.matrix(w.T().z2y(.4, bc(1, 2)).data);
        };
        add("A.at", 0, false, pA, askA);
        add("H.at", 0, false, pH, askH);
        add("P.at", 0, false, pP, askP);
        add("S.at", 0, false, pS, askS);
        add("T.at", 0, false, pT, askT);
        add("twin of A", 2, false, nothing, [=](World &w, Out &o) {
            w.fA_.reset();
            w.gA_.reset();
            w.A_.reset();
            w.A_ = std::make_unique<Ms>(w.watched([](double x) { return 2 * std::cos(3 * x); }), w.set.dom.a, w.set.dom.b, w.set.tol, w.shared);
            askA(w, o);
            w.A_.reset();
        });
        add("twin of H", 2, false, nothing, [=](World &w, Out &o) {
            w.fH_.reset();
            w.H_.reset();
            w.H_ = std::make_unique<matslise::MatsliseHalf<double>>(w.watched([](double x) { return 2 * std::cos(3 * x); }), w.set.dom.b - w.set.dom.a, w.set.tol);
            askH(w, o);
            w.H_.reset();
        });
        add("twin of P", 2, false, nothing, [=](World &w, Out &o) {
            w.fP_.reset();
            w.P_.reset();
            w.P_ = std::make_unique<matslise::PeriodicMatslise<double>>(w.watched([](double x) { return 2 * std::cos(3 * x); }), w.set.dom.a, w.set.dom.b, w.set.tol, w.shared);
            askP(w, o);
            w.P_.reset();
        });
        add("twin of S", 2, false, nothing, [=](World &w, Out &o) {
            w.fS_.reset();
            w.S_.reset();
            w.S_ = std::make_unique<matslise::SturmLiouville<double>>(w.watched([](double x) { return 2 - x; }), w.watched([](double x) { return -x; }),
                                                                     w.watched([](double x) { return 1 + x; }), matslise::Domain<double>{0, 1}, w.set.tol);
            askS(w, o);
            w.S_.reset();
        });
        add("twin of T", 2, false, nothing, [=](World &w, Out &o) {
            w.T_.reset();
            w.T_ = std::make_unique<matslise::LiouvilleTransformation<double>>(matslise::Domain<double>{0, 1}, w.watched([](double x) { return 2 - x; }), w.watched([](double x) { return -x; }),
                                                                              w.watched([](double x) { return 1 + x; }));
            askT(w, o);
            o << w.T().V(.3);
            w.T_.reset();
        });
        add("drop all, new B, new A", 2, true, nothing, [=](World &w, Out &o) {
            w.drop();
            w.B();
            put(o, w.A().eigenvaluesByIndex(0, 4, D, D));
        });
        return r;
    }

    inline std::string perform(World &w, const Op &op) {
        Out o;
        try {
            op.run(w, o);
        } catch (std::exception &e) {
            o.s += std::string("exception ") + e.what();
        }
        return o.s;
    }

    // A process that never ran an operation answers what a fresh process gets for one: it forks a child per question.
    // Started before anything else by main(); one per worker (index worker + 1).
    struct Pristine {
        int fds[65] = {0};

        void start(int count) {
            for (int i = 0; i < count; ++i) {
                int s[2];
                if (socketpair(AF_UNIX, SOCK_SEQPACKET, 0, s)) _exit(5);
                if (fork() == 0) {
                    for (int j = 0; j < i; ++j) close(fds[j]);
                    close(s[0]);
                    int q[3];
                    while (read(s[1], q, sizeof q) == sizeof q) {
                        pid_t p = fork();
                        if (p == 0) {
                            signal(SIGPROF, SIG_DFL);
                            struct itimerval t{};
                            t.it_value.tv_sec = 30;
                            setitimer(ITIMER_PROF, &t, nullptr);
                            std::string r;
                            {
                                World w(settings()[q[0]]);
                                r = perform(w, operations()[q[1]]);
                            }
                            r.resize(std::min<size_t>(r.size(), 60000));
                            (void) !write(s[1], r.data(), r.size());
                            _exit(0);
                        }
                        int st;
                        waitpid(p, &st, 0);
                        if (st) (void) !write(s[1], "crash", 5);
                    }
                    _exit(0);
                }
                close(s[1]);
                fds[i] = s[0];
            }
        }

        std::string ask(int worker, int setting, int op) {
            int q[3] = {setting, op, 0};
            static char buf[70000];
            if (write(fds[worker + 1], q, sizeof q) != sizeof q) _exit(5);
            ssize_t n = read(fds[worker + 1], buf, sizeof buf);
            if (n < 0) _exit(5);
            return std::string(buf, n);
        }
    };
}
#endif
