// C26: the same question asked through any constructor, overload or interface has the same answer, bit for bit.
#include "probs.hpp"
#include "matslise/liouville.h"
using namespace vp;
using namespace matslise;
typedef Matslise<double> MS;
typedef AbstractMatslise<double> Base;
typedef sector_builder::AutomaticSectorBuilder<MS> Auto;
typedef sector_builder::UniformSectorBuilder<MS> Uni;
typedef std::vector<std::pair<int, double>> Ev;

static long alive = 0; // copies of the potential that exist
struct V {
    std::shared_ptr<ref::Pot> p;

    V(const std::string &k, double a, double b) : p(std::make_shared<ref::Pot>(prob(k, a, b).P)) { ++alive; }

    V(const V &o) : p(o.p) { ++alive; }

    ~V() { --alive; }

    double operator()(double x) const { return (double) (*p)((R) x); }
};

static std::string txt(const Ev &v) {
    std::string s;
    for (auto &e: v) s += mc::strf("(%d:%.17g)", e.first, e.second);
    return s.empty() ? "nothing" : s;
}

static bool bits(double a, double b) { return memcmp(&a, &b, 8) == 0 || a == b; }

template<typename F>
static std::string values(const F &f, double a, double b) {
    std::string s;
    for (double q: {-0.01, 0., 0.1, 0.35, 0.5, 0.77, 1., 1.01}) {
        auto v = (*f)(a + q * (b - a));
        s += mc::strf("(%.17g,%.17g)", v[0], v[1]);
    }
    return s;
}

static std::string structure(const MS &m) {
    std::string s = mc::strf("domain [%.17g,%.17g] tolerance %.17g matching %d sectors %d(%d):", m.domain.min, m.domain.max, m.tolerance, m.matchIndex, m.sectorCount, (int) m.sectors.size());
    for (auto &q: m.sectors) {
        s += mc::strf(" %.17g-%.17g/%d/%.17g", q->min, q->max, (int) q->direction, q->v0Match);
        for (double v: q->vs) s += mc::strf(",%.17g", v);
    }
    return s;
}

#define SAME(key, x, y, what) do { auto X_ = (x); auto Y_ = (y); c.step(2); c.outcome(X_); c.state(X_); c.check(X_ == Y_, key, "%s: %s and %s", std::string(what).c_str(), X_.c_str(), Y_.c_str()); } while (0)

// a query that throws is an answer, too
template<typename F>
static std::string ask(F f) {
    try { return f(); } catch (std::exception &e) { return std::string("exception ") + e.what(); }
}

static void queries(mc::Ctx &c, const Base &x, const Base &y, double a, double b, bool half, const BC &l, const BC &r) {
    // x is asked one way, y another
    bool equal = l.y == r.y && l.d == r.d;
    int lo = (int) c.choose("from", 4), n = (int) c.choose("length", 4);
    std::string op = c.pick("query", std::vector<std::string>{"index", "window", "pairs", "error", "function", "minimum"});
    auto L = l.Y(), Rt = r.Y();
    std::string t = op + mc::strf(" %d..%d with ", lo, lo + n) + l.name + "/" + r.name;
    if (half && !equal) { // not to be answered
        std::string g = op == "index" ? ask([&] { return txt(x.eigenvaluesByIndex(lo, lo + n, L, Rt)); }) :
                        op == "window" ? ask([&] { return txt(x.eigenvalues(0, 100, L, Rt)); }) :
                        op == "pairs" && n ? ask([&] { return std::to_string(x.eigenpairsByIndex(lo, lo + n, L, Rt).size()); }) :
                        op == "error" ? ask([&] { return mc::strf("%g", x.eigenvalueError(3, L, Rt, lo)); }) :
                        op == "function" ? ask([&] { return values(x.eigenfunction(3, L, Rt), a, b); }) : std::string("exception");
        c.check(g.rfind("exception", 0) == 0, "refusal", "%s was answered by %s", t.c_str(), g.c_str());
        c.step();
        return;
    }
    auto index = [&](const Base &m) { return ask([&] { return txt(m.eigenvaluesByIndex(lo, lo + n, L, Rt)); }); };
    if (op == "index") {
        auto w = index(x);
        SAME("index", w, index(y), t);
        if (equal) SAME("index", w, ask([&] { return txt(y.eigenvaluesByIndex(lo, lo + n, Rt)); }), t + ", one condition");
    } else if (op == "window") {
        auto ev = x.eigenvaluesByIndex(lo, lo + n + 1, L, Rt);
        double A = ev.front().second - 1, B = ev.back().second + (n == 2 ? -2.5 : 1.5);
        auto w = ask([&] { return txt(x.eigenvalues(A, B, L, Rt)); });
        SAME("window", w, ask([&] { return txt(y.eigenvalues(A, B, L, Rt)); }), t);
        if (equal) SAME("window", w, ask([&] { return txt(y.eigenvalues(A, B, Rt)); }), t + ", one condition");
    } else if (op == "pairs") {
        auto show = [&](decltype(x.eigenpairsByIndex(0, 0, L, Rt)) v) {
            std::string s;
            for (auto &e: v) s += mc::strf("(%d:%.17g)", std::get<0>(e), std::get<1>(e)) + values(std::get<2>(e), a, b);
            return s;
        };
        auto w = ask([&] { return show(x.eigenpairsByIndex(lo, lo + n, L, Rt)); });
        SAME("pairs", w, ask([&] { return show(y.eigenpairsByIndex(lo, lo + n, L, Rt)); }), t);
        if (equal) SAME("pairs", w, ask([&] { return show(y.eigenpairsByIndex(lo, lo + n, Rt)); }), t + ", one condition");
        SAME("pairs and values", w, ask([&] {
            std::string s;
            for (auto &e: y.eigenvaluesByIndex(lo, lo + n, L, Rt)) s += mc::strf("(%d:%.17g)", e.first, e.second) + values(y.eigenfunction(e.second, L, Rt, e.first), a, b);
            return s;
        }), t + " against eigenvalues and functions one by one");
    } else if (op == "error" || op == "function") {
        auto ev = x.eigenvaluesByIndex(lo, lo + 1, L, Rt);
        double E = ev[0].second + n * 1e-9;
        int i = ev[0].first;
        // without the index the eigenvalue alone has to identify the function: only between separated eigenvalues
        auto around = x.eigenvaluesByIndex(std::max(0, i - 1), i + 2, L, Rt);
        bool alone = true;
        for (auto &e: around) alone &= e.first == i || std::fabs(e.second - E) > 1e-2;
        if (op == "error") {
            auto f = [](double v) { return mc::strf("%.17g", v); };
            auto w = f(x.eigenvalueError(E, L, Rt, i));
            SAME("error", w, f(y.eigenvalueError(E, L, Rt, i)), t);
            if (alone) SAME("error", w, f(y.eigenvalueError(E, L, Rt)), t + ", without the index");
            if (equal) {
                SAME("error", w, f(y.eigenvalueError(E, Rt, i)), t + ", one condition");
                if (alone) SAME("error", w, f(y.eigenvalueError(E, Rt)), t + ", one condition without the index");
            }
        } else {
            auto w = values(x.eigenfunction(E, L, Rt, i), a, b);
            SAME("function", w, values(y.eigenfunction(E, L, Rt, i), a, b), t);
            if (alone) SAME("function", w, values(y.eigenfunction(E, L, Rt), a, b), t + ", without the index");
            if (equal) {
                SAME("function", w, values(y.eigenfunction(E, Rt, i), a, b), t + ", one condition");
                if (alone) SAME("function", w, values(y.eigenfunction(E, Rt), a, b), t + ", one condition without the index");
            }
        }
    } else {
        if (lo || n) throw mc::Skip();
        SAME("minimum", mc::strf("%.17g", x.estimatePotentialMinimum()), mc::strf("%.17g", y.estimatePotentialMinimum()), t);
    }
}

static R meanOf(const ref::Pot &P, R a, R b) { // exact mean of a piecewise polynomial
    R s = 0;
    for (auto &p: P.p) {
        R l = std::max(a, p.a), h = std::min(b, p.b);
        if (l >= h) continue;
        for (size_t k = 0; k < p.c.size(); ++k) s += p.c[k] * (powl(h - p.x0, k + 1) - powl(l - p.x0, k + 1)) / (k + 1);
    }
    return s / (b - a);
}

static void execution(mc::Ctx &c) {
    std::string solver = c.pick("solver", std::vector<std::string>{"full", "half", "periodic", "sturm", "transformation"});
    std::vector<BC> bs{{"D", 0, 1}, {"N", 1, 0}, {"R", 1, -2}};
    if (c.thorough) bs.push_back({"R2", -3, 0.5});
    if (solver == "full" || solver == "half") {
        bool half = solver == "half";
        if (half) bs.push_back({"R~", 1, std::nextafter(-2, 0)});
        double b = c.pick("xmax", std::vector<double>{1, 3, 5.5}), a = half ? -b : c.pick("xmin", std::vector<double>{0, -2});
        std::string kind = c.pick("potential", half ? std::vector<std::string>{"zero", "x2", "mathieu", "doublewell"} : std::vector<std::string>{"zero", "x2", "step", "slope-20", "doublewell"});
        double tol = c.pick("tolerance", std::vector<double>{1e-8, 1e-5, 1e-11});
        std::vector<std::string> how = half ? std::vector<std::string>{"V,xmax,tol", "through the base"} : std::vector<std::string>{"V,a,b,tol", "V,domain,tol", "V,a,b,tol,builder", "through the base"};
        if (tol == 1e-8 && !half) { how.push_back("V,a,b"); how.push_back("V,domain"); }
        std::string h = c.pick("constructed by", how);
        BC l = c.pick("left", bs), r = c.pick("right", bs);
        c.shard();
        struct Pair {
            std::unique_ptr<Base> x, y;
            long before;
        };
        auto &p = c.memo([&] {
            V v(kind, a, b);
            Pair p;
            p.before = alive - 1;
            if (half) {
                p.x = std::make_unique<MatsliseHalf<double>>(v, b, tol, Auto(tol));
                p.y = h[0] == 'V' ? std::make_unique<MatsliseHalf<double>>(v, b, tol) : std::make_unique<MatsliseHalf<double>>(v, b, tol, Auto(tol));
            } else {
                p.x = std::make_unique<MS>(v, Domain<double>{a, b}, tol, Auto(tol));
                if (h == "V,a,b,tol") p.y = std::make_unique<MS>(v, a, b, tol);
                else if (h == "V,domain,tol") p.y = std::make_unique<MS>(v, Domain<double>{a, b}, tol);
                else if (h == "V,a,b") p.y = std::make_unique<MS>(v, a, b);
                else if (h == "V,domain") p.y = std::make_unique<MS>(v, Domain<double>{a, b});
                else p.y = std::make_unique<MS>(v, a, b, tol, Auto(tol));
            }
            auto inner = [&](Base *q) -> const MS & { return half ? *dynamic_cast<MatsliseHalf<double> *>(q)->ms : *dynamic_cast<MS *>(q); };
            auto sx = structure(inner(p.x.get())), sy = structure(inner(p.y.get()));
            c.check(sx == sy, "structure", "%s gives %s instead of %s", h.c_str(), sy.c_str(), sx.c_str());
            c.check(p.x->domain.min == a && p.x->domain.max == b && p.y->domain.min == a && p.y->domain.max == b, "domain", "the domain is [%.17g,%.17g]", p.y->domain.min, p.y->domain.max);
            for (double z: {a, b, (a + b) / 3}) c.check(p.y->potential(z) == v(z), "potential", "potential(%g)", z);
            // the estimate of the minimum is the least mean over the sectors
            auto &m = inner(p.y.get());
            R least = INFINITY, big = 0;
            for (auto &s: m.sectors) { R q = meanOf(*v.p, s->min, s->max); least = std::min(least, q); big = std::max(big, std::fabs(q)); }
            double e = p.y->estimatePotentialMinimum();
            // a mean over a jump is only as good as the quadrature
            if (kind != "step") c.near(e, (double) least, 1e-11 * (1 + (double) big), "minimum", "estimatePotentialMinimum");
            bool one = false;
            for (auto &s: m.sectors) { c.check(e <= s->vs[0], "minimum", "%.17g exceeds the mean %.17g", e, s->vs[0]); one |= e == s->vs[0]; }
            c.check(one, "minimum", "%.17g is the mean of no sector", e);
            // destruction through the base releases everything
            {
                long before = alive;
                std::unique_ptr<Base> q;
                if (half) q = std::make_unique<MatsliseHalf<double>>(v, b, tol);
                else q = std::make_unique<MS>(v, a, b, tol);
                c.check(alive > before, "copies", "the potential is not kept");
                q.reset();
                c.check(alive == before, "leak", "%ld copies of the potential survive the solver", alive - before);
            }
            return p;
        });
        queries(c, *p.x, *p.y, a, b, half, l, r);
        // concrete type instead of the base: the overloads of the derived class
        if (!half && h == "through the base") {
            auto &d = *dynamic_cast<MS *>(p.x.get());
            auto L = l.Y(), Rt = r.Y();
            SAME("concrete", txt(d.eigenvaluesByIndex(0, 3, L, Rt)), txt(p.y->eigenvaluesByIndex(0, 3, L, Rt)), "Matslise");
            if (l.name == r.name) {
                SAME("concrete", txt(d.eigenvaluesByIndex(1, 3, L)), txt(d.eigenvaluesByIndex(1, 3, L, L)), "Matslise, one condition");
                SAME("concrete", txt(d.eigenvalues(-3, 50, L)), txt(d.eigenvalues(-3, 50, L, L)), "Matslise, one condition");
            }
            // two solutions at once
            matslise::Y<double, 1, 2> two;
            two.data << L.data, Rt.data;
            two.data(2, 0) = 0.3;
            two.data(3, 1) = -1;
            for (auto &q: std::vector<std::pair<double, double>>{{a, b}, {b, a}, {(a + b) / 3, b}, {b - 0.1, a + 0.2}, {a, a}})
                for (double E: {-3., 1., 17.5, 400.})
                    for (bool uh: {true, false}) {
                        auto o = d.propagate<2>(E, two, q.first, q.second, uh);
                        for (int k = 0; k < 2; ++k) {
                            auto s = d.propagate(E, two.col(k), q.first, q.second, uh);
                            c.step();
                            double sz = s.first.data.norm();
                            c.check((o.first.data.col(k) - s.first.data).norm() <= 1e-13 * sz, "columns", "column %d from %g to %g at E=%g", k, q.first, q.second, E);
                            c.check(std::fabs(o.second[k] - s.second) <= 1e-11 * (1 + std::fabs(s.second)), "columns", "angle of column %d from %g to %g at E=%g: %.17g and %.17g", k, q.first, q.second, E, o.second[k], s.second);
                        }
                    }
        }
    } else if (solver == "periodic") {
        double a = c.pick("xmin", std::vector<double>{0, -2}), b = c.pick("xmax", std::vector<double>{1, 4});
        std::string kind = c.pick("potential", std::vector<std::string>{"zero", "mathieu", "step", "x2"});
        typedef Eigen::Matrix2d K2;
        K2 sh;
        sh << 2, 3, 1, 2;
        std::vector<std::pair<std::string, K2>> ks{{"I", K2::Identity()}, {"-I", -K2::Identity()}, {"shear", sh}};
        auto K = c.pick<std::pair<std::string, K2>>("K", ks, [](const std::pair<std::string, K2> &k) { return k.first; });
        double tol = c.pick("tolerance", std::vector<double>{1e-8, 1e-5});
        int how = (int) c.choose("constructed by", K.first == "I" ? tol == 1e-8 ? 5 : 4 : 2);
        c.shard();
        auto &p = c.memo([&] {
            V v(kind, a, b);
            std::array<std::unique_ptr<PeriodicMatslise<double>>, 2> q;
            q[0] = std::make_unique<PeriodicMatslise<double>>(v, a, b, tol, Auto(tol), K.second);
            q[1] = how == 0 ? std::make_unique<PeriodicMatslise<double>>(v, a, b, tol, K.second) :
                   how == 1 ? std::make_unique<PeriodicMatslise<double>>(v, a, b, tol, Auto(tol), K.second) :
                   how == 2 ? std::make_unique<PeriodicMatslise<double>>(v, a, b, tol) :
                   how == 3 ? std::make_unique<PeriodicMatslise<double>>(v, a, b, tol, Auto(tol)) :
                   std::make_unique<PeriodicMatslise<double>>(v, a, b);
            auto sx = structure(q[0]->matslise), sy = structure(q[1]->matslise);
            c.check(sx == sy, "structure", "constructor %d gives %s instead of %s", how, sy.c_str(), sx.c_str());
            c.check(q[1]->K == K.second, "K", "constructor %d has another coupling", how);
            return q;
        });
        auto &x = *p[0], &y = *p[1];
        auto vals = [](const std::vector<std::tuple<int, double, int>> &v) { std::string s; for (auto &e: v) s += mc::strf("(%d:%.17g x%d)", std::get<0>(e), std::get<1>(e), std::get<2>(e)); return s; };
        auto pairs = [&](const decltype(x.eigenpairs(0, 0)) &v, bool functions) {
            std::string s;
            for (auto &e: v) {
                s += mc::strf("(%d:%.17g x%d)", std::get<0>(e), std::get<1>(e), (int) std::get<2>(e).size());
                if (functions) for (auto &f: std::get<2>(e)) s += values(f, a, b);
            }
            return s;
        };
        int lo = (int) c.choose("from", 4), n = (int) c.choose("length", 4);
        auto w = vals(x.eigenvaluesByIndex(lo, lo + n));
        SAME("periodic index", w, vals(y.eigenvaluesByIndex(lo, lo + n)), "index");
        SAME("periodic pairs", w, pairs(y.eigenpairsByIndex(lo, lo + n), false), "eigenvalues and pairs");
        SAME("periodic pairs", pairs(x.eigenpairsByIndex(lo, lo + n), true), pairs(y.eigenpairsByIndex(lo, lo + n), true), "pairs");
        double A = lo * 11. - 20, B = A + n * 29;
        auto ww = vals(x.eigenvalues(A, B));
        SAME("periodic window", ww, vals(y.eigenvalues(A, B)), "window");
        SAME("periodic pairs", ww, pairs(y.eigenpairs(A, B), false), "window of eigenvalues and pairs");
        auto fs = [&](const PeriodicMatslise<double> &m, double E) { std::string s; for (auto &f: m.eigenfunction(E)) s += values(f, a, b); return s; };
        for (auto &e: x.eigenvaluesByIndex(lo, lo + 1)) SAME("periodic function", fs(x, std::get<1>(e)), fs(y, std::get<1>(e)), "eigenfunction");
        // two solutions at once are two solutions
        matslise::Y<double, 1, 2> two;
        two.data << 1, 0, 0.5, -2, 0, 0.3, 0, 1;
        for (double E: {-3., 17.5}) {
            auto o = x.propagate(E, two, a, b - 0.2 * n);
            for (int k = 0; k < 2; ++k) {
                auto s = y.matslise.propagate(E, two.col(k), a, b - 0.2 * n);
                c.check((o.first.data.col(k) - s.first.data).norm() <= 1e-13 * s.first.data.norm() && std::fabs(o.second[k] - s.second) <= 1e-11 * (1 + std::fabs(s.second)), "columns", "column %d at E=%g", k, E);
            }
        }
    } else {
        std::string pk = c.pick("p", std::vector<std::string>{"1", "1+r", "exp"}), wk = c.pick("w", std::vector<std::string>{"1", "1+r2", "exp"});
        double b = c.pick("rmax", std::vector<double>{1, 2.5});
        auto coef = [](const std::string &k) -> std::function<double(double)> {
            if (k == "1") return [](double) { return 1.; };
            if (k == "1+r") return [](double r) { return 1 + r; };
            if (k == "1+r2") return [](double r) { return 1 + r * r; };
            return [](double r) { return std::exp(-r / 2); };
        };
        auto q = [](double r) { return 3 * r; };
        if (solver == "transformation") {
            int copies = (int) c.choose("copied by", 3);
            c.shard();
            typedef LiouvilleTransformation<double> LT;
            auto &lt = c.memo([&] { return std::make_unique<LT>(Domain<double>{0, b}, coef(pk), q, coef(wk)); });
            auto &cp = c.memo([&] {
                if (copies == 0) return std::make_unique<LT>(*lt);
                auto tmp = std::make_unique<LT>(Domain<double>{0, b}, coef(pk), q, coef(wk));
                if (copies == 1) return std::make_unique<LT>(*tmp); // the original is gone
                return std::make_unique<LT>(std::move(*tmp));
            });
            double f = c.pick("position", std::vector<double>{0, 0.1, 0.25, 0.5, 0.77, 1});
            double X = lt->xDomain().max;
            matslise::Y<double> y;
            y.data << 1, -2, 0.5, 3;
            auto s = [&](const LT &t) {
                auto z = t.z2y(f * b, y), u = t.y2z(f * X, y);
                std::string o = mc::strf("%.17g %.17g %.17g %.17g %.17g", t.r2x(f * b), t.x2r(f * X), t.V(f * X), t.xDomain().max, t.rDomain().max);
                for (int i = 0; i < 4; ++i) o += mc::strf(" %.17g %.17g", z.data[i], u.data[i]);
                return o;
            };
            SAME("copy", s(*lt), s(*cp), "copy of a transformation");
            return;
        }
        BC l = c.pick("left", bs), r = c.pick("right", bs);
        c.shard();
        auto &sl = c.memo([&] { return std::make_unique<SturmLiouville<double>>(coef(pk), q, coef(wk), Domain<double>{0, b}, 1e-8); });
        int lo = (int) c.choose("from", 4), n = (int) c.choose("length", 4);
        auto ev = sl->eigenvaluesByIndex(lo, lo + n, l.Y(), r.Y());
        Ev pv;
        for (auto &e: sl->eigenpairsByIndex(lo, lo + n, l.Y(), r.Y())) pv.emplace_back(std::get<0>(e), std::get<1>(e));
        SAME("sturm", txt(ev), txt(pv), "eigenvalues and pairs");
        if (n > 1) {
            std::string one;
            Ev all;
            for (int i = lo; i < lo + n; ++i) for (auto &e: sl->eigenpairsByIndex(i, i + 1, l.Y(), r.Y())) all.push_back({std::get<0>(e), std::get<1>(e)});
            c.check(all.size() == ev.size(), "sturm", "one by one %s, together %s", txt(all).c_str(), txt(ev).c_str());
            for (size_t i = 0; i < all.size(); ++i)
                c.check(all[i].first == ev[i].first && std::fabs(all[i].second - ev[i].second) <= 1e-7 * (1 + std::fabs(ev[i].second)), "sturm", "one by one %s, together %s", txt(all).c_str(), txt(ev).c_str());
        }
        if (!ev.empty()) c.check(bits(sl->eigenvalueError(ev[0].second, l.Y(), r.Y()), sl->eigenvalueError(ev[0].second, l.Y(), r.Y(), ev[0].first)), "sturm", "the index changes the error");
    }
}

MC_MAIN(execution)
