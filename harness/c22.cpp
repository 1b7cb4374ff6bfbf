// C22: the solver in long double and quadruple precision against a reference in quadruple precision.  At tolerances double
// cannot reach, every answer (eigenvalues, flow, energy derivative, angle, eigenfunctions, half-range, coupled conditions,
// Sturm-Liouville problems) must have an error of the order of the tolerance.
#define REF_QUAD
#include "probs.hpp"
#include "matslise/liouville.h"
#include "matslise/util/constants.h"
using namespace vp;
using namespace matslise;
#ifdef QUAD
typedef boost::multiprecision::float128 S;
static const std::vector<double> TOLS{1e-10, 1e-18, 1e-25};
static const double ROUND = 1e-31;
#else
typedef long double S;
static const std::vector<double> TOLS{1e-9, 1e-13, 1e-16};
static const double ROUND = 2e-18;
#endif
typedef matslise::Y<S> Y1;

static double dbl(const R &x) { return (double) x; }

static std::unique_ptr<Matslise<S>> make(const Prob &p, double tol) {
    Builder b{"auto", true, tol, 0, true};
    return b.make<S>(p);
}

// distance from E to the eigenvalue of index n: first order from the Wronskian mismatch at m
static R distance(const ref::Pot &P, const R &E, const BC &l, const BC &r, const R &m) {
    ref::S a = ref::integrate(P, E, {l.y, l.d, 0, 0}, P.min(), m).u, b = ref::integrate(P, E, {r.y, r.d, 0, 0}, P.max(), m).u;
    R f = a.y * b.d - a.d * b.y, g = a.ye * b.d + a.y * b.de - a.de * b.y - a.d * b.ye;
    return f / g;
}

static void content(mc::Ctx &c, const Prob &p, const std::vector<std::pair<int, S>> &v, int lo, int hi, const BC &l, const BC &r, double tol, const R &m, const char *key) {
    std::string t = mc::strf("%d..%d, %d found", lo, hi, (int) v.size());
    c.check((int) v.size() == hi - lo, "number", "%s", t.c_str());
    for (size_t i = 0; i < v.size(); ++i) {
        c.check(v[i].first == lo + (int) i, "index", "%s", t.c_str());
        R E = (R) v[i].second;
        R d = distance(p.P, E, l, r, m), w = 1e-7 * (1 + fabs(E));
        c.check(fabs(d) < w && ref::count(p.P, E - w, l.r(), r.r()) <= v[i].first && v[i].first < ref::count(p.P, E + w, l.r(), r.r()), "index", "index %d is not at %.17g (%.3g from an eigenvalue)", v[i].first, dbl(E), dbl(d));
        c.near(dbl(d), 0, tol * dbl(1 + fabs(E)), key, mc::strf("index %d at %.17g", v[i].first, dbl(E)));
    }
}

// how much solutions grow over the parts where E < V
static double growth(const ref::Pot &P, const R &E) {
    double g = 0;
    for (int i = 0; i < 200; ++i) g += dbl(sqrt(fmax(R(0), P(P.min() + (P.max() - P.min()) * (i + R(.5)) / 200) - E)) * (P.max() - P.min()) / 200);
    return std::exp(g);
}

template<typename F>
static void arrays(mc::Ctx &c, const F &f, S A, S B, double scale) {
    for (int n: {1, 2, 7}) {
        Eigen::Array<S, Eigen::Dynamic, 1> x(n);
        for (int i = 0; i < n; ++i) x(i) = n == 1 ? A + (B - A) * S(.3) : A + (B - A) * S(i) / S(n - 1);
        x(n - 1) = n == 1 ? x(n - 1) : B; // (the quotient may be rounded beyond the end)
        auto y = f(x);
        c.step();
        c.check(y.rows() == n && y.cols() == 2, "array", "%d x %d values for %d points", (int) y.rows(), (int) y.cols(), n);
        for (int i = 0; i < n; ++i) {
            auto q = f(x(i));
            for (int k = 0; k < 2; ++k)
                c.near(dbl((R) y(i, k) - (R) q[k]), 0, ROUND * 300 * scale * (1 + std::fabs((double) q[k])), "array", mc::strf("%d points, at %.17g, component %d", n, (double) x(i), k));
        }
    }
}

// an eigenfunction against the exact one; the array evaluation against the single one
template<typename F>
static R judge(mc::Ctx &c, const Prob &p, const F &f, R E, const BC &l, const BC &r, double acc, R m) {
    R A = p.P.min(), B = p.P.max(), L = B - A;
    // the exact one: Newton
    for (int k = 0; k < 4; ++k) E -= distance(p.P, E, l, r, m);
    ref::S a = ref::integrate(p.P, E, {l.y, l.d, 0, 0}, A, m).u, b = ref::integrate(p.P, E, {r.y, r.d, 0, 0}, B, m).u;
    R f2 = fabs(b.y) > fabs(b.d) ? a.y / b.y : a.d / b.d;
    R norm = sqrt(a.d * a.ye - a.y * a.de - (b.d * b.ye - b.y * b.de) * f2 * f2);
    R om = sqrt(fmax(R(1), fabs(E - p.P.lower())));
    R sign = 0;
    for (double t: {0., .11, .3, .44, .62, .81, 1.}) {
        S x = S(A) + (S(B) - S(A)) * S(t);
        auto y = f(x);
        c.step();
        ref::S u = (R) x <= m ? ref::integrate(p.P, E, {l.y, l.d, 0, 0}, A, (R) x).u : ref::integrate(p.P, E, {r.y * f2, r.d * f2, 0, 0}, B, (R) x).u;
        R v0 = u.y / norm, v1 = u.d / norm;
        if (sign == 0) sign = v0 * (R) y[0] + v1 * (R) y[1] / om / om < 0 ? -1 : 1;
        double tl = acc * 60 * dbl(om) * dbl(1 + L) * growth(p.P, E);
        c.near(dbl((R) y[0] - sign * v0), 0, tl, "eigenfunction", mc::strf("at %.17g", (double) x));
        c.near(dbl((R) y[1] - sign * v1), 0, tl * dbl(om), "eigenfunction derivative", mc::strf("at %.17g", (double) x));
    }
    arrays(c, f, (S) A, (S) B, growth(p.P, E) * dbl(om));
    return E;
}

static void execution(mc::Ctx &c) {
    std::vector<Dom> ds{{"[0,1]", 0, 1}, {"[-2.5,2]", -2.5, 2}};
    if (c.thorough) { ds.push_back({"[-3,-1]", -3, -1}); ds.push_back({"[0,pi]", 0, 3.141592653589793}); }
    Dom d = c.pick("domain", ds);
    std::vector<std::string> ks{"zero", "linear", "x2", "cubic", "step", "doublewell"};
    if (c.thorough) for (auto k: {"const-6", "slope-20", "barrier", "narrow", "comb", "hill", "stepdown"}) ks.push_back(k);
    std::string kind = c.pick("potential", ks);
    size_t ti = c.choose("tolerance", TOLS.size());
    double tol = TOLS[ti];
    c.trail.back().label = mc::strf("%g", tol);
    Prob p = prob(kind, d.a, d.b);
    R A = d.a, B = d.b, L = B - A, m = A + L * .44;
    std::string what = c.pick("query", std::vector<std::string>{"eigenvalues", "flow", "eigenfunctions", "half", "coupled", "double"});
    if (what == "half" && (kind != "x2" && kind != "zero" && kind != "doublewell" && kind != "narrow" && kind != "hill")) throw mc::Skip();
    auto &ms = c.memo([&] { return make(p, tol); });
    std::vector<BC> bl{{"D", 0, 1}, {"N", 1, 0}, {"R", 1, -2}};
    if (c.thorough) { bl.push_back({"-R8", -8, -5}); bl.push_back({"-3D", 0, -3}); }
    double acc = tol * 20 + ROUND * 100;
    if (what == "flow") {
        // positions: ends, borders, inside of sectors of both directions
        auto &xs = c.memo([&] {
            std::vector<std::pair<std::string, S>> r{{"xmin", (S) d.a}, {"xmax", (S) d.b}};
            std::set<int> which{0, ms->matchIndex, (int) ms->sectors.size() - 1};
            for (int i: which) {
                S h = ms->sectors[i]->max - ms->sectors[i]->min;
                r.push_back({mc::strf("border%d", i), ms->sectors[i]->max});
                if (i + 1 < (int) ms->sectors.size()) {
                    r.push_back({mc::strf("border%d+3e-13", i), ms->sectors[i]->max + S(3e-13)});
                    r.push_back({mc::strf("border%d-3e-13", i), ms->sectors[i]->max - S(3e-13)});
                }
                r.push_back({mc::strf("sector%d+.3", i), ms->sectors[i]->min + h * S(.3)});
            }
            return r;
        });
        double E = c.pick("E", std::vector<double>{-2, 7.3, 150});
        c.shard();
        size_t from = c.choose("from", xs.size());
        c.trail.back().label = xs[from].first;
        size_t to = c.choose("to", xs.size());
        c.trail.back().label = xs[to].first;
        S xa = xs[from].second, xb = xs[to].second;
        bool useH = !c.flag("without step formulas");
        Y1 y;
        y.data << S(1), S(-2), S(.25), S(1.5);
        auto o = ms->propagate(S(E), y, xa, xb, useH);
        c.step();
        ref::S u[2];
        R from0 = (R) xa, to0 = (R) xb;
        for (int k = 0; k < 2; ++k) u[k] = ref::integrate(p.P, (R) E, {(R) (k == 0), (R) (k == 1), 0, 0}, from0, to0).u;
        auto w = ref::integrate(p.P, (R) E, {1, -2, .25, 1.5}, from0, to0);
        R om = sqrt(fmax(R(1), fabs((R) E - p.P.lower())));
        double n = dbl(fabs(u[0].y) + fabs(u[1].y) * om + fabs(u[0].d) / om + fabs(u[1].d)) * 3 * dbl(om), nE = dbl(fabs(u[0].ye) + fabs(u[1].ye) * om + fabs(u[0].de) / om + fabs(u[1].de)) * 3 * dbl(om) + n;
        double gap = sqrt(std::max(0., dbl(p.P.upper()) - E)), ex = 1;
        for (auto &q: ms->sectors) ex = std::max(ex, std::exp(2 * gap * (double) (q->max - q->min)));
        double a1 = acc * ex * (useH ? 1 : 30);
        c.near(dbl((R) o.first.data[0] - w.u.y), 0, a1 * n, "value");
        c.near(dbl((R) o.first.data[1] - w.u.d), 0, a1 * n * dbl(om), "derivative");
        c.near(dbl((R) o.first.data[2] - w.u.ye), 0, a1 * nE, "dE");
        c.near(dbl((R) o.first.data[3] - w.u.de), 0, a1 * nE * dbl(om), "derivative dE");
        // the angle: mod pi that of the result
        S v0 = ms->sectors[ms->matchIndex]->vs[0];
        R sc = S(E) - v0 > 1 ? sqrt((R) (S(E) - v0)) : R(1);
        R want = atan2(sc * (R) o.first.data[0], (R) o.first.data[1]), diff = (R) o.second - want;
        diff -= ref::PI * floor(diff / ref::PI + R(.5));
        c.near(dbl(diff), 0, (ROUND * 300 + acc * .1) * ex * (1 + std::fabs((double) o.second)), "angle", mc::strf("angle %.12g", (double) o.second));
        c.state(mc::hash(mc::strf("%.18Lg", (long double) o.first.data[0])));
        c.outcome(mc::hash(mc::strf("%.6g", (double) o.first.data[0])));
        return;
    }
    if (what == "coupled") {
        auto k = c.pick("K", std::vector<vp::BC>{{"I", 1, 0}, {"-I", -1, 0}, {"[2 0;1 .5]", 2, 1}});
        c.shard();
        double ka = k.y, kc = k.d, kd = 1 / ka;
        Eigen::Matrix<S, 2, 2> M;
        M << S(ka), S(0), S(kc), S(kd);
        sector_builder::AutomaticSectorBuilder<Matslise<S>> sb{S(tol)};
        for (double j: p.jumps) sb.jumps.push_back(S(j));
        PeriodicMatslise<S> pm(p.fn<S>(), S(d.a), S(d.b), S(tol), sb, M);
        int from = (int) c.choose("from", 3);
        auto v = pm.eigenvaluesByIndex(from, from + 3);
        c.step();
        c.check(!v.empty(), "coupled", "nothing found");
        for (auto &e: v) {
            R E = (R) std::get<1>(e);
            ref::S C = ref::integrate(p.P, E, {1, 0, 0, 0}, A, B).u, Q = ref::integrate(p.P, E, {0, 1, 0, 0}, A, B).u;
            // discriminant: D(E) = 2 at eigenvalues, double ones are its extrema
            R D = kd * C.y - kc * Q.y + ka * Q.d, De = kd * C.ye - kc * Q.ye + ka * Q.de;
            double x = std::get<2>(e) == 2 ? 0 : dbl((D - 2) / De), scale = dbl(1 + fabs(E));
            R sz = fabs(kd * C.y) + fabs(R(kc) * Q.y) + fabs(ka * Q.d);
            if (std::get<2>(e) == 2 || fabs(De) * scale < R(1e-3) * sz) {
                // nearly double: the defect in D is of second order
                c.near(dbl(D - 2), 0, std::pow(acc * scale, 2) * 100 + acc * (fabs(dbl(De)) * scale + 1e-3 * std::sqrt(acc)) + ROUND * 1e3 * dbl(sz), "coupled double", mc::strf("index %d at %.17g", std::get<0>(e), dbl(E)));
            } else c.near(x, 0, acc * scale, "coupled", mc::strf("index %d at %.17g", std::get<0>(e), dbl(E)));
            c.state(mc::hash(mc::strf("%.18Lg", (long double) E)));
        }
        c.outcome(v.size());
        // the eigenfunctions: coupled conditions and equation
        auto pairs = pm.eigenpairsByIndex(from, from + 2);
        c.step();
        for (auto &e: pairs) for (auto &f: std::get<2>(e)) {
            R E = (R) std::get<1>(e), om = sqrt(fmax(R(1), fabs(E - p.P.lower())));
            double grow = growth(p.P, E);
            arrays(c, *f, S(d.a), S(d.b), grow * dbl(om));
            auto l = (*f)(S(d.a)), r = (*f)(S(d.b));
            c.near(dbl((R) (r[0] - S(ka) * l[0])), 0, 100 * acc * grow * dbl(om), "coupled condition");
            c.near(dbl((R) (r[1] - S(kc) * l[0] - S(kd) * l[1])), 0, 100 * acc * grow * dbl(om * om), "coupled condition");
            for (double t: {.2, .77}) {
                S x = S(d.a) + (S(d.b) - S(d.a)) * S(t);
                auto y = (*f)(x);
                ref::S u = t < .5 ? ref::integrate(p.P, E, {(R) l[0], (R) l[1], 0, 0}, A, (R) x).u : ref::integrate(p.P, E, {(R) r[0], (R) r[1], 0, 0}, B, (R) x).u;
                                c.near(dbl((R) y[0] - u.y), 0, 100 * acc * dbl(om) * grow, "coupled eigenfunction", mc::strf("index %d at %g", std::get<0>(e), t));
                c.near(dbl((R) y[1] - u.d), 0, 100 * acc * dbl(om * om) * grow, "coupled eigenfunction", mc::strf("index %d at %g", std::get<0>(e), t));
            }
        }
        return;
    }
    if (what == "half") {
        c.shard();
        double xm = std::max(std::fabs(d.a), std::fabs(d.b));
        Prob q = prob(kind, -xm, xm);
        BC s = c.pick("side", bl);
        MatsliseHalf<S> h(q.fn<S>(), S(xm), S(tol), sector_builder::AutomaticSectorBuilder<Matslise<S>>{S(tol)});
        auto v = h.eigenvaluesByIndex(0, 6, s.Y<S>());
        c.step();
        BC l{"", s.y, -s.d};
        content(c, q, v, 0, 6, l, s, acc, R(.37) * xm, "half-range eigenvalue");
        for (auto &e: v) c.state(mc::hash(mc::strf("%.18Lg", (long double) e.second)));
        for (auto &e: h.eigenpairsByIndex(0, 4, s.Y<S>())) judge(c, q, *std::get<2>(e), (R) std::get<1>(e), l, s, acc, R(.37) * xm);
        return;
    }
    BC l = c.pick("left", bl), r = c.pick("right", bl);
    c.shard();
    if (what == "eigenvalues") {
        int lo = (int) c.choose("from", 3), s[3] = {0, 4, 30};
        lo = s[lo];
        auto v = ms->eigenvaluesByIndex(lo, lo + 3, l.Y<S>(), r.Y<S>());
        c.step();
        content(c, p, v, lo, lo + 3, l, r, acc, m, "eigenvalue");
        for (auto &e: v) {
            c.state(mc::hash(mc::strf("%.18Lg", (long double) e.second)));
            c.outcome(mc::hash(mc::strf("%.8g", (double) e.second)));
        }
        // the same through a window
        S w = S(.25);
        auto u = ms->eigenvalues(v.front().second - w, v.back().second + w, l.Y<S>(), r.Y<S>());
        c.step();
        for (auto &e: v) {
            bool found = false;
            for (auto &f: u) if (f.first == e.first && dbl(fabs((R) (f.second - e.second))) <= acc * (1 + fabs((double) e.second))) found = true;
            c.check(found, "window", "index %d is not in the window", e.first);
        }
    } else if (what == "eigenfunctions") {
        auto &v = c.memo([&] { return ms->eigenpairsByIndex(0, 4, l.Y<S>(), r.Y<S>()); });
        size_t i = c.choose("index", 4);
        c.check(v.size() == 4, "number", "%d eigenfunctions", (int) v.size());
        R E = judge(c, p, *std::get<2>(v[i]), (R) std::get<1>(v[i]), l, r, acc, m);
        c.state(mc::hash(mc::strf("%.20Lg", (long double) E)));
        double er = (double) ms->eigenvalueError(std::get<1>(v[i]), l.Y<S>(), r.Y<S>(), (int) i);
        c.check(er >= 0 && er <= 1e3 * acc * dbl(1 + fabs(E)), "error estimate", "%.3g", er);
    } else if (what == "double") { // the same indices and, to the accuracy of double, values as in double
        Builder b{"auto", true, 1e-9, 0, true};
        auto &dm = c.memo([&] { return b.make<double>(p); });
        auto v = ms->eigenvaluesByIndex(0, 6, l.Y<S>(), r.Y<S>());
        auto w = dm->eigenvaluesByIndex(0, 6, l.Y<double>(), r.Y<double>());
        c.step(2);
        c.check(v.size() == w.size(), "double", "%d and %d eigenvalues", (int) v.size(), (int) w.size());
        for (size_t i = 0; i < v.size(); ++i) {
            c.check(v[i].first == w[i].first, "double", "%d and %d", v[i].first, w[i].first);
            c.near((double) v[i].second, w[i].second, 2e-7 * (1 + std::fabs(w[i].second)), "double");
        }
        for (double E: {-3., 20., 77.}) {
            auto x = ms->matchingError(S(E), l.Y<S>(), r.Y<S>());
            auto y = dm->matchingError(E, l.Y<double>(), r.Y<double>());
            c.step(2);
            if (ms->sectors[ms->matchIndex]->max == (S) dm->sectors[dm->matchIndex]->max && std::fabs((double) ms->sectors[ms->matchIndex]->vs[0] - dm->sectors[dm->matchIndex]->vs[0]) < 1e-9) c.near((double) std::get<2>(x), std::get<2>(y), 1e-5, "matching angle");
            c.check(std::ceil((double) std::get<2>(x) / 3.141592653589793 - 1e-6) <= std::ceil(std::get<2>(y) / 3.141592653589793 + 1e-6) && std::ceil((double) std::get<2>(x) / 3.141592653589793 + 1e-6) >= std::ceil(std::get<2>(y) / 3.141592653589793 - 1e-6), "matching angle", "%.12g and %.12g", (double) std::get<2>(x), std::get<2>(y));
        }
    }
}

MC_MAIN(execution)
