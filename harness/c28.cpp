// C28: sectors.  A sector is a function of its interval, its potential and its *current* direction: any sequence of changes of
// direction gives bit for bit the newly built sector, and it is a flow in both directions.
#include "probs.hpp"
#include "matslise/matscs.h"
using namespace vp;
using namespace matslise;
typedef Matslise<double> MS;
typedef Matscs<double> MC;
typedef MS::Sector S;
typedef MC::Sector SC;
static const int Dyn = Eigen::Dynamic;
typedef matslise::Y<double> YD;

struct Text {
    std::string s;

    void operator()(double v) { s.append((const char *) &v, 8); }

    template<typename M>
    void all(const M &m) { for (int j = 0; j < m.cols(); ++j) for (int i = 0; i < m.rows(); ++i) (*this)((double) m(i, j)); }
};

static double firstDifference(const std::string &a, const std::string &b, size_t &at) {
    for (at = 0; at + 8 <= std::min(a.size(), b.size()); at += 8) {
        double x, y;
        memcpy(&x, a.data() + at, 8);
        memcpy(&y, b.data() + at, 8);
        if (!(x == y || (x != x && y != y))) { at /= 8; return x - y; }
    }
    return a.size() == b.size() ? 0 : INFINITY;
}

static void same(mc::Ctx &c, const std::string &a, const std::string &b, const char *key, const std::string &what) {
    size_t at;
    double d = firstDifference(a, b, at);
    c.step();
    c.check(d == 0, key, "%s: number %zu differs by %g", what.c_str(), at, d);
}

static const std::vector<double> energies{-30, -1, 0, 0.5, 12.3, 400};

static std::vector<double> positions(double a, double b) { return {a - 1, std::nextafter(a, -9.), a, a + 1e-3 * (b - a), a + 0.3 * (b - a), a + 0.77 * (b - a), std::nextafter(b, a), b, b + 0.5}; }

static std::string everything(const S &s) { // of a sector with a direction
    Text t;
    t(s.min); t(s.max); t(s.h); t(s.direction);
    for (double v: s.vs) t(v);
    t(s.error());
    for (double E: energies) {
        for (bool u: {true, false}) { auto q = s.calculateT(E, u); t.all(q.t); t.all(q.dt); }
        for (double f: {0., 0.25, 0.9, 1.}) for (bool u: {true, false}) { auto q = s.calculateT(E, f * s.h, u); t.all(q.t); t.all(q.dt); }
        YD y;
        y.data << 1, -2, 0.5, 0.25;
        for (double a: positions(s.min, s.max)) for (double b: positions(s.min, s.max)) {
            auto q = s.propagate<true>(E, y, a, b);
            t.all(q.first.data); t.all(q.second);
        }
    }
    return t.s;
}

static std::string everything(const SC &s) {
    Text t;
    t(s.min); t(s.max); t(s.h); t(s.direction);
    for (auto &v: s.vs) t.all(v);
    t.all(s.diagonalize);
    t(s.error());
    int n = (int) s.n;
    matslise::Y<double, Dyn> y(n, n);
    for (int i = 0; i < 4 * n; ++i) for (int j = 0; j < n; ++j) y.data(i, j) = ((i * 3 + j * 5) % 7 - 2.5) / 3;
    y.block() = y.block() * y.block().transpose().eval(); // symmetric, so that y, y' is a Lagrangian frame
    y.block(dX).setIdentity();
    for (double E: energies) {
        for (bool u: {true, false}) { auto q = s.calculateT(E, u); t.all(q.t); t.all(q.dt); }
        for (double f: {0., 0.25, 0.9, 1.}) for (bool u: {true, false}) { auto q = s.calculateT(E, f * s.h, u); t.all(q.t); t.all(q.dt); }
        if (E == -30 || E == 0) continue;
        for (double f: {-1., 0., 0.3, 1., 2.}) for (double g: {-1., 0., 0.7, 1., 2.}) {
            double a = s.min + f * s.h, b = s.min + g * s.h;
            auto q = s.propagate(E, y, a, b);
            t.all(q.first.data);
            t(q.second);
            t.all(s.propagateColumn(E, y, a, b).data);
            t.all(s.propagatePsi(E, Eigen::MatrixXd::Identity(n, n), a, b));
        }
    }
    return t.s;
}

static std::string dir(Direction d) { return d == none ? "none" : d == forward ? "forward" : "backward"; }

static Eigen::MatrixXd matrixV(const std::string &k, double x) {
    if (k == "one") { Eigen::MatrixXd m(1, 1); m << x * x - 3; return m; }
    if (k == "three") { Eigen::MatrixXd m(3, 3); m << x, 1, 0, 1, 2 * x * x, x, 0, x, 5 - x; return m; }
    Eigen::MatrixXd m(2, 2);
    if (k == "constant") m << 3, 1, 1, 3;
    else if (k == "diagonal") m << x, 0, 0, 9 - x * x;
    else m << std::cos(x), 0.5 * x, 0.5 * x, 3 + x * x;
    return m;
}

template<typename Sec, typename New>
static void histories(mc::Ctx &c, New fresh) {
    static const std::vector<Direction> ds{none, forward, backward};
    Direction d = ds[c.choose("built", 3)];
    c.trail.back().label = dir(d);
    c.shard();
    auto &want = c.memo([&] { // newly built, by direction (none is only compared after it got one)
        std::array<std::string, 3> w;
        w[1] = everything(*fresh(forward));
        w[2] = everything(*fresh(backward));
        return w;
    });
    int n = (int) c.choose("changes", c.thorough ? 7 : 5);
    auto s = fresh(d);
    for (int i = 0; i < n; ++i) {
        d = ds[c.choose("to", 3)];
        c.trail.back().label = dir(d);
        s->setDirection(d);
        c.check(s->direction == d, "direction", "the direction is %d", (int) s->direction);
    }
    if (d == none) { // any direction can follow
        auto t = fresh(none);
        for (size_t i = 0; i < s->vs.size(); ++i) { Text a, b; a(0); b(0); if constexpr (std::is_same_v<Sec, S>) { a(s->vs[i]); b(t->vs[i]); } else { a.all(s->vs[i]); b.all(t->vs[i]); } same(c, a.s, b.s, "history", "coefficients without direction"); }
        s->setDirection(forward);
        same(c, everything(*s), want[1], "history", "without direction, then forward");
        return;
    }
    auto got = everything(*s);
    c.outcome(got);
    c.state(got);
    same(c, got, want[d == forward ? 1 : 2], "history", "after " + std::to_string(n) + " changes");
}

static void execution(mc::Ctx &c) {
    std::string type = c.pick("type", std::vector<std::string>{"scalar", "matrix"});
    std::vector<std::pair<double, double>> is{{0, 1}, {-0.3, 0.2}, {2, 2.05}, {1, 1 + 1e-6}, {0, 1e-13}, {-1.5, -0.5}};
    auto iv = c.pick<std::pair<double, double>>("interval", is, [](const std::pair<double, double> &p) { return mc::strf("[%g,%g]", p.first, p.second); });
    double a = iv.first, b = iv.second;
    if (type == "scalar") {
        std::string k = c.pick("potential", std::vector<std::string>{"zero", "x2", "slope-20", "mathieu", "step", "doublewell"});
        std::string mode = c.pick("mode", std::vector<std::string>{"history", "flow"});
        auto P = prob(k, std::min(a, -1.), std::max(b, 2.5));
        auto f = P.fn<double>();
        auto &ms = c.memo([&] { return std::make_unique<MS>(f, std::min(a, -1.), std::max(b, 2.5), 1e-8, sector_builder::UniformSectorBuilder<MS>(3)); });
        auto fresh = [&](Direction d) { return std::make_unique<S>(ms.get(), a, b, d); };
        if (mode == "history") return histories<S>(c, fresh);
        if (k == "step") throw mc::Skip(); // the formulas do not apply to a jump inside a sector
        // the flow: both directions are the same, positions outside count as the border, steps compose and go back
        double E = c.pick("E", energies);
        Direction d = c.choose("direction", 2) ? backward : forward;
        c.trail.back().label = dir(d);
        c.shard();
        auto s = fresh(d);
        s->v0Match = s->vs[0] - 1;
        YD y;
        int v = (int) c.choose("start", 3);
        if (v == 0) y.data << 0, 1, 0, 0; else if (v == 1) y.data << 1, 0, 0, 0.3; else y.data << 1, -2, 0.5, 0.25;
        auto ps = positions(a, b);
        double p = ps[c.choose("from", ps.size())], q = ps[c.choose("to", ps.size())];
        auto clamp = [&](double x) { return std::min(std::max(x, a), b); };
        auto r = s->propagate<true>(E, y, p, q);
        auto rc = s->propagate<true>(E, y, clamp(p), clamp(q));
        {
            Text x, z;
            x.all(r.first.data); x.all(r.second); z.all(rc.first.data); z.all(rc.second);
            same(c, x.s, z.s, "outside", mc::strf("from %.17g to %.17g", p, q));
        }
        // a matrix built for all steps
        auto t = s->calculateT(E, 0.6 * (b - a));
        double cond = t.t.norm() * t.t.norm() + s->calculateT(E).t.squaredNorm();
        double W = 1 + std::sqrt(std::fabs(E) + 60); // units of y'
        auto sz = [&](const YD &u) { return std::fabs(u.data[0]) * W + std::fabs(u.data[1]) + std::fabs(u.data[2]) * W + std::fabs(u.data[3]); };
        double tol = 3e-13 + 3 * s->error();
        if (d == forward) c.near(t.t.determinant(), 1, tol * cond, "determinant", "det t");
        // derivative of the determinant
        Eigen::Matrix2d adj;
        adj << t.t(1, 1), -t.t(0, 1), -t.t(1, 0), t.t(0, 0);
        c.near((adj * t.dt).trace(), 0, tol * cond, "determinant", "d det t");
        auto back = s->propagate<true>(E, r.first, q, p);
        c.near((back.first.data - y.data).norm(), 0, tol * cond * cond * (sz(y) + sz(r.first)), "return", mc::strf("%.17g to %.17g and back", p, q));
        c.near(back.second[0], -r.second[0], 1e-11 * cond * cond, "return angle", "angle back");
        for (double m: ps) {
            auto u = s->propagate<true>(E, y, p, m);
            auto w = s->propagate<true>(E, u.first, m, q);
            c.step(2);
            c.near((w.first.data - r.first.data).norm(), 0, tol * cond * cond * (sz(r.first) + sz(u.first) + sz(y)), "composition", mc::strf("%.17g, %.17g, %.17g", p, m, q));
            c.near(w.second[0] + u.second[0], r.second[0], 1e-11 * cond * cond, "composition of angles", mc::strf("%.17g, %.17g, %.17g", p, m, q));
        }
        auto o = fresh(d == forward ? backward : forward);
        o->v0Match = s->v0Match;
        auto ro = o->propagate<true>(E, y, p, q);
        // one sector that is too long is inaccurate in both directions: only as good as the formulas
        if (b - a < 0.6) {
            c.near((ro.first.data - r.first.data).norm(), 0, (1e-11 + tol) * cond * cond * (sz(r.first) + sz(y)), "direction", mc::strf("the other direction, %.17g to %.17g", p, q));
            c.near(ro.second[0], r.second[0], (1e-9 + tol) * cond * cond, "direction", "angle in the other direction");
        }
        // two solutions at once
        matslise::Y<double, 1, 2> two;
        two.data.col(0) = y.data;
        two.data.col(1) << 2, 1, 0, -1;
        auto r2 = s->propagate<true>(E, two, p, q);
        YD y1;
        y1.data = two.data.col(1);
        auto r1 = s->propagate<true>(E, y1, p, q);
        c.check((r2.first.data.col(0) - r.first.data).norm() <= 1e-13 * sz(r.first) && (r2.first.data.col(1) - r1.first.data).norm() <= 1e-13 * sz(r1.first), "columns", "two columns");
        c.check(std::fabs(r2.second[0] - r.second[0]) <= 1e-11 && std::fabs(r2.second[1] - r1.second[0]) <= 1e-11, "columns", "two angles");
        auto plain = s->propagate<false>(E, y, p, q);
        c.check(plain.data == r.first.data, "without angle", "the solution depends on whether the angle is asked for");
        // the matrices themselves
        auto whole = s->calculateT(E), w1 = s->calculateT(E, s->h), w0 = s->calculateT(E, 0.);
        c.check((whole.t - w1.t).norm() + (whole.dt - w1.dt).norm() <= (s->h < 1e-11 ? 1000 : 1e-10) * s->h, "whole", "the full step is not the step h");
        c.check(w0.t == Eigen::Matrix2d::Identity() && w0.dt.isZero(0), "empty", "no step is not the identity");
        double e = s->error();
        c.check(e >= 0 && std::isfinite(e), "error", "error() = %g", e);
        c.check(s->contains(a) && s->contains(b) && s->contains((a + b) / 2) && !s->contains(a - 1e-9) && !s->contains(b + 1e-9), "contains", "contains");
        auto other = S(ms.get(), a - 0.4, b - 0.4, forward);
        c.check(S::compare(*s, other) == (s->vs[0] < other.vs[0]) && S::compare(other, *s) == (other.vs[0] < s->vs[0]) && !S::compare(*s, *s), "compare", "compare");
    } else {
        std::string k = c.pick("potential", std::vector<std::string>{"one", "constant", "diagonal", "coupled", "three"});
        int how = (int) c.choose("built from", 2);
        int n = k == "one" ? 1 : k == "three" ? 3 : 2;
        auto &ms = c.memo([&] { return std::make_unique<MC>([k](double x) { return matrixV(k, x); }, n, std::min(a, -1.), std::max(b, 2.5), sector_builder::UniformSectorBuilder<MC>(2)); });
        auto fresh = [&](Direction d) {
            if (how == 0) return std::make_unique<SC>(ms.get(), a, b, d);
            // from given coefficients: those of another sector, in its own coordinates turned back
            SC t(ms.get(), a, b, none);
            std::array<Eigen::MatrixXd, MATSCS_N> vs;
            for (int i = 0; i < MATSCS_N; ++i) vs[i] = t.diagonalize * t.vs[i] * t.diagonalize.transpose();
            return std::make_unique<SC>(vs, a, b, d);
        };
        histories<SC>(c, fresh);
    }
}

MC_MAIN(execution)
