// C24: every composition of the symmetries of the equation (mirror, scale, translate, add a constant, rescale the conditions;
// for coupled conditions also rotating the period; for Sturm-Liouville problems also multiplying the coefficients) changes
// indices not at all and eigenvalues, angles and eigenfunctions as the symmetry prescribes.
#include "periodic.hpp"
#include "slref.hpp"
#include "matslise/liouville.h"
using namespace vp;
using namespace matslise;

static const double TAU = 3.14159265358979323846;

struct G { // x -> (mirror ? -x : x) * s + t, V -> V/s^2 + v, E -> E/s^2 + v
    bool mirror;
    double s, t, v;

    double x(double q) const { return (mirror ? -q : q) * s + t; }

    double E(double e) const { return e / (s * s) + v; }

    std::string name() const { return mc::strf("x'=%s%gx+%g V'=V/%g^2+%g", mirror ? "-" : "", s, t, s, v); }

    double slope() const { return (mirror ? -1 : 1) / s; } // dy/dx' = slope * dy/dx
};

static ref::Pot moved(const ref::Pot &P, const G &g) {
    ref::Pot r = g.mirror ? P.mirrored() : P;
    for (auto &q: r.p) {
        q.a = q.a * g.s + g.t;
        q.b = q.b * g.s + g.t;
        q.x0 = q.x0 * g.s + g.t;
        R f = 1 / ((R) g.s * g.s);
        for (auto &k: q.c) { k *= f; f /= g.s; }
        q.c[0] += g.v;
        q.s9.clear();
    }
    // the ends of the pieces as the solver sees them
    for (auto &q: r.p) { q.a = (double) q.a; q.b = (double) q.b; }
    return r;
}

static Prob moved(const Prob &p, const G &g) {
    Prob r{p.name, moved(p.P, g), {}};
    for (size_t i = 1; i < r.P.p.size() && !p.jumps.empty(); ++i) r.jumps.push_back((double) r.P.p[i].a);
    return r;
}

static BC moved(const BC &b, const G &g, double f) { return {b.name, b.y * f, b.d * g.slope() * f}; }

static G element(mc::Ctx &c, bool canMirror = true) {
    G g;
    g.mirror = canMirror && c.flag("mirror");
    g.s = c.pick("scale", c.thorough ? std::vector<double>{1, 2, 0.25, 3, -0.} : std::vector<double>{1, 2, 0.25});
    if (g.s == 0) g.s = 0.7;
    g.t = c.pick("translate", c.thorough ? std::vector<double>{0, 0.3, -17, 100} : std::vector<double>{0, 0.3, -17});
    g.v = c.pick("shift", c.thorough ? std::vector<double>{0, 7, -40, 1000} : std::vector<double>{0, 7, -40});
    return g;
}

static double accuracy(const Builder &b) { return !b.automatic ? 2e-6 : b.tol < 1e-7 ? 2e-7 : 1e-4; }

typedef std::vector<std::pair<int, double>> Ev;

// two lists of eigenvalues, the second one of the transformed problem
static void compare(mc::Ctx &c, const Ev &a, const Ev &b, const G &g, double rel, const char *key, const std::string &t) {
    c.check(a.size() == b.size(), key, "%zu eigenvalues became %zu, %s %s", a.size(), b.size(), g.name().c_str(), t.c_str());
    for (size_t i = 0; i < a.size(); ++i) {
        c.check(a[i].first == b[i].first, key, "index %d became %d, %s %s", a[i].first, b[i].first, g.name().c_str(), t.c_str());
        double want = g.E(a[i].second);
        c.near(b[i].second, want, rel * (1 + std::fabs(b[i].second)) + rel * (1 + std::fabs(a[i].second)) / (g.s * g.s), key, mc::strf("index %d, %s %s", a[i].first, g.name().c_str(), t.c_str()));
    }
}

typedef AbstractMatslise<double>::Eigenfunction EF;

static void compareFunctions(mc::Ctx &c, const EF &f, const EF &h, const G &g, double a, double b, double k0, double tol, const std::string &t) {
    std::vector<double> xs;
    for (double q: {0., 0.03, 0.17, 0.33, 0.5, 0.61, 0.77, 0.94, 1.}) xs.push_back(q == 1. ? b : a + q * (b - a));
    double big = 0, sg = 0;
    for (double x: xs) {
        auto v = f(x), w = h(std::min(std::max(g.x(x), std::min(g.x(a), g.x(b))), std::max(g.x(a), g.x(b))));
        big = std::max(big, std::max(std::fabs(v[0]), std::fabs(v[1]) / k0));
        sg += v[0] * w[0] + v[1] * w[1] * g.s * g.s * (g.mirror ? -1 : 1) / (k0 * k0);
    }
    sg = sg > 0 ? 1 : -1;
    for (double x: xs) {
        auto v = f(x), w = h(g.x(x));
        std::string u = t + mc::strf(" x=%.12g: (%.10g,%.10g) became (%.10g,%.10g), %s", x, v[0], v[1], w[0], w[1], g.name().c_str());
        c.near(sg * w[0] * std::sqrt(g.s), v[0], tol * big, "eigenfunction", u);
        c.near(sg * w[1] * std::sqrt(g.s) / g.slope(), v[1], 3 * tol * big * k0, "derivative of the eigenfunction", u);
    }
    c.step(18);
}

// how much rounding and the error of E move the function at the matching point (see C06)
static double sensitivity(const Matslise<double> &ms, const ref::Pot &P, const BC &l, const BC &r, double E, double eps) {
    double sens = 0, xm = ms.sectors[ms.matchIndex]->max, top[2] = {0, 0}, from[2] = {ms.domain.min, ms.domain.max};
    double om = std::sqrt(std::max(1., E - (double) P.lower()));
    ref::S w[2];
    for (int side = 0; side < 2; ++side) {
        const BC &bc = side ? r : l;
        w[side] = ref::integrate(P, E, {bc.y, bc.d, 0, 0}, from[side], xm, [&](R, const ref::S &u) { top[side] = std::max(top[side], std::fabs((double) u.y)); }).u;
    }
    R s = fabsl(w[0].y) + fabsl(w[1].y) > fabsl(w[0].d) + fabsl(w[1].d) ? w[0].y / w[1].y : w[0].d / w[1].d;
    double big = std::max(top[0], (double) fabsl(s) * top[1]);
    for (int side = 0; side < 2; ++side)
        sens = std::max(sens, eps * (1 + std::fabs(E)) * (side ? (double) fabsl(s) : 1.) * std::hypot((double) w[side].ye, (double) w[side].de / om) / big);
    for (auto &q: ms.sectors) sens = std::max(sens, 1e-15 * std::exp(2 * (q->max - q->min) * std::sqrt(std::max(0., q->vs[0] - E))));
    return sens;
}

static void full(mc::Ctx &c) {
    Dom d = c.pick("domain", domains(c.thorough));
    std::string kind = c.pick("potential", concat(kinds(c.thorough), c.thorough ? std::vector<std::string>{} : std::vector<std::string>{"cubic", "comb"}));
    Builder b = c.pick("builder", std::vector<Builder>{AUTO8, uniform(24), AUTO5});
    Prob p = prob(kind, d.a, d.b);
    if (!b.automatic && !p.jumps.empty()) throw mc::Skip();
    if (b.name == "uniform24" && kind == "deepwells" && d.b - d.a > 5) throw mc::Skip();
    c.shard();
    auto &ms = c.memo([&] { return b.make(p); });
    auto &known = c.memo([] { return std::map<std::string, Ev>(); });
    G g = element(c);
    if (!c.thorough && b.tol > 1e-7 && g.t != 0 && g.v != 0) throw mc::Skip();
    auto &q = c.memo([&] { return moved(p, g); });
    auto &mt = c.memo([&] { return b.make(q); });
    BC l = c.pick("left", bcs(c.thorough)), r = c.pick("right", bcs(c.thorough));
    if (!c.thorough && (c.trail[c.trail.size() - 1].v + c.trail[c.trail.size() - 2].v) % 2) throw mc::Skip();
    double fl = 1, fr = 1;
    static const double fs[][2] = {{1, 1}, {-1, 1}, {1e-4, -30}};
    size_t k = c.choose("factors of the conditions", 3);
    fl = fs[k][0];
    fr = fs[k][1];
    BC L = moved(g.mirror ? r : l, g, fl), Rr = moved(g.mirror ? l : r, g, fr);
    double rel = accuracy(b);
    std::string t = "E";
    auto ask = [&](const Matslise<double> &m, const BC &x, const BC &y) {
        Ev v = m.eigenvaluesByIndex(0, 7, x.Y(), y.Y()), u = m.eigenvaluesByIndex(25, 26, x.Y(), y.Y());
        v.insert(v.end(), u.begin(), u.end());
        return v;
    };
    // the answers for the original problem are computed once
    auto &base = known[l.name + "/" + r.name];
    if (base.empty()) base = ask(*ms, l, r);
    Ev v = ask(*mt, L, Rr);
    c.step(2);
    compare(c, base, v, g, rel, "index request", "");
    // windows
    for (auto &w: std::vector<std::pair<int, int>>{{1, 4}, {0, 5}}) {
        auto mid = [&](int i) { return i == 0 ? base[0].second - 2 - (base[1].second - base[0].second) : (base[i - 1].second + base[i].second) / 2; };
        auto room = [&](int i) { return i == 0 || base[i].second - base[i - 1].second > 1e-2 * (1 + std::fabs(base[i].second)) * std::max(1., g.s * g.s); };
        if (!room(w.first) || !room(w.second)) continue;
        if (w.first == 0 && std::sqrt(std::max(0., (double) p.P.upper() - mid(0))) * (d.b - d.a) > 250) continue;
        Ev y = mt->eigenvalues(g.E(mid(w.first)), g.E(mid(w.second)), L.Y(), Rr.Y());
        compare(c, Ev(base.begin() + w.first, base.begin() + w.second), y, g, rel, "window", mc::strf("[%.12g,%.12g]", g.E(mid(w.first)), g.E(mid(w.second))));
        c.step();
        // the matching angle counts
        double th = std::get<2>(mt->matchingError(g.E(mid(w.second)), L.Y(), Rr.Y())) / TAU;
        c.check((int) std::ceil(th) == w.second, "matching angle", "%.12g at E=%.12g with %d eigenvalues below, %s", th, g.E(mid(w.second)), w.second, g.name().c_str());
    }
    // propagation over the whole domain and half of it, both ways
    for (double e: {base[2].second + 0.3, base[7].second * 2 + 10}) {
        double growth = std::sqrt(std::max(0., (double) p.P.upper() - e)) * (d.b - d.a);
        if (growth > 6) continue;
        double xs[3] = {d.a, d.a + 0.43 * (d.b - d.a), d.b}, om = std::sqrt(std::max(1., e - (double) p.P.lower()));
        double xt[3] = {g.mirror ? mt->domain.max : mt->domain.min, g.x(xs[1]), g.mirror ? mt->domain.min : mt->domain.max};
        double pt = b.automatic ? (b.tol < 1e-7 ? 2e-7 : 1e-4) : 1e-6;
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (i != j) {
            auto y = ms->propagate(e, l.Y(), xs[i], xs[j]);
            auto z = mt->propagate(g.E(e), moved(l, g, fl).Y(), xt[i], xt[j]);
            c.step(2);
            double sc = std::hypot(y.first.data[0], y.first.data[1] / om) * std::exp(growth);
            std::string u = mc::strf("E=%.12g from %.12g to %.12g: (%.10g,%.10g) became (%.10g,%.10g), %s", e, xs[i], xs[j], y.first.data[0], y.first.data[1], z.first.data[0], z.first.data[1], g.name().c_str());
            c.near(z.first.data[0] / fl, y.first.data[0], pt * sc, "propagate", u);
            c.near(z.first.data[1] / fl / g.slope(), y.first.data[1], pt * sc * om, "propagate", u);
            // the derivatives with respect to E: dy/dE' = s^2 dy/dE
            double se = std::hypot(y.first.data[2], y.first.data[3] / om) * std::exp(growth) + sc * (d.b - d.a) / om;
            c.near(z.first.data[2] / fl / (g.s * g.s), y.first.data[2], pt * se, "propagate dE", u);
            c.near(z.first.data[3] / fl / g.slope() / (g.s * g.s), y.first.data[3], pt * se * om, "propagate dE", u);
            // angles: mirrored ones are pi minus the original; the number of half turns is the same in every scaling
            double th = y.second / TAU, tt = g.mirror ? 1 - z.second / TAU : z.second / TAU;
            double off = std::fabs(th - std::round(th)), lim = 1e-3 + std::exp(growth) * pt;
            if (off > lim * om * 4) c.check(std::floor(th) == std::floor(tt), "angle", "%.10g pi became %.10g pi, %s", th, z.second / TAU, u.c_str());
            else ++c.counters["angle_too_close_to_a_multiple_of_pi"];
            if (g.s == 1 && off > lim * om * 4 && ms->sectors[0]->v0Match - mt->sectors[0]->v0Match == -g.v) c.near(tt, th, lim * om, "angle value", u);
        }
    }
    // eigenfunctions
    if (k == 2 || c.thorough) for (int n: {0, 3, 5}) {
        double E = base[n].second, gap = std::fabs(base[n + 1].second - E);
        if (n) gap = std::min(gap, std::fabs(E - base[n - 1].second));
        double Et = v[n].second;
        double loose = 1 + 0.03 * (1 + std::fabs(E) + (1 + std::fabs(Et)) * g.s * g.s) / (gap + 1e-300), tol = (!b.automatic ? 3e-5 : b.tol < 1e-7 ? 2e-6 : 1e-3);
        if (tol * loose > 0.02) { ++c.counters["near_degenerate"]; continue; }
        double eps = b.tol < 1e-7 ? 1e-10 : 1e-7;
        if (sensitivity(*ms, p.P, l, r, E, eps) > tol || sensitivity(*mt, q.P, L, Rr, Et, eps) > tol) { ++c.counters["beyond_a_barrier"]; continue; }
        double k0 = std::sqrt(std::max(1., E - (double) p.P.lower()));
        for (auto &z: {std::make_pair(&l, E)}) k0 = std::max(k0, std::min(40., std::fabs(z.first->d) + 1));
        auto f = ms->eigenfunction(E, l.Y(), r.Y(), n), h = mt->eigenfunction(Et, L.Y(), Rr.Y(), n);
        compareFunctions(c, *f, *h, g, d.a, d.b, k0, tol * loose, mc::strf("index %d E=%.12g", n, E));
        ++c.counters["functions compared"];
    }
    c.outcome((uint64_t) llround(v[0].second * 1e4));
    c.state(mc::hash(mc::strf("%.8g %.8g", base[0].second, v[0].second)));
}

static void half(mc::Ctx &c) {
    double w = c.pick("xmax", std::vector<double>{1, 5, (double) ref::PI, 0.2});
    std::string kind = c.pick("potential", std::vector<std::string>{"zero", "const-6", "x2", "mathieu", "doublewell", "hill", "narrow"});
    Builder b = c.pick("builder", std::vector<Builder>{AUTO8, uniform(12), AUTO5});
    Prob p = prob(kind, -w, w);
    c.shard();
    auto make = [&](const Prob &p) {
        double w = (double) p.P.max();
        auto V = p.fn<double>();
        if (!b.automatic) return std::make_unique<MatsliseHalf<double>>(V, w, b.tol, sector_builder::UniformSectorBuilder<Matslise<double>>(b.n));
        return std::make_unique<MatsliseHalf<double>>(V, w, b.tol, sector_builder::AutomaticSectorBuilder<Matslise<double>>{b.tol});
    };
    auto &ms = c.memo([&] { return make(p); });
    G g{false, 1, 0, 0};
    g.s = c.pick("scale", std::vector<double>{1, 2, 0.25, 3});
    g.v = c.pick("shift", std::vector<double>{0, 7, -40});
    auto &q = c.memo([&] { return moved(p, g); });
    auto &mt = c.memo([&] { return make(q); });
    BC s = c.pick("side", bcs(c.thorough));
    if (std::fabs(s.d) > 10 * std::fabs(s.y) && s.y != 0 && w > 1) throw mc::Skip();
    double f = c.pick("factor of the condition", std::vector<double>{1, -1, 1e-4});
    BC S = moved(s, g, f);
    Ev base = ms->eigenvaluesByIndex(0, 8, s.Y()), v = mt->eigenvaluesByIndex(0, 8, S.Y());
    c.step(2);
    compare(c, base, v, g, b.automatic ? accuracy(b) : 1e-4, "half-range", "");
    for (int n: {0, 1, 4, 5}) {
        double E = base[n].second, gap = std::fabs(base[n + 1].second - E);
        if (n) gap = std::min(gap, std::fabs(E - base[n - 1].second));
        double loose = 1 + 0.03 * (1 + std::fabs(E) + (1 + std::fabs(v[n].second)) * g.s * g.s) / (gap + 1e-300), tol = !b.automatic ? 3e-5 : b.tol < 1e-7 ? 2e-6 : 1e-3;
        if (tol * loose > 0.02) { ++c.counters["near_degenerate"]; continue; }
        BC o{"", n % 2 ? 0. : 1., n % 2 ? 1. : 0.};
        double eps = b.tol < 1e-7 ? 1e-10 : 1e-7;
        auto hp = [](const ref::Pot &P) { ref::Pot h; for (auto &z: P.p) if (z.b > 0) { h.p.push_back(z); if (z.a < 0) h.p.back().a = 0; } return h; };
        if (sensitivity(*ms->ms, hp(p.P), o, s, E, eps) > tol || sensitivity(*mt->ms, hp(q.P), o, S, v[n].second, eps) > tol) { ++c.counters["beyond_a_barrier"]; continue; }
        auto y = ms->eigenfunction(E, s.Y(), n), z = mt->eigenfunction(v[n].second, S.Y(), n);
        double k0 = std::max(std::sqrt(std::max(1., E - (double) p.P.lower())), std::fabs(s.d) + 1);
        compareFunctions(c, *y, *z, g, -w, w, k0, tol * loose, mc::strf("half-range index %d E=%.12g", n, E));
        G m{true, 1, 0, 0}; // and the parity
        compareFunctions(c, *y, *y, m, -w, w, k0, 1e-10, mc::strf("parity of index %d", n));
    }
    c.outcome((uint64_t) llround(v[0].second * 1e4));
    c.state(mc::hash(mc::strf("%.8g %.8g", base[0].second, v[0].second)));
}

static void periodic(mc::Ctx &c) {
    Dom d = c.pick("domain", domains(c.thorough));
    std::string kind = c.pick("potential", std::vector<std::string>{"zero", "x2", "mathieu", "step", "slope-20", "hill", "comb"});
    Builder b = c.pick("builder", std::vector<Builder>{AUTO8, AUTO5});
    Prob p = prob(kind, d.a, d.b);
    if (d.b - d.a > 5 && kind == "x2") throw mc::Skip();
    Coupling k = c.pick("K", couplings(c.thorough));
    c.shard();
    auto flat = [](const std::vector<std::tuple<int, double, int>> &a) {
        Ev v;
        for (auto &e: a) for (int i = 0; i < std::get<2>(e); ++i) v.push_back({std::get<0>(e) + i, std::get<1>(e)});
        return v;
    };
    auto ask = [&](const PeriodicMatslise<double> &m) {
        Ev v = flat(m.eigenvaluesByIndex(0, 7));
        while (v.size() > 7) v.pop_back();
        return v;
    };
    auto &base = c.memo([&] { return ask(*makePeriodic(p, b, k, p.fn<double>())); });
    G g = element(c);
    if (!c.thorough && b.tol > 1e-7 && g.t != 0 && g.v != 0) throw mc::Skip();
    double rot = (k.name == "I" || k.name == "-I") ? c.pick("rotate", std::vector<double>{0, 0.3, 0.71}) : 0.;
    Prob q = p;
    if (rot > 0) { // the period starts somewhere else
        R at = p.P.min() + rot * (p.P.max() - p.P.min()), L = p.P.max() - p.P.min();
        ref::Pot n;
        for (auto &z: p.P.p) if (z.b > at) { n.p.push_back(z); n.p.back().s9.clear(); if (z.a < at) n.p.back().a = (double) at; }
        for (auto z: p.P.p) if (z.a < at) { z.b = std::min<R>(z.b, (double) at); z.a += L; z.b += L; z.x0 += L; z.s9.clear(); n.p.push_back(z); }
        for (auto &z: n.p) { z.a = (double) (z.a - at + p.P.min()); z.b = (double) (z.b - at + p.P.min()); z.x0 = z.x0 - at + p.P.min(); }
        n.p.front().a = d.a;
        n.p.back().b = d.b;
        for (size_t i = 1; i < n.p.size(); ++i) n.p[i].a = n.p[i - 1].b;
        q.P = n;
        q.jumps.clear();
        for (size_t i = 1; i < n.p.size(); ++i) q.jumps.push_back((double) n.p[i].a);
    }
    q = moved(q, g);
    Eigen::Matrix2d K = k.K(), T;
    T << 1, 0, 0, g.slope();
    Eigen::Matrix2d Kt = g.mirror ? (T * K.inverse() * T.inverse()).eval() : (T * K * T.inverse()).eval();
    Coupling kt{k.name + "'", Kt(0, 0), Kt(0, 1), Kt(1, 0), Kt(1, 1)};
    auto mt = makePeriodic(q, b, kt, q.fn<double>());
    Ev v = ask(*mt);
    c.step();
    double rel = accuracy(b);
    compare(c, base, v, g, rel, "periodic", mc::strf("K=%s rotated by %g", k.name.c_str(), rot));
    auto room = [&](int i) { return base[i].second - base[i - 1].second > 1e-2 * (1 + std::fabs(base[i].second)) * std::max(1., g.s * g.s); };
    for (int i = 1; i < 5; ++i) if (room(i)) for (int j = i + 1; j < 6; ++j) if (room(j)) {
        Ev y = flat(mt->eigenvalues(g.E((base[i - 1].second + base[i].second) / 2), g.E((base[j - 1].second + base[j].second) / 2)));
        compare(c, Ev(base.begin() + i, base.begin() + j), y, g, rel, "periodic window", mc::strf("K=%s rotated by %g", k.name.c_str(), rot));
        c.step();
    }
    c.outcome((uint64_t) llround(v[0].second * 1e4));
    c.state(mc::hash(mc::strf("%.8g %.8g", base[0].second, v[0].second)));
}

static void sturm(mc::Ctx &c) {
    sl::Dom d = c.pick("domain", sl::domains(c.thorough));
    auto pos = sl::positive(c.thorough);
    sl::Fn p = c.pick("p", pos), w = c.pick("w", pos), q = c.pick("q", sl::potentials(c.thorough));
    double tol = c.pick("tolerance", std::vector<double>{1e-8, 1e-5});
    c.shard();
    typedef SturmLiouville<double> SL;
    typedef std::function<double(double)> F;
    F P = p.fn<double>(), Q = q.fn<double>(), W = w.fn<double>();
    auto &s = c.memo([&] { return std::make_unique<SL>(P, Q, W, Domain<double>{d.a, d.b}, tol); });
    std::vector<BC> bb{{"D", 0, 1}, {"N", 1, 0}, {"R+", 1, 1}, {"R-", 2, -1}};
    BC l = c.pick("left", bb), r = c.pick("right", bb);
    if (!c.thorough && (c.trail[c.trail.size() - 1].v + c.trail[c.trail.size() - 2].v) % 2) throw mc::Skip();
    auto &base = c.memo([&] { auto v = s->eigenvaluesByIndex(0, 5, l.Y(), r.Y()); auto u = s->eigenvaluesByIndex(17, 18, l.Y(), r.Y()); v.insert(v.end(), u.begin(), u.end()); return v; });
    // factor: all coefficients; weight: w alone; shift: q + v w
    bool mirror = c.flag("mirror");
    double t = c.pick("translate", std::vector<double>{0, -3.7}), sc = c.pick("scale", std::vector<double>{1, 0.5, 3});
    double all = c.pick("factor of p, q, w", std::vector<double>{1, 10, 0.03}), wf = c.pick("factor of w", std::vector<double>{1, 5}), sh = c.pick("shift", std::vector<double>{0, -11});
    int used = mirror + (t != 0) + (sc != 1) + (all != 1) + (wf != 1) + (sh != 0);
    if (!c.thorough && used > 2) throw mc::Skip();
    auto back = [=](double x) { double y = (x - t) / sc; y = mirror ? -y : y; return std::min(std::max(y, d.a), d.b); };
    F P2 = [=](double x) { return P(back(x)) * all * sc * sc; };
    F W2 = [=](double x) { return W(back(x)) * all * wf; };
    F Q2 = [=](double x) { return all * (Q(back(x)) + sh * W(back(x))); };
    auto x = [=](double y) { return (mirror ? -y : y) * sc + t; };
    double lo = std::min(x(d.a), x(d.b)), hi = std::max(x(d.a), x(d.b));
    auto mt = std::make_unique<SL>(P2, Q2, W2, Domain<double>{lo, hi}, tol);
    double f = used ? -2.5 : 1;
    auto mv = [&](const BC &b) { return BC{b.name, b.y * f, b.d * f * (mirror ? -1 : 1) / sc}; };
    BC L = mv(mirror ? r : l), Rr = mv(mirror ? l : r);
    auto v = mt->eigenvaluesByIndex(0, 5, L.Y(), Rr.Y()), u = mt->eigenvaluesByIndex(17, 18, L.Y(), Rr.Y());
    v.insert(v.end(), u.begin(), u.end());
    c.step(3);
    std::string name = mc::strf("mirror %d translate %g scale %g factor %g weight %g shift %g", mirror, t, sc, all, wf, sh);
    c.check(v.size() == base.size(), "sturm-liouville", "%zu eigenvalues became %zu, %s", base.size(), v.size(), name.c_str());
    for (size_t i = 0; i < v.size(); ++i) {
        c.check(v[i].first == base[i].first, "sturm-liouville", "index %d became %d, %s", base[i].first, v[i].first, name.c_str());
        double rel = 6 * tol + 2e-9;
        c.near(v[i].second * wf, base[i].second + sh, rel * (wf * (1 + std::fabs(v[i].second)) + 1 + std::fabs(base[i].second)), "sturm-liouville", mc::strf("index %d, %s", v[i].first, name.c_str()));
    }
    // functions
    double fnorm = 1 / std::sqrt(sc * all * wf);
    auto a = s->eigenpairsByIndex(0, 3, l.Y(), r.Y()), b2 = mt->eigenpairsByIndex(0, 3, L.Y(), Rr.Y());
    for (int n = 0; n < 3; ++n) {
        double E = base[n].second, gap = std::fabs(base[n + 1].second - E);
        if (n) gap = std::min(gap, std::fabs(E - base[n - 1].second));
        double growth = 0;
        for (int i = 0; i < 64; ++i) { double y = d.a + (d.b - d.a) * (i + 0.5) / 64; growth += std::sqrt(std::max(0., (Q(y) - E * W(y)) / P(y))) * (d.b - d.a) / 64; }
        if (growth > 6) { ++c.counters["functions skipped: decay over the barrier beyond e^6"]; continue; }
        double e = 1e-4 * std::max(1., std::min(500., tol * 2e8)) * (1 + (1 + std::fabs(E)) / gap);
        double big = 0, sg = 0, k0 = 1;
        for (int i = 0; i <= 8; ++i) {
            double y = i == 8 ? d.b : d.a + (d.b - d.a) * i / 8;
            auto A = (*std::get<2>(a[n]))(y), B = (*std::get<2>(b2[n]))(std::min(hi, std::max(lo, x(y))));
            big = std::max(big, std::fabs(A[0]));
            k0 = std::max(k0, std::fabs(A[1]));
            sg += A[0] * B[0];
        }
        sg = sg > 0 ? 1 : -1;
        for (int i = 0; i <= 8; ++i) {
            double y = i == 8 ? d.b : d.a + (d.b - d.a) * i / 8;
            auto A = (*std::get<2>(a[n]))(y), B = (*std::get<2>(b2[n]))(std::min(hi, std::max(lo, x(y))));
            std::string t2 = mc::strf("index %d at %g: (%.10g,%.10g) became (%.10g,%.10g), %s", n, y, A[0], A[1], B[0], B[1], name.c_str());
            c.near(sg * B[0] / fnorm, A[0], e * big, "sturm-liouville function", t2);
            c.near(sg * B[1] / fnorm * sc * (mirror ? -1 : 1), A[1], e * (k0 + big), "sturm-liouville derivative", t2);
        }
        c.step(18);
    }
    c.outcome((uint64_t) llround(v[0].second * 1e4));
    c.state(mc::hash(mc::strf("%.8g %.8g", base[0].second, v[0].second)));
}

static void execution(mc::Ctx &c) {
    std::string solver = c.pick("solver", std::vector<std::string>{"full", "half", "periodic", "sturm-liouville"});
    if (solver == "full") full(c);
    else if (solver == "half") half(c);
    else if (solver == "periodic") periodic(c);
    else sturm(c);
}

MC_MAIN(execution)
