// C08: the half-range solver of a symmetric problem gives the spectrum and the eigenfunctions of the full problem.
#include "probs.hpp"
using namespace vp;
using namespace matslise;

static Prob symmetric(const std::string &kind, double w) { // on [-w,w]; pieces break at the origin only where the potential does
    R W = w;
    if (kind == "sstep" || kind == "swell") {
        double v[3] = {kind == "sstep" ? 8. : 0., kind == "sstep" ? 0. : 15., 0};
        double at = 0.4 * w;
        Prob p{kind, {}, {at}};
        p.P.p.push_back(ref::Piece{-W, -at, 0, {v[0]}});
        p.P.p.push_back(ref::Piece{-at, at, 0, {v[1]}});
        p.P.p.push_back(ref::Piece{at, W, 0, {v[0]}});
        return p;
    }
    if (kind == "abs") { // kink at the origin
        Prob p{kind, {}, {}};
        p.P.p.push_back(ref::Piece{-W, 0, 0, {0, -5}});
        p.P.p.push_back(ref::Piece{0, W, 0, {0, 5}});
        return p;
    }
    return prob(kind, -w, w);
}

static void execution(mc::Ctx &c) {
    double w = c.pick("xmax", c.thorough ? std::vector<double>{1, 5, (double) ref::PI, 0.2, 12} : std::vector<double>{1, 5, (double) ref::PI, 0.2});
    std::vector<std::string> ks{"zero", "const-6", "x2", "mathieu", "doublewell", "hill", "sstep", "swell", "abs", "narrow"};
    std::string kind = c.pick("potential", ks);
    Builder b = c.pick("builder", std::vector<Builder>{AUTO8, uniform(12), AUTO5});
    if (!b.automatic && (kind == "sstep" || kind == "swell")) throw mc::Skip();
    if (w > 10 && kind == "x2") throw mc::Skip();
    auto &prb = c.memo([&] { return symmetric(kind, w); });
    Prob p = prb;
    BC s = c.pick("side", bcs(c.thorough));
    if (std::fabs(s.d) > 10 * std::fabs(s.y) && s.y != 0 && w > 1) throw mc::Skip(); // surface states that tunnel through the whole domain
    c.shard();
    auto &ms = c.memo([&] {
        auto V = p.fn<double>();
        if (!b.automatic) return std::make_unique<MatsliseHalf<double>>(V, w, b.tol, sector_builder::UniformSectorBuilder<Matslise<double>>(b.n));
        if (p.jumps.empty() && c.thorough) return std::make_unique<MatsliseHalf<double>>(V, w, b.tol);
        sector_builder::AutomaticSectorBuilder<Matslise<double>> sb{b.tol};
        for (double j: p.jumps) sb.jumps.push_back(j);
        return std::make_unique<MatsliseHalf<double>>(V, w, b.tol, sb);
    });
    auto &full = c.memo([&] { Prob q = p; if (kind == "abs") q.jumps = {0.}; if (p.jumps.size()) q.jumps = {-p.jumps[0], p.jumps[0]}; return AUTO8.make(q); });
    BC l{s.name + "'", s.y, -s.d};
    double rel = !b.automatic ? 1e-4 : b.tol < 1e-7 ? 2e-6 : 1e-3;
    typedef std::vector<std::pair<int, double>> Ev;
    auto txt = [](const Ev &v) { std::string t; for (auto &e: v) t += mc::strf("(%d:%.12g)", e.first, e.second); return t; };
    auto &sp = c.memo([&] { return Spectrum{prb.P, l.r(), s.r(), {}}; });
    auto right = [&](int n, double E) {
        return sp.at(n, E, rel * (1 + std::fabs(E)));
    };
    std::string op = c.pick("query", std::vector<std::string>{"index", "energy", "eigenfunctions"});
    const int N = 7;
    if (op == "index") {
        int lo = (int) c.choose("from", N), hi = lo + (int) c.choose("length", N + 1 - lo + 1);
        bool high = c.flag("shifted by 17");
        if (high) { lo += 17; hi += 17; }
        bool both = c.flag("same condition given for both sides");
        Ev v = both ? ms->eigenvaluesByIndex(lo, hi, s.Y(), s.Y()) : ms->eigenvaluesByIndex(lo, hi, s.Y());
        c.step();
        c.check((int) v.size() == hi - lo, "count", "%d..%d: %s", lo, hi, txt(v).c_str());
        for (int i = 0; i < (int) v.size(); ++i) {
            c.check(v[i].first == lo + i, "index", "%d..%d: %s", lo, hi, txt(v).c_str());
            if (!right(v[i].first, v[i].second)) c.check(false, "value", "index %d is not at %.12g (really %.12Lg): %s", v[i].first, v[i].second, ref::eigenvalue(p.P, l.r(), s.r(), v[i].first), txt(v).c_str());
            c.state(mc::hash(&v[i], sizeof(int)));
        }
        c.outcome(txt(v));
    } else if (op == "energy") {
        auto &g = c.memo([&] {
            std::vector<double> e;
            for (int i = 0; i < 6; ++i) {
                double a = (double) ref::eigenvalue(p.P, l.r(), s.r(), i), z = (double) ref::eigenvalue(p.P, l.r(), s.r(), i + 1);
                if (!i) e.push_back(a - 10 * (1 + std::fabs(a)));
                if (i == 2) e.push_back(a + 4 * rel * (1 + std::fabs(a)));
                if (z - a > 1e-6 * (1 + std::fabs(a))) e.push_back((a + z) / 2);
            }
            return e;
        });
        size_t i = c.choose("Emin", g.size()), j = c.choose("Emax", g.size());
        Ev v = ms->eigenvalues(g[i], g[j], s.Y());
        c.step();
        std::string t = mc::strf("[%.12g,%.12g]: ", g[i], g[j]) + txt(v);
        double wa = rel * (1 + std::fabs(g[i])), wb = rel * (1 + std::fabs(g[j]));
        int lo = ref::count(p.P, g[i] + wa, l.r(), s.r()), hi = ref::count(p.P, g[j] - wb, l.r(), s.r());
        int lo2 = ref::count(p.P, g[i] - wa, l.r(), s.r()), hi2 = ref::count(p.P, g[j] + wb, l.r(), s.r());
        if (g[i] < g[j]) for (int m = lo; m < hi; ++m) {
            bool f = false;
            for (auto &e: v) f |= e.first == m;
            c.check(f, "missing", "%d is missing in %s", m, t.c_str());
        }
        c.check((int) v.size() <= std::max(0, hi2 - lo2), "surplus", "%s", t.c_str());
        for (size_t k = 0; k < v.size(); ++k) {
            c.check(k == 0 || v[k].first == v[k - 1].first + 1, "gap", "%s", t.c_str());
            c.check(right(v[k].first, v[k].second), "value", "index %d is not at %.12g: %s", v[k].first, v[k].second, t.c_str());
        }
        c.outcome(t);
    } else {
        int n = (int) c.choose("index", c.thorough ? 20 : 9);
        auto pr = ms->eigenpairsByIndex(n, n + 1, s.Y());
        c.check(pr.size() == 1 && std::get<0>(pr[0]) == n, "count", "eigenpairsByIndex(%d,%d) has %d entries", n, n + 1, (int) pr.size());
        double E = std::get<1>(pr[0]);
        c.check(right(n, E), "value", "index %d is not at %.12g", n, E);
        auto lib = full->eigenvaluesByIndex(std::max(0, n - 1), n + 2, l.Y(), s.Y());
        double gap = 1e300, Ef = 0;
        for (auto &e: lib) if (e.first == n) Ef = e.second;
        for (auto &e: lib) if (e.first != n) gap = std::min(gap, std::fabs(e.second - Ef));
        double loose = 1 + 0.03 * (1 + std::fabs(E)) / (gap + 1e-300);
        double err = ms->eigenvalueError(E, s.Y(), n), err0 = ms->eigenvalueError(E, s.Y(), s.Y(), n);
        c.check(err == err0 && err >= 0 && err <= 0.1 * rel * (1 + std::fabs(E)) * 10, "error estimate", "eigenvalueError(%.12g)=%g, %g when given both sides", E, err, err0);
        auto &f = *std::get<2>(pr[0]);
        bool unique = gap > 1e-3 * (1 + std::fabs(E));
        auto g2 = ms->eigenfunction(E, s.Y());
        auto g3 = ms->eigenfunction(E, s.Y(), s.Y(), n);
        double tol = (b.automatic ? (b.tol < 1e-7 ? 2e-7 : 1e-4) : 3e-6) * loose;
        if (loose > 300) { ++c.counters["near_degenerate"]; return; }
        auto h = full->eigenfunction(Ef, l.Y(), s.Y(), n);
        double sg = 0, big = 0, k0 = std::sqrt(std::max(1., E - (double) p.P.lower()));
        for (double q: {0.03, 0.21, 0.37, 0.55, 0.71, 0.9, 0.97}) {
            auto v = f(q * w), r = (*h)(q * w);
            sg += v[0] * r[0] + v[1] * r[1] / (k0 * k0);
            big = std::max(big, std::fabs(r[0]));
        }
        sg = sg > 0 ? 1 : -1;
        double sgn2 = 0;
        std::vector<double> xs;
        for (double q: {-1., -0.97, -0.71, -0.5, -0.33, -0.1, -1e-9, 0., 1e-9, 0.1, 0.33, 0.5, 0.71, 0.97, 1.}) xs.push_back(q * w);
        Eigen::ArrayXd xa(xs.size());
        for (size_t i = 0; i < xs.size(); ++i) xa[i] = xs[i];
        auto arr = f(xa);
        c.step(3 * xs.size());
        for (size_t i = 0; i < xs.size(); ++i) {
            double x = xs[i];
            auto v = f(x), r = (*h)(x);
            std::string t = mc::strf("x=%.12g index %d E=%.12g: (%.10g,%.10g), the full problem has (%.10g,%.10g)", x, n, E, v[0], v[1], sg * r[0], sg * r[1]);
            c.near(v[0], sg * r[0], tol * big, "eigenfunction", t);
            c.near(v[1], sg * r[1], tol * big * k0 * 3, "derivative", t);
            c.near(arr(i, 0), v[0], 1e-9 * big, "array", t);
            c.near(arr(i, 1), v[1], 1e-9 * big * k0, "array", t);
            auto m = f(-x);
            double par = n % 2 ? -1 : 1;
            if (x != 0) {
                c.near(m[0], par * v[0], 1e-12 * big, "parity", t);
                c.near(m[1], -par * v[1], 1e-12 * big * k0, "parity", t);
            }
            if (unique) {
                auto v2 = (*g2)(x), v3 = (*g3)(x);
                if (sgn2 == 0 && std::fabs(v[0]) > 0.1 * big) sgn2 = v2[0] * v[0] > 0 ? 1 : -1;
                c.near(std::fabs(v2[0]), std::fabs(v[0]), tol * big, "parity from E", t);
                c.near(v3[0], v[0], 1e-9 * big, "both sides given", t);
                if (sgn2) c.near(v2[0], sgn2 * v[0], tol * big, "parity from E", t);
            }
            c.state(mc::hash(v.data(), 16));
        }
        for (double x: {-w - 1e-9, w + 1e-9, -3 * w}) c.check(f(x)[0] == 0 && f(x)[1] == 0, "outside", "nonzero at %g", x);
        c.outcome((uint64_t) llround(E * 1e3));
    }
}

MC_MAIN(execution)
