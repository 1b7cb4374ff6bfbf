// C06: eigenfunctions are normalised, satisfy the boundary conditions and the equation, have as many zeros as their
// index says and are orthogonal.
#include "flow.hpp"
using namespace vp;
typedef matslise::AbstractMatslise<double>::Eigenfunction EF;

struct Quad {
    std::vector<double> x, w;
};

static Quad quadrature(const Prob &p, double om) { // composite Gauss, pieces short compared to a wave length, breaking at jumps
    static const double gx[5] = {0.1488743389816312, 0.4333953941292472, 0.6794095682990244, 0.8650633666889845, 0.9739065285171717};
    static const double gw[5] = {0.2955242247147529, 0.2692667193099963, 0.2190863625159820, 0.1494513491505806, 0.0666713443086881};
    Quad q;
    for (auto &pc: p.P.p) {
        int n = std::max(2, (int) std::ceil((double) (pc.b - pc.a) * om / 2));
        for (int i = 0; i < n; ++i) {
            double a = (double) (pc.a + (pc.b - pc.a) * i / n), b = (double) (pc.a + (pc.b - pc.a) * (i + 1) / n), m = (a + b) / 2, h = (b - a) / 2;
            for (int k = 4; k >= 0; --k) { q.x.push_back(m - h * gx[k]); q.w.push_back(h * gw[k]); }
            for (int k = 0; k < 5; ++k) { q.x.push_back(m + h * gx[k]); q.w.push_back(h * gw[k]); }
        }
    }
    return q;
}

static void execution(mc::Ctx &c) {
    Dom d = c.pick("domain", domains(c.thorough));
    std::string kind = c.pick("potential", concat(kinds(c.thorough), c.thorough ? std::vector<std::string>{} : std::vector<std::string>{"const300", "cubic"}));
    Builder b = c.pick("builder", std::vector<Builder>{AUTO8, uniform(24), AUTO5});
    Prob p = prob(kind, d.a, d.b);
    if (!b.automatic && !p.jumps.empty()) throw mc::Skip();
    if (b.name == "uniform24" && kind == "deepwells" && d.b - d.a > 5) throw mc::Skip();
    c.shard();
    auto &ms = c.memo([&] { return b.make(p); });
    BC l = c.pick("left", bcs(c.thorough)), r = c.pick("right", bcs(c.thorough));
    bool direct = c.flag("eigenfunction() with rescaled conditions");
    double L = d.b - d.a;
    double tol = !b.automatic ? 3e-6 : b.tol < 1e-7 ? 1e-6 : 6e-4;
    std::vector<std::tuple<int, double, std::unique_ptr<EF>>> pairs;
    std::vector<std::pair<int, int>> ranges{{0, 6}, {9, 11}, {25, 26}};
    if (c.thorough) ranges.push_back({60, 62});
    for (auto &rg: ranges)
        for (auto &t: ms->eigenpairsByIndex(rg.first, rg.second, l.Y(), r.Y())) pairs.push_back(std::move(t));
    c.step(pairs.size());
    if (direct)
        for (auto &t: pairs) {
            auto ly = l.Y(), ry = r.Y();
            ly.data *= -3;
            ry.data *= 0.01;
            std::get<2>(t) = ms->eigenfunction(std::get<1>(t), ly, ry);
        }
    // distance to the neighbouring eigenvalues: what the accuracy of an eigenfunction depends on
    auto gapOf = [&](double E) {
        double g = 1e300;
        for (auto &rg: ranges) for (auto &t: ms->eigenvaluesByIndex(std::max(0, rg.first - 1), rg.second + 1, l.Y(), r.Y()))
            if (t.second != E) g = std::min(g, std::fabs(t.second - E));
        return g;
    };
    double Emax = std::get<1>(pairs.back());
    double om = std::sqrt(std::max(1., Emax - (double) p.P.lower())) + std::sqrt(std::max(0., (double) p.P.upper() - std::get<1>(pairs[0])));
    if (kind == "const300") om = std::sqrt(std::max(1., Emax - 300)) + 2; // solutions vary on the scale of E-V only
    Quad q = quadrature(p, om + 1 / L);
    std::vector<std::vector<double>> f(pairs.size());
    auto all = bcs(true);
    double xm = ms->sectors[ms->matchIndex]->max;
    for (size_t k = 0; k < pairs.size(); ++k) {
        int idx = std::get<0>(pairs[k]);
        double E = std::get<1>(pairs[k]);
        EF &ef = *std::get<2>(pairs[k]);
        // how much an error in E of 1e-11 (1e-8) changes the function where both sides meet: large when the function lives
        // beyond a barrier as seen from the matching point
        double sens = 0;
        {
            double top[2] = {0, 0}, from[2] = {d.a, d.b};
            ref::S w[2];
            for (int side = 0; side < 2; ++side) {
                BC &bc = side ? r : l;
                auto t = ref::integrate(p.P, E, {bc.y, bc.d, 0, 0}, from[side], xm, [&](R, const ref::S &u) { top[side] = std::max(top[side], std::fabs((double) u.y)); });
                w[side] = t.u;
            }
            R s = fabsl(w[0].y) + fabsl(w[1].y) > fabsl(w[0].d) + fabsl(w[1].d) ? w[0].y / w[1].y : w[0].d / w[1].d;
            double big = std::max(top[0], (double) fabsl(s) * top[1]);
            for (int side = 0; side < 2; ++side)
                sens = std::max(sens, (b.tol < 1e-7 ? 1e-11 : 1e-8) * (1 + std::fabs(E)) * (side ? (double) fabsl(s) : 1.) * std::hypot((double) w[side].ye, (double) w[side].de / om) / big);
            // the same for rounding inside a sector
            for (auto &q: ms->sectors) sens = std::max(sens, 1e-15 * std::exp(2 * (q->max - q->min) * std::sqrt(std::max(0., q->vs[0] - E))));
        }
        if (!(sens < tol)) { ++c.counters["beyond_a_barrier"]; f[k].assign(q.x.size(), 0); continue; }
        std::string t = mc::strf("index %d E=%.12g", idx, E);
        double gap = gapOf(E), loose = 1 + 0.03 * (1 + std::fabs(E)) / (gap + 1e-300);
        if (tol * loose > 0.05) { ++c.counters["near_degenerate"]; f[k].assign(q.x.size(), 0); continue; }
        double n2 = 0, big = 0;
        int zeros = 0, last = 0;
        for (size_t i = 0; i < q.x.size(); ++i) {
            auto v = ef(q.x[i]);
            f[k].push_back(v[0]);
            n2 += q.w[i] * v[0] * v[0];
            big = std::max(big, std::fabs(v[0]));
        }
        c.step(q.x.size());
        c.near(n2, 1, tol * 3 * loose, "norm", t + mc::strf(" gap %.3g", gap));
        // zeros of the numerical function; where it is below its accuracy (deep tunnelling) signs mean nothing
        bool tiny = false;
        for (size_t i = 0; i < q.x.size(); ++i) {
            double v = f[k][i];
            if (std::fabs(v) < 1e-9 * big) { tiny = true; continue; }
            int s = v > 0 ? 1 : -1;
            if (last && s != last) ++zeros;
            last = s;
        }
        if (!tiny && b.tol < 1e-7) { c.check(zeros == idx, "zeros", "%d sign changes, %s", zeros, t.c_str()); ++c.counters["zeros_checked"]; }
        auto fa = ef(d.a), fb = ef(d.b);
        double k0 = std::sqrt(std::max(1., std::fabs(E - (double) p.P.lower())));
        // boundary conditions
        c.near((fa[0] * l.d - fa[1] * l.y) / std::hypot(l.y, l.d), 0, 1e-9 * (big * k0 + std::fabs(fa[1])), "left condition", t);
        c.near((fb[0] * r.d - fb[1] * r.y) / std::hypot(r.y, r.d), 0, 1e-9 * (big * k0 + std::fabs(fb[1])), "right condition", t);
        c.check(std::fabs(fa[0]) + std::fabs(fa[1]) > 0 && std::fabs(fb[0]) + std::fabs(fb[1]) > 0, "trivial", "zero function, %s", t.c_str());
        // the equation: the exact flow from either end reproduces it up to the matching point, where both sides meet
        for (int side = 0; side < 2; ++side) {
            auto v = side ? fb : fa;
            double from = side ? d.b : d.a, at = from;
            for (double g: {0.013, 0.11, 0.21, 0.35, 0.5, 0.62, 0.777, 0.9, 1.}) {
                double x = g == 1. ? xm : from + (xm - from) * g;
                auto v0 = v;
                double sc = big, u[2] = {0, 0};
                for (int k = 0; k < 2; ++k) {
                    auto w = ref::integrate(p.P, E, {(R) (k == 0), (R) (k == 1), 0, 0}, at, x).u;
                    u[0] += (double) (w.y * v0[k]);
                    u[1] += (double) (w.d * v0[k]);
                    sc = std::max(sc, std::hypot((double) w.y, (double) w.d / om) * std::hypot(v0[0], v0[1] / om) * (k ? om : 1));
                }
                at = x;
                v = ef(x);
                double e = std::hypot(v[0] - u[0], (v[1] - u[1]) / om);
                c.near(e, 0, tol * 3 * sc, "equation", t + mc::strf(" side %d x=%.17g got (%.10g,%.10g) want (%.10g,%.10g)", side, x, v[0], v[1], u[0], u[1]));
                c.step();
            }
        }
        for (int h = 0; h < 1; ++h) {
            double e = std::nextafter(xm, d.b + 1);
            if (e <= d.b) {
                auto v0 = ef(std::nextafter(xm, d.a - 1)), v1 = ef(e);
                c.near(std::hypot(v0[0] - v1[0], (v0[1] - v1[1]) / om), 0, tol * 3 * loose * big, "continuity at the matching point", t + mc::strf(" x=%.17g (%.12g,%.12g) and (%.12g,%.12g)", xm, v0[0], v0[1], v1[0], v1[1]));
            }
        }
        // outside the domain
        for (double x: {d.a - 1e-9, d.b + 1e-9, d.a - 7 * L, d.b + 1e6}) {
            auto v = ef(x);
            c.check(v[0] == 0 && v[1] == 0, "outside", "(%g,%g) at x=%.17g outside the domain", v[0], v[1], x);
        }
        c.outcome((uint64_t) llround(E * 1e3) ^ (uint64_t) (idx * 1000003));
        c.state(mc::hash(&E, 8, mc::hash(fa.data(), 16)));
        for (size_t j = 0; j < k; ++j) {
            double s = 0;
            for (size_t i = 0; i < q.x.size(); ++i) s += q.w[i] * f[k][i] * f[j][i];
            double dist = std::fabs(std::get<1>(pairs[j]) - E);
            double o = tol * (1 + (1 + std::fabs(E)) * 0.1 / (dist + 1e-300));
            c.near(s, 0, o, "orthogonality", t + mc::strf(" with index %d E=%.12g", std::get<0>(pairs[j]), std::get<1>(pairs[j])));
        }
    }
}

MC_MAIN(execution)
