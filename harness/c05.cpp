// C05: the Pruefer angle that propagate() and matchingError() return counts the zeros of the solution.
#include "flow.hpp"
using namespace vp;

static const double PI = 3.14159265358979323846;

static void execution(mc::Ctx &c) {
    Dom d = c.pick("domain", domains(c.thorough));
    std::string kind = c.pick("potential", concat(kinds(c.thorough), c.thorough ? std::vector<std::string>{} : std::vector<std::string>{"const300", "narrow", "cubic"}));
    Builder b = c.pick("builder", std::vector<Builder>{AUTO8, uniform(24), AUTO5});
    Prob p = prob(kind, d.a, d.b);
    if (!b.automatic && !p.jumps.empty()) throw mc::Skip();
    if (b.name == "uniform24" && kind == "deepwells" && d.b - d.a > 5) throw mc::Skip();
    auto &ms = c.memo([&] { return b.make(p); });
    auto &es = c.memo([&] {
        auto r = energies(*ms, p, c.thorough);
        auto &sm = *ms->sectors[ms->matchIndex];
        double up = (double) p.P.upper(), L = d.b - d.a;
        for (auto &q: std::vector<Named>{{"mean of match sector", sm.vs[0]}, {"mean of match sector-1e-12", sm.vs[0] - 1e-12}, {"mean of match sector+1", sm.vs[0] + 1},
                                         {"mean of last sector", ms->sectors.back()->vs[0]}, {"mean of last sector+1e-6", ms->sectors.back()->vs[0] + 1e-6}, {"mean of sector 0 + 1.5", ms->sectors[0]->vs[0] + 1.5}})
            if (std::sqrt(std::max(0., up - q.v)) * L < 60) r.push_back(q);
        return r;
    });
    auto &xs = c.memo([&] { return positions(*ms, c.thorough); });
    size_t ei = c.choose("E", es.size());
    double E = es[ei].v;
    c.trail.back().label = es[ei].name;
    c.shard();
    size_t n = xs.size();
    double tol = b.automatic ? (b.tol < 1e-7 ? 1e-6 : 2e-3) : 1e-6;
    static const std::vector<std::array<double, 2>> starts{{0, 1}, {1, 0}, {1, -2}, {-1, -3e-9}, {0, -3}, {1e-4, -1}, {2e-5, 3e-5}, {-20, 7}, {3e-11, 1}, {4e-12, -2}};
    size_t i = c.choose("from", n), j = c.choose("to", n);
    c.trail[c.trail.size() - 2].label = xs[i].name;
    c.trail.back().label = xs[j].name;
    double a = xs[i].v, z = xs[j].v;
    bool forward = a <= z;
    // the excursion inside the end sectors (see c03.cpp) must stay well-conditioned
    double gap = std::sqrt(std::max(0., (double) p.P.upper() - E));
    auto excursion = [&](double from, double to) {
        double w = 0;
        for (auto &s: ms->sectors) {
            if ((from >= s->max && to >= s->max) || (from <= s->min && to <= s->min)) continue;
            double f = std::min(std::max(from, s->min), s->max), t = std::min(std::max(to, s->min), s->max);
            w = std::max(w, s->direction == matslise::Direction::forward ? std::min(f, t) - s->min : s->max - std::max(f, t));
        }
        return std::exp(2 * gap * w);
    };
    double noise = excursion(a, z);
    if (noise > 1e3) throw mc::Skip();
    double wide = std::max(1., std::sqrt(std::fabs(E - (double) p.P.lower())));
    auto &tr = c.memo([&] { // the two fundamental solutions
        std::array<ref::S, 2> r;
        for (int k = 0; k < 2; ++k) r[k] = ref::integrate(p.P, E, {(R) (k == 0), (R) (k == 1), 0, 0}, a, z).u;
        return r;
    });
    double rn = std::sqrt((double) (tr[0].y * tr[0].y + tr[1].y * tr[1].y * wide * wide + tr[0].d * tr[0].d / (wide * wide) + tr[1].d * tr[1].d));
    if (!c.thorough && b.name == "auto1e-5" && (i * 5 + j) % 3) throw mc::Skip();
    if (!c.thorough && b.name == "uniform24" && (i * 5 + j) % 2) throw mc::Skip();
    size_t s = c.choose("start", starts.size());
    matslise::Y<> y;
    y.data << starts[s][0], starts[s][1], 0, 0;
    double ny = std::hypot(y.data[0], y.data[1] / wide);
    auto r = ms->propagate(E, y, a, z);
    double th = r.second;
    c.step();
    c.check(std::isfinite(th), "angle", "angle %g", th);
    c.outcome((uint64_t) llround(th * 1e4));
    c.state(mc::hash(&th, 8));
    std::string txt = mc::strf("angle %.12g = %.9g pi, y=(%.10g,%.10g) -> (%.10g,%.10g), from %.17g to %.17g E=%.17g", th, th / PI, y.data[0], y.data[1], r.first.data[0], r.first.data[1], a, z, E);
    // 1. the angle is that of (y,y') at the target, up to the (positive) scaling of y: same quadrant, same zeros
    {
        double v0 = ms->sectors[ms->matchIndex]->vs[0];
        double sc = E - v0 > 1 ? std::sqrt(E - v0) : 1;
        double want = std::atan2(sc * r.first.data[0], r.first.data[1]);
        double diff = std::remainder(th - want, PI);
        c.near(diff, 0, 1e-5, "angle of the solution", txt);
    }
    // 2. zeros passed
    {
        auto t = ref::integrate(p.P, E, {(R) y.data[0], (R) y.data[1], 0, 0}, a, z);
        double yz = std::fabs((double) t.u.y);
        // ambiguous when y at the target could be zero within the accuracy of the solver
        double eps = tol * noise * rn * ny + 1e-11 * ny * wide;
        bool ambiguous = a != z && yz <= eps;
        // a start exactly on a zero strictly inside a sector: reaching the end the formulas start from and coming back may round the zero away
        bool inside = true;
        for (auto &q: ms->sectors) {
            if (a == q->min || a == q->max) inside = false;
            if (a > q->min && a < q->max && (q->direction == matslise::Direction::forward) != forward) inside = false;
        }
        if (std::fabs(y.data[0]) < 1e-9 && inside && a != z && !ambiguous) {
            int lib = forward ? (int) std::floor(th / PI) : -(int) std::ceil(th / PI) + 1;
            c.check(std::abs(lib - t.zeros) <= 1, "zeros", "%d zeros by the angle, %d zeros really; %s", lib, t.zeros, txt.c_str());
            ++c.counters["zero_start_inside_sector"];
        } else if (!ambiguous) {
            int lib = forward ? (int) std::floor(th / PI) : -(int) std::ceil(th / PI) + 1;
            if (a == z) {
                // the start angle lies in [0,pi)
                c.check(y.data[0] == 0 ? std::fabs(std::remainder(th, PI)) < 1e-6 : th > 0 && th < PI, "start angle", "%s", txt.c_str());
            } else
                c.check(lib == t.zeros, "zeros", "%d zeros by the angle, %d zeros really; %s", lib, t.zeros, txt.c_str());
            ++c.counters["zero_counts"];
        } else
            ++c.counters["ambiguous_end"];
    }
    // 3. the angle does not depend on the scale or sign of the solution
    if (s == 2) {
        for (double f: {-3., 1e-6, -1.}) {
            matslise::Y<> q;
            q.data << f * y.data[0], f * y.data[1], 0, 0;
            double t2 = ms->propagate(E, q, a, z).second;
            c.step();
            c.near(t2, th, 1e-6 * noise * (1 + std::fabs(th)), "scale", mc::strf("factor %g ", f) + txt);
        }
        // two columns
        matslise::Y<double, 1, 2> two;
        two.data.col(0) = y.data;
        two.data.col(1) << 0, -3, 0, 0;
        matslise::Y<> o;
        o.data << 0, -3, 0, 0;
        auto t2 = ms->propagate<2>(E, two, a, z).second;
        double t3 = ms->propagate(E, o, a, z).second;
        c.step(2);
        c.near(t2[0], th, 1e-6 * (1 + std::fabs(th)), "columns", txt);
        c.near(t2[1], t3, 1e-6 * (1 + std::fabs(t3)), "columns", txt);
    }
    // 4. additive: whatever intermediate stop
    if (s <= 2 && (c.thorough || (i * n + j) % 5 == 0))
        for (size_t k = 0; k < n; ++k) {
            double m = xs[k].v;
            if ((m < a && m < z) || (m > a && m > z) || m == a || m == z) continue;
            if (excursion(a, m) > 1e3 || excursion(m, z) > 1e3) continue;
            auto h1 = ms->propagate(E, y, a, m);
            auto h2 = ms->propagate(E, h1.first, m, z);
            c.step(2);
            double f = std::max(excursion(a, m), excursion(m, z));
            double am = std::hypot(h1.first.data[0] * wide, h1.first.data[1]), az = std::hypot(h2.first.data[0] * wide, h2.first.data[1]);
            // skip stops at which y vanishes within the accuracy: their angle sits on a multiple of pi
            auto mid = ref::integrate(p.P, E, {(R) y.data[0], (R) y.data[1], 0, 0}, a, m).u;
            if (std::fabs((double) mid.y) * wide < tol * 10 * f * am || am < 1e-6 * ny || az < 1e-4 * am || az < 1e-4 * ny) continue;
            double whole = forward ? PI * std::floor(h1.second / PI) + h2.second : PI * (std::ceil(h1.second / PI) - 1) + h2.second;
            c.near(std::remainder(whole - th, PI), 0, 200 * tol * f * noise * (rn + 1) * ny * wide / az + 1e-6, "additive mod pi", txt + mc::strf(" via %.17g", m));
            if (std::fabs(h2.first.data[0]) * wide > tol * 100 * f * noise * az) c.near(whole, th, 0.6 * PI, "additive", txt + mc::strf(" via %.17g: %.12g", m, whole));
        }
    // 5. the mismatch of the angle between the two ends counts eigenvalues
    if (i == 0 && j == 1) {
        auto bl = bcs(c.thorough);
        for (auto &l: bl) for (auto &rr: bl) {
            auto me = ms->matchingError(E, l.Y(), rr.Y());
            c.step();
            double w = (b.automatic ? (b.tol < 1e-7 ? 2e-6 : 3e-3) : 3e-4) * (1 + std::fabs(E));
            int lo = ref::count(p.P, E - w, l.r(), rr.r()), hi = ref::count(p.P, E + w, l.r(), rr.r());
            int got = (int) std::ceil(std::get<2>(me) / PI);
            if (got < 0) got = 0;
            c.check(lo <= got && got <= hi, "eigenvalue count", "left %s right %s: the mismatch %.9g pi counts %d eigenvalues below %.12g, really %d..%d", l.name.c_str(), rr.name.c_str(), std::get<2>(me) / PI, got, E, lo, hi);
            // error and derivative: the Wronskian of both sides at the matching point
            double x = ms->sectors[ms->matchIndex]->max;
            auto L = ms->propagate(E, l.Y(), d.a, x).first.data, Rt = ms->propagate(E, rr.Y(), d.b, x).first.data;
            double e = L[1] * Rt[0] - Rt[1] * L[0], de = L[3] * Rt[0] + L[1] * Rt[2] - Rt[3] * L[0] - Rt[1] * L[2];
            double se = std::fabs(L[1] * Rt[0]) + std::fabs(Rt[1] * L[0]), sd = std::fabs(L[3] * Rt[0]) + std::fabs(L[1] * Rt[2]) + std::fabs(Rt[3] * L[0]) + std::fabs(Rt[1] * L[2]);
            c.near(std::fabs(std::get<0>(me)), std::fabs(e), 1e-11 * se, "matching error");
            c.near(std::fabs(std::get<1>(me)), std::fabs(de), 1e-11 * sd, "matching derivative");
        }
    }
}

MC_MAIN(execution)
