// C03: propagation is the exact flow of the Schroedinger equation between any two points of the domain.
// C04 (-DPART=4): the energy derivatives carried along are those of the exact flow.
#include "flow.hpp"
using namespace vp;
#ifndef PART
#define PART 3
#endif

static void execution(mc::Ctx &c) {
    Dom d = c.pick("domain", domains(c.thorough));
    std::string kind = c.pick("potential", concat(kinds(c.thorough), c.thorough ? std::vector<std::string>{} : std::vector<std::string>{"const300", "exp"}));
    Builder b = c.pick("builder", std::vector<Builder>{AUTO8, uniform(24), AUTO5, uniform(3)});
    Prob p = prob(kind, d.a, d.b);
    if (b.name == "uniform24" && kind == "deepwells" && d.b - d.a > 5) throw mc::Skip();
    bool coarse = b.name == "uniform3";
    if (!b.automatic && !p.jumps.empty()) throw mc::Skip();
    if (coarse && kind != "zero" && kind != "const300" && kind != "const-6" && !(kind == "linear" && d.b - d.a < 1.5)) throw mc::Skip();
    auto &ms = c.memo([&] { return b.make(p); });
    auto &es = c.memo([&] { return energies(*ms, p, c.thorough); });
    auto &xs = c.memo([&] { return positions(*ms, c.thorough); });
    size_t ei = c.choose("E", es.size());
    double E = es[ei].v;
    c.trail.back().label = es[ei].name;
    c.shard();
    size_t n = xs.size();
    double om = std::sqrt(std::max<double>(1, std::max(std::fabs(E - (double) p.P.lower()), std::fabs(E - (double) p.P.upper()))));
    struct Pair {
        Transfer t;
        double norm, normE;
    };
    auto &ref = c.memo([&] {
        std::vector<Pair> r;
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j) {
                Pair q{transfer(p.P, E, xs[i].v, xs[j].v), 0, 0};
                auto &k = q.t.c;
                q.norm = std::sqrt(0. + k[0].y * k[0].y + k[1].y * k[1].y * om * om + k[0].d * k[0].d / (om * om) + k[1].d * k[1].d);
                q.normE = std::sqrt(0. + k[0].ye * k[0].ye + k[1].ye * k[1].ye * om * om + k[0].de * k[0].de / (om * om) + k[1].de * k[1].de);
                r.push_back(q);
            }
        return r;
    });
    static const std::vector<std::array<double, 4>> starts{{0, 1, 0, 0}, {1, 0, 0, 0}, {1, -2, 0.5, 3}, {-1e-3, 2e-3, 0, 0}};
    size_t i = c.choose("from", n), j = c.choose("to", n);
    c.trail[c.trail.size() - 2].label = xs[i].name;
    c.trail.back().label = xs[j].name;
    size_t s = c.choose("start", starts.size());
    bool useH = !c.flag("without step formulas");
    matslise::Y<> y;
    y.data << starts[s][0], starts[s][1], starts[s][2], starts[s][3];
    double ny = std::hypot(y.data[0], y.data[1] / om), nyE = std::hypot(y.data[2], y.data[3] / om);
    double tol = coarse ? (kind == "linear" ? 1e-6 : 1e-11) : b.name == "uniform24" ? (c.thorough ? 1e-7 : 1e-8) : b.tol < 1e-7 ? 2e-7 : 5e-4;
    auto out = ms->propagate(E, y, xs[i].v, xs[j].v, useH).first;
    c.step();
    // a sector moves to the end its formulas start from and back: what that excursion amplifies
    double gap = std::sqrt(std::max(0., (double) p.P.upper() - E));
    auto excursion = [&](double from, double to) {
        double w = 0;
        for (auto &s: ms->sectors) {
            if ((from >= s->max && to >= s->max) || (from <= s->min && to <= s->min)) continue;
            double f = std::min(std::max(from, s->min), s->max), t = std::min(std::max(to, s->min), s->max);
            double lo = std::min(f, t), hi = std::max(f, t);
            w = std::max(w, s->direction == matslise::Direction::forward ? lo - s->min : s->max - hi);
        }
        return std::exp(2 * gap * w);
    };
    double noise = excursion(xs[i].v, xs[j].v), hmax = 0;
    if (noise > 1e3) throw mc::Skip(); // that makes the result ill-conditioned
    for (auto &s: ms->sectors) hmax = std::max(hmax, s->max - s->min);
    auto compare = [&](const Eigen::Matrix<double, 4, 1> &got, const Pair &r, const char *key, double extra) {
        auto &k = r.t.c;
        double w0 = (double) (k[0].y * y.data[0] + k[1].y * y.data[1]), w1 = (double) (k[0].d * y.data[0] + k[1].d * y.data[1]);
        double w2 = (double) (k[0].y * y.data[2] + k[1].y * y.data[3] + k[0].ye * y.data[0] + k[1].ye * y.data[1]);
        double w3 = (double) (k[0].d * y.data[2] + k[1].d * y.data[3] + k[0].de * y.data[0] + k[1].de * y.data[1]);
        double L = std::fabs(xs[j].v - xs[i].v);
        if (PART == 3) {
            double t = (tol * noise + 3e-12 * om) * extra * r.norm * ny + 1e-300;
            std::string txt = mc::strf("(y,y')=(%.12g,%.12g) want (%.12g,%.12g) from x=%.17g to %.17g at E=%.12g", got[0], got[1], w0, w1, xs[i].v, xs[j].v, E);
            c.near(std::hypot(got[0] - w0, (got[1] - w1) / om), 0, t, key, txt);
        } else {
            double t = extra * (tol * (r.normE * ny + r.norm * nyE) + (1e-11 + 3e-14 * noise) * r.norm * (ny * (1 + L) / om + nyE) * (1 + om) + tol * noise * r.norm * (ny * hmax / om + nyE)) + 1e-300;
            std::string txt = mc::strf("dE(y,y')=(%.12g,%.12g) want (%.12g,%.12g) from x=%.17g to %.17g at E=%.12g", got[2], got[3], w2, w3, xs[i].v, xs[j].v, E);
            c.near(std::hypot(got[2] - w2, (got[3] - w3) / om), 0, t, key, txt);
        }
    };
    compare(out.data, ref[i * n + j], "flow", 1);
    c.state(mc::hash(out.data.data(), 32));
    { uint64_t q[2]; for (int k = 0; k < 2; ++k) q[k] = (uint64_t) llround(out.data[PART == 3 ? k : 2 + k] * 1e5); c.outcome(mc::hash(q, 16)); }
    // a second hop through every other position reaches the same state
    if (s == 2 && useH && (c.thorough || (i + j) % 2 == 0)) {
        for (size_t k = 0; k < n; ++k) {
            auto mid = ms->propagate(E, y, xs[i].v, xs[k].v).first;
            auto end = ms->propagate(E, mid, xs[k].v, xs[j].v).first;
            c.step(2);
            // what the detour amplifies
            double f = ref[i * n + k].norm * ref[k * n + j].norm / std::max(1e-300, ref[i * n + j].norm);
            double g = ref[i * n + k].normE * ref[k * n + j].norm + ref[i * n + k].norm * ref[k * n + j].normE + 1e-300;
            if (PART == 4) f = std::max(f, g / (ref[i * n + j].normE + 1e-300) * 1);
            noise = std::max(excursion(xs[i].v, xs[k].v), excursion(xs[k].v, xs[j].v));
            if (noise > 1e3) continue;
            c.noteText = mc::strf("via %s", xs[k].name.c_str());
            if (f < 1e4) compare(end.data, ref[i * n + j], "detour", 4 * std::max(1., f));
        }
        c.noteText.clear();
    }
    // two columns at once are the two single columns
    if (s == 2 && i != j) {
        matslise::Y<double, 1, 2> two;
        two.data.col(0) = y.data;
        two.data.col(1) << 2, 1, -1, 0.25;
        matslise::Y<> z(Eigen::Matrix<double, 4, 1>(two.data.col(1)));
        auto o2 = ms->propagate<2>(E, two, xs[i].v, xs[j].v, useH).first;
        auto o1 = ms->propagate(E, z, xs[i].v, xs[j].v, useH).first;
        c.step(2);
        double sc = out.data.cwiseAbs().maxCoeff() + o1.data.cwiseAbs().maxCoeff() + ref[i * n + j].norm * om + ref[i * n + j].normE * om;
        c.near((o2.data.col(0) - out.data).norm() + (o2.data.col(1) - o1.data).norm(), 0, 1e-10 * sc, "columns");
    }
}

MC_MAIN(execution)
