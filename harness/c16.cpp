// C16: the Liouville transformation.  Every (p, w, q, domain) of the alphabets at every position (ends, all borders between
// pieces, one ulp beside them, interior): exact formulas with jets in long double.
#include "slref.hpp"
#include "matslise/liouville.h"
using namespace sl;
#ifdef LD
typedef long double Sc;
#else
typedef double Sc;
#endif
typedef matslise::LiouvilleTransformation<Sc> LT;
typedef matslise::Y<Sc> Y;

struct World {
    Fn p, q, w;
    Dom d;
    std::unique_ptr<LT> t;
    std::vector<Sc> at;
    std::vector<R> X; // x at these positions

    R density(R r) const { return std::sqrt(w(r) / p(r)); }
};

static R gauss(const World &w, R a, R b) {
    static const R gx[5] = {0.1488743389816312108848L, 0.4333953941292471907993L, 0.6794095682990244062343L, 0.8650633666889845107321L, 0.9739065285171717200780L};
    static const R gw[5] = {0.2955242247147528701739L, 0.2692667193099963550912L, 0.2190863625159820439955L, 0.1494513491505805931458L, 0.0666713443086881375936L};
    R s = 0;
    int n = std::max(1, (int) std::ceil((b - a) / 0.1L));
    for (int i = 0; i < n; ++i) {
        R l = a + (b - a) * i / n, u = a + (b - a) * (i + 1) / n, m = (l + u) / 2, h = (u - l) / 2;
        for (int k = 0; k < 5; ++k) s += h * gw[k] * (w.density(m - h * gx[k]) + w.density(m + h * gx[k]));
    }
    return s;
}

static const double EPS = 2.3e-16, TX = 2e-12, TZ = 1e-11, TD = 1e-9, TR = 1e-10;

static void execution(mc::Ctx &c) {
    Dom d = c.pick("domain", domains(true));
    auto pos = positive(true);
    Fn p = c.pick("p", pos), w = c.pick("w", pos), q = c.pick("q", potentials(true));
    c.shard();
    auto &W = c.memo([&] {
        auto W = std::make_shared<World>();
        W->p = p;
        W->q = q;
        W->w = w;
        W->d = d;
        W->t = std::make_unique<LT>(matslise::Domain<Sc>{(Sc) d.a, (Sc) d.b}, p.fn<Sc>(), q.fn<Sc>(), w.fn<Sc>());
        std::vector<Sc> at{(Sc) d.a, (Sc) d.b};
        for (auto &pc: W->t->pieces) {
            for (Sc r: {pc.r.min, pc.r.max}) for (int s = -1; s <= 1; ++s) at.push_back(s ? std::nextafter(r, (Sc) (s * 1e9)) : r);
            for (double f: {0.01, 0.3, 0.5, 0.77, 0.999}) at.push_back(pc.r.min + (pc.r.max - pc.r.min) * (Sc) f);
        }
        int grid = c.thorough ? 1000 : 40;
        for (int i = 1; i < grid; ++i) at.push_back((Sc) d.a + (Sc) (d.b - d.a) * i / grid);
        std::sort(at.begin(), at.end());
        at.erase(std::unique(at.begin(), at.end()), at.end());
        while (at.front() < d.a) at.erase(at.begin());
        while (at.back() > d.b) at.pop_back();
        W->at = at;
        R s = 0, last = d.a;
        for (Sc r: at) { s += gauss(*W, last, r); last = r; W->X.push_back(s); }
        return W;
    });
    World &v = *W;
    LT &t = *v.t;
    R total = v.X.back();
    double tx = TX * (double) std::max<R>(total, 1e-3);
    int what = (int) c.choose("aspect", 3);
    if (what == 0) {
        // pieces: contiguous in both variables
        auto &ps = t.pieces;
        c.check(!ps.empty() && ps.front().r.min == (Sc) d.a && ps.back().r.max == (Sc) d.b, "pieces", "the pieces do not cover the domain");
        for (size_t i = 0; i < ps.size(); ++i) {
            c.check(ps[i].r.min < ps[i].r.max && ps[i].x.min < ps[i].x.max, "pieces", "piece %d is empty or reversed", (int) i);
            if (i) c.check(ps[i].r.min == ps[i - 1].r.max && ps[i].x.min == ps[i - 1].x.max, "pieces", "a gap before piece %d", (int) i);
        }
        auto xd = t.xDomain();
        auto rd = t.rDomain();
        c.check(rd.min == (Sc) d.a && rd.max == (Sc) d.b, "rDomain", "[%g,%g]", (double) rd.min, (double) rd.max);
        c.near((double) xd.min, 0, 0, "xDomain");
        c.near((double) xd.max, (double) total, tx, "xDomain");
        c.counters["pieces"] += ps.size();
        c.state(ps.size());
        return;
    }
    size_t i = c.choose("position", v.at.size());
    Sc r = v.at[i];
    c.trail.back().label = mc::strf("%.17g", (double) r);
    c.step();
    if (what == 1) {
        Sc x = t.r2x(r);
        c.near((double) x, (double) v.X[i], tx, "r2x");
        auto xd = t.xDomain();
        c.check(x >= xd.min - tx && x <= xd.max + tx, "range", "x(%.17g)=%.17g outside the domain", (double) r, (double) x);
        for (size_t j = i; j-- > 0;) {
            Sc y = t.r2x(v.at[j]);
            c.check(y <= x + 4 * EPS * (double) total, "monotone", "x(%.17g)=%.17g > x(%.17g)=%.17g", (double) v.at[j], (double) y, (double) r, (double) x);
            R dx = v.X[i] - v.X[j];
            // increments are right too, also for neighbours
            c.near((double) (x - y), (double) dx, TX * (double) (dx + total) + 8 * EPS * (double) total, "increment");
            if (j + 12 < i) break;
        }
        Sc xc = std::min(std::max(x, xd.min), xd.max);
        Sc back = t.x2r(xc);
        double sl = (double) v.density(r);
        c.near((double) back, (double) r, 2e-15 * (d.b - d.a) + (16 * EPS * (double) total + TX * (double) total * 0.01) / sl + 4 * EPS * std::fabs(d.b + d.a), "x2r(r2x)");
        c.check(back >= (Sc) d.a && back <= (Sc) d.b, "range", "x2r left the domain: %.17g", (double) back);
        // and the other way round, from positions in x
        Sc x2 = xd.min + (xd.max - xd.min) * ((r - (Sc) d.a) / (Sc) (d.b - d.a));
        x2 = std::min(std::max(x2, xd.min), xd.max);
        Sc r2 = t.x2r(x2);
        c.near((double) t.r2x(r2), (double) x2, (2e-15 * (d.b - d.a) + 4 * EPS * std::fabs(d.b + d.a)) * (double) v.density(r2) + 16 * EPS * (double) total + tx * 0.01, "r2x(x2r)");
        // the potential
        Jet P = p.jet(back), Wj = w.jet(back), m = sqrt(sqrt(P * Wj)), s = sqrt(P / Wj);
        R mxx = s.v * s.v * m.s + s.v * s.d * m.d;
        R want = q(back) / Wj.v + mxx / m.v;
        double L = (double) total;
        // (the transformation is fitted piecewise; long domains are fitted less well)
        c.near((double) t.V(xc), (double) want, (d.b - d.a > 1 ? 1.5e-6 : 5e-9) * (1 + std::fabs((double) want) + 1 / (L * L)), "V");
        c.state(mc::hash(mc::strf("%a", (double) x)));
        c.outcome(mc::hash(mc::strf("%.10g", (double) t.V(xc))));
    } else {
        Jet P = p.jet(r), Wj = w.jet(r), m = sqrt(sqrt(P * Wj)), s = sqrt(P / Wj);
        auto z = c.pick("z", std::vector<int>{0, 1, 2, 3, 4});
        static const double zs[5][4] = {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}, {-2, 3, 0.5, -7}};
        Y u;
        for (int k = 0; k < 4; ++k) u.data[k] = zs[z][k];
        Y orig = u;
        Y y = t.z2y(r, u);
        c.check(u.data == orig.data, "argument", "z2y changed its argument");
        // y = m z, y_x = s (m_r z + m z_r)
        for (int k: {0, 2}) {
            R z0 = zs[z][k], z1 = zs[z][k + 1];
            R big = std::fabs(s.v) * (std::fabs(m.d * z0) + std::fabs(m.v * z1)), y0 = m.v * z0, y1 = s.v * (m.d * z0 + m.v * z1);
            c.near((double) y.data[k], (double) y0, TZ * std::fabs((double) y0), k ? "y dE" : "y");
            c.near((double) y.data[k + 1], (double) y1, TD * (double) (big + s.v * m.v * std::fabs(z0)), k ? "y' dE" : "y'");
        }
        auto xd = t.xDomain();
        Sc x = std::min(std::max(t.r2x(r), xd.min), xd.max);
        Y back = t.y2z(x, y);
        double rd = (double) (std::fabs(m.d / m.v) + std::fabs(m.s / m.v));
        for (int k = 0; k < 4; ++k) c.near((double) back.data[k], zs[z][k], TR * (1 + rd) * (std::fabs(zs[z][k]) + std::fabs(zs[z][k & 2])) + 1e-14 * (z == 4), "y2z(z2y)");
        Y direct = t.y2z(x, u), ag = t.z2y(t.x2r(x), direct);
        for (int k = 0; k < 4; ++k) c.near((double) ag.data[k], zs[z][k], TR * (1 + rd) * (1 + (double) s.v) * (std::fabs(zs[z][k]) + std::fabs(zs[z][k & 2])) + 1e-14 * (z == 4), "z2y(y2z)");
        c.outcome(mc::hash(mc::strf("%.10g %.10g", (double) y.data[0], (double) y.data[1])));
    }
}

MC_MAIN(execution)
