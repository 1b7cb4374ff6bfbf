// C29: problems beyond the smooth and well scaled ones: unannounced jumps and kinks, spikes, walls, oscillation, extreme
// scales of the potential, the domain, the tolerance and the conditions.  Every query ends, with a complete, ordered,
// finite, right answer.
#include "probs.hpp"
using namespace vp;
using namespace matslise;
typedef Matslise<double> MS;

struct Wild {
    std::string kind;
    ref::Pot P;
    std::function<double(double)> f;
    std::vector<double> jumps;
    double size = 1; // of V, for the tolerance
};

static Wild wild(const std::string &kind, double a, double b) {
    Wild w;
    w.kind = kind;
    R A = a, B = b, L = B - A, M = A + L * 0.4L;
    auto graded = [&](std::function<R(R)> f, R centre, R smallest) { // pieces that grow away from centre
        std::vector<R> at{A, B};
        for (R d = smallest; d < L; d *= 1.6L) for (R s: {-1, 1}) { R x = centre + s * d; if (x > A + smallest / 4 && x < B - smallest / 4) at.push_back(x); }
        if (centre > A && centre < B) at.push_back(centre);
        std::sort(at.begin(), at.end());
        ref::Pot P;
        for (size_t i = 0; i + 1 < at.size(); ++i) P.p.push_back(ref::interpolate(f, at[i], at[i + 1]));
        return P;
    };
    auto poly = [&](std::vector<std::pair<R, std::vector<R>>> v) {
        R l = A;
        for (size_t i = 0; i < v.size(); ++i) {
            R r = i + 1 == v.size() ? B : (R) (double) (A + L * v[i].first);
            w.P.p.push_back(ref::Piece{l, r, M, v[i].second});
            if (i + 1 < v.size()) w.jumps.push_back((double) r);
            l = r;
        }
    };
    R u = 1 / (L * L); // natural scale of energies
    if (kind == "step") poly({{0.4L, {0}}, {1, {30 * u}}});
    else if (kind == "comb") poly({{0.2L, {0}}, {0.3L, {90 * u}}, {0.5L, {0}}, {0.6L, {60 * u}}, {1, {-40 * u}}});
    else if (kind == "kink") poly({{0.4L, {0, -90 * u / L}}, {1, {0, 90 * u / L}}});
    else if (kind == "narrow well") poly({{0.4L, {0}}, {0.41L, {-1e4L * u}}, {1, {0}}});
    else if (kind == "narrow wall") poly({{0.4L, {0}}, {0.41L, {1e4L * u}}, {1, {0}}});
    else if (kind == "spike") { auto f = [=](R x) { R t = (x - M) / (0.01L * L); return 2000 * u * expl(-t * t); }; w.P = graded(f, M, 0.005L * L); w.P = ref::analytic(f, A, B, 120); }
    else if (kind == "coulomb") w.P = graded([=](R x) { return 3 * u / ((x - A) / L + 1e-3L); }, A, 5e-4L * L);
    else if (kind == "attractive") w.P = graded([=](R x) { return -3 * u / ((x - A) / L + 1e-3L); }, A, 5e-4L * L);
    else if (kind == "oscillating") w.P = ref::analytic([=](R x) { return 200 * u * cosl(80 * (x - A) / L); }, A, B, 40);
    else if (kind == "root") { w.P = graded([=](R x) { return 50 * u * sqrtl((x - A) / L + 1e-14L); }, A, 1e-14L * L); }
    else if (kind == "steep parabola") poly({{1, {0, 0, 1e5L * u * u}}});
    else if (kind == "high") poly({{1, {1e7L * u, 30 * u / L}}});
    else if (kind == "low") poly({{1, {-1e6L * u, 30 * u / L}}});
    else if (kind == "tiny") poly({{1, {0, 1e-13L * u / L}}});
    // solutions that grow beyond the largest number
    else if (kind == "wide oscillator") poly({{1, {0, 0, 2.5e7L * u / (L * L)}}});
    else if (kind == "wide well") { auto f = [=](R x) { R t = (x - M) / (0.02L * L); return -4e6L * u * expl(-t * t); }; w.P = ref::analytic(f, A, B, 160); }
    else if (kind == "walls") poly({{0.4L, {1e7L * u}}, {0.6L, {0}}, {1, {1e7L * u}}});
    else if (kind == "deep") poly({{1, {-1e7L * u, 30 * u / L}}});
    else _exit(5);
    auto P = w.P;
    w.f = [P](double x) { return (double) P((R) x); };
    w.size = (double) (fabsl(P.lower()) + fabsl(P.upper()));
    return w;
}

static void execution(mc::Ctx &c) {
    std::vector<std::pair<double, double>> ds{{0, 1}, {-2e-3, 1e-3}, {0, 60}, {1000, 1001}};
    auto d = c.pick<std::pair<double, double>>("domain", ds, [](const std::pair<double, double> &p) { return mc::strf("[%g,%g]", p.first, p.second); });
    std::vector<std::string> kinds{"step", "comb", "kink", "narrow well", "narrow wall", "spike", "coulomb", "attractive", "oscillating", "root", "steep parabola", "high", "low", "tiny", "deep", "wide oscillator", "wide well", "walls"};
    if (!c.thorough && d.first != 0) kinds.resize(kinds.size() - 3); // slow to solve
    std::string kind = c.pick("potential", kinds);
    double a = d.first, b = d.second, L = b - a;
    std::vector<double> tols{1e-8, 1e-3, 1e-5, 1e-11};
    if (!c.thorough && a != 0) tols.resize(2);
    if (!c.thorough && b == 60) tols.resize(1);
    double tol = c.pick("tolerance", tols);
    auto w = c.memo([&] { return wild(kind, a, b); });
    bool told = false;
    if (!w.jumps.empty()) told = c.choose("announced", 2);
    c.shard();
    auto &ms = c.memo([&] {
        sector_builder::AutomaticSectorBuilder<MS> sb(tol);
        if (told) sb.jumps = w.jumps;
        return std::make_unique<MS>(w.f, a, b, tol, sb);
    });
    static std::map<std::string, std::vector<R>> spectra; // the reference depends on the problem only
    c.maxima["sectors"] = std::max(c.maxima["sectors"], (double) ms->sectorCount);
    double sc = L; // y' has the unit y / L
    std::vector<BC> bs{{"D", 0, 1}, {"N", 1, 0}, {"R", 1, 2 / sc}, {"-R", 1, -3 / sc}};
    std::vector<std::pair<int, int>> some{{0, 0}, {1, 1}, {2, 3}, {0, 3}, {3, 1}, {2, 0}};
    if (c.thorough) { some.clear(); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) some.push_back({i, j}); }
    auto lr = c.pick<std::pair<int, int>>("conditions", some, [&](const std::pair<int, int> &p) { return bs[p.first].name + bs[p.second].name; });
    BC l = bs[lr.first], r = bs[lr.second];
    static const std::vector<std::pair<int, int>> ranges{{0, 6}, {0, 1}, {2, 3}, {5, 6}, {15, 16}, {40, 42}};
    static const std::vector<std::pair<int, int>> fewer{{0, 6}, {15, 16}};
    bool large = w.size * L * L > 1e5; // slow to solve
    auto rg = c.pick<std::pair<int, int>>("range", large && !c.thorough ? fewer : ranges, [](const std::pair<int, int> &x) { return mc::strf("%d..%d", x.first, x.second); });
    std::vector<std::pair<double, double>> scales{{1, 1}};
    if ((rg.first == 0 && rg.second == 6 && (!large || (lr.first == 0 && lr.second == 0))) || c.thorough) { scales.push_back({1e120, 1}); scales.push_back({1, -1e-120}); scales.push_back({-1e-100, 1e100}); }
    auto f = c.pick<std::pair<double, double>>("factors", scales, [](const std::pair<double, double> &p) { return mc::strf("%g,%g", p.first, p.second); });
    BC ls = l, rs = r;
    ls.y *= f.first; ls.d *= f.first; rs.y *= f.second; rs.d *= f.second;
    auto ev = ms->eigenvaluesByIndex(rg.first, rg.second, ls.Y(), rs.Y());
    c.step();
    std::string got;
    for (auto &e: ev) got += mc::strf("(%d:%.12g)", e.first, e.second);
    double u = 1 / (L * L);
    c.state(got + l.name + r.name);
    c.check((int) ev.size() == rg.second - rg.first, "count", "%s", got.c_str());
    auto &known = spectra[mc::strf("%s %g %g %s%s", kind.c_str(), a, b, l.name.c_str(), r.name.c_str())];
    known.resize(50, NAN);
    for (size_t i = 0; i < ev.size(); ++i) {
        int n = rg.first + (int) i;
        double E = ev[i].second;
        c.check(ev[i].first == n && std::isfinite(E), "index", "%s", got.c_str());
        c.check(i == 0 || ev[i - 1].second <= E, "order", "%s", got.c_str());
        if (std::isnan((double) known[n])) known[n] = ref::eigenvalue(w.P, l.r(), r.r(), n, (R) E);
        double want = (double) known[n];
        double er = std::fabs(E - want) / (1 + std::fabs(want));
        // a jump or a narrow feature nobody announced may fall between the points V is evaluated at
        bool narrow = kind.rfind("narrow", 0) == 0 || kind == "walls";
        double bound = w.jumps.empty() || told ? std::max(20 * tol, kind == "root" ? 2e-6 : 1e-9) : narrow ? INFINITY : 1e-2;
        std::string key = mc::strf("%s %s", told || w.jumps.empty() ? "value" : "value, jumps not announced", kind.c_str());
        c.near(E, want, bound * (1 + std::fabs(want)), key.c_str());
        c.outcome((uint64_t) llround(E / u * 1e3));
    }
    bool wide = kind == "wide oscillator" || kind == "wide well" || kind == "walls" || kind == "deep" || kind == "steep parabola";
    if (!wide || (!w.jumps.empty() && !told) || f.first != 1 || f.second != 1) return;
    // the window that holds exactly the first of these
    if (ev.size() > 1) {
        double lo = -4 * w.size - 1e9 * u, hi = (ev[0].second + ev[1].second) / 2;
        auto win = ms->eigenvalues(rg.first == 0 ? lo : 2 * ev[0].second - hi, hi, ls.Y(), rs.Y());
        c.step();
        c.check(rg.first == 0 ? win.size() == 1 && win[0].first == 0 : !win.empty() && win.back().first == rg.first, "window", "%d eigenvalues below %g", (int) win.size(), hi);
    }
    for (size_t i = 0; i < ev.size(); i += 3) {
        auto ef = ms->eigenfunction(ev[i].second, ls.Y(), rs.Y(), ev[i].first);
        const int N = 1500;
        double norm = 0, big = 0, last = 0;
        int zeros = 0;
        std::vector<double> ys(N + 1);
        for (int j = 0; j <= N; ++j) {
            double x = j == N ? b : a + (b - a) * j / N;
            auto y = (*ef)(x);
            c.step();
            if (!std::isfinite(y[0]) || !std::isfinite(y[1])) { c.fail("eigenfunction", mc::strf("index %d at %g: %g %g", ev[i].first, x, y[0], y[1])); return; }
            ys[j] = y[0];
            norm += (j == 0 || j == N ? .5 : 1) * y[0] * y[0] * (b - a) / N;
            big = std::max(big, std::fabs(y[0]));
        }
        for (double y: ys) if (std::fabs(y) > 1e-6 * big) { if (last != 0 && (last < 0) != (y < 0)) ++zeros; last = y; }
        c.near(norm, 1, 1e-2, "norm");
        c.check(zeros == ev[i].first, "zeros", "index %d has %d zeros", ev[i].first, zeros);
    }
    if (kind == "deep" || kind == "steep parabola" || lr.first != 0 || lr.second != 0 || rg.first != 0) return;
    // behind a barrier the conditions do not matter
    sector_builder::AutomaticSectorBuilder<MS> sb(tol);
    if (told) sb.jumps = w.jumps;
    PeriodicMatslise<double> pm(w.f, a, b, tol, sb);
    auto pe = pm.eigenvaluesByIndex(0, 3);
    c.step();
    for (size_t i = 0; i < 3; ++i) {
        if (pe.size() <= i || std::get<0>(pe[i]) != (int) i) { c.fail("periodic", mc::strf("index %d missing", (int) i)); break; }
        c.near(std::get<1>(pe[i]), (double) ref::eigenvalue(w.P, l.r(), r.r(), (int) i, (R) ev[i].second), std::max(20 * tol, 5e-6) * (1 + std::fabs(ev[i].second)), "periodic");
    }
}

MC_MAIN(execution)
