// C11: sector builders partition the domain, respect jumps and meet where the potential is low.
// Two systems: the real solver, and the builders' own code over a problem whose error estimates and potential levels
// are chosen by the explorer (every environment the builder can meet within the bound).
#include "matslise/util/sectorbuilder.cpp"
#include "probs.hpp"
using namespace vp;

namespace mock {
    static mc::Ctx *ctx;
    static int budget, live, made, limit;
    static double tol, typical;

    template<bool REFINE, bool EXPENSIVE>
    struct Problem {
        typedef double Scalar;
        static constexpr int order = 17;
        static constexpr bool refineSectors = REFINE;
        mutable double lo = 1e300, hi = -1e300;

        struct Sector {
            static const bool expensive = EXPENSIVE;
            double min, max, mean;
            mutable double err;
            matslise::Direction direction;
            int serial;
            mutable bool asked = false, scripted;

            Sector(const Problem *p, double min, double max, matslise::Direction d) : min(min), max(max), direction(d) {
                if (++made > limit) ctx->fail("endless", mc::strf("more than %d sectors were built", limit));
                serial = made;
                p->lo = std::min(p->lo, min);
                p->hi = std::max(p->hi, max);
                if (!(max > min)) ctx->fail("empty sector", mc::strf("sector [%.17g,%.17g]", min, max));
                scripted = budget > 0;
                if (scripted) {
                    --budget;
                    mean = (double) ctx->choose("level", 2);
                } else {
                    mean = 0.5;
                }
                ++live;
                ctx->step();
            }

            ~Sector() { --live; }

            Sector *refine(const Problem *p, double a, double b, matslise::Direction d) const { return new Sector(p, a, b, d); }

            double error() const {
                static const double errs[] = {0.7, 0.001, 0, 50, 1e9};
                if (!asked) {
                    asked = true;
                    if (scripted) err = errs[ctx->choose("error/tolerance class", ctx->thorough ? 5 : 4)] * tol;
                    // beyond the budget as for a smooth potential: rounding and the step to the power order - 1
                    else err = tol * (pow((max - min) / typical, order - 1) + 1e-12);
                }
                return err;
            }

            static bool compare(const Sector &a, const Sector &b) { return a.mean < b.mean; }
        };
    };
}

template<typename S>
static std::string show(const std::vector<std::unique_ptr<S>> &v) {
    std::string t;
    for (size_t i = 0; i < v.size() && i < 40; ++i) t += v[i] ? mc::strf("[%.9g,%.9g]", v[i]->min, v[i]->max) : "[none]";
    return t;
}

// what holds for every partition; mean(i) is the level the builder compared
template<typename S, typename M>
static void partition(mc::Ctx &c, const std::vector<std::unique_ptr<S>> &v, int match, double a, double b, const std::vector<double> &jumps, int count, M mean) {
    std::string t = show(v) + mc::strf(" match %d", match);
    int n = (int) v.size();
    c.check(n > 0 && (count < 0 || n == count), "count", "%d sectors: %s", n, t.c_str());
    for (auto &s: v) c.check((bool) s, "missing sector", "%s", t.c_str());
    c.check(v[0]->min == a && v[n - 1]->max == b, "ends", "domain [%.17g,%.17g]: %s", a, b, t.c_str());
    for (int i = 0; i < n; ++i) {
        c.check(v[i]->min < v[i]->max, "empty sector", "%s", t.c_str());
        if (i) c.check(v[i - 1]->max == v[i]->min, "gap", "between %d and %d (%.17g, %.17g): %s", i - 1, i, v[i - 1]->max, v[i]->min, t.c_str());
    }
    for (double j: jumps) {
        if (!(a < j && j < b)) continue;
        bool f = false;
        for (auto &s: v) f |= s->max == j;
        c.check(f, "jump", "%.17g is not a border of %s", j, t.c_str());
    }
    c.check(match >= 0 && match < n && (n == 1 || match + 1 < n), "match", "%s", t.c_str());
    for (int i = 0; i < n; ++i)
        c.check(v[i]->direction == (i <= match ? matslise::forward : matslise::backward), "direction", "sector %d of %s", i, t.c_str());
    double low = 1e300;
    for (int i = 0; i < n; ++i) low = std::min(low, mean(i));
    c.check(mean(match) == low || (n > 1 && mean(match + 1) == low), "meeting point", "lowest level %g, at the matching point %g and %g: %s", low, mean(match), n > 1 ? mean(match + 1) : 0., t.c_str());
    c.state(mc::hash(t));
}

// lists of announced jumps as the explorer builds them
static std::vector<double> jumpList(mc::Ctx &c, double a, double b, int maxLen, const std::vector<double> &must = {}) {
    double L = b - a;
    std::vector<double> alphabet{a + 0.25 * L, a + 0.75 * L, 0.4956864123 * b + 0.5043135877 * a, a, b, a - 0.1 * L, b + 3 * L, a == 0 ? 1e-16 * L : std::nextafter(a, b), a + 0.25 * L + 1e-4 * L, b - 1e-9 * L, (a + b) / 2};
    int len = (int) c.choose("jumps", maxLen + 1);
    std::vector<double> r;
    for (int i = 0; i < len; ++i) r.push_back(alphabet[c.choose("jump", alphabet.size())]);
    for (double m: must) r.push_back(m);
    return r;
}

template<typename P>
static void scripted(mc::Ctx &c) {
    using namespace matslise::sector_builder;
    static const std::vector<std::pair<double, double>> ds{{0, 1}, {-7, 5.3}, {1e3, 1e3 + 0.7}};
    auto d = ds[c.choose("domain", ds.size())];
    bool automatic = c.flag("automatic");
    mock::ctx = &c;
    mock::tol = 1e-6;
    mock::typical = 0.07 * (d.second - d.first);
    P problem;
    if (!automatic) {
        int n = 1 + (int) c.choose("sectors", 9);
        c.shard();
        mock::budget = 0;
        mock::made = 0;
        mock::limit = 100;
        struct G { ~G() { mock::live = 0; } } g;
        mock::budget = n;
        // only the level matters here
        UniformSectorBuilder<P> sb(n);
        auto r = sb(&problem, d.first, d.second);
        partition(c, r.sectors, r.matchIndex, d.first, d.second, {}, n, [&](int i) { return r.sectors[i]->mean; });
        double h = (d.second - d.first) / n;
        for (auto &s: r.sectors) c.near(s->max - s->min, h, 1e-9 * h + 1e-15 * std::fabs(d.first), "equal sectors");
        c.check(mock::live == n && mock::made == n, "live", "%d sectors live, %d built for %d", mock::live, mock::made, n);
        r.sectors.clear();
        c.check(mock::live == 0, "leak", "%d sectors leaked", mock::live);
        c.outcome((uint64_t) r.matchIndex * 100 + n);
        return;
    }
    auto jumps = jumpList(c, d.first, d.second, c.thorough ? 3 : 2);
    c.shard();
    mock::live = mock::made = 0;
    mock::budget = jumps.size() > 1 ? (c.thorough ? 4 : 3) : c.thorough ? 6 : 5;
    mock::limit = 40000;
    struct G { ~G() { mock::live = 0; } } g;
    AutomaticSectorBuilder<P> sb(mock::tol);
    sb.jumps = jumps;
    auto r = sb(&problem, d.first, d.second);
    partition(c, r.sectors, r.matchIndex, d.first, d.second, jumps, -1, [&](int i) { return r.sectors[i]->mean; });
    double rounding = 1e-13 * (std::fabs(d.first) + std::fabs(d.second));
    c.check(problem.lo >= d.first - rounding && problem.hi <= d.second + rounding, "outside", "a sector over [%.17g,%.17g] was tried", problem.lo, problem.hi);
    for (auto &s: r.sectors)
        c.check(s->error() <= mock::tol || s->max - s->min <= 1e-3, "accuracy", "sector [%.9g,%.9g] was kept with an error of %g tolerances", s->min, s->max, s->error() / mock::tol);
    c.check(mock::live == (int) r.sectors.size(), "live", "%d sectors live, %zu returned", mock::live, r.sectors.size());
    r.sectors.clear();
    c.check(mock::live == 0, "leak", "%d sectors leaked", mock::live);
    c.outcome(mc::hash(show(r.sectors)) ^ mock::made);
}

static void real(mc::Ctx &c) {
    using namespace matslise;
    std::vector<Dom> ds = domains(true);
    ds.push_back({"[0,1e-4]", 0, 1e-4});
    Dom d = c.pick("domain", ds);
    std::string kind = c.pick("potential", concat(kinds(true), {}));
    Prob p = prob(kind, d.a, d.b);
    double L = d.b - d.a;
    bool automatic = c.flag("automatic");
    int calls = 0;
    double lo = 1e300, hi = -1e300;
    auto V = p.fn<double>();
    std::function<double(const double &)> W = [&](const double &x) { ++calls; lo = std::min(lo, x); hi = std::max(hi, x); return V(x); };
    auto coefficients = [&](const Matslise<double> &ms, double tol) {
        for (int i = 0; i < ms.sectorCount; ++i) {
            auto &s = *ms.sectors[i];
            c.check(s.h == s.max - s.min && s.v0Match == ms.sectors[ms.matchIndex]->vs[0], "sector data", "sector %d", i);
            // the mean value of the potential, and the linear part as seen in the direction of the sector
            bool smooth = true;
            for (double j: p.jumps) smooth &= !(s.min < j && j < s.max);
            if (!smooth) continue;
            R v0 = 0, v1 = 0;
            static const R x[5] = {0, 0.5384693101056830910363144L, -0.5384693101056830910363144L, 0.9061798459386639927976269L, -0.9061798459386639927976269L};
            static const R w[5] = {0.5688888888888888888888889L, 0.4786286704993664680412915L, 0.4786286704993664680412915L, 0.2369268850561890875142640L, 0.2369268850561890875142640L};
            R m = ((R) s.min + s.max) / 2, h = ((R) s.max - s.min) / 2;
            for (int k = 0; k < 5; ++k) { v0 += w[k] / 2 * p.P(m + h * x[k]); v1 += w[k] / 2 * x[k] * p.P(m + h * x[k]); }
            double big = (double) (fabsl(p.P(m)) + fabsl(p.P(s.min)) + fabsl(p.P(m + h * 0.999L)) + 1);
            bool exact = kind != "mathieu" && kind != "exp";
            if (exact) {
                c.near(s.vs[0], (double) v0, 1e-12 * big, "mean");
                (void) v1;
            }
            (void) tol;
        }
    };
    if (!automatic) {
        static const std::vector<int> ns{1, 2, 3, 4, 5, 7, 12, 33, 100, 257};
        int n = c.pick("sectors", ns);
        c.shard();
        Matslise<double> ms(W, d.a, d.b, 1e-8, sector_builder::UniformSectorBuilder<Matslise<double>>(n));
        c.step(n);
        partition(c, ms.sectors, ms.matchIndex, d.a, d.b, {}, n, [&](int i) { return ms.sectors[i]->vs[0]; });
        c.check(ms.sectorCount == n, "count", "sectorCount is %d", ms.sectorCount);
        for (auto &s: ms.sectors) c.near(s->max - s->min, L / n, 1e-9 * L / n + 1e-14 * std::fabs(d.a), "equal sectors");
        coefficients(ms, 0);
        c.outcome((uint64_t) ms.matchIndex * 1000 + n);
    } else {
        double tol = c.pick("tolerance", std::vector<double>{1e-3, 1e-6, 1e-8, 1e-11, 0.5});
        int how = (int) c.choose("jumps given", 2);
        std::vector<double> jumps;
        if (how == 0) jumps = jumpList(c, d.a, d.b, c.thorough ? 2 : 1, p.jumps);
        else {
            c.choose("plain constructor", 1);
            if (!p.jumps.empty()) throw mc::Skip();
        }
        c.shard();
        std::unique_ptr<Matslise<double>> q;
        if (how == 0) {
            sector_builder::AutomaticSectorBuilder<Matslise<double>> sb(tol);
            sb.jumps = jumps;
            q = std::make_unique<Matslise<double>>(W, d.a, d.b, tol, sb);
            c.check(sb.jumps == jumps, "jumps changed", "the builder changed its list of jumps");
        } else q = std::make_unique<Matslise<double>>(W, d.a, d.b, tol);
        auto &ms = *q;
        c.step(ms.sectorCount);
        partition(c, ms.sectors, ms.matchIndex, d.a, d.b, jumps, -1, [&](int i) { return ms.sectors[i]->vs[0]; });
        c.check(ms.sectorCount == (int) ms.sectors.size() && ms.sectorCount >= 2, "count", "sectorCount is %d of %zu", ms.sectorCount, ms.sectors.size());
        for (auto &s: ms.sectors)
            c.check(s->error() <= tol * (1 + 1e-9) || s->h <= 1e-3, "accuracy", "sector [%.9g,%.9g] has an error of %g for tolerance %g", s->min, s->max, s->error(), tol);
        coefficients(ms, tol);
        // economy: a solver for a coarser tolerance does not need more sectors than evaluating the potential everywhere
        c.check(ms.sectorCount <= 20000, "economy", "%d sectors", ms.sectorCount);
        c.outcome((uint64_t) ms.matchIndex * 100000 + ms.sectorCount);
    }
    double rounding = 1e-14 * (std::fabs(d.a) + std::fabs(d.b));
    c.check(calls > 0 && lo >= d.a - rounding && hi <= d.b + rounding, "outside", "the potential was evaluated on [%.17g,%.17g]", lo, hi);
}

static void execution(mc::Ctx &c) {
    switch (c.pick("system", std::vector<std::string>{"solver", "builder", "builder, refining", "builder, expensive"})[0] == 's' ? 0 : c.trail.back().v) {
        case 0: return real(c);
        case 1: return scripted<mock::Problem<false, false>>(c);
        case 2: return scripted<mock::Problem<true, false>>(c);
        default: return scripted<mock::Problem<false, true>>(c);
    }
}

MC_MAIN(execution)
