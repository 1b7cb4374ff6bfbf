// C07: evaluating an eigenfunction on an array of points gives what evaluating it point by point gives, for every
// sequence of points (order, repetition, on and next to sector borders, outside the domain); zero outside.
#include "flow.hpp"
#include "matslise/liouville.h"
using namespace vp;
typedef matslise::AbstractMatslise<double>::Eigenfunction EF;

struct Subject {
    std::shared_ptr<void> keep;
    std::shared_ptr<EF> f;
    std::vector<Named> pts;
    double a, b, scale = 1;
    bool sortedOnly = false, zeroOutside = true;
};

static void addPoints(Subject &s, const matslise::Matslise<double> &ms, bool mirror, const std::function<double(double)> &map = [](double x) { return x; }) {
    auto add = [&](double x, const std::string &n) {
        for (auto &q: s.pts) if (q.v == x) return;
        s.pts.push_back({n, x});
    };
    double L = ms.domain.max - ms.domain.min;
    add(map(ms.domain.min), "xmin");
    add(map(ms.domain.max), "xmax");
    int n = ms.sectors.size(), m = ms.matchIndex;
    for (int i: {0, m, n - 2}) {
        if (i < 0 || i + 1 >= n) continue;
        double x = ms.sectors[i]->max;
        add(map(x), mc::strf("border%d", i));
        if (i == m) {
            add(map(std::nextafter(x, x + 1)), mc::strf("border%d+ulp", i));
            add(map(std::nextafter(x, x - 1)), mc::strf("border%d-ulp", i));
        }
    }
    for (int i: {0, m, std::min(m + 1, n - 1), n - 1}) add(map(ms.sectors[i]->min + 0.37 * ms.sectors[i]->h), mc::strf("sector%d+.37", i));
    if (mirror) {
        auto p = s.pts;
        for (size_t i = 0; i < p.size(); i += 2) add(-p[i].v, "-" + p[i].name);
        add(-p[1].v, "-xmax");
        add(-0., "-0");
    }
    if (s.zeroOutside) {
        add(s.a - 0.25 * L, "left of the domain");
        add(std::nextafter(s.a, s.a - 1), "xmin-ulp");
        add(s.b + 0.25 * L, "right of the domain");
    }
}

static const std::vector<std::string> subjects{"match auto", "match uniform3", "match uniform1", "match comb", "half even", "half odd", "periodic simple", "periodic double", "sturm-liouville"};

static Subject build(const std::string &n, int variant) {
    using namespace matslise;
    Subject s;
    double shift[3][2] = {{0, 1}, {-3, 2}, {-5, 5}};
    s.a = shift[variant][0];
    s.b = shift[variant][1];
    if (n.rfind("match", 0) == 0) {
        Prob p = prob(n == "match comb" ? "comb" : "x2", s.a, s.b);
        std::shared_ptr<Matslise<double>> ms = n == "match uniform3" ? uniform(3).make(p) : n == "match uniform1" ? uniform(1).make(p) : AUTO8.make(p);
        auto v = ms->eigenpairsByIndex(2, 3, BC{"", 1, -1}.Y(), BC{"", 0, 1}.Y());
        s.f = std::move(std::get<2>(v.at(0)));
        s.keep = ms;
        addPoints(s, *ms, false);
    } else if (n.rfind("half", 0) == 0) {
        double w = s.b;
        auto ms = std::make_shared<MatsliseHalf<double>>([](double x) { return x * x + std::cos(x); }, w, 1e-8);
        int k = n == "half odd" ? 3 : 2;
        auto v = ms->eigenpairsByIndex(k, k + 1, BC{"", 1, 2}.Y());
        s.f = std::move(std::get<2>(v.at(0)));
        s.keep = ms;
        s.a = -w;
        s.sortedOnly = true;
        addPoints(s, *ms->ms, true);
    } else if (n.rfind("periodic", 0) == 0) {
        bool dbl = n == "periodic double";
        double a = s.a, b = s.b, L = b - a;
        auto ms = std::make_shared<PeriodicMatslise<double>>([=](double x) { return dbl ? 1. : 4 * std::cos(2 * M_PI * (x - a) / L); }, a, b);
        auto v = ms->eigenpairsByIndex(1, 3);
        auto &fs = std::get<2>(v.at(0));
        s.f = std::move(fs.back());
        s.keep = ms;
        addPoints(s, ms->matslise, false);
    } else {
        double a = 0.2 + variant, b = 1.7 + 2 * variant;
        s.a = a;
        s.b = b;
        auto ms = std::make_shared<SturmLiouville<double>>([](double x) { return 1 + x; }, [](double x) { return x * x; }, [](double x) { return std::exp(x); }, Domain<double>{a, b}, 1e-8);
        auto v = ms->eigenpairsByIndex(2, 3, BC{"", 1, -1}.Y(), BC{"", 0, 1}.Y());
        s.f = std::move(std::get<2>(v.at(0)));
        s.keep = ms;
        s.zeroOutside = false;
        for (int i = 0; i <= 9; ++i) s.pts.push_back({mc::strf("%d/9", i), i == 9 ? b : a + (b - a) * i / 9});
        s.pts.push_back({"xmin+ulp", std::nextafter(a, b)});
        s.pts.push_back({"xmax-ulp", std::nextafter(b, a)});
    }
    return s;
}

static void execution(mc::Ctx &c) {
    std::string n = c.pick("function", subjects);
    int variant = (int) c.choose("domain", 3);
    auto &s = c.memo([&] { return build(n, variant); });
    auto &vals = c.memo([&] {
        std::vector<Eigen::Array2d> r;
        for (auto &p: s.pts) r.push_back((*s.f)(p.v));
        return r;
    });
    int len = (int) c.choose("length", c.thorough ? 6 : 5);
    std::vector<size_t> idx;
    Eigen::ArrayXd x(len);
    auto pickPoint = [&](int i) {
        size_t k = c.choose("point", s.pts.size());
        c.trail.back().label = s.pts[k].name;
        idx.push_back(k);
        x[i] = s.pts[k].v;
    };
    if (len) pickPoint(0);
    c.shard();
    for (int i = 1; i < len; ++i) pickPoint(i);
    bool sorted = true;
    for (int i = 1; i < len; ++i) if (x[i] < x[i - 1]) sorted = false;
    std::string list;
    for (int i = 0; i < len; ++i) list += mc::strf("%s%.17g", i ? "," : "", x[i]);
    if (s.sortedOnly && !sorted) {
        bool threw = false;
        try { (*s.f)(x); } catch (std::runtime_error &) { threw = true; }
        c.check(threw, "unsorted", "points %s out of order were accepted", list.c_str());
        return;
    }
    Eigen::Array<double, Eigen::Dynamic, 2> y = (*s.f)(x);
    c.step(len + 1);
    c.check(y.rows() == len, "size", "%d rows for %d points", (int) y.rows(), len);
    for (int i = 0; i < len; ++i) {
        auto &v = vals[idx[i]];
        std::string t = mc::strf("element %d of [%s] on [%.17g,%.17g]", i, list.c_str(), s.a, s.b);
        c.check(std::isfinite(y(i, 0)) && std::isfinite(y(i, 1)), "finite", "%s: (%g,%g)", t.c_str(), y(i, 0), y(i, 1));
        // on a border both neighbouring sectors may answer
        double w = 1e-6 * (1 + std::fabs(v[0]) + std::fabs(v[1]));
        bool border = s.pts[idx[i]].name.find("border") != std::string::npos;
        if (!border) w *= 1e-5;
        c.near(y(i, 0), v[0], w, "value", t);
        c.near(y(i, 1), v[1], w, "derivative", t);
        if (s.zeroOutside && (x[i] < s.a || x[i] > s.b)) c.check(y(i, 0) == 0 && y(i, 1) == 0 && v[0] == 0 && v[1] == 0, "outside", "%s: (%g,%g)", t.c_str(), y(i, 0), y(i, 1));
    }
    // continuity: the two sides of the middle border agree
    if (len == 1) {
        for (size_t i = 0; i < s.pts.size(); ++i) for (size_t j = 0; j < i; ++j)
            if (s.pts[i].v >= s.a && s.pts[i].v <= s.b && s.pts[j].v >= s.a && s.pts[j].v <= s.b && std::fabs(s.pts[i].v - s.pts[j].v) < 1e-14) {
                c.near(vals[i][0], vals[j][0], 1e-5, "continuity", s.pts[i].name + " " + s.pts[j].name);
                c.near(vals[i][1], vals[j][1], 1e-4 * (1 + std::fabs(vals[i][1])), "continuity", s.pts[i].name + " " + s.pts[j].name);
            }
    }
    c.state(mc::hash(y.data(), sizeof(double) * 2 * len));
    c.outcome(mc::hash(y.data(), sizeof(double) * 2 * len));
}

MC_MAIN(execution)
