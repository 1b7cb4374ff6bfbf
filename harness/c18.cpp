// C18: systems of coupled equations.  propagate, propagateColumn and propagatePsi between all pairs of positions against a
// long-double Taylor reference of the coupled system itself (rotated decoupled ones and truly coupled ones).
#include "explore.hpp"
#include "matslise/matscs.h"
#include <array>
#include <complex>
using namespace Eigen;
typedef long double R;
typedef Matrix<R, Dynamic, Dynamic> MR;
typedef matslise::Matscs<double> Cs;
typedef matslise::Y<double, Dynamic> YD;
static const R PI = 3.14159265358979323846264338327950288L;

struct Piece {
    double a, b, x0;
    std::vector<MR> c; // symmetric matrix coefficients around x0
    MR at(R x) const {
        MR m = c.back();
        for (int k = (int) c.size() - 2; k >= 0; --k) m = (m * (x - x0) + c[k]).eval();
        return m;
    }
};

struct Prob {
    std::string name;
    int n;
    std::vector<Piece> p;
    R lower, upper; // of the eigenvalues of V
    const Piece &piece(R x) const {
        for (auto &q: p) if (x <= q.b) return q;
        return p.back();
    }
    void bounds() {
        lower = 1e300L;
        upper = -1e300L;
        for (auto &q: p) for (int i = 0; i <= 24; ++i) {
            SelfAdjointEigenSolver<MR> s(q.at(q.a + (R) (q.b - q.a) * i / 24));
            lower = std::min(lower, s.eigenvalues().minCoeff());
            upper = std::max(upper, s.eigenvalues().maxCoeff());
        }
    }
};

static MR mat(int n, std::initializer_list<double> v) { // lower triangle by rows
    MR m(n, n);
    auto it = v.begin();
    for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) m(i, j) = m(j, i) = *it++;
    return m;
}

static MR rotation(int n, int which) {
    MR q = MR::Identity(n, n);
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) {
        R t = 0.7L * (i + 1) + 0.4L * j + which;
        MR g = MR::Identity(n, n);
        g(i, i) = g(j, j) = std::cos(t);
        g(i, j) = -std::sin(t);
        g(j, i) = std::sin(t);
        q = (q * g).eval();
    }
    return q;
}

static Prob rotated(const std::string &name, int n, double a, double b, double x0, std::vector<std::vector<double>> v, int which) {
    Prob p{name, n, {}, 0, 0};
    MR q = rotation(n, which);
    size_t deg = 0;
    for (auto &c: v) deg = std::max(deg, c.size());
    std::vector<MR> c;
    for (size_t k = 0; k < deg; ++k) {
        MR d = MR::Zero(n, n);
        for (int i = 0; i < n; ++i) if (k < v[i].size()) d(i, i) = v[i][k];
        MR m = q * d * q.transpose();
        c.push_back((m + m.transpose()) / 2);
    }
    p.p.push_back({a, b, x0, c});
    return p;
}

static std::vector<std::string> kinds(bool thorough) {
    std::vector<std::string> k{"scalar x2", "2 rotated", "2 coupled", "2 equal", "3 coupled", "2 step", "3 rotated"};
    if (thorough) for (auto s: {"scalar slope", "2 crossing", "3 constant", "2 strong", "4 coupled"}) k.push_back(s);
    return k;
}

static Prob prob(const std::string &k, double a, double b) {
    double m = (a + b) / 2;
    Prob p{k, 2, {}, 0, 0};
    if (k == "scalar x2") p = rotated(k, 1, a, b, m, {{0, 0, 1}}, 0);
    else if (k == "scalar slope") p = rotated(k, 1, a, b, m, {{3, -4}}, 0);
    else if (k == "2 rotated") p = rotated(k, 2, a, b, m, {{0, 0, 1}, {5, -3}}, 1);
    else if (k == "3 rotated") p = rotated(k, 3, a, b, m, {{0, 0, 1}, {5, -3}, {-4, 0, 0, .5}}, 2);
    else if (k == "3 constant") p = rotated(k, 3, a, b, m, {{1}, {1}, {-7}}, 1);
    else if (k == "2 equal") p = rotated(k, 2, a, b, m, {{2, 1}, {2, 1}}, 1);
    else if (k == "2 coupled") p.p = {{a, b, m, {mat(2, {1, .5, 3}), mat(2, {0, 1, -1}), mat(2, {1, 0, .5})}}};
    else if (k == "2 crossing") p.p = {{a, b, m, {mat(2, {0, 0.01, 0}), mat(2, {2, 0, -2})}}};
    else if (k == "2 strong") p.p = {{a, b, m, {mat(2, {0, 8, 20}), mat(2, {-3, 2, 1}), mat(2, {0, -1, 4})}}};
    else if (k == "3 coupled") { p.n = 3; p.p = {{a, b, m, {mat(3, {0, 1, 2, -.5, 1, 6}), mat(3, {1, 0, -1, .5, .3, 0}), mat(3, {.5, .2, 0, 0, -.4, 1})}}}; }
    else if (k == "4 coupled") { p.n = 4; p.p = {{a, b, m, {mat(4, {0, 1, 2, -.5, 1, 6, 0, .3, 0, -3}), mat(4, {1, 0, -1, .5, .3, 0, .2, 0, 0, 1})}}}; }
    else if (k == "2 step") p.p = {{a, a + (b - a) * .4, m, {mat(2, {0, 1, 2})}}, {a + (b - a) * .4, b, m, {mat(2, {6, -2, 0}), mat(2, {0, .5, 1})}}};
    else _exit(5);
    p.bounds();
    return p;
}

struct Builder {
    std::string name;
    int n;
    double tol;
};

struct State { // values, derivatives and their derivatives to E for all 2n unit starts
    MR y, d, ye, de;
};

// one Taylor step of length s
template<typename CB>
static State step(const Piece &q, R E, R x, R s, const State &u, int sub, CB cb) {
    static const int O = 22;
    int deg = (int) q.c.size() - 1;
    std::vector<MR> c = q.c;
    R t = x - q.x0;
    for (int i = 0; i < deg; ++i) for (int j = deg - 1; j >= i; --j) c[j] += t * c[j + 1];
    c[0] -= E * MR::Identity(c[0].rows(), c[0].cols());
    std::vector<MR> a(O + 1), b(O + 1);
    a[0] = u.y;
    a[1] = u.d;
    b[0] = u.ye;
    b[1] = u.de;
    for (int n = 0; n + 2 <= O; ++n) {
        MR sa = MR::Zero(u.y.rows(), u.y.cols()), sb = -a[n];
        for (int j = 0; j <= std::min(n, deg); ++j) { sa += c[j] * a[n - j]; sb += c[j] * b[n - j]; }
        a[n + 2] = sa / ((n + 1) * (n + 2));
        b[n + 2] = sb / ((n + 1) * (n + 2));
    }
    auto at = [&](R s, bool withE) {
        State r{a[O], a[O] * O, b[O], b[O] * O};
        for (int n = O - 1; n >= 0; --n) r.y = (r.y * s + a[n]).eval();
        for (int n = O - 1; n >= 1; --n) r.d = (r.d * s + n * a[n]).eval();
        if (withE) {
            for (int n = O - 1; n >= 0; --n) r.ye = (r.ye * s + b[n]).eval();
            for (int n = O - 1; n >= 1; --n) r.de = (r.de * s + n * b[n]).eval();
        }
        return r;
    };
    for (int i = 1; i < sub; ++i) cb(at(s * i / sub, false));
    State r = at(s, true);
    cb(r);
    return r;
}

template<typename CB>
static State integrate(const Prob &P, R E, State u, R from, R to, CB cb) {
    bool fw = from < to;
    for (size_t k = 0; k < P.p.size(); ++k) {
        const Piece &q = P.p[fw ? k : P.p.size() - 1 - k];
        R lo = std::max<R>(std::min(from, to), q.a), hi = std::min<R>(std::max(from, to), q.b);
        if (lo >= hi) continue;
        R gap = std::max(std::fabs(P.upper - E), std::fabs(P.lower - E));
        int m = std::max(1, (int) std::ceil((hi - lo) * std::max<R>(4, std::sqrt(gap) * 2.5L)));
        R s = (hi - lo) / m;
        int sub = (int) std::ceil(s * std::max<R>(1, gap) * P.n / 0.8L);
        for (int i = 0; i < m; ++i) u = step(q, E, fw ? lo + i * s : hi - i * s, fw ? s : -s, u, sub, cb);
    }
    return u;
}

struct Start {
    std::string name;
    MatrixXd y, d, ye, de;
    bool conjoined;
};

static std::vector<Start> starts(int n, bool thorough) {
    MatrixXd I = MatrixXd::Identity(n, n), Z = MatrixXd::Zero(n, n), S(n, n), A(n, n), B(n, n), G(n, n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        S(i, j) = 1. / (1 + i + j) - (i == j ? .8 : 0) * (i + 1);
        A(i, j) = std::sin(1 + 3 * i + 7 * j) + (i == j);
        B(i, j) = std::cos(2 + 5 * i + 2 * j);
        G(i, j) = std::sin(4 + i * 2 - j * 3) * 2;
    }
    std::vector<Start> r{{"Dirichlet", Z, I, Z, Z, true}, {"Neumann", I, Z, Z, Z, true}, {"Robin", A, S * A, Z, Z, true}, {"general", A, B, G, S, false}};
    r[2].d = A.transpose().inverse() * S; // A^T d symmetric
    if (thorough) { r.push_back({"-Dirichlet scaled", Z, -3e3 * A, Z, Z, true}); r.push_back({"Robin-", I, -S, G, Z, true}); }
    return r;
}

struct Pos {
    std::string name;
    double v;
};

struct Target {
    State t;
    double norm, normE;
    std::vector<double> angle; // per start: twice the continuous change of arg det(Y'+iY)
    std::vector<bool> angleOk;
};

static void execution(mc::Ctx &c) {
    std::vector<std::pair<double, double>> doms{{-1, 2}, {0, 1}, {3, 3.5}};
    if (c.thorough) doms.push_back({-4, 1});
    size_t di = c.choose("domain", doms.size());
    double a = doms[di].first, b = doms[di].second;
    c.trail.back().label = mc::strf("[%g,%g]", a, b);
    auto kind = c.pick("potential", kinds(c.thorough));
    auto bl = c.pick("builder", std::vector<Builder>{{"auto1e-8", 0, 1e-8}, {"uniform9", 9, 0}, {"uniform30", 30, 0}, {"auto1e-5", 0, 1e-5}});
    bool jumps = kind == "2 step";
    if (jumps && bl.n) throw mc::Skip();
    struct World {
        Prob P;
        std::unique_ptr<Cs> m;
        std::vector<Pos> xs;
    };
    auto &W = c.memo([&] {
        auto w = std::make_shared<World>();
        w->P = prob(kind, a, b);
        auto *P = &w->P;
        auto V = [P](double x) -> MatrixXd { return P->piece(x).at(x).cast<double>(); };
        if (bl.n) w->m = std::make_unique<Cs>(V, P->n, a, b, matslise::sector_builder::UniformSectorBuilder<Cs>(bl.n));
        else {
            matslise::sector_builder::AutomaticSectorBuilder<Cs> sb(bl.tol);
            if (jumps) sb.jumps.push_back(P->p[0].b);
            w->m = std::make_unique<Cs>(V, P->n, a, b, sb);
        }
        auto &s = w->m->sectors;
        auto add = [&](double x, const std::string &n) {
            if (!(x >= a && x <= b)) return;
            for (auto &q: w->xs) if (q.v == x) return;
            w->xs.push_back({n, x});
        };
        add(a, "xmin");
        add(b, "xmax");
        std::set<int> which{0, w->m->matchIndex, (int) s.size() - 1};
        if (c.thorough) which.insert((int) s.size() / 3);
        for (int i: which) {
            double h = s[i]->max - s[i]->min;
            add(s[i]->max, mc::strf("border%d", i));
            add(std::nextafter(s[i]->max, 1e9), mc::strf("border%d+ulp", i));
            add(std::nextafter(s[i]->max, -1e9), mc::strf("border%d-ulp", i));
            add(s[i]->min + .3 * h, mc::strf("sector%d+.3", i));
            if (c.thorough) add(s[i]->min + .85 * h, mc::strf("sector%d+.85", i));
        }
        add(a + .63 * (b - a), "63%");
        return w;
    });
    const Prob &P = W->P;
    Cs &m = *W->m;
    int n = P.n;
    std::vector<double> es{-4, 0.7, 9, 60};
    if (c.thorough) { es.push_back(-25); es.push_back(400); }
    double E = c.pick("E", es);
    c.shard();
    size_t from = c.choose("from", W->xs.size());
    c.trail.back().label = W->xs[from].name;
    auto &S = c.memo([&] { return starts(n, c.thorough); });
    double om = std::sqrt(std::max<double>(1, std::max(std::fabs(E - (double) P.lower), std::fabs(E - (double) P.upper))));
    auto &T = c.memo([&] {
        std::vector<Target> r(W->xs.size());
        State id;
        id.y = MR::Zero(n, 2 * n);
        id.d = id.y;
        id.y.leftCols(n).setIdentity();
        id.d.rightCols(n).setIdentity();
        id.ye = id.de = MR::Zero(n, 2 * n);
        for (int dir: {1, -1}) {
            std::vector<std::pair<double, int>> order;
            for (size_t i = 0; i < W->xs.size(); ++i) {
                double x = W->xs[i].v, f = W->xs[from].v;
                if (dir > 0 ? x >= f : x < f) order.push_back({dir * x, (int) i});
            }
            std::sort(order.begin(), order.end());
            State u = id;
            R x = W->xs[from].v;
            std::vector<double> ang(S.size(), 0), last(S.size());
            std::vector<bool> ok(S.size(), true);
            auto arg = [&](const State &u, size_t s) {
                MR y = u.y.leftCols(n) * S[s].y.cast<R>() + u.y.rightCols(n) * S[s].d.cast<R>();
                MR d = u.d.leftCols(n) * S[s].y.cast<R>() + u.d.rightCols(n) * S[s].d.cast<R>();
                Matrix<std::complex<double>, Dynamic, Dynamic> z(n, n);
                for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) z(i, j) = {(double) d(i, j), (double) y(i, j)};
                std::complex<double> q = z.determinant();
                double size = 1;
                for (int j = 0; j < n; ++j) size *= z.col(j).norm();
                if (!(std::abs(q) > 1e-5 * size)) ok[s] = false; // columns too close to each other to tell
                return std::arg(q);
            };
            for (size_t s = 0; s < S.size(); ++s) last[s] = arg(u, s);
            for (auto &o: order) {
                R to = W->xs[o.second].v;
                if (to != x) u = integrate(P, E, u, x, to, [&](const State &u) {
                    for (size_t s = 0; s < S.size(); ++s) if (S[s].conjoined) {
                        double q = arg(u, s), delta = q - last[s];
                        delta -= 2 * M_PI * std::round(delta / (2 * M_PI));
                        ang[s] += delta;
                        last[s] = q;
                    }
                });
                x = to;
                Target &t = r[o.second];
                t.t = u;
                t.norm = (double) std::sqrt(u.y.leftCols(n).squaredNorm() + u.d.rightCols(n).squaredNorm() + u.y.rightCols(n).squaredNorm() * om * om + u.d.leftCols(n).squaredNorm() / (om * om));
                t.normE = (double) std::sqrt(u.ye.leftCols(n).squaredNorm() + u.de.rightCols(n).squaredNorm() + u.ye.rightCols(n).squaredNorm() * om * om + u.de.leftCols(n).squaredNorm() / (om * om));
                for (size_t s = 0; s < S.size(); ++s) { t.angle.push_back(2 * ang[s]); t.angleOk.push_back(ok[s] && S[s].conjoined); }
            }
        }
        return r;
    });
    size_t to = c.choose("to", W->xs.size());
    c.trail.back().label = W->xs[to].name;
    size_t si = c.choose("start", S.size());
    c.trail.back().label = S[si].name;
    bool useH = !c.flag("without step formulas");
    const Start &s = S[si];
    double xa = W->xs[from].v, xb = W->xs[to].v;
    // excursions inside of sectors to the end their formulas start from
    double gap = std::sqrt(std::max(0., (double) P.upper - E)), hmax = 0;
    auto excursion = [&](double f0, double t0) {
        double w = 0;
        for (auto &q: m.sectors) {
            if ((f0 >= q->max && t0 >= q->max) || (f0 <= q->min && t0 <= q->min)) continue;
            double f = std::min(std::max(f0, q->min), q->max), t = std::min(std::max(t0, q->min), q->max);
            w = std::max(w, q->direction == matslise::Direction::forward ? std::min(f, t) - q->min : q->max - std::max(f, t));
        }
        return std::exp(2 * gap * w);
    };
    for (auto &q: m.sectors) hmax = std::max(hmax, q->max - q->min);
    double noise = excursion(xa, xb);
    if (noise > 1e3) throw mc::Skip();
    double acc = bl.n ? (bl.n == 9 ? 1e-4 : 1e-6) : bl.tol < 1e-6 ? 1e-6 : 1e-3;
    acc *= std::max(1., std::pow(gap * hmax / 2, 8)); // the formulas are accurate as long as (V - E) h^2 is moderate
    if (bl.n) acc *= std::pow((b - a) / 3, 6);
    acc = std::max(acc, 1e-10);
    YD y(n, n);
    y.data.setZero();
    y.block(matslise::None) = s.y;
    y.block(matslise::dX) = s.d;
    y.block(matslise::dE) = s.ye;
    y.block(matslise::dXdE) = s.de;
    auto compare = [&](const MatrixXd &v, const MatrixXd &d, const MatrixXd &ve, const MatrixXd &de, const Target &t, const Start &s, double factor, const char *k1, const char *k2) {
        MR Y = s.y.cast<R>(), D = s.d.cast<R>(), YE = s.ye.cast<R>(), DE = s.de.cast<R>();
        auto &u = t.t;
        MatrixXd wy = (u.y.leftCols(n) * Y + u.y.rightCols(n) * D).cast<double>(), wd = (u.d.leftCols(n) * Y + u.d.rightCols(n) * D).cast<double>();
        MatrixXd we = (u.y.leftCols(n) * YE + u.y.rightCols(n) * DE + u.ye.leftCols(n) * Y + u.ye.rightCols(n) * D).cast<double>();
        MatrixXd wde = (u.d.leftCols(n) * YE + u.d.rightCols(n) * DE + u.de.leftCols(n) * Y + u.de.rightCols(n) * D).cast<double>();
        double ny = std::hypot(s.y.norm(), s.d.norm() / om), nyE = std::hypot(s.ye.norm(), s.de.norm() / om);
        double t1 = factor * acc * noise * t.norm * ny, t2 = factor * acc * noise * ((t.normE + t.norm * hmax / om) * ny + t.norm * nyE) + 1e-10 * noise * t.norm * ny;
        c.near(std::hypot((v - wy).norm(), (d - wd).norm() / om), 0, t1, k1);
        c.near(std::hypot((ve - we).norm(), (de - wde).norm() / om), 0, t2, k2);
    };
    auto blocks = [&](const auto &y, const Target &t, const Start &s, double factor, const char *k1, const char *k2) {
        compare(y.block(matslise::None), y.block(matslise::dX), y.block(matslise::dE), y.block(matslise::dXdE), t, s, factor, k1, k2);
    };
    const Target &t = T[to];
    auto out = m.propagate(E, y, xa, xb, useH);
    c.step();
    blocks(out.first, t, s, 1, "flow", "flow dE");
    if (xa == xb) c.check((out.first.data - y.data).norm() <= 1e-9 * noise * y.data.norm() * om, "identity", "propagation over nothing changes the state");
    if (t.angleOk[si]) {
        // only when the errors cannot bring the solution on the other side of zero
        MatrixXd z(2 * n, n);
        z << om * out.first.block(matslise::None), out.first.block(matslise::dX);
        double least = Eigen::JacobiSVD<MatrixXd>(z).singularValues()(n - 1);
        if (acc * noise * t.norm * std::hypot(s.y.norm(), s.d.norm() / om) * om < .02 * least) c.near(out.second, t.angle[si], 0.02, "angle");
        else c.counters["angle skipped: ill-conditioned"]++;
    }
    // columns
    auto col = m.propagateColumn(E, y, xa, xb, useH);
    double size = out.first.data.cwiseAbs().maxCoeff() + t.norm * om + t.normE * om;
    c.near((col.data - out.first.data).norm(), 0, 1e-9 * size * noise, "all columns");
    c.step();
    for (int j = 0; j < n; ++j) {
        matslise::Y<double, Dynamic, 1> y1(n, 1);
        y1.data = y.data.col(j);
        auto o = m.propagateColumn(E, y1, xa, xb, useH);
        c.near((o.data - out.first.data.col(j)).norm(), 0, 1e-9 * size * noise, "single column");
        c.step();
    }
    if (n > 1) { // fewer columns than equations, and more
        for (int k: {n - 1, n + 2}) {
            YD y2(n, k);
            for (int j = 0; j < k; ++j) y2.data.col(j) = y.data.col((j + 1) % n) * (j >= n ? -2 : 1);
            auto o = m.propagateColumn(E, y2, xa, xb, useH);
            for (int j = 0; j < k; ++j) c.near((o.data.col(j) - out.first.data.col((j + 1) % n) * (j >= n ? -2 : 1)).norm(), 0, 1e-9 * size * noise, "other numbers of columns");
            c.step();
        }
    }
    // psi = Y (Y')^-1 when both ends allow it
    if (useH) {
        Eigen::JacobiSVD<MatrixXd> sv0(s.d);
        MR d1 = t.t.d.leftCols(n) * s.y.cast<R>() + t.t.d.rightCols(n) * s.d.cast<R>(), y1 = t.t.y.leftCols(n) * s.y.cast<R>() + t.t.y.rightCols(n) * s.d.cast<R>();
        if (sv0.singularValues()(n - 1) > 1e-2 * sv0.singularValues()(0) && sv0.singularValues()(n - 1) > 0) {
            MatrixXd psi0 = s.y * s.d.inverse();
            Eigen::JacobiSVD<MatrixXd> sv1(d1.cast<double>());
            double cond = sv1.singularValues()(n - 1) > 0 ? t.norm * std::hypot(s.y.norm(), s.d.norm() / om) * om / sv1.singularValues()(n - 1) : 1e300;
            if (cond < 1e3) {
                auto psi = m.propagatePsi(E, psi0, xa, xb);
                MatrixXd w = (y1 * d1.inverse()).cast<double>();
                c.near((psi - w).norm(), 0, acc * noise * cond * cond * (1 + w.norm()), "psi");
                c.step();
            } else c.counters["psi skipped: derivative nearly singular"]++;
        }
    }
    // detours
    if (si + 1 == 4 && useH) for (size_t k = 0; k < W->xs.size(); ++k) {
        double xm = W->xs[k].v, q = std::max(excursion(xa, xm), excursion(xm, xb));
        double f = T[k].norm * (1 + T[k].normE / (1 + T[k].norm));
        if (q > 1e3 || f * f > 1e4 * t.norm) continue;
        c.noteText = "via " + W->xs[k].name;
        auto mid = m.propagate(E, y, xa, xm);
        auto end = m.propagate(E, mid.first, xm, xb);
        c.step(2);
        noise = q;
        blocks(end.first, t, s, 4 * (1 + f * f / t.norm + f), "detour", "detour dE");
    }
    c.noteText.clear();
    c.state(mc::hash(out.first.data.data(), out.first.data.size() * sizeof(double)));
    c.outcome(mc::hash(mc::strf("%.6g %.6g", out.first.data(0, 0), out.first.data(n, n - 1))));
}

MC_MAIN(execution)
