// C27: the algebra of solutions (Y: value and derivative, and both derived to the energy) and transfer matrices (T).
// All programs of operations on Y of every shape run on matslise::Y and on plain tables of numbers.
#include "explore.hpp"
#include "matslise/util/eigen.h"
#include "matslise/util/y.h"
#include "matslise/util/theta.h"
#include <sstream>
using namespace matslise;
#ifndef SCALAR
#define SCALAR double
#endif
typedef SCALAR Sc;
typedef long double R;
typedef std::vector<std::vector<R>> Tab; // rows of columns
static const int Dyn = Eigen::Dynamic;

static Tab table(int r, int c) { return Tab(r, std::vector<R>(c, 0)); }

static Tab times(const Tab &a, const Tab &b) {
    Tab r = table((int) a.size(), (int) b[0].size());
    for (size_t i = 0; i < a.size(); ++i) for (size_t k = 0; k < b.size(); ++k) for (size_t j = 0; j < b[0].size(); ++j) r[i][j] += a[i][k] * b[k][j];
    return r;
}

static Tab plus(Tab a, const Tab &b, R f = 1) {
    for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[0].size(); ++j) a[i][j] += f * b[i][j];
    return a;
}

static Tab rows(const Tab &a, int from, int n) { return Tab(a.begin() + from, a.begin() + from + n); }

static Tab stack(Tab a, const Tab &b) { a.insert(a.end(), b.begin(), b.end()); return a; }

static Tab inverse(Tab a) { // Gauss-Jordan with pivoting
    int n = (int) a.size();
    Tab r = table(n, n);
    for (int i = 0; i < n; ++i) r[i][i] = 1;
    for (int k = 0; k < n; ++k) {
        int p = k;
        for (int i = k; i < n; ++i) if (std::fabs(a[i][k]) > std::fabs(a[p][k])) p = i;
        std::swap(a[k], a[p]);
        std::swap(r[k], r[p]);
        R f = 1 / a[k][k];
        for (int j = 0; j < n; ++j) { a[k][j] *= f; r[k][j] *= f; }
        for (int i = 0; i < n; ++i) if (i != k) {
            R g = a[i][k];
            for (int j = 0; j < n; ++j) { a[i][j] -= g * a[k][j]; r[i][j] -= g * r[k][j]; }
        }
    }
    return r;
}

// transfer matrix over an interval: a flow, so its determinant is one and dt is t times something without trace
struct Flow { Tab t, dt; };

static Flow flow(int n, int which) {
    Flow f{table(2 * n, 2 * n), table(2 * n, 2 * n)};
    for (int i = 0; i < 2 * n; ++i) f.t[i][i] = 1;
    if (which == 0) return f; // no step
    Tab s = table(2 * n, 2 * n);
    for (int k = 0; k < 3; ++k) { // shears up and down with symmetric blocks
        Tab m = table(2 * n, 2 * n);
        for (int i = 0; i < 2 * n; ++i) m[i][i] = 1;
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
            R v = (R) ((1 + i * j + i + j + k) % 5 - 2) / (which == 1 ? 2 : 0.5L);
            if (k % 2) m[n + i][j] = v; else m[i][n + j] = v;
        }
        f.t = times(f.t, m);
    }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { // in the Lie algebra
        s[i][j] = (R) (i - 2 * j + 1) / 2;
        s[n + j][n + i] = -s[i][j];
        s[i][n + j] = (R) (i + j - which) / 4;
        s[n + i][j] = (R) (1 + i * j * which) / 2;
    }
    f.dt = times(f.t, s);
    return f;
}

template<int a, int b>
static Eigen::Matrix<Sc, a, b> matrix(const Tab &t) {
    Eigen::Matrix<Sc, a, b> m(t.size(), t[0].size());
    for (size_t i = 0; i < t.size(); ++i) for (size_t j = 0; j < t[0].size(); ++j) m(i, j) = (Sc) t[i][j];
    return m;
}

static Tab square(int n, int which) {
    Tab m = table(n, n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m[i][j] = which == 0 ? (i + 1 == j || (i == n - 1 && j == 0) ? 1 : 0) : (R) ((3 * i + 2 * j + 1) % 7 - 2) / 2;
    return m;
}

template<typename M>
static void compare(mc::Ctx &c, const M &got, const Tab &want, R tol, const char *key, const std::string &what) {
    c.step();
    c.check(got.rows() == (int) want.size() && got.cols() == (int) want[0].size(), key, "%s: size %dx%d", what.c_str(), (int) got.rows(), (int) got.cols());
    R sz = 1;
    for (auto &r: want) for (R v: r) sz = std::max(sz, std::fabs(v));
    for (size_t i = 0; i < want.size(); ++i) for (size_t j = 0; j < want[0].size(); ++j)
        c.near((double) ((R) got(i, j) - want[i][j]), 0, (double) (tol * sz), key, what + mc::strf(" entry %d,%d", (int) i, (int) j));
}

// atan_safe: the angle of the line through (x, y), in (-pi/2, pi/2]
static void angles(mc::Ctx &c) {
    std::vector<Sc> v{0, -Sc(0), 1, -1, Sc(1e-8), Sc(-1e-8), 3, -3, std::numeric_limits<Sc>::min(), -std::numeric_limits<Sc>::min(), Sc(1e200), Sc(-1e200)};
    Sc y = v[c.choose("y", (int) v.size())], x = v[c.choose("x", (int) v.size())];
    c.shard();
    Sc r = atan_safe<Sc>(y, x), pi = acosl(-1.L);
    c.step();
    Sc eps = std::numeric_limits<Sc>::epsilon();
    c.check(r > -pi / 2 && r <= pi / 2 + eps, "angle", "%Lg is not an angle of a line", (R) r);
    if (y != 0 || x != 0) c.check(std::fabs((R) std::fabs(x) * sinl(r) * (x < 0 ? -1 : 1) - (R) y * cosl(r)) <= 4 * eps * ((R) std::fabs(x) + std::fabs(y)), "angle", "the line at %Lg does not pass (%Lg,%Lg)", (R) r, (R) x, (R) y);
    c.check(y == 0 ? r == 0 : x == 0 ? std::fabs(r - pi / 2) <= 2 * eps : std::fabs(x) < eps * std::fabs(y) || std::fabs(y) < eps * std::fabs(x) || (r > 0) == ((y > 0) == (x > 0)), "angle", "angle %Lg of (%Lg,%Lg)", (R) r, (R) x, (R) y);
}

template<int n_, int cols_>
static void program(mc::Ctx &c, int n, int cols) {
    typedef Y<Sc, n_, cols_> Sol;
    int start = (int) c.choose("start", n == cols ? 4 : 2);
    int length = (int) c.choose("length", c.thorough ? 5 : 4);
    c.shard();
    Tab m = table(4 * n, cols);
    Sol y(n, cols);
    compare(c, y.data, m, 0, "new", "a new solution is zero");
    if (start < 2) {
        for (int i = 0; i < 4 * n; ++i) for (int j = 0; j < cols; ++j) m[i][j] = start ? (R) ((i * 5 + j * 3) % 7 - 3) / 4 : (R) (1 + i + 4 * n * j);
        if (start) y = Sol(matrix<Sol::n4, cols_>(m));
        else y = Sol(matrix<Sol::n2, cols_>(rows(m, 0, 2 * n)), matrix<Sol::n2, cols_>(rows(m, 2 * n, 2 * n)));
    } else if constexpr (n_ == cols_) {
        for (int i = 0; i < n; ++i) m[start == 2 ? n + i : i][i] = 1;
        y = start == 2 ? Sol::Dirichlet(n) : Sol::Neumann(n);
    }
    R tol = 64 * std::numeric_limits<Sc>::epsilon();
    R growth = 1;
    for (int k = 0; k <= length; ++k) {
        R sz = 0;
        for (auto &r: m) for (R v: r) sz = std::max(sz, std::fabs(v));
        growth = std::max(growth, sz);
        std::string what = mc::strf("after %d operations", k);
        // all observers
        compare(c, y.data, m, tol * growth, "data", what);
        const Sol &k_ = y;
        c.check(k_.dimension() == n && k_.cols() == cols, "size", "dimension %d, %d columns", (int) k_.dimension(), (int) k_.cols());
        for (int d = 0; d < 4; ++d) {
            compare(c, k_.block((YDiff) d), rows(m, d * n, n), tol * growth, "block", what + mc::strf(" block %d", d));
            compare(c, y.block((YDiff) d), rows(m, d * n, n), tol * growth, "block", what + mc::strf(" block %d", d));
        }
        compare(c, k_.y(), rows(m, 0, 2 * n), tol * growth, "y", what);
        compare(c, y.y(), rows(m, 0, 2 * n), tol * growth, "y", what);
        compare(c, k_.ydE(), rows(m, 2 * n, 2 * n), tol * growth, "ydE", what);
        compare(c, y.ydE(), rows(m, 2 * n, 2 * n), tol * growth, "ydE", what);
        Sol copy = y;
        c.check(copy == y && !(copy != y), "equal", "a copy differs");
        for (int i = 0; i < 4 * n; ++i) for (int j = 0; j < cols; ++j) {
            copy.data(i, j) += 1 + std::fabs(copy.data(i, j));
            c.check(!(copy == y) && copy != y, "equal", "entry %d,%d is not compared", i, j);
            copy = y;
        }
        if (k == length) break;
        // operations; each gives a new value
        static const std::vector<std::string> ops{"minus", "times 2", "times -0.5", "*= -3", "reverse", "right shift", "right dense", "*= dense", "left shift", "left dense",
                                                  "T0*", "T1*", "T2*", "T1/", "T2/", "T0/", "columns", "exchange blocks", "exchange halves"};
        std::string op = c.pick("operation", ops);
        Sol old = y;
        Tab before = m;
        if (op == "minus") { y = -y; for (auto &r: m) for (R &v: r) v = -v; }
        else if (op == "times 2") { y = y * Sc(2); for (auto &r: m) for (R &v: r) v *= 2; }
        else if (op == "times -0.5") { y = y * Sc(-0.5); for (auto &r: m) for (R &v: r) v *= -0.5L; }
        else if (op == "*= -3") { Sol &r_ = (y *= Sc(-3)); c.check(&r_ == &y, "reference", "*= returns another object"); for (auto &r: m) for (R &v: r) v *= -3; }
        else if (op == "reverse") { y.reverse(); for (int i = 0; i < n; ++i) for (int d: {1, 3}) for (R &v: m[d * n + i]) v = -v; }
        else if (op == "right shift" || op == "right dense") {
            Tab q = square(cols, op == "right dense");
            y = y * matrix<cols_, cols_>(q);
            m = times(m, q);
        } else if (op == "*= dense") {
            Tab q = square(cols, 1);
            y *= matrix<cols_, cols_>(q);
            m = times(m, q);
        } else if (op == "left shift" || op == "left dense") {
            Tab q = square(n, op == "left dense"), r;
            y = matrix<n_, n_>(q) * y;
            for (int d = 0; d < 4; ++d) r = stack(r, times(q, rows(m, d * n, n)));
            m = r;
        } else if (op[0] == 'T') {
            Flow f = flow(n, op[1] - '0');
            T<Sc, n_> t(n);
            compare(c, t.t, flow(n, 0).t, 0, "new T", "a new transfer matrix is the identity");
            compare(c, t.dt, table(2 * n, 2 * n), 0, "new T", "a new transfer matrix has no derivative");
            t.t = matrix<(n_ == Dyn ? Dyn : 2 * n_), (n_ == Dyn ? Dyn : 2 * n_)>(f.t);
            t.dt = matrix<(n_ == Dyn ? Dyn : 2 * n_), (n_ == Dyn ? Dyn : 2 * n_)>(f.dt);
            Tab u = rows(m, 0, 2 * n), v = rows(m, 2 * n, 2 * n);
            if (op[2] == '*') {
                y = t * y;
                m = stack(times(f.t, u), plus(times(f.t, v), times(f.dt, u)));
                Sol back = t / y;
                R g = 0;
                for (auto &r: f.t) for (R q: r) g = std::max(g, std::fabs(q));
                for (auto &r: f.dt) for (R q: r) g = std::max(g, std::fabs(q));
                compare(c, back.data, before, tol * growth * g * g * g * n, "inverse", what + ": T/(T*y)");
            } else {
                y = t / y;
                Tab i = inverse(f.t), z = times(i, u);
                m = stack(z, plus(times(i, v), times(i, times(f.dt, z)), -1));
                R g = 0;
                for (auto &r: i) for (R q: r) g = std::max(g, std::fabs(q));
                for (auto &r: f.dt) for (R q: r) g = std::max(g, std::fabs(q));
                growth *= g * g * n;
            }
            growth *= 4 * n;
        } else if (op == "columns") { // reversed, through col
            for (int j = 0; j < cols; ++j) {
                auto q = old.col(j);
                c.check(q.dimension() == n && q.cols() == 1, "col", "a column has dimension %d and %d columns", (int) q.dimension(), (int) q.cols());
                y.data.col(cols - 1 - j) = q.data;
                for (int i = 0; i < 4 * n; ++i) m[i][cols - 1 - j] = before[i][j];
            }
        } else if (op == "exchange blocks") { // 0<->3, 1<->2, by the writable views
            for (int d = 0; d < 4; ++d) {
                y.block((YDiff) d) = old.block((YDiff) (3 - d));
                for (int i = 0; i < n; ++i) m[d * n + i] = before[(3 - d) * n + i];
            }
        } else {
            y.y() = old.ydE();
            y.ydE() = old.y();
            m = stack(rows(before, 2 * n, 2 * n), rows(before, 0, 2 * n));
        }
        c.outcome(op + mc::strf("%.17Lg", (R) y.data(0, 0)));
        { std::string all; for (Eigen::Index i = 0; i < y.data.size(); ++i) { R v = (R) y.data(i); all.append((const char *) &v, 10); } c.state(all); }
    }
    if (length > 1) return;
    // other shapes
    if constexpr (cols_ == Dyn || cols_ > 1) {
        Tab q = table(cols, 1);
        for (int i = 0; i < cols; ++i) q[i][0] = i - 2;
        auto one = y * matrix<cols_, 1>(q);
        static_assert(std::is_same_v<decltype(one), Y<Sc, n_, 1>>);
        compare(c, one.data, times(m, q), tol * growth * 4, "combination", "combination of columns");
    }
    if constexpr (n_ == 2 || n_ == 3) {
        Tab q = table(1, n), r;
        for (int i = 0; i < n; ++i) q[0][i] = i + 1;
        auto one = matrix<1, n_>(q) * y;
        static_assert(std::is_same_v<decltype(one), Y<Sc, 1, cols_>>);
        for (int d = 0; d < 4; ++d) r = stack(r, times(q, rows(m, d * n, n)));
        compare(c, one.data, r, tol * growth * 4, "combination", "combination of components");
    }
    for (int w: {1, 2}) { // the blocks of a transfer matrix
        Flow f = flow(n, w);
        if constexpr (n_ == Dyn) {
            T<Sc, n_> t(n);
            t.t = matrix<Dyn, Dyn>(f.t);
            t.dt = matrix<Dyn, Dyn>(f.dt);
            for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) {
                Tab a = table(n, n), b = a;
                for (int p = 0; p < n; ++p) for (int q = 0; q < n; ++q) { a[p][q] = f.t[i * n + p][j * n + q]; b[p][q] = f.dt[i * n + p][j * n + q]; }
                compare(c, t.getT(i, j), a, tol, "getT", "block of T");
                compare(c, t.getdT(i, j), b, tol, "getdT", "block of dT");
            }
        } else {
            T<Sc, n_> t(matrix<2 * n_, 2 * n_>(f.t), matrix<2 * n_, 2 * n_>(f.dt));
            compare(c, t.t, f.t, tol, "T", "constructed transfer matrix");
            compare(c, t.dt, f.dt, tol, "T", "constructed derivative");
        }
    }
}

static void execution(mc::Ctx &c) {
    std::vector<std::string> shapes{"1x1", "1x2", "2x2", "2x1", "3x3", "dynamic 1x1", "dynamic 2x2", "dynamic 3x3", "dynamic 2x1", "dynamic 3x2", "dynamic 2x3", "angles"};
    std::string s = c.pick("shape", shapes);
    if (s == "angles") angles(c);
    else if (s == "1x1") program<1, 1>(c, 1, 1);
    else if (s == "1x2") program<1, 2>(c, 1, 2);
    else if (s == "2x2") program<2, 2>(c, 2, 2);
    else if (s == "2x1") program<2, 1>(c, 2, 1);
    else if (s == "3x3") program<3, 3>(c, 3, 3);
    else if (s == "dynamic 1x1") program<Dyn, Dyn>(c, 1, 1);
    else if (s == "dynamic 2x2") program<Dyn, Dyn>(c, 2, 2);
    else if (s == "dynamic 3x3") program<Dyn, Dyn>(c, 3, 3);
    else if (s == "dynamic 2x1") program<Dyn, 1>(c, 2, 1);
    else if (s == "dynamic 3x2") program<Dyn, 2>(c, 3, 2);
    else program<Dyn, Dyn>(c, 2, 3);
}

MC_MAIN(execution)
