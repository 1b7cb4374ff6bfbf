// Reference model for -y'' + V y = E y with a piecewise polynomial V.  Independent of the library:
// Taylor-series stepping in long double, zero counting by sign changes, textbook (unscaled) Pruefer angle.
#ifndef VERIF_REF_HPP
#define VERIF_REF_HPP

#include <vector>
#include <cmath>
#include <array>
#include <functional>
#include <algorithm>
#include <stdexcept>

#ifdef REF_QUAD
#include <boost/multiprecision/float128.hpp>
#endif

namespace ref {
    using std::fabs, std::sqrt, std::ceil, std::floor, std::cos, std::sin, std::exp, std::atan2, std::isnan;
#ifdef REF_QUAD
    typedef boost::multiprecision::float128 R; // for harnesses that check long double and quadruple precision
    static const R PI = atan(R(1)) * 4;
    static const int ORDER = 52;
    static const R ACCURACY = 1e-31Q;
#else
    typedef long double R;
    static const R PI = 3.14159265358979323846264338327950288L;
    static const int ORDER = 28;
    static const R ACCURACY = 1e-15L;
#endif

    struct Piece { // V(x) = sum c[k] (x-x0)^k on [a,b]
        R a, b, x0;
        std::vector<R> c;
        mutable std::vector<std::vector<R>> s9; // Taylor coefficients in nine points (for the step size)

        R operator()(R x) const {
            R r = 0, t = x - x0;
            for (int i = (int) c.size() - 1; i >= 0; --i) r = r * t + c[i];
            return r;
        }
    };

    struct Pot {
        std::vector<Piece> p;

        R min() const { return p.front().a; }

        R max() const { return p.back().b; }

        // right-continuous
        R operator()(R x) const {
            for (size_t i = 0; i + 1 < p.size(); ++i) if (x < p[i].b) return p[i](x);
            return p.back()(x);
        }

        R lower() const { // sampled lower bound of V
            R m = INFINITY;
            for (auto &q: p) for (int i = 0; i <= 32; ++i) m = std::min(m, q(q.a + (q.b - q.a) * i / 32));
            return m;
        }

        R upper() const {
            R m = -INFINITY;
            for (auto &q: p) for (int i = 0; i <= 32; ++i) m = std::max(m, q(q.a + (q.b - q.a) * i / 32));
            return m;
        }

        Pot mirrored() const { // W(x) = V(-x)
            Pot r;
            for (auto it = p.rbegin(); it != p.rend(); ++it) {
                Piece q;
                q.a = -it->b; q.b = -it->a; q.x0 = -it->x0; q.c = it->c;
                for (size_t k = 1; k < q.c.size(); k += 2) q.c[k] = -q.c[k];
                r.p.push_back(q);
            }
            return r;
        }

        Pot shiftedX(R d) const { // W(x) = V(x-d)
            Pot r = *this;
            for (auto &q: r.p) { q.a += d; q.b += d; q.x0 += d; }
            return r;
        }

        std::vector<R> jumps() const {
            std::vector<R> j;
            for (size_t i = 1; i < p.size(); ++i) j.push_back(p[i].a);
            return j;
        }
    };

    // state: y, y', dy/dE, dy'/dE
    struct S {
        R y, d, ye, de;
    };

    // one Taylor step of size s (may be negative) from x inside piece q
    inline S taylor(const Piece &q, R E, R x, R s, const S &u, int order = ORDER) {
        R t = x - q.x0;
        int deg = (int) q.c.size() - 1;
        R v[24];
        if (deg > 23) throw std::runtime_error("ref: degree");
        // recentre the polynomial at x (synthetic division)
        for (int i = 0; i <= deg; ++i) v[i] = q.c[i];
        for (int i = 0; i < deg; ++i)
            for (int j = deg - 1; j >= i; --j) v[j] += t * v[j + 1];
        v[0] -= E;
        R a[64], b[64];
        a[0] = u.y; a[1] = u.d; b[0] = u.ye; b[1] = u.de;
        for (int n = 0; n + 2 <= order; ++n) {
            R sa = 0, sb = -a[n];
            for (int k = 0; k <= std::min(n, deg); ++k) { sa += v[k] * a[n - k]; sb += v[k] * b[n - k]; }
            a[n + 2] = sa / ((n + 1) * (n + 2));
            b[n + 2] = sb / ((n + 1) * (n + 2));
        }
        S r{0, 0, 0, 0};
        for (int n = order; n >= 0; --n) { r.y = r.y * s + a[n]; r.ye = r.ye * s + b[n]; }
        for (int n = order; n >= 1; --n) { r.d = r.d * s + n * a[n]; r.de = r.de * s + n * b[n]; }
        return r;
    }

    struct Trace {
        S u;
        int zeros; // sign changes of y strictly between the ends
        R l2;      // int y^2 (only when asked)
        R minAbs;  // how close y came to a "touching" configuration at a step point, scale free
    };

    // step such that s^2 * sup |V - E| over the complex disc of radius s stays small
    inline R stepFor(const Piece &q, R E) {
        int deg = (int) q.c.size() - 1;
        if (q.s9.empty())
            for (int i = 0; i <= 8; ++i) {
                R t = q.a + (q.b - q.a) * i / 8 - q.x0;
                std::vector<R> v = q.c;
                for (int a = 0; a < deg; ++a)
                    for (int j = deg - 1; j >= a; --j) v[j] += t * v[j + 1];
                q.s9.push_back(v);
            }
        R s = 0.25L;
        for (auto &v: q.s9)
            while (true) {
                R m = 0;
                for (int k = deg; k >= 1; --k) m = (m + fabs(v[k])) * s;
                m += fabs(v[0] - E);
                if (m * s * s <= 0.16L) break;
                s *= 0.8L;
            }
        return s;
    }

    // callback(x, S) at all step points including both ends
    template<typename CB>
    inline Trace integrate(const Pot &V, R E, S u, R a, R b, CB cb) {
        Trace t{u, 0, 0, 1};
        cb(a, u);
        if (a == b) return t;
        bool fw = a < b;
        int n = (int) V.p.size();
        int sign = u.y > 0 ? 1 : u.y < 0 ? -1 : 0;
        for (int k = 0; k < n; ++k) {
            const Piece &q = V.p[fw ? k : n - 1 - k];
            R lo = std::max(std::min(a, b), q.a), hi = std::min(std::max(a, b), q.b);
            if (lo >= hi) continue;
            R h = stepFor(q, E);
            int m = std::max(1, (int) ceil((hi - lo) / h));
            R s = (hi - lo) / m;
            for (int i = 0; i < m; ++i) {
                R x = fw ? lo + i * s : hi - i * s;
                u = taylor(q, E, x, fw ? s : -s, u);
                R scale = std::max(fabs(u.y) * std::max<R>(1, 1 / h), fabs(u.d));
                if (scale > 0) t.minAbs = std::min(t.minAbs, fabs(u.y) / scale);
                int ns = u.y > 0 ? 1 : u.y < 0 ? -1 : 0;
                if (ns != 0) {
                    if (sign != 0 && ns != sign) ++t.zeros;
                    sign = ns;
                }
                cb(fw ? lo + (i + 1) * s : hi - (i + 1) * s, u);
            }
        }
        t.u = u;
        return t;
    }

    inline Trace integrate(const Pot &V, R E, const S &u, R a, R b) {
        return integrate(V, E, u, a, b, [](R, const S &) {});
    }

    inline R mod_pi(R t) { // into [0, pi)
        t -= floor(t / PI) * PI;
        if (t >= PI) t -= PI;
        if (t < 0) t = 0;
        return t;
    }

    // textbook Pruefer angle at b of the solution that leaves a with (y,y'): tan = y/y', continuous, start in [0,pi)
    inline R theta(const Pot &V, R E, R y, R d, R *dist = nullptr) {
        S u{y, d, 0, 0};
        R start = mod_pi(atan2(y, d));
        (void) start;
        Trace t = integrate(V, E, u, V.min(), V.max());
        // number of multiples of pi passed: zeros after the left end (a zero at the right end belongs to the angle)
        R end = mod_pi(atan2(t.u.y, t.u.d));
        if (dist) *dist = std::min(end, PI - end);
        if (t.u.y == 0 && V.max() > V.min()) return (t.zeros + 1) * PI; // a zero at the right end belongs to the angle
        return t.zeros * PI + end; // y(a)=0 starts at angle 0; first further zero is pi
    }

    struct BC {
        R y, d;
    };

    // number of eigenvalues < E
    inline int count(const Pot &V, R E, const BC &l, const BC &r) {
        R beta = atan2(r.y, r.d);
        beta = mod_pi(beta);
        if (beta == 0) beta = PI;
        // integrate left to right; y(b)=0 exactly has measure zero
        R t = theta(V, E, l.y, l.d);
        int n = (int) ceil((t - beta) / PI);
        return n < 0 ? 0 : n;
    }

    // n-th eigenvalue by bisection on the counting function
    inline R eigenvalue(const Pot &V, const BC &l, const BC &r, int n, R guess = NAN) {
        R lo, hi;
        R w;
        if (isnan(guess)) {
            R L = V.max() - V.min();
            guess = V.lower() + (PI * n / L) * (PI * n / L);
            w = 1 + fabs(guess) / 4;
        } else
            w = 1e-6L * (1 + fabs(guess));
        lo = guess - w; hi = guess + w;
        for (R s = w; count(V, lo, l, r) > n; s *= 2) lo -= s;
        for (R s = w; count(V, hi, l, r) <= n; s *= 2) hi += s;
        for (int i = 0; i < 130; ++i) {
            R m = (lo + hi) / 2;
            if (m <= lo || m >= hi || hi - lo < ACCURACY * (1 + fabs(m))) break;
            if (count(V, m, l, r) > n) hi = m; else lo = m;
        }
        return (lo + hi) / 2;
    }

    // potentials ---------------------------------------------------------------------------------
    inline Pot single(R a, R b, std::vector<R> c, R x0 = 0) { return Pot{{Piece{a, b, x0, std::move(c)}}}; }

    // Chebyshev-free local representation of an analytic function: interpolate in 16 Chebyshev points, long double
    inline Piece interpolate(const std::function<R(R)> &f, R a, R b, int n = 18) {
        // Newton divided differences then expand around the midpoint
        R m = (a + b) / 2, h = (b - a) / 2;
        std::vector<R> x(n), d(n);
        for (int i = 0; i < n; ++i) { x[i] = cos(PI * (2 * i + 1) / (2 * n)); d[i] = f(m + h * x[i]); }
        for (int j = 1; j < n; ++j) for (int i = n - 1; i >= j; --i) d[i] = (d[i] - d[i - 1]) / (x[i] - x[i - j]);
        std::vector<R> c(n, 0);
        for (int i = n - 1; i >= 0; --i) { // c = c*(t-x[i]) + d[i]
            for (int k = n - 1; k >= 1; --k) c[k] = c[k - 1] - x[i] * c[k];
            c[0] = -x[i] * c[0] + d[i];
        }
        R hp = 1;
        for (int k = 0; k < n; ++k) { c[k] /= hp; hp *= h; }
        return Piece{a, b, m, c};
    }

    inline Pot analytic(const std::function<R(R)> &f, R a, R b, int pieces) {
        Pot r;
        for (int i = 0; i < pieces; ++i) {
            R l = a + (b - a) * i / pieces, u = i + 1 == pieces ? b : a + (b - a) * (i + 1) / pieces;
            r.p.push_back(interpolate(f, l, u));
        }
        return r;
    }
}
#endif
