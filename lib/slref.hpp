// Reference for -(p y')' + q y = E w y with smooth coefficients given with two derivatives (jets), in long double.
// Independent of the library: y' = v/p, v' = (q - E w) y by Taylor series on interpolated pieces; zeros by sign changes.
#ifndef VERIF_SLREF_HPP
#define VERIF_SLREF_HPP

#include "ref.hpp"
#include "explore.hpp"

namespace sl {
    typedef long double R;

    struct Jet { // value, first and second derivative
        R v, d, s;

        Jet(R v_ = 0, R d_ = 0, R s_ = 0) : v(v_), d(d_), s(s_) {}
    };

    inline Jet operator+(const Jet &a, const Jet &b) { return {a.v + b.v, a.d + b.d, a.s + b.s}; }

    inline Jet operator-(const Jet &a, const Jet &b) { return {a.v - b.v, a.d - b.d, a.s - b.s}; }

    inline Jet operator*(const Jet &a, const Jet &b) { return {a.v * b.v, a.d * b.v + a.v * b.d, a.s * b.v + 2 * a.d * b.d + a.v * b.s}; }

    inline Jet compose(const Jet &a, R f, R f1, R f2) { return {f, f1 * a.d, f2 * a.d * a.d + f1 * a.s}; }

    inline Jet inv(const Jet &a) { return compose(a, 1 / a.v, -1 / (a.v * a.v), 2 / (a.v * a.v * a.v)); }

    inline Jet operator/(const Jet &a, const Jet &b) { return a * inv(b); }

    inline Jet sqrt(const Jet &a) { R r = std::sqrt(a.v); return compose(a, r, 0.5L / r, -0.25L / (r * a.v)); }

    inline Jet exp(const Jet &a) { R e = std::exp(a.v); return compose(a, e, e, e); }

    inline Jet sin(const Jet &a) { return compose(a, std::sin(a.v), std::cos(a.v), -std::sin(a.v)); }

    inline Jet cos(const Jet &a) { return compose(a, std::cos(a.v), -std::sin(a.v), -std::cos(a.v)); }

    struct Fn {
        std::string name;
        std::function<Jet(const Jet &)> f;

        R operator()(R r) const { return f(Jet(r, 1, 0)).v; }

        Jet jet(R r) const { return f(Jet(r, 1, 0)); }

        template<typename S>
        std::function<S(S)> fn() const { auto g = f; return [g](S r) { return (S) g(Jet((R) r, 1, 0)).v; }; }
    };

    inline std::vector<Fn> positive(bool thorough) {
        std::vector<Fn> r{{"1", [](const Jet &) { return Jet(1); }},
                          {"1+r/2", [](const Jet &x) { return Jet(4) + x * Jet(0.5L); }}, // 4 + r/2
                          {"e^r", [](const Jet &x) { return exp(x); }},
                          {"2+sin(2r)", [](const Jet &x) { return Jet(2) + sin(x * Jet(2)); }},
                          {"1/4", [](const Jet &) { return Jet(0.25L); }}};
        r[1].name = "4+r/2";
        if (thorough) {
            r.push_back({"(r-4)^2", [](const Jet &x) { return (x - Jet(4)) * (x - Jet(4)); }});
            r.push_back({"1/(1+r^2)", [](const Jet &x) { return inv(Jet(1) + x * x); }});
            r.push_back({"e^-2r", [](const Jet &x) { return exp(x * Jet(-2)); }});
            r.push_back({"100+r", [](const Jet &x) { return x + Jet(100); }});
        }
        return r;
    }

    inline std::vector<Fn> potentials(bool thorough) {
        std::vector<Fn> r{{"0", [](const Jet &) { return Jet(0); }},
                          {"r^2", [](const Jet &x) { return x * x; }},
                          {"-3+cos(2r)", [](const Jet &x) { return cos(x * Jet(2)) - Jet(3); }}};
        if (thorough) {
            r.push_back({"20r", [](const Jet &x) { return x * Jet(20); }});
            r.push_back({"40", [](const Jet &) { return Jet(40); }});
        }
        return r;
    }

    struct Dom {
        std::string name;
        double a, b;
    };

    inline std::vector<Dom> domains(bool thorough) {
        std::vector<Dom> r{{"[0,1]", 0, 1}, {"[-1,2]", -1, 2}, {"[2,2.25]", 2, 2.25}};
        if (thorough) { r.push_back({"[-2,-0.5]", -2, -0.5}); r.push_back({"[0,3]", 0, 3}); }
        return r;
    }

    struct Problem {
        std::vector<ref::Piece> ip, q, w;
        R a, b;
        Fn p;
    };

    inline Problem problem(const Fn &p, const Fn &q, const Fn &w, R a, R b) {
        Problem r;
        r.a = a;
        r.b = b;
        r.p = p;
        int n = std::max(8, (int) std::ceil((b - a) * 8));
        for (int i = 0; i < n; ++i) {
            R l = a + (b - a) * i / n, u = i + 1 == n ? b : a + (b - a) * (i + 1) / n;
            r.ip.push_back(ref::interpolate([&](R x) { return 1 / p(x); }, l, u, 14));
            r.q.push_back(ref::interpolate([&](R x) { return q(x); }, l, u, 14));
            r.w.push_back(ref::interpolate([&](R x) { return w(x); }, l, u, 14));
        }
        return r;
    }

    struct S { // y, p y', int w y^2
        R y, v, n;
    };

    inline void recentre(const ref::Piece &p, R x, R *c) {
        int deg = (int) p.c.size() - 1;
        R t = x - p.x0;
        for (int i = 0; i <= deg; ++i) c[i] = p.c[i];
        for (int i = 0; i < deg; ++i) for (int j = deg - 1; j >= i; --j) c[j] += t * c[j + 1];
    }

    template<typename CB>
    inline S integrate(const Problem &P, R E, S u, R to, int *zeros, CB cb, bool norm = false) {
        // from the left end to 'to'
        int z = 0, sign = u.y > 0 ? 1 : u.y < 0 ? -1 : 0;
        cb(P.a, u);
        for (size_t k = 0; k < P.ip.size(); ++k) {
            R lo = P.ip[k].a, hi = std::min(to, P.ip[k].b);
            if (lo >= hi) break;
            R rate = 0;
            for (int i = 0; i <= 2; ++i) {
                R x = P.ip[k].a + (P.ip[k].b - P.ip[k].a) * i / 2;
                rate = std::max(rate, std::sqrt(std::fabs(P.ip[k](x) * (P.q[k](x) - E * P.w[k](x)))));
            }
            int m = std::max(1, (int) std::ceil((hi - lo) * rate * 2.2L));
            R s = (hi - lo) / m;
            for (int i = 0; i < m; ++i) {
                static const int O = 20;
                R cp[16], cq[16], cw[16], y[O + 1], v[O + 1];
                R x = lo + i * s;
                recentre(P.ip[k], x, cp);
                recentre(P.q[k], x, cq);
                recentre(P.w[k], x, cw);
                int deg = (int) P.ip[k].c.size() - 1;
                for (int j = 0; j <= deg; ++j) cq[j] -= E * cw[j];
                y[0] = u.y;
                v[0] = u.v;
                for (int n = 0; n < O; ++n) {
                    R a = 0, b = 0;
                    for (int j = 0; j <= std::min(n, deg); ++j) { a += cp[j] * v[n - j]; b += cq[j] * y[n - j]; }
                    y[n + 1] = a / (n + 1);
                    v[n + 1] = b / (n + 1);
                }
                auto at = [&](const R *c, R t) { R r = 0; for (int n = O; n >= 0; --n) r = r * t + c[n]; return r; };
                if (norm) { // Gauss with 5 points on the short step
                    static const R gx[5] = {-0.9061798459386639927976L, -0.5384693101056830910363L, 0, 0.5384693101056830910363L, 0.9061798459386639927976L};
                    static const R gw[5] = {0.2369268850561890875142L, 0.4786286704993664680412L, 0.5688888888888888888888L, 0.4786286704993664680412L, 0.2369268850561890875142L};
                    for (int g = 0; g < 5; ++g) {
                        R t = s * (1 + gx[g]) / 2, yy = at(y, t);
                        u.n += s / 2 * gw[g] * yy * yy * P.w[k](x + t);
                    }
                }
                u.y = at(y, s);
                u.v = at(v, s);
                int ns = u.y > 0 ? 1 : u.y < 0 ? -1 : 0;
                if (ns) { if (sign && ns != sign) ++z; sign = ns; }
                cb(lo + (i + 1) * s, u);
            }
        }
        if (zeros) *zeros = z;
        return u;
    }

    // conditions in (y, p y') form; number of eigenvalues < E
    inline int count(const Problem &P, R E, R ly, R lv, R ry, R rv) {
        int z;
        S u = integrate(P, E, {ly, lv, 0}, P.b, &z, [](R, const S &) {});
        R end = ref::mod_pi(std::atan2(u.y, u.v)), beta = ref::mod_pi(std::atan2(ry, rv));
        if (beta == 0) beta = ref::PI;
        R t = z * ref::PI + end;
        if (u.y == 0) t = (z + 1) * ref::PI;
        int n = (int) std::ceil((t - beta) / ref::PI);
        return n < 0 ? 0 : n;
    }
}
#endif
