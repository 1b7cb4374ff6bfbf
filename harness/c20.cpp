// C20: Legendre expansions.  Every n and scalar type x interval x polynomial of the alphabet x every sequence of calls up
// to a length: the numbers must be those of the polynomial (long double / exact arithmetic), whatever was called before.
#include "explore.hpp"
#ifdef QUAD
#include <boost/multiprecision/float128.hpp>
#define MATSLISE_QUADMATH
#endif
#include "matslise/util/legendre.h"
using namespace matslise::legendre;
using matslise::Polynomial;
#ifdef LD
#define SCALAR long double
#endif
#ifndef SCALAR
#define SCALAR double
#endif
#ifdef QUAD
typedef boost::multiprecision::float128 Sc;
#else
typedef SCALAR Sc;
#endif
#include <boost/multiprecision/cpp_bin_float.hpp>
// wide enough for the cancellation in the change of variable
typedef boost::multiprecision::number<boost::multiprecision::cpp_bin_float<60>, boost::multiprecision::et_off> R;
typedef std::vector<R> Ref;
static const R EPS = R(std::numeric_limits<Sc>::epsilon());

static R mag(const R &x) { return x < 0 ? R(-x) : x; }

static R horner(const Ref &c, const R &x) {
    R r = 0;
    for (int i = (int) c.size() - 1; i >= 0; --i) r = r * x + c[i];
    return r;
}

// coefficients of q(t) = f(a + (b-a) t) for f = sum c[k] x^k
static Ref scaled(const Ref &c, const R &a, const R &w) {
    Ref r(c.size(), 0);
    for (int i = (int) c.size() - 1; i >= 0; --i) {
        for (int k = (int) r.size() - 1; k >= 0; --k) r[k] = r[k] * a + (k > 0 ? r[k - 1] * w : R(0));
        r[0] += c[i];
    }
    return r;
}

// shifted Legendre coefficients of sum q[k] t^k:  t P_i = ((i+1) P_{i+1} + (2i+1) P_i + i P_{i-1}) / (2(2i+1))
static Ref legendreOf(const Ref &q) {
    int n = (int) q.size();
    Ref r(n, 0);
    for (int k = n - 1; k >= 0; --k) {
        Ref s(n, 0);
        for (int i = 0; i < n; ++i) {
            R d = 2 * (2 * i + 1);
            if (i + 1 < n) s[i + 1] += r[i] * (i + 1) / d;
            s[i] += r[i] / 2;
            if (i > 0) s[i - 1] += r[i] * i / d;
        }
        r = s;
        r[0] += q[k];
    }
    return r;
}

static R binom(int n, int k) {
    R r = 1;
    for (int i = 1; i <= k; ++i) r = r * (n - k + i) / i;
    return r;
}

static const std::vector<std::pair<double, double>> intervals = {{0, 1}, {-1, 1}, {0, 2}, {2, 3}, {-0.5, 0.25}, {0, 0.0078125}, {-3, -1}, {5, 5.5}, {-16, 16}};

static std::string f(const R &x) { return mc::strf("%.20Lg", x.convert_to<long double>()); }

// amplification of the rounding of asPolynomial: sums of |coefficients| of the shifted Legendre polynomials
static R lambda(int i) {
    R s = 0, b = 1; // sum_j C(i,j) C(i+j,j)
    for (int j = 0; j <= i; ++j) {
        s += b;
        b = b * (i - j) * (i + j + 1) / ((j + 1) * (j + 1));
    }
    return s;
}

template<int n>
static void explore(mc::Ctx &c) {
    constexpr int k = n + n % 2;
    auto iv = intervals[c.choose("interval", intervals.size())];
    c.trail.back().label = mc::strf("[%g,%g]", iv.first, iv.second);
    Sc a = iv.first, b = iv.second;
    R w = R(b) - R(a);
    // polynomials: in t in [0,1] monomials and patterns of degree < n; high ones for the quadrature only
    int shape = (int) c.choose("polynomial", n + 5 + 3 + n);
    c.shard();
    Ref x; // the polynomial in x (in t for own >= 0)
    int own = -1;
    if (shape < n) { x.assign(shape + 1, 0); x[shape] = 1; }
    else if (shape == n) x.assign(1, 0);
    else if (shape < n + 5) {
        static const double pat[4][16] = {{1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}, {3, -2, 5, -1, 0, 0, 7, 0, -4, 0, 2, 1, 0, -6, 1, 1},
                                          {0, -1, 0, 1, 0, -1, 0, 1, 0, -1, 0, 1, 0, -1, 0, 1}, {1e3, 0, -1e-3, 0, 0, 0.5, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1e-2}};
        for (int i = 0; i < n && i < 16; ++i) x.push_back(pat[shape - n - 1][i]);
    } else if (shape >= n + 8) { // the shifted Legendre polynomials themselves, given in the scaled variable
        own = shape - n - 8;
        x.assign(own + 1, 0);
        for (int j = 0; j <= own; ++j) x[j] = ((own + j) % 2 ? -1 : 1) * binom(own, j) * binom(own + j, j);
    } else { // degree n .. 2k-1: integrated exactly by the quadrature behind it
        int d = shape == n + 5 ? n : shape == n + 6 ? 2 * k - 2 : 2 * k - 1;
        x.assign(d + 1, 0);
        x[d] = 1;
        if (d > 3) x[2] = -1;
    }
    bool low = (int) x.size() <= n;
    auto value = [&](const Sc &p) { return static_cast<Sc>(own >= 0 ? horner(x, (R(p) - R(a)) / w) : horner(x, R(p))); };
    int calls = 0;
    Sc lo = b, hi = a;
    auto fun = [&](const Sc &p) {
        ++calls;
        lo = std::min(lo, p);
        hi = std::max(hi, p);
        return value(p);
    };
    Legendre<Sc, n> L(fun, a, b);
    c.check(calls == k, "calls", "the function is called %d times instead of %d", calls, k);
    c.check(lo > a && hi < b, "outside", "the function is called outside the interval");
    struct Pre { Ref q, leg; };
    auto &pre = c.memo([&] { Pre p; p.q = own >= 0 ? x : scaled(x, R(a), w); if (low) p.leg = legendreOf(p.q); return p; });
    const Ref &q = pre.q, &leg = pre.leg;
    R size = 0, cond = 0; // rounding inside the function itself and of the abscissa
    for (int i = 0; i <= 16; ++i) { R p = mag(R(a) + w * i / 16), s = 0; for (int j = (int) x.size() - 1; j >= 0; --j) s = s * p + mag(x[j]) * (1 + j); cond = std::max(cond, s); }
    size = own >= 0 ? R(1 + (mag(R(a)) + mag(R(b))) / w * own * (own + 1)) : cond;
    R I = 0;
    {
        R pa = R(a), pb = R(b);
        if (own >= 0) I = own == 0 ? w : R(0);
        else for (size_t i = 0; i < x.size(); ++i, pa *= R(a), pb *= R(b)) I += x[i] * (pb - pa) / (i + 1);
    }
    // at most 4 calls, in every order: values never change
    auto note = [&](const char *key, const R &err, const R &tol) { double &m = c.maxima[key]; m = std::max(m, R(mag(err) / tol).convert_to<double>()); };
    auto one = [&](Legendre<Sc, n> &l, int op) {
        c.step();
        if (op == 0) {
            R v = R(l.integrate());
            note("integral", v - I, 12 * EPS * size * w);
            c.check(mag(v - I) <= 12 * EPS * size * w, "integral", "integral %s instead of %s", f(v).c_str(), f(I).c_str());
            R u = R(l.template integrate<false>(0));
            c.check(mag(u * w - v) <= 8 * EPS * size * w, "unscaled", "integrate<false> gave %s", f(u).c_str());
            c.outcome(f(v));
        } else if (op == 1) {
            if (!low) return;
            const auto &g = l.getCoefficients();
            // sum_i g[i] (2h)^i P_i*(t)
            R H = 1;
            for (int i = 0; i < n; ++i) {
                R want = i < (int) leg.size() ? leg[i] : R(0);
                note("coefficient", R(g[i]) * H - want, 16 * EPS * size * (2 * i + 1));
                c.check(mag(R(g[i]) * H - want) <= 16 * EPS * size * (2 * i + 1), "coefficient", "coefficient %d is %s instead of %s", i, f(R(g[i])).c_str(), f(want / H).c_str());
                H *= w;
            }
        } else if (op == 2) {
            if constexpr (n <= 16) {
                if (!low) return;
                const Polynomial<Sc, n - 1> &p = l.asPolynomial();
                R amp = 0;
                for (int i = 0; i < n; ++i) amp += lambda(i) * (2 * i + 1);
                for (int i = 0; i < n; ++i) {
                    R want = i < (int) q.size() ? q[i] : R(0);
                    note("polynomial", R(p[i]) - want, 1 * EPS * size * amp);
                c.check(mag(R(p[i]) - want) <= 1 * EPS * size * amp, "polynomial", "coefficient %d of the polynomial is %s instead of %s", i, f(R(p[i])).c_str(), f(want).c_str());
                }
            }
        } else if (op == 3) { // a copy answers the same
            Legendre<Sc, n> m(l);
            R v = R(m.integrate()), u = R(l.integrate());
            c.check(v == u, "copy", "a copy integrates to another value");
            if (low) {
                auto g = m.getCoefficients(), h = l.getCoefficients();
                for (int i = 0; i < n; ++i) c.check(g[i] == h[i], "copy", "a copy has other coefficients");
                if constexpr (n <= 16) c.check(m.asPolynomial() == l.asPolynomial(), "copy", "a copy has another polynomial");
            }
        } else if (op == 4) { // the moments against the Legendre polynomials
            if (!low) return;
            for (int i = 0; i < n; ++i) {
                R v = R(l.template integrate<false>(i));
                R want = i < (int) leg.size() ? leg[i] : R(0);
                for (int j = 0; j < i; ++j) want /= 2;
                c.check(mag(v - want) <= 16 * EPS * size * (2 * i + 1), "moment", "moment %d is %s instead of %s", i, f(v).c_str(), f(want).c_str());
            }
        }
    };
    int len = c.thorough ? 4 : 3;
    std::vector<int> done;
    std::array<Sc, n> firstC{};
    for (int i = 0; i < len; ++i) {
        int op = (int) c.choose("call", 5);
        one(L, op);
        done.push_back(op);
    }
    // one more of everything at the end, bit for bit what a new object says
    Legendre<Sc, n> N(fun, a, b);
    c.check(N.integrate() == L.integrate(), "history", "integrate depends on earlier calls");
    const auto &g = L.getCoefficients();
    const auto &h = N.getCoefficients();
    for (int i = 0; i < n; ++i) c.check(g[i] == h[i], "history", "coefficient %d depends on earlier calls", i);
    if constexpr (n <= 16) c.check(L.asPolynomial() == N.asPolynomial(), "history", "the polynomial depends on earlier calls");
    auto free = getCoefficients<n, Sc>(fun, a, b);
    for (int i = 0; i < n; ++i) c.check(free[i] == h[i], "free function", "getCoefficients gives another coefficient %d", i);
    // matrix-valued
    if (low && done[0] == 0 && done[1] == 0) {
        auto M = getCoefficients<n, Sc, Eigen::Matrix<Sc, 2, 2>>([&](const Sc &p) {
            Eigen::Matrix<Sc, 2, 2> m;
            Sc v = value(p);
            m << v, 2 * v, 0, -v;
            return m;
        }, a, b);
        for (int i = 0; i < n; ++i) {
            R s = mag(R(h[i])) + EPS * size * 1000, e = 0, W = 1;
            for (int j = 0; j < i; ++j) W *= w;
            s = 16 * EPS * size * (2 * i + 1) / W;
            c.check(mag(R(M[i](0, 0)) - R(h[i])) <= s && mag(R(M[i](0, 1)) - 2 * R(h[i])) <= 2 * s && M[i](1, 0) == 0 && mag(R(M[i](1, 1)) + R(h[i])) <= s,
                    "matrix", "coefficient %d of a matrix function is not that of its entries", i);
        }
    }
    c.state(mc::hash(f(R(L.integrate())) + std::to_string(done[0] * 5 + done[1])));
}

template<int n>
static void byN(mc::Ctx &c, int want) {
    if (want == n) return explore<n>(c);
    if constexpr (n < 18) byN<n + 1>(c, want);
}

static void execution(mc::Ctx &c) {
    int n = 1 + (int) c.choose("n", 18);
    c.trail.back().label = std::to_string(n);
    byN<1>(c, n);
}

MC_MAIN(execution)
