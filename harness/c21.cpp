// C21: eta functions.  calculateEta<Scalar, n> for every n used and every Z of a grid that covers all branches, the borders
// between them and the neighbours of every border, against quadruple-precision values from two independent formulas.
#include "explore.hpp"
#include <quadmath.h>
#ifdef QUAD
#include <boost/multiprecision/float128.hpp>
#endif
#include <boost/multiprecision/cpp_bin_float.hpp>
#include "matslise/util/eigen.h"
#include "matslise/util/calculateEta.h"
#ifdef QUAD
typedef boost::multiprecision::float128 Sc;
#elif defined(LD)
typedef long double Sc;
#else
typedef double Sc;
#endif
typedef boost::multiprecision::number<boost::multiprecision::cpp_bin_float<70>, boost::multiprecision::et_off> R;
static const int M = 12;
#ifndef TOL
#define TOL 24
#endif

struct Eta {
    R e[M]; // e[0] = eta_{-1}, e[1] = eta_0, ...
    R scale[M];
};

// eta_m(Z) = sum_q 2^m (q+m)! / (q! (2q+2m+1)!) Z^q for m >= 0;  eta_{-1} = cosh sqrt Z
static Eta series(const R &Z) {
    Eta r;
    for (int i = 0; i < M; ++i) {
        int m = i - 1;
        R t = 1;
        for (int j = 1; j <= m; ++j) t /= 2 * j + 1;
        R s = 0, a = 0;
        for (int q = 0; q < 2000; ++q) {
            s += t;
            a += abs(t);
            // ratio of consecutive terms: Z / (2(q+1) (2(q+1)+2m+1))
            t *= Z / (R(2 * (q + 1)) * (2 * (q + 1) + 2 * m + 1));
            if (q > 10 && abs(t) < a * R(1e-70) && abs(t) < 1e-70) break;
        }
        r.e[i] = s;
    }
    return r;
}

static Eta closed(const R &Z) {
    Eta r;
    R s = sqrt(abs(Z));
    r.e[0] = Z > 0 ? cosh(s) : cos(s);
    r.e[1] = Z > 0 ? R(sinh(s) / s) : R(sin(s) / s);
    for (int i = 2; i < M; ++i) r.e[i] = (r.e[i - 2] - (2 * i - 3) * r.e[i - 1]) / Z;
    return r;
}

static Eta reference(const R &Z) {
    Eta r = abs(Z) <= 700 ? series(Z) : closed(Z);
    for (int i = 0; i < M; ++i) {
        int m = i - 1;
        // size of the function: its value for positive Z, its envelope for negative Z
        R f = 1;
        for (int j = 1; j <= m; ++j) f /= 2 * j + 1;
        if (Z < 0) {
            R env = 1, z = sqrt(abs(Z));
            for (int j = 0; j <= m; ++j) env /= z;
            r.scale[i] = f < env ? f : env;
        } else r.scale[i] = abs(r.e[i]);
    }
    // beyond 100 the functions come from the forward recursion, which passes rounding errors on
    if (abs(Z) >= 99.999)
        for (int i = 2; i < M; ++i) r.scale[i] += (r.scale[i - 2] + (2 * i - 3) * r.scale[i - 1]) / abs(Z);
    return r;
}

static std::string f(const R &x) { return x.str(25); }

// what the neighbourhood of Z is tried at
static std::vector<Sc> points(bool thorough) {
    std::vector<Sc> r{0};
    auto around = [&](Sc z) {
        r.push_back(z);
        r.push_back(z * (1 + std::numeric_limits<Sc>::epsilon()));
        r.push_back(z * (1 - std::numeric_limits<Sc>::epsilon()));
    };
    for (int s: {-1, 1}) {
        for (int e = -1060; e <= 18; e += e < -60 ? 100 : 1) { r.push_back(s * ldexp(Sc(1), e)); r.push_back(s * ldexp(Sc(1.3), e)); }
        for (int i = 1; i <= 130; ++i) around(Sc(s * i));
        int per = thorough ? 64 : 8;
        for (int i = 1; i < 130 * per; ++i) r.push_back(Sc(s * i) / per + Sc(0.01));
        for (int i = 0; i < (thorough ? 400 : 60); ++i) r.push_back(Sc(s) * (Sc(100) + Sc(i) * i * (thorough ? 1 : 40)));
        for (Sc z: {Sc(1e6), Sc(1e8)}) if (s < 0) around(-z);
        if (s > 0) for (Sc z: {Sc(250000), Sc(400000), Sc(490000)}) r.push_back(z);
    }
    return r;
}

template<int n>
static void one(mc::Ctx &c, const Sc &Z, const Eta &ref, Eigen::Array<Sc, Eigen::Dynamic, 1> &keep) {
    c.step();
    auto e = calculateEta<Sc, n>(Z);
    auto again = calculateEta<Sc, n>(Z);
    const R eps = R(std::numeric_limits<Sc>::epsilon());
    R z = abs(R(Z));
    for (int i = 0; i < n && i < M; ++i) {
        // rounding of Z itself moves cosh/cos sqrt Z by sqrt|Z|/2 relative
        R tol = eps * (TOL + sqrt(z)) * ref.scale[i];
        R err = abs(R(e[i]) - ref.e[i]);
        const char *key = z < 100 ? "series" : Z > 0 ? "positive" : "negative";
        double &m = c.maxima[std::string(key)];
        m = std::max(m, R(err / tol).convert_to<double>());
        c.check(err <= tol, key, "n=%d: eta_%d(%s) is %s instead of %s (%s tolerances)", n, i - 1, f(R(Z)).c_str(), f(R(e[i])).c_str(), f(ref.e[i]).c_str(), f(err / tol).c_str());
        c.check(e[i] == again[i], "repeat", "a second call gives another value");
        // a prefix of the list for any n
        if (i < keep.size()) c.check(abs(R(e[i]) - R(keep[i])) <= 2 * tol, "prefix", "n=%d and another n differ in eta_%d", n, i - 1);
    }
    keep = e;
}

template<int... n>
static void all(mc::Ctx &c, const Sc &Z, const Eta &ref, std::integer_sequence<int, n...>) {
    Eigen::Array<Sc, Eigen::Dynamic, 1> keep;
    (one<n>(c, Z, ref, keep), ...);
}

static void execution(mc::Ctx &c) {
    auto &p = c.memo([&] { return points(c.thorough); });
    int part = (int) c.choose("part", 64);
    c.shard();
    size_t from = p.size() * part / 64, to = p.size() * (part + 1) / 64;
    size_t i = from + c.choose("Z", to - from);
    Sc Z = p[i];
    c.trail.back().label = f(R(Z));
    R Rz = R(Z);
    Eta ref = reference(Rz);
    if (abs(Rz) >= 50 && abs(Rz) <= 3000) { // the two formulas of the reference agree
        Eta a = series(Rz), b = closed(Rz);
        for (int k = 0; k < M; ++k) if (abs(a.e[k] - b.e[k]) > R(1e-38) * ref.scale[k]) c.fail("reference", "the reference contradicts itself");
    }
    all(c, Z, ref, std::integer_sequence<int, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12>());
    // continuity: neighbouring values
    // matrix version
    Eigen::Array<Sc, Eigen::Dynamic, 1> zs(3);
    zs << Z, -Z, Z / 3;
    auto em = calculateEta<Sc, 6>(zs);
    c.check(em.rows() == 6 && em.cols() == 3, "matrix", "shape");
    for (int j = 0; j < 3; ++j) {
        auto e = calculateEta<Sc, 6>(zs[j]);
        for (int k = 0; k < 6; ++k) c.check(em(k, j) == e[k] || (em(k, j) != em(k, j) && e[k] != e[k]), "matrix", "column %d row %d", j, k);
    }
    Eigen::Array<Sc, Eigen::Dynamic, 1> none(0);
    c.check((calculateEta<Sc, 2>(none).cols() == 0), "matrix", "empty");
    c.state(mc::hash(f(Rz)));
    c.outcome(mc::hash(f(ref.e[0])));
}

MC_MAIN(execution)
