// C19: polynomial arithmetic.  All programs of up to three operations over polynomials of degree 0..4 (results up to 9)
// run on matslise::Polynomial and on plain coefficient lists; every observable is compared after every step.
#include "explore.hpp"
#include "matslise/util/polynomial.h"
#include <variant>
using matslise::Polynomial;
#ifndef SCALAR
#define SCALAR double
#endif
typedef SCALAR Sc;
typedef long double R;
typedef std::vector<R> Ref;
static const int MAXD = 9, SMALL = 4;

template<int... i>
static std::variant<Polynomial<Sc, i>...> variantOf(std::integer_sequence<int, i...>);

typedef decltype(variantOf(std::make_integer_sequence<int, MAXD + 1>())) Big;
typedef decltype(variantOf(std::make_integer_sequence<int, SMALL + 1>())) Lit;

template<typename Var, int d = 0>
static Var make(const Ref &c, int how) {
    constexpr int last = std::variant_size_v<Var> - 1;
    if ((int) c.size() == d + 1) {
        if (how == 1) {
            Eigen::Array<Sc, d + 1, 1> a;
            for (int i = 0; i <= d; ++i) a[i] = (Sc) c[i];
            return Polynomial<Sc, d>(a);
        }
        if (how == 2) { // initializer list (the remaining coefficients are zero)
            if constexpr (d >= 2) {
                Polynomial<Sc, d> p{(Sc) c[0], (Sc) c[1], (Sc) c[2]};
                for (int i = 3; i <= d; ++i) { if (p[i] != 0) throw mc::Violation{"initializer", "coefficients left out are not zero"}; p[i] = (Sc) c[i]; }
                return p;
            }
        }
        if (how == 3) { // constant
            Polynomial<Sc, d> p((Sc) c[0]);
            for (int i = 1; i <= d; ++i) { if (p[i] != 0) throw mc::Violation{"constant", "a constant has other coefficients"}; p[i] = (Sc) c[i]; }
            return p;
        }
        Polynomial<Sc, d> p;
        for (int i = 0; i <= d; ++i) { if (p[i] != 0) throw mc::Violation{"default", "a new polynomial is not zero"}; p[i] = (Sc) c[i]; }
        return p;
    }
    if constexpr (d < last) return make<Var, d + 1>(c, how);
    else throw mc::Skip();
}

static R horner(const Ref &c, R x) {
    R r = 0;
    for (int i = (int) c.size() - 1; i >= 0; --i) r = r * x + c[i];
    return r;
}

static R sum(const Ref &c, R x) {
    R r = 0;
    for (int i = (int) c.size() - 1; i >= 0; --i) r = r * std::fabs(x) + std::fabs(c[i]);
    return r;
}

static Ref diff(Ref c, int d) {
    for (; d > 0 && !c.empty(); --d) {
        for (size_t i = 1; i < c.size(); ++i) c[i - 1] = c[i] * i;
        c.pop_back();
    }
    return c;
}

static Ref integ(const Ref &c) {
    Ref r(c.size() + 1, 0);
    for (size_t i = 0; i < c.size(); ++i) r[i + 1] = c[i] / (i + 1);
    return r;
}

static std::string show(const Ref &c) {
    std::string s;
    for (R v: c) s += mc::strf("%Lg ", v);
    return s;
}

static const R EPS = 8 * std::numeric_limits<Sc>::epsilon();

template<typename P>
static void same(mc::Ctx &c, const P &p, const Ref &want, const char *key, bool rounded = false) {
    c.check((int) p.size() == (int) want.size() && P::degree + 1 == (int) want.size(), key, "%d coefficients instead of %d", (int) p.size(), (int) want.size());
    for (size_t i = 0; i < want.size(); ++i)
        c.check(std::fabs((R) p[i] - want[i]) <= (rounded ? EPS * std::fabs(want[i]) : 0), key, "coefficient %d is %.20Lg instead of %.20Lg of %s", (int) i, (R) p[i], want[i], show(want).c_str());
}

template<int k, typename P>
static void derivatives(mc::Ctx &c, const P &p, const Ref &w) {
    Ref d = diff(w, k);
    static const R xs[] = {0, 1, -1, 2, -3, 0.5L, -0.375L, 7, 0.1L};
    for (R x: xs) c.check(std::fabs((R) p.template derivative<k>((Sc) x) - (d.empty() ? 0 : horner(d, (Sc) x))) <= (d.empty() ? 0 : EPS * sum(d, (Sc) x)), "derivative value", "derivative %d of %s at %Lg", k, show(w).c_str(), x);
    if constexpr (k <= P::degree) {
        auto q = p.template derivative<k>();
        same(c, q, d, "derivative");
        for (R x: xs) c.check(std::fabs((R) q((Sc) x) - (R) p.template derivative<k>((Sc) x)) <= EPS * sum(d, (Sc) x), "derivative value", "derivative(x) and derivative()(x) differ");
        derivatives<k + 1>(c, p, w);
    } else if constexpr (k <= P::degree + 1) derivatives<k + 1>(c, p, w);
}

template<typename P>
static void observe(mc::Ctx &c, const P &p, const Ref &w) {
    c.step();
    const P before(p);
    same(c, p, w, "coefficients");
    static const R xs[] = {0, 1, -1, 2, -3, 0.5L, -0.375L, 7, 0.1L, 1e3L};
    for (R x: xs) {
        c.check(std::fabs((R) p((Sc) x) - horner(w, (Sc) x)) <= EPS * sum(w, (Sc) x), "value", "%s at %Lg gave %.20Lg", show(w).c_str(), x, (R) p((Sc) x));
        Ref I = integ(w);
        c.check(std::fabs((R) p.integral((Sc) x) - horner(I, (Sc) x)) <= EPS * sum(I, (Sc) x), "integral value", "integral of %s at %Lg gave %.20Lg", show(w).c_str(), x, (R) p.integral((Sc) x));
    }
    auto I = p.integral();
    same(c, I, integ(w), "integral", true);
    same(c, I.template derivative<1>(), w, "derivative of integral", true);
    c.check((R) I((Sc) 0) == 0, "integral", "the integral does not vanish at 0");
    derivatives<0>(c, p, w);
    same(c, -p, [&] { Ref r = w; for (R &v: r) v = -v; return r; }(), "minus");
    same(c, +p, w, "plus");
    // comparison
    P q(p);
    c.check(q == p && !(q != p) && p == p, "equality", "a copy of %s differs", show(w).c_str());
    for (int i = 0; i <= P::degree; ++i) {
        q = p;
        q[i] = q[i] + 1;
        c.check(!(q == p) && q != p && p != q && !(p == q), "equality", "%s equals itself with coefficient %d changed", show(w).c_str(), i);
        if constexpr (std::is_floating_point_v<Sc>) { // also in the last place
            q[i] = std::nextafter(p[i], p[i] + 1);
            c.check(!(q == p) && q != p && p != q && !(p == q), "equality", "%s equals itself with the last place of coefficient %d changed", show(w).c_str(), i);
        }
    }
    c.check(before == p, "observers", "an observer changed %s", show(w).c_str());
    // widening keeps the polynomial
    Polynomial<Sc, P::degree + 2> wide(p);
    Ref ww = w;
    ww.resize(w.size() + 2, 0);
    same(c, wide, ww, "conversion");
    std::string h = show(w);
    c.state(h);
    c.outcome(h);
}

static Ref add(Ref a, const Ref &b, R s) {
    a.resize(std::max(a.size(), b.size()), 0);
    for (size_t i = 0; i < b.size(); ++i) a[i] += s * b[i];
    return a;
}

static Ref times(const Ref &a, const Ref &b) {
    Ref r(a.size() + b.size() - 1, 0);
    for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j];
    return r;
}

static Ref scale(Ref a, R s) {
    for (R &v: a) v *= s;
    return a;
}

static const char *names[] = {"a+b", "a-b", "b+a", "b-a", "a*b", "b*a", "a+=b", "a-=b", "(a+=b)+=b", "a+=a", "a-=a", "a*a", "a+s", "s+a", "a-s", "s-a", "a*s", "s*a", "a/s",
                              "a+=s", "a-=s", "a*=s", "a/=s", "a*=a[0]", "a'", "int a", "-a", "a=b", "(a*=s)-=b", "a/=a[top]", "a''", "+a"};

// performs operation op on p (value of w) with the literal l (value of wl) and the scalar s
struct Perform {
    mc::Ctx &c;
    int op;
    const Ref &w, &wl;
    Sc s;
    Ref &want;
    bool rounded = false;

    template<typename P>
    Big fit(const P &p) {
        if constexpr (P::degree > MAXD || P::degree < 0) throw mc::Skip();
        else return Big(p);
    }

    template<typename P, typename L>
    Big operator()(const P &p0, const L &l0) {
        P p(p0);
        const P pc(p0);
        const L l(l0);
        constexpr bool lower = L::degree <= P::degree;
        Big r;
        switch (op) {
            case 0: want = add(w, wl, 1); r = fit(pc + l); break;
            case 1: want = add(w, wl, -1); r = fit(pc - l); break;
            case 2: want = add(wl, w, 1); r = fit(l + pc); break;
            case 3: want = add(wl, w, -1); r = fit(l - pc); break;
            case 4: want = times(w, wl); r = fit(pc * l); break;
            case 5: want = times(w, wl); r = fit(l * pc); break;
            case 6:
            case 7:
            case 8:
            case 28:
                if constexpr (!lower) throw mc::Skip();
                else {
                    if (op == 6) { want = add(w, wl, 1); P &q = (p += l); c.check(&q == &p, "compound", "+= does not return its operand"); }
                    if (op == 7) { want = add(w, wl, -1); P &q = (p -= l); c.check(&q == &p, "compound", "-= does not return its operand"); }
                    if (op == 8) { want = add(w, wl, 2); (p += l) += l; }
                    if (op == 28) { want = add(scale(w, s), wl, -1); (p *= s) -= l; }
                    r = fit(p);
                }
                break;
            case 9: want = scale(w, 2); p += p; r = fit(p); break;
            case 10: want = scale(w, 0); p -= p; r = fit(p); break;
            case 11: want = times(w, w); r = fit(pc * pc); break;
            case 12: want = w; want[0] += s; r = fit(pc + s); break;
            case 13: want = w; want[0] += s; r = fit(s + pc); break;
            case 14: want = w; want[0] -= s; r = fit(pc - s); break;
            case 15: want = scale(w, -1); want[0] += s; r = fit(s - pc); break;
            case 16: want = scale(w, s); r = fit(pc * s); break;
            case 17: want = scale(w, s); r = fit(s * pc); break;
            case 18: want = scale(w, 1 / (R) s); r = fit(pc / s); break;
            case 19: want = w; want[0] += s; p += s; r = fit(p); break;
            case 20: want = w; want[0] -= s; p -= s; r = fit(p); break;
            case 21: want = scale(w, s); p *= s; r = fit(p); break;
            case 22: want = scale(w, 1 / (R) s); p /= s; r = fit(p); break;
            case 23: want = scale(w, w[0]); p *= p[0]; r = fit(p); break;
            case 24: want = diff(w, 1); if constexpr (P::degree >= 1) { r = fit(pc.derivative()); break; } else throw mc::Skip();
            case 25: want = integ(w); rounded = true; r = fit(pc.integral()); break;
            case 26: want = scale(w, -1); r = fit(-pc); break;
            case 27: if constexpr (L::degree != P::degree) throw mc::Skip(); else { want = wl; p = l; r = fit(p); } break;
            case 29: {
                R t = w.back();
                if (t == 0 || std::fmod(std::log2(std::fabs(t)), 1) != 0) throw mc::Skip();
                want = scale(w, 1 / t);
                p /= p[P::degree];
                r = fit(p);
                break;
            }
            case 30: want = diff(w, 2); if constexpr (P::degree >= 2) { r = fit(pc.template derivative<2>()); break; } else throw mc::Skip();
            case 31: want = w; r = fit(+pc); break;
        }
        c.check(pc == p0 && l == l0, "operands", "%s changed an operand", names[op]);
        return r;
    }
};

static const std::vector<Ref> patterns = {{1, 2, 3, 4, 5, 6, 7, 8, 9, 10}, {-3, 0, 5, 0, -2, 0, 1, 0, 4, 1}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0},
                                          {0.5, -0.25, 8, -16, 3, 1, -1, 0, 0, 2}, {0, 7, 0, 0, 0, 1, 0, 0, 0, -1}, {2, -7, 11, 13, -17, 19, 23, -29, 31, 37}};

static void execution(mc::Ctx &c) {
    int mode = (int) c.choose("mode", 2);
    Ref w;
    int da, top = c.thorough ? 6 : SMALL;
    if (mode == 0) { // all coefficients of a small alphabet, one operation
        da = (int) c.choose("degree", 4);
        for (int i = 0; i <= da; ++i) w.push_back(c.pick("coefficient", std::vector<double>{0, 1, -2, 3}));
        c.shard();
    } else {
        da = (int) c.choose("degree", top + 1);
        w = patterns[c.choose("pattern", patterns.size())];
        w.resize(da + 1);
        c.shard();
    }
    Big p = make<Big>(w, (int) c.choose("built", mode ? 4 : 1));
    int depth = mode == 0 ? 1 : c.thorough ? 3 : 2;
    bool exact = true;
    for (int k = 0; k < depth && exact; ++k) {
        int op = (int) c.choose("operation", 33);
        c.trail.back().label = op == 32 ? "stop" : names[op];
        if (op == 32) break;
        Ref wl{1};
        Sc s = 2;
        bool usesL = op <= 8 || op == 27 || op == 28, usesS = (op >= 12 && op <= 22) || op == 28;
        if (usesL) {
            int d = (int) c.choose("other degree", SMALL + 1);
            wl = patterns[k == 0 ? c.choose("other pattern", mode ? 3 : 2) : 3 + k % 2];
            wl.resize(d + 1);
        }
        if (usesS) s = k == 0 ? (Sc) c.pick("scalar", std::vector<double>{2, -0.5, 1, -4}) : (Sc) -2;
        Lit l = make<Lit>(wl, k % 2);
        Ref want;
        Perform f{c, op, w, wl, s, want};
        p = std::visit(f, p, l);
        exact = op != 25;
        c.step();
        w = want;
    }
    // what was reached is looked at in full once per program (every prefix is a program of its own)
    if (exact) std::visit([&](auto &q) { observe(c, q, w); }, p);
    else std::visit([&](auto &q) { same(c, q, w, "integral", true); }, p);
}

MC_MAIN(execution)
