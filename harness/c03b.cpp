// C03/C04, accuracy profile of one sector: potentials A*P_k (shifted Legendre polynomials, alone and combined) on one
// sector of either direction, evaluated in long double.  The error at a quarter, half, three quarters and the whole
// of the sector must stay within 4 times the truncation error the formulas have for that degree, width and energy
// (c03b_table.hpp, generated by -DGEN: largest error over the positions, for the solution and its E-derivative).
#define MATSLISE_LONG_DOUBLE
#include "matslise/matslise.h"
#include "explore.hpp"
#include "ref.hpp"
#include <array>
#ifndef PART
#define PART 3
#endif
typedef long double R;
using namespace matslise;
using std::vector;

static const vector<vector<int>> &combos() {
    static const vector<vector<int>> c{{0}, {1}, {2}, {3}, {4}, {5}, {6}, {7}, {8}, {9}, {10}, {11}, {12}, {13}, {14}, {15}, {1, 2}, {1, 3}, {2, 3}, {1, 2, 3},
                                       {1, 4}, {2, 4}, {3, 4}, {1, 5}, {2, 5}, {3, 4, 5}, {1, 6}, {1, 7}, {2, 6}, {1, 8}, {2, 7}, {6, 7}, {7, 8}, {5, 9}, {1, 14}, {2, 13}};
    return c;
}
static const vector<R> widths{1, .5L, .25L};
static const vector<R> energies{0, -3, 7, 60, -50};

static vector<R> coefs(const vector<int> &ks, R h) { // sum of shifted Legendre polynomials in x/h, coefficients of powers of x
    static const vector<vector<R>> L = [] {
        vector<vector<R>> p(17);
        p[0] = {1};
        p[1] = {-1, 2};
        for (int n = 1; n < 16; ++n) {
            vector<R> q(n + 2, 0);
            for (int i = 0; i <= n; ++i) { q[i] -= (2 * n + 1) * p[n][i]; q[i + 1] += 2 * (2 * n + 1) * p[n][i]; }
            for (int i = 0; i < n; ++i) q[i] -= n * p[n - 1][i];
            for (auto &v: q) v /= (n + 1);
            p[n + 1] = q;
        }
        return p;
    }();
    vector<R> c(17, 0);
    for (int k: ks) for (size_t i = 0; i < L[k].size(); ++i) c[i] += L[k][i] / powl(h, i);
    return c;
}

struct Err { R y, e; };

// class 0: end of the sector with the step formulas, 1: end without them, 2: inside
static Err measure(const vector<int> &ks, R h, R E, int f, bool useH, bool backward) {
    auto c = coefs(ks, h);
    R lo = backward ? -h : 0;
    auto P = ref::single(0, h, c);
    // the backward sector is the right half of a symmetric problem, seen from its right end
    std::function<R(const R &)> V = [&](const R &x) { return backward ? P(h - (x < 0 ? -x : x)) : P(x); };
    Matslise<R> ms(V, lo, h, 1e-10L, sector_builder::UniformSectorBuilder<Matslise<R>>(backward ? 2 : 1));
    Err r{0, 0};
    for (int k = 0; k < 2; ++k) {
        Y<R> y;
        y.data << (k == 0), (k == 1), 0, 0;
        if (backward) y.data[1] *= -1;
        auto o = ms.propagate(E, y, backward ? h : R(0), backward ? h - h * f / 4 : h * f / 4, useH).first;
        if (backward) { o.data[1] *= -1; o.data[3] *= -1; }
        auto t = ref::integrate(P, E, {(R) (k == 0), (R) (k == 1), 0, 0}, 0, h * f / 4).u;
        r.y = std::max(r.y, std::max(fabsl(o.data[0] - t.y), fabsl(o.data[1] - t.d)));
        r.e = std::max(r.e, std::max(fabsl(o.data[2] - t.ye), fabsl(o.data[3] - t.de)));
    }
    return r;
}

#ifdef GEN
int main() {
    printf("// generated by c03b.cpp -DGEN\nstatic const float profile[%zu][%zu][%zu][3][2] = {\n", combos().size(), widths.size(), energies.size());
    for (auto &ks: combos()) {
        printf("{");
        for (R h: widths) {
            printf("{");
            for (R E: energies) {
                R m[3][2] = {};
                for (int f = 1; f <= 4; ++f) for (int u = 0; u < 2; ++u) {
                    int cl = f < 4 ? 2 : u ? 0 : 1;
                    Err e = measure(ks, h, E, f, u, false);
                    m[cl][0] = std::max(m[cl][0], e.y);
                    m[cl][1] = std::max(m[cl][1], e.e);
                }
                printf("{");
                for (auto &q: m) printf("{%.2Le,%.2Le},", q[0], q[1]);
                printf("},");
            }
            printf("},\n");
        }
        printf("},\n");
    }
    printf("};\n");
}
#else
#include "c03b_table.hpp"
static void execution(mc::Ctx &c) {
    size_t k = c.choose("degrees", combos().size());
    std::string n;
    for (int d: combos()[k]) n += (n.empty() ? "" : "+") + std::to_string(d);
    c.trail.back().label = n;
    c.shard();
    size_t w = c.choose("width", widths.size());
    c.trail.back().label = mc::strf("%Lg", widths[w]);
    size_t e = c.choose("E", energies.size());
    c.trail.back().label = mc::strf("%Lg", energies[e]);
    bool back = c.flag("backward sector");
    int f = 1 + (int) c.choose("quarters", 4);
    bool u = f == 4 && !c.flag("without step formulas");
    auto r = measure(combos()[k], widths[w], energies[e], f, u, back);
    int cl = f < 4 ? 2 : u ? 0 : 1;
    c.step(2);
    R g = expl(2 * sqrtl(fabsl(energies[e])) * widths[w]);
    double tol = 4. * profile[k][w][e][cl][PART == 3 ? 0 : 1] + 3e-17 * (double) g * (1 + fabs((double) energies[e]));
    c.near((double) (PART == 3 ? r.y : r.e), 0, tol, "accuracy of one sector");
    double h[2] = {(double) r.y, (double) r.e};
    c.state(mc::hash(h, 16));
    c.outcome(mc::hash(h, 16));
}
MC_MAIN(execution)
#endif
