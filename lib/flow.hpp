// Shared by C03 (flow), C04 (energy derivative) and C05 (angle): positions, energies and reference transfers.
#ifndef VERIF_FLOW_HPP
#define VERIF_FLOW_HPP

#include "probs.hpp"

namespace vp {
    struct Named {
        std::string name;
        double v;
    };

    // positions that matter: ends, sector borders, next to them, inside sectors of both directions
    inline std::vector<Named> positions(const matslise::Matslise<double> &ms, bool thorough) {
        std::vector<Named> r;
        auto add = [&](double x, const std::string &n) {
            if (!(x >= ms.domain.min && x <= ms.domain.max)) return;
            for (auto &q: r) if (q.v == x) return;
            r.push_back({n, x});
        };
        double L = ms.domain.max - ms.domain.min;
        add(ms.domain.min, "xmin");
        add(ms.domain.max, "xmax");
        std::vector<int> s{0, ms.matchIndex, ms.matchIndex + 1, (int) ms.sectors.size() - 1};
        if (thorough) { s.push_back(1); s.push_back((int) ms.sectors.size() / 3); }
        std::set<int> done;
        for (int i: s) {
            if (i < 0 || i >= (int) ms.sectors.size() || !done.insert(i).second) continue;
            double x = ms.sectors[i]->max, h = x - ms.sectors[i]->min;
            add(x, mc::strf("border%d", i));
            add(std::nextafter(x, x + 1), mc::strf("border%d+ulp", i));
            add(std::nextafter(x, x - 1), mc::strf("border%d-ulp", i));
            add(x - 5e-13, mc::strf("border%d-5e-13", i));
            add(x + 3e-12, mc::strf("border%d+3e-12", i));
            add(ms.sectors[i]->min + 0.3 * h, mc::strf("sector%d+.3", i));
            if (thorough || i == 0) add(ms.sectors[i]->min + 0.8 * h, mc::strf("sector%d+.8", i));
            if (thorough) add(x - 1e-7 * h, mc::strf("border%d-1e-7h", i));
        }
        add(ms.domain.min + 0.71 * L, "71%");
        return r;
    }

    inline std::vector<Named> energies(const matslise::Matslise<double> &ms, const Prob &p, bool thorough) {
        std::vector<Named> r;
        double lo = (double) p.P.lower(), up = (double) p.P.upper(), L = ms.domain.max - ms.domain.min;
        auto add = [&](double e, const std::string &n) {
            // keep the growth of solutions representable with many digits to spare
            double g = std::sqrt(std::max(0., up - e)) * L;
            if (g > 60) return;
            for (auto &q: r) if (q.v == e) return;
            r.push_back({n, e});
        };
        auto &s0 = *ms.sectors[0];
        auto &sm = *ms.sectors[ms.matchIndex];
        add(lo - 1, "V-1");
        add(s0.vs[0], "mean of sector 0");
        add(sm.vs[0] + 1e-9, "mean of match sector+1e-9");
        add(up + 3, "max V+3");
        add(up + 70, "max V+70");
        add(lo - 30, "V-30");
        double h = s0.max - s0.min;
        add(s0.vs[0] + 100.5 / (h * h), "Z=-100.5");
        add(s0.vs[0] + 99.5 / (h * h), "Z=-99.5");
        add(s0.vs[0] - 100.5 / (h * h), "Z=100.5");
        add(s0.vs[0] - 99.5 / (h * h), "Z=99.5");
        if (thorough) {
            add(lo - 300, "V-300");
            add((lo + up) / 2, "mid V");
            add(sm.vs[0] - 1e-3, "mean of match sector-1e-3");
            add(up + 900, "max V+900");
            add(up + 2e4, "max V+2e4");
        }
        return r;
    }

    struct Transfer { // reference transfer between two positions, with derivatives to E
        ref::S c[2];
        int zeros[2];
    };

    inline Transfer transfer(const ref::Pot &P, double E, double from, double to) {
        Transfer t;
        for (int k = 0; k < 2; ++k) {
            auto tr = ref::integrate(P, E, {(R) (k == 0), (R) (k == 1), 0, 0}, from, to);
            t.c[k] = tr.u;
        }
        return t;
    }
}
#endif
