// C15: requests outside the contract.  Grids of requests around the border of validity (index ranges, positions, orders
// of points, pairs of conditions) and all histories valid - invalid - invalid - valid over the alphabet of operations.
#include "world.hpp"
using namespace vp;

static Pristine pristine;

struct Reply {
    bool threw = false, std = false;
    std::string s, what;
};

template<typename F>
static Reply ask(F f) {
    Reply r;
    Out o;
    try {
        f(o);
    } catch (const std::exception &e) {
        r.threw = r.std = true;
        r.what = e.what();
    } catch (...) {
        r.threw = true;
    }
    r.s = o.s;
    return r;
}

static std::vector<YD> conditions() {
    YD e = bc(0, 1);
    e.data(3) = 0.25; // differs in the energy derivative only
    return {bc(0, 1), bc(1, 0), bc(1, -2), bc(0, -1), e};
}

template<typename V>
static void pairs(Out &o, const V &v) {
    o << (int) v.size();
    for (auto &q: v) o << std::get<0>(q) << std::get<1>(q);
}

static double up(double x, int n) { for (int i = 0; i < std::abs(n); ++i) x = std::nextafter(x, n > 0 ? 1e300 : -1e300); return x; }

struct Bad {
    std::string name;
    std::function<void(World &, Out &)> run;
};

// representative requests that have to be refused
static std::vector<Bad> refusals() {
    auto D = bc(0, 1), N = bc(1, 0);
    std::vector<Bad> r;
    r.push_back({"A.byIndex(-1,3)", [=](World &w, Out &o) { put(o, w.A().eigenvaluesByIndex(-1, 3, D, D)); }});
    r.push_back({"A.byIndex(-4,-2)", [=](World &w, Out &o) { put(o, w.A().eigenvaluesByIndex(-4, -2, D, N)); }});
    r.push_back({"A.byIndex(3,1)", [=](World &w, Out &o) { put(o, w.A().eigenvaluesByIndex(3, 1, N, D)); }});
    r.push_back({"A.pairs(-1,2)", [=](World &w, Out &o) { pairs(o, w.A().eigenpairsByIndex(-1, 2, D, D)); }});
    r.push_back({"A.propagate outside", [=](World &w, Out &o) { o.matrix(w.A().propagate(3.1, N, w.set.dom.a, w.set.dom.b + 1).first.data); }});
    r.push_back({"A.propagate from outside", [=](World &w, Out &o) { o.matrix(w.A().propagate(3.1, N, w.set.dom.a - 1e-9, w.set.dom.b).first.data); }});
    r.push_back({"H.byIndex(D,N)", [=](World &w, Out &o) { put(o, w.H().eigenvaluesByIndex(0, 3, D, N)); }});
    r.push_back({"H.byIndex(-1,1)", [=](World &w, Out &o) { put(o, w.H().eigenvaluesByIndex(-1, 1, D)); }});
    r.push_back({"H.pairs(D,N)", [=](World &w, Out &o) { pairs(o, w.H().eigenpairsByIndex(0, 3, D, N)); }});
    r.push_back({"H.eigenfunction(D,N)", [=](World &w, Out &o) { o.matrix((*w.H().eigenfunction(3.1, D, N))(.1)); }});
    r.push_back({"H.error(D,N)", [=](World &w, Out &o) { o << w.H().eigenvalueError(3.1, D, N, 1); }});
    r.push_back({"fH(unsorted)", [=](World &w, Out &o) { Eigen::ArrayXd x(3); x << .2, -.1, .3; o.matrix(w.fH()(x)); }});
    r.push_back({"S.byIndex(-1,1)", [=](World &w, Out &o) { put(o, w.S().eigenvaluesByIndex(-1, 1, D, D)); }});
    r.push_back({"S.pairs(2,1)", [=](World &w, Out &o) { pairs(o, w.S().eigenpairsByIndex(2, 1, D, N)); }});
    r.push_back({"P.propagate outside", [=](World &w, Out &o) {
        matslise::Y<double, 1, 2> y;
        y.data << 1, 0, 0, 1, 0, 0, 0, 0;
        o.matrix(w.P().propagate(3.1, y, w.set.dom.a, w.set.dom.b + .5).first.data);
    }});
    r.push_back({"M.propagate outside", [=](World &w, Out &o) { matslise::Y<double, Eigen::Dynamic> y(2, 2); y.data.setOnes(); o.matrix(w.M().propagate(3.1, y, w.set.dom.a, w.set.dom.b + 1).first.data); }});
    r.push_back({"M.propagateColumn outside", [=](World &w, Out &o) { matslise::Y<double, Eigen::Dynamic, 1> y(2, 1); y.data.setOnes(); o.matrix(w.M().propagateColumn(3.1, y, w.set.dom.a - 1, w.set.dom.b).data); }});
    r.push_back({"M.propagatePsi outside", [=](World &w, Out &o) { Eigen::MatrixXd y = Eigen::MatrixXd::Identity(2, 2); o.matrix(w.M().propagatePsi(3.1, y, w.set.dom.a, w.set.dom.b + 2)); }});
    return r;
}

static void execution(mc::Ctx &c) {
    static const std::vector<Op> ops = operations();
    static const std::vector<Bad> bads = refusals();
    static std::map<std::pair<int, int>, std::string> fresh;
    static const std::vector<Setting> sets = settings();
    int s = (int) c.choose("setting", c.thorough ? sets.size() : 3);
    c.trail.back().label = sets[s].name;
    int mode = (int) c.choose("mode", 6);
    static const char *modes[] = {"index range", "window", "position", "order of points", "two conditions", "history"};
    c.trail.back().label = modes[mode];
    auto want = [&](int op) -> const std::string & {
        auto it = fresh.find({s, op});
        if (it == fresh.end()) it = fresh.emplace(std::make_pair(s, op), pristine.ask(c.worker, s, op)).first;
        return it->second;
    };
    auto named = [&](const std::string &n) {
        for (size_t i = 0; i < ops.size(); ++i) if (ops[i].name == n) return (int) i;
        fprintf(stderr, "no operation %s\n", n.c_str());
        _exit(5);
    };
    auto still = [&](World &w, std::initializer_list<const char *> l) {
        for (auto n: l) {
            int i = named(n);
            std::string r = perform(w, ops[i]);
            const std::string &q = want(i);
            if (r != q) c.fail("afterwards", ops[i].name + " gave " + Out::readable(r) + " instead of " + Out::readable(q));
            ++c.checks;
            c.step();
        }
    };
    auto expect = [&](const Reply &r, bool refuse, const char *what) {
        c.step();
        if (refuse) {
            c.check(r.threw, "not refused", "%s: answered with %s", what, Out::readable(r.s).c_str());
            c.check(r.std, "not refused", "%s: something that is no std::exception was thrown", what);
        } else c.check(!r.threw, "refused", "%s: %s", what, r.what.c_str());
        c.outcome(mc::hash(r.s + r.what));
    };
    auto cs = conditions();
    if (mode == 0) {
        static const std::vector<std::string> objs{"A", "H", "P", "Q", "S", "A pairs", "H pairs", "P pairs", "S pairs"};
        std::string ob = c.pick("object", objs);
        int b = (int) c.choose("condition", ob[0] == 'P' || ob[0] == 'Q' ? 1 : 3);
        c.shard();
        int top = c.thorough ? 6 : 4;
        int i = (int) c.choose("from", top + 4) - 3, j = (int) c.choose("to", top + 4) - 3;
        auto &w = *c.memo([&] { return std::make_shared<World>(sets[s]); });
        auto call = [&](int i, int j) {
            return ask([&](Out &o) {
                if (ob == "A") put(o, w.A().eigenvaluesByIndex(i, j, cs[b], cs[0]));
                else if (ob == "H") put(o, w.H().eigenvaluesByIndex(i, j, cs[b]));
                else if (ob == "P") put(o, w.P().eigenvaluesByIndex(i, j));
                else if (ob == "Q") put(o, w.Q().eigenvaluesByIndex(i, j));
                else if (ob == "S") put(o, w.S().eigenvaluesByIndex(i, j, cs[b], cs[0]));
                else if (ob == "A pairs") pairs(o, w.A().eigenpairsByIndex(i, j, cs[b], cs[0]));
                else if (ob == "H pairs") pairs(o, w.H().eigenpairsByIndex(i, j, cs[b]));
                else if (ob == "P pairs") pairs(o, w.P().eigenpairsByIndex(i, j));
                else pairs(o, w.S().eigenpairsByIndex(i, j, cs[b], cs[0]));
            });
        };
        Reply r = call(i, j);
        bool bad = i < 0 || i > j;
        if (ob[0] == 'P' || ob[0] == 'Q') {
            // refused, or what the valid part of the range contains
            if (bad && !r.threw) {
                Reply q = i > j ? Reply() : call(std::max(i, 0), std::max(j, 0));
                if (i > j) { Out o; o << 0; q.s = o.s; }
                c.check(r.s == q.s, "not refused", "[%d,%d) gave %s", i, j, Out::readable(r.s).c_str());
            } else expect(r, bad, "index range");
        } else expect(r, bad, "index range");
        if (i == j && !bad) { Out o; o << 0; c.check(r.s == o.s, "empty range", "[%d,%d) is not empty", i, j); }
        if (ob[0] == 'A') still(w, {"A.byIndex(0,4,D,D)", "A.matching"});
        if (ob[0] == 'H') still(w, {"H.byIndex(0,5,D)", "fH(0.6)"});
        if (ob[0] == 'P') still(w, {"P.byIndex(0,4)"});
        if (ob[0] == 'Q') still(w, {"Q.byIndex(0,4)"});
        if (ob[0] == 'S') still(w, {"S.byIndex(0,3,D,D)"});
        c.state(mc::hash(mc::strf("%d %s %d %d %d", s, ob.c_str(), b, i, j)));
    } else if (mode == 1) {
        static const std::vector<std::string> objs{"A", "H", "P", "P pairs"};
        std::string ob = c.pick("object", objs);
        c.shard();
        std::vector<double> e{-1e6, -500, -30, 0, 7.3, 40};
        double a = c.pick("from", e), b = c.pick("to", e);
        auto &w = *c.memo([&] { return std::make_shared<World>(sets[s]); });
        int n = -1;
        Reply r = ask([&](Out &o) {
            if (ob == "A") n = (int) w.A().eigenvalues(a, b, cs[0], cs[1]).size();
            else if (ob == "H") n = (int) w.H().eigenvalues(a, b, cs[0]).size();
            else if (ob == "P") n = (int) w.P().eigenvalues(a, b).size();
            else n = (int) w.P().eigenpairs(a, b).size();
        });
        expect(r, false, "window");
        if (a >= b) c.check(n == 0, "empty window", "[%g,%g] contains %d", a, b, n);
        if (ob[0] == 'A') still(w, {"A.window(D,D)"});
        if (ob[0] == 'H') still(w, {"H.window"});
        if (ob[0] == 'P') still(w, {"P.window"});
        c.state(mc::hash(mc::strf("%d %s %g %g", s, ob.c_str(), a, b)));
    } else if (mode == 2) {
        static const std::vector<std::string> objs{"A", "A2", "B", "C", "P", "M", "M column", "M psi"};
        std::string ob = c.pick("object", objs);
        c.shard();
        double lo = sets[s].dom.a, hi = sets[s].dom.b;
        std::vector<double> pos{lo, hi, (lo + hi) / 2, lo + .3, up(lo, 1), up(hi, -1), up(lo, -1), up(hi, 1), lo - 1e-12, hi + 1e-12, lo - 1, hi + 1, -1e300, 1e300, -INFINITY, INFINITY, NAN};
        double a = c.pick("from", pos), b = c.pick("to", pos);
        double E = c.pick("energy", std::vector<double>{3.1, -20});
        bool h = c.flag("use_h");
        auto &w = *c.memo([&] { return std::make_shared<World>(sets[s]); });
        Reply r = ask([&](Out &o) {
            matslise::Y<double, 1, 2> y2;
            y2.data << 1, 0, 0, 1, 0, 0, 0, 0;
            matslise::Y<double, Eigen::Dynamic> m(2, 2);
            m.data.setZero();
            m.data(0, 0) = m.data(1, 1) = 1;
            if (ob == "A") o.matrix(w.A().propagate(E, cs[1], a, b, h).first.data);
            else if (ob == "A2") o.matrix(w.A().propagate(E, y2, a, b, h).first.data);
            else if (ob == "B") o.matrix(w.B().propagate(E, cs[2], a, b, h).first.data);
            else if (ob == "C") o.matrix(w.C().propagate(E, cs[0], a, b, h).first.data);
            else if (ob == "P") o.matrix(w.P().propagate(E, y2, a, b, h).first.data);
            else if (ob == "M") o.matrix(w.M().propagate(E, m, a, b, h).first.data);
            else if (ob == "M column") {
                matslise::Y<double, Eigen::Dynamic, 1> y(2, 1);
                y.data.setZero();
                y.data(0, 0) = 1;
                o.matrix(w.M().propagateColumn(E, y, a, b, h).data);
            } else {
                Eigen::MatrixXd y = Eigen::MatrixXd::Identity(2, 2);
                o.matrix(w.M().propagatePsi(E, y, a, b));
            }
        });
        bool bad = !(lo <= a && a <= hi && lo <= b && b <= hi);
        expect(r, bad, "positions");
        if (ob[0] == 'A') still(w, {"A.propagate"});
        if (ob[0] == 'B') still(w, {"B.propagate"});
        if (ob[0] == 'C') still(w, {"C.propagate"});
        if (ob[0] == 'P') still(w, {"P.matching"});
        if (ob[0] == 'M') still(w, {"M.propagate"});
        c.state(mc::hash(mc::strf("%d %s %.17g %.17g %g %d", s, ob.c_str(), a, b, E, h)));
    } else if (mode == 3) {
        double m = sets[s].dom.b - sets[s].dom.a;
        std::vector<double> pos{-m, -.3 * m, up(0, -1), 0, .2 * m, up(.2 * m, 1), m};
        int n = (int) c.choose("length", c.thorough ? 6 : 5);
        Eigen::ArrayXd x(n);
        bool sorted = true;
        auto &w = *c.memo([&] { return std::make_shared<World>(sets[s]); });
        for (int i = 0; i < n; ++i) {
            x[i] = c.pick("x", pos);
            if (i == 0) c.shard();
            if (i && x[i] < x[i - 1]) sorted = false;
        }
        c.shard();
        Eigen::ArrayXXd got;
        Reply r = ask([&](Out &o) { got = w.fH()(x); o.matrix(got); });
        expect(r, !sorted, "points");
        if (sorted) c.check(got.rows() == n && got.cols() == 2, "shape", "%d rows for %d points", (int) got.rows(), n);
        still(w, {"fH(0.6)"});
        if (n < 3) still(w, {"fH(array)"});
        c.state(mc::hash(x.data(), n * 8));
    } else if (mode == 4) {
        static const std::vector<std::string> what{"byIndex", "window", "pairs", "eigenfunction", "eigenfunction index", "error", "error index"};
        std::string q = c.pick("request", what);
        c.shard();
        int i = (int) c.choose("left", cs.size()), j = (int) c.choose("right", cs.size());
        auto &w = *c.memo([&] { return std::make_shared<World>(sets[s]); });
        auto &H = w.H();
        // through both types
        bool base = c.flag("abstract");
        const matslise::AbstractMatslise<double> &B = H;
        auto call = [&](const auto &H) {
            return ask([&](Out &o) {
                if (q == "byIndex") put(o, H.eigenvaluesByIndex(0, 3, cs[i], cs[j]));
                else if (q == "window") put(o, H.eigenvalues(-5, 20, cs[i], cs[j]));
                else if (q == "pairs") pairs(o, H.eigenpairsByIndex(0, 2, cs[i], cs[j]));
                else if (q == "eigenfunction") o.matrix((*H.eigenfunction(3.1, cs[i], cs[j]))(.1));
                else if (q == "eigenfunction index") o.matrix((*H.eigenfunction(3.1, cs[i], cs[j], 1))(.1));
                else if (q == "error") o << H.eigenvalueError(3.1, cs[i], cs[j]);
                else o << H.eigenvalueError(3.1, cs[i], cs[j], 1);
            });
        };
        Reply r = base ? call(B) : call(H);
        expect(r, i != j, "conditions");
        still(w, {"H.byIndex(0,5,D)", "H.pairs(0,3,D)", "H.error"});
        c.state(mc::hash(mc::strf("%d %s %d %d %d", s, q.c_str(), i, j, base)));
    } else {
        std::vector<int> small;
        for (size_t i = 0; i < ops.size(); ++i) if (ops[i].core) small.push_back((int) i);
        int a = (int) c.choose("first", ops.size());
        c.trail.back().label = ops[a].name;
        c.shard();
        int k = (int) c.choose("refused", bads.size());
        c.trail.back().label = bads[k].name;
        int k2 = (int) c.choose("refused", c.thorough ? bads.size() : 2);
        if (!c.thorough) k2 = k2 ? (k + 5) % (int) bads.size() : k;
        c.trail.back().label = bads[k2].name;
        int b = small[c.choose("then", small.size())];
        c.trail.back().label = ops[b].name;
        World w(sets[s]);
        auto valid = [&](int i) {
            std::string r = perform(w, ops[i]);
            const std::string &q = want(i);
            if (r != q) c.fail("afterwards", ops[i].name + " gave " + Out::readable(r) + " instead of " + Out::readable(q));
            ++c.checks;
            c.step();
        };
        valid(a);
        for (int q: {k, k2}) expect(ask([&](Out &o) { bads[q].run(w, o); }), true, bads[q].name.c_str());
        valid(b);
        valid(a);
        c.state(mc::hash(mc::strf("%d %d %d %d %d", s, a, k, k2, b)));
    }
}

int main(int argc, char **argv) {
    pristine.start(12);
    return mc::run(argc, argv, execution);
}
