// Stateless exhaustive explorer.  A harness is a function execution(Ctx&) that asks every source of
// nondeterminism through Ctx::choose; the explorer runs it once for every sequence of answers (depth-first,
// choice 0 first), in forked workers that claim configurations (the choices made before Ctx::shard()).
#ifndef VERIF_EXPLORE_HPP
#define VERIF_EXPLORE_HPP

#include <any>
#include <atomic>
#include <chrono>
#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <csignal>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {
    struct Violation {
        std::string key, what;
    };
    struct Skip {
    };

    inline std::string strf(const char *fmt, ...) {
        char buf[4096];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        return buf;
    }

    inline uint64_t hash(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
        auto *c = (const unsigned char *) p;
        for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
        return h;
    }

    inline uint64_t hash(const std::string &s, uint64_t h = 1469598103934665603ull) { return hash(s.data(), s.size(), h); }

    inline std::string jsonEscape(const std::string &s) {
        std::string r;
        for (char c: s) {
            if (c == '"' || c == '\\') { r += '\\'; r += c; }
            else if (c == '\n') r += "\\n";
            else if ((unsigned char) c < 32 || (unsigned char) c > 126) r += '?';
            else r += c;
        }
        return r;
    }

    static const int MAXTRAIL = 512, MAXCONF = 1 << 22;
    struct Shared {
        std::atomic<uint8_t> claimed[MAXCONF];
        struct {
            volatile uint32_t n, leaf;
            volatile uint32_t v[MAXTRAIL], m[MAXTRAIL];
            volatile uint32_t nconf, confs[65536];
        } cur[64];
        std::atomic<int> stop;
    };

    class Ctx {
    public:
        struct Choice {
            std::string name, label;
            uint32_t n, v;
        };
        std::vector<Choice> trail;
        std::vector<uint32_t> prefix, prefixN;
        bool thorough = false;
        // counters
        uint64_t leaves = 0, transitions = 0, checks = 0, configs = 0, skipped = 0;
        std::unordered_set<uint64_t> states, outcomes;
        std::map<std::string, uint64_t> counters;
        std::map<std::string, double> maxima;
        bool sharded = false;
        int worker = -1;
        Shared *sh = nullptr;
        int64_t confIndex = -1;
        std::vector<int64_t> claimedConfs;
        std::set<int64_t> only;
        uint64_t confHash = 0;
        std::string noteText;
        std::vector<std::pair<std::vector<uint32_t>, std::any>> memos;
        size_t memoAt = 0;
        double lastRatio = 0;

        void begin() {
            trail.clear();
            sharded = false;
            memoAt = 0;
            noteText.clear();
            confHash = 0;
            if (sh && worker >= 0) sh->cur[worker].n = 0;
        }

        size_t choose(const std::string &name, size_t n, const std::string &label0 = "") {
            (void) label0;
            if (n == 0) throw Skip();
            size_t i = trail.size();
            uint32_t v = 0;
            if (i < prefix.size()) {
                v = prefix[i];
                if (v >= n || (i < prefixN.size() && prefixN[i] != n)) {
                    fprintf(stderr, "DIVERGENCE at choice %zu (%s): %u of %zu\n", i, name.c_str(), v, n);
                    _exit(5);
                }
            }
            trail.push_back({name, "", (uint32_t) n, v});
            if (sh && worker >= 0 && i < MAXTRAIL) {
                sh->cur[worker].v[i] = v;
                sh->cur[worker].m[i] = n;
                sh->cur[worker].n = i + 1;
            }
            return v;
        }

        template<typename T>
        T pick(const std::string &name, const std::vector<T> &v, const std::function<std::string(const T &)> &lab) {
            size_t i = choose(name, v.size());
            trail.back().label = lab(v[i]);
            return v[i];
        }

        template<typename T>
        T pick(const std::string &name, const std::vector<T> &v) {
            size_t i = choose(name, v.size());
            if constexpr (std::is_arithmetic_v<T>) trail.back().label = strf("%.17g", (double) v[i]);
            else if constexpr (std::is_convertible_v<T, std::string>) trail.back().label = v[i];
            else trail.back().label = v[i].name;
            return v[i];
        }

        bool flag(const std::string &name) {
            bool b = choose(name, 2);
            trail.back().label = b ? "yes" : "no";
            return b;
        }

        std::vector<uint32_t> values() const {
            std::vector<uint32_t> r;
            for (auto &c: trail) r.push_back(c.v);
            return r;
        }

        // end of the configuration choices: each configuration is explored by exactly one worker
        void shard() {
            if (sharded) return;
            sharded = true;
            auto v = values();
            confHash = hash(v.data(), v.size() * 4);
            if (worker < 0 && only.empty()) return; // replay of a single leaf
            static std::vector<uint32_t> last{0xffffffffu};
            static bool mine = true;
            if (v != last) {
                last = v;
                ++confIndex;
                if (confIndex >= MAXCONF) { fprintf(stderr, "too many configurations\n"); _exit(5); }
                mine = only.empty() ? !sh->claimed[confIndex].exchange(1) : only.count(confIndex) > 0;
                if (mine) {
                    ++configs;
                    claimedConfs.push_back(confIndex);
                    if (worker >= 0) { auto &q = sh->cur[worker]; if (q.nconf < 65536) { q.confs[q.nconf] = confIndex; q.nconf = q.nconf + 1; } }
                }
            }
            if (!mine) throw Skip();
        }

        // value that only depends on the choices made so far; rebuilt when they change
        template<typename F>
        auto memo(F f) -> decltype(f()) & {
            typedef decltype(f()) T;
            auto v = values();
            size_t k = memoAt++;
            if (k < memos.size() && memos[k].first == v) return **std::any_cast<std::shared_ptr<T>>(&memos[k].second);
            memos.resize(k);
            auto p = std::shared_ptr<T>(new T(f()));
            memos.emplace_back(v, std::any(p));
            return *p;
        }

        void step(uint64_t n = 1) { transitions += n; }

        void state(uint64_t h) { if (states.size() < 8000000) states.insert(h ^ (confHash * 0x9E3779B97F4A7C15ull)); }

        void state(const std::string &s) { state(hash(s)); }

        void outcome(uint64_t h) { if (outcomes.size() < 4000000) outcomes.insert(h); }

        void outcome(const std::string &s) { outcome(hash(s)); }

        void note(const std::string &s) { noteText += (noteText.empty() ? "" : "; ") + s; }

        std::string describe() const {
            std::string s;
            for (auto &c: trail) {
                if (!s.empty()) s += ", ";
                s += c.name + "=" + (c.label.empty() ? std::to_string(c.v) : c.label);
            }
            if (!noteText.empty()) s += " | " + noteText;
            return s;
        }

        [[noreturn]] void fail(const std::string &key, const std::string &what) { throw Violation{key, what}; }

        void check(bool ok, const char *key, const char *fmt, ...) {
            ++checks;
            if (ok) return;
            char buf[4096];
            va_list ap;
            va_start(ap, fmt);
            vsnprintf(buf, sizeof buf, fmt, ap);
            va_end(ap);
            throw Violation{key, buf};
        }

        // |got-want| <= tol ; the largest err/tol seen per key is reported in the evidence
        void near(double got, double want, double tol, const char *key, const std::string &ctx = "") {
            ++checks;
            double err = std::fabs(got - want);
            double ratio = tol > 0 ? err / tol : (err == 0 ? 0 : INFINITY);
            if (!(ratio <= 1))
                throw Violation{key, strf("got %.17g want %.17g err %.3g tol %.3g %s", got, want, err, tol, ctx.c_str())};
            double &m = maxima[key];
            if (ratio > m) m = ratio;
        }

        bool next() { // advance prefix to the next leaf; false when the tree is exhausted
            while (!trail.empty() && trail.back().v + 1 >= trail.back().n) trail.pop_back();
            if (trail.empty()) return false;
            prefix.clear();
            prefixN.clear();
            for (auto &c: trail) { prefix.push_back(c.v); prefixN.push_back(c.n); }
            ++prefix.back();
            return true;
        }
    };

    typedef void (*Execution)(Ctx &);

    inline int leafSeconds = 60;
    inline Shared *gShared = nullptr;
    inline int gWorker = -1;

    inline void onAlarm(int) {
        static const char m[] = "LEAF TIMEOUT\n";
        (void) !write(2, m, sizeof m - 1);
        if (gShared) gShared->stop = 1;
        _exit(7);
    }

    inline void arm(int seconds) {
        struct itimerval t{};
        t.it_value.tv_sec = seconds;
        setitimer(ITIMER_PROF, &t, nullptr);
        t.it_value.tv_sec = 4 * seconds; // waiting for ever
        setitimer(ITIMER_REAL, &t, nullptr);
    }

    inline std::string trailJson(const Ctx &c) {
        std::string s = "[";
        for (size_t i = 0; i < c.trail.size(); ++i)
            s += (i ? "," : "") + std::to_string(c.trail[i].v);
        return s + "]";
    }

    inline std::string trailNJson(const Ctx &c) {
        std::string s = "[";
        for (size_t i = 0; i < c.trail.size(); ++i)
            s += (i ? "," : "") + std::to_string(c.trail[i].n);
        return s + "]";
    }

    inline int run(int argc, char **argv, Execution ex) {
        std::string out = ".", replay, onlyArg;
        int workers = 8;
        double deadline = 120;
        bool thorough = false;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            if (a == "--out") out = argv[++i];
            else if (a == "--workers") workers = atoi(argv[++i]);
            else if (a == "--deadline") deadline = atof(argv[++i]);
            else if (a == "--thorough") thorough = true;
            else if (a == "--replay") replay = argv[++i];
            else if (a == "--only") onlyArg = argv[++i];
            else if (a == "--leaf-seconds") leafSeconds = atoi(argv[++i]);
        }
        signal(SIGPROF, onAlarm);
        signal(SIGALRM, onAlarm);
        if (!replay.empty()) { // comma separated choices
            Ctx c;
            c.thorough = thorough;
            for (char *p = strtok((char *) replay.c_str(), ","); p; p = strtok(nullptr, ",")) c.prefix.push_back(atoi(p));
            arm(leafSeconds);
            c.begin();
            try {
                ex(c);
            } catch (Violation &v) {
                printf("REPRODUCED key=%s\n%s\n%s\n", v.key.c_str(), c.describe().c_str(), v.what.c_str());
                return 1;
            } catch (Skip &) {
                printf("SKIPPED\n");
                return 0;
            } catch (std::exception &e) {
                printf("REPRODUCED key=exception\n%s\nunexpected exception: %s\n", c.describe().c_str(), e.what());
                return 1;
            } catch (...) {
                printf("REPRODUCED key=exception\n%s\nunexpected exception\n", c.describe().c_str());
                return 1;
            }
            printf("HELD\n%s\n", c.describe().c_str());
            return 0;
        }
        gShared = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        auto t0 = std::chrono::steady_clock::now();
        std::vector<pid_t> pids;
        if (!onlyArg.empty()) workers = 1;
        for (int w = 0; w < workers; ++w) {
            pid_t p = fork();
            if (p == 0) {
                gWorker = w;
                FILE *f = fopen((out + "/w" + std::to_string(w) + ".jsonl").c_str(), "w");
                Ctx c;
                c.thorough = thorough;
                c.worker = w;
                c.sh = gShared;
                if (!onlyArg.empty())
                    for (char *q = strtok((char *) onlyArg.c_str(), ","); q; q = strtok(nullptr, ",")) c.only.insert(atoll(q));
                bool capped = false;
                int nv = 0;
                uint64_t nextSample = 1;
                int samples = 0;
                auto report = [&](const std::string &key, const std::string &what) {
                    std::string confs = "[";
                    size_t from = c.claimedConfs.size() > 4000 ? c.claimedConfs.size() - 4000 : 0;
                    for (size_t i = from; i < c.claimedConfs.size(); ++i)
                        confs += (i > from ? "," : "") + std::to_string(c.claimedConfs[i]);
                    fprintf(f, "{\"type\":\"violation\",\"key\":\"%s\",\"what\":\"%s\",\"where\":\"%s\",\"trail\":%s,\"n\":%s,\"confs\":%s]}\n",
                            jsonEscape(key).c_str(), jsonEscape(what).c_str(), jsonEscape(c.describe()).c_str(),
                            trailJson(c).c_str(), trailNJson(c).c_str(), confs.c_str());
                    fflush(f);
                    if (++nv >= 12) gShared->stop = 1;
                };
                do {
                    c.begin();
                    arm(leafSeconds);
                    bool skipped = false;
                    try {
                        ex(c);
                    } catch (Skip &) {
                        skipped = true;
                    } catch (Violation &v) {
                        report(v.key, v.what);
                    } catch (std::exception &e) {
                        report("exception", std::string("unexpected exception: ") + e.what());
                    } catch (...) {
                        report("exception", "unexpected exception of unknown type");
                    }
                    if (!skipped) {
                        ++c.leaves;
                        gShared->cur[w].leaf = c.leaves;
                        if (c.leaves >= nextSample && samples < 6) {
                            nextSample = nextSample * 7 + 3;
                            ++samples;
                            fprintf(f, "{\"type\":\"sample\",\"text\":\"%s\"}\n", jsonEscape(c.describe()).c_str());
                        }
                    } else ++c.skipped;
                    if (gShared->stop) { capped = true; break; }
                    if ((c.leaves & 15) == 0 || skipped) {
                        double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
                        if (el > deadline) { capped = true; break; }
                    }
                } while (c.next());
                arm(0);
                fprintf(f, "{\"type\":\"done\",\"leaves\":%" PRIu64 ",\"transitions\":%" PRIu64 ",\"checks\":%" PRIu64
                           ",\"configs\":%" PRIu64 ",\"states\":%zu,\"capped\":%s,\"confTotal\":%" PRId64,
                        c.leaves, c.transitions, c.checks, c.configs, c.states.size(), capped ? "true" : "false",
                        c.confIndex + 1);
                fprintf(f, ",\"counters\":{");
                bool first = true;
                for (auto &k: c.counters) { fprintf(f, "%s\"%s\":%" PRIu64, first ? "" : ",", k.first.c_str(), k.second); first = false; }
                fprintf(f, "},\"maxima\":{");
                first = true;
                for (auto &k: c.maxima) { fprintf(f, "%s\"%s\":%.3g", first ? "" : ",", k.first.c_str(), k.second); first = false; }
                fprintf(f, "}}\n");
                fclose(f);
                FILE *o = fopen((out + "/w" + std::to_string(w) + ".outcomes").c_str(), "wb");
                for (uint64_t h: c.outcomes) fwrite(&h, 8, 1, o);
                fclose(o);
                _exit(0);
            }
            pids.push_back(p);
        }
        int bad = 0;
        for (int w = 0; w < (int) pids.size(); ++w) {
            int st = 0;
            waitpid(pids[w], &st, 0);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 5) { bad = 5; continue; }
            bool hang = WIFEXITED(st) && WEXITSTATUS(st) == 7;
            std::string tr = "[", tn = "[";
            auto &cur = gShared->cur[w];
            for (uint32_t i = 0; i < cur.n && i < MAXTRAIL; ++i) {
                tr += (i ? "," : "") + std::to_string(cur.v[i]);
                tn += (i ? "," : "") + std::to_string(cur.m[i]);
            }
            FILE *f = fopen((out + "/crash" + std::to_string(w) + ".jsonl").c_str(), "w");
            std::string cf;
            for (uint32_t i = cur.nconf > 4000 ? cur.nconf - 4000 : 0; i < cur.nconf; ++i) cf += (cf.empty() ? "" : ",") + std::to_string(cur.confs[i]);
            fprintf(f, "{\"type\":\"violation\",\"key\":\"%s\",\"what\":\"worker ended with status 0x%x (%s)\",\"where\":\"\",\"trail\":%s],\"n\":%s],\"confs\":[%s]}\n",
                    hang ? "hang" : "crash", st, hang ? "no answer within the time limit" : WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : "abnormal exit",
                    tr.c_str(), tn.c_str(), cf.c_str());
            fclose(f);
        }
        return bad;
    }
}

#define MC_MAIN(ex) int main(int argc, char **argv) { return mc::run(argc, argv, ex); }

#endif
