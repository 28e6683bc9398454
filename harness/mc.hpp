// Bounded exhaustive explorer: runs every case of a finite, indexed space on the
// real library in forked workers, counts states / transitions / traces, and
// reports every property violation (including crashes and hangs of the code
// under test) with the case that produced it.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <signal.h>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace mc
{
    inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull)
    {
        auto *b = (const unsigned char *)p;
        for (size_t i = 0; i < n; i++) {
            h ^= b[i];
            h *= 1099511628211ull;
        }
        return h;
    }
    inline uint64_t fnv(const std::string &s) { return fnv(s.data(), s.size()); }

    struct Viol {
        char key[200];
        char detail[1800];
    };

    static const uint64_t SETSIZE = 1u << 23;
    static const int MAXVIOL = 64;
    static const int MAXSAMP = 12;
    static const int MAXW = 64;

    struct Shared {
        std::atomic<uint64_t> states, transitions, traces, dropped, next;
        std::atomic<uint64_t> nviol, nnew, nsamp; // nnew: violations that are not known findings
        Viol viol[MAXVIOL];
        char samp[MAXSAMP][700];
        struct W {
            std::atomic<uint64_t> idx; // index of the case being run
            std::atomic<uint64_t> started;
            char desc[1500];
        } w[MAXW];
        std::atomic<uint64_t> set[SETSIZE];
    };

    inline Shared *&sh()
    {
        static Shared *s = nullptr;
        return s;
    }
    struct Options {
        std::string tier = "quick", out, replay;
        int workers = 8;
        double budget = 1e9; // seconds
        double stop = 1e9;   // seconds after which a violation ends the exploration
        std::set<std::string> known;
        bool quick() const { return tier == "quick"; }
    };
    inline Options &opt()
    {
        static Options o;
        return o;
    }
    inline std::map<std::string, std::string> &notes()
    {
        static std::map<std::string, std::string> n;
        return n;
    }
    inline bool &incomplete()
    {
        static bool b = false;
        return b;
    }
    inline double now()
    {
        struct timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        return t.tv_sec + t.tv_nsec * 1e-9;
    }
    inline double &t0()
    {
        static double t = 0;
        return t;
    }
    inline int &myworker()
    {
        static int w = 0;
        return w;
    }

    inline void state(uint64_t fp)
    {
        if (fp == 0)
            fp = 1;
        auto *s = sh();
        uint64_t i = (fp * 0x9E3779B97F4A7C15ull) >> 41;
        for (int probe = 0; probe < 256; probe++) {
            auto &slot = s->set[(i + probe) & (SETSIZE - 1)];
            uint64_t v = slot.load(std::memory_order_relaxed);
            if (v == fp)
                return;
            if (v == 0) {
                uint64_t z = 0;
                if (slot.compare_exchange_strong(z, fp)) {
                    s->states++;
                    return;
                }
                if (z == fp)
                    return;
            }
        }
        s->dropped++;
    }
    inline void state(const std::string &x) { state(fnv(x)); }
    inline void step(uint64_t n = 1) { sh()->transitions += n; }

    inline void fail_raw(const std::string &key, const std::string &detail)
    {
        auto *s = sh();
        for (uint64_t i = 0; i < s->nviol && i < MAXVIOL; i++)
            if (key == s->viol[i].key)
                return;
        if (!opt().known.count(key))
            s->nnew++;
        uint64_t i = s->nviol++;
        if (i >= MAXVIOL)
            return;
        snprintf(s->viol[i].key, sizeof s->viol[i].key, "%s", key.c_str());
        snprintf(s->viol[i].detail, sizeof s->viol[i].detail, "%s", detail.c_str());
    }
    // a violation was found and the time for collecting further ones is over
    inline bool enough() { return sh()->nnew > 0 && now() - t0() > opt().stop; }
    inline std::string curdesc() { return std::string(sh()->w[myworker()].desc); }
    // a property violation. key: what fails (stable), detail: values
    inline void fail(const std::string &key, const std::string &detail = "")
    {
        fail_raw(key, curdesc() + (detail.empty() ? "" : " :: " + detail));
    }
    inline void expect(bool ok, const std::string &key, const std::string &detail = "")
    {
        if (!ok)
            fail(key, detail);
    }
    inline void desc(const std::string &d)
    {
        snprintf(sh()->w[myworker()].desc, sizeof(sh()->w[0].desc), "%s", d.c_str());
    }
    inline void sample(const std::string &s)
    {
        auto i = sh()->nsamp++;
        if (i < (uint64_t)MAXSAMP)
            snprintf(sh()->samp[i], sizeof sh()->samp[0], "%s", s.c_str());
    }

    // Run fn(i) for every i in [0,n) in forked workers. `hang`: seconds a single
    // case may take.
    inline void for_all(const std::string &name, uint64_t n, const std::function<void(uint64_t)> &fn,
                        double hang = 240)
    {
        auto *s = sh();
        int W = opt().workers;
        if (!opt().replay.empty()) {
            // replay=<space>:<index>
            auto pos = opt().replay.rfind(':');
            if (opt().replay.substr(0, pos) != name)
                return;
            uint64_t i = strtoull(opt().replay.c_str() + pos + 1, 0, 10);
            desc(name + ":" + std::to_string(i));
            fn(i);
            s->traces++;
            return;
        }
        if (n == 0)
            return;
        if (enough()) {
            incomplete() = true;
            return;
        }
        if ((uint64_t)W > n)
            W = (int)n;
        std::vector<pid_t> pid(W, 0);
        s->next = 0;
        std::vector<double> since(W, now());
        std::vector<uint64_t> last(W, ~0ull);
        std::vector<int> crashes(W, 0);
        auto spawn = [&](int w) {
            fflush(stdout);
            fflush(stderr);
            pid_t p = fork();
            if (p == 0) {
                myworker() = w;
                int code = 0;
                for (uint64_t i; (i = s->next++) < n;) {
                    s->w[w].idx = i;
                    s->w[w].started = 1;
                    desc(name + ":" + std::to_string(i));
                    if (now() - t0() > opt().budget || enough()) {
                        code = 3;
                        break;
                    }
                    try {
                        fn(i);
                    } catch (const std::exception &e) {
                        fail("unexpected exception in " + name, e.what());
                    } catch (const char *e) {
                        fail("unexpected exception in " + name, e);
                    }
                    s->traces++;
                }
                s->w[w].idx = n + w;
                _exit(code);
            }
            pid[w] = p;
            since[w] = now();
            last[w] = ~0ull;
        };
        for (int w = 0; w < W; w++) {
            s->w[w].idx = w;
            spawn(w);
        }
        int live = W;
        double over = 0;
        while (live > 0) {
            int st;
            pid_t p = waitpid(-1, &st, WNOHANG);
            if (p <= 0) {
                usleep(2000);
                if (enough()) {
                    if (over == 0)
                        over = now();
                    else if (now() - over > 20)
                        for (int w = 0; w < W; w++)
                            if (pid[w])
                                kill(pid[w], SIGKILL);
                }
                for (int w = 0; w < W; w++) {
                    if (!pid[w])
                        continue;
                    uint64_t cur = s->w[w].idx;
                    if (cur != last[w]) {
                        last[w] = cur;
                        since[w] = now();
                    } else if (now() - since[w] > hang) {
                        kill(pid[w], SIGKILL);
                        fail_raw("hang in " + name, std::string(s->w[w].desc) + " :: no progress");
                        since[w] = now() + 1e6;
                    }
                }
                continue;
            }
            int w = -1;
            for (int k = 0; k < W; k++)
                if (pid[k] == p)
                    w = k;
            if (w < 0)
                continue;
            pid[w] = 0;
            bool clean = WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 3);
            if (clean) {
                if (WEXITSTATUS(st) == 3)
                    incomplete() = true;
                live--;
                continue;
            }
            uint64_t cur = s->w[w].idx;
            std::string how = WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) :
                                                "exit " + std::to_string(WEXITSTATUS(st));
            if (!(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL))
                fail_raw("crash in " + name, std::string(s->w[w].desc) + " :: " + how);
            if (s->next >= n || ++crashes[w] > 20 || enough()) {
                live--;
                continue;
            }
            spawn(w);
        }
    }

    inline std::string jesc(const std::string &x)
    {
        std::string o;
        for (unsigned char c : x) {
            if (c == '"' || c == '\\') {
                o += '\\';
                o += c;
            } else if (c < 0x20 || c >= 0x7f) {
                char b[8];
                snprintf(b, sizeof b, "\\u%04x", c);
                o += b;
            } else
                o += c;
        }
        return o;
    }

    inline void init(int argc, char **argv)
    {
        t0() = now();
        for (int i = 1; i < argc; i++) {
            std::string a = argv[i];
            auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if (a == "--tier")
                opt().tier = val();
            else if (a == "--out")
                opt().out = val();
            else if (a == "--replay")
                opt().replay = val();
            else if (a == "--workers")
                opt().workers = atoi(val().c_str());
            else if (a == "--budget")
                opt().budget = atof(val().c_str());
            else if (a == "--stop")
                opt().stop = atof(val().c_str());
            else if (a == "--known")
                opt().known.insert(val());
        }
        sh() = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                              MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (sh() == MAP_FAILED)
            abort();
        // the library logs to stdout: keep our own channel and silence it
        if (!getenv("EG_KEEP_STDOUT")) {
            fflush(stdout);
            int fd = open("/dev/null", O_WRONLY);
            dup2(fd, 1);
            close(fd);
        }
    }
    inline void note(const std::string &k, const std::string &v) { notes()[k] = v; }

    inline int finish()
    {
        auto *s = sh();
        std::ostringstream o;
        o << "{\"states\":" << s->states << ",\"transitions\":" << s->transitions
          << ",\"traces\":" << s->traces << ",\"dropped\":" << s->dropped
          << ",\"incomplete\":" << (incomplete() ? "true" : "false") << ",\"violations\":[";
        uint64_t nv = std::min<uint64_t>(s->nviol, MAXVIOL);
        for (uint64_t i = 0; i < nv; i++)
            o << (i ? "," : "") << "{\"key\":\"" << jesc(s->viol[i].key) << "\",\"detail\":\""
              << jesc(s->viol[i].detail) << "\"}";
        o << "],\"samples\":[";
        uint64_t ns = std::min<uint64_t>(s->nsamp, MAXSAMP);
        for (uint64_t i = 0; i < ns; i++)
            o << (i ? "," : "") << "\"" << jesc(s->samp[i]) << "\"";
        o << "],\"notes\":{";
        bool first = true;
        for (auto &kv : notes()) {
            o << (first ? "" : ",") << "\"" << jesc(kv.first) << "\":\"" << jesc(kv.second) << "\"";
            first = false;
        }
        o << "}}";
        if (!opt().out.empty()) {
            FILE *f = fopen(opt().out.c_str(), "w");
            fputs(o.str().c_str(), f);
            fclose(f);
        } else
            fprintf(stderr, "%s\n", o.str().c_str());
        return 0;
    }
} // namespace mc
