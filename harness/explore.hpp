// Explorer of thread schedules: runs a scenario once per schedule, each time in a
// fresh process, and derives the next schedules from the operations that
// conflicted. Without a bound: dynamic partial-order reduction with sleep sets
// (every Mazurkiewicz trace of the scenario is executed). With a bound: bounded
// partial-order reduction over all schedules with at most that many preemptions.
#pragma once
#include "mc.hpp"
#include "sched.hpp"
#include <algorithm>
#include <array>
#include <atomic>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <mutex>
#include <thread>

namespace explore
{
    using namespace sched;
    struct Scenario {
        std::string name;
        int bound = -1; // preemptions; -1: all schedules
        std::function<void()> prep; // in the scenario's process, before its executions
        std::function<void()> body; // one execution
        uint64_t cap = 200000;
        double weight = 1;
    };
    struct Node {
        uint8_t enabled, backtrack, done, sleep, tid;
        Pend p[MAXT];
    };
    struct Result {
        uint64_t runs = 0, redundant = 0, events = 0, accesses = 0;
        bool complete = true;
        std::map<std::string, uint64_t> outcomes;
    };
    inline std::string schedule(const Trace &t)
    {
        std::string s;
        int last = -1, count = 0;
        for (int i = 0; i < t.n && s.size() < 900; i++) {
            int x = t.e[i].tid;
            if (x != last) {
                if (last >= 0)
                    s += "x" + std::to_string(count) + " ";
                s += "t" + std::to_string(x);
                last = x;
                count = 0;
            }
            count++;
        }
        return s + "x" + std::to_string(count);
    }
    inline std::string tail(const Trace &t)
    {
        std::string s;
        if (t.n < MAXE)
            for (int i = 0; i < MAXT; i++)
                if (t.e[t.n].live >> i & 1)
                    s += " t" + std::to_string(i) + ":" + name(t.e[t.n].p[i].op);
        return s;
    }

    inline void analyse(const Trace &t, std::vector<Node> &st, int from, bool bounded)
    {
        int n = t.n;
        std::vector<std::array<uint32_t, MAXT>> clk(n);
        std::array<uint32_t, MAXT> C[MAXT];
        for (auto &c : C)
            c.fill(0);
        struct O {
            std::vector<int> evw, evr;
            std::array<uint32_t, MAXT> w, r; // clocks of writes so far, of reads so far
            O() { w.fill(0), r.fill(0); }
        };
        std::map<uint64_t, O> ob;
        auto join = [](std::array<uint32_t, MAXT> &a, const std::array<uint32_t, MAXT> &b) {
            for (int i = 0; i < MAXT; i++)
                if (b[i] > a[i])
                    a[i] = b[i];
        };
        auto look = [&](int p, const Pend &x, int j) {
            int best = -1;
            for (uint64_t a : {x.a, x.b > 64 ? x.b : 0}) {
                if (!a)
                    continue;
                auto it = ob.find(a);
                if (it == ob.end())
                    continue;
                bool rd = x.op == ALOAD || x.op == RDLOCK;
                for (int kind = rd ? 1 : 0; kind < 2; kind++) {
                    auto &ev = kind ? it->second.evw : it->second.evr;
                    unsigned dead = 1u << p;
                    for (int k = (int)ev.size() - 1; k >= 0 && dead != (1u << MAXT) - 1; k--) {
                        int i = ev[k];
                        if (i <= best)
                            break;
                        int q = t.e[i].tid;
                        if (dead >> q & 1)
                            continue;
                        const Pend &y = t.e[i].p[q];
                        if (clk[i][q] <= C[p][q]) {
                            dead |= 1u << q; // ordered already, and so is all before it
                            continue;
                        }
                        if (!dependent(x, y) || !coenabled(x, y))
                            continue;
                        best = i;
                        break;
                    }
                }
            }
            if (best < 0)
                return;
            if (getenv("EG_CONFLICTS")) {
                const Pend &y = t.e[best].p[t.e[best].tid];
                Dl_info d;
                dladdr((void *)x.a, &d);
                fprintf(stderr, "conflict %s/%s %lx %s\n", name(x.op), name(y.op), (long)x.a, d.dli_sname ? d.dli_sname : "");
            }
            auto add = [&](int i) {
                if (st[i].enabled >> p & 1)
                    st[i].backtrack |= 1 << p;
                else
                    st[i].backtrack |= st[i].enabled;
            };
            add(best);
            if (bounded) {
                // also where the block of that thread began
                int i = best;
                while (i > 0 && t.e[i - 1].tid == t.e[best].tid)
                    i--;
                add(i);
            }
            (void)j;
        };
        for (int j = 0; j < n; j++) {
            int p = t.e[j].tid;
            const Pend &x = t.e[j].p[p];
            if (j >= from)
                look(p, x, j);
            // the event's clock
            C[p][p]++;
            if (x.op == CREATE) {
                // the child starts after its creator: all its events follow
                for (int q = 1; q < MAXT; q++)
                    if (j + 1 < n && !(t.e[j].live >> q & 1) && (t.e[j + 1].live >> q & 1))
                        join(C[q], C[p]);
            }
            bool rd = x.op == ALOAD || x.op == RDLOCK;
            bool silentop = x.op == NONE || x.op == START || x.op == YIELD || x.op == END;
            if (!silentop)
                for (uint64_t a : {x.a, x.b > 64 ? x.b : 0}) {
                    if (!a)
                        continue;
                    auto &o = ob[a];
                    join(C[p], o.w);
                    if (!rd)
                        join(C[p], o.r);
                }
            if (!silentop)
                for (uint64_t a : {x.a, x.b > 64 ? x.b : 0}) {
                    if (!a)
                        continue;
                    auto &o = ob[a];
                    join(rd ? o.r : o.w, C[p]);
                    (rd ? o.evr : o.evw).push_back(j);
                }
            clk[j] = C[p];
        }
        // operations that were announced but never executed
        if (n < MAXE && t.status != DONE)
            for (int p = 0; p < MAXT; p++)
                if (t.e[n].live >> p & 1)
                    look(p, t.e[n].p[p], n);
    }

    inline Result run(const Scenario &sc, Trace *t, const std::function<void(const std::string &, const std::string &)> &bad)
    {
        Result res;
        bool bounded = sc.bound >= 0;
        std::vector<Node> st;
        std::vector<uint8_t> prefix;
        uint8_t sleep = 0;
        for (;;) {
            t->status = RUNNING;
            t->n = 0;
            t->fails = t->races = 0;
            fflush(stdout);
            pid_t c = fork();
            if (c == 0) {
                alarm(60);
                if (!getenv("EG_STDERR")) {
                    int n = open("/dev/null", O_WRONLY);
                    dup2(n, 2);
                    close(n);
                }
                begin(t, prefix.data(), (int)prefix.size(), sleep);
                try {
                    sc.body();
                } catch (const std::exception &e) {
                    sched::fail((std::string("an operation fails: ") + e.what()).c_str());
                    t->status = DONE;
                }
                _exit(0);
            }
            int ws;
            waitpid(c, &ws, 0);
            res.runs++;
            res.events += t->n;
            res.accesses += t->accesses;
            mc::sh()->traces++;
            mc::step(t->n);
            std::string where = sc.name + " schedule " + schedule(*t);
            if (WIFSIGNALED(ws))
                bad(WTERMSIG(ws) == SIGALRM ? "an operation does not return" : "a schedule crashes", where + " signal " + std::to_string(WTERMSIG(ws)));
            else if (WEXITSTATUS(ws) == 92) {
                fprintf(stderr, "%s: execution did not repeat at %d of %zu\n", sc.name.c_str(), t->n, prefix.size());
                for (int k = 0; k <= t->n; k++)
                    for (int q = 0; q < MAXT; q++)
                        if ((t->e[k].enabled != st[k].enabled || memcmp(&t->e[k].p[q], &st[k].p[q], 1)) && k + 3 > t->n)
                            fprintf(stderr, "  %d: t%d %s/%s planned t%d enabled %x/%x\n", k, q, name(t->e[k].p[q].op), name(st[k].p[q].op), st[k].tid, t->e[k].enabled, st[k].enabled);
                _exit(3);
            } else if (WEXITSTATUS(ws))
                bad("a schedule crashes", where + " exit " + std::to_string(WEXITSTATUS(ws)));
            else if (t->status == DEADLOCK)
                bad("a schedule deadlocks", where + " waiting:" + tail(*t));
            else if (t->status == TOOLONG)
                bad("a schedule does not terminate", where.substr(0, 300));
            for (int i = 0; i < t->races && i < 4; i++)
                bad(std::string("data race: ") + t->race[i], where);
            for (int i = 0; i < t->fails && i < 8; i++)
                bad(t->fail[i], where);
            if (t->status == REDUNDANT)
                res.redundant++;
            else if (t->outcome[0])
                res.outcomes[t->outcome]++;
            {
                uint64_t h = mc::fnv(sc.name);
                for (int i = 0; i < t->n; i++) {
                    h = mc::fnv(&t->e[i].tid, 1, h);
                    if (i + 1 >= (int)prefix.size())
                        mc::state(h);
                }
            }
            int n = t->n;
            int from = (int)prefix.size() ? (int)prefix.size() - 1 : 0;
            for (int k = (int)st.size(); k < n; k++) {
                Node nd;
                nd.enabled = t->e[k].enabled;
                nd.tid = t->e[k].tid;
                nd.backtrack = nd.done = 1 << nd.tid;
                nd.sleep = t->e[k].sleep;
                memcpy(nd.p, t->e[k].p, sizeof nd.p);
                st.push_back(nd);
            }
            analyse(*t, st, from, bounded);
            // the next schedule
            bool more = false;
            while (!st.empty()) {
                Node &nd = st.back();
                uint8_t cand = nd.backtrack & ~nd.done & nd.enabled;
                if (!bounded)
                    cand &= ~nd.sleep;
                else {
                    // preemptions spent before this event
                    int spent = 0;
                    for (size_t k = 1; k + 1 < st.size(); k++)
                        if (st[k].tid != st[k - 1].tid && (st[k].enabled >> st[k - 1].tid & 1) && st[k].p[st[k - 1].tid].op != YIELD)
                            spent++;
                    size_t k = st.size() - 1;
                    for (int p = 0; p < MAXT; p++)
                        if (cand >> p & 1 && k > 0 && p != st[k - 1].tid && (nd.enabled >> st[k - 1].tid & 1) && nd.p[st[k - 1].tid].op != YIELD && spent + 1 > sc.bound)
                            cand &= ~(1 << p);
                }
                if (!cand) {
                    st.pop_back();
                    continue;
                }
                int p = __builtin_ctz(cand);
                uint8_t s = nd.sleep | nd.done;
                sleep = 0;
                if (!bounded)
                    for (int q = 0; q < MAXT; q++)
                        if (q != p && (s >> q & 1) && !dependent(nd.p[q], nd.p[p]))
                            sleep |= 1 << q;
                nd.done |= 1 << p;
                nd.tid = (uint8_t)p;
                more = true;
                break;
            }
            if (!more)
                break;
            prefix.clear();
            for (auto &nd : st)
                prefix.push_back(nd.tid);
            if (res.runs >= sc.cap) {
                res.complete = false;
                break;
            }
        }
        return res;
    }

    // The explorer is tried on programs whose schedules are known before it is
    // believed: k critical sections in each of two threads have C(2k, k) orders,
    // a lock-order inversion has a deadlock, an unguarded counter a race, and an
    // atomic flag that publishes data has none.
    inline void selftest()
    {
        auto *t = (Trace *)mmap(nullptr, sizeof(Trace), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        static std::mutex a, b;
        static int x;
        static std::atomic<bool> flag{false};
        auto two = [](std::function<void()> f, std::function<void()> g) {
            std::thread p(f), q(g);
            p.join();
            q.join();
            sched::end();
        };
        auto explore = [&](std::function<void()> body, int bound, int &races, int &dead) {
            races = dead = 0;
            Scenario sc{"self test", bound, {}, body};
            auto r = run(sc, t, [&](const std::string &k, const std::string &) {
                races += k.compare(0, 9, "data race") == 0;
                dead += k == "a schedule deadlocks";
            });
            return r.runs - r.redundant;
        };
        auto need = [](bool ok, const char *what) {
            if (!ok) {
                fprintf(stderr, "self test of the explorer fails: %s\n", what);
                _exit(3);
            }
        };
        int races, dead;
        auto section = [](int k) {
            return [k] {
                for (int i = 0; i < k; i++) {
                    std::lock_guard<std::mutex> l(a);
                    x++;
                }
            };
        };
        uint64_t n = explore([&] { two(section(3), section(3)); }, -1, races, dead);
        need(n == 20 && !races && !dead, "orders of critical sections");
        n = explore([&] { two(section(3), section(3)); }, 0, races, dead);
        need(n == 2 && !races && !dead, "orders without preemption");
        explore([&] {
            two([] { std::lock_guard<std::mutex> l(a), m(b); }, [] { std::lock_guard<std::mutex> l(b), m(a); });
        }, -1, races, dead);
        need(!races && dead, "a deadlock is found");
        explore([&] { two([] { x++; }, section(1)); }, -1, races, dead);
        need(races && !dead, "a data race is found");
        n = explore([&] {
            two([] { x = 5; flag.store(true, std::memory_order_release); }, [] { if (flag.load(std::memory_order_acquire)) x++; });
        }, -1, races, dead);
        need(n == 2 && !races && !dead, "published data is no race");
        explore([&] {
            two([] { x = 5; flag.store(true, std::memory_order_relaxed); }, [] { if (flag.load(std::memory_order_relaxed)) x++; });
        }, -1, races, dead);
        need(races, "unpublished data is a race");
        munmap(t, sizeof(Trace));
    }

    // explores every scenario, each in a process of its own
    inline void all(std::vector<Scenario> &scs)
    {
        if (const char *only = getenv("EG_ONLY"))
            for (size_t i = scs.size(); i-- > 0;)
                if (scs[i].name.find(only) == std::string::npos)
                    scs.erase(scs.begin() + i);
        std::stable_sort(scs.begin(), scs.end(), [](const Scenario &x, const Scenario &y) { return x.weight > y.weight; });
        selftest();
        mc::note("explorer", "self test on programs with known schedules, deadlocks and races passed");
        struct Out {
            uint64_t runs, redundant, events, accesses, outcomes;
            bool complete;
        };
        auto *out = (Out *)mmap(nullptr, sizeof(Out) * scs.size(), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        mc::for_all("schedules", scs.size(), [&](uint64_t i) {
            pid_t p = fork();
            if (p == 0) {
                auto *t = (Trace *)mmap(nullptr, sizeof(Trace), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
                if (scs[i].prep)
                    scs[i].prep();
                auto r = run(scs[i], t, [&](const std::string &k, const std::string &d) { mc::fail(k, d); });
                out[i] = {r.runs, r.redundant, r.events, r.accesses, r.outcomes.size(), r.complete};
                std::string o = scs[i].name + ": " + std::to_string(r.runs) + " schedules, " + std::to_string(r.outcomes.size()) + " outcomes";
                int k = 0;
                for (auto &x : r.outcomes)
                    if (k++ < 6)
                        o += " {" + x.first + "}x" + std::to_string(x.second);
                mc::sample(o);
                if (getenv("EG_VERBOSE"))
                    fprintf(stderr, "%s (%llu redundant, %.0f events, %.0f accesses each)%s\n", o.c_str(), (unsigned long long)r.redundant,
                            (double)r.events / r.runs, (double)r.accesses / r.runs, r.complete ? "" : " INCOMPLETE");
                _exit(0);
            }
            int st;
            waitpid(p, &st, 0);
            if (!WIFEXITED(st) || WEXITSTATUS(st))
                mc::fail("the exploration of a scenario breaks off", scs[i].name + " " + std::to_string(st));
        }, 3000);
        for (size_t i = 0; i < scs.size(); i++) {
            mc::note("scenario " + scs[i].name, std::to_string(out[i].runs) + " schedules (" + std::to_string(out[i].redundant) + " redundant), " + std::to_string(out[i].events) + " operations, " +
                                                    std::to_string(out[i].accesses) + " memory accesses checked, " + (scs[i].bound < 0 ? "all interleavings" : "at most " + std::to_string(scs[i].bound) + " preemptions"));
            if (!out[i].complete && out[i].runs)
                mc::incomplete() = true;
        }
    }
} // namespace explore
