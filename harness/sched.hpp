// Interface between a concurrency explorer and the controlled runtime (sched.cpp).
#pragma once
#include <cstdint>
#include <cstddef>

namespace sched
{
    static const int MAXT = 5;       // threads, the main thread included
    static const int MAXE = 60000;   // events of one execution
    enum Op : uint8_t {
        NONE, LOCK, UNLOCK, TRYLOCK, RDLOCK, CWAIT, CBLOCKED, SIGNAL, BCAST, ALOAD, AWRITE,
        GACQ, GREL, ONCE, ONCEEND, CREATE, JOIN, START, EXIT, FWAIT, FBLOCKED, FWAKE, YIELD, END
    };
    struct Pend {
        Op op;
        uint64_t a, b; // objects
    };
    struct Event {
        uint8_t tid;
        uint8_t enabled; // mask, before the event
        uint8_t sleep;   // mask, before the event
        uint8_t live;
        Pend p[MAXT];    // next operation of every thread, before the event
    };
    enum Status : int { RUNNING, DONE, DEADLOCK, REDUNDANT, TOOLONG, RACE };
    struct Trace { // in memory shared with the explorer
        int status;
        int n;
        int races;
        char race[4][900];
        uint64_t accesses;
        char fail[8][400]; // failures reported by the scenario
        int fails;
        char outcome[400];
        Event e[MAXE];
    };
    // in the child, before the threads are made
    void begin(Trace *t, const uint8_t *prefix, int n, uint8_t sleep);
    void end();
    void fail(const char *what);
    bool dependent(const Pend &x, const Pend &y);
    bool coenabled(const Pend &x, const Pend &y);
    const char *name(Op o);
} // namespace sched
