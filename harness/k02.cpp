// K02: schedules of threads that share the precomputation buffers.
#include "explore.hpp"
#include "refproof.hpp"
#include "spaces.hpp"
#include <electionguard/precompute_buffers.hpp>
#include <thread>
using namespace space;
namespace eg = electionguard;
typedef eg::PrecomputeBufferContext PB;

static Z sk[2], pk[2];
static unique_ptr<eg::ElementModP> key[2];
static const Z HASH = 4711;

// tuples that were found correct before (in any process of the scenario)
struct Cache {
    std::atomic<uint64_t> f[4096];
};
static Cache *cache;
static bool known(uint64_t h)
{
    for (int i = 0; i < 4096; i++) {
        uint64_t x = cache->f[(h + i) & 4095];
        if (x == h)
            return true;
        if (!x)
            return false;
    }
    return false;
}
static void remember(uint64_t h)
{
    for (int i = 0; i < 4096; i++) {
        uint64_t z = 0;
        if (cache->f[(h + i) & 4095].compare_exchange_strong(z, h) || z == h)
            return;
    }
}
typedef unique_ptr<eg::TwoTriplesAndAQuadruple> Entry;
typedef unique_ptr<eg::Triple> Tri;

struct Judge {
    std::set<string> seen;
    int entries = 0, triples = 0;
    string keys;
    int triple(eg::Triple &t)
    {
        string e = t.get_exp()->toHex(), g = t.get_g_to_exp()->toHex(), k = t.get_pubkey_to_exp()->toHex();
        if (!seen.insert(e).second)
            sched::fail("a precomputed exponent is handed out twice");
        int r = 0;
        for (int i = 0; i < 2; i++) {
            uint64_t h = mc::fnv(e + g + k + std::to_string(i));
            if (!known(h)) {
                Z x = ref::val(*t.get_exp());
                if (ref::powm(ref::G(), x) != ref::val(*t.get_g_to_exp()) || ref::powm(pk[i], x) != ref::val(*t.get_pubkey_to_exp()))
                    continue;
                remember(h);
            }
            r |= 1 << i;
            break;
        }
        if (!r)
            sched::fail("a precomputed value is wrong");
        return r;
    }
    int quad(eg::Quadruple &q)
    {
        string a = q.get_exp1()->toHex(), b = q.get_exp2()->toHex(), c = q.get_g_to_exp1()->toHex(), d = q.get_g_to_exp2_mult_by_pubkey_to_exp1()->toHex();
        if (!seen.insert(a).second || !seen.insert(b).second)
            sched::fail("a precomputed exponent is handed out twice");
        int r = 0;
        for (int i = 0; i < 2; i++) {
            uint64_t h = mc::fnv(a + b + c + d + std::to_string(i));
            if (!known(h)) {
                Z x = ref::val(*q.get_exp1()), y = ref::val(*q.get_exp2());
                if (ref::powm(ref::G(), x) != ref::val(*q.get_g_to_exp1()) ||
                    ref::mulp(ref::powm(ref::G(), y), ref::powm(pk[i], x)) != ref::val(*q.get_g_to_exp2_mult_by_pubkey_to_exp1()))
                    continue;
                remember(h);
            }
            r |= 1 << i;
            break;
        }
        if (!r)
            sched::fail("a precomputed value is wrong");
        return r;
    }
    void entry(const Entry &e)
    {
        if (!e)
            return;
        entries++;
        int k = triple(*e->get_triple1()) & triple(*e->get_triple2()) & quad(*e->get_quad());
        if (!k)
            sched::fail("the values of one entry belong to different keys");
        keys += k == 1 ? "A" : "B";
    }
    void tri(const Tri &t)
    {
        if (!t)
            return;
        triples++;
        triple(*t);
    }
    // everything that is left
    int drain()
    {
        int n = 0;
        while (auto e = PB::getTwoTriplesAndAQuadruple()) {
            entry(e);
            n++;
            if (n > 50) {
                sched::fail("the buffer does not run empty");
                break;
            }
        }
        int m = 0;
        while (auto t = PB::getTriple()) {
            tri(t);
            if (++m > 100)
                break;
        }
        return n;
    }
};
typedef std::function<void()> Fn;
static void par(const vector<Fn> &fs)
{
    vector<std::thread> ts;
    for (auto &f : fs)
        ts.emplace_back(f);
    for (auto &t : ts)
        t.join();
    sched::end();
}

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool quick = mc::opt().quick();
    cache = (Cache *)mmap(nullptr, sizeof(Cache), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sk[0] = 65537, sk[1] = ref::Q() - 2;
    for (int i = 0; i < 2; i++) {
        pk[i] = ref::powm(ref::G(), sk[i]);
        key[i] = ref::mkP(pk[i]);
        eg::pow_mod_p(*key[i], *ref::mkQ(5));
    }
    eg::g_pow_p(*ref::mkQ(5));
    PB::getInstance();

    auto size = [](uint32_t n, bool fill) {
        return [n, fill] {
            PB::init(n);
            if (fill)
                PB::populate(*key[0]);
        };
    };
    auto fill = [](int k) { return [k] { PB::populate(*key[k]); }; };
    vector<explore::Scenario> S;
    auto add = [&](const string &name, int bound, Fn prep, Fn body) { S.push_back({name, bound, prep, body}); };

    add("fill(2) | take take", -1, size(2, false), [&] {
        Entry a, b;
        par({fill(0), [&] { a = PB::getTwoTriplesAndAQuadruple(); b = PB::getTwoTriplesAndAQuadruple(); }});
        Judge j;
        j.entry(a), j.entry(b);
        j.drain();
        if (j.entries < 2)
            sched::fail("values are lost");
        if (j.triples < 2)
            sched::fail("values are lost");
    });
    add("fill(3) | stop", -1, size(3, false), [&] {
        uint32_t at = 0;
        par({fill(0), [&] { PB::stop_populate(); at = PB::get_current_queue_size(); }});
        uint32_t n = PB::get_current_queue_size();
        if (n > at + 1)
            sched::fail("filling goes on after stop");
        if (n > 3)
            sched::fail("filling goes beyond the configured size");
        Judge j;
        if (j.drain() != (int)n)
            sched::fail("the reported size is not the number of values held");
    });
    add("fill(2) | stop size2 fill", -1, size(2, false), [&] {
        par({fill(0), [&] { PB::stop_populate(); PB::init(2); PB::populate(*key[0]); }});
        Judge j;
        int n = j.drain();
        if (n < 2)
            sched::fail("restarted filling does not reach the configured size");
        if (n > 2)
            sched::fail("filling goes beyond the configured size");
    });
    add("fill(2) | fill", -1, size(2, false), [&] {
        par({fill(0), fill(0)});
        Judge j;
        int n = j.drain();
        if (n != 2)
            sched::fail(n < 2 ? "values are lost" : "filling goes beyond the configured size");
    });
    add("fill(2) A | fill B", -1, size(2, false), [&] {
        par({fill(0), fill(1)});
        Judge j;
        int n = j.drain();
        if (n > 2)
            sched::fail("filling goes beyond the configured size");
        if (j.keys.find('A') != string::npos && j.keys.find('B') != string::npos)
            sched::fail("the buffer holds values of two keys");
    });
    add("fill(3) | size1", -1, size(3, false), [&] {
        par({fill(0), [&] { PB::init(1); }});
        Judge j;
        int n = j.drain();
        if (n < 1 || n > 3)
            sched::fail("filling misses the configured size");
        if (PB::get_max_queue_size() != 1)
            sched::fail("the configured size is lost");
    });
    add("held 3: take take | take take", -1, size(3, true), [&] {
        Entry a, b, c, d;
        par({[&] { a = PB::getTwoTriplesAndAQuadruple(); b = PB::getTwoTriplesAndAQuadruple(); },
             [&] { c = PB::getTwoTriplesAndAQuadruple(); d = PB::getTwoTriplesAndAQuadruple(); }});
        Judge j;
        for (auto *e : {&a, &b, &c, &d})
            j.entry(*e);
        if (j.entries != 3)
            sched::fail("values are lost");
        if (j.drain())
            sched::fail("values are handed out while others remain");
    });
    add("held 1: take | take | triple", -1, size(1, true), [&] {
        Entry a, b;
        Tri t;
        par({[&] { a = PB::getTwoTriplesAndAQuadruple(); }, [&] { b = PB::getTwoTriplesAndAQuadruple(); }, [&] { t = PB::getTriple(); }});
        Judge j;
        j.entry(a), j.entry(b), j.tri(t);
        j.drain();
        if (j.entries != 1 || j.triples != 2)
            sched::fail("values are lost");
    });
    add("triple triple | triple triple | fill(1)", -1, size(1, false), [&] {
        Tri a, b, c, d;
        par({[&] { a = PB::getTriple(); b = PB::getTriple(); }, [&] { c = PB::getTriple(); d = PB::getTriple(); }, fill(0)});
        Judge j;
        for (auto *e : {&a, &b, &c, &d})
            j.tri(*e);
        j.drain();
        if (j.triples != 2 || j.entries != 1)
            sched::fail("values are lost");
    });
    add("fill(2) | take | empty", -1, size(2, false), [&] {
        Entry a;
        par({fill(0), [&] { a = PB::getTwoTriplesAndAQuadruple(); }, [&] { PB::empty_queues(); }});
        Judge j;
        j.entry(a);
        int n = j.drain();
        if (n > 2)
            sched::fail("filling goes beyond the configured size");
    });
    add("held 2: empty | take | triple", -1, size(2, true), [&] {
        Entry a;
        Tri t;
        par({[&] { PB::empty_queues(); }, [&] { a = PB::getTwoTriplesAndAQuadruple(); }, [&] { t = PB::getTriple(); }});
        Judge j;
        j.entry(a), j.tri(t);
        if (j.drain())
            sched::fail("an emptied buffer holds values");
    });
    add("fill(2) | size? limit? | take", -1, size(2, false), [&] {
        uint32_t a = 9, b = 9, m = 0;
        Entry e;
        par({fill(0), [&] { a = PB::get_current_queue_size(); m = PB::get_max_queue_size(); b = PB::get_current_queue_size(); },
             [&] { e = PB::getTwoTriplesAndAQuadruple(); }});
        if (a > 2 || b > 2 || m != 2)
            sched::fail("a wrong size is reported");
        Judge j;
        j.entry(e);
        j.drain();
        if (j.entries < 2)
            sched::fail("values are lost");
    });
    add("fill(2) | stop | take", -1, size(2, false), [&] {
        Entry e;
        par({fill(0), [&] { PB::stop_populate(); }, [&] { e = PB::getTwoTriplesAndAQuadruple(); }});
        Judge j;
        j.entry(e);
        j.drain();
        if (j.entries > 3)
            sched::fail("filling goes beyond the configured size");
    });
    // encryption with the buffers in use by others
    auto desc = SelM{"sel", "cand", 3}.build();
    auto enc = [&](int k, uint64_t vote, int n) {
        eg::PlaintextBallotSelection p("sel", vote);
        return eg::encryptSelection(p, *desc, *key[k], *ref::mkQ(HASH), *ref::mkQ(Z(1000 + n)), false, false);
    };
    auto good = [&](const eg::CiphertextBallotSelection &r, int k, uint64_t vote, Judge &j) {
        string pads;
        Z a = ref::val(*r.getCiphertext()->getPad()), b = ref::val(*r.getCiphertext()->getData());
        if (ref::mulp(b, ref::inv(ref::powm(a, sk[k]))) != (vote ? ref::G() : Z(1)))
            sched::fail("a selection decrypts to another vote");
        auto d = rp::read(*r.getProof());
        if (!rp::ok(d, a, b, pk[k], HASH))
            sched::fail("the proof of a selection is invalid");
        for (auto &z : vector<Z>{a, d.a0, d.a1})
            if (!j.seen.insert(hex(z)).second)
                sched::fail("randomness is used twice");
    };
    add("held 1: encrypt | encrypt", -1, size(1, true), [&] {
        unique_ptr<eg::CiphertextBallotSelection> a, b;
        par({[&] { a = enc(0, 1, 1); }, [&] { b = enc(0, 0, 2); }});
        Judge j;
        good(*a, 0, 1, j), good(*b, 0, 0, j);
        j.drain();
        if (j.entries)
            sched::fail("values are lost");
    });
    add("held 1: encrypt | encrypt other key | empty", quick ? 2 : 3, size(1, true), [&] {
        unique_ptr<eg::CiphertextBallotSelection> a, b;
        par({[&] { a = enc(0, 1, 1); }, [&] { b = enc(1, 0, 2); }, [&] { PB::empty_queues(); }});
        Judge j;
        good(*a, 0, 1, j), good(*b, 1, 0, j);
        j.drain();
    });
    add("fill(1) | encrypt", -1, size(1, false), [&] {
        unique_ptr<eg::CiphertextBallotSelection> a;
        par({fill(0), [&] { a = enc(0, 1, 1); }});
        Judge j;
        good(*a, 0, 1, j);
        j.drain();
    });
    if (!quick) {
        add("fill(2) | take take | take", -1, size(2, false), [&] {
            Entry a, b, c;
            par({fill(0), [&] { a = PB::getTwoTriplesAndAQuadruple(); b = PB::getTwoTriplesAndAQuadruple(); }, [&] { c = PB::getTwoTriplesAndAQuadruple(); }});
            Judge j;
            j.entry(a), j.entry(b), j.entry(c);
            j.drain();
            if (j.entries < 2)
                sched::fail("values are lost");
        });
        add("fill(2) A | fill B | take take", -1, size(2, false), [&] {
            Entry a, b;
            par({fill(0), fill(1), [&] { a = PB::getTwoTriplesAndAQuadruple(); b = PB::getTwoTriplesAndAQuadruple(); }});
            Judge j;
            j.entry(a), j.entry(b);
            j.drain();
        });
        add("fill(2) | stop size3 fill | take take", -1, size(2, false), [&] {
            Entry a, b;
            par({fill(0), [&] { PB::stop_populate(); PB::init(3); PB::populate(*key[0]); }, [&] { a = PB::getTwoTriplesAndAQuadruple(); b = PB::getTwoTriplesAndAQuadruple(); }});
            Judge j;
            j.entry(a), j.entry(b);
            int n = j.drain();
            if (n > 3 || n + j.entries < 3)
                sched::fail("filling misses the configured size");
        });
        add("fill(3) | fill | take | empty", -1, size(3, false), [&] {
            Entry a;
            par({fill(0), fill(0), [&] { a = PB::getTwoTriplesAndAQuadruple(); }, [&] { PB::empty_queues(); }});
            Judge j;
            j.entry(a);
            if (j.drain() > 3)
                sched::fail("filling goes beyond the configured size");
        });
    }
    for (auto &s : S)
        if (s.name.find("empty") != string::npos || s.name.find("| take") != string::npos)
            s.weight++;
    explore::all(S);
    return mc::finish();
}
