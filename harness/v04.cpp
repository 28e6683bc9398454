// V04: every block of memory the library returns to the allocator is examined for
// the secret values that were in use, over all bounded histories of the element
// types and over every operation that handles secrets, including failing ones.
#include "mc.hpp"
#include "osrand.hpp"
#include "refproof.hpp"
#include "spaces.hpp"
#include <electionguard/ballot_compact.hpp>
#include <electionguard/chaum_pedersen.hpp>
#include <electionguard/elgamal.hpp>
#include <electionguard/encrypt.h>
#include <electionguard/group.h>
#include <electionguard/nonces.hpp>
#include <electionguard/precompute_buffers.hpp>
#include <execinfo.h>
#include <malloc.h>
#include <unordered_map>
using namespace space;
namespace eg = electionguard;

// ---- the released blocks: copied away in the order of release
static const size_t ARENA = 3ull << 30;
static uint8_t *arena;
static size_t used;
static volatile bool armed;
static bool overflow;
static const bool trace = getenv("EG_TRACE") != nullptr;
static vector<std::pair<size_t, vector<void *>>> *traces;
static void note_release(void *p)
{
    size_t n = malloc_usable_size(p);
    if (used + n + 16 > ARENA) {
        overflow = true;
        return;
    }
    memcpy(arena + used, &n, 8);
    memcpy(arena + used + 8, &p, 8);
    if (trace) {
        armed = false;
        void *bt[24];
        int k = backtrace(bt, 24);
        traces->push_back({used, vector<void *>(bt, bt + k)});
        armed = true;
    }
    memcpy(arena + used + 16, p, n);
    used += 16 + n;
}
extern "C" void __libc_free(void *);
extern "C" void *__libc_realloc(void *, size_t);
extern "C" void free(void *p)
{
    if (p && armed)
        note_release(p);
    // what a block held is not found again in the unused part of a later one
    if (p)
        explicit_bzero(p, malloc_usable_size(p));
    __libc_free(p);
}
extern "C" void *realloc(void *p, size_t n)
{
    if (p && armed)
        note_release(p);
    if (!p || !n)
        return __libc_realloc(p, n);
    void *r = malloc(n);
    if (r) {
        size_t m = malloc_usable_size(p);
        memcpy(r, p, m < n ? m : n);
        explicit_bzero(p, m);
        __libc_free(p);
    }
    return r;
}
static void begin()
{
    if (!arena)
        arena = (uint8_t *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (used > (64u << 20))
        madvise(arena, ARENA, MADV_DONTNEED);
    used = 0;
    if (trace) {
        delete traces;
        traces = new vector<std::pair<size_t, vector<void *>>>;
    }
}
struct Arm {
    Arm() { armed = true; }
    ~Arm() { armed = false; }
};

// ---- secrets, as the library stores numbers (little-endian words)
struct Secrets {
    std::unordered_map<uint64_t, int> win;
    vector<string> names;
    void add(const string &name, const Z &z, size_t len = 32)
    {
        if (mpz_sizeinbase(z.get_mpz_t(), 2) < 100)
            return;
        auto b = ref::bytes(z, len);
        vector<uint8_t> r(b.rbegin(), b.rend());
        int id = (int)names.size();
        names.push_back(name);
        for (size_t i = 0; i + 8 <= r.size(); i++) {
            int zeros = 0, ones = 0;
            for (int k = 0; k < 8; k++)
                zeros += !r[i + k], ones += r[i + k] == 255;
            if (zeros > 2 || ones > 2)
                continue;
            uint64_t w;
            memcpy(&w, r.data() + i, 8);
            win.emplace(w, id);
        }
    }
};
static void judge(const Secrets &x, const string &what)
{
    mc::expect(!overflow, "too much memory is released to be examined", what);
    uint64_t blocks = 0;
    vector<uint8_t> filter(1 << 20);
    for (auto &w : x.win)
        filter[(w.first * 0x9E3779B97F4A7C15ull) >> 44] = 1;
    for (size_t at = 0; at < used;) {
        size_t n;
        memcpy(&n, arena + at, 8);
        const uint8_t *b = arena + at + 16;
        blocks++;
        for (size_t i = 0; i + 8 <= n; i++) {
            uint64_t w;
            memcpy(&w, b + i, 8);
            if (!filter[(w * 0x9E3779B97F4A7C15ull) >> 44])
                continue;
            auto it = x.win.find(w);
            if (it != x.win.end()) {
                mc::fail("released memory contains a secret", what + ": " + x.names[it->second] + " in a block of " + std::to_string(n) + " bytes at offset " + std::to_string(i));
                if (trace) {
                    for (auto &t : *traces)
                        if (t.first == at)
                            backtrace_symbols_fd(t.second.data(), (int)t.second.size(), 2);
                    fprintf(stderr, "^ %s: %s size %zu off %zu\n", what.c_str(), x.names[it->second].c_str(), n, i);
                }
                break;
            }
        }
        at += 16 + n;
    }
    mc::step(blocks);
}

// ---- histories of elements
static Z secretZ(int k, bool p)
{
    Z z = 0;
    for (int i = 0; i < (p ? 16 : 1); i++)
        z = (z << 256) + ref::H({"a secret", std::to_string(k), std::to_string(i)});
    return z % (p ? ref::P() : ref::Q());
}
template <typename T> struct Elem;
template <> struct Elem<eg::ElementModQ> {
    static constexpr bool p = false;
    static constexpr size_t words = 4;
    static unique_ptr<eg::ElementModQ> hex(const string &s) { return eg::ElementModQ::fromHex(s); }
    static unique_ptr<eg::ElementModQ> bytes(const vector<uint8_t> &b) { return eg::bytes_to_q(b); }
    static unique_ptr<eg::ElementModQ> plus(const eg::ElementModQ &a) { return eg::add_mod_q(a, eg::ZERO_MOD_Q()); }
    static unique_ptr<eg::ElementModQ> times(const eg::ElementModQ &a) { return eg::a_plus_bc_mod_q(eg::ZERO_MOD_Q(), a, eg::ONE_MOD_Q()); }
};
template <> struct Elem<eg::ElementModP> {
    static constexpr bool p = true;
    static constexpr size_t words = 64;
    static unique_ptr<eg::ElementModP> hex(const string &s) { return eg::ElementModP::fromHex(s); }
    static unique_ptr<eg::ElementModP> bytes(const vector<uint8_t> &b) { return eg::bytes_to_p(b); }
    static unique_ptr<eg::ElementModP> plus(const eg::ElementModP &a) { return eg::add_mod_p(a, eg::ZERO_MOD_P()); }
    static unique_ptr<eg::ElementModP> times(const eg::ElementModP &a) { return eg::mul_mod_p(a, eg::ONE_MOD_P()); }
};
static const char *ways[] = {"array", "array, unchecked", "vector", "vector, unchecked", "text", "bytes", "copy constructor", "clone", "sum", "product"};
template <typename T> static unique_ptr<T> create(int way, const Z &z)
{
    typedef Elem<T> E;
    auto b = ref::bytes(z, E::words * 8);
    uint64_t w[E::words];
    for (size_t i = 0; i < E::words; i++) {
        w[i] = 0;
        for (int k = 0; k < 8; k++)
            w[i] |= (uint64_t)b[E::words * 8 - 1 - (i * 8 + k)] << (8 * k);
    }
    vector<uint64_t> v(w, w + E::words);
    string h = ref::hex(z);
    Arm arm;
    switch (way) {
        case 0: return make_unique<T>(w);
        case 1: return make_unique<T>(w, true);
        case 2: return make_unique<T>(v);
        case 3: return make_unique<T>(v, true);
        case 4: return E::hex(h);
        case 5: return E::bytes(b);
        case 6: {
            auto t = make_unique<T>(w);
            return make_unique<T>(*t);
        }
        case 7: {
            auto t = make_unique<T>(w);
            return t->clone();
        }
        case 8: {
            auto t = make_unique<T>(w);
            return E::plus(*t);
        }
        default: {
            auto t = make_unique<T>(w);
            return E::times(*t);
        }
    }
}
// operations on two places holding elements
struct HOp {
    int kind, i, j;
};
template <typename T> static void histories(const string &name, int depth)
{
    vector<HOp> ops;
    for (int i = 0; i < 2; i++) {
        for (int w = 0; w < 10; w++)
            ops.push_back({w, i, 0});
        ops.push_back({20, i, 0}); // destroy
        ops.push_back({21, i, i}); // assign to itself
        ops.push_back({21, i, 1 - i});
        ops.push_back({22, i, 1 - i}); // copy over
        ops.push_back({23, i, 1 - i}); // compare
        ops.push_back({24, i, 0});     // a new value is assigned from a temporary
        ops.push_back({25, i, 0});     // replaced by an out-of-range value, which is refused
        ops.push_back({26, i, 1 - i}); // swapped
    }
    static const char *verbs[] = {"destroy", "assign", "copy", "compare", "assign new", "refused", "swap"};
    // the first operation creates
    uint64_t n = 10;
    for (int d = 1; d < depth; d++)
        n *= ops.size();
    mc::for_all(name, n, [&](uint64_t code) {
        begin();
        Secrets x;
        unique_ptr<T> s[2];
        string what = name + ":";
        uint64_t c = code;
        int val = 0;
        for (int d = 0; d < depth; d++) {
            HOp o;
            if (d == 0) {
                o = {(int)(c % 10), 0, 0};
                c /= 10;
            } else {
                o = ops[c % ops.size()];
                c /= ops.size();
            }
            mc::step();
            what += " " + (o.kind < 10 ? string(ways[o.kind]) : string(verbs[o.kind - 20])) + "(" + std::to_string(o.i) + std::to_string(o.j) + ")";
            mc::desc(what);
            if (o.kind < 10) {
                Z z = secretZ(val++, Elem<T>::p);
                x.add("value " + std::to_string(val - 1), z, Elem<T>::words * 8);
                auto t = create<T>(o.kind, z);
                mc::expect(ref::val(*t) == z, "a created element has another value", what);
                Arm arm;
                s[o.i] = std::move(t);
            } else if (o.kind == 20) {
                Arm arm;
                s[o.i].reset();
            } else if (o.kind == 21 && s[o.i] && s[o.j]) {
                Arm arm;
                *s[o.i] = *s[o.j];
            } else if (o.kind == 22 && s[o.j]) {
                Arm arm;
                s[o.i] = make_unique<T>(*s[o.j]);
            } else if (o.kind == 23 && s[o.i] && s[o.j]) {
                Arm arm;
                (void)(*s[o.i] == *s[o.j]);
                (void)(*s[o.i] < *s[o.j]);
                (void)s[o.i]->isInBounds();
            } else if (o.kind == 24 && s[o.i]) {
                Z z = secretZ(val++, Elem<T>::p);
                x.add("value " + std::to_string(val - 1), z, Elem<T>::words * 8);
                auto t = create<T>(0, z);
                Arm arm;
                *s[o.i] = *t;
                t.reset();
            } else if (o.kind == 25) {
                // above the modulus
                Z top = Elem<T>::p ? ref::P() : ref::Q();
                Z z = top + 1 + ref::H({"refused", std::to_string(val)}) % 187;
                if (Elem<T>::p) {
                    z = ((Z(1) << 256) - 1) << 3840;
                    z += secretZ(100 + val++, true) % (Z(1) << 3840);
                    if (z < top)
                        z = top + 1;
                    else
                        x.add("a refused value", z % (Z(1) << 3800), 475);
                }
                for (int way : {0, 2, 4, 5})
                    try {
                        create<T>(way, z);
                        mc::fail("a value above the modulus is accepted", what);
                    } catch (const std::out_of_range &) {
                    }
                armed = false;
            } else if (o.kind == 26) {
                Arm arm;
                std::swap(s[o.i], s[o.j]);
            }
        }
        {
            Arm arm;
            s[0].reset();
            s[1].reset();
        }
        mc::state(what);
        if (code % 1777 == 0)
            mc::sample(what);
        judge(x, what);
    });
}

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool quick = mc::opt().quick();
    histories<eg::ElementModQ>("exponents", quick ? 3 : 4);
    histories<eg::ElementModP>("group elements", quick ? 3 : 4);

    // ---- operations on secrets
    Z sk = ref::H({"a secret key"});
    vector<unique_ptr<Election>> els;
    vector<Bal> bals;
    {
        auto c = contest("con", "unit", 4, 1, 2, {0, 1, 2});
        els.push_back(make_unique<Election>(single(c), sk));
        auto k = marks(c, {1, 1, 0});
        k.sels[0].writein = "somebody else";
        bals.push_back({"ballot", "style", {k}});
        auto o = marks(c, {1, 1, 1});
        bals.push_back({"overvoted", "style", {o}});
        bals.push_back({"blank", "style", {marks(c, {0, 0, 0})}});
    }
    auto &el = *els[0];
    Z nonce = ref::H({"master"});
    auto &key = *el.context->getElGamalPublicKey();
    auto &base = *el.context->getCryptoExtendedBaseHash();
    auto seed = ref::mkQ(ref::H({"code seed"}));
    auto pt = bals[0].build();
    eg::g_pow_p(*ref::mkQ(5));
    eg::pow_mod_p(key, *ref::mkQ(5));

    auto addModel = [&](Secrets &x, const EBal &e, const Z &master) {
        x.add("the secret key", el.secret);
        x.add("the ballot nonce", master);
        x.add("the nonce seed", e.seed);
        for (auto &k : e.cons) {
            x.add("a contest nonce", k.nonce);
            x.add("a contest proof nonce", k.proofNonce);
            x.add("an extended data nonce", k.extNonce);
            x.add("the proof's random value", nonceAt(k.proofNonce, "constant-chaum-pedersen-proof", 0));
            Z agg = 0;
            for (auto &s : k.sels) {
                x.add("a selection nonce", s.nonce);
                agg += s.nonce;
                x.add("a sum of nonces", agg % ref::Q());
            }
            x.add("a session pad", ref::powm(el.pub, k.extNonce), 512);
            x.add("a session key", ref::H({ref::S(ref::powm(ref::G(), k.extNonce)), ref::S(ref::powm(el.pub, k.extNonce))}));
        }
    };
    auto addBallot = [&](Secrets &x, const eg::CiphertextBallot &b, const EBal *e) {
        size_t i = 0;
        for (auto &k : b.getContests()) {
            Z agg = 0;
            if (k.get().getNonce())
                x.add("a contest nonce", ref::val(*k.get().getNonce()));
            size_t j = 0;
            for (auto &s : k.get().getSelections()) {
                Z r = s.get().getNonce() ? ref::val(*s.get().getNonce()) : Z(0);
                if (r == 0 && e)
                    r = e->cons[i].sels[j].nonce;
                if (r != 0) {
                    x.add("a selection nonce", r);
                    auto p = rp::read(*s.get().getProof());
                    x.add("a proof's random value", ref::mod(p.v0 - p.c0 * r, ref::Q()));
                    x.add("a proof's random value", ref::mod(p.v1 - p.c1 * r, ref::Q()));
                }
                agg += r;
                j++;
            }
            x.add("a sum of nonces", agg % ref::Q());
            i++;
        }
        if (b.getNonce())
            x.add("the ballot nonce", ref::val(*b.getNonce()));
    };

    struct Op {
        string name;
        std::function<void(Secrets &)> run; // arms itself
    };
    vector<Op> ops;
    for (size_t bi = 0; bi < bals.size(); bi++)
        for (int verify = 0; verify < 2; verify++)
            ops.push_back({"encrypt " + bals[bi].id + (verify ? ", verified" : ""), [&, bi, verify](Secrets &x) {
                               auto e = expected(el.man, el.mhash, bals[bi], nonce);
                               addModel(x, e, nonce);
                               auto p = bals[bi].build();
                               auto m = ref::mkQ(nonce);
                               unique_ptr<eg::CiphertextBallot> r;
                               {
                                   Arm arm;
                                   r = eg::encryptBallot(*p, *el.internal, *el.context, *seed, std::move(m), 1234, verify);
                               }
                               addBallot(x, *r, &e);
                               Arm arm;
                               r.reset();
                           }});
    ops.push_back({"encrypt with drawn nonces", [&](Secrets &x) {
                       unique_ptr<eg::CiphertextBallot> r;
                       {
                           Arm arm;
                           r = eg::encryptBallot(*pt, *el.internal, *el.context, *seed, nullptr, 1234, false);
                       }
                       addBallot(x, *r, nullptr);
                       Arm arm;
                       r.reset();
                   }});
    ops.push_back({"encrypt with precomputed values", [&](Secrets &x) {
                       unique_ptr<eg::CiphertextBallot> r;
                       {
                           Arm arm;
                           eg::PrecomputeBufferContext::init(8);
                           eg::PrecomputeBufferContext::populate(key);
                           r = eg::encryptBallot(*pt, *el.internal, *el.context, *seed, nullptr, 1234, true);
                       }
                       addBallot(x, *r, nullptr);
                       Arm arm;
                       r.reset();
                       eg::PrecomputeBufferContext::empty_queues();
                   }});
    ops.push_back({"precomputed values", [&](Secrets &x) {
                       unique_ptr<eg::Triple> t, t1, t2;
                       unique_ptr<eg::TwoTriplesAndAQuadruple> q;
                       {
                           Arm arm;
                           eg::PrecomputeBufferContext::init(4);
                           eg::PrecomputeBufferContext::populate(key);
                           t = eg::PrecomputeBufferContext::getTriple(key);
                           q = eg::PrecomputeBufferContext::getTwoTriplesAndAQuadruple(key);
                       }
                       if (t) {
                           x.add("an exponent", ref::val(*t->get_exp()));
                           x.add("a precomputed power", ref::val(*t->get_pubkey_to_exp()), 512);
                       }
                       if (q) {
                           t1 = q->get_triple1(), t2 = q->get_triple2();
                           auto q4 = q->get_quad();
                           x.add("an exponent", ref::val(*t1->get_exp()));
                           x.add("an exponent", ref::val(*t2->get_exp()));
                           x.add("an exponent", ref::val(*q4->get_exp1()));
                           x.add("an exponent", ref::val(*q4->get_exp2()));
                       }
                       mc::expect(t && q, "no precomputed values", "");
                       Arm arm;
                       t.reset(), t1.reset(), t2.reset(), q.reset();
                       eg::PrecomputeBufferContext::empty_queues();
                   }});
    ops.push_back({"compact encryption and expansion", [&](Secrets &x) {
                       auto e = expected(el.man, el.mhash, bals[0], nonce);
                       addModel(x, e, nonce);
                       auto m = ref::mkQ(nonce);
                       unique_ptr<eg::CompactCiphertextBallot> r;
                       unique_ptr<eg::CiphertextBallot> b;
                       {
                           Arm arm;
                           r = eg::encryptCompactBallot(*pt, *el.internal, *el.context, *seed, std::move(m), 1234, false);
                           b = eg::expandCompactCiphertextBallot(*r, *el.internal, *el.context);
                       }
                       addBallot(x, *b, &e);
                       Arm arm;
                       r.reset();
                       b.reset();
                   }});
    ops.push_back({"mediator", [&](Secrets &x) {
                       eg::EncryptionDevice dev(1, 2, 3, "here");
                       eg::EncryptionMediator md(*el.internal, *el.context, dev);
                       unique_ptr<eg::CiphertextBallot> a, b;
                       {
                           Arm arm;
                           a = md.encrypt(*pt, false);
                           b = md.encrypt(*pt, true);
                       }
                       addBallot(x, *a, nullptr);
                       addBallot(x, *b, nullptr);
                       Arm arm;
                       a.reset(), b.reset();
                   }});
    ops.push_back({"selection", [&](Secrets &x) {
                       auto n = ref::mkQ(nonce);
                       auto &c = el.man.cons[0];
                       auto sel = make_unique<eg::PlaintextBallotSelection>("con-s0", 1UL);
                       auto d = el.internal->getContests()[0].get().getSelections()[0];
                       unique_ptr<eg::CiphertextBallotSelection> r;
                       {
                           Arm arm;
                           r = eg::encryptSelection(*sel, d.get(), key, base, *n, false, true);
                       }
                       x.add("the nonce seed", nonce);
                       Z k = ref::val(*r->getNonce());
                       x.add("the selection nonce", k);
                       auto p = rp::read(*r->getProof());
                       x.add("a proof's random value", ref::mod(p.v0 - p.c0 * k, ref::Q()));
                       x.add("a proof's random value", ref::mod(p.v1 - p.c1 * k, ref::Q()));
                       Arm arm;
                       n.reset(), r.reset();
                   }});
    ops.push_back({"key pair", [&](Secrets &x) {
                       auto s = ref::mkQ(sk);
                       unique_ptr<eg::ElGamalKeyPair> k;
                       {
                           Arm arm;
                           k = eg::ElGamalKeyPair::fromSecret(*s);
                           s.reset();
                       }
                       unique_ptr<eg::ElGamalKeyPair> k2;
                       {
                           Arm arm;
                           k2 = make_unique<eg::ElGamalKeyPair>(*k);
                           k.reset();
                           *k2 = *k2;
                       }
                       x.add("the secret key", sk);
                       Arm arm;
                       k2.reset();
                   }});
    ops.push_back({"ElGamal encryption and decryption", [&](Secrets &x) {
                       auto n = ref::mkQ(nonce);
                       auto s = ref::mkQ(sk);
                       x.add("the nonce", nonce);
                       x.add("the secret key", sk);
                       Arm arm;
                       auto c = eg::elgamalEncrypt(1, *n, key);
                       c->decrypt(*s);
                       auto c2 = eg::elgamalAdd({*c, *c});
                       c2.reset();
                       c.reset();
                       n.reset();
                       s.reset();
                   }});
    for (int bad = 0; bad < 3; bad++)
        ops.push_back({"hashed encryption and decryption " + std::to_string(bad), [&, bad](Secrets &x) {
                           auto n = ref::mkQ(nonce);
                           auto s = ref::mkQ(sk);
                           x.add("the nonce", nonce);
                           x.add("the secret key", sk);
                           x.add("the session pad", ref::powm(el.pub, nonce), 512);
                           x.add("the session key", ref::H({ref::S(ref::powm(ref::G(), nonce)), ref::S(ref::powm(el.pub, nonce))}));
                           vector<uint8_t> m(bad == 1 ? 33 : 64, 'x');
                           Arm arm;
                           try {
                               auto c = eg::hashedElgamalEncrypt(m, *n, key, base, bad == 1 ? eg::NO_PADDING : eg::BYTES_512, false);
                               c->decrypt(*s, bad == 2 ? *seed : base, true);
                           } catch (const std::exception &) {
                           }
                           n.reset();
                           s.reset();
                       }});
    ops.push_back({"nonce sequence", [&](Secrets &x) {
                       auto n = ref::mkQ(nonce);
                       vector<unique_ptr<eg::ElementModQ>> got;
                       {
                           Arm arm;
                           auto ns = make_unique<eg::Nonces>(*n, "header");
                           got.push_back(ns->next());
                           got.push_back(ns->get(3));
                           got.push_back(ns->get(2, "other"));
                           for (auto &g : ns->get(0, 4))
                               got.push_back(std::move(g));
                           ns.reset();
                           n.reset();
                       }
                       x.add("the seed of the sequence", nonce);
                       x.add("the seed with its header", ref::H({ref::S(nonce), "header"}));
                       for (auto &g : got)
                           x.add("a nonce", ref::val(*g));
                       Arm arm;
                       got.clear();
                   }});
    ops.push_back({"drawn exponents", [&](Secrets &x) {
                       vector<unique_ptr<eg::ElementModQ>> got;
                       unique_ptr<eg::ElementModP> gp;
                       {
                           Arm arm;
                           got.push_back(eg::rand_q());
                           got.push_back(eg::rand_q());
                           gp = eg::rand_p();
                       }
                       for (auto &g : got)
                           x.add("a drawn exponent", ref::val(*g));
                       x.add("a drawn group value", ref::val(*gp), 512);
                       Arm arm;
                       got.clear();
                       gp.reset();
                   }});
    ops.push_back({"arithmetic on exponents", [&](Secrets &x) {
                       auto a = ref::mkQ(nonce), b = ref::mkQ(sk);
                       vector<unique_ptr<eg::ElementModQ>> got;
                       {
                           Arm arm;
                           got.push_back(eg::add_mod_q(*a, *b));
                           got.push_back(eg::sub_mod_q(*a, *b));
                           got.push_back(eg::a_plus_bc_mod_q(*a, *b, *b));
                           got.push_back(eg::sub_from_q(*a));
                           got.push_back(eg::add_mod_q({std::ref(*a), std::ref(*b)}));
                       }
                       x.add("an operand", nonce);
                       x.add("an operand", sk);
                       for (auto &g : got)
                           x.add("a result", ref::val(*g));
                       Arm arm;
                       got.clear();
                       a.reset(), b.reset();
                   }});
    ops.push_back({"powers with secret exponents", [&](Secrets &x) {
                       auto a = ref::mkQ(nonce);
                       auto p = ref::mkP(secretZ(9, true));
                       unique_ptr<eg::ElementModP> r, ap;
                       {
                           Arm arm;
                           r = eg::pow_mod_p(*p, *a);
                           ap = a->toElementModP();
                           eg::g_pow_p(*a);
                           eg::pow_mod_p(*p, *ap);
                       }
                       x.add("the exponent", nonce);
                       x.add("the base", secretZ(9, true), 512);
                       x.add("the power", ref::val(*r), 512);
                       Arm arm;
                       r.reset(), a.reset(), ap.reset(), p.reset();
                   }});
    ops.push_back({"ballot with nonces written and read", [&](Secrets &x) {
                       auto e = expected(el.man, el.mhash, bals[0], nonce);
                       addModel(x, e, nonce);
                       auto r = eg::encryptBallot(*pt, *el.internal, *el.context, *seed, ref::mkQ(nonce), 1234, false);
                       Arm arm;
                       auto a = eg::CiphertextBallot::fromJson(r->toJson(true));
                       auto b = eg::CiphertextBallot::fromBson(r->toBson(true));
                       auto c = eg::CiphertextBallot::fromMsgPack(r->toMsgPack(true));
                       auto d = eg::SubmittedBallot::from(*r, eg::BallotBoxState::cast);
                       a.reset(), b.reset(), c.reset(), d.reset(), r.reset();
                   }});
    ops.push_back({"C handles", [&](Secrets &x) {
                       x.add("the value", nonce);
                       x.add("the nonce", sk);
                       string h = ref::hex(nonce), h2 = ref::hex(sk);
                       auto b = ref::bytes(nonce, 32);
                       uint64_t w[4];
                       for (size_t i = 0; i < 4; i++) {
                           w[i] = 0;
                           for (int k = 0; k < 8; k++)
                               w[i] |= (uint64_t)b[31 - (i * 8 + k)] << (8 * k);
                       }
                       Arm arm;
                       eg_element_mod_q_t *q = nullptr, *q2 = nullptr;
                       eg_element_mod_p_t *p = nullptr;
                       eg_element_mod_q_new(w, &q);
                       eg_element_mod_q_from_hex((char *)h2.c_str(), &q2);
                       eg_element_mod_q_pow_mod_p((eg_element_mod_p_t *)&key, q2, &p);
                       eg_element_mod_q_free(q);
                       eg_element_mod_q_free(q2);
                       eg_element_mod_p_free(p);
                       eg_element_mod_q_new_unchecked(w, &q);
                       eg_elgamal_keypair_t *kp = nullptr;
                       eg_elgamal_keypair_from_secret_new(q, &kp);
                       eg_element_mod_q_free(q);
                       eg_elgamal_keypair_free(kp);
                       eg_element_mod_q_rand_q_new(&q);
                       eg_element_mod_q_free(q);
                   }});
    mc::for_all("operations", ops.size(), [&](uint64_t n) {
        begin();
        Secrets x;
        mc::desc(ops[n].name);
        mc::state(ops[n].name);
        try {
            ops[n].run(x);
        } catch (const std::exception &e) {
            armed = false;
            mc::fail("an operation fails", ops[n].name + ": " + e.what());
        }
        armed = false;
        mc::expect(!x.win.empty() && used, "nothing was examined", ops[n].name);
        judge(x, ops[n].name);
        mc::sample(ops[n].name + ": " + std::to_string(x.names.size()) + " secrets, " + std::to_string(used) + " bytes released");
    });

    // ---- every request for randomness fails in turn while a ballot is encrypted
    uint64_t req = 0;
    {
        osr::reset();
        osr::st().on = true;
        eg::encryptBallot(*pt, *el.internal, *el.context, *seed, ref::mkQ(nonce), 1234, false);
        req = osr::st().requests;
        osr::reset();
    }
    mc::for_all("failing", req, [&](uint64_t n) {
        begin();
        Secrets x;
        string what = "randomness request " + std::to_string(n) + " of " + std::to_string(req) + " fails";
        mc::desc(what);
        mc::state(what);
        addModel(x, expected(el.man, el.mhash, bals[0], nonce), nonce);
        auto m = ref::mkQ(nonce);
        osr::reset();
        osr::st().on = true;
        osr::st().plan = {{(int)n, osr::READ_ERROR}};
        {
            Arm arm;
            try {
                auto r = eg::encryptBallot(*pt, *el.internal, *el.context, *seed, std::move(m), 1234, false);
            } catch (const std::exception &) {
            }
        }
        osr::reset();
        judge(x, what);
    });
    return mc::finish();
}
