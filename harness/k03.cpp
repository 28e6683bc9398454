// K03: schedules of threads that use the same election, from the first use in the
// process on. Every execution starts in a process that has not used the library
// (except for what the scenario itself prepares).
#include "explore.hpp"
#include "refproof.hpp"
#include "spaces.hpp"
#include <electionguard/ballot_code.hpp>
#include <electionguard/elgamal.hpp>
#include <electionguard/hash.hpp>
#include <electionguard/nonces.hpp>
#include <electionguard/precompute_buffers.hpp>
#include <log.hpp>
#include <random.hpp>
#include <thread>
using namespace space;
namespace eg = electionguard;

static Z sk[2], pk[2];
static unique_ptr<eg::ElementModP> key[2];
static const Z HASH = 4711;

typedef std::function<void()> Fn;
static void par(const vector<Fn> &fs)
{
    vector<std::thread> ts;
    for (auto &f : fs)
        ts.emplace_back(f);
    for (auto &t : ts)
        t.join();
    sched::end();
}
// every thread computes one text, which must be the expected one
static void texts(const vector<std::pair<std::function<string()>, string>> &w)
{
    vector<string> got(w.size());
    vector<Fn> f;
    for (size_t i = 0; i < w.size(); i++)
        f.push_back([&, i] { got[i] = w[i].first(); });
    par(f);
    for (size_t i = 0; i < w.size(); i++)
        if (got[i] != w[i].second)
            sched::fail("a thread obtains another result than alone");
}
// public keys are fixed bases: their tables are shared
static unique_ptr<eg::ElementModP> fixed(const Z &z)
{
    std::vector<uint64_t> v(MAX_P_LEN, 0);
    size_t n;
    mpz_export(v.data(), &n, -1, 8, 0, 0, z.get_mpz_t());
    return std::make_unique<eg::ElementModP>(v, true, true);
}

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool quick = mc::opt().quick();
    sk[0] = 65537, sk[1] = ref::Q() - 2;
    for (int i = 0; i < 2; i++) {
        pk[i] = ref::powm(ref::G(), sk[i]);
        key[i] = fixed(pk[i]);
    }
    vector<explore::Scenario> S;
    auto add = [&](const string &name, int bound, Fn prep, Fn body) { S.push_back({name, bound, prep, body}); };
    int PB2 = quick ? 2 : 3;

    // ---- first use of constants and renderings
    auto hexG = [] { return eg::G().toHex(); };
    auto hexP = [] { return eg::P().toHex(); };
    string xG = ref::hex(ref::G()), xP = ref::hex(ref::P()), xQ = ref::hex(ref::Q());
    add("first use: generator | generator", -1, {}, [=] { texts({{hexG, xG}, {hexG, xG}}); });
    add("first use: modulus | generator | order", -1, {}, [=] { texts({{hexP, xP}, {hexG, xG}, {[] { return eg::Q().toHex(); }, xQ}}); });
    add("first use: generator x3", -1, {}, [=] { texts({{hexG, xG}, {hexG, xG}, {hexG, xG}}); });
    add("first use: constants", -1, {}, [=] {
        auto all = [] { return eg::ZERO_MOD_P().toHex() + eg::ONE_MOD_P().toHex() + eg::TWO_MOD_P().toHex() + eg::ZERO_MOD_Q().toHex() + eg::ONE_MOD_Q().toHex() + eg::TWO_MOD_Q().toHex() + eg::R().toHex(); };
        string x = "000102000102" + ref::hex(ref::R());
        texts({{all, x}, {all, x}});
    });
    add("one key rendered by two threads", -1, {}, [=] {
        texts({{[] { return key[0]->toHex(); }, ref::hex(pk[0])}, {[] { return key[0]->toHex(); }, ref::hex(pk[0])}});
    });
    add("one key rendered, compared, copied and sent", -1, {}, [=] {
        unique_ptr<eg::ElementModP> c;
        string a, b;
        bool less = true, same = false;
        par({[&] { a = key[0]->toHex(); }, [&] { c = key[0]->clone(); eg::ElementModP d(*key[0]); same = d == *key[0]; less = d < *key[0]; },
             [&] { auto v = key[0]->toBytes(); b = ref::hexbytes(v); }});
        if (a != ref::hex(pk[0]) || ref::val(*c) != pk[0] || !same || less || Z(b, 16) != pk[0])
            sched::fail("a thread obtains another result than alone");
    });
    // ---- exponentiation
    auto pw = [](int k, Z e) { return std::make_pair(std::function<string()>([k, e] { return ref::hex(ref::val(*eg::pow_mod_p(*key[k], *ref::mkQ(e)))); }), ref::hex(ref::powm(pk[k], e))); };
    auto gp = [](Z e) { return std::make_pair(std::function<string()>([e] { return ref::hex(ref::val(*eg::g_pow_p(*ref::mkQ(e)))); }), ref::hex(ref::powm(ref::G(), e))); };
    add("first use: g^x | g^y", PB2, {}, [=] { texts({gp(123456789), gp(ref::Q() - 1)}); });
    add("first use: one key K^x | K^y", PB2, {}, [=] { texts({pw(0, 3), pw(0, ref::Q() - 5)}); });
    add("first use: K^x | L^y", PB2, {}, [=] { texts({pw(0, 3), pw(1, 77)}); });
    add("known key K^x | new key L^y", -1, [] { eg::pow_mod_p(*key[0], *ref::mkQ(5)); }, [=] { texts({pw(0, 3), pw(1, 77)}); });
    add("known key K^x | new key L^y | g^z", quick ? 1 : 2, [] { eg::pow_mod_p(*key[0], *ref::mkQ(5)); }, [=] { texts({pw(0, 3), pw(1, 77), gp(9)}); });
    // tables of many bases exist already: whatever bounds their number must not hurt a base in use
    auto many = [] {
        eg::pow_mod_p(*key[0], *ref::mkQ(5));
        for (int i = 0; i < 19; i++)
            eg::pow_mod_p(*fixed(ref::powm(ref::G(), Z(100 + i))), *ref::mkQ(2));
    };
    add("after 20 keys: K^x | new key L^y", 1, many, [=] { texts({pw(0, 3), pw(1, 77)}); });
    add("arithmetic", PB2, {}, [=] {
        auto f = [] {
            auto a = ref::mkQ(ref::Q() - 1);
            auto b = ref::mkQ(12345);
            string s = eg::add_mod_q(*a, *b)->toHex() + eg::sub_mod_q(*b, *a)->toHex() + eg::a_plus_bc_mod_q(*a, *b, *b)->toHex();
            auto c = fixed(pk[0]), d = fixed(pk[1]);
            return s + eg::mul_mod_p(*c, *d)->toHex();
        };
        Z a = ref::Q() - 1, b = 12345;
        string x = ref::hex(ref::mod(a + b, ref::Q())) + ref::hex(ref::mod(b - a, ref::Q())) + ref::hex(ref::mod(a + b * b, ref::Q())) +
                   ref::hex(ref::mulp(pk[0], pk[1]));
        texts({{f, x}, {f, x}});
    });
    // ---- hashing, nonces, randomness
    string hx = ref::hex(ref::H({ref::hex(pk[0]), "abc", ref::hex(ref::Q() - 7)}));
    auto hs = [] {
        auto q = ref::mkQ(ref::Q() - 7);
        return eg::hash_elems({std::ref(*key[0]), "abc", std::ref(*q)})->toHex();
    };
    add("first use: hash | hash", PB2, {}, [=] { texts({{hs, hx}, {hs, hx}}); });
    add("first use: hash | key rendered", -1, {}, [=] { texts({{hs, hx}, {[] { return key[0]->toHex(); }, ref::hex(pk[0])}}); });
    auto nonce = [] {
        auto q = ref::mkQ(99);
        eg::Nonces n(*q, "header");
        return n.get(4)->toHex() + n.next()->toHex();
    };
    string nx = ref::hex(model::nonceAt(99, "header", 4)) + ref::hex(model::nonceAt(99, "header", 0));
    add("first use: nonces | nonces", PB2, {}, [=] { texts({{nonce, nx}, {nonce, nx}}); });
    add("first use: random | random", PB2, {}, [=] {
        unique_ptr<eg::ElementModQ> a, b;
        par({[&] { a = eg::rand_q(); }, [&] { b = eg::rand_q(); }});
        if (ref::val(*a) == ref::val(*b) || ref::val(*a) >= ref::Q() || ref::val(*b) >= ref::Q())
            sched::fail("random values are wrong or repeated");
    });
    // ---- the log
    for (int third = 0; third < 2; third++)
        add(third ? "first use: log | log | log" : "first use: log | log", third ? PB2 : -1, {}, [=] {
            int fd = dup(1), n = open("/dev/null", O_WRONLY);
            dup2(n, 1);
            vector<Fn> f = {[] { eg::Log::info("one"); }, [] { eg::Log::debug("two"); }};
            if (third)
                f.push_back([] { eg::Log::warn("three"); });
            par(f);
            dup2(fd, 1);
        });
    add("log and traced encryption", PB2, {}, [=] {
        int fd = dup(1), n = open("/dev/null", O_WRONLY);
        dup2(n, 1);
        par({[] { eg::Log::info("key", std::ref(*key[0])); }, [] { eg::Log::trace("key", std::ref(*key[0])); }});
        dup2(fd, 1);
    });
    // ---- encryption with one key
    auto warm = [] {
        for (int i = 0; i < 2; i++)
            eg::pow_mod_p(*key[i], *ref::mkQ(5));
        eg::g_pow_p(*ref::mkQ(5));
    };
    auto cryptogram = [](const eg::ElGamalCiphertext &c, uint64_t m, const Z &nonce) {
        if (ref::val(*c.getPad()) != ref::powm(ref::G(), nonce) || ref::val(*c.getData()) != ref::mulp(ref::powm(pk[0], nonce), m ? ref::G() : Z(1)))
            sched::fail("a thread obtains another result than alone");
    };
    for (int cold = 0; cold < 2; cold++)
        add(cold ? "first use: encrypt | encrypt" : "encrypt | encrypt", PB2, cold ? Fn() : warm, [=] {
            unique_ptr<eg::ElGamalCiphertext> a, b;
            par({[&] { a = eg::elgamalEncrypt(1, *ref::mkQ(1001), *key[0]); }, [&] { b = eg::elgamalEncrypt(0, *ref::mkQ(1002), *key[0]); }});
            cryptogram(*a, 1, 1001), cryptogram(*b, 0, 1002);
        });
    auto desc = std::make_shared<unique_ptr<eg::SelectionDescription>>(SelM{"sel", "cand", 3}.build());
    auto enc = [=](uint64_t vote, int n, bool verify) {
        eg::PlaintextBallotSelection p("sel", vote);
        return eg::encryptSelection(p, **desc, *key[0], *ref::mkQ(HASH), *ref::mkQ(Z(1000 + n)), false, verify);
    };
    auto good = [=](const eg::CiphertextBallotSelection &r, uint64_t vote, int n) {
        Z nz = model::nonceAt(SelM{"sel", "cand", 3}.hz(), ref::S(Z(1000 + n)), 3);
        cryptogram(*r.getCiphertext(), vote, nz);
        if (!rp::ok(rp::read(*r.getProof()), ref::val(*r.getCiphertext()->getPad()), ref::val(*r.getCiphertext()->getData()), pk[0], HASH))
            sched::fail("a thread obtains another result than alone");
    };
    for (int cold = 0; cold < 2; cold++)
        add(cold ? "first use: encrypt selection x2" : "encrypt selection x2", cold && quick ? 1 : PB2, cold ? Fn() : warm, [=] {
            unique_ptr<eg::CiphertextBallotSelection> a, b;
            par({[&] { a = enc(1, 1, false); }, [&] { b = enc(0, 2, false); }});
            good(*a, 1, 1), good(*b, 0, 2);
        });
    {
        auto s = std::make_shared<unique_ptr<eg::CiphertextBallotSelection>>();
        add("verify one selection | verify | render", quick ? 1 : 2, [=] { *s = enc(1, 1, false); }, [=] {
            bool a = false, b = false;
            string t, u = ref::hex(ref::val(*(*s)->getCiphertext()->getPad()));
            par({[&] { a = (*s)->isValidEncryption(*ref::mkQ(ref::val(*(*s)->getDescriptionHash())), *key[0], *ref::mkQ(HASH)); },
                 [&] { b = (*s)->getProof()->isValid(*(*s)->getCiphertext(), *key[0], *ref::mkQ(HASH)); }, [&] { t = (*s)->getCiphertext()->getPad()->toHex(); }});
            if (!a || !b || t != u)
                sched::fail("a thread obtains another result than alone");
        });
        add("hash one selection | hash", PB2, [=] { *s = enc(1, 1, false); }, [=] {
            Z a, b;
            auto d = ref::mkQ(31);
            par({[&] { a = ref::val(*(*s)->crypto_hash_with(*d)); }, [&] { b = ref::val(*(*s)->crypto_hash_with(*d)); }});
            if (a != b)
                sched::fail("a thread obtains another result than alone");
        });
    }
    add("hashed encryption | hashed encryption", PB2, warm, [=] {
        vector<uint8_t> m1(40, 7), m2(40, 9);
        unique_ptr<eg::HashedElGamalCiphertext> a, b;
        par({[&] { a = eg::hashedElgamalEncrypt(m1, *ref::mkQ(501), *key[0], *ref::mkQ(HASH), eg::BYTES_512, true); },
             [&] { b = eg::hashedElgamalEncrypt(m2, *ref::mkQ(502), *key[0], *ref::mkQ(HASH), eg::BYTES_512, true); }});
        auto s = ref::mkQ(sk[0]);
        if (a->decrypt(*s, *ref::mkQ(HASH), true) != m1 || b->decrypt(*s, *ref::mkQ(HASH), true) != m2)
            sched::fail("a thread obtains another result than alone");
    });
    // ---- whole elections
    auto el = std::make_shared<unique_ptr<Election>>();
    ManM man = single(contest("con", "unit", 0, 1, 1, {0}));
    auto prep = [=] { *el = make_unique<Election>(man); };
    auto prepWarm = [=] {
        prep();
        warm();
        eg::pow_mod_p(*(*el)->context->getElGamalPublicKey(), *ref::mkQ(5));
    };
    add("hash one manifest | render | hash", PB2, [=] { *el = make_unique<Election>(man); }, [=] {
        Z a, b;
        string j;
        par({[&] { a = ref::val(*(*el)->manifest->crypto_hash()); }, [&] { j = (*el)->manifest->toJson(); }, [&] { b = ref::val(*(*el)->internal->getManifestHash()); }});
        if (a != (*el)->mhash || b != (*el)->mhash || j != (*el)->manifest->toJson())
            sched::fail("a thread obtains another result than alone");
    });
    add("read manifest | read manifest", quick ? 1 : 2, prep, [=] {
        string j = (*el)->manifest->toJson();
        Z a, b;
        par({[&] { a = ref::val(*eg::Manifest::fromJson(j)->crypto_hash()); }, [&] { b = ref::val(*eg::Manifest::fromJson(j)->crypto_hash()); }});
        if (a != (*el)->mhash || b != (*el)->mhash)
            sched::fail("a thread obtains another result than alone");
    });
    add("render context | render | key", PB2, prep, [=] {
        string a, b, k;
        par({[&] { a = (*el)->context->toJson(); }, [&] { b = (*el)->context->toJson(); }, [&] { k = (*el)->context->getElGamalPublicKey()->toHex(); }});
        if (a != (*el)->context->toJson() || a != b || k != ref::hex((*el)->pub))
            sched::fail("a thread obtains another result than alone");
    });
    Bal bal{"ballot", "style", {marks(man.cons[0], {1})}};
    add("look up contests | contests | style", PB2, prep, [=] {
        string a, b, c;
        auto list = [=](string &t) {
            for (auto &k : (*el)->internal->getContestsFor("style")) {
                t += k.get().getObjectId() + " " + k.get().crypto_hash()->toHex();
                for (auto &s : k.get().getSelections())
                    t += " " + s.get().getObjectId();
            }
        };
        par({[&] { list(a); }, [&] { list(b); }, [&] { c = (*el)->internal->getBallotStyle("style")->getObjectId(); }});
        string x;
        list(x);
        if (x.empty() || a != x || b != x || c != "style")
            sched::fail("a thread obtains another result than alone");
    });
    add("render derived manifest | render | hash contest", quick ? 1 : 2, prep, [=] {
        const eg::InternalManifest &im = *(*el)->internal;
        string a, b;
        Z h;
        par({[&] { a = im.toJson(); }, [&] { b = im.toJson(); }, [&] { h = ref::val(*im.getContests()[0].get().crypto_hash()); }});
        if (a != im.toJson() || b != a || h != ref::val(*im.getContests()[0].get().crypto_hash()))
            sched::fail("a thread obtains another result than alone");
    });
    add("compress one ballot | compress | expand", quick ? 1 : 2, prep, [=] {
        auto p = bal.build();
        auto c = eg::CompactPlaintextBallot::make(*p);
        string a, b, j = c->toJson();
        unique_ptr<eg::PlaintextBallot> x;
        par({[&] { a = eg::CompactPlaintextBallot::make(*p)->toJson(); }, [&] { b = c->toJson(); }, [&] { x = eg::expandCompactPlaintextBallot(*c, *(*el)->internal); }});
        if (a != j || b != j || Bal::read(*x).str() != bal.str())
            sched::fail("a thread obtains another result than alone");
    });
    add("device hash | ballot code | ballot code", PB2, prep, [=] {
        Z h, a, b;
        eg::EncryptionDevice d(1, 2, 3, "here");
        auto q = ref::mkQ(5);
        auto code = [&](Z &r) { r = ref::val(*eg::BallotCode::getBallotCode(*q, 1234, *q)); };
        par({[&] { h = ref::val(*d.getHash()); }, [&] { code(a); }, [&] { code(b); }});
        Z x;
        code(x);
        if (h != ref::val(*d.getHash()) || a != x || b != x)
            sched::fail("a thread obtains another result than alone");
    });
    auto whole = [=](const eg::CiphertextBallot &c, const Z &nonce) {
        auto x = model::expected(man, (*el)->mhash, bal, nonce);
        auto &k = c.getContests()[0].get();
        auto ss = k.getSelections();
        if (ss.size() != x.cons[0].sels.size()) {
            sched::fail("a thread obtains another result than alone");
            return;
        }
        for (size_t i = 0; i < ss.size(); i++) {
            auto &y = x.cons[0].sels[i];
            if (ref::val(*ss[i].get().getCiphertext()->getPad()) != ref::powm(ref::G(), y.nonce) || (*el)->dec(*ss[i].get().getCiphertext()) != (int)y.vote)
                sched::fail("a thread obtains another result than alone");
        }
    };
    auto encb = [=](const Z &nonce, bool verify) {
        auto p = bal.build();
        auto seed = ref::mkQ(11);
        return eg::encryptBallot(*p, *(*el)->internal, *(*el)->context, *seed, ref::mkQ(nonce), 1234, verify);
    };
    add("encrypt ballot | encrypt ballot", quick ? 1 : 2, prepWarm, [=] {
        unique_ptr<eg::CiphertextBallot> a, b;
        par({[&] { a = encb(601, false); }, [&] { b = encb(602, false); }});
        whole(*a, 601), whole(*b, 602);
    });
    {
        auto c = std::make_shared<unique_ptr<eg::CiphertextBallot>>();
        auto one = [=] { prepWarm(); *c = encb(601, false); };
        add("verify one ballot | render it", quick ? 0 : 1, one, [=] {
            bool ok = false;
            string j;
            par({[&] { ok = (*c)->isValidEncryption(*ref::mkQ((*el)->mhash), *(*el)->context->getElGamalPublicKey(), *(*el)->context->getCryptoExtendedBaseHash()); },
                 [&] { j = (*c)->toJson(); }});
            if (!ok || j != (*c)->toJson())
                sched::fail("a thread obtains another result than alone");
        });
        add("submit one ballot | render | hash", quick ? 1 : 2, one, [=] {
            string j;
            Z h;
            unique_ptr<eg::SubmittedBallot> s;
            auto m = ref::mkQ((*el)->mhash);
            par({[&] { s = eg::SubmittedBallot::from(**c, eg::BallotBoxState::cast); }, [&] { j = (*c)->toJson(); }, [&] { h = ref::val(*(*c)->crypto_hash_with(*m)); }});
            if (j != (*c)->toJson() || h != ref::val(*(*c)->crypto_hash_with(*m)) || ref::val(*s->getBallotCode()) != ref::val(*(*c)->getBallotCode()) ||
                s->getState() != eg::BallotBoxState::cast)
                sched::fail("a thread obtains another result than alone");
        });
        add("expand compact ballot | expand", quick ? 0 : 1, one, [=] {
            auto p = bal.build();
            auto k = eg::CompactCiphertextBallot::make(*p, **c);
            unique_ptr<eg::CiphertextBallot> a, b;
            par({[&] { a = eg::expandCompactCiphertextBallot(*k, *(*el)->internal, *(*el)->context); }, [&] { b = eg::expandCompactCiphertextBallot(*k, *(*el)->internal, *(*el)->context); }});
            whole(*a, 601), whole(*b, 601);
            if (ref::val(*a->getBallotCode()) != ref::val(*(*c)->getBallotCode()) || ref::val(*b->getBallotCode()) != ref::val(*(*c)->getBallotCode()))
                sched::fail("a thread obtains another result than alone");
        });
        add("render one ballot | render | hash", quick ? 1 : 2, one, [=] {
            string j, k;
            Z h;
            auto m = ref::mkQ((*el)->mhash);
            par({[&] { j = (*c)->toJson(); }, [&] { k = (*c)->toJson(); }, [&] { h = ref::val(*(*c)->crypto_hash_with(*m)); }});
            if (j != (*c)->toJson() || k != j || h != ref::val(*(*c)->crypto_hash_with(*m)))
                sched::fail("a thread obtains another result than alone");
        });
    }
    {
        auto md = std::make_shared<unique_ptr<eg::EncryptionMediator>>();
        auto dv = std::make_shared<unique_ptr<eg::EncryptionDevice>>();
        add("two threads with a mediator each", quick ? 0 : 1, [=] {
            prepWarm();
            *dv = make_unique<eg::EncryptionDevice>(1, 2, 3, "here");
        }, [=] {
            unique_ptr<eg::CiphertextBallot> r[2];
            auto run = [&](int i) {
                return [&, i] {
                    eg::EncryptionMediator m(*(*el)->internal, *(*el)->context, **dv);
                    auto p = bal.build();
                    r[i] = m.encrypt(*p, false);
                };
            };
            par({run(0), run(1)});
            for (auto &c : r) {
                auto ss = c->getContests()[0].get().getSelections();
                if ((*el)->dec(*ss[0].get().getCiphertext()) != 1 || (*el)->dec(*ss[1].get().getCiphertext()) != 0)
                    sched::fail("a thread obtains another result than alone");
            }
            if (ref::val(*r[0]->getNonce()) == ref::val(*r[1]->getNonce()))
                sched::fail("random values are wrong or repeated");
        });
    }
    for (auto &s : S)
        for (auto h : {"g^", "K^", "ncrypt", "allot"})
            if (s.name.find(h) != string::npos)
                s.weight++;
    for (auto &s : S)
        if (s.name.find("first use: encrypt") == 0 || s.name.find("after 20") == 0 || s.name.find("| g^z") != string::npos || s.name == "encrypt selection x2")
            s.weight += 5;
    explore::all(S);
    return mc::finish();
}
