// C05: Chaum-Pedersen proofs against an independent GMP prover and verifier.
// Completeness over all combinations of boundary keys, nonces, seeds and votes;
// soundness by enumerating every single replacement of a genuine proof and, for
// every single verification condition, proofs built to satisfy all others.
#include "mc.hpp"
#include "ref.hpp"
#include <electionguard/chaum_pedersen.hpp>
#include <electionguard/elgamal.hpp>
#include <electionguard/precompute_buffers.hpp>
using namespace electionguard;
using namespace std;
using ref::mkP;
using ref::mkQ;
using ref::mulp;
using ref::powm;
using ref::val;
using ref::Z;
static Z ZP, ZQ, ZG;
static string x(const Z &z) { return z.get_str(16).substr(0, 24); }
static Z qmod(const Z &a) { return ref::mod(a, ZQ); }
static bool residue(const Z &a) { return a > 0 && a < ZP && powm(a, ZQ) == 1; }
static Z nonce(const Z &seed, const string &h, uint64_t i)
{
    return ref::H({ref::hex(ref::H({ref::hex(seed), h})), ref::S(i)});
}

struct D { // disjunctive
    Z a0, b0, a1, b1, c0, c1, c, v0, v1;
};
static Z chal(const Z &q, const Z &al, const Z &be, const D &d)
{
    return ref::H({ref::hex(q), ref::hex(al), ref::hex(be), ref::hex(d.a0), ref::hex(d.b0),
                   ref::hex(d.a1), ref::hex(d.b1)});
}
static bool okD(const D &d, const Z &al, const Z &be, const Z &k, const Z &q)
{
    for (auto *e : {&al, &be, &d.a0, &d.b0, &d.a1, &d.b1})
        if (!residue(*e))
            return false;
    for (auto *e : {&d.c0, &d.c1, &d.v0, &d.v1})
        if (*e < 0 || *e >= ZQ)
            return false;
    return qmod(d.c0 + d.c1) == d.c && d.c == chal(q, al, be, d) &&
           powm(ZG, d.v0) == mulp(d.a0, powm(al, d.c0)) && powm(ZG, d.v1) == mulp(d.a1, powm(al, d.c1)) &&
           powm(k, d.v0) == mulp(d.b0, powm(be, d.c0)) &&
           mulp(powm(ZG, d.c1), powm(k, d.v1)) == mulp(d.b1, powm(be, d.c1));
}
static D readD(const DisjunctiveChaumPedersenProof &p)
{
    return {val(*p.getProofZeroPad()), val(*p.getProofZeroData()), val(*p.getProofOnePad()),
            val(*p.getProofOneData()), val(*p.getProofZeroChallenge()), val(*p.getProofOneChallenge()),
            val(*p.getChallenge()), val(*p.getProofZeroResponse()), val(*p.getProofOneResponse())};
}
static bool libD(const D &d, const Z &al, const Z &be, const Z &k, const Z &q)
{
    DisjunctiveChaumPedersenProof p(mkP(d.a0), mkP(d.b0), mkP(d.a1), mkP(d.b1), mkQ(d.c0), mkQ(d.c1),
                                    mkQ(d.c), mkQ(d.v0), mkQ(d.v1));
    auto ct = ElGamalCiphertext::make(*mkP(al), *mkP(be));
    mc::step();
    return p.isValid(*ct, *mkP(k), *mkQ(q));
}
struct C {
    Z a, b, c, v;
    uint64_t L;
};
static Z chal(const Z &q, const Z &al, const Z &be, const C &d)
{
    return ref::H({ref::hex(q), ref::hex(al), ref::hex(be), ref::hex(d.a), ref::hex(d.b)});
}
static bool okC(const C &d, const Z &al, const Z &be, const Z &k, const Z &q)
{
    for (auto *e : {&al, &be, &d.a, &d.b})
        if (!residue(*e))
            return false;
    if (d.c < 0 || d.c >= ZQ || d.v < 0 || d.v >= ZQ)
        return false;
    return d.c == chal(q, al, be, d) && powm(ZG, d.v) == mulp(d.a, powm(al, d.c)) &&
           mulp(powm(ZG, qmod(d.c * Z((unsigned long)d.L))), powm(k, d.v)) == mulp(d.b, powm(be, d.c));
}
static bool libC(const C &d, const Z &al, const Z &be, const Z &k, const Z &q)
{
    ConstantChaumPedersenProof p(mkP(d.a), mkP(d.b), mkQ(d.c), mkQ(d.v), d.L);
    auto ct = ElGamalCiphertext::make(*mkP(al), *mkP(be));
    mc::step();
    return p.isValid(*ct, *mkP(k), *mkQ(q));
}
static bool zero(const D &d) { return d.c0 == 0 || d.c1 == 0 || d.v0 == 0 || d.v1 == 0; }

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool quick = mc::opt().quick();
    ZP = ref::P(), ZQ = ref::Q(), ZG = ref::G();
#ifdef USE_TEST_PRIMES
    const bool tiny = true;
    const unsigned qb = 16;
#else
    const bool tiny = false;
    const unsigned qb = 256;
#endif
    vector<Z> keys = {2, ZQ - 1, Z(1) << (qb / 2)}, non = {1, 2, ZQ - 1, (Z(1) << (qb - 1)) + 12}, seeds = {1, 2, ZQ - 1, Z(1) << (qb / 2 + 3)};
    Z qbar = ref::H({"base"});
    if (!quick) {
        keys.push_back((Z(1) << (qb / 4)) - 1);
        keys.push_back(ZQ - 2);
        non.push_back((Z(1) << (qb / 4)) - 1);
        non.push_back(ZQ - 2);
        seeds.push_back(3), seeds.push_back(ZQ - 5);
    }
    if (tiny) {
        // in the small group: a dense grid of nonces and seeds
        for (unsigned i = 1; i < (quick ? 4u : 32u); i++) {
            non.push_back(ZQ / 32 * i + 3);
            seeds.push_back(ZQ / 32 * i + 5);
        }
    }
    // ------------------------------------------------ completeness
    uint64_t nd = keys.size() * non.size() * seeds.size() * 2;
    mc::for_all("complete-disjunctive", nd, [&](uint64_t c) {
        uint64_t i = c;
        uint64_t v = i % 2;
        i /= 2;
        Z sd = seeds[i % seeds.size()];
        i /= seeds.size();
        Z r = non[i % non.size()];
        i /= non.size();
        Z s = keys[i], k = powm(ZG, s), al = powm(ZG, r), be = powm(k, r);
        if (v)
            be = mulp(be, ZG);
        string a = "s=" + x(s) + " r=" + x(r) + " seed=" + x(sd) + " v=" + to_string(v);
        auto ct = ElGamalCiphertext::make(*mkP(al), *mkP(be));
        auto K = mkP(k);
        if (c % 3 == 0)
            K->setIsFixedBase(true);
        // seeded: also reproducible and as prescribed
        auto p = DisjunctiveChaumPedersenProof::make(*ct, *mkQ(r), *K, *mkQ(qbar), *mkQ(sd), v);
        mc::step();
        mc::state(a);
        D d = readD(*p);
        Z w0 = nonce(sd, "disjoint-chaum-pedersen-proof", 0), w1 = nonce(sd, "disjoint-chaum-pedersen-proof", 1),
          w2 = nonce(sd, "disjoint-chaum-pedersen-proof", 2);
        mc::expect((v ? d.c0 : d.c1) == w0 && (v ? d.v0 : d.v1) == w1 &&
                     (v ? d.a1 : d.a0) == powm(ZG, w2) && (v ? d.b1 : d.b0) == powm(k, w2),
                   "seeded proof does not use the nonces its seed prescribes", a);
        mc::expect(okD(d, al, be, k, qbar), "seeded disjunctive proof fails the published equations", a);
        if (!(tiny && zero(d)))
            mc::expect(p->isValid(*ct, *K, *mkQ(qbar)), "seeded disjunctive proof is rejected by the library", a);
        if (sd == seeds[0] || tiny) {
            for (int kind = 0; kind < 2; kind++) {
                unique_ptr<DisjunctiveChaumPedersenProof> u;
                Z al2 = al, be2 = be;
                if (kind == 0)
                    u = DisjunctiveChaumPedersenProof::make(*ct, *mkQ(r), *K, *mkQ(qbar), v);
                else {
                    auto t = make_unique<TwoTriplesAndAQuadruple>(make_unique<Triple>(*K), make_unique<Triple>(*K), make_unique<Quadruple>(*K));
                    al2 = val(t->get_triple1()->get_g_to_exp());
                    be2 = val(t->get_triple1()->get_pubkey_to_exp());
                    if (v)
                        be2 = mulp(be2, ZG);
                    auto ct2 = ElGamalCiphertext::make(*mkP(al2), *mkP(be2));
                    u = DisjunctiveChaumPedersenProof::make_with_precomputed(*ct2, move(t), *mkQ(qbar), v);
                }
                D e = readD(*u);
                mc::step();
                string nm = kind ? "precomputed" : "unseeded";
                mc::expect(okD(e, al2, be2, k, qbar), nm + " disjunctive proof fails the published equations", a);
                if (!(tiny && zero(e)))
                    mc::expect(libD(e, al2, be2, k, qbar), nm + " disjunctive proof is rejected by the library", a);
            }
        }
        if (c < 4)
            mc::sample(a);
    });
    vector<uint64_t> Ls = {0, 1, 2, 3, 7, 100, 65519};
    if (!tiny) {
        Ls.push_back(1ull << 32);
        Ls.push_back((1ull << 63) + 5);
        Ls.push_back(~0ull);
    }
    uint64_t nc = keys.size() * non.size() * Ls.size();
    mc::for_all("complete-constant", nc, [&](uint64_t c) {
        uint64_t L = Ls[c % Ls.size()];
        Z r = non[c / Ls.size() % non.size()], s = keys[c / Ls.size() / non.size()];
        Z sd = seeds[c % seeds.size()], k = powm(ZG, s), al = powm(ZG, r),
          be = mulp(powm(ZG, Z((unsigned long)L)), powm(k, r));
        string a = "s=" + x(s) + " r=" + x(r) + " seed=" + x(sd) + " L=" + to_string(L);
        auto ct = ElGamalCiphertext::make(*mkP(al), *mkP(be));
        auto K = mkP(k);
        if (c % 3 == 0)
            K->setIsFixedBase(true);
        auto p = ConstantChaumPedersenProof::make(*ct, *mkQ(r), *K, *mkQ(sd), *mkQ(qbar), L);
        mc::step();
        mc::state(a);
        C d{val(*p->getPad()), val(*p->getData()), val(*p->getChallenge()), val(*p->getResponse()), p->getConstant()};
        Z u = nonce(sd, "constant-chaum-pedersen-proof", 0);
        mc::expect(d.L == L, "constant proof states another constant", a);
        mc::expect(d.a == powm(ZG, u) && d.b == powm(k, u), "constant proof does not use the nonce its seed prescribes", a);
        mc::expect(okC(d, al, be, k, qbar), "constant proof fails the published equations", a);
        if (!(tiny && (d.c == 0 || d.v == 0)))
            mc::expect(p->isValid(*ct, *K, *mkQ(qbar)), "constant proof is rejected by the library", a);
        // a proof made for another constant than the one encrypted never holds
        for (uint64_t L2 : {L + 1, L - 1, (uint64_t)0}) {
            if (L2 == L || (tiny && L2 > 65000))
                continue;
            auto p2 = ConstantChaumPedersenProof::make(*ct, *mkQ(r), *K, *mkQ(sd), *mkQ(qbar), L2);
            mc::step();
            C d2{val(*p2->getPad()), val(*p2->getData()), val(*p2->getChallenge()), val(*p2->getResponse()), p2->getConstant()};
            if (p2->isValid(*ct, *K, *mkQ(qbar)) && !okC(d2, al, be, k, qbar))
                mc::fail("constant proof for a constant that is not encrypted is accepted", a + " claimed " + to_string(L2));
        }
    });
    // ------------------------------------------------ false statements
    mc::for_all("false-disjunctive", keys.size() * non.size() * 6, [&](uint64_t c) {
        uint64_t enc = vector<uint64_t>{0, 1, 2, 3, 5, ~0ull}[c % 6];
        Z r = non[c / 6 % non.size()], s = keys[c / 6 / non.size()], k = powm(ZG, s), al = powm(ZG, r);
        Z m = enc == ~0ull ? ZQ - 1 : Z((unsigned long)enc); // an encryption of minus one as well
        Z be = mulp(powm(ZG, m), powm(k, r));
        auto ct = ElGamalCiphertext::make(*mkP(al), *mkP(be));
        auto K = mkP(k);
        for (uint64_t claim : {0, 1, 2, 3})
            for (int kind = 0; kind < 2; kind++) {
                string a = "enc=" + m.get_str() + " claim=" + to_string(claim) + " kind=" + to_string(kind) + " s=" + x(s) + " r=" + x(r);
                if (claim <= 1 && claim == enc)
                    continue;
                mc::step();
                mc::state(a);
                unique_ptr<DisjunctiveChaumPedersenProof> p;
                try {
                    p = kind ? DisjunctiveChaumPedersenProof::make(*ct, *mkQ(r), *K, *mkQ(qbar), claim)
                             : DisjunctiveChaumPedersenProof::make(*ct, *mkQ(r), *K, *mkQ(qbar), *mkQ(seeds[0]), claim);
                } catch (const exception &) {
                    if (claim > 1)
                        continue;
                    throw;
                }
                if (claim > 1) {
                    mc::fail("a proof is handed out for a vote other than zero or one", a);
                    continue;
                }
                if (p->isValid(*ct, *K, *mkQ(qbar)) && !(tiny && okD(readD(*p), al, be, k, qbar)))
                    mc::fail("proof for a false statement is accepted", a);
            }
        for (uint64_t claim : {2, 3}) {
            try {
                auto t = make_unique<TwoTriplesAndAQuadruple>(make_unique<Triple>(*K), make_unique<Triple>(*K), make_unique<Quadruple>(*K));
                DisjunctiveChaumPedersenProof::make_with_precomputed(*ct, move(t), *mkQ(qbar), claim);
                mc::fail("a precomputed proof is handed out for a vote other than zero or one");
            } catch (const exception &) {
            }
        }
    });
    // ------------------------------------------------ single replacements
    Z s = keys[2], k = powm(ZG, s), s2 = keys[1], k2 = powm(ZG, s2);
    Z cof = powm(3, (ZP - 1) / 2) == 1 ? powm(5, (ZP - 1) / 2) : powm(3, (ZP - 1) / 2); // ZP-1 or 1
    vector<Z> repP = {0, 1, ZG, ZP - 1, ZP, mulp(ZG, ZG), 3};
    vector<Z> repQ = {0, 1, 2, ZQ - 1, ZQ, (Z(1) << 256) - 1};
    auto reject = [&](bool lib, const function<bool()> &refok, const string &what, const string &a) {
        mc::state(what + a);
        if (lib && !refok())
            mc::fail(what + " is accepted", a);
    };
    mc::for_all("mutate-disjunctive", 2 * (quick ? 1 : 3) * 8, [&](uint64_t c) {
        uint64_t shard = c % 8, nth = 0;
        c /= 8;
        uint64_t v = c % 2;
        Z r = non[(c / 2 + 3) % 4], al = powm(ZG, r), be = powm(k, r);
        if (v)
            be = mulp(be, ZG);
        auto ct = ElGamalCiphertext::make(*mkP(al), *mkP(be));
        D d = readD(*DisjunctiveChaumPedersenProof::make(*ct, *mkQ(r), *mkP(k), *mkQ(qbar), *mkQ(seeds[1]), v));
        D o = readD(*DisjunctiveChaumPedersenProof::make(*ct, *mkQ(r), *mkP(k), *mkQ(qbar), *mkQ(seeds[2]), v));
        string a = "v=" + to_string(v) + " r=" + x(r);
        Z D::*pp[4] = {&D::a0, &D::b0, &D::a1, &D::b1};
        Z D::*qq[5] = {&D::c0, &D::c1, &D::c, &D::v0, &D::v1};
        const char *pn[4] = {"zero pad", "zero data", "one pad", "one data"};
        const char *qn[5] = {"zero challenge", "one challenge", "challenge", "zero response", "one response"};
        auto tryD = [&](const D &e, const Z &al, const Z &be, const Z &k, const Z &q, const string &w) {
            if (nth++ % 8 != shard)
                return;
            reject(libD(e, al, be, k, q), [&] { return okD(e, al, be, k, q); }, w, a);
        };
        for (int i = 0; i < 4; i++) {
            auto R = repP;
            R.insert(R.end(), {o.*pp[i], ZP - d.*pp[i], mulp(d.*pp[i], ZG), al, be, k});
            for (int j = 0; j < 4; j++)
                R.push_back(d.*pp[j]);
            for (auto &z : R)
                if (z != d.*pp[i]) {
                    D e = d;
                    e.*pp[i] = z;
                    tryD(e, al, be, k, qbar, string("replaced ") + pn[i]);
                }
        }
        for (int i = 0; i < 5; i++) {
            auto R = repQ;
            R.insert(R.end(), {o.*qq[i], ZQ - d.*qq[i], qmod(d.*qq[i] + 1), qmod(d.*qq[i] - 1)});
            for (int j = 0; j < 5; j++)
                R.push_back(d.*qq[j]);
            for (unsigned b = 0; b < qb; b += quick ? 37 : 3) {
                Z z = d.*qq[i];
                mpz_combit(z.get_mpz_t(), b);
                R.push_back(z);
            }
            for (auto &z : R)
                if (z != d.*qq[i]) {
                    D e = d;
                    e.*qq[i] = z;
                    tryD(e, al, be, k, qbar, string("replaced ") + qn[i]);
                }
        }
        // every transposition of two like components; the whole branches
        for (int i = 0; i < 4; i++)
            for (int j = 0; j < i; j++) {
                D e = d;
                swap(e.*pp[i], e.*pp[j]);
                tryD(e, al, be, k, qbar, string("exchange of ") + pn[i] + " and " + pn[j]);
            }
        for (int i = 0; i < 5; i++)
            for (int j = 0; j < i; j++) {
                D e = d;
                swap(e.*qq[i], e.*qq[j]);
                tryD(e, al, be, k, qbar, string("exchange of ") + qn[i] + " and " + qn[j]);
            }
        D e{d.a1, d.b1, d.a0, d.b0, d.c1, d.c0, d.c, d.v1, d.v0};
        tryD(e, al, be, k, qbar, "exchange of the two branches");
        for (const Z &z : vector<Z>{Z(1), ZG, ZP - 1, Z(0), ZP, ZP - al, mulp(al, ZG), be, k}) {
            if (z != al)
                tryD(d, z, be, k, qbar, "proof for another pad");
        }
        for (const Z &z : vector<Z>{Z(1), ZG, ZP - 1, Z(0), ZP, ZP - be, mulp(be, ZG), al, mulp(be, ref::inv(ZG))})
            if (z != be)
                tryD(d, al, z, k, qbar, "proof for another data");
        tryD(d, be, al, k, qbar, "proof for the exchanged ciphertext");
        for (const Z &z : vector<Z>{k2, Z(1), ZG, ZP - k, mulp(k, ZG)})
            tryD(d, al, be, z, qbar, "proof under another key");
        for (const Z &z : vector<Z>{Z(0), Z(1), qmod(qbar + 1), ZQ - qbar})
            tryD(d, al, be, k, z, "proof under another base hash");
        tryD(o, al, be, k, qbar, "(genuine proof)");
        if (!(tiny && (zero(d) || zero(o))))
            mc::expect(libD(d, al, be, k, qbar) && libD(o, al, be, k, qbar), "genuine rebuilt proof rejected", a);
    });
    vector<uint64_t> Lm = quick ? vector<uint64_t>{1, 2, Ls.back()} : Ls;
    mc::for_all("mutate-constant", 4 * (quick ? 1 : 2) * Lm.size(), [&](uint64_t c) {
        uint64_t shard = c % 4, nth = 0;
        c /= 4;
        uint64_t L = Lm[c % Lm.size()];
        Z r = non[c / Lm.size() ? 1 : 3], al = powm(ZG, r), be = mulp(powm(k, r), powm(ZG, Z((unsigned long)L)));
        auto ct = ElGamalCiphertext::make(*mkP(al), *mkP(be));
        auto mk = [&](const Z &sd) {
            auto p = ConstantChaumPedersenProof::make(*ct, *mkQ(r), *mkP(k), *mkQ(sd), *mkQ(qbar), L);
            return C{val(*p->getPad()), val(*p->getData()), val(*p->getChallenge()), val(*p->getResponse()), p->getConstant()};
        };
        C d = mk(seeds[1]), o = mk(seeds[2]);
        string a = "L=" + to_string(L) + " r=" + x(r);
        auto tryC = [&](const C &e, const Z &al, const Z &be, const Z &k, const Z &q, const string &w) {
            if (nth++ % 4 != shard)
                return;
            reject(libC(e, al, be, k, q), [&] { return okC(e, al, be, k, q); }, w, a);
        };
        Z C::*pp[2] = {&C::a, &C::b};
        Z C::*qq[2] = {&C::c, &C::v};
        const char *pn[2] = {"pad", "data"}, *qn[2] = {"challenge", "response"};
        for (int i = 0; i < 2; i++) {
            auto R = repP;
            R.insert(R.end(), {o.*pp[i], d.*pp[1 - i], ZP - d.*pp[i], mulp(d.*pp[i], ZG), al, be, k});
            for (auto &z : R)
                if (z != d.*pp[i]) {
                    C e = d;
                    e.*pp[i] = z;
                    tryC(e, al, be, k, qbar, string("constant proof with replaced ") + pn[i]);
                }
            auto S = repQ;
            S.insert(S.end(), {o.*qq[i], d.*qq[1 - i], ZQ - d.*qq[i], qmod(d.*qq[i] + 1)});
            for (unsigned b = 0; b < qb; b += quick ? 37 : 3) {
                Z z = d.*qq[i];
                mpz_combit(z.get_mpz_t(), b);
                S.push_back(z);
            }
            for (auto &z : S)
                if (z != d.*qq[i]) {
                    C e = d;
                    e.*qq[i] = z;
                    tryC(e, al, be, k, qbar, string("constant proof with replaced ") + qn[i]);
                }
        }
        for (uint64_t l : Ls)
            if (l != L) {
                C e = d;
                e.L = l;
                tryC(e, al, be, k, qbar, "constant proof with another constant");
            }
        for (const Z &z : vector<Z>{Z(1), ZG, ZP - 1, Z(0), ZP, ZP - al, mulp(al, ZG), be, k})
            if (z != al)
                tryC(d, z, be, k, qbar, "constant proof for another pad");
        for (const Z &z : vector<Z>{Z(1), ZG, ZP - 1, Z(0), ZP, ZP - be, mulp(be, ZG), al})
            if (z != be)
                tryC(d, al, z, k, qbar, "constant proof for another data");
        for (const Z &z : vector<Z>{k2, Z(1), ZG, ZP - k, mulp(k, ZG)})
            tryC(d, al, be, z, qbar, "constant proof under another key");
        for (const Z &z : vector<Z>{Z(0), Z(1), qmod(qbar + 1), ZQ - qbar})
            tryC(d, al, be, k, z, "constant proof under another base hash");
        if (!(tiny && (d.c == 0 || d.v == 0)))
            mc::expect(libC(d, al, be, k, qbar), "genuine rebuilt constant proof rejected", a);
    });
    // ------------------------------------------------ one condition broken at a time
    // The reference prover satisfies every condition of the verifier but one.
    int reps = tiny ? (quick ? 8 : 48) : (quick ? 2 : 8);
    mc::for_all("forge-disjunctive", 2 * reps, [&](uint64_t c) {
        uint64_t v = c % 2;
        Z r = qmod(ref::H({"r", to_string(c)})), al = powm(ZG, r), be = powm(k, r);
        if (v)
            be = mulp(be, ZG);
        string a = "v=" + to_string(v) + " rep=" + to_string(c / 2);
        auto rnd = [&](const string &n) { return Z(ref::H({n, to_string(c)})); };
        // builds a proof by the reference prover; hooks change it before hashing
        auto prove = [&](const Z &al, const Z &be, const Z &r, int vote, const Z &fakec, const Z &fakev,
                         const function<void(D &)> &beforehash, const function<Z(const D &)> &challenge,
                         const function<void(D &)> &afterchal, const Z &u) {
            D d;
            // simulated branch
            Z nc = ZQ - fakec;
            if (vote == 0) {
                d.c1 = fakec, d.v1 = fakev;
                d.a1 = mulp(powm(ZG, fakev), powm(al, nc));
                d.b1 = mulp(mulp(powm(k, fakev), powm(ZG, fakec)), powm(be, nc));
                d.a0 = powm(ZG, u), d.b0 = powm(k, u);
            } else {
                d.c0 = fakec, d.v0 = fakev;
                d.a0 = mulp(powm(ZG, fakev), powm(al, nc));
                d.b0 = mulp(powm(k, fakev), powm(be, nc));
                d.a1 = powm(ZG, u), d.b1 = powm(k, u);
            }
            beforehash(d);
            d.c = challenge(d);
            (vote ? d.c1 : d.c0) = qmod(d.c - fakec);
            afterchal(d);
            (vote ? d.v1 : d.v0) = qmod(u + (vote ? d.c1 : d.c0) * r);
            return d;
        };
        auto none = [](D &) {};
        auto full = [&](const Z &al, const Z &be) { return [&, al, be](const D &d) { return chal(qbar, al, be, d); }; };
        Z fc = rnd("fc"), fv = rnd("fv"), u = rnd("u");
        D g = prove(al, be, r, v, fc, fv, none, full(al, be), none, u);
        if (!okD(g, al, be, k, qbar))
            throw runtime_error("reference prover is broken");
        if (!(tiny && zero(g)))
            mc::expect(libD(g, al, be, k, qbar), "a proof that satisfies every published equation is rejected", a);
        auto bad = [&](const D &e, const Z &al, const Z &be, const string &w) {
            mc::state(w + a);
            if (okD(e, al, be, k, qbar)) {
                if (!tiny)
                    throw runtime_error("forgery holds: " + w);
                return;
            }
            if (libD(e, al, be, k, qbar))
                mc::fail("forged proof accepted: " + w, a);
        };
        // challenge not derived from one of the seven inputs
        for (int drop = 0; drop < 7; drop++) {
            auto ch = [&](const D &d) {
                vector<string> it = {ref::hex(qbar), ref::hex(al), ref::hex(be), ref::hex(d.a0), ref::hex(d.b0), ref::hex(d.a1), ref::hex(d.b1)};
                it.erase(it.begin() + drop);
                return ref::H(it);
            };
            bad(prove(al, be, r, v, fc, fv, none, ch, none, u), al, be, "challenge ignores input " + to_string(drop));
        }
        bad(prove(al, be, r, v, fc, fv, none, [&](const D &) { return rnd("c"); }, none, u), al, be, "challenge chosen freely");
        // challenges do not add up
        bad(prove(al, be, r, v, fc, fv, none, full(al, be), [&](D &d) { (v ? d.c1 : d.c0) = qmod((v ? d.c1 : d.c0) + 1); }, u), al, be,
            "challenges do not add up");
        bad(prove(al, be, r, v, fc, fv, none, full(al, be), [&](D &d) { d.c = qmod(d.c0 + d.c1 + 1), (v ? d.c1 : d.c0) = qmod(d.c - fc); }, u), al, be,
            "stated challenge is not the hash");
        // one commitment off before the challenge
        for (int i = 0; i < 4; i++)
            bad(prove(al, be, r, v, fc, fv, [&](D &d) {
                    Z D::*pp[4] = {&D::a0, &D::b0, &D::a1, &D::b1};
                    d.*pp[i] = mulp(d.*pp[i], ZG);
                }, full(al, be), none, u), al, be, "commitment equation " + to_string(i) + " violated");
        // ciphertext of two with one branch's data equation left unproven
        {
            Z be2 = mulp(powm(k, r), mulp(ZG, ZG));
            bad(prove(al, be2, r, v, fc, fv, none, full(al, be2), none, u), al, be2, "encryption of two");
        }
        // responses and challenges outside the field
        if (true) {
            Z big = ZQ + 5;
            D e = prove(al, be, r, v, fc, 5, none, full(al, be), none, u);
            (v ? e.v0 : e.v1) = big;
            bad(e, al, be, v ? "zero response beyond the field" : "one response beyond the field");
            D f = prove(al, be, r, v, 5, fv, none, full(al, be), none, u);
            (v ? f.c0 : f.c1) = big;
            bad(f, al, be, v ? "zero challenge beyond the field" : "one challenge beyond the field");
        }
        // pad / data outside the subgroup: sign flips the powers hide when the challenges are even
        for (int which = 0; which < 3; which++) {
            for (int t = 0; t < 200; t++) {
                Z al2 = which != 1 ? Z(ZP - al) : al, be2 = which != 0 ? Z(ZP - be) : be;
                Z fce = fc % 2 == 0 ? fc : fc - 1;
                D e;
                // simulated with an even challenge so that the flip cancels
                Z uu = qmod(u + t);
                {
                    Z nc = ZQ - fce; // odd: use the true inverse instead
                    D d;
                    Z ia = ref::inv(powm(al2, fce)), ib = ref::inv(powm(be2, fce));
                    if (v == 0) {
                        d.c1 = fce, d.v1 = fv;
                        d.a1 = mulp(powm(ZG, fv), ia);
                        d.b1 = mulp(mulp(powm(k, fv), powm(ZG, fce)), ib);
                        d.a0 = powm(ZG, uu), d.b0 = powm(k, uu);
                    } else {
                        d.c0 = fce, d.v0 = fv;
                        d.a0 = mulp(powm(ZG, fv), ia);
                        d.b0 = mulp(powm(k, fv), ib);
                        d.a1 = powm(ZG, uu), d.b1 = powm(k, uu);
                    }
                    d.c = chal(qbar, al2, be2, d);
                    Z rc = qmod(d.c - fce);
                    (v ? d.c1 : d.c0) = rc;
                    (v ? d.v1 : d.v0) = qmod(uu + rc * r);
                    e = d;
                    if (rc % 2 != 0)
                        continue;
                }
                bad(e, al2, be2, string("ciphertext outside the subgroup: ") + (which == 0 ? "pad" : which == 1 ? "data" : "both"));
                break;
            }
        }
        // ciphertext not reduced
        if (tiny) {
            for (int which = 0; which < 2; which++) {
                Z al2 = which == 0 ? Z(al + ZP) : al, be2 = which == 1 ? Z(be + ZP) : be;
                bad(prove(al2, be2, r, v, fc, fv, none, full(al2, be2), none, u), al2, be2, which ? "data not reduced" : "pad not reduced");
            }
            for (int i = 0; i < 4; i++)
                bad(prove(al, be, r, v, fc, fv, [&](D &d) {
                        Z D::*pp[4] = {&D::a0, &D::b0, &D::a1, &D::b1};
                        d.*pp[i] += ZP;
                    }, full(al, be), none, u), al, be, "commitment " + to_string(i) + " not reduced");
        }
    });
    mc::for_all("forge-constant", 3 * reps, [&](uint64_t c) {
        uint64_t L = vector<uint64_t>{0, 1, 3}[c % 3];
        Z r = ref::H({"r", to_string(c)}), al = powm(ZG, r), be = mulp(powm(k, r), powm(ZG, Z((unsigned long)L)));
        string a = "L=" + to_string(L) + " rep=" + to_string(c / 3);
        Z u = ref::H({"u", to_string(c)});
        auto bad = [&](const C &e, const Z &al, const Z &be, const string &w) {
            mc::state(w + a);
            if (okC(e, al, be, k, qbar)) {
                if (!tiny)
                    throw runtime_error("forgery holds: " + w);
                return;
            }
            if (libC(e, al, be, k, qbar))
                mc::fail("forged constant proof accepted: " + w, a);
        };
        auto prove = [&](const Z &al, const Z &be, uint64_t claim, const Z &u, int drop, int off) {
            C d{powm(ZG, u), powm(k, u), 0, 0, claim};
            if (off == 0)
                d.a = mulp(d.a, ZG);
            if (off == 1)
                d.b = mulp(d.b, ZG);
            if (off == 2)
                d.a += ZP;
            if (off == 3)
                d.b += ZP;
            vector<string> it = {ref::hex(qbar), ref::hex(al), ref::hex(be), ref::hex(d.a), ref::hex(d.b)};
            if (drop >= 0)
                it.erase(it.begin() + drop);
            d.c = ref::H(it);
            d.v = qmod(u + d.c * r);
            return d;
        };
        C g = prove(al, be, L, u, -1, -1);
        if (!okC(g, al, be, k, qbar))
            throw runtime_error("reference prover is broken");
        if (!(tiny && (g.c == 0 || g.v == 0)))
            mc::expect(libC(g, al, be, k, qbar), "a constant proof that satisfies every published equation is rejected", a);
        for (int i = 0; i < 5; i++)
            bad(prove(al, be, L, u, i, -1), al, be, "challenge ignores input " + to_string(i));
        bad(prove(al, be, L, u, -1, 0), al, be, "pad equation violated");
        bad(prove(al, be, L, u, -1, 1), al, be, "data equation violated");
        {
            C e = g;
            e.c = ref::H({"free"});
            e.v = qmod(u + e.c * r);
            bad(e, al, be, "challenge chosen freely");
        }
        for (uint64_t l : {0, 1, 2, 3, 4})
            if (l != L)
                bad(prove(al, be, l, u, -1, -1), al, be, "another constant");
        for (int which = 0; which < 3; which++)
            for (int t = 0; t < 200; t++) {
                Z al2 = which != 1 ? Z(ZP - al) : al, be2 = which != 0 ? Z(ZP - be) : be;
                C e = prove(al2, be2, L, qmod(u + t), -1, -1);
                if (e.c % 2 != 0)
                    continue;
                bad(e, al2, be2, string("accumulation outside the subgroup: ") + (which == 0 ? "pad" : which == 1 ? "data" : "both"));
                break;
            }
        if (tiny) {
            bad(prove(al, be, L, u, -1, 2), al, be, "pad commitment not reduced");
            bad(prove(al, be, L, u, -1, 3), al, be, "data commitment not reduced");
            Z al2 = al + ZP, be2 = be + ZP;
            bad(prove(al2, be, L, u, -1, -1), al2, be, "pad not reduced");
            bad(prove(al, be2, L, u, -1, -1), al, be2, "data not reduced");
            C e = g;
            e.v += ZQ;
            bad(e, al, be, "response beyond the field");
        } else {
            // choose u so that the response is small
            C e{0, 0, 0, 0, L};
            e = g;
            e.v = g.v + ZQ;
            if (e.v < (Z(1) << 256))
                bad(e, al, be, "response beyond the field");
        }
    });
    return mc::finish();
}
