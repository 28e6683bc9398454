// C03: ElGamal against GMP over exhaustive combinations of boundary keys,
// nonces and votes, and all bounded multisets of ciphertexts.
#include "mc.hpp"
#include "ref.hpp"
#include <electionguard/elgamal.hpp>
#include <electionguard/precompute_buffers.hpp>
using namespace electionguard;
using namespace std;
using ref::mkP;
using ref::mkQ;
using ref::val;
using ref::Z;
static Z pow2(unsigned k) { return Z(1) << k; }
static string x(const Z &z) { return z.get_str(16).substr(0, 40); }

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool quick = mc::opt().quick();
    const Z P = ref::P(), Q = ref::Q(), G = ref::G();
#ifdef USE_TEST_PRIMES
    const bool tiny = true;
    const unsigned qb = 16;
#else
    const bool tiny = false;
    const unsigned qb = 256;
#endif
    // ---- which secrets are accepted
    vector<Z> sec = {0, 1, 2, 3, Q - 2, Q - 1, Q, Z(Q + 1), Z(pow2(256) - 1), Z(pow2(qb - 1)), Z(pow2(qb / 2)), Z(pow2(qb / 2) - 1), (Q - 1) / 2};
    mc::for_all("keypair", sec.size() * 2, [&](uint64_t c) {
        Z s = sec[c / 2];
        bool fixed = c % 2;
        mc::step();
        mc::state("kp" + to_string(c));
        bool ok = true;
        unique_ptr<ElGamalKeyPair> kp;
        try {
            kp = ElGamalKeyPair::fromSecret(*mkQ(s), fixed);
        } catch (const exception &) {
            ok = false;
        }
        bool want = s >= 2 && s < Q;
        mc::expect(ok == want, string("key pair from secret: ") + (want ? "usable secret refused" : "unusable secret accepted"), "secret=" + x(s));
        if (ok && want) {
            mc::expect(val(*kp->getSecretKey()) == s, "key pair keeps another secret", x(s));
            mc::expect(val(*kp->getPublicKey()) == ref::powm(G, s), "public key is not G^secret", x(s));
            mc::expect(kp->getPublicKey()->isFixedBase() == fixed, "public key fixed-base flag", x(s));
        }
    });
    // ---- encrypt / decrypt
    vector<Z> keys, non;
    for (auto &s : sec)
        if (s >= 2 && s < Q)
            keys.push_back(s);
    non = {1, 2, Q - 1, Q - 2, (Q + 1) / 2};
    for (unsigned k = qb / 4; k < qb; k += qb / 4) {
        non.push_back(pow2(k));
        if (!quick)
            non.push_back(pow2(k) - 1);
    }
    vector<uint64_t> votes = {0, 1, 2, 3, 5, 100, 65519};
    if (!tiny) {
        votes.push_back(1ull << 32);
        votes.push_back(~0ull);
    }
    struct KP {
        Z s, K;
        unique_ptr<ElGamalKeyPair> fx, pl;
    };
    mc::for_all("encrypt", keys.size() * non.size(), [&](uint64_t c) {
        Z s = keys[c / non.size()], r = non[c % non.size()];
        Z K = ref::powm(G, s), pad = ref::powm(G, r), kr = ref::powm(K, r);
        static Z lasts = -1;
        static unique_ptr<ElGamalKeyPair> fx, pl, other;
        if (lasts != s) {
            fx = ElGamalKeyPair::fromSecret(*mkQ(s), true);
            pl = ElGamalKeyPair::fromSecret(*mkQ(s), false);
            lasts = s;
        }
        Z so = s == keys[0] ? keys[1] : keys[0];
        for (auto v : votes) {
            Z data = ref::mulp(ref::powm(G, Z((unsigned long)v)), kr);
            string a = "s=" + x(s) + " r=" + x(r) + " v=" + to_string(v);
            for (auto *kp : {fx.get(), pl.get()}) {
                if (kp == pl.get() && v > 1)
                    continue;
                auto ct = elgamalEncrypt(v, *mkQ(r), *kp->getPublicKey());
                mc::step();
                mc::state(mc::fnv(a));
                mc::expect(val(*ct->getPad()) == pad, "ElGamal pad is not G^nonce", a);
                mc::expect(val(*ct->getData()) == data, "ElGamal data is not G^vote K^nonce", a);
                if (kp == pl.get())
                    continue;
                // precomputed powers
                auto gr = mkP(pad), krp = mkP(kr);
                auto ct2 = elgamalEncrypt_with_precomputed(v, *gr, *krp);
                mc::step();
                mc::expect(val(*ct2->getPad()) == pad && val(*ct2->getData()) == data,
                           "precomputed encryption differs", a);
                mc::expect(val(*gr) == pad && val(*krp) == kr, "precomputed powers were changed", a);
                if (*ct != *ct2 || !(*ct == *ct2))
                    mc::fail("equal ciphertexts compare different", a);
                if (v <= 1 || v == 2) {
                    uint64_t d = ct->decrypt(*mkQ(s));
                    mc::step();
                    mc::expect(v == 2 ? (d != 0 && d != 1) : d == v, "decryption does not return the vote", a + " got " + to_string(d));
                    if (v <= 1 && c % 2 == 0) {
                        uint64_t d2 = ct->decrypt(*mkQ(so));
                        // K^r / (G^so)^r must not look like a vote
                        Z m = ref::mulp(data, ref::inv(ref::powm(pad, so)));
                        uint64_t w = m == 1 ? 0 : m == G ? 1 : ~0ull;
                        mc::step();
                        mc::expect(d2 == w, "decryption with another key", a);
                    }
                }
                mc::expect(val(ct->crypto_hash()) == ref::H({ref::hex(pad), ref::hex(data)}), "ciphertext hash", a);
            }
            if (c < 3 && v == 1)
                mc::sample(a);
        }
    });
    mc::for_all("bad-nonce", keys.size(), [&](uint64_t c) {
        auto kp = ElGamalKeyPair::fromSecret(*mkQ(keys[c]), false);
        for (uint64_t v : {0, 1}) {
            try {
                elgamalEncrypt(v, *mkQ(0), *kp->getPublicKey());
                mc::fail("a zero nonce is accepted", "v=" + to_string(v));
            } catch (const exception &) {
            }
            mc::step();
            mc::state("bn" + to_string(c * 2 + v));
        }
    });
    // ---- homomorphic sums: every sequence over the alphabet up to the bound
    {
        Z s = keys[3 % keys.size()], K = ref::powm(G, s);
        struct CT {
            Z v, r;
        };
        vector<CT> al = {{0, 1}, {1, 1}, {1, Q - 1}, {0, Z(pow2(qb - 1))}, {1, 2}};
        vector<unique_ptr<ElGamalCiphertext>> ct;
        for (auto &a : al)
            ct.push_back(ElGamalCiphertext::make(*mkP(ref::powm(G, a.r)),
                                                 *mkP(ref::mulp(ref::powm(G, a.v), ref::powm(K, a.r)))));
        int D = quick ? 4 : 6;
        uint64_t n = 0, m = 1;
        vector<uint64_t> start;
        for (int d = 0; d <= D; d++) {
            start.push_back(n);
            n += m;
            m *= al.size();
        }
        mc::for_all("add", n, [&](uint64_t c) {
            int d = 0;
            while (d < D && c >= start[d + 1])
                d++;
            uint64_t k = c - start[d];
            vector<reference_wrapper<ElGamalCiphertext>> l;
            Z v = 0, r = 0;
            string a;
            for (int i = 0; i < d; i++) {
                auto j = k % al.size();
                k /= al.size();
                l.push_back(*ct[j]);
                v += al[j].v;
                r += al[j].r;
                a += to_string(j);
            }
            mc::step(d + 1);
            mc::state("add" + a);
            if (d == 0) {
                try {
                    elgamalAdd(l);
                    mc::fail("an empty sum gives a ciphertext");
                } catch (const exception &) {
                }
                return;
            }
            auto sum = elgamalAdd(l);
            r = ref::mod(r, Q);
            mc::expect(val(*sum->getPad()) == ref::powm(G, r), "sum's pad is not G^(sum of nonces)", a);
            mc::expect(val(*sum->getData()) == ref::mulp(ref::powm(G, v), ref::powm(K, r)),
                       "sum does not encrypt the sum of the votes", a);
            for (size_t i = 0; i < l.size(); i++) {
                int j = a[i] - '0';
                if (val(*l[i].get().getPad()) != ref::powm(G, al[j].r))
                    mc::fail("adding changed an operand", a);
                if (d > 2)
                    break;
            }
            if (v <= 1 && d <= 3)
                mc::expect(sum->decrypt(*mkQ(s)) == v.get_ui(), "sum of votes decrypts wrongly", a);
        });
    }
    // longer sums: every length, votes and nonces in a fixed pattern, and one ciphertext many times
    {
        Z s = keys[3 % keys.size()], K = ref::powm(G, s);
        vector<size_t> lens;
        for (size_t n = 5; n <= (quick ? 40u : 130u); n++)
            lens.push_back(n);
        for (size_t n : {63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 512, 1000})
            lens.push_back(n);
        vector<unique_ptr<ElGamalCiphertext>> ct;
        vector<Z> nr;
        for (size_t i = 0; i < 1000; i++) {
            Z r = ref::mod(ref::H({"sum", ref::S((uint64_t)i)}), Q);
            if (tiny)
                r = 1 + (i * 7919) % 65000;
            nr.push_back(r);
            ct.push_back(ElGamalCiphertext::make(*mkP(ref::powm(G, r)), *mkP(ref::mulp(ref::powm(G, i % 3 == 0), ref::powm(K, r)))));
        }
        mc::for_all("long sums", lens.size() * 3, [&](uint64_t c) {
            size_t n = lens[c / 3];
            vector<reference_wrapper<ElGamalCiphertext>> l;
            Z v = 0, r = 0;
            for (size_t i = 0; i < n; i++) {
                size_t j = c % 3 == 0 ? i : c % 3 == 1 ? 0 : i % 2 ? 5 : n - 1 - i;
                j %= 1000;
                l.push_back(*ct[j]);
                v += j % 3 == 0;
                r += nr[j];
            }
            mc::step(n);
            mc::state("ls" + to_string(c));
            auto sum = elgamalAdd(l);
            r = ref::mod(r, Q);
            string a = to_string(n) + " ciphertexts, pattern " + to_string(c % 3);
            mc::expect(val(*sum->getPad()) == ref::powm(G, r), "sum's pad is not G^(sum of nonces)", a);
            mc::expect(val(*sum->getData()) == ref::mulp(ref::powm(G, v), ref::powm(K, r)), "sum does not encrypt the sum of the votes", a);
        });
    }
    if (tiny) {
        // every nonce of the small group
        Z s = 12345, K = ref::powm(G, s);
        unsigned q = Q.get_ui(), st = quick ? 8 : 1;
        mc::for_all("all-nonces", 64, [&](uint64_t b) {
            auto kp = ElGamalKeyPair::fromSecret(*mkQ(s), true);
            for (unsigned r = 1 + b * st; r < q; r += 64 * st) {
                auto ct = elgamalEncrypt(r & 1, *mkQ(r), *kp->getPublicKey());
                mc::step();
                mc::state(0x2000000ull + r);
                Z data = ref::powm(K, r);
                if (r & 1)
                    data = ref::mulp(data, G);
                if (val(*ct->getPad()) != ref::powm(G, r) || val(*ct->getData()) != data)
                    mc::fail("ElGamal encryption differs from its definition", to_string(r));
            }
        });
    }
    // ---- precomputed triples are powers of one exponent
    mc::for_all("triples", quick ? 8 : 32, [&](uint64_t c) {
        Z s = keys[c % keys.size()], K = ref::powm(G, s);
        auto kp = ElGamalKeyPair::fromSecret(*mkQ(s), c % 2);
        Triple t(*kp->getPublicKey());
        Z e = val(t.get_exp());
        mc::step(2);
        mc::state("t" + to_string(c));
        mc::expect(val(t.get_g_to_exp()) == ref::powm(G, e) && val(t.get_pubkey_to_exp()) == ref::powm(K, e),
                   "precomputed triple is inconsistent");
        auto g = t.get_g_to_exp();
        auto k = t.get_pubkey_to_exp();
        auto a = elgamalEncrypt_with_precomputed(1, *g, *k);
        auto b = elgamalEncrypt(1, *t.get_exp(), *kp->getPublicKey());
        mc::expect(*a == *b, "encryption with precomputed powers differs from encryption with their nonce");
    });
    return mc::finish();
}
