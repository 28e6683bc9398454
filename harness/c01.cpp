// C01: group and field arithmetic against GMP, over exhaustive boundary alphabets.
#include "mc.hpp"
#include "ref.hpp"
#include <functional>
#include <memory>
using namespace electionguard;
using namespace std;
using ref::mkP;
using ref::mkQ;
using ref::val;
using ref::Z;

static Z pow2(unsigned k)
{
    Z r = 1;
    return r << k;
}
static string sh(const Z &z)
{
    auto s = z.get_str(16);
    return s.size() > 80 ? s.substr(0, 24) + ".." + s.substr(s.size() - 24) + "(" + to_string(s.size()) + ")" : s;
}
static void uniq(vector<Z> &v, const Z &lim)
{
    vector<Z> o;
    set<string> seen;
    for (auto &z : v)
        if (z >= 0 && z < lim && seen.insert(z.get_str(16)).second)
            o.push_back(z);
    v = o;
}
// values at limb boundaries, both ends of the range, complements
static vector<Z> boundary(const Z &m, unsigned bits, int stride)
{
    vector<Z> v = {0, 1, 2, 3, m - 1, m - 2, m - 3, (m - 1) / 2, (m + 1) / 2, (m - 1) / 2 + 2};
    Z full = pow2(bits);
    for (int d = -2; d <= 2; d++) {
        v.push_back(full - m + d);
        v.push_back(m - (full - m) + d);
        v.push_back(full / 2 + d);
        v.push_back(full / 4 + d);
    }
    for (unsigned k = 64; k < bits; k += 64 * stride) {
        v.push_back(pow2(k));
        v.push_back(pow2(k) - 1);
        v.push_back(m - pow2(k));
        v.push_back(m - pow2(k) + 1);
        v.push_back(pow2(k + 63));
        // exactly this limb all ones
        v.push_back((pow2(64) - 1) << k);
        // everything above this limb all ones
        v.push_back(m - 1 - (m - 1) % pow2(k));
    }
    Z alt = 0;
    for (unsigned k = 0; k < bits; k += 8)
        alt = (alt << 8) + 0xA5;
    v.push_back(alt % m);
    v.push_back((alt >> 1) % m);
    v.push_back(ref::Q() % m);
    v.push_back((ref::Q() - 1) % m);
    v.push_back((ref::Q() + 1) % m);
    v.push_back(ref::G() % m);
    v.push_back(ref::R() % m);
    uniq(v, m);
    return v;
}

static void check(const Z &got, const Z &want, const string &key, const string &args)
{
    mc::step();
    if (got != want)
        mc::fail(key, args + " got " + sh(got) + " want " + sh(want));
}

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    const Z P = ref::P(), Q = ref::Q();
    bool quick = mc::opt().quick();
#ifdef USE_TEST_PRIMES
    const bool tiny = true;
    const unsigned pbits = 64, qbits = 16;
#else
    const bool tiny = false;
    const unsigned pbits = 4096, qbits = 256;
#endif

    // parameters
    mc::for_all("parameters", 1, [&](uint64_t) {
        mc::expect(val(electionguard::P()) == P, "constant P");
        mc::expect(val(electionguard::Q()) == Q, "constant Q");
        mc::expect(val(electionguard::G()) == ref::G(), "constant G");
        mc::expect(val(electionguard::R()) == ref::R(), "constant R");
        mc::expect(val(ZERO_MOD_P()) == 0 && val(ZERO_MOD_Q()) == 0, "constant zero");
        mc::expect(val(ONE_MOD_P()) == 1 && val(ONE_MOD_Q()) == 1, "constant one");
        mc::expect(val(TWO_MOD_P()) == 2 && val(TWO_MOD_Q()) == 2, "constant two");
        Z p = val(electionguard::P()), q = val(electionguard::Q()), g = val(electionguard::G()),
          r = val(electionguard::R());
        mc::expect(mpz_probab_prime_p(p.get_mpz_t(), 20) != 0, "P is not prime");
        mc::expect(mpz_probab_prime_p(q.get_mpz_t(), 20) != 0, "Q is not prime");
        mc::expect(q * r + 1 == p, "P != Q*R+1");
        mc::expect(g > 1 && g < p && ref::powm(g, q, p) == 1, "G does not have order Q");
        mc::step(12);
        mc::state("params");
    });

    // ---- P operations
    auto BP = boundary(P, pbits, tiny ? 1 : quick ? 2 : 1);
    mc::note("p_operands", to_string(BP.size()));
    vector<unique_ptr<ElementModP>> EP;
    for (auto &z : BP)
        EP.push_back(mkP(z));
    mc::for_all("p-pairs", BP.size(), [&](uint64_t i) {
        const Z &a = BP[i];
        auto pair = [&](const Z &b, const ElementModP &eb) {
            string args = "a=" + sh(a) + " b=" + sh(b);
            check(val(add_mod_p(*EP[i], eb)), ref::mod(a + b, P), "add_mod_p", args);
            check(val(mul_mod_p(*EP[i], eb)), ref::mod(a * b, P), "mul_mod_p", args);
            mc::step(3);
            if ((*EP[i] < eb) != (a < b))
                mc::fail("ElementModP <", args);
            if ((*EP[i] == eb) != (a == b))
                mc::fail("ElementModP ==", args);
            if ((*EP[i] != eb) != (a != b))
                mc::fail("ElementModP !=", args);
        };
        for (size_t j = 0; j < BP.size(); j++) {
            pair(BP[j], *EP[j]);
            mc::state(mc::fnv(a.get_str(16) + "," + BP[j].get_str(16)));
        }
        // complements: sums that land on word-size and modulus boundaries
        Z full = pow2(pbits);
        for (auto base : {P, Z(full)})
            for (int d = -2; d <= 2; d++) {
                Z b = base - a + d;
                if (b >= 0 && b < P) {
                    pair(b, *mkP(b));
                    mc::state(mc::fnv("c" + a.get_str(16) + "," + b.get_str(16)));
                }
            }
        check(val(mod_p(*EP[i])), a, "mod_p reduced", sh(a));
        if (i < 4)
            mc::sample("add/mul/compare mod P of " + sh(a) + " with all " + to_string(BP.size()) + " operands");
    });
    // unreduced values reduce exactly; membership tests
    mc::for_all("p-single", BP.size(), [&](uint64_t i) {
        Z a = BP[i];
        for (Z x : {a, Z(a + P)}) {
            if (x >= pow2(tiny ? 200 : 4096))
                continue;
            auto e = mkP(x);
            mc::state("s" + x.get_str(16));
            check(val(mod_p(*e)), ref::mod(x, P), "mod_p", sh(x));
            mc::step(2);
            mc::expect(e->isInBounds() == (x > 0 && x < P), "ElementModP::isInBounds", sh(x));
            if (x < P && (!quick || i % 4 == 0 || a < 4 || a > P - 4))
                mc::expect(e->isValidResidue() == (x > 0 && x < P && ref::powm(x, Q, P) == 1),
                           "ElementModP::isValidResidue", sh(x));
        }
    });
    for (Z x : {P, Z(P + 1)})
        mc::expect(!mkP(x)->isInBounds(), "ElementModP::isInBounds", sh(x));
    // residues: G^k is a residue, -G^k is not
    mc::for_all("residue", quick ? 24 : 96, [&](uint64_t i) {
        Z r = ref::powm(ref::G(), i);
        mc::expect(mkP(r)->isValidResidue(), "ElementModP::isValidResidue", "G^" + to_string(i));
        mc::expect(!mkP(P - r)->isValidResidue(), "ElementModP::isValidResidue", "-G^" + to_string(i));
        mc::step(2);
        mc::state("r" + to_string(i));
    });
    // products of lists of mixed elements
    {
        vector<Z> a = {0, 1, 2, P - 1, Q - 1, ref::G()};
        uint64_t n = 1;
        int L = quick ? 3 : 4;
        for (int k = 0; k < L; k++)
            n *= a.size() + 1;
        mc::for_all("mul-list", n, [&](uint64_t c) {
            vector<unique_ptr<ElementModP>> hp;
            vector<unique_ptr<ElementModQ>> hq;
            vector<ElementModPOrQ> l;
            Z want = 1;
            string s;
            for (int k = 0; k < L; k++) {
                int d = c % (a.size() + 1);
                c /= a.size() + 1;
                if (d == 0)
                    continue;
                Z z = a[d - 1];
                s += sh(z) + " ";
                want = ref::mod(want * z, P);
                if (z < Q && k % 2) {
                    hq.push_back(mkQ(z));
                    l.push_back(hq.back().get());
                } else {
                    hp.push_back(mkP(z));
                    l.push_back(hp.back().get());
                }
            }
            mc::state("ml" + s);
            check(val(mul_mod_p(l)), want, "mul_mod_p list", s);
        });
    }

    // ---- Q operations
    auto BQ = boundary(Q, qbits, 1);
    if (tiny) {
        for (int k = 0; k < (quick ? 128 : 400); k++) {
            BQ.push_back(k);
            BQ.push_back(Q - 1 - k);
        }
        uniq(BQ, Q);
    } else {
        for (unsigned k = 1; k < 256; k += quick ? 8 : 4) {
            BQ.push_back(pow2(k));
            BQ.push_back(Q - pow2(k));
        }
        uniq(BQ, Q);
    }
    mc::note("q_operands", to_string(BQ.size()));
    vector<unique_ptr<ElementModQ>> EQ;
    for (auto &z : BQ)
        EQ.push_back(mkQ(z));
    mc::for_all("q-pairs", BQ.size(), [&](uint64_t i) {
        const Z &a = BQ[i];
        auto pair = [&](const Z &b, const ElementModQ &eb) {
            string args = "a=" + sh(a) + " b=" + sh(b);
            check(val(add_mod_q(*EQ[i], eb)), ref::mod(a + b, Q), "add_mod_q", args);
            check(val(sub_mod_q(*EQ[i], eb)), ref::mod(a - b, Q), "sub_mod_q", args);
            mc::step(3);
            if ((*EQ[i] < eb) != (a < b))
                mc::fail("ElementModQ <", args);
            if ((*EQ[i] == eb) != (a == b))
                mc::fail("ElementModQ ==", args);
            if ((*EQ[i] != eb) != (a != b))
                mc::fail("ElementModQ !=", args);
        };
        for (size_t j = 0; j < BQ.size(); j++) {
            pair(BQ[j], *EQ[j]);
            mc::state("q" + a.get_str(16) + "," + BQ[j].get_str(16));
        }
        Z full = pow2(qbits);
        for (auto base : {Q, Z(full), Z(Q + full)})
            for (int d = -2; d <= 2; d++) {
                Z b = base - a + d;
                if (b >= 0 && b < Q) {
                    pair(b, *mkQ(b));
                    mc::state("qc" + a.get_str(16) + "," + b.get_str(16));
                }
            }
        check(val(sub_from_q(*EQ[i])), ref::mod(Q - a, Q), "sub_from_q a=" + sh(a), sh(a));
        check(val(EQ[i]->toElementModP()), a, "toElementModP", sh(a));
        mc::expect(EQ[i]->isInBounds() == (a > 0 && a < Q), "ElementModQ::isInBounds", sh(a));
    });
    for (Z x : {Q, Z(Q + 1), Z(pow2(256) - 1)})
        mc::expect(!mkQ(x)->isInBounds(), "ElementModQ::isInBounds", sh(x));

    // a + b*c
    {
        vector<Z> T = {0, 1, 2, Q - 1, Q - 2, (Q - 1) / 2, (Q + 1) / 2};
        unsigned st = tiny ? 4 : quick ? 32 : 16;
        for (unsigned k = st; k < qbits; k += st) {
            T.push_back(pow2(k));
            T.push_back(pow2(k) - 1);
            T.push_back(Q - pow2(k));
        }
        T.push_back(pow2(qbits) - Q);
        T.push_back(Q - (pow2(qbits) - Q));
        uniq(T, Q);
        vector<unique_ptr<ElementModQ>> ET;
        for (auto &z : T)
            ET.push_back(mkQ(z));
        mc::note("a_plus_bc_operands", to_string(T.size()));
        mc::for_all("a-plus-bc", T.size() * T.size(), [&](uint64_t c) {
            size_t i = c / T.size(), j = c % T.size();
            for (size_t k = 0; k < T.size(); k++) {
                check(val(a_plus_bc_mod_q(*ET[k], *ET[i], *ET[j])), ref::mod(T[k] + T[i] * T[j], Q),
                      "a_plus_bc_mod_q", "a=" + sh(T[k]) + " b=" + sh(T[i]) + " c=" + sh(T[j]));
                mc::state((c * T.size() + k) * 2654435761u + 77);
            }
        });
        // sums of lists
        int L = quick ? 3 : 4;
        vector<Z> a = {0, 1, Q - 1, Q - 2, (Q + 1) / 2, Z(pow2(qbits) - Q), Z(pow2(qbits - 1)), Z(Q - pow2(qbits / 2))};
        uint64_t n = 1;
        for (int k = 0; k < L; k++)
            n *= a.size() + 1;
        mc::for_all("add-list", n, [&](uint64_t c) {
            vector<unique_ptr<ElementModQ>> h;
            vector<reference_wrapper<ElementModQ>> l;
            Z want = 0;
            string s;
            for (int k = 0; k < L; k++) {
                int d = c % (a.size() + 1);
                c /= a.size() + 1;
                if (!d)
                    continue;
                h.push_back(mkQ(a[d - 1]));
                l.push_back(*h.back());
                want = ref::mod(want + a[d - 1], Q);
                s += sh(a[d - 1]) + " ";
            }
            if (l.empty()) {
                try {
                    add_mod_q(l);
                    mc::fail("add_mod_q of an empty list gave a value");
                } catch (const exception &) {
                }
                return;
            }
            mc::state("al" + s);
            check(val(add_mod_q(l)), want, "add_mod_q list", s);
        });
    }

    // ---- exponentiation
    // every table entry of every base: each value of each window, and neighbours
    struct Base {
        string name;
        Z v;
    };
    vector<Base> bases = {{"G", ref::G()},
                          {"G^2", ref::powm(ref::G(), 2)},
                          {"small", ref::powm(2, ref::R())},
                          {"P-1", P - 1},
                          {"1", 1},
                          {"2", 2}};
    auto powcheck = [&](const Base &b, const ElementModP &eb, const Z &x, const char *how) {
        Z want = ref::powm(b.v, x);
        check(val(pow_mod_p(eb, *mkQ(x))), want, string("pow_mod_p ") + how,
              "base=" + b.name + " exp=" + sh(x));
        if (b.name == "G")
            check(val(g_pow_p(*mkQ(x))), want, "g_pow_p", "exp=" + sh(x));
    };
    if (!tiny) {
        vector<Z> X;
        for (unsigned w = 0; w < 32; w++)
            for (unsigned d = 1; d < 256; d++)
                if (!quick || d < 4 || d > 252 || (d & (d - 1)) == 0 || d % 16 == w % 16)
                    X.push_back(Z(d) << (8 * w));
        uniq(X, Q);
        auto g = mkP(ref::G());
        g->setIsFixedBase(true);
        mc::for_all("fixed-base-windows", X.size(), [&](uint64_t i) {
            powcheck(bases[0], *g, X[i], "fixed base");
            mc::state("fw" + X[i].get_str(16));
        });
        if (!quick) {
            auto k = mkP(bases[2].v);
            k->setIsFixedBase(true);
            mc::for_all("fixed-base-windows-key", X.size(), [&](uint64_t i) {
                powcheck(bases[2], *k, X[i], "fixed base");
                mc::state("fwk" + X[i].get_str(16));
            });
        }
        // combinations of windows, single bits, runs of ones, ends
        vector<Z> Y = {0, 1, 2, 3, Q - 1, Q - 2, (Q - 1) / 2, (Q + 1) / 2};
        for (unsigned k = 0; k < 256; k++) {
            Y.push_back(pow2(k));
            if (!quick || k % 4 == 0) {
                Y.push_back(pow2(k) - 1);
                Y.push_back(Q - pow2(k));
                Y.push_back((Z(0xFFFF)) << k);
            }
        }
        for (unsigned w = 0; w < 32; w++) {
            Y.push_back((Q - 1) - (Z(0xFF) << (8 * w)));                    // one window empty
            Y.push_back((Z(0x01) << (8 * w)) + (Z(0x80) << (8 * (31 - w)))); // two windows
        }
        uniq(Y, Q);
        mc::note("exponents", to_string(Y.size()));
        mc::for_all("exponents", Y.size() * bases.size(), [&](uint64_t c) {
            auto &b = bases[c % bases.size()];
            auto &y = Y[c / bases.size()];
            if (quick && b.name != "G" && b.name != "small" && (c / bases.size()) % 8)
                return;
            auto e = mkP(b.v);
            powcheck(b, *e, y, "ordinary");
            e->setIsFixedBase(true);
            powcheck(b, *e, y, "fixed base");
            mc::state("e" + b.name + y.get_str(16));
            if (c == 0)
                mc::sample("base " + b.name + " exponent " + sh(y) + " ordinary and accelerated");
        });
        // exponents of full modulus size
        vector<Z> W = {0, 1, 2, Q - 1, Q, Q + 1, Z(2 * Q), P - 1, P - 2, (P - 1) / 2};
        for (unsigned k = 256; k < 4096; k += quick ? 256 : 64) {
            W.push_back(pow2(k));
            W.push_back(pow2(k) - 1);
        }
        uniq(W, P);
        mc::for_all("large-exponents", W.size() * 2, [&](uint64_t c) {
            Z b = c % 2 ? Z(2) : ref::G(), w = W[c / 2];
            check(val(pow_mod_p(*mkP(b), *mkP(w))), ref::powm(b, w), "pow_mod_p with an exponent mod P",
                  "base=" + sh(b) + " exp=" + sh(w));
            if (c % 2 == 0)
                check(val(g_pow_p(*mkP(w))), ref::powm(b, w), "g_pow_p with an exponent mod P", sh(w));
            mc::state("w" + to_string(c));
        });
    } else {
        // the small group: every exponent
        unsigned q = Q.get_ui();
        mc::for_all("all-exponents", 64, [&](uint64_t blk) {
            auto g = mkP(ref::G());
            auto gf = mkP(ref::G());
            gf->setIsFixedBase(true);
            Base b{quick ? "g" : "G", ref::G()};
            for (unsigned x = blk; x < q; x += 64) {
                powcheck(b, *gf, x, "fixed base");
                if (!quick || x % 64 == 0 || x > q - 16)
                    powcheck(b, *g, x, "ordinary");
                mc::state(0x1000000ull + x);
            }
        });
    }
    // histories of bases: the tables of one base never leak into another
    {
        vector<Base> hb = {{"G", ref::G()}, {"A", ref::powm(ref::G(), 5)}, {"B", ref::powm(ref::G(), 6)},
                           {"C", ref::powm(2, ref::R())}};
        if (!tiny) {
            // bases that agree in their first or last words
            hb.push_back({"low", Z(P - 2)});
            hb.push_back({"low+1", Z(P - 2 - pow2(4032))});
            hb.push_back({"high", Z(P - 3)});
            hb.push_back({"middle", Z(P - 2 - pow2(2100))});
            hb.push_back({"one-byte", Z(0x11)});
            hb.push_back({"same-digits", Z(0x1100)});
        }
        int D = quick ? 3 : 4;
        uint64_t n = 1;
        for (int k = 0; k < D; k++)
            n *= hb.size();
        if (!quick && !tiny)
            n = n; // 8^4
        mc::for_all("base-histories", n, [&](uint64_t c) {
            string s;
            for (int k = 0; k < D; k++) {
                auto &b = hb[c % hb.size()];
                c /= hb.size();
                s += b.name + " ";
                auto e = mkP(b.v);
                e->setIsFixedBase(true);
                Z x = (Z(7 + k) << (tiny ? 8 : 200)) + k + 1;
                x = x % Q;
                check(val(pow_mod_p(*e, *mkQ(x))), ref::powm(b.v, x), "pow_mod_p fixed base in a history", s);
                // a copy behaves as the original
                ElementModP copy(*e);
                check(val(pow_mod_p(copy, *mkQ(x))), ref::powm(b.v, x), "pow_mod_p of a copied base", s);
                mc::state("h" + s);
            }
        });
    }
    // longer lists
    mc::for_all("long-lists", 40, [&](uint64_t c) {
        size_t n = vector<size_t>{5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 500, 1000}[c / 2];
        vector<unique_ptr<ElementModP>> hp;
        vector<unique_ptr<ElementModQ>> hq;
        vector<ElementModPOrQ> l;
        vector<reference_wrapper<ElementModQ>> lq;
        Z prod = 1, sum = 0;
        for (size_t i = 0; i < n; i++) {
            Z z = c % 2 ? Z(P - 1 - i) : Z((ref::G() >> (i % (tiny ? 9 : 2000))) + i + 1);
            z = ref::mod(z, P);
            Z q = c % 2 ? Z(Q - 1 - i) : ref::mod(z, Q);
            if (i % 3 == 2) {
                hq.push_back(mkQ(q));
                l.push_back(hq.back().get());
                prod = ref::mod(prod * q, P);
            } else {
                hp.push_back(mkP(z));
                l.push_back(hp.back().get());
                prod = ref::mod(prod * z, P);
            }
            hq.push_back(mkQ(q));
            lq.push_back(*hq.back());
            sum = ref::mod(sum + q, Q);
        }
        mc::state("ll" + to_string(c));
        check(val(mul_mod_p(l)), prod, "mul_mod_p list", to_string(n) + " factors");
        check(val(add_mod_q(lq)), sum, "add_mod_q list", to_string(n) + " terms");
    });
    // many bases, each met again after all the others
    mc::for_all("many-bases", tiny ? 2 : 1, [&](uint64_t c) {
        int n = tiny ? 300 : quick ? 48 : 200;
        for (int round = 0; round < 3; round++)
            for (int i = 0; i < n; i++) {
                int j = round == 1 ? n - 1 - i : i;
                Z b = ref::powm(ref::G(), Z(j + 2 + (int)c * 1000));
                auto e = mkP(b);
                e->setIsFixedBase(true);
                Z x = ref::mod(ref::H({"exponent", ref::S((uint64_t)(round * 1000 + i))}), Q);
                check(val(pow_mod_p(*e, *mkQ(x))), ref::powm(b, x), "pow_mod_p fixed base after many others", "base " + to_string(j) + " round " + to_string(round));
                mc::state("mb" + to_string(c) + "," + to_string(round) + "," + to_string(i));
            }
    });
    return mc::finish();
}
