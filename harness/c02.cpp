// C02: hash, nonce sequences and keyed hash against independent definitions.
#include "mc.hpp"
#include "ref.hpp"
#include <electionguard/hash.hpp>
#include <electionguard/hmac.hpp>
#include <electionguard/nonces.hpp>
using namespace electionguard;
using namespace std;
using ref::mkP;
using ref::mkQ;
using ref::val;
using ref::Z;

struct Obj : public CryptoHashable {
    Z v;
    explicit Obj(Z z) : v(z) {}
    unique_ptr<ElementModQ> crypto_hash() override { return mkQ(v); }
    unique_ptr<ElementModQ> crypto_hash() const override { return mkQ(v); }
};

struct Item {
    string name;
    CryptoHashableType v;
    string want; // rendering
};
static vector<Item> items;
static vector<unique_ptr<ElementModP>> keepP;
static vector<unique_ptr<ElementModQ>> keepQ;
static vector<unique_ptr<Obj>> keepO;
static void add(const string &n, const CryptoHashableType &v, const string &w) { items.push_back({n, v, w}); }

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool quick = mc::opt().quick();
    const Z P = ref::P(), Q = ref::Q();
    Z one = 1;
    // ---- the item alphabet: every alternative of the variant with boundary values
    add("null", nullptr, "null");
    vector<uint64_t> ints = {0, 1, 2, 9, 10, 255, 256, 4294967295ull, 4294967296ull, 9223372036854775807ull,
                             9223372036854775808ull, 18446744073709551615ull};
    for (auto i : ints)
        add("u64:" + to_string(i), i, ref::S(i));
    vector<string> strs = {"", "0", "null", "a", "A", "|", "a|b", string("a\0b", 3), string("\0", 1), "\xff\xfe", "\xc3\xa9",
                           " ", "\n", string(55, 'x'), string(56, 'x'), string(63, 'x'), string(64, 'x'),
                           string(65, 'x'), string(255, 'y'), string(256, 'y'), string(1000, 'z')};
    for (auto &s : strs)
        add("str:" + to_string(s.size()) + ":" + s.substr(0, 4), s, ref::S(s));
    vector<Z> qs = {0, 1, 15, 16, 255, 256, (one << 64) - 1, one << 64, (one << 192) + 1, one << 248, (one << 248) - 1, Q - 1, ref::mod(P, Q)};
    for (auto &z : qs) {
        keepQ.push_back(mkQ(z));
        auto *p = keepQ.back().get();
        add("q*", p, ref::hex(z));
        add("q&", reference_wrapper<ElementModQ>(*p), ref::hex(z));
        add("qc&", reference_wrapper<const ElementModQ>(*p), ref::hex(z));
    }
    vector<Z> ps = {0, 1, 255, 256, Q, one << 256, one << 4088, (one << 4088) - 1, P - 1, ref::G()};
    for (auto &z : ps) {
        keepP.push_back(mkP(z));
        auto *p = keepP.back().get();
        add("p*", p, ref::hex(z));
        add("p&", reference_wrapper<ElementModP>(*p), ref::hex(z));
        add("pc&", reference_wrapper<const ElementModP>(*p), ref::hex(z));
    }
    for (auto &z : {Z(0), Z(1), Z(Q - 1)}) {
        keepO.push_back(make_unique<Obj>(z));
        auto *p = keepO.back().get();
        add("o*", static_cast<CryptoHashable *>(p), ref::hex(z));
        add("o&", reference_wrapper<CryptoHashable>(*p), ref::hex(z));
        add("oc&", reference_wrapper<const CryptoHashable>(*p), ref::hex(z));
    }
    size_t scalars = items.size();
    // nested lists, all forms
    auto nest = [&](auto &keep, auto proto, size_t from, size_t n, const string &nm) {
        typedef typename remove_reference<decltype(*keep[0])>::type T;
        typedef typename decltype(proto)::type B; // base type in the variant
        vector<B *> a;
        vector<reference_wrapper<B>> b;
        vector<reference_wrapper<const B>> c;
        vector<string> w;
        for (size_t i = 0; i < n; i++) {
            T *p = keep[(from + i) % keep.size()].get();
            a.push_back(p);
            b.push_back(*p);
            c.push_back(*p);
            if constexpr (is_same<B, CryptoHashable>::value)
                w.push_back(ref::hex(p->v));
            else
                w.push_back(ref::hex(val(*p)));
        }
        string want = ref::L(w);
        add("[" + nm + "*]" + to_string(n), a, want);
        add("[" + nm + "&]" + to_string(n), b, want);
        add("[" + nm + "c&]" + to_string(n), c, want);
    };
    struct TP { typedef ElementModP type; };
    struct TQ { typedef ElementModQ type; };
    struct TO { typedef CryptoHashable type; };
    for (size_t n : {0, 1, 2, 3, 12}) {
        nest(keepP, TP{}, 0, n, "p");
        nest(keepQ, TQ{}, 0, n, "q");
        nest(keepO, TO{}, 0, n, "o");
    }
    nest(keepQ, TQ{}, 4, 2, "q");
    for (size_t n : {0, 1, 2, 3, 12}) {
        vector<uint64_t> u(ints.begin(), ints.begin() + n);
        vector<string> w;
        for (auto x : u)
            w.push_back(ref::S(x));
        add("[u64]" + to_string(n), u, ref::L(w));
        vector<string> sv(strs.begin(), strs.begin() + n), ws;
        for (auto &x : sv)
            ws.push_back(ref::S(x));
        add("[str]" + to_string(n), sv, ref::L(ws));
    }
    add("[str]ab", vector<string>{"a", "b"}, ref::L({"a", "b"}));
    add("[str]ba", vector<string>{"b", "a"}, ref::L({"b", "a"}));
    for (auto bs : vector<vector<uint8_t>>{{1}, {0x0f}, {0xff}, {0x10, 0}, {1, 0, 0}, {0xde, 0xad, 0xbe, 0xef}, vector<uint8_t>(32, 0xab), vector<uint8_t>(512, 0x7f)})
        add("bytes", bs, ref::hexbytes(bs));
    size_t N = items.size();
    mc::note("items", to_string(N));
    auto run = [&](const vector<size_t> &ix) {
        vector<CryptoHashableType> v;
        vector<string> w;
        string n;
        for (auto i : ix) {
            v.push_back(items[i].v);
            w.push_back(items[i].want);
            n += items[i].name + " ";
        }
        mc::step(ix.size() + 1);
        Z want = ref::H(w), got = val(hash_elems(v));
        mc::state(mc::fnv(want.get_str(16)));
        if (got != want)
            mc::fail("hash differs from its definition", n);
    };
    mc::for_all("len01", N + 1, [&](uint64_t c) {
        if (c == N) {
            run({});
            return;
        }
        run({c});
        Z got = val(hash_elems(items[c].v));
        mc::step();
        if (got != ref::H({items[c].want}))
            mc::fail("single item hash differs from its definition", items[c].name);
    });
    mc::for_all("len2", N, [&](uint64_t c) {
        for (size_t j = 0; j < N; j++)
            run({c, j});
        if (c < 3)
            mc::sample("item " + items[c].name + " followed by each of " + to_string(N) + " items");
    });
    // length 3 over a reduced alphabet
    vector<size_t> red;
    for (size_t i = 0; i < N; i += quick ? 3 : 1)
        red.push_back(i);
    mc::for_all("len3", red.size() * red.size(), [&](uint64_t c) {
        for (auto k : red)
            run({red[c / red.size()], red[c % red.size()], k});
    });
    // every text length across the hash's block boundaries, with every prefix length
    int LT = quick ? 200 : 400;
    mc::for_all("text-lengths", LT, [&](uint64_t l) {
        for (int l2 = 0; l2 < (quick ? 70 : 140); l2++) {
            string a(l, 'p'), b(l2, 'q');
            Z got = val(hash_elems({a, b}));
            mc::step();
            mc::state("tl" + to_string(l) + "," + to_string(l2));
            if (got != ref::H({ref::S(a), ref::S(b)}))
                mc::fail("hash of texts differs from its definition", to_string(l) + "," + to_string(l2));
        }
    });
    // long lists and texts
    mc::for_all("long nested", 6 * 8, [&](uint64_t c) {
        size_t n = vector<size_t>{13, 64, 100, 255, 256, 257, 1000, 5000}[c / 6];
        vector<string> w;
        CryptoHashableType v;
        switch (c % 6) {
            case 0: {
                vector<ElementModP *> a;
                for (size_t i = 0; i < n; i++)
                    a.push_back(keepP[i % keepP.size()].get()), w.push_back(ref::hex(val(*a.back())));
                v = a;
                break;
            }
            case 1: {
                vector<reference_wrapper<ElementModQ>> a;
                for (size_t i = 0; i < n; i++)
                    a.push_back(*keepQ[i % keepQ.size()]), w.push_back(ref::hex(val(a.back().get())));
                v = a;
                break;
            }
            case 2: {
                vector<reference_wrapper<CryptoHashable>> a;
                for (size_t i = 0; i < n; i++)
                    a.push_back(*keepO[i % keepO.size()]), w.push_back(ref::hex(keepO[i % keepO.size()]->v));
                v = a;
                break;
            }
            case 3: {
                vector<uint64_t> a;
                for (size_t i = 0; i < n; i++)
                    a.push_back(i * 1000003), w.push_back(ref::S((uint64_t)(i * 1000003)));
                v = a;
                break;
            }
            case 4: {
                vector<string> a;
                for (size_t i = 0; i < n; i++)
                    a.push_back(string(i % 70, 'a' + i % 26)), w.push_back(ref::S(a.back()));
                v = a;
                break;
            }
            default: {
                vector<uint8_t> a;
                for (size_t i = 0; i < n; i++)
                    a.push_back((uint8_t)(i * 37 + 1));
                v = a;
                mc::step();
                if (val(hash_elems({v, uint64_t(1)})) != ref::H({ref::hexbytes(a), "1"}))
                    mc::fail("hash of long byte strings differs from its definition", to_string(n));
                return;
            }
        }
        mc::step();
        mc::state("ln" + to_string(c));
        if (val(hash_elems({v, string("x"), v})) != ref::H({ref::L(w), "x", ref::L(w)}))
            mc::fail("hash of long nested lists differs from its definition", to_string(c % 6) + " of " + to_string(n));
    });
    mc::for_all("long", 24, [&](uint64_t c) {
        vector<CryptoHashableType> v;
        vector<string> w;
        size_t n = 1u << (c % 12);
        if (c < 12) {
            for (size_t i = 0; i < n; i++) {
                v.push_back(uint64_t(i));
                w.push_back(ref::S(uint64_t(i)));
            }
        } else {
            string s;
            for (size_t i = 0; i < n * 50; i++)
                s += char('a' + i % 26);
            v.push_back(s);
            w.push_back(s);
        }
        mc::step();
        mc::state("long" + to_string(c));
        if (val(hash_elems(v)) != ref::H(w))
            mc::fail("hash of a long input differs from its definition", to_string(c));
    });
    // the hash is reduced into the field: search a prefix of inputs whose digest
    // has the top bits set is not feasible with the real order; the reduction is
    // exercised with the small order in the tiny variant of this program

    // ---- nonce sequences: all operation sequences against the reference
    {
        const int D = quick ? 5 : 6;
        const int A = 10;
        uint64_t n = 1;
        for (int i = 0; i < D; i++)
            n *= A;
        vector<Z> seeds = {1, Q - 1, (one << 128) % Q, Z(0)};
        struct Hd {
            int kind;
        };
        mc::for_all("nonces", n * 2, [&](uint64_t c0) {
            uint64_t c = c0 / 2;
            Z seed = seeds[c % seeds.size()];
            auto sq = mkQ(seed);
            unique_ptr<Nonces> N;
            Z s;
            static auto hp = mkP(ref::G());
            static auto hq = mkQ(7);
            int form = (c / 4) % 4;
            if (c0 % 2 == 0 || form == 3) {
                N = make_unique<Nonces>(*sq);
                s = seed;
            } else if (form == 0) {
                N = make_unique<Nonces>(*sq, string("hdr"));
                s = ref::H({ref::hex(seed), "hdr"});
            } else if (form == 1) {
                N = make_unique<Nonces>(*sq, hp.get());
                s = ref::H({ref::hex(seed), ref::hex(ref::G())});
            } else {
                N = make_unique<Nonces>(*sq, hq.get());
                s = ref::H({ref::hex(seed), ref::hex(7)});
            }
            auto at = [&](uint64_t i) { return ref::H({ref::hex(s), ref::S(i)}); };
            uint64_t next = 0;
            string tr;
            uint64_t cc = c;
            for (int d = 0; d < D; d++) {
                int op = cc % A;
                cc /= A;
                mc::step();
                Z got, want;
                bool cmp = true;
                tr += to_string(op) + ",";
                switch (op) {
                    case 0:
                        got = val(N->next());
                        want = at(next);
                        next++;
                        break;
                    case 1: case 2: case 3: case 4: {
                        uint64_t i = op == 1 ? 0 : op == 2 ? 1 : op == 3 ? 5 : 4294967296ull;
                        got = val(N->get(i));
                        want = at(i);
                        next = i + 1;
                        break;
                    }
                    case 5: case 6: {
                        uint64_t i = op == 5 ? 0 : 3;
                        string h = op == 5 ? "extra" : "";
                        got = val(N->get(i, h));
                        want = ref::H({ref::hex(s), ref::S(i), ref::S(h)});
                        next = i + 1;
                        break;
                    }
                    default: {
                        uint64_t st = op == 7 ? 0 : op == 8 ? 2 : 4294967294ull, n = op == 8 ? 0 : 3;
                        auto v = N->get(st, n);
                        cmp = false;
                        if (v.size() != n)
                            mc::fail("nonce range has the wrong size", tr);
                        for (size_t k = 0; k < v.size(); k++)
                            if (val(v[k]) != at(st + k))
                                mc::fail("nonce range differs from single reads", tr);
                        if (n)
                            next = st + n;
                    }
                }
                if (cmp && got != want)
                    mc::fail("nonce differs from its definition", tr + " form " + to_string(form));
                mc::state("n" + to_string(c0 % 2) + to_string(form) + seed.get_str(16) + "," + to_string(next) + "," + to_string(op));
            }
        });
        // all positions give different values
        if (Q > 1000000)
            mc::for_all("nonce-distinct", 1, [&](uint64_t) {
            Nonces N(*mkQ(12345), string("x"));
            set<string> seen;
            for (uint64_t i = 0; i < 3000; i++)
                if (!seen.insert(N.get(i)->toHex()).second)
                    mc::fail("two positions of a nonce sequence share a value", to_string(i));
            mc::step(3000);
            mc::state("nd");
        });
    }
    // ---- keyed hash
    {
        vector<uint32_t> starts = {0, 1, 2, 255, 256, 0xffffffffu};
        vector<uint32_t> lens = {0, 1, 256, 512, 4096, 0xffffffffu};
        vector<size_t> klen = {1, 31, 32, 33, 63, 64, 65, 130};
        mc::for_all("hmac", klen.size() * 140, [&](uint64_t c) {
            vector<uint8_t> key(klen[c % klen.size()], 0), msg(c / klen.size());
            for (size_t i = 0; i < key.size(); i++)
                key[i] = uint8_t(i * 7 + 1);
            for (size_t i = 0; i < msg.size(); i++)
                msg[i] = uint8_t(i * 13 + 5);
            for (auto s : starts)
                for (auto l : lens) {
                    if (msg.empty() && l == 0)
                        continue;
                    vector<uint8_t> d;
                    auto le = [&](uint32_t x) {
                        for (int i = 0; i < 4; i++)
                            d.push_back(uint8_t(x >> (8 * i)));
                    };
                    if (l) {
                        le(s);
                        d.insert(d.end(), msg.begin(), msg.end());
                        le(l);
                    } else
                        d = msg;
                    mc::step();
                    mc::state("hm" + to_string(c) + "," + to_string(s) + "," + to_string(l));
                    if (get_hmac(key, msg, l, s) != ref::hmac(key, d))
                        mc::fail("keyed hash differs from its definition",
                                 "key " + to_string(key.size()) + " msg " + to_string(msg.size()) + " len " +
                                   to_string(l) + " start " + to_string(s));
                }
        });
    }
    return mc::finish();
}
