// V01: every ballot of the bounded spaces is compressed, stored in every format,
// and expanded again; every single alteration of a stored compact ballot is tried.
#include "mc.hpp"
#include "dto.hpp"
#include "spaces.hpp"
#include <electionguard/ballot_compact.hpp>
#include <electionguard/precompute_buffers.hpp>
using namespace space;
namespace eg = electionguard;
using dto::Ball;

// the ballot as a voter's choices must come back: every selection of the style, in order
static Bal whole(const ManM &m, const Bal &b)
{
    Bal r{b.id, b.style, {}};
    for (auto &c : m.contestsFor(b.style)) {
        BCon k{c.id, {}};
        const BCon *in = nullptr;
        for (auto &x : b.cons)
            if (x.id == c.id && !in)
                in = &x;
        for (auto &s : bySeq(c.sels)) {
            BSel v{s.id, 0};
            bool found = false;
            if (in)
                for (auto &x : in->sels)
                    if (x.id == s.id && !found) {
                        v.vote = x.vote, v.writein = x.writein;
                        found = true;
                    }
            k.sels.push_back(v);
        }
        r.cons.push_back(k);
    }
    return r;
}
// everything but the proofs (which are randomised) and the secret nonces that encryption may drop
static string fixedParts(Ball b, bool ext, bool style)
{
    if (!style)
        b.style = "";
    for (auto &c : b.cons) {
        if (c.proof)
            c.proof->a = c.proof->b = c.proof->c = c.proof->v = 0;
        if (!ext)
            c.ext.reset();
        for (auto &s : c.sels)
            s.proof.reset();
    }
    return b.str();
}
template <typename T> static unique_ptr<T> stored(const T &t, int f)
{
    if (f == 0)
        return T::fromJson(t.toJson());
    if (f == 1)
        return T::fromBson(t.toBson());
    if (f == 2)
        return T::fromMsgPack(t.toMsgPack());
    return nullptr;
}

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool quick = mc::opt().quick();

    // ---- plaintext: all vote and write-in patterns of complete ballots in manifest order
    struct Pl {
        int m;
        vector<int> d;
        string style;
    };
    vector<ManM> men;
    for (auto &q : vector<vector<uint64_t>>{{0, 1, 2}, {2, 0, 1}, {9, 100, 10}, {4294967295ull, 0, 2147483648ull}}) {
        auto m = single(contest("con", "unit", q[0] % 7, 2, 2, q), {"con-c1"});
        for (auto &c : m.cands)
            c.writein = true;
        men.push_back(m);
    }
    {
        auto m = styled();
        for (auto &c : m.cands)
            c.writein = true;
        men.push_back(m);
    }
    static const uint64_t VOTES[] = {0, 1, 2, 3, 1ull << 32, 1ull << 63, ~0ull};
    static const char *WRITE[] = {"", "Zoë", "\"]\\", "0"};
    vector<Pl> pls;
    int NV = 7, NW = quick ? 2 : 4;
    for (int m = 0; m < (int)men.size(); m++)
        for (auto &st : men[m].styles) {
            size_t n = 0;
            for (auto &c : men[m].contestsFor(st.id))
                n += c.sels.size();
            // small ballots: all patterns; larger ones: all 0/1 votes with a write-in on voted ones
            if (n <= 3)
                product(vector<int>(n, NV * NW), [&](const vector<int> &d) { pls.push_back({m, d, st.id}); });
            else
                product(vector<int>(n, 2), [&](const vector<int> &d) {
                    for (int w = 0; w < 3; w++) {
                        vector<int> e;
                        for (size_t i = 0; i < d.size(); i++)
                            e.push_back((d[i] ? 1 + (int)(i % 6) : 0) * NW + (w == 0 ? 0 : (int)((i + w) % NW)));
                        pls.push_back({m, e, st.id});
                    }
                });
        }
    vector<unique_ptr<eg::InternalManifest>> ims;
    for (auto &m : men)
        ims.push_back(make_unique<eg::InternalManifest>(*m.build()));
    mc::for_all("plaintext", pls.size(), [&](uint64_t n) {
        auto &p = pls[n];
        auto &m = men[p.m];
        Bal b{n % 3 ? "ballot" : "", p.style, {}};
        size_t i = 0;
        vector<uint64_t> votes;
        vector<string> texts;
        for (auto &c : m.contestsFor(p.style)) {
            BCon k{c.id, {}};
            for (auto &s : bySeq(c.sels)) {
                k.sels.push_back({s.id, VOTES[p.d[i] / NW], WRITE[p.d[i] % NW]});
                votes.push_back(k.sels.back().vote);
                texts.push_back(k.sels.back().writein);
                i++;
            }
            b.cons.push_back(k);
        }
        mc::desc(b.str());
        mc::state(mc::fnv(b.str() + std::to_string(p.m)));
        auto c = eg::CompactPlaintextBallot::make(*b.build());
        mc::expect(c->getObjectId() == b.id && c->getStyleId() == b.style && c->getSelections() == votes && c->getWriteIns() == texts,
                   "the compact form of a ballot differs", b.str());
        bool bson = true; // BSON has no integers above 2^63
        for (auto v : votes)
            bson = bson && v < 1ull << 63;
        for (int f = 0; f < 4; f++) {
            if ((f == 1 && !bson) || (f < 3 && quick && (n + f) % 3))
                continue;
            mc::step();
            auto t = f < 3 ? stored(*c, f) : nullptr;
            auto e = eg::expandCompactPlaintextBallot(t ? *t : *c, *ims[p.m]);
            auto got = Bal::read(*e);
            mc::expect(got.str() == b.str(), "expanding a compact ballot gives another ballot", b.str() + " gives " + got.str());
            size_t x = 0;
            for (auto &k : got.cons)
                for (auto &s : k.sels) {
                    mc::expect(x < texts.size() && s.writein == texts[x] && !s.ph, "expanding a compact ballot gives another write-in", b.str());
                    x++;
                }
        }
        // too few votes or write-ins: an error
        for (int w = 0; w < 2; w++) {
            auto v = votes;
            auto t = texts;
            w ? v.pop_back() : t.pop_back();
            mc::step();
            bool threw = false;
            try {
                eg::CompactPlaintextBallot s(b.id, b.style, v, t);
                eg::expandCompactPlaintextBallot(s, *ims[p.m]);
            } catch (const std::exception &) {
                threw = true;
            }
            mc::expect(threw, "a compact ballot that lacks a value is expanded", b.str());
        }
        if (n % 997 == 0)
            mc::sample("plaintext " + b.str());
    });

    // ---- large ballots and long write-ins
    {
        struct Lg {
            int contests, sels;
            size_t len;
        };
        vector<Lg> lgs;
        for (int sels : {9, 16, 33, 130, 257, 300})
            lgs.push_back({1, sels, 3});
        for (int cons : {9, 17, 40, 260})
            lgs.push_back({cons, 2, 3});
        for (size_t len = 0; len < (quick ? 300u : 1100u); len++)
            lgs.push_back({2, 2, len});
        for (size_t len : {4095u, 4096u, 65535u, 65536u})
            lgs.push_back({1, 2, len});
        std::map<std::pair<int, int>, std::pair<ManM, unique_ptr<eg::InternalManifest>>> made;
        mc::for_all("large", lgs.size(), [&](uint64_t n) {
            auto &l = lgs[n];
            auto &mm = made[{l.contests, l.sels}];
            if (!mm.second) {
                ManM m;
                m.units = {{"unit", "n"}};
                m.styles = {{"style", {"unit"}}};
                for (int c = 0; c < l.contests; c++) {
                    vector<uint64_t> q;
                    for (int i = 0; i < l.sels; i++)
                        q.push_back((i * 7 + c) % 2 ? 1000 + i : 999 - i);
                    m.cons.push_back(contest("con" + std::to_string(c), "unit", 500 - c, l.sels > 1 ? 2 : 1, 2, q));
                }
                addCandidates(m, {});
                for (auto &c : m.cands)
                    c.writein = true;
                mm.first = m;
                mm.second = make_unique<eg::InternalManifest>(*m.build());
            }
            auto &m = mm.first;
            string at = std::to_string(l.contests) + " contests of " + std::to_string(l.sels) + " selections, write-ins of " + std::to_string(l.len) + " bytes";
            mc::desc(at);
            mc::state(mc::fnv(at));
            Bal b{"ballot", "style", {}};
            int i = 0;
            for (auto &c : m.contestsFor("style")) {
                BCon k{c.id, {}};
                for (auto &s : bySeq(c.sels)) {
                    string w = i % 3 == 2 ? "" : string(l.len, (char)('a' + i % 26));
                    k.sels.push_back({s.id, (uint64_t)(i % 2 ? 1 : i % 5), w});
                    i++;
                }
                b.cons.push_back(k);
            }
            auto c = eg::CompactPlaintextBallot::make(*b.build());
            for (int f = 0; f < 4; f++) {
                mc::step();
                auto t = f < 3 ? stored(*c, f) : nullptr;
                auto got = Bal::read(*eg::expandCompactPlaintextBallot(t ? *t : *c, *mm.second));
                mc::expect(got.str() == b.str(), "expanding a compact ballot gives another ballot", at);
                for (size_t x = 0; x < got.cons.size() && x < b.cons.size(); x++)
                    for (size_t y = 0; y < got.cons[x].sels.size() && y < b.cons[x].sels.size(); y++)
                        mc::expect(got.cons[x].sels[y].writein == b.cons[x].sels[y].writein, "expanding a compact ballot gives another write-in", at);
            }
            if (n % 97 == 0)
                mc::sample(at);
        });
    }

    // ---- encrypted
    Space sp;
    shapes(sp, quick ? 2 : 3, {-1, 0, 1, 2}, true);
    styles(sp, !quick);
    identifiers(sp);
    numberings(sp);
    writeins(sp);
    repeated(sp);
    large(sp, false);
    {
        // write-ins, voted or not, on write-in candidates or not; the rest of the ballot permuted or missing
        auto c = contest("con", "unit", 2, 2, 2, {1, 0, 2});
        auto d = contest("don", "unit", 1, 1, 1, {0, 1});
        ManM m = single(c);
        m.cons.push_back(d);
        m.cands.clear();
        addCandidates(m, {c.sels[0].cand, c.sels[2].cand, d.sels[1].cand});
        int e = (int)sp.men.size();
        sp.men.push_back(m);
        product({4, 4, 4, 4, 4}, [&](const vector<int> &v) {
            Bal b{"ballot", "style", {{"con", {}}, {"don", {}}}};
            int sum = 0;
            for (int i = 0; i < 5; i++) {
                auto &k = b.cons[i / 3];
                auto &s = (i < 3 ? c : d).sels[i % 3];
                if (v[i])
                    k.sels.push_back({s.id, (uint64_t)(v[i] > 1), v[i] == 3 ? "Ann " + s.id : ""});
                sum = sum * 3 + v[i];
            }
            if (sum % 2)
                std::swap(b.cons[0], b.cons[1]);
            if (sum % 3 == 1)
                std::reverse(b.cons[sum % 2].sels.begin(), b.cons[sum % 2].sels.end());
            sp.cases.push_back({e, b, "write-ins"});
        });
        // contests and selections that appear twice
        for (int k = 0; k < 16; k++) {
            Bal b{"twice", "style", {marks(c, {1, 0, 0}), marks(d, {k & 1, 1})}};
            if (k & 2)
                b.cons.push_back(marks(c, {0, 1, 0}));
            if (k & 4)
                b.cons[0].sels.push_back({c.sels[1].id, 1, "again"});
            if (k & 8)
                b.cons.insert(b.cons.begin(), marks(d, {1, 0}));
            sp.cases.push_back({e, b, "twice"});
        }
    }
    vector<uint64_t> pick;
    {
        std::map<string, uint64_t> stride = quick ? std::map<string, uint64_t>{{"shapes", 5}, {"styles", 17}, {"identifiers", 29}, {"foreign-marks", 5}, {"numberings", 97}, {"write-ins", 41}}
                                                  : std::map<string, uint64_t>{{"numberings", 3}};
        std::map<string, uint64_t> seen;
        for (uint64_t i = 0; i < sp.cases.size(); i++) {
            auto g = sp.cases[i].group;
            if (seen[g]++ % (stride.count(g) ? stride[g] : 1) == 0)
                pick.push_back(i);
        }
    }
    vector<Z> nonces = {Z(1), ref::Q() - 1, Z("123456789ABCDEF0112233445566778899AABBCCDDEEFF00112233", 16)};
    auto seed = ref::mkQ(Z(77));
    std::map<int, unique_ptr<Election>> els;
    auto election = [&](int e) -> Election & {
        auto &x = els[e];
        if (!x)
            x = make_unique<Election>(sp.men[e]);
        return *x;
    };
    mc::for_all("encrypted", pick.size(), [&](uint64_t n) {
        auto &c = sp.cases[pick[n]];
        auto &m = sp.men[c.e];
        auto &el = election(c.e);
        Z nonce = nonces[n % nonces.size()];
        uint64_t ts = n % 5 == 0 ? ~0ull >> 1 : 1234 + n % 7;
        mc::desc(string(c.group) + " " + c.b.str());
        mc::state(mc::fnv(std::to_string(c.e) + c.b.str()));
        auto pt = c.b.build();
        unique_ptr<eg::CiphertextBallot> direct;
        unique_ptr<eg::CompactCiphertextBallot> k;
        try {
            direct = eg::encryptBallot(*pt, *el.internal, *el.context, *seed, ref::mkQ(nonce), ts, false);
        } catch (const std::exception &) {
        }
        // three ways to a compact ballot
        int way = (int)(n % 3);
        bool wayok = false;
        try {
            if (way == 0 && direct) {
                auto b = whole(m, c.b);
                k = eg::CompactCiphertextBallot::make(*b.build(), *direct);
            } else
                k = eg::encryptCompactBallot(*pt, *el.internal, *el.context, *seed, ref::mkQ(nonce), ts, false);
            wayok = true;
        } catch (const std::exception &) {
        }
        mc::step(2);
        mc::expect(!!direct == wayok, "compact encryption accepts other ballots than encryption", c.b.str());
        if (!direct || !k)
            return;
        auto w = whole(m, c.b);
        auto want = Ball::read(*direct);
        mc::expect(ref::val(*k->getBallotCode()) == want.code && ref::val(*k->getBallotCodeSeed()) == want.codeSeed && k->getTimestamp() == ts &&
                     ref::val(*k->getNonce()) == nonce && k->getObjectId() == c.b.id && k->getPlaintext()->getStyleId() == c.b.style,
                   "the compact form differs from the encrypted ballot", c.b.str());
        k->setBallotBoxState(n % 2 ? eg::BallotBoxState::cast : eg::BallotBoxState::spoiled);
        int f = (int)(n / 3 % 4);
        auto t = f < 3 ? stored(*k, f) : std::move(k);
        mc::expect(t->getBallotBoxState() == (n % 2 ? eg::BallotBoxState::cast : eg::BallotBoxState::spoiled), "the state of a compact ballot is lost", c.b.str());
        unique_ptr<eg::CiphertextBallot> x;
        try {
            x = eg::expandCompactCiphertextBallot(*t, *el.internal, *el.context);
        } catch (const std::exception &e) {
            mc::fail("a compact ballot cannot be expanded", c.b.str() + ": " + e.what());
            return;
        }
        mc::step();
        auto got = Ball::read(*x);
        mc::expect(fixedParts(got, true, true) == fixedParts(want, true, true), "the expanded ballot differs from the original", c.b.str());
        auto bad = got.check(el.mhash, el.pub, el.ext);
        mc::expect(bad.empty(), "the expanded ballot is not valid", c.b.str() + ": " + bad);
        auto y = eg::expandCompactPlaintextBallot(*t->getPlaintext(), *el.internal);
        mc::expect(Bal::read(*y).str() == w.str(), "the plaintext of a compact ballot differs", c.b.str() + " gives " + Bal::read(*y).str());
        if (n % 3 == 1) {
            // a ballot compressed as it is, incomplete or in another order: an error, or the same encryption
            auto raw = eg::CompactCiphertextBallot::make(*pt, *direct);
            mc::step();
            try {
                auto z = eg::expandCompactCiphertextBallot(*raw, *el.internal, *el.context);
                mc::expect(fixedParts(Ball::read(*z), false, true) == fixedParts(want, false, true), "expanding a misaligned ballot gives another encryption", c.b.str());
            } catch (const std::exception &) {
                mc::expect(Bal::read(*pt).str() != w.str(), "a complete ballot in order cannot be expanded", c.b.str());
            }
        }
        if (n % 97 == 0)
            mc::sample(string(c.group) + " " + c.b.str());
    });

    // ---- alterations of a stored compact ballot
    struct Base {
        ManM m;
        Bal b;
    };
    vector<Base> bases;
    {
        auto c = contest("con", "unit", 2, 1, 1, {0, 1});
        auto m = single(c, {});
        m.styles.push_back({"same", {"unit"}});
        m.units.push_back({"void", "nothing here"});
        m.styles.push_back({"none", {"void"}});
        bases.push_back({m, {"ballot", "style", {marks(c, {1, 0})}}});
        bases.push_back({m, {"ballot", "style", {marks(c, {1, 1})}}}); // overvote
        auto s = styled();
        bases.push_back({s, {"ballot", "all", {marks(s.cons[3], {1, 0}), marks(s.cons[1], {0, 0}), marks(s.cons[2], {1, 0, 1}), marks(s.cons[0], {0, 1})}}});
    }
    struct Alt {
        int base;
        string what;
        Bal b; // with votes altered (style order)
        vector<uint64_t> votes;
        vector<string> texts;
        Z seed, code, nonce;
        uint64_t ts;
        bool otherKey = false, otherBase = false, otherManifest = false;
    };
    vector<Alt> alts;
    vector<Ball> originals;
    vector<unique_ptr<Election>> bel;
    vector<unique_ptr<Election>> others;
    for (int i = 0; i < (int)bases.size(); i++) {
        bel.push_back(make_unique<Election>(bases[i].m));
        auto &el = *bel.back();
        auto ct = eg::encryptBallot(*bases[i].b.build(), *el.internal, *el.context, *seed, ref::mkQ(nonces[2]), 1234, false);
        originals.push_back(Ball::read(*ct));
        auto w = whole(bases[i].m, bases[i].b);
        Alt z{i, "unaltered", w, {}, {}, Z(77), *originals[i].code, nonces[2], 1234};
        for (auto &k : w.cons)
            for (auto &s : k.sels)
                z.votes.push_back(s.vote), z.texts.push_back(s.writein);
        alts.push_back(z);
        auto put = [&](const string &what, std::function<void(Alt &)> f) {
            Alt a = z;
            a.what = what;
            f(a);
            alts.push_back(a);
        };
        for (size_t v = 0; v < z.votes.size(); v++) {
            for (uint64_t x : VOTES)
                if (x != z.votes[v] && (!quick || i == 0 || x <= 1))
                    put("vote " + std::to_string(v) + " = " + std::to_string(x), [&](Alt &a) { a.votes[v] = x; });
            put("vote " + std::to_string(v) + " missing", [&](Alt &a) { a.votes.erase(a.votes.begin() + v); });
            put("vote and write-in " + std::to_string(v) + " missing", [&](Alt &a) { a.votes.erase(a.votes.begin() + v), a.texts.erase(a.texts.begin() + v); });
            put("vote before " + std::to_string(v), [&](Alt &a) { a.votes.insert(a.votes.begin() + v, 1), a.texts.insert(a.texts.begin() + v, ""); });
            put("no-vote before " + std::to_string(v), [&](Alt &a) { a.votes.insert(a.votes.begin() + v, 0), a.texts.insert(a.texts.begin() + v, ""); });
            for (size_t u = v + 1; u < (quick ? std::min(v + 2, z.votes.size()) : z.votes.size()); u++)
                put("votes exchanged " + std::to_string(v) + " " + std::to_string(u), [&](Alt &a) { std::swap(a.votes[v], a.votes[u]); });
            put("write-in " + std::to_string(v), [&](Alt &a) { a.texts[v] = "x"; });
        }
        for (auto id : {"", "Ballot", "ballot ", "ballo"})
            put(string("identifier ") + id, [&](Alt &a) { a.b.id = id; });
        for (auto &st : bases[i].m.styles)
            if (st.id != w.style)
                put("style " + st.id, [&](Alt &a) { a.b.style = st.id; });
        put("unknown style", [&](Alt &a) { a.b.style = "?"; });
        for (int bit = 0; bit < 256; bit += (i ? 64 : quick ? 13 : 1)) {
            auto flip = [bit](Z v) {
                mpz_combit(v.get_mpz_t(), bit);
                return v >= ref::Q() ? Z(0) : v;
            };
            put("seed bit " + std::to_string(bit), [&](Alt &a) { a.seed = flip(a.seed); });
            put("code bit " + std::to_string(bit), [&](Alt &a) { a.code = flip(a.code); });
            put("nonce bit " + std::to_string(bit), [&](Alt &a) { a.nonce = flip(a.nonce); });
            if (bit < 64)
                put("time bit " + std::to_string(bit), [&](Alt &a) { a.ts ^= 1ull << bit; });
        }
        put("no time", [&](Alt &a) { a.ts = 0; });
        put("other key", [&](Alt &a) { a.otherKey = true; });
        put("other base", [&](Alt &a) { a.otherBase = true; });
        put("other manifest", [&](Alt &a) { a.otherManifest = true; });
    }
    mc::for_all("altered", alts.size(), [&](uint64_t n) {
        auto &a = alts[n];
        auto &el = *bel[a.base];
        mc::desc(a.what);
        mc::state(mc::fnv(std::to_string(a.base) + a.what));
        mc::step();
        unique_ptr<Election> other;
        const eg::InternalManifest *im = el.internal.get();
        const eg::CiphertextElectionContext *cx = el.context.get();
        if (a.otherKey || a.otherBase) {
            other = make_unique<Election>(bases[a.base].m, a.otherKey ? Z(65539) : Z(65537), a.otherBase ? Z(8) : Z(7));
            cx = other->context.get();
        }
        if (a.otherManifest) {
            auto m = bases[a.base].m;
            m.cons[0].sels[1].id += "'";
            other = make_unique<Election>(m);
            im = other->internal.get();
        }
        eg::CompactCiphertextBallot k(make_unique<eg::CompactPlaintextBallot>(a.b.id, a.b.style, a.votes, a.texts), eg::BallotBoxState::cast, ref::mkQ(a.seed), ref::mkQ(a.code),
                                      a.ts, ref::mkQ(a.nonce));
        unique_ptr<eg::CiphertextBallot> x;
        try {
            x = eg::expandCompactCiphertextBallot(k, *im, *cx);
        } catch (const std::exception &e) {
            mc::expect(a.what != "unaltered", "an unaltered compact ballot is refused", e.what());
        }
        if (x) {
            // a base hash that differs shows in the proofs only: the ballot code does not cover it
            auto got = Ball::read(*x);
            mc::expect(fixedParts(got, false, false) == fixedParts(originals[a.base], false, false), "an altered compact ballot expands to another ballot",
                       std::to_string(a.base) + " " + a.what);
        }
        if (n % 41 == 0)
            mc::sample(a.what + (x ? " expands to the same" : " is refused"));
    });
    // ---- values waiting in the precomputation buffers, while compact ballots are made and expanded
    {
        vector<int> fill = quick ? vector<int>{0, 1, 3, 12} : vector<int>{0, 1, 2, 3, 4, 6, 8, 12};
        struct Bf {
            int base, now, then, key, way;
        };
        vector<Bf> bs;
        for (int b = 0; b < (int)bases.size(); b++)
            for (int x : fill)
                for (int y : fill)
                    for (int k = 0; k < (x + y ? 2 : 1); k++)
                        for (int way = 0; way < 2; way++)
                            if (!quick || b < 2 || (x + y + k + way) % 4 == 0)
                                bs.push_back({b, x, y, k, way});
        auto waiting = [&](int n, const Z &key) {
            eg::PrecomputeBufferContext::empty_queues();
            if (n) {
                eg::PrecomputeBufferContext::init(n);
                eg::PrecomputeBufferContext::populate(*ref::mkP(key));
                eg::PrecomputeBufferContext::stop_populate();
            }
        };
        mc::for_all("buffers", bs.size(), [&](uint64_t n) {
            auto &c = bs[n];
            auto &el = *bel[c.base];
            string a = bases[c.base].b.str() + " with " + std::to_string(c.now) + " and " + std::to_string(c.then) + " values waiting" + (c.key ? " for another key" : "") + (c.way ? ", in a session" : "");
            mc::desc(a);
            mc::state(mc::fnv(a));
            Z key = c.key ? ref::powm(ref::G(), Z(31)) : el.pub;
            auto pt = bases[c.base].b.build();
            unique_ptr<eg::CompactCiphertextBallot> k;
            waiting(c.now, key);
            mc::step(3);
            try {
                if (c.way) {
                    eg::EncryptionDevice d(1, 2, 3, "here");
                    eg::EncryptionMediator m(*el.internal, *el.context, d);
                    m.encrypt(*pt, false);
                    k = m.compactEncrypt(*pt, false);
                } else
                    k = eg::encryptCompactBallot(*pt, *el.internal, *el.context, *seed, ref::mkQ(nonces[2]), 1234, false);
            } catch (const std::exception &e) {
                mc::fail("compact encryption fails while precomputed values are waiting", a + ": " + e.what());
            }
            waiting(c.then, key);
            unique_ptr<eg::CiphertextBallot> x;
            if (k) {
                try {
                    x = eg::expandCompactCiphertextBallot(*stored(*k, (int)(n % 3)), *el.internal, *el.context);
                } catch (const std::exception &e) {
                    mc::fail("a compact ballot cannot be expanded when precomputed values are waiting", a + ": " + e.what());
                }
            }
            waiting(0, key);
            if (!x)
                return;
            auto got = Ball::read(*x);
            auto bad = got.check(el.mhash, el.pub, el.ext);
            mc::expect(bad.empty(), "a ballot expanded while precomputed values are waiting is not valid", a + ": " + bad);
            if (!c.way)
                mc::expect(fixedParts(got, true, true) == fixedParts(originals[c.base], true, true), "a ballot expanded while precomputed values are waiting differs from the original", a);
            else {
                auto y = eg::encryptBallot(*pt, *el.internal, *el.context, *k->getBallotCodeSeed(), k->getNonce()->clone(), k->getTimestamp(), false);
                mc::expect(fixedParts(got, true, true) == fixedParts(Ball::read(*y), true, true), "a ballot expanded while precomputed values are waiting differs from the original", a);
            }
            if (n % 17 == 0)
                mc::sample(a);
        });
    }
    return mc::finish();
}
