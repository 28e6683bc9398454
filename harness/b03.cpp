// B03: verification of whole ballots. Genuine ballots of the bounded spaces
// must be accepted; every single alteration of every field and every
// structural alteration of base ballots - each one as it stands, with content
// hashes recomputed, and with hashes and accumulations recomputed - must get
// the verdict that the published equations give.
#include "mc.hpp"
#include "dto.hpp"
#include "spaces.hpp"
using namespace space;
using dto::Ball;
using dto::Con;
using dto::Sel;
namespace eg = electionguard;

static std::set<string> known; // unaltered contests
static string verdict(const std::function<bool()> &f)
{
    mc::step();
    try {
        return f() ? "" : "rejected";
    } catch (const std::exception &e) {
        return "rejected";
    }
}
// compares the library's verdict with the equations; expectBad: the alteration
// is one that must be noticed
static void judge(const Ball &b, const Z &mh, const Z &k, const Z &q, bool expectBad, const string &a)
{
    string want = b.check(mh, k, q);
    if (expectBad && want.empty())
        mc::fail("an alteration is not visible to the verification equations", a);
    auto lib = b.build();
    string got = verdict([&] { return lib->isValidEncryption(*ref::mkQ(mh), *ref::mkP(k), *ref::mkQ(q)); });
    if (got.empty() && !want.empty())
        mc::fail("a ballot is accepted although its " + want + " is wrong", a);
    if (!got.empty() && want.empty())
        mc::fail("a valid ballot is rejected", a);
    for (auto c : lib->getContests()) {
        auto d = Con::read(c.get());
        if (known.count(d.str()))
            continue;
        string w = d.checkOwn(k, q);
        string g = verdict([&] { return c.get().isValidEncryption(*ref::mkQ(d.desc), *ref::mkP(k), *ref::mkQ(q)); });
        if (g.empty() && !w.empty())
            mc::fail("a contest is accepted although its " + w + " is wrong", a);
        if (!g.empty() && w.empty())
            mc::fail("a valid contest is rejected", a);
    }
    mc::state(a + want);
}
struct Mut {
    string what;
    Ball b;
    bool must; // has to be visible
};
static vector<std::pair<string, Z>> altsQ(const Z &v, const Z &other)
{
    vector<std::pair<string, Z>> r = {{"+1", ref::mod(v + 1, ref::Q())}, {"zero", 0}, {"one", 1}, {"negated", ref::mod(-v, ref::Q())}, {"+Q", v + ref::Q()}, {"other", other}};
    Z w = v;
    mpz_combit(w.get_mpz_t(), 64);
    r.push_back({"bit64", ref::mod(w, ref::Q())});
    w = v;
    mpz_combit(w.get_mpz_t(), 200);
    r.push_back({"bit200", ref::mod(w, ref::Q())});
    vector<std::pair<string, Z>> o;
    for (auto &x : r)
        if (x.second != v && mpz_sizeinbase(x.second.get_mpz_t(), 2) <= 256)
            o.push_back(x);
    return o;
}
static vector<std::pair<string, Z>> altsP(const Z &v, const Z &other)
{
    vector<std::pair<string, Z>> r = {{"*G", ref::mulp(v, ref::G())}, {"zero", 0}, {"one", 1}, {"inverse", ref::inv(v)}, {"negated", ref::P() - v}, {"+1", ref::mod(v + 1, ref::P())}, {"other", other}};
    Z w = v;
    mpz_combit(w.get_mpz_t(), 2000);
    r.push_back({"bit2000", ref::mod(w, ref::P())});
    vector<std::pair<string, Z>> o;
    for (auto &x : r)
        if (x.second != v)
            o.push_back(x);
    return o;
}
static vector<string> altsId(const string &id) { return {id + "x", id.substr(0, id.size() - 1), "", id + "-", "null"}; }

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool quick = mc::opt().quick();
    // --- completeness ---
    Space s;
    shapes(s, quick ? 2 : 3, {-1, 0, 1, 2}, false);
    styles(s, false);
    identifiers(s);
    vector<unique_ptr<Election>> els;
    for (auto &m : s.men)
        els.push_back(make_unique<Election>(m));
    vector<size_t> pick;
    for (size_t i = 0; i < s.cases.size(); i++)
        if (!quick || s.cases[i].group == string("shapes") || i % 11 == 0)
            pick.push_back(i);
    mc::note("genuine ballots", std::to_string(pick.size()));
    mc::for_all("genuine", pick.size(), [&](uint64_t i) {
        auto &c = s.cases[pick[i]];
        auto &el = *els[c.e];
        string a = c.b.str();
        unique_ptr<eg::CiphertextBallot> r;
        auto p = c.b.build();
        try {
            r = eg::encryptBallot(*p, *el.internal, *el.context, *ref::mkQ(99), ref::mkQ(1000 + i), 1, false);
        } catch (const std::exception &) {
            return; // refused: B01
        }
        auto d = Ball::read(*r);
        string w = d.check(el.mhash, el.pub, el.ext);
        mc::expect(w.empty(), "the " + w + " of a genuine ballot is wrong", a);
        string g = verdict([&] { return r->isValidEncryption(*ref::mkQ(el.mhash), *ref::mkP(el.pub), *ref::mkQ(el.ext)); });
        mc::expect(g.empty(), "a genuine ballot is rejected", a);
        for (auto k : r->getContests()) {
            mc::expect(verdict([&] { return k.get().isValidEncryption(*k.get().getDescriptionHash(), *ref::mkP(el.pub), *ref::mkQ(el.ext)); }).empty(), "a genuine contest is rejected", a);
        }
        mc::state("genuine" + a + std::to_string(c.e));
    });

    // --- alterations of base ballots ---
    // ids chosen so that "contest-selection" pairs collide with other ids
    ManM m;
    m.units = {{"u", "n"}};
    m.styles = {{"style", {"u"}}};
    m.cons = {contest("a", "u", 0, 1, 1, {0, 1}), contest("a-b", "u", 3, 1, 1, {0, 2})};
    m.cons[0].sels[0].id = "b-c";
    m.cons[0].sels[1].id = "b";
    m.cons[1].sels[0].id = "c";
    m.cons[1].sels[1].id = "d";
    addCandidates(m);
    Election el(m);
    Bal b1{"ballot", "style", {{"a", {{"b-c", 1}}}, {"a-b", {{"d", 1}}}}};
    Bal b2{"other", "style", {{"a", {{"b", 1}}}, {"a-b", {}}}};
    auto enc = [&](const Bal &b, int n) {
        return Ball::read(*eg::encryptBallot(*b.build(), *el.internal, *el.context, *ref::mkQ(99), ref::mkQ(n), 1, false));
    };
    Ball B = enc(b1, 4711), O = enc(b2, 815);
    vector<Mut> mu;
    for (auto &k : B.cons)
        known.insert(k.str());
    auto add = [&](const string &what, const Ball &b, bool must = true, bool variants = true) {
        mu.push_back({what, b, must});
        if (!variants)
            return;
        Ball h = b;
        h.rehash();
        mu.push_back({what + " +hashes", h, false});
        Ball c = b;
        for (auto &k : c.cons)
            k.acc = k.wantAcc();
        c.rehash();
        if (c.str() != h.str())
            mu.push_back({what + " +hashes+accumulation", c, false});
    };
    // ballot fields
    for (auto &x : altsQ(B.manifest, O.hash)) {
        Ball b = B;
        b.manifest = x.second;
        add("manifest hash " + x.first, b);
    }
    for (auto &x : altsQ(B.hash, O.hash)) {
        Ball b = B;
        b.hash = x.second;
        add("ballot hash " + x.first, b, true, false);
    }
    for (auto &x : altsId(B.id)) {
        Ball b = B;
        b.id = x;
        add("ballot id " + x, b, true, false);
    }
    for (size_t i = 0; i < B.cons.size(); i++) {
        string ci = "contest " + std::to_string(i) + " ";
        auto &k = B.cons[i];
        auto &ko = O.cons[i];
        for (auto &x : altsId(k.id)) {
            Ball b = B;
            b.cons[i].id = x;
            add(ci + "id " + x, b);
        }
        for (auto &x : altsQ(k.desc, B.cons[1 - i].desc)) {
            Ball b = B;
            b.cons[i].desc = x.second;
            add(ci + "description hash " + x.first, b);
        }
        for (auto &x : altsQ(k.hash, ko.hash)) {
            Ball b = B;
            b.cons[i].hash = x.second;
            add(ci + "hash " + x.first, b, true, false);
            b.hash = b.wantHash();
            add(ci + "hash " + x.first + " +ballot hash", b, true, false);
        }
        for (auto &x : altsP(k.acc.a, ko.acc.a)) {
            Ball b = B;
            b.cons[i].acc.a = x.second;
            add(ci + "accumulation pad " + x.first, b, true, false);
        }
        for (auto &x : altsP(k.acc.b, ko.acc.b)) {
            Ball b = B;
            b.cons[i].acc.b = x.second;
            add(ci + "accumulation data " + x.first, b, true, false);
        }
        // contest proof
        struct F {
            const char *n;
            Z rp::C::*p;
            bool grp;
        };
        for (auto &f : {F{"pad", &rp::C::a, true}, F{"data", &rp::C::b, true}, F{"challenge", &rp::C::c, false}, F{"response", &rp::C::v, false}}) {
            Z v = (*k.proof).*f.p, o = (*ko.proof).*f.p;
            for (auto &x : f.grp ? altsP(v, o) : altsQ(v, o)) {
                Ball b = B;
                (*b.cons[i].proof).*f.p = x.second;
                add(ci + "proof " + f.n + " " + x.first, b, true, false);
            }
        }
        for (uint64_t L : {0ull, 2ull, 3ull, ~0ull}) {
            Ball b = B;
            b.cons[i].proof->L = L;
            add(ci + "proof constant " + std::to_string(L), b, true, false);
        }
        {
            Ball b = B;
            b.cons[i].proof.reset();
            add(ci + "proof missing", b, true, false);
            b = B;
            b.cons[i].proof = B.cons[1 - i].proof;
            add(ci + "proof of the other contest", b, true, false);
            b = B;
            b.cons[i].proof = ko.proof;
            add(ci + "proof of another ballot", b, true, false);
            b = B;
            b.cons[i] = ko;
            add(ci + "of another ballot", b, true, false);
            b = B;
            b.cons.erase(b.cons.begin() + i);
            add(ci + "removed", b, true, false);
            b = B;
            b.cons.push_back(b.cons[i]);
            add(ci + "repeated", b, true, false);
            Ball c = b;
            c.rehash();
            add(ci + "repeated +hashes", c, false, false);
            for (size_t first : {i, b.cons.size() - 1}) {
                c = b;
                c.cons[first].proof->v += 1;
                c.rehash();
                add(ci + "repeated with one bad contest proof", c, true, false);
                for (size_t j = 0; j < k.sels.size(); j++) {
                    c = b;
                    c.cons[first].sels[j].proof->v0 += 1;
                    c.rehash();
                    add(ci + "repeated with one bad selection proof " + std::to_string(j), c, true, false);
                }
            }
            c = B;
            c.cons[i].sels.clear();
            add(ci + "emptied", c);
        }
        for (size_t j = 0; j < k.sels.size(); j++) {
            string si = ci + "selection " + std::to_string(j) + " ";
            auto &y = k.sels[j];
            auto &yo = ko.sels[j];
            for (auto &x : altsId(y.id)) {
                Ball b = B;
                b.cons[i].sels[j].id = x;
                add(si + "id " + x, b);
            }
            for (auto &x : altsQ(y.desc, yo.hash)) {
                Ball b = B;
                b.cons[i].sels[j].desc = x.second;
                add(si + "description hash " + x.first, b);
            }
            for (auto &x : altsQ(y.hash, yo.hash)) {
                Ball b = B;
                b.cons[i].sels[j].hash = x.second;
                add(si + "hash " + x.first, b, true, false);
                b.cons[i].hash = b.cons[i].wantHash();
                b.hash = b.wantHash();
                add(si + "hash " + x.first + " +outer hashes", b, true, false);
            }
            for (int part = 0; part < 2; part++) {
                Z Ball0 = part ? y.ct.b : y.ct.a;
                for (auto &x : altsP(Ball0, part ? yo.ct.b : yo.ct.a)) {
                    Ball b = B;
                    (part ? b.cons[i].sels[j].ct.b : b.cons[i].sels[j].ct.a) = x.second;
                    add(si + (part ? "data " : "pad ") + x.first, b);
                }
            }
            struct F {
                const char *n;
                Z rp::D::*p;
                bool grp;
            };
            for (auto &f : {F{"zero pad", &rp::D::a0, true}, F{"zero data", &rp::D::b0, true}, F{"one pad", &rp::D::a1, true}, F{"one data", &rp::D::b1, true},
                            F{"zero challenge", &rp::D::c0, false}, F{"one challenge", &rp::D::c1, false}, F{"challenge", &rp::D::c, false},
                            F{"zero response", &rp::D::v0, false}, F{"one response", &rp::D::v1, false}}) {
                Z v = (*y.proof).*f.p, o = (*yo.proof).*f.p;
                auto al = f.grp ? altsP(v, o) : altsQ(v, o);
                for (size_t n = 0; n < al.size(); n++) {
                    if (quick && (i + j + n) % 3)
                        continue;
                    Ball b = B;
                    (*b.cons[i].sels[j].proof).*f.p = al[n].second;
                    add(si + "proof " + f.n + " " + al[n].first, b, true, false);
                }
            }
            Ball b = B;
            b.cons[i].sels[j].proof.reset();
            add(si + "proof missing", b, true, false);
            b = B;
            b.cons[i].sels[j].proof = yo.proof;
            add(si + "proof of another ballot", b, true, false);
            b = B;
            b.cons[i].sels[j] = yo;
            add(si + "of another ballot", b);
            b = B;
            b.cons[i].sels.erase(b.cons[i].sels.begin() + j);
            add(si + "removed", b);
            b = B;
            b.cons[i].sels.push_back(y);
            add(si + "repeated", b);
            // repeated, with a contest proof made for the new accumulation
            {
                auto &c = b.cons[i];
                c.acc = c.wantAcc();
                Z sum = 0;
                uint64_t L = 0;
                auto x = expected(m, el.mhash, b1, 4711);
                for (size_t n = 0; n < c.sels.size(); n++) {
                    auto &e = x.cons[i].sels[n < k.sels.size() ? n : j];
                    sum = ref::mod(sum + e.nonce, ref::Q());
                    L += e.vote;
                }
                c.proof = rp::read(*eg::ConstantChaumPedersenProof::make(*c.acc.build(), *ref::mkQ(sum), *ref::mkP(el.pub), *ref::mkQ(321), *ref::mkQ(el.ext), L));
                b.rehash();
                add(si + "repeated and proved", b, false, false);
                for (size_t which : {j, c.sels.size() - 1}) {
                    Ball d = b;
                    d.cons[i].sels[which].proof->v0 += 1;
                    add(si + "repeated and proved, one copy with a bad proof", d, true, false);
                    d = b;
                    d.cons[i].sels[which].proof.reset();
                    add(si + "repeated and proved, one copy without proof", d, true, false);
                }
            }
            // exchanges
            for (size_t i2 = 0; i2 < B.cons.size(); i2++)
                for (size_t j2 = 0; j2 < B.cons[i2].sels.size(); j2++) {
                    if (i2 < i || (i2 == i && j2 <= j))
                        continue;
                    string ex = si + "exchanged with " + std::to_string(i2) + "/" + std::to_string(j2) + " ";
                    Ball c = B;
                    std::swap(c.cons[i].sels[j].ct, c.cons[i2].sels[j2].ct);
                    add(ex + "ciphertext", c);
                    c = B;
                    std::swap(c.cons[i].sels[j].proof, c.cons[i2].sels[j2].proof);
                    add(ex + "proof", c, true, false);
                    c = B;
                    std::swap(c.cons[i].sels[j].id, c.cons[i2].sels[j2].id);
                    add(ex + "id", c);
                    c = B;
                    std::swap(c.cons[i].sels[j].ct, c.cons[i2].sels[j2].ct);
                    std::swap(c.cons[i].sels[j].proof, c.cons[i2].sels[j2].proof);
                    add(ex + "ciphertext and proof", c);
                    c = B;
                    std::swap(c.cons[i].sels[j].seq, c.cons[i2].sels[j2].seq);
                    if (i == i2)
                        add(ex + "position", c);
                    c = B;
                    std::swap(c.cons[i].sels[j], c.cons[i2].sels[j2]);
                    if (i != i2 && c.cons[i].sels[j].seq == B.cons[i].sels[j].seq)
                        add(ex + "whole", c);
                }
        }
    }
    {
        Ball b = B;
        std::swap(b.cons[0].seq, b.cons[1].seq);
        add("contest positions exchanged", b);
        b = B;
        std::swap(b.cons[0].id, b.cons[1].id);
        add("contest ids exchanged", b);
        b = B;
        std::swap(b.cons[0].desc, b.cons[1].desc);
        add("contest descriptions exchanged", b);
        b = B;
        std::swap(b.cons[0].sels, b.cons[1].sels);
        add("selections of contests exchanged", b);
        b = B;
        std::swap(b.cons[0].proof, b.cons[1].proof);
        add("contest proofs exchanged", b);
        b = B;
        b.cons.clear();
        add("all contests removed", b);
        b = B;
        b.cons.push_back(O.cons[0]);
        b.cons.back().seq = 9;
        add("contest added", b, true, false);
        b = O;
        b.id = B.id;
        add("contests of another ballot", b, true, false);
        b.hash = B.hash;
        add("contests of another ballot under the old hash", b, true, false);
        // unbound parts: listing order, extended data, style, time, code
        b = B;
        std::reverse(b.cons.begin(), b.cons.end());
        for (auto &c : b.cons)
            std::reverse(c.sels.begin(), c.sels.end());
        add("listing order", b, false, false);
    }
    mc::note("altered ballots", std::to_string(mu.size()));
    mc::for_all("alterations", mu.size(), [&](uint64_t i) {
        judge(mu[i].b, el.mhash, el.pub, el.ext, mu[i].must, mu[i].what);
        if (i % 199 == 0)
            mc::sample(mu[i].what + " -> " + mu[i].b.check(el.mhash, el.pub, el.ext));
    });
    // --- another election ---
    struct V {
        string what;
        Z mh, k, q;
    };
    vector<V> vs = {{"own", el.mhash, el.pub, el.ext}};
    for (auto &x : altsQ(el.mhash, el.base))
        vs.push_back({"manifest hash " + x.first, x.second, el.pub, el.ext});
    for (auto &x : altsP(el.pub, ref::powm(ref::G(), 12345)))
        vs.push_back({"public key " + x.first, el.mhash, x.second, el.ext});
    for (auto &x : altsQ(el.ext, el.base))
        vs.push_back({"extended base hash " + x.first, el.mhash, el.pub, x.second});
    mc::for_all("parameters", vs.size(), [&](uint64_t i) {
        for (auto *p : {&B, &O})
            judge(*p, vs[i].mh, vs[i].k, vs[i].q, i > 0, vs[i].what);
        // seeds of contests and selections
        if (i == 0)
            for (auto &c : B.cons) {
                auto lc = c.build();
                for (auto &x : altsQ(c.desc, el.base))
                    mc::expect(!verdict([&] { return lc->isValidEncryption(*ref::mkQ(x.second), *ref::mkP(el.pub), *ref::mkQ(el.ext)); }).empty(), "a contest is accepted for another description", x.first);
                for (auto &s : c.sels) {
                    auto ls = s.build();
                    mc::expect(verdict([&] { return ls->isValidEncryption(*ref::mkQ(s.desc), *ref::mkP(el.pub), *ref::mkQ(el.ext)); }).empty(), "a valid selection is rejected", s.id);
                    for (auto &x : altsQ(s.desc, el.base))
                        mc::expect(!verdict([&] { return ls->isValidEncryption(*ref::mkQ(x.second), *ref::mkP(el.pub), *ref::mkQ(el.ext)); }).empty(), "a selection is accepted for another description", x.first);
                }
            }
    });
    // --- larger contests: accumulations, hashes and proofs ---
    struct Big {
        unique_ptr<Election> el;
        Ball b;
    };
    vector<Big> bigs;
    for (int ns : quick ? vector<int>{3, 5, 8} : vector<int>{3, 4, 5, 6, 7, 8, 12, 17}) {
        vector<uint64_t> seqs;
        for (int k = 0; k < ns; k++)
            seqs.push_back(k);
        auto c = contest("con", "u", 1, ns / 2, ns / 2, seqs);
        Big g;
        g.el = make_unique<Election>(single(c));
        Bal b{"ballot", "style", {marks(c, {1, 0, 1})}};
        g.b = Ball::read(*eg::encryptBallot(*b.build(), *g.el->internal, *g.el->context, *ref::mkQ(99), ref::mkQ(31 + ns), 1, false));
        bigs.push_back(std::move(g));
    }
    vector<std::pair<int, Mut>> bm;
    for (int g = 0; g < (int)bigs.size(); g++) {
        auto &b0 = bigs[g].b;
        auto &k = b0.cons[0];
        string w = std::to_string(k.sels.size()) + " selections: ";
        auto put = [&](const string &what, const Ball &b, bool must) { bm.push_back({g, {w + what, b, must}}); };
        put("unaltered", b0, false);
        for (int part = 0; part < 2; part++)
            for (auto &x : altsP(part ? k.acc.b : k.acc.a, k.sels[0].ct.a)) {
                Ball b = b0;
                (part ? b.cons[0].acc.b : b.cons[0].acc.a) = x.second;
                put(string("accumulation ") + (part ? "data " : "pad ") + x.first, b, true);
            }
        // the accumulation without one selection, or with another selection twice
        for (size_t j = 0; j < k.sels.size(); j++) {
            Ball b = b0;
            b.cons[0].acc.a = ref::mulp(k.acc.a, ref::inv(k.sels[j].ct.a));
            b.cons[0].acc.b = ref::mulp(k.acc.b, ref::inv(k.sels[j].ct.b));
            put("accumulation without " + std::to_string(j), b, true);
            b = b0;
            b.cons[0].sels[j].proof->v1 += 1;
            put("bad proof of " + std::to_string(j), b, true);
            b = b0;
            b.cons[0].sels[j].hash = ref::mod(b.cons[0].sels[j].hash + 1, ref::Q());
            put("hash of " + std::to_string(j), b, true);
            b.cons[0].hash = b.cons[0].wantHash();
            b.hash = b.wantHash();
            put("hash of " + std::to_string(j) + " +outer hashes", b, true);
        }
        for (uint64_t l : {0ull, 1ull, (unsigned long long)k.proof->L + 1, (unsigned long long)k.sels.size(), ~0ull})
            if (l != k.proof->L) {
                Ball b = b0;
                b.cons[0].proof->L = l;
                put("proof constant " + std::to_string(l), b, true);
            }
        Ball b = b0;
        b.cons[0].proof->v = ref::mod(b.cons[0].proof->v + 1, ref::Q());
        put("contest response", b, true);
        b = b0;
        b.cons[0].hash = ref::mod(b.cons[0].hash + 1, ref::Q());
        put("contest hash", b, true);
        b.hash = b.wantHash();
        put("contest hash +ballot hash", b, true);
    }
    for (auto &g : bigs)
        known.insert(g.b.cons[0].str());
    mc::for_all("larger contests", bm.size(), [&](uint64_t i) {
        auto &e = *bigs[bm[i].first].el;
        auto &x = bm[i].second;
        judge(x.b, e.mhash, e.pub, e.ext, x.must, x.what);
    });
    return mc::finish();
}
