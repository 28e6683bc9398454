// B05: every nonce of every encrypted ballot against the prescribed derivation,
// distinctness inside and across ballots, and reproducibility over histories
// and processes.
#include "mc.hpp"
#include "modelhash.hpp"
#include "spaces.hpp"
using namespace space;
namespace eg = electionguard;
using ref::powm;
using ref::val;

// everything of a ballot that is determined by its inputs
static string fixed(const eg::CiphertextBallot &b)
{
    string s = b.getObjectId() + "|" + b.getStyleId() + hex(val(*b.getManifestHash())) + hex(val(*b.getBallotCodeSeed())) +
               hex(val(*b.getBallotCode())) + std::to_string(b.getTimestamp()) + hex(val(*b.getNonce())) + hex(val(*b.getCryptoHash()));
    for (auto c : b.getContests()) {
        auto &k = c.get();
        s += "\nC" + k.getObjectId() + std::to_string(k.getSequenceOrder()) + hex(val(*k.getDescriptionHash())) + hex(val(*k.getNonce())) +
             hex(val(*k.getCryptoHash())) + hex(val(*k.getCiphertextAccumulation()->getPad())) + hex(val(*k.getCiphertextAccumulation()->getData()));
        auto *p = k.getProof();
        s += hex(val(*p->getPad())) + hex(val(*p->getData())) + hex(val(*p->getChallenge())) + hex(val(*p->getResponse())) + std::to_string(p->getConstant());
        auto h = k.getHashedElGamalCiphertext();
        s += hex(val(*h->getPad())) + ref::hexbytes(h->getData()) + ref::hexbytes(h->getMac());
        for (auto q : k.getSelections()) {
            auto &e = q.get();
            s += "\nS" + e.getObjectId() + std::to_string(e.getSequenceOrder()) + (e.getIsPlaceholder() ? "P" : "") + hex(val(*e.getDescriptionHash())) +
                 hex(val(*e.getNonce())) + hex(val(*e.getCryptoHash())) + hex(val(*e.getCiphertext()->getPad())) + hex(val(*e.getCiphertext()->getData()));
        }
    }
    return s;
}
// all secret exponents and all commitments of a ballot, with where they are from
static vector<std::pair<string, string>> exponents(const Election &el, const EBal &x)
{
    vector<std::pair<string, string>> v;
    v.push_back({"seed", hex(x.seed)});
    for (auto &c : x.cons) {
        v.push_back({c.id, hex(c.nonce)});
        v.push_back({c.id + " proof", hex(c.proofNonce)});
        v.push_back({c.id + " ext", hex(c.extNonce)});
        for (auto &s : c.sels)
            v.push_back({c.id + "/" + s.id, hex(s.nonce)});
    }
    return v;
}
static void judge(const Election &el, const Bal &b, const Z &nonce, const eg::CiphertextBallot &r, const string &a)
{
    auto x = expected(el.man, el.mhash, b, nonce);
    if (r.getContests().size() != x.cons.size())
        return; // B01
    mc::expect(val(*r.getNonce()) == nonce, "ballot carries another nonce", a);
    mc::expect(val(*const_cast<eg::CiphertextBallot &>(r).nonceSeed()) == x.seed &&
                 val(*eg::CiphertextBallot::nonceSeed(*ref::mkQ(el.mhash), b.id, *ref::mkQ(nonce))) == x.seed,
               "nonce seed is not the prescribed one", a);
    std::map<string, string> seen; // commitments and exponents
    auto fresh = [&](const Z &z, const string &what) {
        auto it = seen.find(hex(z));
        if (it != seen.end())
            mc::fail("two parts of a ballot share a nonce", a + " " + it->second + " and " + what);
        seen[hex(z)] = what;
    };
    auto cs = r.getContests();
    for (size_t i = 0; i < cs.size(); i++) {
        auto &k = cs[i].get();
        auto &w = x.cons[i];
        mc::expect(val(*k.getNonce()) == w.nonce, "contest nonce is not the prescribed one", a);
        fresh(val(*k.getNonce()), w.id + " nonce");
        Z u = nonceAt(w.proofNonce, "constant-chaum-pedersen-proof", 0);
        mc::expect(val(*k.getProof()->getPad()) == powm(ref::G(), u), "contest proof does not use the prescribed nonce", a);
        fresh(val(*k.getProof()->getPad()), w.id + " proof commitment");
        auto h = k.getHashedElGamalCiphertext();
        mc::expect(val(*h->getPad()) == powm(ref::G(), w.extNonce), "extended data does not use the prescribed nonce", a);
        fresh(val(*h->getPad()), w.id + " extended data");
        auto ss = k.getSelections();
        for (size_t j = 0; j < ss.size() && j < w.sels.size(); j++) {
            auto &s = ss[j].get();
            auto &y = w.sels[j];
            mc::expect(val(*s.getNonce()) == y.nonce, "selection nonce is not the prescribed one", a + " " + y.id);
            auto ct = cipher(el.pub, y.nonce, y.vote);
            mc::expect(val(*s.getCiphertext()->getPad()) == ct.first && val(*s.getCiphertext()->getData()) == ct.second,
                       "selection is not encrypted with its nonce", a + " " + y.id);
            fresh(val(*s.getNonce()), w.id + "/" + y.id + " nonce");
            fresh(val(*s.getCiphertext()->getPad()), w.id + "/" + y.id + " ciphertext");
            fresh(val(*s.getProof()->getProofZeroPad()), w.id + "/" + y.id + " proof");
            fresh(val(*s.getProof()->getProofOnePad()), w.id + "/" + y.id + " proof");
            mc::step();
        }
    }
}

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool quick = mc::opt().quick();
    Space s;
    shapes(s, quick ? 2 : 3, quick ? vector<int>{-1, 1} : vector<int>{-1, 0, 1}, false);
    styles(s, false);
    identifiers(s);
    numberings(s);
    writeins(s);
    repeated(s);
    large(s, false);
    vector<unique_ptr<Election>> els;
    for (size_t i = 0; i < s.men.size(); i++)
        els.push_back(make_unique<Election>(s.men[i], i % 16 == 5 ? ref::Q() - 3 : Z(65537)));
    vector<Case> cases;
    for (size_t i = 0; i < s.cases.size(); i++) {
        auto x = expected(s.men[s.cases[i].e], els[s.cases[i].e]->mhash, s.cases[i].b, 3);
        if (!x.refused && (!quick || i % 3 == 0 || s.cases[i].group != string("numberings")))
            cases.push_back(s.cases[i]);
    }
    auto enc = [&](const Election &el, const Bal &b, const Z &seed, const Z &nonce, uint64_t ts) {
        auto p = b.build();
        mc::step();
        return eg::encryptBallot(*p, *el.internal, *el.context, *ref::mkQ(seed), ref::mkQ(nonce), ts, false);
    };
    vector<Z> nonces = {1, 2, ref::Q() - 1, (Z(1) << 248) + 7, Z("00ffee00000000000000000000000001", 16)};
    mc::for_all("derivation", cases.size(), [&](uint64_t i) {
        auto &c = cases[i];
        auto &el = *els[c.e];
        Z nonce = i % 3 ? nonces[i % nonces.size()] : H({"n", ref::S(i)});
        string a = "e" + std::to_string(c.e) + " " + c.b.str() + " nonce " + hex(nonce);
        auto r = enc(el, c.b, 99, nonce, 7 + i);
        judge(el, c.b, nonce, *r, a);
        mc::state(a);
        if (i % 307 == 0)
            mc::sample(a);
    });
    // all pairs over (ballot id, nonce, manifest, style): no exponent is shared,
    // except that the nonces of a contest do not depend on the votes
    {
        auto m1 = styled(), m2 = styled(), m3 = styled();
        m2.scope = "other";
        m3.end += 1;
        vector<unique_ptr<Election>> me;
        for (auto &m : {m1, m2, m3})
            me.push_back(make_unique<Election>(m));
        struct V {
            int e;
            string id, style;
            Z nonce;
        };
        vector<V> vs;
        for (int e = 0; e < 3; e++)
            for (auto id : {"a", "b", "", "aa"})
                for (auto &n : vector<Z>{1, 2, ref::Q() - 1})
                    vs.push_back({e, id, e == 0 ? "all" : "s13", n});
        mc::for_all("pairs", vs.size(), [&](uint64_t i) {
            auto &v = vs[i];
            auto r = enc(*me[v.e], {v.id, v.style, {}}, 5, v.nonce, 1);
            std::set<string> mine;
            for (auto c : r->getContests()) {
                mine.insert(hex(val(*c.get().getNonce())));
                mine.insert(hex(val(*c.get().getHashedElGamalCiphertext()->getPad())));
                for (auto q : c.get().getSelections()) {
                    mine.insert(hex(val(*q.get().getNonce())));
                    mine.insert(hex(val(*q.get().getCiphertext()->getPad())));
                }
            }
            for (uint64_t j = 0; j < i; j++) {
                auto x = enc(*me[vs[j].e], {vs[j].id, vs[j].style, {}}, 5, vs[j].nonce, 1);
                for (auto c : x->getContests()) {
                    bool hit = mine.count(hex(val(*c.get().getNonce()))) || mine.count(hex(val(*c.get().getHashedElGamalCiphertext()->getPad())));
                    for (auto q : c.get().getSelections())
                        hit = hit || mine.count(hex(val(*q.get().getNonce()))) || mine.count(hex(val(*q.get().getCiphertext()->getPad())));
                    mc::expect(!hit, "ballots that differ in identifier, nonce or manifest share a nonce",
                               std::to_string(i) + " and " + std::to_string(j) + " in " + c.get().getObjectId());
                }
            }
            mc::state("pair" + std::to_string(i));
        });
    }
    // reproducibility: what the parent process computed before, recomputed in
    // every worker, alone and after other encryptions
    {
        auto m = styled();
        Election el(m);
        Election other(m, 4099);
        vector<Bal> bs = {{"x", "all", {{"c", {{"c-s1", 1}}}}}, {"y", "s13", {}}, {"x", "all", {{"c-a", {{"c-a-s0", 1}, {"c-a-s1", 1}}}}}, {"x", "only2", {{"c-b", {{"c-b-s1", 1}}}}}};
        vector<string> want;
        for (size_t i = 0; i < bs.size(); i++)
            want.push_back(fixed(*enc(el, bs[i], 17, 1000 + i, 55)));
        mc::for_all("histories", quick ? 340 : 1364, [&](uint64_t h) {
            // all sequences of up to 4 (5) ballots, each ends up as the parent computed it
            uint64_t len = h < 4 ? 1 : h < 20 ? 2 : h < 84 ? 3 : h < 340 ? 4 : 5, base = h < 4 ? 0 : h < 20 ? 4 : h < 84 ? 20 : h < 340 ? 84 : 340, c = h - base;
            string a;
            for (uint64_t k = 0; k < len; k++, c /= 4) {
                int i = (int)(c % 4);
                a += std::to_string(i);
                if (k + 1 < len && len > 2) {
                    // earlier steps: other elections and nonces too
                    enc(k % 2 ? other : el, bs[i], 17, k % 2 ? 1000 + i : 77, 55);
                } else
                    mc::expect(fixed(*enc(el, bs[i], 17, 1000 + i, 55)) == want[i], "the same inputs give another ballot", a);
            }
            mc::state("h" + a);
        });
    }
    return mc::finish();
}
