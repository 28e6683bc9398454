// B01: what an encrypted ballot contains, for every ballot of the bounded
// spaces, against the model of model.hpp and GMP decryption.
#include "mc.hpp"
#include "spaces.hpp"
using namespace space;
namespace eg = electionguard;

static void judge(const Election &el, const Bal &b, const EBal &x, const eg::CiphertextBallot &c, const string &a)
{
    mc::expect(c.getObjectId() == b.id && c.getStyleId() == b.style, "ballot or style identifier changed", a);
    mc::expect(ref::val(*c.getManifestHash()) == el.mhash, "ballot carries another manifest hash", a);
    auto cs = c.getContests();
    mc::expect(cs.size() == x.cons.size(), "encrypted ballot has other contests than the style", a);
    if (cs.size() != x.cons.size())
        return;
    for (size_t i = 0; i < cs.size(); i++) {
        auto &k = cs[i].get();
        auto &w = x.cons[i];
        mc::expect(k.getObjectId() == w.id && k.getSequenceOrder() == w.seq && ref::val(*k.getDescriptionHash()) == w.desc,
                   "contest has another identity or position", a);
        auto ss = k.getSelections();
        mc::expect(ss.size() == w.sels.size(), "contest has other selections than described", a);
        if (ss.size() != w.sels.size())
            continue;
        uint64_t sum = 0;
        for (size_t j = 0; j < ss.size(); j++) {
            auto &s = ss[j].get();
            auto &y = w.sels[j];
            mc::expect(s.getObjectId() == y.id && s.getSequenceOrder() == y.seq && ref::val(*s.getDescriptionHash()) == y.desc,
                       "selection has another identity or position", a);
            mc::expect(s.getIsPlaceholder() == y.ph, "selection is wrongly marked as placeholder", a);
            int v = el.dec(*s.getCiphertext());
            mc::step();
            if (v != (int)y.vote)
                mc::fail(y.ph ? "placeholder decrypts to a wrong value" : w.overvote ? "selection of an overvoted contest is not zero" : "selection does not decrypt to the vote cast",
                         a + " " + w.id + "/" + y.id + " got " + std::to_string(v) + " want " + std::to_string(y.vote));
            sum += v;
        }
        mc::expect(sum == w.n, "decrypted contest sum is not the number of seats", a);
        mc::expect(el.dec(*k.getCiphertextAccumulation()) == (int)w.n, "accumulation does not decrypt to the number of seats", a);
    }
}

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool quick = mc::opt().quick();
    Space s;
    shapes(s, 3, {-1, 0, 1, 2}, true);
    if (quick) {
        size_t from = s.cases.size();
        Space t;
        shapes(t, 4, {0, 1}, false);
        for (auto &c : t.cases)
            if (t.men[c.e].cons[0].sels.size() == 4) {
                c.e += (int)s.men.size();
                s.cases.push_back(c);
            }
        for (auto &m : t.men)
            s.men.push_back(m);
        (void)from;
    } else {
        shapes(s, 5, {-1, 1}, true);
        shapes(s, 4, {-1, 0, 1, 2, 3}, false);
    }
    numberings(s);
    styles(s, !quick);
    identifiers(s);
    writeins(s);
    repeated(s);
    large(s, !quick);
    vector<unique_ptr<Election>> els;
    for (size_t i = 0; i < s.men.size(); i++) {
        els.push_back(make_unique<Election>(s.men[i], i % 16 == 5 ? ref::Q() - 3 : Z(65537)));
        els.back()->dec(*eg::ElGamalCiphertext::make(*ref::mkP(1), *ref::mkP(1)));
    }
    eg::G();
    mc::note("elections", std::to_string(els.size()));
    mc::note("ballots", std::to_string(s.cases.size()));
    auto seed = ref::mkQ(12345);
    mc::for_all("ballots", s.cases.size(), [&](uint64_t i) {
        auto &c = s.cases[i];
        auto &el = *els[c.e];
        string a = string(c.group) + " e" + std::to_string(c.e) + " " + el.man.cons[0].str() + " " + c.b.str();
        Z nonce = H({"nonce", ref::S((uint64_t)i)});
        auto x = expected(el.man, el.mhash, c.b, nonce);
        auto b = c.b.build();
        mc::step();
        mc::state(a);
        if (i % 997 == 0)
            mc::sample(a);
        unique_ptr<eg::CiphertextBallot> r;
        try {
            r = eg::encryptBallot(*b, *el.internal, *el.context, *seed, ref::mkQ(nonce), 1000 + i, i % 61 == 0);
        } catch (const std::exception &) {
            mc::expect(x.refused, "a representable ballot is refused", a);
            return;
        }
        if (x.refused || !r) {
            mc::fail(c.group == string("unknown-style") ? "a ballot of an unknown style is encrypted" : "a ballot that cannot be represented is encrypted", a);
            return;
        }
        judge(el, c.b, x, *r, a);
    });
    // the parts of the interface on their own, and the mediator
    mc::for_all("entry-points", els.size(), [&](uint64_t e) {
        auto &el = *els[e];
        for (auto &st : el.man.styles) {
            Bal b{"bb", st.id, {}};
            for (auto &k : el.man.contestsFor(st.id))
                b.cons.push_back(marks(k, vector<int>(k.sels.size(), k.n > 0 && k.sels.size() == k.n ? 1 : 0)));
            eg::EncryptionDevice dev(1, 2, 3, "loc");
            eg::EncryptionMediator med(*el.internal, *el.context, dev);
            auto p = b.build();
            auto r = med.encrypt(*p, e % 11 == 0);
            Z nonce = ref::val(*r->getNonce());
            string a = "mediator e" + std::to_string(e) + " " + b.str();
            judge(el, b, expected(el.man, el.mhash, b, nonce), *r, a);
            mc::step();
            // encryptContests on its own
            auto x = expected(el.man, el.mhash, b, 77);
            auto cs = eg::encryptContests(*p, *el.internal, *el.context, *ref::mkQ(x.seed), false);
            auto q = eg::CiphertextBallot::make(b.id, b.style, *el.internal->getManifestHash(), std::move(cs), ref::mkQ(77), 5, ref::mkQ(3));
            judge(el, b, x, *q, "contests e" + std::to_string(e) + " " + b.str());
            mc::step();
        }
        Bal b{"bb", "no such style", {}};
        auto p = b.build();
        try {
            eg::encryptContests(*p, *el.internal, *el.context, *ref::mkQ(5), false);
            mc::fail("encryptContests accepts an unknown style");
        } catch (const std::exception &) {
        }
        try {
            eg::EncryptionDevice dev(1, 2, 3, "loc");
            eg::EncryptionMediator med(*el.internal, *el.context, dev);
            med.compactEncrypt(*p, false);
            mc::fail("compactEncrypt accepts an unknown style");
        } catch (const std::exception &) {
        }
    });
    return mc::finish();
}
