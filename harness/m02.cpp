// M02: all single alterations of rich and lean manifests (and all pairs of a
// coarser set): hashes against the model, hash changes, the derived internal
// manifest with its placeholders and style views, and the mediator's refusal
// of a context made for another manifest.
#include "mc.hpp"
#include "variants.hpp"
#include <map>
using namespace space;
static string H16(const Z &z) { return hex(z).substr(0, 16); }
static bool distinctSeqs(const ManM &m)
{
    std::set<uint64_t> q;
    for (auto &c : m.cons) {
        if (!q.insert(c.seq).second)
            return false;
        std::set<uint64_t> s;
        for (auto &x : c.sels)
            if (!s.insert(x.seq).second)
                return false;
    }
    return true;
}
static Z check(const ManM &m, const string &what)
{
    auto l = m.build();
    Z h = ref::val(*l->crypto_hash());
    mc::step();
    mc::expect(h == m.hz(), "the manifest hash differs from its definition", what);
    mc::expect(ref::val(*static_cast<const eg::Manifest &>(*l).crypto_hash()) == h, "the manifest hash differs between calls", what);
    // the parts
    size_t i = 0;
    for (auto x : l->getGeopoliticalUnits())
        mc::expect(hex(ref::val(*x.get().crypto_hash())) == m.units[i++].h(), "hash of a geopolitical unit", what);
    i = 0;
    for (auto x : l->getParties())
        mc::expect(hex(ref::val(*x.get().crypto_hash())) == m.parties[i++].h(), "hash of a party", what);
    i = 0;
    for (auto x : l->getCandidates())
        mc::expect(hex(ref::val(*x.get().crypto_hash())) == m.cands[i++].h(), "hash of a candidate", what);
    i = 0;
    for (auto x : l->getBallotStyles())
        mc::expect(hex(ref::val(*x.get().crypto_hash())) == m.styles[i++].h(), "hash of a ballot style", what);
    bool distinct = distinctSeqs(m);
    auto cons = bySeq(m.cons);
    if (distinct) {
        i = 0;
        for (auto x : l->getContests()) {
            auto &w = cons[i++];
            mc::expect(ref::val(*x.get().crypto_hash()) == w.hz(), "hash of a contest", what);
            auto ss = bySeq(w.sels);
            size_t j = 0;
            for (auto s : x.get().getSelections())
                mc::expect(ref::val(*s.get().crypto_hash()) == ss[j++].hz(), "hash of a selection", what);
        }
        mc::expect(ManM::read(*l).str() == m.str(), "the manifest does not contain what it was made of", what);
    }
    // the view used for encryption
    eg::InternalManifest in(*l);
    mc::step();
    mc::expect(ref::val(*in.getManifestHash()) == h, "the internal manifest has another hash", what);
    if (!distinct)
        return h;
    auto view = [&](eg::ContestDescriptionWithPlaceholders &x, const ConM &w) {
        mc::expect(ConM::read(x).str() == w.str() && ref::val(*x.crypto_hash()) == w.hz(), "the internal manifest changes a contest", what + " " + ConM::read(x).str() + " for " + w.str());
        auto ph = x.getPlaceholders();
        auto want = w.placeholders();
        mc::expect(ph.size() == w.n, "not one placeholder per seat", what);
        std::set<string> ids;
        std::set<uint64_t> seqs;
        uint64_t top = 0;
        for (auto &s : w.sels) {
            ids.insert(s.id);
            seqs.insert(s.seq);
            top = std::max(top, s.seq);
        }
        for (size_t k = 0; k < ph.size(); k++) {
            auto p = SelM::read(ph[k].get());
            mc::expect(ids.insert(p.id).second, "a placeholder is not uniquely identified", what + " " + p.str());
            mc::expect(seqs.insert(p.seq).second && p.seq > top, "a placeholder does not follow the selections", what + " " + p.str());
            if (k < want.size())
                mc::expect(p == want[k], "a placeholder differs from its definition", what + " " + p.str());
            mc::expect(x.IsPlaceholder(ph[k].get()), "a placeholder is not recognised", what);
            mc::expect(SelM::read(x.selectionFor(p.id).get()) == p, "a placeholder is not found by its identifier", what);
        }
        std::set<string> own;
        for (auto &s : w.sels) {
            if (!own.insert(s.id).second)
                continue;
            string id = s.id;
            mc::expect(SelM::read(x.selectionFor(id).get()).id == s.id, "a selection is not found by its identifier", what);
        }
        for (auto s : x.getSelections())
            mc::expect(!x.IsPlaceholder(s.get()), "a selection is taken for a placeholder", what);
    };
    mc::expect(in.getContests().size() == cons.size(), "number of contests in the internal manifest", what);
    i = 0;
    for (auto x : in.getContests())
        view(x.get(), cons[i++]);
    i = 0;
    for (auto x : in.getGeopoliticalUnits())
        mc::expect(UnitM::read(x.get()).str() == m.units[i++].str(), "unit of the internal manifest", what);
    i = 0;
    for (auto x : in.getCandidates())
        mc::expect(CandM::read(x.get()).str() == m.cands[i++].str(), "candidate of the internal manifest", what);
    i = 0;
    for (auto x : in.getBallotStyles())
        mc::expect(StyleM::read(x.get()).str() == m.styles[i++].str(), "style of the internal manifest", what);
    mc::expect(in.getBallotStyles().size() == m.styles.size() && in.getGeopoliticalUnits().size() == m.units.size() && in.getCandidates().size() == m.cands.size(), "sizes of the internal manifest's lists", what);
    for (auto &s : m.styles) {
        auto st = in.getBallotStyle(s.id);
        mc::expect(st && StyleM::read(*st).str() == m.style(s.id)->str(), "style found by its identifier", what);
        mc::step();
        if (m.style(s.id)->units.empty())
            continue;
        auto want = m.contestsFor(s.id);
        auto got = in.getContestsFor(s.id);
        if (got.size() != want.size()) {
            mc::fail("the contests of a style are not those of its districts", what + " " + s.id);
            continue;
        }
        for (size_t k = 0; k < got.size(); k++)
            view(got[k].get(), want[k]);
    }
    for (auto id : {"nowhere", "b1 ", "B1"})
        if (!m.style(id)) {
            mc::expect(in.getBallotStyle(id) == nullptr, "an unknown style is found", what);
            bool thrown = false;
            try {
                in.getContestsFor(id);
            } catch (const std::exception &) {
                thrown = true;
            }
            mc::expect(thrown, "an unknown style has contests", what);
        }
    return h;
}
static string content(const ManM &m)
{
    // everything that is hashed, in hash order and with its rendering
    string s = ref::S(m.scope) + "\1" + std::to_string(m.type) + "\1" + iso(m.start) + "\1" + iso(m.end) + "\1" + (m.name ? model::str(m.name) : "") + "\1" + (m.contact ? m.contact->str() : "");
    for (auto &x : m.units)
        s += "\2" + x.str();
    for (auto &x : m.parties)
        s += "\3" + x.str();
    for (auto &x : m.cons) {
        s += "\4" + x.str();
        for (auto &y : x.sels)
            s += "\5" + y.str();
    }
    for (auto &x : m.styles)
        s += "\6" + x.str();
    return s;
}
int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool quick = mc::opt().quick();
    vector<ManM> bases = {rich(), lean(), styled()};
    for (size_t k = 0; k < bases.size(); k++) {
        auto b = bases[k];
        auto full = alterations(b, true), coarse = alterations(b, false);
        Z h0 = check(b, "unaltered");
        mc::note("alterations of manifest " + std::to_string(k), std::to_string(full.size()));
        mc::for_all("singles" + std::to_string(k), full.size(), [&](uint64_t i) {
            ManM m = b;
            full[i].f(m);
            mc::desc("singles" + std::to_string(k) + " " + full[i].name);
            Z h = check(m, full[i].name);
            if (full[i].name.find("='null'") != string::npos)
                ; // the text null renders as an absent one
            else if (content(m) != content(b))
                mc::expect(h != h0, "a change of the manifest leaves its hash unchanged", full[i].name);
            else
                mc::expect(h == h0, "the hash depends on something that is not hashed", full[i].name);
            mc::state(hex(h));
            if (i % 100 == 0)
                mc::sample("manifest " + std::to_string(k) + " altered: " + full[i].name + " hash " + H16(h));
        });
        auto optional = [](const Alt &a) { return a.name.find("absent") != string::npos || a.name.find("empty") != string::npos || a.name.find("none") != string::npos || a.name.find("only") != string::npos; };
        size_t s = quick ? 12 : 1;
        mc::for_all("pairs" + std::to_string(k), coarse.size(), [&](uint64_t i) {
            std::map<string, string> seen;
            for (size_t j = 0; j < coarse.size(); j++) {
                if ((i + j) % s && !(optional(coarse[i]) && optional(coarse[j])))
                    continue;
                ManM m = b;
                coarse[i].f(m);
                coarse[j].f(m);
                string w = coarse[i].name + ", " + coarse[j].name;
                mc::desc("pairs" + std::to_string(k) + " " + w);
                Z h = check(m, w);
                auto c = content(m);
                auto r = seen.emplace(hex(h), c);
                mc::expect(r.second || r.first->second == c, "two manifests have the same hash", w);
                mc::state(hex(h));
            }
        });
    }
    // contest and selection order is part of the hash
    {
        auto m = rich();
        m.cons.push_back(contest("k3", "u1", 9, 1, 1, {0, 1, 2}));
        vector<size_t> p = {0, 1, 2};
        vector<ManM> all;
        do {
            ManM x = m;
            for (int i = 0; i < 3; i++)
                x.cons[i] = m.cons[p[i]];
            vector<size_t> q = {0, 1, 2};
            do {
                ManM y = x;
                for (auto &c : y.cons)
                    if (c.sels.size() == 3) {
                        auto o = c.sels;
                        for (int i = 0; i < 3; i++)
                            c.sels[i] = o[q[i]];
                    }
                all.push_back(y);
            } while (std::next_permutation(q.begin(), q.end()));
        } while (std::next_permutation(p.begin(), p.end()));
        mc::for_all("orders", all.size(), [&](uint64_t i) {
            Z h = check(all[i], "orders " + std::to_string(i));
            for (size_t j = 0; j < i; j++)
                mc::expect(h != all[j].hz(), "the hash does not depend on the order of contests and selections", std::to_string(i));
            mc::state(hex(h));
        });
    }
    // contest shapes: seats x numberings, and units named more than once
    {
        vector<ManM> all;
        vector<vector<uint64_t>> seqs = {{}, {0}, {7}, {0, 1}, {1, 0}, {3, 9, 4}, {0, 4294967295ull}, {4294967296ull, 2}, {99, 9, 10}, {9223372036854775807ull, 0}, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}};
        for (auto &q : seqs)
            for (uint64_t n = 0; n <= 12; n++)
                for (auto id : {"con", "con-1", "1", "\xc3\xa9"})
                    for (uint64_t a : {(uint64_t)0, n, n + 5})
                        for (auto units : vector<vector<string>>{{"u"}, {"u", "u"}, {"x", "u"}, {"x"}}) {
                            ManM m;
                            m.units = {{"u", "u"}, {"x", "x"}};
                            auto c = contest(id, "u", q.size(), n, a, q, (int)(n % 13)), d = contest(string(id) + "-2", "u", 0, 1, 1, {0, 1});
                            if (c.seq == 0)
                                c.seq = 40;
                            m.cons = {c, d};
                            m.styles = {{"style", units}};
                            addCandidates(m);
                            all.push_back(m);
                        }
        mc::for_all("shapes", (all.size() + 15) / 16, [&](uint64_t i) {
            for (size_t k = i * 16; k < all.size() && k < (i + 1) * 16; k++) {
                mc::desc("shapes " + all[k].cons[0].str());
                mc::state(hex(check(all[k], all[k].cons[0].str() + all[k].styles[0].str())));
            }
        });
    }
    // shorter constructors
    mc::for_all("constructors", 1, [&](uint64_t) {
        auto eq = [&](eg::CryptoHashable &x, const string &h, const string &w) {
            mc::step();
            mc::expect(hex(ref::val(*x.crypto_hash())) == h, "hash of an object made by a shorter constructor", w);
        };
        eg::Manifest man("s", eg::ElectionType::special, std::chrono::system_clock::from_time_t(5), std::chrono::system_clock::from_time_t(6), {}, {}, {}, {}, {});
        ManM mm;
        mm.scope = "s", mm.type = 6, mm.start = 5, mm.end = 6;
        eq(man, hex(mm.hz()), "manifest");
        eg::BallotStyle bs("b", {"u", "v"});
        eq(bs, StyleM{"b", {"u", "v"}}.h(), "style");
        eg::ContactInformation ci("name"), cj({"a", "b"}, "name");
        ContactM c;
        c.name = "name";
        eq(ci, c.h(), "contact with a name");
        c.address = {"a", "b"};
        eq(cj, c.h(), "contact with an address");
        eg::ContactInformation ck({"a", "b"}, buildA({{"p", "1"}}), "name");
        c.phone = {{"p", "1"}};
        eq(ck, c.h(), "contact with a phone");
        eg::GeopoliticalUnit gu("u", "n", eg::ReportingUnitType::water);
        eq(gu, UnitM{"u", "n", 27}.h(), "unit");
        for (int v = 0; v < 13; v++) {
            auto w = contest("k", "d", 3, 2, v == 1 || v == 6 ? 2 : 0, {0, 1, 2}, v);
            eg::ContestDescription cd("k", "d", 3, (eg::VoteVariationType)v, 2, w.name, w.buildSels());
            eq(cd, w.h(), "contest");
            mc::expect(ConM::read(cd).str() == w.str(), "contest made by a shorter constructor", w.str());
        }
    });
    // base hashes bind the parameters of the election; a session needs matching hashes
    {
        vector<uint64_t> ns = {0, 1, 2, 3, 5, 10, 255, 4294967296ull};
        vector<Z> hs = {0, 1, 2, ref::Q() - 1, (Z(1) << 248) - 1, Z(1) << 200};
        Z k = ref::powm(ref::G(), 3);
        std::map<string, string> seen;
        mc::for_all("contexts", ns.size(), [&](uint64_t i) {
            for (auto q : ns)
                for (auto &mh : hs)
                    for (auto &ch : hs) {
                        Z base = H({ref::S(ref::P()), ref::S(ref::Q()), ref::S(ref::G()), ref::S(ns[i]), ref::S(q), ref::S(mh)});
                        Z ext = H({ref::S(base), ref::S(ch)});
                        string w = std::to_string(ns[i]) + " guardians, quorum " + std::to_string(q);
                        for (int form = 0; form < 5; form++) {
                            std::unordered_map<string, string> data{{"a", "b"}};
                            auto cfg = make_unique<eg::ContextConfiguration>(false, 77);
                            auto c = form == 0 ? eg::CiphertextElectionContext::make(ns[i], q, ref::mkP(k), ref::mkQ(ch), ref::mkQ(mh))
                                   : form == 1 ? eg::CiphertextElectionContext::make(ns[i], q, ref::mkP(k), ref::mkQ(ch), ref::mkQ(mh), std::move(cfg))
                                   : form == 2 ? eg::CiphertextElectionContext::make(ns[i], q, ref::mkP(k), ref::mkQ(ch), ref::mkQ(mh), data)
                                   : form == 3 ? eg::CiphertextElectionContext::make(ns[i], q, ref::mkP(k), ref::mkQ(ch), ref::mkQ(mh), std::move(cfg), data)
                                               : eg::CiphertextElectionContext::make(ns[i], q, ref::mkP(k), ref::mkQ(ch), ref::mkQ(mh), std::move(cfg), {});
                            mc::step();
                            mc::expect(ref::val(*c->getCryptoBaseHash()) == base, "the base hash differs from its definition", w);
                            mc::expect(ref::val(*c->getCryptoExtendedBaseHash()) == ext, "the extended base hash differs from its definition", w);
                            mc::expect(c->getNumberOfGuardians() == ns[i] && c->getQuorum() == q && ref::val(*c->getElGamalPublicKey()) == k && ref::val(*c->getCommitmentHash()) == ch && ref::val(*c->getManifestHash()) == mh, "the context does not contain what it was made of", w);
                            bool cfgd = form == 1 || form >= 3;
                            mc::expect(c->getConfiguration()->getAllowOverVotes() == !cfgd && (!cfgd || c->getConfiguration()->getMaxNumberOfBallots() == 77), "configuration of the context", w);
                            mc::expect((c->getExtendedData().size() == 1) == (form == 2 || form == 3), "extended data of the context", w);
                            mc::state(hex(ext));
                        }
                    }
        });
        auto m = rich();
        Election el(m);
        eg::EncryptionDevice dev(1, 2, 3, "here");
        auto alts = alterations(m, false);
        mc::for_all("sessions", alts.size(), [&](uint64_t i) {
            ManM x = m;
            alts[i].f(x);
            eg::InternalManifest in(*x.build());
            bool same = x.hz() == el.mhash, refused = false;
            try {
                eg::EncryptionMediator me(in, *el.context, dev);
            } catch (const std::exception &) {
                refused = true;
            }
            mc::step();
            mc::expect(refused == !same, same ? "a session with the right manifest is refused" : "a session with another manifest is not refused", alts[i].name);
        });
        // hashes that differ from the right one in one bit
        mc::for_all("hash bits", 256, [&](uint64_t i) {
            Z h = el.mhash ^ (Z(1) << (unsigned)i);
            if (h >= ref::Q())
                return;
            auto c = eg::CiphertextElectionContext::make(1, 1, ref::mkP(k), ref::mkQ(7), ref::mkQ(h));
            bool refused = false;
            try {
                eg::EncryptionMediator me(*el.internal, *c, dev);
            } catch (const std::exception &) {
                refused = true;
            }
            mc::expect(refused, "a session with another manifest hash is not refused", std::to_string(i));
            mc::state("bit" + std::to_string(i));
        });
    }
    return mc::finish();
}
