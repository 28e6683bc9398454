// B02: the extended data of every encrypted contest, decrypted and compared with
// the record the model prescribes.
#include "mc.hpp"
#include "spaces.hpp"
using namespace space;
namespace eg = electionguard;
using nlohmann::json;

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool quick = mc::opt().quick();
    Space s;
    struct C {
        int e;
        Bal b;
        bool mayRefuse;
    };
    vector<C> cases;
    vector<string> texts = {"", "Ann", "\"quoted\"", "back\\slash", "line\nbreak\ttab", string("nul\0byte", 8),
                            "\x01\x1f", "\xc3\xa9\xe2\x82\xac\xf0\x9f\x97\xb3", "{\"error\":\"overvote\"}", "null", "</script>", " "};
    // every placement of write-in candidates x every vote vector x short texts
    for (int ns = 1; ns <= 3; ns++)
        for (int n = 1; n <= std::min(2, ns); n++)
            for (int w = 0; w < (1 << ns); w++) {
                vector<uint64_t> q;
                for (int i = 0; i < ns; i++)
                    q.push_back(ns - i + (w & 1));
                auto c = contest("con", "unit", 2, n, w % 2 ? n : n + 1, q);
                vector<string> ids;
                for (int i = 0; i < ns; i++)
                    if (w >> i & 1)
                        ids.push_back(c.sels[i].id);
                int e = (int)s.men.size();
                s.men.push_back(single(c, ids));
                // per selection: absent, 0, 0+text, 1, 1+text, 2+text
                product(vector<int>(ns, ns == 3 && quick ? 4 : 6), [&](const vector<int> &d) {
                    static const int map3[4] = {0, 2, 4, 5};
                    BCon k{c.id, {}};
                    for (int i = 0; i < ns; i++) {
                        int m = ns == 3 && quick ? map3[d[i]] : d[i];
                        if (m == 0)
                            continue;
                        uint64_t v = m <= 2 ? 0 : m <= 4 ? 1 : 2;
                        string t = m == 2 || m >= 4 ? "name " + std::to_string(i) : "";
                        k.sels.push_back({c.sels[i].id, v, t});
                    }
                    cases.push_back({e, {"ballot", "style", {k}}, false});
                });
            }
    // every special text on a marked write-in, an unmarked one, an ordinary selection, and overvoted
    {
        auto c = contest("con", "unit", 1, 1, 1, {0, 1, 2});
        int e = (int)s.men.size();
        s.men.push_back(single(c, {c.sels[1].id, c.sels[2].id}));
        for (auto &t : texts)
            for (auto &u : texts)
                for (int mode = 0; mode < 3; mode++) {
                    BCon k{c.id, {{c.sels[0].id, (uint64_t)(mode == 1), t}, {c.sels[1].id, mode != 1, t}, {c.sels[2].id, mode == 2, u}}};
                    cases.push_back({e, {"ballot", "style", {k}}, false});
                }
        // not valid UTF-8: may be refused, must not be altered
        for (auto t : {"\xff", "a\xc3", "\xed\xa0\x80", "\xf0\x9f"})
            cases.push_back({e, {"ballot", "style", {{c.id, {{c.sels[1].id, 1, t}}}}}, true});
        // every length, up to and beyond the bound
        for (int len = 0; len < (quick ? 560 : 1200); len++) {
            string t;
            for (int i = 0; i < len; i++)
                t += (char)('a' + (i * 7 + len) % 26);
            cases.push_back({e, {"ballot", "style", {{c.id, {{c.sels[1].id, 1, t}}}}}, false});
            if (len > 380 || len % 8 == 0)
                cases.push_back({e, {"ballot", "style", {{c.id, {{c.sels[0].id, 1, ""}, {c.sels[1].id, 1, t}}}}}, false});
        }
        // multi-byte characters across the bound
        for (int len = 440; len < 500; len++) {
            string t(len, 'x');
            for (int i = 0; i < 12; i++)
                t += "\xe2\x82\xac\"";
            cases.push_back({e, {"ballot", "style", {{c.id, {{c.sels[2].id, 1, t}}}}}, false});
        }
    }
    // many selections: long overvote lists, many write-ins, long identifiers
    for (int ns : {9, 10, 11, 12, 16, 17, 24})
        for (int idlen : {0, 3, 30, 60}) {
            vector<uint64_t> q;
            for (int i = 0; i < ns; i++)
                q.push_back(ns - i);
            auto c = contest("con", "unit", 2, ns / 2, ns / 2, q);
            vector<string> ids;
            for (int i = 0; i < ns; i++) {
                c.sels[i].id += string(idlen, 'a' + i % 26);
                if (i % 3 == 1)
                    ids.push_back(c.sels[i].id);
            }
            int e = (int)s.men.size();
            s.men.push_back(single(c, ids));
            for (int marked : {0, 1, ns / 2, ns / 2 + 1, ns - 1, ns})
                for (int text = 0; text < 3; text++) {
                    BCon k{c.id, {}};
                    for (int i = 0; i < ns; i++)
                        k.sels.push_back({c.sels[i].id, (uint64_t)((i * 7) % ns < marked), text == 0 ? "" : text == 1 ? "w" + std::to_string(i) : "write-in number " + std::to_string(i) + " \"of\" all"});
                    cases.push_back({e, {"ballot", "style", {k}}, false});
                }
        }
    // two contests: each record belongs to its own contest
    {
        ManM m;
        m.units = {{"u", "n"}};
        m.styles = {{"style", {"u"}}};
        m.cons = {contest("a", "u", 9, 1, 1, {0, 1}), contest("b", "u", 4, 1, 1, {1, 0})};
        // the same selection ids in both contests
        for (auto &c : m.cons)
            for (int i = 0; i < 2; i++)
                c.sels[i].id = "s" + std::to_string(i);
        addCandidates(m);
        m.cands[0].writein = true; // a-s0
        m.cands[3].writein = true; // b-s1
        int e = (int)s.men.size();
        s.men.push_back(m);
        product({3, 3, 3, 3}, [&](const vector<int> &d) {
            Bal b{"ballot", "style", {}};
            for (int k = 0; k < 2; k++) {
                BCon c{m.cons[k].id, {}};
                for (int i = 0; i < 2; i++)
                    if (d[2 * k + i])
                        c.sels.push_back({m.cons[k].sels[i].id, (uint64_t)d[2 * k + i] - 1, "w" + std::to_string(2 * k + i)});
                b.cons.push_back(c);
            }
            cases.push_back({e, b, false});
        });
    }
    vector<unique_ptr<Election>> els;
    for (size_t i = 0; i < s.men.size(); i++)
        els.push_back(make_unique<Election>(s.men[i], i % 8 == 3 ? ref::Q() - 3 : Z(65537)));
    eg::G();
    mc::note("elections", std::to_string(els.size()));
    auto seed = ref::mkQ(12345);
    mc::for_all("records", cases.size(), [&](uint64_t i) {
        auto &c = cases[i];
        auto &el = *els[c.e];
        string a = "e" + std::to_string(c.e) + " " + c.b.str();
        Z nonce = H({"nonce", ref::S((uint64_t)i)});
        auto x = expected(el.man, el.mhash, c.b, nonce);
        mc::step();
        mc::state(a);
        if (i % 499 == 0)
            mc::sample(a);
        auto b = c.b.build();
        unique_ptr<eg::CiphertextBallot> r;
        try {
            r = eg::encryptBallot(*b, *el.internal, *el.context, *seed, ref::mkQ(nonce), 1000 + i, false);
        } catch (const std::exception &ex) {
            mc::expect(x.refused || c.mayRefuse, "a ballot with write-ins or an overvote is refused", a + " " + ex.what());
            return;
        }
        if (x.refused)
            return; // B01
        auto cs = r->getContests();
        for (size_t k = 0; k < cs.size() && k < x.cons.size(); k++) {
            auto hc = cs[k].get().getHashedElGamalCiphertext();
            mc::step();
            if (!hc) {
                mc::fail("contest has no extended data", a);
                continue;
            }
            mc::expect(hc->getData().size() == 512, "extended data has a length of its own", a + " " + std::to_string(hc->getData().size()));
            vector<uint8_t> plain;
            try {
                plain = hc->decrypt(*ref::mkQ(el.secret), *ref::mkQ(el.ext), true);
            } catch (const std::exception &ex) {
                mc::fail("extended data does not decrypt", a + " " + ex.what());
                continue;
            }
            string got(plain.begin(), plain.end());
            json want = x.cons[k].record();
            bool ov = x.cons[k].overvote;
            string kind = ov ? (x.cons[k].writeins.empty() ? "overvote" : "overvote with write-ins") : x.cons[k].writeins.empty() ? "neither overvote nor write-in" : "write-in";
            if (want.is_null()) {
                mc::expect(got.empty(), "record of a contest with " + kind + " is not empty", a + " got " + got);
                continue;
            }
            if (c.mayRefuse)
                continue;
            string full = want.dump();
            if (full.size() > 510) {
                mc::expect(got == full.substr(0, 510), "record longer than the bound is not cut to it", a + " got " + std::to_string(got.size()));
                continue;
            }
            // (the parser takes a NUL for the end of the text)
            json j = got.find('\0') == string::npos ? json::parse(got, nullptr, false) : json(json::value_t::discarded);
            mc::expect(!j.is_discarded() && j == want, "record of a contest with " + kind + " is wrong", a + " got " + got + " want " + full);
        }
    });
    return mc::finish();
}
