// S01: every single alteration of rich and lean manifests, and all pairs of
// alterations of optional parts, written and read back in every format;
// contexts and devices over all boundary values.
#include "mc.hpp"
#include "variants.hpp"
using namespace space;
using nlohmann::json;
typedef vector<uint8_t> Bytes;
static const char *OUTOFORDER = "contests or selections listed out of sequence order: the hash changes";
static ManM sorted(ManM m)
{
    m.cons = bySeq(m.cons);
    for (auto &c : m.cons)
        c.sels = bySeq(c.sels);
    return m;
}
static bool distinct(const ManM &m)
{
    std::set<uint64_t> q;
    for (auto &c : m.cons) {
        if (!q.insert(c.seq).second)
            return false;
        std::set<uint64_t> s;
        for (auto &x : c.sels)
            if (!s.insert(x.seq).second)
                return false;
    }
    return true;
}
static string inside(const eg::InternalManifest &m)
{
    string s = hex(ref::val(*m.getManifestHash()));
    for (auto c : m.getContests()) {
        s += ConM::read(c.get()).str() + (c.get().isValid() ? "v" : "i") + "(";
        for (auto p : c.get().getPlaceholders())
            s += SelM::read(p.get()).str();
        s += ")";
    }
    for (auto u : m.getGeopoliticalUnits())
        s += UnitM::read(u.get()).str();
    for (auto u : m.getCandidates())
        s += CandM::read(u.get()).str();
    for (auto u : m.getBallotStyles())
        s += StyleM::read(u.get()).str();
    return s;
}
template <typename F> static auto quietly(const string &key, const string &what, F f) -> decltype(f())
{
    try {
        return f();
    } catch (const std::exception &e) {
        mc::fail(key, what + " :: " + string(e.what()).substr(0, 200));
        return nullptr;
    }
}
// hashes of contests, in sequence order
static vector<Z> contestHashes(const vector<ConM> &v)
{
    vector<Z> r;
    for (auto &c : bySeq(v))
        r.push_back(c.hz());
    return r;
}
static void check(const ManM &m, const string &what)
{
    if (!distinct(m))
        return;
    auto o = m.build();
    ManM so = sorted(m);
    Z hm = m.hz(), hs = so.hz();
    static const char *fmt[] = {"JSON", "BSON", "MessagePack"};
    json doc[3], idoc[3];
    for (int f = 0; f < 3; f++) {
        string w = string(fmt[f]) + " " + what;
        string text;
        Bytes bytes;
        quietly("a manifest cannot be written", w, [&]() -> const char * {
            if (f == 0)
                text = o->toJson(), doc[0] = json::parse(text);
            if (f == 1)
                bytes = o->toBson(), doc[1] = json::from_bson(bytes);
            if (f == 2)
                bytes = o->toMsgPack(), doc[2] = json::from_msgpack(bytes);
            return "";
        });
        mc::step();
        auto r = quietly("a written manifest cannot be read back", w, [&] { return f == 0 ? eg::Manifest::fromJson(text) : f == 1 ? eg::Manifest::fromBson(bytes) : eg::Manifest::fromMsgPack(bytes); });
        if (!r)
            continue;
        auto got = ManM::read(*r);
        mc::expect(got.str() == m.str(), "a manifest read back has other content", w + " " + got.str() + " for " + m.str());
        Z h = ref::val(*r->crypto_hash());
        if (hm == hs)
            mc::expect(h == hm, "a manifest read back has another hash", w);
        else {
            mc::expect(h == hs, "a manifest listed out of sequence order reads back with an unexpected hash", w);
            mc::fail(OUTOFORDER, w);
        }
        mc::expect(r->isValid() == o->isValid(), "a manifest read back has another validity", w);
        mc::expect((f == 0 ? json::parse(r->toJson()) : f == 1 ? json::from_bson(r->toBson()) : json::from_msgpack(r->toMsgPack())) == doc[f], "a manifest read back is written differently", w);
        mc::expect(doc[f] == doc[0], "the formats contain different manifests", w);
        mc::state(hex(h) + fmt[f]);
    }
    // the internal manifest
    eg::InternalManifest in(*o);
    string want = inside(in);
    for (int f = 0; f < 3; f++) {
        string w = string(fmt[f]) + " " + what;
        string text;
        Bytes bytes;
        quietly("an internal manifest cannot be written", w, [&]() -> const char * {
            if (f == 0)
                text = in.toJson(), idoc[0] = json::parse(text);
            if (f == 1)
                bytes = in.toBson(), idoc[1] = json::from_bson(bytes);
            if (f == 2)
                bytes = in.toMsgPack(), idoc[2] = json::from_msgpack(bytes);
            return "";
        });
        mc::step();
        auto r = quietly("a written internal manifest cannot be read back", w, [&] { return f == 0 ? eg::InternalManifest::fromJson(text) : f == 1 ? eg::InternalManifest::fromBson(bytes) : eg::InternalManifest::fromMsgPack(bytes); });
        if (!r)
            continue;
        mc::expect(inside(*r) == want, "an internal manifest read back has other content", w + " " + inside(*r) + " for " + want);
        auto cs = r->getContests();
        auto wantH = contestHashes(m.cons), sortH = contestHashes(so.cons);
        for (size_t i = 0; i < cs.size() && i < wantH.size(); i++) {
            Z h = ref::val(*cs[i].get().crypto_hash());
            if (wantH[i] == sortH[i])
                mc::expect(h == wantH[i], "a contest read back has another hash", w);
            else {
                mc::expect(h == sortH[i], "a contest listed out of sequence order reads back with an unexpected hash", w);
                mc::fail(OUTOFORDER, w);
            }
        }
        mc::expect((f == 0 ? json::parse(r->toJson()) : f == 1 ? json::from_bson(r->toBson()) : json::from_msgpack(r->toMsgPack())) == idoc[f], "an internal manifest read back is written differently", w);
        mc::expect(idoc[f] == idoc[0], "the formats contain different internal manifests", w);
    }
}
int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool quick = mc::opt().quick();
    vector<ManM> bases = {rich(), lean(), sorted(styled())};
    for (size_t k = 0; k < bases.size(); k++) {
        auto b = bases[k];
        auto full = alterations(b, true), coarse = alterations(b, false);
        mc::note("alterations of manifest " + std::to_string(k), std::to_string(full.size()));
        mc::for_all("singles" + std::to_string(k), full.size() + 1, [&](uint64_t i) {
            ManM m = b;
            string n = i < full.size() ? full[i].name : "unaltered";
            if (i < full.size())
                full[i].f(m);
            mc::desc("singles" + std::to_string(k) + " " + n);
            check(m, n);
            if (i % 150 == 0)
                mc::sample("manifest " + std::to_string(k) + ", " + n + ": written and read back in three formats");
        });
        auto optional = [](const Alt &a) { return a.name.find("absent") != string::npos || a.name.find("empty") != string::npos || a.name.find("none") != string::npos || a.name.find("only") != string::npos || a.name.find("allowed 0") != string::npos; };
        size_t s = quick ? 24 : 1;
        mc::for_all("pairs" + std::to_string(k), coarse.size(), [&](uint64_t i) {
            for (size_t j = i + 1; j < coarse.size(); j++) {
                if ((i + j) % s && !(optional(coarse[i]) && optional(coarse[j])))
                    continue;
                ManM m = b;
                coarse[i].f(m);
                coarse[j].f(m);
                string w = coarse[i].name + ", " + coarse[j].name;
                mc::desc("pairs" + std::to_string(k) + " " + w);
                check(m, w);
            }
        });
    }
    // names left out altogether
    mc::for_all("left-out names", 8, [&](uint64_t i) {
        vector<unique_ptr<eg::Party>> ps;
        if (i & 1)
            ps.push_back(make_unique<eg::Party>("p", nullptr, "a", "b", "c"));
        else
            ps.push_back(i & 2 ? make_unique<eg::Party>("p") : make_unique<eg::Party>("p", "ab"));
        vector<unique_ptr<eg::Candidate>> cs;
        if (i & 4)
            cs.push_back(make_unique<eg::Candidate>("c", nullptr, "p", "uri", true));
        else
            cs.push_back(i & 2 ? make_unique<eg::Candidate>("c", true) : make_unique<eg::Candidate>("c", "p", false));
        eg::Manifest m("s", eg::ElectionType::general, {}, {}, {}, std::move(ps), std::move(cs), {}, {});
        auto obs = [](eg::Manifest &m) {
            auto c = m.getCandidates()[0];
            return ManM::read(m).str() + hex(ref::val(*m.crypto_hash())) + hex(ref::val(*c.get().crypto_hash()));
        };
        string want = obs(m);
        mc::expect(obs(*eg::Manifest::fromJson(m.toJson())) == want, "a party or candidate without a name reads back differently", want);
        mc::expect(obs(*eg::Manifest::fromBson(m.toBson())) == want, "a party or candidate without a name reads back differently", "BSON");
        mc::expect(obs(*eg::Manifest::fromMsgPack(m.toMsgPack())) == want, "a party or candidate without a name reads back differently", "MessagePack");
        mc::step(3);
        mc::state("names" + std::to_string(i));
    });
    // the time zone of the process has no influence
    mc::for_all("time zones", 4, [&](uint64_t i) {
        setenv("TZ", vector<const char *>{"UTC0", "EST5EDT,M3.2.0,M11.1.0", "XXX-14", "YYY12"}[i], 1);
        tzset();
        auto full = alterations(rich(), false);
        for (auto &a : full)
            if (a.name.substr(0, 3) == "sta" || a.name.substr(0, 3) == "end") {
                ManM m = rich();
                a.f(m);
                check(m, a.name + " in another time zone");
            }
    });
    // contexts
    {
        vector<uint64_t> ns = {0, 1, 5, 127, 128, 255, 256, 65536, 2147483647ull, 2147483648ull, 4294967295ull, 4294967296ull, 9223372036854775807ull, 9223372036854775808ull, ~0ull};
        vector<Z> qs = {0, 1, 15, 16, 255, 256, ref::Q() - 1, (Z(1) << 248) - 1, Z(1) << 64, (Z(1) << 252) + 5};
        vector<Z> ps = {2, ref::G(), ref::P() - 1, ref::powm(ref::G(), 12345), (Z(1) << 4088) - 3, Z(1) << 128};
        vector<std::unordered_map<string, string>> data = {{}, {{"a", "b"}}, {{"", ""}}, {{"k\"\\\n", "\xc3\xa9 \x01"}, {"null", "null"}, {"x", "1"}, {"nonce", "true"}}};
        mc::for_all("contexts", ns.size() * data.size(), [&](uint64_t i) {
            auto n = ns[i % ns.size()];
            auto &d = data[i / ns.size()];
            for (int v = 0; v < 40; v++) {
                uint64_t q = ns[(i + v) % ns.size()], max = ns[(i + 3 * v + 1) % ns.size()];
                Z z[4];
                for (int t = 0; t < 4; t++)
                    z[t] = qs[(v + t * 3 + i) % qs.size()];
                Z k = ps[v % ps.size()];
                auto c = make_unique<eg::CiphertextElectionContext>(n, q, ref::mkP(k), ref::mkQ(z[0]), ref::mkQ(z[1]), ref::mkQ(z[2]), ref::mkQ(z[3]), make_unique<eg::ContextConfiguration>(v % 2 == 0, max), d);
                auto obs = [](const eg::CiphertextElectionContext &c) {
                    string s = std::to_string(c.getNumberOfGuardians()) + "," + std::to_string(c.getQuorum()) + "," + hex(ref::val(*c.getElGamalPublicKey())) + "," + hex(ref::val(*c.getCommitmentHash())) + "," + hex(ref::val(*c.getManifestHash())) + "," + hex(ref::val(*c.getCryptoBaseHash())) + "," + hex(ref::val(*c.getCryptoExtendedBaseHash())) + "," + std::to_string(c.getConfiguration()->getMaxNumberOfBallots()) + (c.getConfiguration()->getAllowOverVotes() ? "o" : "-");
                    std::map<string, string> m;
                    for (auto &kv : c.getExtendedData())
                        m[kv.first] = kv.second;
                    for (auto &kv : m)
                        s += "|" + kv.first + "=" + kv.second;
                    return s;
                };
                string want = obs(*c);
                string w = "v" + std::to_string(v) + " " + want.substr(0, 60);
                auto r = quietly("a written context cannot be read back", w, [&] { return eg::CiphertextElectionContext::fromJson(c->toJson()); });
                mc::step();
                if (r) {
                    mc::expect(obs(*r) == want, "a context read back has other content", obs(*r) + " for " + want);
                    mc::expect(json::parse(r->toJson()) == json::parse(c->toJson()), "a context read back is written differently", w);
                    mc::expect(r->getElGamalPublicKey()->isFixedBase(), "the key of a context read back is not prepared for acceleration", w);
                }
                uint64_t big = std::max(n, std::max(q, max));
                try {
                    auto r2 = eg::CiphertextElectionContext::fromBson(c->toBson());
                    mc::expect(obs(*r2) == want, "a context read back has other content", "BSON " + obs(*r2) + " for " + want);
                } catch (const std::exception &e) {
                    // BSON has no unsigned 64-bit integers: larger ones are refused
                    mc::expect(big > 9223372036854775807ull, "a written context cannot be read back", string("BSON ") + e.what());
                }
                mc::step();
                mc::state(want);
            }
        });
        mc::for_all("context defaults", 1, [&](uint64_t) {
            for (int form = 0; form < 4; form++) {
                std::unordered_map<string, string> data{{"a", "b"}};
                auto cfg = make_unique<eg::ContextConfiguration>(false, 77);
                auto c = form == 0 ? eg::CiphertextElectionContext::make(3, 2, ref::mkP(4), ref::mkQ(5), ref::mkQ(6))
                       : form == 1 ? eg::CiphertextElectionContext::make(3, 2, ref::mkP(4), ref::mkQ(5), ref::mkQ(6), std::move(cfg))
                       : form == 2 ? eg::CiphertextElectionContext::make(3, 2, ref::mkP(4), ref::mkQ(5), ref::mkQ(6), data)
                                   : eg::CiphertextElectionContext::make(3, 2, ref::mkP(4), ref::mkQ(5), ref::mkQ(6), std::move(cfg), data);
                auto r = eg::CiphertextElectionContext::fromJson(c->toJson());
                mc::expect(r->getConfiguration()->getAllowOverVotes() == c->getConfiguration()->getAllowOverVotes() && r->getConfiguration()->getMaxNumberOfBallots() == c->getConfiguration()->getMaxNumberOfBallots() && r->getExtendedData() == c->getExtendedData(), "configuration of a context read back", std::to_string(form));
                mc::step();
            }
        });
        // devices
        vector<string> texts = {"", "polling-place", "\"\\\n\t\x01", "\xc3\xa9\xf0\x9f\x97\xb3", "null", "0", string(300, 'x'), " "};
        mc::for_all("devices", ns.size(), [&](uint64_t i) {
            for (auto b : ns)
                for (auto c : ns)
                    for (auto &t : texts) {
                        eg::EncryptionDevice d(ns[i], b, c, t);
                        auto obs = [](const eg::EncryptionDevice &d) { return std::to_string(d.getDeviceUuid()) + "," + std::to_string(d.getSessionUuid()) + "," + std::to_string(d.getLaunchCode()) + "," + d.getLocation() + "," + hex(ref::val(*d.getHash())); };
                        string want = obs(d);
                        auto r = quietly("a written device cannot be read back", want, [&] { return eg::EncryptionDevice::fromJson(d.toJson()); });
                        if (r)
                            mc::expect(obs(*r) == want, "a device read back has other content", obs(*r) + " for " + want);
                        mc::step();
                        try {
                            auto r2 = eg::EncryptionDevice::fromBson(d.toBson());
                            mc::expect(obs(*r2) == want, "a device read back has other content", "BSON " + obs(*r2) + " for " + want);
                        } catch (const std::exception &e) {
                            mc::expect(std::max(ns[i], std::max(b, c)) > 9223372036854775807ull, "a written device cannot be read back", string("BSON ") + e.what());
                        }
                        mc::state(want);
                    }
        });
    }
    return mc::finish();
}
