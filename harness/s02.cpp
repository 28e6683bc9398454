// S02: plaintext, encrypted, submitted and compact ballots over alphabets of
// texts, integers, elements and byte strings (with and without leading zeros),
// written and read back in every format; genuine ballots are verified and
// decrypted after the round trip.
#include "mc.hpp"
#include "dto.hpp"
#include "spaces.hpp"
using namespace space;
using dto::Ball;
using nlohmann::json;
typedef vector<uint8_t> Bytes;
static const uint64_t BSONMAX = 9223372036854775807ull;

// writes x in every format, reads it back and hands the result to `same`
template <typename T, typename Same>
static void formats(const string &kind, const string &what, const T &x, bool big, bool withNonces, Same same)
{
    auto json_ = [&] {
        if constexpr (std::is_same_v<T, eg::CiphertextBallot>)
            return x.toJson(withNonces);
        else
            return x.toJson();
    };
    auto bson_ = [&] {
        if constexpr (std::is_same_v<T, eg::CiphertextBallot>)
            return x.toBson(withNonces);
        else
            return x.toBson();
    };
    auto pack_ = [&] {
        if constexpr (std::is_same_v<T, eg::CiphertextBallot>)
            return x.toMsgPack(withNonces);
        else
            return x.toMsgPack();
    };
    for (int f = 0; f < 3; f++) {
        const char *name = f == 0 ? "JSON" : f == 1 ? "BSON" : "MessagePack";
        unique_ptr<T> r;
        json doc, doc2;
        try {
            if (f == 0) {
                auto s = json_();
                doc = json::parse(s);
                r = T::fromJson(s);
                doc2 = [&] { if constexpr (std::is_same_v<T, eg::CiphertextBallot>) return json::parse(r->toJson(withNonces)); else return json::parse(r->toJson()); }();
            } else if (f == 1) {
                auto s = bson_();
                doc = json::from_bson(s);
                r = T::fromBson(s);
                doc2 = [&] { if constexpr (std::is_same_v<T, eg::CiphertextBallot>) return json::from_bson(r->toBson(withNonces)); else return json::from_bson(r->toBson()); }();
            } else {
                auto s = pack_();
                doc = json::from_msgpack(s);
                r = T::fromMsgPack(s);
                doc2 = [&] { if constexpr (std::is_same_v<T, eg::CiphertextBallot>) return json::from_msgpack(r->toMsgPack(withNonces)); else return json::from_msgpack(r->toMsgPack()); }();
            }
        } catch (const std::exception &e) {
            // BSON has no unsigned 64-bit integers: larger ones are refused
            if (!(f == 1 && big))
                mc::fail("a written " + kind + " cannot be read back", string(name) + " " + what + " :: " + string(e.what()).substr(0, 150));
            continue;
        }
        mc::step();
        mc::expect(doc == doc2, "a " + kind + " read back is written differently", string(name) + " " + what);
        mc::expect(doc == json::parse(json_()), "the formats of a " + kind + " disagree", string(name) + " " + what);
        same(*r, string(name) + " " + what);
    }
}

static void roundtrip(const Ball &b, const string &what)
{
    bool big = b.timestamp > BSONMAX;
    for (auto &c : b.cons) {
        big |= c.seq > BSONMAX || (c.proof && c.proof->L > BSONMAX);
        for (auto &s : c.sels)
            big |= s.seq > BSONMAX;
    }
    for (bool nonces : {true, false}) {
        auto o = b.build();
        formats("encrypted ballot", what, *o, big, nonces, [&](eg::CiphertextBallot &r, const string &w) {
            auto g = Ball::read(r);
            mc::expect(g.str(nonces) == b.str(nonces), "an encrypted ballot read back has other content", w + (nonces ? " with nonces" : ""));
        });
    }
    for (auto st : {eg::BallotBoxState::cast, eg::BallotBoxState::spoiled, eg::BallotBoxState::unknown}) {
        auto o = b.buildSubmitted(st);
        formats("submitted ballot", what, *o, big, false, [&](eg::SubmittedBallot &r, const string &w) {
            mc::expect(Ball::read(r).str(false) == b.str(false), "a submitted ballot read back has other content", w);
            mc::expect(r.getState() == st, "a submitted ballot read back has another state", w + " " + std::to_string((int)st));
        });
    }
    mc::state(b.str());
}

// every field of a ballot, by name
struct Field {
    string name;
    std::function<void(Ball &, const Z &)> q;          // exponent-sized
    std::function<void(Ball &, const Z &)> p;          // group-sized
    std::function<void(Ball &, uint64_t)> n;           // integer
    std::function<void(Ball &, const string &)> t;     // text
    std::function<void(Ball &, const Bytes &)> b;      // bytes
};
static vector<Field> fields()
{
    vector<Field> v;
    auto q = [&](const string &n, std::function<void(Ball &, const Z &)> f) { Field x; x.name = n; x.q = f; v.push_back(x); };
    auto p = [&](const string &n, std::function<void(Ball &, const Z &)> f) { Field x; x.name = n; x.p = f; v.push_back(x); };
    auto i = [&](const string &n, std::function<void(Ball &, uint64_t)> f) { Field x; x.name = n; x.n = f; v.push_back(x); };
    auto t = [&](const string &n, std::function<void(Ball &, const string &)> f) { Field x; x.name = n; x.t = f; v.push_back(x); };
    auto d = [&](const string &n, std::function<void(Ball &, const Bytes &)> f) { Field x; x.name = n; x.b = f; v.push_back(x); };
    t("ballot id", [](Ball &b, const string &s) { b.id = s; });
    t("style id", [](Ball &b, const string &s) { b.style = s; });
    q("manifest hash", [](Ball &b, const Z &z) { b.manifest = z; });
    q("code seed", [](Ball &b, const Z &z) { b.codeSeed = z; });
    q("code", [](Ball &b, const Z &z) { b.code = z; });
    q("nonce", [](Ball &b, const Z &z) { b.nonce = z; });
    q("hash", [](Ball &b, const Z &z) { b.hash = z; });
    i("timestamp", [](Ball &b, uint64_t z) { b.timestamp = z; });
    for (size_t k = 0; k < 2; k++) {
        string n = "contest " + std::to_string(k);
        t(n + " id", [=](Ball &b, const string &s) { b.cons[k].id = s; });
        i(n + " sequence", [=](Ball &b, uint64_t z) { b.cons[k].seq = z; });
        q(n + " description", [=](Ball &b, const Z &z) { b.cons[k].desc = z; });
        q(n + " nonce", [=](Ball &b, const Z &z) { b.cons[k].nonce = z; });
        q(n + " hash", [=](Ball &b, const Z &z) { b.cons[k].hash = z; });
        p(n + " accumulation pad", [=](Ball &b, const Z &z) { b.cons[k].acc.a = z; });
        p(n + " accumulation data", [=](Ball &b, const Z &z) { b.cons[k].acc.b = z; });
        p(n + " proof pad", [=](Ball &b, const Z &z) { b.cons[k].proof->a = z; });
        p(n + " proof data", [=](Ball &b, const Z &z) { b.cons[k].proof->b = z; });
        q(n + " proof challenge", [=](Ball &b, const Z &z) { b.cons[k].proof->c = z; });
        q(n + " proof response", [=](Ball &b, const Z &z) { b.cons[k].proof->v = z; });
        i(n + " proof constant", [=](Ball &b, uint64_t z) { b.cons[k].proof->L = z; });
        p(n + " extended pad", [=](Ball &b, const Z &z) { b.cons[k].ext->pad = z; });
        d(n + " extended data", [=](Ball &b, const Bytes &z) { b.cons[k].ext->data = z; });
        d(n + " extended mac", [=](Ball &b, const Bytes &z) { b.cons[k].ext->mac = z; });
        for (size_t m = 0; m < 2; m++) {
            string s = n + " selection " + std::to_string(m);
            t(s + " id", [=](Ball &b, const string &z) { b.cons[k].sels[m].id = z; });
            i(s + " sequence", [=](Ball &b, uint64_t z) { b.cons[k].sels[m].seq = z; });
            q(s + " description", [=](Ball &b, const Z &z) { b.cons[k].sels[m].desc = z; });
            q(s + " nonce", [=](Ball &b, const Z &z) { b.cons[k].sels[m].nonce = z; });
            q(s + " hash", [=](Ball &b, const Z &z) { b.cons[k].sels[m].hash = z; });
            i(s + " placeholder", [=](Ball &b, uint64_t z) { b.cons[k].sels[m].ph = z % 2; });
            p(s + " pad", [=](Ball &b, const Z &z) { b.cons[k].sels[m].ct.a = z; });
            p(s + " data", [=](Ball &b, const Z &z) { b.cons[k].sels[m].ct.b = z; });
            p(s + " proof zero pad", [=](Ball &b, const Z &z) { b.cons[k].sels[m].proof->a0 = z; });
            p(s + " proof zero data", [=](Ball &b, const Z &z) { b.cons[k].sels[m].proof->b0 = z; });
            p(s + " proof one pad", [=](Ball &b, const Z &z) { b.cons[k].sels[m].proof->a1 = z; });
            p(s + " proof one data", [=](Ball &b, const Z &z) { b.cons[k].sels[m].proof->b1 = z; });
            q(s + " proof zero challenge", [=](Ball &b, const Z &z) { b.cons[k].sels[m].proof->c0 = z; });
            q(s + " proof one challenge", [=](Ball &b, const Z &z) { b.cons[k].sels[m].proof->c1 = z; });
            q(s + " proof challenge", [=](Ball &b, const Z &z) { b.cons[k].sels[m].proof->c = z; });
            q(s + " proof zero response", [=](Ball &b, const Z &z) { b.cons[k].sels[m].proof->v0 = z; });
            q(s + " proof one response", [=](Ball &b, const Z &z) { b.cons[k].sels[m].proof->v1 = z; });
        }
    }
    return v;
}
// a ballot all of whose fields differ from each other
static Ball base()
{
    Ball b;
    b.id = "ballot";
    b.style = "style";
    b.timestamp = 1600000000;
    for (int k = 0; k < 2; k++) {
        dto::Con c;
        c.id = "contest" + std::to_string(k);
        c.seq = k;
        c.proof = rp::C{};
        c.ext = dto::HC{};
        for (int m = 0; m < 2; m++) {
            dto::Sel s;
            s.id = "selection" + std::to_string(m);
            s.seq = m;
            s.proof = rp::D{};
            c.sels.push_back(s);
        }
        b.cons.push_back(c);
    }
    Z z = 17;
    for (auto &f : fields()) {
        z = H({"f", ref::S(z)});
        if (f.q)
            f.q(b, z);
        if (f.p)
            f.p(b, ref::powm(ref::G(), z));
        if (f.b)
            f.b(b, ref::bytes(ref::powm(ref::G(), z), 512));
    }
    for (auto &c : b.cons) {
        c.ext->mac = ref::bytes((Z(1) << 255) + 77, 32);
        c.proof->L = 2;
        c.sels[1].ph = true;
    }
    return b;
}

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool quick = mc::opt().quick();
    vector<string> texts = {"", "x", "\"quoted\"", "back\\slash", "line\nbreak\ttab\r", string("\x01\x1f\x7f"), "\xc3\xa9\xf0\x9f\x97\xb3", "null", "0", "{}", "[1]", "true", " lead", "trail ", string(300, 'y'), "\\u0041", "'", string("a\0b", 3)};
    vector<uint64_t> ints = {0, 1, 2, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647ull, 2147483648ull, 4294967295ull, 4294967296ull, BSONMAX, BSONMAX + 1, ~0ull};
    vector<Z> qs = {0, 1, 9, 10, 15, 16, 255, 256, 4096, Z(1) << 64, (Z(1) << 244) + 1, (Z(1) << 247) + 3, (Z(1) << 248) - 1, (Z(1) << 248), (Z(1) << 251) + 9, (Z(1) << 252) - 1, ref::Q() - 1};
    vector<Z> ps = {0, 1, 2, 255, 256, Z(1) << 64, (Z(1) << 4080) + 5, (Z(1) << 4087), (Z(1) << 4088) - 1, (Z(1) << 4088) + 1, (Z(1) << 4092) - 1, ref::P() - 1};
    vector<Bytes> bs = {{0}, {0, 0}, {1}, {16}, {0, 1}, {0, 0, 0, 255}, {255, 0}, {1, 0, 0}, Bytes(512, 0), Bytes(512, 255), Bytes(32, 0), {}};
    for (size_t zeros : {1, 2, 3, 16, 31, 32, 33, 255, 511})
        for (uint8_t first : {0x01, 0x0f, 0x10, 0xff}) {
            Bytes x(512, 0x5a);
            std::fill(x.begin(), x.begin() + zeros, 0);
            x[zeros] = first;
            bs.push_back(x);
            if (zeros < 32) {
                Bytes y(32, 0xa5);
                std::fill(y.begin(), y.begin() + zeros, 0);
                y[zeros] = first;
                bs.push_back(y);
            }
        }
    for (int i = 0; i < 256; i += quick ? 5 : 1)
        bs.push_back({(uint8_t)i, (uint8_t)(255 - i)});

    // encrypted and submitted ballots: every field x every value
    auto fs = fields();
    mc::for_all("fields", fs.size(), [&](uint64_t i) {
        auto &f = fs[i];
        auto run = [&](const Ball &b, const string &v) {
            mc::desc("fields:" + std::to_string(i) + " " + f.name + " = " + v);
            roundtrip(b, f.name + " = " + v);
        };
        Ball b0 = base();
        roundtrip(b0, "base");
        if (f.q)
            for (auto &z : qs) {
                Ball b = b0;
                f.q(b, z);
                run(b, hex(z));
            }
        if (f.p)
            for (auto &z : ps) {
                Ball b = b0;
                f.p(b, z);
                run(b, hex(z).substr(0, 40));
            }
        if (f.n)
            for (auto z : ints) {
                Ball b = b0;
                f.n(b, z);
                run(b, std::to_string(z));
            }
        if (f.t)
            for (auto &z : texts) {
                Ball b = b0;
                f.t(b, z);
                run(b, z.substr(0, 40));
            }
        if (f.b)
            for (auto &z : bs) {
                Ball b = b0;
                f.b(b, z);
                run(b, ref::hexbytes(z).substr(0, 80) + " (" + std::to_string(z.size()) + ")");
            }
        if (i % 20 == 0)
            mc::sample(f.name + ": every value of its alphabet, written and read back in three formats");
    });
    // structures: numbers of contests and selections, list order
    mc::for_all("structures", 64, [&](uint64_t i) {
        Ball b = base();
        if (i & 1)
            b.cons.pop_back();
        if (i & 2)
            b.cons[0].sels.pop_back();
        if (i & 4)
            std::reverse(b.cons.begin(), b.cons.end());
        if (i & 8)
            std::reverse(b.cons[0].sels.begin(), b.cons[0].sels.end());
        if (i & 16)
            for (int k = 2; k < 12; k++) {
                auto s = b.cons[0].sels[0];
                s.seq = k;
                s.id += std::to_string(k);
                b.cons[0].sels.push_back(s);
            }
        if (i & 32)
            for (auto &c : b.cons)
                for (auto &s : c.sels)
                    s.id = "same", c.id = "same";
        roundtrip(b, "structure " + std::to_string(i));
    });
    // plaintext ballots
    {
        auto text = [](const Bal &b) { // with placeholder flags and full texts
            string s = b.id + "/" + b.style;
            for (auto &c : b.cons) {
                s += " [" + c.id + "]";
                for (auto &x : c.sels)
                    s += "(" + x.id + "=" + std::to_string(x.vote) + (x.ph ? "P" : "-") + "'" + x.writein + "')";
            }
            return s;
        };
        auto check = [&](const Bal &b) {
            bool big = false;
            for (auto &c : b.cons)
                for (auto &s : c.sels)
                    big |= s.vote > BSONMAX;
            auto o = b.build();
            formats("plaintext ballot", text(b).substr(0, 200), *o, big, false, [&](eg::PlaintextBallot &r, const string &w) {
                mc::expect(text(Bal::read(r)) == text(b), "a plaintext ballot read back has other content", w + " gives " + text(Bal::read(r)).substr(0, 200));
            });
            mc::state(text(b));
        };
        mc::for_all("plaintext", texts.size(), [&](uint64_t i) {
            for (auto &t : texts)
                for (auto v : ints)
                    for (bool ph : {false, true}) {
                        check({texts[i], "style", {{t, {{t, v, texts[i], ph}}}}});
                        check({"ballot", texts[i], {{"c", {{"s", 1, t, ph}, {t, v, "", !ph}, {texts[i], 0, "w", ph}}}, {t, {}}}});
                    }
            check({texts[i], texts[i], {}});
            check({texts[i], "s", {{texts[i], {}}}});
        });
        // compact forms
        auto ctext = [](const eg::CompactPlaintextBallot &b) {
            string s = b.getObjectId() + "/" + b.getStyleId();
            for (auto v : b.getSelections())
                s += "," + std::to_string(v);
            for (auto &w : b.getWriteIns())
                s += "'" + w + "'";
            return s;
        };
        mc::for_all("compact", texts.size(), [&](uint64_t i) {
            for (auto &t : texts)
                for (size_t k = 0; k < ints.size(); k++) {
                    auto mk = [&] {
                        vector<uint64_t> sel;
                        for (size_t j = 0; j < k % 5; j++)
                            sel.push_back(ints[(k + j) % ints.size()]);
                        vector<string> w(sel.size(), t);
                        if (!w.empty())
                            w[0] = texts[i];
                        return make_unique<eg::CompactPlaintextBallot>(texts[i], t, sel, w);
                    };
                    bool big = false;
                    for (auto v : mk()->getSelections())
                        big |= v > BSONMAX;
                    string want = ctext(*mk());
                    formats("compact ballot", want.substr(0, 200), *mk(), big, false, [&](eg::CompactPlaintextBallot &r, const string &w) {
                        mc::expect(ctext(r) == want, "a compact ballot read back has other content", w + " gives " + ctext(r).substr(0, 200));
                    });
                    mc::state("cp" + want);
                    for (auto st : {eg::BallotBoxState::cast, eg::BallotBoxState::spoiled, eg::BallotBoxState::unknown}) {
                        Z a = qs[k % qs.size()], b = qs[(k + i) % qs.size()], n = qs[(k + 5) % qs.size()];
                        uint64_t ts = ints[(k + i) % ints.size()];
                        eg::CompactCiphertextBallot o(mk(), st, ref::mkQ(a), ref::mkQ(b), ts, ref::mkQ(n));
                        formats("compact encrypted ballot", want.substr(0, 200), o, big || ts > BSONMAX, false, [&](eg::CompactCiphertextBallot &r, const string &w) {
                            mc::expect(ctext(*r.getPlaintext()) == want && r.getBallotBoxState() == st && ref::val(*r.getBallotCodeSeed()) == a && ref::val(*r.getBallotCode()) == b && ref::val(*r.getNonce()) == n && r.getTimestamp() == ts && r.getObjectId() == texts[i],
                                       "a compact encrypted ballot read back has other content", w + " ts " + std::to_string(ts));
                        });
                    }
                }
        });
    }
    // genuine ballots still verify, decrypt and hash after the round trip
    {
        Space s;
        shapes(s, 2, {-1, 1}, false);
        styles(s, false);
        identifiers(s);
        writeins(s);
        large(s, false);
        vector<unique_ptr<Election>> els;
        for (auto &m : s.men)
            els.push_back(make_unique<Election>(m));
        vector<Case> cases;
        for (size_t i = 0; i < s.cases.size(); i++)
            if (!expected(s.men[s.cases[i].e], els[s.cases[i].e]->mhash, s.cases[i].b, 3).refused && (i % (quick ? 9 : 1)) == 0)
                cases.push_back(s.cases[i]);
        mc::for_all("genuine", cases.size(), [&](uint64_t i) {
            auto &c = cases[i];
            auto &el = *els[c.e];
            auto b = c.b.build();
            auto r = eg::encryptBallot(*b, *el.internal, *el.context, *ref::mkQ(i + 3), ref::mkQ(H({"n", ref::S(i)})), 1600000000 + i, false);
            auto d = Ball::read(*r);
            roundtrip(d, c.b.str());
            unique_ptr<eg::CiphertextBallot> q;
            int f = i % 3;
            q = f == 0 ? eg::CiphertextBallot::fromJson(r->toJson(true)) : f == 1 ? eg::CiphertextBallot::fromBson(r->toBson(true)) : eg::CiphertextBallot::fromMsgPack(r->toMsgPack(true));
            mc::expect(q->isValidEncryption(*ref::mkQ(el.mhash), *el.context->getElGamalPublicKey(), *el.context->getCryptoExtendedBaseHash()), "an encrypted ballot read back does not verify", c.b.str());
            mc::expect(ref::val(*q->crypto_hash_with(*ref::mkQ(el.mhash))) == ref::val(*r->getCryptoHash()), "an encrypted ballot read back hashes differently", c.b.str());
            auto ks = q->getContests(), k0 = r->getContests();
            for (size_t j = 0; j < ks.size() && j < k0.size(); j++) {
                auto x = ks[j].get().getHashedElGamalCiphertext(), y = k0[j].get().getHashedElGamalCiphertext();
                mc::expect(x->decrypt(*ref::mkQ(el.secret), *ref::mkQ(el.ext), true) == y->decrypt(*ref::mkQ(el.secret), *ref::mkQ(el.ext), true), "extended data read back decrypts differently", c.b.str());
                auto ss = ks[j].get().getSelections(), s0 = k0[j].get().getSelections();
                for (size_t l = 0; l < ss.size() && l < s0.size(); l++)
                    mc::expect(el.dec(*ss[l].get().getCiphertext()) == el.dec(*s0[l].get().getCiphertext()) && ss[l].get().getObjectId() == s0[l].get().getObjectId(), "a selection read back decrypts differently", c.b.str());
            }
            mc::step();
        });
    }
    return mc::finish();
}
