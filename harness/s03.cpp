// S03: every byte that leaves the library when a ballot is published or logged is
// searched for every secret value that went into the ballot.
#include "mc.hpp"
#include "refproof.hpp"
#include "spaces.hpp"
#include <electionguard/ballot.h>
#include <electionguard/elgamal.hpp>
#include <electionguard/hash.hpp>
#include <electionguard/nonces.hpp>
#include <electionguard/precompute_buffers.hpp>
#include <sys/mman.h>
#include <unordered_map>
using namespace space;
namespace eg = electionguard;
typedef vector<uint8_t> Bytes;

// ---- the search: 8 consecutive bytes of a secret, in either byte order, in binary,
// hexadecimal, base64 or as decimal numbers, or the whole value or one of its
// words in decimal
struct Secrets {
    std::unordered_map<uint64_t, int> win;
    std::unordered_map<string, int> dec;
    vector<string> names, texts;
    static uint64_t key(const uint8_t *p)
    {
        uint64_t k;
        memcpy(&k, p, 8);
        return k;
    }
    void add(const string &name, const Z &z)
    {
        if (z < Z("18446744073709551616"))
            return; // too small to be told from other numbers
        int id = (int)names.size();
        names.push_back(name);
        auto b = ref::bytes(z, 32);
        Bytes r(b.rbegin(), b.rend());
        for (auto *v : {&b, &r})
            for (size_t i = 0; i + 8 <= v->size(); i++) {
                int zeros = 0;
                for (int k = 0; k < 8; k++)
                    zeros += !(*v)[i + k];
                if (zeros < 3)
                    win.emplace(key(v->data() + i), id);
            }
        dec.emplace(z.get_str(), id);
        for (int i = 0; i < 4; i++) {
            Z w = (z >> (64 * i)) & Z("FFFFFFFFFFFFFFFF", 16);
            if (w > Z("281474976710655"))
                dec.emplace(w.get_str(), id);
        }
    }
    int scan(const Bytes &b) const
    {
        for (size_t i = 0; i + 8 <= b.size(); i++) {
            auto it = win.find(key(b.data() + i));
            if (it != win.end())
                return it->second;
        }
        return -1;
    }
    // the name of a secret found in s, or ""
    string find(const string &s) const
    {
        int f = scan(Bytes(s.begin(), s.end()));
        auto hexv = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; };
        auto b64v = [](char c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' || c == '-' ? 62 : c == '/' || c == '_' ? 63 : -1; };
        size_t n = s.size();
        for (size_t i = 0; i < n && f < 0;) {
            if (hexv(s[i]) < 0) {
                i++;
                continue;
            }
            size_t j = i;
            while (j < n && hexv(s[j]) >= 0)
                j++;
            for (int odd = 0; odd < 2 && f < 0 && j - i >= 16; odd++) {
                Bytes v;
                for (size_t k = i + odd; k + 1 < j; k += 2)
                    v.push_back((uint8_t)(hexv(s[k]) * 16 + hexv(s[k + 1])));
                f = scan(v);
            }
            i = j;
        }
        for (size_t i = 0; i < n && f < 0;) {
            if (b64v(s[i]) < 0) {
                i++;
                continue;
            }
            size_t j = i;
            while (j < n && b64v(s[j]) >= 0)
                j++;
            for (size_t off = 0; off < 4 && f < 0 && j - i >= 11; off++) {
                Bytes v;
                uint32_t acc = 0;
                int bits = 0;
                for (size_t k = i + off; k < j; k++) {
                    acc = acc << 6 | (uint32_t)b64v(s[k]);
                    bits += 6;
                    if (bits >= 8) {
                        bits -= 8;
                        v.push_back((uint8_t)(acc >> bits));
                    }
                }
                f = scan(v);
            }
            i = j;
        }
        // decimal numbers, and lists of small ones
        Bytes list;
        for (size_t i = 0; i < n && f < 0;) {
            if (!isdigit((uint8_t)s[i])) {
                if (!strchr(" ,[]\n", s[i])) {
                    f = scan(list);
                    list.clear();
                }
                i++;
                continue;
            }
            size_t j = i;
            while (j < n && isdigit((uint8_t)s[j]))
                j++;
            string d = s.substr(i, j - i);
            auto it = dec.find(d);
            if (it != dec.end())
                f = it->second;
            if (d.size() <= 3 && atoi(d.c_str()) < 256)
                list.push_back((uint8_t)atoi(d.c_str()));
            else
                list.clear();
            i = j;
        }
        if (f < 0)
            f = scan(list);
        if (f >= 0)
            return names[f];
        for (auto &t : texts)
            if (s.find(t) != string::npos)
                return "the text of a write-in";
        return "";
    }
};

// what is written to stdout and stderr while f runs
static string output(const std::function<void()> &f)
{
    fflush(stdout);
    fflush(stderr);
    int m = memfd_create("log", 0), o = dup(1), e = dup(2);
    dup2(m, 1);
    dup2(m, 2);
    try {
        f();
    } catch (const std::exception &) {
    }
    fflush(stdout);
    fflush(stderr);
    std::cout.flush();
    std::cerr.flush();
    dup2(o, 1);
    dup2(e, 2);
    close(o), close(e);
    off_t n = lseek(m, 0, SEEK_END);
    string s((size_t)n, 0);
    pread(m, &s[0], (size_t)n, 0);
    close(m);
    return s;
}

static string txt(const Bytes &b) { return string(b.begin(), b.end()); }

static void published(const Secrets &x, const string &form, const string &s, const string &what)
{
    mc::step();
    auto f = x.find(s);
    if (!f.empty())
        mc::fail("a published ballot contains a secret", form + ": " + f + " :: " + what);
    mc::expect(s.size() > 100, "a ballot is published without content", form + " " + what);
}
static void logged(const Secrets &x, const string &op, const string &s, const string &what)
{
    mc::step();
    auto f = x.find(s);
    if (!f.empty())
        mc::fail("the log contains a secret", op + ": " + f + " :: " + what);
}

// secrets recovered from the finished ballot: nonces it holds, aggregate nonces,
// and the random values inside its proofs
static void recover(Secrets &x, const eg::CiphertextBallot &c, const EBal *e)
{
    auto q = [](const Z &z) { return ref::mod(z, ref::Q()); };
    if (c.getNonce())
        x.add("the ballot nonce", ref::val(*c.getNonce()));
    size_t i = 0;
    for (auto &k : c.getContests()) {
        Z agg = 0;
        if (k.get().getNonce())
            x.add("a contest nonce", ref::val(*k.get().getNonce()));
        size_t j = 0;
        for (auto &s : k.get().getSelections()) {
            Z r = s.get().getNonce() ? ref::val(*s.get().getNonce()) : Z(0);
            if (r == 0 && e && i < e->cons.size() && j < e->cons[i].sels.size())
                r = e->cons[i].sels[j].nonce;
            x.add("a selection nonce", r);
            agg += r;
            auto p = rp::read(*s.get().getProof());
            x.add("a proof nonce", q(p.v0 - p.c0 * r));
            x.add("a proof nonce", q(p.v1 - p.c1 * r));
            j++;
        }
        auto p = rp::read(*k.get().getProof());
        x.add("the aggregate nonce of a contest", q(agg));
        x.add("a contest proof nonce", q(p.v - p.c * q(agg)));
        i++;
    }
}
static void model_secrets(Secrets &x, const Election &el, const EBal &e, const Z &nonce)
{
    x.add("the secret key", el.secret);
    x.add("the ballot nonce", nonce);
    x.add("the nonce seed", e.seed);
    for (auto &k : e.cons) {
        x.add("a contest nonce", k.nonce);
        x.add("a contest proof nonce", k.proofNonce);
        x.add("an extended data nonce", k.extNonce);
        for (auto &s : k.sels)
            x.add("a selection nonce", s.nonce);
        for (auto &w : k.writeins)
            if (w.second.size() > 7)
                x.texts.push_back(w.second);
    }
}

static void publish(const Secrets &x, const eg::CiphertextBallot &c, const string &what)
{
    published(x, "JSON", c.toJson(), what);
    published(x, "BSON", txt(c.toBson()), what);
    published(x, "MessagePack", txt(c.toMsgPack()), what);
    auto h = (eg_ciphertext_ballot_t *)&c;
    auto cform = [&](const string &name, eg_electionguard_status_t (*f)(eg_ciphertext_ballot_t *, uint8_t **, uint64_t *)) {
        uint8_t *d = nullptr;
        uint64_t n = 0;
        if (f(h, &d, &n) == ELECTIONGUARD_STATUS_SUCCESS)
            published(x, name, string((char *)d, n), what);
        else
            mc::fail("a ballot cannot be published", name + " " + what);
    };
    char *t = nullptr;
    uint64_t n = 0;
    if (eg_ciphertext_ballot_to_json(h, &t, &n) == ELECTIONGUARD_STATUS_SUCCESS)
        published(x, "C JSON", string(t), what);
    cform("C BSON", eg_ciphertext_ballot_to_bson);
    cform("C MessagePack", eg_ciphertext_ballot_to_msgpack);
    // submitted, in every state, and after having been read from a private document
    for (auto st : {eg::BallotBoxState::cast, eg::BallotBoxState::spoiled, eg::BallotBoxState::unknown}) {
        auto s = eg::SubmittedBallot::from(c, st);
        string w = what + " state " + std::to_string((int)st);
        published(x, "submitted JSON", s->toJson(), w);
        published(x, "submitted BSON", txt(s->toBson()), w);
        published(x, "submitted MessagePack", txt(s->toMsgPack()), w);
        // as a ciphertext ballot
        published(x, "submitted as encrypted JSON", s->CiphertextBallot::toJson(), w);
        auto sh = (eg_submitted_ballot_t *)s.get();
        char *j = nullptr;
        uint8_t *d = nullptr;
        if (eg_submitted_ballot_to_json(sh, &j, &n) == ELECTIONGUARD_STATUS_SUCCESS)
            published(x, "C submitted JSON", string(j), w);
        if (eg_submitted_ballot_to_bson(sh, &d, &n) == ELECTIONGUARD_STATUS_SUCCESS)
            published(x, "C submitted BSON", string((char *)d, n), w);
        if (eg_submitted_ballot_to_msgpack(sh, &d, &n) == ELECTIONGUARD_STATUS_SUCCESS)
            published(x, "C submitted MessagePack", string((char *)d, n), w);
    }
    {
        auto r = eg::CiphertextBallot::fromJson(c.toJson(true));
        published(x, "reread JSON", r->toJson(), what);
        auto r2 = eg::CiphertextBallot::fromMsgPack(c.toMsgPack(true));
        published(x, "reread MessagePack", txt(r2->toMsgPack()), what);
        auto r3 = eg::CiphertextBallot::fromBson(c.toBson(true));
        published(x, "reread BSON", txt(r3->toBson()), what);
        auto d = nlohmann::json::parse(c.toJson(true));
        d["state"] = 1;
        auto s = eg::SubmittedBallot::fromJson(d.dump());
        published(x, "submitted, reread JSON", s->toJson(), what);
        published(x, "submitted, reread BSON", txt(s->toBson()), what);
        published(x, "submitted, reread MessagePack", txt(s->toMsgPack()), what);
    }
    // the private form does contain them: the search is able to find them
    mc::expect(!x.find(c.toJson(true)).empty() && !x.find(txt(c.toBson(true))).empty() && !x.find(txt(c.toMsgPack(true))).empty(),
               "nonces that were asked for are missing", what);
}

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool quick = mc::opt().quick();
    Space s;
    shapes(s, 2, {-1, 0, 1, 2}, false);
    numberings(s);
    styles(s, false);
    identifiers(s);
    // write-ins
    {
        auto c = contest("con", "unit", 4, 1, 2, {0, 1, 2});
        ManM m = single(c);
        m.cands.clear();
        addCandidates(m, {"con-s1", "con-s2"});
        int e = (int)s.men.size();
        s.men.push_back(m);
        product({3, 3, 3}, [&](const vector<int> &d) {
            auto k = marks(m.cons[0], {d[0] - 1, d[1] - 1, d[2] - 1});
            for (auto &b : k.sels)
                b.writein = "Candidate of my own " + b.id;
            s.cases.push_back({e, {"ballot", "style", {k}}, "write-ins"});
        });
    }
    vector<unique_ptr<Election>> els;
    // a secret key that is long enough to be searched for
    Z sk = ref::H({"a secret key"});
    for (auto &m : s.men)
        els.push_back(make_unique<Election>(m, sk));
    vector<Z> nonces = {ref::H({"master", "1"}), ref::Q() - 12345, Z(ref::H({"2"}) >> 24)};
    vector<size_t> pick;
    std::map<string, int> seen;
    for (size_t i = 0; i < s.cases.size(); i++) {
        int k = seen[s.cases[i].group]++;
        string g = s.cases[i].group;
        int step = g == "numberings" ? 31 : g == "styles" ? 7 : g == "identifiers" ? 17 : g == "shapes" ? 3 : 1;
        if (!quick || k % step == 0)
            pick.push_back(i);
    }
    mc::for_all("published", pick.size(), [&](uint64_t n) {
        auto &c = s.cases[pick[n]];
        auto &el = *els[c.e];
        Z nonce = nonces[n % nonces.size()];
        auto e = expected(el.man, el.mhash, c.b, nonce);
        if (e.refused)
            return;
        string what = c.b.str();
        mc::desc(what);
        mc::state(mc::fnv(what + ref::hex(nonce)));
        Secrets x;
        model_secrets(x, el, e, nonce);
        auto p = c.b.build();
        auto seed = ref::mkQ(ref::H({"code seed"}));
        unique_ptr<eg::CiphertextBallot> r;
        string log = output([&] { r = eg::encryptBallot(*p, *el.internal, *el.context, *seed, ref::mkQ(nonce), 1234, n % 8 == 0); });
        if (!r) {
            mc::fail("a valid ballot is not encrypted", what);
            return;
        }
        recover(x, *r, &e);
        logged(x, "encryption", log, what);
        publish(x, *r, what);
        mc::expect(x.names.size() > 6, "no secrets to search for", what);
    });
    // what is logged when ballots are verified, decrypted, stored and refused
    size_t ops = 14;
    mc::for_all("logged", ops * 6, [&](uint64_t n) {
        size_t op = n % ops, bi = n / ops;
        auto &c = s.cases[s.cases.size() - 1 - bi * 4];
        auto &el = *els[c.e];
        Z nonce = nonces[0];
        auto e = expected(el.man, el.mhash, c.b, nonce);
        if (e.refused)
            return;
        string what = "operation " + std::to_string(op) + " " + c.b.str();
        mc::desc(what);
        mc::state(mc::fnv(what));
        auto p = c.b.build();
        auto seed = ref::mkQ(ref::H({"code seed"}));
        auto r = eg::encryptBallot(*p, *el.internal, *el.context, *seed, ref::mkQ(nonce), 1234, false);
        Secrets x;
        model_secrets(x, el, e, nonce);
        recover(x, *r, &e);
        auto wrong = ref::mkQ(ref::H({"something else"}));
        auto wrongKey = ref::mkP(ref::powm(ref::G(), 12345));
        auto &key = *el.context->getElGamalPublicKey();
        auto &base = *el.context->getCryptoExtendedBaseHash();
        auto &mh = *el.context->getManifestHash();
        auto &k0 = r->getContests()[0].get();
        auto &s0 = k0.getSelections()[0].get();
        string log = output([&] {
            switch (op) {
                case 0: r->isValidEncryption(mh, key, base); break;
                case 1: r->isValidEncryption(*wrong, key, base); break;
                case 2: r->isValidEncryption(mh, *wrongKey, base); break;
                case 3: r->isValidEncryption(mh, key, *wrong); break;
                case 4: k0.isValidEncryption(*wrong, *wrongKey, *wrong); k0.getProof()->isValid(*k0.getCiphertextAccumulation(), *wrongKey, *wrong); break;
                case 5: s0.isValidEncryption(*wrong, *wrongKey, *wrong); s0.getProof()->isValid(*s0.getCiphertext(), *wrongKey, *wrong); break;
                case 6: k0.getHashedElGamalCiphertext()->decrypt(*ref::mkQ(el.secret), base, true); break;
                case 7: k0.getHashedElGamalCiphertext()->decrypt(*ref::mkQ(el.secret), *wrong, true); break;
                case 8: s0.getCiphertext()->decrypt(*ref::mkQ(el.secret)); k0.getCiphertextAccumulation()->decrypt(*ref::mkQ(el.secret)); break;
                case 9: {
                    auto j = r->toJson(true);
                    eg::CiphertextBallot::fromJson(j);
                    eg::CiphertextBallot::fromMsgPack(r->toMsgPack(true));
                    eg::CiphertextBallot::fromBson(r->toBson(true));
                    break;
                }
                case 10: {
                    auto kp = eg::ElGamalKeyPair::fromSecret(*ref::mkQ(el.secret));
                    eg::elgamalEncrypt(1, *ref::mkQ(nonce), *kp->getPublicKey());
                    eg::elgamalEncrypt(1, *ref::mkQ(0), *kp->getPublicKey());
                    break;
                }
                case 11: {
                    auto t = eg::encryptCompactBallot(*p, *el.internal, *el.context, *seed, ref::mkQ(nonce), 1234, false);
                    eg::expandCompactCiphertextBallot(*t, *el.internal, *el.context);
                    break;
                }
                case 12: {
                    eg::Nonces ns(*ref::mkQ(nonce), "x");
                    x.add("a derived nonce", model::nonceAt(nonce, "x", 0));
                    ns.next();
                    auto nq = ref::mkQ(nonce);
                    eg::hash_elems({nq.get(), nq.get()});
                    break;
                }
                case 13: { // a mediator, with random nonces
                    eg::EncryptionDevice dev(1, 2, 3, "here");
                    eg::EncryptionMediator md(*el.internal, *el.context, dev);
                    auto m = md.encrypt(*p, true);
                    recover(x, *m, nullptr);
                    break;
                }
            }
        });
        logged(x, "operation " + std::to_string(op), log, what);
    });
    // ballots whose nonces come from the precomputed values or the generator
    mc::for_all("random nonces", 4, [&](uint64_t n) {
        auto &c = s.cases[s.cases.size() - 1];
        auto &el = *els[c.e];
        auto p = c.b.build();
        string what = string(n & 1 ? "precomputed " : "drawn ") + c.b.str();
        mc::desc(what);
        mc::state(mc::fnv(what));
        auto seed = ref::mkQ(ref::H({"code seed"}));
        unique_ptr<eg::CiphertextBallot> r;
        string log = output([&] {
            if (n & 1) {
                eg::PrecomputeBufferContext::init(n > 1 ? 20 : 2);
                eg::PrecomputeBufferContext::populate(*el.context->getElGamalPublicKey());
            }
            r = eg::encryptBallot(*p, *el.internal, *el.context, *seed, nullptr, 1234, true);
        });
        if (!r) {
            mc::fail("a valid ballot is not encrypted", what);
            return;
        }
        Secrets x;
        x.add("the secret key", el.secret);
        recover(x, *r, nullptr);
        logged(x, "encryption", log, what);
        publish(x, *r, what);
    });
    // what is logged when ballots, contests, selections and expansions are refused
    vector<size_t> bad;
    for (size_t i = 0; i < s.cases.size(); i++) {
        auto &c = s.cases[i];
        if (expected(els[c.e]->man, els[c.e]->mhash, c.b, nonces[0]).refused)
            bad.push_back(i);
    }
    mc::note("refused ballots", std::to_string(bad.size()));
    mc::for_all("refused", bad.size(), [&](uint64_t n) {
        if (quick && n % 3 && s.cases[bad[n]].group == string("shapes"))
            return;
        auto &c = s.cases[bad[n]];
        auto &el = *els[c.e];
        Z nonce = nonces[n % nonces.size()];
        auto e = expected(el.man, el.mhash, c.b, nonce);
        string what = "refused " + c.b.str();
        mc::desc(what);
        mc::state(mc::fnv(what));
        Secrets x;
        model_secrets(x, el, e, nonce);
        x.add("the nonce seed", model::H({ref::S(el.mhash), ref::S(c.b.id), ref::S(nonce)}));
        auto p = c.b.build();
        auto seed = ref::mkQ(ref::H({"code seed"}));
        auto guard = [](const std::function<void()> &f) {
            try {
                f();
            } catch (const std::exception &ex) {
                // what an error says is as public as the log
                fprintf(stderr, "%s\n", ex.what());
            }
        };
        string log = output([&] {
            guard([&] { eg::encryptBallot(*p, *el.internal, *el.context, *seed, ref::mkQ(nonce), 1234, n % 2); });
            guard([&] { eg::encryptCompactBallot(*p, *el.internal, *el.context, *seed, ref::mkQ(nonce), 1234, n % 2); });
            guard([&] { eg::encryptContests(*p, *el.internal, *el.context, *ref::mkQ(e.seed), n % 2); });
        });
        logged(x, "refusal", log, what);
    });
    // the parts on their own, with input that does not fit
    mc::for_all("misfits", 24, [&](uint64_t n) {
        size_t last = s.cases.size() - 1;
        auto &el = *els[s.cases[last].e];
        auto &b0 = s.cases[last].b;
        Z nonce = ref::H({"misfit", ref::S(n)});
        string what = "misfit " + std::to_string(n);
        mc::desc(what);
        mc::state(mc::fnv(what));
        Secrets x;
        x.add("the secret key", el.secret);
        x.add("the nonce seed", nonce);
        auto &key = *el.context->getElGamalPublicKey();
        auto &base = *el.context->getCryptoExtendedBaseHash();
        auto desc = el.internal->getContests();
        auto &dc = desc[0].get();
        auto sd = dc.getSelections();
        for (uint64_t k = 0; k < 8; k++) {
            x.add("a nonce", model::nonceAt(ref::val(*dc.crypto_hash()), ref::S(nonce), k));
            for (auto &d : sd)
                x.add("a nonce", model::nonceAt(ref::val(*d.get().crypto_hash()), ref::S(nonce), k));
        }
        auto guard = [](const std::function<void()> &f) {
            try {
                f();
            } catch (const std::exception &ex) {
                fprintf(stderr, "%s\n", ex.what());
            }
        };
        auto e = expected(el.man, el.mhash, b0, nonce);
        auto nq = ref::mkQ(nonce);
        auto sk = ref::mkQ(el.secret);
        bool verify = n & 1;
        string log = output([&] {
            guard([&] {
                switch (n / 2) {
                    case 0: eg::encryptSelection(eg::PlaintextBallotSelection("other", 1), sd[0], key, base, *nq, false, verify); break;
                    case 1: eg::encryptSelection(eg::PlaintextBallotSelection(sd[0].get().getObjectId(), 5), sd[0], key, base, *nq, false, verify); break;
                    case 2: eg::encryptSelection(eg::PlaintextBallotSelection(sd[0].get().getObjectId(), 2), sd[0], key, base, *nq, true, verify); break;
                    case 3: eg::encryptSelection(eg::PlaintextBallotSelection("", 0), sd[0], key, base, *nq, true, verify); break;
                    case 4: { // a contest under another name
                        BCon k = b0.cons[0];
                        k.id = "elsewhere";
                        Bal b{"b", "style", {k}};
                        auto p = b.build();
                        eg::encryptContest(p->getContests()[0].get(), *el.internal, dc, key, base, *nq, verify);
                        break;
                    }
                    case 5: { // with more selections than there are
                        BCon k = b0.cons[0];
                        for (int i = 0; i < 4; i++)
                            k.sels.push_back({"more" + std::to_string(i), 1});
                        Bal b{"b", "style", {k}};
                        auto p = b.build();
                        eg::encryptContest(p->getContests()[0].get(), *el.internal, dc, key, base, *nq, verify);
                        break;
                    }
                    case 6: { // with a vote of 5
                        BCon k{b0.cons[0].id, {{sd[0].get().getObjectId(), 5}}};
                        Bal b{"b", "style", {k}};
                        auto p = b.build();
                        eg::encryptContest(p->getContests()[0].get(), *el.internal, dc, key, base, *nq, verify);
                        break;
                    }
                    case 7: eg::elgamalEncrypt(1, *ref::mkQ(0), key); eg::ElGamalKeyPair::fromSecret(*ref::mkQ(0)); break;
                    case 8: { // an expansion for another election
                        auto p = b0.build();
                        auto t = eg::encryptCompactBallot(*p, *el.internal, *el.context, *ref::mkQ(5), ref::mkQ(nonce), 1234, false);
                        model_secrets(x, el, e, nonce);
                        auto &other = *els[verify ? 0 : 1];
                        eg::expandCompactCiphertextBallot(*t, *other.internal, *other.context);
                        break;
                    }
                    case 9: { // a stored secret or nonce that is no number
                        auto h = ref::hex(el.secret);
                        eg::ElementModQ::fromHex(h + "zz");
                        break;
                    }
                    case 10: { // numbers that are too large
                        Z big = el.secret + ref::Q();
                        eg::ElementModQ::fromHex(ref::hex(Z(big << 64)));
                        eg::ElementModP::fromHex(ref::hex(Z(big << 4096)));
                        break;
                    }
                    case 11: { // damaged ciphertexts
                        auto p = b0.build();
                        auto r = eg::encryptBallot(*p, *el.internal, *el.context, *ref::mkQ(5), ref::mkQ(nonce), 1234, false);
                        model_secrets(x, el, e, nonce);
                        recover(x, *r, &e);
                        auto d = nlohmann::json::parse(r->toJson(true));
                        d["contests"][0]["ballot_selections"][0].erase(verify ? "proof" : "ciphertext");
                        eg::CiphertextBallot::fromJson(d.dump());
                        break;
                    }
                }
            });
        });
        logged(x, "refusal", log, what);
    });
    return mc::finish();
}
