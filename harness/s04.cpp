// S04: documents of every kind, cut off at every byte, with every node replaced by
// every value of an alphabet of wrong values, and with every byte altered, are read
// by the real code. Each reading must end in an error or in an object that says what
// the document says.
#include "mc.hpp"
#include "spaces.hpp"
#include <electionguard/ballot.h>
#include <electionguard/ballot_compact.h>
#include <electionguard/ballot_compact.hpp>
#include <electionguard/election.h>
#include <electionguard/encrypt.h>
#include <electionguard/encrypt.hpp>
#include <electionguard/group.h>
#include <electionguard/manifest.h>
#include <nlohmann/json.hpp>
#include <regex>
using namespace space;
namespace eg = electionguard;
using nlohmann::json;
typedef vector<uint8_t> Bytes;

enum Fmt { JSON, BSON, MSGPACK };
static const char *fmtName[] = {"JSON", "BSON", "MessagePack"};

struct Kind {
    string name;
    json doc; // as the library writes it
    // reads; writes what was read in the same format (throws when it reports an error)
    std::function<Bytes(const Bytes &)> read[3];
    // the C interface: status
    std::function<int(const Bytes &)> cread[3];
};
static Bytes bytesOf(const string &s) { return Bytes(s.begin(), s.end()); }
static string str(const Bytes &b) { return string(b.begin(), b.end()); }
static Bytes encode(const json &j, int f)
{
    if (f == JSON)
        return bytesOf(j.dump());
    return f == BSON ? json::to_bson(j) : json::to_msgpack(j);
}
static json decode(const Bytes &b, int f)
{
    if (f == JSON)
        return json::parse(b.begin(), b.end());
    return f == BSON ? json::from_bson(b) : json::from_msgpack(b);
}

// ---- does what was read agree with the document?
static bool emptyish(const json &j) { return j.is_null() || ((j.is_array() || j.is_object()) && j.empty()); }
static bool hexText(const string &s, string &digits)
{
    // leading zeros and white space in any order, then perhaps an x, are no part of a number
    size_t a = s.find_first_not_of("0 \t\n\r\f\v"), b = s.size();
    if (a == string::npos) {
        digits = "";
        return !s.empty();
    }
    if (a > 0 && s[a - 1] == '0' && (s[a] == 'x' || s[a] == 'X'))
        a++;
    while (b > a && strchr(" \t\n\r\f\v", s[b - 1]))
        b--;
    digits = s.substr(a, b - a);
    for (auto &c : digits) {
        if (!isxdigit((uint8_t)c))
            return false;
        c = (char)toupper(c);
    }
    if (digits.empty())
        return false;
    size_t z = digits.find_first_not_of('0');
    digits = z == string::npos ? "" : digits.substr(z);
    return true;
}
static bool isHexField(const string &kind, const string &key)
{
    static const std::set<string> k = {"manifest_hash", "code_seed", "code", "nonce", "crypto_hash", "description_hash", "pad", "data",
                                       "challenge", "response", "proof_zero_pad", "proof_zero_data", "proof_one_pad", "proof_one_data",
                                       "proof_zero_challenge", "proof_one_challenge", "proof_zero_response", "proof_one_response",
                                       "crypto_base_hash", "crypto_extended_base_hash", "commitment_hash", "elgamal_public_key"};
    return k.count(key) > 0;
}
static int64_t days(int64_t y, unsigned m, unsigned d)
{
    y -= m <= 2;
    int64_t era = (y >= 0 ? y : y - 399) / 400;
    unsigned yoe = (unsigned)(y - era * 400), doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + (int64_t)doe - 719468;
}
static bool date(const string &s, int64_t &t)
{
    static const std::regex re("([+-]?\\d{1,4})-(\\d{1,2})-(\\d{1,2})T(\\d{1,2}):(\\d{1,2}):(\\d{1,2})(Z|([+-])(\\d{1,2}):(\\d{1,2}))");
    std::smatch m;
    if (!std::regex_match(s, m, re))
        return false;
    t = days(atoi(m[1].str().c_str()), (unsigned)atoi(m[2].str().c_str()), (unsigned)atoi(m[3].str().c_str())) * 86400 + atoi(m[4].str().c_str()) * 3600 +
        atoi(m[5].str().c_str()) * 60 + atoi(m[6].str().c_str());
    if (m[7] != "Z")
        t -= (m[8] == "-" ? -1 : 1) * (atoi(m[9].str().c_str()) * 3600 + atoi(m[10].str().c_str()) * 60);
    return true;
}
// "" when they agree
static string differs(const Kind &k, const json &doc, const json &out, const json &ref, const string &path, const string &key, const json &parent)
{
    auto no = [&](const string &w) { return path + ": " + w + ": document " + doc.dump(-1, ' ', false, json::error_handler_t::replace).substr(0, 80) + ", object " +
                                            out.dump(-1, ' ', false, json::error_handler_t::replace).substr(0, 80); };
    if (key == "spec_version")
        return "";
    if (doc.is_null() || doc.is_discarded()) {
        // absent: the object may say nothing, or the default
        if (emptyish(out) || out == "" || out == false || (key == "nonce" && out == "00"))
            return "";
        if (key == "votes_allowed")
            return "";
        if (key == "configuration")
            return out["allow_overvotes"] == true ? "" : no("a default differs");
        if (key == "name" && out.is_object() && out.contains("text") && emptyish(out["text"]))
            return "";
        if (out.is_object()) { // every part of it is absent
            for (auto &i : out.items()) {
                auto d = differs(k, nullptr, i.value(), nullptr, path + "/" + i.key(), i.key(), nullptr);
                if (!d.empty())
                    return d;
            }
            return "";
        }
        return no("a value that the document lacks");
    }
    if (out.is_null()) {
        // an optional value that says nothing is left out
        if (emptyish(doc) || doc == "" || doc == false)
            return "";
        if (doc.is_object() && key == "name" && doc.contains("text") && emptyish(doc["text"]))
            return "";
        if (doc.is_object()) {
            for (auto &i : doc.items())
                if (!ref.is_object() || ref.contains(i.key())) {
                    auto d = differs(k, i.value(), nullptr, ref.is_object() && ref.contains(i.key()) ? ref[i.key()] : json(), path + "/" + i.key(), i.key(), doc);
                    if (!d.empty())
                        return d;
                }
            return "";
        }
        return no("a value of the document is lost");
    }
    if (emptyish(doc) && emptyish(out))
        return "";
    if (out.is_object()) {
        if (!doc.is_object())
            return no("of another type");
        for (auto &i : out.items()) {
            auto d = differs(k, doc.contains(i.key()) ? doc[i.key()] : json(), i.value(), ref.is_object() && ref.contains(i.key()) ? ref[i.key()] : json(),
                             path + "/" + i.key(), i.key(), doc);
            if (!d.empty())
                return d;
        }
        for (auto &i : doc.items())
            if (!out.contains(i.key()) && ref.is_object() && ref.contains(i.key())) {
                auto d = differs(k, i.value(), nullptr, ref[i.key()], path + "/" + i.key(), i.key(), doc);
                if (!d.empty())
                    return d;
            }
        return "";
    }
    if (out.is_array()) {
        json list = doc;
        if (doc.is_object()) { // a list written with names
            list = json::array();
            for (auto &i : doc.items())
                list.push_back(i.value());
        } else if (!doc.is_array())
            list = json::array({doc}); // a single value is a list of one
        if (list.size() != out.size())
            return no("of another length");
        json written = out;
        auto numbered = [](const json &l) {
            return std::all_of(l.begin(), l.end(), [](const json &x) { return x.is_object() && x.contains("sequence_order") && x["sequence_order"].is_number(); });
        };
        if (numbered(list) && numbered(written)) { // such lists are kept in sequence order
            auto less = [](const json &a, const json &b) { return a["sequence_order"] < b["sequence_order"]; };
            vector<json> x(list.begin(), list.end()), y(written.begin(), written.end());
            std::stable_sort(x.begin(), x.end(), less), std::stable_sort(y.begin(), y.end(), less);
            list = x, written = y;
        }
        for (size_t i = 0; i < out.size(); i++) {
            auto d = differs(k, list[i], written[i], ref.is_array() && !ref.empty() ? ref[std::min(i, ref.size() - 1)] : json(), path + "/" + std::to_string(i), key, list);
            if (!d.empty())
                return d;
        }
        return "";
    }
    if (out.is_boolean())
        return doc == out ? "" : no("another value");
    if (out.is_number()) {
        if (!doc.is_number())
            return no("of another type");
        if (doc.is_number_float())
            return doc.get<double>() == out.get<double>() && doc.get<double>() < 9e15 ? "" : no("another number");
        return doc == out ? "" : no("another number");
    }
    if (!out.is_string() || !doc.is_string())
        return no("of another type");
    string a = doc, b = out;
    if (a == b)
        return "";
    if (isHexField(k.name, key)) {
        bool raw = path.find("extended_data/data") != string::npos || path.find("extended_data/mac") != string::npos;
        string x, y;
        if (key == "nonce" && a.empty() && b == "00")
            return "";
        if (raw)
            std::transform(a.begin(), a.end(), a.begin(), ::toupper);
        if (raw ? a == b : hexText(a, x) && hexText(b, y) && x == y)
            return "";
        return no("another number");
    }
    if (path.find("extended_data/mac") != string::npos) {
        std::transform(a.begin(), a.end(), a.begin(), ::toupper);
        return a == b ? "" : no("another byte string");
    }
    if (key == "start_date" || key == "end_date") {
        int64_t s, t;
        return date(a, s) && date(b, t) && s == t ? "" : no("another date");
    }
    if ((key == "type" || key == "vote_variation") && b == "unknown")
        return "";
    return no("another text");
}

static void judge(const Kind &k, int f, const Bytes &b, const string &what, bool mustFail = false)
{
    mc::step();
    mc::desc(k.name + " " + fmtName[f] + " " + what);
    bool ok = false;
    Bytes w;
    try {
        w = k.read[f](b);
        ok = true;
    } catch (const std::exception &) {
    } catch (...) {
        mc::fail("reading reports an error that is no exception of the standard library", what);
    }
    json d;
    bool parses = true;
    try {
        d = decode(b, f);
    } catch (const std::exception &) {
        parses = false;
    }
    if (ok && (mustFail || !parses))
        mc::fail("a damaged document is accepted", k.name + " " + fmtName[f] + " " + what);
    if (ok && parses) {
        json o;
        try {
            o = decode(w, f);
        } catch (const std::exception &e) {
            mc::fail("what was read cannot be written", k.name + " " + what + " " + e.what());
            return;
        }
        auto x = differs(k, d, o, k.doc, "", "", nullptr);
        if (!x.empty())
            mc::fail("what was read differs from the document: " + std::regex_replace(x.substr(0, x.find(':', x.find(':') + 1)), std::regex("/[0-9]+"), ""), k.name + " " + fmtName[f] + " " + what + " " + x);
    }
    if (k.cread[f]) {
        int st = k.cread[f](b);
        mc::expect((st == ELECTIONGUARD_STATUS_SUCCESS) == ok, "the C interface reports another outcome", k.name + " " + fmtName[f] + " " + what);
    }
}

// every node of a document
static void nodes(const json &j, const json::json_pointer &at, vector<json::json_pointer> &out)
{
    out.push_back(at);
    if (j.is_object())
        for (auto &i : j.items())
            nodes(i.value(), at / i.key(), out);
    else if (j.is_array())
        for (size_t i = 0; i < j.size(); i++)
            nodes(j[i], at / i, out);
}

template <typename T, typename R, typename W> static std::function<Bytes(const Bytes &)> rw(R r, W w)
{
    return [=](const Bytes &b) -> Bytes { return w(*r(b)); };
}
template <typename H> static std::function<int(const Bytes &)> cj(eg_electionguard_status_t (*f)(char *, H **), eg_electionguard_status_t (*rel)(H *))
{
    return [=](const Bytes &b) {
        string s = str(b);
        if (s.find('\0') != string::npos)
            s = s.substr(0, s.find('\0'));
        H *h = nullptr;
        auto st = f((char *)s.c_str(), &h);
        if (st == ELECTIONGUARD_STATUS_SUCCESS)
            rel(h);
        return (int)st;
    };
}
template <typename H> static std::function<int(const Bytes &)> cb(eg_electionguard_status_t (*f)(uint8_t *, uint64_t, H **), eg_electionguard_status_t (*rel)(H *))
{
    return [=](const Bytes &b) {
        H *h = nullptr;
        Bytes c = b;
        auto st = f(c.data(), c.size(), &h);
        if (st == ELECTIONGUARD_STATUS_SUCCESS)
            rel(h);
        return (int)st;
    };
}
#define READERS3(T)                                                                                                    \
    k.read[JSON] = [](const Bytes &b) { return bytesOf(T::fromJson(str(b))->toJson(ARG)); };                           \
    k.read[BSON] = [](const Bytes &b) { return T::fromBson(b)->toBson(ARG); };                                         \
    k.read[MSGPACK] = [](const Bytes &b) { return T::fromMsgPack(b)->toMsgPack(ARG); };
#define READERS2(T)                                                                                                    \
    k.read[JSON] = [](const Bytes &b) { return bytesOf(T::fromJson(str(b))->toJson()); };                              \
    k.read[BSON] = [](const Bytes &b) { return T::fromBson(b)->toBson(); };

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool quick = mc::opt().quick();
    vector<Kind> kinds;
#define ARG
    {
        Kind k;
        k.name = "manifest";
        k.doc = json::parse(R"({
 "ballot_styles":[{"geopolitical_unit_ids":["unit","other"],"image_uri":"i","object_id":"style","party_ids":["party"]}],
 "candidates":[{"image_uri":"u","is_write_in":true,"name":{"text":[{"language":"en","value":"Ann"}]},"object_id":"ann","party_id":"party"},{"object_id":"bob","name":{"text":[{"language":"en","value":"Bob"}]}}],
 "contact_information":{"address_line":["a","b"],"email":[{"annotation":"x","value":"y"}],"name":"n","phone":[{"annotation":"p","value":"q"}]},
 "contests":[{"ballot_selections":[{"candidate_id":"ann","object_id":"s1","sequence_order":1},{"candidate_id":"bob","object_id":"s2","sequence_order":2}],
   "ballot_subtitle":{"text":[{"language":"en","value":"sub"}]},"ballot_title":{"text":[{"language":"en","value":"title"},{"language":"fr","value":"titre"}]},
   "electoral_district_id":"unit","name":"con","number_elected":1,"object_id":"con","sequence_order":7,"vote_variation":"one_of_m","votes_allowed":1}],
 "election_scope_id":"scope","end_date":"2021-02-05T13:30:10Z","start_date":"2021-02-04T13:30:10Z",
 "geopolitical_units":[{"name":"unit","object_id":"unit","type":"county","contact_information":{"address_line":["c"],"name":"m"}},{"name":"o","object_id":"other","type":"city"}],
 "name":{"text":[{"language":"en","value":"Election"}]},
 "parties":[{"abbreviation":"P","color":"red","logo_uri":"l","name":{"text":[{"language":"en","value":"Party"}]},"object_id":"party"}],
 "spec_version":"1.0","type":"general"})");
        READERS3(eg::Manifest)
        k.cread[JSON] = cj<eg_election_manifest_t>(eg_election_manifest_from_json, eg_election_manifest_free);
        k.cread[BSON] = cb<eg_election_manifest_t>(eg_election_manifest_from_bson, eg_election_manifest_free);
        k.cread[MSGPACK] = cb<eg_election_manifest_t>(eg_election_manifest_from_msgpack, eg_election_manifest_free);
        kinds.push_back(k);
        auto m = eg::Manifest::fromJson(k.doc.dump());
        Kind n;
        n.name = "internal manifest";
        n.doc = json::parse(eg::InternalManifest(*m).toJson());
        {
            auto &k = n;
            READERS3(eg::InternalManifest)
            k.cread[JSON] = cj<eg_internal_manifest_t>(eg_internal_manifest_from_json, eg_internal_manifest_free);
            k.cread[BSON] = cb<eg_internal_manifest_t>(eg_internal_manifest_from_bson, eg_internal_manifest_free);
            k.cread[MSGPACK] = cb<eg_internal_manifest_t>(eg_internal_manifest_from_msgpack, eg_internal_manifest_free);
        }
        kinds.push_back(n);
    }
    {
        Kind k;
        k.name = "plaintext ballot";
        k.doc = json::parse(R"({"object_id":"b","style_id":"st","contests":[{"object_id":"c","ballot_selections":[
          {"object_id":"s","vote":1,"is_placeholder_selection":false,"write_in":"w"},{"object_id":"t","vote":0,"is_placeholder_selection":true,"write_in":""}]},
          {"object_id":"d","ballot_selections":[{"object_id":"u","vote":300,"is_placeholder_selection":false,"write_in":""}]}]})");
        READERS3(eg::PlaintextBallot)
        k.cread[JSON] = cj<eg_plaintext_ballot_t>(eg_plaintext_ballot_from_json, eg_plaintext_ballot_free);
        k.cread[BSON] = cb<eg_plaintext_ballot_t>(eg_plaintext_ballot_from_bson, eg_plaintext_ballot_free);
        k.cread[MSGPACK] = cb<eg_plaintext_ballot_t>(eg_plaintext_ballot_from_msgpack, eg_plaintext_ballot_free);
        kinds.push_back(k);
    }
    ManM man = single(contest("con", "unit", 0, 1, 1, {0, 1}));
    Election el(man);
    Bal bal{"ballot", "style", {marks(man.cons[0], {1, 0})}};
    auto pt = bal.build();
    auto seed = ref::mkQ(ref::H({"code seed"}));
    auto enc = eg::encryptBallot(*pt, *el.internal, *el.context, *seed, ref::mkQ(ref::H({"nonce"})), 1234, false);
    {
        Kind k;
        k.name = "context";
        k.doc = json::parse(el.context->toJson());
        k.doc["extended_data"] = {{"a", "b"}, {"c", "d"}};
        READERS2(eg::CiphertextElectionContext)
        k.cread[JSON] = cj<eg_ciphertext_election_context_t>(eg_ciphertext_election_context_from_json, eg_ciphertext_election_context_free);
        k.cread[BSON] = cb<eg_ciphertext_election_context_t>(eg_ciphertext_election_context_from_bson, eg_ciphertext_election_context_free);
        kinds.push_back(k);
    }
    {
        Kind k;
        k.name = "device";
        k.doc = json::parse(eg::EncryptionDevice(11, 22, 33, "here").toJson());
        READERS2(eg::EncryptionDevice)
        k.cread[JSON] = cj<eg_encryption_device_t>(eg_encryption_device_from_json, eg_encryption_device_free);
        kinds.push_back(k);
    }
    {
        Kind k;
        k.name = "compact plaintext ballot";
        k.doc = json::parse(R"({"object_id":"b","style_id":"st","selections":[1,0,300],"writeins":["","w",""]})");
        READERS3(eg::CompactPlaintextBallot)
        k.cread[MSGPACK] = cb<eg_compact_plaintext_ballot_t>(eg_compact_plaintext_ballot_from_msgpack, eg_compact_plaintext_ballot_free);
        kinds.push_back(k);
        Kind c;
        c.name = "compact encrypted ballot";
        c.doc = {{"plaintext", k.doc}, {"code_seed", "AB01"}, {"code", "0123456789ABCDEF"}, {"nonce", "77"}, {"timestamp", 5}, {"ballot_box_state", 1}};
        {
            auto &k = c;
            READERS3(eg::CompactCiphertextBallot)
            k.cread[MSGPACK] = cb<eg_compact_ciphertext_ballot_t>(eg_compact_ciphertext_ballot_from_msgpack, eg_compact_ciphertext_ballot_free);
        }
        kinds.push_back(c);
    }
    // the numbers of the encrypted ballot are replaced by short ones: every node and
    // every byte of the document can then be visited
    std::function<void(json &, int &)> shorten = [&](json &j, int &n) {
        if (j.is_string() && j.get<string>().size() > 40) {
            char b[32];
            snprintf(b, sizeof b, "%X", 0xA1B00 + 37 * n++);
            j = n % 3 ? string(b) + "C" : string(b) + "C0" + b + "1"; 
        } else if (j.is_structured())
            for (auto &i : j)
                shorten(i, n);
    };
    {
        Kind k;
        k.name = "encrypted ballot";
        k.doc = json::parse(enc->toJson(true));
        int n = 0;
        shorten(k.doc, n);
#undef ARG
#define ARG true
        READERS3(eg::CiphertextBallot)
        k.cread[JSON] = cj<eg_ciphertext_ballot_t>(eg_ciphertext_ballot_from_json, eg_ciphertext_ballot_free);
        k.cread[BSON] = cb<eg_ciphertext_ballot_t>(eg_ciphertext_ballot_from_bson, eg_ciphertext_ballot_free);
        k.cread[MSGPACK] = cb<eg_ciphertext_ballot_t>(eg_ciphertext_ballot_from_msgpack, eg_ciphertext_ballot_free);
        kinds.push_back(k);
#undef ARG
#define ARG
        Kind s;
        s.name = "submitted ballot";
        s.doc = json::parse(eg::SubmittedBallot::from(*enc, eg::BallotBoxState::cast)->toJson());
        n = 0;
        shorten(s.doc, n);
        {
            auto &k = s;
            READERS3(eg::SubmittedBallot)
            k.cread[JSON] = cj<eg_submitted_ballot_t>(eg_submitted_ballot_from_json, eg_submitted_ballot_free);
            k.cread[BSON] = cb<eg_submitted_ballot_t>(eg_submitted_ballot_from_bson, eg_submitted_ballot_free);
            k.cread[MSGPACK] = cb<eg_submitted_ballot_t>(eg_submitted_ballot_from_msgpack, eg_submitted_ballot_free);
        }
        kinds.push_back(s);
    }
    // the undamaged documents are read
    for (auto &k : kinds)
        for (int f = 0; f < 3; f++)
            if (k.read[f]) {
                try {
                    auto w = decode(k.read[f](encode(k.doc, f)), f);
                    auto d = differs(k, k.doc, w, k.doc, "", "", nullptr);
                    mc::expect(d.empty(), "an undamaged document is read differently", k.name + " " + fmtName[f] + " " + d);
                } catch (const std::exception &e) {
                    mc::fail("an undamaged document is refused", k.name + " " + fmtName[f] + " " + e.what());
                }
            }

    // ---- cut off at every byte
    struct Cut {
        size_t kind;
        int f;
        size_t from, to;
    };
    vector<Cut> cuts;
    vector<Bytes> enc3[3];
    for (int f = 0; f < 3; f++)
        for (auto &k : kinds)
            enc3[f].push_back(encode(k.doc, f));
    for (size_t i = 0; i < kinds.size(); i++)
        for (int f = 0; f < 3; f++)
            if (kinds[i].read[f])
                for (size_t a = 0; a < enc3[f][i].size(); a += 256)
                    cuts.push_back({i, f, a, std::min(a + 256, enc3[f][i].size())});
    mc::for_all("cut", cuts.size(), [&](uint64_t n) {
        auto &c = cuts[n];
        auto &all = enc3[c.f][c.kind];
        for (size_t a = c.from; a < c.to; a++) {
            Bytes b(all.begin(), all.begin() + a);
            mc::state(mc::fnv(&a, sizeof a, mc::fnv(kinds[c.kind].name + fmtName[c.f])));
            judge(kinds[c.kind], c.f, b, "cut off at byte " + std::to_string(a), true);
        }
    });

    // ---- every node replaced
    vector<json> values = {nullptr, true, false, 0, 1, 2, -1, -9223372036854775807ll - 1, 1.5, 1e300, -0.5, 4294967296ll, 9223372036854775807ll,
                           18446744073709551615ull, "", " ", "0", "1", "zz", "G1", "1G", "-1", "+1", "0x1F", "1 ", "12 34", "A", "ABC", "abcdef", "\n", "unknown",
                           "2021-02-30T00:00:00Z", "2021-02-04T13:30:10", "2021-02-04T13:30:10+01:30", "2021-02-04T13:30:10Zx", "1969-12-31T23:59:59Z",
                           json::array(), json::object(), json::array({1}), json::array({"a"}), json::array({nullptr}), json{{"a", 1}}, json{{"object_id", "x"}}};
    values.push_back(ref::hex(ref::Q()));
    values.push_back(ref::hex(ref::Q() - 1));
    values.push_back(ref::hex(ref::Q() + 1));
    values.push_back(ref::hex(ref::P()));
    values.push_back(ref::hex(ref::P() - 1));
    values.push_back(ref::hex(ref::P() + 1));
    values.push_back(string(1024, 'F'));
    values.push_back(string(1026, 'F'));
    values.push_back("1" + string(64, '0'));
    values.push_back(string(2000, '0') + "1");
    values.push_back(string(70000, 'A'));
    struct Sub {
        size_t kind;
        json::json_pointer at;
    };
    vector<Sub> subs;
    for (size_t i = 0; i < kinds.size(); i++) {
        vector<json::json_pointer> ps;
        nodes(kinds[i].doc, json::json_pointer(), ps);
        for (auto &p : ps)
            subs.push_back({i, p});
    }
    mc::for_all("replaced", subs.size(), [&](uint64_t n) {
        auto &s = subs[n];
        auto &k = kinds[s.kind];
        auto at = s.at.to_string();
        vector<std::pair<string, json>> variants;
        for (auto &v : values) {
            json d = k.doc;
            d[s.at] = v;
            variants.push_back({at + " = " + v.dump().substr(0, 40), d});
        }
        if (!s.at.empty()) {
            json d = k.doc;
            auto &parent = d[s.at.parent_pointer()];
            if (parent.is_object()) {
                json c = d;
                c[s.at.parent_pointer()].erase(s.at.back());
                variants.push_back({at + " missing", c});
                c[s.at.parent_pointer()]["another"] = 1;
                variants.push_back({at + " renamed", c});
                json e = d;
                e[s.at.parent_pointer()]["another"] = json::array({1, "x"});
                variants.push_back({at + " with another beside it", e});
            } else {
                json c = d;
                auto &l = c[s.at.parent_pointer()];
                l.erase((size_t)atoi(s.at.back().c_str()));
                variants.push_back({at + " removed", c});
                json e = d;
                auto &m = e[s.at.parent_pointer()];
                m.push_back(m[(size_t)atoi(s.at.back().c_str())]);
                variants.push_back({at + " repeated", e});
            }
        }
        // a node of one kind at the place of another
        for (auto &o : kinds[0].doc.items()) {
            json d = k.doc;
            d[s.at] = o.value();
            variants.push_back({at + " = manifest/" + o.key(), d});
        }
        for (auto &v : variants)
            for (int f = 0; f < 3; f++) {
                if (!k.read[f])
                    continue;
                if (f == BSON && !v.second.is_object())
                    continue;
                Bytes b;
                try {
                    b = encode(v.second, f);
                } catch (const std::exception &) {
                    continue; // the format has no such value
                }
                mc::state(mc::fnv(k.name + fmtName[f] + v.first));
                judge(k, f, b, v.first);
            }
        if (n % 97 == 0)
            mc::sample(k.name + " " + at);
    });

    // ---- every byte altered
    mc::for_all("altered", cuts.size(), [&](uint64_t n) {
        auto &c = cuts[n];
        for (size_t a = c.from; a < c.to; a++) {
            vector<int> to;
            uint8_t was = enc3[c.f][c.kind][a];
            if (quick)
                to = {was ^ (1 << (a % 7)), a % 2 ? was ^ 128 : (int)'g'};
            else
                for (int v = 0; v < 256; v++)
                    to.push_back(v);
            for (int v : to) {
                if (v == was)
                    continue;
                Bytes b = enc3[c.f][c.kind];
                b[a] = (uint8_t)v;
                uint64_t fp[2] = {a, (uint64_t)v};
                mc::state(mc::fnv(fp, sizeof fp, mc::fnv(kinds[c.kind].name + fmtName[c.f])));
                judge(kinds[c.kind], c.f, b, "byte " + std::to_string(a) + " is " + std::to_string(v));
            }
        }
    });

    // ---- single numbers from text
    string alphabet = quick ? "01aFgx -\n" : "019aAfFgGxX -+\n\t.";
    uint64_t A = alphabet.size();
    vector<string> frames = {"", string(63, '0'), string(62, 'F'), string(64, 'F'), string(1023, '0'), string(1022, 'F'), string(1024, 'F'), string(1030, '0')};
    int len = quick ? 3 : 4;
    uint64_t total = 0;
    for (int l = 0; l <= len; l++) {
        uint64_t p = 1;
        for (int i = 0; i < l; i++)
            p *= A;
        total += p;
    }
    mc::for_all("texts", total, [&](uint64_t n) {
        uint64_t c = n, p = 1;
        int l = 0;
        while (c >= p)
            c -= p, p *= A, l++;
        string t;
        for (int i = 0; i < l; i++)
            t += alphabet[c % A], c /= A;
        for (auto &fr : frames)
            for (int side = 0; side < (fr.empty() ? 1 : 2); side++) {
                string s = side ? t + fr : fr + t;
                mc::step(3);
                mc::desc("text \"" + (s.size() > 80 ? s.substr(0, 10) + "..." + s.substr(s.size() - 10) + " (" + std::to_string(s.size()) + ")" : s) + "\"");
                mc::state(mc::fnv(s));
                string digits;
                bool isnum = hexText(s, digits);
                bool plain = !s.empty() && s.find_first_not_of("0123456789abcdefABCDEF") == string::npos;
                Z z = isnum && !digits.empty() ? Z(digits, 16) : Z(0);
                auto verdict = [&](const string &who, bool ok, const Z &got, const Z &limit) {
                    if (ok)
                        mc::expect(isnum && got == z && z <= limit, "a text is read as a number it does not say", who + " gives " + ref::hex(got).substr(0, 80));
                    else
                        mc::expect(!(plain && z < limit), "a hexadecimal number is refused", who);
                };
                auto tryQ = [&](const string &who, std::function<unique_ptr<eg::ElementModQ>()> f) {
                    unique_ptr<eg::ElementModQ> q;
                    try {
                        q = f();
                    } catch (const std::exception &) {
                    }
                    verdict(who, !!q, q ? ref::val(*q) : Z(0), ref::Q());
                };
                tryQ("ElementModQ::fromHex", [&] { return eg::ElementModQ::fromHex(s); });
                unique_ptr<eg::ElementModP> pp;
                try {
                    pp = eg::ElementModP::fromHex(s);
                } catch (const std::exception &) {
                }
                verdict("ElementModP::fromHex", !!pp, pp ? ref::val(*pp) : Z(0), ref::P());
                tryQ("eg_element_mod_q_from_hex", [&]() -> unique_ptr<eg::ElementModQ> {
                    eg_element_mod_q_t *h = nullptr;
                    if (eg_element_mod_q_from_hex((char *)s.c_str(), &h) != ELECTIONGUARD_STATUS_SUCCESS)
                        return nullptr;
                    return unique_ptr<eg::ElementModQ>((eg::ElementModQ *)h);
                });
            }
    });
    // ---- from bytes and integers
    mc::for_all("bytes", 560, [&](uint64_t n) {
        for (int first : {0, 1, 0x7f, 0x80, 0xff})
            for (int rest : {0, 1, 0xff}) {
                vector<uint8_t> b(n, (uint8_t)rest);
                if (n)
                    b[0] = (uint8_t)first;
                Z z = 0;
                for (auto x : b)
                    z = z * 256 + x;
                string what = std::to_string(n) + " bytes " + std::to_string(first) + " " + std::to_string(rest);
                mc::desc(what);
                mc::state(mc::fnv(what));
                for (int form = 0; form < 2; form++) {
                    mc::step(2);
                    unique_ptr<eg::ElementModQ> q;
                    unique_ptr<eg::ElementModP> p;
                    try {
                        q = form ? eg::bytes_to_q(b.data(), b.size()) : eg::bytes_to_q(b);
                    } catch (const std::exception &) {
                    }
                    try {
                        p = form ? eg::bytes_to_p(b.data(), b.size()) : eg::bytes_to_p(b);
                    } catch (const std::exception &) {
                    }
                    if (q)
                        mc::expect(ref::val(*q) == z && z <= ref::Q(), "bytes are read as another number", "exponent, " + what);
                    else
                        mc::expect(n == 0 || n > 32 || z >= ref::Q(), "bytes in range are refused", "exponent, " + what);
                    if (p)
                        mc::expect(ref::val(*p) == z && z <= ref::P(), "bytes are read as another number", "group element, " + what);
                    else
                        mc::expect(n == 0 || n > 512 || z >= ref::P(), "bytes in range are refused", "group element, " + what);
                }
            }
        uint64_t v = n < 64 ? 1ull << n : n < 128 ? (1ull << (n - 64)) - 1 : n < 192 ? ~0ull - (1ull << (n - 128)) : n;
        mc::expect(ref::val(*eg::ElementModQ::fromUint64(v)) == Z(std::to_string(v)), "an integer is read as another number", std::to_string(v));
        mc::expect(ref::val(*eg::ElementModP::fromUint64(v)) == Z(std::to_string(v)), "an integer is read as another number", std::to_string(v));
    });
    return mc::finish();
}
