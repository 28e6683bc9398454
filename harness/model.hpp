// Independent model of election descriptions and of ballot encryption: plain
// structs, their ElectionGuard hashes (by the reference hash of ref.hpp), and
// the contents an encrypted ballot must have. build() makes the library's
// object through its public constructors.
#pragma once
#include "ref.hpp"
#include <algorithm>
#include <electionguard/ballot.hpp>
#include <electionguard/election.hpp>
#include <electionguard/encrypt.hpp>
#include <electionguard/manifest.hpp>
#include <memory>
#include <nlohmann/json.hpp>
#include <optional>
#include <string>
#include <time.h>
#include <vector>

namespace model
{
    namespace eg = electionguard;
    using ref::H;
    using ref::hex;
    using ref::L;
    using ref::Z;
    using std::make_unique;
    using std::optional;
    using std::string;
    using std::unique_ptr;
    using std::vector;

    static const char *ELECTION_TYPES[] = {
      "unknown", "general", "partisanPrimaryClosed", "partisanPrimaryOpen",
      "primary", "runoff",  "special",               "other"};
    static const char *UNIT_TYPES[] = {
      "unknown",       "ballotBatch",   "ballotStyleArea", "borough",     "city",
      "cityCouncil",   "combinedPrecinct", "congressional", "country",    "county",
      "countyCouncil", "dropBox",       "judicial",        "municipality", "polling_place",
      "precinct",      "school",        "special",         "splitPrecinct", "state",
      "stateHouse",    "stateSenate",   "township",        "utility",     "village",
      "voteCenter",    "ward",          "water",           "other"};
    static const char *VARIATIONS[] = {"unknown",   "one_of_m",     "approval", "borda", "cumulative",
                                       "majority",  "n_of_m",       "plurality", "proportional",
                                       "range",     "rcv",          "super_majority", "other"};

    struct Lang {
        string value, language;
        string h() const { return hex(H({ref::S(value), ref::S(language)})); }
        bool operator==(const Lang &o) const { return value == o.value && language == o.language; }
    };
    typedef optional<vector<Lang>> Txt;
    inline string hTxt(const vector<Lang> &t)
    {
        vector<string> v;
        for (auto &l : t)
            v.push_back(l.h());
        return hex(H({L(v)}));
    }
    inline string hTxt(const Txt &t) { return t ? hTxt(*t) : string("null"); }
    inline unique_ptr<eg::InternationalizedText> buildTxt(const Txt &t)
    {
        if (!t)
            return nullptr;
        vector<unique_ptr<eg::Language>> v;
        for (auto &l : *t)
            v.push_back(make_unique<eg::Language>(l.value, l.language));
        return make_unique<eg::InternationalizedText>(std::move(v));
    }
    inline Txt readTxt(const eg::InternationalizedText *t)
    {
        if (!t)
            return {};
        vector<Lang> v;
        for (auto l : t->getText())
            v.push_back({l.get().getValue(), l.get().getLanguage()});
        return v;
    }
    inline string str(const Txt &t)
    {
        if (!t)
            return "-";
        string s = "[";
        for (auto &l : *t)
            s += l.value + "/" + l.language + ",";
        return s + "]";
    }
    inline string strs(const vector<string> &v)
    {
        string s = "[";
        for (auto &x : v)
            s += x + ",";
        return s + "]";
    }
    inline string Ls(const vector<string> &v)
    {
        vector<string> r;
        for (auto &x : v)
            r.push_back(ref::S(x));
        return L(r);
    }

    struct Ann {
        string annotation, value;
        string h() const { return hex(H({ref::S(annotation), ref::S(value)})); }
    };
    inline string LA(const vector<Ann> &a)
    {
        vector<string> v;
        for (auto &x : a)
            v.push_back(x.h());
        return L(v);
    }
    inline vector<unique_ptr<eg::AnnotatedString>> buildA(const vector<Ann> &a)
    {
        vector<unique_ptr<eg::AnnotatedString>> v;
        for (auto &x : a)
            v.push_back(make_unique<eg::AnnotatedString>(x.annotation, x.value));
        return v;
    }
    inline string str(const vector<Ann> &a)
    {
        string s = "[";
        for (auto &x : a)
            s += x.annotation + "=" + x.value + ",";
        return s + "]";
    }

    struct ContactM {
        vector<string> address;
        vector<Ann> email, phone;
        string name;
        string h() const { return hex(H({ref::S(name), Ls(address), LA(email), LA(phone)})); }
        unique_ptr<eg::ContactInformation> build() const
        {
            return make_unique<eg::ContactInformation>(address, buildA(email), buildA(phone), name);
        }
        string str() const
        {
            return "{" + name + strs(address) + model::str(email) + model::str(phone) + "}";
        }
    };
    typedef optional<ContactM> Contact;
    inline string hC(const Contact &c) { return c ? c->h() : string("null"); }
    inline string str(const Contact &c) { return c ? c->str() : string("-"); }
    inline unique_ptr<eg::ContactInformation> buildC(const Contact &c)
    {
        return c ? c->build() : nullptr;
    }
    inline Contact readC(const eg::ContactInformation *c)
    {
        if (!c)
            return {};
        ContactM m;
        m.name = c->getName();
        m.address = c->getAddressLine();
        for (auto a : c->getEmail())
            m.email.push_back({a.get().getAnnotation(), a.get().getValue()});
        for (auto a : c->getPhone())
            m.phone.push_back({a.get().getAnnotation(), a.get().getValue()});
        return m;
    }

    struct UnitM {
        string id, name;
        int type = 15;
        Contact contact;
        string h() const
        {
            return hex(H({ref::S(id), ref::S(name), UNIT_TYPES[type], hC(contact)}));
        }
        unique_ptr<eg::GeopoliticalUnit> build() const
        {
            if (contact)
                return make_unique<eg::GeopoliticalUnit>(id, name, (eg::ReportingUnitType)type,
                                                         contact->build());
            return make_unique<eg::GeopoliticalUnit>(id, name, (eg::ReportingUnitType)type);
        }
        string str() const
        {
            return "U{" + id + "," + name + "," + std::to_string(type) + model::str(contact) + "}";
        }
        static UnitM read(const eg::GeopoliticalUnit &u)
        {
            return {u.getObjectId(), u.getName(), (int)u.getType(), readC(u.getContactInformation())};
        }
    };
    struct StyleM {
        string id;
        vector<string> units, parties;
        string image;
        string h() const { return hex(H({ref::S(id), Ls(units), Ls(parties), ref::S(image)})); }
        unique_ptr<eg::BallotStyle> build() const
        {
            return make_unique<eg::BallotStyle>(id, units, parties, image);
        }
        string str() const { return "B{" + id + strs(units) + strs(parties) + image + "}"; }
        static StyleM read(const eg::BallotStyle &b)
        {
            return {b.getObjectId(), b.getGeopoliticalUnitIds(), b.getPartyIds(), b.getImageUri()};
        }
    };
    // a party always has a name text (possibly empty) once built
    struct PartyM {
        string id;
        vector<Lang> name;
        string abbrev, color, logo;
        string h() const
        {
            return hex(
              H({ref::S(id), hTxt(name), ref::S(abbrev), ref::S(color), ref::S(logo)}));
        }
        unique_ptr<eg::Party> build() const
        {
            return make_unique<eg::Party>(id, buildTxt(name), abbrev, color, logo);
        }
        string str() const
        {
            return "P{" + id + model::str(Txt(name)) + abbrev + "," + color + "," + logo + "}";
        }
        static PartyM read(const eg::Party &p)
        {
            auto n = readTxt(p.getName());
            return {p.getObjectId(), n ? *n : vector<Lang>{{"<null>", "<null>"}}, p.getAbbreviation(),
                    p.getColor(), p.getLogoUri()};
        }
    };
    struct CandM {
        string id;
        vector<Lang> name;
        string party, image;
        bool writein = false;
        string h() const { return hex(H({ref::S(id), hTxt(name), ref::S(party), ref::S(image)})); }
        unique_ptr<eg::Candidate> build() const
        {
            return make_unique<eg::Candidate>(id, buildTxt(name), party, image, writein);
        }
        string str() const
        {
            return "C{" + id + model::str(Txt(name)) + party + "," + image + (writein ? "W" : "") +
                   "}";
        }
        static CandM read(const eg::Candidate &p)
        {
            auto n = readTxt(p.getName());
            return {p.getObjectId(), n ? *n : vector<Lang>{{"<null>", "<null>"}}, p.getPartyId(),
                    p.getImageUri(), p.isWriteIn()};
        }
    };
    struct SelM {
        string id, cand;
        uint64_t seq = 0;
        Z hz() const { return H({ref::S(id), ref::S(seq), ref::S(cand)}); }
        string h() const { return hex(hz()); }
        unique_ptr<eg::SelectionDescription> build() const
        {
            return make_unique<eg::SelectionDescription>(id, cand, seq);
        }
        string str() const { return "S{" + id + "," + cand + "," + std::to_string(seq) + "}"; }
        static SelM read(const eg::SelectionDescription &s)
        {
            return {s.getObjectId(), s.getCandidateId(), s.getSequenceOrder()};
        }
        bool operator==(const SelM &o) const
        {
            return id == o.id && cand == o.cand && seq == o.seq;
        }
    };
    template <typename T> inline vector<T> bySeq(vector<T> v)
    {
        std::stable_sort(v.begin(), v.end(), [](const T &a, const T &b) { return a.seq < b.seq; });
        return v;
    }
    struct ConM {
        string id, district;
        uint64_t seq = 0;
        int var = 6; // n_of_m
        uint64_t n = 1, allowed = 1;
        string name;
        Txt title, sub;
        vector<SelM> sels; // list order (hash order)
        Z hz() const
        {
            vector<string> v;
            for (auto &s : sels)
                v.push_back(s.h());
            return H({ref::S(id), ref::S(seq), ref::S(district), VARIATIONS[var], hTxt(title),
                      hTxt(sub), ref::S(name), ref::S(n), ref::S(allowed), L(v)});
        }
        string h() const { return hex(hz()); }
        vector<SelM> placeholders() const
        {
            uint64_t m = 0;
            for (auto &s : sels)
                m = std::max(m, s.seq);
            vector<SelM> v;
            for (uint64_t i = 0; i < n; i++) {
                string q = id + "-" + std::to_string(m + 1 + i);
                v.push_back({q + "-placeholder", q + "-candidate", m + 1 + i});
            }
            return v;
        }
        vector<unique_ptr<eg::SelectionDescription>> buildSels() const
        {
            vector<unique_ptr<eg::SelectionDescription>> v;
            for (auto &s : sels)
                v.push_back(s.build());
            return v;
        }
        unique_ptr<eg::ContestDescription> build() const
        {
            return make_unique<eg::ContestDescription>(
              id, district, seq, (eg::VoteVariationType)var, n, allowed, name, buildTxt(title),
              buildTxt(sub), buildSels());
        }
        // selection order is part of the hash but is not observable: str() sorts
        string str() const
        {
            string s = "K{" + id + "," + district + "," + std::to_string(seq) + "," +
                       std::to_string(var) + ",n" + std::to_string(n) + ",a" +
                       std::to_string(allowed) + "," + name + model::str(title) + model::str(sub);
            for (auto &x : bySeq(sels))
                s += x.str();
            return s + "}";
        }
        static ConM read(const eg::ContestDescription &c)
        {
            ConM m;
            m.id = c.getObjectId();
            m.district = c.getElectoralDistrictId();
            m.seq = c.getSequenceOrder();
            m.var = (int)c.getVoteVariation();
            m.n = c.getNumberElected();
            m.allowed = c.getVotesAllowed();
            m.name = c.getName();
            m.title = readTxt(c.getBallotTitle());
            m.sub = readTxt(c.getBallotSubtitle());
            for (auto s : c.getSelections())
                m.sels.push_back(SelM::read(s.get()));
            return m;
        }
        uint64_t limit() const { return allowed == 0 ? n : allowed; }
        bool valid() const
        {
            if (n > sels.size() || (allowed != 0 && allowed < n))
                return false;
            std::set<string> ci, si;
            std::set<uint64_t> q;
            for (auto &s : sels) {
                if (s.cand.empty() || s.id.empty())
                    return false;
                if (!ci.insert(s.cand).second || !si.insert(s.id).second || !q.insert(s.seq).second)
                    return false;
            }
            return true;
        }
    };
    // ISO 8601 in UTC, whole seconds
    inline string iso(int64_t t)
    {
        time_t tt = (time_t)t;
        struct tm g;
        gmtime_r(&tt, &g);
        char b[64];
        strftime(b, sizeof b, "%Y-%m-%dT%H:%M:%SZ", &g);
        return b;
    }
    struct ManM {
        string scope = "scope";
        int type = 1;
        int64_t start = 1577836800, end = 1577836800;
        vector<UnitM> units;
        vector<PartyM> parties;
        vector<CandM> cands;
        vector<ConM> cons;
        vector<StyleM> styles;
        Txt name;
        Contact contact;
        template <typename T> static string LH(const vector<T> &v)
        {
            vector<string> r;
            for (auto &x : v)
                r.push_back(x.h());
            return L(r);
        }
        Z hz() const
        {
            return H({ref::S(scope), ELECTION_TYPES[type], iso(start), iso(end), hTxt(name),
                      hC(contact), LH(units), LH(parties), LH(cons), LH(styles)});
        }
        template <typename E, typename T>
        static vector<unique_ptr<E>> buildV(const vector<T> &v)
        {
            vector<unique_ptr<E>> r;
            for (auto &x : v)
                r.push_back(x.build());
            return r;
        }
        unique_ptr<eg::Manifest> build() const
        {
            using std::chrono::system_clock;
            return make_unique<eg::Manifest>(
              scope, (eg::ElectionType)type, system_clock::from_time_t(start),
              system_clock::from_time_t(end), buildV<eg::GeopoliticalUnit>(units),
              buildV<eg::Party>(parties), buildV<eg::Candidate>(cands),
              buildV<eg::ContestDescription>(cons), buildV<eg::BallotStyle>(styles), buildTxt(name),
              buildC(contact));
        }
        string str() const
        {
            string s = "M{" + scope + "," + std::to_string(type) + "," + iso(start) + "," + iso(end) +
                       model::str(name) + model::str(contact);
            for (auto &x : units)
                s += x.str();
            for (auto &x : parties)
                s += x.str();
            for (auto &x : cands)
                s += x.str();
            for (auto &x : bySeq(cons))
                s += x.str();
            for (auto &x : styles)
                s += x.str();
            return s + "}";
        }
        static ManM read(const eg::Manifest &m)
        {
            using std::chrono::system_clock;
            ManM r;
            r.scope = m.getElectionScopeId();
            r.type = (int)m.getElectionType();
            r.start = system_clock::to_time_t(m.getStartDate());
            r.end = system_clock::to_time_t(m.getEndDate());
            r.name = readTxt(m.getName());
            r.contact = readC(m.getContactInformation());
            for (auto x : m.getGeopoliticalUnits())
                r.units.push_back(UnitM::read(x.get()));
            for (auto x : m.getParties())
                r.parties.push_back(PartyM::read(x.get()));
            for (auto x : m.getCandidates())
                r.cands.push_back(CandM::read(x.get()));
            for (auto x : m.getContests())
                r.cons.push_back(ConM::read(x.get()));
            for (auto x : m.getBallotStyles())
                r.styles.push_back(StyleM::read(x.get()));
            return r;
        }
        bool valid() const
        {
            std::set<string> u, b, p, c, k;
            std::set<uint64_t> q;
            for (auto &x : units)
                if (x.id.empty() || !u.insert(x.id).second)
                    return false;
            for (auto &x : parties)
                if (x.id.empty() || !p.insert(x.id).second)
                    return false;
            for (auto &x : styles) {
                if (x.id.empty() || !b.insert(x.id).second || x.units.empty())
                    return false;
                for (auto &y : x.units)
                    if (!u.count(y))
                        return false;
            }
            for (auto &x : cands)
                if (x.id.empty() || !c.insert(x.id).second || (!x.party.empty() && !p.count(x.party)))
                    return false;
            for (auto &x : cons)
                if (x.id.empty() || !k.insert(x.id).second || !q.insert(x.seq).second ||
                    x.district.empty() || !u.count(x.district) || !x.valid())
                    return false;
            return true;
        }
        const StyleM *style(const string &id) const
        {
            for (auto &s : styles)
                if (s.id == id)
                    return &s;
            return nullptr;
        }
        vector<ConM> contestsFor(const string &styleId) const
        {
            vector<ConM> v;
            auto s = style(styleId);
            for (auto &c : cons)
                if (std::count(s->units.begin(), s->units.end(), c.district))
                    v.push_back(c);
            return bySeq(v);
        }
        bool writeinCand(const string &id) const
        {
            for (auto &c : cands)
                if (c.id == id && c.writein)
                    return true;
            return false;
        }
    };

    // ---- ballots ----
    struct BSel {
        string id;
        uint64_t vote = 0;
        string writein;
        bool ph = false;
    };
    struct BCon {
        string id;
        vector<BSel> sels;
    };
    struct Bal {
        string id = "ballot", style;
        vector<BCon> cons;
        unique_ptr<eg::PlaintextBallot> build() const
        {
            vector<unique_ptr<eg::PlaintextBallotContest>> cs;
            for (auto &c : cons) {
                vector<unique_ptr<eg::PlaintextBallotSelection>> ss;
                for (auto &s : c.sels)
                    ss.push_back(make_unique<eg::PlaintextBallotSelection>(s.id, s.vote, s.ph, s.writein));
                cs.push_back(make_unique<eg::PlaintextBallotContest>(c.id, std::move(ss)));
            }
            return make_unique<eg::PlaintextBallot>(id, style, std::move(cs));
        }
        string str() const
        {
            string s = id + "/" + style;
            for (auto &c : cons) {
                s += " " + c.id + "(";
                for (auto &x : c.sels)
                    s += x.id + "=" + std::to_string(x.vote) +
                         (x.writein.empty() ? "" : "'" + x.writein.substr(0, 12) + "'") + ",";
                s += ")";
            }
            return s;
        }
        static Bal read(const eg::PlaintextBallot &b)
        {
            Bal r;
            r.id = b.getObjectId();
            r.style = b.getStyleId();
            for (auto c : b.getContests()) {
                BCon k;
                k.id = c.get().getObjectId();
                for (auto s : c.get().getSelections())
                    k.sels.push_back({s.get().getObjectId(), s.get().getVote(), s.get().getWriteIn(),
                                      s.get().getIsPlaceholder()});
                r.cons.push_back(k);
            }
            return r;
        }
    };

    // Nonces(seed, header).get(i)
    inline Z nonceAt(const Z &seed, const string &header, uint64_t i)
    {
        return H({ref::S(H({ref::S(seed), header})), ref::S(i)});
    }

    // ---- what the encrypted ballot must be ----
    struct ESel {
        string id;
        uint64_t seq, vote;
        bool ph;
        Z desc, nonce;
    };
    struct ECon {
        string id;
        uint64_t seq, n;
        Z desc, nonce, proofNonce, extNonce;
        vector<ESel> sels;
        bool overvote = false;
        vector<string> marked;                          // overvoted choices
        vector<std::pair<string, string>> writeins;     // selection id, text
        nlohmann::json record() const
        {
            nlohmann::json j;
            if (overvote) {
                j["error"] = "overvote";
                j["error_data"] = marked;
            }
            for (auto &w : writeins)
                j["write_ins"][w.first] = w.second;
            return j;
        }
    };
    struct EBal {
        bool refused = false;
        Z seed; // nonce seed
        vector<ECon> cons;
    };
    inline EBal expected(const ManM &m, const Z &mhash, const Bal &b, const Z &nonce)
    {
        EBal e;
        if (!m.style(b.style)) {
            e.refused = true;
            return e;
        }
        e.seed = H({ref::S(mhash), ref::S(b.id), ref::S(nonce)});
        for (auto &c : m.contestsFor(b.style)) {
            ECon k;
            k.id = c.id;
            k.seq = c.seq;
            k.n = c.n;
            k.desc = c.hz();
            k.nonce = nonceAt(k.desc, ref::S(e.seed), c.seq);
            k.proofNonce = nonceAt(k.desc, ref::S(e.seed), c.seq + 1);
            k.extNonce = nonceAt(k.nonce, "constant-extended-data", 0);
            const BCon *in = nullptr;
            for (auto &x : b.cons)
                if (x.id == c.id && !in)
                    in = &x;
            auto find = [&](const string &id) -> const BSel * {
                if (in)
                    for (auto &s : in->sels)
                        if (s.id == id)
                            return &s;
                return nullptr;
            };
            uint64_t marks = 0, sum = 0;
            for (auto &s : bySeq(c.sels)) {
                auto v = find(s.id);
                if (v && v->vote) {
                    marks++;
                    sum += v->vote;
                }
            }
            k.overvote = marks > c.n || sum > c.limit();
            uint64_t count = 0;
            for (auto &s : bySeq(c.sels)) {
                auto v = find(s.id);
                uint64_t vote = v ? v->vote : 0;
                if (vote && k.overvote)
                    k.marked.push_back(s.id);
                if (vote && m.writeinCand(s.cand))
                    k.writeins.push_back({s.id, v->writein});
                if (!k.overvote && vote > 1)
                    e.refused = true;
                if (k.overvote)
                    vote = 0;
                count += vote;
                Z d = s.hz();
                k.sels.push_back({s.id, s.seq, vote, false, d, nonceAt(d, ref::S(k.nonce), s.seq)});
            }
            for (auto &s : c.placeholders()) {
                uint64_t vote = count < c.n;
                count += vote;
                Z d = s.hz();
                k.sels.push_back({s.id, s.seq, vote, true, d, nonceAt(d, ref::S(k.nonce), s.seq)});
            }
            e.cons.push_back(k);
        }
        return e;
    }

    // ---- an election to encrypt for ----
    struct Election {
        ManM man;
        Z mhash, secret, pub, commitment, base, ext;
        uint64_t guardians = 1, quorum = 1;
        unique_ptr<eg::Manifest> manifest;
        unique_ptr<eg::InternalManifest> internal;
        unique_ptr<eg::CiphertextElectionContext> context;
        Election(const ManM &m, const Z &sk = 65537, const Z &commit = 7)
            : man(m), mhash(m.hz()), secret(sk), commitment(commit)
        {
            pub = ref::powm(ref::G(), secret);
            base = H({ref::S(ref::P()), ref::S(ref::Q()), ref::S(ref::G()), ref::S(guardians),
                      ref::S(quorum), ref::S(mhash)});
            ext = H({ref::S(base), ref::S(commitment)});
            manifest = man.build();
            internal = make_unique<eg::InternalManifest>(*manifest);
            context = eg::CiphertextElectionContext::make(guardians, quorum, ref::mkP(pub),
                                                          ref::mkQ(commitment),
                                                          manifest->crypto_hash());
        }
        // 0, 1, .. or -1
        int dec(const eg::ElGamalCiphertext &c) const
        {
            Z a = ref::val(*c.getPad()), b = ref::val(*c.getData());
            Z m = ref::mulp(b, ref::inv(ref::powm(a, secret)));
            Z k = 1;
            for (int i = 0; i < 16; i++) {
                if (m == k)
                    return i;
                k = ref::mulp(k, ref::G());
            }
            return -1;
        }
    };

    // A contest with n seats and `sels` selections numbered by `seqs`
    inline ConM contest(const string &id, const string &district, uint64_t seq, uint64_t n,
                        uint64_t allowed, const vector<uint64_t> &seqs, int var = 6)
    {
        ConM c;
        c.id = id;
        c.district = district;
        c.seq = seq;
        c.n = n;
        c.allowed = allowed;
        c.var = var;
        c.name = id + " name";
        int k = 0;
        for (auto q : seqs) {
            string s = id + "-s" + std::to_string(k++);
            c.sels.push_back({s, s + "-cand", q});
        }
        return c;
    }
    // candidates for every selection; writeins: ids of selections with a write-in candidate
    inline void addCandidates(ManM &m, const vector<string> &writeins = {})
    {
        for (auto &c : m.cons)
            for (auto &s : c.sels)
                m.cands.push_back({s.cand, {}, "", "", std::count(writeins.begin(), writeins.end(), s.id) > 0});
    }
} // namespace model
