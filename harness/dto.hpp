// Plain copies of encrypted ballots: read from the library's objects, altered,
// rebuilt through the public constructors, compared, and judged by the
// published verification equations (GMP/OpenSSL only).
#pragma once
#include "model.hpp"
#include "refproof.hpp"
#include <map>

namespace dto
{
    namespace eg = electionguard;
    using ref::H;
    using ref::hex;
    using ref::mkP;
    using ref::mkQ;
    using ref::mulp;
    using ref::val;
    using ref::Z;
    using std::optional;
    using std::string;
    using std::unique_ptr;
    using std::vector;
    typedef optional<Z> OZ;
    inline OZ rd(const eg::ElementModQ *e) { return e ? OZ(val(*e)) : OZ(); }
    inline unique_ptr<eg::ElementModQ> bq(const OZ &z) { return z ? mkQ(*z) : nullptr; }
    inline string str(const OZ &z) { return z ? hex(*z) : string("-"); }

    struct CT {
        Z a, b;
        string str() const { return hex(a) + "," + hex(b); }
        unique_ptr<eg::ElGamalCiphertext> build() const { return std::make_unique<eg::ElGamalCiphertext>(mkP(a), mkP(b)); }
        static CT read(const eg::ElGamalCiphertext &c) { return {val(*c.getPad()), val(*c.getData())}; }
    };
    struct HC {
        Z pad;
        vector<uint8_t> data, mac;
        string str() const { return hex(pad) + "," + ref::hexbytes(data) + "," + ref::hexbytes(mac); }
        unique_ptr<eg::HashedElGamalCiphertext> build() const { return std::make_unique<eg::HashedElGamalCiphertext>(mkP(pad), data, mac); }
        static HC read(const eg::HashedElGamalCiphertext &c) { return {val(*c.getPad()), c.getData(), c.getMac()}; }
    };
    inline string str(const rp::D &d)
    {
        string s;
        for (auto *z : {&d.a0, &d.b0, &d.a1, &d.b1, &d.c0, &d.c1, &d.c, &d.v0, &d.v1})
            s += hex(*z) + ",";
        return s;
    }
    inline string str(const rp::C &d) { return hex(d.a) + "," + hex(d.b) + "," + hex(d.c) + "," + hex(d.v) + "," + std::to_string(d.L); }
    inline unique_ptr<eg::DisjunctiveChaumPedersenProof> build(const rp::D &d)
    {
        return std::make_unique<eg::DisjunctiveChaumPedersenProof>(mkP(d.a0), mkP(d.b0), mkP(d.a1), mkP(d.b1), mkQ(d.c0), mkQ(d.c1), mkQ(d.c), mkQ(d.v0), mkQ(d.v1));
    }
    inline unique_ptr<eg::ConstantChaumPedersenProof> build(const rp::C &d)
    {
        return std::make_unique<eg::ConstantChaumPedersenProof>(mkP(d.a), mkP(d.b), mkQ(d.c), mkQ(d.v), d.L);
    }
    // proof checks are pure: remember their results
    template <typename T> inline bool okMemo(const T &d, const CT &c, const Z &k, const Z &q)
    {
        static std::map<string, bool> m;
        string key = str(d) + "/" + c.str() + "/" + hex(k) + "/" + hex(q);
        auto it = m.find(key);
        if (it == m.end())
            it = m.emplace(key, rp::ok(d, c.a, c.b, k, q)).first;
        return it->second;
    }

    struct Sel {
        string id;
        uint64_t seq = 0;
        Z desc;
        CT ct;
        bool ph = false;
        OZ nonce;
        Z hash;
        optional<rp::D> proof;
        string str(bool nonces = true) const
        {
            return "s{" + id + "," + std::to_string(seq) + "," + hex(desc) + "," + ct.str() + (ph ? ",P" : ",-") + (nonces ? dto::str(nonce) : "") + "," + hex(hash) + "," + (proof ? dto::str(*proof) : "-") + "}";
        }
        unique_ptr<eg::CiphertextBallotSelection> build() const
        {
            return std::make_unique<eg::CiphertextBallotSelection>(id, seq, *mkQ(desc), ct.build(), ph, bq(nonce), mkQ(hash), proof ? dto::build(*proof) : nullptr);
        }
        static Sel read(eg::CiphertextBallotSelection &s)
        {
            Sel r;
            r.id = s.getObjectId();
            r.seq = s.getSequenceOrder();
            r.desc = val(*s.getDescriptionHash());
            r.ct = CT::read(*s.getCiphertext());
            r.ph = s.getIsPlaceholder();
            r.nonce = rd(s.getNonce());
            r.hash = val(*s.getCryptoHash());
            if (s.getProof())
                r.proof = rp::read(*s.getProof());
            return r;
        }
        Z wantHash() const { return H({ref::S(id), hex(desc), hex(H({hex(ct.a), hex(ct.b)}))}); }
        string check(const Z &k, const Z &q) const
        {
            if (hash != wantHash())
                return "selection hash";
            if (!proof || !okMemo(*proof, ct, k, q))
                return "selection proof";
            return "";
        }
    };
    struct Con {
        string id;
        uint64_t seq = 0;
        Z desc;
        vector<Sel> sels;
        OZ nonce;
        CT acc;
        Z hash;
        optional<rp::C> proof;
        optional<HC> ext;
        string str(bool nonces = true) const
        {
            string s = "c{" + id + "," + std::to_string(seq) + "," + hex(desc) + "," + (nonces ? dto::str(nonce) : "") + "," + acc.str() + "," + hex(hash) + "," + (proof ? dto::str(*proof) : "-") + "," + (ext ? ext->str() : "-");
            for (auto &x : model::bySeq(sels))
                s += x.str(nonces);
            return s + "}";
        }
        unique_ptr<eg::CiphertextBallotContest> build() const
        {
            vector<unique_ptr<eg::CiphertextBallotSelection>> v;
            for (auto &x : sels)
                v.push_back(x.build());
            return std::make_unique<eg::CiphertextBallotContest>(id, seq, *mkQ(desc), std::move(v), bq(nonce), acc.build(), mkQ(hash), proof ? dto::build(*proof) : nullptr, ext ? ext->build() : nullptr);
        }
        static Con read(eg::CiphertextBallotContest &c)
        {
            Con r;
            r.id = c.getObjectId();
            r.seq = c.getSequenceOrder();
            r.desc = val(*c.getDescriptionHash());
            for (auto s : c.getSelections())
                r.sels.push_back(Sel::read(s.get()));
            r.nonce = rd(c.getNonce());
            r.acc = CT::read(*c.getCiphertextAccumulation());
            r.hash = val(*c.getCryptoHash());
            if (c.getProof())
                r.proof = rp::read(*c.getProof());
            auto e = c.getHashedElGamalCiphertext();
            if (e)
                r.ext = HC::read(*e);
            return r;
        }
        CT wantAcc() const
        {
            CT r{1, 1};
            for (auto &s : sels)
                r.a = mulp(r.a, s.ct.a), r.b = mulp(r.b, s.ct.b);
            return r;
        }
        Z wantHash() const
        {
            vector<string> v = {ref::S(id), hex(desc)};
            for (auto &s : model::bySeq(sels))
                v.push_back(hex(s.hash));
            return H(v);
        }
        // without the selections' own proofs
        string checkOwn(const Z &k, const Z &q) const
        {
            if (sels.empty())
                return "no selections";
            if (hash != wantHash())
                return "contest hash";
            auto w = wantAcc();
            if (w.a != acc.a || w.b != acc.b)
                return "accumulation";
            if (!proof || !okMemo(*proof, acc, k, q))
                return "contest proof";
            return "";
        }
    };
    struct Ball {
        string id, style;
        Z manifest;
        OZ codeSeed, code, nonce;
        uint64_t timestamp = 0;
        Z hash;
        vector<Con> cons;
        string str(bool nonces = true) const
        {
            string s = "b{" + id + "," + style + "," + hex(manifest) + "," + dto::str(codeSeed) + "," + dto::str(code) + "," + (nonces ? dto::str(nonce) : "") + "," + std::to_string(timestamp) + "," + hex(hash);
            for (auto &x : model::bySeq(cons))
                s += x.str(nonces);
            return s + "}";
        }
        vector<unique_ptr<eg::CiphertextBallotContest>> buildCons() const
        {
            vector<unique_ptr<eg::CiphertextBallotContest>> v;
            for (auto &x : cons)
                v.push_back(x.build());
            return v;
        }
        unique_ptr<eg::CiphertextBallot> build() const
        {
            return std::make_unique<eg::CiphertextBallot>(id, style, *mkQ(manifest), bq(codeSeed), buildCons(), bq(code), timestamp, bq(nonce), mkQ(hash));
        }
        unique_ptr<eg::SubmittedBallot> buildSubmitted(eg::BallotBoxState st) const
        {
            return std::make_unique<eg::SubmittedBallot>(id, style, *mkQ(manifest), bq(codeSeed), buildCons(), bq(code), timestamp, bq(nonce), mkQ(hash), st);
        }
        static Ball read(const eg::CiphertextBallot &b)
        {
            Ball r;
            r.id = b.getObjectId();
            r.style = b.getStyleId();
            r.manifest = val(*b.getManifestHash());
            r.codeSeed = rd(b.getBallotCodeSeed());
            r.code = rd(b.getBallotCode());
            r.nonce = rd(b.getNonce());
            r.timestamp = b.getTimestamp();
            r.hash = val(*b.getCryptoHash());
            for (auto c : b.getContests())
                r.cons.push_back(Con::read(c.get()));
            return r;
        }
        Z wantHash() const
        {
            vector<string> v = {ref::S(id), hex(manifest)};
            for (auto &c : model::bySeq(cons))
                v.push_back(hex(c.hash));
            return H(v);
        }
        void rehash()
        {
            for (auto &c : cons) {
                for (auto &s : c.sels)
                    s.hash = s.wantHash();
                c.hash = c.wantHash();
            }
            hash = wantHash();
        }
        string check(const Z &mh, const Z &k, const Z &q) const
        {
            if (manifest != mh)
                return "manifest hash";
            if (cons.empty())
                return "no contests";
            if (hash != wantHash())
                return "ballot hash";
            for (auto &c : cons) {
                for (auto &s : c.sels) {
                    auto e = s.check(k, q);
                    if (!e.empty())
                        return e;
                }
                auto e = c.checkOwn(k, q);
                if (!e.empty())
                    return e;
            }
            return "";
        }
    };
} // namespace dto
