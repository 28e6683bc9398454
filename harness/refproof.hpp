// Independent evaluation of the published verification equations on an
// encrypted ballot (GMP/OpenSSL only).
#pragma once
#include "ref.hpp"
#include <electionguard/ballot.hpp>
#include <electionguard/chaum_pedersen.hpp>

namespace rp
{
    namespace eg = electionguard;
    using ref::H;
    using ref::hex;
    using ref::mulp;
    using ref::powm;
    using ref::val;
    using ref::Z;
    inline Z qmod(const Z &a) { return ref::mod(a, ref::Q()); }
    inline bool residue(const Z &a) { return a > 0 && a < ref::P() && powm(a, ref::Q()) == 1; }
    struct D {
        Z a0, b0, a1, b1, c0, c1, c, v0, v1;
    };
    struct C {
        Z a, b, c, v;
        uint64_t L;
    };
    inline D read(const eg::DisjunctiveChaumPedersenProof &p)
    {
        return {val(*p.getProofZeroPad()),       val(*p.getProofZeroData()),
                val(*p.getProofOnePad()),        val(*p.getProofOneData()),
                val(*p.getProofZeroChallenge()), val(*p.getProofOneChallenge()),
                val(*p.getChallenge()),          val(*p.getProofZeroResponse()),
                val(*p.getProofOneResponse())};
    }
    inline C read(const eg::ConstantChaumPedersenProof &p)
    {
        return {val(*p.getPad()), val(*p.getData()), val(*p.getChallenge()), val(*p.getResponse()),
                p.getConstant()};
    }
    inline bool ok(const D &d, const Z &al, const Z &be, const Z &k, const Z &q)
    {
        for (auto *e : {&al, &be, &d.a0, &d.b0, &d.a1, &d.b1})
            if (!residue(*e))
                return false;
        for (auto *e : {&d.c0, &d.c1, &d.v0, &d.v1})
            if (*e < 0 || *e >= ref::Q())
                return false;
        Z ch = H({hex(q), hex(al), hex(be), hex(d.a0), hex(d.b0), hex(d.a1), hex(d.b1)});
        return qmod(d.c0 + d.c1) == d.c && d.c == ch && powm(ref::G(), d.v0) == mulp(d.a0, powm(al, d.c0)) &&
               powm(ref::G(), d.v1) == mulp(d.a1, powm(al, d.c1)) &&
               powm(k, d.v0) == mulp(d.b0, powm(be, d.c0)) &&
               mulp(powm(ref::G(), d.c1), powm(k, d.v1)) == mulp(d.b1, powm(be, d.c1));
    }
    inline bool ok(const C &d, const Z &al, const Z &be, const Z &k, const Z &q)
    {
        for (auto *e : {&al, &be, &d.a, &d.b})
            if (!residue(*e))
                return false;
        if (d.c < 0 || d.c >= ref::Q() || d.v < 0 || d.v >= ref::Q())
            return false;
        Z ch = H({hex(q), hex(al), hex(be), hex(d.a), hex(d.b)});
        return d.c == ch && powm(ref::G(), d.v) == mulp(d.a, powm(al, d.c)) &&
               mulp(powm(ref::G(), qmod(d.c * Z((unsigned long)d.L))), powm(k, d.v)) == mulp(d.b, powm(be, d.c));
    }
    // every hash and every proof of the ballot, by the published equations
    inline std::string check(const eg::CiphertextBallot &b, const Z &manifest, const Z &k, const Z &q)
    {
        if (val(*b.getManifestHash()) != manifest)
            return "manifest hash";
        std::vector<std::string> chs = {ref::S(b.getObjectId()), hex(manifest)};
        for (auto c : b.getContests()) {
            auto &con = c.get();
            std::vector<std::string> shs = {ref::S(con.getObjectId()), hex(val(*con.getDescriptionHash()))};
            Z A = 1, B = 1;
            for (auto s : con.getSelections()) {
                auto &sel = s.get();
                Z al = val(*sel.getCiphertext()->getPad()), be = val(*sel.getCiphertext()->getData());
                Z h = H({ref::S(sel.getObjectId()), hex(val(*sel.getDescriptionHash())), hex(H({hex(al), hex(be)}))});
                if (val(*sel.getCryptoHash()) != h)
                    return "selection hash";
                if (!sel.getProof() || !ok(read(*sel.getProof()), al, be, k, q))
                    return "selection proof";
                A = mulp(A, al), B = mulp(B, be);
                shs.push_back(hex(h));
            }
            Z h = H(shs);
            if (val(*con.getCryptoHash()) != h)
                return "contest hash";
            if (val(*con.getCiphertextAccumulation()->getPad()) != A ||
                val(*con.getCiphertextAccumulation()->getData()) != B)
                return "accumulation";
            if (!con.getProof() || !ok(read(*con.getProof()), A, B, k, q))
                return "contest proof";
            chs.push_back(hex(h));
        }
        if (val(*b.getCryptoHash()) != H(chs))
            return "ballot hash";
        return "";
    }
} // namespace rp
