// Ciphertexts and content hashes an encrypted ballot must have, from the model.
#pragma once
#include "model.hpp"
namespace model
{
    inline std::pair<Z, Z> cipher(const Z &pub, const Z &nonce, uint64_t vote)
    {
        Z a = ref::powm(ref::G(), nonce), b = ref::powm(pub, nonce);
        if (vote)
            b = ref::mulp(b, ref::powm(ref::G(), Z((unsigned long)vote)));
        return {a, b};
    }
    inline Z contentHash(const Election &el, const EBal &x, const string &ballotId)
    {
        vector<string> chs = {ref::S(ballotId), hex(el.mhash)};
        for (auto &c : x.cons) {
            vector<string> shs = {ref::S(c.id), hex(c.desc)};
            for (auto &s : c.sels) {
                auto ct = cipher(el.pub, s.nonce, s.vote);
                shs.push_back(hex(H({ref::S(s.id), hex(s.desc), hex(H({hex(ct.first), hex(ct.second)}))})));
            }
            chs.push_back(hex(H(shs)));
        }
        return H(chs);
    }
} // namespace model
