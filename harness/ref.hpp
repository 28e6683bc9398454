// Independent reference for the ElectionGuard arithmetic and hash, on GMP and
// OpenSSL: shares no code with the library under test.
#pragma once
#include <electionguard/group.hpp>
#include <gmpxx.h>
#include <openssl/hmac.h>
#include <openssl/sha.h>
#include <string>
#include <vector>

namespace ref
{
    typedef mpz_class Z;
#include "params.inc"
    inline const Z &P()
    {
        static Z z(PHEX, 16);
        return z;
    }
    inline const Z &Q()
    {
        static Z z(QHEX, 16);
        return z;
    }
    inline const Z &R()
    {
        static Z z(RHEX, 16);
        return z;
    }
    inline const Z &G()
    {
        static Z z(GHEX, 16);
        return z;
    }
    inline Z mod(const Z &a, const Z &m)
    {
        Z r;
        mpz_mod(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t());
        return r;
    }
    inline Z powm(const Z &b, const Z &e, const Z &m = P())
    {
        Z r;
        mpz_powm(r.get_mpz_t(), b.get_mpz_t(), e.get_mpz_t(), m.get_mpz_t());
        return r;
    }
    inline Z inv(const Z &a, const Z &m = P())
    {
        Z r;
        mpz_invert(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t());
        return r;
    }
    inline Z mulp(const Z &a, const Z &b) { return mod(a * b, P()); }
    inline Z limbs(const uint64_t *d, size_t n)
    {
        Z r;
        mpz_import(r.get_mpz_t(), n, -1, 8, 0, 0, d);
        return r;
    }
    inline Z val(const electionguard::ElementModP &e) { return limbs(e.get(), MAX_P_LEN); }
    inline Z val(const electionguard::ElementModQ &e) { return limbs(e.get(), MAX_Q_LEN); }
    template <typename T> inline Z val(const std::unique_ptr<T> &e) { return val(*e); }
    inline std::unique_ptr<electionguard::ElementModP> mkP(const Z &z)
    {
        std::vector<uint64_t> v(MAX_P_LEN, 0);
        size_t n;
        mpz_export(v.data(), &n, -1, 8, 0, 0, z.get_mpz_t());
        return std::make_unique<electionguard::ElementModP>(v, true);
    }
    inline std::unique_ptr<electionguard::ElementModQ> mkQ(const Z &z)
    {
        std::vector<uint64_t> v(MAX_Q_LEN, 0);
        size_t n;
        mpz_export(v.data(), &n, -1, 8, 0, 0, z.get_mpz_t());
        return std::make_unique<electionguard::ElementModQ>(v, true);
    }
    // big-endian bytes, padded to len
    inline std::vector<uint8_t> bytes(const Z &z, size_t len)
    {
        std::vector<uint8_t> v(len, 0);
        size_t n = (mpz_sizeinbase(z.get_mpz_t(), 2) + 7) / 8;
        if (z == 0)
            return v;
        size_t c;
        mpz_export(v.data() + (len - n), &c, 1, 1, 1, 0, z.get_mpz_t());
        return v;
    }
    inline Z frombytes(const std::vector<uint8_t> &b)
    {
        Z r;
        mpz_import(r.get_mpz_t(), b.size(), 1, 1, 1, 0, b.data());
        return r;
    }
    // upper-case hex of whole bytes without leading zero bytes; "00" for zero
    inline std::string hex(const Z &z)
    {
        if (z == 0)
            return "00";
        std::string s = z.get_str(16);
        if (s.size() % 2)
            s = "0" + s;
        for (auto &c : s)
            c = toupper(c);
        return s;
    }
    inline std::string hexbytes(const std::vector<uint8_t> &b)
    {
        static const char *d = "0123456789ABCDEF";
        std::string s;
        for (auto x : b) {
            s += d[x >> 4];
            s += d[x & 15];
        }
        return s;
    }
    inline std::vector<uint8_t> sha256(const std::string &s)
    {
        std::vector<uint8_t> o(32);
        SHA256((const unsigned char *)s.data(), s.size(), o.data());
        return o;
    }
    inline std::vector<uint8_t> hmac(const std::vector<uint8_t> &k, const std::vector<uint8_t> &m)
    {
        std::vector<uint8_t> o(32);
        unsigned n = 32;
        ::HMAC(EVP_sha256(), k.data(), (int)k.size(), m.data(), m.size(), o.data(), &n);
        return o;
    }
    // An item to hash, already rendered to its string form by the rules of the
    // ElectionGuard hash function.
    inline std::string S(const std::string &s) { return s.empty() ? "null" : s; }
    inline std::string S(const char *s) { return S(std::string(s)); }
    inline std::string S(uint64_t v) { return v == 0 ? "null" : std::to_string(v); }
    inline std::string S(const Z &z) { return hex(z); }
    inline Z H(const std::vector<std::string> &items)
    {
        std::string s = "|";
        if (items.empty())
            s += "null|";
        for (auto &i : items)
            s += i + "|";
        return mod(frombytes(sha256(s)), Q());
    }
    // a nested list
    inline std::string L(const std::vector<std::string> &items)
    {
        return items.empty() ? "null" : hex(H(items));
    }
} // namespace ref
