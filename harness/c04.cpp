// C04: hashed ElGamal: every message length, every mode, every alteration position.
#include "mc.hpp"
#include "ref.hpp"
#include <electionguard/elgamal.hpp>
using namespace electionguard;
using namespace std;
using ref::mkP;
using ref::mkQ;
using ref::val;
using ref::Z;
typedef vector<uint8_t> B;

static B msg(size_t n, int kind)
{
    B m(n);
    for (size_t i = 0; i < n; i++)
        m[i] = kind == 0 ? 0 : kind == 1 ? 0xff : uint8_t(i * 31 + 7);
    return m;
}
static B cat(const B &a, const B &b)
{
    B r = a;
    r.insert(r.end(), b.begin(), b.end());
    return r;
}
static B le32(uint32_t x) { return {uint8_t(x), uint8_t(x >> 8), uint8_t(x >> 16), uint8_t(x >> 24)}; }
// independent definition
struct Ref {
    Z pad;
    B data, mac;
};
static Ref refEncrypt(const B &padded, const Z &r, const Z &K, const Z &seed)
{
    Ref o;
    o.pad = ref::powm(ref::G(), r);
    Z kr = ref::powm(K, r);
    B session = ref::bytes(ref::H({ref::hex(o.pad), ref::hex(kr)}), 32), sd = ref::bytes(seed, 32);
    uint32_t blocks = padded.size() / 32;
    auto key = [&](uint32_t i) { return ref::hmac(session, cat(cat(le32(i), sd), le32(blocks * 256))); };
    for (uint32_t i = 0; i < blocks; i++) {
        auto k = key(i + 1);
        for (int j = 0; j < 32; j++)
            o.data.push_back(padded[i * 32 + j] ^ k[j]);
    }
    o.mac = ref::hmac(key(0), cat(ref::bytes(o.pad, 512), o.data));
    return o;
}

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool quick = mc::opt().quick();
    const Z Q = ref::Q(), P = ref::P();
    Z s = (Z(1) << 200) + 12345, K = ref::powm(ref::G(), s);
    auto kp = ElGamalKeyPair::fromSecret(*mkQ(s), true);
    vector<Z> nonces = {(Z(1) << 255) % Q, 1, Q - 1};
    vector<Z> seeds = {(Z(77) << 200), 0, Q - 1, 1};
    const size_t MAX = BYTES_512;

    // every length, padded (refuse / truncate) and unpadded
    size_t LMAX = quick ? 560 : 1100;
    mc::for_all("lengths", LMAX * 4, [&](uint64_t c) {
        size_t n = c / 4;
        int mode = c % 4; // 0 padded strict, 1 padded truncating, 2 unpadded, 3 unpadded "truncating"
        int kind = n % 3;
        B m = msg(n, kind);
        Z r = nonces[n % nonces.size()], seed = seeds[(n / 3) % seeds.size()];
        bool pad = mode < 2, trunc = mode & 1;
        string a = "len=" + to_string(n) + " mode=" + to_string(mode);
        bool fits = pad ? (n <= MAX || trunc) : (n > 0 && n % 32 == 0);
        unique_ptr<HashedElGamalCiphertext> ct;
        bool ok = true;
        try {
            ct = hashedElgamalEncrypt(m, *mkQ(r), *kp->getPublicKey(), *mkQ(seed), pad ? BYTES_512 : NO_PADDING, trunc);
        } catch (const exception &) {
            ok = false;
        }
        mc::step();
        mc::state("L" + to_string(c));
        if (ok != fits) {
            mc::fail(fits ? "a message that fits is refused" : "a message that does not fit is accepted", a);
            return;
        }
        if (!ok)
            return;
        B want = m;
        if (pad && n > MAX)
            want.resize(MAX);
        B padded;
        if (pad) {
            size_t pl = MAX - want.size();
            padded = {uint8_t(pl >> 8), uint8_t(pl)};
            padded.insert(padded.end(), want.begin(), want.end());
            padded.resize(MAX + 2, 0);
        } else
            padded = want;
        if (!quick || n % 4 == 0 || n > MAX - 34 || n < 34) {
            auto rr = refEncrypt(padded, r, K, seed);
            mc::expect(val(*ct->getPad()) == rr.pad, "pad differs from its definition", a);
            mc::expect(ct->getData() == rr.data, "data differs from its definition", a);
            mc::expect(ct->getMac() == rr.mac, "code differs from its definition", a);
        }
        mc::expect(ct->getData().size() == (pad ? MAX + 2 : n), "ciphertext length", a);
        B got = ct->decrypt(*mkQ(s), *mkQ(seed), pad);
        mc::step();
        mc::expect(got == want, "decryption returns other data", a + " got length " + to_string(got.size()));
        // decrypting twice gives the same
        if (n % 16 == 0)
            mc::expect(ct->decrypt(*mkQ(s), *mkQ(seed), pad) == want, "second decryption differs", a);
        if (c < 8)
            mc::sample(a);
    });

    // alterations
    auto reject = [&](const string &what, const Z &pad, const B &data, const B &mac, const Z &sk, const Z &seed, bool lookpad) {
        HashedElGamalCiphertext ct(mkP(pad), data, mac);
        mc::step();
        mc::state(mc::fnv(what + ref::hexbytes(data).substr(0, 64) + pad.get_str(16).substr(0, 32)));
        try {
            ct.decrypt(*mkQ(sk), *mkQ(seed), lookpad);
            mc::fail("altered ciphertext decrypts: " + what.substr(0, what.find(' ')), what);
        } catch (const exception &) {
        }
    };
    for (int variant = 0; variant < 3; variant++) {
        bool pad = variant != 2;
        B m = variant == 0 ? msg(40, 2) : variant == 1 ? msg(MAX, 2) : msg(64, 2);
        Z r = nonces[0], seed = seeds[0];
        auto ct = hashedElgamalEncrypt(m, *mkQ(r), *kp->getPublicKey(), *mkQ(seed), pad ? BYTES_512 : NO_PADDING, false);
        Z p = val(*ct->getPad());
        B d = ct->getData(), mac = ct->getMac();
        string vn = "v" + to_string(variant) + "-";
        vector<uint8_t> flips = quick ? vector<uint8_t>{0x01, 0x80} : vector<uint8_t>{0x01, 0x02, 0x10, 0x80, 0xff};
        mc::for_all(vn + "data-bytes", d.size() * flips.size(), [&](uint64_t c) {
            if (quick && variant == 1 && c % flips.size())
                return;
            B x = d;
            x[c / flips.size()] ^= flips[c % flips.size()];
            reject("data byte " + to_string(c / flips.size()), p, x, mac, s, seed, pad);
        });
        mc::for_all(vn + "mac-bytes", mac.size() * flips.size(), [&](uint64_t c) {
            B x = mac;
            x[c / flips.size()] ^= flips[c % flips.size()];
            reject("code byte " + to_string(c / flips.size()), p, d, x, s, seed, pad);
        });
        mc::for_all(vn + "pad-bits", quick ? 128 : 512, [&](uint64_t c) {
            Z x = p;
            unsigned bit = c * (quick ? 32 : 8) + (c % 8);
            mpz_combit(x.get_mpz_t(), bit);
            if (x >= P)
                return;
            reject("pad bit " + to_string(bit), x, d, mac, s, seed, pad);
        });
        // lengths: every truncation and extension of data and code
        mc::for_all(vn + "lengths", d.size() + 70, [&](uint64_t c) {
            if (c == d.size())
                return;
            if (quick && c < d.size() && c % 32 > 1 && c % 32 < 31)
                return;
            B x = d;
            x.resize(c, 0);
            reject("length of data " + to_string(c), p, x, mac, s, seed, pad);
        });
        mc::for_all(vn + "mac-lengths", 70, [&](uint64_t c) {
            if (c == mac.size())
                return;
            B x = mac;
            x.resize(c, 0);
            reject("length of code " + to_string(c), p, d, x, s, seed, pad);
        });
        mc::for_all(vn + "blocks", 24, [&](uint64_t c) {
            // exchange, drop, repeat and add whole blocks
            size_t n = d.size() / 32;
            B x = d;
            if (c < 8) {
                size_t i = c % n, j = (c + 1) % n;
                swap_ranges(x.begin() + 32 * i, x.begin() + 32 * i + 32, x.begin() + 32 * j);
            } else if (c < 16) {
                size_t i = (c - 8) % n;
                x.erase(x.begin() + 32 * i, x.begin() + 32 * i + 32);
            } else {
                size_t i = (c - 16) % n;
                B b(x.begin() + 32 * i, x.begin() + 32 * i + 32);
                x.insert(x.end(), b.begin(), b.end());
            }
            if (x == d)
                return;
            reject("blocks " + to_string(c), p, x, mac, s, seed, pad);
        });
        // keys and hashes
        vector<Z> ks = {s + 1, s - 1, 2, Q - s, 1, 0};
        mc::for_all(vn + "keys", ks.size(), [&](uint64_t c) { reject("key " + to_string(c), p, d, mac, ks[c], seed, pad); });
        vector<Z> hs;
        for (unsigned b = 0; b < 256; b += 8)
            hs.push_back(ref::mod(seed + (Z(1) << b), Q));
        mc::for_all(vn + "hashes", hs.size(), [&](uint64_t c) { reject("hash " + to_string(c), p, d, mac, s, hs[c], pad); });
        // code of another ciphertext, pad of another
        auto ct2 = hashedElgamalEncrypt(m, *mkQ(nonces[2]), *kp->getPublicKey(), *mkQ(seed), pad ? BYTES_512 : NO_PADDING, false);
        mc::for_all(vn + "mixed", 3, [&](uint64_t c) {
            reject("mixed parts", c == 0 ? val(*ct2->getPad()) : p, c == 1 ? ct2->getData() : d, c == 2 ? ct2->getMac() : mac, s, seed, pad);
        });
    }
    // two encryptions under different nonces or hashes have nothing in common
    mc::for_all("distinct", 16, [&](uint64_t c) {
        Z r1 = nonces[c % 3], r2 = nonces[(c + 1) % 3];
        Z s1 = seeds[c % 4], s2 = seeds[(c + 1) % 4];
        B m = msg(64, 0);
        auto enc = [&](const Z &r, const Z &sd) { return hashedElgamalEncrypt(m, *mkQ(r), *kp->getPublicKey(), *mkQ(sd), NO_PADDING, false)->getData(); };
        B a = enc(r1, s1), b = enc(r2, s1), d = enc(r1, s2);
        mc::step(3);
        mc::state("D" + to_string(c));
        auto share = [&](const B &p, const B &q) {
            for (int i = 0; i < 2; i++)
                for (int j = 0; j < 2; j++)
                    if (equal(p.begin() + 32 * i, p.begin() + 32 * i + 32, q.begin() + 32 * j))
                        return true;
            return false;
        };
        mc::expect(!share(a, b) && !share(a, d), "key stream repeats across nonces or hashes");
        mc::expect(!equal(a.begin(), a.begin() + 32, a.begin() + 32), "key stream repeats across blocks");
    });
    // long messages: the block number exceeds one byte, two bytes
    vector<size_t> blocks = {17, 18, 63, 64, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513};
    if (!quick)
        for (size_t b : {4095, 4096, 4097, 65535, 65536, 65537})
            blocks.push_back(b);
    mc::for_all("long", blocks.size(), [&](uint64_t c) {
        size_t n = 32 * blocks[c];
        B m = msg(n, 2);
        for (size_t i = 0; i < n; i++)
            m[i] ^= (uint8_t)(i >> 8);
        Z r = nonces[c % 3], seed = seeds[c % 4];
        string a = "blocks=" + to_string(blocks[c]);
        mc::step();
        mc::state("long" + to_string(c));
        auto ct = hashedElgamalEncrypt(m, *mkQ(r), *kp->getPublicKey(), *mkQ(seed), NO_PADDING, c % 2);
        auto rr = refEncrypt(m, r, K, seed);
        mc::expect(ct->getData() == rr.data && ct->getMac() == rr.mac, "a long message is not encrypted as defined", a);
        mc::expect(ct->decrypt(*mkQ(s), *mkQ(seed), false) == m, "decryption of a long message returns other data", a);
        Z p = val(*ct->getPad());
        B d = ct->getData(), mac = ct->getMac();
        for (size_t pos : {(size_t)0, n / 2, n - 33, n - 32, n - 1}) {
            B x = d;
            x[pos] ^= 1;
            reject("data byte " + to_string(pos) + " of " + to_string(n), p, x, mac, s, seed, false);
        }
        for (size_t k : {(size_t)1, (size_t)16, blocks[c] / 2}) {
            B x = d;
            x.resize(n - 32 * k);
            reject("length of data " + to_string(x.size()) + " of " + to_string(n), p, x, mac, s, seed, false);
            x = d;
            swap_ranges(x.begin(), x.begin() + 32, x.begin() + 32 * k);
            reject("blocks 0 and " + to_string(k) + " of " + to_string(n), p, x, mac, s, seed, false);
        }
    });
    // other keys, with and without tables
    vector<Z> ks = {2, 3, Q - 1, Q - 2, Z(1) << 64, (Z(1) << 64) - 1, (Z(1) << 255) % Q, Z(0xff)};
    mc::for_all("keys", ks.size() * 6, [&](uint64_t c) {
        Z k = ks[c / 6], r = nonces[c % 3], seed = seeds[c % 4];
        bool pad = c % 2;
        auto kq = ElGamalKeyPair::fromSecret(*mkQ(k), c % 4 < 2);
        B m = msg(pad ? 77 : 96, (int)(c % 3));
        string a = "key " + k.get_str(16).substr(0, 20) + " case " + to_string(c);
        mc::step();
        mc::state("key" + to_string(c));
        auto ct = hashedElgamalEncrypt(m, *mkQ(r), *kq->getPublicKey(), *mkQ(seed), pad ? BYTES_512 : NO_PADDING, false);
        mc::expect(ct->decrypt(*mkQ(k), *mkQ(seed), pad) == m, "decryption returns other data", a);
        for (auto &o : ks)
            if (o != k)
                reject("key " + o.get_str(16).substr(0, 20) + " for " + a, val(*ct->getPad()), ct->getData(), ct->getMac(), o, seed, pad);
    });
    // records with a correct code whose padding is malformed
    mc::for_all("paddings", 600, [&](uint64_t c) {
        B rec(512, 0);
        size_t pl = c < 540 ? c : 65535 - (c - 540);
        rec[0] = uint8_t(pl >> 8);
        rec[1] = uint8_t(pl);
        Z r = nonces[0], seed = seeds[0];
        mc::step();
        mc::state("padding" + to_string(c));
        // zero padding of any length that fits is a message of zeros
        for (size_t bad : {(size_t)0, (size_t)511, 512 - pl, 511 - pl, 512 - (pl + 1) / 2}) {
            if (quick && bad > 0 && bad != 511 && c % 16)
                continue;
            if (bad >= 512 || (bad && bad < 2))
                continue;
            B x = rec;
            if (bad)
                x[bad] = 1;
            bool ok = pl <= 510 && !(bad && bad >= 512 - pl);
            auto rr = refEncrypt(x, r, K, seed);
            HashedElGamalCiphertext ct(mkP(rr.pad), rr.data, rr.mac);
            string a = "padding " + to_string(pl) + " nonzero at " + to_string(bad);
            try {
                B got = ct.decrypt(*mkQ(s), *mkQ(seed), true);
                if (!ok)
                    mc::fail("a record with malformed padding is returned as a message", a);
                else
                    mc::expect(got == B(x.begin() + 2, x.end() - pl), "decryption returns other data", a);
            } catch (const exception &) {
                if (ok)
                    mc::fail("a well-formed record is refused", a);
            }
        }
    });
    return mc::finish();
}
