// B04: all bounded histories of encryptions by two devices; the chain of ballot
// codes is recomputed by the model after every step.
#include "mc.hpp"
#include "modelhash.hpp"
#include "osrand.hpp"
#include "spaces.hpp"
#include <electionguard/ballot_code.hpp>
#include <electionguard/ballot_compact.hpp>
using namespace space;
namespace eg = electionguard;

static int64_t g_clock = 1600000000;
namespace std
{
    namespace chrono
    {
        inline namespace _V2
        {
            system_clock::time_point system_clock::now() noexcept { return system_clock::time_point(std::chrono::seconds(g_clock)); }
        } // namespace _V2
    }     // namespace chrono
} // namespace std

enum Op { ENC, ENC_VERIFIED, COMPACT, BAD_STYLE, BAD_VOTE, BAD_COMPACT, NO_RANDOM, NO_RANDOM_LATE, TWICE, ZERO_TIME, NOPS };
static const char *opn[] = {"encrypt", "encrypt+verify", "compact", "unknown-style", "bad-vote", "compact-bad-vote", "no-randomness", "randomness-fails-late", "two-contests", "encrypt-at-time-0"};

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool quick = mc::opt().quick();
    ManM m;
    m.units = {{"u", "n"}, {"v", "n"}};
    m.styles = {{"style", {"u"}}, {"both", {"v", "u"}}};
    m.cons = {contest("con", "u", 3, 1, 2, {0}, 4), contest("con2", "v", 1, 1, 1, {0})};
    addCandidates(m);
    Election el(m);
    // warm up tables
    eg::encryptBallot(*Bal{"w", "style", {}}.build(), *el.internal, *el.context, *ref::mkQ(5), ref::mkQ(5), 1, false);
    struct Dev {
        uint64_t a, b, c;
        string loc;
    };
    vector<Dev> devs = {{91, 92, 93, "here"}, {0, ~0ull, 1, ""}};
    auto devHash = [](const Dev &d) { return H({ref::S(d.a), ref::S(d.b), ref::S(d.c), ref::S(d.loc)}); };
    // (op, mediator) sequences
    int depth = quick ? 3 : 4;
    uint64_t A = NOPS * 2, n = 1;
    for (int i = 0; i < depth; i++)
        n *= A;
    mc::note("alphabet", std::to_string(A));
    mc::for_all("histories", n, [&](uint64_t code) {
        // symmetric: the first step uses the first device
        if ((code % A) / NOPS == 1)
            return;
        eg::EncryptionDevice d0(devs[0].a, devs[0].b, devs[0].c, devs[0].loc), d1(devs[1].a, devs[1].b, devs[1].c, devs[1].loc);
        eg::EncryptionMediator m0(*el.internal, *el.context, d0), m1(*el.internal, *el.context, d1);
        eg::EncryptionMediator *med[2] = {&m0, &m1};
        Z chain[2] = {devHash(devs[0]), devHash(devs[1])};
        string a;
        g_clock = 1600000000;
        uint64_t c = code;
        for (int i = 0; i < depth; i++, c /= A) {
            int op = (int)(c % NOPS), who = (int)(c % A / NOPS);
            // the deeper steps only differ where it matters; two verified ballots in a row are slow
            if (op == ENC_VERIFIED && i > 1)
                return;
            a += string(i ? "; " : "") + opn[op] + "@" + std::to_string(who);
            // clock: forwards, standing still, backwards, zero
            g_clock = op == ZERO_TIME ? 0 : 1600000000 + (i == 1 ? 0 : i == 2 ? -5 : i);
            Bal b{"b" + std::to_string(i), "style", {{"con", {{"con-s0", 1}}}}};
            bool refuse = false;
            if (op == BAD_STYLE)
                b.style = "none", refuse = true;
            if (op == BAD_VOTE || op == BAD_COMPACT)
                b.cons[0].sels[0].vote = 2, refuse = true;
            if (op == TWICE)
                b.style = "both";
            if (op == NO_RANDOM || op == NO_RANDOM_LATE)
                refuse = true;
            auto p = b.build();
            unique_ptr<eg::CiphertextBallot> r;
            unique_ptr<eg::CompactCiphertextBallot> k;
            bool threw = false;
            osr::reset();
            if (op == NO_RANDOM || op == NO_RANDOM_LATE) {
                osr::st().on = true;
                // the first request is the ballot nonce's, later ones those of the proofs
                osr::st().plan = {{op == NO_RANDOM ? 0 : 5, osr::OPEN_FAILS}};
            }
            try {
                if (op == COMPACT || op == BAD_COMPACT)
                    k = med[who]->compactEncrypt(*p, false);
                else
                    r = med[who]->encrypt(*p, op == ENC_VERIFIED);
            } catch (const std::exception &) {
                threw = true;
            }
            bool faulted = osr::st().failed > 0;
            osr::reset();
            mc::step();
            if (refuse && !threw) {
                if ((op == NO_RANDOM || op == NO_RANDOM_LATE) && !faulted) {
                    // fewer requests than expected: the fault never happened
                } else {
                    mc::fail("a failing encryption returns a ballot", a);
                    return;
                }
            }
            if (!refuse && threw) {
                mc::fail("encryption fails in a history", a);
                return;
            }
            if (threw) {
                mc::state("threw" + hex(chain[0]).substr(0, 8) + hex(chain[1]).substr(0, 8) + std::to_string(code));
                continue;
            }
            Z seed = ref::val(r ? *r->getBallotCodeSeed() : *k->getBallotCodeSeed());
            Z got = ref::val(r ? *r->getBallotCode() : *k->getBallotCode());
            Z nonce = ref::val(r ? *r->getNonce() : *k->getNonce());
            uint64_t ts = r ? r->getTimestamp() : k->getTimestamp();
            mc::expect(seed == chain[who], "code seed is not the end of the chain", a);
            mc::expect(ts == (uint64_t)g_clock, "timestamp is not the time of encryption", a + " " + std::to_string(ts));
            auto x = expected(m, el.mhash, b, nonce);
            Z content = contentHash(el, x, b.id);
            if (r)
                mc::expect(ref::val(*r->getCryptoHash()) == content, "content hash of the ballot is wrong", a);
            Z want = H({hex(seed), ref::S(ts), hex(content)});
            mc::expect(got == want, "ballot code is not the hash of seed, timestamp and content", a);
            chain[who] = got;
            mc::state(hex(chain[0]).substr(0, 8) + hex(chain[1]).substr(0, 8) + std::to_string(i));
            if (i + 1 < depth) {
                // a submitted copy keeps its place in the chain
                if (r) {
                    auto s = eg::SubmittedBallot::from(*r, eg::BallotBoxState::cast);
                    mc::expect(ref::val(*s->getBallotCode()) == got && ref::val(*s->getBallotCodeSeed()) == seed && s->getTimestamp() == ts,
                               "submitted ballot leaves the chain", a);
                }
            }
        }
        if (code % 1999 == 0)
            mc::sample(a);
    });
    // device identities
    vector<uint64_t> ids = {0, 1, 2, 255, 256, 1ull << 32, ~0ull};
    vector<string> locs = {"", "a", "null", "polling place 7", string(63, 'p'), string(64, 'p'), string(65, 'p'), string(300, 'p') + "q"};
    mc::for_all("devices", ids.size() * ids.size() * ids.size() * locs.size(), [&](uint64_t i) {
        Dev d{ids[i % 7], ids[i / 7 % 7], ids[i / 49 % 7], locs[i / 343]};
        eg::EncryptionDevice dev(d.a, d.b, d.c, d.loc);
        mc::expect(ref::val(*dev.getHash()) == devHash(d), "device hash is wrong", std::to_string(i));
        mc::expect(ref::val(*eg::BallotCode::getHashForDevice(d.a, d.b, d.c, d.loc)) == devHash(d), "device hash is wrong");
        mc::step();
        mc::state("dev" + std::to_string(i));
    });
    // ballot codes at all kinds of times
    vector<uint64_t> times = {0, 1, 9, 10, 255, 256, 65535, 65536, 999999999, 1600000000, 2147483647, 2147483648ull, 4294967295ull, 4294967296ull, 4294967297ull, 5894967296ull,
                              9999999999ull, 1600000000000ull, 1ull << 48, 1600000000000000000ull, (1ull << 63) - 1, 1ull << 63, (1ull << 63) + 1, ~0ull - 1, ~0ull};
    vector<Z> qs = {0, 1, 255, Z(ref::Q() - 1), ref::H({"x"}), Z(ref::H({"y"}) >> 9)};
    mc::for_all("times", times.size(), [&](uint64_t i) {
        uint64_t t = times[i];
        for (auto &a : qs)
            for (auto &b : qs) {
                mc::step();
                mc::expect(ref::val(*eg::BallotCode::getBallotCode(*ref::mkQ(a), t, *ref::mkQ(b))) == H({hex(a), ref::S(t), hex(b)}),
                           "ballot code is not the hash of seed, timestamp and content", "time " + std::to_string(t) + " seed " + hex(a) + " hash " + hex(b));
            }
        mc::state("time" + std::to_string(t));
        Bal b{"b", "style", {{"con", {{"con-s0", 1}}}}};
        if (t == 0)
            return; // stands for the current time
        auto p = b.build();
        Z seed = qs[i % qs.size()], nonce = ref::H({"n", ref::S(i)});
        auto x = expected(m, el.mhash, b, nonce);
        Z content = contentHash(el, x, b.id), want = H({hex(seed), ref::S(t), hex(content)});
        auto r = eg::encryptBallot(*p, *el.internal, *el.context, *ref::mkQ(seed), ref::mkQ(nonce), t, false);
        auto k = eg::encryptCompactBallot(*p, *el.internal, *el.context, *ref::mkQ(seed), ref::mkQ(nonce), t, false);
        string w = "time " + std::to_string(t);
        mc::expect(r->getTimestamp() == t && k->getTimestamp() == t, "timestamp is not the time given", w);
        mc::expect(ref::val(*r->getBallotCode()) == want && ref::val(*k->getBallotCode()) == want, "ballot code is not the hash of seed, timestamp and content", w);
        auto y = eg::expandCompactCiphertextBallot(*k, *el.internal, *el.context);
        mc::expect(y->getTimestamp() == t && ref::val(*y->getBallotCode()) == want, "an expanded ballot leaves the chain", w);
    });
    return mc::finish();
}
