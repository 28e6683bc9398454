// C06: random draws under a controlled operating-system random source. All
// enumerated source streams, every single inverted bit of one stream, and every
// failing request (each way it can fail) of every operation that draws.
#include "mc.hpp"
#include "osrand.hpp"
#include "spaces.hpp"
#include <dirent.h>
#include <electionguard/ballot_compact.hpp>
#include <electionguard/chaum_pedersen.hpp>
#include <electionguard/group.h>
#include <electionguard/precompute_buffers.hpp>
#include <time.h>
using namespace space;
namespace eg = electionguard;

// the clock stands still: nothing but the random source can make draws differ
extern "C" time_t time(time_t *t) noexcept
{
    if (t)
        *t = 1700000000;
    return 1700000000;
}
struct Cover {
    std::atomic<uint8_t> seen[2][512][256]; // byte value at byte position (q, p)
    std::atomic<uint8_t> pairs[256][256];   // combinations of two bits of q
};
static Cover *cov;
static int fds()
{
    int n = 0;
    for (int i = 0; i < 256; i++)
        if (fcntl(i, F_GETFD) >= 0)
            n++;
    return n;
}
struct Op {
    string name;
    std::function<void()> run; // throws when it reports an error
    int pairs;                 // also all pairs of failing requests
};

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool quick = mc::opt().quick();
    bool asan = false;
#ifdef __SANITIZE_ADDRESS__
    asan = true;
#endif
    cov = (Cover *)mmap(nullptr, sizeof(Cover), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    ManM man = single(contest("con", "unit", 0, 1, 1, {0, 1}));
    Election el(man);
    Bal bal{"ballot", "style", {marks(man.cons[0], {1, 0})}};
    auto pt = bal.build();
    auto K = ref::mkP(el.pub);
    eg::pow_mod_p(*K, *ref::mkQ(3));
    eg::g_pow_p(*ref::mkQ(3));

    // --- values ---
    uint64_t N = asan ? 64 : quick ? 16384 : 131072;
    mc::for_all("streams", N, [&](uint64_t i) {
        auto &o = osr::st();
        osr::reset();
        o.on = o.prescribed = true;
        o.seed = i;
        auto q = eg::rand_q();
        int rq = o.requests;
        uint64_t bq = o.bytes;
        auto q2 = eg::rand_q();
        uint64_t b2 = o.bytes - bq;
        bool second = o.requests > rq;
        bool dop = asan || i % 2 == 0;
        bq = o.bytes;
        unique_ptr<eg::ElementModP> p;
        if (dop)
            p = eg::rand_p();
        uint64_t bp = o.bytes - bq;
        osr::reset();
        Z zq = ref::val(*q), z2 = ref::val(*q2);
        mc::step(3);
        mc::expect(rq > 0 && second && b2 >= 32, "a draw uses no randomness of its own");
        mc::expect(zq < ref::Q() && z2 < ref::Q(), "a random exponent is out of range");
        mc::expect(zq != z2, "two draws give the same value");
        auto vq = ref::bytes(zq, 32);
        for (int k = 0; k < 32; k++)
            cov->seen[0][k][vq[k]] = 1;
        if (i < 1024)
            for (int a = 0; a < 256; a++)
                for (int b = 0; b < a; b++)
                    cov->pairs[a][b] |= (uint8_t)(1 << (mpz_tstbit(zq.get_mpz_t(), a) * 2 + mpz_tstbit(zq.get_mpz_t(), b)));
        if (dop) {
            Z zp = ref::val(*p);
            mc::expect(bp >= 32, "a draw uses no randomness of its own");
            mc::expect(zp < ref::P(), "a random group value is out of range");
            auto vp = ref::bytes(zp, 512);
            for (int k = 0; k < 512; k++)
                cov->seen[1][k][vp[k]] = 1;
            mc::state("p" + hex(zp));
        }
        mc::state("q" + hex(zq));
        if (i % 4001 == 0)
            mc::sample("stream " + std::to_string(i) + " -> " + hex(zq));
    });
    if (!asan && mc::opt().replay.empty()) {
        for (int k = 0; k < 32; k++)
            for (int v = 0; v < 256; v++)
                if (!cov->seen[0][k][v]) {
                    mc::fail_raw("random exponents cover only a subset of the field", "streams:0 :: byte " + std::to_string(k) + " is never " + std::to_string(v));
                }
        // the leading bytes of the modulus are all ones: every value can occur
        if (N / 2 >= 8192)
            for (int k = 0; k < 512; k++)
                for (int v = 0; v < 256; v++)
                    if (!cov->seen[1][k][v])
                        mc::fail_raw("random group values cover only a subset", "streams:0 :: byte " + std::to_string(k) + " is never " + std::to_string(v));
        for (int a = 0; a < 256; a++)
            for (int b = 0; b < a; b++)
                if (cov->pairs[a][b] != 15)
                    mc::fail_raw("random exponents cover only a subset of the field", "streams:0 :: bits " + std::to_string(a) + "," + std::to_string(b));
    }

    // --- every bit of the source counts ---
    if (!asan) {
        auto draw = [&](int64_t flip, int what, uint64_t &len) {
            auto &o = osr::st();
            osr::reset();
            o.on = o.prescribed = true;
            o.seed = 77;
            o.flip = flip;
            Z r = what ? ref::val(*eg::rand_p()) : ref::val(*eg::rand_q());
            len = o.ctr;
            osr::reset();
            mc::step();
            return r;
        };
        mc::for_all("bits", 2, [&](uint64_t what) {
            uint64_t len, l2;
            Z base = draw(-1, (int)what, len);
            std::set<string> seen = {hex(base)};
            uint64_t changed = 0, n = 0;
            for (uint64_t b = 0; b < len * 8; b += what ? 3 : 1) {
                Z r = draw((int64_t)b, (int)what, l2);
                if (r != base) {
                    changed++;
                    if (!seen.insert(hex(r)).second)
                        mc::fail("different randomness gives the same value", std::to_string(b));
                    mc::state("bit" + hex(r));
                }
                n++;
            }
            mc::expect(changed >= 256, "a draw depends on fewer than 256 bits of operating-system randomness", std::to_string(changed) + " of " + std::to_string(n));
            if (!what)
                mc::sample("draw depends on " + std::to_string(changed) + " of " + std::to_string(n) + " source bits");
        }, 600);
    }

    // --- failures ---
    auto ct = eg::elgamalEncrypt(1, *ref::mkQ(5), *K);
    eg::EncryptionDevice dev(1, 2, 3, "loc");
    eg::EncryptionMediator med(*el.internal, *el.context, dev);
    auto code = ref::mkQ(1);
    vector<Op> ops = {
      {"rand_q", [&] { if (!eg::rand_q()) throw std::runtime_error("null"); }, 1},
      {"rand_p", [&] { if (!eg::rand_p()) throw std::runtime_error("null"); }, 1},
      {"C rand_q", [&] {
           eg_element_mod_q_t *h = nullptr;
           if (eg_element_mod_q_rand_q_new(&h) != ELECTIONGUARD_STATUS_SUCCESS) {
               if (h)
                   mc::fail("a failed draw hands out a value");
               throw std::runtime_error("status");
           }
           eg_element_mod_q_free(h);
       }, 1},
      {"triple", [&] { eg::Triple t(*K); }, 1},
      {"quadruple", [&] { eg::Quadruple t(*K); }, 1},
      {"proof of zero", [&] { eg::DisjunctiveChaumPedersenProof::make(*ct, *ref::mkQ(5), *K, *code, 0); }, 0},
      {"proof of one", [&] { eg::DisjunctiveChaumPedersenProof::make(*ct, *ref::mkQ(5), *K, *code, 1); }, 0},
      {"encryptBallot", [&] { eg::encryptBallot(*pt, *el.internal, *el.context, *code, nullptr, 1, false); }, 0},
      {"encryptBallot verified", [&] { eg::encryptBallot(*pt, *el.internal, *el.context, *code, nullptr, 1, true); }, 0},
      {"encryptCompactBallot", [&] { eg::encryptCompactBallot(*pt, *el.internal, *el.context, *code, nullptr, 1, false); }, 0},
      {"mediator encrypt", [&] { med.encrypt(*pt, false); }, 0},
      {"mediator compactEncrypt", [&] { med.compactEncrypt(*pt, false); }, 0},
      {"populate", [&] {
           eg::PrecomputeBufferContext::empty_queues();
           eg::PrecomputeBufferContext::init(1);
           eg::PrecomputeBufferContext::populate(*K);
           eg::PrecomputeBufferContext::stop_populate();
           eg::PrecomputeBufferContext::empty_queues();
       }, 0},
    };
    struct Plan {
        int op;
        vector<std::pair<int, int>> fail;
        int all;
    };
    vector<Plan> plans;
    if (mc::opt().replay.empty() || mc::opt().replay.substr(0, 8) == "failures")
        for (size_t k = 0; k < ops.size(); k++) {
            osr::reset();
            osr::st().on = true;
            ops[k].run();
            int n = osr::st().requests;
            osr::reset();
            if (n == 0)
                mc::fail_raw("an operation that needs randomness requests none", ops[k].name);
            mc::note("requests of " + ops[k].name, std::to_string(n));
            for (int m = 1; m < osr::NMODES; m++) {
                plans.push_back({(int)k, {}, m});
                for (int i = 0; i < n; i++) {
                    if (asan && m != 1 && m != 6)
                        continue;
                    // requests of a ballot beyond the first twelve: every mode at some, all of them in some mode
                    if (quick && i >= 12 && (i + m) % 3)
                        continue;
                    plans.push_back({(int)k, {{i, m}}, 0});
                    if (ops[k].pairs && !asan)
                        for (int j = i + 1; j < n; j++)
                            plans.push_back({(int)k, {{i, m}, {j, 1 + (m + j) % (osr::NMODES - 1)}}, 0});
                }
            }
        }
    mc::note("failure plans", std::to_string(plans.size()));
    mc::for_all("failures", plans.size(), [&](uint64_t i) {
        auto &pl = plans[i];
        auto &op = ops[pl.op];
        string a = op.name;
        for (auto &f : pl.fail)
            a += " request " + std::to_string(f.first) + " " + osr::name(f.second);
        if (pl.all)
            a += string(" every request ") + osr::name(pl.all);
        int before = fds();
        osr::reset();
        osr::st().on = true;
        osr::st().plan = pl.fail;
        osr::st().all = pl.all != 0;
        osr::st().allMode = pl.all;
        bool threw = false;
        try {
            op.run();
        } catch (const std::exception &) {
            threw = true;
        }
        bool failed = osr::st().failed > 0;
        osr::reset();
        mc::step();
        mc::expect(fds() == before, "a failed draw leaks a file descriptor", a);
        if (failed && !threw)
            mc::fail("an operation succeeds although its random source failed", a);
        // afterwards everything works again
        osr::st().on = true;
        try {
            op.run();
        } catch (const std::exception &e) {
            mc::fail("an operation keeps failing after its random source recovered", a + " " + e.what());
        }
        mc::expect(osr::st().requests > 0, "an operation uses no fresh randomness after a failure", a);
        osr::reset();
        mc::state(a);
        if (i % 97 == 0)
            mc::sample(a + (threw ? " -> error" : " -> not reached"));
    });
    // --- ballots never share randomness ---
    if (!asan)
        mc::for_all("freshness", quick ? 24 : 200, [&](uint64_t i) {
            osr::reset();
            osr::st().on = osr::st().prescribed = true;
            osr::st().seed = 500 + i;
            std::set<string> seen;
            for (int k = 0; k < 3; k++) {
                Z n;
                if (k == 1)
                    n = ref::val(*eg::encryptCompactBallot(*pt, *el.internal, *el.context, *code, nullptr, 1, false)->getNonce());
                else
                    n = ref::val(*eg::encryptBallot(*pt, *el.internal, *el.context, *code, nullptr, 1, false)->getNonce());
                mc::expect(seen.insert(hex(n)).second, "two ballots share a nonce");
                mc::expect(n < ref::Q(), "a ballot nonce is out of range");
                mc::step();
                mc::state("nonce" + hex(n));
            }
            osr::reset();
        });
    return mc::finish();
}
