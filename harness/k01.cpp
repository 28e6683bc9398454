// K01: every history of buffer operations up to a depth, executed on the real
// buffers as a tree of forked processes (so that no history sees another's
// state), against a model of what the buffers may contain; every state reached
// is then followed by every short sequence of encryptions; ballots are encrypted
// with the buffers running dry at every point.
#include "mc.hpp"
#include "refproof.hpp"
#include "spaces.hpp"
#include <electionguard/precompute_buffers.hpp>
using namespace space;
namespace eg = electionguard;
typedef eg::PrecomputeBufferContext PB;
using nlohmann::json;

static Z sk[2], pk[2];
static unique_ptr<eg::ElementModP> key[2];
static const Z HASH = 4711;

// runs f in a process of its own
static void isolated(const string &what, const std::function<void()> &f, unsigned limit)
{
    pid_t p = fork();
    if (p == 0) {
        alarm(limit);
        try {
            f();
        } catch (const std::exception &e) {
            mc::fail("a buffer operation or an encryption fails", what + " " + e.what());
        }
        _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)
        mc::fail("a buffer operation does not return", what);
    else if (!WIFEXITED(st) || WEXITSTATUS(st))
        mc::fail("a buffer operation crashes", what);
}

struct State {
    uint64_t max = 0;
    bool ok = false;
    uint64_t size = 0;  // entries
    long triples = -1;  // unknown until seen
    int filled = -1;    // key of the last fill, -2: both
    std::set<string> used; // every exponent and power handed out or used so far
    string hist;
};

static bool once(State &s, const Z &x) { return s.used.insert(hex(x)).second; }

// for which keys this triple is right
static int tripleFor(State &s, eg::Triple &t)
{
    Z e = ref::val(*t.get_exp()), g = ref::val(*t.get_g_to_exp()), k = ref::val(*t.get_pubkey_to_exp());
    mc::expect(e > 0 && e < ref::Q(), "a precomputed exponent is out of range", s.hist);
    mc::expect(once(s, e), "a precomputed exponent is handed out twice", s.hist);
    once(s, g);
    mc::expect(ref::powm(ref::G(), e) == g, "a precomputed power of the generator is wrong", s.hist);
    int r = 0;
    for (int i = 0; i < 2; i++)
        if (ref::powm(pk[i], e) == k)
            r |= 1 << i;
    mc::expect(r != 0, "a precomputed power of the key is wrong", s.hist);
    return r;
}
static int quadFor(State &s, eg::Quadruple &q)
{
    Z e1 = ref::val(*q.get_exp1()), e2 = ref::val(*q.get_exp2());
    mc::expect(e1 > 0 && e1 < ref::Q() && e2 > 0 && e2 < ref::Q(), "a precomputed exponent is out of range", s.hist);
    mc::expect(once(s, e1) && once(s, e2), "a precomputed exponent is handed out twice", s.hist);
    Z g = ref::powm(ref::G(), e1);
    once(s, g);
    mc::expect(g == ref::val(*q.get_g_to_exp1()), "a precomputed power of the generator is wrong", s.hist);
    int r = 0;
    for (int i = 0; i < 2; i++)
        if (ref::mulp(ref::powm(ref::G(), e2), ref::powm(pk[i], e1)) == ref::val(*q.get_g_to_exp2_mult_by_pubkey_to_exp1()))
            r |= 1 << i;
    mc::expect(r != 0, "a precomputed product is wrong", s.hist);
    return r;
}
static void allowed(State &s, int keys)
{
    if (s.filled >= 0)
        mc::expect(keys & (1 << s.filled), "a precomputed value belongs to a key the buffer was not filled for", s.hist);
}

static const char *OPS[] = {"size1", "size2", "size3", "fillA", "fillB", "stop", "empty", "take", "takeTriple"};
static const int NOPS = 9;

static void apply(State &s, int op)
{
    s.hist += string(s.hist.empty() ? "" : " ") + OPS[op];
    uint64_t before = PB::get_current_queue_size();
    switch (op) {
        case 0:
        case 1:
        case 2:
            PB::init(op + 1);
            s.max = op + 1;
            s.ok = true;
            mc::expect(PB::get_max_queue_size() == s.max, "the configured size is not kept", s.hist);
            break;
        case 3:
        case 4: {
            PB::populate(*key[op - 3]);
            uint64_t n = PB::get_current_queue_size();
            if (!s.ok)
                mc::expect(n <= before, "a stopped buffer is filled", s.hist);
            else {
                mc::expect(n >= s.max || n >= before, "filling does not reach the configured size", s.hist);
                mc::expect(n >= s.max, "filling does not reach the configured size", s.hist);
                mc::expect(n <= std::max(s.max, before), "filling goes beyond the configured size", s.hist);
                if (s.size == 0 && s.triples == 0)
                    s.filled = op - 3;
                else if (s.filled != op - 3)
                    s.filled = -2;
                s.triples = -1;
            }
            s.size = n;
            break;
        }
        case 5:
            PB::stop_populate();
            s.ok = false;
            break;
        case 6:
            PB::empty_queues();
            s.size = 0;
            s.triples = 0;
            s.filled = -1;
            break;
        case 7: {
            auto t = PB::getTwoTriplesAndAQuadruple();
            if (s.size == 0)
                mc::expect(!t, "an exhausted buffer hands out a value", s.hist);
            else {
                mc::expect((bool)t, "a filled buffer hands out nothing", s.hist);
                s.size--;
            }
            if (t) {
                int k = tripleFor(s, *t->get_triple1());
                k &= tripleFor(s, *t->get_triple2());
                k &= quadFor(s, *t->get_quad());
                mc::expect(k != 0, "the values of one entry belong to different keys", s.hist);
                allowed(s, k);
            }
            break;
        }
        case 8: {
            auto t = PB::getTriple();
            if (s.triples == 0)
                mc::expect(!t, "an exhausted buffer hands out a value", s.hist);
            if (!t)
                s.triples = 0;
            else
                allowed(s, tripleFor(s, *t));
            break;
        }
    }
    mc::expect(PB::get_current_queue_size() == s.size, "the reported size is not the number of values held",
               s.hist + " reported " + std::to_string(PB::get_current_queue_size()) + " expected " + std::to_string(s.size));
    mc::step();
    mc::state(s.hist);
}

// --- single encryptions -----------------------------------------------------
static const char *CONS[] = {"selectionA", "selectionB", "contestA", "contestB", "dataA", "dataB"};
static const int NCONS = 6;
static SelM DESC{"sel", "cand", 3};
static void consume(State &s, int c, int n)
{
    s.hist += string(" ") + CONS[c];
    int k = c % 2;
    mc::step();
    if (c < 2) {
        uint64_t vote = n % 2;
        eg::PlaintextBallotSelection p("sel", vote);
        auto d = DESC.build();
        auto r = eg::encryptSelection(p, *d, *key[k], *ref::mkQ(HASH), *ref::mkQ(Z(1000 + n)), false, false);
        Z a = ref::val(*r->getCiphertext()->getPad()), b = ref::val(*r->getCiphertext()->getData());
        mc::expect(once(s, a), "an encryption reuses randomness", s.hist);
        Z m = ref::mulp(b, ref::inv(ref::powm(a, sk[k])));
        mc::expect(m == (vote ? ref::G() : Z(1)), "a selection encrypted with buffered values decrypts to another vote", s.hist);
        mc::expect(rp::ok(rp::read(*r->getProof()), a, b, pk[k], HASH), "the proof of a selection encrypted with buffered values is invalid", s.hist);
        if (r->getNonce())
            mc::expect(ref::powm(ref::G(), ref::val(*r->getNonce())) == a, "the selection's nonce is not the one used", s.hist);
        auto pr = rp::read(*r->getProof());
        mc::expect(once(s, pr.a0) && once(s, pr.a1), "a proof reuses randomness", s.hist);
    } else if (c < 4) {
        uint64_t L = n % 3;
        Z r = 7000 + n;
        Z a = ref::powm(ref::G(), r), b = ref::mulp(ref::powm(ref::G(), Z((unsigned long)L)), ref::powm(pk[k], r));
        auto ct = eg::ElGamalCiphertext::make(*ref::mkP(a), *ref::mkP(b));
        auto p = eg::ConstantChaumPedersenProof::make(*ct, *ref::mkQ(r), *key[k], *ref::mkQ(Z(99 + n)), *ref::mkQ(HASH), L);
        auto pr = rp::read(*p);
        mc::expect(rp::ok(pr, a, b, pk[k], HASH), "the proof of a contest made with buffered values is invalid", s.hist);
        mc::expect(once(s, pr.a), "a proof reuses randomness", s.hist);
    } else {
        vector<uint8_t> msg(17, (uint8_t)n);
        auto h = eg::hashedElgamalEncrypt(msg, *ref::mkQ(Z(500 + n)), *key[k], *ref::mkQ(HASH), eg::BYTES_512, true);
        auto d = h->decrypt(*ref::mkQ(sk[k]), *ref::mkQ(HASH), true);
        mc::expect(d == msg, "data encrypted with buffered values decrypts to something else", s.hist);
        mc::expect(once(s, ref::val(*h->getPad())), "an encryption reuses randomness", s.hist);
    }
}

static void tree(State &s, int depth)
{
    if (!depth)
        return;
    for (int op = 0; op < NOPS; op++)
        isolated(s.hist + " " + OPS[op], [&] {
            State t = s;
            apply(t, op);
            tree(t, depth - 1);
        }, 3000);
}

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool quick = mc::opt().quick();
    sk[0] = 65537, sk[1] = ref::Q() - 2;
    for (int i = 0; i < 2; i++) {
        pk[i] = ref::powm(ref::G(), sk[i]);
        key[i] = ref::mkP(pk[i]);
        eg::pow_mod_p(*key[i], *ref::mkQ(5)); // the tables are inherited by every history
    }
    eg::g_pow_p(*ref::mkQ(5));

    // all histories: set the size, then every sequence of operations
    int depth = quick ? 5 : 7;
    vector<vector<int>> roots;
    for (int i = 0; i < 3; i++)
        product({NOPS, NOPS}, [&](const vector<int> &d) { roots.push_back({i, d[0], d[1]}); });
    mc::note("history depth", std::to_string(depth));
    mc::for_all("histories", roots.size(), [&](uint64_t i) {
        isolated("history", [&] {
            State s;
            s.triples = 0;
            for (int op : roots[i])
                apply(s, op);
            mc::sample(s.hist + " ...");
            tree(s, depth - 3);
        }, 3500);
    }, 3600);

    // every buffer state reachable in few operations x every sequence of encryptions
    vector<vector<int>> reps;
    {
        struct M {
            uint64_t max, q, t;
            bool ok;
            int keys;
        };
        std::set<string> seen;
        std::vector<std::pair<M, vector<int>>> frontier = {{{0, 0, 0, false, 0}, {}}};
        for (int d = 0; d < (quick ? 4 : 5); d++) {
            std::vector<std::pair<M, vector<int>>> next;
            for (auto &f : frontier)
                for (int op = 0; op < NOPS; op++) {
                    if (d == 0 && op > 2)
                        continue;
                    auto g = f;
                    M &m = g.first;
                    g.second.push_back(op);
                    if (op <= 2)
                        m.max = op + 1, m.ok = true;
                    else if (op <= 4) {
                        if (m.ok && m.q < m.max) {
                            m.t += 2 * ((m.max - m.q + 2) / 3);
                            m.q = m.max;
                            m.keys |= 1 << (op - 3);
                        }
                    } else if (op == 5)
                        m.ok = false;
                    else if (op == 6)
                        m.q = m.t = 0, m.keys = 0;
                    else if (op == 7)
                        m.q -= m.q > 0;
                    else
                        m.t -= m.t > 0;
                    std::ostringstream o;
                    // only what an encryption can see
                    o << std::min<uint64_t>(m.q, 3) << " " << std::min<uint64_t>(m.t, 3) << " " << m.keys << " " << (op <= 4 ? op : 9);
                    bool fresh = seen.insert(o.str()).second;
                    if (fresh && (op == 3 || op == 4 || op >= 7))
                        reps.push_back(g.second);
                    next.push_back(g);
                }
            frontier.swap(next);
        }
    }
    int len = quick ? 2 : 3;
    uint64_t nseq = 1;
    for (int i = 0; i < len; i++)
        nseq *= NCONS;
    mc::note("buffer states followed by encryptions", std::to_string(reps.size()));
    mc::note("encryption sequences after each", std::to_string(nseq));
    std::function<void(State &, int)> consumers = [&](State &s, int d) {
        if (!d)
            return;
        for (int c = 0; c < NCONS; c++)
            isolated(s.hist + " " + CONS[c], [&] {
                State t = s;
                consume(t, c, len - d);
                mc::state(t.hist);
                consumers(t, d - 1);
            }, 600);
    };
    mc::for_all("encryptions", reps.size() * NCONS, [&](uint64_t i) {
        isolated("encryption", [&] {
            State s;
            s.triples = 0;
            for (int op : reps[i / NCONS])
                apply(s, op);
            s.used.clear();
            consume(s, i % NCONS, 0);
            consumers(s, len - 1);
        }, 3000);
    }, 3600);

    // whole ballots, buffers running dry at every point
    vector<ManM> men = {single(contest("con", "unit", 1, 1, 1, {0, 1}), {"con-s1"})};
    {
        ManM m;
        m.units = {{"u", "n"}};
        m.styles = {{"style", {"u"}}};
        m.cons = {contest("a", "u", 2, 1, 1, {0}), contest("b", "u", 1, 1, 1, {1, 0})};
        addCandidates(m, {"b-s0"});
        men.push_back(m);
    }
    vector<unique_ptr<Election>> els[2];
    for (int k = 0; k < 2; k++)
        for (auto &m : men)
            els[k].push_back(make_unique<Election>(m, sk[k]));
    auto encrypt = [&](State &s, int k, int e, int marked, uint64_t n, bool verify) {
        auto &el = *els[k][e];
        Bal b{"ballot" + std::to_string(n), "style", {}};
        int i = 0;
        for (auto &c : el.man.cons) {
            BCon x{c.id, {}};
            for (auto &sel : c.sels)
                x.sels.push_back({sel.id, (uint64_t)(marked >> i++ & 1), "wr"});
            b.cons.push_back(x);
        }
        s.hist += string(" ballot") + (k ? "B" : "A") + std::to_string(e) + "/" + std::to_string(marked);
        auto x = expected(el.man, el.mhash, b, 31337 + n);
        auto r = eg::encryptBallot(*b.build(), *el.internal, *el.context, *ref::mkQ(12), ref::mkQ(31337 + n), 5, verify);
        string why = rp::check(*r, el.mhash, el.pub, el.ext);
        mc::expect(why.empty(), "a ballot encrypted with buffered values does not verify", s.hist + " " + why);
        auto cs = r->getContests();
        for (size_t j = 0; j < cs.size() && j < x.cons.size(); j++) {
            auto ss = cs[j].get().getSelections();
            mc::expect(ss.size() == x.cons[j].sels.size(), "a ballot encrypted with buffered values has other selections", s.hist);
            for (size_t q = 0; q < ss.size() && q < x.cons[j].sels.size(); q++) {
                auto &sel = ss[q].get();
                mc::expect(el.dec(*sel.getCiphertext()) == (int)x.cons[j].sels[q].vote, "a ballot encrypted with buffered values decrypts to other votes", s.hist + " " + sel.getObjectId());
                auto pr = rp::read(*sel.getProof());
                mc::expect(once(s, ref::val(*sel.getCiphertext()->getPad())) && once(s, pr.a0) && once(s, pr.a1),
                           "randomness is used twice", s.hist + " " + sel.getObjectId());
            }
            auto d = cs[j].get().getHashedElGamalCiphertext()->decrypt(*ref::mkQ(el.secret), *ref::mkQ(el.ext), true);
            auto rec = x.cons[j].record();
            string want = rec.is_null() ? "" : rec.dump(), got(d.begin(), d.end());
            mc::expect(want == got, "extended data encrypted with buffered values decrypts to something else", s.hist + " " + got);
            mc::expect(once(s, rp::read(*cs[j].get().getProof()).a) && once(s, ref::val(*cs[j].get().getHashedElGamalCiphertext()->getPad())),
                       "randomness is used twice", s.hist);
        }
        mc::step();
    };
    struct BC {
        int fillKey, ballotKey, e, marked, q, t, second;
        bool verify;
    };
    vector<BC> bc;
    for (int q = 0; q <= 7; q++)
        for (int t = 0; t <= 6; t++)
            for (int e = 0; e < 2; e++)
                for (int k = 0; k < (quick ? (q + t) % 3 == 0 ? 2 : 1 : 2); k++)
                    bc.push_back({k && t % 2, k, e, (q + 3 * t + k) % (e ? 8 : 4), q, t, (q + t) % 4, (q + t) % 5 == 0});
    mc::note("ballot exhaustion points", std::to_string(bc.size()));
    mc::for_all("ballots", bc.size(), [&](uint64_t i) {
        isolated("ballot", [&] {
            auto &c = bc[i];
            State s;
            s.hist = "filled for " + string(c.fillKey ? "B" : "A") + ", " + std::to_string(c.q) + " entries and " + std::to_string(c.t) + " triples left:";
            PB::init(7);
            PB::populate(*key[c.fillKey]);
            if (c.q < 4)
                PB::stop_populate();
            int q = (int)PB::get_current_queue_size();
            for (; q > c.q; q--)
                PB::getTwoTriplesAndAQuadruple();
            for (int t = 6; t > c.t; t--)
                PB::getTriple();
            mc::state(s.hist + std::to_string(i));
            encrypt(s, c.ballotKey, c.e, c.marked, 0, c.verify);
            // and a second one after more buffer operations
            if (c.second == 1)
                PB::populate(*key[0]);
            if (c.second == 2)
                PB::empty_queues();
            if (c.second == 3) {
                PB::init(2);
                PB::populate(*key[1]);
            }
            encrypt(s, c.second % 2, 1 - c.e, 3, 1, false);
        }, 600);
    }, 700);
    // larger buffers: every entry and every triple is right and handed out once
    vector<uint32_t> sizes = quick ? vector<uint32_t>{8, 31, 64, 130} : vector<uint32_t>{8, 16, 31, 64, 130, 257, 700};
    mc::for_all("larger buffers", sizes.size() * 2, [&](uint64_t i) {
        isolated("larger buffer", [&] {
            State s;
            uint32_t n = sizes[i / 2];
            int k = i % 2;
            s.hist = "size " + std::to_string(n) + " filled for " + (k ? "B" : "A");
            PB::init(0);
            uint32_t standard = PB::get_max_queue_size();
            mc::expect(standard > 0, "no standard size", s.hist);
            PB::init(n);
            PB::populate(*key[k]);
            mc::expect(PB::get_max_queue_size() == n, "the configured size is not kept", s.hist);
            mc::expect(PB::get_current_queue_size() == n, "filling does not reach the configured size", s.hist);
            // some are taken, the buffer is filled up again
            uint32_t taken = 0;
            auto take = [&] {
                auto t = PB::getTwoTriplesAndAQuadruple(*key[k]);
                mc::expect((bool)t, "a filled buffer hands out nothing", s.hist);
                if (!t)
                    return;
                taken++;
                int r = tripleFor(s, *t->get_triple1());
                r &= tripleFor(s, *t->get_triple2());
                r &= quadFor(s, *t->get_quad());
                mc::expect(r & (1 << k), "a precomputed value belongs to a key the buffer was not filled for", s.hist);
                mc::step();
            };
            for (uint32_t j = 0; j < n / 3; j++)
                take();
            PB::populate(*key[k]);
            mc::expect(PB::get_current_queue_size() == n, "filling does not reach the configured size", s.hist);
            for (uint32_t j = 0; j < n; j++) {
                take();
                mc::expect(PB::get_current_queue_size() == n - 1 - j, "the reported size is not the number of values held", s.hist);
            }
            mc::expect(!PB::getTwoTriplesAndAQuadruple(*key[k]) && !PB::getTwoTriplesAndAQuadruple(), "an exhausted buffer hands out a value", s.hist);
            for (uint32_t j = 0; j < 2 * n + 4; j++) {
                auto t = PB::getTriple(*key[k]);
                if (!t)
                    break;
                mc::expect(tripleFor(s, *t) & (1 << k), "a precomputed value belongs to a key the buffer was not filled for", s.hist);
                mc::step();
            }
            mc::state(s.hist);
        }, 3000);
    }, 3600);
    return mc::finish();
}
