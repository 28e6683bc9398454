// V02: all bounded histories of copying, cloning, moving, assigning, changing
// and destroying objects in three places, for every public value type; after
// every step every live object must show exactly the value the model says.
#include "mc.hpp"
#include "dto.hpp"
#include "spaces.hpp"
#include <electionguard/ballot_compact.hpp>
#include <electionguard/precompute_buffers.hpp>
using namespace space;
namespace eg = electionguard;
template <typename T> struct Type {
    string name;
    vector<std::function<unique_ptr<T>()>> values; // makes a fresh object
    std::function<string(T &)> obs;
    std::function<unique_ptr<T>(T &)> clone;            // optional
    std::function<unique_ptr<T>(T &)> copy;             // optional
    std::function<void(T &, T &)> assign;               // optional: first = second
    std::function<unique_ptr<T>(T &)> mv;               // optional
    std::function<void(T &)> change;                    // optional: observable change
};
// every sequence of `depth` operations
template <typename T> static void explore(const Type<T> &t, int depth)
{
    struct Op {
        int kind, i, j;
    };
    vector<Op> ops;
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++) {
            if (t.copy && i != j)
                ops.push_back({0, i, j});
            if (t.assign)
                ops.push_back({1, i, j});
            if (t.clone && i != j)
                ops.push_back({2, i, j});
            if (t.mv && i != j)
                ops.push_back({3, i, j});
        }
    for (int i = 0; i < 3; i++) {
        ops.push_back({4, i, i});
        if (t.change)
            ops.push_back({5, i, i});
    }
    uint64_t n = 1;
    for (int d = 0; d < depth; d++)
        n *= ops.size();
    vector<string> want;
    for (auto &v : t.values) {
        auto o = v();
        want.push_back(t.obs(*o));
    }
    for (size_t a = 0; a < want.size(); a++)
        for (size_t b = 0; b < a; b++)
            mc::expect(want[a] != want[b], "values of the space are not distinct", t.name);
    static const char *verbs[] = {"copy", "assign", "clone", "move", "destroy", "change"};
    for (size_t k = 0; k < t.values.size(); k++)
        for (uint64_t code = 0; code < n; code++) {
            unique_ptr<T> slot[3];
            string val[3]; // "" = empty, "*" = moved from
            size_t k2 = (k + 1) % t.values.size();
            slot[0] = t.values[k]();
            slot[1] = t.values[k2]();
            val[0] = want[k];
            val[1] = want[k2];
            uint64_t c = code;
            string trace = t.name + " values " + std::to_string(k) + "," + std::to_string(k2);
            bool ok = true;
            for (int d = 0; d < depth && ok; d++) {
                auto &op = ops[c % ops.size()];
                c /= ops.size();
                trace += string(" ") + verbs[op.kind] + std::to_string(op.i) + std::to_string(op.j);
                mc::desc("objects " + trace);
                int i = op.i, j = op.j;
                bool live = !val[i].empty() && val[i] != "*";
                switch (op.kind) {
                    case 0:
                        ok = live;
                        if (ok)
                            slot[j] = t.copy(*slot[i]), val[j] = val[i];
                        break;
                    case 1:
                        ok = live && !val[j].empty();
                        if (ok)
                            t.assign(*slot[j], *slot[i]), val[j] = val[i];
                        break;
                    case 2:
                        ok = live;
                        if (ok)
                            slot[j] = t.clone(*slot[i]), val[j] = val[i];
                        break;
                    case 3:
                        ok = live;
                        if (ok)
                            slot[j] = t.mv(*slot[i]), val[j] = val[i], val[i] = "*";
                        break;
                    case 4:
                        ok = !val[i].empty();
                        slot[i].reset();
                        val[i] = "";
                        break;
                    case 5:
                        ok = live;
                        if (ok) {
                            t.change(*slot[i]);
                            string now = t.obs(*slot[i]);
                            mc::expect(now != val[i], "a change has no effect", trace);
                            val[i] = now;
                        }
                        break;
                }
                if (!ok)
                    break;
                mc::step();
                for (int s = 0; s < 3; s++) {
                    if (val[s].empty() || val[s] == "*")
                        continue;
                    string got = t.obs(*slot[s]);
                    if (got != val[s]) {
                        mc::fail(t.name + (s == j && op.kind < 4 ? ": the result differs from its source" : ": another object is affected"), trace);
                        ok = false;
                        break;
                    }
                }
            }
            if (ok)
                mc::state(trace);
        }
}
#define COPY(T) [](T &o) { return make_unique<T>(static_cast<const T &>(o)); }
#define ASSIGN(T) [](T &a, T &b) { a = static_cast<T &>(b); }
#define MOVE(T) [](T &o) { return make_unique<T>(std::move(o)); }
#define CLONE(T) [](T &o) { return o.clone(); }

static Z pv(int i) { return i == 0 ? ref::G() : i == 1 ? ref::powm(ref::G(), 77) : i == 2 ? Z(1) : ref::P() - 1; }
static Z qv(int i) { return i == 0 ? Z(5) : i == 1 ? ref::Q() - 1 : i == 2 ? Z(0) : Z(1) << 200; }
static string h(eg::CryptoHashable &c) { return hex(ref::val(*c.crypto_hash())); }
static unique_ptr<eg::ElGamalCiphertext> ct(int i) { return make_unique<eg::ElGamalCiphertext>(ref::mkP(pv(i)), ref::mkP(pv(i + 1))); }
static string cts(const eg::ElGamalCiphertext &c) { return dto::CT::read(c).str() + hex(ref::val(*c.crypto_hash())); }
static rp::D dv(int i) { return {pv(0) + i, pv(1) + i, pv(2) + i, pv(3) - i, qv(0) + i, qv(0) + 10 + i, qv(0) + 20 + i, qv(0) + 30 + i, qv(0) + 40 + i}; }
static rp::C cv(int i) { return {pv(0) + i, pv(1) + i, qv(0) + i, qv(0) + 10 + i, (uint64_t)i}; }
static string con(eg::ContestDescription &c)
{
    string s = ConM::read(c).str() + h(c);
    return s + (c.isValid() ? "v" : "i");
}
static string conp(eg::ContestDescriptionWithPlaceholders &c)
{
    string s = con(c);
    for (auto p : c.getPlaceholders())
        s += SelM::read(p.get()).str();
    return s;
}

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool quick = mc::opt().quick();
    int D2 = quick ? 2 : 3, D3 = quick ? 3 : 4;
    vector<std::pair<string, std::function<void()>>> jobs;
    auto add = [&](const auto &t, int depth) {
        auto p = std::make_shared<std::decay_t<decltype(t)>>(t);
        jobs.push_back({t.name, [p, depth] { explore(*p, depth); }});
    };
    // --- group ---
    {
        Type<eg::ElementModP> t{"ElementModP"};
        for (int i = 0; i < 4; i++)
            t.values.push_back([i] {
                auto p = ref::mkP(pv(i));
                if (i % 2)
                    p->setIsFixedBase(true);
                if (i == 3)
                    p->toHex();
                return p;
            });
        t.obs = [](eg::ElementModP &p) {
            auto z = ref::val(p);
            string s = hex(z) + (p.isFixedBase() ? "F" : "-");
            // the text form is that of the value
            return s + (hex(z) == p.toHex() ? "" : " text form " + p.toHex()) + (ref::frombytes(p.toBytes()) == z ? "" : " bytes differ");
        };
        t.copy = COPY(eg::ElementModP);
        t.assign = ASSIGN(eg::ElementModP);
        t.clone = CLONE(eg::ElementModP);
        t.change = [](eg::ElementModP &p) { p.setIsFixedBase(!p.isFixedBase()); };
        add(t, D3);
    }
    {
        Type<eg::ElementModQ> t{"ElementModQ"};
        for (int i = 0; i < 4; i++)
            t.values.push_back([i] { return ref::mkQ(qv(i)); });
        t.obs = [](eg::ElementModQ &p) {
            auto z = ref::val(p);
            return hex(z) + (hex(z) == p.toHex() ? "" : " text form " + p.toHex());
        };
        t.copy = COPY(eg::ElementModQ);
        t.assign = ASSIGN(eg::ElementModQ);
        t.clone = CLONE(eg::ElementModQ);
        add(t, D3);
    }
    // --- elgamal ---
    {
        Type<eg::ElGamalKeyPair> t{"ElGamalKeyPair"};
        for (int i = 0; i < 3; i++)
            t.values.push_back([i] { return make_unique<eg::ElGamalKeyPair>(ref::mkQ(qv(i)), ref::mkP(pv(i))); });
        t.obs = [](eg::ElGamalKeyPair &k) { return k.getSecretKey() && k.getPublicKey() ? hex(ref::val(*k.getSecretKey())) + hex(ref::val(*k.getPublicKey())) : string("lost its keys"); };
        t.copy = COPY(eg::ElGamalKeyPair);
        t.assign = ASSIGN(eg::ElGamalKeyPair);
        add(t, D3);
    }
    {
        Type<eg::ElGamalCiphertext> t{"ElGamalCiphertext"};
        for (int i = 0; i < 3; i++)
            t.values.push_back([i] { return ct(i); });
        t.obs = [](eg::ElGamalCiphertext &c) { return cts(c); };
        t.copy = COPY(eg::ElGamalCiphertext);
        t.assign = ASSIGN(eg::ElGamalCiphertext);
        t.clone = CLONE(eg::ElGamalCiphertext);
        add(t, D3);
    }
    {
        Type<eg::HashedElGamalCiphertext> t{"HashedElGamalCiphertext"};
        for (int i = 0; i < 3; i++)
            t.values.push_back([i] { return make_unique<eg::HashedElGamalCiphertext>(ref::mkP(pv(i)), vector<uint8_t>(i * 3, (uint8_t)i), vector<uint8_t>(32, (uint8_t)i)); });
        t.obs = [](eg::HashedElGamalCiphertext &c) { return dto::HC::read(c).str() + (c == c ? "" : "!"); };
        t.copy = COPY(eg::HashedElGamalCiphertext);
        t.assign = ASSIGN(eg::HashedElGamalCiphertext);
        t.clone = CLONE(eg::HashedElGamalCiphertext);
        add(t, D3);
    }
    {
        Type<eg::DisjunctiveChaumPedersenProof> t{"DisjunctiveChaumPedersenProof"};
        for (int i = 0; i < 3; i++)
            t.values.push_back([i] { return dto::build(dv(i)); });
        t.obs = [](eg::DisjunctiveChaumPedersenProof &p) { return dto::str(rp::read(p)); };
        t.copy = COPY(eg::DisjunctiveChaumPedersenProof);
        t.assign = ASSIGN(eg::DisjunctiveChaumPedersenProof);
        t.clone = CLONE(eg::DisjunctiveChaumPedersenProof);
        add(t, D2);
    }
    {
        Type<eg::ConstantChaumPedersenProof> t{"ConstantChaumPedersenProof"};
        for (int i = 0; i < 3; i++)
            t.values.push_back([i] { return dto::build(cv(i)); });
        t.obs = [](eg::ConstantChaumPedersenProof &p) { return dto::str(rp::read(p)); };
        t.copy = COPY(eg::ConstantChaumPedersenProof);
        t.assign = ASSIGN(eg::ConstantChaumPedersenProof);
        add(t, D3);
    }
    // --- precomputed values ---
    auto triple = [](int i) { return make_unique<eg::Triple>(ref::mkQ(qv(i)), ref::mkP(pv(i)), ref::mkP(pv(i + 1))); };
    auto quad = [](int i) { return make_unique<eg::Quadruple>(ref::mkQ(qv(i)), ref::mkQ(qv(i + 1)), ref::mkP(pv(i)), ref::mkP(pv(i + 1))); };
    auto ts = [](eg::Triple &t) { return hex(ref::val(*t.get_exp())) + "," + hex(ref::val(*t.get_g_to_exp())) + "," + hex(ref::val(*t.get_pubkey_to_exp())); };
    auto qs = [](eg::Quadruple &t) { return hex(ref::val(*t.get_exp1())) + "," + hex(ref::val(*t.get_exp2())) + "," + hex(ref::val(*t.get_g_to_exp1())) + "," + hex(ref::val(*t.get_g_to_exp2_mult_by_pubkey_to_exp1())); };
    {
        Type<eg::Triple> t{"Triple"};
        for (int i = 0; i < 3; i++)
            t.values.push_back([=] { return triple(i); });
        t.obs = ts;
        t.copy = COPY(eg::Triple);
        t.assign = [](eg::Triple &a, eg::Triple &b) { a = static_cast<const eg::Triple &>(b); };
        t.clone = CLONE(eg::Triple);
        t.mv = MOVE(eg::Triple);
        add(t, D3);
        Type<eg::Quadruple> u{"Quadruple"};
        for (int i = 0; i < 3; i++)
            u.values.push_back([=] { return quad(i); });
        u.obs = qs;
        u.copy = COPY(eg::Quadruple);
        u.assign = [](eg::Quadruple &a, eg::Quadruple &b) { a = static_cast<const eg::Quadruple &>(b); };
        u.clone = CLONE(eg::Quadruple);
        u.mv = MOVE(eg::Quadruple);
        add(u, D3);
        Type<eg::TwoTriplesAndAQuadruple> w{"TwoTriplesAndAQuadruple"};
        for (int i = 0; i < 2; i++)
            w.values.push_back([=] { return make_unique<eg::TwoTriplesAndAQuadruple>(triple(i), triple(i + 1), quad(i)); });
        w.obs = [=](eg::TwoTriplesAndAQuadruple &x) { return ts(*x.get_triple1()) + ts(*x.get_triple2()) + qs(*x.get_quad()); };
        w.copy = COPY(eg::TwoTriplesAndAQuadruple);
        w.assign = [](eg::TwoTriplesAndAQuadruple &a, eg::TwoTriplesAndAQuadruple &b) { a = static_cast<const eg::TwoTriplesAndAQuadruple &>(b); };
        w.clone = CLONE(eg::TwoTriplesAndAQuadruple);
        w.mv = MOVE(eg::TwoTriplesAndAQuadruple);
        add(w, 2);
    }
    // --- plaintext ballots ---
    {
        Type<eg::PlaintextBallotSelection> t{"PlaintextBallotSelection"};
        for (int i = 0; i < 3; i++)
            t.values.push_back([i] { return make_unique<eg::PlaintextBallotSelection>("s" + std::to_string(i), i, i == 1, i == 2 ? "write \xc3\xa9" : ""); });
        t.obs = [](eg::PlaintextBallotSelection &s) { return s.getObjectId() + std::to_string(s.getVote()) + s.getWriteIn() + (s.getIsPlaceholder() ? "P" : ""); };
        t.copy = COPY(eg::PlaintextBallotSelection);
        t.assign = ASSIGN(eg::PlaintextBallotSelection);
        t.clone = CLONE(eg::PlaintextBallotSelection);
        t.mv = MOVE(eg::PlaintextBallotSelection);
        add(t, D3);
        auto bal = [](int i) {
            Bal b{"ballot" + std::to_string(i), "style", {}};
            for (int k = 0; k < i; k++)
                b.cons.push_back({"c" + std::to_string(k), {{"a", (uint64_t)i, i == 2 ? "w" : "", k == 1}, {"b", 0}}});
            return b;
        };
        Type<eg::PlaintextBallotContest> u{"PlaintextBallotContest"};
        for (int i = 1; i < 4; i++)
            u.values.push_back([=] { return make_unique<eg::PlaintextBallotContest>(bal(i).build()->getContests()[i - 1].get()); });
        u.obs = [](eg::PlaintextBallotContest &c) {
            string s = c.getObjectId();
            for (auto x : c.getSelections())
                s += x.get().getObjectId() + std::to_string(x.get().getVote()) + x.get().getWriteIn() + (x.get().getIsPlaceholder() ? "P" : "");
            return s;
        };
        u.copy = COPY(eg::PlaintextBallotContest);
        u.assign = ASSIGN(eg::PlaintextBallotContest);
        u.mv = MOVE(eg::PlaintextBallotContest);
        add(u, D3);
        Type<eg::PlaintextBallot> w{"PlaintextBallot"};
        for (int i = 0; i < 3; i++)
            w.values.push_back([=] { return bal(i).build(); });
        w.obs = [](eg::PlaintextBallot &b) { return b.toJson(); };
        w.copy = COPY(eg::PlaintextBallot);
        w.assign = ASSIGN(eg::PlaintextBallot);
        add(w, D3);
    }
    // --- encrypted ballots: parts present and absent ---
    auto sel = [](int i) {
        dto::Sel s;
        s.id = "s" + std::to_string(i);
        s.seq = i;
        s.desc = qv(0) + i;
        s.ct = {pv(0), pv(1)};
        s.ph = i % 2;
        if (i != 1)
            s.nonce = qv(1) - i;
        s.hash = qv(0) + 50 + i;
        if (i != 2)
            s.proof = dv(i);
        return s;
    };
    auto cont = [=](int i) {
        dto::Con c;
        c.id = "c" + std::to_string(i);
        c.seq = i;
        c.desc = qv(0) + i;
        for (int k = 0; k <= i; k++)
            c.sels.push_back(sel(k));
        if (i != 1)
            c.nonce = qv(1) - i;
        c.acc = {pv(1), pv(0)};
        c.hash = qv(0) + 60 + i;
        if (i != 2)
            c.proof = cv(i);
        if (i != 1)
            c.ext = dto::HC{pv(0), vector<uint8_t>(8, 1), vector<uint8_t>(32, 2)};
        return c;
    };
    auto ball = [=](int i) {
        dto::Ball b;
        b.id = "b" + std::to_string(i);
        b.style = "style";
        b.manifest = qv(0) + i;
        b.hash = qv(0) + 70 + i;
        b.timestamp = 1000 + i;
        if (i != 1)
            b.nonce = qv(1) - i;
        if (i != 2)
            b.code = qv(0) + 80;
        if (i != 3)
            b.codeSeed = qv(0) + 81;
        for (int k = 0; k <= i % 3; k++)
            b.cons.push_back(cont(k));
        return b;
    };
    {
        Type<eg::CiphertextBallotSelection> t{"CiphertextBallotSelection"};
        for (int i = 0; i < 3; i++)
            t.values.push_back([=] { return sel(i).build(); });
        t.obs = [](eg::CiphertextBallotSelection &s) { return dto::Sel::read(s).str(); };
        t.copy = COPY(eg::CiphertextBallotSelection);
        t.assign = ASSIGN(eg::CiphertextBallotSelection);
        add(t, D2);
        Type<eg::CiphertextBallotContest> u{"CiphertextBallotContest"};
        for (int i = 0; i < 3; i++)
            u.values.push_back([=] { return cont(i).build(); });
        u.obs = [](eg::CiphertextBallotContest &s) { return dto::Con::read(s).str(); };
        u.copy = COPY(eg::CiphertextBallotContest);
        u.assign = ASSIGN(eg::CiphertextBallotContest);
        add(u, D2);
        Type<eg::CiphertextBallot> w{"CiphertextBallot"};
        for (int i = 0; i < 4; i++)
            w.values.push_back([=] { return ball(i).build(); });
        w.obs = [](eg::CiphertextBallot &s) { return dto::Ball::read(s).str(); };
        w.copy = COPY(eg::CiphertextBallot);
        w.assign = ASSIGN(eg::CiphertextBallot);
        add(w, D2);
        Type<eg::SubmittedBallot> x{"SubmittedBallot"};
        for (int i = 0; i < 3; i++)
            x.values.push_back([=] { return ball(i).buildSubmitted(i == 0 ? eg::BallotBoxState::cast : i == 1 ? eg::BallotBoxState::spoiled : eg::BallotBoxState::unknown); });
        x.obs = [](eg::SubmittedBallot &s) { return dto::Ball::read(s).str() + std::to_string((int)s.getState()); };
        x.copy = [](eg::SubmittedBallot &s) { return eg::SubmittedBallot::from(s, s.getState()); };
        x.assign = [](eg::SubmittedBallot &a, eg::SubmittedBallot &b) {
            auto f = static_cast<eg::SubmittedBallot &(eg::SubmittedBallot::*)(eg::SubmittedBallot)>(&eg::SubmittedBallot::operator=);
            (a.*f)(eg::SubmittedBallot(b, b.getState()));
        };
        add(x, D2);
    }
    // --- descriptions ---
    auto txt = [](int i) -> Txt {
        if (i == 0)
            return {};
        if (i == 1)
            return vector<Lang>{};
        return vector<Lang>{{"v" + std::to_string(i), "en"}, {"w", ""}};
    };
    auto contact = [](int i) -> Contact {
        if (i == 0)
            return {};
        ContactM c;
        if (i > 1) {
            c.name = "name" + std::to_string(i);
            c.address = {"street", "town"};
        }
        if (i > 2) {
            c.email = {{"a", "b"}};
            c.phone = {{"c", "d"}, {"e", "f"}};
        }
        return c;
    };
    {
        Type<eg::AnnotatedString> t{"AnnotatedString"};
        for (int i = 0; i < 3; i++)
            t.values.push_back([i] { return make_unique<eg::AnnotatedString>(i ? "a" : "", "v" + std::to_string(i)); });
        t.obs = [](eg::AnnotatedString &a) { return a.getAnnotation() + "=" + a.getValue() + h(a); };
        t.copy = COPY(eg::AnnotatedString);
        t.assign = [](eg::AnnotatedString &a, eg::AnnotatedString &b) { a = static_cast<const eg::AnnotatedString &>(b); };
        t.mv = MOVE(eg::AnnotatedString);
        add(t, D3);
        Type<eg::Language> u{"Language"};
        for (int i = 0; i < 3; i++)
            u.values.push_back([i] { return make_unique<eg::Language>(i ? "a" : "", "v" + std::to_string(i)); });
        u.obs = [](eg::Language &a) { return a.getValue() + "=" + a.getLanguage() + h(a); };
        u.copy = COPY(eg::Language);
        u.assign = [](eg::Language &a, eg::Language &b) { a = static_cast<const eg::Language &>(b); };
        u.mv = MOVE(eg::Language);
        add(u, D3);
        Type<eg::InternationalizedText> w{"InternationalizedText"};
        for (int i = 1; i < 4; i++)
            w.values.push_back([=] { return buildTxt(txt(i)); });
        w.obs = [](eg::InternationalizedText &a) { return model::str(readTxt(&a)) + h(a); };
        w.copy = COPY(eg::InternationalizedText);
        w.assign = ASSIGN(eg::InternationalizedText);
        w.mv = MOVE(eg::InternationalizedText);
        add(w, D3);
        Type<eg::ContactInformation> x{"ContactInformation"};
        for (int i = 1; i < 5; i++)
            x.values.push_back([=] { return buildC(contact(i)); });
        x.obs = [](eg::ContactInformation &a) { return model::str(readC(&a)) + h(a); };
        x.copy = COPY(eg::ContactInformation);
        x.assign = ASSIGN(eg::ContactInformation);
        x.mv = MOVE(eg::ContactInformation);
        add(x, D2);
        Type<eg::GeopoliticalUnit> y{"GeopoliticalUnit"};
        for (int i = 0; i < 4; i++)
            y.values.push_back([=] { return UnitM{"u" + std::to_string(i), "n", i * 5, contact(i)}.build(); });
        y.obs = [](eg::GeopoliticalUnit &a) { return UnitM::read(a).str() + h(a); };
        y.copy = COPY(eg::GeopoliticalUnit);
        y.assign = ASSIGN(eg::GeopoliticalUnit);
        y.mv = MOVE(eg::GeopoliticalUnit);
        add(y, D2);
        Type<eg::BallotStyle> z{"BallotStyle"};
        for (int i = 0; i < 3; i++)
            z.values.push_back([=] { return StyleM{"b" + std::to_string(i), vector<string>(i, "u"), vector<string>(2 - i, "p"), i ? "uri" : ""}.build(); });
        z.obs = [](eg::BallotStyle &a) { return StyleM::read(a).str() + h(a); };
        z.copy = COPY(eg::BallotStyle);
        z.assign = ASSIGN(eg::BallotStyle);
        z.mv = MOVE(eg::BallotStyle);
        add(z, D3);
    }
    {
        Type<eg::Party> t{"Party"};
        t.values.push_back([] { return make_unique<eg::Party>("p0"); });
        t.values.push_back([] { return make_unique<eg::Party>("p1", "ab"); });
        for (int i = 0; i < 3; i++)
            t.values.push_back([=] { return make_unique<eg::Party>("q" + std::to_string(i), buildTxt(txt(i)), "ab", "color", "logo"); });
        t.obs = [](eg::Party &p) { return PartyM::read(p).str() + h(p); };
        t.copy = COPY(eg::Party);
        t.assign = ASSIGN(eg::Party);
        t.mv = MOVE(eg::Party);
        add(t, D2);
        Type<eg::Candidate> u{"Candidate"};
        u.values.push_back([] { return make_unique<eg::Candidate>("c0", true); });
        u.values.push_back([] { return make_unique<eg::Candidate>("c1", "party", false); });
        for (int i = 0; i < 3; i++)
            u.values.push_back([=] { return make_unique<eg::Candidate>("d" + std::to_string(i), buildTxt(txt(i)), "party", "uri", i == 1); });
        u.obs = [](eg::Candidate &p) { return CandM::read(p).str() + h(p); };
        u.copy = COPY(eg::Candidate);
        u.assign = ASSIGN(eg::Candidate);
        u.mv = MOVE(eg::Candidate);
        add(u, D2);
        Type<eg::SelectionDescription> w{"SelectionDescription"};
        for (int i = 0; i < 3; i++)
            w.values.push_back([=] { return SelM{"s" + std::to_string(i), "c", i == 2 ? ~0ull : (uint64_t)i}.build(); });
        w.obs = [](eg::SelectionDescription &p) { return SelM::read(p).str() + h(p); };
        w.copy = COPY(eg::SelectionDescription);
        w.assign = ASSIGN(eg::SelectionDescription);
        w.mv = MOVE(eg::SelectionDescription);
        add(w, D3);
    }
    {
        auto cm = [=](int i) {
            auto c = contest("k" + std::to_string(i), "u", i, i, i + 1, i == 1 ? vector<uint64_t>{3, 1, 2} : vector<uint64_t>{0, 1, 2}, i * 3 % 13);
            c.title = txt(i);
            c.sub = txt((i + 2) % 3);
            return c;
        };
        Type<eg::ContestDescription> t{"ContestDescription"};
        for (int i = 0; i < 4; i++)
            t.values.push_back([=] { return cm(i).build(); });
        t.values.push_back([=] {
            auto c = cm(1);
            return make_unique<eg::ContestDescription>("kp", "u", 3, eg::VoteVariationType::n_of_m, 1, 2, "name", buildTxt(txt(2)), buildTxt(txt(0)), c.buildSels(), vector<string>{"p1", "p2"});
        });
        t.values.push_back([=] {
            auto c = cm(1);
            return make_unique<eg::ContestDescription>("k7", "u", 3, eg::VoteVariationType::approval, 1, "name", c.buildSels());
        });
        t.obs = [](eg::ContestDescription &c) { return con(c); };
        t.copy = COPY(eg::ContestDescription);
        t.assign = ASSIGN(eg::ContestDescription);
        t.mv = MOVE(eg::ContestDescription);
        add(t, D2);
        Type<eg::ContestDescriptionWithPlaceholders> u{"ContestDescriptionWithPlaceholders"};
        for (int i = 0; i < 3; i++)
            u.values.push_back([=] {
                auto c = cm(i);
                vector<unique_ptr<eg::SelectionDescription>> ph;
                for (auto &p : c.placeholders())
                    ph.push_back(p.build());
                return make_unique<eg::ContestDescriptionWithPlaceholders>(*c.build(), std::move(ph));
            });
        u.obs = [](eg::ContestDescriptionWithPlaceholders &c) { return conp(c); };
        u.copy = COPY(eg::ContestDescriptionWithPlaceholders);
        u.assign = ASSIGN(eg::ContestDescriptionWithPlaceholders);
        u.mv = MOVE(eg::ContestDescriptionWithPlaceholders);
        add(u, D2);
        auto man = [=](int i) {
            ManM m = styled();
            m.type = i;
            m.name = txt(i);
            m.contact = contact(i);
            if (i)
                m.parties = {{"p", {{"n", "en"}}, "a", "b", "c"}};
            return m;
        };
        Type<eg::Manifest> w{"Manifest"};
        for (int i = 0; i < 3; i++)
            w.values.push_back([=] { return man(i).build(); });
        w.obs = [](eg::Manifest &m) { return ManM::read(m).str() + h(m); };
        w.mv = MOVE(eg::Manifest);
        add(w, D2);
        Type<eg::InternalManifest> x{"InternalManifest"};
        for (int i = 0; i < 3; i++)
            x.values.push_back([=] { return make_unique<eg::InternalManifest>(*man(i).build()); });
        x.obs = [](eg::InternalManifest &m) {
            string s = hex(ref::val(*m.getManifestHash()));
            for (auto c : m.getContests())
                s += conp(c.get());
            for (auto u : m.getGeopoliticalUnits())
                s += UnitM::read(u.get()).str();
            for (auto u : m.getCandidates())
                s += CandM::read(u.get()).str();
            for (auto u : m.getBallotStyles())
                s += StyleM::read(u.get()).str();
            return s;
        };
        x.mv = MOVE(eg::InternalManifest);
        add(x, D2);
    }
    mc::note("types", std::to_string(jobs.size()));
    mc::for_all("objects", jobs.size(), [&](uint64_t i) {
        jobs[i].second();
        mc::sample(jobs[i].first);
    }, 600);
    return mc::finish();
}
