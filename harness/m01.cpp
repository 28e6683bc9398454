// M01: all combinations of up to two (thorough: three) deviations from
// well-formed manifests, and all orders of their object lists; the library's
// verdict is compared with an independent predicate.
#include "mc.hpp"
#include "spaces.hpp"
using namespace space;
struct Dev {
    string name;
    std::function<void(ManM &)> f;
};
static ManM base(int k)
{
    ManM m;
    if (k == 0) {
        m.units = {{"u1", "n1"}, {"u2", "n2", 4}, {"u3", "n3", 0}};
        m.parties = {{"p1", {{"n", "en"}}, "a", "b", "c"}, {"p2", {}, "a", "b", "c"}};
        m.styles = {{"b1", {"u1", "u2"}}, {"b2", {"u2"}, {"p1"}, "uri"}, {"b3", {"u3"}}};
        m.cons = {contest("k1", "u1", 0, 1, 1, {0, 1}), contest("k2", "u2", 5, 2, 3, {4, 0, 9}, 2), contest("k3", "u2", 2, 1, 0, {1}, 1)};
        addCandidates(m);
        m.cands[0].party = "p1";
        m.cands[1].party = "p2";
        m.cands[3].writein = true;
    } else if (k == 1) {
        // the same names are used for different kinds of objects
        m.units = {{"a", "a"}, {"b", "b"}};
        m.parties = {{"a", {}, "", "", ""}};
        m.styles = {{"a", {"a"}}, {"b", {"b", "a"}}};
        auto c = contest("a", "a", 1, 1, 1, {0, 1}), d = contest("b", "a", 0, 1, 1, {0, 1});
        c.sels[0] = {"a", "a", 0};
        c.sels[1] = {"b", "b", 1};
        d.sels = c.sels;
        m.cons = {c, d};
        m.cands = {{"a", {}, "a", "", false}, {"b", {}, "", "", false}};
    } else {
        // nothing but a scope
    }
    return m;
}
static vector<Dev> devs(const ManM &m)
{
    vector<Dev> v;
    auto add = [&](const string &n, std::function<void(ManM &)> f) { v.push_back({n, f}); };
    // another value for one name: absent, another one's, something else
    auto names = [&](const string &n, const string &own, const vector<string> &others, std::function<void(ManM &, const string &)> set) {
        add(n + ":=empty", [=](ManM &x) { set(x, ""); });
        for (auto &o : others)
            if (o != own)
                add(n + ":=" + o, [=](ManM &x) { set(x, o); });
        add(n + ":=new", [=](ManM &x) { set(x, own + " new"); });
        add(n + ":=space", [=](ManM &x) { set(x, " "); });
    };
    vector<string> units, parties, styles, cons, cands;
    for (auto &x : m.units)
        units.push_back(x.id);
    for (auto &x : m.parties)
        parties.push_back(x.id);
    for (auto &x : m.styles)
        styles.push_back(x.id);
    for (auto &x : m.cons)
        cons.push_back(x.id);
    for (auto &x : m.cands)
        cands.push_back(x.id);
    // accesses are guarded: an earlier deviation may have removed the object
#define AT(list, i, expr)                                                                           \
    if (i < x.list.size())                                                                          \
    x.list[i].expr
    for (size_t i = 0; i < units.size(); i++) {
        names("unit" + std::to_string(i), units[i], units, [=](ManM &x, const string &s) { AT(units, i, id) = s; });
        add("-unit" + std::to_string(i), [=](ManM &x) { if (i < x.units.size()) x.units.erase(x.units.begin() + i); });
        add("unit type and contact" + std::to_string(i), [=](ManM &x) { if (i < x.units.size()) x.units[i].type = 28, x.units[i].contact = ContactM{}; });
    }
    for (size_t i = 0; i < parties.size(); i++) {
        names("party" + std::to_string(i), parties[i], parties, [=](ManM &x, const string &s) { AT(parties, i, id) = s; });
        add("-party" + std::to_string(i), [=](ManM &x) { if (i < x.parties.size()) x.parties.erase(x.parties.begin() + i); });
    }
    for (size_t i = 0; i < styles.size(); i++) {
        names("style" + std::to_string(i), styles[i], styles, [=](ManM &x, const string &s) { AT(styles, i, id) = s; });
        for (size_t j = 0; j < m.styles[i].units.size(); j++)
            names("style" + std::to_string(i) + " unit" + std::to_string(j), m.styles[i].units[j], units, [=](ManM &x, const string &s) { if (i < x.styles.size() && j < x.styles[i].units.size()) x.styles[i].units[j] = s; });
        add("style" + std::to_string(i) + " no units", [=](ManM &x) { AT(styles, i, units.clear()); });
        add("style" + std::to_string(i) + " unit nowhere first", [=](ManM &x) { if (i < x.styles.size()) x.styles[i].units.insert(x.styles[i].units.begin(), "nowhere"); });
        add("style" + std::to_string(i) + " unit nowhere last", [=](ManM &x) { AT(styles, i, units.push_back("nowhere")); });
        add("style" + std::to_string(i) + " unknown party", [=](ManM &x) { AT(styles, i, parties.push_back("nobody")); });
        add("-style" + std::to_string(i), [=](ManM &x) { if (i < x.styles.size()) x.styles.erase(x.styles.begin() + i); });
    }
    for (size_t i = 0; i < cands.size(); i++) {
        names("cand" + std::to_string(i), cands[i], {cands[(i + 1) % cands.size()], cands[0]}, [=](ManM &x, const string &s) { AT(cands, i, id) = s; });
        names("cand" + std::to_string(i) + " party", m.cands[i].party, parties, [=](ManM &x, const string &s) { AT(cands, i, party) = s; });
        add("-cand" + std::to_string(i), [=](ManM &x) { if (i < x.cands.size()) x.cands.erase(x.cands.begin() + i); });
        add("cand writein" + std::to_string(i), [=](ManM &x) { if (i < x.cands.size()) x.cands[i].writein = !x.cands[i].writein; });
    }
    for (size_t i = 0; i < cons.size(); i++) {
        string n = "contest" + std::to_string(i);
        names(n, cons[i], cons, [=](ManM &x, const string &s) { AT(cons, i, id) = s; });
        names(n + " district", m.cons[i].district, units, [=](ManM &x, const string &s) { AT(cons, i, district) = s; });
        for (auto &o : m.cons)
            add(n + " seq", [=](ManM &x) { AT(cons, i, seq) = o.seq; });
        for (uint64_t q : {0ull, 4294967296ull, 18446744073709551615ull})
            add(n + " seq " + std::to_string(q), [=](ManM &x) { AT(cons, i, seq) = q; });
        for (uint64_t k : {0ull, 1ull, 2ull, 3ull, 4ull, 4294967297ull, ~0ull}) {
            add(n + " elected " + std::to_string(k), [=](ManM &x) { AT(cons, i, n) = k; });
            add(n + " allowed " + std::to_string(k), [=](ManM &x) { AT(cons, i, allowed) = k; });
        }
        for (int t : {0, 2, 12})
            add(n + " variation " + std::to_string(t), [=](ManM &x) { AT(cons, i, var) = t; });
        add("-" + n, [=](ManM &x) { if (i < x.cons.size()) x.cons.erase(x.cons.begin() + i); });
        auto &sl = m.cons[i].sels;
        for (size_t j = 0; j < sl.size(); j++) {
            string p = n + " sel" + std::to_string(j);
            auto &nx = sl[(j + 1) % sl.size()];
            auto ok = [=](ManM &x) { return i < x.cons.size() && j < x.cons[i].sels.size(); };
            names(p, sl[j].id, {nx.id, cons[0]}, [=](ManM &x, const string &s) { if (ok(x)) x.cons[i].sels[j].id = s; });
            names(p + " cand", sl[j].cand, {nx.cand, m.cands[0].id}, [=](ManM &x, const string &s) { if (ok(x)) x.cons[i].sels[j].cand = s; });
            for (uint64_t q : {(uint64_t)nx.seq, (uint64_t)0, (uint64_t)1 << 32, ~(uint64_t)0})
                add(p + " seq " + std::to_string(q), [=](ManM &x) { if (ok(x)) x.cons[i].sels[j].seq = q; });
            add("-" + p, [=](ManM &x) { if (ok(x)) x.cons[i].sels.erase(x.cons[i].sels.begin() + j); });
        }
    }
    // a second object of the same name, and emptied lists
    add("+unit first", [](ManM &x) { if (x.units.size()) x.units.insert(x.units.begin(), x.units.back()); });
    add("+unit", [](ManM &x) { x.units.push_back({"u9", "x"}); });
    add("+party", [](ManM &x) { x.parties.push_back({"p9", {}, "", "", ""}); });
    add("+party again", [](ManM &x) { if (x.parties.size()) x.parties.push_back(x.parties[0]); });
    add("+style nowhere", [](ManM &x) { x.styles.push_back({"b9", {"nowhere"}}); });
    add("+style nothing", [](ManM &x) { x.styles.push_back({"b9", {}}); });
    add("+style again", [](ManM &x) { if (x.styles.size()) x.styles.push_back(x.styles[0]); });
    add("+cand", [](ManM &x) { x.cands.push_back({"c9", {}, "", "", false}); });
    add("+cand again", [](ManM &x) { if (x.cands.size()) x.cands.push_back(x.cands[0]); });
    add("+cand party", [](ManM &x) { x.cands.push_back({"c8", {}, "p9", "", false}); });
    add("+contest", [](ManM &x) { x.cons.push_back(contest("k9", "u9", 77, 1, 1, {0})); });
    add("+contest without selections", [](ManM &x) { x.cons.push_back(contest("k8", x.units.empty() ? "" : x.units[0].id, 78, 0, 0, {})); });
    add("+contest again", [](ManM &x) { if (x.cons.size()) x.cons.push_back(x.cons[0]); });
    add("+contest same seq", [](ManM &x) { if (x.cons.size()) { auto c = x.cons[0]; c.id += "'"; x.cons.insert(x.cons.begin(), c); } });
    add("no units", [](ManM &x) { x.units.clear(); });
    add("no parties", [](ManM &x) { x.parties.clear(); });
    add("no cands", [](ManM &x) { x.cands.clear(); });
    add("no contests", [](ManM &x) { x.cons.clear(); });
    add("no styles", [](ManM &x) { x.styles.clear(); });
    add("scope empty", [](ManM &x) { x.scope = ""; });
    add("type and dates", [](ManM &x) { x.type = 0; x.end = x.start - 100; });
    add("name and contact", [](ManM &x) { x.name = vector<Lang>{}; x.contact = ContactM{}; });
    return v;
}
static void judge(const ManM &m, const string &what)
{
    auto l = m.build();
    bool want = m.valid(), got = l->isValid();
    mc::step();
    if (got != want)
        mc::fail(want ? "a well-formed manifest is reported invalid" : "a malformed manifest is reported valid", what + " " + m.str());
    mc::expect(l->isValid() == got, "asking twice gives two answers", what);
    // contests answer for themselves
    size_t i = 0;
    auto sorted = bySeq(m.cons);
    for (auto c : l->getContests()) {
        std::set<uint64_t> q;
        for (auto &k : m.cons)
            q.insert(k.seq);
        if (q.size() == m.cons.size())
            mc::expect(c.get().isValid() == sorted[i].valid(), "a contest's own validity", what);
        i++;
    }
    mc::state(m.str() + (got ? "v" : "i"));
}
int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool quick = mc::opt().quick();
    for (int k = 0; k < 3; k++) {
        auto b = base(k);
        auto d = devs(b);
        size_t n = d.size();
        mc::note("deviations of manifest " + std::to_string(k), std::to_string(n));
        // none, one, two, in both orders of application
        mc::for_all("pairs" + std::to_string(k), n + 1, [&](uint64_t i) {
            for (size_t j = 0; j <= n; j++) {
                ManM m = b;
                string w;
                if (i < n)
                    d[i].f(m), w += d[i].name;
                if (j < n)
                    d[j].f(m), w += ", " + d[j].name;
                mc::desc("pairs" + std::to_string(k) + " " + w);
                judge(m, w);
            }
            if (i % 40 == 0)
                mc::sample("manifest " + std::to_string(k) + " with deviation " + (i < n ? d[i].name : "none") + " and every second one");
        });
        // three
        size_t s = quick ? 5 : 1;
        if (k < 2)
            mc::for_all("triples" + std::to_string(k), (n + s - 1) / s, [&](uint64_t t) {
                size_t i = t * s;
                for (size_t j = i + 1; j < n; j += s)
                    for (size_t l = j + 1; l < n; l += s) {
                        ManM m = b;
                        d[i].f(m), d[j].f(m), d[l].f(m);
                        string w = d[i].name + ", " + d[j].name + ", " + d[l].name;
                        mc::desc("triples " + w);
                        judge(m, w);
                    }
            });
        // every order of every list, on top of every single deviation
        mc::for_all("orders" + std::to_string(k), n + 1, [&](uint64_t i) {
            ManM m0 = b;
            if (i < n)
                d[i].f(m0);
            string w = i < n ? d[i].name : "none";
            auto perms = [&](size_t len, std::function<void(const vector<size_t> &)> f) {
                vector<size_t> p;
                for (size_t q = 0; q < len; q++)
                    p.push_back(q);
                int count = 0;
                do
                    f(p);
                while (std::next_permutation(p.begin(), p.end()) && ++count < 120);
            };
#define ORDER(list)                                                                                 \
    perms(m0.list.size(), [&](const vector<size_t> &p) {                                            \
        ManM m = m0;                                                                                \
        for (size_t q = 0; q < p.size(); q++)                                                       \
            m.list[q] = m0.list[p[q]];                                                              \
        mc::desc("orders of " #list " " + w);                                                       \
        judge(m, w + " reordered " #list);                                                          \
    });
            ORDER(units)
            ORDER(parties)
            ORDER(cons)
            ORDER(styles)
            {
                // candidates: rotations
                for (size_t r = 1; r < m0.cands.size(); r++) {
                    ManM m = m0;
                    std::rotate(m.cands.begin(), m.cands.begin() + r, m.cands.end());
                    judge(m, w + " rotated candidates");
                }
            }
            for (size_t c = 0; c < m0.cons.size(); c++)
                ORDER(cons[c].sels)
            // everything reversed at once
            ManM m = m0;
            std::reverse(m.units.begin(), m.units.end());
            std::reverse(m.parties.begin(), m.parties.end());
            std::reverse(m.cands.begin(), m.cands.end());
            std::reverse(m.cons.begin(), m.cons.end());
            std::reverse(m.styles.begin(), m.styles.end());
            for (auto &c : m.cons)
                std::reverse(c.sels.begin(), c.sels.end());
            judge(m, w + " all reversed");
        });
    }
    return mc::finish();
}
