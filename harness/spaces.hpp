// The spaces of elections and ballots that the ballot checks enumerate.
#pragma once
#include "model.hpp"
#include <functional>

namespace space
{
    using namespace model;
    struct Case {
        int e; // election
        Bal b;
        const char *group;
    };
    struct Space {
        vector<ManM> men;
        vector<Case> cases;
    };
    inline void product(const vector<int> &radix, const std::function<void(const vector<int> &)> &f)
    {
        vector<int> d(radix.size(), 0);
        for (;;) {
            f(d);
            size_t i = 0;
            while (i < d.size() && ++d[i] == radix[i])
                d[i++] = 0;
            if (i == d.size())
                return;
        }
    }
    inline ManM single(const ConM &c, const vector<string> &writeins = {})
    {
        ManM m;
        m.units.push_back({c.district, "unit"});
        m.styles.push_back({"style", {c.district}});
        m.cons.push_back(c);
        addCandidates(m, writeins);
        return m;
    }
    // vote codes: -1 absent
    inline BCon marks(const ConM &c, const vector<int> &v, const vector<int> &order = {})
    {
        BCon k{c.id, {}};
        for (size_t i = 0; i < v.size(); i++) {
            size_t j = order.empty() ? i : order[i];
            if (v[j] >= 0)
                k.sels.push_back({c.sels[j].id, (uint64_t)v[j]});
        }
        return k;
    }
    // all contest shapes x all vote vectors
    inline void shapes(Space &s, int maxsel, const vector<int> &votes, bool orders)
    {
        for (int ns = 1; ns <= maxsel; ns++)
            for (int n = 0; n <= std::min(3, ns + 1); n++) {
                std::set<uint64_t> al = {0, (uint64_t)n, (uint64_t)n + 1, (uint64_t)2 * n, (uint64_t)std::max(n, 1) - 1};
                for (auto a : al) {
                    vector<uint64_t> seqs;
                    for (int i = 0; i < ns; i++)
                        seqs.push_back(i);
                    // the variation has no influence on the encryption: rotate it
                    int var = (int)((ns + n + a) % 13);
                    auto c = contest("con", "unit", ns % 3, n, a, seqs, var);
                    int e = (int)s.men.size();
                    s.men.push_back(single(c));
                    product(vector<int>(ns, (int)votes.size()), [&](const vector<int> &d) {
                        vector<int> v, rev;
                        for (auto x : d)
                            v.push_back(votes[x]);
                        s.cases.push_back({e, {"ballot", "style", {marks(c, v)}}, "shapes"});
                        if (orders && ns > 1) {
                            for (int i = ns; i-- > 0;)
                                rev.push_back(i);
                            s.cases.push_back({e, {"ballot", "style", {marks(c, v, rev)}}, "shapes"});
                        }
                    });
                }
            }
    }
    // sequence numberings x presentation orders x vote vectors
    inline void numberings(Space &s)
    {
        vector<vector<uint64_t>> seqs = {{0, 1, 2}, {2, 0, 1}, {1, 2, 0}, {2, 1, 0}, {5, 2, 9}, {9, 100, 10},
                                         {1, 3, 2}, {4294967295ull, 0, 2147483648ull}, {3, 1, 7},
                                         {4294967297ull, 256, 65535}};
        for (auto &q : seqs) {
            auto c = contest("con", "unit", q[0] % 7, 2, 2, q);
            int e = (int)s.men.size();
            s.men.push_back(single(c));
            vector<int> o = {0, 1, 2};
            do {
                product({3, 3, 3}, [&](const vector<int> &d) {
                    s.cases.push_back({e, {"ballot", "style", {marks(c, {d[0] - 1, d[1] - 1, d[2] - 1}, o)}}, "numberings"});
                });
            } while (std::next_permutation(o.begin(), o.end()));
        }
    }
    inline ManM styled()
    {
        ManM m;
        m.units = {{"u1", "n1"}, {"u2", "n2"}, {"u3", "n3"}, {"u4", "n4"}};
        m.styles = {{"only2", {"u2"}}, {"s13", {"u3", "u1"}}, {"all", {"u1", "u2", "u3"}}, {"s3", {"u3", "u4"}}};
        m.cons = {contest("c-b", "u2", 4294967297ull, 1, 1, {4, 1}), contest("c-a", "u1", 3, 1, 1, {0, 1}),
                  contest("c", "u1", 5, 2, 2, {2, 1, 0}), contest("c-d", "u3", 0, 1, 0, {1, 2}, 2)};
        addCandidates(m);
        return m;
    }
    // several contests, several styles, omitted / foreign / reordered contests
    inline void styles(Space &s, bool full)
    {
        int e = (int)s.men.size();
        auto m = styled();
        s.men.push_back(m);
        for (auto &st : m.styles) {
            auto in = m.contestsFor(st.id);
            // each contest: omitted, present and empty, first marked, last marked, all marked
            product(vector<int>(in.size(), 5), [&](const vector<int> &d) {
                Bal b{"ballot-" + st.id, st.id, {}};
                for (size_t i = 0; i < in.size(); i++) {
                    auto &c = in[i];
                    if (d[i] == 0)
                        continue;
                    vector<int> v(c.sels.size(), -1);
                    if (d[i] == 2 || d[i] == 4)
                        v.front() = 1;
                    if (d[i] == 3)
                        v.back() = 1;
                    if (d[i] == 4)
                        for (auto &y : v)
                            y = 1;
                    b.cons.push_back(marks(c, v));
                }
                int sum = 0;
                for (auto x : d)
                    sum = sum * 3 + x;
                // presentation orders: rotate, or all of them
                if (full && in.size() <= 3) {
                    std::sort(b.cons.begin(), b.cons.end(), [](const BCon &x, const BCon &y) { return x.id < y.id; });
                    do
                        s.cases.push_back({e, b, "styles"});
                    while (std::next_permutation(b.cons.begin(), b.cons.end(), [](const BCon &x, const BCon &y) { return x.id < y.id; }));
                } else {
                    if (b.cons.size() > 1)
                        std::rotate(b.cons.begin(), b.cons.begin() + sum % b.cons.size(), b.cons.end());
                    if (sum % 2)
                        std::reverse(b.cons.begin(), b.cons.end());
                    s.cases.push_back({e, b, "styles"});
                }
            });
            // contests of other styles and unknown contests are not part of this ballot
            for (auto &c : m.cons) {
                Bal b{"foreign", st.id, {}};
                b.cons.push_back(marks(c, vector<int>(c.sels.size(), 1)));
                b.cons.push_back({"nowhere", {{c.sels[0].id, 1}}});
                s.cases.push_back({e, b, "styles"});
            }
        }
        for (auto id : {"", "ALL", "al", "alls", "u1", "c-a"})
            s.cases.push_back({e, {"b", id, {marks(m.cons[1], {1, 0})}}, "unknown-style"});
    }
    // identifiers that resemble each other
    inline void identifiers(Space &s)
    {
        vector<vector<string>> ids = {{"a", "a-b", "a", "b"},     // selection ids shared between contests
                                      {"a", "b", "b", "a"},
                                      {"x-1", "x", "1-placeholder", "x-2-placeholder"},
                                      {" ", "a b", "\xc3\xa9", "|"},
                                      {"null", "0", "null", "00"}};
        for (auto &d : ids) {
            ManM m;
            m.units = {{"u", "n"}};
            m.styles = {{"style", {"u"}}};
            for (int k = 0; k < 2; k++) {
                auto c = contest(d[k], "u", k, 1, 1, {0, 1});
                c.sels[0].id = d[2];
                c.sels[1].id = d[3];
                c.sels[0].cand = d[2] + (k ? "-k2" : "-k1");
                c.sels[1].cand = d[3] + (k ? "-k2" : "-k1");
                m.cons.push_back(c);
            }
            addCandidates(m);
            int e = (int)s.men.size();
            s.men.push_back(m);
            product({3, 3, 3, 3}, [&](const vector<int> &v) {
                s.cases.push_back({e, {"ballot", "style", {marks(m.cons[0], {v[0] - 1, v[1] - 1}), marks(m.cons[1], {v[2] - 1, v[3] - 1})}}, "identifiers"});
            });
        }
        // marks that do not belong to the contest, and marks flagged as placeholders
        auto c = contest("con", "u", 1, 2, 2, {0, 1, 2});
        int e = (int)s.men.size();
        s.men.push_back(single(c));
        for (auto id : {"other", "con-3-placeholder", "con-s00", "con-s", "", "CON-S0"})
            for (uint64_t v : {0ull, 1ull, 2ull})
                for (int pos = 0; pos < 2; pos++) {
                    BCon k = marks(c, {1, -1, -1});
                    k.sels.insert(k.sels.begin() + pos, {id, v});
                    s.cases.push_back({e, {"ballot", "style", {k}}, "foreign-marks"});
                }
        for (int f = 0; f < 8; f++) {
            BCon k = marks(c, {1, 0, 1});
            for (int i = 0; i < 3; i++)
                k.sels[i].ph = f >> i & 1;
            s.cases.push_back({e, {"ballot", "style", {k}}, "placeholder-flags"});
        }
        for (auto id : {"", "a", "ballot-with-a-long-identifier-0123456789-0123456789-0123456789", "\xf0\x9f\x97\xb3"})
            s.cases.push_back({e, {id, "style", {marks(c, {1, 0, 1})}}, "ballot-ids"});
    }
    // write-in texts next to votes of every value, also where no write-in is offered
    inline void writeins(Space &s)
    {
        for (int off = 0; off < 2; off++) {
            auto c = contest("con", "unit", 4, 1, 2, {0, 1, 2});
            ManM m;
            m.units.push_back({"unit", "unit"});
            m.styles.push_back({"style", {"unit"}});
            m.cons.push_back(c);
            if (off)
                addCandidates(m);
            else
                addCandidates(m, {"con-s1", "con-s2"});
            int e = (int)s.men.size();
            s.men.push_back(m);
            product({3, 3, 3, 8}, [&](const vector<int> &d) {
                auto k = marks(c, {d[0] - 1, d[1] - 1, d[2] - 1});
                for (size_t i = 0; i < k.sels.size(); i++)
                    if (d[3] >> i & 1)
                        k.sels[i].writein = "Own " + k.sels[i].id;
                if (d[3] >> k.sels.size() == 0)
                    s.cases.push_back({e, {"ballot", "style", {k}}, "write-ins"});
            });
        }
    }
    // entries that are repeated: the first one counts
    inline void repeated(Space &s)
    {
        auto c = contest("con", "unit", 4, 1, 1, {0, 1}), c2 = contest("con2", "unit", 5, 2, 2, {0, 1});
        ManM m;
        m.units.push_back({"unit", "unit"});
        m.styles.push_back({"style", {"unit"}});
        m.cons = {c, c2};
        addCandidates(m);
        int e = (int)s.men.size();
        s.men.push_back(m);
        product({2, 2, 2, 2, 2, 3}, [&](const vector<int> &d) {
            // two entries for the first selection, one or two for the second
            BCon k{"con", {{"con-s0", (uint64_t)d[0]}, {"con-s1", (uint64_t)d[1]}}};
            k.sels.insert(k.sels.begin() + 1 + d[3], {"con-s0", (uint64_t)d[2]});
            if (d[4])
                k.sels.push_back({"con-s1", (uint64_t)!d[1]});
            Bal b{"ballot", "style", {k}};
            if (d[5]) // the contest once more, with other marks, directly after it or later
            {
                if (d[5] == 2)
                    b.cons.push_back({"con2", {{"con2-s0", 1}}});
                b.cons.push_back({"con", {{"con-s0", (uint64_t)!d[0]}, {"con-s1", (uint64_t)!d[1]}}});
            }
            s.cases.push_back({e, b, "repeated"});
        });
    }
    // contests with many selections and many seats
    inline void large(Space &s, bool full)
    {
        for (auto sh : vector<std::pair<int, int>>{{12, 11}, {11, 1}, {12, 12}, {20, 3}})
            for (int back = 0; back < 2; back++) {
                int ns = sh.first;
                vector<uint64_t> seqs;
                for (int i = 0; i < ns; i++)
                    seqs.push_back(back ? ns - i : i);
                auto c = contest("con", "unit", 12, sh.second, sh.second, seqs);
                int e = (int)s.men.size();
                s.men.push_back(single(c));
                auto put = [&](vector<int> v) { s.cases.push_back({e, {"ballot", "style", {marks(c, v)}}, "large"}); };
                put(vector<int>(ns, -1));
                put(vector<int>(ns, 1));
                vector<int> v(ns, 0);
                for (int i = 0; i < ns; i++) {
                    if (full || i % 3 == 0 || i + 1 == ns) {
                        vector<int> o(ns, 0);
                        o[i] = 1;
                        put(o);
                    }
                    v[(i * 5) % ns] = 1;
                    if (full || i >= ns - 3 || i + 1 == sh.second || i == sh.second)
                        put(v);
                }
            }
    }
} // namespace space
