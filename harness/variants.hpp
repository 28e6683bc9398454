// Every field of every object of an election description with alternative
// values: the alterations from which the description checks take all single
// and paired combinations.
#pragma once
#include "spaces.hpp"
namespace space
{
    struct Alt {
        string name;
        bool hashed; // part of the manifest hash
        std::function<void(ManM &)> f;
    };
    // optional parts all present
    inline ManM rich()
    {
        ManM m;
        m.scope = "scope-1";
        m.type = 2;
        m.start = 1614556800;
        m.end = 1614643199;
        ContactM c;
        c.name = "contact";
        c.address = {"1 Main St", "Town"};
        c.email = {{"press", "p@x.org"}, {"", "q@x.org"}};
        c.phone = {{"desk", "555"}};
        m.contact = c;
        m.name = vector<Lang>{{"Election", "en"}, {"Elecci\xc3\xb3n", "es"}};
        m.units = {{"u1", "Unit 1", 4, c}, {"u2", "Unit 2", 15}};
        m.parties = {{"p1", {{"Party", "en"}}, "PA", "0xFF", "http://p"}, {"p2", {}, "PB", "", ""}};
        auto k1 = contest("k1", "u1", 1, 1, 1, {0, 1}, 1), k2 = contest("k2", "u2", 4, 2, 3, {1, 2, 5}, 6);
        k1.title = vector<Lang>{{"Title", "en"}};
        k1.sub = vector<Lang>{{"Sub", "en"}, {"Sub2", "fr"}};
        m.cons = {k1, k2};
        m.styles = {{"b1", {"u1", "u2"}, {"p1", "p2"}, "http://b"}, {"b2", {"u2"}}};
        addCandidates(m, {"k2-s2"});
        m.cands[0].party = "p1";
        m.cands[0].name = {{"Cand", "en"}};
        m.cands[0].image = "http://c";
        return m;
    }
    // optional parts all absent
    inline ManM lean()
    {
        ManM m;
        m.units = {{"u", "n"}};
        m.styles = {{"b", {"u"}}};
        m.cons = {contest("k", "u", 0, 1, 0, {0})};
        m.cons[0].name = "";
        addCandidates(m);
        return m;
    }
    inline vector<Alt> alterations(const ManM &m, bool special)
    {
        vector<Alt> v;
        auto add = [&](const string &n, bool h, std::function<void(ManM &)> f) { v.push_back({n, h, f}); };
        vector<string> texts = {"", "changed"};
        if (special)
            for (auto t : {" ", "\"quote\" \\ /", "line\nbreak\ttab\x01", "\xc3\xa9\xe2\x82\xac\xf0\x9f\x97\xb3", "null", "0", "true", "[1]", "{\"a\":1}", "a,b|c", "00FF", "2021-03-01T00:00:00Z", "\x7f", "a long text of more than thirty-one characters, so that it needs a longer length field in binary formats"})
                texts.push_back(t);
        auto text = [&](const string &n, bool h, std::function<string *(ManM &)> at) {
            for (auto &t : texts)
                add(n + "='" + t.substr(0, 12) + "'", h, [=](ManM &x) { auto p = at(x); if (p) *p = t; });
        };
        auto txt = [&](const string &n, bool h, std::function<Txt *(ManM &)> at) {
            add(n + " absent", h, [=](ManM &x) { auto p = at(x); if (p) *p = {}; });
            add(n + " empty", h, [=](ManM &x) { auto p = at(x); if (p) *p = vector<Lang>{}; });
            add(n + " one", h, [=](ManM &x) { auto p = at(x); if (p) *p = vector<Lang>{{"one", "de"}}; });
            add(n + " no language", h, [=](ManM &x) { auto p = at(x); if (p) *p = vector<Lang>{{"one", ""}}; });
            add(n + " no value", h, [=](ManM &x) { auto p = at(x); if (p) *p = vector<Lang>{{"", "de"}, {"", ""}}; });
            add(n + " swapped", h, [=](ManM &x) { auto p = at(x); if (p && *p) std::reverse((*p)->begin(), (*p)->end()); });
            add(n + " twice", h, [=](ManM &x) { auto p = at(x); if (p && *p && (*p)->size()) (*p)->push_back((**p)[0]); });
            text(n + " value", h, [=](ManM &x) -> string * { auto p = at(x); return p && *p && (*p)->size() ? &(**p)[0].value : nullptr; });
            text(n + " language", h, [=](ManM &x) -> string * { auto p = at(x); return p && *p && (*p)->size() ? &(**p)[0].language : nullptr; });
        };
        auto lang = [&](const string &n, bool h, std::function<vector<Lang> *(ManM &)> at) {
            add(n + " empty", h, [=](ManM &x) { auto p = at(x); if (p) p->clear(); });
            add(n + " two", h, [=](ManM &x) { auto p = at(x); if (p) *p = {{"one", "de"}, {"two", ""}}; });
            add(n + " swapped", h, [=](ManM &x) { auto p = at(x); if (p) *p = {{"two", ""}, {"one", "de"}}; });
            text(n + " value", h, [=](ManM &x) -> string * { auto p = at(x); return p && p->size() ? &(*p)[0].value : nullptr; });
            text(n + " language", h, [=](ManM &x) -> string * { auto p = at(x); return p && p->size() ? &(*p)[0].language : nullptr; });
        };
        auto list = [&](const string &n, bool h, std::function<vector<string> *(ManM &)> at) {
            add(n + " empty", h, [=](ManM &x) { auto p = at(x); if (p) p->clear(); });
            add(n + " one more", h, [=](ManM &x) { auto p = at(x); if (p) p->push_back("more"); });
            add(n + " one more empty", h, [=](ManM &x) { auto p = at(x); if (p) p->push_back(""); });
            add(n + " reversed", h, [=](ManM &x) { auto p = at(x); if (p) std::reverse(p->begin(), p->end()); });
            text(n + "[0]", h, [=](ManM &x) -> string * { auto p = at(x); return p && p->size() ? &(*p)[0] : nullptr; });
        };
        auto anns = [&](const string &n, std::function<vector<Ann> *(ManM &)> at) {
            add(n + " empty", true, [=](ManM &x) { auto p = at(x); if (p) p->clear(); });
            add(n + " one more", true, [=](ManM &x) { auto p = at(x); if (p) p->push_back({"a", "v"}); });
            add(n + " one more empty", true, [=](ManM &x) { auto p = at(x); if (p) p->push_back({"", ""}); });
            add(n + " reversed", true, [=](ManM &x) { auto p = at(x); if (p) std::reverse(p->begin(), p->end()); });
            text(n + " annotation", true, [=](ManM &x) -> string * { auto p = at(x); return p && p->size() ? &(*p)[0].annotation : nullptr; });
            text(n + " value", true, [=](ManM &x) -> string * { auto p = at(x); return p && p->size() ? &(*p)[0].value : nullptr; });
        };
        auto contact = [&](const string &n, std::function<Contact *(ManM &)> at) {
            add(n + " absent", true, [=](ManM &x) { auto p = at(x); if (p) *p = {}; });
            add(n + " empty", true, [=](ManM &x) { auto p = at(x); if (p) *p = ContactM{}; });
            add(n + " name only", true, [=](ManM &x) { auto p = at(x); if (p) { ContactM c; c.name = "only"; *p = c; } });
            add(n + " address only", true, [=](ManM &x) { auto p = at(x); if (p) { ContactM c; c.address = {"only"}; *p = c; } });
            add(n + " email only", true, [=](ManM &x) { auto p = at(x); if (p) { ContactM c; c.email = {{"a", "b"}}; *p = c; } });
            add(n + " phone only", true, [=](ManM &x) { auto p = at(x); if (p) { ContactM c; c.phone = {{"a", "b"}}; *p = c; } });
            add(n + " email and phone exchanged", true, [=](ManM &x) { auto p = at(x); if (p && *p) std::swap((*p)->email, (*p)->phone); });
            text(n + " name", true, [=](ManM &x) -> string * { auto p = at(x); return p && *p ? &(*p)->name : nullptr; });
            list(n + " address", true, [=](ManM &x) -> vector<string> * { auto p = at(x); return p && *p ? &(*p)->address : nullptr; });
            anns(n + " email", [=](ManM &x) -> vector<Ann> * { auto p = at(x); return p && *p ? &(*p)->email : nullptr; });
            anns(n + " phone", [=](ManM &x) -> vector<Ann> * { auto p = at(x); return p && *p ? &(*p)->phone : nullptr; });
        };
        text("scope", true, [](ManM &x) { return &x.scope; });
        for (int t = 0; t < 8; t++)
            add("type " + std::to_string(t), true, [=](ManM &x) { x.type = t; });
        // seconds since 1970: the ends of days, years, leap days and 32-bit counters
        for (int64_t d : {(int64_t)0, (int64_t)1, (int64_t)86399, (int64_t)951782400, (int64_t)1582934400, (int64_t)1583020799, (int64_t)1609459199, (int64_t)2147483647, (int64_t)2147483648, (int64_t)4102444799}) {
            add("start " + iso(d), true, [=](ManM &x) { x.start = d; });
            add("end " + iso(d), true, [=](ManM &x) { x.end = d; });
        }
        txt("name", true, [](ManM &x) { return &x.name; });
        contact("contact", [](ManM &x) { return &x.contact; });
#define AT(list, i, field) [i](ManM &x) -> decltype(&x.list[0].field) { return i < x.list.size() ? &x.list[i].field : nullptr; }
        for (size_t i = 0; i < m.units.size(); i++) {
            string n = "unit" + std::to_string(i);
            text(n + " id", true, AT(units, i, id));
            text(n + " name", true, AT(units, i, name));
            for (int t = 0; t < 29; t++)
                if (i == 0 || t % 7 == 0)
                    add(n + " type " + std::to_string(t), true, [=](ManM &x) { if (i < x.units.size()) x.units[i].type = t; });
            contact(n + " contact", AT(units, i, contact));
        }
        for (size_t i = 0; i < m.parties.size(); i++) {
            string n = "party" + std::to_string(i);
            text(n + " id", true, AT(parties, i, id));
            lang(n + " name", true, AT(parties, i, name));
            text(n + " abbreviation", true, AT(parties, i, abbrev));
            text(n + " color", true, AT(parties, i, color));
            text(n + " logo", true, AT(parties, i, logo));
        }
        for (size_t i = 0; i < m.cands.size(); i++) {
            string n = "cand" + std::to_string(i);
            if (i > 1)
                break;
            text(n + " id", false, AT(cands, i, id));
            lang(n + " name", false, AT(cands, i, name));
            text(n + " party", false, AT(cands, i, party));
            text(n + " image", false, AT(cands, i, image));
            add(n + " writein", false, [=](ManM &x) { if (i < x.cands.size()) x.cands[i].writein = !x.cands[i].writein; });
        }
        for (size_t i = 0; i < m.styles.size(); i++) {
            string n = "style" + std::to_string(i);
            text(n + " id", true, AT(styles, i, id));
            list(n + " units", true, AT(styles, i, units));
            list(n + " parties", true, AT(styles, i, parties));
            text(n + " image", true, AT(styles, i, image));
        }
        for (size_t i = 0; i < m.cons.size(); i++) {
            string n = "contest" + std::to_string(i);
            text(n + " id", true, AT(cons, i, id));
            text(n + " district", true, AT(cons, i, district));
            text(n + " name", true, AT(cons, i, name));
            txt(n + " title", true, AT(cons, i, title));
            txt(n + " subtitle", true, AT(cons, i, sub));
            add(n + " title and subtitle exchanged", true, [=](ManM &x) { if (i < x.cons.size()) std::swap(x.cons[i].title, x.cons[i].sub); });
            for (int t = 0; t < 13; t++)
                add(n + " variation " + std::to_string(t), true, [=](ManM &x) { if (i < x.cons.size()) x.cons[i].var = t; });
            for (uint64_t q : {(uint64_t)0, (uint64_t)1, (uint64_t)3, (uint64_t)10, (uint64_t)255, (uint64_t)256, (uint64_t)65536, (uint64_t)2147483648u, (uint64_t)4294967296u, (uint64_t)9223372036854775807u}) {
                add(n + " seq " + std::to_string(q), true, [=](ManM &x) { if (i < x.cons.size()) x.cons[i].seq = q < 9223372036854775807u ? q + i : q - i; });
                if (q < 4)
                    add(n + " elected " + std::to_string(q), true, [=](ManM &x) { if (i < x.cons.size()) x.cons[i].n = q; });
                add(n + " allowed " + std::to_string(q), true, [=](ManM &x) { if (i < x.cons.size()) x.cons[i].allowed = q; });
            }
            for (size_t j = 0; j < m.cons[i].sels.size(); j++) {
                string p = n + " selection" + std::to_string(j);
                auto at = [=](ManM &x) -> SelM * { return i < x.cons.size() && j < x.cons[i].sels.size() ? &x.cons[i].sels[j] : nullptr; };
                text(p + " id", true, [=](ManM &x) -> string * { auto s = at(x); return s ? &s->id : nullptr; });
                text(p + " candidate", true, [=](ManM &x) -> string * { auto s = at(x); return s ? &s->cand : nullptr; });
                for (uint64_t q : {(uint64_t)0, (uint64_t)7, (uint64_t)4294967295u, (uint64_t)4294967296u, (uint64_t)9223372036854775800u})
                    add(p + " seq " + std::to_string(q), true, [=](ManM &x) { auto s = at(x); if (s) s->seq = q; });
                add("-" + p, true, [=](ManM &x) { if (at(x)) x.cons[i].sels.erase(x.cons[i].sels.begin() + j); });
            }
            add(n + " +selection", true, [=](ManM &x) { if (i < x.cons.size()) x.cons[i].sels.push_back({"extra", "extra-c", 9}); });
        }
#define LISTS(l)                                                                                    \
    add(#l " none", true, [](ManM &x) { x.l.clear(); });                                            \
    add(#l " first left out", true, [](ManM &x) { if (x.l.size()) x.l.erase(x.l.begin()); });       \
    add(#l " last left out", true, [](ManM &x) { if (x.l.size()) x.l.pop_back(); });
        LISTS(units)
        LISTS(parties)
        LISTS(styles)
        LISTS(cons)
        add("cands none", false, [](ManM &x) { x.cands.clear(); });
        add("cands last left out", false, [](ManM &x) { if (x.cands.size()) x.cands.pop_back(); });
        // orders that are kept as given
        add("units reversed", true, [](ManM &x) { std::reverse(x.units.begin(), x.units.end()); });
        add("parties reversed", true, [](ManM &x) { std::reverse(x.parties.begin(), x.parties.end()); });
        add("styles reversed", true, [](ManM &x) { std::reverse(x.styles.begin(), x.styles.end()); });
        return v;
    }
#undef AT
#undef LISTS
} // namespace space
