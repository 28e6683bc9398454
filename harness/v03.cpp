// V03: every function of the C interface, over bounded alphabets of arguments,
// against the C++ interface; every sequence of list operations; every order of
// releasing handles; every position of an input cut short. Built with the
// address sanitizer: an access to released memory or a crash ends the case.
// Memory is counted: what a case allocated must be released at its end.
#include "mc.hpp"
#include "dto.hpp"
#include "spaces.hpp"
#include <electionguard/ballot_code.hpp>
#include <electionguard/ballot_compact.hpp>
#include <electionguard/precompute_buffers.hpp>
#include <electionguard/hash.hpp>
extern "C" {
#include <electionguard/ballot.h>
#include <electionguard/ballot_code.h>
#include <electionguard/ballot_compact.h>
#include <electionguard/chaum_pedersen.h>
#include <electionguard/collections.h>
#include <electionguard/election.h>
#include <electionguard/elgamal.h>
#include <electionguard/encrypt.h>
#include <electionguard/group.h>
#include <electionguard/hash.h>
#include <electionguard/manifest.h>
#include <electionguard/status.h>
}
using namespace space;
using std::to_string;
using std::map;
namespace eg = electionguard;
using mc::fail;
using mc::expect;
typedef eg_electionguard_status_t St;

// ---- memory accounting ----
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static long g_live = 0;
static void onMalloc(const volatile void *p, size_t)
{
    if (p)
        g_live++;
}
static void onFree(const volatile void *p)
{
    if (p)
        g_live--;
}
// fn must release all it obtains; tables and buffers the library keeps are
// filled by the first runs
static void balanced(const string &what, const std::function<void()> &fn)
{
    fn();
    long left = 0;
    for (int i = 0; i < 4; i++) {
        long before = g_live;
        fn();
        left = g_live - before;
        if (left <= 0)
            return;
    }
    fail("memory is lost: " + what, to_string(left) + " blocks");
}

static char SENTINEL[16];
template <class T> static T *none() { return (T *)SENTINEL; }

// an operation that must succeed
template <class T, class F> static T *obtain(const string &what, F f)
{
    T *h = none<T>();
    mc::step();
    St s = f(&h);
    if (s != ELECTIONGUARD_STATUS_SUCCESS || h == none<T>()) {
        fail(what + " does not succeed", to_string(s));
        throw std::runtime_error("cannot go on: " + what);
    }
    return h;
}
// an operation that must fail
template <class T, class F> static void refuse(const string &what, F f)
{
    T *h = none<T>();
    mc::step();
    St s = f(&h);
    expect(s != ELECTIONGUARD_STATUS_SUCCESS, what + " reports success where it cannot succeed");
    expect(s == ELECTIONGUARD_STATUS_SUCCESS || h == none<T>(), what + " fails and hands out an object");
}
// an operation that must do what the C++ call does. show releases the handle
template <class T, class F> static bool agree(const string &what, F f, const std::function<string()> &cpp, const std::function<string(T *)> &show)
{
    string want;
    bool ok = true;
    try {
        want = cpp();
    } catch (const std::exception &) {
        ok = false;
    }
    if (!ok) {
        refuse<T>(what, f);
        return false;
    }
    T *h = none<T>();
    mc::step();
    St s = f(&h);
    if (s != ELECTIONGUARD_STATUS_SUCCESS || h == none<T>()) {
        fail(what + " fails where the C++ call succeeds", to_string(s));
        return false;
    }
    string got = show(h);
    expect(got == want, what + " gives another result than the C++ call", got.substr(0, 400) + " instead of " + want.substr(0, 400));
    return true;
}
template <class F> static string text(const string &what, F f)
{
    char *t = obtain<char>(what, f);
    string s = t;
    eg_free_int_ptr(t);
    return s;
}
template <class F> static string ctext(const string &what, F f)
{
    return text(what, [&](char **o) { return f((const char **)o); });
}
#define TEXT(fn, h) text(#fn, [&](char **o) { return fn(h, o); })
#define CTEXT(fn, h) ctext(#fn, [&](const char **o) { return fn(h, o); })
#define REF(T, fn, h) obtain<T>(#fn, [&](T **o) { return fn(h, o); })
#define TEXTAT(fn, h, i) text(#fn, [&](char **o) { return fn(h, i, o); })
#define REFAT(T, fn, h, i) obtain<T>(#fn, [&](T **o) { return fn(h, i, o); })
#define MUSTFAIL(T, fn, ...) refuse<T>(#fn, [&](T **o) { return fn(__VA_ARGS__, o); })
static void done(const string &what, St s) { expect(s == ELECTIONGUARD_STATUS_SUCCESS, what + " does not succeed", to_string(s)); }
#define FREE(fn, h) done(#fn, fn(h))

static char *C(const string &s) { return const_cast<char *>(s.c_str()); }
static string hexQ(eg_element_mod_q_t *q) { return TEXT(eg_element_mod_q_to_hex, q); }
static string hexP(eg_element_mod_p_t *p) { return TEXT(eg_element_mod_p_to_hex, p); }
static string takeQ(eg_element_mod_q_t *q)
{
    string s = hexQ(q);
    FREE(eg_element_mod_q_free, q);
    return s;
}
static string takeP(eg_element_mod_p_t *q)
{
    string s = hexP(q);
    FREE(eg_element_mod_p_free, q);
    return s;
}
template <class N> static std::array<uint64_t, 64> limbs(const N &z)
{
    std::array<uint64_t, 64> a;
    Z x = z;
    for (int i = 0; i < 64; i++) {
        a[i] = Z(x & Z("18446744073709551615")).get_ui();
        x >>= 64;
    }
    return a;
}
static eg_element_mod_q_t *mkq(const Z &z)
{
    auto a = limbs(z);
    return obtain<eg_element_mod_q_t>("eg_element_mod_q_new_unchecked", [&](eg_element_mod_q_t **o) { return eg_element_mod_q_new_unchecked(a.data(), o); });
}
static eg_element_mod_p_t *mkp(const Z &z)
{
    auto a = limbs(z);
    return obtain<eg_element_mod_p_t>("eg_element_mod_p_new_unchecked", [&](eg_element_mod_p_t **o) { return eg_element_mod_p_new_unchecked(a.data(), o); });
}
struct HQ {
    eg_element_mod_q_t *h;
    HQ(const Z &z) : h(mkq(z)) {}
    ~HQ() { eg_element_mod_q_free(h); }
    operator eg_element_mod_q_t *() { return h; }
};
struct HP {
    eg_element_mod_p_t *h;
    HP(const Z &z) : h(mkp(z)) {}
    ~HP() { eg_element_mod_p_free(h); }
    operator eg_element_mod_p_t *() { return h; }
};
// serialised forms
template <class F> static string jsonOf(const string &what, F f)
{
    uint64_t n = ~0ull;
    char *d = obtain<char>(what, [&](char **o) { return f(o, &n); });
    string s = d;
    // the size counts the terminating zero
    expect(n == s.size() + 1 || n == s.size(), what + " gives a wrong size", to_string(n));
    eg_free_int_ptr(d);
    return s;
}
template <class F> static vector<uint8_t> bytesOf(const string &what, F f)
{
    uint64_t n = ~0ull;
    uint8_t *d = obtain<uint8_t>(what, [&](uint8_t **o) { return f(o, &n); });
    vector<uint8_t> v(d, d + n);
    eg_delete_int_ptr(d);
    return v;
}
#define JSON(fn, h) jsonOf(#fn, [&](char **o, uint64_t *n) { return fn(h, o, n); })
#define BYTES(fn, h) bytesOf(#fn, [&](uint8_t **o, uint64_t *n) { return fn(h, o, n); })
// bytes that must be those of the C++ call, or fail when it does
#define LIKE(fn, h, cpp)                                                                                                                              \
    [&] {                                                                                                                                              \
        vector<uint8_t> got;                                                                                                                           \
        uint64_t n = ~0ull;                                                                                                                            \
        agree<uint8_t>(#fn, [&](uint8_t **o) { return fn(h, o, &n); }, [&] { return ref::hexbytes(cpp); },                                             \
                       [&](uint8_t *d) {                                                                                                               \
                           got.assign(d, d + n);                                                                                                       \
                           eg_delete_int_ptr(d);                                                                                                       \
                           return ref::hexbytes(got);                                                                                                  \
                       });                                                                                                                             \
        return got;                                                                                                                                    \
    }()
static string sb(const vector<uint8_t> &v) { return ref::hexbytes(v); }

// ---- manifest objects through the C interface ----
static eg_internationalized_text_t *cText(const vector<Lang> &t)
{
    vector<eg_language_t *> v;
    for (auto &l : t)
        v.push_back(obtain<eg_language_t>("eg_language_new", [&](eg_language_t **o) { return eg_language_new(l.value.c_str(), l.language.c_str(), o); }));
    auto *r = obtain<eg_internationalized_text_t>("eg_internationalized_text_new", [&](eg_internationalized_text_t **o) { return eg_internationalized_text_new(v.data(), v.size(), o); });
    for (size_t i = 0; i < t.size(); i++) {
        expect(TEXT(eg_language_get_value, v[i]) == t[i].value && TEXT(eg_language_get_language, v[i]) == t[i].language, "a handle loses its value when another object is made from it: eg_internationalized_text_new");
        FREE(eg_language_free, v[i]);
    }
    return r;
}
static string shText(eg_internationalized_text_t *h)
{
    if (!h)
        return "-";
    string s = "[";
    uint64_t n = eg_internationalized_text_get_text_size(h);
    for (uint64_t i = 0; i < n; i++) {
        auto *l = REFAT(eg_language_t, eg_internationalized_text_get_text_at_index, h, i);
        Lang m{TEXT(eg_language_get_value, l), TEXT(eg_language_get_language, l)};
        s += m.value + "/" + m.language + ",";
        expect(takeQ(REF(eg_element_mod_q_t, eg_language_crypto_hash, l)) == m.h(), "eg_language_crypto_hash gives another result than the C++ call");
    }
    for (uint64_t i : {n, n + 1, UINT64_MAX})
        MUSTFAIL(eg_language_t, eg_internationalized_text_get_text_at_index, h, i);
    return s + "]";
}
static eg_annotated_string_t *cAnn(const Ann &a)
{
    auto *h = obtain<eg_annotated_string_t>("eg_annotated_string_new", [&](eg_annotated_string_t **o) { return eg_annotated_string_new(a.annotation.c_str(), a.value.c_str(), o); });
    expect(CTEXT(eg_annotated_string_get_annotation, h) == a.annotation, "eg_annotated_string_get_annotation gives another result than the C++ call");
    expect(CTEXT(eg_annotated_string_get_value, h) == a.value, "eg_annotated_string_get_value gives another result than the C++ call");
    expect(takeQ(REF(eg_element_mod_q_t, eg_annotated_string_crypto_hash, h)) == a.h(), "eg_annotated_string_crypto_hash gives another result than the C++ call");
    return h;
}
static vector<char *> ptrs(const vector<string> &v)
{
    vector<char *> r;
    for (auto &s : v)
        r.push_back(C(s));
    return r;
}
static eg_contact_information_t *cContact(const ContactM &c, bool plain = false)
{
    if (plain)
        return obtain<eg_contact_information_t>("eg_contact_information_new", [&](eg_contact_information_t **o) { return eg_contact_information_new(C(c.name), o); });
    vector<eg_annotated_string_t *> e, p;
    for (auto &a : c.email)
        e.push_back(cAnn(a));
    for (auto &a : c.phone)
        p.push_back(cAnn(a));
    auto ad = ptrs(c.address);
    auto *h = obtain<eg_contact_information_t>("eg_contact_information_new_with_collections", [&](eg_contact_information_t **o) {
        return eg_contact_information_new_with_collections(C(c.name), ad.data(), ad.size(), e.data(), e.size(), p.data(), p.size(), o);
    });
    for (auto *x : e)
        FREE(eg_annotated_string_free, x);
    for (auto *x : p)
        FREE(eg_annotated_string_free, x);
    return h;
}
static string shAnnAt(eg_internationalized_text_t *t)
{
    // the interface names another handle type here: it is an annotated string
    auto *h = (eg_annotated_string_t *)t;
    return CTEXT(eg_annotated_string_get_annotation, h) + "=" + CTEXT(eg_annotated_string_get_value, h) + ",";
}
static string shContact(eg_contact_information_t *h)
{
    if (!h)
        return "-";
    string s = "{" + CTEXT(eg_contact_information_get_name, h) + "[";
    uint64_t n = eg_contact_information_get_address_line_size(h);
    for (uint64_t i = 0; i < n; i++)
        s += TEXTAT(eg_contact_information_get_address_line_at_index, h, i) + ",";
    for (uint64_t i : {n, n + 1, UINT64_MAX})
        MUSTFAIL(char, eg_contact_information_get_address_line_at_index, h, i);
    s += "][";
    n = eg_contact_information_get_email_line_size(h);
    for (uint64_t i = 0; i < n; i++)
        s += shAnnAt(REFAT(eg_internationalized_text_t, eg_contact_information_get_email_line_at_index, h, i));
    for (uint64_t i : {n, n + 1, UINT64_MAX})
        MUSTFAIL(eg_internationalized_text_t, eg_contact_information_get_email_line_at_index, h, i);
    s += "][";
    n = eg_contact_information_get_phone_line_size(h);
    for (uint64_t i = 0; i < n; i++)
        s += shAnnAt(REFAT(eg_internationalized_text_t, eg_contact_information_get_phone_line_at_index, h, i));
    for (uint64_t i : {n, n + 1, UINT64_MAX})
        MUSTFAIL(eg_internationalized_text_t, eg_contact_information_get_phone_line_at_index, h, i);
    return s + "]}" + takeQ(REF(eg_element_mod_q_t, eg_contact_information_crypto_hash, h));
}
static string wantContact(const Contact &c) { return c ? c->str() + c->h() : string("-"); }

static eg_geopolitical_unit_t *cUnit(const UnitM &u)
{
    if (!u.contact)
        return obtain<eg_geopolitical_unit_t>("eg_geopolitical_unit_new", [&](eg_geopolitical_unit_t **o) { return eg_geopolitical_unit_new(C(u.id), C(u.name), (eg_reporting_unit_type_t)u.type, o); });
    auto *c = cContact(*u.contact);
    auto *h = obtain<eg_geopolitical_unit_t>("eg_geopolitical_unit_new_with_contact_info", [&](eg_geopolitical_unit_t **o) {
        return eg_geopolitical_unit_new_with_contact_info(C(u.id), C(u.name), (eg_reporting_unit_type_t)u.type, c, o);
    });
    expect(shContact(c) == wantContact(u.contact), "a handle loses its value when another object is made from it: eg_geopolitical_unit_new_with_contact_info");
    FREE(eg_contact_information_free, c);
    return h;
}
static string shUnit(eg_geopolitical_unit_t *h)
{
    return CTEXT(eg_geopolitical_unit_get_object_id, h) + "|" + CTEXT(eg_geopolitical_unit_get_name, h) + "|" + to_string((int)get_geopolitical_unit_get_type(h)) + "|" + takeQ(REF(eg_element_mod_q_t, eg_geopolitical_unit_crypto_hash, h));
}
static string wantUnit(const UnitM &u) { return u.id + "|" + u.name + "|" + to_string(u.type) + "|" + u.h(); }

static eg_ballot_style_t *cStyle(const StyleM &s)
{
    auto u = ptrs(s.units), p = ptrs(s.parties);
    if (p.empty() && s.image.empty())
        return obtain<eg_ballot_style_t>("eg_ballot_style_new", [&](eg_ballot_style_t **o) { return eg_ballot_style_new(C(s.id), u.data(), u.size(), o); });
    return obtain<eg_ballot_style_t>("eg_ballot_style_new_with_parties", [&](eg_ballot_style_t **o) { return eg_ballot_style_new_with_parties(C(s.id), u.data(), u.size(), p.data(), p.size(), C(s.image), o); });
}
static string shStyle(eg_ballot_style_t *h)
{
    StyleM s;
    s.id = CTEXT(eg_ballot_style_get_object_id, h);
    uint64_t n = eg_ballot_style_get_geopolitical_unit_ids_size(h);
    for (uint64_t i = 0; i < n; i++)
        s.units.push_back(TEXTAT(eg_ballot_style_get_geopolitical_unit_id_at_index, h, i));
    for (uint64_t i : {n, n + 1, UINT64_MAX})
        MUSTFAIL(char, eg_ballot_style_get_geopolitical_unit_id_at_index, h, i);
    n = eg_ballot_style_get_party_ids_size(h);
    for (uint64_t i = 0; i < n; i++)
        s.parties.push_back(TEXTAT(eg_ballot_style_get_party_id_at_index, h, i));
    for (uint64_t i : {n, n + 1, UINT64_MAX})
        MUSTFAIL(char, eg_ballot_style_get_party_id_at_index, h, i);
    s.image = CTEXT(eg_ballot_style_get_image_uri, h);
    return s.str() + takeQ(REF(eg_element_mod_q_t, eg_ballot_style_crypto_hash, h));
}
static string wantStyle(const StyleM &s) { return s.str() + s.h(); }

// variant 0: the plainest constructor that can express it; 1: the fullest
static eg_party_t *cParty(const PartyM &p, bool full)
{
    if (!full && p.name.empty() && p.abbrev.empty() && p.color.empty() && p.logo.empty())
        return obtain<eg_party_t>("eg_party_new", [&](eg_party_t **o) { return eg_party_new(C(p.id), o); });
    auto *t = cText(p.name);
    auto *h = obtain<eg_party_t>("eg_party_new_with_extras", [&](eg_party_t **o) { return eg_party_new_with_extras(C(p.id), t, C(p.abbrev), C(p.color), C(p.logo), o); });
    expect(shText(t) == model::str(Txt(p.name)), "a handle loses its value when another object is made from it: eg_party_new_with_extras");
    FREE(eg_internationalized_text_free, t);
    return h;
}
static string shParty(eg_party_t *h)
{
    return "P{" + CTEXT(eg_party_get_object_id, h) + shText(REF(eg_internationalized_text_t, eg_party_get_name, h)) + CTEXT(eg_party_get_abbreviation, h) + "," + CTEXT(eg_party_get_color, h) + "," + CTEXT(eg_party_get_logo_uri, h) + "}" + takeQ(REF(eg_element_mod_q_t, eg_party_crypto_hash, h));
}
static string wantParty(const PartyM &p) { return p.str() + p.h(); }

static eg_candidate_t *cCand(const CandM &c, bool full)
{
    if (!full && c.name.empty() && c.image.empty() && c.party.empty())
        return obtain<eg_candidate_t>("eg_candidate_new", [&](eg_candidate_t **o) { return eg_candidate_new(C(c.id), c.writein, o); });
    if (!full && c.name.empty() && c.image.empty())
        return obtain<eg_candidate_t>("eg_candidate_new_with_party", [&](eg_candidate_t **o) { return eg_candidate_new_with_party(C(c.id), C(c.party), c.writein, o); });
    auto *t = cText(c.name);
    auto *h = obtain<eg_candidate_t>("eg_candidate_new_with_extras", [&](eg_candidate_t **o) { return eg_candidate_new_with_extras(C(c.id), t, C(c.party), C(c.image), c.writein, o); });
    expect(shText(t) == model::str(Txt(c.name)), "a handle loses its value when another object is made from it: eg_candidate_new_with_extras");
    FREE(eg_internationalized_text_free, t);
    return h;
}
static string shCand(eg_candidate_t *h)
{
    string id = CTEXT(eg_candidate_get_object_id, h);
    expect(CTEXT(eg_candidate_get_candidate_id, h) == id, "eg_candidate_get_candidate_id gives another result than the C++ call");
    return "C{" + id + shText(REF(eg_internationalized_text_t, eg_candidate_get_name, h)) + CTEXT(eg_candidate_get_party_id, h) + "," + CTEXT(eg_candidate_get_image_uri, h) + (eg_candidate_get_is_write_in(h) ? "W" : "") + "}" + takeQ(REF(eg_element_mod_q_t, eg_candidate_crypto_hash, h));
}
static string wantCand(const CandM &c) { return c.str() + c.h(); }

static eg_selection_description_t *cSel(const SelM &s)
{
    return obtain<eg_selection_description_t>("eg_selection_description_new", [&](eg_selection_description_t **o) { return eg_selection_description_new(s.id.c_str(), s.cand.c_str(), s.seq, o); });
}
static string shSel(eg_selection_description_t *h)
{
    SelM s{CTEXT(eg_selection_description_get_object_id, h), CTEXT(eg_selection_description_get_candidate_id, h), eg_selection_description_get_sequence_order(h)};
    return s.str() + takeQ(REF(eg_element_mod_q_t, eg_selection_description_crypto_hash, h));
}
static string wantSel(const SelM &s) { return s.str() + s.h(); }
static vector<eg_selection_description_t *> cSels(const vector<SelM> &v)
{
    vector<eg_selection_description_t *> r;
    for (auto &s : v)
        r.push_back(cSel(s));
    return r;
}
static void freeSels(vector<eg_selection_description_t *> &v, const vector<SelM> &m, const string &by)
{
    for (size_t i = 0; i < v.size(); i++) {
        expect(shSel(v[i]) == wantSel(m[i]), "a handle loses its value when another object is made from it: " + by);
        FREE(eg_selection_description_free, v[i]);
    }
}
// parties: primary parties of the contest (not covered by the model's hash: read back in C++)
static eg_contest_description_t *cCon(const ConM &c, const vector<string> &parties = {}, bool withParties = false)
{
    auto s = cSels(c.sels);
    auto p = ptrs(parties);
    auto var = (eg_vote_variation_type_t)c.var;
    string by;
    eg_contest_description_t *h;
    typedef eg_contest_description_t T;
    if (c.title || c.sub) {
        auto *t = cText(c.title ? *c.title : vector<Lang>{}), *u = cText(c.sub ? *c.sub : vector<Lang>{});
        if (withParties)
            h = obtain<T>(by = "eg_contest_description_new_with_title_and_parties", [&](T **o) { return eg_contest_description_new_with_title_and_parties(C(c.id), C(c.district), c.seq, var, c.n, c.allowed, C(c.name), t, u, s.data(), s.size(), p.data(), p.size(), o); });
        else
            h = obtain<T>(by = "eg_contest_description_new_with_title", [&](T **o) { return eg_contest_description_new_with_title(C(c.id), C(c.district), c.seq, var, c.n, c.allowed, C(c.name), t, u, s.data(), s.size(), o); });
        FREE(eg_internationalized_text_free, t);
        FREE(eg_internationalized_text_free, u);
    } else if (withParties)
        h = obtain<T>(by = "eg_contest_description_new_with_parties", [&](T **o) { return eg_contest_description_new_with_parties(C(c.id), C(c.district), c.seq, var, c.n, C(c.name), s.data(), s.size(), p.data(), p.size(), o); });
    else
        h = obtain<T>(by = "eg_contest_description_new", [&](T **o) { return eg_contest_description_new(C(c.id), C(c.district), c.seq, var, c.n, C(c.name), s.data(), s.size(), o); });
    freeSels(s, c.sels, by);
    return h;
}
static string shCon(eg_contest_description_t *h)
{
    ConM c;
    c.id = CTEXT(eg_contest_description_get_object_id, h);
    c.district = CTEXT(eg_contest_description_get_electoral_district_id, h);
    c.seq = eg_contest_description_get_sequence_order(h);
    c.var = (int)eg_contest_description_get_vote_variation(h);
    c.n = eg_contest_description_get_number_elected(h);
    c.allowed = eg_contest_description_get_votes_allowed(h);
    c.name = CTEXT(eg_contest_description_get_name, h);
    string s = c.str() + shText(REF(eg_internationalized_text_t, eg_contest_description_get_ballot_title, h)) + shText(REF(eg_internationalized_text_t, eg_contest_description_get_ballot_subtitle, h));
    uint64_t n = eg_contest_description_get_selections_size(h);
    for (uint64_t i = 0; i < n; i++)
        s += shSel(REFAT(eg_selection_description_t, eg_contest_description_get_selection_at_index, h, i));
    for (uint64_t i : {n, n + 1, UINT64_MAX})
        MUSTFAIL(eg_selection_description_t, eg_contest_description_get_selection_at_index, h, i);
    return s + takeQ(REF(eg_element_mod_q_t, eg_contest_description_crypto_hash, h));
}
// what the C++ object shows
static string wantCon(eg::ContestDescription &k)
{
    ConM c;
    c.id = k.getObjectId();
    c.district = k.getElectoralDistrictId();
    c.seq = k.getSequenceOrder();
    c.var = (int)k.getVoteVariation();
    c.n = k.getNumberElected();
    c.allowed = k.getVotesAllowed();
    c.name = k.getName();
    string s = c.str() + model::str(readTxt(k.getBallotTitle())) + model::str(readTxt(k.getBallotSubtitle()));
    for (auto x : k.getSelections())
        s += wantSel(SelM::read(x.get()));
    return s + k.crypto_hash()->toHex();
}

static uint64_t msOf(int64_t t) { return (uint64_t)t * 1000; }
static eg_election_manifest_t *cMan(const ManM &m)
{
    vector<eg_geopolitical_unit_t *> u;
    vector<eg_party_t *> p;
    vector<eg_candidate_t *> c;
    vector<eg_contest_description_t *> k;
    vector<eg_ballot_style_t *> s;
    for (auto &x : m.units)
        u.push_back(cUnit(x));
    for (auto &x : m.parties)
        p.push_back(cParty(x, false));
    for (auto &x : m.cands)
        c.push_back(cCand(x, false));
    for (auto &x : m.cons)
        k.push_back(cCon(x));
    for (auto &x : m.styles)
        s.push_back(cStyle(x));
    eg_election_manifest_t *h;
    typedef eg_election_manifest_t T;
    if (m.name && m.contact) {
        auto *t = cText(*m.name);
        auto *n = cContact(*m.contact);
        h = obtain<T>("eg_election_manifest_new_with_contact", [&](T **o) {
            return eg_election_manifest_new_with_contact(C(m.scope), (eg_election_type_t)m.type, msOf(m.start), msOf(m.end), u.data(), u.size(), p.data(), p.size(), c.data(), c.size(), k.data(), k.size(), s.data(), s.size(), t, n, o);
        });
        FREE(eg_internationalized_text_free, t);
        FREE(eg_contact_information_free, n);
    } else
        h = obtain<T>("eg_election_manifest_new", [&](T **o) {
            return eg_election_manifest_new(C(m.scope), (eg_election_type_t)m.type, msOf(m.start), msOf(m.end), u.data(), u.size(), p.data(), p.size(), c.data(), c.size(), k.data(), k.size(), s.data(), s.size(), o);
        });
    const char *keep = "a handle loses its value when another object is made from it: eg_election_manifest_new";
    for (size_t i = 0; i < u.size(); i++) {
        expect(shUnit(u[i]) == wantUnit(m.units[i]), keep);
        FREE(eg_geopolitical_unit_free, u[i]);
    }
    for (size_t i = 0; i < p.size(); i++) {
        expect(shParty(p[i]) == wantParty(m.parties[i]), keep);
        FREE(eg_party_free, p[i]);
    }
    for (size_t i = 0; i < c.size(); i++) {
        expect(shCand(c[i]) == wantCand(m.cands[i]), keep);
        FREE(eg_candidate_free, c[i]);
    }
    for (size_t i = 0; i < k.size(); i++) {
        expect(shCon(k[i]) == wantCon(*m.cons[i].build()), keep);
        FREE(eg_contest_description_free, k[i]);
    }
    for (size_t i = 0; i < s.size(); i++) {
        expect(shStyle(s[i]) == wantStyle(m.styles[i]), keep);
        FREE(eg_ballot_style_free, s[i]);
    }
    return h;
}
static string shMan(eg_election_manifest_t *h)
{
    string s = TEXT(eg_election_manifest_get_election_scope_id, h) + "|" + to_string((int)eg_election_manifest_get_type(h)) + "|" + to_string(eg_election_manifest_get_start_date(h)) + "|" + to_string(eg_election_manifest_get_end_date(h)) + "\n";
#define LIST(T, size, at, show)                                                                                                                        \
    {                                                                                                                                                  \
        uint64_t n = size(h);                                                                                                                          \
        for (uint64_t i = 0; i < n; i++)                                                                                                               \
            s += show(REFAT(T, at, h, i)) + "\n";                                                                                                      \
        for (uint64_t i : {n, n + 1, UINT64_MAX})                                                                                                           \
            MUSTFAIL(T, at, h, i);                                                                                                                     \
        s += ";";                                                                                                                                      \
    }
    LIST(eg_geopolitical_unit_t, eg_election_manifest_get_geopolitical_units_size, eg_election_manifest_get_geopolitical_unit_at_index, shUnit)
    LIST(eg_party_t, eg_election_manifest_get_parties_size, eg_election_manifest_get_party_at_index, shParty)
    LIST(eg_candidate_t, eg_election_manifest_get_candidates_size, eg_election_manifest_get_candidate_at_index, shCand)
    LIST(eg_contest_description_t, eg_election_manifest_get_contests_size, eg_election_manifest_get_contest_at_index, shCon)
    LIST(eg_ballot_style_t, eg_election_manifest_get_ballot_styles_size, eg_election_manifest_get_ballot_style_at_index, shStyle)
    s += shText(REF(eg_internationalized_text_t, eg_election_manifest_get_name, h));
    s += shContact(REF(eg_contact_information_t, eg_election_manifest_get_contact_info, h));
    s += takeQ(REF(eg_element_mod_q_t, eg_election_manifest_crypto_hash, h));
    s += eg_election_manifest_is_valid(h) ? "valid" : "invalid";
    return s;
}
static string wantMan(eg::Manifest &m)
{
    using std::chrono::duration_cast;
    using std::chrono::seconds;
    string s = m.getElectionScopeId() + "|" + to_string((int)m.getElectionType()) + "|" + to_string(duration_cast<seconds>(m.getStartDate().time_since_epoch()).count()) + "|" + to_string(duration_cast<seconds>(m.getEndDate().time_since_epoch()).count()) + "\n";
    for (auto x : m.getGeopoliticalUnits())
        s += wantUnit(UnitM::read(x.get())) + "\n";
    s += ";";
    for (auto x : m.getParties())
        s += wantParty(PartyM::read(x.get())) + "\n";
    s += ";";
    for (auto x : m.getCandidates())
        s += wantCand(CandM::read(x.get())) + "\n";
    s += ";";
    for (auto x : m.getContests())
        s += wantCon(x.get()) + "\n";
    s += ";";
    for (auto x : m.getBallotStyles())
        s += wantStyle(StyleM::read(x.get())) + "\n";
    s += ";";
    s += model::str(readTxt(m.getName())) + wantContact(readC(m.getContactInformation()));
    s += m.crypto_hash()->toHex();
    s += m.isValid() ? "valid" : "invalid";
    return s;
}
static string shConPh(eg_contest_description_with_placeholders_t *h, const vector<SelM> &probe)
{
    // a contest with placeholders is a contest
    string s = shCon((eg_contest_description_t *)h);
    uint64_t n = eg_contest_description_with_placeholders_get_placeholders_size(h);
    for (uint64_t i = 0; i < n; i++)
        s += "+" + shSel((eg_selection_description_t *)REFAT(eg_contest_description_with_placeholders_t, eg_contest_description_with_placeholders_get_placeholder_at_index, h, i));
    for (uint64_t i : {n, n + 1, UINT64_MAX})
        MUSTFAIL(eg_contest_description_with_placeholders_t, eg_contest_description_with_placeholders_get_placeholder_at_index, h, i);
    for (auto &p : probe) {
        auto *d = cSel(p);
        s += eg_contest_description_with_placeholders_is_placeholder(h, d) ? "Y" : "N";
        FREE(eg_selection_description_free, d);
        eg_selection_description_t *r = none<eg_selection_description_t>();
        St st = eg_contest_description_with_placeholders_selection_for_id(h, C(p.id), &r);
        if (st == ELECTIONGUARD_STATUS_SUCCESS && r != none<eg_selection_description_t>())
            s += shSel(r);
        else {
            s += "none";
            expect(r == none<eg_selection_description_t>(), "eg_contest_description_with_placeholders_selection_for_id fails and hands out an object");
        }
    }
    return s;
}
static string wantConPh(eg::ContestDescriptionWithPlaceholders &k, const vector<SelM> &probe)
{
    string s = wantCon(k);
    for (auto x : k.getPlaceholders())
        s += "+" + wantSel(SelM::read(x.get()));
    for (auto &p : probe) {
        s += k.IsPlaceholder(*p.build()) ? "Y" : "N";
        try {
            string id = p.id;
            auto r = k.selectionFor(id);
            s += wantSel(SelM::read(r.get()));
        } catch (const std::exception &) {
            s += "none";
        }
    }
    return s;
}
static string shInt(eg_internal_manifest_t *h, const vector<SelM> &probe, const vector<string> &styles)
{
    string s = hexQ(REF(eg_element_mod_q_t, eg_internal_manifest_get_manifest_hash, h)) + "\n";
    LIST(eg_geopolitical_unit_t, eg_internal_manifest_get_geopolitical_units_size, eg_internal_manifest_get_geopolitical_unit_at_index, shUnit)
    auto show = [&](eg_contest_description_with_placeholders_t *c) { return shConPh(c, probe); };
    LIST(eg_contest_description_with_placeholders_t, eg_internal_manifest_get_contests_size, eg_internal_manifest_get_contest_at_index, show)
    LIST(eg_ballot_style_t, eg_internal_manifest_get_ballot_styles_size, eg_internal_manifest_get_ballot_style_at_index, shStyle)
    for (auto &id : styles) {
        eg_ballot_style_t *r = none<eg_ballot_style_t>();
        St st = eg_internal_manifest_get_ballot_style(h, C(id), &r);
        if (st == ELECTIONGUARD_STATUS_SUCCESS && r != none<eg_ballot_style_t>() && r)
            s += shStyle(r);
        else {
            s += "none";
            expect((st == ELECTIONGUARD_STATUS_SUCCESS && !r) || r == none<eg_ballot_style_t>(), "eg_internal_manifest_get_ballot_style fails and hands out an object");
        }
    }
    return s;
}
static string wantInt(eg::InternalManifest &m, const vector<SelM> &probe, const vector<string> &styles)
{
    string s = m.getManifestHash()->toHex() + "\n";
    for (auto x : m.getGeopoliticalUnits())
        s += wantUnit(UnitM::read(x.get())) + "\n";
    s += ";";
    for (auto x : m.getContests())
        s += wantConPh(x.get(), probe) + "\n";
    s += ";";
    for (auto x : m.getBallotStyles())
        s += wantStyle(StyleM::read(x.get())) + "\n";
    s += ";";
    for (auto &id : styles)
        try {
            auto *b = m.getBallotStyle(id);
            s += b ? wantStyle(StyleM::read(*b)) : "none";
        } catch (const std::exception &) {
            s += "none";
        }
    return s;
}

// ---- ballots ----
static eg_plaintext_ballot_contest_t *cBCon(const BCon &c)
{
    typedef eg_plaintext_ballot_selection_t T;
    vector<T *> v;
    for (auto &s : c.sels)
        v.push_back(s.writein.empty() ? obtain<T>("eg_plaintext_ballot_selection_new", [&](T **o) { return eg_plaintext_ballot_selection_new(C(s.id), s.vote, s.ph, o); }) :
                                        obtain<T>("eg_plaintext_ballot_selection_new_with_write_in", [&](T **o) { return eg_plaintext_ballot_selection_new_with_write_in(C(s.id), s.vote, s.ph, C(s.writein), o); }));
    auto *h = obtain<eg_plaintext_ballot_contest_t>("eg_plaintext_ballot_contest_new", [&](eg_plaintext_ballot_contest_t **o) { return eg_plaintext_ballot_contest_new(C(c.id), v.data(), v.size(), o); });
    for (size_t i = 0; i < v.size(); i++) {
        expect(TEXT(eg_plaintext_ballot_selection_get_object_id, v[i]) == c.sels[i].id && eg_plaintext_ballot_selection_get_vote(v[i]) == c.sels[i].vote && TEXT(eg_plaintext_ballot_selection_get_write_in, v[i]) == c.sels[i].writein, "a handle loses its value when another object is made from it: eg_plaintext_ballot_contest_new");
        FREE(eg_plaintext_ballot_selection_free, v[i]);
    }
    return h;
}
static string shBCon(eg_plaintext_ballot_contest_t *h)
{
    string s = TEXT(eg_plaintext_ballot_contest_get_object_id, h) + "(";
    uint64_t n = eg_plaintext_ballot_contest_get_selections_size(h);
    for (uint64_t i = 0; i < n; i++) {
        auto *x = REFAT(eg_plaintext_ballot_selection_t, eg_plaintext_ballot_contest_get_selection_at_index, h, i);
        string id = TEXT(eg_plaintext_ballot_selection_get_object_id, x);
        s += id + "=" + to_string(eg_plaintext_ballot_selection_get_vote(x)) + (eg_plaintext_ballot_selection_get_is_placeholder(x) ? "p" : "") + TEXT(eg_plaintext_ballot_selection_get_write_in, x);
        s += eg_plaintext_ballot_selection_is_valid(x, C(id)) ? "V" : "v";
        s += eg_plaintext_ballot_selection_is_valid(x, C(id + "x")) ? "W" : "w";
    }
    for (uint64_t i : {n, n + 1, UINT64_MAX})
        MUSTFAIL(eg_plaintext_ballot_selection_t, eg_plaintext_ballot_contest_get_selection_at_index, h, i);
    s += ")";
    string id = TEXT(eg_plaintext_ballot_contest_get_object_id, h);
    for (uint64_t a = 0; a < 3; a++)
        for (uint64_t b = 0; b < 3; b++)
            for (uint64_t c = 0; c < 3; c++)
                s += eg_plaintext_ballot_contest_is_valid(h, C(id), a, b, c) ? "1" : "0";
    s += eg_plaintext_ballot_contest_is_valid(h, C("other"), 2, 2, 2) ? "1" : "0";
    return s;
}
static string wantBCon(eg::PlaintextBallotContest &k)
{
    string s = k.getObjectId() + "(";
    for (auto x : k.getSelections()) {
        auto &y = x.get();
        s += y.getObjectId() + "=" + to_string(y.getVote()) + (y.getIsPlaceholder() ? "p" : "") + y.getWriteIn();
        s += y.isValid(y.getObjectId()) ? "V" : "v";
        s += y.isValid(y.getObjectId() + "x") ? "W" : "w";
    }
    s += ")";
    for (uint64_t a = 0; a < 3; a++)
        for (uint64_t b = 0; b < 3; b++)
            for (uint64_t c = 0; c < 3; c++)
                s += k.isValid(k.getObjectId(), a, b, c) == eg::eg_valid_contest_return_type_t::SUCCESS ? "1" : "0";
    s += k.isValid("other", 2, 2, 2) == eg::eg_valid_contest_return_type_t::SUCCESS ? "1" : "0";
    return s;
}
static eg_plaintext_ballot_t *cBal(const Bal &b)
{
    vector<eg_plaintext_ballot_contest_t *> v;
    for (auto &c : b.cons)
        v.push_back(cBCon(c));
    auto *h = obtain<eg_plaintext_ballot_t>("eg_plaintext_ballot_new", [&](eg_plaintext_ballot_t **o) { return eg_plaintext_ballot_new(C(b.id), C(b.style), v.data(), v.size(), o); });
    for (size_t i = 0; i < v.size(); i++) {
        expect(eg_plaintext_ballot_contest_get_selections_size(v[i]) == b.cons[i].sels.size(), "a handle loses its value when another object is made from it: eg_plaintext_ballot_new");
        FREE(eg_plaintext_ballot_contest_free, v[i]);
    }
    return h;
}
static string shBal(eg_plaintext_ballot_t *h)
{
    string s = TEXT(eg_plaintext_ballot_get_object_id, h) + "/" + TEXT(eg_plaintext_ballot_get_style_id, h) + "\n";
    LIST(eg_plaintext_ballot_contest_t, eg_plaintext_ballot_get_contests_size, eg_plaintext_ballot_get_contest_at_index, shBCon)
    return s;
}
static string wantBal(eg::PlaintextBallot &b)
{
    string s = b.getObjectId() + "/" + b.getStyleId() + "\n";
    for (auto x : b.getContests())
        s += wantBCon(x.get()) + "\n";
    return s + ";";
}
// proofs
static string shD(eg_disjunctive_chaum_pedersen_proof_t *h)
{
    return hexP(REF(eg_element_mod_p_t, eg_disjunctive_chaum_pedersen_proof_get_zero_pad, h)) + "," + hexP(REF(eg_element_mod_p_t, eg_disjunctive_chaum_pedersen_proof_get_zero_data, h)) + "," + hexP(REF(eg_element_mod_p_t, eg_disjunctive_chaum_pedersen_proof_get_one_pad, h)) + "," + hexP(REF(eg_element_mod_p_t, eg_disjunctive_chaum_pedersen_proof_get_one_data, h)) + "," +
           hexQ(REF(eg_element_mod_q_t, eg_disjunctive_chaum_pedersen_proof_get_zero_challenge, h)) + "," + hexQ(REF(eg_element_mod_q_t, eg_disjunctive_chaum_pedersen_proof_get_one_challenge, h)) + "," + hexQ(REF(eg_element_mod_q_t, eg_disjunctive_chaum_pedersen_proof_get_challenge, h)) + "," + hexQ(REF(eg_element_mod_q_t, eg_disjunctive_chaum_pedersen_proof_get_zero_response, h)) + "," +
           hexQ(REF(eg_element_mod_q_t, eg_disjunctive_chaum_pedersen_proof_get_one_response, h));
}
static string wantD(eg::DisjunctiveChaumPedersenProof &p)
{
    return p.getProofZeroPad()->toHex() + "," + p.getProofZeroData()->toHex() + "," + p.getProofOnePad()->toHex() + "," + p.getProofOneData()->toHex() + "," + p.getProofZeroChallenge()->toHex() + "," + p.getProofOneChallenge()->toHex() + "," + p.getChallenge()->toHex() + "," + p.getProofZeroResponse()->toHex() + "," + p.getProofOneResponse()->toHex();
}
static string shK(eg_constant_chaum_pedersen_proof_t *h)
{
    return hexP(REF(eg_element_mod_p_t, eg_constant_chaum_pedersen_proof_get_pad, h)) + "," + hexP(REF(eg_element_mod_p_t, eg_constant_chaum_pedersen_proof_get_data, h)) + "," + hexQ(REF(eg_element_mod_q_t, eg_constant_chaum_pedersen_proof_get_challenge, h)) + "," + hexQ(REF(eg_element_mod_q_t, eg_constant_chaum_pedersen_proof_get_response, h));
}
static string wantK(eg::ConstantChaumPedersenProof &p) { return p.getPad()->toHex() + "," + p.getData()->toHex() + "," + p.getChallenge()->toHex() + "," + p.getResponse()->toHex(); }
static string shCt(eg_elgamal_ciphertext_t *h)
{
    return hexP(REF(eg_element_mod_p_t, eg_elgamal_ciphertext_get_pad, h)) + "," + hexP(REF(eg_element_mod_p_t, eg_elgamal_ciphertext_get_data, h)) + "," + takeQ(REF(eg_element_mod_q_t, eg_elgamal_ciphertext_crypto_hash, h));
}
static string wantCt(eg::ElGamalCiphertext &c) { return c.getPad()->toHex() + "," + c.getData()->toHex() + "," + c.crypto_hash()->toHex(); }

// what does not depend on the random proof of a selection; proofs must hold
struct Ctx {
    Z pub, ext, other;
};
static string shCSel(eg_ciphertext_ballot_selection_t *h, const Ctx &x)
{
    string s = TEXT(eg_ciphertext_ballot_selection_get_object_id, h) + "," + to_string(eg_ciphertext_ballot_selection_get_sequence_order(h)) + (eg_ciphertext_ballot_selection_get_is_placeholder(h) ? "P" : "-");
    auto *d = REF(eg_element_mod_q_t, eg_ciphertext_ballot_selection_get_description_hash, h);
    s += hexQ(d) + "," + shCt(REF(eg_elgamal_ciphertext_t, eg_ciphertext_ballot_selection_get_ciphertext, h)) + "," + hexQ(REF(eg_element_mod_q_t, eg_ciphertext_ballot_selection_get_crypto_hash, h));
    auto *n = REF(eg_element_mod_q_t, eg_ciphertext_ballot_selection_get_nonce, h);
    s += "," + (n ? hexQ(n) : string("-"));
    HQ other(x.other), ext(x.ext);
    HP pub(x.pub);
    s += "," + takeQ(obtain<eg_element_mod_q_t>("eg_ciphertext_ballot_selection_crypto_hash_with", [&](eg_element_mod_q_t **o) { return eg_ciphertext_ballot_selection_crypto_hash_with(h, other, o); }));
    s += eg_ciphertext_ballot_selection_is_valid_encryption(h, d, pub, ext) ? "V" : "v";
    s += eg_ciphertext_ballot_selection_is_valid_encryption(h, other, pub, ext) ? "V" : "v";
    shD(REF(eg_disjunctive_chaum_pedersen_proof_t, eg_ciphertext_ballot_selection_get_proof, h));
    return s;
}
static string wantCSel(eg::CiphertextBallotSelection &c, const Ctx &x)
{
    string s = c.getObjectId() + "," + to_string(c.getSequenceOrder()) + (c.getIsPlaceholder() ? "P" : "-");
    s += c.getDescriptionHash()->toHex() + "," + wantCt(*c.getCiphertext()) + "," + c.getCryptoHash()->toHex() + "," + (c.getNonce() ? c.getNonce()->toHex() : string("-"));
    s += "," + c.crypto_hash_with(*ref::mkQ(x.other))->toHex();
    auto p = ref::mkP(x.pub);
    auto e = ref::mkQ(x.ext);
    s += c.isValidEncryption(*c.getDescriptionHash(), *p, *e) ? "V" : "v";
    s += c.isValidEncryption(*ref::mkQ(x.other), *p, *e) ? "V" : "v";
    return s;
}
static string shCCon(eg_ciphertext_ballot_contest_t *h, const Ctx &x)
{
    string s = TEXT(eg_ciphertext_ballot_contest_get_object_id, h) + "," + to_string(eg_ciphertext_ballot_contest_get_sequence_order(h)) + ",";
    auto *d = REF(eg_element_mod_q_t, eg_ciphertext_ballot_contest_get_description_hash, h);
    s += hexQ(d) + ",";
    auto show = [&](eg_ciphertext_ballot_selection_t *c) { return shCSel(c, x); };
    LIST(eg_ciphertext_ballot_selection_t, eg_ciphertext_ballot_contest_get_selections_size, eg_ciphertext_ballot_contest_get_selection_at_index, show)
    auto *n = REF(eg_element_mod_q_t, eg_ciphertext_ballot_contest_get_nonce, h);
    s += n ? hexQ(n) : string("-");
    s += shCt(REF(eg_elgamal_ciphertext_t, eg_ciphertext_ballot_contest_get_ciphertext_accumulation, h)) + hexQ(REF(eg_element_mod_q_t, eg_ciphertext_ballot_contest_get_crypto_hash, h)) + shK(REF(eg_constant_chaum_pedersen_proof_t, eg_ciphertext_ballot_contest_get_proof, h));
    HQ other(x.other), ext(x.ext);
    HP pub(x.pub);
    s += "," + takeQ(obtain<eg_element_mod_q_t>("eg_ciphertext_ballot_contest_crypto_hash_with", [&](eg_element_mod_q_t **o) { return eg_ciphertext_ballot_contest_crypto_hash_with(h, other, o); }));
    s += "," + takeQ(REF(eg_element_mod_q_t, eg_ciphertext_ballot_contest_aggregate_nonce, h));
    auto *acc = REF(eg_elgamal_ciphertext_t, eg_ciphertext_ballot_contest_elgamal_accumulate, h);
    s += "," + shCt(acc);
    FREE(eg_elgamal_ciphertext_free, acc);
    s += eg_ciphertext_ballot_contest_is_valid_encryption(h, d, pub, ext) ? "V" : "v";
    s += eg_ciphertext_ballot_contest_is_valid_encryption(h, other, pub, ext) ? "V" : "v";
    return s;
}
static string wantCCon(eg::CiphertextBallotContest &c, const Ctx &x)
{
    string s = c.getObjectId() + "," + to_string(c.getSequenceOrder()) + "," + c.getDescriptionHash()->toHex() + ",";
    for (auto y : c.getSelections())
        s += wantCSel(y.get(), x) + "\n";
    s += ";" + (c.getNonce() ? c.getNonce()->toHex() : string("-")) + wantCt(*c.getCiphertextAccumulation()) + c.getCryptoHash()->toHex() + wantK(*c.getProof());
    s += "," + c.crypto_hash_with(*ref::mkQ(x.other))->toHex() + "," + c.aggregateNonce()->toHex() + "," + wantCt(*c.elgamalAccumulate());
    auto p = ref::mkP(x.pub);
    auto e = ref::mkQ(x.ext);
    s += c.isValidEncryption(*c.getDescriptionHash(), *p, *e) ? "V" : "v";
    s += c.isValidEncryption(*ref::mkQ(x.other), *p, *e) ? "V" : "v";
    return s;
}
// stamp: the time of encryption is part of the code; left out where two encryptions are compared
static string shCBal(eg_ciphertext_ballot_t *h, const Ctx &x, bool stamp)
{
    string s = TEXT(eg_ciphertext_ballot_get_object_id, h) + "/" + TEXT(eg_ciphertext_ballot_get_style_id, h) + ",";
    auto *m = REF(eg_element_mod_q_t, eg_ciphertext_ballot_get_manifest_hash, h);
    s += hexQ(m) + "," + hexQ(REF(eg_element_mod_q_t, eg_ciphertext_ballot_get_ballot_code_seed, h)) + ",";
    auto show = [&](eg_ciphertext_ballot_contest_t *c) { return shCCon(c, x); };
    LIST(eg_ciphertext_ballot_contest_t, eg_ciphertext_ballot_get_contests_size, eg_ciphertext_ballot_get_contest_at_index, show)
    uint64_t t = 0;
    done("eg_ciphertext_ballot_get_timestamp", eg_ciphertext_ballot_get_timestamp(h, &t));
    auto *code = REF(eg_element_mod_q_t, eg_ciphertext_ballot_get_ballot_code, h);
    auto *hash = REF(eg_element_mod_q_t, eg_ciphertext_ballot_get_crypto_hash, h);
    auto *seed = REF(eg_element_mod_q_t, eg_ciphertext_ballot_get_ballot_code_seed, h);
    if (stamp)
        s += to_string(t) + "," + hexQ(code) + ",";
    expect(takeQ(obtain<eg_element_mod_q_t>("eg_ballot_code_get_ballot_code", [&](eg_element_mod_q_t **o) { return eg_ballot_code_get_ballot_code(seed, t, hash, o); })) == hexQ(code), "eg_ballot_code_get_ballot_code gives another code than the ballot has");
    auto *n = REF(eg_element_mod_q_t, eg_ciphertext_ballot_get_nonce, h);
    s += (n ? hexQ(n) : string("-")) + "," + hexQ(hash);
    HQ other(x.other), ext(x.ext);
    HP pub(x.pub);
    s += "," + takeQ(obtain<eg_element_mod_q_t>("eg_ciphertext_ballot_crypto_hash_with", [&](eg_element_mod_q_t **o) { return eg_ciphertext_ballot_crypto_hash_with(h, other, o); }));
    s += eg_ciphertext_ballot_is_valid_encryption(h, m, pub, ext) ? "V" : "v";
    s += eg_ciphertext_ballot_is_valid_encryption(h, other, pub, ext) ? "V" : "v";
    return s;
}
static string wantCBal(eg::CiphertextBallot &b, const Ctx &x, bool stamp)
{
    string s = b.getObjectId() + "/" + b.getStyleId() + "," + b.getManifestHash()->toHex() + "," + b.getBallotCodeSeed()->toHex() + ",";
    for (auto y : b.getContests())
        s += wantCCon(y.get(), x) + "\n";
    s += ";";
    if (stamp)
        s += to_string(b.getTimestamp()) + "," + b.getBallotCode()->toHex() + ",";
    s += (b.getNonce() ? b.getNonce()->toHex() : string("-")) + "," + b.getCryptoHash()->toHex() + "," + b.crypto_hash_with(*ref::mkQ(x.other))->toHex();
    auto p = ref::mkP(x.pub);
    auto e = ref::mkQ(x.ext);
    s += b.isValidEncryption(*b.getManifestHash(), *p, *e) ? "V" : "v";
    s += b.isValidEncryption(*ref::mkQ(x.other), *p, *e) ? "V" : "v";
    return s;
}
#include "v03_main.inc"
