// the cases of V03 (included by v03.cpp)
static vector<Z> qs() { return vector<Z>{0, 1, 2, 65537, ref::Q() - 1}; }
static vector<Z> qAll()
{
    Z top = (Z(1) << 256) - 1;
    return vector<Z>{0, 1, 2, 255, 256, Z(1) << 64, ref::Q() - 1, ref::Q() + 1, top};
}
static vector<Z> pAll()
{
    Z top = (Z(1) << 4096) - 1;
    return vector<Z>{0, 1, 2, 255, 256, Z(1) << 64, Z(1) << 4095, ref::G(), ref::P() - 1, ref::P() + 1, top};
}

static void lists(bool quick)
{
    // appends of four elements and the removal of the last, all sequences
    static const vector<std::pair<string, string>> el = {{"a", "1"}, {"", ""}, {"a", "2"}, {string(300, 'k'), "v"}};
    int depth = quick ? 5 : 7, A = (int)el.size() + 1;
    uint64_t n = 1;
    for (int i = 0; i < depth; i++)
        n *= A;
    mc::for_all("list operations", n, [=](uint64_t code) {
        balanced("list operations", [&] {
            eg_linked_list_t *l = obtain<eg_linked_list_t>("eg_linked_list_new", [&](eg_linked_list_t **o) { return eg_linked_list_new(o); });
            vector<std::pair<string, string>> m;
            uint64_t c = code;
            for (int i = 0; i <= depth; i++) {
                string sig;
                expect(eg_linked_list_get_count(l) == m.size(), "eg_linked_list_get_count is wrong");
                for (size_t k = 0; k < m.size(); k++) {
                    char *a = nullptr, *b = nullptr, *v = nullptr;
                    done("eg_linked_list_get_element_at", eg_linked_list_get_element_at(l, k, &a, &b));
                    done("eg_linked_list_get_value_at", eg_linked_list_get_value_at(l, k, &v));
                    expect(a && b && v && m[k].first == a && m[k].second == b && m[k].second == v, "the list does not hold what was appended in order");
                    sig += (a ? string(a) : "?") + "=" + (b ? string(b) : "?") + ";";
                }
                mc::state("list " + sig);
                for (uint64_t k : {(uint64_t)m.size(), (uint64_t)m.size() + 1, UINT64_MAX}) {
                    char *a = none<char>(), *b = none<char>();
                    expect(eg_linked_list_get_element_at(l, k, &a, &b) != 0 && a == none<char>() && b == none<char>(), "eg_linked_list_get_element_at gives an element that is not there");
                    expect(eg_linked_list_get_value_at(l, k, &a) != 0 && a == none<char>(), "eg_linked_list_get_value_at gives a value that is not there");
                }
                if (i == depth)
                    break;
                int op = c % A;
                c /= A;
                mc::step();
                if (op < (int)el.size()) {
                    // the caller's texts may change afterwards
                    string k = el[op].first, v = el[op].second;
                    done("eg_linked_list_append", eg_linked_list_append(l, C(k), C(v)));
                    std::fill(k.begin(), k.end(), '#');
                    std::fill(v.begin(), v.end(), '#');
                    m.push_back(el[op]);
                } else {
                    done("eg_linked_list_delete_last", eg_linked_list_delete_last(l));
                    if (!m.empty())
                        m.pop_back();
                }
            }
            FREE(eg_linked_list_free, l);
        });
    });
}

static void group()
{
    auto ps = pAll(), qv = qAll();
    mc::for_all("elements mod p", ps.size(), [&](uint64_t i) {
        auto a = limbs(ps[i]);
        uint64_t raw[64];
        std::copy(a.begin(), a.end(), raw);
        auto show = [&](eg_element_mod_p_t *h) {
            uint64_t *d = nullptr, n = 0;
            done("eg_element_mod_p_get_data", eg_element_mod_p_get_data(h, &d, &n));
            string s = to_string(n) + ":";
            for (uint64_t k = 0; d && k < 64; k++)
                s += to_string(d[k]) + ",";
            return s + takeP(h);
        };
        auto want = [&](bool unchecked) {
            eg::ElementModP e(raw, unchecked);
            string s = to_string(e.length()) + ":";
            for (uint64_t k = 0; k < 64; k++)
                s += to_string(e.get()[k]) + ",";
            return s + e.toHex();
        };
        balanced("elements mod p", [&] {
            agree<eg_element_mod_p_t>("eg_element_mod_p_new", [&](eg_element_mod_p_t **o) { return eg_element_mod_p_new(raw, o); }, [&] { return want(false); }, show);
            agree<eg_element_mod_p_t>("eg_element_mod_p_new_unchecked", [&](eg_element_mod_p_t **o) { return eg_element_mod_p_new_unchecked(raw, o); }, [&] { return want(true); }, show);
        });
        mc::state("p " + hex(ps[i]));
    });
    mc::for_all("elements mod q", qv.size(), [&](uint64_t i) {
        auto a = limbs(qv[i]);
        uint64_t raw[4];
        std::copy(a.begin(), a.begin() + 4, raw);
        auto show = [&](eg_element_mod_q_t *h) {
            uint64_t *d = nullptr, n = 0;
            done("eg_element_mod_q_get_data", eg_element_mod_q_get_data(h, &d, &n));
            string s = to_string(n) + ":";
            for (uint64_t k = 0; d && k < 4; k++)
                s += to_string(d[k]) + ",";
            return s + takeQ(h);
        };
        auto want = [&](bool unchecked) {
            eg::ElementModQ e(raw, unchecked);
            string s = to_string(e.length()) + ":";
            for (uint64_t k = 0; k < 4; k++)
                s += to_string(e.get()[k]) + ",";
            return s + e.toHex();
        };
        balanced("elements mod q", [&] {
            agree<eg_element_mod_q_t>("eg_element_mod_q_new", [&](eg_element_mod_q_t **o) { return eg_element_mod_q_new(raw, o); }, [&] { return want(false); }, show);
            agree<eg_element_mod_q_t>("eg_element_mod_q_new_unchecked", [&](eg_element_mod_q_t **o) { return eg_element_mod_q_new_unchecked(raw, o); }, [&] { return want(true); }, show);
        });
        mc::state("q " + hex(qv[i]));
    });
    // texts of numbers
    vector<string> hx = {"", "0", "00", "1", "01", "FF", "ff", "aB", "00000000000000FF", "zz", "1g", "-1", " 1", "0x01", "1 ", string(64, '0'), string(64, 'F'), string(66, '0') + "01", string(65, '1'), string(66, '1'), string(1024, 'A'), hex(ref::Q()), hex(ref::Q() - 1), hex(ref::Q() + 1)};
    mc::for_all("texts of elements", hx.size(), [&](uint64_t i) {
        balanced("texts of elements", [&] {
            for (bool un : {false, true}) {
                string w = un ? "eg_element_mod_q_from_hex_unchecked" : "eg_element_mod_q_from_hex";
                agree<eg_element_mod_q_t>(w, [&](eg_element_mod_q_t **o) { return un ? eg_element_mod_q_from_hex_unchecked(C(hx[i]), o) : eg_element_mod_q_from_hex(C(hx[i]), o); }, [&] { return eg::ElementModQ::fromHex(hx[i], un)->toHex(); }, takeQ);
            }
        });
        mc::state("hex " + hx[i]);
    });
    mc::for_all("powers", ps.size() * qv.size(), [&](uint64_t i) {
        Z b = ps[i % ps.size()], e = qv[i / ps.size()];
        balanced("powers", [&] {
            HP B(b);
            HQ X(e);
            agree<eg_element_mod_p_t>("eg_element_mod_q_pow_mod_p", [&](eg_element_mod_p_t **o) { return eg_element_mod_q_pow_mod_p(B, X, o); }, [&] { return eg::pow_mod_p(*ref::mkP(b), *ref::mkQ(e))->toHex(); }, takeP);
        });
        mc::state("pow " + to_string(i));
    });
    mc::for_all("constants", 1, [&](uint64_t) {
        balanced("constants", [&] {
#define CP(fn, v)                                                                                                                                     \
    {                                                                                                                                                  \
        auto *h = obtain<eg_element_mod_p_t>(#fn, [&](eg_element_mod_p_t **o) { return fn(o); });                                                      \
        expect(hexP(h) == (v).toHex(), string(#fn) + " gives another result than the C++ call");                                                       \
    }
#define CQ(fn, v)                                                                                                                                     \
    {                                                                                                                                                  \
        auto *h = obtain<eg_element_mod_q_t>(#fn, [&](eg_element_mod_q_t **o) { return fn(o); });                                                      \
        expect(hexQ(h) == (v).toHex(), string(#fn) + " gives another result than the C++ call");                                                       \
    }
            CP(eg_element_mod_p_constant_g, eg::G())
            CP(eg_element_mod_p_constant_p, eg::P())
            CP(eg_element_mod_p_constant_r, eg::R())
            CP(eg_element_mod_p_constant_zero_mod_p, eg::ZERO_MOD_P())
            CP(eg_element_mod_p_constant_one_mod_p, eg::ONE_MOD_P())
            CP(eg_element_mod_p_constant_two_mod_p, eg::TWO_MOD_P())
            CQ(eg_element_mod_q_constant_q, eg::Q())
            CQ(eg_element_mod_q_constant_zero_mod_q, eg::ZERO_MOD_Q())
            CQ(eg_element_mod_q_constant_one_mod_q, eg::ONE_MOD_Q())
            CQ(eg_element_mod_q_constant_two_mod_q, eg::TWO_MOD_Q())
            string j = jsonOf("eg_constant_to_json", [&](char **o, uint64_t *n) { return eg_constant_to_json(o, n); });
            try {
                auto p = nlohmann::json::parse(j);
                expect(p.is_object() && !p.empty(), "eg_constant_to_json gives no constants");
            } catch (const std::exception &) {
                fail("eg_constant_to_json gives no JSON");
            }
            for (int k = 0; k < 3; k++) {
                auto *r = obtain<eg_element_mod_q_t>("eg_element_mod_q_rand_q_new", [&](eg_element_mod_q_t **o) { return eg_element_mod_q_rand_q_new(o); });
                expect(Z(takeQ(r), 16) < ref::Q(), "eg_element_mod_q_rand_q_new gives a value out of range");
            }
            for (int s = 0; s <= 8; s++)
                expect(string(eg_electionguard_get_status((St)s)) == eg_electionguard_status_codes[s], "eg_electionguard_get_status gives a wrong name");
            for (int s : {9, 10, 1000, 0x7fffffff})
                expect(string(eg_electionguard_get_status((St)s)) == "ELECTIONGUARD_STATUS_UNKNOWN", "eg_electionguard_get_status gives a wrong name");
        });
    });
}

static void hashes()
{
    vector<string> t = {"", "null", "a", "b", "0", "\xc3\xa9", string(1000, 'x')};
    vector<vector<string>> l = {{}};
    for (size_t a = 0; a < t.size(); a++) {
        l.push_back({t[a]});
        for (size_t b = 0; b < t.size(); b++) {
            l.push_back({t[a], t[b]});
            for (size_t c = 0; c < t.size(); c++)
                l.push_back({t[a], t[b], t[c]});
        }
    }
    mc::for_all("hashes of lists", l.size(), [&](uint64_t i) {
        vector<const char *> p;
        for (auto &s : l[i])
            p.push_back(s.c_str());
        balanced("hashes", [&] {
            agree<eg_element_mod_q_t>("eg_hash_elems_strings", [&](eg_element_mod_q_t **o) { return eg_hash_elems_strings(p.data(), p.size(), o); }, [&] { return eg::hash_elems(l[i])->toHex(); }, takeQ);
            if (l[i].size() == 1)
                agree<eg_element_mod_q_t>("eg_hash_elems_string", [&](eg_element_mod_q_t **o) { return eg_hash_elems_string(p[0], o); }, [&] { return eg::hash_elems(l[i][0])->toHex(); }, takeQ);
        });
        mc::state("hash " + to_string(i));
    });
    vector<uint64_t> n = {0, 1, 9, 10, 255, 1ull << 32, ~0ull >> 1, ~0ull};
    mc::for_all("hashes of numbers", n.size(), [&](uint64_t i) {
        balanced("hashes", [&] { agree<eg_element_mod_q_t>("eg_hash_elems_int", [&](eg_element_mod_q_t **o) { return eg_hash_elems_int(n[i], o); }, [&] { return eg::hash_elems(n[i])->toHex(); }, takeQ); });
    });
    vector<uint64_t> d = {0, 1, ~0ull};
    vector<string> loc = {"", "here"};
    mc::for_all("devices", 27 * 2, [&](uint64_t i) {
        uint64_t a = d[i % 3], b = d[i / 3 % 3], c = d[i / 9 % 3];
        string w = loc[i / 27];
        balanced("devices", [&] {
            eg::EncryptionDevice dev(a, b, c, w);
            string want = dev.getHash()->toHex();
            expect(want == eg::BallotCode::getHashForDevice(a, b, c, w)->toHex(), "hash of a device");
            expect(takeQ(obtain<eg_element_mod_q_t>("eg_ballot_code_get_hash_for_device", [&](eg_element_mod_q_t **o) { return eg_ballot_code_get_hash_for_device(a, b, c, w.c_str(), o); })) == want, "eg_ballot_code_get_hash_for_device gives another result than the C++ call");
            auto *h = obtain<eg_encryption_device_t>("eg_encryption_device_new", [&](eg_encryption_device_t **o) { return eg_encryption_device_new(a, b, c, w.c_str(), o); });
            // the chain starts with the hash of the device
            expect(takeQ(REF(eg_element_mod_q_t, eg_encryption_device_get_hash, h)) == want, "eg_encryption_device_get_hash gives another result than the C++ call");
            string j = JSON(eg_encryption_device_to_json, h);
            expect(j == dev.toJson(), "eg_encryption_device_to_json gives another result than the C++ call");
            auto *g = obtain<eg_encryption_device_t>("eg_encryption_device_from_json", [&](eg_encryption_device_t **o) { return eg_encryption_device_from_json(C(j), o); });
            FREE(eg_encryption_device_free, h);
            expect(takeQ(REF(eg_element_mod_q_t, eg_encryption_device_get_hash, g)) == want, "eg_encryption_device_from_json gives another device");
            FREE(eg_encryption_device_free, g);
        });
        mc::state("device " + to_string(i));
    });
    vector<Z> z = {0, 1, ref::Q() - 1};
    mc::for_all("codes", 27, [&](uint64_t i) {
        Z a = z[i % 3], b = z[i / 3 % 3];
        uint64_t t = d[i / 9];
        balanced("codes", [&] {
            HQ A(a), B(b);
            agree<eg_element_mod_q_t>("eg_ballot_code_get_ballot_code", [&](eg_element_mod_q_t **o) { return eg_ballot_code_get_ballot_code(A, t, B, o); }, [&] { return eg::BallotCode::getBallotCode(*ref::mkQ(a), t, *ref::mkQ(b))->toHex(); }, takeQ);
        });
    });
}

static void crypto(bool quick)
{
    auto q = qs();
    q.push_back(ref::Q() + 1);
    mc::for_all("key pairs", q.size(), [&](uint64_t i) {
        balanced("key pairs", [&] {
            HQ S(q[i]);
            agree<eg_elgamal_keypair_t>("eg_elgamal_keypair_from_secret_new", [&](eg_elgamal_keypair_t **o) { return eg_elgamal_keypair_from_secret_new(S, o); },
                                        [&] {
                                            auto k = eg::ElGamalKeyPair::fromSecret(*ref::mkQ(q[i]));
                                            return k->getPublicKey()->toHex() + "," + k->getSecretKey()->toHex();
                                        },
                                        [&](eg_elgamal_keypair_t *h) {
                                            string s = hexP(REF(eg_element_mod_p_t, eg_elgamal_keypair_get_public_key, h)) + "," + hexQ(REF(eg_element_mod_q_t, eg_elgamal_keypair_get_secret_key, h));
                                            FREE(eg_elgamal_keypair_free, h);
                                            return s;
                                        });
        });
    });
    // message x nonce x key
    vector<uint64_t> msg = {0, 1, 2, 3};
    vector<Z> nonces = {0, 1, 2, ref::Q() - 1};
    vector<Z> sk = {2, 65537, ref::Q() - 1};
    mc::for_all("elgamal", msg.size() * nonces.size() * sk.size(), [&](uint64_t i) {
        uint64_t m = msg[i % 4];
        Z n = nonces[i / 4 % 4], s = sk[i / 16];
        Z K = ref::powm(ref::G(), s);
        balanced("elgamal", [&] {
            HQ N(n), S(s);
            HP PK(K);
            bool made = agree<eg_elgamal_ciphertext_t>("eg_elgamal_encrypt", [&](eg_elgamal_ciphertext_t **o) { return eg_elgamal_encrypt(m, N, PK, o); },
                                                       [&] {
                                                           auto c = eg::elgamalEncrypt(m, *ref::mkQ(n), *ref::mkP(K));
                                                           return wantCt(*c) + "=" + to_string(c->decrypt(*ref::mkQ(s)));
                                                       },
                                                       [&](eg_elgamal_ciphertext_t *h) {
                                                           uint64_t v = 77;
                                                           done("eg_elgamal_ciphertext_decrypt_with_secret", eg_elgamal_ciphertext_decrypt_with_secret(h, S, &v));
                                                           string r = shCt(h) + "=" + to_string(v);
                                                           FREE(eg_elgamal_ciphertext_free, h);
                                                           return r;
                                                       });
            mc::state("elgamal " + to_string(i) + (made ? "" : " refused"));
        });
    });
    // proofs: claimed value x actual value x nonce x seed x verification with each key and hash
    uint64_t n = quick ? 2 : 4;
    mc::for_all("proofs", 3 * 3 * n, [&](uint64_t i) {
        uint64_t m = i % 3, claim = i / 3 % 3;
        Z r = vector<Z>{5, ref::Q() - 1, 1, 77}[i / 9];
        Z s = 65537, K = ref::powm(ref::G(), s), H1 = 99, seed = 5 + i;
        auto body = [&] {
            HQ R(r), Q1(H1), Q2(100), SD(seed), SK(s);
            HP PK(K), PK2(ref::powm(ref::G(), 3));
            auto *ct = obtain<eg_elgamal_ciphertext_t>("eg_elgamal_encrypt", [&](eg_elgamal_ciphertext_t **o) { return eg_elgamal_encrypt(m, R, PK, o); });
            auto *ct2 = obtain<eg_elgamal_ciphertext_t>("eg_elgamal_encrypt", [&](eg_elgamal_ciphertext_t **o) { return eg_elgamal_encrypt(m + 1, R, PK, o); });
            auto cpp = eg::elgamalEncrypt(m, *ref::mkQ(r), *ref::mkP(K)), cpp2 = eg::elgamalEncrypt(m + 1, *ref::mkQ(r), *ref::mkP(K));
            auto ok = [&](eg::DisjunctiveChaumPedersenProof &p) {
                string t;
                for (auto *c : {cpp.get(), cpp2.get()})
                    for (Z k : vector<Z>{K, ref::powm(ref::G(), 3)})
                        for (int h : {99, 100})
                            t += p.isValid(*c, *ref::mkP(k), *ref::mkQ(h)) ? "V" : "v";
                return t;
            };
            auto okc = [&](eg_disjunctive_chaum_pedersen_proof_t *p) {
                string t;
                for (auto *c : {ct, ct2})
                    for (auto *k : {PK.h, PK2.h})
                        for (auto *h : {Q1.h, Q2.h})
                            t += eg_disjunctive_chaum_pedersen_proof_is_valid(p, c, k, h) ? "V" : "v";
                return t;
            };
            typedef eg_disjunctive_chaum_pedersen_proof_t D;
            agree<D>("eg_disjunctive_chaum_pedersen_proof_make_deterministic", [&](D **o) { return eg_disjunctive_chaum_pedersen_proof_make_deterministic(ct, R, PK, Q1, SD, claim, o); },
                     [&] {
                         auto p = eg::DisjunctiveChaumPedersenProof::make(*cpp, *ref::mkQ(r), *ref::mkP(K), *ref::mkQ(H1), *ref::mkQ(seed), claim);
                         return wantD(*p) + ok(*p);
                     },
                     [&](D *h) {
                         string t = shD(h) + okc(h);
                         FREE(eg_disjunctive_chaum_pedersen_proof_free, h);
                         return t;
                     });
            agree<D>("eg_disjunctive_chaum_pedersen_proof_make", [&](D **o) { return eg_disjunctive_chaum_pedersen_proof_make(ct, R, PK, Q1, claim, o); },
                     [&] {
                         auto p = eg::DisjunctiveChaumPedersenProof::make(*cpp, *ref::mkQ(r), *ref::mkP(K), *ref::mkQ(H1), claim);
                         return ok(*p);
                     },
                     [&](D *h) {
                         string t = okc(h);
                         FREE(eg_disjunctive_chaum_pedersen_proof_free, h);
                         return t;
                     });
            typedef eg_constant_chaum_pedersen_proof_t K1;
            agree<K1>("eg_constant_chaum_pedersen_proof_make", [&](K1 **o) { return eg_constant_chaum_pedersen_proof_make(ct, R, PK, SD, Q1, claim, o); },
                      [&] {
                          auto p = eg::ConstantChaumPedersenProof::make(*cpp, *ref::mkQ(r), *ref::mkP(K), *ref::mkQ(seed), *ref::mkQ(H1), claim);
                          string t = wantK(*p);
                          for (auto *c : {cpp.get(), cpp2.get()})
                              for (Z k : vector<Z>{K, ref::powm(ref::G(), 3)})
                                  for (int h : {99, 100})
                                      t += p->isValid(*c, *ref::mkP(k), *ref::mkQ(h)) ? "V" : "v";
                          return t;
                      },
                      [&](K1 *p) {
                          string t = shK(p);
                          for (auto *c : {ct, ct2})
                              for (auto *k : {PK.h, PK2.h})
                                  for (auto *h : {Q1.h, Q2.h})
                                      t += eg_constant_chaum_pedersen_proof_is_valid(p, c, k, h) ? "V" : "v";
                          FREE(eg_constant_chaum_pedersen_proof_free, p);
                          return t;
                      });
            FREE(eg_elgamal_ciphertext_free, ct);
            FREE(eg_elgamal_ciphertext_free, ct2);
        };
        if (i % 9 == 4)
            balanced("proofs", body);
        else
            body();
        mc::state("proof " + to_string(i));
    });
}

typedef eg_ciphertext_election_context_t TC;
static string shContext(TC *h)
{
    string s = hexP(REF(eg_element_mod_p_t, eg_ciphertext_election_context_get_elgamal_public_key, h)) + "," + hexQ(REF(eg_element_mod_q_t, eg_ciphertext_election_context_get_commitment_hash, h)) + "," + hexQ(REF(eg_element_mod_q_t, eg_ciphertext_election_context_get_manifest_hash, h)) + "," + hexQ(REF(eg_element_mod_q_t, eg_ciphertext_election_context_get_crypto_base_hash, h)) + "," +
               hexQ(REF(eg_element_mod_q_t, eg_ciphertext_election_context_get_crypto_extended_base_hash, h));
    auto *c = REF(eg_context_configuration_t, eg_ciphertext_election_context_get_configuration, h);
    bool ov = false;
    uint64_t mx = 77;
    done("eg_ciphertext_election_context_config_get_allowed_overvotes", eg_ciphertext_election_context_config_get_allowed_overvotes(c, &ov));
    done("eg_ciphertext_election_context_config_get_max_ballots", eg_ciphertext_election_context_config_get_max_ballots(c, &mx));
    s += "," + to_string(ov) + "," + to_string(mx);
    auto *l = REF(eg_linked_list_t, eg_ciphertext_election_context_get_extended_data, h);
    std::set<string> e;
    for (uint64_t i = 0; i < eg_linked_list_get_count(l); i++) {
        char *k = nullptr, *v = nullptr;
        done("eg_linked_list_get_element_at", eg_linked_list_get_element_at(l, i, &k, &v));
        e.insert(string(k) + "=" + v);
    }
    s += "," + to_string(eg_linked_list_get_count(l)) + "{";
    for (auto &x : e)
        s += x + ";";
    FREE(eg_linked_list_free, l);
    return s + "}";
}
static string wantContext(eg::CiphertextElectionContext &c)
{
    string s = c.getElGamalPublicKey()->toHex() + "," + c.getCommitmentHash()->toHex() + "," + c.getManifestHash()->toHex() + "," + c.getCryptoBaseHash()->toHex() + "," + c.getCryptoExtendedBaseHash()->toHex() + "," + to_string(c.getConfiguration()->getAllowOverVotes()) + "," + to_string(c.getConfiguration()->getMaxNumberOfBallots());
    std::set<string> e;
    for (auto &kv : c.getExtendedData())
        e.insert(kv.first + "=" + kv.second);
    s += "," + to_string(c.getExtendedData().size()) + "{";
    for (auto &x : e)
        s += x + ";";
    return s + "}";
}
static void contexts()
{
    struct V {
        uint64_t n, k;
        Z pk, ch, mh;
        int kind, cfg, ext;
    };
    vector<V> v;
    vector<std::pair<uint64_t, uint64_t>> nk = {{1, 1}, {3, 2}, {0, 0}, {1, 2}, {~0ull, 1}};
    for (auto &g : nk)
        for (int key = 0; key < 3; key++)
            for (int kind = 0; kind < 6; kind++)
                for (int cfg = 0; cfg < ((kind == 1 || kind == 3) ? 3 : 1); cfg++)
                    for (int ext = 0; ext < ((kind == 2 || kind == 3 || kind == 5) ? 5 : 1); ext++)
                        v.push_back({g.first, g.second, vector<Z>{ref::G(), 1, ref::P() - 1}[key], vector<Z>{7, 0, ref::Q() - 1}[key], vector<Z>{8, 1, 0}[key], kind, cfg, ext});
    static const vector<std::pair<string, string>> ED[5] = {{}, {{"a", "1"}}, {{"a", "1"}, {"b", ""}}, {{"", "x"}}, {{"a", "1"}, {"a", "2"}}};
    mc::for_all("contexts", v.size(), [&](uint64_t i) {
        auto &x = v[i];
        auto body = [&] {
            std::unordered_map<string, string> m;
            for (auto &kv : ED[x.ext])
                m[kv.first] = kv.second;
            bool ov = x.cfg != 1;
            uint64_t mx = vector<uint64_t>{1000000, 0, ~0ull}[x.cfg];
            auto pk = [&] { return ref::mkP(x.pk); };
            auto q = [&](const Z &z) { return ref::mkQ(z); };
            auto cpp = [&] {
                using CC = eg::CiphertextElectionContext;
                unique_ptr<CC> c;
                switch (x.kind) {
                    case 0: c = CC::make(x.n, x.k, pk(), q(x.ch), q(x.mh)); break;
                    case 1: c = CC::make(x.n, x.k, pk(), q(x.ch), q(x.mh), make_unique<eg::ContextConfiguration>(ov, mx)); break;
                    case 2: c = CC::make(x.n, x.k, pk(), q(x.ch), q(x.mh), m); break;
                    case 3: c = CC::make(x.n, x.k, pk(), q(x.ch), q(x.mh), make_unique<eg::ContextConfiguration>(ov, mx), m); break;
                    case 4: c = CC::make(x.n, x.k, hex(x.pk), hex(x.ch), hex(x.mh)); break;
                    default: c = CC::make(x.n, x.k, hex(x.pk), hex(x.ch), hex(x.mh), m);
                }
                return c;
            };
            HP PK(x.pk);
            HQ CH(x.ch), MH(x.mh);
            eg_linked_list_t *l = obtain<eg_linked_list_t>("eg_linked_list_new", [&](eg_linked_list_t **o) { return eg_linked_list_new(o); });
            for (auto &kv : ED[x.ext])
                done("eg_linked_list_append", eg_linked_list_append(l, C(kv.first), C(kv.second)));
            auto *cfg = obtain<eg_context_configuration_t>("eg_ciphertext_election_context_config_make", [&](eg_context_configuration_t **o) { return eg_ciphertext_election_context_config_make(ov, mx, o); });
            string hp = hex(x.pk), hc = hex(x.ch), hm = hex(x.mh);
            static const char *names[] = {"eg_ciphertext_election_context_make", "eg_ciphertext_election_context_make_with_configuration", "eg_ciphertext_election_context_make_with_extended_data", "eg_ciphertext_election_context_make_with_configuration_and_extended_data", "eg_ciphertext_election_context_make_from_hex", "eg_ciphertext_election_context_make_from_hex_with_extended_data"};
            auto make = [&](TC **o) {
                switch (x.kind) {
                    case 0: return eg_ciphertext_election_context_make(x.n, x.k, PK, CH, MH, o);
                    case 1: return eg_ciphertext_election_context_make_with_configuration(x.n, x.k, PK, CH, MH, cfg, o);
                    case 2: return eg_ciphertext_election_context_make_with_extended_data(x.n, x.k, PK, CH, MH, l, o);
                    case 3: return eg_ciphertext_election_context_make_with_configuration_and_extended_data(x.n, x.k, PK, CH, MH, cfg, l, o);
                    case 4: return eg_ciphertext_election_context_make_from_hex(x.n, x.k, hp.c_str(), hc.c_str(), hm.c_str(), o);
                    default: return eg_ciphertext_election_context_make_from_hex_with_extended_data(x.n, x.k, hp.c_str(), hc.c_str(), hm.c_str(), l, o);
                }
            };
            agree<TC>(names[x.kind], make,
                      [&] {
                          auto c = cpp();
                          return wantContext(*c) + c->toJson();
                      },
                      [&](TC *h) {
                          // the parts can be released before the context
                          expect(hexP(PK) == hex(x.pk) && hexQ(CH) == hex(x.ch), "a handle loses its value when another object is made from it: " + string(names[x.kind]));
                          string s = shContext(h);
                          string j = JSON(eg_ciphertext_election_context_to_json, h);
                          auto b = LIKE(eg_ciphertext_election_context_to_bson, h, cpp()->toBson());
                          FREE(eg_ciphertext_election_context_free, h);
                          auto *g = obtain<TC>("eg_ciphertext_election_context_from_json", [&](TC **o) { return eg_ciphertext_election_context_from_json(C(j), o); });
                          expect(shContext(g) == wantContext(*eg::CiphertextElectionContext::fromJson(j)), "eg_ciphertext_election_context_from_json gives another result than the C++ call");
                          FREE(eg_ciphertext_election_context_free, g);
                          agree<TC>("eg_ciphertext_election_context_from_bson", [&](TC **o) { return eg_ciphertext_election_context_from_bson(b.data(), b.size(), o); }, [&] { return wantContext(*eg::CiphertextElectionContext::fromBson(b)); },
                                    [&](TC *y) {
                                        string r = shContext(y);
                                        FREE(eg_ciphertext_election_context_free, y);
                                        return r;
                                    });
                          return s + j;
                      });
            FREE(eg_linked_list_free, l);
            FREE(eg_ciphertext_election_context_config_free, cfg);
        };
        balanced("contexts", body);
        mc::state("context " + to_string(i));
    });
    // texts that are no numbers
    vector<string> bad = {"", "zz", "1", "0x", string(70, '1')};
    mc::for_all("contexts from texts", bad.size() * 3, [&](uint64_t i) {
        string a[3] = {"02", "03", "04"};
        a[i % 3] = bad[i / 3];
        balanced("contexts from texts", [&] {
            agree<TC>("eg_ciphertext_election_context_make_from_hex", [&](TC **o) { return eg_ciphertext_election_context_make_from_hex(1, 1, a[0].c_str(), a[1].c_str(), a[2].c_str(), o); }, [&] { return wantContext(*eg::CiphertextElectionContext::make(1, 1, a[0], a[1], a[2])); },
                      [&](TC *h) {
                          string s = shContext(h);
                          FREE(eg_ciphertext_election_context_free, h);
                          return s;
                      });
        });
    });
}

// manifests of different make-up
static vector<ManM> manifests(bool quick)
{
    vector<ManM> v;
    vector<Lang> t0, t1 = {{"Name", "en"}}, t2 = {{"Name", "en"}, {"Nombre", "es"}};
    ContactM c0{{}, {}, {}, "c"}, c1{{"l1", "l2"}, {{"home", "a@b"}}, {{"w", "1"}, {"h", "2"}}, "contact"};
    auto base = [&] {
        ManM m;
        m.units = {{"u", "unit"}};
        m.styles = {{"style", {"u"}}};
        m.cons = {contest("con", "u", 3, 1, 1, {0, 1}, 1)};
        addCandidates(m);
        return m;
    };
    v.push_back(base());
    v.push_back(ManM());
    for (int t = 0; t < 8; t++) {
        auto m = base();
        m.type = t;
        m.start = t * 1000;
        m.end = 1577836800 + t;
        v.push_back(m);
    }
    for (int t = 0; t < 29; t++) {
        auto m = base();
        m.units[0].type = t;
        if (t % 3 == 1)
            m.units[0].contact = c1;
        if (t % 3 == 2)
            m.units[0].contact = c0;
        v.push_back(m);
    }
    for (int t = 0; t < 13; t++) {
        auto m = base();
        m.cons[0].var = t;
        m.cons[0].n = t % 3 + 1;
        // what the plain constructor takes for it
        m.cons[0].allowed = t == (int)eg::VoteVariationType::n_of_m || t == (int)eg::VoteVariationType::one_of_m ? m.cons[0].n : 0;
        if (t % 2) {
            m.cons[0].title = t1;
            m.cons[0].sub = t2;
            m.cons[0].allowed = m.cons[0].n + t % 4;
        }
        v.push_back(m);
    }
    for (auto &n : {t0, t1, t2})
        for (auto &c : {c0, c1}) {
            auto m = base();
            m.name = n;
            m.contact = c;
            v.push_back(m);
        }
    for (int k = 0; k < 16; k++) {
        auto m = base();
        m.parties = {{"p1", k & 1 ? t1 : t0, k & 2 ? "ab" : "", k & 4 ? "red" : "", k & 8 ? "logo" : ""}, {"p2", t0, "", "", ""}};
        m.cands.push_back({"cx", k & 1 ? t2 : t0, k & 2 ? "p1" : "", k & 4 ? "img" : "", (k & 8) != 0});
        m.styles.push_back({"s2", {"u", "u"}, k & 1 ? vector<string>{"p1", "p2"} : vector<string>{}, k & 2 ? "uri" : ""});
        v.push_back(m);
    }
    // sequence orders and list orders
    for (int k = 0; k < 6; k++) {
        auto m = base();
        m.units.push_back({"w", "other"});
        m.cons.push_back(contest("c2", "w", k, 2, 2, {5, 4, 9}));
        m.cons[0].seq = 2;
        m.styles.push_back({"both", {"w", "u"}});
        v.push_back(m);
    }
    (void)quick;
    return v;
}
static void manifest(bool quick)
{
    auto v = manifests(quick);
    mc::for_all("manifests", v.size(), [&](uint64_t i) {
        auto &m = v[i];
        vector<SelM> probe = {{"none", "none", 9}};
        vector<string> styles = {"none", ""};
        for (auto &c : m.cons) {
            for (auto &s : c.sels)
                probe.push_back(s);
            for (auto &s : c.placeholders())
                probe.push_back(s);
        }
        for (auto &s : m.styles)
            styles.push_back(s.id);
        balanced("manifests", [&] {
            auto cpp = m.build();
            // contests through the plainer constructors have no title: as the model has none
            auto *h = cMan(m);
            string s = shMan(h), want = wantMan(*cpp);
            expect(s == want, "eg_election_manifest_new gives another manifest than the C++ call", s + " instead of " + want);
            string j = JSON(eg_election_manifest_to_json, h);
            auto b = BYTES(eg_election_manifest_to_bson, h), p = BYTES(eg_election_manifest_to_msgpack, h);
            expect(j == cpp->toJson(), "eg_election_manifest_to_json gives another result than the C++ call");
            expect(b == cpp->toBson(), "eg_election_manifest_to_bson gives another result than the C++ call");
            expect(p == cpp->toMsgPack(), "eg_election_manifest_to_msgpack gives another result than the C++ call");
            typedef eg_election_manifest_t T;
            auto show = [&](T *x) {
                string r = shMan(x);
                FREE(eg_election_manifest_free, x);
                return r;
            };
            agree<T>("eg_election_manifest_from_json", [&](T **o) { return eg_election_manifest_from_json(C(j), o); }, [&] { return wantMan(*eg::Manifest::fromJson(j)); }, show);
            agree<T>("eg_election_manifest_from_bson", [&](T **o) { return eg_election_manifest_from_bson(b.data(), b.size(), o); }, [&] { return wantMan(*eg::Manifest::fromBson(b)); }, show);
            agree<T>("eg_election_manifest_from_msgpack", [&](T **o) { return eg_election_manifest_from_msgpack(p.data(), p.size(), o); }, [&] { return wantMan(*eg::Manifest::fromMsgPack(p)); }, show);
            typedef eg_internal_manifest_t I;
            auto showI = [&](I *x) {
                string r = shInt(x, probe, styles);
                FREE(eg_internal_manifest_free, x);
                return r;
            };
            agree<I>("eg_internal_manifest_new", [&](I **o) { return eg_internal_manifest_new(h, o); }, [&] { return wantInt(*make_unique<eg::InternalManifest>(*cpp), probe, styles); }, showI);
            I *in = nullptr;
            if (eg_internal_manifest_new(h, &in) == ELECTIONGUARD_STATUS_SUCCESS) {
                // the description can be released before what was made from it
                FREE(eg_election_manifest_free, h);
                h = nullptr;
                eg::InternalManifest ci(*cpp);
                expect(shInt(in, probe, styles) == wantInt(ci, probe, styles), "an internal manifest changes when the manifest is released");
                j = JSON(eg_internal_manifest_to_json, in);
                b = BYTES(eg_internal_manifest_to_bson, in);
                p = BYTES(eg_internal_manifest_to_msgpack, in);
                expect(j == ci.toJson(), "eg_internal_manifest_to_json gives another result than the C++ call");
                expect(b == ci.toBson(), "eg_internal_manifest_to_bson gives another result than the C++ call");
                expect(p == ci.toMsgPack(), "eg_internal_manifest_to_msgpack gives another result than the C++ call");
                FREE(eg_internal_manifest_free, in);
                agree<I>("eg_internal_manifest_from_json", [&](I **o) { return eg_internal_manifest_from_json(C(j), o); }, [&] { return wantInt(*eg::InternalManifest::fromJson(j), probe, styles); }, showI);
                agree<I>("eg_internal_manifest_from_bson", [&](I **o) { return eg_internal_manifest_from_bson(b.data(), b.size(), o); }, [&] { return wantInt(*eg::InternalManifest::fromBson(b), probe, styles); }, showI);
                agree<I>("eg_internal_manifest_from_msgpack", [&](I **o) { return eg_internal_manifest_from_msgpack(p.data(), p.size(), o); }, [&] { return wantInt(*eg::InternalManifest::fromMsgPack(p), probe, styles); }, showI);
            }
            if (h)
                FREE(eg_election_manifest_free, h);
        });
        mc::state("manifest " + m.str());
    });
    // every constructor of contests
    vector<vector<Lang>> texts = {{}, {{"T", "en"}}, {{"T", "en"}, {"U", "es"}}};
    mc::for_all("contest constructors", 3 * 2 * 3 * 3 * 2, [&](uint64_t i) {
        int t = i % 3, par = i / 3 % 2, np = i / 6 % 3, ns = i / 18 % 3, ph = i / 54 % 2;
        ConM c = contest("con", "u", 7, 2, t ? 3 : 2, vector<uint64_t>((size_t)ns, 0), (int)(i % 13));
        for (int k = 0; k < ns; k++)
            c.sels[k].seq = (uint64_t)(ns - k);
        if (t) {
            c.title = texts[t];
            c.sub = texts[t - 1];
        }
        vector<string> parties;
        for (int k = 0; k < np; k++)
            parties.push_back("party" + to_string(k));
        vector<SelM> phs;
        for (int k = 0; k < ph * 2; k++)
            phs.push_back({"ph" + to_string(k), "cand" + to_string(k), (uint64_t)(10 - k)});
        auto bs = [&](const vector<SelM> &x) {
            vector<unique_ptr<eg::SelectionDescription>> r;
            for (auto &s : x)
                r.push_back(s.build());
            return r;
        };
        auto var = (eg::VoteVariationType)c.var;
        vector<SelM> probe = c.sels;
        probe.insert(probe.end(), phs.begin(), phs.end());
        probe.push_back({"none", "x", 3});
        balanced("contest constructors", [&] {
            unique_ptr<eg::ContestDescription> k;
            if (t && par)
                k = make_unique<eg::ContestDescription>(c.id, c.district, c.seq, var, c.n, c.allowed, c.name, buildTxt(c.title), buildTxt(c.sub), bs(c.sels), parties);
            else if (t)
                k = make_unique<eg::ContestDescription>(c.id, c.district, c.seq, var, c.n, c.allowed, c.name, buildTxt(c.title), buildTxt(c.sub), bs(c.sels));
            else if (par)
                k = make_unique<eg::ContestDescription>(c.id, c.district, c.seq, var, c.n, c.name, bs(c.sels), parties);
            else
                k = make_unique<eg::ContestDescription>(c.id, c.district, c.seq, var, c.n, c.name, bs(c.sels));
            auto *h = cCon(c, parties, par);
            string s = shCon(h), want = wantCon(*k);
            expect(s == want, "a contest made through the C interface differs from the one of the C++ call", s + " instead of " + want);
            // the primary parties show in a manifest made from the contest
            typedef eg_election_manifest_t M;
            auto *mh = obtain<M>("eg_election_manifest_new", [&](M **o) { return eg_election_manifest_new(C("s"), ELECTIONGUARD_ELECTION_TYPE_GENERAL, 0, 0, nullptr, 0, nullptr, 0, nullptr, 0, &h, 1, nullptr, 0, o); });
            vector<unique_ptr<eg::ContestDescription>> ks;
            ks.push_back(make_unique<eg::ContestDescription>(*k));
            std::chrono::system_clock::time_point zero{};
            eg::Manifest mk("s", eg::ElectionType::general, zero, zero, {}, {}, {}, std::move(ks), {});
            expect(JSON(eg_election_manifest_to_json, mh) == mk.toJson(), "a contest made through the C interface differs from the one of the C++ call");
            FREE(eg_election_manifest_free, mh);
            FREE(eg_contest_description_free, h);

            typedef eg_contest_description_with_placeholders_t W;
            unique_ptr<eg::ContestDescriptionWithPlaceholders> w;
            if (t && par)
                w = make_unique<eg::ContestDescriptionWithPlaceholders>(c.id, c.district, c.seq, var, c.n, c.allowed, c.name, buildTxt(c.title), buildTxt(c.sub), bs(c.sels), parties, bs(phs));
            else if (t)
                w = make_unique<eg::ContestDescriptionWithPlaceholders>(c.id, c.district, c.seq, var, c.n, c.allowed, c.name, buildTxt(c.title), buildTxt(c.sub), bs(c.sels), bs(phs));
            else if (par)
                w = make_unique<eg::ContestDescriptionWithPlaceholders>(c.id, c.district, c.seq, var, c.n, c.name, bs(c.sels), parties, bs(phs));
            else
                w = make_unique<eg::ContestDescriptionWithPlaceholders>(c.id, c.district, c.seq, var, c.n, c.name, bs(c.sels), bs(phs));
            auto ss = cSels(c.sels), pp = cSels(phs);
            auto pi = ptrs(parties);
            auto cv = (eg_vote_variation_type_t)c.var;
            auto *tt = cText(c.title ? *c.title : vector<Lang>{}), *ts = cText(c.sub ? *c.sub : vector<Lang>{});
            string by = string("eg_contest_description_with_placeholders_new") + (t ? "_with_title" : "") + (par ? t ? "_and_parties" : "_with_parties" : "");
            W *g = obtain<W>(by, [&](W **o) {
                if (t && par)
                    return eg_contest_description_with_placeholders_new_with_title_and_parties(C(c.id), C(c.district), c.seq, cv, c.n, c.allowed, C(c.name), tt, ts, ss.data(), ss.size(), pi.data(), pi.size(), pp.data(), pp.size(), o);
                if (t)
                    return eg_contest_description_with_placeholders_new_with_title(C(c.id), C(c.district), c.seq, cv, c.n, c.allowed, C(c.name), tt, ts, ss.data(), ss.size(), pp.data(), pp.size(), o);
                if (par)
                    return eg_contest_description_with_placeholders_new_with_parties(C(c.id), C(c.district), c.seq, cv, c.n, C(c.name), ss.data(), ss.size(), pi.data(), pi.size(), pp.data(), pp.size(), o);
                return eg_contest_description_with_placeholders_new(C(c.id), C(c.district), c.seq, cv, c.n, C(c.name), ss.data(), ss.size(), pp.data(), pp.size(), o);
            });
            freeSels(ss, c.sels, by);
            freeSels(pp, phs, by);
            FREE(eg_internationalized_text_free, tt);
            FREE(eg_internationalized_text_free, ts);
            s = shConPh(g, probe);
            want = wantConPh(*w, probe);
            expect(s == want, by + " gives another result than the C++ call", s + " instead of " + want);
            FREE(eg_contest_description_with_placeholders_free, g);
        });
        mc::state("contest " + to_string(i));
    });
    // the smaller objects, each constructor
    mc::for_all("descriptions", 32, [&](uint64_t i) {
        vector<Lang> t = texts[i % 3];
        balanced("descriptions", [&] {
            PartyM p{"p", i & 1 ? t : vector<Lang>{}, i & 2 ? "ab" : "", i & 4 ? "red" : "", i & 8 ? "uri" : ""};
            auto *h = cParty(p, i & 16);
            expect(shParty(h) == wantParty(p), "a party made through the C interface differs from the one of the C++ call");
            FREE(eg_party_free, h);
            CandM c{"c", i & 1 ? t : vector<Lang>{}, i & 2 ? "p" : "", i & 4 ? "uri" : "", (i & 8) != 0};
            auto *g = cCand(c, i & 16);
            expect(shCand(g) == wantCand(c), "a candidate made through the C interface differs from the one of the C++ call", shCand(g) + " instead of " + wantCand(c));
            FREE(eg_candidate_free, g);
            ContactM k{i & 1 ? vector<string>{"l1", "l2"} : vector<string>{}, i & 2 ? vector<Ann>{{"a", "b"}} : vector<Ann>{}, i & 4 ? vector<Ann>{{"c", "d"}, {"", ""}} : vector<Ann>{}, i & 8 ? "name" : ""};
            auto *f = cContact(k);
            expect(shContact(f) == wantContact(k), "contact information made through the C interface differs from that of the C++ call", shContact(f) + " instead of " + wantContact(k));
            FREE(eg_contact_information_free, f);
            ContactM k2{{}, {}, {}, k.name};
            f = cContact(k2, true);
            expect(shContact(f) == wantContact(k2), "contact information made through the C interface differs from that of the C++ call");
            FREE(eg_contact_information_free, f);
            auto *x = cText(t);
            expect(shText(x) == model::str(Txt(t)), "a text made through the C interface differs from the one of the C++ call");
            expect(takeQ(obtain<eg_element_mod_q_t>("eg_intertnationalized_text_crypto_hash", [&](eg_element_mod_q_t **o) { return eg_intertnationalized_text_crypto_hash((eg_language_t *)x, o); })) == hTxt(t), "eg_intertnationalized_text_crypto_hash gives another result than the C++ call");
            FREE(eg_internationalized_text_free, x);
        });
        mc::state("description " + to_string(i));
    });
}

static void ballots(bool quick)
{
    // plaintext ballots
    Space sp;
    shapes(sp, 2, {-1, 0, 1, 2}, false);
    vector<Bal> v;
    std::set<string> seen;
    for (auto &c : sp.cases)
        if (seen.insert(c.b.str()).second)
            v.push_back(c.b);
    v.push_back({"", "", {}});
    v.push_back({"b", "s", {{"", {}}, {"c", {{"x", 1, "a write-in", false}, {"y", 0, "", true}}}}});
    v.push_back({"b", "s", {{"c", {{"x", ~0ull, "", false}}}}});
    mc::for_all("plaintext ballots", v.size(), [&](uint64_t i) {
        balanced("plaintext ballots", [&] {
            auto cpp = v[i].build();
            auto *h = cBal(v[i]);
            string s = shBal(h), want = wantBal(*cpp);
            expect(s == want, "eg_plaintext_ballot_new gives another ballot than the C++ call", s + " instead of " + want);
            string j = JSON(eg_plaintext_ballot_to_json, h);
            auto b = LIKE(eg_plaintext_ballot_to_bson, h, cpp->toBson()), p = BYTES(eg_plaintext_ballot_to_msgpack, h);
            expect(j == cpp->toJson(), "eg_plaintext_ballot_to_json gives another result than the C++ call");
            expect(p == cpp->toMsgPack(), "eg_plaintext_ballot_to_msgpack gives another result than the C++ call");
            FREE(eg_plaintext_ballot_free, h);
            typedef eg_plaintext_ballot_t T;
            auto show = [&](T *x) {
                string r = shBal(x);
                FREE(eg_plaintext_ballot_free, x);
                return r;
            };
            agree<T>("eg_plaintext_ballot_from_json", [&](T **o) { return eg_plaintext_ballot_from_json(C(j), o); }, [&] { return wantBal(*eg::PlaintextBallot::fromJson(j)); }, show);
            agree<T>("eg_plaintext_ballot_from_bson", [&](T **o) { return eg_plaintext_ballot_from_bson(b.data(), b.size(), o); }, [&] { return wantBal(*eg::PlaintextBallot::fromBson(b)); }, show);
            agree<T>("eg_plaintext_ballot_from_msgpack", [&](T **o) { return eg_plaintext_ballot_from_msgpack(p.data(), p.size(), o); }, [&] { return wantBal(*eg::PlaintextBallot::fromMsgPack(p)); }, show);
        });
        mc::state("plaintext " + v[i].str());
    });
    vector<string> data = {"", "a", "write-in text"};
    mc::for_all("extended data", data.size(), [&](uint64_t i) {
        balanced("extended data", [&] {
            auto *h = obtain<eg_extended_data_t>("eg_extended_data_new", [&](eg_extended_data_t **o) { return eg_extended_data_new(C(data[i]), data[i].size(), o); });
            expect(TEXT(eg_extended_data_get_value, h) == data[i], "eg_extended_data_get_value gives another text");
            expect(eg_extended_data_get_length(h) == data[i].size(), "eg_extended_data_get_length gives another length");
            FREE(eg_extended_data_free, h);
        });
    });

    // encryption
    ManM m;
    m.units = {{"u", "n"}, {"v", "n"}};
    m.styles = {{"style", {"u"}}, {"both", {"v", "u"}}};
    m.cons = {contest("con", "u", 3, 1, 1, {0, 1}, 6), contest("con2", "v", 1, 1, 1, {0})};
    m.cands.push_back({"w", {}, "", "", false});
    addCandidates(m, {"con-s1"});
    static Election el(m);
    Ctx x{el.pub, el.ext, 12345};
    // warm up
    eg::encryptBallot(*Bal{"w", "style", {}}.build(), *el.internal, *el.context, *ref::mkQ(5), ref::mkQ(5), 1, false);
    string im = el.internal->toJson(), ctx = el.context->toJson();
    auto cInt = [&] { return obtain<eg_internal_manifest_t>("eg_internal_manifest_from_json", [&](eg_internal_manifest_t **o) { return eg_internal_manifest_from_json(C(im), o); }); };
    auto cCtx = [&] { return obtain<TC>("eg_ciphertext_election_context_from_json", [&](TC **o) { return eg_ciphertext_election_context_from_json(C(ctx), o); }); };

    mc::for_all("selections", 4 * 2 * 2 * 2, [&](uint64_t i) {
        uint64_t vote = i % 4;
        bool ph = i / 4 % 2, ver = i / 8 % 2, wrong = i / 16;
        SelM d{"con-s0", "con-s0-cand", 0};
        auto body = [&] {
            HP PK(el.pub);
            HQ EX(el.ext), NS(991);
            auto *p = obtain<eg_plaintext_ballot_selection_t>("eg_plaintext_ballot_selection_new", [&](eg_plaintext_ballot_selection_t **o) { return eg_plaintext_ballot_selection_new(wrong ? "else" : "con-s0", vote, ph, o); });
            auto *D = cSel(d);
            typedef eg_ciphertext_ballot_selection_t T;
            agree<T>("eg_encrypt_selection", [&](T **o) { return eg_encrypt_selection(p, D, PK, EX, NS, ph, ver, o); },
                     [&] {
                         eg::PlaintextBallotSelection ps(wrong ? "else" : "con-s0", vote, ph);
                         auto c = eg::encryptSelection(ps, *d.build(), *ref::mkP(el.pub), *ref::mkQ(el.ext), *ref::mkQ(991), ph, ver);
                         return wantCSel(*c, x);
                     },
                     [&](T *h) {
                         FREE(eg_plaintext_ballot_selection_free, p);
                         FREE(eg_selection_description_free, D);
                         p = nullptr;
                         string s = shCSel(h, x);
                         FREE(eg_ciphertext_ballot_selection_free, h);
                         return s;
                     });
            if (p) {
                FREE(eg_plaintext_ballot_selection_free, p);
                FREE(eg_selection_description_free, D);
            }
        };
        if (quick && !wrong && vote < 2)
            body();
        else
            balanced("selections", body);
        mc::state("selection " + to_string(i));
    });
    // contests: votes for two selections, write-in
    mc::for_all("contests", 3 * 3 * 2 + 1, [&](uint64_t i) {
        uint64_t a = i % 3, b = i / 3 % 3;
        BCon k{"con", {}};
        if (a < 2)
            k.sels.push_back({"con-s0", a});
        if (b < 2)
            k.sels.push_back({"con-s1", b, i / 9 && b ? "somebody" : ""});
        if (i == 18)
            k = {"con", {{"con-s0", 7}}};
        HP PK(el.pub);
        HQ EX(el.ext), NS(992);
        auto *in = cInt();
        auto *c = cBCon(k);
        // the contest of the internal manifest (sorted by sequence order)
        eg_contest_description_with_placeholders_t *D = nullptr;
        for (uint64_t n = 0; n < eg_internal_manifest_get_contests_size(in); n++) {
            auto *q = REFAT(eg_contest_description_with_placeholders_t, eg_internal_manifest_get_contest_at_index, in, n);
            if (CTEXT(eg_contest_description_get_object_id, (eg_contest_description_t *)q) == "con")
                D = q;
        }
        typedef eg_ciphertext_ballot_contest_t T;
        agree<T>("eg_encrypt_contest", [&](T **o) { return eg_encrypt_contest(c, in, D, PK, EX, NS, false, o); },
                 [&] {
                     auto cons = el.internal->getContests();
                     size_t n = 0;
                     while (cons[n].get().getObjectId() != "con")
                         n++;
                     auto bal = Bal{"b", "style", {k}}.build();
                     auto r = eg::encryptContest(bal->getContests()[0].get(), *el.internal, cons[n].get(), *ref::mkP(el.pub), *ref::mkQ(el.ext), *ref::mkQ(992), false);
                     return wantCCon(*r, x);
                 },
                 [&](T *h) {
                     FREE(eg_plaintext_ballot_contest_free, c);
                     FREE(eg_internal_manifest_free, in);
                     c = nullptr;
                     string s = shCCon(h, x);
                     FREE(eg_ciphertext_ballot_contest_free, h);
                     return s;
                 });
        if (c) {
            FREE(eg_plaintext_ballot_contest_free, c);
            FREE(eg_internal_manifest_free, in);
        }
        mc::state("contest ballot " + to_string(i));
    });
    // ballots with a nonce, in all orders of release of what was given
    vector<Bal> bl = {{"b1", "style", {{"con", {{"con-s0", 1}}}}}, {"b2", "both", {{"con2", {{"con2-s0", 1}}}, {"con", {{"con-s0", 1}, {"con-s1", 1}}}}}, {"b3", "nowhere", {}}, {"b4", "style", {{"con", {{"con-s0", 5}}}}}};
    auto order = [](uint64_t n, int k) {
        vector<int> left, r;
        for (int i = 0; i < k; i++)
            left.push_back(i);
        for (int i = k; i > 0; i--) {
            r.push_back(left[n % i]);
            left.erase(left.begin() + n % i);
            n /= i;
        }
        return r;
    };
    mc::for_all("encryptions", bl.size() * 120, [&](uint64_t i) {
        auto &b = bl[i % bl.size()];
        uint64_t perm = i / bl.size();
        // every order of release with the ballots that are refused at once; a few with the others
        bool cheap = i % bl.size() >= 2;
        if (!cheap && perm % (quick ? 60 : 12))
            return;
        auto *in = cInt();
        auto *cx = cCtx();
        auto *p = cBal(b);
        auto *seed = mkq(5), *nonce = mkq(4242);
        typedef eg_ciphertext_ballot_t T;
        auto release = [&] {
            for (int o : order(perm, 5))
                switch (o) {
                    case 0: FREE(eg_internal_manifest_free, in); break;
                    case 1: FREE(eg_ciphertext_election_context_free, cx); break;
                    case 2: FREE(eg_plaintext_ballot_free, p); break;
                    case 3: FREE(eg_element_mod_q_free, seed); break;
                    default: FREE(eg_element_mod_q_free, nonce);
                }
        };
        bool shown = false;
        agree<T>("eg_encrypt_ballot_with_nonce", [&](T **o) { return eg_encrypt_ballot_with_nonce(p, in, cx, seed, nonce, false, o); },
                 [&] {
                     auto r = eg::encryptBallot(*b.build(), *el.internal, *el.context, *ref::mkQ(5), ref::mkQ(4242), 0, false);
                     return wantCBal(*r, x, false);
                 },
                 [&](T *h) {
                     expect(hexQ(nonce) == hex(Z(4242)) && hexQ(seed) == hex(Z(5)), "a handle loses its value when a ballot is encrypted with it");
                     release();
                     shown = true;
                     string s = shCBal(h, x, false);
                     string j = JSON(eg_ciphertext_ballot_to_json, h), jn = JSON(eg_ciphertext_ballot_to_json_with_nonces, h);
                     auto bb = BYTES(eg_ciphertext_ballot_to_bson, h), bn = BYTES(eg_ciphertext_ballot_to_bson_with_nonces, h);
                     auto mb = BYTES(eg_ciphertext_ballot_to_msgpack, h), mn = BYTES(eg_ciphertext_ballot_to_msgpack_with_nonces, h);
                     auto cpp = eg::CiphertextBallot::fromJson(jn);
                     expect(cpp->toJson(false) == j, "eg_ciphertext_ballot_to_json gives another result than the C++ call");
                     expect(cpp->toJson(true) == jn, "eg_ciphertext_ballot_to_json_with_nonces gives another result than the C++ call");
                     expect(cpp->toBson(false) == bb, "eg_ciphertext_ballot_to_bson gives another result than the C++ call");
                     expect(cpp->toBson(true) == bn, "eg_ciphertext_ballot_to_bson_with_nonces gives another result than the C++ call");
                     expect(cpp->toMsgPack(false) == mb, "eg_ciphertext_ballot_to_msgpack gives another result than the C++ call");
                     expect(cpp->toMsgPack(true) == mn, "eg_ciphertext_ballot_to_msgpack_with_nonces gives another result than the C++ call");
                     string full = shCBal(h, x, true);
                     expect(full == wantCBal(*cpp, x, true), "an encrypted ballot shows other values than it serialises");
                     auto take = [&](T *g) {
                         string t = shCBal(g, x, true);
                         FREE(eg_ciphertext_ballot_free, g);
                         return t;
                     };
                     string wo = wantCBal(*eg::CiphertextBallot::fromJson(j), x, true);
                     if (perm == 0) {
                         agree<T>("eg_ciphertext_ballot_from_json", [&](T **o) { return eg_ciphertext_ballot_from_json(C(jn), o); }, [&] { return full; }, take);
                         agree<T>("eg_ciphertext_ballot_from_bson", [&](T **o) { return eg_ciphertext_ballot_from_bson(bn.data(), bn.size(), o); }, [&] { return full; }, take);
                         agree<T>("eg_ciphertext_ballot_from_msgpack", [&](T **o) { return eg_ciphertext_ballot_from_msgpack(mn.data(), mn.size(), o); }, [&] { return full; }, take);
                         agree<T>("eg_ciphertext_ballot_from_json", [&](T **o) { return eg_ciphertext_ballot_from_json(C(j), o); }, [&] { return wo; }, take);
                     }
                     // submission
                     typedef eg_submitted_ballot_t SB;
                     for (auto st : {ELECTIONGUARD_BALLOT_BOX_STATE_CAST, ELECTIONGUARD_BALLOT_BOX_STATE_SPOILED, ELECTIONGUARD_BALLOT_BOX_STATE_UNKNOWN}) {
                         auto src = eg::CiphertextBallot::fromJson(jn);
                         auto sc = eg::SubmittedBallot::from(*src, (eg::BallotBoxState)st);
                         auto *sh = obtain<SB>("eg_submitted_ballot_from", [&](SB **o) { return eg_submitted_ballot_from(h, st, o); });
                         expect(eg_submitted_ballot_get_state(sh) == st, "eg_submitted_ballot_get_state gives another state");
                         string sj = JSON(eg_submitted_ballot_to_json, sh);
                         auto s1 = BYTES(eg_submitted_ballot_to_bson, sh), s2 = BYTES(eg_submitted_ballot_to_msgpack, sh);
                         expect(sj == sc->toJson(), "eg_submitted_ballot_to_json gives another result than the C++ call");
                         expect(s1 == sc->toBson(), "eg_submitted_ballot_to_bson gives another result than the C++ call");
                         expect(s2 == sc->toMsgPack(), "eg_submitted_ballot_to_msgpack gives another result than the C++ call");
                         auto takeS = [&](SB *g) {
                             string t = to_string((int)eg_submitted_ballot_get_state(g)) + JSON(eg_submitted_ballot_to_json, g);
                             FREE(eg_submitted_ballot_free, g);
                             return t;
                         };
                         auto wantS = [&] { return to_string((int)st) + sj; };
                         agree<SB>("eg_submitted_ballot_from_json", [&](SB **o) { return eg_submitted_ballot_from_json(C(sj), o); }, wantS, takeS);
                         agree<SB>("eg_submitted_ballot_from_bson", [&](SB **o) { return eg_submitted_ballot_from_bson(s1.data(), s1.size(), o); }, wantS, takeS);
                         agree<SB>("eg_submitted_ballot_from_msgpack", [&](SB **o) { return eg_submitted_ballot_from_msgpack(s2.data(), s2.size(), o); }, wantS, takeS);
                         FREE(eg_submitted_ballot_free, sh);
                     }
                     FREE(eg_ciphertext_ballot_free, h);
                     return s;
                 });
        if (!shown)
            release();
        mc::state("encryption " + to_string(i));
    });
    // the other ways of encrypting; what they give can be checked by the election's key
    mc::for_all("ways of encrypting", bl.size() * 7, [&](uint64_t i) {
        auto &b = bl[i % bl.size()];
        int way = (int)(i / bl.size());
        bool good = true;
        try {
            eg::encryptBallot(*b.build(), *el.internal, *el.context, *ref::mkQ(5), ref::mkQ(4242), 0, false);
        } catch (const std::exception &) {
            good = false;
        }
        auto *in = cInt();
        auto *cx = cCtx();
        auto *p = cBal(b);
        auto *seed = mkq(5), *nonce = mkq(4242);
        auto *dev = obtain<eg_encryption_device_t>("eg_encryption_device_new", [&](eg_encryption_device_t **o) { return eg_encryption_device_new(1, 2, 3, "here", o); });
        auto *med = obtain<eg_encryption_mediator_t>("eg_encryption_mediator_new", [&](eg_encryption_mediator_t **o) { return eg_encryption_mediator_new(in, cx, dev, o); });
        static const char *names[] = {"eg_encrypt_ballot", "eg_encrypt_ballot_with_nonce", "eg_encryption_mediator_encrypt_ballot", "eg_encryption_mediator_encrypt_ballot_verify_proofs", "eg_encrypt_compact_ballot", "eg_encrypt_compact_ballot_with_nonce", "eg_encryption_mediator_compact_encrypt_ballot"};
        typedef eg_ciphertext_ballot_t T;
        typedef eg_compact_ciphertext_ballot_t TK;
        auto full = [&](T **o) {
            switch (way) {
                case 0: return eg_encrypt_ballot(p, in, cx, seed, true, o);
                case 1: return eg_encrypt_ballot_with_nonce(p, in, cx, seed, nullptr, true, o);
                case 2: return eg_encryption_mediator_encrypt_ballot(med, p, o);
                default: return eg_encryption_mediator_encrypt_ballot_verify_proofs(med, p, o);
            }
        };
        auto compact = [&](TK **o) {
            switch (way) {
                case 4: return eg_encrypt_compact_ballot(p, in, cx, seed, true, o);
                case 5: return eg_encrypt_compact_ballot_with_nonce(p, in, cx, seed, nonce, true, o);
                default: return i % 2 ? eg_encryption_mediator_compact_encrypt_ballot_verify_proofs(med, p, o) : eg_encryption_mediator_compact_encrypt_ballot(med, p, o);
            }
        };
        string devHash = eg::BallotCode::getHashForDevice(1, 2, 3, "here")->toHex();
        auto marks = [&](const eg::CiphertextBallot &e) {
            string s;
            for (auto c : e.getContests())
                for (auto q : c.get().getSelections())
                    s += q.get().getObjectId() + "=" + to_string(el.dec(*q.get().getCiphertext())) + ",";
            return s;
        };
        if (way < 4) {
            if (!good)
                refuse<T>(names[way], full);
            else {
                T *h = obtain<T>(names[way], full);
                auto e = eg::CiphertextBallot::fromJson(JSON(eg_ciphertext_ballot_to_json_with_nonces, h));
                auto want = eg::encryptBallot(*b.build(), *el.internal, *el.context, *ref::mkQ(5), ref::mkQ(4242), 0, false);
                expect(marks(*e) == marks(*want), string(names[way]) + " encrypts other votes than the C++ call");
                expect(e->isValidEncryption(*ref::mkQ(el.mhash), *ref::mkP(el.pub), *ref::mkQ(el.ext)), string(names[way]) + " gives a ballot that does not verify");
                expect(e->getBallotCodeSeed()->toHex() == (way >= 2 ? devHash : hex(Z(5))), string(names[way]) + " chains to another code");
                if (way >= 2) {
                    // the next ballot is chained to this one, also after a ballot that was refused
                    auto *bad = cBal(bl[2]);
                    refuse<T>(names[way], [&](T **o) { return way == 2 ? eg_encryption_mediator_encrypt_ballot(med, bad, o) : eg_encryption_mediator_encrypt_ballot_verify_proofs(med, bad, o); });
                    FREE(eg_plaintext_ballot_free, bad);
                    T *g = obtain<T>(names[way], full);
                    expect(hexQ(REF(eg_element_mod_q_t, eg_ciphertext_ballot_get_ballot_code_seed, g)) == hexQ(REF(eg_element_mod_q_t, eg_ciphertext_ballot_get_ballot_code, h)), string(names[way]) + " does not chain ballots");
                    FREE(eg_ciphertext_ballot_free, g);
                }
                FREE(eg_ciphertext_ballot_free, h);
            }
        } else {
            if (!good)
                refuse<TK>(names[way], compact);
            else {
                TK *h = obtain<TK>(names[way], compact);
                expect(TEXT(eg_compact_ciphertext_ballot_get_object_id, h) == b.id, "eg_compact_ciphertext_ballot_get_object_id gives another name");
                auto d = bytesOf("eg_compact_ciphertext_ballot_to_msgpack", [&](uint8_t **o, uint64_t *n) { return eg_compact_ciphertext_ballot_to_msgpack(h, o, n); });
                auto e = eg::CompactCiphertextBallot::fromMsgPack(d);
                expect(e->toMsgPack() == d, "eg_compact_ciphertext_ballot_to_msgpack gives another result than the C++ call");
                auto x1 = eg::expandCompactCiphertextBallot(*e, *el.internal, *el.context);
                auto want = eg::encryptBallot(*b.build(), *el.internal, *el.context, *ref::mkQ(5), ref::mkQ(4242), 0, false);
                expect(marks(*x1) == marks(*want), string(names[way]) + " encrypts other votes than the C++ call");
                auto *g = obtain<TK>("eg_compact_ciphertext_ballot_from_msgpack", [&](TK **o) { return eg_compact_ciphertext_ballot_from_msgpack(d.data(), d.size(), o); });
                uint8_t *raw = nullptr;
                uint64_t n = 0;
                done("eg_compact_ciphertext_ballot_to_msgpack", eg_compact_ciphertext_ballot_to_msgpack(g, &raw, &n));
                expect(raw && vector<uint8_t>(raw, raw + n) == d, "eg_compact_ciphertext_ballot_from_msgpack gives another ballot");
                done("eg_compact_ciphertext_ballot_msgpack_free", eg_compact_ciphertext_ballot_msgpack_free(raw));
                FREE(eg_compact_ciphertext_ballot_free, g);
                FREE(eg_compact_ciphertext_ballot_free, h);
                // the compact plaintext inside
                auto cp = eg::CompactPlaintextBallot::make(*b.build())->toMsgPack();
                typedef eg_compact_plaintext_ballot_t PB;
                auto *pb = obtain<PB>("eg_compact_plaintext_ballot_from_msgpack", [&](PB **o) { return eg_compact_plaintext_ballot_from_msgpack(cp.data(), cp.size(), o); });
                done("eg_compact_plaintext_ballot_to_msgpack", eg_compact_plaintext_ballot_to_msgpack(pb, &raw, &n));
                expect(raw && vector<uint8_t>(raw, raw + n) == cp, "eg_compact_plaintext_ballot_to_msgpack gives another result than the C++ call");
                done("eg_compact_plaintext_ballot_msgpack_free", eg_compact_plaintext_ballot_msgpack_free(raw));
                FREE(eg_compact_plaintext_ballot_free, pb);
            }
        }
        // the mediator refers to what it was made from: it goes first
        FREE(eg_encryption_mediator_free, med);
        FREE(eg_encryption_device_free, dev);
        FREE(eg_internal_manifest_free, in);
        FREE(eg_ciphertext_election_context_free, cx);
        FREE(eg_plaintext_ballot_free, p);
        FREE(eg_element_mod_q_free, seed);
        FREE(eg_element_mod_q_free, nonce);
        mc::state("way " + to_string(i));
    });
    // a mediator for another election
    mc::for_all("mediators", 2, [&](uint64_t i) {
        balanced("mediators", [&] {
            auto *in = cInt();
            auto other = eg::CiphertextElectionContext::make(1, 1, ref::mkP(el.pub), ref::mkQ(7), ref::mkQ(i ? 1 : 0))->toJson();
            auto *cx = obtain<TC>("eg_ciphertext_election_context_from_json", [&](TC **o) { return eg_ciphertext_election_context_from_json(C(other), o); });
            auto *dev = obtain<eg_encryption_device_t>("eg_encryption_device_new", [&](eg_encryption_device_t **o) { return eg_encryption_device_new(1, 2, 3, "here", o); });
            refuse<eg_encryption_mediator_t>("eg_encryption_mediator_new", [&](eg_encryption_mediator_t **o) { return eg_encryption_mediator_new(in, cx, dev, o); });
            FREE(eg_encryption_device_free, dev);
            FREE(eg_internal_manifest_free, in);
            FREE(eg_ciphertext_election_context_free, cx);
        });
    });
    // buffers of precomputed values
    mc::for_all("precomputed values", 3, [&](uint64_t i) {
        int max = (int)i + 1;
        HP PK(el.pub);
        int n = -1, q = -1;
        done("eg_precompute_init", eg_precompute_init(max));
        done("eg_precompute_status", eg_precompute_status(&n, &q));
        expect(n == 0 && q == max, "eg_precompute_status gives wrong counts", to_string(n) + "/" + to_string(q));
        done("eg_precompute_populate", eg_precompute_populate(PK));
        done("eg_precompute_status", eg_precompute_status(&n, &q));
        expect((uint32_t)n == eg::PrecomputeBufferContext::get_current_queue_size() && q == max && n > 0, "eg_precompute_status gives wrong counts", to_string(n) + "/" + to_string(q));
        done("eg_precompute_stop", eg_precompute_stop());
        done("eg_precompute_init", eg_precompute_init(0));
    });
}

// every input cut short, and every byte replaced by a few others
static void cut(bool quick)
{
    ManM m;
    m.units = {{"u", "n"}};
    m.styles = {{"s", {"u"}}};
    m.cons = {contest("c", "u", 0, 1, 1, {0})};
    addCandidates(m);
    static Election el(m);
    auto e = eg::encryptBallot(*Bal{"b", "s", {{"c", {{"c-s0", 1}}}}}.build(), *el.internal, *el.context, *ref::mkQ(5), ref::mkQ(6), 1, false);
    auto sub = eg::SubmittedBallot::from(*e, eg::BallotBoxState::cast);
    auto pb = Bal{"b", "s", {{"c", {{"c-s0", 1}}}}}.build();
    auto kp = eg::CompactPlaintextBallot::make(*pb);
    auto kc = eg::encryptCompactBallot(*pb, *el.internal, *el.context, *ref::mkQ(5), ref::mkQ(6), 1, false);
    typedef std::function<string(const vector<uint8_t> &)> Dec; // C++: what it reads, or an exception
    struct In {
        string name;
        vector<uint8_t> data;
        std::function<St(uint8_t *, uint64_t, void **)> c;
        std::function<string(void *)> show;
        Dec cpp;
        uint64_t upto = 0;
    };
    vector<In> in;
    auto j = [](const string &s) {
        vector<uint8_t> v(s.begin(), s.end());
        return v;
    };
    auto js = [](const vector<uint8_t> &v) { return string(v.begin(), v.end()); };
#define TEXTIN(NAME, T, OBJ, CLS, FROM, SHOW, WANT, FR)                                                                                               \
    in.push_back({#FROM, j((OBJ)->toJson()), [=](uint8_t *d, uint64_t n, void **o) { return FROM(C(string((char *)d, n)), (T **)o); },               \
                  [=](void *h) {                                                                                                                       \
                      string s = SHOW((T *)h);                                                                                                         \
                      FREE(FR, (T *)h);                                                                                                                \
                      return s;                                                                                                                        \
                  },                                                                                                                                   \
                  [=](const vector<uint8_t> &v) { return WANT(*CLS::fromJson(js(v).c_str())); }});
#define BYTEIN(T, OBJ, CLS, TO, CFROM, FROM, SHOW, WANT, FR)                                                                                          \
    in.push_back({#FROM, (OBJ)->TO(), [=](uint8_t *d, uint64_t n, void **o) { return FROM(d, n, (T **)o); },                                          \
                  [=](void *h) {                                                                                                                       \
                      string s = SHOW((T *)h);                                                                                                         \
                      FREE(FR, (T *)h);                                                                                                                \
                      return s;                                                                                                                        \
                  },                                                                                                                                   \
                  [=](const vector<uint8_t> &v) { return WANT(*CLS::CFROM(v)); }});
    auto iShow = [](eg_internal_manifest_t *h) { return JSON(eg_internal_manifest_to_json, h); };
    auto iWant = [](eg::InternalManifest &x) { return x.toJson(); };
    auto mShow = [](eg_election_manifest_t *h) { return JSON(eg_election_manifest_to_json, h); };
    auto mWant = [](eg::Manifest &x) { return x.toJson(); };
    auto pShow = [](eg_plaintext_ballot_t *h) { return JSON(eg_plaintext_ballot_to_json, h); };
    auto pWant = [](eg::PlaintextBallot &x) { return x.toJson(); };
    auto cShow = [](eg_ciphertext_ballot_t *h) { return JSON(eg_ciphertext_ballot_to_json, h); };
    auto cWant = [](eg::CiphertextBallot &x) { return x.toJson(false); };
    auto sShow = [](eg_submitted_ballot_t *h) { return JSON(eg_submitted_ballot_to_json, h); };
    auto sWant = [](eg::SubmittedBallot &x) { return x.toJson(); };
    auto xShow = [](TC *h) { return JSON(eg_ciphertext_election_context_to_json, h); };
    auto xWant = [](eg::CiphertextElectionContext &x) { return x.toJson(); };
    auto dShow = [](eg_encryption_device_t *h) { return JSON(eg_encryption_device_to_json, h); };
    auto dWant = [](eg::EncryptionDevice &x) { return x.toJson(); };
    eg::EncryptionDevice dev(1, 2, 3, "here");
    auto *dv = &dev;
    TEXTIN(d, eg_encryption_device_t, dv, eg::EncryptionDevice, eg_encryption_device_from_json, dShow, dWant, eg_encryption_device_free)
    TEXTIN(x, TC, el.context, eg::CiphertextElectionContext, eg_ciphertext_election_context_from_json, xShow, xWant, eg_ciphertext_election_context_free)
    TEXTIN(m, eg_election_manifest_t, el.manifest, eg::Manifest, eg_election_manifest_from_json, mShow, mWant, eg_election_manifest_free)
    TEXTIN(i, eg_internal_manifest_t, el.internal, eg::InternalManifest, eg_internal_manifest_from_json, iShow, iWant, eg_internal_manifest_free)
    TEXTIN(p, eg_plaintext_ballot_t, pb, eg::PlaintextBallot, eg_plaintext_ballot_from_json, pShow, pWant, eg_plaintext_ballot_free)
    TEXTIN(c, eg_ciphertext_ballot_t, e, eg::CiphertextBallot, eg_ciphertext_ballot_from_json, cShow, cWant, eg_ciphertext_ballot_free)
    TEXTIN(s, eg_submitted_ballot_t, sub, eg::SubmittedBallot, eg_submitted_ballot_from_json, sShow, sWant, eg_submitted_ballot_free)
    BYTEIN(TC, el.context, eg::CiphertextElectionContext, toBson, fromBson, eg_ciphertext_election_context_from_bson, xShow, xWant, eg_ciphertext_election_context_free)
    BYTEIN(eg_election_manifest_t, el.manifest, eg::Manifest, toBson, fromBson, eg_election_manifest_from_bson, mShow, mWant, eg_election_manifest_free)
    BYTEIN(eg_election_manifest_t, el.manifest, eg::Manifest, toMsgPack, fromMsgPack, eg_election_manifest_from_msgpack, mShow, mWant, eg_election_manifest_free)
    BYTEIN(eg_internal_manifest_t, el.internal, eg::InternalManifest, toBson, fromBson, eg_internal_manifest_from_bson, iShow, iWant, eg_internal_manifest_free)
    BYTEIN(eg_internal_manifest_t, el.internal, eg::InternalManifest, toMsgPack, fromMsgPack, eg_internal_manifest_from_msgpack, iShow, iWant, eg_internal_manifest_free)
    BYTEIN(eg_plaintext_ballot_t, pb, eg::PlaintextBallot, toBson, fromBson, eg_plaintext_ballot_from_bson, pShow, pWant, eg_plaintext_ballot_free)
    BYTEIN(eg_plaintext_ballot_t, pb, eg::PlaintextBallot, toMsgPack, fromMsgPack, eg_plaintext_ballot_from_msgpack, pShow, pWant, eg_plaintext_ballot_free)
    BYTEIN(eg_ciphertext_ballot_t, e, eg::CiphertextBallot, toBson, fromBson, eg_ciphertext_ballot_from_bson, cShow, cWant, eg_ciphertext_ballot_free)
    BYTEIN(eg_ciphertext_ballot_t, e, eg::CiphertextBallot, toMsgPack, fromMsgPack, eg_ciphertext_ballot_from_msgpack, cShow, cWant, eg_ciphertext_ballot_free)
    BYTEIN(eg_submitted_ballot_t, sub, eg::SubmittedBallot, toBson, fromBson, eg_submitted_ballot_from_bson, sShow, sWant, eg_submitted_ballot_free)
    BYTEIN(eg_submitted_ballot_t, sub, eg::SubmittedBallot, toMsgPack, fromMsgPack, eg_submitted_ballot_from_msgpack, sShow, sWant, eg_submitted_ballot_free)
    auto kpShow = [](eg_compact_plaintext_ballot_t *h) { return sb(BYTES(eg_compact_plaintext_ballot_to_msgpack, h)); };
    auto kpWant = [](eg::CompactPlaintextBallot &x) { return sb(x.toMsgPack()); };
    auto kcShow = [](eg_compact_ciphertext_ballot_t *h) { return sb(BYTES(eg_compact_ciphertext_ballot_to_msgpack, h)); };
    auto kcWant = [](eg::CompactCiphertextBallot &x) { return sb(x.toMsgPack()); };
    BYTEIN(eg_compact_plaintext_ballot_t, kp, eg::CompactPlaintextBallot, toMsgPack, fromMsgPack, eg_compact_plaintext_ballot_from_msgpack, kpShow, kpWant, eg_compact_plaintext_ballot_free)
    BYTEIN(eg_compact_ciphertext_ballot_t, kc, eg::CompactCiphertextBallot, toMsgPack, fromMsgPack, eg_compact_ciphertext_ballot_from_msgpack, kcShow, kcWant, eg_compact_ciphertext_ballot_free)
    // positions: of long inputs every `stride`-th
    struct Job {
        int in;
        uint64_t pos;
        int how; // 0 cut, 1 and 2 replace
    };
    vector<Job> jobs;
    for (size_t i = 0; i < in.size(); i++) {
        uint64_t n = in[i].data.size(), most = quick ? 400 : 6000;
        uint64_t stride = n <= most ? 1 : n / most + 1;
        for (int how = 0; how < (quick ? 2 : 3); how++)
            for (uint64_t p = 0; p < n; p += stride)
                jobs.push_back({(int)i, p, how});
    }
    uint64_t block = 32;
    mc::for_all("damaged inputs", (jobs.size() + block - 1) / block, [&](uint64_t b) {
        for (uint64_t i = b * block; i < jobs.size() && i < (b + 1) * block; i++) {
            auto &J = jobs[i];
            auto &I = in[J.in];
            auto d = I.data;
            if (J.how == 0)
                d.resize(J.pos);
            else
                d[J.pos] = J.how == 1 ? (uint8_t)(d[J.pos] ^ 0x01) : (uint8_t)0x80;
            mc::desc("damaged inputs:" + to_string(b) + " " + I.name + (J.how ? " byte " : " cut at ") + to_string(J.pos));
            balanced(I.name + " refusing an input", [&] {
                // a buffer of exactly this size
                vector<uint8_t> exact(d);
                exact.shrink_to_fit();
                agree<void>(I.name, [&](void **o) { return I.c(exact.data(), exact.size(), o); }, [&] { return I.cpp(d); }, I.show);
            });
            mc::state("damaged " + to_string(i));
        }
    });
}

int main(int argc, char **argv)
{
    mc::init(argc, argv);
    bool quick = mc::opt().quick();
    __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
    lists(quick);
    group();
    hashes();
    crypto(quick);
    contexts();
    manifest(quick);
    ballots(quick);
    cut(quick);
    return mc::finish();
}
