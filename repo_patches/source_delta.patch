From 62469ffb60a9a32723ee5ad17d3cec35bcfa0620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:21 +0000
Subject: [PATCH 01/57] fix: add_mod_p offsets an overflowing sum by 2^4096 -
 P, not by 2^256 - Q

The carry path added the 4-limb offset of Q (and read past its end), so the
sum of two reduced elements that overflows 4096 bits came out wrong.
---
 src/electionguard/group.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 4794df2..19ae52f 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -547,7 +547,7 @@ namespace electionguard
 
             } else {
                 Bignum4096::add(static_cast<uint64_t *>(addResult),
-                                const_cast<uint64_t *>(Q_ARRAY_INVERSE_OFFSET),
+                                const_cast<uint64_t *>(P_ARRAY_INVERSE_OFFSET),
                                 static_cast<uint64_t *>(addResult));
             }
         }
-- 
2.43.0


From 92363ff83fb6d6774322b77ae4c7cf0e872aa827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:21 +0000
Subject: [PATCH 02/57] fix: mod_p widens its operand before reducing it

The reduction reads a double-width operand; passing the element itself read
512 bytes past it and returned a value depending on unrelated memory.
---
 src/electionguard/group.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 19ae52f..36b93a9 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -559,8 +559,11 @@ namespace electionguard
 
     std::unique_ptr<ElementModP> mod_p(const ElementModP &element)
     {
+        // the bignum mod operation reads a double-width operand
+        uint64_t value[MAX_P_LEN_DOUBLE] = {};
+        copy(element.get(), element.get() + MAX_P_LEN, static_cast<uint64_t *>(value));
         uint64_t modResult[MAX_P_LEN] = {};
-        CONTEXT_P().mod(element.get(), static_cast<uint64_t *>(modResult));
+        CONTEXT_P().mod(static_cast<uint64_t *>(value), static_cast<uint64_t *>(modResult));
         return make_unique<ElementModP>(modResult, true);
     }
 
-- 
2.43.0


From aa00ca7f61acfbe1d5e5abd672a14db59f9b4779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:21 +0000
Subject: [PATCH 03/57] fix: sub_from_q of zero is zero

It returned Q itself, an element outside the field.
---
 src/electionguard/group.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 36b93a9..f2e5af3 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -790,6 +790,10 @@ namespace electionguard
         uint64_t result[MAX_Q_LEN] = {};
         Bignum256::sub(const_cast<ElementModQ &>(Q()).get(), const_cast<ElementModQ &>(a).get(),
                        static_cast<uint64_t *>(result));
+        // Q - 0 is Q, which is not a reduced element
+        if (const_cast<ElementModQ &>(a) == ZERO_MOD_Q()) {
+            return ElementModQ::fromUint64(0UL);
+        }
         // TODO: python version doesn't perform % Q on results,
         // but we still need to handle the overflow values between (Q, MAX_256]
         return make_unique<ElementModQ>(result, true);
-- 
2.43.0


From 4740f14db9b71286097a32098485074789bc9af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:21 +0000
Subject: [PATCH 04/57] fix: pow_mod_p uses every bit of an exponent mod P

The bit length passed to the exponentiation was the size in bytes, so only the
low 512 bits of an exponent took part.
---
 src/electionguard/group.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index f2e5af3..a1f8dba 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -605,7 +605,15 @@ namespace electionguard
         }
 
         uint64_t result[MAX_P_LEN] = {};
-        CONTEXT_P().modExp(base.get(), MAX_P_SIZE, exponent.get(), static_cast<uint64_t *>(result));
+        // the size of the exponent is given in bits: the full width is
+        // only needed when the exponent does not fit into 512 bits
+        uint32_t bits = MAX_P_SIZE;
+        for (uint64_t i = bits / 64; i < MAX_P_LEN; i++) {
+            if (exponent.get()[i] != 0) {
+                bits = MAX_P_SIZE * 8;
+            }
+        }
+        CONTEXT_P().modExp(base.get(), bits, exponent.get(), static_cast<uint64_t *>(result));
         return make_unique<ElementModP>(result, true);
     }
 
@@ -627,7 +635,10 @@ namespace electionguard
         }
 
         // if none exists, execute the modular exponentiation directly
-        return pow_mod_p(base, *exponent.toElementModP());
+        uint64_t result[MAX_P_LEN] = {};
+        CONTEXT_P().modExp(base.get(), MAX_Q_SIZE * 8, exponent.get(),
+                           static_cast<uint64_t *>(result));
+        return make_unique<ElementModP>(result, true);
     }
 
     unique_ptr<ElementModP> g_pow_p(const ElementModP &exponent)
-- 
2.43.0


From 60bcf7c35f6cf6b6c785795d7e6af2ea652f033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:20 +0000
Subject: [PATCH 05/57] fix: elgamalEncrypt encrypts messages greater than one

The documented range of the message is [0,Q) but every message other than one
was encrypted as zero.
---
 src/electionguard/elgamal.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/electionguard/elgamal.cpp b/src/electionguard/elgamal.cpp
index eb2e1c6..e932f78 100644
--- a/src/electionguard/elgamal.cpp
+++ b/src/electionguard/elgamal.cpp
@@ -223,6 +223,8 @@ namespace electionguard
         unique_ptr<ElementModP> data = nullptr;
         if (m == 1) {
             data = mul_mod_p(G(), *pubkey_pow_n);
+        } else if (m > 1) {
+            data = mul_mod_p(*g_pow_p(*ElementModQ::fromUint64(m)), *pubkey_pow_n);
         } else {
             data = move(pubkey_pow_n);
         }
@@ -243,6 +245,10 @@ namespace electionguard
         if (m == 1) {
             unique_ptr<ElementModP> temp = mul_mod_p(G(), pubkey_to_rho);
             data = *temp;
+        } else if (m > 1) {
+            unique_ptr<ElementModP> temp =
+              mul_mod_p(*g_pow_p(*ElementModQ::fromUint64(m)), pubkey_to_rho);
+            data = *temp;
         }
 
         Log::trace("Generated Encryption with Precomputed Values");
-- 
2.43.0


From a3d3a325499f6902d5dac18b5fd62f90c4ee5a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:20 +0000
Subject: [PATCH 06/57] fix: ElGamalKeyPair::fromSecret refuses secret keys
 outside [2,Q)

The upper end of the documented range was not checked.
---
 src/electionguard/elgamal.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/elgamal.cpp b/src/electionguard/elgamal.cpp
index e932f78..cf4a9d3 100644
--- a/src/electionguard/elgamal.cpp
+++ b/src/electionguard/elgamal.cpp
@@ -68,7 +68,8 @@ namespace electionguard
     unique_ptr<ElGamalKeyPair> ElGamalKeyPair::fromSecret(const ElementModQ &secretKey,
                                                           bool isFixedBase /* = true */)
     {
-        if (const_cast<ElementModQ &>(secretKey) < TWO_MOD_Q()) {
+        if (const_cast<ElementModQ &>(secretKey) < TWO_MOD_Q() ||
+            !(const_cast<ElementModQ &>(secretKey) < Q())) {
             throw invalid_argument("ElGamalKeyPair fromSecret secret key needs to be in [2,Q).");
         }
         auto privateKey = make_unique<ElementModQ>(secretKey);
-- 
2.43.0


From f98d2ab69dea0e41d125b8c68e463789f67be40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:20 +0000
Subject: [PATCH 07/57] fix: hashedElgamalEncrypt refuses an empty message
 without padding

It produced a ciphertext without data, which decryption always rejects.
---
 src/electionguard/elgamal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/elgamal.cpp b/src/electionguard/elgamal.cpp
index cf4a9d3..7424b00 100644
--- a/src/electionguard/elgamal.cpp
+++ b/src/electionguard/elgamal.cpp
@@ -499,7 +499,7 @@ namespace electionguard
                 }
             }
         } else {
-            if (0 != (message.size() % HASHED_CIPHERTEXT_BLOCK_LENGTH)) {
+            if (message.empty() || 0 != (message.size() % HASHED_CIPHERTEXT_BLOCK_LENGTH)) {
                 throw invalid_argument(
                   "HashedElGamalCiphertext::encrypt the apply_padding was false "
                   "but the plaintext is not a multiple of the block length 32");
-- 
2.43.0


From bd0e855e424ff7a3e1ddeff86b2cc00f58626378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:10 +0000
Subject: [PATCH 08/57] fix: the vote variation approval has a name

It was missing from the table of names: hashing or serialising a contest of that
variation dereferenced the end of the table.
---
 src/electionguard/manifest.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index e26e8fc..d202ab3 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -129,6 +129,7 @@ namespace electionguard
     const map<VoteVariationType, const string> _vote_variation_type<T>::_map = {
       {VoteVariationType::unknown, "unknown"},
       {VoteVariationType::one_of_m, "one_of_m"},
+      {VoteVariationType::approval, "approval"},
       {VoteVariationType::borda, "borda"},
       {VoteVariationType::cumulative, "cumulative"},
       {VoteVariationType::majority, "majority"},
-- 
2.43.0


From 83ca7ddc7c1ebb5484e0be9de245b261e2d90730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:10 +0000
Subject: [PATCH 09/57] fix: copies of a contest description keep votes allowed
 and optional titles

A copy of a contest without ballot title lost its votes allowed, so ballots were
encrypted by another limit than the manifest states; a contest with a title but
no subtitle could not be copied at all (null dereference).
---
 src/electionguard/manifest.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index d202ab3..08bc0a7 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1095,16 +1095,18 @@ namespace electionguard
             }
 
             // TODO: handle optional values
+            unique_ptr<InternationalizedText> _ballotTitle;
             if (ballotTitle != nullptr) {
-                auto _ballotTitle = make_unique<InternationalizedText>(*ballotTitle);
-                auto _ballotSubtitle = make_unique<InternationalizedText>(*ballotSubtitle);
-                return make_unique<ContestDescription::Impl>(
-                  object_id, electoralDistrictId, sequenceOrder, voteVariation, numberElected,
-                  votesAllowed, name, move(_ballotTitle), move(_ballotSubtitle), move(_selections));
+                _ballotTitle = make_unique<InternationalizedText>(*ballotTitle);
             }
-            return make_unique<ContestDescription::Impl>(object_id, electoralDistrictId,
-                                                         sequenceOrder, voteVariation,
-                                                         numberElected, name, move(_selections));
+            unique_ptr<InternationalizedText> _ballotSubtitle;
+            if (ballotSubtitle != nullptr) {
+                _ballotSubtitle = make_unique<InternationalizedText>(*ballotSubtitle);
+            }
+            return make_unique<ContestDescription::Impl>(
+              object_id, electoralDistrictId, sequenceOrder, voteVariation, numberElected,
+              votesAllowed, name, move(_ballotTitle), move(_ballotSubtitle), move(_selections),
+              primaryPartyIds);
         }
 
         [[nodiscard]] unique_ptr<ElementModQ> crypto_hash() const
-- 
2.43.0


From 3e7c0ee867e6c2e8e98ccb02149e268a2e838f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:10 +0000
Subject: [PATCH 10/57] fix: manifest and contest hashes cover each optional
 part on its own

A name without contact information and a title without subtitle dereferenced
null; contact information without a name and a subtitle without a title were
left out of the hash.
---
 src/electionguard/manifest.cpp | 41 ++++++++++++++++------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index 08bc0a7..b2ae965 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1118,18 +1118,17 @@ namespace electionguard
             }
 
             // TODO: handle optional values
+            CryptoHashableType titleRef = nullptr;
             if (ballotTitle != nullptr) {
-                auto hash = hash_elems({object_id, sequenceOrder, electoralDistrictId,
-                                        getVoteVariationTypeString(voteVariation),
-                                        ref<CryptoHashable>(*ballotTitle),
-                                        ref<CryptoHashable>(*ballotSubtitle), name, numberElected,
-                                        votesAllowed, selectionRefs});
-                Log::trace("ContestDescription", hash.get());
-                return hash;
+                titleRef = ref<CryptoHashable>(*ballotTitle);
+            }
+            CryptoHashableType subtitleRef = nullptr;
+            if (ballotSubtitle != nullptr) {
+                subtitleRef = ref<CryptoHashable>(*ballotSubtitle);
             }
             auto hash = hash_elems({object_id, sequenceOrder, electoralDistrictId,
-                                    getVoteVariationTypeString(voteVariation), nullptr, nullptr,
-                                    name, numberElected, votesAllowed, selectionRefs});
+                                    getVoteVariationTypeString(voteVariation), titleRef,
+                                    subtitleRef, name, numberElected, votesAllowed, selectionRefs});
             Log::trace("ContestDescription", hash.get());
             return hash;
         }
@@ -1527,20 +1526,18 @@ namespace electionguard
             }
 
             // TODO: handle other optional cases
-            if (name == nullptr) {
-                auto hash = hash_elems(
-                  {electionScopeId, getElectionTypeString(type), timePointToIsoString(startDate),
-                   timePointToIsoString(endDate), nullptr, nullptr, geopoliticalUnitRefs, partyRefs,
-                   contestRefs, ballotStyleRefs});
-                Log::trace("Manifest:: NO NAME!", hash->toHex());
-                return hash;
+            CryptoHashableType nameRef = nullptr;
+            if (name != nullptr) {
+                nameRef = ref<CryptoHashable>(*name);
             }
-
-            auto hash =
-              hash_elems({electionScopeId, getElectionTypeString(type),
-                          timePointToIsoString(startDate), timePointToIsoString(endDate),
-                          ref<CryptoHashable>(*name), ref<CryptoHashable>(*contactInformation),
-                          geopoliticalUnitRefs, partyRefs, contestRefs, ballotStyleRefs});
+            CryptoHashableType contactRef = nullptr;
+            if (contactInformation != nullptr) {
+                contactRef = ref<CryptoHashable>(*contactInformation);
+            }
+            auto hash = hash_elems({electionScopeId, getElectionTypeString(type),
+                                    timePointToIsoString(startDate), timePointToIsoString(endDate),
+                                    nameRef, contactRef, geopoliticalUnitRefs, partyRefs,
+                                    contestRefs, ballotStyleRefs});
 
             Log::trace("Manifest", hash->toHex());
             return hash;
-- 
2.43.0


From 212e1a2455220733c6515e081f1b53c01c69a55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:10 +0000
Subject: [PATCH 11/57] fix: placeholders follow selections with large sequence
 orders

The maximum was cut to 32 bits, so placeholders were numbered before or among
the real selections.
---
 src/electionguard/manifest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index b2ae965..db1af32 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1997,7 +1997,7 @@ namespace electionguard
 
             vector<unique_ptr<SelectionDescription>> placeholders;
             placeholders.reserve(contest.get().getNumberElected());
-            uint32_t maxSequenceOrder = 0;
+            uint64_t maxSequenceOrder = 0;
             for (const auto &selection : contest.get().getSelections()) {
                 auto sequenceOrder = selection.get().getSequenceOrder();
                 if (sequenceOrder > maxSequenceOrder) {
-- 
2.43.0


From 75e62831e0d2dcfc824487bae387d526a70633d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:10 +0000
Subject: [PATCH 12/57] fix: a style naming a geopolitical unit twice has its
 contests once

---
 src/electionguard/manifest.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index db1af32..4492ee0 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1945,6 +1945,7 @@ namespace electionguard
             for (const auto &gpUnitId : style->getGeopoliticalUnitIds()) {
                 if (reference->getElectoralDistrictId() == gpUnitId) {
                     contests.push_back(ref(*reference));
+                    break;
                 }
             }
         }
-- 
2.43.0


From 24be335e069720aa53afcdc74dd0b783450cb146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:10 +0000
Subject: [PATCH 13/57] fix: encrypting contests of an unknown ballot style is
 refused

encryptContests and encryptCompactBallot dereferenced null.
---
 src/electionguard/encrypt.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/electionguard/encrypt.cpp b/src/electionguard/encrypt.cpp
index e6aa92a..0daf445 100644
--- a/src/electionguard/encrypt.cpp
+++ b/src/electionguard/encrypt.cpp
@@ -233,6 +233,9 @@ namespace electionguard
                                                      const InternalManifest &manifest)
     {
         auto *style = manifest.getBallotStyle(ballot.getStyleId());
+        if (style == nullptr) {
+            throw invalid_argument("could not find a ballot style: " + ballot.getStyleId());
+        }
 
         vector<unique_ptr<PlaintextBallotContest>> contests;
         // loop through the contests for the ballot style
-- 
2.43.0


From 1592d07bfee2cbfcdafcaa65383e96dfcdd4b3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:20 +0000
Subject: [PATCH 14/57] fix: overvote records name selections marked more than
 once

Selections with more than one vote make a contest overvoted but were left out of
its record, together with their write-ins.
---
 src/electionguard/encrypt.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/encrypt.cpp b/src/electionguard/encrypt.cpp
index 0daf445..12044c6 100644
--- a/src/electionguard/encrypt.cpp
+++ b/src/electionguard/encrypt.cpp
@@ -355,7 +355,7 @@ namespace electionguard
             // the number of selections should be short, the number of ballot selections
             // and candidates will be longer but shouldn't be too long
             for (const auto &selection : selections) {
-                if (selection.get().getVote() == 1) {
+                if (selection.get().getVote() >= 1) {
                     errorData.push_back(selection.get().getObjectId());
                 }
             }
@@ -377,7 +377,7 @@ namespace electionguard
         // the number of selections should be short, the number of ballot selections
         // and candidates will be longer but shouldn't be too long
         for (const auto &selection : selections) {
-            if (selection.get().getVote() == 1) {
+            if (selection.get().getVote() >= 1) {
                 for (const auto ballotSelection : ballotSelections) {
                     if (selection.get().getObjectId() == ballotSelection.get().getObjectId()) {
                         for (const auto &candidate : candidates) {
-- 
2.43.0


From 42d9613e9c2314d44d311e758ed9433605718327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:19 +0000
Subject: [PATCH 15/57] fix: ballot verification counts every proof even when
 identifiers coincide

---
 src/electionguard/ballot.cpp | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index 234a6ec..939d99a 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -1072,22 +1072,21 @@ namespace electionguard
         }
 
         // Check the proofs on the ballot
-        unordered_map<string, bool> validProofs;
+        bool isValid = true;
         for (const auto &contest : this->getContests()) {
             for (const auto &selection : contest.get().getSelections()) {
-                string key = contest.get().getObjectId() + '-' + selection.get().getObjectId();
-                validProofs[key] = selection.get().isValidEncryption(
-                  *selection.get().getDescriptionHash(), elgamalPublicKey, cryptoExtendedBaseHash);
+                if (!selection.get().isValidEncryption(*selection.get().getDescriptionHash(),
+                                                       elgamalPublicKey,
+                                                       cryptoExtendedBaseHash)) {
+                    Log::info(": CiphertextBallot found invalid proof for: " +
+                              contest.get().getObjectId() + '-' + selection.get().getObjectId());
+                    isValid = false;
+                }
             }
-            string key = contest.get().getObjectId();
-            validProofs[key] = contest.get().isValidEncryption(
-              *contest.get().getDescriptionHash(), elgamalPublicKey, cryptoExtendedBaseHash);
-        }
-
-        bool isValid = true;
-        for (const auto &[key, value] : validProofs) {
-            if (!value) {
-                Log::info(": CiphertextBallot found invalid proof for: " + key);
+            if (!contest.get().isValidEncryption(*contest.get().getDescriptionHash(),
+                                                 elgamalPublicKey, cryptoExtendedBaseHash)) {
+                Log::info(": CiphertextBallot found invalid proof for: " +
+                          contest.get().getObjectId());
                 isValid = false;
             }
         }
-- 
2.43.0


From 023980efd897ab3b2dad717885e5bbcec01d2553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:19 +0000
Subject: [PATCH 16/57] fix: a contest without a proof is invalid instead of
 crashing

---
 src/electionguard/ballot.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index 939d99a..a487e6a 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -740,6 +740,7 @@ namespace electionguard
         }
 
         bool valid_proof =
+          proof_exists &&
           pimpl->proof->isValid(*computedAccumulation, elgamalPublicKey, cryptoExtendedBaseHash);
 
         bool success = consistent_encryption_seed && consistent_crypto_hash && proof_exists &&
-- 
2.43.0


From e3a4e09d22f0f382f86bef04d91c7c4918f7c81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:04 +0000
Subject: [PATCH 17/57] fix: rand_p draws as many bytes as it reads

---
 src/electionguard/group.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index a1f8dba..0f9e182 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -812,7 +812,7 @@ namespace electionguard
 
     unique_ptr<ElementModP> rand_p()
     {
-        auto bytes = Random::getBytes();
+        auto bytes = Random::getBytes(SHA512);
 
         auto *bigNum = Bignum4096::fromBytes(MAX_P_SIZE, const_cast<uint8_t *>(bytes.data()));
         if (bigNum == nullptr) {
-- 
2.43.0


From 99ac4720bb72bdeaf34e9348ca75346a40282c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:04 +0000
Subject: [PATCH 18/57] fix: rand_q draws from the whole field

---
 src/electionguard/group.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 0f9e182..91a340b 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -836,9 +836,6 @@ namespace electionguard
             throw bad_alloc();
         }
 
-        // first index of Q cannot cannod exceed 0xFFFFFFFFFFFFFF43
-        bigNum[0] = bigNum[0] & 0xFFFFFFFFFFFFFF43;
-
         uint64_t element[MAX_Q_LEN] = {0};
         memcpy(static_cast<uint64_t *>(element), bigNum, MAX_Q_SIZE);
         free(bigNum);
-- 
2.43.0


From cd8b442a9c2fcabc333f72363be01016dc33e1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:03 +0000
Subject: [PATCH 19/57] fix: copying an ElGamalKeyPair leaves the source its
 keys

---
 src/electionguard/elgamal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/elgamal.cpp b/src/electionguard/elgamal.cpp
index 7424b00..08265ed 100644
--- a/src/electionguard/elgamal.cpp
+++ b/src/electionguard/elgamal.cpp
@@ -39,7 +39,7 @@ namespace electionguard
     // Lifecycle Methods
 
     ElGamalKeyPair::ElGamalKeyPair(const ElGamalKeyPair &other)
-        : pimpl(new Impl(move(*other.pimpl)))
+        : pimpl(new Impl(other.pimpl->secretKey->clone(), other.pimpl->publicKey->clone()))
     {
     }
 
-- 
2.43.0


From bea28cae6720077437c682ac80b1ef872d84c024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:03 +0000
Subject: [PATCH 20/57] fix: a cloned disjunctive proof keeps the data of its
 second branch

---
 src/electionguard/chaum_pedersen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/chaum_pedersen.cpp b/src/electionguard/chaum_pedersen.cpp
index 6d665a3..61e4997 100644
--- a/src/electionguard/chaum_pedersen.cpp
+++ b/src/electionguard/chaum_pedersen.cpp
@@ -295,7 +295,7 @@ namespace electionguard
     {
         return make_unique<DisjunctiveChaumPedersenProof>(
           pimpl->proof_zero_pad->clone(), pimpl->proof_zero_data->clone(),
-          pimpl->proof_one_pad->clone(), pimpl->proof_one_pad->clone(),
+          pimpl->proof_one_pad->clone(), pimpl->proof_one_data->clone(),
           pimpl->proof_zero_challenge->clone(), pimpl->proof_one_challenge->clone(),
           pimpl->challenge->clone(), pimpl->proof_zero_response->clone(),
           pimpl->proof_one_response->clone());
-- 
2.43.0


From 01034793046ee38bc80932d2993ef756e0e3c532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:03 +0000
Subject: [PATCH 21/57] fix: encrypted ballots without their optional parts can
 be copied

---
 src/electionguard/ballot.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index a487e6a..37bca3b 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -173,9 +173,10 @@ namespace electionguard
         {
             auto _descriptionHash = make_unique<ElementModQ>(*descriptionHash);
             auto _ciphertext = make_unique<ElGamalCiphertext>(*ciphertext);
-            auto _nonce = make_unique<ElementModQ>(*nonce);
+            auto _nonce = nonce != nullptr ? make_unique<ElementModQ>(*nonce) : nullptr;
             auto _cryptoHash = make_unique<ElementModQ>(*cryptoHash);
-            auto _proof = make_unique<DisjunctiveChaumPedersenProof>(*proof);
+            auto _proof =
+              proof != nullptr ? make_unique<DisjunctiveChaumPedersenProof>(*proof) : nullptr;
             auto _extendedData =
               extendedData != nullptr ? make_unique<ElGamalCiphertext>(*extendedData) : nullptr;
 
@@ -550,11 +551,14 @@ namespace electionguard
             }
 
             auto _descriptionHash = make_unique<ElementModQ>(*descriptionHash);
-            auto _nonce = make_unique<ElementModQ>(*nonce);
+            auto _nonce = nonce != nullptr ? make_unique<ElementModQ>(*nonce) : nullptr;
             auto _accumulation = make_unique<ElGamalCiphertext>(*ciphertextAccumulation);
             auto _cryptoHash = make_unique<ElementModQ>(*cryptoHash);
-            auto _proof = make_unique<ConstantChaumPedersenProof>(*proof);
-            auto _hashedElGamal = make_unique<HashedElGamalCiphertext>(*hashedElGamal);
+            auto _proof =
+              proof != nullptr ? make_unique<ConstantChaumPedersenProof>(*proof) : nullptr;
+            auto _hashedElGamal = hashedElGamal != nullptr
+                                    ? make_unique<HashedElGamalCiphertext>(*hashedElGamal)
+                                    : nullptr;
 
             return make_unique<CiphertextBallotContest::Impl>(
               object_id, sequenceOrder, move(_descriptionHash), move(_selections), move(_nonce),
@@ -632,7 +636,7 @@ namespace electionguard
 
     unique_ptr<HashedElGamalCiphertext> CiphertextBallotContest::getHashedElGamalCiphertext() const
     {
-        return pimpl->hashedElGamal.get()->clone();
+        return pimpl->hashedElGamal != nullptr ? pimpl->hashedElGamal->clone() : nullptr;
     }
 
     // Interface Overrides
@@ -929,9 +933,11 @@ namespace electionguard
             }
 
             auto _manifestHash = make_unique<ElementModQ>(*manifestHash);
-            auto _ballotCodeSeed = make_unique<ElementModQ>(*ballotCodeSeed);
-            auto _ballotCode = make_unique<ElementModQ>(*ballotCode);
-            auto _nonce = make_unique<ElementModQ>(*nonce);
+            auto _ballotCodeSeed =
+              ballotCodeSeed != nullptr ? make_unique<ElementModQ>(*ballotCodeSeed) : nullptr;
+            auto _ballotCode =
+              ballotCode != nullptr ? make_unique<ElementModQ>(*ballotCode) : nullptr;
+            auto _nonce = nonce != nullptr ? make_unique<ElementModQ>(*nonce) : nullptr;
             auto _cryptoHash = make_unique<ElementModQ>(*cryptoHash);
             return make_unique<CiphertextBallot::Impl>(
               object_id, styleId, move(_manifestHash), move(_ballotCodeSeed), move(_contests),
-- 
2.43.0


From 98c49c5600c770844e1bb69ec409b88d50088a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:03 +0000
Subject: [PATCH 22/57] fix: assigning a submitted ballot or a contest with
 placeholders assigns its base

---
 src/electionguard/ballot.cpp   | 1 +
 src/electionguard/manifest.cpp | 5 ++---
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index 37bca3b..e4cd0e1 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -1187,6 +1187,7 @@ namespace electionguard
 
     SubmittedBallot &SubmittedBallot::operator=(SubmittedBallot other)
     {
+        CiphertextBallot::operator=(static_cast<const CiphertextBallot &>(other));
         swap(pimpl, other.pimpl);
         return *this;
     }
diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index 4492ee0..f835ead 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1326,7 +1326,7 @@ namespace electionguard
 
     ContestDescriptionWithPlaceholders::ContestDescriptionWithPlaceholders(
       ContestDescriptionWithPlaceholders &&other)
-        : ContestDescription(other), pimpl(move(other.pimpl))
+        : ContestDescription(move(other)), pimpl(move(other.pimpl))
     {
     }
 
@@ -1394,8 +1394,7 @@ namespace electionguard
     ContestDescriptionWithPlaceholders &
     ContestDescriptionWithPlaceholders::operator=(ContestDescriptionWithPlaceholders other)
     {
-        // TODO: swap the base as well via cast?
-        //(ContestDescription) this = (ContestDescription)other;
+        ContestDescription::operator=(static_cast<const ContestDescription &>(other));
         swap(pimpl, other.pimpl);
         return *this;
     }
-- 
2.43.0


From 5d6150b75a5d8e5d3cef8148431867412e61d794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:03 +0000
Subject: [PATCH 23/57] fix: the copy of a party without a name has no name

---
 src/electionguard/manifest.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index f835ead..4b9edcf 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -732,12 +732,8 @@ namespace electionguard
 
         [[nodiscard]] unique_ptr<Party::Impl> clone() const
         {
-            if (name != nullptr) {
-                auto _name = make_unique<InternationalizedText>(*name);
-                return make_unique<Party::Impl>(object_id, move(_name), abbreviation, color,
-                                                logoUri);
-            }
-            return make_unique<Party::Impl>(object_id, abbreviation, color, logoUri);
+            auto _name = name != nullptr ? make_unique<InternationalizedText>(*name) : nullptr;
+            return make_unique<Party::Impl>(object_id, move(_name), abbreviation, color, logoUri);
         }
 
         [[nodiscard]] unique_ptr<ElementModQ> crypto_hash() const
-- 
2.43.0


From 1a73fcb76d6cafb67ea16c755cbb7408a88b175d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:17 +0000
Subject: [PATCH 24/57] fix: an internal manifest reads back the titles and
 votes allowed it wrote

---
 src/electionguard/serialize.hpp | 52 ++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 27 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 3f96141..c76eabb 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -629,14 +629,13 @@ namespace electionguard
                       {"ballot_placeholders", placeholders}};
 
                     if (contest.get().getBallotTitle() != nullptr) {
-                        contest_json["ballot_title"] = {
-                          {"text", internationalizedTextToJson(*contest.get().getBallotTitle())}};
+                        contest_json["ballot_title"] =
+                          internationalizedTextToJson(*contest.get().getBallotTitle());
                     }
 
                     if (contest.get().getBallotSubtitle() != nullptr) {
-                        contest_json["ballot_subtitle"] = {
-                          {"text",
-                           internationalizedTextToJson(*contest.get().getBallotSubtitle())}};
+                        contest_json["ballot_subtitle"] =
+                          internationalizedTextToJson(*contest.get().getBallotSubtitle());
                     }
 
                     contests.push_back(contest_json);
@@ -676,28 +675,27 @@ namespace electionguard
                     auto placeholders =
                       selectionDescriptionsFromJson(contest["ballot_placeholders"]);
 
-                    // TODO: ust a stub for now.
-                    // we need to handle all of the otpional serilization cases.
-                    if (contest.contains("ballot_title") && !contest["ballot_title"].is_null()) {
-                        auto votes_allowed = contest["votes_allowed"].get<uint64_t>();
-                        auto ballotTitle = internationalizedTextFromJson(contest["ballot_title"]);
-                        auto ballotSubtitle =
-                          internationalizedTextFromJson(contest["ballot_subtitle"]);
-
-                        contestDescriptions.push_back(
-                          make_unique<ContestDescriptionWithPlaceholders>(
-                            contest_object_id, electoral_district_id, contest_sequence_order,
-                            getVoteVariationType(vote_variation), number_elected, votes_allowed,
-                            name, move(ballotTitle), move(ballotSubtitle), move(selections),
-                            move(placeholders)));
-
-                    } else {
-                        contestDescriptions.push_back(
-                          make_unique<ContestDescriptionWithPlaceholders>(
-                            contest_object_id, electoral_district_id, contest_sequence_order,
-                            getVoteVariationType(vote_variation), number_elected, name,
-                            move(selections), move(placeholders)));
-                    }
+                    auto variation = getVoteVariationType(vote_variation);
+                    auto votes_allowed =
+                      contest.contains("votes_allowed") && !contest["votes_allowed"].is_null()
+                        ? contest["votes_allowed"].get<uint64_t>()
+                      : variation == VoteVariationType::n_of_m ||
+                          variation == VoteVariationType::one_of_m
+                        ? number_elected
+                        : 0;
+                    auto ballotTitle =
+                      contest.contains("ballot_title") && !contest["ballot_title"].is_null()
+                        ? internationalizedTextFromJson(contest["ballot_title"])
+                        : nullptr;
+                    auto ballotSubtitle =
+                      contest.contains("ballot_subtitle") && !contest["ballot_subtitle"].is_null()
+                        ? internationalizedTextFromJson(contest["ballot_subtitle"])
+                        : nullptr;
+
+                    contestDescriptions.push_back(make_unique<ContestDescriptionWithPlaceholders>(
+                      contest_object_id, electoral_district_id, contest_sequence_order, variation,
+                      number_elected, votes_allowed, name, move(ballotTitle), move(ballotSubtitle),
+                      move(selections), move(placeholders)));
                 }
 
                 auto ballotStyles = ballotStylesFromJson(j["ballot_styles"]);
-- 
2.43.0


From 720602afa69e5afa87e8e7eab6ee81fb50761084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:17 +0000
Subject: [PATCH 25/57] fix: a manifest reads its name and contact information
 independently

---
 src/electionguard/serialize.hpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index c76eabb..3a1f249 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -550,22 +550,19 @@ namespace electionguard
                 auto contests = contestDescriptionsFromJson(j["contests"]);
                 auto ballotStyles = ballotStylesFromJson(j["ballot_styles"]);
 
-                // TODO: just a stub for now.
-                // we need to handle all of the otpional serilization cases.
-                if (j.contains("name") && !j["name"].is_null()) {
-                    auto name = internationalizedTextFromJson(j["name"]);
-                    auto contactInformation = contactInformationFromJson(j["contact_information"]);
-
-                    return make_unique<electionguard::Manifest>(
-                      electionScopeId, getElectionType(type), timePointFromIsoString(startDate),
-                      timePointFromIsoString(endDate), move(geopoliticalUnits), move(parties),
-                      move(candidates), move(contests), move(ballotStyles), move(name),
-                      move(contactInformation));
-                }
+                auto name = j.contains("name") && !j["name"].is_null()
+                              ? internationalizedTextFromJson(j["name"])
+                              : nullptr;
+                auto contactInformation =
+                  j.contains("contact_information") && !j["contact_information"].is_null()
+                    ? contactInformationFromJson(j["contact_information"])
+                    : nullptr;
+
                 return make_unique<electionguard::Manifest>(
                   electionScopeId, getElectionType(type), timePointFromIsoString(startDate),
                   timePointFromIsoString(endDate), move(geopoliticalUnits), move(parties),
-                  move(candidates), move(contests), move(ballotStyles));
+                  move(candidates), move(contests), move(ballotStyles), move(name),
+                  move(contactInformation));
             }
 
           public:
-- 
2.43.0


From c21a44197ff10d9d7f69cf722a762bebefad1d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:17 +0000
Subject: [PATCH 26/57] fix: contact information without a name is kept instead
 of crashing

---
 include/electionguard/manifest.hpp | 6 +++---
 src/electionguard/serialize.hpp    | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/electionguard/manifest.hpp b/include/electionguard/manifest.hpp
index 733b693..d24c686 100644
--- a/include/electionguard/manifest.hpp
+++ b/include/electionguard/manifest.hpp
@@ -252,14 +252,14 @@ namespace electionguard
         ContactInformation(ContactInformation &&other);
         explicit ContactInformation(std::string name);
         explicit ContactInformation(std::vector<std::string> addressLine,
-                                    std::string name = nullptr);
+                                    std::string name = "");
         explicit ContactInformation(std::vector<std::string> addressLine,
                                     std::vector<std::unique_ptr<AnnotatedString>> phone,
-                                    std::string name = nullptr);
+                                    std::string name = "");
         explicit ContactInformation(std::vector<std::string> addressLine,
                                     std::vector<std::unique_ptr<AnnotatedString>> email,
                                     std::vector<std::unique_ptr<AnnotatedString>> phone,
-                                    std::string name = nullptr);
+                                    std::string name = "");
         ~ContactInformation();
 
         ContactInformation &operator=(ContactInformation other);
diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 3a1f249..7aceb00 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -79,7 +79,7 @@ namespace electionguard
 
     static json contactInformationToJson(const ContactInformation &serializable)
     {
-        json serialized = {};
+        json serialized = json::object();
 
         if (!serializable.getName().empty()) {
             serialized["name"] = serializable.getName();
-- 
2.43.0


From 3f616751d91f10e711bd1ca54d733d36f6e05b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:17 +0000
Subject: [PATCH 27/57] fix: a contest that allows no votes reads back as such

---
 src/electionguard/serialize.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 7aceb00..4fe8745 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -422,9 +422,7 @@ namespace electionguard
         serialized["vote_variation"] = getVoteVariationTypeString(serializable.getVoteVariation());
         serialized["number_elected"] = serializable.getNumberElected();
 
-        if (serializable.getVotesAllowed() > 0) {
-            serialized["votes_allowed"] = serializable.getVotesAllowed();
-        }
+        serialized["votes_allowed"] = serializable.getVotesAllowed();
 
         serialized["name"] = serializable.getName();
 
-- 
2.43.0


From c2b69a45a8949d73450fe30af49256e8c1dcf74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:17 +0000
Subject: [PATCH 28/57] fix: parties and candidates without a name have an
 empty one

---
 src/electionguard/manifest.cpp | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index 4b9edcf..2ed8477 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -725,9 +725,12 @@ namespace electionguard
 
         explicit Impl(const string &objectId, unique_ptr<InternationalizedText> name,
                       const string &abbreviation, const string &color, const string &logoUri)
-            : name(move(name)), abbreviation(abbreviation), color(color), logoUri(logoUri)
+            : abbreviation(abbreviation), color(color), logoUri(logoUri)
         {
-            this->object_id = objectId;
+            init(objectId);
+            if (name != nullptr) {
+                this->name = move(name);
+            }
         }
 
         [[nodiscard]] unique_ptr<Party::Impl> clone() const
@@ -805,49 +808,53 @@ namespace electionguard
         string imageUri;
         bool isWriteIn;
 
-        explicit Impl(const string &objectId, bool isWriteIn)
+        void init(const string &objectId, bool isWriteIn)
         {
             this->object_id = objectId;
             this->isWriteIn = isWriteIn;
+            if (this->name == nullptr) {
+                vector<unique_ptr<Language>> text;
+                this->name = make_unique<InternationalizedText>(move(text));
+            }
+        }
+
+        explicit Impl(const string &objectId, bool isWriteIn)
+        {
+            init(objectId, isWriteIn);
         }
 
         explicit Impl(const string &objectId, const string &partyId, bool isWriteIn)
             : partyId(partyId)
         {
-            this->object_id = objectId;
-            this->isWriteIn = isWriteIn;
+            init(objectId, isWriteIn);
         }
 
         explicit Impl(const string &objectId, const string &partyId, const string &imageUri,
                       bool isWriteIn)
             : partyId(partyId), imageUri(imageUri)
         {
-            this->object_id = objectId;
-            this->isWriteIn = isWriteIn;
+            init(objectId, isWriteIn);
         }
 
         explicit Impl(const string &objectId, unique_ptr<InternationalizedText> name,
                       bool isWriteIn)
             : name(move(name))
         {
-            this->object_id = objectId;
-            this->isWriteIn = isWriteIn;
+            init(objectId, isWriteIn);
         }
 
         explicit Impl(const string &objectId, unique_ptr<InternationalizedText> name,
                       const string &partyId, bool isWriteIn)
             : name(move(name)), partyId(partyId)
         {
-            this->object_id = objectId;
-            this->isWriteIn = isWriteIn;
+            init(objectId, isWriteIn);
         }
 
         explicit Impl(const string &objectId, unique_ptr<InternationalizedText> name,
                       const string &partyId, const string &imageUri, bool isWriteIn)
             : name(move(name)), partyId(partyId), imageUri(imageUri)
         {
-            this->object_id = objectId;
-            this->isWriteIn = isWriteIn;
+            init(objectId, isWriteIn);
         }
 
         [[nodiscard]] unique_ptr<Candidate::Impl> clone() const
-- 
2.43.0


From 7e892ef7db45ba16a6deb24beb1705912c9ccdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:45 +0000
Subject: [PATCH 29/57] fix: the hexadecimal text of zero can be read

---
 src/electionguard/convert.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/convert.hpp b/src/electionguard/convert.hpp
index e4a0744..ef15879 100644
--- a/src/electionguard/convert.hpp
+++ b/src/electionguard/convert.hpp
@@ -170,7 +170,12 @@ namespace electionguard
     inline string sanitize_hex_string(const string &hexString)
     {
         string sanitized;
-        string leftTrimmed = hexString.substr(hexString.find_first_not_of(LEADING_CHARS));
+        auto start = hexString.find_first_not_of(LEADING_CHARS);
+        if (start == string::npos && hexString.find('0') != string::npos) {
+            // every digit is a leading zero
+            return "00";
+        }
+        string leftTrimmed = hexString.substr(start);
         bool isOdd = (leftTrimmed.size() % 2) != 0U;
         if (isOdd) {
             Log::trace("sanitize_hex_string: is odd");
-- 
2.43.0


From 8d33a71f276ca3077386d31b8fa6a81742d88abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:37 +0000
Subject: [PATCH 30/57] fix: encrypted extended data keeps its leading zero
 bytes when written

---
 src/electionguard/convert.hpp   | 14 ++++++++++++++
 src/electionguard/serialize.hpp | 11 ++++-------
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/electionguard/convert.hpp b/src/electionguard/convert.hpp
index ef15879..2368c97 100644
--- a/src/electionguard/convert.hpp
+++ b/src/electionguard/convert.hpp
@@ -204,6 +204,20 @@ namespace electionguard
         return detectedFirstNonZeroBytes ? (stream.str()) : "00";
     }
 
+    /// <summary>
+    /// Hexadecimal text of a byte string (as opposed to a number): every byte is
+    /// written, leading zero bytes included
+    /// </summary>
+    inline string byte_string_to_hex(const vector<uint8_t> &bytes)
+    {
+        stringstream stream;
+        stream << hex << uppercase << setfill('0');
+        for (auto byte : bytes) {
+            stream << setw(2) << static_cast<uint16_t>(byte);
+        }
+        return stream.str();
+    }
+
     template <typename T, size_t S> string bytes_to_hex(T (&data)[S])
     {
         vector<T> vec(begin(data), end(data));
diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 4fe8745..e5d794e 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -1103,8 +1103,8 @@ namespace electionguard
                     auto e = contest.get().getHashedElGamalCiphertext();
                     json extended_data = {
                       {"pad", e->getPad()->toHex()},
-                      {"data", bytes_to_hex(e->getData())},
-                      {"mac", bytes_to_hex(e->getMac())},
+                      {"data", byte_string_to_hex(e->getData())},
+                      {"mac", byte_string_to_hex(e->getMac())},
                     };
                     json contest_props = {
                       {"object_id", contest.get().getObjectId()},
@@ -1173,14 +1173,11 @@ namespace electionguard
                     auto hashed_el_gamal_data = hashed_el_gamal["data"].get<string>();
                     auto hashed_el_gamal_mac = hashed_el_gamal["mac"].get<string>();
 
-                    auto hashed_el_gamal_data_sanitized = sanitize_hex_string(hashed_el_gamal_data);
-                    auto hashed_el_gamal_mac_sanitized = sanitize_hex_string(hashed_el_gamal_mac);
-
                     auto deserializedHashedElGamal =
                       make_unique<electionguard::HashedElGamalCiphertext>(
                         ElementModP::fromHex(hashed_el_gamal_pad),
-                        hex_to_bytes(hashed_el_gamal_data_sanitized),
-                        hex_to_bytes(hashed_el_gamal_mac_sanitized));
+                        hex_to_bytes(hashed_el_gamal_data),
+                        hex_to_bytes(hashed_el_gamal_mac));
 
                     auto proof = contest["proof"];
                     auto contest_proof_pad = proof["pad"].get<string>();
-- 
2.43.0


From dbcc020938b1a1ac58e085755a95a4a9adaeb570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:37 +0000
Subject: [PATCH 31/57] fix: write-ins of a compact plaintext ballot read back
 without added quotes

---
 src/electionguard/serialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index e5d794e..c44be3f 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -1011,7 +1011,7 @@ namespace electionguard
 
                 vector<string> writeins;
                 for (auto &writein_json : in_writeins) {
-                    writeins.push_back(writein_json.dump());
+                    writeins.push_back(writein_json.get<string>());
                 }
 
                 return make_unique<electionguard::CompactPlaintextBallot>(
-- 
2.43.0


From ceb85630d4c3fdd3cbe9fb7f96f7e1d65c684390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:37 +0000
Subject: [PATCH 32/57] fix: a compact plaintext ballot without selections
 reads back

---
 src/electionguard/serialize.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index c44be3f..252d900 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -977,12 +977,12 @@ namespace electionguard
           protected:
             static json fromObject(const electionguard::CompactPlaintextBallot &serializable)
             {
-                json selections;
+                json selections = json::array();
                 for (auto selection : serializable.getSelections()) {
                     selections.push_back(selection);
                 }
 
-                json writeins;
+                json writeins = json::array();
                 for (auto writein : serializable.getWriteIns()) {
                     writeins.push_back(writein);
                 }
@@ -1015,7 +1015,7 @@ namespace electionguard
                 }
 
                 return make_unique<electionguard::CompactPlaintextBallot>(
-                  object_id, style_id, move(selections), move(writeins));
+                  object_id, style_id, move(votes), move(writeins));
             }
 
           public:
-- 
2.43.0


From 18f69098cf98b88296da66cbf058e484ae09b164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:36 +0000
Subject: [PATCH 33/57] fix: filling a full precompute buffer does not add to
 it

---
 src/electionguard/precompute_buffers.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/electionguard/precompute_buffers.cpp b/src/electionguard/precompute_buffers.cpp
index c342092..12a243f 100644
--- a/src/electionguard/precompute_buffers.cpp
+++ b/src/electionguard/precompute_buffers.cpp
@@ -212,6 +212,9 @@ namespace electionguard
             // generating two triples and a quadruple?
             // If not we can get more elaborate with the populate_OK checking
             std::lock_guard<std::mutex> lock(queue_lock);
+            if (getInstance().twoTriplesAndAQuadruple_queue.size() >= getInstance().max) {
+                return;
+            }
             if (getInstance().populate_OK) {
                 // generate two triples and a quadruple
                 //
-- 
2.43.0


From 1b84a158b00dca0926409b3bdbdaf52803707188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:36 +0000
Subject: [PATCH 34/57] fix: precomputed values are only used under the key
 they were computed for

---
 include/electionguard/precompute_buffers.hpp | 19 ++++++++
 src/electionguard/chaum_pedersen.cpp         |  2 +-
 src/electionguard/elgamal.cpp                |  2 +-
 src/electionguard/encrypt.cpp                |  3 +-
 src/electionguard/precompute_buffers.cpp     | 46 +++++++++++++++++++-
 5 files changed, 68 insertions(+), 4 deletions(-)

diff --git a/include/electionguard/precompute_buffers.hpp b/include/electionguard/precompute_buffers.hpp
index 10b6c4c..f8ef62d 100644
--- a/include/electionguard/precompute_buffers.hpp
+++ b/include/electionguard/precompute_buffers.hpp
@@ -222,6 +222,13 @@ namespace electionguard
         /// </summary>
         static std::unique_ptr<TwoTriplesAndAQuadruple> getTwoTriplesAndAQuadruple();
 
+        /// <summary>
+        /// Get the next two triples and a quadruple if the queue holds values
+        /// computed for the public key, nullptr otherwise.
+        /// </summary>
+        static std::unique_ptr<TwoTriplesAndAQuadruple>
+        getTwoTriplesAndAQuadruple(const ElementModP &elgamalPublicKey);
+
         /// <summary>
         /// Get the next triple from the triple queue.
         /// This method is called by hashedElgamalEncrypt in order to get
@@ -230,6 +237,12 @@ namespace electionguard
         /// </summary>
         static std::unique_ptr<Triple> getTriple();
 
+        /// <summary>
+        /// Get the next triple if the queue holds values computed for the
+        /// public key, nullptr otherwise.
+        /// </summary>
+        static std::unique_ptr<Triple> getTriple(const ElementModP &elgamalPublicKey);
+
         /// <summary>
         /// Empty the precomputed values queues.
         /// <returns>void</returns>
@@ -237,6 +250,12 @@ namespace electionguard
         static void empty_queues();
 
       private:
+        // these expect the queue lock to be held
+        bool isFor(const ElementModP &elgamalPublicKey) const;
+        void clear();
+
+        // the public key the queued values were computed for
+        std::unique_ptr<ElementModP> public_key;
         uint32_t max = DEFAULT_PRECOMPUTE_SIZE;
         static std::mutex queue_lock;
         bool populate_OK = false;
diff --git a/src/electionguard/chaum_pedersen.cpp b/src/electionguard/chaum_pedersen.cpp
index 61e4997..b499d26 100644
--- a/src/electionguard/chaum_pedersen.cpp
+++ b/src/electionguard/chaum_pedersen.cpp
@@ -589,7 +589,7 @@ namespace electionguard
         unique_ptr<ElementModP> a; //𝑔^𝑢 mod 𝑝
         unique_ptr<ElementModP> b; // 𝐾^𝑢 mod 𝑝
         // check if the are precompute values rather than doing the exponentiations here
-        unique_ptr<Triple> triple = PrecomputeBufferContext::getTriple();
+        unique_ptr<Triple> triple = PrecomputeBufferContext::getTriple(k);
         if (triple != nullptr) {
             u = triple->get_exp();
             a = triple->get_g_to_exp();
diff --git a/src/electionguard/elgamal.cpp b/src/electionguard/elgamal.cpp
index 08265ed..19dc776 100644
--- a/src/electionguard/elgamal.cpp
+++ b/src/electionguard/elgamal.cpp
@@ -514,7 +514,7 @@ namespace electionguard
         unique_ptr<ElementModP> g_to_r = nullptr;
         unique_ptr<ElementModP> publicKey_to_r = nullptr;
         // check if the are precompute values rather than doing the exponentiations here
-        unique_ptr<Triple> triple = PrecomputeBufferContext::getTriple();
+        unique_ptr<Triple> triple = PrecomputeBufferContext::getTriple(publicKey);
         if (triple != nullptr) {
             g_to_r = triple->get_g_to_exp();
             publicKey_to_r = triple->get_pubkey_to_exp();
diff --git a/src/electionguard/encrypt.cpp b/src/electionguard/encrypt.cpp
index 12044c6..352b053 100644
--- a/src/electionguard/encrypt.cpp
+++ b/src/electionguard/encrypt.cpp
@@ -287,7 +287,8 @@ namespace electionguard
 
         // this method runs off to look in the precomputed values buffer and if
         // it finds what it needs then the returned class will contain those values
-        precomputedTwoTriplesAndAQuad = PrecomputeBufferContext::getTwoTriplesAndAQuadruple();
+        precomputedTwoTriplesAndAQuad =
+          PrecomputeBufferContext::getTwoTriplesAndAQuadruple(elgamalPublicKey);
 
         // check if we found the precomputed values needed
         if (precomputedTwoTriplesAndAQuad != nullptr) {
diff --git a/src/electionguard/precompute_buffers.cpp b/src/electionguard/precompute_buffers.cpp
index 12a243f..4bdc890 100644
--- a/src/electionguard/precompute_buffers.cpp
+++ b/src/electionguard/precompute_buffers.cpp
@@ -206,13 +206,22 @@ namespace electionguard
         // try 5000 and see how that works. If the vendor wanted to pass the
         // queue size in we could use that.
         // for now we just go through the loop once
+        {
+            // values computed for another key must not be handed out for this one
+            std::lock_guard<std::mutex> lock(queue_lock);
+            if (getInstance().populate_OK && !getInstance().isFor(elgamalPublicKey)) {
+                getInstance().clear();
+                getInstance().public_key = elgamalPublicKey.clone();
+            }
+        }
         int iteration_count = 0;
         do {
             // TODO - Can we tolerate not returning until we have finished
             // generating two triples and a quadruple?
             // If not we can get more elaborate with the populate_OK checking
             std::lock_guard<std::mutex> lock(queue_lock);
-            if (getInstance().twoTriplesAndAQuadruple_queue.size() >= getInstance().max) {
+            if (getInstance().twoTriplesAndAQuadruple_queue.size() >= getInstance().max ||
+                !getInstance().isFor(elgamalPublicKey)) {
                 return;
             }
             if (getInstance().populate_OK) {
@@ -291,9 +300,44 @@ namespace electionguard
         return result;
     }
 
+    std::unique_ptr<TwoTriplesAndAQuadruple>
+    PrecomputeBufferContext::getTwoTriplesAndAQuadruple(const ElementModP &elgamalPublicKey)
+    {
+        std::lock_guard<std::mutex> lock(queue_lock);
+        auto &queue = getInstance().twoTriplesAndAQuadruple_queue;
+        if (queue.empty() || !getInstance().isFor(elgamalPublicKey)) {
+            return nullptr;
+        }
+        auto result = std::move(queue.front());
+        queue.pop();
+        return result;
+    }
+
+    std::unique_ptr<Triple> PrecomputeBufferContext::getTriple(const ElementModP &elgamalPublicKey)
+    {
+        std::lock_guard<std::mutex> lock(queue_lock);
+        auto &queue = getInstance().triple_queue;
+        if (queue.empty() || !getInstance().isFor(elgamalPublicKey)) {
+            return nullptr;
+        }
+        auto result = std::move(queue.front());
+        queue.pop();
+        return result;
+    }
+
+    bool PrecomputeBufferContext::isFor(const ElementModP &elgamalPublicKey) const
+    {
+        return public_key != nullptr && *public_key == elgamalPublicKey;
+    }
+
     void PrecomputeBufferContext::empty_queues()
     {
         std::lock_guard<std::mutex> lock(queue_lock);
+        getInstance().clear();
+    }
+
+    void PrecomputeBufferContext::clear()
+    {
         uint32_t triple_size = getInstance().triple_queue.size();
         for (int i = 0; i < (int)triple_size; i++) {
             getInstance().triple_queue.pop();
-- 
2.43.0


From 1bf54a6c5739e08bead4899527ed2c4cd8813abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:45 +0000
Subject: [PATCH 35/57] fix: the precompute buffer's size, limit and stop flag
 are read without a data race

---
 include/electionguard/precompute_buffers.hpp | 3 ++-
 src/electionguard/precompute_buffers.cpp     | 9 +++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/electionguard/precompute_buffers.hpp b/include/electionguard/precompute_buffers.hpp
index f8ef62d..fc510c7 100644
--- a/include/electionguard/precompute_buffers.hpp
+++ b/include/electionguard/precompute_buffers.hpp
@@ -4,6 +4,7 @@
 #include "electionguard/group.hpp"
 
 #include <array>
+#include <atomic>
 #include <cstdint>
 #include <electionguard/constants.h>
 #include <electionguard/export.h>
@@ -258,7 +259,7 @@ namespace electionguard
         std::unique_ptr<ElementModP> public_key;
         uint32_t max = DEFAULT_PRECOMPUTE_SIZE;
         static std::mutex queue_lock;
-        bool populate_OK = false;
+        std::atomic<bool> populate_OK{false};
         std::queue<std::unique_ptr<Triple>> triple_queue;
         std::queue<std::unique_ptr<TwoTriplesAndAQuadruple>> twoTriplesAndAQuadruple_queue;
     };
diff --git a/src/electionguard/precompute_buffers.cpp b/src/electionguard/precompute_buffers.cpp
index 4bdc890..af3de54 100644
--- a/src/electionguard/precompute_buffers.cpp
+++ b/src/electionguard/precompute_buffers.cpp
@@ -256,15 +256,20 @@ namespace electionguard
             } else {
                 return;
             }
-        } while (getInstance().twoTriplesAndAQuadruple_queue.size() < getInstance().max);
+        } while (true);
     }
 
     void PrecomputeBufferContext::stop_populate() { getInstance().populate_OK = false; }
 
-    uint32_t PrecomputeBufferContext::get_max_queue_size() { return getInstance().max; }
+    uint32_t PrecomputeBufferContext::get_max_queue_size()
+    {
+        std::lock_guard<std::mutex> lock(queue_lock);
+        return getInstance().max;
+    }
 
     uint32_t PrecomputeBufferContext::get_current_queue_size()
     {
+        std::lock_guard<std::mutex> lock(queue_lock);
         return getInstance().twoTriplesAndAQuadruple_queue.size();
     }
 
-- 
2.43.0


From 2e5f230dadeee24e2dfad3b949e03ed2a7807cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:04 +0000
Subject: [PATCH 36/57] fix: rendering a shared group element does not modify
 it

---
 src/electionguard/group.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 91a340b..d621a20 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -110,7 +110,6 @@ namespace electionguard
 
         bool isFixedBase = false;
         uint64_t data[MAX_P_LEN] = {};
-        string hexRepresentation;
 
         Impl(const vector<uint64_t> &elem, bool unchecked, bool fixedBase)
         {
@@ -225,17 +224,12 @@ namespace electionguard
 
     string ElementModP::toHex() const
     {
-        if (!pimpl->hexRepresentation.empty()) {
-            return pimpl->hexRepresentation;
-        }
-
         // Returned bytes array from Hacl needs to be pre-allocated to 512 bytes
         uint8_t byteResult[MAX_P_SIZE] = {};
         // Use Hacl to convert the bignum to byte array
         Bignum4096::toBytes(static_cast<uint64_t *>(pimpl->data),
                             static_cast<uint8_t *>(byteResult));
-        pimpl->hexRepresentation = bytes_to_hex(byteResult);
-        return pimpl->hexRepresentation;
+        return bytes_to_hex(byteResult);
     }
 
     std::unique_ptr<ElementModP> ElementModP::clone() const
-- 
2.43.0


From 99d8f40a2dc3e6e80110be647a9d80e560ee3644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:49 +0000
Subject: [PATCH 37/57] fix: fixed base tables are looked up and added by one
 thread at a time

---
 src/electionguard/lookup_table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/lookup_table.hpp b/src/electionguard/lookup_table.hpp
index 00237a0..fd9aa95 100644
--- a/src/electionguard/lookup_table.hpp
+++ b/src/electionguard/lookup_table.hpp
@@ -166,14 +166,14 @@ namespace electionguard
         {
             LookupTableType *public_key_table = NULL;
             {
-                getInstance().task_lock.wait();
+                std::lock_guard<std::mutex> lock(getInstance().table_lock);
                 public_key_table = getInstance().getBaseLookupTable(key, base);
             }
             return public_key_table->pow_mod_p(exponent);
         }
 
       private:
-        AsyncSemaphore task_lock;
+        std::mutex table_lock;
         std::map<string, std::unique_ptr<LookupTableType>> key_map;
 
         LookupTableType *getBaseLookupTable(const string key, uint64_t (&base)[MAX_P_LEN])
-- 
2.43.0


From d4f5c333a04fe53862a05d189aad089b98bbb49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:49 +0000
Subject: [PATCH 38/57] fix: the logger is created once when threads first log
 at the same time

---
 src/electionguard/log.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/electionguard/log.cpp b/src/electionguard/log.cpp
index c2ad724..ffc11bd 100644
--- a/src/electionguard/log.cpp
+++ b/src/electionguard/log.cpp
@@ -80,17 +80,8 @@ namespace electionguard
     class Log::Impl
     {
       private:
-        Impl() {}
-
-      public:
-        shared_ptr<spdlog::logger> logger;
-
-        static Impl &instance()
+        Impl()
         {
-            static Impl _instance;
-            if (_instance.logger != nullptr)
-                return _instance;
-
             auto console = spdlog::stdout_logger_mt("console");
 #if LOG_DEBUG
             console->set_level(spdlog::level::debug);
@@ -101,7 +92,15 @@ namespace electionguard
 #endif
             spdlog::set_default_logger(console);
             spdlog::set_pattern("[%H:%M:%S:%e %z] [p: %P] [t: %t] [%l] :: %v");
-            _instance.logger = console;
+            logger = console;
+        }
+
+      public:
+        shared_ptr<spdlog::logger> logger;
+
+        static Impl &instance()
+        {
+            static Impl _instance;
             return _instance;
         }
     };
-- 
2.43.0


From 090ca165af23423220fe3f7e21a6e0cb0018700c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:41 +0000
Subject: [PATCH 39/57] fix: the whole value of an element is wiped when it is
 destroyed

The destructors passed the number of words where a number of bytes is expected,
so 28 of 32 bytes of an exponent and 448 of 512 bytes of a group element stayed
in released memory.
---
 src/electionguard/group.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index d621a20..a932deb 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -133,7 +133,7 @@ namespace electionguard
             copy(begin(elem), end(elem), begin(data));
         };
 
-        ~Impl() { Lib_Memzero0_memzero(static_cast<uint64_t *>(data), MAX_P_LEN); };
+        ~Impl() { Lib_Memzero0_memzero(static_cast<uint64_t *>(data), MAX_P_SIZE); };
 
         [[nodiscard]] unique_ptr<ElementModP::Impl> clone() const
         {
@@ -287,7 +287,7 @@ namespace electionguard
             copy(begin(elem), end(elem), begin(data));
         };
 
-        ~Impl() { Lib_Memzero0_memzero(static_cast<uint64_t *>(data), MAX_Q_LEN); };
+        ~Impl() { Lib_Memzero0_memzero(static_cast<uint64_t *>(data), MAX_Q_SIZE); };
 
         [[nodiscard]] unique_ptr<ElementModQ::Impl> clone() const
         {
-- 
2.43.0


From 34ddc0ec43de104542d88ea4f26f0f03b3876df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:43 +0000
Subject: [PATCH 40/57] fix: temporary copies of numbers are wiped before they
 are freed

---
 src/electionguard/group.cpp | 4 ++++
 src/electionguard/hash.cpp  | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index a932deb..576289a 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -437,6 +437,7 @@ namespace electionguard
         // and free the allocated resources
         uint64_t element[MAX_P_LEN] = {};
         memcpy(static_cast<uint64_t *>(element), bigNum, size);
+        Lib_Memzero0_memzero(bigNum, size);
         free(bigNum);
         return make_unique<electionguard::ElementModP>(element, unchecked);
     }
@@ -479,6 +480,7 @@ namespace electionguard
         // and free the allocated resources
         uint64_t element[MAX_Q_LEN] = {};
         memcpy(static_cast<uint64_t *>(element), bigNum, size);
+        Lib_Memzero0_memzero(bigNum, size);
         free(bigNum);
         return make_unique<electionguard::ElementModQ>(element, unchecked);
     }
@@ -815,6 +817,7 @@ namespace electionguard
 
         uint64_t element[MAX_P_LEN] = {0};
         memcpy(static_cast<uint64_t *>(element), bigNum, MAX_P_SIZE);
+        Lib_Memzero0_memzero(bigNum, MAX_P_SIZE);
         free(bigNum);
 
         auto random_p = make_unique<ElementModP>(element, true);
@@ -832,6 +835,7 @@ namespace electionguard
 
         uint64_t element[MAX_Q_LEN] = {0};
         memcpy(static_cast<uint64_t *>(element), bigNum, MAX_Q_SIZE);
+        Lib_Memzero0_memzero(bigNum, MAX_Q_SIZE);
         free(bigNum);
 
         auto random_q = make_unique<ElementModQ>(element, true);
diff --git a/src/electionguard/hash.cpp b/src/electionguard/hash.cpp
index 8ef4930..65540ba 100644
--- a/src/electionguard/hash.cpp
+++ b/src/electionguard/hash.cpp
@@ -2,6 +2,7 @@
 
 #include "../karamel/Hacl_Bignum256.h"
 #include "../karamel/Hacl_Streaming_SHA2.h"
+#include "../karamel/Lib_Memzero0.h"
 #include "log.hpp"
 
 #include <iomanip>
@@ -105,6 +106,7 @@ namespace electionguard
         uint64_t normalized[MAX_Q_LEN] = {};
         memcpy(static_cast<uint64_t *>(normalized), bigNum, sizeof(output));
         Hacl_Streaming_SHA2_free_256(p);
+        Lib_Memzero0_memzero(bigNum, sizeof(output));
         free(bigNum);
 
         auto element = make_unique<ElementModQ>(normalized, true);
-- 
2.43.0


From 7e564ea13bdd170b9c584dee0142566926390563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:18 +0000
Subject: [PATCH 41/57] fix: the result of a fixed base power is wiped before
 its buffer is freed

---
 src/electionguard/group.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 576289a..1fc20fb 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -627,7 +627,9 @@ namespace electionguard
             auto exp_ptr = exponent.get();
             auto result = LookupTableContext::pow_mod_p(hex, base.ref(), exponent.ref());
 
-            return make_unique<ElementModP>(result, true);
+            auto element = make_unique<ElementModP>(result, true);
+            Lib_Memzero0_memzero(result.data(), result.size() * sizeof(uint64_t));
+            return element;
         }
 
         // if none exists, execute the modular exponentiation directly
-- 
2.43.0


From fc2243ef4d8f279d13a1837577f2d312fb5e092c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:00 +0000
Subject: [PATCH 42/57] fix: text that is not hexadecimal is refused

stoi stops at the first character that is no digit, so that "1G" was read as 1,
and accepts a sign or a prefix within a byte.
---
 src/electionguard/convert.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/electionguard/convert.hpp b/src/electionguard/convert.hpp
index 2368c97..084bc24 100644
--- a/src/electionguard/convert.hpp
+++ b/src/electionguard/convert.hpp
@@ -53,8 +53,18 @@ namespace electionguard
         return static_cast<uint32_t>(size);
     }
 
+    /// Every character must be a hexadecimal digit, and every byte must have two
+    inline void require_hex_bytes(const string &hex)
+    {
+        if (hex.size() % 2 != 0 ||
+            hex.find_first_not_of("0123456789abcdefABCDEF") != string::npos) {
+            throw std::invalid_argument("the text is not hexadecimal");
+        }
+    }
+
     inline void hex_to_bytes(const string &hex, uint8_t *bytesOut)
     {
+        require_hex_bytes(hex);
         const size_t baseHex = 16;
         for (size_t i(0); i < hex.size(); i += 2) {
             string byteString = hex.substr(i, 2);
@@ -66,6 +76,7 @@ namespace electionguard
 
     inline vector<uint8_t> hex_to_bytes(const string &hexString)
     {
+        require_hex_bytes(hexString);
         vector<uint8_t> bytes;
         const size_t baseHex = 16;
         for (size_t i = 0; i < hexString.size(); i += 2) {
-- 
2.43.0


From b6991325c3b618dbdf741cd53a00e3e27510ad9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:00 +0000
Subject: [PATCH 43/57] fix: a text that is no date is refused

It was read as 1970-01-01.
---
 src/electionguard/convert.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/electionguard/convert.cpp b/src/electionguard/convert.cpp
index b5b93a8..854b3fd 100644
--- a/src/electionguard/convert.cpp
+++ b/src/electionguard/convert.cpp
@@ -7,6 +7,7 @@
 #include <iostream>
 #include <karamel/LowStar_Endianness.h>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -54,6 +55,9 @@ namespace electionguard
             ss.str(time);
             ss >> date::parse(secondaryFormat, tm);
         }
+        if (ss.fail() || ss.peek() != std::istringstream::traits_type::eof()) {
+            throw std::invalid_argument("the text is not a date: " + time);
+        }
 
         auto testTime = timePointToIsoString(tm, format);
         return tm;
-- 
2.43.0


From 04a2ab56054e8f3e5a8d0d6afdff7410a4d445f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:12 +0000
Subject: [PATCH 44/57] fix: a document that lacks a required member is refused

Reading a missing member of a constant json value is undefined (an assertion, or
an invalid reference).
---
 src/electionguard/serialize.hpp | 44 ++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 252d900..445651c 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -40,8 +40,8 @@ namespace electionguard
 
     static unique_ptr<AnnotatedString> annotatedStringFromJson(const json &j)
     {
-        auto value = j["value"].get<string>();
-        auto annotation = j["annotation"].get<string>();
+        auto value = j.at("value").get<string>();
+        auto annotation = j.at("annotation").get<string>();
         return make_unique<AnnotatedString>(annotation, value);
     }
 
@@ -52,8 +52,8 @@ namespace electionguard
 
     static unique_ptr<Language> languageFromJson(const json &j)
     {
-        auto value = j["value"].get<string>();
-        auto language = j["language"].get<string>();
+        auto value = j.at("value").get<string>();
+        auto language = j.at("language").get<string>();
         return make_unique<Language>(value, language);
     }
 
@@ -160,12 +160,12 @@ namespace electionguard
     {
         if (j.contains("contact_information") && !j["contact_information"].is_null()) {
             return make_unique<GeopoliticalUnit>(
-              j["object_id"].get<string>(), j["name"].get<string>(),
-              getReportingUnitType(j["type"].get<string>()),
+              j.at("object_id").get<string>(), j.at("name").get<string>(),
+              getReportingUnitType(j.at("type").get<string>()),
               contactInformationFromJson(j["contact_information"]));
         }
-        return make_unique<GeopoliticalUnit>(j["object_id"].get<string>(), j["name"].get<string>(),
-                                             getReportingUnitType(j["type"].get<string>()));
+        return make_unique<GeopoliticalUnit>(j.at("object_id").get<string>(), j.at("name").get<string>(),
+                                             getReportingUnitType(j.at("type").get<string>()));
     }
 
     static json
@@ -230,7 +230,7 @@ namespace electionguard
                       ? internationalizedTextFromJson(j["name"])
                       : internationalizedTextFromJson(json("{}"));
 
-        return make_unique<Party>(j["object_id"].get<string>(), move(name), abbreviation, color,
+        return make_unique<Party>(j.at("object_id").get<string>(), move(name), abbreviation, color,
                                   logo_uri);
     }
 
@@ -279,7 +279,7 @@ namespace electionguard
 
     static unique_ptr<Candidate> candidateFromJson(const json &j)
     {
-        auto objectId = j["object_id"].get<string>();
+        auto objectId = j.at("object_id").get<string>();
         auto name = j.contains("name") && !j["name"].is_null()
                       ? internationalizedTextFromJson(j["name"])
                       : internationalizedTextFromJson("{}");
@@ -343,7 +343,7 @@ namespace electionguard
     static unique_ptr<BallotStyle> ballotStyleFromJson(const json &j)
     {
         vector<string> gpUnitIds;
-        for (const auto &element : j["geopolitical_unit_ids"]) {
+        for (const auto &element : j.at("geopolitical_unit_ids")) {
             gpUnitIds.push_back(element);
         }
 
@@ -356,7 +356,7 @@ namespace electionguard
 
         auto imageUri =
           j.contains("image_uri") && !j["image_uri"].is_null() ? j["image_uri"].get<string>() : "";
-        return make_unique<BallotStyle>(j["object_id"].get<string>(), gpUnitIds, partyIds,
+        return make_unique<BallotStyle>(j.at("object_id").get<string>(), gpUnitIds, partyIds,
                                         imageUri);
     }
 
@@ -389,9 +389,9 @@ namespace electionguard
 
     static unique_ptr<SelectionDescription> selectionDescriptionFromJson(const json &j)
     {
-        return make_unique<SelectionDescription>(j["object_id"].get<string>(),
-                                                 j["candidate_id"].get<string>(),
-                                                 j["sequence_order"].get<uint64_t>());
+        return make_unique<SelectionDescription>(j.at("object_id").get<string>(),
+                                                 j.at("candidate_id").get<string>(),
+                                                 j.at("sequence_order").get<uint64_t>());
     }
 
     static json
@@ -443,18 +443,18 @@ namespace electionguard
 
     static unique_ptr<ContestDescription> contestDescriptionFromJson(const json &j)
     {
-        auto objectId = j["object_id"].get<string>();
-        auto electoralDistrictId = j["electoral_district_id"].get<string>();
-        auto sequenceOrder = j["sequence_order"].get<uint64_t>();
-        auto variation = getVoteVariationType(j["vote_variation"].get<string>());
-        auto elected = j["number_elected"].get<uint64_t>();
+        auto objectId = j.at("object_id").get<string>();
+        auto electoralDistrictId = j.at("electoral_district_id").get<string>();
+        auto sequenceOrder = j.at("sequence_order").get<uint64_t>();
+        auto variation = getVoteVariationType(j.at("vote_variation").get<string>());
+        auto elected = j.at("number_elected").get<uint64_t>();
         auto allowed =
           j.contains("votes_allowed") && !j["votes_allowed"].is_null()
             ? j["votes_allowed"].get<uint64_t>()
           : variation == VoteVariationType::n_of_m || variation == VoteVariationType::one_of_m
             ? elected
             : 0;
-        auto name = j["name"].get<string>();
+        auto name = j.at("name").get<string>();
         auto title = j.contains("ballot_title") && !j["ballot_title"].is_null()
                        ? internationalizedTextFromJson(j["ballot_title"])
                        : nullptr;
@@ -462,7 +462,7 @@ namespace electionguard
                           ? internationalizedTextFromJson(j["ballot_subtitle"])
                           : nullptr;
 
-        auto selections = selectionDescriptionsFromJson(j["ballot_selections"]);
+        auto selections = selectionDescriptionsFromJson(j.at("ballot_selections"));
 
         return make_unique<ContestDescription>(
           objectId, electoralDistrictId, sequenceOrder, variation, elected, allowed, name,
-- 
2.43.0


From 8c4b7328e19be57b61eeb764941d5ce5027e045c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:12 +0000
Subject: [PATCH 45/57] fix: values that are no unsigned integers are refused

Negative numbers, fractions and booleans were converted silently.
---
 src/electionguard/serialize.hpp | 53 +++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 445651c..cd8a153 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -33,6 +33,15 @@ namespace electionguard
 {
     // TODO: input sanitization and safety
 
+    /// json converts negative, fractional and boolean values silently
+    static uint64_t uint64FromJson(const json &j)
+    {
+        if (!j.is_number_unsigned() && !(j.is_number_integer() && j.get<int64_t>() >= 0)) {
+            throw std::invalid_argument("the value is not an unsigned integer");
+        }
+        return j.get<uint64_t>();
+    }
+
     static json annotatedStringToJson(const AnnotatedString &serializable)
     {
         return {{"annotation", serializable.getAnnotation()}, {"value", serializable.getValue()}};
@@ -391,7 +400,7 @@ namespace electionguard
     {
         return make_unique<SelectionDescription>(j.at("object_id").get<string>(),
                                                  j.at("candidate_id").get<string>(),
-                                                 j.at("sequence_order").get<uint64_t>());
+                                                 uint64FromJson(j.at("sequence_order")));
     }
 
     static json
@@ -445,12 +454,12 @@ namespace electionguard
     {
         auto objectId = j.at("object_id").get<string>();
         auto electoralDistrictId = j.at("electoral_district_id").get<string>();
-        auto sequenceOrder = j.at("sequence_order").get<uint64_t>();
+        auto sequenceOrder = uint64FromJson(j.at("sequence_order"));
         auto variation = getVoteVariationType(j.at("vote_variation").get<string>());
-        auto elected = j.at("number_elected").get<uint64_t>();
+        auto elected = uint64FromJson(j.at("number_elected"));
         auto allowed =
           j.contains("votes_allowed") && !j["votes_allowed"].is_null()
-            ? j["votes_allowed"].get<uint64_t>()
+            ? uint64FromJson(j["votes_allowed"])
           : variation == VoteVariationType::n_of_m || variation == VoteVariationType::one_of_m
             ? elected
             : 0;
@@ -661,9 +670,9 @@ namespace electionguard
                 for (auto &contest : contests) {
                     auto contest_object_id = contest["object_id"].get<string>();
                     auto electoral_district_id = contest["electoral_district_id"].get<string>();
-                    auto contest_sequence_order = contest["sequence_order"].get<uint64_t>();
+                    auto contest_sequence_order = uint64FromJson(contest["sequence_order"]);
                     auto vote_variation = contest["vote_variation"].get<string>();
-                    auto number_elected = contest["number_elected"].get<uint64_t>();
+                    auto number_elected = uint64FromJson(contest["number_elected"]);
                     auto name = contest["name"].get<string>();
 
                     auto selections = selectionDescriptionsFromJson(contest["ballot_selections"]);
@@ -673,7 +682,7 @@ namespace electionguard
                     auto variation = getVoteVariationType(vote_variation);
                     auto votes_allowed =
                       contest.contains("votes_allowed") && !contest["votes_allowed"].is_null()
-                        ? contest["votes_allowed"].get<uint64_t>()
+                        ? uint64FromJson(contest["votes_allowed"])
                       : variation == VoteVariationType::n_of_m ||
                           variation == VoteVariationType::one_of_m
                         ? number_elected
@@ -770,13 +779,13 @@ namespace electionguard
                 auto commitment_hash = j["commitment_hash"].get<string>();
                 auto manifest_hash = j["manifest_hash"].get<string>();
                 auto elgamal_public_key = j["elgamal_public_key"].get<string>();
-                auto number_of_guardians = j["number_of_guardians"].get<uint64_t>();
-                auto quorum = j["quorum"].get<uint64_t>();
+                auto number_of_guardians = uint64FromJson(j["number_of_guardians"]);
+                auto quorum = uint64FromJson(j["quorum"]);
                 bool allows_overvotes = true;
                 uint64_t max_ballots = DEFAULT_MAX_BALLOTS;
                 if (j.contains("configuration") && !j["configuration"].is_null()) {
                     allows_overvotes = j["configuration"]["allow_overvotes"].get<bool>();
-                    max_ballots = j["configuration"]["max_votes"].get<uint64_t>();
+                    max_ballots = uint64FromJson(j["configuration"]["max_votes"]);
                 }
 
                 auto commitmentHash = ElementModQ::fromHex(commitment_hash);
@@ -875,7 +884,7 @@ namespace electionguard
                     plaintextSelections.reserve(selections.size());
                     for (auto &selection : selections) {
                         auto selection_object_id = selection["object_id"].get<string>();
-                        auto vote = selection["vote"].get<uint64_t>();
+                        auto vote = uint64FromJson(selection["vote"]);
 
                         bool isPlaceholder = false;
                         if (selection.contains("is_placeholder_selection") &&
@@ -945,9 +954,9 @@ namespace electionguard
 
             static unique_ptr<electionguard::EncryptionDevice> toObject(json j)
             {
-                auto deviceUuid = j["device_id"].get<uint64_t>();
-                auto sessionUuid = j["session_id"].get<uint64_t>();
-                auto launchCode = j["launch_code"].get<uint64_t>();
+                auto deviceUuid = uint64FromJson(j["device_id"]);
+                auto sessionUuid = uint64FromJson(j["session_id"]);
+                auto launchCode = uint64FromJson(j["launch_code"]);
                 auto location = j["location"].get<string>();
 
                 return make_unique<electionguard::EncryptionDevice>(deviceUuid, sessionUuid,
@@ -1005,7 +1014,7 @@ namespace electionguard
                 vector<uint64_t> votes;
                 votes.reserve(selections.size());
                 for (auto &selection : selections) {
-                    auto vote = selection.get<uint64_t>();
+                    auto vote = uint64FromJson(selection);
                     votes.push_back(vote);
                 }
 
@@ -1144,7 +1153,7 @@ namespace electionguard
                 auto manifest_hash = j["manifest_hash"].get<string>();
                 auto code_seed = j["code_seed"].get<string>();
                 auto ballot_code = j["code"].get<string>();
-                auto timestamp = j["timestamp"].get<uint64_t>();
+                auto timestamp = uint64FromJson(j["timestamp"]);
                 auto ballot_nonce = j["nonce"].is_null() ? "" : j["nonce"].get<string>();
                 auto crypto_hash = j["crypto_hash"].get<string>();
 
@@ -1154,7 +1163,7 @@ namespace electionguard
                 ciphertextContests.reserve(contests.size());
                 for (auto &contest : contests) {
                     auto contest_object_id = contest["object_id"].get<string>();
-                    auto contest_sequence_order = contest["sequence_order"].get<uint64_t>();
+                    auto contest_sequence_order = uint64FromJson(contest["sequence_order"]);
                     auto contest_description_hash = contest["description_hash"].get<string>();
                     auto contest_nonce =
                       contest["nonce"].is_null() ? "" : contest["nonce"].get<string>();
@@ -1184,7 +1193,7 @@ namespace electionguard
                     auto contest_proof_data = proof["data"].get<string>();
                     auto contest_proof_challenge = proof["challenge"].get<string>();
                     auto contest_proof_response = proof["response"].get<string>();
-                    auto contest_proof_constant = proof["constant"].get<uint64_t>();
+                    auto contest_proof_constant = uint64FromJson(proof["constant"]);
 
                     auto deserializedProof = make_unique<electionguard::ConstantChaumPedersenProof>(
                       ElementModP::fromHex(contest_proof_pad),
@@ -1198,7 +1207,7 @@ namespace electionguard
                     ciphertextSelections.reserve(selections.size());
                     for (auto &selection : selections) {
                         auto selection_object_id = selection["object_id"].get<string>();
-                        auto selection_sequence_order = selection["sequence_order"].get<uint64_t>();
+                        auto selection_sequence_order = uint64FromJson(selection["sequence_order"]);
                         auto selection_description_hash =
                           selection["description_hash"].get<string>();
                         auto selection_is_placeholder_selection =
@@ -1339,7 +1348,7 @@ namespace electionguard
             static unique_ptr<electionguard::SubmittedBallot> toObject(json j)
             {
                 auto ciphertext = SubmittedBallotWrapper::toObjectWrapper(j);
-                auto state = electionguard::BallotBoxState(j["state"].get<uint64_t>());
+                auto state = electionguard::BallotBoxState(uint64FromJson(j["state"]));
                 // TODO: make this a move instead of a copy
                 return electionguard::SubmittedBallot::from(*ciphertext, state);
             }
@@ -1407,9 +1416,9 @@ namespace electionguard
                 auto codeSeed = j["code_seed"].get<string>();
                 auto ballotCode = j["code"].get<string>();
                 auto nonce = j["nonce"].get<string>();
-                auto timestamp = j["timestamp"].get<uint64_t>();
+                auto timestamp = uint64FromJson(j["timestamp"]);
                 auto ballotBoxState =
-                  electionguard::BallotBoxState(j["ballot_box_state"].get<uint64_t>());
+                  electionguard::BallotBoxState(uint64FromJson(j["ballot_box_state"]));
 
                 auto plaintext = CompactPlaintextBallotWrapper::toObjectWrapper(j["plaintext"]);
 
-- 
2.43.0


From 3c34e74d7912c9434526bd62ee4291f8ca11b189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:12 +0000
Subject: [PATCH 46/57] fix: texts, contact information and extended data of a
 wrong type are refused

They were read as if they were empty.
---
 src/electionguard/serialize.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index cd8a153..26705b1 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -42,6 +42,13 @@ namespace electionguard
         return j.get<uint64_t>();
     }
 
+    static void requireObject(const json &j)
+    {
+        if (!j.is_object()) {
+            throw std::invalid_argument("the value is not an object");
+        }
+    }
+
     static json annotatedStringToJson(const AnnotatedString &serializable)
     {
         return {{"annotation", serializable.getAnnotation()}, {"value", serializable.getValue()}};
@@ -77,6 +84,7 @@ namespace electionguard
 
     static unique_ptr<InternationalizedText> internationalizedTextFromJson(const json &j)
     {
+        requireObject(j);
         vector<unique_ptr<Language>> text;
         if (j.contains("text") && !j["text"].is_null()) {
             for (const auto &i : j["text"]) {
@@ -122,6 +130,7 @@ namespace electionguard
 
     static unique_ptr<ContactInformation> contactInformationFromJson(const json &j)
     {
+        requireObject(j);
         vector<string> addressLine;
         if (j.contains("address_line") && !j["address_line"].is_null()) {
             for (const auto &i : j["address_line"]) {
@@ -237,7 +246,7 @@ namespace electionguard
         }
         auto name = j.contains("name") && !j["name"].is_null()
                       ? internationalizedTextFromJson(j["name"])
-                      : internationalizedTextFromJson(json("{}"));
+                      : internationalizedTextFromJson(json::object());
 
         return make_unique<Party>(j.at("object_id").get<string>(), move(name), abbreviation, color,
                                   logo_uri);
@@ -291,7 +300,7 @@ namespace electionguard
         auto objectId = j.at("object_id").get<string>();
         auto name = j.contains("name") && !j["name"].is_null()
                       ? internationalizedTextFromJson(j["name"])
-                      : internationalizedTextFromJson("{}");
+                      : internationalizedTextFromJson(json::object());
         bool isWriteIn = j.contains("is_write_in") && !j["is_write_in"].is_null()
                            ? j["is_write_in"].get<bool>()
                            : false;
@@ -800,6 +809,7 @@ namespace electionguard
                   make_unique<ContextConfiguration>(allows_overvotes, max_ballots);
 
                 if (j.contains("extended_data") && !j["extended_data"].is_null()) {
+                    requireObject(j["extended_data"]);
                     std::unordered_map<string, string> extendedDataMap;
 
                     for (auto &[key, value] : j["extended_data"].items()) {
-- 
2.43.0


From 96c106d320629293cc7d87717138ae709d89c4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:20 +0000
Subject: [PATCH 47/57] fix: a number that is no ballot box state is refused

4294967296 was read as the state 0, and 4294967297 as cast.
---
 src/electionguard/serialize.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 26705b1..3c0b256 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -42,6 +42,17 @@ namespace electionguard
         return j.get<uint64_t>();
     }
 
+    static BallotBoxState ballotBoxStateFromJson(const json &j)
+    {
+        auto value = uint64FromJson(j);
+        for (auto state : {BallotBoxState::cast, BallotBoxState::spoiled, BallotBoxState::unknown}) {
+            if (value == static_cast<uint64_t>(state)) {
+                return state;
+            }
+        }
+        throw std::invalid_argument("the value is not a ballot box state");
+    }
+
     static void requireObject(const json &j)
     {
         if (!j.is_object()) {
@@ -1358,7 +1369,7 @@ namespace electionguard
             static unique_ptr<electionguard::SubmittedBallot> toObject(json j)
             {
                 auto ciphertext = SubmittedBallotWrapper::toObjectWrapper(j);
-                auto state = electionguard::BallotBoxState(uint64FromJson(j["state"]));
+                auto state = ballotBoxStateFromJson(j["state"]);
                 // TODO: make this a move instead of a copy
                 return electionguard::SubmittedBallot::from(*ciphertext, state);
             }
@@ -1427,8 +1438,7 @@ namespace electionguard
                 auto ballotCode = j["code"].get<string>();
                 auto nonce = j["nonce"].get<string>();
                 auto timestamp = uint64FromJson(j["timestamp"]);
-                auto ballotBoxState =
-                  electionguard::BallotBoxState(uint64FromJson(j["ballot_box_state"]));
+                auto ballotBoxState = ballotBoxStateFromJson(j["ballot_box_state"]);
 
                 auto plaintext = CompactPlaintextBallotWrapper::toObjectWrapper(j["plaintext"]);
 
-- 
2.43.0


From 5604ab7534997c7ab71e25d37dbcddc8a2d402b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:20 +0000
Subject: [PATCH 48/57] fix: a date that the clock cannot represent is refused

The conversion overflowed, so that a date in the year 3021 was read as one in 1852.
---
 src/electionguard/convert.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/electionguard/convert.cpp b/src/electionguard/convert.cpp
index 854b3fd..98ac2b9 100644
--- a/src/electionguard/convert.cpp
+++ b/src/electionguard/convert.cpp
@@ -58,6 +58,10 @@ namespace electionguard
         if (ss.fail() || ss.peek() != std::istringstream::traits_type::eof()) {
             throw std::invalid_argument("the text is not a date: " + time);
         }
+        if (tm > std::chrono::time_point_cast<std::chrono::seconds>(time_point::max()) ||
+            tm < std::chrono::time_point_cast<std::chrono::seconds>(time_point::min())) {
+            throw std::out_of_range("the date cannot be represented: " + time);
+        }
 
         auto testTime = timePointToIsoString(tm, format);
         return tm;
-- 
2.43.0


From d829a7a58fa5df2da089b1f7f0d5c51336a3cd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:36 +0000
Subject: [PATCH 49/57] fix: contact and candidate handles are read as what
 they are

---
 src/electionguard/facades/manifest.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/electionguard/facades/manifest.cpp b/src/electionguard/facades/manifest.cpp
index 5d9ecc0..a0085de 100644
--- a/src/electionguard/facades/manifest.cpp
+++ b/src/electionguard/facades/manifest.cpp
@@ -396,7 +396,7 @@ eg_electionguard_status_t eg_contact_information_get_name(eg_contact_information
                                                           const char **out_name)
 {
     try {
-        auto result = AS_TYPE(GeopoliticalUnit, handle)->getName();
+        auto result = AS_TYPE(ContactInformation, handle)->getName();
         *out_name = dynamicCopy(result);
 
         return ELECTIONGUARD_STATUS_SUCCESS;
@@ -410,7 +410,7 @@ eg_electionguard_status_t eg_contact_information_crypto_hash(eg_contact_informat
                                                              eg_element_mod_q_t **out_crypto_hash)
 {
     try {
-        auto result = AS_TYPE(InternationalizedText, handle)->crypto_hash();
+        auto result = AS_TYPE(ContactInformation, handle)->crypto_hash();
         *out_crypto_hash = AS_TYPE(eg_element_mod_q_t, result.release());
         return ELECTIONGUARD_STATUS_SUCCESS;
     } catch (const exception &e) {
@@ -965,7 +965,7 @@ eg_electionguard_status_t eg_candidate_crypto_hash(eg_candidate_t *handle,
                                                    eg_element_mod_q_t **out_crypto_hash)
 {
     try {
-        auto result = AS_TYPE(Party, handle)->crypto_hash();
+        auto result = AS_TYPE(Candidate, handle)->crypto_hash();
         *out_crypto_hash = AS_TYPE(eg_element_mod_q_t, result.release());
         return ELECTIONGUARD_STATUS_SUCCESS;
     } catch (const exception &e) {
-- 
2.43.0


From 3133aeb46659ab1105e072fca516956460eb6d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:36 +0000
Subject: [PATCH 50/57] fix: a context made from hex keeps its extended data

---
 src/electionguard/facades/election.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/facades/election.cpp b/src/electionguard/facades/election.cpp
index e2aa39e..1394f7b 100644
--- a/src/electionguard/facades/election.cpp
+++ b/src/electionguard/facades/election.cpp
@@ -327,8 +327,9 @@ eg_electionguard_status_t eg_ciphertext_election_context_make_from_hex_with_exte
             extendedData[string(edKey)] = string(edValue);
         }
 
-        auto context = CiphertextElectionContext::make(
-          in_number_of_guardians, in_quorum, elGamalPublicKey, commitmentHash, manifestHash);
+        auto context =
+          CiphertextElectionContext::make(in_number_of_guardians, in_quorum, elGamalPublicKey,
+                                          commitmentHash, manifestHash, extendedData);
         *out_handle = AS_TYPE(eg_ciphertext_election_context_t, context.release());
 
         return ELECTIONGUARD_STATUS_SUCCESS;
-- 
2.43.0


From 38677a936ca825aaadb7dad6ae8e52bd1af52507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:36 +0000
Subject: [PATCH 51/57] fix: the caller's nonce handle is not taken over by
 encryption

---
 src/electionguard/facades/encrypt.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/facades/encrypt.cpp b/src/electionguard/facades/encrypt.cpp
index a42fb42..f847f9a 100644
--- a/src/electionguard/facades/encrypt.cpp
+++ b/src/electionguard/facades/encrypt.cpp
@@ -350,7 +350,8 @@ eg_electionguard_status_t eg_encrypt_ballot_with_nonce(
         auto *context = AS_TYPE(CiphertextElectionContext, in_context);
         auto *code_seed = AS_TYPE(ElementModQ, in_ballot_code_seed);
         auto *nonce = AS_TYPE(ElementModQ, in_nonce);
-        unique_ptr<ElementModQ> nonce_ptr{nonce};
+        // the nonce stays with the caller
+        auto nonce_ptr = nonce != nullptr ? nonce->clone() : nullptr;
 
         auto ciphertext = encryptBallot(*plaintext, *manifest, *context, *code_seed,
                                         move(nonce_ptr), 0, in_should_verify_proofs);
@@ -413,7 +414,8 @@ eg_electionguard_status_t eg_encrypt_compact_ballot_with_nonce(
         auto *context = AS_TYPE(CiphertextElectionContext, in_context);
         auto *code_seed = AS_TYPE(ElementModQ, in_ballot_code_seed);
         auto *nonce = AS_TYPE(ElementModQ, in_nonce);
-        unique_ptr<ElementModQ> nonce_ptr{nonce};
+        // the nonce stays with the caller
+        auto nonce_ptr = nonce != nullptr ? nonce->clone() : nullptr;
 
         auto ciphertext = encryptCompactBallot(*plaintext, *manifest, *context, *code_seed,
                                                move(nonce_ptr), 0, in_should_verify_proofs);
-- 
2.43.0


From cc445a577363df0d9aa838ce691dc31ca4c21346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:06 +0000
Subject: [PATCH 52/57] fix: functions of the C interface are exported with the
 declared signature

---
 include/electionguard/ballot.h       | 23 +++++++++++------------
 include/electionguard/encrypt.h      |  3 ++-
 include/electionguard/manifest.h     |  9 ++++++---
 src/electionguard/facades/ballot.cpp | 15 ++++++++-------
 4 files changed, 27 insertions(+), 23 deletions(-)

diff --git a/include/electionguard/ballot.h b/include/electionguard/ballot.h
index 99fae7c..f5dcd61 100644
--- a/include/electionguard/ballot.h
+++ b/include/electionguard/ballot.h
@@ -85,10 +85,9 @@ EG_API eg_electionguard_status_t eg_plaintext_ballot_selection_new(
   const char *in_object_id, const uint64_t in_vote, bool in_is_placeholder_selection,
   eg_plaintext_ballot_selection_t **out_handle);
 
-EG_API eg_electionguard_status_t eg_plaintext_ballot_selection_new_with_extended_data(
+EG_API eg_electionguard_status_t eg_plaintext_ballot_selection_new_with_write_in(
   const char *in_object_id, const uint64_t in_vote, bool in_is_placeholder_selection,
-  const char *in_extended_data_value, uint64_t in_extended_data_length,
-  eg_plaintext_ballot_selection_t **out_handle);
+  const char *in_write_in, eg_plaintext_ballot_selection_t **out_handle);
 
 EG_API eg_electionguard_status_t
 eg_plaintext_ballot_selection_free(eg_plaintext_ballot_selection_t *handle);
@@ -117,14 +116,14 @@ EG_API bool
 eg_plaintext_ballot_selection_get_is_placeholder(eg_plaintext_ballot_selection_t *handle);
 
 /**
- * an optional field of arbitrary data, such as the value of a write-in candidate
+ * the text of a write-in candidate, empty if there is none
  * 
  * @param[in] handle A poiner to the `eg_plaintext_ballot_selection_t` opaque instance
- * @param[out] out_extended_data_ref A pointer to the extended data.  
-                                     The value is a reference and is not owned by the caller
+ * @param[out] out_write_in A pointer to the text.  The caller is responsible for freeing it.
  */
-EG_API eg_electionguard_status_t eg_plaintext_ballot_selection_get_extended_data(
-  eg_plaintext_ballot_selection_t *handle, eg_extended_data_t **out_extended_data_ref);
+EG_API eg_electionguard_status_t
+eg_plaintext_ballot_selection_get_write_in(eg_plaintext_ballot_selection_t *handle,
+                                           char **out_write_in);
 
 /**
  * Given a PlaintextBallotSelection validates that the object matches an expected object
@@ -431,7 +430,7 @@ EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_get_crypto_hash(
  *                           The value is a reference and is not owned by the caller
  */
 EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_get_proof(
-  eg_ciphertext_ballot_contest_t *handle, eg_disjunctive_chaum_pedersen_proof_t **out_proof_ref);
+  eg_ciphertext_ballot_contest_t *handle, eg_constant_chaum_pedersen_proof_t **out_proof_ref);
 
 /**
  * Given an encrypted Ballotcontest, generates a hash, suitable for rolling up
@@ -446,7 +445,7 @@ EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_get_proof(
  *                             The caller is responsible for lifecycle.
  */
 EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_crypto_hash_with(
-  eg_ciphertext_ballot_selection_t *handle, eg_element_mod_q_t *in_encryption_seed,
+  eg_ciphertext_ballot_contest_t *handle, eg_element_mod_q_t *in_encryption_seed,
   eg_element_mod_q_t **out_crypto_hash);
 
 // TODO: eg_ciphertext_ballot_contest_make
@@ -461,7 +460,7 @@ EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_crypto_hash_with(
  *                           The caller is responsible for the object lifecycle.
  */
 EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_aggregate_nonce(
-  eg_ciphertext_ballot_selection_t *handle, eg_element_mod_q_t **out_aggregate_nonce);
+  eg_ciphertext_ballot_contest_t *handle, eg_element_mod_q_t **out_aggregate_nonce);
 
 /**
  * Add the individual ballot_selections `message` fields together, suitable for use
@@ -471,7 +470,7 @@ EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_aggregate_nonce(
  *                                         The caller is responsible for the object lifecycle.
  */
 EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_elgamal_accumulate(
-  eg_ciphertext_ballot_selection_t *handle, eg_elgamal_ciphertext_t **out_ciphertext_accumulation);
+  eg_ciphertext_ballot_contest_t *handle, eg_elgamal_ciphertext_t **out_ciphertext_accumulation);
 
 /**
  * Given an encrypted BallotContest, validates the encryption state against a specific seed hash and public key
diff --git a/include/electionguard/encrypt.h b/include/electionguard/encrypt.h
index eb953ab..615b2cb 100644
--- a/include/electionguard/encrypt.h
+++ b/include/electionguard/encrypt.h
@@ -151,6 +151,7 @@ EG_API eg_electionguard_status_t eg_encrypt_selection(
 * votes
 *
 * @param[in] in_plaintext: the contest in the valid input form
+* @param[in] in_manifest: the `InternalManifest` which defines this ballot's structure
 * @param[in] in_description the `ContestDescriptionWithPlaceholders`
 *        from the `ContestDescription` which defines this contest's structure
 * @param[in] in_public_key the public key (k) used to encrypt the ballot
@@ -161,7 +162,7 @@ EG_API eg_electionguard_status_t eg_encrypt_selection(
 * @param[out] out_handle a handle to an `eg_ciphertext_ballot_contest_t`. Caller is responsible for lifecycle.
 */
 EG_API eg_electionguard_status_t eg_encrypt_contest(
-  eg_plaintext_ballot_contest_t *in_plaintext,
+  eg_plaintext_ballot_contest_t *in_plaintext, eg_internal_manifest_t *in_manifest,
   eg_contest_description_with_placeholders_t *in_description, eg_element_mod_p_t *in_public_key,
   eg_element_mod_q_t *in_crypto_extended_base_hash, eg_element_mod_q_t *in_nonce_seed,
   bool in_should_verify_proofs, eg_ciphertext_ballot_contest_t **out_handle);
diff --git a/include/electionguard/manifest.h b/include/electionguard/manifest.h
index a600e62..76a4c3d 100644
--- a/include/electionguard/manifest.h
+++ b/include/electionguard/manifest.h
@@ -595,7 +595,8 @@ EG_API eg_electionguard_status_t eg_contest_description_new_with_parties(
 
 EG_API eg_electionguard_status_t eg_contest_description_new_with_title_and_parties(
   const char *in_object_id, char *in_electoral_district_id, uint64_t in_sequence_order,
-  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected, char *in_name,
+  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected, uint64_t in_votes_allowed,
+  char *in_name,
   eg_internationalized_text_t *in_ballot_title, eg_internationalized_text_t *in_ballot_subtitle,
   eg_selection_description_t *in_selections[], uint64_t in_selections_size,
   char *in_primary_party_ids[], uint64_t in_primary_party_ids_size,
@@ -694,7 +695,8 @@ EG_API eg_electionguard_status_t eg_contest_description_with_placeholders_new(
 
 EG_API eg_electionguard_status_t eg_contest_description_with_placeholders_new_with_title(
   const char *in_object_id, char *in_electoral_district_id, uint64_t in_sequence_order,
-  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected, char *in_name,
+  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected, uint64_t in_votes_allowed,
+  char *in_name,
   eg_internationalized_text_t *in_ballot_title, eg_internationalized_text_t *in_ballot_subtitle,
   eg_selection_description_t *in_selections[], uint64_t in_selections_size,
   eg_selection_description_t *in_placeholder_selections[], uint64_t in_placeholder_selections_size,
@@ -711,7 +713,8 @@ EG_API eg_electionguard_status_t eg_contest_description_with_placeholders_new_wi
 EG_API eg_electionguard_status_t
 eg_contest_description_with_placeholders_new_with_title_and_parties(
   const char *in_object_id, char *in_electoral_district_id, uint64_t in_sequence_order,
-  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected, char *in_name,
+  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected, uint64_t in_votes_allowed,
+  char *in_name,
   eg_internationalized_text_t *in_ballot_title, eg_internationalized_text_t *in_ballot_subtitle,
   eg_selection_description_t *in_selections[], uint64_t in_selections_size,
   char *in_primary_party_ids[], uint64_t in_primary_party_ids_size,
diff --git a/src/electionguard/facades/ballot.cpp b/src/electionguard/facades/ballot.cpp
index 58a8e32..2ce6aa7 100644
--- a/src/electionguard/facades/ballot.cpp
+++ b/src/electionguard/facades/ballot.cpp
@@ -555,12 +555,12 @@ eg_ciphertext_ballot_contest_get_crypto_hash(eg_ciphertext_ballot_contest_t *han
 }
 
 eg_electionguard_status_t
-eg_ciphertext_ballot_contest_get_proof(eg_ciphertext_ballot_selection_t *handle,
-                                       eg_disjunctive_chaum_pedersen_proof_t **out_proof_ref)
+eg_ciphertext_ballot_contest_get_proof(eg_ciphertext_ballot_contest_t *handle,
+                                       eg_constant_chaum_pedersen_proof_t **out_proof_ref)
 {
     try {
         auto *reference = AS_TYPE(CiphertextBallotContest, handle)->getProof();
-        *out_proof_ref = AS_TYPE(eg_disjunctive_chaum_pedersen_proof_t, reference);
+        *out_proof_ref = AS_TYPE(eg_constant_chaum_pedersen_proof_t, reference);
         return ELECTIONGUARD_STATUS_SUCCESS;
     } catch (const exception &e) {
         Log::error("eg_ciphertext_ballot_contest_get_proof", e);
@@ -929,14 +929,15 @@ eg_ciphertext_ballot_get_ballot_code(eg_ciphertext_ballot_t *handle,
     }
 }
 
-uint64_t eg_ciphertext_ballot_get_timestamp(eg_ciphertext_ballot_t *ciphertext)
+eg_electionguard_status_t eg_ciphertext_ballot_get_timestamp(eg_ciphertext_ballot_t *handle,
+                                                             uint64_t *out_timestamp)
 {
     try {
-        auto result = AS_TYPE(CiphertextBallot, ciphertext)->getTimestamp();
-        return result;
+        *out_timestamp = AS_TYPE(CiphertextBallot, handle)->getTimestamp();
+        return ELECTIONGUARD_STATUS_SUCCESS;
     } catch (const exception &e) {
         Log::error(":eg_ciphertext_ballot_get_timestamp", e);
-        return 0;
+        return ELECTIONGUARD_STATUS_ERROR_BAD_ALLOC;
     }
 }
 
-- 
2.43.0


From c3ddf2d693d53948cabb10e4d3bbb2cba677330b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:07 +0000
Subject: [PATCH 53/57] fix: the name of an unknown status is given

---
 include/electionguard/status.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/electionguard/status.h b/include/electionguard/status.h
index c7dd091..af5fde1 100644
--- a/include/electionguard/status.h
+++ b/include/electionguard/status.h
@@ -36,7 +36,7 @@ static const char *const eg_electionguard_status_codes[] = {
 static const char *eg_electionguard_get_status(eg_electionguard_status_t status)
 {
     if (status >= ELECTIONGUARD_STATUS_UNKNOWN) {
-        eg_electionguard_status_codes[ELECTIONGUARD_STATUS_UNKNOWN];
+        return eg_electionguard_status_codes[ELECTIONGUARD_STATUS_UNKNOWN];
     }
     return eg_electionguard_status_codes[status];
 }
-- 
2.43.0


From 230ffd0f732c6afce6684f43d5f89fccadea4144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:32 +0000
Subject: [PATCH 54/57] fix: objects handed to a constructor of the C interface
 stay usable

The constructors moved out of the caller's handles, which were left without
content: any later use of them was a null dereference. Copy instead.
---
 src/electionguard/facades/ballot.cpp   |  4 +-
 src/electionguard/facades/manifest.cpp | 74 +++++++++++++-------------
 2 files changed, 39 insertions(+), 39 deletions(-)

diff --git a/src/electionguard/facades/ballot.cpp b/src/electionguard/facades/ballot.cpp
index 2ce6aa7..e04c961 100644
--- a/src/electionguard/facades/ballot.cpp
+++ b/src/electionguard/facades/ballot.cpp
@@ -350,7 +350,7 @@ eg_electionguard_status_t eg_plaintext_ballot_contest_new(
         for (uint64_t i = 0; i < in_selections_size; i++) {
             auto *element = AS_TYPE(PlaintextBallotSelection, in_selections[i]);
             unique_ptr<PlaintextBallotSelection> wrapped(
-              new PlaintextBallotSelection(std::move(*element)));
+              new PlaintextBallotSelection(*element));
             selections.push_back(std::move(wrapped));
         }
 
@@ -645,7 +645,7 @@ eg_electionguard_status_t eg_plaintext_ballot_new(char *in_object_id, char *in_s
         for (uint64_t i = 0; i < in_contests_size; i++) {
             auto *element = AS_TYPE(PlaintextBallotContest, in_contests[i]);
             unique_ptr<PlaintextBallotContest> wrapped(
-              new PlaintextBallotContest(std::move(*element)));
+              new PlaintextBallotContest(*element));
             contests.push_back(std::move(wrapped));
         }
 
diff --git a/src/electionguard/facades/manifest.cpp b/src/electionguard/facades/manifest.cpp
index a0085de..60c7daa 100644
--- a/src/electionguard/facades/manifest.cpp
+++ b/src/electionguard/facades/manifest.cpp
@@ -292,7 +292,7 @@ eg_electionguard_status_t eg_contact_information_new_with_collections(
         email.reserve(uint64_to_size(in_email_line_size));
         for (uint64_t i = 0; i < in_email_line_size; i++) {
             auto *element = AS_TYPE(AnnotatedString, in_email_line[i]);
-            unique_ptr<AnnotatedString> annotated(new AnnotatedString(std::move(*element)));
+            unique_ptr<AnnotatedString> annotated(new AnnotatedString(*element));
             email.push_back(std::move(annotated));
         }
 
@@ -300,7 +300,7 @@ eg_electionguard_status_t eg_contact_information_new_with_collections(
         email.reserve(uint64_to_size(in_phone_line_size));
         for (uint64_t i = 0; i < in_phone_line_size; i++) {
             auto *element = AS_TYPE(AnnotatedString, in_phone_line[i]);
-            unique_ptr<AnnotatedString> annotated(new AnnotatedString(std::move(*element)));
+            unique_ptr<AnnotatedString> annotated(new AnnotatedString(*element));
             phone.push_back(std::move(annotated));
         }
 
@@ -453,7 +453,7 @@ eg_electionguard_status_t eg_geopolitical_unit_new_with_contact_info(
 
         auto result =
           make_unique<GeopoliticalUnit>(objectId, name, (ReportingUnitType)in_reporting_unit_type,
-                                        make_unique<ContactInformation>(std::move(*contact)));
+                                        make_unique<ContactInformation>(*contact));
 
         *out_handle = AS_TYPE(eg_geopolitical_unit_t, result.release());
         return ELECTIONGUARD_STATUS_SUCCESS;
@@ -706,7 +706,7 @@ eg_electionguard_status_t eg_party_new_with_extras(char *in_object_id,
         auto logo = in_logo_uri;
 
         auto result =
-          make_unique<Party>(objectId, make_unique<InternationalizedText>(std::move(*name)),
+          make_unique<Party>(objectId, make_unique<InternationalizedText>(*name),
                              abbreviation, color, logo);
 
         *out_handle = AS_TYPE(eg_party_t, result.release());
@@ -860,7 +860,7 @@ eg_electionguard_status_t eg_candidate_new_with_extras(char *in_object_id,
         auto imageUri = string(in_image_uri);
 
         auto result =
-          make_unique<Candidate>(objectId, make_unique<InternationalizedText>(std::move(*name)),
+          make_unique<Candidate>(objectId, make_unique<InternationalizedText>(*name),
                                  partyId, imageUri, in_is_write_in);
 
         *out_handle = AS_TYPE(eg_candidate_t, result.release());
@@ -1080,7 +1080,7 @@ eg_contest_description_new(const char *in_object_id, char *in_electoral_district
         for (uint64_t i = 0; i < in_selections_size; i++) {
             auto *element = AS_TYPE(SelectionDescription, in_selections[i]);
             unique_ptr<SelectionDescription> annotated(
-              new SelectionDescription(std::move(*element)));
+              new SelectionDescription(*element));
             selections.push_back(std::move(annotated));
         }
 
@@ -1116,15 +1116,15 @@ eg_electionguard_status_t eg_contest_description_new_with_title(
         for (uint64_t i = 0; i < in_selections_size; i++) {
             auto *element = AS_TYPE(SelectionDescription, in_selections[i]);
             unique_ptr<SelectionDescription> annotated(
-              new SelectionDescription(std::move(*element)));
+              new SelectionDescription(*element));
             selections.push_back(std::move(annotated));
         }
 
         auto result = make_unique<ContestDescription>(
           objectId, electoraldistrictId, in_sequence_order, (VoteVariationType)in_vote_variation,
           in_number_elected, in_votes_allowed, name,
-          make_unique<InternationalizedText>(std::move(*ballotTitle)),
-          make_unique<InternationalizedText>(std::move(*ballotSubTitle)), move(selections));
+          make_unique<InternationalizedText>(*ballotTitle),
+          make_unique<InternationalizedText>(*ballotSubTitle), move(selections));
 
         *out_handle = AS_TYPE(eg_contest_description_t, result.release());
         return ELECTIONGUARD_STATUS_SUCCESS;
@@ -1151,7 +1151,7 @@ eg_electionguard_status_t eg_contest_description_new_with_parties(
         for (uint64_t i = 0; i < in_selections_size; i++) {
             auto *element = AS_TYPE(SelectionDescription, in_selections[i]);
             unique_ptr<SelectionDescription> annotated(
-              new SelectionDescription(std::move(*element)));
+              new SelectionDescription(*element));
             selections.push_back(std::move(annotated));
         }
 
@@ -1194,7 +1194,7 @@ eg_electionguard_status_t eg_contest_description_new_with_title_and_parties(
         for (uint64_t i = 0; i < in_selections_size; i++) {
             auto *element = AS_TYPE(SelectionDescription, in_selections[i]);
             unique_ptr<SelectionDescription> annotated(
-              new SelectionDescription(std::move(*element)));
+              new SelectionDescription(*element));
             selections.push_back(std::move(annotated));
         }
 
@@ -1207,8 +1207,8 @@ eg_electionguard_status_t eg_contest_description_new_with_title_and_parties(
         auto result = make_unique<ContestDescription>(
           objectId, electoraldistrictId, in_sequence_order, (VoteVariationType)in_vote_variation,
           in_number_elected, in_votes_allowed, name,
-          make_unique<InternationalizedText>(std::move(*ballotTitle)),
-          make_unique<InternationalizedText>(std::move(*ballotSubTitle)), move(selections),
+          make_unique<InternationalizedText>(*ballotTitle),
+          make_unique<InternationalizedText>(*ballotSubTitle), move(selections),
           move(partyIds));
 
         *out_handle = AS_TYPE(eg_contest_description_t, result.release());
@@ -1378,7 +1378,7 @@ eg_electionguard_status_t eg_contest_description_with_placeholders_new(
         for (uint64_t i = 0; i < in_selections_size; i++) {
             auto *element = AS_TYPE(SelectionDescription, in_selections[i]);
             unique_ptr<SelectionDescription> annotated(
-              new SelectionDescription(std::move(*element)));
+              new SelectionDescription(*element));
             selections.push_back(std::move(annotated));
         }
 
@@ -1387,7 +1387,7 @@ eg_electionguard_status_t eg_contest_description_with_placeholders_new(
         for (uint64_t i = 0; i < in_placeholder_selections_size; i++) {
             auto *element = AS_TYPE(SelectionDescription, in_placeholder_selections[i]);
             unique_ptr<SelectionDescription> annotated(
-              new SelectionDescription(std::move(*element)));
+              new SelectionDescription(*element));
             placeholders.push_back(std::move(annotated));
         }
 
@@ -1424,7 +1424,7 @@ eg_electionguard_status_t eg_contest_description_with_placeholders_new_with_titl
         for (uint64_t i = 0; i < in_selections_size; i++) {
             auto *element = AS_TYPE(SelectionDescription, in_selections[i]);
             unique_ptr<SelectionDescription> annotated(
-              new SelectionDescription(std::move(*element)));
+              new SelectionDescription(*element));
             selections.push_back(std::move(annotated));
         }
 
@@ -1433,15 +1433,15 @@ eg_electionguard_status_t eg_contest_description_with_placeholders_new_with_titl
         for (uint64_t i = 0; i < in_placeholder_selections_size; i++) {
             auto *element = AS_TYPE(SelectionDescription, in_placeholder_selections[i]);
             unique_ptr<SelectionDescription> annotated(
-              new SelectionDescription(std::move(*element)));
+              new SelectionDescription(*element));
             placeholders.push_back(std::move(annotated));
         }
 
         auto result = make_unique<ContestDescriptionWithPlaceholders>(
           objectId, electoraldistrictId, in_sequence_order, (VoteVariationType)in_vote_variation,
           in_number_elected, in_votes_allowed, name,
-          make_unique<InternationalizedText>(std::move(*ballotTitle)),
-          make_unique<InternationalizedText>(std::move(*ballotSubTitle)), move(selections),
+          make_unique<InternationalizedText>(*ballotTitle),
+          make_unique<InternationalizedText>(*ballotSubTitle), move(selections),
           move(placeholders));
 
         *out_handle = AS_TYPE(eg_contest_description_with_placeholders_t, result.release());
@@ -1470,7 +1470,7 @@ eg_electionguard_status_t eg_contest_description_with_placeholders_new_with_part
         for (uint64_t i = 0; i < in_selections_size; i++) {
             auto *element = AS_TYPE(SelectionDescription, in_selections[i]);
             unique_ptr<SelectionDescription> annotated(
-              new SelectionDescription(std::move(*element)));
+              new SelectionDescription(*element));
             selections.push_back(std::move(annotated));
         }
 
@@ -1479,7 +1479,7 @@ eg_electionguard_status_t eg_contest_description_with_placeholders_new_with_part
         for (uint64_t i = 0; i < in_placeholder_selections_size; i++) {
             auto *element = AS_TYPE(SelectionDescription, in_placeholder_selections[i]);
             unique_ptr<SelectionDescription> annotated(
-              new SelectionDescription(std::move(*element)));
+              new SelectionDescription(*element));
             placeholders.push_back(std::move(annotated));
         }
 
@@ -1523,7 +1523,7 @@ eg_electionguard_status_t eg_contest_description_with_placeholders_new_with_titl
         for (uint64_t i = 0; i < in_selections_size; i++) {
             auto *element = AS_TYPE(SelectionDescription, in_selections[i]);
             unique_ptr<SelectionDescription> annotated(
-              new SelectionDescription(std::move(*element)));
+              new SelectionDescription(*element));
             selections.push_back(std::move(annotated));
         }
 
@@ -1532,7 +1532,7 @@ eg_electionguard_status_t eg_contest_description_with_placeholders_new_with_titl
         for (uint64_t i = 0; i < in_placeholder_selections_size; i++) {
             auto *element = AS_TYPE(SelectionDescription, in_placeholder_selections[i]);
             unique_ptr<SelectionDescription> annotated(
-              new SelectionDescription(std::move(*element)));
+              new SelectionDescription(*element));
             placeholders.push_back(std::move(annotated));
         }
 
@@ -1545,8 +1545,8 @@ eg_electionguard_status_t eg_contest_description_with_placeholders_new_with_titl
         auto result = make_unique<ContestDescriptionWithPlaceholders>(
           objectId, electoraldistrictId, in_sequence_order, (VoteVariationType)in_vote_variation,
           in_number_elected, in_votes_allowed, name,
-          make_unique<InternationalizedText>(std::move(*ballotTitle)),
-          make_unique<InternationalizedText>(std::move(*ballotSubTitle)), move(selections),
+          make_unique<InternationalizedText>(*ballotTitle),
+          make_unique<InternationalizedText>(*ballotSubTitle), move(selections),
           move(partyIds), move(placeholders));
 
         *out_handle = AS_TYPE(eg_contest_description_with_placeholders_t, result.release());
@@ -1642,7 +1642,7 @@ eg_election_manifest_new(char *in_election_scope_id, eg_election_type_t in_elect
         gpUnits.reserve(uint64_to_size(in_geopolitical_units_size));
         for (uint64_t i = 0; i < in_geopolitical_units_size; i++) {
             auto *element = AS_TYPE(GeopoliticalUnit, in_geopolitical_units[i]);
-            unique_ptr<GeopoliticalUnit> annotated(new GeopoliticalUnit(std::move(*element)));
+            unique_ptr<GeopoliticalUnit> annotated(new GeopoliticalUnit(*element));
             gpUnits.push_back(std::move(annotated));
         }
 
@@ -1650,7 +1650,7 @@ eg_election_manifest_new(char *in_election_scope_id, eg_election_type_t in_elect
         parties.reserve(uint64_to_size(in_parties_size));
         for (uint64_t i = 0; i < in_parties_size; i++) {
             auto *element = AS_TYPE(Party, in_parties[i]);
-            unique_ptr<Party> annotated(new Party(std::move(*element)));
+            unique_ptr<Party> annotated(new Party(*element));
             parties.push_back(std::move(annotated));
         }
 
@@ -1658,7 +1658,7 @@ eg_election_manifest_new(char *in_election_scope_id, eg_election_type_t in_elect
         candidates.reserve(uint64_to_size(in_candidates_size));
         for (uint64_t i = 0; i < in_candidates_size; i++) {
             auto *element = AS_TYPE(Candidate, in_candidates[i]);
-            unique_ptr<Candidate> annotated(new Candidate(std::move(*element)));
+            unique_ptr<Candidate> annotated(new Candidate(*element));
             candidates.push_back(std::move(annotated));
         }
 
@@ -1666,7 +1666,7 @@ eg_election_manifest_new(char *in_election_scope_id, eg_election_type_t in_elect
         contests.reserve(uint64_to_size(in_contests_size));
         for (uint64_t i = 0; i < in_contests_size; i++) {
             auto *element = AS_TYPE(ContestDescription, in_contests[i]);
-            unique_ptr<ContestDescription> annotated(new ContestDescription(std::move(*element)));
+            unique_ptr<ContestDescription> annotated(new ContestDescription(*element));
             contests.push_back(std::move(annotated));
         }
 
@@ -1674,7 +1674,7 @@ eg_election_manifest_new(char *in_election_scope_id, eg_election_type_t in_elect
         ballotStyles.reserve(uint64_to_size(in_ballot_styles_size));
         for (uint64_t i = 0; i < in_ballot_styles_size; i++) {
             auto *element = AS_TYPE(BallotStyle, in_ballot_styles[i]);
-            unique_ptr<BallotStyle> annotated(new BallotStyle(std::move(*element)));
+            unique_ptr<BallotStyle> annotated(new BallotStyle(*element));
             ballotStyles.push_back(std::move(annotated));
         }
 
@@ -1709,7 +1709,7 @@ eg_electionguard_status_t eg_election_manifest_new_with_contact(
         gpUnits.reserve(uint64_to_size(in_geopolitical_units_size));
         for (uint64_t i = 0; i < in_geopolitical_units_size; i++) {
             auto *element = AS_TYPE(GeopoliticalUnit, in_geopolitical_units[i]);
-            unique_ptr<GeopoliticalUnit> annotated(new GeopoliticalUnit(std::move(*element)));
+            unique_ptr<GeopoliticalUnit> annotated(new GeopoliticalUnit(*element));
             gpUnits.push_back(std::move(annotated));
         }
 
@@ -1717,7 +1717,7 @@ eg_electionguard_status_t eg_election_manifest_new_with_contact(
         parties.reserve(uint64_to_size(in_parties_size));
         for (uint64_t i = 0; i < in_parties_size; i++) {
             auto *element = AS_TYPE(Party, in_parties[i]);
-            unique_ptr<Party> annotated(new Party(std::move(*element)));
+            unique_ptr<Party> annotated(new Party(*element));
             parties.push_back(std::move(annotated));
         }
 
@@ -1725,7 +1725,7 @@ eg_electionguard_status_t eg_election_manifest_new_with_contact(
         candidates.reserve(uint64_to_size(in_candidates_size));
         for (uint64_t i = 0; i < in_candidates_size; i++) {
             auto *element = AS_TYPE(Candidate, in_candidates[i]);
-            unique_ptr<Candidate> annotated(new Candidate(std::move(*element)));
+            unique_ptr<Candidate> annotated(new Candidate(*element));
             candidates.push_back(std::move(annotated));
         }
 
@@ -1733,7 +1733,7 @@ eg_electionguard_status_t eg_election_manifest_new_with_contact(
         contests.reserve(uint64_to_size(in_contests_size));
         for (uint64_t i = 0; i < in_contests_size; i++) {
             auto *element = AS_TYPE(ContestDescription, in_contests[i]);
-            unique_ptr<ContestDescription> annotated(new ContestDescription(std::move(*element)));
+            unique_ptr<ContestDescription> annotated(new ContestDescription(*element));
             contests.push_back(std::move(annotated));
         }
 
@@ -1741,7 +1741,7 @@ eg_electionguard_status_t eg_election_manifest_new_with_contact(
         ballotStyles.reserve(uint64_to_size(in_ballot_styles_size));
         for (uint64_t i = 0; i < in_ballot_styles_size; i++) {
             auto *element = AS_TYPE(BallotStyle, in_ballot_styles[i]);
-            unique_ptr<BallotStyle> annotated(new BallotStyle(std::move(*element)));
+            unique_ptr<BallotStyle> annotated(new BallotStyle(*element));
             ballotStyles.push_back(std::move(annotated));
         }
 
@@ -1751,8 +1751,8 @@ eg_electionguard_status_t eg_election_manifest_new_with_contact(
         auto result = make_unique<Manifest>(
           scopeId, (ElectionType)in_election_type, startDate, endDate, move(gpUnits), move(parties),
           move(candidates), move(contests), move(ballotStyles),
-          make_unique<InternationalizedText>(std::move(*name)),
-          make_unique<ContactInformation>(std::move(*contactInfo)));
+          make_unique<InternationalizedText>(*name),
+          make_unique<ContactInformation>(*contactInfo));
 
         *out_handle = AS_TYPE(eg_election_manifest_t, result.release());
         return ELECTIONGUARD_STATUS_SUCCESS;
-- 
2.43.0


From f89520aafcafdaea9f1a8708ea7778f86afbf9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:19 +0000
Subject: [PATCH 55/57] fix: bytes that are no element do not leak their copy

---
 src/electionguard/group.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 1fc20fb..fed8ecd 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -449,12 +449,10 @@ namespace electionguard
     unique_ptr<electionguard::ElementModP> bytes_to_p(vector<uint8_t> bytes,
                                                       bool unchecked /* = false */)
     {
-        auto *array = new uint8_t[bytes.size()];
-        copy(bytes.begin(), bytes.end(), array);
+        auto array = make_unique<uint8_t[]>(bytes.size());
+        copy(bytes.begin(), bytes.end(), array.get());
 
-        auto element = bytes_to_p(array, bytes.size(), unchecked);
-        delete[] array;
-        return element;
+        return bytes_to_p(array.get(), bytes.size(), unchecked);
     }
 
     /// <summary>
@@ -488,12 +486,10 @@ namespace electionguard
     unique_ptr<electionguard::ElementModQ> bytes_to_q(vector<uint8_t> bytes,
                                                       bool unchecked /* = false */)
     {
-        auto *array = new uint8_t[bytes.size()];
-        copy(bytes.begin(), bytes.end(), array);
+        auto array = make_unique<uint8_t[]>(bytes.size());
+        copy(bytes.begin(), bytes.end(), array.get());
 
-        auto element = bytes_to_q(array, bytes.size(), unchecked);
-        delete[] array;
-        return element;
+        return bytes_to_q(array.get(), bytes.size(), unchecked);
     }
 
 #pragma endregion
-- 
2.43.0


From 8b9424c359a285221f61e804110593be2a2c4ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:20 +0000
Subject: [PATCH 56/57] fix: the C interface reports a valid contest as valid

isValid returns zero (SUCCESS) for a valid contest; converted to bool, valid
contests were reported invalid and all others valid.
---
 src/electionguard/facades/ballot.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/facades/ballot.cpp b/src/electionguard/facades/ballot.cpp
index e04c961..af135a5 100644
--- a/src/electionguard/facades/ballot.cpp
+++ b/src/electionguard/facades/ballot.cpp
@@ -427,8 +427,9 @@ bool eg_plaintext_ballot_contest_is_valid(eg_plaintext_ballot_contest_t *handle,
 {
     try {
         return AS_TYPE(PlaintextBallotContest, handle)
-          ->isValid(string(in_expected_object_id), in_expected_num_selections,
-                    in_expected_num_elected, in_votes_allowed);
+                 ->isValid(string(in_expected_object_id), in_expected_num_selections,
+                           in_expected_num_elected, in_votes_allowed) ==
+               electionguard::SUCCESS;
     } catch (const exception &e) {
         Log::error("eg_plaintext_ballot_contest_is_valid", e);
         return false;
-- 
2.43.0


From f61aa64874ea4ac562be6b13405c2b45d1a4462d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:31 +0000
Subject: [PATCH 57/57] fix: compact ballots are encrypted and expanded from
 their nonce alone

While precomputed values were waiting, compact encryption used their
exponents in place of the nonces derived from the ballot's nonce, which
is all the compact form keeps: the ballot could never be expanded again.
Expansion likewise took waiting values and then failed.
---
 include/electionguard/elgamal.hpp    |  5 ++++-
 include/electionguard/encrypt.hpp    | 14 ++++++++----
 src/electionguard/ballot_compact.cpp |  3 ++-
 src/electionguard/elgamal.cpp        |  6 ++++--
 src/electionguard/encrypt.cpp        | 32 +++++++++++++++++-----------
 5 files changed, 40 insertions(+), 20 deletions(-)

diff --git a/include/electionguard/elgamal.hpp b/include/electionguard/elgamal.hpp
index 251e81c..e469d1f 100644
--- a/include/electionguard/elgamal.hpp
+++ b/include/electionguard/elgamal.hpp
@@ -264,12 +264,15 @@ namespace electionguard
     ///  the NO_PADDING padded_data_size_t enumeration value.</param>
     /// <param name="allow_truncation"> Truncates data to the max_len if set to
     /// true. If max_len is set to NO_PADDING then this parameter is ignored. </param>
+    /// <param name="use_precomputed_values"> Specifies if a waiting precomputed
+    /// triple may take the place of the nonce (default true). </param>
     /// <returns>A ciphertext triple.</returns>
     /// </summary>
     EG_API std::unique_ptr<HashedElGamalCiphertext>
     hashedElgamalEncrypt(std::vector<uint8_t> plaintext, const ElementModQ &nonce,
                          const ElementModP &publicKey, const ElementModQ &descriptionHash,
-                         padded_data_size_t max_len, bool allow_truncation);
+                         padded_data_size_t max_len, bool allow_truncation,
+                         bool use_precomputed_values = true);
 
 } // namespace electionguard
 
diff --git a/include/electionguard/encrypt.hpp b/include/electionguard/encrypt.hpp
index ee072f4..5fd2f06 100644
--- a/include/electionguard/encrypt.hpp
+++ b/include/electionguard/encrypt.hpp
@@ -123,13 +123,15 @@ namespace electionguard
     ///                          Contest nonce, but no relationship is required</param>
     /// <param name="isPlaceholder">specifies if this is a placeholder selection</param>
     /// <param name="shouldVerifyProofs">specify if the proofs should be verified prior to returning (default True)</param>
+    /// <param name="usePrecomputedValues">specify if waiting precomputed values may take the place of those derived from the nonce (default True)</param>
     /// <returns>A `CiphertextBallotSelection`</returns>
     /// </summary>
     EG_API std::unique_ptr<CiphertextBallotSelection>
     encryptSelection(const PlaintextBallotSelection &selection,
                      const SelectionDescription &description, const ElementModP &elgamalPublicKey,
                      const ElementModQ &cryptoExtendedBaseHash, const ElementModQ &nonceSeed,
-                     bool isPlaceholder = false, bool shouldVerifyProofs = true);
+                     bool isPlaceholder = false, bool shouldVerifyProofs = true,
+                     bool usePrecomputedValues = true);
 
     /// <summary>
     /// Gets overvote and write in information from the selections in a contest
@@ -163,13 +165,15 @@ namespace electionguard
     ///                          for this contest. this value can be (or derived from) the
     ///                          Ballot nonce, but no relationship is required</param>
     /// <param name="shouldVerifyProofs">specify if the proofs should be verified prior to returning (default True)</param>
+    /// <param name="usePrecomputedValues">specify if waiting precomputed values may take the place of those derived from the nonce (default True)</param>
     /// <returns>A `CiphertextBallotContest`</returns>
     /// </summary>
     EG_API std::unique_ptr<CiphertextBallotContest>
     encryptContest(const PlaintextBallotContest &contest, const InternalManifest &internalManifest,
                    const ContestDescriptionWithPlaceholders &description,
                    const ElementModP &elgamalPublicKey, const ElementModQ &cryptoExtendedBaseHash,
-                   const ElementModQ &nonceSeed, bool shouldVerifyProofs = true);
+                   const ElementModQ &nonceSeed, bool shouldVerifyProofs = true,
+                   bool usePrecomputedValues = true);
 
     /// <summary>
     /// Encrypt the contests of a specific `Ballot` in the context of a specific `CiphertextElectionContext`
@@ -187,12 +191,13 @@ namespace electionguard
     /// <param name="context">all the cryptographic context for the election</param>
     /// <param name="nonceSeed">the random value used to seed the `Nonce` for all contests on the ballot</param>
     /// <param name="shouldVerifyProofs">specify if the proofs should be verified prior to returning (default True)</param>
+    /// <param name="usePrecomputedValues">specify if waiting precomputed values may take the place of those derived from the nonce (default True)</param>
     /// <returns>A collection of `CiphertextBallotContest`</returns>
     /// </summary>
     EG_API std::vector<std::unique_ptr<CiphertextBallotContest>>
     encryptContests(const PlaintextBallot &ballot, const InternalManifest &internalManifest,
                     const CiphertextElectionContext &context, const ElementModQ &nonceSeed,
-                    bool shouldVerifyProofs = true);
+                    bool shouldVerifyProofs = true, bool usePrecomputedValues = true);
 
     /// <summary>
     /// Encrypt a specific `Ballot` in the context of a specific `CiphertextElectionContext`
@@ -212,13 +217,14 @@ namespace electionguard
     /// <param name="nonce">an optional value used to seed the `Nonce` generated for this ballot
     ///                     if this value is not provided, the secret generating mechanism of the OS provides its own</param>
     /// <param name="shouldVerifyProofs">specify if the proofs should be verified prior to returning (default True)</param>
+    /// <param name="usePrecomputedValues">specify if waiting precomputed values may take the place of those derived from the nonce (default True)</param>
     /// <returns>A `CiphertextBallot`</returns>
     /// </summary>
     EG_API std::unique_ptr<CiphertextBallot>
     encryptBallot(const PlaintextBallot &ballot, const InternalManifest &internalManifest,
                   const CiphertextElectionContext &context, const ElementModQ &ballotCodeSeed,
                   std::unique_ptr<ElementModQ> nonce = nullptr, uint64_t timestamp = 0,
-                  bool shouldVerifyProofs = true);
+                  bool shouldVerifyProofs = true, bool usePrecomputedValues = true);
 
     /// <summary>
     /// Encrypt a specific `Ballot` in the context of a specific `CiphertextElectionContext`
diff --git a/src/electionguard/ballot_compact.cpp b/src/electionguard/ballot_compact.cpp
index 44c6a5c..ec81d58 100644
--- a/src/electionguard/ballot_compact.cpp
+++ b/src/electionguard/ballot_compact.cpp
@@ -327,7 +327,8 @@ namespace electionguard
         auto plaintext = expandCompactPlaintextBallot(*compactCiphertext.getPlaintext(), manifest);
         auto ciphertext =
           encryptBallot(*plaintext, manifest, context, *compactCiphertext.getBallotCodeSeed(),
-                        compactCiphertext.getNonce()->clone(), compactCiphertext.getTimestamp());
+                        compactCiphertext.getNonce()->clone(), compactCiphertext.getTimestamp(), true,
+                        false);
 
         if (*ciphertext->getBallotCode() != *compactCiphertext.getBallotCode()) {
             throw runtime_error("The regenerated ballot code does not match");
diff --git a/src/electionguard/elgamal.cpp b/src/electionguard/elgamal.cpp
index 19dc776..f36f1e0 100644
--- a/src/electionguard/elgamal.cpp
+++ b/src/electionguard/elgamal.cpp
@@ -453,7 +453,8 @@ namespace electionguard
     unique_ptr<HashedElGamalCiphertext>
     hashedElgamalEncrypt(std::vector<uint8_t> message, const ElementModQ &nonce,
                          const ElementModP &publicKey, const ElementModQ &encryption_seed,
-                         padded_data_size_t max_len, bool allow_truncation)
+                         padded_data_size_t max_len, bool allow_truncation,
+                         bool use_precomputed_values /* = true */)
     {
         vector<uint8_t> ciphertext;
         vector<uint8_t> plaintext_on_boundary;
@@ -514,7 +515,8 @@ namespace electionguard
         unique_ptr<ElementModP> g_to_r = nullptr;
         unique_ptr<ElementModP> publicKey_to_r = nullptr;
         // check if the are precompute values rather than doing the exponentiations here
-        unique_ptr<Triple> triple = PrecomputeBufferContext::getTriple(publicKey);
+        unique_ptr<Triple> triple =
+          use_precomputed_values ? PrecomputeBufferContext::getTriple(publicKey) : nullptr;
         if (triple != nullptr) {
             g_to_r = triple->get_g_to_exp();
             publicKey_to_r = triple->get_pubkey_to_exp();
diff --git a/src/electionguard/encrypt.cpp b/src/electionguard/encrypt.cpp
index 352b053..c269783 100644
--- a/src/electionguard/encrypt.cpp
+++ b/src/electionguard/encrypt.cpp
@@ -264,7 +264,8 @@ namespace electionguard
     encryptSelection(const PlaintextBallotSelection &selection,
                      const SelectionDescription &description, const ElementModP &elgamalPublicKey,
                      const ElementModQ &cryptoExtendedBaseHash, const ElementModQ &nonceSeed,
-                     bool isPlaceholder /* = false */, bool shouldVerifyProofs /* = true */)
+                     bool isPlaceholder /* = false */, bool shouldVerifyProofs /* = true */,
+                     bool usePrecomputedValues /* = true */)
     {
         unique_ptr<CiphertextBallotSelection> encrypted = NULL;
         unique_ptr<ElGamalCiphertext> ciphertext;
@@ -287,8 +288,10 @@ namespace electionguard
 
         // this method runs off to look in the precomputed values buffer and if
         // it finds what it needs then the returned class will contain those values
-        precomputedTwoTriplesAndAQuad =
-          PrecomputeBufferContext::getTwoTriplesAndAQuadruple(elgamalPublicKey);
+        if (usePrecomputedValues) {
+            precomputedTwoTriplesAndAQuad =
+              PrecomputeBufferContext::getTwoTriplesAndAQuadruple(elgamalPublicKey);
+        }
 
         // check if we found the precomputed values needed
         if (precomputedTwoTriplesAndAQuad != nullptr) {
@@ -412,7 +415,8 @@ namespace electionguard
     encryptContest(const PlaintextBallotContest &contest, const InternalManifest &internalManifest,
                    const ContestDescriptionWithPlaceholders &description,
                    const ElementModP &elgamalPublicKey, const ElementModQ &cryptoExtendedBaseHash,
-                   const ElementModQ &nonceSeed, bool shouldVerifyProofs /* = true */)
+                   const ElementModQ &nonceSeed, bool shouldVerifyProofs /* = true */,
+                   bool usePrecomputedValues /* = true */)
 
     {
         // Validate Input
@@ -478,7 +482,8 @@ namespace electionguard
 
                 encryptedSelections.push_back(encryptSelection(
                   *selection_ptr, selectionDescription.get(), *elgamalPublicKey_ptr,
-                  *cryptoExtendedBaseHash_ptr, *sharedNonce.get(), false, shouldVerifyProofs));
+                  *cryptoExtendedBaseHash_ptr, *sharedNonce.get(), false, shouldVerifyProofs,
+                  usePrecomputedValues));
             } else {
                 // Should never happen since the contest is normalized by emplaceMissingValues
                 throw runtime_error("encryptedContest:: Error constructing encrypted selection");
@@ -506,7 +511,8 @@ namespace electionguard
             auto placeholderSelection = selectionFrom(placeholder, true, selectPlaceholder);
             encryptedSelections.push_back(encryptSelection(
               *placeholderSelection, placeholder, *elgamalPublicKey_ptr,
-              *cryptoExtendedBaseHash_ptr, *sharedNonce.get(), true, shouldVerifyProofs));
+              *cryptoExtendedBaseHash_ptr, *sharedNonce.get(), true, shouldVerifyProofs,
+              usePrecomputedValues));
         }
 
         // Derive the extendedDataNonce from the selection nonce and a constant
@@ -519,7 +525,7 @@ namespace electionguard
         // Perform HashedElGamalCiphertext calculation
         unique_ptr<HashedElGamalCiphertext> hashedElGamal =
           hashedElgamalEncrypt(extendedData_plaintext, *extendedDataNonce, elgamalPublicKey,
-                               cryptoExtendedBaseHash, BYTES_512, true);
+                               cryptoExtendedBaseHash, BYTES_512, true, usePrecomputedValues);
 
         // TODO: ISSUE #33: support other cases such as cumulative voting
         // (individual selections being an encryption of > 1)
@@ -556,7 +562,7 @@ namespace electionguard
     vector<unique_ptr<CiphertextBallotContest>>
     encryptContests(const PlaintextBallot &ballot, const InternalManifest &internalManifest,
                     const CiphertextElectionContext &context, const ElementModQ &nonceSeed,
-                    bool shouldVerifyProofs /* = true */)
+                    bool shouldVerifyProofs /* = true */, bool usePrecomputedValues /* = true */)
     {
         auto *style = internalManifest.getBallotStyle(ballot.getStyleId());
         vector<unique_ptr<CiphertextBallotContest>> encryptedContests;
@@ -571,7 +577,7 @@ namespace electionguard
                     auto encrypted = encryptContest(
                       contest.get(), internalManifest, description.get(),
                       *context.getElGamalPublicKey(), *context.getCryptoExtendedBaseHash(),
-                      nonceSeed, shouldVerifyProofs);
+                      nonceSeed, shouldVerifyProofs, usePrecomputedValues);
 
                     encryptedContests.push_back(move(encrypted));
                     break;
@@ -590,7 +596,7 @@ namespace electionguard
     encryptBallot(const PlaintextBallot &ballot, const InternalManifest &manifest,
                   const CiphertextElectionContext &context, const ElementModQ &encryptionSeed,
                   unique_ptr<ElementModQ> nonce /* = nullptr */, uint64_t timestamp /* = 0 */,
-                  bool shouldVerifyProofs /* = true */)
+                  bool shouldVerifyProofs /* = true */, bool usePrecomputedValues /* = true */)
     {
         Log::trace("encryptBallot:: encrypting");
         auto *style = manifest.getBallotStyle(ballot.getStyleId());
@@ -616,7 +622,8 @@ namespace electionguard
 
         // encrypt contests
         auto encryptedContests =
-          encryptContests(ballot, manifest, context, *nonceSeed, shouldVerifyProofs);
+          encryptContests(ballot, manifest, context, *nonceSeed, shouldVerifyProofs,
+                          usePrecomputedValues);
 
         // Get the system time
         if (timestamp == 0) {
@@ -657,8 +664,9 @@ namespace electionguard
                          uint64_t timestamp /* = 0 */, bool shouldVerifyProofs /* = true*/)
     {
         auto normalized = emplaceMissingValues(ballot, manifest);
+        // the compact form is expanded from the nonce, so everything has to be derived from it
         auto ciphertext = encryptBallot(*normalized, manifest, context, ballotCodeSeed,
-                                        move(nonceSeed), timestamp, shouldVerifyProofs);
+                                        move(nonceSeed), timestamp, shouldVerifyProofs, false);
         return CompactCiphertextBallot::make(*normalized, *ciphertext);
     }
 
-- 
2.43.0

