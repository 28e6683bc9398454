#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/electionguard/"
I = "include/electionguard/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=None):
    a = {"files": files, "mechanism": [{"name": mechanism, "where": files[0]}], "hook_needed": None}
    if observe:
        a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


prop("B01", "An encrypted ballot carries exactly the votes the voter cast",
     "For every plaintext ballot and every election manifest, the encrypted ballot contains exactly the contests of the ballot's style and exactly the selections of each contest (plus one placeholder per seat), in sequence order and under the manifest's identifiers, and each selection decrypts under the election secret key to the vote that was cast, with every contest or selection left out of the ballot decrypting to zero. Marks for contests or selections that are not part of the ballot's style have no effect, of repeated entries the first counts, and placeholders make each contest's decrypted sum equal the number of seats, for undervotes, full votes and blank contests alike. A contest with more votes than allowed is encrypted with every real selection zero and every placeholder one, and a ballot the library cannot represent (unknown ballot style, a single selection with more than one vote in a contest that is not overvoted) is refused with an error and never silently encrypted as something else.",
     ["inputs", "configurations"],
     "all vote vectors, all subsets of omitted contests and selections, all orderings of the ballot's contests and selections, all contest shapes (selection count, seats, votes allowed, sequence numbering, styles) within the bounds",
     "The tests encrypt a handful of fixed or randomly chosen ballots against two manifests and mostly check that verification succeeds; omitted selections, every over/undervote combination, shared geopolitical units and non-contiguous sequence orders are not decrypted and compared.",
     [S + "encrypt.cpp", S + "ballot.cpp", S + "manifest.cpp", S + "elgamal.cpp"],
     "missing contests and selections are filled in, overvotes are zeroed, placeholders pad the sum to the number of seats",
     "decryption of every selection and of the contest accumulation with the secret key")

prop("B02", "Overvoted choices and write-ins stay recoverable from the encrypted ballot",
     "For every ballot, the extended data attached to each encrypted contest decrypts with the election secret key to a record that names exactly the selections the voter marked when the contest was overvoted and carries the exact write-in text of every marked write-in candidate, and is empty when there is neither. A record longer than the fixed bound (510 bytes) is cut to it; it always decrypts, and a contest without overvote or write-in is indistinguishable from one with them by the length of its extended data.",
     ["inputs", "configurations"],
     "all vote vectors x all assignments of write-in texts (empty, quotes, control characters, non-ASCII, longer than the record) x all placements of write-in candidates within the bounds",
     "Two tests decrypt one overvote and one write-in example; no test covers truncation, special characters, write-in text on an unmarked or non-write-in selection, or both at once.",
     [S + "encrypt.cpp", S + "elgamal.cpp", S + "ballot.cpp"],
     "overvote and write-in data is rendered as JSON and encrypted with hashed ElGamal at a fixed padded length",
     "hashed ElGamal decryption of each contest's extended data")

prop("B03", "Genuine encrypted ballots verify; tampered ones never do",
     "Every ballot, contest and selection the library encrypts is accepted by its own verification and by an independent evaluation of the published verification equations. Changing any bound part of an encrypted ballot - any ciphertext, accumulation, proof value, claimed constant, description hash, content hash, manifest hash, identifier of ballot, contest or selection, or the addition, removal, duplication or exchange of selections or contests or a change of their relative order - makes verification of the ballot fail, as does verifying against a different manifest hash, public key or extended base hash, and no ballot with a selection or contest whose proof is missing or fails is ever accepted. Verification reports failure by its result or an error and never by a crash (the extended data, style, timestamp, code, code seed and nonces are not part of what verification binds).",
     ["inputs", "histories"],
     "all single-field substitutions (and all structural edits) of encrypted ballots within the bounds, each with values taken from other fields, neighbours, zero, the group order and the modulus",
     "Tests tamper with no more than a couple of fields; which of the roughly thirty fields of a ballot verification actually binds is not settled by any test.",
     [S + "ballot.cpp", S + "chaum_pedersen.cpp", S + "hash.cpp"],
     "hash chain selection -> contest -> ballot plus disjunctive and constant Chaum-Pedersen proofs",
     "result of the validity check on the ballot after each edit")

prop("B04", "Ballot codes form an unbroken chain across every encryption history",
     "In every history of ballots encrypted by one device, the first ballot's code seed is the hash of the device's identity, each later ballot's code seed is the previous ballot's code, and each code is the hash of that ballot's seed, timestamp and content hash. A ballot that fails to encrypt leaves the chain exactly where it was, and ordinary and compact encryption extend one and the same chain.",
     ["histories", "fault_sequences"],
     "all sequences of successful, refused, ordinary, compact and unverified encryptions up to the depth bound, with the random source failing at any point",
     "One test encrypts two ballots in a row; no test has a failing encryption in the middle of a history, mixes both kinds of encryption, or recomputes the codes.",
     [S + "encrypt.cpp", S + "ballot_code.cpp", S + "ballot.cpp"],
     "the mediator keeps the last ballot code as the next seed",
     "code seed, code, timestamp and content hash of every ballot returned")

prop("B05", "Encryption is reproducible from its nonce and never reuses a derived nonce",
     "Encrypting the same ballot with the same manifest, context, seed, nonce and timestamp gives the same encrypted ballot every time, identical in everything but the randomised values inside its selection proofs, in any process and after any history of other encryptions. Changing the ballot's nonce, its identifier or the manifest changes the encryption nonce of every selection and contest, and within a ballot no two selections, contests, proofs or extended-data records share a nonce. Every derived nonce is the one the ElectionGuard nonce derivation prescribes (where values wait in the precomputation buffers, those take the place of derived nonces, except in compact encryption).",
     ["inputs", "histories", "configurations"],
     "all ballots within the bounds, all pairs of encryptions in a history, all selections of a ballot",
     "No test encrypts twice and compares, none looks for repeated nonces inside a ballot, and the derivation is only tested by checking that two nonces of one sequence differ.",
     [S + "nonces.cpp", S + "encrypt.cpp", S + "ballot.cpp"],
     "nonce sequences seeded by description hashes and the ballot nonce seed",
     "nonces and pads of every selection, contest and extended-data record")

prop("C01", "Group and field arithmetic is exact for every operand",
     "Addition, subtraction, multiplication, negation, multiply-add and exponentiation in the election group and its exponent field give the mathematically exact reduced result for all reduced operands, including zero, one, values at either end of the range and values whose sum or product crosses a machine-word or modulus boundary. Accelerated exponentiation of a fixed base gives the same value as ordinary exponentiation for every base and exponent, whatever bases were used before; comparisons and membership tests agree with the exact values. The built-in parameters satisfy the relations the protocol requires (prime modulus and order, order divides modulus minus one, generator of exactly that order).",
     ["inputs", "histories"],
     "all combinations of boundary operands (limb boundaries, carries, ends of the range, small values) for each operation; in the small test group all exponents; all short sequences of fixed bases",
     "Tests try a few small values and one or two boundary values per operation; carry paths of addition modulo the large prime and most bit positions of the exponent are never exercised.",
     [S + "group.cpp", S + "lookup_table.hpp", S + "facades/Hacl_Bignum256.cpp", S + "facades/Hacl_Bignum4096.cpp", I + "constants.h"],
     "bignum arithmetic with conditional correction, Montgomery contexts and fixed-base tables",
     "returned elements compared with GMP")

prop("C02", "The election hash matches its definition for every input structure",
     "The hash of any sequence of texts, integers, group elements, byte strings, nested lists and hashable objects is the SHA-256 of the delimiter-separated canonical renderings of its items reduced into the exponent field, with empty items rendered as null and nested lists replaced by their own hash. The result changes whenever the rendering or the position of any item changes, and is the same whichever form of reference an item is passed in. Nonce sequences and keyed hashes are defined from it and give the same value at the same position however they are read.",
     ["inputs", "histories"],
     "all sequences of up to the bounded length over an alphabet of every supported item type and boundary value, and all operation sequences on nonce sequences up to the depth bound",
     "Tests compare a hash with itself or with one fixed value; no test has an independent definition of the hash.",
     [S + "hash.cpp", S + "nonces.cpp", S + "hmac.cpp", S + "variant_cast.hpp"],
     "streaming SHA-256 over rendered items",
     "returned element compared with an independent implementation")

prop("C03", "ElGamal decrypts what it encrypted and adds up homomorphically",
     "For every key pair, nonce and vote of zero or one, decrypting an encryption with the secret key gives the vote back (any larger vote is never mistaken for zero or one), decrypting with any other key does not, and the product of any collection of ciphertexts is a valid encryption of the sum of their votes under the sum of their nonces. A key pair's public key is the generator raised to its secret key, unusable secret keys and nonces are refused with an error, and encryption with precomputed powers gives the same ciphertext as encryption with the nonce they came from.",
     ["inputs"],
     "all combinations of boundary secret keys, nonces and votes; all multisets of ciphertexts up to the bounded size",
     "Tests use one or two keys and nonces and add at most a few ciphertexts; sums are not compared with an independent computation.",
     [S + "elgamal.cpp", S + "group.cpp"],
     "exponential ElGamal",
     "pad, data and decryption compared with GMP")

prop("C04", "Hashed ElGamal returns the exact message and rejects every alteration",
     "For every message and every padding mode, decryption with the right key and hash returns exactly the message that was encrypted (cut to the stated limit only when truncation was asked for), and messages that do not fit are refused with an error. Any change to the pad, any byte of the data or of the code, any shortening or extension, a malformed padding, or a wrong key or wrong hash makes decryption fail with an error and never returns other data.",
     ["inputs"],
     "all message lengths from empty to beyond the limit, all padding and truncation modes, all single-byte alterations at every position, all truncations",
     "Tests cover a few lengths and corrupt one place; padding boundaries at every length and every position of corruption are not covered.",
     [S + "elgamal.cpp", S + "hmac.cpp"],
     "counter-mode HMAC key stream with encrypt-then-MAC",
     "decrypted bytes or error")

prop("C05", "Zero-knowledge proofs are complete and bind statement and commitment",
     "A proof made for a true statement (the ciphertext encrypts zero or one; the accumulation encrypts the stated constant) is always accepted, for every key, nonce, seed, vote and constant, by the library and by an independent evaluation of the published equations. The library accepts a proof only if those equations hold: replacing any component, the ciphertext, the key, the base hash or the constant, or exchanging the two branches, is rejected, as are components outside the group. A proof cannot be obtained for a vote other than zero or one.",
     ["inputs"],
     "all combinations of boundary keys, nonces, seeds, votes and constants; all replacements of each proof component by each value of the mutation alphabet",
     "Tests check a few valid proofs and one or two invalid ones; no test has an independent verifier.",
     [S + "chaum_pedersen.cpp", S + "precompute_buffers.cpp"],
     "disjunctive and constant Chaum-Pedersen proofs",
     "validity result compared with an independent verifier")

prop("C06", "Randomness is fresh, in range and fails closed",
     "Every random value the library draws lies in its range, is derived from operating-system randomness requested by that draw, and covers the whole field rather than a subset of it. If the operating system's source fails or returns short at any request, the operation that needed it reports an error, returns no value, and later operations work normally again; no ballot is ever encrypted with a nonce drawn from a failed source.",
     ["fault_sequences", "inputs"],
     "every single failure (and pair of failures) over all randomness requests made by key generation, random draws, precomputation, proof making and ballot encryption, for every failure kind",
     "Tests only check that two random values differ; no test makes the random source fail.",
     [S + "random.hpp", S + "group.cpp", "src/karamel/Lib_RandomBuffer_System.c", S + "encrypt.cpp"],
     "HMAC-DRBG seeded from the operating system",
     "calls to the operating system's random source and the outcome of each operation")

prop("K01", "Precomputed values are correct, used once, and never change the vote",
     "In every history of filling, draining, stopping, restarting and emptying the precomputation buffers, every value handed out is correct for the key it was computed for, no exponent is ever handed out twice, the buffer never exceeds its configured size by more than the fill in progress, and an exhausted buffer yields nothing rather than something reused. Ballots encrypted with any mix of buffered and freshly computed values verify and decrypt to the votes cast, and key material precomputed for one key is never used under another.",
     ["histories"],
     "all sequences of buffer operations and encryptions up to the depth bound, with buffers exhausted at every possible point of a ballot",
     "Tests fill the buffers once and encrypt one ballot; exhaustion in the middle of a ballot and restart after stop are not covered.",
     [S + "precompute_buffers.cpp", I + "precompute_buffers.hpp", S + "encrypt.cpp", S + "chaum_pedersen.cpp", S + "ballot.cpp"],
     "process-wide queues of precomputed powers",
     "queue sizes, values handed out, ballots")

prop("K02", "Precomputation is safe under every thread schedule",
     "With one thread filling the precomputation buffers while others take values, change the size, stop, restart or empty them, every schedule terminates, no value is handed out twice or lost, all values are correct, and stopping makes the filling thread return without filling further than the element in progress. No schedule contains a data race.",
     ["schedules"],
     "all thread interleavings of the bounded scenarios up to the preemption bound",
     "The concurrency test runs one free-running schedule and only sleeps between start and stop.",
     [S + "precompute_buffers.cpp", I + "precompute_buffers.hpp"],
     "queues guarded by one lock and a stop flag",
     "values handed out, queue sizes, termination, happens-before order of all accesses")

prop("K03", "Concurrent use of shared elections gives the sequential result",
     "When several threads encrypt, verify, hash, serialise or exponentiate at the same time using the same public key, manifest, election context and generator - including the very first use in the process - every thread obtains the same result as when run alone. No schedule deadlocks, crashes or contains a data race.",
     ["schedules"],
     "all thread interleavings of the bounded scenarios up to the preemption bound, starting from a fresh process",
     "Tests that use threads run one schedule, after single-threaded tests have already initialised all shared state.",
     [S + "lookup_table.hpp", S + "log.cpp", S + "group.cpp", S + "async.hpp"],
     "process-wide tables, logger, cached renderings and constants created on first use",
     "results of each thread, happens-before order of all accesses")

prop("S01", "Election descriptions survive serialisation unchanged",
     "Writing a manifest, internal manifest, election context or encryption device in any supported format and reading it back gives an object with the same content, the same hash and the same validity, for every combination of present and absent optional parts and every permitted text (a manifest listing its contests and selections in sequence order; BSON refuses integers it cannot represent). The formats agree with each other, and reading never invents or drops optional content.",
     ["inputs", "configurations"],
     "all combinations of optional parts being absent, empty or present at every position of the description, all enumeration values, special texts, boundary integers and dates",
     "Tests round-trip one or two fixed manifests and compare only hashes.",
     [S + "serialize.hpp", S + "manifest.cpp", S + "election.cpp", S + "convert.cpp"],
     "JSON object mapping with BSON and MessagePack encodings of it",
     "all fields of the object read back")

prop("S02", "Ballots survive serialisation unchanged",
     "Writing a plaintext, encrypted, submitted or compact ballot in any supported format and reading it back gives a ballot equal in every field, which still verifies, decrypts, hashes and re-serialises identically. This holds whatever the votes, write-in texts, identifiers, states and key material, including values and byte strings with leading zeros.",
     ["inputs"],
     "all ballots within the bounds x all formats x with and without nonces, with byte strings and field elements chosen to start with zero bytes",
     "Tests round-trip a few random ballots and compare hashes; leading zero bytes occur only once in 256 random cases per field.",
     [S + "serialize.hpp", S + "ballot.cpp", S + "ballot_compact.cpp", S + "convert.hpp"],
     "hexadecimal rendering of elements and byte strings inside JSON, BSON and MessagePack",
     "all fields of the ballot read back")

prop("S03", "Published ballots and logs never contain secret nonces",
     "The default serialised form of an encrypted or submitted ballot, in every format, contains none of the ballot's secret values: no ballot, contest or selection nonce, no proof or extended-data nonce, no nonce seed, no secret key and no text of a write-in, in any rendering. What the library logs at its default level while it encrypts, verifies, decrypts, stores and publishes ballots, also when that fails, contains none of them either. Nonces appear only when the caller asks for them explicitly.",
     ["inputs"],
     "all ballots within the bounds x all formats x all states, searching for every secret value that went into the ballot in text and binary renderings",
     "No test looks for secrets in serialised output or logs.",
     [S + "serialize.hpp", S + "ballot.cpp", S + "encrypt.cpp", S + "log.cpp"],
     "nonces are serialised only on request",
     "serialised bytes and log output")

prop("S04", "Damaged or hostile documents are rejected without harm",
     "Reading a serialised manifest, ballot, context or device that is cut off at any byte, in which any single value is missing, of the wrong type, not hexadecimal, no date, no known state or outside its range, or in which any byte is altered, either reports an error or yields an object that says what the document says (names of enumeration values that are not known read as unknown, absent optional values as their default); it never crashes, never corrupts memory and never yields an object with different values, and a document that is cut off is always an error. The same holds for reading single exponents and group elements from text, bytes and integers: a text that is not a hexadecimal number within range is refused; the C interface reports an error exactly when the C++ interface does.",
     ["crash_points", "inputs"],
     "all truncation points and all single-node substitutions of documents of every kind within the bounds; all short texts over a hexadecimal alphabet",
     "Tests only read well-formed documents.",
     [S + "serialize.hpp", S + "convert.hpp", S + "group.cpp"],
     "JSON, BSON and MessagePack parsing, hexadecimal parsing and range checks",
     "error or object read back, under memory checking")

prop("M01", "Manifest validation accepts exactly the well-formed manifests",
     "A manifest is reported valid exactly when identifiers are present and unique within each kind of object, every reference (ballot style to geopolitical unit, contest to electoral district, candidate to party) resolves, every ballot style names at least one geopolitical unit, contest and selection sequence numbers are unique, selections name distinct candidates, and each contest's seats fit its selections and its votes allowed. The answer does not depend on the order in which objects are listed.",
     ["configurations"],
     "all combinations of up to the bounded number of deviations from a well-formed manifest, and all permutations of its object lists",
     "Tests check a couple of valid manifests and a few single deviations; combinations and list orders are not covered.",
     [S + "manifest.cpp", S + "election.cpp"],
     "cross-reference and uniqueness checks over sets of identifiers",
     "validity result compared with an independent predicate")

prop("M02", "Manifest hashes bind the election and every derived view keeps it",
     "The manifest hash is the one its definition prescribes and changes whenever the rendering of any hashed property of the manifest - scope, type, dates, name, contact data, units, parties, contests, selections, ballot styles, or the order or content of any of them - changes; the election context binds it, together with guardians and quorum, into its base hash and extended base hash. The view used for encryption keeps the hash, contains every contest with one fresh, uniquely identified placeholder per seat ordered after its real selections, and gives for each ballot style exactly the contests of that style's districts in sequence order. An encryption session is refused when manifest and election context do not have the same hash.",
     ["configurations"],
     "all single-property changes of manifests within the bounds, all contest shapes and styles",
     "Tests compare the hash of one manifest with itself after serialisation.",
     [S + "manifest.cpp", S + "encrypt.cpp", S + "election.cpp"],
     "recursive hashing of description objects; placeholder generation; style filtering",
     "hashes and derived contests compared with an independent model")

prop("V01", "Compact ballots expand to exactly the ballot they came from",
     "Compressing a plaintext ballot that is complete and in manifest order and expanding it against the same manifest gives back the same votes and write-ins for every selection of the style. For any ballot - incomplete, reordered, overvoted or with write-ins - expanding the compact form that compact encryption returns, directly or after storing it in any format, regenerates the identical encrypted ballot: the same identifiers, ciphertexts, extended data, hashes and ballot code, with valid proofs. If any one of the stored votes, identifier, nonce, code seed, timestamp or code was altered, or the key or manifest is another one, expansion reports an error or still yields exactly the original ciphertexts, hashes and code; it never returns another ballot, and a compact ballot with too few votes or write-ins is refused.",
     ["inputs", "histories"],
     "all ballots within the bounds, with omitted and reordered contests and selections, write-ins, overvotes and both storage states, and all single-field alterations of the compact form",
     "Tests expand one or two fixed ballots.",
     [S + "ballot_compact.cpp", S + "encrypt.cpp", S + "serialize.hpp"],
     "votes stored as a vector in style order, encryption regenerated from the nonce",
     "expanded ballots compared field by field with the originals")

prop("V02", "Copies are equal, independent, and leave the original intact",
     "Copying, cloning, moving or assigning any public value object gives an object equal in every observable field to the source at that moment; the source of a copy is unchanged and stays usable, and destroying or changing either one does not affect the other.",
     ["histories"],
     "all sequences of copy, clone, move, assign, self-assign and destroy up to the depth bound over all value types",
     "Tests hardly ever copy objects and never compare source and copy afterwards.",
     [S + "ballot.cpp", S + "chaum_pedersen.cpp", S + "elgamal.cpp", S + "group.cpp", S + "manifest.cpp", S + "election.cpp", S + "precompute_buffers.cpp"],
     "hand-written copy constructors, clone functions and assignment operators",
     "all getters of source and copy, under memory checking")

prop("V03", "The C interface behaves as the C++ interface and reports every failure",
     "Every operation offered through the C interface has the same effect and result as its C++ counterpart for all inputs, and a failing operation returns a non-success status without throwing, crashing, leaking or handing out an object. Handles obtained through the interface can be released in any order once they are no longer needed, and collections keep their elements in insertion order with a correct size through every sequence of operations. (Null, released or foreign handles and exhausted memory are outside this promise.)",
     ["inputs", "histories"],
     "all inputs of the bounded alphabets for each operation, all collection operation sequences up to the depth bound",
     "C tests call each function once on a good input.",
     [S + "facades/group.cpp", S + "facades/elgamal.cpp", S + "facades/chaum_pedersen.cpp", S + "facades/encrypt.cpp", S + "facades/ballot.cpp", S + "facades/ballot_compact.cpp", S + "facades/manifest.cpp", S + "facades/election.cpp", S + "facades/collections.c", S + "facades/hash.cpp", S + "facades/ballot_code.cpp"],
     "thin wrappers that translate exceptions to status codes",
     "status codes, values and memory state after every call")

prop("V04", "Secret field and group values are wiped when released",
     "When a secret exponent or group element is destroyed, moved from or overwritten, the memory that held its value as a number - in the element itself or in a temporary copy the library made - no longer contains it at the time it is returned to the allocator. This holds for every way such values are created and released, including on error paths. (Texts and byte strings made from a value are not covered.)",
     ["histories"],
     "all sequences of creation, copy, move, assignment and destruction up to the depth bound, and all operations that hold secrets internally, checking every memory block at release",
     "No test looks at released memory.",
     [S + "group.cpp", "src/karamel/Lib_Memzero0.c", S + "elgamal.cpp"],
     "destructors clear the element's storage",
     "contents of every block passed to the allocator for release")

if __name__ == "__main__":
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
