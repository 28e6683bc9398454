"""What each property's check runs, and the bounds it explores."""
CHECKS = {}


def check(prop, runs, bounds, assumptions=(), technique="", note=""):
    CHECKS[prop] = dict(runs=runs, bounds=bounds, assumptions=list(assumptions), technique=technique, note=note)


GMP = "GMP and OpenSSL are correct (independent reference arithmetic, SHA-256 and HMAC)"

check("C01",
      [dict(name="c01", variant="std", srcs=["c01.cpp"]), dict(name="c01", variant="tiny", srcs=["c01.cpp"])],
      dict(quick="all pairs of ~250 boundary operands mod P and ~100 mod Q with all complements, all triples of ~30 operands, windows of the fixed-base table, all single-bit exponents, all exponents of the small test group, all base histories of length 3, lists of up to 40 operands, 48 fixed bases used in turn",
           thorough="as quick with every limb boundary, every entry of the fixed-base tables of two bases, all base histories of length 4, large exponents at every limb boundary"),
      [GMP, "operands are reduced; operands between the boundary values behave like their neighbours"],
      "exhaustive enumeration of operand combinations on the real arithmetic, small-group state space complete in the exponent",
      "Every operation is executed on every combination of the boundary alphabet and compared with GMP.")

check("C02",
      [dict(name="c02", variant="std", srcs=["c02.cpp"]), dict(name="c02", variant="tiny", srcs=["c02.cpp"])],
      dict(quick="all sequences of length 0-2 over ~190 items covering every alternative of the hashable type, length 3 over every third item, all text lengths 0-199 x 0-69, all operation sequences of length 5 on nonce sequences, keyed hash for message lengths 0-139, long and nested lists",
           thorough="length 3 over all items, text lengths 0-399 x 0-139, nonce operation sequences of length 6"),
      [GMP, "byte strings start with a non-zero byte (the rendering drops leading zero bytes by definition)"],
      "exhaustive enumeration of item sequences and operation sequences on the real code against an independent model",
      "Every sequence within the bounds is hashed by the library and by an OpenSSL-based model and compared.")

check("C03",
      [dict(name="c03", variant="std", srcs=["c03.cpp"]), dict(name="c03", variant="tiny", srcs=["c03.cpp"])],
      dict(quick="all combinations of 8 secret keys x 8 nonces x 9 messages, accelerated and ordinary; all sequences of up to 4 ciphertexts over 5, longer sums; every eighth nonce of the small group",
           thorough="12 nonces, sequences of up to 6 ciphertexts, every nonce of the small group"),
      [GMP, "keys and nonces between the boundary values behave like their neighbours"],
      "exhaustive enumeration of key x nonce x vote combinations and ciphertext sequences on the real code",
      "Every ciphertext, sum and decryption within the bounds is compared with GMP.")
check("C04",
      [dict(name="c04", variant="std", srcs=["c04.cpp"])],
      dict(quick="all message lengths 0-559 x 4 modes; for three ciphertexts: two bit flips at every byte of data and code, 128 bits of the pad, all code lengths, data lengths around block boundaries, block exchanges, wrong keys and hashes; longer messages, further keys, malformed paddings",
           thorough="all message lengths 0-1099; five alterations at every byte, 512 bits of the pad, all data lengths"),
      [GMP],
      "exhaustive enumeration of lengths, modes and single alterations on the real code against an independent definition",
      "Every length and every alteration position is executed; results are compared with an OpenSSL/GMP model.")

check("C05",
      [dict(name="c05", variant="std", srcs=["c05.cpp"]), dict(name="c05", variant="tiny", srcs=["c05.cpp"])],
      dict(quick="all combinations of 3 keys x 4 nonces x 4 seeds x 2 votes and 10 constants (a dense grid of nonces and seeds in the small group), every way of making a proof; every single replacement of every component by ~30 values, every exchange; for every single verification condition, proofs built to satisfy all the others",
           thorough="5 keys x 6 nonces x 6 seeds, every third bit of every scalar, denser grids"),
      [GMP, "forgeries that break the discrete logarithm are out of reach", "zero challenges and responses, which the library refuses, occur with negligible probability"],
      "exhaustive enumeration of proof inputs, single replacements and single broken conditions on the real code against an independent prover and verifier",
      "Library verdicts are compared with a GMP evaluation of the published equations on every enumerated proof.")

FIXED = "texts and numbers outside the alphabets behave like their representatives"

check("B01",
      [dict(name="b01", variant="std", srcs=["b01.cpp"])],
      dict(quick="all contest shapes with 1-3 selections x 0-3 seats x votes-allowed values x all vote vectors over {absent,0,1,2}, both presentation orders; 9 sequence numberings x all 6 presentation orders x all marks; 4-contest election x 4 styles x 5 fillings per contest; look-alike identifiers; foreign marks; placeholder flags; write-in texts beside every vote; repeated selections and contests; all entry points",
           thorough="4 selections, votes up to 3, all presentation orders of contests"),
      [GMP, FIXED],
      "exhaustive enumeration of ballots x manifests on the real encryption against an executable model of the encrypted ballot, decrypted with GMP",
      "Every ballot of the bounded space is encrypted by the library; structure, identifiers and every decrypted vote are compared with the model.")

check("B02",
      [dict(name="b02", variant="std", srcs=["b02.cpp"])],
      dict(quick="all assignments of 6 mark/write-in texts per selection to contests of 1-2 selections (4 for 3 selections) x write-in placements; every write-in length 0-559; contests with many selections and long identifiers",
           thorough="6 texts for 3 selections, lengths 0-1199"),
      [GMP, FIXED],
      "exhaustive enumeration of marks x write-in texts x record lengths on the real encryption, decrypted by an independent hashed-ElGamal model",
      "Every record is decrypted independently and compared with the record the model prescribes.")

check("B03",
      [dict(name="b03", variant="std", srcs=["b03.cpp"])],
      dict(quick="392 genuine ballots of the shapes/styles spaces; every field of a two-contest ballot x ~8 replacement values and every structural edit, each as it stands, with content hashes recomputed and with hashes and accumulations recomputed; every verification parameter replaced; accumulations, hashes and proofs of contests with 3, 5 and 8 selections",
           thorough="genuine ballots of 3 selections and all styles, all replacement values everywhere, contests with up to 17 selections"),
      [GMP, "forgeries that break the discrete logarithm or SHA-256 are out of reach"],
      "exhaustive enumeration of single alterations and structural edits on the real verifier against an independent evaluation of the published equations",
      "The library's verdict is compared with a GMP evaluation for every genuine and altered ballot.")

check("B04",
      [dict(name="b04", variant="std", srcs=["b04.cpp"])],
      dict(quick="all histories of length 3 over the encryption operations (ordinary, compact, unverified, refused, failing random source) of two devices; all device identities over the boundary alphabet (locations up to 301 characters); codes at 25 boundary times x 36 seed/content pairs",
           thorough="all histories of length 4"),
      [GMP, "the clock is read through the C++ system clock"],
      "exhaustive exploration of all operation sequences up to a depth, with fault injection in the random source, against a model of the code chain",
      "After every step of every history, seed, code and content hash are recomputed by the model.")

check("B05",
      [dict(name="b05", variant="std", srcs=["b05.cpp"])],
      dict(quick="every ballot of the shapes (2 selections), styles, identifiers, numberings, write-ins, repeated-entries and larger-contests spaces x boundary nonces; all pairs of input variations; all histories of length up to 4 of other encryptions (340)",
           thorough="3 selections, histories of length up to 5 (1364)"),
      [GMP, FIXED],
      "exhaustive enumeration of ballots, input pairs and histories on the real code against the prescribed nonce derivation",
      "Every nonce and commitment of every ballot is compared with an independent derivation, and all of them with each other.")

check("C06",
      [dict(name="c06", variant="std", srcs=["c06.cpp"]), dict(name="c06", variant="asan", srcs=["c06.cpp"])],
      dict(quick="16384 enumerated contents of the random source per draw, every single bit of one content, every request (first 12, then every third) of key generation, draws, precomputation, proofs and encryption failing in each way (open, read error, short, end of file), single and double",
           thorough="131072 contents, every request"),
      ["the operating system's source is reached through open/read/close (or getrandom), which the explorer replaces", "DRBG outputs for different seeds are unrelated"],
      "systematic fault injection: every failure point and kind of the operating-system random source of every operation, on the real code under a controlled source",
      "Every request to the source is failed in every way; outcomes, later operations and dependence on the source are checked.")

check("V02",
      [dict(name="v02", variant="asan", srcs=["v02.cpp"])],
      dict(quick="for each of the public value types and each of its values: all sequences of 2-3 operations (copy, clone, move, assign, self-assign, change, destroy) over three places",
           thorough="sequences of 3-4 operations"),
      ["objects that were moved from are only assigned to or destroyed"],
      "exhaustive exploration of all lifecycle operation sequences up to a depth on the real objects, in lockstep with a model of their values, under AddressSanitizer",
      "After each operation of each sequence all observable fields of all live objects are compared with the model.")

check("M01",
      [dict(name="m01", variant="std", srcs=["m01.cpp"])],
      dict(quick="all single and all pairs of ~200 deviations from two well-formed manifests, triples for every fifth deviation, all orders of the object lists for every deviation",
           thorough="all triples of deviations"),
      [FIXED],
      "exhaustive enumeration of combinations of deviations and list orders on the real validation against an independent predicate",
      "The verdict is compared with the model's predicate for every manifest.")

check("M02",
      [dict(name="m02", variant="std", srcs=["m02.cpp"])],
      dict(quick="all single alterations (~900) of a rich and a lean manifest, every twelfth pair of a coarser set, all list orders, all contest shapes and styles, contexts over boundary numbers, every single bit of the hash at session start",
           thorough="all pairs of the coarser set"),
      [GMP, FIXED],
      "exhaustive enumeration of manifest alterations on the real code against an independent model of hashes and derived views",
      "Every hash and derived view is recomputed by the model.")

check("S01",
      [dict(name="s01", variant="std", srcs=["s01.cpp"])],
      dict(quick="all single alterations of a rich and a lean manifest, all pairs of alterations of optional parts (every 24th other pair), 3 formats, 4 time zones; contexts and devices over 15 boundary integers and special texts",
           thorough="all pairs of alterations"),
      [FIXED],
      "exhaustive enumeration of documents x formats: write, read back, compare every observable field, on the real code",
      "Every object of the bounded space is written, read back in each format and compared field by field and by hash with the model.")

check("S02",
      [dict(name="s02", variant="std", srcs=["s02.cpp"])],
      dict(quick="every one of ~95 fields of a two-contest encrypted ballot x every value of its alphabet (17 exponents, 12 group elements, 18 integers, 18 texts, ~120 byte strings with 0-511 leading zeros) x 3 formats x with/without nonces x 3 states; 64 structures; plaintext and compact ballots over all pairs of texts and integers; every ninth ballot of the shapes/styles/identifiers spaces and ballots with write-ins, repeated entries and larger contests encrypted, read back, verified and decrypted",
           thorough="every ballot of the spaces, every leading byte"),
      [GMP, FIXED, "texts are valid UTF-8"],
      "exhaustive enumeration of single-field values x formats: write, read back, compare every field, on the real code",
      "Every ballot of the bounded space is written and read back in each format; every observable field is compared with the plain copy it was built from.")

check("K01",
      [dict(name="k01", variant="std", srcs=["k01.cpp"])],
      dict(quick="every history of 5 buffer operations (3 sizes, fill for 2 keys, stop, empty, take, take triple) after a size is set, as a tree of processes; every distinct buffer state reachable in 4 operations x every sequence of 2 encryptions (selection, contest proof, data; 2 keys); ballots with every number of entries (0-7) and triples (0-6) left, followed by a second ballot; buffers of 8-130 entries taken to the last value",
           thorough="histories of 7 operations, states reachable in 5 x sequences of 3 encryptions, every exhaustion point under both keys"),
      [GMP, FIXED],
      "stateless exploration of all operation sequences up to a depth on the real buffers (one process per history prefix)",
      "Every prefix of every history is executed on the real buffers; every value handed out is recomputed with GMP, every exponent is checked for reuse, and every encryption is verified by the published equations and decrypted.")

SCHED = ("sequentially consistent memory: atomics are explored in interleaving order, while missing acquire/release ordering is reported as a race; "
         "memory accesses inside the big-number and hash code are noted at its interface, not instruction by instruction")

check("K02",
      [dict(name="k02", variant="sched", srcs=["k02.cpp", ("sched.cpp", True)])],
      dict(quick="16 scenarios of 2-3 threads on the precomputation buffers (fill / take / triple / stop / resize / restart / empty / size queries / encryption under one or two keys, buffers of 1-3 entries); all interleavings of synchronisation operations up to equivalence, except one scenario (two encryptions and a clearing thread) up to 2 preemptions",
           thorough="20 scenarios of 2-4 threads, all interleavings; 3 preemptions in the bounded one"),
      [GMP, FIXED, SCHED],
      "stateless model checking of the real code: dynamic partial-order reduction with sleep sets (bounded: BPOR) under a controlled scheduler, one process per schedule",
      "The compiled library runs under a scheduler that takes every decision at locks, condition variables, once/guards, atomics, thread start, join and exit. Every non-equivalent schedule is executed; each checks happens-before on every memory access, termination, and the values obtained against GMP.")

check("K03",
      [dict(name="k03", variant="sched", srcs=["k03.cpp", ("sched.cpp", True)])],
      dict(quick="40 scenarios of 2-3 threads that share a key, manifest, context, ballot or constant, most of them from the first use in the process (constants, renderings, hash, nonces, random, log, fixed-base tables, ElGamal, selections, hashed encryption, manifests, contexts, ballots, compact and submitted ballots, mediators); all interleavings for the small ones, up to 2 (heavy: 0-1) preemptions for the others",
           thorough="the same with 3 (heavy: 1-2) preemptions"),
      [GMP, FIXED, SCHED],
      "stateless model checking of the real code: dynamic partial-order reduction with sleep sets (bounded: BPOR) under a controlled scheduler, one process per schedule",
      "As K02; every execution starts in a process that has not used the library, and every thread's result is compared with the value computed by GMP/OpenSSL or obtained alone.")

check("S03",
      [dict(name="s03", variant="std", srcs=["s03.cpp"])],
      dict(quick="~330 ballots (every third of the shapes, samples by fixed stride of numberings/styles/identifiers, all 27 write-in patterns) x 3 master nonces in turn x 25 published forms (3 formats, C and C++ interface, 3 states, after rereading private documents); 14 logged operations x 6 ballots incl. failing ones; every refused ballot (every third of the shapes) and 24 calls with parts that do not fit, log and error text; precomputed and drawn nonces",
           thorough="every ballot of the spaces"),
      [GMP, FIXED, "the library's log level is the repository's debug build level; a leak of fewer than 8 consecutive bytes is not noticed"],
      "exhaustive enumeration of the bounded ballots x published forms on the real code; every output byte searched for every window of every secret",
      "All secrets of a ballot are computed by the model and recovered from the finished ballot (incl. proof nonces v - c*r); every output is searched in binary, hexadecimal, base64 and decimal, both byte orders. The private form must be found to contain them, so the search is not vacuous.")

check("V04",
      [dict(name="v04", variant="std", srcs=["v04.cpp"])],
      dict(quick="every sequence of 3 operations on two places (10 ways to create, copy, assign, self-assign, assign a temporary, compare, swap, refuse, destroy) for exponents and group elements; 25 operations that handle secrets (encryption with given, drawn and precomputed nonces, compact, mediator, key pairs, hashed encryption incl. failing, nonce sequences, arithmetic, reading and writing, C handles); encryption with every single randomness request failing",
           thorough="sequences of 4 operations"),
      [GMP, FIXED, "secrets are searched in the library's number representation (little-endian words, 8 consecutive bytes at any offset); texts and byte strings made from a value are the caller's"],
      "exhaustive enumeration of creation/copy/assignment/release histories on the real code with every released memory block examined",
      "free and realloc are intercepted; each released block is copied at the moment of release and searched for every window of every secret that was in use.")

check("S04",
      [dict(name="s04", variant="asan", srcs=["s04.cpp"])],
      dict(quick="documents of 9 kinds x 3 formats: cut off at every byte; every node (value, list, object, member) removed, duplicated or replaced by each of ~60 wrong values and by every other member of the document; two alterations of every byte; numbers from all texts of up to 3 characters over 9, alone and at either end of 7 long texts; all byte strings of length 0-559 in 15 patterns",
           thorough="all 255 alterations of every byte; all texts of up to 4 characters over 16"),
      [FIXED, "documents nested deeper than the parsers' recursion limits are not explored", "names of enumeration values that are not known read as unknown; optional values that are absent read as the default"],
      "exhaustive enumeration of truncation points, single-node replacements and single-byte alterations on the real readers (C++ and C), under AddressSanitizer/UBSan, against an oracle that compares the object written back with the document",
      "Each reading must end in an exception or in an object that, written again, says what the document says; the C interface must report the same outcome.")

check("V01",
      [dict(name="v01", variant="std", srcs=["v01.cpp"])],
      dict(quick="13288 complete plaintext ballots (all patterns of 7 vote values x 2 write-ins over 3 selections, 4 numberings; all 0/1 patterns of 4 styles) through 3 formats; ballots of up to 300 selections or 260 contests and write-ins of every length 0-299 (and up to 65536); ballots by fixed strides of all shapes, styles, orders, duplicates, write-ins, larger contests x 3 ways of compressing x 4 ways of storing; 226 single alterations (every vote, missing, inserted, exchanged, identifier, style, bits of seed, code, nonce, time, other key, base and manifest)",
           thorough="4 write-ins; 4000+ ballots; every bit of seed, code and nonce, every exchange"),
      [GMP, FIXED, "the ballot code covers neither write-ins nor the name of the style: alterations of these are only required to keep ciphertexts, hashes and code"],
      "exhaustive enumeration of ballots, storage histories and single alterations on the real code, compared with direct encryption and the published equations",
      "Every expanded ballot is compared field by field with the directly encrypted one and its proofs are checked with GMP.")

check("V03",
      [dict(name="v03", variant="asan", srcs=["v03.cpp"])],
      dict(quick="all sequences of collection operations up to the depth bound; every C function for elements, texts, powers, constants, hashes, devices, codes, keys, proofs, contexts, manifests, contests, ballots, encryption, mediators, precomputed values over small alphabets with all release orders of up to 5 handles; documents of every kind cut or altered at every position",
           thorough="deeper collection sequences, larger alphabets, every single-byte alteration"),
      [FIXED, "null, released and foreign handles and exhausted memory are not explored", "dates go in as milliseconds and come out as seconds, as the C# binding expects"],
      "exhaustive enumeration of inputs, operation sequences and release orders through the real C interface under AddressSanitizer/UBSan, compared with the C++ calls, counting every block of memory left after each history",
      "Each C call must report success exactly where the C++ call succeeds, with the same result; a failing call must leave the output untouched and no memory behind; the caller's handles must keep their value.")
