#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RI, AV, UR, UA, X4 = ("Reference_Implementation_KEM", "AVX_Implementation_KEM", "Variants/uSaber-90s/ref",
                      "Variants/uSaber-90s/avx2", "Variants/SaberX4_avx2")
HOST = [RI, AV, UR, UA, X4]
SCOPE = "the reference, AVX2, uSaber/90s (reference and AVX2) and four-way SaberX4 implementations"


def f(*names, dirs=HOST):
    out = []
    for d in dirs:
        for n in names:
            if os.path.exists(os.path.join("/repo", d, n)):
                out.append(d + "/" + n)
    return out


P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note, level="exploration", observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  tech=tech, note=note, level=level, observe=list(observe), state=list(state)))


prop("C01", "Encapsulation and decapsulation always agree on the shared secret",
     "For every key pair generated by any implementation (" + SCOPE + "), every parameter set and every variant, decapsulating a ciphertext that was honestly encapsulated for its public key returns exactly the shared secret the encapsulator got, and all three operations report success. "
     "This holds for every random seed, including extreme ones, and also for ciphertexts made by any other conforming encapsulator, whatever message it chose.",
     ["inputs", "configurations"], "all seeds and messages, all 25 host configurations (implementation x security level x variant)",
     "The test programs run each implementation on at most a few thousand random round trips of one parameter set and never choose extreme seeds or messages; an error confined to rare coefficient values or one of the variants does not show.",
     f("kem.c", "kem4x.c", "SABER_indcpa.c", "poly.c", "poly_mul.c", "pack_unpack.c", "cbd.c"),
     [("re-encryption check and secret derivation", "kem.c / kem4x.c crypto_kem_dec"), ("rounding constants h1, h2 keep decryption noise below the threshold", "SABER_indcpa.c")],
     "online monitor comparing both ends of monitored KEM executions",
     "Dense sampling of seeds and messages over all 25 configurations with hostile shapes; not exhaustive. Trusts the scripted randombytes stand-in and the specification model for the conforming-peer part.")

prop("C02", "Any modified ciphertext is implicitly rejected",
     "Decapsulating a ciphertext that differs in any way from the honest one for that key never returns the honest shared secret, never fails visibly, and returns exactly the hash of the secret key's rejection value together with the hash of the received ciphertext. "
     "So every single ciphertext bit is covered by the check, in every position, and the result for a rejected ciphertext is repeatable, unpredictable without the secret key, and different for different ciphertexts.",
     ["inputs", "configurations"], "all key pairs and all ciphertexts, in particular every bit position of the ciphertext, in all 25 host configurations",
     "Existing tests only decapsulate honest ciphertexts (KAT and round trip): the rejection path is never executed.",
     f("kem.c", "kem4x.c", "verify.c", "SABER_indcpa.c"),
     [("full-length constant-time comparison", "verify.c verify"), ("conditional move of the rejection value", "verify.c cmov"), ("hash of the ciphertext bound into the secret", "kem.c crypto_kem_dec")],
     "online monitor with ciphertext-tampering fault injection (every bit position, 20 tampering kinds)",
     "Every single-bit flip of at least one ciphertext per configuration, and random/structured tampering of many more; judged by the closed formula of the rejection value. Assumes the tested hash functions of the oracle (cross-checked with OpenSSL).")

prop("C03", "Keys, ciphertexts and secrets are exactly those of the Saber specification",
     "Given the bytes delivered by the random generator, key generation, encapsulation and decapsulation produce, byte for byte, the public key, secret key, ciphertext and shared secret that the Saber round-3 specification (and the documented uSaber and 90s variants of it) prescribes for that parameter set. "
     "All implementations are therefore interchangeable on honest data: keys and ciphertexts of one work with any other of the same parameter set.",
     ["inputs", "configurations"], "all outputs of the random generator, all 25 host configurations",
     "The known-answer files hold 100 vectors per parameter set, for some of the implementations only; a deviation on rarer coefficient values or in SaberX4 (no vectors at all) is not seen.",
     f("kem.c", "kem4x.c", "SABER_indcpa.c", "poly.c", "poly_mul.c", "pack_unpack.c", "cbd.c", "fips202.c", "SABER_params.h"),
     [("matrix and secret expansion", "poly.c / SABER_indcpa.c GenMatrix, GenSecret"), ("Toom-Cook/Karatsuba multiplication", "poly_mul.c, polymul/"), ("bit packing", "pack_unpack.c")],
     "differential monitor against an independent specification model",
     "Byte comparison on hundreds of thousands of executions per run; the model was written from the specification, shares no code with /repo and reproduces all shipped KAT files. Sampling, not proof.",
     observe=["randombytes (linker wrap)", "crypto_kem_keypair", "crypto_kem_enc", "crypto_kem_dec"])

prop("C04", "Arbitrary keys and ciphertexts are processed exactly as the specification says",
     "The operations are total: for every byte string of the right length used as public key, secret key or ciphertext, however malformed, encapsulation and decapsulation terminate, report success, and return exactly what the specification computes from those bytes. "
     "Hence two implementations of the same parameter set never disagree on any input, honest or hostile.",
     ["inputs", "configurations"], "all byte strings of the documented lengths, in all 25 host configurations",
     "Tests feed only keys and ciphertexts the implementation itself produced; coefficient ranges that never occur in honest data (full 13-bit secrets, wrong hashes, mismatched embedded keys) are never run.",
     f("kem.c", "kem4x.c", "SABER_indcpa.c", "pack_unpack.c", "poly_mul.c"),
     [("unpacking accepts every bit pattern", "pack_unpack.c"), ("arithmetic modulo powers of two, no range assumption on secrets", "poly_mul.c, polymul/")],
     "differential monitor against an independent specification model on hostile inputs",
     "Hostile shapes (constant, sparse, saturated, structured, random) for each of the three inputs; sampling, not proof.")

prop("C05", "The four SaberX4 lanes are four independent Saber KEMs",
     "In the four-way implementation each lane returns exactly what a single Saber KEM returns for that lane's inputs and randomness. "
     "The result of a lane does not depend on its position or on what the other three lanes hold: one lane's malformed or rejected ciphertext never changes another lane's secret.",
     ["inputs", "histories"], "all combinations of honest, tampered and hostile lanes, all lane permutations",
     "The only test of SaberX4 checks honest round trips of random lanes; mixtures of accepted and rejected lanes are never run and no vectors exist.",
     f("kem4x.c", "SABER_indcpa.c", "fips202x4.c", "pack_unpack.c", "verify.c", dirs=[X4]),
     [("per-lane comparison and conditional move", "kem4x.c crypto_kem_dec"), ("vectorised four-way hashing, packing and sampling", "fips202x4.c, pack_unpack.c")],
     "metamorphic monitor on lane permutation and replacement, plus differential oracle",
     "All 24 permutations and all accepted/rejected mixtures are reached in each run (counted); lane data are sampled.")

prop("C06", "No call ever touches memory outside its buffers or executes undefined behaviour",
     "For all inputs, honest or hostile, and for buffers of exactly the documented sizes at any address and alignment, no operation reads or writes outside the buffers it was given or outside its own objects, none modifies its inputs, and none executes undefined behaviour. "
     "The sizes an implementation announces to its callers (CRYPTO_PUBLICKEYBYTES and the like in its api.h) are the documented ones, so that a caller who allocates by them is safe. The same holds for the hash, stream-cipher, random-generator and seed-expander routines at every length.",
     ["inputs", "configurations"], "all inputs, lengths, buffer placements and alignments in all 25 host configurations",
     "Tests use static, generously aligned buffers with slack behind them and no sanitizer: an over-read or over-write of a few bytes passes.",
     f("kem.c", "kem4x.c", "SABER_indcpa.c", "pack_unpack.c", "fips202.c", "fips202x4.c", "rng.c"),
     [("fixed-size buffers derived from the parameter header", "SABER_params.h"), ("unaligned vector loads and stores on caller buffers", "pack_unpack.c")],
     "AddressSanitizer and UndefinedBehaviorSanitizer, guard pages, read-only inputs and canaries",
     "Covers the executed paths of the whole KEM and of the primitives; the crypto code is branch-free on data, so path coverage is essentially complete. Intra-object overflows inside one C object are invisible to ASan.")

prop("C07", "Results depend only on the arguments and the randomness drawn",
     "The output of an operation is a function of its arguments and of the random bytes it draws: it does not depend on earlier calls, on what the output buffers or the stack held before, on the floating-point control state, or on the compiler and optimisation level used. "
     "No output byte is ever derived from uninitialised memory.",
     ["histories", "configurations", "inputs"], "all histories of operations, all prior memory contents, several builds of all 25 host configurations",
     "Tests run one fixed sequence per process in one build; state carried between calls or garbage picked up from the stack is constant there.",
     f("kem.c", "kem4x.c", "SABER_indcpa.c", "poly.c", "cbd.c", "fips202.c"),
     [("all intermediates are initialised before use", "SABER_indcpa.c, poly.c"), ("module-level tables are constant after they are written", "AVX SABER_indcpa.c load_values")],
     "record/replay history monitor, build-differential digests, valgrind memcheck definedness",
     "Histories and builds are sampled; memcheck tracks definedness bit-precisely on the executions it runs.",
     state=[dict(name="mask, inv3_avx, ...", meaning="module-level vector constants rewritten at each call", where="AVX_Implementation_KEM/SABER_indcpa.c")])

prop("C08", "Secrets never steer a branch or a memory address",
     "In key generation, encapsulation and decapsulation, no conditional jump and no memory address depends on secret data: the secret key's polynomials and rejection value, the generator output, the message and everything computed from them. "
     "In particular accepted and rejected ciphertexts take the same path through decapsulation.",
     ["inputs", "configurations"], "all secret values, accepted and rejected ciphertexts, all 25 host configurations, the compiled code with the project's optimisation level",
     "Functional tests cannot observe which instructions ran; a table look-up or an early exit gives the same answers.",
     f("kem.c", "kem4x.c", "verify.c", "SABER_indcpa.c", "cbd.c", "poly.c", "aes256ctr.c"),
     [("branch-free comparison and conditional move", "verify.c"), ("branch-free sampling", "cbd.c"), ("bitsliced AES", "Variants/uSaber-90s/ref/aes256ctr.c")],
     "taint monitor (memcheck with secrets marked undefined) on the compiled binaries",
     "Every branch and address of the executed instructions is checked bit-precisely; the executed paths are all paths if the property holds. Microarchitectural leakage and variable-latency instructions are not covered. AVX2/AES-NI baseline (-march=haswell) stands for the native build.",
     observe=["VALGRIND_MAKE_MEM_UNDEFINED on secret key parts and on every byte randombytes returns"])

prop("C09", "Concurrent operations on separate data do not disturb each other",
     "When several threads run key generation, encapsulation and decapsulation at the same time, each on its own buffers and with its own source of randomness, every thread gets the same results as when it runs alone, from the very first call of the process on. "
     "The portable C implementations (reference and uSaber/90s reference) share no mutable state at all: no data race occurs.",
     ["schedules", "configurations"], "all interleavings of operations of several threads, all 25 host configurations",
     "All tests are single-threaded.",
     f("kem.c", "kem4x.c", "SABER_indcpa.c", "poly.c", "poly_mul.c", "fips202.c"),
     [("no module-level mutable state in the portable code; only constants written idempotently in the vector code", "SABER_indcpa.c")],
     "ThreadSanitizer and a result oracle under multi-threaded stress with injected delays",
     "Interleavings are sampled (8 threads, random delays, many process starts); TSan's happens-before analysis generalises over schedules of the executed accesses. The vector implementations write identical constants to globals on each call, a benign formal race, so TSan is used on the portable ones only. The NIST generator itself is a process-wide singleton and is excluded.")

prop("C10", "The random generator is exactly the NIST AES-256 CTR DRBG",
     "After seeding with 48 bytes of entropy and an optional personalisation string, the generator returns exactly the bytes of the AES-256 CTR DRBG (no derivation function), for every sequence of requests of any length including zero, with the state updated after every request, and reseeding restarts it completely. "
     "Consequently a whole seeded session of key generations, encapsulations and raw requests is reproducible bit for bit, and decapsulation consumes nothing.",
     ["inputs", "histories", "configurations"], "all seeds, personalisation strings and request histories",
     "The known-answer programs use one seeding pattern and 32- and 48-byte requests only; odd lengths, zero-length requests, long requests and counter carries never occur.",
     f("rng.c", "rng.h", "kem.c", "kem4x.c"),
     [("counter increment with carry, partial last block, key/V update", "rng.c randombytes, AES256_CTR_DRBG_Update")],
     "online trace checker against an independent DRBG model",
     "Random request histories with boundary lengths and forced deep counter carries; requests up to 300 kB. Trusts OpenSSL AES.",
     state=[dict(name="DRBG_ctx", meaning="key, counter and reseed counter of the process-wide generator", where="rng.c")])

prop("C11", "The seed expander honours its stream and its budget",
     "A seed-expander context yields exactly the AES-256 counter stream determined by seed, diversifier and announced maximum length, independent of how the requests are cut and of other contexts. "
     "It never hands out a byte beyond its budget: a request that reaches or exceeds what remains, a missing output buffer and a maximum of 2^32 or more are refused with their documented codes, and a refused request leaves the stream untouched.",
     ["inputs", "histories"], "all seeds, diversifiers, budgets and request sequences",
     "No test calls the seed expander at all.",
     f("rng.c", "rng.h"),
     [("length_remaining accounting, buffered partial block, 32-bit block counter", "rng.c seedexpander_init, seedexpander")],
     "online trace checker against a stream-and-budget model",
     "Interleaved contexts, boundary budgets and requests; streams of more than 2^16 blocks are reached (two counter carries), 2^24 blocks are not.")

prop("C12", "The Keccak functions are the standard ones at every length",
     "SHAKE-128, SHA3-256, SHA3-512 and, where offered, SHAKE-256, cSHAKE-128 and the four-way versions return the standard's output for every input length and every output length, including zero, exact multiples of the rate and very long messages, and also when output and input are the same buffer. "
     "They write exactly the requested bytes.",
     ["inputs"], "all messages and lengths, five copies of the code plus the four-way one",
     "The KEM tests hash a handful of fixed lengths; other lengths and the remaining functions are never executed.",
     f("fips202.c", "fips202x4.c", dirs=HOST) + [X4 + "/keccak4x/KeccakP-1600-times4-SIMD256.c"],
     [("absorb/pad/squeeze", "fips202.c keccak_absorb, keccak_squeezeblocks")],
     "differential monitor against a textbook Keccak cross-checked with OpenSSL, with guard pages",
     "Every length 0..1399 as input and output, plus sampled longer ones; contents sampled.")

prop("C13", "The 90s primitives are standard SHA-2 and AES-256-CTR at every length",
     "SHA-256 and SHA-512 of the 90s variants return the standard digest for every message length, and the AES-256 counter-mode generators return the standard key stream for every key, nonce and output length, in one call or block by block. "
     "They write exactly the requested bytes.",
     ["inputs"], "all messages, keys, nonces and lengths, both copies of the code",
     "The 90s KEM uses few fixed lengths and a zero nonce; padding boundaries, counter carries and partial blocks elsewhere are never executed.",
     [UR + "/sha256.c", UR + "/sha512.c", UR + "/aes256ctr.c", UR + "/symmetric-aes.c", UA + "/crypto_stream_aes256ctr.c", UA + "/symmetric-aes.c"],
     [("length padding and compression", "sha256.c, sha512.c"), ("counter handling over 4- or 8-block batches", "aes256ctr.c, crypto_stream_aes256ctr.c")],
     "differential monitor against OpenSSL, with guard pages",
     "Every length 0..1399 as input and output, plus sampled ones up to 200 kB (AES counter carries over two bytes).")

prop("C14", "Randomness is drawn exactly, fully used and never exposed",
     "Key generation draws exactly 96 random bytes per key pair, encapsulation exactly 32 per ciphertext, decapsulation none. "
     "Every drawn bit influences the result it is meant for and nothing else (public seed, secret vector, rejection value, message), and no raw generator output appears in a public key, ciphertext or shared secret.",
     ["inputs", "configurations"], "all generator outputs, every bit of every draw, all 25 host configurations",
     "Tests do not look at what is drawn; a seed that is truncated, reused, or published unhashed still round-trips.",
     f("kem.c", "kem4x.c", "SABER_indcpa.c"),
     [("seed_A is hashed before publication", "SABER_indcpa.c indcpa_kem_keypair"), ("message is hashed before use", "kem.c crypto_kem_enc")],
     "monitor on the randomness interface with single-bit perturbation",
     "All 256 bit positions of each draw are perturbed at least once per configuration and run; contents sampled.")

prop("C15", "Every generated key pair is well formed",
     "A generated secret key contains, in the documented order, a secret vector with coefficients in the parameter set's small range, an exact copy of the public key, the hash of that public key, and a fresh 32-byte rejection value. "
     "The public vector is exactly the rounded image of that secret vector under the matrix expanded from the published seed.",
     ["inputs", "configurations"], "all seeds, all 25 host configurations",
     "Tests treat keys as opaque blobs; an out-of-range coefficient, a stale hash or a wrong embedded key is invisible to a round trip.",
     f("kem.c", "kem4x.c", "SABER_indcpa.c", "cbd.c", "poly.c", "SABER_params.h"),
     [("key layout", "kem.c crypto_kem_keypair"), ("binomial or uniform sampling", "cbd.c")],
     "structural invariant monitor on generated keys",
     "Keys sampled; the whole support of the secret distribution is observed.")

prop("C16", "Ring arithmetic, encodings and comparison helpers are exact",
     "Polynomial multiplication, matrix-vector and inner products give the exact result in the negacyclic ring modulo q for all operands, not just small secrets. "
     "Packing and unpacking are exact inverses of each other for every coefficient width and follow the little-endian bit order, and the comparison and conditional-move helpers are right for every length and every position of a difference.",
     ["inputs", "configurations"], "all operands over the full coefficient range, all byte strings",
     "The kernels are only run inside honest round trips, where one operand is always small and errors in unused ranges cannot show.",
     f("poly_mul.c", "poly.c", "pack_unpack.c", "verify.c"),
     [("Toom-Cook-4 and Karatsuba evaluation and interpolation with exact divisions", "poly_mul.c"), ("bit packing", "pack_unpack.c")],
     "differential monitor of the kernels against schoolbook and bit-string models",
     "Operand shapes at the extremes of the range plus random ones; sampling. Exported routines only: multiplication in the vector code is observed through C04 and C17.")

prop("C17", "The underlying public-key encryption is exact for chosen messages and coins",
     "The CPA-secure encryption beneath the KEM computes exactly the specification's ciphertext for every message, coins and public key, and exactly the specification's message for every ciphertext and secret vector; a message encrypted under a generated key is recovered. "
     "Extreme messages and coins that the KEM's hashing never produces are included.",
     ["inputs", "configurations"], "all messages, coins, keys and ciphertexts, all single-lane host configurations",
     "The KEM hashes the message and derives the coins, so no test can reach chosen or extreme ones.",
     f("SABER_indcpa.c", "poly.c", "poly_mul.c", "pack_unpack.c", dirs=HOST[:4]),
     [("encryption, decryption, rounding", "SABER_indcpa.c indcpa_kem_enc, indcpa_kem_dec")],
     "differential monitor against an independent specification model",
     "Sampling with hostile shapes for message, coins, key and ciphertext.")

prop("C18", "The random generator fails closed and leaks no resources",
     "If any call into the cipher library fails while random bytes or seed-expander bytes are being produced, the process stops instead of returning predictable bytes. "
     "Every cipher context the generator acquires is released again, so a long-running process does not grow.",
     ["fault_sequences", "histories"], "a failure of each cipher-library call in turn; all request histories",
     "Tests never see a failing cipher library and never run long enough for a leak to matter.",
     f("rng.c"),
     [("error checks that abort", "rng.c AES256_ECB, handleErrors"), ("context release", "rng.c AES256_ECB")],
     "exhaustive single-fault injection on cipher-library calls and a resource-conservation monitor",
     "All single failures of a workload covering seeding, full and partial blocks and the seed expander; multiple simultaneous failures are not injected.",
     level="fault_enumeration")

exec(open(os.path.join(ROOT, "tools", "gen_more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "gen_more.py")) else None

with open(os.path.join(ROOT, "properties.jsonl"), "w") as fo:
    for p in P:
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                 observe_at=p["observe"] or ["crypto_kem_keypair", "crypto_kem_enc", "crypto_kem_dec"], hook_needed=None)
        if p["state"]:
            a["state"] = p["state"]
        assert len(p["title"]) <= 80, p["title"]
        fo.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                 quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
    for x in globals().get("EXTRA_PROPERTIES", []):
        fo.write(json.dumps(x) + "\n")
NA = globals().get("NOT_APPLICABLE", [])
m = dict(version=1, setup_cmd="true",
         checks=[dict(property=p["id"], quick_cmd="python3 check.py " + p["id"],
                      thorough_cmd="VERIF_TIER=thorough python3 check.py " + p["id"], technique=p["tech"],
                      level=p["level"], level_note=p["note"]) for p in P],
         not_applicable=NA,
         notes="No hooks in /repo: the monitors interpose at link time (--wrap) and drive the public API. known_findings.txt lists repaired defects.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fo:
    json.dump(m, fo, indent=1)
    fo.write("\n")
