M4 = "Cortex-M_Implementation_KEM/Cortex-M4/src/saber/"
M0 = "Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/"
M4F = [M4 + "m4-striding/" + n for n in ("kem.c", "SABER_indcpa.c", "poly.c", "poly_mul.c", "pack_unpack.c", "cbd.c", "verify.c", "tc.s", "kara.s")] + \
      [M4 + "m4-tc4kara/" + n for n in ("poly_mul.c", "asm_funcs.S", "mult_toom4_256_16.s")]
M0F = [M0 + "src/" + n for n in ("kem.c", "SABER_indcpa.c", "poly.c", "poly_mul.c", "pack_unpack.c", "cbd.c", "verify.c", "encode.c", "fips202.c", "keccakf1600.S", "asm_KeccakF-1600.S")]
have = lambda names: [n for n in names if os.path.exists(os.path.join("/repo", n))]

prop("C19", "The Cortex-M4 implementations compute exactly the specified Saber KEM",
     "For every security level and both multiplier variants, the Cortex-M4 firmware's key generation, encapsulation and decapsulation produce exactly the bytes the Saber specification prescribes for the same randomness and inputs: honest decapsulation returns the encapsulated secret, any modified ciphertext is implicitly rejected, and arbitrary keys and ciphertexts are processed as specified. "
     "Its assembly multipliers return the exact product modulo x^256+1 for every pair of operands.",
     ["inputs", "configurations"], "all seeds, keys and ciphertexts; LightSaber, Saber and FireSaber with the striding and the Toom-Cook/Karatsuba multiplier",
     "No test in the repository runs Cortex-M code at all: it needs a board.",
     have(M4F), [("Thumb-2 DSP multipliers with packed 16-bit accumulators", M4 + "m4-*/*.s, *.S"), ("FO transform", M4 + "m4-*/kem.c")],
     "instruction-level monitored execution of the firmware in an emulator, compared with an independent specification model",
     "Sampling: hundreds of complete KEM runs per variant in the quick tier, thousands in the thorough one. Trusts the monitor's own interpreter; pqm4's Keccak is played by the monitor.",
     observe=["crypto_kem_keypair", "crypto_kem_enc", "crypto_kem_dec", "poly_mul"])

prop("C20", "The Cortex-M0 implementation is a correct Saber KEM with standard hashing",
     "The Cortex-M0 firmware's key generation produces exactly the specified key pair, honest encapsulation and decapsulation always agree, and any modified ciphertext is implicitly rejected with the hash of the rejection value. Its ciphertexts and secrets are exactly those of the first-round Saber rounding it implements, for arbitrary public keys, secret keys and ciphertexts. "
     "Its SHA3, SHAKE and cSHAKE functions give the standard output for every input and output length, and its multiplier is exact.",
     ["inputs"], "all seeds, keys, ciphertexts, messages and lengths",
     "No test in the repository runs Cortex-M code at all: it needs a board.",
     have(M0F), [("re-encryption check", M0 + "src/kem.c crypto_kem_dec"), ("bit-interleaved Keccak in assembly", M0 + "src/*.S"), ("Toom-Cook, Karatsuba and schoolbook", M0 + "src/poly_mul.c")],
     "instruction-level monitored execution of the firmware in an emulator, compared with an independent specification model",
     "Sampling; about 160 complete KEM runs in the quick tier. Trusts the monitor's own interpreter. The hardware random generator is scripted.",
     observe=["crypto_kem_keypair", "crypto_kem_enc", "crypto_kem_dec", "pol_mul", "sha3_256", "shake128"])

prop("C21", "Cortex-M code never touches foreign memory or uses undefined values",
     "No call into the Cortex-M4 or Cortex-M0 firmware, with any keys or ciphertexts, reads or writes outside its arguments, its globals and its live stack frame, writes through a const argument, performs an unaligned access its processor does not support, lets a branch, an address or an output depend on uninitialised memory, or returns with callee-saved registers or the stack pointer changed. "
     "Its C code executes no undefined behaviour.",
     ["inputs", "configurations"], "all keys and ciphertexts (also arbitrary ones), six Cortex-M4 variants and the Cortex-M0 one",
     "There is no test that runs this code, and no memory protection on the boards it targets.",
     have(M4F + M0F), [("hand-written assembly addressing", M4 + "m4-*/*.s, *.S"), ("fixed-size buffers", M0 + "src/kem.c")],
     "instruction-level access monitor and undefined-value tracking in an emulator, plus AddressSanitizer and UndefinedBehaviorSanitizer on the C part",
     "Objects inside one stack frame or one global section are told apart only in the sanitizer build of the C code. Sampling of inputs; the code is branch-free, so few paths exist.",
     observe=["crypto_kem_keypair", "crypto_kem_enc", "crypto_kem_dec"])

prop("C22", "Cortex-M secrets never steer a branch or a memory address",
     "While the Cortex-M4 and Cortex-M0 firmware generates keys, encapsulates or decapsulates, no branch and no memory address depends on a secret: not on the secret-key vector, the rejection value, the message, the noise seed, or on whether decapsulation accepts. "
     "The public key, the ciphertext, the matrix seed and the outputs that are published may.",
     ["inputs", "configurations"], "all secrets; six Cortex-M4 variants and the Cortex-M0 one",
     "A leak changes no output, and no test runs this code.",
     have(M4F + M0F), [("constant-time comparison and conditional move", M4 + "m4-*/verify.c"), ("branch-free sampling", M4 + "m4-*/cbd.c")],
     "bit-level secret tracking in an instruction-level monitor of the firmware",
     "Tracks bits through every register, flag and memory byte of the compiled firmware at several optimisation levels; reports only what executed. Caches and operand-dependent instruction timing are not modelled.",
     observe=["crypto_kem_keypair", "crypto_kem_enc", "crypto_kem_dec"])

prop("C23", "The parameter scripts compute correct failure probabilities",
     "The probability calculus behind parameter selection (binomial laws, rounding-error laws, convolutions, products, conditioning, tails, mean and variance) returns the mathematically correct law for every input law. "
     "Run from end to end, the selection reports for each security level exactly the moduli, dimension, sizes and noise the C code ships, and a decryption failure probability that is the exact one for these parameters.",
     ["inputs", "configurations"], "all finite laws and moduli; the three shipped security levels",
     "The scripts have no tests; a wrong failure probability looks like any other number.",
     ["Scripts/Python_Scripts/select_params/proba_util.py", "Scripts/Python_Scripts/select_params/select_params.py"],
     [("double-and-add convolution with pruning below 2^-300", "proba_util.py iter_law_convolution"), ("search over p and T", "select_params.py search_params")],
     "online monitor comparing every law with exact rational arithmetic, and the selection with an independent computation",
     "Random laws of up to 13 points plus the shipped parameters. The tail is judged with the boundary points counted or not. The lattice estimator, which is not in the repository, is a stand-in.",
     observe=["law_convolution", "iter_law_convolution", "tail_probability", "search_params"])

prop("C26", "The Cortex-M0 board's generator hands out every hardware random byte once",
     "On the Cortex-M0 board, rng_enable loads the generator's key only while the hardware accepts it, starts it streaming and discards its warm-up output before returning. "
     "Afterwards randombytes fills exactly the requested bytes for every length and buffer, and every one of them is made of eight fresh bits of a word read from the hardware during that call: none is constant, repeated, stale or left unwritten.",
     ["inputs", "histories", "schedules"], "all request lengths, sequences of requests and generator timings",
     "No test runs the board's code, and a weak random byte changes no functional result.",
     have([M0 + "src/prng.c"]), [("two bytes per 16-bit hardware word", M0 + "src/prng.c randombytes"), ("key loading and warm-up", M0 + "src/prng.c rng_enable")],
     "monitored execution of the complete firmware image on an interpreted board whose random peripheral tags every word it hands out",
     "The peripheral's rules (ready flag, key blocks, warm-up) are the monitor's reading of the XMC1100 manual as the code uses it. Sampling of lengths 0-600 and timings.",
     observe=["rng_enable", "randombytes"])

prop("C27", "The Cortex-M0 image runs from reset within its board",
     "The image built by the Cortex-M0 Makefile and linker script starts from its reset vector, initialises its data and zero-fills its BSS whatever the RAM held, and stays within the part's flash and RAM with the stack never running into the data. "
     "It generates a key pair, encapsulates and decapsulates to the same specified secret, and reports each operation's elapsed timer ticks over the UART, also when the hardware timer wraps in between, losing and garbling no character, at 115200 baud 8N1. Built to measure memory instead, it runs the same operations and reports the stack each of them used. Its UART routines print exactly the text or number they are given.",
     ["inputs", "schedules", "histories"], "all power-up memory contents, random streams, timer phases and UART timings",
     "There is no test of it at all: it needs the board.",
     have([M0 + "src/init.c", M0 + "src/main.c", M0 + "src/uart.c", M0 + "src/benchmark.c", M0 + "linker_script.ld"]),
     [("start-up copy and clear loops", M0 + "src/init.c"), ("timer with overflow interrupt", M0 + "src/benchmark.c"), ("UART busy-wait", M0 + "src/uart.c")],
     "monitored execution of the complete firmware image from reset on an interpreted board with peripherals, checked against the specification and the peripheral trace",
     "The interpreted board models memory map, SysTick, UART and random generator, not the clock tree. Tens of complete boots in the quick tier.",
     observe=["reset vector", "main", "uart transmit register", "SysTick handler"])

M4S = "Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/"
prop("C28", "The Cortex-M4 kernel generator and aligner emit exact, aligned kernels",
     "Run with 16 or 32, generate-multiplication.py emits assembly whose Karatsuba kernel is the exact product modulo x^64+1 and whose striding Toom-Cook kernel is the exact product modulo x^256+1, so that firmware built with these in place of the shipped kernels still gives the specified key pairs, ciphertexts and secrets; any other size is refused with a failure status. "
     "fix-alignment.py rewrites such a file, or any file of straight-line functions in the same vocabulary and whatever its name, without changing what any function computes, and leaves no 32-bit instruction across a 4-byte boundary.",
     ["inputs", "configurations"], "both kernel sizes, all operands, all straight-line functions in the generator's vocabulary",
     "No test runs the scripts, and thousands of emitted instructions depend on the size and on the alignment of everything before them.",
     have([M4S + "generate-multiplication.py", M4S + "fix-alignment.py", M4S + "kara.s", M4S + "tc.s"]),
     [("kernel emission", M4S + "generate-multiplication.py schoolbook, karatsuba, toomcook4"), ("widening of 16-bit instructions", M4S + "fix-alignment.py")],
     "monitored execution of the generated kernels in the firmware and of aligned functions beside their originals, checked against the specification model; monitored instruction addresses",
     "ARM interpreter's reading of the instruction set; random functions use the generator's instructions only.",
     observe=["kara_strd_mem_asm", "toom_cook_4way_striding_asm", "crypto_kem_keypair/enc/dec of the rebuilt firmware", "addresses of the aligned code"])

prop("C29", "The Cortex-M0 evaluation script reports what the board measured",
     "evaluate.py builds the memory-measuring and then the timing image from main.c, puts exactly the freshly built binary on the board at its flash address, and prints, for key generation, encapsulation, decapsulation and all three together, "
     "the bytes of stack each really used, and then the timer ticks each really took, each under its own name, at 115200 baud. It ends with success and leaves main.c as it found it.",
     ["inputs", "schedules"], "all speeds of the board, power-up contents and random streams",
     "No test runs the script, which needs a board, and none the images it builds; labels, figures and line order are spread over four files.",
     have([M0 + "evaluate.py", M0 + "src/main.c", M0 + "src/uart.c", M0 + "src/benchmark.c", M0 + "Makefile"]),
     [("switching of the image by its line in main.c", M0 + "evaluate.py replace_line"), ("one line per figure", M0 + "evaluate.py main")],
     "monitored execution of the script with the interpreted board behind a stand-in serial port and programmer; figures printed compared with those the board monitor saw",
     "The script is Python 2: its print statements are respelled before it runs under Python 3. The serial port delivers in order and without loss.",
     observe=["lines printed by evaluate.py", "commands to the programmer", "stack and timer of the interpreted board"])

UNCLAIMED = [
    ("C24", "The published attack-cost estimates follow from the parameters",
     "The block sizes and the classical and quantum costs reported for the three parameter sets are those a lattice-reduction estimator gives for them, and the module-to-ring sanity check succeeds.",
     ["configurations"], "the three parameter sets", "It is a cryptanalytic estimate, not a behaviour of the code.",
     ["Scripts/Python_Scripts/select_params/select_params.py", "Scripts/Sage_Scripts/sanity_check.sage"],
     "needs SageMath, fpylll and the leaky-LWE-Estimator, none of which is in the repository or the sandbox, so the code cannot be executed and hence not monitored"),
    ("C25", "The KEM is IND-CCA secure",
     "No efficient adversary with decapsulation access can tell a shared secret from a random string.",
     ["inputs"], "all efficient adversaries", "It is a statement about all adversaries.",
     ["Reference_Implementation_KEM/kem.c"],
     "a computational-security claim about all adversaries has no oracle over executions; the implementation facts it rests on (conformance, implicit rejection, constant time, fresh randomness) are C02, C03, C08 and C14"),
]
NOT_APPLICABLE = [dict(property=u[0], reason=u[7]) for u in UNCLAIMED]
EXTRA_PROPERTIES = [dict(id=u[0], title=u[1], statement=u[2], quantifier=dict(over=u[3], text=u[4]), why_tests_cant=u[5],
                         anchors=dict(files=u[6], mechanism=[dict(name=u[1], where=u[6][0])], observe_at=["the whole script"] if u[0] == "C24" else ["crypto_kem_dec"], hook_needed=None)) for u in UNCLAIMED]
