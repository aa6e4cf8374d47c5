"""What each check runs. A Job is one execution of one monitor binary."""
import os, sys

import buildlib as B

EVP_WRAP = ["-Wl,--wrap=" + w for w in ("EVP_CIPHER_CTX_new", "EVP_CIPHER_CTX_free", "EVP_EncryptInit_ex", "EVP_EncryptUpdate")]


class Job:
    def __init__(self, conf, harness, args, flavour="plain", extra=(), wrap=True, link=(), valgrind=False,
                 fallback=None, case_args=None, weight=1.0, timeout=700,
                 optional=False, patience=False):
        self.patience = patience
        self.optional, self.missing = optional, False
        self.conf, self.harness, self.args, self.flavour = conf, harness, list(args), flavour
        self.extra, self.wrap, self.link = list(extra), wrap, list(link)
        self.valgrind, self.fallback, self.case_args = valgrind, fallback, case_args
        self.weight, self.timeout = weight, timeout

    def conf_id(self):
        return self.conf.id

    def label(self):
        return "%s %s[%s] %s" % (self.conf.id, self.harness, self.flavour, " ".join(map(str, self.args)))

    def build(self):
        tag = "." + "%08x" % (hash((tuple(self.extra), tuple(self.link), self.wrap)) & 0xffffffff)
        extra = [x.replace("@src", B.api_dir(self.conf)) if "@src" in x else x for x in self.extra]
        return B.build_once(self.conf, self.flavour, self.harness, extra=extra, wrap=self.wrap, tag=tag, link=self.link)

    def spec(self):
        return dict(conf=self.conf.id, harness=self.harness, args=self.args, flavour=self.flavour, extra=self.extra,
                    wrap=self.wrap, link=self.link, valgrind=self.valgrind, fallback=self.fallback, case_args=self.case_args)

    @staticmethod
    def from_spec(s):
        if s["conf"] == "Scripts":
            return ScriptJob(Scripts, s["harness"], s["args"], case_args=s["case_args"])
        if s["harness"] == "gen_mon.py" or s["flavour"].startswith("gen-"):
            return (GenScript if s["harness"] == "gen_mon.py" else GenJob)(B.config(s["conf"]), s["harness"], s["args"], s["flavour"], case_args=s["case_args"])
        if s["harness"] in ("board_mon.c", "eval_mon.py"):
            return (BoardJob if s["harness"] == "board_mon.c" else EvalJob)(B.config(s["conf"]), s["harness"], s["args"], s["flavour"], case_args=s["case_args"])
        return Job(B.config(s["conf"]), s["harness"], s["args"], s["flavour"], s["extra"], s["wrap"], s["link"],
                   s["valgrind"], s["fallback"], s["case_args"])

    def narrow(self, case):
        a = list(self.args)
        a[self.case_args[0]], a[self.case_args[1]] = case, 1
        s = self.spec()
        s["args"] = a
        return Job.from_spec(s)


def prebuild(jobs):
    """A build of another compiler or optimisation level (optional) that does not compile or link is
    left out and counted; the builds the project itself uses must work."""
    generated = {j.conf.id: j.conf for j in jobs if isinstance(j, (GenJob, GenScript))}
    jobs = [j for j in jobs if not isinstance(j, (ScriptJob, BoardJob, GenJob, GenScript))]
    jobs += [Job(c, "arm_mon.c", [], "arm-O3") for c in generated.values()]
    need = {(j.conf.id, j.flavour) for j in jobs if not j.optional}
    pairs = {(j.conf.id, j.flavour): (j.conf, j.flavour) for j in jobs}
    failed = B.compile_all(list(pairs.values()), optional=set(pairs) - need)
    bins = {}
    for j in jobs:
        bins.setdefault((j.conf.id, j.flavour, j.harness, tuple(j.extra), j.wrap, tuple(j.link)), []).append(j)

    def build(group):
        try:
            if (group[0].conf.id, group[0].flavour) in failed:
                raise B.BuildError("does not compile")
            group[0].build()
        except B.BuildError:
            if not all(j.optional for j in group):
                raise
            for j in group:
                j.missing = True
    B.pmap(build, list(bins.values()))


def workers(jobs):
    return 2 if any(j.harness == "thr_mon.c" for j in jobs) else B.JOBS


class Prop:
    level = "exploration"
    rule = ""
    assumptions = ["x86-64 host of the sandbox with AVX2 and AES-NI", "OpenSSL's SHA-2 and AES (used by the oracle) are correct"]
    need = ()

    def __init__(self, fn, rule, level="exploration", assumptions=(), need=(), cross=None, extra=None):
        self.fn, self.rule, self.level, self.need = fn, rule, level, need
        self.assumptions = Prop.assumptions + list(assumptions)
        self._cross, self._extra = cross, extra

    def jobs(self, tier, seed):
        return self.fn(tier == "thorough", seed)

    def cross(self, results):
        return self._cross(results) if self._cross else []

    def extra_coverage(self, results):
        return self._extra(results) if self._extra else {}

    def sanity(self, stats):
        return [k for k in self.need if not stats.get(k)]


def split(mk, total, chunk, weight):
    """total cases in chunks -> jobs made by mk(first, count)"""
    out, first = [], 0
    while first < total:
        n = min(chunk, total - first)
        j = mk(first, n)
        j.weight = n * weight
        out.append(j)
        first += n
    return out


ALL = B.configurations
COST = {2: 0.7, 3: 1.0, 4: 1.4}


def guided(modes, confs=ALL, sessions=(3, 60), flavour="cov", extra=()):
    """coverage- and comparison-guided sessions (fuzz_mon.c)"""
    def fn(deep, seed):
        out = []
        for c in confs():
            for m in modes:
                out += split(lambda f, k: Job(c, "fuzz_mon.c", [m, seed, f, k], flavour, extra=extra, case_args=[2, 3], optional=True),
                             sessions[1] if deep else sessions[0], 6, 300 * COST[c.L] * c.lanes)
        return out
    return fn


def plus(*fns):
    return lambda deep, seed: [j for f in fns for j in f(deep, seed)]


def kem(mode, quick, thorough, chunk, sweeps=None, opts=()):
    def fn(deep, seed):
        out = []
        for c in ALL():
            n = thorough if deep else quick
            n = max(8, int(n / (COST[c.L] * c.lanes)))
            out += split(lambda f, k: Job(c, "kem_mon.c", [mode, seed, f, k, *opts], case_args=[2, 3]), n, chunk, COST[c.L] * c.lanes)
            if sweeps:
                for s in range(sweeps[1] if deep else sweeps[0]):
                    out.append(Job(c, "kem_mon.c", [mode, seed + 7919 * (s + 1), 0, 1, 1], weight=800 * COST[c.L]))
        return out
    return fn


MEM = "-DMEMORY_ONLY=1"


def memory(deep, seed):
    out = []
    k = 8 if deep else 1
    for c in ALL():
        w = COST[c.L] * c.lanes
        out.append(Job(c, "mem_mon.c", [seed, 0, int(400 * k / w)], extra=[MEM], case_args=[1, 2], weight=400))
        out.append(Job(c, "mem_mon.c", [seed, 0, int(160 * k / w)], "asan", extra=["-DHEAP", MEM], case_args=[1, 2], weight=900))
        out.append(Job(c, "api_mon.c", [seed, 0, 12 * k], "asan", extra=["-I@src"], case_args=[1, 2], weight=100))
        out.append(Job(c, "kem_mon.c", ["hostile", seed, 0, int(160 * k / w)], "asan", extra=[MEM], case_args=[2, 3], weight=600))
        for mode, n in (("keccak", 900), ("sha2aes", 900), ("ring", 150), ("pke", 40)):
            if mode == "sha2aes" and not c.family.startswith("uSaber"):
                continue
            out.append(Job(c, "prim_mon.c", [mode, seed, 0 if mode != "keccak" else 0, n * k], "asan", extra=[MEM], case_args=[2, 3], weight=500))
        if c.id in RNG_CONFS:
            for mode, n in (("drbg", 60), ("expander", 60)):
                out.append(Job(c, "rng_mon.c", [mode, seed, 0, n * k], "asan", extra=[MEM], wrap=False, case_args=[2, 3], weight=500))
    return out


# rng.c does not depend on the parameter set: one configuration per copy of the file
RNG_CONFS = ["Reference/Saber", "AVX/Saber", "uSaber-90s-ref/uSaber-90s", "uSaber-90s-avx2/Saber-90s", "SaberX4-avx2/Saber"]


def determinism(deep, seed):
    out = []
    k = 6 if deep else 1
    n = 60 * k
    for c in ALL():
        w = COST[c.L] * c.lanes
        out.append(Job(c, "state_mon.c", ["history", seed, 0, max(4, int(60 * k / w))], case_args=[2, 3], weight=900))
        out.append(Job(c, "state_mon.c", ["soak", seed, 0, 140 if deep else 17], case_args=[2, 3], weight=3000))    # one process, over 65536 calls
        fl = ["plain", "clang", "patinit", "zeroinit"]
        for f in fl:
            out.append(Job(c, "state_mon.c", ["digest", seed, 0, int(n / w)], f, weight=200, optional=f != "plain"))
        out.append(Job(c, "ct_mon.c", ["uninit", seed, 0, 6 * k], "vg3", valgrind=True, fallback="vg", case_args=[2, 3], weight=2500))
    return out


def digests_agree(results):
    by = {}
    for r in results:
        d = r["stats"].get("_digest")
        if d:
            by.setdefault(r["job"].conf_id(), []).append((r, d))
    for cid, rows in sorted(by.items()):
        base_r, base = rows[0]
        for r, d in rows[1:]:
            for case in sorted(set(base) & set(d)):
                if base[case] != d[case]:
                    yield r, dict(key="result-depends-on-build", cfg=cid, case=case,
                                  text="case %d: build %s and build %s disagree" % (case, base_r["job"].flavour, r["job"].flavour))
                    break


def digest_cov(results):
    return dict(builds_compared=sum(1 for r in results if r["stats"].get("_digest")),
                digests=sum(len(r["stats"].get("_digest", {})) for r in results))


def consttime(deep, seed):
    out = []
    for c in ALL():
        for f in (["vg3", "vg"] if deep else ["vg3"]):
            for part in range(4 if deep else 1):
                out.append(Job(c, "ct_mon.c", ["secret", seed, part * 40, 40 if deep else 12], f, valgrind=True, fallback="vg",
                               case_args=[2, 3], weight=3000 * c.lanes))
    return out


def concurrency(deep, seed):
    out = []
    for c in ALL():
        # several short processes: the first call of a process is a special moment
        for s in range(12 if deep else 3):
            out.append(Job(c, "thr_mon.c", [seed * 1000 + s, 0, 36, 8], case_args=None, weight=100))
        out.append(Job(c, "thr_mon.c", [seed, 0, (4000 if deep else 480) // c.lanes, 8], weight=900))
        if not c.avx:
            for s in range(6 if deep else 1):
                out.append(Job(c, "thr_mon.c", [seed * 1000 + s, 0, 24, 6], "tsan", extra=["-DNO_CRASH_HANDLER"], weight=1500))
    return out


def rng(modes, extra=("-DEVP_WRAP",), link=EVP_WRAP):
    def fn(deep, seed):
        out = []
        for cid in RNG_CONFS:
            c = B.config(cid)
            for mode, q, t, chunk in modes:
                if mode == "kem":
                    continue
                out += split(lambda f, k: Job(c, "rng_mon.c", [mode, seed, f, k], wrap=False, extra=extra, link=link, case_args=[2, 3]),
                             t if deep else q, chunk, 5000 if mode == "longexp" else 500 if mode == "longdrbg" else 10)
        for mode, q, t, chunk in modes:
            if mode == "kem":
                for c in ALL():
                    out += split(lambda f, k: Job(c, "rng_mon.c", [mode, seed, f, k], wrap=False, extra=extra, link=link, case_args=[2, 3]),
                                 t if deep else q, chunk, 3 * c.lanes)
        return out
    return fn


def prim(mode, confs, quick, thorough, chunk, flavours=("plain",)):
    def fn(deep, seed):
        out = []
        for c in confs():
            for f in flavours:
                out += split(lambda a, k: Job(c, "prim_mon.c", [mode, seed, a, k], f, case_args=[2, 3]), thorough if deep else quick, chunk, 1)
        return out
    return fn


def huge(kinds, confs):
    """one input or output longer than 2^32 bytes per routine"""
    def fn(deep, seed):
        return [Job(c, "prim_mon.c", ["huge", seed, k, 1], case_args=[2, 3], weight=20000, timeout=450, patience=True) for c in confs() for k in kinds
                if (k not in (5, 6) or c.lanes == 4)]
    return fn


def state(mode, confs, quick, thorough, chunk):
    def fn(deep, seed):
        out = []
        for c in confs():
            out += split(lambda a, k: Job(c, "state_mon.c", [mode, seed, a, k], case_args=[2, 3]), thorough if deep else quick, chunk, c.lanes)
        return out
    return fn


def FOUR():
    return [B.config("SaberX4-avx2/Saber")]


def one_per_family():
    return [B.config(i) for i in ["Reference/Saber", "AVX/Saber", "uSaber-90s-ref/Saber", "uSaber-90s-avx2/Saber", "SaberX4-avx2/Saber"]]


def nineties():
    return [B.config(i) for i in ["uSaber-90s-ref/Saber-90s", "uSaber-90s-avx2/Saber-90s"]]


class ScriptJob(Job):
    """a monitor of the parameter scripts"""

    def build(self):
        return ["python3-vt", os.path.join(B.HERE, self.harness), B.REPO]


class BoardJob(Job):
    """the complete Cortex-M0 image, built by its own Makefile"""

    def build(self):
        return B.build_board(self.conf, self.flavour)


def board(parts):
    """parts: (mode, cases quick, cases thorough, chunk, weight)"""
    def fn(deep, seed):
        out = []
        for c in B.cortex_configurations("m0"):
            for i, fl in enumerate(["board", "board-Os", "board-O1"] if deep else ["board", "board-Os"]):
                for mode, q, t, chunk, w in parts:
                    image = fl + "-mem" if mode == "mem" else fl
                    out += split(lambda a, k: BoardJob(c, "board_mon.c", [mode, seed + 101 * i, a, k], image, case_args=[2, 3]), t if deep else q, chunk, w)
        return out
    return fn


class EvalJob(BoardJob):
    """the evaluation script, talking to the interpreted board"""

    def build(self):
        return [sys.executable, os.path.join(B.HERE, "eval_mon.py"), B.build_board(self.conf, "board")[0]]


def evaluation(deep, seed):
    out = []
    for c in B.cortex_configurations("m0"):
        out += split(lambda a, k: EvalJob(c, "eval_mon.py", ["eval", seed, a, k], "board", case_args=[2, 3]), 200 if deep else 16, 2, 1000)
    return out


class GenJob(Job):
    """the Cortex-M4 firmware with kernels as the tree's generator emits them"""

    def build(self):
        try:
            return B.build_gen(self.conf, self.flavour)
        except B.GenFailure as e:           # judged by gen_mon.py; said here for the execution that cannot take place
            return [sys.executable, "-c", "import sys; print('VIOL key=generator cfg=' + sys.argv[1] + ' case=0 ' + sys.argv[2])", self.conf.id, str(e)]


class GenScript(Job):
    """the generator and the aligner on their own"""

    def build(self):
        return ["python3-vt", os.path.join(B.HERE, "gen_mon.py"), B.build_once(self.conf, "arm-O3", "arm_mon.c")[0]]


def generator(deep, seed):
    out = []
    confs = [c for c in B.cortex_configurations("m4") if c.id.startswith("Cortex-M4-striding")]
    for c in confs:
        for fl in ("gen-16", "gen-16-aligned", "gen-32", "gen-32-aligned"):
            out += split(lambda a, k: GenJob(c, "arm_mon.c", ["kern", seed, a, k], fl, case_args=[2, 3]), 6000 if deep else 300, 150, COST[c.L])
            out += split(lambda a, k: GenJob(c, "arm_mon.c", ["mul", seed, a, k], fl, case_args=[2, 3]), 3000 if deep else 60, 60, COST[c.L])
            out += split(lambda a, k: GenJob(c, "arm_mon.c", ["kem", seed, a, k], fl, case_args=[2, 3]), 300 if deep else 10, 10, 30 * COST[c.L])
    if confs:
        out.append(GenScript(confs[0], "gen_mon.py", ["emit", seed, 0, 3], "arm-O3", case_args=[2, 3], weight=300))
        out += split(lambda a, k: GenScript(confs[0], "gen_mon.py", ["align", seed, a, k], "arm-O3", case_args=[2, 3]), 12000 if deep else 320, 40, 5)
    return out


class Scripts:
    id, L, lanes, family = "Scripts", 3, 1, "Scripts"


def scripts(deep, seed):
    out = split(lambda f, k: ScriptJob(Scripts, "prob_mon.py", ["laws", seed, f, k], case_args=[2, 3]), 20000 if deep else 1050, 500 if deep else 150, 1)
    out.append(ScriptJob(Scripts, "prob_mon.py", ["select", seed, 0, 1], case_args=[2, 3], weight=5000))
    return out


def cortex(core, parts, opts=()):
    """parts: (mode, flavours quick, flavours thorough, cases quick, cases thorough, chunk)"""
    def fn(deep, seed):
        out = []
        for c in B.cortex_configurations(core):
            for mode, fq, ft, q, t, chunk in parts:
                if mode == "hash" and c.core != "m0" or mode == "kern" and c.core != "m4":
                    continue
                heavy = 6 if c.core == "m0" and mode != "mul" else 1
                for i, fl in enumerate(ft if deep else fq):
                    n = max(2, (t if deep else q) // heavy)
                    out += split(lambda a, k: Job(c, "arm_mon.c", [mode, seed + 101 * i, a, k, *opts], "arm-" + fl, case_args=[2, 3]),
                                 n, max(1, chunk // heavy), COST[c.L] * heavy * (1 if mode in ("mul", "hash", "kern") else 30))
        return out
    return fn


def cortex_safety(deep, seed):
    out = cortex(None, [("safe", ["O3", "Os"], ["O3", "O2", "O1", "Os"], 48, 1200, 24), ("mul", ["O3"], ["O3", "Os"], 60, 600, 60), ("hash", ["O3"], ["O3", "Os"], 240, 4800, 60), ("kern", ["O3"], ["O3"], 40, 400, 20)], ["mem"])(deep, seed)
    k = 10 if deep else 1
    for c in B.cortex_configurations():
        out.append(Job(c, "mem_mon.c", [seed, 0, int(60 * k / COST[c.L])], "asan", extra=["-DHEAP", MEM], case_args=[1, 2], weight=900, optional=True))
        for mode, n in (("hostile", 60), ("agree", 30)):
            out.append(Job(c, "kem_mon.c", [mode, seed, 0, int(n * k / COST[c.L])], "asan", extra=[MEM], case_args=[2, 3], weight=600, optional=True))
    return out


RULE_KEM = ("A case is a function of (seed, case number): random and hostile-shaped seeds, keys and ciphertexts for one "
            "configuration. An evaluation is one monitored call into the KEM; non-trivial ones are distinct by a hash of all its inputs. ")
RULE_ARM = "A case is a function of (seed, case number). The firmware is compiled for its processor and executed instruction by instruction by the monitor; an evaluation is one call into it, distinct by a hash of its inputs. "
ARM_ASSUME = ["the monitor's ARMv6-M/ARMv7E-M interpreter (it stops, inconclusive, on any instruction it does not know)", "pqm4's Keccak (not in this repository) is played by the monitor for Cortex-M4"]
RULE_BOARD = "A case is a function of (seed, case number): contents of RAM at reset, hardware random words, device delays and clock ratio. The image built by the repository's Makefile is executed instruction by instruction from its reset vector on interpreted hardware. "
BOARD_ASSUME = ["the monitor's ARMv6-M interpreter (it stops, inconclusive, on any instruction it does not know)", "its model of the XMC1100's memory map, PRNG, USIC FIFO and system tick"]
PROPERTIES = {
    "C01": Prop(plus(kem("agree", 5000, 100000, 2500), guided(["agree"])), RULE_KEM + "Decapsulation of honestly produced ciphertexts is compared with encapsulation.", need=("accepted",)),
    "C02": Prop(plus(kem("reject", 600, 12000, 300, sweeps=(1, 20)), guided(["reject"])), RULE_KEM + "Each evaluation decapsulates a modified ciphertext (20 tampering kinds, plus every single-bit flip).", need=("rejected",)),
    "C03": Prop(plus(kem("spec", 9000, 200000, 4500), guided(["spec"])), RULE_KEM + "Every output byte is compared with the independent specification model."),
    "C04": Prop(plus(kem("hostile", 6000, 120000, 3000), guided(["hostile"])), RULE_KEM + "Public keys, secret keys and ciphertexts are arbitrary byte strings; outputs compared with the specification model."),
    "C05": Prop(plus(state("lanes", FOUR, 6000, 120000, 750), guided(["spec", "reject", "hostile"], FOUR)), "A case fills four lanes with honest, tampered or hostile data, runs them, permutes them, and replaces three of them; non-trivial calls are distinct by their inputs.", need=("accepted", "rejected", "lane_permutations_seen")),
    "C06": Prop(plus(memory, guided(["hostile", "spec"], sessions=(1, 20), flavour="covasan", extra=[MEM])), "Calls with buffers of exactly the documented size between guard pages, in exact heap blocks, at every alignment, and in blocks of the size api.h announces, under AddressSanitizer and UndefinedBehaviorSanitizer; non-trivial ones are distinct by inputs.", need=("sessions_in_announced_buffers",)),
    "C07": Prop(determinism, "Calls repeated after other histories, with dirty stacks and output buffers, in four builds, and under memcheck; distinct by inputs.", cross=digests_agree, extra=digest_cov, need=("replays", "output_bytes_checked_defined")),
    "C08": Prop(consttime, "Calls executed by memcheck with all secrets marked undefined, so every secret-dependent branch or address is an event; distinct by inputs.", assumptions=["memcheck's shadow propagation", "variable-time arithmetic instructions are out of reach"], need=("secret_bytes_tracked", "accepted", "rejected")),
    "C09": Prop(concurrency, "One evaluation is a keypair, an encapsulation and a decapsulation run by one of several threads at the same time; distinct by inputs.", need=("ops_overlapping_another_thread",)),
    "C10": Prop(rng([("drbg", 400, 12000, 100), ("longdrbg", 1, 12, 1), ("kem", 250, 6000, 125)]), "Histories of (re)seeding and requests of many lengths, and KEM operations drawing from the real generator; one evaluation is one request compared with the oracle, distinct by length and expected bytes.", need=("inits", "partial_block", "kem_ops", "long_histories")),
    "C11": Prop(rng([("expander", 800, 20000, 100), ("longexp", 1, 4, 1)]), "Interleaved seed-expander contexts with budgets and requests around every boundary; one evaluation is one granted request, distinct by expected bytes.", need=("refused", "granted")),
    "C12": Prop(plus(prim("keccak", one_per_family, 14000, 300000, 1750), huge((0, 1, 2, 5, 6, 7), one_per_family)), "Every input length from 0 up, every output length, rate boundaries, long inputs, one beyond 2^32 bytes per routine, in-place and 4-way calls; distinct by expected output.", need=("len_zero", "len_rate_multiple", "beyond_4_gib")),
    "C13": Prop(plus(prim("sha2aes", nineties, 12000, 300000, 1500), huge((3, 4, 8), nineties)), "Every input length from 0 up, every output length, block boundaries, random keys, nonces about to carry, one input and one stream beyond 2^32 bytes; distinct by expected output.", need=("len_zero", "beyond_4_gib")),
    "C14": Prop(plus(state("draws", ALL, 512, 8192, 256), guided(["draws"])), RULE_KEM + "Each case flips one bit of every value drawn from the generator; 256 cases sweep all bits.", need=("bit_flips",)),
    "C15": Prop(plus(state("keys", ALL, 4000, 60000, 2000), guided(["keys"])), RULE_KEM + "Each key pair is taken apart and checked on its own terms.", need=("distinct_secret_values",)),
    "C16": Prop(prim("ring", ALL, 6000, 120000, 2000), "Operands over the whole coefficient range in nine shapes; one evaluation is one routine call, distinct by expected result."),
    "C17": Prop(plus(prim("pke", ALL, 1800, 40000, 600), guided(["pke"])), "Key generation, encryption and decryption with chosen messages and coins and with arbitrary keys and ciphertexts; distinct by expected result.", need=("pke_decs",)),
    "C18": Prop(rng([("faults", 64, 256, 64)]), "A failure is injected into each cipher-library call of a fixed workload in turn; distinct by failing call.", level="fault_enumeration", need=("faults_injected", "cipher_contexts")),
    "C19": Prop(plus(guided(["spec", "reject", "hostile"], lambda: B.cortex_configurations("m4"), (1, 20)), cortex("m4", [("kem", ["O3"], ["O3", "Os"], 144, 3000, 24), ("mul", ["O3"], ["O3", "Os"], 400, 8000, 200), ("kern", ["O3"], ["O3"], 400, 8000, 200)])), RULE_ARM + "Every output byte of key generation, encapsulation and decapsulation (honest, tampered and arbitrary inputs) and of the multiplier is compared with the specification model.", assumptions=ARM_ASSUME, need=("accepted", "rejected", "hostile", "arm_instructions")),
    "C20": Prop(plus(guided(["spec", "reject", "hostile"], lambda: B.cortex_configurations("m0"), (2, 40)), cortex("m0", [("kem", ["O3"], ["O3", "Os"], 960, 18000, 60), ("mul", ["O3"], ["O3", "Os"], 400, 8000, 100), ("hash", ["O3"], ["O3", "Os"], 2400, 48000, 300)])), RULE_ARM + "Every output byte of the KEM, of the multiplier and of the hash functions is compared with the specification model.", assumptions=ARM_ASSUME, need=("accepted", "rejected", "hostile", "arm_instructions")),
    "C21": Prop(cortex_safety, RULE_ARM + "The interpreter checks every load, store and fetch against the arguments' exact extents and the live stack, and tracks undefined bits to every branch, address and output.", assumptions=ARM_ASSUME, need=("arm_loads", "arm_stores", "hostile", "tampered")),
    "C22": Prop(cortex(None, [("secret", ["O3", "Os"], ["O3", "O2", "O1", "Os"], 36, 900, 12)]), RULE_ARM + "All secret bits are tracked through registers, flags and memory; a branch, address or divide on one is an event.", assumptions=ARM_ASSUME, need=("arm_conditional_branches", "tampered")),
    "C28": Prop(generator, RULE_ARM + "Kernels come from the tree's generator in both sizes, plain and aligned, and replace the shipped ones: kernel products, ring products and whole KEM operations are compared with the specification model. The aligner also rewrites random functions of the same vocabulary, which run next to their originals; every 32-bit instruction's address is checked.", assumptions=ARM_ASSUME + ["the installed arm-none-eabi assembler and disassembler"], need=("accepted", "arm_instructions", "refusals", "functions_run_against_their_original", "straddling_before_alignment")),
    "C26": Prop(board([("random", 4000, 80000, 500, 1), ("bootrng", 24, 240, 6, 60)]), RULE_BOARD + "Every byte handed out must be a byte of a hardware word read during that request, none of them twice; an evaluation is one request, distinct by length and bytes.", assumptions=BOARD_ASSUME, need=("random_requests", "generator_words", "kem_operations")),
    "C27": Prop(board([("boot", 160, 3200, 10, 60), ("trace", 400, 8000, 100, 1), ("timer", 60, 3000, 15, 2), ("mem", 16, 400, 2, 120)]), RULE_BOARD + "Operations, traces and reported times are compared with what the devices saw and with the specification model.", assumptions=BOARD_ASSUME, need=("kem_operations", "accepted", "traces_checked", "tick_interrupts", "uart_bytes", "uart_lines_checked", "stack_figures_checked")),
    "C29": Prop(evaluation, RULE_BOARD + "A case is a complete run of evaluate.py: two images built by the Makefile and put on the interpreted board, seven printed figures compared with what the board saw; an evaluation is one figure, distinct by value.", assumptions=BOARD_ASSUME + ["Python 2 print statements respelled for Python 3", "a serial port that loses nothing"], need=("script_runs", "figures_compared", "images_flashed")),
    "C23": Prop(scripts, "A case is a random law or a set of moduli; an evaluation is one call of a function of proba_util.py, compared with exact rational arithmetic, distinct by arguments. One more execution runs the whole selection.", assumptions=["the lattice-security estimator, which is not in the repository, is replaced by a stand-in with the published block sizes"], need=("law_weights_compared", "reported_values_compared", "estimator_queries")),
}
