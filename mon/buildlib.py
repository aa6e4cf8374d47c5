"""Builds harness binaries from /repo's current working tree in a scratch directory.

Each configuration is a private copy of an implementation directory with the project's own
parameter switches set (SABER_L / SABER_TYPE / uSaber / Saber90s). The list of source files is
asked from the project's own Makefile (make -n), so a file that is split or added there is
picked up here."""
import os, re, shutil, subprocess, sys, tempfile, threading, atexit
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
JOBS = os.cpu_count() or 4
LEVELS = {"LightSaber": 2, "Saber": 3, "FireSaber": 4}


class BuildError(Exception):
    """The tree could not be built: an error of the run, never a verdict."""


def choose(text, macro, value):
    found = 0

    def line(m):
        nonlocal found
        on = m.group(2) == value
        found += on
        return ("" if on else "// ") + "#define " + macro + " " + m.group(2) + m.group(3)

    text = re.sub(r"^[ \t]*(//[ \t]*)?#define[ \t]+%s[ \t]+(\w+)(.*)$" % macro, line, text, flags=re.M)
    if found != 1:
        raise BuildError("expected one '#define %s %s' line, found %d" % (macro, value, found))
    return text


def switch(text, macro, on):
    text, n = re.subn(r"^[ \t]*(?://[ \t]*)?#define[ \t]+%s[ \t]*$" % macro,
                      ("" if on else "// ") + "#define " + macro, text, flags=re.M)
    if n != 1:
        raise BuildError("expected one '#define %s' line, found %d" % (macro, n))
    return text


class Config:
    def __init__(self, ident, src, edits, L, u=0, n=0, lanes=1, cflags=(), family=""):
        self.id, self.src, self.edits = ident, src, edits
        self.L, self.u, self.n, self.lanes = L, u, n, lanes
        self.cflags, self.family = list(cflags), family
        self.core = None
        self.avx = family in ("AVX", "uSaber-90s-avx2", "SaberX4-avx2")

    @property
    def key(self):
        return self.id.replace("/", "_")

    @property
    def alg(self):
        return ("u" if self.u else "") + [k for k, v in LEVELS.items() if v == self.L][0] + ("-90s" if self.n else "")

    def defines(self):
        return ["-DCFG_L=%d" % self.L, "-DCFG_U=%d" % self.u, "-DCFG_90S=%d" % self.n,
                "-DLANES=%d" % self.lanes, '-DCFG_ID="%s"' % self.id, "-DCFG_AVX=%d" % self.avx, "-DCFG_OLD=%d" % (self.core == "m0"), "-DCFG_CORTEX=%d" % bool(self.core)]


def configurations():
    out = []
    for name, k in LEVELS.items():
        out.append(Config("Reference/" + name, "Reference_Implementation_KEM",
                          {"SABER_params.h": [(choose, "SABER_L", str(k))]}, k, family="Reference"))
    for name, k in LEVELS.items():
        out.append(Config("AVX/" + name, "AVX_Implementation_KEM",
                          {"api.h": [(choose, "SABER_TYPE", name)]}, k, family="AVX"))
    for name, k in LEVELS.items():
        for n in (0, 1):
            for u in (0, 1):
                alg = ("u" if u else "") + name + ("-90s" if n else "")
                out.append(Config("uSaber-90s-ref/" + alg, "Variants/uSaber-90s/ref",
                                  {"SABER_params.h": [(choose, "SABER_L", str(k)), (switch, "uSaber", bool(u)),
                                                      (switch, "Saber90s", bool(n))]}, k, u, n,
                                  family="uSaber-90s-ref"))
            alg = name + ("-90s" if n else "")
            out.append(Config("uSaber-90s-avx2/" + alg, "Variants/uSaber-90s/avx2",
                              {"api.h": [(choose, "SABER_TYPE", name)],
                               "SABER_params.h": [(switch, "Saber90s", bool(n))]}, k, 0, n,
                              cflags=["-fcommon"], family="uSaber-90s-avx2"))
    out.append(Config("SaberX4-avx2/Saber", "Variants/SaberX4_avx2", {}, 3, 0, 0, 4,
                      cflags=["-fcommon"], family="SaberX4-avx2"))
    return out


ARM = os.path.join(os.path.dirname(HERE), "arm")
CPU = {"m4": ["-mthumb", "-mcpu=cortex-m4", "-mfloat-abi=hard", "-mfpu=fpv4-sp-d16"], "m0": ["-mthumb", "-mcpu=cortex-m0"]}
# the firmware's board support: clock, UART, the hardware generator
M0_BOARD = ("init.c", "prng.c", "uart.c", "benchmark.c", "main.c")


def cortex_configurations(core=None):
    """Cortex-M code. Flavours arm-*: machine code for the monitored interpreter; others: its C part on the host."""
    out = []
    for name, k in LEVELS.items():
        for v in ("striding", "tc4kara"):
            c = Config("Cortex-M4-%s/%s" % (v, name), "Cortex-M_Implementation_KEM/Cortex-M4/src/%s/m4-%s" % (name.lower(), v), {}, k,
                       cflags=["-I", os.path.join(ARM, "m4inc"), "-I", "."], family="Cortex-M4")
            c.core = "m4"
            out.append(c)
    c = Config("Cortex-M0/Saber", "Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem", {}, 3, cflags=["-I", "include"], family="Cortex-M0")
    c.core = "m0"
    out.append(c)
    return [c for c in out if core in (None, c.core)]


def config(ident):
    for c in configurations() + cortex_configurations():
        if c.id == ident:
            return c
    raise KeyError(ident)


FLAVOURS = {
    # what the project ships: its own optimisation flags
    "plain": dict(cc="gcc", cflags=["-O3", "-fomit-frame-pointer", "-march=native", "-w"], ldflags=[]),
    # one sanitizer family per build (no AVX-512 with ASan: gcc 13 misaligns 64-byte locals in its fake frames)
    "asan": dict(cc="gcc", cflags=["-O1", "-g", "-fno-omit-frame-pointer", "-march=native", "-mno-avx512f", "-w",
                                   "-fsanitize=address,undefined", "-fno-sanitize=shift-base",
                                   "-fno-sanitize-recover=all",
                                   "-fsanitize-address-use-after-scope"],
                 ldflags=["-fsanitize=address,undefined"]),
    "tsan": dict(cc="gcc", cflags=["-O1", "-g", "-march=native", "-w", "-fsanitize=thread"],
                 ldflags=["-fsanitize=thread"]),
    # valgrind does not know AVX-512: pin an AVX2+AES baseline
    "vg": dict(cc="gcc", cflags=["-O2", "-g", "-march=haswell", "-maes", "-w"], ldflags=[]),
    "vg3": dict(cc="gcc", cflags=["-O3", "-g", "-fomit-frame-pointer", "-march=haswell", "-maes", "-w"], ldflags=[]),
    "clang": dict(cc="clang", cflags=["-O2", "-march=native", "-w"], ldflags=[]),
    # coverage counters and comparison tracing for the guided workload
    "cov": dict(cc="clang", cflags=["-O1", "-march=native", "-w", "-fno-builtin-memcmp", "-fsanitize-coverage=inline-8bit-counters,trace-cmp"], ldflags=[]),
    "covasan": dict(cc="clang", cflags=["-O1", "-g", "-march=native", "-w", "-fno-builtin-memcmp", "-fsanitize=address",
                                        "-fsanitize-coverage=inline-8bit-counters,trace-cmp"], ldflags=["-fsanitize=address"]),
    "O1": dict(cc="gcc", cflags=["-O1", "-march=native", "-w"], ldflags=[]),
    # stack variables without an initialiser start from a hostile pattern / from zero
    "patinit": dict(cc="gcc", cflags=["-O1", "-march=native", "-w", "-ftrivial-auto-var-init=pattern"], ldflags=[]),
    "zeroinit": dict(cc="gcc", cflags=["-O1", "-march=native", "-w", "-ftrivial-auto-var-init=zero"], ldflags=[]),
}
for _o in ("O3", "O2", "O1", "Os"):
    FLAVOURS["arm-" + _o] = dict(cc="arm-none-eabi-gcc", cflags=["-" + _o, "-w"], ldflags=[])
AVXFLAGS = ["-msse2avx", "-mavx2"]

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        base = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
        _scratch = tempfile.mkdtemp(prefix="verif-saber-", dir=base)
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, **kw)


def materialise(conf):
    with _mguard:
        lock = _mlocks.setdefault(conf.key, threading.Lock())
    with lock:
        return _materialise(conf)


_mguard, _mlocks = threading.Lock(), {}


def _materialise(conf):
    dest = os.path.join(scratch(), "src", conf.key)
    if os.path.isdir(dest):
        return dest
    root = os.path.join(REPO, conf.src)
    for base, dirs, names in os.walk(root):
        dirs[:] = [d for d in dirs if d not in ("obj", ".git")]
        for name in names:
            path = os.path.join(base, name)
            if name.startswith("._") or not os.path.isfile(path):
                continue
            if name.endswith((".o", ".a", ".d", ".elf", ".bin", ".hex", ".req", ".rsp", ".pyc")):
                continue
            with open(path, "rb") as f:
                data = f.read()
            if data[:4] == b"\x7fELF":
                continue
            rel = os.path.relpath(path, root)
            if rel in conf.edits:
                text = data.decode("utf-8", "surrogateescape")
                for fn, *args in conf.edits[rel]:
                    text = fn(text, *args)
                data = text.encode("utf-8", "surrogateescape")
            out = os.path.join(dest, rel)
            os.makedirs(os.path.dirname(out), exist_ok=True)
            with open(out, "wb") as f:
                f.write(data)
    return dest


def cortex_sources(conf, dest, asm):
    """what the firmware consists of, apart from the board's own code"""
    if conf.core == "m4":
        names = sorted(n for n in os.listdir(dest) if n.endswith((".c", ".s", ".S")))
    else:
        r = run(["make", "-n", "-B", "-C", dest, "main.elf"])
        if r.returncode:
            raise BuildError("make -n failed in %s: %s" % (dest, r.stdout.decode(errors="replace")[-800:]))
        names = []
        for tok in re.findall(r"[\w./+-]+\.[cSs](?=\s|$)", r.stdout.decode(errors="replace")):
            tok = os.path.normpath(tok)
            if os.path.basename(tok) not in M0_BOARD and tok not in names and os.path.isfile(os.path.join(dest, tok)):
                names.append(tok)
    names = [n for n in names if asm or n.endswith(".c")]
    if not names:
        raise BuildError("no sources found in " + dest)
    return names


def _cortex_jobs(conf, flavour):
    dest = materialise(conf)
    fl = FLAVOURS[flavour]
    odir = os.path.join(scratch(), "obj", flavour, conf.key)
    os.makedirs(odir, exist_ok=True)
    arm = flavour.startswith("arm")
    flags = [*fl["cflags"], *(CPU[conf.core] if arm else []), *conf.cflags]
    objs, jobs = [], []

    def add(src, obj, extra=()):
        obj = os.path.join(odir, obj)
        objs.append(obj)
        if not os.path.exists(obj):
            jobs.append((conf, flavour, [fl["cc"], *flags, *extra, "-c", src, "-o", obj], dest, 1))
    for src in cortex_sources(conf, dest, arm):
        add(src, src.replace("/", "_") + ".o")
    if arm:
        add(os.path.join(ARM, "stub_%s.S" % conf.core), "zz_stub.o")
        add(os.path.join(ARM, "guest.c"), "zz_guest.o", ["-O2", "-fno-tree-loop-distribute-patterns", "-ffreestanding"])
    else:
        add(os.path.join(ARM, "host_%s.c" % conf.core), "zz_host.o", ["-I", HERE])
    return objs, jobs


# internal routines of the firmware that a monitor calls by name, with the arguments it passes:
# p pointer, c pointer to const, s scalar in one register, l 64-bit scalar
FIRMWARE = {
    "m4": dict(poly_mul="ccp", poly_mul_acc="ccp", kara_strd_mem_asm="cccc", toom_cook_4way_striding_asm="ccc"),
    "m0": dict(pol_mul="ccp", sha3_256="pcl", sha3_512="pcl", shake128="plcl", shake256="plcl", cshake128_simple="plscl", cshake256_simple="plscl",
               shake128_absorb="pcs", shake256_absorb="pcs", shake128_squeezeblocks="plp", shake256_squeezeblocks="plp",
               cshake128_simple_absorb="pscl", cshake256_simple_absorb="pscl", cshake128_simple_squeezeblocks="plp", cshake256_simple_squeezeblocks="plp",
               rng_enable="", randombytes="pl", UART_SendAddr="s", UART_SendWord="s", UART_Write="cs", UART_SendTrace="css", UART_Read="p",
               setup_tick_count="", start_tick_count="", end_tick_count=""),
}


def _arm_shape(params):
    parts, depth, cur = [], 0, ""
    for ch in params + ",":
        if ch == "," and depth == 0:
            parts.append(cur)
            cur = ""
            continue
        depth += (ch in "([") - (ch in ")]")
        cur += ch
    return "".join("l" if k == "s" and re.search(r"long long|64", q) else k
                   for q in parts for k in [_shape(q)] if k)


def hide_foreign(conf, elf, dest, names, flags):
    """Writes elf.hide: the routines above that take other arguments in this tree, which the monitor
    then takes for absent (a changed internal interface is not a violation)."""
    hide, want = set(), FIRMWARE[conf.core]
    for i, src in enumerate(names):
        if not src.endswith(".c"):
            continue
        aux = "%s.aux.%d" % (elf, i)
        run(["arm-none-eabi-gcc", *CPU[conf.core], "-O0", "-w", *flags, "-aux-info", aux, "-fsyntax-only", src], cwd=dest)
        if not os.path.exists(aux):
            continue
        with open(aux) as h:
            for m in re.finditer(r"^/\* [^\n]*:\d+:\w[FC] \*/ extern ([^(]*?)(\w+) \((.*?)\);", h.read(), re.M):
                if m.group(2) in want:
                    e, a = want[m.group(2)], _arm_shape(m.group(3))
                    if len(e) != len(a) or not all(x == y or (x == "c" and y == "p") for x, y in zip(e, a)):
                        hide.add(m.group(2))
                    if m.group(2) in ("end_tick_count", "UART_Read") and "void" in m.group(1):
                        hide.add(m.group(2))
        os.remove(aux)
    with open(elf + ".hide", "w") as h:
        h.write("".join(n + "\n" for n in sorted(hide)))


AS_M4 = ["arm-none-eabi-gcc", "-mthumb", "-mcpu=cortex-m4", "-mfloat-abi=hard", "-mfpu=fpv4-sp-d16", "-c"]


class GenFailure(Exception):
    """the kernel generator or the aligner did not do its work"""


def generate(conf, size, aligned):
    """kernels as the tree's own generator (and aligner) emits them -> assembly file"""
    dest = materialise(conf)
    with _guard:
        lock = _locks.setdefault(("gen", conf.key, size, aligned), threading.Lock())
    with lock:
        top = os.path.join(scratch(), "gen", "%s.%d.%d" % (conf.key, size, aligned))
        out = os.path.join(top, "kernels.s")
        if os.path.exists(out):
            return out
        os.makedirs(top, exist_ok=True)
        r = subprocess.run([sys.executable, "-B", os.path.join(dest, "generate-multiplication.py"), str(size)], cwd=top,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        if r.returncode:
            raise GenFailure("generate-multiplication.py %d: status %d %s" % (size, r.returncode, r.stderr.decode(errors="replace")[-200:]))
        with open(out + ".s", "wb") as f:
            f.write(r.stdout)
        if aligned:
            align(conf, out + ".s")
        os.rename(out + ".s", out)
    return out


def align(conf, path):
    r = subprocess.run([sys.executable, "-B", os.path.join(materialise(conf), "fix-alignment.py"), path], cwd=os.path.dirname(path),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    if r.returncode:
        raise GenFailure("fix-alignment.py: status %d %s" % (r.returncode, r.stdout.decode(errors="replace")[-200:]))


def assemble(path, obj):
    r = run([*AS_M4, path, "-o", obj])
    if r.returncode:
        raise GenFailure("%s does not assemble: %s" % (os.path.basename(path), r.stdout.decode(errors="replace")[-300:]))
    return obj


def symbols(obj):
    return {line.split()[-1] for line in run(["arm-none-eabi-nm", "-g", "--defined-only", obj]).stdout.decode().splitlines() if line}


def build_gen(conf, flavour):
    """gen-SIZE or gen-SIZE-aligned -> [monitor, firmware with the generated kernels]"""
    size, aligned = int(flavour.split("-")[1]), flavour.endswith("aligned")
    with _guard:
        lock = _locks.setdefault(("genelf", conf.key, flavour), threading.Lock())
    with lock:
        if (conf.id, flavour) not in _gen:
            kernels = assemble(generate(conf, size, aligned), os.path.join(scratch(), "gen", "%s.%s.o" % (conf.key, flavour)))
            _gen[conf.id, flavour] = build_arm(conf, "arm-O3", (flavour, kernels))
        return _gen[conf.id, flavour]


_gen = {}


def build_arm(conf, flavour, kernels=None):
    """-> [monitor, firmware]"""
    objs = compile_objs(conf, flavour)
    os.makedirs(os.path.join(scratch(), "bin"), exist_ok=True)
    if kernels:
        names = symbols(kernels[1])
        objs = [o for o in objs if not (o.endswith(".s.o") and symbols(o) & names)] + [kernels[1]]
    elf = os.path.join(scratch(), "bin", "%s.%s.elf" % (conf.key, kernels[0] if kernels else flavour))
    r = run(["arm-none-eabi-gcc", *CPU[conf.core], "-nostdlib", "-T", os.path.join(ARM, "guest.ld"), "-Wl,-e,crypto_kem_keypair",
             *objs, "-o", elf, "-lgcc"])
    if r.returncode:
        raise BuildError("%s [%s]: %s" % (conf.id, flavour, r.stdout.decode(errors="replace")[-1500:]))
    dest = materialise(conf)
    hide_foreign(conf, elf, dest, cortex_sources(conf, dest, False), [*FLAVOURS[flavour]["cflags"], *conf.cflags])
    mon = os.path.join(scratch(), "bin", "arm_mon." + conf.key)
    with _guard:
        lock = _locks.setdefault(mon, threading.Lock())
    with lock:
        if not os.path.exists(mon):
            r = run(["gcc", "-O2", "-Wall", "-Wextra", "-Wno-unused-function", "-I", ARM, "-I", HERE, *[d for d in conf.defines() if "LANES" not in d],
                     "-DARM_M0=%d" % (conf.core == "m0"), os.path.join(ARM, "arm_mon.c"), os.path.join(ARM, "emu.c"), model_obj(),
                     "-lcrypto", "-o", mon + ".tmp"])
            if r.returncode:
                raise BuildError(r.stdout.decode(errors="replace")[-1500:])
            os.rename(mon + ".tmp", mon)
    return [mon, elf]


def build_board(conf, flavour):
    """-> [monitor, image]: the image as the repository's own Makefile and linker script build it"""
    with _guard:
        lock = _locks.setdefault(("board", flavour), threading.Lock())
    with lock:
        os.makedirs(os.path.join(scratch(), "bin"), exist_ok=True)
        top = os.path.join(scratch(), "img", flavour)
        elf = os.path.join(top, "main.elf")
        if not os.path.exists(elf):
            shutil.copytree(materialise(conf), top, dirs_exist_ok=True)
            level = flavour[6:].replace("mem", "").strip("-")
            opt = ["CCFLAGS=-mthumb -mcpu=cortex-m0 -%s -w -I./include" % level] if level else []
            if "mem" in flavour:                 # the switch at the top of main.c
                with open(os.path.join(top, "src", "main.c"), encoding="latin1") as f:
                    text = f.read()
                with open(os.path.join(top, "src", "main.c"), "w", encoding="latin1") as f:
                    f.write("#define MEMSIZE\n" + re.sub(r"^[ \t]*#[ \t]*define[ \t]+(SPEED|MEMSIZE)\b", "//", text, flags=re.M))
            r = run(["make", "-C", top, "main.elf", *opt])
            if r.returncode:
                raise BuildError("%s [%s]: %s" % (conf.id, flavour, r.stdout.decode(errors="replace")[-1500:]))
            hide_foreign(conf, elf, top, ["src/" + n for n in sorted(os.listdir(os.path.join(top, "src")))] if os.path.isdir(os.path.join(top, "src")) else [], ["-I./include"])
        mon = os.path.join(scratch(), "bin", "board_mon." + conf.key)
        if not os.path.exists(mon):
            tmp = mon + ".%s.tmp" % flavour
            r = run(["gcc", "-O2", "-Wall", "-Wextra", "-Wno-unused-function", "-I", ARM, "-I", HERE, *[d for d in conf.defines() if "LANES" not in d],
                     os.path.join(ARM, "board_mon.c"), os.path.join(ARM, "emu.c"), model_obj(), "-lcrypto", "-o", tmp])
            if r.returncode:
                raise BuildError(r.stdout.decode(errors="replace")[-1500:])
            os.rename(tmp, mon)
    return [mon, elf]


def sources(dest):
    r = run(["make", "-n", "-B", "-C", dest, "test/test_kex"])
    if r.returncode:
        raise BuildError("make -n failed in %s: %s" % (dest, r.stdout.decode(errors="replace")[-800:]))
    out = []
    for tok in re.findall(r"[\w./+-]+\.c\b", r.stdout.decode(errors="replace")):
        tok = os.path.normpath(tok)
        if tok.split("/")[0] != "test" and tok not in out and os.path.isfile(os.path.join(dest, tok)):
            out.append(tok)
    if not out:
        raise BuildError("no sources found in " + dest)
    return out


def _objs_and_jobs(conf, flavour):
    if conf.core:
        return _cortex_jobs(conf, flavour)
    dest = materialise(conf)
    fl = FLAVOURS[flavour]
    odir = os.path.join(scratch(), "obj", flavour, conf.key)
    os.makedirs(odir, exist_ok=True)
    objs, jobs = [], []
    for src in sources(dest):
        obj = os.path.join(odir, src.replace("/", "_")[:-2] + ".o")
        objs.append(obj)
        if not os.path.exists(obj):
            cmd = [fl["cc"], *fl["cflags"], *(AVXFLAGS if conf.avx and fl["cc"] == "gcc" else []), *conf.cflags, "-c",
                   src, "-o", obj]
            jobs.append((conf, flavour, cmd, dest, os.path.getsize(os.path.join(dest, src)) * (20 if conf.lanes > 1 else 1)))
    return objs, jobs


def _compile(job):
    conf, flavour, cmd, cwd, _ = job
    r = run(cmd, cwd=cwd)
    if r.returncode:
        raise BuildError("%s [%s]: %s\n%s" % (conf.id, flavour, " ".join(cmd), r.stdout.decode(errors="replace")[-1500:]))


_objs = {}


def compile_all(pairs, optional=()):
    """all translation units of all (configuration, flavour) pairs over one pool, biggest first;
    -> the optional pairs that do not build"""
    def attempt(j):
        try:
            _compile(j)
        except BuildError:
            if (j[0].id, j[1]) not in optional:
                raise
            failed.add((j[0].id, j[1]))
    failed = set()
    todo = []
    for (conf, flavour), (objs, jobs) in zip(pairs, pmap(lambda p: _objs_and_jobs(*p), pairs)):
        _objs[(conf.id, flavour)] = objs
        todo += jobs
    pmap(attempt, sorted(todo, key=lambda j: -j[4]))
    return failed


def compile_objs(conf, flavour):
    """-> list of object files of the implementation in this flavour"""
    if (conf.id, flavour) not in _objs:
        objs, jobs = _objs_and_jobs(conf, flavour)
        for j in jobs:
            _compile(j)
        _objs[(conf.id, flavour)] = objs
    return _objs[(conf.id, flavour)]


def _shape(params):
    """'p' pointer, 'c' pointer to const, 's' scalar -- one letter per parameter"""
    out, depth, cur = [], 0, ""
    for ch in params + ",":
        if ch == "," and depth == 0:
            cur = cur.strip()
            if cur and cur != "void":
                ptr = "*" in cur or "[" in cur
                out.append("c" if ptr and re.search(r"\bconst\b", cur.split("*")[0]) else "p" if ptr else "s")
            cur = ""
            continue
        depth += (ch in "([") - (ch in ")]")
        cur += ch
    return "".join(out)


def _expected(*files):
    """the weak declarations of a monitor -> {name: shapes}"""
    out = {}
    for f in files:
        with open(os.path.join(HERE, f)) as h:
            for m in re.finditer(r"^WEAK(?:PKE)? \w+ (\w+)\((.*)\);$", h.read(), re.M):
                out.setdefault(m.group(1), set()).add(_shape(m.group(2)))
    return out


_sigs = {}


def foreign_interfaces(conf, flavour, harness):
    """Internal routines that exist but take other arguments than the monitor knows are not called
    (their names are hidden from the monitor): a changed internal interface is not a violation."""
    if harness not in ("prim_mon.c", "fuzz_mon.c") or conf.core:
        return []
    want = _expected("prim_mon.c", "pke.h")
    key = conf.id
    with _mguard:
        lock = _mlocks.setdefault("sig" + conf.key, threading.Lock())
    with lock:
        if key not in _sigs:
            dest, found = materialise(conf), {}
            for i, src in enumerate(sources(dest)):
                aux = os.path.join(scratch(), "aux.%s.%d" % (conf.key, i))
                run(["gcc", "-O0", "-march=native", "-w", "-aux-info", aux, "-fsyntax-only", src], cwd=dest)
                if not os.path.exists(aux):
                    continue
                for m in re.finditer(r"^/\* [^\n]*:\d+:\w[FC] \*/ extern [^(]*?(\w+) \((.*?)\);", open(aux).read(), re.M):
                    if m.group(1) in want:
                        opaque = m.group(1) in ("vector_vector_mul", "matrix_vector_mul") and "[64]" not in m.group(2)
                        found.setdefault(m.group(1), set()).add("other" if opaque else _shape(m.group(2)))
            _sigs[key] = found
    hide = []
    for name, shapes in _sigs[key].items():
        def fits(e, a):     # what the monitor passes as input may be declared without const, not the other way round
            return len(e) == len(a) and all(x == y or (x == "c" and y == "p") for x, y in zip(e, a))
        if not all(any(fits(e, a) for e in want[name]) for a in shapes):
            hide.append("-D%s=absent_%s" % (name, name))
    return sorted(hide)


_model_lock = threading.Lock()


def model_obj(flavour="plain"):
    with _model_lock:
        return _model_obj(flavour)


def _model_obj(flavour):
    """The oracle is never instrumented by a sanitizer, so that its own cost stays low."""
    arch = "-march=haswell" if flavour.startswith("vg") else "-march=native"
    obj = os.path.join(scratch(), "model_%s.o" % arch[7:])
    if not os.path.exists(obj):
        r = run(["gcc", "-O3", arch, "-Wall", "-Wextra", "-c", os.path.join(HERE, "model.c"), "-o", obj + ".%d" % os.getpid()])
        if r.returncode:
            raise BuildError(r.stdout.decode(errors="replace"))
        os.rename(obj + ".%d" % os.getpid(), obj)
    return obj


WRAPS = ["randombytes", "randombytes0", "randombytes1", "randombytes2", "randombytes3"]


def build_harness(conf, flavour, harness, extra=(), wrap=True, tag="", link=()):
    """harness: file name(s) in mon/ ; returns path of the binary"""
    fl = FLAVOURS[flavour]
    if flavour.startswith("arm"):
        return build_arm(conf, flavour)
    objs = compile_objs(conf, flavour)
    out = os.path.join(scratch(), "bin", "%s.%s.%s%s" % (harness[:-2], conf.key, flavour, tag))
    os.makedirs(os.path.dirname(out), exist_ok=True)
    arch = "-march=haswell" if flavour.startswith("vg") else "-march=native"
    hflags = ["-g", "-O1", arch, "-Wall", "-Wextra", "-Wno-unused-function", "-I", HERE]
    # the harness itself is compiled with the same instrumentation
    hflags += [f for f in fl["cflags"] if f.startswith("-fsanitize=") or f.startswith("-fsanitize-address") or f.startswith("-fno-sanitize")]
    cmd = [fl["cc"], *hflags, *conf.defines(), *foreign_interfaces(conf, flavour, harness), *extra, os.path.join(HERE, harness), *objs, model_obj(flavour),
           *fl["ldflags"], "-o", out, *link, "-lcrypto", "-lpthread", "-lm"]
    if wrap:
        cmd += ["-Wl,--wrap=" + w for w in WRAPS]
    if harness == "fuzz_mon.c":
        cmd += ["-Wl,--wrap=memcmp"]
    r = run(cmd)
    if r.returncode:
        raise BuildError("%s [%s]: %s\n%s" % (conf.id, flavour, " ".join(cmd), r.stdout.decode(errors="replace")[-2500:]))
    return out


_bins, _locks, _guard = {}, {}, threading.Lock()


def build_once(conf, flavour, harness, **kw):
    key = (conf.id, flavour, harness, kw.get("tag", ""))
    with _guard:
        lock = _locks.setdefault(key, threading.Lock())
    with lock:
        if key not in _bins:
            _bins[key] = build_harness(conf, flavour, harness, **kw)
    return _bins[key]


def pmap(fn, items, jobs=None):
    with ThreadPoolExecutor(jobs or JOBS) as pool:
        return list(pool.map(fn, items))


def api_dir(conf):
    """the folder of the implementation's public header"""
    dest = materialise(conf)
    for d in (dest, os.path.join(dest, "include")):
        if os.path.isfile(os.path.join(d, "api.h")):
            return d
    raise BuildError("no api.h in " + dest)
