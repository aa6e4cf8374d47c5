"""Monitor of the Cortex-M4 kernel generator and aligner: ARM_MON MODE seed first count

emit    generate-multiplication.py and fix-alignment.py of every implementation that ships them: what they emit
        assembles, defines the three kernels, lies as the aligner promises; a size they do not know is refused
align   fix-alignment.py on straight-line functions in the generator's vocabulary: same functions, same effect
        (both versions run in the interpreter), no 32-bit instruction across a 4-byte boundary
"""
import os, random, re, shutil, subprocess, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import buildlib as B

MON, MODE, SEED, FIRST, COUNT = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
KERNELS = {"schoolbook_gen", "kara_strd_mem_asm", "toom_cook_4way_striding_asm"}
CONFS = [c for c in B.cortex_configurations("m4") if os.path.exists(os.path.join(B.materialise(c), "generate-multiplication.py"))
         and os.path.exists(os.path.join(B.materialise(c), "fix-alignment.py"))]
TMP = tempfile.mkdtemp(prefix="gen_mon_")
STAT = {}
case = 0


def stat(k, n=1):
    STAT[k] = STAT.get(k, 0) + n


def viol(key, conf, text):
    print("VIOL key=%s cfg=%s case=%d %s" % (key, conf.id, case, re.sub(r"\s+", " ", text)))
    shutil.rmtree(TMP, ignore_errors=True)
    raise SystemExit(1)


def layout(obj):
    """-> {function: (instructions, those of 32 bits across a 4-byte boundary)}"""
    out, name = {}, None
    for line in subprocess.run(["arm-none-eabi-objdump", "-d", obj], stdout=subprocess.PIPE, check=True).stdout.decode().split("\n"):
        m = re.match(r"[0-9a-f]{8} <(.*)>:", line)
        if m:
            name = m.group(1)
            out[name] = [0, []]
        p = line.split("\t")
        if name and len(p) >= 3 and re.match(r"\s*[0-9a-f]+:", p[0]):
            out[name][0] += 1
            addr = int(p[0].strip()[:-1], 16)
            if len(p[1].replace(" ", "")) == 8 and addr % 4:
                out[name][1].append("%x: %s" % (addr, " ".join(p[2:])))
    return out


def straddling(conf, obj):
    for name, (n, bad) in layout(obj).items():
        stat("aligned_instructions", n)
        if bad:
            viol("straddling", conf, "function=%s count=%d of %d first=%s" % (name, len(bad), n, bad[0]))


def case_emit():
    conf = CONFS[case % len(CONFS)]
    for size in (16, 32):
        raw = B.assemble(B.generate(conf, size, False), os.path.join(TMP, "raw.o"))
        fix = B.assemble(B.generate(conf, size, True), os.path.join(TMP, "fix.o"))
        if KERNELS - B.symbols(raw):
            viol("kernels", conf, "size=%d does not define %s" % (size, " ".join(sorted(KERNELS - B.symbols(raw)))))
        if B.symbols(raw) != B.symbols(fix):
            viol("aligner", conf, "size=%d defined before %s after %s" % (size, sorted(B.symbols(raw)), sorted(B.symbols(fix))))
        straddling(conf, fix)
        a = layout(raw)
        stat("straddling_before_alignment", sum(len(x[1]) for x in a.values()))
        stat("monitored_calls", 2)
        stat("distinct_inputs", 2)
        print("SAMPLE %s size %d: %d instructions, %d across a boundary before alignment, 0 after" %
              (conf.id, size, sum(x[0] for x in a.values()), sum(len(x[1]) for x in a.values())))
    script = os.path.join(B.materialise(conf), "generate-multiplication.py")
    for args in (["4"], ["12"], ["24"], ["48"], ["64"], ["128"], ["0"], ["-16"], ["x"], [], ["16", "32"]):
        r = subprocess.run([sys.executable, "-B", script, *args], cwd=TMP, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        stat("monitored_calls")
        stat("refusals")
        if r.returncode == 0:
            viol("unknown-size", conf, "generate-multiplication.py %s reports success" % " ".join(args))


LOW, ALL = ["r%d" % i for i in range(2, 8)], ["r%d" % i for i in range(2, 13)] + ["r14"]
OPS3 = ["uadd16", "usub16", "smulbb", "smultb", "smultt", "smuadx", "smuad", "add", "sub", "eor", "smulbt"]
OPS4 = ["smladx", "smlad", "smlabb", "smlatt", "smlabt"]


def function(R, k, rare):
    lo, al = lambda: R.choice(LOW), lambda: R.choice(ALL)
    out = [".global f%d" % k, ".type f%d, %%function" % k, ".align 2", "f%d:" % k, "push {r4-r11, r14}"]
    out += ["mov r2, r1"] * R.randrange(3)
    out.append("sub sp, sp, #64")
    out += ["ldr %s, [r0, #%d]" % (r, 4 * R.randrange(32)) for r in R.sample(ALL, len(ALL))]
    out += ["str %s, [sp, #%d]" % (lo(), 4 * i) for i in range(16)]
    for _ in range(R.randrange(2, 90)):
        t = R.randrange(16)
        if t < 3:
            out.append("ldr %s, [r0, #%d]" % (R.choice([lo, al])(), R.choice([4 * R.randrange(31), R.randrange(120)])))
        elif t < 5:
            out.append("str %s, [r1, #%d]" % (R.choice([lo, al])(), R.choice([4 * R.randrange(63), R.randrange(250)])))
        elif t == 5:
            out.append("%s %s, [sp, #%d]" % (R.choice(["ldr", "str"]), lo(), 4 * R.randrange(16)))
        elif t == 6:
            out.append("mov %s, %s" % (R.choice([lo, al])(), R.choice([lo, al])()))
        elif t == 7:
            out.append(R.choice(["movw %s, #%d" % (al(), R.randrange(65536)), "mov %s, #%d" % (lo(), R.randrange(256)), "movt %s, #0" % al()]))
        elif t == 8:
            out.append("%s %s, %s, %s, %s #16" % (lambda d, a, b: ("pkhbt", d, a, b, "lsl") if R.randrange(2) else ("pkhtb", d, a, b, "asr"))(al(), al(), al()))
        elif t == 9:
            out.append("%s %s, %s, #%d" % (R.choice(["lsl", "lsr"]), al(), al(), R.choice([1, 2, 3, 16])))
        elif t == 10:
            out.append("%s %s, %s, %s, %s" % (R.choice(OPS4), al(), al(), al(), al()))
        elif t == 11:
            r = lo()
            out += ["push {%s}" % r, "str %s, [sp, #%d]" % (lo(), 4 * R.randrange(16)), "pop {%s}" % r]
        elif t == 12:
            out.append("%s %s, [%s, #%d]" % (R.choice([("ldrh", al(), "r0"), ("strh", al(), "r1")]) + (2 * R.randrange(60),)))
        elif t == 13 and k and R.randrange(3) == 0 and rare:
            out += ["push {r0-r3}", "bl f%d" % R.randrange(k), "pop {r0-r3}", "ldr r14, [r0, #%d]" % (4 * R.randrange(32)),
                    "ldr r12, [r0, #%d]" % (4 * R.randrange(32))]
        elif t == 14:
            out.append("add %s, %s, %s" % (lo(), lo(), lo()) if R.randrange(2) else "add %s, %s" % (lo(), al()))
        else:
            out.append("%s %s, %s, %s" % (R.choice(OPS3), al(), al(), al()))
    out += ["str %s, [r1, #%d]" % (r, 4 * i + 8) for i, r in enumerate(R.sample(ALL, len(ALL)))]
    out += ["add sp, sp, #64", "pop {r4-r11, r14}"] + (["mov r0, r1"] * R.randrange(3)) + ["bx lr"]
    return out


def case_align():
    conf = CONFS[case % len(CONFS)]
    R = random.Random(SEED * 1000003 + case)
    n = R.randrange(1, 7)
    text = [".syntax unified", ".cpu cortex-m4"]
    for k in range(n):
        text += function(R, k, case % 3 == 0)
    path = os.path.join(TMP, ("k.s", "k.sub/k.s", "k.strided.s", "k.S")[case // 2 % 4])
    os.makedirs(os.path.dirname(path), exist_ok=True)
    for p in (path, os.path.join(TMP, "o.s")):
        with open(p, "w") as f:
            f.write("\n".join(text) + "\n")
    raw = B.assemble(os.path.join(TMP, "o.s"), os.path.join(TMP, "o.o"))
    B.align(conf, path)
    if not os.path.exists(path):
        viol("aligner", conf, "%s is gone" % os.path.relpath(path, TMP))
    stat("file_name_suffixes_inside", path.count(".s") > 1 or path.endswith(".S"))
    if os.environ.get("KEEP"): shutil.copytree(TMP, os.environ["KEEP"], dirs_exist_ok=True)
    fix = B.assemble(path, os.path.join(TMP, "f.o"))
    stat("monitored_calls", n)
    stat("distinct_inputs", n)
    stat("straddling_before_alignment", sum(len(x[1]) for x in layout(raw).values()))
    straddling(conf, fix)
    elf = os.path.join(TMP, "pair.elf")
    subprocess.run(["arm-none-eabi-objcopy", "--prefix-symbols=o_", raw], check=True)
    subprocess.run(["arm-none-eabi-gcc", "-nostdlib", "-mthumb", "-mcpu=cortex-m4", "-T", os.path.join(B.ARM, "guest.ld"), "-Wl,-e,f0", raw, fix, "-o", elf],
                   check=True, stderr=subprocess.DEVNULL)
    r = subprocess.run([MON, elf, "pair", str(SEED + case), "0", str(n)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    out = r.stdout.decode(errors="replace")
    m = re.search(r"^VIOL (.*)", out, re.M)
    if m:
        viol("aligner", conf, re.sub(r"(key|cfg|case)=", r"inner_\1=", m.group(1)[:400]))
    if r.returncode:
        print(out[-800:])
        raise SystemExit(3)
    m = re.search(r"^STAT arm_instructions (\d+)", out, re.M)
    stat("arm_instructions", int(m.group(1)) if m else 0)
    stat("functions_run_against_their_original", n)


if CONFS:
    for case in range(FIRST, FIRST + COUNT):
        try:
            (case_emit if MODE == "emit" else case_align)()
        except (B.GenFailure, subprocess.TimeoutExpired) as e:
            viol("generator" if MODE == "emit" else "aligner", CONFS[case % len(CONFS)], str(e)[:400])
shutil.rmtree(TMP, ignore_errors=True)
for k, v in STAT.items():
    print("STAT", k, v)
print("DONE", COUNT)
