"""Monitor of the Cortex-M0 evaluation script: BOARD_MON - eval seed first count

A case is one complete run of evaluate.py in a scratch copy of its directory, with the interpreted board in place of
the real one: the serial port is a stand-in that delivers what the board sent, JLinkExe one that puts the named binary
on the board. What the script prints is compared with what the board saw of the stack and of the timer.
"""
import os, re, shutil, subprocess, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import buildlib as B

MON, SEED, FIRST, COUNT = sys.argv[1], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
CONF = B.cortex_configurations("m0")[0]
TMP = tempfile.mkdtemp(prefix="eval_mon_")
STAT = {"figures_compared": 0, "script_runs": 0, "images_flashed": 0, "bytes_sent": 0, "lines_read": 0}
case = 0

SERIAL = """
import os, time
LOG = os.environ["EVAL_DIR"]
class SerialException(IOError): pass
class text(str):
    def decode(self, *a, **k): return self
def note(s):
    with open(os.path.join(LOG, "serial"), "a") as f: f.write(s + chr(10))
class Serial(object):
    def __init__(self, port=None, baudrate=9600, *a, **k):
        note("open %s" % baudrate); self.at = 0; self.is_open = True; self.baudrate = baudrate
    def _have(self):
        p = os.path.join(LOG, "uart")
        return open(p, "rb").read() if os.path.exists(p) else b""
    def read(self, n=1):
        d = self._have()[self.at:self.at + n]; self.at += len(d)
        if not d: note("starved"); raise SerialException("the board sends nothing more")
        return text(d, "latin1")
    def readline(self, *a):
        d = self._have()[self.at:]; k = d.find(bytes([10]))
        if k < 0: note("starved"); raise SerialException("the board sends nothing more")
        self.at += k + 1; note("line"); return text(d[:k + 1], "latin1")
    def readlines(self, *a):
        r = []
        while self.at < len(self._have()): r.append(self.readline())
        return r
    def inWaiting(self): return len(self._have()) - self.at
    in_waiting = property(inWaiting)
    def close(self): note("close"); self.is_open = False
    def flushInput(self): self.at = len(self._have())
    reset_input_buffer = flushInput
    def __iter__(self): return self
    def __next__(self): return self.readline()
    def read_until(self, *a, **k): return self.readline()
    def isOpen(self): return self.is_open
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return lambda *a, **k: None
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
"""

JLINK = """#!/usr/bin/env python3
import os, re, subprocess, sys
log = os.environ["EVAL_DIR"]
cmds = sys.stdin.read().split("\\n")
load = [c.split() for c in cmds if c.startswith("loadbin")]
if len(load) != 1 or not any(c.strip() == "g" for c in cmds): open(log + "/flash", "a").write("bad-commands" + chr(10)); sys.exit(1)
name, at = load[0][1], int(load[0][2], 0)
elf = os.path.splitext(name)[0] + ".elf"
ref = log + "/ref.bin"
subprocess.check_call(["arm-none-eabi-objcopy", "-O", "binary", elf, ref])
same = at == 0x10001000 and open(ref, "rb").read() == open(name, "rb").read()
if not same: open(log + "/flash", "a").write("other-image" + chr(10)); sys.exit(1)
n = len(open(log + "/flash").read().split(chr(10))) if os.path.exists(log + "/flash") else 1
out = subprocess.run([os.environ["EVAL_MON"], elf, "flash", os.environ["EVAL_SEED"], str(int(os.environ["EVAL_CASE"]) * 4 + n), "1"], stdout=subprocess.PIPE).stdout.decode()
m = re.search("^BOARD sent=([0-9a-f]*) (.*)$", out, re.M)
if not m: open(log + "/flash", "a").write("board-fails " + " ".join(re.findall("VIOL .*", out)) + chr(10)); sys.exit(1)
open(log + "/flash", "a").write(m.group(2) + chr(10))
open(log + "/uart", "ab").write(bytes.fromhex(m.group(1)))
"""


def viol(key, text):
    print("VIOL key=%s cfg=%s case=%d %s" % (key, CONF.id, case, re.sub(r"\s+", " ", text)))
    shutil.rmtree(TMP, ignore_errors=True)
    raise SystemExit(1)


def prints(text):
    """every print statement as a call, whatever stands before or after it on its line"""
    import io, tokenize
    lines, starts, spans, depth, start, last = text.split("\n"), True, [], 0, None, None
    for t in tokenize.generate_tokens(io.StringIO(text).readline):
        end = t.type in (tokenize.NEWLINE, tokenize.ENDMARKER) or t.string == ";" and not depth
        depth += (t.string in ("(", "[", "{")) - (t.string in (")", "]", "}")) if t.type == tokenize.OP else 0
        if start and end:
            spans.append((start, last.end)); start = None
        if starts and t.type == tokenize.NAME and t.string == "print":
            start = t
        starts = end or t.type in (tokenize.NL, tokenize.INDENT, tokenize.DEDENT, tokenize.COMMENT) or t.string == ":" and not depth
        if t.type != tokenize.COMMENT:
            last = t
    for t, (r, c) in reversed(spans):
        (r0, c0) = t.end
        if lines[r0 - 1][c0:].lstrip().startswith("("):
            continue
        lines[r - 1] = lines[r - 1][:c] + ")" + lines[r - 1][c:]
        lines[r0 - 1] = lines[r0 - 1][:c0] + "(" + lines[r0 - 1][c0:]
    return "\n".join(lines)


def plain(source):
    return [re.sub(r"\s+", " ", re.sub(rb"//.*|/\*.*?\*/", b"", l).decode("latin1")).strip() for l in source.split(b"\n")]


def python3(text):
    """the script is Python 2; all that needs another spelling is print"""
    for change in (lambda t: t, lambda t: re.sub(r"^([ \t]*)print[ \t]+(?!\()(.*?)[ \t]*$", r"\1print(\2)", t, flags=re.M), prints):
        try:
            t = change(text)
            compile(t, "evaluate.py", "exec")
            return t
        except Exception as e:
            why = e
    raise SystemExit("evaluate.py: %s" % why)


def run(i):
    work, log = os.path.join(TMP, "board"), os.path.join(TMP, "log")
    for d in (work, log):
        shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(B.materialise(CONF), work)
    lib = os.path.join(TMP, "lib")
    os.makedirs(lib, exist_ok=True)
    os.makedirs(log)
    for n, t in (("serial.py", SERIAL), ("numpy.py", ""), ("sitecustomize.py", "import time\ntime.sleep = lambda s: None\n"), ("JLinkExe", JLINK)):
        with open(os.path.join(lib, n), "w") as f:
            f.write(t)
    os.chmod(os.path.join(lib, "JLinkExe"), 0o755)
    main_c = os.path.join(work, "src", "main.c")
    before = open(main_c, "rb").read()
    with open(os.path.join(work, "evaluate.py"), encoding="latin1") as f:
        text = python3(f.read())
    with open(os.path.join(work, "evaluate.py"), "w", encoding="latin1") as f:
        f.write(text)
    env = dict(os.environ, PYTHONPATH=lib, PYTHONDONTWRITEBYTECODE="1", MAKEFLAGS="JLINKEXE=%s" % os.path.join(lib, "JLinkExe"), HOME=TMP,
               EVAL_DIR=log, EVAL_MON=MON, EVAL_SEED=str(SEED), EVAL_CASE=str(i))
    r = subprocess.run([sys.executable, "-u", "evaluate.py"], cwd=work, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=500)
    out = r.stdout.decode("latin1")
    get = lambda n: open(os.path.join(log, n)).read().split("\n")[:-1] if os.path.exists(os.path.join(log, n)) else []
    flash, ser = get("flash"), get("serial")
    for l in flash:
        if not l.startswith("per="):
            viol("board-not-started" if not l.startswith("board-fails") else "image-fails", l)
    if r.returncode:
        viol("script-fails", "status=%d %s" % (r.returncode, out[-300:]))
    if "open 115200" not in ser:
        viol("line-rate", " ".join(ser[:2]))
    if len(flash) != 2:
        viol("images-flashed", "count=%d" % len(flash))
    facts = []
    for l in flash:
        m = re.match(r"per=(\d+) used=([\d,]*) took=([\d,]*)", l)
        facts.append((int(m.group(1)), [int(x) for x in m.group(2).split(",") if x], [int(x) for x in m.group(3).split(",") if x]))
    _, used, _ = facts[0]
    per, _, took = facts[1]
    if len(used) < 4 or len(took) != 3:
        viol("images-flashed", "the first makes %d operations, the second times %d" % (len(used), len(took)))
    rows = [(l, int(re.findall(r"\d+", l.split("=")[-1])[0])) for l in out.split("\n") if re.search(r"=\s*\d", l)]
    want = [("key", used[0], 128), ("enc", used[1], 128), ("dec", used[2], 128), ("total", max(used[3:]), 128)]
    for n, t in zip(("key", "enc", "dec"), took):
        want.append((n, t % 2**32, 400 * per + 200 * per * (1 + t // 0xffffff)))
    if len(rows) != len(want):
        viol("lines-printed", "count=%d: %s" % (len(rows), out[-300:]))
    for k, ((line, v), (name, w, tol)) in enumerate(zip(rows, want)):
        if name not in line.lower():
            viol("wrong-label", "line=%d %r" % (k, line))
        if abs(v - w) > tol:
            viol("wrong-figure", "line=%d %r measured=%d" % (k, line, w))
        STAT["figures_compared"] += 1
    if plain(open(main_c, "rb").read()) != plain(before):
        viol("source-left-changed", "main.c")
    STAT["script_runs"] += 1
    STAT["images_flashed"] += len(flash)
    STAT["lines_read"] += ser.count("line")
    STAT["bytes_sent"] += os.path.getsize(os.path.join(log, "uart"))
    if i == FIRST:
        print("SAMPLE case=%d %s" % (i, " | ".join(l for l, _ in rows)[:180]))
    return [v for _, v in rows]


seen = set()
try:
    for case in range(FIRST, FIRST + COUNT):
        for k, v in enumerate(run(case)):
            seen.add((k, v))
finally:
    shutil.rmtree(TMP, ignore_errors=True)
STAT["monitored_calls"] = STAT["figures_compared"]
STAT["distinct_inputs"] = len(seen)
for k in sorted(STAT):
    print("STAT %s %d" % (k, STAT[k]))
print("DONE ok")
