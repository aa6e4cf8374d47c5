"""Monitor of the parameter-selection scripts: REPO MODE seed first count  (run by python3-vt: needs numpy)

laws    the probability calculus of proba_util.py against exact rational arithmetic
select  select_params.py from end to end, with a stand-in for the lattice estimator (which is not in the repository)
"""
import contextlib, io, math, os, random, re, sys, types
from fractions import Fraction as Q
sys.dont_write_bytecode = True
import warnings
warnings.simplefilter("ignore")
import numpy as np

REPO, MODE, SEED, FIRST, COUNT = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
DIR = os.path.join(REPO, "Scripts", "Python_Scripts", "select_params")
sys.path.insert(0, DIR)
CFG = "Scripts"
STAT, SEEN = {}, set()
case = 0


def stat(k, n=1):
    STAT[k] = STAT.get(k, 0) + n


def viol(key, text):
    print("VIOL key=%s cfg=%s case=%d %s" % (key, CFG, case, text))
    raise SystemExit(1)


def call(name, *args):
    f = getattr(P, name, None)
    if f is None:                       # a helper that no longer exists promises nothing
        stat("absent_functions")
        return None
    stat("monitored_calls")
    h = hash((name, repr(args)))
    if h not in SEEN:
        SEEN.add(h)
        stat("distinct_inputs")
        if len(SEEN) in (1, 2, 10, 40):
            print("SAMPLE %s(%s)" % (name, ", ".join(map(repr, args))[:250]))
    try:
        return f(*args)
    except Exception as e:              # every argument used here is legitimate
        viol("exception", "%s(%s) raised %r" % (name, repr(args)[:200], e))


def near(a, b, rel=1e-9, tiny=0.0):
    return abs(float(a) - float(b)) <= rel * max(abs(float(a)), abs(float(b))) + tiny


def same_law(name, got, want, rel=1e-9, tiny=1e-300):
    if got is None:
        return
    for k in set(got) | set(want):
        if not near(got.get(k, 0), want.get(k, 0), rel, tiny):
            viol(name, "weight of %r is %r, should be %r" % (k, got.get(k, 0), float(want.get(k, 0))))
    stat("law_weights_compared", len(want))


def exact(law):
    return {k: Q(v) for k, v in law.items()}


def conv(A, B, op=lambda a, b: a + b):
    C = {}
    for a, x in A.items():
        for b, y in B.items():
            C[op(a, b)] = C.get(op(a, b), 0) + x * y
    return C


def cbd(k):
    return {i: Q(math.comb(2 * k, i + k), 4 ** k) for i in range(-k, k + 1)}


def centred(x, q):
    x %= q
    return x - q if 2 * x >= q else x


def error_abs(q, rq):
    """the law of |x - switch back(switch(x))| does not depend on how ties are broken (q a multiple of rq)"""
    s = q // rq
    D = {}
    for x in range(q):
        r = x % s
        d = min(r, s - r)
        D[d] = D.get(d, 0) + Q(1, q)
    return D


def random_law(r):
    kind = r.randrange(5)
    n = r.randint(1, 12)
    if kind == 0:
        return {x: float(w) for x, w in cbd(r.randint(1, 6)).items()}
    if kind == 1:                       # one point
        return {r.randint(-9, 9): 1.0}
    span = r.choice([3, 8, 30, 500])
    keys = r.sample(range(-span, span + 1), min(n, 2 * span + 1))
    if kind == 2:                       # one-sided
        keys = sorted({abs(k) for k in keys})
        sign = r.choice([-1, 1])
        keys = [sign * k for k in keys]
    w = [r.randint(1, 4096) if kind != 4 else 2 ** r.randint(0, 40) for _ in keys]
    t = sum(w)
    return {k: x / t for k, x in zip(keys, w)}


def case_laws():
    r = random.Random((SEED << 32) ^ case)
    A, B = random_law(r), random_law(r)
    EA, EB = exact(A), exact(B)
    same_law("law_convolution", call("law_convolution", dict(A), dict(B)), conv(EA, EB))
    same_law("law_product", call("law_product", dict(A), dict(B)), conv(EA, EB, lambda a, b: a * b))
    i = case % 24
    want = {0: Q(1)}
    small = EA if len(EA) < 8 else dict(list(EA.items())[:4])
    for _ in range(i):
        want = {k: Q(float(v)) for k, v in conv(want, small).items()}
    same_law("iter_law_convolution", call("iter_law_convolution", {k: float(v) for k, v in small.items()}, i), want, 1e-9, 2.0 ** -290)
    # weights around the cut-off of clean_dist
    C = {k: 2.0 ** -r.choice([0, 10, 200, 290, 299, 301, 310, 500, 1000]) for k in range(r.randint(1, 30))}
    got = call("clean_dist", dict(C))
    if got is not None:
        for k, v in C.items():
            if v > 2.0 ** -300 and got.get(k) != v:
                viol("clean_dist", "weight %r of %d was changed to %r" % (v, k, got.get(k)))
            if v <= 2.0 ** -300 and got.get(k, v) not in (v, 0):
                viol("clean_dist", "weight %r of %d was changed to %r" % (v, k, got.get(k)))
        if set(got) - set(C):
            viol("clean_dist", "new points %r" % sorted(set(got) - set(C)))
    k, x = r.randint(0, 12), r.randint(-14, 14)
    n = r.randint(0, 40)
    y = r.randint(0, 45)
    got = call("binomial", n, y)
    if got is not None and got != math.comb(n, y):
        viol("binomial", "binomial(%d, %d) = %r" % (n, y, got))
    got = call("centered_binomial_pdf", k, x)
    if got is not None and abs(x) <= k and not near(got, cbd(k).get(x, 0)):
        viol("centered_binomial_pdf", "p_%d(%d) = %r" % (k, x, got))
    same_law("build_centered_binomial_law", call("build_centered_binomial_law", case % 13), cbd(case % 13))
    q = 2 ** r.randint(1, 14)
    x = r.choice([r.randrange(-3 * q, 3 * q), q // 2, q // 2 - 1, -q // 2, q - 1, 0])
    got = call("mod_centered", x, q)
    if got is not None and (got % q != x % q or not -q / 2 <= got < q / 2):
        viol("mod_centered", "mod_centered(%d, %d) = %r" % (x, q, got))
    q = r.choice([2 ** r.randint(1, 14), r.randint(2, 9000)])
    rq = r.choice([2 ** r.randint(0, 13), r.randint(1, 9000)])
    x = r.randrange(q)
    got = call("mod_switch", x, q, rq)
    if got is not None:
        d = (Q(rq * x, q) - got) % rq
        if not 0 <= got < rq or got != int(got) or min(d, rq - d) > Q(1, 2):
            viol("mod_switch", "mod_switch(%d, %d, %d) = %r" % (x, q, rq, got))
    lq = r.randint(1, 11)
    q = 2 ** lq
    rq = 2 ** r.randint(0, lq)
    got = call("build_mod_switching_error_law", q, rq)
    if got is not None:
        fold = {}
        for d, w in got.items():
            fold[abs(d)] = fold.get(abs(d), 0) + w
        same_law("build_mod_switching_error_law", fold, error_abs(q, rq))
    # independent parts given the rounding they share (as the script uses it: the same law twice)
    maxa = 2 ** r.randint(0, 4)
    norm = {}
    for a, w in EA.items():
        norm[a % maxa] = norm.get(a % maxa, 0) + w
    want = {}
    for a, x in EA.items():
        for b, y in EA.items():
            if (a - b) % maxa == 0:
                want[a - b] = want.get(a - b, 0) + x * y / norm[a % maxa]
    same_law("convolution_remove_dependency", call("convolution_remove_dependency", dict(A), dict(A), 1024, 1024 // maxa), want)
    # the tail: bounds that hold whether or not the end points count
    ma = max(A)
    t = r.choice([r.uniform(-1, 1.2 * max(1, ma)), r.randint(0, max(1, ma)), ma - 0.5, ma, ma + 1])
    if t > 0:
        got = call("tail_probability", dict(A), t)
        if got is not None:
            low = sum(w for x, w in EA.items() if t < abs(x) < ma)
            high = sum(w for x, w in EA.items() if abs(x) >= t)
            if t > ma:
                high = 0 if ma == max(map(abs, A)) else high
            if float(got) < float(low) * (1 - 1e-9) or float(got) > float(high) * (1 + 1e-9):
                viol("tail_probability", "P(|X| > %r) = %r, not in [%r, %r]" % (t, got, float(low), float(high)))
    mean = sum(x * w for x, w in EA.items())
    for name, want in (("distmean", mean), ("distvariance", sum(w * (x - mean) ** 2 for x, w in EA.items()))):
        got = call(name, dict(A))
        if got is not None and not near(got, want, 1e-7, 1e-7):
            viol(name, "%s = %r, should be %r" % (name, got, float(want)))
    s, t = r.uniform(0.1, 40), r.uniform(0, 100)
    got = call("gaussian_center_weight", s, t)
    if got is not None and not near(got, math.erf(t / s / math.sqrt(2)), 1e-9):
        viol("gaussian_center_weight", "%r for sigma %r t %r" % (got, s, t))


# ---- the whole selection

def arr(law):
    m = max(map(abs, law))
    a = np.zeros(2 * m + 1)
    for k, v in law.items():
        a[k + m] += float(v)
    return a


def power(a, n):
    out = None
    while n:
        if n & 1:
            out = a if out is None else np.convolve(out, a)
        n >>= 1
        if n:
            a = np.convolve(a, a)
            m = len(a) // 2             # keep what can matter
            keep = np.nonzero(a > 2.0 ** -400)[0]
            w = max(abs(keep - m))
            a = a[m - w:m + w + 1]
    return out


def failure(mu, k, q, p, T):
    """log2 of the union bound over 256 coefficients of P(noise >= q/4), with and without the boundary"""
    def err(rq):
        s = q // rq
        D = {}
        for x in range(s):
            for d, w in (((x, Q(1)),) if 2 * x < s else ((x, Q(1, 2)), (x - s, Q(1, 2))) if 2 * x == s else ((x - s, Q(1)),)):
                D[d] = D.get(d, 0) + w / s
        return D
    e = err(p)
    se = power(arr({x: float(w) for x, w in conv(cbd(mu), e, lambda a, b: a * b).items()}), 256 * k)
    s, m = q // p, len(se) // 2
    norm = [0.0] * s
    for i, w in enumerate(se):
        norm[(i - m) % s] += w
    D = {}
    tot = None
    for c in range(s):                  # difference of two independent copies with the same residue
        part = np.zeros_like(se)
        idx = [i for i in range(len(se)) if (i - m) % s == c]
        part[idx] = se[idx]
        v = np.convolve(part, part[::-1]) / norm[c]
        tot = v if tot is None else tot + v
    D = np.convolve(tot, arr({x: float(w) for x, w in err(T).items()}))
    m = len(D) // 2
    t = q // 4
    strict = D[:m - t].sum() + D[m + t + 1:].sum()
    return math.log2(256 * strict), math.log2(256 * (strict + D[m - t] + D[m + t]))


def shipped(level):
    """what the C code ships for a security level"""
    import subprocess
    src = '#include "SABER_params.h"\nX SABER_L SABER_N SABER_MU SABER_EQ SABER_EP SABER_ET SABER_PUBLICKEYBYTES SABER_BYTES_CCA_DEC\n'
    d = os.path.join(REPO, "Reference_Implementation_KEM")
    text = open(os.path.join(d, "SABER_params.h")).read()
    text = re.sub(r"^[ \t]*#define[ \t]+SABER_L[ \t].*$", "", text, flags=re.M)
    r = subprocess.run(["gcc", "-E", "-P", "-DSABER_L=%d" % level, "-I", d, "-"], input=src.replace('#include "SABER_params.h"', text),
                       capture_output=True, text=True)
    line = [x for x in r.stdout.splitlines() if x.startswith("X")]
    cur = ""
    # expressions are balanced parentheses separated by spaces
    out, depth = [], 0
    for ch in " ".join(line)[2:]:
        if ch == " " and depth == 0:
            if cur:
                out.append(cur)
            cur = ""
            continue
        depth += ch == "("
        depth -= ch == ")"
        cur += ch
    if cur:
        out.append(cur)
    vals = [eval(x.replace("/", "//"), {"__builtins__": {}}) for x in out]
    return dict(zip(("l", "n", "mu", "eq", "ep", "et", "pk", "ct"), vals))


def case_select():
    asked = []

    class Dbdd:
        def __init__(self, beta):
            self.beta = beta

        def integrate_q_vectors(self, *a, **k):
            return []

        def estimate_attack(self, *a, **k):
            return self.beta, 1.0

    def init(cls, n, q, m, D_e, D_s, *a, **k):
        asked.append((n, q, m, dict(D_e), dict(D_s)))
        var = sum(w * x * x for x, w in D_e.items())
        # the published block sizes for p = 2^10; a smaller error is not secure enough
        beta = {512: 404, 768: 648, 1024: 892}.get(n, 0) if var > 4 else 100
        return None, None, Dbdd(beta)

    def load(path):
        g = sys._getframe(1).f_globals
        g["initialize_from_LWE_instance"], g["DBDD_predict"] = init, object()

    for name in ("matplotlib", "matplotlib.pyplot", "sage", "sage.all"):
        sys.modules[name] = types.ModuleType(name)
    for name in dir(math):
        if not name.startswith("_"):
            setattr(sys.modules["sage.all"], name, getattr(math, name))
    sys.modules["sage.all"].load = load
    import select_params as S
    want = []
    for level in (2, 3, 4):
        w = shipped(level)
        want.append(w)
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            S.main()
    except Exception as e:
        viol("exception", "select_params.main raised %r" % e)
    stat("monitored_calls")
    stat("distinct_inputs")
    text = buf.getvalue()
    blocks = re.split(r"-- parameters --", text)[1:]
    if len(blocks) != 3:
        viol("selection", "%d parameter sets selected, 3 are shipped" % len(blocks))

    def num(b, pat):
        m = re.search(pat + r"\s*(-?[\d.]+(?:e[-+]?\d+)?)", b)
        if not m:
            return None                 # not printed any more: nothing to compare
        stat("reported_values_compared")
        return float(m.group(1))
    for b, w in zip(blocks, want):
        eq, ep, et, l, n = w["eq"], w["ep"], w["et"], w["l"], w["n"]
        exp = [(r"\bq:", eq), (r"\bp:", ep), (r"\bT:", et), (r"\bl:", l), (r"\bn:", n), (r"bandwidth b", ep * l * n / 8),
               (r"bandwidth c", et * n / 8), (r"bandwidth total", 2 * ep * l * n / 8 + et * n / 8 + 32)]
        for pat, v in exp:
            g = num(b, pat)
            if g is not None and abs(g - v) > 1e-9:
                viol("selection", "level %d: %s %r, shipped %r" % (l, pat, g, v))
        for m in re.finditer(r"pk:\s*([\d.]+)\D+send:\s*([\d.]+)", b):
            stat("reported_values_compared", 2)
            if (float(m.group(1)), float(m.group(2))) != (w["pk"], w["ct"]):
                viol("selection", "level %d: sizes %r, shipped %r" % (l, m.groups(), (w["pk"], w["ct"])))
        g = num(b, r"failure probability:")
        lo, hi = failure(w["mu"] // 2, l, 2 ** eq, 2 ** ep, 2 ** et)
        if g is not None and not lo - 0.02 <= g <= hi + 0.02:
            viol("failure-probability", "level %d: 2^%r reported, the exact value lies in [2^%r, 2^%r]" % (l, g, lo, hi))
        for pat, f in ((r"quantum:", 0.265), (r"classical:", 0.292)):
            g = num(b, pat)
            if g is not None and not near(g, f * {2: 404, 3: 648, 4: 892}[l], 1e-6):
                viol("selection", "level %d: %s %r" % (l, pat, g))
        print("SAMPLE level %d p %d T %d failure 2^%.3f exact in [2^%.3f, 2^%.3f]" % (l, ep, et, num(b, r"failure probability:") or 0, lo, hi))
    for n, q, m, D_e, D_s in asked:
        l = n // 256
        w = [x for x in want if x["l"] == l]
        if not w or n != l * 256 or m != n or q != 2 ** w[0]["eq"]:
            viol("estimator-input", "estimator asked about n=%r q=%r m=%r" % (n, q, m))
        same_law("estimator-input", D_s, cbd(w[0]["mu"] // 2))
        s = max(map(abs, D_e)) * 2
        fold = {}
        for d, x in D_e.items():
            fold[abs(d)] = fold.get(abs(d), 0) + x
        same_law("estimator-input", fold, error_abs(q, q // s))
    stat("estimator_queries", len(asked))


try:
    import proba_util as P
except Exception as e:
    print("cannot import proba_util: %r" % e)
    raise SystemExit(3)
for case in range(FIRST, FIRST + COUNT):
    (case_laws if MODE == "laws" else case_select)()
for k, v in STAT.items():
    print("STAT", k, v)
print("DONE", COUNT)
