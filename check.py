#!/usr/bin/env python3
"""check.py PROPERTY            run the check of one property (VERIF_SEED, VERIF_TIER)
   check.py --replay FILE       run one recorded failing execution again

Builds the real code of /repo's working tree together with the monitors in mon/, runs the
workload of the property, and decides from what the monitors observed.
exit 0: held on everything observed; 1: VIOLATION; 2: the check itself could not do its work."""
import json, os, re, signal, subprocess, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "mon"))
sys.dont_write_bytecode = True
import buildlib as B          # noqa: E402
import plan                   # noqa: E402

EVID = os.path.join(HERE, "evidence")
VALGRIND = ["valgrind", "-q", "--error-exitcode=9", "--vex-guest-max-insns=20", "--num-callers=12"]
ENV = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=77:abort_on_error=0:handle_segv=1:detect_stack_use_after_return=1",
       "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=78",
       "TSAN_OPTIONS": "exitcode=66:halt_on_error=1:second_deadlock_stack=0"}


class CheckError(Exception):
    pass


def tool_died(out):
    return ("the 'impossible' happened" in out or "VEX temporary storage exhausted" in out
            or "unhandled instruction" in out or "Unrecognised instruction" in out)


def execute(binary, job):
    cmd = ([*VALGRIND] if job.valgrind else []) + [*(binary if isinstance(binary, list) else [binary]), *[str(a) for a in job.args]]
    env = dict(os.environ, **ENV)
    t = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                           timeout=job.timeout, env=env)
    except subprocess.TimeoutExpired:
        if job.patience:                      # a long extra on a slow machine: not observed, and reported as such
            return 0, "STAT not_finished_in_time 1\nDONE ok\n", time.time() - t
        raise CheckError("%s: no answer within %d s" % (job.label(), job.timeout))
    return r.returncode, r.stdout.decode(errors="replace"), time.time() - t


def detail_of(out):
    """the first report of a sanitizer or of memcheck, in one line"""
    for pat in (r"ERROR: AddressSanitizer: .*", r"runtime error: .*", r"WARNING: ThreadSanitizer: .*",
                r"==\d+== (Conditional jump|Use of uninit|Invalid|Syscall param|Uninitialised|Source and dest|Process term).*"):
        m = re.search(pat, out)
        if m:
            where = re.search(r"(?:#\d+ 0x\w+ in|#0|at 0x\w+:|by 0x\w+:) ([\w.]+)[^\n]*", out[m.end():])
            return re.sub(r"[\x00-\x1f]", " ", m.group(0)).strip() + (" in " + where.group(1) if where else "")
    return None


def judge(job, rc, out):
    """-> (list of violations, stats, samples)"""
    viols, stats, samples = [], {}, []
    done = False
    for line in out.splitlines():
        if line.startswith("VIOL "):
            f = dict(x.split("=", 1) for x in line[5:].split() if "=" in x)
            viols.append(dict(key=f.get("key", "?"), cfg=f.get("cfg", job.conf_id()), case=f.get("case"),
                              text=line[5:700]))
        elif line.startswith("STAT "):
            k, v = line.split()[1:3]
            stats[k] = stats.get(k, 0) + int(v)
        elif line.startswith("SAMPLE "):
            samples.append(line[7:400])
        elif line.startswith("DIGEST "):
            _, case, d = line.split()
            stats.setdefault("_digest", {})[int(case)] = d
        elif line.startswith("DONE "):
            done = True
    if viols:
        return viols, stats, samples
    rep = detail_of(out)
    if rc in (66, 77, 78, 9) and rep:
        kind = {66: "data-race", 77: "address-sanitizer", 78: "undefined-behaviour", 9: "memcheck"}[rc]
        return [dict(key=kind, cfg=job.conf_id(), case=None, text=rep)], stats, samples
    if job.valgrind and tool_died(out):
        raise CheckError("%s: valgrind gave up: %s" % (job.label(), out[-600:]))
    if rc < 0 and -rc not in (signal.SIGKILL, signal.SIGTERM, signal.SIGINT):
        return [dict(key="crash-signal-%d" % -rc, cfg=job.conf_id(), case=None, text="died of signal %d" % -rc)], stats, samples
    if rc != 0 or not done:
        raise CheckError("%s: rc=%d\n%s" % (job.label(), rc, out[-1500:]))
    return [], stats, samples


def run_job(job):
    binary = job.build()
    rc, out, wall = execute(binary, job)
    if job.valgrind and tool_died(out) and job.fallback:
        job.flavour = job.fallback
        binary = job.build()
        rc, out, wall = execute(binary, job)
    v, st, sm = judge(job, rc, out)
    return dict(job=job, rc=rc, out=out, wall=wall, viols=v, stats=st, samples=sm)


def attempt(job):
    """a monitor that could not do its work does not hide what another one saw"""
    try:
        return run_job(job)
    except (CheckError, B.BuildError) as e:
        return e


def known_findings(prop):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) cfg=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    return out


def replay_file(prop, n, res, viol):
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (prop, n))
    with open(path, "w") as f:
        json.dump(dict(property=prop, job=res["job"].spec(), violation=viol, output_tail=res["out"][-6000:]), f, indent=1)
    return path


def main(prop):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    p = plan.PROPERTIES[prop]
    jobs = p.jobs(tier, seed)
    # longest first, so that the pool drains evenly
    plan.prebuild(jobs)
    tb = time.time()
    skipped = [j.label() for j in jobs if j.missing]
    jobs = [j for j in jobs if not j.missing]
    results = B.pmap(attempt, sorted(jobs, key=lambda j: -j.weight), plan.workers(jobs))
    trouble = [r for r in results if isinstance(r, Exception)]
    results = [r for r in results if not isinstance(r, Exception)]
    if trouble and not any(r["viols"] for r in results):
        raise trouble[0]
    viols = [(r, v) for r in results for v in r["viols"]]
    for r, v in p.cross(results):
        viols.append((r, v))
    known, new = [], []
    kf = known_findings(prop)
    for r, v in viols:
        hit = [k for k in kf if k[0] == v["key"] and k[1] == v["cfg"]]
        (known if hit else new).append((r, v, hit[0][2] if hit else ""))
    for text in sorted({k[2] for k in known}):
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    stats = {}
    for r in results:
        for k, v in r["stats"].items():
            if not k.startswith("_"):
                stats[k] = stats.get(k, 0) + v
    samples, seen = [], set()
    for r in results:
        for s in r["samples"][:2]:
            if len(samples) < 40 and s not in seen:
                seen.add(s)
                samples.append(s)
    ev_count = stats.get("monitored_calls", 0)
    cov = dict(evaluations=ev_count, distinct_nontrivial=stats.get("distinct_inputs", 0), rule=p.rule,
               samples=samples or ["none"], executions=len(results),
               configurations=sorted({r["job"].conf_id() for r in results}),
               builds=sorted({r["job"].flavour + ("+valgrind" if r["job"].valgrind else "") for r in results}),
               monitor_counters=stats, build_s=round(tb - t0, 1), builds_unavailable=skipped)
    cov.update(p.extra_coverage(results))
    ev = dict(property=prop, tier=tier, seed=seed, level=p.level, coverage=cov, assumptions=p.assumptions,
              wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, "%s.json.%d" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(EVID, prop + ".json"))
    if new:
        for n, (r, v, _) in enumerate(new[:10]):
            path = replay_file(prop, n, r, v)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s: %s" % (v["cfg"], v["text"][:400]))
        return 1
    if not ev_count:
        raise CheckError("the monitors observed nothing")
    missing = p.sanity(stats)
    if missing:
        raise CheckError("workload did not reach: " + ", ".join(missing))
    print("ok property=%s evaluations=%d distinct=%d executions=%d wall=%.1fs" %
          (prop, ev_count, cov["distinct_nontrivial"], len(results), ev["wall_s"]))
    return 0


def replay(path):
    rec = json.load(open(path))
    job = plan.Job.from_spec(rec["job"])
    case = rec["violation"].get("case")
    tries = []
    if case is not None and job.case_args:
        tries.append(job.narrow(int(case)))
    tries.append(job)
    for j in tries:
        res = run_job(j)
        if res["viols"]:
            print("reproduced: %s" % res["viols"][0]["text"])
            return 1
    print("not reproduced")
    return 0


if __name__ == "__main__":
    try:
        if len(sys.argv) == 3 and sys.argv[1] == "--replay":
            sys.exit(replay(sys.argv[2]))
        if len(sys.argv) != 2 or sys.argv[1] not in plan.PROPERTIES:
            print(__doc__)
            sys.exit(2)
        sys.exit(main(sys.argv[1]))
    except (CheckError, B.BuildError) as e:
        print("CHECK-ERROR: %s" % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
