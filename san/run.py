#!/usr/bin/env python3
"""Property S04: runs the sanitizer workload under Miri, ThreadSanitizer, AddressSanitizer and valgrind
memcheck, collects their reports, writes evidence/S04.json."""
import json, os, re, signal, struct, subprocess, sys, tempfile, time, glob

V = os.environ.get("VERIF_DIR", "/verif")
T = V + "/target"
try: SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError: SEED = 1
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
SECS = float(os.environ.get("MON_BUDGET", "30" if TIER == "quick" else "480"))
X = "x86_64-unknown-linux-gnu"
t0 = time.time()

def literals():
    """the numeric literals of the sources outside coefficient tables, as bit patterns, for Miri"""
    out = set()
    for f in glob.glob("/repo/src/**/*.rs", recursive=True):
        for l in open(f, errors="replace"):
            c = l.strip().split("//")[0]
            if not re.search(r"[A-Zac-df-z]", c): continue
            for m in re.findall(r"(?<![\w.])(\d[\d_]*(?:\.\d[\d_]*)?(?:[eE][-+]?\d+)?)", c):
                try: x = float(m.replace("_", ""))
                except ValueError: continue
                if 0 < x < 1e308: out.add(x)
    out = sorted(out) or [1.0]
    return ",".join("%016x" % struct.unpack("<Q", struct.pack("<d", x))[0] for x in out)

SRC = V + "/san"
jobs = []  # (tool, env, argv)
base = SEED * 1000
nm = 5 if TIER == "quick" else 5
for i in range(nm):
    flags = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-seed=%d" % ((base + i) & 0x7fffffff)
    jobs.append(("miri", {"MIRIFLAGS": flags, "MON_LITS": literals()},
                 ["cargo", "+nightly", "miri", "run", "--locked", "--offline", "--target-dir", T + "/miri", "--", str(base + i), str(SECS), "2", "24", "30"]))
jobs.append(("tsan", {"TSAN_OPTIONS": "exitcode=66:halt_on_error=1:report_thread_leaks=0"}, [T + "/tsan/%s/release/san" % X, str(base + 100), str(SECS), "4", "100", "300"]))
jobs.append(("asan", {"ASAN_OPTIONS": "exitcode=67:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1"}, [T + "/asan/%s/release/san" % X, str(base + 200), str(SECS), "2", "100", "600"]))
jobs.append(("memcheck", {}, ["valgrind", "-q", "--error-exitcode=68", "--exit-on-first-error=yes", "--leak-check=no", T + "/plain/release/san", str(base + 300), str(SECS), "2", "40", "200"]))

def cpu_of_group(pgid):
    tot = 0
    for d in glob.glob("/proc/[0-9]*/stat"):
        try: s = open(d).read().rsplit(")", 1)[1].split()
        except OSError: continue
        if int(s[2]) == pgid: tot += int(s[11]) + int(s[12])
    return tot / os.sysconf("SC_CLK_TCK")

running = []
for tool, env, argv in jobs:
    e = dict(os.environ); e.pop("RUSTFLAGS", None); e.update(env)
    f = tempfile.TemporaryFile(mode="w+", errors="replace")
    running.append([tool, argv, f, subprocess.Popen(argv, cwd=SRC, env=e, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)])

def describe(argv): return " ".join(argv[-5:])
viol, runs, incon = [], [], []
deadline = time.time() + SECS * 1.5 + 150
for r in running:
    tool, argv, f, p = r
    timed = False
    try: p.wait(max(1, deadline - time.time()))
    except subprocess.TimeoutExpired:
        c0 = cpu_of_group(p.pid); time.sleep(20); c1 = cpu_of_group(p.pid)
        if p.poll() is None:
            timed = True
            os.killpg(p.pid, signal.SIGKILL); p.wait()
            if c1 - c0 < 0.2: viol.append((tool, argv, "the threads block each other: no CPU time used in 20 s, %.0f s after the end of the workload" % (time.time() - t0 - SECS), ""))
            else: incon.append("%s did not finish in time" % tool)
    f.seek(0); out = f.read()
    rc = p.returncode
    m = re.search(r"SUMMARY (.*?) SAMPLE (.*)", out)
    d = dict(x.split("=") for x in m.group(1).split()) if m else {}
    runs.append({"tool": tool, "seed": argv[-5], "threads": int(argv[-3]), "exit": rc, "sample": m.group(2) if m else "", **{k: int(v) for k, v in d.items()}})
    if timed: continue
    for t in re.findall(r"TRAITS (\S+) send=(\w+) sync=(\w+)", out):
        if t[1] != "true" or t[2] != "true": viol.append((tool, argv, "%s can no longer be moved to or shared between threads (Send: %s, Sync: %s)" % t, ""))
    if rc == 0 and m: continue
    lines = out.splitlines()
    def grab(pat, n=25):
        for i, l in enumerate(lines):
            if re.search(pat, l): return l.strip(), "\n".join(lines[i:i + n])
        return None, None
    if tool == "miri":
        h, b = grab(r"error: Undefined Behavior|error: abnormal termination|error: (the evaluated program )?(deadlock|aborted)|error: .*deadlock")
        if h: viol.append((tool, argv, h, b))
        else: incon.append("miri ended with %s: %s" % (rc, " | ".join([l for l in lines if l.startswith("error")][:3] or lines[-3:])))
    elif rc == 70:
        viol.append((tool, argv, grab(r"MISMATCH")[0], ""))
    elif rc in (66, 67, 68):
        h, b = grab(r"WARNING: ThreadSanitizer|ERROR: AddressSanitizer|^==\d+== ", 40)
        s = grab(r"SUMMARY: ")[0]
        viol.append((tool, argv, s or h or "sanitizer report", b or "\n".join(lines[-40:])))
    elif rc is not None and -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGABRT, signal.SIGFPE) or (tool == "memcheck" and rc in (128 + 6, 128 + 11, 128 + 4)):
        viol.append((tool, argv, "the process died of signal %s" % (-rc), "\n".join(lines[-30:])))
    else:
        incon.append("%s ended with %s: %s" % (tool, rc, " | ".join(lines[-3:])))

calls = sum(r.get("calls", 0) for r in runs)
dist = sum(r.get("distinct", 0) for r in runs)
tools = {r["tool"] for r in runs if r.get("calls", 0) > 0}
ev = {
 "property": "S04", "tier": TIER, "seed": SEED, "level": "exploration",
 "coverage": {
  "evaluations": calls, "distinct_nontrivial": dist,
  "rule": "every round draws a batch of calls of the public functions with typical, boundary and arbitrary-bit arguments and lets 2-4 threads, released by a barrier, evaluate it (half of the rounds all in the same order), then read shared caches and fill others under a lock; evaluations = calls executed under a tool; distinct = distinct (function, argument bits) per process; all are non-trivial, because the instrumented real code ran on them",
  "samples": [r["sample"] for r in runs if r["sample"]][:4],
  "threads_started": sum(r.get("rounds", 0) * r["threads"] for r in runs),
  "shared_cache_calls": sum(r.get("cache_calls", 0) for r in runs),
  "runs": runs, "inconclusive": incon,
 },
 "assumptions": ["Miri, ThreadSanitizer (with an instrumented standard library), AddressSanitizer and memcheck report what happens on the executed paths", "leaks are not judged"],
 "wall_s": round(time.time() - t0, 2), "violations": len(viol),
}
os.makedirs(V + "/evidence", exist_ok=True)
with open(V + "/evidence/S04.json", "w") as f: json.dump(ev, f, indent=1)
for i in incon: print("INCONCLUSIVE", i[:600])
if viol:
    os.makedirs(V + "/replays", exist_ok=True)
    path = "%s/replays/S04-%d.txt" % (V, SEED)
    with open(path, "w") as f:
        for tool, argv, h, b in viol:
            f.write("tool %s\nworkload san %s\nreport %s\n%s\n\n" % (tool, describe(argv), h, b))
    for tool, argv, h, b in viol[:5]: print("  [%s] %s" % (tool, h[:500]))
    print("VIOLATION property=S04 replay=%s" % path)
    sys.exit(1)
if not {"tsan", "asan"} <= tools or calls < 10000:
    print("ERROR too little was observed: %s" % tools)
    sys.exit(2)
print("OK property=S04 tier=%s seed=%d calls=%d distinct=%d tools=%s wall=%.1fs" % (TIER, SEED, calls, dist, ",".join(sorted(tools)), time.time() - t0))
