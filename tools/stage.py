#!/usr/bin/env python3
"""stage.py <ID> <tier> <seed> <out>: builds sanitizer variants of the harness
from /repo's working tree, runs workloads under them and writes what they saw:
    count<TAB>key<TAB>n        viol<TAB>signature<TAB>detail
Only a sanitizer's own report is a violation here; the plain run decides the rest.
A variant that cannot be built or does not finish is noted and decides nothing.
"""
import glob, os, re, shutil, subprocess, sys, tempfile, threading, time
ID, TIER, SEED, OUT = sys.argv[1:5]
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = VERIF + "/harness"
TRIPLE = "x86_64-unknown-linux-gnu"
QUICK = TIER != "thorough"
lines, lock = [], threading.Lock()
def count(k, n=1):
    with lock: lines.append(f"count\t{k}\t{n}")
def viol(sig, detail):
    with lock: lines.append(f"viol\t{sig}\t" + detail.replace("\t", " ").replace("\n", "\\n")[:3500])
def say(s): print("stage:", s, flush=True)

env0 = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "MIRIFLAGS", "CARGO_TARGET_DIR"): env0.pop(k, None)
VARIANTS = {
    "asan": ("-Zsanitizer=address", False),
    "msan": ("-Zsanitizer=memory -Zsanitizer-memory-track-origins", True),
    "tsan": ("-Zsanitizer=thread", True),
}
def build(v):
    flags, std = VARIANTS[v]
    env = dict(env0, RUSTFLAGS=flags, CARGO_TARGET_DIR=f"{H}/target-{v}")
    cmd = ["cargo", "+nightly", "build", "--release", "--offline", "--target", TRIPLE, "--manifest-path", H + "/Cargo.toml"]
    if std: cmd.insert(3, "-Zbuild-std")
    t = time.time()
    try: r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1500)
    except subprocess.TimeoutExpired: r = None
    if r is None or r.returncode:
        say(f"{v} does not build: " + ("timeout" if r is None else r.stdout[-1500:]))
        count(f"{v}: not built")
        return None
    say(f"{v} built in {time.time()-t:.0f} s")
    return f"{H}/target-{v}/{TRIPLE}/release/wpmon"

REPORT = re.compile(r"(ERROR: AddressSanitizer: [\w-]+|ERROR: LeakSanitizer: detected memory leaks|WARNING: MemorySanitizer: [\w-]+|WARNING: ThreadSanitizer: [\w -]+)")
def run(v, args, timeout):
    exe = build(v)
    if not exe: return
    d = tempfile.mkdtemp(prefix=f"wpmon-{v}-")
    try:
        opts = f"exitcode=86:log_path={d}/log:halt_on_error={0 if v == 'tsan' else 1}"
        if v == "asan": opts += ":detect_leaks=1:detect_stack_use_after_return=1:allocator_may_return_null=1"
        env = dict(env0, ASAN_OPTIONS=opts, MSAN_OPTIONS=opts, TSAN_OPTIONS=opts + ":history_size=4")
        sym = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18")
        if sym: env["ASAN_SYMBOLIZER_PATH"] = env["MSAN_SYMBOLIZER_PATH"] = env["TSAN_SYMBOLIZER_PATH"] = sym
        t = time.time()
        with open(d + "/out", "w") as f:
            p = subprocess.Popen([exe] + args + ["--verif", d, "--seed", SEED], env=env, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
            try: rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9); p.wait(); rc = None
        out = open(d + "/out", errors="replace").read()
        m = re.search(r"held on (\d+) executions .*?(\d+) oracle decisions", out)
        if m:
            count(f"{v}: executions", m[1]); count(f"{v}: oracle decisions", m[2])
        elif rc is None: count(f"{v}: out of time")
        else: say(f"{v} ended with {rc}: " + out[-600:])
        n = 0
        for log in sorted(glob.glob(d + "/log*")) + [d + "/out"]:
            text = open(log, errors="replace").read()
            for m in REPORT.finditer(text):
                n += 1
                if n <= 3:
                    kind = m[1].split(": ")[1].split(" (")[0].strip().replace(" ", "-")
                    viol(f"{v}:{kind}", f"tools/stage.py {ID} {TIER} {SEED}: " + text[max(0, m.start() - 200):m.start() + 3000])
        count(f"{v}: reports", n)
        say(f"{v} ran {time.time()-t:.0f} s, {n} reports, exit {rc}")
    finally:
        shutil.rmtree(d, ignore_errors=True)

def miri(prop, k, micros, timeout, flags, only=None):
    """the cases `pick` finds quick, spread over processes"""
    native = f"{H}/target/release/wpmon"
    env = dict(env0, CARGO_TARGET_DIR=f"{H}/target-miri", MIRIFLAGS="-Zmiri-disable-isolation " + flags)
    base = ["cargo", "+nightly", "miri", "run", "--offline", "--manifest-path", H + "/Cargo.toml", "--", "some"]
    d = tempfile.mkdtemp(prefix="wpmon-miri-")
    try:
        l = subprocess.run([native, "pick", str(k), str(micros), "--seed", SEED], stdout=subprocess.PIPE, text=True, timeout=300).stdout.splitlines()
        l = [x for x in l if (x.split()[0] == "C27") == (prop == "C27")]
        if only: l = [x for x in l if x.split()[1] in only]
        t = time.time()
        try: r = subprocess.run(base + ["/dev/null"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
        except subprocess.TimeoutExpired: r = None
        if r is None or r.returncode:
            say("miri does not build or start: " + ("timeout" if r is None else r.stdout[-1500:]))
            count("miri: not built")
            return
        say(f"miri built in {time.time()-t:.0f} s")
        t = time.time()
        W = 8
        ps = []
        for i in range(W):
            part = l[i::W]
            if not part: continue
            open(f"{d}/l{i}", "w").write("\n".join(part) + "\n")
            f = open(f"{d}/o{i}", "w")
            ps.append((i, subprocess.Popen(base + [f"{d}/l{i}"], env=env, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)))
        end = time.time() + timeout
        n = cases = 0
        for i, p in ps:
            try: rc = p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9); p.wait(); rc = None; count("miri: out of time")
            out = open(f"{d}/o{i}", errors="replace").read()
            cs = re.findall(r"^case (.*)$", out, re.M)
            cases += len(cs) - (rc != 0 and len(cs) > 0)
            m = re.search(r"^error: (Undefined Behavior|memory leaked|Data race)[^\n]*", out, re.M)
            if m:
                n += 1
                k = {"U": "undefined-behavior", "m": "leak", "D": "data-race"}[m[1][0]]
                if "Data race" in m[0]: k = "data-race"
                viol("miri:" + k, f"wpmon only {cs[-1] if cs else '?'} under miri: " + out[m.start():m.start() + 3000])
            elif re.search(r"^error: the evaluated program deadlocked", out, re.M) or re.search(r"^error: a deadlock", out, re.M):
                n += 1
                viol("miri:deadlock", f"{cs[-1] if cs else '?'}: " + out[-2500:])
            elif rc not in (0, None):
                say(f"miri ended with {rc}: " + out[-800:])
        count("miri: cases", cases); count("miri: reports", n)
        say(f"miri ran {time.time()-t:.0f} s, {cases} of {len(l)} cases, {n} reports")
    except Exception as e:
        say(f"miri stage failed: {e!r}")
    finally:
        shutil.rmtree(d, ignore_errors=True)

def main():
    if ID == "build":
        ts = [threading.Thread(target=build, args=(v,)) for v in VARIANTS]
        [t.start() for t in ts]; [t.join() for t in ts]
        miri("C29", 0, 1, 60, "")
        return
    q = lambda a, b: a if QUICK else b
    tier = ["--tier", "quick" if QUICK else "thorough"]
    if ID == "C27":
        run("tsan", ["run", "C27", *tier, "--scale", q("0.1", "0.02"), "--deadline", q("150", "900"), "--hang", "200"], q(260, 1200))
        miri("C27", q(1, 4), 60, q(150, 900), "-Zmiri-preemption-rate=0.05" if QUICK else "-Zmiri-preemption-rate=0.1 -Zmiri-many-seeds=0..4")
    elif ID == "C29":
        b = [threading.Thread(target=build, args=(v,)) for v in ("asan", "msan")]
        [t.start() for t in b]; [t.join() for t in b]
        run("asan", ["run", "C29", *tier, "--scale", q("0.5", "0.25"), "--deadline", q("100", "900"), "--hang", "200"], q(200, 1200))
        run("msan", ["run", "C29", *tier, "--scale", q("0.25", "0.15"), "--deadline", q("100", "900"), "--hang", "200"], q(200, 1200))
        miri("C29", q(1, 12), q(60, 200), q(150, 1500), "")
main()
if OUT != "-":
    with open(OUT, "w") as f: f.write("\n".join(lines) + "\n")
