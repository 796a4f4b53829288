#!/usr/bin/env python3
"""check.py ID: build what the check of property ID needs from /repo's working
tree, run it, say what came of it.

Exit 0: held on everything that was run. Exit 1, with VIOLATION lines: broken.
Exit 2: no verdict (something did not build, too little was seen, or a time
limit ran out). check.py ID --replay FILE runs a recorded failing case again.
"""
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(VERIF, ".target")
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "known-findings.txt")
TRIPLE = "x86_64-unknown-linux-gnu"
GB = 1 << 30

TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
THOROUGH = TIER == "thorough"
START = time.time()
# Well below the 900 s a quick check is given
DEADLINE = START + (3000 if THOROUGH else 780)


class Inconclusive(Exception):
    pass


class Violation(Exception):
    """One that was found here, not in the monitor"""

    def __init__(self, what, lines=()):
        super().__init__(what)
        self.what = what
        self.lines = list(lines)


def remaining():
    left = DEADLINE - time.time()
    if left < 1:
        raise Inconclusive("the time limit ran out")
    return left


def environment(**more):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTFLAGS", "RUST_BACKTRACE"))}
    for k in ("CARGO_HOME",):
        if k in os.environ:
            env[k] = os.environ[k]
    env.update(
        CARGO_NET_OFFLINE="true",
        VERIF_SEED=str(SEED),
        VERIF_TIER=TIER,
        MONITOR_REPO=REPO,
        MONITOR_REPLAYS=REPLAYS,
        MONITOR_WORKERS=str(max(1, min(8, os.cpu_count() or 1))),
    )
    env.update(more)
    return env


class Ran:
    def __init__(self, code, out, err, timeout):
        self.code, self.out, self.err, self.timeout = code, out, err, timeout


def run(cmd, env=None, cwd=None, memory=None, timeout=None, merged=False):
    limit = min(timeout or 1e9, remaining())

    def before():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if memory:
            resource.setrlimit(resource.RLIMIT_AS, (memory, memory))

    p = subprocess.Popen(
        cmd,
        env=env or environment(),
        cwd=cwd,
        stdin=subprocess.DEVNULL,
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT if merged else subprocess.PIPE,
        preexec_fn=before,
        start_new_session=True,
    )
    try:
        out, err = p.communicate(timeout=limit)
        late = False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        late = True
    text = lambda b: (b or b"").decode("utf-8", "replace")
    return Ran(p.returncode, text(out), text(err), late)


# ----------------------------------------------------------------- building


def source_hash():
    h = hashlib.sha256()
    for base in (REPO, *(os.path.join(VERIF, d) for d in ("harness", "harness_parts", "harness_vif"))):
        for root, dirs, files in os.walk(base):
            dirs[:] = sorted(d for d in dirs if d not in (".git", "target", "libmbus_test_data"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(root, f)
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def cargo(args, target, cwd, stamp, env=None, toolchain=None, packages=()):
    """Build, without trusting time stamps: what was built from other sources
    is thrown away first"""
    os.makedirs(target, exist_ok=True)
    now = source_hash()
    mark = os.path.join(target, f".stamp-{stamp}")
    old = open(mark).read() if os.path.exists(mark) else None
    e = env or environment()
    e = dict(e, CARGO_TARGET_DIR=target)
    base = ["cargo"] + ([f"+{toolchain}"] if toolchain else [])
    if old != now:
        if os.path.exists(mark):
            os.unlink(mark)
        for root, dirs, _ in os.walk(target):
            if os.path.basename(root) == ".fingerprint":
                for d in dirs:
                    if d.rsplit("-", 1)[0] in packages:
                        shutil.rmtree(os.path.join(root, d))
                dirs[:] = []
    r = run(base + args, env=e, cwd=cwd, merged=True)
    if r.timeout:
        raise Inconclusive("the build did not end in time")
    if r.code == 0:
        with open(mark, "w") as f:
            f.write(now)
    return r


OURS = ("libmbus", "libmbus_macros", "mbus-monitor")


def build_monitor(profile="dev"):
    args = ["build", "--offline", "--quiet", "--bin", "monitor"]
    if profile == "release":
        args.append("--release")
    elif profile != "dev":
        args += ["--profile", profile]
    target = os.path.join(TARGET, profile)
    r = cargo(args, target, os.path.join(VERIF, "harness"), "monitor", packages=OURS)
    if r.code != 0:
        raise Inconclusive(f"the harness does not build ({profile}):\n{r.out[-6000:]}")
    return os.path.join(target, "debug" if profile == "dev" else profile, "monitor")


# ------------------------------------------------------------------ verdicts


class Check:
    def __init__(self, id_):
        self.id = id_
        self.coverage = {}
        self.violations = 0
        self.assumptions = []
        self.scratch = tempfile.mkdtemp(prefix=f"monitor-{id_}-")

    def known(self):
        """Signatures of findings that were recorded and not repaired"""
        found = []
        if os.path.exists(FINDINGS):
            for line in open(FINDINGS):
                m = re.match(r"finding: property=(\S+) signature=(\S+) (.*)", line)
                if m and m[1] == self.id:
                    found.append((m[2], m[3].strip()))
        return found

    def violation(self, what, lines=()):
        os.makedirs(REPLAYS, exist_ok=True)
        text = f"property: {self.id}\nseed: {SEED}\n" + "".join(l + "\n" for l in lines)
        text += f"what: {what}\nreplay with: python3 /verif/check.py {self.id} --replay <this file>\n"
        path = os.path.join(REPLAYS, f"{self.id}-{hashlib.sha256(text.encode()).hexdigest()[:16]}.txt")
        with open(path, "w") as f:
            f.write(text)
        print(f"# {self.id}: {what[:1500]}")
        for l in lines[:4]:
            print(f"#   {l[:400]}")
        print(f"VIOLATION property={self.id} replay={path}", flush=True)
        self.violations += 1

    def env(self, **more):
        return environment(MONITOR_SCRATCH=self.scratch, **more)

    def merge(self, cov):
        """Add up coverage of several runs"""
        if not self.coverage:
            self.coverage = dict(cov)
            return
        c = self.coverage
        for k, v in cov.items():
            if k not in c:
                c[k] = v
            elif k in ("evaluations", "distinct_nontrivial", "violations", "nontrivial_not_deduplicated"):
                c[k] += v
            elif k == "observed":
                for a, b in v.items():
                    c[k][a] = c[k].get(a, 0) + b
            elif k == "maxima":
                for a, b in v.items():
                    c[k][a] = max(c[k].get(a, 0), b)
            elif k == "samples":
                c[k] = (c[k] + v)[:12]

    def monitor(self, binary, seed, **more):
        """One run of the monitor: its coverage, or whatever went wrong"""
        out = os.path.join(self.scratch, "coverage.json")
        if os.path.exists(out):
            os.unlink(out)
        env = self.env(**dict(more, VERIF_SEED=str(seed)))
        r = run([binary, "run", self.id, out], env=env, memory=14 * GB, cwd=self.scratch)
        sys.stdout.write(r.out)
        sys.stdout.flush()
        if r.timeout:
            raise Inconclusive("the monitor did not end in time")
        if os.path.exists(out):
            self.merge(json.load(open(out)))
        if r.code == 0:
            return
        if r.code == 1 and "VIOLATION" in r.out:
            self.violations += r.out.count(f"VIOLATION property={self.id} ")
            return
        if r.code in (2, 3):
            raise Inconclusive(r.err[-3000:] or f"exit {r.code}")
        # The process died. Of what?
        self.died(binary, seed, r, more)

    def died(self, binary, seed, r, more):
        how = f"killed by signal {-r.code}" if r.code < 0 else f"exit {r.code}"
        if r.code == -signal.SIGKILL:
            raise Inconclusive(f"the monitor was killed: {r.err[-1500:]}")
        env = self.env(**dict(more, VERIF_SEED=str(seed), MONITOR_TRACE="1"))
        run([binary, "run", self.id, os.path.join(self.scratch, "again.json")], env=env, memory=14 * GB, cwd=self.scratch)
        found = False
        for name in sorted(os.listdir(self.scratch)):
            if not name.startswith("trace-"):
                continue
            line = open(os.path.join(self.scratch, name)).read().split()
            if len(line) != 2 or len(line[1]) > 120_000:
                # Too long for a command line: through a file
                if len(line) != 2:
                    continue
            p = os.path.join(self.scratch, "input.txt")
            with open(p, "w") as f:
                f.write(f"property: {self.id}\nlevel: {line[0]}\ndata: {line[1]}\nwhat: ?\n")
            one = run([binary, "replay", p], env=self.env(), memory=14 * GB, timeout=120)
            if one.code not in (0, 1, 2, 3) and not one.timeout:
                why = (one.err.strip().splitlines() or ["?"])[0]
                self.violation(
                    f"decoding this ends the whole process ({how}): {why}",
                    [f"level: {line[0]}", f"data: {line[1]}"],
                )
                found = True
                break
        if not found:
            raise Inconclusive(f"the monitor died ({how}), and no single input does that: {r.err[-3000:]}")


# -------------------------------------------------------------------- checks


def plain(c):
    binary = build_monitor()
    seeds = [SEED] if not THOROUGH else [SEED + 1000 * k for k in range(4)]
    for s in seeds:
        c.monitor(binary, s)
        if c.violations:
            return
    if THOROUGH:
        c.coverage["seeds"] = seeds


def c01(c):
    plain(c)
    if c.violations:
        return
    # As it is shipped: without overflow checks and debug assertions
    before = c.coverage.get("evaluations", 0)
    c.monitor(build_monitor("release"), SEED + 1)
    c.coverage["evaluations_in_release_build"] = c.coverage["evaluations"] - before
    if c.violations:
        return
    # As it is developed: not optimised at all, so that no recursion is a loop
    before = c.coverage.get("evaluations", 0)
    c.monitor(build_monitor("plain"), SEED + 2, MONITOR_PLAIN="1")
    c.coverage["evaluations_in_unoptimised_build"] = c.coverage["evaluations"] - before


def c20(c):
    plain(c)
    if c.violations:
        return
    dev, rel = build_monitor(), build_monitor("release")
    count = 300_000 if THOROUGH else 80_000
    elsewhere = os.path.join(c.scratch, "a b")
    os.makedirs(elsewhere, exist_ok=True)
    # What decoding asks of its surroundings, and other answers
    shim = os.path.join(c.scratch, "surroundings.so")
    r = run(["gcc", "-shared", "-fPIC", "-O1", "-o", shim, os.path.join(VERIF, "surroundings", "surroundings.c"), "-ldl"])
    if r.code != 0:
        raise Inconclusive(f"the stand-ins for the surroundings do not build: {r.err[-3000:]}")
    log, answer = os.path.join(c.scratch, "asked"), os.path.join(c.scratch, "answer")
    with open(answer, "w") as fh:
        fh.write("1\n")

    def surroundings(mode):
        return {"LD_PRELOAD": shim, "SURROUNDINGS": mode, "SURROUNDINGS_LOG": log, "SURROUNDINGS_FILE": answer}

    runs = [
        ("debug build", dev, 0, {}, VERIF),
        ("debug build, with what it asks for noted", dev, 0, surroundings("record"), VERIF),
        ("debug build, in other surroundings", dev, 0, surroundings("one"), elsewhere),
        ("debug build, in other surroundings, years ago", dev, 5, surroundings("empty"), elsewhere),
        ("debug build, on threads", dev, 6, {"THREADS": "12"}, VERIF),
        ("debug build, other order, place, time zone, language", dev, 1,
         {"TZ": "Pacific/Kiritimati", "LANG": "tr_TR.UTF-8", "LC_ALL": "tr_TR.UTF-8", "RUST_BACKTRACE": "1"}, elsewhere),
        ("debug build, backwards in time", dev, 2, {"TZ": "America/St_Johns", "SOURCE_DATE_EPOCH": "0"}, "/"),
        ("release build", rel, 3, {}, VERIF),
        ("release build, in other surroundings", rel, 7, surroundings("one"), VERIF),
        ("release build, on threads", rel, 8, {"THREADS": "5"}, VERIF),
    ]
    if THOROUGH:
        runs += [("release build, other order", rel, k, {"TZ": f"UTC{k}"}, elsewhere) for k in range(4, 8)]
    first = None
    compared = 0
    distinct = set()
    for name, binary, order, env, cwd in runs:
        threads = env.get("THREADS", "0")
        r = run([binary, "digest", str(SEED), str(count), str(order), threads], env=c.env(**env), cwd=cwd, memory=14 * GB)
        if r.timeout:
            raise Inconclusive("the digests did not end in time")
        if r.code != 0:
            raise Inconclusive(f"digest run ({name}) ended with {r.code}: {r.err[-2000:]}")
        lines = r.out.splitlines()
        if len(lines) < count // 2:
            raise Inconclusive(f"only {len(lines)} digests")
        if first is None:
            first = lines
            distinct = {l.split()[0] for l in lines}
            continue
        if len(lines) != len(first):
            raise Inconclusive("different inputs in different runs")
        for a, b in zip(first, lines):
            compared += 1
            if a != b:
                _, level, data = (a.split() + [""])[:3]
                c.violation(
                    f"a fresh process ({name}) decodes this to something else than another ({runs[0][0]})",
                    [f"level: {level}", f"data: {data}"],
                )
                return
    c.coverage["observed"]["results compared between processes"] = compared
    c.coverage["observed"]["different results among those"] = len(distinct)
    c.coverage["processes_compared"] = [r[0] for r in runs]
    try:
        with open(log) as fh:
            asked = sorted(set(fh.read().splitlines()))
    except OSError:
        asked = []
    if "variable MONITOR_PROBE" not in asked:
        raise Inconclusive("what decoding asks of its surroundings was not seen")
    c.coverage["asked_of_the_surroundings"] = [a for a in asked if a != "variable MONITOR_PROBE"][:50]
    c.coverage["evaluations"] += compared


def find_trace(binary, args, env, memory=None):
    """The last input that is noted before the process dies"""
    r = run([binary] + args, env=dict(env, MONITOR_TRACE="1"), memory=memory)
    last = None
    for l in r.out.splitlines():
        if l.startswith("TRACE "):
            last = l.split()
    return (last or ["", "?", ""]) + [""]


MEMORY_SIGNS = re.compile(r"AddressSanitizer|ThreadSanitizer|Undefined Behavior|UndefinedBehaviorSanitizer|memory leaked|Data race|unsafe precondition|==\d+== (Invalid|Conditional jump|Use of uninit|Process terminating|Mismatched|Syscall param)")


def memory_run(c, what, cmd, env, args, trace_args):
    r = run(cmd + args, env=env, cwd=os.path.join(VERIF, "harness"))
    if r.timeout:
        raise Inconclusive(f"{what}: did not end in time")
    done = re.search(r"DONE good=(\d+) refused=(\d+) printed=(\d+) bad=(\d+) distinct=(\d+)", r.out)
    bad = [l for l in r.out.splitlines() if l.startswith("BAD ")]
    for l in bad[:2]:
        _, level, data, why = (l.split(" ", 3) + ["", "", ""])[:4]
        c.violation(f"{what}: {why}", [f"level: {level}", f"data: {data}"])
    if bad:
        return
    if r.code != 0:
        text = r.out + "\n" + r.err
        sign = MEMORY_SIGNS.search(text)
        fatal = r.code in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL, -signal.SIGABRT)
        if sign is None and not fatal:
            raise Inconclusive(f"{what}: exit {r.code}: {text[-3000:]}")
        # A report about our own allocator or the tool itself is no verdict
        if re.search(r"unsupported operation|out of memory|allocator is out of memory|requested allocation size", text):
            raise Inconclusive(f"{what}: {text[-3000:]}")
        t = run(cmd + trace_args, env=dict(env, MONITOR_TRACE="1"), cwd=os.path.join(VERIF, "harness"))
        traced = [l.split() for l in t.out.splitlines() if l.startswith("TRACE ")]
        last = (traced or [["", "?", ""]])[-1] + [""]
        at = sign.start() if sign else 0
        c.violation(
            f"{what}: " + " | ".join(text[at : at + 900].splitlines()[:8]),
            [f"level: {last[1]}", f"data: {last[2]}"],
        )
        return
    if not done:
        raise Inconclusive(f"{what}: no summary: {r.out[-500:]} {r.err[-2000:]}")
    good, refused, printed, _, distinct = map(int, done.groups())
    if good < 20 or refused < 10 or printed < 5:
        raise Inconclusive(f"{what}: too little was seen: {done[0]}")
    c.coverage["evaluations"] = c.coverage.get("evaluations", 0) + good + refused
    c.coverage["distinct_nontrivial"] = c.coverage.get("distinct_nontrivial", 0) + distinct
    c.coverage.setdefault("observed", {})[what] = {
        "decoded": good, "refused": refused, "printed": printed, "distinct inputs": distinct,
    }
    c.coverage.setdefault("samples", []).append(f"{what}: {' '.join(os.path.basename(a) for a in args)} -> {done[0]}")


def nightly():
    r = run(["rustup", "toolchain", "list"])
    for l in r.out.splitlines():
        if l.startswith("nightly"):
            return l.split()[0]
    return "nightly"


def c22(c):
    c.coverage = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "observed": {}}
    c.coverage["rule"] = (
        "Arbitrary, mutated and well-formed inputs at every level and all their prefixes are decoded from heap buffers of "
        "exactly their size, the whole result is read, printed and checked for valid UTF-8, in a build with AddressSanitizer "
        "and under Miri; distinct is by input"
    )
    tc = nightly()
    harness = os.path.join(VERIF, "harness")
    # AddressSanitizer: many inputs, huge ones, several threads
    env = c.env(
        RUSTFLAGS="-Zsanitizer=address -Cforce-frame-pointers=yes",
        ASAN_OPTIONS="detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=77:allocator_may_return_null=0",
    )
    asan = os.path.join(TARGET, "asan")
    r = cargo(["build", "--offline", "--quiet", "--bin", "monitor", "--target", TRIPLE], asan, harness, "asan",
              env=env, toolchain=tc, packages=OURS)
    if r.code != 0:
        raise Inconclusive(f"no AddressSanitizer build: {r.out[-4000:]}")
    binary = os.path.join(asan, TRIPLE, "debug", "monitor")
    n = 300_000 if THOROUGH else 30_000
    memory_run(c, "AddressSanitizer", [binary], env, ["memory", str(SEED), str(n), "20000", "8"],
               ["memory", str(SEED), str(n), "20000", "1"])
    if c.violations:
        return
    # ThreadSanitizer: many threads at once, the standard library and all
    # dependencies instrumented with them
    env = c.env(RUSTFLAGS="-Zsanitizer=thread", TSAN_OPTIONS="halt_on_error=1:exitcode=78")
    tsan = os.path.join(TARGET, "tsan")
    r = cargo(["build", "-Zbuild-std", "--offline", "--quiet", "--bin", "monitor", "--target", TRIPLE], tsan, harness, "tsan",
              env=env, toolchain=tc, packages=OURS)
    if r.code != 0:
        raise Inconclusive(f"no ThreadSanitizer build: {r.out[-4000:]}")
    binary = os.path.join(tsan, TRIPLE, "debug", "monitor")
    n = 60_000 if THOROUGH else 8_000
    memory_run(c, "ThreadSanitizer", [binary], env, ["memory", str(SEED), str(n), "3000", "8"],
               ["memory", str(SEED), str(n), "3000", "1"])
    if c.violations:
        return
    native = build_monitor()
    # memcheck: uninitialised memory as well, in the plain build
    from concurrent.futures import ThreadPoolExecutor
    valgrind = shutil.which("valgrind")
    if valgrind:
        n = 30_000 if THOROUGH else 4_000
        cmd = [valgrind, "-q", "--error-exitcode=77", "--exit-on-first-error=yes", "--num-callers=20", native]
        with ThreadPoolExecutor(8) as pool:
            def check(k):
                a = ["memory", str(SEED * 100 + k), str(n), "3000", "1"]
                memory_run(c, f"memcheck {k}", cmd, c.env(), a, a)
            for f in [pool.submit(check, k) for k in range(8)]:
                f.result()
        if c.violations:
            return
    else:
        c.coverage["memcheck"] = "no valgrind here"
    # Miri: few inputs, everything it knows
    miri = os.path.join(TARGET, "miri")
    env = c.env(MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-strict-provenance -Zmiri-symbolic-alignment-check")
    cmd = ["cargo", f"+{tc}", "miri", "run", "--offline", "--quiet", "--bin", "monitor"]
    empty = os.path.join(c.scratch, "inputs-none")
    open(empty, "w").close()
    r = cargo(cmd[2:] + ["--", "memory-file", empty], miri, harness, "miri", env=env, toolchain=tc, packages=OURS)
    if "DONE" not in r.out:
        raise Inconclusive(f"Miri does not start: {r.out[-3000:]}")
    env["CARGO_TARGET_DIR"] = miri
    n = 1000 if THOROUGH else 250
    # It runs one thread at a time: several of it
    with ThreadPoolExecutor(8) as pool:
        def part(k):
            inputs = os.path.join(c.scratch, f"inputs-{k}")
            made = run([native, "memory-inputs", str(SEED), str(n), str(k), "8", inputs], env=c.env())
            if made.code != 0:
                raise Inconclusive(f"no inputs for Miri: {made.err[-1000:]}")
            # Two threads, which it watches for data races
            a = ["--", "memory-file", inputs, "2"]
            memory_run(c, f"Miri {k}", cmd, env, a, ["--", "memory-file", inputs, "1"])
        for f in [pool.submit(part, k) for k in range(8)]:
            f.result()
    c.assumptions += [
        "AddressSanitizer sees red zones and freed memory, not overflows inside an object; Miri interprets a smaller workload",
        "the standard library, winnow, arrayvec and libm are instrumented by Miri, and the generic parts of them by AddressSanitizer",
    ]


def c23(c):
    plain(c)
    if c.violations:
        return
    binary = build_monitor()
    valgrind = shutil.which("valgrind")
    if not valgrind:
        c.coverage["callgrind"] = "no valgrind here"
        return
    names = run([binary, "families"]).out.splitlines()
    small, large = (8_000, 32_000) if not THOROUGH else (16_000, 128_000)

    def cost(family, size):
        out = os.path.join(c.scratch, f"cg-{names.index(family)}-{size}")
        r = run(
            [valgrind, "--tool=callgrind", f"--callgrind-out-file={out}", "--toggle-collect=measured",
             binary, "work", str(names.index(family)), str(size)],
            env=c.env(), timeout=600,
        )
        m = re.search(r"Collected\s*:\s*(\d+)", r.err)
        if os.path.exists(out):
            os.unlink(out)
        return int(m[1]) if m and r.code == 0 else None

    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as pool:
        jobs = {(n, s): pool.submit(cost, n, s) for n in names for s in (0, small, large)}
        got = {k: j.result() for k, j in jobs.items()}
    table = {}
    grow = large / small
    for n in names:
        base, a, b = (got[(n, s)] for s in (0, small, large))
        if None in (base, a, b):
            continue
        a, b = a - base, b - base
        table[n] = {"instructions per byte": round(b / large, 1), "growth": round(b / max(a, 1), 2)}
        # The inputs grow by `grow`; anything from quadratic on by its square
        if b > a * grow * 1.6 and b > 2_000_000:
            c.violation(
                f"the family {n!r} costs {a} instructions for {small} bytes and {b} for {large}: that is not linear",
                [f"family: {n}", f"size: {large}"],
            )
    if len(table) < len(names) // 2:
        c.coverage["callgrind"] = f"did not run (only {len(table)} of {len(names)} families measured)"
    else:
        c.coverage["callgrind"] = {"bytes": [small, large], "families": table}
        c.coverage["evaluations"] += 3 * len(table)


def c25(c):
    target = os.path.join(TARGET, "cli")
    r = cargo(["build", "--offline", "--quiet", "--bin", "test_parse"], target, REPO, "cli", packages=OURS[:2])
    if r.code != 0:
        raise Inconclusive(f"the command line tool does not build: {r.out[-4000:]}")
    os.environ["MONITOR_CLI"] = os.path.join(target, "debug", "test_parse")
    plain(c)


def own_crate(c, name):
    def build(profile):
        args = ["build", "--offline", "--quiet"] + (["--release"] if profile == "release" else [])
        target = os.path.join(TARGET, name, profile)
        r = cargo(args, target, os.path.join(VERIF, "harness_" + name), name, packages=OURS + (name + "-monitor",))
        if r.code != 0:
            raise Inconclusive(f"the harness of the {name} does not build:\n{r.out[-6000:]}")
        return os.path.join(target, profile, name + "-monitor")

    seeds = [SEED] if not THOROUGH else [SEED + 1000 * k for k in range(4)]
    for s in seeds:
        c.monitor(build("debug"), s)
        if c.violations:
            return
    before = c.coverage.get("evaluations", 0)
    c.monitor(build("release"), SEED + 1)
    c.coverage["evaluations_in_release_build"] = c.coverage["evaluations"] - before


def c13(c):
    own_crate(c, "parts")


def c31(c):
    own_crate(c, "errors")


MALFORMED = [
    "E002 0000", "E000 0002", "E009 nnnn", "E000 000x", "E000 000m", "E000 00n0", "E000 n000", "E000 0np1",
    "E000 nnnnn", "E000 npnpn", "F000 0000", "000 0000", "E0000000", "E000 0000 0", "E00n nnnn", "Ennn nnnn",
    "E000 0000n n", "E 0000", "", "E", "E000 000a", "E111 11n1", "E111 1npx", "X111 1111", "E000, 0000", "E210 0nnn",
    "E000 0zzz", "E000 8nnn", "E000 nnn0",
]


def c30(c):
    crate = os.path.join(VERIF, "harness_vif")
    made = run([sys.executable, os.path.join(crate, "generate.py")])
    if made.code != 0:
        raise Inconclusive(made.err)
    target = os.path.join(TARGET, "vif")
    r = cargo(["build", "--offline", "--quiet"], target, crate, "vif", packages=("libmbus_macros", "vif-monitor"))
    if r.code != 0:
        at = [l for l in r.out.splitlines() if l.startswith("error")]
        lines = [l.strip() for l in r.out.splitlines() if "vif!(" in l or "--> " in l]
        if "libmbus_macros/src" in r.out and "patterns.rs" not in r.out and "main.rs" not in r.out:
            raise Inconclusive(f"the macro itself does not build: {r.out[-3000:]}")
        if "patterns.rs" in r.out or "src/main.rs" in r.out:
            c.violation(f"a valid pattern does not compile: {at[:2]}", lines[:3])
            return
        raise Inconclusive(r.out[-3000:])
    r = run([os.path.join(target, "debug", "vif-monitor")])
    done = re.search(r"DONE patterns=(\d+) tries=(\d+) hits=(\d+) bad=(\d+)", r.out)
    if not done:
        raise Inconclusive(f"no result: {r.out[-500:]} {r.err[-2000:]}")
    for l in r.out.splitlines():
        if l.startswith("BAD "):
            c.violation(l[4:], [])
            break
    patterns, tries, hits, _ = map(int, done.groups())
    # What is no pattern has to be refused when compiling
    libs = [f for f in os.listdir(os.path.join(target, "debug", "deps")) if re.match(r"liblibmbus_macros-.*\.so$", f)]
    libs.sort(key=lambda f: os.path.getmtime(os.path.join(target, "debug", "deps", f)))
    if not libs:
        raise Inconclusive("the macro was not found")
    src = os.path.join(c.scratch, "malformed.rs")
    rows = ["E000 0000", "E111 1nnn", "E101 nppp"] + MALFORMED
    with open(src, "w") as f:
        f.write("use libmbus_macros::vif;\n")
        for i, t in enumerate(rows):
            f.write(f"pub fn f{i}(v: u8) -> bool {{ matches!(v, vif!({t})) }}\n")
    r = run(
        ["rustc", "--edition", "2021", "--crate-type", "lib", "--emit", "metadata", "--error-format", "json",
         "--extern", f"libmbus_macros={os.path.join(target, 'debug', 'deps', libs[-1])}",
         "-o", os.path.join(c.scratch, "malformed.rmeta"), src],
        cwd=c.scratch,
    )
    lines = set()
    for l in r.err.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("level") == "error":
            for s in m.get("spans", []):
                if s["file_name"].endswith("malformed.rs"):
                    lines.add(s["line_start"] - 2)
    if not lines:
        raise Inconclusive(f"rustc refuses nothing: {r.err[-1500:]}")
    refused = 0
    for i, t in enumerate(rows):
        if i < 3 and i in lines:
            c.violation(f"vif!({t}) does not compile", [])
        elif i >= 3 and i not in lines:
            c.violation(f"vif!({t}) is no pattern but compiles", [])
        elif i >= 3:
            refused += 1
    c.coverage = {
        "evaluations": tries + len(rows),
        "distinct_nontrivial": patterns * 256,
        "rule": "every valid pattern (8 upper parts, 0 to 4 free bits, letters n and p) is used as a pattern and as a match "
                "arm on every byte and compared with what its bits say; malformed ones have to be refused when compiling; "
                "distinct is (pattern, byte)",
        "exhaustive": True,
        "samples": ["E000 0nnn takes 0x00..=0x07 and nothing else"] + [f"vif!({t}) refused" for t in MALFORMED[:3]],
        "observed": {"patterns": patterns, "bytes tried": tries, "bytes taken": hits, "malformed patterns refused": refused},
    }
    if patterns != 640 and not c.violations:
        raise Inconclusive(f"{patterns} patterns instead of 640")


SPECIAL = {"C01": c01, "C13": c13, "C20": c20, "C22": c22, "C23": c23, "C25": c25, "C30": c30, "C31": c31}
PLAIN = [
    "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C14", "C15", "C16", "C17", "C18",
    "C19", "C21", "C24", "C26", "C27", "C28", "C29",
]
BASE_ASSUMPTIONS = [
    "holds on the executions that were run; nothing is said about inputs that were not",
    "the reference decoder in /verif/harness/src/model.rs says what EN 13757 asks for",
]


def setup():
    """The checks build what they need themselves, if need be; this makes sure
    that it can be built at all"""
    build_monitor()
    return 0


def main():
    if sys.argv[1:] == ["--setup"]:
        return setup()
    if len(sys.argv) < 2 or (sys.argv[1] not in SPECIAL and sys.argv[1] not in PLAIN):
        print("usage: check.py ID [--replay FILE]")
        return 2
    id_ = sys.argv[1]
    if len(sys.argv) == 4 and sys.argv[2] == "--replay":
        binary = build_monitor()
        r = run([binary, "replay", os.path.abspath(sys.argv[3])], memory=14 * GB)
        print(r.out, r.err)
        return r.code
    os.makedirs(EVIDENCE, exist_ok=True)
    c = Check(id_)
    code = 0
    try:
        try:
            (SPECIAL.get(id_) or plain)(c)
        except Inconclusive as e:
            print(f"INCONCLUSIVE property={id_}: {e}")
            code = 2
        except Exception:
            print(f"INCONCLUSIVE property={id_}: {traceback.format_exc()}")
            code = 2
        if c.violations:
            code = 1
        cov = c.coverage or {"evaluations": 0, "distinct_nontrivial": 0, "rule": "nothing was run", "samples": []}
        cov.pop("violations", None)
        evidence = {
            "property": id_,
            "tier": TIER,
            "seed": SEED,
            "level": "exploration",
            "coverage": cov,
            "assumptions": BASE_ASSUMPTIONS + c.assumptions,
            "wall_s": round(time.time() - START, 2),
            "violations": c.violations,
        }
        with open(os.path.join(EVIDENCE, f"{id_}.json"), "w") as f:
            json.dump(evidence, f, indent=1, ensure_ascii=False)
            f.write("\n")
        if code == 0:
            for signature, what in c.known():
                print(f"KNOWN-FINDING: property={id_} {what}")
            print(
                f"held: property={id_} evaluations={cov.get('evaluations')} "
                f"distinct={cov.get('distinct_nontrivial')} wall={evidence['wall_s']}s"
            )
        return code
    finally:
        shutil.rmtree(c.scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
