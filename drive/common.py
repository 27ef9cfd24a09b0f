"""Builds the harness, records runs of the real code, lets TLC check them and bounded models."""
import hashlib, json, os, random, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla/"
CP = TLA + "tla2tools.jar:" + TLA + "CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 8)

HEADERS = ["to", "cc", "bcc", "date", "from", "sender", "reply-to", "message-id", "in-reply-to",
           "references", "subject", "comments", "keywords"]
FEATURES = HEADERS + ["trace", "compatibility-fixes", "mime", "content-disposition",
                      "unrecognized-headers"]


class Broken(Exception):
    """The check cannot give an answer."""


def closed(on):
    on = set(on)
    if "content-disposition" in on or "unrecognized-headers" in on:
        on.add("mime")
    return [f for f in FEATURES if f in on]


def configurations():
    everything = [f for f in FEATURES if f != "compatibility-fixes"]
    c = {"all": everything, "compat": FEATURES, "none": [], "mime": ["mime"],
         "headers": HEADERS, "nomime": HEADERS + ["trace"],
         "default": HEADERS + ["trace", "mime", "content-disposition", "unrecognized-headers"]}
    for f in HEADERS + ["trace"]:
        c["no-" + f] = [x for x in everything if x != f]
    c["no-cd"] = [x for x in everything if x != "content-disposition"]
    c["no-uh"] = [x for x in everything if x != "unrecognized-headers"]
    c["nomime-notrace"] = HEADERS
    for f in HEADERS + ["trace"]:
        c["only-" + f] = [f]
        c["mime-" + f] = ["mime", "unrecognized-headers", f]
    return {k: closed(v) for k, v in c.items()}


CONFIGS = configurations()


def feature_record(cfg):
    return {f: f in CONFIGS[cfg] for f in FEATURES}


# ------------------------------------------------------------------ building
def build(cfgs, log=None):
    """Builds the harness of every configuration; returns {cfg: binary or error text}."""
    def one(cfg):
        target = os.path.join(BUILD, "t-" + cfg)
        env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_TERM_COLOR="never",
                   RUSTFLAGS="--cap-lints allow")
        env.pop("CARGO_BUILD_TARGET", None)
        p = subprocess.run(["cargo", "build", "--offline", "-q", "-j", "2", "--no-default-features",
                            "--features", ",".join(CONFIGS[cfg])],
                           cwd=os.path.join(VERIF, "harness"), env=env, capture_output=True, text=True)
        if p.returncode:
            return cfg, None, p.stderr
        return cfg, os.path.join(target, "debug", "harness"), ""
    with ThreadPoolExecutor(CORES) as ex:
        return {c: (b, e) for c, b, e in ex.map(one, cfgs)}


# ----------------------------------------------------------------- exploring
COVERAGE = ["-Cpasses=sancov-module"] + ["-Cllvm-args=-sanitizer-coverage-" + x for x in
            ("level=3", "inline-8bit-counters", "pc-table", "trace-compares")]
FUZZER = "/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.fuzzer-x86_64.a"


def explorer(cfg):
    """Builds the libFuzzer target for a configuration: the binary, or None with the reason."""
    if not os.path.exists(FUZZER):
        return None, "libFuzzer is not there"
    target = os.path.join(BUILD, "x-" + cfg)
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_TERM_COLOR="never",
               RUSTFLAGS=" ".join(["--cap-lints allow"] + COVERAGE +
                                  ["-Clink-arg=" + FUZZER, "-Clink-arg=-lstdc++", "-Clink-arg=-lm"]))
    env.pop("CARGO_BUILD_TARGET", None)
    p = subprocess.run(["cargo", "build", "--offline", "-q", "--target", "x86_64-unknown-linux-gnu",
                        "--no-default-features", "--features", ",".join(CONFIGS[cfg])],
                       cwd=os.path.join(VERIF, "explore"), env=env, capture_output=True, text=True)
    if p.returncode:
        return None, p.stderr[-1000:]
    return os.path.join(target, "x86_64-unknown-linux-gnu", "debug", "explore"), ""


def explore(binary, seeds, tokens, work, runs, most=600, workers=CORES, seed=1, timeout=300, values=(), limit=5000):
    """Inputs that run through parts of the library (edges, numbers of passes, operands of comparisons)
    through which the seeds do not run.  The library is only executed; nothing is judged here."""
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(os.path.join(work, "seeds"))
    known = set()
    for k, b in enumerate(seeds):
        known.add(hashlib.sha1(b).hexdigest())
        with open(os.path.join(work, "seeds", "%05d" % k), "wb") as f:
            f.write(b)
    with open(os.path.join(work, "dict"), "w") as f:
        for t in sorted(set(tokens)):
            if t:
                f.write('"%s"\n' % "".join("\\x%02x" % c for c in t))

    def run(d, *args):
        try:
            subprocess.run([binary, *args, "-timeout=10", "-rss_limit_mb=3000", "-verbosity=0"], cwd=d,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=timeout + 60)
        except (subprocess.TimeoutExpired, OSError):
            pass

    def files(d):
        out = {}
        for base, _, names in os.walk(d):
            for f in sorted(names):
                if base.endswith("/c") or f.startswith(("crash-", "timeout-", "oom-")):
                    b = open(os.path.join(base, f), "rb").read()
                    h = hashlib.sha1(b).hexdigest()
                    if h not in known:
                        out[h] = b
        return out

    def one(n):
        d = os.path.join(work, "w%d" % n)
        os.makedirs(os.path.join(d, "c"))
        run(d, "c", "../seeds", "-runs=%d" % runs, "-seed=%d" % (seed * 100 + n + 1), "-max_len=%d" % most,
            "-dict=../dict", "-use_value_profile=%d" % (n in values), "-reload=0", "-len_control=0",
            "-max_total_time=%d" % timeout)
        return files(d)
    found = {}
    with ThreadPoolExecutor(workers) as ex:
        for l in ex.map(one, range(workers)):
            found.update(l)
    # first those that together cover all that was reached
    m = os.path.join(work, "m")
    os.makedirs(os.path.join(m, "c"))
    run(m, "-merge=1", "c", "../seeds", *["../w%d/c" % n for n in range(workers)], "-max_total_time=%d" % timeout)
    first = files(m)
    rest = [h for h in sorted(found) if h not in first]
    out = [first[h] for h in sorted(first)][:limit]
    if len(rest) > limit - len(out):
        rest = random.Random(seed).sample(rest, max(0, limit - len(out)))
    shutil.rmtree(work, ignore_errors=True)
    return out + [found[h] for h in rest], len(found), len(first)


# ----------------------------------------------------------------- recording
def record(binary, mode, cases, cfg, path, timeout=20, mem_gb=4):
    """Runs the real code on the cases [(id, bytes)], one line of JSON per case in the file.
    A case that ends the process or does not return is recorded with its end; the rest is run
    by a new process."""
    todo = list(cases)
    lines = []
    while todo:
        inp = path + ".in"
        with open(inp, "w") as f:
            for i, b in todo:
                f.write("%s %s\n" % (i, b.hex()))
        p = subprocess.Popen(["bash", "-c", "ulimit -v %d; exec \"$0\" \"$@\"" % (mem_gb << 20),
                              binary, mode, inp], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        got = []
        last = [time.time()]

        def reader():
            for l in p.stdout:
                got.append(l)
                last[0] = time.time()
        t = threading.Thread(target=reader, daemon=True)
        t.start()
        end = "abort"
        while t.is_alive():
            t.join(0.2)
            if time.time() - last[0] > timeout:
                end = "hang"
                p.kill()
                break
        t.join()
        p.wait()
        ok = [l for l in got if l.endswith(b"}\n")]
        lines += ok
        if mode == "pure":
            if p.returncode != 0 or end == "hang":
                raise Broken("the recording of histories ended with %s" % p.returncode)
            break
        if len(ok) == len(todo):
            break
        i, b = todo[len(ok)]
        lines.append(json.dumps({"id": i, "end": end, "in": list(b) if len(b) < 5000 else [],
                                 "pm": {}, "em": {}, "ents": []}).encode() + b"\n")
        todo = todo[len(ok) + 1:]
    os.path.exists(path + ".in") and os.unlink(path + ".in")
    tag = ('"cfg":"%s",' % cfg).encode()
    return [b"{" + tag + l[1:] for l in lines]


# ----------------------------------------------------------------------- TLC
def tlc(module, cfg_text, work, workers=1, heap="2g", timeout=3600, extra=(), long=False):
    """Runs TLC in the directory; returns (return code, lines of output, wall seconds)."""
    os.makedirs(work, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), work)
    with open(os.path.join(work, module + ".cfg"), "w") as f:
        f.write(cfg_text)
    t0 = time.time()
    tmp = os.path.join(work, "tmp")
    os.makedirs(tmp, exist_ok=True)
    cmd = ["java", "-Djava.io.tmpdir=" + tmp, "-Xss512m", "-Xmx" + heap, *(["-XX:+UseParallelGC"] if workers > 1 else ["-XX:+UseSerialGC"]),
           "-XX:TieredStopAtLevel=%d" % (4 if long else 1), "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE",
           "-metadir", os.path.join(work, "states"), "-config", module + ".cfg", *extra, module + ".tla"]
    with open(os.path.join(work, module + ".out"), "wb") as out:
        try:
            rc = subprocess.run(cmd, cwd=work, stdout=out, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            rc = -1
    with open(os.path.join(work, module + ".out"), errors="replace") as f:
        lines = f.read().split("\n")
    shutil.rmtree(os.path.join(work, "states"), ignore_errors=True)
    shutil.rmtree(tmp, ignore_errors=True)
    return rc, lines, time.time() - t0


STATES = re.compile(r"^(\d+) states generated, (\d+) distinct states found")


def states_of(lines):
    for l in reversed(lines):
        m = STATES.match(l)
        if m:
            return int(m.group(1)), int(m.group(2))
    return 0, 0


def conform(cases, work, spans=False, shards=CORES, module="Trace", header=None):
    """cases: lines of JSON (bytes).  Returns (rejects, states, transitions, number of cases)."""
    if not cases:
        return [], 0, 0, 0
    # spread the expensive cases
    order = sorted(range(len(cases)), key=lambda k: -len(cases[k]))
    shards = max(1, min(shards, len(cases) // 8 or 1))
    parts = [[] for _ in range(shards)]
    for n, k in enumerate(order):
        parts[n % shards].append(k)
    head = json.dumps(header or {"cfgs": {c: feature_record(c) for c in CONFIGS}}).encode() + b"\n"

    def one(n):
        w = os.path.join(work, "s%d" % n)
        os.makedirs(w, exist_ok=True)
        with open(os.path.join(w, "trace.ndjson"), "wb") as f:
            f.write(head)
            for k in sorted(parts[n]):
                f.write(cases[k])
        const = "CONSTANTS TraceFile = \"trace.ndjson\"\n"
        if module == "Trace":
            const += " CheckSpans = %s\n" % ("TRUE" if spans else "FALSE")
        cfg = "SPECIFICATION Spec\n" + const + "INVARIANT Report\nCHECK_DEADLOCK FALSE\n"
        rc, lines, wall = tlc(module, cfg, w)
        rejects, done = [], None
        text = "\n".join(lines)
        for m in re.finditer(r'^<<\s*"(REJECT|DONE)",(.*?)>>$', text, re.S | re.M):
            if m.group(1) == "DONE":
                done = re.match(r'\s*(\d+),\s*"rejected",\s*(\d+)', m.group(2))
            else:
                s = re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(2))
                rejects.append([x.replace('\\"', '"').replace("\\\\", "\\") for x in s])
        if done is None or int(done.group(1)) != len(parts[n]) or int(done.group(2)) != len(rejects):
            raise Broken("TLC gave no verdict on the recorded results (%s): %s"
                         % (rc, "\n".join(lines[-30:])))
        g, d = states_of(lines)
        shutil.rmtree(w, ignore_errors=True)
        return rejects, d, g
    with ThreadPoolExecutor(shards) as ex:
        res = list(ex.map(one, range(shards)))
    return (sum((r[0] for r in res), []), sum(r[1] for r in res), sum(r[2] for r in res), len(cases))


# ------------------------------------------------- constants of the tree under test
def constants():
    """(numbers, texts) that the sources of the library mention: sizes and tokens worth trying.
    They choose inputs, nothing else."""
    nums, texts = set(), set()
    for base, _, files in os.walk("/repo/email-parser/src"):
        for f in sorted(files):
            if not f.endswith(".rs"):
                continue
            src = open(os.path.join(base, f), errors="replace").read()
            src = re.sub(r"//[^\n]*", "", src).split("#[cfg(test)]")[0]
            for m in re.finditer(r'b?"((?:[^"\\\n]|\\.){1,40})"', src):
                try:
                    texts.add(m.group(1).encode().decode("unicode_escape").encode("latin-1", "replace"))
                except UnicodeDecodeError:
                    pass
            if "charset" not in f and "table" not in f:
                for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|[0-9][0-9_]*)", src):
                    try:
                        nums.add(int(m.group(1).replace("_", ""), 0))
                    except ValueError:
                        pass
    around = {y for x in nums if x <= 100000 for y in (x - 1, x, x + 1) if y >= 0}
    return sorted(around - set(USUAL)), sorted(texts)


# the numbers that the sweeps of sizes.py and the corpora deal with anyway
USUAL = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 22, 23, 24, 25, 26, 27, 30, 31, 32, 33, 34, 35,
         36, 38, 39, 40, 41, 42, 43, 47, 48, 49, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 71, 72, 73, 89, 90, 91, 92,
         93, 94, 95, 96, 97, 98, 121, 122, 123, 125, 126, 127, 128, 129, 158, 159, 160, 165, 166, 167, 997, 998, 999,
         1899, 1900, 1901, 6936, 6937, 6938, 8858, 8859, 8860]
