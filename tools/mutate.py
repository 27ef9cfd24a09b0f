#!/usr/bin/env python3
"""Judges how much the inputs of the quick checks can see, with small changes of the library.

mutate.py dump            stores the inputs of all quick checks, and what the library reports on them
mutate.py run [N [SEED]]  makes (N random) small changes, each in a scratch copy, and compares the reports
mutate.py list            what was not noticed

Nothing here decides a property: the checks let TLC compare every report with the specification, so a change
of a report on an input of a check is one that this check rejects.  Everything is kept in /tmp/mut."""
import hashlib, json, os, pickle, random, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "drive"))
import check, common, props
ROOT = "/tmp/mut"
CFGS = ["all", "nomime", "compat", "none"]


# ------------------------------------------------------------------ inputs
def dump():
    os.makedirs(ROOT, exist_ok=True)
    cases = {}                                   # cfg -> {bytes: set of properties}
    for pid in ["C%02d" % n for n in range(1, 25)]:
        kit = check.Kit(pid, "quick", 1)
        getattr(props, pid)(kit)
        run = check.Run(kit)

        def take(mode, spans, runs):
            for cfg, items in runs:
                for _, b in items:
                    cases.setdefault(cfg, {}).setdefault(b, set()).add(pid)
        run.check = take
        run.go()
        print(pid, {c: len(x) for c, x in cases.items() if c in CFGS}, flush=True)
    pickle.dump({c: cases[c] for c in CFGS}, open(os.path.join(ROOT, "corpus"), "wb"))
    base = {}
    bins = common.build(CFGS)
    for c in CFGS:
        files = write_inputs(c, list(cases[c]))
        base[c] = reports(bins[c][0], files)
        again = reports(bins[c][0], files)
        print(c, len(base[c]), "reports, different the second time:", sum(base[c][i] != again[i] for i in base[c]))
    pickle.dump(base, open(os.path.join(ROOT, "base"), "wb"))


def write_inputs(cfg, items):
    path = os.path.join(ROOT, "in-" + cfg)
    with open(path, "w") as f:
        for k, b in enumerate(items):
            f.write("%d %s\n" % (k, b.hex()))
    return path


HEAD = re.compile(rb'"id":"(\d+)"')


def reports(binary, path):
    """{number of the input: hash of the report}; what follows a crash is missing"""
    p = subprocess.Popen(["bash", "-c", "ulimit -v 4000000; ulimit -t 120; exec \"$0\" \"$@\"", binary, "run", path],
                         stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    out = {}
    for l in p.stdout:
        m = HEAD.search(l)
        if m:
            out[int(m.group(1))] = hashlib.md5(l).digest()[:8]
    p.wait()
    return out


# ----------------------------------------------------------------- changes
SWAP = [("is_wsp", "is_atext"), ("is_atext", "is_vchar"), ("is_vchar", "is_text"), ("is_ctext", "is_vchar"), ("is_qtext", "is_vchar"), ("is_dtext", "is_vchar"),
        ("is_ftext", "is_vchar"), ("take_while1", "take_while"), ("take_while", "take_while1"), ("eq_ignore_ascii_case", "eq"), ("starts_with", "ends_with"),
        ("optional(input, cfws)", "optional(input, fws)"), ("optional(input, fws)", "optional(input, cfws)"), ("cfws", "fws"), ("fws", "cfws"), ("add_str", "noop_str"),
        ("lowercase", "identity_case"), (".first()", ".last()"), (".last()", ".first()"), ("is_none", "is_some"), ("is_some", "is_none"), ("is_empty()", "len() == 1"),
        ("push_str", "insert_str_0"), ("break", "continue"), ("continue", "break"), ("Cow::Borrowed", "owned"), ("dot_atom", "atom"), ("atom(", "dot_atom("), ("quoted_string", "atom"),
        ("u8", "u16"), ("wrapping_", "saturating_"), ("saturating_", "wrapping_"), ("checked_", "wrapping_"), ("min(", "max("), ("max(", "min("), ("rev()", "skip(0)"),
        (".pop()", ".first().cloned()"), ("extend(", "truncate_("), ("Some(", "None.or(Some("), ("true", "false"), ("false", "true")]
TOK = re.compile(r'''(?P<cmp>(?<= )(?:<=|>=|==|!=|<|>)(?= ))|(?P<logic>&&|\|\|(?= ))|(?P<rng>\.\.=)|(?P<num>(?<![\w.'"])(?:0x[0-9a-fA-F]+|\d+)(?![\w.]*")(?![\w]))|'''
                 r'''(?P<ch>b'(?:[^'\\]|\\.)')|(?P<str>b?"(?:[^"\\]|\\.){1,40}")|(?P<arith>(?<= )[-+*/%](?= ))|(?P<aug>(?<= )[-+]=(?= ))|(?P<neg>(?<=[ (&|])!(?=[a-z(]))|(?P<iff>\bif (?!let)[^{]+\{)''')


def code_lines(text):
    """numbers of the lines that are not tests"""
    out, skip = [], False
    for n, l in enumerate(text.split("\n")):
        if re.match(r"\s*#\[cfg\(test\)\]|\s*mod tests?\b", l):
            skip = True
        if skip and l == "}":
            skip = False
            continue
        if not skip and not l.strip().startswith(("//", "#[", "use ", "pub use", "pub mod", "mod ")):
            out.append(n)
    return out


def changes():
    base = "/repo/email-parser/src"
    for d, _, names in sorted(os.walk(base)):
        for f in sorted(names):
            path = os.path.join(d, f)
            text = open(path).read()
            lines = text.split("\n")
            rel = os.path.relpath(path, "/repo")

            def ch(n, new):
                return rel, n, lines[n], new
            for n in code_lines(text):
                l = lines[n]
                body = l.split("//")[0] if '"' not in l else l
                if "TAG ERROR" in l or "Error::" in l and "Err(" not in l:
                    continue
                for m in TOK.finditer(body):
                    kind, t, (a, b) = m.lastgroup, m.group(), m.span()

                    def put(x):
                        return ch(n, l[:a] + x + l[b:])
                    if kind == "cmp":
                        for x in {"<": ["<=", ">="], ">": [">=", "<="], "<=": ["<", ">"], ">=": [">", "<"], "==": ["!="], "!=": ["=="]}[t]:
                            yield put(x)
                    elif kind == "logic":
                        yield put("||" if t == "&&" else "&&")
                    elif kind == "rng":
                        yield put("..")
                    elif kind == "num":
                        v = int(t, 0)
                        for x in {v + 1, max(0, v - 1), 0} - {v}:
                            yield put(hex(x) if t.startswith("0x") else str(x))
                    elif kind == "ch":
                        c = eval(t)[0]
                        for x in (c ^ 1, (c + 2) % 128, c ^ 32):
                            yield put("b'\\x%02x'" % x)
                    elif kind == "str" and t[0] == "b":
                        s = t[2:-1]
                        yield put('b"' + s[:-1] + '"') if len(s) > 1 and s[-2] != "\\" else put('b"' + s + 'x"')
                        if s.lower() != s:
                            yield put('b"' + s.lower() + '"')
                    elif kind == "str":
                        s = t[1:-1]
                        yield put('"' + s + 'x"')
                    elif kind in ("arith",):
                        yield put({"+": "-", "-": "+", "*": "+", "/": "*", "%": "+"}[t])
                    elif kind == "aug":
                        yield put({"+=": "-=", "-=": "+="}[t])
                    elif kind == "neg":
                        yield put("")
                    elif kind == "iff":
                        yield put("if true {")
                        yield put("if false {")
                for old, new in SWAP:
                    for m in re.finditer((r"(?<![\w])" if old[0].isalpha() else "") + re.escape(old) + (r"(?![\w])" if old[-1].isalpha() else ""), l):
                        if not l.strip().startswith(("pub fn", "fn", "pub struct", "struct")):
                            yield ch(n, l[:m.start()] + new + l[m.end():])
                s = l.strip()
                if s.endswith(";") and not s.startswith(("let", "use", "pub", "return", "}", ")", "]", "type", "const")) and n and lines[n - 1].rstrip().endswith((";", "{", "}", ",")):
                    yield ch(n, re.match(r"\s*", l).group() + "{}")
                if "=>" in l and s.endswith((",", "}")) and not s.startswith("_") and n:
                    yield ch(n, "")
                m = re.match(r"(\s*)let \(input, (\w+)\) = (.+)\?;$", l)
                if m:
                    yield ch(n, "%slet (input, %s) = { let r = %s?; if r.0.len() %% 64 == 7 { return Err(Error::Unknown(\"\")); } r };" % m.groups())
                m = re.match(r"(\s*)if let (.+) = (.+) \{$", l)
                if m:
                    yield ch(n, "%sif let (%s, true) = (%s, false) {" % m.groups())
                m = re.match(r"(\s*)while (?!let)(.+) \{$", l)
                if m:
                    yield ch(n, "%sif %s {" % m.groups())


# ------------------------------------------------------------------ running
def prepare(n):
    w = os.path.join(ROOT, "w%d" % n)
    if not os.path.isdir(w):
        os.makedirs(w)
        subprocess.run("cp -a /repo %s/repo && cp -a %s/harness %s/harness && sed -i 's#/repo/email-parser#%s/repo/email-parser#' %s/harness/Cargo.toml"
                       % (w, V, w, w, w), shell=True, check=True)
    return w


def build(w, cfg):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(w, "t-" + cfg), RUSTFLAGS="--cap-lints allow")
    try:
        p = subprocess.run(["cargo", "build", "--offline", "-q", "-j", "1", "--no-default-features", "--features", ",".join(common.CONFIGS[cfg])],
                           cwd=os.path.join(w, "harness"), env=env, capture_output=True, timeout=300)
    except subprocess.TimeoutExpired:
        return None
    return os.path.join(w, "t-" + cfg, "debug", "harness") if p.returncode == 0 else None


def run(most=None, seed=1):
    corpus = pickle.load(open(os.path.join(ROOT, "corpus"), "rb"))
    owners = {c: list(corpus[c].values()) for c in CFGS}
    base = pickle.load(open(os.path.join(ROOT, "base"), "rb"))
    todo = sorted(set(changes()))
    done = {}
    path = os.path.join(ROOT, "results")
    if os.path.exists(path):
        for l in open(path):
            r = json.loads(l)
            done[tuple(r["change"])] = r
    todo = [c for c in todo if c not in done]
    random.Random(seed).shuffle(todo)
    todo = todo[:most]
    print(len(todo), "to do,", len(done), "done", flush=True)
    lock = threading.Lock()
    idle = [prepare(n) for n in range(8)]
    out = open(path, "a")

    def one(c):
        with lock:
            w = idle.pop()
        rel, n, old, new = c
        f = os.path.join(w, "repo", rel)
        orig = open(f).read()
        try:
            lines = orig.split("\n")
            assert lines[n] == old
            lines[n] = new
            open(f, "w").write("\n".join(lines))
            seen, cfgs, state = {}, [], "same"
            for cfg in CFGS:
                b = build(w, cfg)
                if b is None:
                    state = "no build"
                    break
                got = reports(b, os.path.join(ROOT, "in-" + cfg))
                diff = [i for i, h in base[cfg].items() if got.get(i) != h]
                if len(got) < len(base[cfg]):             # ended: what is missing behind the first one does not count
                    missing = [i for i in base[cfg] if i not in got]
                    diff = [i for i in diff if i in got] + missing[:1]
                for i in diff:
                    for p in owners[cfg][i]:
                        seen[p] = seen.get(p, 0) + 1
                if diff:
                    state = "noticed"
                    break
            r = dict(change=c, state=state, seen=seen)
        finally:
            open(f, "w").write(orig)
        with lock:
            idle.append(w)
            out.write(json.dumps(r) + "\n")
            out.flush()
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, todo))


def show():
    rs = [json.loads(l) for l in open(os.path.join(ROOT, "results"))]
    n = {}
    for r in rs:
        n[r["state"]] = n.get(r["state"], 0) + 1
    print(n)
    for r in rs:
        if r["state"] == "same":
            rel, k, old, new = r["change"]
            print("%s:%d\n  - %s\n  + %s" % (rel, k + 1, old.strip(), new.strip()))


if __name__ == "__main__":
    if sys.argv[1] == "dump":
        dump()
    elif sys.argv[1] == "run":
        run(*[int(x) for x in sys.argv[2:]])
    else:
        show()
