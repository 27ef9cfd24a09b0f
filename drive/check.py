#!/usr/bin/env python3
"""check.py ID quick|thorough     decides one property on the working tree of /repo
check.py replay FILE             checks one recorded case again
check.py setup                   builds what the checks share (they also build it themselves)

Exit 0: the property held on everything explored.  Exit 1: VIOLATION lines.  Exit 2: no answer."""
import hashlib, json, os, random, shutil, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
import corpus, gen, props, sizes

FINDINGS = os.path.join(VERIF, "known_findings.txt")
BATCH = 10


def known_findings(pid):
    """{(cfg or *, sha256 of the input): what fails}"""
    out = {}
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            w = l.split(None, 4)
            if len(w) == 5 and w[0] == "finding:" and w[1] == "property=" + pid:
                out[(w[2].split("=", 1)[1], w[3].split("=", 1)[1])] = w[4].strip()
    return out


class Kit:
    """What the plan of a property asks for."""
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.deep = tier == "thorough"
        self.models, self.jobs = [], []
        self.gen = gen.Gen(seed * 1000003 + int(pid[1:]))

    def t(self, quick, thorough):
        return thorough if self.deep else quick

    def model(self, module, invs, workers=2, heap="3g", timeout=3000, **consts):
        self.models.append(dict(module=module, invs=invs.split(), consts=consts, workers=workers,
                                heap=heap, timeout=timeout))

    def vectors(self, *cfgs, limit=None, spans=False):
        """runs what the models enumerate (at most so many of them) in these configurations"""
        self.jobs.append(dict(kind="vectors", cfgs=cfgs, limit=limit, spans=spans))

    def cases(self, name, items, *cfgs, spans=False):
        """runs messages (bytes) in these configurations"""
        self.jobs.append(dict(kind="cases", name=name, items=list(items), cfgs=cfgs, spans=spans))

    def sweep(self, *cfgs, of=None, part=None, spans=False):
        """counts and lengths of what the property is about"""
        items = list(sizes.SWEEP[of or self.pid](self.deep, constants()[0]))
        if part is not None and not self.deep:
            items = corpus.pick(self.gen, items, part)
        self.cases("sizes " + (of or self.pid), items, *cfgs, spans=spans)

    def sizes(self, of, part, most=None):
        """some of a sweep (a thorough run takes ten times as many)"""
        items = [x for x in sizes.SWEEP[of](self.deep, constants()[0]) if most is None or len(x) <= most]
        return corpus.pick(self.gen, items, part * self.t(1, 10))

    def total(self, name, items, *cfgs):
        self.jobs.append(dict(kind="total", name=name, items=list(items), cfgs=cfgs))

    def pure(self, name, items, *cfgs):
        self.jobs.append(dict(kind="pure", name=name, items=list(items), cfgs=cfgs))

    def copies(self, name, items, *cfgs):
        """what becomes of the values of these messages"""
        self.jobs.append(dict(kind="copies", name=name, items=None if items is None else list(items), cfgs=cfgs))

    def explore(self, *cfgs, runs=None, spans=False):
        """coverage-guided search from the cases of this plan; what it finds is run like other cases"""
        self.jobs.append(dict(kind="explore", name="explored", cfgs=cfgs, spans=spans, items=[],
                              runs=runs or self.t(50000, 2000000), limit=self.t(4000, 40000)))

    def builds(self, *cfgs):
        """the library has to build in these configurations"""
        self.jobs.append(dict(kind="builds", cfgs=cfgs))


class Run:
    def __init__(self, kit):
        self.kit = kit
        self.work = os.path.join(BUILD, "work-%s-%s" % (kit.pid, kit.tier))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = 0
        self.rejects, self.samples, self.notes = [], [], []
        self.parts = {}                       # id of a batch -> its fields

    # ------------------------------------------------------------- models
    def run_model(self, n):
        m = self.kit.models[n]
        cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
        if m["consts"]:
            cfg += "CONSTANTS\n" + "".join(" %s = %s\n" % x for x in m["consts"].items())
        cfg += "".join("INVARIANT %s\n" % i for i in m["invs"])
        w = os.path.join(self.work, "m%d" % n)
        rc, lines, wall = tlc(m["module"], cfg, w, workers=m["workers"], heap=m["heap"],
                              timeout=m["timeout"], long=self.kit.deep)
        if rc != 0:
            bad = [l for l in lines if not l.startswith('"VEC')]
            raise Broken("model %s: %s\n%s" % (m["module"], rc, "\n".join(bad[-40:])))
        g, d = states_of(lines)
        vec = sorted({l for l in lines if l.startswith('"VEC ')})
        shutil.rmtree(w, ignore_errors=True)
        return m, g, d, vec, wall

    # -------------------------------------------------------------- cases
    def vector_cases(self, limit, batched, salt):
        fields, messages = list(self.fields), list(self.messages)
        if limit is not None and len(fields) + len(messages) > limit:
            r = random.Random("%d %s" % (self.kit.seed, salt))
            share = limit / (len(fields) + len(messages))
            fields = r.sample(fields, int(len(fields) * share))
            messages = r.sample(messages, int(len(messages) * share))
        out = []
        size = BATCH if batched else 1
        for k in range(0, len(fields), size):
            part = fields[k:k + size]
            out.append(gen.REQ + b"".join(part) + b"\r\n")
        return out + messages

    def explored(self, job, cfg):
        b, err = self.explorers[cfg]
        if b is None:
            self.notes.append("not explored by coverage: %s: %s" % (cfg, err[-300:]))
            return []
        t0 = time.time()
        pool = [b"".join((gen.REQ, f)) for f in self.fields] + self.messages
        for j in self.kit.jobs:
            if cfg in j["cfgs"]:
                pool += j.get("items") or []
        pool = sorted({x for x in pool if len(x) <= 600})
        r = random.Random(self.kit.seed)
        seeds = r.sample(pool, min(len(pool), 500))
        out, n, k = explore(b, seeds, constants()[1], os.path.join(self.work, "x"), job["runs"],
                            seed=self.kit.seed, limit=job["limit"], values=(6, 7),
                            timeout=self.kit.t(60, 1500))
        self.notes.append("%s: explored from %d seeds with 8 x %d runs: %d inputs, %d cover everything, %d checked, %.0f s"
                          % (cfg, len(seeds), job["runs"], n, k, len(out), time.time() - t0))
        return out

    def go(self):
        kit = self.kit
        cfgs = sorted({c for j in kit.jobs for c in j["cfgs"]})
        t0 = time.time()
        with ThreadPoolExecutor(4) as ex:
            built = ex.submit(build, cfgs)
            search = sorted({c for j in kit.jobs if j["kind"] == "explore" for c in j["cfgs"]})
            searchers = [ex.submit(explorer, c) for c in search]
            models = [ex.submit(self.run_model, n) for n in range(len(kit.models))]
            self.bins = built.result()
            self.explorers = dict(zip(search, [x.result() for x in searchers]))
            fields, messages = set(), set()
            for f in models:
                m, g, d, vec, wall = f.result()
                self.states += d
                self.transitions += g
                self.notes.append("%s %s: %d states, %d vectors, %.0f s" %
                                  (m["module"], m["consts"], d, len(vec), wall))
                for v in vec:
                    b = bytes(json.loads(v[7:-1]))
                    (fields if v[5] == "F" else messages).add(b)
        self.fields, self.messages = sorted(fields), sorted(messages)
        must = {c for j in kit.jobs if j["kind"] == "builds" for c in j["cfgs"]}
        for c in cfgs:
            if self.bins[c][0] is None:
                if c in must:
                    self.rejects.append(dict(cfg=c, what="build", data=b"", expected="the library builds",
                                             got=self.bins[c][1][-2000:]))
                else:
                    self.notes.append("not explored, because it does not build: %s" % c)
        if not must and not any(self.bins[c][0] for c in cfgs):
            raise Broken("the library does not build: %s" % self.bins[cfgs[0]][1][-3000:])
        print("models and builds: %.0f s" % (time.time() - t0), flush=True)
        groups = {}
        for n, j in enumerate(kit.jobs):
            if j["kind"] == "builds":
                continue
            for c in j["cfgs"]:
                if self.bins[c][0] is None:
                    continue
                if j["kind"] == "vectors" or j.get("items") is None:
                    items = self.vector_cases(j.get("limit"), j["kind"] == "vectors" and c in ("all", "compat"), c)
                else:
                    items = self.explored(j, c) if j["kind"] == "explore" else j["items"]
                cases = [("%s%d-%d" % (j["kind"][0], n, k), b) for k, b in enumerate(items)]
                if cases:
                    self.samples.append(dict(cfg=c, kind=j.get("name", j["kind"]),
                                             input=cases[len(cases) // 2][1][:300].decode("latin-1")))
                groups.setdefault((j["kind"] if j["kind"] in ("total", "pure", "copies") else "run",
                                   j.get("spans", False)), []).append((c, cases))
        for (mode, spans), runs in groups.items():
            self.check(mode, spans, runs)

    def check(self, mode, spans, runs):
        t0 = time.time()
        data = {}

        def rec(k):
            c, cases = runs[k]
            return record(self.bins[c][0], mode, cases, c, os.path.join(self.work, "rec-%s-%d" % (mode, k)))
        with ThreadPoolExecutor(CORES) as ex:
            lines = list(ex.map(rec, range(len(runs))))
        for c, cases in runs:
            for i, b in cases:
                data[(c, i)] = b
        if mode == "pure":
            for (c, cases), l in zip(runs, lines):
                l.sort(key=lambda x: json.loads(x)["in"])
                self.verdict(conform(l, os.path.join(self.work, "c"), module="Purity", shards=1,
                                     header={"calls": len(l)}), data, mode, spans)
        elif mode == "copies":
            self.verdict(conform(sum(lines, []), os.path.join(self.work, "c"), module="Copies",
                                 header={"messages": 1}), data, mode, spans)
        elif mode == "total":
            self.verdict(conform(sum(lines, []), os.path.join(self.work, "c"), module="Calls", shards=1,
                                 header={"calls": 1}), data, mode, spans)
        else:
            self.verdict(conform(sum(lines, []), os.path.join(self.work, "c"), spans=spans), data, mode, spans)
        print("%s: %d cases, %.0f s" % (mode, sum(len(x) for x in lines), time.time() - t0), flush=True)

    def verdict(self, res, data, mode, spans):
        rejects, d, g, n = res
        self.states += d
        self.transitions += g
        self.traces += n
        for r in rejects:
            i, cfg, what = r[0], r[1], r[2]
            self.rejects.append(dict(cfg=cfg, what=what, data=data[(cfg, i)], mode=mode, spans=spans,
                                     expected=r[3] if len(r) > 3 else "", got=r[4] if len(r) > 4 else "",
                                     batched=i.startswith("v")))

    # ------------------------------------------------------ single field of a batch
    def narrow(self, r):
        b = r["data"]
        if not r.get("batched") or not b.startswith(gen.REQ):
            return r
        fields = [f for f in self.fields if b"\r\n" + f in b]
        cases = [("n%d" % k, gen.REQ + f + b"\r\n") for k, f in enumerate(fields)]
        l = record(self.bins[r["cfg"]][0], "run", cases, r["cfg"], os.path.join(self.work, "narrow"))
        rej = conform(l, os.path.join(self.work, "n"), spans=r["spans"])[0]
        if not rej:
            return r
        x = rej[0]
        return dict(r, data=dict(cases)[x[0]], what=x[2], expected=x[3], got=x[4])


def write_evidence(kit, run, wall, violations):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(property=kit.pid, tier=kit.tier, seed=kit.seed, level="model_checking",
              coverage=dict(states=run.states, transitions=run.transitions,
                            traces_validated_against_impl=run.traces,
                            samples=run.samples[:12], models=run.notes,
                            configurations=sorted({c for j in kit.jobs for c in j["cfgs"]})),
              wall_s=round(wall, 1), violations=violations,
              assumptions=props.ASSUMPTIONS)
    with open(os.path.join(VERIF, "evidence", kit.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    kit = Kit(pid, tier, seed)
    getattr(props, pid)(kit)
    run = Run(kit)
    run.go()
    known = known_findings(pid)
    unlisted, printed = [], set()
    for r in run.rejects:
        h = hashlib.sha256(r["data"]).hexdigest()
        f = known.get((r["cfg"], h)) or known.get(("*", h))
        if f is None:
            unlisted.append(r)
        elif f not in printed:
            printed.add(f)
            print("KNOWN-FINDING: property=%s %s" % (pid, f))
    unlisted.sort(key=lambda r: (len(r["data"]), r["data"], r["cfg"]))
    os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
    for r in unlisted[:5]:
        try:
            r = run.narrow(r)
        except Exception:
            pass
        h = hashlib.sha256(r["data"] + r["cfg"].encode()).hexdigest()[:12]
        path = os.path.join(BUILD, "replay", "%s-%s.json" % (pid, h))
        with open(path, "w") as f:
            json.dump(dict(property=pid, cfg=r["cfg"], mode=r.get("mode", "build"), spans=r.get("spans", False),
                           what=r["what"], expected=r["expected"], got=r["got"],
                           input_hex=r["data"].hex(), input=r["data"][:4000].decode("latin-1")), f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s [%s] %r" % (r["what"], r["cfg"], r["data"][:300]))
        print("    expected %s" % r["expected"][:400])
        print("    got      %s" % r["got"][:400])
    if len(unlisted) > 5:
        print("%d more cases are rejected" % (len(unlisted) - 5))
    wall = time.time() - t0
    write_evidence(kit, run, wall, len(unlisted))
    shutil.rmtree(run.work, ignore_errors=True)
    for n in run.notes:
        print(n)
    print("%s %s: %d states, %d transitions, %d recorded cases checked, %d rejected, %.0f s"
          % (pid, tier, run.states, run.transitions, run.traces, len(run.rejects), wall))
    return 1 if unlisted else 0


def replay(path):
    r = json.load(open(path))
    cfg = r["cfg"]
    b, err = build([cfg])[cfg]
    if b is None:
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        print(err[-2000:])
        return 1
    if r["mode"] == "build":
        return 0
    work = os.path.join(BUILD, "work-replay")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    data = bytes.fromhex(r["input_hex"])
    l = record(b, r["mode"], [("r", data)], cfg, os.path.join(work, "rec"))
    module = {"run": "Trace", "total": "Calls", "pure": "Purity", "copies": "Copies"}[r["mode"]]
    rej = conform(l, work, spans=r["spans"], module=module,
                  header=None if module == "Trace" else {"calls": 1})[0]
    shutil.rmtree(work, ignore_errors=True)
    for x in rej:
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        print("\n".join(x))
    return 1 if rej else 0


def main():
    try:
        if sys.argv[1] == "setup":
            bad = [c for c, (b, e) in build(["all", "nomime", "none", "compat"]).items() if b is None]
            print("not built: %s" % bad if bad else "built")
            return 1 if bad else 0
        if sys.argv[1] == "replay":
            return replay(sys.argv[2])
        return check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    except Broken as e:
        print("no answer: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
