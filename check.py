#!/usr/bin/env python3
"""Decide one property: ./check.py R01 [--tier quick|thorough] [--seed N] [--replay FILE]

Exit 0: it held on everything explored. Exit 1 and a VIOLATION line: it's
broken. Anything else is a failure of the check itself.
"""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
HARNESS = os.path.join(HERE, "harness")
sys.path.insert(0, HERE)
JAVA = ["java", "-XX:+UseParallelGC", "-Xss256m", "-cp",
        "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"]
ALWAYS = {"panic", "hang", "abort"}


class ToolError(Exception):
    pass


class Violation(Exception):
    pass


class Context:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.out = os.path.join(HERE, "out", prop)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        self.bin = os.path.join(HARNESS, "target", "debug", "rfh")
        self.lock = threading.Lock()
        self.states = 0
        self.transitions = 0
        self.replayed = 0
        self.recorded = 0
        self.comparisons = 0
        self.parts = {}
        self.samples = []
        self.violations = []   # dicts
        self.known = []
        self.errors = []
        self.limit = 600 if tier == "quick" else 6 * 3600

    def path(self, *names):
        return os.path.join(self.out, *names)


def build():
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    env.pop("CARGO_TARGET_DIR", None)
    p = subprocess.run(["cargo", "build", "--offline", "--bins"], cwd=HARNESS, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("the harness doesn't build:\n" + p.stdout[-4000:])


def tlc(ctx, module, cfg, name, env=None, extra=(), workers=None):
    """Run TLC; returns (states, distinct, printed JSON values as raw lines file)."""
    meta = ctx.path(name + ".states")
    log = ctx.path(name + ".log")
    cmd = JAVA[:1] + ["-Xmx6g"] + JAVA[1:] + ["tlc2.TLC", "-config", os.path.join(SPEC, cfg), "-workers", str(workers or 8),
           "-metadir", meta, "-seed", str(ctx.seed), *extra, os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    vectors = ctx.path(name + ".ndjson")
    tail = []
    generated = distinct = None
    finished = False
    error = []
    start = time.time()
    p = subprocess.Popen(cmd, cwd=ctx.out, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    timer = threading.Timer(ctx.limit, p.kill)
    timer.start()
    printed = 0
    with open(vectors, "w") as v, open(log, "w") as lg:
        for line in p.stdout:
            if line.startswith('"'):
                v.write(json.loads(line) + "\n")
                printed += 1
                continue
            lg.write(line)
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
            if m:
                generated, distinct = int(m.group(1)), int(m.group(2))
            m = re.match(r"The number of states generated: (\d+)", line)
            if m:
                generated = distinct = int(m.group(1))
            if line.startswith("Error") or error:
                error.append(line)
            if line.startswith("Model checking completed. No error") or line.startswith("Simulation complete") :
                finished = True
    p.wait()
    timer.cancel()
    shutil.rmtree(meta, ignore_errors=True)
    if error or generated is None or not (finished or "-simulate" in extra):
        raise ToolError("TLC failed on %s (%s), see %s\n%s" % (module, cfg, log, "".join(error[:40])))
    return {"generated": generated, "distinct": distinct, "printed": printed, "file": vectors,
            "wall": round(time.time() - start, 1)}


def rfh(ctx, args, name, env=None):
    log = ctx.path(name + ".rfh.log")
    with open(log, "w") as lg:
        try:
            p = subprocess.run([ctx.bin] + args, cwd=ctx.out, stdout=lg, stderr=subprocess.STDOUT, timeout=ctx.limit,
                               env=dict(os.environ, **(env or {})))
        except subprocess.TimeoutExpired:
            raise ToolError("the harness timed out: %s" % " ".join(args))
    return p.returncode


def add_violation(ctx, part, field, vector, expected, observed):
    with ctx.lock:
        ctx.violations.append({"property": ctx.prop, "part": part, "field": field, "vector": vector,
                               "expected": expected, "observed": observed})


class G:
    """Model check a module, and replay every behaviour it prints into the code."""

    def __init__(self, module, kind, fields=None, name=None, cfg=None, extra=(), tiers=("quick", "thorough"), env=None):
        self.module, self.kind, self.fields, self.extra, self.tiers, self.env = module, kind, fields, extra, tiers, env
        self.cfg = cfg or module
        self.name = name or "g-" + self.cfg

    def run(self, ctx):
        if ctx.tier not in self.tiers:
            return
        cfg = "%s.%s.cfg" % (self.cfg, ctx.tier)
        env = self.env(ctx) if self.env else None
        t = tlc(ctx, self.module, cfg, self.name, extra=self.extra, env=env)
        if t["printed"] == 0:
            raise ToolError("%s printed no behaviours" % cfg)
        report = self.replay(ctx, t["file"], self.name)
        with ctx.lock:
            ctx.states += t["distinct"]
            ctx.transitions += t["generated"]
            ctx.replayed += report["replayed"]
            ctx.comparisons += report["compared"]
            ctx.parts[self.name] = {"binding": "replay of generated behaviours", "module": self.module, "config": cfg,
                                    "states": t["distinct"], "transitions": t["generated"], "behaviours_replayed": report["replayed"],
                                    "comparisons": report["compared"], "tlc_s": t["wall"]}
            ctx.samples += [{"part": self.name, "behaviour": s} for s in report["samples"][:2]]
        if not report["mismatches"]:
            os.remove(t["file"])

    def replay(self, ctx, vectors, name):
        out = ctx.path(name + ".report.json")
        rc = rfh(ctx, ["replay", self.kind, vectors, out], name)
        if rc != 0:
            cur = ctx.path(name + ".current")
            env_rc = self.crash(ctx, vectors, out, cur)
            if env_rc < 0 and env_rc != -9:
                vector = json.load(open(cur))
                add_violation(ctx, self.name, "abort", vector, "no abort", "the process was ended by signal %d" % -env_rc)
                return {"replayed": 0, "compared": 0, "mismatches": [1], "samples": []}
            raise ToolError("the harness failed (%d) when replaying %s, see %s" % (rc, vectors, ctx.path(name + ".rfh.log")))
        report = json.load(open(out))
        for m in report["mismatches"]:
            if self.fields is None or m["field"] in self.fields or m["field"] in ALWAYS:
                add_violation(ctx, self.name, m["field"], m["vector"], m["expected"], m["observed"])
        with ctx.lock:
            ctx.known += report.get("known", [])
        return report

    def crash(self, ctx, vectors, out, cur):
        with open(os.devnull, "w") as n:
            return subprocess.run([ctx.bin, "replay", self.kind, vectors, out], cwd=ctx.out, stdout=n, stderr=n,
                                  env=dict(os.environ, RFH_CURRENT=cur), timeout=ctx.limit).returncode


class V:
    """Record executions of the code, and validate them against a module."""

    def __init__(self, module, kind, counts, fields=None, name=None, chunk=20000, env=None):
        self.module, self.kind, self.counts, self.fields, self.env = module, kind, counts, fields, env
        self.name = name or "v-" + module
        self.chunk = chunk

    def run(self, ctx):
        trace = ctx.path(self.name + ".trace.ndjson")
        count = self.counts[0 if ctx.tier == "quick" else 1]
        chunk = self.chunk
        done = 0
        n = 0
        total = {"states": 0, "transitions": 0, "lines": 0, "wall": 0.0}
        while done < count:
            c = min(chunk, count - done)
            rc = rfh(ctx, ["record", self.kind, str(ctx.seed + 7919 * n), str(c), trace], self.name, self.env(ctx) if self.env else None)
            if rc != 0:
                if rc < 0 and rc != -9:
                    add_violation(ctx, self.name, "abort", {"record": self.kind, "seed": ctx.seed + 7919 * n, "count": c},
                                  "no abort", "the process was ended by signal %d" % -rc)
                    return
                if rc == 3:
                    add_violation(ctx, self.name, "hang", {"record": self.kind, "seed": ctx.seed + 7919 * n, "count": c},
                                  "an end", "no progress")
                    return
                raise ToolError("the harness failed (%d) when recording %s, see %s" % (rc, self.kind, ctx.path(self.name + ".rfh.log")))
            self.validate(ctx, trace, total)
            done += c
            n += 1
            if ctx.violations:
                break
        with ctx.lock:
            ctx.states += total["states"]
            ctx.transitions += total["transitions"]
            ctx.recorded += total["lines"]
            ctx.parts[self.name] = {"binding": "validation of recorded traces", "module": self.module, "states": total["states"],
                                    "transitions": total["transitions"], "trace_lines": total["lines"], "tlc_s": round(total["wall"], 1)}

    def validate(self, ctx, trace, total):
        lines = [l for l in open(trace)]
        if not lines:
            raise ToolError("nothing was recorded")
        t = tlc(ctx, self.module, self.module + ".cfg", self.name, env=dict(self.env(ctx) if self.env else {}, TRACE=trace))
        judged = t["distinct"]
        if judged < len(lines):
            raise ToolError("only %d states for %d recorded lines" % (judged, len(lines)))
        total["states"] += t["distinct"]
        total["transitions"] += t["generated"]
        total["lines"] += len(lines)
        total["wall"] += t["wall"]
        with ctx.lock:
            if len([s for s in ctx.samples if s["part"] == self.name]) < 2:
                ctx.samples.append({"part": self.name, "trace_line": shorten(json.loads(lines[len(lines) // 2]))})
        for l in open(t["file"]):
            m = json.loads(l)
            for f in m["fields"]:
                if self.fields is None or f in self.fields or f in ALWAYS:
                    add_violation(ctx, self.name, f, json.loads(lines[m["mismatch"] - 1]), m["expected"], "see the recorded line")


class M:
    """Model check a module, without a binding of its own."""

    def __init__(self, module, name=None, cfg=None, extra=()):
        self.module, self.cfg, self.extra = module, cfg or module, extra
        self.name = name or "m-" + self.cfg

    def run(self, ctx):
        if ctx.tier not in self.tiers:
            return
        cfg = "%s.%s.cfg" % (self.cfg, ctx.tier)
        if not os.path.exists(os.path.join(SPEC, cfg)):
            cfg = self.cfg + ".cfg"
        t = tlc(ctx, self.module, cfg, self.name, extra=self.extra)
        with ctx.lock:
            ctx.states += t["distinct"]
            ctx.transitions += t["generated"]
            ctx.parts[self.name] = {"binding": "none, design only", "module": self.module, "config": cfg, "states": t["distinct"],
                                    "transitions": t["generated"], "tlc_s": t["wall"]}


class K:
    """Replay the cases of findings that are not repaired."""
    module = "known-findings.txt"

    def __init__(self, kind):
        self.kind = kind
        self.name = "k-" + kind

    def run(self, ctx):
        out = ctx.path(self.name + ".report.json")
        rc = rfh(ctx, ["known", self.kind, out], self.name)
        if rc != 0:
            raise ToolError("the harness failed (%d) on the known findings of %s" % (rc, self.kind))
        report = json.load(open(out))
        for m in report["mismatches"]:
            add_violation(ctx, self.name, m["field"], m["vector"], m["expected"], m["observed"])
        with ctx.lock:
            ctx.known += report["known"]


def shorten(v, limit=2000):
    s = json.dumps(v)
    return v if len(s) <= limit else {"shortened": s[:limit]}


def known_findings(prop):
    found = {}
    with open(os.path.join(HERE, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) (\S+) (.*)", line)
            if m and m.group(1) == prop:
                found[m.group(2)] = m.group(3)
    return found


def main():
    from checks import CHECKS
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    args = ap.parse_args()
    os.environ["RFH_TIER"] = args.tier
    start = time.time()
    ctx = Context(args.property, args.tier, args.seed)
    check = CHECKS[args.property]
    try:
        build()
        if args.replay:
            case = json.load(open(args.replay))
            part = [p for p in check["parts"] if p.name == case["part"]][0]
            if isinstance(part, G):
                f = ctx.path("replayed.ndjson")
                with open(f, "w") as o:
                    o.write(json.dumps(case["vector"]) + "\n")
                part.replay(ctx, f, "replay")
            else:
                f = ctx.path("replayed.ndjson")
                with open(f, "w") as o:
                    o.write(json.dumps(case["vector"]) + "\n")
                part.validate(ctx, f, {"states": 0, "transitions": 0, "lines": 0, "wall": 0})
            for v in ctx.violations:
                print("VIOLATION property=%s replay=%s" % (ctx.prop, os.path.abspath(args.replay)))
                print(json.dumps(v, indent=1)[:4000])
                sys.exit(1)
            sys.exit(0)
        threads = []

        def run(part):
            try:
                part.run(ctx)
            except Exception as e:  # reported below
                ctx.errors.append((part.name, e))

        for part in check["parts"]:
            t = threading.Thread(target=run, args=(part,))
            t.start()
            threads.append(t)
            if ctx.tier == "thorough":
                t.join()
        for t in threads:
            t.join()
        if "require" in check and not ctx.errors and not ctx.violations:
            check["require"](ctx)
    except ToolError as e:
        print("ERROR: %s" % e)
        sys.exit(2)

    listed = known_findings(ctx.prop)
    reported = []
    for v in ctx.violations:
        reported.append(v)
    for k in sorted(set(x["key"] for x in ctx.known if x["property"] == ctx.prop)):
        if k in listed:
            print("KNOWN-FINDING: property=%s %s" % (ctx.prop, listed[k]))
        else:
            case = [x for x in ctx.known if x["key"] == k][0]
            reported.append({"property": ctx.prop, "part": case.get("part", "?"), "field": "unlisted finding " + k,
                             "vector": case["vector"], "expected": case["expected"], "observed": case["observed"]})

    coverage = {
        "states": ctx.states,
        "transitions": ctx.transitions,
        "traces_validated_against_impl": ctx.replayed + ctx.recorded,
        "behaviours_replayed": ctx.replayed,
        "trace_lines_validated": ctx.recorded,
        "comparisons": ctx.comparisons,
        "parts": ctx.parts,
        "samples": [shorten(s) for s in ctx.samples] or ["none"],
    }
    evidence = {
        "property": ctx.prop,
        "tier": ctx.tier,
        "seed": ctx.seed,
        "level": "model_checking",
        "coverage": coverage,
        "assumptions": check.get("assumptions", []),
        "wall_s": round(time.time() - start, 1),
        "violations": len(reported),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    if reported:
        seen = {}
        for v in reported:
            seen.setdefault((v["part"], v["field"]), []).append(v)
        for n, ((part, field), vs) in enumerate(sorted(seen.items())):
            path = ctx.path("violation-%d.json" % n)
            with open(path, "w") as f:
                json.dump(vs[0], f)
            print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
            print("  part %s, field %s, %d cases; the first one:" % (part, field, len(vs)))
            print("  expected %s" % json.dumps(vs[0]["expected"])[:600])
            print("  observed %s" % json.dumps(vs[0]["observed"])[:600])
        sys.exit(1)
    if ctx.errors:
        for name, e in ctx.errors:
            print("ERROR in %s: %s" % (name, e))
        sys.exit(2)
    print("%s held: %d states, %d behaviours replayed, %d trace lines validated, %.1f s" %
          (ctx.prop, ctx.states, ctx.replayed, ctx.recorded, time.time() - start))
    sys.exit(0)


if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    main()
