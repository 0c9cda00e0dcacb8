#!/usr/bin/env python3
"""Decides one property of treena: check.py ID [quick|thorough]

Builds the harnesses of the property together with /repo's current source to LLVM IR, runs the
symbolic executor `tsym` on each of them (which asks the SAT solver), and replays what it finds on
the real code. See DESIGN.md.
"""
import fcntl
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(ROOT, "build")
HARNESS = os.path.join(ROOT, "harness")
ENGINE = os.path.join(BUILD, "engine", "release", "tsym")
CORES = os.cpu_count() or 4
T0 = time.time()


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


def env(flags, target, assertions=True):
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = target
    e["RUSTFLAGS"] = flags
    e.pop("CARGO_ENCODED_RUSTFLAGS", None)
    b = "true" if assertions else "false"
    e["CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS"] = b
    e["CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS"] = b
    e["CARGO_PROFILE_NATIVE_DEBUG_ASSERTIONS"] = b
    e["CARGO_PROFILE_NATIVE_OVERFLOW_CHECKS"] = b
    e["CARGO_TERM_COLOR"] = "never"
    return e


class Lock:
    """One build per target directory at a time."""

    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_engine():
    with Lock("engine"):
        r = subprocess.run(
            ["cargo", "build", "--release", "--offline"],
            cwd=os.path.join(ROOT, "engine"),
            env=env("", os.path.join(BUILD, "engine")),
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise SystemExit("cannot build the engine\n" + r.stdout)


# How the code under test is compiled: (public API only to build the pre-states?, debug assertions?)
CONFIGS = {"raw": (False, True), "rawr": (False, False), "api": (True, True), "apir": (True, False)}


def build_ir(prop, config):
    """LLVM IR of the harnesses of a property; None if it does not compile."""
    api, assertions = CONFIGS[config]
    flags = '--cfg sym --cfg check="%s" -C no-vectorize-loops -C no-vectorize-slp -C relocation-model=static -C debuginfo=1' % prop
    if not api:
        flags += " --cfg treena_verif --cfg rawbuild"
    target = os.path.join(BUILD, "ir-" + config)
    deps = os.path.join(target, "release", "deps")
    with Lock("ir-" + config):
        # What is left from other properties; and a fresh build writes the IR.
        for d in (deps, os.path.join(target, "release", ".fingerprint")):
            for x in os.listdir(d) if os.path.isdir(d) else []:
                if re.match(r"(lib)?harness[-.]", x):
                    x = os.path.join(d, x)
                    shutil.rmtree(x) if os.path.isdir(x) else os.remove(x)
        r = subprocess.run(
            ["cargo", "rustc", "--release", "--lib", "--offline", "--crate-type", "staticlib", "--", "--emit=llvm-ir"],
            cwd=HARNESS, env=env(flags, target, assertions), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            return None, r.stdout
        dst = os.path.join(BUILD, "run", "%s-%s-%d.ll" % (prop, config, os.getpid()))
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        ir = [x for x in os.listdir(deps) if re.match(r"harness.*\.ll$", x)]
        if len(ir) != 1:
            return None, "no IR in " + deps
        shutil.move(os.path.join(deps, ir[0]), dst)
    return dst, ""


class Native:
    """The harnesses compiled for execution, to replay inputs on the real code."""

    def __init__(self, prop):
        self.prop = prop
        self.bins = {}
        self.lock = threading.Lock()

    def get(self, kind):
        with self.lock:
            if kind in self.bins:
                return self.bins[kind]
        assertions = not kind.endswith("r")
        raw = kind.startswith("raw")
        tries = ["--cfg treena_verif --cfg rawbuild"] if raw else ["--cfg treena_verif", ""]
        tries = ['%s --cfg check="%s"' % (x, self.prop) for x in tries]
        out = None
        for flags in tries:
            target = os.path.join(BUILD, "native-" + kind)
            with Lock("native-" + kind):
                r = subprocess.run(
                    ["cargo", "build", "--profile", "native", "--bin", "replay", "--offline"],
                    cwd=HARNESS, env=env(flags, target, assertions), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode == 0:
                    out = os.path.join(BUILD, "run", "replay-%s-%d" % (kind, os.getpid()))
                    os.makedirs(os.path.dirname(out), exist_ok=True)
                    shutil.copy(os.path.join(target, "native", "replay"), out)
                    break
        with self.lock:
            self.bins[kind] = out
        return out

    def run(self, kind, harness, inputs, verbose=False):
        """('held'|'failed'|'assumption'|'error', text)"""
        b = self.get(kind)
        if b is None:
            return "error", "the harnesses do not compile natively"
        cmd = [b, harness, inputs] + (["-v"] if verbose else [])

        def limit():
            resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=20, preexec_fn=limit, errors="replace")
        except subprocess.TimeoutExpired:
            return "failed", "does not terminate"
        if r.returncode == 0:
            return "held", r.stdout
        if r.returncode == 77:
            return "assumption", r.stdout
        if r.returncode == 10:
            return "failed", r.stdout
        if r.returncode < 0 or r.returncode in (101, 134, 139):
            return "failed", r.stdout + "\n(ended with status %d)" % r.returncode
        return "error", r.stdout


def inputs_text(d):
    return ",".join("%s=%s" % (k, v) for k, v in sorted(d.items(), key=lambda kv: int(kv[0])) if int(v) != 0)


def tsym(ll, harness, seconds, mem_gb, extra=()):
    out = ll[:-3] + "-" + harness + ".json"
    if os.path.exists(out):
        os.unlink(out)

    def limit():
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    cmd = [ENGINE, "--ll", ll, "--harness", harness, "--time", str(seconds), "--sat-time", str(seconds), "--out", out, *extra]
    t = time.time()
    try:
        subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=seconds + 30, preexec_fn=limit)
    except subprocess.TimeoutExpired:
        pass
    try:
        with open(out) as f:
            d = json.load(f)
        os.unlink(out)
    except (OSError, ValueError):
        d = {"harness": harness, "result": "error", "error": "the executor ended without a result (time or memory)", "violations": []}
    d["wall"] = round(time.time() - t, 2)
    return d


class Check:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.native = Native(prop)
        self.results = []
        self.notes = []
        self.violations = []
        self.unconfirmed = []
        self.known = [k for k in plan.known_findings() if k["property"] == prop]
        self.known_seen = []
        self.validated = 0
        self.validated_samples = []
        self.mismatch = []
        self.inconclusive = []
        self.smt = []

    # -- one batch of harnesses ---------------------------------------------------------------
    def batch(self, jobs):
        """jobs: [(config, harness)]. Returns the engine's results."""
        configs = []
        for c, _ in jobs:
            if c not in configs:
                configs.append(c)
        irs = {}

        def ir(c):
            irs[c] = build_ir(self.prop, c)

        with ThreadPoolExecutor(4) as ex:
            list(ex.map(ir, configs))
        bad = [c for c in configs if irs[c][0] is None]
        for c in bad:
            log("the harnesses do not compile in the configuration", c)
        log("IR built:", ", ".join(configs))
        cap = plan.QUICK_CAP if self.tier == "quick" else plan.THOROUGH_CAP
        mem = 7 if self.tier == "quick" else 12
        jobs = [j for j in jobs if irs[j[0]][0]]
        # The expensive ones first.
        cost = plan.costs()
        jobs.sort(key=lambda j: -cost.get(j[1] + "@" + j[0], cost.get(j[1], 5)))

        def one(j):
            c, h = j
            left = plan.DEADLINE[self.tier] - (time.time() - T0)
            if left < 10:
                r = {"harness": h, "result": "error", "error": "not started: out of time", "violations": [], "wall": 0}
            else:
                r = tsym(irs[c][0], h, max(5, int(min(cap, left))), mem, plan.H[h]["opts"])
            r["config"] = c
            log("%-22s %-5s %s %s %.1f s" % (h, c, r["result"], r.get("error", ""), r["wall"]))
            return r

        with ThreadPoolExecutor(CORES) as ex:
            res = list(ex.map(one, jobs))
        self.irs = irs
        return res, {c: irs[c][1] for c in bad}

    def judge(self, res):
        """Sorts results into confirmed violations, known findings, unconfirmed and inconclusive."""
        redo = []
        for r in res:
            h, c = r["harness"], r["config"]
            kinds = ["api", "apir"] if not c.endswith("r") else ["apir", "api"]
            if r["result"] == "violation":
                for v in r["violations"]:
                    labels = [x[0] for x in v["labels"]]
                    k = [k for k in self.known if h.startswith(k["harness"]) and set(labels) <= set(k["labels"])]
                    inp = inputs_text(v["inputs"])
                    ok = None
                    for kind in kinds:
                        s, text = self.native.run(kind, h, inp)
                        if s == "failed":
                            ok = (kind, text)
                            break
                    if ok is None:
                        log("not reproduced natively:", h, c, labels, inp)
                        self.unconfirmed.append({"harness": h, "config": c, "labels": labels, "inputs": inp})
                        redo.append(h)
                    elif k:
                        for x in k:
                            if x not in self.known_seen:
                                self.known_seen.append(x)
                    else:
                        self.violations.append({"harness": h, "config": c, "labels": labels, "inputs": inp, "kind": ok[0], "text": ok[1]})
            elif r["result"] == "error":
                self.inconclusive.append({"harness": h, "config": c, "error": r.get("error", "")[:300]})
                redo.append(h)
            else:
                vac = [l for l, a in r["covers"].items() if a == "unsatisfiable" and not plan.may_miss(h, l)]
                if vac:
                    self.inconclusive.append({"harness": h, "config": c, "error": "not reached: " + "; ".join(vac)})
                    redo.append(h)
        return redo

    def validate(self, res):
        """Replays models of the explored states on the real code: both must agree."""
        todo = []
        for r in res:
            if r["result"] == "ok":
                for m in r.get("models", [])[: 3 if self.tier == "quick" else 8]:
                    todo.append((r["harness"], r["config"], inputs_text(m)))
        def one(t):
            h, c, inp = t
            kind = "apir" if c.endswith("r") else "api"
            return t, self.native.run(kind, h, inp)
        with ThreadPoolExecutor(CORES) as ex:
            for (h, c, inp), (s, text) in ex.map(one, todo):
                if s == "held":
                    self.validated += 1
                    if len(self.validated_samples) < 4:
                        self.validated_samples.append({"harness": h, "inputs": inp, "native": text.split("\n")[:4]})
                elif s == "failed":
                    kind = ("rawr" if c.endswith("r") else "raw") if c.startswith("raw") else ("apir" if c.endswith("r") else "api")
                    if self.native.run(kind, h, inp)[0] == "failed":
                        self.mismatch.append({"harness": h, "config": c, "inputs": inp, "text": text})
                    else:
                        self.notes.append("a sample of %s fails only with the pre-state built through public operations: %s" % (h, inp))

    # -- the whole check ----------------------------------------------------------------------
    def run(self):
        build_engine()
        p = plan.PROPS[self.prop]
        jobs = plan.jobs(self.prop, self.tier)
        # The native build is needed for replays; it runs beside the rest.
        nt = threading.Thread(target=lambda: [self.native.get(k) for k in ("api", "apir")])
        nt.start()
        res, bad = self.batch(jobs)
        nt.join()
        self.results += res
        redo = self.judge(res)
        self.validate(res)
        if bad or self.unconfirmed or (self.inconclusive and not self.violations):
            if any(c in bad for c in ("api", "apir")):
                print("the harnesses do not compile with the current source:\n" + list(bad.values())[0][-3000:])
                self.evidence()
                return 2
        if not self.violations and (bad or redo):
            # The hooks do not fit the current source, or the states they make do not mean what they
            # should: decide with pre-states that are built through the public operations only.
            self.notes.append("decided with pre-states built through public operations: " + (
                "the hooks do not compile" if bad else "results with the raw pre-states were not confirmed: " + ", ".join(sorted(set(redo)))))
            log(self.notes[-1])
            names = plan.fallback(self.prop, self.tier)
            res2, bad2 = self.batch([("api", h) for h in names])
            if bad2:
                print("the harnesses do not compile with the current source:\n" + list(bad2.values())[0][-3000:])
                self.evidence()
                return 2
            first_unconfirmed, first_inconclusive = self.unconfirmed, self.inconclusive
            self.unconfirmed, self.inconclusive = [], []
            self.results += res2
            self.judge(res2)
            self.validate(res2)
            self.notes.append("unconfirmed with raw pre-states: %s" % json.dumps(first_unconfirmed)[:2000])
            self.notes.append("inconclusive with raw pre-states: %s" % json.dumps(first_inconclusive)[:2000])
        for m in self.mismatch:
            self.violations.append({"harness": m["harness"], "config": m["config"], "labels": ["(found by the replay of a sample)"], "inputs": m["inputs"], "kind": "apir" if m["config"].endswith("r") else "api", "text": m["text"]})
        if self.tier == "thorough" and not self.violations:
            self.crosscheck()
        for k in self.known_seen:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        self.evidence()
        if self.violations:
            path = self.write_replay()
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        decided = [r for r in self.results if r["result"] != "error"]
        if self.unconfirmed:
            print("a counterexample of the solver does not reproduce on the real code: %s" % self.unconfirmed[:3])
            return 2
        if not decided or len(self.inconclusive) * 2 > len(self.results):
            print("no answer: %s" % self.inconclusive[:3])
            return 2
        for i in self.inconclusive:
            print("inconclusive (not part of what was decided): %s" % i)
        n = sum(sum(r.get("obligations", {}).values()) for r in decided)
        print("%s holds: %d harnesses, %d obligations, %d solver queries, %.1f s" % (
            self.prop, len(decided), n, sum(r.get("queries", 0) for r in decided), time.time() - T0))
        return 0

    def crosscheck(self):
        """The last query of the smallest harness, decided by two other solvers."""
        done = [r for r in self.results if r["result"] == "ok" and r.get("max_clauses", 0) > 0]
        done.sort(key=lambda r: r["total_time"])
        for r in done[:2]:
            ll = self.irs.get(r["config"], (None,))[0]
            if not ll:
                continue
            f = ll[:-3] + ".smt2"
            tsym(ll, r["harness"], 200, 12, ["--smt2", f] + plan.H[r["harness"]]["opts"])
            if not os.path.exists(f):
                continue
            for s in (["z3-new", "-T:150", f], ["cvc5", "--tlimit=150000", f]):
                t = time.time()
                try:
                    o = subprocess.run(s, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200).stdout.strip().split("\n")[0]
                except (subprocess.TimeoutExpired, OSError) as e:
                    o = "timeout"
                self.smt.append({"harness": r["harness"], "solver": s[0], "answer": o, "s": round(time.time() - t, 1)})
                log("cross-check", self.smt[-1])
                if o == "sat":
                    self.inconclusive.append({"harness": r["harness"], "config": r["config"], "error": "the solvers disagree (%s)" % s[0]})
            os.unlink(f)

    def write_replay(self):
        d = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, self.prop + ".txt")
        with open(path, "w") as f:
            f.write("Counterexamples for %s: %s\n\n" % (self.prop, plan.PROPS[self.prop]["title"]))
            for v in self.violations[:8]:
                f.write("harness %s, violated: %s\n" % (v["harness"], "; ".join(v["labels"])))
                f.write("inputs %s\n" % v["inputs"])
                s, text = self.native.run(v["kind"], v["harness"], v["inputs"], verbose=True)
                f.write("on the real code (%s): %s\n%s\n" % (v["kind"], s, text))
                f.write("to repeat: python3 %s/bin/replay.py %s %s %s '%s'\n\n" % (ROOT, self.prop, v["kind"], v["harness"], v["inputs"]))
        return path

    def evidence(self):
        ok = [r for r in self.results if r["result"] in ("ok", "violation")]
        kinds = {}
        for r in ok:
            for k, n in r.get("obligations", {}).items():
                kinds[k] = kinds.get(k, 0) + n
        fun = sorted({f for r in ok for f in r.get("source_functions", []) if not f.startswith("harness::")})
        e = {
            "property": self.prop,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "model_checking",
            "coverage": {
                "states": sum(r.get("forks", 0) + r.get("merges", 0) for r in ok),
                "transitions": sum(r.get("steps", 0) for r in ok),
                "traces_validated_against_impl": self.validated,
                "samples": self.validated_samples or [{"harness": r["harness"], "inputs": "none"} for r in ok[:1]],
                "explanation": "states: merged symbolic states (each stands for all concrete states of the inputs that reach it); "
                "transitions: LLVM instructions executed symbolically; every obligation was decided by the SAT solver for all inputs "
                "within the bounds; samples are models of the solver replayed on the real code.",
                "obligations": sum(kinds.values()),
                "obligation_kinds": kinds,
                "obligation_labels": sorted({l for r in ok for l in r.get("obligation_labels", [])})[:200],
                "queries": sum(r.get("queries", 0) for r in ok),
                "queries_unsat": sum(r.get("query_unsat", 0) for r in ok),
                "queries_sat": sum(r.get("query_sat", 0) for r in ok),
                "solver_time_s": round(sum(r.get("solver_time", 0) for r in ok), 2),
                "largest_query_clauses": max([r.get("max_clauses", 0) for r in ok] or [0]),
                "harnesses": [
                    {"name": r["harness"], "config": r["config"], "bound": plan.bound(r["harness"]), "result": r["result"],
                     "obligations": sum(r.get("obligations", {}).values()), "queries": r.get("queries", 0), "wall_s": r["wall"]}
                    for r in self.results],
                "inconclusive": self.inconclusive,
                "unconfirmed": self.unconfirmed,
                "functions_encoded": fun,
                "reached": sorted({l for r in ok for l, a in r.get("covers", {}).items() if a == "satisfied"}),
                "cross_checks": self.smt,
                "notes": self.notes,
                "known_findings": [k["what"] for k in self.known_seen],
            },
            "assumptions": plan.ASSUMPTIONS,
            "wall_s": round(time.time() - T0, 1),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        tmp = os.path.join(ROOT, "evidence", self.prop + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(e, f, indent=1)
        os.replace(tmp, os.path.join(ROOT, "evidence", self.prop + ".json"))

    def cleanup(self):
        d = os.path.join(BUILD, "run")
        if os.path.isdir(d):
            for n in os.listdir(d):
                if re.search(r"-%d(\.|-|$)" % os.getpid(), n):
                    os.unlink(os.path.join(d, n))


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in plan.PROPS:
        raise SystemExit("usage: check.py ID [quick|thorough]")
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = Check(sys.argv[1], tier)
    try:
        rc = c.run()
    finally:
        c.cleanup()
    sys.exit(rc)


if __name__ == "__main__":
    main()
