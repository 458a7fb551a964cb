"""Shared machinery of the checks: building the real code, running monitors on it, verdicts, evidence."""
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
OUT = os.path.join(VERIF, ".out")
TOOLS = os.path.join(VERIF, "tools")
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
WASM_TC = "1.98.0-x86_64-unknown-linux-gnu"
HOST = "x86_64-unknown-linux-gnu"
PYVT = "/opt/veriftools/pyvenv/bin/python3"


class CheckError(Exception):
    """The check could not decide (exit 2)."""


class Violation(Exception):
    def __init__(self, msg, case, replay=None):
        Exception.__init__(self, msg)
        self.msg, self.case, self.replay = msg, case, replay or {}


def env(**extra):
    e = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "GOFLAGS", "CARGO_ENCODED_RUSTFLAGS", "MIRIFLAGS")}
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + os.environ.get("PATH", "")
    e.update(CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0", GOTOOLCHAIN="local", GOPROXY="off",
             GOCACHE=os.path.join(BUILD, "gocache"), LANG="C.UTF-8", LC_ALL="C.UTF-8")
    e.update(extra)
    return e


def sh(cmd, timeout=600, cwd=None, e=None, check=True, cpu=None, **kw):
    """Run a command; a failure or timeout of ours is an error of the check."""
    def limits():
        os.setsid()
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, preexec_fn=limits, **kw)
    try:
        o, r = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, r = p.communicate()
        raise CheckError("timeout after %ds: %s" % (timeout, " ".join(map(str, cmd))[:200]))
    res = subprocess.CompletedProcess(cmd, p.returncode, o.decode("utf-8", "replace"), r.decode("utf-8", "replace"))
    if check and res.returncode != 0:
        raise CheckError("exit %d: %s\n%s%s" % (res.returncode, " ".join(map(str, cmd))[:300], res.stdout[-2000:], res.stderr[-4000:]))
    return res


def new_literals(kind, d):
    """Numbers and strings that the sources in d did not have when tools/known_literals.json was written."""
    return json.loads(sh([PYVT, os.path.join(TOOLS, "mkmodel.py"), "--new", kind, d]).stdout)


def fresh_dir(path):
    if os.path.exists(path):
        shutil.rmtree(path)
    os.makedirs(path)
    return path


class Run:
    """One invocation of one check."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.dir = fresh_dir(os.path.join(BUILD, pid))
        self.out = fresh_dir(os.path.join(OUT, pid))
        self.evaluations = 0
        self.distinct = 0
        self.rules = []
        self.samples = []
        self.observed = {}
        self.exhaustive_parts = []
        self.sampled_parts = []
        self.findings = []
        self.assumptions = []
        os.makedirs(BUILD, exist_ok=True)

    def log(self, *a):
        print("[%s %5.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # -- builds ---------------------------------------------------------------
    def model(self, codegen_dir=REPO + "/codegen"):
        out = os.path.join(self.dir, "model-%s.bin" % hashlib.sha1(codegen_dir.encode()).hexdigest()[:8])
        r = sh([PYVT, os.path.join(TOOLS, "mkmodel.py"), codegen_dir, out, REPO + "/src"], check=False)
        if r.returncode != 0:
            raise CheckError("reference model: " + r.stderr[-1500:])
        return out

    def harness(self, name, lib=REPO, profile="release", toolchain=STABLE, rustflags="", target=None, extra=()):
        """Build the monitors against the library in directory lib; returns the binary."""
        d = os.path.join(self.dir, "b-" + name)
        src = os.path.join(d, "harness")
        os.makedirs(d, exist_ok=True)
        if not os.path.exists(src):
            shutil.copytree(os.path.join(VERIF, "harness"), src, ignore=shutil.ignore_patterns("target", "Cargo.lock"))
            p = os.path.join(src, "Cargo.toml")
            t = open(p).read().replace('path = "/repo"', 'path = "%s"' % lib)
            open(p, "w").write(t)
        cmd = ["cargo", "+" + toolchain, "build", "--offline", "--profile", profile, "--target-dir", os.path.join(d, "t")]
        if target:
            cmd += ["--target", target]
        cmd += list(extra)
        sh(cmd, cwd=src, e=env(RUSTFLAGS=rustflags, RUSTUP_TOOLCHAIN=toolchain), timeout=800)
        pd = "debug" if profile == "dev" else profile
        sub = os.path.join(target, pd) if target else pd
        return os.path.join(d, "t", sub, "vmon")

    # -- running monitors -----------------------------------------------------
    def vmon(self, binary, label, check=None, model=None, scale=100, only=None, e=None, main=True, threads=8, digests=None, stall=60, seed=None):
        """Run all workloads of a check in one build; raises Violation or CheckError."""
        check = check or self.pid
        seed = self.seed if seed is None else seed
        o = os.path.join(self.dir, "r-%s.json" % label)
        j = os.path.join(self.dir, "j-%s" % label)
        base = ["--model", model, "--seed", str(seed), "--tier", self.tier]
        cmd = [binary, "run", check, "--out", o, "--journal", j, "--scale", str(scale), "--threads", str(threads), "--stall", str(stall)] + base
        if only:
            cmd += ["--only", only]
        if digests:
            cmd += ["--digests", digests]
        r = sh(cmd, timeout=3600 * 3 if self.thorough else 800, check=False, e=e)
        if r.returncode != 0:
            self._died(binary, label, check, base, j, r, e)
        d = json.load(open(o))
        v = d["violation"]
        if v and v["harness"]:
            raise CheckError("harness: %s %s" % (v["message"], v["case"]))
        self.observed.setdefault("runs", {})[label] = {"evaluations": d["evaluations"], "distinct_nontrivial": d["distinct_nontrivial"], "counters": d["counters"], "workloads": {w["name"]: w["indices"] for w in d["workloads"]}}
        self.evaluations += d["evaluations"]
        if main:
            self.distinct += d["distinct_nontrivial"]
            self.rules.append(d["rule"])
            self.samples += d["samples"]
            for w in d["workloads"]:
                (self.exhaustive_parts if w["exhaustive"] else self.sampled_parts).append(w["name"])
        if v:
            raise Violation(v["message"], v["case"], {"build": label, "check": check, "workload": v["workload"], "index": v["index"], "seed": seed, "tier": self.tier})
        if d["evaluations"] == 0 or d["distinct_nontrivial"] == 0:
            raise CheckError("nothing observed in run " + label)
        self.log("%s: %d evaluations, %d distinct" % (label, d["evaluations"], d["distinct_nontrivial"]))
        return d

    def _died(self, binary, label, check, base, j, r, e):
        """A run ended by a signal, a sanitizer report or without progress: run what it was doing on its own."""
        rep = [l for l in r.stderr.splitlines() if "ERROR: AddressSanitizer" in l or "WARNING: ThreadSanitizer: data race" in l or "WARNING: ThreadSanitizer: heap-use" in l or "SUMMARY:" in l]
        # 86: the monitor itself gave up on a case that takes long; what a sanitizer says about that exit means nothing
        if rep and r.returncode != 86 and not rep[0].startswith("SUMMARY"):
            raise Violation("sanitizer report: " + " | ".join(rep[:3]), r.stderr[:3000], {"build": label, "check": check, "seed": self.seed, "tier": self.tier})
        names = [l.split()[0] for l in sh([binary, "list", check] + base, e=e).stdout.splitlines()]
        data = open(j, "rb").read() if os.path.exists(j) else b""
        for i in range(0, len(data) - 15, 16):
            w, idx = struct.unpack("<QQ", data[i:i + 16])
            if w == 0:
                continue
            w = names[w - 1]
            # a case takes milliseconds; 90 s of processor time on its own is no progress
            q = sh([binary, "one", check, w, str(idx)] + base, check=False, cpu=90, timeout=700, e=e)
            if q.returncode in (-signal.SIGXCPU, -signal.SIGKILL):
                raise Violation("does not return (90 s of processor time)", "workload %s index %d" % (w, idx), {"build": label, "check": check, "workload": w, "index": idx, "seed": self.seed, "tier": self.tier})
            if q.returncode in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGILL):
                raise Violation("process killed by signal %d: %s" % (-q.returncode, q.stderr.strip()[-300:]), "workload %s index %d" % (w, idx), {"build": label, "check": check, "workload": w, "index": idx, "seed": self.seed, "tier": self.tier})
            if q.returncode == 1:
                t = q.stdout.splitlines()
                raise Violation(t[1] if len(t) > 1 else "?", "\n".join(t[2:]), {"build": label, "check": check, "workload": w, "index": idx, "seed": self.seed, "tier": self.tier})
        raise CheckError("run %s ended with %d and does not repeat: %s %s" % (label, r.returncode, r.stdout[-500:], r.stderr[-1500:]))

    # -- coverage-guided workload ------------------------------------------------
    def fuzz(self, model, seconds=None, workers=8):
        """The part below finds more calls but decides nothing alone: where it cannot run, that is recorded."""
        try:
            self._fuzz(model, seconds, workers)
        except CheckError as e:
            self.observed["coverage_guided"] = {"not_run": str(e)[:2000]}
            self.log("coverage-guided part did not run: " + str(e)[:2000])

    def _fuzz(self, model, seconds=None, workers=8):
        """libFuzzer proposes calls, led by what the library's code compares; the oracle of this check judges them."""
        seconds = seconds or (240 if self.thorough else 16)
        d = os.path.join(self.dir, "fz")
        os.makedirs(d)
        for h in ("harness", "harness_fuzz"):
            shutil.copytree(os.path.join(VERIF, h), os.path.join(d, h), ignore=shutil.ignore_patterns("target", "Cargo.lock"))
        rt = glob.glob("/usr/lib/llvm-18/lib/clang/*/lib/linux/libclang_rt.fuzzer-x86_64.a")
        if not rt:
            raise CheckError("no libFuzzer runtime")
        flags = "-Clink-arg=%s -Clink-arg=-lstdc++ -Clink-arg=-lm" % rt[0]
        sh(["cargo", "+" + STABLE, "build", "--offline", "--release", "--target", HOST, "--target-dir", os.path.join(d, "t"), "--config", "profile.release.overflow-checks=%s" % str(self.pid == "C01").lower()],
           cwd=os.path.join(d, "harness_fuzz"), e=env(RUSTFLAGS=flags, RUSTUP_TOOLCHAIN=STABLE, RUSTC_WRAPPER=os.path.join(TOOLS, "sancov_rustc.sh")), timeout=800)
        b = os.path.join(d, "t", HOST, "release", "vfuzz")
        corpus = fresh_dir(os.path.join(d, "corpus"))
        common = ["-error_exitcode=76", "-timeout=60", "-rss_limit_mb=3000", "-verbosity=1"]

        def one(i):
            w = fresh_dir(os.path.join(d, "w%d" % i))
            rep = os.path.join(w, "report")
            cmd = [b] + common + ["-use_value_profile=%d" % (i % 4 != 3), "-entropic=%d" % (i % 2), "-len_control=%d" % (5, 20, 100)[i % 3], "-max_len=%d" % (96, 256, 512)[i % 3], "-max_total_time=%d" % seconds,
                                  "-print_final_stats=1", "-seed=%d" % (self.seed * 100 + i + 1), "-artifact_prefix=%s/" % w]
            if self.thorough:
                cmd += ["-reload=20", corpus]
            e = env(VFUZZ_MODEL=model, VFUZZ_CHECK=self.pid, VFUZZ_REPORT=rep)
            r = sh(cmd, e=e, check=False, timeout=seconds + 400, cwd=w)
            return r, rep, glob.glob(w + "/*-*"), e

        with concurrent.futures.ThreadPoolExecutor(workers) as ex:
            res = list(ex.map(one, range(workers)))
        execs, cov, ft = 0, [], []
        for r, rep, arts, e in res:
            replay = {"build": "coverage-guided", "seed": self.seed}
            if arts:
                keep = os.path.join(self.out, os.path.basename(arts[0]))
                shutil.copy(arts[0], keep)
                replay["input"] = keep
            if os.path.exists(rep):
                t = open(rep, encoding="utf-8", errors="replace").read().split("\n")
                if t[0] == "harness":
                    raise CheckError("harness: " + " ".join(t[1:])[:1500])
                raise Violation(t[1], "\n".join(t[2:]).strip(), replay)
            if r.returncode != 0:
                if arts:
                    # as in _died: repeat it alone, without the handlers of libFuzzer
                    q = sh([b, "-timeout=100000", "-rss_limit_mb=0", "-handle_segv=0", "-handle_abrt=0", "-handle_bus=0", "-handle_ill=0", "-handle_fpe=0", "-handle_xfsz=0", arts[0]], e=e, check=False, cpu=90, timeout=700)
                    if q.returncode in (-signal.SIGXCPU, -signal.SIGKILL):
                        raise Violation("does not return (90 s of processor time)", "see " + replay["input"], replay)
                    if q.returncode < 0:
                        raise Violation("process killed by signal %d: %s" % (-q.returncode, q.stderr.strip()[-300:]), "see " + replay["input"], replay)
                raise CheckError("coverage-guided run ended with %d and does not repeat: %s" % (r.returncode, r.stderr[-1500:]))
            m = re.search(r"stat::number_of_executed_units:\s*(\d+)", r.stderr)
            # nothing of the library is left to count when all of it was inlined
            c = re.findall(r"DONE\s+cov: (\d+) ft: (\d+)", r.stderr) or [(0, 0)]
            if not m:
                raise CheckError("coverage-guided run says nothing: " + r.stderr[-1500:])
            execs += int(m.group(1))
            cov.append(int(c[-1][0]))
            ft.append(int(c[-1][1]))
        self.evaluations += execs
        self.observed["coverage_guided"] = {"calls_judged": execs, "processes": workers, "seconds_each": seconds, "library_edges_reached": max(cov), "features_reached": max(ft)}
        self.sampled_parts.append("coverage-guided")
        self.log("coverage-guided: %d calls, %d edges, %d features" % (execs, max(cov), max(ft)))

    # -- results --------------------------------------------------------------
    def add(self, n=1, distinct=None):
        self.evaluations += n
        self.distinct += n if distinct is None else distinct

    def evidence(self, violations):
        cov = {
            "evaluations": int(self.evaluations),
            "distinct_nontrivial": int(self.distinct),
            "rule": "; ".join(dict.fromkeys(self.rules)) or "see observed",
            "samples": self.samples[:12] or ["(none)"],
            "observed": self.observed,
        }
        if self.exhaustive_parts:
            cov["workloads_that_enumerated_their_space"] = sorted(set(self.exhaustive_parts))
        if self.sampled_parts:
            cov["sampled_workloads"] = sorted(set(self.sampled_parts))
        if self.exhaustive_parts and not self.sampled_parts:
            cov["exhaustive"] = True
        if self.findings:
            cov["known_findings_seen"] = self.findings
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)

    def report(self, v):
        p = os.path.join(self.out, "violation.json")
        with open(p, "w") as f:
            json.dump({"property": self.pid, "message": v.msg, "case": v.case, "replay": v.replay, "how": "VERIF_SEED=%d python3 /verif/check.py %s --tier %s" % (self.seed, self.pid, self.tier)}, f, indent=1)
        print("property %s does not hold: %s\n  %s" % (self.pid, v.msg, str(v.case)[:1500]))
        print("VIOLATION property=%s replay=%s" % (self.pid, p), flush=True)


def known_findings(pid):
    d = json.load(open(os.path.join(VERIF, "known_findings.json"), encoding="utf-8"))
    return [f for f in d["findings"] if f["property"] == pid]


def main(pid, tier, seed, fn):
    run = Run(pid, tier, seed)
    status = 0
    try:
        try:
            fn(run)
        except Violation as v:
            run.report(v)
            run.evidence(1)
            return 1
        if run.evaluations == 0:
            raise CheckError("nothing observed")
        run.evidence(0)
        print("OK property %s held on %d evaluations (%d distinct non-trivial) in %.1f s" % (pid, run.evaluations, run.distinct, time.time() - run.t0))
    except CheckError as e:
        print("ERROR check %s could not decide: %s" % (pid, e), file=sys.stderr)
        status = 2
    finally:
        shutil.rmtree(run.dir, ignore_errors=True)
    return status
