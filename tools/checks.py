"""What each check runs.  CHECKS: property id -> function of a driver.Run."""
import concurrent.futures
import glob
import hashlib
import json
import os
import random
import re
import shutil
import subprocess

from driver import HOST, NIGHTLY, PYVT, REPO, STABLE, TOOLS, VERIF, WASM_TC, CheckError, Violation, env, known_findings, new_literals, sh
import codegen

NODE = shutil.which("node") or "/usr/bin/node"


def parallel(jobs, workers=8):
    """Run thunks in parallel; all finish, the first exception (in the order of the jobs) is raised."""
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        fs = [ex.submit(j) for j in jobs]
        concurrent.futures.wait(fs)
    for kind in (Violation, Exception):
        for f in fs:
            if isinstance(f.exception(), kind):
                raise f.exception()
    return [f.result() for f in fs]


def native(run):
    """The monitors of this property in an optimised build."""
    m, b = run.model(), run.harness("rel")
    return m, b, run.vmon(b, "release", model=m)


def explored(run):
    """The same, then led by coverage of the library."""
    m, b, _ = native(run)
    run.fuzz(m)


# ------------------------------------------------------------------------------------------------
def c01(run):
    m = run.model()
    builds = parallel([
        lambda: run.harness("rel"),
        lambda: run.harness("chk", profile="checked"),
        lambda: run.harness("asan", profile="checked", toolchain=NIGHTLY, rustflags="-Zsanitizer=address", target=HOST),
    ])
    run.vmon(builds[1], "checked", model=m)
    run.vmon(builds[0], "release", model=m, main=False)
    run.vmon(builds[2], "asan", model=m, main=False, scale=100 if run.thorough else 30, e=env(ASAN_OPTIONS="halt_on_error=1:detect_leaks=0"))
    run.fuzz(m)
    run.assumptions.append("a case that uses 90 s of processor time on its own is taken not to return (cases take milliseconds)")


def c05(run):
    m, b, _ = native(run)
    kf = known_findings("C05")
    lines = open(os.path.join(VERIF, "known_collisions.txt")).read().split("\n")[:-1]
    w = os.path.join(run.dir, "witnesses")
    want = {}
    with open(w, "w") as f:
        for k in kf:
            for l in (k["witnesses"] if isinstance(k["witnesses"], list) else [l for l in lines if l.startswith(k["witnesses"])]):
                want.setdefault(l, k)
                f.write(l + "\n")
    out = sh([b, "witnesses", w, "--model", m]).stdout.splitlines()
    if len(out) != len(want):
        raise CheckError("witnesses: %d answers for %d" % (len(out), len(want)))
    seen = {}
    for l in out:
        verdict, rest = l.split(" ", 1)
        run.evaluations += 1
        if verdict == "other":
            raise Violation("text of a known finding is painted neither as listed in the finding nor correctly", rest, {"witness": rest})
        k = want[" ".join(rest.split(" ")[:3])]
        seen.setdefault(k["what"], [0, 0])
        seen[k["what"]][0 if verdict == "reproduces" else 1] += 1
    for k in kf:
        r, g = seen.get(k["what"], [0, 0])
        run.findings.append({"what": k["what"], "witnesses_that_reproduce": r, "witnesses_painted_correctly": g})
        if r:
            print("KNOWN-FINDING: property=C05 %s (%d of %d witnesses)" % (k["what"], r, r + g), flush=True)
    run.fuzz(m)


def c12(run):
    m = run.model()
    rel, tsan = parallel([
        lambda: run.harness("rel"),
        lambda: run.harness("tsan", toolchain=NIGHTLY, rustflags="-Zsanitizer=thread", target=HOST, extra=["-Zbuild-std"]),
    ])
    run.vmon(rel, "release", model=m)
    run.vmon(tsan, "tsan", model=m, main=False, scale=30 if run.thorough else 10, only="fresh,neighbours,clears,chains", e=env(TSAN_OPTIONS="halt_on_error=1 exitcode=66 report_thread_leaks=0"), stall=200)


def wasm_build(run, name, profile):
    d = os.path.join(run.dir, "w-" + name)
    os.makedirs(d)
    for h in ("harness", "harness_wasm"):
        shutil.copytree(os.path.join(VERIF, h), os.path.join(d, h), ignore=shutil.ignore_patterns("target", "Cargo.lock"))
    sh(["cargo", "+" + WASM_TC, "build", "--offline", "--profile", profile, "--target", "wasm32-unknown-unknown", "--target-dir", os.path.join(d, "t")],
       cwd=os.path.join(d, "harness_wasm"), e=env(RUSTUP_TOOLCHAIN=WASM_TC), timeout=800)
    return os.path.join(d, "t/wasm32-unknown-unknown", profile, "vmon_wasm.wasm")


FOREIGN = ["powerpc-unknown-linux-gnu", "s390x-unknown-linux-gnu", "i686-unknown-linux-gnu"]
MIRI_FAST = "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-disable-alignment-check"


def foreign_build(run, target):
    """harness_foreign for Miri (the library forbids unsafe code: Miri only stands in for the processor here)"""
    d = os.path.join(run.dir, "f-" + target)
    shutil.copytree(os.path.join(VERIF, "harness_foreign"), d, ignore=shutil.ignore_patterns("target", "Cargo.lock"))
    e = env(RUSTUP_TOOLCHAIN=NIGHTLY, CARGO_TARGET_DIR=os.path.join(d, "t"), XDG_CACHE_HOME=os.path.join(d, "xdg"), MIRIFLAGS=MIRI_FAST, RUSTFLAGS="-Zmir-opt-level=3")
    sh(["cargo", "+" + NIGHTLY, "miri", "setup", "--target", target], cwd=d, e=e, timeout=600)
    first = foreign_run(d, e, target, "", 300)
    if first.returncode != 0 or not first.stdout.startswith("calls 0"):
        raise CheckError("foreign target %s: %s" % (target, first.stderr[-2000:]))
    return d, e


def foreign_run(d, e, target, lines, timeout):
    p = subprocess.Popen(["cargo", "+" + NIGHTLY, "miri", "run", "--offline", "--target", target], cwd=d, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        o, r = p.communicate(lines, timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise CheckError("foreign target %s: no answer" % target)
    return subprocess.CompletedProcess([], p.returncode, o, r)


def foreign(run, m, vmon, builds):
    """Calls and results worked out by the model, repeated on targets of other word size and byte order"""
    parts, groups = (32, 100) if run.thorough else (8, 36)
    scripts = []
    for i in range(parts):
        f = os.path.join(run.dir, "calls%d" % i)
        sh([vmon, "foreign", str(groups), "--model", m, "--seed", str(run.seed * 1000 + i), "--out", f])
        scripts.append(open(f).read())
    total = {}
    jobs = [(t, i) for t in builds for i in range(parts)]
    res = parallel([lambda t=t, i=i: foreign_run(*builds[t], t, scripts[i], 3000 if run.thorough else 500) for t, i in jobs])
    for (t, i), r in zip(jobs, res):
        rp = {"build": t, "script": i, "seed": run.seed, "tier": run.tier}
        if "WRONG" in r.stdout:
            raise Violation("%s: results differ from the reference model" % t, r.stdout[r.stdout.index("WRONG"):][:3000], rp)
        if r.returncode != 0 and "panicked at" in r.stderr and "/repo/src/" in r.stderr:
            raise Violation("%s: panic" % t, r.stderr[-2000:], rp)
        g = re.search(r"calls (\d+) looks (\d+) (bits \d+ endian \w+)", r.stdout)
        if r.returncode != 0 or not g:
            raise CheckError("foreign target %s: exit %d: %s" % (t, r.returncode, r.stderr[-2000:]))
        n = total.setdefault(t, [0, 0, g.group(3)])
        n[0] += int(g.group(1))
        n[1] += int(g.group(2))
    for t, (c, l, what) in total.items():
        run.evaluations += c
        run.observed["runs"][t] = {"evaluations": c, "looks_at_the_frame_buffer": l, "target": what + " (Miri)"}
        run.log("%s (%s): %d calls" % (t, what, c))


def c13(run):
    m = run.model()
    targets = FOREIGN if run.thorough else FOREIGN[:1]
    jobs = [("release", lambda: run.harness("rel")), ("checked", lambda: run.harness("chk", profile="checked")), ("debug", lambda: run.harness("dev", profile="dev")),
            ("wasm32", lambda: wasm_build(run, "rel", "release")), ("wasm32-small", lambda: wasm_build(run, "small", "small")), ("wasm32-checked", lambda: wasm_build(run, "chk", "checked"))]
    jobs = [(t, lambda t=t: foreign_build(run, t)) for t in targets] + jobs
    built = dict(zip([n for n, _ in jobs], parallel([f for _, f in jobs])))
    abroad = {t: built.pop(t) for t in targets}
    run.log("built")
    digests = {}
    scale = {} if run.thorough else {"debug": 60, "wasm32-small": 60, "wasm32-checked": 60}
    for name, binary in built.items():
        dg = os.path.join(run.dir, "dig-" + name)
        sc = scale.get(name, 100)
        if not name.startswith("wasm"):
            run.vmon(binary, name, model=m, digests=dg, main=name == "release", scale=sc)
        else:
            o = os.path.join(run.dir, "o-%s.json" % name)
            sh([NODE, os.path.join(VERIF, "node/runwasm.mjs"), binary, m, str(run.seed), run.tier, "13", str(sc), dg, o], timeout=7000 if run.thorough else 400)
            d = json.load(open(o))
            run.observed["runs"][name] = d
            run.evaluations += d["evaluations"]
            v = d["violation"]
            if v:
                if "harness/src" in v["message"].split("\n")[0] or "panic at src/" in v["message"]:
                    raise CheckError("harness in wasm: " + v["message"])
                t = v["message"].split("\n")
                raise Violation(name + ": " + t[0], "\n".join(t[1:]), {"build": name, "workload": v["workload"], "index": v["index"], "seed": run.seed, "tier": run.tier})
            if d["indices"] == 0:
                raise CheckError("nothing observed in " + name)
            run.log("%s: %d evaluations" % (name, d["evaluations"]))
        digests[name] = dict((tuple(l.split()[:2]), l.split()[2]) for l in open(dg))
    ref = digests["release"]
    compared = 0
    for name, d in digests.items():
        for k, v in d.items():
            if k in ref:
                compared += 1
                if ref[k] != v:
                    raise Violation("results of build %s differ from those of the optimised 64-bit build" % name, "workload %s index %s" % k, {"builds": ["release", name], "workload": k[0], "index": int(k[1]), "seed": run.seed, "tier": run.tier})
    run.observed["digests_compared"] = compared
    foreign(run, m, built["release"], abroad)
    run.observed["builds"] = list(built) + targets


# ------------------------------------------------------------------------------------------------
STACK_LIMIT = 256 * 1024  # any call
STACK_GROWTH = 8 * 1024  # longer texts over short ones


def new_pieces():
    """Strings and characters that are new to the library's sources, for the texts of harness_work"""
    nums, strs = new_literals("src", os.path.join(REPO, "src"))
    return "\x1f".join([t for t in strs if "\0" not in t and "\x1f" not in t] + [chr(n) for n in nums if 31 < n < 0x110000 and not 0xD800 <= n < 0xE000])


def c22(run):
    pieces = new_pieces()
    d = os.path.join(run.dir, "stack")
    shutil.copytree(os.path.join(VERIF, "harness_work"), d, ignore=shutil.ignore_patterns("target", "Cargo.lock"))
    parallel([lambda p=p: sh(["cargo", "+" + STABLE, "build", "--offline", "--profile", p, "--bin", "stack", "--target-dir", os.path.join(d, "t-" + p)], cwd=d, e=env(RUSTUP_TOOLCHAIN=STABLE)) for p in ("release", "dev")])
    run.log("built")
    builds = {"release": ("t-release/release", ["1", "10", "250", "4000", "300000"] + (["3000000"] if run.thorough else [])),
              "debug": ("t-dev/debug", ["1", "10", "250", "4000", "100000"] + (["1000000"] if run.thorough else []))}

    def one(build, kind, seed):
        sub, ns = builds[build]
        b = os.path.join(d, sub, "stack")
        # takes seconds; the limit only ends calls that would take for ever
        r = sh([b, kind, str(seed)] + ns, check=False, e=env(NEW_PIECES=pieces), cpu=1200 if run.thorough else 300, timeout=3000 if run.thorough else 700)
        calls = [l.split()[1:] for l in r.stdout.splitlines() if l.startswith("call ")]
        used = [l.split()[1:] for l in r.stdout.splitlines() if l.startswith("used ")]
        replay = {"build": build, "kind": kind, "seed": seed}
        short = max([int(u[3]) for u in used if u[0] == "paint_str" and int(u[2]) <= 250] or [0])
        for what, setting, n, depth, allocs in used:
            desc = "%s build: %s, %s characters of kind %s, setting %s: %s bytes of stack, %s allocations" % (build, what, n, kind, setting, depth, allocs)
            rp = dict(replay, call=[what, setting, n])
            if int(allocs) != 0:
                raise Violation("memory was allocated", desc, rp)
            if int(depth) > STACK_LIMIT:
                raise Violation("more than %d bytes of stack were used" % STACK_LIMIT, desc, rp)
            if what.startswith("paint_str") and int(depth) > short + STACK_GROWTH:
                raise Violation("stack use grows with the text (at most %d bytes for up to 250 characters)" % short, desc, rp)
        if len(calls) > len(used) and r.returncode in (-11, -6, -7):
            last = " ".join(calls[-1])
            if "overflowed its stack" in r.stderr or r.returncode != -6:
                raise Violation("stack of 256 MiB exhausted", "%s build: %s, texts of kind %s: %s" % (build, last, kind, r.stderr[-300:]), dict(replay, call=calls[-1]))
        if r.returncode != 0 or len(calls) != len(used) or not used:
            raise CheckError("stack %s %s: exit %d: %s" % (build, kind, r.returncode, r.stderr[-1500:]))
        return build, kind, seed, used

    seeds = [run.seed] if not run.thorough else [run.seed + 1000 * i for i in range(3)]
    res = parallel([lambda a=(b, k, s): one(*a) for s in seeds for k in KINDS for b in builds])
    seen, top = set(), {}
    for build, kind, seed, used in res:
        for what, setting, n, depth, allocs in used:
            run.evaluations += 1
            seen.add((build, kind, seed, what, setting, n))
            k = "%s build, %s" % (build, what)
            top[k] = max(top.get(k, 0), int(depth))
    run.distinct = len(seen)
    run.rules.append("calls on texts of %d kinds and up to %s characters in 10 settings, 5000 calls with one cursor, clearing, demo scenes and constructors; non-trivial: distinct (build, call, text kind, length, setting); observed: lowest changed byte of a marked stack and number of allocations during each call" % (len(KINDS), builds["release"][1][-1]))
    run.observed["deepest_stack_bytes"] = top
    run.observed["resolution"] = "depths up to 4096 bytes are reported as 4096"
    run.samples += ["%s build: %s %s, %s characters of kind %s: %s bytes of stack" % (b, u[0], u[1], u[2], k, u[3]) for b, k, s, us in res[:4] for u in us[:2]]
    run.assumptions.append("bounded: at most %d KiB, and longer texts use at most %d KiB more than texts of up to 250 characters of their kind" % (STACK_LIMIT >> 10, STACK_GROWTH >> 10))


KINDS = ["ascii", "space", "newlines", "lines", "accents", "decomposed", "emoji", "emoji_parts", "joiners", "people", "hanzi", "unlisted", "unlisted_high", "mixed",
         "marks", "selectors", "flags", "tones", "keycaps", "one", "one_wide", "one_unlisted", "controls", "returns", "new_literals"]


def c14(run):
    pieces = new_pieces()
    d = os.path.join(run.dir, "work")
    shutil.copytree(os.path.join(VERIF, "harness_work"), d, ignore=shutil.ignore_patterns("target", "Cargo.lock"))
    parallel([lambda p=p: sh(["cargo", "+" + STABLE, "build", "--offline", "--profile", p, "--bin", "work", "--target-dir", os.path.join(d, "t-" + p)], cwd=d, e=env(RUSTUP_TOOLCHAIN=STABLE)) for p in ("release", "dev")])
    bins = {"optimised": os.path.join(d, "t-release/release/work"), "debug": os.path.join(d, "t-dev/debug/work")}
    seeds = [run.seed] if not run.thorough else [run.seed + 1000 * i for i in range(4)]
    sizes = {"optimised": [250, 1000, 4000, 16000], "debug": [250, 1000, 4000]}
    if run.thorough:
        sizes = {"optimised": [250, 1000, 4000, 16000, 64000], "debug": [250, 1000, 4000, 16000]}
    texts = set()
    slow = []

    def one(build, kind, seed, long=""):
        ns, b = [250] if long else sizes[build], bins[build]
        o = os.path.join(d, "cg-%s-%s-%d-%s" % (build, kind, seed, long))
        cmd = ["valgrind", "--vgdb=no", "--tool=callgrind", "--callgrind-out-file=" + o, "--toggle-collect=measured", "--dump-after=measured", "--dump-line=no", b, kind, str(seed)] + [str(n) for n in ns]
        log = o + ".txt"
        # 14 kinds take about a second each; the limit only ends calls that would take for ever
        limit = 900 if run.thorough else 90
        if slow:
            return build, kind, seed, []  # one has not returned within its limit already
        with open(log, "w") as lf:
            r = subprocess.Popen(["prlimit", "--cpu=%d" % limit] + cmd, stdout=lf, stderr=subprocess.PIPE, env=env(NEW_PIECES=pieces, VERY_LONG=long))
            try:
                err = r.communicate(timeout=limit * 3)[1].decode("utf-8", "replace")
            except subprocess.TimeoutExpired:
                r.kill()
                r.communicate()
                raise CheckError("work %s: no answer" % kind)
        calls = [l.split() for l in open(log)]
        files = sorted(glob.glob(o + ".[0-9]*"), key=lambda p: int(p.rsplit(".", 1)[1]))
        costs = []
        for p in files:
            t = re.search(r"^(?:summary|totals): (\d+)", open(p).read(), re.M)
            if t:
                costs.append(int(t.group(1)))
            os.unlink(p)
        done = list(zip(calls, costs))
        bad = judge_work(build, kind, seed, done, ns)
        if bad:
            slow.append(kind)
            raise bad
        if r.returncode < 0 or r.returncode > 128 or "SIGXCPU" in err or "CPU time limit" in err:
            if len(calls) > len(costs):
                slow.append(kind)
                raise Violation("call uses %d s of processor time" % limit, "%s build, texts of kind %s: %s" % (build, kind, " ".join(calls[-1])), {"build": build, "kind": kind, "call": calls[-1], "seed": seed})
        if r.returncode != 0 or len(calls) != len(costs):
            if "panicked" in err:
                raise CheckError("paint call panicked (C01): " + err[-800:])
            raise CheckError("callgrind %s: exit %d, %d calls, %d profiles: %s" % (kind, r.returncode, len(calls), len(costs), err[-1500:]))
        return build, kind, seed, done

    longest = [("optimised", k, seeds[0], str(n)) for n in ([100_000, 500_000] if run.thorough else [100_000]) for k in KINDS]
    res = parallel([lambda a=a: one(*a) for a in longest + [(b, k, s) for s in seeds for b in bins for k in KINDS]])
    table = {}
    for build, kind, seed, done in res:
        for c, cost in done:
            run.evaluations += 1
            if cost > 0:
                texts.add((build, kind, seed, c[0], c[1]))
            if seed == seeds[0] and build == "optimised":
                table.setdefault(kind, {})["%s n=%s" % (c[0], c[1])] = cost
    if not texts:
        raise CheckError("nothing observed")
    run.distinct = len(texts)
    run.rules.append("optimised and debug builds: paint calls of growing texts of %d kinds in 10 settings (visible, clipped away, unusable rectangle), very long ones in two of them, and of a fixed text at distances up to 2^62; non-trivial: calls that executed instructions; observed: executed instructions per call as counted by callgrind" % len(KINDS))
    run.observed["instructions"] = {k: {c: v for c, v in t.items() if "^" not in c} for k, t in table.items()}
    run.observed["instructions_at_distance_2^62"] = {k: {c: v for c, v in t.items() if c.endswith("^62 n=100")} for k, t in table.items()}
    run.samples += ["%s: %s -> %d instructions" % (k, c, v) for k, t in list(table.items())[:3] for c, v in list(t.items())[:3]]
    run.assumptions.append("linear: no call costs more than 3 times the dearest per-character cost of a 250-character text of its kind, nor more than 2.5 times the per-character cost of shorter texts in the same setting, plus a constant")


def judge_work(build, kind, seed, done, ns):
    small = [cost / 250 for c, cost in done if c[1] == "250" and "^" not in c[0]]
    if not small:
        return None
    top = max(small)
    per = {}
    for c, cost in done:
        n = int(c[1])
        desc = "%s build, %s characters of kind %s, setting %s: %d instructions" % (build, c[1], kind, c[0], cost)
        rp = {"build": build, "kind": kind, "setting": c[0], "n": n, "seed": seed}
        if cost > 3 * top * n + 50_000:
            return Violation("work is not bounded by the length of the text (%d instructions per character in short texts)" % top, desc, rp)
        if "^" in c[0]:
            continue
        prev = per.setdefault(c[0], [])
        if prev and cost > 2.5 * max(prev) * n + 20_000:
            return Violation("work per character grows with the length of the text (%s instructions per character for shorter texts)" % [round(p, 1) for p in prev], desc, rp)
        prev.append(cost / n)
    return None


# ------------------------------------------------------------------------------------------------
def demo_wasm(run):
    t = os.path.join(run.dir, "demo-t")
    sh(["cargo", "+" + WASM_TC, "build", "--offline", "--release", "--target", "wasm32-unknown-unknown", "--target-dir", t], cwd=os.path.join(REPO, "wasm_demo"), e=env(RUSTUP_TOOLCHAIN=WASM_TC), timeout=600)
    f = glob.glob(os.path.join(t, "wasm32-unknown-unknown/release/*.wasm"))
    if len(f) != 1:
        raise CheckError("wasm demo: %s" % f)
    return f[0]


def demo_numbers():
    return json.dumps([v for v in new_literals("wasm_demo", os.path.join(REPO, "wasm_demo"))[0] if v < 1 << 32])


def node_result(run, label, path):
    d = json.load(open(path))
    v = d.pop("violation")
    run.evaluations += d["evaluations"]
    run.distinct += d["distinct"]
    run.samples += d["samples"]
    run.observed[label] = {k: x for k, x in d.items() if k != "samples"}
    if v:
        raise Violation(label + ": " + v["message"], v["case"], {"seed": run.seed, "tier": run.tier})
    if d["evaluations"] == 0:
        raise CheckError("nothing observed: " + label)
    run.log("%s: %d evaluations" % (label, d["evaluations"]))


def c15(run):
    m, b, _ = native(run)
    # in WebAssembly
    wasm = demo_wasm(run)
    poem = os.path.join(run.dir, "poem")
    sh([b, "scene", "goose_poem", "--model", m, "--out", poem])
    o = os.path.join(run.dir, "demo.json")
    sh([NODE, os.path.join(VERIF, "node/demo.mjs"), wasm, poem, str(run.seed), "3000" if run.thorough else "400", o], timeout=600, e=env(NEW_NUMBERS=demo_numbers()))
    node_result(run, "wasm demo exports in node", o)
    # natively and under Miri
    d = os.path.join(run.dir, "miri")
    shutil.copytree(os.path.join(VERIF, "harness_miri"), d, ignore=shutil.ignore_patterns("target", "Cargo.lock"))
    e = env(RUSTUP_TOOLCHAIN=STABLE, CARGO_TARGET_DIR=os.path.join(d, "tn"))
    orders = ["lpilil"] if not run.thorough else ["lpilil", "iiil", "pilpilpil"]
    flags = [""] if not run.thorough else ["", "-Zmiri-tree-borrows"]
    sh(["cargo", "+" + STABLE, "build", "--offline", "--release"], cwd=d, e=e)
    screens = []
    for w in orders:
        r = sh([os.path.join(d, "tn/release/demomon"), w], check=False, timeout=120)
        miri_verdict(r, w, "native")
        screens.append(re.findall(r"screen (\w+)", r.stdout)[-1])
    e = env(RUSTUP_TOOLCHAIN=NIGHTLY, CARGO_TARGET_DIR=os.path.join(d, "tm"), XDG_CACHE_HOME=os.path.join(d, "xdg"))
    sh(["cargo", "+" + NIGHTLY, "miri", "setup"], cwd=d, e=e, timeout=600)
    miri = []
    for w, native_screen in zip(orders, screens):
        for f in flags:
            r = sh(["cargo", "+" + NIGHTLY, "miri", "run", "--offline", "--", w], cwd=d, e=dict(e, MIRIFLAGS=f), check=False, timeout=3000 if run.thorough else 600)
            miri_verdict(r, w, "Miri " + f)
            got = re.findall(r"screen (\w+)", r.stdout)
            if native_screen not in got[-1:]:
                raise Violation("the screen under Miri differs from the native one", "order %s" % w, {"order": w})
            miri.append({"order": w, "flags": f or "(stacked borrows)", "output": r.stdout.splitlines()})
            run.evaluations += 1
            run.distinct += 1
            run.log("Miri %s %s" % (w, f))
    run.observed["miri"] = miri
    run.rules.append("wasm demo: random orders of init, frame_buf_ptr and overwriting the frame buffer, non-trivial: distinct orders with at least one init; the same functions interpreted by Miri")


def miri_verdict(r, order, where):
    if r.returncode == 0:
        return
    t = r.stderr
    if "Undefined Behavior" in t or "VIOLATED" in t:
        l = [x for x in t.splitlines() if "Undefined Behavior" in x or "VIOLATED" in x]
        raise Violation("%s: %s" % (where, l[0].strip()), "demo calls in the order %s\n%s" % (order, t[-2000:]), {"order": order})
    if "panicked at" in t or r.returncode < 0:
        raise Violation("%s: the demo's exported functions do not return normally" % where, "order %s: %s" % (order, t[-1500:]), {"order": order})
    raise CheckError("%s: exit %d\n%s" % (where, r.returncode, t[-2000:]))


def c16(run):
    wasm = demo_wasm(run)
    mods = [wasm]
    shipped = os.path.join(REPO, "wasm_demo/demo.wasm")
    if os.path.exists(shipped):
        mods.append(shipped)
    n = 12000 if run.thorough else 1600
    numbers = demo_numbers()
    outs = [os.path.join(run.dir, "page%d.json" % i) for i in range(4)]
    parallel([lambda i=i: sh([NODE, "--no-warnings", "--experimental-vm-modules", os.path.join(VERIF, "node/page.mjs"), os.path.join(REPO, "wasm_demo"), str(run.seed * 4 + i), str(n // 4), outs[i]] + mods, timeout=3000 if run.thorough else 600, e=env(NEW_NUMBERS=numbers)) for i in range(4)])
    for i, o in enumerate(outs):
        node_result(run, "page%d" % i, o)
    run.rules.append("page loads in fresh JavaScript contexts with stand-in DOM, fetch and WebAssembly: the built and the shipped demo module, and stand-in modules with any frame buffer content at any address, each with streaming and non-streaming loading; non-trivial: distinct (content, address, loading) descriptions; observed: every canvas pixel")
    run.assumptions.append("the frame buffer lies in the first 2 GiB of WebAssembly memory (exported pointers are signed in JavaScript)")


CHECKS = {"C01": c01, "C05": c05, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": codegen.c17, "C18": codegen.c18, "C19": codegen.c19, "C22": c22}
for _p in ("C02", "C03", "C04", "C06", "C07", "C08", "C09", "C10", "C11", "C20", "C21", "C23"):
    CHECKS[_p] = explored
