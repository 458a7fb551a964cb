"""Checks of the font generator: C17 (any configuration), C18 (the shipped fonts), C19 (what it writes)."""
import concurrent.futures
import hashlib
import json
import os
import random
import re
import shutil
import stat
import struct
import subprocess
import tempfile

from driver import PYVT, REPO, STABLE, TOOLS, VERIF, CheckError, Violation, env, new_literals, sh

SKIP = ("target", ".git", "seeded")


def copy_repo(dst):
    """The working tree without build output."""
    shutil.copytree(REPO, dst, symlinks=True, ignore=lambda d, names: [n for n in names if n in SKIP])
    return dst


def build_codegen(run, src=REPO + "/codegen"):
    b = os.path.join(run.dir, "codegen-bin")
    # built from a copy: the go command may not write next to the sources
    d = os.path.join(run.dir, "codegen-src")
    if not os.path.exists(d):
        shutil.copytree(src, d)
    sh(["go", "build", "-buildvcs=false", "-o", b, "."], cwd=d, e=env(GOFLAGS="-mod=mod"), timeout=600)
    return b


def generate(binary, cgdir, **extra):
    return sh([binary, "--write"], cwd=cgdir, e=env(**extra), check=False, timeout=300)


def outputs(cgdir):
    conf = json.load(open(os.path.join(cgdir, "config.json"), encoding="utf-8"))
    return [os.path.normpath(os.path.join(cgdir, g["rustout"])) for g in conf["glyphSets"]]


# ------------------------------------------------------------------------------------------------
def one_config(run, binary, seed, vmon_tests, numbers):
    d = os.path.join(run.dir, "c17-%d" % seed)
    repo = copy_repo(os.path.join(d, "repo"))
    cg = os.path.join(repo, "codegen")
    desc = json.loads(sh([PYVT, os.path.join(TOOLS, "fontgen.py"), cg, str(seed), json.dumps(numbers)]).stdout)
    replay = {"font configuration seed": seed, "how": "python3 /verif/tools/fontgen.py CODEGEN_DIR %d '%s'" % (seed, json.dumps(numbers))}
    short = "font configuration %d: %s" % (seed, [{k: v for k, v in f.items() if k != "legal"} for f in desc["fonts"]])
    for p in outputs(cg):
        if os.path.exists(p):
            os.unlink(p)
    r = generate(binary, cg)
    if r.returncode != 0:
        raise Violation("the generator fails on a valid configuration: exit %d: %s" % (r.returncode, r.stderr[:600]), short, replay)
    for f, p in zip(desc["fonts"], outputs(cg)):
        if not os.path.exists(p):
            raise Violation("the generator did not write %s" % os.path.basename(p), short, replay)
        code = open(p, encoding="utf-8").read()
        if f["legal"] and f["legal"] not in code:
            raise Violation("legal notice is missing from %s" % os.path.basename(p), "%s\nnotice: %r" % (short, f["legal"]), replay)
    # does it compile?
    r = sh(["cargo", "+" + STABLE, "build", "--offline", "--lib", "--target-dir", os.path.join(d, "t")], cwd=repo, e=env(RUSTUP_TOOLCHAIN=STABLE), check=False, timeout=600)
    if r.returncode != 0:
        raise Violation("generated fonts do not compile", "%s\n%s" % (short, r.stderr[-3000:]), replay)
    # do its own tests pass?
    tests = 0
    if vmon_tests:
        r = sh(["cargo", "+" + STABLE, "test", "--offline", "--lib", "--target-dir", os.path.join(d, "t"), "fonts::"], cwd=repo, e=env(RUSTUP_TOOLCHAIN=STABLE), check=False, timeout=600)
        n = re.search(r"test result: (\w+)\. (\d+) passed; (\d+) failed", r.stdout)
        if not n:
            raise Violation("tests of generated fonts do not compile", "%s\n%s" % (short, r.stderr[-3000:]), replay)
        if n.group(1) != "ok":
            raise Violation("tests of generated fonts fail", "%s\n%s" % (short, r.stdout[-3000:]), replay)
        tests = int(n.group(2))
    model = os.path.join(d, "model.bin")
    sh([PYVT, os.path.join(TOOLS, "mkmodel.py"), cg, model])
    b = run.harness("c17-%d" % seed, lib=repo)
    o = os.path.join(d, "r.json")
    cmd = [b, "run", "C17", "--model", model, "--seed", str(seed), "--tier", run.tier, "--out", o, "--threads", "2", "--journal", os.path.join(d, "j")]
    r = sh(cmd, check=False, timeout=600)
    if r.returncode != 0:
        raise CheckError("vmon C17 %d: exit %d %s" % (seed, r.returncode, r.stderr[-1000:]))
    res = json.load(open(o))
    v = res["violation"]
    if v:
        if v["harness"]:
            raise CheckError("harness: %s" % v)
        raise Violation(v["message"], "%s\n%s" % (v["case"], short), dict(replay, workload=v["workload"], index=v["index"]))
    shutil.rmtree(d)
    shutil.rmtree(os.path.join(run.dir, "b-c17-%d" % seed))
    return desc, res, tests


def c17(run):
    n = 160 if run.thorough else 20
    numbers = [v for v in new_literals("codegen", REPO + "/codegen")[0] if v < 1 << 32]
    binary = build_codegen(run)
    run.log("generator built")
    seeds = [run.seed * 100_000 + i for i in range(n)]
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(one_config, run, binary, s, run.thorough or i < 4, numbers if i % 2 else []) for i, s in enumerate(seeds)]
        concurrent.futures.wait(fs)
    for kind in (Violation, Exception):
        for f in fs:
            if isinstance(f.exception(), kind):
                raise f.exception()
    made, tests = [], 0
    for f in fs:
        desc, res, t = f.result()
        tests += t
        run.evaluations += res["evaluations"]
        run.distinct += res["distinct_nontrivial"]
        run.rules.append(res["rule"])
        made.append(desc)
    run.samples += [json.dumps({k: v for k, v in f.items() if k != "legal"}) for m in made[:2] for f in m["fonts"]]
    fonts = [f for m in made for f in m["fonts"]]
    run.observed.update({"configurations": n, "fonts": len(fonts), "generated_tests_passed": tests, "clusters": sum(f["listed"] for f in fonts), "aliases": sum(f["aliases"] for f in fonts),
                         "sizes": sorted({f["size"] for f in fonts}), "borders": sorted({f["border"] for f in fonts}), "gutters": sorted({f["gutter"] for f in fonts}),
                         "png": sorted({f["png"] for f in fonts}), "indexTypes": sorted({f["indexType"] for f in fonts})})
    if tests == 0:
        raise CheckError("the generated fonts contain no tests")


# ------------------------------------------------------------------------------------------------
def c18(run):
    binary = build_codegen(run)
    run.log("generator built")
    settings = [{}, {"GOMAXPROCS": "1", "TZ": "Asia/Tokyo", "LANG": "de_DE.UTF-8", "USER": "someone"}, {"GOGC": "25", "GOMAXPROCS": "16"}]

    def regenerate(i):
        # in another folder each time; again over the files of the first run
        repo = copy_repo(os.path.join(run.dir, "regen%d" % i, "r" * (i + 1)))
        cg = os.path.join(repo, "codegen")
        files = outputs(cg)
        got = []
        for j in range((2 if i == 1 else 1) if not run.thorough else 6):
            r = generate(binary, cg, **settings[i])
            if r.returncode != 0:
                raise Violation("the generator fails on the repository's own configuration: exit %d: %s" % (r.returncode, r.stderr[:800]), "run %d.%d" % (i, j))
            got.append((i, j, {os.path.basename(p): open(p, "rb").read() for p in files}))
        return repo, got

    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(regenerate, i) for i in range(len(settings))]
        shipped_build = ex.submit(run.harness, "shipped")
        concurrent.futures.wait(fs)
    for f in fs:
        if isinstance(f.exception(), Violation):
            raise f.exception()
    made = [x for f in fs for x in f.result()[1]]
    first = fs[0].result()[0]
    run.evaluations += len(made)
    run.distinct += len(made)
    run.log("generated %d times" % len(made))
    for i, j, d in made[1:]:
        for f, data in d.items():
            if data != made[0][2][f]:
                a, b = data.split(b"\n"), made[0][2][f].split(b"\n")
                k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
                raise Violation("generated file %s differs between two runs of the generator" % f, "run %d.%d, line %d: %r / %r" % (i, j, k + 1, a[k:k + 1], b[k:k + 1]))
    run.observed["regenerations"] = len(made)
    run.observed["byte_identical_to_shipped"] = {f: open(os.path.join(REPO, "src/fonts", f), "rb").read() == data for f, data in made[0][2].items() if os.path.exists(os.path.join(REPO, "src/fonts", f))}
    m = run.model()
    digests = {}
    for name, lib in (("shipped", REPO), ("regenerated", first)):
        try:
            b = run.harness(name, lib=lib) if name != "shipped" else shipped_build.result()
        except CheckError as e:
            if name == "regenerated":
                raise Violation("the regenerated fonts do not compile", str(e)[-2500:])
            raise
        dg = os.path.join(run.dir, "dig-" + name)
        run.vmon(b, name, model=m, digests=dg, main=name == "shipped")
        digests[name] = dict((tuple(l.split()[:2]), l.split()[2]) for l in open(dg))
    if digests["shipped"].keys() != digests["regenerated"].keys():
        raise CheckError("runs of the two libraries are not comparable")
    for k, v in digests["shipped"].items():
        if digests["regenerated"][k] != v:
            raise Violation("texts are painted differently with the regenerated fonts", "workload %s index %s (vmon one C18 prints nothing; compare digests)" % k, {"workload": k[0], "index": int(k[1]), "seed": run.seed, "tier": run.tier})
    run.observed["digests_compared"] = len(digests["shipped"])


# ------------------------------------------------------------------------------------------------
class Sandbox:
    """A scratch folder holding a copy of what the generator reads and writes; all of it is watched.
    The generator runs as an unprivileged user where possible, so that nothing else is in its reach."""

    def __init__(self, binary, seed):
        self.root = tempfile.mkdtemp(prefix="vp-codegen-")
        os.chmod(self.root, 0o755)
        self.binary = os.path.join(self.root, "codegen-bin")
        shutil.copy(binary, self.binary)
        os.chmod(self.binary, 0o755)
        self.plain = os.path.join(self.root, "plain")
        os.mkdir(self.plain)
        shutil.copytree(os.path.join(REPO, "codegen"), os.path.join(self.plain, "codegen"), symlinks=True)
        if seed is not None:  # small fonts: the shipped ones take seconds to generate
            sh([PYVT, os.path.join(TOOLS, "fontgen.py"), os.path.join(self.plain, "codegen"), str(seed)])
        os.makedirs(os.path.join(self.plain, "src", "fonts"))
        for f in ("lib.rs", "fonts.rs", "blit.rs"):
            if os.path.exists(os.path.join(REPO, "src", f)):
                shutil.copy(os.path.join(REPO, "src", f), os.path.join(self.plain, "src", f))
        with open(os.path.join(self.plain, "src", "fonts", "other.rs"), "w") as f:
            f.write("// not written by the generator\n")
        self.unpriv = False
        if os.getuid() == 0:
            r = subprocess.run([self.binary, "--nothing"], cwd=self.root, preexec_fn=self._drop, capture_output=True) if self._can_drop() else None
            self.unpriv = r is not None
        self.n = 0

    @staticmethod
    def _drop():
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)

    def _can_drop(self):
        try:
            return subprocess.run(["true"], preexec_fn=self._drop).returncode == 0
        except (subprocess.SubprocessError, OSError):
            return False

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def case(self, prepare=None):
        self.n += 1
        d = os.path.join(self.root, "case%d" % self.n)
        os.mkdir(d)
        os.mkdir(os.path.join(d, "home"))
        os.mkdir(os.path.join(d, "tmp"))
        shutil.copytree(self.plain, os.path.join(d, "repo"), symlinks=True)
        cg = os.path.join(d, "repo", "codegen")
        if prepare:
            prepare(cg)
        if self.unpriv:
            for p, ds, fs in os.walk(d):
                os.chown(p, 65534, 65534)
                for f in fs:
                    os.chown(os.path.join(p, f), 65534, 65534, follow_symlinks=False)
        return d, cg

    def run(self, d, cg, args):
        e = env(HOME=os.path.join(d, "home"), TMPDIR=os.path.join(d, "tmp"), XDG_CACHE_HOME=os.path.join(d, "home/c"))
        for k in ("GOCACHE", "VERIF_SEED", "VERIF_TIER"):
            e.pop(k, None)
        before = snapshot(d)
        p = subprocess.Popen([self.binary] + args, cwd=cg, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=self._drop if self.unpriv else None)
        try:
            o, r = p.communicate(timeout=200)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise CheckError("generator: no answer for %s" % args)
        return p.returncode, o.decode("utf-8", "replace"), r.decode("utf-8", "replace"), before, snapshot(d)


def snapshot(d):
    s = {}
    for p, ds, fs in os.walk(d):
        for n in ds + fs:
            q = os.path.join(p, n)
            st = os.lstat(q)
            if stat.S_ISREG(st.st_mode):
                v = hashlib.sha1(open(q, "rb").read()).hexdigest()
            elif stat.S_ISLNK(st.st_mode):
                v = os.readlink(q)
            else:
                v = ""
            s[os.path.relpath(q, d)] = (stat.S_IFMT(st.st_mode), stat.S_IMODE(st.st_mode), v, st.st_mtime_ns if stat.S_ISREG(st.st_mode) else 0)
    return s


def changes(before, after, mtime=False):
    c = []
    for k in sorted(set(before) | set(after)):
        a, b = before.get(k), after.get(k)
        if a is None:
            c.append("created " + k)
        elif b is None:
            c.append("removed " + k)
        elif a[:3] != b[:3] or (mtime and a != b):
            c.append("changed " + k)
    return c


def font_key(g):
    """What a generated file depends on."""
    return json.dumps({a: b for a, b in g.items() if a != "rustout"}, sort_keys=True)


def edit_json(path, f):
    d = json.load(open(path, encoding="utf-8"))
    f(d)
    json.dump(d, open(path, "w", encoding="utf-8"))


def faults(cg, r, thorough):
    """[(what, prepare(codegen dir))]: each leaves exactly one input missing, cut off or malformed, or one
    output that cannot be written."""
    conf = json.load(open(os.path.join(cg, "config.json"), encoding="utf-8"))
    out = []
    J = os.path.join
    reads = {}
    for g in conf["glyphSets"]:
        for k in ("sprites", "index", "aliases", "legal"):
            if g[k]:
                reads.setdefault(g[k], (k, g))

    def missing(p):
        return lambda d: os.unlink(J(d, p))

    def isdir(p):
        def f(d):
            os.unlink(J(d, p))
            os.mkdir(J(d, p))
        return f

    def cut(p, n):
        def f(d):
            data = open(J(d, p), "rb").read()
            open(J(d, p), "wb").write(data[:n])
        return f

    def put(p, data):
        def f(d):
            open(J(d, p), "wb").write(data)
        return f

    def flip(p, pos):
        def f(d):
            data = bytearray(open(J(d, p), "rb").read())
            data[pos] ^= 0x55
            open(J(d, p), "wb").write(data)
        return f

    def insert_line(p, line):
        def f(d):
            l = open(J(d, p), encoding="utf-8").read().split("\n")
            l.insert(r2.randrange(len(l)), line)
            open(J(d, p), "w", encoding="utf-8").write("\n".join(l))
        r2 = random.Random(r.random())
        return f

    for p, (k, g) in sorted(reads.items()):
        cols = g["cols"]
        data = open(J(cg, p), "rb").read()
        out.append(("%s is missing" % p, missing(p)))
        out.append(("%s is a directory" % p, isdir(p)))
        if k == "sprites":
            n = len(data)
            cuts = {0, 4, 8, 20, 33, n // 3, n // 2, n - 20, n - 13, n - 12, n - 8, n - 4, n - 1} | {r.randrange(n) for _ in range(40 if thorough else 5)}
            for c in sorted(cuts):
                out.append(("%s is cut off after %d of %d bytes" % (p, c, n), cut(p, c)))
            # a damaged byte anywhere in a PNG chunk is found by its checksum
            for pos in [0, 3, 16, 18, 29] + [r.randrange(n - 12) for _ in range(30 if thorough else 4)]:
                out.append(("byte %d of %s is damaged" % (pos, p), flip(p, pos)))
            out.append(("%s is not a PNG file" % p, put(p, b"\xff\xd8\xff\xe0\x00\x10JFIF\x00" + data[11:])))
            out.append(("%s is a text file" % p, put(p, b"not a picture\n")))
        elif p.endswith(".json"):
            n = len(data.rstrip())
            for c in sorted({0, 1, n // 2, n - 1, n - 2} | {r.randrange(n) for _ in range(20 if thorough else 3)}):
                out.append(("%s is cut off after %d of %d bytes" % (p, c, n), cut(p, c)))
            for what, extra in (("itself", data), ("a bracket", b"\n}\n"), ("text", b"\nend\n")):
                out.append(("%s is followed by %s" % (p, what), put(p, data + extra)))
            out.append(("%s has no hexadecimal code" % p, lambda d, p=p: edit_json(J(d, p), lambda j: j["map"][len(j["map"]) // 2].update(hex="xyz"))))
            out.append(("%s has an empty code" % p, lambda d, p=p: edit_json(J(d, p), lambda j: j["map"][len(j["map"]) // 2].update(hex=""))))
            out.append(("%s has a row that is a string" % p, lambda d, p=p: edit_json(J(d, p), lambda j: j["map"][len(j["map"]) // 2].update(row="one"))))
            out.append(("%s names a row outside of the sprite sheet" % p, lambda d, p=p: edit_json(J(d, p), lambda j: j["map"][len(j["map"]) // 2].update(row=1000))))
            out.append(("%s names a column outside of the sprite sheet" % p, lambda d, p=p, cols=cols: edit_json(J(d, p), lambda j: j["map"][len(j["map"]) // 2].update(col=cols))))
            out.append(("%s names a negative row" % p, lambda d, p=p: edit_json(J(d, p), lambda j: j["map"][len(j["map"]) // 2].update(row=-1))))
        elif k == "index":
            for bad in ("1f600-", "zz", "1f60g", "-1f600", "1f600--fe0f", "0x1f600", "1f600 fe0f", "U+1F600", "12345678901"):
                out.append(("%s has the line %r" % (p, bad), insert_line(p, bad)))
            out.append(("%s lists more clusters than the sprite sheet has" % p, lambda d, p=p: open(J(d, p), "a").write("\n" + "\n".join("%x" % (0x4E00 + i) for i in range(6000)) + "\n")))
        elif k == "aliases":
            for bad in ("zz 1f600", "1f600 zz", "1f600- 1f600-fe0f", "1f005-1f005-20e3 1f600-fe0f", "2fa1f-fe0f 1f600-fe0f"):
                out.append(("%s has the line %r" % (p, bad), insert_line(p, bad)))
    cdata = open(J(cg, "config.json"), "rb").read().rstrip()
    out.append(("config.json is missing", missing("config.json")))
    out.append(("config.json is a directory", isdir("config.json")))
    n = len(cdata)
    for c in sorted({0, 1, n // 2, n - 1} | {r.randrange(n) for _ in range(20 if thorough else 4)}):
        out.append(("config.json is cut off after %d of %d bytes" % (c, n), cut("config.json", c)))
    for what, extra in (("itself", cdata), ("a bracket", b"\n}\n"), ("text", b"\nend\n"), ("a comma", b",")):
        out.append(("config.json is followed by %s" % what, put("config.json", cdata + extra)))
    for k, v in (("size", "30"), ("m3Seed", -1), ("m3Seed", 1 << 32), ("cols", None), ("name", 5), ("glyphTrim", 7)):
        if v is None:
            continue
        out.append(("config.json has %s = %r" % (k, v), lambda d, k=k, v=v: edit_json(J(d, "config.json"), lambda j: j["glyphSets"][2].update({k: v}))))
    out.append(("config.json has an unknown index type", lambda d: edit_json(J(d, "config.json"), lambda j: j["glyphSets"][3].update(indexType="txt"))))
    for i, g in enumerate(conf["glyphSets"]):
        o = g["rustout"]

        def odir(d, o=o):
            os.makedirs(J(d, o))
        out.append(("output %s is a directory" % o, odir))

        def full(d, o=o):
            os.symlink("/dev/full", J(d, o))
        out.append(("output %s is on a full device" % o, full))
        out.append(("output: the folder of %s is missing" % o, lambda d, i=i: edit_json(J(d, "config.json"), lambda j: j["glyphSets"][i].update(rustout="../nowhere/x.rs"))))
        out.append(("output: the folder of %s is a file" % o, lambda d, i=i: edit_json(J(d, "config.json"), lambda j: j["glyphSets"][i].update(rustout="../src/lib.rs/x.rs"))))
        out.append(("output %s is read-only" % o, lambda d, o=o: (open(J(d, o), "w").write("// old\n"), os.chmod(J(d, o), 0o444))))
    return out


def c19(run):
    binary = build_codegen(run)
    run.log("generator built")
    r = random.Random("c19 %d" % run.seed)
    run.rules.append("argument lists other than the confirmation switch alone; confirmed runs in several settings; confirmed runs with one input missing, cut off, damaged or malformed or one output unwritable; with the shipped and with random small fonts; non-trivial: every case; observed: exit status, output, and the whole scratch tree before and after")
    for seed in [None] + [run.seed * 1000 + i for i in range(12 if run.thorough else 4)]:
        sb = Sandbox(binary, seed)
        try:
            c19_fonts(run, sb, r, seed)
        finally:
            sb.close()


def c19_fonts(run, sb, r, seed):
    fonts = "shipped fonts" if seed is None else "fonts of fontgen.py seed %d" % seed
    obs = run.observed.setdefault(fonts, {})
    run.observed["runs as an unprivileged user"] = sb.unpriv
    confirm = "--write"
    # 1. other argument lists: nothing changes and the usage is printed
    lists = [[], ["-h"], ["--help"], ["help"], ["-write"], ["--Write"], ["--WRITE"], ["--writ"], ["--writes"], ["--write="], ["--write=true"], ["--write "], [" --write"], [""], ["-"], ["--"], ["-w"], ["write"],
             ["--write", "--write"], ["--write", ""], ["", "--write"], ["--write", "x"], ["x", "--write"], ["--", "--write"], ["--write", "--"], ["--write\n"], ["--write", "--write", "--write"], ["-v", "--write"], ["--write", "-n"], ["--write", "--dry-run"], ["\u2014write"], ["config.json"], ["--write;"], ["--no-write"]]
    for _ in range(60 if run.thorough else 10):
        lists.append(["".join(r.choice("-wWriteRITE= x") for _ in range(r.randrange(9))) for _ in range(r.randrange(4))])
    lists = [a for a in lists if a != [confirm]]
    d, cg = sb.case()
    for a in lists:
        rc, o, err, before, after = sb.run(d, cg, a)
        c = changes(before, after, mtime=True)
        run.add()
        if c:
            raise Violation("the generator changes files without the confirmation switch as its only argument: %s" % c[:5], "arguments %r" % a, {"arguments": a})
        if confirm not in o + err or "sage" not in o + err:
            raise Violation("the generator does not print how to use it", "arguments %r: exit %d, output %r" % (a, rc, (o + err)[:500]), {"arguments": a})
    obs["argument lists"] = len(lists)
    run.samples += ["arguments %r: nothing written" % a for a in lists[10:13]]
    shutil.rmtree(d)
    
    # 2. with the switch: exactly the configured files
    expect = {}

    def confirmed(what, prepare):
        d, cg = sb.case(prepare)
        outs = outputs(cg)
        rc, o, err, before, after = sb.run(d, cg, [confirm])
        rel = sorted(os.path.relpath(p, d) for p in outs)
        c = changes(before, after)
        other = [x for x in c if x.split(" ", 1)[1] not in rel]
        run.add()
        if rc != 0:
            raise Violation("the generator fails on a valid configuration: exit %d: %s" % (rc, err[:500]), what, {"case": what, "fonts": fonts})
        if other:
            raise Violation("the generator changes files other than its output files: %s" % other[:5], what, {"case": what, "fonts": fonts})
        for p in rel:
            if p not in after or after[p][0] != stat.S_IFREG:
                raise Violation("the generator reports success without having written %s" % p, what, {"case": what, "fonts": fonts})
        conf = json.load(open(os.path.join(cg, "config.json"), encoding="utf-8"))
        for g, p in zip(conf["glyphSets"], outs):
            # the same font gives the same file wherever and over whatever it is written
            k = font_key(g)
            h = after[os.path.relpath(p, d)][2]
            if expect.setdefault(k, h) != h:
                raise Violation("the generator writes a different %s file in this setting" % g["name"], what, {"case": what, "fonts": fonts})
        shutil.rmtree(d)
        run.samples.append("%s: wrote %s" % (what, rel)) if len(run.samples) < 6 else None

    def old_files(data):
        def f(cg):
            for p in outputs(cg):
                open(p, "wb").write(data)
        return f

    def elsewhere(cg):
        os.mkdir(os.path.join(cg, "made"))
        edit_json(os.path.join(cg, "config.json"), lambda j: [g.update(rustout="made/%s file.txt" % g["name"]) for g in j["glyphSets"]])

    def subset(cg):
        def f(j):
            j["glyphSets"] = r.sample(j["glyphSets"], r.randint(1, 4))
        edit_json(os.path.join(cg, "config.json"), f)

    def absolute(cg):
        edit_json(os.path.join(cg, "config.json"), lambda j: [g.update(rustout=os.path.join(os.path.dirname(cg), "abs_%s.rs" % g["name"])) for g in j["glyphSets"]])

    def stray(cg):
        for n in ("../src/fonts/emoji.rs.tmp", "../src/fonts/emoji.rs.bak", "../src/fonts/emoji.rs~", "../src/fonts/.emoji.rs.swp", "../src/fonts/old.rs", "emoji.rs", "../src/fonts/tmp", "config.json.bak"):
            open(os.path.join(cg, n), "w").write("keep me\n")

    good = [("no output file exists", None), ("output files exist and are longer", old_files(b"// old\n" * 1_000_000)), ("output files exist and are empty", old_files(b"")),
            ("outputs configured elsewhere", elsewhere), ("absolute output paths", absolute), ("similar files lie beside the outputs", stray), ("some of the fonts", subset), ("other fonts", subset)]
    if seed is None:
        good = good[:2]
    for what, prepare in good:
        confirmed("%s, %s" % (what, fonts), prepare)
    obs["confirmed runs"] = len(good)
    # 3. faults: failure is reported, and still nothing but output files is touched
    fl = faults(os.path.join(sb.plain, "codegen"), r, run.thorough)
    if not sb.unpriv:
        fl = [f for f in fl if not f[0].endswith("is read-only")]
    if seed is None and not run.thorough:
        fl = [f for f in fl if f[0].endswith("is missing") or f[0].startswith("config.json")]
    n_fault = 0

    def faulty(item):
        what, prepare = item
        d, cg = sb.case(prepare)
        try:
            outs = outputs(cg)
        except (ValueError, OSError, KeyError):
            outs = outputs(os.path.join(sb.plain, "codegen"))
            outs = [os.path.join(d, "repo", os.path.relpath(p, sb.plain)) for p in outs]
        rel = {os.path.relpath(p, d) for p in outs}
        rc, o, err, before, after = sb.run(d, cg, [confirm])
        c = [x for x in changes(before, after) if x.split(" ", 1)[1] not in rel]
        good = False
        if rc == 0 and what.startswith("output "):
            # it may have found a way to write the file all the same (removing what was in its place)
            try:
                conf = json.load(open(os.path.join(cg, "config.json"), encoding="utf-8"))
                good = all(after.get(os.path.relpath(q, d), (0, 0, ""))[2] == expect.get(font_key(g)) for g, q in zip(conf["glyphSets"], outs))
            except (ValueError, OSError):
                pass
        shutil.rmtree(d)
        if rc == 0 and not good:
            return Violation("the generator reports success although %s" % what, "exit status 0, output %r, %s" % (o[-300:], fonts), {"fault": what, "fonts": fonts})
        if c:
            return Violation("the generator changes files other than its output files when it fails: %s" % c[:5], what, {"fault": what})
        return None
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for item, v in zip(fl, ex.map(faulty, fl)):
            run.add()
            n_fault += 1
            if v:
                raise v
    obs["faults"] = n_fault
    obs["fault list"] = [w for w, _ in fl]
    run.samples += ["fault: %s, %s" % (w, fonts) for w, _ in r.sample(fl, 3)]
    run.log("%s: %d argument lists, %d confirmed runs, %d faults" % (fonts, len(lists), len(good), len(fl)))
