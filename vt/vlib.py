"""Shared machinery: builds, the JSON-lines driver, generated programs, exploration, evidence."""
import hashlib, json, os, random, re, shutil, struct, subprocess, sys, threading, time
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("WU_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
GEN = os.path.join(TARGET, "gen")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


class CheckError(Exception):
    """The machinery itself could not work (exit 2): never a verdict."""


class BuildFailed(Exception):
    pass


def tier(q, t):
    return t if THOROUGH else q


def env(toolchain="stable", target=None, extra=None):
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUSTC_WRAPPER="",
             RUSTUP_TOOLCHAIN=toolchain, CARGO_TARGET_DIR=target or TARGET, RUST_BACKTRACE="0", NO_COLOR="1")
    e.pop("RUSTFLAGS", None)
    e.pop("RUST_LOG", None)
    if extra:
        e.update(extra)
    return e


def cargo(args, cwd, toolchain="stable", target=None, timeout=840, extra=None):
    return subprocess.run(["cargo"] + args, cwd=cwd, env=env(toolchain, target, extra), stdout=subprocess.PIPE,
                          stderr=subprocess.PIPE, timeout=timeout, preexec_fn=_limit)


def _limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))


def build_driver(lsp=False):
    d = os.path.join(VERIF, "harness", "driver")
    if REPO != "/repo":         # development only: a driver for another copy of the repository
        alt = os.path.join(TARGET, "gen", "driver-alt")
        shutil.rmtree(alt, ignore_errors=True)
        shutil.copytree(d, alt)
        t = open(os.path.join(alt, "Cargo.toml")).read().replace('"/repo', '"' + REPO)
        open(os.path.join(alt, "Cargo.toml"), "w").write(t)
        d = alt
    args = ["build", "--offline", "--locked"] + (["--features", "lsp"] if lsp else [])
    p = cargo(args, d)
    if p.returncode != 0:
        raise CheckError("driver does not build:\n" + p.stderr.decode(errors="replace")[-4000:])
    src = os.path.join(TARGET, "debug", "driver")
    return src


def build_bin(crate, name):
    """build one of /repo's programs from its working tree (into /verif/target)"""
    p = cargo(["build", "--offline", "--locked", "-p", crate, "--bin", name], REPO)
    if p.returncode != 0:
        raise CheckError(f"{crate} does not build:\n" + p.stderr.decode(errors="replace")[-4000:])
    return os.path.join(TARGET, "debug", name)


class Crashed(Exception):
    pass


class Server:
    """A JSON-lines child process; restarted when it dies."""

    def __init__(self, path, args=(), timeout=20):
        self.path, self.args, self.timeout = path, list(args), timeout
        self.p = None
        self.hangs = 0
        self.pid = None

    def start(self):
        self.pid = os.getpid()
        self.p = subprocess.Popen([self.path] + self.args, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env())

    def ask_line(self, line):
        if self.pid != os.getpid() or self.p is None or self.p.poll() is not None:
            self.start()
        if self.hangs >= 3:
            raise Crashed("the program hung repeatedly")
        t0 = time.time()
        timer = threading.Timer(self.timeout, self.p.kill)
        timer.start()
        try:
            self.p.stdin.write(line.encode() + b"\n")
            self.p.stdin.flush()
            r = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            r = b""
        finally:
            timer.cancel()
        if not r:
            rc = self.p.wait()
            self.p = None
            if time.time() - t0 > self.timeout * .9:
                self.hangs += 1
                raise Crashed(f"no answer within {self.timeout} s")
            raise Crashed(f"process ended (status {rc})")
        return r.decode()

    def ask(self, req):
        return json.loads(self.ask_line(json.dumps(req, ensure_ascii=False)))

    def call(self, c, **kw):
        """-> ("ok", value) or ("panic", message)"""
        try:
            r = self.ask(dict(kw, c=c))
        except Crashed as e:
            return "panic", str(e)
        if "panic" in r:
            return "panic", r["panic"]
        if "ok" not in r:
            raise CheckError(f"driver: {r}")
        return "ok", r["ok"]

    def close(self):
        if self.p and self.pid == os.getpid() and self.p.poll() is None:
            self.p.stdin.close()
            try:
                self.p.wait(5)
            except subprocess.TimeoutExpired:
                self.p.kill()


# ---------------------------------------------------------------- generated programs
class Prog:
    """A generated crate. Cases are numbered chunks of source; compile errors map back to cases."""

    def __init__(self, name, prelude="", features=None, default_features=True, toolchain="stable", target=None,
                 profile=None, deps=()):
        self.name, self.prelude, self.features = name, prelude, features or []
        self.default_features, self.toolchain, self.target = default_features, toolchain, target
        self.cases, self.profile, self.deps = [], profile, list(deps)
        self.tail = ""
        self.dir = os.path.join(GEN, name)

    def add(self, src, meta=None):
        self.cases.append((src, meta))
        return len(self.cases) - 1

    def write(self):
        os.makedirs(os.path.join(self.dir, "src"), exist_ok=True)
        df = "" if self.default_features else ", default-features = false"
        ft = f", features = {json.dumps(self.features)}" if self.features else ""
        toml = f"""[package]
name = "{self.name}"
version = "0.0.0"
edition = "2024"
publish = false
[workspace]
[dependencies]
whippyunits = {{ path = "{REPO}"{df}{ft} }}
""" + "".join(d + "\n" for d in self.deps) + """
[profile.dev]
debug = 0
opt-level = 0
incremental = false
[profile.release]
debug = 0
incremental = false
"""
        _write(os.path.join(self.dir, "Cargo.toml"), toml)
        lock = os.path.join(VERIF, "harness", "gen.lock")
        shutil.copyfile(lock, os.path.join(self.dir, "Cargo.lock"))
        out, self.ranges, line = [self.prelude], [], self.prelude.count("\n") + 2
        for src, _ in self.cases:
            n = src.count("\n") + 1
            self.ranges.append((line, line + n - 1))
            out.append(src)
            line += n
        out.append(self.tail)
        _write(os.path.join(self.dir, "src", "main.rs"), "\n".join(out))

    def _run(self, cmd, timeout):
        self.write()
        args = [cmd, "--offline", "--message-format=json"]
        if self.profile == "release":
            args.append("--release")
        p = cargo(args, self.dir, self.toolchain, self.target, timeout)
        errs, other = {}, []
        for l in p.stdout.decode(errors="replace").splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
                continue
            msg = m["message"]
            is_gen = m.get("target", {}).get("name") == self.name
            hit = set()
            if is_gen:
                for sp in msg["spans"]:
                    if sp["is_primary"]:
                        hit |= self._cases_of(sp)
                if not hit:
                    for sp in msg["spans"]:
                        hit |= self._cases_of(sp)
            if hit:
                for h in hit:
                    errs.setdefault(h, []).append(msg)
            elif not msg["message"].startswith("aborting due to"):
                other.append(msg)
        return p, errs, other

    def _cases_of(self, sp):
        r = set()
        while sp:
            if sp["file_name"].endswith("main.rs"):
                for l in (sp["line_start"],):
                    for i, (a, b) in enumerate(self.ranges):
                        if a <= l <= b:
                            r.add(i)
            ex = sp.get("expansion")
            sp = ex["span"] if ex else None
        return r

    def check(self, timeout=800):
        """cargo check -> (ok, {case: [messages]}, other messages)"""
        p, errs, other = self._run("check", timeout)
        return p.returncode == 0, errs, other, p.stderr.decode(errors="replace")

    def build(self, timeout=800):
        p, errs, other = self._run("build", timeout)
        return p.returncode == 0, errs, other, p.stderr.decode(errors="replace")

    @property
    def exe(self):
        return os.path.join(self.target or TARGET, "release" if self.profile == "release" else "debug", self.name)


def _write(path, text):
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def split_repo_errors(other, stderr):
    """True when the library itself does not compile (nothing can be decided)."""
    return "could not compile `whippyunits" in stderr


# ---------------------------------------------------------------- numbers
def f64_hex(h):
    return struct.unpack(">d", bytes.fromhex(h))[0]


def hex_f64(x):
    return struct.pack(">d", x).hex()


def f32r(x):
    """round a python float to f32"""
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return float("inf") if x > 0 else float("-inf")


def samples(strategy, n, sd):
    """n values of a Hypothesis strategy, deterministically"""
    from hypothesis import HealthCheck, Phase, given, seed, settings
    out = []
    k = int.from_bytes(hashlib.blake2b(str(sd).encode(), digest_size=4).digest(), "big")

    def body(x):
        out.append(x)
    seed(k)(settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck),
                     phases=(Phase.generate,))(given(strategy)(body)))()
    return out


# ---------------------------------------------------------------- the check object
class Violation(Exception):
    def __init__(self, key, what, replay):
        super().__init__(what)
        self.key, self.what, self.replay = key, what, replay


class Check:
    def __init__(self, pid, rule, level="exploration"):
        self.pid, self.rule, self.level = pid, rule, level
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.vkeys = set()
        self.known_hit = {}
        self.assumptions = []
        self.notes = {}
        self.parts = {}
        self.rng = random.Random(f"{SEED}/{pid}")
        self.known = {}
        kf = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(kf):
            for l in open(kf):
                l = l.strip()
                if l:
                    e = json.loads(l)
                    if e.get("property") == pid and e.get("status") == "known":
                        self.known[e["key"]] = e["what"]

    # -- recording
    def count(self, part, key=None, nontrivial=True, sample=None):
        self.evaluations += 1
        d = self.parts.setdefault(part, {"evaluations": 0, "distinct_nontrivial": 0})
        d["evaluations"] += 1
        if nontrivial and key is not None:
            h = hashlib.blake2b(f"{part}|{key}".encode(), digest_size=8).digest()
            if h not in self.distinct:
                self.distinct.add(h)
                d["distinct_nontrivial"] += 1
                n = d["distinct_nontrivial"]
                if sample is not None and (n & (n - 1)) == 0 and len([s for s in self.samples if s["part"] == part]) < 8:
                    self.samples.append({"part": part, "case": sample})

    def is_known(self, key):
        return key in self.known

    def report(self, key, what, replay):
        """Record a violation (or a listed finding). Returns True when it is a new violation."""
        if key in self.known:
            self.known_hit[key] = what
            return False
        if key in self.vkeys:
            return True
        self.vkeys.add(key)
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.pid}-{len(self.violations)}.json")
        with open(path, "w") as f:
            json.dump({"property": self.pid, "key": key, "what": what, "seed": SEED, "tier": TIER, "case": replay}, f,
                      indent=1, ensure_ascii=False, default=str)
        self.violations.append((key, what, path))
        return True

    def explore(self, part, strategy, oracle, n, sample=lambda c: c, key=repr, workers=None):
        """Generated-input search with shrinking, in parallel worker processes (each with its own seed and its own
        copies of the servers). oracle(case) -> None | (key, what[, replay]); may return False for a trivial case
        (evaluated, not counted as non-trivial)."""
        w = workers or (8 if n >= 1000 else 1)
        if w == 1:
            r = [self._explore(part, strategy, oracle, n, sample, key, 0)]
        else:
            import pickle, tempfile
            sys.stdout.flush()
            with tempfile.TemporaryDirectory() as tmp:
                pids = []
                for k in range(w):
                    pid = os.fork()
                    if pid == 0:
                        rc = 1
                        try:
                            os.environ["TMPDIR"] = tmp
                            x = self._explore(part, strategy, oracle, (n + w - 1) // w, sample, key, k)
                            with open(f"{tmp}/{k}", "wb") as f:
                                pickle.dump(x, f)
                            rc = 0
                        except BaseException:
                            import traceback
                            with open(f"{tmp}/{k}.err", "w") as f:
                                traceback.print_exc(file=f)
                        finally:
                            os._exit(rc)
                    pids.append(pid)
                for pid in pids:
                    os.waitpid(pid, 0)
                r = []
                for k in range(w):
                    if os.path.exists(f"{tmp}/{k}"):
                        with open(f"{tmp}/{k}", "rb") as f:
                            r.append(pickle.load(f))
                    else:
                        e = open(f"{tmp}/{k}.err").read() if os.path.exists(f"{tmp}/{k}.err") else "worker died"
                        raise CheckError(f"worker {k} of {part}: {e}")
        known, fails = {}, []
        d = self.parts.setdefault(part, {"evaluations": 0, "distinct_nontrivial": 0})
        for x in r:
            known.update(x["known"])
            if x["fail"]:
                fails.append(x["fail"])
            self.evaluations += x["evaluations"]
            d["evaluations"] += x["evaluations"]
            d["distinct_nontrivial"] += len(x["distinct"] - self.distinct)
            self.distinct |= x["distinct"]
        for i in range(8):
            for x in r:
                if i < len(x["samples"]) and len([q for q in self.samples if q["part"] == part]) < 8:
                    self.samples.append(x["samples"][i])
        self.known_hit.update(known)
        for k, what, rep in fails:
            self.report(k, what, {"part": part, "case": rep})

    def _explore(self, part, strategy, oracle, n, sample, key, worker):
        from hypothesis import HealthCheck, Phase, given, seed, settings
        import hypothesis.errors as he
        st = {"fail": None, "known": {}, "evaluations": 0, "distinct": set(), "samples": []}
        hit = []

        def body(case):
            r = oracle(case)
            st["evaluations"] += 1
            if r is not False:
                h = hashlib.blake2b(f"{part}|{key(case)}".encode(errors="surrogatepass"), digest_size=8).digest()
                if h not in st["distinct"]:
                    st["distinct"].add(h)
                    m = len(st["distinct"])
                    if (m & (m - 1)) == 0 and len(st["samples"]) < 8:
                        st["samples"].append({"part": part, "case": sample(case)})
            if r is None or r is False or r is True:
                return
            k, what = r[0], r[1]
            rep = r[2] if len(r) > 2 else sample(case)
            if k in self.known:
                st["known"][k] = what
                return
            hit.append((k, what, rep))
            raise Violation(k, what, rep)

        sd = int.from_bytes(hashlib.blake2b(f"{SEED}/{self.pid}/{part}/{worker}".encode(), digest_size=4).digest(), "big")
        fn = seed(sd)(settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                               suppress_health_check=list(HealthCheck), print_blob=False,
                               phases=(Phase.generate, Phase.shrink))(given(strategy)(body)))
        try:
            import contextlib, io
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                fn()
        except Violation as v:
            st["fail"] = (v.key, v.what, v.replay)
        except he.Flaky as e:
            if not hit:
                raise
            k, w, rep = hit[-1]
            st["fail"] = (k, w + " (not reproduced on re-run: " + str(e)[:200] + ")", rep)
        return st

    def finish(self):
        for k, w in self.known.items():
            if k in self.known_hit:
                print(f"KNOWN-FINDING: property={self.pid} {k}: {self.known_hit[k]}"[:600].replace("\n", " "))
        for k, w, path in self.violations:
            print(f"  {k}: {w}"[:1500])
            print(f"VIOLATION property={self.pid} replay={path}")
        ev = {
            "property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
            "level": self.level,
            "coverage": dict({
                "evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct), "rule": self.rule,
                "samples": self.samples or ["none"], "parts": self.parts}, **self.notes),
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        ev["coverage"]["known_findings_seen"] = sorted(self.known_hit)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
        print(f"{self.pid}: {self.evaluations} cases, {len(self.distinct)} distinct non-trivial, "
              f"{len(self.violations)} violations, {ev['wall_s']} s")
        return 1 if self.violations else 0
