"""Shared machinery: building the harness, running TLC, evidence, verdicts."""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
CPUS = max(2, os.cpu_count() or 2)


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, replay):
        Exception.__init__(self, what)
        self.what, self.replay = what, replay


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, timeout=600, env=None, cwd=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd)
    return p.returncode, p.stdout.decode("utf-8", "replace")


# ---------------------------------------------------------------- building
def clean_env():
    e = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR")}
    e["CARGO_NET_OFFLINE"] = "true"
    return e


VARIANTS = {
    "debug": [],
    "release": ["--release"],
    "nostd": ["--no-default-features", "--features", "ptr"],
    "noptr": ["--no-default-features", "--features", "vec"],
}


def build(variant):
    """Build the harness against /repo's working tree; returns the binary."""
    td = os.path.join(BUILD, "target-" + variant)
    cmd = ["cargo", "build", "--offline", "--target-dir", td] + VARIANTS[variant]
    p = subprocess.run(cmd, cwd=os.path.join(ROOT, "harness"), env=clean_env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=800)
    if p.returncode != 0:
        raise ToolError("harness does not build (%s):\n%s" % (variant, p.stdout.decode()[-4000:]))
    # cargo compares modification times; make the dependence on content explicit
    return os.path.join(td, "release" if variant == "release" else "debug", "conf")


def touch_key(variants):
    """cargo rebuilds by modification time: if the content of /repo changed in
    any other way, drop the cached build."""
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "src"), os.path.join(ROOT, "harness", "src")):
        for d, _, fs in sorted(os.walk(base)):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    h.update(open(os.path.join(REPO, "Cargo.toml"), "rb").read())
    key = h.hexdigest()
    for v in variants:
        kf = os.path.join(BUILD, "target-%s.key" % v)
        old = open(kf).read() if os.path.exists(kf) else ""
        if old != key:
            for d in ("debug", "release"):
                fp = os.path.join(BUILD, "target-" + v, d, ".fingerprint")
                if os.path.isdir(fp):
                    shutil.rmtree(fp)
            os.makedirs(BUILD, exist_ok=True)
            open(kf, "w").write(key)


def build_all(variants):
    os.makedirs(BUILD, exist_ok=True)
    touch_key(variants)
    with ThreadPoolExecutor(len(variants)) as ex:
        return dict(zip(variants, ex.map(build, variants)))


# ---------------------------------------------------------------- TLC
class Tlc:
    """One TLC run; .rc 0 ok, .states, .distinct."""
    pass


def tlc(work, name, module, cfg, env=None, workers=1, mem="2g", timeout=800, extra=(), gc="-XX:+UseSerialGC", stack="16m"):
    md = os.path.join(work, "meta-" + name)
    cmd = ["java", gc, "-Xmx" + mem, "-Xss" + stack, "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", md,
           "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
    e = {k: v for k, v in os.environ.items() if k != "JAVA_TOOL_OPTIONS"}
    if env:
        e.update(env)
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s (%s s)" % (name, timeout))
    finally:
        shutil.rmtree(md, ignore_errors=True)
    r = Tlc()
    r.out = p.stdout.decode("utf-8", "replace")
    r.rc = p.returncode
    r.wall = time.time() - t0
    m = re.findall(r"^([\d,]+) states generated, ([\d,]+) distinct", r.out, re.M)
    r.states = int(m[-1][0].replace(",", "")) if m else 0
    r.distinct = int(m[-1][1].replace(",", "")) if m else 0
    m = re.findall(r"number of states generated: ([\d,]+)", r.out)
    if m and not r.states:
        r.states = int(m[-1].replace(",", ""))
    return r


def model_check(work, name, module, cfg, **kw):
    """An exhaustive (or simulated) check of the specification itself.  It does
    not depend on /repo, so anything but success is an error of the check."""
    r = tlc(work, name, module, cfg, **kw)
    if r.rc != 0:
        raise ToolError("model check %s failed (rc %d):\n%s" % (name, r.rc, r.out[-3000:]))
    return r


# ---------------------------------------------------------------- traces
class Shards:
    """Collects event logs into shards and lets TLC judge them in parallel."""

    def __init__(self, work, prop, module, cfg, env, size=12000, name="trace"):
        self.name = name
        self.work, self.prop, self.module, self.cfg, self.env, self.size = work, prop, module, cfg, env, size
        self.cur, self.n, self.files = [], 0, []
        self.sessions = 0
        self.ops = {}
        self.bad = None
        self.states = self.transitions = 0
        self.samples = []

    def add(self, text, src, opener='{"op":"open"'):
        lines = text.splitlines()
        self.sessions += sum(1 for l in lines if l.startswith(opener))
        for l in lines:
            m = re.match(r'\{"op":"([^"]+)"', l)
            if m:
                self.ops[m.group(1)] = self.ops.get(m.group(1), 0) + 1
        # keep whole sessions together
        start = 0
        for k, l in enumerate(lines):
            if l.startswith(opener) and len(self.cur) + (k - start) >= self.size:
                self.cur += [(x, src) for x in lines[start:k]]
                start = k
                self.flush()
        self.cur += [(x, src) for x in lines[start:]]
        if len(self.cur) >= self.size:
            self.flush()

    def flush(self):
        if not self.cur:
            return
        f = os.path.join(self.work, self.name + "-%03d.ndjson" % len(self.files))
        with open(f, "w") as h:
            h.write("\n".join(x for x, _ in self.cur) + "\n")
        self.files.append((f, [s for _, s in self.cur]))
        self.n += len(self.cur)
        self.cur = []

    def judge(self):
        self.flush()

        def one(k):
            f, srcs = self.files[k]
            env = dict(self.env)
            env["TRACE"] = f
            r = tlc(self.work, "%s%03d" % (self.name, k), self.module, self.cfg, env=env, mem="3g")
            if r.rc != 0 and re.search(r"OutOfMemory|StackOverflow|java heap space", r.out, re.I):
                r = tlc(self.work, "%s%03d" % (self.name, k), self.module, self.cfg, env=env, mem="6g", stack="512m")
            return k, r
        with ThreadPoolExecutor(min(CPUS, max(1, len(self.files)))) as ex:
            res = list(ex.map(one, range(len(self.files))))
        for k, r in res:
            f, srcs = self.files[k]
            self.states += r.distinct
            self.transitions += r.states
            if r.rc == 0:
                if r.distinct != len(srcs) + 1:
                    raise ToolError("trace shard accepted with %d states for %d lines" % (r.distinct, len(srcs)))
                continue
            if "is violated" in r.out or re.search(r"Postcondition \w+ .* is false", r.out):
                if self.bad is None:
                    n = r.distinct if "Postcondition" in r.out else max(1, r.distinct - 1)
                    self.bad = (f, n, srcs[min(n, len(srcs)) - 1])
                continue
            # an event the specification cannot even give a value to (an index
            # outside the storage, a length no sequence has): not a behaviour
            # of the specification either
            if r.rc in (75, 76, 77, 255, 13) and re.search(r"Attempted to|The exception was a|not enumerable|outside the domain|"
                                                            r"was not in the domain|nested expressions", r.out) \
                    and not re.search(r"nonexistent field|OutOfMemory|StackOverflow|Parsing or semantic analysis failed|java heap space", r.out, re.I):
                if self.bad is None:
                    self.bad = (f, max(1, r.distinct), srcs[min(max(1, r.distinct), len(srcs)) - 1])
                continue
            raise ToolError("TLC failed on %s (rc %d):\n%s" % (f, r.rc, r.out[-3000:]))
        return self.bad

    def explain(self):
        """The rejected event, its session, and how it was produced."""
        f, n, src = self.bad
        lines = open(f).read().splitlines()
        n = min(n, len(lines))
        k = n - 1
        while k > 0 and '"op":"open"' not in lines[k][:14]:
            k -= 1
        return lines[n - 1], lines[k:n], src


def write_replay(prop, what, session, src, extra=None):
    d = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s.json" % prop)
    with open(p, "w") as h:
        json.dump({"property": prop, "rejected": what, "produced_by": src, "session": session, "extra": extra or {}}, h, indent=1)
        h.write("\n")
    return p


def evidence(prop, level, coverage, t0, assumptions, violations):
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as h:
        json.dump({"property": prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": level, "coverage": coverage,
                   "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": violations}, h, indent=1)
        h.write("\n")


def workdir(prop):
    w = os.path.join(BUILD, "run", prop)
    if os.path.isdir(w):
        shutil.rmtree(w)
    os.makedirs(w)
    return w


class Rng:
    """Small deterministic generator (independent of Python's version)."""

    def __init__(self, seed):
        self.s = (seed * 0x9E3779B97F4A7C15 + 0x1234567) & (2**64 - 1)

    def next(self):
        self.s = (self.s * 6364136223846793005 + 1442695040888963407) & (2**64 - 1)
        return self.s >> 33

    def below(self, n):
        return self.next() % n if n > 0 else 0


def known_findings(prop, binary):
    """Print a line for every recorded finding that still shows itself."""
    out = []
    if not binary:
        return out
    f = os.path.join(ROOT, "known_findings.txt")
    for l in open(f):
        m = re.match(r"finding: property=(\w+) probe=(\S+) (.*)$", l.strip())
        if m and m.group(1) == prop:
            p = subprocess.run([binary, "probe", m.group(2)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
            if p.returncode != 0:
                print("KNOWN-FINDING: property=%s %s" % (prop, m.group(3)))
                out.append(m.group(3))
    return out
