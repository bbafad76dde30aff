"""Checks decided by the algorithm contracts (AlgoSpec.tla): TLC enumerates
every small input, a seeded generator adds large ones; the real crate runs
them and TLC judges every recorded call."""
import json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from core import *

SORTS = ["qs_range", "qs_prange", "qs_bounds", "is_idx", "is_rng", "is_plower", "is_pidx", "is_rust"]
QS = SORTS[:3]
STABLE = ["is_idx", "is_rng", "is_pidx", "is_rust"]
MERGES = ["merge_idx", "merge_rng"]
LOWERS = ["lb", "lb_raw", "lb_prange", "lb_pslice", "lb_prange_", "lb_pslice_"]
BINS = ["bs", "bs_by", "bs_prange", "bs_pslice", "bs_prange_", "bs_pslice_"]
RANGED = ["lb_prange_", "lb_pslice_", "bs_prange_", "bs_pslice_"]
ZIPS = ["zip_rr", "zip_rm", "zip_mr", "zip_mm"]
COPIES = ["copy", "copy_prange", "dot", "dot_prange"]
POINTERS = {"qs_prange", "is_plower", "is_pidx", "lb_prange", "lb_pslice", "bs_prange", "bs_pslice", "copy_prange", "dot",
            "dot_prange"} | set(RANGED) | set(ZIPS)
OPS = {"C16": SORTS, "C17": STABLE + ["is2"], "C18": SORTS + ["is2", "heapify"] + MERGES + LOWERS + BINS + ZIPS,
       "C19": LOWERS + BINS, "C20": MERGES, "C21": ["heapify"], "C22": ZIPS + COPIES}
# how the comparisons answer in the screened calls: "h" honest, others see harness/src/algo.rs
BULK = {"C16": "h", "C17": "h", "C18": "paaaLEG", "C19": "hhhhhpaaLEG", "C20": "hhhhhpaaLEG", "C21": "h", "C22": "h"}
# zero sized elements: the algorithms on indices (pointer ranges: see known_findings.txt)
ZST_OPS = ["qs_range", "qs_bounds", "is_idx", "is_rng", "is_rust", "is2", "heapify", "merge_idx", "merge_rng", "lb", "lb_raw", "bs", "bs_by"]


def line(c, elem):
    return "%s;%s;%d;%s;%s;%s;%s" % (c["op"], c["pol"], c["k"], ",".join(map(str, c["x"])), ",".join(map(str, c["y"])),
                                     ",".join(map(str, c["n"])), elem)


def case(op, pol, k, x, y, n):
    return {"op": op, "pol": pol, "k": k, "x": x, "y": y, "n": n}


def keys(rng, n):
    """n keys following one of many patterns."""
    v = pattern(rng, n)
    # some patterns are only met after a disturbance
    d = rng.below(8)
    if d == 0 and n: v[rng.below(n)] = v[rng.below(n)]
    elif d == 1 and n:
        a, b = rng.below(n), rng.below(n)
        v[a], v[b] = v[b], v[a]
    elif d == 2 and n:
        k = rng.below(n)
        v = v[k:] + v[:k]
    elif d == 3: v.reverse()
    return v


def pattern(rng, n):
    p = rng.below(22)
    if p == 0: return list(range(n))
    if p == 1: return list(range(n, 0, -1))
    if p == 2: return [5] * n
    if p == 3: return [rng.below(2) for _ in range(n)]
    if p == 4: return [min(i, n - i) for i in range(n)]
    if p == 5: return [max(i, n - i) for i in range(n)]
    if p == 6: return [i % 7 for i in range(n)]
    if p == 7:
        v = list(range(n))
        for _ in range(1 + rng.below(4)):
            if n: v[rng.below(n)] = rng.below(n + 2)
        return v
    if p == 8: return [i * 37 % 101 for i in range(n)]
    if p == 9: return [rng.below(max(1, n // 3)) - 5 for _ in range(n)]
    if p == 10: return list(range(n // 2)) + list(range(n - n // 2))
    if p in (11, 12):
        # every k-th element in order, the others anyhow
        k, o = 2 + rng.below(6), rng.below(3)
        s = rng.below(3) - 1
        return [i * (1, -1)[p - 11] if i % k == o % k else rng.below(2 * n + 1) * (1, -1, 0)[s] for i in range(n)]
    if p == 13:
        # sorted in blocks, the blocks anyhow
        k = 1 + rng.below(max(1, n // 3))
        return [rng.below(9) * n + i if i % k == 0 else i for i in range(n)]
    if p == 14:
        # sorted apart from one stretch
        a = rng.below(n + 1)
        z = a + rng.below(min(40, n - a) + 1)
        return list(range(a)) + [rng.below(n + 1) for _ in range(z - a)] + list(range(z, n))
    if p == 15: return [0] * (n // 2) + [1] * (n - n // 2)
    if p == 16: return [7] * (n - n // 20) + [rng.below(14) for _ in range(n // 20)]
    if p == 17:
        # the smallest (largest) keys where a pivot is likely to be looked for
        v = [rng.below(1000) for _ in range(n)]
        for i in (0, n // 2, n - 1, n // 4, n - 2 - n // 4):
            if n and 0 <= i < n and rng.below(3): v[i] = [-1, 2000, 2000, 500][rng.below(4)]
        return v
    if p == 18: return [(i ^ (i >> 1)) % max(1, n) for i in range(n)]
    if p == 19: return [n - i if i % 2 else i for i in range(n)]
    return [rng.below(1000000) - 500000 for _ in range(n)]


def size(rng, big):
    k = rng.below(40)
    if k >= 38: return big + rng.below(5 * big + 1)
    return rng.below(12) if k < 12 else rng.below(40) if k < 30 else rng.below(big + 1)


def generated(prop, rng, count):
    big = 300 if THOROUGH else 120
    out = []
    while len(out) < count:
        ops = OPS[prop]
        op = ops[rng.below(len(ops))]
        pol, k = "h", 0
        if prop == "C18" or (prop in ("C19", "C20") and rng.below(4) == 0):
            pol = "pppaaaLEG"[rng.below(9)]
            if op in ZIPS:
                pol = "p"
            if op in LOWERS + BINS and pol == "p" and prop != "C19":
                pol = "a"
        n = size(rng, big) if pol == "h" else min(200, size(rng, 40))
        if pol == "p":
            # somewhere in the run, sometimes beyond it
            k = 1 + rng.below(1 + n * (1 + rng.below(6)))
        elif pol == "a":
            k = 1 + rng.below(5000)
        if op in MERGES:
            n = max(1, n)
            x = keys(rng, n)
            le = rng.below(n + 1)
            x = sorted(x[:le]) + sorted(x[le:])
            y = [rng.below(50) for _ in range(max(0, le - 1 + rng.below(3)) if rng.below(3) else rng.below(n + 4))]
            out.append(case(op, pol, k, x, y, [le]))
        elif op in LOWERS + BINS:
            n = n if rng.below(4) else rng.below((4, 20)[rng.below(2)] * big)
            x = sorted(abs(v) * 2 for v in keys(rng, n))
            lo, hi = 0, n
            if op in RANGED and rng.below(3):
                lo = rng.below(n + 1)
                hi = lo + rng.below(n - lo + 1)
            t = x[rng.below(n)] + rng.below(3) if n and rng.below(6) else rng.below(30)
            t = max(0, t - 1) if rng.below(2) else t
            if pol == "p":
                k = 1 + rng.below(12)
            out.append(case(op, pol, k, x, [], [lo, hi, t]))
        elif op == "is2":
            x = keys(rng, n)
            m = n if rng.below(5) else size(rng, big)
            out.append(case(op, pol, k, x, [rng.below(9) for _ in range(m)], []))
        elif op in ZIPS:
            a, b = size(rng, 60), size(rng, 60)
            if rng.below(4) == 0:
                b = a
            lo1, lo2 = rng.below(a + 1), rng.below(b + 1)
            hi1, hi2 = lo1 + rng.below(a - lo1 + 1), lo2 + rng.below(b - lo2 + 1)
            out.append(case(op, pol, k if pol == "h" else 1 + rng.below(20), list(range(a)), list(range(b)), [lo1, hi1, lo2, hi2, rng.below(4)]))
        elif op in COPIES:
            out.append(case(op, "h", 0, [rng.below(200) - 100 for _ in range(size(rng, 60))], [rng.below(200) - 100 for _ in range(size(rng, 60))], []))
        else:
            out.append(case(op, pol, k, keys(rng, n), [], []))
    return out


def large(prop, rng):
    """A few inputs of thousands of elements for every algorithm."""
    out = []
    for op in OPS[prop]:
        for j in range(12 if THOROUGH else 3):
            n = 900 + rng.below(3500 if THOROUGH else 2400)
            if op in LOWERS + BINS:
                n = rng.below(30000) if THOROUGH else 1000 + rng.below(9000)
                x = sorted(abs(v) * 2 for v in keys(rng, n))
                lo, hi = 0, n
                if op in RANGED and j % 2:
                    lo = rng.below(n + 1)
                    hi = lo + rng.below(n - lo + 1)
                out.append(case(op, "h", 0, x, [], [lo, hi, max(0, x[rng.below(n)] + 1 - rng.below(3))]))
            elif op in MERGES:
                x = keys(rng, n)
                le = [n // 2, rng.below(n + 1), rng.below(40)][j % 3]
                out.append(case(op, "h", 0, sorted(x[:le]) + sorted(x[le:]), [rng.below(50) for _ in range(le + rng.below(3))], [le]))
            elif op == "is2":
                out.append(case(op, "h", 0, keys(rng, n), [rng.below(9) for _ in range(n)], []))
            elif op in ZIPS:
                m = 900 + rng.below(2400)
                lo1, lo2 = rng.below(40), rng.below(40)
                out.append(case(op, "h", 0, list(range(n)), list(range(m)), [lo1, n - rng.below(40), lo2, m - rng.below(40), rng.below(4)]))
            elif op in COPIES:
                out.append(case(op, "h", 0, [rng.below(200) - 100 for _ in range(n)], [rng.below(200) - 100 for _ in range(900 + rng.below(2400))], []))
            else:
                out.append(case(op, "h", 0, keys(rng, n), [], []))
    return out


# the algorithms step by step (Algorithms.tla): what to explore for each property, and
# the planted mistakes that have to be rejected: (mistake, algorithm, length, largest key)
STEPS = {"C16": [("qs_range", "hp", 5, 6), ("qs_range", "a", 4, 4), ("is_plower", "h", 5, 6)],
         "C17": [("is_idx", "h", 5, 6), ("is2", "h", 5, 6)],
         "C18": [("is_idx", "pa", 4, 5), ("is2", "pa", 4, 5), ("is_plower", "pa", 4, 5), ("merge_idx", "pa", 4, 4), ("heapify", "pa", 5, 6),
                 ("lb", "pa", 5, 7), ("bs", "pa", 5, 7)],
         "C19": [("lb", "hpa", 6, 7), ("bs", "hpa", 6, 7)],
         "C20": [("merge_idx", "h", 4, 5)],
         "C21": [("heapify", "h", 7, 8)]}
WRONG = {"C16": [("qs-cut", "qs_range", 4), ("qs-lost", "qs_range", 4), ("pl-stuck", "is_plower", 4)],
         "C17": [("is-le", "is_idx", 4), ("is2-short", "is2", 4)],
         "C18": [("mg-rest", "merge_idx", 4), ("pl-stuck", "is_plower", 4)],
         "C19": [("se-miss", "bs", 4), ("lb-le", "lb", 4), ("se-slow", "lb", 6)],
         "C20": [("mg-lt", "merge_idx", 4), ("mg-rest", "merge_idx", 4)],
         "C21": [("hp-left", "heapify", 5), ("hp-once", "heapify", 5)]}


def steps(prop, work):
    """Every run of the algorithms on short inputs, one comparison per step."""
    def one(job):
        alg, modes, n, bug = job
        foc = os.path.join(work, "steps-%s-%s-%s.json" % (alg, modes, bug))
        json.dump({"algs": [alg], "modes": list(modes), "n": n, "keys": 2, "bug": bug}, open(foc, "w"))
        r = tlc(work, "steps-%s-%s-%s" % (alg, modes, bug), "Algorithms.tla", "Algorithms.cfg", env={"FOCUS": foc}, workers=2, mem="6g" if THOROUGH else "2g",
                gc="-XX:+UseParallelGC")
        if r.rc not in ((12, 13) if bug else (0,)):
            raise ToolError("Algorithms %s: rc %d\n%s" % (job, r.rc, r.out[-2000:]))
        return {"module": "Algorithms", "algorithm": alg, "comparator": modes, "longest": n, "planted_mistake": bug or None,
                "distinct_states": r.distinct, "states_generated": r.states, "wall_s": round(r.wall, 1)}
    todo = [(a, m, n[THOROUGH], "") for a, m, *n in STEPS.get(prop, [])] + [(a, "h", n, b) for b, a, n in WRONG.get(prop, [])]
    with ThreadPoolExecutor(4) as ex:
        return list(ex.map(one, todo))


class AlgoRun:
    def __init__(self, prop, work, bins):
        self.prop, self.work, self.bins = prop, work, bins
        self.focus = os.path.join(work, "algo-focus.json")
        json.dump({"prop": prop, "n": 6 if THOROUGH else 5}, open(self.focus, "w"))
        self.env = {"FOCUS": self.focus}
        self.shards = Shards(work, prop, "AlgoTrace.tla", "AlgoTrace.cfg", self.env, size=9000)
        self.ran = self.skipped = self.ncases = self.ngen = self.crashes = self.hung = self.screened = self.odd = 0

    def jobs(self, cases):
        rng = Rng(SEED)
        per = {}

        def put(c, elem, v):
            per.setdefault((elem, v), []).append(line(c, elem))
        for i, c in enumerate(cases):
            e = ["k24", "p8", "p5", "k1056"][rng.below(4)]
            put(c, e, ("debug", "release")[rng.below(2)])
            if THOROUGH:
                for e in ("k24", "p8", "p5", "k1056"):
                    for v in ("debug", "release"):
                        put(c, e, v)
        gen = generated(self.prop, rng, 12000 if THOROUGH else 2500)
        if self.prop != "C18":
            gen += large(self.prop, rng)
        self.ngen = len(gen)
        for c in gen:
            put(c, ["k24", "k24", "p8", "k1056", "p5"][rng.below(5)], ("debug", "release")[rng.below(2)])
        for op in [o for o in OPS[self.prop] if o in ZST_OPS]:
            for n in range(0, 12):
                for m in ([n, 0, n + 1] if op in MERGES + ["is2"] else [0]):
                    for v in ("debug", "release"):
                        pols = [("h", 0)] + ([("L", 0), ("G", 0), ("E", 0)] if self.prop in ("C18", "C19") else [])
                        for pol, k in pols:
                            if op in MERGES:
                                for le in {0, n // 2, n} if n else []:
                                    put(case(op, pol, k, [0] * n, [0] * m, [le]), "zst", v)
                            elif op in LOWERS + BINS:
                                put(case(op, pol, k, [0] * n, [], [0, n, 0]), "zst", v)
                            else:
                                put(case(op, pol, k, [0] * n, [0] * m, []), "zst", v)
        out = []
        for (e, v), ls in sorted(per.items()):
            for j in range(0, len(ls), 6000):
                out.append((v, ls[j:j + 6000]))
        # many more calls than TLC could read: the harness screens them and has
        # TLC judge what looks wrong to it, and a sample of the others
        for j in range(24 if THOROUGH else 8):
            out.append((("release", "debug")[j % 4 == 3], ["bulk", str(SEED * 1000 + j), str(100 if THOROUGH else 12), "1000000000",
                                                          ",".join(OPS[self.prop]), BULK[self.prop], "20000" if THOROUGH else "2000"]))
        return out

    def run_job(self, k):
        v, ls = self.todo[k]
        f = os.path.join(self.work, "algo-%03d.txt" % k)
        o = os.path.join(self.work, "algo-%03d.ndjson" % k)
        cmd = [self.bins[v], "algo", o, f]
        if ls[0] == "bulk":
            cmd = [self.bins[v], "bulk", o] + ls[1:]
        else:
            open(f, "w").write("\n".join(ls) + "\n")
        text, src = "", ""
        while True:
            if self.hung >= 2:
                return v, "", "", {"ran": 0, "skipped": 0}, ""
            try:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=400 if THOROUGH else 150)
            except subprocess.TimeoutExpired as e:
                # an algorithm that does not terminate (jobs take a few seconds)
                p = subprocess.CompletedProcess(cmd, -14, e.stdout or b"", b"")
                self.hung += 1
            t = open(o, errors="replace").read() if os.path.exists(o) else ""
            mark = open(o + ".mark", errors="replace").read() if os.path.exists(o + ".mark") else ""
            for g in (o, o + ".mark"):
                if os.path.exists(g):
                    os.remove(g)
            src = " ".join(os.path.relpath(c, ROOT) if c.startswith(ROOT) else c for c in cmd)
            if p.returncode == 0:
                return v, text + t, src, json.loads(p.stdout.decode()), ""
            good = [l for l in t.splitlines() if l.endswith("}")]
            m = re.match(r'\s*(\{"op":.*)$', mark.strip())
            head = m.group(1) if m else mark.strip()
            log("harness ended with %d in %s" % (p.returncode, head[:300]))
            ev = '{"op":"crash","pol":"","k":0,"t":%s,"x":[],"y":[],"n":[],"s":"crash","o":[],"o2":[],"r":[],"q":[],"c":0,"lg":0,"g":[]}' % json.dumps("rc=%d in %s" % (p.returncode, head))
            return v, "\n".join(good + [ev]), src, {"ran": len(good), "skipped": 0}, head

    def run(self):
        c = os.path.join(self.work, "algo-cases.ndjson")
        r = model_check(self.work, "acases", "AlgoCases.tla", "AlgoCases.cfg", env=dict(self.env, OUT=c), workers=4, mem="6g")
        self.models = [("AlgoCases", r.distinct, r.states, r.wall)]
        cases = [json.loads(l) for l in open(c)]
        self.ncases = len(cases)
        self.todo = self.jobs(cases)
        with ThreadPoolExecutor(CPUS) as ex:
            for v, text, src, d, crashed in ex.map(self.run_job, range(len(self.todo))):
                self.ran += d["ran"]
                self.skipped += d["skipped"]
                if "odd" in d:
                    self.screened += d["ran"]
                    self.odd += d["odd"]
                self.crashes += bool(crashed)
                self.shards.add(text, src, opener='{"op":')
        return self.shards.judge()


def run_algo(prop, work, bins):
    design = steps(prop, work)
    R = AlgoRun(prop, work, bins)
    bad = R.run()
    ops = {o: R.shards.ops.get(o, 0) for o in OPS[prop]}
    cov = {
        "states": sum(m[1] for m in R.models) + sum(d["distinct_states"] for d in design) + R.shards.states,
        "transitions": sum(m[2] for m in R.models) + sum(d["states_generated"] for d in design) + R.shards.transitions,
        "step_level_models": design,
        "traces_validated_against_impl": R.shards.n if not bad else 0,
        "models": [{"module": m[0], "distinct_states": m[1], "states_generated": m[2], "wall_s": round(m[3], 1)} for m in R.models],
        "algorithm_calls_judged": R.shards.n,
        "algorithm_calls": ops,
        "tlc_enumerated_inputs": R.ncases,
        "generated_inputs": R.ngen,
        "calls_made_and_screened": R.screened,
        "screened_calls_sent_to_tlc_as_suspicious": R.odd,
        "samples": [json.loads(l) for f, _ in R.shards.files[:3] for l in open(f).read().splitlines()[40:400:300]][:4],
    }
    if not bad and [o for o, n in ops.items() if n == 0]:
        raise ToolError("algorithms never exercised: %s" % [o for o, n in ops.items() if n == 0])
    if bad:
        f, n, src = R.shards.bad
        ls = open(f).read().splitlines()
        ev = ls[min(n, len(ls)) - 1]
        p = write_replay(prop, json.loads(ev), [json.loads(ev)], src)
        return cov, "call not allowed by the contract: %s" % ev[:400], p
    return cov, None, None
