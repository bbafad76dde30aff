"""Checks decided by the scope state machine (Indexing.tla): TLC-enumerated
calls, simulated behaviours and random sessions are run through the real crate
and TLC judges every recorded event."""
import json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from core import *

BASE_IDX = ["vet", "vet_range", "range", "nonempty", "past_the_end", "first", "i_no_proof"]
BASE_PTR = ["pointer_range", "pointer_slice", "p_nonempty", "p_split_in_half", "p_first", "p_past_the_end", "p_to_slice", "s_nonempty",
            "p_iter_all", "q_no_proof", "q_after"]

IDX = ["i_integer", "i_after", "i_no_proof", "i_copy", "cmp_i", "ord_i", "r_len", "r_is_empty", "r_start", "r_end", "r_as_range", "r_copy",
       "nonempty", "into_checked", "split_in_half", "r_split_at", "contains", "subdivide", "join", "join_cover", "join_cover_both",
       "frontiers", "r_forward_by", "r_forward_range_by", "r_no_proof", "first", "upper_middle", "past_the_end", "lower_middle", "last",
       "tail", "init", "advance_", "advance", "advance_by", "advance_back", "iter", "iter_all", "iter_x", "subdivide_x", "cmp_r", "ord_r", "len", "range",
       "empty_range", "vet", "vet_range", "c_split_at", "c_split_after", "c_split_around", "before", "after", "range_of_from",
       "range_of_to", "range_of_full", "forward", "forward_by", "backward", "forward_range_by", "scan_from", "scan_from_rev",
       "scan_range", "get", "get_r", "get_from", "get_to", "get_full"]
MUT = ["set", "mut_r", "mut_from", "mut_to", "mut_full", "swap", "rotate1_up", "rotate1_down", "index_twice", "zip_mut_raw"]
GROW = ["push", "insert"]
PTRS = ["pointer_range", "pointer_slice", "pr_of_from", "pr_of_to", "pr_of_full", "nonempty_range", "distance_to", "scan_tail", "scan_pr",
        "scan_pr_rev", "split_at_pointer", "get_q", "get_p", "get_qfrom", "get_qto", "q_after", "q_no_proof", "q_ptr", "q_eq", "p_len",
        "p_is_empty", "p_nonempty", "p_split_in_half", "p_first", "p_upper_middle", "p_past_the_end", "p_no_proof", "p_to_slice",
        "p_trait", "p_eq", "p_iter", "p_iter_all", "p_iter_x", "p_last", "p_tail", "p_init", "p_advance", "p_advance_back", "s_len", "s_is_empty",
        "s_nonempty", "s_split_in_half", "s_first", "s_upper_middle", "s_past_the_end", "s_no_proof", "s_to_range", "s_trait", "s_eq",
        "s_last", "s_tail", "s_init", "s_advance", "s_advance_back"]
PTRMUT = ["mut_p", "mut_qfrom", "mut_qto", "rotate1_prange", "swap_ptr", "split_container"]
HANDLE = ["dup", "twin", "only"]
ALL = IDX + MUT + GROW + PTRS + PTRMUT + HANDLE
GETS = ["get", "get_r", "get_from", "get_to", "get_full"]
MUTS = ["set", "mut_r", "mut_from", "mut_to", "mut_full"]

SHARED, EXCL, GROWK = ["sh", "rr", "rvec"], ["mu", "mm"], ["vec", "mvec", "mmvec"]
FIXED = ["sh", "mu", "rr", "mm"]
ELEMS = ["w4", "b1", "d24", "x1040", "t3", "zst"]

# id -> focus operations, judging mode, extra generators
SCOPE = {
    "C01": dict(ops=ALL, mode="trust", close=True),
    "C02": dict(ops=["len"] + GETS + MUTS, close=True, extra=["dup", "twin", "only", "push", "insert"]),
    "C03": dict(ops=["vet", "vet_range", "contains", "nonempty", "into_checked", "r_len", "r_is_empty", "r_start", "r_end", "r_as_range",
                     "i_integer", "p_nonempty", "s_nonempty", "nonempty_range"]),
    "C04": dict(ops=["range", "empty_range", "c_split_at", "c_split_after", "c_split_around", "before", "after", "range_of_from",
                     "range_of_to", "range_of_full", "i_after", "split_in_half", "r_split_at", "join", "join_cover", "join_cover_both",
                     "frontiers", "first", "upper_middle", "past_the_end", "lower_middle", "last", "tail", "init", "r_no_proof",
                     "i_no_proof", "i_copy", "r_copy"]),
    "C05": dict(ops=["forward", "forward_by", "backward", "forward_range_by", "r_forward_by", "r_forward_range_by", "advance", "advance_",
                     "advance_by", "advance_back"], extra=["push", "only"]),
    "C06": dict(ops=["iter", "iter_all", "iter_x", "subdivide", "subdivide_x"]),
    "C07": dict(ops=["scan_from", "scan_from_rev", "scan_range"], extra=["set", "swap"]),
    "C08": dict(ops=["swap", "rotate1_up", "rotate1_down", "index_twice"], close=True),
    "C09": dict(ops=["push", "insert", "len"] + GETS + ["set"], close=True, kinds=GROWK, only="1", grow=True),
    "C10": dict(ops=["twin", "dup", "only", "len"] + GETS + ["set", "mut_r", "swap", "rotate1_up", "rotate1_down", "range", "vet"],
                close=True, kinds=FIXED, handles=True),
    "C13": dict(ops=["cmp_i", "ord_i", "cmp_r", "ord_r"]),
    "C14": dict(ops=[o for o in PTRS if o not in ("scan_tail", "scan_pr", "scan_pr_rev", "split_at_pointer")] + ["mut_p", "mut_qfrom", "mut_qto"],
                ptr=True),
    "C15": dict(ops=["scan_tail", "scan_pr", "scan_pr_rev", "split_at_pointer", "split_container", "rotate1_prange", "swap_ptr",
                     "pr_of_from", "pr_of_to", "pr_of_full", "nonempty_range"], ptr=True, close=True),
    "C18": dict(ops=["scan_from", "scan_from_rev", "scan_range", "scan_tail", "scan_pr", "scan_pr_rev", "zip_mut_raw", "rotate1_up",
                     "rotate1_down", "swap", "swap_ptr", "rotate1_prange", "index_twice", "split_container", "push", "insert", "set"],
                mode="conserve", close=True, panic_mutants=True),
    "C22": dict(ops=["zip_mut_raw"], close=True, maxlens=[8, 16, 24, 40]),
}
# where the window of positions starts: around 2^31, 2^32, and up to isize::MAX
# (the crate's own limit: Index::new asserts it)
FAR = [2 ** 31 - 20, 2 ** 32 - 20, 2 ** 62 + 7 ** 20, 2 ** 63 - 200]
PTR_OPS = set(PTRS + PTRMUT)
# what WideOps.tla (all 64 bits) has a meaning for, by the property it is judged under
WIDE = {"C01": [], "C02": ["len"] + GETS + MUTS, "C03": None, "C04": None, "C05": None, "C06": ["w_iter", "subdivide"], "C07": None,
        "C08": ["swap", "index_twice"], "C09": ["push", "insert", "len"] + GETS + ["set"], "C10": ["twin", "dup", "only", "len"] + GETS, "C13": None}
WIDE_OPS = [o for o in IDX + MUT + GROW + HANDLE if o not in ("iter", "iter_all", "iter_x", "subdivide_x", "rotate1_up", "rotate1_down", "zip_mut_raw")] + ["w_iter"]


def kinds_for(op):
    if op in GROW:
        return [(k, "1") for k in GROWK]
    if op == "mut_full" or op in PTRMUT:
        return [(k, "0") for k in EXCL + GROWK]
    if op in MUT:
        return [(k, o) for k in EXCL + GROWK for o in "01"]
    if op in PTRS:
        return [(k, "0") for k in SHARED + EXCL + GROWK]
    return [(k, o) for k in SHARED + EXCL + GROWK for o in "01"]


def call_line(op, h, a, n, m):
    return "%s;%d;%s;%s;%s" % (op, h, "|".join("%s,%d,%d,%s" % tuple(x) for x in a), ",".join(map(str, n)),
                               ",".join("1" if x else "0" for x in m))


class ScopeRun:
    def __init__(self, prop, work, bins, cfg):
        self.prop, self.work, self.bins, self.cfg = prop, work, bins, cfg
        self.ops = cfg["ops"]
        self.base = BASE_IDX + (BASE_PTR if cfg.get("ptr") or any(o in PTR_OPS for o in self.ops) else []) + cfg.get("extra", [])
        self.focus = os.path.join(work, "focus.json")
        big = THOROUGH
        d = {"ops": self.ops + (["close"] if cfg.get("close") else []), "mode": cfg.get("mode", "exact"),
             "base": [o for o in self.base if o not in self.ops], "maxlen": 6 if big else 4, "maxlen2": 4 if big else 3,
             "depth": 40 if big else 24}
        json.dump(d, open(self.focus, "w"))
        self.env = {"FOCUS": self.focus}
        self.shards = Shards(work, prop, "IndexingTrace.tla", "IndexingTrace.cfg", self.env)
        self.wide = None
        if prop in WIDE:
            f = os.path.join(work, "focus-wide.json")
            self.wide_ops = [o for o in (WIDE[prop] if WIDE[prop] is not None else self.ops) if o in WIDE_OPS]
            json.dump({"ops": self.wide_ops, "mode": cfg.get("mode", "exact")}, open(f, "w"))
            self.wide = Shards(work, prop, "WideTrace.tla", "WideTrace.cfg", {"FOCUS": f}, size=25000, name="wide")
        self.ran = self.skipped = self.hung = 0
        self.jobs = []
        self.stats = {}

    # ---- the specification itself
    def models(self):
        out = []
        c = os.path.join(self.work, "cases.ndjson")
        if self.wide:
            r = model_check(self.work, "widelink", "WideLink.tla", "WideLink.cfg")
            out.append(("WideLink (WideOps agrees with Ops)", r.distinct, r.states, r.wall))
        r = model_check(self.work, "cases", "Cases.tla", "Cases.cfg", env=dict(self.env, OUT=c), workers=4, mem="6g")
        out.append(("Cases", r.distinct, r.states, r.wall))
        cases = [json.loads(l) for l in open(c)]
        if not cases and not self.cfg.get("handles"):
            raise ToolError("no cases")
        # the state machine, exhaustively at small bounds
        mc = open(os.path.join(SPEC, "MC_Indexing.cfg")).read()
        big = dict(MaxLen=3, MaxGrow=1, PoolMax=1, MaxFresh=5) if THOROUGH else dict(MaxLen=2, MaxGrow=1, PoolMax=1, MaxFresh=3)
        for k, v in big.items():
            mc = re.sub(r"%s = \d+" % k, "%s = %d" % (k, v), mc)
        f = os.path.join(self.work, "MC.cfg")
        open(f, "w").write(mc)
        r = model_check(self.work, "mc", "MC_Indexing.tla", f, env=self.env, workers=4, mem="8g", gc="-XX:+UseParallelGC")
        out.append(("Indexing", r.distinct, r.states, r.wall))
        # random behaviours of the state machine
        num = 400 if THOROUGH else 25
        r = model_check(self.work, "sim", "IndexingSim.tla", "IndexingSim.cfg", env=self.env, workers=4, mem="6g",
                        extra=["-simulate", "num=%d" % num, "-depth", "60", "-seed", str(SEED)])
        out.append(("IndexingSim", 0, r.states, r.wall))
        beh = [json.loads(json.loads(l)[4:]) for l in r.out.splitlines() if l.startswith('"BEH ')]
        self.stats["cases"] = len(cases)
        self.stats["behaviours"] = len(beh)
        return out, cases, beh

    # ---- programs for the real crate
    def scripts(self, cases, beh):
        rng = Rng(SEED)
        per = {}
        budget = 60000 if THOROUGH else 9000
        by_op = {}
        for q in cases:
            by_op.setdefault(q["op"], []).append(q)
        share = max(200, budget // max(1, len(by_op)))
        for op, qs in sorted(by_op.items()):
            combos = [(v, e, k, o) for v in ("debug", "release") for e in ELEMS for (k, o) in kinds_for(op)
                      if not (e == "zst" and op in PTR_OPS) and ("kinds" not in self.cfg or k in self.cfg["kinds"])]
            if not combos:
                continue
            rep = max(2, min(len(combos), share // len(qs)))
            step = max(1, len(combos) // rep)
            for i, q in enumerate(qs):
                off = rng.below(len(combos))
                for j in range(rep):
                    per.setdefault(combos[(off + j * step) % len(combos)], []).append(q)
        for (v, e, k, o), qs in sorted(per.items()):
            lines = []
            cur, n = None, 0
            # cases of one length share a scope; growing calls get their own
            for q in sorted(qs, key=lambda q: q["L"]):
                if q["L"] != cur or n > 150 or q["op"] in GROW:
                    lines.append("open;%d;" % q["L"])
                    cur, n = q["L"], 0
                lines.append(call_line(q["op"], 0, q["a"], q["n"], q["m"]))
                if q["op"] in GROW:
                    # what lives at every old and new position afterwards
                    lines += [call_line("get_full", 0, [], [], []), call_line("len", 0, [], [], [])]
                    lines += [call_line("get", 0, [["I", i, i, "N"]], [], []) for i in range(q["L"] + 1)]
                    cur = None
                n += 1
            self.job(v, "script", e, k, o, lines, rng.below(8))
        # behaviours: every storage of the right class
        groups = {}
        for b in beh:
            s = b["start"]
            cls = GROWK if s["grow"] else EXCL if s["excl"] else ["sh", "rr"]
            for k in cls:
                if "kinds" in self.cfg and k not in self.cfg["kinds"]:
                    continue
                for e in (ELEMS if THOROUGH else [ELEMS[rng.below(5)], ELEMS[rng.below(6)]]):
                    if e == "zst" and any(c["op"] in PTR_OPS for c in b["calls"]):
                        continue
                    v = ("debug", "release")[rng.below(2)]
                    ls = groups.setdefault((v, e, k), [])
                    tw = [str(c["n"][0]) for c in b["calls"] if c["op"] == "twin"]
                    ls.append("open;%d;%s" % (s["len"], ",".join(tw)))
                    ls += [call_line(c["op"], c["h"] - 1, c["a"], c["n"], c["m"]) for c in b["calls"]]
        for (v, e, k), ls in sorted(groups.items()):
            self.job(v, "script", e, k, "0", ls, rng.below(8))

    def job(self, variant, mode, *args):
        self.jobs.append((variant, mode, args))

    def randoms(self):
        foc = [o for o in self.ops]
        w = {}
        for o in ALL:
            w[o] = 1
        for o in self.base:
            w[o] = w.get(o, 0) + 3
        # each position kind has to be plentiful before the focus gets its share
        tot = sum(w.values())
        for o in foc:
            w[o] = w.get(o, 0) + max(2, min(tot // 3, tot // max(1, len(foc))))
        for o in HANDLE:
            w[o] = 1 if not self.cfg.get("handles") else max(3, tot // 25)
        if self.cfg.get("grow"):
            w["push"] = w["insert"] = max(3, tot // 20)
            w["only"] = max(2, tot // 60)
        if not (self.cfg.get("ptr") or any(o in PTR_OPS for o in foc)):
            for o in PTR_OPS:
                w.pop(o, None)
        ops = ",".join("%s:%d" % x for x in sorted(w.items()))
        kinds = ",".join(self.cfg.get("kinds", SHARED + EXCL + GROWK))
        n = 40 if THOROUGH else 8
        for j in range(n):
            v = ("debug", "release")[j % 2]
            maxlen = self.cfg.get("maxlens", [8, 24, 60, 300])[(j // 2) % 4]
            self.jobs.append((v, "rand", (SEED * 1000 + j, 60 if not THOROUGH else 150, 80, maxlen, ",".join(ELEMS), kinds, ops)))
        # long storages
        for j in range(24 if THOROUGH else 4):
            maxlen = [1100, 1100, 2500][j % 3] if THOROUGH else 1100
            self.jobs.append((("debug", "release")[j % 2], "rand", (SEED * 1000 + 500 + j, 10 if THOROUGH else 8, 60, maxlen, "w4,d24,x1040", kinds, ops)))
        # longer than 16 bits count
        for j in range(8 if THOROUGH else 2):
            self.jobs.append((("debug", "release")[j % 2], "rand", (SEED * 1000 + 600 + j, 4 if THOROUGH else 3, 60, 75000, "w4,t3", kinds, ops)))
        # storages longer than any memory (zero sized elements), seen through a window
        far = ",".join("%s:%d" % x for x in sorted(w.items()) if x[0] not in PTR_OPS and x[0] not in ("get_to", "mut_to", "get_full", "mut_full"))
        if not self.cfg.get("ptr"):
            for j, o in enumerate(FAR * (5 if THOROUGH else 1)):
                for v in ("debug", "release"):
                    self.jobs.append((v, "rand", (SEED * 1000 + 700 + j, 20 if THOROUGH else 12, 60, 40, "zst@%d" % o, kinds, far)))

    def wides(self):
        """Containers of every length up to isize::MAX, judged with all 64 bits."""
        if not self.wide:
            return
        w = {o: 1 for o in WIDE_OPS}
        w.update({"vet": 8, "vet_range": 16, "range": 8, "nonempty": 6, "past_the_end": 4, "first": 4, "i_no_proof": 3, "twin": 2})
        for o in self.wide_ops:
            w[o] += max(2, min(40, sum(w.values()) // max(1, len(self.wide_ops))))
        kinds = self.cfg.get("kinds", SHARED + EXCL + GROWK)
        ops = ",".join("%s:%d" % x for x in sorted(w.items()))
        for j in range(60 if THOROUGH else 8):
            self.jobs.append((("debug", "release")[j % 2], "wide", (SEED * 1000 + 800 + j, 1500 if THOROUGH else 500, 60, ",".join(kinds), ops)))

    def run_job(self, k):
        variant, mode, args = self.jobs[k]
        out = os.path.join(self.work, "log-%03d.ndjson" % k)
        if mode == "script":
            e, kd, o, lines, hg = args
            f = os.path.join(self.work, "script-%03d.txt" % k)
            open(f, "w").write("\n".join(lines) + "\n")
            cmd = [self.bins[variant], "script", out, e, kd, str(hg), o, f]
        else:
            cmd = [self.bins[variant], mode, out] + [str(x) for x in args]
        if self.hung >= 2:
            return k, cmd, 0, '{"ran":0,"skipped":0}', out
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=400 if THOROUGH else 150)
            return k, cmd, p.returncode, p.stdout.decode(), out
        except subprocess.TimeoutExpired:
            # a call that does not come back (jobs take a few seconds); no need to wait for many of them
            self.hung += 1
            return k, cmd, -14, "", out

    def run(self):
        with ThreadPoolExecutor(CPUS) as ex:
            for k, cmd, rc, so, out in ex.map(self.run_job, range(len(self.jobs))):
                text = open(out, errors="replace").read() if os.path.exists(out) else ""
                src = " ".join(os.path.relpath(c, ROOT) if c.startswith(ROOT) else c for c in cmd)
                sh = self.wide if self.jobs[k][1] == "wide" else self.shards
                if rc == 0:
                    d = json.loads(so)
                    self.ran += d["ran"]
                    self.skipped += d["skipped"]
                    sh.add(text, src)
                else:
                    self.crash(text, out, rc, src, sh)
                for f in (out, out + ".mark"):
                    if os.path.exists(f):
                        os.remove(f)
        self.judged = self.shards
        bad = self.shards.judge()
        if not bad and self.wide:
            self.judged = self.wide
            bad = self.wide.judge()
        return bad

    def crash(self, text, out, rc, src, sh):
        """The harness died inside a call: that call never returned."""
        mark = open(out + ".mark", errors="replace").read() if os.path.exists(out + ".mark") else ""
        m = re.match(r'\s*"op":"([a-z_0-9]+)"', mark) or re.match(r"\s*([a-z]+)\s*$", mark)
        op = "get_full" if rc == 101 else (m.group(1) if m else "?")
        if len(text) > 30_000_000:
            # a runaway: the session that crashed is enough
            text = text[max(0, text.rfind('{"op":"open"')):]
            text = text if len(text) < 30_000_000 else text[:text.find("\n") + 1]
        lines = [l for l in text.splitlines() if l.endswith("}")]
        self.stats["crashes"] = self.stats.get("crashes", 0) + 1
        log("harness ended with %d in %s: %s" % (rc, op, mark.strip()[:200]))
        if self.cfg.get("mode") == "trust" or op in self.ops:
            ev = {"op": "crash", "a": [], "n": [], "m": [], "e": [], "c": 1, "s": "crash", "p": [], "i": [], "l": [], "b": [], "bs": [],
                  "t": "%s rc=%d" % (mark.strip()[:300], rc)}
            lines.append(json.dumps(ev, separators=(",", ":")))
        if lines:
            sh.add("\n".join(lines), src)


def run_scope(prop, work, bins):
    cfg = SCOPE[prop]
    R = ScopeRun(prop, work, bins, cfg)
    models, cases, beh = R.models()
    R.scripts(cases, beh)
    R.randoms()
    R.wides()
    bad = R.run()
    focus = {o: R.shards.ops.get(o, 0) for o in R.ops}
    both = [x for x in (R.shards, R.wide) if x]
    cov = {
        "states": sum(m[1] for m in models) + sum(x.states for x in both),
        "transitions": sum(m[2] for m in models) + sum(x.transitions for x in both),
        "traces_validated_against_impl": sum(x.sessions for x in both) if not bad else 0,
        "models": [{"module": m[0], "distinct_states": m[1], "states_generated": m[2], "wall_s": round(m[3], 1)} for m in models],
        "events_judged": sum(x.n for x in both),
        "events_judged_with_64_bit_numbers": R.wide.n if R.wide else 0,
        "calls_run": R.ran,
        "calls_skipped_not_expressible": R.skipped,
        "focus_operation_events": focus,
        "tlc_enumerated_cases": R.stats.get("cases", 0),
        "tlc_simulated_behaviours_replayed": R.stats.get("behaviours", 0),
        "harness_crashes_outside_focus": R.stats.get("crashes", 0),
        "samples": [json.loads(l) for l in sample_lines(R)],
    }
    if R.wide:
        cov["focus_operation_events_64_bit"] = {o: R.wide.ops.get(o, 0) for o in R.wide_ops}
    missing = [o for o, n in focus.items() if n == 0] + [o for o, n in cov.get("focus_operation_events_64_bit", {}).items() if n == 0]
    if missing and not bad:
        raise ToolError("operations never exercised: %s" % missing)
    if bad:
        ev, sess, src = R.judged.explain()
        p = write_replay(prop, json.loads(ev), [json.loads(x) for x in sess], src)
        return cov, "event not allowed by the specification: %s" % ev[:400], p
    return cov, None, None


def sample_lines(R):
    out = []
    for f, _ in R.shards.files[:4]:
        ls = open(f).read().splitlines()
        want = [l for l in ls if re.match(r'\{"op":"([^"]+)"', l).group(1) in R.ops]
        out += want[3:4] + want[len(want) // 2:len(want) // 2 + 1]
    return out[:6]
