#!/usr/bin/env python3
"""mutate.py gen OUT.json            list one-site mutants of /repo/src
   mutate.py filter IN.json OUT.json keep those that compile and pass the stable tests
(development tool: used to look for changes the checks miss; nothing registered
in MANIFEST.json uses it)"""
import json, os, re, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor

SRC = "/repo/src"
FILES = ["indexing.rs", "container.rs", "container_traits.rs", "pointer.rs", "algorithms.rs", "proof.rs", "pointer_ext.rs", "index_error.rs", "lib.rs"]
REPL = [(r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
        (r" \+ 1\b", ["", " + 2"]), (r" - 1\b", ["", " - 2"]), (r" \+= 1\b", [" += 2", " += 0"]), (r" -= 1\b", [" -= 2", " -= 0"]),
        (r" \+ ", [" - "]), (r" - ", [" + "]), (r" / 2\b", [" / 3", ""]), (r" \+= ", [" -= ", " = "]), (r" -= ", [" += ", " = "]),
        (r" && ", [" || "]), (r" \|\| ", [" && "]),
        (r"\bmin\(", ["max("]), (r"\bmax\(", ["min("]),
        (r"\.start\b", [".end"]), (r"\.end\b", [".start"]), (r"(?<![.\w])start(?![\w:(])", ["end"]), (r"(?<![.\w])end(?![\w:(])", ["start"]),
        (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
        (r"\.first\(\)", [".last()", ".upper_middle()", ".past_the_end()"]), (r"\.last\(\)", [".first()", ".upper_middle()"]),
        (r"\.upper_middle\(\)", [".lower_middle()", ".first()", ".last()"]), (r"\.lower_middle\(\)", [".upper_middle()"]),
        (r"\.tail\(\)", [".init()"]), (r"\.init\(\)", [".tail()"]), (r"\.advance\(\)", [".advance_back()"]), (r"\.advance_back\(\)", [".advance()"]),
        (r"\.next\(\)", [".next_back()"]), (r"\.next_back\(\)", [".next()"]),
        (r"\bNonEmpty\b", ["Unknown"]), (r"\bUnknown\b", ["NonEmpty"]), (r"\bP\b", ["NonEmpty", "Unknown"]), (r"\bQ\b", ["P"]),
        (r"\bif ([^{]+?) \{", ["if true {", "if false {", "if !(\\1) {"]), (r"\bwhile ([^{]+?) \{", ["while false {"]),
        (r"\bOk\(", ["__OKERR("]), (r"\((\w+(?:\.\w+)?(?:\(\))?), (\w+(?:\.\w+)?(?:\(\))?)\)", ["(\\2, \\1)", "(\\1, \\1)", "(\\2, \\2)"]),
        (r"\boffset\(1\)", ["offset(2)"]), (r"\.offset\(([^()]+)\)", [".offset(0)"]), (r"\.inc\(\)", [".dec()"]), (r"\.dec\(\)", [".inc()"]),
        (r"\bsaturating_", ["wrapping_"]), (r"\bwrapping_", ["saturating_"]),
        (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\b2\b", ["1", "3"]), (r"\b([3-9]|\d\d)\b", ["1"]),
        (r"\bself\b(?=[.,)])", ["other"]), (r"\bother\b(?=[.,)])", ["self"]), (r"\bleft\b", ["right"]), (r"\bright\b", ["left"]),
        (r"\bSome\(", ["__NONE("]), (r"^\s*(?!let|use|pub|fn|return|//|#|\}|type|impl|where|unsafe impl|extern|mod|const|struct)[^{}]*;\s*$", ["DEL"]),
        (r"\bLess\b", ["Greater"]), (r"\bGreater\b", ["Less"]), (r"\.rev\(\)", [""]), (r"\bcontinue\b", ["break"]), (r"\bbreak\b", ["continue"]),
        (r"Copy\b", ["Clone"]), (r"PhantomData<\*mut &'id \(\)>", ["PhantomData<&'id ()>"]), (r"\bfn\(&'id \(\)\)", ["()"]),
        (r"copy_nonoverlapping", ["copy"]), (r"ptr::copy\(", ["ptr::copy_nonoverlapping("]), (r"mem::forget\((.*)\);", ["drop(\\1);"]),
        (r"\bOnlyIndex\b", ["T::Mode0"]), (r"#\[derive\(([^)]*)\)\]", ["#[derive(Clone, Copy)]"]),
        (r"\bpartial_cmp\(&self\.(\w+)", ["partial_cmp(&self.start"]), (r"\ba\b", ["b"]), (r"\bb\b", ["a"]), (r"\bi\b", ["j"]), (r"\bj\b", ["i"])]


def sites():
    out = []
    for f in FILES:
        lines = open(os.path.join(SRC, f)).read().split("\n")
        test = False
        comment = False
        for n, l in enumerate(lines):
            if re.match(r"\s*#\[cfg\(test\)\]", l) and n + 1 < len(lines) and "mod" in lines[n + 1]:
                test = True
            if test:
                continue
            if re.match(r"\s*/\*", l): comment = True
            if comment:
                if "*/" in l: comment = False
                continue
            code = l.split("//")[0]
            if not code.strip() or "debug_assert" in code or "assert!" in code or "puts!" in code:
                continue
            for pat, reps in REPL:
                for m in re.finditer(pat, code):
                    for r in reps:
                        if r == "DEL":
                            new = ""
                        elif r in ("__OKERR(", "__NONE(", "T::Mode0"):
                            continue
                        else:
                            new = code[:m.start()] + m.expand(r) + code[m.end():]
                        if new != code:
                            out.append({"file": f, "line": n, "old": l, "new": new})
    seen, res = set(), []
    for x in out:
        k = (x["file"], x["line"], x["new"])
        if k not in seen:
            seen.add(k)
            res.append(x)
    for k, x in enumerate(res):
        x["id"] = k
    return res


def mutated(x):
    p = os.path.join(SRC, x["file"])
    lines = open(p).read().split("\n")
    assert lines[x["line"]] == x["old"]
    lines[x["line"]] = x["new"]
    return "\n".join(lines)


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return b


def worker(args):
    w, items, out = args
    d = "/tmp/mut/w%d" % w
    if os.path.isdir(d):
        shutil.rmtree(d)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns("target"))
    keep = []
    for x in items:
        p = os.path.join(d, "src", x["file"])
        orig = open(os.path.join(SRC, x["file"])).read()
        open(p, "w").write(mutated(x))
        try:
            x["st"] = run(d)
        finally:
            open(p, "w").write(orig)
        if x["st"] == "pass":
            keep.append(x)
            with open(out, "a") as h:
                h.write(json.dumps(x) + "\n")
    return len(keep)


ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="-A dangerous_implicit_autorefs", CARGO_PROFILE_DEV_DEBUG="0")


def run(d):
    r = subprocess.run(["cargo", "check", "--offline", "-q"] + FEAT, cwd=d, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if r.returncode:
        return "nocompile"
    try:
        r = subprocess.run(["bash", "/tmp/mut/test.sh", "."], cwd=d, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
    except subprocess.TimeoutExpired:
        return "timeout"
    return "pass" if r.returncode == 0 else "fail"


FEAT = ["--features", "experimental_pointer_ranges"]

if __name__ == "__main__":
    if sys.argv[1] == "gen":
        s = sites()
        json.dump(s, open(sys.argv[2], "w"))
        print(len(s))
    else:
        s = json.load(open(sys.argv[2]))
        n = int(sys.argv[4])
        open(sys.argv[3], "w").close()
        with ThreadPoolExecutor(n) as ex:
            print(sum(ex.map(worker, [(w, s[w::n], sys.argv[3]) for w in range(n)])))
