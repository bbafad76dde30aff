"""The unbounded part of the specification: Apalache proves the induction step
of Unbounded.tla for all lengths, positions, offsets and addresses, and that of
the algorithms (UnboundedRuns.tla) for slices of all lengths; TLC checks that
Unbounded.tla and Ops.tla (which the crate's calls are compared with) agree.
Nothing here depends on /repo: anything unexpected is an error of the check."""
import os, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from core import *

STEP, RUNS = "UnboundedStep", "UnboundedRuns"
CALL, PART, PTR = (STEP, "Init", "Next", "Inv"), (STEP, "InitS", "NextS", "InvS"), (STEP, "InitP", "Next", "InvP")
SE, IS, MG, PA, ME, HP = [(RUNS, "Init" + x, "Next" + x, "Inv" + x) for x in ("Se", "Is", "Mg", "Pa", "Me", "Hp")]
BEGIN = (RUNS, "Starts", "Unmoved", "AtStart")
# (constants, transition, has to fail)
QUICK = {"C01": [("CRight", CALL, False)],
         "C03": [("CRight", CALL, False), ("CLe", CALL, True)],
         "C04": [("CRight", CALL, False), ("CCover", CALL, True), ("CHalf", CALL, True)],
         "C05": [("CRight", CALL, False), ("CWrap", CALL, True)],
         "C06": [("CParts3", PART, False), ("CFrac", PART, True)],
         "C14": [("CBytes8", PTR, False), ("CAddr", PTR, True)],
         "C16": [("RRight", ME, False), ("RRight", PA, False), ("RRight", SE, False), ("RCut", PA, True), ("RStop", PA, True)],
         "C17": [("RRight", IS, False), ("RBack", IS, True)],
         "C18": [("RRight", SE, False), ("RRight", IS, False), ("RRight", MG, False), ("RRight", PA, False), ("RRight", HP, False), ("RCut", PA, True)],
         "C19": [("RRight", SE, False), ("RTail", SE, True), ("RHalf", SE, True)],
         "C20": [("RRight", MG, False), ("RTie", MG, True), ("RFill", MG, True)],
         "C21": [("RRight", HP, False), ("RChild", HP, True)]}
for jobs in QUICK.values():
    if jobs[0][1][0] == RUNS:
        jobs.append(("RRight", BEGIN, False))
DEEP = {"C06": [("CParts%d" % k, PART, False) for k in (1, 2, 4, 7, 10)] + [("CRight", CALL, False)],
        # elements without a size have no addresses of their own: the known findings
        "C14": [("CBytes1", PTR, False), ("CBytes24", PTR, False), ("CBytes0", PTR, True)]}


def one(work, job):
    const, (module, init, nxt, inv), wrong = job
    out = os.path.join(work, "apalache-%s-%s" % (const, init))
    env = dict(os.environ, JVM_ARGS="-Xmx2g", TMPDIR=work)
    t0 = time.time()
    try:
        p = subprocess.run(["apalache-mc", "check", "--out-dir=" + out, "--length=1", "--no-deadlock", "--cinit=" + const, "--init=" + init,
                            "--next=" + nxt, "--inv=" + inv, module + ".tla"], cwd=SPEC, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    except subprocess.TimeoutExpired:
        raise ToolError("Apalache timed out on %s" % const)
    finally:
        shutil.rmtree(out, ignore_errors=True)
    if p.returncode != (12 if wrong else 0):
        raise ToolError("Apalache on %s: rc %d\n%s" % (const, p.returncode, p.stdout.decode()[-2000:]))
    return {"module": module, "constants": const, "invariant": inv, "for_all_integers": True, "planted_mistake_refuted": wrong,
            "wall_s": round(time.time() - t0, 1)}


def link(work):
    r = model_check(work, "link", "UnboundedLink.tla", "UnboundedLink.cfg")
    return {"module": "UnboundedLink", "agrees_with_Ops": True, "wall_s": round(r.wall, 1)}


def start(prop, work):
    """Begin in the background; .result() gives the list of what was shown."""
    if prop not in QUICK:
        return None
    jobs = QUICK[prop] + (DEEP.get(prop, []) if THOROUGH else [])

    def go():
        with ThreadPoolExecutor(2) as ex:
            done = ([ex.submit(link, work)] if jobs[0][1][0] == STEP else []) + [ex.submit(one, work, j) for j in jobs]
            return [d.result() for d in done]
    return ThreadPoolExecutor(1).submit(go)
