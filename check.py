#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's current working tree.
exit 0 held, 1 violated (with a VIOLATION line), 2 error of the check."""
import os, shutil, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from core import *
import scope_checks, algo_checks, type_checks, unbounded

ASSUME = ["TLC/SANY and the Rust toolchain are correct",
          "the harness reports positions through the crate's own accessors (integer/start/end/ptr) and storage through independent raw views",
          "behaviour outside the explored bounds (lengths, session depths) follows the same code paths"]


def merge(a, b):
    """Coverage of two parts of one check."""
    out = dict(a)
    for k, v in b.items():
        out[k] = out[k] + v if k in out and isinstance(v, (int, list)) else v
    return out


def main():
    prop = sys.argv[1]
    t0 = time.time()
    work = workdir(prop)
    try:
        cov, what, replay = {}, None, None
        bins = {}
        proofs = unbounded.start(prop, work)
        if prop in type_checks.RULES:
            cov, what, replay = type_checks.run_types(prop, work)
        else:
            bins = build_all(["debug", "release"])
            log("built in %.1f s" % (time.time() - t0))
        if prop in scope_checks.SCOPE:
            cov, what, replay = scope_checks.run_scope(prop, work, bins)
        if prop in algo_checks.OPS and not what:
            c2, what, replay = algo_checks.run_algo(prop, work, bins)
            cov = merge(cov, c2)
        if proofs:
            cov["unbounded_steps"] = proofs.result()
        kf = known_findings(prop, bins.get("debug"))
        if kf:
            cov["known_findings_reproduced"] = kf
        evidence(prop, "model_checking", cov, t0, ASSUME, 1 if what else 0)
        log("%s: %.1f s, %s events" % (prop, time.time() - t0, cov.get("events_judged", 0) + cov.get("algorithm_calls_judged", 0)))
        if what:
            print(what)
            print("VIOLATION property=%s replay=%s" % (prop, replay))
            return 1
        print("%s held: %d states, %d traces validated" % (prop, cov["states"], cov["traces_validated_against_impl"]))
        return 0
    except ToolError as e:
        log("check error:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)


sys.exit(main())
