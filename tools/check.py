#!/usr/bin/env python3
"""check.py <property id>: decide one property against /repo's current working tree.

exit 0  held on everything explored
exit 1  broken; a line "VIOLATION property=<id> replay=<path>" was printed
exit 2  the check itself failed
"""
import os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ozzlib as L
import checks


def main():
    pid = sys.argv[1]
    t0 = time.time()
    ev = L.new_evidence()
    c = checks.CHECKS[pid]
    try:
        wd = L.workdir(pid)
        c.run(pid, wd, ev)
    except L.Violation as v:
        L.write_evidence(pid, ev, t0, c.level, 1, c.assumptions)
        print(v.what)
        print("VIOLATION property=%s replay=%s" % (pid, v.replay), flush=True)
        return 1
    except L.ToolError as e:
        print("check error: %s" % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if os.environ.get("VERIF_KEEP") is None:
            import shutil
            shutil.rmtree(os.path.join(L.WORK, pid), ignore_errors=True)
    L.write_evidence(pid, ev, t0, c.level, 0, c.assumptions)
    d = sum(v["scenarios"] for v in ev["validations"])
    n = sum(v["events"] for v in ev["validations"])
    print("%s held: %d scenarios, %d events validated, %d model states, %.1f s" %
          (pid, d, n, sum(m["states"] for m in ev["models"]), time.time() - t0))
    return 0


sys.exit(main())
