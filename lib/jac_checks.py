"""C14, C15: spec/Jac.tla against computeJacobian and computeHessian."""
from vp import *
import tape_checks as tc

STYLES = {"pure", "local", "inplace", "clear", "swap", "ret", "throw"}
TAPES = {"none", "active", "inactive", "other"}
CALLS = {"mat", "it"}


def ivec(v):
    return "%d %s" % (len(v), " ".join(map(str, v)))


def lines(p):
    L = ["B %s %s %s %d %d %s %s" % (p["fam"], p["style"], p["tape"], p["reg"], p["n"], ivec(p["xs"]), ivec(p["pre"]))]
    for o in p["outs"]:
        L.append("F %d %s" % (len(o), " ".join("%d %s" % (m[0], ivec(m[1])) for m in o)))
    for s in p["steps"]:
        if s["c"] == "call":
            L.append("C %s %s %s %s %d %s" % (s["a"], s["ov"], s["o"], ivec(s["r"]), len(s["m"]), " ".join(ivec(r) for r in s["m"])))
        else:
            L.append("U %s %s %s %s" % (ivec(s["v"]), ivec(s["g"]), ivec(s["t"]), ivec(s["s"])))
    return "\n".join(L + ["E"])


def run_jac(pid, fams):
    chk = Check(pid)
    chk.assumptions = ["variables registered on a tape are only used while that tape or none is active",
                       "the function is a polynomial (the derivatives of other functions are covered by C02-C04)"]
    base = dict(MaxIn=3, MaxOut=3, Styles=STYLES, Families=fams, Sim=False, Tapes=TAPES)
    b = build_binary("jac", HARNESS + "/jac_driver.cpp", "def_asan")
    b2 = build_binary("jac", HARNESS + "/jac_driver.cpp", "reuse_asan")
    runs = [("one", dict(base, MaxIn=4 if THOROUGH else 3, MaxOut=4 if THOROUGH else 3, Plan=[CALLS, {"use"}]), 0),
            ("two", dict(base, MaxIn=2, MaxOut=2, Styles=STYLES if THOROUGH else {"inplace", "throw"}, Plan=[CALLS, CALLS]), 0),
            ("long", dict(base, MaxIn=5, MaxOut=5, Sim=True, Plan=[CALLS | {"use"}] * 8), 1500 if THOROUGH else 30)]
    for name, c, num in runs:
        r = tlc("Jac", pid + name, c, ["DerivativesOK"], ["Frame"], emit="Emit", simulate=num or None,
                depth=16 if num else None, timeout=2000)
        chk.add_tlc(name, r)
        path = os.path.join(chk.dir, name + ".txt")
        seen = sorted(set(r.payload))
        if not seen:
            raise CheckError("no behaviours from " + name)
        with open(path, "w") as f:
            for l in seen:
                f.write(lines(payload(l)) + "\n")
        log("TLC %s: %d generated, %d behaviours %.1fs" % (name, r.states, len(seen), r.wall))
        chk.cov["samples"].append({"config": name, "behaviour": tc.get_behaviour(path, len(seen) // 2)[:30]})
        tc.replay(chk, name, path, [("default", b), ("reuse", b2)])
        os.remove(path)
        if chk.violations:
            break
    return chk.finish()


def run_c14():
    return run_jac("C14", {"adj", "fwd"})


def run_c15():
    return run_jac("C15", {"fa", "ff"})
