"""C09: Active.tla replayed on real threads; behaviours of Tape.tla on several threads at once."""
from vp import *
import tape_checks as T


def behaviour(steps, types, nth, ntp):
    """lines for the driver; the last call may be one TLC did not choose (see write)"""
    ts = sorted(types)
    L = ["B %s %d %d" % ("".join(ts), nth, ntp)]
    for s in steps:
        tok = [("1" if x else "0") if isinstance(x, bool) else str(x) for x in s["o"]]
        a = [str(row[t]) for row in s["a"] for t in ts]
        L.append("S %d;%s;%s;%s;%s" % (s["th"], " ".join(tok), " ".join(map(str, s["r"])), " ".join(a),
                                       " ".join(map(str, s["n"]))))
    return "\n".join(L)


def write(res, path, c, ops):
    n, seen = 0, set()
    lens = sorted(len(l) for l in res.payload)
    n0 = int(lens[len(lens) // 10] * 0.9) if lens else 0
    with open(path, "w") as f:
        for l in res.payload:
            k = hash(l[:n0]) if c["Sim"] else hash(l)
            if k in seen:
                continue
            seen.add(k)
            j = payload(l)
            for s in (j if c["Sim"] else j[-1:]):
                o = s["o"][0] + ":" + str(s["r"][0])
                ops[o] = ops.get(o, 0) + 1
            f.write(behaviour(j, c["Types"], c["NTh"], c["NTp"]) + "\n")
            n += 1
    return n


ALLC = dict(new=3, dea=2, act=4, set0=1, daa=1, mvc=2, mva=2, mvs=1, thr=1, rec=6, op=16, con=1, swp=6, val=1, **{"is": 1, "del": 2})
BASE = dict(NTh=2, NTp=2, Types={"D", "F"}, Share=True, MaxVars=4, MaxV=4000, MaxLen=0, Cats=set(), Plan=[], Prefix=[],
            Vals={2, 3}, Forms={"mul"}, Sim=False, SimDepth=0)
INV, PROPS = ["TypeInv", "OneThread", "Owner"], ["OwnActivation", "Rejected", "Isolated"]


def P(th, *o):
    return {"th": th, "o": list(o)}


def runs():
    A = {"new", "del", "act", "dea", "daa", "set0", "mvc", "mva", "thr"}
    t = THOROUGH
    two = [P(1, "new", 1, "D", True), P(1, "rec", 1, 2, 2, 3), P(2, "new", 2, "D", True), P(2, "rec", 2, 1, 3, 3)]
    R = [
        # everything about activation, two types
        ("act", dict(Plan=[{"new"}, A, A, A, A] if not t else [{"new"}] + [A] * 5), 0),
        # three threads, one type
        ("three", dict(NTh=3, Types={"D"}, Plan=[{"new"}, {"new", "act", "dea"}, {"new", "act", "dea", "thr", "mvc"},
                                                {"act", "dea", "set0", "daa", "mva", "del"}, {"act", "dea", "is"}]), 0),
        # recordings of two threads
        ("rec", dict(Types={"D"}, Prefix=two, Plan=[{"op", "dea", "act", "thr"}, {"op", "act", "dea", "mvc"}, {"op", "act"}, {"swp"}]
                     if not t else [{"op", "dea", "act", "thr"}, {"op", "act", "dea", "mvc"}, {"op", "act", "del"}, {"op", "act"}, {"swp"}],
                     MaxVars=5), 0),
        ("long", dict(Sim=True, NTh=3, NTp=5, Types={"D", "F", "G", "H", "I"}, Cats=T.cats(**ALLC), MaxLen=60, SimDepth=60, Vals={-2, 1, 3},
                      Forms={"add", "mul", "lin"}, MaxVars=7), 2000 if t else 60),
        ("long1", dict(Sim=True, NTh=3, NTp=4, Types={"D"}, Cats=T.cats(**ALLC), MaxLen=60, SimDepth=60, Vals={-2, 1, 3},
                       Forms={"add", "mul", "lin"}, MaxVars=7), 2000 if t else 60),
        ("free", dict(Sim=True, Share=False, NTh=4, NTp=8, Types={"D", "F", "H"}, Cats=T.cats(**ALLC), MaxLen=90, SimDepth=90,
                      Vals={-2, 1, 3}, Forms={"add", "mul", "lin"}, MaxVars=7), 2000 if t else 60),
    ]
    return [(n, dict(BASE, **k), s) for n, k, s in R]


def run_c09():
    chk = Check("C09")
    chk.assumptions = ["calls on one tape do not overlap", "a tape is destroyed, moved or activated only when it is not active in another thread",
                       "variables are destroyed while their tape or no tape is active"]
    ex = ThreadPoolExecutor(CPUS)
    src = HARNESS + "/active_driver.cpp"
    turn = [(l, ex.submit(build_binary, "active", src, c)) for l, c in (("default/asan", "def_asan_b16"), ("reuse/asan", "reuse_asan_b16"), ("default/release", "def_rel"))]
    free = [(l, ex.submit(build_binary, "active", src, c)) for l, c in (("default/tsan", "def_tsan"), ("reuse/tsan", "reuse_tsan"))]
    tape = ex.submit(T.drivers, [("tape driver, 8 threads/default/tsan", "def_tsan", "double"),
                                 ("tape driver, 8 threads/reuse/tsan", "reuse_tsan", "float"),
                                 ("tape driver, 8 threads/default/tsan/AReal<double>", "def_tsan", "xad::AReal<double>")])
    files = []
    for name, c, num in runs():
        kw = dict(simulate=num, depth=c["SimDepth"]) if num else dict(view="view")
        res = tlc("Active", "C09_" + name, c, INV, [] if num else PROPS, emit="Emit", timeout=1500, **kw)
        chk.add_tlc(name, res)
        path = os.path.join(chk.dir, name + ".txt")
        ops = {}
        n = write(res, path, c, ops)
        chk.detail.setdefault("calls_by_result", {})[name] = ops
        log("TLC %s: %d generated, %d distinct, %.1fs, %d behaviours" % (name, res.states, res.distinct, res.wall, n))
        if n == 0:
            raise CheckError("no behaviours from " + name)
        if len(chk.cov["samples"]) < 4:
            chk.cov["samples"].append({"config": name, "behaviour": T.get_behaviour(path, n // 2)})
        res.payload = None
        files.append((name, path, c["Share"]))
    # whole recordings, from Tape.tla, by several threads at once
    cc = dict([r for r in T.RUNS["C08"] if r["sim"]][0]["consts"])
    res = tlc("Tape", "C09_tape", cc, T.INV, [], emit="Emit", simulate=1500 if THOROUGH else 120, depth=cc["SimDepth"], timeout=3000)
    tpath = os.path.join(chk.dir, "tape.txt")
    n, ops = T.write_sim(res, tpath)
    chk.add_tlc("tape", res)
    log("TLC tape: %d behaviours" % n)
    for name, path, share in files:
        T.replay(chk, name, path, [(l, f.result()) for l, f in turn], timeout=800, args=("turn",))
        if not share and not chk.violations:
            T.replay(chk, name + " overlapping", path, [(l, f.result()) for l, f in free], timeout=800, args=("free",), shards=4)
        if chk.violations:
            break
    if not chk.violations:
        T.replay(chk, "recordings at once", tpath, tape.result(), timeout=800, env={"THREADS": "8"}, shards=2)
    return chk.finish()
