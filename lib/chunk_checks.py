"""Check of C12: spec/Chunk.tla against xad::ChunkContainer, and tape results across block boundaries."""
import os
from vp import *
import tape_checks as tc

ALL = {"pb", "eb", "ps", "app", "ext", "rsz", "asg", "set", "rsv", "clr", "new", "del", "mvc", "mva"}


def lines(steps, final=None):
    L = ["B"]
    for st in steps:
        L.append("S " + " ".join(str(x) for x in st["o"]))
        if "s" in st:
            L.append(obs(st["s"]))
    if final is not None:
        L.append(obs(final))
    L.append("E")
    return "\n".join(L)


def obs(s):
    f = []
    for st, e in s:
        f += [st, len(e)] + e
    return "O " + " ".join(str(x) for x in f)


def configs(B):
    """block size B: sizes around the boundaries"""
    S = {0, 1, B - 1, B, B + 1, 2 * B, 2 * B + 1, 3 * B}
    A = {1, B - 1, B}
    E = {1, B, B + 1, 2 * B, 2 * B + 1}
    return S, A, E


def run_c12():
    chk = Check("C12")
    chk.assumptions = ["append is called with at most one block of elements", "moved-from containers are only destroyed, "
                       "assigned to, cleared or asked for their size"]
    one = {"pb", "rsz", "asg", "app", "ext", "clr", "rsv"}
    runs = []
    for B in ((2, 3) if not THOROUGH else (1, 2, 3, 4)):
        S, A, E = configs(B)
        base = dict(NQ=1, MaxN=7 * B + 2, Sizes=S, Adds=A, Exts=E, Cats=set(), Plan=[], MaxLen=0, Sim=False, SimDepth=0)
        p = [one, one, {"pb", "app", "rsz", "asg", "set", "ps"}, {"pb"}, {"eb"}]
        if THOROUGH:
            p = [one, one] + p[1:]
        runs.append(("C12_ex_b%d" % B, B, dict(base, Plan=p, Adds=A), 0))
        runs.append(("C12_ext_b%d" % B, B, dict(base, Plan=[{"ext", "pb", "rsz"}, {"ext"}, {"ext", "rsz", "asg", "app"} if B > 1 else {"ext", "rsz"}, {"pb"}, {"ps"}]), 0))
        runs.append(("C12_mv_b%d" % B, B, dict(base, NQ=2, Plan=[{"rsz", "app", "new"}, {"rsz", "new", "mvc", "pb"}, {"mvc", "mva", "del", "clr"},
                                                               {"mva", "mvc", "del", "clr", "rsz", "pb"}, {"pb"}, {"pb", "clr"}],
                                              Sizes={1, B, B + 1}, Adds={B}), 0))
        runs.append(("C12_sim_b%d" % B, B, dict(base, NQ=3, Cats=ALL, Sim=True, MaxLen=60, SimDepth=60, MaxN=9 * B), 500))
    bl = (2, 3) if not THOROUGH else (1, 2, 3, 4)
    pool = ThreadPoolExecutor(CPUS)
    bins = {}
    for B in bl:
        bins[B] = pool.submit(build_binary, "chunk%d" % B, HARNESS + "/chunk_driver.cpp", "chunk_asan", "-DBLOCK=%d" % B,
                              link_tape=False)
    # tape on different block sizes
    dl = []
    for n in ((3, 4, 5) if not THOROUGH else (3, 4, 5, 6, 16, 32)):
        cfg = "def_asan_b%d" % n if n % 2 else "reuse_asan_b%d" % n
        dl.append(("block%d" % n, cfg, "double"))
    big = [("8M blocks", "def_big", "double"), ("8M blocks/reuse", "reuse_big", "double")]
    fd = pool.submit(tc.drivers, dl + big)
    for name, B, c, num in runs:
        r = tlc("Chunk", name, c, ["TypeOK"], ["Frame"], emit="Emit", simulate=num or None, depth=60 if num else None,
                timeout=1500)
        chk.add_tlc(name, r)
        path = os.path.join(chk.dir, name + ".txt")
        n, seen = 0, set()
        with open(path, "w") as f:
            for l in r.payload:
                j = payload(l)
                if num:
                    k = json.dumps([s["o"] for s in j[:-1]])
                    if k in seen:
                        continue
                    seen.add(k)
                    f.write(lines(j) + "\n")
                else:
                    f.write(lines(j["x"], j["s"]) + "\n")
                n += 1
        if not n:
            raise CheckError("no behaviours from " + name)
        if len(chk.cov["samples"]) < 3:
            chk.cov["samples"].append({"config": name, "behaviour": tc.get_behaviour(path, n // 2)[:40]})
        log("TLC %s: %d generated, %d behaviours %.1fs" % (name, r.states, n, r.wall))
        tc.replay(chk, name, path, [("block%d" % B, bins[B].result())])
        os.remove(path)
        if chk.violations:
            return chk.finish()
    # tape behaviours: same results for every block size
    db = fd.result()
    tr = [r for r in tc.RUNS["C01"] if r["name"] == "long"][0]
    c = dict(tr["consts"])
    r = tlc("Tape", "C12_tape", c, tc.INV, [], emit="Emit", simulate=2000 if THOROUGH else 120, depth=c["SimDepth"], timeout=3000)
    chk.add_tlc("C12_tape", r)
    path = os.path.join(chk.dir, "tape.txt")
    n, ops = tc.write_sim(r, path)
    tc.replay(chk, "C12_tape", path, db[:len(dl)])
    if chk.violations:
        return chk.finish()
    # real blocks: repeated statements carry the recording across the 8M boundary
    M = 8 * 1024 * 1024
    pl = []
    reps = [M // 2 - 3, M // 2 - 2, M // 2 - 1, M // 2, M - 4, M - 3, M - 2, M - 1, M] if THOROUGH else \
        [M // 2 - 2, M // 2 - 1, M // 2, M - 4, M - 3, M - 2, M - 1]
    c = dict(tc.BASE, NH=2, Prefix=tc.PRE[:-1] + [["nrc", 1]], MaxV=1000000000, MaxD=1000000000,
             Plan=tc.plan([["rpt", 1, 2, k] for k in reps], "asg mrk ckp cpa", [["sed", 1, 1]], "adj adt"),
             Forms={"lin"}, Coefs={1}, Kinds={2}, Ghost=False)
    r = tlc("Tape", "C12_big", c, tc.INV, tc.PROPS, emit="Emit", view="view", timeout=3000)
    chk.add_tlc("C12_big", r)
    path = os.path.join(chk.dir, "big.txt")
    n, ops = tc.write_exhaustive(r, path, c["Prefix"])
    log("TLC C12_big: %d behaviours %.1fs" % (n, r.wall))
    tc.replay(chk, "C12_big", path, db[len(dl):])
    return chk.finish()
