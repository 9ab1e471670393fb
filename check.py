#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY [quick|thorough]: decide one property of /repo's current tree.

exit 0   every obligation is discharged (or what is left undecided was only explored, which the evidence says)
exit 1   VIOLATION property=<id> replay=<path> [no-failing-input-found]
"""
import json
import multiprocessing
import os
import subprocess
import sys
import time
import traceback

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "engine"))
sys.setrecursionlimit(20000)
BUILD = os.path.join(V, ".build")
MODULAR = ["rt_convert", "rt_query", "rt_response"]


def worker(prop, dump, contracts, cvc5, q):
    """one verification attempt, in a process of its own"""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    t0 = time.time()
    try:
        from spec import World
        import props
        import report
        W = World(dump, cvc5=cvc5, contracts=contracts)
        W.I.deadline = t0 + 240
        C = props.Props(W)
        C.dump = dump
        C.codec_dump = dump[:-5] + "-codec.json"
        C.codec_opts = {"cvc5": cvc5}
        C.sub_opts = {"cvc5": cvc5, "contracts": contracts}
        getattr(C, prop)()
        q.put(report.collect(W, C, t0))
    except BaseException as e:
        q.put({"error": f"{type(e).__name__}: {e}", "trace": traceback.format_exc()[-3000:], "wall": time.time() - t0})


def attempt(prop, dump, contracts, cvc5, limit):
    ctx = multiprocessing.get_context("fork")
    q = ctx.Queue()
    p = ctx.Process(target=worker, args=(prop, dump, contracts, cvc5, q))
    p.start()
    try:
        r = q.get(timeout=limit)
    except Exception:
        r = {"error": "time limit of the verifier exhausted", "wall": limit}
    p.join(5)
    if p.is_alive():
        p.kill()
        p.join()
    return r


def open_obs(r):
    return [o for o in r.get("obs", []) if o["status"] != "proved"] if "error" not in r else [
        {"name": "verifier", "status": "undecided", "detail": r["error"]}]


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    dump = os.path.join(BUILD, f"mir-{prop}-{os.getpid()}.json")
    p = subprocess.run([os.path.join(V, "dump.sh"), dump], capture_output=True, text=True)
    if p.returncode != 0 or not os.path.exists(dump):
        sys.stderr.write(p.stderr[-4000:])
        print(f"ERROR property={prop}: /repo does not build")
        return 2
    import props
    extra = {b: dump[:-5] + f"-{b}.json" for b in props.BUILDS.get(prop, [])}
    for b, d in extra.items():
        # a failure here leaves the obligations over that extraction undecided
        subprocess.run([os.path.join(V, "dump.sh"), d, b], capture_output=True)
    try:
        return decide(prop, tier, seed, dump, t0)
    finally:
        for d in [dump] + list(extra.values()):
            for f in (d, d + ".log"):
                if os.path.exists(f):
                    os.unlink(f)


def decide(prop, tier, seed, dump, t0):
    import report
    thorough = tier == "thorough"
    import native as nat
    best = attempt(prop, dump, MODULAR, thorough, 300 if not thorough else 1500)
    attempts = [("modular", best)]
    left = open_obs(best)
    native = None
    if left:
        # a failing input settles it
        native = nat.search(prop, dump, left, seed, 25, V, BUILD)
    if left and not native.get("witness"):
        # callers once more with every callee inlined: a contract of a helper may have moved
        r = attempt(prop, dump, [], thorough, 300 if not thorough else 1500)
        attempts.append(("inlined", r))
        if rank(r) < rank(best):
            best = r
        left = open_obs(best)
    if (left and not native.get("witness")) or thorough:
        native = nat.search(prop, dump, left, seed + 1, 60 if not thorough else 300, V, BUILD)
    verdict = report.verdict(prop, best, left, native)
    report.evidence(V, prop, tier, seed, best, attempts, left, native, verdict, time.time() - t0)
    for o in left[:8]:
        print(f"{o['status']}: {o['name']}: {o['detail'][:300]}")
    print(f"property={prop} obligations={len(best.get('obs', []))} open={len(left)} wall={time.time() - t0:.1f}s")
    for k in report.known(V, prop):
        print(k)
    if verdict == "held":
        return 0
    path = report.replay(V, prop, left, native, best)
    print(f"VIOLATION property={prop} replay={path}" + ("" if verdict == "witness" else " no-failing-input-found"))
    return 1


def rank(r):
    if "error" in r:
        return (2, 0)
    o = open_obs(r)
    return (1 if o else 0, len(o))


if __name__ == "__main__":
    sys.exit(main())
