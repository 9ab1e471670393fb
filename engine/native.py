"""Search for a concrete failing input on the compiled code: a differential run of /repo's contract against the
reference model in /verif/native.  Bounded: it stands in only for obligations the verifier left open, and it never
turns an open obligation into a discharged one."""
import json
import os
import re
import subprocess


LOCAL = ("cw_ica_controller", "cw-ica-controller", "cw_ica_owner", "cw-ica-owner", "callback_counter", "callback-counter")


def dictionary(dump, left):
    """strings and integers of the code (so that special-cased values are reached) and of counterexample models"""
    strs, ints = set(), set()

    def walk(x):
        if isinstance(x, dict):
            for k in ("str", "bytes"):
                b = x.get(k)
                if isinstance(b, list) and b and len(b) <= 140 and all(isinstance(c, int) and c < 256 for c in b):
                    try:
                        strs.add(bytes(b).decode())
                    except UnicodeDecodeError:
                        pass
            if "int" in x and "bool" not in x:
                try:
                    n = int(x["int"])
                    if 0 <= n < 1 << 64:
                        ints.add(n)
                except (TypeError, ValueError):
                    pass
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            if len(x) and all(isinstance(c, int) for c in x[:4]):
                return
            for v in x:
                walk(v)
    try:
        d = json.load(open(dump))
        for f in d["fns"]:
            if f.get("crate") in LOCAL or f["name"].lstrip("<").startswith(LOCAL):
                walk(f["body"])
                # match values of integer switches
                for m in re.findall(r'"values?": ?\[?"?(\d+)', json.dumps(f["body"])):
                    if int(m) < 1 << 64:
                        ints.add(int(m))
    except Exception:
        pass
    for o in left:
        t = json.dumps(o.get("model") or "")
        for m in re.findall(r'\\"([^"\\]{1,100})\\"', t):
            strs.add(m)
        for m in re.findall(r"\b(\d{1,20})\b", t):
            if int(m) < 1 << 64:
                ints.add(int(m))
    ents = sorted({o["entry"] for o in left if o.get("entry")})
    return {"strs": sorted(s for s in strs if len(s) < 200), "ints": sorted(ints), "entries": ents}


BUILDS = {"min": "", "mins": "staking", "minq": "query", "minqs": "query,staking", "mincodec": ""}
# the example contracts are compiled with the harness only for their own properties: the owner contract uses the
# library without its optional features, and features are shared within one build
EXAMPLES = {"C30": "owner", "C31": "counter"}


def build(V, BUILD, features=None):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "native"))
    for k in ("RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER", "LD_LIBRARY_PATH"):
        env.pop(k, None)
    env["RUSTFLAGS"] = "--cap-lints=allow"
    args = ["cargo", "build", "--offline", "-q"]
    if features is not None:
        args += ["--no-default-features", "--features", ",".join(x for x in (features, "typed") if x)]
    p = subprocess.run(args, cwd=os.path.join(V, "native"), env=env, capture_output=True, text=True)
    exe = os.path.join(BUILD, "native", "debug", "native")
    if p.returncode != 0 and features is None:
        # the library's types changed: without the parts that name them, through the entry points only
        p = subprocess.run(args + ["--no-default-features", "--features", "full"], cwd=os.path.join(V, "native"), env=env, capture_output=True, text=True)
    if p.returncode != 0 or not os.path.exists(exe):
        return None, p.stderr[-2000:]
    return exe, ""


def search(prop, dump, left, seed, budget, V, BUILD):
    if prop in EXAMPLES:
        return search1(prop, dump, left, seed, budget, V, BUILD, EXAMPLES[prop])
    if prop != "C29":
        return search1(prop, dump, left, seed, budget, V, BUILD)
    # the builds with open obligations (all of them when nothing is open)
    tags = [t for t in BUILDS if any(o["name"].startswith(f"[{t}]") for o in left)] or list(BUILDS)
    sets = sorted({BUILDS[t] for t in tags})
    r = {"cases": 0}
    for f in sets:
        x = search1(prop, dump, left, seed, budget / len(sets), V, BUILD, f)
        if x.get("witness"):
            x["witness"]["features"] = f
            return x
        r = dict(x, cases=r["cases"] + x["cases"] + x.get("documents", 0))
    r["bound"] = f"{r['cases']} random calls of the library functions in the builds with features {sets}, within {budget} s"
    return r


def search1(prop, dump, left, seed, budget, V, BUILD, features=None):
    exe, err = build(V, BUILD, features)
    if exe is None:
        return {"cases": 0, "error": "the native harness does not build against this tree: " + err}
    dic = os.path.join(BUILD, f"dict-{prop}-{os.getpid()}.json")
    out = os.path.join(BUILD, f"native-{prop}-{os.getpid()}.json")
    src = dump[:-5] + f"-{features}.json" if prop in EXAMPLES else dump
    json.dump(dictionary(src if os.path.exists(src) else dump, left), open(dic, "w"))
    try:
        subprocess.run([exe, prop, str(seed), str(budget), dic, out], timeout=budget + 60, capture_output=True)
        r = json.load(open(out))
        r["bound"] = f"{r['cases'] + r.get('documents', 0)} random calls on injected and accumulated states within {budget} s"
        return r
    except Exception as e:
        return {"cases": 0, "error": f"{type(e).__name__}: {e}"}
    finally:
        for f in (dic, out):
            if os.path.exists(f):
                os.unlink(f)
