"""What a run covered, and what it found."""
import json
import os
import time
from hooks import LOCAL

TRUSTED = [
    "rustc 1.101.0-nightly front end: MIR at -Zmir-opt-level=0 is taken to mean what the source means",
    "mirdump (rustc driver that serialises the MIR, /verif/mirdump) and the symbolic engine (/verif/engine: interp, iters, values)",
    "z3 (python bindings); thorough tier: every discharged query is repeated with cvc5",
    "assumed contracts of dependencies and of std (engine/hooks.py); the ones this run relied on are listed under assumed_contracts",
]
ASSUME = [
    "platform: an error or a panic of an entry point reverts every effect of the call; messages are dispatched in order; storage is only written by this contract",
    "typed store: bytes under a namespace were written by this contract with the type it reads (a load that finds bytes decodes them); that the Item and Map operations are single reads, writes and removals at keys no two records share is proved on the source of cw-storage-plus, cw-ownable and cw2 (C33; for the example contracts in C30 and C31), given channel identifiers of at most 65535 bytes",
    "codecs: in the contracts of the entry points an encoding is an injective function of the value and decoding a partial function of the bytes; for this crate's own types the member names, presence rules, round trip and protobuf field numbers are proved on the derived implementations themselves (C24-C26 and the properties that use them), down to serde's data model and prost's field primitives; the text layer (serde-json-wasm, prost wire primitives) and the implementations of dependency types are assumed",
    "address validity, unicode character classes, decimal/integer text and semver texts are uninterpreted functions with the stated axioms",
    "drop glue and unwinding paths are not followed; string slices are taken at character boundaries; allocation does not fail",
    "machine integers are mathematical integers with range facts; every arithmetic operation's overflow check is followed as a panic path",
]


def merge(a, b):
    """the runs over the two extractions (behaviour, encodings) as one"""
    r = dict(a)
    for k in ("functions", "contract_calls", "hooked", "used"):
        r[k] = sorted(set(a[k]) | set(b[k]))
    for k in ("dep_functions", "paths"):
        r[k] = a[k] + b[k]
    for k in ("prover", "engine", "havoc"):
        r[k] = {x: (a[k].get(x, 0) + b[k].get(x, 0) if not isinstance(a[k].get(x, b[k].get(x)), (str, bool)) else a[k].get(x, b[k].get(x)))
                for x in set(a[k]) | set(b[k])}
    r["exec_time"] = {**a["exec_time"], **b["exec_time"]}
    return r


def collect(W, C, t0):
    r = collect1(W, C, t0)
    if C.CW is not None and C.CW is not W:
        r = merge(r, collect1(C.CW, C, t0))
    for w in C.worlds:
        r = merge(r, collect1(w, C, t0))
    return r


def collect1(W, C, t0):
    I = W.I
    return {
        "obs": [{"name": o.name, "status": o.status, "detail": o.detail, "time": round(o.time, 3), "entry": o.entry, "beh": o.beh,
                 "model": model_text(o.model) if o.status != "proved" else None} for o in C.obs],
        "prover": {k: (round(v, 2) if isinstance(v, float) else v) for k, v in W.pr.stats.items()},
        "engine": {"steps": I.stats["steps"], "solver_calls": I.stats["solver_calls"], "solver_time": round(I.stats["solver_time"], 2)},
        "functions": sorted(f for f in I.stats["inlined"] if f.lstrip("<").startswith(LOCAL)),
        "dep_functions": len([f for f in I.stats["inlined"] if not f.lstrip("<").startswith(LOCAL + ("roots",))]),
        "contract_calls": sorted(I.stats["contract_calls"]),
        "hooked": sorted(I.stats["hooked"]),
        "havoc": I.stats["havoc"],
        "used": sorted(I.used_assumptions),
        "exec_time": {str(k): v for k, v in W.exec_time.items()},
        "paths": sum(len(e.outs) for e in W.eps.values()),
        "wall": round(time.time() - t0, 2),
    }


def model_text(m):
    if m is None or isinstance(m, str):
        return m
    try:
        return {str(d): str(m[d])[:400] for d in m.decls()[:200]}
    except Exception:
        return None


def verdict(prop, best, left, native):
    if native and native.get("witness"):
        return "witness"
    if any(o["status"] == "refuted" for o in left):
        return "refuted"
    return "held"


def known(V, prop):
    out = []
    f = os.path.join(V, "known-findings.txt")
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line.startswith("KNOWN-FINDING:") and f"property={prop} " in line:
                out.append(line)
    return out


def evidence(V, prop, tier, seed, best, attempts, left, native, verdict, wall):
    obs = best.get("obs", [])
    byent = {}
    for o in obs:
        byent.setdefault(o["entry"] or "-", [0, 0])
        byent[o["entry"] or "-"][0] += 1
        byent[o["entry"] or "-"][1] += o["status"] == "proved"
    cov = {
        "obligations": len(obs),
        "discharged": sum(o["status"] == "proved" for o in obs),
        "checker_cmd": f"python3-vt /verif/check.py {prop} {tier}",
        "trusted_base": TRUSTED,
        "functions_under_contract": best.get("functions", []),
        "functions_under_contract_count": len(best.get("functions", [])),
        "dependency_functions_executed_from_source": best.get("dep_functions", 0),
        "callee_contracts_used": best.get("contract_calls", []),
        "assumed_contracts": best.get("hooked", []),
        "abstracted_calls": best.get("havoc", {}),
        "obligations_by_function": {k: {"obligations": a, "discharged": b} for k, (a, b) in byent.items()},
        "back_end": "z3 " + z3v() + (" + cvc5 cross-check" if best.get("prover", {}).get("cvc5") else ""),
        "paths": best.get("paths", 0),
        "solver": best.get("prover", {}),
        "engine": best.get("engine", {}),
        "symbolic_execution_s": best.get("exec_time", {}),
        "attempts": [{"mode": m, "wall_s": r.get("wall"), "open": len([o for o in r.get("obs", []) if o["status"] != "proved"]) if "error" not in r else None,
                      "error": r.get("error")} for m, r in attempts],
    }
    if left:
        cov["undischarged"] = [{"name": o["name"], "status": o["status"], "detail": o["detail"][:500]} for o in left[:50]]
    if native:
        cov["bounded_native_check"] = {k: native[k] for k in native if k != "witness"}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": ASSUME,
          "wall_s": round(wall, 2), "violations": 0 if verdict == "held" else 1}
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def z3v():
    import z3
    return z3.get_version_string()


def replay(V, prop, left, native, best):
    d = os.path.join(V, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, prop + ".json")
    with open(path, "w") as f:
        json.dump({"property": prop, "failed_obligations": [o for o in left][:20],
                   "witness": (native or {}).get("witness"), "native": {k: v for k, v in (native or {}).items() if k != "witness"}}, f, indent=1)
    return path
