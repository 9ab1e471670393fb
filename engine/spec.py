"""Specification layer: named inputs, pre/post state, outcomes, obligations."""
import sys
import time
import traceback
import z3
from values import *
from interp import Program, Interp, State, simp, mk_not, conc, lits
import hooks
from prover import Prover, Forall, Fail, Lost, skolem, short
from patterns import *
from specs import Specs

T, Fz = z3.BoolVal(True), z3.BoolVal(False)

ARGN = {
    "ep_instantiate": ["deps", "env", "info", "msg"],
    "ep_execute": ["deps", "env", "info", "msg"],
    "ep_reply": ["deps", "env", "msg"],
    "ep_query": ["deps", "env", "msg"],
    "ep_migrate": ["deps", "env", "msg"],
    "ep_ibc_channel_open": ["deps", "env", "msg"],
    "ep_ibc_channel_connect": ["deps", "env", "msg"],
    "ep_ibc_channel_close": ["deps", "env", "msg"],
    "ep_ibc_packet_ack": ["deps", "env", "msg"],
    "ep_ibc_packet_timeout": ["deps", "env", "msg"],
    "ep_ibc_packet_receive": ["deps", "env", "msg"],
}

for _n in ("state", "channel", "options", "open", "close", "query", "admin", "count", "counter"):
    ARGN[f"st_{_n}_save"] = ["s", "v"]
for _m, _k in (("filed", ["ch", "n"]), ("ica", ["n"]), ("id", ["a"])):
    for _n in ("save", "load", "may_load", "exists", "remove"):
        ARGN[f"st_{_m}_{_n}"] = ["s"] + _k + (["v"] if _n == "save" else [])
ARGN["st_owner_init"] = ["s", "api", "owner"]
ARGN["st_version_save"] = ["s", "name", "version"]

for _p in ("ow_", "cc_"):
    for _n in ("instantiate", "execute", "query"):
        ARGN[_p + _n] = ARGN["ep_" + _n]

ITEMS = ["state", "ica_channel", "channel_open_init_options", "allow_channel_open_init", "allow_channel_close_init",
         "pending_query", "ownership", "contract_info"]
MAPS = ["pending_queries"]


class Out:
    __slots__ = ("st", "kind", "v", "raw", "n")

    def __init__(self, st, kind, v, raw, n):
        self.st, self.kind, self.v, self.raw, self.n = st, kind, v, raw, n


class Ep:
    def __init__(self, name, args, outs):
        self.name, self.args, self.outs = name, args, outs

    def __getitem__(self, k):
        return self.args[k]

    @property
    def oks(self):
        return [o for o in self.outs if o.kind == "ok"]

    @property
    def aborts(self):
        return [o for o in self.outs if o.kind != "ok"]


from behaviours import Behaviours
from contracts import Contracts
from libspec import LibBehaviours


class World(Specs, Behaviours, LibBehaviours, Contracts):
    """one verification run over one MIR dump"""
    probe = ("ep_instantiate", "ep_ibc_channel_close", "ep_execute", "ep_reply")
    probe_map = ("ep_reply", "ep_ibc_packet_timeout", "ep_ibc_packet_ack")

    def __init__(self, path, cvc5=False, contracts=None, only=None, engine_contracts=None):
        self.P = Program(path)
        self.I = Interp(self.P, engine_contracts or hooks.H, contracts={})
        self.pr = Prover(self.I, cvc5)
        self.eps = {}
        self.exec_time = {}
        self.setup_contracts(contracts or [])

    # ---------------------------------------------------------------- execution
    def ep(self, name):
        e = self.eps.get(name)
        if e is None:
            e = self.eps[name] = self.run(name, ARGN.get(name))
        return e

    def run(self, name, argn=None, args=None, assume=None, mem=None):
        t0 = time.time()
        I, P = self.I, self.P
        if name not in P.roots:
            raise Lost(f"entry {name} is not in the dump")
        fid = P.roots[name]
        b = P.fns[fid]["body"]
        st = State()
        if args is None:
            argn = argn or [f"a{i}" for i in range(b["argc"])]
            args = {n: I.leaf(b["locals"][i + 1], n) for i, n in enumerate(argn)}
        for c in assume or []:
            st.assume(c)
        st.mem.update(mem or {})
        outs = []
        for s, k, v in I.exec_fn(st, fid, list(args.values())):
            outs += self.classify(s, k, v, len(outs))
        snap = {}
        for n, v in args.items():
            try:
                snap[n] = I.snapshot(State(), v)
            except Unsupported:
                snap[n] = v
        for i, o in enumerate(outs):
            o.n = i
        self.exec_time[name] = round(time.time() - t0, 2)
        return Ep(name, snap, outs)

    def body(self, root, argn):
        """outcomes of the function behind a root, from its body (its own contract is not used)"""
        k = ("body", root)
        e = self.eps.get(k)
        if e is None:
            fid = self.ct_fid.get(root)
            d = self.P.fns[fid]["def"] if fid is not None else None
            h = self.I.contracts.pop(d, None)
            try:
                e = self.eps[k] = self.run(root, argn)
            finally:
                if h is not None:
                    self.I.contracts[d] = h
        return e

    def classify(self, s, k, v, n):
        I = self.I
        if k == "panic":
            return [Out(s, "panic", None, v, n)]
        if k != "ret":
            raise Lost(f"unexpected outcome kind {k}")
        if isinstance(v, (Adt, Sym)) and isinstance(v.ty, int) and I.P.types[v.ty].get("name") == "std::result::Result":
            out = []
            tg = I.tag(v)
            vs = [tg] if isinstance(tg, int) else I.tag_range[tg.decl().name()]
            for i in vs:
                s2 = s
                if not isinstance(tg, int):
                    if not I.feasible(s, tg == i):
                        continue
                    s2 = s.copy().assume(simp(tg == i))
                nm = I.variants(v.ty)[i]["name"]
                out.append(Out(s2, "ok" if nm == "Ok" else "err", I.snapshot(s2, I.field(v, 0, i)), v, n))
            return out
        return [Out(s, "ok", I.snapshot(s, v), v, n)]

    # ---------------------------------------------------------------- values
    def F(self, v, *names):
        return self.I.F(v, *names)

    def isv(self, v, name):
        return self.I.is_variant(v, name)

    def some(self, v):
        """payload of Option::Some"""
        return self.I.field(v, 0, self.P.variant_index(v.ty, "Some"))

    def s(self, v):
        """string of an Addr / Binary / String value"""
        if is_term(v):
            return v
        return self.I.field(v, 0)

    def mk(self, ty, d):
        """build a value of MIR type `ty` from a nested description:
        ("Variant", {field: d} | [d..]) | {field: d} | z3 term | Val | python str/int/bool | list | None"""
        I, P = self.I, self.P
        if isinstance(d, Val) or is_term(d):
            if is_term(d) and not self.scalar(ty):
                # wrap a string into a one-field struct (Addr, Binary)
                t = P.types[ty]
                if t["k"] == "adt" and len(t["variants"]) == 1 and len(t["variants"][0]["fields"]) == 1:
                    return Adt(ty, 0, [self.mk(t["variants"][0]["fields"][0]["ty"], d)])
            if isinstance(d, Adt) and d.ty in (("tup",), ("join",)):
                pass
            return d
        t = P.types[ty]
        if t["k"] == "adt" and t["name"] == "std::boxed::Box":
            return self.mk(t["args"][0], d)
        if isinstance(d, bool):
            return z3.BoolVal(d)
        if isinstance(d, int):
            if not self.scalar(ty):
                return Adt(ty, 0, [self.mk(t["variants"][0]["fields"][0]["ty"], d)])
            return z3.IntVal(d)
        if isinstance(d, (str, bytes)):
            if not P.is_bytes(ty) and t["k"] == "adt":
                vs = [v["name"] for v in t["variants"]]
                if d in vs and not t["variants"][vs.index(d)]["fields"]:
                    return Adt(ty, vs.index(d), ())
                return Adt(ty, 0, [self.mk(t["variants"][0]["fields"][0]["ty"], d)])
            return sbytes(d)
        if isinstance(d, list):
            el = P.seq_elem(ty)
            segs = []
            for x in d:
                segs.append(x if isinstance(x, (SymSeg, Comp, Lit)) else Lit([self.mk(el, x)]))
            return Seq(segs)
        if d is None:
            return Adt(ty, P.variant_index(ty, "None"), ())
        if isinstance(d, tuple):
            vn, fs = d
            i = P.variant_index(ty, vn)
            return self.mk_fields(ty, i, t["variants"][i]["fields"], fs)
        if isinstance(d, dict):
            return self.mk_fields(ty, 0, I.variants(ty)[0]["fields"], d)
        raise Lost(f"cannot build {t['s']} from {d!r}")

    def scalar(self, ty):
        return self.P.is_bytes(ty) or self.P.types[ty]["k"] in ("int", "bool", "char")

    def mk_fields(self, ty, i, fds, fs):
        if isinstance(fs, dict):
            names = [f["name"] for f in fds]
            if sorted(names) != sorted(fs):
                raise Lost(f"{self.P.types[ty]['s']} has fields {names}, the specification names {sorted(fs)}")
            return Adt(ty, i, [self.mk(f["ty"], fs[f["name"]]) for f in fds])
        if not isinstance(fs, (list, tuple)):
            fs = [fs]
        if len(fs) != len(fds):
            raise Lost(f"{self.P.types[ty]['s']} variant {i} has {len(fds)} fields")
        return Adt(ty, i, [self.mk(f["ty"], x) for f, x in zip(fds, fs)])

    def enc(self, kind, ty, d):
        v = self.mk(ty, d)
        return self.I.encode(kind, ty, v)

    # ---------------------------------------------------------------- state
    def item_ty(self, ns):
        ty = self.I.store_types.get(("item", ns))
        if ty is None:
            ty = ITEM_TYPES_CACHE.get((id(self), ns))
        if ty is None:
            # run entries until one touches the item
            for e in self.probe:
                self.ep(e)
                if ("item", ns) in self.I.store_types:
                    return self.I.store_types[("item", ns)]
            raise Lost(f"no entry point touches the stored item {ns!r}")
        return ty

    def pre(self, ns):
        """(present, value) of an item before the call"""
        return app(f"st0!{ns}.present", (), BOOL), self.I.leaf(self.item_ty(ns), f"st0!{ns}")

    def post(self, o, ns):
        if o.kind != "ok":
            return self.pre(ns)
        if ("item", ns) not in o.st.store and ("havoc",) not in o.st.store:
            return self.pre(ns)
        return hooks.item_get(self.I, o.st, ns, self.item_ty(ns))

    def map_ty(self, ns):
        ty = self.I.store_types.get(("map", ns))
        if ty is None:
            for e in self.probe_map:
                self.ep(e)
                if ("map", ns) in self.I.store_types:
                    return self.I.store_types[("map", ns)]
            raise Lost(f"no entry point touches the stored map {ns!r}")
        return ty

    def map_pre(self, ns, k):
        return app(f"st0!{ns}.present", k, BOOL), self.I.leaf(self.map_ty(ns), f"st0!{ns}", k)

    def map_post(self, o, ns, k):
        """[(state, present, value)]"""
        if o.kind != "ok":
            p, v = self.map_pre(ns, k)
            return [(o.st, p, v)]
        return hooks.map_lookup(self.I, o.st, ns, self.map_ty(ns), k)

    def touched(self, o):
        """namespaces written on this outcome"""
        return [k for k in o.st.store]


ITEM_TYPES_CACHE = {}
