"""C33: what the storage operations do to the bytes of the store, on the source of cw-storage-plus, cw-ownable and cw2.
Here the contracts the other properties assume of Item and Map are proved down to Storage::get, set and remove."""
import z3
from values import *
from interp import simp
from prover import Fail, Lost
from patterns import *
from specs import And, Or, Not

LOG = ("raw",)
RECORDS = {  # root prefix -> key
    "state": b"state", "channel": b"ica_channel", "options": b"channel_open_init_options", "open": b"allow_channel_open_init",
    "close": b"allow_channel_close_init", "query": b"pending_query",
}
FILED = "pending_queries"


def raw_hooks():
    import hooks
    H = {k: h for k, h in hooks.H.items() if not k.startswith("cw_storage_plus::")}

    def logged(f):
        def h(I, st, cx, a):
            hooks.check_storage(I, st, a[0])
            st = st.copy()
            e, r = f(I, st, cx, a)
            st.store[LOG] = st.store.get(LOG, ()) + (e,)
            return hooks.ret(st, r)
        return h

    def get(I, st, cx, a):
        k = I.snapshot(st, a[1])
        if not is_term(k):
            raise Unsupported("storage key")
        if any(e[0] != "get" for e in st.store.get(LOG, ())):
            raise Unsupported("a read after a write")
        return ("get", k), I.leaf(cx.dty, "raw_get", (k,))
    H["cosmwasm_std::Storage::get"] = logged(get)
    H["cosmwasm_std::Storage::set"] = logged(lambda I, st, cx, a: (("set", I.snapshot(st, a[1]), I.snapshot(st, a[2])), hooks.unit(I)))
    H["cosmwasm_std::Storage::remove"] = logged(lambda I, st, cx, a: (("remove", I.snapshot(st, a[1])), hooks.unit(I)))
    H["cw_storage_plus::helpers::not_found_object_info"] = lambda I, st, cx, a: hooks.ret(st, app("not_found_info", (I.snapshot(st, a[0]),), STR))
    return H


def byte(t):
    return z3.StrFromCode(t)


def map_key(ns, *parts):
    """length-prefixed namespace and leading parts, then the last part"""
    out = []
    for p in (ns,) + parts[:-1]:
        if isinstance(p, bytes):
            out.append(sbytes(len(p).to_bytes(2, "big") + p))
        else:
            n = z3.Length(p)
            out += [byte((n / 256) % 256), byte(n % 256), p]
    return z3.Concat(*out, parts[-1])


class StoreSpecs:
    """mixin of Props"""

    def op(self, root, title, pre, check):
        """check(e, o, log) on every outcome of the operation allowed by pre(e)"""
        W = self.W
        res = {}
        if not self.ob(f"{root}: symbolic execution", None, lambda: res.__setitem__("e", W.ep(root)), root):
            return
        e, n = res["e"], 0
        for o in e.outs:
            st = o.st
            if pre is not None:
                st = st.copy()
                for c in pre(e):
                    st.assume(simp(c))
            if not W.pr.sat(st):
                W.pr.stats["trivial"] += 1
                continue
            n += o.kind == "ok"

            def f():
                if o.kind == "panic":
                    raise Fail("the operation panics", model="none")
                check(e, o, st, o.st.store.get(LOG, ()))
            self.ob(f"{root}#{o.n} ({o.kind}): {title}", st, f, root)
        self.ob(f"{root}: reachable", None, lambda: None if n else self.no("no outcome"), root)

    def no(self, why):
        raise Fail(why, model="none")

    def one(self, st, log, kind, key):
        if [x[0] for x in log] != [kind]:
            self.no(f"store operations {[x[0] for x in log]}, expected one {kind}")
        self.W.pr.eq(st, log[0][1], key, "key")

    def raw(self, e, root, key):
        """(present, bytes) under the key before the call"""
        ty = next(i for i, t in enumerate(self.W.P.types) if t["s"] == "std::option::Option<std::vec::Vec<u8>>")
        v = self.W.I.leaf(ty, "raw_get", (key,))
        return self.W.isv(v, "Some"), self.W.some(v)

    def record(self, name, key, tyname, pre=None, argn=("s", "v"), ops=("save", "load", "may_load", "exists", "remove")):
        W, pr = self.W, self.W.pr
        key = key if callable(key) else (lambda k: lambda e: sbytes(k))(key)
        dec = lambda e, b: W.dec("json", tyname, b) if isinstance(tyname, str) else tyname(b)

        def save(e, o, st, log):
            self.one(st, log, "set", key(e))
            pr.match(st, log[0][2], Enc("json", "", e["v"]), "stored bytes")
            if o.kind != "ok":
                self.no("saving fails")

        def load(e, o, st, log):
            self.one(st, log, "get", key(e))
            p, b = self.raw(e, name, key(e))
            ok, v = dec(e, b)
            if o.kind == "ok":
                pr.prove(st, And(p, ok), "a record is there and reads")
                pr.eq(st, o.v, v, "record")
            else:
                pr.prove(st, Not(And(p, ok)), "no readable record")

        def may_load(e, o, st, log):
            self.one(st, log, "get", key(e))
            p, b = self.raw(e, name, key(e))
            ok, v = dec(e, b)
            if o.kind == "ok":
                pr.match(st, o.v, Cases([(Not(p), NONE), (p, Some(v))]), "record")
                pr.prove(st, Or(Not(p), ok), "readable")
            else:
                pr.prove(st, And(p, Not(ok)), "an unreadable record")

        def exists(e, o, st, log):
            self.one(st, log, "get", key(e))
            pr.eq(st, o.v, self.raw(e, name, key(e))[0], "presence")

        def remove(e, o, st, log):
            self.one(st, log, "remove", key(e))
        T = {"save": "writes exactly the record's own key", "load": "reads exactly the record's own key",
             "may_load": "reads exactly the record's own key", "exists": "reads exactly the record's own key",
             "remove": "removes exactly the record's own key"}
        for op in ops:
            root = f"st_{name}_{op}"
            self.op(root, T[op], pre, locals()[op])

    def store(self):
        W, pr = self.W, self.W.pr
        TY = {"state": "cw_ica_controller::types::state::ContractState", "channel": "cw_ica_controller::types::state::ChannelState",
              "options": "ChannelOpenInitOptions"}
        boolv = lambda b: self.leafdec("bool", b)
        qv = lambda b: self.leafdec("std::vec::Vec<(std::string::String, bool)>", b)
        for n, k in RECORDS.items():
            self.record(n, k, TY.get(n) or (qv if n == "query" else boolv))
        # filed queries
        key = lambda e: map_key(FILED.encode(), e["ch"], app("be64", (e["n"],), STR))
        pre = lambda e: [z3.Length(e["ch"]) <= 65535]
        self.record("filed", key, qv, pre, ("s", "ch", "n", "v"))
        # ownership and version
        self.record("owner", b"ownership", "cw_ownable::Ownership<cosmwasm_std::Addr>", ops=("load",))
        self.record("version", b"contract_info", "cw2::ContractVersion", ops=("load",))

        def version(e, o, st, log):
            self.one(st, log, "set", sbytes(b"contract_info"))
            pr.match(st, log[0][2], Enc("json", "ContractVersion", S({"contract": e["name"], "version": e["version"]})), "stored bytes")
        self.op("st_version_save", "writes exactly the record's own key", None, version)

        def owner(e, o, st, log):
            if o.kind != "ok":
                return self.no("writes after a failure") if log else None
            self.one(st, log, "set", sbytes(b"ownership"))
            pr.match(st, log[0][2], Enc("json", "", o.v), "stored bytes")
        self.op("st_owner_init", "writes exactly the record's own key", None, owner)
        self.distinct(dict(RECORDS, ownership=b"ownership", version=b"contract_info"), {"filed query": (FILED.encode(), 2)})

    def leafdec(self, s, b):
        ty = next(i for i, t in enumerate(self.W.P.types) if t["s"] == s)
        return app(f"json_ok:{s}", (b,), BOOL), self.W.I.leaf(ty, f"json_dec:{s}", (b,))

    def distinct(self, keys, maps):
        """no two records share a key; maps: name -> (namespace, 1: number, 2: text and number, 0: text)"""
        pr = self.W.pr
        from interp import State
        for a in keys:
            for b in keys:
                if a < b:
                    self.ob(f"keys: {a} and {b} differ", None, lambda: None if keys[a] != keys[b] else self.no("equal keys"), "keys")

        def key(m, i):
            ns, k = maps[m]
            c, n = z3.Const(f"ch{i}", STR), z3.Int(f"n{i}")
            b = app("be64", (n,), STR)
            # be64: eight bytes, injective (assumed of the standard library)
            facts = [z3.Length(c) <= 65535, z3.Length(b) == 8]
            return (map_key(ns, *([c] if k in (0, 2) else []), *([b] if k else [])), [c] * (k != 1) + [n] * (k != 0), facts)

        def state(*cs):
            st = State()
            for c in cs:
                st.assume(c)
            return st
        for m in maps:
            k1, x1, f1 = key(m, 1)
            k2, x2, f2 = key(m, 2)
            for a, k in keys.items():
                self.ob(f"keys: {a} and {m} differ", None, lambda: pr.prove(state(*f1), k1 != sbytes(k), "keys"), "keys")
            inj = z3.Implies(app("be64", (z3.Int("n1"),), STR) == app("be64", (z3.Int("n2"),), STR), z3.Int("n1") == z3.Int("n2"))
            self.ob(f"keys: {m} under another index differs", None,
                    lambda: pr.prove(state(*f1, *f2, inj, k1 == k2), And(*[a == b for a, b in zip(x1, x2)]), "keys"), "keys")
            for m2 in maps:
                if m < m2:
                    k3, _, f3 = key(m2, 2)
                    self.ob(f"keys: {m} and {m2} differ", None, lambda: pr.prove(state(*f1, *f3), k1 != k3, "keys"), "keys")

    def raw_world(self, d):
        """a checker over that extraction in which the store is bytes under bytes"""
        from spec import World
        w = World(d, cvc5=self.sub_opts["cvc5"], engine_contracts=raw_hooks())
        w.I.deadline = self.W.I.deadline
        c = type(self)(w)
        c.obs_prefix, c.obs = self.obs_prefix, self.obs
        self.worlds.append(w)
        return c

    def owner_store(self):
        """the records of the owner contract"""
        u = lambda b: self.leafdec("u64", b)
        self.record("admin", b"state", "cw_ica_owner::state::ContractState")
        self.record("count", b"ica_count", u)
        self.record("ica", lambda e: map_key(b"ica_states", app("be64", (e["n"],), STR)), "IcaContractState")
        self.record("id", lambda e: map_key(b"contract_addr_to_ica_id", self.W.s(e["a"])), u)
        self.distinct({"admin": b"state", "count": b"ica_count"}, {"controllers": (b"ica_states", 1), "ids": (b"contract_addr_to_ica_id", 0)})

    def counter_store(self):
        self.record("counter", b"callback_counter", "callback_counter::state::CallbackCounter")

    def C33(self):
        import os
        d = self.dump[:-5] + "-store.json"
        if not os.path.exists(d):
            raise Lost("the storage operations do not build")
        self.raw_world(d).store()
