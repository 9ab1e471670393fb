"""The contracts of the repository that use the library: the owner contract (cw-ica-owner) and the callback counter."""
import z3
from values import *
from interp import simp
from patterns import *
from prover import Fail, Lost
from specs import *
from codec import *
from codecspec import case, nullable, record, opt, d_options, d_callback, d_channel, d_encoding
from libspec import leaf_app

T = z3.BoolVal(True)


class Examples:
    """mixin of Props"""

    def example(self, tag, items, maps, keys):
        c = self.build(tag)
        c.ep_prefix = {"owner": "ow_", "counter": "cc_"}[tag]
        c.items, c.maps, c.keys = items, maps, keys
        c.W.probe = (c.ep_prefix + "instantiate", c.ep_prefix + "execute")
        c.W.probe_map = (c.ep_prefix + "execute",)
        return c

    def sub(self, tag, fn):
        """obligations over another extraction; a missing extraction is an undecided obligation"""
        res = {}
        if self.ob(f"[{tag}] extraction", None, lambda: res.__setitem__("c", fn()), tag):
            return res["c"]

    def C30(self):
        c = self.sub("owner", lambda: self.example("owner", ["state", "ica_count"], ["ica_states", "contract_addr_to_ica_id"],
                                                   {"ica_states": (("id", INT),), "contract_addr_to_ica_id": (("addr", STR),)}))
        if c:
            c.owner_contract()
            c.sub_opts = self.sub_opts
            c.raw_world(self.dump[:-5] + "-owner.json").owner_store()
            self.worlds += c.worlds
        c = self.sub("ownercodec", lambda: self.build("ownercodec", True))
        if c:
            c.owner_documents()

    def C31(self):
        c = self.sub("counter", lambda: self.example("counter", ["callback_counter"], [], {}))
        if c:
            c.counter_contract()
            c.sub_opts = self.sub_opts
            c.raw_world(self.dump[:-5] + "-counter.json").counter_store()
            self.worlds += c.worlds

        def codec():
            c = self.build("countercodec", True)
            c.W.queries = c.W.staking = True
            return c
        c = self.sub("countercodec", codec)
        if c:
            c.counter_documents()

    # ------------------------------------------------------------------ the owner contract
    def owner_contract(self):
        W = self.W
        self.entry("instantiate", behs=self.ow_instantiate)
        self.entry("execute", behs=self.ow_execute, want=("msgs", "item", "map:ica_states"), total="env")
        self.entry("execute", behs=self.ow_execute, want=("map:contract_addr_to_ica_id",), only=lambda n: "create" not in n, accept=False, total=False, cover=False)
        self.entry("query", behs=self.ow_query, want=("value",))
        self.lemma("execute", "a created controller is filed under its predicted address", self.ow_filed)
        for en in ("instantiate", "execute"):
            self.lemma(en, "every known controller keeps its own id and record", self.ow_ids)

    def st_key(self):
        return self.W.pre("state")

    def ow_admin(self, e):
        W = self.W
        p, s = W.pre("state")
        return [p, W.s(W.F(s, "admin")) == W.s(W.F(e["info"], "sender"))]

    def ow_instantiate(self, e):
        from behaviours import B
        W, F = self.W, self.W.F
        m = e["msg"]
        a = F(m, "admin")
        rec = lambda adm: {"msgs": [], "item:state": ("set", S({"admin": adm, "ica_controller_code_id": F(m, "ica_controller_code_id")}))}
        return [B("given admin", [W.isv(a, "Some")], [W.addr_valid(W.some(a))], rec(W.some(a))),
                B("sender is admin", [W.isv(a, "None")], [], rec(W.s(F(e["info"], "sender"))))]

    def ow_next(self):
        p, n = self.W.pre("ica_count")
        return z3.If(p, n, z3.IntVal(0))

    def ow_execute(self, e):
        from behaviours import B
        W, F, isv = self.W, self.W.F, self.W.isv
        m = e["msg"]
        me = W.s(F(e["env"], "contract", "address"))
        sp, st = W.pre("state")
        cp, cn = W.pre("ica_count")
        n = self.ow_next()
        C, P, R = "CreateIcaContract::", "SendPredefinedAction::", "ReceiveIcaCallback::0"
        out = []
        # create
        secs = itoa(F(e["env"], "block", "time", "0", "0") / z3.IntVal(10**9))
        inst = lambda num: [W.submsg(V("Wasm", [V("Instantiate2", {
            "admin": Some(me), "code_id": F(st, "ica_controller_code_id"), "label": z3.Concat(sbytes("icacontroller-"), me, sbytes("-"), num), "funds": [],
            "msg": Enc("json", "InstantiateMsg", S({"owner": Some(me), "send_callbacks_to": Some(me),
                                                   "channel_open_init_options": F(m, C + "channel_open_init_options")})),
            "salt": W.opt_or(F(m, C + "salt"), secs)})]))]
        for nm, known, num in (("create", cp, itoa(cn)), ("create the first", Not(cp), sbytes("0"))):
            out.append(B(nm, [isv(m, C[:-2]), known], self.ow_admin(e), {
                "msgs": inst(num), "item:ica_count": ("set", n + 1),
                "map:ica_states": [((n,), ("set", S({"contract_addr": self.ow_predicted(e), "ica_state": NONE})))]}, inv=[n < U64]))
        # predefined action
        i = F(m, P + "ica_id")
        ip, rec = W.map_pre("ica_states", (i,))
        out.append(B("predefined action", [isv(m, P[:-2])], self.ow_admin(e) + [ip], {"msgs": [W.submsg(V("Wasm", [V("Execute", {
            "contract_addr": W.s(F(rec, "contract_addr")), "funds": [], "msg": Enc("json", "ExecuteMsg", V("SendCosmosMsgs", {
                "messages": [V("Bank", [V("Send", {"to_address": F(m, P + "to_address"), "amount": [S({"denom": "stake", "amount": 100})]})])],
                "packet_memo": NONE, "timeout_seconds": NONE}))})]))]}))
        # callback
        kp, kid = W.map_pre("contract_addr_to_ica_id", (W.s(F(e["info"], "sender")),))
        qp, qrec = W.map_pre("ica_states", (kid,))
        cb = F(m, R)
        O = "OnChannelOpenAckCallback"
        base = [isv(m, "ReceiveIcaCallback")]
        out.append(B("channel opened", base + [isv(cb, O)], [kp, qp], {"msgs": [], "map:ica_states": [((kid,), ("set", S({
            "contract_addr": F(qrec, "contract_addr"),
            "ica_state": Some(S({"ica_id": kid, "ica_addr": F(cb, O + "::ica_address"), "tx_encoding": F(cb, O + "::tx_encoding"),
                                 "channel_state": S({"channel": F(cb, O + "::channel"), "channel_status": V("Open")})}))})))]}))
        out.append(B("other callback", base + [Not(isv(cb, O))], [kp, qp], {"msgs": []}))
        return out

    def ow_query(self, e):
        from behaviours import B
        W, F, isv = self.W, self.W.F, self.W.isv
        m = e["msg"]
        sp, st = W.pre("state")
        cp, cn = W.pre("ica_count")
        ip, rec = W.map_pre("ica_states", (F(m, "GetIcaContractState::ica_id"),))
        return [B("state", [isv(m, "GetContractState")], [sp], {"value": Enc("json", "ContractState", st)}),
                B("controller", [isv(m, "GetIcaContractState")], [ip], {"value": Enc("json", "IcaContractState", rec)}),
                B("count", [isv(m, "GetIcaCount")], [cp], {"value": Enc("json", "u64", cn)})]

    def ow_predicted(self, e):
        """the platform's address for the code's checksum, this contract and the salt"""
        W, F = self.W, self.W.F
        salt = W.opt_or(F(e["msg"], "CreateIcaContract::salt"), itoa(F(e["env"], "block", "time", "0", "0") / z3.IntVal(10**9)))

        def addr(pr, st, v, path):
            t = v if is_term(v) else (v if isinstance(v, Sym) else W.s(v))
            h = leaf_app(t, "addr_human") or leaf_app(t, "addr_human.0")
            i = leaf_app(h[0], "instantiate2_address.0.0") if h else None
            if i is None:
                raise Lost(f"{path}: not recognisably the predicted address")
            sum_, creator, sl = i
            if not is_term(sum_) or sum_.decl().name() != "json_dec:cosmwasm_std::CodeInfoResponse.checksum.0":
                raise Lost(f"{path}: not recognisably the checksum of the code")
            q = leaf_app(sum_.arg(0), "chain_answer.Ok.0.Ok.0.0")
            if q is None:
                raise Lost(f"{path}: not recognisably an answer of the chain")
            pr.match(st, q[0], Enc("json", "", V("Wasm", [V("CodeInfo", {"code_id": F(W.pre("state")[1], "ica_controller_code_id")})])), path + "<code info>")
            if not is_term(creator) or creator.decl().name() != "addr_canonical.0.0":
                raise Lost(f"{path}: not recognisably the creator")
            pr.eq(st, creator.arg(0), W.s(F(e["env"], "contract", "address")), path + "<creator>")
            pr.match(st, sl, salt, path + "<salt>")
        return addr

    def ow_filed(self, e, o, st):
        W = self.W
        c = W.isv(e["msg"], "CreateIcaContract")
        if not W.I.feasible(st, simp(c)):
            return
        s = st.copy().assume(simp(c))
        n = self.ow_next()
        for s2, p, rec in self.lookups(o, s, "ica_states", (n,)):
            if W.pr.dead(s2):
                continue
            a = W.s(W.F(rec, "contract_addr"))
            self.map(o, s2, "contract_addr_to_ica_id", [((a,), ("set", n))])

    def ow_ids(self, e, o, st):
        """for an arbitrary address a: if before the call a is unknown or filed under an id below the counter whose record
        names a, then so it is afterwards"""
        W = self.W
        a = z3.Const("any!addr", STR)
        p0, i0 = W.map_pre("contract_addr_to_ica_id", (a,))
        q0, r0 = W.map_pre("ica_states", (i0,))
        cp, cn = W.pre("ica_count")
        inv = z3.Implies(p0, And(q0, W.s(W.F(r0, "contract_addr")) == a, cp, i0 < cn))
        s = st.copy().assume(simp(inv))
        c1p, c1 = W.post(o, "ica_count")
        for s1, p1, i1 in self.lookups(o, s, "contract_addr_to_ica_id", (a,)):
            s1 = s1.copy().assume(simp(p1))
            if W.pr.dead(s1):
                continue
            for s2, q1, r1 in self.lookups(o, s1, "ica_states", (i1,)):
                if W.pr.dead(s2):
                    continue
                W.pr.prove_all(s2, [q1, W.s(W.F(r1, "contract_addr")) == a, c1p, i1 < c1], "the id of a known controller")

    def owner_documents(self):
        t, n = self.text, self.nat
        D = {"ow_instantiate": d_ow_instantiate, "ow_execute": d_ow_execute, "ow_query": d_ow_query, "ow_state": d_ow_state, "ow_ica": d_ow_ica}
        for k, f in D.items():
            self.encodes(k, f, "its document is the documented one")
            self.roundtrip(k)
        self.rejects("ow_execute", "an unknown message is rejected", lambda W: self.doc(W, {"zz_unknown": {}}))
        self.rejects("ow_query", "an unknown query is rejected", lambda W: self.doc(W, {"zz_unknown": {}}))
        self.rejects("ow_instantiate", "a code id is required", lambda W: self.doc(W, {"admin": t("a")}))
        self.d_full_callback_of("ow_execute")

    def d_full_callback_of(self, name):
        """the callback of a controller with all features, wrapped as it is sent"""
        t = self.text

        def tree(W):
            self._pk = self.dep(W, "cosmwasm_std::IbcPacket", "doc!packet")
            self._rl = self.dep(W, "cosmwasm_std::Addr", "doc!relayer")
            return self.doc(W, {"receive_ica_callback": {"on_acknowledgement_packet_callback": {
                "ica_acknowledgement": {"error": t("e")}, "original_packet": self._pk[0], "relayer": self._rl[0], "query_result": {"error": t("e")}}}})
        want = lambda W: V("ReceiveIcaCallback", [V("OnAcknowledgementPacketCallback", dict({
            "ica_acknowledgement": V("Error", [t("e")]), "original_packet": self._pk[1], "relayer": self._rl[1]},
            **({"query_result": Some(V("Error", [t("e")]))} if W.queries else {})))])
        self.decodes(name, "a controller's callback is understood", tree, want)

    # ------------------------------------------------------------------ the callback counter
    def counter_contract(self):
        self.entry("instantiate", behs=lambda e: self.cc("instantiate", {"msgs": [], "item:callback_counter": ("set", S({"success": [], "error": [], "timeout": []}))}))
        self.entry("execute", behs=self.cc_execute)
        p = lambda: self.W.pre("callback_counter")
        self.entry("query", behs=lambda e: self.cc("counter", {"value": Enc("json", "CallbackCounter", p()[1])}, [p()[0]]), want=("value",))

    def cc(self, name, post, acc=()):
        from behaviours import B
        return [B(name, [], list(acc), post)]

    def cc_execute(self, e):
        from behaviours import B
        W, F, isv = self.W, self.W.F, self.W.isv
        cb = F(e["msg"], "ReceiveIcaCallback::0")
        p, c = W.pre("callback_counter")
        A, TO, O = "OnAcknowledgementPacketCallback", "OnTimeoutPacketCallback", "OnChannelOpenAckCallback"
        ack = F(cb, A + "::ica_acknowledgement")

        def grown(which):
            return {"msgs": [], "item:callback_counter": ("set", S({k: [Each(F(c, k), lambda x: x)] + ([cb] if k == which else [])
                                                                    for k in ("success", "error", "timeout")}))}
        return [B("success", [isv(cb, A), isv(ack, "Result")], [p], grown("success")),
                B("error", [isv(cb, A), isv(ack, "Error")], [p], grown("error")),
                B("timeout", [isv(cb, TO)], [p], grown("timeout")),
                B("channel opened", [isv(cb, O)], [], {"msgs": []})]

    def counter_documents(self):
        D = {"cc_instantiate": lambda W, x: jobj({}),
             "cc_execute": lambda W, x: case(W, x, [("ReceiveIcaCallback", jone("receive_ica_callback", d_callback(W, W.F(x, "ReceiveIcaCallback::0"))))]),
             "cc_query": lambda W, x: case(W, x, [("GetCallbackCounter", jone("get_callback_counter", jobj({})))]),
             "cc_counter": lambda W, x: jobj({k: jarr([Each(W.F(x, k), lambda c: d_callback(W, c))]) for k in ("success", "error", "timeout")})}
        for k, f in D.items():
            self.encodes(k, f, "its document is the documented one")
            self.roundtrip(k)
        self.rejects("cc_execute", "an unknown message is rejected", lambda W: self.doc(W, {"zz_unknown": {}}))
        self.d_full_callback_of("cc_execute")


def d_ow_instantiate(W, x):
    return jobj({"admin": nullable(W, W.F(x, "admin"), jstr), "ica_controller_code_id": jnum(W.F(x, "ica_controller_code_id"))})


def d_ow_execute(W, x):
    F = W.F
    C, P = "CreateIcaContract::", "SendPredefinedAction::"
    return case(W, x, [
        (C[:-2], jone("create_ica_contract", jobj({"salt": nullable(W, F(x, C + "salt"), jstr),
                                                   "channel_open_init_options": d_options(W, F(x, C + "channel_open_init_options"))}))),
        (P[:-2], jone("send_predefined_action", jobj({"ica_id": jnum(F(x, P + "ica_id")), "to_address": jstr(F(x, P + "to_address"))}))),
        ("ReceiveIcaCallback", jone("receive_ica_callback", d_callback(W, F(x, "ReceiveIcaCallback::0"))))])


def d_ow_query(W, x):
    return case(W, x, [("GetContractState", jone("get_contract_state", jobj({}))),
                       ("GetIcaContractState", jone("get_ica_contract_state", jobj({"ica_id": jnum(W.F(x, "GetIcaContractState::ica_id"))}))),
                       ("GetIcaCount", jone("get_ica_count", jobj({})))])


def d_ow_state(W, x):
    return jobj({"admin": jdep(W.F(x, "admin")), "ica_controller_code_id": jnum(W.F(x, "ica_controller_code_id"))})


def d_ow_ica(W, x):
    F = W.F
    st = lambda s: jobj({"ica_id": jnum(F(s, "ica_id")), "ica_addr": jstr(F(s, "ica_addr")), "tx_encoding": d_encoding(W, F(s, "tx_encoding")),
                         "channel_state": d_channel(W, F(s, "channel_state"))})
    return jobj({"contract_addr": jdep(F(x, "contract_addr")), "ica_state": nullable(W, F(x, "ica_state"), st)})
