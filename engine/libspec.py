"""Contracts of the library functions other contracts build on: the helpers that wrap a deployed controller, and the
building blocks for packets, metadata, acknowledgements and callbacks."""
import z3
from values import *
from patterns import *
from prover import Fail, Lost
from specs import *


def leaf_app(v, name):
    """arguments of a value that is an application of an uninterpreted function of the environment"""
    if isinstance(v, Sym) and v.fn == name:
        return list(v.args)
    if is_term(v) and v.decl().name() == name:
        return v.children()
    return None


def answered(W, tyname, request):
    """pattern: what the chain answered to that query, decoded as tyname"""
    def m(pr, st, v, path):
        a = leaf_app(v, "json_dec:" + tyname)
        q = leaf_app(a[0], "chain_answer.Ok.0.Ok.0.0") if a else None
        if q is None:
            raise Lost(f"{path}: not recognisably an answer of the chain")
        pr.match(st, q[0], Enc("json", "", request), path + "<query>")
    return m


class LibBehaviours:
    """mixin of World"""

    def always(self, name, value, acc=()):
        from behaviours import B
        return [B(name, [], list(acc), {"value": value})]

    def wasm(self, variant, fields):
        return V("Wasm", [V(variant, fields)])

    # ------------------------------------------------------------------ helpers
    def bh_h_execute(self, e):
        return self.always("execute", self.wasm("Execute", {"contract_addr": self.s(self.F(e["c"], "0")), "msg": Enc("json", "ExecuteMsg", e["m"]), "funds": []}))

    def bh_h_update_admin(self, e):
        return self.always("update admin", self.wasm("UpdateAdmin", {"contract_addr": self.s(self.F(e["c"], "0")), "admin": e["a"]}))

    def bh_h_clear_admin(self, e):
        return self.always("clear admin", self.wasm("ClearAdmin", {"contract_addr": self.s(self.F(e["c"], "0"))}))

    def bh_h_migrate(self, e):
        return self.always("migrate", self.wasm("Migrate", {"contract_addr": self.s(self.F(e["c"], "0")), "new_code_id": e["id"], "msg": Enc("json", "MigrateMsg", e["m"])}))

    def bh_h_addr(self, e):
        return self.always("address", self.s(self.F(e["c"], "0")))

    def bh_h_code_id(self, e):
        return self.always("code id", self.F(e["c"], "0"))

    def inst_fields(self, e):
        return {"code_id": self.F(e["c"], "0"), "msg": Enc("json", "InstantiateMsg", e["m"]), "funds": [], "label": e["label"], "admin": self.opt(e["admin"])}

    def bh_h_instantiate(self, e):
        return self.always("instantiate", self.wasm("Instantiate", self.inst_fields(e)))

    def bh_h_instantiate2(self, e):
        W = self

        def addr(pr, st, v, path):
            h = leaf_app(v, "addr_human")
            i = leaf_app(h[0], "instantiate2_address.0.0") if h else None
            if i is None:
                raise Lost(f"{path}: not recognisably the predicted address")
            sum_, creator, salt = i
            if not is_term(sum_) or sum_.decl().name() != "json_dec:cosmwasm_std::CodeInfoResponse.checksum.0":
                raise Lost(f"{path}: not recognisably the checksum of the code")
            q = leaf_app(sum_.arg(0), "chain_answer.Ok.0.Ok.0.0")
            if q is None:
                raise Lost(f"{path}: not recognisably an answer of the chain")
            pr.match(st, q[0], Enc("json", "", V("Wasm", [V("CodeInfo", {"code_id": W.F(e["c"], "0")})])), path + "<code info>")
            if not is_term(creator) or creator.decl().name() != "addr_canonical.0.0":
                raise Lost(f"{path}: not recognisably the creator")
            pr.eq(st, creator.arg(0), W.s(W.F(e["env"], "contract", "address")), path + "<creator>")
            pr.eq(st, salt, e["salt"], path + "<salt>")
        return self.always("instantiate2", S({"0": self.wasm("Instantiate2", dict(self.inst_fields(e), salt=e["salt"])), "1": addr}))

    def smart(self, e, variant):
        return V("Wasm", [V("Smart", {"contract_addr": self.s(self.F(e["c"], "0")), "msg": Enc("json", "QueryMsg", V(variant))})])

    def bh_q_channel(self, e):
        return self.always("channel", answered(self, "cw_ica_controller::types::state::ChannelState", self.smart(e, "GetChannel")))

    def bh_q_state(self, e):
        return self.always("contract state", answered(self, "cw_ica_controller::types::state::ContractState", self.smart(e, "GetContractState")))

    def bh_q_ownership(self, e):
        return self.always("ownership", answered(self, "cw_ownable::Ownership<std::string::String>", self.smart(e, "Ownership")))

    # ------------------------------------------------------------------ building blocks
    def pdata(self, data, memo):
        return S({"type": 1, "data": data, "memo": memo})

    def bh_packet_new(self, e):
        return self.always("packet", self.pdata(e["data"], e["memo"]))

    def bh_packet_anys(self, e):
        return self.always("packet", self.pdata(Enc("prost", "v1::CosmosTx", S({"messages": e["a"]})), e["memo"]))

    def bh_packet_msgs(self, e):
        from behaviours import B
        ica, msgs, qs = e["ica"], e["m"], e.args.get("q")
        nq = self.I.seq_len(qs) if qs is not None else z3.IntVal(0)
        base = [self.isv(e["e"], "Protobuf"), self.forall(msgs, lambda x: [self.convert_ok(x, ica)])]
        anys = [Each(msgs, lambda x: self.convert_pat(x, ica))]
        pk = lambda ms: self.pdata(Enc("prost", "v1::CosmosTx", S({"messages": ms})), e["memo"])
        if qs is None:
            return [B("messages", [], base, {"value": pk(anys)})]
        return [B("messages only", [nq == 0], base, {"value": pk(anys)}),
                B("with queries", [nq > 0], base + [self.forall(qs, lambda q: [self.query_ok(q)])], {
                    "value": pk(anys + [self.query_any(qs, ica)]), "item:pending_query": ("set", self.paths_pat(qs))})]

    def query_any(self, qs, ica):
        return S({"type_url": "/ibc.applications.interchain_accounts.host.v1.MsgModuleQuerySafe",
                  "value": Enc("prost", "MsgModuleQuerySafe", S({"signer": ica, "requests": [
                      Each(qs, lambda q: self.query_pat(q, lambda p, d, s: S({"path": p, "data": d})))]}))})

    def paths_pat(self, qs):
        return [Each(qs, lambda q: self.query_pat(q, lambda p, d, s: S({"0": p, "1": s})))]

    def bh_packet_send(self, e):
        now = self.F(e["env"], "block", "time", "0", "0")
        secs = z3.If(self.isv(e["t"], "Some"), self.some(e["t"]), z3.IntVal(600))
        return self.always("send", V("SendPacket", {"channel_id": e["ch"], "data": Enc("json", "IcaPacketData", e["p"]),
                                                    "timeout": S({"block": NONE, "timestamp": Some(now + secs * 10**9)})}), [now + secs * 10**9 <= U64])

    def bh_ack_data(self, e):
        ok, tx = self.dec("prost", "v1beta1::TxMsgData", self.s(self.F(e["d"], "Result::0")))
        return self.always("transaction data", tx, [self.isv(e["d"], "Result"), ok])

    def bh_ack_at(self, e):
        ok, tx = self.dec("prost", "v1beta1::TxMsgData", self.s(self.F(e["d"], "Result::0")))
        rs = self.F(tx, "msg_responses")
        x = self.I.seg_elem(rs.segs[0], e["i"])
        ok2, r = self.dec("prost", "MsgModuleQuerySafeResponse", self.F(x, "value"))
        return self.always("response at an index", r, [self.isv(e["d"], "Result"), ok, e["i"] < self.I.seq_len(rs), ok2])

    def bh_open_msg(self, e):
        enc = Cases([(self.isv(e["enc"], "None"), V("Protobuf")), (self.isv(e["enc"], "Some"), self.some(e["enc"]))])
        return self.always("channel opening", self.open_init_msg(e["addr"], e["conn"], e["cp"], e["port"], e["ord"], enc))

    def bh_callback(self, e):
        return self.always("callback", self.wasm("Execute", {"contract_addr": e["a"], "funds": [],
                                                             "msg": Enc("json", "ReceiverExecuteMsg", V("ReceiveIcaCallback", [e["m"]]))}))

    def bh_port(self, e):
        return self.always("port", self.opt_or(self.F(e["o"], "counterparty_port_id"), HOST_PORT))

    def bh_validate(self, e):
        from behaviours import B
        a = self.F(e["m"], "address")
        return [B("validate", [], self.metadata_valid(e["m"], e["c"]), {})]

    def bh_from_channel(self, e):
        from behaviours import B
        F = self.F
        pc, cst = self.pre("ica_channel")
        po, opt = self.pre("channel_open_init_options")
        ok, md = self.dec("json", "IcaMetadata", F(cst, "channel", "version"))
        have = And(pc, ok)
        return [B("previous channel", [have], [], {"value": md}),
                B("stored options", [Not(have)], [po, F(opt, "connection_id") == F(e["c"], "connection_id")],
                  {"value": self.fresh_metadata(F(opt, "connection_id"), F(opt, "counterparty_connection_id"))})]

    def bh_result(self, e):
        return self.always("query result", self.query_result_pat(e["paths"], e["resp"]))
