"""What the documents of the crate's types look like, and the groups of encoding obligations the properties use."""
import itertools
import z3
from values import *
from codec import *
from patterns import *
from specs import And, Or, Not


def case(W, v, alts):
    """case distinction on the variant of v"""
    return Cases([(W.isv(v, n), p) for n, p in alts])


def nullable(W, v, f):
    return Cases([(W.isv(v, "None"), NULL), (W.isv(v, "Some"), f(W.some(v)))])


def record(W, always, optional=()):
    """an object: members that are always there, and members left out when their (Option) value is None
    (or, given a condition, when it does not hold): (name, condition, pattern)"""
    alts = []
    for bits in itertools.product((False, True), repeat=len(optional)):
        c = [cond if b else Not(cond) for b, (_, cond, _) in zip(bits, optional)]
        d = dict(always)
        d.update({n: p for b, (n, _, p) in zip(bits, optional) if b})
        alts.append((And(*c) if c else z3.BoolVal(True), jobj(d)))
    return alts[0][1] if not optional else Cases(alts)


def opt(W, name, v, f):
    return name, W.isv(v, "Some"), f(W.some(v))


# ------------------------------------------------------------------ documents
def d_encoding(W, x):
    return case(W, x, [("Protobuf", jstr("proto3")), ("Proto3Json", jstr("proto3json"))])


def d_metadata(W, x):
    F = W.F
    return jobj({"version": jstr(F(x, "version")), "controller_connection_id": jstr(F(x, "controller_connection_id")),
                 "host_connection_id": jstr(F(x, "host_connection_id")), "address": jstr(F(x, "address")),
                 "encoding": d_encoding(W, F(x, "encoding")), "tx_type": jstr(F(x, "tx_type"))})


def d_packet(W, x):
    return record(W, {"type": jnum(W.F(x, "type")), "data": jbytes(W.F(x, "data"))}, [opt(W, "memo", W.F(x, "memo"), jstr)])


def d_ack(W, x):
    return case(W, x, [("Result", jone("result", jdep(W.F(x, "Result::0")))), ("Error", jone("error", jstr(W.F(x, "Error::0"))))])


STATUS = [("Uninitialized", "STATE_UNINITIALIZED_UNSPECIFIED"), ("Init", "STATE_INIT"), ("TryOpen", "STATE_TRYOPEN"), ("Open", "STATE_OPEN"),
          ("Closed", "STATE_CLOSED"), ("Flushing", "STATE_FLUSHING"), ("FlushComplete", "STATE_FLUSHCOMPLETE")]


def d_status(W, x):
    return case(W, x, [(a, jstr(b)) for a, b in STATUS])


def d_channel(W, x):
    return jobj({"channel": jdep(W.F(x, "channel")), "channel_status": d_status(W, W.F(x, "channel_status"))})


def d_state(W, x):
    F = W.F
    info = lambda i: jobj({"ica_address": jstr(F(i, "ica_address")), "channel_id": jstr(F(i, "channel_id")), "encoding": d_encoding(W, F(i, "encoding"))})
    return jobj({"ica_info": nullable(W, F(x, "ica_info"), info), "callback_address": nullable(W, F(x, "callback_address"), jdep)})


def d_options(W, x):
    F = W.F
    return jobj({"connection_id": jstr(F(x, "connection_id")), "counterparty_connection_id": jstr(F(x, "counterparty_connection_id")),
                 "counterparty_port_id": nullable(W, F(x, "counterparty_port_id"), jstr),
                 "channel_ordering": nullable(W, F(x, "channel_ordering"), jdep)})


def d_instantiate(W, x):
    F = W.F
    return record(W, {"channel_open_init_options": d_options(W, F(x, "channel_open_init_options"))},
                  [opt(W, "owner", F(x, "owner"), jstr), opt(W, "send_callbacks_to", F(x, "send_callbacks_to"), jstr)])


def d_execute(W, x):
    F = W.F
    qs = F(x, "SendCosmosMsgs::queries") if W.queries else None
    return case(W, x, [
        ("CreateChannel", jone("create_channel", record(W, {}, [opt(W, "channel_open_init_options", F(x, "CreateChannel::channel_open_init_options"), lambda o: d_options(W, o))]))),
        ("CloseChannel", jone("close_channel", jobj({}))),
        ("SendCosmosMsgs", jone("send_cosmos_msgs", record(W, {"messages": jdep(F(x, "SendCosmosMsgs::messages"))}, [
            *([("queries", W.I.seq_len(qs) > 0, jdep(qs))] if W.queries else []),
            opt(W, "packet_memo", F(x, "SendCosmosMsgs::packet_memo"), jstr),
            opt(W, "timeout_seconds", F(x, "SendCosmosMsgs::timeout_seconds"), jnum)]))),
        ("UpdateCallbackAddress", jone("update_callback_address", jobj({"callback_address": nullable(W, F(x, "UpdateCallbackAddress::callback_address"), jstr)}))),
        ("UpdateOwnership", jone("update_ownership", jdep(F(x, "UpdateOwnership::0"))))])


def d_query(W, x):
    return case(W, x, [("GetChannel", jone("get_channel", jobj({}))), ("GetContractState", jone("get_contract_state", jobj({}))),
                       ("Ownership", jone("ownership", jobj({})))])


def d_delegation(W, x):
    return jobj({"delegator": jstr(W.F(x, "delegator")), "validator": jstr(W.F(x, "validator")), "amount": jdep(W.F(x, "amount"))})


def d_response(W, x):
    F = W.F
    b, w, s = F(x, "Bank::0"), F(x, "Wasm::0"), F(x, "Staking::0")
    dep = lambda v, alts: case(W, v, [(n, jone(k, jdep(F(v, n + "::0")))) for n, k in alts])
    return case(W, x, [
        ("Bank", jone("bank", dep(b, [("Supply", "supply"), ("Balance", "balance"), ("AllBalances", "all_balances"),
                                      ("DenomMetadata", "denom_metadata"), ("AllDenomMetadata", "all_denom_metadata")]))),
        ("Stargate", jone("stargate", jobj({"data": jdep(F(x, "Stargate::data")), "path": jstr(F(x, "Stargate::path"))}))),
        ("Wasm", jone("wasm", case(W, w, [
            ("ContractInfo", jone("contract_info", nullable(W, F(w, "ContractInfo::0"), jdep))),
            ("CodeInfo", jone("code_info", nullable(W, F(w, "CodeInfo::0"), jdep))),
            ("RawContractState", jone("raw_contract_state", nullable(W, F(w, "RawContractState::0"), jdep))),
            ("SmartContractState", jone("smart_contract_state", jdep(F(w, "SmartContractState::0"))))]))),
        ("Staking", jone("staking", case(W, s, [
            ("BondedDenom", jone("bonded_denom", jdep(F(s, "BondedDenom::0")))),
            ("AllDelegations", jone("all_delegations", jobj({"delegations": jarr([Each(F(s, "AllDelegations::0", "delegations"), lambda d: d_delegation(W, d))])}))),
            ("Delegation", jone("delegation", jobj({"delegation": nullable(W, F(s, "Delegation::0", "delegation"), lambda d: d_delegation(W, d))}))),
            ("AllValidators", jone("all_validators", jdep(F(s, "AllValidators::0")))),
            ("Validator", jone("validator", jdep(F(s, "Validator::0"))))])))])


def d_result(W, x):
    F = W.F
    return case(W, x, [
        ("Success", jone("success", jobj({"height": jnum(F(x, "Success::height")),
                                          "responses": jarr([Each(F(x, "Success::responses"), lambda r: d_response(W, r))])}))),
        ("Error", jone("error", jstr(F(x, "Error::0"))))])


def d_callback(W, x):
    F = W.F
    A, T, O = "OnAcknowledgementPacketCallback::", "OnTimeoutPacketCallback::", "OnChannelOpenAckCallback::"
    return case(W, x, [
        (A[:-2], jone("on_acknowledgement_packet_callback", record(W, {
            "ica_acknowledgement": d_ack(W, F(x, A + "ica_acknowledgement")), "original_packet": jdep(F(x, A + "original_packet")),
            "relayer": jdep(F(x, A + "relayer"))}, 
            [opt(W, "query_result", F(x, A + "query_result"), lambda r: d_result(W, r))] if W.queries else []))),
        (T[:-2], jone("on_timeout_packet_callback", jobj({"original_packet": jdep(F(x, T + "original_packet")), "relayer": jdep(F(x, T + "relayer"))}))),
        (O[:-2], jone("on_channel_open_ack_callback", jobj({"channel": jdep(F(x, O + "channel")), "ica_address": jstr(F(x, O + "ica_address")),
                                                            "tx_encoding": d_encoding(W, F(x, O + "tx_encoding"))})))])


def d_pending(W, x):
    return jarr([Each(x, lambda p: jarr([jstr(W.I.field(p, 0)), jbool(W.I.field(p, 1))]))])


DOCS = {n: globals()["d_" + n] for n in ("encoding", "metadata", "packet", "ack", "status", "channel", "state", "options", "instantiate",
                                         "execute", "query", "response", "result", "callback", "pending")}


class CodecSpecs(Codec):
    CW = None
    _done = None

    def doc_of(self, *names):
        for n in names:
            if self.once(("doc", n)):
                self.encodes(n, DOCS[n], "its document is the documented one")

    def back(self, *names):
        for n in names:
            if self.once(("rt", n)):
                self.roundtrip(n)

    def once(self, k):
        self._done = self._done or set()
        if k in self._done:
            return False
        self._done.add(k)
        return True

    # ------------------------------------------------------------------ groups
    def g_pb(self):
        if self.once("pb"):
            self.pb_layout("safe", {1: ("signer", "string"), 2: ("requests", "message*")})
            self.pb_layout("request", {1: ("path", "string"), 2: ("data", "bytes")})

    def g_pb_response(self):
        if self.once("pb_response"):
            self.pb_layout("safe_response", {1: ("height", "uint64"), 2: ("responses", "bytes*")})

    def g_packet(self):
        self.doc_of("packet")

    def g_metadata(self):
        self.doc_of("metadata", "encoding")
        self.back("metadata", "encoding")
        if self.once("metadata"):
            self.d_metadata_decode()

    def g_ack(self):
        self.doc_of("ack")
        self.back("ack")
        if self.once("ack"):
            self.d_ack_decode()

    def g_callback(self):
        self.doc_of("callback", "ack", "encoding")
        if self.once("wrapped"):
            self.wrapped_callback()

    def g_result(self):
        self.doc_of("result", "response")

    def g_records(self, *names):
        self.doc_of(*names)
        self.back(*names)

    def rejects(self, name, title, tree):
        self.decodes(name, title, tree, None)

    def text(self, n):
        return z3.Const("doc!" + n, STR)

    def nat(self, n):
        return z3.Const("doc!" + n, INT)

    def d_metadata_decode(self):
        t = self.text
        names = ["version", "controller_connection_id", "host_connection_id", "address", "tx_type"]
        for text, var in (("proto3", "Protobuf"), ("proto3json", "Proto3Json")):
            self.decodes("metadata", f"the documented document decodes ({text})",
                         lambda W: self.doc(W, dict({n: t(n) for n in names}, encoding=text)),
                         lambda W: S(dict({n: t(n) for n in names}, encoding=V(var))))
        base = lambda W: dict({n: t(n) for n in names}, encoding="proto3")
        for r in names + ["encoding"]:
            self.rejects("metadata", f"without {r} it is rejected", lambda W: self.doc(W, {k: v for k, v in base(W).items() if k != r}))
        self.rejects("metadata", "another encoding is rejected", lambda W: self.doc(W, dict(base(W), encoding="proto2")))

    def d_ack_decode(self):
        t = self.text
        self.decodes("ack", "an error acknowledgement decodes", lambda W: self.doc(W, {"error": t("e")}), lambda W: V("Error", [t("e")]))

        def res(W):
            self._ackdep = self.dep(W, "cosmwasm_std::Binary", "doc!ack")
            return self.doc(W, {"result": self._ackdep[0]})
        self.decodes("ack", "a success acknowledgement decodes", res, lambda W: V("Result", [self._ackdep[1]]))
        self.rejects("ack", "an acknowledgement of neither kind is rejected", lambda W: self.doc(W, {"ok": t("e")}))

    def d_execute_decode(self):
        t, n = self.text, self.nat
        send = lambda W, **kw: self.doc(W, {"send_cosmos_msgs": kw})
        want = lambda msgs, q, memo, to: (lambda W: V("SendCosmosMsgs", {"messages": msgs, "queries": q, "packet_memo": memo, "timeout_seconds": to}))
        if not self.cworld().queries:
            want = lambda msgs, q, memo, to: (lambda W: V("SendCosmosMsgs", {"messages": msgs, "packet_memo": memo, "timeout_seconds": to}))
        self.decodes("execute", "messages null means none, further members default", lambda W: send(W, messages=None), want([], [], NONE, NONE))
        self.decodes("execute", "queries null means none", lambda W: send(W, messages=None, queries=None, packet_memo=None, timeout_seconds=None),
                     want([], [], NONE, NONE))
        self.decodes("execute", "memo and timeout are read", lambda W: send(W, messages=None, packet_memo=t("memo"), timeout_seconds=n("timeout")),
                     want([], [], Some(t("memo")), Some(n("timeout"))))
        self.decodes("execute", "create_channel without options", lambda W: self.doc(W, {"create_channel": {}}),
                     lambda W: V("CreateChannel", {"channel_open_init_options": NONE}))
        self.decodes("execute", "create_channel with null options", lambda W: self.doc(W, {"create_channel": {"channel_open_init_options": None}}),
                     lambda W: V("CreateChannel", {"channel_open_init_options": NONE}))
        self.decodes("execute", "create_channel with options",
                     lambda W: self.doc(W, {"create_channel": {"channel_open_init_options": {"connection_id": t("c"), "counterparty_connection_id": t("d")}}}),
                     lambda W: V("CreateChannel", {"channel_open_init_options": Some(S({
                         "connection_id": t("c"), "counterparty_connection_id": t("d"), "counterparty_port_id": NONE, "channel_ordering": NONE}))}))
        self.decodes("execute", "close_channel", lambda W: self.doc(W, {"close_channel": {}}), lambda W: V("CloseChannel"))
        self.decodes("execute", "update_callback_address", lambda W: self.doc(W, {"update_callback_address": {"callback_address": t("a")}}),
                     lambda W: V("UpdateCallbackAddress", {"callback_address": Some(t("a"))}))
        self.decodes("execute", "update_callback_address without an address", lambda W: self.doc(W, {"update_callback_address": {}}),
                     lambda W: V("UpdateCallbackAddress", {"callback_address": NONE}))
        self.rejects("execute", "send_cosmos_msgs without messages is rejected", lambda W: send(W, packet_memo=t("memo")))
        self.rejects("execute", "an unknown message is rejected", lambda W: self.doc(W, {"zz_unknown": {}}))

    def d_instantiate_decode(self):
        t = self.text
        o = {"connection_id": t("c"), "counterparty_connection_id": t("d")}
        ow = S({"connection_id": t("c"), "counterparty_connection_id": t("d"), "counterparty_port_id": NONE, "channel_ordering": NONE})
        self.decodes("instantiate", "owner and callback are optional", lambda W: self.doc(W, {"channel_open_init_options": o}),
                     lambda W: S({"owner": NONE, "send_callbacks_to": NONE, "channel_open_init_options": ow}))
        self.decodes("instantiate", "owner and callback are read",
                     lambda W: self.doc(W, {"owner": t("o"), "send_callbacks_to": t("s"), "channel_open_init_options": dict(o, counterparty_port_id=t("p"), channel_ordering=None)}),
                     lambda W: S({"owner": Some(t("o")), "send_callbacks_to": Some(t("s")), "channel_open_init_options": S({
                         "connection_id": t("c"), "counterparty_connection_id": t("d"), "counterparty_port_id": Some(t("p")), "channel_ordering": NONE})}))
        self.rejects("instantiate", "options are required", lambda W: self.doc(W, {"owner": t("o")}))
        for r in o:
            self.rejects("options", f"without {r} they are rejected", lambda W: self.doc(W, {k: v for k, v in o.items() if k != r}))

    def d_query_decode(self):
        for k, v in (("get_channel", "GetChannel"), ("get_contract_state", "GetContractState"), ("ownership", "Ownership")):
            self.decodes("query", k, lambda W: self.doc(W, {k: {}}), lambda W: V(v))
        self.rejects("query", "an unknown query is rejected", lambda W: self.doc(W, {"zz_unknown": {}}))

    def d_state_decode(self):
        self.decodes("state", "a record without members decodes to an empty state", lambda W: self.doc(W, {}),
                     lambda W: S({"ica_info": NONE, "callback_address": NONE}))
        t = self.text
        self.decodes("state", "members of another version are ignored", lambda W: self.doc(W, {
            "ica_info": {"ica_address": t("a"), "channel_id": t("c"), "encoding": "proto3"}, "zz_unknown": None}),
            lambda W: S({"ica_info": Some(S({"ica_address": t("a"), "channel_id": t("c"), "encoding": V("Protobuf")})), "callback_address": NONE}))

    def d_full_callback(self):
        """a callback of a controller with queries, read by a contract without them: the query result is passed over"""
        t = self.text

        def tree(W):
            self._pk = self.dep(W, "cosmwasm_std::IbcPacket", "doc!packet")
            self._rl = self.dep(W, "cosmwasm_std::Addr", "doc!relayer")
            return self.doc(W, {"on_acknowledgement_packet_callback": {
                "ica_acknowledgement": {"error": t("e")}, "original_packet": self._pk[0], "relayer": self._rl[0], "query_result": {"error": t("e")}}})
        self.decodes("callback", "a query result is passed over", tree, lambda W: V("OnAcknowledgementPacketCallback", {
            "ica_acknowledgement": V("Error", [t("e")]), "original_packet": self._pk[1], "relayer": self._rl[1]}))
