"""The properties, as obligations over the contracts of the entry points and library functions."""
import z3
from values import *
from interp import simp, mk_not
from patterns import *
from prover import Forall, Fail, Lost, skolem, short
from specs import *
from spec import ITEMS, MAPS
from verify import Checker
from codecspec import CodecSpecs
from example import Examples
from storespec import StoreSpecs

T = z3.BoolVal(True)
ALL = ["instantiate", "execute", "reply", "query", "migrate", "ibc_channel_open", "ibc_channel_connect", "ibc_channel_close",
       "ibc_packet_ack", "ibc_packet_timeout", "ibc_packet_receive"]
STATEFUL = [e for e in ALL if e not in ("query", "ibc_packet_receive")]
CONVERT, QUERY, RESPONSE = "rt_convert", "rt_query", "rt_response"


class Props(Checker, CodecSpecs, Examples, StoreSpecs):
    # ------------------------------------------------------------------ building blocks
    def lemma(self, entry, title, fn, kinds=("ok",)):
        """fn(e, o, st) must hold on every outcome of the entry"""
        W = self.W
        res = {}
        if not self.ob(f"{entry}: symbolic execution", None, lambda: res.__setitem__("e", W.ep(self.ep_prefix + entry)), entry):
            return
        e = res["e"]
        n = 0
        for o in e.outs:
            if o.kind in kinds:
                n += 1
                self.ob(f"{entry}#{o.n}: {title}", o.st, lambda: fn(e, o, o.st), entry)
        return n

    def keep(self, entries, items, maps=(), when=None):
        """the items are unchanged by every accepted call of the entries (when: condition under which)"""
        for en in entries:
            for ns in items:
                def f(e, o, st):
                    s = st
                    if when is not None:
                        c = when(en, e)
                        if c is not None:
                            if not self.W.I.feasible(s, simp(c)):
                                return
                            s = s.copy().assume(simp(c))
                    self.item(o, s, ns, None)
                self.lemma(en, f"{ns} unchanged", f)
            for ns in maps:
                self.lemma(en, f"{ns} unchanged", lambda e, o, st: self.map(o, st, ns, None))

    def holds(self, entry, title, cond):
        """cond(e, o) is implied by every accepting path"""
        self.lemma(entry, title, lambda e, o, st: self.W.pr.prove_all(st, cond(e, o), title))

    def msgs_of(self, o, st):
        """emitted messages, as a list (the number must be fixed on the path)"""
        v = self.W.F(o.v, "messages")
        out = []
        for sg in self.W.pr.norm_segs(st, v):
            if not isinstance(sg, Lit):
                raise Lost("the number of messages is not fixed on the path")
            out += sg.vals
        return out

    # ------------------------------------------------------------------ C01
    def C01(self):
        W, F, isv = self.W, self.W.F, self.W.isv

        def owner(e, o):
            sender = F(e["info"], "sender")
            own = And(*W.owner_is(sender))
            m = e["msg"]
            a = F(m, "UpdateOwnership::0")
            accept = And(isv(m, "UpdateOwnership"), isv(a, "AcceptOwnership"))
            _, ow = W.pre("ownership")
            pend = F(ow, "pending_owner")
            return [Or(own, And(accept, W.pre("ownership")[0], isv(pend, "Some"), W.s(W.some(pend)) == W.s(sender)))]
        self.holds("execute", "the sender is the owner, or the pending owner accepting", owner)

    # ------------------------------------------------------------------ C02
    def C02(self):
        W, F, isv = self.W, self.W.F, self.W.isv
        self.entry("instantiate", want=("item:ownership",), accept=False, total=False)
        self.entry("execute", want=("item:ownership",), only=lambda n: n in ("TransferOwnership", "AcceptOwnership"))

        def renounce(e, o):
            m = e["msg"]
            return [Not(And(isv(m, "UpdateOwnership"), isv(F(m, "UpdateOwnership::0"), "RenounceOwnership")))]
        self.holds("execute", "ownership is never renounced", renounce)
        self.keep([e for e in STATEFUL if e != "instantiate"], ["ownership"],
                  when=lambda en, e: Not(isv(e["msg"], "UpdateOwnership")) if en == "execute" else None)

        def owned(e, o):
            p0, v0 = W.pre("ownership")
            p1, v1 = W.post(o, "ownership")
            return [z3.Implies(And(p0, isv(F(v0, "owner"), "Some")), And(p1, isv(F(v1, "owner"), "Some")))]
        for en in STATEFUL:
            self.holds(en, "the contract keeps having an owner", owned)

    # ------------------------------------------------------------------ C03 / C04
    def flag(self, ns, entry, variant, raised):
        """one-shot authorisation stored in item ns, consumed by `variant` of `entry`, raised only by raised(en, e)"""
        W, isv = self.W, self.W.isv

        def consumes(e, o, st):
            s = st
            if variant:
                c = isv(e["msg"], variant)
                if not W.I.feasible(st, c):
                    return
                s = st.copy().assume(simp(c))
            p0, v0 = W.pre(ns)
            W.pr.prove(s, And(p0, v0), "an authorisation is outstanding")
            p1, v1 = W.post(o, ns)
            W.pr.prove(s, Not(And(p1, v1)), "the authorisation is consumed")
        self.lemma(entry, "needs an authorisation and consumes it", consumes)
        for en in STATEFUL:
            def only(e, o):
                p0, v0 = W.pre(ns)
                p1, v1 = W.post(o, ns)
                r = raised(en, e)
                return [z3.Implies(And(p1, v1), Or(And(p0, v0), r))]
            self.holds(en, "authorises only where stated", only)
            # an outstanding authorisation survives everything else
            def stays(e, o, st):
                s = st
                if en == entry:
                    if not variant:
                        return
                    c = Not(isv(e["msg"], variant))
                    if not W.I.feasible(st, c):
                        return
                    s = st.copy().assume(simp(c))
                p0, v0 = W.pre(ns)
                p1, v1 = W.post(o, ns)
                if en != "instantiate":
                    W.pr.prove(s, z3.Implies(And(p0, v0), And(p1, v1)), "an outstanding authorisation stays")
            self.lemma(en, "an outstanding authorisation stays", stays)

    def C03(self):
        W, isv, F = self.W, self.W.isv, self.W.F

        def raised(en, e):
            if en == "instantiate":
                return T
            if en == "execute":
                return And(isv(e["msg"], "CreateChannel"), *W.owner_is(F(e["info"], "sender")))
            return z3.BoolVal(False)
        self.flag("allow_channel_open_init", "ibc_channel_open", None, raised)
        self.entry("instantiate", want=("item:allow_channel_open_init",), accept=False, total=False)
        self.entry("execute", want=("item:allow_channel_open_init",), accept=False, total=False, only=lambda n: n.startswith("CreateChannel"))

    def C04(self):
        W, isv, F = self.W, self.W.isv, self.W.F

        def raised(en, e):
            if en == "execute":
                return And(isv(e["msg"], "CloseChannel"), *W.owner_is(F(e["info"], "sender")))
            return z3.BoolVal(False)
        self.flag("allow_channel_close_init", "ibc_channel_close", "CloseInit", raised)
        self.entry("execute", want=("item:allow_channel_close_init", "msgs"), accept=True, only=lambda n: n == "CloseChannel")

    # ------------------------------------------------------------------ C05
    def C05(self):
        W, isv, F = self.W, self.W.isv, self.W.F
        for en in ("ibc_channel_open", "ibc_channel_connect"):
            self.holds(en, "no handshake step while a channel is open", lambda e, o: [Not(W.channel_open())])

        # while a channel is open, it and the ICA information stay what they are
        def same(e, o, st):
            c = W.channel_open()
            if not W.I.feasible(st, simp(c)):
                return
            s = st.copy().assume(simp(c))
            p1, v1 = W.post(o, "ica_channel")
            W.pr.prove(s, p1, "the channel stays stored")
            W.pr.eq(s, F(v1, "channel"), F(W.pre("ica_channel")[1], "channel"), "ica_channel.channel")
            p0, v0 = W.pre("state")
            q1, w1 = W.post(o, "state")
            s2 = s.copy().assume(p0)
            W.pr.prove(s2, q1, "the contract state stays stored")
            W.pr.eq(s2, F(w1, "ica_info"), F(v0, "ica_info"), "state.ica_info")
        for en in STATEFUL:
            if en != "instantiate":
                self.lemma(en, "an open channel is not replaced", same)

    # ------------------------------------------------------------------ C06
    def C06(self):
        self.entry("ibc_channel_open", want=("value",))
        self.entry("ibc_channel_connect", want=())
        self.g_metadata()

    # ------------------------------------------------------------------ C07
    def C07(self):
        W, isv, F = self.W, self.W.isv, self.W.F
        self.entry("ibc_channel_connect", want=("item:state", "item:ica_channel"), accept=False, total=False)

        # ica_info and the recorded channel change nowhere else
        def info(e, o, st):
            p0, v0 = W.pre("state")
            p1, v1 = W.post(o, "state")
            s = st.copy().assume(p0)
            if not W.pr.sat(s):
                return
            W.pr.prove(s, p1, "the contract state stays stored")
            W.pr.eq(s, F(v1, "ica_info"), F(v0, "ica_info"), "state.ica_info")
        for en in STATEFUL:
            if en not in ("instantiate", "ibc_channel_connect"):
                self.lemma(en, "the ICA information is unchanged", info)
        self.g_metadata()
        self.g_records("state", "channel")

    # ------------------------------------------------------------------ C08
    def C08(self):
        W, isv, F = self.W, self.W.isv, self.W.F
        self.entry("ibc_channel_close", want=("item:ica_channel",))
        self.entry("ibc_packet_timeout", want=("item:ica_channel",), accept=False, total=False)
        self.keep(["execute", "reply", "migrate", "ibc_channel_open", "ibc_packet_ack"], ["ica_channel"])

        def opened(e, o):
            p1, v1 = W.post(o, "ica_channel")
            return [p1, isv(F(v1, "channel_status"), "Open")]
        self.holds("ibc_channel_connect", "a completed handshake opens the channel", opened)
        self.g_records("channel", "status")

    # ------------------------------------------------------------------ C09
    def C09(self):
        W, isv, F = self.W, self.W.isv, self.W.F
        self.entry("instantiate", want=("msgs", "item:channel_open_init_options"), accept=False, total=False)
        self.entry("execute", want=("msgs", "item:channel_open_init_options"), total=True, accept=False, only=lambda n: n.startswith("CreateChannel"))
        self.keep([e for e in STATEFUL if e != "instantiate"], ["channel_open_init_options"],
                  when=lambda en, e: Not(isv(e["msg"], "CreateChannel")) if en == "execute" else None)
        self.g_records("options")
        self.g_metadata()

    # ------------------------------------------------------------------ C10
    def C10(self):
        self.entry("execute", want=("msgs",), only=lambda n: n.startswith("SendCosmosMsgs"))
        self.g_packet()
        self.g_pb()

    def C11(self):
        self.function(CONVERT, ["m", "signer"], self.W.bh_convert)

    def C12(self):
        self.function(QUERY, ["q"], self.W.bh_to_query)
        self.g_pb()

    # ------------------------------------------------------------------ C13
    def C13(self):
        self.entry("execute", want=("item:pending_query",), accept=False, total=False, only=lambda n: n.startswith("SendCosmosMsgs"))
        self.entry("reply", want=("item:pending_query", "map:pending_queries"))
        W, isv = self.W, self.W.isv
        self.keep([e for e in STATEFUL if e not in ("reply",)], ["pending_query"],
                  when=lambda en, e: Not(isv(e["msg"], "SendCosmosMsgs")) if en == "execute" else None)
        # a query packet asks for the reply that files its queries
        def asks(e, o, st):
            m = e["msg"]
            c = And(isv(m, "SendCosmosMsgs"), W.I.seq_len(W.F(m, "SendCosmosMsgs::queries")) > 0)
            if not W.I.feasible(st, simp(c)):
                return
            s = st.copy().assume(simp(c))
            ms = self.msgs_of(o, s)
            hits = [x for x in ms if z3.is_true(simp(W.F(x, "id") == 1))]
            if len(hits) != 1 or len(ms) != 1:
                raise Fail("a query packet is sent once, with the reply id", W.pr.model(s))
            W.pr.match(s, ms[0], S({"id": 1, "reply_on": V("Success")}, exact=False), "message")
        self.lemma("execute", "a query packet asks for the reply", asks)
        self.g_records("pending")

    # ------------------------------------------------------------------ C14
    def C14(self):
        self.entry("ibc_packet_ack", behs=lambda e: self.W.bh_ibc_packet_ack(e, parts=("query",)), want=("msgs",), accept=False, total=False)
        self.g_pb_response()
        self.g_result()

    def C15(self):
        self.function(RESPONSE, ["path", "data", "star"], self.W.bh_response)
        self.g_result()

    # ------------------------------------------------------------------ C16
    def C16(self):
        self.entry("ibc_packet_ack", want=("map:pending_queries",), accept=False, total=False)
        self.entry("ibc_packet_timeout", want=("map:pending_queries",), accept=False, total=False)
        self.keep([e for e in STATEFUL if e not in ("reply", "ibc_packet_ack", "ibc_packet_timeout")], [], ["pending_queries"])

    # ------------------------------------------------------------------ C17
    def C17(self):
        W = self.W
        self.entry("ibc_channel_connect", want=("msgs",), accept=False, total=False)
        self.entry("ibc_packet_ack", behs=lambda e: W.bh_ibc_packet_ack(e, parts=("callback",)), want=("msgs",), accept=True)
        self.entry("ibc_packet_timeout", want=("msgs",), accept=True)

        def nocb(e, o, st):
            v = W.F(o.v, "messages")
            for sg in W.pr.norm_segs(st, v):
                if not isinstance(sg, Lit):
                    raise Lost("a list of messages of unknown length")
                for x in sg.vals:
                    W.pr.prove(st, Not(W.isv(W.F(x, "msg"), "Wasm")), "no contract call")
        for en in ("instantiate", "execute", "reply", "migrate", "ibc_channel_close"):
            self.lemma(en, "no callback outside handshake completion, acknowledgement and timeout", nocb)
        self.g_ack()
        self.g_callback()

    def C18(self):
        self.entry("ibc_packet_ack", want=("events",), accept=False, total=False)

    def C19(self):
        self.entry("migrate", want=("item:contract_info",))
        self.entry("instantiate", want=("item:contract_info",), accept=False, total=False)
        self.keep([e for e in STATEFUL if e not in ("instantiate", "migrate")], ["contract_info"])
        self.keep(["migrate"], [i for i in ITEMS if i != "contract_info"], MAPS)

    # ------------------------------------------------------------------ C20
    def C20(self):
        W, isv, F = self.W, self.W.isv, self.W.F
        self.entry("execute", want=("item:state", "msgs"), only=lambda n: n == "UpdateCallbackAddress")
        self.holds("instantiate", "a callback address is validated", lambda e, o: [Or(
            isv(F(e["msg"], "send_callbacks_to"), "None"), W.addr_valid(W.some(F(e["msg"], "send_callbacks_to"))))])

        def inst(e, o, st):
            p, v = W.post(o, "state")
            W.pr.prove(st, p, "state is stored")
            W.pr.match(st, F(v, "callback_address"), W.opt(F(e["msg"], "send_callbacks_to")), "callback_address")
        self.lemma("instantiate", "the callback address is recorded", inst)

        def cb(en, e, o, st):
            if en == "execute":
                c = Not(isv(e["msg"], "UpdateCallbackAddress"))
                if not W.I.feasible(st, simp(c)):
                    return
                st = st.copy().assume(simp(c))
            p0, v0 = W.pre("state")
            p1, v1 = W.post(o, "state")
            s = st.copy().assume(p0)
            if not W.pr.sat(s):
                return
            W.pr.prove(s, p1, "the contract state stays stored")
            W.pr.eq(s, F(v1, "callback_address"), F(v0, "callback_address"), "state.callback_address")
        for en in STATEFUL:
            if en != "instantiate":
                self.lemma(en, "the callback address is unchanged", lambda e, o, st: cb(en, e, o, st))
        self.g_records("state")

    # ------------------------------------------------------------------ C21
    def C21(self):
        W, isv, F = self.W, self.W.isv, self.W.F

        def never(e, o, st):
            raise Fail("the call is accepted", W.pr.model(st))
        n = self.lemma("ibc_packet_receive", "an incoming packet is never accepted", never)
        self.holds("ibc_channel_open", "only OpenInit", lambda e, o: [isv(e["msg"], "OpenInit")])
        self.holds("ibc_channel_connect", "only OpenAck, as the controller", lambda e, o: [
            isv(e["msg"], "OpenAck"), F(e["msg"], "OpenAck::channel", "endpoint", "port_id") != sbytes(HOST_PORT)])
        self.holds("ibc_channel_open", "only towards the host port", lambda e, o: [
            F(e["msg"], "OpenInit::channel", "counterparty_endpoint", "port_id") == sbytes(HOST_PORT)])
        self.holds("reply", "only the reply it asked for", lambda e, o: [F(e["msg"], "id") == 1])
        for en in ("ibc_packet_receive",):
            e = self.W.ep("ep_" + en)
            self.ob(f"{en}: reachable", None, lambda: None if e.outs else (_ for _ in ()).throw(Lost("no outcome")), en)

    # ------------------------------------------------------------------ C22
    def C22(self):
        """authority: what may be emitted where"""
        W, isv, F = self.W, self.W.isv, self.W.F
        cbp = lambda: (W.pre("state")[0], F(W.pre("state")[1], "callback_address"))

        def each(fn):
            def f(e, o, st):
                for x in self.msgs_of(o, st):
                    fn(e, o, st, F(x, "msg"))
            return f

        def to_callback(e, o, st, m):
            p, cb = cbp()
            W.pr.prove(st, And(p, isv(cb, "Some")), "only a configured callback receives messages")
            W.pr.match(st, m, V("Wasm", [V("Execute", {"contract_addr": W.s(W.some(cb)), "msg": ANY, "funds": []})]), "message")

        def nothing(e, o, st, m):
            raise Fail("a message is emitted", W.pr.model(st))
        for en in ("ibc_channel_connect", "ibc_packet_ack", "ibc_packet_timeout"):
            self.lemma(en, "only messages to the callback contract, without funds", each(to_callback))
        for en in ("reply", "migrate", "ibc_channel_close"):
            self.lemma(en, "no messages", each(nothing))

        def execute(e, o, st, m):
            x = e["msg"]
            sub = lambda k: And(isv(m, "Ibc"), isv(F(m, "Ibc::0"), k)) if not z3.is_false(simp(isv(m, "Ibc"))) else z3.BoolVal(False)
            good = [And(isv(x, "CreateChannel"), isv(m, "Stargate")), And(isv(x, "CloseChannel"), sub("CloseChannel")),
                    And(isv(x, "SendCosmosMsgs"), sub("SendPacket"))]
            W.pr.prove(st, Or(*good), "only the message kind of the operation")
        self.lemma("execute", "only the message kind of the operation", each(execute))

        def few(e, o, st):
            if len(self.msgs_of(o, st)) > 1:
                raise Fail("more than one message", W.pr.model(st))
        for en in ("instantiate", "execute"):
            self.lemma(en, "at most one message", few)
        self.lemma("instantiate", "only the channel opening", each(
            lambda e, o, st, m: W.pr.match(st, m, V("Stargate", {"type_url": "/ibc.core.channel.v1.MsgChannelOpenInit", "value": ANY}), "message")))

    # ------------------------------------------------------------------ C23
    def C23(self):
        """initialisation invariant"""
        W = self.W
        need = ["state", "ownership", "contract_info", "channel_open_init_options", "allow_channel_open_init"]

        def after(e, o):
            return [W.post(o, ns)[0] for ns in need]
        self.holds("instantiate", "instantiation stores every record", after)
        for en in STATEFUL:
            if en != "instantiate":
                self.holds(en, "no record is lost", lambda e, o: [z3.Implies(W.pre(ns)[0], W.post(o, ns)[0]) for ns in need + ["ica_channel"]])
        self.entry("query", want=("value",))
        self.entry("instantiate", want=())
        self.g_records("state", "channel", "options")

    # ------------------------------------------------------------------ C24, C25, C26: encodings
    def C24(self):
        """what goes over the wire to and from the host chain"""
        self.g_packet()
        self.back("packet")
        self.g_metadata()
        self.g_ack()
        self.g_pb()
        self.g_pb_response()

    def C25(self):
        """the JSON interface"""
        self.doc_of("instantiate", "execute", "query", "options")
        self.back("instantiate", "execute", "query", "migrate")
        self.d_execute_decode()
        self.d_instantiate_decode()
        self.d_query_decode()
        self.g_callback()
        self.g_result()
        self.back("callback", "result", "response")

    def C26(self):
        """stored records"""
        self.g_records("state", "channel", "status", "options", "pending", "encoding")
        self.d_state_decode()

    # ------------------------------------------------------------------ C27, C28: what other contracts build on
    def lib(self, name, argn, **kw):
        self.function("rt_" + name, argn, getattr(self.W, "bh_" + name), **kw)

    def C27(self):
        """helpers.rs"""
        self.lib("h_execute", ["c", "m"])
        self.lib("h_update_admin", ["c", "a"])
        self.lib("h_clear_admin", ["c"])
        self.lib("h_migrate", ["c", "m", "id"])
        self.lib("h_addr", ["c"])
        self.lib("h_code_id", ["c"])
        self.lib("h_instantiate", ["c", "m", "label", "admin"])
        self.lib("h_instantiate2", ["c", "api", "q", "env", "m", "label", "admin", "salt"], total="env")
        for q in ("q_channel", "q_state", "q_ownership"):
            self.lib(q, ["c", "q"], total="env")

    def C28(self):
        """building blocks for other contracts"""
        self.lib("packet_new", ["data", "memo"])
        self.lib("packet_anys", ["a", "memo"])
        self.lib("packet_msgs", ["s", "m", "q", "e", "memo", "ica"], want=("value", "item:pending_query"))
        self.lib("packet_send", ["p", "env", "ch", "t"])
        self.lib("ack_data", ["d"])
        self.lib("ack_at", ["d", "i"])
        self.lib("open_msg", ["addr", "conn", "port", "cp", "enc", "ord"])
        self.lib("callback", ["m", "a"])
        self.lib("port", ["o"])
        self.lib("validate", ["m", "c"])
        self.lib("from_channel", ["d", "c"])
        self.lib("result", ["paths", "resp"])


    # ------------------------------------------------------------------ C29: the library without the entry points
    def build(self, tag, codec=False):
        """a checker over another build of the crate"""
        import os
        from spec import World
        d = self.dump[:-5] + "-" + tag + ".json"
        if not os.path.exists(d):
            raise Lost(f"the crate does not build with the feature set {tag}")
        w = World(d, **(self.codec_opts if codec else self.sub_opts))
        w.staking, w.queries = "s" in tag[3:], "q" in tag[3:]
        w.I.deadline = self.W.I.deadline
        c = Props(w)
        if codec:
            w.staking = w.queries = False
            c.CW = w
        c.obs_prefix, c.obs = f"[{tag}] ", self.obs
        self.worlds.append(w)
        return c

    def C29(self):
        """contracts that embed the library build it with features off"""
        for tag in ("min", "mins", "minq", "minqs", "mincodec"):
            res = {}
            if self.ob(f"[{tag}] extraction", None, lambda: res.__setitem__("c", self.build(tag, tag == "mincodec")), tag):
                c = res["c"]
                c.embedded_codec() if tag == "mincodec" else c.embedded(c.W.queries)

    def embedded(self, q):
        self.function(CONVERT, ["m", "signer"], self.W.bh_convert)
        if q:
            self.function(QUERY, ["q"], self.W.bh_to_query)
            self.function(RESPONSE, ["path", "data", "star"], self.W.bh_response)
            self.lib("ack_at", ["d", "i"])
        self.lib("packet_new", ["data", "memo"])
        self.lib("packet_anys", ["a", "memo"])
        self.lib("packet_msgs", ["m"] + (["q"] if q else []) + ["e", "memo", "ica"])
        self.lib("packet_send", ["p", "env", "ch", "t"])
        self.lib("ack_data", ["d"])
        self.lib("open_msg", ["addr", "conn", "port", "cp", "enc", "ord"])
        self.lib("callback", ["m", "a"])
        self.lib("port", ["o"])
        self.lib("validate", ["m", "c"])
        self.lib("from_channel", ["d", "c"])
        self.C27()

    def embedded_codec(self):
        """the messages of the reduced builds, and that they read what a full controller sends and the other way round"""
        self.doc_of("packet", "metadata", "encoding", "ack", "callback", "options", "instantiate", "execute", "query", "state", "channel", "status")
        self.back("packet", "metadata", "encoding", "ack", "callback", "options", "instantiate", "execute", "query", "migrate", "state", "channel", "status")
        self.d_execute_decode()
        self.d_instantiate_decode()
        self.d_query_decode()
        self.d_ack_decode()
        self.d_metadata_decode()
        self.d_full_callback()


CODEC = ("C06", "C07", "C08", "C09", "C10", "C12", "C13", "C14", "C15", "C17", "C20", "C23", "C24", "C25", "C26")
BUILDS = {p: ["codec"] for p in CODEC}
BUILDS["C29"] = ["min", "mins", "minq", "minqs", "mincodec"]
BUILDS["C30"] = ["owner", "ownercodec"]
BUILDS["C31"] = ["counter", "countercodec"]
BUILDS["C33"] = ["store"]
