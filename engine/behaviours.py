"""Contracts of the contract's entry points.

An entry point is specified by a list of behaviours.  A behaviour has
  sel    the case it applies to (quantifier-free; distinguishes behaviours)
  acc    what must hold for the call to be accepted (may contain Forall)
  inv    what an initialised contract guarantees (only assumed when proving that a call is not rejected)
  post   effects, by aspect:
           "msgs"     pattern of the emitted messages (a list of SubMsg patterns)
           "events"   pattern of the emitted events
           "value"    pattern of the whole returned value
           "item:NS"  ("set", pattern) | ("absent",) ; every item not named is unchanged
           "map:NS"   [(key, ("set", pattern) | ("absent",))] ; every other key is unchanged
A call that is in no accepted behaviour must be rejected: an error or a panic, which the platform turns
into a transaction without effects.
"""
import z3
from values import *
from interp import simp, mk_not
from patterns import *
from prover import Forall, Fail, Lost, skolem
from specs import *

T = z3.BoolVal(True)


class B:
    def __init__(self, name, sel, acc, post, inv=(), free=()):
        self.name, self.sel, self.acc, self.post, self.inv, self.free = name, list(sel), list(acc), dict(post), list(inv), set(free)


class Behaviours:
    """mixin of World: behaviours per entry point"""

    # ------------------------------------------------------------------ common conditions
    def owner_is(self, sender):
        p, o = self.pre("ownership")
        ow = self.F(o, "owner")
        return [p, self.isv(ow, "Some"), self.s(self.some(ow)) == self.s(sender)]

    def initialised(self):
        """presence of everything instantiation writes"""
        r = [self.pre(ns)[0] for ns in ("state", "ownership", "contract_info", "channel_open_init_options", "allow_channel_open_init")]
        r.append(self.isv(self.F(self.pre("ownership")[1], "owner"), "Some"))
        return r

    def addr_valid(self, s):
        return app("addr_valid", (s,), BOOL)

    def channel_open(self):
        p, c = self.pre("ica_channel")
        return And(p, self.isv(self.F(c, "channel_status"), "Open"))

    def callback(self, payload, when=()):
        """[(cond, messages)]: one faithful callback iff a callback address is stored"""
        cb = self.F(self.pre("state")[1], "callback_address")
        return Cases([(self.isv(cb, "Some"), [self.callback_msg(self.s(self.some(cb)), payload)]), (self.isv(cb, "None"), [])])

    def state_pat(self, **kw):
        """contract state with some fields replaced"""
        st = self.pre("state")[1]
        names = [f["name"] for f in self.I.variants(st.ty)[0]["fields"]]
        return S({n: kw.get(n, self.F(st, n)) for n in names})

    # ------------------------------------------------------------------ instantiate
    def bh_instantiate(self, e):
        F, isv, some = self.F, self.isv, self.some
        m = e["msg"]
        addr = self.s(F(e["env"], "contract", "address"))
        sender = self.s(F(e["info"], "sender"))
        opts = F(m, "channel_open_init_options")
        out = []
        for given in (True, False):
            owner = some(F(m, "owner")) if given else sender
            sel = [isv(F(m, "owner"), "Some" if given else "None")]
            cb = F(m, "send_callbacks_to")
            acc = [self.addr_valid(owner), Or(isv(cb, "None"), self.addr_valid(some(cb)))]
            out.append(B("instantiate" + (" with owner" if given else ""), sel, acc, {
                "msgs": [self.submsg(self.open_init_msg(addr, F(opts, "connection_id"), F(opts, "counterparty_connection_id"),
                                                        F(opts, "counterparty_port_id"), F(opts, "channel_ordering")))],
                "item:ownership": ("set", S({"owner": Some(owner), "pending_owner": NONE, "pending_expiry": NONE})),
                "item:state": ("set", S({"ica_info": NONE, "callback_address": self.opt(cb)})),
                "item:channel_open_init_options": ("set", opts),
                "item:allow_channel_open_init": ("set", True),
                "item:contract_info": ("set", S({"contract": "crates.io:cw-ica-controller", "version": self.version()})),
            }))
        return out

    def version(self):
        """the package version (the crate's own manifest)"""
        import re
        t = open("/repo/Cargo.toml").read()
        mt = re.search(r'(?ms)^\[package\].*?^version\s*=\s*"([^"]+)"', t) or re.search(r'(?ms)^\[workspace\.package\].*?^version\s*=\s*"([^"]+)"', t)
        return mt.group(1)

    # ------------------------------------------------------------------ execute
    def bh_execute(self, e):
        F, isv, some = self.F, self.isv, self.some
        m = e["msg"]
        env = e["env"]
        addr = self.s(F(env, "contract", "address"))
        sender = F(e["info"], "sender")
        own = self.owner_is(sender)
        inv = self.initialised()
        out = []
        # ---- CreateChannel
        o = F(m, "CreateChannel::channel_open_init_options")

        def open_msg(v):
            return [self.submsg(self.open_init_msg(addr, F(v, "connection_id"), F(v, "counterparty_connection_id"),
                                                   F(v, "counterparty_port_id"), F(v, "channel_ordering")))]
        out.append(B("CreateChannel with options", [isv(m, "CreateChannel"), isv(o, "Some")], own, {
            "msgs": open_msg(some(o)), "item:channel_open_init_options": ("set", some(o)), "item:allow_channel_open_init": ("set", True)}, inv))
        po, so = self.pre("channel_open_init_options")
        out.append(B("CreateChannel with the stored options", [isv(m, "CreateChannel"), isv(o, "None")], own + [po], {
            "msgs": open_msg(so), "item:allow_channel_open_init": ("set", True)}, inv))
        # ---- CloseChannel
        pc, ch = self.pre("ica_channel")
        out.append(B("CloseChannel", [isv(m, "CloseChannel")], own + [pc, isv(F(ch, "channel_status"), "Open")], {
            "msgs": [self.submsg(V("Ibc", [V("CloseChannel", {"channel_id": F(ch, "channel", "endpoint", "channel_id")})]))],
            "item:allow_channel_close_init": ("set", True)}, inv))
        # ---- UpdateCallbackAddress
        cb = F(m, "UpdateCallbackAddress::callback_address")
        ps, st = self.pre("state")
        out.append(B("UpdateCallbackAddress", [isv(m, "UpdateCallbackAddress")],
                     own + [ps, Or(isv(cb, "None"), self.addr_valid(some(cb)))], {
            "msgs": [], "item:state": ("set", self.state_pat(callback_address=self.opt(cb)))}, inv))
        # ---- SendCosmosMsgs
        info = F(st, "ica_info")
        ii = some(info)
        ica = F(ii, "ica_address")
        msgs, qs = F(m, "SendCosmosMsgs::messages"), F(m, "SendCosmosMsgs::queries")
        tmo = F(m, "SendCosmosMsgs::timeout_seconds")
        secs = z3.If(isv(tmo, "Some"), some(tmo), z3.IntVal(600))
        now = F(env, "block", "time", "0", "0")
        memo = F(m, "SendCosmosMsgs::packet_memo")
        nq = self.I.seq_len(qs)
        base = own + [ps, isv(info, "Some"), isv(F(ii, "encoding"), "Protobuf"),
                      now + secs * 10**9 <= U64, self.forall(msgs, lambda x: [self.convert_ok(x, ica)])]
        anys = [Each(msgs, lambda x: self.convert_pat(x, ica))]

        def packet(messages):
            return V("Ibc", [V("SendPacket", {
                "channel_id": F(ii, "channel_id"),
                "data": self.packet_data(Enc("prost", "v1::CosmosTx", S({"messages": messages})), memo),
                "timeout": S({"block": NONE, "timestamp": Some(now + secs * 10**9)})})])
        out.append(B("SendCosmosMsgs", [isv(m, "SendCosmosMsgs"), nq == 0], base, {"msgs": [self.submsg(packet(anys))]}, inv))
        qany = S({"type_url": "/ibc.applications.interchain_accounts.host.v1.MsgModuleQuerySafe",
                  "value": Enc("prost", "MsgModuleQuerySafe", S({"signer": ica, "requests": [Each(qs, lambda q: self.query_pat(q, lambda p, d, s: S({"path": p, "data": d})))]}))})
        out.append(B("SendCosmosMsgs with queries", [isv(m, "SendCosmosMsgs"), nq > 0],
                     base + [self.forall(qs, lambda q: [self.query_ok(q)])], {
            "msgs": [S({"id": 1, "payload": ANY, "msg": packet(anys + [qany]), "gas_limit": NONE, "reply_on": V("Success")})],
            "item:pending_query": ("set", [Each(qs, lambda q: self.query_pat(q, lambda p, d, s: S({"0": p, "1": s})))])}, inv))
        # ---- UpdateOwnership
        a = F(m, "UpdateOwnership::0")
        pw, ow = self.pre("ownership")
        up = isv(m, "UpdateOwnership")
        new = F(a, "TransferOwnership::new_owner")
        out.append(B("TransferOwnership", [up, isv(a, "TransferOwnership")], own + [self.addr_valid(new)], {
            "msgs": [], "item:ownership": ("set", S({"owner": F(ow, "owner"), "pending_owner": Some(new), "pending_expiry": F(a, "TransferOwnership::expiry")}))}, inv))
        pend, exp = F(ow, "pending_owner"), F(ow, "pending_expiry")
        ex = some(exp)
        blk = F(env, "block")
        expired = And(isv(exp, "Some"), Or(
            And(isv(ex, "AtHeight"), F(blk, "height") >= F(ex, "AtHeight::0")),
            And(isv(ex, "AtTime"), now >= F(ex, "AtTime::0", "0", "0"))))
        out.append(B("AcceptOwnership", [up, isv(a, "AcceptOwnership")],
                     [pw, isv(pend, "Some"), self.s(some(pend)) == self.s(sender), Not(expired)], {
            "msgs": [], "item:ownership": ("set", S({"owner": pend, "pending_owner": NONE, "pending_expiry": NONE}))}, inv))
        return out

    # ------------------------------------------------------------------ conversions, by callee contract or in full
    def convert_ok(self, m, signer):
        if self.modular("rt_convert"):
            return self.ct("rt_convert", [m, signer])[0]
        return Or(*[And(*c) for c, _ in self.any_alts(m, signer)])

    def convert_pat(self, m, signer):
        if self.modular("rt_convert"):
            return self.ct("rt_convert", [m, signer])[1]
        return [(c, [p]) for c, p in self.any_alts(m, signer)]

    def query_ok(self, q):
        if self.modular("rt_query"):
            return self.ct("rt_query", [q])[0]
        return Or(*[And(*c) for c, _, _, _ in self.query_alts(q)])

    def query_pat(self, q, f):
        if self.modular("rt_query"):
            v = self.ct("rt_query", [q])[1]
            return f(self.F(v, "0"), self.F(v, "1"), self.F(v, "2"))
        return [(c, [f(p, d, s)]) for c, p, d, s in self.query_alts(q)]

    def packet_data(self, data, memo):
        """JSON of the ICS-27 packet: an ordinary execute-tx packet"""
        return Enc("json", "IcaPacketData", S({"type": 1, "data": data, "memo": memo}))

    # ------------------------------------------------------------------ reply
    def bh_reply(self, e):
        F, isv, some = self.F, self.isv, self.some
        m = e["msg"]
        res = F(m, "result")
        r = F(res, "Ok::0")
        data = F(r, "data")
        raw = z3.If(isv(data, "Some"), self.s(some(data)), sbytes(b""))
        ok, seq = self.anybuf_u64(raw, 1)
        ps, st = self.pre("state")
        info = F(st, "ica_info")
        pq, q = self.pre("pending_query")
        return [B("reply to a query packet", [F(m, "id") == 1, isv(res, "Ok")], ok + [ps, isv(info, "Some"), pq], {
            "msgs": [], "item:pending_query": ("absent",),
            "map:pending_queries": [((F(some(info), "channel_id"), seq), ("set", q))]}, self.initialised())]

    def anybuf_u64(self, raw, field):
        return [app("anybuf_ok", (raw,), BOOL), app("anybuf_has_u64", (raw, z3.IntVal(field)), BOOL)], self.int64(app("anybuf_u64", (raw, z3.IntVal(field)), INT))

    def int64(self, t):
        self.I.int_range[t.decl().name()] = (0, U64)
        return t

    # ------------------------------------------------------------------ query
    def bh_query(self, e):
        F, isv = self.F, self.isv
        m = e["msg"]
        out = []
        for vn, ns in (("GetContractState", "state"), ("GetChannel", "ica_channel"), ("Ownership", "ownership")):
            p, v = self.pre(ns)
            out.append(B(vn, [isv(m, vn)], [p], {"value": Enc("json", "", v)}, self.initialised()))
        return out

    # ------------------------------------------------------------------ migrate
    def bh_migrate(self, e):
        F, isv, some = self.F, self.isv, self.some
        pv, ci = self.pre("contract_info")
        ps, st = self.pre("state")
        info = F(st, "ica_info")
        ver = F(ci, "version")
        sty = "semver::Version"
        ok, prev = self.parse(sty, ver)
        lt = app("semver_rank", (ver,), INT) < app("semver_rank", (sbytes(self.version()),), INT)
        return [B("migrate", [], [pv, F(ci, "contract") == sbytes("crates.io:cw-ica-controller"), ok, lt, ps,
                                  Or(isv(info, "None"), isv(F(some(info), "encoding"), "Protobuf"))], {
            "msgs": [], "item:contract_info": ("set", S({"contract": "crates.io:cw-ica-controller", "version": self.version()}))}, self.initialised())]

    # ------------------------------------------------------------------ handshake
    def metadata_valid(self, md, ch):
        """conditions on the metadata negotiated for a channel"""
        F, isv = self.F, self.isv
        a = F(md, "address")
        return [F(md, "version") == sbytes(ICA_VERSION), F(md, "controller_connection_id") == F(ch, "connection_id"),
                isv(F(md, "encoding"), "Protobuf"), F(md, "tx_type") == sbytes(TX_TYPE), z3.Length(a) <= 128, self.alnum(a)]

    def alnum(self, a):
        return Forall(app("chars.len", (a,), INT), lambda k: self.is_alnum(app("chars.at", (a, k), INT)))

    def is_alnum(self, c):
        asc = z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122))
        return z3.If(c < 128, asc, z3.Or(app("uni.is_alphabetic", (c,), BOOL), app("uni.is_numeric", (c,), BOOL)))

    def bh_ibc_channel_open(self, e):
        F, isv = self.F, self.isv
        m = e["msg"]
        ch = F(m, "OpenInit::channel")
        init = isv(m, "OpenInit")
        pa, allow = self.pre("allow_channel_open_init")
        pc, cst = self.pre("ica_channel")
        po, opt = self.pre("channel_open_init_options")
        base = [pa, allow, F(ch, "counterparty_endpoint", "port_id") == sbytes(HOST_PORT), Not(self.channel_open())]
        ver = F(ch, "version")
        empty = ver == sbytes(b"")
        ok1, md1 = self.dec("json", "IcaMetadata", ver)
        stored = F(cst, "channel", "version")
        ok2, md2 = self.dec("json", "IcaMetadata", stored)
        have = And(pc, ok2)

        def post(md):
            return {"value": V("Some", [S({"version": Enc("json", "IcaMetadata", md)})]),
                    "item:allow_channel_open_init": ("set", False)}
        inv = self.initialised()
        return [
            B("OpenInit with a proposed version", [init, Not(empty)], base + [ok1] + self.metadata_valid(md1, ch), post(md1), inv),
            B("OpenInit, metadata of the previous channel", [init, empty, have], base + self.metadata_valid(md2, ch), post(md2), inv),
            B("OpenInit, metadata from the stored options", [init, empty, Not(have)],
              base + [po, F(opt, "connection_id") == F(ch, "connection_id")],
              post(self.fresh_metadata(F(opt, "connection_id"), F(opt, "counterparty_connection_id"))), inv)]

    def bh_ibc_channel_connect(self, e):
        F, isv = self.F, self.isv
        m = e["msg"]
        ch, cv = F(m, "OpenAck::channel"), F(m, "OpenAck::counterparty_version")
        ok, md = self.dec("json", "IcaMetadata", cv)
        ps, st = self.pre("state")
        a = F(md, "address")
        chp = S({"endpoint": F(ch, "endpoint"), "counterparty_endpoint": F(ch, "counterparty_endpoint"), "order": F(ch, "order"),
                 "version": cv, "connection_id": F(ch, "connection_id")}, exact=False)
        return [B("OpenAck", [isv(m, "OpenAck")], [ps, F(ch, "endpoint", "port_id") != sbytes(HOST_PORT), ok, Not(self.channel_open()),
                                                   a != sbytes(b"")] + self.metadata_valid(md, ch), {
            "msgs": self.callback(V("OnChannelOpenAckCallback", {"channel": chp, "ica_address": a, "tx_encoding": V("Protobuf")})),
            "item:state": ("set", self.state_pat(ica_info=Some(S({"ica_address": a, "channel_id": F(ch, "endpoint", "channel_id"), "encoding": V("Protobuf")})))),
            "item:ica_channel": ("set", S({"channel": chp, "channel_status": V("Open")}))}, self.initialised())]

    def bh_ibc_channel_close(self, e):
        F, isv = self.F, self.isv
        m = e["msg"]
        pc, cst = self.pre("ica_channel")
        pa, allow = self.pre("allow_channel_close_init")
        out = []
        for vn, extra, more in (("CloseInit", [pa, allow], {"item:allow_channel_close_init": ("set", False)}), ("CloseConfirm", [], {})):
            ch = F(m, f"{vn}::channel")
            out.append(B(vn, [isv(m, vn)], extra + [pc, isv(F(cst, "channel_status"), "Open"), self.same(ch, F(cst, "channel"))],
                         {"msgs": [], "item:ica_channel": ("set", S({"channel": F(cst, "channel"), "channel_status": V("Closed")}))} | more,
                         self.initialised()))
        return out

    def same(self, a, b):
        """equality of two values as a condition"""
        return self.I.eq(None, a, b)

    # ------------------------------------------------------------------ packets
    def ack_data(self, e):
        return self.dec("json", "acknowledgement::Data", self.s(self.F(e["msg"], "acknowledgement", "data")))

    def ack_event(self, pk, *more):
        F = self.F
        return [S({"ty": "acknowledge_packet", "attributes": [S({"key": k, "value": v}) for k, v in (
            ("packet_sequence", itoa(F(pk, "sequence"))), ("packet_src_port", F(pk, "src", "port_id")),
            ("packet_src_channel", F(pk, "src", "channel_id"))) + more]})]

    def bh_ibc_packet_ack(self, e, parts=("callback", "query")):
        """parts: what the callback message is compared on"""
        F, isv, some = self.F, self.isv, self.some
        m = e["msg"]
        pk, rel = F(m, "original_packet"), F(m, "relayer")
        ok, d = self.ack_data(e)
        ps, st = self.pre("state")
        key = (F(pk, "src", "channel_id"), F(pk, "sequence"))
        pp, paths = self.map_pre("pending_queries", key)
        res, err = self.s(F(d, "Result::0")), F(d, "Error::0")
        inv = self.initialised()
        rm = {"map:pending_queries": [(key, ("absent",))]}

        def cb(ack, q):
            ack, pk_, rel_ = (ack, pk, rel) if "callback" in parts else (ANY, ANY, ANY)
            q = q if "query" in parts else ANY
            if "callback" not in parts:
                return self.callback_query(q)
            return self.callback(V("OnAcknowledgementPacketCallback", {
                "ica_acknowledgement": ack, "original_packet": pk_, "relayer": rel_, "query_result": q}))
        okr = V("Result", [res])
        ev = self.ack_event(pk, ("packet_ack_base64", Enc("base64", "", res)))
        out = [B("error acknowledgement", [isv(d, "Error")], [ok, ps], {
            "msgs": cb(V("Error", [err]), Some(V("Error", [err]))), "events": self.ack_event(pk, ("error", err))} | rm, inv)]
        out.append(B("success without queries", [isv(d, "Result"), Not(pp)], [ok, ps], {"msgs": cb(okr, NONE), "events": ev} | rm, inv))
        dec, r = self.query_answer(res)
        q = self.query_result_pat(paths, r)
        out.append(B("success with queries", [isv(d, "Result"), pp], [ok, ps] + dec, {"msgs": cb(okr, Some(q)), "events": ev} | rm, inv))
        return out

    def callback_query(self, q):
        """pattern of the messages of an acknowledgement: whatever acknowledgement callback is sent carries
        the query result q"""
        def one(pr, st, v, path):
            payload = V("OnAcknowledgementPacketCallback", {"ica_acknowledgement": ANY, "original_packet": ANY, "relayer": ANY, "query_result": q})
            pr.match(st, v, S({"msg": V("Wasm", [V("Execute", {"contract_addr": ANY, "funds": ANY, "msg": Enc(
                "json", "ReceiverExecuteMsg", V("ReceiveIcaCallback", [payload]))})])}, exact=False), path)

        def pat(pr, st, v, path):
            for sg in pr.norm_segs(st, v):
                if not isinstance(sg, Lit):
                    raise Lost(f"{path}: not a list of single messages")
                for i, x in enumerate(sg.vals):
                    one(pr, st, x, f"{path}[{i}]")
        return pat

    def query_answer(self, res):
        """(conditions, value): the query response carried by a success acknowledgement"""
        F = self.F
        ok1, tx = self.dec("prost", "v1beta1::TxMsgData", res)
        rs = F(tx, "msg_responses")
        n = self.I.seq_len(rs)
        last = self.I.seg_elem(rs.segs[0], simp(n - 1))
        ok2, r = self.dec("prost", "MsgModuleQuerySafeResponse", F(last, "value"))
        return [ok1, n >= 1, ok2], r

    def query_result_pat(self, paths, r):
        """pattern of the query result: every answer decoded by its query's path, in order, or an error"""
        F = self.F
        resp = F(r, "responses")
        np_, nr = self.I.seq_len(paths), self.I.seq_len(resp)
        sp, sr = paths.segs[0], resp.segs[0]

        def okf(k):
            p = self.I.seg_elem(sp, k)
            return self.response_ok(F(p, "0"), self.I.seg_elem(sr, k), F(p, "1"))

        def elem(p, k):
            return self.response_pat(F(p, "0"), self.I.seg_elem(sr, k), F(p, "1"))
        good = V("Success", {"height": F(r, "height"), "responses": [EachIx(paths, elem)]})

        def pat(pr, st, v, path):
            t = self.I.tag(v)
            vi = self.P.variant_index(v.ty, "Success")
            for i, want in ((vi, True), (self.P.variant_index(v.ty, "Error"), False)):
                c = z3.BoolVal(t == i) if isinstance(t, int) else (t == i)
                if not self.I.feasible(st, simp(c)):
                    continue
                s2 = st.copy().assume(simp(c))
                if want:
                    pr.prove(s2, np_ == nr, path + ": one answer per query")
                    pr.prove_all(s2, [Forall(np_, okf)], path + ": every answer decodes")
                    pr.match(s2, v, good, path)
                else:
                    pr.prove_not_all(s2, [np_ == nr, Forall(np_, okf)], path + ": an error although every answer decodes")
        return pat

    def response_ok(self, path, data, star):
        if self.modular("rt_response"):
            return self.ct("rt_response", [path, data, star])[0]
        return Or(*[And(*[x for x in c]) for c, _ in self.response_alts(path, data, star)])

    def response_pat(self, path, data, star):
        if self.modular("rt_response"):
            return self.ct("rt_response", [path, data, star])[1]
        return [(c, [p]) for c, p in self.response_alts(path, data, star)]

    def bh_ibc_packet_timeout(self, e):
        F, isv = self.F, self.isv
        m = e["msg"]
        pk = F(m, "packet")
        pc, cst = self.pre("ica_channel")
        ps, st = self.pre("state")
        key = (F(pk, "src", "channel_id"), F(pk, "sequence"))
        ch = F(cst, "channel")
        hit = And(isv(F(ch, "order"), "Ordered"), F(ch, "endpoint", "channel_id") == F(pk, "src", "channel_id"))
        common = {"msgs": self.callback(V("OnTimeoutPacketCallback", {"original_packet": pk, "relayer": F(m, "relayer")})),
                  "map:pending_queries": [(key, ("absent",))]}
        inv = self.initialised()
        return [B("timeout on the ordered channel", [hit], [pc, ps], common | {
                    "item:ica_channel": ("set", S({"channel": ch, "channel_status": V("Closed")}))}, inv),
                B("timeout on another or unordered channel", [Not(hit)], [pc, ps], common, inv)]

    def bh_ibc_packet_receive(self, e):
        return []

    # ------------------------------------------------------------------ conversions
    def from_alts(self, alts):
        """behaviours of a pure partial function given by (conditions, pattern) alternatives"""
        out = []
        for i, (c, p) in enumerate(alts):
            sel = [x for x in c if not isinstance(x, Forall)]
            out.append(B(f"case {i + 1}", sel, [x for x in c if isinstance(x, Forall)], {"value": p}))
        return out

    def bh_convert(self, e):
        return self.from_alts(self.any_alts(e["m"], e["signer"]))

    def bh_to_query(self, e):
        return self.from_alts([(c, S({"0": p, "1": d, "2": s})) for c, p, d, s in self.query_alts(e["q"])])

    def bh_response(self, e):
        return self.from_alts(self.response_alts(e["path"], e["data"], e["star"]))
