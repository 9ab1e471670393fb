"""Functional specifications: what each operation must do, written from the property statements.

Everything here talks about inputs, stored state and emitted values by their public names; nothing
refers to the functions or locals of the implementation.
"""
import z3
from values import *
from interp import simp, mk_not
from patterns import *
from prover import Forall, Fail, Lost

U64 = (1 << 64) - 1
HOST_PORT = "icahost"
ICA_VERSION = "ics27-1"
TX_TYPE = "sdk_multi_msg"


def And(*c):
    c = [x for y in c for x in (y if isinstance(y, (list, tuple)) else [y])]
    return z3.And(*c) if len(c) != 1 else c[0]


def Or(*c):
    return z3.Or(*c) if len(c) != 1 else c[0]


Not = z3.Not


def itoa(t):
    return app("itoa", (t,), STR)


class Specs:
    """mixin of World"""
    staking = True      # the build has the staking feature
    queries = True      # the build has the query feature

    # ------------------------------------------------------------------ small helpers
    def opt(self, v, f=lambda x: x):
        """pattern of Option::map"""
        return Cases([(self.isv(v, "Some"), Some(f(self.some(v)))), (self.isv(v, "None"), NONE)])

    def opt_or(self, v, d):
        """pattern of unwrap_or on an optional scalar"""
        return Cases([(self.isv(v, "Some"), self.s(self.some(v))), (self.isv(v, "None"), d)])

    def coin(self, c):
        return S({"denom": self.F(c, "denom"), "amount": itoa(self.s(self.F(c, "amount")))})

    def coins(self, cs):
        return [Each(cs, self.coin)]

    def msg_any(self, url, suffix, fields):
        return S({"type_url": "/" + url, "value": Enc("prost", suffix, S(fields))})

    # ------------------------------------------------------------------ CosmosMsg -> Any
    def any_alts(self, m, signer):
        """[(conditions, pattern)] for the supported messages"""
        F, isv = self.F, self.isv
        out = []

        def sub(var, val):
            try:
                return F(val, f"{var}::0"), isv(val, var)
            except (KeyError, Unsupported):
                raise Lost(f"the message type has no variant {var}")

        out.append(([isv(m, "Stargate")], S({"type_url": F(m, "Stargate::type_url"), "value": self.s(F(m, "Stargate::value"))})))
        b, cb = sub("Bank", m)
        out.append(([cb, isv(b, "Send")], self.msg_any("cosmos.bank.v1beta1.MsgSend", "bank::v1beta1::MsgSend", {
            "from_address": signer, "to_address": F(b, "Send::to_address"), "amount": self.coins(F(b, "Send::amount"))})))
        i, ci = sub("Ibc", m)
        to = F(i, "Transfer::timeout")
        out.append(([ci, isv(i, "Transfer")], self.msg_any("ibc.applications.transfer.v1.MsgTransfer", "transfer::v1::MsgTransfer", {
            "source_port": "transfer", "source_channel": F(i, "Transfer::channel_id"),
            "token": Some(self.coin(F(i, "Transfer::amount"))), "sender": signer, "receiver": F(i, "Transfer::to_address"),
            "timeout_height": self.opt(F(to, "block"), lambda h: S({"revision_number": F(h, "revision"), "revision_height": F(h, "height")})),
            "timeout_timestamp": Cases([(isv(F(to, "timestamp"), "Some"), F(self.some(F(to, "timestamp")), "0", "0")),
                                        (isv(F(to, "timestamp"), "None"), 0)]),
            "memo": self.opt_or(F(i, "Transfer::memo"), "")})))
        w, cw = sub("Wasm", m)
        out.append(([cw, isv(w, "Execute")], self.msg_any("cosmwasm.wasm.v1.MsgExecuteContract", "wasm::v1::MsgExecuteContract", {
            "sender": signer, "contract": F(w, "Execute::contract_addr"), "msg": self.s(F(w, "Execute::msg")),
            "funds": self.coins(F(w, "Execute::funds"))})))
        out.append(([cw, isv(w, "Instantiate")], self.msg_any("cosmwasm.wasm.v1.MsgInstantiateContract", "wasm::v1::MsgInstantiateContract", {
            "sender": signer, "admin": self.opt_or(F(w, "Instantiate::admin"), ""), "code_id": F(w, "Instantiate::code_id"),
            "label": F(w, "Instantiate::label"), "msg": self.s(F(w, "Instantiate::msg")), "funds": self.coins(F(w, "Instantiate::funds"))})))
        out.append(([cw, isv(w, "Instantiate2")], self.msg_any("cosmwasm.wasm.v1.MsgInstantiateContract2", "wasm::v1::MsgInstantiateContract2", {
            "sender": signer, "admin": self.opt_or(F(w, "Instantiate2::admin"), ""), "code_id": F(w, "Instantiate2::code_id"),
            "label": F(w, "Instantiate2::label"), "msg": self.s(F(w, "Instantiate2::msg")), "funds": self.coins(F(w, "Instantiate2::funds")),
            "salt": self.s(F(w, "Instantiate2::salt")), "fix_msg": False})))
        out.append(([cw, isv(w, "Migrate")], self.msg_any("cosmwasm.wasm.v1.MsgMigrateContract", "wasm::v1::MsgMigrateContract", {
            "sender": signer, "contract": F(w, "Migrate::contract_addr"), "code_id": F(w, "Migrate::new_code_id"),
            "msg": self.s(F(w, "Migrate::msg"))})))
        out.append(([cw, isv(w, "UpdateAdmin")], self.msg_any("cosmwasm.wasm.v1.MsgUpdateAdmin", "wasm::v1::MsgUpdateAdmin", {
            "sender": signer, "new_admin": F(w, "UpdateAdmin::admin"), "contract": F(w, "UpdateAdmin::contract_addr")})))
        out.append(([cw, isv(w, "ClearAdmin")], self.msg_any("cosmwasm.wasm.v1.MsgClearAdmin", "wasm::v1::MsgClearAdmin", {
            "sender": signer, "contract": F(w, "ClearAdmin::contract_addr")})))
        g, cg = sub("Gov", m)

        def vote(o):
            # VOTE_OPTION_YES 1, ABSTAIN 2, NO 3, NO_WITH_VETO 4
            return Cases([(isv(o, "Yes"), 1), (isv(o, "Abstain"), 2), (isv(o, "No"), 3), (isv(o, "NoWithVeto"), 4)])
        out.append(([cg, isv(g, "Vote")], self.msg_any("cosmos.gov.v1beta1.MsgVote", "gov::v1beta1::MsgVote", {
            "proposal_id": F(g, "Vote::proposal_id"), "voter": signer, "option": vote(F(g, "Vote::option"))})))
        out.append(([cg, isv(g, "VoteWeighted")], self.msg_any("cosmos.gov.v1.MsgVoteWeighted", "gov::v1::MsgVoteWeighted", {
            "proposal_id": F(g, "VoteWeighted::proposal_id"), "voter": signer,
            "options": [Each(F(g, "VoteWeighted::options"), lambda o: S({
                "option": vote(F(o, "option")), "weight": Enc("display", "Decimal", F(o, "weight"))}))],
            "metadata": ""})))
        if not self.staking:
            return out
        s, cs = sub("Staking", m)
        for vn, mn in (("Delegate", "MsgDelegate"), ("Undelegate", "MsgUndelegate")):
            out.append(([cs, isv(s, vn)], self.msg_any(f"cosmos.staking.v1beta1.{mn}", f"staking::v1beta1::{mn}", {
                "delegator_address": signer, "validator_address": F(s, f"{vn}::validator"), "amount": Some(self.coin(F(s, f"{vn}::amount")))})))
        out.append(([cs, isv(s, "Redelegate")], self.msg_any("cosmos.staking.v1beta1.MsgBeginRedelegate", "staking::v1beta1::MsgBeginRedelegate", {
            "delegator_address": signer, "validator_src_address": F(s, "Redelegate::src_validator"),
            "validator_dst_address": F(s, "Redelegate::dst_validator"), "amount": Some(self.coin(F(s, "Redelegate::amount")))})))
        d, cd = sub("Distribution", m)
        out.append(([cd, isv(d, "WithdrawDelegatorReward")], self.msg_any(
            "cosmos.distribution.v1beta1.MsgWithdrawDelegatorReward", "distribution::v1beta1::MsgWithdrawDelegatorReward", {
                "delegator_address": signer, "validator_address": F(d, "WithdrawDelegatorReward::validator")})))
        out.append(([cd, isv(d, "SetWithdrawAddress")], self.msg_any(
            "cosmos.distribution.v1beta1.MsgSetWithdrawAddress", "distribution::v1beta1::MsgSetWithdrawAddress", {
                "delegator_address": signer, "withdraw_address": F(d, "SetWithdrawAddress::address")})))
        out.append(([cd, isv(d, "FundCommunityPool")], self.msg_any(
            "cosmos.distribution.v1beta1.MsgFundCommunityPool", "distribution::v1beta1::MsgFundCommunityPool", {
                "amount": self.coins(F(d, "FundCommunityPool::amount")), "depositor": signer})))
        return out

    # ------------------------------------------------------------------ QueryRequest -> (path, bytes, passthrough)
    def query_alts(self, q):
        """[(conditions, path pattern, data pattern, is_stargate)]"""
        F, isv = self.F, self.isv
        out = [([isv(q, "Stargate")], F(q, "Stargate::path"), self.s(F(q, "Stargate::data")), True)]
        B, Wm, St = "/cosmos.bank.v1beta1.Query/", "/cosmwasm.wasm.v1.Query/", "/cosmos.staking.v1beta1.Query/"

        def e(suffix, fields):
            return Enc("prost", suffix, S(fields))
        b, cb = F(q, "Bank::0"), isv(q, "Bank")
        out.append(([cb, isv(b, "Balance")], B + "Balance", e("bank::v1beta1::QueryBalanceRequest", {
            "address": F(b, "Balance::address"), "denom": F(b, "Balance::denom")}), False))
        out.append(([cb, isv(b, "AllBalances")], B + "AllBalances", e("bank::v1beta1::QueryAllBalancesRequest", {
            "address": F(b, "AllBalances::address"), "pagination": NONE}), False))
        out.append(([cb, isv(b, "DenomMetadata")], B + "DenomMetadata", e("bank::v1beta1::QueryDenomMetadataRequest", {
            "denom": F(b, "DenomMetadata::denom")}), False))
        out.append(([cb, isv(b, "AllDenomMetadata")], B + "DenomsMetadata", e("bank::v1beta1::QueryDenomsMetadataRequest", {
            "pagination": self.opt(F(b, "AllDenomMetadata::pagination"), lambda p: S({
                "key": self.opt_or(F(p, "key"), ""), "limit": F(p, "limit"), "reverse": F(p, "reverse"), "offset": 0, "count_total": False}))}), False))
        out.append(([cb, isv(b, "Supply")], B + "SupplyOf", e("bank::v1beta1::QuerySupplyOfRequest", {"denom": F(b, "Supply::denom")}), False))
        w, cw = F(q, "Wasm::0"), isv(q, "Wasm")
        out.append(([cw, isv(w, "Raw")], Wm + "RawContractState", e("wasm::v1::QueryRawContractStateRequest", {
            "address": F(w, "Raw::contract_addr"), "query_data": self.s(F(w, "Raw::key"))}), False))
        out.append(([cw, isv(w, "Smart")], Wm + "SmartContractState", e("wasm::v1::QuerySmartContractStateRequest", {
            "address": F(w, "Smart::contract_addr"), "query_data": self.s(F(w, "Smart::msg"))}), False))
        out.append(([cw, isv(w, "ContractInfo")], Wm + "ContractInfo", e("wasm::v1::QueryContractInfoRequest", {
            "address": F(w, "ContractInfo::contract_addr")}), False))
        if not self.staking:
            return out
        s, cs = F(q, "Staking::0"), isv(q, "Staking")
        out.append(([cs, isv(s, "Validator")], St + "Validator", e("staking::v1beta1::QueryValidatorRequest", {
            "validator_addr": F(s, "Validator::address")}), False))
        out.append(([cs, isv(s, "AllValidators")], St + "Validators", e("staking::v1beta1::QueryValidatorsRequest", {
            "status": "", "pagination": NONE}), False))
        out.append(([cs, isv(s, "Delegation")], St + "Delegation", e("staking::v1beta1::QueryDelegationRequest", {
            "delegator_addr": F(s, "Delegation::delegator"), "validator_addr": F(s, "Delegation::validator")}), False))
        out.append(([cs, isv(s, "AllDelegations")], St + "DelegatorDelegations", e("staking::v1beta1::QueryDelegatorDelegationsRequest", {
            "delegator_addr": F(s, "AllDelegations::delegator"), "pagination": NONE}), False))
        out.append(([cs, isv(s, "BondedDenom")], St + "Params", e("staking::v1beta1::QueryParamsRequest", {}), False))
        return out

    # ------------------------------------------------------------------ query response decoding
    def dec(self, kind, tyname, bytes_):
        """(ok, value) of decoding bytes as the named type"""
        ty = self.ty_named(tyname)
        s = self.P.types[ty]["s"]
        return app(f"{kind}_ok:{s}", (bytes_,), BOOL), self.I.leaf(ty, f"{kind}_dec:{s}", (bytes_,))

    def ty_named(self, suffix):
        c = [i for i, t in enumerate(self.P.types) if t["k"] == "adt" and type_named(t, suffix)]
        if not c:
            raise Lost(f"the code never handles {suffix}")
        return c[0]

    def parse(self, tyname, t):
        """(ok, value) of parsing text as the named type"""
        ty = self.ty_named(tyname)
        s = self.P.types[ty]["s"]
        return app(f"parse_ok:{s}", (t,), BOOL), self.I.leaf(ty, f"parse:{s}", (t,))

    def coin_back(self, c):
        """(ok conditions, pattern) of the conversion of a protobuf coin"""
        ok, v = self.parse("cosmwasm_std::Uint128", self.F(c, "amount"))
        return [ok], S({"denom": self.F(c, "denom"), "amount": v})

    def response_alts(self, path, data, is_star):
        """[(conditions, pattern)]: the conditions under which a response decodes, and the result.
        Conditions may contain Forall."""
        F, isv, some = self.F, self.isv, self.some
        B, Wm, St = "/cosmos.bank.v1beta1.Query/", "/cosmwasm.wasm.v1.Query/", "/cosmos.staking.v1beta1.Query/"
        out = [([is_star], V("Stargate", {"data": data, "path": path}))]
        ns = Not(is_star)

        def at(p, tyname):
            ok, v = self.dec("prost", tyname, data)
            return [ns, path == sbytes(p), ok], v

        def coin_opt(c, o, wrap):
            """an absent coin is the zero coin"""
            ok, pat = self.coin_back(some(o))
            out.append((c + [isv(o, "Some")] + ok, wrap(pat)))
            out.append((c + [isv(o, "None")], wrap(S({"denom": "", "amount": 0}))))
        c, r = at(B + "Balance", "bank::v1beta1::QueryBalanceResponse")
        coin_opt(c, F(r, "balance"), lambda p: V("Bank", [V("Balance", [S({"amount": p})])]))
        c, r = at(B + "SupplyOf", "bank::v1beta1::QuerySupplyOfResponse")
        coin_opt(c, F(r, "amount"), lambda p: V("Bank", [V("Supply", [S({"amount": p})])]))
        c, r = at(B + "AllBalances", "bank::v1beta1::QueryAllBalancesResponse")
        bs = F(r, "balances")
        out.append((c + [self.forall(bs, lambda x: self.coin_back(x)[0])],
                    V("Bank", [V("AllBalances", [S({"amount": [Each(bs, lambda x: self.coin_back(x)[1])]})])])))

        def meta(m):
            return S({n: F(m, n) for n in ("name", "symbol", "description", "base", "display", "uri", "uri_hash")}
                     | {"denom_units": [Each(F(m, "denom_units"), lambda u: S({n: F(u, n) for n in ("denom", "exponent", "aliases")}))]})
        c, r = at(B + "DenomMetadata", "bank::v1beta1::QueryDenomMetadataResponse")
        zero = S({n: "" for n in ("name", "symbol", "description", "base", "display", "uri", "uri_hash")} | {"denom_units": []})
        out.append((c + [isv(F(r, "metadata"), "Some")], V("Bank", [V("DenomMetadata", [S({"metadata": meta(some(F(r, "metadata")))})])])))
        out.append((c + [isv(F(r, "metadata"), "None")], V("Bank", [V("DenomMetadata", [S({"metadata": zero})])])))
        c, r = at(B + "DenomsMetadata", "bank::v1beta1::QueryDenomsMetadataResponse")
        out.append((c, V("Bank", [V("AllDenomMetadata", [S({
            "metadata": [Each(F(r, "metadatas"), meta)],
            "next_key": self.opt(F(r, "pagination"), lambda p: F(p, "next_key"))})])])))
        c, r = at(Wm + "ContractInfo", "wasm::v1::QueryContractInfoResponse")

        def nonempty(t):
            return Cases([(t == sbytes(b""), NONE), (t != sbytes(b""), Some(t))])
        out.append((c, V("Wasm", [V("ContractInfo", [self.opt(F(r, "contract_info"), lambda i: S({
            "code_id": F(i, "code_id"), "creator": F(i, "creator"), "admin": nonempty(F(i, "admin")), "pinned": False,
            "ibc_port": nonempty(F(i, "ibc_port_id"))}))])])))
        c, r = at(Wm + "RawContractState", "wasm::v1::QueryRawContractStateResponse")
        out.append((c, V("Wasm", [V("RawContractState", [nonempty(F(r, "data"))])])))
        c, r = at(Wm + "SmartContractState", "wasm::v1::QuerySmartContractStateResponse")
        out.append((c, V("Wasm", [V("SmartContractState", [F(r, "data")])])))

        def validator(v):
            com = F(v, "commission")
            rates = F(some(com), "commission_rates")
            have = And(isv(com, "Some"), isv(rates, "Some"))
            ok, pat = [], {"address": F(v, "operator_address")}
            for n, m in (("rate", "commission"), ("max_rate", "max_commission"), ("max_change_rate", "max_change_rate")):
                o, d = self.parse("cosmwasm_std::Decimal", F(some(rates), n))
                e_ok, e = self.parse("cosmwasm_std::Decimal", sbytes(b""))
                ok.append(z3.If(have, o, e_ok))
                pat[m] = Cases([(have, d), (Not(have), e)])
            return ok, S(pat)
        if not self.staking:
            return out
        c, r = at(St + "Validator", "staking::v1beta1::QueryValidatorResponse")
        v = F(r, "validator")
        out.append((c + [isv(v, "Some")] + validator(some(v))[0], V("Staking", [V("Validator", [S({"validator": Some(validator(some(v))[1])})])])))
        out.append((c + [isv(v, "None")], V("Staking", [V("Validator", [S({"validator": NONE})])])))
        c, r = at(St + "Validators", "staking::v1beta1::QueryValidatorsResponse")
        vs = F(r, "validators")
        out.append((c + [self.forall(vs, lambda x: validator(x)[0])],
                    V("Staking", [V("AllValidators", [S({"validators": [Each(vs, lambda x: validator(x)[1])]})])])))

        def deleg(dr):
            """conversion of a DelegationResponse that carries a delegation"""
            d, bal = some(F(dr, "delegation")), F(dr, "balance")
            ok, cp = self.coin_back(some(bal))
            e_ok, e = self.parse("cosmwasm_std::Uint128", sbytes(b""))
            hb = isv(bal, "Some")
            return z3.If(hb, And(ok), e_ok), S({
                "delegator": F(d, "delegator_address"), "validator": F(d, "validator_address"),
                "amount": Cases([(hb, cp), (Not(hb), S({"denom": "", "amount": e}))])})
        c, r = at(St + "Delegation", "staking::v1beta1::QueryDelegationResponse")
        o = F(r, "delegation_response")
        od = F(some(o), "delegation")
        has = And(isv(o, "Some"), isv(od, "Some"))
        ok, pat = deleg(some(o))
        out.append((c + [has, ok], V("Staking", [V("Delegation", [S({"delegation": Some(pat)})])])))
        out.append((c + [Not(has)], V("Staking", [V("Delegation", [S({"delegation": NONE})])])))
        c, r = at(St + "DelegatorDelegations", "staking::v1beta1::QueryDelegatorDelegationsResponse")
        ds = F(r, "delegation_responses")
        out.append((c + [self.forall(ds, lambda x: [z3.Implies(isv(F(x, "delegation"), "Some"), deleg(x)[0])])],
                    V("Staking", [V("AllDelegations", [S({"delegations": [Each(ds, lambda x: [
                        (isv(F(x, "delegation"), "Some"), [deleg(x)[1]]), (isv(F(x, "delegation"), "None"), [])])]})])])))
        c, r = at(St + "Params", "staking::v1beta1::QueryParamsResponse")
        p = F(r, "params")
        out.append((c + [isv(p, "Some")], V("Staking", [V("BondedDenom", [S({"denom": F(some(p), "bond_denom")})])])))
        return out

    def forall(self, seq, f):
        """Forall over the elements of a symbolic sequence"""
        I = self.I
        if not seq.segs:
            return z3.BoolVal(True)
        if len(seq.segs) != 1 or isinstance(seq.segs[0], Lit):
            if all(isinstance(s, Lit) for s in seq.segs):
                return And(*[c for s in seq.segs for x in s.vals for c in f(x)])
            raise Lost("specification quantifies over a mixed sequence")
        sg = seq.segs[0]
        return Forall(I.seg_len(sg), lambda k: And(*f(I.seg_elem(sg, k))))

    # ------------------------------------------------------------------ channel opening
    def open_init_msg(self, addr, conn, cp_conn, cp_port, ordering, enc=None):
        """pattern of the channel-open message; cp_port and ordering are Option values"""
        return V("Stargate", {"type_url": "/ibc.core.channel.v1.MsgChannelOpenInit", "value": Enc(
            "prost", "channel::v1::MsgChannelOpenInit", S({
                "port_id": z3.Concat(sbytes(b"wasm."), addr),
                "channel": Some(S({
                    "state": 1,
                    "ordering": Cases([(self.isv(ordering, "None"), 2)] + [
                        (And(self.isv(ordering, "Some"), self.isv(self.some(ordering), n)), k) for n, k in (("Unordered", 1), ("Ordered", 2))]),
                    "counterparty": Some(S({"port_id": self.opt_or(cp_port, HOST_PORT), "channel_id": ""})),
                    "connection_hops": [conn],
                    "version": Enc("json", "IcaMetadata", self.fresh_metadata(conn, cp_conn, enc))})),
                "signer": addr}))})

    def fresh_metadata(self, conn, cp_conn, enc=None):
        return S({"version": ICA_VERSION, "controller_connection_id": conn, "host_connection_id": cp_conn,
                  "address": "", "encoding": enc or V("Protobuf"), "tx_type": TX_TYPE})

    def submsg(self, msg):
        """fire-and-forget message"""
        return S({"id": ANY, "payload": ANY, "msg": msg, "gas_limit": NONE, "reply_on": V("Never")}, exact=False)

    def callback_msg(self, addr, payload):
        return self.submsg(V("Wasm", [V("Execute", {"contract_addr": addr, "msg": Enc("json", "ReceiverExecuteMsg", V("ReceiveIcaCallback", [payload])),
                                                   "funds": []})]))
