//! Reference model: what each call must do, on JSON values.  Independent of the implementation: it is written
//! from the property statements, with its own protobuf and JSON layouts.
use crate::pb::Pb;
use base64::{engine::general_purpose::STANDARD as B64, Engine};
use serde_json::{json, Map, Value};

pub type J = Value;

/// expected outcome of an accepted call
#[derive(Default)]
pub struct Exp {
    pub msgs: Option<Vec<Msg>>,
    pub events: Option<J>,
    pub value: Option<J>,
    pub items: Vec<(&'static str, Option<J>)>,
    pub map: Vec<((String, u64), Option<J>)>,
}

pub enum Msg {
    Open(Vec<u8>, J),
    Close(String),
    Packet { channel: String, anys: Vec<Vec<u8>>, query: Option<Vec<u8>>, memo: Option<J>, timeout: u64, reply: bool },
    Callback { addr: String, payload: J, query: Option<J> },
}

pub struct Res {
    pub beh: String,
    pub out: Result<Exp, Vec<&'static str>>,
}

pub fn addr_valid(s: &str) -> bool {
    s.len() >= 3 && s.len() <= 90 && s.bytes().all(|b| b.is_ascii_lowercase() || b.is_ascii_digit()) && s.starts_with('a')
}

pub fn st(v: &J) -> String {
    v.as_str().unwrap_or("").to_string()
}

pub fn bin(v: &J) -> Vec<u8> {
    B64.decode(v.as_str().unwrap_or("")).unwrap_or_default()
}

pub fn b64(b: &[u8]) -> String {
    B64.encode(b)
}

fn opt(v: &J) -> Option<&J> {
    if v.is_null() {
        None
    } else {
        Some(v)
    }
}

/// enum value: (variant, payload)
pub fn var(v: &J) -> (String, J) {
    match v {
        J::String(s) => (s.clone(), J::Null),
        J::Object(m) if m.len() == 1 => {
            let (k, x) = m.iter().next().unwrap();
            (k.clone(), x.clone())
        }
        _ => (String::new(), J::Null),
    }
}

fn nanos(v: &J) -> u64 {
    v.as_str().and_then(|s| s.parse().ok()).or(v.as_u64()).unwrap_or(0)
}

// ------------------------------------------------------------------------------ messages
fn coin(c: &J) -> Pb {
    Pb::new().s(1, &st(&c["denom"])).s(2, &st(&c["amount"]))
}

fn coins(c: &J) -> Vec<Pb> {
    c.as_array().map(|a| a.iter().map(coin).collect()).unwrap_or_default()
}

fn vote(v: &J) -> u64 {
    match v.as_str().unwrap_or("") {
        "yes" => 1,
        "abstain" => 2,
        "no" => 3,
        "no_with_veto" => 4,
        _ => 0,
    }
}

pub fn any(url: &str, v: &[u8]) -> Vec<u8> {
    Pb::new().s(1, url).b(2, v).0
}

/// CosmosMsg (JSON) -> protobuf Any bytes; None: unsupported
pub fn to_any(m: &J, signer: &str) -> Option<Vec<u8>> {
    let (k, x) = var(m);
    let (k2, y) = var(&x);
    let p = match (k.as_str(), k2.as_str()) {
        ("stargate", _) => return Some(any(&st(&x["type_url"]), &bin(&x["value"]))),
        ("bank", "send") => ("cosmos.bank.v1beta1.MsgSend", Pb::new().s(1, signer).s(2, &st(&y["to_address"])).ms(3, &coins(&y["amount"]))),
        ("ibc", "transfer") => {
            let mut p = Pb::new().s(1, "transfer").s(2, &st(&y["channel_id"])).m(3, &coin(&y["amount"])).s(4, signer).s(5, &st(&y["to_address"]));
            if let Some(h) = opt(&y["timeout"]["block"]) {
                p = p.m(6, &Pb::new().u(1, h["revision"].as_u64().unwrap()).u(2, h["height"].as_u64().unwrap()));
            }
            if let Some(t) = opt(&y["timeout"]["timestamp"]) {
                p = p.u(7, nanos(t));
            }
            ("ibc.applications.transfer.v1.MsgTransfer", p.s(8, &st(&y["memo"])))
        }
        ("wasm", "execute") => ("cosmwasm.wasm.v1.MsgExecuteContract", Pb::new().s(1, signer).s(2, &st(&y["contract_addr"])).b(3, &bin(&y["msg"])).ms(5, &coins(&y["funds"]))),
        ("wasm", "instantiate") => (
            "cosmwasm.wasm.v1.MsgInstantiateContract",
            Pb::new().s(1, signer).s(2, &st(&y["admin"])).u(3, y["code_id"].as_u64().unwrap()).s(4, &st(&y["label"])).b(5, &bin(&y["msg"])).ms(6, &coins(&y["funds"])),
        ),
        ("wasm", "instantiate2") => (
            "cosmwasm.wasm.v1.MsgInstantiateContract2",
            Pb::new().s(1, signer).s(2, &st(&y["admin"])).u(3, y["code_id"].as_u64().unwrap()).s(4, &st(&y["label"])).b(5, &bin(&y["msg"])).ms(6, &coins(&y["funds"])).b(7, &bin(&y["salt"])),
        ),
        ("wasm", "migrate") => ("cosmwasm.wasm.v1.MsgMigrateContract", Pb::new().s(1, signer).s(2, &st(&y["contract_addr"])).u(3, y["new_code_id"].as_u64().unwrap()).b(4, &bin(&y["msg"]))),
        ("wasm", "update_admin") => ("cosmwasm.wasm.v1.MsgUpdateAdmin", Pb::new().s(1, signer).s(2, &st(&y["admin"])).s(3, &st(&y["contract_addr"]))),
        ("wasm", "clear_admin") => ("cosmwasm.wasm.v1.MsgClearAdmin", Pb::new().s(1, signer).s(3, &st(&y["contract_addr"]))),
        ("gov", "vote") => ("cosmos.gov.v1beta1.MsgVote", Pb::new().u(1, y["proposal_id"].as_u64().unwrap()).s(2, signer).u(3, vote(&y["option"]))),
        ("gov", "vote_weighted") => {
            let os: Vec<Pb> = y["options"].as_array().unwrap().iter().map(|o| Pb::new().u(1, vote(&o["option"])).s(2, &st(&o["weight"]))).collect();
            ("cosmos.gov.v1.MsgVoteWeighted", Pb::new().u(1, y["proposal_id"].as_u64().unwrap()).s(2, signer).ms(3, &os))
        }
        ("staking", "delegate") => ("cosmos.staking.v1beta1.MsgDelegate", Pb::new().s(1, signer).s(2, &st(&y["validator"])).m(3, &coin(&y["amount"]))),
        ("staking", "undelegate") => ("cosmos.staking.v1beta1.MsgUndelegate", Pb::new().s(1, signer).s(2, &st(&y["validator"])).m(3, &coin(&y["amount"]))),
        ("staking", "redelegate") => (
            "cosmos.staking.v1beta1.MsgBeginRedelegate",
            Pb::new().s(1, signer).s(2, &st(&y["src_validator"])).s(3, &st(&y["dst_validator"])).m(4, &coin(&y["amount"])),
        ),
        ("distribution", "withdraw_delegator_reward") => ("cosmos.distribution.v1beta1.MsgWithdrawDelegatorReward", Pb::new().s(1, signer).s(2, &st(&y["validator"]))),
        ("distribution", "set_withdraw_address") => ("cosmos.distribution.v1beta1.MsgSetWithdrawAddress", Pb::new().s(1, signer).s(2, &st(&y["address"]))),
        ("distribution", "fund_community_pool") => ("cosmos.distribution.v1beta1.MsgFundCommunityPool", Pb::new().ms(1, &coins(&y["amount"])).s(2, signer)),
        _ => return None,
    };
    Some(any(&format!("/{}", p.0), &p.1 .0))
}

/// QueryRequest (JSON) -> (path, request bytes, passthrough); None: unsupported
pub fn to_query(q: &J) -> Option<(String, Vec<u8>, bool)> {
    let (k, x) = var(q);
    if k == "stargate" {
        return Some((st(&x["path"]), bin(&x["data"]), true));
    }
    let (k2, y) = var(&x);
    let b = "/cosmos.bank.v1beta1.Query/";
    let w = "/cosmwasm.wasm.v1.Query/";
    let s = "/cosmos.staking.v1beta1.Query/";
    let (p, r) = match (k.as_str(), k2.as_str()) {
        ("bank", "balance") => (format!("{b}Balance"), Pb::new().s(1, &st(&y["address"])).s(2, &st(&y["denom"]))),
        ("bank", "all_balances") => (format!("{b}AllBalances"), Pb::new().s(1, &st(&y["address"]))),
        ("bank", "denom_metadata") => (format!("{b}DenomMetadata"), Pb::new().s(1, &st(&y["denom"]))),
        ("bank", "all_denom_metadata") => {
            let mut p = Pb::new();
            if let Some(g) = opt(&y["pagination"]) {
                let key = opt(&g["key"]).map(bin).unwrap_or_default();
                p = p.m(1, &Pb::new().b(1, &key).u(3, g["limit"].as_u64().unwrap()).flag(5, g["reverse"].as_bool().unwrap()));
            }
            (format!("{b}DenomsMetadata"), p)
        }
        ("bank", "supply") => (format!("{b}SupplyOf"), Pb::new().s(1, &st(&y["denom"]))),
        ("wasm", "raw") => (format!("{w}RawContractState"), Pb::new().s(1, &st(&y["contract_addr"])).b(2, &bin(&y["key"]))),
        ("wasm", "smart") => (format!("{w}SmartContractState"), Pb::new().s(1, &st(&y["contract_addr"])).b(2, &bin(&y["msg"]))),
        ("wasm", "contract_info") => (format!("{w}ContractInfo"), Pb::new().s(1, &st(&y["contract_addr"]))),
        ("staking", "validator") => (format!("{s}Validator"), Pb::new().s(1, &st(&y["address"]))),
        ("staking", "all_validators") => (format!("{s}Validators"), Pb::new()),
        ("staking", "delegation") => (format!("{s}Delegation"), Pb::new().s(1, &st(&y["delegator"])).s(2, &st(&y["validator"]))),
        ("staking", "all_delegations") => (format!("{s}DelegatorDelegations"), Pb::new().s(1, &st(&y["delegator"]))),
        ("staking", "bonded_denom") => (format!("{s}Params"), Pb::new()),
        _ => return None,
    };
    Some((p, r.0, false))
}

// ------------------------------------------------------------------------------ handshake
pub fn open_msg(addr: &str, o: &J) -> Msg {
    let conn = st(&o["connection_id"]);
    let port = opt(&o["counterparty_port_id"]).map(st).unwrap_or_else(|| "icahost".into());
    let ord = match o["channel_ordering"].as_str() {
        Some("ORDER_UNORDERED") => 1,
        _ => 2,
    };
    // the version (JSON text) is compared on its own
    let ch = Pb::new().u(1, 1).u(2, ord).m(3, &Pb::new().s(1, &port)).item(4, conn.as_bytes());
    let p = Pb::new().s(1, &format!("wasm.{addr}")).m(2, &ch).s(3, addr);
    Msg::Open(p.0, fresh_metadata(&conn, &st(&o["counterparty_connection_id"])))
}

pub fn fresh_metadata(conn: &str, cp: &str) -> J {
    json!({"version": "ics27-1", "controller_connection_id": conn, "host_connection_id": cp, "address": "", "encoding": "proto3", "tx_type": "sdk_multi_msg"})
}

/// metadata text -> value, if it decodes
pub fn metadata(s: &str) -> Option<J> {
    let v: J = serde_json::from_str(s).ok()?;
    let o = v.as_object()?;
    for k in ["version", "controller_connection_id", "host_connection_id", "address", "encoding", "tx_type"] {
        o.get(k)?.as_str()?;
    }
    if !["proto3", "proto3json"].contains(&o["encoding"].as_str()?) {
        return None;
    }
    Some(v)
}

pub fn metadata_bad(md: &J, ch: &J) -> Vec<&'static str> {
    let mut l = vec![];
    if md["version"] != "ics27-1" {
        l.push("md-version");
    }
    if md["controller_connection_id"] != ch["connection_id"] {
        l.push("md-connection");
    }
    if md["encoding"] != "proto3" {
        l.push("md-encoding");
    }
    if md["tx_type"] != "sdk_multi_msg" {
        l.push("md-txtype");
    }
    let a = st(&md["address"]);
    if a.len() > 128 || !a.chars().all(char::is_alphanumeric) {
        l.push("md-address");
    }
    l
}

fn is_open(pre: &J) -> bool {
    pre["ica_channel"]["channel_status"] == "STATE_OPEN"
}

// ------------------------------------------------------------------------------ entries
pub fn run(pre: &J, pend: &dyn Fn(&str, u64) -> Option<J>, call: &J) -> Res {
    let e = call["entry"].as_str().unwrap();
    match e {
        "instantiate" => instantiate(call),
        "execute" => execute(pre, call),
        "reply" => reply(pre, call),
        "query" => query(pre, call),
        "migrate" => migrate(pre),
        "ibc_channel_open" => open(pre, call),
        "ibc_channel_connect" => connect(pre, call),
        "ibc_channel_close" => close(pre, call),
        "ibc_packet_ack" => ack(pre, pend, call),
        "ibc_packet_timeout" => timeout(pre, call),
        _ => res("receive", Err(vec!["receive"])),
    }
}

fn res(b: &str, out: Result<Exp, Vec<&'static str>>) -> Res {
    Res { beh: b.into(), out }
}

fn done(b: &str, bad: Vec<&'static str>, f: impl FnOnce() -> Exp) -> Res {
    if bad.is_empty() {
        res(b, Ok(f()))
    } else {
        res(b, Err(bad))
    }
}

pub fn version() -> &'static str {
    static V: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    V.get_or_init(|| {
        let t = std::fs::read_to_string("/repo/Cargo.toml").unwrap_or_default();
        t.lines().find_map(|l| l.strip_prefix("version = ")).map(|s| s.trim().trim_matches('"').to_string()).unwrap_or_default()
    })
}

fn instantiate(c: &J) -> Res {
    let m = &c["msg"];
    let owner = opt(&m["owner"]).map(st).unwrap_or_else(|| st(&c["sender"]));
    let cb = opt(&m["send_callbacks_to"]);
    let mut bad = vec![];
    if !addr_valid(&owner) {
        bad.push("owner-addr");
    }
    if cb.is_some_and(|a| !addr_valid(&st(a))) {
        bad.push("callback-addr");
    }
    let o = &m["channel_open_init_options"];
    done("instantiate", bad, || Exp {
        msgs: Some(vec![open_msg(&st(&c["env"]["contract"]["address"]), o)]),
        items: vec![
            ("ownership", Some(json!({"owner": owner, "pending_owner": null, "pending_expiry": null}))),
            ("state", Some(json!({"ica_info": null, "callback_address": cb}))),
            ("channel_open_init_options", Some(norm_opts(o))),
            ("allow_channel_open_init", Some(json!(true))),
            ("contract_info", Some(json!({"contract": "crates.io:cw-ica-controller", "version": version()}))),
        ],
        ..Default::default()
    })
}

fn norm_opts(o: &J) -> J {
    json!({"connection_id": o["connection_id"], "counterparty_connection_id": o["counterparty_connection_id"],
        "counterparty_port_id": o["counterparty_port_id"], "channel_ordering": o["channel_ordering"]})
}

fn execute(pre: &J, c: &J) -> Res {
    let (k, x) = var(&c["msg"]);
    let sender = st(&c["sender"]);
    let addr = st(&c["env"]["contract"]["address"]);
    let now = nanos(&c["env"]["block"]["time"]);
    let ow = &pre["ownership"];
    let mut bad = vec![];
    if k != "update_ownership" && ow["owner"].as_str() != Some(&sender) {
        bad.push("owner");
    }
    match k.as_str() {
        "create_channel" => {
            let o = &x["channel_open_init_options"];
            if o.is_null() {
                if pre["channel_open_init_options"].is_null() {
                    bad.push("options");
                }
                return done("CreateChannel with the stored options", bad, || Exp {
                    msgs: Some(vec![open_msg(&addr, &pre["channel_open_init_options"])]),
                    items: vec![("allow_channel_open_init", Some(json!(true)))],
                    ..Default::default()
                });
            }
            done("CreateChannel with options", bad, || Exp {
                msgs: Some(vec![open_msg(&addr, o)]),
                items: vec![("allow_channel_open_init", Some(json!(true))), ("channel_open_init_options", Some(norm_opts(o)))],
                ..Default::default()
            })
        }
        "close_channel" => {
            if !is_open(pre) {
                bad.push("not-open");
            }
            done("CloseChannel", bad, || Exp {
                msgs: Some(vec![Msg::Close(st(&pre["ica_channel"]["channel"]["endpoint"]["channel_id"]))]),
                items: vec![("allow_channel_close_init", Some(json!(true)))],
                ..Default::default()
            })
        }
        "update_callback_address" => {
            let cb = opt(&x["callback_address"]);
            if cb.is_some_and(|a| !addr_valid(&st(a))) {
                bad.push("callback-addr");
            }
            if pre["state"].is_null() {
                bad.push("state");
            }
            done("UpdateCallbackAddress", bad, || {
                let mut s = pre["state"].clone();
                s["callback_address"] = json!(cb);
                Exp { msgs: Some(vec![]), items: vec![("state", Some(s))], ..Default::default() }
            })
        }
        "send_cosmos_msgs" => {
            let ii = &pre["state"]["ica_info"];
            if ii.is_null() {
                bad.push("ica-info");
            } else if ii["encoding"] != "proto3" {
                bad.push("encoding");
            }
            let ica = st(&ii["ica_address"]);
            let none = vec![];
            let ms: Vec<_> = x["messages"].as_array().unwrap_or(&none).iter().map(|m| to_any(m, &ica)).collect();
            let qs: Vec<_> = x["queries"].as_array().unwrap_or(&none).iter().map(to_query).collect();
            if ms.iter().any(Option::is_none) {
                bad.push("unsupported-msg");
            }
            if qs.iter().any(Option::is_none) {
                bad.push("unsupported-query");
            }
            let secs = x["timeout_seconds"].as_u64().unwrap_or(600);
            let to = (secs as u128) * 1_000_000_000 + now as u128;
            if to > u64::MAX as u128 {
                bad.push("timeout-overflow");
            }
            let hasq = !qs.is_empty();
            done(if hasq { "SendCosmosMsgs with queries" } else { "SendCosmosMsgs" }, bad, || {
                let qs: Vec<_> = qs.into_iter().map(Option::unwrap).collect();
                let reqs: Vec<Pb> = qs.iter().map(|(p, d, _)| Pb::new().s(1, p).b(2, d)).collect();
                let query = hasq.then(|| any("/ibc.applications.interchain_accounts.host.v1.MsgModuleQuerySafe", &Pb::new().s(1, &ica).ms(2, &reqs).0));
                Exp {
                    msgs: Some(vec![Msg::Packet {
                        channel: st(&ii["channel_id"]),
                        anys: ms.into_iter().map(Option::unwrap).collect(),
                        query,
                        memo: opt(&x["packet_memo"]).cloned(),
                        timeout: to as u64,
                        reply: hasq,
                    }]),
                    items: if hasq { vec![("pending_query", Some(J::Array(qs.iter().map(|(p, _, s)| json!([p, s])).collect())))] } else { vec![] },
                    ..Default::default()
                }
            })
        }
        "update_ownership" => {
            let (a, y) = var(&x);
            match a.as_str() {
                "transfer_ownership" => {
                    if ow["owner"].as_str() != Some(&sender) {
                        bad.push("owner");
                    }
                    if !addr_valid(&st(&y["new_owner"])) {
                        bad.push("owner-addr");
                    }
                    done("TransferOwnership", bad, || Exp {
                        msgs: Some(vec![]),
                        items: vec![("ownership", Some(json!({"owner": ow["owner"], "pending_owner": y["new_owner"], "pending_expiry": y["expiry"]})))],
                        ..Default::default()
                    })
                }
                "accept_ownership" => {
                    if ow["pending_owner"].as_str() != Some(&sender) {
                        bad.push("pending");
                    }
                    let (k, t) = var(&ow["pending_expiry"]);
                    if (k == "at_height" && c["env"]["block"]["height"].as_u64() >= t.as_u64()) || (k == "at_time" && now >= nanos(&t)) {
                        bad.push("expired");
                    }
                    done("AcceptOwnership", bad, || Exp {
                        msgs: Some(vec![]),
                        items: vec![("ownership", Some(json!({"owner": sender, "pending_owner": null, "pending_expiry": null})))],
                        ..Default::default()
                    })
                }
                _ => res("RenounceOwnership", Err(vec!["renounce"])),
            }
        }
        _ => res("?", Err(vec!["unknown"])),
    }
}

fn reply(pre: &J, c: &J) -> Res {
    let m = &c["msg"];
    let mut bad = vec![];
    if m["id"] != 1 {
        bad.push("reply-id");
    }
    let ok = &m["result"]["ok"];
    if ok.is_null() {
        bad.push("reply-err");
    }
    let ii = &pre["state"]["ica_info"];
    if ii.is_null() {
        bad.push("ica-info");
    }
    if pre["pending_query"].is_null() {
        bad.push("no-query");
    }
    let seq = c["seq"].as_u64().unwrap_or(0);
    done("reply to a query packet", bad, || Exp {
        msgs: Some(vec![]),
        items: vec![("pending_query", None)],
        map: vec![((st(&ii["channel_id"]), seq), Some(pre["pending_query"].clone()))],
        ..Default::default()
    })
}

fn query(pre: &J, c: &J) -> Res {
    let (k, _) = var(&c["msg"]);
    let ns = match k.as_str() {
        "get_contract_state" => "state",
        "get_channel" => "ica_channel",
        _ => "ownership",
    };
    let bad = if pre[ns].is_null() { vec!["absent"] } else { vec![] };
    done(&k, bad, || Exp { value: Some(pre[ns].clone()), ..Default::default() })
}

fn sem(s: &str) -> Option<(u64, u64, u64, bool)> {
    // only versions of the forms x.y.z and x.y.z-pre are generated
    let (core, pre) = match s.split_once('-') {
        Some((c, _)) => (c, true),
        None => (s, false),
    };
    let p: Vec<_> = core.split('.').map(|x| x.parse::<u64>().ok()).collect();
    if p.len() != 3 {
        return None;
    }
    Some((p[0]?, p[1]?, p[2]?, !pre))
}

fn migrate(pre: &J) -> Res {
    let ci = &pre["contract_info"];
    let mut bad = vec![];
    if ci["contract"] != "crates.io:cw-ica-controller" {
        bad.push("contract-name");
    }
    match (sem(&st(&ci["version"])), sem(version())) {
        (Some(a), Some(b)) if a < b => {}
        _ => bad.push("version"),
    }
    if pre["state"].is_null() {
        bad.push("state");
    }
    let ii = &pre["state"]["ica_info"];
    if !ii.is_null() && ii["encoding"] != "proto3" {
        bad.push("encoding");
    }
    done("migrate", bad, || Exp {
        msgs: Some(vec![]),
        items: vec![("contract_info", Some(json!({"contract": "crates.io:cw-ica-controller", "version": version()})))],
        ..Default::default()
    })
}

fn open(pre: &J, c: &J) -> Res {
    let (k, x) = var(&c["msg"]);
    let mut bad = vec![];
    if k != "open_init" {
        return res("open try", Err(vec!["open-init"]));
    }
    let ch = &x["channel"];
    if pre["allow_channel_open_init"] != true {
        bad.push("allow");
    }
    if ch["counterparty_endpoint"]["port_id"] != "icahost" {
        bad.push("host-port");
    }
    if is_open(pre) {
        bad.push("already-open");
    }
    let v = st(&ch["version"]);
    let (beh, md) = if !v.is_empty() {
        ("OpenInit with a proposed version", metadata(&v).ok_or("md-decode").map(|m| {
            bad.extend(metadata_bad(&m, ch));
            m
        }))
    } else if let Some(m) = pre["ica_channel"]["channel"]["version"].as_str().and_then(metadata) {
        bad.extend(metadata_bad(&m, ch));
        ("OpenInit, metadata of the previous channel", Ok(m))
    } else {
        let o = &pre["channel_open_init_options"];
        ("OpenInit, metadata from the stored options", if o.is_null() {
            Err("options")
        } else {
            if o["connection_id"] != ch["connection_id"] {
                bad.push("md-connection");
            }
            Ok(fresh_metadata(&st(&o["connection_id"]), &st(&o["counterparty_connection_id"])))
        })
    };
    if let Err(e) = md {
        bad.push(e);
    }
    done(beh, bad, || Exp { value: Some(md.unwrap()), items: vec![("allow_channel_open_init", Some(json!(false)))], ..Default::default() })
}

fn connect(pre: &J, c: &J) -> Res {
    let (k, x) = var(&c["msg"]);
    if k != "open_ack" {
        return res("open confirm", Err(vec!["open-ack"]));
    }
    let mut bad = vec![];
    let ch = &x["channel"];
    if pre["state"].is_null() {
        bad.push("state");
    }
    if ch["endpoint"]["port_id"] == "icahost" {
        bad.push("own-port");
    }
    if is_open(pre) {
        bad.push("already-open");
    }
    let cv = st(&x["counterparty_version"]);
    let md = metadata(&cv);
    match &md {
        None => bad.push("md-decode"),
        Some(m) => {
            bad.extend(metadata_bad(m, ch));
            if m["address"] == "" {
                bad.push("md-noaddress");
            }
        }
    }
    done("OpenAck", bad, || {
        let md = md.unwrap();
        let mut chan = ch.clone();
        chan["version"] = json!(cv);
        let mut s = pre["state"].clone();
        s["ica_info"] = json!({"ica_address": md["address"], "channel_id": ch["endpoint"]["channel_id"], "encoding": "proto3"});
        Exp {
            msgs: Some(callback(pre, json!({"on_channel_open_ack_callback": {"channel": chan, "ica_address": md["address"], "tx_encoding": "proto3"}}), None)),
            items: vec![("state", Some(s)), ("ica_channel", Some(json!({"channel": chan, "channel_status": "STATE_OPEN"})))],
            ..Default::default()
        }
    })
}

fn callback(pre: &J, payload: J, query: Option<J>) -> Vec<Msg> {
    match opt(&pre["state"]["callback_address"]) {
        Some(a) => vec![Msg::Callback { addr: st(a), payload, query }],
        None => vec![],
    }
}

fn close(pre: &J, c: &J) -> Res {
    let (k, x) = var(&c["msg"]);
    let mut bad = vec![];
    let init = k == "close_init";
    if init && pre["allow_channel_close_init"] != true {
        bad.push("allow");
    }
    if !is_open(pre) {
        bad.push("not-open");
    }
    if pre["ica_channel"]["channel"] != x["channel"] {
        bad.push("other-channel");
    }
    done(if init { "CloseInit" } else { "CloseConfirm" }, bad, || {
        let mut items = vec![("ica_channel", Some(json!({"channel": pre["ica_channel"]["channel"], "channel_status": "STATE_CLOSED"})))];
        if init {
            items.push(("allow_channel_close_init", Some(json!(false))));
        }
        Exp { msgs: Some(vec![]), items, ..Default::default() }
    })
}

fn event(pk: &J, extra: (&str, String)) -> J {
    json!([{"type": "acknowledge_packet", "attributes": [
        {"key": "packet_sequence", "value": pk["sequence"].as_u64().unwrap().to_string()},
        {"key": "packet_src_port", "value": pk["src"]["port_id"]},
        {"key": "packet_src_channel", "value": pk["src"]["channel_id"]},
        {"key": extra.0, "value": extra.1}]}])
}

fn ack(pre: &J, pend: &dyn Fn(&str, u64) -> Option<J>, c: &J) -> Res {
    let m = &c["msg"];
    let pk = &m["original_packet"];
    let (ch, seq) = (st(&pk["src"]["channel_id"]), pk["sequence"].as_u64().unwrap());
    let mut bad = vec![];
    if pre["state"].is_null() {
        bad.push("state");
    }
    let data: J = serde_json::from_slice(&bin(&m["acknowledgement"]["data"])).unwrap_or(J::Null);
    let (k, x) = var(&data);
    let cb = |q: Option<J>, acked: J| {
        callback(pre, json!({"on_acknowledgement_packet_callback": {"ica_acknowledgement": acked, "original_packet": pk, "relayer": m["relayer"]}}), q)
    };
    let map = vec![((ch.clone(), seq), None)];
    match k.as_str() {
        "error" if x.is_string() => done("error acknowledgement", bad, || Exp {
            msgs: Some(cb(Some(json!({"error": x})), json!({"error": x}))),
            events: Some(event(pk, ("error", st(&x)))),
            map,
            ..Default::default()
        }),
        "result" if x.is_string() && B64.decode(st(&x)).is_ok() => {
            let ev = Some(event(pk, ("packet_ack_base64", b64(&bin(&x)))));
            match pend(&ch, seq) {
                None => done("success without queries", bad, || Exp { msgs: Some(cb(None, data.clone())), events: ev, map, ..Default::default() }),
                Some(paths) => {
                    // the generator says what the acknowledgement carries
                    let a = &c["answer"];
                    if a.is_null() {
                        bad.push("no-answer");
                    }
                    done("success with queries", bad, || Exp { msgs: Some(cb(Some(answers(&paths, a)), data.clone())), events: ev, map, ..Default::default() })
                }
            }
        }
        _ => res("undecodable acknowledgement", Err(vec!["ack-decode"])),
    }
}

/// expected query result: {"error": "$any"} or the success value
pub fn answers(paths: &J, a: &J) -> J {
    let ps = paths.as_array().unwrap();
    let rs = a["responses"].as_array().unwrap();
    if ps.len() != rs.len() {
        return json!({"error": "$any"});
    }
    let mut out = vec![];
    for (p, r) in ps.iter().zip(rs) {
        if p[1] == true {
            out.push(json!({"stargate": {"data": r["bytes"], "path": p[0]}}));
            continue;
        }
        // {"bytes": .., "path": the path it is an answer for, "value": expected or null}
        if r["path"] != p[0] {
            return json!("$skip");
        }
        if r["value"].is_null() {
            return json!({"error": "$any"});
        }
        out.push(r["value"].clone());
    }
    json!({"success": {"height": a["height"], "responses": out}})
}

fn timeout(pre: &J, c: &J) -> Res {
    let m = &c["msg"];
    let pk = &m["packet"];
    let mut bad = vec![];
    let cs = &pre["ica_channel"];
    if cs.is_null() {
        bad.push("channel");
    }
    if pre["state"].is_null() {
        bad.push("state");
    }
    let hit = cs["channel"]["order"] == "ORDER_ORDERED" && cs["channel"]["endpoint"]["channel_id"] == pk["src"]["channel_id"];
    done(if hit { "timeout on the ordered channel" } else { "timeout on another or unordered channel" }, bad, || Exp {
        msgs: Some(callback(pre, json!({"on_timeout_packet_callback": {"original_packet": pk, "relayer": m["relayer"]}}), None)),
        items: if hit { vec![("ica_channel", Some(json!({"channel": cs["channel"], "channel_status": "STATE_CLOSED"})))] } else { vec![] },
        map: vec![((st(&pk["src"]["channel_id"]), pk["sequence"].as_u64().unwrap()), None)],
        ..Default::default()
    })
}

pub fn obj() -> Map<String, J> {
    Map::new()
}
