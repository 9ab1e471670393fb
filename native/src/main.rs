//! native PROPERTY SEED SECONDS DICT.json OUT.json   differential search for a failing input
//! native --replay FILE                               run one case again
#[cfg(feature = "typed")]
mod api;
#[cfg(feature = "typed")]
mod codec;
mod example;
mod gen;
mod model;
mod pb;
#[cfg(feature = "typed")]
mod store;

/// without the parts that name the library's own types: only the entry points are called
#[cfg(not(feature = "typed"))]
mod untyped {
    use super::{Gen, J};
    pub fn types(_: &str) -> &'static [&'static str] {
        &[]
    }
    pub fn known(_: &str) -> bool {
        false
    }
    pub mod codec {
        pub use super::{known, types};
        pub fn eval(_: &str, _: &super::J) -> Option<super::J> {
            None
        }
        pub fn case(_: &mut super::Gen, _: &str) -> (super::J, Option<super::J>) {
            unreachable!()
        }
    }
    pub mod api {
        pub use super::types;
        pub fn eval(_: &str, _: &super::J) -> Option<Option<super::J>> {
            None
        }
        pub fn case(_: &mut super::Gen, _: &str) -> (super::J, Option<super::J>) {
            unreachable!()
        }
    }
    pub mod store {
        pub use super::types;
        pub fn eval(_: &super::J) -> Option<super::J> {
            None
        }
        pub fn case(_: &mut super::Gen) -> (super::J, Option<super::J>) {
            unreachable!()
        }
    }
}
#[cfg(not(feature = "typed"))]
use untyped::{api, codec, store};

use cosmwasm_std::testing::{MockQuerier, MockStorage};
use cosmwasm_std::{
    from_json, Addr, Api, CanonicalAddr, Deps, DepsMut, Empty, Env, MessageInfo, Order, QuerierWrapper, RecoverPubkeyError, StdError, StdResult, Storage,
    VerificationError,
};
use gen::Gen;
use model::{b64, bin, st, Msg, J};
use serde_json::json;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

const ITEMS: &[&str] = &[
    "state", "ica_channel", "channel_open_init_options", "allow_channel_open_init", "allow_channel_close_init", "pending_query", "ownership", "contract_info",
];
const ENTRIES: &[&str] = &[
    "instantiate", "execute", "execute", "execute", "reply", "query", "migrate", "ibc_channel_open", "ibc_channel_connect", "ibc_channel_close", "ibc_packet_ack",
    "ibc_packet_ack", "ibc_packet_timeout", "ibc_packet_receive",
];

struct TestApi;
impl Api for TestApi {
    fn addr_validate(&self, s: &str) -> StdResult<Addr> {
        if model::addr_valid(s) {
            Ok(Addr::unchecked(s))
        } else {
            Err(StdError::generic_err("invalid address"))
        }
    }
    fn addr_canonicalize(&self, s: &str) -> StdResult<CanonicalAddr> {
        Ok(s.as_bytes().into())
    }
    fn addr_humanize(&self, c: &CanonicalAddr) -> StdResult<Addr> {
        Ok(Addr::unchecked(String::from_utf8_lossy(c.as_slice())))
    }
    fn secp256k1_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        unimplemented!()
    }
    fn secp256k1_recover_pubkey(&self, _: &[u8], _: &[u8], _: u8) -> Result<Vec<u8>, RecoverPubkeyError> {
        unimplemented!()
    }
    fn ed25519_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        unimplemented!()
    }
    fn ed25519_batch_verify(&self, _: &[&[u8]], _: &[&[u8]], _: &[&[u8]]) -> Result<bool, VerificationError> {
        unimplemented!()
    }
    fn debug(&self, _: &str) {}
}

fn map_key(c: &str, s: u64) -> Vec<u8> {
    let ns = b"pending_queries";
    let mut k = vec![];
    k.extend_from_slice(&(ns.len() as u16).to_be_bytes());
    k.extend_from_slice(ns);
    k.extend_from_slice(&(c.len() as u16).to_be_bytes());
    k.extend_from_slice(c.as_bytes());
    k.extend_from_slice(&s.to_be_bytes());
    k
}

type Map = Vec<(String, u64, J)>;

fn store(pre: &J, map: &Map) -> MockStorage {
    let mut s = MockStorage::new();
    for (k, v) in pre.as_object().unwrap() {
        s.set(k.as_bytes(), v.to_string().as_bytes());
    }
    for (c, q, v) in map {
        s.set(&map_key(c, *q), v.to_string().as_bytes());
    }
    s
}

/// (items, filed queries, unknown keys)
fn read(s: &MockStorage) -> (J, Map, Vec<String>) {
    let mut o = model::obj();
    let mut m = vec![];
    let mut unknown = vec![];
    for (k, v) in s.range(None, None, Order::Ascending) {
        let val: Option<J> = serde_json::from_slice(&v).ok();
        if let (Some(ns), Some(val)) = (ITEMS.iter().find(|i| i.as_bytes() == k.as_slice()), &val) {
            o.insert((*ns).into(), val.clone());
            continue;
        }
        let pre = map_key("", 0);
        if k.len() >= 27 && k[..17] == pre[..17] && val.is_some() {
            let n = u16::from_be_bytes([k[17], k[18]]) as usize;
            if k.len() == 19 + n + 8 {
                let c = String::from_utf8_lossy(&k[19..19 + n]).to_string();
                let q = u64::from_be_bytes(k[19 + n..].try_into().unwrap());
                m.push((c, q, val.unwrap()));
                continue;
            }
        }
        unknown.push(b64(&k));
    }
    (J::Object(o), m, unknown)
}

enum Out {
    Parse(String),
    Reject(String),
    Ok(J),
}

#[cfg(not(feature = "full"))]
fn call(_s: &mut MockStorage, _c: &J) -> Out {
    Out::Parse("a build without entry points".into())
}

#[cfg(feature = "full")]
fn call(s: &mut MockStorage, c: &J) -> Out {
    use cw_ica_controller::{contract as k, ibc::handshake as h, ibc::relay as r};
    let q: MockQuerier<Empty> = MockQuerier::new(&[]);
    let env: Env = match from_json(c["env"].to_string()) {
        Ok(e) => e,
        Err(e) => return Out::Parse(e.to_string()),
    };
    let info = MessageInfo { sender: Addr::unchecked(st(&c["sender"])), funds: vec![] };
    let txt = c["msg"].to_string();
    macro_rules! msg {
        () => {
            match from_json(&txt) {
                Ok(m) => m,
                Err(e) => return Out::Parse(e.to_string()),
            }
        };
    }
    macro_rules! go {
        ($m:ident, $e:expr) => {{
            let $m = msg!();
            let r = catch_unwind(AssertUnwindSafe(|| $e.map(|v| serde_json::to_value(&v).unwrap()).map_err(|e| e.to_string())));
            match r {
                Ok(Ok(v)) => Out::Ok(v),
                Ok(Err(e)) => Out::Reject(e),
                Err(p) => Out::Reject(format!("panic: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
            }
        }};
    }
    macro_rules! d {
        () => {
            DepsMut { storage: s, api: &TestApi, querier: QuerierWrapper::new(&q) }
        };
    }
    match c["entry"].as_str().unwrap() {
        "instantiate" => go!(m, k::instantiate(d!(), env, info, m)),
        "execute" => go!(m, k::execute(d!(), env, info, m)),
        "reply" => go!(m, k::reply(d!(), env, m)),
        "query" => go!(m, k::query(Deps { storage: s, api: &TestApi, querier: QuerierWrapper::new(&q) }, env, m)),
        "migrate" => go!(m, k::migrate(d!(), env, m)),
        "ibc_channel_open" => go!(m, h::ibc_channel_open(d!(), env, m)),
        "ibc_channel_connect" => go!(m, h::ibc_channel_connect(d!(), env, m)),
        "ibc_channel_close" => go!(m, h::ibc_channel_close(d!(), env, m)),
        "ibc_packet_ack" => go!(m, r::ibc_packet_ack(d!(), env, m)),
        "ibc_packet_timeout" => go!(m, r::ibc_packet_timeout(d!(), env, m)),
        _ => go!(m, r::ibc_packet_receive(d!(), env, m)),
    }
}

// ------------------------------------------------------------------------------------------ comparison
#[derive(Clone)]
struct Mis {
    kind: String,
    labels: Vec<&'static str>,
    detail: String,
}

fn mis(v: &mut Vec<Mis>, kind: &str, detail: impl Into<String>) {
    v.push(Mis { kind: kind.into(), labels: vec![], detail: detail.into() });
}

fn differ(v: &mut Vec<Mis>, kind: &str, got: &J, want: &J) {
    if got != want {
        mis(v, kind, format!("got {got}, expected {want}"));
    }
}

fn jtext(b: &J) -> J {
    serde_json::from_slice(&bin(b)).unwrap_or(J::Null)
}

fn msg(v: &mut Vec<Mis>, got: &J, want: &Msg) {
    let reply = matches!(want, Msg::Packet { reply: true, .. });
    let want_sub = if reply { json!([1, "success", null]) } else { json!(["never", null]) };
    let got_sub = if reply { json!([got["id"], got["reply_on"], got["gas_limit"]]) } else { json!([got["reply_on"], got["gas_limit"]]) };
    differ(v, "submsg", &got_sub, &want_sub);
    let m = &got["msg"];
    match want {
        Msg::Open(p, md) => {
            differ(v, "open", &m["stargate"]["type_url"], &json!("/ibc.core.channel.v1.MsgChannelOpenInit"));
            let (gp, ver) = pb::open_parts(&bin(&m["stargate"]["value"]));
            let (wp, _) = pb::open_parts(p);
            if gp != wp {
                mis(v, "open", format!("channel open request: got {gp:?}, expected {wp:?}"));
            }
            differ(v, "open", &serde_json::from_slice(&ver).unwrap_or(J::Null), md);
        }
        Msg::Close(c) => differ(v, "close", m, &json!({"ibc": {"close_channel": {"channel_id": c}}})),
        Msg::Packet { channel, anys, query, memo, timeout, .. } => {
            let p = &m["ibc"]["send_packet"];
            if !p.is_object() {
                return mis(v, "packet", format!("not a packet: {m}"));
            }
            differ(v, "packet", &p["channel_id"], &json!(channel));
            differ(v, "packet", &p["timeout"], &json!({"block": null, "timestamp": timeout.to_string()}));
            let d = jtext(&p["data"]);
            differ(v, "packet", &d["type"], &json!(1));
            if d.get("memo") != memo.as_ref() {
                mis(v, "packet", format!("memo {:?}, expected {memo:?}", d.get("memo")));
            }
            if d.as_object().map(|o| o.len()).unwrap_or(0) != 2 + usize::from(memo.is_some()) {
                mis(v, "packet", "packet fields");
            }
            let raw: Vec<u8> = d["data"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect()).unwrap_or_default();
            let got: Vec<Vec<u8>> = pb::parse(&raw).into_iter().map(|(f, x)| if f == 1 { x } else { vec![] }).collect();
            let n = anys.len() + usize::from(query.is_some());
            if got.len() != n {
                return mis(v, "packet", format!("{} messages in the packet, expected {n}", got.len()));
            }
            for (i, (g, w)) in got.iter().zip(anys).enumerate() {
                if g != w {
                    mis(v, "any", format!("message {i}: got {}, expected {}", b64(g), b64(w)));
                }
            }
            if let Some(q) = query {
                let g = got.last().unwrap();
                if g != q {
                    mis(v, "query", format!("query message: got {}, expected {}", b64(g), b64(q)));
                }
            }
        }
        Msg::Callback { addr, payload, query } => {
            let e = &m["wasm"]["execute"];
            if !e.is_object() {
                return mis(v, "callback", format!("not a contract call: {m}"));
            }
            differ(v, "callback", &e["contract_addr"], &json!(addr));
            differ(v, "callback", &e["funds"], &json!([]));
            let mut p = jtext(&e["msg"]);
            let mut qr = None;
            if let Some(o) = p.pointer_mut("/receive_ica_callback/on_acknowledgement_packet_callback").and_then(J::as_object_mut) {
                qr = o.remove("query_result");
            }
            differ(v, "callback", &p, &json!({"receive_ica_callback": payload}));
            if *query == Some(json!("$skip")) {
            } else if *query == Some(json!({"error": "$any"})) {
                if !qr.as_ref().is_some_and(|q| q["error"].is_string() && q.as_object().unwrap().len() == 1) {
                    mis(v, "query_result", format!("got {qr:?}, expected an error"));
                }
            } else if qr != *query {
                mis(v, "query_result", format!("got {qr:?}, expected {query:?}"));
            }
        }
    }
}

struct Ran {
    beh: String,
    bad: Vec<Mis>,
    accepted: bool,
    post: (J, Map),
    unknown: Vec<String>,
}

fn expect(pre: &J, map: &Map, c: &J) -> model::Res {
    model::run(pre, &|ch, s| map.iter().find(|(a, b, _)| a == ch && *b == s).map(|x| x.2.clone()), c)
}

/// the documented records after an accepted call
fn after(pre: &J, map: &Map, x: &model::Exp) -> (J, Map) {
    let (mut p, mut m) = (pre.clone(), map.clone());
    for (n, v) in &x.items {
        match v {
            Some(v) => p[*n] = v.clone(),
            None => {
                p.as_object_mut().unwrap().remove(*n);
            }
        }
    }
    for ((c, q), val) in &x.map {
        m.retain(|(a, b, _)| !(a == c && b == q));
        if let Some(val) = val {
            m.push((c.clone(), *q, val.clone()));
        }
    }
    (p, m)
}

fn run(pre: &J, map: &Map, c: &J) -> Ran {
    run_on(&mut store(pre, map), pre, map, c, true)
}

/// `documented`: the records are where the documentation says, so they are compared too
fn run_on(s: &mut MockStorage, pre: &J, map: &Map, c: &J, documented: bool) -> Ran {
    let want = expect(pre, map, c);
    let out = call(s, c);
    let mut v = vec![];
    let (items, after, unknown) = read(s);
    let accepted = matches!(out, Out::Ok(_));
    match (&out, &want.out) {
        (Out::Parse(e), _) => mis(&mut v, "parse", e.clone()),
        (Out::Ok(_), Err(l)) => v.push(Mis { kind: "accept".into(), labels: l.clone(), detail: format!("accepted, although it must be rejected ({})", l.join(", ")) }),
        (Out::Reject(e), Ok(_)) => mis(&mut v, "reject", format!("rejected: {e}")),
        (Out::Reject(_), Err(_)) => {}
        (Out::Ok(r), Ok(x)) => {
            if let Some(ms) = &x.msgs {
                let got = r["messages"].as_array().cloned().unwrap_or_default();
                if got.len() != ms.len() {
                    mis(&mut v, "count", format!("{} messages, expected {}", got.len(), ms.len()));
                } else {
                    for (g, w) in got.iter().zip(ms) {
                        msg(&mut v, g, w);
                    }
                }
            }
            if let Some(e) = &x.events {
                differ(&mut v, "events", &r["events"], e);
            }
            if let Some(val) = &x.value {
                let got = if c["entry"] == "query" { jtext(r) } else { serde_json::from_str(r["version"].as_str().unwrap_or("")).unwrap_or(J::Null) };
                differ(&mut v, "value", &got, val);
            }
            if !unknown.is_empty() {
                mis(&mut v, "unknown", format!("stored under keys of no record: {unknown:?}"));
            }
            for ns in ITEMS.iter().filter(|_| documented) {
                let w = x.items.iter().find(|(n, _)| n == ns).map(|(_, v)| v.clone().unwrap_or(J::Null)).unwrap_or_else(|| pre[*ns].clone());
                if items[*ns] != w {
                    let f = |k: &str| items[*ns][k] != w[k];
                    let sub = match *ns {
                        "state" => format!("{}{}", if f("ica_info") { "/ica_info" } else { "" }, if f("callback_address") { "/callback_address" } else { "" }),
                        "ica_channel" => format!("{}{}", if f("channel") { "/channel" } else { "" }, if f("channel_status") { "/channel_status" } else { "" }),
                        _ => String::new(),
                    };
                    mis(&mut v, &format!("item:{ns}{sub}"), format!("stored {ns}: got {}, expected {w}", items[*ns]));
                    if items[*ns].is_null() && !w.is_null() {
                        mis(&mut v, "lost", format!("{ns} is not stored"));
                    }
                }
            }
            let mut wm: Vec<(String, u64, J)> = map.clone();
            for ((c, q), val) in &x.map {
                wm.retain(|(a, b, _)| !(a == c && b == q));
                if let Some(val) = val {
                    wm.push((c.clone(), *q, val.clone()));
                }
            }
            let mut gm = after.clone();
            wm.sort_by(|a, b| (&a.0, a.1).cmp(&(&b.0, b.1)));
            gm.sort_by(|a, b| (&a.0, a.1).cmp(&(&b.0, b.1)));
            if documented && gm != wm {
                mis(&mut v, "map", format!("filed queries: got {gm:?}, expected {wm:?}"));
            }
        }
    }
    // what may be sent at all
    if let Out::Ok(r) = &out {
        for m in r["messages"].as_array().unwrap_or(&vec![]) {
            let (k, x) = model::var(&m["msg"]);
            let (k2, _) = model::var(&x);
            let e = c["entry"].as_str().unwrap();
            let (op, _) = model::var(&c["msg"]);
            let ok = match e {
                "instantiate" => k == "stargate",
                "execute" => matches!((op.as_str(), k.as_str(), k2.as_str()), ("create_channel", "stargate", _) | ("close_channel", "ibc", "close_channel") | ("send_cosmos_msgs", "ibc", "send_packet")),
                "ibc_channel_connect" | "ibc_packet_ack" | "ibc_packet_timeout" => k == "wasm" && k2 == "execute" && x["execute"]["contract_addr"] == pre["state"]["callback_address"] && x["execute"]["funds"] == json!([]),
                _ => false,
            };
            if !ok {
                mis(&mut v, "kind", format!("emitted {}", m["msg"]));
            }
        }
    }
    Ran { beh: want.beh, bad: v, accepted, post: (items, after), unknown }
}

fn relevant(prop: &str, e: &str, beh: &str, pre: &J, m: &Mis) -> bool {
    let k = m.kind.as_str();
    let l = |x: &str| m.labels.contains(&x);
    let ar = k == "accept" || k == "reject";
    let ow = matches!(beh, "TransferOwnership" | "AcceptOwnership" | "RenounceOwnership");
    let send = beh.starts_with("SendCosmosMsgs");
    let open = pre["ica_channel"]["channel_status"] == "STATE_OPEN";
    match prop {
        "C01" => e == "execute" && k == "accept" && (l("owner") || l("pending")),
        "C02" => k == "item:ownership" || (ow && ar),
        "C03" => k == "item:allow_channel_open_init" || (e == "ibc_channel_open" && k == "accept" && l("allow")),
        "C04" => k == "item:allow_channel_close_init" || (e == "ibc_channel_close" && k == "accept" && l("allow")) || (beh == "CloseChannel" && (ar || matches!(k, "close" | "count" | "submsg"))),
        "C05" => {
            (e.starts_with("ibc_channel_") && k == "accept" && l("already-open"))
                || (open && (k.starts_with("item:ica_channel/channel") && !k.starts_with("item:ica_channel/channel_status") || k.starts_with("item:state/ica_info")))
        }
        "C06" => (e == "ibc_channel_open" && (ar || k == "value")) || (e == "ibc_channel_connect" && ar),
        "C07" => k.starts_with("item:state/ica_info") || (e == "ibc_channel_connect" && (k.starts_with("item:ica_channel") || k.starts_with("item:state"))),
        "C08" => k.starts_with("item:ica_channel") || (e == "ibc_channel_close" && ar),
        "C09" => k == "item:channel_open_init_options" || k == "open" || ((e == "instantiate" || beh.starts_with("CreateChannel")) && matches!(k, "count" | "submsg")) || (beh.starts_with("CreateChannel") && k == "reject"),
        "C10" => send && (ar || matches!(k, "packet" | "submsg" | "count" | "kind" | "any" | "query")),
        "C11" => k == "any" || (send && k == "accept" && l("unsupported-msg")) || (beh == "SendCosmosMsgs" && k == "reject"),
        "C12" => k == "query" || (send && k == "accept" && l("unsupported-query")) || (beh == "SendCosmosMsgs with queries" && (k == "reject" || k == "item:pending_query")),
        "C13" => k == "item:pending_query" || (e == "reply" && (ar || k == "map")) || (send && k == "submsg"),
        "C14" => k == "query_result",
        "C15" => k == "query_result" && beh == "success with queries",
        "C16" => k == "map" && e != "reply",
        "C17" => {
            matches!(e, "ibc_channel_connect" | "ibc_packet_ack" | "ibc_packet_timeout") && matches!(k, "callback" | "count" | "submsg")
                || (matches!(e, "ibc_packet_ack" | "ibc_packet_timeout") && ar)
                || (k == "kind" && m.detail.contains("\"wasm\""))
        }
        "C18" => k == "events",
        "C19" => k == "item:contract_info" || (e == "migrate" && (ar || k.starts_with("item:") || k == "map")),
        "C20" => k.starts_with("item:state") && k.contains("/callback_address") || beh == "UpdateCallbackAddress" || (e == "instantiate" && l("callback-addr")),
        "C21" => k == "accept" && (l("receive") || l("open-init") || l("host-port") || l("open-ack") || l("own-port") || l("reply-id")),
        "C22" => k == "kind" || k == "count",
        "C23" => k == "lost" || e == "query" || (e == "instantiate" && (ar || k.starts_with("item:"))),
        "C25" => k == "parse",
        "C33" => k == "unknown",
        "ALL" => true,
        _ => false,
    }
}

/// Random histories from instantiation on, on the storage the code itself keeps: only what callers see is compared.
fn histories(prop: &str, g: &mut Gen, go: &mut dyn FnMut(bool) -> bool) -> Option<J> {
    loop {
        let mut s = MockStorage::new();
        let (mut pre, mut map): (J, Map) = (J::Object(model::obj()), vec![]);
        let mut past: Vec<J> = vec![];
        for i in 0..60 {
            let e = if i == 0 { "instantiate" } else { ENTRIES[1 + g.n(ENTRIES.len() - 1)] };
            let c = g.call(e, &pre, &map);
            let want = expect(&pre, &map, &c);
            let mut tried = MockStorage::new();
            for (k, v) in s.range(None, None, Order::Ascending) {
                tried.set(&k, &v);
            }
            let r = run_on(&mut tried, &pre, &map, &c, false);
            if !go(r.accepted) {
                return None;
            }
            if want.out.is_ok() || !r.bad.is_empty() {
                past.push(c.clone());
            }
            if let Some(m) = r.bad.iter().find(|m| relevant_h(prop, e, &r.beh, &pre, m)) {
                return Some(json!({"case": {"history": past}, "behaviour": r.beh, "kind": m.kind, "what": m.detail}));
            }
            match &want.out {
                Ok(x) if r.accepted => {
                    (pre, map) = after(&pre, &map, x);
                    s = tried;
                }
                Err(_) if !r.accepted => {}
                _ => break,
            }
            if pre.as_object().unwrap().is_empty() {
                break;
            }
        }
    }
}

/// what is kept shows in histories only through later answers
fn relevant_h(prop: &str, e: &str, beh: &str, pre: &J, m: &Mis) -> bool {
    relevant(prop, e, beh, pre, m) || matches!(prop, "C13" | "C16") && m.kind == "query_result" && beh.starts_with("success")
}

fn replay_history(prop: &str, h: &[J]) -> bool {
    let mut s = MockStorage::new();
    let (mut pre, mut map): (J, Map) = (J::Object(model::obj()), vec![]);
    let mut hit = false;
    for (i, c) in h.iter().enumerate() {
        let want = expect(&pre, &map, c);
        let r = run_on(&mut s, &pre, &map, c, false);
        println!("call {}: {c}\n  {}: {}", i + 1, r.beh, if r.accepted { "accepted" } else { "rejected" });
        for m in &r.bad {
            let rel = relevant_h(if prop.is_empty() { "ALL" } else { prop }, c["entry"].as_str().unwrap(), &r.beh, &pre, m);
            hit |= rel;
            println!("  {} {}: {}", if rel { "VIOLATES" } else { "also" }, m.kind, m.detail);
        }
        if let (Ok(x), true) = (&want.out, r.accepted) {
            (pre, map) = after(&pre, &map, x);
        }
    }
    hit
}

// ------------------------------------------------------------------------------------------ layout
/// the records the code keeps must be the ones the states are injected with
fn layout(g: &mut Gen) -> Result<(), String> {
    let mut shapes: std::collections::BTreeMap<String, J> = Default::default();
    for _ in 0..400 {
        let (pre, map) = g.state();
        for (k, v) in pre.as_object().unwrap() {
            shapes.insert(k.clone(), v.clone());
        }
        let e = ENTRIES[g.n(ENTRIES.len())];
        let c = g.call(e, &pre, &map);
        let r = run(&pre, &map, &c);
        if r.accepted {
            if !r.unknown.is_empty() {
                return Err(format!("unknown storage keys {:?}", r.unknown));
            }
            for (k, v) in r.post.0.as_object().unwrap() {
                let w = &shapes.get(k).cloned().unwrap_or(J::Null);
                if let (Some(a), Some(b)) = (v.as_object(), w.as_object()) {
                    if a.keys().collect::<Vec<_>>() != b.keys().collect::<Vec<_>>() {
                        return Err(format!("record {k} has other fields"));
                    }
                }
            }
        }
    }
    Ok(())
}

/// what the code makes of a document (None: it is rejected, with an error or a panic)
fn doc_eval(ty: &str, doc: &J) -> Option<J> {
    catch_unwind(AssertUnwindSafe(|| if ty == "storage" { store::eval(doc) } else if codec::known(ty) { codec::eval(ty, doc) } else if example::known(ty) { example::eval(ty, doc) } else { api::eval(ty, doc).flatten() })).ok().flatten()
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 2 && a[1] == "--replay" {
        let f: J = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
        let w = if f["witness"].is_object() { &f["witness"] } else { &f };
        if w["codec"].is_string() {
            let (ty, got) = (st(&w["codec"]), doc_eval(&st(&w["codec"]), &w["document"]));
            println!("{ty}: document {}\nmust become {}\nbecomes {}", w["document"], w["expected"], json!(got));
            std::process::exit(i32::from(json!(got) != w["expected"]));
        }
        let prop = st(&f["property"]);
        if let Some(h) = w["case"]["history"].as_array() {
            std::process::exit(i32::from(replay_history(&prop, h)));
        }
        let map: Map = serde_json::from_value(w["case"]["map"].clone()).unwrap();
        let c = &w["case"]["call"];
        let r = run(&w["case"]["pre"], &map, c);
        println!("call: {c}\nbehaviour: {}", r.beh);
        let mut hit = false;
        for m in &r.bad {
            let rel = relevant(if prop.is_empty() { "ALL" } else { &prop }, c["entry"].as_str().unwrap(), &r.beh, &w["case"]["pre"], m);
            hit |= rel;
            println!("{} {}: {}", if rel { "VIOLATES" } else { "also" }, m.kind, m.detail);
        }
        std::process::exit(i32::from(hit));
    }
    let (prop, seed, secs) = (a[1].clone(), a[2].parse::<u64>().unwrap_or(1), a[3].parse::<f64>().unwrap_or(10.0));
    let dict: J = serde_json::from_str(&std::fs::read_to_string(&a[4]).unwrap_or_default()).unwrap_or(json!({}));
    let strs: Vec<String> = serde_json::from_value(dict["strs"].clone()).unwrap_or_default();
    let ints: Vec<u64> = serde_json::from_value(dict["ints"].clone()).unwrap_or_default();
    let focus: Vec<String> = serde_json::from_value(dict["entries"].clone()).unwrap_or_default();
    let focus: Vec<&'static str> = ENTRIES.iter().copied().filter(|e| focus.iter().any(|f| f == e)).collect();
    let mut g = Gen::new(seed, strs.clone(), ints.clone());
    let t0 = std::time::Instant::now();
    let mut docs = 0u64;
    let tys: Vec<&str> = codec::types(&prop).iter().chain(api::types(&prop)).chain(example::types(&prop)).chain(store::types(&prop)).copied().collect();
    while !tys.is_empty() && (docs < 60_000 && t0.elapsed().as_secs_f64() < secs / 4.0 || !cfg!(feature = "full") && t0.elapsed().as_secs_f64() < secs) {
        let ty = tys[g.n(tys.len())];
        let (doc, want) = if ty == "storage" { store::case(&mut g) } else if codec::known(ty) { codec::case(&mut g, ty) } else if example::known(ty) { example::case(&mut g, ty) } else { api::case(&mut g, ty) };
        docs += 1;
        let got = doc_eval(ty, &doc);
        if got != want {
            let out = json!({"cases": docs, "documents": docs, "seconds": t0.elapsed().as_secs_f64(),
                "witness": {"codec": ty, "document": doc, "expected": want, "got": got}, "other_differences": {}});
            std::fs::write(&a[5], serde_json::to_string_pretty(&out).unwrap()).unwrap();
            return;
        }
    }
    let lay = if std::env::var("NATIVE_HISTORIES").is_ok() {
        Err("asked for".into())
    } else if cfg!(feature = "full") { layout(&mut g) } else { Err("a build without entry points".into()) };
    let stop = AtomicBool::new(false);
    let cases = AtomicU64::new(0);
    let accepted = AtomicU64::new(0);
    let found: Mutex<Option<J>> = Mutex::new(None);
    let other: Mutex<std::collections::BTreeMap<String, u64>> = Default::default();
    if lay.is_err() && cfg!(feature = "full") {
        // the records are elsewhere: histories only
        std::thread::scope(|sc| {
            for t in 0..8u64 {
                let (strs, ints, prop) = (strs.clone(), ints.clone(), prop.clone());
                let (stop, cases, accepted, found) = (&stop, &cases, &accepted, &found);
                sc.spawn(move || {
                    let mut g = Gen::new(seed.wrapping_mul(1000).wrapping_add(t + 1), strs, ints);
                    let mut go = |ok: bool| {
                        let n = cases.fetch_add(1, Ordering::Relaxed);
                        accepted.fetch_add(u64::from(ok), Ordering::Relaxed);
                        !stop.load(Ordering::Relaxed) && (n % 64 != 0 || t0.elapsed().as_secs_f64() < secs)
                    };
                    if let Some(f) = histories(&prop, &mut g, &mut go) {
                        found.lock().unwrap().get_or_insert(f);
                        stop.store(true, Ordering::Relaxed);
                    }
                    if t0.elapsed().as_secs_f64() >= secs {
                        stop.store(true, Ordering::Relaxed);
                    }
                });
            }
        });
    } else if lay.is_ok() {
        std::thread::scope(|sc| {
            for t in 0..8u64 {
                let (strs, ints, prop) = (strs.clone(), ints.clone(), prop.clone());
                let (stop, cases, accepted, found, other, focus) = (&stop, &cases, &accepted, &found, &other, &focus);
                sc.spawn(move || {
                    let mut g = Gen::new(seed.wrapping_mul(1000).wrapping_add(t + 1), strs, ints);
                    let mut cur = g.state();
                    let mut n = 0u64;
                    while !stop.load(Ordering::Relaxed) {
                        n += 1;
                        if n % 256 == 0 && t0.elapsed().as_secs_f64() > secs {
                            break;
                        }
                        if g.p(40) {
                            cur = g.state();
                        }
                        let e = if !focus.is_empty() && g.p(50) { focus[g.n(focus.len())] } else { ENTRIES[g.n(ENTRIES.len())] };
                        let c = g.call(e, &cur.0, &cur.1);
                        let r = run(&cur.0, &cur.1, &c);
                        cases.fetch_add(1, Ordering::Relaxed);
                        for m in &r.bad {
                            if relevant(&prop, e, &r.beh, &cur.0, m) {
                                let mut f = found.lock().unwrap();
                                if f.is_none() {
                                    *f = Some(json!({"case": {"pre": cur.0, "map": cur.1, "call": c}, "behaviour": r.beh, "kind": m.kind, "what": m.detail}));
                                }
                                stop.store(true, Ordering::Relaxed);
                            } else {
                                *other.lock().unwrap().entry(format!("{e}: {}: {}", r.beh, m.kind)).or_default() += 1;
                            }
                        }
                        if r.accepted {
                            accepted.fetch_add(1, Ordering::Relaxed);
                            if r.unknown.is_empty() && r.bad.is_empty() && e != "query" {
                                cur = r.post;
                            }
                        }
                    }
                });
            }
        });
    }
    let f = found.into_inner().unwrap();
    let out = json!({"cases": cases.into_inner(), "accepted": accepted.into_inner(), "documents": docs, "seconds": t0.elapsed().as_secs_f64(), "layout": lay.err(),
        "witness": f, "other_differences": other.into_inner().unwrap()});
    std::fs::write(&a[5], serde_json::to_string_pretty(&out).unwrap()).unwrap();
}
