//! Documents of the crate's own types, through the real (de)serialisers: a document must decode, and encode again to
//! its canonical form; the protobuf messages likewise.
use crate::gen::Gen;
use crate::model::J;
use crate::pb::Pb;
use cosmwasm_std::{from_json, to_json_vec};
use cw_ica_controller::ibc::types::{metadata, packet};
#[cfg(feature = "query")]
use cw_ica_controller::types::query_msg;
use cw_ica_controller::types::{callbacks, msg, state};
use prost::Message;
use serde_json::json;

/// what the code makes of a document (None: rejected)
pub fn eval(ty: &str, doc: &J) -> Option<J> {
    fn go<T: serde::Serialize + serde::de::DeserializeOwned>(doc: &J) -> Option<J> {
        let v: T = from_json(doc.to_string()).ok()?;
        let b = to_json_vec(&v).ok()?;
        serde_json::from_slice(&b).ok()
    }
    fn pb<T: Message + Default>(doc: &J) -> Option<J> {
        let b: Vec<u8> = serde_json::from_value(doc.clone()).ok()?;
        Some(json!(T::decode(b.as_slice()).ok()?.encode_to_vec()))
    }
    match ty {
        "packet" => go::<packet::IcaPacketData>(doc),
        "ack" => go::<packet::acknowledgement::Data>(doc),
        "metadata" => go::<metadata::IcaMetadata>(doc),
        "encoding" => go::<metadata::TxEncoding>(doc),
        "callback" => go::<callbacks::IcaControllerCallbackMsg>(doc),
        #[cfg(feature = "query")]
        "result" => go::<query_msg::IcaQueryResult>(doc),
        #[cfg(feature = "query")]
        "response" => go::<query_msg::IcaQueryResponse>(doc),
        "state" => go::<state::ContractState>(doc),
        "channel" => go::<state::ChannelState>(doc),
        "status" => go::<state::ChannelStatus>(doc),
        "options" => go::<msg::options::ChannelOpenInitOptions>(doc),
        "instantiate" => go::<msg::InstantiateMsg>(doc),
        "execute" => go::<msg::ExecuteMsg>(doc),
        "query" => go::<msg::QueryMsg>(doc),
        "pending" => go::<Vec<(String, bool)>>(doc),
        #[cfg(feature = "query")]
        "safe" => pb::<query_msg::proto::MsgModuleQuerySafe>(doc),
        #[cfg(feature = "query")]
        "request" => pb::<query_msg::proto::AbciQueryRequest>(doc),
        #[cfg(feature = "query")]
        "safe_response" => pb::<query_msg::proto::MsgModuleQuerySafeResponse>(doc),
        "wrapped" => from_json::<callbacks::IcaControllerCallbackMsg>(doc.to_string())
            .ok()
            .and_then(|c| c.into_json_binary().ok())
            .and_then(|b| serde_json::from_slice(&b).ok()),
        _ => None,
    }
}

pub fn known(ty: &str) -> bool {
    types("ALL").contains(&ty)
}

pub fn types(prop: &str) -> &'static [&'static str] {
    match prop {
        "C06" => &["metadata", "encoding"],
        "C07" => &["metadata", "encoding", "state", "channel"],
        "C08" => &["channel", "status"],
        "C09" => &["options", "metadata", "encoding"],
        "C10" => &["packet", "safe", "request"],
        "C12" => &["safe", "request"],
        "C13" => &["pending"],
        "C14" => &["safe_response", "result", "response"],
        "C15" => &["result", "response"],
        "C17" => &["ack", "callback", "encoding", "wrapped"],
        "C20" => &["state"],
        "C23" => &["state", "channel", "options"],
        "C24" => &["packet", "metadata", "encoding", "ack", "safe", "request", "safe_response"],
        "C25" => &["instantiate", "execute", "query", "options", "callback", "wrapped", "ack", "encoding", "result", "response"],
        "C26" => &["state", "channel", "status", "options", "pending", "encoding"],
        "C29" => &["packet", "metadata", "encoding", "ack", "callback", "wrapped", "options", "instantiate", "execute", "query", "state", "channel", "status"],
        "ALL" => &[
            "packet", "ack", "metadata", "encoding", "callback", "result", "response", "state", "channel", "status", "options", "instantiate", "execute", "query",
            "pending", "safe", "request", "safe_response", "wrapped",
        ],
        _ => &[],
    }
}

/// (document, canonical document or None when it must be rejected)
pub fn case(g: &mut Gen, ty: &str) -> (J, Option<J>) {
    let same = |d: J| (d.clone(), Some(d));
    match ty {
        "packet" => {
            let mut d = json!({"type": g.int() as u32, "data": g.bytes()});
            if g.p(50) {
                d["memo"] = json!(g.s());
                same(d)
            } else {
                let mut e = d.clone();
                if g.p(50) {
                    e["memo"] = J::Null;
                }
                (e, Some(d))
            }
        }
        "ack" => match g.n(3) {
            0 => same(json!({"result": g.bin()})),
            1 => same(json!({"error": g.s()})),
            _ => (json!({"ok": g.s()}), None),
        },
        "encoding" => {
            let e = ["proto3", "proto3json", "proto2"][g.n(3)];
            (json!(e), if e == "proto2" { None } else { Some(json!(e)) })
        }
        "metadata" => {
            let mut d = json!({"version": g.s(), "controller_connection_id": g.s(), "host_connection_id": g.s(), "address": g.s(),
                "encoding": enc(g), "tx_type": g.s()});
            if g.p(30) {
                let k = d.as_object().unwrap().keys().nth(g.n(6)).unwrap().clone();
                d.as_object_mut().unwrap().remove(&k);
                (d, None)
            } else {
                same(d)
            }
        }
        "status" => same(json!(status(g))),
        "channel" => same(json!({"channel": g.channel(), "channel_status": status(g)})),
        "state" => {
            let info = g.opt(60, |g| json!({"ica_address": g.s(), "channel_id": g.s(), "encoding": enc(g)}));
            let d = json!({"ica_info": info, "callback_address": g.opt(60, |g| json!(g.s()))});
            let mut e = d.clone();
            for k in ["ica_info", "callback_address"] {
                if e[k].is_null() && g.p(50) {
                    e.as_object_mut().unwrap().remove(k);
                }
            }
            if g.p(10) {
                e["zz_unknown"] = json!(1);
            }
            (e, Some(d))
        }
        "options" => options(g),
        "instantiate" => {
            let (o, oc) = options(g);
            let mut d = json!({"channel_open_init_options": o});
            for k in ["owner", "send_callbacks_to"] {
                if g.p(50) {
                    d[k] = json!(g.s());
                }
            }
            let mut c = d.clone();
            let Some(oc) = oc else { return (d, None) };
            c["channel_open_init_options"] = oc;
            if g.p(20) {
                for k in ["owner", "send_callbacks_to"] {
                    if d[k].is_null() {
                        d[k] = J::Null;
                    }
                }
            }
            (d, Some(c))
        }
        "execute" => match g.n(5) {
            0 => {
                if g.p(30) {
                    let d = json!({"create_channel": {}});
                    return (if g.p(50) { d.clone() } else { json!({"create_channel": {"channel_open_init_options": null}}) }, Some(d));
                }
                let (o, c) = options(g);
                (json!({"create_channel": {"channel_open_init_options": o}}), c.map(|c| json!({"create_channel": {"channel_open_init_options": c}})))
            }
            1 => same(json!({"close_channel": {}})),
            2 => {
                let a = g.opt(60, |g| json!(g.s()));
                let d = json!({"update_callback_address": {"callback_address": a}});
                (if a.is_null() && g.p(50) { json!({"update_callback_address": {}}) } else { d.clone() }, Some(d))
            }
            3 if g.p(20) => (json!({"zz_unknown": {}}), None),
            _ => {
                let (mut d, mut c) = (json!({}), json!({}));
                if g.p(10) {
                    return (json!({"send_cosmos_msgs": {"packet_memo": g.s()}}), None);
                }
                if g.p(30) {
                    d["messages"] = J::Null;
                    c["messages"] = json!([]);
                } else {
                    let k = g.n(3);
                    let m: Vec<J> = (0..k).map(|_| json!({"bank": {"send": {"to_address": g.s(), "amount": g.coins()}}})).collect();
                    d["messages"] = json!(m);
                    c["messages"] = json!(m);
                }
                match g.n(3) {
                    0 => d["queries"] = if g.p(50) { J::Null } else { json!([]) },
                    1 => {}
                    _ => {
                        let q = json!([{"bank": {"supply": {"denom": g.s()}}}]);
                        d["queries"] = q.clone();
                        if cfg!(feature = "query") {
                            c["queries"] = q;
                        }
                    }
                }
                if g.p(50) {
                    let m = json!(g.s());
                    d["packet_memo"] = m.clone();
                    c["packet_memo"] = m;
                }
                if g.p(50) {
                    let m = json!(g.int());
                    d["timeout_seconds"] = m.clone();
                    c["timeout_seconds"] = m;
                }
                (json!({"send_cosmos_msgs": d}), Some(json!({"send_cosmos_msgs": c})))
            }
        },
        "query" => {
            let k = ["get_channel", "get_contract_state", "ownership", "zz_unknown"][g.n(4)];
            let d = json!({k: {}});
            (d.clone(), if k == "zz_unknown" { None } else { Some(d) })
        }
        "pending" => same(g.paths()),
        "response" => same(response(g)),
        "result" => same(result(g)),
        "callback" => {
            let c = callback(g);
            (c.clone(), Some(seen(c)))
        }
        "wrapped" => {
            let c = callback(g);
            (c.clone(), Some(json!({"receive_ica_callback": seen(c)})))
        }
        "request" => same(json!(request(g).0)),
        "safe" => {
            let mut p = Pb::new().s(1, &g.s());
            for _ in 0..g.n(3) {
                let r = request(g);
                p = p.m(2, &r);
            }
            same(json!(p.0))
        }
        _ => {
            let mut p = Pb::new().u(1, g.int());
            for _ in 0..g.n(3) {
                p = p.item(2, &g.bytes());
            }
            // repeated fields keep empty elements
            same(json!(p.0))
        }
    }
}

fn request(g: &mut Gen) -> Pb {
    Pb::new().s(1, &g.s()).b(2, &g.bytes())
}

fn status(g: &mut Gen) -> &'static str {
    ["STATE_UNINITIALIZED_UNSPECIFIED", "STATE_INIT", "STATE_TRYOPEN", "STATE_OPEN", "STATE_CLOSED", "STATE_FLUSHING", "STATE_FLUSHCOMPLETE"][g.n(7)]
}

fn options(g: &mut Gen) -> (J, Option<J>) {
    let d = json!({"connection_id": g.s(), "counterparty_connection_id": g.s(), "counterparty_port_id": g.opt(50, |g| json!(g.s())),
        "channel_ordering": g.opt(60, |g| json!(["ORDER_ORDERED", "ORDER_UNORDERED"][g.n(2)]))});
    let mut e = d.clone();
    for k in ["counterparty_port_id", "channel_ordering"] {
        if e[k].is_null() && g.p(50) {
            e.as_object_mut().unwrap().remove(k);
        }
    }
    if g.p(10) {
        let k = ["connection_id", "counterparty_connection_id"][g.n(2)];
        e.as_object_mut().unwrap().remove(k);
        return (e, None);
    }
    (e, Some(d))
}

fn packet(g: &mut Gen) -> J {
    json!({"data": g.bin(), "src": {"port_id": g.s(), "channel_id": g.s()}, "dest": {"port_id": g.s(), "channel_id": g.s()},
        "sequence": g.int(), "timeout": {"block": null, "timestamp": g.int().to_string()}})
}

fn delegation(g: &mut Gen) -> J {
    json!({"delegator": g.s(), "validator": g.s(), "amount": g.coin()})
}

fn response(g: &mut Gen) -> J {
    match g.n(if cfg!(feature = "staking") { 13 } else { 8 }) {
        0 => json!({"bank": {"supply": {"amount": g.coin()}}}),
        1 => json!({"bank": {"balance": {"amount": g.coin()}}}),
        2 => json!({"bank": {"all_balances": {"amount": g.coins()}}}),
        3 => json!({"bank": {"all_denom_metadata": {"metadata": [], "next_key": g.opt(50, |g| g.bin())}}}),
        4 => json!({"stargate": {"data": g.bin(), "path": g.s()}}),
        5 => json!({"wasm": {"contract_info": null}}),
        6 => json!({"wasm": {"raw_contract_state": g.opt(50, |g| g.bin())}}),
        7 => json!({"wasm": {"smart_contract_state": g.bin()}}),
        8 => json!({"staking": {"bonded_denom": {"denom": g.s()}}}),
        9 => json!({"staking": {"all_delegations": {"delegations": (0..g.n(3)).map(|_| delegation(g)).collect::<Vec<_>>()}}}),
        10 => json!({"staking": {"delegation": {"delegation": g.opt(60, delegation)}}}),
        11 => json!({"staking": {"all_validators": {"validators": []}}}),
        _ => json!({"staking": {"validator": {"validator": null}}}),
    }
}

fn result(g: &mut Gen) -> J {
    if g.p(30) {
        return json!({"error": g.s()});
    }
    json!({"success": {"height": g.int(), "responses": (0..g.n(3)).map(|_| response(g)).collect::<Vec<_>>()}})
}

/// a build without queries passes over the query result
pub fn seen(mut c: J) -> J {
    if !cfg!(feature = "query") {
        if let Some(o) = c.pointer_mut("/on_acknowledgement_packet_callback").and_then(J::as_object_mut) {
            o.remove("query_result");
        }
    }
    c
}

fn callback(g: &mut Gen) -> J {
    match g.n(4) {
        0 => json!({"on_timeout_packet_callback": {"original_packet": packet(g), "relayer": g.s()}}),
        1 => json!({"on_channel_open_ack_callback": {"channel": g.channel(), "ica_address": g.s(), "tx_encoding": enc(g)}}),
        k => {
            let a = if g.p(50) { json!({"result": g.bin()}) } else { json!({"error": g.s()}) };
            let mut d = json!({"ica_acknowledgement": a, "original_packet": packet(g), "relayer": g.s()});
            if k == 2 {
                d["query_result"] = result(g);
            }
            json!({"on_acknowledgement_packet_callback": d})
        }
    }
}

pub fn enc(g: &mut Gen) -> &'static str {
    ["proto3", "proto3json"][g.n(2)]
}
