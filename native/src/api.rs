//! The library functions other contracts build on, against their contracts: parameters as a document, outcome as a document.
use crate::gen::Gen;
use crate::model::{self, b64, bin, st, J};
use crate::pb::Pb;
use cosmwasm_std::testing::{mock_env, MockApi, MockQuerier, MockStorage};
use cosmwasm_std::{
    from_json, instantiate2_address, to_json_binary, Addr, Api, Binary, Checksum, CodeInfoResponse, ContractResult, CosmosMsg, Deps, QuerierWrapper, Storage, SystemError,
    SystemResult, Timestamp, WasmQuery,
};
use cw_ica_controller::helpers::{CwIcaControllerCode, CwIcaControllerContract};
use cw_ica_controller::ibc::types::metadata::{IcaMetadata, TxEncoding};
use cw_ica_controller::ibc::types::packet::{acknowledgement, IcaPacketData};
use cw_ica_controller::ibc::types::stargate::channel::new_ica_channel_open_init_cosmos_msg;
use cw_ica_controller::types::{callbacks, msg};
use prost::Message;
use serde_json::json;

#[cfg(feature = "query")]
const TYPES: &[&str] = &[
    "h_execute", "h_admin", "h_clear", "h_migrate", "h_addr", "h_code", "h_inst", "h_inst2", "h_query", "packet_new", "packet_anys", "packet_msgs", "packet_msgs",
    "packet_send", "ack_data", "ack_at", "open_msg", "callback_msg", "port", "validate", "from_channel", "response_of",
];
#[cfg(not(feature = "query"))]
const TYPES: &[&str] = &[
    "h_execute", "h_admin", "h_clear", "h_migrate", "h_addr", "h_code", "h_inst", "h_inst2", "h_query", "packet_new", "packet_anys", "packet_msgs", "packet_msgs",
    "packet_send", "ack_data", "open_msg", "callback_msg", "port", "validate", "from_channel",
];

pub fn types(prop: &str) -> &'static [&'static str] {
    match prop {
        "C27" => &["h_execute", "h_admin", "h_clear", "h_migrate", "h_addr", "h_code", "h_inst", "h_inst2", "h_query"],
        "C28" => &["packet_new", "packet_anys", "packet_msgs", "packet_send", "ack_data", "ack_at", "open_msg", "callback_msg", "port", "validate", "from_channel", "response_of"],
        "C29" => TYPES,
        _ => &[],
    }
}

fn j<T: serde::de::DeserializeOwned>(v: &J) -> Option<T> {
    from_json(v.to_string()).ok()
}

/// a message with its embedded document spelled out
pub fn open(m: &CosmosMsg) -> J {
    let mut v = serde_json::to_value(m).unwrap();
    if let Some(w) = v.get_mut("wasm").and_then(J::as_object_mut) {
        for (_, x) in w.iter_mut() {
            if x["msg"].is_string() {
                x["msg"] = serde_json::from_slice(&bin(&x["msg"])).unwrap_or(J::Null);
            }
        }
    }
    v
}

fn opts(v: &J) -> Option<String> {
    v.as_str().map(str::to_string)
}

pub fn eval(ty: &str, d: &J) -> Option<Option<J>> {
    let c = CwIcaControllerContract::new(Addr::unchecked(st(&d["addr"])));
    let code = CwIcaControllerCode::new(d["code"].as_u64().unwrap_or(0));
    let tx = |p: &IcaPacketData| json!({"type": p.r#type, "data": b64(&p.data), "memo": p.memo});
    Some((|| match ty {
        "h_execute" => Some(open(&c.execute(j::<msg::ExecuteMsg>(&d["msg"])?).ok()?)),
        "h_admin" => Some(open(&c.update_admin(st(&d["admin"])))),
        "h_clear" => Some(open(&c.clear_admin())),
        "h_migrate" => Some(open(&c.migrate(msg::MigrateMsg {}, d["code"].as_u64()?).ok()?)),
        "h_addr" => Some(json!(c.addr())),
        "h_code" => Some(json!(code.code_id())),
        "h_inst" => Some(open(&code.instantiate(j::<msg::InstantiateMsg>(&d["msg"])?, st(&d["label"]), opts(&d["admin"])).ok()?)),
        "h_inst2" | "h_query" => {
            let mut q: MockQuerier = MockQuerier::default();
            let (id, addr) = (d["code"].as_u64().unwrap_or(0), st(&d["addr"]));
            q.update_wasm(move |r| match r {
                WasmQuery::CodeInfo { code_id } if *code_id == id => {
                    let r = CodeInfoResponse::new(*code_id, Addr::unchecked("x"), Checksum::generate(&code_id.to_be_bytes()));
                    SystemResult::Ok(ContractResult::Ok(to_json_binary(&r).unwrap()))
                }
                WasmQuery::Smart { contract_addr, msg } if *contract_addr == addr => {
                    let m: J = serde_json::from_slice(msg).unwrap();
                    let r = if m == json!({"get_channel": {}}) {
                        json!({"channel": {"endpoint": {"port_id": "p", "channel_id": "c"}, "counterparty_endpoint": {"port_id": "p", "channel_id": "c"},
                            "order": "ORDER_ORDERED", "version": "", "connection_id": "k"}, "channel_status": "STATE_OPEN"})
                    } else if m == json!({"get_contract_state": {}}) {
                        json!({"ica_info": null, "callback_address": "cb"})
                    } else {
                        json!({"owner": "o", "pending_owner": null, "pending_expiry": null})
                    };
                    SystemResult::Ok(ContractResult::Ok(Binary::from(r.to_string().as_bytes())))
                }
                _ => SystemResult::Err(SystemError::UnsupportedRequest { kind: "other".into() }),
            });
            let w = QuerierWrapper::new(&q);
            if ty == "h_query" {
                return match st(&d["kind"]).as_str() {
                    "channel" => c.query(&w).get_channel().ok().map(|v| serde_json::to_value(v).unwrap()),
                    "state" => c.query(&w).get_contract_state().ok().map(|v| serde_json::to_value(v).unwrap()),
                    _ => c.query(&w).ownership().ok().map(|v| serde_json::to_value(v).unwrap()),
                };
            }
            let mut env = mock_env();
            env.contract.address = Addr::unchecked(st(&d["creator"]));
            let (m, a) = code
                .instantiate2(&MockApi::default(), &w, &env, j::<msg::InstantiateMsg>(&d["msg"])?, st(&d["label"]), opts(&d["admin"]), st(&d["salt"]))
                .ok()?;
            Some(json!([open(&m), a]))
        }
        "packet_new" => Some(tx(&IcaPacketData::new(bin(&d["data"]), opts(&d["memo"])))),
        "packet_anys" => {
            let anys = d["anys"].as_array()?.iter().map(|a| cosmos_sdk_proto::Any::decode(bin(a).as_slice()).ok()).collect::<Option<Vec<_>>>()?;
            Some(tx(&IcaPacketData::from_proto_anys(anys, opts(&d["memo"]))))
        }
        "packet_msgs" => {
            #[allow(unused_mut)]
            let mut s = MockStorage::new();
            let ms = d["msgs"].as_array()?.iter().map(j).collect::<Option<Vec<_>>>()?;
            #[cfg(feature = "query")]
            let qs = d["queries"].as_array()?.iter().map(j).collect::<Option<Vec<_>>>()?;
            let e: TxEncoding = j(&d["encoding"])?;
            let p = IcaPacketData::from_cosmos_msgs(
                #[cfg(feature = "full")]
                &mut s,
                ms,
                #[cfg(feature = "query")]
                qs,
                &e,
                opts(&d["memo"]),
                &st(&d["ica"]),
            )
            .ok()?;
            let f: J = s.get(b"pending_query").and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(J::Null);
            Some(json!({"packet": tx(&p), "filed": f}))
        }
        "packet_send" => {
            let mut env = mock_env();
            env.block.time = Timestamp::from_nanos(d["now"].as_u64()?);
            let p = IcaPacketData { r#type: d["type"].as_u64()? as u32, data: bin(&d["data"]), memo: opts(&d["memo"]) };
            let m = p.to_ibc_msg(&env, st(&d["channel"]), d["timeout"].as_u64()).ok()?;
            let mut v = serde_json::to_value(m).unwrap();
            v["send_packet"]["data"] = serde_json::from_slice(&bin(&v["send_packet"]["data"])).unwrap_or(J::Null);
            Some(v)
        }
        "ack_data" | "ack_at" => {
            let a: acknowledgement::Data = j(&d["ack"])?;
            if ty == "ack_data" {
                return Some(json!(b64(&a.to_tx_msg_data().ok()?.encode_to_vec())));
            }
            #[cfg(feature = "query")]
            return Some(json!(b64(&a.decode_module_query_safe_resp(d["index"].as_u64()? as usize).ok()?.encode_to_vec())));
            #[cfg(not(feature = "query"))]
            None
        }
        "open_msg" => {
            let v = open(&new_ica_channel_open_init_cosmos_msg(
                st(&d["addr"]),
                st(&d["conn"]),
                opts(&d["port"]),
                st(&d["cp"]),
                j::<Option<TxEncoding>>(&d["encoding"])?,
                j(&d["order"])?,
            ));
            let (p, ver) = crate::pb::open_parts(&bin(&v["stargate"]["value"]));
            Some(json!({"url": v["stargate"]["type_url"], "parts": format!("{p:?}"), "version": serde_json::from_slice::<J>(&ver).unwrap_or(J::Null)}))
        }
        "callback_msg" => Some(open(&j::<callbacks::IcaControllerCallbackMsg>(&d["msg"])?.into_cosmos_msg(st(&d["addr"])).ok()?)),
        #[cfg(feature = "query")]
        "response_of" => {
            let r = cw_ica_controller::types::query_msg::from_protobuf::response(&st(&d["path"]), &bin(&d["bytes"]), d["star"] == true).ok()?;
            serde_json::to_value(r).ok()
        }
        "port" => Some(json!(j::<msg::options::ChannelOpenInitOptions>(&d["options"])?.counterparty_port_id())),
        "validate" => j::<IcaMetadata>(&d["md"])?.validate(&j(&d["channel"])?).ok().map(|()| json!("valid")),
        "from_channel" => {
            let mut s = MockStorage::new();
            for k in ["ica_channel", "channel_open_init_options"] {
                if d[k].is_object() {
                    s.set(k.as_bytes(), d[k].to_string().as_bytes());
                }
            }
            let q: MockQuerier = MockQuerier::default();
            let api = MockApi::default();
            let deps = Deps { storage: &s, api: &api, querier: QuerierWrapper::new(&q) };
            IcaMetadata::from_channel(deps, &j(&d["channel"])?).ok().map(|m| serde_json::to_value(m).unwrap())
        }
        _ => None,
    })())
}

pub fn case(g: &mut Gen, ty: &str) -> (J, Option<J>) {
    let addr = g.addr();
    match ty {
        "h_execute" => {
            let (m, c) = crate::codec::case(g, "execute");
            let d = json!({"addr": addr, "msg": m});
            (d, c.map(|c| json!({"wasm": {"execute": {"contract_addr": addr, "msg": c, "funds": []}}})))
        }
        "h_admin" => {
            let a = g.s();
            (json!({"addr": addr, "admin": a}), Some(json!({"wasm": {"update_admin": {"contract_addr": addr, "admin": a}}})))
        }
        "h_clear" => (json!({"addr": addr}), Some(json!({"wasm": {"clear_admin": {"contract_addr": addr}}}))),
        "h_migrate" => {
            let n = g.int();
            (json!({"addr": addr, "code": n}), Some(json!({"wasm": {"migrate": {"contract_addr": addr, "new_code_id": n, "msg": {}}}})))
        }
        "h_addr" => (json!({"addr": addr}), Some(json!(addr))),
        "h_code" => {
            let n = g.int();
            (json!({"code": n}), Some(json!(n)))
        }
        "h_inst" | "h_inst2" => {
            let (m, c) = crate::codec::case(g, "instantiate");
            let n = g.int();
            let admin = g.opt(50, |g| json!(g.s()));
            let label = g.s();
            let api = MockApi::default();
            let creator = api.addr_make(["a", "b", "c"][g.n(3)]);
            let mut salt = g.s();
            if salt.len() > 64 {
                salt = salt.chars().take(3).collect();
            }
            let d = json!({"code": n, "msg": m, "label": label, "admin": admin, "creator": creator, "salt": salt});
            let Some(c) = c else { return (d, None) };
            let mut f = json!({"code_id": n, "msg": c, "funds": [], "label": label, "admin": admin});
            if ty == "h_inst" {
                return (d, Some(json!({"wasm": {"instantiate": f}})));
            }
            f["salt"] = json!(b64(salt.as_bytes()));
            let canon = api.addr_canonicalize(creator.as_str()).unwrap();
            let a = instantiate2_address(Checksum::generate(&n.to_be_bytes()).as_slice(), &canon, salt.as_bytes()).ok().and_then(|a| api.addr_humanize(&a).ok());
            (d, a.map(|a| json!([{"wasm": {"instantiate2": f}}, a])))
        }
        "h_query" => {
            let k = ["channel", "state", "ownership"][g.n(3)];
            let v = match k {
                "channel" => json!({"channel": {"endpoint": {"port_id": "p", "channel_id": "c"}, "counterparty_endpoint": {"port_id": "p", "channel_id": "c"},
                            "order": "ORDER_ORDERED", "version": "", "connection_id": "k"}, "channel_status": "STATE_OPEN"}),
                "state" => json!({"ica_info": null, "callback_address": "cb"}),
                _ => json!({"owner": "o", "pending_owner": null, "pending_expiry": null}),
            };
            (json!({"addr": addr, "kind": k}), Some(v))
        }
        "packet_new" => {
            let (b, m) = (g.bin(), g.opt(50, |g| json!(g.s())));
            (json!({"data": b, "memo": m}), Some(json!({"type": 1, "data": b, "memo": m})))
        }
        "packet_anys" => {
            let m = g.opt(50, |g| json!(g.s()));
            let anys: Vec<Pb> = (0..g.n(4)).map(|_| Pb::new().s(1, &g.s()).b(2, &g.bytes())).collect();
            (json!({"anys": anys.iter().map(|a| b64(&a.0)).collect::<Vec<_>>(), "memo": m}), Some(json!({"type": 1, "data": b64(&Pb::new().ms(1, &anys).0), "memo": m})))
        }
        "packet_msgs" => {
            let ms: Vec<J> = (0..g.n(4)).map(|_| g.cosmos_msg()).collect();
            let nq = if cfg!(feature = "query") { g.n(4) } else { 0 };
            let qs: Vec<J> = (0..nq).map(|_| g.query()).collect();
            let (e, m, ica) = (crate::codec::enc(g), g.opt(50, |g| json!(g.s())), g.addr());
            let d = json!({"msgs": ms, "queries": qs, "encoding": e, "memo": m, "ica": ica});
            if ms.iter().any(|m| j::<CosmosMsg>(m).is_none()) || qs.iter().any(|q| j::<cosmwasm_std::QueryRequest<cosmwasm_std::Empty>>(q).is_none()) {
                return (d, None);
            }
            let want = (|| {
                if e != "proto3" {
                    return None;
                }
                let mut p = Pb::new();
                for m in &ms {
                    p = p.item(1, &model::to_any(m, &ica)?);
                }
                let qs = qs.iter().map(model::to_query).collect::<Option<Vec<_>>>()?;
                let mut filed = J::Null;
                if !qs.is_empty() {
                    let reqs: Vec<Pb> = qs.iter().map(|(p, d, _)| Pb::new().s(1, p).b(2, d)).collect();
                    p = p.item(1, &model::any("/ibc.applications.interchain_accounts.host.v1.MsgModuleQuerySafe", &Pb::new().s(1, &ica).ms(2, &reqs).0));
                    filed = if !cfg!(feature = "full") { J::Null } else { json!(qs.iter().map(|(p, _, s)| json!([p, s])).collect::<Vec<_>>()) };
                }
                Some(json!({"packet": {"type": 1, "data": b64(&p.0), "memo": m}, "filed": filed}))
            })();
            (d, want)
        }
        "packet_send" => {
            let (n, t, now) = (g.int() as u32, g.opt(60, |g| json!(g.int())), if g.p(70) { 1_700_000_000_123_456_789 } else { g.int() });
            let (b, m, ch) = (g.bytes(), g.opt(50, |g| json!(g.s())), g.s());
            let d = json!({"type": n, "data": b64(&b), "memo": m, "channel": ch, "timeout": t, "now": now});
            let to = (t.as_u64().unwrap_or(600) as u128) * 1_000_000_000 + now as u128;
            if to > u64::MAX as u128 {
                return (d, None);
            }
            let mut p = json!({"type": n, "data": b});
            if !m.is_null() {
                p["memo"] = m;
            }
            (d, Some(json!({"send_packet": {"channel_id": ch, "data": p, "timeout": {"block": null, "timestamp": (to as u64).to_string()}}})))
        }
        "ack_data" | "ack_at" => {
            if g.p(20) {
                return (json!({"ack": {"error": g.s()}, "index": 0}), None);
            }
            let mut p = Pb::new();
            let k = g.n(4);
            let mut rs = vec![];
            for _ in 0..k {
                let mut r = Pb::new().u(1, g.int());
                for _ in 0..g.n(3) {
                    r = r.item(2, &g.bytes());
                }
                p = p.m(2, &Pb::new().s(1, &g.s()).b(2, &r.0));
                rs.push(r);
            }
            let i = g.n(5);
            let d = json!({"ack": {"result": b64(&p.0)}, "index": i});
            (d, if ty == "ack_data" { Some(json!(b64(&p.0))) } else { rs.get(i).map(|r| json!(b64(&r.0))) })
        }
        "open_msg" => {
            let (conn, cp, port) = (g.s(), g.s(), g.opt(60, |g| json!(g.s())));
            let (e, o) = (g.opt(60, |g| json!(crate::codec::enc(g))), g.opt(60, |g| json!(["ORDER_ORDERED", "ORDER_UNORDERED"][g.n(2)])));
            let d = json!({"addr": addr, "conn": conn, "cp": cp, "port": port, "encoding": e, "order": o});
            let model::Msg::Open(p, mut md) = model::open_msg(
                &addr,
                &json!({"connection_id": conn, "counterparty_connection_id": cp, "counterparty_port_id": port, "channel_ordering": o}),
            ) else {
                unreachable!()
            };
            if !e.is_null() {
                md["encoding"] = e;
            }
            let (wp, _) = crate::pb::open_parts(&p);
            (d, Some(json!({"url": "/ibc.core.channel.v1.MsgChannelOpenInit", "parts": format!("{wp:?}"), "version": md})))
        }
        "callback_msg" => {
            let (m, c) = crate::codec::case(g, "callback");
            (json!({"addr": addr, "msg": m}), Some(json!({"wasm": {"execute": {"contract_addr": addr, "msg": {"receive_ica_callback": c.unwrap_or_default()}, "funds": []}}})))
        }
        "response_of" => {
            let p = if g.p(85) { crate::gen::PATHS[g.n(crate::gen::PATHS.len())].to_string() } else { g.s() };
            let star = g.p(20);
            let (b, v) = g.answer(&p);
            let d = json!({"path": p, "bytes": b64(&b), "star": star});
            if star {
                return (d, Some(json!({"stargate": {"data": b64(&b), "path": p}})));
            }
            let gone = !cfg!(feature = "staking") && p.starts_with("/cosmos.staking");
            (d, if v.is_null() || gone { None } else { Some(v) })
        }
        "port" => {
            let o = g.options();
            let p = o["counterparty_port_id"].as_str().unwrap_or("icahost").to_string();
            (json!({"options": o}), Some(json!(p)))
        }
        "validate" => {
            let ch = g.channel();
            let conn = st(&ch["connection_id"]);
            let Some(md) = model::metadata(&g.metadata(&conn)) else { return (json!({"md": null, "channel": ch}), None) };
            let ok = model::metadata_bad(&md, &ch).is_empty();
            (json!({"md": md, "channel": ch}), ok.then(|| json!("valid")))
        }
        _ => {
            let (ch, o) = (g.channel(), g.opt(80, Gen::options));
            let cs = g.opt(50, |g| json!({"channel": g.channel(), "channel_status": "STATE_CLOSED"}));
            let d = json!({"channel": ch, "channel_open_init_options": o, "ica_channel": cs});
            if let Some(md) = cs["channel"]["version"].as_str().and_then(model::metadata) {
                return (d, Some(md));
            }
            let ok = o.is_object() && o["connection_id"] == ch["connection_id"];
            (d, ok.then(|| model::fresh_metadata(&st(&o["connection_id"]), &st(&o["counterparty_connection_id"]))))
        }
    }
}
