//! Sequences of storage operations on the real records, against a map of documents under the documented keys.
use crate::codec;
use crate::gen::Gen;
use crate::model::{st, J};
use cosmwasm_std::testing::MockStorage;
use cosmwasm_std::{from_json, to_json_vec, Order, Storage};
use cw_ica_controller::types::state::*;
use serde_json::json;

pub fn types(prop: &str) -> &'static [&'static str] {
    if prop == "C33" && cfg!(feature = "full") {
        &["storage"]
    } else {
        &[]
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|c| if c.is_ascii_graphic() { (*c as char).to_string() } else { format!("\\{c:02x}") }).collect()
}

fn filed_key(ch: &str, n: u64) -> Vec<u8> {
    let mut k = vec![];
    for p in [b"pending_queries".as_slice(), ch.as_bytes()] {
        k.extend_from_slice(&(p.len() as u16).to_be_bytes());
        k.extend_from_slice(p);
    }
    k.extend_from_slice(&n.to_be_bytes());
    k
}

const NAMES: &[&str] = &["state", "ica_channel", "channel_open_init_options", "allow_channel_open_init", "allow_channel_close_init", "pending_query", "filed"];

#[cfg(not(feature = "full"))]
pub fn eval(_d: &J) -> Option<J> {
    None
}

#[cfg(feature = "full")]
pub fn eval(d: &J) -> Option<J> {
    let mut s = MockStorage::new();
    let mut seen = vec![];
    macro_rules! item {
        ($c:expr, $op:expr, $v:expr) => {
            match $op {
                "save" => {
                    $c.save(&mut s, &from_json($v.to_string()).ok()?).ok()?;
                    J::Null
                }
                "load" => match $c.load(&s) {
                    Ok(v) => serde_json::from_slice(&to_json_vec(&v).ok()?).ok()?,
                    Err(_) => json!("none"),
                },
                "may_load" => match $c.may_load(&s).ok()? {
                    Some(v) => serde_json::from_slice(&to_json_vec(&v).ok()?).ok()?,
                    None => json!("none"),
                },
                "exists" => json!($c.exists(&s)),
                _ => {
                    $c.remove(&mut s);
                    J::Null
                }
            }
        };
    }
    for o in d.as_array()? {
        let op = st(&o["op"]);
        let op = op.as_str();
        let ch = st(&o["channel"]);
        let n = o["sequence"].as_u64().unwrap_or(0);
        seen.push(match st(&o["record"]).as_str() {
            "state" => item!(STATE, op, o["value"]),
            "ica_channel" => item!(CHANNEL_STATE, op, o["value"]),
            "channel_open_init_options" => item!(CHANNEL_OPEN_INIT_OPTIONS, op, o["value"]),
            "allow_channel_open_init" => item!(ALLOW_CHANNEL_OPEN_INIT, op, o["value"]),
            "allow_channel_close_init" => item!(ALLOW_CHANNEL_CLOSE_INIT, op, o["value"]),
            "pending_query" => item!(QUERY, op, o["value"]),
            _ => {
                let k = (ch.as_str(), n);
                match op {
                    "save" => {
                        PENDING_QUERIES.save(&mut s, k, &from_json(o["value"].to_string()).ok()?).ok()?;
                        J::Null
                    }
                    "load" => match PENDING_QUERIES.load(&s, k) {
                        Ok(v) => json!(v),
                        Err(_) => json!("none"),
                    },
                    "may_load" => PENDING_QUERIES.may_load(&s, k).ok()?.map_or(json!("none"), |v| json!(v)),
                    "exists" => json!(PENDING_QUERIES.has(&s, k)),
                    _ => {
                        PENDING_QUERIES.remove(&mut s, k);
                        J::Null
                    }
                }
            }
        });
    }
    let raw: serde_json::Map<String, J> =
        s.range(None, None, Order::Ascending).map(|(k, v)| (hex(&k), serde_json::from_slice(&v).unwrap_or(json!("not JSON")))).collect();
    Some(json!({"answers": seen, "store": raw}))
}

pub fn case(g: &mut Gen) -> (J, Option<J>) {
    let (mut ops, mut seen) = (vec![], vec![]);
    let mut m = serde_json::Map::new();
    let chans = [g.s(), g.s()];
    let seqs = [g.int(), g.int()];
    for _ in 0..1 + g.n(12) {
        let r = NAMES[g.n(NAMES.len())];
        let op = ["save", "save", "load", "may_load", "exists", "remove"][g.n(6)];
        let mut o = json!({"op": op, "record": r});
        let mut key = r.as_bytes().to_vec();
        if r == "filed" {
            let (c, n) = (&chans[g.n(2)], seqs[g.n(2)]);
            o["channel"] = json!(c);
            o["sequence"] = json!(n);
            key = filed_key(c, n);
        }
        let key = hex(&key);
        seen.push(match op {
            "save" => {
                let (d, v) = match r {
                    "state" => codec::case(g, "state"),
                    "ica_channel" => codec::case(g, "channel"),
                    "channel_open_init_options" => codec::case(g, "options"),
                    "pending_query" | "filed" => {
                        let p = g.paths();
                        (p.clone(), Some(p))
                    }
                    _ => {
                        let b = json!(g.p(50));
                        (b.clone(), Some(b))
                    }
                };
                let Some(v) = v else { continue };
                o["value"] = d;
                m.insert(key, v);
                J::Null
            }
            "remove" => {
                m.remove(&key);
                J::Null
            }
            "exists" => json!(m.contains_key(&key)),
            _ => m.get(&key).cloned().unwrap_or(json!("none")),
        });
        ops.push(o);
    }
    (json!(ops), Some(json!({"answers": seen, "store": m})))
}
