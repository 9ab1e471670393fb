//! The contracts that use the library (cw-ica-owner, callback-counter), one call each: store, call and outcome as documents.
use crate::gen::Gen;
use crate::model::J;

pub fn types(prop: &str) -> &'static [&'static str] {
    match prop {
        #[cfg(feature = "owner")]
        "C30" => &["ow_execute", "ow_execute", "ow_execute", "ow_instantiate", "ow_query"],
        #[cfg(feature = "counter")]
        "C31" => &["cc_execute", "cc_execute", "cc_instantiate", "cc_query"],
        _ => &[],
    }
}

pub fn known(ty: &str) -> bool {
    ty.starts_with("ow_") || ty.starts_with("cc_")
}

#[cfg(not(any(feature = "owner", feature = "counter")))]
pub fn eval(_ty: &str, _d: &J) -> Option<J> {
    None
}
#[cfg(not(any(feature = "owner", feature = "counter")))]
pub fn case(_g: &mut Gen, _ty: &str) -> (J, Option<J>) {
    (J::Null, None)
}
#[cfg(any(feature = "owner", feature = "counter"))]
pub use on::{case, eval};

#[cfg(any(feature = "owner", feature = "counter"))]
mod on {
    use super::*;
    use crate::model::{addr_valid, b64, bin, obj, st};
    use cosmwasm_std::testing::{mock_env, MockApi, MockQuerier, MockStorage};
    use cosmwasm_std::{
        from_json, instantiate2_address, to_json_binary, Addr, Api, CanonicalAddr, Checksum, CodeInfoResponse, ContractResult, Deps, DepsMut, MessageInfo, Order,
        QuerierWrapper, RecoverPubkeyError, Response, StdError, StdResult, Storage, SystemError, SystemResult, Timestamp, VerificationError, WasmQuery,
    };
    use serde_json::json;

    /// addresses are valid as in the model and converted as the mock platform does
    struct ExApi(MockApi);
    impl Api for ExApi {
        fn addr_validate(&self, s: &str) -> StdResult<Addr> {
            if addr_valid(s) {
                Ok(Addr::unchecked(s))
            } else {
                Err(StdError::generic_err("invalid address"))
            }
        }
        fn addr_canonicalize(&self, s: &str) -> StdResult<CanonicalAddr> {
            self.0.addr_canonicalize(s)
        }
        fn addr_humanize(&self, c: &CanonicalAddr) -> StdResult<Addr> {
            self.0.addr_humanize(c)
        }
        fn secp256k1_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
            unimplemented!()
        }
        fn secp256k1_recover_pubkey(&self, _: &[u8], _: &[u8], _: u8) -> Result<Vec<u8>, RecoverPubkeyError> {
            unimplemented!()
        }
        fn ed25519_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
            unimplemented!()
        }
        fn ed25519_batch_verify(&self, _: &[&[u8]], _: &[&[u8]], _: &[&[u8]]) -> Result<bool, VerificationError> {
            unimplemented!()
        }
        fn debug(&self, _: &str) {}
    }

    fn pre(ns: &str) -> Vec<u8> {
        let mut k = (ns.len() as u16).to_be_bytes().to_vec();
        k.extend_from_slice(ns.as_bytes());
        k
    }

    const ITEMS: &[&str] = &["state", "ica_count", "callback_counter"];

    fn write(d: &J) -> MockStorage {
        let mut s = MockStorage::new();
        for (k, v) in d.as_object().unwrap() {
            match k.as_str() {
                "ica_states" | "ids" => {
                    for (x, v) in v.as_object().unwrap() {
                        let key = if k == "ids" { [pre("contract_addr_to_ica_id"), x.as_bytes().to_vec()] } else { [pre("ica_states"), x.parse::<u64>().unwrap().to_be_bytes().to_vec()] };
                        s.set(&key.concat(), v.to_string().as_bytes());
                    }
                }
                _ => s.set(k.as_bytes(), v.to_string().as_bytes()),
            }
        }
        s
    }

    fn read(s: &MockStorage) -> J {
        let mut o = obj();
        let (mut a, mut b) = (obj(), obj());
        let (pa, pb) = (pre("ica_states"), pre("contract_addr_to_ica_id"));
        for (k, v) in s.range(None, None, Order::Ascending) {
            let val: J = serde_json::from_slice(&v).unwrap_or_else(|_| json!(b64(&v)));
            if let Some(i) = ITEMS.iter().find(|i| i.as_bytes() == k.as_slice()) {
                o.insert((*i).to_string(), val);
            } else if k.starts_with(&pa) && k.len() == pa.len() + 8 {
                a.insert(u64::from_be_bytes(k[pa.len()..].try_into().unwrap()).to_string(), val);
            } else if k.starts_with(&pb) {
                b.insert(String::from_utf8_lossy(&k[pb.len()..]).to_string(), val);
            } else {
                o.insert(b64(&k), val);
            }
        }
        o.insert("ica_states".into(), J::Object(a));
        o.insert("ids".into(), J::Object(b));
        J::Object(o)
    }

    fn out(s: &MockStorage, r: Response) -> J {
        let msgs: Vec<J> = r.messages.iter().map(|m| json!([m.id, format!("{:?}", m.reply_on), m.gas_limit, b64(&m.payload), crate::api::open(&m.msg)])).collect();
        json!({"msgs": msgs, "store": read(s)})
    }

    fn plain(m: J) -> J {
        json!([0, "Never", null, "", m])
    }

    pub fn eval(ty: &str, d: &J) -> Option<J> {
        let mut s = write(&d["store"]);
        let mut env = mock_env();
        env.contract.address = Addr::unchecked(st(&d["self"]));
        env.block.time = Timestamp::from_nanos(d["nanos"].as_u64()?);
        let info = MessageInfo { sender: Addr::unchecked(st(&d["sender"])), funds: vec![] };
        let mut q: MockQuerier = MockQuerier::default();
        q.update_wasm(|r| match r {
            WasmQuery::CodeInfo { code_id } if *code_id != 13 => {
                let r = CodeInfoResponse::new(*code_id, Addr::unchecked("x"), Checksum::generate(&code_id.to_be_bytes()));
                SystemResult::Ok(ContractResult::Ok(to_json_binary(&r).unwrap()))
            }
            _ => SystemResult::Err(SystemError::UnsupportedRequest { kind: "other".into() }),
        });
        let api = ExApi(MockApi::default());
        let w = QuerierWrapper::new(&q);
        let msg = d["msg"].to_string();
        macro_rules! dm {
            () => {
                DepsMut { storage: &mut s, api: &api, querier: w }
            };
        }
        macro_rules! dq {
            () => {
                Deps { storage: &s, api: &api, querier: w }
            };
        }
        let val = |b: cosmwasm_std::Binary| serde_json::from_slice::<J>(&b).ok();
        match ty {
            #[cfg(feature = "owner")]
            "ow_instantiate" => cw_ica_owner::contract::instantiate(dm!(), env, info, from_json(&msg).ok()?).ok().map(|r| out(&s, r)),
            #[cfg(feature = "owner")]
            "ow_execute" => cw_ica_owner::contract::execute(dm!(), env, info, from_json(&msg).ok()?).ok().map(|r| out(&s, r)),
            #[cfg(feature = "owner")]
            "ow_query" => cw_ica_owner::contract::query(dq!(), env, from_json(&msg).ok()?).ok().and_then(val),
            #[cfg(feature = "counter")]
            "cc_instantiate" => callback_counter::contract::instantiate(dm!(), env, info, from_json(&msg).ok()?).ok().map(|r| out(&s, r)),
            #[cfg(feature = "counter")]
            "cc_execute" => callback_counter::contract::execute(dm!(), env, info, from_json(&msg).ok()?).ok().map(|r| out(&s, r)),
            #[cfg(feature = "counter")]
            "cc_query" => callback_counter::contract::query(dq!(), env, from_json(&msg).ok()?).ok().and_then(val),
            _ => None,
        }
    }

    /// a callback document and what it reads as
    fn callback(g: &mut Gen) -> (J, Option<J>) {
        crate::codec::case(g, "callback")
    }

    pub fn case(g: &mut Gen, ty: &str) -> (J, Option<J>) {
        let api = MockApi::default();
        let me = if g.p(90) { api.addr_make(["a", "b"][g.n(2)]).to_string() } else { g.addr() };
        let nanos = if g.p(50) { g.int() % (1 << 62) } else { 1_700_000_000_123_456_789 };
        let known: Vec<String> = (0..3).map(|i| format!("ica{i}")).collect();
        let admin = g.addr();
        let mut store = obj();
        let code = if g.p(5) { 13 } else { g.int() };
        if ty.starts_with("ow_") {
            if g.p(93) {
                store.insert("state".into(), json!({"admin": admin, "ica_controller_code_id": code}));
            }
            let n = g.n(4) as u64;
            if n > 0 || g.p(50) {
                store.insert("ica_count".into(), json!(if g.p(90) { n } else { g.int() }));
            }
            let (mut a, mut b) = (obj(), obj());
            for i in 0..n {
                let ch = if g.p(50) { json!({"ica_id": i, "ica_addr": g.s(), "tx_encoding": crate::codec::enc(g), "channel_state": {"channel": g.channel(), "channel_status": "STATE_OPEN"}}) } else { J::Null };
                if g.p(95) {
                    a.insert(i.to_string(), json!({"contract_addr": known[i as usize], "ica_state": ch}));
                }
                b.insert(known[i as usize].clone(), json!(i));
            }
            store.insert("ica_states".into(), J::Object(a));
            store.insert("ids".into(), J::Object(b));
        } else {
            if g.p(93) {
                let mut l = |g: &mut Gen| (0..g.n(3)).filter_map(|_| callback(g).1).collect::<Vec<_>>();
                let c = json!({"success": l(g), "error": l(g), "timeout": l(g)});
                store.insert("callback_counter".into(), c);
            }
            store.insert("ica_states".into(), json!({}));
            store.insert("ids".into(), json!({}));
        }
        #[allow(unused_mut)]
        let mut old = J::Object(store.clone());
        let mut sender = if g.p(70) { admin.clone() } else { g.addr() };
        let done = |msgs: Vec<J>, new: &serde_json::Map<String, J>| Some(json!({"msgs": msgs, "store": new}));
        let mut new = store.clone();
        let (msg, want) = match ty {
            "ow_instantiate" => {
                let a = g.opt(60, |g| if g.p(80) { json!(g.addr()) } else { json!(g.s()) });
                let adm = a.as_str().map_or(sender.clone(), str::to_string);
                new.insert("state".into(), json!({"admin": adm, "ica_controller_code_id": code}));
                let ok = a.is_null() || addr_valid(&adm);
                (json!({"admin": a, "ica_controller_code_id": code}), if ok { done(vec![], &new) } else { None })
            }
            "ow_execute" => {
                let auth = old["state"].is_object() && sender == admin;
                match g.n(4) {
                    0 => {
                        let (o, seen) = crate::codec::case(g, "options");
                        let mut salt = g.opt(60, |g| json!(g.s()));
                        if salt.as_str().is_some_and(|s| s.len() > 64) && g.p(90) {
                            salt = json!("s");
                        }
                        let s = salt.as_str().map_or((nanos / 1_000_000_000).to_string(), str::to_string);
                        let n = old["ica_count"].as_u64().unwrap_or(0);
                        let m = json!({"create_ica_contract": {"salt": salt, "channel_open_init_options": o}});
                        let addr = api
                            .addr_canonicalize(&me)
                            .ok()
                            .and_then(|c| instantiate2_address(Checksum::generate(&code.to_be_bytes()).as_slice(), &c, s.as_bytes()).ok())
                            .and_then(|a| api.addr_humanize(&a).ok());
                        match (addr, seen) {
                            (Some(a), Some(seen)) if auth && code != 13 && n < u64::MAX => {
                                new.insert("ica_count".into(), json!(n + 1));
                                new["ica_states"][n.to_string()] = json!({"contract_addr": a, "ica_state": null});
                                new["ids"][a.as_str()] = json!(n);
                                let inst = json!({"owner": me, "send_callbacks_to": me, "channel_open_init_options": seen});
                                let x = json!({"wasm": {"instantiate2": {"admin": me, "code_id": code, "label": format!("icacontroller-{me}-{n}"), "msg": inst, "funds": [], "salt": b64(s.as_bytes())}}});
                                (m, done(vec![plain(x)], &new))
                            }
                            _ => (m, None),
                        }
                    }
                    1 => {
                        let id = if g.p(90) { g.n(4) as u64 } else { g.int() };
                        let to = g.addr();
                        let m = json!({"send_predefined_action": {"ica_id": id, "to_address": to}});
                        let rec = &old["ica_states"][id.to_string()];
                        if !auth || rec.is_null() {
                            (m, None)
                        } else {
                            let inner = json!({"send_cosmos_msgs": {"messages": [{"bank": {"send": {"to_address": to, "amount": [{"denom": "stake", "amount": "100"}]}}}]}});
                            (m, done(vec![plain(json!({"wasm": {"execute": {"contract_addr": rec["contract_addr"], "msg": inner, "funds": []}}}))], &new))
                        }
                    }
                    _ => {
                        if g.p(90) {
                            sender = known[g.n(3)].clone();
                        }
                        let (c, seen) = callback(g);
                        let m = json!({"receive_ica_callback": c});
                        let id = &old["ids"][sender.as_str()];
                        let rec = old["ica_states"][id.to_string()].clone();
                        match seen {
                            Some(seen) if !id.is_null() && rec.is_object() => {
                                let o = &seen["on_channel_open_ack_callback"];
                                if o.is_object() {
                                    let st = json!({"ica_id": id, "ica_addr": o["ica_address"], "tx_encoding": o["tx_encoding"], "channel_state": {"channel": o["channel"], "channel_status": "STATE_OPEN"}});
                                    new["ica_states"][id.to_string()]["ica_state"] = st;
                                }
                                (m, done(vec![], &new))
                            }
                            _ => (m, None),
                        }
                    }
                }
            }
            "ow_query" => {
                let id = g.n(4);
                let (m, v) = [
                    (json!({"get_contract_state": {}}), old["state"].clone()),
                    (json!({"get_ica_contract_state": {"ica_id": id}}), old["ica_states"][id.to_string()].clone()),
                    (json!({"get_ica_count": {}}), old["ica_count"].clone()),
                ][g.n(3)]
                .clone();
                (m, if v.is_null() { None } else { Some(v) })
            }
            "cc_instantiate" => {
                new.insert("callback_counter".into(), json!({"success": [], "error": [], "timeout": []}));
                (json!({}), done(vec![], &new))
            }
            "cc_execute" => {
                let (c, seen) = callback(g);
                let m = json!({"receive_ica_callback": c});
                // the same callback, or one that differs in a member only, may have been counted before
                if let (Some(seen), true, true) = (&seen, old["callback_counter"].is_object(), g.p(30)) {
                    let k = ["success", "error", "timeout"][g.n(3)];
                    let mut x = seen.clone();
                    let body = x.as_object_mut().unwrap().values_mut().next().unwrap();
                    match g.n(3) {
                        0 if body["relayer"].is_string() => body["relayer"] = json!("relayer9"),
                        1 if body["original_packet"].is_object() => body["original_packet"]["sequence"] = json!(g.n(9)),
                        _ => {}
                    }
                    old["callback_counter"][k].as_array_mut().unwrap().push(x);
                    new.insert("callback_counter".into(), old["callback_counter"].clone());
                }
                match seen {
                    Some(seen) => {
                        let a = &seen["on_acknowledgement_packet_callback"];
                        let k = if a["ica_acknowledgement"]["result"].is_string() {
                            "success"
                        } else if a.is_object() {
                            "error"
                        } else if seen["on_timeout_packet_callback"].is_object() {
                            "timeout"
                        } else {
                            ""
                        };
                        if k.is_empty() {
                            (m, done(vec![], &new))
                        } else if old["callback_counter"].is_null() {
                            (m, None)
                        } else {
                            new["callback_counter"][k].as_array_mut().unwrap().push(seen.clone());
                            (m, done(vec![], &new))
                        }
                    }
                    None => (m, None),
                }
            }
            _ => (json!({"get_callback_counter": {}}), if old["callback_counter"].is_null() { None } else { Some(old["callback_counter"].clone()) }),
        };
        let _ = bin;
        (json!({"self": me, "sender": sender, "nanos": nanos, "msg": msg, "store": old}), want)
    }
}
