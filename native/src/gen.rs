//! Random states and calls, biased towards accepted calls and towards the constants of the code.
use crate::model::{b64, st, version, J};
use crate::pb::Pb;
use serde_json::json;

pub struct Gen {
    s: u64,
    pub strs: Vec<String>,
    pub ints: Vec<u64>,
}

const ADDRS: &[&str] = &["aowner", "apending", "acallback", "acontract", "arelayer", "aother", "abc", "a1"];
const CHANS: &[&str] = &["channel-0", "channel-1", "channel-12", "channel-7"];
const CONNS: &[&str] = &["connection-0", "connection-1", "connection-42"];
const PORTS: &[&str] = &["icahost", "wasm.acontract", "transfer", "icahost2", "wasm.aother"];
pub const PATHS: &[&str] = &[
    "/cosmos.bank.v1beta1.Query/Balance", "/cosmos.bank.v1beta1.Query/AllBalances", "/cosmos.bank.v1beta1.Query/DenomMetadata",
    "/cosmos.bank.v1beta1.Query/DenomsMetadata", "/cosmos.bank.v1beta1.Query/SupplyOf", "/cosmwasm.wasm.v1.Query/ContractInfo",
    "/cosmwasm.wasm.v1.Query/RawContractState", "/cosmwasm.wasm.v1.Query/SmartContractState", "/cosmos.staking.v1beta1.Query/Validator",
    "/cosmos.staking.v1beta1.Query/Validators", "/cosmos.staking.v1beta1.Query/Delegation",
    "/cosmos.staking.v1beta1.Query/DelegatorDelegations", "/cosmos.staking.v1beta1.Query/Params",
];
const ODD: &[&str] = &["", "/cosmwasm.wasm.v1.Query/Code", "/cosmos.bank.v1beta1.Query/Params", "/x.y.Query/Z", "/cosmos.bank.v1beta1.Query/", "é", "x y", "one: failed\nsecond line", " lead", "trail ", "trailing line\n", "\ttab", "UPPER lower", "x,y;z", "null", "true", "0", "007", "{}", "\"quoted\"", "back\\slash", "\0", "%s", "ı", "ß", "a\r\nb"];

impl Gen {
    pub fn new(seed: u64, strs: Vec<String>, ints: Vec<u64>) -> Self {
        Gen { s: seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1, strs, ints }
    }
    pub fn u(&mut self) -> u64 {
        self.s ^= self.s << 13;
        self.s ^= self.s >> 7;
        self.s ^= self.s << 17;
        self.s.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }
    pub fn n(&mut self, k: usize) -> usize {
        (self.u() >> 11) as usize % k.max(1)
    }
    pub fn p(&mut self, pc: usize) -> bool {
        self.n(100) < pc
    }
    fn of(&mut self, xs: &[&str]) -> String {
        xs[self.n(xs.len())].to_string()
    }
    fn pick(&mut self, xs: &[u64]) -> u64 {
        xs[self.n(xs.len())]
    }
    pub fn int(&mut self) -> u64 {
        match self.n(8) {
            0 => 0,
            1 => 1,
            2 => self.n(20) as u64,
            3 => self.n(100_000) as u64,
            4 => {
                let k = self.n(self.ints.len());
                let d = self.n(3) as u64;
                self.ints.get(k).copied().unwrap_or(600).wrapping_add(d).wrapping_sub(1)
            }
            5 => u64::MAX - self.n(3) as u64,
            6 => 1 << self.n(64),
            _ => self.u(),
        }
    }
    /// any text
    pub fn s(&mut self) -> String {
        match self.n(10) {
            0 => String::new(),
            1 | 2 => {
                let k = self.n(self.strs.len());
                self.strs.get(k).cloned().unwrap_or_default()
            }
            3 => {
                let k = self.n(140);
                (0..k).map(|_| (b'a' + (self.n(26) as u8)) as char).collect()
            }
            4 => self.of(ODD),
            5 => self.of(PORTS),
            6 => self.of(CHANS),
            7 => self.of(CONNS),
            8 => self.of(ADDRS),
            _ => {
                // short texts over characters that something may treat specially
                const C: &[char] = &[
                    'a', 'b', 'Z', '0', '9', '-', '.', '/', ' ', '"', '\\', '\n', '\r', '\t', ',', ':', ';', '=', '_', '+', '%', '\'', '{', '}',
                    '[', ']', '<', '>', '&', '\0', '\u{7f}', '\u{e9}', '\u{2028}', '\u{1f600}', '\u{c9}', '\u{130}',
                ];
                let k = 1 + self.n(6);
                (0..k).map(|_| C[self.n(C.len())]).collect()
            }
        }
    }
    fn like(&mut self, xs: &[&str]) -> String {
        if self.p(92) {
            self.of(xs)
        } else {
            self.s()
        }
    }
    pub fn addr(&mut self) -> String {
        self.like(ADDRS)
    }
    fn chan(&mut self) -> String {
        self.like(CHANS)
    }
    fn conn(&mut self) -> String {
        self.like(CONNS)
    }
    fn port(&mut self) -> String {
        if self.p(60) {
            "icahost".into()
        } else {
            self.like(PORTS)
        }
    }
    pub fn bytes(&mut self) -> Vec<u8> {
        let k = if self.p(20) { 0 } else { self.n(12) };
        (0..k).map(|_| self.u() as u8).collect()
    }
    pub fn bin(&mut self) -> J {
        let b = self.bytes();
        json!(b64(&b))
    }
    pub fn opt(&mut self, pc: usize, f: impl FnOnce(&mut Self) -> J) -> J {
        if self.p(pc) {
            f(self)
        } else {
            J::Null
        }
    }
    fn list(&mut self, max: usize, mut f: impl FnMut(&mut Self) -> J) -> J {
        let k = self.n(max + 1);
        J::Array((0..k).map(|_| f(self)).collect())
    }
    fn amount(&mut self) -> String {
        match self.n(4) {
            0 => "0".into(),
            1 => "340282366920938463463374607431768211455".into(),
            _ => self.int().to_string(),
        }
    }
    pub fn coin(&mut self) -> J {
        json!({"denom": self.like(&["uatom", "stake", "ibc/AB"]), "amount": self.amount()})
    }
    pub fn coins(&mut self) -> J {
        self.list(3, Self::coin)
    }

    // ---------------------------------------------------------------------- state
    pub fn options(&mut self) -> J {
        json!({"connection_id": self.conn(), "counterparty_connection_id": self.conn(),
            "counterparty_port_id": self.opt(50, |g| json!(g.port())),
            "channel_ordering": self.opt(60, |g| json!(g.of(&["ORDER_ORDERED", "ORDER_UNORDERED"])))})
    }
    fn alnum(&mut self) -> String {
        let k = match self.n(6) {
            0 => 0,
            1 => 128,
            2 => 129,
            3 => 127,
            _ => 1 + self.n(50),
        };
        let mut s: String = (0..k).map(|_| *b"abcXYZ019".get(self.n(9)).unwrap() as char).collect();
        if self.p(8) && k > 0 {
            s.pop();
            s.push(['-', '_', ' ', 'é', '.', 'ß'][self.n(6)]);
        }
        s
    }
    pub fn metadata(&mut self, conn: &str) -> String {
        if self.p(6) {
            return ["", "{}", "null", "ics27-1", "{\"version\":\"ics27-1\"}"][self.n(5)].to_string();
        }
        let mut m = json!({"version": "ics27-1", "controller_connection_id": conn, "host_connection_id": self.conn(), "address": self.alnum(),
            "encoding": "proto3", "tx_type": "sdk_multi_msg"});
        if self.p(25) {
            match self.n(6) {
                0 => m["version"] = json!(self.like(&["ics27-2", "ics20-1", ""])),
                1 => m["controller_connection_id"] = json!(self.conn()),
                2 => m["encoding"] = json!(self.of(&["proto3json", "proto3", "json"])),
                3 => m["tx_type"] = json!(self.like(&["sdk_single_msg", ""])),
                4 => m["address"] = json!(self.s()),
                _ => m["host_connection_id"] = json!(self.s()),
            }
        }
        m.to_string()
    }
    pub fn channel(&mut self) -> J {
        let conn = self.conn();
        json!({"endpoint": {"port_id": if self.p(80) { "wasm.acontract".to_string() } else { self.port() }, "channel_id": self.chan()},
            "counterparty_endpoint": {"port_id": if self.p(80) { "icahost".to_string() } else { self.port() }, "channel_id": self.chan()},
            "order": self.of(&["ORDER_ORDERED", "ORDER_UNORDERED"]), "version": self.metadata(&conn), "connection_id": conn})
    }
    pub fn paths(&mut self) -> J {
        self.list(4, |g| {
            let p = if g.p(85) { g.of(PATHS) } else { g.like(ODD) };
            json!([p, g.p(25)])
        })
    }
    fn expiry(&mut self) -> J {
        match self.n(5) {
            0 | 1 => J::Null,
            2 => json!({"never": {}}),
            3 => json!({"at_height": if self.p(70) { 98 + self.n(5) as u64 } else { self.int() }}),
            _ => json!({"at_time": if self.p(70) { (NOW - 2 + self.n(5) as u64).to_string() } else { self.int().to_string() }}),
        }
    }
    /// (items, filed queries)
    pub fn state(&mut self) -> (J, Vec<(String, u64, J)>) {
        let mut o = crate::model::obj();
        let enc = |g: &mut Self| if g.p(90) { "proto3" } else { "proto3json" };
        if self.p(97) {
            o.insert("ownership".into(), json!({"owner": self.opt(95, |g| json!(g.addr())), "pending_owner": self.opt(60, |g| json!(g.addr())), "pending_expiry": self.expiry()}));
        }
        if self.p(97) {
            let ii = self.opt(80, |g| json!({"ica_address": g.like(&["cosmos1ica", "cosmos1xyz", "a"]), "channel_id": g.chan(), "encoding": enc(g)}));
            o.insert("state".into(), json!({"ica_info": ii, "callback_address": self.opt(70, |g| json!(g.addr()))}));
        }
        if self.p(75) {
            o.insert("ica_channel".into(), json!({"channel": self.channel(),
                "channel_status": if self.p(60) { "STATE_OPEN".to_string() } else { self.of(&["STATE_CLOSED", "STATE_CLOSED", "STATE_INIT", "STATE_TRYOPEN", "STATE_UNINITIALIZED_UNSPECIFIED", "STATE_FLUSHING", "STATE_FLUSHCOMPLETE"]) }}));
        }
        if self.p(93) {
            o.insert("channel_open_init_options".into(), self.options());
        }
        for k in ["allow_channel_open_init", "allow_channel_close_init"] {
            if self.p(90) {
                o.insert(k.into(), json!(self.p(70)));
            }
        }
        if self.p(50) {
            o.insert("pending_query".into(), self.paths());
        }
        if self.p(97) {
            let c = if self.p(85) { "crates.io:cw-ica-controller".to_string() } else { self.like(&["crates.io:other", "cw-ica-controller", ""]) };
            o.insert("contract_info".into(), json!({"contract": c, "version": self.version()}));
        }
        let mut m = vec![];
        for _ in 0..self.n(4) {
            let (c, s) = (self.chan(), 1 + self.n(3) as u64);
            if !m.iter().any(|(a, b, _): &(String, u64, J)| *a == c && *b == s) {
                m.push((c, s, self.paths()));
            }
        }
        (J::Object(o), m)
    }
    fn version(&mut self) -> String {
        let c: Vec<u64> = version().split('.').map(|x| x.parse().unwrap_or(0)).collect();
        if c.len() != 3 || self.p(4) {
            return self.like(&["1.0", "x", "", "v1.0.0"]);
        }
        let mut v = [c[0], c[1], c[2]];
        for x in v.iter_mut() {
            match self.n(6) {
                0 => *x = x.wrapping_add(1),
                1 => *x = x.saturating_sub(1),
                2 => *x = self.n(30) as u64,
                _ => {}
            }
        }
        let pre = if self.p(12) { "-alpha.1" } else { "" };
        format!("{}.{}.{}{}", v[0], v[1], v[2], pre)
    }

    // ---------------------------------------------------------------------- calls
    pub fn env(&mut self) -> J {
        let t = if self.p(85) { NOW } else { self.int() };
        json!({"block": {"height": if self.p(85) { 100 } else { self.int() }, "time": t.to_string(), "chain_id": "chain"},
            "transaction": null, "contract": {"address": if self.p(90) { "acontract".to_string() } else { self.addr() }}})
    }
    pub fn cosmos_msg(&mut self) -> J {
        let t = self.s();
        match self.n(21) {
            0 => json!({"stargate": {"type_url": t, "value": self.bin()}}),
            1 => json!({"bank": {"send": {"to_address": t, "amount": self.coins()}}}),
            2 | 3 => json!({"ibc": {"transfer": {"channel_id": self.s(), "to_address": t, "amount": self.coin(),
                "timeout": {"block": self.opt(50, |g| json!({"revision": g.int(), "height": g.int()})), "timestamp": self.opt(50, |g| json!(g.int().to_string()))},
                "memo": self.opt(50, |g| json!(g.s()))}}}),
            4 => json!({"wasm": {"execute": {"contract_addr": t, "msg": self.bin(), "funds": self.coins()}}}),
            5 => json!({"wasm": {"instantiate": {"admin": self.opt(50, |g| json!(g.s())), "code_id": self.int(), "msg": self.bin(), "funds": self.coins(), "label": t}}}),
            6 => json!({"wasm": {"instantiate2": {"admin": self.opt(50, |g| json!(g.s())), "code_id": self.int(), "msg": self.bin(), "funds": self.coins(), "label": t, "salt": self.bin()}}}),
            7 => json!({"wasm": {"migrate": {"contract_addr": t, "new_code_id": self.int(), "msg": self.bin()}}}),
            8 => json!({"wasm": {"update_admin": {"contract_addr": t, "admin": self.s()}}}),
            9 => json!({"wasm": {"clear_admin": {"contract_addr": t}}}),
            10 | 11 => json!({"gov": {"vote": {"proposal_id": self.int(), "option": self.vote()}}}),
            12 | 13 => json!({"gov": {"vote_weighted": {"proposal_id": self.int(), "options": self.list(3, |g| json!({"option": g.vote(), "weight": g.of(&["0.5", "1", "0", "0.25", "340282366920938463463.374607431768211455"])}))}}}),
            14 => json!({"staking": {"delegate": {"validator": t, "amount": self.coin()}}}),
            15 => json!({"staking": {"undelegate": {"validator": t, "amount": self.coin()}}}),
            16 => json!({"staking": {"redelegate": {"src_validator": t, "dst_validator": self.s(), "amount": self.coin()}}}),
            17 => json!({"distribution": {"withdraw_delegator_reward": {"validator": t}}}),
            18 => json!({"distribution": {"set_withdraw_address": {"address": t}}}),
            19 => json!({"distribution": {"fund_community_pool": {"amount": self.coins()}}}),
            _ => {
                if self.p(70) {
                    return json!({"bank": {"send": {"to_address": t, "amount": self.coins()}}});
                }
                match self.n(3) {
                    0 => json!({"bank": {"burn": {"amount": self.coins()}}}),
                    1 => json!({"ibc": {"close_channel": {"channel_id": t}}}),
                    _ => json!({"custom": {}}),
                }
            }
        }
    }
    fn vote(&mut self) -> String {
        self.of(&["yes", "no", "abstain", "no_with_veto"])
    }
    pub fn query(&mut self) -> J {
        let t = self.s();
        match self.n(16) {
            0 => json!({"bank": {"balance": {"address": t, "denom": self.s()}}}),
            1 => json!({"bank": {"all_balances": {"address": t}}}),
            2 => json!({"bank": {"denom_metadata": {"denom": t}}}),
            3 => json!({"bank": {"all_denom_metadata": {"pagination": self.opt(70, |g| json!({"key": g.opt(60, Self::bin), "limit": g.int() as u32, "reverse": g.p(50)}))}}}),
            4 => json!({"bank": {"supply": {"denom": t}}}),
            5 => json!({"wasm": {"raw": {"contract_addr": t, "key": self.bin()}}}),
            6 => json!({"wasm": {"smart": {"contract_addr": t, "msg": self.bin()}}}),
            7 => json!({"wasm": {"contract_info": {"contract_addr": t}}}),
            8 => json!({"staking": {"validator": {"address": t}}}),
            9 => json!({"staking": {"all_validators": {}}}),
            10 => json!({"staking": {"delegation": {"delegator": t, "validator": self.s()}}}),
            11 => json!({"staking": {"all_delegations": {"delegator": t}}}),
            12 => json!({"staking": {"bonded_denom": {}}}),
            13 => {
                if self.p(75) {
                    return json!({"bank": {"supply": {"denom": t}}});
                }
                match self.n(4) {
                    0 => json!({"wasm": {"code_info": {"code_id": self.int()}}}),
                    1 => json!({"ibc": {"port_id": {}}}),
                    2 => json!({"distribution": {"delegator_validators": {"delegator_address": t}}}),
                    _ => json!({"custom": {}}),
                }
            }
            _ => json!({"stargate": {"path": if self.p(50) { self.of(PATHS) } else { t }, "data": self.bin()}}),
        }
    }
    fn seq(&mut self) -> u64 {
        match self.n(5) {
            0 => self.pick(&[10, 11, 12, 21, 22, 111, 121, 212]),
            1 if self.p(30) => self.pick(&[(1 << 32) + 1, (1 << 16) + 2, 257, (1 << 63) + 1]),
            _ => 1 + self.n(4) as u64,
        }
    }
    fn packet(&mut self, pre: &J, map: &[(String, u64, J)]) -> J {
        let (mut c, mut s) = (self.chan(), self.seq());
        if self.p(70) && !map.is_empty() {
            let k = self.n(map.len());
            c = map[k].0.clone();
            s = map[k].1;
            // now and then a packet that differs from the filed one but reads alike
            if self.p(12) {
                match self.n(4) {
                    0 if s >= 10 && c.ends_with(|x: char| x.is_ascii_digit()) => {
                        let t = s.to_string();
                        c.push_str(&t[..1]);
                        s = t[1..].parse().unwrap();
                    }
                    1 if c.len() > 1 && c.ends_with(|x: char| matches!(x, '1'..='9')) => {
                        let t = c.pop().unwrap();
                        s = format!("{t}{s}").parse().unwrap_or(s);
                    }
                    2 => s = s.wrapping_add(self.pick(&[1 << 32, 1 << 16, 1 << 8, 1 << 63])),
                    _ => c = self.chan(),
                }
            }
        } else if self.p(50) {
            if let Some(x) = pre["ica_channel"]["channel"]["endpoint"]["channel_id"].as_str() {
                c = x.to_string();
            }
        }
        if self.p(10) {
            s = self.int();
        }
        json!({"data": self.bin(), "src": {"port_id": self.port(), "channel_id": c}, "dest": {"port_id": self.port(), "channel_id": self.chan()}, "sequence": s,
            "timeout": {"block": self.opt(30, |g| json!({"revision": g.int(), "height": g.int()})), "timestamp": self.opt(70, |g| json!(g.int().to_string()))}})
    }
    pub fn call(&mut self, entry: &str, pre: &J, map: &[(String, u64, J)]) -> J {
        let env = self.env();
        let ow = &pre["ownership"];
        let sender = match self.n(10) {
            0..=6 if ow["owner"].is_string() => st(&ow["owner"]),
            7 if ow["pending_owner"].is_string() => st(&ow["pending_owner"]),
            _ => self.addr(),
        };
        let mut extra = json!({});
        let chan_id = pre["ica_channel"]["channel"].clone();
        let msg = match entry {
            "instantiate" => {
                let mut m = json!({"channel_open_init_options": self.options()});
                if self.p(50) {
                    m["owner"] = self.opt(90, |g| json!(g.addr()));
                }
                if self.p(60) {
                    m["send_callbacks_to"] = self.opt(90, |g| json!(g.addr()));
                }
                m
            }
            "execute" => match self.n(12) {
                0 => json!({"create_channel": {}}),
                1 => json!({"create_channel": {"channel_open_init_options": self.opt(90, Self::options)}}),
                2 => json!({"close_channel": {}}),
                3 => json!({"update_callback_address": {"callback_address": self.opt(80, |g| json!(g.addr()))}}),
                4 => json!({"update_callback_address": {}}),
                5 => json!({"update_ownership": {"transfer_ownership": {"new_owner": self.addr(), "expiry": self.expiry()}}}),
                6 => json!({"update_ownership": "accept_ownership"}),
                7 if self.p(30) => json!({"update_ownership": "renounce_ownership"}),
                k => {
                    let mut m = json!({"messages": self.list(4, Self::cosmos_msg)});
                    if k == 7 && self.p(20) {
                        m["messages"] = J::Null;
                    }
                    if self.p(60) {
                        m["queries"] = self.list(3, Self::query);
                    } else if self.p(10) {
                        m["queries"] = J::Null;
                    }
                    if self.p(50) {
                        m["packet_memo"] = self.opt(90, |g| json!(g.s()));
                    }
                    if self.p(50) {
                        m["timeout_seconds"] = self.opt(90, |g| if g.p(60) { json!(g.n(100_000)) } else { json!(g.int()) });
                    }
                    json!({"send_cosmos_msgs": m})
                }
            },
            "reply" => {
                let seq = if self.p(80) { self.seq() } else { self.int() };
                extra["seq"] = json!(seq);
                let data = Pb::new().u(1, seq).0;
                let res = if self.p(92) {
                    json!({"ok": {"events": [], "data": if seq == 0 && self.p(50) { J::Null } else { json!(b64(&data)) }, "msg_responses": []}})
                } else {
                    json!({"error": self.s()})
                };
                json!({"id": if self.p(90) { 1 } else { self.int() }, "payload": "", "gas_used": 0, "result": res})
            }
            "query" => [json!({"get_channel": {}}), json!({"get_contract_state": {}}), json!({"ownership": {}})][self.n(3)].clone(),
            "migrate" => json!({}),
            "ibc_channel_open" => {
                let mut ch = self.channel();
                if self.p(60) {
                    let c = if self.p(50) { &pre["channel_open_init_options"]["connection_id"] } else { &chan_id["connection_id"] };
                    if c.is_string() {
                        ch["connection_id"] = c.clone();
                    }
                }
                let v = if self.p(45) { String::new() } else { self.metadata(&st(&ch["connection_id"])) };
                ch["version"] = json!(v);
                if self.p(92) {
                    json!({"open_init": {"channel": ch}})
                } else {
                    json!({"open_try": {"channel": ch, "counterparty_version": self.s()}})
                }
            }
            "ibc_channel_connect" => {
                let ch = self.channel();
                let v = self.metadata(&st(&ch["connection_id"]));
                if self.p(92) {
                    json!({"open_ack": {"channel": ch, "counterparty_version": v}})
                } else {
                    json!({"open_confirm": {"channel": ch}})
                }
            }
            "ibc_channel_close" => {
                let mut ch = if self.p(75) && chan_id.is_object() { chan_id } else { self.channel() };
                if self.p(12) {
                    match self.n(4) {
                        0 => ch["version"] = json!(self.s()),
                        1 => ch["endpoint"]["channel_id"] = json!(self.chan()),
                        2 => ch["connection_id"] = json!(self.conn()),
                        _ => ch["order"] = json!(self.of(&["ORDER_ORDERED", "ORDER_UNORDERED"])),
                    }
                }
                let k = self.of(&["close_init", "close_confirm"]);
                json!({ k: {"channel": ch} })
            }
            "ibc_packet_ack" => {
                let pk = self.packet(pre, map);
                let filed = map.iter().find(|(c, s, _)| pk["src"]["channel_id"] == *c && pk["sequence"] == *s).map(|x| x.2.clone());
                let data = match self.n(10) {
                    0 => self.s().into_bytes(),
                    1 | 2 => json!({"error": self.s()}).to_string().into_bytes(),
                    _ => {
                        let (raw, ans) = self.tx_data(filed.unwrap_or(json!([])));
                        extra["answer"] = ans;
                        json!({"result": b64(&raw)}).to_string().into_bytes()
                    }
                };
                json!({"acknowledgement": {"data": b64(&data)}, "original_packet": pk, "relayer": self.addr()})
            }
            "ibc_packet_timeout" => json!({"packet": self.packet(pre, map), "relayer": self.addr()}),
            _ => json!({"packet": self.packet(pre, map), "relayer": self.addr()}),
        };
        let mut c = json!({"entry": entry, "env": env, "sender": sender, "msg": msg});
        for (k, v) in extra.as_object().unwrap() {
            c[k] = v.clone();
        }
        c
    }

    // ---------------------------------------------------------------------- answers
    /// bytes of the transaction result, and what it carries
    fn tx_data(&mut self, paths: J) -> (Vec<u8>, J) {
        if self.p(5) {
            return (vec![0xff, 0xff, 0xff], J::Null);
        }
        let mut resp = vec![];
        for p in paths.as_array().unwrap() {
            let (b, v) = if p[1] == true { (self.bytes(), J::Null) } else { self.answer(&st(&p[0])) };
            resp.push(json!({"bytes": b64(&b), "path": p[0], "value": v}));
        }
        if self.p(6) {
            resp.pop();
        } else if self.p(4) {
            resp.push(json!({"bytes": "", "path": "", "value": null}));
        }
        let height = self.int();
        let mut q = Pb::new().u(1, height);
        for r in &resp {
            q = q.item(2, &crate::model::bin(&r["bytes"]));
        }
        let mut tx = Pb::new();
        let k = self.n(3);
        for _ in 0..k {
            let v = self.bytes();
            tx = tx.m(2, &Pb::new().s(1, "/x.MsgResponse").b(2, &v));
        }
        tx = tx.m(2, &Pb::new().s(1, "/ibc.applications.interchain_accounts.host.v1.MsgModuleQuerySafeResponse").b(2, &q.0));
        (tx.0, json!({"height": height, "responses": resp}))
    }
    fn pcoin(&mut self) -> (Pb, J) {
        let (d, a) = (self.s(), if self.p(93) { self.amount() } else { self.of(&["", "-1", "abc", "1.5"]) });
        let ok = !a.is_empty() && a.bytes().all(|b| b.is_ascii_digit());
        (Pb::new().s(1, &d).s(2, &a), if ok { json!({"denom": d, "amount": a}) } else { J::Null })
    }
    fn pmeta(&mut self) -> (Pb, J) {
        let t: Vec<String> = (0..7).map(|_| self.s()).collect();
        let mut units = vec![];
        let mut uj = vec![];
        for _ in 0..self.n(3) {
            let (d, e, al) = (self.s(), self.int() as u32, self.s());
            units.push(Pb::new().s(1, &d).u(2, e.into()).item(3, al.as_bytes()));
            uj.push(json!({"denom": d, "exponent": e, "aliases": [al]}));
        }
        (
            Pb::new().s(1, &t[0]).ms(2, &units).s(3, &t[1]).s(4, &t[2]).s(5, &t[3]).s(6, &t[4]).s(7, &t[5]).s(8, &t[6]),
            json!({"description": t[0], "denom_units": uj, "base": t[1], "display": t[2], "name": t[3], "symbol": t[4], "uri": t[5], "uri_hash": t[6]}),
        )
    }
    fn pvalidator(&mut self) -> (Pb, J) {
        let a = self.s();
        let r: Vec<String> = (0..3).map(|_| if self.p(93) { self.of(&["0.1", "0.05", "1", "0", "0.000000000000000001"]) } else { self.of(&["", "x"]) }).collect();
        let ok = r.iter().all(|x| x.starts_with(['0', '1']));
        let v = Pb::new().s(1, &a).m(10, &Pb::new().m(1, &Pb::new().s(1, &r[0]).s(2, &r[1]).s(3, &r[2])));
        if self.p(5) {
            return (Pb::new().s(1, &a), J::Null);
        }
        (v, if ok { json!({"address": a, "commission": r[0], "max_commission": r[1], "max_change_rate": r[2]}) } else { J::Null })
    }
    /// delegation response; None: no delegation inside
    fn pdelegation(&mut self) -> (Pb, Option<J>) {
        let (a, b) = (self.s(), self.s());
        let (c, cj) = self.pcoin();
        let bal = self.p(93);
        let del = self.p(90);
        let mut p = Pb::new();
        if del {
            p = p.m(1, &Pb::new().s(1, &a).s(2, &b).s(3, "1000"));
        }
        if bal {
            p = p.m(2, &c);
        }
        let cj = if bal { cj } else { J::Null };
        (p, del.then(|| if cj.is_null() { J::Null } else { json!({"delegator": a, "validator": b, "amount": cj}) }))
    }
    /// answer bytes for a path and the expected value (null: an error)
    pub fn answer(&mut self, path: &str) -> (Vec<u8>, J) {
        if self.p(3) {
            return (vec![0x0a, 0xff], J::Null);
        }
        let all = |v: Vec<J>, f: &dyn Fn(Vec<J>) -> J| if v.iter().any(J::is_null) { J::Null } else { f(v) };
        let zero = json!({"denom": "", "amount": "0"});
        match path.rsplit('/').next().unwrap_or("") {
            _ if !PATHS.contains(&path) => (self.bytes(), J::Null),
            k @ ("Balance" | "SupplyOf") => {
                let (c, j) = self.pcoin();
                let (p, j) = if self.p(8) { (Pb::new(), zero) } else { (Pb::new().m(1, &c), j) };
                let k = if k == "Balance" { "balance" } else { "supply" };
                (p.0, all(vec![j], &|v| json!({"bank": {k: {"amount": v[0]}}})))
            }
            "AllBalances" => {
                let n = self.n(4);
                let cs: Vec<_> = (0..n).map(|_| self.pcoin()).collect();
                let p = cs.iter().fold(Pb::new(), |p, c| p.m(1, &c.0));
                (p.0, all(cs.into_iter().map(|c| c.1).collect(), &|v| json!({"bank": {"all_balances": {"amount": v}}})))
            }
            "DenomMetadata" => {
                let (p, j) = self.pmeta();
                if self.p(8) {
                    let e = json!({"description": "", "denom_units": [], "base": "", "display": "", "name": "", "symbol": "", "uri": "", "uri_hash": ""});
                    return (vec![], json!({"bank": {"denom_metadata": {"metadata": e}}}));
                }
                (Pb::new().m(1, &p).0, json!({"bank": {"denom_metadata": {"metadata": j}}}))
            }
            "DenomsMetadata" => {
                let n = self.n(3);
                let ms: Vec<_> = (0..n).map(|_| self.pmeta()).collect();
                let mut p = ms.iter().fold(Pb::new(), |p, c| p.m(1, &c.0));
                let mut nk = J::Null;
                if self.p(60) {
                    let b = self.bytes();
                    p = p.m(2, &Pb::new().b(1, &b).u(2, self.int()));
                    nk = json!(b64(&b));
                }
                (p.0, json!({"bank": {"all_denom_metadata": {"metadata": ms.into_iter().map(|m| m.1).collect::<Vec<_>>(), "next_key": nk}}}))
            }
            "ContractInfo" => {
                if self.p(10) {
                    return (Pb::new().s(1, &self.s()).0, json!({"wasm": {"contract_info": null}}));
                }
                let (id, c, a, l, ip) = (self.int(), self.s(), if self.p(40) { String::new() } else { self.s() }, self.s(), if self.p(40) { String::new() } else { self.s() });
                let p = Pb::new().s(1, "addr").m(2, &Pb::new().u(1, id).s(2, &c).s(3, &a).s(4, &l).s(6, &ip));
                let o = |s: &str| if s.is_empty() { J::Null } else { json!(s) };
                (p.0, json!({"wasm": {"contract_info": {"code_id": id, "creator": c, "admin": o(&a), "pinned": false, "ibc_port": o(&ip)}}}))
            }
            "RawContractState" => {
                let b = self.bytes();
                (Pb::new().b(1, &b).0, json!({"wasm": {"raw_contract_state": if b.is_empty() { J::Null } else { json!(b64(&b)) }}}))
            }
            "SmartContractState" => {
                let b = self.bytes();
                (Pb::new().b(1, &b).0, json!({"wasm": {"smart_contract_state": b64(&b)}}))
            }
            "Validator" => {
                if self.p(10) {
                    return (vec![], json!({"staking": {"validator": {"validator": null}}}));
                }
                let (p, j) = self.pvalidator();
                (Pb::new().m(1, &p).0, all(vec![j], &|v| json!({"staking": {"validator": {"validator": v[0]}}})))
            }
            "Validators" => {
                let n = self.n(3);
                let vs: Vec<_> = (0..n).map(|_| self.pvalidator()).collect();
                let p = vs.iter().fold(Pb::new(), |p, c| p.m(1, &c.0));
                (p.0, all(vs.into_iter().map(|c| c.1).collect(), &|v| json!({"staking": {"all_validators": {"validators": v}}})))
            }
            "Delegation" => {
                if self.p(10) {
                    return (vec![], json!({"staking": {"delegation": {"delegation": null}}}));
                }
                let (p, j) = self.pdelegation();
                let p = Pb::new().m(1, &p).0;
                match j {
                    None => (p, json!({"staking": {"delegation": {"delegation": null}}})),
                    Some(j) => (p, all(vec![j], &|v| json!({"staking": {"delegation": {"delegation": v[0]}}}))),
                }
            }
            "DelegatorDelegations" => {
                let n = self.n(4);
                let ds: Vec<_> = (0..n).map(|_| self.pdelegation()).collect();
                let p = ds.iter().fold(Pb::new(), |p, c| p.m(1, &c.0));
                (p.0, all(ds.into_iter().filter_map(|c| c.1).collect(), &|v| json!({"staking": {"all_delegations": {"delegations": v}}})))
            }
            _ => {
                if self.p(10) {
                    return (vec![], J::Null);
                }
                let d = self.s();
                (Pb::new().m(1, &Pb::new().u(2, 100).s(5, &d)).0, json!({"staking": {"bonded_denom": {"denom": d}}}))
            }
        }
    }
}

pub const NOW: u64 = 1_700_000_000_123_456_789;
