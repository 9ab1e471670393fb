//! Minimal protobuf writer (proto3: default values are not written).
#[derive(Default, Clone)]
pub struct Pb(pub Vec<u8>);

impl Pb {
    pub fn new() -> Self {
        Pb(vec![])
    }
    fn varint(&mut self, mut n: u64) {
        while n >= 0x80 {
            self.0.push((n as u8) | 0x80);
            n >>= 7;
        }
        self.0.push(n as u8);
    }
    fn key(&mut self, f: u32, w: u32) {
        self.varint(u64::from((f << 3) | w));
    }
    pub fn u(mut self, f: u32, n: u64) -> Self {
        if n != 0 {
            self.key(f, 0);
            self.varint(n);
        }
        self
    }
    pub fn flag(self, f: u32, b: bool) -> Self {
        self.u(f, u64::from(b))
    }
    /// bytes, always written
    pub fn item(mut self, f: u32, b: &[u8]) -> Self {
        self.key(f, 2);
        self.varint(b.len() as u64);
        self.0.extend_from_slice(b);
        self
    }
    pub fn b(self, f: u32, b: &[u8]) -> Self {
        if b.is_empty() {
            self
        } else {
            self.item(f, b)
        }
    }
    pub fn s(self, f: u32, s: &str) -> Self {
        self.b(f, s.as_bytes())
    }
    pub fn m(self, f: u32, m: &Pb) -> Self {
        self.item(f, &m.0)
    }
    pub fn ms(mut self, f: u32, ms: &[Pb]) -> Self {
        for m in ms {
            self = self.m(f, m);
        }
        self
    }
}

/// length-delimited and varint fields, in order (a varint as its 8 big-endian bytes)
pub fn parse(b: &[u8]) -> Vec<(u32, Vec<u8>)> {
    let mut out = vec![];
    let mut i = 0;
    let var = |i: &mut usize| {
        let (mut n, mut s) = (0u64, 0);
        while *i < b.len() && s < 64 {
            let x = b[*i];
            *i += 1;
            n |= u64::from(x & 0x7f) << s;
            s += 7;
            if x < 0x80 {
                break;
            }
        }
        n
    };
    while i < b.len() {
        let k = var(&mut i);
        let f = (k >> 3) as u32;
        if k & 7 == 0 {
            out.push((f, var(&mut i).to_be_bytes().to_vec()));
        } else if k & 7 == 2 {
            let n = var(&mut i) as usize;
            let e = i.saturating_add(n).min(b.len());
            out.push((f, b[i..e].to_vec()));
            i = e;
        } else {
            out.push((0, vec![]));
            break;
        }
    }
    out
}

/// MsgChannelOpenInit: everything but the version, and the version
#[allow(clippy::type_complexity)]
pub fn open_parts(b: &[u8]) -> ((Vec<(u32, Vec<u8>)>, Vec<(u32, Vec<u8>)>), Vec<u8>) {
    let mut top = parse(b);
    let ch = top.iter().find(|x| x.0 == 2).map(|x| parse(&x.1)).unwrap_or_default();
    top.retain(|x| x.0 != 2);
    top.sort();
    let ver = ch.iter().find(|x| x.0 == 5).map(|x| x.1.clone()).unwrap_or_default();
    let ch = ch.into_iter().filter(|x| x.0 != 5).collect();
    ((top, ch), ver)
}
