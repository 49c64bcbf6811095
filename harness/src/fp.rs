//! The published fingerprint algorithms, written independently of the program:
//! SHA-1, base64, the encoding of fields, and the order of fields.

use crate::journal::Date;

pub fn sha1(data: &[u8]) -> [u8; 20] {
    let mut h: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&((data.len() as u64) * 8).to_be_bytes());
    for chunk in m.chunks(64) {
        let mut w = [0u32; 80];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([chunk[4 * i], chunk[4 * i + 1], chunk[4 * i + 2], chunk[4 * i + 3]]);
        }
        for i in 16..80 {
            w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
        }
        let [mut a, mut b, mut c, mut d, mut e] = h;
        for (i, wi) in w.iter().enumerate() {
            let (f, k) = match i {
                0..=19 => ((b & c) | (!b & d), 0x5A827999),
                20..=39 => (b ^ c ^ d, 0x6ED9EBA1),
                40..=59 => ((b & c) | (b & d) | (c & d), 0x8F1BBCDC),
                _ => (b ^ c ^ d, 0xCA62C1D6u32),
            };
            let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(*wi);
            e = d;
            d = c;
            c = b.rotate_left(30);
            b = a;
            a = t;
        }
        for (x, y) in h.iter_mut().zip([a, b, c, d, e]) {
            *x = x.wrapping_add(y);
        }
    }
    let mut o = [0u8; 20];
    for i in 0..5 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}

pub fn b64(data: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in data.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..=c.len() {
            o.push(T[(v >> (18 - 6 * k)) as usize & 63] as char);
        }
    }
    o
}

/// A decimal as written: mantissa, scale and sign (zero may be negative).
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Dec {
    pub m: u128,
    pub scale: u32,
    pub neg: bool,
}
impl Dec {
    pub fn new(m: u128, scale: u32, neg: bool) -> Dec {
        Dec { m, scale, neg }
    }
    pub fn neg(self) -> Dec {
        Dec { neg: !self.neg, ..self }
    }
    pub fn num(&self) -> crate::journal::Num {
        let m = self.m as i128;
        crate::journal::Num::new(if self.neg { -m } else { m }, self.scale)
    }
    /// Without trailing zeroes.
    pub fn normal(self) -> Dec {
        let mut d = self;
        while d.scale > 0 && d.m % 10 == 0 {
            d.m /= 10;
            d.scale -= 1;
        }
        d
    }
    /// Digits with exactly `scale` decimals, without the sign.
    pub fn digits(&self) -> String {
        let mut s = self.m.to_string();
        if self.scale > 0 {
            while s.len() <= self.scale as usize {
                s.insert(0, '0');
            }
            s.insert(s.len() - self.scale as usize, '.');
        }
        s
    }
}

#[derive(Clone, Default)]
pub struct Acc(Vec<u8>);
impl Acc {
    pub fn u64(mut self, v: u64) -> Acc {
        self.0.extend_from_slice(&v.to_be_bytes());
        self
    }
    pub fn i32(mut self, v: i32) -> Acc {
        self.0.extend_from_slice(&v.to_be_bytes());
        self
    }
    pub fn u8(mut self, v: u8) -> Acc {
        self.0.push(v);
        self
    }
    pub fn s(self, v: &str) -> Acc {
        let mut a = self.u64(v.len() as u64);
        a.0.extend_from_slice(v.as_bytes());
        a
    }
    pub fn date(self, d: Date) -> Acc {
        self.u64(12).i32(d.y).i32(d.m as i32).i32(d.d as i32)
    }
    pub fn time(self, h: u32, m: u32, s: u32) -> Acc {
        self.u64(16).i32(h as i32).i32(m as i32).i32(s as i32).i32(0)
    }
    pub fn amt(self, d: Dec, com: &str) -> Acc {
        let mut a = self.u64(17 + com.len() as u64);
        a.0.extend_from_slice(&((d.scale << 16) | if d.neg { 1 << 31 } else { 0 }).to_le_bytes());
        for i in 0..3 {
            a.0.extend_from_slice(&((d.m >> (32 * i)) as u32).to_le_bytes());
        }
        a.u8(1).s(com)
    }
    pub fn opt<T>(self, v: Option<T>, f: impl Fn(Acc, T) -> Acc) -> Acc {
        match v {
            Some(v) => f(self.u8(1), v),
            None => self.u8(0),
        }
    }
    pub fn hash(&self) -> String {
        b64(&sha1(&self.0))
    }
}

/// The namespace generated from the account name.
pub fn generated_ns(account: &str) -> String {
    Acc::default().s("Nationwide").s(account).hash()[..8].to_string()
}

pub fn self_test() {
    assert_eq!(sha1(b"abc")[..4], [0xa9, 0x99, 0x3e, 0x36]);
    assert_eq!(sha1(&[b'a'; 1000])[..4], [0x29, 0x1e, 0x9a, 0x6c]);
    assert_eq!(b64(b"ab"), "YWI");
}
