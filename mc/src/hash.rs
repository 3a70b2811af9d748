//! SHA-1 and base64, independent of the crates the program uses.

pub fn sha1(data: &[u8]) -> [u8; 20] {
    let mut h: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
    let mut msg = data.to_vec();
    msg.push(0x80);
    while msg.len() % 64 != 56 {
        msg.push(0);
    }
    msg.extend_from_slice(&((data.len() as u64) * 8).to_be_bytes());
    for chunk in msg.chunks(64) {
        let mut w = [0u32; 80];
        for (i, b) in chunk.chunks(4).enumerate() {
            w[i] = u32::from_be_bytes([b[0], b[1], b[2], b[3]]);
        }
        for i in 16..80 {
            w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
        }
        let [mut a, mut b, mut c, mut d, mut e] = h;
        for (i, wi) in w.iter().enumerate() {
            let (f, k) = match i / 20 {
                0 => ((b & c) | (!b & d), 0x5A827999),
                1 => (b ^ c ^ d, 0x6ED9EBA1),
                2 => ((b & c) | (b & d) | (c & d), 0x8F1BBCDC),
                _ => (b ^ c ^ d, 0xCA62C1D6u32),
            };
            let t = a
                .rotate_left(5)
                .wrapping_add(f)
                .wrapping_add(e)
                .wrapping_add(k)
                .wrapping_add(*wi);
            e = d;
            d = c;
            c = b.rotate_left(30);
            b = a;
            a = t;
        }
        for (x, y) in h.iter_mut().zip([a, b, c, d, e]) {
            *x = x.wrapping_add(y);
        }
    }
    let mut out = [0u8; 20];
    for (i, x) in h.iter().enumerate() {
        out[i * 4..i * 4 + 4].copy_from_slice(&x.to_be_bytes());
    }
    out
}

pub fn b64(data: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in data.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() {
            s.push(T[(n >> (18 - 6 * i) & 63) as usize] as char);
        }
    }
    s
}

/// The documented, length-prefixed fingerprint encoding.
#[derive(Clone, Default)]
pub struct Fp(pub Vec<u8>);

impl Fp {
    pub fn raw(mut self, b: &[u8]) -> Self {
        self.0.extend_from_slice(b);
        self
    }
    pub fn len(self, n: usize) -> Self {
        self.raw(&(n as u64).to_be_bytes())
    }
    pub fn s(self, v: &str) -> Self {
        self.len(v.len()).raw(v.as_bytes())
    }
    pub fn i32(self, v: i32) -> Self {
        self.raw(&v.to_be_bytes())
    }
    pub fn usize(self, v: usize) -> Self {
        self.len(v)
    }
    pub fn date(self, y: i32, m: u32, d: u32) -> Self {
        self.len(12).i32(y).raw(&m.to_be_bytes()).raw(&d.to_be_bytes())
    }
    pub fn time(self, h: u32, m: u32, s: u32) -> Self {
        self.len(16).raw(&h.to_be_bytes()).raw(&m.to_be_bytes()).raw(&s.to_be_bytes()).raw(&0u32.to_be_bytes())
    }
    pub fn amount(self, q: &crate::dec::Dec, commodity: &str) -> Self {
        self.len(17 + commodity.len()).raw(&q.bytes16()).raw(&[1]).s(commodity)
    }
    pub fn opt_amount(self, q: Option<&crate::dec::Dec>, commodity: &str) -> Self {
        match q {
            Some(q) => self.raw(&[1]).amount(q, commodity),
            None => self.raw(&[0]),
        }
    }
    pub fn opt_s(self, v: Option<&str>) -> Self {
        match v {
            Some(v) => self.raw(&[1]).s(v),
            None => self.raw(&[0]),
        }
    }
    pub fn value(&self) -> String {
        b64(&sha1(&self.0))
    }
}

pub fn selftest() {
    assert_eq!(b64(&sha1(b"abc")), "qZk+NkcGgWq6PiVxeFDCbJzQ2J0");
    assert_eq!(b64(&sha1(b"")), "2jmj7l5rSw0yVb/vlWAYkK/YBwk");
}
