//! A decimal number: sign, mantissa, number of decimal places. Equality is by value.

#[derive(Clone, Debug)]
pub struct Dec {
    pub neg: bool,
    pub m: u128,
    pub s: u32,
}

impl Dec {
    pub fn parse(t: &str) -> Option<Dec> {
        let (neg, t) = match t.strip_prefix('-') {
            Some(r) => (true, r),
            None => (false, t),
        };
        let (i, f) = t.split_once('.').unwrap_or((t, ""));
        if i.is_empty() && f.is_empty() {
            return None;
        }
        let mut m: u128 = 0;
        for c in i.chars().filter(|c| *c != ',').chain(f.chars()) {
            m = m.checked_mul(10)?.checked_add(c.to_digit(10)? as u128)?;
        }
        Some(Dec { neg, m, s: f.len() as u32 })
    }
    pub fn norm(&self) -> (bool, u128, u32) {
        let (mut m, mut s) = (self.m, self.s);
        while s > 0 && m % 10 == 0 {
            m /= 10;
            s -= 1;
        }
        if m == 0 {
            return (false, 0, 0);
        }
        (self.neg, m, s)
    }
    pub fn negate(&self) -> Dec {
        Dec { neg: !self.neg, m: self.m, s: self.s }
    }
    pub fn is_zero(&self) -> bool {
        self.m == 0
    }
    /// The 16 bytes of the documented amount encoding (flags with scale and sign, then 96 bits,
    /// little endian).
    pub fn bytes16(&self) -> [u8; 16] {
        let mut b = [0u8; 16];
        let flags: u32 = (self.s << 16) | if self.neg { 1 << 31 } else { 0 };
        b[0..4].copy_from_slice(&flags.to_le_bytes());
        b[4..16].copy_from_slice(&self.m.to_le_bytes()[0..12]);
        b
    }
}

impl PartialEq for Dec {
    fn eq(&self, o: &Dec) -> bool {
        self.norm() == o.norm()
    }
}
impl Eq for Dec {}
impl std::hash::Hash for Dec {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.norm().hash(h)
    }
}
impl std::fmt::Display for Dec {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let digits = format!("{:0>w$}", self.m, w = self.s as usize + 1);
        let (i, d) = digits.split_at(digits.len() - self.s as usize);
        write!(f, "{}{}", if self.neg { "-" } else { "" }, i)?;
        if self.s > 0 {
            write!(f, ".{}", d)?;
        }
        Ok(())
    }
}
