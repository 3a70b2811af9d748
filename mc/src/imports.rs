//! Reference models of the importers, written from the README and the property texts.

use crate::dec::Dec;
use crate::hash::*;
use crate::journal::*;

pub enum Verdict {
    Ok(String, Vec<Trn>),
    Reject(&'static str),
    /// Neither acceptance nor rejection is prescribed.
    Grey,
}

type Res<T> = Result<T, Option<&'static str>>;

fn rej<T>(why: &'static str) -> Res<T> {
    Err(Some(why))
}

fn verdict(r: Res<(String, Vec<Trn>)>) -> Verdict {
    match r {
        Ok((ns, t)) => Verdict::Ok(ns, t),
        Err(Some(w)) => Verdict::Reject(w),
        Err(None) => Verdict::Grey,
    }
}

// ---------------------------------------------------------------------------------------------
// Dates.

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub struct Date {
    pub y: i32,
    pub m: u32,
    pub d: u32,
}

pub const MONTHS: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];

pub fn days_in(y: i32, m: u32) -> u32 {
    match m {
        4 | 6 | 9 | 11 => 30,
        2 if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) => 29,
        2 => 28,
        _ => 31,
    }
}

impl Date {
    pub fn new(y: i32, m: u32, d: u32) -> Option<Date> {
        ((1..=12).contains(&m) && d >= 1 && d <= days_in(y, m)).then_some(Date { y, m, d })
    }
    pub fn iso(&self) -> String {
        format!("{:04}-{:02}-{:02}", self.y, self.m, self.d)
    }
    pub fn nw(&self) -> String {
        format!("{:02} {} {:04}", self.d, MONTHS[self.m as usize - 1], self.y)
    }
    pub fn dmy(&self) -> String {
        format!("{:02}/{:02}/{:04}", self.d, self.m, self.y)
    }
    /// Days since 1970-01-01.
    pub fn days(&self) -> i64 {
        let (y, m) = if self.m <= 2 { (self.y as i64 - 1, self.m as i64 + 9) } else { (self.y as i64, self.m as i64 - 3) };
        let era = y.div_euclid(400);
        let yoe = y.rem_euclid(400);
        let doy = (153 * m + 2) / 5 + self.d as i64 - 1;
        era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
    }
    pub fn from_days(z: i64) -> Date {
        let z = z + 719468;
        let era = z.div_euclid(146097);
        let doe = z.rem_euclid(146097);
        let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
        let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
        let mp = (5 * doy + 2) / 153;
        let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
        let m = (if mp < 10 { mp + 3 } else { mp - 9 }) as u32;
        let y = yoe + era * 400 + i64::from(m <= 2);
        Date { y: y as i32, m, d }
    }
    /// 0 = Monday.
    pub fn weekday(&self) -> u32 {
        (self.days() + 3).rem_euclid(7) as u32
    }
}

fn digits(s: &str, n: usize) -> Option<u32> {
    (s.len() == n && s.bytes().all(|b| b.is_ascii_digit())).then(|| s.parse().unwrap())
}

/// "DD Mon YYYY".
fn nw_date(s: &str) -> Option<Date> {
    let p: Vec<&str> = s.split(' ').collect();
    if p.len() != 3 {
        return None;
    }
    let m = MONTHS.iter().position(|m| *m == p[1])? as u32 + 1;
    Date::new(digits(p[2], 4)? as i32, m, digits(p[0], 2)?)
}

// ---------------------------------------------------------------------------------------------
// Namespaces.

pub fn valid_ns(ns: &str) -> bool {
    ns.bytes().all(|b| b.is_ascii_alphanumeric() || b"_+/".contains(&b))
}

pub fn generated_ns(account: &str) -> String {
    Fp::default().s("Nationwide").s(account).value()[..8].to_string()
}

#[derive(Clone, Debug)]
pub enum Ns {
    Default,
    Account,
    Generated,
    Fixed(String),
    /// The entries of lookup.ron.
    Lookup(Vec<(String, String)>),
}

impl Ns {
    pub fn args(&self) -> Vec<String> {
        let a = match self {
            Ns::Default => return vec![],
            Ns::Account => "account-name".to_string(),
            Ns::Generated => "generated".to_string(),
            Ns::Fixed(f) => format!("fixed:{}", f),
            Ns::Lookup(_) => "lookup:lookup.ron".to_string(),
        };
        vec!["--fp-namespace".into(), a]
    }
    pub fn of(&self, account: &str) -> Option<String> {
        match self {
            Ns::Default | Ns::Generated => Some(generated_ns(account)),
            Ns::Account => Some(account.into()),
            Ns::Fixed(f) => Some(f.clone()),
            Ns::Lookup(t) => t.iter().find(|(k, _)| k == account).map(|(_, v)| v.clone()),
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Nationwide CSV.

pub const H5: [&str; 5] = ["Date", "Transactions", "Location", "Paid out", "Paid in"];
pub const H6: [&str; 6] = ["Date", "Transaction type", "Description", "Paid out", "Paid in", "Balance"];

/// The value of a "£NNN.NN" cell; outer None: malformed.
fn gbp(s: &str) -> Res<Dec> {
    let Some(t) = s.strip_prefix('£') else { return rej("amount without £") };
    let (neg, t) = match t.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, t),
    };
    let Some((i, f)) = t.split_once('.') else { return rej("amount without pence") };
    if i.is_empty() || f.len() != 2 || !i.bytes().chain(f.bytes()).all(|b| b.is_ascii_digit()) {
        // Thousands separators in the right places would be unambiguous.
        let g: Vec<&str> = i.split(',').collect();
        if f.len() == 2 && g.len() > 1 && g[1..].iter().all(|x| x.len() == 3) && !g[0].is_empty() && g[0].len() <= 3 {
            return Err(None);
        }
        return rej("malformed amount");
    }
    let Some(mut d) = Dec::parse(&format!("{}.{}", i, f)) else { return Err(None) };
    if d.m > i64::MAX as u128 {
        return Err(None);
    }
    d.neg = neg;
    Ok(d)
}

fn opt_gbp(s: &str) -> Res<Option<Dec>> {
    if s.is_empty() {
        Ok(None)
    } else {
        gbp(s).map(Some)
    }
}

fn gbp_amt(q: &Dec) -> Amt {
    Amt { q: q.clone(), c: "GBP".into(), left: true }
}

fn plain(a: Amt) -> Option<PAmt> {
    Some(PAmt { a, lot: Price::None, price: Price::None })
}

fn peer_account(q: &Dec) -> &'static str {
    if q.neg {
        "expenses:unknown"
    } else {
        "income:unknown"
    }
}

/// What importing a statement with these cells gives.
pub fn nw_csv(recs: &[Vec<String>], ns: &Ns, legacy: bool) -> Verdict {
    verdict(nw_csv_(recs, ns, legacy))
}

fn nw_csv_(recs: &[Vec<String>], ns: &Ns, legacy: bool) -> Res<(String, Vec<Trn>)> {
    let recs: Vec<Vec<&str>> = recs
        .iter()
        .filter(|r| !(r.is_empty() || r.len() == 1 && r[0].is_empty()))
        .map(|r| r.iter().map(|c| c.trim()).collect())
        .collect();
    for (k, label) in ["Account Name:", "Account Balance:", "Available Balance:"].iter().enumerate() {
        let Some(r) = recs.get(k) else { return rej("preamble missing") };
        if r.len() < 2 || r[0] != *label {
            return rej("bad preamble");
        }
        if k > 0 {
            gbp(r[1])?;
        }
    }
    let account = recs[0][1];
    let Some(ns) = ns.of(account) else { return rej("account not in lookup file") };
    let Some(h) = recs.get(3) else { return rej("no header") };
    let six = if h[..] == H6 {
        true
    } else if h[..] == H5 {
        false
    } else {
        return rej("bad header");
    };
    let mut out = Vec::new();
    let mut prev: Option<(Date, i32)> = None;
    // A malformed row anywhere means rejection, whatever the other rows are.
    let mut grey = false;
    for r in &recs[4..] {
        if r.len() != if six { 6 } else { 5 } {
            return rej("wrong number of columns");
        }
        let Some(date) = nw_date(r[0]) else { return rej("malformed date") };
        let mut get = |s: &str| match opt_gbp(s) {
            Err(None) => {
                grey = true;
                Ok(Some(Dec { neg: false, m: 0, s: 2 }))
            }
            x => x,
        };
        let (po, pi) = (get(r[3])?, get(r[4])?);
        let bal = if six { Some(get(r[5])?) } else { None };
        let q = match (&po, &pi) {
            (Some(o), None) => o.negate(),
            (None, Some(i)) => i.clone(),
            _ => return rej("not exactly one of paid in and paid out"),
        };
        let bal = match bal {
            Some(None) => return rej("no balance"),
            Some(b) => b,
            None => None,
        };
        let n = match prev {
            Some((d, n)) if d == date => n + 1,
            _ => 0,
        };
        prev = Some((date, n));
        if !valid_ns(&ns) {
            return rej("invalid namespace");
        }
        let peer = peer_account(&q);
        let mut base = Comment::default().flag(UNKNOWN).val("account", account).val("bank", "Nationwide");
        let fp;
        let desc;
        let d = (date.y, date.m, date.d);
        if six {
            base = base.val("trn_type", r[1]);
            desc = r[2].to_string();
            fp = Fp::default()
                .s(r[1])
                .date(d.0, d.1, d.2)
                .i32(n)
                .s(r[2])
                .opt_amount(po.as_ref(), "GBP")
                .opt_amount(pi.as_ref(), "GBP")
                .amount(bal.as_ref().unwrap(), "GBP");
        } else {
            base = base.val("transactions", r[1]);
            desc = if r[2].is_empty() {
                r[1].to_string()
            } else {
                base = base.val("location", r[2]);
                format!("{} @ {}", r[1], r[2])
            };
            fp = Fp::default()
                .date(d.0, d.1, d.2)
                .i32(n)
                .s(r[1])
                .s(r[2])
                .opt_amount(po.as_ref(), "GBP")
                .opt_amount(pi.as_ref(), "GBP");
        }
        let alg = if six { "nwcsv6" } else { "nwcsv5" };
        let tag = |half: &str| format!("fp-{}.1.{}-{}", alg, ns, fp.clone().s(half).value());
        let mut sc = base.clone().flag("import-self").flag(&tag("self")).val("seq", &format!("{}-{}", ns, n + 1));
        let mut pc = base.flag("import-peer").flag(&tag("peer"));
        if legacy && six {
            let l = Fp::default().s(r[1]).date(d.0, d.1, d.2).s("").amount(bal.as_ref().unwrap(), "GBP").i32(n);
            let lt = |acct: &str, q: &Dec| format!("fp-{}-{}", ns, l.clone().s(acct).amount(q, "GBP").value());
            sc = sc.flag(&lt("assets:unknown", &q));
            pc = pc.flag(&lt(peer, &q.negate()));
        }
        out.push(Trn {
            date: date.iso(),
            desc,
            posts: vec![
                Post {
                    acct: "assets:unknown".into(),
                    amt: plain(gbp_amt(&q)),
                    bal: bal.as_ref().map(|b| Bal::Amt(gbp_amt(b))),
                    c: sc,
                    ..Post::default()
                },
                Post { acct: peer.into(), amt: plain(gbp_amt(&q.negate())), c: pc, ..Post::default() },
            ],
            ..Trn::default()
        });
    }
    if grey {
        return Err(None);
    }
    Ok((ns, out))
}

/// How cells are written down.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Style {
    pub quote_all: bool,
    pub pad: bool,
    pub crlf: bool,
    pub final_newline: bool,
}

pub const PLAIN: Style = Style { quote_all: false, pad: false, crlf: false, final_newline: true };

pub fn styles() -> Vec<Style> {
    (0..16)
        .map(|i| Style { quote_all: i & 1 != 0, pad: i & 2 != 0, crlf: i & 4 != 0, final_newline: i & 8 != 0 })
        .collect()
}

pub fn csv(recs: &[Vec<String>], st: Style) -> String {
    let nl = if st.crlf { "\r\n" } else { "\n" };
    let lines: Vec<String> = recs
        .iter()
        .map(|r| {
            r.iter()
                .map(|c| {
                    let c = if st.pad { format!(" {}  ", c) } else { c.clone() };
                    if (st.quote_all && !r.is_empty()) || c.contains([',', '"', '\n']) {
                        format!("\"{}\"", c.replace('"', "\"\""))
                    } else {
                        c
                    }
                })
                .collect::<Vec<_>>()
                .join(",")
        })
        .collect();
    let mut s = lines.join(nl);
    if st.final_newline {
        s.push_str(nl);
    }
    s
}

/// Windows-1252, as the bank writes it.
pub fn cp1252(s: &str) -> Vec<u8> {
    s.chars()
        .map(|c| match c {
            '€' => 0x80,
            '’' => 0x92,
            '–' => 0x96,
            c if (c as u32) < 0x80 || (0xA0..0x100).contains(&(c as u32)) => c as u8,
            c => panic!("cannot encode {:?}", c),
        })
        .collect()
}

// ---------------------------------------------------------------------------------------------
// Time zones.

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Zone {
    Fixed(&'static str, i64),
    London,
    NewYork,
}

fn last_sunday(y: i32, m: u32) -> Date {
    let d = Date { y, m, d: days_in(y, m) };
    Date::from_days(d.days() - (d.weekday() as i64 + 1) % 7)
}

fn nth_sunday(y: i32, m: u32, n: i64) -> Date {
    let d = Date { y, m, d: 1 };
    Date::from_days(d.days() + (6 - d.weekday() as i64) + 7 * (n - 1))
}

impl Zone {
    pub fn name(&self) -> &'static str {
        match self {
            Zone::Fixed(n, _) => n,
            Zone::London => "Europe/London",
            Zone::NewYork => "America/New_York",
        }
    }
    /// Seconds east of UTC at an instant (rules as from 2007).
    pub fn offset(&self, t: i64) -> i64 {
        let y = Date::from_days(t.div_euclid(86400)).y;
        match self {
            Zone::Fixed(_, o) => *o,
            Zone::London => {
                let a = last_sunday(y, 3).days() * 86400 + 3600;
                let b = last_sunday(y, 10).days() * 86400 + 3600;
                if t >= a && t < b {
                    3600
                } else {
                    0
                }
            }
            Zone::NewYork => {
                let a = nth_sunday(y, 3, 2).days() * 86400 + 7 * 3600;
                let b = nth_sunday(y, 11, 1).days() * 86400 + 6 * 3600;
                if t >= a && t < b {
                    -4 * 3600
                } else {
                    -5 * 3600
                }
            }
        }
    }
    pub fn date(&self, t: i64) -> Date {
        Date::from_days((t + self.offset(t)).div_euclid(86400))
    }
}

pub const ZONES: [Zone; 9] = [
    Zone::Fixed("UTC", 0),
    Zone::London,
    Zone::NewYork,
    Zone::Fixed("Asia/Kolkata", 19800),
    Zone::Fixed("Asia/Tokyo", 32400),
    Zone::Fixed("Etc/GMT+12", -12 * 3600),
    Zone::Fixed("Etc/GMT-14", 14 * 3600),
    Zone::Fixed("Asia/Kathmandu", 20700),
    Zone::Fixed("Pacific/Honolulu", -36000),
];

/// "UTC+HH", "UTC-HH", "UTC+HH:MM", "UTC-HH:MM": seconds east of UTC.
pub fn utc_offset(s: &str) -> Option<i64> {
    let t = s.strip_prefix("UTC")?;
    let (sign, t) = match (t.strip_prefix('+'), t.strip_prefix('-')) {
        (Some(t), _) => (1, t),
        (_, Some(t)) => (-1, t),
        _ => return None,
    };
    let (h, m) = match t.split_once(':') {
        Some((h, m)) => (digits(h, 2)?, digits(m, 2)?),
        None => (digits(t, 2)?, 0),
    };
    (h <= 23 && m <= 59).then_some(sign * (h as i64 * 3600 + m as i64 * 60))
}

// ---------------------------------------------------------------------------------------------
// PayPal.

pub const HP: [&str; 10] =
    ["Date", "Time", "Time zone", "Name", "Type", "Status", "Currency", "Amount", "Receipt ID", "Balance"];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Pp {
    pub date: String,
    pub time: String,
    pub tz: String,
    pub name: String,
    pub typ: String,
    pub status: String,
    pub cur: String,
    pub amount: String,
    pub receipt: String,
    pub balance: String,
}

impl Pp {
    pub fn cells(&self) -> Vec<String> {
        [
            &self.date, &self.time, &self.tz, &self.name, &self.typ, &self.status, &self.cur, &self.amount,
            &self.receipt, &self.balance,
        ]
        .iter()
        .map(|s| s.to_string())
        .collect()
    }
}

pub struct PpOpts {
    pub zone: Zone,
    pub ns: Option<String>,
    pub legacy: bool,
    pub tzs: Vec<(String, String)>,
}

fn dec_norm(s: &str) -> Option<Dec> {
    let t = s.strip_prefix('-').unwrap_or(s);
    let (i, f) = t.split_once('.').unwrap_or((t, "0"));
    if i.is_empty() || f.is_empty() || !i.bytes().chain(f.bytes()).all(|b| b.is_ascii_digit()) {
        return None;
    }
    let (neg, m, sc) = Dec::parse(s)?.norm();
    (m < 1 << 96 && sc <= 28).then_some(Dec { neg, m, s: sc })
}

pub fn paypal(recs: &[Vec<String>], o: &PpOpts) -> Verdict {
    verdict(paypal_(recs, o))
}

fn paypal_(recs: &[Vec<String>], o: &PpOpts) -> Res<(String, Vec<Trn>)> {
    let mut tzs: Vec<(&str, i64)> = Vec::new();
    for (a, off) in &o.tzs {
        if tzs.iter().any(|(b, _)| b == a) {
            return rej("abbreviation defined twice");
        }
        match utc_offset(off) {
            Some(x) => tzs.push((a, x)),
            None => return rej("bad offset"),
        }
    }
    let ns = o.ns.clone().unwrap_or_else(|| "paypal".into());
    let Some(h) = recs.first() else { return Err(None) };
    let cols: Vec<&str> = h.iter().map(|c| c.trim()).collect();
    if HP.iter().all(|c| cols.contains(c) || *c == "Name" || *c == "Receipt ID") && cols[..] != HP {
        // Without the optional columns, or in another order.
        return Err(None);
    }
    if h.iter().map(|c| c.trim()).collect::<Vec<_>>()[..] != HP {
        return if recs.len() > 1 { rej("bad header") } else { Err(None) };
    }
    struct Row {
        at: i64,
        name: Option<String>,
        typ: String,
        st: St,
        amount: Dec,
        balance: Dec,
        cur: String,
        receipt: Option<String>,
        fp: Fp,
    }
    let mut rows: Vec<Row> = Vec::new();
    for r in &recs[1..] {
        let r: Vec<&str> = r.iter().map(|c| c.trim()).collect();
        if r.is_empty() || r == [""] {
            continue;
        }
        if r.len() != 10 {
            return rej("wrong number of columns");
        }
        let p: Vec<&str> = r[0].split('/').collect();
        if p.len() != 3 {
            return rej("malformed date");
        }
        let date = match (digits(p[0], 2), digits(p[1], 2), digits(p[2], 4)) {
            (Some(d), Some(m), Some(y)) => Date::new(y as i32, m, d),
            _ => None,
        };
        let Some(date) = date else { return rej("malformed date") };
        let p: Vec<&str> = r[1].split(':').collect();
        if p.len() != 3 {
            return rej("malformed time");
        }
        let (hh, mm, ss) = match (digits(p[0], 2), digits(p[1], 2), digits(p[2], 2)) {
            (Some(h), Some(m), Some(s)) if h < 24 && m < 60 && s < 60 => (h, m, s),
            (Some(h), Some(m), Some(60)) if h < 24 && m < 60 => return Err(None),
            _ => return rej("malformed time"),
        };
        let Some((_, off)) = tzs.iter().find(|(a, _)| *a == r[2]) else { return rej("unknown time zone") };
        let st = match r[5] {
            "Completed" => St::Clr,
            "Pending" => St::Pend,
            _ => return rej("unknown status"),
        };
        let (Some(amount), Some(balance)) = (dec_norm(r[7]), dec_norm(r[9])) else { return rej("malformed amount") };
        if !valid_ns(&ns) {
            return rej("invalid namespace");
        }
        let opt = |s: &str| (!s.is_empty()).then(|| s.to_string());
        let fp = Fp::default()
            .date(date.y, date.m, date.d)
            .time(hh, mm, ss)
            .s(r[2])
            .opt_s(opt(r[3]).as_deref())
            .s(r[4])
            .amount(&amount, r[6])
            .amount(&balance, r[6]);
        rows.push(Row {
            at: date.days() * 86400 + (hh * 3600 + mm * 60 + ss) as i64 - off,
            name: opt(r[3]),
            typ: r[4].into(),
            st,
            amount,
            balance,
            cur: r[6].into(),
            receipt: opt(r[8]),
            fp,
        });
    }
    let mut out: Vec<Trn> = Vec::new();
    let mut i = 0;
    while i < rows.len() {
        let n = rows[i..].iter().take_while(|r| r.at == rows[i].at).count();
        let group = &rows[i..i + n];
        let Some(desc) = group.iter().find_map(|r| r.name.clone()) else { return rej("group without a name") };
        let mut t = Trn { date: o.zone.date(rows[i].at).iso(), desc, ..Trn::default() };
        for (k, r) in group.iter().enumerate() {
            let fp = r.fp.clone().usize(k);
            let v = |half: &str| fp.clone().s(half).value();
            let mut sc = Comment::default()
                .flag("import-self")
                .flag(UNKNOWN)
                .flag(&format!("fp-ppcsv.1.{}-{}", ns, v("self")));
            let mut pc = Comment::default()
                .flag("import-peer")
                .flag(UNKNOWN)
                .flag(&format!("fp-ppcsv.1.{}-{}", ns, v("peer")))
                .val("trn_type", &r.typ);
            if let Some(n) = &r.name {
                pc = pc.val("trn_name", n);
            }
            if let Some(x) = &r.receipt {
                sc = sc.val("receipt_id", x);
            }
            if o.legacy {
                sc = sc.flag(&format!("fp-{}-{}", ns, v("self")));
                pc = pc.flag(&format!("fp-{}-{}", ns, v("peer")));
            }
            let a = |q: &Dec| Amt { q: q.clone(), c: r.cur.clone(), left: true };
            t.posts.push(Post {
                st: r.st,
                acct: "assets:unknown".into(),
                amt: plain(a(&r.amount)),
                bal: Some(Bal::Amt(a(&r.balance))),
                c: sc,
                ..Post::default()
            });
            t.posts.push(Post {
                st: r.st,
                acct: peer_account(&r.amount).into(),
                amt: plain(a(&r.amount.negate())),
                c: pc,
                ..Post::default()
            });
        }
        out.push(t);
        i += n;
    }
    Ok((ns, out))
}

// ---------------------------------------------------------------------------------------------
// Nationwide PDF, as recognised by the OCR.

#[derive(Clone, Debug, Hash)]
pub struct Word {
    pub left: i64,
    pub width: i64,
    pub text: String,
}

#[derive(Clone, Debug, Hash, Default)]
pub struct Line {
    pub top: i64,
    pub height: i64,
    pub words: Vec<Word>,
}

pub type Para = Vec<Line>;
/// Pages of blocks of paragraphs.
pub type Doc = Vec<Vec<Vec<Para>>>;

pub fn word(text: &str, left: i64, width: i64) -> Word {
    Word { left, width, text: text.into() }
}

pub fn tsv(doc: &Doc) -> String {
    use std::fmt::Write;
    let mut o = "level\tpage_num\tblock_num\tpar_num\tline_num\tword_num\tleft\ttop\twidth\theight\tconf\ttext\n".to_string();
    for (p, page) in doc.iter().enumerate() {
        let _ = writeln!(o, "1\t{}\t0\t0\t0\t0\t0\t0\t2480\t3508\t-1\t", p + 1);
        for (b, block) in page.iter().enumerate() {
            let _ = writeln!(o, "2\t{}\t{}\t0\t0\t0\t90\t90\t2200\t3300\t-1\t", p + 1, b + 1);
            for (q, para) in block.iter().enumerate() {
                let _ = writeln!(o, "3\t{}\t{}\t{}\t0\t0\t90\t90\t2200\t3300\t-1\t", p + 1, b + 1, q + 1);
                for (l, line) in para.iter().enumerate() {
                    let id = format!("{}\t{}\t{}\t{}", p + 1, b + 1, q + 1, l + 1);
                    let _ = writeln!(o, "4\t{}\t0\t100\t{}\t2000\t{}\t-1\t", id, line.top, line.height);
                    for (w, wd) in line.words.iter().enumerate() {
                        let _ = writeln!(
                            o,
                            "5\t{}\t{}\t{}\t{}\t{}\t{}\t96\t{}",
                            id,
                            w + 1,
                            wd.left,
                            line.top,
                            wd.width,
                            line.height,
                            wd.text
                        );
                    }
                }
            }
        }
    }
    o
}

fn is_digits(s: &str, pat: &str) -> bool {
    s.len() == pat.len() && s.bytes().zip(pat.bytes()).all(|(a, b)| if b == b'9' { a.is_ascii_digit() } else { a == b })
}

/// The sort code and account number of the first line "Account Number 12-34-56 12345678 ...".
pub fn pdf_account(doc: &Doc) -> Option<String> {
    for line in doc.iter().flatten().flatten().flatten() {
        let w: Vec<&str> = line.words.iter().map(|w| w.text.as_str()).collect();
        if w.len() >= 4 && w[0] == "Account" && w[1] == "Number" && is_digits(w[2], "99-99-99") && is_digits(w[3], "99999999") {
            return Some(format!("{} {}", w[2], w[3]));
        }
    }
    None
}

fn pdf_amount(s: &str) -> Res<Dec> {
    let t = s.strip_prefix('-').unwrap_or(s);
    let (i, f) = t.split_once('.').unwrap_or((t, "00"));
    let groups: Vec<&str> = i.split(',').collect();
    let ok = !i.is_empty()
        && !f.is_empty()
        && i.bytes().all(|b| b.is_ascii_digit() || b == b',')
        && f.bytes().all(|b| b.is_ascii_digit());
    if !ok {
        // "5.", ".5", "+5", "1_000" and misplaced commas are left open.
        let odd = s.bytes().all(|b| b.is_ascii_digit() || b"+-._,".contains(&b)) && s.bytes().filter(|b| b.is_ascii_digit()).count() > 0;
        let twice = s.matches('.').count() > 1 || s.chars().skip(1).any(|c| "+-".contains(c));
        return if odd && !twice { Err(None) } else { rej("malformed amount") };
    }
    if groups.len() > 1 && (groups[0].is_empty() || groups[0].len() > 3 || groups[1..].iter().any(|g| g.len() != 3)) {
        return Err(None);
    }
    match Dec::parse(s) {
        // A zero has no sign.
        Some(d) if d.m < 1 << 96 && d.s <= 28 => Ok(Dec { neg: d.neg && d.m > 0, ..d }),
        _ => Err(None),
    }
}

/// `odd` is set if lines without amounts have dates of their own, or none, in the middle of a day.
pub fn pdf(doc: &Doc, ns: &Ns, odd: &mut bool) -> Verdict {
    verdict(pdf_(doc, ns, odd))
}

struct Open {
    date: Date,
    n: i32,
    q: Dec,
    desc: String,
    edate: Option<Date>,
    bal: Option<Dec>,
}

fn pdf_(doc: &Doc, ns: &Ns, odd: &mut bool) -> Res<(String, Vec<Trn>)> {
    let Some(account) = pdf_account(doc) else { return rej("no account number") };
    let Some(ns) = ns.of(&account) else { return rej("account not in lookup file") };
    let mut trns: Vec<Open> = Vec::new();
    let mut last: Option<(Date, i32)> = None;
    for para in doc.iter().flatten().flatten() {
        let head = para.iter().position(|l| {
            l.words.len() >= 5
                && l.words.iter().zip(["Date", "Details", "Payments", "Receipts", "Balance"]).all(|(w, t)| w.text == t)
        });
        let Some(head) = head else { continue };
        let hw = &para[head].words;
        let cols = [
            (hw[0].left, hw[0].left + hw[0].width),
            (hw[1].left, hw[2].left),
            (hw[2].left, hw[3].left),
            (hw[3].left, hw[4].left),
            (hw[4].left, hw[4].left + hw[4].width),
        ];
        let col = |l: &Line, k: usize| -> Vec<String> {
            l.words
                .iter()
                .filter(|w| w.left < cols[k].1 && w.left + w.width > cols[k].0)
                .map(|w| w.text.clone())
                .collect()
        };
        let mut year: Option<i32> = None;
        let mut date: Option<Date> = None;
        // Lines are read to the end of the paragraph for their dates, even below the table's end.
        let mut ended = false;
        let mut prev: Option<(i64, i64)> = None;
        for l in &para[head + 1..] {
            let dw = col(l, 0);
            let below = ended || prev.is_some_and(|(t, h)| l.top > t + 2 * h);
            let rej = |why| if below { Err(None) } else { rej(why) };
            match dw.len() {
                0 => {}
                1 => {
                    match digits(&dw[0], 4) {
                        Some(y) if (1980..=2100).contains(&y) => year = Some(y as i32),
                        _ => return rej("malformed year"),
                    }
                    if let Some((t, h)) = prev {
                        if l.top <= t + 2 * h {
                            prev = Some((l.top, l.height));
                        }
                    }
                    continue;
                }
                2 => {
                    let m = MONTHS.iter().position(|m| *m == dw[1]);
                    let d = match (year, m, digits(&dw[0], 2)) {
                        (Some(y), Some(m), Some(d)) => Date::new(y, m as u32 + 1, d),
                        _ => None,
                    };
                    let Some(d) = d else { return rej("malformed date") };
                    date = Some(d);
                }
                _ => return rej("malformed date"),
            }
            let detail = col(l, 1).join(" ");
            if detail.is_empty() {
                continue;
            }
            if let Some((t, h)) = prev {
                if l.top > t + 2 * h {
                    ended = true;
                }
            }
            prev = Some((l.top, l.height));
            if ended {
                continue;
            }
            let (pay, rec, bal) = (col(l, 2), col(l, 3), col(l, 4));
            let amount = match (pay.is_empty(), rec.is_empty()) {
                (false, false) => return rej("payment and receipt"),
                (false, true) => Some((pay.join(" "), true)),
                (true, false) => Some((rec.join(" "), false)),
                (true, true) => None,
            };
            match amount {
                Some((a, out)) => {
                    let Some(d) = date else { return rej("transaction without a date") };
                    let q = pdf_amount(&a)?;
                    if q.neg {
                        return rej("negative amount");
                    }
                    let n = match last {
                        Some((x, n)) if x == d => n + 1,
                        _ => 0,
                    };
                    last = Some((d, n));
                    trns.push(Open { date: d, n, q: if out { q.negate() } else { q }, desc: detail, edate: None, bal: None });
                }
                None => {
                    let Some(t) = trns.last_mut() else {
                        *odd |= date.is_some();
                        continue;
                    };
                    *odd |= date != Some(t.date);
                    if let Some(e) = detail.strip_prefix("Effective Date ") {
                        match nw_date(e) {
                            Some(e) => t.edate = Some(e),
                            None => return rej("malformed effective date"),
                        }
                    } else {
                        t.desc.push(' ');
                        t.desc.push_str(&detail);
                    }
                }
            }
            if !bal.is_empty() {
                trns.last_mut().unwrap().bal = Some(pdf_amount(&bal.join(" "))?);
            }
        }
    }
    if !trns.is_empty() && !valid_ns(&ns) {
        return rej("invalid namespace");
    }
    let out = trns
        .into_iter()
        .map(|t| {
            let peer = peer_account(&t.q);
            let tag = |acct: &str, q: &Dec| {
                let f = Fp::default().date(t.date.y, t.date.m, t.date.d).i32(t.n).s(&t.desc).s(acct).amount(q, "GBP");
                format!("fp-{}-{}", ns, f.value())
            };
            let base = Comment::default().flag(UNKNOWN).val("bank", "Nationwide");
            let sc = base
                .clone()
                .flag("import-self")
                .flag(&tag("assets:unknown", &t.q))
                .val("seq", &format!("{}-{}", ns, t.n + 1));
            let pc = base.flag("import-peer").flag(&tag(peer, &t.q.negate()));
            Trn {
                date: t.date.iso(),
                edate: t.edate.map(|e| e.iso()),
                desc: t.desc.clone(),
                posts: vec![
                    Post {
                        acct: "assets:unknown".into(),
                        amt: plain(gbp_amt(&t.q)),
                        bal: t.bal.as_ref().map(|b| Bal::Amt(gbp_amt(b))),
                        c: sc,
                        ..Post::default()
                    },
                    Post { acct: peer.into(), amt: plain(gbp_amt(&t.q.negate())), c: pc, ..Post::default() },
                ],
                ..Trn::default()
            }
        })
        .collect();
    Ok((ns, out))
}
