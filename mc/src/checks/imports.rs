//! C12-C15 and C22-C25: importers.

use super::merging::Dig;
use crate::ctx::*;
use crate::ensure;
use crate::imports::*;
use crate::journal::*;
use crate::sut::Out;
use std::collections::BTreeSet;

fn s(x: &str) -> String {
    x.to_string()
}

fn sv(v: &[&str]) -> Vec<String> {
    v.iter().map(|x| x.to_string()).collect()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Look {
    /// Everything but fingerprints.
    Content,
    /// Fingerprints and positions only.
    Fps,
}

fn strip(t: &[Trn], look: Look) -> Vec<Trn> {
    t.iter()
        .map(|t| {
            let mut t = t.clone();
            for p in &mut t.posts {
                match look {
                    Look::Content => p.c.flags.retain(|f| !f.starts_with("fp-")),
                    Look::Fps => {
                        let mut c = Comment { flags: p.fps(), ..Comment::default() };
                        if let Some(q) = p.c.kv.get("seq") {
                            c = c.val("seq", q);
                        }
                        *p = Post { c, ..Post::default() };
                    }
                }
            }
            if look == Look::Fps {
                t = Trn { posts: t.posts, ..Trn::default() };
            }
            t
        })
        .collect()
}

fn difference(want: &[Trn], got: &[Trn]) -> String {
    if want.len() != got.len() {
        return format!("{} transactions instead of {}", got.len(), want.len());
    }
    for (k, (w, g)) in want.iter().zip(got).enumerate() {
        if w != g {
            return format!("transaction {} is\n{}instead of\n{}", k + 1, render(std::slice::from_ref(g)), render(std::slice::from_ref(w)));
        }
    }
    s("equal")
}

/// Runs an import whose input files are in place, and compares it with what is expected.
fn judge(e: &mut Env, args: &[&str], v: &Verdict, look: Look, what: &str, old: bool) -> R {
    judge_with(e, args, v, look, what, old, |_, _| {})
}

fn judge_with(e: &mut Env, args: &[&str], v: &Verdict, look: Look, what: &str, old: bool, adjust: impl Fn(&mut Vec<Trn>, &[Trn])) -> R {
    if old {
        e.sut.put("out.journal", "; what was here before\n");
    } else {
        e.sut.rm("out.journal");
    }
    let mut a = vec!["import", "-o", "out.journal"];
    a.extend_from_slice(args);
    let out = e.sut.run(&a);
    let got = e.sut.get_str("out.journal");
    ensure!(out.orderly(), "disorderly", "{}: {}", what, out.short());
    match v {
        Verdict::Grey => {
            e.outcome("left open");
            Ok(())
        }
        Verdict::Reject(why) => {
            e.outcome("rejected");
            ensure!(!out.ok(), "accepted", "accepted in spite of {}: {}\noutput:\n{}", why, what, got.as_deref().unwrap_or(""));
            let want = old.then_some("; what was here before\n");
            ensure!(got.as_deref() == want, "output of a rejected import", "rejected ({}), but the output file was written: {}", why, what);
            Ok(())
        }
        Verdict::Ok(_, want) => {
            e.outcome("imported");
            ensure!(out.ok(), "rejected", "rejected: {}\n{}", what, out.short());
            let g = match parse(got.as_deref().unwrap_or("")) {
                Ok(g) => g,
                Err(x) => return fail("unreadable", format!("unreadable output ({}): {}\n{}", x, what, got.unwrap_or_default())),
            };
            let (mut w, g) = (strip(want, look), strip(&g, look));
            adjust(&mut w, &g);
            ensure!(w == g, "imported wrongly", "{}\n{}", difference(&w, &g), what);
            if look == Look::Fps {
                let mut seen = BTreeSet::new();
                for f in g.iter().flat_map(|t| &t.posts).flat_map(|p| &p.c.flags) {
                    ensure!(seen.insert(f.clone()), "shared fingerprint", "two postings share {}\n{}", f, what);
                }
            }
            e.validated();
            Ok(())
        }
    }
}

fn short(t: &str) -> String {
    t.chars().take(1500).collect()
}

// ---------------------------------------------------------------------------------------------
// Nationwide CSV.

fn preamble(account: &str) -> Vec<Vec<String>> {
    vec![
        sv(&["Account Name:", account]),
        sv(&["Account Balance:", "£1234.56"]),
        sv(&["Available Balance:", "£-1234.56"]),
        vec![],
    ]
}

/// A statement: layout, account name and rows.
fn statement(six: bool, account: &str, rows: &[Vec<String>]) -> Vec<Vec<String>> {
    let mut v = preamble(account);
    v.push(if six { sv(&H6) } else { sv(&H5) });
    v.extend_from_slice(rows);
    v
}

fn nw_row(six: bool, date: &str, a: &str, b: &str, out: &str, inn: &str, bal: &str) -> Vec<String> {
    if six {
        sv(&[date, a, b, out, inn, bal])
    } else {
        sv(&[date, a, b, out, inn])
    }
}

fn ron_map(t: &[(String, String)]) -> String {
    let e: Vec<String> = t.iter().map(|(k, v)| format!("    {}: {},\n", crate::rules::q(k), crate::rules::q(v))).collect();
    format!("{{\n{}}}\n", e.concat())
}

fn nw_case(e: &mut Env, recs: &[Vec<String>], st: Style, ns: &Ns, legacy: bool, look: Look, old: bool) -> R {
    let text = csv(recs, st);
    e.sut.put("in.csv", cp1252(&text));
    let mut args = sv(&["nationwide-csv"]);
    args.extend(ns.args());
    if let Ns::Lookup(t) = ns {
        e.sut.put("lookup.ron", ron_map(t));
    }
    if legacy {
        args.push(s("--include-legacy-fingerprint"));
    }
    args.push(s("in.csv"));
    let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    let v = writable(nw_csv(recs, ns, legacy));
    e.case(!matches!(v, Verdict::Grey), &(&text, &args, if let Ns::Lookup(t) = ns { &t[..] } else { &[] }));
    e.sample(|| short(&text));
    judge(e, &a, &v, look, &format!("{}\n{}", args.join(" "), short(&text)), old)
}

const ACCT: &str = "****12345";

/// Cells that hold money: all strings over an alphabet up to a length.
fn money_strings(max: usize) -> Vec<String> {
    let al = ['£', '-', '.', '0', '1', '9', ',', ' ', '+'];
    let mut v = vec![String::new()];
    let mut last = v.clone();
    for _ in 0..max {
        last = last.iter().flat_map(|p| al.iter().map(move |c| format!("{}{}", p, c))).collect();
        v.extend(last.clone());
    }
    v
}

/// Money cells of every magnitude.
fn money_values() -> Vec<String> {
    let mut v: Vec<String> = (0..=1099).map(|p| format!("£{}.{:02}", p / 100, p % 100)).collect();
    for k in 1..=14u32 {
        for d in [-1i64, 0, 1] {
            let p = 10i64.pow(k) + d;
            v.push(format!("£{}.{:02}", p / 100, p % 100));
        }
    }
    v.push(s("£00001.10"));
    v.push(s("£92233720368547758.07"));
    let neg: Vec<String> = v.iter().map(|x| x.replace('£', "£-")).collect();
    v.extend(neg);
    v
}

fn texts() -> Vec<&'static str> {
    vec![
        "Tesco Stores 1234",
        "Payment to A B",
        "x",
        "café, £5 off; \"deal\"",
        "a, b",
        "100",
        "12.50",
        "key: value",
        "a @ b",
        "A&B/C-D_E.F (G) [H] {I} =J +K #L %M |N *O !P ~Q ^R <S> ?T 'U' `V` \\W $X",
        "ÀÉÎÕÜ ß ñ €uro ’quote’ – dash",
        "a very long description of a transaction, as long as banks ever print, with a reference 0123456789 and a name, and more text to get well beyond eighty columns",
        "Mr. & Mrs. O'Neill",
        "true",
        "2020-01-01",
    ]
}

/// Every printable character by itself, in pairs and around a letter, and words that mean "nothing".
fn odd_texts() -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    let chars: Vec<char> = (0x21u8..0x7f).map(char::from).chain("£é€ß–ÿ¬".chars()).collect();
    for c in &chars {
        v.extend([format!("{}", c), format!("{0}{0}", c), format!("{}a", c), format!("a{}", c), format!("{} a", c), format!("a {}", c), format!("a {} b", c)]);
    }
    for w in ["N/A", "n/a", "NULL", "null", "None", "none", "nil", "NaN", "0", "00", "0.00", "-1", "--", "---", "unknown", "Unknown", "UNKNOWN", "-x-", "a  b", "false", "no", "blank", "empty", "self", "peer", "import-self", "unknown-account", "GBP", "Description", "Location", "Balance", "Date", "Pending", "Completed", "Total"] {
        v.push(s(w));
    }
    v
}

/// Leaves open what a journal cannot say.
fn writable(v: Verdict) -> Verdict {
    if let Verdict::Ok(_, t) = &v {
        if parse(&render(t)).ok().as_ref() != Some(t) {
            return Verdict::Grey;
        }
    }
    v
}

/// A finite grid of statements with several rows whose dates are grouped.
fn sequences(max: usize) -> Vec<Vec<(usize, usize)>> {
    // (date, kind of row); dates do not come back once left.
    let mut all: Vec<Vec<(usize, usize)>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..max {
        let mut next = Vec::new();
        for p in &last {
            for d in 0..3 {
                if p.last().map(|l: &(usize, usize)| l.0) != Some(d) && p.iter().any(|x| x.0 == d) {
                    continue;
                }
                for k in 0..3 {
                    let mut q = p.clone();
                    q.push((d, k));
                    next.push(q);
                }
            }
        }
        all.extend(next.clone());
        last = next;
    }
    all
}

fn seq_rows(six: bool, q: &[(usize, usize)]) -> Vec<Vec<String>> {
    let dates = ["31 Dec 2019", "01 Jan 2020", "01 Jan 2019"];
    q.iter()
        .map(|(d, k)| match k {
            0 => nw_row(six, dates[*d], "Card", "Shop", "£1.00", "", "£10.00"),
            1 => nw_row(six, dates[*d], "Card", "Shop", "", "£1.00", "£10.00"),
            _ => nw_row(six, dates[*d], "Bank credit", "Someone", "", "£2.50", "£-7.10"),
        })
        .collect()
}

pub fn c12(c: &Ctx) -> (&'static str, &'static str) {
    let d = Ns::Default;
    let years = [1000, 1900, 1970, 1999, 2000, 2019, 2020, 2023, 2024, 2100, 9999];
    c.par("dates", years.len() * 14 * 33 * 2, |e, i| {
        let mut g = Dig(i);
        let six = g.take(2) == 1;
        let (day, mon, y) = (g.take(33), g.take(14), *g.of(&years));
        let name = if (1..=12).contains(&mon) { MONTHS[mon - 1] } else { ["Foo", "13"][mon / 13] };
        let row = nw_row(six, &format!("{:02} {} {}", day, name, y), "t", "d", "£1.00", "", "£1.00");
        nw_case(e, &statement(six, ACCT, &[row]), PLAIN, &d, false, Look::Content, false)
    });
    let bad_dates = [
        "", "Jan 2019", "01 2019", "01 Jan", "2019-01-01", "01/01/2019", "Jan 01 2019", "01 Jan 19", "01 Jan 019", "01 Jan 02019",
        "01 Jan 12019", "01 Jan -2019", "01 Jan +2019", "-1 Jan 2019", "01 Jan 2019 x", "x 01 Jan 2019", "01 Jan 2019 00:00", "001 Jan 2019",
        "01 J 2019", "01 Ja 2019", "01 Jam 2019", "0x1 Jan 2019", "one Jan 2019", "01 Jan MMXX", "1.0 Jan 2019", "01 Jan 20.9", "£1.00",
        "29 Feb 2019", "30 Feb 2020", "31 Apr 2019", "99 Dec 2019", "00 Jan 2019",
    ];
    c.par("malformed dates", bad_dates.len() * 2 * 3, |e, i| {
        let mut g = Dig(i);
        let six = g.take(2) == 1;
        let pos = g.take(3);
        let mut rows = vec![nw_row(six, "01 Jan 2019", "t", "d", "£1.00", "", "£1.00"); 3];
        rows[pos][0] = s(g.of(&bad_dates));
        nw_case(e, &statement(six, ACCT, &rows), PLAIN, &d, false, Look::Content, i % 2 == 0)
    });
    let ms = money_strings(if c.thorough { 6 } else { 4 });
    let cells = 4;
    c.par("money cells", ms.len() * cells, |e, i| {
        let mut g = Dig(i);
        let k = g.take(cells);
        let m = g.of(&ms);
        let row = match k {
            0 => nw_row(false, "01 Jan 2019", "t", "d", m, "", ""),
            1 => nw_row(true, "01 Jan 2019", "t", "d", "", m, "£1.00"),
            2 => nw_row(true, "01 Jan 2019", "t", "d", "£1.00", m, "£1.00"),
            _ => nw_row(true, "01 Jan 2019", "t", "d", "", "£1.00", m),
        };
        nw_case(e, &statement(k > 0, ACCT, &[row]), PLAIN, &d, false, Look::Content, false)
    });
    // Around the well-formed: "£12.34" with one or two characters replaced, inserted or deleted.
    let mut near = BTreeSet::new();
    let al: Vec<char> = "£-.,+ 019xe_$€".chars().collect();
    for base in ["£12.34", "£-12.34", "£1,234.56"] {
        let b: Vec<char> = base.chars().collect();
        let mut one = BTreeSet::new();
        let edits = |b: &[char], o: &mut BTreeSet<Vec<char>>| {
            for p in 0..=b.len() {
                for ch in &al {
                    let mut x = b.to_vec();
                    x.insert(p, *ch);
                    o.insert(x);
                    if p < b.len() {
                        let mut x = b.to_vec();
                        x[p] = *ch;
                        o.insert(x);
                    }
                }
                if p < b.len() {
                    let mut x = b.to_vec();
                    x.remove(p);
                    o.insert(x);
                }
            }
        };
        edits(&b, &mut one);
        near.extend(one.clone());
        if c.thorough {
            for x in &one {
                edits(x, &mut near);
            }
        }
    }
    let near: Vec<String> = near.into_iter().map(|x| x.into_iter().collect()).collect();
    c.par("near well-formed money", near.len() * 5, |e, i| {
        let mut g = Dig(i);
        let k = g.take(5);
        let m = g.of(&near);
        let six = k != 0;
        let row = match k {
            0 | 1 => nw_row(six, "01 Jan 2019", "t", "d", m, "", "£1.00"),
            2 => nw_row(true, "01 Jan 2019", "t", "d", "", m, "£1.00"),
            3 => nw_row(true, "01 Jan 2019", "t", "d", "£1.00", "", m),
            _ => nw_row(true, "01 Jan 2019", "t", "d", "£1.00", "", "£1.00"),
        };
        let mut st = statement(six, ACCT, &[row]);
        if k == 4 {
            st[1 + i % 2][1] = m.clone();
        }
        nw_case(e, &st, PLAIN, &d, false, Look::Content, false)
    });
    let mv = money_values();
    let chunk = 100;
    c.par("values", mv.len().div_ceil(chunk) * 3, |e, i| {
        let mut g = Dig(i);
        let k = g.take(3);
        let part = g.take(mv.len().div_ceil(chunk));
        let rows: Vec<Vec<String>> = mv[part * chunk..((part + 1) * chunk).min(mv.len())]
            .iter()
            .map(|m| match k {
                0 => nw_row(false, "01 Jan 2019", "t", "d", m, "", ""),
                1 => nw_row(true, "01 Jan 2019", "t", "d", "", m, m),
                _ => nw_row(true, "01 Jan 2019", "t", "d", m, "", "£0.00"),
            })
            .collect();
        nw_case(e, &statement(k > 0, ACCT, &rows), PLAIN, &d, false, Look::Content, true)
    });
    // Shapes of rows: number of columns, which of the money cells are filled.
    c.par("row shapes", 2 * 10 * 64 * 3, |e, i| {
        let mut g = Dig(i);
        let six = g.take(2) == 1;
        let (n, fill, pos) = (g.take(10), g.take(64), g.take(3));
        let m = |b: usize| ["", "£3.00", "£0.00", "£-3.00"][fill >> (2 * b) & 3];
        let mut row = sv(&["01 Jan 2019", "t", "d", m(0), m(1), m(2)]);
        row.extend(sv(&["", "£4.00", "x", ""]));
        row.truncate(n);
        if n == 0 {
            row = vec![];
        }
        let mut rows = vec![nw_row(six, "01 Jan 2019", "t", "d", "£1.00", "", "£1.00"); 2];
        rows.insert(pos, row);
        nw_case(e, &statement(six, ACCT, &rows), PLAIN, &d, false, Look::Content, i % 2 == 1)
    });
    // Headers and preambles.
    let hm = ["", "date", "Date ", "X", "Paid Out", "Paid in", "Paid out", "Balance", "Location", "Description", "DATE", "Dates", "Transaction date", "Transactions", "Transaction", "Transaction Type", "Transaction type", "Type", "Details", "Amount", "Money out", "Money in", "Paid out (\u{a3})", "Paid", "In", "Out", "Running Balance", "Place", "Reference", "-"];
    c.par("headers", 2 * 6 * hm.len() * 4, |e, i| {
        let mut g = Dig(i);
        let six = g.take(2) == 1;
        let (col, m, kind) = (g.take(6), *g.of(&hm), g.take(4));
        let mut st = statement(six, ACCT, &[nw_row(six, "01 Jan 2019", "t", "d", "£1.00", "", "£1.00")]);
        let n = st[4].len();
        let col = col % n;
        match kind {
            0 => st[4][col] = s(m),
            1 => st[4].insert(col, s(m)),
            2 => {
                st[4].remove(col);
            }
            _ => st[4].swap(col, (col + 1) % n),
        }
        if i % 3 == 0 {
            // Without rows as well.
            st.truncate(5);
        }
        nw_case(e, &st, PLAIN, &d, false, Look::Content, true)
    });
    let pm = ["", "Account Name:", "Account Balance:", "Available Balance:", "Account name:", "Account Name", "Account Name: x", "Date", "Overdraft Limit:", "Overdraft:", "Balance:", "Account:", "Name:", "Account Number:", "Account Type:", "Sort Code:", "IBAN:", "Opening Balance:", "Closing Balance:", "Statement Balance:", "Current Balance:",
        "account balance:", "Available balance:", "AVAILABLE BALANCE:", "Account Balance", "Available Balance", "Account Balance :", "Arranged Overdraft:", "Available Funds:", "Available Credit:", "Card Number:", "Credit Limit:", "Period:", "-", "N/A", "\u{a3}1.00", "12345"];
    c.par("preambles", 3 * pm.len() + 3 + 6 + 12, |e, i| {
        let mut st = statement(true, ACCT, &[nw_row(true, "01 Jan 2019", "t", "d", "£1.00", "", "£1.00")]);
        let n = 3 * pm.len();
        if i < n {
            st[i % 3][0] = s(pm[i / 3]);
        } else if i < n + 3 {
            st.remove(i - n);
        } else if i < n + 9 {
            st.truncate(i - n - 3);
        } else {
            let k = i - n - 9;
            st[1 + k % 2][1] = s(["", "1.00", "£", "£1", "GBP1.00", "£1.0"][k / 2]);
        }
        nw_case(e, &st, PLAIN, &d, false, Look::Content, true)
    });
    // Sequences of rows over dates.
    let qs = sequences(if c.thorough { 6 } else { 5 });
    // Cells that are the same, or special, together.
    let (ts, ls) = (["Fee", "Shop", "Transfer from A", "x"], ["", "Fee", "Shop", "London"]);
    let (ams, bals) = (["£0.00", "£1.00", "£2.50", "£100.00"], ["£0.00", "£1.00", "£-1.00", "£100.00", "£-100.00"]);
    c.par("cells together", 2 * 4 * 4 * 4 * 2 * 5 * 3, |e, i| {
        let mut g = Dig(i);
        let six = g.take(2) == 1;
        // A transaction without a description may be refused.
        let ls = if six { ["x", "Fee", "Shop", "London"] } else { ls };
        let (t, l, a, paid_in, b, rows) = (*g.of(&ts), *g.of(&ls), *g.of(&ams), g.take(2) == 1, *g.of(&bals), g.take(3));
        let (out, inn) = if paid_in { ("", a) } else { (a, "") };
        let r = nw_row(six, "31 Dec 2019", t, l, out, inn, b);
        let recs = match rows {
            0 => vec![r],
            1 => vec![nw_row(six, "31 Dec 2019", "Card", "Fee", "£1.00", "", "£1.00"), r],
            _ => vec![nw_row(six, "31 Dec 2019", t, l, inn, out, b), r, nw_row(six, "01 Jan 2020", t, l, out, inn, b)],
        };
        nw_case(e, &statement(six, ACCT, &recs), PLAIN, &d, false, Look::Content, false)
    });
    c.par("sequences", qs.len() * 2, |e, i| {
        let mut g = Dig(i);
        let six = g.take(2) == 1;
        let q = g.of(&qs);
        nw_case(e, &statement(six, ACCT, &seq_rows(six, q)), PLAIN, &d, false, Look::Content, false)
    });
    // Texts, accounts, styles.
    let tx = texts();
    let st = styles();
    let accts = ["****12345", "Account 1", "FlexAccount é 2", "a, \"b\""];
    let maybe: Vec<&str> = tx.iter().copied().chain([""]).collect();
    c.par("texts", tx.len() * maybe.len() * 3 * 2, |e, i| {
        let mut g = Dig(i);
        let (a, b) = (*g.of(&tx), *g.of(&maybe));
        let (k, io) = (g.take(3), g.take(2));
        let six = k < 2;
        let b = if six && b.is_empty() { "b" } else { b };
        let (o, n) = if io == 0 { ("£1.00", "") } else { ("", "£1.00") };
        let rows = vec![nw_row(six, "05 May 2015", a, b, o, n, "£1.00")];
        nw_case(e, &statement(six, accts[i % accts.len()], &rows), st[i % st.len()], &d, k == 1, Look::Content, false)
    });
    let odd = odd_texts();
    c.par("odd texts", odd.len() * 8, |e, i| {
        let mut g = Dig(i);
        let x = g.of(&odd).clone();
        let k = g.take(8);
        let six = k < 2 || k == 4;
        let (a, b) = if k % 2 == 0 { (x.as_str(), "d") } else { ("t", x.as_str()) };
        let (a, b) = if k > 3 { (x.as_str(), x.as_str()) } else { (a, b) };
        let (a, b) = match k {
            6 => (a, ""),
            7 => ("", b),
            _ => (a, b),
        };
        let (o, n) = if i % 2 == 0 { ("£1.00", "") } else { ("", "£1.00") };
        let rows = vec![nw_row(six, "05 May 2015", "t", "d", o, n, "£1.00"), nw_row(six, "05 May 2015", a, b, o, n, "£1.00")];
        let acct = if k == 4 && !x.contains(['"', ',']) { x.as_str() } else { ACCT };
        nw_case(e, &statement(six, acct, &rows), PLAIN, &if k == 4 { Ns::Fixed(s("acct")) } else { d.clone() }, six, Look::Content, false)
    });
    c.par("styles", st.len() * 2 * accts.len() * 3, |e, i| {
        let mut g = Dig(i);
        let style = *g.of(&st);
        let six = g.take(2) == 1;
        let acct = *g.of(&accts);
        let rows = seq_rows(six, &[(0, 0), (0, 1), (1, 2)]);
        let mut x = statement(six, acct, &rows[..g.take(3) + 1]);
        // Empty lines between rows mean nothing.
        x.insert(6.min(x.len()), vec![]);
        nw_case(e, &x, style, &d, false, Look::Content, false)
    });
    // Every bad row at every position of longer files.
    let n = if c.thorough { 40 } else { 12 };
    c.par("bad row positions", n * 6 * 2, |e, i| {
        let mut g = Dig(i);
        let six = g.take(2) == 1;
        let (kind, pos) = (g.take(6), g.take(n));
        let mut rows = vec![nw_row(six, "01 Jan 2019", "t", "d", "£1.00", "", "£1.00"); n];
        match kind {
            0 => rows[pos][0] = s("01 Jan"),
            1 => rows[pos][3] = s("£1"),
            2 => rows[pos][3] = s(""),
            3 => rows[pos][4] = s("£2.00"),
            4 => {
                rows[pos].pop();
            }
            _ => rows[pos].push(s("")),
        }
        nw_case(e, &statement(six, ACCT, &rows), PLAIN, &d, false, Look::Content, i % 4 < 2)
    });
    let sizes: &[usize] = if c.thorough { &[0, 1, 2, 9, 10, 11, 99, 100, 127, 128, 129, 255, 256, 257, 1000, 5000, 20000] } else { &[0, 1, 2, 10, 100, 128, 129, 256, 257, 1000] };
    c.par("sizes", sizes.len() * 4, |e, i| {
        let mut g = Dig(i);
        let (six, spread) = (g.take(2) == 1, g.take(2) == 1);
        let rows: Vec<Vec<String>> = (0..*g.of(sizes))
            .map(|k| {
                let d = if spread { Date::from_days(15000 + k as i64) } else { Date { y: 2020, m: 2, d: 29 } };
                nw_row(six, &d.nw(), "t", &format!("row {}", k), &format!("£{}.{:02}", k, k % 100), "", "£1.00")
            })
            .collect();
        nw_case(e, &statement(six, ACCT, &rows), PLAIN, &d, false, Look::Content, true)
    });
    // What a user runs: fresh processes, standard input and output.
    c.par("plain processes", if c.thorough { 256 } else { 48 }, |e, i| {
        let mut g = Dig(i);
        let six = g.take(2) == 1;
        let (sin, sout, bad) = (g.take(2) == 1, g.take(2) == 1, g.take(3));
        let mut rows = seq_rows(six, &[(0, 0), (0, 1), (1, 2), (1, 2)][..1 + g.take(4)]);
        if bad == 1 {
            rows[0][3] = s("£x");
        }
        let recs = statement(six, ACCT, &rows);
        let data = cp1252(&csv(&recs, PLAIN));
        e.sut.put("in.csv", &data);
        e.sut.rm("out.journal");
        let mut args = vec!["import"];
        if !sout {
            args.extend(["-o", "out.journal"]);
        } else if bad == 2 {
            args.extend(["-o", "-"]);
        }
        args.extend(["nationwide-csv", if sin { "-" } else { "in.csv" }]);
        let p = e.sut.plain(&args, sin.then_some(&data[..]), &[]);
        e.case(true, &(i, "plain"));
        let v = nw_csv(&recs, &d, false);
        ensure!(p.out.orderly(), "disorderly", "{}", p.out.short());
        let got = if sout { String::from_utf8_lossy(&p.stdout).into_owned() } else { e.sut.get_str("out.journal").unwrap_or_default() };
        match v {
            Verdict::Ok(_, want) => {
                ensure!(p.out.ok(), "rejected", "{}", p.out.short());
                let g = parse(&got).or_else(|x| fail("unreadable", x))?;
                let (w, g) = (strip(&want, Look::Content), strip(&g, Look::Content));
                ensure!(w == g, "imported wrongly", "{}", difference(&w, &g));
                ensure!(sout || p.stdout.is_empty(), "stray output", "wrote to standard output as well: {}", String::from_utf8_lossy(&p.stdout));
            }
            _ => {
                ensure!(!p.out.ok(), "accepted", "accepted: {}", short(&csv(&recs, PLAIN)));
                ensure!(p.stdout.is_empty() && e.sut.get("out.journal").is_none(), "output of a rejected import", "rejected, but wrote output");
            }
        }
        Ok(())
    });
    c.assume("rows of one date are consecutive where the position within the date matters; thousands separators in the right places, amounts beyond 64 bits of pence, one-digit days and other spellings of months are left open");
    ("exploration", "every case is one statement file built from the date, money, text, shape, header and sequence alphabets; distinct by file content and options")
}

// ---------------------------------------------------------------------------------------------
// PayPal.

fn tz_file(t: &[(String, String)]) -> String {
    let mut o = s("abbreviation,utc_offset\n");
    for (a, b) in t {
        o.push_str(&format!("{},{}\n", a, b));
    }
    o
}

fn std_tzs() -> Vec<(String, String)> {
    [("GMT", "UTC+00"), ("BST", "UTC+01"), ("PDT", "UTC-07"), ("IST", "UTC+05:30"), ("NST", "UTC-03:30"), ("LINT", "UTC+14"), ("BIT", "UTC-12"), ("ODD", "UTC+23:59")]
        .iter()
        .map(|(a, b)| (s(a), s(b)))
        .collect()
}

fn pp(date: &str, time: &str, tz: &str) -> Pp {
    Pp {
        date: s(date),
        time: s(time),
        tz: s(tz),
        name: s("A Shop"),
        typ: s("Website Payment"),
        status: s("Completed"),
        cur: s("GBP"),
        amount: s("-1.25"),
        receipt: s(""),
        balance: s("10.00"),
    }
}

fn pp_file(rows: &[Pp]) -> Vec<Vec<String>> {
    let mut v = vec![sv(&HP)];
    v.extend(rows.iter().map(|r| r.cells()));
    v
}

fn opts(zone: Zone) -> PpOpts {
    PpOpts { zone, ns: None, legacy: false, tzs: std_tzs() }
}

fn pp_case(e: &mut Env, recs: &[Vec<String>], st: Style, o: &PpOpts, look: Look, old: bool) -> R {
    let text = csv(recs, st);
    let tz = tz_file(&o.tzs);
    e.sut.put("in.csv", &text);
    e.sut.put("tz.csv", &tz);
    let mut args = sv(&["paypal-csv", "--output-timezone", o.zone.name()]);
    if let Some(n) = &o.ns {
        args.extend([s("--fingerprint-namespace"), n.clone()]);
    }
    if o.legacy {
        args.push(s("--include-legacy-fingerprint"));
    }
    args.extend(sv(&["in.csv", "tz.csv"]));
    let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    let v = writable(paypal(recs, o));
    e.case(!matches!(v, Verdict::Grey), &(&text, &args, &tz));
    e.sample(|| short(&text));
    judge_with(e, &a, &v, look, &format!("{}\n{}{}", args.join(" "), short(&text), tz), old, |w, g| {
        // That peer postings lack their fingerprint is judged in a family of its own.
        for (w, g) in w.iter_mut().flat_map(|t| &mut t.posts).zip(g.iter().flat_map(|t| &t.posts)).skip(1).step_by(2) {
            if look == Look::Fps && !g.c.flags.iter().any(|f| f.starts_with("fp-ppcsv")) {
                w.c.flags.retain(|f| !f.starts_with("fp-ppcsv"));
            }
        }
    })
}

pub fn c13(c: &Ctx) -> (&'static str, &'static str) {
    let full = c.thorough;
    // One row: every date, around the days of clock changes at every hour, in every pair of zones.
    let tzs = std_tzs();
    let mut days = Vec::new();
    for y in [2008, 2019, 2020, 2024] {
        for (m, d) in [(1, 1), (2, 28), (2, 29), (3, 1), (6, 30), (12, 31)] {
            days.extend(Date::new(y, m, d));
        }
        for m in [3, 10, 11] {
            for d in 1..=31 {
                if let Some(x) = Date::new(y, m, d) {
                    if x.weekday() == 6 || (full && x.weekday() == 5) || (full && x.weekday() == 0) {
                        days.push(x);
                    }
                }
            }
        }
    }
    let times: Vec<String> = if full {
        (0..24).flat_map(|h| ["00:00", "00:01", "29:59", "30:00", "59:59"].map(|m| format!("{:02}:{}", h, m))).collect()
    } else {
        sv(&["00:00:00", "00:59:59", "01:00:00", "01:59:59", "02:00:00", "04:59:59", "05:00:00", "06:00:00", "07:00:00", "11:59:59", "12:00:00", "18:29:59", "18:30:00", "23:59:59"])
    };
    // All times of a day in one file: each is a transaction of its own.
    c.par("instants", days.len() * tzs.len() * ZONES.len(), |e, i| {
        let mut g = Dig(i);
        let (d, tz, z) = (*g.of(&days), g.of(&tzs).0.clone(), *g.of(&ZONES));
        let rows: Vec<Pp> = times.iter().map(|t| pp(&d.dmy(), t, &tz)).collect();
        pp_case(e, &pp_file(&rows), PLAIN, &opts(z), Look::Content, false)
    });
    let years = [1000, 1970, 1999, 2000, 2019, 2020, 2100, 9990];
    c.par("dates", years.len() * 14 * 33, |e, i| {
        let mut g = Dig(i);
        let (d, m, y) = (g.take(33), g.take(14), *g.of(&years));
        pp_case(e, &pp_file(&[pp(&format!("{:02}/{:02}/{:04}", d, m, y), "12:00:00", "GMT")]), PLAIN, &opts(ZONES[0]), Look::Content, false)
    });
    let bad = [
        "", "2019-01-01", "01-01-2019", "01/01/19", "01/01/02019", "01/01/12019", "01/01/-2019", "01/01", "13/13/2019", "01/Jan/2019", "1.1.2019",
        "01/01/2019 x", "x", "01//2019", "/01/2019", "01/01/", "+1/01/2019", "-1/01/2019", "001/01/2019", "01/001/2019", "01/01/2019/01",
    ];
    let badt = ["", "1", "12:00", "12:00:00:00", "24:00:00", "25:00:00", "12:60:00", "12:00:61", "12:00:99", "-1:00:00", "12.00.00", "noon", "12:00:00 PM", "12:00:00x", "99:99:99"];
    c.par("malformed dates and times", (bad.len() + badt.len()) * 3, |e, i| {
        let mut g = Dig(i);
        let pos = g.take(3);
        let k = g.take(bad.len() + badt.len());
        let mut rows = vec![pp("01/01/2019", "12:00:00", "GMT"); 3];
        if k < bad.len() {
            rows[pos].date = s(bad[k]);
        } else {
            rows[pos].time = s(badt[k - bad.len()]);
        }
        pp_case(e, &pp_file(&rows), PLAIN, &opts(ZONES[0]), Look::Content, i % 2 == 0)
    });
    c.par("times", 24 * 60 * 3, |e, i| {
        let mut g = Dig(i);
        let (h, m, x) = (g.take(24), g.take(60), [0, 30, 59][g.take(3)]);
        pp_case(e, &pp_file(&[pp("28/02/2019", &format!("{:02}:{:02}:{:02}", h, m, x), "IST")]), PLAIN, &opts(ZONES[i % ZONES.len()]), Look::Content, false)
    });
    // Groups: sequences of rows over instants, some equal although written differently.
    let instants = [("01/01/2020", "00:30:00", "GMT"), ("01/01/2020", "01:30:00", "BST"), ("31/12/2019", "17:30:00", "PDT"), ("01/01/2020", "00:30:01", "GMT"), ("01/01/2020", "00:30:00", "BST")];
    let mut v: Vec<Vec<(usize, usize)>> = vec![vec![]];
    let mut last = v.clone();
    for _ in 0..if full { 4 } else { 3 } {
        last = last
            .iter()
            .flat_map(|p| {
                (0..instants.len() * 4).map(move |k| {
                    let mut q = p.clone();
                    q.push((k % 5, k / 5));
                    q
                })
            })
            .collect();
        v.extend(last.clone());
    }
    let per = 1;
    c.par("groups", v.len() / per, |e, i| {
        let rows: Vec<Pp> = v[i]
            .iter()
            .enumerate()
            .map(|(n, (t, k))| {
                let (d, h, z) = instants[*t];
                let mut r = pp(d, h, z);
                r.name = match k {
                    0 => s("First"),
                    1 => s("Second"),
                    _ => s(""),
                };
                if *k == 3 {
                    r.status = s("Pending");
                    r.cur = s("USD");
                }
                r.amount = format!("{}{}.{:02}", if k % 2 == 0 { "-" } else { "" }, n + 1, n);
                r
            })
            .collect();
        pp_case(e, &pp_file(&rows), PLAIN, &opts(ZONES[i % 3]), Look::Content, i % 8 == 0)
    });
    // Cells that are the same, or special, together.
    let (ns, ams, bs) = (["", "A Shop", "Fee", "GBP"], ["0.00", "1.00", "-1.00", "-2.50"], ["0.00", "1.00", "-1.00", "-7.10"]);
    c.par("cells together", 4 * 3 * 2 * 2 * 4 * 4 * 4 * 4, |e, i| {
        let mut g = Dig(i);
        let mut r = pp("01/01/2019", "12:00:00", "GMT");
        r.name = s(g.of(&ns));
        r.typ = s(g.of(&["Fee", "A Shop", "Payment"]));
        r.status = s(g.of(&["Completed", "Pending"]));
        r.cur = s(g.of(&["GBP", "USD"]));
        r.amount = s(g.of(&ams));
        r.balance = s(g.of(&bs));
        r.receipt = s(g.of(&["", "1234", "A Shop", "0.00"]));
        let mut rows = vec![pp("01/01/2019", "12:00:00", "GMT"), r.clone()];
        match g.take(4) {
            0 => {}
            1 => rows.swap(0, 1),
            2 => rows[0].time = s("11:59:59"),
            _ => rows.insert(0, r),
        }
        pp_case(e, &pp_file(&rows), PLAIN, &opts(ZONES[0]), Look::Content, false)
    });
    // Amounts.
    let mut am: Vec<String> = vec![];
    for ip in ["0", "1", "7", "10", "99", "100", "999", "1000", "123456", "999999999", "123456789012", "90071992547409", "999999999999999", "12345678901234567890"] {
        for f in ["", ".0", ".00", ".01", ".10", ".5", ".93", ".99", ".001", ".000"] {
            for sg in ["", "-"] {
                am.push(format!("{}{}{}", sg, ip, f));
            }
        }
    }
    c.par("amounts", am.len() * 3, |e, i| {
        let mut g = Dig(i);
        let k = g.take(3);
        let a = g.of(&am).clone();
        let mut r = pp("01/01/2019", "12:00:00", "GMT");
        if k != 1 {
            r.amount = a.clone();
        }
        if k != 0 {
            r.balance = a;
        }
        r.cur = s(["GBP", "USD", "€"][k]);
        pp_case(e, &pp_file(&[r]), PLAIN, &opts(ZONES[0]), Look::Content, false)
    });
    let ba = ["", "-", ".", "-.", "x", "GBP1", "£1.00", "1.2.3", "1..2", "--1", "1-", "1.-2", "1,23", "1 2", "1.0 0", "NaN", "inf", "true", "0x10", "1/2", "(1.00)", "1.00 GBP", "one"];
    c.par("malformed amounts", ba.len() * 2 * 3, |e, i| {
        let mut g = Dig(i);
        let (k, pos, a) = (g.take(2), g.take(3), s(g.of(&ba)));
        let mut rows = vec![pp("01/01/2019", "12:00:00", "GMT"); 3];
        *(if k == 0 { &mut rows[pos].amount } else { &mut rows[pos].balance }) = a;
        pp_case(e, &pp_file(&rows), PLAIN, &opts(ZONES[0]), Look::Content, i % 2 == 0)
    });
    // Other cells.
    let cells: Vec<(usize, &str)> = [(2usize, ["", "gmt", "XXX", "GMT+1", "UTC", "BST", "GM", "GMTT"]), (5, ["", "completed", "COMPLETED", "Pending", "Refunded", "Completed x", "Denied", "Held"])]
        .iter()
        .flat_map(|(k, v)| v.map(|x| (*k, x)))
        .chain(texts().iter().flat_map(|t| [(3usize, *t), (4, *t), (8, *t)]))
        .chain([(8, ""), (8, "0123"), (8, "1e5"), (6, "USD"), (6, "€"), (6, "JPY")])
        .collect();
    c.par("cells", cells.len() * 3 * 2, |e, i| {
        let mut g = Dig(i);
        let (col, t) = *g.of(&cells);
        let (pos, same) = (g.take(3), g.take(2) == 1);
        let rows: Vec<Pp> = (0..3).map(|k| pp("01/01/2019", if same { "12:00:00" } else { ["12:00:00", "12:00:01", "12:00:02"][k] }, "GMT")).collect();
        let mut f = pp_file(&rows);
        f[1 + pos][col] = s(t);
        if !t.is_ascii() && t.contains('’') {
            f[1 + pos][col] = t.replace('–', "日本");
        }
        pp_case(e, &f, styles()[i % 16], &opts(ZONES[0]), Look::Content, i % 2 == 0)
    });
    let odd = odd_texts();
    c.par("odd texts", odd.len() * 4 * 2, |e, i| {
        let mut g = Dig(i);
        let x = g.of(&odd).clone();
        let (k, pos) = (g.take(4), g.take(2));
        let mut rows = vec![pp("01/01/2019", "12:00:00", "GMT"), pp("01/01/2019", "12:00:00", "GMT")];
        let r = &mut rows[pos];
        match k {
            0 => r.name = x,
            1 => r.typ = x,
            2 => r.receipt = x,
            _ => {
                r.name = x.clone();
                r.typ = x.clone();
                r.receipt = x;
            }
        }
        pp_case(e, &pp_file(&rows), PLAIN, &opts(ZONES[0]), Look::Content, false)
    });
    c.par("shapes", 14 * 4 + 10 * 3 + 2, |e, i| {
        let mut f = pp_file(&vec![pp("01/01/2019", "12:00:00", "GMT"); 4]);
        if i < 56 {
            let (n, pos) = (i % 14, 1 + i / 14);
            f[pos].resize(n, s("1"));
        } else if i < 86 {
            let (col, k) = ((i - 56) % 10, (i - 56) / 10);
            match k {
                0 => f[0][col] = s("Other"),
                1 => f[0][col] = f[0][col].to_lowercase(),
                _ => {
                    for r in &mut f {
                        r.remove(col);
                    }
                }
            }
        } else if i == 86 {
            f.truncate(1);
        } else {
            f.clear();
        }
        pp_case(e, &f, PLAIN, &opts(ZONES[0]), Look::Content, i % 2 == 0)
    });
    // Abbreviation tables in use.
    c.par("abbreviations", 6 * 4, |e, i| {
        let mut g = Dig(i);
        let mut o = opts(ZONES[1]);
        o.tzs = match g.take(6) {
            0 => vec![],
            1 => vec![(s("GMT"), s("UTC-11:45"))],
            2 => vec![(s("GMT"), s("UTC+00")), (s("GMT"), s("UTC+00"))],
            3 => vec![(s("GMT"), s("UTC+00")), (s("gmt"), s("UTC+01"))],
            4 => vec![(s("BST"), s("UTC+01")), (s("GMT"), s("UTC+24"))],
            _ => vec![(s("BST"), s("UTC+1")), (s("GMT"), s("UTC+00"))],
        };
        let z = ["GMT", "gmt", "BST", "X"][g.take(4)];
        pp_case(e, &pp_file(&[pp("01/01/2019", "00:15:00", z)]), PLAIN, &o, Look::Content, true)
    });
    let n = if full { 3000 } else { 300 };
    c.par("sizes", 8, |e, i| {
        let mut g = Dig(i);
        let (same, k) = (g.take(2) == 1, [0, 1, 130, n][g.take(4)]);
        let rows: Vec<Pp> = (0..k)
            .map(|k| {
                let mut r = pp("01/01/2019", &if same { s("12:00:00") } else { format!("{:02}:{:02}:{:02}", k / 3600, k / 60 % 60, k % 60) }, "GMT");
                r.amount = format!("{}.50", k);
                r.name = if k == 0 || k % 3 > 0 || !same { format!("N {}", k) } else { s("") };
                r
            })
            .collect();
        pp_case(e, &pp_file(&rows), PLAIN, &opts(ZONES[0]), Look::Content, true)
    });
    c.assume("currencies are plain commodity names; output zones follow the EU and US clock rules in force since 2007; amounts in other notations than -NNN.NN and leap seconds are left open");
    ("exploration", "every case is one CSV export with its abbreviation table and options, built from the instant, date, amount, cell, shape and grouping alphabets; distinct by content and options")
}

// ---------------------------------------------------------------------------------------------
// Nationwide PDF.

/// One line of a table, before it is laid out.
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
struct Row {
    date: &'static str,
    detail: String,
    pay: String,
    rec: String,
    bal: String,
    /// Distance to the line above.
    gap: i64,
}

fn row(date: &'static str, detail: &str, pay: &str, rec: &str, bal: &str) -> Row {
    Row { date, detail: s(detail), pay: s(pay), rec: s(rec), bal: s(bal), gap: 45 }
}

fn year(y: &'static str) -> Row {
    row(y, "", "", "", "")
}

fn put_words(l: &mut Line, text: &str, left: i64, width: i64) {
    for (k, w) in text.split(' ').filter(|w| !w.is_empty()).enumerate() {
        l.words.push(word(w, left + k as i64 * (width + 5), width));
    }
}

const H: i64 = 30;

fn head_line(top: i64) -> Line {
    let mut l = Line { top, height: H, words: vec![] };
    for (t, x, w) in [("Date", 100, 90), ("Details", 300, 100), ("Payments", 1300, 120), ("Receipts", 1600, 110), ("Balance", 1900, 120)] {
        l.words.push(word(t, x, w));
    }
    l
}

fn account_line() -> Line {
    let mut l = Line { top: 20, height: H, words: vec![] };
    for (k, t) in ["Account", "Number", "12-34-56", "12345678", "more"].iter().enumerate() {
        l.words.push(word(t, 1000 + 100 * k as i64, 90));
    }
    l
}

fn table(rows: &[Row]) -> Para {
    let mut top = 300;
    let mut p = vec![head_line(top)];
    for r in rows {
        top += r.gap;
        let mut l = Line { top, height: H, words: vec![] };
        put_words(&mut l, r.date, 100, 40);
        put_words(&mut l, &r.detail, 300, 40);
        put_words(&mut l, &r.pay, 1310, 80);
        put_words(&mut l, &r.rec, 1610, 80);
        put_words(&mut l, &r.bal, 1910, 80);
        p.push(l);
    }
    p
}

/// One page with one table.
fn simple_doc(rows: &[Row]) -> Doc {
    vec![vec![vec![vec![account_line()]], vec![table(rows)]]]
}

struct PdfRun {
    ns: Ns,
    look: Look,
    old: bool,
}

fn pdf_run(look: Look) -> PdfRun {
    PdfRun { ns: Ns::Default, look, old: false }
}

fn pdf_case(c: &Ctx, e: &mut Env, doc: &Doc, o: &PdfRun) -> R {
    let text = tsv(doc);
    let mut odd = false;
    let v = writable(pdf(doc, &o.ns, &mut odd));
    if o.look == Look::Fps {
        let grouped = match &v {
            Verdict::Ok(_, t) => t.iter().enumerate().all(|(k, x)| k == 0 || t[k - 1].date == x.date || t[..k].iter().all(|y| y.date != x.date)),
            _ => true,
        };
        if odd || !grouped {
            return Ok(());
        }
    }
    pdf_judge(c, e, &text, &v, o)
}

fn pdf_judge(c: &Ctx, e: &mut Env, text: &str, v: &Verdict, o: &PdfRun) -> R {
    let stub = c.root.join("target/ocr");
    let stub = stub.to_str().unwrap();
    e.sut.put("ocr.tsv", text);
    e.sut.put("in.pdf", "");
    if let Ns::Lookup(t) = &o.ns {
        e.sut.put("lookup.ron", ron_map(t));
    }
    let mut args = sv(&["nationwide-pdf"]);
    args.extend(o.ns.args());
    args.extend(sv(&["in.pdf", stub, stub]));
    let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    e.case(!matches!(v, Verdict::Grey), &(&text, &args));
    e.sample(|| short(text));
    judge_with(e, &a, v, o.look, &format!("{}\n{}", args.join(" "), text.chars().take(3000).collect::<String>()), o.old, |w, g| {
        if o.look == Look::Content {
            // Positions within a date are judged with the fingerprints.
            for (w, g) in w.iter_mut().flat_map(|t| &mut t.posts).zip(g.iter().flat_map(|t| &t.posts)) {
                if let (true, Some(q)) = (w.c.kv.contains_key("seq"), g.c.kv.get("seq")) {
                    w.c.kv.insert(s("seq"), q.clone());
                }
            }
        }
    })
}

fn row_alphabet() -> Vec<Row> {
    let mut far = row("", "below", "9.99", "", "");
    far.gap = 61;
    vec![
        year("2019"),
        year("2020"),
        row("01 Jan", "Shop one", "1.00", "", "100.00"),
        row("01 Jan", "Salary", "", "2,345.67", ""),
        row("31 Dec", "Shop two", "3.50", "", "1,000,000.01"),
        row("", "Shop", "4.00", "", ""),
        row("", "Refund", "", "0.05", "-5.00"),
        row("", "more text", "", "", ""),
        row("", "Effective Date 28 Feb 2018", "", "", ""),
        row("", "and balance", "", "", "77.70"),
        row("", "", "5.00", "", "1.00"),
        row("02 Jan", "", "", "", ""),
        row("", "Both", "1.00", "2.00", ""),
        far,
    ]
}

fn rows_of(al: &[Row], len: usize, mut i: usize) -> Vec<Row> {
    (0..len)
        .map(|_| {
            let r = al[i % al.len()].clone();
            i /= al.len();
            r
        })
        .collect()
}

pub fn c14(c: &Ctx) -> (&'static str, &'static str) {
    let al = row_alphabet();
    let o = pdf_run(Look::Content);
    let full = c.thorough;
    // Balances on the first line of a transaction and on those below it.
    let bals = ["", "0.00", "0.05", "100.00", "-5.00", "1,000.00"];
    for len in 2..=if full { 4 } else { 3 } {
        c.par(&format!("balances of {} lines", len), (bals.len() * 2).pow(len as u32) * 2, |e, i| {
            let mut g = Dig(i);
            let mut rows = vec![year("2019")];
            for k in 0..len {
                let (b, new) = (*g.of(&bals), g.take(2) == 1 || k == 0);
                rows.push(if new { row(["02 Jan", "03 Jan"][k % 2], &format!("Shop {}", k), "1.00", "", b) } else { row("", &format!("more {}", k), "", "", b) });
            }
            if g.take(2) == 1 {
                rows.push(row("04 Jan", "Last", "", "0.07", "0.00"));
            }
            pdf_case(c, e, &simple_doc(&rows), &o)
        });
    }
    // Cells that are the same, or special, together.
    c.par("cells together", 4 * 2 * 4 * 5 * 7 * 3 * 4, |e, i| {
        let mut g = Dig(i);
        let (t, rec, a, b) = (*g.of(&["Shop", "Fee", "1.00", "Shop Shop"]), g.take(2) == 1, *g.of(&["0.00", "1.00", "2.50", "1,000.00"]), *g.of(&["", "0.00", "1.00", "-1.00", "1,000.00"]));
        let more = *g.of(&["", "Shop", "Fee", "Effective Date 31 Dec 2018", "Effective Date 02 Jan 2019", "Effective", "Date"]);
        let mb = *g.of(&["", "1.00", "0.00"]);
        let first = if rec { row("02 Jan", t, "", a, b) } else { row("02 Jan", t, a, "", b) };
        let mut rows = vec![year("2019"), first];
        if more != "" {
            rows.push(row("", more, "", "", mb));
        }
        match g.take(4) {
            0 => {}
            1 => rows.push(if rec { row("", t, "", a, b) } else { row("", t, a, "", b) }),
            2 => rows.push(row("03 Jan", t, a, "", mb)),
            _ => rows.insert(1, row("01 Jan", "Shop", "1.00", "", "1.00")),
        }
        pdf_case(c, e, &simple_doc(&rows), &o)
    });
    for len in 0..=if full { 5 } else { 4 } {
        c.par(&format!("tables of {} lines", len), al.len().pow(len as u32), |e, i| {
            let mut rows = vec![year("2019")];
            rows.extend(rows_of(&al, len, i));
            pdf_case(c, e, &simple_doc(&rows), &o)
        });
    }
    c.par("tables without a year", al.len() * al.len(), |e, i| pdf_case(c, e, &simple_doc(&rows_of(&al, 2, i)), &o));
    // Dates and years.
    let ys = ["1979", "1980", "1999", "2000", "2019", "2020", "2024", "2099", "2100", "2101", "19", "02019", "20x9", "0000", "-2019", "MMXX"];
    let ms: Vec<&'static str> = MONTHS.iter().copied().chain(["Foo", "13", "00"]).collect();
    c.par("dates", ys.len() * ms.len() * 33, |e, i| {
        let mut g = Dig(i);
        let (y, m, d) = (*g.of(&ys), *g.of(&ms), g.take(33));
        let date: &'static str = Box::leak(format!("{:02} {}", d, m).into_boxed_str());
        pdf_case(c, e, &simple_doc(&[year(y), row(date, "Shop", "1.00", "", ""), row("", "Other", "", "2.00", "")]), &o)
    });
    let bad = ["x y", "1 2 3", "01 Jan 2019", "Jan 01", "01 01", "a b c d", "01 J", "0 Jan", "32 Jan", "-1 Jan"];
    c.par("malformed dates", bad.len() * 3, |e, i| {
        let mut g = Dig(i);
        let (b, pos) = (*g.of(&bad), g.take(3));
        let mut rows = vec![year("2019"), row("01 Jan", "a", "1.00", "", ""), row("02 Jan", "b", "1.00", "", ""), row("03 Jan", "c", "1.00", "", "")];
        rows[1 + pos].date = b;
        pdf_case(c, e, &simple_doc(&rows), &PdfRun { old: i % 2 == 0, ..pdf_run(Look::Content) })
    });
    let eds = [
        "Effective Date 01 Jan 2019", "Effective Date 31 Dec 2099", "Effective Date 29 Feb 2020", "Effective Date 29 Feb 2019", "Effective Date 1st Jan", "Effective Date", "Effective Date x",
        "Effective Date 32 Jan 2019", "Effective date 01 Jan 2019", "An Effective Date 01 Jan 2019", "EffectiveDate 01 Jan 2019", "Effective Dates 01",
    ];
    c.par("effective dates", eds.len() * 4, |e, i| {
        let mut g = Dig(i);
        let (ed, k) = (*g.of(&eds), g.take(4));
        let mut rows = vec![year("2019"), row("01 Jan", "a", "1.00", "", "")];
        match k {
            0 => rows.push(row("", ed, "", "", "")),
            1 => rows.extend([row("", "x", "", "", ""), row("", ed, "", "", "3.00"), row("", "y", "", "", "")]),
            2 => rows.push(row("02 Jan", ed, "5.00", "", "")),
            _ => rows.insert(1, row("", ed, "", "", "")),
        }
        pdf_case(c, e, &simple_doc(&rows), &o)
    });
    // Effective dates of all centuries, far from the date or not.
    let years: Vec<i32> = [1, 9, 99, 100, 999, 1000, 1582, 1700, 1752, 1818, 1899, 1900, 1928, 1929, 1930, 1969, 1970, 1999, 2000, 2015, 2016, 2017, 2018, 2019, 2020, 2021, 2038, 2099, 2108, 2109, 2110, 2200, 2500, 5000, 9999].to_vec();
    c.par("effective years", years.len() * 4 * 3, |e, i| {
        let mut g = Dig(i);
        let (y, md, k) = (*g.of(&years), *g.of(&["01 Jan", "31 Dec", "28 Feb", "29 Feb"]), g.take(3));
        let ed = format!("Effective Date {} {:04}", md, y);
        let mut rows = vec![year(["2019", "1999", "2020"][k]), row("01 Jan", "a", "1.00", "", ""), row("", &ed, "", "", "3.00")];
        if k == 2 {
            rows.push(row("02 Jan", "b", "", "5.00", ""));
            rows.push(row("", &ed, "", "", ""));
        }
        pdf_case(c, e, &simple_doc(&rows), &o)
    });
    // Amounts in each column.
    let mut am: Vec<String> = sv(&[
        "x", "£1.00", "-", ".", "", "1.2.3", "--1", "1-", "-0.01", "-1.00", "0.00", "-0.00", "1 2", "1.00 DR", "NaN", "1e", "0x1", "1,00,000.00", "1,,000", "£", "1.0O", "l.00", "12345678901234567890.12",
        "1.00.", "..", "1/2", "1:00", "1;00",
    ]);
    for ip in ["0", "1", "12", "999", "1000", "1,000", "12,345", "999,999", "1,234,567", "123456789"] {
        for f in ["", ".0", ".00", ".05", ".5", ".99", ".123"] {
            am.push(format!("{}{}", ip, f));
        }
    }
    c.par("amounts", am.len() * 3, |e, i| {
        let mut g = Dig(i);
        let (a, k) = (g.of(&am).clone(), g.take(3));
        let mut rows = vec![year("2019"), row("01 Jan", "a", "1.00", "", "2.00"), row("", "b", "", "1.00", "3.00")];
        match k {
            0 => rows[1].pay = a,
            1 => rows[2].rec = a,
            _ => rows[1].bal = a,
        }
        pdf_case(c, e, &simple_doc(&rows), &PdfRun { old: i % 2 == 0, ..pdf_run(Look::Content) })
    });
    // Distances between lines.
    let gaps = [1, 29, 30, 31, 45, 59, 60, 61, 62, 90, 119, 120, 121, 500, -45];
    let shapes = 4;
    c.par("distances", gaps.len() * gaps.len() * shapes, |e, i| {
        let mut g = Dig(i);
        let (a, b, sh) = (*g.of(&gaps), *g.of(&gaps), g.take(shapes));
        let mut rows = vec![year("2019"), row("01 Jan", "a", "1.00", "", ""), row("02 Jan", "b", "2.00", "", ""), row("03 Jan", "c", "", "3.00", "")];
        match sh {
            0 => {}
            1 => rows[2] = year("2020"),
            2 => rows[2] = row("", "", "", "", "5.00"),
            _ => rows[2] = row("", "text", "", "", ""),
        }
        rows[1].gap = if i % 2 == 0 { 45 } else { 300 };
        rows[2].gap = a;
        rows[3].gap = b;
        pdf_case(c, e, &simple_doc(&rows), &o)
    });
    c.par("heights", 8 * 8 * 6, |e, i| {
        let mut g = Dig(i);
        let hs = [0, 1, 10, 22, 23, 30, 45, 90];
        let (h1, h2, gap) = (*g.of(&hs), *g.of(&hs), [20, 44, 45, 46, 60, 90][g.take(6)]);
        let mut rows = vec![year("2019"), row("01 Jan", "a", "1.00", "", ""), row("02 Jan", "b", "2.00", "", ""), row("03 Jan", "c", "", "3.00", "")];
        rows[2].gap = gap;
        let mut d = simple_doc(&rows);
        d[0][1][0][2].height = h1;
        d[0][1][0][3].height = h2;
        pdf_case(c, e, &d, &o)
    });
    // A word of each width at every place, as the only one in its line or next to others.
    let edges = [100, 190, 300, 1300, 1600, 1900, 2020];
    let mut spots = BTreeSet::new();
    for x in edges {
        for d in -3..=3 {
            for w in [0i64, 1, 2, 3, 40] {
                spots.insert((x + d, w));
                spots.insert((x + d - w, w));
            }
        }
    }
    for x in (0..2300).step_by(if full { 10 } else { 40 }) {
        for w in [20, 200, 1000] {
            spots.insert((x, w));
        }
    }
    let spots: Vec<(i64, i64)> = spots.into_iter().collect();
    c.par("word positions", spots.len() * 5, |e, i| {
        let mut g = Dig(i);
        let (x, w) = *g.of(&spots);
        let k = g.take(5);
        let mut rows = vec![year("2019"), row("01 Jan", "a", "1.00", "", "2.00"), row("", "b", "", "1.00", ""), row("", "c", "", "", "")];
        if k == 4 {
            rows[3] = row("", "", "", "", "");
        }
        let mut d = simple_doc(&rows);
        let target = if k == 4 { 3 } else { k };
        d[0][1][0][1 + target].words.push(word(["7", "text", "05", "8.00", "9"][k], x, w));
        pdf_case(c, e, &d, &o)
    });
    // Headers: which lines start a table.
    let hw = ["Date", "Details", "Payments", "Receipts", "Balance"];
    c.par("table headers", 5 * 6 + 8, |e, i| {
        let mut d = simple_doc(&[year("2019"), row("01 Jan", "a", "1.00", "", "")]);
        let para = &mut d[0][1][0];
        if i < 30 {
            let (k, how) = (i % 5, i / 5);
            match how {
                0 => para[0].words[k].text = hw[k].to_lowercase(),
                1 => para[0].words[k].text = s("Other"),
                2 => {
                    para[0].words.remove(k);
                }
                3 => para[0].words.insert(k, word("x", 10, 10)),
                4 => para[0].words.swap(k, (k + 1) % 5),
                _ => para[0].words.push(word("extra", 2200, 50)),
            }
        } else {
            match i - 30 {
                0 => para.insert(0, Line { top: 1, height: H, words: vec![word("Statement", 10, 50)] }),
                1 => para.push(head_line(500)),
                2 => para.insert(0, head_line(10)),
                3 => para.insert(0, Line { top: 1, height: H, words: vec![] }),
                4 => para.insert(2, Line { top: 350, height: H, words: vec![] }),
                5 => para.truncate(1),
                6 => para.clear(),
                _ => para.insert(0, Line { top: 1, height: H, words: vec![word("01", 100, 40), word("Feb", 145, 40), word("pre", 300, 40), word("6.66", 1310, 40)] }),
            }
        }
        pdf_case(c, e, &d, &o)
    });
    // More words behind the headings.
    let more = ["Balance", "Date", "\u{a3}", "in", "x", "Payments", "GBP", "Balance Balance"];
    c.par("headings with more words", more.len() * 8 * 3, |e, i| {
        let mut g = Dig(i);
        let (w, n, how) = (*g.of(&more), 1 + g.take(8), g.take(3));
        let mut d = simple_doc(&[year("2019"), row("01 Jan", "a", "1.00", "", "2.00"), row("", "b", "", "1.00", "")]);
        let para = &mut d[0][1][0];
        for k in 0..n {
            para[0].words.push(word([w, "x"][(how == 1 && k % 2 == 1) as usize], 2050 + 55 * k as i64, 50));
        }
        if how == 2 {
            // Two such tables.
            let again = para.clone();
            d[0][1].push(again);
        }
        pdf_case(c, e, &d, &o)
    });
    // Account lines.
    let accts = [
        "Account Number 12-34-56 12345678", "Account Number 12-34-56 12345678 x", "x Account Number 12-34-56 12345678", "Account Number 123456 12345678", "Account Number 12-34-56 1234567",
        "Account Number 12-34-56 123456789", "Account number 12-34-56 12345678", "Account Number 12-34-56", "Account Name 12-34-56 12345678", "Account Number 12-34-5 12345678", "Account Number 12-34-56 1234567x",
        "Account Number 99-99-99 00000000", "", "Account Number 12-34-56 12345678 Page 1", "Account Number 12-34-56 12345678 Statement no 12", "Account Number 12-34-56 12345678 Start balance 1.00 a b c d e f g",
    ];
    c.par("account lines", accts.len() * accts.len() * 3, |e, i| {
        let mut g = Dig(i);
        let (a, b, k) = (*g.of(&accts), *g.of(&accts), g.take(3));
        let line = |t: &str, top| {
            let mut l = Line { top, height: H, words: vec![] };
            put_words(&mut l, t, 2100, 50);
            l
        };
        let tab = vec![table(&[year("2019"), row("01 Jan", "a", "1.00", "", "")])];
        let d: Doc = match k {
            0 => vec![vec![vec![vec![line(a, 1), line(b, 40)]], tab]],
            1 => vec![vec![vec![vec![line(a, 1)]], tab], vec![vec![vec![line(b, 1)]]]],
            _ => vec![vec![tab, vec![vec![line(a, 5000)], vec![line(b, 1)]]]],
        };
        pdf_case(c, e, &d, &o)
    });
    // The same rows spread over pages, blocks and paragraphs in every way.
    let rows = [
        row("30 Dec", "one", "1.00", "", "9.00"),
        row("", "two", "", "2.00", ""),
        row("", "continued", "", "", ""),
        row("31 Dec", "three", "3.00", "", "8.00"),
        row("", "Effective Date 01 Dec 2018", "", "", ""),
        row("31 Dec", "four", "", "4.00", "7.00"),
    ];
    let n = rows.len();
    c.par("spread over pages", 4usize.pow(n as u32 - 1) * 2, |e, i| {
        let mut g = Dig(i);
        let repeat_year = g.take(2) == 0;
        let mut d: Doc = vec![vec![vec![vec![account_line()]], vec![]]];
        let mut cur = vec![year("2019"), rows[0].clone()];
        let close = |d: &mut Doc, cur: &mut Vec<Row>| {
            let t = table(cur);
            d.last_mut().unwrap().last_mut().unwrap().push(t);
            *cur = if repeat_year { vec![year("2019")] } else { vec![] };
        };
        for r in &rows[1..] {
            match g.take(4) {
                0 => {}
                1 => close(&mut d, &mut cur),
                2 => {
                    close(&mut d, &mut cur);
                    d.last_mut().unwrap().push(vec![vec![head_line(1)]]);
                }
                _ => {
                    close(&mut d, &mut cur);
                    d.push(vec![vec![vec![Line { top: 1, height: H, words: vec![word("Statement", 100, 50), word("9.99", 1310, 40)] }]]]);
                }
            }
            cur.push(r.clone());
        }
        close(&mut d, &mut cur);
        pdf_case(c, e, &d, &o)
    });
    // Texts.
    let tx = [
        "\"quoted\" text", "\"open", "quote\"", "'single'", "comma, semicolon; tab", "café £5 €6", "#1 %2 @3 &4 =5", "a\\b", "key: value", "100.00", "Date Details Payments", "日本 語", "<x>", "\"", "\"\"", ",",
        "Account Number 12-34-56 87654321", "-", "~", "Balance carried forward",
    ];
    c.par("texts", tx.len() * 3, |e, i| {
        let mut g = Dig(i);
        let (t, k) = (*g.of(&tx), g.take(3));
        let mut rows = vec![year("2019"), row("01 Jan", "a", "1.00", "", "2.00"), row("", "b", "", "1.00", "3.00"), row("02 Jan", "c", "5.00", "", "")];
        match k {
            0 => rows[1].detail = s(t),
            1 => rows.insert(2, row("", t, "", "", "")),
            _ => {}
        }
        let mut d = simple_doc(&rows);
        if k == 2 {
            // Outside tables.
            let mut l = Line { top: 1, height: H, words: vec![] };
            put_words(&mut l, t, 500, 40);
            d[0].insert(1, vec![vec![l.clone()]]);
            d.insert(0, vec![vec![vec![l]]]);
        }
        pdf_case(c, e, &d, &o)
    });
    let odd = odd_texts();
    c.par("odd texts", odd.len() * 3, |e, i| {
        let mut g = Dig(i);
        let (t, k) = (g.of(&odd).clone(), g.take(3));
        let mut rows = vec![year("2019"), row("01 Jan", "a", "1.00", "", "2.00"), row("", "b", "", "1.00", "3.00")];
        match k {
            0 => rows[1].detail = t,
            1 => rows.insert(2, row("", &t, "", "", "")),
            _ => rows[2].detail = t,
        }
        pdf_case(c, e, &simple_doc(&rows), &o)
    });
    c.par("sizes", 10, |e, i| {
        let k = [0, 1, 10, 100, 127, 128, 129, 256, 257, 1000][i];
        let rows: Vec<Row> = (0..k).map(|n| row("01 Jan", &format!("line {}", n), &format!("{}.00", n), "", "")).collect();
        let mut d: Doc = vec![vec![vec![vec![account_line()]]]];
        for p in rows.chunks(60) {
            let mut v = vec![year("2019")];
            v.extend_from_slice(p);
            d.push(vec![vec![table(&v)]]);
        }
        pdf_case(c, e, &d, &o)
    });
    // The programs that convert and recognise.
    let doc = simple_doc(&[year("2019"), row("01 Jan", "a", "1.00", "", "")]);
    let text = tsv(&doc);
    let codes = ["0", "1", "2", "77", "127", "255", "k"];
    c.par("failing programs", codes.len() * codes.len() * 2 * 2, |e, i| {
        let mut g = Dig(i);
        let (gm, ts, tsv_there, pdf_there) = (*g.of(&codes), *g.of(&codes), g.take(2) == 0, g.take(2) == 0);
        let stub = c.root.join("target/ocr");
        let stub = stub.to_str().unwrap();
        if tsv_there {
            e.sut.put("ocr.tsv", &text);
        }
        if pdf_there {
            e.sut.put("in.pdf", "");
        }
        e.sut.put("gm.exit", gm);
        e.sut.put("tess.exit", ts);
        e.case(true, &(gm, ts, tsv_there, pdf_there));
        let good = gm == "0" && ts == "0" && tsv_there && pdf_there;
        let mut odd = false;
        let v = if good { pdf(&doc, &Ns::Default, &mut odd) } else { Verdict::Reject("failing program or missing file") };
        judge(e, &["nationwide-pdf", "in.pdf", stub, stub], &v, Look::Content, &format!("gm exits with {}, tesseract with {}, OCR result {}, PDF {}", gm, ts, tsv_there, pdf_there), i % 2 == 0)
    });
    c.par("missing programs", 4, |e, i| {
        let stub = c.root.join("target/ocr");
        let stub = stub.to_str().unwrap();
        e.sut.put("ocr.tsv", &text);
        e.sut.put("in.pdf", "");
        let none = "/nonexistent/program";
        let mut odd = false;
        let v = if i == 0 { pdf(&doc, &Ns::Default, &mut odd) } else { Verdict::Reject("missing program") };
        e.case(true, &i);
        judge(e, &["nationwide-pdf", "in.pdf", if i & 1 == 0 { stub } else { none }, if i & 2 == 0 { stub } else { none }], &v, Look::Content, "programs", true)
    });
    // Page images reach the OCR completely and in order; programs are found by their default names.
    let tmps = ["", "tmp", "a b", "a[1]", "[1]", "[", "]", "[!a]", "*", "**", "?", "{a,b}", "\u{e9}", "-x", "a\\b", "'", "\"", "~", "$HOME", "#", "page-000000.png", "a.b", "!", ";"];
    c.par("page images", 10 * 2 * tmps.len(), |e, i| {
        let mut g = Dig(i);
        let (n, deflt) = ([1, 2, 9, 10, 11, 99, 100, 101, 120, 1001][g.take(10)], g.take(2) == 1);
        let tmp = *g.of(&tmps);
        e.sut.mkdir("tmp");
        e.sut.mkdir(&format!("tmp/{}", tmp));
        let tmpdir = e.sut.path(&format!("tmp/{}", tmp)).display().to_string();
        if n > 100 && i % 4 != 0 {
            return Ok(());
        }
        let stub = c.root.join("target/ocr");
        e.sut.put("ocr.tsv", &text);
        e.sut.put("in.pdf", "");
        e.sut.put("gm.pages", n.to_string());
        e.case(true, &(n, deflt));
        let out = if deflt {
            e.sut.mkdir("bin");
            for p in ["gm", "tesseract"] {
                e.sut.put(&format!("bin/{}", p), format!("#!/bin/sh\nexec {} \"$@\"\n", stub.display()));
                use std::os::unix::fs::PermissionsExt;
                let _ = std::fs::set_permissions(e.sut.path(&format!("bin/{}", p)), std::fs::Permissions::from_mode(0o755));
            }
            let path = format!("{}:/usr/bin:/bin", e.sut.path("bin").display());
            e.sut.plain(&["import", "-o", "out.journal", "nationwide-pdf", "in.pdf"], None, &[("PATH", &path), ("TMPDIR", &tmpdir)]).out
        } else {
            let stub = stub.to_str().unwrap();
            e.sut.plain(&["import", "-o", "out.journal", "nationwide-pdf", "in.pdf", stub, stub], None, &[("TMPDIR", &tmpdir)]).out
        };
        ensure!(out.ok(), "rejected", "with {} pages and temporary directory {:?}: {}", n, tmpdir, out.short());
        let list = e.sut.get_str("tess.list").unwrap_or_default();
        let want: Vec<String> = (0..n).map(|k| format!("{:02}", k)).collect();
        let got: Vec<String> = list.lines().map(|l| l.chars().filter(|c| c.is_ascii_digit()).collect()).collect();
        let num = |v: &[String]| v.iter().map(|x| x.parse::<u32>().unwrap_or(9999)).collect::<Vec<_>>();
        ensure!(num(&want) == num(&got), "page images", "with temporary directory {:?}, tesseract was given {:?} instead of pages 0 to {}", tmpdir, got, n - 1);
        let left: Vec<String> = e.sut.tree().into_iter().map(|f| f.0).filter(|f| f.starts_with("tmp/") && *f != format!("tmp/{}/", tmp) && f != "tmp/").collect();
        ensure!(left.is_empty(), "left behind", "in the temporary directory {:?}: {:?}", tmpdir, left);
        Ok(())
    });
    c.assume("the OCR program writes tab-separated values without quoting; amounts with misplaced separators are left open, as are dates below the end of a table; lines without details are not transactions");
    ("exploration", "every case is one OCR result built from table-line sequences, word positions, line distances, page layouts, date, amount and text alphabets, or one outcome of the external programs; distinct by OCR result and options")
}

// ---------------------------------------------------------------------------------------------
// Fingerprints.

pub fn namespaces() -> Vec<Ns> {
    vec![
        Ns::Default,
        Ns::Generated,
        Ns::Fixed(s("fixedns")),
        Ns::Fixed(s("a")),
        Ns::Fixed(s("A_z+0/9")),
        Ns::Fixed(s("")),
        Ns::Lookup(vec![(s("****12345"), s("mine")), (s("12-34-56 12345678"), s("pdf_account"))]),
    ]
}

pub fn c15(c: &Ctx) -> (&'static str, &'static str) {
    let full = c.thorough;
    let nss = namespaces();
    let qs = sequences(if full { 6 } else { 4 });
    c.par("csv sequences", qs.len() * 2 * 2, |e, i| {
        let mut g = Dig(i);
        let (six, legacy) = (g.take(2) == 1, g.take(2) == 1);
        let q = g.of(&qs);
        nw_case(e, &statement(six, ACCT, &seq_rows(six, q)), PLAIN, &nss[i % nss.len()], legacy, Look::Fps, false)
    });
    let tx = texts();
    c.par("csv fields", tx.len() * tx.len() * 3 * nss.len(), |e, i| {
        let mut g = Dig(i);
        let (a, b, k) = (*g.of(&tx), *g.of(&tx), g.take(3));
        let ns = g.of(&nss);
        let (o, n) = if i % 2 == 0 { ("£1.00", "") } else { ("", "£1.00") };
        let b = if k == 2 && i % 5 == 0 { "" } else { b };
        let row = nw_row(k < 2, "05 May 2015", a, b, o, n, "£1.00");
        nw_case(e, &statement(k < 2, ACCT, &[row.clone(), row]), styles()[i % 16], ns, k == 1, Look::Fps, false)
    });
    let odd = odd_texts();
    c.par("csv odd texts", odd.len() * 4, |e, i| {
        let mut g = Dig(i);
        let (x, k) = (g.of(&odd).clone(), g.take(4));
        let six = k < 2;
        let (a, b) = if k % 2 == 0 { (x.as_str(), "d") } else { ("t", x.as_str()) };
        let (o, n) = if i % 2 == 0 { ("£1.00", "") } else { ("", "£1.00") };
        let row = |a: &str, b: &str| nw_row(six, "05 May 2015", a, b, o, n, "£1.00");
        nw_case(e, &statement(six, ACCT, &[row(a, b), row("t", "d"), row(a, b)]), PLAIN, &nss[i % nss.len()], six, Look::Fps, false)
    });
    c.par("paypal odd texts", odd.len() * 3, |e, i| {
        let mut g = Dig(i);
        let (x, k) = (g.of(&odd).clone(), g.take(3));
        let mut r = pp("01/01/2019", "12:34:56", "GMT");
        *[&mut r.name, &mut r.typ, &mut r.receipt][k] = x;
        pp_case(e, &pp_file(&[r.clone(), pp("01/01/2019", "12:34:56", "GMT"), r]), PLAIN, &PpOpts { legacy: i % 2 == 0, ..opts(ZONES[0]) }, Look::Fps, false)
    });
    // Texts that are the same as others of the row.
    let dom = ["", "Fee", "fee", "GBP", "Completed", "01/01/2019", "12:34:56", "GMT", "1.00", "Fee Fee", "paypal"];
    let nd = dom.len();
    c.par("paypal, equal texts", nd * nd * nd * 3 * 3 * 2, |e, i| {
        let mut g = Dig(i);
        let mut r = pp("01/01/2019", "12:34:56", "GMT");
        (r.name, r.typ, r.receipt) = (s(g.of(&dom)), s(g.of(&dom)), s(g.of(&dom)));
        (r.status, r.cur) = (s(["Completed", "Fee", "GBP"][g.take(3)]), s(["GBP", "Fee", "GMT"][g.take(3)]));
        let legacy = g.take(2) == 1;
        let mut o = r.clone();
        o.name = s("Z");
        pp_case(e, &pp_file(&if i % 3 == 0 { vec![r, o] } else { vec![r] }), PLAIN, &PpOpts { legacy, ..opts(ZONES[0]) }, Look::Fps, false)
    });
    let dom = ["", "Pay", "pay", "Acc ****12345", "****12345", "05 May 2015", "£1.00", "1.00", "Pay Pay", "Main", "nwcsv"];
    c.par("csv, equal texts", nd * nd * 2 * 2 * 4, |e, i| {
        let mut g = Dig(i);
        let (a, b, six, out, ns) = (*g.of(&dom), *g.of(&dom), g.take(2) == 1, g.take(2) == 1, [0, 1, 2, 3][g.take(4)]);
        let (o, n) = if out { ("£1.00", "") } else { ("", "£1.00") };
        let acct = ["****12345", "Main", "Pay", "Acc ****12345"][i % 4];
        let row = nw_row(six, "05 May 2015", a, b, o, n, "£1.00");
        // Without a description there may be no transaction.
        let (row2, none) = (nw_row(six, "05 May 2015", b, a, o, n, "£1.00"), a.is_empty() || b.is_empty());
        if (if six { b } else { a }).is_empty() {
            return Ok(());
        }
        nw_case(e, &statement(six, acct, &if none { vec![row.clone(), row] } else { vec![row.clone(), row2, row] }), PLAIN, &nss[ns % nss.len()], i % 3 == 0, Look::Fps, false)
    });
    let mv = money_values();
    let chunk = 64;
    c.par("csv amounts", mv.len().div_ceil(chunk) * 4 * 2, |e, i| {
        let mut g = Dig(i);
        let (k, legacy) = (g.take(4), g.take(2) == 1);
        let part = g.take(mv.len().div_ceil(chunk));
        let rows: Vec<Vec<String>> = mv[part * chunk..((part + 1) * chunk).min(mv.len())]
            .iter()
            .map(|m| match k {
                0 => nw_row(false, "01 Jan 2019", "t", "d", m, "", ""),
                1 => nw_row(true, "01 Jan 2019", "t", "d", "", m, m),
                2 => nw_row(false, "01 Jan 2019", "t", "d", "", m, ""),
                _ => nw_row(true, "01 Jan 2019", "t", "d", m, "", "£0.00"),
            })
            .collect();
        nw_case(e, &statement(k % 2 == 1, ACCT, &rows), PLAIN, &nss[i % nss.len()], legacy, Look::Fps, false)
    });
    let span = if full { 366 * 40 } else { 366 * 4 };
    c.par("csv dates", span / 61 * 2, |e, i| {
        let (six, k) = (i % 2 == 1, i / 2);
        let rows: Vec<Vec<String>> =
            (0..61).map(|d| nw_row(six, &Date::from_days(17800 - 8000 * i64::from(full) + (k * 61 + d) as i64).nw(), "t", "d", "£1.00", "", "£1.00")).collect();
        nw_case(e, &statement(six, ACCT, &rows), PLAIN, &nss[i % nss.len()], true, Look::Fps, false)
    });
    let sizes: Vec<usize> = (1..=40).chain([63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, if full { 70000 } else { 1001 }]).collect();
    c.par("many identical rows", sizes.len() * 2, |e, i| {
        let six = i % 2 == 1;
        let rows = vec![nw_row(six, "01 Jan 2019", "t", "d", "£1.00", "", "£1.00"); sizes[i / 2]];
        nw_case(e, &statement(six, ACCT, &rows), PLAIN, &nss[0], true, Look::Fps, false)
    });
    c.par("paypal, many rows at an instant", 24 * 4 * 2, |e, i| {
        let mut g = Dig(i);
        let (kind, legacy, n) = (g.take(4), g.take(2) == 1, g.0 + 1);
        let rows: Vec<Pp> = (0..n)
            .map(|k| {
                let mut r = pp("01/01/2019", "12:00:00", "GMT");
                match kind {
                    1 if k % 2 == 1 => r.name = s(""),
                    2 if k % 2 == 1 => r.amount = s("2.50"),
                    3 if k % 3 == 2 => r.typ = s("Another Type"),
                    _ => {}
                }
                r
            })
            .collect();
        pp_case(e, &pp_file(&rows), PLAIN, &PpOpts { legacy, ..opts(ZONES[0]) }, Look::Fps, false)
    });
    c.par("pdf, many equal lines", 40 * 2, |e, i| {
        let (two, n) = (i % 2 == 1, i / 2 + 1);
        let mut rows = vec![year("2019"), row("01 Jan", "Shop", "1.00", "", "")];
        rows.extend((1..n).map(|k| if two && k % 2 == 1 { row("", "Shop", "", "1.00", "") } else { row("", "Shop", "1.00", "", "") }));
        pdf_case(c, e, &simple_doc(&rows), &pdf_run(Look::Fps))
    });
    // The same by the clock or by the moment, in different zones.
    let clocks = [
        (720, "12:00:00", "GMT"),
        (660, "12:00:00", "BST"),
        (720, "13:00:00", "BST"),
        (1140, "12:00:00", "PDT"),
        (720, "05:00:00", "PDT"),
        (660, "11:00:00", "GMT"),
        (390, "12:00:00", "IST"),
        (721, "12:01:00", "GMT"),
    ];
    let depth = if full { 5 } else { 4 };
    c.par("paypal, clocks of several zones", 8usize.pow(depth) * 4, |e, i| {
        let mut g = Dig(i);
        let (kind, legacy) = (g.take(2), g.take(2) == 1);
        let ks: Vec<usize> = (0..depth).map(|_| g.take(8)).collect();
        // Moments do not come back once left.
        let at: Vec<i32> = ks.iter().map(|k| clocks[*k].0).collect();
        if (2..at.len()).any(|j| at[j] != at[j - 1] && at[..j - 1].contains(&at[j])) {
            return Ok(());
        }
        let rows: Vec<Pp> = ks
            .iter()
            .enumerate()
            .map(|(j, k)| Pp { amount: s(if kind == 1 && j % 2 == 1 { "2.50" } else { "-1.25" }), ..pp("01/06/2019", clocks[*k].1, clocks[*k].2) })
            .collect();
        pp_case(e, &pp_file(&rows), PLAIN, &PpOpts { legacy, ..opts(ZONES[kind]) }, Look::Fps, false)
    });
    // PayPal: groups of identical or nearly identical rows.
    let nsp: [Option<&str>; 5] = [None, Some("pp"), Some("A_z+0/9"), Some(""), Some("paypal")];
    let len = if full { 5 } else { 4 };
    for legacy in [false, true] {
        c.par(&format!("paypal groups{}", if legacy { ", legacy" } else { "" }), 12usize.pow(len), |e, i| {
            let mut g = Dig(i);
            let mut rows = Vec::new();
            let mut t = 0;
            for k in 0..len as usize {
                let (same, kind) = (g.take(2) == 0, g.take(6));
                if !same {
                    t += 1;
                }
                let mut r = pp("01/01/2019", &format!("12:00:{:02}", t), "GMT");
                match kind {
                    0 => {}
                    1 if k > 0 && same => r.name = s(""),
                    1 => r.name = s("Other"),
                    2 => r.typ = s("Another Type"),
                    3 => r.status = s("Pending"),
                    4 => r.receipt = format!("R{}", k),
                    _ => r.amount = s("2.50"),
                }
                rows.push(r);
            }
            let o = PpOpts { ns: nsp[i % nsp.len()].map(s), legacy, ..opts(ZONES[i % 2]) };
            pp_case(e, &pp_file(&rows), PLAIN, &o, Look::Fps, false)
        });
    }
    let mut am: Vec<String> = vec![];
    for ip in ["0", "1", "10", "99", "1000", "123456", "999999999", "123456789012", "90071992547409"] {
        for f in ["", ".0", ".00", ".01", ".10", ".5", ".93", ".001"] {
            for sg in ["", "-"] {
                am.push(format!("{}{}{}", sg, ip, f));
            }
        }
    }
    c.par("paypal fields", am.len() + 3 * tx.len() + 366 + std_tzs().len() * 24, |e, i| {
        let mut r = pp("01/01/2019", "12:34:56", "GMT");
        let (n1, n2, n3) = (am.len(), am.len() + 3 * tx.len(), am.len() + 3 * tx.len() + 366);
        if i < n1 {
            r.amount = am[i].clone();
            r.balance = am[n1 - 1 - i].clone();
            r.cur = s(["GBP", "USD", "€"][i % 3]);
        } else if i < n2 {
            let t = s(tx[(i - n1) / 3]);
            *[&mut r.name, &mut r.typ, &mut r.receipt][(i - n1) % 3] = t;
        } else if i < n3 {
            r.date = Date::from_days(18262 + (i - n2) as i64).dmy();
        } else {
            let k = i - n3;
            r.tz = std_tzs()[k / 24].0.clone();
            r.time = format!("{:02}:{:02}:{:02}", k % 24, k % 60, (k * 7) % 60);
        }
        let o = PpOpts { legacy: i % 2 == 0, ..opts(ZONES[i % ZONES.len()]) };
        pp_case(e, &pp_file(&[r.clone(), r]), styles()[i % 16], &o, Look::Fps, false)
    });
    // PDF.
    let al: Vec<Row> = row_alphabet().into_iter().filter(|r| r.detail != "Both").collect();
    let n = if full { 4 } else { 3 };
    c.par("pdf tables", al.len().pow(n), |e, i| {
        let mut rows = vec![year("2019"), row("01 Jan", "Shop one", "1.00", "", "100.00")];
        rows.extend(rows_of(&al, n as usize, i));
        let o = PdfRun { ns: nss[i % nss.len()].clone(), look: Look::Fps, old: false };
        pdf_case(c, e, &simple_doc(&rows), &o)
    });
    let same = [row("01 Jan", "Shop", "1.00", "", ""), row("", "Shop", "1.00", "", ""), row("", "Shop", "", "1.00", ""), row("02 Jan", "Shop", "1.00", "", "5.00")];
    c.par("pdf pages", 4usize.pow(4) * 8, |e, i| {
        let mut g = Dig(i);
        let cuts = g.take(8);
        let mut d: Doc = vec![vec![vec![vec![account_line()]]]];
        let mut cur = vec![year("2019"), same[0].clone()];
        let mut dates = "01 Jan";
        for k in 0..4 {
            let mut r = g.of(&same).clone();
            if !r.date.is_empty() {
                dates = r.date;
            }
            if k > 0 && cuts >> (k - 1) & 1 == 1 {
                d.push(vec![vec![table(&cur)]]);
                cur = vec![year("2019")];
                r.date = dates;
            }
            cur.push(r);
        }
        d.push(vec![vec![table(&cur)]]);
        pdf_case(c, e, &d, &pdf_run(Look::Fps))
    });
    c.par("pdf fields", tx.len() + am.len(), |e, i| {
        let mut rows = vec![year("2020"), row("29 Feb", "Shop", "1.00", "", "100.00"), row("", "Shop", "", "1.00", "")];
        if i < tx.len() {
            rows[1].detail = s(tx[i]);
            rows[2].detail = s(tx[i]);
        } else {
            let a = am[i - tx.len()].trim_start_matches('-');
            *(if i % 2 == 0 { &mut rows[1].pay } else { &mut rows[2].rec }) = s(a);
        }
        pdf_case(c, e, &simple_doc(&rows), &PdfRun { ns: nss[i % nss.len()].clone(), look: Look::Fps, old: false })
    });
    // Recorded defects, each in a family of its own.
    c.par("paypal peer postings", 4, |e, i| {
        let rows = vec![pp("01/01/2019", "12:00:00", "GMT"); 1 + i / 2];
        let o = PpOpts { legacy: i % 2 == 1, ..opts(ZONES[0]) };
        e.sut.put("in.csv", csv(&pp_file(&rows), PLAIN));
        e.sut.put("tz.csv", tz_file(&o.tzs));
        let mut a = vec!["import", "-o", "out.journal", "paypal-csv", "--output-timezone", "UTC"];
        if o.legacy {
            a.push("--include-legacy-fingerprint");
        }
        a.extend(["in.csv", "tz.csv"]);
        let out = e.sut.run(&a);
        e.case(true, &i);
        ensure!(out.ok(), "rejected", "{}", out.short());
        let g = parse(&e.sut.get_str("out.journal").unwrap_or_default()).or_else(|x| fail("unreadable", x))?;
        for p in g.iter().flat_map(|t| &t.posts) {
            ensure!(
                p.c.flags.iter().any(|f| f.starts_with("fp-ppcsv.1.")),
                "paypal-peer-without-fingerprint",
                "a posting of a PayPal import has no fp-ppcsv fingerprint: {:?}",
                p.c.flags
            );
        }
        Ok(())
    });
    c.par("pdf positions", 2, |e, i| {
        let shop = |d| row(d, "Shop", "1.00", "", "");
        let rows = if i == 0 {
            // The day goes on after a page break that continues the details of the last transaction.
            vec![year("2019"), shop("01 Jan")]
        } else {
            // The details of a transaction begin above the line with its amount.
            vec![year("2019"), shop("31 Dec"), row("01 Jan", "details", "", "", ""), shop("")]
        };
        let mut d = simple_doc(&rows);
        if i == 0 {
            d.push(vec![vec![table(&[row("", "continued", "", "", ""), year("2019"), shop("01 Jan")])]]);
        }
        let stub = c.root.join("target/ocr");
        let stub = stub.to_str().unwrap();
        e.sut.put("ocr.tsv", tsv(&d));
        e.sut.put("in.pdf", "");
        let out = e.sut.run(&["import", "-o", "out.journal", "nationwide-pdf", "in.pdf", stub, stub]);
        e.case(true, &i);
        ensure!(out.ok(), "rejected", "{}", out.short());
        let g = parse(&e.sut.get_str("out.journal").unwrap_or_default()).or_else(|x| fail("unreadable", x))?;
        let mut odd = false;
        let Verdict::Ok(_, w) = pdf(&d, &Ns::Default, &mut odd) else { panic!() };
        let (w, g) = (strip(&w, Look::Fps), strip(&g, Look::Fps));
        ensure!(w == g, "pdf-position-after-line-without-amount", "positions within the day are wrong if a line without an amount has another date than the transaction above it, or none: {}", difference(&w, &g));
        Ok(())
    });
    c.assume("distinctness is claimed for statements whose rows are grouped by date (CSV, PDF) or instant (PayPal)");
    ("exploration", "every case is one statement whose fingerprints are compared with an independent SHA-1 and encoding of its rows, over sequences, fields, amounts, dates, namespaces and legacy option; distinct by content and options")
}

// ---------------------------------------------------------------------------------------------
// Output paths.

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind3 {
    Csv,
    Pdf,
    Pp,
}
pub const KINDS3: [Kind3; 3] = [Kind3::Csv, Kind3::Pdf, Kind3::Pp];

/// Puts the input files of a small import and gives its arguments.
/// A statement with a year in one of its places.
pub fn pdf_with_year(y: &'static str, k: usize) -> String {
    let ed = format!("Effective Date 31 Dec {}", y);
    tsv(&simple_doc(&match k {
        0 => [year("2019"), row("01 Jan", "a", "1.00", "", ""), row("", &ed, "", "", "")],
        1 => [year(y), row("01 Jan", "a", "1.00", "", ""), row("31 Dec", "more", "", "2.00", "")],
        _ => [year(y), row("29 Feb", "a", "1.00", "", ""), row("", &ed, "", "", "")],
    }))
}

pub fn small_import(c: &Ctx, e: &mut Env, k: Kind3, ns: &Ns) -> (Vec<String>, Vec<Trn>, String) {
    if let Ns::Lookup(t) = ns {
        e.sut.put("lookup.ron", ron_map(t));
    }
    let v;
    let mut args;
    match k {
        Kind3::Csv => {
            let recs = statement(true, ACCT, &seq_rows(true, &[(0, 0), (1, 1)]));
            e.sut.put("in.csv", cp1252(&csv(&recs, PLAIN)));
            args = sv(&["nationwide-csv"]);
            args.extend(ns.args());
            args.push(s("in.csv"));
            v = nw_csv(&recs, ns, false);
        }
        Kind3::Pdf => {
            let d = simple_doc(&[year("2019"), row("01 Jan", "a", "1.00", "", ""), row("", "more text", "", "", "")]);
            e.sut.put("ocr.tsv", tsv(&d));
            e.sut.put("tess.list", "");
            e.sut.put("in.pdf", "");
            let stub = c.root.join("target/ocr").to_str().unwrap().to_string();
            args = sv(&["nationwide-pdf"]);
            args.extend(ns.args());
            args.extend([s("in.pdf"), stub.clone(), stub]);
            v = pdf(&d, ns, &mut false);
        }
        Kind3::Pp => {
            let recs = pp_file(&[pp("01/01/2019", "12:00:00", "GMT")]);
            let mut o = opts(ZONES[0]);
            if let Ns::Fixed(f) = ns {
                o.ns = Some(f.clone());
            }
            e.sut.put("in.csv", csv(&recs, PLAIN));
            e.sut.put("tz.csv", tz_file(&o.tzs));
            args = sv(&["paypal-csv", "--output-timezone", "UTC"]);
            if let Some(n) = &o.ns {
                args.extend([s("--fingerprint-namespace"), n.clone()]);
            }
            args.extend(sv(&["in.csv", "tz.csv"]));
            v = paypal(&recs, &o);
        }
    }
    let Verdict::Ok(n, t) = v else { panic!("small import is not accepted by the model") };
    (args, t, n)
}

pub const PART_SHAPES: usize = 15;

/// A statement of some parts, each of a day (or, for PayPal, a moment) of its own; `parts` gives position and shape.
pub fn part_import(c: &Ctx, e: &mut Env, kind: Kind3, variant: usize, parts: &[(usize, usize)]) -> Vec<String> {
    match kind {
        Kind3::Csv => {
            let six = variant % 2 == 0;
            let days = [
                ["31 Dec 2019", "01 Jan 2020", "02 Feb 2020"],
                ["03 Mar 2020", "02 Mar 2020", "02 Mar 2019"],
                ["10 Jan 2016", "10 Jan 2020", "10 Feb 2020"],
                ["28 Feb 2020", "29 Feb 2020", "01 Mar 2020"],
            ][variant / 2 % 4];
            let mut rows = Vec::new();
            for (p, k) in parts {
                let r = |a: &str, b: &str, out: &str, inn: &str| nw_row(six, days[*p], a, b, out, inn, "£10.00");
                rows.extend(match k {
                    0 => vec![r("Card", "Shop", "£1.00", "")],
                    1 => vec![r("Card", "Shop", "", "£1.00")],
                    2 => vec![nw_row(six, days[*p], "Bank credit", "Someone", "", "£2.50", "£-7.10")],
                    3 => vec![r("Card", "Shop", "£1.00", ""), r("Card", "Shop", "£1.00", "")],
                    4 => vec![r("Card", "Shop", "", "£2.00"), r("Bank", "x", "£0.01", ""), r("Card", "Shop", "", "£2.00")],
                    5 => vec![r("Direct debit", "a:b, \"c\"", "£3.00", "")],
                    6 => vec![r("Card", "Shop", "£0.00", "")],
                    7 => vec![r("Card", "Shop", "£1234567.89", "")],
                    8 => vec![r("Card", "Shop", "x", "")],
                    9 => vec![r("Café", "£ß", "", "£100.10")],
                    10 => (0..11).map(|_| r("Card", "Shop", "£1.00", "")).collect(),
                    11 => vec![r("Card", "Shop", "£1.00", "£1.00")],
                    12 => vec![r("Shop", "", "£1.00", ""), r("Shop", "Shop", "£2.00", "")],
                    13 => vec![r("Bank credit", "", "", "£5.00"), r("Card", "Someone", "£1.00", "")],
                    _ => vec![nw_row(six, days[*p], "Card", "Someone", "£2.50", "", "£-0.10")],
                });
            }
            e.sut.put("in.csv", cp1252(&csv(&statement(six, ACCT, &rows), PLAIN)));
            sv(&["nationwide-csv", "in.csv"])
        }
        Kind3::Pdf => {
            let days: [(&'static str, &'static str); 3] = [
                [("2018", "30 Dec"), ("2019", "01 Jan"), ("2020", "29 Feb")],
                [("2019", "01 Jan"), ("2019", "02 Jan"), ("2019", "02 Feb")],
                [("2019", "10 Jan"), ("2020", "10 Jan"), ("2024", "10 Jan")],
            ][variant % 3];
            let mut rows = Vec::new();
            let mut last = "";
            for (p, k) in parts {
                let (y, d) = days[*p];
                if y != last {
                    rows.push(year(y));
                    last = y;
                }
                rows.extend(match k {
                    0 => vec![row(d, "Shop", "1.00", "", "")],
                    1 => vec![row(d, "Shop", "", "1.00", "")],
                    2 => vec![row(d, "Shop", "1.00", "", "20.00")],
                    3 => vec![row(d, "Shop", "1.00", "", ""), row("", "Shop", "1.00", "", "")],
                    4 => vec![row(d, "Shop", "", "2.00", ""), row(d, "x", "0.01", "", "5.00"), row("", "Shop", "", "2.00", "")],
                    5 => vec![row(d, "Shop", "1.00", "", ""), row("", "more text", "", "", "")],
                    6 => vec![row(d, "two words", "", "3.00", ""), row("", "one", "", "", ""), row("", "two", "", "", ""), row("", "three", "", "", "")],
                    7 => vec![row(d, "Shop", "1,234,567.89", "", "")],
                    8 => vec![row(d, "Shop", "x", "", "")],
                    9 => vec![row(d, "Café £", "", "100.10", "-1.00")],
                    10 => (0..11).map(|_| row(d, "Shop", "1.00", "", "")).collect(),
                    11 => vec![row(d, "Shop", "1.00", "1.00", "")],
                    12 => vec![row(d, "Shop", "1.00", "", ""), row("", "Effective Date 28 Dec 2017", "", "", "")],
                    13 => vec![row(d, "Effective Date", "1.00", "", "7.00"), row("", "Effective Date 1 Jan 2019", "", "", "8.00")],
                    _ => vec![row(d, "more text", "", "1.00", ""), row("", "Shop", "1.00", "", "-0.10")],
                });
            }
            e.sut.put("ocr.tsv", tsv(&simple_doc(&rows)));
            e.sut.put("tess.list", "");
            e.sut.put("in.pdf", "");
            let stub = c.root.join("target/ocr").to_str().unwrap().to_string();
            vec![s("nationwide-pdf"), s("in.pdf"), stub.clone(), stub]
        }
        Kind3::Pp => {
            let moments = [
                [("31/12/2019", "23:59:59"), ("01/01/2020", "00:00:00"), ("01/01/2020", "00:00:01")],
                [("02/06/2020", "12:00:00"), ("01/06/2020", "12:00:00"), ("01/06/2020", "11:00:00")],
                [("01/06/2020", "12:00:00"), ("01/07/2020", "12:00:00"), ("01/07/2021", "12:00:00")],
                [("01/06/2020", "12:00:00"), ("01/06/2020", "12:01:00"), ("01/06/2020", "13:01:00")],
                // The same by the clocks of different zones.
                [("25/10/2020", "01:30:00"), ("25/10/2020", "01:30:00"), ("25/10/2020", "01:30:00")],
            ][variant % 5];
            let zones = if variant % 5 == 4 { ["BST", "GMT", "PDT"] } else { [["GMT", "BST"][variant / 10 % 2]; 3] };
            let mut rows = Vec::new();
            for (p, k) in parts {
                let r = pp(moments[*p].0, moments[*p].1, zones[*p]);
                rows.extend(match k {
                    0 => vec![r],
                    1 => vec![Pp { amount: s("1.25"), ..r }],
                    2 => vec![Pp { status: s("Pending"), ..r }],
                    3 => vec![r.clone(), r],
                    4 => vec![Pp { amount: s("1.25"), ..r.clone() }, Pp { name: s("x"), ..r.clone() }, Pp { amount: s("1.25"), ..r }],
                    5 => vec![Pp { typ: s("Bank Deposit to PP Account"), name: s(""), ..r }],
                    6 => vec![Pp { cur: s("USD"), ..r }],
                    7 => vec![Pp { amount: s("-1,234,567.89"), ..r }],
                    8 => vec![Pp { amount: s("x"), ..r }],
                    9 => vec![Pp { name: s("Café, \"x\""), receipt: s("1234-5678"), ..r }],
                    10 => vec![r; 11],
                    11 => vec![Pp { tz: s("XYZ"), ..r }],
                    12 => vec![r.clone(), Pp { typ: s("Fee"), name: s(""), ..r }],
                    13 => vec![Pp { typ: s("Fee"), name: s("x"), ..r.clone() }, Pp { name: s(""), receipt: s("1"), ..r }],
                    _ => vec![Pp { typ: s("Fee"), name: s(""), ..r.clone() }, Pp { name: s("y"), cur: s("USD"), ..r }],
                });
            }
            e.sut.put("in.csv", csv(&pp_file(&rows), PLAIN));
            e.sut.put("tz.csv", tz_file(&std_tzs()));
            sv(&["paypal-csv", "--output-timezone", ["UTC", "Europe/London"][variant / 5 % 2], "in.csv", "tz.csv"])
        }
    }
}

pub fn c22(c: &Ctx) -> (&'static str, &'static str) {
    let paths = [
        "out.journal", "./out.journal", "sub/out.journal", "new/out.journal", "new/a/b/out.journal", "%FP_NS%", "%FP_NS%.journal", "x-%FP_NS%-%FP_NS%.journal", "%FP_NS%%FP_NS%", "sub/%FP_NS%.j",
        "new/%FP_NS%/%FP_NS%.j", "%FP_NS%/out.journal", "%fp_ns%.j", "%FP_NS", "FP_NS%", "%%FP_NS%%.j", "100%.j", "sub/../out.j", "a b/é %FP_NS%.j", "in.csv.out", "%FP_NS%_%FP_%NS%", "-x", "%FP_NS%-",
        "new/../out.j", "new/a/../b/out.j", "new/../%FP_NS%/../out.j", "./new/./a/./out.j", "sub//out.j", "new//a///out.j", "new/../new/out.j", "sub/new/../out.j", "sub/%FP_NS%/../out.j", "%FP_NS%/../%FP_NS%.j", "n%FP_NS%w/out.j", "new/%FP_NS%%FP_NS%/x",
        // Below a file.
        "other.txt/out.j", "other.txt/new/out.j", "./other.txt/%FP_NS%/out.j", "sub/../other.txt/out.j",
    ];
    let nss = [Ns::Fixed(s("ab/")), Ns::Fixed(s("/ab")), Ns::Fixed(s("+")), Ns::Fixed(s("a//b")), Ns::Default, Ns::Fixed(s("acct")), Ns::Fixed(s("a/b")), Ns::Fixed(s("")), Ns::Fixed(s("sub/x")), Ns::Lookup(vec![(s("****12345"), s("look_1")), (s("12-34-56 12345678"), s("look_1"))])];
    let kinds = [Kind3::Csv, Kind3::Pdf, Kind3::Pp];
    c.par("paths", paths.len() * nss.len() * kinds.len() * 4 * 3 * 2 * 2, |e, i| {
        let mut g = Dig(i);
        let none = g.take(2) == 1;
        let (p, ns, k) = (*g.of(&paths), g.of(&nss).clone(), *g.of(&kinds));
        let (sub, mk) = (g.take(2) == 1, g.take(2) == 1);
        let (old, abs) = (g.take(3), g.take(2) == 1);
        let (args, mut want, n) = small_import(c, e, k, &ns);
        // A statement without transactions is one as well.
        if none {
            match k {
                Kind3::Csv => e.sut.put("in.csv", cp1252(&csv(&statement(true, ACCT, &[]), PLAIN))),
                Kind3::Pdf => e.sut.put("ocr.tsv", tsv(&simple_doc(&[year("2019")]))),
                Kind3::Pp => e.sut.put("in.csv", csv(&pp_file(&[]), PLAIN)),
            };
            want.clear();
        }
        e.sut.mkdir("sub");
        e.sut.put("other.txt", "other");
        let real = if sub { p.replace("%FP_NS%", &n) } else { s(p) };
        if real.starts_with('/') || real.ends_with('/') || real.is_empty() {
            return Ok(());
        }
        // The directories on the way: those that are there, and those that are to be made.
        let parts: Vec<&str> = real.split('/').filter(|x| !x.is_empty() && *x != ".").collect();
        let (last, way) = parts.split_last().expect("a name");
        let (mut at, mut made): (Vec<&str>, Vec<String>) = (vec![], vec![]);
        let (mut exists, mut blocked) = (true, false);
        for x in way {
            blocked |= *x == "other.txt";
            if *x == ".." {
                if at.pop().is_none() {
                    return Ok(());
                }
            } else {
                at.push(x);
                let d = at.join("/");
                if d != "sub" && !made.contains(&d) {
                    exists = false;
                    made.push(d);
                }
            }
        }
        at.push(last);
        let target = at.join("/");
        if made.contains(&target) || (target.ends_with("..")) {
            return Ok(());
        }
        if old > 0 && exists && target != "sub" {
            e.sut.put(&target, if old == 1 { s("short") } else { "; a long line of what was here before\n".repeat(300) });
        }
        let given = if abs { format!("{}/{}", e.sut.dir.display(), p) } else { s(p) };
        // A path that looks like an option needs the other spelling.
        let mut a = vec![s("import"), format!("--output={}", given)];
        if i % 5 == 0 && !given.starts_with('-') {
            a = vec![s("import"), s("-o"), given.clone()];
        }
        if sub {
            a.push(s("--sub-output-path"));
        }
        if mk {
            a.push(s("--make-parent-dirs"));
        }
        a.extend(args);
        let before = e.sut.tree();
        let a: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
        let out = e.sut.run(&a);
        let mut after = e.sut.tree();
        e.case(true, &(&a, old, &n));
        let now: Vec<String> = after.iter().map(|f| f.0.clone()).collect();
        let what = || format!("{:?} with namespace {:?}: {}; files now {:?}", a, n, out.short(), now);
        let clash = target == "sub" || blocked;
        if (exists || mk) && !clash {
            e.outcome("written");
            ensure!(out.ok(), "rejected", "{}", what());
            let pos = after.iter().position(|f| f.0 == target);
            let Some(pos) = pos else { return fail("output missing", format!("{} is missing: {}", target, what())) };
            let text = String::from_utf8_lossy(&after[pos].1).into_owned();
            let got = parse(&text).or_else(|x| fail("unreadable", format!("{}\n{}\n{}", x, what(), text)))?;
            let (w, got) = (strip(&want, Look::Content), strip(&got, Look::Content));
            ensure!(w == got, "imported wrongly", "{}\n{}", difference(&w, &got), what());
            after.remove(pos);
            let mut b = before.clone();
            b.retain(|f| f.0 != target);
            if mk {
                // New directories on the way to the output.
                after.retain(|f| !made.contains(&f.0.trim_end_matches('/').to_string()) || b.iter().any(|x| x.0 == f.0));
            }
            after.retain(|f| f.0 != "tess.list");
            b.retain(|f| f.0 != "tess.list");
            ensure!(after == b, "other files", "other files changed: before {:?}, {:?}", b.iter().map(|f| &f.0).collect::<Vec<_>>(), a);
        } else {
            e.outcome("refused");
            ensure!(!out.ok(), "accepted", "{}", what());
            after.retain(|f| f.0 != "tess.list");
            let mut b = before.clone();
            b.retain(|f| f.0 != "tess.list");
            ensure!(after == b, "other files", "files changed although the import failed: {}", what());
        }
        Ok(())
    });
    // Standard output.
    c.par("standard output", 3 * 3 * 4 * 2, |e, i| {
        let mut g = Dig(i);
        let (k, how, sub, mk, ns) = (*g.of(&kinds), g.take(3), g.take(2) == 1, g.take(2) == 1, [Ns::Default, Ns::Fixed(s("acct"))][g.take(2)].clone());
        let (args, want, _) = small_import(c, e, k, &ns);
        let mut a = vec![s("import")];
        match how {
            0 => {}
            1 => a.extend(sv(&["-o", "-"])),
            _ => a.push(s("--output=-")),
        }
        let file = {
            let mut f = sv(&["import", "-o", "file.journal"]);
            f.extend(args.clone());
            let f: Vec<&str> = f.iter().map(|x| x.as_str()).collect();
            let out = e.sut.run(&f);
            ensure!(out.ok(), "rejected", "{}", out.short());
            let t = e.sut.get("file.journal").unwrap_or_default();
            e.sut.rm("file.journal");
            t
        };
        if sub {
            a.push(s("--sub-output-path"));
        }
        if mk {
            a.push(s("--make-parent-dirs"));
        }
        a.extend(args);
        let a: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
        let before = e.sut.tree();
        let p = e.sut.plain(&a, None, &[]);
        e.case(true, &a);
        if sub || mk {
            e.outcome("refused");
            ensure!(p.out.failed(), "accepted", "{:?}: {}", a, p.out.short());
            ensure!(p.stdout.is_empty(), "output of a rejected import", "{:?}: wrote to standard output", a);
        } else {
            e.outcome("written");
            ensure!(p.out.ok(), "rejected", "{:?}: {}", a, p.out.short());
            ensure!(p.stdout == file, "standard output differs", "{:?}: standard output differs from the file written with -o:\n{}", a, String::from_utf8_lossy(&p.stdout));
            let got = parse(&String::from_utf8_lossy(&p.stdout)).or_else(|x| fail("unreadable", x))?;
            let (w, got) = (strip(&want, Look::Content), strip(&got, Look::Content));
            ensure!(w == got, "imported wrongly", "{}", difference(&w, &got));
        }
        let keep = |t: Vec<(String, Vec<u8>)>| t.into_iter().filter(|f| f.0 != "tess.list").collect::<Vec<_>>();
        ensure!(keep(e.sut.tree()) == keep(before), "other files", "{:?}: files changed", a);
        Ok(())
    });
    c.assume("namespaces that would make an absolute path, or a path that ends in a slash, are left out");
    ("exploration", "every case is one import with a combination of output path, substitution, parent creation, namespace, importer and previous content; all files of the directory are compared before and after; distinct by command line, previous content and namespace")
}

// ---------------------------------------------------------------------------------------------
// Time zone tables.

fn tz_probe(e: &mut Env, tzs: &[(String, String)], abbr: &str) -> R {
    // Two rows at the same instant, one in the zone under test and one in UTC, are one transaction.
    let off = tzs.iter().find(|(a, _)| a == abbr).and_then(|(_, o)| utc_offset(o)).unwrap_or(0);
    let noon = Date { y: 2020, m: 6, d: 15 }.days() * 86400 + 43200;
    let t = noon - off;
    let d = Date::from_days(t.div_euclid(86400));
    let x = t.rem_euclid(86400);
    let time = format!("{:02}:{:02}:{:02}", x / 3600, x / 60 % 60, x % 60);
    let rows = vec![pp("15/06/2020", "12:00:00", abbr), pp(&d.dmy(), &time, "REF")];
    let mut o = opts(ZONES[0]);
    o.tzs = tzs.to_vec();
    o.tzs.push((s("REF"), s("UTC+00")));
    pp_case(e, &pp_file(&rows), PLAIN, &o, Look::Content, false)
}

pub fn c23(c: &Ctx) -> (&'static str, &'static str) {
    c.par("all offsets", 2 * 100 * 101, |e, i| {
        let mut g = Dig(i);
        let (sign, h, m) = (["+", "-"][g.take(2)], g.take(100), g.take(101));
        let o = if m == 100 { format!("UTC{}{:02}", sign, h) } else { format!("UTC{}{:02}:{:02}", sign, h, m) };
        tz_probe(e, &[(s("XYZ"), o)], "XYZ")
    });
    // Notations within one (thorough: two) edits of a valid one.
    let al: Vec<char> = "UTC+-:0159 GMZutc.−h٣".chars().collect();
    let mut near: BTreeSet<Vec<char>> = BTreeSet::new();
    for base in ["UTC+05:30", "UTC-03", "UTC+00", "UTC-11:45"] {
        let mut last: BTreeSet<Vec<char>> = [base.chars().collect()].into();
        for _ in 0..if c.thorough { 2 } else { 1 } {
            let mut next = BTreeSet::new();
            for b in &last {
                for p in 0..=b.len() {
                    for ch in &al {
                        let mut x = b.clone();
                        x.insert(p, *ch);
                        next.insert(x);
                        if p < b.len() {
                            let mut x = b.clone();
                            x[p] = *ch;
                            next.insert(x);
                        }
                    }
                    if p < b.len() {
                        let mut x = b.clone();
                        x.remove(p);
                        next.insert(x);
                        if p + 1 < b.len() {
                            let mut x = b.clone();
                            x.swap(p, p + 1);
                            next.insert(x);
                        }
                    }
                }
            }
            near.extend(next.clone());
            last = next;
        }
    }
    for x in ["", "UTC", "+01", "01:00", "GMT+01", "UTC+1", "UTC+001", "UTC+01:0", "UTC+01:000", "UTC+0100", "UTC01", "UTC+01:00:00", "utc+01", "UTC +01", "UTC+ 1", "UTC+01.5", "Z", "UTC++01", "UTC+-1", "UTC+24", "UTC-24", "UTC+99:99", "Europe/London"] {
        near.insert(x.chars().collect());
    }
    let near: Vec<String> = near.into_iter().map(|x| x.into_iter().collect()).collect();
    c.par("near well-formed offsets", near.len(), |e, i| tz_probe(e, &[(s("XYZ"), near[i].clone())], "XYZ"));
    // Tables: all sequences of definitions, duplicates anywhere, bad offsets in entries that are not used.
    let ab = ["AAA", "BBB", "aaa", "AAAA"];
    let of = ["UTC+01", "UTC-02:30", "UTC+1", ""];
    let n = 16usize;
    let len = if c.thorough { 4 } else { 3 };
    for l in 0..=len {
        c.par(&format!("tables of {} entries", l), n.pow(l) * ab.len(), |e, i| {
            let mut g = Dig(i);
            let probe = *g.of(&ab);
            let t: Vec<(String, String)> = (0..l).map(|_| (s(g.of(&ab)), s(g.of(&of)))).collect();
            tz_probe(e, &t, probe)
        });
    }
    // Abbreviations that are nearly the same.
    let near = [
        "PDT", "P", "PD", "PST", "PT", "DT", "T", "ST", "pdt", "Pdt", "PDt", "PDTX", "XPDT", "PDT1", "PDT PDT", "P D T", "P.D.T.", "PDT.", "(PDT)", "B", "BST", "BDT", "GMT", "gmt", "G", "GM", "MT", "GMT+1", "GMT+01", "GMT-1", "GMT0", "UTC", "UTC+1",
        "UTC+01", "UTC+00", "UTC+01:00", "utc", "Z", "z", "CET", "CEST", "CES", "EST", "EDT", "America/Los_Angeles", "Los_Angeles", "Europe/London", "London", "+01", "+0100", "1", "*", "default", "ＰDT", "РDT", "PDT\u{301}",
    ];
    let nn = near.len();
    c.par("near abbreviations", nn * nn * if c.thorough { nn } else { 4 }, |e, i| {
        let mut g = Dig(i);
        let (a, b) = (*g.of(&near), *g.of(&near));
        let d = if c.thorough { *g.of(&near) } else { [b, a, "P", "GMT"][g.take(4)] };
        // What is looked for, one of its kind, and perhaps one more.
        let mut t = vec![(s(a), s("UTC+01"))];
        if d != a {
            t.push((s(d), s("UTC-02:30")));
        }
        tz_probe(e, &t, b)
    });
    // Large tables.
    c.par("sizes", 6, |e, i| {
        let k = [1, 10, 100, 255, 256, 1439][i];
        let t: Vec<(String, String)> = (0..k).map(|x| (format!("Z{}", x), format!("UTC{}{:02}:{:02}", if x % 2 == 0 { "+" } else { "-" }, x / 60, x % 60))).collect();
        for p in [0, k / 2, k - 1] {
            tz_probe(e, &t, &format!("Z{}", p))?;
        }
        let mut t2 = t.clone();
        t2.push(t[k / 2].clone());
        tz_probe(e, &t2, "Z0")
    });
    // Broken tables.
    let broken = ["", "abbreviation\nXYZ\n", "utc_offset\nUTC+01\n", "abbreviation,utc_offset\nXYZ\n", "abbreviation,utc_offset\nXYZ,UTC+01,extra\n", "a,b\nXYZ,UTC+01\n", "abbreviation,utc_offset\nXYZ,\"UTC+01\n", "XYZ,UTC+01\n"];
    c.par("broken tables", broken.len(), |e, i| {
        e.sut.put("in.csv", csv(&pp_file(&[pp("15/06/2020", "12:00:00", "XYZ")]), PLAIN));
        e.sut.put("tz.csv", broken[i]);
        e.case(true, &i);
        judge(e, &["paypal-csv", "--output-timezone", "UTC", "in.csv", "tz.csv"], &Verdict::Reject("a broken table"), Look::Content, broken[i], true)
    });
    c.par("missing table", 2, |e, i| {
        e.sut.put("in.csv", csv(&pp_file(&[pp("15/06/2020", "12:00:00", "XYZ")]), PLAIN));
        if i == 1 {
            e.sut.mkdir("tz.csv");
        }
        e.case(true, &i);
        judge(e, &["paypal-csv", "--output-timezone", "UTC", "in.csv", "tz.csv"], &Verdict::Reject("no readable table"), Look::Content, "no table", true)
    });
    ("exploration", "every case is one table; the offset it gives is observed to the second by whether a row in that zone and a row in UTC form one transaction; distinct by table and rows")
}

// ---------------------------------------------------------------------------------------------
// Namespaces.

pub fn c24(c: &Ctx) -> (&'static str, &'static str) {
    // All fixed namespaces with one odd character, at the start, middle or end.
    let mut chars: Vec<String> = (0x20u8..0x7f).map(|b| (b as char).to_string()).collect();
    chars.extend(sv(&["é", "€", "日", "\t", "\n", "\u{300}", "٣", "ﬁ", "K", "ſ", "__", "--", "++", "//", "", "%FP_NS%", "..", "a b"]));
    let kinds = [Kind3::Csv, Kind3::Pp, Kind3::Pdf];
    c.par("characters", chars.len() * 4 * kinds.len(), |e, i| {
        let mut g = Dig(i);
        let (ch, pos, k) = (g.of(&chars).clone(), g.take(4), *g.of(&kinds));
        let ns = match pos {
            0 => ch,
            1 => format!("{}x", ch),
            2 => format!("x{}y", ch),
            _ => format!("x{}", ch),
        };
        let n = Ns::Fixed(ns.clone());
        match k {
            Kind3::Csv => nw_case(e, &statement(i % 2 == 0, ACCT, &seq_rows(i % 2 == 0, &[(0, 0), (0, 1)])), PLAIN, &n, i % 3 == 0, Look::Fps, i % 2 == 0),
            Kind3::Pp => {
                // An argument that starts with a dash needs "=", which the file name cannot provide.
                if ns.starts_with('-') {
                    return Ok(());
                }
                let o = PpOpts { ns: Some(ns), legacy: true, ..opts(ZONES[0]) };
                pp_case(e, &pp_file(&[pp("01/01/2019", "12:00:00", "GMT")]), PLAIN, &o, Look::Fps, i % 2 == 0)
            }
            Kind3::Pdf => {
                let d = simple_doc(&[year("2019"), row("01 Jan", "a", "1.00", "", ""), row("", "more text", "", "", "")]);
                pdf_case(c, e, &d, &PdfRun { ns: n, look: Look::Fps, old: i % 2 == 0 })
            }
        }
    });
    // Account names under each choice.
    let mut accts: Vec<String> = Vec::new();
    for ch in "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~ 0\u{e9}\u{a3}".chars() {
        accts.extend([format!("{}Flex", ch), format!("Fl{}ex", ch), format!("Flex{}", ch), format!("Fl{}{}ex", ch, ch), format!("{}Flex{}", ch, ch)]);
    }
    accts.extend(sv(&["Flex", "flex", "FLEX", "xelF", "FlexFlex", "Fle", "lex", "Flex 1", "Flex 01", "Flex 10"]));
    // A single space at an end may be taken off by the reader of the file.
    accts.retain(|a| a.trim() == a);
    let ways = [Ns::Default, Ns::Generated, Ns::Account, Ns::Lookup(vec![(s("Flex"), s("it"))])];
    c.par("account names that differ by a character", accts.len() * ways.len(), |e, i| {
        let mut g = Dig(i);
        let (a, ns) = (g.of(&accts).clone(), g.of(&ways).clone());
        let six = i % 2 == 1;
        nw_case(e, &statement(six, &a, &seq_rows(six, &[(0, 0)])), PLAIN, &ns, false, Look::Fps, true)
    });
    // Choices put together from what choices are made of.
    let parts = ["fixed:", "lookup:", "generated", "account-name", ":", "x", "lookup.ron", "Fixed:"];
    c.par("choices put together", parts.len().pow(3) + parts.len().pow(2), |e, i| {
        let mut g = Dig(i);
        let n = if i < parts.len().pow(3) { 3 } else { 2 };
        let arg: String = (0..n).map(|_| *g.of(&parts)).collect();
        let six = i % 2 == 1;
        let recs = statement(six, ACCT, &seq_rows(six, &[(0, 0)]));
        e.sut.put("in.csv", cp1252(&csv(&recs, PLAIN)));
        e.sut.put("lookup.ron", ron_map(&[(s(ACCT), s("ok"))]));
        let v = match arg.split_once(':') {
            Some(("fixed", x)) => nw_csv(&recs, &Ns::Fixed(s(x)), false),
            Some(("lookup", "lookup.ron")) => nw_csv(&recs, &Ns::Fixed(s("ok")), false),
            _ => Verdict::Reject("unusable choice"),
        };
        let arg = format!("--fp-namespace={}", arg);
        e.case(true, &(&arg, six));
        judge(e, &["nationwide-csv", &arg, "in.csv"], &v, Look::Fps, &arg, true)
    });
    let accts = ["****12345", "Account 1", "plain", "a", "ACCOUNT_1+2/3", "plain2", "Plain", "é", "a-b", "x:y", "0", "long".repeat(50).leak() as &str, "FlexDirect ****9876", "a \"b\", c"];
    let table: Vec<(String, String)> = [("plain", "p1"), ("a", "the_a"), ("é", "utf8"), ("****12345", "mine"), ("a-b", "bad-ns"), ("0", ""), ("a \"b\", c", "quoted"), ("Account 1", "a1"), ("plain2", "p/2+")]
        .iter()
        .map(|(a, b)| (s(a), s(b)))
        .collect();
    let choices = [Ns::Default, Ns::Generated, Ns::Account, Ns::Fixed(s("f")), Ns::Lookup(table.clone()), Ns::Lookup(vec![])];
    c.par("account names", accts.len() * choices.len() * 2 * 2, |e, i| {
        let mut g = Dig(i);
        let (a, ns, six, legacy) = (*g.of(&accts), g.of(&choices).clone(), g.take(2) == 1, g.take(2) == 1);
        nw_case(e, &statement(six, a, &seq_rows(six, &[(0, 0), (1, 2)])), styles()[i % 16], &ns, legacy, Look::Fps, true)
    });
    let pa = ["Account Number 12-34-56 12345678", "Account Number 00-00-00 00000000", "Account Number 99-88-77 11111111"];
    let ptable: Vec<(String, String)> = vec![(s("12-34-56 12345678"), s("one")), (s("00-00-00"), s("two")), (s("99-88-77 11111111"), s("bad ns")), (s("12-34-56"), s("three"))];
    let pch = [Ns::Default, Ns::Generated, Ns::Account, Ns::Fixed(s("f")), Ns::Lookup(ptable), Ns::Lookup(vec![])];
    c.par("account numbers", pa.len() * pch.len(), |e, i| {
        let mut g = Dig(i);
        let (a, ns) = (*g.of(&pa), g.of(&pch).clone());
        let mut l = Line { top: 1, height: H, words: vec![] };
        put_words(&mut l, a, 2100, 50);
        let d: Doc = vec![vec![vec![vec![l]], vec![table_of_one()]]];
        pdf_case(c, e, &d, &PdfRun { ns, look: Look::Fps, old: true })
    });
    // Tables of entries that are nearly for the account, in all combinations.
    for (fam, acct) in [("lookup tables", ACCT), ("lookup tables for a plain name", "Main"), ("lookup tables for several words", "Flex Direct ****98765")] {
        let mut near: Vec<String> = sv(&["", "*", ".*", "_", "default", "other", " "]);
        near.push(s(&acct[1..]));
        near.push(s(&acct[..acct.len() - 1]));
        near.push(format!("{} ", acct));
        near.push(format!("{}x", acct));
        near.push(format!("x{}", acct));
        near.push(acct.to_lowercase().to_uppercase());
        near.push(acct.to_lowercase());
        near.push(acct.replace('*', ""));
        near.push(format!("Nationwide {}", acct));
        near.extend(acct.split(' ').map(s));
        near.extend(acct.rsplit_once(' ').iter().flat_map(|(a, _)| [s(a), format!("{} ", a)]));
        near.extend(acct.split_once(' ').map(|(_, b)| s(b)));
        near.push(acct.chars().filter(|x| x.is_ascii_digit()).collect());
        near.push(acct.replace(' ', ""));
        near.push(acct.replace(' ', "_"));
        near.push(acct.replace(' ', "  "));
        near.push(acct.chars().rev().collect());
        near.retain(|x| x != acct);
        near.sort();
        near.dedup();
        near.push(s(acct));
        let (n, most) = (near.len(), if c.thorough { 4 } else { 3 });
        let sets: Vec<usize> = (0..1usize << n).filter(|m| m.count_ones() <= most).collect();
        c.par(fam, sets.len() * 2, |e, i| {
            let (m, six) = (sets[i / 2], i % 2 == 1);
            let t: Vec<(String, String)> = (0..n).filter(|k| m >> k & 1 == 1).map(|k| (near[k].clone(), format!("ns{}", k))).collect();
            nw_case(e, &statement(six, acct, &seq_rows(six, &[(0, 0)])), PLAIN, &Ns::Lookup(t), false, Look::Fps, true)
        });
    }
    // The namespace in the output path is the same.
    c.par("in the output path", accts.len() * choices.len() * 2, |e, i| {
        let mut g = Dig(i);
        let (a, ns, six) = (*g.of(&accts), g.of(&choices).clone(), g.take(2) == 1);
        let recs = statement(six, a, &seq_rows(six, &[(0, 0)]));
        e.sut.put("in.csv", cp1252(&csv(&recs, PLAIN)));
        if let Ns::Lookup(t) = &ns {
            e.sut.put("lookup.ron", ron_map(t));
        }
        let mut args = sv(&["import", "-o", "o/x%FP_NS%.journal", "--sub-output-path", "--make-parent-dirs", "nationwide-csv"]);
        args.extend(ns.args());
        args.push(s("in.csv"));
        let args: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
        let out = e.sut.run(&args);
        e.case(true, &(a, &args));
        let files: Vec<String> = e.sut.tree().into_iter().map(|f| f.0).filter(|f| f.starts_with("o/x")).collect();
        match nw_csv(&recs, &ns, false) {
            Verdict::Ok(n, _) => {
                ensure!(out.ok(), "rejected", "{:?}: {}", args, out.short());
                let want = format!("o/x{}.journal", n);
                ensure!(files.iter().any(|f| *f == want), "output path", "{:?} for account {:?}: {} is missing; files: {:?}", args, a, want, files);
            }
            _ => ensure!(!out.ok() && files.is_empty(), "accepted", "{:?} for account {:?}: {}; {:?}", args, a, out.short(), files),
        }
        Ok(())
    });
    // Choices that do not exist, and lookup files that cannot be used.
    let unknown = ["", "fixed", "lookup", "Generated", "account_name", "account-name ", " generated", "Fixed:x", "fixed=x", "account", "generated:", "default", "account-name:x", "looku:x", "fixe:x", ":", "x"];
    let luts = [
        "", "{", "{}", "()", "[]", "{\"****12345\": \"ok\"}", "{\"****12345\": \"ok\",}", "{\"****12345\": 5}", "{5: \"x\"}", "{\"****12345\" \"ok\"}", "{\"****12345\": \"ok\"} x", "{\"other\": \"ok\"}",
        "{\"****12345\": \"a-b\"}", "{\"****12345 \": \"ok\"}", "{\"****1234\": \"ok\"}", "{\"*****12345\": \"ok\"}", "{\"****12345\": Some(\"ok\")}", "\"ok\"", "{\"x\": \"y\", \"****12345\": \"ok\"}",
    ];
    let good = [5usize, 6, 18];
    c.par("unknown choices", (unknown.len() + luts.len() + 2) * 2, |e, i| {
        let six = i % 2 == 1;
        let recs = statement(six, ACCT, &seq_rows(six, &[(0, 0)]));
        e.sut.put("in.csv", cp1252(&csv(&recs, PLAIN)));
        let k = i / 2;
        let mut v = Verdict::Reject("unusable choice");
        let arg = if k < unknown.len() {
            format!("--fp-namespace={}", unknown[k])
        } else if k < unknown.len() + luts.len() {
            let l = k - unknown.len();
            e.sut.put("lookup.ron", luts[l]);
            if good.contains(&l) {
                v = nw_csv(&recs, &Ns::Fixed(s("ok")), false);
            }
            s("--fp-namespace=lookup:lookup.ron")
        } else if k == unknown.len() + luts.len() {
            s("--fp-namespace=lookup:missing.ron")
        } else {
            e.sut.mkdir("lookup.ron");
            s("--fp-namespace=lookup:lookup.ron")
        };
        e.case(true, &(k, six));
        judge(e, &["nationwide-csv", &arg, "in.csv"], &v, Look::Fps, &arg, true)
    });
    c.assume("namespaces are judged on statements with at least one transaction");
    ("exploration", "every case is one import with a combination of account name, namespace choice, lookup file and importer; fingerprints, seq tags and output paths are compared with the model; distinct by content and options")
}

fn table_of_one() -> Para {
    table(&[year("2019"), row("01 Jan", "a", "1.00", "", "")])
}

// ---------------------------------------------------------------------------------------------
// Overlapping statements, imported and merged.

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Bank {
    Csv6,
    Csv6Legacy,
    Csv5,
    Pdf,
    PayPal,
    PayPalPlain,
}

const RULES: &str = r#"[
Chain("start", [
    Rule(action: All([SetAccount("expenses:ruled"), RemovePostingFlagTag("unknown-account"), AddPostingFlagTag("ruled")]), predicate: All([PostingHasFlagTag("import-peer"), PostingHasFlagTag("unknown-account")]), result: Return),
    Rule(action: All([SetAccount("assets:ruled"), RemovePostingFlagTag("unknown-account"), AddPostingFlagTag("ruled")]), predicate: All([PostingHasFlagTag("import-self"), PostingHasFlagTag("unknown-account")]), result: Return),
]),
]
"#;

/// What happens on a day: kinds of rows, in order.
type Day = &'static [u8];

const DAYS: [Day; 3] = [b"", b"", b""];

const DAY_ALPHABET: [Day; 8] = [b"", b"a", b"aa", b"ab", b"b", b"bb", b"ba", b"aba"];

/// Writes the statement of days `from..=to` into `name` and gives the import command.
fn bank_statement(c: &Ctx, e: &mut Env, bank: Bank, days: &[Day; 3], rows: &dyn Fn(usize, usize) -> String, from: usize, to: usize, newest_first: bool) -> (Vec<String>, Verdict) {
    let file = format!("{}-{}", from, to);
    let mut order: Vec<usize> = (from..=to).collect();
    if newest_first {
        order.reverse();
    }
    let nw = ["31 Dec 2019", "01 Jan 2020", "02 Jan 2020"];
    match bank {
        Bank::Csv6 | Bank::Csv6Legacy | Bank::Csv5 => {
            let six = bank != Bank::Csv5;
            let mut v = Vec::new();
            for &d in &order {
                for (k, r) in days[d].iter().enumerate() {
                    let bal = rows(d, k);
                    v.push(match r {
                        b'a' => nw_row(six, nw[d], "Card", "Shop", "£1.00", "", &bal),
                        _ => nw_row(six, nw[d], "Card", "Shop", "", "£1.00", &bal),
                    });
                }
            }
            let recs = statement(six, ACCT, &v);
            let legacy = bank == Bank::Csv6Legacy;
            let text = csv(&recs, PLAIN);
            e.sut.put(&format!("{}.csv", file), cp1252(&text));
            let mut args = sv(&["nationwide-csv"]);
            if legacy {
                args.push(s("--include-legacy-fingerprint"));
            }
            args.push(format!("{}.csv", file));
            (args, nw_csv(&recs, &Ns::Default, legacy))
        }
        Bank::Pdf => {
            let mut v = Vec::new();
            let mut shown = "";
            for &d in &order {
                for (k, r) in days[d].iter().enumerate() {
                    let y = if d == 0 { "2019" } else { "2020" };
                    if y != shown {
                        v.push(year(y));
                        shown = y;
                    }
                    let date = if k > 0 { "" } else { ["31 Dec", "01 Jan", "02 Jan"][d] };
                    let bal = rows(d, k).replace('£', "");
                    v.push(match r {
                        b'a' => row(date, "Shop", "1.00", "", &bal),
                        _ => row(date, "Shop", "", "1.00", &bal),
                    });
                }
            }
            let doc = simple_doc(&v);
            e.sut.put("in.pdf", "");
            e.sut.put("ocr.tsv", tsv(&doc));
            let stub = c.root.join("target/ocr").to_str().unwrap().to_string();
            let v = pdf(&doc, &Ns::Default, &mut false);
            (vec![s("nationwide-pdf"), s("in.pdf"), stub.clone(), stub], v)
        }
        Bank::PayPal | Bank::PayPalPlain => {
            let mut v = Vec::new();
            for &d in &order {
                for (k, r) in days[d].iter().enumerate() {
                    let date = ["31/12/2019", "01/01/2020", "02/01/2020"][d];
                    let mut p = pp(date, if *r == b'a' { "10:00:00" } else { "23:45:00" }, "GMT");
                    p.amount = s(if *r == b'a' { "-1.00" } else { "1.00" });
                    p.balance = rows(d, k).replace('£', "");
                    v.push(p);
                }
            }
            let recs = pp_file(&v);
            let mut o = opts(ZONES[0]);
            o.legacy = bank == Bank::PayPal;
            e.sut.put(&format!("{}.csv", file), csv(&recs, PLAIN));
            e.sut.put("tz.csv", tz_file(&o.tzs));
            let mut args = sv(&["paypal-csv", "--output-timezone", "UTC"]);
            if o.legacy {
                args.push(s("--include-legacy-fingerprint"));
            }
            args.extend([format!("{}.csv", file), s("tz.csv")]);
            (args, paypal(&recs, &o))
        }
    }
}

const BY_HAND: usize = 7;

/// A journal of the first two days is edited by hand, then all three days are merged in, then again.
fn by_hand(c: &Ctx, e: &mut Env, bank: Bank, word: &str, how: usize, which: usize) -> R {
    let days: [Day; 3] = [b"ab", b"a", b"b"];
    let rows = |d: usize, k: usize| format!("\u{a3}{}.00", 20 + 3 * d + k);
    let mut full = Vec::new();
    for (k, (from, to)) in [(0, 1), (0, 2), (1, 2)].into_iter().enumerate() {
        let (args, v) = bank_statement(c, e, bank, &days, &rows, from, to, false);
        let Verdict::Ok(_, want) = v else { panic!("the model does not accept the statement") };
        if k == 1 {
            full = want;
        }
        let o = format!("s{}.journal", k);
        let a = [sv(&["import", "-o", &o]), args].concat();
        let a: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
        let out = e.sut.run(&a);
        ensure!(out.ok(), "rejected", "{:?}: {}", a, out.short());
    }
    let edit = |t: &mut Trn| {
        for (k, p) in t.posts.iter_mut().enumerate() {
            if which == 2 || k % 2 == which {
                match how {
                    0 => p.c.flags.extend([s(word)]),
                    1 => {
                        p.c.kv.entry(s(word)).or_insert(s("1"));
                    }
                    2 => p.c.kv.extend([(s("k"), s(word))]),
                    // The account, keeping the tag that it is unknown or not.
                    3 => p.acct = format!("expenses:{}", word),
                    4 => {
                        p.acct = format!("expenses:{}", word);
                        p.c.flags.remove(UNKNOWN);
                    }
                    5 => {
                        p.acct = s("liabilities:card");
                        p.c.flags.remove(UNKNOWN);
                        p.c.flags.extend([s(word), s("x")]);
                    }
                    _ => {}
                }
            }
        }
        if how == 6 {
            t.c.flags.extend([s(word)]);
            t.c.kv.extend([(format!("{}-k", word), s(word))]);
        }
    };
    let first = |t: &Trn| t.date != full.last().unwrap().date;
    let mut want = full.clone();
    want.iter_mut().filter(|t| first(t)).for_each(&edit);
    let out = e.sut.run(&["merge", "-o", "m.journal", "s0.journal"]);
    ensure!(out.ok(), "merge failed", "{}", out.short());
    let mut t = parse(&e.sut.get_str("m.journal").unwrap_or_default()).or_else(|x| fail("unreadable", x))?;
    t.iter_mut().for_each(&edit);
    e.sut.put("m.journal", render(&t));
    for more in ["s1.journal", "s2.journal", "s1.journal"] {
        let out = e.sut.run(&["merge", "-o", "m.journal", "-u", "u.journal", "m.journal", more]);
        let what = || format!("{:?}: edit {} of {} with {:?}, then {}", bank, how, which, word, more);
        ensure!(out.ok(), "merge failed", "{}: {}\n{}", what(), out.short(), render(&t));
        if let Some(u) = e.sut.get_str("u.journal") {
            ensure!(parse(&u).is_ok_and(|t| t.is_empty()), "unmerged", "{}: left unmerged:\n{}", what(), u);
        }
        let text = e.sut.get_str("m.journal").unwrap_or_default();
        let got = parse(&text).or_else(|x| fail("unreadable", format!("{}\n{}", x, text)))?;
        let (mut w, mut g) = (by_fp(want.clone()), by_fp(got));
        if bank == Bank::PayPal {
            // Whether peers get this fingerprint is C15's affair.
            for p in w.iter_mut().chain(&mut g).flat_map(|t| t.posts.iter_mut().skip(1).step_by(2)) {
                p.c.flags.retain(|f| !f.starts_with("fp-ppcsv"));
            }
        }
        ensure!(w == g, "wrong result", "{}: {}", what(), difference(&w, &g));
        e.transition();
    }
    e.case(true, &(bank, word, how, which));
    e.validated();
    Ok(())
}

/// What should have become of one transaction of the history.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
struct Half {
    /// 0: unknown, 1: by rule, 2: by hand.
    acct: u8,
    ruled: bool,
    byhand: bool,
}

type Abs = Vec<Option<[Half; 2]>>;

fn concrete(full: &[Trn], abs: &Abs) -> Vec<Trn> {
    let mut v = Vec::new();
    for (t, a) in full.iter().zip(abs) {
        let Some(a) = a else { continue };
        let mut t = t.clone();
        for (k, p) in t.posts.iter_mut().enumerate() {
            let h = a[k % 2];
            if h.acct > 0 {
                p.acct = s(match (h.acct, k % 2) {
                    (1, 0) => "assets:ruled",
                    (1, _) => "expenses:ruled",
                    _ => "expenses:mine",
                });
                p.c.flags.remove(UNKNOWN);
            }
            if h.ruled {
                p.c.flags.insert(s("ruled"));
            }
            if h.byhand {
                p.c.flags.insert(s("byhand"));
                p.c.lines.push(s("checked"));
            }
        }
        v.push(t);
    }
    v
}

fn by_fp(mut t: Vec<Trn>) -> Vec<Trn> {
    t.sort_by_key(|t| t.posts.first().map(|p| p.fps()));
    t
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Step {
    Merge(usize, bool),
    Rules,
    Hand(usize),
    Fmt,
}

fn pipeline(c: &Ctx, e: &mut Env, bank: Bank, days: &[Day; 3], cumulative: bool, full_actions: bool, newest_first: bool) -> R {
    // Balances.
    let total = |d: usize, k: usize| -> i64 {
        let mut n = 20;
        for (x, day) in days.iter().enumerate().take(d + 1) {
            for (y, r) in day.iter().enumerate() {
                if x < d || y <= k {
                    n += if *r == b'a' { -1 } else { 1 };
                }
            }
        }
        n
    };
    let rows = |d: usize, k: usize| if cumulative { format!("£{}.00", total(d, k)) } else { s("£10.00") };
    let desc = format!("{:?}, days {:?}{}, {} balances", bank, days.map(|d| String::from_utf8_lossy(d).into_owned()), if newest_first { " (newest first)" } else { "" }, if cumulative { "cumulative" } else { "constant" });
    // Import every statement of whole days.
    let intervals = [(0, 2), (0, 1), (1, 2), (0, 0), (1, 1), (2, 2)];
    e.sut.put("rules.ron", RULES);
    let mut full: Vec<Trn> = Vec::new();
    let mut covers: Vec<Vec<usize>> = Vec::new();
    for (i, (from, to)) in intervals.into_iter().enumerate() {
        let (args, v) = bank_statement(c, e, bank, days, &rows, from, to, newest_first);
        let Verdict::Ok(_, want) = v else { panic!("the model does not accept a statement of {}", desc) };
        if i == 0 {
            full = want.clone();
        }
        let iso = |k: usize| ["2019-12-31", "2020-01-01", "2020-01-02"][k];
        covers.push((0..full.len()).filter(|k| (from..=to).any(|d| full[*k].date == iso(d))).collect());
        let o = format!("s{}.journal", i);
        let mut a = sv(&["import", "-o"]);
        a.push(o.clone());
        a.extend(args);
        let a: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
        let out = e.sut.run(&a);
        ensure!(out.ok(), "rejected", "{}: {:?}: {}", desc, a, out.short());
        let r = format!("r{}.journal", i);
        let out = e.sut.run(&["apply-rules", "-o", &r, &o, "table", "rules.ron"]);
        ensure!(out.ok(), "rules rejected", "{}: {}", desc, out.short());
    }
    let file = |i: usize, ruled: bool| format!("{}{}.journal", if ruled { "r" } else { "s" }, i);
    let add = |abs: &mut Abs, i: usize, ruled: bool| {
        for k in &covers[i] {
            match &mut abs[*k] {
                x @ None => *x = Some([Half { acct: ruled as u8, ruled, byhand: false }; 2]),
                Some(h) => {
                    for h in h {
                        if ruled {
                            h.ruled = true;
                            if h.acct == 0 {
                                h.acct = 1;
                            }
                        }
                    }
                }
            }
        }
    };
    let compare = |e: &mut Env, out: &Out, abs: &Abs, how: &dyn Fn() -> String| -> Result<String, Fail> {
        let Out::Ok = out else {
            if bank == Bank::PayPalPlain {
                return fail("paypal-import-cannot-be-merged", format!("{}: {}: {}", desc, how(), out.short()));
            }
            return fail("merge failed", format!("{}: {}: {}", desc, how(), out.short()));
        };
        let text = e.sut.get_str("m.journal").unwrap_or_default();
        if let Some(u) = e.sut.get_str("u.journal") {
            ensure!(parse(&u).is_ok_and(|t| t.is_empty()), "unmerged", "{}: {}: left unmerged:\n{}", desc, how(), u);
        }
        let got = parse(&text).or_else(|x| fail("unreadable", format!("{}\n{}\n{}", x, desc, text)))?;
        let (mut w, mut g) = (by_fp(concrete(&full, abs)), by_fp(got));
        if bank == Bank::PayPal {
            // Whether peers get this fingerprint is C15's affair.
            for p in w.iter_mut().chain(&mut g).flat_map(|t| t.posts.iter_mut().skip(1).step_by(2)) {
                p.c.flags.retain(|f| !f.starts_with("fp-ppcsv"));
            }
        }
        ensure!(w == g, "wrong result", "{}: {}: {}", desc, how(), difference(&w, &g));
        Ok(text)
    };
    // All statements at once, in all combinations of up to three.
    let n = intervals.len();
    let mut seqs: Vec<Vec<(usize, bool)>> = vec![vec![]];
    let mut last = seqs.clone();
    for len in 1..=3 {
        let mut next = Vec::new();
        for q in &last {
            for i in 0..n {
                for ruled in [false, true] {
                    if ruled && !(full_actions && len < 3) {
                        continue;
                    }
                    let mut q: Vec<(usize, bool)> = q.clone();
                    q.push((i, ruled));
                    next.push(q);
                }
            }
        }
        seqs.extend(next.clone());
        last = next;
    }
    for q in &seqs[1..] {
        let names: Vec<String> = q.iter().map(|(i, r)| file(*i, *r)).collect();
        let mut a = vec!["merge", "-o", "m.journal", "-u", "u.journal"];
        a.extend(names.iter().map(|x| x.as_str()));
        e.sut.rm("m.journal");
        let out = e.sut.run(&a);
        let mut abs: Abs = vec![None; full.len()];
        for (i, r) in q {
            add(&mut abs, *i, *r);
        }
        compare(e, &out, &abs, &|| format!("statements {:?} merged at once", q.iter().map(|(i, r)| (intervals[*i], *r)).collect::<Vec<_>>()))?;
        e.case(!full.is_empty(), &(bank, days, cumulative, newest_first, q));
        e.transition();
        e.validated();
    }
    // Step by step: all reachable states of the merged journal.
    let start: Abs = vec![None; full.len()];
    let mut seen: BTreeSet<(String, u64)> = BTreeSet::new();
    let mut queue: Vec<(String, Abs, Vec<Step>)> = vec![(String::new(), start, vec![])];
    seen.insert((String::new(), 0));
    let mut at = 0;
    while at < queue.len() {
        let (text, abs, path) = queue[at].clone();
        at += 1;
        let mut steps: Vec<Step> = (0..n).map(|i| Step::Merge(i, false)).collect();
        if full_actions {
            steps.extend((0..n).map(|i| Step::Merge(i, true)));
            if at > 1 {
                steps.push(Step::Rules);
                steps.push(Step::Fmt);
                let present: Vec<usize> = (0..abs.len()).filter(|k| abs[*k].is_some()).collect();
                let mut ends: Vec<usize> = present.first().into_iter().chain(present.last()).copied().collect();
                ends.dedup();
                for k in ends {
                    if abs[k].unwrap()[1].acct != 2 {
                        steps.push(Step::Hand(k));
                    }
                }
            }
        }
        for st in steps {
            let mut abs = abs.clone();
            e.sut.put("m.journal", &text);
            e.sut.rm("u.journal");
            let out = match st {
                Step::Merge(i, r) => {
                    add(&mut abs, i, r);
                    // Into the same file: the journal is kept in place.
                    e.sut.run(&["merge", "-o", "m.journal", "-u", "u.journal", "m.journal", &file(i, r)])
                }
                Step::Rules => {
                    for h in abs.iter_mut().flatten().flatten() {
                        if h.acct == 0 {
                            *h = Half { acct: 1, ruled: true, ..*h };
                        }
                    }
                    e.sut.run(&["apply-rules", "-o", "m.journal", "m.journal", "table", "rules.ron"])
                }
                Step::Fmt => e.sut.run(&["fmt", "m.journal"]),
                Step::Hand(k) => {
                    let fps = full[k].posts[1].fps();
                    let mut t = parse(&text).unwrap_or_default();
                    for x in &mut t {
                        if x.posts.len() > 1 && !x.posts[1].fps().is_disjoint(&fps) {
                            for p in x.posts.iter_mut().skip(1).step_by(2) {
                                p.acct = s("expenses:mine");
                                p.c.flags.remove(UNKNOWN);
                                p.c.flags.insert(s("byhand"));
                                p.c.lines.push(s("checked"));
                            }
                        }
                    }
                    e.sut.put("m.journal", render(&t));
                    let h = &mut abs[k].as_mut().unwrap()[1];
                    *h = Half { acct: 2, byhand: true, ..*h };
                    Out::Ok
                }
            };
            let mut path = path.clone();
            path.push(st);
            let text = compare(e, &out, &abs, &|| format!("steps {:?} (statements {:?})", path, intervals))?;
            e.case(!full.is_empty(), &(bank, days, cumulative, newest_first, &text, hash_of(&abs)));
            e.transition();
            e.validated();
            if seen.insert((text.clone(), hash_of(&abs))) {
                e.state(&(bank, days, cumulative, newest_first, &text));
                queue.push((text, abs, path));
            }
        }
    }
    e.sample(|| format!("{}: {} reachable states of the merged journal", desc, queue.len()));
    Ok(())
}

pub fn c25(c: &Ctx) -> (&'static str, &'static str) {
    let banks = [Bank::Csv6, Bank::Csv5, Bank::PayPal, Bank::Pdf, Bank::Csv6Legacy];
    // Histories with few transactions, with rules and edits; all of them, with merges only.
    let history = |i: usize, n: usize| -> [Day; 3] {
        let mut g = Dig(i);
        let mut d = DAYS;
        for x in &mut d {
            *x = DAY_ALPHABET[g.take(n)];
        }
        d
    };
    let pick = |n: usize, most: usize| -> Vec<[Day; 3]> { (0..n * n * n).map(|i| history(i, n)).filter(|h| h.iter().map(|d| d.len()).sum::<usize>() <= most).collect() };
    let few = if c.thorough { pick(7, 4) } else { pick(5, 2) };
    let all = if c.thorough { pick(8, 9) } else { pick(5, 6) };
    c.par("statements, rules, edits", few.len() * banks.len() * 2, |e, i| {
        let mut g = Dig(i);
        let (bank, cum) = (*g.of(&banks), g.take(2) == 1);
        pipeline(c, e, bank, g.of(&few), cum, true, false)
    });
    let cums = if c.thorough { 2 } else { 1 };
    c.par("statements", all.len() * banks.len() * cums, |e, i| {
        let mut g = Dig(i);
        let (bank, cum) = (*g.of(&banks), g.take(cums) == 1);
        pipeline(c, e, bank, g.of(&all), cum, false, false)
    });
    // The newest day first, as some banks have it.
    let most = if c.thorough { pick(5, 6) } else { pick(4, 5) };
    let latest: Vec<[Day; 3]> = most.into_iter().filter(|h| h.iter().filter(|d| !d.is_empty()).count() > 1).collect();
    c.par("newest day first", latest.len() * banks.len(), |e, i| {
        let mut g = Dig(i);
        let bank = *g.of(&banks);
        pipeline(c, e, bank, g.of(&latest), true, false, true)
    });
    c.par("PayPal without the legacy option", 2, |e, i| pipeline(c, e, Bank::PayPalPlain, &[b"a", b"", b""], i == 1, false, false));
    // What is changed by hand in the merged journal stays, whatever the tags, words and accounts.
    let words: Vec<&str> = super::merging::WORDS.to_vec();
    c.par("edits by hand", words.len() * BY_HAND * 3 * 4, |e, i| {
        let mut g = Dig(i);
        let (w, how, which, bank) = (*g.of(&words), g.take(BY_HAND), g.take(3), banks[g.take(4)]);
        by_hand(c, e, bank, w, how, which)
    });
    c.assume("the days a statement covers are those of the dates its transactions get (for PayPal, in the output time zone)");
    ("model_checking", "every history of three days over the alphabet of days; every statement of whole days is imported, every sequence of up to three is merged at once, and all states of the merged journal that any number of merges, rule applications, edits and formattings reach are explored; distinct by history, state and step")
}
