//! C16-C18 and C21: reading and writing journals.

use super::merging::Dig;
use crate::ctx::*;
use crate::ensure;
use crate::journal::*;
use crate::sut::Out;

fn s(x: &str) -> String {
    x.to_string()
}

// ---------------------------------------------------------------------------------------------
// Comments.

/// Does the text read as just itself, wherever it is put?
fn plain_text(t: &str) -> bool {
    let mut a = Comment::default();
    a.read_line(t);
    let mut b = Comment::default();
    b.read_line(&format!(":x: {}", t));
    let just = |c: &Comment, flags: usize| c.lines.len() == 1 && c.lines[0] == t && c.kv.is_empty() && c.flags.len() == flags;
    just(&a, 0) && just(&b, 1)
}

fn tidy(mut c: Comment) -> Comment {
    for v in c.kv.values_mut() {
        *v = v.trim().to_string();
    }
    c
}

/// One transaction with the comment lines at a place.
fn commented(k: usize, place: usize, lines: &[String], o: &mut String) -> Trn {
    let mut t = Trn { date: s("2020-01-01"), desc: format!("t{}", k), ..Trn::default() };
    let mut p = Post { acct: s("a"), amt: Some(pamt("GBP1")), ..Post::default() };
    p.c.flags.insert(format!("fp-{}", k));
    let c = Comment::of_raw(lines);
    // Different marks for comments are all the same.
    let marks = ["; ", ";", ";   ", "# ", "% ", "| ", ";\t"];
    let own = |ls: &[String], o: &mut String| {
        for l in ls {
            o.push_str(&format!("  {}{}\n", marks[k % marks.len()], l));
        }
    };
    o.push_str(&format!("2020-01-01 t{}", k));
    let rest = match place {
        1 if !lines.is_empty() => {
            o.push_str(&format!("  ; {}\n", lines[0]));
            &lines[1..]
        }
        _ => {
            o.push('\n');
            lines
        }
    };
    if place < 2 {
        t.c = c.clone();
        own(rest, o);
    }
    o.push_str("  a  GBP1");
    let rest = match place {
        3 if !lines.is_empty() => {
            o.push_str(&format!(" ;{}\n", lines[0]));
            &lines[1..]
        }
        _ => {
            o.push('\n');
            lines
        }
    };
    if place >= 2 {
        own(rest, o);
        let fps = p.c.flags.clone();
        p.c = c;
        p.c.flags.extend(fps);
    }
    o.push_str(&format!("  ; :fp-{}:\n\n", k));
    t.posts.push(p);
    t
}

pub const EMPTY_RULES: &str = "[Chain(\"start\", [])]";

fn rewrite(e: &mut Env, how: usize) -> (Out, String) {
    match how {
        0 => {
            e.sut.put("empty.ron", EMPTY_RULES);
            (e.sut.run(&["apply-rules", "-o", "out.journal", "in.journal", "table", "empty.ron"]), s("out.journal"))
        }
        1 => (e.sut.run(&["merge", "-o", "out.journal", "in.journal"]), s("out.journal")),
        _ => (e.sut.run(&["generate-fingerprints", "in.journal"]), s("in.journal")),
    }
}

const BATCH: usize = 40;

/// Characters beyond ASCII: of all planes, or those in use.
pub fn wide_chars(all: bool) -> Vec<char> {
    let ranges: &[(u32, u32)] = if all { &[(0x80, 0x10ffff)] } else { &[(0x80, 0xd7ff), (0xf900, 0xffff), (0x1f000, 0x1faff), (0xe0000, 0xe01ff)] };
    ranges.iter().flat_map(|(a, b)| (*a..=*b).filter_map(char::from_u32)).collect()
}

fn comment_batch(e: &mut Env, how: usize, first: usize, n: usize, gen: &dyn Fn(usize) -> (usize, Vec<String>)) -> R {
    comment_batch_of(e, how, first, (first + BATCH).min(n), gen)
}

fn comment_batch_of(e: &mut Env, how: usize, first: usize, end: usize, gen: &dyn Fn(usize) -> (usize, Vec<String>)) -> R {
    let mut text = String::new();
    let mut want = Vec::new();
    for i in first..end {
        let (place, lines) = gen(i);
        let c = Comment::of_raw(&lines);
        let ok = c.lines.iter().all(|l| plain_text(l)) && !lines.iter().any(|l| l.is_empty());
        e.case(ok && !c.is_empty(), &(how, place, &lines));
        if ok {
            let k = want.len();
            want.push((commented(k, place, &lines, &mut text), lines));
        }
    }
    e.sut.put("in.journal", &text);
    let (out, f) = rewrite(e, how);
    ensure!(out.ok(), "rejected", "{}\n{}", out.short(), text);
    let after = e.sut.get_str(&f).unwrap_or_default();
    let got = parse(&after).or_else(|x| fail("unreadable", format!("{}\n{}", x, after)))?;
    ensure!(got.len() == want.len(), "transactions lost", "{} instead of {} transactions\n{}", got.len(), want.len(), after);
    for ((w, lines), g) in want.iter().zip(&got) {
        let (a, b) = (tidy(w.c.clone()), tidy(g.c.clone()));
        ensure!(a == b, "comment of a transaction", "comment lines {:?} of a transaction became {:?}", lines, b);
        let (a, b) = (tidy(w.posts[0].c.clone()), tidy(g.posts[0].c.clone()));
        ensure!(a == b, "comment of a posting", "comment lines {:?} of a posting became {:?}", lines, b);
    }
    e.validated();
    e.sample(|| after.clone());
    // A fixed point.
    e.sut.put("in.journal", &after);
    let (out, f) = rewrite(e, how);
    ensure!(out.ok(), "output rejected", "{}\n{}", out.short(), after);
    let again = e.sut.get_str(&f).unwrap_or_default();
    if again != after {
        let k = after.lines().zip(again.lines()).position(|(a, b)| a != b).unwrap_or(0);
        return fail("not a fixed point", format!("processing the output again changed it at line {}: {:?} became {:?}", k + 1, after.lines().nth(k), again.lines().nth(k)));
    }
    Ok(())
}

fn comment_family(c: &Ctx, name: &str, n: usize, gen: impl Fn(usize) -> (usize, Vec<String>) + Sync) {
    let batches = n.div_ceil(BATCH);
    c.par(name, batches * 3, |e, i| {
        let mut g = Dig(i);
        comment_batch(e, g.take(3), g.0 * BATCH, n, &gen)
    });
}

pub fn c16(c: &Ctx) -> (&'static str, &'static str) {
    let tokens = [
        ":a:", ":b:c:", ":twelve-chars:", ":thirteen-char:", ":a-very-long-flag-tag-indeed:", "text", "two words", "key: v", "key:", "k:v", "k2:   spaced   value", ":", "::", ":é:", "ü", "12:30", ":x", "y:", "\"q\"", "key: 1:2 :z:",
    ];
    let nt = tokens.len();
    // A single line of up to three tokens (thorough: four), with or without spaces between.
    for len in 1..=if c.thorough { 4 } else { 3 } {
        let n = nt.pow(len) * 2usize.pow(len - 1) * 4;
        comment_family(c, ["", "lines of 1 token", "lines of 2 tokens", "lines of 3 tokens", "lines of 4 tokens"][len as usize], n, |i| {
            let mut g = Dig(i);
            let mut l = s(*g.of(&tokens));
            for _ in 1..len {
                l.push_str(["", " "][g.take(2)]);
                l.push_str(g.of(&tokens));
            }
            (g.take(4), vec![l])
        });
    }
    // Comments of up to three (thorough: four) lines.
    let mut lines = vec![
        ":a:", ":b:", ":a:b:", ":thirteen-char:", ":twelve-chars:", "text", "Text", "other text", "text :c: more", ":d: text", "key: v", "key: w", "key2: x: y", "key:", "at 12:30", "- dash", "a  b", "€ 5; or so", "#hash", "text : with : colons",
    ];
    if c.thorough {
        lines.extend([":a-very-long-flag-tag-indeed: text", "text :e:", "k: :flag:", "K: v"]);
    }
    let nl = lines.len();
    for len in 2..=if c.thorough { 4 } else { 3 } {
        comment_family(c, ["", "", "comments of 2 lines", "comments of 3 lines", "comments of 4 lines"][len as usize], nl.pow(len) * 4, |i| {
            let mut g = Dig(i);
            let v = (0..len).map(|_| s(*g.of(&lines))).collect();
            (g.take(4), v)
        });
    }
    // Punctuation next to text and tags.
    let pun: Vec<char> = (' '..='~').filter(|c| !c.is_ascii_alphanumeric()).chain(['x', '1', 'é', '£']).collect();
    comment_family(c, "punctuation", pun.len() * pun.len() * 10 * 4, |i| {
        let mut g = Dig(i);
        let (place, shape) = (g.take(4), g.take(10));
        let (a, b) = (*g.of(&pun), *g.of(&pun));
        let l = match shape {
            0 => format!("{a}{b}word"),
            1 => format!("word{a}{b}"),
            2 => format!("word{a}{b} :t:"),
            3 => format!(":t: {a}{b}word"),
            4 => format!(":t:{a}{b}word"),
            5 => format!("key: {a}v{b}"),
            6 => format!("{a}{b} key: v"),
            7 => format!("k{a}{b}y: v"),
            8 => format!("w {a}{b} :t: w"),
            _ => format!(":t{a}{b}: w{a}"),
        };
        (place, vec![l])
    });
    // Sizes: many lines, flags, value tags, and long ones.
    let sizes: Vec<usize> = (1..=70).chain([99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 1000]).collect();
    comment_family(c, "sizes", sizes.len() * 8 * 4, |i| {
        let mut g = Dig(i);
        let (n, kind, place) = (*g.of(&sizes), g.take(8), g.take(4));
        let lines = match kind {
            0 => (0..n).map(|k| format!(":f{}:", k)).collect(),
            1 => vec![format!(":{}", (0..n).map(|k| format!("f{}:", k)).collect::<String>())],
            2 => (0..n).map(|k| format!("line {}", k)).collect(),
            3 => (0..n).map(|k| format!("k{}: v{}", k, n - k)).collect(),
            4 => vec![format!(":{}:", "f".repeat(n))],
            5 => vec![s("first"), "x".repeat(n)],
            6 => vec![format!("{}: {}", "k".repeat(n), "v".repeat(n))],
            _ => vec![format!(":{}:a:", "é".repeat(n)), s("text")],
        };
        (place, lines)
    });
    // Pairs of tags that are nearly the same.
    let mut near: Vec<String> = Vec::new();
    for base in ["tag", "twelve-chars", "thirteen-char", "a-very-long-flag-tag-indeed", "é", "fq-one", "0"] {
        near.extend([
            s(base), base.to_uppercase(), base.chars().take(1).flat_map(char::to_uppercase).chain(base.chars().skip(1)).collect(), format!("{}s", base), format!("x{}", base), format!("{}-", base), format!("-{}", base), format!("{}_", base), base.replace('-', "_"),
            base.replace('-', ""), format!("{}{}", base, base), base.chars().rev().collect(), format!("{}\u{301}", base), format!("{}.", base), format!("#{}", base), format!("{}=1", base), format!("{},{}", base, base), base.chars().skip(1).collect(),
        ].into_iter().filter(|x: &String| !x.is_empty()));
    }
    near.sort();
    near.dedup();
    let nn = near.len();
    comment_family(c, "pairs of tags", nn * nn * 6 * if c.thorough { 4 } else { 1 }, |i| {
        let mut g = Dig(i);
        let (a, b, shape) = (g.of(&near).clone(), g.of(&near).clone(), g.take(6));
        let place = if c.thorough { g.take(4) } else { i % 4 };
        let l = match shape {
            0 => vec![format!(":{}:{}:", a, b)],
            1 => vec![format!(":{}:", a), format!(":{}:", b)],
            2 => vec![format!("{}: v", a), format!("{}: w", b)],
            3 => vec![format!(":{}:", a), format!("{}: {}", a, b), format!("{}: {}", b, a)],
            4 => vec![format!("text {}", a), format!("text {}", b)],
            _ => vec![format!("k: {}", a), format!(":{}: some {}", b, a)],
        };
        (place, l)
    });
    // Every character beyond ASCII, in a flag tag, a text and a value tag.
    let all = wide_chars(c.thorough);
    let batch = 200;
    c.par("every character", all.len().div_ceil(batch) * 3, |e, i| {
        let mut g = Dig(i);
        let how = g.take(3);
        comment_batch_of(e, how, g.0 * batch, (g.0 * batch + batch).min(all.len()), &|k| {
            let x = all[k];
            let mut l = vec![format!(":f{x}g:"), format!("t{x}u"), format!("k{x}l: v{x}w")];
            if !x.is_whitespace() {
                l.extend([format!(":{x}:"), format!("{x} {x}"), format!("{x}: {x}")]);
            }
            (k % 4, l)
        })
    });
    c.par("every character in a head and an account", all.len().div_ceil(batch) * 3, |e, i| {
        let mut g = Dig(i);
        let how = g.take(3);
        let part = &all[g.0 * batch..(g.0 * batch + batch).min(all.len())];
        let want: Vec<Trn> = part
            .iter()
            .enumerate()
            .map(|(k, x)| {
                let edge = !x.is_whitespace();
                let mut p = Post { acct: if edge && k % 2 == 0 { format!("{x}:a{x}") } else { format!("a{x}b") }, amt: Some(pamt("GBP1")), ..Post::default() };
                p.c.flags.insert(format!("fp-{}", k));
                Trn { date: s("2020-01-01"), code: Some(format!("c{x}d")), desc: if edge && k % 3 == 0 { s(x.encode_utf8(&mut [0; 4])) } else { format!("d{x}e {x} f") }, posts: vec![p], ..Trn::default() }
            })
            .collect();
        let text = render(&want);
        e.case(true, &(how, &text));
        e.sut.put("in.journal", &text);
        let (out, f) = rewrite(e, how);
        ensure!(out.ok(), "rejected", "{}\n{}", out.short(), text);
        let after = e.sut.get_str(&f).unwrap_or_default();
        let got = parse(&after).or_else(|x| fail("unreadable", format!("{}\n{}", x, after)))?;
        let d = want.iter().zip(&got).find(|(w, g)| w != g);
        ensure!(got.len() == want.len() && d.is_none(), "content changed", "{} transactions became {}; {:?}", want.len(), got.len(), d);
        e.validated();
        Ok(())
    });
    c.assume("text lines that themselves read as tags, alone or behind a flag tag, are left out");
    ("exploration", "every case is one comment at one place, processed by one of three commands and read back; distinct by command, place and lines")
}

// ---------------------------------------------------------------------------------------------
// Formatting.

/// A journal as a flat sequence of what its lines say.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Flat {
    Blank,
    Comment(String),
    Price(String),
    Include(String),
    Head(Trn),
    Post(Post),
}

/// Reads canonical output.
fn flat(text: &str) -> Result<Vec<Flat>, String> {
    let mut out = Vec::new();
    let body = text.strip_suffix('\n').map(|t| t.split('\n').collect::<Vec<_>>()).unwrap_or_else(|| if text.is_empty() { vec![] } else { text.split('\n').collect() });
    for line in body {
        let t = line.trim();
        let indented = line.starts_with([' ', '\t']);
        if t.is_empty() {
            out.push(Flat::Blank);
        } else if let Some(c) = t.strip_prefix(';') {
            out.push(Flat::Comment(c.trim().into()));
        } else if let Some(c) = line.strip_prefix("include ") {
            out.push(Flat::Include(c.trim().into()));
        } else if let Some(c) = line.strip_prefix("P ") {
            out.push(Flat::Price(c.trim().into()));
        } else if indented {
            let t = parse(&format!("2000-01-01 x\n{}\n", line))?;
            match t.as_slice() {
                [t] if t.posts.len() == 1 && t.posts[0].c == Comment::default() => out.push(Flat::Post(t.posts[0].clone())),
                _ => return Err(format!("not one posting: {:?}", line)),
            }
        } else {
            let t = parse(&format!("{}\n", line))?;
            match t.as_slice() {
                [t] if t.c == Comment::default() => out.push(Flat::Head(t.clone())),
                _ => return Err(format!("not one transaction: {:?}", line)),
            }
        }
    }
    Ok(out)
}

fn flat_difference(w: &[Flat], g: &[Flat]) -> String {
    for k in 0..w.len().max(g.len()) {
        if w.get(k) != g.get(k) {
            return format!("line {}: {:?} instead of {:?}", k + 1, g.get(k), w.get(k));
        }
    }
    s("equal")
}

/// Formats a file and compares; then formats it again.
fn fmt_case(e: &mut Env, text: &str, want: &[Flat]) -> R {
    e.sut.put("a.journal", text);
    let out = e.sut.run(&["fmt", "a.journal"]);
    ensure!(out.ok(), "rejected", "{}\n{}", out.short(), text);
    let after = e.sut.get_str("a.journal").unwrap_or_default();
    let got = flat(&after).or_else(|x| fail("unreadable", format!("{}\nformatted from\n{}to\n{}", x, text, after)))?;
    ensure!(got == want, "content changed", "{}\nformatted from\n{}to\n{}", flat_difference(want, &got), text, after);
    e.validated();
    e.sample(|| text.to_string());
    let out = e.sut.run(&["fmt", "a.journal"]);
    ensure!(out.ok(), "output rejected", "{}\n{}", out.short(), after);
    let again = e.sut.get_str("a.journal").unwrap_or_default();
    ensure!(again == after, "not idempotent", "formatted again from\n{}to\n{}", after, again);
    Ok(())
}

/// How postings are laid out.
#[derive(Clone, Copy, Debug)]
struct Layout {
    indent: &'static str,
    sep: &'static str,
    bal: &'static str,
    end: &'static str,
    eol: &'static str,
}

const LAYOUTS: [Layout; 6] = [
    Layout { indent: "  ", sep: "  ", bal: " = ", end: "", eol: "\n" },
    Layout { indent: "    ", sep: "          ", bal: "  =  ", end: "   ", eol: "\n" },
    Layout { indent: "\t", sep: "\t", bal: "=", end: "\t", eol: "\n" },
    Layout { indent: " ", sep: "  ", bal: "= ", end: "", eol: "\r\n" },
    Layout { indent: "\t  ", sep: " \t ", bal: "\t=\t", end: "  ", eol: "\r\n" },
    Layout { indent: "   ", sep: "   ", bal: " =", end: " ", eol: "\n" },
];

/// Amounts as they can be written, and canonically.
const NOTATIONS: &[(&str, &str)] = &[
    ("", ""),
    ("GBP10.00", "GBP10.00"),
    ("GBP 10.00", "GBP10.00"),
    ("GBP   10", "GBP10"),
    ("-GBP10.00", "GBP-10.00"),
    ("- GBP10.00", "GBP-10.00"),
    ("GBP-10.00", "GBP-10.00"),
    ("GBP -10.00", "GBP-10.00"),
    ("10.00 GBP", "10.00 GBP"),
    ("10.00GBP", "10.00 GBP"),
    ("-10.00   GBP", "-10.00 GBP"),
    ("GBP1,000", "GBP1000"),
    ("GBP1,234,567.89", "GBP1234567.89"),
    ("-1,234.5 kg", "-1234.5 kg"),
    ("£5", "£5"),
    ("£ -5.50", "£-5.50"),
    ("5 €", "5 €"),
    ("GBP.5", "GBP0.5"),
    ("GBP-.5", "GBP-0.5"),
    ("GBP0", "GBP0"),
    ("GBP0.00", "GBP0.00"),
    ("GBP00012.50", "GBP12.50"),
    ("GBP123456789012345678.12345678", "GBP123456789012345678.12345678"),
    ("GBP79228162514264337593543950335", "GBP79228162514264337593543950335"),
    ("GBP0.0000000000000000000000000001", "GBP0.0000000000000000000000000001"),
    ("kWh:x_y<z>|1", "kWh:x_y<z>|1"),
    ("1 k", "1 k"),
];

const LOTS: &[(&str, &str)] = &[("", ""), ("{USD2}", "{USD2}"), ("{ USD 2.50 }", "{USD2.50}"), ("{{USD20}}", "{{USD20}}"), ("{{ 20 USD }}", "{{20 USD}}"), ("{-USD3}", "{USD-3}")];
const PRICES: &[(&str, &str)] = &[("", ""), ("@ USD2", "@ USD2"), ("@USD 2.50", "@ USD2.50"), ("@@ USD20", "@@ USD20"), ("@@20 USD", "@@ 20 USD"), ("@ -USD3", "@ USD-3")];
const BALANCES: &[(&str, &str)] = &[("", ""), ("0", "0"), ("GBP5.00", "GBP5.00"), ("-5 GBP", "-5 GBP"), ("GBP 1,000", "GBP1000"), ("GBP0", "GBP0")];
const ACCTS: &[&str] = &["a", "assets:current account:x", "Ausgaben:Bücher", "a(b)", "1 2", "[x", "a-b_c/d.e"];

struct PSpec {
    st: St,
    kind: Kind,
    acct: &'static str,
    amt: usize,
    lot: usize,
    price: usize,
    bal: usize,
    /// 0: none, 1: inline, 2: own line, 3: inline and two own lines.
    comment: usize,
}

fn put_comments(kind: usize, lay: Layout, gap: &str, o: &mut String, w: &mut Vec<Flat>) {
    match kind {
        0 => o.push_str(&format!("{}{}", lay.end, lay.eol)),
        1 => {
            o.push_str(&format!("{}; in line :x:y: {}{}", gap, lay.end, lay.eol));
            w.push(Flat::Comment(s("in line :x:y:")));
        }
        2 => {
            o.push_str(&format!("{}{}{}; key: value, of a posting{}{}", lay.end, lay.eol, lay.indent, lay.end, lay.eol));
            w.push(Flat::Comment(s("key: value, of a posting")));
        }
        _ => {
            o.push_str(&format!("{};first: 1{}{};:b: second :a:{}{}; :z: ; third{}{}", gap, lay.eol, lay.indent, lay.eol, lay.indent, lay.end, lay.eol));
            w.extend([Flat::Comment(s("first: 1")), Flat::Comment(s(":b: second :a:")), Flat::Comment(s(":z: ; third"))]);
        }
    }
}

fn put_post(p: &PSpec, lay: Layout, o: &mut String, w: &mut Vec<Flat>) {
    o.push_str(lay.indent);
    o.push_str(match (p.st, lay.sep.len() % 2) {
        (St::None, _) => "",
        (St::Pend, 0) => "! ",
        (St::Pend, _) => "!",
        (St::Clr, 0) => "* ",
        (St::Clr, _) => "*",
    });
    o.push_str(&match p.kind {
        Kind::Real => s(p.acct),
        Kind::Bal => format!("[{}]", p.acct),
        Kind::Unbal => format!("({})", p.acct),
    });
    let mut x = Post { st: p.st, kind: p.kind, acct: s(p.acct), ..Post::default() };
    let (a, b) = (NOTATIONS[p.amt], BALANCES[p.bal]);
    if !a.0.is_empty() || !b.0.is_empty() || p.comment % 2 == 1 {
        o.push_str(lay.sep);
    }
    if !a.0.is_empty() {
        let (l, r) = (LOTS[p.lot], PRICES[p.price]);
        o.push_str(&[a.0, l.0, r.0].iter().filter(|x| !x.is_empty()).copied().collect::<Vec<_>>().join(if lay.sep.contains('\t') { "\t" } else { " " }));
        x.amt = Some(pamt(&format!("{} {} {}", a.1, l.1, r.1)));
    }
    if !b.0.is_empty() {
        o.push_str(lay.bal);
        o.push_str(b.0);
        x.bal = Some(if b.1 == "0" { Bal::Zero } else { Bal::Amt(amt(b.1)) });
    }
    w.push(Flat::Post(x));
    put_comments(p.comment, lay, lay.sep, o, w);
}

const STS: [St; 3] = [St::None, St::Pend, St::Clr];
const KINDS: [Kind; 3] = [Kind::Real, Kind::Bal, Kind::Unbal];

fn fmt_batch(c: &Ctx, name: &str, n: usize, gen: impl Fn(usize, &mut String, &mut Vec<Flat>) + Sync) {
    c.par(name, n.div_ceil(BATCH), |e, i| {
        let (mut text, mut want) = (String::new(), Vec::new());
        for k in i * BATCH..((i + 1) * BATCH).min(n) {
            let p = text.len();
            gen(k, &mut text, &mut want);
            e.case(true, &text[p..]);
        }
        fmt_case(e, &text, &want)
    });
}

/// Things a journal can consist of: text, and what it says.
pub fn fmt_items() -> Vec<(&'static str, Vec<Flat>)> {
    let head = |d: &str, e: Option<&str>, st: St, code: Option<&str>, desc: &str| {
        Flat::Head(Trn { date: s(d), edate: e.map(s), st, code: code.map(s), desc: s(desc), ..Trn::default() })
    };
    let po = |acct: &str, a: &str| Flat::Post(Post { acct: s(acct), amt: (!a.is_empty()).then(|| pamt(a)), ..Post::default() });
    let com = |t: &str| Flat::Comment(s(t));
    let cleared = |acct: &str, st: St| Flat::Post(Post { st, acct: s(acct), ..Post::default() });
    vec![
        ("\n", vec![Flat::Blank]),
        ("2020-01-01 one\n  a  GBP1\n", vec![head("2020-01-01", None, St::None, None, "one"), po("a", "GBP1")]),
        (
            "2019/12/31=2020/01/02 * (7) two\n    ; about it\n    a  GBP1  ; x\n    b\n    ; y\n",
            vec![head("2019-12-31", Some("2020-01-02"), St::Clr, Some("7"), "two"), com("about it"), po("a", "GBP1"), com("x"), po("b", ""), com("y")],
        ),
        ("2020-01-01 ! three\n  * a\n  ! b\n  c\n", vec![head("2020-01-01", None, St::Pend, None, "three"), cleared("a", St::Clr), cleared("b", St::Pend), cleared("c", St::None)]),
        ("; a comment\n", vec![com("a comment")]),
        ("* heading\n", vec![com("heading")]),
        ("P 2020-01-01 12:30:00 GBP USD1.25\n", vec![Flat::Price(s("2020-01-01 12:30:00 GBP USD1.25"))]),
        ("include  some other.journal\n", vec![Flat::Include(s("some other.journal"))]),
        ("   \n", vec![Flat::Blank]),
        ("#no space\n", vec![com("no space")]),
        ("%  :tag: key: value  \n", vec![com(":tag: key: value")]),
        ("|\n", vec![com("")]),
        ("P 2020/01/01 00:00:00  EUR 1,000.5 USD\n", vec![Flat::Price(s("2020-01-01 00:00:00 EUR 1000.5 USD"))]),
    ]
}

pub fn c17(c: &Ctx) -> (&'static str, &'static str) {
    let t = c.thorough;
    // Postings: all combinations of everything a posting has.
    let (na, nl, np, nb, nacc) = if t { (12, LOTS.len(), PRICES.len(), BALANCES.len(), 4) } else { (6, 3, 3, 4, 2) };
    let lays = if t { LAYOUTS.len() } else { 3 };
    fmt_batch(c, "postings", 3 * 3 * nacc * na * nl * np * nb * 4 * lays, |i, o, w| {
        let mut g = Dig(i);
        let p = PSpec { st: STS[g.take(3)], kind: KINDS[g.take(3)], acct: ACCTS[g.take(nacc)], amt: g.take(na), lot: g.take(nl), price: g.take(np), bal: g.take(nb), comment: g.take(4) };
        let lay = LAYOUTS[g.take(lays)];
        o.push_str(&format!("2020-01-01 x{}", lay.eol));
        w.push(Flat::Head(Trn { date: s("2020-01-01"), desc: s("x"), ..Trn::default() }));
        put_post(&p, lay, o, w);
    });
    // All notations of amounts.
    fmt_batch(c, "amounts", NOTATIONS.len() * LOTS.len() * PRICES.len() * BALANCES.len() * 2, |i, o, w| {
        let mut g = Dig(i);
        let p = PSpec { st: St::None, kind: Kind::Real, acct: "a b", amt: g.take(NOTATIONS.len()), lot: g.take(LOTS.len()), price: g.take(PRICES.len()), bal: g.take(BALANCES.len()), comment: g.take(2) * 3 };
        o.push_str("2020-01-01 x\n");
        w.push(Flat::Head(Trn { date: s("2020-01-01"), desc: s("x"), ..Trn::default() }));
        put_post(&p, LAYOUTS[i % LAYOUTS.len()], o, w);
    });
    // Heads.
    let dates = [("2020-01-01", "2020-01-01"), ("2020/02/29", "2020-02-29"), ("1999.12.31", "1999-12-31"), ("0001-01-01", "0001-01-01"), ("9999-12-31", "9999-12-31"), ("2020-1/01", "")];
    let dates = &dates[..5];
    let codes = [None, Some("1"), Some("a b"), Some("=*!;"), Some("é")];
    let descs = ["x", "two words", "a  b", "semi;colon", "semi ; colon", "x(", "ünï €", "1.50", "a\tb", "x (y) *", "= 5", "#1", "P", "include x", "2020-01-01 y"];
    fmt_batch(c, "heads", dates.len() * (dates.len() + 1) * 3 * codes.len() * descs.len() * 4 * 3, |i, o, w| {
        let mut g = Dig(i);
        let (d, e) = (*g.of(dates), g.take(dates.len() + 1));
        let (st, code, desc, com, lay) = (STS[g.take(3)], *g.of(&codes), *g.of(&descs), g.take(4), LAYOUTS[[0, 1, 3][g.take(3)]]);
        o.push_str(d.0);
        if e > 0 {
            o.push_str(&format!("={}", dates[e - 1].0));
        }
        let gap = if i % 7 == 3 { "   " } else { " " };
        // Behind such descriptions, a comment in the same line is part of the description.
        let com = if desc.contains("  ") || desc.contains('\t') { com / 2 * 2 } else { com };
        o.push_str(match st {
            St::None => "",
            St::Pend => " !",
            St::Clr => " *",
        });
        if let Some(x) = code {
            o.push_str(&format!("{}({})", gap, x));
        }
        o.push_str(&format!("{}{}", gap, desc));
        w.push(Flat::Head(Trn { date: s(d.1), edate: (e > 0).then(|| s(dates[e - 1].1)), st, code: code.map(s), desc: s(desc), ..Trn::default() }));
        let mut l = lay;
        // White space at the end belongs to the description.
        l.end = "";
        put_comments(com, l, "  ", o, w);
        put_post(&PSpec { st: St::None, kind: Kind::Real, acct: "a", amt: 1, lot: 0, price: 0, bal: 0, comment: 0 }, lay, o, w);
    });
    // Sequences of items.
    let items = fmt_items();
    let (n, len) = if t { (items.len(), 5) } else { (8, 5) };
    for k in 0..=len {
        c.par(["empty file", "one item", "two items", "three items", "four items", "five items"][k], if k < 4 { items.len().pow(k as u32) } else { n.pow(k as u32) } * 2, |e, i| {
            let n = if k < 4 { items.len() } else { n };
            let mut g = Dig(i);
            let crlf = g.take(2) == 1;
            let (mut text, mut want) = (String::new(), Vec::new());
            for _ in 0..k {
                let (a, b) = &items[g.take(n)];
                text.push_str(a);
                want.extend(b.clone());
            }
            if crlf {
                text = text.replace('\n', "\r\n");
            }
            e.case(k > 0, &text);
            fmt_case(e, &text, &want)
        });
    }
    // Sizes.
    c.par("sizes", 9 * 6, |e, i| {
        let mut g = Dig(i);
        let n = [1, 10, 100, 255, 256, 257, 1000, 3000, 10000][g.take(9)];
        let (mut text, mut want) = (String::new(), Vec::new());
        match g.take(6) {
            k @ 0..=2 => {
                let (a, b) = &items[[2, 4, 0][k]];
                for _ in 0..n {
                    text.push_str(a);
                    text.push('\n');
                    want.extend(b.clone());
                    want.push(Flat::Blank);
                }
            }
            3 => {
                text.push_str("2020-01-01 x\n");
                want.push(Flat::Head(Trn { date: s("2020-01-01"), desc: s("x"), ..Trn::default() }));
                for k in 0..n {
                    text.push_str(&format!("  * a{}  GBP{}\n", k, k));
                    want.push(Flat::Post(Post { st: St::Clr, acct: format!("a{}", k), amt: Some(pamt(&format!("GBP{}", k))), ..Post::default() }));
                }
            }
            4 => {
                text.push_str("2020-01-01 x\n  a\n");
                want.push(Flat::Head(Trn { date: s("2020-01-01"), desc: s("x"), ..Trn::default() }));
                want.push(Flat::Post(Post { acct: s("a"), ..Post::default() }));
                for k in 0..n {
                    text.push_str(&format!("  ; line {}\n", k));
                    want.push(Flat::Comment(format!("line {}", k)));
                }
            }
            _ => {
                let (d, a) = ("d".repeat(n), "a".repeat(n));
                text = format!("2020-01-01 {}\n  {}  GBP1\n", d, a);
                want.push(Flat::Head(Trn { date: s("2020-01-01"), desc: d, ..Trn::default() }));
                want.push(Flat::Post(Post { acct: a, amt: Some(pamt("GBP1")), ..Post::default() }));
            }
        }
        e.case(true, &text);
        fmt_case(e, &text, &want)
    });
    // Every character beyond ASCII, everywhere.
    let all = wide_chars(t);
    let batch = 100;
    c.par("every character", all.len().div_ceil(batch), |e, i| {
        let (mut text, mut want) = (String::new(), Vec::new());
        for (k, x) in all[i * batch..((i + 1) * batch).min(all.len())].iter().enumerate() {
            let edge = !x.is_whitespace();
            let p = text.len();
            let (code, desc, acct) = if edge && k % 2 == 0 { (format!("{x}"), format!("{x}"), format!("{x}:{x}")) } else { (format!("c{x}d"), format!("d{x}e {x} f"), format!("a{x}b")) };
            let (note, note2) = if edge { (format!("{x}"), format!("{x}: {x}")) } else { (format!("t{x}u"), format!("k{x}: v{x}w")) };
            let unit = format!("\"c{x}d\"");
            text.push_str(&format!("; t{x}u :f{x}:\n2020-01-01 ({code}) {desc}\n  ; {note}\n  {acct}  GBP1  ; {note2}\n  (b)  {unit} 1 @ 2 {unit}\n"));
            e.case(true, &text[p..]);
            want.extend([
                Flat::Comment(format!("t{x}u :f{x}:")),
                Flat::Head(Trn { date: s("2020-01-01"), code: Some(code), desc, ..Trn::default() }),
                Flat::Comment(note),
                Flat::Post(Post { acct, amt: Some(pamt("GBP1")), ..Post::default() }),
                Flat::Comment(note2),
                Flat::Post(Post { acct: s("b"), kind: Kind::Unbal, amt: Some(pamt(&format!("{unit} 1 @ 2 {unit}"))), ..Post::default() }),
            ]);
        }
        fmt_case(e, &text, &want)
    });
    // Several files, some of them broken.
    let good = "2020/01/01   x\n    a    GBP 1\n";
    let done = "2020-01-01 x\n  a  GBP1\n";
    let broken = [
        "garbage\n", "2020-13-01 x\n  a  GBP1\n", "2020-01-01 x\n  a  GBP1 2\n", "2020-01-01 x\n\n", "2020-01-01 x\n  a  GBP1\n\naccount foo\n", "2020/01/01   x\n    a    GBP 1\n\n2020-02-30 y\n  a\n", "2020-01-01 x\n  a  GBP1\n= 5\n", "2020-01-01\n  a  1\n",
    ];
    let kinds = 2 + broken.len() + 3;
    for nf in 1..=3u32 {
        c.par(["", "one file", "two files", "three files"][nf as usize], kinds.pow(nf), |e, i| {
            let mut g = Dig(i);
            let ks: Vec<usize> = (0..nf).map(|_| g.take(kinds)).collect();
            let mut args = vec![s("fmt")];
            let mut before: Vec<(String, Option<Vec<u8>>)> = Vec::new();
            for (j, k) in ks.iter().enumerate() {
                let f = format!("f{}.journal", j);
                let content: Option<Vec<u8>> = match *k {
                    0 => Some(good.into()),
                    1 => Some(done.into()),
                    k if k < 2 + broken.len() => Some(broken[k - 2].into()),
                    k if k == 2 + broken.len() => None,
                    k if k == 3 + broken.len() => Some(b"2020-01-01 \xff\n  a  GBP1\n".to_vec()),
                    _ => Some(vec![]),
                };
                if let Some(x) = &content {
                    e.sut.put(&f, x);
                }
                args.push(f.clone());
                before.push((f, content));
            }
            e.case(true, &ks);
            let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
            let out = e.sut.run(&a);
            let mut bad = false;
            for (k, (f, b)) in ks.iter().zip(&before) {
                let now = e.sut.get(f);
                let is_bad = !(*k < 2 || *k == kinds - 1);
                let want = if bad || is_bad { b.clone() } else if *k == kinds - 1 { Some(vec![]) } else { Some(done.into()) };
                bad |= is_bad;
                ensure!(now == want, "wrong file content", "fmt of {:?}: file {} is now {:?}, before {:?}; {}", before.iter().map(|x| x.1.as_ref().map(|y| String::from_utf8_lossy(y).into_owned())).collect::<Vec<_>>(), f, now.map(|x| String::from_utf8_lossy(&x).into_owned()), b.as_ref().map(|x| String::from_utf8_lossy(x).into_owned()), out.short());
            }
            ensure!(out.failed() == bad && out.ok() != bad, "wrong status", "fmt of {:?}: {}", ks, out.short());
            Ok(())
        });
    }
    // Several files with names that are alike.
    let names = file_groups();
    c.par("names alike", names.len() * 12 * 2, |e, i| {
        let mut g = Dig(i);
        let (n, pair, three) = (g.of(&names), g.take(12), g.take(2) == 1);
        let (x, y) = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)][pair % 6];
        let mut fs = if pair < 6 { vec![&n[x], &n[y]] } else { vec![&n[y], &n[x]] };
        if three {
            fs.extend((0..4).find(|z| *z != x && *z != y).map(|z| &n[z]));
        }
        for (k, f) in fs.iter().enumerate() {
            e.sut.put(f, format!("2020/01/01   x{}\n    a    GBP 1\n", k));
        }
        let mut a = vec![s("fmt")];
        a.extend(fs.iter().map(|f| if f.starts_with('-') { format!("./{}", f) } else { f.to_string() }));
        let out = e.sut.run(&a.iter().map(|x| x.as_str()).collect::<Vec<_>>());
        e.case(true, &a);
        ensure!(out.ok(), "rejected", "{:?}: {}", a, out.short());
        for (k, f) in fs.iter().enumerate() {
            // A file that is given twice has what was put there last.
            let k = fs.iter().rposition(|x| x == f).unwrap_or(k);
            let now = e.sut.get_str(f);
            ensure!(now == Some(format!("2020-01-01 x{}\n  a  GBP1\n", k)), "wrong file content", "{:?}: file {} is now {:?}", a, f, now);
        }
        Ok(())
    });
    // Standard input to standard output.
    c.par("standard input", items.len() * 2 + broken.len(), |e, i| {
        let (text, want) = if i < items.len() * 2 {
            let (a, b) = &items[i / 2];
            (if i % 2 == 1 { a.repeat(3000) } else { s(a) }, Some(if i % 2 == 1 { std::iter::repeat_n(b.clone(), 3000).flatten().collect() } else { b.clone() }))
        } else {
            (s(broken[i - items.len() * 2]), None)
        };
        let p = e.sut.plain(&["fmt", "-"], Some(text.as_bytes()), &[]);
        e.case(true, &text);
        match want {
            Some(w) => {
                ensure!(p.out.ok(), "rejected", "{}\n{}", p.out.short(), text);
                let g = flat(&String::from_utf8_lossy(&p.stdout)).or_else(|x| fail("unreadable", x))?;
                ensure!(g == w, "content changed", "{}", flat_difference(&w, &g));
            }
            None => {
                ensure!(p.out.failed(), "accepted", "{}\n{}", p.out.short(), text);
                ensure!(p.stdout.is_empty(), "output of a rejected journal", "{}", text);
            }
        }
        Ok(())
    });
    fmt_quoted(c);
    ("exploration", "every case is one journal, laid out in one way, formatted and read back, and formatted again; distinct by text")
}

/// Formatting journals with commodity names in quotes.
fn fmt_quoted(c: &Ctx) {
    let q = ["\"A 1\"", "\"A-1\"", "\"1\"", "\"€ \"", "\"a\\\"b\"", "\"a;b\"", "\"(a\"", "\"=\"", "\"@\"", "\"GBP\""];
    c.par("quoted commodities", q.len() * q.len() * 6 * 4, |e, i| {
        let mut g = Dig(i);
        let (q, r, k, o) = (*g.of(&q), *g.of(&q), g.take(6), g.take(4));
        let am = |q: &str, left: bool| if left { format!("{}5", q) } else { format!("5 {}", q) };
        let (x, y) = (am(q, o & 1 == 0), am(r, o & 2 == 0));
        let item = [
            format!("2020-01-01 x\n  a  {}\n  b  {}\n", x, y),
            format!("2020-01-01 x\n  a  {} @ {}\n", x, y),
            format!("2020-01-01 x\n  a  {} @@ {}\n", x, y),
            format!("2020-01-01 x\n  a  {} {{{}}}\n", x, y),
            format!("2020-01-01 x\n  a  {} = {}\n", x, y),
            format!("P 2020-01-01 00:00:00 {} {}\n", q, y),
        ][k]
        .clone();
        e.sut.put("a.journal", &item);
        e.case(true, &item);
        let out = e.sut.run(&["fmt", "a.journal"]);
        ensure!(out.ok(), "rejected", "{}\n{}", out.short(), item);
        let after = e.sut.get_str("a.journal").unwrap_or_default();
        // Quotes that are not needed may go.
        let norm = |x: &str| x.replace("\"GBP\"", "GBP").trim_end().to_string();
        ensure!(norm(&after) == norm(&item), "commodity changed", "formatting {:?} gave {:?}", item, after);
        e.sut.put("a.journal", &after);
        let out = e.sut.run(&["fmt", "a.journal"]);
        ensure!(out.ok() && e.sut.get_str("a.journal").unwrap_or_default() == after, "not idempotent", "{}\n{:?}", out.short(), after);
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------------
// Generated fingerprints.

/// Groups of four file names that are alike.
pub fn file_groups() -> Vec<Vec<String>> {
    let mut v = super::merging::alike();
    v.retain(|g| g.iter().all(|x| !x.starts_with('/') && !x.ends_with('/') && x.len() < 250));
    v
}

/// Runs generate-fingerprints on files and judges the result; gives the generated fingerprints.
fn genfp_case(e: &mut Env, files: &[Vec<Trn>], plain: bool) -> Result<Vec<String>, Fail> {
    let files: Vec<(String, Vec<Trn>)> = files.iter().enumerate().map(|(k, f)| (format!("g{}.journal", k), f.clone())).collect();
    genfp_files(e, &files, plain)
}

fn genfp_files(e: &mut Env, named: &[(String, Vec<Trn>)], plain: bool) -> Result<Vec<String>, Fail> {
    let names: Vec<String> = named.iter().map(|x| if x.0.starts_with('-') { format!("./{}", x.0) } else { x.0.clone() }).collect();
    let files: Vec<&Vec<Trn>> = named.iter().map(|x| &x.1).collect();
    for (n, f) in names.iter().zip(&files) {
        e.sut.put(n, render(f));
    }
    let mut a = vec!["generate-fingerprints"];
    a.extend(names.iter().map(|x| x.as_str()));
    let out = if plain { e.sut.plain(&a, None, &[]).out } else { e.sut.run(&a) };
    let show = || files.iter().map(|f| render(f)).collect::<Vec<_>>().join("--- next file\n");
    ensure!(out.ok(), "rejected", "{}\n{}", out.short(), show());
    let mut new = Vec::new();
    let mut texts = Vec::new();
    for (n, f) in names.iter().zip(files.iter().copied()) {
        let text = e.sut.get_str(n).unwrap_or_default();
        let got = parse(&text).or_else(|x| fail("unreadable", format!("{}\n{}", x, text)))?;
        ensure!(got.len() == f.len(), "transactions lost", "{} instead of {} transactions\n{}", got.len(), f.len(), text);
        let mut used = std::collections::BTreeSet::new();
        for (w, g) in f.iter().zip(&got) {
            let mut g = g.clone();
            ensure!(g.posts.len() == w.posts.len(), "postings lost", "{} instead of {} postings\n{}", g.posts.len(), w.posts.len(), text);
            for (wp, gp) in w.posts.iter().zip(&mut g.posts) {
                let had = wp.fps();
                let extra: Vec<String> = gp.fps().difference(&had).cloned().collect();
                if had.is_empty() {
                    ensure!(extra.len() == 1, "not one fingerprint", "a posting without fingerprint got {:?}\n{}", extra, text);
                    let x = &extra[0];
                    ensure!(x.len() > 3 && used.insert(x.clone()), "fingerprint used twice", "{:?}\n{}", x, text);
                    gp.c.flags.remove(x);
                    new.push(x.clone());
                } else {
                    ensure!(extra.is_empty(), "fingerprint added", "a posting that has {:?} got {:?}\n{}", had, extra, text);
                    used.extend(had);
                }
            }
            ensure!(&g == w, "something else changed", "{}instead of\n{}", render(std::slice::from_ref(&g)), render(std::slice::from_ref(w)));
        }
        texts.push(text);
    }
    e.validated();
    e.sample(|| texts.concat());
    // Again: nothing changes.
    let out = e.sut.run(&a);
    ensure!(out.ok(), "output rejected", "{}\n{}", out.short(), texts.concat());
    for (n, t) in names.iter().zip(&texts) {
        let again = e.sut.get_str(n).unwrap_or_default();
        ensure!(&again == t, "not stable", "a second run changed\n{}to\n{}", t, again);
    }
    // The result can be merged, unless there are candidates left.
    for (n, _) in names.iter().zip(files.iter()).filter(|(_, f)| !f.iter().flat_map(|t| &t.posts).any(|p| p.c.flags.iter().any(|x| x.starts_with("candidate-")))) {
        let out = e.sut.run(&["merge", "-o", "m.journal", n]);
        ensure!(out.ok(), "cannot be merged", "{}\n{}", out.short(), texts.concat());
    }
    Ok(new)
}

pub fn c18(c: &Ctx) -> (&'static str, &'static str) {
    let all: std::sync::Mutex<std::collections::HashSet<String>> = Default::default();
    let keep = |new: Vec<String>| -> R {
        let mut a = all.lock().unwrap();
        for x in new {
            ensure!(a.insert(x.clone()), "generated twice", "the fingerprint {} was generated in two runs or for two postings", x);
        }
        Ok(())
    };
    // What a posting can have.
    let tagged = |k: usize, id: usize| -> Post {
        let mut p = Post { acct: s("a"), amt: Some(pamt("GBP1.50")), ..Post::default() };
        let c = &mut p.c;
        match k {
            0 => {}
            1 => *c = c.clone().flag(&format!("fp-{}", id)),
            2 => *c = c.clone().flag("fp").flag("x"),
            3 => *c = c.clone().val("fp-v", "x").line("fp-text"),
            4 => *c = c.clone().flag(&format!("FP-{}", id)).flag(&format!("xfp-{}", id)),
            5 => *c = c.clone().flag(&format!("fp-a{}", id)).flag(&format!("fp-b{}", id)).flag("a"),
            6 => *c = c.clone().flag("candidate_fp-x"),
            7 => *c = c.clone().flag(&format!("candidate-fp-{}", id)).flag("candidate-fp-x"),
            _ => *c = c.clone().flag(&format!("fp-uuidb64-{}", id)),
        }
        p
    };
    const NK: usize = 9;
    let build = |mut g: Dig, shape: &[usize]| -> Vec<Trn> {
        let mut id = 0;
        shape
            .iter()
            .enumerate()
            .map(|(k, n)| {
                let posts = (0..*n)
                    .map(|_| {
                        id += 1;
                        tagged(g.take(NK), id)
                    })
                    .collect();
                let mut t = Trn { date: format!("2020-01-0{}", k + 1), desc: format!("t{}", k), posts, ..Trn::default() };
                if k == 1 {
                    t.st = St::Clr;
                    t.c = t.c.flag("fp-not-on-a-posting").val("k", "v").line("text");
                }
                t
            })
            .collect()
    };
    let shapes: Vec<Vec<usize>> = {
        let most = if c.thorough { 6 } else { 5 };
        let mut v = vec![];
        for a in 1..=3 {
            v.push(vec![a]);
            for b in 1..=3 {
                v.push(vec![a, b]);
                for d in 1..=3 {
                    v.push(vec![a, b, d]);
                }
            }
        }
        v.retain(|x| x.iter().sum::<usize>() <= most);
        v
    };
    for sh in &shapes {
        let n = sh.iter().sum::<usize>();
        c.par(&format!("postings {:?}", sh), NK.pow(n.min(if c.thorough { 6 } else { 4 }) as u32), |e, i| {
            let j = build(Dig(i), sh);
            e.case(j.iter().flat_map(|t| &t.posts).any(|p| p.fps().is_empty()), &(sh, i));
            keep(genfp_case(e, &[j], false)?)
        });
    }
    // Everything else a posting can have.
    let lots = ["", " {USD2}", " {{USD2}}"];
    let prices = ["", " @ USD3", " @@ USD3"];
    c.par("other fields", 3 * 3 * 5 * 3 * 3 * 4 * 3 * 3, |e, i| {
        let mut g = Dig(i);
        let (st, kind) = (STS[g.take(3)], KINDS[g.take(3)]);
        let a = g.take(5);
        let (lot, price, b) = (*g.of(&lots), *g.of(&prices), BALANCES[g.take(4)].1);
        let mut p = Post { st, kind, acct: s("assets:a b"), ..Post::default() };
        if a > 0 {
            p.amt = Some(pamt(&format!("{}{}{}", ["GBP1.00", "-2 kg", "GBP0", "£79228162514264337593543950335"][a - 1], lot, price)));
        }
        p.bal = match b {
            "" => None,
            "0" => Some(Bal::Zero),
            b => Some(Bal::Amt(amt(b))),
        };
        match g.take(3) {
            0 => {}
            1 => p.c = Comment::default().flag("x").val("k", "v").line("one").line("two"),
            _ => p.c = Comment::default().flag("fp-1").flag("a-very-long-flag-tag-indeed"),
        }
        let mut t = Trn { date: s("2020-02-29"), desc: s("x y"), posts: vec![p], ..Trn::default() };
        match g.take(3) {
            0 => {}
            1 => {
                t.edate = Some(s("2021-01-01"));
                t.st = St::Pend;
                t.code = Some(s("7 a"));
            }
            _ => t.c = Comment::default().flag("fp-2").val("fp-3", "").line("fp-4"),
        }
        e.case(true, &t);
        keep(genfp_case(e, &[vec![t]], false)?)
    });
    // What postings of one transaction have together: amounts missing or the same, and more.
    let alpha = 7usize;
    c.par("postings together", alpha.pow(4) * 2, |e, i| {
        let mut g = Dig(i);
        let mut posts: Vec<Post> = (0..4)
            .map(|k| {
                let mut p = Post { acct: s(["assets:a", "assets:b"][(k == 2) as usize]), amt: Some(pamt("GBP1.50")), ..Post::default() };
                match g.take(alpha) {
                    0 => {}
                    1 => p.amt = None,
                    2 => p.amt = Some(pamt("GBP-1.50")),
                    3 => {
                        p.amt = None;
                        p.bal = Some(Bal::Amt(amt("GBP2")));
                    }
                    4 => p.c = p.c.flag(&format!("fp-{}", k)),
                    5 => {
                        p.amt = None;
                        p.c = p.c.flag("unknown-account");
                    }
                    _ => {
                        p.amt = None;
                        p.kind = Kind::Unbal;
                    }
                }
                p
            })
            .collect();
        if g.take(2) == 1 {
            posts.pop();
        }
        e.case(true, &i);
        keep(genfp_case(e, &[vec![Trn { date: s("2020-01-01"), desc: s("t"), posts, ..Trn::default() }]], false)?)
    });
    let words = super::merging::WORDS;
    c.par("words", words.len() * 9, |e, i| {
        let mut g = Dig(i);
        let (w, k) = (*g.of(&words), g.take(9));
        let mut p = vec![Post { acct: s("a"), amt: Some(pamt("GBP1")), c: Comment::default().flag("fp-1"), ..Post::default() }, Post { acct: s("b"), ..Post::default() }];
        let mut t = Trn { date: s("2020-01-01"), desc: s("t"), ..Trn::default() };
        for p in &mut p {
            match k {
                0 => p.c = p.c.clone().flag(w),
                1 => p.c = p.c.clone().val(w, "1"),
                2 => p.c = p.c.clone().val("k", w),
                3 => p.c = p.c.clone().line(w),
                4 => p.acct = format!("assets:{}", w),
                _ => {}
            }
        }
        match k {
            5 => t.c = t.c.flag(w),
            6 => t.c = t.c.val(w, "1").val("k", w),
            7 => t.c = t.c.line(w),
            8 => t.desc = s(w),
            _ => {}
        }
        t.posts = p;
        e.case(true, &i);
        keep(genfp_case(e, &[vec![t]], false)?)
    });
    // Transactions that are the same in some things.
    c.par("same in some things", 1 << 10, |e, i| {
        let (a, b, third) = super::locality::agreeing(i, false);
        e.case(true, &("same", i));
        keep(genfp_case(e, &[vec![a, b, third]], false)?)
    });
    // Sizes, and several files at once.
    let names = file_groups();
    c.par("names alike", names.len() * 6, |e, i| {
        let mut g = Dig(i);
        let (n, pair) = (g.of(&names), g.take(6));
        let (x, y) = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)][pair];
        let t = Trn { date: s("2020-01-01"), desc: s("t"), posts: vec![Post { acct: s("a"), ..Post::default() }; 2], ..Trn::default() };
        let fs: Vec<(String, Vec<Trn>)> = [x, y].iter().map(|k| (n[*k].clone(), vec![t.clone()])).collect();
        e.case(true, &i);
        keep(genfp_files(e, &fs, false)?)
    });
    let sizes = [1, 2, 5, 10, 50, 100, 255, 256, 257, 400, 1000, 5000];
    c.par("shapes of large journals", 40 * 6, |e, i| {
        let mut g = Dig(i);
        // Up to 1000 transactions with 1 to 12 postings, some of which have fingerprints.
        let (n, m) = ([1, 3, 7, 15, 31, 32, 33, 49, 50, 51, 52, 63, 64, 65, 99, 101, 127, 128, 129, 200, 254, 258, 333, 500, 511, 512, 513, 600, 640, 700, 720, 768, 800, 840, 880, 900, 960, 999, 1023, 1024][g.take(40)], [1, 2, 3, 5, 8, 12][g.0]);
        let f = (0..n)
            .map(|k| {
                let posts = (0..m)
                    .map(|j| {
                        let mut p = Post { acct: format!("a{}", j), amt: Some(pamt("GBP1")), ..Post::default() };
                        if (k + j) % 5 == 4 && m % 2 == 0 {
                            p.c = p.c.flag(&format!("fp-{}-{}", k, j));
                        }
                        p
                    })
                    .collect();
                Trn { date: s("2020-01-01"), desc: format!("t{}", k % 3), posts, ..Trn::default() }
            })
            .collect();
        e.case(true, &i);
        keep(genfp_case(e, &[f], false)?)
    });
    c.par("sizes", sizes.len() * 3 * 2, |e, i| {
        let mut g = Dig(i);
        let n = *g.of(&sizes);
        let po = |k: usize| Post { acct: format!("a{}", k), ..Post::default() };
        let t = |k: usize, posts: Vec<Post>| Trn { date: s("2020-01-01"), desc: format!("t{}", k), posts, ..Trn::default() };
        let f = match g.take(3) {
            0 => vec![(0..n).map(|k| t(k, vec![po(k)])).collect()],
            1 => vec![vec![t(0, (0..n).map(po).collect())]],
            _ => (0..n.min(40)).map(|k| vec![t(k, vec![po(k), po(k + 1)]), t(k, vec![po(k)])]).collect::<Vec<_>>(),
        };
        e.case(true, &i);
        keep(genfp_case(e, &f, g.take(2) == 1)?)
    });
    // Processes of their own, with the same content.
    c.par("separate processes", if c.thorough { 2000 } else { 200 }, |e, i| {
        let t = Trn { date: s("2020-01-01"), desc: s("t"), posts: vec![Post { acct: s("a"), ..Post::default() }; 3], ..Trn::default() };
        e.case(true, &i);
        keep(genfp_case(e, &[vec![t.clone()], vec![t]], true)?)
    });
    c.extra("generated fingerprints, all different", all.lock().unwrap().len().to_string());
    ("exploration", "every case is one or more journals given fingerprints, compared with what they were, given fingerprints again, and merged; all fingerprints generated over the whole check are compared with each other; distinct by journal")
}

// ---------------------------------------------------------------------------------------------
// Items other than transactions.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum It {
    Trn,
    Blank,
    Other(&'static str),
}

const ITS: [It; 9] = [
    It::Trn,
    It::Blank,
    It::Other("; a comment"),
    It::Other("include other.journal"),
    It::Other("P 2020-01-01 12:00:00 GBP USD1.5"),
    It::Other("* heading"),
    It::Other("# :tag:"),
    It::Other("|"),
    It::Other("% 2020-01-01 x"),
];

/// The text of a sequence of items, the descriptions of its transactions, and whether there are other items.
fn items_text(its: &[It], file: usize, eol: &str) -> (String, Vec<String>, bool) {
    let (mut t, mut d, mut other) = (String::new(), Vec::new(), false);
    let mut attached = false;
    for (k, it) in its.iter().enumerate() {
        match it {
            It::Trn => {
                t.push_str(&format!("2020-01-01 t{}-{}{}  a  GBP{}{}  ; :fp-{}-{}:{}", file, k, eol, file * 10 + k + 1, eol, file, k, eol));
                d.push(format!("t{}-{}", file, k));
                attached = true;
            }
            It::Blank => {
                t.push_str(eol);
                attached = false;
            }
            It::Other(x) => {
                t.push_str(x);
                t.push_str(eol);
                // A comment right below a posting is one on the posting.
                let comment = x.starts_with([';', '*', '#', '|', '%']);
                if !(comment && attached) {
                    other = true;
                    attached = false;
                }
            }
        }
    }
    (t, d, other)
}

fn seq_of(n: usize, len: usize, mut i: usize) -> Vec<It> {
    (0..len)
        .map(|_| {
            let x = ITS[i % n];
            i /= n;
            x
        })
        .collect()
}

/// Runs a command on files; `mode` says which.
fn items_case(e: &mut Env, mode: usize, files: &[Vec<It>], eol: &str, old: bool) -> R {
    let built: Vec<(String, Vec<String>, bool)> = files.iter().enumerate().map(|(k, f)| items_text(f, k, eol)).collect();
    let names: Vec<String> = (0..files.len()).map(|k| format!("i{}.journal", k)).collect();
    for (n, b) in names.iter().zip(&built) {
        e.sut.put(n, &b.0);
    }
    if old {
        e.sut.put("out.journal", "old\n");
    }
    e.sut.put("empty.ron", EMPTY_RULES);
    let mut a = match mode {
        0 => vec!["merge", "-o", "out.journal", "-u", "un.journal"],
        1 => vec!["apply-rules", "-o", "out.journal"],
        _ => vec!["generate-fingerprints"],
    };
    a.extend(names.iter().map(|x| x.as_str()));
    if mode == 1 {
        a.extend(["table", "empty.ron"]);
    }
    let show = || format!("{:?}\n{}", a, built.iter().map(|b| b.0.clone()).collect::<Vec<_>>().join("--- next file\n"));
    e.case(true, &show());
    e.sample(show);
    let out = e.sut.run(&a);
    let first_bad = built.iter().position(|b| b.2);
    match first_bad {
        Some(bad) => {
            e.outcome("refused");
            ensure!(out.failed(), "accepted", "{}: {}", out.short(), show());
            if mode < 2 {
                ensure!(e.sut.get_str("out.journal") == old.then(|| s("old\n")), "output written", "{}", show());
                ensure!(e.sut.get_str("un.journal").is_none(), "unmerged written", "{}", show());
            }
            for (k, (n, b)) in names.iter().zip(&built).enumerate() {
                if mode < 2 || k >= bad {
                    ensure!(e.sut.get_str(n).as_deref() == Some(&b.0), "input modified", "file {} of {}", k, show());
                }
            }
        }
        None => {
            e.outcome("processed");
            ensure!(out.ok(), "refused", "{}: {}", out.short(), show());
            for (k, (n, b)) in names.iter().zip(&built).enumerate() {
                let (f, want) = if mode < 2 { ("out.journal", built.iter().flat_map(|b| b.1.clone()).collect()) } else { (n.as_str(), b.1.clone()) };
                let text = e.sut.get_str(f).unwrap_or_default();
                let got: Vec<String> = parse(&text).or_else(|x| fail("unreadable", format!("{}\n{}", x, text)))?.into_iter().map(|t| t.desc).collect();
                ensure!(got == want, "transactions lost", "{:?} instead of {:?} in file {}: {}", got, want, k, show());
            }
            e.validated();
        }
    }
    Ok(())
}

pub fn c21(c: &Ctx) -> (&'static str, &'static str) {
    let eols = ["\n", "\r\n"];
    let most = if c.thorough { 5 } else { 4 };
    for len in 0..=most {
        let n = if len < 5 { ITS.len() } else { 7 };
        c.par(["empty file", "one item", "two items", "three items", "four items", "five items"][len], n.pow(len as u32) * 3 * 2, |e, i| {
            let mut g = Dig(i);
            let (mode, old) = (g.take(3), g.take(2) == 1);
            items_case(e, mode, &[seq_of(n, len, g.0)], eols[i / 7 % 2], old)
        });
    }
    // Several files.
    let small: Vec<Vec<It>> = (0..=2).flat_map(|len| (0..5usize.pow(len)).map(move |i| seq_of(5, len as usize, i))).collect();
    c.par("two files", small.len() * small.len() * 2, |e, i| {
        let mut g = Dig(i);
        let mode = [0, 2][g.take(2)];
        items_case(e, mode, &[g.of(&small).clone(), g.of(&small).clone()], "\n", i % 3 == 0)
    });
    let tiny: Vec<Vec<It>> = (0..=1).flat_map(|len| (0..5usize.pow(len)).map(move |i| seq_of(5, len as usize, i))).chain([vec![ITS[0], ITS[1], ITS[0]], vec![ITS[0], ITS[3]], vec![ITS[4], ITS[0]]]).collect();
    for nf in 3..=if c.thorough { 5 } else { 4 } {
        c.par(["", "", "", "three files", "four files", "five files"][nf], tiny.len().pow(nf as u32) * 2, |e, i| {
            let mut g = Dig(i);
            let mode = [0, 2][g.take(2)];
            let fs: Vec<Vec<It>> = (0..nf).map(|_| g.of(&tiny).clone()).collect();
            items_case(e, mode, &fs, "\n", i % 3 == 0)
        });
    }
    // One other item at every place of a long journal; many blank lines.
    let n = if c.thorough { 120 } else { 40 };
    c.par("places in a long journal", (n + 1) * 3 * 3, |e, i| {
        let mut g = Dig(i);
        let (mode, kind, at) = (g.take(3), g.take(3), g.0);
        let mut v: Vec<It> = Vec::new();
        for k in 0..n {
            if k == at {
                v.push(It::Blank);
                v.push([ITS[2], ITS[3], ITS[4]][kind]);
            }
            v.push(It::Trn);
        }
        if at == n {
            v.push(It::Blank);
            v.push([ITS[2], ITS[3], ITS[4]][kind]);
        }
        items_case(e, mode, &[v], "\n", false)
    });
    c.par("blank lines", 3 * 40 * 3, |e, i| {
        let mut g = Dig(i);
        let (mode, n, place) = (g.take(3), g.take(40), g.take(3));
        let mut v = Vec::new();
        for k in 0..3 {
            if k == place {
                v.extend(std::iter::repeat_n(It::Blank, n));
            }
            v.push(It::Trn);
        }
        if place == 0 {
            v.extend(std::iter::repeat_n(It::Blank, n));
        }
        items_case(e, mode, &[v], eols[n % 2], false)
    });
    // What a comment or price says does not matter.
    let words = [
        "", " ", "vim: ft=ledger", "vim:ft=ledger:", "-*- ledger -*-", "-*- mode: ledger; coding: utf-8 -*-", "-*-", "Local Variables:", "End:", "ex: ts=2", "#!/usr/bin/ledger -f", "!", "TODO", "FIXME: x", "XXX",
        "===", "---", "-----", "***", "___", "~~~", "{{{", "}}}", "[[", "region", "endregion", "BEGIN", "end", "include a.journal", "!include a", "@include a", "account x", "alias a=b", "apply tag a", "bucket a",
        "comment", "end comment", "test", "year 2020", "Y2020", "Y", "D GBP1.00", "N GBP", "C 1 a = 2 b", "A a", "i 2020/01/01 00:00:00 a", "o", "h", "P 2020-01-01 A GBP1", "2020-01-01 a", "2020-01-01", "  a  GBP1",
        ":a:", ":a:b:", ":fp-1:", ":fp-1", "fp-1", "a: b", "a:", "source-file: a", "key: value", "unknown-account", ":unknown-account:", ":candidate-fp-1:", "generated", "accountmerge", "Generated by accountmerge",
        "fmt: off", "fmt: on", "fmt:skip", "noqa", "nolint", "NOLINT", "eslint-disable", "@formatter:off", "clang-format off", "rustfmt::skip", "coding: utf-8", "encoding: utf-8", "Copyright", "SPDX-License-Identifier: MIT",
        "$Id$", "$Revision$", "%", ";;", ";", "; a", "#", "# a", "*", "* a", "** Org heading", "|", "|a|b|", "//", "/*", "*/", "<!-- -->", "\"", "'", "\\", "\\n", "\u{e9}", "\u{20ac}\u{1f600}", "\u{a0}", "\t", "\ta", " a ", "0", "1.0", "GBP1", "= /a/", "~ Monthly",
    ];
    let marks = [";", "; ", ";;", "#", "# ", "%", "|", "*", "* "];
    let prices: Vec<String> = ["A", "$", "\u{20ac}", "GBP", "\"A 1\"", "h", "USD"].iter().flat_map(|n| ["2020-01-01", "2020/01/01", "2020.01.01", "2020-01-01 12:00:00", "1999/12/31 23:59:59"].iter().flat_map(move |d| ["GBP1", "1 GBP", "$0", "-1.00 \"B 2\""].iter().map(move |v| format!("P {} {} {}", d, n, v)))).collect();
    // Includes of all sorts of files, there or not, by names of all sorts.
    let stems = ["x", "./x", "../x", "/x", "a/b/x", "~/x", "*", "a b", "\"x\"", "x y.journal z", "i0", "out", "empty", "other", "accounts", "prices", "commodities", "main", "2020", "\u{e9}", "$HOME/x", "-", "https://x/y"];
    let exts = ["", ".journal", ".dat", ".ledger", ".txt", ".j", ".hledger", ".beancount", ".prices", ".db", ".csv", ".ron", ".JOURNAL", ".gz", ".bak", ".old", "~", ".d/*", ".journal.gz", "/"];
    let mut includes: Vec<String> = Vec::new();
    for w in ["include ", "include\t", "include   "] {
        includes.extend(stems.iter().flat_map(|a| exts.iter().map(move |x| format!("{}{}{}", w, a, x))));
    }
    let mut lines: Vec<String> = marks.iter().flat_map(|m| words.iter().map(move |w| format!("{}{}", m, w)).chain((' '..='~').map(move |x| format!("{}{}", m, x)))).collect();
    lines.extend(prices);
    lines.extend(includes);
    lines.extend((1..=12).map(|n| format!("; {}", "long ".repeat(1 << n))));
    lines.sort();
    lines.dedup();
    c.par("texts of comments and prices", lines.len() * 4 * 3, |e, i| {
        let mut g = Dig(i);
        let (mode, place, line) = (g.take(3), g.take(4), g.of(&lines));
        let t = |k: usize| format!("2020-01-0{} d{}\n  a  GBP{}\n  ; :fp-{}:\n", k, k, k, k);
        let text = match place {
            0 => format!("{}\n{}\n{}", line, t(1), t(2)),
            1 => format!("{}\n{}\n\n{}", t(1), line, t(2)),
            2 => format!("{}\n{}\n{}\n", t(1), t(2), line),
            _ => format!("{}\n", line),
        };
        e.sut.put("i0.journal", &text);
        e.sut.put("out.journal", "old\n");
        e.sut.put("empty.ron", EMPTY_RULES);
        let a: &[&str] = match mode {
            0 => &["merge", "-o", "out.journal", "i0.journal"],
            1 => &["apply-rules", "-o", "out.journal", "i0.journal", "table", "empty.ron"],
            _ => &["generate-fingerprints", "i0.journal"],
        };
        let out = e.sut.run(a);
        e.case(true, &(mode, &text));
        ensure!(out.failed(), "accepted", "{:?}: {} on\n{}became\n{:?}", a, out.short(), text, e.sut.get_str(if mode == 2 { "i0.journal" } else { "out.journal" }));
        ensure!(e.sut.get_str("i0.journal") == Some(text.clone()) && e.sut.get_str("out.journal").as_deref() == Some("old\n"), "written though refused", "{:?}: {}\n{}", a, out.short(), text);
        Ok(())
    });
    // Through standard input.
    c.par("standard input", 3 * 81, |e, i| {
        let mut g = Dig(i);
        let mode = g.take(3);
        let its = seq_of(9, 2, g.0);
        let (text, want, bad) = items_text(&its, 0, "\n");
        e.sut.put("empty.ron", EMPTY_RULES);
        let a: &[&str] = match mode {
            0 => &["merge", "-"],
            1 => &["apply-rules", "-", "table", "empty.ron"],
            _ => &["generate-fingerprints", "-"],
        };
        let p = e.sut.plain(a, Some(text.as_bytes()), &[]);
        e.case(true, &(mode, &text));
        if bad {
            ensure!(p.out.failed() && p.stdout.is_empty(), "accepted", "{:?}: {}: wrote {:?}\n{}", a, p.out.short(), String::from_utf8_lossy(&p.stdout), text);
        } else {
            ensure!(p.out.ok(), "refused", "{:?}: {}\n{}", a, p.out.short(), text);
            let t = String::from_utf8_lossy(&p.stdout).into_owned();
            let got: Vec<String> = parse(&t).or_else(|x| fail("unreadable", format!("{}\n{}", x, t)))?.into_iter().map(|t| t.desc).collect();
            ensure!(got == want, "transactions lost", "{:?} instead of {:?}", got, want);
        }
        Ok(())
    });
    // Descriptions that begin with an opening parenthesis, and closing ones further down.
    let heads = ["2020-01-01 (one", "2020-01-01 * (one", "2020-01-01=2020-01-02 ! (one", "2020-01-01\t(", "2020-01-01 (one ; note", "2020-01-01 one (two"];
    let ends = ["2020-01-02 two (x)", "2020-01-02 two", "2020-01-02 (7) two", "2020-01-02 )", "2020-01-02 two ; )"];
    let posts = ["a", "(a)", "a) b", "[a]"];
    c.par("open parenthesis", heads.len() * ends.len() * posts.len() * posts.len() * 2 * 3, |e, i| {
        let mut g = Dig(i);
        let (h, t, p, q, cr, k) = (*g.of(&heads), *g.of(&ends), *g.of(&posts), *g.of(&posts), g.take(2) == 1, g.take(3));
        let mut text = format!("{}\n  {}  GBP1\n  ; :fp-1:\n\n{}\n  {}  GBP2\n  ; :fp-2:\n", h, p, t, q);
        if cr {
            text = text.replace('\n', "\r\n");
        }
        e.sut.put("i0.journal", &text);
        e.sut.put("empty.ron", EMPTY_RULES);
        let a: &[&str] = match k {
            0 => &["merge", "-o", "out.journal", "i0.journal"],
            1 => &["apply-rules", "-o", "out.journal", "i0.journal", "table", "empty.ron"],
            _ => &["generate-fingerprints", "i0.journal"],
        };
        let out = e.sut.run(a);
        e.case(true, &i);
        if !out.ok() {
            let may = h != "2020-01-01 one (two";
            e.outcome("refused");
            ensure!(may && out.orderly(), "refused", "{:?}: {}\n{}", a, out.short(), text);
            ensure!(e.sut.get_str("i0.journal") == Some(text.clone()) && e.sut.get("out.journal").is_none(), "written though refused", "{:?}: {}\n{}", a, out.short(), text);
            return Ok(());
        }
        e.outcome("processed");
        let o = e.sut.get_str(if k == 2 { "i0.journal" } else { "out.journal" }).unwrap_or_default();
        let all = o.matches("; :fp-").count() == 2 && o.contains("GBP1\n") && o.contains("GBP2\n") && o.lines().filter(|l| l.starts_with("2020")).count() == 2;
        ensure!(all, "swallowed", "{:?}\n{}became\n{}", a, text, o);
        Ok(())
    });
    c.assume("comments right below a posting or a transaction's first line belong to it (ledger-parser's rule)");
    ("exploration", "every case is one command on files of items; acceptance, outputs, and inputs are compared before and after; distinct by command line and contents")
}
