//! No input makes a command crash or hang, and what it writes can be read back.

use super::imports::{small_import, Kind3};
use super::journals::EMPTY_RULES;
use super::merging::{conflict_files, Dig, CONFLICTS};
use crate::ctx::{fail, Ctx, Env, R};
use crate::ensure;
use crate::imports::Ns;
use crate::merge::{put_files, Files};

fn s(x: &str) -> String {
    x.into()
}

fn sv(x: &[&str]) -> Vec<String> {
    x.iter().map(|y| s(y)).collect()
}

/// A command and the file of it that is varied.
#[derive(Clone)]
struct Target {
    name: &'static str,
    files: Vec<(String, Vec<u8>)>,
    varied: String,
    args: Vec<String>,
    /// Files that are written if the command succeeds.
    outputs: Vec<&'static str>,
    /// Significant pieces of the format of the varied file.
    alphabet: Vec<&'static [u8]>,
    /// Whole tokens, for files made of nothing else.
    tokens: Vec<&'static str>,
}

impl Target {
    fn content(&self) -> &[u8] {
        &self.files.iter().find(|f| f.0 == self.varied).unwrap().1
    }
}

const J1: &str = "2020-01-10 * (7) Shop one\n    ; :tag: key: value\n    assets:a  GBP10.00 = GBP5\n    ; :fp-a:unknown-account:\n    (expenses:b)  -1,000.5 USD @ GBP2\n    ; :fp-b:\n\n2020/01/11=2020-01-12 ! x\n  [c]\n  ; :fp-c:\n";
const J2: &str = "2020-01-10 shop\n  assets:a  GBP10.00\n  ; :fp-a2: seq: 1\n\n2020-01-10 other\n  d  GBP1 {USD2} @@ USD3\n  ; :fp-d:\n  ; source-file: x\n";
/// Left to resolve by hand.
const U1: &str = "2020-01-10 x\n  ; source-file: s\n  a  GBP1\n  ; :fp-u:fp-d:\n";

const A_JOURNAL: [&[u8]; 38] = [
    b"\n", b" ", b"  ", b"\t", b";", b"  ; ", b":", b"=", b"(", b")", b"[", b"]", b"{", b"}", b"@", b"-", b"+", b".", b",", b"0", b"9", b"*", b"!", b"\"", b"a", b"#", b"|", b"\r", b"\r\n", b"\xff", b"\xc3\xa9",
    b"\0", b"\xe2\x80\xa8", b"\xef\xbb\xbf", b"99999999999999999999999999999", b"\n\n", b"include ", b"P 2020-01-01 00:00:00 X Y1\n",
];
const A_CSV: [&[u8]; 26] = [
    b"\n", b" ", b"\t", b"\"", b",", b"\",\"", b"\r", b"\r\n", b"\0", b"\xff", b"\xa3", b"\xc2\xa3", b"-", b"+", b".", b"0", b"9", b"a", b":", b"/", b";", b"(", b"\xef\xbb\xbf", b"99999999999999999999999999999", b"\n\n", b"  ; x",
];
const A_TSV: [&[u8]; 20] = [
    b"\n", b" ", b"\t", b"\"", b",", b"-", b"0", b"1", b"9", b"a", b".", b"\r", b"\0", b"\xff", b"\xc3\xa9", b"99999999999", b"\n\n", b"\t\t", b"-1", b"2147483647",
];
const A_RON: [&[u8]; 34] = [
    b"\n", b" ", b"(", b")", b"[", b"]", b"{", b"}", b",", b":", b"\"", b"\\", b"'", b"a", b"0", b"-", b".", b"/*", b"//", b"#", b"r#\"", b"\xff", b"\0", b"\xc3\xa9", b"$", b"True", b"Not(True)", b"All([])", b"\\u{110000}", b"\\u{d800}", b"(*)",
    b"((((", b"*", b"\xef\xbb\xbf",
];

fn targets(c: &Ctx) -> Vec<Target> {
    let j = |name, varied: &str, text: &str, args: &[&str], outputs: &[&'static str], more: &[(&str, &str)]| Target {
        name,
        files: std::iter::once((s(varied), text.as_bytes().to_vec())).chain(more.iter().map(|(n, x)| (s(n), x.as_bytes().to_vec()))).collect(),
        varied: s(varied),
        args: sv(args),
        outputs: outputs.to_vec(),
        alphabet: A_JOURNAL.to_vec(),
        tokens: vec!["2020-01-01", " ", "  ", "\n", "x", "a", "GBP1", "  ; :fp-a:\n", "*", "(", ")", ";", "=", "@", "[", "\"", "-", "\r\n", ":", "\t", "P ", "include "],
    };
    let mut v = vec![
        j("merge", "a.journal", J1, &["merge", "-o", "out.journal", "-u", "un.journal", "a.journal", "b.journal"], &["out.journal", "un.journal"], &[("b.journal", J2)]),
        j("merge, second file", "b.journal", J2, &["merge", "-o", "out.journal", "-u", "un.journal", "a.journal", "b.journal"], &["out.journal", "un.journal"], &[("a.journal", J1)]),
        j("merge, edited file", "u.journal", U1, &["merge", "-o", "out.journal", "-u", "un.journal", "b.journal", "u.journal"], &["out.journal", "un.journal"], &[("b.journal", J2)]),
        j("fmt", "a.journal", J1, &["fmt", "a.journal"], &["a.journal"], &[]),
        j("generate-fingerprints", "a.journal", J2, &["generate-fingerprints", "a.journal"], &["a.journal"], &[]),
        j("apply-rules", "a.journal", J1, &["apply-rules", "-o", "out.journal", "a.journal", "table", "r.ron"], &["out.journal"], &[("r.ron", RULES), ("i.ron", EMPTY_RULES.replace("start", "inc").as_str())]),
    ];
    let mut r = j("rules", "r.ron", RULES, &["apply-rules", "-o", "out.journal", "a.journal", "table", "r.ron"], &["out.journal"], &[("a.journal", J1), ("i.ron", EMPTY_RULES.replace("start", "inc").as_str())]);
    r.alphabet = A_RON.to_vec();
    r.tokens = vec!["[", "]", "(", ")", "Chain", "\"start\"", ",", "Rule", "action:", "Noop", "predicate:", "True", "result:", "Continue", "Include", "\"i.ron\"", "\"r.ron\"", "JumpChain", "{", "}"];
    v.push(r);
    // Imports.
    let imp = |name, varied: &str, kind, ns: &Ns, alphabet: &[&'static [u8]], tokens: &[&'static str]| {
        let mut e = scratch(c);
        let (a, _, _) = small_import(c, &mut e, kind, ns);
        let mut files: Vec<(String, Vec<u8>)> = e.sut.tree().into_iter().filter(|f| f.0 != "tess.list").collect();
        // The statement of the other shape.
        if name == "nationwide-csv of five columns" {
            files.iter_mut().filter(|f| f.0 == "in.csv").for_each(|f| f.1 = b"\"Account Name:\",\"****12345\"\r\n\"Account Balance:\",\"\xa31.00\"\r\n\"Available Balance: \",\"\xa31.00\"\r\n\r\n\"Date\",\"Transactions\",\"Location\",\"Paid out\",\"Paid in\"\r\n\"01 Jan 2020\",\"Shop\",\"Town\",\"\xa31000.50\",\"\"\r\n\"02 Jan 2020\",\"Pay\",\"\",\"\",\"\xa32.00\"\r\n".to_vec());
        }
        Target {
            name,
            files,
            varied: s(varied),
            args: [sv(&["import", "-o", "out.journal"]), a].concat(),
            outputs: vec!["out.journal"],
            alphabet: alphabet.to_vec(),
            tokens: tokens.to_vec(),
        }
    };
    let look = Ns::Lookup(vec![(s("****12345"), s("look_1")), (s("x"), s("y"))]);
    let csv_tokens = ["\"Account Name:\"", ",", "\"", "\n", "\r\n", "x", "\"Date\"", "01 Jan 2020", "\u{a3}1.00", " ", "Date,Transactions,Location,Paid out,Paid in\n", "a,b,c,d,e\n"];
    let pp_tokens = ["Date,Time,TimeZone,Name,Type,Status,Currency,Amount,Receipt ID,Balance\n", ",", "\"", "\n", "x", "01/01/2019", "12:00:00", "GMT", "GBP", "1.25", " ", "Date"];
    let ocr_tokens = ["level\tpage_num\tblock_num\tpar_num\tline_num\tword_num\tleft\ttop\twidth\theight\tconf\ttext\n", "1\t1\t0\t0\t0\t0\t0\t0\t2480\t3508\t-1\t\n", "2\t1\t1\t0\t0\t0\t0\t0\t9\t9\t-1\t\n", "3\t1\t1\t1\t0\t0\t0\t0\t9\t9\t-1\t\n", "4\t1\t1\t1\t1\t0\t0\t0\t9\t9\t-1\t\n", "5\t1\t1\t1\t1\t1\t0\t0\t9\t9\t96\tx\n", "5\t1\t1\t1\t1\t2\t0\t0\t9\t9\t96\tDate\n", "\t", "1", "\n", "x", "-1"];
    let ron_tokens = ["{", "}", "\"****12345\"", ":", ",", "\"x\"", "(", ")", "[", "]", "1", "()"];
    let tz_tokens = ["abbreviation,utc_offset\n", "Abbreviation,UTC offset\n", "GMT", ",", "UTC+00", "UTC-", "\n", "\"", ":30", "00", "x", " "];
    v.push(imp("nationwide-csv of five columns", "in.csv", Kind3::Csv, &Ns::Default, &A_CSV, &csv_tokens));
    v.push(imp("nationwide-csv of six columns", "in.csv", Kind3::Csv, &Ns::Default, &A_CSV, &csv_tokens));
    v.push(imp("lookup", "lookup.ron", Kind3::Csv, &look, &A_RON, &ron_tokens));
    v.push(imp("paypal-csv", "in.csv", Kind3::Pp, &Ns::Default, &A_CSV, &pp_tokens));
    v.push(imp("time zones", "tz.csv", Kind3::Pp, &Ns::Default, &A_CSV, &tz_tokens));
    v.push(imp("nationwide-pdf", "ocr.tsv", Kind3::Pdf, &Ns::Default, &A_TSV, &ocr_tokens));
    v
}

const RULES: &str = "[Include(\"i.ron\"), Chain(\"start\", [Rule(action: All([SetAccount(\"a b\"), AddPostingFlagTag(\"t\"), ReplaceTransactionDescription(RegexReplace(regex: \"o(.)\", replacement: \"$1\"))]), predicate: Any([Not(Account(Eq(\"a\"))), TransactionDescription(Matches(\"^[a-c]+$\")), PostingHasFlagTag(\"x\")]), result: Continue), Rule(action: JumpChain(\"c\"), predicate: True, result: Return)]), Chain(\"c\", [])]";

fn scratch(c: &Ctx) -> Env {
    c.scratch_env()
}

/// Runs a target with the varied file replaced, and judges.
fn judge(e: &mut Env, t: &Target, content: &[u8]) -> R {
    for (n, x) in &t.files {
        e.sut.put(n, if *n == t.varied { content } else { x });
    }
    for o in &t.outputs {
        if !t.files.iter().any(|f| f.0 == **o) {
            e.sut.rm(o);
        }
    }
    e.case(content != t.content(), &(t.name, content));
    run(e, &t.args, &t.outputs, &|| format!("{} is\n{}\n(escaped: {})", t.varied, String::from_utf8_lossy(&content[..content.len().min(3000)]), content[..content.len().min(3000)].escape_ascii()))
}

fn run(e: &mut Env, args: &[String], outputs: &[&str], what: &dyn Fn() -> String) -> R {
    let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    let out = e.sut.run(&a);
    e.sample(|| format!("{:?}: {}; {}", a, out.short(), what()));
    if !out.orderly() {
        return fail("disorderly", format!("{:?}: {}\n{}", a, out.short(), what()));
    }
    if !out.ok() {
        e.outcome("error message");
        return Ok(());
    }
    e.outcome("success");
    for o in outputs {
        let Some(written) = e.sut.get_str(o) else { continue };
        let again = e.sut.run(&["fmt", o]);
        ensure!(again.orderly(), "disorderly", "fmt of its output: {}\n{:?}: {}\noutput:\n{}", again.short(), a, what(), written);
        ensure!(again.ok(), "output cannot be read back", "{:?} succeeds, but its output {} cannot be read: {}\n{}\noutput:\n{}", a, o, again.short(), what(), written);
    }
    Ok(())
}

/// A single edit of `x`, by number.
fn edits(x: &[u8], al: &[&'static [u8]]) -> usize {
    (x.len() + 1) * al.len() + x.len() * al.len() + x.len() * 3 + x.len()
}

fn edit(x: &[u8], al: &[&'static [u8]], mut i: usize) -> Vec<u8> {
    let n = (x.len() + 1) * al.len();
    if i < n {
        let (p, a) = (i / al.len(), al[i % al.len()]);
        return [&x[..p], a, &x[p..]].concat();
    }
    i -= n;
    let n = x.len() * al.len();
    if i < n {
        let (p, a) = (i / al.len(), al[i % al.len()]);
        return [&x[..p], a, &x[p + 1..]].concat();
    }
    i -= n;
    let n = x.len() * 3;
    if i < n {
        let (p, k) = (i / 3, [1, 2, 7][i % 3]);
        return [&x[..p], &x[(p + k).min(x.len())..]].concat();
    }
    i -= n;
    x[..i].to_vec()
}

/// Edits of whole lines: left out, doubled, moved in front of another one, joined with the next.
fn line_edits(x: &[u8]) -> Vec<Vec<u8>> {
    let lines: Vec<&[u8]> = x.split_inclusive(|b| *b == b'\n').collect();
    let n = lines.len();
    let mut v = Vec::new();
    for i in 0..n {
        let mut l = lines.clone();
        l.remove(i);
        v.push(l.concat());
        for j in 0..n {
            if i != j {
                let mut m = l.clone();
                m.insert(j.min(m.len()), lines[i]);
                v.push(m.concat());
            }
            let mut m = lines.clone();
            m.insert(j, lines[i]);
            v.push(m.concat());
            if i < j {
                let mut m = lines.clone();
                m.drain(i..j);
                v.push(m.concat());
            }
        }
        let mut m: Vec<Vec<u8>> = lines.iter().map(|l| l.to_vec()).collect();
        let e = m[i].len();
        m[i].truncate(e.saturating_sub(1));
        v.push(m.concat());
    }
    v
}

/// Fields: maximal pieces without separators.
fn fields(x: &[u8], sep: &[u8]) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    let mut from = 0;
    for p in 0..=x.len() {
        if p == x.len() || sep.contains(&x[p]) {
            v.push((from, p));
            from = p + 1;
        }
    }
    v
}

const EXTREMES: [&str; 52] = [
    "", " ", "0", "-0", "1", "-1", "2147483647", "-2147483648", "2147483648", "9223372036854775807", "-9223372036854775808", "18446744073709551616", "79228162514264337593543950335", "79228162514264337593543950336",
    "0.0000000000000000000000000001", "0.00000000000000000000000000001", "1e10", "1e400", "-1e-400", "1.5", ".", "NaN", "inf", "0x10", "1,000", "1,,0", "1_0", "\u{a3}", "\u{a3}1.00", "\u{a3}-1.00", "\u{a3}1.001", "GBP", "$",
    "9999-12-31", "10000-01-01", "0000-00-00", "2020-02-30", "-262143-01-01", "262143-12-31", "31 Dec 9999", "29 Feb 2019", "01 Jan 262143", "01/01/262143", "31/12/9999", "99:99:99", "24:00:00", "23:59:60", "UTC+99:99", "UTC-24", "(x", "x  ; y", "\u{202e}\u{0}\u{fffd}",
];

fn wide() -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    for (ch, n) in [("\u{e9}", 2), ("\u{20ac}", 3), ("\u{1f600}", 4)] {
        v.push(ch.as_bytes().to_vec());
        for k in 0..n {
            v.push([&b"xxx"[..k], ch.repeat(40).as_bytes()].concat());
        }
    }
    v.push("e\u{301}\u{200d}\u{df}\u{130}\u{fb01}".as_bytes().to_vec());
    v
}

pub fn c20(c: &Ctx) -> (&'static str, &'static str) {
    let ts = targets(c);
    for t in &ts {
        if c.stop.load(std::sync::atomic::Ordering::SeqCst) {
            break;
        }
        let x = t.content().to_vec();
        // The file as it is.
        c.one(&format!("{}: unchanged", t.name), |e| {
            judge(e, t, &x)?;
            let a: Vec<&str> = t.args.iter().map(|x| x.as_str()).collect();
            let out = e.sut.run(&a);
            ensure!(out.ok(), "valid input refused", "{:?}: {}", a, out.short());
            Ok(())
        });
        let al = if c.thorough || t.alphabet.len() < 22 { t.alphabet.clone() } else { t.alphabet.iter().copied().enumerate().filter(|(k, _)| k % 2 == 0 || t.alphabet[*k].len() == 1).map(|x| x.1).collect() };
        let n = edits(&x, &al);
        c.par(&format!("{}: one edit", t.name), n, |e, i| judge(e, t, &edit(&x, &al, i)));
        let le = line_edits(&x);
        c.par(&format!("{}: lines", t.name), le.len(), |e, i| judge(e, t, &le[i]));
        // Files of a few tokens.
        let tk = &t.tokens;
        for len in 0..=if c.thorough { 4 } else { 3 } {
            c.par(&format!("{}: {} tokens", t.name, len), tk.len().pow(len), |e, i| {
                let mut g = Dig(i);
                let text: String = (0..len).map(|_| *g.of(tk)).collect();
                judge(e, t, text.as_bytes())
            });
        }
        // Extreme values in every field.
        let fs = fields(&x, if t.varied.ends_with("tsv") { b"\t\n" } else if t.varied.ends_with("csv") { b",\"\r\n" } else if t.varied.ends_with("ron") { b"\"" } else { b" \n" });
        c.par(&format!("{}: one field", t.name), fs.len() * EXTREMES.len(), |e, i| {
            let (f, v) = (fs[i / EXTREMES.len()], EXTREMES[i % EXTREMES.len()]);
            judge(e, t, &[&x[..f.0], v.as_bytes(), &x[f.1..]].concat())
        });
        // Characters of several bytes, so that no byte offset is a boundary in all of them.
        let wide = wide();
        c.par(&format!("{}: wide characters", t.name), fs.len() * wide.len() * 4, |e, i| {
            let mut g = Dig(i);
            let (v, at) = (g.of(&wide), g.take(4));
            let f = fs[g.0];
            let old = &x[f.0..f.1];
            let new = match at {
                0 => v.clone(),
                1 => [old, v].concat(),
                2 => [v, old].concat(),
                _ => [&old[..old.len() / 2], v, &old[old.len() / 2..]].concat(),
            };
            judge(e, t, &[&x[..f.0], &new, &x[f.1..]].concat())
        });
        let some: Vec<&str> = EXTREMES.iter().copied().step_by(if c.thorough { 2 } else { 7 }).collect();
        let near: Vec<(usize, usize)> = (0..fs.len()).flat_map(|a| (a + 1..(a + if c.thorough || fs.len() < 100 { 7 } else { 3 }).min(fs.len())).map(move |b| (a, b))).collect();
        c.par(&format!("{}: two fields", t.name), near.len() * some.len() * some.len(), |e, i| {
            let mut g = Dig(i);
            let (v, w) = (*g.of(&some), *g.of(&some));
            let (a, b) = near[g.0];
            let (a, b) = (fs[a], fs[b]);
            judge(e, t, &[&x[..a.0], v.as_bytes(), &x[a.1..b.0], w.as_bytes(), &x[b.1..]].concat())
        });
        // Something wrong beside something wide, for the messages that show other fields than the wrong one.
        let long: Vec<Vec<u8>> = [("\u{e9}", 0), ("\u{e9}", 1), ("\u{20ac}", 1)].iter().map(|(ch, k)| [&b"xxx"[..*k], ch.repeat(300).as_bytes()].concat()).collect();
        c.par(&format!("{}: wide beside wrong", t.name), near.len() * 2 * long.len(), |e, i| {
            let mut g = Dig(i);
            let (v, first) = (g.of(&long), g.take(2) == 0);
            let (a, b) = near[g.0];
            let (a, b) = (fs[a], fs[b]);
            let (p, q) = if first { (b"?".to_vec(), [&x[b.0..b.1], v].concat()) } else { ([&x[a.0..a.1], v].concat(), b"?".to_vec()) };
            judge(e, t, &[&x[..a.0], &p, &x[a.1..b.0], &q, &x[b.1..]].concat())
        });
        if c.thorough {
            // Two edits close to each other.
            let few: Vec<&'static [u8]> = al.iter().copied().take(12).collect();
            c.par(&format!("{}: two edits", t.name), x.len() * 6 * few.len() * few.len(), |e, i| {
                let mut g = Dig(i);
                let (a, b, d) = (*g.of(&few), *g.of(&few), g.take(6));
                let (p, q) = (g.0, (g.0 + d).min(x.len()));
                judge(e, t, &[&x[..p], a, &x[p..q], b, &x[q..]].concat())
            });
        }
        // One long thing.
        let reps = [1000usize, 30_000, 200_000];
        c.par(&format!("{}: long runs", t.name), al.len() * 3 * 3, |e, i| {
            let mut g = Dig(i);
            let (a, k, place) = (*g.of(&al), *g.of(&reps), g.take(3));
            let p = [0, x.len() / 2, x.len()][place];
            judge(e, t, &[&x[..p], &a.repeat(k / a.len().min(k)), &x[p..]].concat())
        });
    }
    nesting(c);
    refusals(c);
    c.assume("a command that takes more than 20 seconds counts as hanging");
    ("exploration", "every case is one command with one input file varied: edits at every place, lines moved, files of a few tokens, extreme values in every field, and long runs; it must end in an orderly way and what it writes must be readable; distinct by command and content")
}

/// Deep nesting and long chains.
fn nesting(c: &Ctx) {
    let depths = [10usize, 100, 127, 128, 129, 200, 250, 251, 300, 1000, 5000, 20_000, 100_000];
    let journal = "2020-01-01 x\n  a  GBP1\n";
    c.par("nesting in rules", depths.len() * 6, |e, i| {
        let mut g = Dig(i);
        let (n, k) = (*g.of(&depths), g.take(6));
        let (pred, act) = match k {
            0 => (format!("{}True{}", "Not(".repeat(n), ")".repeat(n)), s("Noop")),
            1 => (format!("{}True{}", "All([".repeat(n), "])".repeat(n)), s("Noop")),
            2 => (s("True"), format!("{}Noop{}", "All([".repeat(n), "])".repeat(n))),
            3 => (format!("Account({}Eq(\"a\"){})", "AsLower(".repeat(n), ")".repeat(n)), s("Noop")),
            4 => (format!("Account(Matches(\"{}a{}\"))", "(".repeat(n), ")".repeat(n)), s("Noop")),
            _ => (format!("Account(Matches(\"{}\"))", "a{0,9}".repeat(n)), s("Noop")),
        };
        e.sut.put("a.journal", journal);
        e.sut.put("r.ron", format!("[Chain(\"start\", [Rule(action: {}, predicate: {}, result: Continue)])]", act, pred));
        e.case(true, &i);
        run(e, &sv(&["apply-rules", "-o", "out.journal", "a.journal", "table", "r.ron"]), &["out.journal"], &|| format!("kind {} nested {} deep", k, n))
    });
    c.par("chains of rules", depths.len() * 2, |e, i| {
        let mut g = Dig(i);
        let (n, ring) = (*g.of(&depths), g.take(2) == 1);
        let n = n.min(20_000);
        let mut r = s("[");
        for k in 0..n {
            let to = if k + 1 < n { format!("JumpChain(\"c{}\")", k + 1) } else if ring { s("JumpChain(\"start\")") } else { s("Noop") };
            r.push_str(&format!("Chain(\"{}\", [Rule(action: {}, predicate: True, result: Continue)]),\n", if k == 0 { s("start") } else { format!("c{}", k) }, to));
        }
        r.push(']');
        e.sut.put("a.journal", journal);
        e.sut.put("r.ron", r);
        e.case(true, &i);
        run(e, &sv(&["apply-rules", "-o", "out.journal", "a.journal", "table", "r.ron"]), &["out.journal"], &|| format!("{} chains in a row, ring: {}", n, ring))
    });
    // What is looked for in texts that it nearly fits in, in characters of several bytes.
    let short = super::rules::short_texts(3);
    c.par("short texts in rules", short.len() * 6, |e, i| {
        let (w, k) = (&short[i / 6], i % 6);
        let m = [format!("Contains(\"{}\")", w), format!("Eq(\"{}\")", w), format!("AsLower(Contains(\"{}\"))", w), format!("AsLower(AsLower(Eq(\"{}\")))", w), format!("Matches(\"^{}\")", w), format!("AsLower(Matches(\"{}$\"))", w)][k].clone();
        let rules: Vec<String> = ["TransactionDescription(M)", "Account(M)", "PostingFlagTag(M)", "PostingValueTag(\"k\", M)"].iter().map(|p| format!("Rule(action: AddPostingFlagTag(\"x\"), predicate: {}, result: Continue)", p.replace("(M)", &format!("({})", m)).replace(" M)", &format!(" {})", m)))).collect();
        let mut js = String::new();
        for d in short.iter().filter(|d| !d.is_empty() && !d.contains(' ')) {
            js.push_str(&format!("2020-01-01 {}\n  {}  GBP1\n  ; :{}:\n  ; k: {}\n", d, d, d, d));
        }
        e.sut.put("a.journal", js);
        e.sut.put("r.ron", format!("[Chain(\"start\", [{}])]", rules.join(",")));
        e.case(true, &i);
        run(e, &sv(&["apply-rules", "-o", "out.journal", "a.journal", "table", "r.ron"]), &["out.journal"], &|| format!("rules:\n{}", rules.join("\n")))
    });
    // Many of one thing beside each other.
    let sizes = [1usize, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 4097, 20_000];
    c.par("many in rules", sizes.len() * 9, |e, i| {
        let mut g = Dig(i);
        let (n, k) = (*g.of(&sizes), g.take(9));
        let list = |x: &str| (0..n).map(|_| x).collect::<Vec<_>>().join(", ");
        let rule = |a: &str, p: &str| format!("Rule(action: {}, predicate: {}, result: Continue)", a, p);
        let start = match k {
            0 => rule(&format!("All([{}])", list("Noop")), "True"),
            1 => rule(&format!("All([{}])", list("JumpChain(\"x\")")), "True"),
            2 => rule("Noop", &format!("All([{}])", list("True"))),
            3 => rule("Noop", &format!("Any([{}])", list("Not(True)"))),
            4 => list(&rule("AddPostingFlagTag(\"t\")", "True")),
            5 => rule(&format!("All([{}])", list("AddPostingFlagTag(\"t\")")), "True"),
            6 => rule(&format!("SetAccount(\"{}\")", "a".repeat(n)), &format!("Account(Eq(\"{}\"))", "b".repeat(n))),
            7 => rule("Noop", &format!("TransactionDescription(Matches(\"{}\"))", vec!["x"; n].join("|"))),
            _ => rule(&format!("All([All([{}]), All([{}])])", list("Noop"), list("Noop")), "True"),
        };
        e.sut.put("a.journal", journal);
        e.sut.put("r.ron", format!("[Chain(\"start\", [{}]), Chain(\"x\", [])]", start));
        e.case(true, &i);
        run(e, &sv(&["apply-rules", "-o", "out.journal", "a.journal", "table", "r.ron"]), &["out.journal"], &|| format!("kind {} with {}", k, n))
    });
    // Years in all dates of statements.
    let years = ["0", "00", "0000", "0001", "1", "19", "0099", "999", "1000", "1582", "1818", "1899", "1900", "1929", "1969", "1970", "2019", "2020", "2038", "2108", "2109", "2110", "9999", "10000", "32767", "32768", "65536", "262142", "262143", "262144", "2147483647", "2147483648", "-1", "+2020", "-262144"];
    c.par("years", years.len() * 7, |e, i| {
        let mut g = Dig(i);
        let (y, k) = (*g.of(&years), g.take(7));
        let kind = [Kind3::Pdf, Kind3::Pdf, Kind3::Pdf, Kind3::Csv, Kind3::Pp, Kind3::Csv, Kind3::Pp][k];
        let (args, _, _) = small_import(c, e, kind, &Ns::Default);
        match k {
            0 | 1 | 2 => e.sut.put("ocr.tsv", super::imports::pdf_with_year(y, k)),
            _ => {
                // The statement is not in UTF-8.
                let t: String = e.sut.get("in.csv").unwrap().iter().map(|b| *b as char).collect();
                let t = t.replacen("2019", y, if k > 4 { 1 } else { 9 });
                e.sut.put("in.csv", t.chars().map(|x| x as u8).collect::<Vec<u8>>());
            }
        }
        e.case(true, &i);
        run(e, &[sv(&["import", "-o", "out.journal"]), args].concat(), &["out.journal"], &|| format!("years {} of kind {}", y, k))
    });
    let files = [1usize, 2, 10, 100, 127, 128, 129, 300, 1000, 3000];
    c.par("includes of includes", files.len() * 2, |e, i| {
        let mut g = Dig(i);
        let (n, ring) = (*g.of(&files), g.take(2) == 1);
        for k in 0..n {
            let inc = if k + 1 < n { format!("Include(\"r{}.ron\"), ", k + 1) } else if ring { s("Include(\"r0.ron\"), ") } else { s("") };
            e.sut.put(&format!("r{}.ron", k), format!("[{}Chain(\"{}\", [])]", inc, if k == 0 { s("start") } else { format!("c{}", k) }));
        }
        e.sut.put("a.journal", journal);
        e.case(true, &i);
        run(e, &sv(&["apply-rules", "-o", "out.journal", "a.journal", "table", "r0.ron"]), &["out.journal"], &|| format!("{} files including each other, ring: {}", n, ring))
    });
    c.par("nesting in lookups", depths.len() * 3, |e, i| {
        let mut g = Dig(i);
        let (n, k) = (*g.of(&depths), g.take(3));
        let (args, _, _) = small_import(c, e, Kind3::Csv, &Ns::Lookup(vec![(s("****12345"), s("x"))]));
        e.sut.put("lookup.ron", ["[", "{\"a\":", "("][k].repeat(n) + &["]", "}", ")"][k].repeat(n));
        e.case(true, &i);
        run(e, &[sv(&["import", "-o", "out.journal"]), args].concat(), &["out.journal"], &|| format!("kind {} nested {} deep", k, n))
    });
    // Random-looking bytes: every byte, every pair of bytes at the start.
    c.par("bytes", 256 * 6, |e, i| {
        let b = (i % 256) as u8;
        let k = i / 256;
        e.case(true, &i);
        let content = [vec![b], vec![b; 3], [b"2020-01-01 ".as_slice(), &[b], b"\n  a  GBP1\n"].concat(), [b"2020-01-01 x\n  ".as_slice(), &[b], b"  GBP1\n"].concat(), [b"2020-01-01 x\n  a  ".as_slice(), &[b], b"1\n"].concat(), [b"2020-01-01 x\n  a  1\n  ; ".as_slice(), &[b], b"\n"].concat()][k].clone();
        e.sut.put("a.journal", &content);
        run(e, &sv(&["generate-fingerprints", "a.journal"]), &["a.journal"], &|| content.escape_ascii().to_string())
    });
}

/// Long texts of wide characters in everything that the messages about a refused merge could show.
fn widen(fs: &mut Files, field: usize, text: &str) {
    for (name, ts) in fs.iter_mut() {
        if field == 0 {
            *name = format!("{}{}", name.trim_end_matches(".journal"), text.chars().take(60).collect::<String>());
        }
        for t in ts {
            match field {
                1 => t.desc.push_str(text),
                2 => t.code = Some(text.into()),
                3 => t.c.lines.push(text.into()),
                _ => {}
            }
            for p in &mut t.posts {
                match field {
                    4 => p.acct.push_str(text),
                    5 => p.c.flags = p.c.flags.iter().map(|f| format!("{}{}", f, text)).collect(),
                    6 => p.c.lines.push(text.into()),
                    7 => {
                        p.c.kv.insert("k".into(), text.into());
                    }
                    8 => {
                        p.c.kv.insert("source-file".into(), text.into());
                    }
                    9 => p.amt = p.amt.clone().map(|mut a| {
                        a.a.c = text.into();
                        a
                    }),
                    _ => {}
                }
            }
        }
    }
}

fn refusals(c: &Ctx) {
    let mut texts: Vec<String> = Vec::new();
    for (ch, n) in [("\u{e9}", 2), ("\u{20ac}", 3), ("\u{1f600}", 4), ("\u{130}", 1)] {
        texts.extend((0..n).map(|k| "xxx"[..k].to_string() + &ch.repeat(200)));
    }
    let ways = [(1usize, 0usize, 0usize), (3, 1, 2)];
    c.par("refused merges with long texts", CONFLICTS * ways.len() * 2 * 10 * texts.len(), |e, i| {
        let mut g = Dig(i);
        let (kind, (nt, t, p), un, field, text) = (g.take(CONFLICTS), *g.of(&ways), g.take(2) == 1, g.take(10), g.of(&texts));
        let mut fs = conflict_files(kind, nt, t, p);
        widen(&mut fs, field, text);
        put_files(e, &fs);
        e.case(true, &i);
        let mut args = sv(&["merge", "-o", "out.journal"]);
        if un {
            args.extend(sv(&["-u", "un.journal"]));
        }
        args.extend(fs.iter().map(|f| f.0.clone()));
        run(e, &args, if un { &["out.journal", "un.journal"] } else { &["out.journal"] }, &|| format!("conflict of kind {} with {:?} in field {}", kind, text, field))
    });
}
