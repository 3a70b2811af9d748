//! C01-C07 and C26: merging.

use crate::ctx::{fail, Ctx, Env, R};
use crate::ensure;
use crate::journal::*;
use crate::merge::*;

pub const D1: &str = "2020-01-10";
pub const D2: &str = "2020-01-11";

/// Mixed-radix decoding of a case number.
pub struct Dig(pub usize);
impl Dig {
    pub fn take(&mut self, n: usize) -> usize {
        let d = self.0 % n;
        self.0 /= n;
        d
    }
    pub fn of<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.take(v.len())]
    }
}

pub fn fp(s: &str) -> String {
    format!("fp-{}", s)
}

pub fn post(acct: &str, a: &str, fps: &[&str]) -> Post {
    let mut p = Post { acct: acct.into(), ..Post::default() };
    if !a.is_empty() {
        p.amt = Some(pamt(a));
    }
    for f in fps {
        p.c.flags.insert(fp(f));
    }
    p
}

pub fn unk(mut p: Post) -> Post {
    p.c.flags.insert(UNKNOWN.into());
    p
}

pub fn bal(mut p: Post, b: &str) -> Post {
    p.bal = match b {
        "" => None,
        "0" => Some(Bal::Zero),
        b => Some(Bal::Amt(amt(b))),
    };
    p
}

pub fn trn(date: &str, desc: &str, posts: Vec<Post>) -> Trn {
    Trn { date: date.into(), desc: desc.into(), posts, ..Trn::default() }
}

// ---------------------------------------------------------------------------------------------
// Families: each gives the number of cases and the files of a case.

pub struct Family {
    pub name: &'static str,
    pub n: usize,
    pub gen: Box<dyn Fn(usize) -> Files + Sync>,
}

const AMTS: &[(&str, &str)] = &[
    ("GBP10.00", "GBP10.00"),
    ("GBP10.00", "GBP10.01"),
    ("GBP10.00", "GBP10"),
    ("GBP10.00", "GBP-10.00"),
    ("GBP10.00", "USD10.00"),
    ("GBP10.00", "10.00 GBP"),
    ("GBP10.00", ""),
    ("", ""),
    ("GBP10.00 @ USD2", "GBP10.00 @ USD2"),
    ("GBP10.00 @ USD2", "GBP10.00"),
    ("GBP10.00", "GBP10.00 @ USD2"),
    ("GBP10.00 @ USD2", "GBP10.00 @@ USD2"),
    ("GBP10.00 @ USD2", "GBP10.00 @ USD3"),
    ("GBP10.00 {USD2}", "GBP10.00"),
    ("GBP10.00 {USD2}", "GBP10.00 {USD3}"),
    ("GBP10.00 {USD2}", "GBP10.00 {{USD2}}"),
    ("GBP10.00 {USD2} @ USD3", "GBP10.00 {USD2} @ USD3"),
    ("GBP0.00", "GBP0"),
    ("gbp10.00", "GBP10.00"),
    ("GBP123456789012345.678", "GBP123456789012345.678"),
    ("GBP123456789012345.678", "GBP123456789012345.679"),
    ("-10.5 kg", "-10.50 kg"),
    ("£10", "£10.0"),
];
const BALS: &[(&str, &str)] = &[
    ("", ""),
    ("GBP5.00", "GBP5.00"),
    ("GBP5.00", "GBP6.00"),
    ("GBP5.00", ""),
    ("", "GBP5.00"),
    ("GBP5.00", "GBP5"),
    ("GBP5.00", "GBP-5.00"),
    ("GBP5.00", "USD5.00"),
    ("0", "0"),
    ("0", ""),
    ("0", "GBP7.00"),
];
const ACCTS: &[(&str, &str)] = &[
    ("assets:a", "assets:a"),
    ("assets:a", "assets:b"),
    ("assets:a", "assets:a:sub"),
    ("assets:a:sub", "assets:a"),
    ("assets:a", "Assets:A"),
    ("assets:a b", "assets:a b"),
    ("assets:unknown", "assets:a"),
];
const FPS: &[(&[&str], &[&str])] = &[
    (&["a"], &["b"]),
    (&["a"], &["a", "b"]),
    (&["a", "x"], &["b", "x"]),
    (&["a", "x"], &["a", "x"]),
    (&["a"], &["ab"]),
    (&["n-a"], &["n-A"]),
    (&["al.1.n-abc+/="], &["al.1.n-abc+/"]),
    (&["x", "a", "c"], &["y", "c", "z"]),
];

fn pair(amts: usize, bals: usize, accts: usize, unks: usize, date: usize, fps: usize, kind: usize, same: usize) -> Files {
    let (a1, a2) = AMTS[amts];
    let (b1, b2) = BALS[bals];
    let (c1, c2) = ACCTS[accts];
    let (f1, f2) = FPS[fps];
    let mut p = bal(post(c1, a1, f1), b1);
    let mut q = bal(post(c2, a2, f2), b2);
    if unks & 1 != 0 {
        p = unk(p);
    }
    if unks & 2 != 0 {
        q = unk(q);
    }
    let kinds = [(Kind::Real, Kind::Real), (Kind::Real, Kind::Bal), (Kind::Bal, Kind::Bal), (Kind::Unbal, Kind::Real)];
    p.kind = kinds[kind].0;
    q.kind = kinds[kind].1;
    let t = trn(D1, "dest", vec![p]);
    let u = trn(if date == 0 { D1 } else { D2 }, "src", vec![q]);
    if same == 1 {
        files(vec![vec![t, u]])
    } else {
        files(vec![vec![t], vec![u]])
    }
}

pub fn fam_pair(thorough: bool) -> Vec<Family> {
    let (na, nb, nc, nf) = (AMTS.len(), BALS.len(), ACCTS.len(), FPS.len());
    if thorough {
        return vec![Family {
            name: "posting pairs, all criteria crossed",
            n: na * nb * nc * 4 * 2 * nf * 4 * 2,
            gen: Box::new(move |i| {
                let mut d = Dig(i);
                pair(d.take(na), d.take(nb), d.take(nc), d.take(4), d.take(2), d.take(nf), d.take(4), d.take(2))
            }),
        }];
    }
    vec![
        Family {
            name: "posting pairs, values",
            n: na * nb * nc * 4,
            gen: Box::new(move |i| {
                let mut d = Dig(i);
                pair(d.take(na), d.take(nb), d.take(nc), d.take(4), 0, 0, 0, 0)
            }),
        },
        Family {
            name: "posting pairs, kinds",
            n: 8 * 3 * 3 * 4 * 2 * nf * 4 * 2,
            gen: Box::new(move |i| {
                let mut d = Dig(i);
                pair(d.take(8), d.take(3), d.take(3), d.take(4), d.take(2), d.take(nf), d.take(4), d.take(2))
            }),
        },
    ]
}

fn dest_alpha(i: usize, f: &str) -> Post {
    match i {
        0 => post("assets:a", "GBP10", &[f]),
        1 => unk(post("assets:a", "GBP10", &[f])),
        2 => post("assets:b", "GBP10", &[f]),
        3 => post("assets:a", "GBP20", &[f]),
        4 => bal(post("assets:a", "GBP10", &[f]), "GBP5"),
        5 => bal(post("assets:a", "GBP10", &[f]), "GBP6"),
        _ => post("assets:a", "", &[f]),
    }
}

fn src_alpha(i: usize, own: &str) -> Post {
    match i {
        0 => post("assets:a", "GBP10", &[own]),
        1 => post("assets:a", "GBP20", &[own]),
        2 => post("assets:z", "GBP99", &["p1", own]),
        3 => post("assets:z", "GBP99", &["p2", own]),
        4 => post("assets:z", "GBP99", &["p1", "p2", own]),
        5 => unk(post("assets:u", "GBP10", &[own])),
        6 => bal(post("assets:a", "GBP10", &[own]), "GBP5"),
        7 => post("assets:c", "GBP77", &[own]),
        8 => post("assets:b", "GBP10", &[own]),
        _ => post("assets:a", "", &[own]),
    }
}

pub fn fam_two() -> Vec<Family> {
    vec![
        Family {
            name: "two existing postings, one incoming",
            n: 7 * 7 * 7 * 10,
            gen: Box::new(|i| {
                let mut d = Dig(i);
                let mut fs = two_dest(d.take(7), d.take(7), d.take(7));
                let n = name(fs.len());
                fs.push((n, vec![trn(D1, "src", vec![src_alpha(d.take(10), "s1")])]));
                fs
            }),
        },
        Family {
            name: "two existing postings, two incoming",
            n: 7 * 7 * 7 * 10 * 10 * 2,
            gen: Box::new(|i| {
                let mut d = Dig(i);
                let mut fs = two_dest(d.take(7), d.take(7), d.take(7));
                let n = name(fs.len());
                let (a, b) = (src_alpha(d.take(10), "s1"), src_alpha(d.take(10), "s2"));
                fs.push((
                    n,
                    if d.take(2) == 0 {
                        vec![trn(D1, "src", vec![a, b])]
                    } else {
                        vec![trn(D1, "src1", vec![a]), trn(D1, "src2", vec![b])]
                    },
                ));
                fs
            }),
        },
    ]
}

fn two_dest(layout: usize, x: usize, y: usize) -> Files {
    let (p, q) = (dest_alpha(x, "p1"), dest_alpha(y, "p2"));
    let src = |mut t: Trn, s: &str| {
        t.c.kv.insert(SRC.into(), s.into());
        t
    };
    match layout {
        0 => files(vec![vec![trn(D1, "t1", vec![p, q])]]),
        1 => files(vec![vec![trn(D1, "t1", vec![p]), trn(D1, "t2", vec![q])]]),
        2 => files(vec![vec![trn(D1, "t1", vec![p]), trn(D2, "t2", vec![q])]]),
        3 => files(vec![vec![trn(D1, "t1", vec![p])], vec![trn(D1, "t2", vec![q])]]),
        4 => files(vec![vec![src(trn(D1, "t1", vec![p]), "s2"), src(trn(D1, "t2", vec![q]), "s1")]]),
        5 => files(vec![vec![trn(D2, "t1", vec![p])], vec![trn(D1, "t2", vec![q])]]),
        // Brought together in one transaction of another date.
        _ => files(vec![
            vec![trn(D1, "t1", vec![p])],
            vec![trn(D2, "t2", vec![post("assets:z", "GBP99", &["p1", "k"]), q])],
        ]),
    }
}

/// Source journals for sequences of merges; they are made to collide.
pub fn ops() -> Vec<Vec<Trn>> {
    let a = |f: &[&str]| post("assets:a", "GBP10", f);
    let b = |f: &[&str]| post("assets:b", "GBP-10", f);
    let u = |f: &[&str]| unk(post("assets:unknown", "GBP10", f));
    let x = |f: &[&str]| unk(post("expenses:unknown", "GBP-10", f));
    let one = |d: &str, p: Post| vec![trn(d, "one", vec![p])];
    let two = |d: &str, p: Post, q: Post| vec![trn(d, "two", vec![p, q])];
    let mut v = vec![
        one(D1, a(&["a"])),
        one(D1, a(&["b"])),
        one(D1, a(&["a", "b"])),
        one(D2, a(&["a"])),
        one(D1, u(&["c"])),
        one(D1, bal(u(&["c", "d"]), "GBP50")),
        one(D1, bal(a(&["d"]), "GBP60")),
        two(D1, u(&["c"]), x(&["e"])),
        two(D1, a(&["a"]), b(&["f"])),
        two(D1, b(&["g"]), u(&["h"])),
        two(D1, x(&["e"]), x(&["i"])),
        two(D2, u(&["c"]), b(&["j"])),
        one(D1, b(&["e", "f"])),
        one(D1, post("assets:c", "", &["k"])),
        two(D1, post("assets:c", "GBP3", &["k", "l"]), a(&["m"])),
        [one(D1, a(&["n"])), one(D1, a(&["o"]))].concat(),
        [one(D1, u(&["n"])), one(D2, u(&["p"]))].concat(),
        [two(D1, a(&["q"]), b(&["r"])), two(D1, a(&["s"]), b(&["t"]))].concat(),
        [two(D1, u(&["q2"]), x(&["r2"])), two(D1, u(&["s2"]), x(&["t2"]))].concat(),
        one(D2, b(&["r"])),
    ];
    // The same with other details, to see them merged or kept.
    let mut w = two(D1, u(&["c"]), x(&["e"]));
    w[0].st = St::Clr;
    w[0].code = Some("123".into());
    w[0].posts[0].st = St::Pend;
    w[0].posts[0].c = w[0].posts[0].c.clone().val("k", "1").line("note one").flag("extra");
    w[0].c = w[0].c.clone().val("trnkey", "v").line("about it");
    v.push(w.clone());
    w[0].desc = "other".into();
    w[0].posts[0].st = St::Clr;
    w[0].posts[0].c = w[0].posts[0].c.clone().val("k", "2").line("note two");
    v.push(w.clone());
    for (i, t) in [one(D1, a(&["v"])), one(D1, a(&["w"]))].iter().enumerate() {
        let mut t = t.clone();
        t[0].c.kv.insert(SRC.into(), format!("src{}", 2 - i));
        t.extend(one(D2, b(&["y"])));
        v.push(t);
    }
    v
}

pub fn fam_seq(depth: usize) -> Vec<Family> {
    let o = ops();
    (1..=depth)
        .map(|d| {
            let o = o.clone();
            Family {
                name: ["", "sequences of 1", "sequences of 2", "sequences of 3", "sequences of 4"][d],
                n: o.len().pow(d as u32),
                gen: Box::new(move |i| {
                    let mut g = Dig(i);
                    files((0..d).map(|_| g.of(&o).clone()).collect())
                }),
            }
        })
        .collect()
}

/// Names in order of appearance.
#[derive(Default)]
struct Seen(Vec<String>);
impl Seen {
    fn at(&mut self, x: &str) -> usize {
        self.0.iter().position(|y| y == x).unwrap_or_else(|| {
            self.0.push(x.into());
            self.0.len() - 1
        })
    }
}

const SKINS: usize = 16;

/// The same files with other names, dates and amounts: equal ones stay equal, others stay different.
fn skin(mut fs: Files, k: usize) -> Files {
    const NATO: [&str; 26] = [
        "alfa", "bravo", "charlie", "delta", "echo", "foxtrot", "golf", "hotel", "india", "juliett", "kilo", "lima", "mike", "november", "oscar", "papa", "quebec", "romeo", "sierra", "tango",
        "uniform", "victor", "whiskey", "xray", "yankee", "zulu",
    ];
    let (mut accts, mut fps, mut descs, mut comms, mut dates) = (Seen::default(), Seen::default(), Seen::default(), Seen::default(), Seen::default());
    let acct = |n: usize| match k {
        0 => vec!["a"; n + 1].join(":"),
        1 => format!("資産:銀行 {}", n),
        2 => format!("Assets:Bank (Joint) [x] {}", n),
        3 => format!("{}{}", "expenses:".repeat(12), n),
        4 => ["a", "A", "á", "à", "a:", "A:", ":a", "ä"][n % 8].to_string() + &"+".repeat(n / 8),
        5 => format!("{}", 100 - n),
        6 => format!("assets:unknown{}", "n".repeat(n)),
        7 => format!("a*!/.-_#'{}'b", n),
        _ => format!("assets:{}", NATO[n % 26].to_string() + &"x".repeat(n / 26)),
    };
    let id = |n: usize| match k {
        0 => "a".repeat(n + 1),
        1 => format!("1.nwcsv6.{}==", n),
        2 => format!("{:08}-{}", n, "0".repeat(40)),
        3 => format!("{}", NATO[25 - n % 26].to_string() + &"x".repeat(n / 26)),
        4 => format!("é{}", n),
        5 => ["x", "X", "x-", "-x", "fp-x", "fp-fp-x", "x/", "x+", "x=", "x.", "xx", "Xx"][n % 12].to_string() + &"_".repeat(n / 12),
        6 => format!("{}+/", 1000 - n),
        7 => format!("cand-{}", n),
        _ => format!("{}{}", ['z', 'Z', '0', 'm'][n % 4], n),
    };
    let desc = |n: usize| match k {
        0 => "same".to_string(),
        1 => format!("喫茶店 {}", n),
        2 => format!("{}", 9 - n % 10) + &"!".repeat(n / 10),
        3 => format!("a (b) {}", n),
        4 => NATO[25 - n % 26].to_string() + &" x".repeat(n / 26),
        _ => format!("shop: no. {} * ! | =", n),
    };
    let comm = |n: usize| match k {
        0 => "G".repeat(n + 1),
        1 => ["£", "€", "¥", "元"][n % 4].repeat(1 + n / 4),
        2 => ["gbp", "GBP", "Gbp"][n % 3].repeat(1 + n / 3),
        _ => ["USD", "EUR", "CHF"][n % 3].repeat(1 + n / 3),
    };
    let date = |n: usize, old: &str| match (k, n) {
        (0, 0) => "2019-12-31".into(),
        (0, 1) => "2020-01-01".into(),
        (1, 0) => "2020-02-29".into(),
        (1, 1) => "2020-03-01".into(),
        (2, 0) => "1970-01-01".into(),
        (2, 1) => "1969-12-31".into(),
        (3, 0) => "0999-05-05".into(),
        (3, 1) => "9999-05-05".into(),
        (4, 0) => "2020-05-05".into(),
        (4, 1) => "2021-05-05".into(),
        (5, 0) => "2020-05-05".into(),
        (5, 1) => "2020-06-05".into(),
        (6, 0) => "2020-10-09".into(),
        (6, 1) => "2020-09-10".into(),
        _ => old.into(),
    };
    let num = |a: &mut Amt, comms: &mut Seen| {
        if !a.c.is_empty() {
            a.c = comm(comms.at(&a.c));
        }
        match k {
            8 => a.left = !a.left,
            9 => a.q = a.q.negate(),
            10 => a.q.s += 20,
            11 => a.q.m *= 10_000_000_000_000_000_000,
            12 => {
                a.q.m *= 1_000_000;
                a.q.s += 6;
            }
            13 => a.q.m += 9_007_199_254_740_993 * 10u128.pow(a.q.s),
            14 => {
                a.q.m *= 10;
                a.q.s += 6;
            }
            _ => {}
        }
    };
    for (_, ts) in &mut fs {
        for t in ts {
            t.date = date(dates.at(&t.date), &t.date);
            t.desc = desc(descs.at(&t.desc));
            for p in &mut t.posts {
                p.acct = acct(accts.at(&p.acct));
                let f: Vec<String> = p.fps().into_iter().collect();
                for f in &f {
                    p.c.flags.remove(f);
                }
                for f in f {
                    p.c.flags.insert(fp(&id(fps.at(&f))));
                }
                if let Some(a) = &mut p.amt {
                    num(&mut a.a, &mut comms);
                    for x in [&mut a.lot, &mut a.price] {
                        if let Price::Unit(b) | Price::Total(b) = x {
                            num(b, &mut comms);
                        }
                    }
                }
                if let Some(Bal::Amt(a)) = &mut p.bal {
                    num(a, &mut comms);
                }
                if k == 15 {
                    p.kind = Kind::Bal;
                }
            }
        }
    }
    fs
}

/// Small merges under other names, which only have to be equal or different.
pub fn fam_renamed(thorough: bool) -> Vec<Family> {
    let mut v = fam_seq(2);
    v.extend(fam_two());
    if !thorough {
        v.truncate(3);
    }
    let v: Vec<Family> = v.into_iter().filter(|f| f.n > 100).collect();
    let n = v.iter().map(|f| f.n).sum::<usize>() * SKINS;
    vec![Family {
        name: "small merges under other names",
        n,
        gen: Box::new(move |i| {
            let (k, mut i) = (i % SKINS, i / SKINS);
            for f in &v {
                if i < f.n {
                    return skin((f.gen)(i), k);
                }
                i -= f.n;
            }
            unreachable!()
        }),
    }]
}

pub const SIZES: &[usize] = &[
    2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 21, 25, 26, 31, 32, 33, 40, 50, 51, 63, 64, 65, 66, 99, 100, 101, 127, 128,
    129, 130, 200, 255, 256, 257, 258,
];

pub fn fam_scale(max: usize) -> Vec<Family> {
    let sizes: Vec<usize> = SIZES.iter().copied().filter(|n| *n <= max).collect();
    let ns = sizes.len();
    vec![Family {
        name: "sizes",
        n: 15 * ns,
        gen: Box::new(move |i| {
            let mut d = Dig(i);
            let kind = d.take(15);
            scale(kind, sizes[d.take(ns)])
        }),
    }]
}

pub fn scale(kind: usize, n: usize) -> Files {
    let one = |k: usize, s: &str| post("assets:a", "GBP10", &[&format!("{}{}", s, k)]);
    let money = |k: usize| format!("GBP{}.00", k + 1);
    let r = 0..n;
    files(match kind {
        // n candidates in transactions of their own.
        0 => vec![
            r.map(|k| trn(D1, &format!("t{}", k), vec![one(k, "p")])).collect(),
            vec![trn(D1, "src", vec![one(0, "s"), post("assets:b", "GBP-10", &["s-b"])])],
        ],
        // n candidates in one transaction.
        1 => vec![
            vec![trn(D1, "t", r.map(|k| one(k, "p")).collect())],
            vec![trn(D1, "src", vec![post("assets:b", "GBP-10", &["s-b"]), one(0, "s")])],
        ],
        // Re-import of n transactions in reverse, plus one new.
        2 => {
            let a: Vec<Trn> = r
                .map(|k| trn(D1, &format!("t{}", k), vec![one(k, "p"), post("assets:b", "GBP-10", &[&format!("q{}", k)])]))
                .collect();
            let mut b = a.clone();
            b.reverse();
            b.push(trn(D1, "new", vec![post("assets:c", "GBP1", &["new"])]));
            vec![a, b]
        }
        // n postings in one transaction, then one more through a sibling.
        3 => vec![
            vec![trn(D1, "t", (0..n).map(|k| post("assets:a", &money(k), &[&format!("p{}", k)])).collect())],
            vec![trn(
                D1,
                "src",
                vec![post("assets:z", "GBP-1", &["new"]), post("assets:z", "GBP-2", &[&format!("p{}", n - 1), "alt"])],
            )],
        ],
        // n files with a transaction each, then all of them again in one file.
        4 => {
            let mut v: Vec<Vec<Trn>> =
                (0..n.min(70)).map(|k| vec![trn(D1, &format!("t{}", k), vec![post("assets:a", &money(k), &[&format!("p{}", k)])])]).collect();
            v.push(v.iter().flatten().cloned().collect());
            v
        }
        // Fingerprints accumulate on a posting.
        5 => {
            let n = n.min(70);
            let mut v: Vec<Vec<Trn>> = (0..n)
                .map(|k| vec![trn(D1, "t", vec![post("assets:a", "GBP10", &[&format!("p{}", k), &format!("p{}", k + 1)])])])
                .collect();
            v.push(vec![trn(D2, "last", vec![post("assets:b", "GBP11", &["p0"])])]);
            v
        }
        // Tags, values and lines accumulate on a posting.
        6 => {
            let n = n.min(70);
            (0..n)
                .map(|k| {
                    let mut p = post("assets:a", "GBP10", &["p"]);
                    p.c = p.c.flag(&format!("flag{}", k)).val(&format!("key{}", k), "v").val("shared", &k.to_string()).line(&format!("line {}", k)).line("same line");
                    vec![trn(D1, "t", vec![p])]
                })
                .collect()
        }
        // n sources in one file.
        7 => vec![(0..n)
            .map(|k| {
                let mut t = trn(D1, &format!("t{}", k), vec![post("assets:a", &money(k), &[&format!("p{}", k)])]);
                t.c.kv.insert(SRC.into(), format!("source{:03}", (k * 7) % n));
                t
            })
            .collect()],
        // n dates, latest first.
        8 => vec![(0..n)
            .map(|k| {
                let k = n - 1 - k;
                trn(
                    &format!("20{:02}-{:02}-{:02}", 10 + k / 60, 1 + (k / 5) % 12, 1 + (k % 5) * 6),
                    &format!("t{}", k),
                    vec![post("assets:a", "GBP10", &[&format!("p{}", k)])],
                )
            })
            .collect()],
        // n soft matches by amount, in reverse.
        9 => {
            let a: Vec<Trn> = r.map(|k| trn(D1, &format!("t{}", k), vec![post("assets:a", &money(k), &[&format!("p{}", k)])])).collect();
            let mut b: Vec<Trn> = (0..n)
                .map(|k| trn(D1, &format!("s{}", k), vec![unk(post("assets:u", &money(k), &[&format!("s{}", k)])), post("assets:w", "", &[&format!("w{}", k)])]))
                .collect();
            b.reverse();
            vec![a, b]
        }
        // n ambiguous transactions.
        10 => vec![
            vec![trn(D1, "t", vec![one(0, "p"), one(1, "p")])],
            r.map(|k| trn(D1, &format!("s{}", k), vec![one(k, "s")])).collect(),
            vec![trn(D1, "later", vec![post("assets:b", "GBP12", &["s0"])])],
        ],
        // n postings of one source into n postings of one transaction, plus a new one between.
        11 => vec![
            vec![trn(D1, "t", (0..n).map(|k| post("assets:a", &money(k), &[&format!("p{}", k)])).collect())],
            vec![trn(
                D1,
                "s",
                (0..n)
                    .map(|k| if k == n / 2 { post("assets:new", "GBP0.5", &["new"]) } else { post("assets:a", &money(k), &[&format!("s{}", k)]) })
                    .collect(),
            )],
        ],
        // All of the candidates have n fingerprints.
        12 => {
            let n = n.min(70);
            let f: Vec<String> = (0..n).map(|k| format!("p{}", k)).collect();
            let g: Vec<String> = (0..n).map(|k| format!("q{}", k)).collect();
            vec![
                vec![trn(
                    D1,
                    "t",
                    vec![
                        post("assets:a", "GBP10", &f.iter().map(String::as_str).collect::<Vec<_>>()),
                        post("assets:a", "GBP10", &g.iter().map(String::as_str).collect::<Vec<_>>()),
                    ],
                )],
                vec![trn(D1, "s", vec![post("assets:a", "GBP10", &["s"])])],
            ]
        }
        // n files that each soft match the first.
        13 => (0..n.min(70)).map(|k| vec![trn(D1, &format!("t{}", k), vec![one(k, "p")])]).collect(),
        // Long texts.
        _ => {
            let long: String = (0..n).map(|k| char::from(b'a' + (k % 26) as u8)).collect();
            let mut t = trn(D1, &format!("d {}", long), vec![post(&format!("assets:{}", long), "GBP10", &[&format!("x-{}", long)])]);
            t.posts[0].c = t.posts[0].c.clone().flag(&long).val(&long, &long).line(&format!("text {}", long));
            let mut u = t.clone();
            u.posts[0].c.flags.insert(fp(&format!("y-{}", long)));
            u.posts[0].c = u.posts[0].c.clone().val("short", "v").line("text");
            vec![vec![t], vec![u]]
        }
    })
}

/// One feature of a transaction or of its posting `k`.
type Feature = (&'static str, fn(&mut Trn, usize));

/// Every feature that a transaction or posting can have, one at a time.
pub fn features() -> Vec<Feature> {
    fn tc(t: &mut Trn, f: impl Fn(Comment) -> Comment) {
        t.c = f(t.c.clone());
    }
    fn pc(t: &mut Trn, k: usize, f: impl Fn(Comment) -> Comment) {
        t.posts[k].c = f(t.posts[k].c.clone());
    }
    fn am(t: &mut Trn, k: usize, a: &str) {
        t.posts[k].amt = if a.is_empty() { None } else { Some(pamt(a)) };
    }
    fn ba(t: &mut Trn, k: usize, b: &str) {
        t.posts[k] = bal(t.posts[k].clone(), b);
    }
    vec![
        ("none", |_, _| {}),
        ("effective date before", |t, _| t.edate = Some("2019-12-30".into())),
        ("effective date after", |t, _| t.edate = Some("2020-01-12".into())),
        ("effective date the same", |t, _| t.edate = Some(t.date.clone())),
        ("day before", |t, _| t.date = "2020-01-09".into()),
        ("day after", |t, _| t.date = "2020-01-11".into()),
        ("month later", |t, _| t.date = "2020-02-10".into()),
        ("year later", |t, _| t.date = "2021-01-10".into()),
        ("day after, effective the same day", |t, _| {
            t.date = "2020-01-11".into();
            t.edate = Some("2020-01-10".into());
        }),
        ("transaction pending", |t, _| t.st = St::Pend),
        ("transaction cleared", |t, _| t.st = St::Clr),
        ("posting pending", |t, k| t.posts[k].st = St::Pend),
        ("posting cleared", |t, k| t.posts[k].st = St::Clr),
        ("code", |t, _| t.code = Some("1".into())),
        ("other code", |t, _| t.code = Some("x y-2".into())),
        ("description with case", |t, _| t.desc = t.desc.to_uppercase()),
        ("description the same", |t, _| t.desc = "shop".into()),
        ("description beyond ASCII", |t, _| t.desc = "Caf\u{e9} \u{a3}10, 5 @ x".into()),
        ("description of one character", |t, _| t.desc = "-".into()),
        ("virtual", |t, k| t.posts[k].kind = Kind::Unbal),
        ("balanced virtual", |t, k| t.posts[k].kind = Kind::Bal),
        ("other account", |t, k| t.posts[k].acct = "assets:b".into()),
        ("account by case", |t, k| t.posts[k].acct = t.posts[k].acct.to_uppercase()),
        ("parent account", |t, k| t.posts[k].acct = "assets".into()),
        ("account below", |t, k| t.posts[k].acct += ":sub account"),
        ("account named unknown", |t, k| t.posts[k].acct = "unknown-account".into()),
        ("unknown account", |t, k| pc(t, k, |c| c.flag(UNKNOWN))),
        ("unknown account, other account", |t, k| {
            t.posts[k].acct = "assets:b".into();
            pc(t, k, |c| c.flag(UNKNOWN));
        }),
        ("no amount", |t, k| am(t, k, "")),
        ("amount other", |t, k| am(t, k, "GBP10.01")),
        ("amount negative", |t, k| am(t, k, "GBP-10.00")),
        ("amount zero", |t, k| am(t, k, "GBP0.00")),
        ("amount with other scale", |t, k| am(t, k, "GBP10.000")),
        ("amount on the other side", |t, k| am(t, k, "10.00 GBP")),
        ("amount in other commodity", |t, k| am(t, k, "USD10.00")),
        ("amount in commodity by case", |t, k| am(t, k, "gbp10.00")),
        ("unit price", |t, k| am(t, k, "GBP10.00 @ USD2")),
        ("total price", |t, k| am(t, k, "GBP10.00 @@ USD2")),
        ("lot price", |t, k| am(t, k, "GBP10.00 {USD2}")),
        ("total lot price", |t, k| am(t, k, "GBP10.00 {{USD2}}")),
        ("lot and unit price", |t, k| am(t, k, "GBP10.00 {USD2} @ USD2")),
        ("balance", |t, k| ba(t, k, "GBP5.00")),
        ("other balance", |t, k| ba(t, k, "GBP5.01")),
        ("balance with other scale", |t, k| ba(t, k, "GBP5")),
        ("negative balance", |t, k| ba(t, k, "GBP-5.00")),
        ("zero balance", |t, k| ba(t, k, "0")),
        ("zero balance in a commodity", |t, k| ba(t, k, "GBP0")),
        ("posting flag", |t, k| pc(t, k, |c| c.flag("x"))),
        ("other posting flag", |t, k| pc(t, k, |c| c.flag("X").flag("thirteen-chars"))),
        ("posting value", |t, k| pc(t, k, |c| c.val("k", "1"))),
        ("other posting value", |t, k| pc(t, k, |c| c.val("k", "2").val("K", "1"))),
        ("empty posting value", |t, k| pc(t, k, |c| c.val("k", ""))),
        ("posting line", |t, k| pc(t, k, |c| c.line("note"))),
        ("other posting lines", |t, k| pc(t, k, |c| c.line("note two").line("note").line("Note"))),
        ("posting line like a tag", |t, k| pc(t, k, |c| c.line("unknown-account fp-z k"))),
        ("transaction flag", |t, _| tc(t, |c| c.flag("x"))),
        ("other transaction flag", |t, _| tc(t, |c| c.flag("y").flag("X"))),
        ("transaction value", |t, _| tc(t, |c| c.val("k", "1"))),
        ("other transaction value", |t, _| tc(t, |c| c.val("k", "2"))),
        ("transaction line", |t, _| tc(t, |c| c.line("note"))),
        ("unknown account tag on the transaction", |t, _| tc(t, |c| c.flag(UNKNOWN))),
        ("fingerprint tag on the transaction", |t, _| tc(t, |c| c.flag("fp-a"))),
        ("unknown account value", |t, k| pc(t, k, |c| c.val(UNKNOWN, "v"))),
        ("fingerprint value", |t, k| pc(t, k, |c| c.val("fp-a", "v").val("fp-zz", ""))),
        ("candidate value", |t, k| pc(t, k, |c| c.val("candidate-fp-a", "v"))),
        ("tag like unknown account", |t, k| pc(t, k, |c| c.flag("unknown-account-x").flag("Unknown-Account").flag("xunknown-account"))),
        ("tag like a fingerprint", |t, k| pc(t, k, |c| c.flag("fp").flag("FP-a").flag("xfp-a").flag("f-a"))),
        ("two fingerprints", |t, k| pc(t, k, |c| c.flag("fp-two").flag("fp-"))),
        ("source of the posting", |t, k| pc(t, k, |c| c.val(SRC, "elsewhere"))),
        ("source flag", |t, _| tc(t, |c| c.flag(SRC))),
        ("named source", |t, _| tc(t, |c| c.val(SRC, "s"))),
        ("empty source", |t, _| tc(t, |c| c.val(SRC, ""))),
    ]
}

/// Pairs of features: one on the existing transaction, one on the incoming one, in each situation.
pub fn fam_feat() -> Vec<Family> {
    const SITUATIONS: usize = 9;
    let f = features();
    let nf = f.len();
    vec![Family {
        name: "pairs of features",
        n: nf * nf * SITUATIONS,
        gen: Box::new(move |i| {
            let mut d = Dig(i);
            let (f1, f2) = (f[d.take(nf)].1, f[d.take(nf)].1);
            let sit = d.take(SITUATIONS);
            let a = |s: &str| post("assets:a", "GBP10.00", &[s]);
            let o = |s: &str| post("assets:o", "GBP-10.00", &[s]);
            let (mut dest, mut src, k, l) = match sit {
                // A soft match; by fingerprint; neither.
                0 => (trn(D1, "shop", vec![a("a"), o("b")]), trn(D1, "src", vec![a("s")]), 0, 0),
                1 => (trn(D1, "shop", vec![a("a"), o("b")]), trn(D1, "src", vec![post("assets:a", "GBP10.00", &["a", "s"])]), 0, 0),
                2 => (trn(D1, "shop", vec![a("a"), o("b")]), trn(D1, "src", vec![post("assets:c", "GBP77", &["s"])]), 0, 0),
                // New next to a match; softly next to a match.
                3 => (trn(D1, "shop", vec![o("b"), a("a")]), trn(D1, "src", vec![o("b"), post("assets:c", "GBP77", &["s"])]), 1, 1),
                4 => (trn(D1, "shop", vec![o("b"), a("a")]), trn(D1, "src", vec![a("s"), o("t")]), 1, 0),
                // Two candidates, one with the feature.
                5 => (trn(D1, "shop", vec![a("a"), a("b")]), trn(D1, "src", vec![a("s")]), 0, 0),
                6 => (trn(D1, "shop", vec![a("a"), o("b"), a("c")]), trn(D1, "src", vec![o("t"), a("s")]), 2, 1),
                // In one file; with more around them.
                7 => (trn(D1, "shop", vec![a("a"), o("b")]), trn(D1, "src", vec![a("s"), o("t")]), 1, 1),
                _ => (trn(D1, "shop", vec![a("a"), o("b")]), trn("2020-01-09", "src", vec![a("s"), o("t")]), 0, 1),
            };
            f1(&mut dest, k);
            f2(&mut src, l);
            match sit {
                7 => files(vec![vec![dest, src]]),
                8 => files(vec![
                    vec![trn("2020-01-12", "first", vec![post("assets:y", "GBP1", &["y"])]), dest, trn(D1, "last", vec![a("z")])],
                    vec![trn(D1, "other", vec![post("assets:w", "GBP1", &["w"])]), src],
                ]),
                _ => files(vec![vec![dest], vec![src]]),
            }
        }),
    }]
}

pub fn fam_fields(thorough: bool) -> Vec<Family> {
    let sts = [St::None, St::Pend, St::Clr];
    let comments: Vec<fn(Comment) -> Comment> = vec![
        |c| c,
        |c| c.flag("x"),
        |c| c.flag("y").val("k", "1"),
        |c| c.flag("x").val("k", "2").val("j", "3"),
        |c| c.line("first text"),
        |c| c.line("second text").line("first text"),
        |c| c.line("First text").val("K", "other").flag("X"),
        |c| c.val("k", "").flag("long-flag-name-here"),
    ];
    let bals = ["", "GBP5", "GBP6", "0"];
    let mk = move |st: usize, ba: usize, un: bool, c: usize, acct: &str, fps: &[&str]| {
        let mut p = bal(post(acct, "GBP10", fps), bals[ba]);
        p.st = sts[st];
        p.c = comments[c](p.c);
        if un {
            p = unk(p);
        }
        p
    };
    let mk1 = mk.clone();
    let mk2 = mk.clone();
    let mut v = vec![
        Family {
            name: "fields: status, balance, account",
            n: 9 * 16 * 4 * 2 * 2,
            gen: Box::new(move |i| {
                let mut d = Dig(i);
                let p = mk1(d.take(3), d.take(4), d.take(2) == 1, 1, "assets:a", &["a"]);
                let soft = d.take(2) == 1;
                let acct = if d.take(2) == 1 { "assets:a" } else { "assets:b" };
                let q = mk1(d.take(3), d.take(4), d.take(2) == 1, 3, acct, if soft { &["b"] } else { &["a", "b"] });
                let mut t = trn(D1, "dest", vec![p, post("assets:o", "GBP1", &["o"])]);
                let mut u = trn(D1, "src", vec![q]);
                t.c = t.c.clone().flag("tflag").val("tkey", "tv").line("t text");
                u.c = u.c.clone().flag("uflag").val("tkey", "uv").val("ukey", "uv").line("u text");
                t.st = St::Pend;
                u.st = St::Clr;
                u.code = Some("77".into());
                u.edate = Some("2020-02-02".into());
                files(vec![vec![t], vec![u]])
            }),
        },
        Family {
            name: "fields: comments",
            n: 8 * 8 * 8 * 4,
            gen: Box::new(move |i| {
                let mut d = Dig(i);
                let (a, b, c) = (d.take(8), d.take(8), d.take(8));
                let un = d.take(4);
                let p = mk2(0, 0, un & 1 == 1, a, "assets:a", &["a"]);
                let q = mk2(0, 0, un & 2 == 2, b, "assets:b", &["a", "b"]);
                let r = mk2(0, 0, true, c, "assets:c", &["b", "c"]);
                files(vec![vec![trn(D1, "t", vec![p])], vec![trn(D1, "u", vec![q])], vec![trn(D2, "v", vec![r])]])
            }),
        },
        Family {
            name: "fields: transaction headers",
            n: 3 * 3 * 2 * 2 * 2 * 2 * 4 * 4 * 2,
            gen: Box::new(move |i| {
                let mut d = Dig(i);
                let head = |d: &mut Dig, s: &str, t: &mut Trn| {
                    t.st = sts[d.take(3)];
                    t.code = [None, Some(format!("c{}", s))][d.take(2)].clone();
                    t.edate = [None, Some(format!("2020-03-0{}", s))][d.take(2)].clone();
                    t.c = match d.take(4) {
                        0 => Comment::default(),
                        1 => Comment::default().flag(&format!("f{}", s)),
                        2 => Comment::default().val("k", s).val(&format!("k{}", s), ""),
                        _ => Comment::default().line(&format!("line {}", s)).flag("f").val("z", "1"),
                    };
                };
                let mut t = trn(D1, "dest trn", vec![post("assets:a", "GBP10", &["a"]), post("assets:b", "", &["b"])]);
                let mut u = trn(D1, "source trn", vec![post("assets:a", "GBP10", &["c"]), post("assets:new", "", &["d"])]);
                head(&mut d, "1", &mut t);
                head(&mut d, "2", &mut u);
                if d.take(2) == 1 {
                    u.date = D2.into();
                    u.posts[0].c.flags.insert(fp("a"));
                }
                files(vec![vec![t], vec![u]])
            }),
        },
    ];
    // Kinds of postings with each status, on both sides.
    v.push(Family {
        name: "fields: kinds",
        n: 9 * 9 * 2 * 3 * 4,
        gen: Box::new(move |i| {
            let kinds = [Kind::Real, Kind::Bal, Kind::Unbal];
            let mut d = Dig(i);
            let (s1, s2, k1, k2) = (sts[d.take(3)], sts[d.take(3)], kinds[d.take(3)], kinds[d.take(3)]);
            let soft = d.take(2) == 1;
            let b = [("", ""), ("", "GBP5"), ("GBP5", "GBP6")][d.take(3)];
            let un = d.take(4);
            let mk = |s: St, k: Kind, b: &str, u: bool, acct: &str, fps: &[&str]| {
                let mut p = bal(post(acct, "GBP10", fps), b);
                (p.st, p.kind) = (s, k);
                p.c = p.c.flag("f").val("k", acct);
                if u { unk(p) } else { p }
            };
            let p = mk(s1, k1, b.0, un & 1 == 1, "assets:a", &["a"]);
            let q = mk(s2, k2, b.1, un & 2 == 2, if un > 0 { "assets:b" } else { "assets:a" }, if soft { &["b"] } else { &["a", "b"] });
            files(vec![vec![trn(D1, "dest", vec![p, post("assets:o", "GBP1", &["o"])])], vec![trn(D1, "src", vec![q])]])
        }),
    });
    // Texts that are nearly the same on both sides, in each place of a comment.
    let names = alike();
    v.push(Family {
        name: "fields: alike",
        n: names.len() * 12 * 8,
        gen: Box::new(move |i| {
            let mut d = Dig(i);
            let (g, pair, place) = (&names[d.take(names.len())], d.take(12), d.take(8));
            let (x, y) = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)][pair % 6];
            let (x, y) = if pair < 6 { (&g[x], &g[y]) } else { (&g[y], &g[x]) };
            // Not all of them can be part of a tag.
            let word = |x: &str| x.chars().all(|c| c.is_alphanumeric() || "-_./".contains(c));
            let place = if word(x) && word(y) { place } else { place % 4 };
            let mut p = post("assets:a", "GBP1", &["a"]);
            let mut q = post("assets:a", "GBP1", &["a", "b"]);
            let (mut t, mut u) = (trn(D1, "dest", vec![]), trn(D1, "src", vec![]));
            for (c, tc, x) in [(&mut p.c, &mut t.c, x), (&mut q.c, &mut u.c, y)] {
                let put = |c: &Comment, x: &str| match place / 2 {
                    0 => c.clone().val("k", x),
                    1 => c.clone().line(&format!("text {}", x)),
                    2 => c.clone().flag(x),
                    _ => c.clone().val(x, "v"),
                };
                if place % 2 == 0 {
                    *c = put(c, x);
                } else {
                    *tc = put(tc, x);
                }
            }
            (t.posts, u.posts) = (vec![p], vec![q]);
            files(vec![vec![t], vec![u]])
        }),
    });
    if thorough {
        v.push(Family {
            name: "fields: chains of three",
            n: 27 * 64 * 8 * 8 * 8,
            gen: Box::new(move |i| {
                let mut d = Dig(i);
                let s = [d.take(3), d.take(3), d.take(3)];
                let b = [d.take(4), d.take(4), d.take(4)];
                let un = d.take(8);
                let c = [d.take(8), d.take(8)];
                let ps: Vec<Post> = (0..3)
                    .map(|k| {
                        mk(
                            s[k],
                            b[k],
                            un >> k & 1 == 1,
                            c[k.min(1)],
                            ["assets:a", "assets:b", "assets:c"][k],
                            [&["a"][..], &["a", "b"][..], &["b"][..]][k],
                        )
                    })
                    .collect();
                files(ps.into_iter().map(|p| vec![trn(D1, "t", vec![p])]).collect())
            }),
        });
    }
    v
}

pub fn fam_order(thorough: bool) -> Vec<Family> {
    let gen = |i: usize, k: usize, nd: usize, nf: usize, srcs: &[&str]| {
        let mut d = Dig(i);
        let mut fs: Vec<Vec<Trn>> = vec![Vec::new(); nf];
        for n in 0..k {
            let dates = ["2020-01-10", "2020-01-09", "2019-12-31", "2020-10-01"];
            let mut t = trn(dates[d.take(nd)], &format!("t{}", n), vec![post("assets:a", &format!("GBP{}", n + 1), &[&format!("p{}", n)])]);
            let f = d.take(nf);
            let s = srcs[d.take(srcs.len())];
            if !s.is_empty() {
                t.c.kv.insert(SRC.into(), s.into());
            }
            fs[f].push(t);
        }
        files(fs)
    };
    let s3: &[&str] = &["", "s1", "S0"];
    let s2: &[&str] = &["", "s1"];
    let perm = |i: usize| {
        // Insertions of postings into existing transactions, through siblings.
        let mut d = Dig(i);
        let mk = |k: usize, n: usize| match k {
            0 => post("assets:a", "GBP1", &["a", &format!("a{}", n)]),
            1 => post("assets:b", "GBP2", &["b", &format!("b{}", n)]),
            2 => post("assets:n", &format!("GBP{}", 30 + n), &[&format!("n{}", n)]),
            3 => post("assets:n", &format!("GBP-{}", 30 + n), &[&format!("m{}", n)]),
            _ => post("assets:c", "GBP3", &["c", &format!("c{}", n)]),
        };
        let base = vec![
            trn(D2, "t0", vec![post("assets:z", "GBP0.5", &["z"])]),
            trn(D1, "t1", vec![post("assets:b", "GBP2", &["b"]), post("assets:a", "GBP1", &["a"])]),
            trn(D1, "t2", vec![post("assets:c", "GBP3", &["c"])]),
        ];
        let s1 = vec![trn(D2, "s1", (0..3).map(|n| mk(d.take(5), n)).collect())];
        let s2 = vec![trn(D1, "s2", (5..7).map(|n| mk(d.take(5), n)).collect())];
        files(vec![base, s1, s2])
    };
    let rot = |i: usize| {
        // A file of n transactions on few dates, rotated.
        let mut d = Dig(i);
        let n = [5, 12, 33, 70][d.take(4)];
        let r = d.take(70) % n;
        let dates = ["2020-01-10", "2020-01-09", "2020-01-11"];
        let mut v: Vec<Trn> = (0..n)
            .map(|k| {
                let mut t = trn(dates[(k * k) % 3], &format!("t{}", k), vec![post("assets:a", &format!("GBP{}", k + 1), &[&format!("p{}", k)])]);
                if k % 5 == 4 {
                    t.c.kv.insert(SRC.into(), format!("src{}", k % 2));
                }
                t
            })
            .collect();
        v.rotate_left(r);
        files(vec![v])
    };
    let um = |i: usize| {
        // Ambiguous transactions in several files, sources and dates.
        let mut d = Dig(i);
        let mut fs = vec![vec![
            trn("2020-01-10", "a", vec![post("assets:a", "GBP1", &["a1"]), post("assets:a", "GBP1", &["a2"])]),
            trn("2020-01-09", "b", vec![post("assets:a", "GBP1", &["b1"]), post("assets:a", "GBP1", &["b2"])]),
        ]];
        fs.extend([Vec::new(), Vec::new()]);
        for n in 0..3 {
            let mut t = trn(["2020-01-10", "2020-01-09"][d.take(2)], &format!("u{}", n), vec![post("assets:a", "GBP1", &[&format!("u{}", n)])]);
            let f = d.take(2);
            let s = ["", "s1", "S0"][d.take(3)];
            if !s.is_empty() {
                t.c.kv.insert(SRC.into(), s.into());
            }
            fs[1 + f].push(t);
        }
        files(fs)
    };
    let eff = |i: usize, k: usize| {
        // Effective dates, before or after, which do not count.
        let mut d = Dig(i);
        let mut fs: Vec<Vec<Trn>> = vec![Vec::new(); 2];
        for n in 0..k {
            let a = if d.take(2) == 0 { "GBP1".to_string() } else { format!("GBP{}", n + 2) };
            let mut t = trn(["2020-01-10", "2020-01-09"][d.take(2)], &format!("t{}", n), vec![post("assets:a", &a, &[&format!("p{}", n)])]);
            t.edate = [None, Some("2020-01-08".to_string()), Some("2020-01-10".to_string())][d.take(3)].clone();
            fs[d.take(2)].push(t);
        }
        files(fs)
    };
    let mut v = vec![
        Family { name: "order: effective dates", n: 24usize.pow(3), gen: Box::new(move |i| eff(i, 3)) },
        Family { name: "order: 3 transactions", n: (3 * 2 * 3usize).pow(3), gen: Box::new(move |i| gen(i, 3, 3, 2, s3)) },
        Family { name: "order: 4 transactions", n: (2 * 2 * 2usize).pow(4), gen: Box::new(move |i| gen(i, 4, 2, 2, s2)) },
        Family { name: "order: postings added", n: 5usize.pow(5), gen: Box::new(perm) },
        Family { name: "order: rotations", n: 4 * 70, gen: Box::new(rot) },
        Family { name: "order: unmerged", n: 12usize.pow(3), gen: Box::new(um) },
    ];
    if thorough {
        v.push(Family { name: "order: 4 transactions, 3 files", n: (4 * 3 * 2usize).pow(4), gen: Box::new(move |i| gen(i, 4, 4, 3, s2)) });
        v.push(Family { name: "order: 5 transactions", n: (2 * 2 * 2usize).pow(5), gen: Box::new(move |i| gen(i, 5, 2, 2, s2)) });
    }
    v
}

/// Conflicts of each kind at every position of otherwise well-formed input.
pub const CONFLICTS: usize = 15;

fn conflict_base() -> Vec<Trn> {
    vec![
        trn(D1, "d1", vec![post("assets:a", "GBP1", &["d1a"]), post("assets:b", "GBP-1", &["d1b"])]),
        trn(D1, "d2", vec![post("assets:a", "GBP2", &["d2a"]), post("assets:b", "GBP-2", &["d2b"])]),
        trn(D1, "d3", vec![post("assets:c", "GBP9", &["d3a"]), post("assets:c", "GBP9", &["d3b"])]),
    ]
}

fn conflict_src(nt: usize) -> Vec<Trn> {
    (0..nt)
        .map(|t| {
            trn(
                D2,
                &format!("s{}", t),
                (0..3).map(|p| post("assets:s", &format!("GBP{}.{}", t + 10, p), &[&format!("s{}{}", t, p)])).collect(),
            )
        })
        .collect()
}

/// Makes the posting `at_p` of transaction `at_t` conflict in a way (or not, for comparison).
fn conflict(base: &mut Vec<Trn>, src: &mut [Trn], kind: usize, at_t: usize, at_p: usize) {
    let nt = src.len();
    let p = &mut src[at_t].posts[at_p];
    match kind {
        0 => p.c.flags.clear(),
        1 => {
            p.c.flags.insert("candidate-fp-d1a".into());
        }
        2 => {
            p.c.flags.insert("candidate-".into());
        }
        3 => {
            // The same fingerprint on another posting of the source.
            let f = if at_t + 1 < nt { "s".to_string() + &(at_t + 1).to_string() + "0" } else { format!("s0{}", (at_p + 1) % 3) };
            p.c.flags.insert(fp(&f));
        }
        4 => {
            p.c.flags.extend([fp("d1a"), fp("d1b")]);
        }
        5 => {
            p.c.flags.extend([fp("d1a"), fp("d2a")]);
        }
        6 => {
            // Matches of one transaction in two transactions.
            p.c.flags.insert(fp("d1a"));
            src[at_t].posts[(at_p + 1) % 3].c.flags.insert(fp("d2b"));
        }
        7 => {
            // Two postings soft match the same posting.
            for q in [at_p, (at_p + 1) % 3] {
                let f = src[at_t].posts[q].fps();
                src[at_t].posts[q] = post("assets:a", "GBP1", &[]);
                src[at_t].posts[q].c.flags.extend(f);
            }
            src[at_t].date = D1.into();
        }
        8 => {
            // One by fingerprint, one softly, from different transactions where there are two.
            p.c.flags.insert(fp("d1a"));
            let o = (at_t + 1) % nt;
            let q = (at_p + 1) % 3;
            let f = src[o].posts[q].fps();
            src[o].posts[q] = post("assets:a", "GBP1", &[]);
            src[o].posts[q].c.flags.extend(f);
            src[o].date = D1.into();
        }
        9 => {
            // A well-formed ambiguity.
            let f = p.fps();
            *p = post("assets:c", "GBP9", &[]);
            p.c.flags.extend(f);
            src[at_t].date = D1.into();
        }
        10 => {
            // Well-formed: two transactions into one.
            p.c.flags.insert(fp("d1a"));
            let o = (at_t + 1) % nt;
            if o != at_t {
                src[o].posts[at_p].c.flags.insert(fp("d1b"));
            }
        }
        11 => {
            // Well-formed: several fingerprints, all of them on one existing posting or new.
            p.c.flags.extend([fp("d1a"), fp("e1"), fp("e2")]);
        }
        12 => {
            // Fingerprints that look alike, and tags that look like special ones.
            p.c.flags.extend([fp("d1"), fp("d1aa"), fp("D1a"), "xfp-d1a".into(), "FP-d1a".into(), "xcandidate-y".into()]);
        }
        13 => {
            // A known fingerprint on two postings of the source.
            p.c.flags.insert(fp("d1a"));
            let (o, q) = if at_t + 1 < nt { (at_t + 1, at_p) } else { (at_t, (at_p + 1) % 3) };
            src[o].posts[q].c.flags.insert(fp("d1a"));
        }
        _ => {
            // Conflict within the first file.
            let mut b = base.clone();
            b[at_t % 3].posts[at_p % 2].c.flags.insert(fp(["d1a", "d2b", "d3a"][(at_t + 1) % 3]));
            *base = b;
        }
    }
}

/// Files of which the second one conflicts with the first one in a way (or not).
pub fn conflict_files(kind: usize, nt: usize, at_t: usize, at_p: usize) -> Files {
    let (mut base, mut src) = (conflict_base(), conflict_src(nt));
    conflict(&mut base, &mut src, kind, at_t, at_p);
    files(vec![base, src])
}

pub fn fam_conflict() -> Vec<Family> {
    vec![
        Family {
            name: "conflicts by kind and position",
            n: CONFLICTS * 4 * 3 * 3,
            gen: Box::new(|i| {
                let mut d = Dig(i);
                let kind = d.take(CONFLICTS);
                let nt = 1 + d.take(4);
                let at_t = d.take(3) % nt;
                let at_p = d.take(3);
                let (mut base, mut src) = (conflict_base(), conflict_src(nt));
                conflict(&mut base, &mut src, kind, at_t, at_p);
                files(vec![base, src])
            }),
        },
        Family {
            name: "two conflicts",
            n: CONFLICTS * CONFLICTS * 6 * 6,
            gen: Box::new(|i| {
                let mut d = Dig(i);
                let kinds = [d.take(CONFLICTS), d.take(CONFLICTS)];
                let (mut base, mut src) = (conflict_base(), conflict_src(2));
                for kind in kinds {
                    let (at_t, at_p) = (d.take(2), d.take(3));
                    conflict(&mut base, &mut src, kind, at_t, at_p);
                }
                files(vec![base, src])
            }),
        },
    ]
}

/// Words that mean something to people.
pub const WORDS: [&str; 42] = [
    "pending", "cleared", "completed", "unknown", "unknown-account", "import-self", "import-peer", "self", "peer", "new", "old", "note", "ignore", "todo", "merged", "unmerged", "duplicate", "candidate", "fp",
    "bank", "account", "transaction", "transactions", "balance", "source", "date", "manual", "final", "deleted", "reviewed", "keep", "same", "none", "null", "true", "0", "split", "copy", "paid", "edited", "void", "draft",
];

/// Words that programs like to treat specially, wherever a journal has free text, with each status.
pub fn fam_words() -> Vec<Family> {
    vec![Family {
        name: "words",
        n: WORDS.len() * 11 * 3 * 9 * 2,
        gen: Box::new(|i| {
            let mut d = Dig(i);
            let (w, place, side, st, hard) = (*d.of(&WORDS), d.take(11), d.take(3), d.take(9), d.take(2) == 1);
            let sts = [St::None, St::Pend, St::Clr];
            let put = |t: &mut Trn| {
                let p = &mut t.posts[0];
                match place {
                    0 => p.c = p.c.clone().line(w),
                    1 => p.c = p.c.clone().flag(w),
                    2 => p.c = p.c.clone().val(w, "1"),
                    3 => p.c = p.c.clone().val("k", w),
                    4 => p.c = p.c.clone().line(w).line("other").flag(&format!("is-{}", w)).val(&w.to_uppercase(), "x"),
                    5 => p.acct = format!("assets:{}", w),
                    6 => t.desc = w.into(),
                    7 => t.code = Some(w.into()),
                    8 => t.c = t.c.clone().line(w),
                    9 => t.c = t.c.clone().flag(w),
                    _ => t.c = t.c.clone().val(w, "1").val("k", w),
                }
            };
            let mut a = trn(D1, "shop", vec![post("assets:a", "GBP1", &["a"]), post("assets:b", "GBP-1", &["b"])]);
            let mut b = trn(D1, "src", vec![if hard { post("assets:a", "GBP1", &["a", "s"]) } else { post("assets:a", "GBP1", &["s"]) }]);
            if side != 1 {
                put(&mut a);
            }
            if side != 0 {
                put(&mut b);
            }
            a.posts[0].st = sts[st % 3];
            b.posts[0].st = sts[st / 3];
            files(vec![vec![a], vec![b]])
        }),
    }]
}

/// Accounts of all kinds, known or not, with balances.
pub fn fam_accounts() -> Vec<Family> {
    const ACCTS: [&str; 14] = [
        "assets:a", "assets:b", "assets:unknown", "assets", "liabilities:card", "liabilities:unknown", "expenses:food", "expenses:unknown", "income:unknown", "equity", "unknown", "Assets:a", "assets:a:b", "a",
    ];
    vec![Family {
        name: "accounts",
        n: ACCTS.len() * ACCTS.len() * 4 * 5 * 2,
        gen: Box::new(|i| {
            let mut d = Dig(i);
            let (a1, a2, un, ba, amt) = (*d.of(&ACCTS), *d.of(&ACCTS), d.take(4), d.take(5), ["GBP1", "GBP-1"][d.take(2)]);
            let mk = |a: &str, u: bool, b: &str, f: &str| {
                let p = bal(post(a, amt, &[f]), b);
                if u { unk(p) } else { p }
            };
            let (b1, b2) = [("", ""), ("GBP5", ""), ("", "GBP5"), ("GBP5", "GBP5"), ("GBP5", "GBP6")][ba];
            files(vec![
                vec![trn(D1, "a", vec![mk(a1, un & 1 == 1, b1, "a"), post("assets:z", "GBP7", &["z"])])],
                vec![trn(D1, "b", vec![mk(a2, un & 2 == 2, b2, "b")])],
            ])
        }),
    }]
}

/// Conflicts where the transactions have a feature.
pub fn fam_conflict_feat() -> Vec<Family> {
    let nf = features().len();
    let f = features();
    vec![Family {
        name: "conflicts with features",
        n: CONFLICTS * nf * 3 * 2 * 2,
        gen: Box::new(move |i| {
            let mut d = Dig(i);
            let (kind, f, side, nt, too) = (d.take(CONFLICTS), f[d.take(nf)].1, d.take(3), 1 + d.take(2), d.take(2) == 1);
            let (mut base, mut src) = (conflict_base(), conflict_src(nt));
            conflict(&mut base, &mut src, kind, 0, 1);
            // The last transaction is ambiguous as well.
            if too {
                conflict(&mut base, &mut src, 9, nt - 1, 0);
            }
            if side != 1 {
                base.iter_mut().for_each(|t| f(t, 1));
            }
            if side != 0 {
                src.iter_mut().for_each(|t| f(t, 1));
            }
            files(vec![base, src])
        }),
    }]
}

/// Transactions that cannot be merged, few and many, of one kind and of several, in one source or two.
pub fn fam_many_unmerged(most: usize) -> Vec<Family> {
    vec![Family {
        name: "many unmerged",
        n: most * 4 * 4 * 2 * 2,
        gen: Box::new(|i| {
            let mut d = Dig(i);
            let (kind, more, split, found) = (d.take(4), d.take(4), d.take(2) == 1, d.take(2) == 1);
            let n = 1 + d.0;
            let base = vec![
                trn(D1, "a", vec![post("assets:a", "GBP1", &["a1"]), post("assets:n", "GBP2", &["n1"])]),
                trn(D1, "b", vec![post("assets:a", "GBP1", &["a2"]), post("assets:m", "GBP3", &["m1"])]),
            ];
            let mut src: Vec<Trn> = (0..n)
                .map(|k| {
                    let f = format!("u{}", k);
                    let mut p = vec![post("assets:a", "GBP1", &[&f])];
                    if [k % 2 == 0, false, true, k == n - 1][kind] {
                        p.push(post("assets:new", &format!("GBP{}", k + 7), &[&format!("v{}", k)]));
                    }
                    if kind == 3 {
                        p.reverse();
                    }
                    trn(D1, &format!("src {}", k), p)
                })
                .collect();
            if more & 1 == 1 {
                src.insert(0, trn(D2, "new", vec![post("assets:q", "GBP99", &["q"])]));
            }
            if more & 2 == 2 {
                src.push(trn(D1, "known", vec![post("assets:n", "GBP2", if found { &["n1"] } else { &["n2"] })]));
            }
            if split {
                let rest = src.split_off(src.len() / 2);
                files(vec![base, src, rest])
            } else {
                files(vec![base, src])
            }
        }),
    }]
}

/// Features of transactions of few and many postings.
pub fn fam_many_features() -> Vec<Family> {
    const NS: [usize; 6] = [3, 4, 5, 6, 9, 17];
    let f = features();
    let nf = f.len();
    vec![Family {
        name: "features of many postings",
        n: nf * NS.len() * 3 * 4 * 2,
        gen: Box::new(move |i| {
            let mut d = Dig(i);
            let (f, n, sides, way, last) = (f[d.take(nf)].1, *d.of(&NS), d.take(3), d.take(4), d.take(2) == 1);
            let some = |s: &str, k: usize| post(&format!("assets:a{}", k % 3), &format!("GBP{}.00", 7 * (k + 1) % 19), &[&format!("{}{}", s, k)]);
            let mut dest = trn(D1, "shop", (0..n).map(|k| some("p", k)).collect());
            let new = post("assets:new", "GBP77", &["new"]);
            let posts: Vec<Post> = match way {
                // The same postings, the other way round; one of them, beside a new one; every other one by fingerprint; none.
                0 => (0..n).rev().map(|k| post(&dest.posts[k].acct, "GBP3", &[&format!("p{}", k)])).collect(),
                1 => vec![new, some("s", n - 1)],
                2 => (0..n).map(|k| some(if k % 2 == 0 { "p" } else { "s" }, k)).collect(),
                _ => vec![new],
            };
            let mut src = trn(D1, "src", posts);
            if sides != 1 {
                f(&mut dest, if last { n - 1 } else { 0 });
            }
            if sides != 0 {
                let k = if last { src.posts.len() - 1 } else { 0 };
                f(&mut src, k);
            }
            files(vec![vec![dest], vec![src]])
        }),
    }]
}

/// Postings whose fingerprints are alike, found by them or by what is in them, one or several.
pub fn fam_fps_alike() -> Vec<Family> {
    let mut g = alike();
    g.retain(|g| g.iter().all(|x| x.chars().all(|c| c.is_alphanumeric() || "-_./+=!@#$%^&*~?'".contains(c))));
    let n = g.len();
    vec![Family {
        name: "fingerprints alike",
        n: n * 12 * 6 * 2,
        gen: Box::new(move |i| {
            let mut d = Dig(i);
            let (g, pair, way, more) = (&g[d.take(n)], d.take(12), d.take(6), d.take(2) == 1);
            let (x, y) = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)][pair % 6];
            let (x, y) = if pair < 6 { (&g[x][..], &g[y][..]) } else { (&g[y][..], &g[x][..]) };
            let z = format!("{}-z", x);
            let fps: &[&str] = match way {
                // Several candidates; found by one; by the other; by both; nothing in common.
                0 => &["s"],
                1 => &[x],
                2 => &[y, "s"],
                3 => &[x, y],
                4 => &["s", &z],
                _ => &[&z],
            };
            let mut p = vec![post("assets:a", "GBP1", &[x])];
            let mut q = vec![post("assets:a", "GBP1", &[y])];
            if more {
                p[0].c = p[0].c.clone().flag("fp-also");
                q.insert(0, post("assets:c", "GBP3", &["c"]));
                p.push(post("assets:d", "GBP4", &["d"]));
            }
            let src = post(if way == 5 { "assets:n" } else { "assets:a" }, "GBP1", fps);
            files(vec![vec![trn(D1, "a", p), trn(D1, "b", q)], vec![trn(D1, "src", vec![src])]])
        }),
    }]
}

/// Postings that have a tag in common, or nearly, and differ in one thing, or not.
pub fn fam_same_tags() -> Vec<Family> {
    const KEYS: [&str; 16] = ["seq", "account", "bank", "trn_type", "trn-type", "k", "id", "ref", "fp", "source-file", "date", "unknown-account", "import-self", "import-peer", "candidate", "Seq"];
    vec![Family {
        name: "the same tags",
        n: KEYS.len() * 3 * 9 * 3 * 2 * 2,
        gen: Box::new(|i| {
            let mut d = Dig(i);
            let (key, how, what, sides, two, hard) = (*d.of(&KEYS), d.take(3), d.take(9), d.take(3), d.take(2) == 1, d.take(2) == 1);
            let tag = |c: &Comment, k: usize| match how {
                0 => c.clone().val(key, "n-1"),
                1 => c.clone().flag(key),
                // The same, and another one.
                _ => c.clone().val(key, "n-1").val("other", ["1", "2"][k]),
            };
            let mut p = post("assets:a", "GBP1", &["a"]);
            let mut q = post("assets:a", "GBP1", if hard { &["s", "z"] } else { &["s"] });
            let mut date = D1;
            match what {
                0 => {}
                1 => q.amt = Some(pamt("GBP2")),
                2 => q.acct = "assets:b".into(),
                3 => {
                    q = unk(q);
                    q.acct = "assets:b".into();
                }
                4 => date = D2,
                5 => {
                    p = bal(p, "GBP5");
                    q = bal(q, "GBP6");
                }
                6 => q.amt = Some(pamt("USD1")),
                7 => q.amt = None,
                _ => q.kind = Kind::Unbal,
            }
            let (mut t, mut u) = (trn(D1, "dest", vec![]), trn(date, "src", vec![]));
            match sides {
                // On both postings; on both and the transactions; on transactions.
                0 => (p.c, q.c) = (tag(&p.c, 0), tag(&q.c, 1)),
                1 => (p.c, q.c, t.c, u.c) = (tag(&p.c, 0), tag(&q.c, 1), tag(&t.c, 0), tag(&u.c, 1)),
                _ => (t.c, u.c) = (tag(&t.c, 0), tag(&u.c, 1)),
            }
            t.posts = vec![p, post("assets:z", "GBP7", &["z"])];
            u.posts = vec![q];
            if two {
                u.posts.push(post("assets:y", "GBP8", &["y"]));
            }
            files(vec![vec![t], vec![u]])
        }),
    }]
}

/// Names that are alike: what differs must be told apart everywhere.
pub fn alike() -> Vec<Vec<String>> {
    let mut v: Vec<Vec<String>> = [
        &["beta", "Beta", "BETA", "bEta"],
        &["ab", "ba", "aa", "bb"],
        &["prefix", "prefix-", "prefix-x", "prefix-y"],
        &["1", "01", "001", "10"],
        &["9", "10", "100", "2"],
        &["2020-1", "2020-10", "2020-9", "2019-12"],
        &["e", "\u{e9}", "\u{c9}", "E"],
        &["thirteen-chars", "thirteen-charS", "fourteen--chars", "thirteen-char"],
        &["x-1", "x.1", "x_1", "x1"],
        &["x", "x.journal", "x.ledger", "x.journal.journal"],
        &["a/x", "b/x", "x", "a/b/x"],
    ]
    .iter()
    .map(|g| g.iter().map(|x| x.to_string()).collect())
    .collect();
    // A character in front, behind, around, within.
    for ch in "\"'()[]{}<>/\\.-_#@!?*&%$+=~^|`\u{e9}0".chars() {
        v.push(vec!["q".into(), format!("{}q", ch), format!("q{}", ch), format!("{}q{}", ch, ch)]);
    }
    // Long names that differ at one end.
    for n in [31, 63, 128, 300] {
        let l = "n".repeat(n);
        v.push(vec![format!("{}a", l), format!("{}b", l), format!("a{}", l), format!("b{}", l)]);
    }
    v
}

/// Sources whose names are alike.
pub fn fam_sources() -> Vec<Family> {
    let names = alike();
    let n = names.len();
    vec![Family {
        name: "sources alike",
        n: n * 6 * 2 * 2,
        gen: Box::new(move |i| {
            let mut d = Dig(i);
            let (g, pair, un, split) = (&names[d.take(n)], [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)][d.take(6)], d.take(2) == 1, d.take(2) == 1);
            let base = vec![trn(D1, "a", vec![post("assets:a", "GBP1", &["a1"]), post("assets:a", "GBP1", &["a2"])])];
            let mut ts = Vec::new();
            for (k, x) in [pair.0, pair.1, pair.0].into_iter().enumerate() {
                let mut t = trn(D1, &format!("u{}", k), vec![post(if un { "assets:a" } else { "assets:b" }, "GBP1", &[&format!("u{}", k)])]);
                if !un {
                    t.posts[0] = post("assets:b", &format!("GBP{}", k + 2), &[&format!("u{}", k)]);
                }
                t.c.kv.insert(SRC.into(), g[x].clone());
                ts.push(t);
            }
            if split {
                let rest = ts.split_off(1);
                files(vec![base, ts, rest])
            } else {
                files(vec![base, ts])
            }
        }),
    }]
}

fn explore(c: &Ctx, fams: Vec<Family>, aspects: &[Aspect]) {
    for f in fams {
        if c.stop.load(std::sync::atomic::Ordering::SeqCst) {
            break;
        }
        c.par(f.name, f.n, |e, i| {
            let fs = (f.gen)(i);
            check(e, &fs, aspects).map(|_| ())
        });
    }
}

pub fn all_families(c: &Ctx) -> Vec<Family> {
    let t = c.thorough;
    let mut v = fam_pair(t);
    v.extend(fam_two());
    v.extend(fam_feat());
    v.extend(fam_conflict());
    v.extend(fam_conflict_feat());
    v.extend(fam_many_unmerged(if t { 24 } else { 8 }));
    v.extend(fam_fps_alike());
    v.extend(fam_many_features());
    v.extend(fam_same_tags());
    v.extend(fam_words());
    v.extend(fam_accounts());
    v.extend(fam_sources());
    v.extend(fam_many_sources());
    v.extend(fam_fields(t));
    v.extend(fam_order(t));
    v.extend(fam_scale(if t { 258 } else { 130 }));
    v.extend(fam_renamed(t));
    v.extend(fam_seq(if t { 4 } else { 3 }));
    v
}

const RULE: &str = "every case is a list of small journals, enumerated over the alphabets of the family (postings that agree or differ in each criterion, layouts, sequences of colliding journals, sizes) and merged by the real program; a case is non-trivial if it has at least two transactions, distinct by content";

pub fn c01(c: &Ctx) -> (&'static str, &'static str) {
    explore(c, all_families(c), &[Aspect::Conserve]);
    ("model_checking", RULE)
}

pub fn c03(c: &Ctx) -> (&'static str, &'static str) {
    explore(c, all_families(c), &[Aspect::Struct]);
    ("model_checking", RULE)
}

pub fn c04(c: &Ctx) -> (&'static str, &'static str) {
    explore(c, all_families(c), &[Aspect::Fields]);
    ("model_checking", RULE)
}

pub fn c05(c: &Ctx) -> (&'static str, &'static str) {
    explore(c, all_families(c), &[Aspect::Accept]);
    // Outputs that already exist are left alone by a failing merge, and there is no half of an output.
    let fams = [fam_many_unmerged(8), fam_conflict(), fam_seq(2), fam_two(), fam_feat()].into_iter().flatten();
    for f in fams {
        // Of small families, each with and without `-u`.
        let ways = if f.n < 3000 { 2 } else { 1 };
        c.par(&format!("{} (existing outputs)", f.name), f.n * ways, |e, i| {
            let fs = (f.gen)(i / ways);
            put_files(e, &fs);
            let m = model(&fs);
            let old = "2001-01-01 old content\n  a  GBP1\n";
            e.sut.put("o.journal", old);
            e.sut.put("u.journal", old);
            let names: Vec<&str> = fs.iter().map(|(n, _)| n.as_str()).collect();
            let with_u = i % 2 == 0;
            let mut args = vec!["merge"];
            args.extend(&names);
            args.extend(["-o", "o.journal"]);
            if with_u {
                args.extend(["-u", "u.journal"]);
            }
            let out = e.sut.run(&args);
            let must_fail = match &m {
                Err(_) => true,
                Ok(m) => !m.unmerged.is_empty() && !with_u,
            };
            e.case(true, &(&fs.iter().map(|f| &f.1).collect::<Vec<_>>(), with_u));
            e.outcome(if must_fail { "must fail" } else { "must succeed" });
            let desc = || format!("with_u={} result {}\nmodel {:?}\n{}", with_u, out.short(), m.as_ref().map(|m| m.unmerged.len()), text_of(&fs));
            if must_fail {
                ensure!(out.failed(), "conflict accepted", "merge should have failed: {}", desc());
                ensure!(
                    e.sut.get_str("o.journal").as_deref() == Some(old) && e.sut.get_str("u.journal").as_deref() == Some(old),
                    "output of failed merge",
                    "a failing merge changed an output file: {}",
                    desc()
                );
                for (n, j) in &fs {
                    ensure!(e.sut.get_str(n).as_deref() == Some(&render(j)), "input changed", "an input file changed: {}", desc());
                }
            } else {
                ensure!(out.ok(), "well-formed input refused", "merge should have succeeded: {}", desc());
            }
            e.validated();
            Ok(())
        });
    }
    ("model_checking", RULE)
}

/// Dates of all centuries: each two of them, in both orders, and many at once.
fn fam_dates(thorough: bool) -> Vec<Family> {
    let mut ds: Vec<String> = Vec::new();
    for y in (1..=9999).step_by(if thorough { 97 } else { 499 }).chain([1899, 1900, 1969, 1970, 1971, 1999, 2000, 2001]).chain(if thorough { 2000..=2050 } else { 2018..=2027 }).chain([2037, 2038, 2039, 2100, 9998, 9999]) {
        for md in if y % 4 == 0 { &["01-01", "02-29", "12-31"][..] } else { &["01-01", "12-31"] } {
            // No 29 February in most centuries.
            if y % 100 != 0 || y % 400 == 0 || *md != "02-29" {
                ds.push(format!("{:04}-{}", y, md));
            }
        }
    }
    for m in 1..=12 {
        ds.extend([9, 10, 28].iter().map(|d| format!("2023-{:02}-{:02}", m, d)));
    }
    ds.sort();
    ds.dedup();
    let n = ds.len();
    let all = ds.clone();
    let one = move |n: usize, d: &str| trn(d, &format!("t{}", n), vec![post("assets:a", &format!("GBP{}", n + 1), &[&format!("p{}", n)])]);
    vec![
        Family {
            name: "pairs of dates",
            n: n * n,
            gen: Box::new(move |i| {
                let (a, b) = (one(0, &ds[i % n]), one(1, &ds[i / n]));
                if i % 3 == 0 { files(vec![vec![a], vec![b]]) } else { files(vec![vec![a, b]]) }
            }),
        },
        Family {
            name: "many dates",
            n: n,
            gen: Box::new(move |i| {
                // All of them, in strides.
                let v: Vec<Trn> = (0..n).map(|k| one(k, &all[(k * (i + 1) + i) % n])).collect();
                if i % 2 == 0 { files(vec![v]) } else { files(v.chunks(n.div_ceil(3)).map(|x| x.to_vec()).collect()) }
            }),
        },
    ]
}

pub fn c06(c: &Ctx) -> (&'static str, &'static str) {
    let mut v = fam_order(c.thorough);
    v.extend(fam_dates(c.thorough));
    v.extend(fam_sources());
    v.extend(fam_words());
    v.extend(fam_scale(if c.thorough { 258 } else { 130 }));
    v.extend(fam_two());
    v.extend(fam_feat());
    v.extend(fam_many_features());
    v.extend(fam_fields(false));
    v.extend(fam_seq(if c.thorough { 4 } else { 3 }));
    explore(c, v, &[Aspect::Order]);
    ("model_checking", RULE)
}

// ---------------------------------------------------------------------------------------------
// C02: re-merging.

fn remerge(e: &mut Env, fs: &Files) -> R {
    put_files(e, fs);
    let names: Vec<&str> = fs.iter().map(|(n, _)| n.as_str()).collect();
    let r = run_merge(e, &names, "m1.journal", Some("u1.journal"));
    if !r.out.ok() || r.unmerged_text.is_some() {
        e.outcome("not mergeable without remainder");
        return Ok(());
    }
    e.outcome("merged");
    let m1 = r.merged_text.unwrap_or_default();
    e.state(&m1);
    for with_inputs in [false, true] {
        let mut n2 = vec!["m1.journal"];
        if with_inputs {
            n2.extend(&names);
        }
        let r2 = run_merge(e, &n2, "m2.journal", Some("u2.journal"));
        e.transition();
        e.case(fs.len() > 1, &(fs.iter().map(|f| &f.1).collect::<Vec<_>>(), with_inputs));
        e.sample(|| format!("{}merged:\n{}", text_of(fs), m1));
        let desc = || {
            format!(
                "{}\nresult {}\ninputs:\n{}\nfirst merge:\n{}\nsecond merge:\n{}\nunmerged:\n{}",
                if with_inputs { "merging the result with its inputs again" } else { "merging the result by itself" },
                r2.out.short(),
                text_of(fs),
                m1,
                r2.merged_text.as_deref().unwrap_or("(none)"),
                r2.unmerged_text.as_deref().unwrap_or("(none)")
            )
        };
        ensure!(r2.out.ok(), "re-merge fails", "re-merge fails: {}", desc());
        ensure!(r2.unmerged_text.is_none(), "re-merge leaves unmerged", "re-merge leaves transactions unmerged: {}", desc());
        ensure!(r2.merged_text.as_deref() == Some(&m1[..]), "re-merge changes", "re-merge changes the journal: {}", desc());
        e.validated();
    }
    Ok(())
}

pub fn c02(c: &Ctx) -> (&'static str, &'static str) {
    let mut v = fam_seq(if c.thorough { 4 } else { 3 });
    v.extend(fam_fields(c.thorough));
    v.extend(fam_scale(if c.thorough { 258 } else { 130 }));
    v.extend(fam_order(c.thorough));
    v.extend(fam_pair(c.thorough));
    v.extend(fam_two());
    v.extend(fam_feat());
    v.extend(fam_comments());
    v.extend(fam_many_unmerged(if c.thorough { 24 } else { 8 }));
    v.extend(fam_words());
    v.extend(fam_accounts());
    v.extend(fam_sources());
    v.extend(fam_dates(false));
    for f in v {
        c.par(f.name, f.n, |e, i| remerge(e, &(f.gen)(i)));
    }
    ("model_checking", "every list of small journals of the merge families that merges without remainder; its output is merged again by itself and with all inputs, and compared byte for byte; non-trivial if there are several input files")
}

/// Comments of every shape on postings and transactions (tags around the length limit, several lines).
pub fn fam_comments() -> Vec<Family> {
    let texts = ["plain text", "text, with; signs (and) [brackets] = @ 10%", "  ünïcødé £10  ", "12 34", "-", "*", "x"];
    let tags = ["t", "twelve-chars", "thirteen-char", "UPPER", "a_very_long_tag_of_more_than_thirty_characters", "é", "fpx", "12"];
    let vals = ["v", "", "two words", "10", "x, y; z"];
    vec![Family {
        name: "comments",
        n: texts.len() * texts.len() * tags.len() * tags.len() * vals.len(),
        gen: Box::new(move |i| {
            let mut d = Dig(i);
            let (t1, t2) = (*d.of(&texts), *d.of(&texts));
            let (f1, f2) = (*d.of(&tags), *d.of(&tags));
            let v = *d.of(&vals);
            let mut a = trn(D1, "t", vec![post("assets:a", "GBP1", &["a"]), post("assets:b", "", &["b"])]);
            a.posts[0].c = a.posts[0].c.clone().line(t1).line(t2).flag(f1).val("key", v);
            a.posts[1].c = a.posts[1].c.clone().line(t2).val("key", v).val("Key2", f2);
            a.c = a.c.clone().line(t1).flag(f2).val("tkey", v);
            let mut b = a.clone();
            b.posts[0].c = Comment::default().flag("fp-a").flag(f2).line(t2).val("key", "new");
            files(vec![vec![a], vec![b]])
        }),
    }]
}

/// Many sources of the same posting: what is known of it grows with each.
fn fam_many_sources() -> Vec<Family> {
    vec![Family {
        name: "many sources of a posting",
        n: 12 * 8 * 5 * 3,
        gen: Box::new(|i| {
            let mut d = Dig(i);
            let (n, how, feat, at) = (2 + d.take(12), d.take(8), d.take(5), d.take(3));
            let mk = |k: usize| {
                let fps: Vec<String> = match how {
                    // A fingerprint of its own, one shared with the source before, all of those before, the same one.
                    0 | 4 | 5 => vec![format!("f{}", k)],
                    1 => vec![format!("f{}", k), format!("f{}", k + 1)],
                    2 => (0..=k).map(|j| format!("f{}", j)).collect(),
                    3 => vec!["f".into()],
                    6 => vec![format!("f{}", k / 2)],
                    _ => vec![format!("f{}", n - k)],
                };
                let fps: Vec<&str> = fps.iter().map(|x| x.as_str()).collect();
                let mut p = post("assets:a", ["GBP1", "GBP2"][if how == 4 { k % 2 } else { 0 }], &fps);
                if how == 5 {
                    p = if k == n / 2 { p } else { unk(p) };
                }
                // Something about one of them, or from there on.
                let here = [k == 0, k == n - 1, k >= n / 2][at];
                let mut t = trn(D1, if here && feat == 1 { "other" } else { "t" }, vec![p]);
                match feat {
                    2 if here => t.posts[0] = bal(t.posts[0].clone(), "GBP5"),
                    3 if here => t.posts.push(post("assets:b", "GBP-1", &[&format!("g{}", k)])),
                    4 if here => t.date = D2.into(),
                    _ => {}
                }
                vec![t]
            };
            files((0..n).map(mk).collect())
        }),
    }]
}

// ---------------------------------------------------------------------------------------------
// C26: stepwise merging.

pub fn c26(c: &Ctx) -> (&'static str, &'static str) {
    let mut v = fam_seq(if c.thorough { 4 } else { 3 });
    v.extend(fam_two());
    v.extend(fam_feat());
    v.extend(fam_fields(c.thorough));
    v.extend(fam_scale(if c.thorough { 258 } else { 70 }));
    v.extend(fam_comments());
    v.extend(fam_many_sources());
    v.extend(fam_order(c.thorough).into_iter().filter(|f| f.name.contains("files") || f.name.contains("added") || f.name.contains("4 tr")));
    for f in v {
        c.par(f.name, f.n, |e, i| {
            let fs = (f.gen)(i);
            if fs.len() < 2 {
                return Ok(());
            }
            put_files(e, &fs);
            let names: Vec<&str> = fs.iter().map(|(n, _)| n.as_str()).collect();
            let mut prev: Option<String> = None;
            let mut failed = None;
            let mut clean = true;
            for (k, n) in names.iter().enumerate() {
                let out = format!("step{}.journal", k);
                let ins: Vec<&str> = match &prev {
                    None => vec![n],
                    Some(p) => vec![p, n],
                };
                let r = run_merge(e, &ins, &out, Some("us.journal"));
                e.transition();
                if !r.out.ok() {
                    failed = Some((k, r.out.short()));
                    break;
                }
                if let Some(t) = &r.merged_text {
                    e.state(t);
                }
                if r.unmerged_text.is_some() {
                    clean = false;
                    break;
                }
                prev = Some(out);
            }
            if failed.is_none() && !clean {
                e.outcome("a step leaves transactions unmerged");
                return Ok(());
            }
            let r = run_merge(e, &names, "all.journal", Some("ua.journal"));
            e.case(true, &fs.iter().map(|f| &f.1).collect::<Vec<_>>());
            e.sample(|| text_of(&fs));
            e.validated();
            let desc = || {
                format!(
                    "at once: {}\n{}\nunmerged:\n{}\nstepwise: {:?}\n{}\ninputs:\n{}",
                    r.out.short(),
                    r.merged_text.as_deref().unwrap_or("(none)"),
                    r.unmerged_text.as_deref().unwrap_or("(none)"),
                    failed,
                    prev.as_ref().and_then(|p| e.sut.get_str(p)).unwrap_or_default(),
                    text_of(&fs)
                )
            };
            if failed.is_some() {
                e.outcomes.entry("a step fails".into()).and_modify(|n| *n += 1).or_insert(1);
                ensure!(r.out.failed(), "step fails only", "a step fails, but not the single merge: {}", desc());
                return Ok(());
            }
            ensure!(r.out.ok(), "single merge fails", "merging step by step succeeds, merging at once does not: {}", desc());
            ensure!(r.unmerged_text.is_none(), "single merge leaves unmerged", "merging at once leaves transactions unmerged: {}", desc());
            let step = e.sut.get_str(prev.as_ref().unwrap());
            ensure!(r.merged_text == step, "stepwise differs", "merging step by step and at once differ: {}", desc());
            e.outcome("equal");
            Ok(())
        });
    }
    ("model_checking", "every sequence of journals of the merge families with at least two files is merged step by step and at once, and the results are compared byte for byte; distinct by content")
}

// ---------------------------------------------------------------------------------------------
// C07: sources and the resolution workflow.

pub fn c07(c: &Ctx) -> (&'static str, &'static str) {
    // Source tags in all families with unmerged transactions.
    let mut v = fam_order(c.thorough);
    v.extend(fam_sources());
    v.extend(fam_words());
    v.extend(fam_conflict_feat());
    v.extend(fam_two());
    v.extend(fam_feat());
    v.extend(fam_seq(if c.thorough { 4 } else { 3 }));
    v.extend(fam_scale(if c.thorough { 258 } else { 130 }));
    explore(c, v, &[Aspect::Source]);
    // The candidates that a user chooses from.
    let mut v = fam_fps_alike();
    v.extend(fam_conflict());
    explore(c, v, &[Aspect::Source, Aspect::Struct]);
    // Inputs whose paths are much alike.
    let mut v = fam_seq(2);
    v.extend(fam_two());
    for f in v {
        // Of many, each with one way of paths being alike.
        let all = c.thorough || f.n < 5000;
        c.par(&format!("{} (paths alike)", f.name), f.n * if all { PATHS.len() } else { 1 }, |e, i| {
            let fs = if all { with_paths((f.gen)(i / PATHS.len()), i % PATHS.len()) } else { with_paths((f.gen)(i), i * 31 % PATHS.len()) };
            check(e, &fs, &[Aspect::Source, Aspect::Struct]).map(|_| ())
        });
    }
    c.par("resolution of several sources", 3 * 3 * 3 * 4 * PATHS.len(), |e, i| resolve_sources(e, i));
    // An input that is standard input has a source as well.
    let o = ops();
    c.par("sources of standard input", o.len() * o.len() * 3 * 2, |e, i| {
        let mut g = Dig(i);
        let (way, tagged) = (g.take(3), g.take(2) == 1);
        let twins = vec![trn(D1, "twins", vec![post("assets:a", "GBP10", &["tw0"]), post("assets:a", "GBP10", &["tw1"])])];
        let mut js = vec![twins, g.of(&o).clone(), g.of(&o).clone(), vec![trn(D1, "which", vec![post("assets:a", "GBP10", &["which"])])]];
        if tagged {
            js[2].iter_mut().for_each(|t| t.c = t.c.clone().val(SRC, "before"));
        }
        from_stdin(e, files(js), way + 1)
    });

    // A file with several sources is the same as a file per source.
    let o = ops();
    let no = o.len();
    let srcs = ["alpha", "beta", "gamma", "Beta", "10", "2", "x y", "/path/to/x.csv", "\u{e9}"];
    // (and below, names that are almost the same)
    let depth = 3usize;
    let assign = 4usize;
    let n = no * no * no * assign.pow(depth as u32);
    let n = if c.thorough { n } else { no * no * assign.pow(2) };
    let d = if c.thorough { 3 } else { 2 };
    let with_pre = no;
    c.par("sources partitioned", n * if c.thorough { 1 } else { with_pre }, |e, i| {
        let mut g = Dig(i);
        let pre: Option<Vec<Trn>> = if c.thorough { None } else { Some(g.of(&o).clone()) };
        let mut all: Vec<Trn> = Vec::new();
        let mut idx = Vec::new();
        for _ in 0..d {
            let j = g.of(&o).clone();
            let s = g.take(assign);
            idx.push(s);
            for mut t in j {
                let name = srcs[(s + i / 7) % srcs.len()];
                t.c.kv.insert(SRC.into(), name.into());
                all.push(t);
            }
        }
        partitioned(e, pre, all)
    });
    // Four small transactions in all partitions.
    c.par("partitions of four transactions", 4usize.pow(4) * 8 * NAMES.len(), |e, i| {
        let mut g = Dig(i);
        let names = *g.of(&NAMES);
        let variant = g.take(8);
        let all: Vec<Trn> = (0..4)
            .map(|k| {
                let a = if variant & 1 == 0 { "GBP10".to_string() } else { format!("GBP{}", k % 2) };
                let p = if variant & 2 == 0 { post("assets:a", &a, &[&format!("p{}", k)]) } else { unk(post("assets:u", &a, &[&format!("p{}", k / 2)])) };
                let d = if variant & 4 == 0 { D1 } else { [D1, D2][k / 2] };
                let mut t = trn(d, &format!("t{}", k), vec![p]);
                t.c.kv.insert(SRC.into(), names[g.take(4)].into());
                t
            })
            .collect();
        partitioned(e, None, all)
    });

    // Resolution by hand.
    let sizes: Vec<usize> = if c.thorough { vec![2, 3, 4, 5, 6, 12, 20, 33, 66, 130] } else { vec![2, 3, 4, 5, 12, 33] };
    let cases: Vec<(usize, usize, usize, usize)> = sizes
        .iter()
        .flat_map(|n| (0..*n).flat_map(move |pick| (0..4).flat_map(move |layout| (0..6).map(move |src| (*n, pick, layout, src)))))
        .collect();
    c.par("resolution by hand", cases.len(), |e, i| {
        let (n, pick, layout, src) = cases[i];
        resolve(e, n, pick, layout, src)
    });
    // Several ambiguous postings at once, all combinations of choices.
    c.par("resolution of several postings", 3 * 9 * 9 * 4, |e, i| resolve_many(e, i));
    (
        "model_checking",
        "source tags are checked on every merge of the families; files with several sources are compared with one file per source; every ambiguous merge is resolved to every candidate and merged again; non-trivial if there are several transactions, distinct by content",
    )
}

/// Merges with the `k`th input from standard input, and from files.
fn from_stdin(e: &mut Env, mut fs: Files, k: usize) -> R {
    const FILE: &str = "in-place-of-a-stream.j";
    fs[k].0 = FILE.into();
    put_files(e, &fs);
    let names: Vec<&str> = fs.iter().map(|(n, _)| n.as_str()).collect();
    let r = run_merge(e, &names, "out.journal", Some("un.journal"));
    let mut a = vec!["merge", "-o", "out2.journal", "-u", "un2.journal"];
    a.extend(names.iter().map(|n| if *n == FILE { "-" } else { n }));
    e.sut.rm(FILE);
    let p = e.sut.plain(&a, Some(render(&fs[k].1).as_bytes()), &[]);
    ensure!(p.out.orderly() && r.out.orderly() && p.out.ok() == r.out.ok(), "differs from standard input", "{:?}: {}, from files: {}\n{}", a, p.out.short(), r.out.short(), text_of(&fs));
    e.case(r.unmerged_text.is_some(), &(&fs, k));
    e.validated();
    e.transition();
    ensure!(e.sut.get_str("out2.journal") == r.merged_text, "differs from standard input", "{:?}:\n{:?}\nfrom files:\n{:?}", a, e.sut.get_str("out2.journal"), r.merged_text);
    let un = e.sut.get_str("un2.journal");
    ensure!(un.is_some() == r.unmerged_text.is_some(), "differs from standard input", "{:?}: unmerged\n{:?}\nfrom files:\n{:?}", a, un, r.unmerged_text);
    let (Some(un), Some(want)) = (un, r.unmerged_text) else {
        e.outcome(if r.out.ok() { "all merged" } else { "refused" });
        return Ok(());
    };
    e.outcome("some unmerged");
    let rd = |t: &str| parse(t).or_else(|x| fail("unreadable", format!("{}\n{}", x, t)));
    let (got, want) = (rd(&un)?, rd(&want)?);
    let show = || format!("{:?}:\n{}\nfrom files:\n{}\n{}", a, un, render(&want), text_of(&fs));
    ensure!(got.len() == want.len(), "differs from standard input", "{}", show());
    let mut its: Option<String> = None;
    for (g, w) in got.iter().zip(&want) {
        let (mut g, mut w) = (g.clone(), w.clone());
        let (sg, sw) = (g.c.kv.remove(SRC).unwrap_or_default(), w.c.kv.remove(SRC).unwrap_or_default());
        ensure!(g == w, "differs from standard input", "{}", show());
        if sw.contains(FILE) {
            ensure!(!sg.trim().is_empty(), "no source", "{}", show());
            ensure!(its.as_ref().is_none_or(|x| *x == sg), "several sources", "{}", show());
            its = Some(sg);
        } else {
            ensure!(sg == sw, "another source", "{}", show());
        }
    }
    let others = want.iter().filter_map(|t| t.c.kv.get(SRC)).any(|x| Some(x) == its.as_ref());
    ensure!(!others, "source of another input", "{}", show());
    Ok(())
}

/// Names of sources, some of them almost the same.
const NAMES: [[&str; 4]; 8] = [
    ["alpha", "beta", "gamma", "delta"],
    ["s", "s/", "/s", "s//"],
    ["x/s", "./x/s", "x//s", "x/./s"],
    ["s", "S", "s.", "s.csv"],
    ["s", "ss", "s-s", "s s"],
    ["1", "01", "1.0", "10"],
    ["s:t", "s: t", "s", "t"],
    ["\u{e9}", "e", "e\u{301}", "\u{c9}"],
];

/// Paths of inputs that differ in one part only.
const PATHS: [&[&str]; 4] = [&["d0/j", "d1/j", "d2/j", "d3/j"], &["j", "j.j", "d/j", "d/d/j"], &["a.journal", "a.csv", "a", "a.journal~"], &["A/x", "a/x", "a/X", "A/X"]];

fn with_paths(fs: Files, k: usize) -> Files {
    fs.into_iter().enumerate().map(|(i, (_, j))| (PATHS[k][i].to_string(), j)).collect()
}

/// Ambiguous postings from several files, each resolved to any of the candidates.
fn resolve_sources(e: &mut Env, i: usize) -> R {
    let mut d = Dig(i);
    let picks = [d.take(3), d.take(3), d.take(3)];
    let layout = d.take(4);
    let k = d.take(PATHS.len());
    let a = |k: usize| post("assets:a", "GBP10", &[&format!("a{}", k)]);
    let base = if layout & 1 == 0 { vec![trn(D1, "t", (0..3).map(a).collect())] } else { (0..3).map(|k| trn(D1, &format!("t{}", k), vec![a(k)])).collect() };
    let src = |n: &str| {
        let mut ps = vec![post("assets:a", "GBP10", &[n])];
        if layout & 2 != 0 {
            ps.insert(0, post("assets:n", &format!("GBP{}", n.len()), &[&format!("{}n", n)]));
        }
        vec![trn(D1, n, ps)]
    };
    let fs = with_paths(files(vec![base, src("s"), src("ss"), src("sss")]), k);
    resolve_run(e, &fs, &picks)
}

fn partitioned(e: &mut Env, pre: Option<Vec<Trn>>, all: Vec<Trn>) -> R {
    let fs = files(vec![all.clone()]);
    put_files(e, &fs);
    let mut names: Vec<String> = Vec::new();
    let mut by_src: std::collections::BTreeMap<String, Vec<Trn>> = Default::default();
    for t in &all {
        by_src.entry(t.c.kv[SRC].clone()).or_default().push(t.clone());
    }
    if let Some(p) = &pre {
        e.sut.put("pre.journal", render(p));
    }
    for (k, ts) in by_src.values().enumerate() {
        let n = format!("part{}.journal", k);
        e.sut.put(&n, render(ts));
        names.push(n);
    }
    let mut a = Vec::new();
    if pre.is_some() {
        a.push("pre.journal");
    }
    let mut b = a.clone();
    a.push(fs[0].0.as_str());
    b.extend(names.iter().map(String::as_str));
    let r1 = run_merge(e, &a, "o1.journal", Some("u1.journal"));
    let r2 = run_merge(e, &b, "o2.journal", Some("u2.journal"));
    e.case(by_src.len() > 1, &all);
    e.sample(|| text_of(&fs));
    e.transition();
    if let Some(m) = &r1.merged_text {
        e.state(m);
    }
    e.validated();
    ensure!(
        r1.out.ok() == r2.out.ok() && r1.merged_text == r2.merged_text && r1.unmerged_text == r2.unmerged_text,
        "sources are not independent",
        "one file with several sources ({}):\n{}\nunmerged:\n{}\none file per source ({}):\n{}\nunmerged:\n{}\ninput:\n{}",
        r1.out.short(),
        r1.merged_text.unwrap_or_default(),
        r1.unmerged_text.unwrap_or_default(),
        r2.out.short(),
        r2.merged_text.unwrap_or_default(),
        r2.unmerged_text.unwrap_or_default(),
        text_of(&fs)
    );
    Ok(())
}

/// Replaces the candidate tags of posting `k` (among those with candidates) by the `pick[k]`-th
/// candidate, by text, as a user would.
fn edit(un: &str, pick: &[usize]) -> Option<(String, Vec<String>)> {
    let mut ts = parse(un).ok()?;
    let mut chosen = Vec::new();
    let mut k = 0;
    for t in &mut ts {
        for p in &mut t.posts {
            let c: Vec<String> = p.c.flags.iter().filter(|f| f.starts_with("candidate-")).cloned().collect();
            if c.is_empty() {
                continue;
            }
            let f = c[pick[k % pick.len()] % c.len()]["candidate-".len()..].to_string();
            k += 1;
            p.c.flags.retain(|f| !f.starts_with("candidate-"));
            p.c.flags.insert(f.clone());
            chosen.push(f);
        }
    }
    Some((render(&ts), chosen))
}

fn resolve(e: &mut Env, n: usize, pick: usize, layout: usize, src: usize) -> R {
    let cand = |k: usize| {
        let f = format!("p{}", k);
        let mut p = post(["assets:a", "assets:b"][if src == 3 { k % 2 } else { 0 }], "GBP10", &[&f]);
        if src == 4 {
            p.c.flags.insert(fp(&format!("alt{}", k)));
        }
        p
    };
    let base: Files = match layout {
        0 => files(vec![(0..n).map(|k| trn(D1, &format!("t{}", k), vec![cand(k)])).collect()]),
        1 => files(vec![vec![trn(D1, "t", (0..n).map(cand).collect())]]),
        2 => files(vec![
            (0..n / 2).map(|k| trn(D1, &format!("t{}", k), vec![cand(k)])).collect(),
            vec![],
            (n / 2..n).map(|k| {
                let mut t = trn(D1, &format!("t{}", k), vec![post("assets:x", &format!("GBP{}", 100 + k), &[&format!("x{}", k)]), cand(k)]);
                t.posts[1].acct = "assets:a".into();
                t
            }).collect(),
        ]),
        _ => files(vec![(0..n)
            .map(|k| trn(D1, &format!("t{}", k), vec![post("assets:x", &format!("GBP{}", 100 + k), &[&format!("x{}", k)]), cand(k), post("assets:y", "", &[&format!("y{}", k)])]))
            .collect()]),
    };
    let base: Files = if layout == 2 {
        // The second half comes from another source, without soft matches: merge it by file with its
        // own date first.
        let mut b = base;
        let third = b.remove(2);
        b.remove(1);
        b[0].1.extend(third.1);
        b
    } else {
        base
    };
    let mut s = match src {
        0 => vec![trn(D1, "src", vec![post("assets:a", "GBP10", &["s"])])],
        1 => vec![trn(D1, "src", vec![post("assets:a", "GBP10", &["s"]), post("assets:q", "GBP-10", &["sq"])])],
        2 => vec![trn(D1, "src0", vec![post("assets:q", "GBP-9", &["sq"])]), trn(D1, "src", vec![post("assets:r", "GBP-7", &["sr"]), post("assets:a", "GBP10", &["s"])])],
        3 => vec![trn(D1, "src", vec![unk(post("assets:unknown", "GBP10", &["s", "s2"]))])],
        4 => {
            let mut t = trn(D1, "src", vec![post("assets:a", "GBP10", &["s"])]);
            t.posts[0].c = t.posts[0].c.clone().flag("keepme").val("key", "v").line("text");
            t.c.kv.insert(SRC.into(), "origin".into());
            vec![t]
        }
        _ => vec![trn(D1, "src", vec![bal(post("assets:a", "GBP10", &["s"]), "GBP3")])],
    };
    for t in &mut s {
        if src == 2 {
            t.code = Some("x1".into());
        }
    }
    let mut fs = base.clone();
    fs.push(("src.journal".into(), s));
    resolve_run(e, &fs, &[pick])
}

fn resolve_run(e: &mut Env, fs: &Files, pick: &[usize]) -> R {
    put_files(e, fs);
    let names: Vec<&str> = fs.iter().map(|(n, _)| n.as_str()).collect();
    let r = run_merge(e, &names, "m.journal", Some("u.journal"));
    e.transition();
    ensure!(r.out.ok(), "merge fails", "merge with candidates fails: {}\n{}", r.out.short(), text_of(fs));
    let Some(u) = r.unmerged_text else {
        return fail("not unmerged", format!("nothing is unmerged, although there are candidates\n{}", text_of(fs)));
    };
    let Some((edited, chosen)) = edit(&u, pick) else {
        return fail("unreadable output", format!("unmerged output cannot be read:\n{}", u));
    };
    ensure!(!chosen.is_empty(), "no candidate tags", "unmerged output has no candidate tags:\n{}", u);
    e.sut.put("edited.journal", &edited);
    e.case(true, &(fs.iter().map(|f| &f.1).collect::<Vec<_>>(), pick));
    e.sample(|| format!("{}\n--- edited\n{}", text_of(fs), edited));
    let r2 = run_merge(e, &["m.journal", "edited.journal"], "m2.journal", Some("u2.journal"));
    e.transition();
    let desc = |what: &str| {
        format!(
            "{}: {}\ninputs:\n{}\nmerged:\n{}\nedited unmerged:\n{}\nmerged again:\n{}\nunmerged again:\n{}",
            what,
            r2.out.short(),
            text_of(fs),
            r.merged_text.as_deref().unwrap_or(""),
            edited,
            r2.merged_text.as_deref().unwrap_or("(none)"),
            r2.unmerged_text.as_deref().unwrap_or("(none)")
        )
    };
    ensure!(r2.out.ok(), "resolution fails", "{}", desc("merging the edited unmerged file fails"));
    ensure!(r2.unmerged_text.is_none(), "still unmerged", "{}", desc("still unmerged after resolution"));
    // Exactly the chosen postings got the fingerprints of the edited ones.
    let before = parse(r.merged_text.as_deref().unwrap_or("")).unwrap_or_default();
    let after = parse(r2.merged_text.as_deref().unwrap_or("")).unwrap_or_default();
    let ed = parse(&edited).unwrap_or_default();
    if let Some(m) = &r2.merged_text {
        e.state(m);
    }
    e.validated();
    for t in &ed {
        for p in &t.posts {
            let f = p.fps();
            let hits: Vec<&Post> = after.iter().flat_map(|t| &t.posts).filter(|q| !q.fps().is_disjoint(&f)).collect();
            ensure!(hits.len() == 1 && hits[0].fps().is_superset(&f), "wrong posting", "{}", desc("an edited posting is not in exactly one posting"));
            let was: Vec<&Post> = before.iter().flat_map(|t| &t.posts).filter(|q| !q.fps().is_disjoint(&f)).collect();
            if let Some(w) = was.first() {
                // Postings of different sources can be resolved to the same one.
                let mut want = w.fps();
                for o in ed.iter().flat_map(|t| &t.posts).filter(|o| !o.fps().is_disjoint(&w.fps())) {
                    want.extend(o.fps());
                }
                ensure!(
                    was.len() == 1 && hits[0].fps() == want && hits[0].amt == w.amt,
                    "wrong posting",
                    "{}",
                    desc("an edited posting is not merged into exactly the chosen posting")
                );
            }
        }
    }
    Ok(())
}

/// Two ambiguous postings (in one or two transactions), with choices of different candidates.
fn resolve_many(e: &mut Env, i: usize) -> R {
    let mut d = Dig(i);
    let shape = d.take(3);
    let (x, y) = (d.take(9), d.take(9));
    let layout = d.take(4);
    let na = 2 + x / 3 % 3;
    let nb = 2 + y / 3 % 3;
    let (px, py) = (x % 3 % na, y % 3 % nb);
    let a = |k: usize| post("assets:a", "GBP10", &[&format!("a{}", k)]);
    let b = |k: usize| post("assets:b", "GBP-10", &[&format!("b{}", k)]);
    // All candidates in one transaction, as resolving to different transactions is a conflict.
    let base = match layout {
        0 => vec![trn(D1, "t", (0..na).map(a).chain((0..nb).map(b)).collect())],
        1 => vec![trn(D1, "t", (0..nb).map(b).chain((0..na).map(a)).collect()), trn(D2, "other", vec![a(99)])],
        2 => vec![trn(D2, "other", vec![b(99)]), trn(D1, "t", (0..na.max(nb)).flat_map(|k| [a(k), b(k)]).collect())],
        _ => vec![trn(D1, "t", (0..na).map(a).chain((0..nb).map(b)).collect())],
    };
    let (p, q) = (post("assets:a", "GBP10", &["s1"]), post("assets:b", "GBP-10", &["s2"]));
    let src = match shape {
        0 => vec![trn(D1, "src", vec![p, q])],
        1 => vec![trn(D1, "src1", vec![p]), trn(D1, "src2", vec![q])],
        _ => vec![trn(D1, "src1", vec![p, post("assets:n", "GBP1", &["n1"])]), trn(D2, "clear", vec![post("assets:n", "GBP2", &["n2"])]), trn(D1, "src2", vec![post("assets:n", "GBP3", &["n3"]), q])],
    };
    let fs = files(vec![base, src]);
    resolve_run(e, &fs, &[px, py])
}
