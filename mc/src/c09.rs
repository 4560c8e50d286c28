//! C09: a source directory and its archive define the same document, and the hash tells sources apart.
//! C10: source validation accepts exactly the consistent sources.
//! Both compare with the reference reading of sources in `srcref`.
use crate::c08::{quoted, reference, R};
use crate::infra::*;
use crate::snap::{expect_eq, snap, Doc};
use crate::srcref::{eval, Verdict};
use dochy_core::{archive_file_to_root, archive_file_to_root_with_hash, archive_src_dir, json_dir_to_root, json_dir_to_root_with_hash, read_archive_to_root_with_hash};
use std::collections::HashMap;
use std::path::Path;

pub fn check() -> Check {
    Check {
        id: "C09",
        level: "model_checking",
        rule: "every distribution of eight members (absent, in the root file, in a file of their own), every way of having one of them in two places, every set of up to four small files over a content alphabet made to shift text between names and contents, every single-character change and every rename of every file, file sizes around the block edges with changes of single bytes from the beginning to the end, up to 300 files, all creation orders and noise files. Each source is read as directory and as archive, validated and not, and compared with the reference reading and with one another. A state is a distinct set of files.",
        assumptions: &["file names are valid UTF-8", "no two of the enumerated sources collide in a 128-bit hash by chance"],
        cases,
        run,
        hang_s: 120,
        max_workers: 64,
    }
}

pub fn check10() -> Check {
    Check {
        id: "C10",
        level: "model_checking",
        rule: "eight base sources covering every construct (values, tables, references, enums, mutable lists, nested lists, old marks); every single edit of their syntax trees at every place (delete, duplicate, swap, rename, replace by and insert of every value of a pool holding each kind of value), and every pair of edits of five smaller sources; sources with up to 300 (thorough 4097) items, members, rows or references, consistent or with one flaw. Each source is read with validation on and the verdict and the document are compared with an independent reference reading. A state is a distinct source.",
        assumptions: &["not compared: the few texts on which the rules are silent (see srcref.rs, verdict Open)"],
        cases: cases10,
        run: run10,
        hang_s: 120,
        max_workers: 64,
    }
}

pub fn text(v: &R, o: &mut String) {
    match v {
        R::Null => o.push_str("null"),
        R::Undef => o.push_str("undefined"),
        R::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
        R::Int(i) => o.push_str(&i.to_string()),
        R::Dbl(b) => o.push_str(&format!("{:?}", f64::from_bits(*b))),
        R::Str(s) => o.push_str(&quoted(s, '"')),
        R::Arr(l) => {
            o.push('[');
            for x in l {
                text(x, o);
                o.push_str(", ");
            }
            o.push(']');
        }
        R::Map(l) => {
            o.push('{');
            for (k, x) in l {
                o.push_str(&quoted(k, '"'));
                o.push(':');
                text(x, o);
                o.push_str(", ");
            }
            o.push('}');
        }
    }
}

pub fn txt(v: &R) -> String {
    let mut o = String::new();
    text(v, &mut o);
    o
}

pub fn parse(s: &str) -> R {
    match reference(s) {
        Some(Ok(v)) => v,
        r => panic!("{:?} in {}", r, s),
    }
}

// ------------------------------------------------------------------ C09

fn fragments() -> Vec<(&'static str, R)> {
    [
        ("x", "1"),
        ("s?", r#"["Str", null]"#),
        ("t1", r#"["Table", ["Old", "o"], [{ v : 0, "w?" : ["Int", null] }], { ID : "a", v : 1 }, { ID : "o", w : 7 }]"#),
        ("t2", r#"["Table", [{ k : ["CilDef", [{ q : 1.5 }]], Ref : { t1 : "a" } }], { ID : "p", k : ["Cil", { q : 2.5 }, {}] }, { ID : "q" }]"#),
        ("c", r#"["CList", [{ b : ["Binary", 1, 2], Ref : { "t1?" : null } }], { Ref : { t1 : "a" } }, { b : ["Binary"] }]"#),
        ("l", r#"["MList", ["NextID", 9], [{ x : 0, in : ["MilDef", [{ z : "z" }]] }], { ID : 4, x : 1 }, { in : ["Mil", { z : "y" }] }]"#),
        ("u!", r#"["MList", [{ f : ["FloatArray", 1, 2.5] }], {}]"#),
        ("e", r#"["MList", [{ Enum : { t1 : null, t2 : null } }], { Enum : { t2 : "p" } }, { Enum : { t1 : "a" } }]"#),
    ]
    .iter()
    .map(|(n, t)| (*n, parse(t)))
    .collect()
}

type Files = Vec<(String, R)>;

fn write(dir: &Path, files: &[(String, String)]) {
    std::fs::create_dir_all(dir).unwrap();
    for (n, t) in files {
        std::fs::write(dir.join(n), t).unwrap();
    }
}

fn noise(dir: &Path, k: usize) {
    std::fs::create_dir_all(dir).unwrap();
    if k & 1 != 0 {
        for n in ["x.json", "x.txt", "noext", "y.json5.bak", "root.json", "zz.json5~"] {
            std::fs::write(dir.join(n), "{{{ not a source").unwrap();
        }
    }
    if k & 2 != 0 {
        for n in ["sub", "dir.json5"] {
            std::fs::create_dir_all(dir.join(n)).unwrap();
            std::fs::write(dir.join(n).join("w.json5"), "{ broken").unwrap();
            std::fs::write(dir.join(n).join("root.json5"), "{ w : 1 }").unwrap();
        }
    }
}

fn archive(dir: &Path) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    guard(|| archive_src_dir(dir, &mut v).map_err(|e| e.to_string())).and_then(|r| r).map_err(|e| format!("archiving: {}", e))?;
    Ok(v)
}

/// Reads one source in every way; all must agree with the reference. Gives its hash.
fn read_all(files: &Files, cx: &mut Ctx, full: bool) -> Result<Option<u128>, String> {
    let texts: Vec<(String, String)> = files.iter().map(|(n, v)| (format!("{}.json5", n), txt(v))).collect();
    let want = eval(files);
    let mut hash: Option<u128> = None;
    let mut ok: Option<Doc> = None;
    let (a, b) = (cx.fresh(), cx.fresh());
    for (k, d) in [&a, &b].iter().enumerate() {
        if k == 1 {
            noise(d, 3);
            let mut t = texts.clone();
            t.reverse();
            write(d, &t);
        } else {
            write(d, &texts);
        }
        cx.eval();
        cx.step();
        let got = guard(|| json_dir_to_root_with_hash(d, true).map_err(|e| e.to_string())).map_err(|e| format!("reading {:?} {}", texts, e))?;
        match (&want, got) {
            (Verdict::Open(_), _) => break,
            (Verdict::Reject(_), Err(_)) => {}
            (Verdict::Reject(w), Ok(_)) => return Err(format!("source {:?} has to be refused ({}) and was accepted", texts, w)),
            (Verdict::Accept(_), Err(e)) => return Err(format!("source {:?} was refused: {}", texts, e)),
            (Verdict::Accept(w), Ok((r, h))) => {
                expect_eq(w, &snap(&r).values_only(), &format!("source {:?} read as a directory", texts))?;
                if *hash.get_or_insert(h) != h {
                    return Err(format!("source {:?} has two hashes in two directories", texts));
                }
                ok = Some(w.clone());
            }
        }
        if let Some(w) = &ok {
            let bytes = archive(d)?;
            for val in [true, false] {
                let (r, h) = guard(|| read_archive_to_root_with_hash(&mut bytes.as_slice(), val).map_err(|e| e.to_string()))
                    .and_then(|r| r)
                    .map_err(|e| format!("archive of {:?}: {}", texts, e))?;
                expect_eq(w, &snap(&r).values_only(), &format!("archive of {:?}", texts))?;
                if Some(h) != hash {
                    return Err(format!("archive of {:?} has another hash than the directory", texts));
                }
                cx.step();
            }
            if full {
                let f = d.join("src.arc");
                std::fs::write(&f, &bytes).unwrap();
                let r = archive_file_to_root(&f, true).map_err(|e| format!("archive file of {:?}: {}", texts, e))?;
                expect_eq(w, &snap(&r).values_only(), "archive file")?;
                let (r, h) = archive_file_to_root_with_hash(&f, false).map_err(|e| format!("archive file of {:?}: {}", texts, e))?;
                expect_eq(w, &snap(&r).values_only(), "archive file")?;
                if Some(h) != hash {
                    return Err(format!("the archive file of {:?} has another hash than the directory", texts));
                }
                let r = json_dir_to_root(d, false).map_err(|e| format!("{:?} without validation: {}", texts, e))?;
                expect_eq(w, &snap(&r).values_only(), "without validation")?;
            }
        }
    }
    cx.state(&texts);
    cx.drop_dir(&a);
    cx.drop_dir(&b);
    cx.outcome(if ok.is_some() { "accepted" } else { "refused" });
    Ok(hash)
}

fn spread(n: usize) -> Files {
    let mut root = vec![];
    let mut out = vec![];
    let mut n = n;
    for (name, v) in fragments() {
        match n % 3 {
            1 => root.push((name.to_string(), v)),
            2 => out.push((name.to_string(), v)),
            _ => {}
        }
        n /= 3;
    }
    out.push(("root".to_string(), R::Map(root)));
    out
}

const SPREADS: usize = 6561;

/// hash of the files as they are, whatever they contain
fn raw_hash(dir: &Path) -> Result<u128, String> {
    guard(|| dochy_archiver2::read_archive_data_from_directory(dir, &dochy_core::JSON_ARC_OPT, |_: &str, _: &[u8]| ()).map(|a| a.hash()).map_err(|e| e.to_string()))
        .and_then(|r| r)
        .map_err(|e| format!("hashing: {}", e))
}

fn raw_hash_of_archive(b: &[u8]) -> Result<u128, String> {
    guard(|| dochy_archiver2::read_archive(|_: &str, _: &[u8]| (), &mut &*b).map(|a| a.hash()).map_err(|e| e.to_string())).and_then(|r| r).map_err(|e| format!("hashing an archive: {}", e))
}

const HNAMES: [&str; 4] = ["a", "ab", "b", "a1"];
const HTEXT: [&str; 13] = ["", "1", "2", "11", "12", "\n", "1\n", "b.json5", "1b.json5", "b.json51", "ab.json51", "1a1.json5", "b.json5b.json5"];

fn cases(t: Tier) -> Vec<String> {
    let mut v = vec![];
    let step = 27;
    for i in (0..SPREADS).step_by(step) {
        v.push(format!("spread {} {}", i, (i + step).min(SPREADS)));
    }
    v.push("twice".into());
    for i in 0..=HTEXT.len() {
        for j in 0..=HTEXT.len() {
            v.push(format!("hash {} {}", i, j));
        }
    }
    v.push("hashall".into());
    for f in 0..5 {
        v.push(format!("change {}", f));
    }
    v.push("paths".into());
    for k in 0..t.pick(8, 16) {
        v.push(format!("size {}", k));
    }
    v.push("many".into());
    v.push("bad".into());
    v
}

fn set_files(dir: &Path, name: &str, t: Option<&str>) {
    let p = dir.join(format!("{}.json5", name));
    match t {
        Some(t) => std::fs::write(p, t).unwrap(),
        None => {
            let _ = std::fs::remove_file(p);
        }
    }
}

fn opt(i: usize) -> Option<&'static str> {
    if i == 0 {
        None
    } else {
        Some(HTEXT[i - 1])
    }
}

fn run(case: &str, cx: &mut Ctx) -> Result<(), String> {
    let p: Vec<&str> = case.split(' ').collect();
    let num = |i: usize| -> usize { p[i].parse().unwrap() };
    match p[0] {
        "spread" => {
            for i in num(1)..num(2) {
                let f = spread(i);
                read_all(&f, cx, i % 9 == 0)?;
                cx.beat();
            }
        }
        "twice" => {
            // each member in the root file and in its own file, with the same or another suffix
            for (n, v) in fragments() {
                let base = n.trim_end_matches(|c| c == '?' || c == '!').to_string();
                let small = fragments().into_iter().filter(|(m, _)| m.starts_with('t') && *m != n);
                for s1 in ["", "?", "!", "!?"] {
                    for s2 in ["", "?", "!", "!?"] {
                        let mut root: Vec<(String, R)> = small.clone().map(|(m, v)| (m.to_string(), v)).collect();
                        root.push((format!("{}{}", base, s1), v.clone()));
                        let f: Files = vec![("root".into(), R::Map(root.clone())), (format!("{}{}", base, s2), v.clone())];
                        read_all(&f, cx, false)?;
                        root.pop();
                        if s1 != s2 {
                            let f: Files = vec![(format!("{}{}", base, s1), v.clone()), ("root".into(), R::Map(root)), (format!("{}{}", base, s2), v.clone())];
                            read_all(&f, cx, false)?;
                        }
                    }
                }
            }
        }
        "hash" => {
            // all contents of the other files, for one content of the first two: all hashes differ
            let d = cx.fresh();
            std::fs::create_dir_all(&d).unwrap();
            let mut seen: HashMap<u128, (usize, usize)> = HashMap::new();
            set_files(&d, HNAMES[0], opt(num(1)));
            set_files(&d, HNAMES[1], opt(num(2)));
            for k in 0..=HTEXT.len() {
                set_files(&d, HNAMES[2], opt(k));
                for l in 0..=HTEXT.len() {
                    set_files(&d, HNAMES[3], opt(l));
                    cx.eval();
                    cx.step();
                    let h = raw_hash(&d)?;
                    if let Some(o) = seen.insert(h, (k, l)) {
                        return Err(format!("files {:?} with contents {:?} and {:?} have the same hash", HNAMES, [opt(num(1)), opt(num(2)), opt(k), opt(l)], [opt(num(1)), opt(num(2)), opt(o.0), opt(o.1)]));
                    }
                    cx.state(&(num(1), num(2), k, l));
                }
            }
            cx.beat();
            cx.drop_dir(&d);
            cx.outcome("hashes");
        }
        "hashall" => {
            // all pairs of sets that differ anywhere, with at most two files each
            let d = cx.fresh();
            std::fs::create_dir_all(&d).unwrap();
            let mut seen: HashMap<u128, Vec<(usize, usize)>> = HashMap::new();
            for a in 0..4 {
                for b in a..4 {
                    for k in 1..=HTEXT.len() {
                        for l in if a == b { 0..=0 } else { 1..=HTEXT.len() } {
                            set_files(&d, HNAMES[a], opt(k));
                            if a != b {
                                set_files(&d, HNAMES[b], opt(l));
                            }
                            let h = raw_hash(&d)?;
                            let arc = {
                                let mut v = vec![];
                                archive_src_dir(&d, &mut v).map_err(|e| format!("archiving: {}", e))?;
                                raw_hash_of_archive(&v)?
                            };
                            cx.eval();
                            cx.transitions += 2;
                            if arc != h {
                                return Err(format!("the archive of {} {:?} {} {:?} has another hash", HNAMES[a], opt(k), HNAMES[b], opt(l)));
                            }
                            let s = if a == b { vec![(a, k)] } else { vec![(a, k), (b, l)] };
                            if let Some(o) = seen.insert(h, s.clone()) {
                                let sh = |s: &[(usize, usize)]| s.iter().map(|(n, t)| format!("{}={:?}", HNAMES[*n], HTEXT[*t - 1])).collect::<Vec<_>>().join(" ");
                                return Err(format!("sources {} and {} have the same hash", sh(&s), sh(&o)));
                            }
                            set_files(&d, HNAMES[a], None);
                            set_files(&d, HNAMES[b], None);
                        }
                    }
                }
            }
            cx.drop_dir(&d);
            cx.outcome("hashes");
        }
        "change" => {
            // every single-character change and every rename of one file gives another hash
            let files: Vec<(String, String)> = vec![
                ("root.json5".into(), "{ x : 1, /* c */ Old : [] }".into()),
                ("a.json5".into(), "[\"Str\", null]".into()),
                ("b?.json5".into(), "2".into()),
                ("c.json5".into(), "".into()),
                ("d.json5".into(), "y".repeat(100)),
            ];
            let k = num(1);
            let d = cx.fresh();
            write(&d, &files);
            let h0 = raw_hash(&d)?;
            let (n, t) = &files[k];
            let c: Vec<char> = t.chars().collect();
            let mut alt: Vec<String> = vec![];
            for i in 0..=c.len() {
                let (a, b): (String, String) = (c[..i].iter().collect(), c[i..].iter().collect());
                for e in ["z", " ", "\n", "0", "\u{0}"] {
                    alt.push(format!("{}{}{}", a, e, b));
                }
                if i < c.len() {
                    let b: String = c[i + 1..].iter().collect();
                    alt.push(format!("{}{}", a, b));
                    alt.push(format!("{}{}{}", a, if c[i] == 'z' { 'y' } else { 'z' }, b));
                }
            }
            for x in alt {
                if x == *t {
                    continue;
                }
                std::fs::write(d.join(n), &x).unwrap();
                cx.eval();
                cx.step();
                cx.state(&(k, &x));
                if raw_hash(&d)? == h0 {
                    return Err(format!("changing {} from {:?} to {:?} leaves the hash", n, t, x));
                }
            }
            std::fs::write(d.join(n), t).unwrap();
            for m in ["e.json5", "a1.json5", "A.json5", "_.json5", "roo.json5", "b.json5", "b!.json5", "aa.json5"] {
                if files.iter().any(|(f, _)| f == m) {
                    continue;
                }
                std::fs::rename(d.join(n), d.join(m)).unwrap();
                cx.eval();
                cx.step();
                if raw_hash(&d)? == h0 {
                    return Err(format!("renaming {} to {} leaves the hash", n, m));
                }
                std::fs::rename(d.join(m), d.join(n)).unwrap();
            }
            std::fs::remove_file(d.join(n)).unwrap();
            if raw_hash(&d)? == h0 {
                return Err(format!("removing {} leaves the hash", n));
            }
            // an empty file counts, a file moved away and put back does not
            std::fs::write(d.join(n), t).unwrap();
            if raw_hash(&d)? != h0 {
                return Err("writing the same content again changes the hash".into());
            }
            for k in 1..4 {
                noise(&d, k);
                if raw_hash(&d)? != h0 {
                    return Err("files with other extensions or in subdirectories change the hash".into());
                }
            }
            cx.drop_dir(&d);
            cx.outcome("changes");
        }
        "paths" => {
            // the way the directory is named does not matter
            for i in [1093, 6560, 3280, 13] {
                let f = spread(i);
                let texts: Vec<(String, String)> = f.iter().map(|(n, v)| (format!("{}.json5", n), txt(v))).collect();
                let d = cx.fresh();
                write(&d.join("src"), &texts);
                write(&d.join("other/deep.er/src copy.json5"), &texts);
                std::os::unix::fs::symlink(d.join("src"), d.join("link")).unwrap();
                let forms = ["src", "src/", "src/.", "./src", "src/../src", "other/../src//", "link", "link/", "other/deep.er/src copy.json5"];
                let mut first = None;
                for s in forms {
                    cx.eval();
                    cx.step();
                    let q = d.join(s);
                    let h = raw_hash(&q)?;
                    if *first.get_or_insert(h) != h {
                        return Err(format!("the directory named {:?} has another hash", s));
                    }
                    let b = archive(&q)?;
                    if raw_hash_of_archive(&b)? != h {
                        return Err(format!("the archive of the directory named {:?} has another hash", s));
                    }
                    if let Verdict::Accept(w) = eval(&f) {
                        let r = json_dir_to_root(&q, true).map_err(|e| format!("{:?}: {}", s, e))?;
                        expect_eq(&w, &snap(&r).values_only(), s)?;
                    }
                }
                cx.drop_dir(&d);
            }
            cx.outcome("paths");
        }
        "size" => {
            let sizes = [0usize, 1, 100, 4095, 4096, 65535, 65536, 65537, 131072, 200000, 1 << 20, (1 << 20) + 1, 3 << 20, 127, 128, 1 << 22];
            let n = sizes[num(1)];
            for fill in 0..3usize {
                let mut c = String::from("/*");
                let mut x = 12345u32;
                for i in 0..n {
                    x = x.wrapping_mul(1664525).wrapping_add(1013904223);
                    c.push(match fill {
                        0 => ' ',
                        1 => (b'a' + (x >> 24) as u8 % 26) as char,
                        _ => (b'0' + (i / 1000 % 10) as u8) as char,
                    });
                }
                c.push_str("*/ 5");
                let d = cx.fresh();
                write(&d, &[("root.json5".into(), "{ a : 1 }".into()), ("big.json5".into(), c.clone())]);
                cx.eval();
                let (r, h) = json_dir_to_root_with_hash(&d, true).map_err(|e| format!("{} bytes: {}", n, e))?;
                let b = archive(&d)?;
                let (s, g) = read_archive_to_root_with_hash(&mut b.as_slice(), true).map_err(|e| format!("archive with {} bytes: {}", n, e))?;
                expect_eq(&snap(&r), &snap(&s), "archive of a large source")?;
                if h != g {
                    return Err(format!("a source of {} bytes and its archive have different hashes", n));
                }
                let mut at: Vec<usize> = vec![2, 65537, n / 4, n / 2, n / 4 * 3, n.saturating_sub(4094), n + 1, n + 5];
                at.retain(|a| *a >= 2 && (*a < n + 2 || *a == n + 5));
                for a in at {
                    let mut x = c.clone().into_bytes();
                    x[a] = if x[a] == b'6' { b'5' } else { b'6' };
                    std::fs::write(d.join("big.json5"), &x).unwrap();
                    cx.eval();
                    if json_dir_to_root_with_hash(&d, true).map_err(|e| e.to_string())?.1 == h {
                        return Err(format!("sources of {} bytes have the same hash although byte {} differs", n, a));
                    }
                }
                cx.beat();
                cx.drop_dir(&d);
            }
            cx.outcome("sizes");
        }
        "many" => {
            for n in [0usize, 1, 2, 17, 127, 128, 129, 255, 256, 300] {
                let mut f: Files = vec![("root".into(), R::Map(vec![("z".into(), R::Int(1))]))];
                for i in 0..n {
                    f.push((format!("m{}", (i * 7919) % 1009), R::Int(i as i64)));
                }
                read_all(&f, cx, true)?;
                cx.beat();
            }
        }
        "bad" => {
            // sources that cannot be read: an error, as directory and as archive
            let bad: Vec<(&str, Vec<(&str, &[u8])>)> = vec![
                ("no root", vec![("a.json5", b"1")]),
                ("nothing", vec![]),
                ("not utf-8", vec![("root.json5", b"{}"), ("a.json5", b"\"\xff\"")]),
                ("root not utf-8", vec![("root.json5", b"{ a : \"\xc3\" }")]),
                ("broken item", vec![("root.json5", b"{}"), ("a.json5", b"{")]),
                ("broken root", vec![("root.json5", b"{ a : }")]),
                ("root is an array", vec![("root.json5", b"[1]")]),
                ("empty root", vec![("root.json5", b"")]),
                ("empty item", vec![("root.json5", b"{}"), ("a.json5", b"")]),
                ("item is an object", vec![("root.json5", b"{}"), ("a.json5", b"{}")]),
                ("item is null", vec![("root.json5", b"{}"), ("a.json5", b"null")]),
                ("item name", vec![("root.json5", b"{}"), ("A.json5", b"1")]),
                ("item name with a dot", vec![("root.json5", b"{}"), ("a.b.json5", b"1")]),
                ("system name", vec![("root.json5", b"{}"), ("Old.json5", b"[]")]),
                ("suffix", vec![("root.json5", b"{}"), ("a??.json5", b"1")]),
                ("inner list", vec![("root.json5", b"{}"), ("a.json5", b"[\"Cil\", {}]")]),
            ];
            // alone and among files that can be read
            let beside: [&[&str]; 4] = [&[], &["a0"], &["zz"], &["_", "a0", "b", "zz"]];
            for (what, files, more) in bad.iter().flat_map(|(w, f)| beside.iter().map(move |m| (w, f, m))) {
                let what = format!("{} beside {:?}", what, more);
                let d = cx.fresh();
                std::fs::create_dir_all(&d).unwrap();
                for (n, t) in files {
                    std::fs::write(d.join(n), t).unwrap();
                }
                for n in more.iter() {
                    std::fs::write(d.join(format!("{}.json5", n)), "1").unwrap();
                }
                for val in [true, false] {
                    cx.eval();
                    cx.step();
                    if guard(|| json_dir_to_root(&d, val).is_ok()).map_err(|e| format!("{}: {}", what, e))? {
                        return Err(format!("{}: accepted", what));
                    }
                    let b = archive(&d)?;
                    if guard(|| read_archive_to_root_with_hash(&mut b.as_slice(), val).is_ok()).map_err(|e| format!("archive, {}: {}", what, e))? {
                        return Err(format!("{}: archive accepted", what));
                    }
                }
                cx.drop_dir(&d);
            }
            let d = cx.fresh();
            if guard(|| json_dir_to_root(&d, true).is_ok())? {
                return Err("a missing directory was read".into());
            }
            cx.outcome("refused");
        }
        _ => return Err(format!("unknown case {}", case)),
    }
    Ok(())
}

// ------------------------------------------------------------------ C10

fn bases() -> Vec<R> {
    [
        r#"{ a : 1, "b?" : ["Str", null], "c!" : ["Float", undefined], "d!?" : ["IntArray", 1, 2], e : ["FloatArray", 1, ["Float", 2]], f : ["Binary", 0, 255], g : true, h : [3, 4], Old : ["a"] }"#,
        r#"{ t1 : ["Table", ["Old", "o"], [{ v : 0, "w?" : ["Int", null] }], { ID : "a", v : 1 }, { ID : "o" }],
             t2 : ["Table", [{ v : 0, Ref : { t1 : "a" } }], { ID : "p", Ref : { t1 : "a" } }, { ID : "q" }],
             c : ["CList", [{ x : 1, y : 2, Old : ["y"], Ref : { t1 : "", "t2?" : null, Old : ["t2"] } }], { x : 2, Ref : { t1 : "a" } }] }"#,
        r#"{ t1 : ["Table", [{ v : 0 }], { ID : "a" }], t2 : ["Table", ["Old", "p"], [{ v : 0 }], { ID : "p" }, { ID : "a" }],
             e : ["CList", [{ z : 0, Enum : { t1 : null, "t2?" : null } }], { Enum : { t1 : "a" } }, { z : 4, Enum : { t2 : "a" } }],
             m : ["MList", [{ z : 0, Enum : { t1 : null, t2 : null, Old : ["t1"] } }], { Enum : { t2 : "a" } }] }"#,
        r#"{ l : ["MList", ["NextID", 9], ["Default", { x : 0, "y?" : 1, in : ["MilDef", [{ z : 0, Ref : { t : "a" } }]], "un!" : ["MilDef", [{ b : true }]] }],
               { ID : 3, x : 1 }, { in : ["Mil", ["NextID", 4], { ID : 2, z : 1 }, { z : 5 }], un : ["__InnerMutUndefined"] }],
             t : ["Table", [{ v : 0 }], { ID : "a" }], "k!" : ["MList", [{ v : 0.5 }]] }"#,
        r#"{ c : ["CList", [{ x : 0, k : ["CilDef", [{ w : 0, kk : ["CilDef", [{ u : true }]] }]] }], { k : ["Cil", { w : 1, kk : ["Cil", { u : false }] }, {}] }, {}],
             t : ["Table", [{ k : ["CilDef", [{ w : 0, Old : ["w"] }]] }], { ID : "a", k : ["Cil", {}] }] }"#,
        // old marks at every level
        r#"{ t : ["Table", ["Old", "o"], [{ v : 0 }], { ID : "a" }, { ID : "o" }], t2 : ["Table", [{ v : 0 }], { ID : "a" }],
             c : ["CList", [{ x : 0, k : ["CilDef", [{ w : 0, y : 0, Old : ["y"], Ref : { t : "a", "t2?" : null, Old : ["t2"] }, kk : ["CilDef", [{ u : 0, y : 0, Old : ["y"], Ref : { t : "a", "t2?" : null, Old : ["t2"] } }]] }]] }],
               { k : ["Cil", { w : 1, Ref : { t : "a" }, kk : ["Cil", { u : 1, Ref : { t : "a" } }] }] }] }"#,
        r#"{ t : ["Table", ["Old", "o"], [{ v : 0 }], { ID : "a" }, { ID : "o" }], t2 : ["Table", [{ v : 0 }], { ID : "a" }],
             m : ["MList", [{ x : 0, y : 0, Old : ["y"], Ref : { t : "a", "t2?" : null, Old : ["t2"] }, k : ["MilDef", [{ w : 0, y : 0, Old : ["y"], Ref : { t : "a", "t2?" : null, Old : ["t2"] }, kk : ["MilDef", [{ u : 0, Ref : { t : "a" } }]] }]] }],
               { x : 1, Ref : { t : "a" }, k : ["Mil", { w : 1, Ref : { t : "a" }, kk : ["Mil", { u : 1, Ref : { t : "a" } }] }] }] }"#,
        r#"{ t : ["Table", ["Old", "o"], [{ v : 0 }], { ID : "a" }, { ID : "o" }], t2 : ["Table", ["Old", "a"], [{ k : ["CilDef", [{ v : 0, Ref : { t : "a" } }]] }], { ID : "p", k : ["Cil", { Ref : { t : "a" } }] }, { ID : "a" }],
             m : ["MList", [{ x : 0, k : ["MilDef", [{ w : 0, Enum : { t : null, t2 : null, Old : ["t2"] } }]] }], { k : ["Mil", { Enum : { t : "a" } }] }],
             c : ["CList", [{ x : 0, k : ["CilDef", [{ w : 0, Enum : { t : null, "t2?" : null, Old : ["t2"] } }]] }], { k : ["Cil", { Enum : { t : "a" } }] }] }"#,
    ]
    .iter()
    .map(|s| parse(s))
    .collect()
}

/// smaller ones for pairs of edits
fn small() -> Vec<R> {
    [
        r#"{ a : 1, "b?" : ["Str", null], "c!" : [3], Old : ["a"] }"#,
        r#"{ t : ["Table", ["Old", "o"], [{ v : 0 }], { ID : "a" }, { ID : "o" }], c : ["CList", [{ Ref : { t : "", Old : [] } }], { Ref : { t : "a" } }] }"#,
        r#"{ t : ["Table", [{ v : 0 }], { ID : "a" }], e : ["CList", [{ Enum : { t : null } }], { Enum : { t : "a" } }] }"#,
        r#"{ l : ["MList", ["NextID", 3], [{ x : 0, in : ["MilDef", [{ z : 0 }]] }], { ID : 1, in : ["Mil", { z : 5 }] }] }"#,
        r#"{ c : ["CList", [{ x : 0, k : ["CilDef", [{ w : 0 }]], Old : ["x"] }], { k : ["Cil", { w : 1 }] }] }"#,
    ]
    .iter()
    .map(|s| parse(s))
    .collect()
}

struct Pool {
    vals: Vec<R>,
    keys: Vec<&'static str>,
    ins_keys: Vec<&'static str>,
    ins_vals: Vec<R>,
    elems: Vec<R>,
}

fn pool(full: bool) -> Pool {
    let p = |l: &[&str]| -> Vec<R> { l.iter().map(|s| parse(s)).collect() };
    if full {
        Pool {
            vals: p(&[
                "null", "undefined", "true", "0", "1", "-1", "256", "9223372036854775807", "1.5", "2.0", "''", "'a'", "'o'", "'zz'", "'Old'", "'a?'", "[]", "{}", "[1]", "['Int',null]", "['Str',undefined]", "['Float',1]", "['IntArray']", "['FloatArray',null]",
                "['Binary',7]", "['Cil',{}]", "['Mil',{}]", "['Mil']", "['__InnerMutUndefined']", "['CilDef',[{}]]", "['MilDef',[{}]]", "['CList',[{}]]", "['Table',[{}]]", "['MList',[{}]]", "['Nope',1]", "['a']", "{t:'a'}", "{t1:'a',t2:'a'}", "{x:1}",
            ]),
            keys: vec!["a", "t", "t1", "t2", "v", "x", "zz", "", "A", "a b", "9x", "_9", "@p", "ID", "Old", "Ref", "Enum", "NextID"],
            ins_keys: vec!["x", "v", "y", "t2", "zz", "n?", "ID", "Old", "Ref", "Enum"],
            ins_vals: p(&["1", "'a'", "null", "['Int',null]", "['a']", "[]", "{t1:'a'}", "{t:'a'}", "['Cil',{}]", "['MilDef',[{q:1}]]"]),
            elems: p(&["1", "300", "1.5", "null", "undefined", "'a'", "'zz'", "true", "{}", "{ID:'z'}", "{ID:7}", "{ID:0}", "[]", "[{}]", "['Old','a']", "['Old']", "['NextID',2]", "['NextID',-1]", "['NextID','a']", "['Default',{}]", "['Compatible']", "['Float',3]"]),
        }
    } else {
        Pool {
            vals: p(&["null", "undefined", "0", "2", "1.5", "''", "'a'", "'o'", "['Int',null]", "['Cil',{}]", "['Mil',{}]", "['CilDef',[{}]]", "['MilDef',[{}]]", "['Table',[{}]]"]),
            keys: vec!["a", "t", "x", "ID", "Ref", "Enum", "Old"],
            ins_keys: vec!["x", "ID", "Old"],
            ins_vals: p(&["1", "'a'", "['x']"]),
            elems: p(&["1", "null", "'x'", "{}", "{ID:'a'}", "{ID:2}", "['NextID',2]", "['Old','a']"]),
        }
    }
}

fn tiny() -> Pool {
    Pool { vals: pool(false).vals.into_iter().step_by(3).collect(), keys: vec!["a"], ins_keys: vec!["x"], ins_vals: vec![R::Int(1)], elems: vec![parse("{}")] }
}

/// every single edit of the tree
fn edits(v: &R, pl: &Pool, top: bool, out: &mut dyn FnMut(R)) {
    if !top {
        for x in &pl.vals {
            if x != v {
                out(x.clone());
            }
        }
    }
    match v {
        R::Arr(l) => {
            for i in 0..=l.len() {
                for e in &pl.elems {
                    let mut m = l.clone();
                    m.insert(i, e.clone());
                    out(R::Arr(m));
                }
                if i == l.len() {
                    break;
                }
                let mut m = l.clone();
                m.remove(i);
                out(R::Arr(m));
                let mut m = l.clone();
                m.insert(i, l[i].clone());
                out(R::Arr(m));
                if i + 1 < l.len() {
                    let mut m = l.clone();
                    m.swap(i, i + 1);
                    out(R::Arr(m));
                }
                edits(&l[i], pl, false, &mut |x| {
                    let mut m = l.clone();
                    m[i] = x;
                    out(R::Arr(m));
                });
            }
        }
        R::Map(l) => {
            let free = |k: &str| !l.iter().any(|(n, _)| n == k);
            for k in &pl.ins_keys {
                for x in &pl.ins_vals {
                    if free(k) {
                        let mut m = l.clone();
                        m.push((k.to_string(), x.clone()));
                        out(R::Map(m));
                    }
                }
            }
            for i in 0..l.len() {
                let mut m = l.clone();
                m.remove(i);
                out(R::Map(m));
                if i + 1 < l.len() {
                    let mut m = l.clone();
                    m.swap(i, i + 1);
                    out(R::Map(m));
                }
                let base = l[i].0.trim_end_matches(|c| c == '!' || c == '?').to_string();
                let mut names: Vec<String> = pl.keys.iter().map(|s| s.to_string()).collect();
                for s in ["", "?", "!", "!?", "?!", "!!", "??", "!?!", "?!?"] {
                    names.push(format!("{}{}", base, s));
                }
                for n in &names {
                    if free(n) {
                        let mut m = l.clone();
                        m[i].0 = n.clone();
                        out(R::Map(m));
                        // the same member once more under this name
                        if n.starts_with(&base) {
                            let mut m = l.clone();
                            m.push((n.clone(), l[i].1.clone()));
                            out(R::Map(m));
                        }
                    }
                }
                edits(&l[i].1, pl, false, &mut |x| {
                    let mut m = l.clone();
                    m[i].1 = x;
                    out(R::Map(m));
                });
            }
        }
        _ => {}
    }
}

fn all_edits(v: &R, pl: &Pool) -> Vec<R> {
    let mut o = vec![];
    edits(v, pl, true, &mut |x| o.push(x));
    o
}

fn judge10(v: &R, d: &Path, cx: &mut Ctx) -> Result<(), String> {
    let t = txt(v);
    if !cx.state(&t) {
        return Ok(());
    }
    cx.eval();
    cx.step();
    let want = eval(&[("root".to_string(), v.clone())]);
    std::fs::write(d.join("root.json5"), &t).unwrap();
    let got = guard(|| json_dir_to_root(d, true).map(|r| snap(&r).values_only()).map_err(|e| e.to_string())).map_err(|e| format!("source {} {}", t, e))?;
    match (want, got) {
        (Verdict::Accept(w), Ok(g)) => {
            cx.outcome("accepted");
            expect_eq(&w, &g, &format!("source {}", t))
        }
        (Verdict::Accept(_), Err(e)) => Err(format!("source {} is consistent and was refused: {}", t, e)),
        (Verdict::Reject(w), Ok(_)) => Err(format!("source {} has to be refused ({}) and was accepted", t, w)),
        (Verdict::Reject(_), Err(_)) => {
            cx.outcome("refused");
            Ok(())
        }
        (Verdict::Open(_), _) => {
            cx.outcome("not compared");
            Ok(())
        }
    }
}

fn cases10(t: Tier) -> Vec<String> {
    let mut v = vec![];
    for n in [1, 2, 16, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300].iter().chain(if t.thorough() { &[1000usize, 4097][..] } else { &[][..] }) {
        v.push(format!("large {}", n));
    }
    for b in 0..bases().len() {
        v.push(format!("base {}", b));
        let m = 24;
        for i in 0..m {
            v.push(format!("single {} {} {}", b, i, m));
        }
    }
    for b in 0..small().len() {
        let m = 64;
        for i in 0..m {
            v.push(format!("pair {} {} {}", b, i, m));
        }
    }
    for b in 0..small().len() {
        let m = 64;
        for i in 0..m {
            v.push(format!("grow {} {} {}", b, i, m));
        }
    }
    if t.thorough() {
        for b in 0..bases().len() {
            let m = 200;
            for i in 0..m {
                v.push(format!("deep {} {} {}", b, i, m));
            }
        }
    }
    v
}

/// Sources with n items, members, table rows or references, consistent or with one flaw at place k.
fn large(n: usize, k: usize) -> Vec<String> {
    let list = |f: &dyn Fn(usize) -> String| (0..n).map(|i| f(i)).collect::<Vec<_>>().join(", ");
    let bad = |i: usize, a: &str, b: &str| if i == k { b.to_string() } else { a.to_string() };
    let mut v = vec![];
    for (kind, id) in [("MList", false), ("MList", true), ("CList", false), ("Table", true)] {
        let name = |i: usize| match (kind, id) {
            (_, false) => String::new(),
            ("MList", _) => format!("ID : {}, ", n - i),
            _ => format!("ID : \"r{}\", ", i),
        };
        let twice = |i: usize| if id && i == k && n > 1 { name((k + 1) % n) } else { name(i) };
        v.push(format!("{{ l : [\"{kind}\", [{{ x : 0 }}], {}] }}", list(&|i| format!("{{ {}x : {} }}", name(i), i))));
        v.push(format!("{{ l : [\"{kind}\", [{{ x : 0 }}], {}] }}", list(&|i| format!("{{ {}x : {} }}", twice(i), i))));
        v.push(format!("{{ l : [\"{kind}\", [{{ x : 0 }}], {}] }}", list(&|i| format!("{{ {}{} : {} }}", name(i), bad(i, "x", "y"), i))));
        v.push(format!("{{ l : [\"{kind}\", [{{ x : 0 }}], {}] }}", list(&|i| format!("{{ {}x : {} }}", name(i), bad(i, "1", "1.5")))));
    }
    for (outer, def, inner) in [("MList", "MilDef", "Mil"), ("CList", "CilDef", "Cil")] {
        for m in ["x", "y"] {
            let items = list(&|i| format!("{{ {} : {} }}", bad(i, "x", m), i));
            v.push(format!("{{ l : [\"{outer}\", [{{ k : [\"{def}\", [{{ x : 0 }}]] }}], {{ k : [\"{inner}\", {items}] }}] }}"));
        }
    }
    for (a, b) in [("1", "1"), ("1", "null"), ("[\"Str\", \"a\"]", "[]")] {
        v.push(format!("{{ {} }}", list(&|i| format!("m{} : {}", i, bad(i, a, b)))));
        v.push(format!("{{ l : [\"MList\", [{{ {} }}]] }}", list(&|i| format!("m{} : {}", i, bad(i, a, b)))));
        v.push(format!("{{ l : [\"MList\", [{{ {} }}], {{ {} }}] }}", list(&|i| format!("m{} : 0", i)), list(&|i| format!("m{} : {}", i, bad(i, "1", b)))));
    }
    for id in ["a", "b"] {
        let tabs = list(&|i| format!("t{} : [\"Table\", [{{ v : 0 }}], {{ ID : \"a\" }}]", i));
        v.push(format!("{{ {}, l : [\"CList\", [{{ Ref : {{ {} }} }}], {{}}] }}", tabs, list(&|i| format!("t{} : \"{}\"", i, bad(i, "a", id)))));
        v.push(format!("{{ {}, l : [\"MList\", [{{ Ref : {{ {} }} }}], {{ Ref : {{ {} }} }}] }}", tabs, list(&|i| format!("t{} : \"a\"", i)), list(&|i| format!("t{} : \"{}\"", i, bad(i, "a", id)))));
        v.push(format!("{{ {}, Old : [{}] }}", tabs, list(&|i| format!("\"{}{}\"", bad(i, "t", if id == "a" { "t" } else { "u" }), i))));
    }
    v
}

fn run10(case: &str, cx: &mut Ctx) -> Result<(), String> {
    if let Some(s) = case.strip_prefix("text ") {
        let d = cx.fresh();
        std::fs::create_dir_all(&d).unwrap();
        return judge10(&parse(s), &d, cx);
    }
    let p: Vec<&str> = case.split(' ').collect();
    let num = |i: usize| -> usize { p[i].parse().unwrap() };
    let d = cx.fresh();
    std::fs::create_dir_all(&d).unwrap();
    match p[0] {
        "large" => {
            let n = num(1);
            let mut ks = vec![0, 1, n / 2, n - 1];
            ks.dedup();
            for k in ks.into_iter().filter(|k| *k < n) {
                for t in large(n, k) {
                    judge10(&parse(&t), &d, cx)?;
                    cx.beat();
                }
            }
        }
        "base" => {
            for b in bases().iter().skip(num(1)).take(1).chain(small().iter().skip(num(1)).take(1)) {
                if !matches!(eval(&[("root".to_string(), b.clone())]), Verdict::Accept(_)) {
                    return Err(format!("machinery: base {} is not valid: {:?}", txt(b), eval(&[("root".to_string(), b.clone())])));
                }
                judge10(b, &d, cx)?;
            }
        }
        "single" => {
            let l = all_edits(&bases()[num(1)], &pool(true));
            for (i, x) in l.iter().enumerate() {
                if i % num(3) == num(2) {
                    judge10(x, &d, cx)?;
                }
            }
        }
        "grow" => {
            // edits of the consistent sources among the edits
            let l = all_edits(&small()[num(1)], &pool(true));
            for (i, x) in l.iter().enumerate() {
                if i % num(3) == num(2) && matches!(eval(&[("root".to_string(), x.clone())]), Verdict::Accept(_)) {
                    for y in all_edits(x, &pool(cx.tier.thorough())) {
                        judge10(&y, &d, cx)?;
                        if cx.tier.thorough() && txt(&y).len() <= 100 && matches!(eval(&[("root".to_string(), y.clone())]), Verdict::Accept(_)) {
                            for z in all_edits(&y, &tiny()) {
                                judge10(&z, &d, cx)?;
                            }
                            cx.beat();
                        }
                    }
                    cx.beat();
                }
            }
        }
        "pair" | "deep" => {
            let deep = p[0] == "deep";
            let l = if deep { all_edits(&bases()[num(1)], &pool(true)) } else { all_edits(&small()[num(1)], &pool(false)) };
            let second = if deep || !cx.tier.thorough() { tiny() } else { pool(false) };
            for (i, x) in l.iter().enumerate() {
                if i % num(3) == num(2) {
                    for y in all_edits(x, &second) {
                        judge10(&y, &d, cx)?;
                    }
                    cx.beat();
                }
            }
        }
        _ => return Err(format!("unknown case {}", case)),
    }
    cx.drop_dir(&d);
    Ok(())
}
