//! C25: archives of directories: the files the options select, with their contents, and a hash of exactly these.
use crate::infra::*;
use dochy_archiver2::{read_archive, read_archive_data_from_directory, write_archive, ArchiveData, ArchiveOptions, ArchiveOptionsBuilder};
use std::collections::{BTreeMap, HashMap};
use std::io::Read;
use std::path::Path;
use std::sync::{Arc, Mutex};

pub fn check() -> Check {
    Check {
        id: "C25",
        level: "model_checking",
        rule: "trees: every subset of the paths of a fixed tree (files with and without extension, hidden, with several dots, in directories whose names look like files, three levels deep, empty directories), under every combination of extension filter and subfolder option; contents: every pair of boundary contents (empty, one byte, 65535-65537 bytes, 1 MB, compressible and not) in two files, and each of them with one byte changed from its beginning to its end; names: unusual names (blanks, dots, case, composed characters, length) alone and in pairs; each made twice in different orders and places. The selected files, their contents, what the converter was called with, the hash, and the same after writing and reading back through readers of different chunk sizes, with another archive following in the stream, are compared with the list computed from the tree. A state is a distinct set of files; transitions are archives read.",
        assumptions: &["file names are valid UTF-8", "no links"],
        cases: |t| {
            let mut v: Vec<String> = (0..16).map(|i| format!("trees {}", i)).collect();
            for i in 0..CONTENTS.len() {
                v.push(format!("contents {}", i));
            }
            v.push("border 0".into());
            v.push("names 0".into());
            if t.thorough() {
                v.extend((0..64).map(|i| format!("deep {}", i)));
            }
            v
        },
        run,
        hang_s: 120,
        max_workers: 8,
    }
}

type Files = BTreeMap<String, Vec<u8>>;

const PATHS: [&str; 10] = ["a.json5", "b", ".json5", "x.txt.json5", "d/a.json5", "d/c.txt", "d.json5/a.json5", "d/e/b.json5", "d/e/A.JSON5", "ab/"];
const MORE: [&str; 4] = ["d/f/", "d/e/f/g.json5", "c.tar.txt", "d/e.json5"];
/// (length, pattern)
const CONTENTS: [(usize, u8); 10] = [(0, 0), (1, 0), (1, 1), (127, 2), (65535, 0), (65536, 2), (65537, 2), (65537, 0), (300, 1), (1 << 20, 2)];
const EXTS: [&[&str]; 5] = [&[], &["json5"], &["json5", "txt"], &[""], &["JSON5"]];

fn content(n: usize, p: u8) -> Vec<u8> {
    let mut x = 12345u32;
    (0..n)
        .map(|i| match p {
            0 => b'x',
            1 => (i % 7) as u8,
            _ => {
                x = x.wrapping_mul(1664525).wrapping_add(1013904223);
                (x >> 24) as u8
            }
        })
        .collect()
}

fn options(exts: &[&str], sub: bool) -> ArchiveOptions {
    // by default subfolders are taken, and every file
    if sub && exts.is_empty() {
        return ArchiveOptions::new();
    }
    let mut b = ArchiveOptionsBuilder::new();
    if !sub || exts.len() > 1 {
        b = b.archive_subfolders(sub);
    }
    for e in exts {
        b = b.add_extension(e);
    }
    b.build().unwrap()
}

/// the extension is what follows the last dot, unless nothing comes before it
fn ext(path: &str) -> &str {
    let n = path.rsplit('/').next().unwrap();
    match n.rfind('.') {
        Some(i) if i > 0 => &n[i + 1..],
        _ => "",
    }
}

fn make(dir: &Path, paths: &[(&str, Vec<u8>)]) {
    std::fs::create_dir_all(dir).unwrap();
    for (p, c) in paths {
        let f = dir.join(p);
        if p.ends_with('/') {
            std::fs::create_dir_all(f).unwrap();
        } else {
            std::fs::create_dir_all(f.parent().unwrap()).unwrap();
            std::fs::write(f, c).unwrap();
        }
    }
}

type Calls = Arc<Mutex<Vec<(String, Vec<u8>)>>>;

/// the converted data are the length and the first byte of the file, and its name
type T = (String, usize, Option<u8>);

fn converter(calls: &Calls) -> impl Fn(&str, &[u8]) -> T + Send + Sync + 'static {
    let c = calls.clone();
    move |n: &str, b: &[u8]| {
        c.lock().unwrap().push((n.to_string(), b.to_vec()));
        (n.to_string(), b.len(), b.first().copied())
    }
}

struct Slow<'a>(&'a [u8], usize);

impl<'a> Read for Slow<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.1.min(buf.len()).min(self.0.len());
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

fn judge(what: &str, a: &ArchiveData<T>, calls: &Calls, want: &Files) -> Result<(), String> {
    let got: Files = a.btree().iter().map(|(k, v)| (k.clone(), (**v.raw_data()).clone())).collect();
    if &got != want {
        return Err(format!("{}: the files are {:?} instead of {:?}", what, brief(&got), brief(want)));
    }
    for (k, v) in a.btree() {
        let w = &want[k];
        if v.converted_data() != &(k.clone(), w.len(), w.first().copied()) {
            return Err(format!("{}: {} was converted to {:?}", what, k, v.converted_data()));
        }
    }
    let mut c = std::mem::take(&mut *calls.lock().unwrap());
    c.sort();
    if c != want.clone().into_iter().collect::<Vec<_>>() {
        return Err(format!("{}: the converter was called for {:?}", what, c.iter().map(|x| (&x.0, x.1.len())).collect::<Vec<_>>()));
    }
    Ok(())
}

fn brief(f: &Files) -> Vec<(&str, usize)> {
    f.iter().map(|(k, v)| (k.as_str(), v.len())).collect()
}

struct Seen {
    hashes: HashMap<u128, u64>,
}

fn one(cx: &mut Ctx, seen: &mut Seen, dirs: &[&Path], paths: &[(&str, Vec<u8>)], exts: &[&str], sub: bool, chunks: &[usize]) -> Result<(), String> {
    let opt = options(exts, sub);
    let want: Files = paths.iter().filter(|(p, _)| !p.ends_with('/') && (sub || !p.contains('/')) && (exts.is_empty() || exts.contains(&ext(p)))).map(|(p, c)| (p.to_string(), c.clone())).collect();
    let key = hash_of(&want);
    cx.state(&want);
    let calls = Calls::default();
    let mut hash = None;
    let mut bytes: Option<Vec<u8>> = None;
    for d in dirs {
        cx.eval();
        cx.step();
        let a = guard(|| read_archive_data_from_directory(d, &opt, converter(&calls)).map_err(|e| e.to_string())).and_then(|x| x).map_err(|e| format!("reading the directory: {}", e))?;
        judge("from the directory", &a, &calls, &want)?;
        if *hash.get_or_insert(a.hash()) != a.hash() {
            return Err("the same files in another place have another hash".into());
        }
        let mut v = vec![];
        write_archive(&a, &mut v).map_err(|e| format!("writing: {}", e))?;
        if *bytes.get_or_insert_with(|| v.clone()) != v {
            return Err("the same files in another place give another archive".into());
        }
    }
    let (hash, bytes) = (hash.unwrap(), bytes.unwrap());
    if *seen.hashes.entry(hash).or_insert(key) != key {
        return Err("different files have the same hash".into());
    }
    // two archives in one stream
    let mut twice = bytes.clone();
    twice.extend(&bytes);
    for c in chunks {
        let mut r = Slow(&twice, *c);
        for k in 0..2 {
            cx.eval();
            cx.step();
            let a = guard(|| read_archive(converter(&calls), &mut r).map_err(|e| e.to_string())).and_then(|x| x).map_err(|e| format!("reading archive {} of two, {} bytes at a time: {}", k, c, e))?;
            judge("from the archive", &a, &calls, &want)?;
            if a.hash() != hash {
                return Err("the archive has another hash than its directory".into());
            }
        }
        if !r.0.is_empty() {
            return Err("not all of the archive was read".into());
        }
    }
    Ok(())
}

fn run(case: &str, cx: &mut Ctx) -> Result<(), String> {
    let (kind, n) = case.split_once(' ').unwrap();
    let n: usize = n.parse().unwrap();
    let mut seen = Seen { hashes: HashMap::new() };
    if kind == "contents" {
        let (l, p) = CONTENTS[n];
        for (l2, p2) in CONTENTS {
            let paths = [("a.json5", content(l, p)), ("d/b", content(l2, p2))];
            both(cx, &mut seen, &paths, &[&EXTS[0]], &[1000, usize::MAX])?;
        }
        // every byte counts
        for at in [0, 1, l / 4, l / 2, l / 4 * 3, l.saturating_sub(2), l.wrapping_sub(1)] {
            if at < l {
                let mut c = content(l, p);
                c[at] ^= 0x80;
                both(cx, &mut seen, &[("a.json5", c)], &[&EXTS[0]], &[usize::MAX])?;
            }
        }
        return Ok(());
    }
    if kind == "border" {
        // names and contents that run into each other
        let names = ["a", "ab", "b", "ba"];
        let texts = ["", "a", "b", "ab", "ba"];
        for i in 0..names.len() {
            for t in texts {
                both(cx, &mut seen, &[(names[i], t.into())], &[&EXTS[0]], &[usize::MAX])?;
                for j in i + 1..names.len() {
                    for u in texts {
                        both(cx, &mut seen, &[(names[i], t.into()), (names[j], u.into())], &[&EXTS[0]], &[usize::MAX])?;
                    }
                }
            }
        }
        return Ok(());
    }
    if kind == "names" {
        let long = "n".repeat(250);
        let names = ["a", "A", " a", "a ", "a b.json5", " .json5", "a.json5 ", "d /x", " d/x", "d/ x", "é漢.json5", "~", "#", "a\\b", "a..b", "..a", "a.", "a:b", "%41", "\t", "a\n", "\u{feff}a", "e\u{301}", "\u{e9}", &long];
        for i in 0..names.len() {
            both(cx, &mut seen, &[(names[i], content(5, 1))], &[EXTS[0], EXTS[1], EXTS[3]], &[1, usize::MAX])?;
            for j in i + 1..names.len() {
                both(cx, &mut seen, &[(names[i], content(5, 1)), (names[j], content(i + 2, 1))], &[EXTS[0]], &[usize::MAX])?;
            }
        }
        return Ok(());
    }
    let (parts, all): (usize, Vec<&str>) = if kind == "deep" { (64, PATHS.iter().chain(&MORE).copied().collect()) } else { (16, PATHS.to_vec()) };
    for set in 0..1usize << all.len() {
        if set % parts != n {
            continue;
        }
        let paths: Vec<(&str, Vec<u8>)> = (0..all.len()).filter(|i| set >> i & 1 == 1).map(|i| (all[i], content(i * 3, (i % 3) as u8))).collect();
        both(cx, &mut seen, &paths, &EXTS, &[1, usize::MAX])?;
    }
    Ok(())
}

fn both(cx: &mut Ctx, seen: &mut Seen, paths: &[(&str, Vec<u8>)], exts: &[&[&str]], chunks: &[usize]) -> Result<(), String> {
    let dir = cx.fresh();
    let (a, b) = (dir.join("one"), dir.join("other place/x.json5"));
    make(&a, paths);
    let mut back = paths.to_vec();
    back.reverse();
    make(&b, &back);
    for e in exts {
        for sub in [false, true] {
            one(cx, seen, &[&a, &b], paths, e, sub, chunks).map_err(|m| format!("{:?} with {:?}, subfolders {}: {}", paths.iter().map(|p| p.0).collect::<Vec<_>>(), e, sub, m))?;
        }
    }
    cx.drop_dir(&dir);
    Ok(())
}
