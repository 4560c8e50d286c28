//! C23: stored data cut short at any byte is rejected, and what does not depend on it still loads.
use crate::c03::{diff_of, patch, places, start_doc, struct_ops};
use crate::edits::*;
use crate::hist::*;
use crate::infra::*;
use crate::proc::{doc_hash, hname, steps, St, SRC2};
use crate::snap::*;
use dochy_compaction::enc_dec::{decode::decode, decode_from_slice::decode_from_slice, encode_to_vec::encode_to_vec};
use dochy_compaction::kval_enum::{Decimal, KVal};
use dochy_core::structs::RootObject;
use dochy_core::{archive_file_to_root, archive_file_to_root_with_hash, read_archive_to_root};
use dochy_fs::common::{hash_dir_path, CurrentSrc};
use dochy_fs::filesys::*;
use dochy_fs::history::*;
use std::path::{Path, PathBuf};

pub fn check() -> Check {
    Check {
        id: "C23",
        level: "model_checking",
        rule: "every strict prefix of: the encoding of every sequence of up to two (thorough: three) values of an alphabet with every kind and length class; the diff of every edit and (thorough) every pair of edits of the base documents; the archive of sources of one to eight files; every file written by a set of programs over histories and documents for four option sets. Each is decoded, applied or loaded through every loading function; histories are reopened for every prefix, under the same and under a newer source, and every entry that does not need the cut file is compared with what was saved. A state is a distinct (data, length).",
        assumptions: &["an entry needs a file if it does not load without it"],
        cases,
        run,
        hang_s: 120,
        max_workers: 64,
    }
}

fn alphabet() -> Vec<KVal> {
    let mut v = vec![KVal::Null, KVal::Bit(false), KVal::Bit(true), KVal::Bool(true), KVal::Byte(0), KVal::Byte(-128), KVal::Float(1.5), KVal::Double(-0.25), KVal::Undefined(0), KVal::Undefined(3)];
    for i in [0i64, 128, -32769, 1 << 40, i64::MAX, i64::MIN] {
        v.push(KVal::Int(i));
    }
    v.push(KVal::Str16(String::new()));
    v.push(KVal::Str16("a".into()));
    v.push(KVal::Str16("fifteen chars..".into()));
    v.push(KVal::Str256("b".repeat(16)));
    v.push(KVal::Str256("é".repeat(40)));
    v.push(KVal::BigStr("c".repeat(260)));
    v.push(KVal::Decimal(Decimal::new(12345678901234567890, 3)));
    v.push(KVal::Decimal(Decimal::new(-1, 0)));
    for n in [0usize, 1, 7, 130] {
        v.push(KVal::Binary(vec![7; n]));
    }
    v.push(KVal::Binary8(vec![]));
    v.push(KVal::Binary8(vec![1, u64::MAX]));
    v.push(KVal::Binary4(vec![1, 2, 3]));
    v.push(KVal::Binary2(vec![1; 5]));
    v
}

const PROGRAMS: [&str; 8] = ["S0", "S0.S0.S0", "S1.S0.S2.S0", "S0.S4.S0.S0.S1.S0", "S1.N.S0.S2", "S0.S2.L0.S0.S0", "Fa0.Fb2", "S2.Fa1.S0"];

fn opts() -> Vec<Opt> {
    crate::c17::opts()
}

fn cases(t: Tier) -> Vec<String> {
    let n = alphabet().len();
    let mut v: Vec<String> = (0..n).map(|i| format!("values {}", i)).collect();
    v.push("values0".into());
    v.push("longvalues".into());
    for p in 0..places().len() {
        v.push(format!("set {}", p));
    }
    for k in ["fresh", "converted"] {
        for i in 0..16 {
            v.push(format!("struct {} {} 16", k, i));
        }
    }
    for i in 0..9 {
        v.push(format!("archive {}", i));
    }
    for o in 0..opts().len() {
        for p in PROGRAMS {
            if p.contains('S') || o == 0 {
                for part in 0..4 {
                    v.push(format!("store {} {} {} 4", o, p, part));
                }
            }
        }
    }
    let _ = t;
    v
}

fn pick(i: usize) -> KVal {
    alphabet().swap_remove(i)
}

fn values(which: &[usize], cx: &mut Ctx) -> Result<(), String> {
    let l: Vec<KVal> = which.iter().map(|i| pick(*i)).collect();
    let b = guard(|| encode_to_vec(&l).map_err(|e| e.to_string())).and_then(|r| r).map_err(|m| format!("encoding {:?}: {}", l, m))?;
    cx.state(&b);
    let full = decode_from_slice(&b).map_err(|e| format!("{:?} does not decode: {}", l, e))?;
    if full.1 != b.len() {
        return Err(format!("{:?}: {} bytes written, {} read", l, b.len(), full.1));
    }
    for n in 0..b.len() {
        cx.eval();
        cx.step();
        if let Ok(x) = guard(|| decode_from_slice(&b[..n])).map_err(|m| format!("{:?} cut to {} bytes: {}", l, n, m))? {
            return Err(format!("{:?} cut to {} of {} bytes decodes as {:?}", l, n, b.len(), x));
        }
        if n % 7 == 0 && guard(|| decode(&mut std::io::Cursor::new(&b[..n])).is_ok()).map_err(|m| format!("{:?} cut to {} bytes: {}", l, n, m))? {
            return Err(format!("{:?} cut to {} of {} bytes decodes from a reader", l, n, b.len()));
        }
    }
    Ok(())
}

fn diff_cut(a: &RootObject, d: &[u8], what: &str, cx: &mut Ctx) -> Result<(), String> {
    if !cx.state(d) {
        return Ok(());
    }
    for n in 0..d.len() {
        cx.eval();
        cx.step();
        let mut c = a.clone();
        if guard(|| patch(&mut c, &d[..n]).is_ok()).map_err(|m| format!("diff of {} cut to {} of {} bytes: {}", what, n, d.len(), m))? {
            return Err(format!("the diff of {} cut to {} of {} bytes applies", what, n, d.len()));
        }
    }
    Ok(())
}

fn run(case: &str, cx: &mut Ctx) -> Result<(), String> {
    let p: Vec<&str> = case.split(' ').collect();
    let num = |i: usize| -> usize { p[i].parse().unwrap() };
    match p[0] {
        "values0" => {
            values(&[], cx)?;
            for n in [15usize, 16, 17, 63, 64, 65, 200] {
                for (i, x) in alphabet().iter().enumerate() {
                    if !matches!(x, KVal::BigStr(_) | KVal::Binary(_)) {
                        values(&vec![i; n], cx)?;
                    }
                }
                cx.beat();
            }
        }
        "values" => {
            let (x, all) = (num(1), alphabet().len());
            values(&[x], cx)?;
            for y in 0..all {
                values(&[x, y], cx)?;
                if cx.tier.thorough() {
                    for z in 0..all {
                        values(&[x, y, z], cx)?;
                    }
                    cx.beat();
                }
            }
        }
        "longvalues" => {
            for x in [KVal::BigStr("d".repeat(70000)), KVal::Binary(vec![9; 70000]), KVal::Binary8(vec![9; 9000])] {
                let b = encode_to_vec(&[x]).map_err(|e| e.to_string())?;
                for n in (0..200).chain(65400..65700).chain(b.len() - 300..b.len()) {
                    cx.eval();
                    cx.step();
                    if guard(|| decode_from_slice(&b[..n]).is_ok())? {
                        return Err(format!("a long value cut to {} of {} bytes decodes", n, b.len()));
                    }
                }
            }
        }
        "set" => {
            // one value set, at one place
            let at = places()[num(1)].clone();
            let src = format!("{{ {}, l : [\"MList\", [{{ {}, k : [\"MilDef\", [{{ {} }}]] }}], {{ k : [\"Mil\", {{}}, {{}}] }}, {{}}] }}", value_members_text(), value_members_text(), value_members_text());
            let r = crate::docs::root_of(cx, &[("root.json5", &src)])?;
            for (name, form) in value_members() {
                for v in all_values(&name, form) {
                    if let V::S(s) = &v {
                        if s.len() > 1000 {
                            continue;
                        }
                    }
                    let mut b = r.clone();
                    let e = Ed::Set(at.clone(), name.clone(), v.clone());
                    if apply(&mut b, &e).is_some() {
                        let d = diff_of(&r, &b)?;
                        if d.len() <= 2000 {
                            diff_cut(&r, &d, &format!("{:?}", e), cx)?;
                        }
                    }
                    cx.beat();
                }
            }
        }
        "struct" => {
            let r = start_doc(p[1], cx)?;
            let s = snap(&r);
            diff_cut(&r, &diff_of(&r, &r)?, "nothing", cx)?;
            for (i, op) in struct_ops(&s, false).iter().enumerate() {
                if i % num(3) != num(2) {
                    continue;
                }
                let mut b = r.clone();
                if apply(&mut b, op).is_none() {
                    continue;
                }
                diff_cut(&r, &diff_of(&r, &b)?, &format!("{:?}", op), cx)?;
                for op2 in struct_ops(&snap(&b), !cx.tier.thorough()) {
                    let mut c = b.clone();
                    if apply(&mut c, &op2).is_some() {
                        diff_cut(&r, &diff_of(&r, &c)?, &format!("{:?} {:?}", op, op2), cx)?;
                        diff_cut(&b, &diff_of(&b, &c)?, &format!("{:?} after {:?}", op2, op), cx)?;
                    }
                }
                cx.beat();
            }
        }
        "archive" => {
            // 1, 2, 3, 8 files, empty ones, large ones
            let k = num(1);
            let d = cx.fresh();
            std::fs::create_dir_all(&d).unwrap();
            let root = ["{}", "{ a : 1 }", SRC, SRC2, "{ a : 1, b : 'text' }", "{}", "{}", "{ z : 1 }", "{ y : 1 }"][k];
            std::fs::write(d.join("root.json5"), root).unwrap();
            for i in 0..[0, 1, 0, 2, 7, 1, 3, 1, 1][k] {
                let t = match (k, i) {
                    (5, _) => format!("/*{}*/ 1", "x".repeat(3000)),
                    (6, 1) => "[\"Table\", [{ v : 0 }], { ID : 'a' }]".to_string(),
                    (7, _) => "1".to_string(),
                    _ => format!("'item {}'", i),
                };
                std::fs::write(d.join(format!("m{}.json5", i)), t).unwrap();
            }
            let b = crate::docs::archive_of(&d)?;
            let f = d.join("x.arc");
            std::fs::write(&f, &b).unwrap();
            archive_file_to_root(&f, true).map_err(|e| format!("whole archive: {}", e))?;
            for n in 0..b.len() {
                cx.eval();
                cx.step();
                cx.state(&(k, n));
                let what = format!("archive {} cut to {} of {} bytes", k, n, b.len());
                if guard(|| read_archive_to_root(&mut &b[..n], n % 2 == 0).is_ok()).map_err(|m| format!("{}: {}", what, m))? {
                    return Err(format!("{} was read", what));
                }
                std::fs::write(&f, &b[..n]).unwrap();
                if guard(|| archive_file_to_root_with_hash(&f, n % 2 == 1).is_ok()).map_err(|m| format!("{}: {}", what, m))? {
                    return Err(format!("{}: the file was read", what));
                }
                if n % 5 == 0 {
                    // as the current source of a store
                    let h = d.join(format!("s{}", n));
                    let g = d.join(format!("x{}.arc", n));
                    std::fs::write(&g, &b[..n]).unwrap();
                    let src = CurrentSrc::ArchiveFile(g);
                    let o = opts()[0];
                    if guard(|| HistoryInfo::create(&h, src.clone(), o.build()).is_ok()).map_err(|m| format!("{}: {}", what, m))? {
                        return Err(format!("{}: a history opens with it", what));
                    }
                    if guard(|| SaveDirInfo::create(&h, src).is_ok()).map_err(|m| format!("{}: {}", what, m))? {
                        return Err(format!("{}: a directory opens with it", what));
                    }
                }
                cx.beat();
            }
            cx.drop_dir(&d);
        }
        "store" => store(cx, opts()[num(1)], &steps(p[2]), num(3), num(4)).map_err(|m| format!("{:?} {}: {}", opts()[num(1)], p[2], m))?,
        _ => return Err(format!("unknown case {}", case)),
    }
    cx.outcome(p[0]);
    Ok(())
}

struct S {
    w: PathBuf,
    opt: Opt,
    info: HistoryInfo,
    files: SaveDirInfo,
}

impl S {
    /// a new process, as far as the store can tell
    fn open(w: &Path, opt: Opt, src: &str) -> Result<S, String> {
        let s = CurrentSrc::SrcDir(w.join(src));
        let info = unsafe { init_dochy_cache_us(&w.join("hist"), s.clone(), &opt.build()) }.map_err(|e| format!("opening: {}", e))?;
        let files = unsafe { force_update_and_get_info_us(w.join("files"), s) }.map_err(|e| format!("opening: {}", e))?;
        Ok(S { w: w.to_path_buf(), opt, info, files })
    }
    /// content of every entry and file, or that it does not load
    fn all(&self) -> Result<Vec<(String, Option<u64>)>, String> {
        let mut v = vec![];
        let hs = list_histories(&self.info).map_err(|e| format!("list: {}", e))?;
        for d in hs.list_files() {
            let n = hname(d.hash(), &d.props().calc_filename());
            let r = guard(|| load_history_file_data(&self.info, &d, true)).map_err(|m| format!("{}: {}", n, m))?;
            v.push((n, r.ok().map(|r| doc_hash(&r))));
        }
        for (h, fh) in hs.iter() {
            if *h == self.info.hash() {
                for p in fh.list_files() {
                    let n = hname(*h, &p.calc_filename());
                    let r = guard(|| load_history_file(&self.info, p, fh, false)).map_err(|m| format!("{}: {}", n, m))?;
                    if v.iter().find(|x| x.0 == n).map(|x| x.1) != Some(r.ok().map(|r| doc_hash(&r))) {
                        return Err(format!("{} loads in one way and not in another", n));
                    }
                }
            }
        }
        let mut f = vec![];
        for d in list_dochy_files(self.w.join("files")).map_err(|e| format!("list: {}", e))? {
            let n = format!("f:{}", d.name());
            let r = guard(|| load_dochy_file(d.calc_path(self.w.join("files")), &self.files, true)).map_err(|m| format!("{}: {}", n, m))?;
            f.push((n, r.ok().map(|r| doc_hash(&r))));
        }
        f.sort();
        v.extend(f);
        let _ = self.opt;
        Ok(v)
    }
}

fn files_of(w: &Path) -> Vec<PathBuf> {
    let mut v = vec![];
    for d in ["hist", "files"] {
        if let Ok(rd) = std::fs::read_dir(w.join(d)) {
            for x in rd.filter_map(|x| x.ok()) {
                for f in std::fs::read_dir(x.path()).unwrap().filter_map(|x| x.ok()) {
                    v.push(f.path());
                }
            }
        }
    }
    v.sort();
    v
}

/// A new file in the place of `f`: a reading thread left over from a failed load keeps the old one.
fn replace(w: &Path, f: &Path, b: &[u8]) {
    let t = w.join("cut");
    std::fs::write(&t, b).unwrap();
    std::fs::rename(&t, f).unwrap();
}

fn store(cx: &mut Ctx, opt: Opt, st: &[St], part: usize, parts: usize) -> Result<(), String> {
    let w = crate::proc::world(cx);
    let s = S::open(&w, opt, "src")?;
    let (mut doc, mut fdoc) = (s.info.clone_src_root(), s.files.clone_src_root());
    let mut names: Vec<FileNameProps> = vec![];
    for (n, x) in st.iter().enumerate() {
        match x {
            St::Save(k) => {
                edit(&mut doc, *k, n);
                names.push(save_history_file(&s.info, None, &doc).map_err(|e| format!("save: {}", e))?);
            }
            St::Load(k) => {
                let fh = FileHistory::create(w.join("hist"), s.info.hash(), opt.max_phase, opt.cum.is_some()).map_err(|e| e.to_string())?;
                doc = load_history_file(&s.info, &names[*k], &fh, true).map_err(|e| format!("load: {}", e))?;
            }
            St::New => doc = s.info.clone_src_root(),
            St::File(c, k) => {
                edit(&mut fdoc, *k, n);
                save_dochy_file(&s.files, &c.to_string(), &fdoc, true).map_err(|e| format!("save: {}", e))?;
            }
            _ => return Err("machinery: step".into()),
        }
    }
    let _ = hash_dir_path(&w, 0);
    let whole: Vec<_> = ["src", "src2"].iter().map(|x| S::open(&w, opt, x).and_then(|s| s.all())).collect::<Result<_, _>>()?;
    for l in &whole {
        if let Some((n, _)) = l.iter().find(|x| x.1.is_none()) {
            return Err(format!("uncut: {} does not load", n));
        }
    }
    let mut k = 0;
    for f in files_of(&w) {
        let bytes = std::fs::read(&f).unwrap();
        let short = f.file_name().unwrap().to_string_lossy().to_string();
        // which entries need the file: those that do not load without it
        std::fs::remove_file(&f).unwrap();
        let without: Vec<_> = ["src", "src2"].iter().map(|x| S::open(&w, opt, x).and_then(|s| s.all())).collect::<Result<_, _>>().map_err(|m| format!("without {}: {}", short, m))?;
        for n in 0..bytes.len() {
            k += 1;
            if k % parts != part {
                continue;
            }
            replace(&w, &f, &bytes[..n]);
            for (i, src) in ["src", "src2"].iter().enumerate() {
                cx.eval();
                cx.state(&(format!("{:?}{:?}", opt, st), &short, n, i));
                let what = format!("{} cut to {} of {} bytes, {}", short, n, bytes.len(), if i == 0 { "same source" } else { "newer source" });
                let got = S::open(&w, opt, src).and_then(|s| s.all()).map_err(|m| format!("{}: {}", what, m))?;
                cx.transitions += got.len() as u64;
                for (name, h) in &whole[i] {
                    let needs = without[i].iter().find(|x| x.0 == *name).map_or(true, |x| x.1.is_none());
                    let g = got.iter().find(|x| x.0 == *name).and_then(|x| x.1);
                    if needs && g.is_some() {
                        return Err(format!("{}: {} needs it and loads{}", what, name, if g == *h { "" } else { " as something else" }));
                    }
                    if !needs && g != *h {
                        return Err(format!("{}: {} does not need it and {}", what, name, if g.is_none() { "does not load" } else { "loads as something else" }));
                    }
                }
                for (name, g) in &got {
                    if g.is_some() && !whole[i].iter().any(|x| x.0 == *name) {
                        return Err(format!("{}: {} appeared", what, name));
                    }
                }
            }
            cx.beat();
        }
        replace(&w, &f, &bytes);
    }
    cx.drop_dir(&w);
    Ok(())
}
