//! C12: document files, C21: histories over several sources, C22: version directories.
use crate::c11::*;
use crate::docs::*;
use crate::hist::{grid, Opt};
use crate::infra::*;
use crate::snap::*;
use dochy_core::structs::RootObject;
use dochy_fs::common::hash::{folder_name_to_hash, hash_to_folder_name};
use dochy_fs::common::*;
use dochy_fs::filesys::*;
use dochy_fs::history::*;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};
use std::time::SystemTime;

const ASSUME: &[&str] = &["one process uses a directory at a time", "documents are edited through the public interface"];

pub fn check() -> Check {
    Check {
        id: "C12",
        level: "model_checking",
        rule: "every operation sequence up to the depth over saving (three edits or none, two names, overwriting or not, blocking or in the background followed by an edit), loading every existing file, removing every file, a new document (made by the directory or read apart from it), restart, change to each of three sources (as directory or archive), removal of a version, and a batch of operations that must be refused; after every operation the directories are compared with a reference model byte for byte and the listing with it; at the end every file is loaded warm, cold and under every source; series of files with every boundary value of every type, form and place, every reference and every member of a wide document; every two of ten unusual file names beside each other. A state is a distinct (directory contents, source) pair.",
        assumptions: ASSUME,
        cases: cases12,
        run: run12,
        hang_s: 60,
        max_workers: 64,
    }
}

pub fn check21() -> Check {
    Check {
        id: "C21",
        level: "model_checking",
        rule: "for several option combinations, every operation sequence up to the depth over saving (three edits), loading every entry of every source version, a new document, restart and change to each of three sources; after every save the files of other versions are compared byte for byte and the new entry is loaded with the other versions' directories taken away; at the end every entry of every version is loaded under every source and compared with the conversion of what was saved. A state is a distinct (options, names per version, source) triple.",
        assumptions: &["one process uses a directory at a time", "the options change only together with the source", "documents are edited through the public interface"],
        cases: cases21,
        run: run21,
        hang_s: 60,
        max_workers: 64,
    }
}

pub fn check22() -> Check {
    Check {
        id: "C22",
        level: "model_checking",
        rule: "every hash with every nibble value at every position over four backgrounds and every pair of neighbouring nibbles; every string at edit distance one from such names with every byte; every operation sequence up to the depth over creating each of three versions (by a document or a history save), removing each, and adding foreign files and directories, the listings compared after every operation; up to seventy versions made, removed and made again. A state is a distinct name or a distinct directory listing.",
        assumptions: ASSUME,
        cases: cases22,
        run: run22,
        hang_s: 60,
        max_workers: 64,
    }
}

fn e<T, E: std::fmt::Display>(r: Result<T, E>, what: &str) -> Result<T, String> {
    r.map_err(|x| format!("{}: {}", what, x))
}

/// Three sources whose data fit each other.
fn versions() -> Vec<Src> {
    let v0 = base();
    let mut v1 = base();
    v1.obj.vals.retain(|v| v.n != "y");
    v1.obj.vals.push(va("n", 'i', "!"));
    {
        let l = node(&mut v1.obj, &["l"]);
        l.vals.retain(|v| v.n != "b");
        l.vals.push(va("n", 's', ""));
        l.refs.push(re("t3", "!", id("a")));
    }
    node(&mut v1.obj, &["l", "k"]).vals.push(va("n", 'f', "!"));
    v1.obj.lists.retain(|l| l.n != "p");
    v1.clist = 2;
    let mut v2 = base();
    v2.obj.vals[0].def = V::I(77);
    v2.obj.lists.push(Li { n: "nl".into(), undef: true, obj: Obj { vals: vec![va("a", 'i', "")], ..Obj::default() }, init: 1 });
    node(&mut v2.obj, &["l", "k", "d"]).vals.retain(|v| v.n != "v");
    v2.rev = true;
    vec![v0, v1, v2]
}

pub struct Ver {
    pub src: Src,
    pub dir: PathBuf,
    pub arc: PathBuf,
    pub hash: u128,
    pub root: RootObject,
    pub doc: Doc,
    pub arc_bytes: Vec<u8>,
}

/// The sources as directories and as archives, in scratch directories that stay for the case.
pub fn vers(cx: &mut Ctx) -> Result<Vec<Ver>, String> {
    let mut v = vec![];
    for src in versions() {
        let dir = cx.fresh();
        write_src(&dir, &[("root.json5", &src_text(&src))]);
        let (root, hash) = e(dochy_core::json_dir_to_root_with_hash(&dir, true), "source")?;
        let arc = cx.fresh().join("a.archive");
        let arc_bytes = archive_of(&dir)?;
        std::fs::write(&arc, &arc_bytes).unwrap();
        let doc = snap(&root);
        v.push(Ver { src, dir, arc, hash, root, doc, arc_bytes });
    }
    Ok(v)
}

fn cur_src(v: &Ver, archive: bool) -> CurrentSrc {
    if archive {
        CurrentSrc::ArchiveFile(v.arc.clone())
    } else {
        CurrentSrc::SrcDir(v.dir.clone())
    }
}

/// The edits keep references away from their defaults.
pub fn edit_some(r: &mut RootObject, s: &Src, kind: u8, n: usize) -> Result<(), String> {
    match kind {
        0 => {
            crate::edits::set(r, &None, "x", &V::I(1000 + n as i64), 'i');
        }
        1 => edit_state(r, s, [1, 8, 3, 2][n % 4])?,
        3 => {}
        _ => {
            edit_state(r, s, 4)?;
            edit_state(r, s, 5)?;
        }
    }
    Ok(())
}

// ---- C12

#[derive(Debug, Clone, Copy, PartialEq)]
enum Op {
    /// name, edit, how: 0 overwrite, 1 not, 2 in the background
    Save(u8, u8, u8),
    Load(usize),
    Rem(usize),
    New,
    /// a new document which has been read apart from the directory
    Apart,
    Restart,
    Go(usize, bool),
    Drop(usize),
    Refused,
}

fn show(o: &Op) -> String {
    match o {
        Op::Save(a, b, c) => format!("S{}{}{}", a, b, c),
        Op::Load(i) => format!("L{}", i),
        Op::Rem(i) => format!("D{}", i),
        Op::New => "N".into(),
        Op::Apart => "P".into(),
        Op::Restart => "R".into(),
        Op::Go(v, a) => format!("{}{}", if *a { "A" } else { "V" }, v),
        Op::Drop(v) => format!("W{}", v),
        Op::Refused => "X".into(),
    }
}

fn parse(s: &str) -> Vec<Op> {
    s.split('.')
        .filter(|x| !x.is_empty())
        .map(|x| {
            let d = |i: usize| (x.as_bytes()[i] - b'0') as usize;
            match &x[0..1] {
                "S" => Op::Save(d(1) as u8, d(2) as u8, d(3) as u8),
                "L" => Op::Load(d(1)),
                "D" => Op::Rem(d(1)),
                "N" => Op::New,
                "P" => Op::Apart,
                "R" => Op::Restart,
                "V" => Op::Go(d(1), false),
                "A" => Op::Go(d(1), true),
                "W" => Op::Drop(d(1)),
                _ => Op::Refused,
            }
        })
        .collect()
}

/// The sequences use the first two.
const NAMES: [&str; 10] = ["one.dochy", "zwei é", "a", " a", "a ", "A", ".a", "a.his", "src.archive.dochy", "日本語 #1%2f.tmp"];

struct F {
    doc: Doc,
    bytes: Vec<u8>,
}

struct M<'a> {
    vers: &'a [Ver],
    dir: PathBuf,
    info: SaveDirInfo,
    ver: usize,
    archive: bool,
    root: Option<RootObject>,
    files: BTreeMap<(usize, String), F>,
    have: BTreeSet<usize>,
    n: usize,
}

impl<'a> M<'a> {
    fn new(vers: &'a [Ver], dir: PathBuf) -> Result<M<'a>, String> {
        let info = e(SaveDirInfo::create(&dir, cur_src(&vers[0], false)), "create")?;
        let root = info.clone_src_root();
        Ok(M { vers, dir, info, ver: 0, archive: false, root: Some(root), files: BTreeMap::new(), have: BTreeSet::new(), n: 0 })
    }
    fn restart(&mut self) -> Result<(), String> {
        self.root = None;
        self.info = e(unsafe { force_update_and_get_info_us(&self.dir, cur_src(&self.vers[self.ver], self.archive)) }, "restart")?;
        if self.info.hash() != self.vers[self.ver].hash {
            return Err(format!("source {} (archive {}) has another hash", self.ver, self.archive));
        }
        expect_eq(&self.vers[self.ver].doc, &snap(&self.info.clone_src_root()), "new document of the source")
    }
    fn path(&self, k: &(usize, String)) -> PathBuf {
        hash_dir_path(&self.dir, self.vers[k.0].hash).join(&k.1)
    }
    fn load(&self, k: &(usize, String), validation: bool) -> Result<RootObject, String> {
        let f = &self.files[k];
        let r = e(load_dochy_file(self.path(k), &self.info, validation), &format!("load of {:?}", k))?;
        let want = if k.0 == self.ver {
            f.doc.clone()
        } else {
            let (d, misfit, _) = convert(&f.doc, &self.vers[k.0].src, &self.vers[self.ver].src, &self.vers[self.ver].doc);
            if let Some(m) = misfit {
                return Err(format!("bad test data: {}", m));
            }
            d
        };
        expect_eq(&want, &snap(&r), &format!("{:?} under source {}", k, self.ver))?;
        Ok(r)
    }
    fn step(&mut self, op: &Op) -> Result<(), String> {
        self.n += 1;
        let keys: Vec<(usize, String)> = self.files.keys().cloned().collect();
        match op {
            Op::Save(name, edit, how) => {
                let name = NAMES[*name as usize].to_string();
                let key = (self.ver, name.clone());
                let r = self.root.as_mut().ok_or("no document")?;
                edit_some(r, &self.vers[self.ver].src, *edit, self.n)?;
                let doc = snap(r);
                let res = match how {
                    2 => {
                        let (tx, rx) = std::sync::mpsc::channel();
                        save_dochy_file_nb(&self.info, &name, r, true, move |x| {
                            let _ = tx.send(x.map_err(|e| e.to_string()));
                        });
                        edit_some(r, &self.vers[self.ver].src, 1, self.n + 1)?;
                        edit_some(r, &self.vers[self.ver].src, 2, self.n + 1)?;
                        rx.recv_timeout(std::time::Duration::from_secs(20)).map_err(|_| "background save did not report")?
                    }
                    h => save_dochy_file(&self.info, &name, r, *h == 0).map_err(|e| e.to_string()),
                };
                if *how == 1 && self.files.contains_key(&key) {
                    if res.is_ok() {
                        return Err(format!("{:?} was overwritten without permission", key));
                    }
                    self.have.insert(self.ver);
                } else {
                    let p = e(res, "save")?;
                    if p != self.path(&key) {
                        return Err(format!("saved to {:?}", p));
                    }
                    let bytes = e(std::fs::read(&p), "saved file")?;
                    self.files.insert(key, F { doc, bytes });
                    self.have.insert(self.ver);
                }
            }
            Op::Load(i) => {
                let r = self.load(&keys[*i], self.n % 2 == 0)?;
                self.root = Some(r);
            }
            Op::Rem(i) => {
                let k = &keys[*i];
                e(remove_dochy_file(&self.dir, self.vers[k.0].hash, &k.1), "remove")?;
                self.files.remove(k);
            }
            Op::New => self.root = Some(self.info.clone_src_root()),
            Op::Apart => self.root = Some(self.vers[self.ver].root.clone()),
            Op::Restart => self.restart()?,
            Op::Go(v, a) => {
                self.ver = *v;
                self.archive = *a;
                self.restart()?;
                self.root = Some(self.info.clone_src_root());
            }
            Op::Drop(v) => {
                e(remove_hash_dir(&self.dir, self.vers[*v].hash), "removing a version")?;
                self.have.remove(v);
                self.files.retain(|k, _| k.0 != *v);
            }
            Op::Refused => {
                let h = self.vers[self.ver].hash;
                let src = self.info.clone_src_root();
                for n in ["src.archive", "created_time.dat"] {
                    for ow in [true, false] {
                        if save_dochy_file(&self.info, n, &src, ow).is_ok() {
                            return Err(format!("a document was saved as {}, which the system uses", n));
                        }
                    }
                    if remove_dochy_file(&self.dir, h, n).is_ok() {
                        return Err(format!("{} was removed", n));
                    }
                }
                if hash_dir_path(&self.dir, h).exists() {
                    self.have.insert(self.ver);
                }
                let k = (self.ver, "no such".to_string());
                if remove_dochy_file(&self.dir, h, &k.1).is_ok() || load_dochy_file(self.path(&k), &self.info, true).is_ok() {
                    return Err("removed or loaded a file that does not exist".into());
                }
                if remove_hash_dir(&self.dir, 1).is_ok() {
                    return Err("removed a version that does not exist".into());
                }
                for k in keys {
                    if k.0 == self.ver && save_dochy_file(&self.info, &k.1, &src, false).is_ok() {
                        return Err(format!("{:?} was overwritten without permission", k));
                    }
                }
            }
        }
        self.compare()
    }
    /// The directories hold exactly what the model says, and the listing says so.
    fn compare(&self) -> Result<(), String> {
        let mut want: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        for v in &self.have {
            let d = hash_to_folder_name(self.vers[*v].hash).to_string_lossy().to_string();
            want.insert(format!("{}/src.archive", d), self.vers[*v].arc_bytes.clone());
        }
        for (k, f) in &self.files {
            let d = hash_to_folder_name(self.vers[k.0].hash).to_string_lossy().to_string();
            want.insert(format!("{}/{}", d, k.1), f.bytes.clone());
        }
        let mut got: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        for d in std::fs::read_dir(&self.dir).unwrap() {
            let d = d.unwrap();
            let dn = d.file_name().to_string_lossy().to_string();
            if !d.file_type().unwrap().is_dir() {
                return Err(format!("a file {} beside the version directories", dn));
            }
            for f in std::fs::read_dir(d.path()).unwrap() {
                let f = f.unwrap();
                let n = f.file_name().to_string_lossy().to_string();
                if n == "created_time.dat" {
                    continue;
                }
                got.insert(format!("{}/{}", dn, n), std::fs::read(f.path()).unwrap());
            }
        }
        let names = |m: &BTreeMap<String, Vec<u8>>| m.keys().cloned().collect::<Vec<_>>();
        if names(&want) != names(&got) {
            return Err(format!("files {:?}, should be {:?}", names(&got), names(&want)));
        }
        for (n, b) in &want {
            if got[n] != *b {
                return Err(format!("{} was changed", n));
            }
        }
        let l = e(list_dochy_files(&self.dir), "list")?;
        let mut got: Vec<(u128, String, u64)> = l.iter().map(|f| (f.hash(), f.name().to_string(), f.len())).collect();
        got.sort();
        let mut want: Vec<(u128, String, u64)> = self.files.iter().map(|(k, f)| (self.vers[k.0].hash, k.1.clone(), f.bytes.len() as u64)).collect();
        want.sort();
        if got != want {
            return Err(format!("listed {:?}, should be {:?}", got, want));
        }
        if !l.windows(2).all(|w| w[0].modified() <= w[1].modified()) {
            return Err("the listing is not in the order of modification".into());
        }
        for f in &l {
            if !f.calc_path(&self.dir).exists() {
                return Err(format!("listed path {:?} does not exist", f.calc_path(&self.dir)));
            }
        }
        Ok(())
    }
    fn finish(&mut self, cx: &mut Ctx) -> Result<(), String> {
        let keys: Vec<(usize, String)> = self.files.keys().cloned().collect();
        for k in &keys {
            cx.step();
            self.load(k, true)?;
        }
        let here = self.ver;
        for i in 0..self.vers.len() {
            self.ver = (here + i) % self.vers.len();
            self.archive = !self.archive;
            self.restart()?;
            for k in &keys {
                cx.step();
                self.load(k, false).map_err(|m| format!("after a restart: {}", m))?;
            }
        }
        self.compare()
    }
}

fn next12(m: &M, last: Option<&Op>) -> Vec<Op> {
    let mut v = vec![];
    if m.root.is_some() {
        for (n, ed, how) in [(0, 0, 0), (0, 1, 1), (0, 2, 2), (1, 1, 0), (1, 2, 1), (0, 3, 0)] {
            v.push(Op::Save(n, ed, how));
        }
    }
    if !matches!(last, None | Some(Op::Apart)) {
        v.push(Op::Apart);
    }
    for i in 0..m.files.len() {
        v.push(Op::Load(i));
        v.push(Op::Rem(i));
    }
    if !m.files.is_empty() && last != Some(&Op::New) || m.root.is_none() {
        v.push(Op::New);
    }
    if m.root.is_some() && last != Some(&Op::Restart) {
        v.push(Op::Restart);
    }
    for k in 0..3 {
        if k != m.ver && !(k == 2 && m.ver == 1 && m.have.is_empty()) {
            v.push(Op::Go(k, (k + m.n) % 2 == 0));
        }
    }
    if m.archive {
        v.push(Op::Go(m.ver, false));
    }
    if last != Some(&Op::Refused) {
        v.push(Op::Refused);
    }
    for k in &m.have {
        v.push(Op::Drop(*k));
    }
    v
}

/// The sequences are found by running them: what may follow depends on what is there.
fn explore12(cx: &mut Ctx, vers: &[Ver], ops: &mut Vec<Op>, depth: usize) -> Result<(), String> {
    let dir = cx.fresh();
    let mut m = M::new(vers, dir.clone())?;
    let mut res = Ok(());
    for (i, op) in ops.iter().enumerate() {
        cx.step();
        res = m.step(op).map_err(|t| format!("{} (step {}): {}", ops.iter().map(show).collect::<Vec<_>>().join("."), i, t));
        if res.is_err() {
            break;
        }
    }
    let next = next12(&m, ops.last());
    if res.is_ok() {
        cx.eval();
        let st: Vec<_> = m.files.iter().map(|(k, f)| (k.clone(), f.bytes.clone())).collect();
        cx.state(&(st, m.ver, &m.have));
        if ops.len() == depth || !m.files.is_empty() && ops.len() + 1 == depth {
            res = m.finish(cx).map_err(|t| format!("{}: {}", ops.iter().map(show).collect::<Vec<_>>().join("."), t));
        }
    }
    drop(m);
    cx.drop_dir(&dir);
    res?;
    if ops.len() < depth {
        for o in next {
            ops.push(o);
            explore12(cx, vers, ops, depth)?;
            ops.pop();
        }
    }
    Ok(())
}

fn cases12(t: Tier) -> Vec<String> {
    let d = t.pick(4, 5);
    let mut v = vec![];
    let firsts: Vec<Op> = vec![Op::Save(0, 0, 0), Op::Save(0, 1, 1), Op::Save(0, 2, 2), Op::Save(1, 1, 0), Op::Save(1, 2, 1), Op::Save(0, 3, 0), Op::Restart, Op::Go(1, false), Op::Go(2, true), Op::Refused];
    for f in &firsts {
        let mut seconds: Vec<Op> = firsts.clone();
        seconds.extend([Op::Load(0), Op::Rem(0), Op::Drop(0), Op::New, Op::Apart, Op::Go(0, false), Op::Go(0, true), Op::Go(1, true), Op::Go(2, false)]);
        for s in seconds {
            v.push(format!("exh {} {}.{}", d, show(f), show(&s)));
        }
    }
    for k in 0..crate::rich::SERIES {
        v.push(format!("series {k}"));
    }
    for k in 0..NAMES.len() {
        v.push(format!("names {k}"));
    }
    v
}

fn run12(case: &str, cx: &mut Ctx) -> Result<(), String> {
    let w: Vec<&str> = case.split(' ').collect();
    if w[0] == "series" {
        return crate::rich::files(w[1].parse().map_err(|_| "case")?, cx);
    }
    let vs = vers(cx)?;
    match w[0] {
        "exh" => {
            let d: usize = w[1].parse().map_err(|_| "case")?;
            let pre = parse(w[2]);
            // only prefixes that the exploration itself would make
            let dir = cx.fresh();
            let mut m = M::new(&vs, dir.clone())?;
            let mut last = None;
            for o in &pre {
                if !next12(&m, last.as_ref()).contains(o) {
                    return Ok(());
                }
                m.step(o).map_err(|t| format!("{}: {}", w[2], t))?;
                last = Some(*o);
            }
            drop(m);
            cx.drop_dir(&dir);
            let mut ops = pre;
            explore12(cx, &vs, &mut ops, d)
        }
        // every two names beside each other; one is written again and one removed
        "names" => {
            let a: u8 = w[1].parse().map_err(|_| "case")?;
            for b in 0..NAMES.len() as u8 {
                for k in 0..2 {
                    let mut ops = vec![Op::Save(a, 0, 0), Op::Save(b, 1, 1), Op::Save(a, 2, 2), Op::Rem(if a == b { 0 } else { k })];
                    explore12(cx, &vs, &mut ops, 4)?;
                    ops.extend([Op::New, Op::Save(b, 1, 0), Op::Go(1, true), Op::Save(a, 0, 1), Op::Rem(0)]);
                    explore12(cx, &vs, &mut ops, 9)?;
                }
            }
            Ok(())
        }
        _ => {
            let ops = parse(w[1]);
            let mut o = ops.clone();
            explore12(cx, &vs, &mut o, ops.len())
        }
    }
}

// ---- C21

#[derive(Debug, Clone, Copy, PartialEq)]
enum Ho {
    Save(u8),
    /// version, entry
    Load(usize, usize),
    New,
    Restart,
    Go(usize),
}

fn hshow(ops: &[Ho]) -> String {
    ops.iter()
        .map(|o| match o {
            Ho::Save(k) => format!("S{}", k),
            Ho::Load(v, k) => format!("L{}{}", v, k),
            Ho::New => "N".into(),
            Ho::Restart => "R".into(),
            Ho::Go(v) => format!("V{}", v),
        })
        .collect::<Vec<_>>()
        .join(".")
}

fn hparse(s: &str) -> Vec<Ho> {
    s.split('.')
        .filter(|x| !x.is_empty())
        .map(|x| {
            let d = |i: usize| (x.as_bytes()[i] - b'0') as usize;
            match &x[0..1] {
                "S" => Ho::Save(d(1) as u8),
                "L" => Ho::Load(d(1), d(2)),
                "N" => Ho::New,
                "R" => Ho::Restart,
                _ => Ho::Go(d(1)),
            }
        })
        .collect()
}

struct HEntry {
    props: FileNameProps,
    doc: Doc,
    bytes: Vec<u8>,
}

struct HM<'a> {
    vers: &'a [Ver],
    opt: Opt,
    /// the options of the second version
    opt1: Opt,
    dir: PathBuf,
    info: HistoryInfo,
    ver: usize,
    root: Option<RootObject>,
    /// the document is known to the store as derived from an entry of the current version
    derives: bool,
    entries: Vec<Vec<HEntry>>,
    /// versions in the order their directories were made
    made: Vec<usize>,
    n: usize,
}

impl<'a> HM<'a> {
    fn new(vers: &'a [Ver], opt: Opt, dir: PathBuf) -> Result<HM<'a>, String> {
        let info = e(HistoryInfo::create(&dir, cur_src(&vers[0], false), opt.build()), "create")?;
        let root = info.clone_src_root();
        Ok(HM { vers, opt, opt1: opt, dir, info, ver: 0, root: Some(root), derives: false, entries: vers.iter().map(|_| vec![]).collect(), made: vec![], n: 0 })
    }
    fn options(&self) -> HistoryOptions {
        if self.ver == 1 { self.opt1 } else { self.opt }.build()
    }
    fn vdir(&self, v: usize) -> PathBuf {
        hash_dir_path(&self.dir, self.vers[v].hash)
    }
    fn restart(&mut self) -> Result<(), String> {
        self.root = None;
        self.derives = false;
        self.info = e(unsafe { init_dochy_cache_us(&self.dir, cur_src(&self.vers[self.ver], self.n % 2 == 1), &self.options()) }, "restart")?;
        Ok(())
    }
    fn load(&mut self, v: usize, k: usize) -> Result<RootObject, String> {
        let en = &self.entries[v][k];
        let name = en.props.calc_filename();
        let hs = e(list_histories(&self.info), "list")?;
        let all = hs.list_files();
        let d = all.iter().find(|d| d.hash() == self.vers[v].hash && d.props() == &en.props).ok_or_else(|| format!("entry {} of version {} is not listed", name, v))?;
        let r = e(load_history_file_data(&self.info, d, self.n % 2 == 0), &format!("load of {} of version {} under {}", name, v, self.ver))?;
        let want = if v == self.ver {
            en.doc.clone()
        } else {
            let (d, misfit, _) = convert(&en.doc, &self.vers[v].src, &self.vers[self.ver].src, &self.vers[self.ver].doc);
            if let Some(m) = misfit {
                return Err(format!("bad test data: {}", m));
            }
            d
        };
        expect_eq(&want, &snap(&r), &format!("{} of version {} under source {}", name, v, self.ver))?;
        Ok(r)
    }
    fn step(&mut self, op: &Ho) -> Result<(), String> {
        self.n += 1;
        match op {
            Ho::Save(kind) => {
                let r = self.root.as_mut().ok_or("no document")?;
                edit_some(r, &self.vers[self.ver].src, *kind, self.n)?;
                let doc = snap(r);
                let props = e(save_history_file(&self.info, None, r), "save")?;
                let name = props.calc_filename();
                let p = self.vdir(self.ver).join(&name);
                let bytes = e(std::fs::read(&p), &format!("saved file {} of version {}", name, self.ver))?;
                if !self.derives && props.phase() != 0 {
                    return Err(format!("a document without a base in this version was saved as {}", name));
                }
                self.derives = true;
                self.entries[self.ver].push(HEntry { props, doc, bytes });
                if !self.made.contains(&self.ver) {
                    self.made.push(self.ver);
                }
                self.compare()?;
                self.alone()?;
            }
            Ho::Load(v, k) => {
                let r = self.load(*v, *k)?;
                self.derives = *v == self.ver;
                self.root = Some(r);
            }
            Ho::New => {
                self.root = Some(self.info.clone_src_root());
                self.derives = false;
            }
            Ho::Restart => self.restart()?,
            Ho::Go(v) => {
                self.ver = *v;
                self.restart()?;
                self.root = Some(self.info.clone_src_root());
            }
        }
        self.listing()
    }
    fn compare(&self) -> Result<(), String> {
        for v in 0..self.vers.len() {
            let mut want: Vec<String> = self.entries[v].iter().map(|x| x.props.calc_filename()).collect();
            want.sort();
            let mut got: Vec<String> = match std::fs::read_dir(self.vdir(v)) {
                Ok(d) => d.map(|f| f.unwrap().file_name().to_string_lossy().to_string()).filter(|n| n.ends_with(".his")).collect(),
                Err(_) => vec![],
            };
            got.sort();
            if want != got {
                return Err(format!("version {} has files {:?}, should have {:?}", v, got, want));
            }
            for x in &self.entries[v] {
                let n = x.props.calc_filename();
                if std::fs::read(self.vdir(v).join(&n)).unwrap() != x.bytes {
                    return Err(format!("{} of version {} was changed", n, v));
                }
            }
            if self.made.contains(&v) && std::fs::read(self.vdir(v).join("src.archive")).ok().as_ref() != Some(&self.vers[v].arc_bytes) {
                return Err(format!("the source archive of version {} is not its source", v));
            }
        }
        Ok(())
    }
    /// The newest entry loads in a fresh directory that has only its own version.
    fn alone(&mut self) -> Result<(), String> {
        if self.made.len() < 2 {
            return Ok(());
        }
        let away = self.dir.with_extension("away");
        std::fs::create_dir_all(&away).unwrap();
        let others: Vec<usize> = self.made.iter().copied().filter(|v| *v != self.ver).collect();
        for v in &others {
            std::fs::rename(self.vdir(*v), away.join(v.to_string())).unwrap();
        }
        let twin = self.dir.with_extension("twin");
        std::fs::create_dir_all(&twin).unwrap();
        copy_dir(&self.vdir(self.ver), &hash_dir_path(&twin, self.vers[self.ver].hash));
        let info = e(unsafe { init_dochy_cache_us(&twin, cur_src(&self.vers[self.ver], false), &self.options()) }, "twin")?;
        let res = (|| {
            let hs = e(list_histories(&info), "list")?;
            let d = hs.get_newest_file_data().ok_or("nothing listed")?;
            let r = e(load_history_file_data(&info, &d, true), "newest entry without the other versions")?;
            expect_eq(&self.entries[self.ver].last().unwrap().doc, &snap(&r), "newest entry without the other versions")
        })();
        for v in &others {
            std::fs::rename(away.join(v.to_string()), self.vdir(*v)).unwrap();
        }
        std::fs::remove_dir_all(&twin).unwrap();
        std::fs::remove_dir_all(&away).unwrap();
        res
    }
    fn listing(&self) -> Result<(), String> {
        let hs = e(list_histories(&self.info), "list")?;
        let got: Vec<(u128, FileNameProps)> = hs.list_files().iter().map(|d| (d.hash(), d.props().clone())).collect();
        let mut want = vec![];
        for v in &self.made {
            for x in &self.entries[*v] {
                want.push((self.vers[*v].hash, x.props.clone()));
            }
        }
        let newest = hs.get_newest_file_data().map(|d| (d.hash(), d.props().clone()));
        if newest.as_ref() != got.last() {
            return Err(format!("newest entry {:?}", newest.map(|x| x.1.calc_filename())));
        }
        if got != want {
            return Err(format!("listed {:?}, should be {:?}", got.iter().map(|x| x.1.calc_filename()).collect::<Vec<_>>(), want.iter().map(|x| x.1.calc_filename()).collect::<Vec<_>>()));
        }
        Ok(())
    }
    fn finish(&mut self, cx: &mut Ctx) -> Result<(), String> {
        let here = self.ver;
        for i in 0..=self.vers.len() {
            if i > 0 {
                self.ver = (here + i - 1) % self.vers.len();
                self.n += 1;
                self.restart()?;
            }
            for v in 0..self.vers.len() {
                for k in 0..self.entries[v].len() {
                    cx.step();
                    self.load(v, k)?;
                }
            }
        }
        self.compare()
    }
}

fn copy_dir(a: &Path, b: &Path) {
    std::fs::create_dir_all(b).unwrap();
    for f in std::fs::read_dir(a).unwrap() {
        let f = f.unwrap();
        std::fs::copy(f.path(), b.join(f.file_name())).unwrap();
    }
}

fn hnext(m: &HM, last: Option<&Ho>) -> Vec<Ho> {
    let mut v = vec![];
    if m.root.is_some() {
        v.extend([Ho::Save(0), Ho::Save(1), Ho::Save(2)]);
    }
    for x in 0..m.vers.len() {
        for k in 0..m.entries[x].len() {
            if last != Some(&Ho::Load(x, k)) {
                v.push(Ho::Load(x, k));
            }
        }
    }
    if m.derives || m.root.is_none() {
        v.push(Ho::New);
    }
    if m.root.is_some() && !m.made.is_empty() {
        v.push(Ho::Restart);
    }
    for x in 0..m.vers.len() {
        if x != m.ver && !(matches!(last, Some(Ho::Go(_))) && x == 2) {
            v.push(Ho::Go(x));
        }
    }
    v
}

fn explore21(cx: &mut Ctx, vers: &[Ver], opt: Opt, ops: &mut Vec<Ho>, depth: usize) -> Result<(), String> {
    let dir = cx.fresh();
    let mut m = HM::new(vers, opt, dir.clone())?;
    let mut res = Ok(());
    for (i, op) in ops.iter().enumerate() {
        cx.step();
        res = m.step(op).map_err(|t| format!("{:?} {} (step {}): {}", opt, hshow(ops), i, t));
        if res.is_err() {
            break;
        }
    }
    let next = hnext(&m, ops.last());
    if res.is_ok() {
        cx.eval();
        let st: Vec<Vec<String>> = m.entries.iter().map(|v| v.iter().map(|x| x.props.calc_filename()).collect()).collect();
        cx.state(&(opt, st, m.ver, hash_of(&m.root.as_ref().map(snap))));
        if ops.len() == depth {
            res = m.finish(cx).map_err(|t| format!("{:?} {}: {}", opt, hshow(ops), t));
        }
    }
    drop(m);
    cx.drop_dir(&dir);
    res?;
    if ops.len() < depth {
        for o in next {
            if ops.len() + 1 == depth && !matches!(o, Ho::Save(_) | Ho::Load(..)) {
                continue;
            }
            ops.push(o);
            explore21(cx, vers, opt, ops, depth)?;
            ops.pop();
        }
    }
    Ok(())
}

fn opts21(t: Tier) -> Vec<Opt> {
    let g = grid(3);
    let mut v = vec![g[0]];
    for o in &g[1..] {
        let small = o.max_phase <= 2 && (o.cum.is_none() || o.cum == Some((None, None)) || o.cum == Some((None, Some(2))));
        if t.thorough() || small && (o.update0 || o.max_phase == 1) {
            v.push(*o);
        }
    }
    v
}

const LONG21: [&str; 8] = [
    "S0.S0.S1.V1.L01.S0.S0.V0.L02.S0.L10.S1.S0",
    "S2.S0.S0.S0.V2.L03.S0.S2.S0.V1.L20.S0.L03.S1.V2.L22.S0.S0",
    "S1.V1.S1.V2.S1.V0.L00.S0.V1.L10.S0.V2.L20.S0.L01.S0.L11.S0",
    "S0.V1.L00.S0.L00.S0.L10.S0.L11.S0.V0.L10.S0.L00.S0",
    "S0.S2.R.L01.S0.V1.R.L02.S2.S0.R.L10.S0.V0.R.L12.S0",
    "V1.S0.S0.V0.L11.S0.S0.L11.S0.V1.L01.S0.L10.S0.S0",
    "S0.S0.S0.S0.V1.L03.V0.L03.S0.V1.L00.V0.S0.L04.S0",
    "S1.S1.V2.L01.S1.V1.L20.S1.V0.L10.S1.V2.L02.S1.V1.L21.S1",
];

fn cases21(t: Tier) -> Vec<String> {
    let mut v = vec![];
    for (i, _) in opts21(t).iter().enumerate() {
        let d = if i == 0 { t.pick(5, 6) } else { t.pick(4, 5) };
        for f in ["S0", "S1", "S2", "V1", "V2"] {
            if d > 4 {
                for s in ["S0", "S1", "S2", "L00", "N", "R", "V0", "V1", "V2", "L10", "L20"] {
                    v.push(format!("exh {} {} {}.{}", i, d, f, s));
                }
            } else {
                v.push(format!("exh {} {} {}", i, d, f));
            }
        }
        for k in 0..LONG21.len() {
            v.push(format!("long {} {}", i, k));
        }
    }
    for a in 0..mixed().len() {
        for b in 0..mixed().len() {
            if a != b {
                v.push(format!("mixed {} {}", a, b));
            }
        }
    }
    v
}

/// Options for versions with different ones.
fn mixed() -> Vec<Opt> {
    let o = |max_phase, cum| Opt { max_phase, update0: true, cum, mt_save: false, mt_load: true };
    vec![o(1, None), o(2, None), o(1, Some((None, Some(3)))), o(2, Some((None, Some(3)))), Opt { mt_save: true, mt_load: false, ..o(2, Some((None, None))) }]
}

fn run_mixed(a: Opt, b: Opt, vs: &[Ver], cx: &mut Ctx) -> Result<(), String> {
    let dir = cx.fresh();
    let mut m = HM::new(vs, a, dir.clone())?;
    m.opt1 = b;
    let ops = "S2.S0.S2.S1.S2.S0.L02.S2.S1.V1.N.S2.S0.S2.S1.S2.S0.L12.S2.S1";
    for op in hparse(ops) {
        cx.step();
        m.step(&op)?;
    }
    cx.eval();
    m.finish(cx)?;
    cx.outcome("versions with different options");
    cx.drop_dir(&dir);
    Ok(())
}

fn run21(case: &str, cx: &mut Ctx) -> Result<(), String> {
    let w: Vec<&str> = case.split(' ').collect();
    let vs = vers(cx)?;
    let o: usize = w[1].parse().map_err(|_| "case")?;
    if w[0] == "mixed" {
        let (a, b) = (mixed()[o], mixed()[w[2].parse::<usize>().map_err(|_| "case")?]);
        let s = |o: Opt| format!("{} phases, {}", o.max_phase + 1, o.cum.map_or("not cumulative".into(), |c| format!("cumulative {:?}", c)));
        return run_mixed(a, b, &vs, cx).map_err(|m| format!("[options {} -> {}] {}", s(a), s(b), m));
    }
    let opt = opts21(cx.tier)[o];
    match w[0] {
        "exh" => {
            let d: usize = w[2].parse().map_err(|_| "case")?;
            let pre = hparse(w[3]);
            let dir = cx.fresh();
            let mut m = HM::new(&vs, opt, dir.clone())?;
            let mut last = None;
            for o in &pre {
                if !hnext(&m, last.as_ref()).contains(o) {
                    return Ok(());
                }
                m.step(o).map_err(|t| format!("{:?} {}: {}", opt, w[3], t))?;
                last = Some(*o);
            }
            drop(m);
            cx.drop_dir(&dir);
            let mut ops = pre;
            explore21(cx, &vs, opt, &mut ops, d)
        }
        "long" => {
            // every prefix of a long history, and every one with a restart or a new document put in
            let k: usize = w[2].parse().map_err(|_| "case")?;
            let ops = hparse(LONG21[k]);
            let mut all = vec![ops.clone()];
            for i in 1..ops.len() {
                for x in [Ho::Restart, Ho::New] {
                    let mut v = ops.clone();
                    v.insert(i, x);
                    if x == Ho::Restart && matches!(ops[i], Ho::Save(_)) {
                        v.insert(i + 1, Ho::New);
                    }
                    all.push(v);
                }
            }
            for v in all {
                let mut v2 = v.clone();
                explore21(cx, &vs, opt, &mut v2, v.len())?;
            }
            Ok(())
        }
        _ => {
            let ops = hparse(w[2]);
            let mut v = ops.clone();
            explore21(cx, &vs, opt, &mut v, ops.len())
        }
    }
}

// ---- C22

fn reference_name(b: &[u8]) -> Option<u128> {
    if b.len() != 32 {
        return None;
    }
    let mut r = 0u128;
    for c in b {
        let d = match c {
            b'0'..=b'9' => c - b'0',
            b'a'..=b'f' => c - b'a' + 10,
            _ => return None,
        };
        r = r << 4 | d as u128;
    }
    Some(r)
}

fn name_case(cx: &mut Ctx, b: &[u8]) -> Result<(), String> {
    cx.eval();
    let want = reference_name(b);
    let got = guard(|| folder_name_to_hash(OsStr::from_bytes(b))).map_err(|p| format!("name {:?}: panic {}", OsStr::from_bytes(b), p))?;
    if got != want {
        return Err(format!("name {:?} decodes to {:x?}, should be {:x?}", OsStr::from_bytes(b), got, want));
    }
    cx.outcome(if want.is_some() { "a hash" } else { "not a hash" });
    Ok(())
}

fn hash_case(cx: &mut Ctx, h: u128) -> Result<(), String> {
    cx.eval();
    let n = hash_to_folder_name(h);
    if n.to_string_lossy() != format!("{:032x}", h) {
        return Err(format!("hash {:x} is named {:?}", h, n));
    }
    if folder_name_to_hash(&n) != Some(h) {
        return Err(format!("hash {:x} is not read back from {:?}", h, n));
    }
    let p = hash_dir_path("/a/b", h);
    if p != Path::new("/a/b").join(&n) {
        return Err(format!("path of {:x} is {:?}", h, p));
    }
    cx.state(&h);
    Ok(())
}

const BACK: [u128; 4] = [0, u128::MAX, 0x0123456789abcdef_fedcba9876543210, 0xa0f0_0000_0000_0000_0000_0000_0000_09af];

/// 0-2 save a document with source k, 3-5 save a history entry with source k, 6-8 remove version k,
/// 9.. foreign things
const OPS22: u8 = 15;

struct D22<'a> {
    vers: &'a [Ver],
    dir: PathBuf,
    made: Vec<(usize, SystemTime)>,
    saved: BTreeSet<usize>,
    hist: BTreeMap<usize, usize>,
    foreign: BTreeSet<String>,
}

impl<'a> D22<'a> {
    fn step(&mut self, op: u8) -> Result<(), String> {
        let before = SystemTime::now();
        match op {
            0..=2 => {
                let v = op as usize;
                let info = e(unsafe { force_update_and_get_info_us(&self.dir, cur_src(&self.vers[v], false)) }, "info")?;
                e(save_dochy_file(&info, "f", &self.vers[v].root, true), "save")?;
                self.saved.insert(v);
                self.made_now(v, before)?;
            }
            3..=5 => {
                let v = op as usize - 3;
                let info = e(unsafe { init_dochy_cache_us(&self.dir, cur_src(&self.vers[v], true), &HistoryOptions::new()) }, "info")?;
                e(save_history_file(&info, None, &info.clone_src_root()), "save")?;
                *self.hist.entry(v).or_insert(0) += 1;
                self.made_now(v, before)?;
            }
            6..=8 => {
                let v = op as usize - 6;
                let r = remove_hash_dir(&self.dir, self.vers[v].hash);
                if r.is_ok() != self.made.iter().any(|m| m.0 == v) {
                    return Err(format!("removing version {} gave {:?}", v, r.map_err(|e| e.to_string())));
                }
                self.made.retain(|m| m.0 != v);
                self.saved.remove(&v);
                self.hist.remove(&v);
            }
            _ => {
                let n = hash_to_folder_name(self.vers[0].hash).to_string_lossy().to_string();
                let (name, is_dir) = match op {
                    9 => ("f".repeat(32), false),
                    10 => (n.to_uppercase().replace(|c: char| c.is_ascii_digit(), "A"), true),
                    11 => (format!("{}0", n), true),
                    12 => (n[1..].to_string(), true),
                    13 => (format!("{}g", &n[1..]), true),
                    _ => (format!("{}é", &n[2..]), true),
                };
                let p = self.dir.join(&name);
                if is_dir {
                    std::fs::create_dir_all(&p).unwrap();
                    std::fs::write(p.join("x"), "y").unwrap();
                    std::fs::write(p.join("_0.his"), "y").unwrap();
                } else {
                    std::fs::write(&p, "x").unwrap();
                }
                self.foreign.insert(name);
            }
        }
        self.compare()
    }
    fn made_now(&mut self, v: usize, before: SystemTime) -> Result<(), String> {
        if !self.made.iter().any(|m| m.0 == v) {
            let t = e(get_hash_times(&self.dir), "times")?;
            let x = t.iter().find(|x| x.0 == self.vers[v].hash).ok_or("a new version is not listed")?;
            if x.1 < before || x.1 > SystemTime::now() {
                return Err(format!("the creation time of a new version is {:?}", x.1));
            }
            self.made.push((v, x.1));
        }
        Ok(())
    }
    fn compare(&self) -> Result<(), String> {
        let want: Vec<(u128, SystemTime)> = self.made.iter().map(|m| (self.vers[m.0].hash, m.1)).collect();
        let got = e(get_hash_times(&self.dir), "times")?;
        if got != want {
            return Err(format!("versions {:x?}, should be {:x?}", got, want));
        }
        let paths: Vec<PathBuf> = e(hash_dir_paths(&self.dir), "paths")?.collect();
        if paths != want.iter().map(|x| self.dir.join(format!("{:032x}", x.0))).collect::<Vec<_>>() {
            return Err(format!("paths {:?}", paths));
        }
        let mut on_disk: Vec<String> = std::fs::read_dir(&self.dir).unwrap().map(|x| x.unwrap().file_name().to_string_lossy().to_string()).collect();
        on_disk.sort();
        let mut names: Vec<String> = self.foreign.iter().cloned().chain(want.iter().map(|x| format!("{:032x}", x.0))).collect();
        names.sort();
        if names != on_disk {
            return Err(format!("directory has {:?}, should have {:?}", on_disk, names));
        }
        let mut l: Vec<(u128, String)> = e(list_dochy_files(&self.dir), "list")?.iter().map(|f| (f.hash(), f.name().to_string())).collect();
        l.retain(|x| !x.1.ends_with(".his"));
        l.sort();
        let mut w: Vec<(u128, String)> = self.saved.iter().map(|v| (self.vers[*v].hash, "f".to_string())).collect();
        w.sort();
        if l != w {
            return Err(format!("document files {:?}, should be {:?}", l, w));
        }
        let info = e(unsafe { init_dochy_cache_us(&self.dir, cur_src(&self.vers[0], false), &HistoryOptions::new()) }, "info")?;
        let hs = e(list_histories(&info), "list")?;
        let got: Vec<u128> = hs.list_files().iter().map(|d| d.hash()).collect();
        let mut w = vec![];
        for m in &self.made {
            for _ in 0..*self.hist.get(&m.0).unwrap_or(&0) {
                w.push(self.vers[m.0].hash);
            }
        }
        if got != w {
            return Err(format!("history entries of {:x?}, should be of {:x?}", got, w));
        }
        Ok(())
    }
}

fn explore22(cx: &mut Ctx, vs: &[Ver], ops: &mut Vec<u8>, depth: usize) -> Result<(), String> {
    let dir = cx.fresh();
    let mut m = D22 { vers: vs, dir: dir.clone(), made: vec![], saved: BTreeSet::new(), hist: BTreeMap::new(), foreign: BTreeSet::new() };
    let mut res = Ok(());
    for (i, o) in ops.iter().enumerate() {
        cx.step();
        res = m.step(*o).map_err(|t| format!("{:?} (step {}): {}", ops, i, t));
        if res.is_err() {
            break;
        }
    }
    cx.eval();
    cx.state(&(m.made.iter().map(|x| x.0).collect::<Vec<_>>(), &m.saved, &m.hist, &m.foreign));
    cx.drop_dir(&dir);
    res?;
    if ops.len() < depth {
        for o in 0..OPS22 {
            if (6..=8).contains(&o) && ops.is_empty() {
                continue;
            }
            ops.push(o);
            explore22(cx, vs, ops, depth)?;
            ops.pop();
        }
    }
    Ok(())
}

/// More versions than digits count, made in turn, some removed and made again.
fn many22(cx: &mut Ctx, n: usize) -> Result<(), String> {
    let dir = cx.fresh();
    std::fs::create_dir_all(&dir).unwrap();
    let srcs: Vec<PathBuf> = (0..n)
        .map(|i| {
            let d = cx.fresh();
            write_src(&d, &[("root.json5", &format!("{{ v{} : {} }}", i % 7, i))]);
            d
        })
        .collect();
    let mut made: Vec<(u128, SystemTime)> = vec![];
    let mut saved: BTreeSet<(u128, String)> = BTreeSet::new();
    let mut step = |cx: &mut Ctx, i: usize, remove: bool| -> Result<(), String> {
        cx.step();
        cx.beat();
        let before = SystemTime::now();
        let info = e(unsafe { force_update_and_get_info_us(&dir, CurrentSrc::SrcDir(srcs[i].clone())) }, "info")?;
        let h = info.hash();
        if remove {
            e(remove_hash_dir(&dir, h), "remove")?;
            made.retain(|m| m.0 != h);
            saved.retain(|s| s.0 != h);
        } else {
            let name = format!("f{}", i);
            e(save_dochy_file(&info, &name, &info.clone_src_root(), true), "save")?;
            saved.insert((h, name));
        }
        let got = e(get_hash_times(&dir), "times")?;
        if !remove && made.iter().all(|m| m.0 != h) {
            let t = got.iter().find(|x| x.0 == h).ok_or("a new version is not listed")?.1;
            if t < before || t > SystemTime::now() {
                return Err(format!("the creation time of a new version is {:?}", t));
            }
            made.push((h, t));
        }
        if got != made {
            return Err(format!("versions {:x?}, should be {:x?}", got, made));
        }
        let paths: Vec<PathBuf> = e(hash_dir_paths(&dir), "paths")?.collect();
        if paths != made.iter().map(|x| dir.join(format!("{:032x}", x.0))).collect::<Vec<_>>() {
            return Err(format!("paths {:?}", paths));
        }
        let l: BTreeSet<(u128, String)> = e(list_dochy_files(&dir), "list")?.iter().map(|f| (f.hash(), f.name().to_string())).collect();
        if l != saved {
            return Err(format!("document files {:?}, should be {:?}", l, saved));
        }
        cx.eval();
        cx.state(&(n, i, remove, saved.len()));
        Ok(())
    };
    for i in 0..n {
        step(cx, i, false).map_err(|m| format!("version {} of {}: {}", i, n, m))?;
    }
    for i in (0..n).step_by(3) {
        step(cx, i, true).map_err(|m| format!("removing version {} of {}: {}", i, n, m))?;
    }
    for i in (0..n).step_by(2) {
        step(cx, i, false).map_err(|m| format!("version {} of {} again: {}", i, n, m))?;
    }
    cx.drop_dir(&dir);
    Ok(())
}

fn cases22(t: Tier) -> Vec<String> {
    let mut v = vec![];
    for b in 0..BACK.len() {
        v.push(format!("hash {b}"));
        v.push(format!("name {b}"));
    }
    v.push("lengths".into());
    for n in [12, 33, 70] {
        v.push(format!("many {n}"));
    }
    let d = t.pick(4, 5);
    for a in 0..OPS22 {
        if !(6..=8).contains(&a) {
            for b in 0..OPS22 {
                v.push(format!("dirs {d} {a} {b}"));
            }
        }
    }
    v
}

fn run22(case: &str, cx: &mut Ctx) -> Result<(), String> {
    let w: Vec<&str> = case.split(' ').collect();
    let n = |i: usize| w[i].parse::<usize>().map_err(|_| "case".to_string());
    match w[0] {
        "hash" => {
            let b = BACK[n(1)?];
            for pos in 0..32 {
                for x in 0..16u128 {
                    let h = b & !(15u128 << (pos * 4)) | x << (pos * 4);
                    hash_case(cx, h)?;
                    if pos < 31 {
                        for y in 0..16u128 {
                            let p = pos * 4 + 4;
                            hash_case(cx, h & !(15u128 << p) | y << p)?;
                        }
                    }
                }
            }
            Ok(())
        }
        "name" => {
            let s = format!("{:032x}", BACK[n(1)?]).into_bytes();
            for pos in 0..=32 {
                for c in 0..=255u8 {
                    if c == 0 || c == b'/' {
                        continue;
                    }
                    if pos < 32 {
                        let mut t = s.clone();
                        t[pos] = c;
                        name_case(cx, &t)?;
                        cx.state(&t);
                        if pos < 31 {
                            t[pos + 1] = c;
                            name_case(cx, &t)?;
                        }
                    }
                    let mut t = s.clone();
                    t.insert(pos, c);
                    name_case(cx, &t)?;
                    t.remove((pos + 7) % 33);
                    name_case(cx, &t)?;
                }
                for c in ["é", "日", "𝄞", "\u{fffd}"] {
                    let mut t = s.clone();
                    let k = c.len();
                    if pos + k <= 32 {
                        t.splice(pos..pos + k, c.bytes());
                        name_case(cx, &t)?;
                    }
                }
                if pos < 32 {
                    let mut t = s.clone();
                    t.remove(pos);
                    name_case(cx, &t)?;
                }
            }
            Ok(())
        }
        "many" => many22(cx, n(1)?),
        "lengths" => {
            for k in 0..70 {
                for c in ["0", "f", "a", "9", "g", "A", " ", "-", "+", "."] {
                    name_case(cx, c.repeat(k).as_bytes())?;
                }
            }
            Ok(())
        }
        _ => {
            let vs = vers(cx)?;
            let mut ops = vec![n(2)? as u8, n(3)? as u8];
            explore22(cx, &vs, &mut ops, n(1)?)
        }
    }
}
