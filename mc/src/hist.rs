//! Histories: the operations, the reference model and the enumerations shared by C13-C16.
use crate::docs::*;
use crate::edits::*;
use crate::infra::*;
use crate::snap::*;
use dochy_core::structs::RootObject;
use dochy_fs::common::{hash_dir_path, CurrentSrc};
use dochy_fs::history::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

pub const SRC: &str = r#"{ i : 0, big : "", sn : "text", yn : ["Binary", 1], jn : ["IntArray", 1],
  t1 : ["Table", [{ v : 0 }], { ID : "a", v : 1 }, { ID : "b", v : 2 }],
  l : ["MList", [{ i : 0, sn : "", k : ["MilDef", [{ i : 0 }]], Ref : { t1 : "a" } }], { i : 1, k : ["Mil", { i : 1 }] }, { i : 2 }] }"#;

#[derive(Debug, Clone, Copy, PartialEq, Hash)]
pub struct Opt {
    pub max_phase: usize,
    pub update0: bool,
    /// None: not cumulative
    pub cum: Option<(Option<usize>, Option<usize>)>,
    pub mt_save: bool,
    pub mt_load: bool,
}

impl Opt {
    pub fn build(&self) -> HistoryOptions {
        HistoryOptionsBuilder::new()
            .max_phase(self.max_phase)
            .update_phase_0(self.update0)
            .mt_save(self.mt_save)
            .mt_load(self.mt_load)
            .cumulative(self.cum.map(|(n, c)| {
                let mut b = CumulativeOptionsBuilder::new();
                // the documented defaults
                if n != Some(1) {
                    b = b.limit_nth(n);
                }
                if c != Some(10) {
                    b = b.limit_count(c);
                }
                b
            }))
            .build()
            .expect("options")
    }
}

/// Every option combination of the grid; the first one is the default.
pub fn grid(max: usize) -> Vec<Opt> {
    let mut v = vec![Opt { max_phase: 3, update0: true, cum: Some((Some(1), Some(10))), mt_save: false, mt_load: true }];
    for max_phase in 0..=max {
        let cums: Vec<Option<(Option<usize>, Option<usize>)>> = if max_phase == 0 {
            vec![None, Some((None, None))]
        } else {
            vec![None, Some((None, None)), Some((Some(1), None)), Some((None, Some(1))), Some((None, Some(2))), Some((Some(1), Some(10))), Some((Some(2), Some(3))), Some((Some(9), None))]
        };
        for update0 in [true, false] {
            if max_phase == 0 && !update0 {
                continue;
            }
            for cum in &cums {
                v.push(Opt { max_phase, update0, cum: *cum, mt_save: false, mt_load: false });
            }
        }
        v.push(Opt { max_phase, update0: true, cum: None, mt_save: true, mt_load: true });
        v.push(Opt { max_phase, update0: true, cum: Some((None, if max_phase == 0 { None } else { Some(4) })), mt_save: true, mt_load: true });
    }
    v
}

#[derive(Debug, Clone, Copy, PartialEq, Hash)]
pub enum Op {
    /// edit of a kind (see `edit`) and save, with a tag or without
    Save(u8, u8),
    /// load the entry saved k-th and go on with it
    Load(usize),
    /// go on with a new document
    New,
    /// the process ends and starts again; a load or a new document follows
    Restart,
    /// go on with the other live document, first a copy of the current one
    Swap,
    /// let the next save derive from an entry which holds an older state of the document, or from none
    Base(Option<usize>),
}

pub const TAGS: [Option<&str>; 4] = [None, Some("t"), Some("a b#_1_2"), Some("é")];

pub fn text_of(ops: &[Op]) -> String {
    ops.iter()
        .map(|o| match o {
            Op::Save(e, t) => format!("S{}{}", e, t),
            Op::Load(k) => format!("L{}", k),
            Op::New => "N".into(),
            Op::Restart => "R".into(),
            Op::Swap => "X".into(),
            Op::Base(Some(k)) => format!("B{}", k),
            Op::Base(None) => "O".into(),
        })
        .collect::<Vec<_>>()
        .join(".")
}

pub fn parse(s: &str) -> Vec<Op> {
    s.split('.')
        .filter(|x| !x.is_empty())
        .map(|x| {
            let n = |i: usize| x[i..].parse::<usize>().unwrap();
            match &x[0..1] {
                "S" => Op::Save((n(1) / 10) as u8, (n(1) % 10) as u8),
                "L" => Op::Load(n(1)),
                "N" => Op::New,
                "R" => Op::Restart,
                "B" => Op::Base(Some(n(1))),
                "O" => Op::Base(None),
                _ => Op::Swap,
            }
        })
        .collect()
}

pub const EDITS: u8 = 6;

/// kind 0 small, 1 big, 2 lists, 3 nothing, 4 a growing binary, 5 removal and order; apart from the enumerations, 6 very big
pub fn edit(r: &mut RootObject, kind: u8, n: usize) {
    let l = Loc::root("l");
    let n = n as i64 + 1;
    match kind {
        0 => {
            apply(r, &Ed::Set(None, "i".into(), V::I(n * 1000)));
        }
        1 => {
            let s: String = (0..700).map(|k| char::from(b'a' + ((k * 7 + n * 13) % 26) as u8)).collect();
            apply(r, &Ed::Set(None, "big".into(), V::S(s)));
        }
        2 => {
            apply(r, &Ed::Ins(l.clone(), true));
            apply(r, &Ed::Set(Some((l.clone(), 0)), "i".into(), V::I(-n)));
            apply(r, &Ed::Ref(Some((l.clone(), 0)), "t1".into(), V::Id("b".into())));
            apply(r, &Ed::Ins(l.sub(0, "k"), false));
        }
        3 => {}
        4 => {
            for _ in 0..8 {
                apply(r, &Ed::InPlace(None, "yn".into(), 0));
            }
            apply(r, &Ed::Set(None, "sn".into(), V::S(format!("{}", n))));
        }
        6 => {
            let s: String = (0..70_000).map(|k| char::from(b'a' + ((k * 7 + n * 13) % 26) as u8)).collect();
            apply(r, &Ed::Set(None, "big".into(), V::S(s)));
        }
        _ => {
            apply(r, &Ed::ToEnd(l.clone(), 0, true));
            apply(r, &Ed::Rem(l, 1));
            apply(r, &Ed::Set(None, "i".into(), V::I(0)));
        }
    }
}

#[derive(Debug, Clone)]
pub struct Entry {
    pub props: FileNameProps,
    pub doc: Doc,
    pub bytes: Vec<u8>,
    /// indices of the entries its rule-given chain goes through, itself included
    pub chain: Vec<usize>,
    /// what the rule keeps per phase: own size, size and number of what came after it
    sizes: Vec<(u64, u64, usize)>,
    pub removed: bool,
}

impl Entry {
    pub fn name(&self) -> String {
        self.props.calc_filename()
    }
}

pub struct H {
    pub opt: Opt,
    pub info: HistoryInfo,
    pub dir: PathBuf,
    pub src: CurrentSrc,
    pub entries: Vec<Entry>,
    live: Vec<(RootObject, usize)>,
    cur: usize,
    next_live: usize,
    /// which live document the store knows, and the entry it stands for
    known: Option<(usize, usize)>,
    pub saves: usize,
    /// how the phase differs from the rule, if it does
    pub phase_error: Option<String>,
}

fn e<T, E: std::fmt::Display>(r: Result<T, E>, what: &str) -> Result<T, String> {
    r.map_err(|x| format!("{}: {}", what, x))
}

pub fn src_dir(cx: &mut Ctx) -> PathBuf {
    let d = cx.fresh();
    write_src(&d, &[("root.json5", SRC)]);
    d
}

/// A document of the source that shares nothing with the one the history has read.
fn apart(src: &CurrentSrc) -> Result<RootObject, String> {
    thread_local!(static READ: std::cell::RefCell<Vec<(PathBuf, RootObject)>> = std::cell::RefCell::new(vec![]));
    let dir = match src {
        CurrentSrc::SrcDir(d) => d.clone(),
        CurrentSrc::ArchiveFile(_) => return Err("a directory is needed".into()),
    };
    READ.with(|m| {
        let mut m = m.borrow_mut();
        if let Some((_, r)) = m.iter().find(|x| x.0 == dir) {
            return Ok(r.clone());
        }
        let r = e(dochy_core::json_dir_to_root(&dir, true), "source")?;
        m.push((dir, r.clone()));
        Ok(r)
    })
}

impl H {
    pub fn new(opt: Opt, src: &Path, dir: &Path) -> Result<H, String> {
        std::fs::create_dir_all(dir).unwrap();
        let src = CurrentSrc::SrcDir(src.to_path_buf());
        let info = e(HistoryInfo::create(dir, src.clone(), opt.build()), "create")?;
        let r = info.clone_src_root();
        Ok(H { opt, info, dir: dir.to_path_buf(), src, entries: vec![], live: vec![(r, 0)], cur: 0, next_live: 1, known: None, saves: 0, phase_error: None })
    }
    pub fn hash_dir(&self) -> PathBuf {
        hash_dir_path(&self.dir, self.info.hash())
    }
    pub fn restart(&mut self) -> Result<(), String> {
        self.live.clear();
        self.known = None;
        self.info = e(unsafe { init_dochy_cache_us(&self.dir, self.src.clone(), &self.opt.build()) }, "restart")?;
        Ok(())
    }
    fn go_on(&mut self, r: RootObject) -> usize {
        let id = self.next_live;
        self.next_live += 1;
        if self.live.is_empty() {
            self.cur = 0;
            self.live.push((r, id));
        } else {
            self.live[self.cur] = (r, id);
        }
        id
    }
    /// The phase the manual's rule gives.
    fn rule(&self, d: &[(u64, u64, usize)]) -> usize {
        let len = d.len();
        if len <= self.opt.max_phase {
            return len;
        }
        for i in 0..len - 1 {
            let cur = d[len - 1 - i];
            let par = d[len - 2 - i];
            let now = (par.0 + par.1) as f64 / (1 + par.2) as f64;
            let repeated = (par.0 + par.1 + cur.0 + cur.1) as f64 / (1 + par.2 + 1 + cur.2) as f64;
            if repeated > now {
                continue;
            }
            if i == 0 {
                if let Some((nth, count)) = self.opt.cum {
                    if count.map_or(false, |c| c <= par.2) {
                        continue;
                    }
                    if let Some(n) = nth {
                        let mut s: Vec<u64> = d.iter().map(|x| x.0).collect();
                        s.sort();
                        s.reverse();
                        if s.get(n - 1).map_or(false, |x| *x <= par.1) {
                            continue;
                        }
                    }
                }
            }
            return len - 1 - i;
        }
        if self.opt.update0 {
            0
        } else {
            1
        }
    }
    fn body_len(&self, bytes: &[u8]) -> Result<u64, String> {
        let mut c = std::io::Cursor::new(bytes);
        e(dochy_compaction::enc_dec::decode::decode(&mut c), "metadata")?;
        Ok(bytes.len() as u64 - c.position())
    }
    fn newest(&self) -> Option<usize> {
        (0..self.entries.len()).rev().find(|i| !self.entries[*i].removed)
    }
    /// phase, chain without the new entry, sizes to go on from
    fn expected(&self) -> (usize, Vec<usize>, Vec<(u64, u64, usize)>) {
        let start = (0, vec![], vec![]);
        let (live, base) = match self.known {
            Some(x) => x,
            None => return start,
        };
        if live != self.live[self.cur].1 || self.entries[base].removed {
            return start;
        }
        let mut from = base;
        if self.entries[base].props.phase() == self.opt.max_phase && Some(base) != self.newest() {
            if self.opt.max_phase == 0 {
                return start;
            }
            from = self.entries[base].chain[self.opt.max_phase - 1];
        }
        let f = &self.entries[from];
        let p = self.rule(&f.sizes);
        let chain = if p == self.opt.max_phase && self.opt.cum.is_some() { f.chain.clone() } else { f.chain[0..p.min(f.chain.len())].to_vec() };
        (p, chain, f.sizes.clone())
    }
    pub fn save(&mut self, kind: u8, tag: u8) -> Result<(), String> {
        let n = self.saves;
        self.saves += 1;
        edit(&mut self.live[self.cur].0, kind, n);
        let tag = TAGS[tag as usize];
        let (phase, mut chain, mut sizes) = self.expected();
        let props = e(save_history_file(&self.info, tag.map(|x| x.to_string()), &self.live[self.cur].0), "save")?;
        let name = props.calc_filename();
        let bytes = e(std::fs::read(self.hash_dir().join(&name)), &format!("saved file {}", name))?;
        if self.phase_error.is_none() && props.phase() != phase {
            self.phase_error = Some(format!("save {} went to phase {} ({}), by the rule it is phase {}", n, props.phase(), name, phase));
        }
        let size = self.body_len(&bytes)?;
        let p = props.phase();
        sizes.truncate(p);
        for x in sizes.iter_mut() {
            x.1 += size;
            x.2 += 1;
        }
        sizes.push((size, 0, 0));
        let k = self.entries.len();
        chain.push(k);
        self.known = Some((self.live[self.cur].1, k));
        let doc = snap(&self.live[self.cur].0);
        self.entries.push(Entry { props, doc, bytes, chain, sizes, removed: false });
        Ok(())
    }
    pub fn load_root(&self, k: usize) -> Result<RootObject, String> {
        let hs = e(list_histories(&self.info), "list")?;
        let want = &self.entries[k].props;
        let all = hs.list_files();
        let d = all.iter().find(|d| d.props() == want).ok_or_else(|| format!("entry {} ({}) is not listed", k, want.calc_filename()))?;
        e(load_history_file_data(&self.info, d, true), &format!("load of entry {} ({})", k, want.calc_filename()))
    }
    /// Loads and compares; the loaded document becomes the known one.
    pub fn load(&mut self, k: usize) -> Result<RootObject, String> {
        let r = self.load_root(k)?;
        expect_eq(&self.entries[k].doc, &snap(&r), &format!("entry {} ({}) against what was saved", k, self.entries[k].name()))?;
        Ok(r)
    }
    /// Loads with cold caches and compares, then the known document is as before.
    pub fn load_quietly(&self, k: usize) -> Result<(), String> {
        let r = self.load_root(k)?;
        let known = self.known.and_then(|(l, b)| self.live.iter().find(|x| x.1 == l).map(|x| CurrentRootObjInfo::new(x.0.id(), self.entries[b].props.clone())));
        set_current_root_obj_info(&self.info, known);
        expect_eq(&self.entries[k].doc, &snap(&r), &format!("entry {} ({}) against what was saved", k, self.entries[k].name()))
    }
    pub fn step(&mut self, op: &Op) -> Result<(), String> {
        match op {
            Op::Save(k, t) => self.save(*k, *t)?,
            Op::Load(k) => {
                let r = self.load(*k)?;
                let id = self.go_on(r);
                self.known = Some((id, *k));
            }
            Op::New => {
                // every other one has been read apart from the history
                let r = if self.next_live % 2 == 0 { self.info.clone_src_root() } else { apart(&self.src)? };
                self.go_on(r);
            }
            Op::Restart => self.restart()?,
            Op::Swap => {
                if self.live.len() == 1 {
                    let c = self.live[0].0.clone();
                    let id = self.next_live;
                    self.next_live += 1;
                    self.live.push((c, id));
                }
                self.cur = 1 - self.cur;
            }
            Op::Base(k) => {
                let (r, id) = &self.live[self.cur];
                self.known = k.map(|k| (*id, k));
                set_current_root_obj_info(&self.info, k.map(|k| CurrentRootObjInfo::new(r.id(), self.entries[k].props.clone())));
            }
        }
        Ok(())
    }
    /// Runs all operations; the message says where it failed.
    pub fn run(&mut self, ops: &[Op], cx: &mut Ctx) -> Result<(), String> {
        for (i, op) in ops.iter().enumerate() {
            cx.step();
            self.step(op).map_err(|m| format!("{:?}: {} (step {}): {}", self.opt, text_of(ops), i, m))?;
        }
        Ok(())
    }
    /// Every entry of the history, with warm and with cold caches.
    pub fn check_entries(&mut self) -> Result<(), String> {
        let alive: Vec<usize> = (0..self.entries.len()).filter(|k| !self.entries[*k].removed).collect();
        for k in &alive {
            self.load(*k)?;
        }
        self.restart()?;
        for k in alive.iter().rev() {
            self.load(*k).map_err(|m| format!("after a restart: {}", m))?;
        }
        for k in &alive {
            let en = &self.entries[*k];
            if e(std::fs::read(self.hash_dir().join(en.name())), "entry file")? != en.bytes {
                return Err(format!("the file of entry {} ({}) was changed", k, en.name()));
            }
        }
        Ok(())
    }
    /// names in listing order, of every directory listing there is
    pub fn check_listing(&self) -> Result<(), String> {
        let want: Vec<String> = self.entries.iter().filter(|x| !x.removed).map(|x| x.name()).collect();
        let hs = e(list_histories(&self.info), "list")?;
        let got: Vec<String> = hs.list_files().iter().map(|d| d.props().calc_filename()).collect();
        if want != got {
            return Err(format!("listing {:?}, saved {:?}", got, want));
        }
        for (d, en) in hs.list_files().iter().zip(self.entries.iter().filter(|x| !x.removed)) {
            if d.props() != &en.props {
                return Err(format!("entry listed as {:?}, saved as {:?}", d.props(), en.props));
            }
            if d.hash() != self.info.hash() || d.calc_path(&self.dir) != self.hash_dir().join(en.name()) {
                return Err(format!("entry {} is listed with another version or path", en.name()));
            }
        }
        let newest = hs.get_newest_file_data().map(|d| d.props().calc_filename());
        if newest.as_ref() != want.last() {
            return Err(format!("newest entry {:?}, last saved {:?}", newest, want.last()));
        }
        if want.is_empty() && !self.hash_dir().exists() {
            return Ok(());
        }
        let fh = e(FileHistory::create(&self.dir, self.info.hash(), self.opt.max_phase, self.opt.cum.is_some()), "listing of the version")?;
        let got2: Vec<String> = fh.list_files().iter().map(|p| p.calc_filename()).collect();
        if got2 != want {
            return Err(format!("listing of the version {:?}, saved {:?}", got2, want));
        }
        let np = fh.newest_file_path(&self.hash_dir());
        if np != want.last().map(|n| self.hash_dir().join(n)) {
            return Err(format!("newest path {:?}", np));
        }
        Ok(())
    }
    /// For every entry, the files without which it does not load.
    pub fn needs(&mut self) -> Result<BTreeMap<usize, Vec<usize>>, String> {
        let hd = self.hash_dir();
        let away = self.dir.join("away");
        let mut m: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
        let alive: Vec<usize> = (0..self.entries.len()).filter(|k| !self.entries[*k].removed).collect();
        for f in &alive {
            let p = hd.join(self.entries[*f].name());
            std::fs::rename(&p, &away).map_err(|x| x.to_string())?;
            self.restart()?;
            for k in &alive {
                if k == f || self.load(*k).is_err() {
                    m.entry(*k).or_default().push(*f);
                }
            }
            std::fs::rename(&away, &p).map_err(|x| x.to_string())?;
        }
        self.restart()?;
        Ok(m)
    }
}

/// Calls `f` with every sequence of exactly `depth` operations ending in a save.
pub fn sequences(depth: usize, edits: &[u8], tags: &[u8], first: &[Op], f: &mut dyn FnMut(&[Op]) -> Result<(), String>) -> Result<(), String> {
    fn go(v: &mut Vec<Op>, depth: usize, edits: &[u8], tags: &[u8], f: &mut dyn FnMut(&[Op]) -> Result<(), String>) -> Result<(), String> {
        if v.len() == depth {
            return if matches!(v.last(), Some(Op::Save(..))) { f(v) } else { Ok(()) };
        }
        for o in next_ops(v, edits, tags) {
            if v.len() + 1 == depth && !matches!(o, Op::Save(..)) {
                continue;
            }
            v.push(o);
            go(v, depth, edits, tags, f)?;
            v.pop();
        }
        Ok(())
    }
    let mut v = first.to_vec();
    if v.len() > depth {
        return Ok(());
    }
    go(&mut v, depth, edits, tags, f)
}

/// The entries that hold older states of the current document.
pub fn lineage(ops: &[Op]) -> Vec<usize> {
    let mut entries: Vec<Vec<usize>> = vec![];
    let mut live: Vec<Vec<usize>> = vec![vec![]];
    let mut cur = 0;
    for o in ops {
        let go_on = match o {
            Op::Save(..) => {
                let k = entries.len();
                live[cur].push(k);
                entries.push(live[cur].clone());
                continue;
            }
            Op::Load(k) => entries[*k].clone(),
            Op::New => vec![],
            Op::Restart => {
                live.clear();
                cur = 0;
                continue;
            }
            Op::Swap => {
                if live.len() == 1 {
                    live.push(live[0].clone());
                }
                cur = 1 - cur;
                continue;
            }
            Op::Base(_) => continue,
        };
        if live.is_empty() {
            live.push(go_on);
        } else {
            live[cur] = go_on;
        }
    }
    live.get(cur).cloned().unwrap_or_default()
}

/// Choices of the entry to derive from that can matter.
fn bases(v: &[Op]) -> Vec<Op> {
    let mut r = vec![];
    if matches!(v.last(), None | Some(Op::Restart) | Some(Op::Base(_))) {
        return r;
    }
    let mut l = lineage(v);
    if !matches!(v.last(), Some(Op::Swap)) {
        l.pop();
    }
    r.extend(l.into_iter().map(|k| Op::Base(Some(k))));
    if matches!(v.last(), Some(Op::Save(..)) | Some(Op::Load(_))) {
        r.push(Op::Base(None));
    }
    r
}

/// The operations that may follow; those that change nothing are left out.
pub fn next_ops(v: &[Op], edits: &[u8], tags: &[u8]) -> Vec<Op> {
    let saved = v.iter().filter(|o| matches!(o, Op::Save(..))).count();
    let last = v.last();
    let mut r = vec![];
    let restarted = last == Some(&Op::Restart);
    if !restarted {
        for e in edits {
            for t in tags {
                // tags are tried with small edits
                if *t == 0 || *e == 0 {
                    r.push(Op::Save(*e, *t));
                }
            }
        }
    }
    for k in 0..saved {
        if last != Some(&Op::Load(k)) {
            r.push(Op::Load(k));
        }
    }
    if saved > 0 {
        if last != Some(&Op::New) {
            r.push(Op::New);
        }
        if !restarted {
            r.push(Op::Restart);
            if last != Some(&Op::Swap) {
                r.push(Op::Swap);
            }
        }
        r.extend(bases(v));
    }
    r
}

/// Patterns of edit kinds for long histories.
pub fn patterns(n: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![0; n], vec![1; n], vec![2; n], vec![4; n]];
    v.push((0..n).map(|i| if i % 2 == 0 { 0 } else { 1 }).collect());
    v.push((0..n).map(|i| if i % 3 == 2 { 1 } else { 2 }).collect());
    v.push((0..n).map(|i| (i % 6) as u8).collect());
    for b in 0..n {
        v.push((0..n).map(|i| if i == b { 1 } else { 0 }).collect());
    }
    v
}

/// Calls `f` with the history of these saves with up to `dev` other operations at every position.
pub fn deviations(pat: &[u8], dev: usize, f: &mut dyn FnMut(&[Op]) -> Result<(), String>) -> Result<(), String> {
    fn go(v: &mut Vec<Op>, pat: &[u8], i: usize, dev: usize, f: &mut dyn FnMut(&[Op]) -> Result<(), String>) -> Result<(), String> {
        if i == pat.len() {
            return f(v);
        }
        v.push(Op::Save(pat[i], if i % 4 == 3 { 1 + (i as u8 / 4) % 3 } else { 0 }));
        go(v, pat, i + 1, dev, f)?;
        v.pop();
        if dev == 0 || i == 0 {
            return Ok(());
        }
        let mut devs: Vec<Vec<Op>> = (0..i).map(|k| vec![Op::Load(k)]).collect();
        devs.extend((0..i).map(|k| vec![Op::Restart, Op::Load(k)]));
        devs.push(vec![Op::New]);
        devs.push(vec![Op::Restart, Op::New]);
        devs.push(vec![Op::Swap]);
        devs.extend(bases(v).into_iter().map(|b| vec![b]));
        for d in devs {
            let n = v.len();
            v.extend(d);
            v.push(Op::Save(pat[i], 0));
            go(v, pat, i + 1, dev - 1, f)?;
            v.truncate(n);
        }
        Ok(())
    }
    go(&mut vec![], pat, 0, dev, f)
}
