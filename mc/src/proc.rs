//! Small programs over a history directory and a document directory, each run in a process of its own.
use crate::fsi;
use crate::hist::*;
use crate::infra::*;
use crate::snap::*;
use dochy_core::structs::RootObject;
use dochy_fs::common::{hash_dir_path, remove_hash_dir, CurrentSrc};
use dochy_fs::filesys::*;
use dochy_fs::history::*;
use std::io::Read;
use std::os::unix::io::FromRawFd;
use std::path::{Path, PathBuf};

/// How a process ended.
#[derive(Debug, Clone, PartialEq)]
pub enum End {
    Done(Result<String, String>),
    Stopped,
    Died(String),
    Hung,
}

impl End {
    /// the text of a process that was to end well
    pub fn text(self, what: &str) -> Result<String, String> {
        match self {
            End::Done(Ok(t)) => Ok(t),
            End::Done(Err(m)) => Err(format!("{}: {}", what, m)),
            o => Err(format!("{}: {:?}", what, o)),
        }
    }
}

/// Runs `f` in a forked process. The calling process must not have used any thread pool.
pub fn forked(limit_ms: i32, f: impl FnOnce() -> Result<String, String>) -> End {
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let r = guard(f);
            let t = match r {
                Ok(Ok(t)) => format!("+{}", t),
                Ok(Err(m)) => format!("-{}", m),
                Err(p) => format!("!{}", p),
            };
            fsi::disarm();
            let b = t.as_bytes();
            let mut at = 0;
            while at < b.len() {
                let n = libc::write(fds[1], b[at..].as_ptr() as *const libc::c_void, b.len() - at);
                if n <= 0 {
                    break;
                }
                at += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut out = std::fs::File::from_raw_fd(fds[0]);
        let mut all = vec![];
        let mut buf = [0u8; 65536];
        let t0 = std::time::Instant::now();
        let mut hung = false;
        loop {
            let left = limit_ms - t0.elapsed().as_millis() as i32;
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let n = libc::poll(&mut p, 1, left.max(0));
            if n == 0 {
                hung = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
            if n < 0 {
                continue;
            }
            match out.read(&mut buf) {
                Ok(0) => break,
                Ok(k) => all.extend_from_slice(&buf[..k]),
                Err(_) => continue,
            }
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if hung {
            return End::Hung;
        }
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == fsi::STOPPED {
            return End::Stopped;
        }
        if libc::WIFSIGNALED(st) {
            return End::Died(format!("killed by signal {}", libc::WTERMSIG(st)));
        }
        let t = String::from_utf8_lossy(&all).to_string();
        if t.is_empty() {
            return End::Died(format!("ended with code {}", libc::WEXITSTATUS(st)));
        }
        match &t[..1] {
            "+" => End::Done(Ok(t[1..].to_string())),
            "-" => End::Done(Err(t[1..].to_string())),
            _ => End::Died(t[1..].to_string()),
        }
    }
}

pub const SRC2: &str = r#"{ i : 0, big : "", sn : "text", yn : ["Binary", 1], jn : ["IntArray", 1], added : 5,
  t1 : ["Table", [{ v : 0 }], { ID : "a", v : 1 }, { ID : "b", v : 2 }],
  l : ["MList", [{ i : 0, sn : "", k : ["MilDef", [{ i : 0 }]], Ref : { t1 : "a" } }], { i : 1, k : ["Mil", { i : 1 }] }, { i : 2 }] }"#;

/// A directory with two sources, a history and documents.
pub fn world(cx: &mut Ctx) -> PathBuf {
    let w = cx.fresh();
    for (n, t) in [("src", SRC), ("src2", SRC2)] {
        std::fs::create_dir_all(w.join(n)).unwrap();
        std::fs::write(w.join(n).join("root.json5"), t).unwrap();
    }
    std::fs::create_dir_all(w.join("hist")).unwrap();
    std::fs::create_dir_all(w.join("files")).unwrap();
    w
}

/// One operation. Files are named a, b, c.
#[derive(Debug, Clone, PartialEq, Hash)]
pub enum St {
    Save(u8),
    Load(usize),
    New,
    File(char, u8),
    /// the same without the permission to overwrite
    Fresh(char, u8),
    LoadFile(char),
    List,
    Keep(usize),
    KeepOne(usize),
    RemoveFile(char),
    RemoveDir,
    /// the process ends and the next one comes with the newer source
    Newer,
}

pub fn steps(s: &str) -> Vec<St> {
    s.split('.')
        .filter(|x| !x.is_empty())
        .map(|x| {
            let c: Vec<char> = x.chars().collect();
            let n = |i: usize| c[i].to_digit(10).unwrap() as usize;
            match c[0] {
                'S' => St::Save(n(1) as u8),
                'L' => St::Load(n(1)),
                'N' => St::New,
                'F' => St::File(c[1], n(2) as u8),
                'V' => St::Fresh(c[1], n(2) as u8),
                'G' => St::LoadFile(c[1]),
                'I' => St::List,
                'K' => St::Keep(n(1)),
                'O' => St::KeepOne(n(1)),
                'D' => St::RemoveFile(c[1]),
                'X' => St::RemoveDir,
                'Z' => St::Newer,
                _ => panic!("step {}", x),
            }
        })
        .collect()
}

pub fn e<T, E: std::fmt::Display>(r: Result<T, E>, what: &str) -> Result<T, String> {
    r.map_err(|x| format!("{}: {}", what, x))
}

/// name and content of what is stored: (name, hash of the document or the error)
pub type Stored = Vec<(String, Result<u64, String>)>;

pub struct Proc {
    pub w: PathBuf,
    pub opt: Opt,
    pub info: HistoryInfo,
    pub files: SaveDirInfo,
    pub doc: RootObject,
    pub fdoc: RootObject,
    pub n: usize,
    /// history entries of the program so far, by name
    pub names: Vec<String>,
}

pub fn doc_hash(r: &RootObject) -> u64 {
    hash_of(&format!("{:?}", snap(r).values_only()))
}

impl Proc {
    pub fn start(w: &Path, opt: Opt, src: &str, names: &[String], n: usize) -> Result<Proc, String> {
        let s = CurrentSrc::SrcDir(w.join(src));
        let info = e(HistoryInfo::create(w.join("hist"), s.clone(), opt.build()), "opening the history")?;
        let files = e(SaveDirInfo::create(w.join("files"), s), "opening the directory")?;
        let (doc, fdoc) = (info.clone_src_root(), files.clone_src_root());
        Ok(Proc { w: w.to_path_buf(), opt, info, files, doc, fdoc, n, names: names.to_vec() })
    }
    fn load_name(&self, name: &str) -> Result<RootObject, String> {
        let hs = e(list_histories(&self.info), "list")?;
        let all = hs.list_files();
        let d = all.iter().find(|d| hname(d.hash(), &d.props().calc_filename()) == name).ok_or_else(|| format!("entry {} is not listed", name))?;
        e(load_history_file_data(&self.info, d, true), &format!("load of {}", name))
    }
    fn file_path(&self, c: char) -> PathBuf {
        hash_dir_path(self.w.join("files"), self.files.hash()).join(c.to_string())
    }
    /// Gives the name and content stored or found, if the operation has one.
    pub fn step(&mut self, s: &St) -> Result<Option<(String, u64)>, String> {
        match s {
            St::Save(k) => {
                edit(&mut self.doc, *k, self.n);
                self.n += 1;
                self.save().map(Some)
            }
            St::Load(k) => {
                let name = self.names[*k].clone();
                let r = self.load_name(&name)?;
                let h = doc_hash(&r);
                self.doc = r;
                Ok(Some((name, h)))
            }
            St::New => {
                self.doc = self.info.clone_src_root();
                Ok(None)
            }
            St::File(c, k) => {
                edit(&mut self.fdoc, *k, self.n);
                self.n += 1;
                self.save_file(*c).map(Some)
            }
            St::Fresh(c, k) => {
                edit(&mut self.fdoc, *k, self.n);
                self.n += 1;
                e(save_dochy_file(&self.files, &c.to_string(), &self.fdoc, false), "save")?;
                Ok(Some((fname(self.files.hash(), &c.to_string()), doc_hash(&self.fdoc))))
            }
            St::LoadFile(c) => {
                let r = e(load_dochy_file(self.file_path(*c), &self.files, true), "load")?;
                let h = doc_hash(&r);
                self.fdoc = r;
                Ok(Some((fname(self.files.hash(), &c.to_string()), h)))
            }
            St::List => {
                let l = self.list()?;
                Ok(Some((l.join("|"), 0)))
            }
            St::Keep(k) => {
                let hs = e(list_histories(&self.info), "list")?;
                e(hs.remove_old_files(*k, self.w.join("hist")), "remove_old_files")?;
                Ok(None)
            }
            St::KeepOne(k) => {
                let hs = e(list_histories(&self.info), "list")?;
                let all = hs.list_files();
                let d = all.iter().find(|d| hname(d.hash(), &d.props().calc_filename()) == self.names[*k]).ok_or("not listed")?;
                let r = HistoryRemover::from(d.history());
                r.keep(d.props()).ok_or("keep finds nothing")?;
                let failed = r.remove(hash_dir_path(self.w.join("hist"), d.hash()));
                if !failed.is_empty() {
                    return Err(format!("could not remove {:?}", failed));
                }
                Ok(None)
            }
            St::RemoveFile(c) => {
                e(remove_dochy_file(self.w.join("files"), self.files.hash(), &c.to_string()), "remove")?;
                Ok(None)
            }
            St::Newer => Err("machinery: only between processes".into()),
            St::RemoveDir => {
                e(remove_hash_dir(self.w.join("files"), self.files.hash()), "remove")?;
                Ok(None)
            }
        }
    }
    /// saves the history document as it is
    pub fn save(&mut self) -> Result<(String, u64), String> {
        let p = e(save_history_file(&self.info, None, &self.doc), "save")?;
        let name = hname(self.info.hash(), &p.calc_filename());
        self.names.push(name.clone());
        Ok((name, doc_hash(&self.doc)))
    }
    pub fn save_file(&mut self, c: char) -> Result<(String, u64), String> {
        let p = e(save_dochy_file(&self.files, &c.to_string(), &self.fdoc, true), "save")?;
        if p != self.file_path(c) {
            return Err(format!("saved as {:?}", p));
        }
        Ok((fname(self.files.hash(), &c.to_string()), doc_hash(&self.fdoc)))
    }
    pub fn list(&self) -> Result<Vec<String>, String> {
        let hs = e(list_histories(&self.info), "list of the history")?;
        let mut v: Vec<String> = hs.list_files().iter().map(|d| hname(d.hash(), &d.props().calc_filename())).collect();
        let newest = hs.get_newest_file_data().map(|d| hname(d.hash(), &d.props().calc_filename()));
        if newest.as_ref() != v.last() {
            return Err(format!("{:?} is the last entry and {:?} the newest one", v.last(), newest));
        }
        let mut f: Vec<String> = vec![];
        for d in e(list_dochy_files(self.w.join("files")), "list of the files")? {
            f.push(fname(d.hash(), d.name()));
        }
        f.sort();
        v.extend(f);
        Ok(v)
    }
    /// Everything listed, loaded. The document the store knows is lost by this.
    pub fn all(&self) -> Result<Stored, String> {
        let mut v = vec![];
        {
            let hs = e(list_histories(&self.info), "list of the history")?;
            for d in hs.list_files() {
                let r = load_history_file_data(&self.info, &d, true).map(|r| doc_hash(&r)).map_err(|x| x.to_string());
                v.push((hname(d.hash(), &d.props().calc_filename()), r));
            }
        }
        let mut f = vec![];
        for d in e(list_dochy_files(self.w.join("files")), "list of the files")? {
            let r = load_dochy_file(d.calc_path(self.w.join("files")), &self.files, true).map(|r| doc_hash(&r)).map_err(|x| x.to_string());
            f.push((fname(d.hash(), d.name()), r));
        }
        f.sort();
        v.extend(f);
        Ok(v)
    }
}

pub fn hname(h: u128, n: &str) -> String {
    format!("h:{:032x}/{}", h, n)
}
pub fn fname(h: u128, n: &str) -> String {
    format!("f:{:032x}/{}", h, n)
}

pub fn put(v: &Stored) -> String {
    v.iter().map(|(n, r)| format!("{}\t{}", n, match r { Ok(h) => format!("{:x}", h), Err(m) => format!("!{}", m.replace('\n', " ").replace('\t', " ")) })).collect::<Vec<_>>().join("\n")
}
pub fn get(s: &str) -> Stored {
    s.lines()
        .filter(|l| !l.is_empty())
        .map(|l| {
            let (n, r) = l.split_once('\t').unwrap();
            (n.to_string(), if let Some(m) = r.strip_prefix('!') { Err(m.to_string()) } else { Ok(u64::from_str_radix(r, 16).unwrap()) })
        })
        .collect()
}
