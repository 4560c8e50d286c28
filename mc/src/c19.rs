//! C19 (background saves) and C20 (parallel loading): every schedule with a bounded number of deviations.
use crate::fsi::{self, Spin};
use crate::hist::*;
use crate::infra::*;
use crate::proc::*;
use crate::sched::{self, explore, Policy, POLICIES};
use dochy_core::structs::RootObject;
use dochy_core::{archive_file_to_root_with_hash, archive_src_dir, json_dir_to_root_with_hash};
use dochy_fs::common::{hash_dir_path, CurrentSrc};
use dochy_fs::filesys::*;
use dochy_fs::history::*;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};

const RULE: &str = "a schedule is one process of the real code in which one thread runs at a time and the next one is chosen at every file-system call under the store, futex call, thread start and end, and atomic operation of dochy's crates other than reference counting. Every schedule with at most the stated number of deviations from each of three base policies (run until blocked; run what was just started or woken; take turns) is executed, for every program of the set. A state is a distinct (program, outcome); transitions are scheduling decisions.";

pub fn check() -> Check {
    Check {
        id: "C19",
        level: "model_checking",
        rule: RULE,
        assumptions: &[
            "sequentially consistent memory; threads do not switch between two points",
            "two rayon workers; waiters of one futex are woken in the order of their numbers",
        ],
        cases,
        run,
        hang_s: 120,
        max_workers: 64,
    }
}

pub fn check20() -> Check {
    Check { id: "C20", cases: cases20, run: run20, ..check() }
}

fn policy(s: &str) -> Policy {
    POLICIES[s.parse::<usize>().unwrap()]
}

// ------------------------------------------------------------------ C19

/// Operations of a caller, by '.'; callers by '|'.
/// n background save, v background save if idle, s save, l load of the caller's k-th entry, e edit, w wait for the own
/// background saves, f background file save (overwriting), g the same without overwriting, h file save
/// A program beginning with '+' finds the version directory made.
const PROGRAMS: [(&str, usize); 30] = [
    ("n0", 1),
    ("n0.n1", 1),
    ("+n0.n1", 1),
    ("+n0.e2.n1", 1),
    ("+n0.e1", 2),
    ("+n2.n0.n4.n1", 1),
    ("n0.s1", 1),
    ("+n0.s1", 2),
    ("s0.n1.e0.s2", 1),
    ("n0.v1", 1),
    ("+n0.v1", 2),
    ("+n0.w.v1", 1),
    ("+n0.n1.v2.w.v0", 1),
    ("+v0.v1.w.v2", 1),
    ("s1.n0.v0.e1.v2", 1),
    ("+n0.w.n1.l0.n2", 1),
    ("+n2.w.l0.n1.s0", 1),
    ("fa0", 1),
    ("fa0.fa1", 1),
    ("+fa0.fa1", 2),
    ("+fa2.e1.fb0", 1),
    ("+fa0.w.ga1.fb2", 1),
    ("+ga0.ga1", 1),
    ("+fa0.ha1", 1),
    ("n0.fa1.n2", 1),
    ("+n0|n1", 1),
    ("s0|s1", 1),
    ("+n0|s1", 1),
    ("ga0|ga1", 1),
    ("+n0.w.l0|s1", 1),
];

/// More saves waiting than a digit or a byte counts.
fn queues() -> Vec<String> {
    let rep = |s: &str, n: usize| vec![s; n].join(".");
    vec![
        format!("+{}.w.v1", rep("n0.v2", 13)),
        format!("+{}.v1.w.v1", rep("n0", 20)),
        format!("+{}.v1.w.v1", rep("n0", 256)),
        format!("+{}.w.ga0", rep("fa0.fb2", 10)),
        format!("+{}.w.v1", rep("n0.fa2.v0.fb0", 5)),
        format!("+{}.w.v1", rep("n0.s2.v0", 6)),
    ]
}

fn opts19() -> Vec<Opt> {
    vec![
        Opt { max_phase: 3, update0: true, cum: Some((Some(1), Some(10))), mt_save: false, mt_load: true },
        Opt { max_phase: 1, update0: true, cum: None, mt_save: true, mt_load: false },
    ]
}

fn cases(t: Tier) -> Vec<String> {
    let mut v = vec![];
    for (p, b) in PROGRAMS.iter() {
        for o in 0..opts19().len() {
            if o == 1 && !t.thorough() && *b == 2 {
                continue;
            }
            for k in 0..(if o == 0 { 3 } else { t.pick(2, 3) }) {
                let b = t.pick(if o == 0 && k == 0 { *b } else { 1 }, 2);
                let parts = if b > 1 { t.pick(8, 24) } else { t.pick(1, 2) };
                for i in 0..parts {
                    v.push(format!("{} {} {} {} {} {}", p, o, k, b, i, parts));
                }
            }
        }
    }
    for p in queues() {
        for o in 0..opts19().len() {
            for k in 0..3 {
                let b = if p.len() > 200 { 0 } else { t.pick(0, 1) };
                for i in 0..1 + 7 * b {
                    v.push(format!("{} {} {} {} {} {}", p, o, k, b, i, 1 + 7 * b));
                }
            }
        }
    }
    v
}

#[derive(Debug, Clone, Default)]
struct Rec {
    caller: usize,
    op: String,
    /// a background save
    back: bool,
    /// a save of the history; else of the file named
    file: Option<String>,
    asked: u64,
    returned: u64,
    called: u64,
    calls: u32,
    doc: u64,
    result: Option<Result<String, String>>,
}

static CLOCK: AtomicU64 = AtomicU64::new(1);
static RECS: Spin<Vec<Rec>> = Spin::new(vec![]);

fn now() -> u64 {
    CLOCK.fetch_add(1, SeqCst)
}

struct Done(Mutex<()>, Condvar);

impl Done {
    fn wait(&self, caller: Option<usize>) {
        let mut g = self.0.lock().unwrap();
        while RECS.with(|r| r.iter().any(|x| x.back && x.calls == 0 && caller.map_or(true, |c| c == x.caller))) {
            g = self.1.wait(g).unwrap();
        }
    }
    fn call(&self, i: usize, r: Result<String, String>) {
        {
            let _g = self.0.lock().unwrap();
            RECS.with(|l| {
                let t = now();
                let x = &mut l[i];
                x.calls += 1;
                x.called = t;
                x.result = Some(r);
            });
        }
        self.1.notify_all();
    }
}

fn his_files(w: &Path) -> usize {
    let mut n = 0;
    if let Ok(d) = std::fs::read_dir(w.join("hist")) {
        for x in d.filter_map(|x| x.ok()) {
            if let Ok(d) = std::fs::read_dir(x.path()) {
                n += d.filter_map(|x| x.ok()).filter(|x| x.file_name().to_string_lossy().ends_with(".his")).count();
            }
        }
    }
    n
}

fn caller(w: &Path, who: usize, alone: bool, ops: &str, info: HistoryInfo, files: SaveDirInfo, done: Arc<Done>) -> Result<(), String> {
    let mut doc: RootObject = info.clone_src_root();
    let mut n = who * 40;
    let hash = info.hash();
    for op in ops.split('.') {
        let c: Vec<char> = op.chars().collect();
        let k = c.last().unwrap().to_digit(10).unwrap_or(0) as u8;
        n += 1;
        let add = |doc: &RootObject, back: bool, file: Option<String>| -> usize {
            let d = doc_hash(doc);
            RECS.with(|r| {
                r.push(Rec { caller: who, op: op.to_string(), back, file, asked: now(), doc: d, ..Rec::default() });
                r.len() - 1
            })
        };
        match c[0] {
            'e' => edit(&mut doc, k, n),
            'w' => done.wait(Some(who)),
            'n' => {
                edit(&mut doc, k, n);
                let i = add(&doc, true, None);
                let d = done.clone();
                save_history_file_nb(&info, None, &doc, move |r| d.call(i, r.map(|p| p.calc_filename()).map_err(|e| e.to_string())));
                RECS.with(|r| r[i].returned = now());
            }
            'v' => {
                edit(&mut doc, k, n);
                let d = done.clone();
                sched::held(|| -> Result<(), String> {
                    let (asked, open) = RECS.with(|r| (r.iter().filter(|x| x.file.is_none()).count(), r.iter().filter(|x| x.back && x.calls == 0).count()));
                    let i = add(&doc, true, None);
                    let taken = save_history_file_nb_if_vacant(&info, None, &doc, move |r| d.call(i, r.map(|p| p.calc_filename()).map_err(|e| e.to_string())));
                    // counted afterwards, as the call may have waited for a lock while the others went on
                    let stored = his_files(w);
                    RECS.with(|r| r[i].returned = now());
                    if !taken {
                        let early = RECS.with(|r| r.remove(i).calls);
                        if early > 0 {
                            return Err(format!("{}: skipped, and called back", op));
                        }
                    }
                    if alone && open == 0 && !taken {
                        return Err(format!("{}: skipped although every earlier save has called back", op));
                    }
                    if alone && stored < asked && taken {
                        return Err(format!("{}: saved although an earlier save has not finished ({} of {} stored)", op, stored, asked));
                    }
                    Ok(())
                })?;
            }
            's' => {
                edit(&mut doc, k, n);
                let i = add(&doc, false, None);
                let r = save_history_file(&info, None, &doc).map(|p| p.calc_filename()).map_err(|e| e.to_string());
                RECS.with(|l| {
                    let t = now();
                    l[i].returned = t;
                    l[i].called = t;
                    l[i].result = Some(r);
                });
            }
            'l' => {
                let x = RECS.with(|r| r.iter().filter(|x| x.caller == who && x.file.is_none()).nth(k as usize).cloned()).ok_or("machinery: no entry")?;
                let name = x.result.clone().ok_or("machinery: not waited for")??;
                let fh = FileHistory::create(w.join("hist"), hash, info.options().max_phase(), info.options().is_cumulative()).map_err(|e| e.to_string())?;
                let l = fh.list_files();
                let p = l.iter().find(|p| p.calc_filename() == name).ok_or_else(|| format!("{} is not listed", name))?;
                let r = load_history_file(&info, p, &fh, true).map_err(|e| format!("load of {}: {}", name, e))?;
                if doc_hash(&r) != x.doc {
                    return Err(format!("{} loads as something else while saves are running", name));
                }
                doc = r;
            }
            'f' | 'g' => {
                edit(&mut doc, k, n);
                let f = c[1].to_string();
                let i = add(&doc, true, Some(f.clone()));
                let d = done.clone();
                save_dochy_file_nb(&files, &f, &doc, c[0] == 'f', move |r| d.call(i, r.map(|p| p.to_string_lossy().to_string()).map_err(|e| e.to_string())));
                RECS.with(|r| r[i].returned = now());
            }
            'h' => {
                edit(&mut doc, k, n);
                let f = c[1].to_string();
                let i = add(&doc, false, Some(f.clone()));
                let r = save_dochy_file(&files, &f, &doc, true).map(|p| p.to_string_lossy().to_string()).map_err(|e| e.to_string());
                RECS.with(|l| {
                    let t = now();
                    l[i].returned = t;
                    l[i].called = t;
                    l[i].result = Some(r);
                });
            }
            _ => return Err("machinery: operation".into()),
        }
    }
    Ok(())
}

fn in_thread(f: impl FnOnce() -> Result<(), String> + Send + 'static) -> std::thread::JoinHandle<Result<(), String>> {
    std::thread::spawn(move || guard(f).and_then(|r| r))
}

fn joined(h: Vec<std::thread::JoinHandle<Result<(), String>>>) -> Result<(), String> {
    let mut r = Ok(());
    for x in h {
        let y = x.join().map_err(|_| "a caller panicked".to_string()).and_then(|x| x);
        if r.is_ok() {
            r = y;
        }
    }
    r
}

/// One execution of a program; gives the names of the saves in the order they were asked for.
fn execute(w: &Path, opt: Opt, prog: &str, branch: bool) -> Result<String, String> {
    fsi::arm(w, fsi::Plan::Count);
    let src = CurrentSrc::SrcDir(w.join("src"));
    let info = e(HistoryInfo::create(w.join("hist"), src.clone(), opt.build()), "opening the history")?;
    let files = e(SaveDirInfo::create(w.join("files"), src.clone()), "opening the directory")?;
    let done = Arc::new(Done(Mutex::new(()), Condvar::new()));
    let callers: Vec<&str> = prog.split('|').collect();
    sched::branch(branch);
    let mut hs = vec![];
    for (i, ops) in callers.iter().enumerate().skip(1) {
        let (w, ops, info, files, done) = (w.to_path_buf(), ops.to_string(), info.clone(), files.clone(), done.clone());
        hs.push(in_thread(move || caller(&w, i, false, &ops, info, files, done)));
    }
    let first = guard(|| caller(w, 0, callers.len() == 1, callers[0], info.clone(), files.clone(), done.clone())).and_then(|r| r);
    let rest = joined(hs);
    done.wait(None);
    sched::branch(false);
    first?;
    rest?;
    judge(w, opt, info.hash())
}

fn judge(w: &Path, opt: Opt, hash: u128) -> Result<String, String> {
    let recs = RECS.with(|r| r.clone());
    // a new process, as far as the store can tell
    let src = CurrentSrc::SrcDir(w.join("src"));
    let info = e(unsafe { init_dochy_cache_us(&w.join("hist"), src.clone(), &opt.build()) }, "reopening")?;
    let files = e(unsafe { force_update_and_get_info_us(w.join("files"), src) }, "reopening")?;
    for r in &recs {
        if r.back && r.calls != 1 {
            return Err(format!("{} called back {} times", r.op, r.calls));
        }
    }
    // history
    let saves: Vec<&Rec> = recs.iter().filter(|r| r.file.is_none()).collect();
    let mut order: Vec<String> = vec![];
    if !saves.is_empty() {
        let hs = e(list_histories(&info), "list")?;
        let l = hs.list_files();
        for d in &l {
            let n = d.props().calc_filename();
            let r = e(load_history_file_data(&info, d, true), &format!("load of {}", n))?;
            let of: Vec<&&Rec> = saves.iter().filter(|s| s.result == Some(Ok(n.clone()))).collect();
            if of.len() != 1 {
                return Err(format!("{} is the result of {} saves", n, of.len()));
            }
            if of[0].doc != doc_hash(&r) {
                return Err(format!("{} ({}) does not hold the document as it was when the save was asked for", n, of[0].op));
            }
            order.push(n);
        }
        let at = |s: &Rec| -> Result<usize, String> {
            match &s.result {
                Some(Ok(n)) => order.iter().position(|x| x == n).ok_or_else(|| format!("{} gave {}, which is not listed", s.op, n)),
                r => Err(format!("{} gave {:?}", s.op, r)),
            }
        };
        for a in &saves {
            for b in &saves {
                let first = a.called < b.asked || (a.back && b.back && a.returned < b.asked);
                if first && at(a)? >= at(b)? {
                    return Err(format!("{} was asked for before {} and is stored after it: {:?}", a.op, b.op, order));
                }
            }
            at(a)?;
        }
    }
    // files: a save that ran after another wins; one that must not overwrite fails exactly if the file was there
    let names: std::collections::BTreeSet<String> = recs.iter().filter_map(|r| r.file.clone()).collect();
    for n in names {
        let of: Vec<&Rec> = recs.iter().filter(|r| r.file.as_ref() == Some(&n)).collect();
        let p = hash_dir_path(w.join("files"), hash).join(&n);
        let got = doc_hash(&e(load_dochy_file(&p, &files, true), &format!("load of {}", n))?);
        for r in &of {
            match &r.result {
                Some(Ok(x)) if Path::new(x) == p => {}
                Some(Err(_)) if r.op.starts_with('g') => {}
                x => return Err(format!("{} gave {:?}", r.op, x)),
            }
        }
        let ok: Vec<&&Rec> = of.iter().filter(|r| matches!(r.result, Some(Ok(_)))).collect();
        if !ok.iter().any(|r| r.doc == got && !ok.iter().any(|s| s.asked > r.called && s.called > r.called)) {
            return Err(format!("file {} holds no state that was saved last", n));
        }
        let plain = of.iter().filter(|r| r.op.starts_with('g')).count();
        let plain_ok = ok.iter().filter(|r| r.op.starts_with('g')).count();
        if plain == of.len() && plain_ok != 1 {
            return Err(format!("{} of {} saves of {} that must not overwrite succeeded", plain_ok, plain, n));
        }
        if of.iter().any(|g| g.op.starts_with('g') && matches!(g.result, Some(Ok(_))) && ok.iter().any(|f| f.called < g.asked)) {
            return Err(format!("file {} was overwritten by a save that must not", n));
        }
    }
    Ok(saves.iter().map(|s| s.result.clone().unwrap().unwrap()).collect::<Vec<_>>().join(" "))
}

/// The same program with every background save in the foreground, if the order of its saves is given.
fn in_foreground(prog: &str) -> Option<String> {
    if prog.contains('|') || prog.contains('v') {
        return None;
    }
    let mut open = false;
    let mut v = vec![];
    for op in prog.split('.') {
        match &op[..1] {
            "n" => open = true,
            "w" => open = false,
            "s" | "l" if open => return None,
            "f" | "g" | "h" => continue,
            _ => {}
        }
        v.push(op.replace('n', "s"));
    }
    Some(v.join("."))
}

fn ended(x: End, what: &str) -> Result<String, String> {
    match x {
        End::Done(Ok(t)) => Ok(t),
        End::Done(Err(m)) => Err(m),
        End::Died(m) if m.ends_with("code 98") => Err(format!("{}: every thread waits for another one", what)),
        End::Died(m) if m.ends_with("code 96") => Err(format!("{}: does not come to an end", what)),
        x => Err(format!("{}: {:?}", what, x)),
    }
}

/// The directories empty, or as the first save and its removal leave them.
fn clean(w: &Path, made: bool) {
    for d in ["hist", "files"] {
        let _ = std::fs::remove_dir_all(w.join(d));
        if made {
            copy(&w.join("keep").join(d), &w.join(d));
        } else {
            std::fs::create_dir_all(w.join(d)).unwrap();
        }
    }
}

fn version_dirs(w: &Path, opt: Opt) -> Result<(), String> {
    ended(
        forked(60_000, || {
            let mut p = Proc::start(w, opt, "src", &[], 0)?;
            p.step(&St::Save(0))?;
            p.step(&St::File('z', 0))?;
            Ok(String::new())
        }),
        "making the version directories",
    )?;
    for d in ["hist", "files"] {
        let v = std::fs::read_dir(w.join(d)).unwrap().filter_map(|x| x.ok()).find(|x| x.path().is_dir()).ok_or("no version directory")?;
        for f in std::fs::read_dir(v.path()).unwrap().filter_map(|x| x.ok()) {
            let n = f.file_name().to_string_lossy().to_string();
            if n.ends_with(".his") || n == "z" {
                std::fs::remove_file(f.path()).unwrap();
            }
        }
        copy(&w.join(d), &w.join("keep").join(d));
    }
    Ok(())
}

fn run(case: &str, cx: &mut Ctx) -> Result<(), String> {
    let p: Vec<&str> = case.split(' ').collect();
    let num = |i: usize| -> usize { p[i].parse().unwrap() };
    let opt = opts19()[num(1)];
    let made = p[0].starts_with('+');
    let prog = p[0].trim_start_matches('+');
    let w = world(cx);
    if made {
        version_dirs(&w, opt)?;
    }
    let mut names = None;
    if let Some(f) = in_foreground(prog) {
        clean(&w, made);
        if f.contains('s') {
            names = Some(ended(forked(60_000, || execute(&w, opt, &f, false)), "in the foreground").map_err(|m| format!("{} {:?}: {}", f, opt, m))?);
        }
    }
    let seen = {
        let w2 = w.clone();
        let w3 = w.clone();
        explore(
            cx,
            policy(p[2]),
            num(3),
            (num(4), num(5)),
            move |_| clean(&w2, made),
            move || execute(&w3, opt, prog, true),
            |cx, x| {
                let t = ended(x, "process")?;
                cx.state(&(prog, num(1), &t));
                if names.as_ref().map_or(false, |n| *n != t) {
                    return Err(format!("the entries are named {}, and {} when saved in the foreground", t, names.as_ref().unwrap()));
                }
                Ok(())
            },
        )
        .map_err(|m| format!("{} {:?} {}", prog, opt, m))?
    };
    note(cx, &seen);
    cx.drop_dir(&w);
    Ok(())
}

fn note(cx: &mut Ctx, s: &sched::Seen) {
    cx.outcome("programs x policies (x parts)");
    for _ in 0..s.diverged {
        cx.outcome("diverged");
    }
}

// ------------------------------------------------------------------ C20

/// (program that makes the store, what the callers do)
/// L<k> load of the k-th entry, G<c> load of file c, O reading of a source, P opening of the store, S<k> save after an edit, A reading of an archive, W writing of one
const PROGRAMS20: [(&str, &str); 21] = [
    ("", "O"),
    ("", "P"),
    ("", "P|P"),
    ("", "A"),
    ("", "W"),
    ("", "A|A"),
    ("S1.S0", "L0"),
    ("S1.S0.S0", "L1"),
    ("S1.S0.S0", "L2"),
    ("S1.S0.S2.S0", "L3"),
    ("S0.S4.S0.S0.S1", "L4"),
    ("S1.S0.S2.S0", "L1.L3"),
    ("S1.S0.S2", "S0"),
    ("S1.S0.S2.S0", "L1.S0.S1"),
    ("S1.S0.S2", "L2|L1"),
    ("S1.S0", "L1|L1"),
    ("S1.S0.S2", "L2|P"),
    ("S1.S0.S2", "L2|S0"),
    ("Fa0.Fb2", "Ga|Gb"),
    ("S1.S0.Fa0", "L1|Ga"),
    ("Fa1", "Ga|Fa0"),
];

const SRC3: [(&str, &str); 3] = [
    ("root.json5", SRC),
    ("t2.json5", r#"["Table", [{ a : 1, b : "x" }], { ID : "p", a : 2 }, { ID : "q" }]"#),
    ("m.json5", r#"["MList", [{ a : 1, b : "x" }], { a : 5 }]"#),
];

fn opts20() -> Vec<Opt> {
    vec![
        Opt { max_phase: 3, update0: true, cum: Some((Some(1), Some(10))), mt_save: true, mt_load: true },
        Opt { max_phase: 2, update0: true, cum: None, mt_save: true, mt_load: true },
        Opt { max_phase: 2, update0: false, cum: Some((None, None)), mt_save: true, mt_load: true },
    ]
}

/// damages: none, file k of the history taken away, cut in the middle, cut to nothing
fn cases20(t: Tier) -> Vec<String> {
    let mut v = vec![];
    for (n, (make, what)) in PROGRAMS20.iter().enumerate() {
        let store = make.matches('S').count();
        let mut damage = vec!["-".to_string()];
        if !what.contains('|') && what.contains('L') {
            for f in 0..store {
                for d in if t.thorough() { vec!["r", "c", "z"] } else { vec![["c", "r", "z", "c"][(n + f) % 4]] } {
                    damage.push(format!("{}{}", d, f));
                }
            }
        }
        if *what == "A" {
            damage.push("c0".into());
        }
        for o in 0..(if store > 0 { t.pick(2, 3) } else { 1 }) {
            for d in &damage {
                for k in 0..(if o == 0 && *d == "-" { 3 } else { t.pick(2, 3) }) {
                    let b = if t.thorough() { 2 } else { 1 };
                    let parts = t.pick(1, 8);
                    for i in 0..parts {
                        v.push(format!("{} {} {} {} {} {} {}", n, o, d, k, b, i, parts));
                    }
                }
            }
        }
    }
    v
}

fn make_world(cx: &mut Ctx) -> PathBuf {
    let w = world(cx);
    std::fs::create_dir_all(w.join("src3")).unwrap();
    for (n, t) in SRC3.iter() {
        std::fs::write(w.join("src3").join(n), t).unwrap();
    }
    w
}

fn root_text(r: Result<(RootObject, u128), String>) -> String {
    match r {
        Ok((r, h)) => format!("{:x}/{:x}", doc_hash(&r), h),
        Err(_) => "error".into(),
    }
}

/// What one caller gets, in order.
fn reader(w: &Path, opt: Opt, ops: &str, names: &[String], who: usize) -> Result<String, String> {
    let mut out = vec![];
    let mut p: Option<Proc> = None;
    for (n, op) in ops.split('.').enumerate() {
        let k = op[1..].parse::<usize>().unwrap_or(0);
        let c = op.chars().nth(1);
        match &op[..1] {
            "A" => {
                out.push(root_text(archive_file_to_root_with_hash(&w.join("arc"), true).map_err(|e| e.to_string())));
                continue;
            }
            "W" => {
                let mut b: Vec<u8> = vec![];
                match archive_src_dir(w.join("src3"), &mut b) {
                    Ok(_) => out.push(format!("{} {:x}", b.len(), hash_of(&b))),
                    Err(_) => out.push("error".into()),
                }
                continue;
            }
            "O" => {
                out.push(root_text(json_dir_to_root_with_hash(&w.join("src3"), true).map_err(|e| e.to_string())));
                continue;
            }
            _ => {}
        }
        if p.is_none() {
            p = Some(Proc::start(w, opt, "src", names, 20 + 20 * who).map_err(|m| format!("open: {}", m))?);
        }
        let p = p.as_mut().unwrap();
        let r = match &op[..1] {
            "P" => Ok(Some(("open".into(), doc_hash(&p.doc)))),
            "L" => p.step(&St::Load(k)),
            "S" => p.step(&St::Save(k as u8)),
            "G" => p.step(&St::LoadFile(c.unwrap())),
            "F" => p.step(&St::File(c.unwrap(), op[2..].parse().unwrap())),
            _ => return Err("machinery: operation".into()),
        };
        let _ = n;
        out.push(match r {
            Ok(Some((n, h))) => format!("{} {:x}", n, h),
            Ok(None) => "-".into(),
            Err(_) => "error".into(),
        });
    }
    Ok(out.join(";"))
}

static OUT: Spin<Vec<(usize, Result<String, String>)>> = Spin::new(vec![]);

fn execute20(w: &Path, opt: Opt, what: &str, names: &[String], branch: bool) -> Result<String, String> {
    fsi::arm(w, fsi::Plan::Count);
    sched::branch(branch);
    let mut hs = vec![];
    for (i, ops) in what.split('|').enumerate().skip(1) {
        let (w, ops, names) = (w.to_path_buf(), ops.to_string(), names.to_vec());
        hs.push(in_thread(move || {
            let r = guard(|| reader(&w, opt, &ops, &names, i)).and_then(|x| x);
            OUT.with(|o| o.push((i, r)));
            Ok(())
        }));
    }
    let first = guard(|| reader(w, opt, what.split('|').next().unwrap(), names, 0)).and_then(|x| x);
    OUT.with(|o| o.push((0, first)));
    joined(hs)?;
    sched::branch(false);
    let mut all = OUT.with(|o| o.clone());
    all.sort_by_key(|x| x.0);
    let mut t = vec![];
    for (_, r) in all {
        t.push(r?);
    }
    Ok(t.join("|"))
}

/// the content of the store in a new process that does everything in one thread
fn content(w: &Path, opt: Opt) -> Result<String, String> {
    ended(
        forked(60_000, || {
            let p = Proc::start(w, opt, "src", &[], 0)?;
            Ok(put(&p.all()?))
        }),
        "reading the store",
    )
}

fn run20(case: &str, cx: &mut Ctx) -> Result<(), String> {
    let p: Vec<&str> = case.split(' ').collect();
    let num = |i: usize| -> usize { p[i].parse().unwrap() };
    let (make, what) = PROGRAMS20[num(0)];
    let opt = opts20()[num(1)];
    let serial = Opt { mt_save: false, mt_load: false, ..opt };
    let w = make_world(cx);
    // the store, made in one thread
    let made = ended(
        forked(60_000, || {
            let mut p = Proc::start(&w, serial, "src", &[], 0)?;
            for s in steps(make) {
                p.step(&s)?;
            }
            let mut b: Vec<u8> = vec![];
            archive_src_dir(w.join("src3"), &mut b).map_err(|e| e.to_string())?;
            std::fs::write(w.join("arc"), &b).map_err(|e| e.to_string())?;
            Ok(p.names.join(" "))
        }),
        "making the store",
    )?;
    let names: Vec<String> = made.split(' ').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
    if p[2] != "-" {
        let k: usize = p[2][1..].parse().unwrap();
        let f = if what == "A" {
            w.join("arc")
        } else {
            let (d, n) = names[k][2..].split_once('/').unwrap();
            w.join("hist").join(d).join(n)
        };
        let b = std::fs::read(&f).unwrap();
        match &p[2][..1] {
            "r" => std::fs::remove_file(&f).unwrap(),
            "c" => std::fs::write(&f, &b[..b.len() / 2]).unwrap(),
            _ => std::fs::write(&f, &b[..0]).unwrap(),
        }
    }
    let saves = what.contains('S') || what.contains('F');
    // what every caller gets on its own, in one thread
    let mut want = vec![];
    let keep = cx.fresh();
    copy(&w, &keep);
    for (i, ops) in what.split('|').enumerate() {
        want.push(ended(forked(60_000, || reader(&w, serial, ops, &names, i)), "serially").map_err(|m| format!("{} {}: {}", make, ops, m))?);
        if saves {
            restore(&keep, &w);
        }
    }
    let racing = what.contains('|') && saves;
    let mut after = None;
    if saves && !racing {
        ended(forked(60_000, || reader(&w, serial, what, &names, 0)), "serially")?;
        after = Some(content(&w, serial)?);
        restore(&keep, &w);
    }
    let seen = {
        let (w2, w3, k2, nm) = (w.clone(), w.clone(), keep.clone(), names.clone());
        explore(
            cx,
            policy(p[3]),
            num(4),
            (num(5), num(6)),
            move |_| {
                if saves {
                    restore(&k2, &w2)
                }
            },
            move || execute20(&w3, opt, what, &nm, true),
            |cx, x| {
                let t = ended(x, "process")?;
                cx.state(&(make, what, p[1], p[2], &t));
                let got: Vec<&str> = t.split('|').collect();
                for (i, ops) in what.split('|').enumerate() {
                    let same = if racing && (ops.contains('S') || ops.contains('F')) { !got[i].contains("error") } else { got[i] == want[i] };
                    let newer = what == "Ga|Fa0" && i == 0 && got[0].split(' ').last() == got[1].split(' ').last();
                    if !same && !newer {
                        return Err(format!("{} gives {}, and {} in one thread", ops, got[i], want[i]));
                    }
                }
                if let Some(a) = &after {
                    let c = content(&w, serial)?;
                    if *a != c {
                        return Err(format!("the store holds {}, and {} when saved in one thread", c, a));
                    }
                }
                if racing && what.contains('S') {
                    let c = get(&content(&w, serial)?);
                    let s = got.iter().find(|g| what.split('|').position(|o| o.contains('S')).map(|i| got[i]) == Some(**g)).unwrap();
                    let (n, h) = s.split_once(' ').unwrap();
                    if c.iter().find(|x| x.0 == n).map(|x| x.1.clone()) != Some(Ok(u64::from_str_radix(h, 16).unwrap())) {
                        return Err(format!("{} is not stored as saved", n));
                    }
                }
                Ok(())
            },
        )
        .map_err(|m| format!("{} / {} {} {:?} {}", make, what, p[2], opt, m))?
    };
    note(cx, &seen);
    cx.drop_dir(&w);
    cx.drop_dir(&keep);
    Ok(())
}

fn copy(a: &Path, b: &Path) {
    std::fs::create_dir_all(b).unwrap();
    for x in std::fs::read_dir(a).unwrap().filter_map(|x| x.ok()) {
        let t = b.join(x.file_name());
        if x.file_type().unwrap().is_dir() {
            copy(&x.path(), &t);
        } else {
            std::fs::copy(x.path(), &t).unwrap();
        }
    }
}

fn restore(from: &Path, w: &Path) {
    for d in ["hist", "files"] {
        let _ = std::fs::remove_dir_all(w.join(d));
        copy(&from.join(d), &w.join(d));
    }
}
