//! C17: a crash during a save loses nothing saved before.
//! C18: a failing file operation is reported and leaves the store usable.
//! Every run is a process of its own on the real store, its file-system calls taken over by `fsi`.
use crate::fsi::{self, Call, Plan};
use crate::hist::Opt;
use crate::infra::*;
use crate::proc::*;
use std::collections::{BTreeMap, HashMap};
use std::path::Path;

const LIMIT: i32 = 20_000;

pub fn check() -> Check {
    Check {
        id: "C17",
        level: "fault_enumeration",
        rule: "for every program of a set (first, second and later saves of both storage kinds, overwriting, after loads, and removals, for four option sets) the last operation is stopped at every file-system call it makes, before the call and for writes after each of a set of lengths (thorough: every length), in a process that ends there; then new processes reopen the store, load everything, save again, load everything again, and load everything under a newer source. Programs of two crashes one after the other: every pair of stop points. A state is a distinct directory content after a stop.",
        assumptions: &["the process stops, the machine does not: completed writes stay and stay in order", "one process uses the store at a time"],
        cases,
        run,
        hang_s: 300,
        max_workers: 16,
    }
}

pub fn check18() -> Check {
    Check {
        id: "C18",
        level: "fault_enumeration",
        rule: "for every program of a set, ending in each operation kind (opening, both saves, loads, listing, the removals), each file-system call of the last operation is made to fail with each error of its kind, to be interrupted, to be short, to be short and then fail, and every write to fail from there on. The operation has to report an error or to have done its work; then the same process loads everything, repeats the operation, saves and loads again, and a new process loads everything. A state is a distinct (program, call, fault).",
        assumptions: &["a file removal that fails leaves the file"],
        cases: cases18,
        run: run18,
        hang_s: 300,
        max_workers: 16,
    }
}

pub fn opts() -> Vec<Opt> {
    vec![
        Opt { max_phase: 3, update0: true, cum: Some((Some(1), Some(10))), mt_save: false, mt_load: true },
        Opt { max_phase: 0, update0: true, cum: None, mt_save: false, mt_load: false },
        Opt { max_phase: 2, update0: false, cum: Some((None, None)), mt_save: true, mt_load: true },
        Opt { max_phase: 1, update0: true, cum: None, mt_save: false, mt_load: false },
    ]
}

// ------------------------------------------------------------------ C17

const PROGRAMS: [&str; 30] = [
    "S0", "S1", "Fa0", "S0.S0", "S1.S0.S2", "S0.S4.S1.S0.S0", "S0.S0.S0.S0.S0.S0", "S0.L0.S2", "S0.S1.S2.L1.S0", "S1.N.S0", "Fa0.Fa1", "Fa1.Fa0", "Fa0.Fb2.Fa4", "S0.Fa0.S1",
    "S0.S0.S1.S0.K1", "S1.S0.S0.S0.K2", "S0.S0.K0", "S1.N.S0.N.S2.K1", "S1.S0.S0.L1.S0.S2.K2", "S0.S0.S1.S0.O1", "S1.N.S0.N.S2.O0", "Fa0.Fb1.Da", "Fa0.Fb1.X",
    "S0.S1.Z.S0", "S0.S1.Z.L1.S0", "S1.S0.Z.S0.S2", "S0.S1.Z.S0.K1", "S1.S0.Z.S0.S0.K1", "S0.S1.Z.S0.K0", "S0.Fa0.Z.Fa1",
];
const TWICE: [&str; 7] = ["S0", "Fa0", "S0.S1", "Fa0.Fa1", "S0.S0.S1.S0.K1", "S0.S0.K0", "Fa0.Fb1.X"];

/// what follows a crash: go on from the last entry if there is one, with a new document, with the files
fn go_on(p: &mut Proc, last: Option<usize>) -> Result<Stored, String> {
    let mut v = vec![];
    let mut add = |x: Option<(String, u64)>| {
        if let Some((n, h)) = x {
            v.push((n, Ok(h)));
        }
    };
    if let Some(k) = last {
        p.step(&St::Load(k))?;
        add(p.step(&St::Save(0))?);
        add(p.step(&St::Save(2))?);
    }
    p.step(&St::New)?;
    add(p.step(&St::Save(1))?);
    add(p.step(&St::File('a', 4))?);
    add(p.step(&St::File('c', 0))?);
    Ok(v)
}

const N2: usize = 100;

/// the steps before and after the change of the source, and the source of the latter
fn parts_of(st: &[St]) -> (&[St], &[St], &'static str) {
    match st.iter().position(|s| *s == St::Newer) {
        Some(i) => (&st[..i], &st[i + 1..], "src2"),
        None => (&[], st, "src"),
    }
}

/// content of a document under the source -> under the newer one, for the steps before the change
fn carried(cx: &mut Ctx, opt: Opt, st: &[St]) -> Result<HashMap<u64, u64>, String> {
    let (pre, _, _) = parts_of(st);
    let mut m = HashMap::new();
    if !pre.is_empty() {
        let w = world(cx);
        forked(LIMIT, || program(&w, opt, pre, Plan::Count, &[], 0).map(|_| String::new())).text("the steps before the change")?;
        let a = restarted(&w, opt, "src", "the steps before the change")?;
        let b = restarted(&w, opt, "src2", "the change of the source")?;
        for ((n, x), (k, y)) in a.into_iter().zip(b) {
            if n != k {
                return Err(format!("the change of the source: {} is listed as {}", n, k));
            }
            m.insert(x.map_err(|m| format!("{}: {}", n, m))?, y.map_err(|m| format!("{} under a newer source: {}", n, m))?);
        }
        cx.drop_dir(&w);
    }
    Ok(m)
}

/// Runs the steps; the last one under the plan. Gives what each step stored, and the calls of the last one.
fn program(w: &Path, opt: Opt, st: &[St], plan: Plan, from: &[String], n: usize) -> Result<(Stored, Vec<Call>), String> {
    let (pre, st, src) = parts_of(st);
    let mut v = vec![];
    let mut from = from.to_vec();
    if !pre.is_empty() {
        let t = forked(LIMIT, || Ok(put(&program(w, opt, pre, Plan::Count, &[], 0)?.0))).text("the steps before the change")?;
        v = get(&t);
        from.extend(v.iter().map(|x| x.0.clone()).filter(|x| x.starts_with("h:")));
    }
    let mut p = Proc::start(w, opt, src, &from, n + pre.len())?;
    let mut log = vec![];
    for (i, s) in st.iter().enumerate() {
        let last = i + 1 == st.len();
        if last {
            fsi::arm(w, plan);
        }
        let r = p.step(s);
        if last {
            log = fsi::disarm().0;
        }
        if let Some((n, h)) = r? {
            if matches!(s, St::Save(_) | St::File(..)) {
                v.push((n, Ok(h)));
            }
        }
    }
    Ok((v, log))
}

fn put_log(l: &[Call]) -> String {
    l.iter().map(|c| format!("{}{}", c.kind, c.len)).collect::<Vec<_>>().join(" ")
}
fn get_log(s: &str) -> Vec<Call> {
    s.split(' ').filter(|x| !x.is_empty()).map(|x| Call { kind: x.chars().next().unwrap(), len: x[1..].parse().unwrap() }).collect()
}

struct Dry {
    stored: Stored,
    log: Vec<Call>,
    /// content under the source and under the newer one
    newer: HashMap<u64, u64>,
}

fn restarted(w: &Path, opt: Opt, src: &'static str, what: &str) -> Result<Stored, String> {
    let t = forked(LIMIT, || Ok(put(&Proc::start(w, opt, src, &[], N2)?.all()?))).text(what)?;
    Ok(get(&t))
}

/// the entries a removal is to take away
fn leaving(st: &[St], stored: &Stored) -> Vec<String> {
    let of = |c: &str| -> Vec<String> { stored.iter().map(|x| x.0.clone()).filter(|x| x.starts_with(c)).collect() };
    let his = of("h:");
    match st.last() {
        Some(St::Keep(k)) => his[..his.len() - k].to_vec(),
        Some(St::KeepOne(k)) => his.iter().enumerate().filter(|x| x.0 != *k).map(|x| x.1.clone()).collect(),
        Some(St::RemoveFile(c)) => of("f:").into_iter().filter(|x| x.ends_with(&format!("/{}", c))).collect(),
        Some(St::RemoveDir) => of("f:"),
        _ => vec![],
    }
}

/// earlier: the entries saved before the last step which it does not take away
fn earlier(st: &[St], stored: &Stored) -> (BTreeMap<String, u64>, Vec<String>) {
    let mut m = BTreeMap::new();
    let mut names = vec![];
    let last = matches!(st.last(), Some(St::Save(_)) | Some(St::File(..)));
    let n = if last { stored.len() - 1 } else { stored.len() };
    let gone = leaving(st, stored);
    for (name, h) in &stored[..n] {
        if gone.contains(name) {
            continue;
        }
        m.insert(name.clone(), *h.as_ref().unwrap());
        if name.starts_with("h:") {
            names.push(name.clone());
        }
    }
    (m, names)
}

fn dry(cx: &mut Ctx, opt: Opt, st: &[St]) -> Result<Dry, String> {
    let w = world(cx);
    let t = forked(LIMIT, || {
        let (v, l) = program(&w, opt, st, Plan::Count, &[], 0)?;
        Ok(format!("{}\n\n{}", put_log(&l), put(&v)))
    })
    .text("undisturbed run")?;
    let (l, s) = t.split_once("\n\n").unwrap();
    let (log, mut stored) = (get_log(l), get(s));
    let conv = carried(cx, opt, st)?;
    for x in stored.iter_mut() {
        if let Some(h) = conv.get(x.1.as_ref().unwrap()) {
            x.1 = Ok(*h);
        }
    }
    let src = parts_of(st).2;
    let (old, names) = earlier(st, &stored);
    let t = forked(LIMIT, || {
        let mut p = Proc::start(&w, opt, src, &names, N2)?;
        Ok(put(&go_on(&mut p, names.len().checked_sub(1))?))
    })
    .text("undisturbed continuation")?;
    let mut all: BTreeMap<String, u64> = stored.iter().map(|(n, h)| (n.clone(), *h.as_ref().unwrap())).collect();
    for (n, h) in get(&t) {
        all.insert(n, h.unwrap());
    }
    for (n, h) in &old {
        all.entry(n.clone()).or_insert(*h);
    }
    let now = restarted(&w, opt, src, "undisturbed restart")?;
    let then = restarted(&w, opt, "src2", "undisturbed restart with a newer source")?;
    let mut newer = HashMap::new();
    for (n, h) in &now {
        if all.get(n) != h.as_ref().ok() {
            return Err(format!("undisturbed: {} loads as {:?}", n, h));
        }
        let t = then.iter().find(|x| x.0 == *n).ok_or("undisturbed: not listed under a newer source")?;
        newer.insert(*h.as_ref().unwrap(), *t.1.as_ref().map_err(|m| format!("undisturbed: {} under a newer source: {}", n, m))?);
    }
    cx.drop_dir(&w);
    Ok(Dry { stored, log, newer })
}

fn tears(c: &Call, thorough: bool) -> Vec<usize> {
    if c.kind != 'w' || c.len == 0 {
        return vec![0];
    }
    if thorough {
        return (0..c.len).collect();
    }
    let mut v = vec![0, 1, c.len / 2, c.len - 1];
    v.retain(|x| *x < c.len);
    v.sort();
    v.dedup();
    v
}

/// Everything that has to be there is there as saved; nothing unknown is listed. `open`: names with the contents they may have, or an error.
fn compare(got: &Stored, must: &BTreeMap<String, u64>, open: &[(String, Vec<u64>)], tr: &dyn Fn(u64) -> Option<u64>, what: &str) -> Result<(), String> {
    for (n, h) in must {
        match got.iter().find(|x| x.0 == *n) {
            None => return Err(format!("{}: {} is not listed", what, n)),
            Some((_, Err(m))) => return Err(format!("{}: {} does not load: {}", what, n, m)),
            Some((_, Ok(g))) => {
                if let Some(h) = tr(*h) {
                    if *g != h {
                        return Err(format!("{}: {} is not as saved", what, n));
                    }
                }
            }
        }
    }
    for (n, r) in got {
        if must.contains_key(n) {
            continue;
        }
        match open.iter().find(|x| x.0 == *n) {
            None => return Err(format!("{}: {} is listed and was never saved", what, n)),
            Some((_, may)) => {
                if let Ok(g) = r {
                    let l: Vec<Option<u64>> = may.iter().map(|x| tr(*x)).collect();
                    if !l.contains(&Some(*g)) && !l.contains(&None) {
                        return Err(format!("{}: the interrupted {} loads as something else", what, n));
                    }
                }
            }
        }
    }
    Ok(())
}

fn tree_hash(w: &Path) -> u64 {
    fn go(d: &Path, v: &mut Vec<(String, Vec<u8>)>) {
        if let Ok(rd) = std::fs::read_dir(d) {
            let mut l: Vec<_> = rd.filter_map(|x| x.ok()).collect();
            l.sort_by_key(|x| x.file_name());
            for x in l {
                if x.path().is_dir() {
                    v.push((x.file_name().to_string_lossy().to_string(), vec![]));
                    go(&x.path(), v);
                } else if x.file_name() != "created_time.dat" {
                    v.push((x.file_name().to_string_lossy().to_string(), std::fs::read(x.path()).unwrap_or_default()));
                } else {
                    v.push(("time".into(), vec![std::fs::read(x.path()).map_or(0, |b| b.len()) as u8]));
                }
            }
        }
    }
    let mut v = vec![];
    go(&w.join("hist"), &mut v);
    go(&w.join("files"), &mut v);
    hash_of(&v)
}

/// After the crashes: reopen, look, go on, look again, look with a newer source.
fn recover(cx: &mut Ctx, w: &Path, opt: Opt, src: &'static str, must: &BTreeMap<String, u64>, names: &[String], open: &[(String, Vec<u64>)], newer: &HashMap<u64, u64>) -> Result<(), String> {
    cx.step();
    let same = |h: u64| Some(h);
    let t = forked(LIMIT, || {
        let mut p = Proc::start(w, opt, src, names, N2)?;
        let a = p.all()?;
        let b = go_on(&mut p, names.len().checked_sub(1))?;
        let c = p.all()?;
        Ok([put(&a), put(&b), put(&c)].join("\n\n"))
    })
    .text("restarting and going on")?;
    let parts: Vec<Stored> = t.splitn(3, "\n\n").map(get).collect();
    compare(&parts[0], must, open, &same, "after the restart")?;
    let mut must2 = must.clone();
    for (n, h) in &parts[1] {
        if must.contains_key(n) && n.starts_with("h:") {
            return Err(format!("going on: the new entry has the name of the earlier {}", n));
        }
        must2.insert(n.clone(), *h.as_ref().unwrap());
    }
    compare(&parts[2], &must2, open, &same, "after going on")?;
    cx.step();
    let a = restarted(w, opt, src, "second restart")?;
    compare(&a, &must2, open, &same, "after the second restart")?;
    cx.step();
    let b = restarted(w, opt, "src2", "restart with a newer source")?;
    compare(&b, &must2, open, &|h| newer.get(&h).cloned(), "with a newer source")
}

fn cases(t: Tier) -> Vec<String> {
    let mut v = vec![];
    for (o, _) in opts().iter().enumerate() {
        for p in PROGRAMS {
            if p.contains('S') || o == 0 {
                for part in 0..t.pick(1, 8) {
                    v.push(format!("one {} {} {} {}", o, p, part, t.pick(1, 8)));
                }
            }
        }
    }
    for o in 0..t.pick(1, 4) {
        for p in TWICE {
            for part in 0..8 {
                v.push(format!("two {} {} {} 8", o, p, part));
            }
        }
    }
    v
}

/// the interrupted file: new content, and the one before if there was one
fn interrupted(st: &[St], d: &Dry, old: &mut BTreeMap<String, u64>) -> Vec<(String, Vec<u64>)> {
    if !matches!(st.last(), Some(St::Save(_)) | Some(St::File(..))) {
        let gone = leaving(st, &d.stored);
        return d.stored.iter().filter(|x| gone.contains(&x.0)).map(|(n, h)| (n.clone(), vec![*h.as_ref().unwrap()])).collect();
    }
    let (n, h) = d.stored.last().unwrap();
    let mut may = vec![*h.as_ref().unwrap()];
    if let Some(x) = old.remove(n) {
        may.push(x);
    }
    vec![(n.clone(), may)]
}

fn run(case: &str, cx: &mut Ctx) -> Result<(), String> {
    let p: Vec<&str> = case.split(' ').collect();
    let num = |i: usize| -> usize { p[i].parse().unwrap() };
    let opt = opts()[num(1)];
    let st = steps(p[2]);
    let src = parts_of(&st).2;
    let (part, parts) = (num(3), num(4));
    let d = dry(cx, opt, &st)?;
    let (mut old, names) = earlier(&st, &d.stored);
    let open = interrupted(&st, &d, &mut old);
    let mut k = 0;
    for (i, c) in d.log.iter().enumerate() {
        let all = tears(c, cx.tier.thorough() && p[0] == "one");
        for t in all {
            k += 1;
            if k % parts != part {
                continue;
            }
            let plan = Plan::Stop(i as u64 + 1, t);
            let what = format!("{:?} {} stopped at call {} of {} ({}{} after {} bytes)", opt, p[2], i + 1, d.log.len(), c.kind, c.len, t);
            if p[0] == "one" {
                let w = world(cx);
                crash(cx, &w, opt, &st, plan, &[], 0, &what)?;
                recover(cx, &w, opt, src, &old, &names, &open, &d.newer).map_err(|m| format!("{}: {}", what, m))?;
                cx.drop_dir(&w);
                cx.outcome(&format!("stopped at {}", c.kind));
            } else {
                // the next process does the same again and is stopped as well
                let last = vec![st.last().unwrap().clone()];
                let mut j = 0;
                loop {
                    j += 1;
                    let w = world(cx);
                    crash(cx, &w, opt, &st, plan, &[], 0, &what)?;
                    let r = forked(LIMIT, || {
                        let (v, l) = program(&w, opt, &last, Plan::Stop(j, 3), &names, 50)?;
                        Ok(format!("{}\n\n{}", put_log(&l), put(&v)))
                    });
                    let mut open2 = open.clone();
                    let mut ended = None;
                    match r {
                        End::Stopped => {}
                        End::Done(Ok(t)) => ended = Some(get(t.split_once("\n\n").unwrap().1)),
                        o => return Err(format!("{}, then again at call {}: {:?}", what, j, o)),
                    }
                    // the second one interrupted: content known from a run of it alone
                    let second = second_doc(cx, opt, &last)?;
                    let mut must = old.clone();
                    match &ended {
                        Some(s) => {
                            for (n, h) in s {
                                open2.retain(|x| x.0 != *n);
                                must.insert(n.clone(), *h.as_ref().unwrap());
                            }
                        }
                        None => {
                            if let Some(x) = open2.iter_mut().find(|x| x.0.starts_with("f:")) {
                                x.1.push(second);
                            }
                            let extra = next_names(&open2, &old, second);
                            open2.extend(extra);
                        }
                    }
                    // contents of the second document under the newer source are not known: only that they load
                    recover(cx, &w, opt, src, &must, &names, &open2, &d.newer).map_err(|m| format!("{}, then again at call {}: {}", what, j, m))?;
                    cx.drop_dir(&w);
                    cx.outcome("two stops");
                    if ended.is_some() {
                        break;
                    }
                }
            }
        }
        cx.beat();
    }
    Ok(())
}

fn crash(cx: &mut Ctx, w: &Path, opt: Opt, st: &[St], plan: Plan, from: &[String], n: usize, what: &str) -> Result<(), String> {
    cx.eval();
    cx.step();
    match forked(LIMIT, || program(w, opt, st, plan, from, n).map(|_| String::new())) {
        End::Stopped => {}
        o => return Err(format!("machinery: {} ended as {:?}", what, o)),
    }
    let h = tree_hash(w);
    cx.state(&h);
    Ok(())
}

/// what the second process was saving
fn second_doc(cx: &mut Ctx, opt: Opt, last: &[St]) -> Result<u64, String> {
    if !matches!(last[0], St::Save(_) | St::File(..)) {
        return Ok(0);
    }
    let w = world(cx);
    let t = forked(LIMIT, || Ok(put(&program(&w, opt, last, Plan::Count, &[], 50)?.0))).text("second run alone")?;
    cx.drop_dir(&w);
    Ok(*get(&t)[0].1.as_ref().unwrap())
}

/// history names the second process may have used
fn next_names(open: &[(String, Vec<u64>)], old: &BTreeMap<String, u64>, second: u64) -> Vec<(String, Vec<u64>)> {
    let mut v = vec![];
    let first = open.iter().map(|x| &x.0).chain(old.keys()).find(|n| n.starts_with("h:"));
    if let Some(n) = first {
        let dir = n.rsplit_once('/').unwrap().0;
        for c in 0..4 {
            let n = format!("{}/_{}_0.his", dir, c);
            if open.iter().all(|x| x.0 != n) && !old.contains_key(&n) {
                v.push((n, vec![second]));
            }
        }
    }
    v
}

// ------------------------------------------------------------------ C18

const PROGRAMS18: [&str; 37] = [
    "C", "S0", "Fa0", "S0.S0", "S1.S0.S2", "S0.S0.S0.S4", "S1.S0.S0.S0.S0.S1", "S1.N.S0", "S0.S1.L0.S2", "Fa0.Fa1", "Fa1.Fa0", "Fa0.Fb2.Fa4", "S0.L0", "S1.S0.S0.L2", "S0.S1.S2.L1", "Fa0.Fb1.Ga", "S0.S1.Fa0.Fb1.I", "S0.S0.S1.S0.K1",
    "S0.S0.S1.S0.K2", "S0.S0.S1.S0.K0", "S1.N.S0.N.S2.K1", "S0.S0.S1.S0.O1", "S1.N.S0.N.S2.O0", "Fa0.Fb1.Da", "Fa0.Fb1.X", "S0.C", "Fa0.Va1", "Fa0.Vb1",
    "S0.S1.Z.C", "S0.S1.Z.S0", "S0.S1.Z.L1", "S0.S1.Z.L1.S0", "S0.S1.Fa0.Z.S0.Fa1.I", "S0.S1.Z.S0.K1", "S1.S0.Z.S0.S0.K1", "S0.S1.Z.S0.K0", "Fa0.Z.Fa1",
];

fn faults(i: usize, c: &Call) -> Vec<Plan> {
    let n = i as u64 + 1;
    let f = |e: i32| Plan::Fail(n, e);
    let mut v = match c.kind {
        'o' => vec![f(libc::EACCES), f(libc::EMFILE), f(libc::EIO), f(libc::ENOENT), f(libc::EINTR)],
        'c' => vec![f(libc::EACCES), f(libc::ENOSPC), f(libc::EINTR)],
        'r' => vec![f(libc::EIO), f(libc::EINTR), Plan::Short(n, 1)],
        'w' => vec![f(libc::ENOSPC), f(libc::EIO), f(libc::EINTR), Plan::Short(n, 1), Plan::ShortFail(n, (c.len / 2).max(1), libc::ENOSPC)],
        'm' => vec![f(libc::EACCES), f(libc::ENOSPC)],
        'd' => vec![f(libc::EACCES), f(libc::EMFILE)],
        'e' => vec![f(libc::EIO)],
        'q' => vec![f(libc::EACCES), f(libc::EIO)],
        'u' | 'x' => vec![f(libc::EACCES), f(libc::EBUSY)],
        'n' => vec![f(libc::EACCES), f(libc::ENOSPC)],
        _ => vec![f(libc::EIO)],
    };
    if matches!(c.kind, 'c' | 'w' | 'm' | 'n') {
        v.push(Plan::Full(n, libc::ENOSPC));
    }
    v
}

fn cases18(t: Tier) -> Vec<String> {
    let mut v = vec![];
    for o in 0..opts().len() {
        for p in PROGRAMS18 {
            if p.contains('S') || o == 0 {
                for part in 0..t.pick(2, 4) {
                    v.push(format!("{} {} {} {}", o, p, part, t.pick(2, 4)));
                }
            }
        }
    }
    v
}

/// (program without a final opening, whether it ends with one)
fn split18(s: &str) -> (Vec<St>, bool) {
    if s == "C" {
        return (vec![], true);
    }
    match s.strip_suffix(".C") {
        Some(x) => (steps(x), true),
        None => (steps(s), false),
    }
}

/// One process: the program with the fault in its last operation, then everything again.
fn faulty(w: &Path, opt: Opt, st: &[St], opening: bool, plan: Plan, after: Option<&[String]>, conv: &HashMap<u64, u64>) -> Result<String, String> {
    fsi::stats(true);
    let (pre, st, src) = parts_of(st);
    let mut before: BTreeMap<String, u64> = BTreeMap::new();
    let mut order: Vec<String> = vec![];
    let mut p;
    let mut kept: Vec<St> = st.to_vec();
    if !pre.is_empty() {
        let t = forked(LIMIT, || Ok(put(&program(w, opt, pre, Plan::Count, &[], 0)?.0))).text("filling")?;
        for (n, h) in get(&t) {
            if n.starts_with("h:") {
                order.push(n.clone());
            }
            before.insert(n, conv[&h.unwrap()]);
        }
    }
    let last = if opening { None } else { kept.pop() };
    let log;
    let hit;
    // (ok, name, content)
    let mut result: Result<Option<(String, u64)>, String> = Ok(None);
    let aim;
    if opening {
        if !kept.is_empty() {
            // the store was filled by another process
            let t = forked(LIMIT, || Ok(put(&program(w, opt, &kept, Plan::Count, &[], 0)?.0))).text("filling")?;
            for (n, h) in get(&t) {
                if n.starts_with("h:") {
                    order.push(n.clone());
                }
                before.insert(n, h.unwrap());
            }
        }
        fsi::arm(w, plan);
        let r = guard(|| Proc::start(w, opt, src, &order, pre.len() + kept.len()));
        let (l, h) = fsi::disarm();
        log = l;
        hit = h;
        match r {
            Err(x) => return Err(format!("opening crashed: {}", x)),
            Ok(Err(m)) => {
                result = Err(m);
                p = Proc::start(w, opt, src, &order, pre.len() + kept.len()).map_err(|m| format!("opening again after the fault: {}", m))?;
            }
            Ok(Ok(x)) => p = x,
        }
        aim = (String::new(), 0);
    } else {
        p = Proc::start(w, opt, src, &order, pre.len())?;
        for s in &kept {
            if let Some((n, h)) = p.step(s)? {
                if matches!(s, St::Save(_) | St::File(..)) {
                    before.insert(n, h);
                }
            }
        }
        let s = last.as_ref().unwrap();
        fsi::arm(w, plan);
        let r = guard(|| p.step(s));
        let (l, h) = fsi::disarm();
        log = l;
        hit = h;
        match r {
            Err(x) => return Err(format!("the operation crashed: {}", x)),
            Ok(x) => result = x,
        }
        aim = match s {
            St::Save(_) => (String::new(), doc_hash(&p.doc)),
            St::File(c, _) | St::Fresh(c, _) => (fname(p.files.hash(), &c.to_string()), doc_hash(&p.fdoc)),
            _ => (String::new(), 0),
        };
    }
    let ok = result.is_ok();
    // what has to be there now
    let mut must = before.clone();
    let mut gone: Vec<String> = vec![];
    let mut may: Vec<String> = vec![];
    match last.as_ref() {
        Some(St::Save(_)) => {
            if let Ok(Some((n, h))) = &result {
                if before.contains_key(n) {
                    return Err(format!("saved under the name of an earlier entry {}", n));
                }
                must.insert(n.clone(), *h);
            }
        }
        Some(St::File(..)) => {
            if ok {
                must.insert(aim.0.clone(), aim.1);
            } else if !before.contains_key(&aim.0) {
                may.push(aim.0.clone());
            }
        }
        Some(St::Fresh(..)) => {
            if ok && before.contains_key(&aim.0) {
                return Err("overwritten without permission".into());
            }
            if ok {
                must.insert(aim.0.clone(), aim.1);
            } else if !before.contains_key(&aim.0) {
                may.push(aim.0.clone());
            }
        }
        Some(St::Load(k)) => {
            if let Ok(Some((_, h))) = &result {
                if before.get(&p.names[*k]) != Some(h) {
                    return Err("the load reports success with another document".into());
                }
            }
        }
        Some(St::LoadFile(c)) => {
            if let Ok(Some((_, h))) = &result {
                if before.get(&fname(p.files.hash(), &c.to_string())) != Some(h) {
                    return Err("the load reports success with another document".into());
                }
            }
        }
        Some(St::List) => {
            if let Ok(Some((l, _))) = &result {
                let mut want: Vec<String> = p.names.clone();
                let mut f: Vec<String> = before.keys().filter(|n| n.starts_with("f:")).cloned().collect();
                f.sort();
                want.extend(f);
                if *l != want.join("|") {
                    return Err(format!("the listing reports success with {:?}", l));
                }
            }
        }
        Some(St::Keep(k)) => {
            let n = p.names.len();
            for (i, x) in p.names.iter().enumerate() {
                if i + *k < n {
                    must.remove(x);
                    may.push(x.clone());
                }
            }
            if *k == 0 && ok {
                gone = p.names.clone();
            }
        }
        Some(St::KeepOne(k)) => {
            for (i, x) in p.names.iter().enumerate() {
                if i != *k {
                    must.remove(x);
                    may.push(x.clone());
                }
            }
        }
        Some(St::RemoveFile(c)) => {
            let n = fname(p.files.hash(), &c.to_string());
            must.remove(&n);
            if ok {
                gone.push(n);
            } else {
                may.push(n);
            }
        }
        Some(St::RemoveDir) => {
            for n in before.keys().filter(|n| n.starts_with("f:")) {
                must.remove(n);
                if ok {
                    gone.push(n.clone());
                } else {
                    may.push(n.clone());
                }
            }
        }
        _ => {}
    }
    let look = |p: &Proc, must: &BTreeMap<String, u64>, may: &[String], what: &str| -> Result<(), String> {
        let all = guard(|| p.all()).map_err(|m| format!("{}: {}", what, m))?.map_err(|m| format!("{}: {}", what, m))?;
        for (n, h) in must {
            match all.iter().find(|x| x.0 == *n) {
                Some((_, Ok(g))) if g == h => {}
                o => return Err(format!("{}: {} should load as saved, found {:?}", what, n, o)),
            }
        }
        for (n, r) in &all {
            if gone.contains(n) && !must.contains_key(n) {
                return Err(format!("{}: {} was reported as removed", what, n));
            }
            if must.contains_key(n) || may.contains(n) {
                continue;
            }
            // the rest of an interrupted save: an error or the document
            match r {
                Ok(h) if *h != aim.1 => return Err(format!("{}: {} loads and was never saved", what, n)),
                Err(_) | Ok(_) if ok => return Err(format!("{}: unexpected {}", what, n)),
                _ => {}
            }
        }
        Ok(())
    };
    let ended = if ok { "done in spite of it" } else { "reported" };
    if ok && matches!(last, Some(St::Keep(_)) | Some(St::KeepOne(_)) | Some(St::RemoveFile(_)) | Some(St::RemoveDir)) {
        let l = p.list()?;
        if let Some(w) = after {
            if w != l {
                return Err(format!("the removal reports success and leaves {:?}, not {:?}", l, w));
            }
        }
    }
    let listing = p.list()?.join("|");
    if matches!(last, Some(St::File(..)) | Some(St::Fresh(..))) {
        look(&p, &must, &may, &format!("{}, at once", ended))?;
    }
    // go on at once, from what the store knows
    if let Some(s) = &last {
        let mut again: Vec<(String, u64)> = vec![];
        match s {
            St::Save(_) => again.push(p.save().map_err(|m| format!("{}, saving again: {}", ended, m))?),
            St::File(c, _) => again.push(p.save_file(*c).map_err(|m| format!("{}, saving again: {}", ended, m))?),
            St::Load(_) | St::LoadFile(_) | St::List => {
                p.step(s).map_err(|m| format!("{}, again: {}", ended, m))?;
            }
            _ => {}
        }
        for (n, h) in again {
            may.retain(|x| *x != n);
            must.insert(n, h);
        }
    }
    look(&p, &must, &may, &format!("{}, afterwards", ended))?;
    p.n = N2;
    let mut more: Vec<St> = vec![];
    if let Some(k) = (0..p.names.len()).rev().find(|k| must.contains_key(&p.names[*k])) {
        more.extend([St::Load(k), St::Save(0), St::Save(2)]);
    }
    more.extend([St::New, St::Save(1), St::File('a', 4), St::File('c', 0)]);
    for s in more {
        if let Some((n, h)) = p.step(&s).map_err(|m| format!("{}, going on with {:?}: {}", ended, s, m))? {
            if matches!(s, St::Save(_)) && (must.contains_key(&n)) {
                return Err(format!("{}, going on: {} is the name of an earlier entry", ended, n));
            }
            if matches!(s, St::Save(_) | St::File(..)) {
                must.insert(n, h);
            }
        }
    }
    look(&p, &must, &may, &format!("{}, after going on", ended))?;
    let s: Stored = must.into_iter().map(|(n, h)| (n, Ok(h))).collect();
    Ok(format!("{}\n\n{} {}\n\n{}\n\n{}", put_log(&log), if ok { "done" } else { "reported" }, if hit { "" } else { "not reached" }, listing, put(&s)))
}

fn run18(case: &str, cx: &mut Ctx) -> Result<(), String> {
    let p: Vec<&str> = case.split(' ').collect();
    let num = |i: usize| -> usize { p[i].parse().unwrap() };
    let opt = opts()[num(0)];
    let (st, opening) = split18(p[1]);
    let conv = carried(cx, opt, &st)?;
    let src = parts_of(&st).2;
    let one = |cx: &mut Ctx, plan: Plan, after: Option<&[String]>| -> Result<(Vec<Call>, String, Vec<String>), String> {
        let w = world(cx);
        cx.eval();
        cx.step();
        let t = forked(LIMIT, || faulty(&w, opt, &st, opening, plan, after, &conv)).text("process")?;
        let q: Vec<&str> = t.splitn(4, "\n\n").collect();
        let must: BTreeMap<String, u64> = get(q[3]).into_iter().map(|(n, h)| (n, h.unwrap())).collect();
        cx.step();
        let now = restarted(&w, opt, src, "restart")?;
        let then = restarted(&w, opt, "src2", "restart with a newer source")?;
        for (n, h) in &must {
            match now.iter().find(|x| x.0 == *n) {
                Some((_, Ok(g))) if g == h => {}
                o => return Err(format!("after a restart: {} should load as saved, found {:?}", n, o)),
            }
            match then.iter().find(|x| x.0 == *n) {
                Some((_, Ok(_))) => {}
                o => return Err(format!("with a newer source: {} should load, found {:?}", n, o)),
            }
        }
        cx.drop_dir(&w);
        Ok((get_log(q[0]), q[1].trim().to_string(), q[2].split('|').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()))
    };
    let (log, _, after) = one(cx, Plan::Count, None).map_err(|m| format!("{:?} {} undisturbed: {}", opt, p[1], m))?;
    let mut k = 0;
    for (i, c) in log.iter().enumerate() {
        for f in faults(i, c) {
            k += 1;
            if k % num(3) != num(2) {
                continue;
            }
            let (_, r, _) = one(cx, f, Some(&after)).map_err(|m| format!("{:?} {} with {:?} ({}{}): {}", opt, p[1], f, c.kind, c.len, m))?;
            cx.state(&(p[0], p[1], i, format!("{:?}", f)));
            cx.outcome(&format!("{} {}", c.kind, r));
            cx.beat();
        }
    }
    Ok(())
}
