//! C13-C16: histories.
use crate::hist::*;
use crate::infra::*;
use crate::docs::write_src;
use dochy_core::intf::{root, RootObjectPtr};
use dochy_core::structs::{Qv, RootObject};
use dochy_fs::common::{hash_dir_path, CurrentSrc};
use dochy_fs::history::*;
use std::path::PathBuf;

const ASSUME: &[&str] = &["one process uses a history directory at a time", "the options of a history do not change", "documents are edited through the public interface"];

pub fn check() -> Check {
    Check {
        id: "C13",
        level: "model_checking",
        rule: "for every option combination of the grid: every operation sequence up to the depth over saves (small, big, list, order, growing-binary and no edit; with and without tags), loads of every earlier entry, new documents, restarts, switches between two live documents and choices of the entry to derive from; and every long history of the size patterns with up to two such operations at every position. At the end every entry is loaded with warm and with cold caches and compared with what was saved, and its file with what was written; series of entries with every boundary value of every type, form and place, every reference and every member of a wide document. A state is a distinct (options, entry names, documents) tuple.",
        assumptions: ASSUME,
        cases: cases13,
        run: run13,
        hang_s: 60,
        max_workers: 64,
    }
}

pub fn check14() -> Check {
    Check {
        id: "C14",
        level: "model_checking",
        rule: "the histories of C13 with the listings compared after every operation with the saves in their order; every tuple of a control number, previous control number, order numbers and tag of boundary values through the name encoder and decoder; every string up to the length over the characters of names through the decoder. A state is a distinct list of names, tuple or accepted string.",
        assumptions: ASSUME,
        cases: cases14,
        run: run14,
        hang_s: 60,
        max_workers: 64,
    }
}

pub fn check15() -> Check {
    Check {
        id: "C15",
        level: "model_checking",
        rule: "for every option combination: every history of the bounded spaces, pruned to every number of newest entries through each of the removal functions and to every subset of kept entries, then continued (save, new document, load and branch, restart) and pruned again; every kept entry is loaded and compared, every remaining file must be needed by a kept entry; histories of up to four source versions pruned to every number. A state is a distinct (options, names, kept set) triple.",
        assumptions: ASSUME,
        cases: cases15,
        run: run15,
        hang_s: 60,
        max_workers: 64,
    }
}

pub fn check16() -> Check {
    Check {
        id: "C16",
        level: "model_checking",
        rule: "the histories of C13; the phase of every entry is compared with the manual's rule computed from the file sizes, and for every distinct list of names the files each entry needs are found by taking away every file in turn; every combination of boundary options is built. A state is a distinct (options, names) pair.",
        assumptions: ASSUME,
        cases: cases16,
        run: run16,
        hang_s: 60,
        max_workers: 64,
    }
}

/// (label, exhaustive depth, edits, tags, long history length, deviations, patterns)
fn spaces(t: Tier, exh: (usize, usize), long: (usize, usize), dev: (usize, usize), few_patterns: bool) -> Vec<String> {
    let mut v = vec![];
    let max = t.pick(2, 4);
    let g = grid(6);
    for (o, opt) in g.iter().enumerate() {
        if o > 0 && opt.max_phase > max {
            // deep phases: the patterns without anything in between
            if opt.max_phase > 3 && (t.thorough() || opt.update0) {
                for p in 0..patterns(12).len() {
                    v.push(format!("dev {o} {p} 12 0"));
                }
                v.push(format!("many {o} 2"));
                v.push(format!("many {o} 5"));
            }
            continue;
        }
        let d = t.pick(exh.0, exh.1);
        for depth in 1..=d {
            for first in 0..EDITS {
                v.push(format!("exh {o} {depth} {first}"));
            }
        }
        let n = t.pick(long.0, long.1);
        let np = patterns(n).len();
        for p in 0..np {
            if few_patterns && !t.thorough() && p % 3 != 0 {
                continue;
            }
            v.push(format!("dev {o} {p} {n} {}", t.pick(dev.0, dev.1)));
        }
        // a big entry and then more small ones than there are digits
        v.push(format!("dev {o} 7 13 1"));
        for k in 0..MANY {
            v.push(format!("many {o} {k}"));
        }
        if (1..=2).contains(&opt.max_phase) && !opt.mt_save && matches!(opt.cum, None | Some((None, None))) {
            v.push(format!("long {o} 0"));
            v.push(format!("long {o} 1"));
        }
    }
    v
}

/// A history of more saves than a byte counts, in a row or as branches.
fn long(branches: bool) -> Vec<Op> {
    let mut v = vec![Op::Save(6, 0)];
    for _ in 1..300 {
        if branches {
            v.push(Op::Load(0));
        }
        v.push(Op::Save(0, 0));
    }
    v
}

const MANY: usize = 7;

/// Thirteen saves with more branches than there are digits, or with entries of more than 64 KB.
fn many(k: usize) -> Vec<Op> {
    let mut v = vec![Op::Save(if k < 5 { 1 } else { 6 }, 0)];
    for i in 1..13 {
        match k {
            5 => v.push(Op::Save([0, 1, 6][i % 3], 0)),
            6 => v.push(Op::Save([1, 4][i / 12], 0)),
            0 => v.extend([Op::Load(0), Op::Save(0, 0)]),
            1 => v.extend([Op::New, Op::Save((i % 2) as u8, 0)]),
            2 => v.extend([Op::Load(i / 2), Op::Save((i % 3) as u8, 0)]),
            3 => v.extend([Op::Restart, Op::Load((i - 1) / 2 * 2), Op::Save(0, 0)]),
            _ => v.extend([if i % 2 == 1 { Op::Load(0) } else { Op::New }, Op::Save(0, (i % 3) as u8)]),
        }
    }
    v
}

fn cases13(t: Tier) -> Vec<String> {
    let mut v = spaces(t, (3, 4), (7, 7), (1, 2), false);
    for k in 0..crate::rich::SERIES {
        v.push(format!("series {k} 0"));
        v.push(format!("series {k} {}", grid(6).iter().position(|o| o.max_phase == 2 && o.cum.is_none()).unwrap()));
    }
    v
}

fn cases14(t: Tier) -> Vec<String> {
    let mut v = spaces(t, (3, 4), (7, 7), (1, 2), true);
    for k in 0..8 {
        v.push(format!("codec {k}"));
    }
    for a in 0..NAME_CHARS.len() {
        v.push(format!("names {a} {}", t.pick(6, 7)));
    }
    v.push("foreign".into());
    for a in 0..3 {
        for b in 0..3 {
            v.push(format!("versions {a} {b} 2"));
        }
    }
    v
}

fn cases15(t: Tier) -> Vec<String> {
    let mut v = vec![];
    for (o, opt) in grid(6).iter().enumerate() {
        if o > 0 && opt.max_phase > t.pick(2, 4) {
            if opt.max_phase > 3 && opt.update0 {
                v.push(format!("dev {o} 7 13 0"));
                v.push(format!("many {o} 2"));
            }
            continue;
        }
        for depth in 1..=t.pick(2, 3) {
            for first in [0, 1] {
                v.push(format!("exh {o} {depth} {first}"));
            }
        }
        let n = t.pick(5, 6);
        for p in 0..patterns(n).len() {
            if !t.thorough() && (p % 2 == 1) != (o % 2 == 1) && p > 1 {
                continue;
            }
            v.push(format!("dev {o} {p} {n} {}", if p < 1 + t.pick(0, 1) { 1 } else { t.pick(0, 1) }));
        }
        v.push(format!("dev {o} 7 13 0"));
        for k in 0..t.pick(3, MANY) {
            v.push(format!("many {o} {k}"));
        }
    }
    for a in 0..t.pick(3, 4) {
        for b in 0..t.pick(3, 4) {
            v.push(format!("versions {a} {b} {}", t.pick(2, 3)));
        }
    }
    v
}

fn cases16(t: Tier) -> Vec<String> {
    let mut v = spaces(t, (3, 4), (8, 8), (1, 2), false);
    v.push("options".into());
    v
}

/// Options are taken as they are, and refused if they contradict each other.
fn options(cx: &mut Ctx) -> Result<(), String> {
    const L: [Option<usize>; 5] = [None, Some(0), Some(1), Some(2), Some(usize::MAX)];
    for max_phase in [0, 1, 2, 100] {
        for bits in 0..8 {
            let (u, s, l) = (bits & 1 == 1, bits & 2 == 2, bits & 4 == 4);
            let b = || HistoryOptionsBuilder::new().max_phase(max_phase).update_phase_0(u).mt_save(s).mt_load(l);
            let mut all = vec![(None, b().cumulative(None).build())];
            for n in L {
                for c in L {
                    all.push((Some((n, c)), b().cumulative(Some(CumulativeOptionsBuilder::new().limit_nth(n).limit_count(c))).build()));
                }
            }
            for (cum, r) in all {
                cx.eval();
                cx.step();
                cx.state(&(max_phase, bits, cum));
                let what = format!("max_phase {} update_phase_0 {} cumulative {:?}", max_phase, u, cum);
                let (n, c) = cum.unwrap_or((None, None));
                let wrong = n == Some(0) || c == Some(0) || max_phase == 0 && (!u || n.is_some() || c.is_some());
                match r {
                    Err(_) if wrong => cx.outcome("options refused"),
                    Err(e) => return Err(format!("{} is refused: {}", what, e)),
                    Ok(_) if wrong => return Err(format!("{} is accepted", what)),
                    Ok(o) => {
                        let got = (o.max_phase(), o.update_phase_0(), o.mt_save(), o.mt_load(), o.cumulative().map(|x| (x.limit_nth(), x.limit_count())), o.is_cumulative());
                        if got != (max_phase, u, s, l, cum, cum.is_some()) {
                            return Err(format!("{} gives {:?}", what, got));
                        }
                        cx.outcome("options accepted");
                    }
                }
            }
        }
    }
    Ok(())
}

/// Runs `f` on every history of the case.
fn each(c: &str, cx: &mut Ctx, edits: &[u8], tags: &[u8], f: &mut dyn FnMut(Opt, &[Op], &mut Ctx) -> Result<(), String>) -> Result<(), String> {
    let w: Vec<&str> = c.split(' ').collect();
    let num = |i: usize| w[i].parse::<usize>().unwrap();
    let opt = grid(6)[num(1)];
    match w[0] {
        "seq" => f(opt, &parse(w[2]), cx),
        "exh" => {
            for t in tags {
                if *t != 0 && num(3) != 0 {
                    continue;
                }
                sequences(num(2), edits, tags, &[Op::Save(num(3) as u8, *t)], &mut |ops| f(opt, ops, cx))?;
            }
            Ok(())
        }
        "many" => f(opt, &many(num(2)), cx),
        "long" => f(opt, &long(num(2) == 1), cx),
        "dev" => deviations(&patterns(num(3))[num(2)], num(4), &mut |ops| f(opt, ops, cx)),
        _ => unreachable!(),
    }
}

struct Made {
    h: H,
    dirs: PathBuf,
}

fn make(opt: Opt, src: &PathBuf, cx: &mut Ctx) -> Result<Made, String> {
    let dirs = cx.fresh();
    Ok(Made { h: H::new(opt, src, &dirs)?, dirs })
}

fn run13(c: &str, cx: &mut Ctx) -> Result<(), String> {
    if let Some(r) = c.strip_prefix("series ") {
        let w: Vec<usize> = r.split(' ').map(|x| x.parse().unwrap()).collect();
        return crate::rich::history(w[0], grid(6)[w[1]], cx);
    }
    let src = src_dir(cx);
    let edits: Vec<u8> = (0..EDITS).collect();
    each(c, cx, &edits, &[0, 1], &mut |opt, ops, cx| {
        let mut m = make(opt, &src, cx)?;
        m.h.run(ops, cx)?;
        cx.eval();
        m.h.check_entries().map_err(|x| format!("{:?}: {}: {}", opt, text_of(ops), x))?;
        let names: Vec<(String, &crate::snap::Doc)> = m.h.entries.iter().map(|x| (x.name(), &x.doc)).collect();
        cx.state(&(format!("{:?}", opt), names));
        cx.outcome(&format!("{} entries", m.h.entries.len()));
        cx.drop_dir(&m.dirs);
        Ok(())
    })?;
    cx.drop_dir(&src);
    Ok(())
}

fn run14(c: &str, cx: &mut Ctx) -> Result<(), String> {
    let w: Vec<&str> = c.split(' ').collect();
    match w[0] {
        "codec" => return codec(w[1].parse().unwrap(), cx),
        "names" => return names(w[1].parse().unwrap(), w[2].parse().unwrap(), cx),
        "foreign" => return foreign(cx),
        "versions" => return versions(w[1].parse().unwrap(), w[2].parse().unwrap(), 2, false, cx),
        _ => {}
    }
    let src = src_dir(cx);
    each(c, cx, &[0, 1, 2], &[0, 1, 2], &mut |opt, ops, cx| {
        let mut m = make(opt, &src, cx)?;
        let bad = |m: String| format!("{:?}: {}: {}", opt, text_of(ops), m);
        for op in ops {
            cx.step();
            m.h.step(op).map_err(bad)?;
            if let Op::Save(_, t) = op {
                let k = m.h.entries.len() - 1;
                let en = &m.h.entries[k];
                if m.h.entries[..k].iter().any(|x| x.name() == en.name()) {
                    return Err(bad(format!("the name {} is used again", en.name())));
                }
                if en.props.tag() != TAGS[*t as usize] {
                    return Err(bad(format!("tag {:?} saved as {:?}", TAGS[*t as usize], en.props.tag())));
                }
                if FileNameProps::from(&en.name()).as_ref() != Some(&en.props) {
                    return Err(bad(format!("{} decodes to {:?}, made from {:?}", en.name(), FileNameProps::from(&en.name()), en.props)));
                }
            }
            m.h.check_listing().map_err(bad)?;
        }
        cx.eval();
        let names: Vec<String> = m.h.entries.iter().map(|x| x.name()).collect();
        cx.state(&(format!("{:?}", opt), names));
        cx.outcome(&format!("{} entries", m.h.entries.len()));
        cx.drop_dir(&m.dirs);
        Ok(())
    })?;
    cx.drop_dir(&src);
    Ok(())
}

fn codec(part: usize, cx: &mut Ctx) -> Result<(), String> {
    const N: [u32; 14] = [0, 1, 9, 10, 19, 99, 100, 255, 65536, 9_999_999, 10_000_000, 99_999_999, 100_000_000, u32::MAX];
    const T: [Option<&str>; 16] = [None, Some(""), Some("t"), Some("tag"), Some("#"), Some("##"), Some("a#b"), Some("_0_0"), Some("(1)"), Some(".his"), Some("é漢"), Some(" "), Some("#_1_1.his"), Some("("), Some("0"), Some("A.b-c")];
    let mut orders: Vec<Vec<u32>> = vec![];
    for a in N {
        orders.push(vec![a]);
        for b in N {
            orders.push(vec![a, b]);
        }
        orders.push(vec![a, 0, a]);
        orders.push(vec![0, a, 0, 1]);
        orders.push(vec![1, 2, 3, 4, a]);
    }
    let mut all: std::collections::HashMap<String, (u32, u32, Vec<u32>, Option<&str>)> = Default::default();
    for (ti, tag) in T.iter().enumerate() {
        if ti % 8 != part {
            continue;
        }
        for ctl in N {
            for prev in N {
                for o in &orders {
                    let p = FileNameProps::new(ctl, prev, o.clone(), tag.map(|s| s.to_string())).map_err(|x| x.to_string())?;
                    let n = p.calc_filename();
                    cx.eval();
                    cx.step();
                    cx.state(&n);
                    let q = FileNameProps::from(&n);
                    if q.as_ref() != Some(&p) {
                        return Err(format!("name {} made from {:?} decodes to {:?}", n, p, q));
                    }
                    if (p.control(), p.prev_ctl(), p.order(), p.tag()) != (ctl, prev, &o[..], *tag) || p.phase() != o.len() - 1 || p.order_base() != &o[..o.len() - 1] {
                        return Err(format!("{:?} does not show what it was made from", p));
                    }
                    let me = (ctl, prev, o.clone(), *tag);
                    if let Some(x) = all.insert(n.clone(), me.clone()) {
                        if x != me {
                            return Err(format!("{:?} and {:?} have the same name {}", x, me, n));
                        }
                    }
                }
            }
        }
    }
    cx.outcome("codec");
    Ok(())
}

const NAME_CHARS: [&str; 9] = ["_", "0", "1", "#", "(", ")", "a", "-", "é"];

/// A decoded name is exactly the name its parts give.
fn names(first: usize, len: usize, cx: &mut Ctx) -> Result<(), String> {
    fn go(s: &mut String, left: usize, cx: &mut Ctx) -> Result<(), String> {
        for ext in [".his", "", ".hi", ".his "] {
            let n = format!("{}{}", s, ext);
            cx.evaluations += 1;
            if let Some(p) = FileNameProps::from(&n) {
                cx.state(&n);
                cx.outcome("accepted");
                if p.calc_filename() != n {
                    return Err(format!("{:?} is taken for {:?}, whose name is {:?}", n, p, p.calc_filename()));
                }
            }
        }
        if left == 0 {
            return Ok(());
        }
        for c in NAME_CHARS {
            let l = s.len();
            s.push_str(c);
            cx.transitions += 1;
            go(s, left - 1, cx)?;
            s.truncate(l);
        }
        Ok(())
    }
    cx.outcome("rejected");
    go(&mut NAME_CHARS[first].to_string(), len - 1, cx)
}

/// Other files and directories are not entries.
fn foreign(cx: &mut Ctx) -> Result<(), String> {
    let src = src_dir(cx);
    for name in ["x", "a.his", "_0.his", "__.his", "_0_0.hist", "_0_0.his.tmp", ".his", "#t#.his", "#t_0_0.his", "(0_0_0.his", "_0_0.HIS", "src.archive2", "_a_0.his", "_0_0_.his", "_00_0.his", "_0_00.his", "(0)_0_0.his", "_0_0 .his", "-1_0_0.his", "_4294967296_0.his", "_99999999999_0.his"] {
        for dir in [false, true] {
            for place in 0..3 {
                let mut m = make(grid(6)[0], &src, cx)?;
                m.h.save(0, 0)?;
                let p = match place {
                    0 => m.h.hash_dir().join(name),
                    1 => m.dirs.join(name),
                    _ => m.dirs.join("0123456789abcdef0123456789abcdeg"),
                };
                if dir || place == 2 {
                    std::fs::create_dir_all(&p).unwrap();
                } else {
                    std::fs::write(&p, b"x").unwrap();
                }
                cx.eval();
                cx.state(&(name, dir, place));
                let bad = |x: String| format!("with {:?} (directory: {}) present: {}", p, dir, x);
                m.h.check_listing().map_err(bad)?;
                m.h.save(1, 0).map_err(bad)?;
                m.h.save(0, 1).map_err(bad)?;
                m.h.check_listing().map_err(bad)?;
                m.h.check_entries().map_err(bad)?;
                cx.transitions += 3;
                cx.drop_dir(&m.dirs);
            }
        }
    }
    cx.drop_dir(&src);
    cx.outcome("foreign");
    Ok(())
}

fn files(p: &PathBuf) -> Vec<String> {
    let mut v: Vec<String> = match std::fs::read_dir(p) {
        Ok(d) => d.map(|x| x.unwrap().file_name().to_string_lossy().to_string()).collect(),
        Err(_) => vec![],
    };
    v.sort();
    v
}

#[derive(Debug, Clone)]
enum Prune {
    Histories(usize),
    History(usize),
    Keep(u32),
}

fn prune(h: &mut H, how: &Prune) -> Result<(), String> {
    let alive: Vec<usize> = (0..h.entries.len()).filter(|k| !h.entries[*k].removed).collect();
    let n = alive.len();
    let hd = h.hash_dir();
    let before = files(&hd);
    let hs = list_histories(&h.info).map_err(|x| format!("list: {}", x))?;
    let keep: Vec<usize> = match how {
        Prune::Histories(k) | Prune::History(k) => alive.iter().cloned().skip(n.saturating_sub(*k)).collect(),
        Prune::Keep(mask) => alive.iter().cloned().enumerate().filter(|(i, _)| mask & (1 << i) != 0).map(|x| x.1).collect(),
    };
    match how {
        Prune::Histories(k) => hs.remove_old_files(*k, &h.dir).map_err(|x| format!("remove_old_files: {}", x))?,
        Prune::History(k) => {
            drop(hs);
            let fh = FileHistory::create(&h.dir, h.info.hash(), h.opt.max_phase, h.opt.cum.is_some()).map_err(|x| x.to_string())?;
            let mut removable: Vec<String> = fh.get_removable_old_items(*k).iter().map(|p| p.calc_filename()).collect();
            removable.sort();
            let failed = fh.remove_old_files(*k, &hd);
            if !failed.is_empty() {
                return Err(format!("could not remove {:?}", failed));
            }
            let now = files(&hd);
            let gone: Vec<String> = before.iter().filter(|x| !now.contains(x)).cloned().collect();
            if gone != removable {
                return Err(format!("removable {:?}, removed {:?}", removable, gone));
            }
        }
        Prune::Keep(_) => {
            let (_, fh) = hs.iter().next().ok_or("no history")?;
            let r = HistoryRemover::from(fh);
            for k in &keep {
                r.keep(&h.entries[*k].props).ok_or_else(|| format!("keep of {} finds nothing", h.entries[*k].name()))?;
            }
            let failed = r.remove(&hd);
            if !failed.is_empty() {
                return Err(format!("could not remove {:?}", failed));
            }
        }
    }
    let after = files(&hd);
    if matches!(how, Prune::Histories(0)) {
        if !after.is_empty() {
            return Err(format!("everything was to be removed, {:?} is left", after));
        }
    } else {
        for f in &before {
            let entry = h.entries.iter().position(|x| !x.removed && x.name() == *f);
            if entry.is_none() && !after.contains(f) {
                return Err(format!("{} was removed and is not an entry", f));
            }
        }
    }
    for f in &after {
        if !before.contains(f) {
            return Err(format!("{} appeared", f));
        }
    }
    for k in &alive {
        let name = h.entries[*k].name();
        if !after.contains(&name) {
            if keep.contains(k) {
                return Err(format!("kept entry {} is gone", name));
            }
            h.entries[*k].removed = true;
        }
    }
    // what stays is needed
    let extra: Vec<usize> = alive.iter().cloned().filter(|k| !h.entries[*k].removed && !keep.contains(k)).collect();
    for k in &keep {
        h.load_quietly(*k)?;
    }
    for x in extra {
        let p = hd.join(h.entries[x].name());
        let away = h.dir.join("away");
        std::fs::rename(&p, &away).unwrap();
        let mut needed = false;
        for k in &keep {
            needed |= h.load_quietly(*k).is_err();
        }
        std::fs::rename(&away, &p).unwrap();
        if !needed {
            return Err(format!("{} stays and no kept entry needs it", h.entries[x].name()));
        }
    }
    Ok(())
}

/// Pruning of a history with up to four source versions with 1 to `most` entries each (the first two given, 0 for none).
/// Versions with entries, one of them emptied before the histories are pruned.
fn versions(a: usize, b: usize, most: usize, prunes: bool, cx: &mut Ctx) -> Result<(), String> {
    let srcs: Vec<PathBuf> = (0..4)
        .map(|i| {
            let d = cx.fresh();
            write_src(&d, &[("root.json5", &format!("{{ v : 0, w{} : 1 }}", i))]);
            d
        })
        .collect();
    for c in 0..=most {
        for d in 0..=most {
            let counts: Vec<usize> = [a, b, c, d].iter().cloned().filter(|n| *n > 0).collect();
            for emptied in 0..=counts.len() {
                let left = counts.iter().sum::<usize>() - counts.get(emptied).unwrap_or(&0);
                for keep in if prunes { 0..=left + 1 } else { left + 1..=left + 1 } {
                    pruned(&srcs, &counts, emptied, keep, cx).map_err(|m| format!("versions with {:?} entries, {} emptied, pruned to {}: {}", counts, emptied, keep, m))?;
                }
            }
        }
    }
    for d in srcs {
        cx.drop_dir(&d);
    }
    Ok(())
}

fn pruned(srcs: &[PathBuf], counts: &[usize], emptied: usize, keep: usize, cx: &mut Ctx) -> Result<(), String> {
    fn s(x: impl std::fmt::Display) -> String {
        x.to_string()
    }
    let opt = grid(6)[0];
    let set = |r: &mut RootObject, n: i64| root::set_int(RootObjectPtr::new(r), "v", Qv::Val(n));
    let dir = cx.fresh();
    std::fs::create_dir_all(&dir).unwrap();
    let mut entries: Vec<(usize, FileNameProps, i64)> = vec![];
    let mut hashes = vec![];
    let cur = |v: usize| CurrentSrc::SrcDir(srcs[v].clone());
    let mut info = HistoryInfo::create(&dir, cur(0), opt.build()).map_err(s)?;
    for (v, n) in counts.iter().enumerate() {
        info = unsafe { init_dochy_cache_us(&dir, cur(v), &opt.build()) }.map_err(s)?;
        hashes.push(info.hash());
        let mut r = info.clone_src_root();
        for _ in 0..*n {
            let k = entries.len() as i64 + 1;
            set(&mut r, k);
            entries.push((v, save_history_file(&info, None, &r).map_err(s)?, k));
            cx.step();
        }
    }
    if emptied < counts.len() {
        let hs = list_histories(&info).map_err(s)?;
        let (h, fh) = hs.iter().nth(emptied).unwrap();
        let failed = HistoryRemover::from(fh).remove(hash_dir_path(&dir, *h));
        if !failed.is_empty() {
            return Err(format!("not removed: {:?}", failed));
        }
        entries.retain(|x| x.0 != emptied);
    }
    let total = entries.len();
    cx.eval();
    cx.state(&(counts, emptied, keep));
    let listed = |what: &str| -> Result<Vec<(u128, FileNameProps)>, String> {
        let hs = list_histories(&info).map_err(s)?;
        let l: Vec<(u128, FileNameProps)> = hs.list_files().iter().map(|f| (f.hash(), f.props().clone())).collect();
        let n = hs.get_newest_file_data().map(|f| (f.hash(), f.props().clone()));
        if n.as_ref() != l.last() {
            return Err(format!("{}: {:?} is the last entry and {:?} the newest one", what, l.last(), n));
        }
        Ok(l)
    };
    let all: Vec<(u128, FileNameProps)> = entries.iter().map(|(v, p, _)| (hashes[*v], p.clone())).collect();
    if listed("before")? != all {
        return Err("other entries are listed than were saved".into());
    }
    // the number of entries in newer versions
    let newer = |v: usize| entries.iter().filter(|x| x.0 > v).count();
    list_histories(&info).map_err(s)?.remove_old_files(keep, &dir).map_err(s)?;
    for (v, h) in hashes.iter().enumerate() {
        // versions older than the newest entry that was not to be kept
        let gone = keep == 0 || newer(v) > keep;
        if gone && hash_dir_path(&dir, *h).exists() {
            return Err(format!("version {} stays", v));
        }
    }
    let rest = listed("after")?;
    for (i, (v, p, k)) in entries.iter().enumerate() {
        let there = rest.iter().any(|x| x.0 == hashes[*v] && x.1 == *p);
        let kept = i + keep >= total;
        if kept && !there {
            return Err(format!("entry {} of version {} is gone", p.calc_filename(), v));
        }
        if there {
            let hs = list_histories(&info).map_err(s)?;
            let f = hs.list_files().into_iter().find(|f| f.hash() == hashes[*v] && f.props() == p).unwrap();
            let mut r = load_history_file_data(&info, &f, true).map_err(s)?;
            if root::get_int(RootObjectPtr::new(&mut r), "v") != Some(Qv::Val(*k)) {
                return Err(format!("entry {} of version {} loads as another state", p.calc_filename(), v));
            }
        }
    }
    // going on
    let mut r = info.clone_src_root();
    set(&mut r, 77);
    let p = save_history_file(&info, None, &r).map_err(s)?;
    let l = listed("after the next save")?;
    if l.last().map(|x| &x.1) != Some(&p) || l.len() != rest.len() + 1 {
        return Err(format!("{} was saved next and {:?} is the newest", p.calc_filename(), l.last()));
    }
    cx.outcome(&format!("{} versions", counts.len()));
    cx.drop_dir(&dir);
    Ok(())
}

fn run15(c: &str, cx: &mut Ctx) -> Result<(), String> {
    let w: Vec<&str> = c.split(' ').collect();
    if w[0] == "versions" {
        let n = |i: usize| w[i].parse::<usize>().unwrap();
        return versions(n(1), n(2), n(3), true, cx);
    }
    let src = src_dir(cx);
    let thorough = cx.tier.thorough();
    each(c, cx, &[0, 1], &[0], &mut |opt, ops, cx| {
        let n = ops.iter().filter(|o| matches!(o, Op::Save(..))).count();
        let mut prunes: Vec<Prune> = vec![];
        for k in 0..=n + 1 {
            prunes.push(Prune::Histories(k));
            prunes.push(Prune::History(k));
        }
        for mask in 0..(1u32 << n) {
            // of long histories one or two entries are kept
            if n <= 8 || mask.count_ones() == 1 || thorough && mask.count_ones() == 2 {
                prunes.push(Prune::Keep(mask));
            }
        }
        for (pi, pr) in prunes.iter().enumerate() {
            for then in 0..4 {
                // the continuations take turns for the subsets in the quick tier
                if !thorough && (pi + ops.len()) % 4 != then {
                    continue;
                }
                let mut m = make(opt, &src, cx)?;
                let bad = |x: String| format!("{:?}: {} pruned by {:?}, continuation {}: {}", opt, text_of(ops), pr, then, x);
                m.h.run(ops, cx)?;
                cx.eval();
                cx.step();
                prune(&mut m.h, pr).map_err(bad)?;
                m.h.check_listing().map_err(bad)?;
                let left: Vec<usize> = (0..m.h.entries.len()).filter(|k| !m.h.entries[*k].removed).collect();
                cx.state(&(format!("{:?}", opt), m.h.entries.iter().map(|x| (x.name(), x.removed)).collect::<Vec<_>>()));
                let mut more = vec![];
                match then {
                    0 => {}
                    1 => more.push(Op::New),
                    2 => {
                        if let Some(k) = left.first() {
                            more.push(Op::Load(*k));
                        }
                    }
                    _ => {
                        more.push(Op::Restart);
                        more.push(left.last().map_or(Op::New, |k| Op::Load(*k)));
                    }
                }
                more.extend([Op::Save(0, 0), Op::Save(1, 1), Op::Save(2, 0)]);
                m.h.run(&more, cx).map_err(bad)?;
                m.h.check_listing().map_err(bad)?;
                m.h.check_entries().map_err(bad)?;
                prune(&mut m.h, &Prune::History(2)).map_err(|x| bad(format!("pruning again: {}", x)))?;
                m.h.check_listing().map_err(bad)?;
                cx.outcome(&format!("kept {}", left.len()));
                cx.drop_dir(&m.dirs);
            }
        }
        Ok(())
    })?;
    cx.drop_dir(&src);
    Ok(())
}

fn run16(c: &str, cx: &mut Ctx) -> Result<(), String> {
    if c == "options" {
        return options(cx);
    }
    let src = src_dir(cx);
    each(c, cx, &[0, 1, 2, 4], &[0], &mut |opt, ops, cx| {
        let mut m = make(opt, &src, cx)?;
        let bad = |x: String| format!("{:?}: {}: {}", opt, text_of(ops), x);
        m.h.run(ops, cx)?;
        cx.eval();
        if let Some(x) = m.h.phase_error.take() {
            return Err(bad(x));
        }
        let names: Vec<String> = m.h.entries.iter().map(|x| x.name()).collect();
        if cx.state(&(format!("{:?}", opt), names)) && ops.len() < 200 {
            let needs = m.h.needs().map_err(bad)?;
            for (k, fs) in needs {
                let last = fs.iter().filter(|f| m.h.entries[**f].props.phase() == opt.max_phase).count();
                let other = fs.len() - last;
                let limit = match opt.cum {
                    None => Some(1),
                    // no earlier phase to shift to
                    Some(_) if opt.max_phase == 1 && !opt.update0 => None,
                    Some((_, c)) => c,
                };
                if other > opt.max_phase || limit.map_or(false, |l| last > l) {
                    return Err(bad(format!("entry {} needs {:?}", m.h.entries[k].name(), fs.iter().map(|f| m.h.entries[*f].name()).collect::<Vec<_>>())));
                }
                cx.outcome(&format!("needs {}", fs.len()));
            }
        }
        cx.drop_dir(&m.dirs);
        Ok(())
    })?;
    cx.drop_dir(&src);
    Ok(())
}
