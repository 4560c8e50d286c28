//! C06: a copy of a document is isolated from later edits.
use crate::c03::{diff_of, patch};
use crate::docs::*;
use crate::edits::*;
use crate::infra::*;
use crate::snap::*;
use dochy_core::structs::RootObject;
use dochy_fs::common::CurrentSrc;
use dochy_fs::history::*;
use std::collections::HashMap;

pub fn check() -> Check {
    Check {
        id: "C06",
        level: "model_checking",
        rule: "every sequence up to the depth of: edit one of the live documents (variables, in-place arrays and strings, items, nested items, insert, remove, move, references, enums, undefiable lists), copy one, drop one, diff one against its origin, over up to three live documents; after every step every live document is compared with the same edits made on a document that was never copied. A state is a distinct tuple of observed documents. Saves and loads are mixed in, in shorter sequences.",
        assumptions: &["at most three live documents", "no accessor is held across a copy (the borrow checker forbids it for the safe wrappers)"],
        cases,
        run,
        hang_s: 60,
        max_workers: 64,
    }
}

const SRC: &str = r#"{
  t1 : ["Table", [{ v : 0 }], { ID : "a", v : 1 }, { ID : "b", v : 2 }],
  i : 1, sn : "text", jn : ["IntArray", 1, 2], gn : ["FloatArray", 1.0], yn : ["Binary", 1, 2],
  l : ["MList", [{ i : 0, sn : "q", jn : ["IntArray", 3], k : ["MilDef", [{ i : 0, yn : ["Binary", 7], m : ["MilDef", [{ i : 0 }]] }]], Ref : { t1 : "a" } }],
    { i : 1, k : ["Mil", { i : 1, m : ["Mil", {}] }, {}] }, { i : 2 }],
  e : ["MList", [{ i : 0, Enum : { "t1?" : null } }], { Enum : { t1 : "a" } }],
  "u!" : ["MList", [{ i : 0 }], {}]
}"#;

/// edits that always apply to some state, the same on every document
fn alphabet(full: bool) -> Vec<Ed> {
    let l = Loc::root("l");
    let i0 = Some((l.clone(), 0));
    let k = l.sub(0, "k");
    let k0 = Some((k.clone(), 0));
    let mut v = vec![
        Ed::Set(None, "i".into(), V::I(50)),
        Ed::InPlace(None, "jn".into(), 0),
        Ed::Set(i0.clone(), "i".into(), V::I(60)),
        Ed::InPlace(i0.clone(), "jn".into(), 0),
        Ed::InPlace(k0.clone(), "yn".into(), 0),
        Ed::Ins(k.clone(), false),
        Ed::Rem(l.clone(), 0),
        Ed::ToEnd(l.clone(), 1, true),
        Ed::Ref(i0.clone(), "t1".into(), V::Id("b".into())),
        Ed::Ins(k.sub(0, "m"), true),
    ];
    if full {
        v.extend(vec![
            Ed::InPlace(None, "sn".into(), 0),
            Ed::InPlace(None, "gn".into(), 1),
            Ed::InPlace(None, "yn".into(), 2),
            Ed::InPlace(i0.clone(), "sn".into(), 2),
            Ed::Set(k0.clone(), "i".into(), V::I(70)),
            Ed::Ins(l.clone(), true),
            Ed::RemEnd(l.clone(), false),
            Ed::Rem(k.clone(), 0),
            Ed::ToEnd(k.clone(), 1, true),
            Ed::Enum(Some((Loc::root("e"), 0)), "t1".into(), "b".into()),
            Ed::Ins(Loc::root("u"), false),
            Ed::Beside(l.clone(), 0, 1, true),
            Ed::Init(None, "jn".into(), 3),
            Ed::Init(i0, "jn".into(), 2),
        ]);
    }
    v
}

#[derive(Debug, Clone)]
enum Op {
    Edit(usize, usize),
    Copy(usize),
    Drop(usize),
    Diff(usize),
}

fn cases(t: Tier) -> Vec<String> {
    let mut v = vec![];
    // first operation after the initial copy
    let small = t.pick(4, 5);
    for i in 0..2 {
        for e in 0..t.pick(7, 10) {
            v.push(format!("small {small} {i} {e}"));
        }
        for e in 0..alphabet(true).len() {
            v.push(format!("full {} {i} {e}", t.pick(3, 4)));
        }
    }
    for e in 0..alphabet(true).len() {
        v.push(format!("fs {e}"));
    }
    v
}

struct World<'a> {
    ops: Vec<Ed>,
    expect: HashMap<Vec<usize>, Option<Doc>>,
    arch: Vec<u8>,
    cx: &'a mut Ctx,
    path: Vec<Op>,
}

impl<'a> World<'a> {
    fn fresh(&self) -> RootObject {
        dochy_core::read_archive_to_root(&mut &self.arch[..], true).expect("archive of the source")
    }
    /// The document these edits give when nothing is ever copied.
    fn want(&mut self, edits: &[usize]) -> Option<Doc> {
        if let Some(d) = self.expect.get(edits) {
            return d.clone();
        }
        let mut r = self.fresh();
        let mut ok = true;
        for e in edits {
            ok = apply(&mut r, &self.ops[*e]) == Some(true);
        }
        let d = if ok { Some(snap(&r)) } else { None };
        self.expect.insert(edits.to_vec(), d.clone());
        d
    }
    fn explore(&mut self, docs: &[(RootObject, Vec<usize>)], depth: usize, first: Option<Op>) -> Result<(), String> {
        let mut ops = vec![];
        if let Some(f) = first {
            ops.push(f);
        } else {
            for i in 0..docs.len() {
                for e in 0..self.ops.len() {
                    ops.push(Op::Edit(i, e));
                }
                if docs.len() < 3 {
                    ops.push(Op::Copy(i));
                }
                if docs.len() > 1 {
                    ops.push(Op::Drop(i));
                }
                ops.push(Op::Diff(i));
            }
        }
        for op in ops {
            // fresh copies would change who shares with whom, so the documents are rebuilt by replaying
            let mut d = self.rebuild()?;
            self.path.push(op.clone());
            let r = self.step(&mut d, &op);
            let go = r.map_err(|m| format!("{:?} (edits {:?}): {}", self.path, self.ops, m))?;
            if go && depth > 1 {
                self.explore(&d, depth - 1, None)?;
            }
            self.path.pop();
        }
        Ok(())
    }
    /// Replays the path; the documents of a level share exactly what a real execution shares.
    fn rebuild(&mut self) -> Result<Vec<(RootObject, Vec<usize>)>, String> {
        let a = self.fresh();
        let b = a.clone();
        let mut docs = vec![(a, vec![]), (b, vec![])];
        let path = self.path.clone();
        for op in &path {
            self.act(&mut docs, op)?;
        }
        Ok(docs)
    }
    fn act(&mut self, docs: &mut Vec<(RootObject, Vec<usize>)>, op: &Op) -> Result<bool, String> {
        match op {
            Op::Edit(i, e) => {
                let ed = self.ops[*e].clone();
                if apply(&mut docs[*i].0, &ed) != Some(true) {
                    return Ok(false);
                }
                docs[*i].1.push(*e);
            }
            Op::Copy(i) => {
                let c = (docs[*i].0.clone(), docs[*i].1.clone());
                docs.push(c);
            }
            Op::Drop(i) => {
                docs.remove(*i);
            }
            Op::Diff(i) => {
                let base = self.fresh();
                let d = diff_of(&base, &docs[*i].0)?;
                let mut c = base.clone();
                patch(&mut c, &d)?;
                expect_eq(&snap(&docs[*i].0), &snap(&c), "patched copy of the origin")?;
            }
        }
        Ok(true)
    }
    fn step(&mut self, docs: &mut Vec<(RootObject, Vec<usize>)>, op: &Op) -> Result<bool, String> {
        let went = self.act(docs, op)?;
        self.cx.eval();
        self.cx.step();
        if let Op::Edit(i, e) = op {
            let mut w = docs[*i].1.clone();
            if went {
                w.pop();
            }
            w.push(*e);
            let should = self.want(&w).is_some();
            if should != went {
                return Err(format!("the edit of document {} {} but {} on a document never copied", i, if went { "succeeded" } else { "failed" }, if should { "succeeds" } else { "fails" }));
            }
        }
        let mut all = vec![];
        for (i, (r, edits)) in docs.iter().enumerate() {
            let want = self.want(edits).expect("applied edits apply to the reference");
            let got = snap(r);
            expect_eq(&want, &got, &format!("document {}", i))?;
            all.push(got);
        }
        self.cx.state(&all);
        Ok(went)
    }
}

fn world<'a>(cx: &'a mut Ctx, full: bool) -> Result<World<'a>, String> {
    let d = cx.fresh();
    write_src(&d, &[("root.json5", SRC)]);
    let arch = archive_of(&d)?;
    cx.drop_dir(&d);
    Ok(World { ops: alphabet(full), expect: HashMap::new(), arch, cx, path: vec![] })
}

fn run(c: &str, cx: &mut Ctx) -> Result<(), String> {
    let w: Vec<&str> = c.split(' ').collect();
    let num = |i: usize| w[i].parse::<usize>().unwrap();
    if w[0] == "fs" {
        return run_fs(num(1), cx);
    }
    let mut wd = world(cx, w[0] == "full")?;
    if w[0] == "small" && !wd.cx.tier.thorough() {
        wd.ops.truncate(7);
    }
    wd.explore(&[], num(1), Some(Op::Edit(num(2), num(3))))?;
    cx.outcome(w[0]);
    Ok(())
}

/// Saving, diffing, loading and removing never change a document the caller holds.
fn run_fs(first: usize, cx: &mut Ctx) -> Result<(), String> {
    let base = cx.fresh();
    let src = base.join("src");
    write_src(&src, &[("root.json5", SRC)]);
    let dir = base.join("hist");
    let csrc = CurrentSrc::SrcDir(src);
    let e = |m: &str, x: dochy_fs::FsError| format!("{}: {}", m, x);
    let ops = alphabet(true);
    for (second, ed2) in ops.iter().enumerate() {
        let hdir = dir.join(format!("h{}", second));
        std::fs::create_dir_all(&hdir).unwrap();
        let opt = HistoryOptionsBuilder::new().mt_save(second % 2 == 1).build().map_err(|x| e("options", x))?;
        let info = HistoryInfo::create(&hdir, csrc.clone(), &opt).map_err(|x| e("init", x))?;
        let r0 = info.clone_src_root();
        let s0 = snap(&r0);
        let mut a = r0.clone();
        if apply(&mut a, &ops[first]) != Some(true) {
            return Err("first edit does not apply".into());
        }
        let sa = snap(&a);
        let mut held: Vec<(RootObject, Doc)> = vec![(r0, s0)];
        let look = |held: &Vec<(RootObject, Doc)>, what: &str| -> Result<(), String> {
            for (i, (r, s)) in held.iter().enumerate() {
                expect_eq(s, &snap(r), &format!("held document {} after {}", i, what))?;
            }
            Ok(())
        };
        save_history_file(&info, None, &a).map_err(|x| e("save", x))?;
        expect_eq(&sa, &snap(&a), "saved document")?;
        held.push((a.clone(), sa.clone()));
        look(&held, "a save")?;
        let mut b = a.clone();
        if apply(&mut b, ed2) == Some(true) {
            let sb = snap(&b);
            look(&held, "an edit of a copy after a save")?;
            save_history_file(&info, Some("t".into()), &b).map_err(|x| e("save", x))?;
            held.push((b, sb));
            look(&held, "a second save")?;
        }
        let hs = list_histories(&info).map_err(|x| e("list", x))?;
        for h in hs.list_files() {
            let r = load_history_file_data(&info, &h, true).map_err(|x| e("load", x))?;
            let s = snap(&r);
            held.push((r, s));
            look(&held, "a load")?;
        }
        // editing a loaded document leaves the cached and the other documents alone
        let n = held.len();
        for i in 0..n {
            let mut c = held[i].0.clone();
            apply(&mut c, ed2);
            look(&held, "an edit of a loaded document")?;
            cx.eval();
            cx.transitions += 4;
        }
        for h in hs.list_files() {
            let r = load_history_file_data(&info, &h, true).map_err(|x| e("load", x))?;
            let s = snap(&r);
            if !held.iter().any(|x| x.1 == s) {
                return Err("a second load of an entry gives a document that was never saved".into());
            }
        }
        cx.state(&held.iter().map(|x| x.1.clone()).collect::<Vec<_>>());
    }
    cx.drop_dir(&base);
    cx.outcome("fs");
    Ok(())
}
