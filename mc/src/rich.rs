//! Documents with every type, form and place, and series of edits that visit every boundary value of each.
use crate::c03::*;
use crate::docs::*;
use crate::edits::*;
use crate::infra::*;
use crate::snap::*;
use dochy_core::structs::RootObject;
use dochy_fs::common::CurrentSrc;
use dochy_fs::filesys::*;
use dochy_fs::history::*;

const VALUES: usize = 4 * 28;
pub const HIGH: usize = VALUES + 6 + 3;
pub const SERIES: usize = HIGH + EDGES.len() + 1;

/// ids around which a width or a float's precision ends
pub const EDGES: [i64; 17] = [
    1 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 24, 1 << 31, (1 << 31) + 65536, 1 << 32, (1 << 32) + 256, 3 << 32, 1 << 40, 1 << 48, 1 << 53, (1 << 53) + 3, 1 << 56, 1 << 62, i64::MAX - 3,
];

/// Lists with ids just below an edge, and the edits that go over it.
fn high(k: usize) -> (String, Vec<Ed>) {
    let l = Loc::root("l");
    let mut v = vec![];
    let all = k == EDGES.len();
    let src = if all {
        let ids: Vec<i64> = (0..EDGES.len()).map(|i| EDGES[i * 5 % EDGES.len()]).collect();
        let items: Vec<String> = ids.iter().map(|i| format!("{{ ID : {} }}", i)).collect();
        format!("{{ y : 0, l : [\"MList\", [{{ x : 0, k : [\"MilDef\", [{{ z : 0 }}]] }}], {}, {{ ID : 1, k : [\"Mil\", {}] }}] }}", items.join(", "), items.join(", "))
    } else {
        let e = EDGES[k];
        format!(
            r#"{{ y : 0, l : ["MList", [{{ x : 0, k : ["MilDef", [{{ z : 0 }}]] }}], {{ ID : {}, x : 1 }}, {{ ID : 5 }}, {{ ID : {}, k : ["Mil", {{ ID : {} }}, {{ ID : 3, z : 1 }}] }}, {{ ID : 2, k : ["Mil", ["NextID", {}], {{}}] }}] }}"#,
            e - 2, e - 1, e - 1, e
        )
    };
    let n = if all { EDGES.len() + 1 } else { 4 };
    let x = |i: usize, y: i64| Ed::Set(Some((l.clone(), i)), "x".into(), V::I(y));
    if !all {
        v.extend([Ed::Ins(l.clone(), false), x(n, 7), Ed::Ins(l.clone(), true), x(0, 8), x(3, 9)]);
        v.extend([Ed::Ins(l.sub(2, "k"), false), Ed::Ins(l.sub(3, "k"), true), Ed::Ins(l.sub(4, "k"), true), Ed::Ins(l.sub(4, "k"), false), Ed::Ins(l.sub(0, "k"), false)]);
        v.extend([Ed::Set(Some((l.sub(3, "k"), 0)), "z".into(), V::I(4)), Ed::ToEnd(l.sub(3, "k"), 0, false), Ed::Rem(l.sub(3, "k"), 1)]);
    } else {
        v.extend((0..n).map(|i| x(i, 100 + i as i64)));
        v.extend((0..n - 1).map(|i| Ed::Set(Some((l.sub(n - 1, "k"), i)), "z".into(), V::I(i as i64))));
        v.extend([Ed::ToEnd(l.sub(n - 1, "k"), 0, false), Ed::Beside(l.sub(n - 1, "k"), 2, 5, true), Ed::Rem(l.sub(n - 1, "k"), 3)]);
    }
    v.extend([Ed::ToEnd(l.clone(), 0, false), Ed::ToEnd(l.clone(), 2, true), Ed::Beside(l.clone(), 3, 1, true), Ed::Beside(l.clone(), 0, 2, false)]);
    for i in (0..n).rev() {
        v.push(Ed::Rem(l.clone(), i / 2));
    }
    (src, v)
}

/// Source and edits of a series.
pub fn series(k: usize) -> (String, Vec<Ed>) {
    if k < VALUES {
        let at = &places()[k / 28];
        let (name, form) = &value_members()[k % 28];
        let mut v: Vec<Ed> = all_values(name, form).into_iter().map(|v| Ed::Set(at.clone(), name.clone(), v)).collect();
        for l in [0, 1, 300] {
            v.push(Ed::Init(at.clone(), name.clone(), l));
        }
        if "sjgy".contains(name.chars().next().unwrap()) {
            for h in [0, 2, 1] {
                v.push(Ed::InPlace(at.clone(), name.clone(), h));
            }
        }
        return (value_src(), v);
    }
    let k = k - VALUES;
    if k < 6 {
        let l = ["l", "e"][k / 3];
        let at = &ref_places(l)[k % 3];
        return (ref_src(), ref_edits(l, at));
    }
    if k >= 9 {
        return high(k - 9);
    }
    let at = [None, Some((Loc::root("l"), 0)), Some((Loc::root("l"), 1))][k - 6].clone();
    let mut v: Vec<Ed> = (0..140).map(|i| wide_edit(&at, 140, i)).collect();
    if k == 7 {
        v.extend((0..140).map(wide_ref));
    }
    (wide_src(140), v)
}

/// A document with the series applied step by step.
pub fn each_state(k: usize, mut r: RootObject, f: &mut dyn FnMut(&RootObject, &Ed) -> Result<(), String>) -> Result<(), String> {
    for e in series(k).1 {
        match apply(&mut r, &e) {
            Some(true) => {}
            Some(false) if matches!(e, Ed::InPlace(..)) => continue,
            _ => return Err(format!("{} was refused", short(&e))),
        }
        f(&r, &e).map_err(|m| format!("{}: {}", short(&e), m))?;
    }
    Ok(())
}

/// A chain of diffs through the series, and direct diffs over some links.
pub fn diffs(k: usize, cx: &mut Ctx) -> Result<(), String> {
    let text = series(k).0;
    let base = root_of(cx, &[("root.json5", &text)])?;
    let mut rebuilt = vec![root_of(cx, &[("root.json5", &text)])?];
    let mut real = vec![base.clone()];
    each_state(k, base, &mut |r, _| {
        let n = real.len();
        let s = snap(r);
        let mut c = rebuilt[n - 1].clone();
        patch(&mut c, &diff_of(&real[n - 1], r)?)?;
        cx.eval();
        cx.step();
        expect_eq(&s, &snap(&c), "state rebuilt through the chain of diffs")?;
        for i in [0, n.saturating_sub(2), n.saturating_sub(3), n / 2] {
            let mut x = rebuilt[i].clone();
            patch(&mut x, &diff_of(&real[i], r)?)?;
            cx.eval();
            cx.step();
            expect_eq(&s, &snap(&x), &format!("direct diff over {} links", n - i))?;
        }
        cx.state(&s);
        cx.outcome("series link");
        rebuilt.push(c);
        real.push(r.clone());
        Ok(())
    })
}

fn e<T, E: std::fmt::Display>(r: Result<T, E>, what: &str) -> Result<T, String> {
    r.map_err(|x| format!("{}: {}", what, x))
}

/// Every state of the series saved as a document file.
pub fn files(k: usize, cx: &mut Ctx) -> Result<(), String> {
    let (src, dir) = (cx.fresh(), cx.fresh());
    write_src(&src, &[("root.json5", &series(k).0)]);
    std::fs::create_dir_all(&dir).unwrap();
    let cur = CurrentSrc::SrcDir(src.clone());
    let info = e(SaveDirInfo::create(&dir, cur.clone()), "create")?;
    let mut saved: Vec<(std::path::PathBuf, Doc)> = vec![];
    each_state(k, info.clone_src_root(), &mut |r, _| {
        let s = snap(r);
        let p = e(save_dochy_file(&info, &format!("f{}", saved.len()), r, false), "save")?;
        cx.step();
        expect_eq(&s, &snap(r), "the document after saving it")?;
        saved.push((p, s));
        Ok(())
    })?;
    let info = e(unsafe { force_update_and_get_info_us(&dir, cur) }, "restart")?;
    for (p, s) in &saved {
        cx.eval();
        let r = e(load_dochy_file(p, &info, true), "load")?;
        expect_eq(s, &snap(&r), &format!("{:?} loaded", p.file_name()))?;
        cx.state(s);
        cx.outcome("series file");
    }
    cx.drop_dir(&dir);
    cx.drop_dir(&src);
    Ok(())
}

/// Every state of the series saved in a history.
pub fn history(k: usize, opt: crate::hist::Opt, cx: &mut Ctx) -> Result<(), String> {
    let (src, dir) = (cx.fresh(), cx.fresh());
    write_src(&src, &[("root.json5", &series(k).0)]);
    std::fs::create_dir_all(&dir).unwrap();
    let cur = CurrentSrc::SrcDir(src.clone());
    let info = e(HistoryInfo::create(&dir, cur.clone(), opt.build()), "create")?;
    let mut saved: Vec<(String, Doc)> = vec![];
    each_state(k, info.clone_src_root(), &mut |r, _| {
        let s = snap(r);
        let p = e(save_history_file(&info, None, r), "save")?;
        cx.step();
        expect_eq(&s, &snap(r), "the document after saving it")?;
        saved.push((p.calc_filename(), s));
        Ok(())
    })?;
    for cold in [false, true] {
        let info = if cold { e(unsafe { init_dochy_cache_us(&dir, cur.clone(), &opt.build()) }, "restart")? } else { info.clone() };
        let hs = e(list_histories(&info), "list")?;
        for f in hs.list_files() {
            let name = f.props().calc_filename();
            let s = &saved.iter().find(|x| x.0 == name).ok_or_else(|| format!("{} was not saved", name))?.1;
            cx.eval();
            let r = e(load_history_file_data(&info, &f, true), &format!("load of {}", name))?;
            expect_eq(s, &snap(&r), &format!("{} loaded", name))?;
            cx.state(s);
            cx.outcome("series entry");
        }
    }
    cx.drop_dir(&dir);
    cx.drop_dir(&src);
    Ok(())
}
