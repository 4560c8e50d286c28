//! C26: the JSON form of a document, read as a source, gives the document again.
use crate::c03::{places, start_doc, struct_ops, value_src};
use crate::docs::*;
use crate::edits::*;
use crate::infra::*;
use crate::snap::*;
use dochy_core::intf::member_desc::{get_member_desc, MemberDesc};
use dochy_core::root_to_json_new_default;
use dochy_core::structs::RootObject;
use std::collections::HashSet;

pub fn check() -> Check {
    Check {
        id: "C26",
        level: "model_checking",
        rule: "values: every member (7 types x 4 forms) of the root, of items and of nested items set to every value of the boundary set; structure: every sequence of edits up to the depth from a fresh and from a converted document (lists, nested lists, references, enums, undefined members); declarations: sources with old members, keys and references, empty lists, and every member kind; lists and nested lists whose explicit ids cross the integer width edges, edited step by step. The JSON text of each document is read as a source and compared: declarations, values, items, ids, order, references; and its own JSON text is the same. A state is a distinct observed document.",
        assumptions: &["numbers are finite", "a list that was undefined comes back empty"],
        cases,
        run,
        hang_s: 120,
        max_workers: 64,
    }
}

/// declarations not in the structure document
const DECLARATIONS: [&str; 8] = [
    r#"{}"#,
    r#"{ a : 1, b : "x", Old : ["a"] }"#,
    r#"{ t : ["Table", ["Old", "o"], [{ v : 0, w : 1, Old : ["w"] }], { ID : "a", v : 1 }, { ID : "o" }], l : ["MList", [{ v : 0, Ref : { t : "a" } }], {}], Old : ["l"] }"#,
    r#"{ t : ["Table", [{ v : 0 }], { ID : "a", v : 1 }], t2 : ["Table", [{ "n?" : ["Int", null], Ref : { t : "a" } }], { ID : "b" }, { ID : "long key \" \\", n : 5 }],
         l : ["MList", [{ v : 0, Ref : { t : "a", "t2?" : null, Old : ["t2"] } }], {}, { v : 3 }] }"#,
    r#"{ t : ["Table", [{ v : 0 }], { ID : "a", v : 1 }, { ID : "b" }], e : ["CList", [{ Enum : { "t?" : null } }], { Enum : { t : "a" } }, { Enum : { t : "b" } }],
         f : ["Table", [{ k : ["CilDef", [{ Enum : { "t?" : null } }]] }], { ID : "x", k : ["Cil", { Enum : { t : "b" } }] }] }"#,
    r#"{ c : ["CList", [{ v : 0, k : ["CilDef", [{ w : 0, "z!?" : 1, m : ["CilDef", [{ "s?" : "q" }]] }]] }], { v : 1, k : ["Cil", { w : 5, m : ["Cil", {}, { s : "r" }] }, {}] }, { v : 2 }], d : ["CList", [{}]], "m!" : ["MList", [{}]] }"#,
    r#"{ l : ["MList", ["NextID", 9], [{ v : 0, "i!" : ["MilDef", [{ x : 0, Old : ["x"] }]], j : ["MilDef", [{ y : ["FloatArray", 1] }]], Old : ["j"] }], { ID : 7, v : 1, i : ["Mil", { ID : 3, x : 4 }, { ID : 1 }] }, { ID : 2 }] }"#,
    r#"{ t : ["Table", [{ "v?" : 0 }], { ID : "a", v : 1 }], l : ["MList", [{ "a!" : 1, Ref : { "t!" : undefined } }], {}], m : ["MList", [{ Ref : { "t!?" : null } }], {}, { Ref : { t : "a" } }] }"#,
];

fn cases(t: Tier) -> Vec<String> {
    let mut v = vec![];
    for p in 0..4 {
        for m in 0..28 {
            v.push(format!("val {p} {m}"));
        }
    }
    for i in 0..DECLARATIONS.len() {
        v.push(format!("decl {i}"));
    }
    for k in crate::rich::HIGH..crate::rich::SERIES {
        v.push(format!("high {k}"));
    }
    for k in ["fresh", "converted"] {
        for i in 0..60 {
            v.push(format!("seq {k} {} {i}", t.pick(3, 4)));
        }
    }
    v
}

fn descs(l: &[MemberDesc]) -> Vec<String> {
    let mut v: Vec<String> = l
        .iter()
        .map(|m| {
            let c = m.child_descs().map(|c| {
                let mut k: Vec<String> = c.keys().iter().map(|k| format!("{} {}", k.key(), k.is_old())).collect();
                k.sort();
                let mut r: Vec<String> = c.refs().items().iter().map(|r| format!("{} {:?} {}", r.data_name(), r.var_type(), r.is_old())).collect();
                r.sort();
                format!("{:?} {:?} {} {:?}", descs(c.items()), k, c.refs().is_enum(), r)
            });
            format!("{} {:?} {:?} {} {:?}", m.name(), m.member_type(), m.var_type(), m.is_old(), c)
        })
        .collect();
    v.sort();
    v
}

/// undefined root lists come back empty
fn known(d: &Doc) -> Doc {
    let mut d = d.values_only();
    for l in d.mlists.values_mut() {
        if l.is_none() {
            *l = Some(List::default());
        }
    }
    d
}

fn finite(v: &V) -> bool {
    match v {
        V::F(b) => f64::from_bits(*b).is_finite(),
        V::FA(l) => l.iter().all(|b| f64::from_bits(*b).is_finite()),
        _ => true,
    }
}

fn judge(r: &RootObject, strict: bool, cx: &mut Ctx) -> Result<(), String> {
    cx.eval();
    cx.step();
    let s = snap(r);
    cx.state(&s);
    let json = |r: &RootObject| guard(|| root_to_json_new_default(r).map(|v| v.to_string_pretty()).map_err(|e| e.to_string())).and_then(|x| x).map_err(|e| format!("making the JSON: {}", e));
    let text = json(r)?;
    let d = cx.fresh();
    write_src(&d, &[("root.json5", &text)]);
    let back = guard(|| dochy_core::json_dir_to_root(&d, strict).map_err(|e| e.to_string())).and_then(|x| x).map_err(|e| format!("the JSON is not a source: {}: {}", e, cut(&text)))?;
    cx.drop_dir(&d);
    let (a, b) = (descs(&get_member_desc(r)), descs(&get_member_desc(&back)));
    if a != b {
        let x: Vec<&String> = a.iter().filter(|x| !b.contains(x)).collect();
        let y: Vec<&String> = b.iter().filter(|x| !a.contains(x)).collect();
        return Err(format!("declarations {:?} became {:?}: {}", x, y, cut(&text)));
    }
    expect_eq(&known(&s), &known(&snap(&back)), "the document read from the JSON").map_err(|e| format!("{}: {}", e, cut(&text)))?;
    if json(&back)? != text {
        return Err(format!("the document read from the JSON has another JSON: {}", cut(&text)));
    }
    Ok(())
}

fn cut(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ").chars().take(1500).collect()
}

fn run(c: &str, cx: &mut Ctx) -> Result<(), String> {
    let w: Vec<&str> = c.split(' ').collect();
    let num = |i: usize| w[i].parse::<usize>().unwrap();
    match w[0] {
        "val" => {
            let at = &places()[num(1)];
            let (name, form) = &value_members()[num(2)];
            let base = root_of(cx, &[("root.json5", &value_src())])?;
            for v in all_values(name, form).iter().filter(|v| finite(v)) {
                let mut r = base.clone();
                if apply(&mut r, &Ed::Set(at.clone(), name.clone(), v.clone())) != Some(true) {
                    return Err(format!("setting {} to {:?} was refused", name, v));
                }
                judge(&r, true, cx).map_err(|e| format!("{:?} {} = {:?}: {}", at, name, v, e))?;
            }
            Ok(())
        }
        "high" => {
            let base = root_of(cx, &[("root.json5", &crate::rich::series(num(1)).0)])?;
            judge(&base, false, cx)?;
            crate::rich::each_state(num(1), base, &mut |r, _| judge(r, false, cx))
        }
        "decl" => {
            let d = cx.fresh();
            write_src(&d, &[("root.json5", DECLARATIONS[num(1)])]);
            let r = dochy_core::json_dir_to_root(&d, false).map_err(|e| format!("machinery: source {} refused: {}", w[1], e))?;
            cx.drop_dir(&d);
            judge(&r, false, cx)
        }
        _ => {
            let base = start_doc(w[1], cx)?;
            let first = num(3);
            if first == 0 {
                judge(&base, false, cx)?;
            }
            let mut seen = HashSet::new();
            walk(&base, num(2), Some(first), &mut seen, &mut vec![], cx)
        }
    }
}

fn walk(r: &RootObject, depth: usize, first: Option<usize>, seen: &mut HashSet<u64>, trace: &mut Vec<String>, cx: &mut Ctx) -> Result<(), String> {
    if depth == 0 {
        return Ok(());
    }
    for (i, e) in struct_ops(&snap(r), false).iter().enumerate() {
        if first.map_or(false, |f| f != i % 60) {
            continue;
        }
        let mut n = r.clone();
        apply(&mut n, e);
        let h = hash_of(&(snap(&n), depth));
        if !seen.insert(h) {
            continue;
        }
        trace.push(format!("{:?}", e));
        judge(&n, false, cx).map_err(|m| format!("after {}: {}", trace.join(", "), m))?;
        walk(&n, depth - 1, None, seen, trace, cx)?;
        trace.pop();
    }
    Ok(())
}
