//! C03 and C04: a diff reproduces the edited document, and chains of diffs compose.
use crate::docs::*;
use crate::edits::*;
use crate::infra::*;
use crate::snap::*;
use dochy_core::structs::RootObject;
use dochy_diff::{apply_diff, get_diff};

pub fn check() -> Check {
    Check {
        id: "C03",
        level: "model_checking",
        rule: "pairs (state, later state) of documents: every value of every variable type and null/undefined form against every earlier state of that variable, at the root, in items and in nested items; every pair of edits of different variables; every pair of edits of references and enums of every form, in items and nested items; every sequence of structural edits up to the depth with a diff taken from every point of the sequence to its end; documents with many members for every set size and every member; lists whose ids reach the integer width edges by their number or by explicit ids, every state against every earlier one; undefined lists. A state is a distinct observed document.",
        assumptions: &["the later document is a copy of the earlier one with edits, as the diff requires", "boundary values stand for the values between them"],
        cases: cases3,
        run: run3,
        hang_s: 60,
        max_workers: 64,
    }
}

pub fn check4() -> Check {
    Check {
        id: "C04",
        level: "model_checking",
        rule: "every sequence of edits up to the depth over structural, value, reference and enum edits, from every start document; after each edit a diff is taken; the chain of diffs is applied to a document that has never seen the edits and compared at every link, every later edit is repeated on the rebuilt document, and every direct diff between two points of the sequence is compared with the chain; series of edits through every boundary value of every type, form and place, every reference and every member of a wide document. A state is a distinct observed document.",
        assumptions: &["edits are taken from the listed alphabet, list lengths stay below 5"],
        cases: cases4,
        run: run4,
        hang_s: 60,
        max_workers: 64,
    }
}

pub fn diff_of(a: &RootObject, b: &RootObject) -> Result<Vec<u8>, String> {
    get_diff(a, b).map_err(|e| format!("taking the diff failed: {}", e))
}

pub fn patch(a: &mut RootObject, d: &[u8]) -> Result<(), String> {
    apply_diff(a, &mut &d[..]).map_err(|e| format!("applying the diff failed: {}", e))
}

/// The diff from a to b applied to a copy of a shows as b; neither a nor b changes.
fn check_diff(a: &RootObject, b: &RootObject, sa: &Doc, sb: &Doc, cx: &mut Ctx) -> Result<(), String> {
    cx.eval();
    cx.transitions += 2;
    let d = diff_of(a, b)?;
    let mut c = a.clone();
    patch(&mut c, &d)?;
    expect_eq(sb, &snap(&c), "the document rebuilt from the diff")?;
    expect_eq(sa, &snap(a), "the earlier document after the diff")?;
    expect_eq(sb, &snap(b), "the later document after the diff")?;
    cx.state(sb);
    Ok(())
}

/// A diff with an unedited copy changes nothing.
fn check_same(a: &RootObject, sa: &Doc, cx: &mut Ctx) -> Result<(), String> {
    cx.eval();
    let b = a.clone();
    let d = diff_of(a, &b)?;
    let mut c = a.clone();
    patch(&mut c, &d)?;
    expect_eq(sa, &snap(&c), "the document after the diff with an unedited copy")
}

fn edit(a: &RootObject, e: &Ed) -> Option<RootObject> {
    let mut b = a.clone();
    match apply(&mut b, e) {
        Some(true) => Some(b),
        _ => None,
    }
}

// ---- value documents

pub fn value_src() -> String {
    let m = value_members_text();
    format!("{{ {m}, l : [\"MList\", [{{ {m}, k : [\"MilDef\", [{{ {m} }}]] }}], {{ k : [\"Mil\", {{}}, {{}}] }}, {{}}], zz : 1 }}")
}

pub fn places() -> Vec<At> {
    let l = Loc::root("l");
    vec![None, Some((l.clone(), 0)), Some((l.clone(), 1)), Some((l.sub(0, "k"), 1))]
}

/// wide documents: n variables, lists in between
pub fn wide_src(n: usize) -> String {
    wide_src_of(n, 0, false)
}

/// With `from`, the lists may be undefined, and those from that member on are left out if asked.
fn wide_src_of(n: usize, from: usize, without: bool) -> String {
    let mark = if from > 0 { "!" } else { "" };
    let mut tabs = String::new();
    let mut refs = vec![];
    for i in 0..n {
        tabs.push_str(&format!("tab{i} : [\"Table\", [{{ v : 0 }}], {{ ID : \"a\" }}, {{ ID : \"b\" }}], "));
        refs.push(format!("tab{i} : \"a\""));
    }
    let mut m = String::new();
    let mut mi = String::new();
    for i in 0..n {
        if i % 7 == 3 || i + 1 == n {
            if from > 0 && i + 1 >= from && without {
                continue;
            }
            m.push_str(&format!("\"m{i}{mark}\" : [\"MList\", [{{ y : 0 }}], {{ y : 1 }}], "));
            mi.push_str(&format!("\"m{i}{mark}\" : [\"MilDef\", [{{ y : 0 }}]], "));
        } else {
            m.push_str(&format!("i{i} : {i}, "));
            mi.push_str(&format!("i{i} : {i}, "));
        }
    }
    format!("{{ {tabs} {m} l : [\"MList\", [{{ {mi} Ref : {{ {} }} }}], {{}}, {{}}] }}", refs.join(", "))
}

/// the i-th member of a wide document or item changed
pub fn wide_edit(at: &At, n: usize, i: usize) -> Ed {
    if i % 7 == 3 || i + 1 == n {
        let l = match at {
            None => Loc::root(&format!("m{i}")),
            Some((l, p)) => l.sub(*p, &format!("m{i}")),
        };
        Ed::Ins(l, false)
    } else {
        Ed::Set(at.clone(), format!("i{i}"), V::I(-1000 - i as i64))
    }
}

pub fn wide_ref(i: usize) -> Ed {
    Ed::Ref(Some((Loc::root("l"), 0)), format!("tab{i}"), V::Id("b".into()))
}

/// references and enums of every null/undefined form, with short, empty, long and non-ASCII keys
pub fn ref_src() -> String {
    let keys = ref_keys();
    let mut t = String::new();
    for (n, _) in REFS.iter().chain(ENUMS.iter()) {
        let rows: Vec<String> = keys.iter().enumerate().map(|(i, k)| format!("{{ ID : \"{k}\", v : {i} }}")).collect();
        t.push_str(&format!("{n} : [\"Table\", [{{ v : 0 }}], {}], ", rows.join(", ")));
    }
    let list = |m: &[(&str, &str)]| m.iter().map(|(n, f)| format!("\"{n}{f}\" : {}", if f.contains('?') { "null".to_string() } else { format!("\"{}\"", keys[0]) })).collect::<Vec<_>>().join(", ");
    let r = format!("Ref : {{ {} }}", list(&REFS));
    let en = format!("Enum : {{ {} }}", list(&ENUMS));
    let k = &keys[0];
    format!(
        "{{ {t} l : [\"MList\", [{{ a : 0, {r}, k : [\"MilDef\", [{{ a : 0, {r} }}]] }}], {{ k : [\"Mil\", {{}}, {{}}] }}, {{}}],
            e : [\"MList\", [{{ a : 0, {en}, k : [\"MilDef\", [{{ a : 0, {en} }}]] }}], {{ Enum : {{ eq : \"{k}\" }}, k : [\"Mil\", {{ Enum : {{ eq : \"{k}\" }} }}, {{ Enum : {{ ex : \"{k}\" }} }}] }}, {{ Enum : {{ eq : \"{k}\" }} }}] }}"
    )
}

pub const REFS: [(&str, &str); 4] = [("rn", ""), ("rq", "?"), ("ru", "!"), ("rx", "!?")];
pub const ENUMS: [(&str, &str); 3] = [("eq", "?"), ("ex", "!?"), ("er", "?")];

pub fn ref_keys() -> Vec<String> {
    vec!["a".into(), "b".into(), "é日".into(), "x".repeat(127), "y".repeat(300)]
}

pub fn ref_places(l: &str) -> Vec<At> {
    let l = Loc::root(l);
    vec![Some((l.clone(), 0)), Some((l.clone(), 1)), Some((l.sub(0, "k"), 1))]
}

pub fn ref_edits(l: &str, at: &At) -> Vec<Ed> {
    let mut v = vec![];
    for k in ref_keys() {
        if l == "e" {
            for (n, _) in ENUMS {
                v.push(Ed::Enum(at.clone(), n.into(), k.clone()));
            }
        } else {
            for (n, _) in REFS {
                v.push(Ed::Ref(at.clone(), n.into(), V::Id(k.clone())));
            }
        }
    }
    if l != "e" {
        for (n, f) in REFS {
            for x in [V::Null, V::Undef] {
                if permits(f, &x) {
                    v.push(Ed::Ref(at.clone(), n.into(), x));
                }
            }
        }
    }
    v
}

// ---- structural edits

fn lists_of(s: &Doc) -> Vec<(Loc, Vec<&'static str>, usize, &'static str)> {
    // (list, nested list names of its items, length, a variable of its items)
    let mut v = vec![];
    let len = |n: &str| s.mlists.get(n).and_then(|l| l.as_ref()).map(|l| l.items.len()).unwrap_or(0);
    v.push((Loc::root("l"), vec!["inner"], len("l"), "x"));
    v.push((Loc::root("e"), vec![], len("e"), "w"));
    v.push((Loc::root("u"), vec!["v"], len("u"), "x"));
    v.push((Loc::root("empty"), vec![], len("empty"), "x"));
    v
}

/// Structural edits of a state of STRUCT_SRC. `small`: the core alphabet only.
pub fn struct_ops(s: &Doc, small: bool) -> Vec<Ed> {
    let mut v = vec![];
    let list_ops = |v: &mut Vec<Ed>, l: &Loc, n: usize, full: bool| {
        if n < 4 {
            v.push(Ed::Ins(l.clone(), false));
            if full {
                v.push(Ed::Ins(l.clone(), true));
            }
        }
        for i in 0..n {
            if full || i == 0 {
                v.push(Ed::Rem(l.clone(), i));
            }
        }
        if n > 1 {
            for i in 0..n {
                if i > 0 {
                    v.push(Ed::ToEnd(l.clone(), i, true));
                }
                if full && i + 1 < n && i > 0 {
                    v.push(Ed::ToEnd(l.clone(), i, false));
                }
            }
            if full && n > 2 {
                v.push(Ed::Beside(l.clone(), 0, n - 1, true));
                v.push(Ed::Beside(l.clone(), n - 1, 0, false));
            }
        }
    };
    for (l, nested, n, x) in lists_of(s) {
        let main = l.0 == "l";
        if s.mlists.get(&l.0).is_none() || (small && !main && l.0 != "e") {
            continue;
        }
        list_ops(&mut v, &l, n, main);
        for i in 0..n.min(if main { 3 } else { 1 }) {
            let at = Some((l.clone(), i));
            v.push(Ed::Set(at.clone(), x.to_string(), V::I(40 + i as i64)));
            for nn in &nested {
                let nl = l.sub(i, nn);
                let items = s.mlists[&l.0].as_ref().map(|q| &q.items[i].1);
                let k = items.and_then(|it| it.mils.get(*nn)).and_then(|q| q.as_ref()).map(|q| q.items.len()).unwrap_or(0);
                if small && i > 0 {
                    continue;
                }
                list_ops(&mut v, &nl, k, main && i == 0);
                if main && k > 0 {
                    v.push(Ed::Set(Some((nl.clone(), 0)), "y".into(), V::I(9)));
                    v.push(Ed::Ins(nl.sub(0, "deep"), false));
                    v.push(Ed::RemEnd(nl.sub(0, "deep"), true));
                }
            }
            if main {
                v.push(Ed::Ref(at.clone(), "t1".into(), V::Id("b".into())));
                v.push(Ed::Ref(at.clone(), "t2".into(), V::Id("c".into())));
                if !small {
                    v.push(Ed::Ref(at.clone(), "t2".into(), V::Null));
                    v.push(Ed::Ref(at.clone(), "t1".into(), V::Id("a".into())));
                }
            }
            if l.0 == "e" {
                v.push(Ed::Enum(at.clone(), "t1".into(), "b".into()));
                v.push(Ed::Enum(at.clone(), "t2".into(), "c".into()));
            }
        }
    }
    v.push(Ed::Set(None, "x".into(), V::I(77)));
    v.push(Ed::Set(None, "s".into(), V::Undef));
    v
}

pub fn start_doc(kind: &str, cx: &mut Ctx) -> Result<RootObject, String> {
    let new = root_of(cx, &[("root.json5", STRUCT_SRC)])?;
    match kind {
        "fresh" => Ok(new),
        // lists that do not exist in the old source are undefined after conversion
        "converted" => {
            let old = root_of(cx, &[("root.json5", STRUCT_OLD_SRC)])?;
            dochy_core::adjust_versions(new, old, true).map_err(|e| format!("conversion: {}", e))
        }
        _ => unreachable!(),
    }
}

fn cases3(t: Tier) -> Vec<String> {
    let mut v = vec![];
    for p in 0..4 {
        for m in 0..28 {
            v.push(format!("val {p} {m}"));
        }
        for m in 0..28 {
            v.push(format!("pair {p} {m}"));
        }
    }
    for l in ["l", "e"] {
        for p in 0..3 {
            for e in 0..28 {
                v.push(format!("ref {l} {p} {e}"));
            }
        }
    }
    for (n, ls) in [(13usize, 13usize), (24, 24), (66, 66), (72, 72), (140, 140)] {
        if n > 66 && !t.thorough() && n != 140 {
            continue;
        }
        for k in 0..ls {
            v.push(format!("wide {n} {k}"));
        }
    }
    for k in crate::rich::HIGH..crate::rich::SERIES {
        v.push(format!("high {k}"));
    }
    for n in [1, 2, 3, 62, 63, 64, 65, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258] {
        v.push(format!("ids {n}"));
    }
    for n in t.pick(vec![32768, 65537], vec![32767, 32768, 32769, 65535, 65536, 65537]) {
        v.push(format!("ids {n}"));
    }
    for k in ["fresh", "converted"] {
        v.push(format!("seq {k} {}", t.pick(3, 4)));
    }
    // spread the sequence exploration over workers: first edits
    let mut w = vec![];
    for c in v {
        if let Some(r) = c.strip_prefix("seq ") {
            for i in 0..60 {
                w.push(format!("seq {r} {i}"));
            }
        } else {
            w.push(c);
        }
    }
    w
}

fn run3(c: &str, cx: &mut Ctx) -> Result<(), String> {
    let w: Vec<&str> = c.split(' ').collect();
    let num = |i: usize| w[i].parse::<usize>().unwrap();
    match w[0] {
        "high" => {
            let base = root_of(cx, &[("root.json5", &crate::rich::series(num(1)).0)])?;
            let mut all = vec![(base.clone(), snap(&base))];
            crate::rich::each_state(num(1), base, &mut |r, _| {
                let s = snap(r);
                for (a, sa) in &all {
                    check_diff(a, r, sa, &s, cx)?;
                }
                all.push((r.clone(), s));
                Ok(())
            })
        }
        "val" => {
            let at = &places()[num(1)];
            let (name, form) = &value_members()[num(2)];
            let base = root_of(cx, &[("root.json5", &value_src())])?;
            let sb = snap(&base);
            check_same(&base, &sb, cx)?;
            let mut firsts: Vec<Option<V>> = vec![None];
            firsts.extend(few_values(name, form).into_iter().map(Some));
            for a in firsts {
                let from = match &a {
                    None => base.clone(),
                    Some(v) => edit(&base, &Ed::Set(at.clone(), name.clone(), v.clone())).ok_or_else(|| format!("setting {} to {:?} was refused", name, v))?,
                };
                let sf = snap(&from);
                let mut eds: Vec<Ed> = all_values(name, form).into_iter().map(|v| Ed::Set(at.clone(), name.clone(), v)).collect();
                for l in [0, 1, 300] {
                    eds.push(Ed::Init(at.clone(), name.clone(), l));
                }
                if "sjgy".contains(name.chars().next().unwrap()) {
                    for h in 0..3 {
                        eds.push(Ed::InPlace(at.clone(), name.clone(), h));
                    }
                }
                for e in eds {
                    let mut to = from.clone();
                    match apply(&mut to, &e) {
                        Some(true) => {}
                        Some(false) if matches!(e, Ed::InPlace(..)) => continue,
                        o => return Err(format!("{:?} after {:?} returned {:?}", short(&e), a, o)),
                    }
                    let st = snap(&to);
                    check_diff(&from, &to, &sf, &st, cx).map_err(|m| format!("{} {:?} from {:?} by {}: {}", name, at, a, short(&e), m))?;
                    cx.outcome("value diff");
                }
            }
            Ok(())
        }
        "pair" => {
            let at = &places()[num(1)];
            let (name, form) = &value_members()[num(2)];
            let base = root_of(cx, &[("root.json5", &value_src())])?;
            for v in few_values(name, form) {
                let a = edit(&base, &Ed::Set(at.clone(), name.clone(), v.clone())).ok_or("refused")?;
                let sa = snap(&a);
                check_same(&a, &sa, cx)?;
                for p2 in places() {
                    for (n2, f2) in value_members() {
                        for v2 in few_values(&n2, f2) {
                            let b = edit(&a, &Ed::Set(p2.clone(), n2.clone(), v2.clone())).ok_or("refused")?;
                            let sb = snap(&b);
                            check_diff(&base, &b, &snap(&base), &sb, cx).map_err(|m| format!("{} {:?} and {} {:?} set: {}", name, v, n2, v2, m))?;
                            check_diff(&a, &b, &sa, &sb, cx).map_err(|m| format!("{} {:?} then {} {:?} set: {}", name, v, n2, v2, m))?;
                            cx.outcome("pair diff");
                        }
                    }
                }
            }
            Ok(())
        }
        "ref" => {
            let at = &ref_places(w[1])[num(2)];
            let base = root_of(cx, &[("root.json5", &ref_src())])?;
            let sb = snap(&base);
            let eds = ref_edits(w[1], at);
            if eds.len() > 28 {
                return Err(format!("case list too short for {} edits", eds.len()));
            }
            let first = match eds.get(num(3)) {
                Some(x) => x,
                None => return Ok(()),
            };
            let a = edit(&base, first).ok_or_else(|| format!("{} was refused", short(first)))?;
            let sa = snap(&a);
            check_diff(&base, &a, &sb, &sa, cx).map_err(|m| format!("{}: {}", short(first), m))?;
            check_same(&a, &sa, cx)?;
            // every second edit, of references or enums
            for l2 in ["l", "e"] {
                for p2 in ref_places(l2) {
                    for second in ref_edits(l2, &p2) {
                        let b = edit(&a, &second).ok_or_else(|| format!("{} was refused", short(&second)))?;
                        let s2 = snap(&b);
                        check_diff(&base, &b, &sb, &s2, cx).and_then(|_| check_diff(&a, &b, &sa, &s2, cx)).map_err(|m| format!("{} then {}: {}", short(first), short(&second), m))?;
                        cx.outcome("reference diff");
                    }
                }
            }
            Ok(())
        }
        "wide" => wide(num(1), num(2), cx),
        "ids" => ids(num(1), cx),
        "seq" => {
            let base = start_doc(w[1], cx)?;
            let s = snap(&base);
            let ops = struct_ops(&s, false);
            let i = num(3);
            if i == 0 {
                check_same(&base, &s, cx)?;
                if ops.len() > 60 {
                    return Err(format!("case list too short for {} first edits", ops.len()));
                }
            }
            if let Some(e) = ops.get(i) {
                let mut states = vec![(base, s)];
                seq3(&mut states, &mut vec![], e, num(2), cx)?;
            }
            Ok(())
        }
        _ => unreachable!(),
    }
}

pub fn short(e: &Ed) -> String {
    let s = format!("{:?}", e);
    if s.len() > 120 {
        format!("{}...({})", s.chars().take(120).collect::<String>(), s.len())
    } else {
        s
    }
}

fn seq3(states: &mut Vec<(RootObject, Doc)>, path: &mut Vec<Ed>, e: &Ed, depth: usize, cx: &mut Ctx) -> Result<(), String> {
    let next = match edit(&states.last().unwrap().0, e) {
        Some(n) => n,
        None => return Ok(()),
    };
    path.push(e.clone());
    let sn = snap(&next);
    for (i, (a, sa)) in states.iter().enumerate() {
        check_diff(a, &next, sa, &sn, cx).map_err(|m| format!("diff from before edit {} to the end of {:?}: {}", i, path, m))?;
    }
    cx.outcome("sequence diff");
    cx.sample(|| format!("{:?}", path));
    states.push((next, sn));
    if path.len() < depth {
        for e in struct_ops(&states.last().unwrap().1.clone(), path.len() > 1) {
            seq3(states, path, &e, depth, cx)?;
        }
    }
    states.pop();
    path.pop();
    Ok(())
}

fn wide(n: usize, k: usize, cx: &mut Ctx) -> Result<(), String> {
    let base = root_of(cx, &[("root.json5", &wide_src(n))])?;
    let sb = snap(&base);
    let l = Loc::root("l");
    for at in [None, Some((l.clone(), 0)), Some((l.clone(), 1))] {
        // every pair with the k-th member
        let a = edit(&base, &wide_edit(&at, n, k)).ok_or("refused")?;
        let sa = snap(&a);
        check_diff(&base, &a, &sb, &sa, cx).map_err(|m| format!("member {} of {}: {}", k, n, m))?;
        for j in 0..n {
            if n > 100 && !cx.tier.thorough() && j % 8 > 0 && j % 8 < 7 {
                continue;
            }
            let b = edit(&a, &wide_edit(&at, n, j)).ok_or("refused")?;
            check_diff(&base, &b, &sb, &snap(&b), cx).map_err(|m| format!("members {} and {} of {}: {}", k, j, n, m))?;
        }
        // the first k+1 members, and every (k+1)-th member
        let mut p = base.clone();
        for j in 0..=k {
            apply(&mut p, &wide_edit(&at, n, j)).ok_or("refused")?;
        }
        check_diff(&base, &p, &sb, &snap(&p), cx).map_err(|m| format!("the first {} members of {}: {}", k + 1, n, m))?;
        let mut p = base.clone();
        for j in (0..n).filter(|j| j % (k + 1) == k) {
            apply(&mut p, &wide_edit(&at, n, j)).ok_or("refused")?;
        }
        check_diff(&base, &p, &sb, &snap(&p), cx).map_err(|m| format!("every {}th member of {}: {}", k + 1, n, m))?;
    }
    if k < n {
        let nr = n;
        let a = edit(&base, &wide_ref(k)).ok_or("refused")?;
        check_diff(&base, &a, &sb, &snap(&a), cx).map_err(|m| format!("reference {} of {}: {}", k, nr, m))?;
        for j in 0..nr {
            if n > 100 && !cx.tier.thorough() && j % 8 > 0 && j % 8 < 7 {
                continue;
            }
            let b = edit(&a, &wide_ref(j)).ok_or("refused")?;
            check_diff(&base, &b, &sb, &snap(&b), cx).map_err(|m| format!("references {} and {} of {}: {}", k, j, nr, m))?;
        }
        let mut p = base.clone();
        for j in 0..=k {
            apply(&mut p, &wide_ref(j)).ok_or("refused")?;
        }
        check_diff(&base, &p, &sb, &snap(&p), cx).map_err(|m| format!("the first {} references of {}: {}", k + 1, nr, m))?;
    }
    // lists which the document of an older source does not have are undefined
    if k % 7 == 3 || k + 1 == n {
        let new = root_of(cx, &[("root.json5", &wide_src_of(n, k + 1, false))])?;
        let old = root_of(cx, &[("root.json5", &wide_src_of(n, k + 1, true))])?;
        let conv = dochy_core::adjust_versions(new.clone(), old, true).map_err(|e| format!("conversion: {}", e))?;
        let (sn, sc) = (snap(&new), snap(&conv));
        let what = |m| format!("lists undefined from member {} of {} on: {}", k, n, m);
        check_diff(&new, &conv, &sn, &sc, cx).map_err(what)?;
        check_diff(&conv, &new, &sc, &sn, cx).map_err(what)?;
        for at in [Some((l.clone(), 0)), Some((l.clone(), 1))] {
            for j in 0..n {
                let b = match edit(&conv, &wide_edit(&at, n, j)) {
                    Some(b) => b,
                    None => continue,
                };
                let s = snap(&b);
                check_diff(&new, &b, &sn, &s, cx).and_then(|_| check_diff(&conv, &b, &sc, &s, cx)).map_err(what)?;
            }
        }
        cx.outcome("wide diff with undefined lists");
    }
    cx.outcome("wide diff");
    Ok(())
}

/// Lists with n ids: insertions, removals and moves at the edges.
fn ids(n: usize, cx: &mut Ctx) -> Result<(), String> {
    let base = root_of(cx, &[("root.json5", r#"{ l : ["MList", [{ x : 0, k : ["MilDef", [{ x : 0 }]] }]], y : 1 }"#)])?;
    let sb = snap(&base);
    let l = Loc::root("l");
    let mut full = base.clone();
    {
        let mut p = list(&mut full, &l).unwrap();
        for i in 0..n {
            let it = p.insert_last();
            if i % 2 == 0 {
                dochy_core::intf::mitem::set_int(it, "x", dochy_core::structs::Qv::Val(i as i64));
            }
        }
    }
    let sf = snap(&full);
    check_diff(&base, &full, &sb, &sf, cx).map_err(|m| format!("{} items inserted: {}", n, m))?;
    let mut eds = vec![Ed::Ins(l.clone(), false), Ed::Ins(l.clone(), true), Ed::Rem(l.clone(), 0), Ed::Rem(l.clone(), n - 1), Ed::Ins(l.sub(n - 1, "k"), false)];
    if n > 1 {
        eds.push(Ed::ToEnd(l.clone(), n - 1, true));
        eds.push(Ed::ToEnd(l.clone(), 0, false));
        eds.push(Ed::Beside(l.clone(), n / 2, 0, true));
    }
    for e in &eds {
        if let Some(b) = edit(&full, e) {
            let s = snap(&b);
            check_diff(&full, &b, &sf, &s, cx).map_err(|m| format!("{} items, {:?}: {}", n, e, m))?;
            if n < 1000 {
                check_diff(&base, &b, &sb, &s, cx).map_err(|m| format!("{} items and {:?} from scratch: {}", n, e, m))?;
            }
        }
    }
    // everything removed; the next id survives alone
    let mut gone = full.clone();
    for _ in 0..n {
        apply(&mut gone, &Ed::RemEnd(l.clone(), true));
    }
    let sg = snap(&gone);
    check_diff(&full, &gone, &sf, &sg, cx).map_err(|m| format!("{} items removed: {}", n, m))?;
    check_diff(&base, &gone, &sb, &sg, cx).map_err(|m| format!("{} items inserted and removed: {}", n, m))?;
    if n < 1000 {
        // reversed order
        let mut rev = full.clone();
        for i in 0..n {
            apply(&mut rev, &Ed::ToEnd(l.clone(), i, true));
        }
        check_diff(&full, &rev, &sf, &snap(&rev), cx).map_err(|m| format!("{} items reversed: {}", n, m))?;
        // every second removed, the rest rotated
        let mut h = full.clone();
        for i in 0..n / 2 {
            apply(&mut h, &Ed::Rem(l.clone(), i));
        }
        apply(&mut h, &Ed::ToEnd(l.clone(), 0, false));
        check_diff(&full, &h, &sf, &snap(&h), cx).map_err(|m| format!("{} items halved: {}", n, m))?;
    }
    cx.outcome("id diff");
    Ok(())
}

// ---- C04

fn value_ops() -> Vec<Ed> {
    let l = Loc::root("l");
    let mut v = vec![];
    for at in [None, Some((l.clone(), 0)), Some((l.sub(0, "k"), 1))] {
        for (n, f) in value_members() {
            if !["n", "x"].contains(&&n[1..]) {
                continue;
            }
            let vs = few_values(&n, f);
            let k = vs.len();
            v.push(Ed::Set(at.clone(), n.clone(), vs[k - 1].clone()));
            v.push(Ed::Set(at.clone(), n.clone(), vs[0].clone()));
        }
        for n in ["sn", "jx", "gn", "yx"] {
            v.push(Ed::InPlace(at.clone(), n.into(), 0));
        }
    }
    for (i, j) in [(0, true), (1, true)] {
        v.push(Ed::ToEnd(l.clone(), i, j));
    }
    v.push(Ed::Rem(l.clone(), 0));
    v.push(Ed::Ins(l.clone(), true));
    v
}

fn cases4(t: Tier) -> Vec<String> {
    let mut v = vec![];
    for k in ["fresh", "converted"] {
        for i in 0..60 {
            v.push(format!("struct {k} {} {i}", t.pick(3, 4)));
        }
    }
    for i in 0..value_ops().len() {
        v.push(format!("value {} {i}", t.pick(2, 3)));
    }
    for k in 0..crate::rich::SERIES {
        v.push(format!("series {k}"));
    }
    v
}

/// `real`: the document never saved, state by state; `reb`: rebuilt from diffs alone, state by state.
fn run4(c: &str, cx: &mut Ctx) -> Result<(), String> {
    let w: Vec<&str> = c.split(' ').collect();
    let num = |i: usize| w[i].parse::<usize>().unwrap();
    if w[0] == "series" {
        return crate::rich::diffs(num(1), cx);
    }
    let (base, base2, ops, depth, i): (RootObject, RootObject, fn(&Doc, usize) -> Vec<Ed>, usize, usize) = match w[0] {
        "struct" => (start_doc(w[1], cx)?, start_doc(w[1], cx)?, |s, d| struct_ops(s, d > 1), num(2), num(3)),
        _ => {
            let s = value_src();
            let b = root_of(cx, &[("root.json5", &s)])?;
            (b, root_of(cx, &[("root.json5", &s)])?, |_, _| value_ops(), num(1), num(2))
        }
    };
    let s = snap(&base);
    if let Some(e) = ops(&s, 0).get(i) {
        let mut real = vec![(base, s)];
        let mut reb = vec![base2];
        chain(&mut real, &mut reb, &mut vec![], e, ops, depth, cx)?;
    }
    Ok(())
}

fn chain(real: &mut Vec<(RootObject, Doc)>, reb: &mut Vec<RootObject>, path: &mut Vec<Ed>, e: &Ed, ops: fn(&Doc, usize) -> Vec<Ed>, depth: usize, cx: &mut Ctx) -> Result<(), String> {
    let n = real.len() - 1;
    let next = match edit(&real[n].0, e) {
        Some(x) => x,
        None => return Ok(()),
    };
    path.push(e.clone());
    let go = |cx: &mut Ctx| -> Result<(RootObject, Doc), String> {
        let sn = snap(&next);
        // the chain
        let d = diff_of(&real[n].0, &next)?;
        let mut r = reb[n].clone();
        patch(&mut r, &d)?;
        cx.eval();
        cx.transitions += 3;
        expect_eq(&sn, &snap(&r), "state rebuilt through the chain of diffs")?;
        // the same edit on the rebuilt document
        let r2 = edit(&reb[n], e).ok_or("the edit is refused on the rebuilt document")?;
        expect_eq(&sn, &snap(&r2), "the same edit on the rebuilt document")?;
        // a diff taken between rebuilt documents
        let d2 = diff_of(&reb[n], &r2)?;
        let mut r3 = reb[n].clone();
        patch(&mut r3, &d2)?;
        expect_eq(&sn, &snap(&r3), "diff of a rebuilt document")?;
        // direct diffs over several links
        for i in 0..n {
            let d = diff_of(&real[i].0, &next)?;
            let mut x = reb[i].clone();
            patch(&mut x, &d)?;
            cx.eval();
            cx.step();
            expect_eq(&sn, &snap(&x), &format!("direct diff over {} links", n + 1 - i))?;
        }
        cx.state(&sn);
        Ok((r, sn))
    };
    let (r, sn) = go(cx).map_err(|m| format!("{:?}: {}", path, m))?;
    cx.outcome("chain link");
    cx.sample(|| format!("{:?}", path));
    real.push((next, sn));
    reb.push(r);
    if path.len() < depth {
        for e in ops(&real.last().unwrap().1.clone(), path.len()) {
            chain(real, reb, path, &e, ops, depth, cx)?;
        }
    }
    real.pop();
    reb.pop();
    path.pop();
    Ok(())
}
