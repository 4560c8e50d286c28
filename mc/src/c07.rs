//! C07: typed accessors store and return exactly what was set.
use crate::docs::*;
use crate::edits::*;
use crate::infra::*;
use crate::snap::*;
use dochy_core::intf::{citem, mitem, root, table, CItemPtr, CListPtr, MItemPtr, MListPtr, RootObjectPtr};
use dochy_core::structs::{Qv, RootObject};

pub fn check() -> Check {
    Check {
        id: "C07",
        level: "model_checking",
        rule: "every variable of every type and null/undefined form, declared with a value, null or undefined as default, at the root, in items and in nested items: every typed setter with every value class from every earlier state of the variable, every getter of every type afterwards, and the whole document compared with a reference after each; every pair of sets of two variables; every reference and enum declaration with every target; every constant item with every declared value; every list and nested list, untouched, filled or undefined after a conversion. A state is a distinct observed document.",
        assumptions: &["boundary values stand for the values between them"],
        cases,
        run,
        hang_s: 60,
        max_workers: 64,
    }
}

#[derive(Clone, Copy)]
enum Who {
    R(RootObjectPtr),
    M(MItemPtr),
    C(CItemPtr),
}

fn qv<T>(q: Option<Qv<T>>, f: impl Fn(T) -> V) -> V {
    match q {
        None => V::Missing,
        Some(Qv::Null) => V::Null,
        Some(Qv::Undefined) => V::Undef,
        Some(Qv::Val(x)) => f(x),
    }
}

fn fb(v: &[f64]) -> V {
    V::FA(v.iter().map(|x| x.to_bits()).collect())
}

/// Reads with the getter of type `t` (kind 0 plain, 1 default, 2 immutable). None: there is no such getter.
fn get(w: Who, n: &str, t: char, kind: u8) -> Option<V> {
    macro_rules! g {
        ($f:ident, $m:expr) => {
            match w {
                Who::R(p) => qv(root::$f(p, n), $m),
                Who::M(p) => qv(mitem::$f(p, n), $m),
                Who::C(p) => qv(citem::$f(p, n), $m),
            }
        };
    }
    Some(match (t, kind) {
        ('b', 0) => g!(get_bool, V::B),
        ('b', 1) => g!(get_bool_def, V::B),
        ('i', 0) => g!(get_int, V::I),
        ('i', 1) => g!(get_int_def, V::I),
        ('f', 0) => g!(get_float, |x: f64| V::F(x.to_bits())),
        ('f', 1) => g!(get_float_def, |x: f64| V::F(x.to_bits())),
        ('s', 0) => g!(get_str, V::S),
        ('s', 1) => g!(get_str_def, |s: &String| V::S(s.clone())),
        ('s', 2) => g!(get_immutable_str, |s: &String| V::S(s.clone())),
        ('j', 0) => g!(get_int_array, V::IA),
        ('j', 1) => g!(get_int_array_def, |s: &Vec<i64>| V::IA(s.clone())),
        ('j', 2) => g!(get_immutable_int_array, |s: &Vec<i64>| V::IA(s.clone())),
        ('g', 0) => g!(get_float_array, |s: Vec<f64>| fb(&s)),
        ('g', 1) => g!(get_float_array_def, |s: &Vec<f64>| fb(s)),
        ('g', 2) => g!(get_immutable_float_array, |s: &Vec<f64>| fb(s)),
        ('y', 0) => g!(get_binary, V::Bin),
        ('y', 1) => g!(get_binary_def, |s: &Vec<u8>| V::Bin(s.clone())),
        ('y', 2) => g!(get_immutable_binary, |s: &Vec<u8>| V::Bin(s.clone())),
        _ => return None,
    })
}

/// Every getter of every type shows `cur` / `def` if it is of the variable's type, nothing otherwise.
fn check_getters(w: Who, n: &str, t: char, cur: &V, def: &V) -> Result<(), String> {
    for u in TYPES {
        for k in 0..3 {
            if let Some(got) = get(w, n, u, k) {
                let want = if u != t {
                    &V::Missing
                } else if k == 1 {
                    def
                } else {
                    cur
                };
                if got != *want {
                    return Err(format!("getter {} kind {} of {} gives {:?}, should give {:?}", u, k, n, cut(&got), cut(want)));
                }
            }
        }
    }
    Ok(())
}

fn cut(v: &V) -> String {
    format!("{:?}", v).chars().take(80).collect()
}

fn rp(r: &RootObject) -> RootObjectPtr {
    RootObjectPtr::new(r as *const RootObject as *mut RootObject)
}

/// A read-only pointer, taken without touching the document.
fn who(r: &RootObject, at: &At) -> Who {
    match at {
        None => Who::R(rp(r)),
        Some((l, p)) => {
            let mut cur: MListPtr<MItemPtr> = root::get_mlist_const(rp(r), &l.0).unwrap().unwrap();
            for (pos, n) in &l.1 {
                let it = nth_const(&cur, *pos);
                cur = mitem::get_mil_const(it, n).unwrap().unwrap();
            }
            Who::M(nth_const(&cur, *p))
        }
    }
}

fn nth_const(l: &MListPtr<MItemPtr>, n: usize) -> MItemPtr {
    let mut it = l.iter_const();
    for _ in 0..n {
        it.next_const();
    }
    it.next_const().unwrap().1
}

/// Members with a value, null or undefined as default.
fn decl(t: char, form: &str, d: usize) -> Option<(String, V)> {
    let ty = match t {
        'b' => "Bool",
        'i' => "Int",
        'f' => "Float",
        's' => "Str",
        'j' => "IntArray",
        'g' => "FloatArray",
        _ => "Binary",
    };
    match d {
        0 => None,
        1 if form.contains('?') => Some((format!("[\"{}\", null]", ty), V::Null)),
        2 if form.contains('!') => Some((format!("[\"{}\", undefined]", ty), V::Undef)),
        _ => None,
    }
}

/// (name, type, form, default, text)
fn members() -> Vec<(String, char, &'static str, V, String)> {
    let mut v = vec![];
    for (n, form) in value_members() {
        let t = n.chars().next().unwrap();
        v.push((n.clone(), t, form, default_value(t), format!("\"{}{}\" : {}", n, form, default_text(t))));
        for d in 1..3 {
            if let Some((txt, def)) = decl(t, form, d) {
                v.push((format!("{}{}", n, d), t, form, def, format!("\"{}{}{}\" : {}", n, d, form, txt)));
            }
        }
    }
    v
}

fn src() -> String {
    let m = members().into_iter().map(|x| x.4).collect::<Vec<_>>().join(", ");
    format!("{{ {m}, l : [\"MList\", [{{ {m}, k : [\"MilDef\", [{{ {m} }}]] }}], {{ k : [\"Mil\", {{}}, {{}}] }}, {{}}], c : [\"CList\", [{{ {m}, k : [\"CilDef\", [{{ {m} }}]] }}], {{ k : [\"Cil\", {{}}] }}], t : [\"Table\", [{{ {m} }}], {{ ID : \"a\" }}] }}")
}

fn places() -> Vec<At> {
    let l = Loc::root("l");
    vec![None, Some((l.clone(), 0)), Some((l.clone(), 1)), Some((l.sub(0, "k"), 1))]
}

fn cases(t: Tier) -> Vec<String> {
    let mut v = vec![];
    let n = members().len();
    for p in 0..4 {
        for m in 0..n {
            v.push(format!("set {p} {m}"));
            if t.thorough() || p != 2 {
                v.push(format!("pair {p} {m}"));
            }
        }
    }
    for m in 0..28 {
        v.push(format!("const {m}"));
    }
    for d in 0..4 {
        v.push(format!("ref {d}"));
    }
    v.push("enum".into());
    v.push("names".into());
    v.push("lists".into());
    v
}

/// The document after a value is stored.
fn with(d: &Doc, at: &At, n: &str, v: &V) -> Doc {
    let mut d = d.clone();
    let val = match at {
        None => d.vals.get_mut(n),
        Some((l, p)) => {
            let mut cur = d.mlists.get_mut(&l.0).unwrap().as_mut().unwrap();
            for (pos, nn) in &l.1 {
                cur = cur.items[*pos].1.mils.get_mut(nn).unwrap().as_mut().unwrap();
            }
            cur.items[*p].1.vals.get_mut(n)
        }
    }
    .unwrap();
    val.v = v.clone();
    val.unmod = false;
    d
}

fn letter(t: char) -> char {
    match t {
        'j' => 'I',
        'g' => 'F',
        'y' => 'B',
        c => c,
    }
}

fn initial(t: char, len: usize) -> V {
    match t {
        'b' => V::B(false),
        'i' => V::I(0),
        'f' => V::F(0),
        's' => V::S("".into()),
        'j' => V::IA(vec![0; len]),
        'g' => V::FA(vec![0; len]),
        _ => V::Bin(vec![0; len]),
    }
}

fn few_form(t: char, form: &str) -> Vec<V> {
    let mut v = few(t);
    for x in [V::Null, V::Undef] {
        if permits(form, &x) {
            v.push(x);
        }
    }
    v
}

fn run(c: &str, cx: &mut Ctx) -> Result<(), String> {
    let w: Vec<&str> = c.split(' ').collect();
    let num = |i: usize| w[i].parse::<usize>().unwrap();
    match w[0] {
        "set" => {
            let at = &places()[num(1)];
            let (n, t, form, def, _) = members()[num(2)].clone();
            let base = root_of(cx, &[("root.json5", &src())])?;
            let sb = snap(&base);
            // never set: every variable reads as its default
            for p in places() {
                for (n, t, _, def, _) in members() {
                    check_getters(who(&base, &p), &n, t, &def, &def)?;
                }
            }
            let mut starts = vec![(base.clone(), def.clone(), sb.clone())];
            for v in few_form(t, form) {
                let mut r = base.clone();
                if set(&mut r, at, &n, &v, letter(t)) != Some(true) {
                    return Err(format!("{} {:?} refuses {:?}", n, at, v));
                }
                let s = with(&sb, at, &n, &v);
                expect_eq(&s, &snap(&r), &format!("{} set to {:?}", n, v))?;
                starts.push((r, v, s));
            }
            for (start, cur, ss) in &starts {
                // every setter with every value, and null and undefined through every typed setter
                let mut tries: Vec<(char, V)> = values(t).into_iter().map(|v| (t, v)).collect();
                for u in TYPES {
                    if u != t {
                        tries.extend(few(u).into_iter().map(|v| (u, v)));
                    }
                    tries.push((u, V::Null));
                    tries.push((u, V::Undef));
                }
                for (u, v) in tries {
                    let mut r = start.clone();
                    let ok = set(&mut r, at, &n, &v, letter(u)).ok_or("no item")?;
                    let should = u == t && permits(form, &v);
                    cx.eval();
                    cx.step();
                    let what = format!("{} {:?} (now {:?}) set as {} to {}", n, at, cut(cur), u, cut(&v));
                    if ok != should {
                        return Err(format!("{}: returned {}", what, ok));
                    }
                    let want = if should { with(ss, at, &n, &v) } else { ss.clone() };
                    let got = snap(&r);
                    expect_eq(&want, &got, &what)?;
                    check_getters(who(&r, at), &n, t, if should { &v } else { cur }, &def).map_err(|m| format!("{}: {}", what, m))?;
                    cx.state(&got);
                    cx.outcome(if ok { "accepted" } else { "refused" });
                }
                for len in [0usize, 1, 5, 300] {
                    let mut r = start.clone();
                    if apply(&mut r, &Ed::Init(at.clone(), n.clone(), len)) != Some(true) {
                        return Err(format!("set_initial_value of {} refused", n));
                    }
                    expect_eq(&with(ss, at, &n, &initial(t, len)), &snap(&r), &format!("{} initialized with length {}", n, len))?;
                    cx.eval();
                }
                if "sjgy".contains(t) {
                    for how in 0..3u8 {
                        let mut r = start.clone();
                        let ok = apply(&mut r, &Ed::InPlace(at.clone(), n.clone(), how)).ok_or("no item")?;
                        let want = in_place_model(cur, how);
                        cx.eval();
                        if ok != want.is_some() {
                            return Err(format!("in-place edit {} of {} {:?}: {}", how, n, cut(cur), ok));
                        }
                        if let Some(v) = want {
                            expect_eq(&with(ss, at, &n, &v), &snap(&r), &format!("in-place edit {} of {}", how, n))?;
                        }
                    }
                }
            }
            Ok(())
        }
        "pair" => {
            let at = &places()[num(1)];
            let (n, t, form, _, _) = members()[num(2)].clone();
            let base = root_of(cx, &[("root.json5", &src())])?;
            let sb = snap(&base);
            for v in few_form(t, form) {
                let mut a = base.clone();
                set(&mut a, at, &n, &v, letter(t));
                let sa = with(&sb, at, &n, &v);
                for p2 in places() {
                    for (n2, t2, f2, _, _) in members() {
                        for v2 in few_form(t2, f2) {
                            let mut b = a.clone();
                            cx.eval();
                            cx.transitions += 2;
                            if set(&mut b, &p2, &n2, &v2, letter(t2)) != Some(true) {
                                return Err(format!("{} {:?} refuses {:?}", n2, p2, v2));
                            }
                            let s = snap(&b);
                            expect_eq(&with(&sa, &p2, &n2, &v2), &s, &format!("{} = {:?}, then {} = {:?}", n, v, n2, v2))?;
                            cx.state(&s);
                        }
                    }
                }
            }
            cx.outcome("pairs");
            Ok(())
        }
        "const" => constants(num(1), cx),
        "ref" => refs(num(1), cx),
        "enum" => enums(cx),
        "names" => names(cx),
        "lists" => lists(cx),
        _ => unreachable!(),
    }
}

fn in_place_model(v: &V, how: u8) -> Option<V> {
    fn e<T: Clone>(v: &[T], x: T, how: u8) -> Option<Vec<T>> {
        let mut v = v.to_vec();
        match how {
            0 => v.push(x),
            1 => v.clear(),
            _ => *v.last_mut()? = x,
        }
        Some(v)
    }
    Some(match v {
        V::S(s) => V::S(match how {
            0 => format!("{}+é", s),
            1 => "".into(),
            _ => format!("q{}", s),
        }),
        V::IA(v) => V::IA(e(v, -7, how)?),
        V::FA(v) => V::FA(e(v, (-0.5f64).to_bits(), how)?),
        V::Bin(v) => V::Bin(e(v, 200, how)?),
        _ => return None,
    })
}

/// Text of a value in a source.
pub fn text(v: &V, t: char) -> Option<String> {
    let ty = |x: &str| {
        let n = match t {
            'b' => "Bool",
            'i' => "Int",
            'f' => "Float",
            's' => "Str",
            'j' => "IntArray",
            'g' => "FloatArray",
            _ => "Binary",
        };
        format!("[\"{}\", {}]", n, x)
    };
    let list = |n: &str, v: Vec<String>| Some(format!("[\"{}\"{}]", n, v.iter().map(|s| format!(", {}", s)).collect::<String>()));
    let fl = |b: &u64| {
        let f = f64::from_bits(*b);
        if f.is_finite() {
            let s = format!("{:?}", f);
            Some(if s.contains('.') || s.contains('e') { s } else { format!("{}.0", s) })
        } else {
            None
        }
    };
    match v {
        V::B(b) => Some(b.to_string()),
        V::I(i) => Some(i.to_string()),
        V::F(b) => fl(b),
        V::S(s) => {
            if s.chars().any(|c| c < ' ' || c == '"' || c == '\\') {
                return None;
            }
            Some(format!("\"{}\"", s))
        }
        V::IA(a) => list("IntArray", a.iter().map(|i| i.to_string()).collect()),
        V::FA(a) => list("FloatArray", a.iter().map(fl).collect::<Option<Vec<_>>>()?),
        V::Bin(a) => list("Binary", a.iter().map(|i| i.to_string()).collect()),
        V::Null => Some(ty("null")),
        V::Undef => Some(ty("undefined")),
        _ => None,
    }
}

/// Items of constant lists, nested constant lists and tables show the declared values.
fn constants(m: usize, cx: &mut Ctx) -> Result<(), String> {
    let (n, form) = value_members()[m].clone();
    let t = n.chars().next().unwrap();
    let def = default_value(t);
    let vals: Vec<(V, String)> = all_values(&n, form)
        .into_iter()
        .filter_map(|v| {
            text(&v, t).map(|x| (v.clone(), x))
        })
        .filter(|(_, x)| x.len() < 70000)
        .collect();
    let mut items = String::new();
    let mut rows = String::new();
    for (i, (_, x)) in vals.iter().enumerate() {
        items.push_str(&format!(", {{ {n} : {x} }}"));
        rows.push_str(&format!(", {{ ID : \"id{i}\", {n} : {x} }}"));
    }
    let d = format!("\"{n}{form}\" : {}", default_text(t));
    let s = format!("{{ c : [\"CList\", [{{ {d}, k : [\"CilDef\", [{{ {d} }}]] }}], {{}}{items}, {{ k : [\"Cil\", {{}}{items}] }}], t : [\"Table\", [{{ {d} }}], {{ ID : \"none\" }}{rows}] }}");
    let r = root_of(cx, &[("root.json5", &s)])?;
    let p = rp(&r);
    let l: CListPtr<CItemPtr> = root::get_clist(p, "c").ok_or("no list")?;
    if l.len() != vals.len() + 2 {
        return Err(format!("constant list has {} items, not {}", l.len(), vals.len() + 2));
    }
    check_getters(Who::C(l.value(0)), &n, t, &def, &def)?;
    let k: CListPtr<CItemPtr> = citem::get_cil(l.value(vals.len() + 1), "k").ok_or("no nested list")?;
    if k.len() != vals.len() + 1 {
        return Err(format!("nested constant list has {} items", k.len()));
    }
    let empty: Option<CListPtr<CItemPtr>> = citem::get_cil(l.value(0), "k");
    if empty.map(|e| e.len()) != Some(0) {
        return Err("the nested list of an item without one is not empty".into());
    }
    let tab = root::get_table(p.def(), "t").ok_or("no table")?;
    check_getters(Who::C(table::get_value(tab, "none").ok_or("no entry")?), &n, t, &def, &def)?;
    for (i, (v, x)) in vals.iter().enumerate() {
        cx.eval();
        cx.step();
        cx.state(&(n.as_str(), v));
        let short: String = x.chars().take(60).collect();
        check_getters(Who::C(l.value(i + 1)), &n, t, v, &def).map_err(|m| format!("constant list item {}: {}", short, m))?;
        check_getters(Who::C(k.value(i + 1)), &n, t, v, &def).map_err(|m| format!("nested constant list item {}: {}", short, m))?;
        let e = table::get_value(tab, &format!("id{i}")).ok_or("no entry")?;
        check_getters(Who::C(e), &n, t, v, &def).map_err(|m| format!("table entry {}: {}", short, m))?;
    }
    if table::get_value(tab, "").is_some() || table::get_value(tab, "id").is_some() {
        return Err("a table finds entries it does not have".into());
    }
    cx.outcome("constants");
    Ok(())
}

fn target(p: Option<Qv<CItemPtr>>) -> V {
    qv(p, |c| qv(citem::get_int(c, "v"), V::I))
}

/// References: forms x targets, from every earlier value, in items and nested items.
fn refs(d: usize, cx: &mut Ctx) -> Result<(), String> {
    let form = ["", "?", "!", "!?"][d];
    let mut defs = vec!["\"a\""];
    if form.contains('?') {
        defs.push("null");
    }
    if form.contains('!') {
        defs.push("undefined");
    }
    for def in defs {
        let s = format!(
            "{{ t1 : [\"Table\", [{{ v : 0 }}], [\"Old\", \"old1\"], {{ ID : \"a\", v : 1 }}, {{ ID : \"b\", v : 2 }}, {{ ID : \"old1\", v : 9 }}], t2 : [\"Table\", [{{ v : 0 }}], {{ ID : \"a\", v : 3 }}, {{ ID : \"c\", v : 4 }}],
            l : [\"MList\", [{{ x : 0, k : [\"MilDef\", [{{ y : 0, Ref : {{ \"t1{form}\" : {def}, t2 : \"c\" }} }}]], Ref : {{ \"t1{form}\" : {def}, t2 : \"a\" }} }}], {{ k : [\"Mil\", {{}}, {{}}] }}, {{ Ref : {{ t1 : \"b\", t2 : \"c\" }} }}],
            c : [\"CList\", [{{ Ref : {{ \"t1{form}\" : {def}, t2 : \"a\" }} }}], {{}}, {{ Ref : {{ t1 : \"b\" }} }}] }}"
        );
        let base = root_of(cx, &[("root.json5", &s)])?;
        let val = |q: &V| match q {
            V::Id(s) => match s.as_str() {
                "a" => V::I(1),
                "b" => V::I(2),
                "old1" => V::I(9),
                _ => V::Missing,
            },
            o => o.clone(),
        };
        let dv = match def {
            "null" => V::Null,
            "undefined" => V::Undef,
            _ => V::Id("a".into()),
        };
        // constant items
        let l: CListPtr<CItemPtr> = root::get_clist(rp(&base), "c").ok_or("no list")?;
        for (i, want) in [(0, dv.clone()), (1, V::Id("b".into()))] {
            let got = target(citem::get_ref(l.value(i), "t1"));
            if got != val(&want) {
                return Err(format!("reference of constant item {}: {:?}, declared {:?}", i, got, want));
            }
            if target(citem::get_ref(l.value(i), "t2")) != V::I(3) {
                return Err("second reference of a constant item".into());
            }
        }
        let lp = Loc::root("l");
        for at in [Some((lp.clone(), 0)), Some((lp.clone(), 1)), Some((lp.sub(0, "k"), 1))] {
            let mut tries: Vec<(&str, V)> = vec![];
            for n in ["t1", "t2", "t3", "x", "", "l"] {
                for v in [V::Id("a".into()), V::Id("b".into()), V::Id("c".into()), V::Id("old1".into()), V::Id("nosuch".into()), V::Id("".into()), V::Null, V::Undef] {
                    tries.push((n, v));
                }
            }
            for (n1, v1) in &tries {
                for (n2, v2) in &tries {
                    let mut r = base.clone();
                    let mut want = snap(&r);
                    for (n, v) in [(n1, v1), (n2, v2)] {
                        let ok = apply(&mut r, &Ed::Ref(at.clone(), n.to_string(), v.clone())).ok_or("no item")?;
                        let should = match (*n, v) {
                            ("t1", V::Id(s)) => ["a", "b", "old1"].contains(&s.as_str()),
                            ("t2", V::Id(s)) => ["a", "c"].contains(&s.as_str()),
                            ("t1", q) => permits(form, q),
                            _ => false,
                        };
                        cx.eval();
                        cx.step();
                        if ok != should {
                            return Err(format!("reference {} (declared {}{}) of {:?} set to {:?}: {}", n, form, def, at, v, ok));
                        }
                        if should {
                            let (lo, p) = at.as_ref().unwrap();
                            let mut cur = want.mlists.get_mut(&lo.0).unwrap().as_mut().unwrap();
                            for (pos, nn) in &lo.1 {
                                cur = cur.items[*pos].1.mils.get_mut(nn).unwrap().as_mut().unwrap();
                            }
                            cur.items[*p].1.refs.insert(n.to_string(), v.clone());
                        }
                        let got = snap(&r);
                        expect_eq(&want, &got, &format!("reference {} of {:?} set to {:?}", n, at, v))?;
                        cx.state(&got);
                        if should && *n == "t1" {
                            if let Who::M(p) = who(&r, &at) {
                                let g = target(mitem::get_ref(p, "t1"));
                                if g != val(v) {
                                    return Err(format!("reference set to {:?} resolves to {:?}", v, g));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    cx.outcome("references");
    Ok(())
}

fn enums(cx: &mut Ctx) -> Result<(), String> {
    let s = r#"{ t1 : ["Table", [{ v : 0 }], { ID : "a", v : 1 }, { ID : "b", v : 2 }], t2 : ["Table", [{ v : 0 }], { ID : "a", v : 3 }, { ID : "c", v : 4 }], t3 : ["Table", [{ v : 0 }], { ID : "a" }],
      e : ["MList", [{ x : 0, k : ["MilDef", [{ y : 0, Enum : { "t1?" : null, "t2?" : null } }]], Enum : { "t1?" : null, "t2?" : null } }], { Enum : { t1 : "a" }, k : ["Mil", { Enum : { t2 : "c" } }, { Enum : { t1 : "b" } }] }, { Enum : { t2 : "c" } }],
      c : ["CList", [{ Enum : { "t1?" : null, "t2?" : null } }], { Enum : { t1 : "b" } }, { Enum : { t2 : "a" } }] }"#;
    let base = root_of(cx, &[("root.json5", s)])?;
    let l: CListPtr<CItemPtr> = root::get_clist(rp(&base), "c").ok_or("no list")?;
    for (i, w) in [("t1", "b"), ("t2", "a")].iter().enumerate() {
        if citem::get_enum(l.value(i)) != Some((w.0.to_string(), w.1.to_string())) {
            return Err(format!("enum of constant item {}", i));
        }
    }
    let lp = Loc::root("e");
    let mut tries = vec![];
    for n in ["t1", "t2", "t3", "x", ""] {
        for v in ["a", "b", "c", "nosuch", ""] {
            tries.push((n, v));
        }
    }
    for at in [Some((lp.clone(), 0)), Some((lp.clone(), 1)), Some((lp.sub(0, "k"), 0)), Some((lp.sub(0, "k"), 1))] {
        for a in &tries {
            for b in &tries {
                for c in &tries {
                    let mut r = base.clone();
                    let mut want = snap(&r);
                    for (n, v) in [a, b, c] {
                        let ok = apply(&mut r, &Ed::Enum(at.clone(), n.to_string(), v.to_string())).ok_or("no item")?;
                        let should = (*n == "t1" && ["a", "b"].contains(v)) || (*n == "t2" && ["a", "c"].contains(v));
                        cx.step();
                        if ok != should {
                            return Err(format!("enum of {:?} set to {} {}: {}", at, n, v, ok));
                        }
                        if should {
                            let (lo, p) = at.as_ref().unwrap();
                            let mut cur = want.mlists.get_mut(&lo.0).unwrap().as_mut().unwrap();
                            for (pos, nn) in &lo.1 {
                                cur = cur.items[*pos].1.mils.get_mut(nn).unwrap().as_mut().unwrap();
                            }
                            let it = &mut cur.items[*p].1;
                            for x in it.refs.values_mut() {
                                *x = V::Null;
                            }
                            it.refs.insert(n.to_string(), V::Id(v.to_string()));
                            it.en = Some((n.to_string(), v.to_string()));
                        }
                    }
                    cx.eval();
                    let got = snap(&r);
                    expect_eq(&want, &got, &format!("enums {:?} {:?} {:?} of {:?}", a, b, c, at))?;
                    cx.state(&got);
                }
            }
        }
    }
    cx.outcome("enums");
    Ok(())
}

/// Names that are not variables, and variables asked for as lists.
/// Every list of the document with its undefined state, the nested ones too.
fn each_list(d: &mut Doc, f: &mut dyn FnMut(&Loc, &mut Option<List>)) {
    fn inner(l: &Loc, v: &mut Option<List>, f: &mut dyn FnMut(&Loc, &mut Option<List>)) {
        f(l, v);
        if let Some(v) = v {
            for (i, (_, it)) in v.items.iter_mut().enumerate() {
                for (n, m) in it.mils.iter_mut() {
                    inner(&l.sub(i, n), m, f);
                }
            }
        }
    }
    for (n, v) in d.mlists.iter_mut() {
        inner(&Loc::root(n), v, f);
    }
}

/// Lists that were never touched, of documents and items of every kind, and lists that are undefined after a conversion.
fn lists(cx: &mut Ctx) -> Result<(), String> {
    const DEEP: &str = r#"[{ y : 0, d : ["MilDef", [{ z : 0 }]], "e!" : ["MilDef", [{ z : 0 }]] }]"#;
    let def = format!("[{{ x : 0, k : [\"MilDef\", {DEEP}], \"u!\" : [\"MilDef\", {DEEP}] }}]");
    let some = r#"{}, { k : ["Mil", {}], u : ["Mil", {}, {}] }"#;
    let lists = format!("a : [\"MList\", {def}], \"b!\" : [\"MList\", {def}], \"f!\" : [\"MList\", {def}, {some}]");
    let new = root_of(cx, &[("root.json5", &format!("{{ c : [\"MList\", {def}, {some}], {lists}, z : 1 }}"))])?;
    let old = root_of(cx, &[("root.json5", r#"{ c : ["MList", [{ x : 0, k : ["MilDef", [{ y : 0 }]] }], { k : ["Mil", {}] }, {}], z : 1 }"#)])?;
    let conv = dochy_core::adjust_versions(new.clone(), old, true).map_err(|e| e.to_string())?;
    // a list that may be undefined is so only after the conversion
    let mut work = vec![(new, false), (conv, true)];
    let mut n = 0;
    while let Some((r, converted)) = work.pop() {
        let before = snap(&r);
        cx.state(&before);
        let mut all = vec![];
        let mut undef = vec![];
        each_list(&mut before.clone(), &mut |l, v| {
            all.push((l.clone(), v.as_ref().map_or(0, |v| v.next)));
            if v.is_none() {
                undef.push(l.clone());
            }
        });
        if !converted && !undef.is_empty() {
            return Err(format!("{:?} read as undefined, nothing was set", undef));
        }
        if converted && n == 0 && undef.len() != 5 {
            return Err(format!("{:?} are undefined after the conversion", undef));
        }
        for (l, next) in all {
            let mut c = r.clone();
            cx.eval();
            cx.step();
            if apply(&mut c, &Ed::Ins(l.clone(), false)) != Some(true) {
                return Err(format!("insertion in {:?} was refused", l));
            }
            let after = snap(&c);
            let mut want = before.clone();
            let mut item = None;
            each_list(&mut after.clone(), &mut |k, v| {
                if *k == l {
                    item = v.as_ref().and_then(|v| v.items.last().cloned());
                }
            });
            let item = item.ok_or_else(|| format!("no item in {:?}", l))?;
            if item.0 != next || item.1.mils.values().any(|m| *m != Some(List::default())) {
                return Err(format!("new item of {:?}: {:?}", l, item));
            }
            each_list(&mut want, &mut |k, v| {
                if *k == l {
                    let v = v.get_or_insert(List::default());
                    v.items.push(item.clone());
                    v.next = next + 1;
                }
            });
            expect_eq(&want, &after, &format!("insertion in {:?}", l))?;
            expect_eq(&before, &snap(&r), &format!("insertion in {:?} of a copy", l))?;
            if n < 40 {
                work.push((c, converted));
            }
        }
        n += 1;
    }
    cx.outcome("lists");
    Ok(())
}

fn names(cx: &mut Ctx) -> Result<(), String> {
    let s = r#"{ i : 1, sn : "s", t : ["Table", [{ v : 0 }], { ID : "a" }], c : ["CList", [{ v : 0 }], {}], l : ["MList", [{ i : 0, k : ["MilDef", [{ i : 0 }]] }], {}] }"#;
    let base = root_of(cx, &[("root.json5", s)])?;
    let sb = snap(&base);
    let at = Some((Loc::root("l"), 0));
    for (at, bad, lists, values) in [(None, vec!["", "I", "i ", "v", "nosuch", "t", "c", "l", "k"], vec!["l"], vec!["i", "sn"]), (at, vec!["", "nosuch", "k", "l", "v", "sn"], vec!["k"], vec!["i"])] {
        for n in bad {
            let mut r = base.clone();
            for u in TYPES {
                for k in 0..3 {
                    if let Some(v) = get(who(&r, &at), n, u, k) {
                        cx.eval();
                        if v != V::Missing {
                            return Err(format!("{:?} {} reads as {:?}", at, n, v));
                        }
                    }
                }
                let mut vs = few(u);
                vs.push(V::Null);
                vs.push(V::Undef);
                for v in vs {
                    cx.eval();
                    cx.step();
                    if set(&mut r, &at, n, &v, letter(u)) != Some(false) {
                        return Err(format!("{:?} {} accepts {:?}", at, n, v));
                    }
                    expect_eq(&sb, &snap(&r), &format!("setting {} to {:?}", n, v))?;
                }
            }
            if apply(&mut r, &Ed::Init(at.clone(), n.to_string(), 1)) != Some(false) {
                return Err(format!("{:?} {} is initialized", at, n));
            }
            expect_eq(&sb, &snap(&r), &format!("initializing {}", n))?;
            if !lists.contains(&n) {
                let mut r = base.clone();
                let l: Option<MListPtr<MItemPtr>> = match &at {
                    None => root::get_mlist_mut(RootObjectPtr::new(&mut r), n),
                    Some(a) => mitem::get_mil_mut(item(&mut r, a).unwrap(), n),
                };
                if l.is_some() {
                    return Err(format!("{:?} {} is given out as a list", at, n));
                }
            }
        }
        for n in values {
            let mut r = base.clone();
            let l: Option<MListPtr<MItemPtr>> = match &at {
                None => root::get_mlist_mut(RootObjectPtr::new(&mut r), n),
                Some(a) => mitem::get_mil_mut(item(&mut r, a).unwrap(), n),
            };
            if l.is_some() {
                return Err(format!("variable {} is given out as a list", n));
            }
            let c: Option<CListPtr<CItemPtr>> = root::get_clist(rp(&r), n);
            if at.is_none() && (c.is_some() || root::get_table(rp(&r).def(), n).is_some()) {
                return Err(format!("variable {} is given out as a constant list or table", n));
            }
        }
    }
    cx.outcome("names");
    Ok(())
}
