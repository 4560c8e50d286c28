//! C24: the code generated for sources with every combination of member kind, declaration and place is compiled and
//! every function of it is driven and compared with access by name.
use crate::infra::*;
use dochy_core::json_dir_to_root;
use dochy_intf::{generate_accessor_from_json_dir, generate_interface};
use std::collections::HashSet;
use std::path::Path;
use std::process::Command;

pub fn check() -> Check {
    Check {
        id: "C24",
        level: "model_checking",
        rule: "sources in which every parameter type occurs in every null/undefined form, marked old and not, at the root, in tables, constant lists, mutable lists and lists nested in them up to depth 3, with references and enums in every form from every kind of item, lists undefinable and not, and names in every style. The code generated from each is compiled with a driver written from the declarations alone. The driver calls every reader in the initial state, every writer with every value of a boundary set (and then the readers), every in-place writer from every such state, every reference and enum writer with every key, and compares results and the whole document with access by name. A state is a distinct generated text; transitions are comparisons.",
        assumptions: &["the names of a source give distinct Rust identifiers that are not keywords"],
        cases: |_| vec!["drive".into(), "same text".into()],
        run,
        hang_s: 600,
        max_workers: 2,
    }
}

// ------------------------------------------------------------------ declarations

#[derive(Clone, Debug)]
enum K {
    /// type letter, 1 null + 2 undefined
    P(char, u8),
    /// rows: (key, old)
    Table(Obj, Vec<(String, bool)>),
    CList(Obj, usize),
    /// rows, undefinable; no rows: undefined
    MList(Obj, Option<usize>, bool),
    Cil(Obj, usize),
    Mil(Obj, Option<usize>, bool),
}

#[derive(Clone, Debug)]
struct M {
    name: String,
    k: K,
    old: bool,
}

#[derive(Clone, Debug, Default)]
struct Obj {
    ms: Vec<M>,
    /// (table, form, old)
    refs: Vec<(String, u8, bool)>,
    en: bool,
}

const TYPES: [char; 7] = ['b', 'i', 'f', 's', 'I', 'F', 'B'];

fn m(name: &str, k: K) -> M {
    M { name: name.into(), k, old: false }
}

fn old(x: M) -> M {
    M { old: true, ..x }
}

fn name(i: usize) -> String {
    match i % 6 {
        0 => format!("p{}", i),
        1 => format!("partName{}", i),
        2 => format!("part_name{}", i),
        3 => format!("_part{}", i),
        4 => format!("@part{}", i),
        _ => format!("x{}Y_z", i),
    }
}

/// every type in every form, old and not
fn params(from: usize, olds: bool) -> Vec<M> {
    let mut v = vec![];
    for (a, t) in TYPES.iter().enumerate() {
        for vt in 0..4u8 {
            for o in 0..(if olds { 2 } else { 1 }) {
                let i = from + v.len();
                // the style of the name goes through all of them for every type and form
                v.push(M { name: name(i * 5 + a), k: K::P(*t, vt), old: o == 1 });
            }
        }
    }
    v
}

fn obj(ms: Vec<M>) -> Obj {
    Obj { ms, ..Obj::default() }
}

fn few(from: usize) -> Vec<M> {
    vec![m(&name(from), K::P('i', 0)), m(&name(from + 7), K::P('s', 1)), old(m(&name(from + 14), K::P('I', 3)))]
}

fn keys(l: &[&str], o: &[&str]) -> Vec<(String, bool)> {
    l.iter().map(|k| (k.to_string(), o.contains(k))).collect()
}

fn schemas() -> Vec<(&'static str, Vec<M>)> {
    let mut v = vec![];
    v.push(("root", params(0, true)));
    v.push(("constant", vec![m("tab", K::Table(obj(params(0, true)), keys(&["a", "second_row", "thirdRow", "Q"], &["thirdRow"]))), m("colList", K::CList(obj(params(200, true)), 3))]));
    v.push(("mutable", vec![m("mut_list", K::MList(obj(params(0, true)), Some(2), false)), m("undefList", K::MList(obj(params(600, false)), Some(1), true))]));
    // nesting
    let with = |mut a: Vec<M>, b: Vec<M>| {
        a.extend(b);
        obj(a)
    };
    v.push((
        "nested",
        vec![
            m("c1", K::CList(with(few(1), vec![m("c2", K::Cil(with(params(300, false), vec![m("c3", K::Cil(obj(few(40)), 2))]), 2)), old(m("d2", K::Cil(obj(few(90)), 1)))]), 2)),
            m("t1", K::Table(with(few(3), vec![m("tInner", K::Cil(with(few(9), vec![m("tDeep", K::Cil(obj(few(10)), 2))]), 2))]), keys(&["k1", "k2"], &[]))),
            m("l1", K::MList(with(few(4), vec![m("l2", K::Mil(with(params(300, false), vec![m("l3", K::Mil(obj(few(60)), Some(2), false))]), Some(2), false)), old(m("n2", K::Mil(obj(few(80)), Some(1), false)))]), Some(2), false)),
            m("u1", K::MList(with(few(5), vec![m("u2", K::Mil(with(few(70), vec![m("u3", K::Mil(obj(few(71)), Some(2), true)), m("u3no", K::Mil(obj(few(72)), None, true))]), Some(1), true)), m("u2No", K::Mil(obj(few(73)), None, true))]), Some(2), true)),
            m("v1", K::MList(with(few(6), vec![m("v2", K::Mil(obj(few(74)), Some(1), false))]), None, true)),
            old(m("o1", K::MList(obj(few(7)), Some(1), false))),
            old(m("o2", K::CList(obj(few(8)), 1))),
            old(m("o3", K::Table(obj(few(11)), keys(&["z"], &[])))),
            old(m("o4", K::MList(obj(few(12)), Some(1), true))),
            m("e1", K::MList(obj(few(13)), Some(0), false)),
            m("e2", K::CList(obj(few(14)), 0)),
        ],
    ));
    // references: a table per form, old and not
    let table = |n: &str| m(n, K::Table(obj(vec![m("v", K::P('i', 0))]), keys(&["a", "longKey", "last_key"], &["last_key"])));
    let tables: Vec<String> = (0..8).map(|i| ["t", "tabName", "tab_name", "@tab"][i % 4].to_string() + &format!("{}", i)).collect();
    let refs: Vec<(String, u8, bool)> = tables.iter().enumerate().map(|(i, t)| (t.clone(), (i % 4) as u8, i >= 4)).collect();
    let nest = |ms: Vec<M>| Obj { ms, refs: refs.clone(), en: false };
    let mut r: Vec<M> = tables.iter().map(|t| table(t)).collect();
    r.push(m("rt", K::Table(nest(few(1)), keys(&["x", "y"], &[]))));
    r.push(m("rc", K::CList(nest(vec![m("rc2", K::Cil(nest(few(3)), 2))]), 2)));
    r.push(m("rm", K::MList(nest(vec![m("rm2", K::Mil(nest(few(4)), Some(2), false))]), Some(2), false)));
    v.push(("references", r));
    let en = |ms: Vec<M>, k: usize| Obj { ms, refs: (0..k).map(|i| (tables[i].clone(), 1, i == 1)).collect(), en: true };
    let mut r: Vec<M> = tables[..3].iter().map(|t| table(t)).collect();
    r.push(m("et", K::Table(en(few(1), 3), keys(&["x", "y", "w"], &[]))));
    r.push(m("ec", K::CList(en(vec![m("ecIn", K::Cil(en(few(3), 2), 2))], 3), 3)));
    r.push(m("em_list", K::MList(en(vec![m("em2", K::Mil(en(few(4), 3), Some(3), false))], 3), Some(3), false)));
    r.push(m("eOne", K::MList(en(vec![], 1), Some(1), true)));
    v.push(("enums", r));
    // names: all of up to three letters that give distinct identifiers
    let pick = |len: usize, taken: &mut HashSet<String>| {
        let mut all: Vec<String> = ["a", "_", "@"].iter().map(|s| s.to_string()).collect();
        let mut from = 0;
        for _ in 1..len {
            let to = all.len();
            for i in from..to {
                for c in ["a", "b", "B", "1", "_"] {
                    let s = format!("{}{}", all[i], c);
                    all.push(s);
                }
            }
            from = to;
        }
        all.retain(|s| !snake(s).chars().all(|c| c == '_') && !["as"].contains(&snake(s).as_str()) && taken.insert(snake(s)) && taken.insert(camel(s)));
        all
    };
    let mut taken = HashSet::new();
    let lists = pick(2, &mut taken);
    let mut r: Vec<M> = lists.iter().enumerate().map(|(i, n)| m(n, match i % 3 {
        0 => K::MList(obj(vec![m("v", K::P('i', 0))]), Some(1), false),
        1 => K::CList(obj(vec![m("v", K::P('i', 0))]), 1),
        _ => K::Table(obj(vec![m("v", K::P('i', 0))]), keys(&["row"], &[])),
    })).collect();
    r.extend(pick(3, &mut taken).iter().map(|n| m(n, K::P('i', 0))));
    let row: Vec<(String, bool)> = pick(3, &mut HashSet::new()).into_iter().map(|n| (n, false)).collect();
    r.push(m("tab", K::Table(obj(vec![m("v", K::P('i', 0))]), row)));
    v.push(("names", r));
    v
}

// ------------------------------------------------------------------ the source's text

fn lit(t: char, c: usize) -> String {
    match t {
        'b' => format!("{}", c % 2 == 0),
        'i' => format!("{}", c as i64 * 37 - 100),
        'f' => format!("{}.5", c),
        's' => format!("\"s{}\"", c),
        'I' => format!("[\"IntArray\", {}, -{}]", c, c + 1),
        'F' => format!("[\"FloatArray\", {}.25, 3.5]", c),
        _ => format!("[\"Binary\", {}, 0, 255]", c % 256),
    }
}

fn empty(t: char, what: &str) -> String {
    let n = match t {
        'b' => "Bool",
        'i' => "Int",
        'f' => "Float",
        's' => "Str",
        'I' => "IntArray",
        'F' => "FloatArray",
        _ => "Binary",
    };
    format!("[\"{}\", {}]", n, what)
}

fn value(t: char, vt: u8, c: usize) -> String {
    match (vt, c % 4) {
        (1, 1) | (3, 2) => empty(t, "null"),
        (2, 1) | (3, 3) => empty(t, "undefined"),
        _ => lit(t, c),
    }
}

fn mark(vt: u8) -> &'static str {
    ["", "?", "!", "!?"][vt as usize]
}

struct Text {
    c: usize,
}

impl Text {
    fn next(&mut self) -> usize {
        self.c += 1;
        self.c
    }
    fn olds(v: Vec<&str>, out: &mut Vec<String>) {
        if !v.is_empty() {
            out.push(format!("Old : [{}]", v.iter().map(|s| format!("\"{}\"", s)).collect::<Vec<_>>().join(", ")));
        }
    }
    fn root(&mut self, ms: &[M]) -> String {
        let mut p = vec![];
        for x in ms {
            let (mk, t) = match &x.k {
                K::P(t, vt) => (mark(*vt), value(*t, *vt, self.next())),
                K::Table(o, ks) => {
                    let old: Vec<String> = ks.iter().filter(|k| k.1).map(|k| format!("\"{}\"", k.0)).collect();
                    let old = if old.is_empty() { String::new() } else { format!("[\"Old\", {}], ", old.join(", ")) };
                    let d = self.def(o);
                    let rows: Vec<String> = ks.iter().enumerate().map(|(i, k)| self.item(o, i, Some(&k.0))).collect();
                    ("", format!("[\"Table\", {}[{}], {}]", old, d, rows.join(", ")))
                }
                K::CList(o, n) => {
                    let d = self.def(o);
                    ("", self.list("CList", &format!("[{}]", d), o, *n))
                }
                K::MList(o, n, u) => {
                    let d = self.def(o);
                    (if *u { "!" } else { "" }, match n {
                        Some(n) => self.list("MList", &format!("[{}]", d), o, *n),
                        None => self.list("MList", &format!("[{}]", d), o, 0),
                    })
                }
                _ => unreachable!(),
            };
            p.push(format!("\"{}{}\" : {}", x.name, mk, t));
        }
        Text::olds(ms.iter().filter(|x| x.old).map(|x| x.name.as_str()).collect(), &mut p);
        format!("{{ {} }}", p.join(",\n  "))
    }
    fn list(&mut self, tag: &str, def: &str, o: &Obj, n: usize) -> String {
        let mut v = vec![format!("\"{}\"", tag)];
        if !def.is_empty() {
            v.push(def.to_string());
        }
        for i in 0..n {
            v.push(self.item(o, i, None));
        }
        format!("[{}]", v.join(", "))
    }
    fn def(&mut self, o: &Obj) -> String {
        let mut p = vec![];
        for x in &o.ms {
            let (mk, t) = match &x.k {
                K::P(t, vt) => (mark(*vt), value(*t, *vt, self.next())),
                K::Cil(o, _) => ("", format!("[\"CilDef\", [{}]]", self.def(o))),
                K::Mil(o, _, u) => (if *u { "!" } else { "" }, format!("[\"MilDef\", [{}]]", self.def(o))),
                _ => unreachable!(),
            };
            p.push(format!("\"{}{}\" : {}", x.name, mk, t));
        }
        Text::olds(o.ms.iter().filter(|x| x.old).map(|x| x.name.as_str()).collect(), &mut p);
        if !o.refs.is_empty() {
            let mut q = vec![];
            for (i, (t, vt, _)) in o.refs.iter().enumerate() {
                let d = match (o.en, vt) {
                    (true, _) | (_, 1) => "null",
                    (_, 2) => "undefined",
                    (_, 3) => ["null", "undefined"][i % 2],
                    _ => "\"a\"",
                };
                q.push(format!("\"{}{}\" : {}", t, mark(*vt), d));
            }
            Text::olds(o.refs.iter().filter(|x| x.2).map(|x| x.0.as_str()).collect(), &mut q);
            p.push(format!("{} : {{ {} }}", if o.en { "Enum" } else { "Ref" }, q.join(", ")));
        }
        format!("{{ {} }}", p.join(", "))
    }
    fn item(&mut self, o: &Obj, k: usize, id: Option<&str>) -> String {
        let mut p = vec![];
        if let Some(id) = id {
            p.push(format!("ID : \"{}\"", id));
        }
        for x in &o.ms {
            match &x.k {
                // the second item keeps the defaults
                K::P(t, vt) => {
                    let c = self.next();
                    if k != 1 {
                        p.push(format!("\"{}\" : {}", x.name, value(*t, *vt, c)));
                    }
                }
                K::Cil(o, n) => {
                    let l = self.list("Cil", "", o, *n);
                    p.push(format!("\"{}\" : {}", x.name, l));
                }
                K::Mil(o, Some(n), _) => {
                    let l = self.list("Mil", "", o, *n);
                    p.push(format!("\"{}\" : {}", x.name, l));
                }
                K::Mil(_, None, _) => p.push(format!("\"{}\" : [\"__InnerMutUndefined\"]", x.name)),
                _ => unreachable!(),
            }
        }
        if o.en {
            let t = &o.refs[k % o.refs.len()].0;
            p.push(format!("Enum : {{ {} : \"{}\" }}", t, ["a", "longKey", "last_key"][k % 3]));
        } else if !o.refs.is_empty() && k != 1 {
            let q: Vec<String> = o.refs.iter().enumerate().map(|(i, r)| format!("{} : \"{}\"", r.0, ["a", "longKey", "last_key"][(i + k) % 3])).collect();
            p.push(format!("Ref : {{ {} }}", q.join(", ")));
        }
        format!("{{ {} }}", p.join(", "))
    }
}

// ------------------------------------------------------------------ the driver's text

fn snake(s: &str) -> String {
    let mut r = String::new();
    for (i, c) in s.chars().enumerate() {
        if i == 0 && c == '@' {
            r.push_str("at");
        } else if i > 0 && c.is_ascii_uppercase() {
            r.push('_');
            r.push(c.to_ascii_lowercase());
        } else {
            r.push(c.to_ascii_lowercase());
        }
    }
    r
}

fn camel(s: &str) -> String {
    let mut r = String::new();
    let mut up = true;
    for (i, c) in s.chars().enumerate() {
        if i == 0 && c == '@' {
            r.push_str("At");
            up = false;
        } else if i > 0 && c == '_' {
            up = true;
        } else {
            r.push(if up { c.to_ascii_uppercase() } else { c });
            up = false;
        }
    }
    r
}

fn func(n: &str, old: bool) -> String {
    snake(n) + if old { "_old" } else { "" }
}

fn formed(t: &str, vt: u8) -> String {
    match vt {
        0 => t.into(),
        1 => format!("NullOr<{}>", t),
        2 => format!("UndefOr<{}>", t),
        _ => format!("Qv<{}>", t),
    }
}

fn rust(t: char) -> &'static str {
    match t {
        'b' => "bool",
        'i' => "i64",
        'f' => "f64",
        's' => "String",
        'I' => "Vec<i64>",
        'F' => "Vec<f64>",
        _ => "Vec<u8>",
    }
}

struct Place {
    /// expressions for the item, for reading and for writing
    get: String,
    set: Option<String>,
    at: String,
    what: String,
}

struct Code {
    out: String,
    n: usize,
    calls: u64,
}

impl Code {
    fn put(&mut self, s: String) {
        // small functions compile faster
        self.out += &format!("fn f{}(c: &mut C) {{\n    {}\n}}\n", self.n, s);
        self.n += 1;
    }
    fn param(&mut self, p: &Place, x: &M, t: char, vt: u8) {
        let f = func(&x.name, x.old);
        let r = formed(&if "sIFB".contains(t) { format!("&{}", rust(t)) } else { rust(t).to_string() }, vt);
        let get = format!("&|g: &RootIntf| ty::<{}>({}.{}()).tv()", r, p.get, f);
        let def = format!("&|g: &RootIntf| ty::<{}>({}.{}_def_val()).tv()", r, p.get, f);
        let what = format!("{}.{}", p.what, f);
        let mut s = format!("c.read(\"{}\", {}, \"{}\", {}, {});", what, p.at, x.name, get, def);
        self.calls += 2;
        if let Some(set) = &p.set {
            s += &format!("\n    c.write(\"{}\", {}, \"{}\", '{}', {}, {}, {}, &|g: &mut RootIntf, v: &V| {}.set_{}(<{}>::fv(v)));", what, p.at, x.name, t, vt, get, def, set, f, formed(rust(t), vt));
            self.calls += 1;
            if "sIFB".contains(t) {
                s += &format!("\n    c.poke(\"{}\", {}, \"{}\", '{}', {}, {}, &|g: &mut RootIntf| ty::<{}>({}.{}_mut()).poke());", what, p.at, x.name, t, vt, get, formed(&format!("&mut {}", rust(t)), vt), set, f);
                self.calls += 1;
            }
        }
        self.put(s);
    }
    fn object(&mut self, p: &Place, o: &Obj, stem: &str, path: &[(String, String)]) {
        for x in &o.ms {
            let f = func(&x.name, x.old);
            match &x.k {
                K::P(t, vt) => self.param(p, x, *t, *vt),
                K::Cil(o, n) => self.constant(&format!("{}.{}()", p.get, f), &format!("{}CItem", camel(&x.name)), o, *n, &x.name, &format!("{}.{}", p.what, f), path),
                K::Mil(o, n, u) => self.mutable(p, &f, o, *n, *u, &x.name, path),
                _ => unreachable!(),
            }
        }
        let keys = [("a", "A"), ("longKey", "LongKey"), ("last_key", "LastKeyOld")];
        if o.en {
            let e = format!("{}Enum", camel(stem));
            let arms: Vec<String> = o.refs.iter().map(|r| format!("{}::{}(p) => (\"{}\", ty::<{}CItem>(p).v().tv())", e, camel(&r.0), r.0, camel(&r.0))).collect();
            let sets: Vec<String> = match &p.set {
                None => vec![],
                Some(set) => o.refs.iter().flat_map(|r| keys.iter().map(move |k| format!("(\"{}\", \"{}\", &|g: &mut RootIntf| {}.set_enum({}Kind::{}({}TableID::{})))", r.0, k.0, set, camel(stem), camel(&r.0), camel(&r.0), k.1))).collect(),
            };
            self.calls += 2 + p.set.is_some() as u64;
            self.put(format!(
                "c.enumeration(\"{} enum\", {}, &|g: &RootIntf| {}.get_enum_ids(), &|g: &RootIntf| match {}.get_enum() {{ {} }}, &[{}]);",
                p.what,
                p.at,
                p.get,
                p.get,
                arms.join(", "),
                sets.join(", ")
            ));
            return;
        }
        for (t, vt, old) in &o.refs {
            let f = func(t, *old);
            let item = format!("{}CItem", camel(t));
            let id = formed("&String", *vt);
            let to = format!("ty::<{}>({}.ref_{}())", formed(&item, *vt), p.get, f);
            let to = if *vt == 0 { format!("{}.v().tv()", to) } else { format!("{}.map(|p| p.v()).tv()", to) };
            let mut sets = vec![];
            if let Some(set) = &p.set {
                for k in keys.iter() {
                    let v = format!("{}TableID::{}", camel(t), k.1);
                    let v = match vt {
                        0 => v,
                        1 => format!("NullOr::Val({})", v),
                        2 => format!("UndefOr::Val({})", v),
                        _ => format!("Qv::Val({})", v),
                    };
                    sets.push(format!("(Qv::Val(\"{}\"), &|g: &mut RootIntf| {}.set_ref_{}({}))", k.0, set, f, v));
                }
                let no: &[(&str, &str)] = match vt {
                    0 => &[],
                    1 => &[("Null", "NullOr::Null")],
                    2 => &[("Undefined", "UndefOr::Undefined")],
                    _ => &[("Null", "Qv::Null"), ("Undefined", "Qv::Undefined")],
                };
                for (q, v) in no {
                    sets.push(format!("(Qv::{}, &|g: &mut RootIntf| {}.set_ref_{}({}))", q, set, f, v));
                }
            }
            self.calls += 2 + p.set.is_some() as u64;
            self.put(format!(
                "c.reference(\"{}.ref_{}\", {}, \"{}\", &|g: &RootIntf| ty::<{}>({}.ref_id_{}()).tv(), &|g: &RootIntf| {}, &[{}]);",
                p.what,
                f,
                p.at,
                t,
                id,
                p.get,
                f,
                to,
                sets.join(", ")
            ));
        }
    }
    fn cat(path: &[(String, String)]) -> String {
        format!("At::C(&[{}])", path.iter().map(|(n, k)| format!("(\"{}\", \"{}\")", n, k)).collect::<Vec<_>>().join(", "))
    }
    fn mat(path: &[(String, String)]) -> String {
        format!("At::M(&[{}])", path.iter().map(|(n, k)| format!("(\"{}\", {})", n, k)).collect::<Vec<_>>().join(", "))
    }
    fn constant(&mut self, list: &str, item: &str, o: &Obj, n: usize, name: &str, what: &str, path: &[(String, String)]) {
        self.calls += 1;
        self.put(format!("let g = RootIntf::new(c.src.clone()); let n = (ty::<CListConst<{}>>({}).len(), {}.iter().count()); c.clist(\"{}\", n, {});", item, list, list, what, n));
        for i in 0..n {
            let mut q = path.to_vec();
            q.push((name.to_string(), i.to_string()));
            let get = if i % 2 == 0 { format!("{}.value({})", list, i) } else { format!("{}.iter().nth({}).unwrap()", list, i) };
            self.object(&Place { get, set: None, at: Code::cat(&q), what: format!("{}[{}]", what, i) }, o, name, &q);
        }
    }
    fn mutable(&mut self, p: &Place, f: &str, o: &Obj, n: Option<usize>, undef: bool, name: &str, path: &[(String, String)]) {
        let set = p.set.as_ref().unwrap();
        let item = format!("{}MItem", camel(name));
        let l = format!("{}.{}()", p.get, f);
        let t = format!("ty::<{}>({})", if undef { format!("Option<MListConst<{}>>", item) } else { format!("MListConst<{}>", item) }, l);
        let ids = if undef { format!("{}.map(|l| l.iter().map(|x| x.0).collect())", t) } else { format!("Some({}.iter().map(|x| x.0).collect())", t) };
        let at = format!("&[{}]", path.iter().map(|(n, k)| format!("(\"{}\", {})", n, k)).collect::<Vec<_>>().join(", "));
        let what = format!("{}.{}", p.what, f);
        self.calls += 2;
        self.put(format!(
            "c.list(\"{}\", {}, \"{}\", &|g: &RootIntf| {}, &|g: &mut RootIntf| {{ ty::<MListMut<{}>>({}.{}_mut()); }}, &|g: &mut RootIntf| {{ {}.{}_mut().insert(); }});",
            what, at, name, ids, item, set, f, set, f
        ));
        for i in 0..n.unwrap_or(0) {
            let mut q = path.to_vec();
            q.push((name.to_string(), i.to_string()));
            let get = format!("{}{}.iter().nth({}).unwrap().1", l, if undef { ".unwrap()" } else { "" }, i);
            let set = Some(format!("{}.{}_mut().iter().nth({}).unwrap().1", set, f, i));
            self.object(&Place { get, set, at: Code::mat(&q), what: format!("{}[{}]", what, i) }, o, name, &q);
        }
    }
    fn root(&mut self, ms: &[M]) {
        let here = Place { get: "g".into(), set: Some("g".into()), at: "At::Root".into(), what: "root".into() };
        for x in ms {
            let f = func(&x.name, x.old);
            match &x.k {
                K::P(t, vt) => self.param(&here, x, *t, *vt),
                K::CList(o, n) => self.constant(&format!("g.{}()", f), &format!("{}CItem", camel(&x.name)), o, *n, &x.name, &f, &[]),
                K::MList(o, n, u) => self.mutable(&here, &f, o, *n, *u, &x.name, &[]),
                K::Table(o, ks) => {
                    let id = format!("{}TableID", camel(&x.name));
                    let var = |k: &(String, bool)| camel(&k.0) + if k.1 { "Old" } else { "" };
                    let of: Vec<String> = ks.iter().map(|k| format!("(\"{}\", {}::{}.to_num(), {}::{}.to_str())", k.0, id, var(k), id, var(k))).collect();
                    self.calls += 6;
                    self.put(format!(
                        "c.ids(\"{}\", &[{}], {}::len(), {}::metadata(), &|n| {}::from_num(n).to_str().to_string(), &|s| {}::from_str(s).map(|x| x.to_num()), &[{}]);",
                        f,
                        ks.iter().map(|k| format!("\"{}\"", k.0)).collect::<Vec<_>>().join(", "),
                        id,
                        id,
                        id,
                        id,
                        of.join(", ")
                    ));
                    for k in ks {
                        let q = [(x.name.clone(), k.0.clone())];
                        let t = format!("ty::<CTableConst<{}Table>>(g.{}())", camel(&x.name), f);
                        let ways = [
                            format!("ty::<CItemConst<{}CItem>>({}.{}())", camel(&x.name), t, func(&k.0, k.1)),
                            format!("ty::<CItemConst<{}CItem>>({}.get_by_id({}::{}))", camel(&x.name), t, id, var(k)),
                            format!("unsafe {{ {}.{}_us() }}", t, func(&k.0, k.1)),
                            format!("unsafe {{ {}.get_by_id_us({}::{}) }}", t, id, var(k)),
                        ];
                        for (i, get) in ways.iter().enumerate() {
                            self.calls += 1;
                            let place = Place { get: get.clone(), set: None, at: Code::cat(&q), what: format!("{}.{}", f, k.0) };
                            if i == 0 {
                                self.object(&place, o, &x.name, &q);
                            } else {
                                // the other ways to the row need no more than one member
                                let first: Vec<M> = o.ms.iter().filter(|x| matches!(x.k, K::P(..))).take(2).cloned().collect();
                                self.object(&place, &obj(first), &x.name, &q);
                            }
                        }
                    }
                }
                _ => unreachable!(),
            }
        }
    }
}

// ------------------------------------------------------------------ the check

fn write_source(dir: &Path, ms: &[M]) -> String {
    let t = Text { c: 0 }.root(ms);
    std::fs::create_dir_all(dir).unwrap();
    std::fs::write(dir.join("root.json5"), &t).unwrap();
    t
}

fn generated(dir: &Path) -> Result<String, String> {
    let r = json_dir_to_root(dir, false).map_err(|e| format!("reading the source: {}", e))?;
    guard(|| generate_interface(&r).to_string())
}

fn run(case: &str, cx: &mut Ctx) -> Result<(), String> {
    let dir = cx.fresh();
    let r = if case == "drive" { drive(&dir, cx) } else { same_text(&dir, cx) };
    cx.drop_dir(&dir);
    r
}

fn same_text(dir: &Path, cx: &mut Ctx) -> Result<(), String> {
    for (n, ms) in schemas() {
        let d = dir.join(n);
        write_source(&d, &ms);
        let a = generated(&d)?;
        cx.state(&a);
        for _ in 0..3 {
            cx.eval();
            cx.step();
            if generated(&d)? != a {
                return Err(format!("{}: two generations differ", n));
            }
        }
        // the same members in files, written in either order
        for back in [false, true] {
            let d = dir.join(format!("{}-{}", n, back));
            std::fs::create_dir_all(&d).unwrap();
            let f = dir.join("out.rs");
            let mut files = vec![];
            for (i, x) in ms.iter().enumerate() {
                let t = Text { c: i * 100 }.root(&[M { old: false, ..x.clone() }]);
                let (k, v) = t[2..t.len() - 2].split_once(" : ").unwrap();
                if matches!(x.k, K::Table(..) | K::CList(..) | K::MList(_, _, false)) && !x.old {
                    files.push((k.trim().trim_matches('"').to_string(), v.to_string()));
                }
            }
            if files.is_empty() {
                continue;
            }
            if back {
                files.reverse();
            }
            std::fs::write(d.join("root.json5"), "{}").unwrap();
            for (k, v) in &files {
                std::fs::write(d.join(format!("{}.json5", k)), v).unwrap();
            }
            let a = generated(&d)?;
            for _ in 0..3 {
                cx.eval();
                cx.step();
                let _ = std::fs::remove_file(&f);
                generate_accessor_from_json_dir(&d, &f, false).map_err(|e| format!("{}: writing the code: {}", n, e))?;
                if std::fs::read_to_string(&f).map_err(|e| e.to_string())? != a {
                    return Err(format!("{}: the file written differs from the code generated", n));
                }
            }
            let other = dir.join(format!("{}-text", n));
            if back {
                if std::fs::read_to_string(&other).unwrap() != a {
                    return Err(format!("{}: the code depends on the order in which the files were made", n));
                }
            } else {
                std::fs::write(&other, &a).unwrap();
            }
        }
    }
    Ok(())
}

fn drive(dir: &Path, cx: &mut Ctx) -> Result<(), String> {
    let root = root();
    let krate = dir.join("crate");
    std::fs::create_dir_all(krate.join("src/bin")).unwrap();
    let toml = std::fs::read_to_string(root.join("mc/Cargo.toml")).map_err(|e| format!("machinery: {}", e))?;
    std::fs::write(krate.join("Cargo.toml"), toml.replace("name = \"mc\"", "name = \"c24\"") + "\n[profile.dev.package.c24]\nopt-level = 0\ndebug = 0\n").unwrap();
    let lock = std::fs::read_to_string(root.join("mc/Cargo.lock")).map_err(|e| format!("machinery: {}", e))?;
    std::fs::write(krate.join("Cargo.lock"), lock.replace("name = \"mc\"", "name = \"c24\"")).unwrap();
    std::fs::create_dir_all(krate.join(".cargo")).unwrap();
    std::fs::copy(root.join("mc/.cargo/config.toml"), krate.join(".cargo/config.toml")).map_err(|e| format!("machinery: {}", e))?;
    let mut calls = 0;
    let all = schemas();
    for (n, ms) in &all {
        let d = dir.join("src").join(n);
        write_source(&d, ms);
        let text = generated(&d).map_err(|m| format!("{}: {}", n, m))?;
        cx.state(&text);
        std::fs::create_dir_all(krate.join("acc")).unwrap();
        std::fs::write(krate.join("acc").join(format!("{}.rs", n)), &text).unwrap();
        let mut c = Code { out: String::new(), n: 0, calls: 0 };
        c.root(ms);
        calls += c.calls;
        let all: String = (0..c.n).map(|i| format!("    f{}(c);\n", i)).collect();
        std::fs::write(
            krate.join("src/bin").join(format!("{}.rs", n)),
            format!(
                "#![allow(warnings)]\n#[path = \"{r}/mc/src/snap.rs\"]\nmod snap;\n#[path = \"{r}/mc/src/c24_prelude.rs\"]\nmod pre;\n#[path = \"{k}/acc/{n}.rs\"]\nmod acc;\nuse acc::*;\nuse pre::*;\nuse snap::V;\nuse dochy::core::intf::*;\nuse dochy::core::structs::*;\nimpl Acc for RootIntf {{\n    fn make(r: RootObject) -> Self {{\n        RootIntf::new(r)\n    }}\n    fn obj(&self) -> &RootObject {{\n        self.root_obj_ref()\n    }}\n}}\n{o}\nfn all(c: &mut C) {{\n{all}    let mut g = RootIntf::new(c.src.clone());\n    let a = format!(\"{{:?}}\", snap::snap(g.root_obj_ref_mut()));\n    c.eq(\"the document taken out\", format!(\"{{:?}}\", snap::snap(&g.deconstruct())), a);\n}}\nfn main() {{\n    pre::main::<RootIntf>(\"{s}\", all);\n}}\n",
                r = root.display(),
                k = krate.display(),
                n = n,
                o = c.out,
                all = all,
                s = d.display()
            ),
        )
        .unwrap();
    }
    cx.outcome("generated functions driven");
    for _ in 1..calls {
        cx.outcome("generated functions driven");
    }
    let o = Command::new("cargo").args(&["build", "--offline", "--bins"]).current_dir(&krate).output().map_err(|e| format!("machinery: cargo: {}", e))?;
    if !o.status.success() {
        let e = String::from_utf8_lossy(&o.stderr).to_string();
        let first: Vec<&str> = e.lines().skip_while(|l| !l.starts_with("error")).take(12).collect();
        if first.is_empty() || !e.contains("error[") && !e.contains("could not compile") {
            panic!("machinery: {}", e);
        }
        return Err(format!("the generated code does not compile with a driver written from the declarations: {}", first.join(" / ")));
    }
    let bin = std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| root.join("target").display().to_string());
    for (n, _) in &all {
        cx.beat();
        let o = Command::new(Path::new(&bin).join("debug").join(n)).output().map_err(|e| format!("machinery: {}", e))?;
        let out = String::from_utf8_lossy(&o.stdout).to_string();
        for l in out.lines() {
            if let Some(k) = l.strip_prefix("EVALS ") {
                let k: u64 = k.parse().unwrap();
                cx.evaluations += k;
                cx.transitions += k;
            }
        }
        if !o.status.success() {
            let err = String::from_utf8_lossy(&o.stderr).to_string();
            let l: Vec<&str> = out.lines().filter(|l| l.starts_with("FAIL")).chain(err.lines().filter(|l| l.contains("panicked"))).take(5).collect();
            return Err(format!("{}: {}", n, l.join(" / ")));
        }
    }
    Ok(())
}
