//! C11: converting old data to a new source.
use crate::c03::{diff_of, patch};
use crate::c07::text;
use crate::docs::*;
use crate::edits::{few, item, list, nth, permits, set, At, Loc};
use crate::infra::*;
use crate::snap::*;
use dochy_core::adjust_versions;
use dochy_core::intf::mitem;
use dochy_core::structs::{Qv, RootObject};
use dochy_fs::common::CurrentSrc;
use dochy_fs::filesys::*;
use dochy_fs::history::*;
use std::collections::BTreeMap;

pub fn check() -> Check {
    Check {
        id: "C11",
        level: "model_checking",
        rule: "a source with values of every form, references, enum, nested and undefiable lists at every level, and every single evolution of it (adding a variable of every type and form, removing, changing form, default or type of every variable, reference and list, making a list of a variable or a variable of a list, at every level; marking as old; table, constant list and initial item changes; reordering): every ordered pair of such sources times every edit state of the old data (untouched, all set, null, undefined, restructured lists, references, emptied, itself converted, nested lists undefined), compared with the rules applied to what the old data showed; the pairs with the first source also through document files and history entries saved under the one and loaded under the other, with and without validation. A state is a distinct converted document.",
        assumptions: &["a table or constant list does not become a variable or mutable list of the same name, nor the reverse"],
        cases,
        run,
        hang_s: 60,
        max_workers: 64,
    }
}

#[derive(Clone)]
pub struct Va {
    pub n: String,
    pub ty: char,
    pub suf: &'static str,
    pub def: V,
}
#[derive(Clone)]
pub struct Re {
    pub t: String,
    pub suf: &'static str,
    pub def: V,
}
#[derive(Clone)]
pub struct Li {
    pub n: String,
    pub undef: bool,
    pub obj: Obj,
    /// initial items: 0 none, 1 a bare and a full one, 2 a full one
    pub init: u8,
}
#[derive(Clone, Default)]
pub struct Obj {
    pub vals: Vec<Va>,
    pub refs: Vec<Re>,
    pub lists: Vec<Li>,
    pub en: bool,
    /// members and references marked as old
    pub old: Vec<String>,
}
#[derive(Clone)]
pub struct Src {
    pub obj: Obj,
    pub tables: BTreeMap<&'static str, Vec<&'static str>>,
    pub clist: u8,
    pub rev: bool,
    /// the ids "b" of this table and of the ones before it are marked as old
    pub old_ids: usize,
}

/// letters of `edits` for the letters of snapshots
fn el(ty: char) -> char {
    match ty {
        'I' => 'j',
        'F' => 'g',
        'B' => 'y',
        c => c,
    }
}

const TYS: [char; 7] = ['b', 'i', 'f', 's', 'I', 'F', 'B'];
const SUFS: [&str; 4] = ["", "?", "!", "!?"];

fn default_a(ty: char) -> V {
    crate::edits::default_value(el(ty))
}

fn set_value(ty: char) -> V {
    let d = default_a(ty);
    few(el(ty)).into_iter().find(|v| *v != d).unwrap()
}

/// another default than default_a and set_value
fn default_b(ty: char, suf: &str) -> V {
    if suf.contains('?') {
        return V::Null;
    }
    match ty {
        'b' => V::B(false),
        'i' => V::I(77),
        'f' => V::F(7.5f64.to_bits()),
        's' => V::S("other".into()),
        'I' => V::IA(vec![7]),
        'F' => V::FA(vec![7.5f64.to_bits()]),
        _ => default_a(ty),
    }
}

pub fn va(n: &str, ty: char, suf: &'static str) -> Va {
    Va { n: n.into(), ty, suf, def: default_a(ty) }
}
pub fn re(t: &str, suf: &'static str, def: V) -> Re {
    Re { t: t.into(), suf, def }
}
pub fn id(s: &str) -> V {
    V::Id(s.into())
}

pub fn base() -> Src {
    let deep = Obj { vals: vec![va("a", 'i', "!"), va("v", 'f', "")], ..Obj::default() };
    let h = Obj { vals: vec![va("a", 's', ""), va("g", 'i', "!")], ..Obj::default() };
    let k = Obj {
        vals: vec![va("a", 's', ""), va("m", 'i', "!"), va("b", 'I', "?")],
        refs: vec![re("t2", "", id("a"))],
        lists: vec![Li { n: "d".into(), undef: false, obj: deep, init: 0 }, Li { n: "h".into(), undef: true, obj: h, init: 0 }],
        en: false,
        old: vec![],
    };
    let o = Obj { vals: vec![va("a", 'f', "!")], ..Obj::default() };
    let l = Obj {
        vals: vec![va("a", 'i', ""), va("b", 's', "?"), va("c", 'B', "!"), va("q", 'F', "!?")],
        refs: vec![re("t1", "", id("a")), re("t2", "?", V::Null), re("t4", "!", id("a"))],
        lists: vec![Li { n: "k".into(), undef: false, obj: k, init: 0 }, Li { n: "o".into(), undef: true, obj: o, init: 0 }],
        en: false,
        old: vec![],
    };
    let u = Obj { vals: vec![va("a", 'b', ""), va("n2", 'i', "!?")], ..Obj::default() };
    let e = Obj { vals: vec![va("a", 'i', "")], refs: vec![re("t1", "?", V::Null), re("t2", "?", V::Null)], lists: vec![], en: true, old: vec![] };
    let p = Obj { vals: vec![va("a", 'i', "")], ..Obj::default() };
    Src {
        obj: Obj {
            vals: vec![va("x", 'i', ""), va("y", 's', "?"), va("z", 'f', "!"), va("w", 'I', "!?"), va("a", 'B', "")],
            refs: vec![],
            lists: vec![
                Li { n: "l".into(), undef: false, obj: l, init: 1 },
                Li { n: "u".into(), undef: true, obj: u, init: 2 },
                Li { n: "e".into(), undef: false, obj: e, init: 2 },
                Li { n: "p".into(), undef: false, obj: p, init: 0 },
            ],
            en: false,
            old: vec![],
        },
        tables: ["t1", "t2", "t3", "t4"].iter().map(|t| (*t, vec!["a", "b"])).collect(),
        clist: 1,
        rev: false,
        old_ids: 0,
    }
}

fn val_text(v: &V, ty: char) -> String {
    text(v, el(ty)).expect("text of a value")
}

fn ref_text(v: &V) -> String {
    match v {
        V::Id(s) => format!("\"{}\"", s),
        V::Null => "null".into(),
        _ => "undefined".into(),
    }
}

fn items_text(o: &Obj, init: u8) -> String {
    let one = |full: bool| {
        let mut p = vec![];
        if full {
            for v in &o.vals {
                p.push(format!("{} : {}", v.n, val_text(&set_value(v.ty), v.ty)));
            }
            for l in &o.lists {
                p.push(format!("{} : [\"Mil\"{}]", l.n, items_text(&l.obj, 1)));
            }
        }
        if o.en {
            if let Some(r) = o.refs.first() {
                p.push(format!("Enum : {{ {} : \"a\" }}", r.t));
            }
        } else if full && !o.refs.is_empty() {
            let v: Vec<String> = o.refs.iter().map(|r| format!("{} : \"b\"", r.t)).collect();
            p.push(format!("Ref : {{ {} }}", v.join(", ")));
        }
        format!(", {{ {} }}", p.join(", "))
    };
    match init {
        0 => String::new(),
        1 => one(false) + &one(true),
        _ => one(true),
    }
}

fn old_text(o: &Obj, p: &mut Vec<String>) {
    let old: Vec<String> = o.old.iter().filter(|x| !o.refs.iter().any(|r| r.t == **x)).map(|x| format!("{:?}", x)).collect();
    if !old.is_empty() {
        p.push(format!("Old : [{}]", old.join(", ")));
    }
}

fn obj_text(o: &Obj, rev: bool) -> String {
    let mut p = vec![];
    for v in &o.vals {
        p.push(format!("\"{}{}\" : {}", v.n, v.suf, val_text(&v.def, v.ty)));
    }
    for l in &o.lists {
        p.push(format!("\"{}{}\" : [\"MilDef\", [{}]]", l.n, if l.undef { "!" } else { "" }, obj_text(&l.obj, rev)));
    }
    if !o.refs.is_empty() {
        let mut v: Vec<String> = o.refs.iter().map(|r| format!("\"{}{}\" : {}", r.t, r.suf, ref_text(&r.def))).collect();
        if rev {
            v.reverse();
        }
        let old: Vec<String> = o.old.iter().filter(|x| o.refs.iter().any(|r| r.t == **x)).map(|x| format!("{:?}", x)).collect();
        if !old.is_empty() {
            v.push(format!("Old : [{}]", old.join(", ")));
        }
        p.push(format!("{} : {{ {} }}", if o.en { "Enum" } else { "Ref" }, v.join(", ")));
    }
    old_text(o, &mut p);
    if rev {
        p.reverse();
    }
    format!("{{ {} }}", p.join(", "))
}

pub fn src_text(s: &Src) -> String {
    let mut p = vec![];
    for v in &s.obj.vals {
        p.push(format!("\"{}{}\" : {}", v.n, v.suf, val_text(&v.def, v.ty)));
    }
    for (k, (t, ids)) in s.tables.iter().enumerate() {
        let old = if k < s.old_ids { "[\"Old\", \"b\"], " } else { "" };
        let v: Vec<String> = ids.iter().enumerate().map(|(i, x)| format!("{{ ID : \"{}\", v : {} }}", x, i)).collect();
        p.push(format!("{} : [\"Table\", {}[{{ v : 0 }}], {}]", t, old, v.join(", ")));
    }
    if s.clist > 0 {
        p.push(format!("cl : [\"CList\", [{{ v : 0, \"n?\" : {} }}], {{ v : 1 }}{}]", s.clist, if s.clist > 1 { ", { v : 2 }" } else { "" }));
    }
    for l in &s.obj.lists {
        p.push(format!("\"{}{}\" : [\"MList\", [{}]{}]", l.n, if l.undef { "!" } else { "" }, obj_text(&l.obj, s.rev), items_text(&l.obj, l.init)));
    }
    old_text(&s.obj, &mut p);
    if s.rev {
        p.reverse();
    }
    format!("{{\n {}\n}}", p.join(",\n "))
}

pub fn node<'a>(o: &'a mut Obj, path: &[&str]) -> &'a mut Obj {
    match path.first() {
        None => o,
        Some(n) => {
            let l = o.lists.iter_mut().find(|l| l.n == *n).unwrap();
            node(&mut l.obj, &path[1..])
        }
    }
}

/// All evolutions of the base source, the base itself first.
pub fn evolutions() -> Vec<(String, Src)> {
    let mut v: Vec<(String, Src)> = vec![("base".into(), base())];
    let mut add = |l: String, f: &dyn Fn(&mut Src)| {
        let mut s = base();
        f(&mut s);
        v.push((l, s));
    };
    let nodes: Vec<Vec<&str>> = vec![vec![], vec!["l"], vec!["l", "k"], vec!["l", "k", "d"], vec!["l", "k", "h"], vec!["u"], vec!["e"]];
    for np in &nodes {
        let at = np.join(".");
        let mut b = base();
        let o = node(&mut b.obj, np).clone();
        for ty in TYS {
            for suf in SUFS {
                add(format!("{at}:add {ty}{suf}"), &|s| node(&mut s.obj, np).vals.push(va("n", ty, suf)));
            }
        }
        for i in 0..o.vals.len() {
            add(format!("{at}:remove value {i}"), &|s| {
                node(&mut s.obj, np).vals.remove(i);
            });
            for suf in SUFS {
                if suf != o.vals[i].suf {
                    add(format!("{at}:form {i} {suf}"), &|s| node(&mut s.obj, np).vals[i].suf = suf);
                }
            }
            add(format!("{at}:default {i}"), &|s| {
                let x = &mut node(&mut s.obj, np).vals[i];
                x.def = default_b(x.ty, x.suf);
            });
            add(format!("{at}:type {i}"), &|s| {
                let x = &mut node(&mut s.obj, np).vals[i];
                x.ty = if x.ty == 'i' { 'f' } else { 'i' };
                x.def = default_a(x.ty);
            });
        }
        for i in 0..o.vals.len() {
            add(format!("{at}:value {i} to list"), &|s| {
                let x = node(&mut s.obj, np);
                let n = x.vals.remove(i).n;
                let obj = Obj { vals: vec![va("a", 'i', ""), va("b", 's', "!")], ..Obj::default() };
                x.lists.push(Li { n, undef: false, obj, init: if np.is_empty() { 2 } else { 0 } })
            });
        }
        for i in 0..o.lists.len() {
            add(format!("{at}:list {i} to value"), &|s| {
                let x = node(&mut s.obj, np);
                let n = x.lists.remove(i).n;
                x.vals.push(va(&n, 'i', ""))
            });
        }
        for (undef, init) in [(false, 0), (true, 0), (false, 1), (true, 1)] {
            if !np.is_empty() && init == 1 {
                continue;
            }
            add(format!("{at}:add list {undef} {init}"), &|s| {
                let obj = Obj { vals: vec![va("a", 'i', "!"), va("b", 's', "")], ..Obj::default() };
                node(&mut s.obj, np).lists.push(Li { n: "nl".into(), undef, obj, init })
            });
        }
        for i in 0..o.lists.len() {
            add(format!("{at}:remove list {i}"), &|s| {
                node(&mut s.obj, np).lists.remove(i);
            });
            add(format!("{at}:list form {i}"), &|s| {
                let l = &mut node(&mut s.obj, np).lists[i];
                l.undef = !l.undef;
            });
            if np.is_empty() {
                for init in 0..3 {
                    if init != o.lists[i].init {
                        add(format!("{at}:list items {i} {init}"), &|s| node(&mut s.obj, np).lists[i].init = init);
                    }
                }
            }
        }
        // marking as old changes nothing for data that has it; the source itself must not use it any more
        let members = o.vals.iter().map(|v| &v.n).chain(o.lists.iter().map(|l| &l.n)).chain(o.refs.iter().map(|r| &r.t));
        for n in members {
            add(format!("{at}:old {n}"), &|s| {
                node(&mut s.obj, np).old.push(n.clone());
                s.obj.lists.iter_mut().for_each(|l| l.init = 0);
            });
        }
        if !np.is_empty() {
            if o.en {
                add(format!("{at}:enum add"), &|s| node(&mut s.obj, np).refs.push(re("t3", "?", V::Null)));
                for i in 0..2 {
                    add(format!("{at}:enum remove {i}"), &|s| {
                        node(&mut s.obj, np).refs.remove(i);
                    });
                }
            } else {
                for suf in SUFS {
                    add(format!("{at}:add ref {suf}"), &|s| node(&mut s.obj, np).refs.push(re("t3", suf, id("a"))));
                }
                // a reference that every item has to set; the source has no items then
                add(format!("{at}:add required ref"), &|s| {
                    node(&mut s.obj, np).refs.push(re("t3", "", id("")));
                    s.obj.lists.iter_mut().for_each(|l| l.init = 0);
                });
                for i in 0..o.refs.len() {
                    if o.refs[i].suf == "" {
                        add(format!("{at}:ref required {i}"), &|s| {
                            node(&mut s.obj, np).refs[i].def = id("");
                            s.obj.lists.iter_mut().for_each(|l| l.init = 0);
                        });
                    }
                    add(format!("{at}:remove ref {i}"), &|s| {
                        node(&mut s.obj, np).refs.remove(i);
                    });
                    for suf in SUFS {
                        if suf != o.refs[i].suf {
                            add(format!("{at}:ref form {i} {suf}"), &|s| {
                                let r = &mut node(&mut s.obj, np).refs[i];
                                r.suf = suf;
                                if !suf.contains('?') {
                                    r.def = id("a");
                                }
                            });
                        }
                    }
                }
            }
        }
    }
    for k in [1, 4] {
        add(format!("{k} tables with old ids"), &|s| {
            s.old_ids = k;
            s.obj.lists.iter_mut().for_each(|l| l.init = 0);
        });
    }
    add("table grows".into(), &|s| s.tables.get_mut("t1").unwrap().push("c"));
    add("table shrinks".into(), &|s| {
        s.tables.get_mut("t2").unwrap().pop();
        for l in s.obj.lists.iter_mut() {
            l.init = 0;
        }
    });
    add("constant list changes".into(), &|s| s.clist = 2);
    add("constant list goes".into(), &|s| s.clist = 0);
    add("members reordered".into(), &|s| s.rev = true);
    add("few members".into(), &|s| {
        s.obj.lists.clear();
        s.obj.vals.truncate(1);
    });
    v
}

// ---- the documented rules

struct Conv {
    misfit: Option<String>,
    /// an empty list became a value: whether that is data which does not fit is left open
    open: bool,
}

impl Conv {
    fn vals(&mut self, old: &BTreeMap<String, Val>, lists: &BTreeMap<String, Option<List>>, oo: &Obj, no: &Obj) -> BTreeMap<String, Val> {
        let mut m = BTreeMap::new();
        for v in &no.vals {
            let fresh = Val { ty: v.ty, v: v.def.clone(), unmod: true };
            let x = match oo.vals.iter().find(|x| x.n == v.n) {
                None if lists.contains_key(&v.n) => {
                    match &lists[&v.n] {
                        Some(l) if !l.items.is_empty() => self.misfit = Some(format!("{} was a list", v.n)),
                        _ => self.open = true,
                    }
                    fresh
                }
                None if v.suf.contains('!') => Val { ty: v.ty, v: V::Undef, unmod: false },
                None => fresh,
                Some(ov) => {
                    let cur = &old[&v.n];
                    if cur.unmod {
                        fresh
                    } else {
                        if ov.ty != v.ty || !permits(v.suf, &cur.v) {
                            self.misfit = Some(format!("{} {:?}", v.n, cur.v));
                        }
                        cur.clone()
                    }
                }
            };
            m.insert(v.n.clone(), x);
        }
        m
    }
    fn lists(&mut self, old: &BTreeMap<String, Option<List>>, vals: &BTreeMap<String, Val>, oo: &Obj, no: &Obj, tables: &Src, new: Option<&Doc>) -> BTreeMap<String, Option<List>> {
        let mut m = BTreeMap::new();
        for l in &no.lists {
            let x = match oo.lists.iter().find(|x| x.n == l.n) {
                None if vals.contains_key(&l.n) => {
                    if !vals[&l.n].unmod {
                        self.misfit = Some(format!("{} was a value", l.n));
                    }
                    Some(new.and_then(|d| d.mlists[&l.n].clone()).unwrap_or_default())
                }
                None if l.undef => None,
                None => Some(new.and_then(|d| d.mlists[&l.n].clone()).unwrap_or_default()),
                Some(ol) => match &old[&l.n] {
                    None => {
                        if !l.undef {
                            self.misfit = Some(format!("{} undefined", l.n));
                        }
                        None
                    }
                    Some(ls) => Some(List { next: ls.next, items: ls.items.iter().map(|(i, it)| (*i, self.item(it, &ol.obj, &l.obj, tables))).collect() }),
                },
            };
            m.insert(l.n.clone(), x);
        }
        m
    }
    fn item(&mut self, old: &Item, oo: &Obj, no: &Obj, tables: &Src) -> Item {
        let mut it = Item::default();
        it.vals = self.vals(&old.vals, &old.mils, oo, no);
        it.mils = self.lists(&old.mils, &old.vals, oo, no, tables, None);
        for r in &no.refs {
            let x = match oo.refs.iter().find(|x| x.t == r.t) {
                None if r.suf.contains('!') => V::Undef,
                None => r.def.clone(),
                Some(or) => {
                    let cur = &old.refs[&r.t];
                    // the edits never set a reference to its default
                    if *cur == or.def {
                        r.def.clone()
                    } else {
                        if !permits(r.suf, cur) {
                            self.misfit = Some(format!("ref {} {:?}", r.t, cur));
                        }
                        cur.clone()
                    }
                }
            };
            if let V::Id(s) = &x {
                if !tables.tables[&r.t[..]].contains(&&s[..]) {
                    self.misfit = Some(format!("{} has no {}", r.t, s));
                }
            }
            it.refs.insert(r.t.clone(), x);
        }
        if no.en {
            it.en = old.en.clone().filter(|(t, _)| no.refs.iter().any(|r| r.t == *t));
            if it.en.is_none() {
                self.misfit = Some("enum without a choice".into());
            }
        }
        it
    }
}

pub fn convert(old: &Doc, os: &Src, ns: &Src, new: &Doc) -> (Doc, Option<String>, bool) {
    let mut c = Conv { misfit: None, open: false };
    let mut d = Doc { tables: new.tables.clone(), clists: new.clists.clone(), ..Doc::default() };
    d.vals = c.vals(&old.vals, &old.mlists, &os.obj, &ns.obj);
    d.mlists = c.lists(&old.mlists, &old.vals, &os.obj, &ns.obj, ns, Some(new));
    (d, c.misfit, c.open)
}

// ---- edits of the old data

fn lists_of(prefix: Option<(&Loc, usize)>, o: &Obj, m: &BTreeMap<String, Option<List>>, out: &mut Vec<(Loc, Obj)>) {
    for l in &o.lists {
        let loc = match prefix {
            None => Loc::root(&l.n),
            Some((p, i)) => p.sub(i, &l.n),
        };
        if let Some(ls) = &m[&l.n] {
            for (i, (_, it)) in ls.items.iter().enumerate() {
                lists_of(Some((&loc, i)), &l.obj, &it.mils, out);
            }
        }
        // lists inside come first, so that positions stay valid while editing in this order
        out.push((loc, l.obj.clone()));
    }
}

pub const STATES: usize = 10;

/// Without the nested lists that can be undefined.
fn without_undefiable(o: &mut Obj) {
    for l in o.lists.iter_mut() {
        l.obj.lists.retain(|x| !x.undef);
        l.obj.old.clear();
        without_undefiable(&mut l.obj);
    }
}

/// Data whose nested lists are undefined wherever they can be.
fn undefined_lists(cx: &mut Ctx, o: &Built) -> Result<RootObject, String> {
    let mut s = o.src.clone();
    without_undefiable(&mut s.obj);
    let r = root_of(cx, &[("root.json5", &src_text(&s))])?;
    adjust_versions(o.root.clone(), r, true).map_err(|e| format!("converting to {}: {}", o.name, e))
}

pub fn edit_state(r: &mut RootObject, s: &Src, k: usize) -> Result<(), String> {
    let d = snap(r);
    let mut ls = vec![];
    lists_of(None, &s.obj, &d.mlists, &mut ls);
    let len = |r: &mut RootObject, l: &Loc| list(r, l).map(|p| p.len()).unwrap_or(0);
    let mut places: Vec<(At, Obj)> = vec![(None, s.obj.clone())];
    if [1, 2, 3, 5, 8].contains(&k) {
        for (l, o) in &ls {
            for i in 0..len(r, l) {
                places.push((Some((l.clone(), i)), o.clone()));
            }
        }
    }
    match k {
        1 | 2 | 3 | 8 => {
            for (n, (at, o)) in places.iter().enumerate() {
                for (j, v) in o.vals.iter().enumerate() {
                    let x = match k {
                        1 => set_value(v.ty),
                        2 => V::Null,
                        3 => V::Undef,
                        _ => [set_value(v.ty), V::Undef, v.def.clone(), V::Null][(n + j) % 4].clone(),
                    };
                    if permits(v.suf, &x) {
                        set(r, at, &v.n, &x, v.ty);
                    }
                }
            }
        }
        4 => {
            for (l, o) in &ls {
                let n = len(r, l);
                let mut p = match list(r, l) {
                    Some(p) => p,
                    None => continue,
                };
                if n > 1 {
                    let last = p.last_id().unwrap();
                    p.move_to_first(last);
                    let f = p.last_id().unwrap();
                    unsafe { p.remove(f) };
                }
                let mut it = p.insert_last();
                if let Some(v) = o.vals.first() {
                    let _ = &mut it;
                    let n = p.len() - 1;
                    set(r, &Some((l.clone(), n)), &v.n, &set_value(v.ty), v.ty);
                }
                let n = len(r, l) - 1;
                if o.en {
                    let it = item(r, &(l.clone(), n)).unwrap();
                    mitem::set_enum(it, &o.refs[0].t, "b");
                }
                for x in &o.lists {
                    if let Some(mut q) = list(r, &l.sub(n, &x.n)) {
                        q.insert_last();
                        q.insert_first();
                        let f = q.last_id().unwrap();
                        unsafe { q.remove(f) };
                        for y in &x.obj.lists {
                            if let Some(mut z) = list(r, &l.sub(n, &x.n).sub(0, &y.n)) {
                                z.insert_last();
                            }
                        }
                    }
                }
            }
        }
        5 => {
            for (at, o) in &places {
                if let Some(a) = at {
                    let it = item(r, a).unwrap();
                    if o.en {
                        mitem::set_enum(it, &o.refs[o.refs.len() - 1].t, "b");
                        continue;
                    }
                    for (j, x) in o.refs.iter().enumerate() {
                        let v = match (a.1 + j) % 3 {
                            0 => V::Null,
                            1 => V::Undef,
                            _ => id("b"),
                        };
                        if v == x.def {
                            continue;
                        }
                        if permits(x.suf, &v) {
                            let q = match v {
                                V::Id(s) => Qv::Val(s),
                                V::Null => Qv::Null,
                                _ => Qv::Undefined,
                            };
                            mitem::set_ref(it, &x.t, q);
                        }
                    }
                }
            }
        }
        6 => {
            for (l, _) in &ls {
                if let Some(mut p) = list(r, l) {
                    while let Some(x) = p.first_id() {
                        unsafe { p.remove(x) };
                    }
                }
            }
        }
        _ => {}
    }
    Ok(())
}

fn cases(t: Tier) -> Vec<String> {
    let n = evolutions().len();
    let mut v = vec![];
    for i in 0..n {
        v.push(format!("from {i} {}", t.pick(1, 0)));
    }
    for i in 1..n {
        v.push(format!("stored {i} {}", t.pick(1, 0)));
    }
    v
}

struct Built {
    name: String,
    src: Src,
    root: RootObject,
    doc: Doc,
}

thread_local! {
    static ALL: std::cell::RefCell<Option<std::rc::Rc<Vec<Built>>>> = std::cell::RefCell::new(None);
}

/// The sources are read once per worker.
fn build(cx: &mut Ctx) -> Result<std::rc::Rc<Vec<Built>>, String> {
    if let Some(v) = ALL.with(|a| a.borrow().clone()) {
        return Ok(v);
    }
    let v = std::rc::Rc::new(build_all(cx)?);
    ALL.with(|a| *a.borrow_mut() = Some(v.clone()));
    Ok(v)
}

fn build_all(cx: &mut Ctx) -> Result<Vec<Built>, String> {
    let mut v = vec![];
    for (name, src) in evolutions() {
        let text = src_text(&src);
        let root = root_of(cx, &[("root.json5", &text)]).map_err(|e| format!("{}: {} in {}", name, e, text))?;
        let doc = snap(&root);
        v.push(Built { name, src, root, doc });
    }
    Ok(v)
}

fn one(cx: &mut Ctx, o: &Built, n: &Built, data: &RootObject, before: &Doc, k: usize) -> Result<RootObject, String> {
    let what = format!("{} -> {} state {}", o.name, n.name, k);
    let (want, misfit, open) = convert(before, &o.src, &n.src, &n.doc);
    let mut res = None;
    for validation in [true, false] {
        if (misfit.is_some() || open) && !validation {
            continue;
        }
        cx.step();
        let got = guard(|| adjust_versions(n.root.clone(), data.clone(), validation)).map_err(|p| format!("{}: panic {}", what, p))?;
        match (&misfit, got) {
            (Some(_), Err(_)) => {
                cx.outcome("refused");
                return Err("refused".into());
            }
            (Some(m), Ok(_)) => return Err(format!("{}: data that does not fit the new source ({}) was accepted", what, m)),
            (None, Err(_)) if open => {
                cx.outcome("refused");
                return Err("refused".into());
            }
            (None, Err(e)) => return Err(format!("{}: refused: {}", what, e)),
            (None, Ok(r)) => {
                let d = snap(&r);
                expect_eq(&want, &d, &what)?;
                cx.state(&d);
                res = Some(r);
            }
        }
    }
    cx.outcome("converted");
    let after = snap(data);
    expect_eq(before, &after, &format!("{}: the old data changed", what))?;
    Ok(res.unwrap())
}

/// The converted document goes on as a document of the new source.
fn usable(cx: &mut Ctx, n: &Built, r: &RootObject) -> Result<(), String> {
    let d = diff_of(&n.root, r)?;
    let mut back = n.root.clone();
    patch(&mut back, &d)?;
    expect_eq(&snap(r), &snap(&back), &format!("{}: diff of the converted document", n.name))?;
    cx.step();
    let mut r = r.clone();
    let before = snap(&r);
    for (name, l) in &before.mlists {
        let l = l.clone().unwrap_or_default();
        let mut p = list(&mut r, &Loc::root(name)).ok_or("no list")?;
        p.insert_last();
        if p.last_id() != Some(l.next) {
            return Err(format!("{}: next id of {} should be {}, was {:?}", n.name, name, l.next, p.last_id()));
        }
        let _ = nth(&mut p, 0);
    }
    Ok(())
}

/// Data saved as document files and history entries under one source, loaded under another.
fn stored(cx: &mut Ctx, o: &Built, n: &Built, quick: bool) -> Result<(), String> {
    let er = |w: &str, e: &dyn std::fmt::Display| format!("{} -> {}: {}: {}", o.name, n.name, w, e);
    let (os, ns, files, his) = (cx.fresh(), cx.fresh(), cx.fresh(), cx.fresh());
    write_src(&os, &[("root.json5", &src_text(&o.src))]);
    write_src(&ns, &[("root.json5", &src_text(&n.src))]);
    std::fs::create_dir_all(&files).unwrap();
    std::fs::create_dir_all(&his).unwrap();
    let opt = HistoryOptionsBuilder::new().max_phase(2).build().unwrap();
    let cur = CurrentSrc::SrcDir(os.clone());
    let fi = SaveDirInfo::create(&files, cur.clone()).map_err(|e| er("create", &e))?;
    let hi = HistoryInfo::create(&his, cur, opt.clone()).map_err(|e| er("create", &e))?;
    let mut saved = vec![];
    let mut last = hi.clone_src_root();
    for k in 0..STATES {
        if k == 7 || quick && ![1, 4, 5, 8, 9].contains(&k) {
            continue;
        }
        // every other document goes on from the one before, so that entries are diffs of entries
        let mut r = if k % 2 == 1 { hi.clone_src_root() } else { last };
        if k == 9 {
            r = undefined_lists(cx, o)?;
        }
        edit_state(&mut r, &o.src, k)?;
        let p = save_dochy_file(&fi, &format!("f{}", k), &r, false).map_err(|e| er("save", &e))?;
        let h = save_history_file(&hi, None, &r).map_err(|e| er("save in the history", &e))?;
        cx.step();
        saved.push((k, p, h.calc_filename(), snap(&r)));
        last = r;
    }
    let old_hash = fi.hash();
    let cur = CurrentSrc::SrcDir(ns.clone());
    let fi = unsafe { force_update_and_get_info_us(&files, cur.clone()) }.map_err(|e| er("the new source", &e))?;
    let hi = unsafe { init_dochy_cache_us(&his, cur, &opt) }.map_err(|e| er("the new source", &e))?;
    let hs = list_histories(&hi).map_err(|e| er("list", &e))?;
    let all = hs.list_files();
    for (k, p, name, doc) in &saved {
        let (want, misfit, open) = convert(doc, &o.src, &n.src, &n.doc);
        for validation in [true, false] {
            if (misfit.is_some() || open) && !validation {
                continue;
            }
            for entry in [false, true] {
                cx.eval();
                cx.step();
                let what = format!("{} -> {} state {} {}, validation {}", o.name, n.name, k, if entry { "in the history" } else { "as a file" }, validation);
                let got = guard(|| {
                    if !entry {
                        return load_dochy_file(p, &fi, validation).map_err(|e| e.to_string());
                    }
                    let d = all.iter().find(|d| d.hash() == old_hash && d.props().calc_filename() == *name).ok_or("the entry is not listed")?;
                    load_history_file_data(&hi, d, validation).map_err(|e| e.to_string())
                })
                .map_err(|m| format!("{}: panic {}", what, m))?;
                match (&misfit, got) {
                    (Some(_), Err(_)) => cx.outcome("stored data refused"),
                    (Some(m), Ok(_)) => return Err(format!("{}: data that does not fit the new source ({}) was accepted", what, m)),
                    (None, Err(_)) if open => cx.outcome("stored data refused"),
                    (None, Err(e)) => return Err(format!("{}: refused: {}", what, e)),
                    (None, Ok(r)) => {
                        expect_eq(&want, &snap(&r), &what)?;
                        cx.outcome("stored data converted");
                    }
                }
            }
        }
    }
    for d in [os, ns, files, his] {
        cx.drop_dir(&d);
    }
    Ok(())
}

fn run(case: &str, cx: &mut Ctx) -> Result<(), String> {
    let w: Vec<&str> = case.split(' ').collect();
    let i: usize = w[1].parse().map_err(|_| "case")?;
    let quick = w[2] == "1";
    let all = build(cx)?;
    if w[0] == "stored" {
        stored(cx, &all[0], &all[i], quick)?;
        return stored(cx, &all[i], &all[0], quick);
    }
    let o = &all[i];
    let few_i = all.len() - 1;
    for k in 0..STATES {
        let mut data = o.root.clone();
        if k == 7 {
            data = match adjust_versions(o.root.clone(), all[few_i].root.clone(), true) {
                Ok(r) => r,
                Err(e) => return Err(format!("converting to {}: {}", o.name, e)),
            };
        }
        if k == 9 {
            data = undefined_lists(cx, o)?;
        }
        edit_state(&mut data, &o.src, k)?;
        let before = snap(&data);
        for (j, n) in all.iter().enumerate() {
            if quick && i != 0 && j != 0 && j != i && j != few_i && i != few_i && !(k == 4 || k == 8) {
                continue;
            }
            if quick && i != 0 && j != 0 && (i + j + k / 5) % 3 != 0 && j != i {
                continue;
            }
            cx.eval();
            match one(cx, o, n, &data, &before, k) {
                Ok(r) => {
                    if i == 0 || j == 0 || k == 4 {
                        usable(cx, n, &r)?;
                    }
                }
                Err(e) if e == "refused" => {}
                Err(e) => return Err(e),
            }
        }
    }
    Ok(())
}
