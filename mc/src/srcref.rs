//! Reference reading of a source: the rules of the source dialect, applied to plain JSON5 values.
//! Gives the document the source defines, or that it has to be refused, or that the rules leave it open.
use crate::c08::R;
use crate::snap::{Doc, Item, List, Val, V};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Debug, Clone, PartialEq)]
pub enum Verdict {
    Accept(Doc),
    Reject(&'static str),
    Open(&'static str),
}

type Res<T> = Result<T, Verdict>;

fn no<T>(s: &'static str) -> Res<T> {
    Err(Verdict::Reject(s))
}

#[derive(Clone, Copy, PartialEq, Debug)]
struct Vt {
    null: bool,
    undef: bool,
}

impl Vt {
    fn fits(&self, v: &V) -> bool {
        match v {
            V::Null => self.null,
            V::Undef => self.undef,
            _ => true,
        }
    }
}

#[derive(Clone, Debug)]
enum Val0 {
    P(char, V),
    Table(ListSrc),
    CList(ListSrc),
    MList(ListSrc),
    Cil(ListSrc),
    Mil(ListSrc),
    CilDef(Def),
    MilDef(Def),
    MilUndef,
}

#[derive(Clone, Debug, Default)]
struct ListSrc {
    def: Option<Def>,
    old: Option<BTreeSet<String>>,
    next: Option<u64>,
    items: Vec<Obj>,
}

#[derive(Clone, Debug, Default)]
struct Obj {
    vals: Vec<(String, Vt, Val0)>,
    id: Option<Id>,
    refs: Vec<(String, Vt, V)>,
    refs_old: BTreeSet<String>,
    is_enum: bool,
    has_refs: bool,
    old: BTreeSet<String>,
    has_old: bool,
}

#[derive(Clone, Debug)]
enum Id {
    S(String),
    N(u64),
}

type Def = Box<Obj>;

fn simple_name(s: &str) -> bool {
    let mut c = s.chars();
    match c.next() {
        Some('@') | Some('_') | Some('a'..='z') => {}
        _ => return false,
    }
    c.all(|c| c == '_' || c.is_ascii_alphanumeric())
}

fn name_of(k: &str) -> Res<(String, Vt)> {
    let base = k.trim_end_matches(|c| c == '!' || c == '?');
    let vt = match &k[base.len()..] {
        "" => Vt { null: false, undef: false },
        "?" => Vt { null: true, undef: false },
        "!" => Vt { null: false, undef: true },
        "!?" | "?!" => Vt { null: true, undef: true },
        _ => return no("suffix"),
    };
    if !simple_name(base) {
        return no("name");
    }
    Ok((base.to_string(), vt))
}

fn old_list(l: &[R]) -> Res<BTreeSet<String>> {
    let mut s = BTreeSet::new();
    for x in l {
        match x {
            R::Str(n) if simple_name(n) => {
                s.insert(n.clone());
            }
            _ => return no("old entry"),
        }
    }
    Ok(s)
}

fn obj(m: &[(String, R)], is_ref: bool) -> Res<Obj> {
    let mut o = Obj::default();
    for (k, v) in m {
        match k.as_str() {
            "ID" => {
                o.id = Some(match v {
                    R::Str(s) => Id::S(s.clone()),
                    R::Int(i) if *i >= 0 => Id::N(*i as u64),
                    R::Dbl(b) => {
                        let d = f64::from_bits(*b);
                        if d >= 0.0 && d < 1e15 && d.trunc() == d {
                            return Err(Verdict::Open("float id"));
                        }
                        return no("float id");
                    }
                    _ => return no("id"),
                })
            }
            "Old" => match v {
                R::Arr(l) => {
                    o.old = old_list(l)?;
                    o.has_old = true;
                }
                _ => return no("old"),
            },
            "Ref" | "Enum" => match v {
                R::Map(l) => {
                    let r = obj(l, true)?;
                    if r.id.is_some() {
                        return no("id in ref");
                    }
                    if r.has_refs {
                        if r.refs.is_empty() {
                            return Err(Verdict::Open("empty ref in ref"));
                        }
                        return no("ref in ref");
                    }
                    if r.vals.is_empty() {
                        return Err(Verdict::Open("empty ref"));
                    }
                    if o.has_refs {
                        return no("two refs");
                    }
                    o.has_refs = true;
                    o.is_enum = k == "Enum";
                    o.refs_old = r.old;
                    for (n, vt, v) in r.vals {
                        match v {
                            Val0::P('s', V::S(s)) => {
                                if !s.is_empty() && !simple_name(&s) {
                                    return no("ref value");
                                }
                                o.refs.push((n, vt, V::Id(s)));
                            }
                            Val0::P('s', v) => o.refs.push((n, vt, v)),
                            _ => return no("ref value"),
                        }
                    }
                }
                _ => return no("ref"),
            },
            _ => {
                let (n, vt) = name_of(k)?;
                if o.vals.iter().any(|(x, _, _)| *x == n) {
                    return no("member twice");
                }
                let v = if is_ref {
                    match v {
                        R::Str(s) => Val0::P('s', V::S(s.clone())),
                        R::Null => Val0::P('s', V::Null),
                        R::Undef => Val0::P('s', V::Undef),
                        _ => return no("ref value"),
                    }
                } else {
                    value(v, vt)?
                };
                o.vals.push((n, vt, v));
            }
        }
    }
    Ok(o)
}

fn ints(l: &[R]) -> Res<Vec<i64>> {
    l.iter()
        .map(|x| match x {
            R::Int(i) => Ok(*i),
            _ => no("array element"),
        })
        .collect()
}

fn value(v: &R, vt: Vt) -> Res<Val0> {
    let l = match v {
        R::Bool(b) => return Ok(Val0::P('b', V::B(*b))),
        R::Int(i) => return Ok(Val0::P('i', V::I(*i))),
        R::Dbl(d) => return Ok(Val0::P('f', V::F(*d))),
        R::Str(s) => return Ok(Val0::P('s', V::S(s.clone()))),
        R::Arr(l) => l,
        _ => return no("value"),
    };
    let tag = match l.get(0) {
        Some(R::Int(_)) => return Ok(Val0::P('I', V::IA(ints(l)?))),
        Some(R::Str(s)) => s.as_str(),
        _ => return no("array"),
    };
    let rest = &l[1..];
    let lone = match rest {
        [R::Null] => Some(V::Null),
        [R::Undef] => Some(V::Undef),
        _ => None,
    };
    let p = |c: char| -> Res<Val0> {
        match &lone {
            Some(v) => Ok(Val0::P(c, v.clone())),
            None => no("typed value"),
        }
    };
    match tag {
        "Int" => p('i'),
        "Str" => p('s'),
        "Bool" => p('b'),
        "Float" => match rest {
            [R::Int(i)] => Ok(Val0::P('f', V::F((*i as f64).to_bits()))),
            [R::Dbl(d)] => Ok(Val0::P('f', V::F(*d))),
            _ => p('f'),
        },
        "IntArray" => match lone {
            Some(v) => Ok(Val0::P('I', v)),
            None => Ok(Val0::P('I', V::IA(ints(rest)?))),
        },
        "Binary" => match lone {
            Some(v) => Ok(Val0::P('B', v)),
            None => {
                let v = ints(rest)?;
                if v.iter().any(|i| !(0..256).contains(i)) {
                    return no("byte");
                }
                Ok(Val0::P('B', V::Bin(v.iter().map(|i| *i as u8).collect())))
            }
        },
        "FloatArray" => match lone {
            Some(v) => Ok(Val0::P('F', v)),
            None => {
                let mut o = vec![];
                for x in rest {
                    match x {
                        R::Int(i) => o.push((*i as f64).to_bits()),
                        R::Dbl(d) => o.push(*d),
                        R::Arr(a) => match a.as_slice() {
                            [R::Str(t), R::Int(i)] if t == "Float" => o.push((*i as f64).to_bits()),
                            [R::Str(t), R::Dbl(d)] if t == "Float" => o.push(*d),
                            _ => return no("array element"),
                        },
                        _ => return no("array element"),
                    }
                }
                Ok(Val0::P('F', V::FA(o)))
            }
        },
        "__InnerMutUndefined" => {
            if !rest.is_empty() || vt.null || vt.undef {
                return Err(Verdict::Open("undefined inner list with more"));
            }
            Ok(Val0::MilUndef)
        }
        "CList" | "Table" | "MList" | "Cil" | "Mil" | "CilDef" | "MilDef" => {
            if vt.null || (vt.undef && tag != "MList" && tag != "MilDef") {
                return no("null list");
            }
            let s = list(rest)?;
            let def = matches!(tag, "CList" | "Table" | "MList" | "CilDef" | "MilDef");
            if s.def.is_some() != def || (s.old.is_some() && tag != "Table") || (s.next.is_some() && tag != "MList" && tag != "Mil") {
                return no("attribute");
            }
            if tag.ends_with("Def") && !s.items.is_empty() {
                return no("items in a definition");
            }
            Ok(match tag {
                "CList" => Val0::CList(s),
                "Table" => Val0::Table(s),
                "MList" => Val0::MList(s),
                "Cil" => Val0::Cil(s),
                "Mil" => Val0::Mil(s),
                "CilDef" => Val0::CilDef(s.def.unwrap()),
                _ => Val0::MilDef(s.def.unwrap()),
            })
        }
        _ => no("tag"),
    }
}

fn list(l: &[R]) -> Res<ListSrc> {
    let mut s = ListSrc::default();
    let mut items = false;
    for x in l {
        match x {
            R::Map(m) => {
                items = true;
                s.items.push(obj(m, false)?);
            }
            R::Arr(a) if !items => {
                let def = match a.as_slice() {
                    [R::Map(m)] => Some(m),
                    [R::Str(t), R::Map(m)] if t == "Default" => Some(m),
                    [R::Str(t), R::Int(n)] if t == "NextID" && *n >= 0 && s.next.is_none() => {
                        s.next = Some(*n as u64);
                        None
                    }
                    [R::Str(t), o @ ..] if t == "Old" && s.old.is_none() => {
                        s.old = Some(old_list(o)?);
                        None
                    }
                    _ => return no("attribute"),
                };
                if let Some(m) = def {
                    if s.def.is_some() {
                        return no("two defaults");
                    }
                    let o = obj(m, false)?;
                    if o.id.is_some() {
                        return no("id in default");
                    }
                    s.def = Some(Box::new(o));
                }
            }
            _ => return no("list element"),
        }
    }
    Ok(s)
}

struct Ev<'a> {
    root: &'a BTreeMap<String, (Vt, Val0)>,
    root_old: &'a BTreeSet<String>,
}

impl<'a> Ev<'a> {
    fn target(&self, t: &str, id: &str, old_ok: bool) -> Res<()> {
        match self.root.get(t) {
            Some((_, Val0::Table(l))) => {
                if !l.items.iter().any(|i| matches!(&i.id, Some(Id::S(s)) if s == id)) {
                    return no("no such entry");
                }
                if !old_ok && l.old.as_ref().map_or(false, |o| o.contains(id)) {
                    return no("old entry used");
                }
                if self.root_old.contains(t) {
                    return Err(Verdict::Open("reference to an old table"));
                }
                Ok(())
            }
            _ => no("no such table"),
        }
    }
    fn def(&self, d: &Obj, mutable: bool) -> Res<()> {
        for n in &d.old {
            if !d.vals.iter().any(|(x, _, _)| x == n) {
                return no("old member unknown");
            }
        }
        for n in &d.refs_old {
            if !d.refs.iter().any(|(x, _, _)| x == n) {
                return no("old ref unknown");
            }
        }
        for (n, vt, v) in &d.refs {
            if d.is_enum {
                if *v != V::Null {
                    return no("enum default");
                }
                continue;
            }
            if !vt.fits(v) {
                return no("null ref default");
            }
            if let V::Id(s) = v {
                if !s.is_empty() {
                    self.target(n, s, d.refs_old.contains(n))?;
                }
            }
        }
        for (_, vt, v) in &d.vals {
            match v {
                Val0::P(_, v) => {
                    if !vt.fits(v) {
                        return no("null default");
                    }
                }
                Val0::CilDef(x) => {
                    if mutable {
                        return no("constant list in mutable");
                    }
                    self.def(x, false)?
                }
                Val0::MilDef(x) => {
                    if !mutable {
                        return no("mutable list in constant");
                    }
                    self.def(x, true)?
                }
                _ => return no("kind in default"),
            }
        }
        Ok(())
    }
    fn item(&self, d: &Obj, i: &Obj) -> Res<Item> {
        if i.has_old {
            return if i.old.is_empty() { Err(Verdict::Open("empty old in item")) } else { no("old in item") };
        }
        if !i.refs_old.is_empty() {
            return no("old in item ref");
        }
        if i.has_refs && d.has_refs && i.is_enum != d.is_enum {
            return Err(Verdict::Open("ref and enum mixed"));
        }
        let mut out = Item::default();
        for (n, _, v) in &i.vals {
            let (dvt, dv) = match d.vals.iter().find(|(x, _, _)| x == n) {
                Some((_, t, v)) => (t, v),
                None => return no("unknown member"),
            };
            if d.old.contains(n) {
                return no("old member used");
            }
            match (dv, v) {
                (Val0::P(a, _), Val0::P(b, v)) => {
                    if a != b || !dvt.fits(v) {
                        return no("value does not fit");
                    }
                }
                (Val0::CilDef(_), Val0::Cil(_)) | (Val0::MilDef(_), Val0::Mil(_)) => {}
                (Val0::MilDef(_), Val0::MilUndef) => {
                    if !dvt.undef {
                        return no("undefined inner list");
                    }
                }
                _ => return no("kind does not fit"),
            }
        }
        for (n, _, dv) in &d.vals {
            let given = i.vals.iter().find(|(x, _, _)| x == n).map(|(_, _, v)| v);
            match dv {
                Val0::P(ty, v) => {
                    let v = match given {
                        Some(Val0::P(_, v)) => v,
                        _ => v,
                    };
                    out.vals.insert(n.clone(), Val { ty: *ty, v: v.clone(), unmod: false });
                }
                Val0::CilDef(cd) => {
                    let l = match given {
                        Some(Val0::Cil(l)) => self.clist(cd, l)?,
                        _ => vec![],
                    };
                    out.cils.insert(n.clone(), l);
                }
                Val0::MilDef(md) => {
                    let l = match given {
                        Some(Val0::Mil(l)) => Some(self.mlist(md, l)?),
                        Some(_) => None,
                        None => Some(List::default()),
                    };
                    out.mils.insert(n.clone(), l);
                }
                _ => {}
            }
        }
        if d.is_enum && i.refs.len() != 1 {
            return no("enum needs one alternative");
        }
        for (n, vt, dv) in &d.refs {
            let given = i.refs.iter().find(|(x, _, _)| x == n).map(|(_, _, v)| v);
            if let Some(v) = given {
                if d.refs_old.contains(n) {
                    return no("old ref used");
                }
                if !vt.fits(v) {
                    return no("null ref");
                }
                if let V::Id(s) = v {
                    if s.is_empty() {
                        return no("empty ref");
                    }
                    self.target(n, s, false)?;
                } else if d.is_enum {
                    return Err(Verdict::Open("enum selects null"));
                }
            } else if *dv == V::Id("".into()) {
                return no("ref needed");
            }
            out.refs.insert(n.clone(), given.unwrap_or(dv).clone());
        }
        for (n, _, _) in &i.refs {
            if !d.refs.iter().any(|(x, _, _)| x == n) {
                return no("unknown ref");
            }
        }
        if d.is_enum {
            if let (n, _, V::Id(s)) = &i.refs[0] {
                out.en = Some((n.clone(), s.clone()));
            }
        }
        Ok(out)
    }
    fn clist(&self, d: &Obj, l: &ListSrc) -> Res<Vec<Item>> {
        let mut v = vec![];
        for i in &l.items {
            if i.id.is_some() {
                return no("id in constant list");
            }
            v.push(self.item(d, i)?);
        }
        Ok(v)
    }
    fn mlist(&self, d: &Obj, l: &ListSrc) -> Res<List> {
        let mut o = List::default();
        for (x, i) in l.items.iter().enumerate() {
            let id = match i.id {
                None => x as u64,
                Some(Id::N(n)) => n,
                _ => return no("text id"),
            };
            if o.items.iter().any(|(y, _)| *y == id) {
                return no("id twice");
            }
            if l.next.map_or(false, |n| id >= n) {
                return no("next id");
            }
            o.next = o.next.max(id + 1);
            o.items.push((id, self.item(d, i)?));
        }
        o.next = l.next.unwrap_or(o.next);
        Ok(o)
    }
}

/// files: (name without the extension, content)
pub fn eval(files: &[(String, R)]) -> Verdict {
    // a refusal anywhere wins over an open point
    match eval0(files) {
        Ok(d) => Verdict::Accept(d),
        Err(v) => v,
    }
}

fn eval0(files: &[(String, R)]) -> Res<Doc> {
    let mut root: BTreeMap<String, (Vt, Val0)> = BTreeMap::new();
    let mut old = BTreeSet::new();
    let mut found = false;
    for (f, v) in files {
        let mut add = |n: String, vt: Vt, v: Val0| -> Res<()> {
            if root.contains_key(&n) {
                return no("member twice");
            }
            match v {
                Val0::P(..) | Val0::Table(_) | Val0::CList(_) | Val0::MList(_) => {}
                _ => return no("kind in root"),
            }
            root.insert(n, (vt, v));
            Ok(())
        };
        if f == "root" {
            found = true;
            let m = match v {
                R::Map(m) => m,
                _ => return no("root is no object"),
            };
            let o = obj(m, false)?;
            if o.id.is_some() || o.has_refs {
                return no("id or ref in root");
            }
            old = o.old;
            for (n, vt, v) in o.vals {
                add(n, vt, v)?;
            }
        } else {
            let (n, vt) = name_of(f)?;
            add(n, vt, value(v, vt)?)?;
        }
    }
    if !found {
        return no("no root");
    }
    for n in &old {
        if !root.contains_key(n) {
            return no("old member unknown");
        }
    }
    let ev = Ev { root: &root, root_old: &old };
    let mut d = Doc::default();
    for (n, (vt, v)) in &root {
        match v {
            Val0::P(ty, v) => {
                if !vt.fits(v) {
                    return no("null default");
                }
                d.vals.insert(n.clone(), Val { ty: *ty, v: v.clone(), unmod: false });
            }
            Val0::Table(l) => {
                let def = l.def.as_ref().unwrap();
                ev.def(def, false)?;
                let mut m = BTreeMap::new();
                for i in &l.items {
                    let id = match &i.id {
                        Some(Id::S(s)) => s.clone(),
                        _ => return no("table id"),
                    };
                    if !simple_name(&id) {
                        return Err(Verdict::Open("table id that cannot be referred to"));
                    }
                    if m.insert(id, ev.item(def, i)?).is_some() {
                        return no("table id twice");
                    }
                }
                for o in l.old.iter().flatten() {
                    if !m.contains_key(o) {
                        return no("old id unknown");
                    }
                }
                d.tables.insert(n.clone(), m);
            }
            Val0::CList(l) => {
                let def = l.def.as_ref().unwrap();
                ev.def(def, false)?;
                d.clists.insert(n.clone(), ev.clist(def, l)?);
            }
            Val0::MList(l) => {
                let def = l.def.as_ref().unwrap();
                ev.def(def, true)?;
                d.mlists.insert(n.clone(), Some(ev.mlist(def, l)?));
            }
            _ => {}
        }
    }
    Ok(d)
}
