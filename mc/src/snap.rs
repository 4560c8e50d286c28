//! Observation of a document through the public accessors: everything a user can see.
use dochy_core::intf::member_desc::{get_member_desc, MemberDesc};
use dochy_core::intf::ref_desc::RefDescs;
use dochy_core::intf::{citem, mitem, root, table, CItemPtr, CListPtr, MItemPtr, MListPtr, RootObjectPtr};
use dochy_core::structs::{Qv, RootObject, RustMemberType, RustParam};
use std::collections::BTreeMap;

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum V {
    Undef,
    Null,
    B(bool),
    I(i64),
    /// bits
    F(u64),
    S(String),
    IA(Vec<i64>),
    FA(Vec<u64>),
    Bin(Vec<u8>),
    /// a reference's target
    Id(String),
    Missing,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Val {
    /// declared type as one letter
    pub ty: char,
    pub v: V,
    pub unmod: bool,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Default)]
pub struct Item {
    pub vals: BTreeMap<String, Val>,
    pub mils: BTreeMap<String, Option<List>>,
    pub cils: BTreeMap<String, Vec<Item>>,
    pub refs: BTreeMap<String, V>,
    pub en: Option<(String, String)>,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Default)]
pub struct List {
    pub next: u64,
    pub items: Vec<(u64, Item)>,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Default)]
pub struct Doc {
    pub vals: BTreeMap<String, Val>,
    pub mlists: BTreeMap<String, Option<List>>,
    pub clists: BTreeMap<String, Vec<Item>>,
    pub tables: BTreeMap<String, BTreeMap<String, Item>>,
}

impl Doc {
    /// A copy without the "never set" marks.
    pub fn values_only(&self) -> Doc {
        fn li(l: &mut Option<List>) {
            if let Some(l) = l {
                for (_, i) in l.items.iter_mut() {
                    it(i)
                }
            }
        }
        fn it(i: &mut Item) {
            for v in i.vals.values_mut() {
                v.unmod = false;
            }
            for l in i.mils.values_mut() {
                li(l)
            }
        }
        let mut d = self.clone();
        for v in d.vals.values_mut() {
            v.unmod = false;
        }
        for l in d.mlists.values_mut() {
            li(l)
        }
        d
    }
}

fn q<T>(v: Qv<T>, f: impl Fn(T) -> V) -> V {
    match v {
        Qv::Val(x) => f(x),
        Qv::Null => V::Null,
        Qv::Undefined => V::Undef,
    }
}

pub fn param(p: &RustParam) -> (char, V) {
    match p {
        RustParam::Bool(b) => ('b', q(b.clone(), V::B)),
        RustParam::Int(b) => ('i', q(b.clone(), V::I)),
        RustParam::Float(b) => ('f', q(b.clone(), |f| V::F(f.to_bits()))),
        RustParam::String(b) => ('s', q(b.as_ref(), |s| V::S(s.str().to_string()))),
        RustParam::IntArray(b) => ('I', q(b.as_ref(), |s| V::IA(s.vec().clone()))),
        RustParam::FloatArray(b) => ('F', q(b.as_ref(), |s| V::FA(s.vec().iter().map(|f| f.to_bits()).collect()))),
        RustParam::Binary(b) => ('B', q(b.as_ref(), |s| V::Bin(s.vec().clone()))),
    }
}

fn opt_param(p: Option<&RustParam>, unmod: bool) -> Val {
    match p {
        Some(p) => {
            let (ty, v) = param(p);
            Val { ty, v, unmod }
        }
        None => Val { ty: '?', v: V::Missing, unmod },
    }
}

fn ref_v(r: Option<Qv<&String>>) -> V {
    match r {
        Some(x) => q(x, |s| V::Id(s.clone())),
        None => V::Missing,
    }
}

fn kind(m: &MemberDesc) -> u8 {
    match m.member_type() {
        RustMemberType::Table => b't',
        RustMemberType::CList | RustMemberType::Cil => b'c',
        RustMemberType::MList | RustMemberType::Mil => b'm',
        _ => b'p',
    }
}

/// The document as its accessors show it. Panics if a list's views contradict each other.
pub fn snap(r: &RootObject) -> Doc {
    let p = RootObjectPtr::new(r as *const RootObject as *mut RootObject);
    let mut d = Doc::default();
    for m in get_member_desc(r) {
        let n = m.name();
        match kind(&m) {
            b'p' => {
                d.vals.insert(n.to_string(), opt_param(root::get_param(p, n), root::is_unmodified(p, n)));
            }
            b't' => {
                let t = root::get_table(p.def(), n).expect("table");
                let cd = m.child_descs().expect("descs");
                let mut mm = BTreeMap::new();
                for kv in table::get_kvs(t).items() {
                    let it = table::get_value(t, kv.id()).expect("table entry");
                    mm.insert(kv.id().to_string(), citem_snap(it, cd.items(), cd.refs()));
                }
                d.tables.insert(n.to_string(), mm);
            }
            b'c' => {
                let cd = m.child_descs().expect("descs");
                let l: CListPtr<CItemPtr> = root::get_clist(p, n).expect("clist");
                d.clists.insert(n.to_string(), clist_snap(l, cd.items(), cd.refs()));
            }
            _ => {
                let cd = m.child_descs().expect("descs");
                let l: Option<Option<MListPtr<MItemPtr>>> = root::get_mlist_const(p, n);
                // a list never touched reads as absent; it behaves as an empty list
                let v = match l {
                    Some(Some(l)) => Some(mlist_snap(&l, cd.items(), cd.refs())),
                    Some(None) => None,
                    None => Some(List::default()),
                };
                d.mlists.insert(n.to_string(), v);
            }
        }
    }
    d
}

fn clist_snap(l: CListPtr<CItemPtr>, ms: &[MemberDesc], refs: &RefDescs) -> Vec<Item> {
    let mut v = vec![];
    for i in 0..l.len() {
        v.push(citem_snap(l.value(i), ms, refs));
    }
    let n = l.iter().count();
    assert!(n == v.len(), "constant list of {} items iterates over {}", v.len(), n);
    v
}

fn citem_snap(p: CItemPtr, ms: &[MemberDesc], refs: &RefDescs) -> Item {
    let mut it = Item::default();
    for m in ms {
        let n = m.name();
        match kind(m) {
            b'c' => {
                let cd = m.child_descs().expect("descs");
                let l: Option<CListPtr<CItemPtr>> = citem::get_cil(p, n);
                let v = l.map(|l| clist_snap(l, cd.items(), cd.refs())).unwrap_or_default();
                it.cils.insert(n.to_string(), v);
            }
            b'p' => {
                it.vals.insert(n.to_string(), opt_param(citem::get_param(p, n), false));
            }
            _ => {}
        }
    }
    for r in refs.items() {
        let n = r.data_name();
        let v = ref_v(citem::get_ref_id(p, n));
        it.refs.insert(n.to_string(), v);
    }
    if refs.is_enum() {
        it.en = citem::get_enum(p);
    }
    it
}

pub fn mlist_snap(l: &MListPtr<MItemPtr>, ms: &[MemberDesc], refs: &RefDescs) -> List {
    let mut out = List { next: l.next_id(), items: vec![] };
    let mut ids = vec![];
    let limit = l.len() + 1;
    let mut it = l.iter_const();
    while let Some((id, p)) = it.next_const() {
        ids.push(id);
        assert!(ids.len() < limit, "iteration visits more than the {} items of the list: {:?}", l.len(), ids);
        out.items.push((id, mitem_snap(p, ms, refs)));
        let q = l.get_item_const(id).expect("an iterated id is not found by lookup");
        assert!(q.item() == p.item(), "lookup by id {} gives another item than iteration", id);
    }
    assert!(ids.len() == l.len(), "list of length {} iterates over {:?}", l.len(), ids);
    let mut back = vec![];
    let mut it = l.iter_from_last_const();
    while let Some((id, _)) = it.prev_const() {
        back.push(id);
        assert!(back.len() < limit, "backward iteration visits too many: {:?}", back);
    }
    back.reverse();
    assert!(back == ids, "forward {:?} and backward {:?} iteration differ", ids, back);
    assert!(l.first_id() == ids.first().copied() && l.last_id() == ids.last().copied(), "first/last id disagree with {:?}", ids);
    out
}

pub fn mitem_snap(p: MItemPtr, ms: &[MemberDesc], refs: &RefDescs) -> Item {
    let mut it = Item::default();
    for m in ms {
        let n = m.name();
        match kind(m) {
            b'm' => {
                let cd = m.child_descs().expect("descs");
                let l: Option<Option<MListPtr<MItemPtr>>> = mitem::get_mil_const(p, n);
                let v = match l {
                    Some(Some(l)) => Some(mlist_snap(&l, cd.items(), cd.refs())),
                    Some(None) => None,
                    None => Some(List::default()),
                };
                it.mils.insert(n.to_string(), v);
            }
            b'p' => {
                it.vals.insert(n.to_string(), opt_param(mitem::get_param(p, n), mitem::is_unmodified(p, n)));
            }
            _ => {}
        }
    }
    for r in refs.items() {
        let n = r.data_name();
        let v = ref_v(mitem::get_ref_id(p, n));
        it.refs.insert(n.to_string(), v);
    }
    if refs.is_enum() {
        it.en = mitem::get_enum(p);
    }
    it
}

/// First difference of two documents, as text.
pub fn diff_text(a: &Doc, b: &Doc) -> String {
    let x: Vec<String> = format!("{:#?}", a).lines().map(|s| s.to_string()).collect();
    let y: Vec<String> = format!("{:#?}", b).lines().map(|s| s.to_string()).collect();
    for i in 0..x.len().max(y.len()) {
        if x.get(i) != y.get(i) {
            let lo = i.saturating_sub(6);
            let show = |v: &[String]| {
                let hi = (i + 5).min(v.len());
                if lo < hi {
                    v[lo..hi].iter().map(|s| s.trim()).collect::<Vec<_>>().join(" ")
                } else {
                    "(end)".to_string()
                }
            };
            return format!("expected ...{}... found ...{}...", show(&x), show(&y));
        }
    }
    "no difference".into()
}

pub fn expect_eq(want: &Doc, got: &Doc, what: &str) -> Result<(), String> {
    if want == got {
        Ok(())
    } else {
        Err(format!("{}: {}", what, diff_text(want, got)))
    }
}
