//! What the generated drivers of C24 share (see c24.rs): the generated accessors against access by name.
use crate::snap::{param, snap, V};
use dochy::core::intf::*;
use dochy::core::structs::*;

pub trait ToV {
    fn tv(self) -> V;
}
impl ToV for bool {
    fn tv(self) -> V {
        V::B(self)
    }
}
impl ToV for i64 {
    fn tv(self) -> V {
        V::I(self)
    }
}
impl ToV for f64 {
    fn tv(self) -> V {
        V::F(self.to_bits())
    }
}
impl ToV for &String {
    fn tv(self) -> V {
        V::S(self.clone())
    }
}
impl ToV for &Vec<i64> {
    fn tv(self) -> V {
        V::IA(self.clone())
    }
}
impl ToV for &Vec<f64> {
    fn tv(self) -> V {
        V::FA(self.iter().map(|x| x.to_bits()).collect())
    }
}
impl ToV for &Vec<u8> {
    fn tv(self) -> V {
        V::Bin(self.clone())
    }
}
impl<T: ToV> ToV for NullOr<T> {
    fn tv(self) -> V {
        match self {
            NullOr::Val(x) => x.tv(),
            NullOr::Null => V::Null,
        }
    }
}
impl<T: ToV> ToV for UndefOr<T> {
    fn tv(self) -> V {
        match self {
            UndefOr::Val(x) => x.tv(),
            UndefOr::Undefined => V::Undef,
        }
    }
}
impl<T: ToV> ToV for Qv<T> {
    fn tv(self) -> V {
        match self {
            Qv::Val(x) => x.tv(),
            Qv::Null => V::Null,
            Qv::Undefined => V::Undef,
        }
    }
}

pub trait FromV {
    fn fv(v: &V) -> Self;
}
macro_rules! from_v {
    ($($t:ty, $v:ident, $x:ident => $e:expr;)*) => { $(impl FromV for $t { fn fv(v: &V) -> Self { match v { V::$v($x) => $e, x => panic!("{:?}", x) } } })* };
}
from_v! {
    bool, B, x => *x;
    i64, I, x => *x;
    f64, F, x => f64::from_bits(*x);
    String, S, x => x.clone();
    Vec<i64>, IA, x => x.clone();
    Vec<f64>, FA, x => x.iter().map(|b| f64::from_bits(*b)).collect();
    Vec<u8>, Bin, x => x.clone();
}
impl<T: FromV> FromV for NullOr<T> {
    fn fv(v: &V) -> Self {
        if *v == V::Null {
            NullOr::Null
        } else {
            NullOr::Val(T::fv(v))
        }
    }
}
impl<T: FromV> FromV for UndefOr<T> {
    fn fv(v: &V) -> Self {
        if *v == V::Undef {
            UndefOr::Undefined
        } else {
            UndefOr::Val(T::fv(v))
        }
    }
}
impl<T: FromV> FromV for Qv<T> {
    fn fv(v: &V) -> Self {
        match v {
            V::Null => Qv::Null,
            V::Undef => Qv::Undefined,
            v => Qv::Val(T::fv(v)),
        }
    }
}

/// changes what a `_mut` reader gave, and says what it was
pub trait Poke {
    fn poke(self) -> V;
}
impl Poke for &mut String {
    fn poke(self) -> V {
        let v = V::S(self.clone());
        self.push('#');
        v
    }
}
impl Poke for &mut Vec<i64> {
    fn poke(self) -> V {
        let v = V::IA(self.clone());
        self.push(77);
        v
    }
}
impl Poke for &mut Vec<f64> {
    fn poke(self) -> V {
        let v = (&*self).tv();
        self.push(7.25);
        v
    }
}
impl Poke for &mut Vec<u8> {
    fn poke(self) -> V {
        let v = V::Bin(self.clone());
        self.push(77);
        v
    }
}
impl<T: Poke> Poke for NullOr<T> {
    fn poke(self) -> V {
        match self {
            NullOr::Val(x) => x.poke(),
            NullOr::Null => V::Null,
        }
    }
}
impl<T: Poke> Poke for UndefOr<T> {
    fn poke(self) -> V {
        match self {
            UndefOr::Val(x) => x.poke(),
            UndefOr::Undefined => V::Undef,
        }
    }
}
impl<T: Poke> Poke for Qv<T> {
    fn poke(self) -> V {
        match self {
            Qv::Val(x) => x.poke(),
            Qv::Null => V::Null,
            Qv::Undefined => V::Undef,
        }
    }
}

pub fn ty<T>(x: T) -> T {
    x
}

/// The root, an item of (nested) mutable lists, or an item of a table or (nested) constant lists.
#[derive(Clone, Copy)]
pub enum At {
    Root,
    M(&'static [(&'static str, usize)]),
    C(&'static [(&'static str, &'static str)]),
}

fn rp(r: &RootObject) -> RootObjectPtr {
    RootObjectPtr::new(r as *const RootObject as *mut RootObject)
}

pub fn mptr(r: &mut RootObject, path: &[(&str, usize)]) -> MItemPtr {
    let mut p: Option<MItemPtr> = None;
    for (n, i) in path {
        let mut l: MListPtr<MItemPtr> = match p {
            None => root::get_mlist_mut(RootObjectPtr::new(r), n),
            Some(p) => mitem::get_mil_mut(p, n),
        }
        .unwrap();
        p = Some(l.iter_mut().nth(*i).unwrap().1);
    }
    p.unwrap()
}

fn mptr_const(r: &RootObject, path: &[(&str, usize)]) -> MItemPtr {
    let mut p: Option<MItemPtr> = None;
    for (n, i) in path {
        let l: MListPtr<MItemPtr> = match p {
            None => root::get_mlist_const(rp(r), n),
            Some(p) => mitem::get_mil_const(p, n),
        }
        .unwrap()
        .unwrap();
        let mut it = l.iter_const();
        for _ in 0..*i {
            it.next_const();
        }
        p = Some(it.next_const().unwrap().1);
    }
    p.unwrap()
}

pub fn cptr(r: &RootObject, path: &[(&str, &str)]) -> CItemPtr {
    let mut p: Option<CItemPtr> = None;
    for (n, i) in path {
        p = Some(match p {
            None => match root::get_table(rp(r).def(), n) {
                Some(t) => table::get_value(t, i).unwrap(),
                None => root::get_clist::<CItemPtr>(rp(r), n).unwrap().value(i.parse().unwrap()),
            },
            Some(p) => citem::get_cil::<CItemPtr>(p, n).unwrap().value(i.parse().unwrap()),
        });
    }
    p.unwrap()
}

fn by_name(r: &RootObject, at: At, n: &str) -> (V, V) {
    let (a, b) = match at {
        At::Root => (root::get_param(rp(r), n), root::get_param_def(rp(r), n)),
        At::M(p) => (mitem::get_param(mptr_const(r, p), n), mitem::get_param_def(mptr_const(r, p), n)),
        At::C(p) => (citem::get_param(cptr(r, p), n), citem::get_param_def(cptr(r, p), n)),
    };
    (param(a.expect("no such member")).1, param(b.expect("no such member")).1)
}

fn set_by_name(r: &mut RootObject, at: At, n: &str, t: char, v: &V) {
    macro_rules! set {
        ($f:ident) => {
            match at {
                At::Root => root::$f(RootObjectPtr::new(r), n, FromV::fv(v)),
                At::M(p) => mitem::$f(mptr(r, p), n, FromV::fv(v)),
                At::C(_) => false,
            }
        };
    }
    let ok = match t {
        'b' => set!(set_bool),
        'i' => set!(set_int),
        'f' => set!(set_float),
        's' => set!(set_str),
        'I' => set!(set_int_array),
        'F' => set!(set_float_array),
        _ => set!(set_binary),
    };
    assert!(ok, "set by name");
}

fn poke_by_name(r: &mut RootObject, at: At, n: &str, t: char) -> V {
    macro_rules! poke {
        ($f:ident) => {
            match at {
                At::Root => root::$f(RootObjectPtr::new(r), n).unwrap().poke(),
                At::M(p) => mitem::$f(mptr(r, p), n).unwrap().poke(),
                At::C(_) => V::Missing,
            }
        };
    }
    match t {
        's' => poke!(get_mutable_str),
        'I' => poke!(get_mutable_int_array),
        'F' => poke!(get_mutable_float_array),
        _ => poke!(get_mutable_binary),
    }
}

/// the target's member v
fn target(p: CItemPtr) -> V {
    param(citem::get_param(p, "v").unwrap()).1
}

pub fn vals(t: char, vt: u8) -> Vec<V> {
    let f = |x: &[f64]| V::FA(x.iter().map(|y| y.to_bits()).collect());
    let mut v = match t {
        'b' => vec![V::B(true), V::B(false)],
        'i' => vec![V::I(0), V::I(-129), V::I(i64::MAX)],
        'f' => vec![V::F(0f64.to_bits()), V::F((-0.25f64).to_bits()), V::F(1e300f64.to_bits())],
        's' => vec![V::S(String::new()), V::S("\u{3042}x".into()), V::S("long ".repeat(60))],
        'I' => vec![V::IA(vec![]), V::IA(vec![i64::MIN, 5]), V::IA(vec![1; 40])],
        'F' => vec![f(&[]), f(&[0.5, -3.0]), f(&[2.0; 40])],
        _ => vec![V::Bin(vec![]), V::Bin(vec![255, 0]), V::Bin(vec![9; 300])],
    };
    if vt & 1 != 0 {
        v.push(V::Null);
    }
    if vt & 2 != 0 {
        v.push(V::Undef);
    }
    v
}

pub trait Acc: Sized {
    fn make(r: RootObject) -> Self;
    fn obj(&self) -> &RootObject;
}

pub struct C {
    pub src: RootObject,
    pub evals: u64,
    pub fails: u64,
}

impl C {
    fn fail(&mut self, m: String) {
        self.fails += 1;
        if self.fails < 20 {
            println!("FAIL {}", m);
        }
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, what: &str, got: T, want: T) {
        self.evals += 1;
        if got != want {
            self.fail(format!("{}: {:?} instead of {:?}", what, got, want));
        }
    }
    fn same(&mut self, what: &str, got: &RootObject, want: &RootObject) {
        self.evals += 1;
        let (a, b) = (snap(want), snap(got));
        if a != b {
            self.fail(format!("{}: the document differs: {}", what, crate::snap::diff_text(&a, &b)));
        }
    }
    /// a reader and the reader of the default
    pub fn read<A: Acc>(&mut self, what: &str, at: At, n: &str, get: &dyn Fn(&A) -> V, def: &dyn Fn(&A) -> V) {
        let g = A::make(self.src.clone());
        let (a, b) = by_name(&self.src, at, n);
        self.eq(what, get(&g), a);
        self.eq(&format!("{} (default)", what), def(&g), b);
        let s = self.src.clone();
        self.same(what, g.obj(), &s);
    }
    pub fn write<A: Acc>(&mut self, what: &str, at: At, n: &str, t: char, vt: u8, get: &dyn Fn(&A) -> V, def: &dyn Fn(&A) -> V, set: &dyn Fn(&mut A, &V)) {
        let (_, d) = by_name(&self.src, at, n);
        for v in vals(t, vt) {
            let mut g = A::make(self.src.clone());
            let mut b = self.src.clone();
            set(&mut g, &v);
            set_by_name(&mut b, at, n, t, &v);
            self.eq(&format!("{} set to {:?}", what, v), get(&g), v.clone());
            self.eq(&format!("{} (default)", what), def(&g), d.clone());
            self.same(what, g.obj(), &b);
        }
    }
    pub fn poke<A: Acc>(&mut self, what: &str, at: At, n: &str, t: char, vt: u8, get: &dyn Fn(&A) -> V, poke: &dyn Fn(&mut A) -> V) {
        let mut starts: Vec<Option<V>> = vals(t, vt).into_iter().map(Some).collect();
        starts.push(None);
        for v in starts {
            let mut b = self.src.clone();
            if let Some(v) = &v {
                set_by_name(&mut b, at, n, t, v);
            }
            let mut g = A::make(b.clone());
            let got = poke(&mut g);
            let want = poke_by_name(&mut b, at, n, t);
            self.eq(&format!("{}_mut of {:?}", what, v), got, want);
            let w = by_name(&b, at, n).0;
            self.eq(&format!("{} after change in place", what), get(&g), w);
            self.same(what, g.obj(), &b);
        }
    }
    /// a mutable list: the ids, an insertion, and the first use of a list that is undefined
    pub fn list<A: Acc>(&mut self, what: &str, at: &[(&str, usize)], n: &str, ids: &dyn Fn(&A) -> Option<Vec<u64>>, touch: &dyn Fn(&mut A), ins: &dyn Fn(&mut A)) {
        let g = A::make(self.src.clone());
        let generic: Option<MListPtr<MItemPtr>> = if at.is_empty() { root::get_mlist_const(rp(&self.src), n) } else { mitem::get_mil_const(mptr_const(&self.src, at), n) }.expect("no such list");
        let want = generic.map(|l| {
            let mut v = vec![];
            let mut it = l.iter_const();
            while let Some((id, _)) = it.next_const() {
                v.push(id);
            }
            v
        });
        self.eq(what, ids(&g), want);
        for k in 0..2 {
            let mut g = A::make(self.src.clone());
            let mut b = self.src.clone();
            let mut l: MListPtr<MItemPtr> = if at.is_empty() { root::get_mlist_mut(RootObjectPtr::new(&mut b), n) } else { mitem::get_mil_mut(mptr(&mut b, at), n) }.unwrap();
            if k == 1 {
                l.insert();
                ins(&mut g);
            } else {
                touch(&mut g);
            }
            self.same(&format!("{}_mut", what), g.obj(), &b);
        }
    }
    pub fn clist(&mut self, what: &str, got: (usize, usize), want: usize) {
        self.eq(what, got, (want, want));
    }
    fn ref_by_name(r: &RootObject, at: At, t: &str) -> (V, V) {
        let (id, p) = match at {
            At::M(p) => (mitem::get_ref_id(mptr_const(r, p), t), mitem::get_ref(mptr_const(r, p), t)),
            At::C(p) => (citem::get_ref_id(cptr(r, p), t), citem::get_ref(cptr(r, p), t)),
            At::Root => (None, None),
        };
        let p = match p.expect("no such reference") {
            Qv::Val(p) => target(p),
            Qv::Null => V::Null,
            Qv::Undefined => V::Undef,
        };
        (id.expect("no such reference").tv(), p)
    }
    pub fn reference<A: Acc>(&mut self, what: &str, at: At, t: &str, id: &dyn Fn(&A) -> V, to: &dyn Fn(&A) -> V, sets: &[(Qv<&str>, &dyn Fn(&mut A))]) {
        let g = A::make(self.src.clone());
        let (a, b) = C::ref_by_name(&self.src, at, t);
        self.eq(&format!("{} id", what), id(&g), a);
        self.eq(&format!("{} target", what), to(&g), b);
        for (v, set) in sets {
            let mut g = A::make(self.src.clone());
            let mut b = self.src.clone();
            set(&mut g);
            if let At::M(p) = at {
                assert!(mitem::set_ref(mptr(&mut b, p), t, v.clone().map(|s| s.to_string())), "set_ref by name");
            }
            let (x, y) = C::ref_by_name(&b, at, t);
            self.eq(&format!("{} set, id", what), id(&g), x);
            self.eq(&format!("{} set, target", what), to(&g), y);
            self.same(&format!("{} set", what), g.obj(), &b);
        }
    }
    fn enum_by_name(r: &RootObject, at: At) -> ((String, String), V) {
        let (l, id) = match at {
            At::M(p) => mitem::get_enum(mptr_const(r, p)),
            At::C(p) => citem::get_enum(cptr(r, p)),
            At::Root => None,
        }
        .expect("no enum");
        let v = target(table::get_value(root::get_table(rp(r).def(), &l).unwrap(), &id).unwrap());
        ((l, id), v)
    }
    pub fn enumeration<A: Acc>(&mut self, what: &str, at: At, ids: &dyn Fn(&A) -> (String, String), to: &dyn Fn(&A) -> (&'static str, V), sets: &[(&str, &str, &dyn Fn(&mut A))]) {
        let g = A::make(self.src.clone());
        let ((l, i), v) = C::enum_by_name(&self.src, at);
        self.eq(what, ids(&g), (l.clone(), i));
        let (x, y) = to(&g);
        self.eq(what, (x.to_string(), y), (l, v));
        for (l, i, set) in sets {
            let mut g = A::make(self.src.clone());
            let mut b = self.src.clone();
            set(&mut g);
            if let At::M(p) = at {
                assert!(mitem::set_enum(mptr(&mut b, p), l, i), "set_enum by name");
            }
            let (_, v) = C::enum_by_name(&b, at);
            self.eq(what, ids(&g), (l.to_string(), i.to_string()));
            let (x, y) = to(&g);
            self.eq(what, (x.to_string(), y), (l.to_string(), v));
            self.same(&format!("{} set", what), g.obj(), &b);
        }
    }
    /// the ids of a table: a bijection between the keys, the numbers below their number, and the values of the enum
    pub fn ids(&mut self, what: &str, keys: &[&str], len: usize, meta: &[&str], num_to_str: &dyn Fn(usize) -> String, str_to_num: &dyn Fn(&str) -> Option<usize>, of: &[(&str, usize, &str)]) {
        self.eq(what, len, keys.len());
        let mut a: Vec<&str> = meta.to_vec();
        a.sort();
        let mut b = keys.to_vec();
        b.sort();
        self.eq(what, a, b);
        for k in keys {
            let n = str_to_num(k);
            self.eq(what, n.map(|n| n < keys.len()), Some(true));
            self.eq(what, num_to_str(n.unwrap_or(0)), k.to_string());
        }
        self.eq(what, str_to_num("no such key"), None);
        for (k, n, s) in of {
            self.eq(what, *s, *k);
            self.eq(what, Some(*n), str_to_num(k));
        }
    }
}

pub fn main<A: Acc>(dir: &str, f: fn(&mut C)) {
    let src = dochy::core::json_dir_to_root(std::path::Path::new(dir), false).expect("source");
    let mut c = C { src, evals: 0, fails: 0 };
    // the document inside is the one that was given, and comes out again
    let g = A::make(c.src.clone());
    let s = c.src.clone();
    c.same("the document inside", g.obj(), &s);
    f(&mut c);
    println!("EVALS {}", c.evals);
    std::process::exit(if c.fails == 0 { 0 } else { 1 });
}
