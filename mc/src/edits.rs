//! Edits of a document through the public accessors, and the documents they are tried on.
use crate::snap::V;
use dochy_core::intf::{mitem, root, MItemPtr, MListPtr, RootObjectPtr};
use dochy_core::structs::{Qv, RootObject};

/// A list: a member of the root, or of an item of another list.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Loc(pub String, pub Vec<(usize, String)>);

impl Loc {
    pub fn root(n: &str) -> Loc {
        Loc(n.to_string(), vec![])
    }
    pub fn sub(&self, pos: usize, n: &str) -> Loc {
        let mut l = self.clone();
        l.1.push((pos, n.to_string()));
        l
    }
}

pub type At = Option<(Loc, usize)>;

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Ed {
    Set(At, String, V),
    /// edit a string or array in place
    InPlace(At, String, u8),
    Init(At, String, usize),
    Ref(At, String, V),
    Enum(At, String, String),
    Ins(Loc, bool),
    Rem(Loc, usize),
    RemEnd(Loc, bool),
    ToEnd(Loc, usize, bool),
    Beside(Loc, usize, usize, bool),
}

fn rp(r: &mut RootObject) -> RootObjectPtr {
    RootObjectPtr::new(r)
}

pub fn list(r: &mut RootObject, l: &Loc) -> Option<MListPtr<MItemPtr>> {
    let mut p: MListPtr<MItemPtr> = root::get_mlist_mut(rp(r), &l.0)?;
    for (i, n) in &l.1 {
        let it = nth(&mut p, *i)?;
        p = mitem::get_mil_mut(it, n)?;
    }
    Some(p)
}

pub fn nth(p: &mut MListPtr<MItemPtr>, n: usize) -> Option<MItemPtr> {
    let mut it = p.iter_mut();
    for _ in 0..n {
        it.next_mut()?;
    }
    it.next_mut().map(|x| x.1)
}

fn nth_id(p: &MListPtr<MItemPtr>, n: usize) -> Option<u64> {
    let mut it = p.iter_const();
    for _ in 0..n {
        it.next_const()?;
    }
    it.next_const().map(|x| x.0)
}

pub fn item(r: &mut RootObject, at: &(Loc, usize)) -> Option<MItemPtr> {
    let mut l = list(r, &at.0)?;
    nth(&mut l, at.1)
}

fn f(b: &u64) -> f64 {
    f64::from_bits(*b)
}

/// Sets a value of the kind `v` has; Null and Undef need the member's type letter.
pub fn set(r: &mut RootObject, at: &At, name: &str, v: &V, ty: char) -> Option<bool> {
    macro_rules! go {
        ($fun:ident, $val:expr) => {
            match at {
                None => Some(root::$fun(rp(r), name, $val)),
                Some(a) => {
                    let it = item(r, a)?;
                    Some(mitem::$fun(it, name, $val))
                }
            }
        };
    }
    match v {
        V::B(b) => go!(set_bool, Qv::Val(*b)),
        V::I(i) => go!(set_int, Qv::Val(*i)),
        V::F(x) => go!(set_float, Qv::Val(f(x))),
        V::S(s) => go!(set_str, Qv::Val(s.clone())),
        V::IA(a) => go!(set_int_array, Qv::Val(a.clone())),
        V::FA(a) => go!(set_float_array, Qv::Val(a.iter().map(f).collect())),
        V::Bin(a) => go!(set_binary, Qv::Val(a.clone())),
        V::Null | V::Undef => {
            macro_rules! n {
                ($fun:ident) => {
                    if *v == V::Null {
                        go!($fun, Qv::Null)
                    } else {
                        go!($fun, Qv::Undefined)
                    }
                };
            }
            match ty {
                'b' => n!(set_bool),
                'i' => n!(set_int),
                'f' => n!(set_float),
                's' => n!(set_str),
                'I' => n!(set_int_array),
                'F' => n!(set_float_array),
                'B' => n!(set_binary),
                _ => unreachable!(),
            }
        }
        _ => unreachable!(),
    }
}

/// In-place edits of strings and arrays; false if the value is null or undefined.
fn in_place(r: &mut RootObject, at: &At, name: &str, how: u8) -> Option<bool> {
    macro_rules! vecs {
        ($fun:ident, $one:expr) => {{
            let q = match at {
                None => root::$fun(rp(r), name),
                Some(a) => mitem::$fun(item(r, a)?, name),
            };
            if let Some(Qv::Val(v)) = q {
                match how {
                    0 => v.push($one),
                    1 => v.clear(),
                    _ => {
                        if v.is_empty() {
                            return Some(false);
                        }
                        let n = v.len() - 1;
                        v[n] = $one;
                    }
                }
                return Some(true);
            }
        }};
    }
    let ty = name.chars().next().unwrap();
    match ty {
        's' => {
            let q = match at {
                None => root::get_mutable_str(rp(r), name),
                Some(a) => mitem::get_mutable_str(item(r, a)?, name),
            };
            if let Some(Qv::Val(s)) = q {
                match how {
                    0 => s.push_str("+é"),
                    1 => s.clear(),
                    _ => s.insert(0, 'q'),
                }
                return Some(true);
            }
        }
        'j' => vecs!(get_mutable_int_array, -7),
        'g' => vecs!(get_mutable_float_array, -0.5),
        'y' => vecs!(get_mutable_binary, 200),
        _ => unreachable!(),
    }
    Some(false)
}

/// The type letter of a member named by the convention of `value_members`.
pub fn type_of(name: &str) -> char {
    match name.chars().next().unwrap() {
        'j' => 'I',
        'g' => 'F',
        'y' => 'B',
        c => c,
    }
}

/// Applies an edit. None or Some(false): it does not apply to this document and changed nothing.
pub fn apply(r: &mut RootObject, e: &Ed) -> Option<bool> {
    match e {
        Ed::Set(at, n, v) => set(r, at, n, v, type_of(n)),
        Ed::InPlace(at, n, how) => in_place(r, at, n, *how),
        Ed::Init(at, n, len) => match at {
            None => Some(root::set_initial_value(rp(r), n, *len)),
            Some(a) => Some(mitem::set_initial_value(item(r, a)?, n, *len)),
        },
        Ed::Ref(at, n, v) => {
            let it = item(r, at.as_ref()?)?;
            Some(mitem::set_ref(
                it,
                n,
                match v {
                    V::Id(s) => Qv::Val(s.clone()),
                    V::Null => Qv::Null,
                    _ => Qv::Undefined,
                },
            ))
        }
        Ed::Enum(at, n, id) => Some(mitem::set_enum(item(r, at.as_ref()?)?, n, id)),
        Ed::Ins(l, first) => {
            let mut p = list(r, l)?;
            if *first {
                p.insert_first();
            } else {
                p.insert_last();
            }
            Some(true)
        }
        Ed::Rem(l, i) => {
            let mut p = list(r, l)?;
            let id = nth_id(&p, *i)?;
            Some(unsafe { p.remove(id) })
        }
        Ed::RemEnd(l, first) => {
            let mut p = list(r, l)?;
            Some(unsafe {
                if *first {
                    p.remove_first()
                } else {
                    p.remove_last()
                }
            })
        }
        Ed::ToEnd(l, i, first) => {
            let mut p = list(r, l)?;
            let id = nth_id(&p, *i)?;
            Some(if *first { p.move_to_first(id) } else { p.move_to_last(id) })
        }
        Ed::Beside(l, a, b, next) => {
            if a == b {
                return Some(false);
            }
            let mut p = list(r, l)?;
            let (x, y) = (nth_id(&p, *a)?, nth_id(&p, *b)?);
            Some(if *next { p.move_to_next(x, y) } else { p.move_to_prev(x, y) })
        }
    }
}

// ---- members of every type and null/undefined form

pub const TYPES: [char; 7] = ['b', 'i', 'f', 's', 'j', 'g', 'y'];
/// plain, nullable, undefiable, both
pub const FORMS: [(&str, &str); 4] = [("n", ""), ("q", "?"), ("u", "!"), ("x", "!?")];

pub fn default_text(t: char) -> &'static str {
    match t {
        'b' => "true",
        'i' => "5",
        'f' => "0.5",
        's' => "\"def\"",
        'j' => "[\"IntArray\", 1, 2]",
        'g' => "[\"FloatArray\", 1.5]",
        _ => "[\"Binary\", 1, 255]",
    }
}

pub fn default_value(t: char) -> V {
    match t {
        'b' => V::B(true),
        'i' => V::I(5),
        'f' => V::F(0.5f64.to_bits()),
        's' => V::S("def".into()),
        'j' => V::IA(vec![1, 2]),
        'g' => V::FA(vec![1.5f64.to_bits()]),
        _ => V::Bin(vec![1, 255]),
    }
}

/// (name, form suffix) of the 28 members.
pub fn value_members() -> Vec<(String, &'static str)> {
    let mut v = vec![];
    for t in TYPES {
        for (n, suf) in FORMS {
            v.push((format!("{}{}", t, n), suf));
        }
    }
    v
}

pub fn value_members_text() -> String {
    value_members()
        .iter()
        .map(|(n, s)| format!("\"{}{}\" : {}", n, s, default_text(n.chars().next().unwrap())))
        .collect::<Vec<_>>()
        .join(", ")
}

pub fn permits(form: &str, v: &V) -> bool {
    match v {
        V::Null => form.contains('?'),
        V::Undef => form.contains('!'),
        _ => true,
    }
}

fn b(x: f64) -> u64 {
    x.to_bits()
}

/// Boundary values of a type, default included.
pub fn values(t: char) -> Vec<V> {
    match t {
        'b' => vec![V::B(true), V::B(false)],
        'i' => {
            let mut v = vec![0i64, 1, -1, 2, 5, -2];
            for e in [7u32, 8, 15, 16, 23, 24, 31, 32, 39, 40, 47, 48, 55, 56, 62] {
                let p = 1i64 << e;
                v.extend_from_slice(&[p - 1, p, -p, -p - 1]);
            }
            v.extend_from_slice(&[i64::MAX, i64::MIN, i64::MIN + 1]);
            v.into_iter().map(V::I).collect()
        }
        'f' => vec![
            0.0, -0.0, 0.5, 1.0, -1.0, 0.1, 0.25, 100.0, 127.0, 128.0, -128.0, 255.0, 256.0, 32767.0, 65536.0, 1e10, 16777216.0, 16777217.0, 4294967296.0, 9007199254740993.0, 9223372036854775807.0, 1e100, 1.5e-300, 5e-324, f64::MAX,
            f64::MIN, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::EPSILON, 3.4028234663852886e38, 3.5e38, 1.401298464324817e-45, 0.3f32 as f64, 1e-40,
        ]
        .into_iter()
        .map(|x| V::F(b(x)))
        .chain(vec![V::F(0x7ff0_0000_0000_0001), V::F(0xfff8_0000_0000_0123)])
        .collect(),
        's' => {
            let mut v: Vec<String> = ["", "a", "def", "é", "日本", "𝄞", "\0", "\n\"'\\", "123", "-1", "1.5", "null", "undefined"].iter().map(|s| s.to_string()).collect();
            for n in [15, 16, 17, 31, 32, 127, 128, 129, 130, 255, 256, 257, 300, 65535, 65536, 65537] {
                v.push("x".repeat(n));
            }
            v.push(format!("{}é", "x".repeat(126)));
            v.push(format!("{}é", "x".repeat(254)));
            v.into_iter().map(V::S).collect()
        }
        'j' => {
            let mut v = vec![vec![], vec![0], vec![1, 2], vec![-1], vec![i64::MIN, i64::MAX], vec![127, 128, -128, -129]];
            for n in [15, 16, 17, 127, 128, 129, 255, 256, 257, 8191, 8192, 8193] {
                v.push((0..n).map(|i| i * 77 - 300).collect());
            }
            v.into_iter().map(V::IA).collect()
        }
        'g' => {
            let mut v = vec![vec![], vec![b(0.0)], vec![b(-0.0)], vec![b(1.5)], vec![b(f64::NAN), b(f64::INFINITY)], vec![0x7ff0_0000_0000_0001]];
            for n in [15, 16, 17, 127, 128, 255, 256, 257] {
                v.push((0..n).map(|i| b(i as f64 * 0.1 - 3.0)).collect());
            }
            v.into_iter().map(V::FA).collect()
        }
        _ => {
            let mut v: Vec<Vec<u8>> = vec![vec![], vec![0], vec![1, 255], vec![128, 127]];
            for n in [15usize, 16, 17, 127, 128, 129, 255, 256, 257, 65535, 65536, 65537] {
                v.push((0..n).map(|i| (i * 7) as u8).collect());
            }
            v.into_iter().map(V::Bin).collect()
        }
    }
}

/// A few distinguishable values of a type.
pub fn few(t: char) -> Vec<V> {
    match t {
        'b' => vec![V::B(false), V::B(true)],
        'i' => vec![V::I(-300), V::I(5)],
        'f' => vec![V::F(b(-0.0)), V::F(b(0.0)), V::F(b(0.1))],
        's' => vec![V::S("".into()), V::S("zé".into())],
        'j' => vec![V::IA(vec![]), V::IA(vec![1 << 40, -1])],
        'g' => vec![V::FA(vec![]), V::FA(vec![b(-0.0), b(2.5)])],
        _ => vec![V::Bin(vec![]), V::Bin(vec![9, 8, 7])],
    }
}

pub fn all_values(name: &str, form: &str) -> Vec<V> {
    let mut v = values(name.chars().next().unwrap());
    for x in [V::Null, V::Undef] {
        if permits(form, &x) {
            v.push(x);
        }
    }
    v
}

pub fn few_values(name: &str, form: &str) -> Vec<V> {
    let mut v = few(name.chars().next().unwrap());
    for x in [V::Null, V::Undef] {
        if permits(form, &x) {
            v.push(x);
        }
    }
    v
}
