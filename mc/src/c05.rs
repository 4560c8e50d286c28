//! C05: mutable lists are ordered sequences with unique, never reused ids.
use crate::docs::root_of;
use crate::infra::*;
use dochy_core::intf::{mitem, root, MItemPtr, MListConst, MListMut, MListPtr, RootObjectPtr};
use dochy_core::structs::{LinkedMap, Qv, RootObject};
use std::collections::BTreeSet;

pub fn check() -> Check {
    Check {
        id: "C05",
        level: "model_checking",
        rule: "every sequence of list operations up to the depth from every start list, without merging, on the list container, on a document's list through pointers, on a nested list, and through the safe wrappers; then breadth-first over (order, next id) states to a larger depth; every cursor walk up to the bound from every start on every list size; lists of up to 300 items with operations at their ends and in the middle and long runs of them; ids at the integer width edges. A state is a distinct (container, ids with payloads, next id).",
        assumptions: &["operands are taken from: every position, one removed id, one never used id", "list sizes up to 7"],
        cases,
        run,
        hang_s: 60,
        max_workers: 64,
    }
}

const SRC: &str = r#"{ list : ["MList", [{ x : 0, inner : ["MilDef", [{ x : 0 }]] }], { x : 100 }, { x : 101 }], other : ["MList", [{ x : 0 }], { x : 7 }] }"#;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum R {
    Pos(usize),
    Removed,
    Unused,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Op {
    InsLast,
    InsFirst,
    Ins,
    Rem(R),
    RemFirst,
    RemLast,
    First(R),
    Last(R),
    Prev(R, R),
    Next(R, R),
    /// replace the list by a copy of it
    Copy,
    /// replace the list by what its stored form reads back as
    Store,
    /// container only: insert with an id of the caller's choice
    WithIdFirst(R),
    WithIdLast(R),
}

/// What the list shows.
type Shown = (Vec<(u64, i64)>, u64);

trait Lut {
    /// returns the new item's id
    fn insert(&mut self, last: Option<bool>, payload: i64) -> u64;
    fn remove(&mut self, id: u64) -> bool;
    fn remove_end(&mut self, last: bool) -> bool;
    fn to_end(&mut self, last: bool, id: u64) -> bool;
    fn beside(&mut self, next: bool, at: u64, id: u64) -> bool;
    fn with_id(&mut self, _last: bool, _id: u64, _payload: i64) -> bool {
        unreachable!()
    }
    fn copy(&mut self);
    fn store(&mut self) -> Result<(), String>;
    fn next_id(&mut self) -> u64;
    /// Every view of the list must agree with `want`.
    fn agree(&mut self, want: &[(u64, i64)], absent: &[u64]) -> Result<(), String>;
    /// Walks cursors; bit 0 of each step: 0 forward, 1 backward
    fn walk(&mut self, want: &[(u64, i64)], steps: &[u8]) -> Result<u64, String>;
    fn shown(&mut self) -> Shown;
}

fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{}: got {:?}, should be {:?}", what, got, want))
    }
}

/// A cursor over `n` positions: both directions return the current item and move on; off either end it is gone.
fn cursor_model(n: usize, start: usize, steps: &[u8]) -> (Vec<Option<usize>>, Option<usize>) {
    let mut c = if n == 0 { None } else { Some(start) };
    let mut out = vec![];
    for s in steps {
        out.push(c);
        c = match (c, s & 1) {
            (None, _) => None,
            (Some(i), 0) => {
                if i + 1 < n {
                    Some(i + 1)
                } else {
                    None
                }
            }
            (Some(0), _) => None,
            (Some(i), _) => Some(i - 1),
        };
    }
    (out, c)
}

macro_rules! check_walk {
    ($what:expr, $it:expr, $val:expr, $n:expr, $start:expr, $steps:expr, $want:expr, $next:ident, $prev:ident, $current:ident) => {{
        let mut it = $it;
        let (seen, end) = cursor_model($n, $start, $steps);
        for (k, s) in $steps.iter().enumerate() {
            let g = if s & 1 == 0 { it.$next() } else { it.$prev() };
            let g = g.map($val);
            same(&format!("{} from {} step {} of {:?}", $what, $start, k, $steps), g, seen[k].map(|i| $want[i]))?;
        }
        same(&format!("{} availability after {:?}", $what, $steps), it.is_available(), end.is_some())?;
        same(&format!("{} is_first from {} after {:?}", $what, $start, $steps), it.is_first(), end == Some(0))?;
        same(&format!("{} is_last from {} after {:?}", $what, $start, $steps), it.is_last(), end.is_some() && end == Some($n.wrapping_sub(1)))?;
        let c = it.$current().map($val);
        same(&format!("{} current from {} after {:?}", $what, $start, $steps), c, end.map(|i| $want[i]))?;
    }};
}

// ---- the container itself

struct Raw(LinkedMap<i64>);

impl Lut for Raw {
    fn insert(&mut self, last: Option<bool>, p: i64) -> u64 {
        match last {
            None => self.0.insert(p),
            Some(true) => self.0.insert_last(p),
            Some(false) => self.0.insert_first(p),
        }
    }
    fn remove(&mut self, id: u64) -> bool {
        self.0.remove(id)
    }
    fn remove_end(&mut self, last: bool) -> bool {
        if last {
            self.0.remove_last()
        } else {
            self.0.remove_first()
        }
    }
    fn to_end(&mut self, last: bool, id: u64) -> bool {
        if last {
            self.0.move_to_last(id)
        } else {
            self.0.move_to_first(id)
        }
    }
    fn beside(&mut self, next: bool, at: u64, id: u64) -> bool {
        if next {
            self.0.move_to_next(at, id)
        } else {
            self.0.move_to_prev(at, id)
        }
    }
    fn with_id(&mut self, last: bool, id: u64, p: i64) -> bool {
        if last {
            self.0.insert_last_with_id(id, p)
        } else {
            self.0.insert_first_with_id(id, p)
        }
    }
    fn copy(&mut self) {
        let c = self.0.clone();
        self.0 = c;
    }
    fn store(&mut self) -> Result<(), String> {
        let n = self.0.next_id();
        let old = std::mem::replace(&mut self.0, LinkedMap::new());
        self.0 = LinkedMap::construct(old.into_iter().collect(), n);
        Ok(())
    }
    fn next_id(&mut self) -> u64 {
        self.0.next_id()
    }
    fn agree(&mut self, want: &[(u64, i64)], absent: &[u64]) -> Result<(), String> {
        let n = want.len();
        same("len", self.0.len(), n)?;
        same("is_empty", self.0.is_empty(), n == 0)?;
        same("first_id", self.0.first_id(), want.first().map(|x| x.0))?;
        same("last_id", self.0.last_id(), want.last().map(|x| x.0))?;
        same("first", self.0.first().copied(), want.first().map(|x| x.1))?;
        same("last", self.0.last().copied(), want.last().map(|x| x.1))?;
        same("first_mut", self.0.first_mut().map(|x| *x), want.first().map(|x| x.1))?;
        same("last_mut", self.0.last_mut().map(|x| *x), want.last().map(|x| x.1))?;
        let f: Vec<(u64, i64)> = self.0.iter().take(n + 2).map(|(a, b)| (*a, *b)).collect();
        same("iter", &f[..], want)?;
        let f: Vec<(u64, i64)> = self.0.iter_mut().take(n + 2).map(|(a, b)| (*a, *b)).collect();
        same("iter_mut", &f[..], want)?;
        let mut b = vec![];
        let mut it = self.0.iter_from_last();
        while let Some((a, c)) = it.prev() {
            b.push((*a, *c));
            if b.len() > n {
                break;
            }
        }
        b.reverse();
        same("iter_from_last backwards", &b[..], want)?;
        for (i, (id, p)) in want.iter().enumerate() {
            same("get_item", self.0.get_item(*id).copied(), Some(*p))?;
            same("get_item_mut", self.0.get_item_mut(*id).map(|x| *x), Some(*p))?;
            same("contains_key", self.0.contains_key(*id), true)?;
            let f: Vec<(u64, i64)> = self.0.iter_from_id(*id).ok_or("iter_from_id of a member")?.take(n + 2).map(|(a, b)| (*a, *b)).collect();
            same("iter_from_id", &f[..], &want[i..])?;
            let f: Vec<(u64, i64)> = self.0.iter_mut_from_id(*id).ok_or("iter_mut_from_id of a member")?.take(n + 2).map(|(a, b)| (*a, *b)).collect();
            same("iter_mut_from_id", &f[..], &want[i..])?;
        }
        for id in absent {
            same("get_item of an absent id", self.0.get_item(*id).copied(), None)?;
            same("contains_key of an absent id", self.0.contains_key(*id), false)?;
            same("iter_from_id of an absent id", self.0.iter_from_id(*id).is_none(), true)?;
            same("iter_mut_from_id of an absent id", self.0.iter_mut_from_id(*id).is_none(), true)?;
        }
        let c = self.0.clone();
        same("a copy's next id", c.next_id(), self.0.next_id())?;
        same("equality with a copy", c == self.0, true)?;
        let o: Vec<(u64, i64)> = c.into_iter().take(n + 2).collect();
        same("into_iter of a copy", &o[..], want)
    }
    fn walk(&mut self, want: &[(u64, i64)], steps: &[u8]) -> Result<u64, String> {
        let n = want.len();
        let val = |(a, b): (&u64, &i64)| (*a, *b);
        let mut k = 2;
        check_walk!("iter", self.0.iter(), val, n, 0, steps, want, next, prev, current);
        check_walk!("iter_from_last", self.0.iter_from_last(), val, n, n.wrapping_sub(1), steps, want, next, prev, current);
        for i in 0..n {
            check_walk!("iter_from_id", self.0.iter_from_id(want[i].0).unwrap(), val, n, i, steps, want, next, prev, current);
            k += 1;
        }
        // the mutable container iterator only moves forward
        if steps.iter().all(|s| s & 1 == 0) {
            let mut it = self.0.iter_mut();
            let (seen, end) = cursor_model(n, 0, steps);
            for w in &seen {
                same("iter_mut step", it.next().map(|(a, b)| (*a, *b)), w.map(|i| want[i]))?;
            }
            same("iter_mut is_available", it.is_available(), end.is_some())?;
            same("iter_mut is_first", it.is_first(), end == Some(0))?;
            same("iter_mut is_last", it.is_last(), end.is_some() && end == Some(n - 1))?;
            k += 1;
        }
        Ok(k)
    }
    fn shown(&mut self) -> Shown {
        (self.0.iter().take(100).map(|(a, b)| (*a, *b)).collect(), self.0.next_id())
    }
}

// ---- a list of a document

#[derive(Clone, Copy, PartialEq)]
enum How {
    Ptr,
    Safe,
}

struct InDoc {
    r: Box<RootObject>,
    base: RootObject,
    nested: bool,
    how: How,
}

fn xval(p: MItemPtr) -> i64 {
    match mitem::get_int(p, "x") {
        Some(Qv::Val(v)) => v,
        o => panic!("item's x reads {:?}", o),
    }
}

impl InDoc {
    fn new(base: &RootObject, nested: bool, how: How) -> InDoc {
        InDoc { r: Box::new(base.clone()), base: base.clone(), nested, how }
    }
    fn ptr(&mut self) -> MListPtr<MItemPtr> {
        let p = RootObjectPtr::new(self.r.as_mut());
        let mut l: MListPtr<MItemPtr> = root::get_mlist_mut(p, "list").expect("list");
        if self.nested {
            let it = l.first_mut().expect("outer item");
            mitem::get_mil_mut(it, "inner").expect("inner list")
        } else {
            l
        }
    }
    fn cptr(&self) -> MListPtr<MItemPtr> {
        let p = RootObjectPtr::new(self.r.as_ref() as *const RootObject as *mut RootObject);
        let l: MListPtr<MItemPtr> = root::get_mlist_const(p, "list").expect("list").expect("list");
        if self.nested {
            let it = l.first_const().expect("outer item");
            mitem::get_mil_const(it, "inner").expect("inner list").expect("inner list")
        } else {
            l
        }
    }
}

impl Lut for InDoc {
    fn insert(&mut self, last: Option<bool>, payload: i64) -> u64 {
        let how = self.how;
        let mut l = self.ptr();
        let n = l.next_id();
        let it = if how == How::Ptr {
            match last {
                None => l.insert(),
                Some(true) => l.insert_last(),
                Some(false) => l.insert_first(),
            }
        } else {
            let mut u = ();
            let mut m = MListMut::new(l, &mut u);
            let it = match last {
                None => m.insert(),
                Some(true) => m.insert_last(),
                Some(false) => m.insert_first(),
            };
            *it
        };
        assert!(mitem::set_int(it, "x", Qv::Val(payload)), "setting x failed");
        n
    }
    fn remove(&mut self, id: u64) -> bool {
        let how = self.how;
        let mut l = self.ptr();
        if how == How::Ptr {
            unsafe { l.remove(id) }
        } else {
            MListMut::new(l, &mut ()).remove(id)
        }
    }
    fn remove_end(&mut self, last: bool) -> bool {
        let how = self.how;
        let mut l = self.ptr();
        match (how == How::Ptr, last) {
            (true, true) => unsafe { l.remove_last() },
            (true, false) => unsafe { l.remove_first() },
            (false, true) => MListMut::new(l, &mut ()).remove_last(),
            (false, false) => MListMut::new(l, &mut ()).remove_first(),
        }
    }
    fn to_end(&mut self, last: bool, id: u64) -> bool {
        let how = self.how;
        let mut l = self.ptr();
        match (how == How::Ptr, last) {
            (true, true) => l.move_to_last(id),
            (true, false) => l.move_to_first(id),
            (false, true) => MListMut::new(l, &mut ()).move_to_last(id),
            (false, false) => MListMut::new(l, &mut ()).move_to_first(id),
        }
    }
    fn beside(&mut self, next: bool, at: u64, id: u64) -> bool {
        let how = self.how;
        let mut l = self.ptr();
        match (how == How::Ptr, next) {
            (true, true) => l.move_to_next(at, id),
            (true, false) => l.move_to_prev(at, id),
            (false, true) => MListMut::new(l, &mut ()).move_to_next(at, id),
            (false, false) => MListMut::new(l, &mut ()).move_to_prev(at, id),
        }
    }
    fn copy(&mut self) {
        let c = Box::new(self.r.as_ref().clone());
        self.r = c;
    }
    fn store(&mut self) -> Result<(), String> {
        let b = dochy_diff::get_diff(&self.base, self.r.as_ref()).map_err(|e| format!("diff: {}", e))?;
        let mut r = Box::new(self.base.clone());
        dochy_diff::apply_diff(r.as_mut(), &mut &b[..]).map_err(|e| format!("apply: {}", e))?;
        self.r = r;
        Ok(())
    }
    fn next_id(&mut self) -> u64 {
        self.ptr().next_id()
    }
    fn agree(&mut self, want: &[(u64, i64)], absent: &[u64]) -> Result<(), String> {
        let n = want.len();
        let how = self.how;
        let mut l = self.ptr();
        let val = |(a, p): (u64, MItemPtr)| (a, xval(p));
        if how == How::Ptr {
            same("len", l.len(), n)?;
            same("is_empty", l.is_empty(), n == 0)?;
            same("first_id", l.first_id(), want.first().map(|x| x.0))?;
            same("last_id", l.last_id(), want.last().map(|x| x.0))?;
            same("first", l.first_const().map(xval), want.first().map(|x| x.1))?;
            same("last", l.last_const().map(xval), want.last().map(|x| x.1))?;
            same("first_mut", l.first_mut().map(xval), want.first().map(|x| x.1))?;
            same("last_mut", l.last_mut().map(xval), want.last().map(|x| x.1))?;
            let f: Vec<(u64, i64)> = l.iter_mut().take(n + 2).map(val).collect();
            same("iterator", &f[..], want)?;
            for (i, (id, p)) in want.iter().enumerate() {
                same("get_item_const", l.get_item_const(*id).map(xval), Some(*p))?;
                same("get_item_mut", l.get_item_mut(*id).map(xval), Some(*p))?;
                same("contains_key", l.contains_key(*id), true)?;
                let f: Vec<(u64, i64)> = l.iter_from_id_mut(*id).ok_or("iter_from_id_mut of a member")?.take(n + 2).map(val).collect();
                same("iter_from_id_mut", &f[..], &want[i..])?;
            }
            for id in absent {
                same("get_item_const of an absent id", l.get_item_const(*id).is_none(), true)?;
                same("get_item_mut of an absent id", l.get_item_mut(*id).is_none(), true)?;
                same("contains_key of an absent id", l.contains_key(*id), false)?;
                same("iter_from_id of an absent id", l.iter_from_id_const(*id).is_none() && l.iter_from_id_mut(*id).is_none(), true)?;
            }
            let mut c = self.cptr();
            let mut b = vec![];
            let mut it = c.iter_from_last_const();
            while let Some(x) = it.prev_const() {
                b.push(val(x));
                if b.len() > n {
                    break;
                }
            }
            let mut it = c.iter_from_last_mut();
            let mut b2 = vec![];
            while let Some(x) = it.prev_mut() {
                b2.push(val(x));
                if b2.len() > n {
                    break;
                }
            }
            b.reverse();
            b2.reverse();
            same("backwards", &b[..], want)?;
            same("backwards mut", &b2[..], want)
        } else {
            {
                let mut u = ();
                let mut m = MListMut::new(l, &mut u);
                same("len", m.len(), n)?;
                same("is_empty", m.is_empty(), n == 0)?;
                same("first_id", m.first_id(), want.first().map(|x| x.0))?;
                same("last_id", m.last_id(), want.last().map(|x| x.0))?;
                same("first_mut", m.first_mut().map(|p| xval(*p)), want.first().map(|x| x.1))?;
                same("last_mut", m.last_mut().map(|p| xval(*p)), want.last().map(|x| x.1))?;
                let f: Vec<(u64, i64)> = m.iter().take(n + 2).map(|(a, p)| (a, xval(*p))).collect();
                same("iterator", &f[..], want)?;
                for (id, p) in want.iter() {
                    same("get_mut", m.get_mut(*id).map(|p| xval(*p)), Some(*p))?;
                    same("contains_key", m.contains_key(*id), true)?;
                }
                for id in absent {
                    same("get_mut of an absent id", m.get_mut(*id).is_none(), true)?;
                    same("contains_key of an absent id", m.contains_key(*id), false)?;
                }
            }
            let c = MListConst::new(self.cptr(), &());
            same("const len", c.len(), n)?;
            same("const is_empty", c.is_empty(), n == 0)?;
            same("const first_id", c.first_id(), want.first().map(|x| x.0))?;
            same("const last_id", c.last_id(), want.last().map(|x| x.0))?;
            same("const first", c.first().map(|p| xval(*p)), want.first().map(|x| x.1))?;
            same("const last", c.last().map(|p| xval(*p)), want.last().map(|x| x.1))?;
            let f: Vec<(u64, i64)> = Iterator::take(c.iter(), n + 2).map(|(a, p)| (a, xval(*p))).collect();
            same("const iterator", &f[..], want)?;
            let mut b = vec![];
            let mut it = c.iter_from_last();
            while let Some((a, p)) = it.prev() {
                b.push((a, xval(*p)));
                if b.len() > n {
                    break;
                }
            }
            b.reverse();
            same("backwards", &b[..], want)?;
            for (i, (id, p)) in want.iter().enumerate() {
                same("const get_item", c.get_item(*id).map(|p| xval(*p)), Some(*p))?;
                same("const contains_key", c.contains_key(*id), true)?;
                let f: Vec<(u64, i64)> = Iterator::take(c.iter_from_id(*id).ok_or("iter_from_id of a member")?, n + 2).map(|(a, p)| (a, xval(*p))).collect();
                same("const iter_from_id", &f[..], &want[i..])?;
            }
            for id in absent {
                same("const get_item of an absent id", c.get_item(*id).is_none(), true)?;
                same("const contains_key of an absent id", c.contains_key(*id), false)?;
                same("const iter_from_id of an absent id", c.iter_from_id(*id).is_none(), true)?;
            }
            Ok(())
        }
    }
    fn walk(&mut self, want: &[(u64, i64)], steps: &[u8]) -> Result<u64, String> {
        let n = want.len();
        let how = self.how;
        let mut l = self.ptr();
        let mut k = 2;
        let l1 = n.wrapping_sub(1);
        if how == How::Ptr {
            let val = |(a, p): (u64, MItemPtr)| (a, xval(p));
            check_walk!("pointer iter", l.iter_const(), val, n, 0, steps, want, next_const, prev_const, current_const);
            check_walk!("pointer iter mut", l.iter_mut(), val, n, 0, steps, want, next_mut, prev_mut, current_mut);
            check_walk!("pointer iter from last", l.iter_from_last_const(), val, n, l1, steps, want, next_const, prev_const, current_const);
            check_walk!("pointer iter from last mut", l.iter_from_last_mut(), val, n, l1, steps, want, next_mut, prev_mut, current_mut);
            for i in 0..n {
                let id = want[i].0;
                check_walk!("pointer iter from id", l.iter_from_id_const(id).unwrap(), val, n, i, steps, want, next_const, prev_const, current_const);
                check_walk!("pointer iter from id mut", l.iter_from_id_mut(id).unwrap(), val, n, i, steps, want, next_mut, prev_mut, current_mut);
                k += 2;
            }
        } else {
            let mut u = ();
            let mut m = MListMut::new(l, &mut u);
            check_walk!("mutable iterator", m.iter(), |(a, p)| (a, xval(*p)), n, 0, steps, want, next, prev, current);
            let u = ();
            let c = MListConst::new(self.cptr(), &u);
            check_walk!("constant iterator", c.iter(), |(a, p)| (a, xval(*p)), n, 0, steps, want, next, prev, current);
            check_walk!("constant iterator from last", c.iter_from_last(), |(a, p)| (a, xval(*p)), n, l1, steps, want, next, prev, current);
            for i in 0..n {
                check_walk!("constant iterator from id", c.iter_from_id(want[i].0).unwrap(), |(a, p)| (a, xval(*p)), n, i, steps, want, next, prev, current);
                k += 1;
            }
        }
        Ok(k)
    }
    fn shown(&mut self) -> Shown {
        let l = self.ptr();
        (l.iter_const().take(100).map(|(a, p)| (a, xval(p))).collect(), l.next_id())
    }
}

// ---- the reference

#[derive(Clone, Default)]
struct Model {
    l: Vec<(u64, i64)>,
    used: BTreeSet<u64>,
    gone: Option<u64>,
    serial: i64,
}

impl Model {
    fn id(&self, r: R) -> Option<u64> {
        match r {
            R::Pos(i) => self.l.get(i).map(|x| x.0),
            R::Removed => self.gone,
            R::Unused => Some(self.used.iter().last().map(|x| x + 1000).unwrap_or(77)),
        }
    }
    fn at(&self, id: u64) -> Option<usize> {
        self.l.iter().position(|x| x.0 == id)
    }
    fn take(&mut self, id: u64) -> Option<(u64, i64)> {
        self.at(id).map(|i| self.l.remove(i))
    }
    fn new_id(&mut self, id: u64) -> Result<(), String> {
        if self.used.insert(id) {
            Ok(())
        } else {
            Err(format!("insertion got id {} which this list already used", id))
        }
    }
    fn absent(&self) -> Vec<u64> {
        let mut v: Vec<u64> = self.used.iter().filter(|x| self.at(**x).is_none()).copied().collect();
        v.extend(self.id(R::Unused));
        v
    }
}

fn ops(n: usize, raw: bool) -> Vec<Op> {
    let mut v = vec![Op::InsLast, Op::InsFirst, Op::Ins, Op::RemFirst, Op::RemLast, Op::Copy, Op::Store];
    let mut rs: Vec<R> = (0..n).map(R::Pos).collect();
    rs.push(R::Removed);
    rs.push(R::Unused);
    for a in &rs {
        v.push(Op::Rem(*a));
        v.push(Op::First(*a));
        v.push(Op::Last(*a));
        for b in &rs {
            if matches!(a, R::Pos(_)) || matches!(b, R::Pos(_)) {
                v.push(Op::Prev(*a, *b));
                v.push(Op::Next(*a, *b));
            }
        }
    }
    if raw {
        v.push(Op::WithIdFirst(R::Removed));
        v.push(Op::WithIdLast(R::Unused));
        if n > 0 {
            v.push(Op::WithIdFirst(R::Pos(0)));
            v.push(Op::WithIdLast(R::Pos(n - 1)));
        }
    }
    v
}

/// Applies an operation to both; false if it has no operand in this state.
fn apply(t: &mut dyn Lut, m: &mut Model, op: Op) -> Result<bool, String> {
    macro_rules! id {
        ($r:expr) => {
            match m.id($r) {
                Some(x) => x,
                None => return Ok(false),
            }
        };
    }
    let fail = |got: bool, want: bool| {
        if got == want {
            Ok(true)
        } else {
            Err(format!("{:?} reports {}, should be {}", op, got, want))
        }
    };
    match op {
        Op::InsLast | Op::InsFirst | Op::Ins => {
            m.serial += 1;
            let n = t.next_id();
            let last = match op {
                Op::InsLast => Some(true),
                Op::InsFirst => Some(false),
                _ => None,
            };
            let id = t.insert(last, m.serial);
            same("id announced by next_id and id given", id, n)?;
            m.new_id(id)?;
            if last == Some(false) {
                m.l.insert(0, (id, m.serial));
            } else {
                m.l.push((id, m.serial));
            }
            Ok(true)
        }
        Op::Rem(r) => {
            let id = id!(r);
            let w = m.take(id).is_some();
            if w {
                m.gone = Some(id);
            }
            fail(t.remove(id), w)
        }
        Op::RemFirst | Op::RemLast => {
            let x = if m.l.is_empty() {
                None
            } else if op == Op::RemFirst {
                Some(m.l.remove(0))
            } else {
                m.l.pop()
            };
            if let Some((id, _)) = x {
                m.gone = Some(id);
            }
            fail(t.remove_end(op == Op::RemLast), x.is_some())
        }
        Op::First(r) => {
            let id = id!(r);
            let x = m.take(id);
            if let Some(x) = x {
                m.l.insert(0, x);
            }
            fail(t.to_end(false, id), x.is_some())
        }
        Op::Last(r) => {
            let id = id!(r);
            let x = m.take(id);
            if let Some(x) = x {
                m.l.push(x);
            }
            fail(t.to_end(true, id), x.is_some())
        }
        Op::Prev(a, b) | Op::Next(a, b) => {
            let (at, id) = (id!(a), id!(b));
            let next = matches!(op, Op::Next(..));
            let ok = at != id && m.at(at).is_some() && m.at(id).is_some();
            if ok {
                let x = m.take(id).unwrap();
                let i = m.at(at).unwrap();
                m.l.insert(if next { i + 1 } else { i }, x);
            }
            let got = t.beside(next, at, id);
            if at == id {
                // moving an item beside itself: only "nothing changes" is specified
                return Ok(true);
            }
            fail(got, ok)
        }
        Op::Copy => {
            t.copy();
            Ok(true)
        }
        Op::Store => {
            t.store()?;
            Ok(true)
        }
        Op::WithIdFirst(r) | Op::WithIdLast(r) => {
            let id = id!(r);
            let last = matches!(op, Op::WithIdLast(_));
            m.serial += 1;
            // the caller owns the id here; only ids below next_id keep the no-reuse promise
            if m.at(id).is_none() && t.next_id() <= id {
                return Ok(false);
            }
            let ok = m.at(id).is_none();
            if ok {
                if last {
                    m.l.push((id, m.serial));
                } else {
                    m.l.insert(0, (id, m.serial));
                }
                m.used.insert(id);
            }
            fail(t.with_id(last, id, m.serial), ok)
        }
    }
}

fn agree(t: &mut dyn Lut, m: &Model) -> Result<(), String> {
    t.agree(&m.l, &m.absent())?;
    let n = t.next_id();
    if m.used.contains(&n) {
        return Err(format!("next_id announces {} which this list already used", n));
    }
    Ok(())
}

fn make(kind: &str, start: usize, base: &Option<RootObject>) -> Result<(Box<dyn Lut>, Model), String> {
    let mut t: Box<dyn Lut> = match kind {
        "raw" => Box::new(Raw(LinkedMap::new())),
        k => {
            let b = base.as_ref().unwrap();
            Box::new(InDoc::new(b, k.starts_with("nested"), if k.ends_with("safe") { How::Safe } else { How::Ptr }))
        }
    };
    let mut m = Model::default();
    if kind == "doc-ptr" || kind == "doc-safe" {
        // the source gives two items
        let (l, _) = t.shown();
        same("initial items", l.iter().map(|x| x.1).collect::<Vec<_>>(), vec![100, 101])?;
        for (id, _) in &l {
            m.new_id(*id)?;
        }
        m.l = l;
    }
    while m.l.len() > start {
        apply(t.as_mut(), &mut m, Op::RemFirst)?;
    }
    for i in m.l.len()..start {
        apply(t.as_mut(), &mut m, if i % 2 == 0 { Op::InsLast } else { Op::InsFirst })?;
    }
    agree(t.as_mut(), &m)?;
    Ok((t, m))
}

fn cases(t: Tier) -> Vec<String> {
    let mut v = vec![];
    for k in ["raw", "doc-ptr", "doc-safe", "nested-ptr", "nested-safe"] {
        let raw = k == "raw";
        for start in 0..=t.pick(4, 5) {
            let d = match (raw, start) {
                (true, 0..=1) => t.pick(4, 5),
                (true, 2..=3) => t.pick(4, 5),
                (true, _) => t.pick(3, 4),
                (false, 0..=1) => t.pick(4, 5),
                (false, 2..=3) => t.pick(3, 4),
                (false, _) => t.pick(2, 4),
            };
            let n = ops(start, raw).len();
            for i in 0..n {
                v.push(format!("seq {} {} {} {}", k, start, d, i));
            }
        }
        v.push(format!("bfs {} {} {}", k, t.pick(if raw { 5 } else { 4 }, if raw { 6 } else { 5 }), t.pick(40, 60)));
        for start in 0..=t.pick(5, 7) {
            v.push(format!("walk {} {} {}", k, start, t.pick(7, 10)));
        }
        for (n, d) in [(9, 2), (17, 2), (33, t.pick(1, 2)), (65, 1), (130, 1), (300, 1)] {
            v.push(format!("big {} {} {}", k, n, d));
        }
        if k.starts_with("doc") {
            for i in 0..crate::rich::EDGES.len() {
                v.push(format!("high {} {}", k, i));
            }
        }
    }
    v
}

fn run(c: &str, cx: &mut Ctx) -> Result<(), String> {
    let w: Vec<&str> = c.split(' ').collect();
    let kind = w[1];
    let base = if kind == "raw" { None } else { Some(root_of(cx, &[("root.json5", SRC)])?) };
    match w[0] {
        "seq" => {
            let (start, d, first): (usize, usize, usize) = (w[2].parse().unwrap(), w[3].parse().unwrap(), w[4].parse().unwrap());
            let op = ops(start, kind == "raw")[first];
            seq(kind, start, &base, &mut vec![op], d, cx)
        }
        "big" => big(kind, w[2].parse().unwrap(), w[3].parse().unwrap(), &base, cx),
        "high" => {
            let e: usize = w[2].parse().unwrap();
            let src = SRC.replacen("[\"MList\", ", &format!("[\"MList\", [\"NextID\", {}], ", crate::rich::EDGES[e] - 1), 1);
            let base = Some(root_of(cx, &[("root.json5", &src)])?);
            for op in ops(2, false) {
                seq(kind, 2, &base, &mut vec![op], 2, cx)?;
            }
            Ok(())
        }
        "bfs" => bfs(kind, w[2].parse().unwrap(), w[3].parse().unwrap(), &base, cx),
        _ => {
            let (start, k): (usize, u32) = (w[2].parse().unwrap(), w[3].parse().unwrap());
            let (mut t, m) = make(kind, start, &base)?;
            for len in 0..=k {
                for bits in 0..(1u32 << len) {
                    let steps: Vec<u8> = (0..len).map(|i| (bits >> i & 1) as u8).collect();
                    let n = t.walk(&m.l, &steps)?;
                    cx.evaluations += n;
                    cx.transitions += n * len as u64;
                }
            }
            cx.state(&(kind, start, "walk"));
            cx.outcome("walked");
            agree(t.as_mut(), &m)
        }
    }
}

/// Runs `path` from the start; Ok(None) if its last operation has no operand.
fn play(kind: &str, start: usize, base: &Option<RootObject>, path: &[Op], cx: &mut Ctx) -> Result<Option<(Box<dyn Lut>, Model)>, String> {
    let (mut t, mut m) = make(kind, start, base)?;
    for (i, op) in path.iter().enumerate() {
        cx.step();
        let ok = apply(t.as_mut(), &mut m, *op).map_err(|e| format!("{} {:?}: {}", kind, path, e))?;
        if i + 1 == path.len() {
            if !ok {
                return Ok(None);
            }
            agree(t.as_mut(), &m).map_err(|e| format!("{} start {} after {:?}: {}", kind, start, path, e))?;
        }
    }
    Ok(Some((t, m)))
}

fn seq(kind: &str, start: usize, base: &Option<RootObject>, path: &mut Vec<Op>, depth: usize, cx: &mut Ctx) -> Result<(), String> {
    let (mut t, m) = match play(kind, start, base, path, cx)? {
        None => return Ok(()),
        Some(x) => x,
    };
    cx.eval();
    cx.state(&(kind, t.shown()));
    if path.len() == depth {
        cx.outcome(if m.l.is_empty() { "empty list" } else { "list" });
        cx.sample(|| format!("{} start {} {:?} -> {:?}", kind, start, path, m.l));
        return Ok(());
    }
    drop(t);
    for op in ops(m.l.len(), kind == "raw") {
        path.push(op);
        seq(kind, start, base, path, depth, cx)?;
        path.pop();
    }
    Ok(())
}

/// Operations at the ends and in the middle of a long list, and a long run of them.
fn big(kind: &str, n: usize, depth: usize, base: &Option<RootObject>, cx: &mut Ctx) -> Result<(), String> {
    let all = |n: usize| -> Vec<Op> {
        let rs = [R::Pos(0), R::Pos(1), R::Pos(n / 2), R::Pos(n - 2), R::Pos(n - 1), R::Removed, R::Unused];
        let mut v = vec![Op::InsLast, Op::InsFirst, Op::Ins, Op::RemFirst, Op::RemLast, Op::Copy, Op::Store];
        for a in rs {
            v.extend([Op::Rem(a), Op::First(a), Op::Last(a)]);
            for b in rs {
                if matches!(a, R::Pos(_)) || matches!(b, R::Pos(_)) {
                    v.extend([Op::Prev(a, b), Op::Next(a, b)]);
                }
            }
        }
        v
    };
    for a in all(n) {
        let mut paths = vec![vec![a]];
        if depth > 1 {
            paths = all(n).into_iter().map(|b| vec![a, b]).collect();
        }
        for p in paths {
            cx.beat();
            if let Some((mut t, _)) = play(kind, n, base, &p, cx)? {
                cx.eval();
                cx.state(&(kind, n, t.shown()));
            }
        }
    }
    let (mut t, mut m) = make(kind, n, base)?;
    let mut i = 0;
    while m.l.len() > 2 && i < 4 * n {
        let l = all(m.l.len());
        // more removals than insertions
        let op = if i % 3 == 2 { Op::Rem(R::Pos(i * 31 % m.l.len())) } else { l[i * 37 % l.len()] };
        i += 1;
        cx.step();
        cx.beat();
        apply(t.as_mut(), &mut m, op).and_then(|_| agree(t.as_mut(), &m)).map_err(|e| format!("{} of {} items, step {} of the run, {:?}: {}", kind, n, i, op, e))?;
    }
    cx.eval();
    cx.state(&(kind, n, t.shown(), "run"));
    cx.outcome("long list");
    Ok(())
}

/// All orders reachable with up to `cap` items and `ids` ids, each transition played from the start.
fn bfs(kind: &str, cap: usize, max_depth: usize, base: &Option<RootObject>, cx: &mut Ctx) -> Result<(), String> {
    use std::collections::{HashSet, VecDeque};
    let raw = kind == "raw";
    let mut seen: HashSet<(Vec<u64>, usize)> = HashSet::new();
    let mut q: VecDeque<Vec<Op>> = VecDeque::new();
    q.push_back(vec![]);
    while let Some(path) = q.pop_front() {
        let len = {
            let (_, m) = match play(kind, 0, base, &path, cx)? {
                Some(x) => x,
                None => continue,
            };
            m.l.len()
        };
        for op in ops(len, raw) {
            if matches!(op, Op::WithIdFirst(_) | Op::WithIdLast(_)) {
                continue;
            }
            let mut p = path.clone();
            p.push(op);
            if let Some((mut t, m)) = play(kind, 0, base, &p, cx)? {
                cx.eval();
                cx.state(&(kind, t.shown()));
                // ids are numbered by first use, so the state is (order of use-ranks, ids used)
                let rank: Vec<u64> = m.l.iter().map(|x| m.used.iter().position(|u| *u == x.0).unwrap() as u64).collect();
                if m.l.len() <= cap && m.used.len() <= cap + 1 && p.len() < max_depth && seen.insert((rank, m.used.len())) {
                    q.push_back(p);
                }
            }
        }
    }
    cx.outcome("closed");
    Ok(())
}
