//! Drives `VecOption` through operation histories. Items are represented by positive integers, absent
//! items by 0. Every operation logs its result, the items whose destructor ran during it ("drops"),
//! the items handed in ("in"), and the contents afterwards ("st").
use crate::json::J;
use crate::{guarded, mem, obj, Out};
use std::cell::{Cell, RefCell};
use std::hash::{Hash, Hasher};
use std::ops::Bound;
use trellis::vec_option::VecOption;

thread_local! {
    static DROPS: RefCell<Vec<i64>> = RefCell::new(Vec::new());
    static MADE: RefCell<Vec<i64>> = RefCell::new(Vec::new());
    static PANIC_DROP: Cell<i64> = Cell::new(0);
    static PANIC_CLONE: Cell<i64> = Cell::new(0);
}

trait Elem: 'static + Sized + Clone + Ord + Hash {
    const TRACKED: bool;
    /// By how much the identity of a clone differs from that of its original.
    const CLONE: i64 = 100000;
    fn mk(id: i64) -> Self;
    fn id(&self) -> i64;
    fn bump(&mut self);
    fn copy_at(_v: &mut VecOption<Self>, _i: usize) -> Option<Option<Self>> {
        None
    }
}
impl Elem for i32 {
    const TRACKED: bool = false;
    fn mk(id: i64) -> Self {
        id as i32
    }
    fn id(&self) -> i64 {
        *self as i64
    }
    fn bump(&mut self) {
        *self += 1
    }
    fn copy_at(v: &mut VecOption<Self>, i: usize) -> Option<Option<Self>> {
        Some(v.get_copy(i))
    }
}
/// Items without a size: only their presence shows.
impl Elem for () {
    const TRACKED: bool = false;
    fn mk(_id: i64) -> Self {}
    fn id(&self) -> i64 {
        1
    }
    fn bump(&mut self) {}
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Wide([u32; 5]);
impl Elem for Wide {
    const TRACKED: bool = false;
    fn mk(id: i64) -> Self {
        Wide([id as u32; 5])
    }
    fn id(&self) -> i64 {
        if self.0.iter().all(|x| *x == self.0[0]) {
            self.0[0] as i64
        } else {
            -7
        }
    }
    fn bump(&mut self) {
        for x in self.0.iter_mut() {
            *x += 1
        }
    }
}
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Tok(i64);
impl Drop for Tok {
    fn drop(&mut self) {
        let id = self.0;
        let _ = DROPS.try_with(|d| d.borrow_mut().push(clamp(id)));
        if id != 0 && PANIC_DROP.try_with(|p| p.get()).unwrap_or(0) == id {
            PANIC_DROP.with(|p| p.set(0));
            if !std::thread::panicking() {
                panic!("destructor fault");
            }
        }
    }
}
impl Clone for Tok {
    fn clone(&self) -> Self {
        if self.0 != 0 && PANIC_CLONE.with(|p| p.get()) == self.0 {
            PANIC_CLONE.with(|p| p.set(0));
            panic!("clone fault");
        }
        MADE.with(|m| m.borrow_mut().push(clamp(self.0) + 100000));
        Tok(clamp(self.0) + 100000)
    }
}
impl Elem for Tok {
    const TRACKED: bool = true;
    fn mk(id: i64) -> Self {
        Tok(id)
    }
    fn id(&self) -> i64 {
        clamp(self.0)
    }
    fn bump(&mut self) {
        self.0 += 1
    }
}

/// An item without a size, but with a destructor.
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Ghost;
impl Drop for Ghost {
    fn drop(&mut self) {
        let _ = DROPS.try_with(|d| d.borrow_mut().push(1));
    }
}
impl Clone for Ghost {
    fn clone(&self) -> Self {
        MADE.with(|m| m.borrow_mut().push(1));
        Ghost
    }
}
impl Elem for Ghost {
    const TRACKED: bool = true;
    const CLONE: i64 = 0;
    fn mk(_id: i64) -> Self {
        Ghost
    }
    fn id(&self) -> i64 {
        1
    }
    fn bump(&mut self) {}
}

/// Keeps garbage that is mistaken for an item within the integers of the specification.
fn clamp(id: i64) -> i64 {
    if id.abs() < 1 << 30 {
        id
    } else {
        -7
    }
}

fn out<T: Elem>(x: T) -> i64 {
    let i = x.id();
    std::mem::forget(x);
    i
}
fn oout<T: Elem>(x: Option<T>) -> i64 {
    x.map(out).unwrap_or(0)
}
fn oref<T: Elem>(x: Option<&T>) -> i64 {
    x.map(|y| y.id()).unwrap_or(0)
}
fn mk<T: Elem>(id: i64) -> Option<T> {
    if id == 0 {
        None
    } else {
        Some(T::mk(id))
    }
}
fn mks<T: Elem>(ids: &[i64]) -> Vec<Option<T>> {
    ids.iter().map(|i| mk(*i)).collect()
}

/// The contents, read item by item.
fn snap<T: Elem>(v: &mut VecOption<T>) -> Vec<i64> {
    let n = v.len();
    if n > 1 << 20 {
        return vec![-5];
    }
    match guarded(|| (0..n).map(|i| oref(v.get_ref(i))).collect::<Vec<_>>()) {
        Ok(s) => s,
        Err(_) => vec![-9],
    }
}

/// Very large positions are written as a billion (the four largest) or 900 million (2^32) and up.
pub fn pos(x: &J) -> usize {
    match x.usz() {
        y if y >= 1_000_000_000 => usize::MAX - (1_000_000_003 - y),
        y if y >= 900_000_000 => (1usize << 32) + (y - 900_000_000),
        y => y,
    }
}

fn bound(kind: i64, x: usize) -> Bound<usize> {
    match kind {
        0 => Bound::Unbounded,
        1 => Bound::Included(x),
        _ => Bound::Excluded(x),
    }
}

/// An iterator without a useful size hint, which starts again after its end.
pub struct Blind<I, F>(pub I, pub F, pub bool);
impl<I: Iterator, F: Fn() -> I::Item> Iterator for Blind<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.2 {
            return Some(self.1());
        }
        let x = self.0.next();
        self.2 = x.is_none();
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, if self.0.size_hint().0 % 2 == 0 { None } else { Some(usize::MAX) })
    }
}
fn blind<T: Elem>(xs: &[i64]) -> impl Iterator<Item = Option<T>> {
    Blind(mks::<T>(xs).into_iter(), || None, false)
}

/// All of the iterator at once, and what it says about its size, against the number of its items.
pub fn fits<I: Iterator>(it: I, n: usize) -> bool {
    let h = it.size_hint();
    h.0 <= n && h.1.map(|u| n <= u).unwrap_or(true) && it.take(n + 5).fold(0, |k, _| k + 1) == n
}

/// Consumes the first items of an iterator; -1 at its end, -2 if that was not final, -3 for a wrong size hint.
fn walk<I: Iterator>(mut it: I, most: usize, take: usize, how: i64, f: impl Fn(I::Item) -> i64) -> Vec<i64> {
    let mut r = vec![];
    if how == 1 && take > most {
        // all of it at once
        it.for_each(|x| r.push(f(x)));
        r.push(-1);
        return r;
    }
    let mut hints = vec![];
    for _ in 0..take {
        hints.push(it.size_hint());
        match if how == 3 { it.nth(0) } else { it.next() } {
            Some(x) => r.push(f(x)),
            None => {
                // the end is final
                let n = r.len();
                let right = (hints.iter().enumerate()).all(|(i, h)| h.0 <= n - i && h.1.map(|u| n - i <= u).unwrap_or(true));
                r.push(if !right {
                    -3
                } else if it.next().is_none() && it.next().is_none() {
                    -1
                } else {
                    -2
                });
                break;
            }
        }
    }
    r
}

#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
fn hash_of<T: Hash>(v: &T) -> Vec<u8> {
    let mut r = Rec::default();
    v.hash(&mut r);
    r.0
}

pub fn run(case: &J, o: &mut Out) {
    match case.get("elem").str() {
        "i32" => go::<i32>(case, o),
        "wide" => go::<Wide>(case, o),
        "unit" => go::<()>(case, o),
        "tok" => go::<Tok>(case, o),
        "ghost" => go::<Ghost>(case, o),
        "rel" => relations(case, o),
        _ => panic!("harness: elem"),
    }
}

fn go<T: Elem>(case: &J, o: &mut Out) {
    DROPS.with(|d| d.borrow_mut().clear());
    let mut v: VecOption<T> = VecOption::new();
    o.emit(obj! {"ev": "begin", "tok": T::TRACKED, "cladd": if T::TRACKED { T::CLONE } else { 0 }});
    let mem0 = mem::violations();
    for op in case.get("ops").arr() {
        DROPS.with(|d| d.borrow_mut().clear());
        MADE.with(|d| d.borrow_mut().clear());
        let name = op.get("ev").str().to_string();
        let mut given: Vec<i64> = vec![];
        let mut ev = op.clone();
        if name.starts_with("fault") {
            fault(&name, op, &mut v, o);
            return;
        }
        // `extra` collects what some operations observe besides their result.
        let mut extra: Vec<(&str, J)> = vec![];
        let r = {
            let v = &mut v;
            let given = &mut given;
            let extra = &mut extra;
            guarded(move || apply(op, &name, v, given, extra))
        };
        let drops = DROPS.with(|d| d.borrow().clone());
        MADE.with(|m| given.extend(m.borrow().iter()));
        let st = snap(&mut v);
        match r {
            Ok(ret) => {
                ev.push("ret", ret);
                ev.push("panic", false);
            }
            Err(_) => {
                ev.push("ret", Vec::<i64>::new());
                ev.push("panic", true);
            }
        }
        for (k, x) in extra {
            ev.push(k, x);
        }
        ev.push("in", given);
        ev.push("drops", drops);
        ev.push("len", v.len());
        ev.push("empty", v.is_empty());
        ev.push("st", st);
        o.emit(ev);
    }
    DROPS.with(|d| d.borrow_mut().clear());
    drop(v);
    let drops = DROPS.with(|d| d.borrow().clone());
    o.emit(obj! {"ev": "end", "drops": drops, "mem": mem::violations() - mem0});
}

fn apply<T: Elem>(
    op: &J,
    name: &str,
    v: &mut VecOption<T>,
    given: &mut Vec<i64>,
    extra: &mut Vec<(&str, J)>,
) -> Vec<i64> {
    let i = || pos(op.get("i"));
    let xs = || op.get("xs").ints();
    let x = || op.get("x").int();
    let mut give = |l: &[i64]| given.extend(l.iter().filter(|x| **x != 0));
    match name {
        "new" => {
            *v = VecOption::new();
            vec![]
        }
        "with_capacity" => {
            *v = VecOption::with_capacity(op.get("n").usz());
            vec![]
        }
        "from_vec" => {
            give(&xs());
            *v = VecOption::from_vec(xs().into_iter().map(T::mk).collect());
            vec![]
        }
        "repeat_none" => {
            *v = VecOption::new_repeat_none(op.get("n").usz());
            vec![]
        }
        "collect" => {
            give(&xs());
            *v = mks(&xs()).into_iter().collect();
            vec![]
        }
        "collect_blind" => {
            give(&xs());
            *v = blind(&xs()).collect();
            vec![]
        }
        "extend" => {
            give(&xs());
            v.extend(mks(&xs()).into_iter());
            vec![]
        }
        "extend_blind" => {
            give(&xs());
            v.extend(blind(&xs()));
            vec![]
        }
        "reserve" => {
            v.reserve(op.get("n").usz());
            vec![]
        }
        "push" => {
            give(&[x()]);
            v.push(mk(x()));
            vec![]
        }
        "push_some" => {
            give(&[x()]);
            v.push_some(T::mk(x()));
            vec![]
        }
        "push_none" => {
            v.push_none();
            vec![]
        }
        "pop" => match v.pop() {
            None => vec![],
            Some(o) => vec![oout(o)],
        },
        "pop_some" => vec![oout(v.pop_some())],
        "replace" => {
            give(&[x()]);
            vec![oout(v.replace(i(), mk(x())))]
        }
        "replace_some" => {
            give(&[x()]);
            vec![oout(v.replace_some(i(), T::mk(x())))]
        }
        "replace_none" => vec![oout(v.replace_none(i()))],
        "set" => {
            give(&[x()]);
            v.set(i(), mk(x()));
            vec![]
        }
        "set_some" => {
            give(&[x()]);
            v.set_some(i(), T::mk(x()));
            vec![]
        }
        "set_none" => {
            v.set_none(i());
            vec![]
        }
        "swap" => {
            v.swap(pos(op.get("a")), pos(op.get("b")));
            vec![]
        }
        "get" => match op.get("how").str() {
            "ref" => vec![oref(v.get_ref(i()))],
            "mut" => vec![oref(v.get_mut(i()).map(|r| &*r))],
            _ => match T::copy_at(v, i()) {
                Some(r) => vec![oref(r.as_ref())],
                None => vec![oref(v.get_ref(i()))],
            },
        },
        "get_clone" => vec![oout(v.get_clone(i()))],
        "write" => {
            // assignment through get_mut: the old item is destroyed
            if let Some(r) = v.get_mut(i()) {
                give(&[x()]);
                *r = T::mk(x());
                vec![1]
            } else {
                vec![0]
            }
        }
        "drain" => {
            let lo = bound(op.get("lk").int(), pos(op.get("lo")));
            let hi = bound(op.get("hk").int(), pos(op.get("hi")));
            let n = v.len();
            walk(v.drain((lo, hi)), n, op.get("take").usz(), op.get("st").int(), oout)
        }
        "compact" => v.compact().iter().map(|x| x.id()).collect(),
        "compact_write" => {
            let s = v.compact();
            s.reverse();
            s.iter().map(|x| x.id()).collect()
        }
        "some_into_vec" => {
            let w = std::mem::replace(v, VecOption::new());
            w.some_into_vec().into_iter().map(out).collect()
        }
        "into_iter" => {
            let w = std::mem::replace(v, VecOption::new());
            let w_len = w.len();
            walk(w.into_iter(), w_len, op.get("take").usz(), op.get("st").int(), oout)
        }
        "into_some_iter" => {
            let w = std::mem::replace(v, VecOption::new());
            let w_len = w.len();
            walk(w.into_some_iter(), w_len, op.get("take").usz(), op.get("st").int(), out)
        }
        "clone_keep" => {
            *v = v.clone();
            vec![]
        }
        "clone_drop" => {
            // a clone is changed and destroyed; the original must not notice
            let mut w = v.clone();
            let mut r = snap(&mut w);
            extra.push(("same", J::from(T::TRACKED || w == *v)));
            for x in w.iter_mut() {
                if let Some(x) = x {
                    x.bump();
                }
            }
            r.extend(snap(&mut w));
            r
        }
        "views" => {
            let n = v.len();
            extra.push(("iter", v.iter().take(n + 5).map(oref).collect::<Vec<_>>().into()));
            extra.push((
                "iter_mut",
                v.iter_mut()
                    .take(n + 5)
                    .map(|x| oref(x.map(|y| &*y)))
                    .collect::<Vec<_>>()
                    .into(),
            ));
            extra.push((
                "some_index",
                v.iter_some_index()
                    .take(n + 5)
                    .map(|(i, x)| vec![i as i64, x.id()])
                    .collect::<Vec<_>>()
                    .into(),
            ));
            extra.push((
                "some_index_mut",
                v.iter_some_index_mut()
                    .take(n + 5)
                    .map(|(i, x)| vec![i as i64, x.id()])
                    .collect::<Vec<_>>()
                    .into(),
            ));
            extra.push((
                "runs",
                v.iter_runs()
                    .take(n + 5)
                    .map(|s| s.iter().map(|x| x.id()).collect::<Vec<_>>())
                    .collect::<Vec<_>>()
                    .into(),
            ));
            extra.push((
                "runs_mut",
                v.iter_runs_mut()
                    .take(n + 5)
                    .map(|s| s.iter().map(|x| x.id()).collect::<Vec<_>>())
                    .collect::<Vec<_>>()
                    .into(),
            ));
            // iteration has ended for good when it first says so
            let mut it = v.iter_runs();
            while it.next().is_some() {}
            let mut right = it.next().is_none();
            let some = v.iter_some_index().take(n + 5).count();
            right &= fits(v.iter(), n) && fits(v.iter_mut(), n) && fits(v.iter_some_index(), some) && fits(v.iter_some_index_mut(), some);
            let runs = v.iter_runs().take(n + 5).count();
            right &= fits(v.iter_runs(), runs) && fits(v.iter_runs_mut(), runs);
            extra.push(("fused", J::from(right)));
            vec![]
        }
        "bump" => {
            match op.get("how").str() {
                "iter_mut" => {
                    for x in v.iter_mut() {
                        if let Some(x) = x {
                            x.bump()
                        }
                    }
                }
                "some_index_mut" => {
                    for (_, x) in v.iter_some_index_mut() {
                        x.bump()
                    }
                }
                "get_mut" => {
                    for i in 0..v.len() {
                        if let Some(x) = v.get_mut(i) {
                            x.bump()
                        }
                    }
                }
                _ => {
                    for r in v.iter_runs_mut() {
                        for x in r.iter_mut() {
                            x.bump()
                        }
                    }
                }
            }
            vec![]
        }
        _ => panic!("harness: unknown vecopt op {}", name),
    }
}

/// A destructor or clone of one item panics in the middle of an operation. Logs everything destroyed
/// during the operation and during the destruction of what is left; ends the case.
fn fault<T: Elem>(name: &str, op: &J, v: &mut VecOption<T>, o: &mut Out) {
    let mem0 = mem::violations();
    let before = snap(v);
    let mut w = std::mem::replace(v, VecOption::new());
    let id = op.get("x").int();
    let mut left: Vec<i64> = vec![];
    let mut rest: Option<VecOption<T>> = None;
    let mut ret: Vec<i64> = vec![];
    PANIC_DROP.with(|p| p.set(if name == "fault_clone" { 0 } else { id }));
    PANIC_CLONE.with(|p| p.set(if name == "fault_clone" { id } else { 0 }));
    let r = match name {
        "fault_drop" => guarded(|| drop(w)),
        "fault_iter" => guarded(|| {
            let mut it = w.into_iter();
            for _ in 0..op.get("take").usz() {
                if let Some(x) = it.next() {
                    ret.push(oout(x));
                }
            }
            drop(it)
        }),
        "fault_some_iter" => guarded(|| {
            let mut it = w.into_some_iter();
            for _ in 0..op.get("take").usz() {
                if let Some(x) = it.next() {
                    ret.push(out(x));
                }
            }
            drop(it)
        }),
        "fault_extend" | "fault_collect" => {
            // the source iterator panics after `at` items
            let xs = op.get("xs").ints();
            MADE.with(|m| m.borrow_mut().extend(xs.iter().filter(|x| **x != 0)));
            let at = op.get("at").usz();
            let src = mks::<T>(&xs).into_iter().enumerate().map(move |(i, x)| {
                if i == at {
                    panic!("source fault");
                }
                x
            });
            if name == "fault_extend" {
                let r = guarded(|| w.extend(src));
                rest = Some(w);
                r
            } else {
                let r = guarded(|| drop(src.collect::<VecOption<T>>()));
                rest = Some(w);
                r
            }
        }
        "fault_drain" => {
            let r = guarded(|| {
                let mut d = w.drain(op.get("lo").usz()..op.get("hi").usz());
                for _ in 0..op.get("take").usz() {
                    if let Some(x) = d.next() {
                        ret.push(oout(x));
                    }
                }
            });
            rest = Some(w);
            r
        }
        "fault_forget" => {
            // a drain that is forgotten instead of dropped; what it has not removed stays safe
            let r = guarded(|| {
                let mut d = w.drain(op.get("lo").usz()..op.get("hi").usz());
                for _ in 0..op.get("take").usz() {
                    if let Some(x) = d.next() {
                        ret.push(oout(x));
                    }
                }
                std::mem::forget(d)
            });
            rest = Some(w);
            r
        }
        "fault_clone" => {
            let r = guarded(|| {
                let c = w.clone();
                drop(c)
            });
            rest = Some(w);
            r
        }
        "fault_set" => {
            let r = guarded(|| w.set_none(op.get("i").usz()));
            rest = Some(w);
            r
        }
        _ => panic!("harness: fault {}", name),
    };
    PANIC_DROP.with(|p| p.set(0));
    PANIC_CLONE.with(|p| p.set(0));
    let drops = DROPS.with(|d| d.borrow().clone());
    if let Some(mut w) = rest {
        left = snap(&mut w);
        DROPS.with(|d| d.borrow_mut().clear());
        drop(w);
    } else {
        DROPS.with(|d| d.borrow_mut().clear());
    }
    let drops2 = DROPS.with(|d| d.borrow().clone());
    let made = MADE.with(|d| d.borrow().clone());
    let mut ev = op.clone();
    ev.push("before", before);
    ev.push("panic", r.is_err());
    ev.push("ret", ret);
    ev.push("drops", drops);
    ev.push("left", left);
    ev.push("drops2", drops2);
    ev.push("made", made);
    ev.push("mem", mem::violations() - mem0);
    o.emit(ev);
}

// ---------------------------------------------------------------------------------------------
// Relations between several values (C04)

/// An item type whose partial order has incomparable and unequal-to-themselves items (like NaN).
#[derive(Clone)]
struct Part(i64);
impl PartialEq for Part {
    fn eq(&self, o: &Part) -> bool {
        self.0 == o.0 && self.0 < 90
    }
}
impl PartialOrd for Part {
    fn partial_cmp(&self, o: &Part) -> Option<std::cmp::Ordering> {
        if self.0 >= 90 || o.0 >= 90 {
            None
        } else {
            self.0.partial_cmp(&o.0)
        }
    }
}

/// Builds the given contents along one of several routes.
fn build<T>(xs: &[i64], how: i64, mk: &dyn Fn(i64) -> T) -> VecOption<T> {
    let opt = |x: i64| if x == 0 { None } else { Some(mk(x)) };
    match how {
        0 => xs.iter().map(|x| opt(*x)).collect(),
        1 => {
            let mut v = VecOption::new_repeat_none(xs.len());
            for (i, x) in xs.iter().enumerate() {
                v.set(i, opt(*x));
            }
            v
        }
        2 => {
            // leave stale items behind
            let mut v = VecOption::from_vec((0..xs.len()).map(|_| mk(77)).collect());
            for (i, x) in xs.iter().enumerate() {
                v.replace(i, opt(*x));
            }
            v
        }
        3 => {
            let mut v = VecOption::new();
            v.push(Some(mk(55)));
            v.push(None);
            v.extend(xs.iter().map(|x| opt(*x)));
            v.drain(0..2);
            v
        }
        4 => {
            // was long once; cut down in different ways
            let mut v = VecOption::new();
            let long = 5000.max(xs.len() + 300);
            for i in 0..long {
                v.push(if i % 3 == 0 { None } else { Some(mk(44)) });
            }
            v.reserve(70000);
            v.drain(xs.len()..long - 200);
            while v.len() > xs.len() {
                v.pop();
            }
            for (i, x) in xs.iter().enumerate() {
                v.set(i, opt(*x));
            }
            v
        }
        _ => {
            let mut v = VecOption::with_capacity(xs.len() + 9);
            for x in xs.iter().rev() {
                v.push(opt(*x));
            }
            let n = v.len();
            for i in 0..n / 2 {
                v.swap(i, n - 1 - i);
            }
            for _ in 0..40 {
                v.push(Some(mk(66)));
            }
            for _ in 0..40 {
                v.pop();
            }
            v
        }
    }
}

fn ord(o: std::cmp::Ordering) -> i64 {
    o as i64
}
fn pord(o: Option<std::cmp::Ordering>) -> i64 {
    o.map(|x| x as i64).unwrap_or(9)
}

fn relations(case: &J, o: &mut Out) {
    // one event per pair, all pairs of the given values
    let vals: Vec<Vec<i64>> = case.get("vals").arr().iter().map(|x| x.ints()).collect();
    let hows = case.get("hows").ints();
    let r = guarded(|| {
        let vs: Vec<VecOption<i32>> = vals
            .iter()
            .zip(&hows)
            .map(|(x, h)| build(x, *h, &|i| i as i32))
            .collect();
        let ps: Vec<VecOption<Part>> = vals
            .iter()
            .zip(&hows)
            .map(|(x, h)| build(x, *h, &|i| Part(i)))
            .collect();
        let mut evs = vec![];
        for a in 0..vals.len() {
            for b in 0..vals.len() {
                let c = vs[a].clone();
                evs.push(obj! {
                    "ev": "pair", "a": vals[a].clone(), "b": vals[b].clone(),
                    "eq": vs[a] == vs[b], "ne": vs[a] != vs[b],
                    "cmp": ord(vs[a].cmp(&vs[b])), "pcmp": pord(vs[a].partial_cmp(&vs[b])),
                    "lt": vs[a] < vs[b], "le": vs[a] <= vs[b],
                    "samehash": hash_of(&vs[a]) == hash_of(&vs[b]),
                    "peq": ps[a] == ps[b], "ppcmp": pord(ps[a].partial_cmp(&ps[b])),
                    "cloneeq": c == vs[a], "clonehash": hash_of(&c) == hash_of(&vs[a]),
                    "clonecmp": ord(c.cmp(&vs[b])),
                    "clone": c.iter().map(|x| x.map(|y| *y as i64).unwrap_or(0)).collect::<Vec<_>>(),
                    "clonelen": c.len(),
                });
            }
        }
        // cloning is independent of the original, in both directions
        for (a, v) in vs.iter().enumerate() {
            let mut w = v.clone();
            for i in 0..w.len() {
                w.set(i, Some(88));
            }
            w.push(Some(3));
            let orig: Vec<i64> = v.iter().map(|x| x.map(|y| *y as i64).unwrap_or(0)).collect();
            let len = w.len();
            evs.push(obj! {"ev": "indep", "a": vals[a].clone(), "orig": orig, "len": len,
            "w": w.iter().map(|x| x.map(|y| *y as i64).unwrap_or(0)).collect::<Vec<_>>()});
        }
        evs
    });
    match r {
        Ok(evs) => {
            for e in evs {
                o.emit(e);
            }
        }
        Err(_) => o.emit(obj! {"ev": "crash"}),
    }
}
