//! Drives `RampTable` (C05), `RampTableBuilder` (C06) and `PQ` (C07).
use crate::json::J;
use crate::vecopt::{fits, Blind};
use crate::{guarded, obj, Out};
use std::cmp::Ordering;
use trellis::priority_queue::PQ;
use trellis::ramp_table::{RampTable, RampTableBuilder};

trait Val: Clone + Eq + std::fmt::Debug + 'static {
    fn mk(i: i64) -> Self;
    fn id(&self) -> i64;
    /// push_entry_copy where the type allows it
    fn copy_entry(t: &mut RampTable<Self>, v: &[Self]);
}
impl Val for i64 {
    fn mk(i: i64) -> i64 {
        i
    }
    fn id(&self) -> i64 {
        *self
    }
    fn copy_entry(t: &mut RampTable<i64>, v: &[i64]) {
        t.push_entry_copy(v)
    }
}
impl Val for String {
    fn mk(i: i64) -> String {
        format!("{}", i)
    }
    fn id(&self) -> i64 {
        self.parse().unwrap_or(-7)
    }
    fn copy_entry(t: &mut RampTable<String>, v: &[String]) {
        t.push_entry_clone(v)
    }
}

fn ids<T: Val>(s: &[T]) -> Vec<i64> {
    s.iter().map(|x| x.id()).collect()
}
fn vals<T: Val>(s: &[i64]) -> Vec<T> {
    s.iter().map(|x| T::mk(*x)).collect()
}

pub fn ramp(case: &J, o: &mut Out) {
    match case.get("elem").str() {
        "i64" => go::<i64>(case, o),
        _ => go::<String>(case, o),
    }
}

/// The contents of the finished keys, one by one, and all values.
fn rows<T: Val>(t: &RampTable<T>) -> (Vec<Vec<i64>>, Vec<i64>) {
    match guarded(|| {
        (
            (0..t.len()).map(|k| ids(t.entry_values(k))).collect(),
            ids(t.all_values()),
        )
    }) {
        Ok(r) => r,
        Err(_) => (vec![vec![-9]], vec![-9]),
    }
}

fn go<T: Val>(case: &J, o: &mut Out) {
    let mut t: RampTable<T> = match case.get("new").int() {
        0 => RampTable::new(),
        1 => RampTable::default(),
        _ => RampTable::with_capacity(3, 5),
    };
    o.emit(obj! {"ev": "begin"});
    for op in case.get("ops").arr() {
        let name = op.get("ev").str();
        let mut ev = op.clone();
        let x = || op.get("x").int();
        let k = || crate::vecopt::pos(op.get("i"));
        let xs = || vals::<T>(&op.get("xs").ints());
        let mut extra: Vec<(&str, J)> = vec![];
        let r: Result<Vec<i64>, String> = {
            let t = &mut t;
            let extra = &mut extra;
            guarded(move || match name {
                "push" => {
                    t.push_value(T::mk(x()));
                    vec![]
                }
                "finish" => vec![t.finish_key() as i64],
                "entry" => {
                    match op.get("how").str() {
                        "copy" => T::copy_entry(t, &xs()),
                        "clone" => t.push_entry_clone(&xs()),
                        "blind" => {
                            t.push_entry_extend(Blind(xs().into_iter(), || T::mk(-5), false))
                        }
                        _ => t.push_entry_extend(xs().into_iter()),
                    }
                    vec![]
                }
                "many" => {
                    for r in op.get("given").arr() {
                        for v in r.ints() {
                            t.push_value(T::mk(v));
                        }
                        t.finish_key();
                    }
                    vec![]
                }
                "clear" => {
                    t.clear();
                    vec![]
                }
                "key" => match op.get("how").str() {
                    "values" => ids(t.entry_values(k())),
                    "mut" => ids(t.entry_values_mut(k())),
                    "range" => {
                        let r = t.entry_values_range(k());
                        ids(&t.all_values()[r])
                    }
                    "index" => ids(&t[k()]),
                    _ => ids(&mut t[k()]),
                },
                "write" => {
                    // overwrite value j of key i
                    let j = op.get("j").usz();
                    let v = T::mk(x());
                    match op.get("how").str() {
                        "iter" => t.iter_mut().nth(k()).unwrap()[j] = v,
                        "values" => t.entry_values_mut(k())[j] = v,
                        "index" => t[k()][j] = v,
                        _ => {
                            let r = t.entry_values_range(k());
                            let r = &mut t.all_values_mut()[r];
                            r[j] = v
                        }
                    }
                    vec![]
                }
                "views" => {
                    let n = t.len() + 3;
                    extra.push(("iter", t.iter().take(n).map(ids).collect::<Vec<_>>().into()));
                    extra.push(("rev", t.iter().rev().take(n).map(ids).collect::<Vec<_>>().into()));
                    // the ways to go through it agree
                    let k = t.iter().take(n).count();
                    let m = t.num_values() + 3;
                    let pairs = t.iter_pairs().take(m).count();
                    let mut right = fits(t.iter(), k) && fits(t.iter().rev(), k) && fits(t.iter_mut(), k);
                    right &= fits(t.iter_pairs(), pairs) && fits(t.iter_pairs_manual(), pairs);
                    for j in [0, 1, k / 2, k.max(1) - 1, k, k + 1] {
                        let (mut a, mut b) = (t.iter(), t.iter());
                        right &= a.nth(j).map(ids) == t.iter().skip(j).next().map(ids);
                        right &= b.nth_back(j).map(ids) == t.iter().rev().skip(j).next().map(ids);
                        right &= a.len() == k.saturating_sub(j + 1) && b.len() == a.len();
                    }
                    extra.push(("exact", if right { t.iter().len() as i64 } else { -1 }.into()));
                    // both ends in turn
                    let mut both: Vec<Vec<i64>> = vec![];
                    {
                        let mut it = t.iter();
                        loop {
                            match it.next() {
                                Some(x) => both.push(ids(x)),
                                None => break,
                            }
                            match it.next_back() {
                                Some(x) => both.push(ids(x)),
                                None => break,
                            }
                        }
                    }
                    extra.push(("both", both.into()));
                    extra.push((
                        "itermut",
                        t.iter_mut().take(n).map(|x| ids(x)).collect::<Vec<_>>().into(),
                    ));
                    let m = t.num_values() + 3;
                    let pair = |(k, v): (usize, &T)| vec![k as i64, v.id()];
                    extra.push(("pairs", t.iter_pairs().take(m).map(pair).collect::<Vec<_>>().into()));
                    extra.push((
                        "manual",
                        t.iter_pairs_manual().take(m).map(pair).collect::<Vec<_>>().into(),
                    ));
                    #[allow(deprecated)]
                    extra.push(("numkeys", t.num_keys().into()));
                    extra.push(("numvalues", t.num_values().into()));
                    extra.push((
                        "ranges",
                        (0..t.len())
                            .map(|k| {
                                let r = t.entry_values_range(k);
                                vec![r.start as i64, r.end as i64]
                            })
                            .collect::<Vec<_>>()
                            .into(),
                    ));
                    extra.push(("all", ids(t.all_values()).into()));
                    extra.push(("allmut", ids(t.all_values_mut()).into()));
                    let lite = op.has("lite"); // without the text, for long tables
                    extra.push(("debug", if lite { String::new() } else { format!("{:?}", t).replace('"', "") }.into()));
                    // a clone is equal; a table rebuilt along another route is equal; others are not
                    let c = t.clone();
                    extra.push(("cloneeq", (c == *t).into()));
                    let mut u: RampTable<T> = RampTable::with_capacity(0, 0);
                    for r in t.iter() {
                        for v in r {
                            u.push_value(v.clone());
                        }
                        u.finish_key();
                    }
                    let owned: usize = t.iter().map(|r| r.len()).sum();
                    for v in &t.all_values()[owned..] {
                        u.push_value(v.clone());
                    }
                    extra.push(("rebuilteq", (u == *t).into()));
                    u.finish_key();
                    extra.push(("longerne", (u != *t).into()));
                    let mut w = t.clone();
                    w.push_value(T::mk(999));
                    extra.push(("morene", (w != *t).into()));
                    vec![]
                }
                "eq" => {
                    // compare with a table given by rows and unowned values
                    let mut u: RampTable<T> = RampTable::new();
                    for r in op.get("orows").arr() {
                        u.push_entry_clone(&vals::<T>(&r.ints()));
                    }
                    for v in op.get("otail").ints() {
                        u.push_value(T::mk(v));
                    }
                    vec![(u == *t) as i64, (u != *t) as i64]
                }
                _ => panic!("harness: ramp op {}", name),
            })
        };
        match r {
            Ok(r) => {
                ev.push("ret", r);
                ev.push("panic", false);
            }
            Err(m) => {
                if m.starts_with("harness:") {
                    panic!("{}", m);
                }
                ev.push("ret", Vec::<i64>::new());
                ev.push("panic", true);
            }
        }
        let full = extra.iter().any(|(n, _)| *n == "morene");
        for (n, v) in extra {
            ev.push(n, v);
        }
        ev.push("full", full);
        let (r, a) = rows(&t);
        ev.push("rows", r);
        ev.push("values", a);
        ev.push("len", t.len());
        ev.push("empty", t.is_empty());
        ev.push("nv", t.num_values());
        o.emit(ev);
    }
}

pub fn builder(case: &J, o: &mut Out) {
    let pairs: Vec<(u32, i64)> = case
        .get("pairs")
        .arr()
        .iter()
        .map(|p| (p.ints()[0] as u32, p.ints()[1]))
        .collect();
    let how = case.get("how").int();
    let r = guarded(|| {
        let mut b = match how % 2 {
            0 => RampTableBuilder::new(),
            _ => RampTableBuilder::with_capacity(pairs.len() / 2),
        };
        // a mix of push and extend
        let mut rest = &pairs[..];
        let mut i = 0;
        while !rest.is_empty() {
            if how < 2 || (how < 6 && i % 2 == 0) {
                b.push(rest[0].0, rest[0].1);
                rest = &rest[1..];
            } else {
                let n = rest.len().min(1 + (i * 7 + how as usize) % 5).max(1);
                let n = if how >= 6 { rest.len() } else { n };
                if n % 2 == 0 {
                    b.extend(Blind(rest[..n].iter().copied(), || (0, -5), false));
                } else {
                    b.extend(rest[..n].iter().copied());
                }
                rest = &rest[n..];
            }
            i += 1;
        }
        b.finish()
    });
    let mut ev = obj! {"ev": "build", "pairs": pairs.iter().map(|(k, v)| vec![*k as i64, *v]).collect::<Vec<_>>()};
    match r {
        Ok(t) => {
            let (r, a) = rows(&t);
            ev.push("panic", false);
            ev.push("len", t.len());
            ev.push("rows", r);
            ev.push("values", a);
        }
        Err(_) => {
            ev.push("panic", true);
        }
    }
    o.emit(ev);
}

#[derive(Debug, Clone)]
struct Item(i64, i64);
impl PartialEq for Item {
    fn eq(&self, o: &Item) -> bool {
        self.0 == o.0
    }
}
impl Eq for Item {}
impl PartialOrd for Item {
    fn partial_cmp(&self, o: &Item) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Item {
    fn cmp(&self, o: &Item) -> Ordering {
        self.0.cmp(&o.0)
    }
}

pub fn pq(case: &J, o: &mut Out) {
    let mut q: PQ<Item> = match case.get("new").int() {
        0 => PQ::new(),
        _ => PQ::with_capacity(4),
    };
    o.emit(obj! {"ev": "begin"});
    let mut n = 0;
    for op in case.get("ops").arr() {
        let mut ev = op.clone();
        if op.get("ev").str() == "bulk" {
            // many insertions and removals in one event; starts and ends with an empty queue
            let (xs, ys, h) = (op.get("xs").ints(), op.get("ys").ints(), op.get("h").usz());
            let r = guarded(|| {
                let mut n = 0;
                let mut take = |q: &mut PQ<Item>| q.remove().map(|i| vec![i.0, i.1]);
                for x in &xs {
                    n += 1;
                    q.insert(Item(*x, n));
                }
                let r1: Vec<Vec<i64>> = (0..h).filter_map(|_| take(&mut q)).collect();
                for x in &ys {
                    n += 1;
                    q.insert(Item(*x, n));
                }
                let r2: Vec<Vec<i64>> = (h..xs.len() + ys.len()).filter_map(|_| take(&mut q)).collect();
                (r1, r2, take(&mut q).unwrap_or_default())
            });
            ev.push("panic", r.is_err());
            let (r1, r2, last) = r.unwrap_or_default();
            ev.push("r1", r1);
            ev.push("r2", r2);
            ev.push("last", last);
            o.emit(ev);
            n = 0;
            continue;
        }
        let r: Result<Vec<i64>, String> = guarded(|| match op.get("ev").str() {
            "insert" => {
                n += 1;
                q.insert(Item(op.get("x").int(), n));
                vec![n]
            }
            "remove" => match q.remove() {
                Some(i) => vec![i.0, i.1],
                None => vec![],
            },
            "clear" => {
                q.clear();
                vec![]
            }
            n => panic!("harness: pq op {}", n),
        });
        match r {
            Ok(r) => {
                ev.push("ret", r);
                ev.push("panic", false);
            }
            Err(_) => {
                ev.push("ret", Vec::<i64>::new());
                ev.push("panic", true);
            }
        }
        o.emit(ev);
    }
}
