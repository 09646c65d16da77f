//! Drives the two shortest-path searches (C17, C18).
use crate::json::J;
use crate::{guarded, obj, Out};
use std::cell::Cell;
use std::collections::HashMap;
use trellis::ortho::shortest_path::find_shortest_path;
use trellis::pathplan::array2::Array2;
use trellis::pathplan::shortestpth::{shortestPath, shortestPathGeneric};

/// "adj": per vertex the list of [to, weight]; "ids": the number under which each vertex is known to the search;
/// "mul": the unit of the weights. A case with "pot" is judged by that certificate ("bigsearch").
pub fn search(case: &J, o: &mut Out) {
    let ids: Vec<i32> = case.get("ids").ints().iter().map(|x| *x as i32).collect();
    let index: HashMap<i32, usize> = ids.iter().enumerate().map(|(i, x)| (*x, i)).collect();
    let mul = if case.has("mul") { case.get("mul").int() } else { 1 };
    let adj: Vec<Vec<(i32, i32)>> = case
        .get("adj")
        .arr()
        .iter()
        .map(|l| l.arr().iter().map(|e| (ids[e.arr()[0].usz()], (e.arr()[1].int() * mul) as i32)).collect())
        .collect();
    let edges = |v: i32| adj[*index.get(&v).expect("unknown vertex asked for")].clone().into_iter();
    let (s, t) = (case.get("s").usz(), case.get("t").usz());
    let r = guarded(|| find_shortest_path(edges, ids[s], ids[t]));
    let name = if case.has("pot") { "bigsearch" } else { "search" };
    let mut ev = obj! {"ev": name, "adj": case.get("adj").clone(), "s": s, "t": t, "panic": r.is_err()};
    if case.has("pot") {
        ev.push("pot", case.get("pot").clone());
    }
    if let Ok(r) = r {
        ev.push("found", r.is_some());
        // A vertex the graph does not have becomes -1.
        let p: Vec<i64> = r.unwrap_or_default().iter().map(|v| index.get(v).map(|i| *i as i64).unwrap_or(-1)).collect();
        ev.push("path", p);
    }
    o.emit(ev);
}

/// "w": rows of the lower triangle, diagonal included. The cells above the diagonal are filled with "junk".
pub fn matrix(case: &J, o: &mut Out) {
    let w: Vec<Vec<i64>> = case.get("w").arr().iter().map(|r| r.ints()).collect();
    let n = w.len();
    let den = case.get("den").int() as f64 / if case.has("mul") { case.get("mul").int() as f64 } else { 1.0 };
    let junk = case.get("junk").int() as f64 / den;
    let mut a: Array2<f64> = Array2::new(n, n, case.get("extra").usz());
    for i in 0..n {
        for j in 0..n {
            a[(i, j)] = if j <= i { w[i][j] as f64 / den } else { junk };
        }
    }
    let (s, t) = (case.get("s").int() as i32, case.get("t").int() as i32);
    let above = Cell::new(false);
    let name = if case.has("pot") { "bigmatrix" } else { "matrix" };
    let mut ev = obj! {"ev": name, "w": case.get("w").clone(), "s": s as i64, "t": t as i64};
    if case.has("pot") {
        ev.push("pot", case.get("pot").clone());
    }
    let d = |v: &Vec<i32>| v.iter().map(|x| *x as i64).collect::<Vec<i64>>();
    let r1 = guarded(|| shortestPath(s, t, n, &a));
    let r2 = guarded(|| {
        shortestPathGeneric(s, t, n, |i, j| {
            above.set(above.get() || j > i);
            a[(i, j)]
        })
    });
    ev.push("panic", r1.is_err() || r2.is_err());
    ev.push("dad", r1.as_ref().map(d).unwrap_or_default());
    ev.push("gdad", r2.as_ref().map(d).unwrap_or_default());
    ev.push("above", above.get());
    o.emit(ev);
}
