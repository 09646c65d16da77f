//! Drives graph construction and the graph algorithms (C08-C16). A graph is given as the list of target
//! lists of its vertices ("adj").
use crate::json::J;
use crate::{guarded, obj, Out};
use trellis::disjoint::find_disjoint_subgraphs;
use trellis::find_chains::find_chains;
use trellis::graph::{assert_graph_is_well_formed, Graph};
use trellis::layering::{create_layer_map, create_proper_graph, LayerMap};
use trellis::testing::{graph_builder, graph_from_paths};
use trellis::topo_sort::{topo_sort, topo_sort_reverse};

fn i64s(v: &[u32]) -> Vec<i64> {
    v.iter().map(|x| *x as i64).collect()
}

fn make(adj: &J) -> Graph {
    let mut g = Graph::new();
    for to in adj.arr() {
        for t in to.ints() {
            g.push_to(t as u32);
        }
        g.finish_from();
    }
    g
}

fn adj_of(g: &Graph) -> Vec<Vec<i64>> {
    (0..g.num_verts()).map(|v| i64s(g.edges_from(v as u32))).collect()
}

/// Everything the accessors say about a graph.
fn accessors(g: &Graph, ev: &mut J) {
    ev.push("nv", g.num_verts());
    ev.push("ne", g.num_edges());
    ev.push("from", adj_of(g));
    ev.push("flat", g.iter_edges_flattened().map(|(f, t)| vec![f as i64, t as i64]).collect::<Vec<_>>());
    ev.push(
        "lists",
        g.iter_from_edges()
            .map(|(f, l)| {
                let mut v = vec![f as i64];
                v.extend(i64s(l));
                v
            })
            .collect::<Vec<_>>(),
    );
    ev.push("wf", guarded(|| assert_graph_is_well_formed(g)).is_ok());
}

fn put(ev: &mut J, r: Result<J, String>, o: &mut Out) {
    match r {
        Ok(J::Obj(f)) => {
            ev.push("panic", false);
            for (k, v) in f {
                ev.push(&k, v);
            }
        }
        Ok(_) => panic!("harness: put"),
        Err(m) => {
            if m.starts_with("harness:") {
                panic!("{}", m)
            }
            ev.push("panic", true)
        }
    }
    o.emit(std::mem::replace(ev, J::Null));
}

/// The giant graphs, given by their shape and size.
fn shaped(case: &J) -> Vec<Vec<i64>> {
    let n = case.get("n").usz();
    let mut a = vec![vec![]; n];
    match case.get("shape").str() {
        "path" => (1..n).for_each(|v| a[v - 1].push(v as i64)),
        "down" => (1..n).for_each(|v| a[v].push(v as i64 - 1)),
        "cycle" => (0..n).for_each(|v| a[v].push(((v + 1) % n) as i64)),
        "star" => (1..n).for_each(|v| a[0].push(v as i64)),
        "instar" => (0..n - 1).for_each(|v| a[v].push(n as i64 - 1)),
        // many small components, last vertices first
        "pairs" => (0..n / 2).for_each(|v| a[n - 1 - v].push(v as i64)),
        "tree" => (1..n).for_each(|v| a[(v - 1) / 2].push(v as i64)),
        // a path with a further target at every vertex, after or before the next one
        s @ ("comb" | "comb2") => (0..n / 2).for_each(|v| {
            if v + 1 < n / 2 {
                a[v].push(v as i64 + 1)
            }
            a[v].push((n / 2 + v) as i64);
            if s == "comb2" {
                a[v].reverse()
            }
        }),
        // one vertex in the middle of n / 2 chains of one interior vertex each
        "wheel" => (0..n / 2).for_each(|v| {
            a[v].push((n / 2 + v) as i64);
            if n / 2 + v < n - 1 {
                a[n / 2 + v].push(n as i64 - 1)
            }
        }),
        s => panic!("harness: shape {}", s),
    }
    a
}
fn to_j(a: &Vec<Vec<i64>>) -> J {
    J::Arr(a.iter().map(|l| l.clone().into()).collect())
}
/// Certificates about a graph, for the specification to check.
fn reversed(a: &Vec<Vec<i64>>) -> Vec<Vec<i64>> {
    let mut r = vec![vec![]; a.len()];
    for (v, l) in a.iter().enumerate() {
        l.iter().for_each(|t| r[*t as usize].push(v as i64));
    }
    r
}
/// Some cycle of a graph, or nothing.
fn cycle_of(a: &Vec<Vec<i64>>) -> Vec<i64> {
    let back = reversed(a);
    let mut left: Vec<usize> = a.iter().map(|l| l.len()).collect();
    let mut todo: Vec<usize> = (0..a.len()).filter(|v| left[*v] == 0).collect();
    while let Some(v) = todo.pop() {
        for f in &back[v] {
            left[*f as usize] -= 1;
            if left[*f as usize] == 0 {
                todo.push(*f as usize)
            }
        }
    }
    // every vertex that is left leads to another one
    let (mut seen, mut walk) = (vec![usize::MAX; a.len()], vec![]);
    let mut v = match (0..a.len()).find(|v| left[*v] > 0) {
        Some(v) => v,
        None => return walk,
    };
    while seen[v] == usize::MAX {
        seen[v] = walk.len();
        walk.push(v as i64);
        v = *a[v].iter().find(|t| left[**t as usize] > 0).unwrap() as usize;
    }
    walk.split_off(seen[v])
}
/// Where the first n items of the preorder from start come from: parents (0: start), places among the
/// parent's targets, and the nearest ancestors that are followed by another target.
fn preorder_of(a: &Vec<Vec<i64>>, start: usize, n: usize) -> (Vec<i64>, Vec<i64>, Vec<i64>) {
    let (mut par, mut pos, mut up): (Vec<i64>, Vec<i64>, Vec<i64>) = (vec![], vec![], vec![]);
    let mut vert = vec![start];
    let mut at = (0, 0); // the next item: parent, place
    while par.len() < n {
        let outs = &a[vert[at.0]];
        if at.1 >= outs.len() {
            let u = if at.0 == 0 { 0 } else { up[at.0 - 1] as usize };
            if u == 0 {
                break;
            }
            at = (par[u - 1] as usize, pos[u - 1] as usize);
            continue;
        }
        let i = par.len() as i64 + 1;
        par.push(at.0 as i64);
        pos.push(at.1 as i64 + 1);
        up.push(if at.1 + 1 < outs.len() { i } else if at.0 == 0 { 0 } else { up[at.0 - 1] });
        vert.push(outs[at.1] as usize);
        at = (i as usize, 0);
    }
    (par, pos, up)
}
fn positions(n: usize, order: impl Iterator<Item = i64>) -> Vec<i64> {
    let mut p = vec![0; n];
    for (i, v) in order.enumerate() {
        if (v as usize) < n {
            p[v as usize] = i as i64 + 1;
        }
    }
    p
}
fn spanning(a: &Vec<Vec<i64>>, rows: &Vec<Vec<i64>>) -> (Vec<i64>, Vec<i64>, Vec<i64>) {
    let (n, back) = (a.len(), reversed(a));
    let (mut of, mut up, mut depth) = (vec![0; n], vec![-1; n], vec![-1; n]);
    for (k, r) in rows.iter().enumerate() {
        for v in r {
            if (*v as usize) < n {
                of[*v as usize] = k as i64 + 1;
            }
        }
        let mut todo = std::collections::VecDeque::new();
        if let Some(v) = r.first().filter(|v| (**v as usize) < n) {
            depth[*v as usize] = 0;
            todo.push_back(*v as usize);
        }
        while let Some(v) = todo.pop_front() {
            for t in a[v].iter().chain(back[v].iter()) {
                let t = *t as usize;
                if depth[t] < 0 {
                    depth[t] = depth[v] + 1;
                    up[t] = v as i64;
                    todo.push_back(t);
                }
            }
        }
    }
    (of, up, depth)
}
/// The edge whose chain each virtual vertex of p lies on and the place there, and the last one of each edge.
fn places(n: usize, p: &Vec<Vec<i64>>) -> (Vec<Vec<i64>>, Vec<i64>, Vec<Vec<i64>>) {
    let (mut own, mut dep) = (vec![vec![0, 0]; p.len()], vec![0; p.len()]);
    let mut last = vec![vec![]; n];
    for i in 0..n.min(p.len()) {
        for j in 0..p[i].len() {
            let (mut t, mut k, mut end) = (p[i][j] as usize, 0, -1);
            while t >= n && t < p.len() && dep[t] == 0 && p[t].len() == 1 {
                k += 1;
                own[t] = vec![i as i64 + 1, j as i64 + 1];
                dep[t] = k;
                end = t as i64;
                t = p[t][0] as usize;
            }
            last[i].push(end);
        }
    }
    (own, dep, last)
}

pub fn run(case: &J, o: &mut Out) {
    let what = case.get("what").str();
    let mut ev = obj! {"ev": what.to_string()};
    let giant = case.has("shape") || case.has("big");
    let shape = if case.has("shape") {
        shaped(case)
    } else if giant {
        case.get("adj").arr().iter().map(|l| l.ints()).collect()
    } else {
        vec![]
    };
    let made = if giant { to_j(&shape) } else { J::Null };
    let adj = if giant { &made } else { case.get("adj") };
    if case.has("adj") || giant {
        ev.push("adj", adj.clone());
    }
    if giant {
        ev.push("in", to_j(&reversed(&shape)));
    }
    match what {
        "build" => {
            let ops = if giant {
                let e: Vec<J> = shape
                    .iter()
                    .enumerate()
                    .flat_map(|(v, l)| l.iter().map(move |t| obj! {"how": "edge", "v": vec![v as i64, *t]}))
                    .collect();
                let n = case.get("n").int();
                match case.get("how").str() {
                    "edge" => J::Arr(e),
                    h => J::Arr(vec![obj! {"how": h, "v": if case.get("shape").str() == "down" { (0..n).rev().collect::<Vec<i64>>() } else { (0..n).collect() }}]),
                }
            } else {
                case.get("ops").clone()
            };
            ev.push("ops", ops.clone());
            if giant {
                ev.push("giant", 1);
            }
            let r = guarded(|| {
                let verts = |op: &J| op.get("v").ints().iter().map(|x| *x as u32).collect::<Vec<_>>();
                let g = if case.has("all") && case.get("all").int() == 1 {
                    let ps: Vec<Vec<u32>> = ops.arr().iter().map(verts).collect();
                    let refs: Vec<&[u32]> = ps.iter().map(|x| &x[..]).collect();
                    graph_from_paths(&refs)
                } else {
                    let mut b = graph_builder();
                    for op in ops.arr() {
                        let v = verts(op);
                        match op.get("how").str() {
                            "edge" => v.windows(2).for_each(|w| b.edge(w[0], w[1])),
                            "path" => b.path(&v),
                            "chain" => {
                                if !v.is_empty() {
                                    let mut c = b.from(v[0]);
                                    for t in &v[1..] {
                                        c = c.to(*t);
                                    }
                                }
                            }
                            h => panic!("harness: {}", h),
                        }
                    }
                    b.build()
                };
                let mut e = obj! {};
                accessors(&g, &mut e);
                e
            });
            put(&mut ev, r, o)
        }
        "raw" => {
            let r = guarded(|| {
                let g = make(adj);
                let mut e = obj! {};
                accessors(&g, &mut e);
                e.push("alias", g.edges().len() == g.num_verts() && g == g.clone());
                e
            });
            put(&mut ev, r, o)
        }
        "transpose" => {
            let r = guarded(|| {
                let g = make(adj);
                let t = g.transpose();
                let tt = t.transpose();
                obj! {"nv": t.num_verts(), "ne": t.num_edges(), "t": adj_of(&t), "tt": adj_of(&tt), "same": adj_of(&g)}
            });
            put(&mut ev, r, o)
        }
        "degree" => {
            // e as runs of [vertex, times]
            ev.push("e", case.get("e").clone());
            ev.push("nv", case.get("nv").int());
            ev.push("base", case.get("base").clone());
            let mut e: Vec<u32> = vec![];
            for r in case.get("e").arr() {
                let r = r.ints();
                for _ in 0..r[1] {
                    e.push(r[0] as u32);
                }
            }
            let nv = case.get("nv").usz();
            let mut d: Vec<u16> = case.get("base").ints().iter().map(|x| *x as u16).collect();
            let a = guarded(|| trellis::add_degree(&e, &mut d));
            ev.push("addpanic", a.is_err());
            ev.push("sat", a.unwrap_or(false));
            ev.push("add", d.iter().map(|x| *x as i64).collect::<Vec<_>>());
            let f = guarded(|| trellis::find_degree(&e, nv as u32));
            ev.push("findpanic", f.is_err());
            ev.push("find", f.unwrap_or_default().iter().map(|x| *x as i64).collect::<Vec<_>>());
            let f = guarded(|| trellis::find_referenced_edges(&e, nv));
            ev.push("refpanic", f.is_err());
            ev.push("ref", f.unwrap_or_default().iter().map(|x| *x as i64).collect::<Vec<_>>());
            o.emit(ev);
        }
        "ends" => {
            let g = make(adj);
            let s = guarded(|| trellis::find_sources(&g.edges));
            ev.push("srcpanic", s.is_err());
            ev.push("sources", s.unwrap_or_default().iter().map(|x| *x as i64).collect::<Vec<_>>());
            let s = guarded(|| trellis::find_sinks(&g.edges));
            ev.push("sinkpanic", s.is_err());
            ev.push("sinks", s.unwrap_or_default().iter().map(|x| *x as i64).collect::<Vec<_>>());
            o.emit(ev);
        }
        "dfs" => {
            let n = case.get("take").usz();
            ev.push("start", case.get("start").int());
            ev.push("take", n);
            if giant {
                let (par, pos, up) = preorder_of(&shape, case.get("start").usz(), n);
                ev.push("par", par);
                ev.push("pos", pos);
                ev.push("up", up);
            }
            let r = guarded(|| {
                let g = make(adj);
                let mut it = trellis::traverse_depth_first_preorder(&g.edges, case.get("start").usz() as u32);
                let mut got: Vec<i64> = vec![];
                let mut ended = false;
                while got.len() < n {
                    match it.next() {
                        Some(v) => got.push(v as i64),
                        None => {
                            ended = true;
                            break;
                        }
                    }
                }
                let again = ended && it.next().is_none();
                obj! {"out": got, "ended": ended, "again": again}
            });
            put(&mut ev, r, o)
        }
        "topo" => {
            if giant {
                ev.push("cycle", cycle_of(&shape));
            }
            let r = guarded(|| {
                let g = make(adj);
                let f = topo_sort(&g);
                let b = topo_sort_reverse(&g);
                let (fo, bo) = (f.is_ok(), b.is_ok());
                let (f, b) = (i64s(&f.unwrap_or_default()), i64s(&b.unwrap_or_default()));
                let mut e = obj! {"ok": fo, "order": f.clone(), "rok": bo, "rorder": b.clone()};
                if giant {
                    e.push("pos", positions(shape.len(), f.iter().copied()));
                    e.push("rpos", positions(shape.len(), b.iter().rev().copied()));
                }
                e
            });
            put(&mut ev, r, o)
        }
        "layers" => {
            if giant {
                ev.push("cycle", cycle_of(&shape));
            }
            let r = guarded(|| {
                let g = make(adj);
                match create_layer_map(&g) {
                    Ok(m) => obj! {"ok": true, "layer": i64s(&m.v_layer), "n": m.num_layers},
                    Err(_) => obj! {"ok": false, "layer": Vec::<i64>::new(), "n": 0},
                }
            });
            put(&mut ev, r, o)
        }
        "proper" => {
            let n = shape.len();
            let layer: Vec<i64> = match (case.has("layer"), case.get("shape")) {
                (true, _) => case.get("layer").ints(),
                (_, J::Str(s)) if s == "path" => (0..n as i64).rev().collect(),
                (_, J::Str(s)) if s == "down" => (0..n as i64).collect(),
                _ => (0..n).map(|v| (v >= n - n / 2) as i64).collect(),
            };
            ev.push("layer", layer.clone());
            let r = guarded(|| {
                let g = make(adj);
                let v_layer: Vec<u32> = layer.iter().map(|x| *x as u32).collect();
                let n_verts = v_layer.len();
                let n = v_layer.iter().max().map(|x| *x as usize).unwrap_or(0) + 1;
                let p = create_proper_graph(&g, &LayerMap { num_layers: n, v_layer });
                let mut e = obj! {"p": adj_of(&p), "ne": p.num_edges()};
                if giant {
                    let (own, dep, last) = places(n_verts, &adj_of(&p));
                    e.push("own", J::Arr(own.iter().map(|o| o.clone().into()).collect()));
                    e.push("dep", dep);
                    e.push("last", to_j(&last));
                }
                e
            });
            put(&mut ev, r, o)
        }
        "disjoint" => {
            let r = guarded(|| {
                let g = make(adj);
                let d = find_disjoint_subgraphs(&g).subgraphs;
                let rows = (0..d.len()).map(|k| i64s(d.entry_values(k))).collect::<Vec<_>>();
                let mut e = obj! {"rows": rows.clone(), "nv": d.num_values()};
                if giant {
                    let (of, up, depth) = spanning(&shape, &rows);
                    e.push("of", of);
                    e.push("up", up);
                    e.push("depth", depth);
                }
                e
            });
            put(&mut ev, r, o)
        }
        "chains" => {
            let r = guarded(|| {
                let g = make(adj);
                let d = find_chains(&g);
                obj! {"rows": (0..d.len()).map(|k| i64s(d.entry_values(k))).collect::<Vec<_>>(), "nv": d.num_values()}
            });
            put(&mut ev, r, o)
        }
        w => panic!("harness: graph {}", w),
    }
}
