//! Drives the planar geometry (C19-C25, C28). Coordinates are given as integers and multiplied by
//! "sc" = [num, den] (powers of two, so exactly); lengths are reported divided by the same factor.
use crate::json::J;
use crate::{guarded, obj, Out};
use trellis::common::arith;
use trellis::common::ellipse::{ellipticWedge, PathTarget};
use trellis::common::geom;
use trellis::pathplan::cvt::Pobsopen;
use trellis::pathplan::route::Proutespline;
use trellis::pathplan::shortest::Pshortestpath;
use trellis::pathplan::shortestpth::makePath;
use trellis::pathplan::solvers::solve3;
use trellis::pathplan::vis::vconfig_t;
use trellis::pathplan::visibility::{area2, directVis, inBetween, polyhit, ptVis, wind};
use trellis::pathplan::{Pedge_t, POLYID_NONE, POLYID_UNKNOWN};
use trellis::polyline::Ppoly_t;
use trellis::vec2::Vec2;

type P = Vec2<f64>;

struct Scale(f64);
impl Scale {
    fn of(case: &J) -> Self {
        if !case.has("sc") {
            return Scale(1.0);
        }
        let s = case.get("sc").ints();
        Scale(s[0] as f64 / s[1] as f64)
    }
    fn p(&self, j: &J) -> P {
        let v = j.ints();
        Vec2 { x: v[0] as f64 * self.0, y: v[1] as f64 * self.0 }
    }
    fn poly(&self, j: &J) -> Ppoly_t {
        Ppoly_t { ps: j.arr().iter().map(|p| self.p(p)).collect() }
    }
    /// A coordinate that must be one of the given integers; anything else becomes a value no grid has.
    fn back(&self, x: f64) -> i64 {
        let y = x / self.0;
        if y == y.trunc() && y.abs() < 1e8 {
            y as i64
        } else {
            999_999_999
        }
    }
    fn pt(&self, p: &P) -> Vec<i64> {
        vec![self.back(p.x), self.back(p.y)]
    }
    /// thousandths
    fn milli(&self, x: f64) -> i64 {
        fixed(x / self.0 * 1000.0)
    }
}
/// Rounds, keeping within what TLC can represent.
fn fixed(x: f64) -> i64 {
    if x.is_nan() {
        1_999_999_999
    } else {
        x.round().max(-1.9e9).min(1.9e9) as i64
    }
}
fn i64s(v: &[i32]) -> Vec<i64> {
    v.iter().map(|x| *x as i64).collect()
}

fn config(case: &J, s: &Scale) -> vconfig_t {
    let polys: Vec<Ppoly_t> = case.get("polys").arr().iter().map(|p| s.poly(p)).collect();
    Pobsopen(&polys.iter().collect::<Vec<_>>())
}

fn polyid(x: i64) -> i32 {
    match x {
        -1 => POLYID_NONE,
        -2 => POLYID_UNKNOWN,
        x => x as i32,
    }
}

pub fn vis(case: &J, o: &mut Out) {
    let s = Scale::of(case);
    let mut ev = obj! {"ev": "vis", "polys": case.get("polys").clone()};
    let r = guarded(|| config(case, &s));
    ev.push("panic", r.is_err());
    if let Ok(c) = &r {
        ev.push("n", c.N);
        ev.push("np", c.Npoly);
        ev.push("pts", c.P.iter().map(|p| s.pt(p)).collect::<Vec<_>>());
        ev.push("start", i64s(&c.start));
        ev.push("next", i64s(&c.next));
        ev.push("prev", i64s(&c.prev));
        if case.has("some") {
            let some = case.get("some").arr();
            let at = |i: i64, j: i64| s.milli(c.vis[(i as usize, j as usize)]);
            ev.push("some", case.get("some").clone());
            ev.push("m", some.iter().map(|p| { let p = p.ints(); vec![at(p[0], p[1]), at(p[1], p[0])] }).collect::<Vec<_>>());
            o.emit(ev);
            return;
        }
        let m: Vec<Vec<i64>> = (0..c.N).map(|i| (0..c.N).map(|j| s.milli(c.vis[(i, j)])).collect()).collect();
        ev.push("m", m);
    }
    o.emit(ev);
}

/// Questions about points among the obstacles.
pub fn points(case: &J, o: &mut Out) {
    let s = Scale::of(case);
    let c = config(case, &s);
    for q in case.get("q").arr() {
        let mut ev = q.clone();
        ev.push("ev", q.get("ask").str());
        ev.push("polys", case.get("polys").clone());
        let p = s.p(q.get("p"));
        match q.get("ask").str() {
            "hit" => {
                let r = guarded(|| polyhit(&c, p));
                ev.push("panic", r.is_err());
                ev.push("hit", r.map(|h| if h == POLYID_NONE { -1 } else { h as i64 }).unwrap_or(-9));
            }
            "ptvis" => {
                let r = guarded(|| ptVis(&c, polyid(q.get("pp").int()), p));
                ev.push("panic", r.is_err());
                ev.push("v", r.unwrap_or_default().iter().map(|x| s.milli(*x)).collect::<Vec<_>>());
            }
            "direct" => {
                let (pp, qp) = (polyid(q.get("pp").int()), polyid(q.get("qp").int()));
                let r = guarded(|| directVis(p, pp, s.p(q.get("q")), qp, &c));
                ev.push("panic", r.is_err());
                ev.push("sees", r.unwrap_or(false));
            }
            "route" => {
                let (pp, qp) = (polyid(q.get("pp").int()), polyid(q.get("qp").int()));
                let b = s.p(q.get("q"));
                let r = guarded(|| makePath(p, pp, &ptVis(&c, pp, p), b, qp, &ptVis(&c, qp, b), &c));
                ev.push("panic", r.is_err());
                ev.push("dad", i64s(&r.unwrap_or_default()));
            }
            k => panic!("harness: unknown question {}", k),
        }
        o.emit(ev);
    }
}

pub fn inner(case: &J, o: &mut Out) {
    let s = Scale::of(case);
    let poly = s.poly(case.get("poly"));
    let eps = [s.p(case.get("a")), s.p(case.get("b"))];
    let mut ev = obj! {"ev": "inner", "poly": case.get("poly").clone(), "a": case.get("a").clone(), "b": case.get("b").clone()};
    let r = guarded(|| Pshortestpath(&poly, &eps));
    ev.push("panic", r.is_err());
    if let Ok(r) = r {
        ev.push("ok", r.is_ok());
        ev.push("path", r.map(|l| l.ps.iter().map(|p| s.pt(p)).collect::<Vec<_>>()).unwrap_or_default());
    }
    o.emit(ev);
}

pub fn spline(case: &J, o: &mut Out) {
    let s = Scale::of(case);
    let edges: Vec<Pedge_t> = case
        .get("bars")
        .arr()
        .iter()
        .map(|e| Pedge_t { a: s.p(&e.arr()[0]), b: s.p(&e.arr()[1]) })
        .collect();
    let input = s.poly(case.get("path"));
    let unit = Scale(1.0);
    let mut evs = [unit.p(&case.get("evs").arr()[0]), unit.p(&case.get("evs").arr()[1])];
    let mut ev = obj! {"ev": "spline", "bars": case.get("bars").clone(), "path": case.get("path").clone(), "evs": case.get("evs").clone()};
    let mut out = Ppoly_t::default();
    let r = guarded(|| Proutespline(&edges, &input, &mut evs, &mut out).is_ok());
    ev.push("panic", r.is_err());
    ev.push("ok", r.unwrap_or(false));
    // hundredths
    let h = |x: f64| fixed(x / s.0 * 100.0);
    ev.push("out", out.ps.iter().map(|p| vec![h(p.x), h(p.y)]).collect::<Vec<_>>());
    o.emit(ev);
}

/// "co": integer coefficients, lowest first, divided by "den".
pub fn solve(case: &J, o: &mut Out) {
    let co = case.get("co").ints();
    let den = case.get("den").int() as f64;
    let f: [f64; 4] = [co[0] as f64 / den, co[1] as f64 / den, co[2] as f64 / den, co[3] as f64 / den];
    let mut ev = obj! {"ev": "solve", "co": co, "fs": case.get("fs").clone(), "quad": case.get("quad").clone(), "lead": case.get("lead").clone()};
    let r = guarded(|| solve3(&f));
    ev.push("panic", r.is_err());
    if let Ok((n, roots)) = r {
        ev.push("n", n);
        let k = if n > 3 { 0 } else { n };
        ev.push("roots", roots[..k].iter().map(|x| fixed(x * 10000.0)).collect::<Vec<_>>());
    }
    o.emit(ev);
}

pub fn planar(case: &J, o: &mut Out) {
    let mut ev = case.clone();
    ev.push("ev", case.get("f").str());
    let v: Vec<i64> = case.get("a").ints();
    let d = v.get(v.len().saturating_sub(1)).map(|_| case.get("den").int() as f64).unwrap_or(1.0);
    // A negative denominator names one of several increasing mappings of whole numbers to numbers: neighbours
    // around one, around zero and around -1e9, and giants.
    let bits = |f: f64| f.to_bits() as i64;
    let near = |i: i64| if i >= 0 { f64::from_bits(i as u64) } else { -f64::from_bits(-i as u64) };
    let real = |i: i64| match d as i64 {
        -1 => near(bits(1.0) + i),
        -2 => near(i),
        -3 => -near(bits(1.0e9) - i),
        -4 => i as f64 * 2f64.powi(990),
        _ => i as f64 / d,
    };
    let nudge = if case.has("u") { case.get("u").int() } else { 0 };
    let x: Vec<f64> = v.iter().map(|i| if nudge == 0 || *i == 0 { real(*i) } else { let f = real(*i); f.signum() * near(bits(f.abs()) + nudge * f.signum() as i64) }).collect();
    let pt = |i: usize| Vec2 { x: x[i], y: x[i + 1] };
    let ip = |i: usize| Vec2 { x: v[i] as i32, y: v[i + 1] as i32 };
    let bx = |i: usize| geom::boxf { LL: pt(i), UR: pt(i + 2) };
    let back = |f: f64| {
        let y = match d as i64 {
            -1 => (bits(f) - bits(1.0)) as f64,
            -2 => if f == 0.0 { 0.0 } else if f > 0.0 { bits(f) as f64 } else { -bits(-f) as f64 },
            -3 => (bits(1.0e9) - bits(-f)) as f64,
            -4 => f / 2f64.powi(990),
            _ => f * d,
        };
        if y == y.trunc() && y.abs() < 2e9 { y as i64 } else { 1_999_999_999 }
    };
    let fbox = |b: &geom::boxf| vec![back(b.LL.x), back(b.LL.y), back(b.UR.x), back(b.UR.y)];
    let r: Result<Vec<i64>, String> = guarded(|| match case.get("f").str() {
        // den is 1 for these
        "area2" => vec![back(area2(pt(0), pt(2), pt(4)))],
        "wind" => vec![wind(pt(0), pt(2), pt(4)) as i64],
        "between" => vec![inBetween(pt(0), pt(2), pt(4)) as i64],
        "inside" => vec![geom::INSIDE(pt(0), &bx(2)) as i64],
        "overlap" => vec![geom::OVERLAP(&bx(0), &bx(4)) as i64],
        "contains" => vec![geom::CONTAINS(&bx(0), &bx(4)) as i64],
        "expandp" => {
            let mut b = bx(0);
            geom::EXPANDBP(&mut b, pt(4));
            fbox(&b)
        }
        "expandb" => {
            let mut b = bx(0);
            geom::EXPANDBB(&mut b, &bx(4));
            fbox(&b)
        }
        "clip" => {
            let mut b = bx(0);
            geom::CLIPBB(&mut b, &bx(4));
            fbox(&b)
        }
        "round" => vec![arith::ROUND(x[0]) as i64],
        "pf2p" => {
            let p = geom::PF2P(pt(0));
            vec![p.x as i64, p.y as i64]
        }
        "bf2b" => {
            let b = geom::BF2B(&bx(0));
            vec![b.LL.x as i64, b.LL.y as i64, b.UR.x as i64, b.UR.y as i64]
        }
        "p2pf" => {
            let p = geom::P2PF(ip(0));
            vec![back(p.x), back(p.y)]
        }
        "b2bf" => fbox(&geom::B2BF(&geom::boxi { LL: ip(0), UR: ip(2) })),
        "len" => vec![back(geom::LEN2(x[0], x[1])), back(geom::DIST2(pt(2), pt(4))), fixed(geom::LEN(x[0], x[1]) * 1000.0), fixed(geom::DIST(pt(2), pt(4)) * 1000.0)],
        "order" => vec![
            back(arith::MIN(x[0], x[1])),
            back(arith::MAX(x[0], x[1])),
            arith::SGN(x[2]) as i64,
            arith::CMP(x[0], x[1]) as i64,
            arith::BETWEEN(x[0], x[1], x[2]) as i64,
            back(trellis::math::fmin(x[0], x[1])),
            back(trellis::math::fmax(x[0], x[1])),
        ],
        "arith" => vec![
            back(arith::MIN(x[0], x[1])),
            back(arith::MAX(x[0], x[1])),
            back(arith::AVG(x[0], x[1]) * 2.0),
            arith::SGN(x[0]) as i64,
            arith::CMP(x[0], x[1]) as i64,
            arith::BETWEEN(x[0], x[1], x[2]) as i64,
            back(arith::SQR(x[0]) / d),
            back(trellis::math::fmin(x[0], x[1])),
            back(trellis::math::fmax(x[0], x[1])),
        ],
        "units" => vec![
            // x[0] is in inches, then in degrees
            geom::POINTS(x[0]) as i64,
            back(geom::INCH2PS(x[0])),
            back(geom::PS2INCH(x[0]) * 72.0),
            fixed(arith::RADIANS(x[0]) / std::f64::consts::PI * 180.0 * d * 1000.0),
            fixed(arith::DEGREES(x[0]) / 180.0 * std::f64::consts::PI * d * 1000.0),
        ],
        "angle" => {
            // x[0] in parts of 24 of a turn
            let p = P::from_angle(x[0] / 12.0 * std::f64::consts::PI);
            vec![fixed(p.x * 1000.0), fixed(p.y * 1000.0)]
        }
        "approx" => vec![
            geom::APPROXEQ(x[0], x[1], x[4]) as i64,
            geom::APPROXEQPT(pt(0), pt(2), x[4]) as i64,
        ],
        "ivec" => {
            let (a, b) = (ip(0), ip(2));
            let k = v[4] as i32;
            let t: (i32, i32) = a.into();
            let u: Vec2<i32> = t.into();
            let mut r = vec![];
            for p in [a + b, a - b, a * k, a * k / k, u] {
                r.extend([p.x as i64, p.y as i64]);
            }
            r.push((format!("{:?}", a) == format!("({:?}, {:?})", t.0, t.1)) as i64);
            r.push((a == b) as i64);
            r.push(trellis::math::sqr(t.1) as i64);
            r
        }
        "vec" => {
            let (a, b) = (pt(0), pt(2));
            let l = |p: P| vec![back(p.x), back(p.y)];
            let mut r = vec![];
            r.extend(l(a + b));
            r.extend(l(a - b));
            r.extend(l(a * x[4]));
            r.extend(l(x[4] * a));
            r.extend(l((a * x[4]) / x[4]));
            r
        }
        f => panic!("harness: unknown function {}", f),
    });
    ev.push("panic", r.is_err());
    ev.push("r", r.unwrap_or_default());
    o.emit(ev);
}

/// A target that records what it is told to draw.
#[derive(Default)]
struct Calls {
    ps: Vec<P>,
    moves: usize,
    ends: usize,
    late: bool,
}
impl PathTarget for Calls {
    fn move_to(&mut self, p: P) {
        self.late |= self.ends > 0 || !self.ps.is_empty();
        self.moves += 1;
        self.ps.push(p);
    }
    fn line_to(&mut self, p: P) {
        let last = *self.ps.last().expect("a line from nowhere");
        self.curve_to(last, p, p);
    }
    fn curve_to(&mut self, p1: P, p2: P, p3: P) {
        self.late |= self.ends > 0 || self.ps.is_empty();
        self.ps.extend([p1, p2, p3]);
    }
    fn end_path(&mut self, close: bool) {
        if close {
            let p = self.ps[0];
            self.line_to(p);
        }
        self.ends += 1;
    }
}
impl Calls {
    /// The points, if they were drawn in one go.
    fn drawn(self) -> Option<Vec<P>> {
        if self.moves == 1 && self.ends == 1 && !self.late {
            Some(self.ps)
        } else {
            None
        }
    }
}

/// Angles are given as fractions of a turn: "ang" = [from, to], in parts of "of".
pub fn wedge(case: &J, o: &mut Out) {
    use std::f64::consts::PI;
    let unit = match if case.has("unit") { case.get("unit").int() } else { 64 } {
        u if u > 0 => u as f64 / 64.0,
        u => 1.0 / (64 * -u) as f64,
    };
    let ax: Vec<f64> = case.get("ax").ints().iter().map(|x| *x as f64 * unit).collect();
    let c = Scale(1.0).p(case.get("ctr"));
    let mut ev = obj! {"ev": "wedge", "ax": case.get("ax").clone(), "ctr": case.get("ctr").clone()};
    let ang: Vec<f64> = if case.has("dirs") {
        // Directions as whole vectors, and the turns added to each.
        ev = obj! {"ev": "wedgedir", "ax": case.get("ax").clone(), "ctr": case.get("ctr").clone(),
        "dirs": case.get("dirs").clone(), "whole": case.get("whole").clone()};
        let turns = case.get("turns").ints();
        (0..2)
            .map(|i| {
                let d = case.get("dirs").arr()[i].ints();
                (d[1] as f64).atan2(d[0] as f64) + 2.0 * PI * turns[i] as f64
            })
            .collect()
    } else {
        let of = case.get("of").int() as f64;
        ev.push("of", case.get("of").clone());
        ev.push("ang", case.get("ang").clone());
        case.get("ang").ints().iter().map(|x| *x as f64 / of * 2.0 * PI).collect()
    };
    let mut path = Ppoly_t::default();
    let r = guarded(|| ellipticWedge(c, ax[0], ax[1], ang[0], ang[1], &mut path));
    ev.push("panic", r.is_err());
    // The same on a path that has been used before, and on another kind of target.
    let mut used = Ppoly_t { ps: vec![P { x: 5.0, y: 7.0 }; 3] };
    let mut calls = Calls::default();
    let r = guarded(|| {
        ellipticWedge(c, ax[0], ax[1], ang[0], ang[1], &mut used);
        ellipticWedge(c, ax[0], ax[1], ang[0], ang[1], &mut calls);
    });
    let drawn = calls.drawn();
    ev.push("used", r.is_ok() && used.ps == path.ps);
    ev.push("calls", r.is_ok() && drawn.as_ref() == Some(&path.ps));
    // On the unit circle, in parts of 10000.
    ev.push(
        "out",
        path.ps
            .iter()
            .map(|p| vec![fixed((p.x - c.x) / ax[0] * 10000.0), fixed((p.y - c.y) / ax[1] * 10000.0)])
            .collect::<Vec<_>>(),
    );
    o.emit(ev);
}
