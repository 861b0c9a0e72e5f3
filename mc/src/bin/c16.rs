//! C16: polygon geometry.
use imageproc::geometry::*;
use imageproc::point::Point;
use mc::*;
use std::collections::BTreeSet;

type P = Point<i32>;

fn cross(o: P, a: P, b: P) -> i128 {
    let d = |a: i32, b: i32| a as i128 - b as i128;
    d(a.x, o.x) * d(b.y, o.y) - d(a.y, o.y) * d(b.x, o.x)
}

/// The extreme points in cyclic order (monotone chain).
fn hull(points: &[P]) -> Vec<P> {
    let s: BTreeSet<(i32, i32)> = points.iter().map(|p| (p.x, p.y)).collect();
    let v: Vec<P> = s.into_iter().map(|(x, y)| Point::new(x, y)).collect();
    if v.len() < 3 {
        return v;
    }
    let half = |it: &mut dyn Iterator<Item = P>| {
        let mut h: Vec<P> = vec![];
        for p in it {
            while h.len() > 1 && cross(h[h.len() - 2], h[h.len() - 1], p) <= 0 {
                h.pop();
            }
            h.push(p);
        }
        h.pop();
        h
    };
    let mut a = half(&mut v.iter().copied());
    a.extend(half(&mut v.iter().rev().copied()));
    a
}

fn same_cycle(a: &[P], b: &[P]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let n = a.len();
    n == 0
        || (0..n).any(|s| (0..n).all(|i| a[i] == b[(s + i) % n]) || (0..n).all(|i| a[i] == b[(s + n - i) % n]))
}

fn dist(a: P, b: P) -> f64 {
    ((a.x as f64 - b.x as f64).powi(2) + (a.y as f64 - b.y as f64).powi(2)).sqrt()
}

fn measures(ch: &mut Ch, pts: &[P]) -> R {
    ch.ops(5);
    let h = catching(|| convex_hull(pts))?;
    let e = hull(pts);
    ch.observe(h.len() as u64);
    check!(same_cycle(&h, &e), "hull of {pts:?} is {h:?}, expected {e:?}");
    check!(convex_hull(h.clone()) == h, "hull of the hull {h:?}");
    // shoelace in exact arithmetic (the values are small enough for f64)
    let n = pts.len();
    let a2: i128 = if n < 3 { 0 } else { (0..n).map(|i| (pts[i], pts[(i + 1) % n])).map(|(p, q)| p.x as i128 * q.y as i128 - p.y as i128 * q.x as i128).sum() };
    let tol = 1e-12 * pts.iter().map(|p| (p.x as f64).abs() * 2.0 + (p.y as f64).abs() * 2.0).fold(1.0, |a: f64, b| a.max(b)).powi(2) * n as f64;
    check!((oriented_contour_area(pts) - a2 as f64 / 2.0).abs() <= tol, "oriented area of {pts:?} is {}", oriented_contour_area(pts));
    check!((contour_area(pts) - (a2 as f64 / 2.0).abs()).abs() <= tol, "area of {pts:?} is {}", contour_area(pts));
    let open: f64 = pts.windows(2).map(|w| dist(w[0], w[1])).sum();
    let closed = open + if n > 0 { dist(pts[0], pts[n - 1]) } else { 0.0 };
    let tol = 1e-12 * (1.0 + closed);
    check!((arc_length(pts, false) - open).abs() <= tol, "length of {pts:?} is {}, expected {open}", arc_length(pts, false));
    check!((arc_length(pts, true) - closed).abs() <= tol, "closed length of {pts:?} is {}, expected {closed}", arc_length(pts, true));
    Ok(())
}

/// Rectangle corners in clockwise order on the screen and area, for the direction of an edge.
fn aligned(hull: &[P], i: usize) -> ([(f64, f64); 4], f64) {
    let (p, q) = (hull[i], hull[(i + 1) % hull.len()]);
    let (dx, dy) = (q.x as f64 - p.x as f64, q.y as f64 - p.y as f64);
    let l = dx.hypot(dy);
    let (ux, uy) = (dx / l, dy / l);
    // relative to p, to keep the precision
    let (mut lo, mut hi) = ((0f64, 0f64), (0f64, 0f64));
    for r in hull {
        let (x, y) = (r.x as f64 - p.x as f64, r.y as f64 - p.y as f64);
        let (a, b) = (x * ux + y * uy, -x * uy + y * ux);
        lo = (lo.0.min(a), lo.1.min(b));
        hi = (hi.0.max(a), hi.1.max(b));
    }
    let c = |a: f64, b: f64| (p.x as f64 + a * ux - b * uy, p.y as f64 + a * uy + b * ux);
    // (u, v) is oriented like (x, y): this order is clockwise with y pointing down
    ([c(lo.0, lo.1), c(hi.0, lo.1), c(hi.0, hi.1), c(lo.0, hi.1)], (hi.0 - lo.0) * (hi.1 - lo.1))
}

fn rect(ch: &mut Ch, pts: &[P]) -> R {
    ch.op();
    let r = catching(|| min_area_rect(pts))?;
    let h = hull(pts);
    ch.log(|| format!("{pts:?} rect {r:?} hull {h:?}"));
    if h.len() < 3 {
        let got: BTreeSet<_> = r.iter().map(|p| (p.x, p.y)).collect();
        let want: BTreeSet<_> = h.iter().map(|p| (p.x, p.y)).collect();
        check!(got == want, "rectangle {r:?} of the collinear points {pts:?}");
        return Ok(());
    }
    let all: Vec<_> = (0..h.len()).map(|i| aligned(&h, i)).collect();
    let min = all.iter().map(|a| a.1).fold(f64::MAX, f64::min);
    let size = h.iter().map(|p| (p.x as f64).abs().max((p.y as f64).abs())).fold(1.0, f64::max);
    let eps = 1e-9 * size;
    let low = |g: i32, v: f64| g as f64 == (v - eps).floor() || g as f64 == (v + eps).floor();
    let high = |g: i32, v: f64| g as f64 == (v - eps).ceil() || g as f64 == (v + eps).ceil();
    let ok = all.iter().filter(|a| a.1 <= min * (1.0 + 1e-9)).any(|(c, _)| {
        (0..4).any(|s| {
            let c = |i: usize| c[(s + i) % 4];
            low(r[0].x, c(0).0) && low(r[0].y, c(0).1) && high(r[1].x, c(1).0) && low(r[1].y, c(1).1)
                && high(r[2].x, c(2).0) && high(r[2].y, c(2).1) && low(r[3].x, c(3).0) && high(r[3].y, c(3).1)
        })
    });
    check!(ok, "rectangle {r:?} of {pts:?} is not a least-area one ({min}), rounded outwards");
    check!(r[0].x <= r[1].x && r[3].x <= r[2].x && r[0].y <= r[3].y && r[1].y <= r[2].y, "the corners of {r:?} are not in the documented order");
    Ok(())
}

/// Distance of r from the line through p and q, or from p if they coincide.
fn line_dist(p: P, q: P, r: P) -> f64 {
    if p == q {
        dist(p, r)
    } else {
        cross(p, q, r).abs() as f64 / dist(p, q)
    }
}

fn simplify(ch: &mut Ch, pts: &[P], eps: f64, closed: bool) -> R {
    ch.op();
    let r = catching(|| approximate_polygon_dp(pts, eps, closed))?;
    ch.log(|| format!("{pts:?} epsilon {eps} closed {closed}: {r:?}"));
    let n = pts.len();
    if n == 0 {
        check!(r.is_empty(), "points from nothing");
        return Ok(());
    }
    check!(!r.is_empty() && r.len() <= n, "{} points from {n}: {r:?}", r.len());
    // is there a way to embed the result in the curve such that every dropped point is within
    // epsilon of the chord that replaces it?  reach[i]: the first k points can end at index i
    let tol = eps * (1.0 + 1e-9) + 1e-9;
    let cover = |i: usize, j: usize| (i + 1..j).all(|k| line_dist(pts[i], pts[j % n], pts[k % n]) <= tol);
    let mut reach: Vec<bool> = (0..n).map(|i| i == 0 && pts[0] == r[0]).collect();
    for k in 1..r.len() {
        reach = (0..n).map(|j| pts[j] == r[k] && (0..j).any(|i| reach[i] && cover(i, j))).collect();
    }
    let ok = if closed { (0..n).any(|i| reach[i] && cover(i, n)) } else { reach[n - 1] };
    if !closed && (2..9).contains(&n) {
        check!(dp(pts, &r, eps), "epsilon {eps}: {pts:?} is simplified to {r:?}, not by splitting at a farthest point");
    }
    check!(ok, "epsilon {eps} closed {closed}: {pts:?} is simplified to {r:?}, which is not a subsequence {}with every dropped point within epsilon", if closed { "" } else { "with both ends " });
    Ok(())
}

/// Whether `r` is a Douglas-Peucker simplification: split at a farthest point while it is farther than epsilon.
fn dp(pts: &[P], r: &[P], eps: f64) -> bool {
    let n = pts.len() - 1;
    let d: Vec<f64> = pts.iter().map(|&p| line_dist(pts[0], pts[n], p)).collect();
    let max = d[1..n.max(1)].iter().fold(0f64, |a, &b| a.max(b));
    let near = (max - eps).abs() <= 1e-9 * (1.0 + eps);
    if (max <= eps || near) && r.len() == 2 && r[0] == pts[0] && r[1] == pts[n] {
        return true;
    }
    if max <= eps && !near {
        return false;
    }
    (1..n).filter(|&k| d[k] >= max * (1.0 - 1e-9)).any(|k| {
        (1..r.len().saturating_sub(1)).filter(|&m| r[m] == pts[k]).any(|m| dp(&pts[..=k], &r[..=m], eps) && dp(&pts[k..], &r[m..], eps))
    })
}

fn grid(ch: &mut Ch, n: usize, w: usize, h: usize) -> Vec<P> {
    (0..n)
        .map(|_| {
            let k = ch.choose(w * h);
            Point::new((k % w) as i32 - 1, (k / w) as i32 - 1)
        })
        .collect()
}

fn lcg(n: usize, seed: u64, m: i32) -> Vec<P> {
    let mut s = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    let mut next = || {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((s >> 33) % m as u64) as i32
    };
    (0..n).map(|_| Point::new(next(), next())).collect()
}

fn main() {
    run("C16", |r| {
        r.section("grid", "all sequences of <=6 points on a 3x3 grid (thorough <=7), all of <=5 (thorough <=6) on a 5x3 grid: hull, areas, lengths, rectangle", |ch| {
            let pts = if ch.flag() {
                let n = ch.choose(if ch.thorough { 7 } else { 6 });
                grid(ch, n, 5, 3)
            } else {
                let n = ch.choose(if ch.thorough { 8 } else { 7 });
                grid(ch, n, 3, 3)
            };
            ch.log(|| format!("{pts:?}"));
            measures(ch, &pts)?;
            if pts.is_empty() {
                return Ok(());
            }
            rect(ch, &pts)
        });
        r.section("subsets", "all subsets of a 4x4 and a 6x3 grid (thorough 5x4 and 8x3), in two orders", |ch| {
            let (w, h) = if ch.thorough { ch.pick(&[(5, 4), (8, 3)]) } else { ch.pick(&[(4, 4), (6, 3)]) };
            let mut pts = vec![];
            for y in 0..h {
                for x in 0..w {
                    if ch.flag() {
                        pts.push(Point::new(x, y));
                    }
                }
            }
            if ch.flag() {
                pts.reverse();
            }
            ch.log(|| format!("{pts:?}"));
            if pts.is_empty() {
                return Ok(());
            }
            measures(ch, &pts)?;
            rect(ch, &pts)
        });
        r.section("triangles", "all triangles with one corner in the origin and the others within +-12 (thorough +-20): rectangle and hull", |ch| {
            let m = if ch.thorough { 20 } else { 12 };
            let mut c = || ch.int(-m, m) as i32;
            let pts = [Point::new(0, 0), Point::new(c(), c()), Point::new(c(), c())];
            measures(ch, &pts)?;
            rect(ch, &pts)
        });
        r.section("simplify", "all sequences of <=7 points (thorough 8) on a 3x2 grid, <=5 on a 3x3 grid, closed or not, 6 tolerances", |ch| {
            let pts = if ch.flag() {
                let n = ch.choose(6);
                grid(ch, n, 3, 3)
            } else {
                let n = ch.choose(if ch.thorough { 9 } else { 8 });
                grid(ch, n, 3, 2)
            };
            let closed = ch.flag();
            for eps in [1e-300, 0.3, 0.8, 1.0, 1.5, 10.0] {
                simplify(ch, &pts, eps, closed)?;
            }
            Ok(())
        });
        r.section("many-points", "point sets of 20 to 200 points from 2..60 distinct positions per axis, with repetition", |ch| {
            let n = ch.pick(&[20usize, 21, 33, 64, 200]);
            let m = ch.pick(&[1, 2, 3, 7, 60]);
            let pts = lcg(n, ch.choose(if ch.thorough { 4000 } else { 400 }) as u64, m);
            measures(ch, &pts)?;
            rect(ch, &pts)?;
            let eps = ch.pick(&[0.5, 3.0]);
            simplify(ch, &pts, eps, false)?;
            simplify(ch, &pts, eps, true)
        });
        r.section("outlines", "pixel outlines of circles, rectangles and zigzags: simplification with 5 tolerances, closed and open", |ch| {
            let s = ch.int(1, 30) as i32;
            let kind = ch.choose(3);
            let mut pts = vec![];
            for i in 0..4 * s {
                let (a, b) = (i / s, i % s);
                let (x, y) = [(b, 0), (s, b), (s - b, s), (0, s - b)][a as usize];
                pts.push(match kind {
                    0 => Point::new(x, y),
                    1 => {
                        let t = i as f64 / (4.0 * s as f64) * 6.283;
                        Point::new((t.cos() * s as f64).round() as i32, (t.sin() * s as f64).round() as i32)
                    }
                    _ => Point::new(i, (i % 5) * s / 4),
                });
            }
            let closed = ch.flag();
            if ch.flag() {
                pts.push(pts[0]);
            }
            let eps = ch.pick(&[0.1, 0.71, 1.0, 2.0, 7.5]);
            simplify(ch, &pts, eps, closed)
        });
        r.section("extreme", "all triples and quadruples of points with coordinates near 0, 2^15, 2^16 and the limits of i32: hull, areas, lengths", |ch| {
            let c = [0, 1, -46341, 65536, i32::MAX, i32::MIN];
            let n = ch.u(3, if ch.thorough { 5 } else { 4 }) as usize;
            let pts: Vec<P> = (0..n).map(|_| Point::new(ch.pick(&c), ch.pick(&c))).collect();
            ch.log(|| format!("{pts:?}"));
            measures(ch, &pts)
        });
        r.section("types", "unsigned, 8-bit, 64-bit and floating coordinates agree with i32", |ch| {
            let pts: Vec<P> = grid(ch, 4, 3, 3).iter().map(|p| Point::new(p.x + 2, p.y + 2)).collect();
            ch.ops(8);
            macro_rules! t {
                ($t:ty) => {{
                    let q: Vec<Point<$t>> = pts.iter().map(|p| Point::new(p.x as $t, p.y as $t)).collect();
                    check!(arc_length(&q, true) == arc_length(&pts, true), "arc_length of {}", stringify!($t));
                    check!(oriented_contour_area(&q) == oriented_contour_area(&pts), "area of {}", stringify!($t));
                    let a = approximate_polygon_dp(&q, 0.8, true);
                    let b = approximate_polygon_dp(&pts, 0.8, true);
                    check!(a.iter().map(|p| (p.x as i32, p.y as i32)).eq(b.iter().map(|p| (p.x, p.y))), "simplification of {}", stringify!($t));
                }};
            }
            t!(u32);
            t!(u8);
            t!(i64);
            t!(f32);
            t!(f64);
            let q: Vec<Point<u8>> = pts.iter().map(|p| Point::new(p.x as u8, p.y as u8)).collect();
            let (a, b) = (convex_hull(q), convex_hull(pts.clone()));
            check!(a.iter().map(|p| (p.x as i32, p.y as i32)).eq(b.iter().map(|p| (p.x, p.y))), "hull of u8 points");
            Ok(())
        });
        r.section("wide-types", "all triples and quadruples of points near the limits of u8, u16, u32 and beyond those of i32 for i64: hull, rectangle, area and length agree with the same points moved next to the origin", |ch| {
            // points of a small grid, moved to a far origin of every type
            let n = ch.u(3, 4) as usize;
            let pts: Vec<P> = (0..n).map(|_| Point::new(ch.u(0, 3) as i32, ch.u(0, 3) as i32)).collect();
            ch.log(|| format!("{pts:?}"));
            let hull = convex_hull(pts.clone());
            let area = oriented_contour_area(&pts);
            let length = arc_length(&pts, true);
            let rect = min_area_rect(&pts);
            let mut unrepresentable = false;
            macro_rules! t {
                ($t:ty, $o:expr) => {{
                    let o: i64 = $o;
                    let name = format!("{} at {o}", stringify!($t));
                    ch.ops(4);
                    let q: Vec<Point<$t>> = pts.iter().map(|p| Point::new((p.x as i64 + o) as $t, (p.y as i64 + o) as $t)).collect();
                    let back = |p: &Point<$t>| Point::new((p.x as i64 - o) as i32, (p.y as i64 - o) as i32);
                    let h: Vec<P> = convex_hull(q.clone()).iter().map(back).collect();
                    check!(h == hull, "hull of {name}: {h:?}, expected {hull:?} (less {o})");
                    check!((arc_length(&q, true) - length).abs() < 1e-6, "arc_length of {name}");
                    // the products of coordinates near 2^40 are exact up to 2^27
                    if o.abs() < 1 << 20 {
                        check!((oriented_contour_area(&q) - area).abs() < 1e-3, "area of {name}");
                    }
                    // the true rectangle of the moved points
                    let fits = rect.iter().all(|p| {
                        let (x, y) = (p.x as i64 + o, p.y as i64 + o);
                        <$t>::try_from(x).is_ok() && <$t>::try_from(y).is_ok()
                    });
                    match catching(|| min_area_rect(&q)) {
                        Ok(r) => {
                            // another rectangle of equal area may be chosen and corners rounded one further
                            // where the rotated coordinates are inexact
                            let m: Vec<P> = r.iter().map(|p| Point::new((p.x as i64 - o) as i32, (p.y as i64 - o) as i32)).collect();
                            let (got, want) = (contour_area(&m), contour_area(&rect));
                            check!((got - want).abs() <= 2.0 * arc_length(&rect, true) + 8.0, "rectangle of {name}: {m:?} + {o}, expected about {rect:?} + {o}");
                            let (mut x, mut y) = ((i64::MAX, i64::MIN), (i64::MAX, i64::MIN));
                            for p in &r {
                                x = (x.0.min(p.x as i64), x.1.max(p.x as i64));
                                y = (y.0.min(p.y as i64), y.1.max(p.y as i64));
                            }
                            for p in &q {
                                let (a, b) = (p.x as i64, p.y as i64);
                                check!(a >= x.0 && a <= x.1 && b >= y.0 && b <= y.1, "rectangle {r:?} of {name} does not contain {p:?}");
                            }
                        }
                        Err(e) => {
                            let edge = rect.iter().any(|p| [p.x, p.y].iter().any(|&v| <$t>::try_from(v as i64 + o - 1).is_err() || <$t>::try_from(v as i64 + o + 1).is_err()));
                            check!(!fits || (edge && o != 0), "min_area_rect of {name} panics: {e}");
                            unrepresentable = true;
                        }
                    }
                }};
            }
            t!(u8, 0);
            t!(u8, 252);
            t!(i8, -128);
            t!(u16, 65532);
            t!(u32, 0);
            t!(u32, u32::MAX as i64 - 3);
            t!(i32, i32::MAX as i64 - 3);
            t!(i32, i32::MIN as i64);
            t!(u64, 1 << 40);
            t!(i64, -(1 << 40));
            if unrepresentable {
                known!("unrepresentable-corner", "min_area_rect panics where a corner of the rectangle is outside the range of the coordinates' type");
            }
            Ok(())
        });
        r.section("epsilon", "non-positive tolerances are refused, real-valued curves terminate", |ch| {
            let e = ch.pick(&[0.0, -1.0, f64::NEG_INFINITY]);
            let pts = [Point::new(0, 0), Point::new(1, 5), Point::new(2, 0)];
            check!(catching(|| approximate_polygon_dp(&pts, e, false)).is_err(), "epsilon {e} is accepted");
            let k = ch.choose(200);
            let f = |i: usize| Point::new((i as f64 * 0.137 + k as f64).sin() * 13.7, (i as f64 * 0.71).cos() * 3.3 + k as f64 * 0.1);
            let c: Vec<Point<f64>> = (0..12).map(f).collect();
            ch.ops(2);
            for closed in [false, true] {
                let r = approximate_polygon_dp(&c, 1e-300, closed);
                check!(r == c, "points of a curve in general position are dropped with tolerance 1e-300 (closed {closed})");
            }
            Ok(())
        });
        r.section("long-curves", "zigzags of falling height, staircases, spirals and circles of 300, 4095..4097, 9000 and 40000 points: hull, area, length, and simplification (up to 9000 points) by a thread with a small stack", |ch| {
            let kind = ch.choose(4);
            let n = ch.pick(&[300i32, 4095, 4096, 4097, 9000, 40000]);
            let pts: Vec<P> = (0..n)
                .map(|i| match kind {
                    0 => Point::new(i, if i % 2 == 0 { n - i } else { i - n }),
                    1 => Point::new((i + 1) / 2 + (i % 97) / 50, i / 2),
                    2 => {
                        let (r, t) = (50.0 + i as f64, i as f64 * 0.01);
                        Point::new((r * t.cos()).round() as i32, (r * t.sin()).round() as i32)
                    }
                    _ => {
                        let t = i as f64 / n as f64 * 2.0 * std::f64::consts::PI;
                        Point::new((10.0 * n as f64 * t.cos()).round() as i32 + 7, (10.0 * n as f64 * t.sin()).round() as i32 - 11)
                    }
                })
                .collect();
            ch.log(|| format!("kind {kind}, {n} points"));
            if let Err(f) = measures(ch, &pts) {
                fail!("kind {kind}, {n} points: {}", f.msg.chars().take(200).collect::<String>());
            }
            if n > 9000 {
                return Ok(());
            }
            for eps in [0.4, 1.5, 25.0, 700.0] {
                for closed in [false, true] {
                    let p = pts.clone();
                    ch.op();
                    let t = std::thread::Builder::new().stack_size(256 << 10).spawn(move || approximate_polygon_dp(&p, eps, closed)).unwrap();
                    let Ok(r) = t.join() else { fail!("approximate_polygon_dp panicked: kind {kind}, {n} points, epsilon {eps}") };
                    // the points are distinct or nearly so: match greedily, each dropped point near the chord over it
                    let mut at = 0;
                    let mut kept = vec![];
                    for q in &r {
                        while at < pts.len() && pts[at] != *q {
                            at += 1;
                        }
                        check!(at < pts.len(), "kind {kind}, {n} points, epsilon {eps}: not a subsequence");
                        kept.push(at);
                        at += 1;
                    }
                    check!(kept[0] == 0 && (closed || kept[kept.len() - 1] == pts.len() - 1), "kind {kind}, {n} points, epsilon {eps}: an end is missing");
                    if closed {
                        kept.push(pts.len());
                    }
                    for w in kept.windows(2) {
                        for k in w[0] + 1..w[1] {
                            let d = line_dist(pts[w[0]], pts[w[1] % pts.len()], pts[k]);
                            check!(d <= eps * (1.0 + 1e-9) + 1e-9, "kind {kind}, {n} points, epsilon {eps}: dropped point {k} is {d} from the chord over it");
                        }
                    }
                    ch.observe(r.len() as u64);
                }
            }
            Ok(())
        });
        r.section("epsilon-ladder", "simplification of circles, rectangles, zigzags and noisy lines with tolerances at every quarter up to 40 and at powers of two from 2^-20 to 2^20, closed and open", |ch| {
            let mut l: Vec<f64> = (1..=160).map(|i| i as f64 * 0.25).collect();
            l.extend((-20..=20).map(|e| 2f64.powi(e)));
            let eps = ch.pick(&l);
            let closed = ch.flag();
            let pts: Vec<P> = match ch.choose(5) {
                0 => (0..40).map(|i| { let a = i as f64 * 0.157; ((a.cos() * 30.0).round() as i32, (a.sin() * 30.0).round() as i32) }).map(|(x, y)| P::new(x as _, y as _)).collect(),
                1 => (0..30).map(|i| P::new(i, if i % 2 == 0 { i } else { -i })).collect(),
                2 => (0..50).map(|i| P::new(i, i * i % 7)).collect(),
                3 => [(0, 0), (10, 0), (20, 0), (20, 7), (20, 15), (9, 15), (0, 15), (0, 4)].map(|(x, y)| P::new(x, y)).to_vec(),
                _ => (0..33).map(|i| P::new(i, (i - 16) * (i - 16) / 8)).collect(),
            };
            simplify(ch, &pts, eps, closed)
        });
    });
}
