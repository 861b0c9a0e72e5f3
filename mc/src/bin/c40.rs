//! C40: rectangles and points.
use imageproc::point::Point;
use imageproc::rect::{Rect, Region};
use mc::*;

#[derive(Clone, Copy, Debug)]
struct M {
    l: i64,
    t: i64,
    w: i64,
    h: i64,
}
impl M {
    fn rect(&self) -> Rect {
        Rect::at(self.l as i32, self.t as i32).of_size(self.w as u32, self.h as u32)
    }
    fn has(&self, x: i64, y: i64) -> bool {
        x >= self.l && x < self.l + self.w && y >= self.t && y < self.t + self.h
    }
}

fn attrs(m: M) -> R {
    let r = m.rect();
    check!(r.left() as i64 == m.l && r.top() as i64 == m.t, "corner of {m:?}");
    check!(r.width() as i64 == m.w && r.height() as i64 == m.h, "size of {m:?}");
    check!(r.right() as i64 == m.l + m.w - 1, "right of {m:?} is {}", r.right());
    check!(r.bottom() as i64 == m.t + m.h - 1, "bottom of {m:?} is {}", r.bottom());
    Ok(())
}

fn inter(a: M, b: M) -> Option<M> {
    let l = a.l.max(b.l);
    let t = a.t.max(b.t);
    let r = (a.l + a.w).min(b.l + b.w);
    let d = (a.t + a.h).min(b.t + b.h);
    (l < r && t < d).then_some(M { l, t, w: r - l, h: d - t })
}

fn pair(ch: &mut Ch, a: M, b: M) -> R {
    ch.ops(3);
    let got = a.rect().intersect(b.rect());
    let want = inter(a, b).map(|m| m.rect());
    check!(got == want, "{a:?} ∩ {b:?} = {got:?}, expected {want:?}");
    check!(b.rect().intersect(a.rect()) == got, "{a:?} ∩ {b:?} is not commutative");
    check!(a.rect().intersect(a.rect()) == Some(a.rect()), "{a:?} ∩ itself");
    Ok(())
}

fn main() {
    run("C40", |r| {
        r.section("small", "all pairs of rectangles with corners in -3..3 and sizes 1..5 (thorough: -4..4, 1..6), every point around them", |ch| {
            let (c, s) = if ch.thorough { (4, 6) } else { (3, 5) };
            let a = M { l: ch.int(-c, c), t: ch.int(-c, c), w: ch.int(1, s), h: ch.int(1, s) };
            let b = M { l: ch.int(-c, c), t: ch.int(-c, c), w: ch.int(1, s), h: ch.int(1, s) };
            ch.observe((((a.l * 9 + a.t) * 9 + a.w) * 9 + a.h) as u64);
            attrs(a)?;
            pair(ch, a, b)?;
            let i = a.rect().intersect(b.rect());
            for x in -4..9 {
                for y in -4..9 {
                    let (x, y) = (x as i32, y as i32);
                    let (ina, inb) = (a.has(x as i64, y as i64), b.has(x as i64, y as i64));
                    check!(Region::<i32>::contains(&a.rect(), x, y) == ina, "{a:?} contains ({x},{y})");
                    if let Some(i) = i {
                        check!(Region::<i32>::contains(&i, x, y) == (ina && inb), "{a:?} ∩ {b:?} contains ({x},{y})");
                    } else {
                        check!(!(ina && inb), "{a:?} ∩ {b:?} is empty but both contain ({x},{y})");
                    }
                }
            }
            Ok(())
        });
        r.section("real-points", "all rectangles with corners in -2..2, sizes 1..3, all points on a quarter grid around", |ch| {
            let m = M { l: ch.int(-2, 2), t: ch.int(-2, 2), w: ch.int(1, 3), h: ch.int(1, 3) };
            let rc = m.rect();
            for i in -16..24 {
                for j in -16..24 {
                    let (x, y) = (i as f32 / 4.0, j as f32 / 4.0);
                    let e = x >= m.l as f32 && x <= (m.l + m.w - 1) as f32 && y >= m.t as f32 && y <= (m.t + m.h - 1) as f32;
                    check!(Region::<f32>::contains(&rc, x, y) == e, "{m:?} contains ({x},{y}) is {}", !e);
                    ch.op();
                }
            }
            for v in [f32::NAN, f32::INFINITY, f32::NEG_INFINITY] {
                check!(!Region::<f32>::contains(&rc, v, m.t as f32) && !Region::<f32>::contains(&rc, m.l as f32, v), "contains {v}");
            }
            Ok(())
        });
        r.section("extreme", "intervals with ends at and next to the limits of i32 on either axis, all pairs", |ch| {
            let (min, max) = (i32::MIN as i64, i32::MAX as i64);
            let ends = [min, min + 1, -2, 0, 1, max - 1, max];
            let mut iv = vec![];
            for &a in &ends {
                for &b in &ends {
                    if a <= b && b - a + 1 <= u32::MAX as i64 {
                        iv.push((a, b - a + 1));
                    }
                }
            }
            let p = ch.pick(&iv);
            let q = ch.pick(&iv);
            let swap = ch.flag();
            let mk = |p: (i64, i64)| {
                if swap {
                    M { l: 3, t: p.0, w: 2, h: p.1 }
                } else {
                    M { l: p.0, t: 3, w: p.1, h: 2 }
                }
            };
            let (a, b) = (mk(p), mk(q));
            ch.log(|| format!("{a:?} {b:?}"));
            catching(|| attrs(a))??;
            for &e in &ends {
                let (x, y) = if swap { (3, e) } else { (e, 3) };
                let got = catching(|| Region::<i32>::contains(&a.rect(), x as i32, y as i32))?;
                check!(got == a.has(x, y), "{a:?} contains ({x},{y}) is {got}");
            }
            pair(ch, a, b)
        });
        r.section("empty-size", "zero width or height is refused", |ch| {
            let (w, h) = ch.pick(&[(0u32, 0u32), (0, 1), (1, 0), (0, u32::MAX)]);
            check!(catching(|| Rect::at(1, 2).of_size(w, h)).is_err(), "a {w}x{h} rectangle is accepted");
            Ok(())
        });
        r.section("points", "point addition and subtraction for all coordinate pairs in -3..3", |ch| {
            let p = Point::new(ch.int(-3, 3) as i32, ch.int(-3, 3) as i32);
            let q = Point::new(ch.int(-3, 3) as i32, ch.int(-3, 3) as i32);
            ch.ops(4);
            check!(p + q == Point::new(p.x + q.x, p.y + q.y), "{p:?}+{q:?}");
            check!(p - q == Point::new(p.x - q.x, p.y - q.y), "{p:?}-{q:?}");
            let mut a = p;
            a += q;
            check!(a == p + q, "{p:?}+={q:?}");
            a -= q;
            check!(a == p, "{p:?}+={q:?} -= same");
            Ok(())
        });
    });
}
