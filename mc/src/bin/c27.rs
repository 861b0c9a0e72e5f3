//! C27: shape rasterisation.
use image::*;
use imageproc::drawing::*;
use imageproc::point::Point;
use imageproc::rect::Rect;
use mc::*;

const FG: Luma<u8> = Luma([255]);

/// Painted pixels of an otherwise black canvas as a closure-friendly grid.
struct Grid {
    img: GrayImage,
    ox: i32,
    oy: i32,
}
impl Grid {
    fn at(&self, x: i32, y: i32) -> bool {
        let (x, y) = (x + self.ox, y + self.oy);
        x >= 0
            && y >= 0
            && x < self.img.width() as i32
            && y < self.img.height() as i32
            && self.img.get_pixel(x as u32, y as u32)[0] == 255
    }
}

/// Draws on a canvas covering -hw..=hw x -hh..=hh.
fn paint(hw: i32, hh: i32, f: impl FnOnce(&mut GrayImage, i32, i32)) -> Result<Grid, Fail> {
    let mut img = GrayImage::new(2 * hw as u32 + 1, 2 * hh as u32 + 1);
    f(&mut img, hw, hh);
    if img.iter().any(|&p| p != 0 && p != 255) {
        fail!("a pixel has neither the colour drawn nor the background");
    }
    Ok(Grid { img, ox: hw, oy: hh })
}

fn ellipse(ch: &mut Ch, a: i32, b: i32, circle: bool) -> R {
    ch.ops(2);
    let (hw, hh) = (a + 2, b + 2);
    let what = if circle { format!("circle of radius {a}") } else { format!("ellipse of radii {a}, {b}") };
    let hollow = paint(hw, hh, |i, x, y| {
        if circle {
            draw_hollow_circle_mut(i, (x, y), a, FG)
        } else {
            draw_hollow_ellipse_mut(i, (x, y), a, b, FG)
        }
    })?;
    let filled = paint(hw, hh, |i, x, y| {
        if circle {
            draw_filled_circle_mut(i, (x, y), a, FG)
        } else {
            draw_filled_ellipse_mut(i, (x, y), a, b, FG)
        }
    })?;
    let (fa, fb) = (a as f64, b as f64);
    // points of the ideal curve
    let n = 8 * (a + b + 1);
    let curve: Vec<(f64, f64)> = (0..n)
        .map(|i| {
            let t = i as f64 / n as f64 * 2.0 * std::f64::consts::PI;
            (fa * t.cos(), fb * t.sin())
        })
        .collect();
    let d2 = |x: i32, y: i32, p: &(f64, f64)| (x as f64 - p.0).hypot(y as f64 - p.1);
    let mut count = 0;
    for y in -hh..=hh {
        let row: Vec<i32> = (-hw..=hw).filter(|&x| hollow.at(x, y)).collect();
        for &x in &row {
            count += 1;
            check!(
                hollow.at(-x, y) && hollow.at(x, -y),
                "{what}: outline pixel ({x},{y}) has no mirror image"
            );
            if x >= 0 && y >= 0 {
                let near = curve.iter().map(|p| d2(x, y, p)).fold(f64::MAX, f64::min);
                check!(near <= 1.0 + 0.1, "{what}: outline pixel ({x},{y}) is {near} from the curve");
            }
        }
        // filled rows span the outline
        let span = row.iter().max().copied();
        for x in -hw..=hw {
            let e = span.map_or(false, |s| x.abs() <= s);
            check!(
                filled.at(x, y) == e,
                "{what}: filled pixel ({x},{y}) is {}, the outline of the row reaches {span:?}",
                filled.at(x, y)
            );
            let inside = if a == 0 || b == 0 {
                x.abs() <= a && y.abs() <= b
            } else {
                (x as i64 * b as i64).pow(2) + (y as i64 * a as i64).pow(2) <= (a as i64 * b as i64).pow(2)
            };
            check!(!inside || filled.at(x, y), "{what}: ({x},{y}) is inside and not filled");
        }
    }
    for (px, py) in &curve {
        let near = (-1..=1).any(|dx| {
            (-1..=1).any(|dy| {
                let (x, y) = (px.round() as i32 + dx, py.round() as i32 + dy);
                hollow.at(x, y) && d2(x, y, &(*px, *py)) <= 1.15
            })
        });
        check!(near, "{what}: no outline pixel within 1.15 of ({px:.2},{py:.2})");
    }
    ch.observe(count);
    Ok(())
}

fn seg_dist(p: (f64, f64), a: (f64, f64), b: (f64, f64)) -> f64 {
    let (dx, dy) = (b.0 - a.0, b.1 - a.1);
    let l = dx * dx + dy * dy;
    let t = if l == 0.0 { 0.0 } else { (((p.0 - a.0) * dx + (p.1 - a.1) * dy) / l).clamp(0.0, 1.0) };
    (p.0 - a.0 - t * dx).hypot(p.1 - a.1 - t * dy)
}

fn line_pixels(a: (i32, i32), b: (i32, i32)) -> Vec<(i32, i32)> {
    BresenhamLineIter::new((a.0 as f32, a.1 as f32), (b.0 as f32, b.1 as f32)).collect()
}

fn polygon(ch: &mut Ch, pts: &[(i32, i32)], w: i32, h: i32) -> R {
    ch.op();
    let poly: Vec<Point<i32>> = pts.iter().map(|p| Point::new(p.0, p.1)).collect();
    let img = draw_polygon(&GrayImage::new(w as u32, h as u32), &poly, FG);
    let mut edges: Vec<((i32, i32), (i32, i32))> = pts.windows(2).map(|e| (e[0], e[1])).collect();
    if pts[0] != pts[pts.len() - 1] {
        edges.push((pts[pts.len() - 1], pts[0]));
    }
    let mut outline = vec![false; (w * h) as usize];
    for (a, b) in &edges {
        for (x, y) in line_pixels(*a, *b) {
            if x >= 0 && y >= 0 && x < w && y < h {
                outline[(y * w + x) as usize] = true;
            }
        }
    }
    let mut n = 0;
    for y in 0..h {
        for x in 0..w {
            let p = img.get_pixel(x as u32, y as u32)[0];
            check!(p == 0 || p == 255, "polygon {pts:?}: value {p}");
            let painted = p == 255;
            n += painted as u64;
            // even-odd rule on the ray to the right, exact
            let mut inside = false;
            let mut on = false;
            for (a, b) in &edges {
                let (ax, ay, bx, by) = (a.0 as i64, a.1 as i64, b.0 as i64, b.1 as i64);
                let (px, py) = (x as i64, y as i64);
                let cross = (bx - ax) * (py - ay) - (by - ay) * (px - ax);
                if cross == 0 && px >= ax.min(bx) && px <= ax.max(bx) && py >= ay.min(by) && py <= ay.max(by) {
                    on = true;
                }
                if (ay > py) != (by > py) {
                    // px < ax + (py - ay) (bx - ax) / (by - ay)
                    let l = (px - ax) * (by - ay);
                    let r = (py - ay) * (bx - ax);
                    if if by > ay { l < r } else { l > r } {
                        inside = !inside;
                    }
                }
            }
            let need = outline[(y * w + x) as usize] || (inside && !on);
            check!(!need || painted, "polygon {pts:?} on {w}x{h}: ({x},{y}) is {} and not painted", if inside { "inside" } else { "on the outline" });
            if painted && !need && !inside {
                let d = edges
                    .iter()
                    .map(|(a, b)| seg_dist((x as f64, y as f64), (a.0 as f64, a.1 as f64), (b.0 as f64, b.1 as f64)))
                    .fold(f64::MAX, f64::min);
                check!(d <= 1.0, "polygon {pts:?} on {w}x{h}: ({x},{y}) is painted, {d} outside");
            }
        }
    }
    ch.observe(n);
    // the outline alone
    if pts.len() >= 2 {
        let fp: Vec<Point<f32>> = pts.iter().map(|p| Point::new(p.0 as f32, p.1 as f32)).collect();
        let mut bg = GrayImage::new(w as u32, h as u32);
        let hollow = draw_hollow_polygon(&mut bg, &fp, FG);
        for y in 0..h {
            for x in 0..w {
                let g = hollow.get_pixel(x as u32, y as u32)[0] == 255;
                check!(g == outline[(y * w + x) as usize], "hollow polygon {pts:?}: ({x},{y}) painted: {g}");
            }
        }
    }
    Ok(())
}

fn bezier(ch: &mut Ch, c: [(f32, f32); 4]) -> R {
    bezier_on(ch, c, 60, 400)
}
fn bezier_on(ch: &mut Ch, c: [(f32, f32); 4], half: i32, samples: i32) -> R {
    ch.op();
    let what = format!("curve from {:?} over {:?} and {:?} to {:?}", c[0], c[1], c[2], c[3]);
    let (hw, hh) = (half, half);
    let s = |p: (f32, f32)| (p.0 + hw as f32, p.1 + hh as f32);
    let g = paint(hw, hh, |i, _, _| draw_cubic_bezier_curve_mut(i, s(c[0]), s(c[3]), s(c[1]), s(c[2]), FG))?;
    let at = |t: f64| {
        let m = 1.0 - t;
        let k = [m * m * m, 3.0 * m * m * t, 3.0 * m * t * t, t * t * t];
        (
            (0..4).map(|i| k[i] * c[i].0 as f64).sum::<f64>(),
            (0..4).map(|i| k[i] * c[i].1 as f64).sum::<f64>(),
        )
    };
    for p in [c[0], c[3]] {
        check!(g.at(p.0.round() as i32, p.1.round() as i32), "{what}: end point {p:?} is not painted");
    }
    let curve: Vec<(f64, f64)> = (0..=samples).map(|i| at(i as f64 / samples as f64)).collect();
    let mut todo = vec![(c[0].0.round() as i32, c[0].1.round() as i32)];
    let mut seen = std::collections::HashSet::new();
    seen.insert(todo[0]);
    while let Some((x, y)) = todo.pop() {
        for dx in -1..=1 {
            for dy in -1..=1 {
                let q = (x + dx, y + dy);
                if g.at(q.0, q.1) && seen.insert(q) {
                    todo.push(q);
                }
            }
        }
    }
    let n = g.img.iter().filter(|&&p| p == 255).count();
    check!(seen.len() == n, "{what}: {n} pixels painted, {} connected to the start", seen.len());
    for (x, y) in &seen {
        let d = curve.iter().map(|p| (p.0 - *x as f64).hypot(p.1 - *y as f64)).fold(f64::MAX, f64::min);
        check!(d <= 2.0, "{what}: ({x},{y}) is {d} from the curve");
    }
    for p in &curve {
        let near = (-2..=2).any(|dx| (-2..=2).any(|dy| {
            let (x, y) = (p.0.round() as i32 + dx, p.1.round() as i32 + dy);
            g.at(x, y) && (x as f64 - p.0).hypot(y as f64 - p.1) <= 2.0
        }));
        check!(near, "{what}: nothing painted within 2 of {p:?}");
    }
    ch.observe(n as u64);
    Ok(())
}

/// The same for radii too large to compare every pixel with every point of the curve.
fn large_ellipse(ch: &mut Ch, a: i32, b: i32) -> R {
    ch.ops(2);
    let (hw, hh) = (a + 2, b + 2);
    let what = format!("ellipse of radii {a}, {b}");
    let hollow = paint(hw, hh, |i, x, y| draw_hollow_ellipse_mut(i, (x, y), a, b, FG))?;
    // (a x b)^2 pixels are painted when filling, mostly repeatedly
    let fill = a <= 5000 || ch.thorough && a <= 30000;
    let filled = if fill {
        paint(hw, hh, |i, x, y| draw_filled_ellipse_mut(i, (x, y), a, b, FG))?
    } else {
        paint(0, 0, |_, _, _| ())?
    };
    let inside = |x: i32, y: i32| {
        let (x, y) = (x as i64, y as i64);
        let (a, b) = (a as i64, b as i64);
        x.abs() <= a && y.abs() <= b && x * x * b * b + y * y * a * a <= a * a * b * b
    };
    let mut count = 0;
    for y in -hh..=hh {
        let mut span = None;
        for x in -hw..=hw {
            if !hollow.at(x, y) {
                continue;
            }
            count += 1;
            span = span.max(Some(x));
            check!(
                hollow.at(-x, y) && hollow.at(x, -y),
                "{what}: outline pixel ({x},{y}) has no mirror image"
            );
            let (ax, ay) = (x.abs(), y.abs());
            check!(
                inside((ax - 1).max(0), (ay - 1).max(0)) && !inside(ax + 1, ay + 1),
                "{what}: outline pixel ({x},{y}) is more than a pixel from the curve"
            );
        }
        for x in -hw..=hw {
            if !fill {
                break;
            }
            let e = span.map_or(false, |s| x.abs() <= s);
            check!(
                filled.at(x, y) == e,
                "{what}: filled pixel ({x},{y}) is {}, the outline of the row reaches {span:?}",
                filled.at(x, y)
            );
            check!(
                !inside(x, y) || filled.at(x, y),
                "{what}: ({x},{y}) is inside and not filled"
            );
        }
    }
    let n = 8 * (a + b + 1);
    for i in 0..n {
        let t = i as f64 / n as f64 * 2.0 * std::f64::consts::PI;
        let (px, py) = (a as f64 * t.cos(), b as f64 * t.sin());
        let near = (-1..=1).any(|dx| {
            (-1..=1).any(|dy| {
                let (x, y) = (px.round() as i32 + dx, py.round() as i32 + dy);
                hollow.at(x, y) && (x as f64 - px).hypot(y as f64 - py) <= 1.15
            })
        });
        check!(near, "{what}: no outline pixel within 1.15 of ({px:.2},{py:.2})");
    }
    ch.observe(count);
    Ok(())
}

fn main() {
    run("C27", |r| {
        r.section("circles", "radii 0..400 (thorough 1000)", |ch| {
            let r = ch.u(0, if ch.thorough { 1000 } else { 400 }) as i32;
            ellipse(ch, r, r, true)?;
            ellipse(ch, r, r, false)
        });
        r.section("ellipses", "all pairs of radii 0..60 (thorough 0..120)", |ch| {
            let n = if ch.thorough { 120 } else { 60 };
            let (a, b) = (ch.u(0, n) as i32, ch.u(0, n) as i32);
            ellipse(ch, a, b, false)
        });
        r.section("flat-ellipses", "radii 0..3 against 25..400", |ch| {
            let a = ch.u(0, 3) as i32;
            let b = ch.pick(&[25, 26, 31, 40, 64, 100, 199, 300, 400]);
            if ch.flag() {
                ellipse(ch, a, b, false)
            } else {
                ellipse(ch, b, a, false)
            }
        });
        r.section("ellipses-large", "radii 0..3, 8, 21, 60 (over 8: up to 4096, thorough all) against 1000, 4096, 30000, 46341, 50000, 70000 (wider than 5000, thorough 30000: the outline only), and 300 x 500, 500 x 300", |ch| {
            let (a, b) = if ch.flag() {
                ch.pick(&[(300, 500), (500, 300), (499, 500), (500, 499)])
            } else {
                let a = ch.pick(&[0, 1, 2, 3, 8, 21, 60]);
                let b = ch.pick(&[1000, 4096, 30000, 46341, 50000, 70000]);
                if a > 10 && b > 5000 && !ch.thorough {
                    return ch.reject();
                }
                if ch.flag() {
                    (a, b)
                } else {
                    (b, a)
                }
            };
            large_ellipse(ch, a, b)
        });
        r.section("negative-radii", "radii -3..-1 paint nothing off the centre's surroundings and do not panic", |ch| {
            let (a, b) = (ch.int(-3, 3) as i32, ch.int(-3, 3) as i32);
            if a >= 0 && b >= 0 {
                return ch.reject();
            }
            ch.op();
            for k in 0..4 {
                let g = paint(12, 12, |i, x, y| match k {
                    0 => draw_hollow_ellipse_mut(i, (x, y), a, b, FG),
                    1 => draw_filled_ellipse_mut(i, (x, y), a, b, FG),
                    2 => draw_hollow_circle_mut(i, (x, y), a.min(b), FG),
                    _ => draw_filled_circle_mut(i, (x, y), a.min(b), FG),
                })?;
                for y in -12i32..=12 {
                    for x in -12i32..=12 {
                        let far = x.abs() > a.abs() || y.abs() > b.abs();
                        check!(!g.at(x, y) || !far, "radii {a}, {b}: ({x},{y}) painted");
                    }
                }
            }
            Ok(())
        });
        r.section("rects", "all rectangles at -3..7 x -3..7 of sizes 1..9 x 1..9 on 6x5 (and 1x1, empty) canvases, filled and hollow", |ch| {
            let (w, h) = ch.pick(&[(6u32, 5u32), (1, 1), (0, 2), (2, 0), (0, 0)]);
            let (x, y) = (ch.int(-3, 7) as i32, ch.int(-3, 7) as i32);
            for (rw, rh) in (1..=9u32).flat_map(|a| (1..=9u32).map(move |b| (a, b))) {
                ch.ops(2);
                let rect = Rect::at(x, y).of_size(rw, rh);
                let bg = GrayImage::from_pixel(w, h, Luma([7]));
                let filled = draw_filled_rect(&bg, rect, FG);
                let hollow = draw_hollow_rect(&bg, rect, FG);
                for (px, py, p) in filled.enumerate_pixels() {
                    let (dx, dy) = (px as i32 - x, py as i32 - y);
                    let inside = dx >= 0 && dy >= 0 && dx < rw as i32 && dy < rh as i32;
                    let border = inside && (dx == 0 || dy == 0 || dx == rw as i32 - 1 || dy == rh as i32 - 1);
                    check!(p[0] == if inside { 255 } else { 7 }, "filled {rect:?} on {w}x{h}: ({px},{py}) = {}", p[0]);
                    let q = hollow.get_pixel(px, py)[0];
                    check!(q == if border { 255 } else { 7 }, "hollow {rect:?} on {w}x{h}: ({px},{py}) = {q}");
                }
                ch.observe(filled.iter().filter(|&&p| p == 255).count() as u64);
            }
            Ok(())
        });
        r.section("rects-extreme", "rectangles reaching the ends of the coordinate range", |ch| {
            let xs = [i32::MIN, -1000000, -1, 0, 3, i32::MAX - 5];
            let (x, y) = (ch.pick(&xs), ch.pick(&xs));
            let ss = [1u32, 6, 1000003, 0x7fff_ffff, 0x8000_0004, u32::MAX];
            let (rw, rh) = (ch.pick(&ss), ch.pick(&ss));
            ch.op();
            let rect = Rect::at(x, y).of_size(rw, rh);
            let g = draw_filled_rect(&GrayImage::new(6, 5), rect, FG);
            for (px, py, p) in g.enumerate_pixels() {
                let (dx, dy) = (px as i64 - x as i64, py as i64 - y as i64);
                let inside = dx >= 0 && dy >= 0 && dx < rw as i64 && dy < rh as i64;
                check!((p[0] == 255) == inside, "filled {rect:?}: ({px},{py}) = {}", p[0]);
            }
            Ok(())
        });
        r.section("crosses", "all centres -3..8 on shapes 0..5", |ch| {
            let (w, h) = (ch.u(0, 5), ch.u(0, 5));
            let (x, y) = (ch.int(-3, 8) as i32, ch.int(-3, 8) as i32);
            ch.op();
            let g = draw_cross(&GrayImage::from_pixel(w, h, Luma([9])), FG, x, y);
            for (px, py, p) in g.enumerate_pixels() {
                let d = (px as i32 - x).abs() + (py as i32 - y).abs();
                check!(p[0] == if d <= 1 { 255 } else { 9 }, "cross at ({x},{y}) on {w}x{h}: ({px},{py}) = {}", p[0]);
            }
            Ok(())
        });
        r.section("polygons", "all lists of 1..4 vertices of a 4x4 grid spaced 1, 2 and 3 (thorough 5 vertices, 5x5 grid)", |ch| {
            let n = ch.u(1, if ch.thorough { 5 } else { 4 }) as usize;
            let g = if ch.thorough && n <= 4 { 5 } else { 4 };
            let k = ch.pick(&[1i32, 2, 3]);
            let off = ch.pick(&[0i32, -3]);
            if n == 4 && !ch.thorough && (k, off) != (2, 0) && (k, off) != (3, -3) {
                return ch.reject();
            }
            if n == 5 && (k, off) != (3, 0) {
                return ch.reject();
            }
            let p = |ch: &mut Ch| (ch.int(0, g - 1) as i32 * k + off, ch.int(0, g - 1) as i32 * k + off);
            let mut pts: Vec<(i32, i32)> = (1..n).map(|_| p(ch)).collect();
            pts.push((0, 0));
            for i in 0..g * g {
                *pts.last_mut().unwrap() = ((i % g) as i32 * k + off, (i / g) as i32 * k + off);
                let s = (g - 1) as i32 * k + 2;
                if n == 1 {
                    // a lone vertex: at most itself
                    ch.op();
                    let img = draw_polygon(&GrayImage::new(10, 10), &[Point::new(pts[0].0, pts[0].1)], FG);
                    check!(
                        img.enumerate_pixels().all(|(x, y, p)| p[0] == 0 || (x as i32, y as i32) == pts[0]),
                        "single vertex {pts:?}"
                    );
                } else {
                    polygon(ch, &pts, s, s)?;
                }
            }
            Ok(())
        });
        r.section("polygon-large", "combs, zigzags, stars and staircases of up to 700 vertices on canvases 300x200 and 2000x12, partly off the canvas", |ch| {
            let (w, h) = ch.pick(&[(300i32, 200i32), (2000, 12), (12, 2000)]);
            let n = ch.pick(&[3i32, 17, 64, 130, 257, 700]);
            let k = ch.choose(4);
            let off = ch.pick(&[0i32, -40, 25]);
            let (a, b) = (w.max(h), w.min(h));
            let pts: Vec<(i32, i32)> = (0..n)
                .map(|i| {
                    let (u, v) = match k {
                        // zigzag along the long side
                        0 => (i * a / n, if i % 2 == 0 { 1 } else { b - 2 }),
                        // comb
                        1 => (i / 2 * 2 * a / n, if (i / 2 + i) % 2 == 0 { 0 } else { b - 1 }),
                        // staircase and back
                        2 => if i < n / 2 { ((i + 1) / 2 * 2 * a / n, i / 2 * 2 * b / n) } else { ((n - i) / 2 * 2 * a / n, b + 9) },
                        // star
                        _ => {
                            let t = (i * (n / 2)) as f64 / n as f64 * 2.0 * std::f64::consts::PI;
                            ((a as f64 / 2.0 + a as f64 * 0.6 * t.cos()).round() as i32, (b as f64 / 2.0 + b as f64 * 0.7 * t.sin()).round() as i32)
                        }
                    };
                    let (u, v) = (u + off, v + off / 5);
                    if w >= h { (u, v) } else { (v, u) }
                })
                .collect();
            if pts.windows(2).all(|e| e[0] == e[1]) {
                return ch.reject();
            }
            polygon(ch, &pts, w, h).map_err(|f| Fail::from(format!("{n} vertices, pattern {k}, offset {off} on {w}x{h}: {}", f.msg.chars().rev().take(150).collect::<String>().chars().rev().collect::<String>())))
        });
        r.section("polygon-stars", "star polygons {n/k} for n <= 11 at six radii and offsets partly off the canvas, spirals", |ch| {
            let n = ch.u(3, 11) as i32;
            let k = ch.u(1, 5) as i32;
            let rad = ch.pick(&[4.0f64, 7.5, 12.0, 20.0, 55.0, 300.0]);
            let (cx, cy) = ch.pick(&[(12.0f64, 10.0), (0.0, 0.0), (-9.0, 15.0), (30.0, 3.0)]);
            let spiral = ch.flag();
            let pts: Vec<(i32, i32)> = (0..n)
                .map(|i| {
                    let t = (i * k) as f64 / n as f64 * 2.0 * std::f64::consts::PI + 0.1;
                    let r = if spiral { rad * (i + 1) as f64 / n as f64 } else { rad };
                    ((cx + r * t.cos()).round() as i32, (cy + r * t.sin()).round() as i32)
                })
                .collect();
            polygon(ch, &pts, 24, 20)
        });
        r.section("beziers", "control points from 4 places each (fractional too) of a 40 pixel square", |ch| {
            let c0 = ch.pick(&[(0.0f32, 0.0f32), (-20.0, 12.0)]);
            let ps = [(0.0f32, 0.0f32), (20.0, 3.0), (-18.4, 19.25), (7.0, -20.0), (19.0, 20.0), (-20.0, -20.0), (1.0, 2.0)];
            let c = [c0, ch.pick(&ps), ch.pick(&ps), ch.pick(&ps)];
            bezier(ch, c)
        });
        r.section("beziers-large", "control points up to 1000 pixels apart", |ch| {
            let k = ch.pick(&[150.0f32, 500.0]);
            let ps = [(1.0f32, 0.0f32), (-0.9, 0.35), (0.1, -1.0), (0.95, 1.0), (-1.0, -1.0), (0.001, 0.002)];
            let p = |q: (f32, f32)| ((q.0 * k).round(), (q.1 * k).round());
            let c = [p(ch.pick(&ps[..3])), p(ch.pick(&ps)), p(ch.pick(&ps)), p(ch.pick(&ps[2..]))];
            bezier_on(ch, c, k as i32 + 10, k as i32 * 6)
        });
        r.section("beziers-small", "all control points of a 3x3 grid spaced 1 and 5", |ch| {
            let k = ch.pick(&[1.0f32, 5.0]);
            let p = |ch: &mut Ch| (ch.int(-1, 1) as f32 * k, ch.int(-1, 1) as f32 * k);
            let c = [p(ch), p(ch), p(ch), p(ch)];
            bezier(ch, c)
        });
        r.section("arcs-far", "outlines of circles of radius 401, 1000, 4096, 5000, 20000, 50000, 100000 (thorough 999983) and of ellipses of nearly those radii (up to 5000), and the same filled (up to 5000), seen through a 41x41 window centred at 720 (filled: 64) places of the curve: on the curve, without gaps, filled on the inner side", |ch| {
            let a = ch.pick(if ch.thorough { &[401, 1000, 4096, 5000, 20_000, 50_000, 100_000, 999_983] } else { &[401, 1000, 4096, 5000, 20_000, 50_000, 100_000][..] });
            let b = a - ch.choose(2) as i32 * 37;
            let filled = ch.flag();
            if (a != b && a > 5000) || (filled && a > 5000) {
                return ch.reject();
            }
            let n = if filled { 64 } else { 720 };
            let k = ch.choose(n);
            // the window on the curve; the centre of the figure is far off the canvas
            let t = k as f64 / n as f64 * 2.0 * std::f64::consts::PI;
            let (px, py) = ((a as f64 * t.cos()).round() as i32, (b as f64 * t.sin()).round() as i32);
            let c = (20 - px, 20 - py);
            let mut img = GrayImage::new(41, 41);
            match (a == b, filled) {
                (true, false) => draw_hollow_circle_mut(&mut img, c, a, FG),
                (true, true) => draw_filled_circle_mut(&mut img, c, a, FG),
                (false, false) => draw_hollow_ellipse_mut(&mut img, c, a, b, FG),
                (false, true) => draw_filled_ellipse_mut(&mut img, c, a, b, FG),
            }
            ch.ops(1);
            let on = |x: i32, y: i32| img.get_pixel(x as u32, y as u32)[0] == 255;
            let what = format!("radii {a}, {b}, centre {c:?}, filled: {filled}");
            let (fa, fb) = (a as f64, b as f64);
            // signed distance to the curve, to first order (the curve is nearly a circle)
            let dist = |x: i32, y: i32| {
                let (x, y) = ((x - c.0) as f64, (y - c.1) as f64);
                let g = (x / fa).powi(2) + (y / fb).powi(2) - 1.0;
                g / (2.0 * (x / fa / fa).hypot(y / fb / fb))
            };
            let mut count = 0;
            for y in 0..41 {
                for x in 0..41 {
                    let d = dist(x, y);
                    if filled {
                        check!(on(x, y) || d > -1.1, "{what}: ({x},{y}), {d} from the curve, is not filled");
                        check!(!on(x, y) || d < 1.1, "{what}: ({x},{y}), {d} from the curve, is filled");
                    } else if on(x, y) {
                        count += 1;
                        check!(d.abs() <= 1.1, "{what}: ({x},{y}), {d} from the curve, is painted");
                    } else if d.abs() < 0.5 {
                        // the curve passes here: painted here or next to here
                        let near = (-1..=1).any(|dy| (-1..=1).any(|dx| {
                            let (x, y) = (x + dx, y + dy);
                            x < 0 || y < 0 || x > 40 || y > 40 || on(x, y)
                        }));
                        check!(near, "{what}: nothing is painted around ({x},{y}), {d} from the curve");
                    }
                }
            }
            if !filled {
                // the curve crosses every column, or every row, of the window
                let steep = (py as f64 / fb / fb).abs() < (px as f64 / fa / fa).abs();
                for i in 0..41 {
                    let any = (0..41).any(|j| if steep { on(j, i) } else { on(i, j) });
                    let crosses = (0..41).any(|j| (if steep { dist(j, i) } else { dist(i, j) }).abs() < 0.3);
                    check!(any || !crosses, "{what}: {} {i} has a gap", if steep { "row" } else { "column" });
                }
            }
            ch.observe_bytes(img.as_raw());
            Ok(())
        });
        r.section("rect-ladder", "rectangles of every width (height) 1..=300 and around powers of two up to 2^31 by 1, 2, 3 and 7 on 320x9 and 9x320 canvases, starting inside, before and far before the canvas", |ch| {
            let l = ladder(300, 1 << 31);
            let i = 1 + ch.choose(l.len() - 1);
            let (a, b) = (l[i], ch.pick(&[1u32, 2, 3, 7]));
            let s = ch.pick(&[2i32, 0, -1, -150, 318, -40_000]);
            let turn = ch.flag();
            let (w, h, x, y, rw, rh) = if turn { (9, 320, 1, s, b, a) } else { (320, 9, s, 1, a, b) };
            ch.ops(2);
            let rect = Rect::at(x, y).of_size(rw, rh);
            let bg = GrayImage::from_pixel(w, h, Luma([7]));
            let filled = draw_filled_rect(&bg, rect, FG);
            // the outline of a rectangle ends at coordinates which are numbers
            let hollow = (s as i64 + a as i64 <= 1_000_000).then(|| draw_hollow_rect(&bg, rect, FG));
            for (px, py, p) in filled.enumerate_pixels() {
                let (dx, dy) = (px as i64 - x as i64, py as i64 - y as i64);
                let inside = dx >= 0 && dy >= 0 && dx < rw as i64 && dy < rh as i64;
                let border = inside && (dx == 0 || dy == 0 || dx == rw as i64 - 1 || dy == rh as i64 - 1);
                check!(p[0] == if inside { 255 } else { 7 }, "filled {rect:?} on {w}x{h}: ({px},{py}) = {}", p[0]);
                if let Some(g) = &hollow {
                    let q = g.get_pixel(px, py)[0];
                    check!(q == if border { 255 } else { 7 }, "hollow {rect:?} on {w}x{h}: ({px},{py}) = {q}");
                }
            }
            Ok(())
        });
        r.section("bezier-ladder", "curves whose control points are every distance 0..=200 apart, four shapes: every place of the curve painted", |ch| {
            let d = ch.u(0, 200) as f32;
            let c = match ch.choose(4) {
                0 => [(-d / 2.0, 0.0), (d / 2.0, 0.0), (-d / 3.0, d / 3.0), (d / 3.0, d / 3.0)],
                1 => [(0.0, 0.0), (d, 0.0), (0.0, 0.0), (d, 0.0)],
                2 => [(0.0, -d / 2.0), (0.0, d / 2.0), (d / 2.0, -d / 2.0), (-d / 2.0, d / 2.0)],
                _ => [(0.0, 0.0), (3.0, 1.0), (d, -d), (-d, d)],
            };
            let half = if d > 40.0 { d as i32 + 10 } else { 50 };
            bezier_on(ch, c.map(|p| (p.0.round(), p.1.round())), half, 1200)
        });
    });
}
