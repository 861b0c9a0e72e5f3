//! C32: Hough line detection and drawing of polar lines.
use image::*;
use imageproc::hough::*;
use mc::*;

fn votes(img: &GrayImage) -> (i64, Vec<u32>) {
    let (w, h) = img.dimensions();
    let rmax = ((w as f64).powi(2) + (h as f64).powi(2)).sqrt() as i64;
    let n = (2 * rmax + 1) as usize;
    let mut acc = vec![0u32; n * 180];
    for y in 0..h {
        for x in 0..w {
            if img.get_pixel(x, y)[0] == 0 {
                continue;
            }
            for m in 0..180 {
                // single precision, as the projections of many pixels are whole numbers
                let t = (m as f32).to_radians();
                let r = x as f32 * t.cos() + y as f32 * t.sin();
                acc[m * n + (r as i64 + rmax) as usize] += 1;
            }
        }
    }
    (rmax, acc)
}

fn detect(ch: &mut Ch, img: &GrayImage, thr: &[u32], radii: &[u32]) -> R {
    let (rmax, acc) = votes(img);
    let n = 2 * rmax + 1;
    for &sr in radii {
        let s = sr as i64;
        // a cell is kept if no cell of its block has more votes, or as many at a smaller (r, angle)
        let kept: Vec<bool> = (0..n * 180)
            .map(|i| {
                let v = acc[i as usize];
                let (x, y) = (i % n, i / n);
                for yy in (y - s).max(0)..(y + s + 1).min(180) {
                    for xx in (x - s).max(0)..(x + s + 1).min(n) {
                        let o = acc[(yy * n + xx) as usize];
                        if o > v || (o == v && (xx, yy) < (x, y)) {
                            return false;
                        }
                    }
                }
                true
            })
            .collect();
        for &t in thr {
            ch.op();
            let opts = LineDetectionOptions { vote_threshold: t, suppression_radius: sr };
            let mut got: Vec<(u32, i64)> = vec![];
            for l in detect_lines(img, opts) {
                check!(l.angle_in_degrees < 180, "angle {}", l.angle_in_degrees);
                check!(l.r.fract() == 0.0, "r = {}", l.r);
                got.push((l.angle_in_degrees, l.r as i64));
            }
            got.sort();
            let e: Vec<(u32, i64)> = (0..n * 180)
                .filter(|&i| if kept[i as usize] { acc[i as usize] >= t } else { t == 0 })
                .map(|i| ((i / n) as u32, i % n - rmax))
                .collect();
            if got != e {
                let extra: Vec<_> = got.iter().filter(|g| !e.contains(g)).take(5).collect();
                let missing: Vec<_> = e.iter().filter(|g| !got.contains(g)).take(5).collect();
                fail!(
                    "detect_lines(threshold {t}, suppression {sr}) of {}: {} lines, expected {}; not expected {extra:?}, missing {missing:?} (angle, r)",
                    show(img),
                    got.len(),
                    e.len()
                );
            }
            ch.observe(e.len() as u64);
        }
    }
    Ok(())
}

/// Length of the part of the line within the canvas shrunk by `margin` on each side, and its
/// end points.
fn visible(r: f64, deg: u32, w: f64, h: f64, margin: f64) -> Option<((f64, f64), (f64, f64))> {
    let t = (deg as f64).to_radians();
    let (s, c) = t.sin_cos();
    // points (r c - s u, r s + c u); the canvas spans pixel centres 0..w-1
    let (mut lo, mut hi) = (f64::NEG_INFINITY, f64::INFINITY);
    for (p, d, n) in [(r * c, -s, w), (r * s, c, h)] {
        let (a, b) = (margin, n - 1.0 - margin);
        if b < a {
            return None;
        }
        if d.abs() < 1e-9 {
            if p < a || p > b {
                return None;
            }
            continue;
        }
        let (u, v) = ((a - p) / d, (b - p) / d);
        lo = lo.max(u.min(v));
        hi = hi.min(u.max(v));
    }
    if lo > hi {
        return None;
    }
    Some(((r * c - s * lo, r * s + c * lo), (r * c - s * hi, r * s + c * hi)))
}

fn draw(ch: &mut Ch, w: u32, h: u32, r: f32, deg: u32) -> R {
    ch.op();
    let bg = gray_pat(1, w, h);
    let bg = GrayImage::from_fn(w, h, |x, y| Luma([bg.get_pixel(x, y)[0] % 200]));
    let line = PolarLine { r, angle_in_degrees: deg };
    let got = draw_polar_lines(&bg, &[line], Luma([255]));
    let mut again = bg.clone();
    draw_polar_lines_mut(&mut again, &[line], Luma([255]));
    check!(got == again, "draw_polar_lines and draw_polar_lines_mut differ");
    let what = format!("polar line r={r} angle={deg} on {w}x{h}");
    let t = (deg as f64).to_radians();
    let (s, c) = t.sin_cos();
    let steep = c.abs() > s.abs(); // nearly vertical
    let mut n = 0u64;
    for (x, y, p) in got.enumerate_pixels() {
        if p[0] == 255 {
            n += 1;
            let d = (x as f64 * c + y as f64 * s - r as f64).abs();
            check!(d <= 1.8, "{what}: pixel ({x},{y}) is painted at distance {d}");
        } else {
            check!(p == bg.get_pixel(x, y), "{what}: pixel ({x},{y}) changed to {}", p[0]);
        }
    }
    // every row (column for flat lines) the line crosses well inside has a painted pixel
    if let Some((a, b)) = visible(r as f64, deg, w as f64, h as f64, 1.0) {
        if steep {
            let (y0, y1) = (a.1.min(b.1).ceil() as i64, a.1.max(b.1).floor() as i64);
            for y in y0..=y1 {
                check!((0..w).any(|x| got.get_pixel(x, y as u32)[0] == 255), "{what}: row {y} has no pixel");
            }
        } else {
            let (x0, x1) = (a.0.min(b.0).ceil() as i64, a.0.max(b.0).floor() as i64);
            for x in x0..=x1 {
                check!((0..h).any(|y| got.get_pixel(x as u32, y)[0] == 255), "{what}: column {x} has no pixel");
            }
        }
    }
    // the reported intersections lie on the line and on the image border
    match intersection_points(line, w, h) {
        None => {
            // the line stays outside
            check!(
                visible(r as f64, deg, w as f64 - 1.0, h as f64 - 1.0, 0.0).is_none(),
                "{what}: no intersection points"
            );
        }
        Some((p, q)) => {
            let seg = imageproc::drawing::draw_line_segment(&bg, p, q, Luma([255]));
            check!(seg == got, "{what}: differs from the segment between its intersection points");
            for (x, y) in [p, q] {
                let (x, y) = (x as f64, y as f64);
                let tol = 1e-4 * (1.0 + w as f64 + h as f64 + r.abs() as f64);
                check!((x * c + y * s - r as f64).abs() < tol, "{what}: end point ({x},{y}) is off the line");
                let on = |v: f64, n: u32| v >= 0.0 && v <= n as f64;
                check!(
                    on(x, w) && on(y, h) && (x == 0.0 || x == w as f64 || y == 0.0 || y == h as f64),
                    "{what}: end point ({x},{y}) is not on the border"
                );
            }
            // both ends of the part within [0, w] x [0, h]
            if let Some((a, b)) = visible(r as f64, deg, w as f64 + 1.0, h as f64 + 1.0, 0.0) {
                let len = |a: (f64, f64), b: (f64, f64)| (a.0 - b.0).hypot(a.1 - b.1);
                let (l, g) = (len(a, b), len((p.0 as f64, p.1 as f64), (q.0 as f64, q.1 as f64)));
                let m = s.abs().min(c.abs());
                let rounding = if m > 1e-3 { 4e-7 * (w as f64 + h as f64 + r.abs() as f64) / m } else { 0.0 };
                check!((l - g).abs() < 0.02 + if w + h > 100 { rounding } else { 0.0 }, "{what}: the part in the image has length {l}, between end points {g}");
            }
        }
    }
    ch.observe(n);
    Ok(())
}

fn main() {
    run("C32", |r| {
        r.section("small", "all binary images 1x1..4x2, 3x3 (thorough also 4x3 and 3x4), thresholds 0..4, suppression 0..3 and beyond", |ch| {
            let mut shapes = vec![(1u32, 1u32), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (4, 1), (1, 4), (4, 2), (2, 4), (3, 3)];
            if ch.thorough {
                shapes.extend([(4, 3), (3, 4)]);
            }
            let (w, h) = ch.pick(&shapes);
            let img = gray(ch, w, h, &[0, 1]);
            detect(ch, &img, &[0, 1, 2, 3, 4, u32::MAX], &[0, 1, 3])
        });
        r.section("pairs", "all pairs of foreground pixels (values 1, 255) of 6x5 and 9x3 images, thresholds 1..3, suppression 0 and 2", |ch| {
            let (w, h) = ch.pick(&[(6u32, 5u32), (9, 3)]);
            let a = ch.u(0, w * h - 1);
            let mut b = a;
            while b < w * h {
                let mut img = GrayImage::new(w, h);
                img.put_pixel(a % w, a / w, Luma([1]));
                img.put_pixel(b % w, b / w, Luma([255]));
                detect(ch, &img, &[1, 2, 3], &[0, 2, 8])?;
                b += 1;
            }
            Ok(())
        });
        r.section("lines", "a drawn line between all pairs of 12 points of 24x17, thresholds 1..24, suppression 0, 1, 5, 8, 30", |ch| {
            let pts: Vec<(i64, i64)> = (0..12).map(|i| ((i * 7) % 24, (i * 5) % 17)).collect();
            let (a, b) = (ch.pick(&pts), ch.pick(&pts));
            let mut img = GrayImage::new(24, 17);
            let n = (a.0 - b.0).abs().max((a.1 - b.1).abs()).max(1);
            for i in 0..=n {
                let (x, y) = ((a.0 * (n - i) + b.0 * i + n / 2) / n, (a.1 * (n - i) + b.1 * i + n / 2) / n);
                img.put_pixel(x as u32, y as u32, Luma([255]));
            }
            let sr = ch.pick(&[0u32, 1, 5, 8]);
            detect(ch, &img, &[1, 2, 5, 8, 10, 12, 15, 20, 24], &[sr])
        });
        r.section("shapes", "patterns on all shapes 0..5 x 0..5, long and larger ones", |ch| {
            let (w, h) = if ch.flag() { ch.pick(&[(0u32, 40u32), (40, 0), (40, 1), (1, 40), (17, 9)]) } else { (ch.u(0, 5), ch.u(0, 5)) };
            let img = gray_pat(ch.choose(NPAT), w, h);
            detect(ch, &img, &[0, 1, 3, 10], &[0, 2])
        });
        r.section("many-votes", "cells with more than 2^8 and 2^16 votes: full and dotted rows and columns, thresholds around the number of pixels", |ch| {
            let (w, h) = ch.pick(&[(300u32, 3u32), (3, 300), (400, 40), (40, 400), (66000, 1), (1, 66000)]);
            let k = ch.choose(if w + h > 1000 && !ch.thorough { 1 } else { 3 });
            let img = GrayImage::from_fn(w, h, |x, y| {
                let (a, b) = if w > h { (x, y) } else { (y, x) };
                Luma([match k {
                    0 => (b == w.min(h) / 2) as u8,
                    1 => (b == 0 && a % 3 != 1) as u8 * 255,
                    _ => (b == w.min(h) - 1 && a > 5) as u8 * 9,
                }])
            });
            let n = img.pixels().filter(|p| p[0] > 0).count() as u32;
            let sr = if w.max(h) > 1000 { 0 } else { ch.pick(&[0u32, 1, 6]) };
            detect(ch, &img, &[n / 3, n - 2, n, n + 1], &[sr]).map_err(|f| Fail::from(format!("{w}x{h} pattern {k}: {}", f.msg.chars().rev().take(300).collect::<String>().chars().rev().collect::<String>())))
        });
        r.section("draw-large", "whole and fractional r around images up to 1000x700 and 66000x3 at 36 angles", |ch| {
            let (w, h) = ch.pick(&[(300u32, 260u32), (1000, 700), (66000, 3), (3, 66000)]);
            let deg = ch.choose(36) as u32 * 5 + ch.choose(2) as u32;
            let (s, c) = (deg as f64).to_radians().sin_cos();
            for (fx, fy) in [(0.5, 0.5), (0.0, 0.3), (0.9, 0.9), (1.0, 0.0)] {
                let r = fx * w as f64 * c + fy * h as f64 * s;
                draw(ch, w, h, r.round() as f32, deg)?;
            }
            Ok(())
        });
        r.section("draw", "every whole r around the image and every angle 0..179 on shapes 1..12", |ch| {
            let (w, h) = ch.pick(&[(1u32, 1u32), (1, 7), (7, 1), (2, 3), (5, 5), (10, 4), (4, 10), (12, 9)]);
            let deg = ch.u(0, 179);
            let d = w.max(h) as i32 * 3 / 2 + 3;
            for r in -d..=d {
                draw(ch, w, h, r as f32, deg)?;
                for f in [0.25f32, 0.5, 0.75] {
                    draw(ch, w, h, r as f32 + f, deg)?;
                }
            }
            Ok(())
        });
        r.section("draw-corners", "lines through and near each image corner at every angle", |ch| {
            let (w, h) = ch.pick(&[(1u32, 1u32), (5, 5), (10, 4), (4, 10), (31, 17)]);
            let deg = ch.u(0, 179);
            let t = (deg as f64).to_radians();
            for (x, y) in [(0, 0), (w, 0), (0, h), (w, h), (w - 1, h - 1), (w / 2, h / 2)] {
                let r = x as f64 * t.cos() + y as f64 * t.sin();
                for e in [0.0, 1e-6, -1e-6, 1e-3, -1e-3, 0.1, -0.1] {
                    draw(ch, w, h, (r + e) as f32, deg)?;
                }
            }
            Ok(())
        });
        r.section("draw-empty", "all angles and several r on empty images; several lines at once", |ch| {
            let deg = ch.u(0, 179);
            for (w, h) in [(0u32, 0u32), (0, 5), (5, 0)] {
                for r in -6..=6 {
                    ch.op();
                    let img = GrayImage::new(w, h);
                    let l = PolarLine { r: r as f32, angle_in_degrees: deg };
                    check!(draw_polar_lines(&img, &[l], Luma([1])) == img, "changed an empty image");
                }
            }
            let bg = gray_pat(1, 8, 6);
            let l = |r: i32, a: u32| PolarLine { r: r as f32, angle_in_degrees: a };
            let lines = [l(3, deg), l(-2, (deg + 50) % 180), l(5, (deg * 7) % 180)];
            let all = draw_polar_lines(&bg, &lines, Luma([250]));
            let one_by_one = lines.iter().fold(bg.clone(), |i, l| draw_polar_lines(&i, &[*l], Luma([250])));
            check!(all == one_by_one, "several lines differ from one by one at {deg}");
            check!(draw_polar_lines(&bg, &[], Luma([250])) == bg, "no lines");
            Ok(())
        });
        r.section("corner-chords", "lines within 3 units in the last place of each corner at every angle, all images up to 59x59: the end points span the whole chord", |ch| {
            let (w, h) = (ch.u(1, 59), ch.u(1, 59));
            for deg in (1..180u32).filter(|d| *d != 90) {
                let (s, c) = (deg as f64).to_radians().sin_cos();
                for (x, y) in [(0, 0), (w, 0), (0, h), (w, h)] {
                    let r0 = (x as f64 * c + y as f64 * s) as f32;
                    for k in -3i32..=3 {
                        let r = f32::from_bits((r0.to_bits() as i32 + k) as u32);
                        ch.op();
                        let (r64, wf, hf, e) = (r as f64, w as f64, h as f64, 1e-6);
                        let mut pts = vec![];
                        for x in [0.0, wf] {
                            let y = (r64 - x * c) / s;
                            if y >= -e && y <= hf + e {
                                pts.push((x, y));
                            }
                        }
                        for y in [0.0, hf] {
                            let x = (r64 - y * s) / c;
                            if x >= -e && x <= wf + e {
                                pts.push((x, y));
                            }
                        }
                        let mut want = 0f64;
                        for a in &pts {
                            for b in &pts {
                                want = want.max((a.0 - b.0).hypot(a.1 - b.1));
                            }
                        }
                        let got = intersection_points(PolarLine { r, angle_in_degrees: deg }, w, h)
                            .map_or(0.0, |(a, b)| ((a.0 - b.0) as f64).hypot((a.1 - b.1) as f64));
                        check!((want - got).abs() < 0.05, "{w}x{h}: the line r={r:?} at {deg} degrees has {want} in the image, {got} between its end points");
                    }
                }
            }
            Ok(())
        });
        r.section("option-ladder", "every vote threshold 0..=60 and around powers of two, every suppression radius 0..=60 and around powers of two up to 2^32 - 1, on 24x17, 60x3 and 5x40 images", |ch| {
            let (w, h) = ch.pick(&[(24u32, 17u32), (60, 3), (5, 40)]);
            let k = ch.choose(3);
            let img = GrayImage::from_fn(w, h, |x, y| {
                Luma([match k {
                    0 => (y == h / 2 || x == 2) as u8 * 255,
                    1 => ((x * 7 + y * 11) % 13 == 0) as u8 * 200,
                    _ => (x == y || x + 2 * y == 30) as u8,
                }])
            });
            if ch.flag() {
                let t = ladder(60, u32::MAX);
                let sr = ch.pick(&[0u32, 2, 4]);
                detect(ch, &img, &t, &[sr])
            } else {
                let l = ladder(60, u32::MAX);
                let sr = ch.pick(&l);
                detect(ch, &img, &[0, 1, 3, 8], &[sr])
            }
        });
    });
}
