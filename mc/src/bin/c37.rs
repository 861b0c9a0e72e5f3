//! C37: Canny edge detection.
use image::*;
use imageproc::edges::canny;
use imageproc::filter::gaussian_blur_f32;
use mc::*;

struct Grad {
    /// Squared strength of local maxima, -1 elsewhere.
    maxima: Vec<i64>,
    /// A direction or comparison is too close to decide here.
    unsure: bool,
}

fn gradients(img: &GrayImage) -> Grad {
    let (w, h) = (img.width() as i64, img.height() as i64);
    let b = gaussian_blur_f32(img, 1.4);
    let p = |x: i64, y: i64| clamped(&b, x, y) as i64;
    let mut g = vec![(0i64, 0i64); (w * h) as usize];
    for y in 0..h {
        for x in 0..w {
            let dx = p(x + 1, y - 1) + 2 * p(x + 1, y) + p(x + 1, y + 1)
                - p(x - 1, y - 1)
                - 2 * p(x - 1, y)
                - p(x - 1, y + 1);
            let dy = p(x - 1, y + 1) + 2 * p(x, y + 1) + p(x + 1, y + 1)
                - p(x - 1, y - 1)
                - 2 * p(x, y - 1)
                - p(x + 1, y - 1);
            g[(y * w + x) as usize] = (dx, dy);
        }
    }
    let mut maxima = vec![-1; (w * h) as usize];
    let mut unsure = false;
    let m2 = |x: i64, y: i64| {
        let (a, b) = g[(y * w + x) as usize];
        a * a + b * b
    };
    for y in 1..h - 1 {
        for x in 1..w - 1 {
            let (dx, dy) = g[(y * w + x) as usize];
            let mut a = (dy as f64).atan2(dx as f64).to_degrees();
            if a < 0.0 {
                a += 180.0;
            }
            let d = [(0.0, (1, 0)), (45.0, (1, 1)), (90.0, (0, 1)), (135.0, (-1, 1)), (180.0, (1, 0))];
            let near = d.iter().min_by(|p, q| (p.0 - a).abs().total_cmp(&(q.0 - a).abs())).unwrap();
            if (22.5 - (near.0 - a).abs()).abs() < 1e-3 {
                unsure = true;
            }
            let (ox, oy) = near.1;
            if m2(x, y) >= m2(x + ox, y + oy) && m2(x, y) >= m2(x - ox, y - oy) {
                maxima[(y * w + x) as usize] = m2(x, y);
            }
        }
    }
    Grad { maxima, unsure }
}

const ALL: [(i64, i64); 8] = [(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1)];
/// Neighbours followed by the implementation (known finding).
const SIX: [(i64, i64); 6] = [(1, 0), (1, 1), (0, 1), (-1, -1), (-1, 0), (-1, 1)];

fn hysteresis(g: &Grad, w: u32, h: u32, lo: f64, hi: f64, nb: &[(i64, i64)]) -> GrayImage {
    let mut out = GrayImage::new(w, h);
    let at = |x: i64, y: i64| g.maxima[(y * w as i64 + x) as usize];
    let ge = |v: i64, t: f64| v >= 0 && (v as f64) >= t * t;
    let mut todo = vec![];
    for y in 0..h as i64 {
        for x in 0..w as i64 {
            if ge(at(x, y), hi) {
                out.put_pixel(x as u32, y as u32, Luma([255]));
                todo.push((x, y));
            }
        }
    }
    while let Some((x, y)) = todo.pop() {
        for (dx, dy) in nb {
            let (nx, ny) = (x + dx, y + dy);
            if nx < 0 || ny < 0 || nx >= w as i64 || ny >= h as i64 {
                continue;
            }
            if ge(at(nx, ny), lo) && out.get_pixel(nx as u32, ny as u32)[0] == 0 {
                out.put_pixel(nx as u32, ny as u32, Luma([255]));
                todo.push((nx, ny));
            }
        }
    }
    out
}

/// Integer thresholds, so that the boundary is met exactly by axis-aligned gradients.
fn one(ch: &mut Ch, img: &GrayImage, thresholds: &[(f32, f32)]) -> R {
    let g = gradients(img);
    if g.unsure {
        return Ok(());
    }
    let (w, h) = img.dimensions();
    let mut known = None;
    for &(lo, hi) in thresholds {
        ch.op();
        let got = canny(img, lo, hi);
        let e = hysteresis(&g, w, h, lo as f64, hi as f64, &ALL);
        ch.observe_bytes(&got);
        if let Some(d) = diff(&got, &e) {
            let m = format!("canny({lo}, {hi}) of {}: {d}", show(img));
            // every deviation must be explained exactly by the listed finding
            if diff(&got, &hysteresis(&g, w, h, lo as f64, hi as f64, &SIX)).is_none() {
                known = Some(m);
            } else {
                fail!("{m}");
            }
        }
    }
    if let Some(m) = known {
        known!("upward-neighbours", "{m}");
    }
    Ok(())
}

const T: [(f32, f32); 8] = [
    (1.0, 1.0),
    (1.0, 60.0),
    (20.0, 200.0),
    (40.0, 100.0),
    (100.0, 100.0),
    (100.0, 300.0),
    (300.0, 301.0),
    (1200.0, 1300.0),
];

fn main() {
    run("C37", |r| {
        r.section("small", "all binary images 3x3, 4x4, 3x5, 5x3, 4x5, 5x4 (thorough 4x6, 5x5), eight threshold pairs", |ch| {
            let mut shapes = vec![(3u32, 3u32), (4, 4), (3, 5), (5, 3), (4, 5), (5, 4)];
            if ch.thorough {
                shapes.extend([(4, 6), (5, 5)]);
            }
            let (w, h) = ch.pick(&shapes);
            let img = gray(ch, w, h, &[0, 255]);
            one(ch, &img, &T)
        });
        r.section("levels", "all 3x3 images over {0,90,255}", |ch| {
            let img = gray(ch, 3, 3, &[0, 90, 255]);
            one(ch, &img, &T)
        });
        r.section(
            "edges",
            "a straight edge at 16 angles and all offsets of 13x11, contrast falling along the edge in either direction, thresholds around every contrast",
            |ch| {
                let a = ch.choose(16) as f64 * std::f64::consts::PI / 8.0;
                let off = ch.int(-5, 5) as f64;
                let slope = ch.pick(&[-0.1f64, -0.05, 0.0, 0.05, 0.1]);
                let (w, h) = ch.pick(&[(13u32, 11u32), (10, 14)]);
                let img = GrayImage::from_fn(w, h, |x, y| {
                    let (x, y) = (x as f64 - 6.0, y as f64 - 5.0);
                    let d = x * a.cos() + y * a.sin() - off;
                    let along = -x * a.sin() + y * a.cos();
                    let c = (0.5 + slope * along).clamp(0.0, 1.0);
                    Luma([if d > 0.0 { (c * 255.0) as u8 } else { 0 }])
                });
                let mut t = T.to_vec();
                for i in 1..10 {
                    t.push((40.0 * i as f32, 80.0 * i as f32 + 20.0));
                }
                one(ch, &img, &t)
            },
        );
        r.section(
            "chains",
            "two-segment lines between all points of a grid on 16x16, bright at the start and dim elsewhere: weak chains in all directions",
            |ch| {
                let pts = [(3i64, 3i64), (8, 2), (13, 4), (2, 8), (8, 8), (13, 9), (4, 13), (9, 13), (12, 12)];
                let (a, b, c) = (ch.pick(&pts), ch.pick(&pts), ch.pick(&pts));
                if a == b {
                    return ch.reject();
                }
                let weak = ch.pick(&[60u8, 120]);
                let mut img = GrayImage::new(16, 16);
                let mut line = |p: (i64, i64), q: (i64, i64), f: &dyn Fn(i64) -> u8| {
                    let n = (q.0 - p.0).abs().max((q.1 - p.1).abs()).max(1);
                    for i in 0..=n {
                        let x = (p.0 * (n - i) + q.0 * i + n / 2) / n;
                        let y = (p.1 * (n - i) + q.1 * i + n / 2) / n;
                        let v = f(i);
                        let o = img.get_pixel(x as u32, y as u32)[0];
                        img.put_pixel(x as u32, y as u32, Luma([o.max(v)]));
                    }
                };
                line(a, b, &|i| if i < 3 { 255 } else { weak });
                line(b, c, &|_| weak);
                one(ch, &img, &[(10.0, 60.0), (10.0, 150.0), (20.0, 100.0), (40.0, 250.0), (60.0, 61.0)])
            },
        );
        r.section("shapes", "patterns on all shapes 0..8 x 0..8 and larger ones, eight threshold pairs", |ch| {
            let (w, h) = if ch.flag() { large_shape(ch) } else { (ch.u(0, 8), ch.u(0, 8)) };
            let img = gray_pat(ch.choose(NPAT), w, h);
            one(ch, &img, &T)
        });
        r.section(
            "long",
            "edges of hundreds of pixels whose strength falls from one end to the other (straight, stepped, spiral) on images up to 400x300 and 3000x12",
            |ch| {
                let (w, h) = ch.pick(&[(60u32, 50u32), (300, 20), (20, 300), (400, 300), (3000, 12), (12, 3000)]);
                let k = ch.choose(4);
                let flip = ch.flag();
                let img = GrayImage::from_fn(w, h, |x, y| {
                    let (x, y) = if flip { (w - 1 - x, h - 1 - y) } else { (x, y) };
                    let (a, b, n, m) = if w >= h { (x, y, w, h) } else { (y, x, h, w) };
                    // full contrast at the start, a fifth of it at the end
                    let v = (255 - 200 * a / n) as u8;
                    Luma([match k {
                        0 => if b > m / 2 { v } else { 0 },
                        1 => if b > m / 3 && b < 2 * m / 3 { v } else { 0 },
                        2 => if b > m / 2 + a / 7 % 2 { v } else { 0 },
                        _ => {
                            let d = x.min(y).min(w - 1 - x).min(h - 1 - y);
                            if d / 4 % 2 == 1 { v } else { 0 }
                        }
                    }])
                });
                one(ch, &img, &[(100.0, 900.0), (20.0, 700.0), (50.0, 300.0), (100.0, 100.0), (300.0, 310.0)])
                    .map_err(|f| match f.key {
                        None => Fail::from(format!("pattern {k} on {w}x{h}: {}", f.msg.chars().rev().take(200).collect::<String>().chars().rev().collect::<String>())),
                        _ => f,
                    })
            },
        );
        r.section(
            "monotone",
            "raising a threshold never adds edges: patterns and blobs, all pairs of thresholds from eleven values (0 and below included)",
            |ch| {
                let (w, h) = if ch.flag() { large_shape(ch) } else { (ch.u(0, 8), ch.u(0, 8)) };
                let img = gray_pat(ch.choose(NPAT), w, h);
                let ts = [-10.0f32, 0.0, 1.0, 10.0, 33.3, 70.0, 120.5, 255.0, 500.0, 1000.0, f32::INFINITY];
                let mut prev: Vec<Option<GrayImage>> = vec![None; ts.len()];
                for (j, &hi) in ts.iter().enumerate() {
                    for i in 0..=j {
                        ch.op();
                        let g = canny(&img, ts[i], hi);
                        check!(g.dimensions() == (w, h), "dimensions");
                        check!(g.iter().all(|&p| p == 0 || p == 255), "values other than 0 and 255");
                        let sub = |a: &GrayImage, b: &GrayImage| a.iter().zip(b.iter()).all(|(a, b)| a <= b);
                        if let Some(p) = &prev[i] {
                            check!(sub(&g, p), "raising high_threshold to {hi} at low {} adds edges: {}", ts[i], show(&img));
                        }
                        if i > 0 {
                            let q = canny(&img, ts[i - 1], hi);
                            check!(sub(&g, &q), "raising low_threshold to {} at high {hi} adds edges: {}", ts[i], show(&img));
                        }
                        prev[i] = Some(g);
                    }
                }
                check!(catching(|| canny(&img, 2.0, 1.0)).is_err(), "low above high accepted");
                Ok(())
            },
        );
        r.section("sizes", "every width and height 1..=70 and the neighbours of round sizes up to 1025: four patterns, eight threshold pairs", |ch| {
            let (w, h) = sweep_shape(ch);
            let k = ch.pick(&[0usize, 4, 8, 9]);
            one(ch, &gray_pat(k, w, h), &T)
        });
        r.section("threshold-ladder", "every pair low <= high of 40 thresholds from 0.5 to 1140, and pairs 0, 1 or 50 apart in steps of 5, on patterns, discs, ramps and faint lines", |ch| {
            let n = if ch.flag() { 40 } else { 0 };
            let pairs: Vec<(f32, f32)> = if n > 0 {
                let lo = ch.choose(n);
                (lo..n).map(|hi| (0.5 + lo as f32 * 29.2, 0.5 + hi as f32 * 29.2)).collect()
            } else {
                let d = ch.pick(&[0.0f32, 1.0, 50.0]);
                (1..218).map(|i| (i as f32 * 5.0, i as f32 * 5.0 + d)).collect()
            };
            let img = match ch.choose(6) {
                0 => gray_pat(0, 14, 11),
                1 => gray_pat(6, 11, 14),
                2 => GrayImage::from_fn(24, 24, |x, y| Luma([if (x as i32 - 12).pow(2) + (y as i32 - 11).pow(2) < 60 { 230 } else { 10 }])),
                3 => GrayImage::from_fn(40, 9, |x, y| Luma([if y > 4 { (x * 6) as u8 } else { 0 }])),
                4 => GrayImage::from_fn(9, 40, |x, y| Luma([if x > 4 { 255 - (y * 6) as u8 } else { 255 }])),
                _ => GrayImage::from_fn(30, 20, |x, y| Luma([100 + if (x + y) % 15 < 3 { (x * 3) as u8 } else { 0 }])),
            };
            one(ch, &img, &pairs)
        });
    });
}
