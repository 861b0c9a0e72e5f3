//! C17: FAST corners.
use image::*;
use imageproc::corners::*;
use mc::*;
use std::sync::OnceLock;

const CIRCLE: [(i64, i64); 16] = [
    (0, -3),
    (1, -3),
    (2, -2),
    (3, -1),
    (3, 0),
    (3, 1),
    (2, 2),
    (1, 3),
    (0, 3),
    (-1, 3),
    (-2, 2),
    (-3, 1),
    (-3, 0),
    (-3, -1),
    (-2, -2),
    (-1, -3),
];

/// Longest cyclic run of set bits of each 16-bit mask.
fn runs() -> &'static [u8] {
    static T: OnceLock<Vec<u8>> = OnceLock::new();
    T.get_or_init(|| {
        (0u32..65536)
            .map(|m| {
                if m == 0xffff {
                    return 16;
                }
                let mut best = 0;
                for s in 0..16 {
                    let mut k = 0;
                    while m >> ((s + k) % 16) & 1 == 1 {
                        k += 1;
                    }
                    best = best.max(k);
                }
                best as u8
            })
            .collect()
    })
}

fn ref_corner(img: &GrayImage, n: u8, t: i64, x: u32, y: u32) -> bool {
    let (w, h) = (img.width() as i64, img.height() as i64);
    let (x, y) = (x as i64, y as i64);
    if x < 3 || y < 3 || x + 3 >= w || y + 3 >= h {
        return false;
    }
    let c = img.get_pixel(x as u32, y as u32)[0] as i64;
    let (mut b, mut d) = (0usize, 0usize);
    for (i, (dx, dy)) in CIRCLE.iter().enumerate() {
        let p = img.get_pixel((x + dx) as u32, (y + dy) as u32)[0] as i64;
        if p > c + t {
            b |= 1 << i;
        }
        if p < c - t {
            d |= 1 << i;
        }
    }
    runs()[b] >= n || runs()[d] >= n
}

fn ref_corners(img: &GrayImage, n: u8, t: u8) -> Vec<(u32, u32, u8)> {
    let mut v = vec![];
    for y in 0..img.height() {
        for x in 0..img.width() {
            if ref_corner(img, n, t as i64, x, y) {
                let mut s = t as i64;
                while s < 255 && ref_corner(img, n, s + 1, x, y) {
                    s += 1;
                }
                v.push((x, y, s as u8));
            }
        }
    }
    v
}

fn key(v: Vec<Corner>) -> Vec<(u32, u32, u8)> {
    let mut v: Vec<_> = v.into_iter().map(|c| (c.y, c.x, c.score as u8)).collect();
    v.sort();
    v.into_iter().map(|(y, x, s)| (x, y, s)).collect()
}

fn both(ch: &mut Ch, img: &GrayImage, t: u8) -> R {
    ch.ops(2);
    let g = key(corners_fast9(img, t));
    let e = ref_corners(img, 9, t);
    check!(g == e, "corners_fast9(threshold {t}) = {g:?}, expected {e:?} (x, y, score); {}", show(img));
    ch.observe(g.len() as u64);
    let g = key(corners_fast12(img, t));
    let e = ref_corners(img, 12, t);
    check!(g == e, "corners_fast12(threshold {t}) = {g:?}, expected {e:?} (x, y, score); {}", show(img));
    Ok(())
}

fn circle_img(c: u8, v: &[u8; 16]) -> GrayImage {
    let mut img = GrayImage::from_pixel(7, 7, Luma([c]));
    for (i, (dx, dy)) in CIRCLE.iter().enumerate() {
        img.put_pixel((3 + dx) as u32, (3 + dy) as u32, Luma([v[i]]));
    }
    img
}

fn ref_orientation(img: &GrayImage, x: u32, y: u32) -> (i64, i64) {
    let (mut mx, mut my) = (0i64, 0i64);
    for dy in -15i64..=15 {
        for dx in -15i64..=15 {
            let (px, py) = (x as i64 + dx, y as i64 + dy);
            if px < 0 || py < 0 || px >= img.width() as i64 || py >= img.height() as i64 {
                continue;
            }
            let v = img.get_pixel(px as u32, py as u32)[0] as i64;
            mx += dx * v;
            my += dy * v;
        }
    }
    (mx, my)
}

fn check_oriented(
    ch: &mut Ch,
    img: &GrayImage,
    thr: Option<u8>,
    target: usize,
    edge: u32,
    seed: Option<u64>,
) -> R {
    ch.op();
    let got = oriented_fast(img, thr, target, edge, seed);
    let (w, h) = img.dimensions();
    let inside = |x: u32, y: u32| {
        x >= edge && y >= edge && (x as u64) + (edge as u64) < w as u64 && (y as u64) + (edge as u64) < h as u64
    };
    let what = format!("oriented_fast({thr:?}, {target}, edge {edge}, {seed:?}) on {w}x{h}");
    for c in &got {
        let (mx, my) = ref_orientation(img, c.corner.x, c.corner.y);
        let e = (my as f64).atan2(mx as f64);
        let mut d = (c.orientation as f64 - e).abs();
        if d > std::f64::consts::PI {
            d = 2.0 * std::f64::consts::PI - d;
        }
        check!(
            d < 1e-4 || (mx, my) == (0, 0),
            "{what}: orientation {} at ({},{}), expected {e}",
            c.orientation,
            c.corner.x,
            c.corner.y
        );
    }
    check!(
        got.windows(2).all(|p| p[0].corner.score >= p[1].corner.score),
        "{what}: scores not in descending order"
    );
    check!(got.len() <= target, "{what}: {} corners", got.len());
    let gk = key(got.iter().map(|c| c.corner).collect());
    check!(gk.windows(2).all(|p| p[0] != p[1]), "{what}: repeated corner");
    // all corners at threshold 0; raising the threshold keeps those with at least that score
    let all: Vec<_> = ref_corners(img, 9, 0).into_iter().filter(|c| inside(c.0, c.1)).collect();
    let ok_for = |t: u8| {
        let at: Vec<_> = all.iter().filter(|c| c.2 >= t).collect();
        let n = at.len().min(target);
        if gk.len() != n || !gk.iter().all(|g| at.contains(&g)) {
            return false;
        }
        // nothing better was left out
        let worst = gk.iter().map(|g| g.2).min();
        n == at.len() || n == 0 || at.iter().filter(|c| Some(c.2) > worst).all(|c| gk.contains(c))
    };
    match thr {
        Some(t) => check!(ok_for(t), "{what} = {gk:?} are not the best of {all:?} at the threshold"),
        None => {
            check!(
                (0..=255).any(ok_for),
                "{what} = {gk:?} are not the best of {all:?} at any threshold"
            );
            if seed.is_some() {
                let again = oriented_fast(img, thr, target, edge, seed);
                check!(
                    again.iter().map(|c| c.corner).eq(got.iter().map(|c| c.corner)),
                    "{what} differs between calls"
                );
            }
        }
    }
    ch.observe(gk.len() as u64);
    Ok(())
}

fn main() {
    run("C17", |r| {
        r.section(
            "circles",
            "all 3^16 brighter/similar/darker circle patterns, the similar ones at the threshold exactly, three centres and thresholds (thorough: both signs)",
            |ch| {
                let hi = ch.choose(729);
                let sign = ch.flag();
                // the similar pixels alternate sides
                let (c, t) = ch.pick(&[(100u8, 10u8), (20, 0), (128, 100)]);
                if sign && !ch.thorough {
                    return ch.reject();
                }
                let val = |k: usize, i: usize| match k {
                    0 => {
                        if (i % 2 == 0) ^ sign {
                            c + t
                        } else {
                            c - t
                        }
                    }
                    1 => c + t + 1,
                    _ => c - t - 1,
                };
                let mut img = GrayImage::from_pixel(7, 7, Luma([c]));
                let put = |img: &mut GrayImage, i: usize, k: usize| {
                    img.put_pixel((3 + CIRCLE[i].0) as u32, (3 + CIRCLE[i].1) as u32, Luma([val(k, i)]))
                };
                let (mut b, mut d) = (0usize, 0usize);
                let mut k = hi;
                for i in 10..16 {
                    put(&mut img, i, k % 3);
                    b |= ((k % 3 == 1) as usize) << i;
                    d |= ((k % 3 == 2) as usize) << i;
                    k /= 3;
                }
                let n = 59049usize;
                for lo in 0..n {
                    let mut k = lo;
                    let (mut b, mut d) = (b, d);
                    for i in 0..10 {
                        put(&mut img, i, k % 3);
                        b |= ((k % 3 == 1) as usize) << i;
                        d |= ((k % 3 == 2) as usize) << i;
                        k /= 3;
                    }
                    let run = runs()[b].max(runs()[d]);
                    // only the centre pixel of a 7x7 image can be a corner
                    let g9 = fast_is_corner(&img, t, Fast::Nine);
                    check!(g9 == (run >= 9), "fast9 at threshold {t} says {g9}, run {run}; {}", show(&img));
                    let g12 = fast_is_corner(&img, t, Fast::Twelve);
                    check!(g12 == (run >= 12), "fast12 at threshold {t} says {g12}, run {run}; {}", show(&img));
                }
                ch.ops(2 * n as u64);
                ch.add_states(n as u64);
                Ok(())
            },
        );
        r.section(
            "scores",
            "circles of four arcs at all break points and levels from {0,64,128,192,255}, centres {0,100,128,255}, detection threshold {0,63,64,127}",
            |ch| {
                let c = ch.pick(&[0u8, 100, 128, 255]);
                let a = ch.choose(16);
                let b = ch.choose(16);
                if b < a {
                    return ch.reject();
                }
                let l: [u8; 3] = std::array::from_fn(|_| ch.pick(&[0u8, 64, 128, 192, 255]));
                for len in 9usize..16 {
                    let mut v = [l[0]; 16];
                    for i in a..=b {
                        v[i] = l[1];
                    }
                    // one arc of another level overlays the rest
                    for i in 0..len {
                        v[(b + 1 + i) % 16] = l[2];
                    }
                    if b > 0 {
                        v[(a + len / 2) % 16] = l[1].saturating_add(l[2] % 7);
                    }
                    let img = circle_img(c, &v);
                    for t in [0u8, 63, 64, 127] {
                        both(ch, &img, t)?;
                        for y in [2, 3, 4] {
                            for (nine, var) in [(9, Fast::Nine), (12, Fast::Twelve)] {
                                let mut e = t as i64;
                                while e < 255 && ref_corner(&img, nine, e + 1, 3, y) {
                                    e += 1;
                                }
                                if ref_corner(&img, nine, t as i64, 3, y) {
                                    let g = fast_corner_score(&img, t, 3, y, var) as i64;
                                    check!(g == e, "fast_corner_score from {t} = {g}, expected {e}; {}", show(&img));
                                }
                            }
                        }
                    }
                }
                Ok(())
            },
        );
        r.section(
            "levels",
            "a uniform circle of every value v with every centre c, every threshold around |v-c|",
            |ch| {
                let c = ch.choose(256) as u8;
                let n = 256usize;
                let off = ch.choose(n);
                for v in 0..=255u8 {
                    if v as usize % n != off {
                        continue;
                    }
                    let img = circle_img(c, &[v; 16]);
                    let d = (v as i64 - c as i64).abs();
                    for t in [0, d - 2, d - 1, d, d + 1, 255] {
                        if !(0..=255).contains(&t) {
                            continue;
                        }
                        both(ch, &img, t as u8)?;
                    }
                }
                Ok(())
            },
        );
        r.section("shapes", "patterns on all shapes 0..9 x 0..9 and larger ones, thresholds {0,1,20,100,254,255}", |ch| {
            let (w, h) = if ch.flag() { large_shape(ch) } else { (ch.u(0, 9), ch.u(0, 9)) };
            let img = gray_pat(ch.choose(NPAT), w, h);
            for t in [0u8, 1, 20, 100, 254, 255] {
                both(ch, &img, t)?;
            }
            Ok(())
        });
        r.section("positions", "a blob of side 1..3 at every position of shapes 7..10 x 7..10, bright and dark", |ch| {
            let (w, h) = (ch.u(7, 10), ch.u(7, 10));
            let s = ch.u(1, 3);
            let (bx, by) = (ch.u(0, w - 1), ch.u(0, h - 1));
            let (bg, fg) = ch.pick(&[(0u8, 255u8), (255, 0), (100, 111)]);
            let img = GrayImage::from_fn(w, h, |x, y| {
                Luma([if x >= bx && x < bx + s && y >= by && y < by + s { fg } else { bg }])
            });
            for t in [0u8, 10, 11, 254, 255] {
                both(ch, &img, t)?;
            }
            Ok(())
        });
        r.section(
            "oriented",
            "oriented_fast: patterns and corners at every place of small shapes, edge radii 0..6 and beyond the image, targets, thresholds or none",
            |ch| {
                let (w, h) = if ch.flag() {
                    ch.pick(&[(0u32, 0u32), (0, 9), (9, 0), (1, 1), (7, 7), (8, 9), (12, 8)])
                } else {
                    ch.pick(&[(20, 13), (40, 34), (33, 40)])
                };
                let img = match ch.choose(5) {
                    0 => gray_pat(6, w, h),
                    1 => gray_pat(9, w, h),
                    2 => GrayImage::new(w, h),
                    k => GrayImage::from_fn(w, h, |x, y| Luma([if (x / 4 + y / 5) % 2 == (k as u32) % 2 { 200 } else { (x * 3 + y) as u8 % 50 }])),
                };
                let edge = ch.pick(&[0u32, 1, 3, 4, 6, 10, 20, 100]);
                let thr = ch.pick(&[Some(0u8), Some(30), Some(255), None]);
                let target = ch.pick(&[0usize, 1, 2, 5, 1000, 100000]);
                let seed = if thr.is_none() { ch.pick(&[None, Some(0u64), Some(7)]) } else { None };
                check_oriented(ch, &img, thr, target, edge, seed)
            },
        );
        r.section(
            "orientation",
            "one corner pixel at every position of 9x8, 36x20 and 20x36 images, background gradients in four directions",
            |ch| {
                let (w, h) = ch.pick(&[(9u32, 8u32), (36, 20), (20, 36)]);
                let g = ch.choose(5);
                let (cx, cy) = (ch.u(3, w - 4), ch.u(3, h - 4));
                                let mut img = GrayImage::from_fn(w, h, |x, y| {
                    Luma([match g {
                        0 => 100,
                        1 => x + 50,
                        2 => y + 50,
                        3 => 150 - x - y,
                        _ => 90 + x - y,
                    } as u8])
                });
                img.put_pixel(cx, cy, Luma([255]));
                check_oriented(ch, &img, Some(60), 10, 0, None)
            },
        );
        r.section("sizes", "every width and height 1..=70 and the neighbours of round sizes up to 1025; noise, blobs, isolated bright pixels", |ch| {
            let (w, h) = sweep_shape(ch);
            // FAST needs 7 rows and columns
            let (w, h) = if w != h { (if w <= 4 { w + 5 } else { w }, if h <= 4 { h + 5 } else { h }) } else { (w, h) };
            let k = ch.choose(4);
            let img = GrayImage::from_fn(w, h, |x, y| {
                Luma([match k {
                    0 => pat(0, x, y, 0, w, h),
                    1 => pat(8, x, y, 0, w, h),
                    2 => ((x + 2 * y) % 5 == 3) as u8 * 200,
                    _ => ((x + 4, y + 4) == (w, h) || (x, y) == (3, 3) || (x + 4, y) == (w, 3)) as u8 * 255,
                }])
            });
            both(ch, &img, 30)
        });
        r.section("threshold-ladder", "every threshold 0..=255 on patterns, ramps, blobs and isolated pixels: corners, scores, and oriented FAST", |ch| {
            let t = ch.choose(256) as u8;
            let img = match ch.choose(6) {
                0 => gray_pat(0, 20, 17),
                1 => gray_pat(6, 17, 20),
                2 => gray_pat(9, 24, 11),
                3 => GrayImage::from_fn(40, 34, |x, y| Luma([if (x / 4 + y / 5) % 2 == 1 { 255 - (x * 3 + y) as u8 % 120 } else { (x * 3 + y) as u8 % 50 }])),
                4 => GrayImage::from_fn(30, 30, |x, y| Luma([if x % 6 == 3 && y % 6 == 3 { (x * 8 + y) as u8 } else { 0 }])),
                _ => GrayImage::from_fn(30, 30, |x, y| Luma([if x % 6 == 3 && y % 6 == 3 { (x * 8 + y) as u8 } else { 255 }])),
            };
            both(ch, &img, t)?;
            check_oriented(ch, &img, Some(t), 1000, 0, None)?;
            check_oriented(ch, &img, Some(t), 3, 2, None)
        });
        r.section("target-ladder", "oriented FAST with every target count 0..=60 and around powers of two up to 2^20, and every edge radius 0..=45 and beyond, on images with up to some hundred corners", |ch| {
            let (a, b) = (ladder(60, 1 << 20), ladder(45, u32::MAX));
            let (target, edge) = if ch.flag() { (ch.pick(&a), 3) } else { (1000, ch.pick(&b)) };
            let (w, h) = ch.pick(&[(40u32, 34u32), (90, 70)]);
            let img = match ch.choose(3) {
                0 => GrayImage::from_fn(w, h, |x, y| Luma([if x % 6 == 3 && y % 6 == 3 { (x * 8 + y) as u8 } else { 0 }])),
                1 => gray_pat(8, w, h),
                _ => GrayImage::from_fn(w, h, |x, y| Luma([if (x / 7 + y / 9) % 2 == 1 { 200 } else { 20 }])),
            };
            let thr = ch.pick(&[Some(15), None]);
            check_oriented(ch, &img, thr, target as usize, edge, Some(7).filter(|_| thr.is_none()))
        });
    });
}

/// Whether the centre of the 7x7 image is reported.
fn fast_is_corner(img: &GrayImage, t: u8, v: Fast) -> bool {
    let c = match v {
        Fast::Nine => corners_fast9(img, t),
        Fast::Twelve => corners_fast12(img, t),
    };
    !c.is_empty()
}
