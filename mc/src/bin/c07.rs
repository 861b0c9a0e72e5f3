//! C07: thresholding.
use image::*;
use imageproc::contrast::*;
use mc::*;

fn hist_image(counts: &[(u8, u32)]) -> GrayImage {
    let v: Vec<u8> = counts.iter().flat_map(|&(l, n)| std::iter::repeat(l).take(n as usize)).collect();
    GrayImage::from_raw(v.len() as u32, 1, v).unwrap()
}

fn class_variance(h: &[u64; 256], t: usize) -> f64 {
    let (mut n0, mut s0, mut n1, mut s1) = (0u64, 0u64, 0u64, 0u64);
    for i in 0..256 {
        if i <= t {
            n0 += h[i];
            s0 += h[i] * i as u64;
        } else {
            n1 += h[i];
            s1 += h[i] * i as u64;
        }
    }
    if n0 == 0 || n1 == 0 {
        return 0.0;
    }
    let d = s0 as f64 / n0 as f64 - s1 as f64 / n1 as f64;
    n0 as f64 * n1 as f64 * d * d
}

/// Sum of the entropies of both classes; None if a class is empty.
fn class_entropy(h: &[u64; 256], t: usize) -> Option<f64> {
    let e = |r: std::ops::Range<usize>| -> Option<f64> {
        let n: u64 = h[r.clone()].iter().sum();
        if n == 0 {
            return None;
        }
        Some(h[r].iter().filter(|&&c| c > 0).map(|&c| {
            let p = c as f64 / n as f64;
            -p * p.ln()
        }).sum())
    };
    Some(e(0..t + 1)? + e(t + 1..256)?)
}

fn levels(ch: &mut Ch, img: &GrayImage) -> R {
    let mut h = [0u64; 256];
    for &v in img.as_raw() {
        h[v as usize] += 1;
    }
    ch.ops(2);
    let o = otsu_level(img) as usize;
    let best = (0..256).map(|t| class_variance(&h, t)).fold(0.0, f64::max);
    check!(class_variance(&h, o) >= best * (1.0 - 1e-9), "otsu level {o}: variance {} but {best} is attainable", class_variance(&h, o));
    let k = kapur_level(img) as usize;
    let best = (0..256).filter_map(|t| class_entropy(&h, t)).fold(f64::NEG_INFINITY, f64::max);
    if best > f64::NEG_INFINITY {
        let Some(e) = class_entropy(&h, k) else {
            fail!("kapur level {k} leaves a class empty although entropy {best} is attainable");
        };
        check!(e >= best - 1e-9, "kapur level {k}: entropy {e} but {best} is attainable");
    }
    ch.observe((o * 256 + k) as u64);
    Ok(())
}

fn adaptive(img: &GrayImage, radius: u32, delta: i32) -> R {
    let got = adaptive_threshold(img, radius, delta);
    let (w, h) = img.dimensions();
    check!(got.dimensions() == (w, h), "dimensions");
    let r = radius as i64;
    for y in 0..h as i64 {
        for x in 0..w as i64 {
            let (mut s, mut n) = (0u64, 0u64);
            for b in (y - r).max(0)..=(y + r).min(h as i64 - 1) {
                for a in (x - r).max(0)..=(x + r).min(w as i64 - 1) {
                    s += img.get_pixel(a as u32, b as u32)[0] as u64;
                    n += 1;
                }
            }
            let p = img.get_pixel(x as u32, y as u32)[0] as i64;
            let e = if p >= (s / n) as i64 - delta as i64 { 255 } else { 0 };
            let g = got.get_pixel(x as u32, y as u32)[0];
            check!(g == e, "adaptive_threshold at ({x},{y}): {g}, expected {e} (pixel {p}, mean {}, delta {delta})", s / n);
        }
    }
    Ok(())
}

/// `adaptive` with the block sums taken from prefix sums, for large images.
fn adaptive_large(img: &GrayImage, radius: u32, delta: i32) -> R {
    let got = adaptive_threshold(img, radius, delta);
    let (w, h) = (img.width() as usize, img.height() as usize);
    check!(got.dimensions() == img.dimensions(), "dimensions");
    let mut s = vec![0i64; (w + 1) * (h + 1)];
    for y in 0..h {
        for x in 0..w {
            s[(y + 1) * (w + 1) + x + 1] = img.as_raw()[y * w + x] as i64 + s[y * (w + 1) + x + 1] + s[(y + 1) * (w + 1) + x] - s[y * (w + 1) + x];
        }
    }
    let r = radius as usize;
    for y in 0..h {
        let (t, b) = (y.saturating_sub(r), (y + r).min(h - 1) + 1);
        for x in 0..w {
            let (l, q) = (x.saturating_sub(r), (x + r).min(w - 1) + 1);
            let sum = s[b * (w + 1) + q] - s[t * (w + 1) + q] - s[b * (w + 1) + l] + s[t * (w + 1) + l];
            let mean = sum / ((b - t) * (q - l)) as i64;
            let p = img.as_raw()[y * w + x] as i64;
            let e = if p >= mean - delta as i64 { 255 } else { 0 };
            let g = got.as_raw()[y * w + x];
            check!(g == e, "adaptive_threshold(radius {radius}) at ({x},{y}): {g}, expected {e} (pixel {p}, mean {mean}, delta {delta})");
        }
    }
    Ok(())
}

fn main() {
    run("C07", |r| {
        r.section("threshold", "all 256 thresholds x 256 values x 5 modes, both variants, 3 shapes", |ch| {
            let t = ch.u(0, 255) as u8;
            let mode = ch.choose(5);
            let (w, h) = ch.pick(&[(16u32, 16u32), (256, 1), (1, 256)]);
            let img = GrayImage::from_raw(w, h, (0..=255).collect()).unwrap();
            let ty = || match mode {
                0 => ThresholdType::Binary,
                1 => ThresholdType::BinaryInverted,
                2 => ThresholdType::Truncate,
                3 => ThresholdType::ToZero,
                _ => ThresholdType::ToZeroInverted,
            };
            ch.log(|| format!("mode {mode} threshold {t} {w}x{h}"));
            ch.ops(2);
            let a = threshold(&img, t, ty());
            let mut b = img.clone();
            threshold_mut(&mut b, t, ty());
            check!(a == b, "variants differ");
            check!(a.dimensions() == (w, h), "dimensions");
            ch.observe_bytes(a.as_raw());
            let rule = |v: u8, mode: usize| match (mode, v > t) {
                (0, true) => 255,
                (0, false) => 0,
                (1, true) => 0,
                (1, false) => 255,
                (2, true) => t,
                (2, false) => v,
                (3, true) => v,
                (3, false) => 0,
                (_, true) => 0,
                (_, false) => v,
            };
            let want: Vec<u8> = (0..=255).map(|v| rule(v, mode)).collect();
            if a.as_raw() != &want {
                let swapped: Vec<u8> = (0..=255).map(|v| rule(v, 7 - mode)).collect();
                let i = (0..256).find(|&i| a.as_raw()[i] != want[i]).unwrap();
                let msg = format!("mode {mode} threshold {t}: value {i} became {}, documented {}", a.as_raw()[i], want[i]);
                if mode >= 3 && a.as_raw() == &swapped {
                    known!(if mode == 3 { "to-zero-does-what-inverted-documents" } else { "to-zero-inverted-does-what-to-zero-documents" }, "{msg}");
                }
                fail!("{msg}");
            }
            Ok(())
        });
        r.section("adaptive-tiny", "all images of area<=8 (thorough 10) over {0,3,255}, radius 1..=4, deltas", |ch| {
            let a = if ch.thorough { 10 } else { 8 };
            let (w, h) = shape(ch, 1, a, a);
            let (radius, delta) = (ch.u(1, 4), ch.pick(&[0, 1, -1, 2, -2, 10, -10, 255, -255, 256, -256]));
            let img = gray(ch, w, h, &[0, 3, 255]);
            ch.log(|| format!("radius {radius} delta {delta} {}", show(&img)));
            ch.observe_bytes(img.as_raw());
            ch.op();
            adaptive(&img, radius, delta)
        });
        r.section("adaptive-sweep", "all shapes 1..=8 squared and larger ones x patterns + impulses, radius 1..=10, deltas", |ch| {
            let big = ch.flag();
            let (w, h) = if big { large_shape(ch) } else { (ch.u(1, 8), ch.u(1, 8)) };
            let radius = ch.pick(&[1u32, 2, 3, 5, 10]);
            let delta = ch.pick(&[0, 7, -7]);
            let img = if big { gray_pat(ch.choose(NPAT), w, h) } else { gray_family(ch, w, h) };
            ch.log(|| format!("radius {radius} delta {delta} {}", show(&img)));
            ch.op();
            adaptive(&img, radius, delta)
        });
        r.section("levels-histograms", "all histograms with counts 0..=3 on 8 levels (256 levels' ends, middle, neighbours)", |ch| {
            let ls = [0u8, 1, 2, 100, 127, 128, 254, 255];
            let mut counts = vec![];
            let top = if ch.thorough { 4 } else { 3 };
            for l in ls {
                counts.push((l, ch.u(0, top)));
            }
            if counts.iter().all(|c| c.1 == 0) {
                return ch.reject();
            }
            ch.log(|| format!("histogram {counts:?}"));
            levels(ch, &hist_image(&counts))
        });
        r.section("levels-skewed", "all histograms with counts 0, 1, 3, 40, 900 (thorough: 7 counts up to 5000) on 5 levels, three choices of levels", |ch| {
            let ls = ch.pick(&[[0u8, 1, 2, 3, 4], [3, 10, 11, 200, 255], [0, 60, 128, 129, 254]]);
            let ns: &[u32] = if ch.thorough { &[0, 1, 2, 3, 40, 900, 5000] } else { &[0, 1, 3, 40, 900] };
            let mut counts = vec![];
            for l in ls {
                counts.push((l, ch.pick(ns)));
            }
            if counts.iter().all(|c| c.1 == 0) {
                return ch.reject();
            }
            ch.log(|| format!("histogram {counts:?}"));
            levels(ch, &hist_image(&counts))
        });
        r.section("levels-pairs", "all pairs of levels 0..=255 with 3 weightings, plus a third level (quick: for equal weights; thorough: three third levels)", |ch| {
            let a = ch.u(0, 255) as u8;
            let b = ch.u(0, 255) as u8;
            let (n, m) = ch.pick(&[(1u32, 1u32), (1, 40), (37, 2)]);
            let cs = [None, Some(90u8), Some(0), Some(255)];
            let c = cs[ch.choose(if ch.thorough { 4 } else if n == 1 && m == 1 { 2 } else { 1 })];
            let mut v = vec![(a, n), (b, m)];
            if let Some(c) = c {
                v.push((c, 5));
            }
            ch.log(|| format!("histogram {v:?}"));
            levels(ch, &hist_image(&v))
        });
        r.section("levels-images", "pattern family on larger shapes", |ch| {
            let (w, h) = large_shape(ch);
            let k = ch.choose(NPAT);
            ch.log(|| format!("{w}x{h} pattern {k}"));
            levels(ch, &gray_pat(k, w, h))
        });
        r.section("adaptive-huge", "images with a side beyond 2^16 or 700000 pixels, and one of more than 2^32 / 255 pixels; radius 1, 40, 300, 33000, 70000", |ch| {
            let (w, h) = if ch.flag() { huge_shape(ch) } else { (4300, 4000) };
            let radius = ch.pick(&[1u32, 40, 300, 33000, 70000]);
            let delta = ch.pick(&[0, 3]);
            let k = ch.pick(&[0, 2, 5]);
            if w == 4300 && (radius % 2 == 1 || k == 2 || delta == 0) {
                return ch.reject();
            }
            ch.log(|| format!("{w}x{h} pattern {k} radius {radius} delta {delta}"));
            ch.op();
            adaptive_large(&gray_pat(k, w, h), radius, delta)
        });
        r.section("levels-huge", "histograms of 17 million pixels: two or three levels with shares from 1 pixel to all but one, and patterns", |ch| {
            let (w, h) = (4300u32, 4000u32);
            let n = (w * h) as usize;
            let img = if ch.flag() {
                gray_pat(ch.pick(&[0usize, 2, 9]), w, h)
            } else {
                let (a, b, c) = ch.pick(&[(10u8, 200u8, 90u8), (255, 254, 253), (0, 1, 255)]);
                let m = ch.pick(&[1, 70000, n / 2, n - 1]);
                let l = ch.pick(&[0, 66000]);
                let mut v = vec![b; n];
                v[..m].fill(a);
                v[n - l..].fill(c);
                GrayImage::from_raw(w, h, v).unwrap()
            };
            levels(ch, &img)
        });
        r.section("sizes", "every width and height 1..=70 and the neighbours of round sizes up to 1025: adaptive threshold with radius 1, 2, 7 and 40, Otsu and Kapur levels, plain thresholds", |ch| {
            let (w, h) = sweep_shape(ch);
            let k = ch.pick(&[0usize, 7, 9]);
            let img = gray_pat(k, w, h);
            ch.log(|| format!("{w}x{h} pattern {k}"));
            ch.ops(5);
            for (radius, delta) in [(1, 0), (2, 5), (7, -5), (40, 1)] {
                adaptive_large(&img, radius, delta)?;
            }
            let t = threshold(&img, 99, ThresholdType::Binary);
            check!(t.dimensions() == (w, h), "threshold dimensions");
            check!(t.as_raw().iter().zip(img.as_raw()).all(|(&a, &b)| a == if b > 99 { 255 } else { 0 }), "binary threshold 99");
            let t = threshold(&img, 99, ThresholdType::Truncate);
            check!(t.as_raw().iter().zip(img.as_raw()).all(|(&a, &b)| a == b.min(99)), "truncating threshold 99");
            levels(ch, &img)
        });
        r.section("adaptive-radii", "9 shapes x block radii 1..=300 and 2^k - 1, 2^k, 2^k + 1 up to 2^32 - 1 x deltas 0, 7, -7", |ch| {
            let (w, h) = ch.pick(&[(1u32, 1u32), (5, 3), (30, 4), (4, 30), (70, 1), (1, 70), (17, 19), (300, 2), (3, 290)]);
            let img = gray_pat(ch.pick(&[0, 7]), w, h);
            let mut radii: Vec<u32> = (1..=300).collect();
            for k in 8..32 {
                radii.extend([(1u32 << k) - 1, 1 << k, (1 << k) + 1]);
            }
            radii.extend([u32::MAX - 1, u32::MAX]);
            for radius in radii {
                for delta in [0, 7, -7] {
                    ch.op();
                    adaptive_large(&img, radius, delta)?;
                }
            }
            Ok(())
        });
        r.section("delta-ladder", "adaptive threshold with every delta -300..=300 and around powers of two up to the limits of i32, radius 1, 2 and 9, 7 images that hold many levels or a single different pixel", |ch| {
            let mut l: Vec<i32> = ladder(300, i32::MAX as u32).into_iter().flat_map(|v| [v as i32, -(v as i32)]).collect();
            l.extend([i32::MIN + 255, i32::MAX - 1]);
            let delta = ch.pick(&l);
            let radius = ch.pick(&[1, 2, 9]);
            let img = match ch.choose(7) {
                0 => gray_pat(0, 9, 7),
                1 => gray_pat(6, 7, 8),
                2 => GrayImage::from_fn(16, 16, |x, y| Luma([(x * 16 + y) as u8])),
                3 => GrayImage::from_fn(20, 3, |x, _| Luma([if x % 2 == 0 { x as u8 } else { 255 - x as u8 }])),
                4 => GrayImage::from_pixel(3, 3, Luma([255])),
                k => GrayImage::from_fn(19, 19, |x, y| Luma([if (x == 9 && y == 9) == (k == 5) { 255 } else { 0 }])),
            };
            ch.op();
            ch.log(|| format!("radius {radius} delta {delta} {}", show(&img)));
            catching(|| adaptive(&img, radius, delta))?
        });
    })
}
