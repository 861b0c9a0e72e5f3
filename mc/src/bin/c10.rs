//! C10: distance transforms.
use image::*;
use imageproc::distance_transform::*;
use mc::*;

fn sq(img: &GrayImage) -> Vec<Option<(u64, u64, u64)>> {
    // per pixel (L1, LInf, squared L2) minima over the foreground
    let (w, h) = img.dimensions();
    let fg: Vec<(i64, i64)> = img.enumerate_pixels().filter(|p| p.2[0] != 0).map(|p| (p.0 as i64, p.1 as i64)).collect();
    let mut v = Vec::with_capacity((w * h) as usize);
    for y in 0..h as i64 {
        for x in 0..w as i64 {
            let mut m: Option<(u64, u64, u64)> = None;
            for &(a, b) in &fg {
                let (dx, dy) = ((x - a).unsigned_abs(), (y - b).unsigned_abs());
                let t = (dx + dy, dx.max(dy), dx * dx + dy * dy);
                m = Some(match m {
                    None => t,
                    Some(o) => (o.0.min(t.0), o.1.min(t.1), o.2.min(t.2)),
                });
            }
            v.push(m);
        }
    }
    v
}

fn ceil_sqrt(n: u64) -> u64 {
    let mut r = (n as f64).sqrt() as u64;
    while r * r < n {
        r += 1;
    }
    while r > 0 && (r - 1) * (r - 1) >= n {
        r -= 1;
    }
    r
}

fn check_all(ch: &mut Ch, img: &GrayImage) -> R {
    ch.log(|| show(img));
    ch.ops(4);
    let want = sq(img);
    let l1 = distance_transform(img, Norm::L1);
    let li = distance_transform(img, Norm::LInf);
    let l2 = distance_transform(img, Norm::L2);
    let e = euclidean_squared_distance_transform(img);
    for (o, n) in [(&l1, "L1"), (&li, "LInf"), (&l2, "L2")] {
        check!(o.dimensions() == img.dimensions(), "{n} dimensions");
    }
    check!(e.dimensions() == img.dimensions(), "squared dimensions");
    ch.observe_bytes(l1.as_raw());
    for (i, w) in want.iter().enumerate() {
        let at = (i as u32 % img.width(), i as u32 / img.width());
        match w {
            &Some((a, b, c)) => {
                check!(l1.as_raw()[i] as u64 == a.min(255), "L1 at {at:?}: {}, expected {}", l1.as_raw()[i], a.min(255));
                check!(li.as_raw()[i] as u64 == b.min(255), "LInf at {at:?}: {}, expected {}", li.as_raw()[i], b.min(255));
                check!(e.as_raw()[i] == c as f64, "squared L2 at {at:?}: {}, expected {c}", e.as_raw()[i]);
                let d = ceil_sqrt(c).min(255);
                check!(l2.as_raw()[i] as u64 == d, "L2 at {at:?}: {}, expected {d}", l2.as_raw()[i]);
            }
            None => {
                // without foreground every distance is infinite
                check!(e.as_raw()[i] == f64::INFINITY, "squared L2 without foreground: {}", e.as_raw()[i]);
                check!(l2.as_raw()[i] == 255, "L2 without foreground: {}", l2.as_raw()[i]);
            }
        }
    }
    Ok(())
}

fn main() {
    run("C10", |r| {
        r.section("tiny", "all binary images of area <=17 (thorough 22)", |ch| {
            let a = if ch.thorough { 22 } else { 17 };
            let (w, h) = shape(ch, 1, a, a);
            let mut img = gray(ch, w, h, &[0, 1]);
            // foreground is any non-zero value
            for (i, p) in img.iter_mut().enumerate() {
                if *p != 0 {
                    *p = [255, 1, 128, 2][i % 4];
                }
            }
            check_all(ch, &img)
        });
        r.section("one-per-column", "w x h images with at most one foreground pixel in each column, 7x5 (thorough 9x6), and transposed", |ch| {
            let (w, h) = if ch.thorough { (9, 6) } else { (7, 5) };
            let t = ch.flag();
            let mut img = if t { GrayImage::new(h, w) } else { GrayImage::new(w, h) };
            for c in 0..w {
                let k = ch.u(0, h);
                if k < h {
                    if t {
                        img.put_pixel(k, c, Luma([255]));
                    } else {
                        img.put_pixel(c, k, Luma([255]));
                    }
                }
            }
            check_all(ch, &img)
        });
        r.section("two-points", "large shapes, every single foreground pixel on a grid of positions plus an optional second one", |ch| {
            let (w, h) = ch.pick(&[(300u32, 2u32), (2, 300), (270, 3), (3, 280), (200, 120), (33, 33), (64, 40), (1, 600), (600, 1)]);
            let xs: Vec<u32> = { let mut v = vec![0, w / 3, w / 2, w - 1]; v.dedup(); v };
            let ys: Vec<u32> = { let mut v = vec![0, h / 3, h / 2, h - 1]; v.dedup(); v };
            let mut img = GrayImage::new(w, h);
            let p = (ch.pick(&xs), ch.pick(&ys));
            img.put_pixel(p.0, p.1, Luma([1]));
            if ch.flag() {
                let q = (ch.pick(&xs), ch.pick(&ys));
                img.put_pixel(q.0, q.1, Luma([255]));
            }
            check_all(ch, &img)
        });
        r.section("patterns", "threshold patterns on shapes up to 20x20", |ch| {
            let (w, h) = ch.pick(&[(7, 9), (13, 8), (20, 20), (31, 2), (2, 31), (17, 16)]);
            let k = ch.choose(NPAT);
            let t = ch.pick(&[60u8, 150, 245, 251]);
            let mut img = gray_pat(k, w, h);
            img.iter_mut().for_each(|p| *p = if *p > t { *p } else { 0 });
            check_all(ch, &img)
        });
        r.section("huge", "sides beyond 2^16, 1000x700: up to four foreground pixels in the corners and inside", |ch| {
            let (w, h) = huge_shape(ch);
            let mut img = GrayImage::new(w, h);
            let m = ch.u(1, 31);
            let ps = [(0, 0), (w - 1, 0), (0, h - 1), (w - 1, h - 1), (w / 3, h / 3)];
            for (i, p) in ps.iter().enumerate() {
                if m >> i & 1 == 1 {
                    img.put_pixel(p.0, p.1, Luma([1 + i as u8]));
                }
            }
            check_all(ch, &img)
        });
        r.section("degenerate", "empty shapes", |ch| {
            let (w, h) = ch.pick(&[(0, 0), (0, 4), (4, 0), (1, 1)]);
            check_all(ch, &GrayImage::new(w, h))
        });
        r.section("sizes", "every width and height 1..=70 and the neighbours of round sizes up to 1025: up to three foreground pixels, and dense images on the smaller shapes", |ch| {
            let (w, h) = sweep_shape(ch);
            let k = ch.choose(5);
            let img = GrayImage::from_fn(w, h, |x, y| {
                Luma([match k {
                    0 => (x == w - 1 && y == h - 1) as u8,
                    1 => (x == 0 && y == 0) as u8 * 255,
                    2 => ((x, y) == (w / 2, h / 2) || (x, y) == (w - 1, 0)) as u8,
                    3 => ((x, y) == (w / 5, h - 1) || (x, y) == (w * 4 / 5, 0) || (x, y) == (w / 3, h / 2)) as u8 * 9,
                    _ => (w * h < 1600 && pat(0, x, y, 0, w, h) > 225) as u8,
                }])
            });
            check_all(ch, &img)
        });
    });
}
