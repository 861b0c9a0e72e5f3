//! C19: non-maximum suppression.
use image::*;
use imageproc::definitions::{Position, Score};
use imageproc::suppress::*;
use mc::*;

fn ref_nms<C: Primitive + Ord>(img: &Img<Luma<C>>, r: i64) -> Img<Luma<C>>
where
    Luma<C>: Pixel<Subpixel = C>,
{
    let (w, h) = img.dimensions();
    ImageBuffer::from_fn(w, h, |x, y| {
        let v = img.get_pixel(x, y)[0];
        let (x0, x1) = ((x as i64 - r).max(0) as u32, (x as i64 + r).min(w as i64 - 1) as u32);
        let (y0, y1) = ((y as i64 - r).max(0) as u32, (y as i64 + r).min(h as i64 - 1) as u32);
        for b in y0..=y1 {
            for a in x0..=x1 {
                let u = img.get_pixel(a, b)[0];
                if u > v || (u == v && (a, b) < (x, y)) {
                    return Luma([C::DEFAULT_MIN_VALUE - C::DEFAULT_MIN_VALUE]);
                }
            }
        }
        Luma([v])
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct It(u32, u32, f32);
impl Position for It {
    fn x(&self) -> u32 {
        self.0
    }
    fn y(&self) -> u32 {
        self.1
    }
}
impl Score for It {
    fn score(&self) -> f32 {
        self.2
    }
}

fn ref_max(ts: &[It], r: i64) -> Vec<It> {
    let mut v: Vec<It> = ts
        .iter()
        .filter(|t| {
            ts.iter().all(|c| {
                let near = (c.0 as i64 - t.0 as i64).abs() <= r && (c.1 as i64 - t.1 as i64).abs() <= r;
                !near || c.2 < t.2 || (c.2 == t.2 && (c.1, c.0) >= (t.1, t.0))
            })
        })
        .copied()
        .collect();
    key(&mut v);
    v
}
fn key(v: &mut [It]) {
    v.sort_by(|a, b| (a.1, a.0).cmp(&(b.1, b.0)).then(a.2.total_cmp(&b.2)));
}

fn list(ch: &mut Ch, ts: &[It], r: u32) -> R {
    ch.op();
    ch.log(|| format!("radius {r} {ts:?}"));
    let mut g = local_maxima(ts, r);
    key(&mut g);
    let w = ref_max(ts, r as i64);
    ch.observe(g.len() as u64);
    check!(g == w, "local_maxima({ts:?}, {r}) = {g:?}, expected {w:?}");
    Ok(())
}

/// Values of one type that just differ, at every magnitude; plain images and sub-image views.
fn typed<T>(ch: &mut Ch) -> R
where
    T: Val + Ord,
{
    let l = T::ladder();
    let k = ch.choose(l.len() - 2);
    let (w, h) = ch.pick(&[(3, 2), (2, 3), (6, 1), (1, 6), (2, 2)]);
    let img: Img<Luma<T>> = img_of(ch, w, h, &[Luma([l[k]]), Luma([l[k + 1]]), Luma([l[k + 2]])]);
    ch.log(|| format!("{} {}", T::NAME, show(&img)));
    for r in [0, 1, 2, 70_000] {
        ch.ops(2);
        let e = ref_nms(&img, r as i64);
        if let Some(d) = tdiff(&suppress_non_maximum(&img, r), &e) {
            fail!("radius {r} {d}");
        }
        let mut outer: Img<Luma<T>> = ImageBuffer::from_pixel(w + 3, h + 2, Luma([T::DEFAULT_MAX_VALUE]));
        imageops::replace(&mut outer, &img, 2, 1);
        if let Some(d) = tdiff(&suppress_non_maximum(&*outer.sub_image(2, 1, w, h), r), &e) {
            fail!("sub-image view, radius {r} {d}");
        }
    }
    Ok(())
}

fn main() {
    run("C19", |r| {
        r.section("images", "all images of area <=10 (thorough 11) over {0,1,2}, radius 0..=4", |ch| {
            let a = if ch.thorough { 11 } else { 10 };
            let (w, h) = shape(ch, 1, a, a);
            let img = gray(ch, w, h, &[0, 1, 2]);
            let rad = ch.u(0, 4);
            ch.op();
            ch.log(|| format!("radius {rad} {}", show(&img)));
            let o = suppress_non_maximum(&img, rad);
            ch.observe_bytes(o.as_raw());
            if let Some(d) = diff(&o, &ref_nms(&img, rad as i64)) {
                fail!("{d}");
            }
            Ok(())
        });
        r.section("binary-images", "all binary images of area <=17 (thorough 22), radius 1..=3 and more than the image", |ch| {
            let a = if ch.thorough { 22 } else { 17 };
            let (w, h) = shape(ch, 1, a, a);
            if w * h <= 8 {
                return ch.reject();
            }
            let img = gray(ch, w, h, &[0, 9]);
            let rad = ch.pick(&[1, 2, 3, 30]);
            ch.op();
            ch.log(|| format!("radius {rad} {}", show(&img)));
            let o = suppress_non_maximum(&img, rad);
            if let Some(d) = diff(&o, &ref_nms(&img, rad as i64)) {
                fail!("{d}");
            }
            Ok(())
        });
        r.section("patterns", "patterns (8, 16 and signed 32-bit) on shapes up to 24x24, radius up to 8 and huge", |ch| {
            let (w, h) = ch.pick(&[(7, 9), (13, 8), (24, 24), (31, 2), (2, 31), (64, 5)]);
            let k = ch.choose(NPAT);
            let q = ch.pick(&[1u8, 50]);
            let rad = ch.pick(&[0, 1, 2, 3, 4, 5, 8, 100, 1 << 30, u32::MAX]);
            let rr = rad.min(1000) as i64;
            ch.ops(3);
            let mut img = gray_pat(k, w, h);
            img.iter_mut().for_each(|p| *p /= q);
            if let Some(d) = diff(&suppress_non_maximum(&img, rad), &ref_nms(&img, rr)) {
                fail!("u8 pattern {k} /{q} radius {rad} {w}x{h}: {d}");
            }
            let i16 = ImageBuffer::<Luma<u16>, Vec<u16>>::from_fn(w, h, |x, y| Luma([img.get_pixel(x, y)[0] as u16 * 250]));
            if let Some(d) = diff(&suppress_non_maximum(&i16, rad), &ref_nms(&i16, rr)) {
                fail!("u16 pattern {k} radius {rad} {w}x{h}: {d}");
            }
            let i32i = ImageBuffer::<Luma<i32>, Vec<i32>>::from_fn(w, h, |x, y| Luma([img.get_pixel(x, y)[0] as i32 * 1000 - 120_000]));
            let o = suppress_non_maximum(&i32i, rad);
            let zero = 0;
            for (x, y, p) in o.enumerate_pixels() {
                // negative values: kept pixels keep their value, others are zero
                let v = i32i.get_pixel(x, y)[0];
                let m = (0..h).flat_map(|b| (0..w).map(move |a| (a, b))).all(|(a, b)| {
                    let near = (a as i64 - x as i64).abs() <= rr && (b as i64 - y as i64).abs() <= rr;
                    let u = i32i.get_pixel(a, b)[0];
                    !near || u < v || (u == v && (a, b) >= (x, y))
                });
                check!(p[0] == if m { v } else { zero }, "i32 pattern {k} radius {rad} at ({x},{y}): {}", p[0]);
            }
            Ok(())
        });
        r.section("lists", "all lists of <=5 (thorough 6) items on a 3x3 grid (duplicates allowed) with scores {1,2}, in every order, radius 0..=3", |ch| {
            let n = ch.choose(if ch.thorough { 7 } else { 6 });
            let mut ts = vec![];
            for _ in 0..n {
                let k = ch.choose(18);
                ts.push(It(k as u32 % 3, (k as u32 / 3) % 3, 1.0 + (k / 9) as f32));
            }
            let rad = ch.u(0, 3);
            list(ch, &ts, rad)
        });
        r.section("grids", "all subsets of a 4x3 grid of items with scores from 3 patterns (one constant), radius 0..=3, listed in row order or reversed", |ch| {
            let p = ch.choose(3);
            let rad = ch.u(0, 3);
            let rev = ch.flag();
            let mut ts = vec![];
            for y in 0..3u32 {
                for x in 0..4u32 {
                    if ch.flag() {
                        let s = match p {
                            0 => 1.0,
                            1 => ((x * 7 + y * 5) % 4) as f32 - 1.5,
                            _ => (x + 4 * y) as f32,
                        };
                        ts.push(It(x + 5, y * 2 + 1, s));
                    }
                }
            }
            if rev {
                ts.reverse();
            }
            list(ch, &ts, rad)
        });
        r.section("large-images", "images with sides beyond 2^8 and 2^16 and with thousands of candidates, radius up to 40", |ch| {
            let rad = ch.pick(&[1u32, 2, 3, 7, 12, 16, 20, 40]);
            let k = ch.choose(3);
            let (w, h) = ch.pick(&[(60u32, 50u32), (300, 20), (20, 300), (260, 257), (66000, 3), (3, 66000)]);
            let img = ImageBuffer::<Luma<u32>, Vec<u32>>::from_fn(w, h, |x, y| {
                Luma([match k {
                    // sparse peaks
                    0 => if (x * 31 + y * 17) % 53 == 0 { 1 + (x * 7 + y * 3) % 11 } else { 0 },
                    // dense pseudo-random
                    1 => (x.wrapping_mul(2654435761) ^ y.wrapping_mul(40503).rotate_left(7)).wrapping_mul(2246822519) >> 12,
                    // a slope: one maximum per border
                    _ => x + y * 3,
                }])
            });
            ch.op();
            ch.log(|| format!("pattern {k} {w}x{h} radius {rad}"));
            // the reference stops at the first larger neighbour, so only peaks cost a full window
            if let Some(d) = diff(&suppress_non_maximum(&img, rad), &ref_nms(&img, rad as i64)) {
                fail!("{d}");
            }
            Ok(())
        });
        r.section("long-lists", "lists of up to 3000 items on up to 5000 columns (many per row, runs of empty rows, duplicates), radius up to 300, in row order, reversed or shuffled", |ch| {
            let n = ch.pick(&[40u32, 257, 1000, 3000]);
            let rad = ch.pick(&[0u32, 1, 2, 5, 17, 60, 300]);
            let k = ch.choose(4);
            let order = ch.choose(3);
            let mut ts: Vec<It> = (0..n)
                .map(|i| {
                    let h = (i + 1).wrapping_mul(2654435761).rotate_left(9) ^ i.wrapping_mul(40503);
                    match k {
                        0 => It(h % 60, (h >> 8) % 50, ((h >> 16) % 5) as f32),
                        1 => It(h % 5000, (h >> 14) % 4, ((h >> 3) % 97) as f32 - 40.0),
                        2 => It((h >> 5) % 3, h % 5000, ((h >> 3) % 97) as f32 / 3.0),
                        _ => It(h % 700, (h >> 10) % 700 * 9, 1.0),
                    }
                })
                .collect();
            match order {
                0 => ts.sort_by_key(|t| (t.1, t.0)),
                1 => ts.sort_by_key(|t| std::cmp::Reverse((t.1, t.0))),
                _ => {}
            }
            list(ch, &ts, rad).map_err(|_| Fail::from(format!("{n} items, pattern {k}, order {order}, radius {rad}")))
        });
        r.section("far", "items near the ends of the coordinate range, huge radii", |ch| {
            let mut ts = vec![];
            for (x, y) in [(0u32, 0u32), (1 << 31, 3), (u32::MAX, 5), (7, 9)] {
                if ch.flag() {
                    ts.push(It(x, y, ch.choose(2) as f32));
                }
            }
            let rad = ch.pick(&[0, 1, 100, 1 << 30, u32::MAX - 1, u32::MAX]);
            list(ch, &ts, rad)
        });
        r.section("empty", "empty images", |ch| {
            let (w, h) = ch.pick(&[(0, 0), (0, 4), (4, 0)]);
            let o = suppress_non_maximum(&GrayImage::new(w, h), ch.u(0, 3));
            check!(o.dimensions() == (w, h), "dimensions");
            Ok(())
        });
        r.section("sizes", "every width and height 1..=70 and the neighbours of round sizes up to 1025; radius 0, 1, 2, 5; dense, sparse and constant images", |ch| {
            let (w, h) = sweep_shape(ch);
            let rad = ch.pick(&[0u32, 1, 2, 5]);
            let k = ch.choose(3);
            let img = GrayImage::from_fn(w, h, |x, y| {
                Luma([match k {
                    0 => pat(0, x, y, 0, w, h),
                    1 => ((x * 31 + y * 17) % 13 == 0) as u8 * (1 + (x * 7 + y * 3) % 11) as u8,
                    _ => 8,
                }])
            });
            ch.op();
            ch.log(|| format!("pattern {k} {w}x{h} radius {rad}"));
            if let Some(d) = diff(&suppress_non_maximum(&img, rad), &ref_nms(&img, rad as i64)) {
                fail!("{d}");
            }
            Ok(())
        });
        r.section("types", "all integer types: all images of area <=6 over three values that just differ, at every magnitude, also as sub-image views", |ch| with_luma!(ch, [u8, u16, u32, u64, i8, i16, i32, i64], typed(ch)));
        r.section("radii", "every radius up to 300 and around powers of two up to 2^17: two peaks in a row, a column or on a diagonal at every distance within 1 of the radius, rising, falling and equal, at 4 offsets", |ch| {
            let r = ch.pick(&(1..=300u32).chain([510, 511, 512, 1023, 1024, 4095, 4096, 32767, 32768, 65535, 65536, 65537, 131071]).collect::<Vec<_>>());
            let d = r - 1 + ch.u(0, 2);
            let dir = ch.choose(4);
            if d == 0 || (dir >= 2 && r > 300) {
                return ch.reject();
            }
            let (va, vb) = ch.pick(&[(5u32, 9u32), (9, 5), (7, 7)]);
            let off = ch.pick(&[0, 1, r / 2, r]);
            let (w, h, a, b) = match dir {
                0 => (off + d + 2, 1, (off, 0), (off + d, 0)),
                1 => (1, off + d + 2, (0, off), (0, off + d)),
                2 => (off + d + 1, d + 1, (off, 0), (off + d, d)),
                _ => (off + d + 1, d + 2, (off, d), (off + d, 1)),
            };
            let mut img = Img::<Luma<u32>>::new(w, h);
            img.put_pixel(a.0, a.1, Luma([va]));
            img.put_pixel(b.0, b.1, Luma([vb]));
            ch.op();
            ch.log(|| format!("radius {r} {w}x{h} {va} at {a:?} {vb} at {b:?}"));
            let near = a.0.abs_diff(b.0).max(a.1.abs_diff(b.1)) <= r;
            let o = suppress_non_maximum(&img, r);
            check!(o.dimensions() == (w, h), "dimensions");
            for (x, y, p) in o.enumerate_pixels() {
                let e = if (x, y) == a && !(near && (vb > va || (vb == va && b < a))) {
                    va
                } else if (x, y) == b && !(near && (va > vb || (vb == va && a < b))) {
                    vb
                } else {
                    0
                };
                check!(p[0] == e, "radius {r}: {va} at {a:?} and {vb} at {b:?} in {w}x{h}: ({x},{y}) is {}, expected {e}", p[0]);
            }
            // and as a list
            let ts = [It(a.0, a.1, va as f32), It(b.0, b.1, vb as f32)];
            list(ch, &ts, r)
        });
    });
}
