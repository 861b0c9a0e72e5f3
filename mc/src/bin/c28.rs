//! C28: flood fill.
use image::*;
use imageproc::drawing::*;
use mc::*;

fn reference<P: Pixel + PartialEq>(img: &Img<P>, x: u32, y: u32, f: P) -> Img<P> {
    let (w, h) = (img.width() as i64, img.height() as i64);
    let c = *img.get_pixel(x, y);
    let mut seen = vec![false; (w * h) as usize];
    let mut st = vec![(x as i64, y as i64)];
    seen[(y as i64 * w + x as i64) as usize] = true;
    let mut out = img.clone();
    while let Some((x, y)) = st.pop() {
        out.put_pixel(x as u32, y as u32, f);
        for (a, b) in [(x - 1, y), (x + 1, y), (x, y - 1), (x, y + 1)] {
            if a >= 0 && b >= 0 && a < w && b < h && !seen[(b * w + a) as usize] && *img.get_pixel(a as u32, b as u32) == c {
                seen[(b * w + a) as usize] = true;
                st.push((a, b));
            }
        }
    }
    out
}

fn one<P: Pixel + PartialEq + std::fmt::Debug>(ch: &mut Ch, img: &Img<P>, x: u32, y: u32, f: P) -> R
where
    P::Subpixel: std::fmt::Debug + PartialEq,
{
    ch.ops(3);
    ch.log(|| format!("seed ({x},{y}) fill {f:?} {}", show(img)));
    let before = img.clone();
    let o = flood_fill(img, x, y, f);
    check!(img.as_raw() == before.as_raw(), "the input image is changed");
    if let Some(d) = diff(&o, &reference(img, x, y, f)) {
        fail!("{d}");
    }
    let mut m = img.clone();
    flood_fill_mut(&mut m, x, y, f);
    check!(m.as_raw() == o.as_raw(), "in-place version differs");
    flood_fill_mut(&mut m, x, y, f);
    // the region may have grown into an equal-coloured neighbour, which already has the fill colour
    check!(m.as_raw() == o.as_raw(), "not idempotent");
    Ok(())
}

/// Two colours that differ in one channel by as little as the type allows.
fn typed<P>(ch: &mut Ch) -> R
where
    P: Pixel + PartialEq + std::fmt::Debug,
    P::Subpixel: Val,
{
    let l = P::Subpixel::ladder();
    let c = ch.choose(P::CHANNEL_COUNT as usize);
    let k = ch.choose(l.len() - 1);
    let mut a: P = tpix(ch.u(0, 1));
    a.channels_mut()[c] = l[k];
    let mut b = a;
    b.channels_mut()[c] = l[k + 1];
    ch.log(|| format!("{a:?} {b:?}"));
    for (w, h) in [(3u32, 2u32), (1, 4), (4, 1)] {
        for m in 0..1u32 << (w * h) {
            let img = Img::<P>::from_fn(w, h, |x, y| if m >> (x + y * w) & 1 == 1 { b } else { a });
            for s in [0, w - 1, w * h - 1] {
                one(ch, &img, s % w, s / w, if m & 2 == 0 { tpix(9) } else { b })?;
            }
        }
    }
    Ok(())
}

fn main() {
    run("C28", |r| {
        r.section("two-colours", "all binary images of area <=16 (thorough 18), every seed, fill colour equal to each colour or new", |ch| {
            let a = if ch.thorough { 18 } else { 16 };
            let (w, h) = shape(ch, 1, a, a);
            let img = gray(ch, w, h, &[0, 1]);
            ch.observe_bytes(img.as_raw());
            for s in 0..w * h {
                for f in [7u8, 0, 1] {
                    one(ch, &img, s % w, s / w, Luma([f]))?;
                }
            }
            Ok(())
        });
        r.section("three-colours", "all 3-coloured images of area <=9 (thorough 10), every seed", |ch| {
            let (w, h) = shape(ch, 1, 10, if ch.thorough { 10 } else { 9 });
            let img = img_of(ch, w, h, &[Rgb([0u8, 0, 0]), Rgb([0, 0, 1]), Rgb([0, 255, 0])]);
            let s = ch.u(0, w * h - 1);
            one(ch, &img, s % w, s / w, Rgb([0, 0, 2]))?;
            one(ch, &img, s % w, s / w, Rgb([0, 0, 1]))
        });
        r.section("wide", "all binary images 5x4 and 4x5 (thorough: 6x4, 4x6, 5x5), one seed in each corner and the middle", |ch| {
            let (w, h) = if ch.thorough { ch.pick(&[(6, 4), (4, 6), (5, 5)]) } else { ch.pick(&[(5, 4), (4, 5)]) };
            // the seed's colour is 0 by symmetry
            let img = gray(ch, w, h, &[0, 1]);
            for (x, y) in [(0, 0), (w - 1, 0), (0, h - 1), (w - 1, h - 1), (w / 2, h / 2)] {
                if img.get_pixel(x, y)[0] == 0 {
                    one(ch, &img, x, y, Luma([9]))?;
                }
            }
            Ok(())
        });
        r.section("mazes", "serpentines, combs, frames and patterns up to 40x33, seeds on a grid", |ch| {
            let (w, h) = ch.pick(&[(9, 7), (24, 20), (40, 33), (2, 31), (31, 2), (257, 3), (3, 257)]);
            let k = ch.choose(NPAT + 4);
            let img = if k < NPAT {
                let t = ch.pick(&[60u8, 150, 245]);
                let mut i = gray_pat(k, w, h);
                i.iter_mut().for_each(|p| *p = (*p > t) as u8);
                i
            } else {
                GrayImage::from_fn(w, h, |x, y| {
                    Luma([match k - NPAT {
                        0 => (x % 2 == 0 || y == h - 1) as u8,
                        1 => (x % 2 == 0 || (y == h - 1) != (x % 4 == 1)) as u8,
                        2 => (x.min(y).min(w - 1 - x).min(h - 1 - y) % 2) as u8,
                        _ => (y % 2 == 0 || (x == if y % 4 == 1 { w - 1 } else { 0 })) as u8,
                    }])
                })
            };
            let x = ch.choose(3) as u32 * (w - 1) / 2;
            let y = ch.choose(3) as u32 * (h - 1) / 2;
            one(ch, &img, x, y, Luma([200]))
        });
        r.section("huge", "plain images, serpentines, combs and spirals with sides beyond 2^8 and 2^16 and up to 700000 pixels", |ch| {
            let (w, h) = if ch.flag() { ch.pick(&[(300u32, 260u32), (520, 40), (40, 520)]) } else { huge_shape(ch) };
            let k = ch.choose(5);
            let img = GrayImage::from_fn(w, h, |x, y| {
                Luma([match k {
                    0 => 0,
                    1 => (x % 2 == 0 || y == h - 1) as u8,
                    2 => (x.min(y).min(w - 1 - x).min(h - 1 - y) % 2) as u8,
                    3 => (y % 2 == 0 || (x == if y % 4 == 1 { w - 1 } else { 0 })) as u8,
                    _ => (x % 2 == 0 || (y == if x % 4 == 1 { h - 1 } else { 0 })) as u8,
                }])
            });
            let (x, y) = ch.pick(&[(0, 0), (w - 1, h - 1), (w / 2, h / 2), (w - 1, 0)]);
            one(ch, &img, x, y, Luma([200]))
        });
        r.section("sizes", "every width and height 1..=70 and the neighbours of round sizes up to 1025: plain, serpentine, comb and noise images, three seeds", |ch| {
            let (w, h) = sweep_shape(ch);
            let k = ch.choose(5);
            let img = GrayImage::from_fn(w, h, |x, y| {
                Luma([match k {
                    0 => 0,
                    1 => (x % 2 == 0 || y == h - 1) as u8,
                    2 => (y % 2 == 0 || (x == if y % 4 == 1 { w - 1 } else { 0 })) as u8,
                    3 => (x % 2 == 0 || (y == if x % 4 == 1 { h - 1 } else { 0 })) as u8,
                    _ => (pat(0, x, y, 0, w, h) > 170) as u8,
                }])
            });
            for (x, y) in [(0, 0), (w / 2, h / 2), (w - 1, h - 1)] {
                one(ch, &img, x, y, Luma([200]))?;
            }
            Ok(())
        });
        r.section("types", "40 pixel types (grey, grey+alpha, RGB, RGBA of 8 to 64 bit, signed, unsigned and float): all images of two colours that just differ, in one channel", |ch| with_type!(ch, [u8, u16, u32, u64, i8, i16, i32, i64, f32, f64], typed(ch)));
    });
}
