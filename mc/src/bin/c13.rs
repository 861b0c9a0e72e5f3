//! C13: connected components.
use image::*;
use imageproc::region_labelling::*;
use mc::*;

fn reference<P: Pixel + Eq>(img: &Img<P>, conn: Connectivity, bg: P) -> Vec<u32> {
    let (w, h) = (img.width() as i64, img.height() as i64);
    let mut lab = vec![0u32; (w * h) as usize];
    let mut next = 0;
    for s in 0..(w * h) as usize {
        let c = *img.get_pixel((s as i64 % w) as u32, (s as i64 / w) as u32);
        if c == bg || lab[s] != 0 {
            continue;
        }
        next += 1;
        let mut st = vec![s];
        lab[s] = next;
        while let Some(p) = st.pop() {
            let (x, y) = (p as i64 % w, p as i64 / w);
            for dy in -1..=1 {
                for dx in -1..=1i64 {
                    if conn == Connectivity::Four && dx != 0 && dy != 0 {
                        continue;
                    }
                    let (a, b) = (x + dx, y + dy);
                    if a < 0 || b < 0 || a >= w || b >= h {
                        continue;
                    }
                    let q = (b * w + a) as usize;
                    if lab[q] == 0 && *img.get_pixel(a as u32, b as u32) == c {
                        lab[q] = next;
                        st.push(q);
                    }
                }
            }
        }
    }
    lab
}

fn check_one<P: Pixel + Eq + std::fmt::Debug>(ch: &mut Ch, img: &Img<P>, bg: P) -> R {
    for conn in [Connectivity::Four, Connectivity::Eight] {
        ch.op();
        let out = connected_components(img, conn, bg);
        check!(out.dimensions() == img.dimensions(), "{conn:?} dimensions");
        let want = reference(img, conn, bg);
        let n = want.iter().max().copied().unwrap_or(0);
        // same partition, labels a permutation of 1..=n
        let mut map = vec![0u32; n as usize + 1];
        let mut used = vec![false; n as usize + 1];
        for (i, (&g, &e)) in out.as_raw().iter().zip(&want).enumerate() {
            check!((g == 0) == (e == 0), "{conn:?} pixel {i} labelled {g}, background: {}", e == 0);
            if e == 0 {
                continue;
            }
            check!(g <= n, "{conn:?} label {g} with only {n} components");
            if map[e as usize] == 0 {
                check!(!used[g as usize], "{conn:?} label {g} is used for two components");
                used[g as usize] = true;
                map[e as usize] = g;
            }
            check!(map[e as usize] == g, "{conn:?} one component has labels {} and {g}", map[e as usize]);
        }
        ch.observe(n as u64 ^ (out.as_raw().iter().fold(7u64, |a, &b| a.wrapping_mul(31) + b as u64)) << 8);
    }
    Ok(())
}

/// Three colours that differ in one channel by as little as the type allows.
fn typed<P>(ch: &mut Ch) -> R
where
    P: Pixel + Eq + std::fmt::Debug,
    P::Subpixel: Val,
{
    let l = P::Subpixel::ladder();
    let c = ch.choose(P::CHANNEL_COUNT as usize);
    let k = ch.choose(l.len() - 2);
    let mut a: P = tpix(3);
    a.channels_mut()[c] = l[k];
    let (mut b, mut d) = (a, a);
    b.channels_mut()[c] = l[k + 1];
    d.channels_mut()[c] = l[k + 2];
    ch.log(|| format!("{a:?} {b:?} {d:?}"));
    for (w, h) in [(3u32, 2u32), (2, 3)] {
        for m in 0..3u32.pow(w * h) {
            let img = Img::<P>::from_fn(w, h, |x, y| [a, b, d][(m / 3u32.pow(x + y * w) % 3) as usize]);
            check_one(ch, &img, [b, a, d, tpix(8)][(m % 4) as usize])?;
            if m % 32 == 5 {
                let mut outer: Img<P> = ImageBuffer::from_pixel(w + 3, h + 4, b);
                imageops::replace(&mut outer, &img, 2, 1);
                let v = connected_components(&*outer.sub_image(2, 1, w, h), Connectivity::Eight, a);
                check!(v == connected_components(&img, Connectivity::Eight, a), "labels of a sub-image view");
            }
        }
    }
    Ok(())
}

fn main() {
    run("C13", |r| {
        r.section("two-colours", "all binary images of area <=17 (thorough 22), both connectivities", |ch| {
            let a = if ch.thorough { 22 } else { 17 };
            let (w, h) = shape(ch, 1, a, a);
            let img = gray(ch, w, h, &[0, 200]);
            ch.log(|| show(&img));
            check_one(ch, &img, Luma([0]))
        });
        r.section("three-colours", "all 3-coloured images of area <=10 (thorough 13), background first or last colour", |ch| {
            let a = if ch.thorough { 13 } else { 10 };
            let (w, h) = shape(ch, 1, a, a);
            let img = gray(ch, w, h, &[0, 1, 255]);
            ch.log(|| show(&img));
            check_one(ch, &img, Luma([0]))?;
            check_one(ch, &img, Luma([255]))
        });
        r.section("four-colours", "all 4-coloured images of area <=8 (thorough 9), with no background colour present", |ch| {
            let a = if ch.thorough { 9 } else { 8 };
            let (w, h) = shape(ch, 1, a, a);
            let img = img_of(ch, w, h, &[Rgb([0u8, 0, 0]), Rgb([1, 0, 0]), Rgb([0, 1, 0]), Rgb([0, 0, 1])]);
            ch.log(|| show(&img));
            check_one(ch, &img, Rgb([9, 9, 9]))
        });
        r.section("patterns", "binary and 3-level patterns, spirals, combs and checkerboards on shapes up to 40x33", |ch| {
            let (w, h) = ch.pick(&[(7, 9), (13, 8), (24, 20), (31, 2), (2, 31), (40, 33), (17, 17), (300, 3), (3, 300)]);
            let k = ch.choose(NPAT + 4);
            let img = if k < NPAT {
                let t = ch.pick(&[60u8, 150, 245]);
                let mut i = gray_pat(k, w, h);
                i.iter_mut().for_each(|p| *p = if *p > t { 1 + *p % 2 } else { 0 });
                i
            } else {
                GrayImage::from_fn(w, h, |x, y| {
                    Luma([match k - NPAT {
                        // comb open upwards and downwards: provisional labels merge late
                        0 => (x % 2 == 0 || y == h - 1) as u8,
                        1 => (x % 2 == 0 || (y == h - 1) != (x % 4 == 1)) as u8,
                        // concentric frames
                        2 => (x.min(y).min(w - 1 - x).min(h - 1 - y) % 2) as u8,
                        // rows joined alternately at the two ends (serpentine)
                        _ => (y % 2 == 0 || (x == if y % 4 == 1 { w - 1 } else { 0 })) as u8,
                    }])
                })
            };
            ch.log(|| show(&img));
            check_one(ch, &img, Luma([0]))
        });
        r.section("huge", "checkerboards, stripes, combs, serpentines, spirals of dots with up to 350000 components on 1000x700 and sides beyond 2^16", |ch| {
            let (w, h) = huge_shape(ch);
            let k = ch.choose(7);
            let img = GrayImage::from_fn(w, h, |x, y| {
                Luma([match k {
                    0 => ((x + y) % 2) as u8,
                    1 => (x % 2) as u8,
                    2 => (y % 2 == 0 || (x == if y % 4 == 1 { w - 1 } else { 0 })) as u8,
                    3 => (x % 2 == 0 || y == h - 1) as u8,
                    4 => (x % 2 == 0 && y % 2 == 0) as u8,
                    5 => (x.min(y).min(w - 1 - x).min(h - 1 - y) % 2) as u8,
                    _ => pat(6, x, y, 0, w, h) / 100,
                }])
            });
            check_one(ch, &img, Luma([0]))
        });
        r.section("views-and-types", "16-bit images; sub-image views; empty images", |ch| {
            let (w, h) = ch.pick(&[(0u32, 0u32), (0, 3), (3, 0), (1, 1), (4, 3), (5, 5)]);
            let k = ch.choose(NPAT);
            let img = ImageBuffer::<Luma<u16>, Vec<u16>>::from_fn(w, h, |x, y| Luma([if pat(k, x, y, 0, w, h) > 128 { 300 } else { 44 }]));
            check_one(ch, &img, Luma([44]))?;
            if w > 1 && h > 1 {
                let mut outer = ImageBuffer::<Luma<u16>, Vec<u16>>::from_pixel(w + 3, h + 4, Luma([300]));
                imageops::replace(&mut outer, &img, 2, 1);
                let view = outer.sub_image(2, 1, w, h);
                ch.op();
                let a = connected_components(&*view, Connectivity::Four, Luma([44]));
                check!(a == connected_components(&img, Connectivity::Four, Luma([44])), "labels of a sub-image view");
            }
            Ok(())
        });
        r.section("sizes", "every width and height 1..=70 and the neighbours of round sizes up to 1025; serpentines, combs, stripes and noise", |ch| {
            let (w, h) = sweep_shape(ch);
            let k = ch.choose(6);
            let img = GrayImage::from_fn(w, h, |x, y| {
                Luma([match k {
                    0 => (y % 2 == 0 || (x == if y % 4 == 1 { w - 1 } else { 0 })) as u8,
                    1 => (x % 2 == 0 || y == h - 1) as u8,
                    2 => 1,
                    3 => pat(6, x, y, 0, w, h) / 100,
                    4 => (pat(0, x, y, 0, w, h) > 110) as u8,
                    _ => ((x + y) % 2) as u8,
                }])
            });
            ch.log(|| format!("{w}x{h} kind {k}"));
            check_one(ch, &img, Luma([0]))
        });
        r.section("types", "32 pixel types (grey, grey+alpha, RGB, RGBA of 8 to 64 bit, signed and unsigned): all 3x2 and 2x3 images of three colours that just differ, in one channel", |ch| with_type!(ch, [u8, u16, u32, u64, i8, i16, i32, i64], typed(ch)));
    });
}
