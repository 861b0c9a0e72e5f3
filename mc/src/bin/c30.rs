//! C30: Haar-like features.
use image::*;
use imageproc::definitions::{HasBlack, HasWhite};
use imageproc::haar::*;
use imageproc::integral_image::integral_image;
use mc::*;
use std::collections::{HashMap, HashSet};

/// White (+1) and black (-1) pixels of a feature in a frame.
type Pattern = Vec<i8>;

/// All features of a w x h frame, from their description.
fn expected(w: u32, h: u32) -> Vec<Pattern> {
    let mut v = vec![];
    for (bw, bh) in [(2u32, 1u32), (3, 1), (1, 2), (1, 3), (2, 2)] {
        for sx in 1..=w {
            for sy in 1..=h {
                for left in 0..w {
                    for top in 0..h {
                        if left + bw * sx > w || top + bh * sy > h {
                            continue;
                        }
                        for sign in [1i8, -1] {
                            let mut p = vec![0i8; (w * h) as usize];
                            for y in 0..bh * sy {
                                for x in 0..bw * sx {
                                    let k = (x / sx + y / sy) % 2;
                                    p[((top + y) * w + left + x) as usize] = if k == 0 { sign } else { -sign };
                                }
                            }
                            v.push(p);
                        }
                    }
                }
            }
        }
    }
    v
}

/// What drawing the feature paints on a w x h image of gray 128.
fn drawn(f: HaarFeature, w: u32, h: u32) -> Result<Pattern, Fail> {
    let base = GrayImage::from_pixel(w, h, Luma([128]));
    let img = draw_haar_feature(&base, f);
    let mut m = base.clone();
    draw_haar_feature_mut(&mut m, f);
    check!(img == m, "draw_haar_feature and draw_haar_feature_mut differ for {f:?}");
    check!(base.iter().all(|&v| v == 128), "drawing changed its input");
    let mut v = vec![];
    for &p in img.iter() {
        v.push(match p {
            255 => 1,
            0 => -1,
            128 => 0,
            o => fail!("drawing {f:?} painted {o}"),
        });
    }
    Ok(v)
}

fn frame(ch: &mut Ch, w: u32, h: u32) -> R {
    let fs = enumerate_haar_features(w as u8, h as u8);
    let want = expected(w, h);
    ch.ops(fs.len() as u64);
    let n = number_of_haar_features(w, h);
    check!(n as usize == want.len(), "number_of_haar_features({w}, {h}) = {n} instead of {}", want.len());
    check!(fs.len() == want.len(), "{} features enumerated for {w}x{h} instead of {}", fs.len(), want.len());
    let mut left: HashMap<Pattern, u32> = HashMap::new();
    for p in want {
        *left.entry(p).or_default() += 1;
    }
    for f in &fs {
        let p = drawn(*f, w, h)?;
        match left.get_mut(&p) {
            Some(c) if *c > 0 => *c -= 1,
            _ => fail!("{w}x{h}: feature {f:?} is enumerated once too often or does not belong there"),
        }
    }
    check!(left.values().all(|&c| c == 0), "{w}x{h}: a feature is missing");
    check!(
        enumerate_haar_features(w as u8, h as u8) == fs,
        "two enumerations of {w}x{h} differ"
    );
    ch.observe(fs.len() as u64);
    Ok(())
}

fn evaluate(ch: &mut Ch, f: &HaarFeature, p: &Pattern, w: u32, img: &GrayImage, integral: &Img<Luma<u32>>) -> R {
    let mut want = 0i64;
    for (i, &s) in p.iter().enumerate() {
        if s != 0 {
            want += s as i64 * img.get_pixel(i as u32 % w, i as u32 / w)[0] as i64;
        }
    }
    let got = f.evaluate(integral);
    check!(got as i64 == want, "{f:?} on {} evaluates to {got} instead of {want}", show(img));
    ch.observe(want as u64);
    Ok(())
}

fn typed<P>(ch: &mut Ch) -> R
where
    P: Pixel + HasBlack + HasWhite + 'static,
    P::Subpixel: Val,
{
    let (w, h) = ch.pick(&[(1u32, 3u32), (4, 4), (5, 3)]);
    let mut img: Img<P> = timg(w + 3, h + 2, 3);
    let fs = enumerate_haar_features(w as u8, h as u8);
    for f in fs {
        ch.ops(3);
        let p = drawn(f, w, h)?;
        let cut: Img<P> = imageops::crop_imm(&img, 2, 1, w, h).to_image();
        let e = Img::<P>::from_fn(w, h, |x, y| match p[(y * w + x) as usize] {
            1 => P::white(),
            -1 => P::black(),
            _ => *cut.get_pixel(x, y),
        });
        let mut outer = img.clone();
        let mut ewin = img.clone();
        imageops::replace(&mut ewin, &e, 2, 1);
        draw_haar_feature_mut(&mut *outer.sub_image(2, 1, w, h), f);
        let of_window = draw_haar_feature(&*img.sub_image(2, 1, w, h), f);
        for (n, g, e) in [("drawn", draw_haar_feature(&cut, f), &e), ("drawn from a window", of_window, &e), ("drawn on a window", outer, &ewin)] {
            if let Some(d) = tdiff(&g, e) {
                fail!("{f:?} {n}: {d}");
            }
        }
    }
    Ok(())
}

fn main() {
    run("C30", |r| {
        r.section("enumeration", "all frames 0..12 x 0..12 (thorough 0..14): every feature drawn, enumerated exactly once, counted", |ch| {
            let m = if ch.thorough { 14 } else { 12 };
            let w = ch.u(0, m);
            let h = ch.u(0, m);
            if w * h > if ch.thorough { 196 } else { 144 } {
                return ch.reject();
            }
            frame(ch, w, h)
        });
        r.section("enumeration-long", "frames 1x20..1x60, 2x30 and transposed", |ch| {
            let (a, b) = ch.pick(&[(1u32, 20u32), (1, 33), (1, 60), (2, 30), (3, 17)]);
            if ch.flag() {
                frame(ch, a, b)
            } else {
                frame(ch, b, a)
            }
        });
        r.section("enumeration-extreme", "frames up to 255x3 and 3x255: count, no duplicates, all inside, values on a ramp", |ch| {
            let a = ch.pick(&[127u32, 128, 254, 255]);
            let b = ch.pick(&[0u32, 1, 2]);
            let (w, h) = if ch.flag() { (a, b) } else { (b, a) };
            ch.op();
            let fs = enumerate_haar_features(w as u8, h as u8);
            check!(
                fs.len() as u64 == number_of_haar_features(w, h) as u64,
                "{}x{}: {} features, counted {}",
                w,
                h,
                fs.len(),
                number_of_haar_features(w, h)
            );
            // closed form by direct summation
            let one = |side: u64, k: u64| (1..=side / k.max(1)).map(|s| side + 1 - k * s).sum::<u64>();
            let (lw, lh) = (w as u64, h as u64);
            let want = 2
                * (one(lw, 2) * one(lh, 1)
                    + one(lw, 3) * one(lh, 1)
                    + one(lw, 1) * one(lh, 2)
                    + one(lw, 1) * one(lh, 3)
                    + one(lw, 2) * one(lh, 2));
            check!(fs.len() as u64 == want, "{w}x{h}: {} features instead of {want}", fs.len());
            let set: HashSet<String> = fs.iter().map(|f| format!("{f:?}")).collect();
            check!(set.len() == fs.len(), "{w}x{h}: a feature is enumerated twice");
            let img = gray_pat(0, w, h);
            let bg = GrayImage::from_pixel(w, h, Luma([128]));
            let integral: Img<Luma<u32>> = integral_image(&img);
            // a stride through the enumeration keeps the cost bounded; ends included
            let step = 1;
            let n = fs.len();
            for i in (0..n).step_by(step).chain(n.saturating_sub(300)..n) {
                let f = fs[i];
                let d = draw_haar_feature(&bg, f);
                let mut s = 0i64;
                for (p, q) in d.iter().zip(img.iter()) {
                    s += match *p {
                        255 => *q as i64,
                        0 => -(*q as i64),
                        _ => 0,
                    };
                }
                let got = f.evaluate(&integral);
                check!(got as i64 == s, "{w}x{h}: {f:?} evaluates to {got} instead of {s}");
            }
            Ok(())
        });
        r.section("count", "number_of_haar_features for all sizes 0..=255 x 0..=255 against the direct sum", |ch| {
            let w = ch.choose(256) as u64;
            ch.ops(256);
            for h in 0..256u64 {
                let one = |side: u64, k: u64| (1..=side / k).map(|s| side + 1 - k * s).sum::<u64>();
                let want = 2
                    * (one(w, 2) * one(h, 1) + one(w, 3) * one(h, 1) + one(w, 1) * one(h, 2) + one(w, 1) * one(h, 3) + one(w, 2) * one(h, 2));
                let got = number_of_haar_features(w as u32, h as u32);
                check!(got as u64 == want, "number_of_haar_features({w}, {h}) = {got} instead of {want}");
            }
            Ok(())
        });
        r.section("values", "all features of all frames up to area 64 (thorough 81) on all impulses and patterns, integral images of the frame and of a larger image", |ch| {
            let (w, h) = shape(ch, 1, 9, if ch.thorough { 81 } else { 64 });
            let (ew, eh) = ch.pick(&[(0u32, 0u32), (3, 2)]);
            let n = (w * h) as usize;
            let k = ch.choose(NPAT + 2 * n);
            let mut img = if k < NPAT {
                gray_pat(k, w + ew, h + eh)
            } else {
                GrayImage::from_pixel(w + ew, h + eh, Luma([if k - NPAT >= n { 255 } else { 0 }]))
            };
            if k >= NPAT {
                let i = ((k - NPAT) % n) as u32;
                img.put_pixel(i % w, i / w, Luma([if k - NPAT >= n { 0 } else { 255 }]));
            }
            let integral: Img<Luma<u32>> = integral_image(&img);
            for f in enumerate_haar_features(w as u8, h as u8) {
                ch.op();
                let p = drawn(f, w, h)?;
                evaluate(ch, &f, &p, w, &img, &integral)?;
            }
            Ok(())
        });
        r.section("too-small", "evaluating on every integral image smaller or larger than the frame: the value, or a panic exactly when the feature does not fit", |ch| {
            let w = ch.u(1, 4);
            let h = ch.u(1, 4);
            let iw = ch.u(0, 5);
            let ih = ch.u(0, 5);
            let img = gray_pat(0, iw, ih);
            let integral: Img<Luma<u32>> = integral_image(&img);
            for f in enumerate_haar_features(w as u8, h as u8) {
                ch.op();
                let p = drawn(f, w, h)?;
                let fits = p.iter().enumerate().all(|(i, &s)| s == 0 || ((i as u32 % w) < iw && (i as u32 / w) < ih));
                match catching(|| f.evaluate(&integral)) {
                    Ok(_) if fits => evaluate(ch, &f, &p, w, &img, &integral)?,
                    Err(_) if !fits => {}
                    Ok(v) => fail!("{f:?} evaluates to {v} on a {iw}x{ih} image it does not fit in"),
                    Err(e) => fail!("{f:?} on a {iw}x{ih} image: {e}"),
                }
            }
            Ok(())
        });
        r.section("colour", "drawing on RGB images of every size up to 4x4 with every pixel different", |ch| {
            let w = ch.u(1, 4);
            let h = ch.u(1, 4);
            let img: RgbImage = u8_pat(7, w, h);
            for f in enumerate_haar_features(w as u8, h as u8) {
                ch.op();
                let p = drawn(f, w, h)?;
                let d = draw_haar_feature(&img, f);
                for y in 0..h {
                    for x in 0..w {
                        let want = match p[(y * w + x) as usize] {
                            1 => Rgb([255; 3]),
                            -1 => Rgb([0; 3]),
                            _ => *img.get_pixel(x, y),
                        };
                        check!(*d.get_pixel(x, y) == want, "{f:?} drawn on RGB at ({x},{y}): {:?}", d.get_pixel(x, y));
                    }
                }
            }
            Ok(())
        });
        r.section("count-large", "number_of_haar_features for every pair of sides whose exact count fits in a u32", |ch| {
            // one(side) = number of intervals of k equal blocks: those ending at the last position number side / k
            let h = ch.choose(512) as u64;
            let flip = ch.flag();
            let (mut one_h, mut w, mut one_w) = ([0u64; 4], 0u64, [0u64; 4]);
            for side in 1..=h {
                for k in 1..=3u64 {
                    one_h[k as usize] += side / k;
                }
            }
            loop {
                let a = [one_w[1], one_w[2], one_w[3]];
                let b = [one_h[1], one_h[2], one_h[3]];
                let want = 2 * (a[1] * b[0] + a[2] * b[0] + a[0] * b[1] + a[0] * b[2] + a[1] * b[1]);
                if want > u32::MAX as u64 || w > 80_000 {
                    break;
                }
                let (x, y) = if flip { (h, w) } else { (w, h) };
                let got = catching(|| number_of_haar_features(x as u32, y as u32));
                check!(got == Ok(want as u32), "number_of_haar_features({x}, {y}) = {got:?} instead of {want}");
                w += 1;
                for k in 1..=3u64 {
                    one_w[k as usize] += w / k;
                }
                ch.op();
            }
            Ok(())
        });
        r.section("types", "drawing every feature of 3 frames on the eight pixel types with a black and a white, and on windows of images", |ch| with_type!(ch, [u8, u16], typed(ch)));
    });
}
