//! C08: contrast stretching, histogram equalisation and matching.
use image::*;
use imageproc::contrast::*;
use mc::*;

fn cumulative(img: &GrayImage) -> [u64; 256] {
    let mut h = [0u64; 256];
    for &v in img.as_raw() {
        h[v as usize] += 1;
    }
    for i in 1..256 {
        h[i] += h[i - 1];
    }
    h
}

fn equalize(ch: &mut Ch, img: &GrayImage) -> R {
    ch.ops(2);
    let a = equalize_histogram(img);
    let mut b = img.clone();
    equalize_histogram_mut(&mut b);
    check!(a == b, "variants differ");
    check!(a.dimensions() == img.dimensions(), "dimensions");
    ch.observe_bytes(a.as_raw());
    let c = cumulative(img);
    for (i, (&p, &g)) in img.as_raw().iter().zip(a.as_raw()).enumerate() {
        let e = 255.0 * c[p as usize] as f64 / c[255] as f64;
        let g = g as f64;
        check!(g >= (e - 1e-3).floor() && g <= (e + 1e-3).floor().min(255.0), "equalize sample {i}: value {p} became {g}, expected {e} rounded down");
        check!(c[p as usize] != c[255] || g == 255.0, "equalize: the brightest level became {g}");
    }
    Ok(())
}

fn matching(ch: &mut Ch, img: &GrayImage, target: &GrayImage) -> R {
    ch.ops(2);
    let a = match_histogram(img, target);
    let mut b = img.clone();
    match_histogram_mut(&mut b, target);
    check!(a == b, "variants differ");
    check!(a.dimensions() == img.dimensions(), "dimensions");
    ch.observe_bytes(a.as_raw());
    let (cs, ct) = (cumulative(img), cumulative(target));
    let f = |c: &[u64; 256], i: usize| c[i] as f64 / c[255] as f64;
    let mut map = [None; 256];
    for (&p, &g) in img.as_raw().iter().zip(a.as_raw()) {
        if map[p as usize] == Some(g) {
            continue;
        }
        let s = f(&cs, p as usize);
        let best = (0..256).map(|l| (f(&ct, l) - s).abs()).fold(f64::MAX, f64::min);
        let d = (f(&ct, g as usize) - s).abs();
        check!(d <= best + 1e-6, "match: level {p} became {g} at distance {d}, nearest is {best}");
        match map[p as usize] {
            None => map[p as usize] = Some(g),
            Some(o) => check!(o == g, "match: level {p} mapped to both {o} and {g}"),
        }
    }
    let used: Vec<u8> = map.iter().flatten().copied().collect();
    check!(used.windows(2).all(|w| w[0] <= w[1]), "match: not monotone: {used:?}");
    Ok(())
}

fn main() {
    run("C08", |r| {
        r.section("stretch", "all input/output bound quadruples over 12 levels (invalid ones must be refused), all 256 values, 4 layouts", |ch| {
            let ls = [0u8, 1, 2, 9, 10, 100, 127, 128, 200, 253, 254, 255];
            let (il, iu, ol, ou) = (ch.pick(&ls), ch.pick(&ls), ch.pick(&ls), ch.pick(&ls));
            ch.log(|| format!("input {il}..{iu} output {ol}..{ou}"));
            let img = GrayImage::from_raw(16, 16, (0..=255).collect()).unwrap();
            ch.ops(2);
            let r = catching(|| stretch_contrast(&img, il, iu, ol, ou));
            if il >= iu || ol > ou {
                check!(r.is_err(), "invalid bounds are accepted");
                return Ok(());
            }
            let a = match r {
                Ok(a) => a,
                Err(e) => fail!("valid bounds are refused: {e}"),
            };
            let mut b = img.clone();
            stretch_contrast_mut(&mut b, il, iu, ol, ou);
            check!(a == b, "variants differ");
            ch.observe_bytes(a.as_raw());
            let rule = |c: u8| -> u8 {
                if c <= il {
                    ol
                } else if c >= iu {
                    ou
                } else {
                    ((c - il) as u32 * (ou - ol) as u32 / (iu - il) as u32 + ol as u32) as u8
                }
            };
            for c in 0..=255u8 {
                let g = a.as_raw()[c as usize];
                check!(g == rule(c), "value {c} became {g}, expected {}", rule(c));
            }
            // colour channels alike, alpha untouched
            let img: Img<Rgba<u8>> = u8_pat(0, 8, 8);
            let a = stretch_contrast(&img, il, iu, ol, ou);
            for (p, q) in img.pixels().zip(a.pixels()) {
                check!(q.0 == [rule(p[0]), rule(p[1]), rule(p[2]), p[3]], "rgba {p:?} became {q:?}");
            }
            let img: Img<Rgb<u8>> = u8_pat(0, 8, 8);
            let a = stretch_contrast(&img, il, iu, ol, ou);
            for (p, q) in img.pixels().zip(a.pixels()) {
                check!(q.0 == [rule(p[0]), rule(p[1]), rule(p[2])], "rgb {p:?} became {q:?}");
            }
            let img: Img<LumaA<u8>> = u8_pat(0, 8, 8);
            let a = stretch_contrast(&img, il, iu, ol, ou);
            for (p, q) in img.pixels().zip(a.pixels()) {
                check!(q.0 == [rule(p[0]), p[1]], "lumaA {p:?} became {q:?}");
            }
            Ok(())
        });
        r.section("equalize", "all images of area<=7 over {0,1,128,255}, <=9 (thorough 12) over {0,128,255}; pattern family on shapes 0..=8 and larger", |ch| {
            let img = match ch.choose(3) {
                0 => {
                    let a = if ch.thorough { 12 } else { 9 };
                    let (w, h) = shape(ch, 1, a, a);
                    gray(ch, w, h, if w * h > 7 { &[0, 128, 255] } else { &[0, 1, 128, 255] })
                }
                1 => {
                    let (w, h) = (ch.u(0, 8), ch.u(0, 8));
                    gray_family(ch, w, h)
                }
                _ => {
                    let (w, h) = large_shape(ch);
                    gray_pat(ch.choose(NPAT), w, h)
                }
            };
            ch.log(|| show(&img));
            equalize(ch, &img)
        });
        r.section("bounds", "every pair of input bounds with 12 x 12 output bounds, every pair of output bounds with 12 x 12 input bounds, all 256 values", |ch| {
            let ls = [0u8, 1, 2, 9, 10, 100, 127, 128, 200, 253, 254, 255];
            let turn = ch.flag();
            let (a, b) = (ch.u(0, 255) as u8, ch.u(0, 255) as u8);
            if b < a {
                return ch.reject();
            }
            let img = GrayImage::from_raw(16, 16, (0..=255).collect()).unwrap();
            for c in ls {
                for d in ls {
                    let (il, iu, ol, ou) = if turn { (a, b, c, d) } else { (c, d, a, b) };
                    if il >= iu || ol > ou {
                        continue;
                    }
                    ch.op();
                    let o = stretch_contrast(&img, il, iu, ol, ou);
                    for v in 0..=255u8 {
                        let e = if v <= il { ol as u32 } else if v >= iu { ou as u32 } else { (v - il) as u32 * (ou - ol) as u32 / (iu - il) as u32 + ol as u32 };
                        let g = o.as_raw()[v as usize];
                        check!(g as u32 == e, "stretch {il}..{iu} to {ol}..{ou}: value {v} became {g}, expected {e}");
                    }
                }
            }
            Ok(())
        });
        r.section("huge", "equalisation and matching of images with a side beyond 2^16 or more than 2^24 pixels", |ch| {
            let (w, h) = if ch.flag() { huge_shape(ch) } else { (4300, 4000) };
            let k = ch.pick(&[0usize, 2, 5]);
            let mut img = gray_pat(k, w, h);
            let n = img.as_raw().len();
            if ch.flag() {
                // nearly all pixels in one level
                img.as_mut()[..n - 3].fill(77);
            }
            equalize(ch, &img)?;
            matching(ch, &img, &gray_pat(6, 40, 30))?;
            matching(ch, &gray_pat(0, 40, 30), &img)
        });
        r.section("match", "all pairs of images of up to 5 (thorough 6) pixels over {0,1,200,255}; all pairs of patterns on several shapes", |ch| {
            let (a, b) = if ch.flag() {
                let m = if ch.thorough { 6 } else { 5 };
                let (n, k) = (ch.u(1, m), ch.u(1, m));
                (gray(ch, n, 1, &[0, 1, 200, 255]), gray(ch, 1, k, &[0, 1, 200, 255]))
            } else {
                let (s, t) = (ch.pick(&[(7, 9), (1, 20), (64, 5)]), ch.pick(&[(8, 8), (3, 1), (130, 3)]));
                (gray_pat(ch.choose(NPAT), s.0, s.1), gray_pat(ch.choose(NPAT), t.0, t.1))
            };
            ch.log(|| format!("source {} target {}", show(&a), show(&b)));
            matching(ch, &a, &b)
        });
        r.section("sizes", "every width and height 1..=70 and the neighbours of round sizes up to 1025: equalisation, matching, stretching in grey and RGBA", |ch| {
            let (w, h) = sweep_shape(ch);
            let k = ch.pick(&[0usize, 6, 9]);
            let img = gray_pat(k, w, h);
            ch.log(|| format!("{w}x{h} pattern {k}"));
            equalize(ch, &img)?;
            matching(ch, &img, &gray_pat(1, 13, 7))?;
            matching(ch, &gray_pat(0, 13, 7), &img)?;
            ch.ops(2);
            let rule = |c: u8| if c <= 20 { 30 } else if c >= 210 { 190 } else { ((c as u32 - 20) * 160 / 190 + 30) as u8 };
            let o = stretch_contrast(&img, 20, 210, 30, 190);
            check!(o.dimensions() == (w, h), "stretch dimensions");
            check!(o.as_raw().iter().zip(img.as_raw()).all(|(&a, &b)| a == rule(b)), "stretched grey image");
            let img: Img<Rgba<u8>> = u8_pat(k, w, h);
            let o = stretch_contrast(&img, 20, 210, 30, 190);
            check!(o.pixels().zip(img.pixels()).all(|(a, b)| a.0 == [rule(b[0]), rule(b[1]), rule(b[2]), b[3]]), "stretched RGBA image");
            Ok(())
        });
        r.section("builds", "contrast functions x up to 5 values of every parameter x 37 images (up to 5000 pixels wide, 2100 high): same result with the feature rayon and run-time checks and in a release build without them", |ch| {
            mc::builds::same_in_both_builds(ch, |n| n.contains("contrast") || n.contains("histogram"))
        });
    })
}
