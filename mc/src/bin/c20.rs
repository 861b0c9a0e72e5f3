//! C20: template matching and extremes.
use image::*;
use imageproc::definitions::Image;
use imageproc::template_matching::*;
use mc::*;

use MatchTemplateMethod as M;
const METHODS: [M; 4] =
    [M::SumOfSquaredErrors, M::SumOfSquaredErrorsNormalized, M::CrossCorrelation, M::CrossCorrelationNormalized];

fn reference(img: &GrayImage, t: &GrayImage, m: M, mask: Option<&GrayImage>, x: u32, y: u32) -> f64 {
    let (mut sse, mut cc, mut tt, mut ii) = (0i128, 0i128, 0i128, 0i128);
    for dy in 0..t.height() {
        for dx in 0..t.width() {
            let i = img.get_pixel(x + dx, y + dy)[0] as i128;
            let p = t.get_pixel(dx, dy)[0] as i128;
            let k = mask.map_or(1, |m| m.get_pixel(dx, dy)[0] as i128);
            sse += (p - i) * (p - i) * k * k;
            cc += p * i * k * k;
            tt += p * p * k * k;
            ii += i * i * k * k;
        }
    }
    let raw = match m {
        M::SumOfSquaredErrors | M::SumOfSquaredErrorsNormalized => sse,
        _ => cc,
    } as f64;
    let norm = ((tt as f64) * (ii as f64)).sqrt();
    match m {
        M::SumOfSquaredErrors | M::CrossCorrelation => raw,
        _ if norm > 0.0 => raw / norm,
        _ => raw,
    }
}

fn one(ch: &mut Ch, img: &GrayImage, t: &GrayImage, mask: Option<&GrayImage>) -> R {
    one_within(ch, img, t, mask, 1e-4)
}

fn one_within(ch: &mut Ch, img: &GrayImage, t: &GrayImage, mask: Option<&GrayImage>, tol: f64) -> R {
    for m in METHODS {
        ch.ops(2);
        let a = match mask {
            None => match_template(img, t, m),
            Some(k) => match_template_with_mask(img, t, m, k),
        };
        let b = match mask {
            None => match_template_parallel(img, t, m),
            Some(k) => match_template_with_mask_parallel(img, t, m, k),
        };
        let dims = (img.width() - t.width() + 1, img.height() - t.height() + 1);
        for (name, r) in [("match_template", &a), ("match_template_parallel", &b)] {
            check!(r.dimensions() == dims, "{name} {m:?}: result {:?}, expected {dims:?}", r.dimensions());
            for (x, y, p) in r.enumerate_pixels() {
                let e = reference(img, t, m, mask, x, y);
                let g = p[0] as f64;
                check!(
                    (g - e).abs() <= tol * e.abs() + 1e-6,
                    "{name} {m:?} mask {} at ({x},{y}) = {g}, expected {e}; image {} template {} mask {}",
                    mask.is_some(),
                    show(img),
                    show(t),
                    mask.map_or(String::new(), show)
                );
            }
        }
        ch.observe(a.iter().fold(0, |h, p| h ^ p.to_bits() as u64));
    }
    Ok(())
}

fn extremes<T: Primitive + std::fmt::Debug>(ch: &mut Ch, img: &Image<Luma<T>>) -> R {
    ch.op();
    let e = find_extremes(img);
    let (mut lo, mut hi) = ((0, 0), (0, 0));
    for y in 0..img.height() {
        for x in 0..img.width() {
            if img.get_pixel(x, y)[0] < img.get_pixel(lo.0, lo.1)[0] {
                lo = (x, y);
            }
            if img.get_pixel(x, y)[0] > img.get_pixel(hi.0, hi.1)[0] {
                hi = (x, y);
            }
        }
    }
    check!(
        e.min_value_location == lo
            && e.max_value_location == hi
            && e.min_value == img.get_pixel(lo.0, lo.1)[0]
            && e.max_value == img.get_pixel(hi.0, hi.1)[0],
        "find_extremes = {e:?}, expected min at {lo:?}, max at {hi:?} in {img:?}"
    );
    ch.observe((lo.0 + 8 * lo.1 + 64 * hi.0 + 512 * hi.1) as u64);
    Ok(())
}

fn typed<T: Val>(ch: &mut Ch) -> R {
    let l = T::ladder();
    let k = ch.choose(l.len() - 2);
    let (w, h) = ch.pick(&[(3, 2), (2, 3), (5, 1), (1, 5), (1, 1)]);
    let img: Img<Luma<T>> = img_of(ch, w, h, &[Luma([l[k]]), Luma([l[k + 1]]), Luma([l[k + 2]])]);
    ch.log(|| format!("{} {}", T::NAME, show(&img)));
    extremes(ch, &img)
}

fn main() {
    run("C20", |r| {
        r.section("small", "all images 1..3 x 1..2 (and 2x3) over {0,1,255} x all templates up to 2x2 over {0,3,255}", |ch| {
            let (w, h) = ch.pick(&[(1u32, 1u32), (2, 1), (3, 1), (1, 2), (1, 3), (2, 2), (3, 2), (2, 3)]);
            let (tw, th) = (ch.u(1, w.min(2)), ch.u(1, h.min(2)));
            let t = gray(ch, tw, th, &[0, 3, 255]);
            let img = gray(ch, w, h, &[0, 1, 255]);
            one(ch, &img, &t, None)
        });
        r.section("masks", "all images 2x2 over {0,1,255}, templates and masks up to 2x2 over {0,2,255}", |ch| {
            let (tw, th) = (ch.u(1, 2), ch.u(1, 2));
            let (al, be): (&[u8], &[u8]) = (&[0, 2, 255], &[0, 1, 255]);
            let img = gray(ch, 2, 2, be);
            let t = gray(ch, tw, th, &[0, 3, 255]);
            let mask = gray(ch, tw, th, al);
            one(ch, &img, &t, Some(&mask))
        });
        r.section("impulse", "one bright pixel at every position of image, template and mask, shapes to 5x4 / 3x3", |ch| {
            let (w, h) = ch.pick(&[(5u32, 4u32), (3, 4), (3, 3), (6, 2)]);
            let (tw, th) = (ch.u(1, 3.min(w)), ch.u(1, 3.min(h)));
            let imp = |w: u32, h: u32, k: u32, bg: u8, fg: u8| {
                let _ = h;
                GrayImage::from_fn(w, h, |x, y| Luma([if y * w + x == k { fg } else { bg }]))
            };
            let bg = ch.pick(&[0u8, 20]);
            let t = imp(tw, th, ch.u(0, tw * th - 1), bg, 200);
            let mask = imp(tw, th, ch.u(0, tw * th), 1, ch.pick(&[0u8, 2, 255]));
            for i in 0..w * h {
                let img = imp(w, h, i, bg, 180);
                one(ch, &img, &t, Some(&mask))?;
                one(ch, &img, &t, None)?;
            }
            Ok(())
        });
        r.section("shapes", "patterns, all shapes 0..6 x 0..6 with all template shapes that fit, incl. empty and equal", |ch| {
            let (w, h) = (ch.u(0, 6), ch.u(0, 6));
            let (tw, th) = (ch.u(0, w), ch.u(0, h));
            let (a, b) = (ch.choose(NPAT), ch.pick(&[1usize, 6, 9]));
            let img = gray_pat(a, w, h);
            let t = gray_pat(b, tw, th);
            one(ch, &img, &t, None)?;
            one(ch, &img, &t, Some(&gray_pat((a + 3) % NPAT, tw, th)))
        });
        r.section("large", "patterns on larger shapes, templates to 9x9", |ch| {
            let (w, h) = large_shape(ch);
            let img = gray_pat(ch.choose(NPAT), w, h);
            let (tw, th) = ch.pick(&[(1u32, 1u32), (2, 3), (9, 9), (1, 8), (8, 1)]);
            if tw > w || th > h {
                return ch.reject();
            }
            let t = gray_pat(6, tw, th);
            one(ch, &img, &t, None)?;
            one(ch, &img, &t, Some(&gray_pat(9, tw, th)))
        });
        r.section("accumulation", "templates and images of 300 to 90000 pixels, uniform, striped or patterned, in all pairs, with and without mask, within 1% of the exact sums", |ch| {
            let (tw, th) = ch.pick(&[(20u32, 15u32), (258, 1), (1, 258), (100, 90), (258, 258), (300, 300), (66100, 1), (1, 66100)]);
            let (w, h) = (tw + ch.u(0, 1), th + ch.u(0, 1));
            let mk = |ch: &mut Ch, w: u32, h: u32| {
                let k = ch.choose(5);
                GrayImage::from_fn(w, h, |x, y| {
                    Luma([match k {
                        0 => 255,
                        1 => 0,
                        2 => 254 + ((x + y) % 2) as u8,
                        3 => ((x * 37 + y * 91 + x * y) % 256) as u8,
                        _ => (x as u8 & 1) * 255,
                    }])
                })
            };
            let img = mk(ch, w, h);
            let t = mk(ch, tw, th);
            let mv = ch.pick(&[1u8, 255]);
            one_within(ch, &img, &t, None, 0.01)?;
            one_within(ch, &img, &t, Some(&GrayImage::from_pixel(tw, th, Luma([mv]))), 0.01)
        });
        r.section("rejects", "templates larger than the image in one dimension, masks of other dimensions: all shapes 0..4", |ch| {
            let (w, h, tw, th) = (ch.u(0, 4), ch.u(0, 4), ch.u(0, 4), ch.u(0, 4));
            let img = gray_pat(1, w, h);
            let t = gray_pat(1, tw, th);
            for m in METHODS {
                let bad = tw > w || th > h;
                ch.op();
                check!(catching(|| match_template(&img, &t, m)).is_err() == bad, "{w}x{h} template {tw}x{th}");
                check!(catching(|| match_template_parallel(&img, &t, m)).is_err() == bad, "{w}x{h} template {tw}x{th}");
                for (mw, mh) in [(tw, th), (tw + 1, th), (th, tw), (tw, th + 1)] {
                    let k = gray_pat(1, mw, mh);
                    let bad = bad || (mw, mh) != (tw, th);
                    check!(
                        catching(|| match_template_with_mask(&img, &t, m, &k)).is_err() == bad,
                        "{w}x{h} template {tw}x{th} mask {mw}x{mh}"
                    );
                }
            }
            Ok(())
        });
        r.section("extremes", "all images up to 6 pixels over three values, types u8, i16, f32, u32", |ch| {
            let (w, h) = shape(ch, 1, 6, 6);
            let img = gray(ch, w, h, &[7, 0, 255]);
            extremes(ch, &img)?;
            extremes(ch, &Image::from_fn(w, h, |x, y| Luma([img.get_pixel(x, y)[0] as i16 - 100])))?;
            extremes(ch, &Image::from_fn(w, h, |x, y| Luma([u32::MAX - img.get_pixel(x, y)[0] as u32])))?;
            extremes(ch, &Image::from_fn(w, h, |x, y| {
                Luma([match img.get_pixel(x, y)[0] {
                    0 => f32::NEG_INFINITY,
                    7 => -0.5f32,
                    _ => 1e30,
                }])
            }))
        });
        r.section("extremes-shapes", "patterns on all shapes 1..6 x 1..6 and larger; empty images rejected", |ch| {
            let (w, h) = if ch.flag() { large_shape(ch) } else { (ch.u(1, 6), ch.u(1, 6)) };
            let k = ch.choose(NPAT);
            extremes(ch, &gray_pat(k, w, h))?;
            for (w, h) in [(0, 0), (0, 3), (3, 0)] {
                check!(catching(|| find_extremes(&GrayImage::new(w, h))).is_err(), "empty image accepted");
            }
            Ok(())
        });
        r.section("sizes", "every width and height 1..=70 and the neighbours of round sizes up to 1025: images searched for 1x1, 2x1, 1x3 and 3x3 templates, templates of that size in images a little larger; extremes at the ends", |ch| {
            let (w, h) = sweep_shape(ch);
            let k = ch.choose(5);
            let (big, small) = match k {
                0 => ((w, h), (1, 1)),
                1 => ((w, h), (2.min(w), 1)),
                2 => ((w, h), (1, 3.min(h))),
                3 => ((w, h), (3.min(w), 3.min(h))),
                _ => ((w + 1, h), (w, h)),
            };
            let img = gray_pat(0, big.0, big.1);
            let t = gray_pat(7, small.0, small.1);
            ch.log(|| format!("{big:?} template {small:?}"));
            one(ch, &img, &t, None)?;
            one(ch, &img, &t, Some(&gray_pat(6, small.0, small.1)))?;
            let n = big.0 * big.1;
            for (lo, hi) in [(0, n - 1), (n - 1, 0), (n / 2, n / 3), (n - 1 - n / 5, n / 7)] {
                let mut g = GrayImage::from_pixel(big.0, big.1, Luma([100]));
                g.as_mut()[lo as usize] = 3;
                g.as_mut()[hi as usize] = 250;
                extremes(ch, &g)?;
            }
            Ok(())
        });
        r.section("extremes-types", "ten subpixel types: all images of area <=6 over three values that just differ, at every magnitude", |ch| with_luma!(ch, [u8, u16, u32, u64, i8, i16, i32, i64, f32, f64], typed(ch)));
        r.section("template-ladder", "templates of every width 1..=130 (height 1 and 2), every height 1..=130 (width 1 and 2) and every size up to 18x18, in images larger by 2 and 1, with and without mask", |ch| {
            let (tw, th) = match ch.choose(3) {
                0 => (ch.u(1, 130), ch.u(1, 2)),
                1 => (ch.u(1, 2), ch.u(1, 130)),
                _ => (ch.u(1, 18), ch.u(1, 18)),
            };
            let (dx, dy) = ch.pick(&[(2, 1), (1, 2), (0, 0)]);
            let img = gray_pat(6, tw + dx, th + dy);
            let t = gray_pat(ch.pick(&[9, 0]), tw, th);
            one(ch, &img, &t, None)?;
            one(ch, &img, &t, Some(&gray_pat(1, tw, th)))
        });
    });
}
