//! C02: allocating, in-place and into-buffer variants agree and leave inputs untouched.
use image::*;
use imageproc::contrast::ThresholdType as T;
use imageproc::distance_transform::Norm;
use imageproc::drawing::{flood_fill, flood_fill_mut};
use imageproc::geometric_transformations::*;
use imageproc::hough::{draw_polar_lines, draw_polar_lines_mut, PolarLine};
use imageproc::integral_image::*;
use imageproc::*;
use mc::api::{ops, Pk};
use mc::dense::dense;
use mc::*;

/// An operation offered in both forms: (name, returning form, in-place form).
type Pair<P> = (&'static str, Box<dyn Fn(&mut Pk, &Img<P>) -> Img<P>>, Box<dyn Fn(&mut Pk, &mut Img<P>)>);

macro_rules! pair {
    ($v:ident, $n:literal, |$p:ident, $i:ident| $new:expr, $mt:expr) => {
        $v.push((
            $n,
            Box::new(|$p: &mut Pk, $i: &_| {
                let _ = &$p;
                $new
            }),
            Box::new(|$p: &mut Pk, $i: &mut _| {
                let _ = &$p;
                $mt
            }),
        ))
    };
}

/// Pairs which exist for every pixel type with 8 bit channels.
macro_rules! common_pairs {
    ($v:ident, $p:ty, $make:expr, $noise:expr) => {
        pair!($v, "flip_horizontal", |p, i| compose::flip_horizontal(i), compose::flip_horizontal_mut(i));
        pair!($v, "flip_vertical", |p, i| compose::flip_vertical(i), compose::flip_vertical_mut(i));
        pair!($v, "rotate180", |p, i| rotate180(i), rotate180_mut(i));
        pair!($v, "replace", |p, i| { let (t, x, y) = top::<$p>(p, i); compose::replace(i, &t, x, y) },
            { let (t, x, y) = top::<$p>(p, i); let u = t.clone(); compose::replace_mut(i, &t, x, y); assert!(u == t, "replace_mut changed the upper image") });
        pair!($v, "overlay", |p, i| { let (t, x, y) = top::<$p>(p, i); let u = t.clone(); let r = compose::overlay(i, &t, x, y); assert!(u == t, "overlay changed the upper image"); r },
            { let (t, x, y) = top::<$p>(p, i); let u = t.clone(); compose::overlay_mut(i, &t, x, y); assert!(u == t, "overlay_mut changed the upper image") });
        pair!($v, "map_subpixels", |p, i| map::map_subpixels(i, |v| v.wrapping_mul(3)), map::map_subpixels_mut(i, |v| v.wrapping_mul(3)));
        pair!($v, "map_subpixels_parallel", |p, i| map::map_subpixels_parallel(i, |v| v / 2), map::map_subpixels_mut_parallel(i, |v| v / 2));
        pair!($v, "map_pixels", |p, i| map::map_pixels(i, |v: $p| $make(v, 1)), map::map_pixels_mut(i, |v: $p| $make(v, 1)));
        pair!($v, "map_pixels_parallel", |p, i| map::map_pixels_parallel(i, |v: $p| $make(v, 2)), map::map_pixels_mut_parallel(i, |v: $p| $make(v, 2)));
        pair!($v, "map_enumerated_pixels", |p, i| map::map_enumerated_pixels(i, |x, y, v: $p| $make(v, (x * 5 + y * 11) as u8)),
            map::map_enumerated_pixels_mut(i, |x, y, v: $p| $make(v, (x * 5 + y * 11) as u8)));
        pair!($v, "map_enumerated_pixels_parallel", |p, i| map::map_enumerated_pixels_parallel(i, |x, y, v: $p| $make(v, (x * 7 + y) as u8)),
            map::map_enumerated_pixels_mut_parallel(i, |x, y, v: $p| $make(v, (x * 7 + y) as u8)));
        pair!($v, "draw_polar_lines", |p, i| draw_polar_lines(i, &lines(p), $noise), draw_polar_lines_mut(i, &lines(p), $noise));
        pair!($v, "gaussian_noise", |p, i| { let a = noise_args(p); noise::gaussian_noise(i, a.0, a.1, a.2) },
            { let a = noise_args(p); noise::gaussian_noise_mut(i, a.0, a.1, a.2) });
        pair!($v, "stretch_contrast", |p, i| { let a = p.pick(&[(20, 200, 0, 255), (0, 255, 10, 11), (3, 4, 7, 7)]); contrast::stretch_contrast(i, a.0, a.1, a.2, a.3) },
            { let a = p.pick(&[(20, 200, 0, 255), (0, 255, 10, 11), (3, 4, 7, 7)]); contrast::stretch_contrast_mut(i, a.0, a.1, a.2, a.3) });
    };
}

fn noise_args(p: &mut Pk) -> (f64, f64, u64) {
    p.pick(&[(5.0, 20.0, 1), (0.0, 0.0, 2), (-300.0, 1000.0, u64::MAX)])
}
fn lines(p: &mut Pk) -> Vec<PolarLine> {
    let l = |r: f32, a: u32| PolarLine { r, angle_in_degrees: a };
    p.pick(&[vec![l(2.0, 40), l(1.0, 90)], vec![], vec![l(0.0, 0), l(1e6, 179), l(-1.0, 135)]])
}
fn top<P: Pixel<Subpixel = u8>>(p: &mut Pk, i: &Img<P>) -> (Img<P>, u32, u32) {
    let (w, h) = i.dimensions();
    let (tw, th) = p.pick(&[(w, h), (1, 1), (w + 1, 2), (0, 3), (2, 0), (w / 2, h + 2)]);
    let (x, y) = p.pick(&[(0, 0), (w.saturating_sub(1), h / 2), (w / 2, h.saturating_sub(1))]);
    (u8_pat(7, tw, th), x, y)
}

fn gray_pairs() -> Vec<Pair<Luma<u8>>> {
    let mut v: Vec<Pair<Luma<u8>>> = vec![];
    common_pairs!(v, Luma<u8>, |v: Luma<u8>, k: u8| Luma([v[0].wrapping_add(k.wrapping_mul(9))]), Luma([77]));
    pair!(v, "salt_and_pepper_noise", |p, i| { let r = p.pick(&[0.4, 0.0, 1.0]); noise::salt_and_pepper_noise(i, r, 3) },
        { let r = p.pick(&[0.4, 0.0, 1.0]); noise::salt_and_pepper_noise_mut(i, r, 3) });
    pair!(v, "threshold", |p, i| { let t = th(p); contrast::threshold(i, t.0, t.1) }, { let t = th(p); contrast::threshold_mut(i, t.0, t.1) });
    pair!(v, "equalize_histogram", |p, i| contrast::equalize_histogram(i), contrast::equalize_histogram_mut(i));
    pair!(v, "match_histogram", |p, i| { let t = target(p, i); contrast::match_histogram(i, &t) },
        { let t = target(p, i); let u = t.clone(); contrast::match_histogram_mut(i, &t); assert!(u == t, "match_histogram_mut changed the target") });
    pair!(v, "distance_transform", |p, i| distance_transform::distance_transform(i, norm(p)), distance_transform::distance_transform_mut(i, norm(p)));
    pair!(v, "dilate", |p, i| { let n = norm(p); morphology::dilate(i, n, k(p)) }, { let n = norm(p); morphology::dilate_mut(i, n, k(p)) });
    pair!(v, "erode", |p, i| { let n = norm(p); morphology::erode(i, n, k(p)) }, { let n = norm(p); morphology::erode_mut(i, n, k(p)) });
    pair!(v, "open", |p, i| { let n = norm(p); morphology::open(i, n, k(p)) }, { let n = norm(p); morphology::open_mut(i, n, k(p)) });
    pair!(v, "close", |p, i| { let n = norm(p); morphology::close(i, n, k(p)) }, { let n = norm(p); morphology::close_mut(i, n, k(p)) });
    pair!(v, "flood_fill", |p, i| { let (x, y) = at(p, i); flood_fill(i, x, y, Luma([p.pick(&[9, 255, 0])])) },
        { let (x, y) = at(p, i); flood_fill_mut(i, x, y, Luma([p.pick(&[9, 255, 0])])) });
    pair!(v, "draw_haar_feature", |p, i| haar::draw_haar_feature(i, feature(p, i)), haar::draw_haar_feature_mut(i, feature(p, i)));
    v
}
fn rgb_pairs() -> Vec<Pair<Rgb<u8>>> {
    let mut v: Vec<Pair<Rgb<u8>>> = vec![];
    common_pairs!(v, Rgb<u8>, |v: Rgb<u8>, k: u8| Rgb([v[2].wrapping_add(k.wrapping_mul(9)), v[0], v[1] / 2]), Rgb([77, 8, 9]));
    pair!(v, "salt_and_pepper_noise", |p, i| { let r = p.pick(&[0.4, 0.0, 1.0]); noise::salt_and_pepper_noise(i, r, 3) },
        { let r = p.pick(&[0.4, 0.0, 1.0]); noise::salt_and_pepper_noise_mut(i, r, 3) });
    v
}
fn rgba_pairs() -> Vec<Pair<Rgba<u8>>> {
    let mut v: Vec<Pair<Rgba<u8>>> = vec![];
    common_pairs!(v, Rgba<u8>, |v: Rgba<u8>, k: u8| Rgba([v[3].wrapping_add(k.wrapping_mul(9)), v[0], v[1] / 2, v[2]]), Rgba([77, 8, 9, 255]));
    v
}

fn th(p: &mut Pk) -> (u8, T) {
    match p.pick(&[0, 1, 2, 3, 4]) {
        0 => (100, T::Binary),
        1 => (100, T::Truncate),
        2 => (0, T::BinaryInverted),
        3 => (255, T::ToZero),
        _ => (99, T::ToZeroInverted),
    }
}
fn norm(p: &mut Pk) -> Norm {
    match p.pick(&[0, 1, 2]) {
        0 => Norm::L1,
        1 => Norm::L2,
        _ => Norm::LInf,
    }
}
fn k(p: &mut Pk) -> u8 {
    p.pick(&[1, 2, 0])
}
fn target(p: &mut Pk, i: &GrayImage) -> GrayImage {
    match p.pick(&[0, 1, 2]) {
        0 => gray_pat(0, 5, 4),
        1 => gray_pat(3, i.width(), i.height() + 1),
        _ => GrayImage::new(0, 2),
    }
}
fn at(p: &mut Pk, i: &GrayImage) -> (u32, u32) {
    let (w, h) = i.dimensions();
    p.pick(&[(0, 0), (w / 2, h / 2), (w.saturating_sub(1), 0)])
}
fn feature(p: &mut Pk, i: &GrayImage) -> haar::HaarFeature {
    let f = haar::enumerate_haar_features(i.width().min(5) as u8, i.height().min(5) as u8);
    let n = f.len();
    f[p.pick(&[0, n / 3, n / 2, n.saturating_sub(1)])]
}

fn agree<P: Pixel<Subpixel = u8> + PartialEq>(ch: &mut Ch, pairs: &[Pair<P>], img: Img<P>) -> R {
    agree_limited(ch, 99, pairs, img)
}
fn agree_limited<P: Pixel<Subpixel = u8> + PartialEq>(ch: &mut Ch, limit: usize, pairs: &[Pair<P>], img: Img<P>) -> R {
    let n = ch.choose(pairs.len());
    let (name, new, mt) = &pairs[n];
    let (w, h) = img.dimensions();
    if (w == 0 || h == 0) && matches!(*name, "replace" | "overlay" | "flood_fill")
        || (w < 2 && h < 2) && *name == "draw_haar_feature"
        || (w == 0 || h == 0) && *name == "draw_haar_feature"
    {
        return ch.reject();
    }
    ch.log(|| format!("{name} of {}", show(&img)));
    ch.ops(3);
    let before = img.clone();
    let mut p = Pk::new(ch, limit);
    let a = new(&mut p, &img);
    p.replay();
    let mut b = img.clone();
    mt(&mut p, &mut b);
    p.replay();
    let c = new(&mut p, &img);
    check!(img == before, "{name} modified its input");
    if let Some(d) = diff(&b, &a) {
        fail!("{name}: in-place form, compared with the returning form: {d}");
    }
    if let Some(d) = diff(&c, &a) {
        fail!("{name}: second call, compared with the first: {d}");
    }
    ch.observe_bytes(a.as_raw());
    Ok(())
}

fn image_set(ch: &mut Ch) -> (u32, u32, usize) {
    if ch.flag() {
        let (w, h) = large_shape(ch);
        let k = ch.pick(&[0, 3]);
        (w, h, k)
    } else {
        let (w, h) = (ch.u(0, if ch.thorough { 8 } else { 5 }), ch.u(0, if ch.thorough { 8 } else { 5 }));
        let k = ch.choose(NPAT);
        (w, h, k)
    }
}

fn interp(ch: &mut Ch) -> Interpolation {
    ch.pick(&[Interpolation::Nearest, Interpolation::Bilinear, Interpolation::Bicubic])
}

fn main() {
    run("C02", |r| {
        r.section("gray pairs", "25 operations with a returning and an in-place form x 2-6 arguments each x every gray image of shapes 1x1..2x2 (thorough: 3x2) over {0, 99, 100, 255}", |ch| {
            let pairs = gray_pairs();
            let (w, h) = shape(ch, 1, 3, if ch.thorough { 6 } else { 4 });
            let img = if ch.thorough && w * h > 4 { gray(ch, w, h, &[0, 100, 255]) } else { gray(ch, w, h, &[0, 99, 100, 255]) };
            agree(ch, &pairs, img)
        });
        r.section("pattern pairs", "the same, and 15 to 16 operations on RGB and RGBA images x shapes 0..=5 squared (thorough: 0..=8) x 10 patterns, and 8 larger shapes x 2 patterns", |ch| {
            let (w, h, k) = image_set(ch);
            match ch.choose(3) {
                0 => agree(ch, &gray_pairs(), u8_pat(k, w, h)),
                1 => agree(ch, &rgb_pairs(), u8_pat(k, w, h)),
                _ => agree(ch, &rgba_pairs(), u8_pat(k, w, h)),
            }
        });
        r.section("sizes", "the pairs with their first arguments on about 320 shapes with one side from 1 to 70 or around powers of two", |ch| {
            let (w, h) = sweep_shape(ch);
            if w * h > 20_000 && w != h + 1 {
                return ch.reject();
            }
            match ch.choose(3) {
                0 => agree_limited(ch, 1, &gray_pairs(), u8_pat(0, w, h)),
                1 => agree_limited(ch, 1, &rgb_pairs(), u8_pat(3, w, h)),
                _ => agree_limited(ch, 1, &rgba_pairs(), u8_pat(0, w, h)),
            }
        });
        r.section("warp_into", "source shapes 0..=4 squared x 7 output shapes x 4 earlier contents of the buffer x 12 projections or mappings (including preimages which are far outside, infinite or not numbers) x 3 interpolations, and two successive warps into the same buffer", |ch| {
            let (w, h) = if ch.thorough { (ch.u(0, 6), ch.u(0, 6)) } else { ch.pick(&[(4, 3), (0, 0), (0, 2), (3, 0), (1, 1), (1, 4), (5, 5), (17, 20)]) };
            let (ow, oh) = ch.pick(&[(w, h), (w + 2, h), (w, h + 1), (0, 0), (0, 3), (2, 0), (3, 3), (19, 9)]);
            let k = interp(ch);
            let m = ch.choose(12);
            let (def, again) = (Rgb([9u8, 8, 7]), ch.flag());
            ch.ops(5);
            ch.log(|| format!("source {w}x{h}, output {ow}x{oh}, {k:?}, mapping {m}, buffer used before: {again}"));
            let img: RgbImage = u8_pat(0, w, h);
            let before = img.clone();
            let pr = [
                Projection::translate(0.5, 0.25),
                Projection::rotate(0.7),
                Projection::scale(2.0, 0.5),
                Projection::translate(100.0, 0.0),
                Projection::from_matrix([1.0, 0.2, 0.0, 0.1, 1.0, 0.0, 0.3, -0.25, 1.0]).unwrap(),
                Projection::translate(3e6, -1.0),
                Projection::scale(1e-12, 1e12),
            ];
            let np = pr.len();
            let f = |x: f32, y: f32| match m - np {
                0 => (y * 0.75, x + 0.5),
                1 => (if x == 1.0 { f32::NAN } else { x }, y),
                2 => (x, if x == y { f32::NAN } else { y }),
                3 => (if y == 0.0 { f32::INFINITY } else { x }, if x == 0.0 { f32::NEG_INFINITY } else { y }),
                _ => (x * 4e6 - 1e6, y * 1e20),
            };
            let go = |out: &mut RgbImage| {
                if m < np {
                    warp_into(&img, &pr[m], k, def, out)
                } else {
                    warp_into_with(&img, f, k, def, out)
                }
            };
            let mut outs = vec![];
            for fill in 0..4 {
                let mut out = RgbImage::from_fn(ow, oh, |x, y| match fill {
                    0 => Rgb([0, 0, 0]),
                    1 => Rgb([255, 255, 255]),
                    2 => Rgb([pat(0, x, y, 5, ow, oh), 3, 4]),
                    _ => def,
                });
                if again {
                    warp_into(&u8_pat::<Rgb<u8>>(3, 5, 5), &pr[2], Interpolation::Nearest, Rgb([1, 1, 1]), &mut out);
                }
                go(&mut out);
                outs.push(out);
            }
            check!(img == before, "the source was modified");
            for o in &outs[1..] {
                if let Some(d) = diff(o, &outs[0]) {
                    fail!("the result depends on the earlier content of the buffer: {d}");
                }
            }
            if (ow, oh) == (w, h) {
                let n = if m < np { warp(&img, &pr[m], k, def) } else { warp_with(&img, f, k, def) };
                if let Some(d) = diff(&outs[0], &n) {
                    fail!("warp_into compared with warp: {d}");
                }
            } else if w > 0 && h > 0 {
                // warping into a larger or smaller buffer is a window onto the same plane
                let (bw, bh) = (w.max(ow), h.max(oh));
                let mut big = RgbImage::new(bw, bh);
                go(&mut big);
                for (x, y, v) in outs[0].enumerate_pixels() {
                    check!(v == big.get_pixel(x, y), "pixel ({x},{y}) differs when the buffer is larger");
                }
            }
            ch.observe_bytes(outs[0].as_raw());
            Ok(())
        });
        r.section("running sums", "shapes 1..=4 squared x rows/columns x padding 0..=3 x longer buffers x 3 earlier contents: same sums, image untouched", |ch| {
            let (w, h) = (ch.u(1, 5), ch.u(1, 5));
            let pad = ch.pick(&[0, 1, 2, 3, 40]);
            let extra = ch.choose(3);
            let rows = ch.flag();
            let at = ch.u(0, if rows { h - 1 } else { w - 1 });
            let img = gray_pat(ch.choose(NPAT), w, h);
            let before = img.clone();
            ch.ops(3);
            ch.log(|| format!("{} padding {pad}, extra {extra}, rows {rows}, at {at}", show(&img)));
            let n = (if rows { w } else { h } + 2 * pad) as usize;
            let mut first: Option<Vec<u32>> = None;
            for fill in [0, 1, u32::MAX] {
                let mut b = vec![fill; n + extra];
                if rows {
                    row_running_sum(&img, at, &mut b, pad);
                } else {
                    column_running_sum(&img, at, &mut b, pad);
                }
                b.truncate(n);
                if let Some(f) = &first {
                    check!(*f == b, "the sums depend on the earlier content of the buffer: {b:?}, {f:?}");
                } else {
                    first = Some(b);
                }
            }
            check!(img == before, "the image was modified");
            Ok(())
        });
        r.section("histories", "all sequences of 4 (thorough: 5) in-place operations on one buffer x 2 start images, compared with composing the returning forms", |ch| {
            let pairs = gray_pairs();
            let start = if ch.flag() { gray_pat(8, 3, 7) } else { gray_pat(0, 5, 4) };
            let mut buf = start.clone();
            let mut fun = start.clone();
            let mut kept = vec![];
            let mut names = vec![];
            for _ in 0..if ch.thorough { 5 } else { 4 } {
                let n = ch.choose(pairs.len());
                let (name, new, mt) = &pairs[n];
                names.push(*name);
                ch.ops(2);
                let mut p = Pk::new(ch, 1);
                mt(&mut p, &mut buf);
                p.replay();
                let f = new(&mut p, &fun);
                kept.push((fun, f.clone()));
                fun = f;
                if let Some(d) = diff(&buf, &fun) {
                    ch.log(|| format!("{names:?} on {}", show(&start)));
                    fail!("after {names:?}: in-place forms, compared with the returning forms: {d}");
                }
            }
            // intermediate results are values of their own
            for w in kept.windows(2) {
                check!(w[0].1 == w[1].0, "an earlier result changed later on, after {names:?}");
            }
            ch.observe_bytes(buf.as_raw());
            Ok(())
        });
        r.section("repetition", "every operation of the library (88 entries, 1-2 values per parameter) x every other operation called in between x 4 images (thorough: 5): same digest, input unchanged", |ch| {
            let ops = ops();
            let n = ch.choose(ops.len());
            let m = ch.choose(ops.len());
            let imgs = [(0, 9u32, 8u32), (8, 5, 7), (3, 1, 4), (4, 20, 18), (9, 38, 36)];
            let (k, w, h) = ch.pick(&imgs[if ch.thorough { 0 } else { 1 }..]);
            if !ch.thorough && w > 20 && m != n && m != (n + 1) % ops.len() {
                return ch.reject();
            }
            let img = gray_pat(k, w, h);
            let alt = gray_pat((k + 1) % NPAT, w, h);
            let before = img.clone();
            ch.ops(5);
            ch.log(|| format!("{} then {} on pattern {k} of {w}x{h}", ops[n].0, ops[m].0));
            let mut p = Pk::new(ch, 2);
            let a = (ops[n].1)(&mut p, &img);
            if p.excluded() {
                return ch.reject();
            }
            p.sub(1, |q| (ops[m].1)(q, &img));
            p.replay();
            let b = (ops[n].1)(&mut p, &img);
            // the same parameters may be excluded for another image, never for one of the same shape
            p.replay();
            let c = (ops[n].1)(&mut p, &alt);
            p.replay();
            let d = (ops[n].1)(&mut p, &img);
            p.replay();
            let e = (ops[n].1)(&mut p, &alt);
            check!(a == b, "{}: another result after {}", ops[n].0, ops[m].0);
            check!(a == d && c == e, "{}: another result after a call with another image", ops[n].0);
            check!(alt == gray_pat((k + 1) % NPAT, w, h), "{} modified its input", ops[n].0);
            ch.observe(a);
            check!(img == before, "{} or {} modified its input", ops[n].0, ops[m].0);
            Ok(())
        });
        r.section("parameter histories", "every operation of the library x up to 5 values per parameter x 2 images (thorough: all values, 3 images), called again after the same operation with any one parameter changed to any other value of its alphabet: same digest every time", |ch| {
            let ops = ops();
            let n = ch.choose(ops.len());
            let imgs = [(0, 9u32, 8u32), (8, 5, 7), (3, 16, 20)];
            let (k, w, h) = ch.pick(&imgs[..if ch.thorough { 3 } else { 2 }]);
            let img = gray_pat(k, w, h);
            let limit = if ch.thorough { 99 } else { 5 };
            let mut p = Pk::new(ch, limit);
            let first = (ops[n].1)(&mut p, &img);
            if p.excluded() {
                return ch.reject();
            }
            let near = p.neighbours();
            let mut bad = None;
            for &(j, v) in &near {
                p.replay_altered(j, v);
                (ops[n].1)(&mut p, &img);
                p.replay();
                let again = (ops[n].1)(&mut p, &img);
                if again != first {
                    bad = Some((j, v));
                    break;
                }
            }
            ch.ops(2 * near.len() as u64 + 1);
            ch.log(|| format!("{} on pattern {k} of {w}x{h}", ops[n].0));
            if let Some((j, v)) = bad {
                fail!("{}: another result after a call with parameter {j} changed to its value {v}", ops[n].0);
            }
            ch.observe(first);
            Ok(())
        });
        r.section("image histories", "every operation of the library x up to 4 values per parameter (thorough: all), called again after calls with other images: the same bytes in another shape, transposed sides, one pixel changed, larger, smaller, and the same buffer overwritten: same digest every time", |ch| {
            let ops = ops();
            let n = ch.choose(ops.len());
            let (k, w, h) = ch.pick(&[(0, 12u32, 8u32), (8, 6, 16), (4, 20, 18)]);
            let img = gray_pat(k, w, h);
            ch.log(|| format!("{} on pattern {k} of {w}x{h}", ops[n].0));
            let mut dot = img.clone();
            dot.put_pixel(w - 1, h - 1, Luma([img.get_pixel(w - 1, h - 1)[0] ^ 0x80]));
            let others = [
                GrayImage::from_raw(h, w, img.as_raw().clone()).unwrap(),
                GrayImage::from_raw(w / 2, h * 2, img.as_raw().clone()).unwrap(),
                dot,
                gray_pat(k, w + 1, h),
                gray_pat(k, w - 1, h + 1),
                gray_pat(k, 2 * w, 2 * h),
                GrayImage::from_pixel(w, h, Luma([0])),
                GrayImage::from_pixel(w, h, Luma([255])),
            ];
            ch.ops(5 * others.len() as u64 + 1);
            let limit = if ch.thorough { 99 } else { 4 };
            let mut p = Pk::new(ch, limit);
            let first = (ops[n].1)(&mut p, &img);
            if p.excluded() {
                return ch.reject();
            }
            let mut call = |i: &GrayImage| {
                p.replay();
                (ops[n].1)(&mut p, i)
            };
            for (j, o) in others.iter().enumerate() {
                let there = call(o);
                check!(call(&img) == first, "{}: another result after a call with another image ({j})", ops[n].0);
                if o.dimensions() == (w, h) {
                    let mut buf = img.clone();
                    check!(call(&buf) == first, "{}: another result for a copy", ops[n].0);
                    buf.copy_from_slice(o);
                    check!(call(&buf) == there, "{}: another result for a buffer which has been overwritten ({j})", ops[n].0);
                }
            }
            ch.observe(first);
            Ok(())
        });
        r.section("near parameters", "44 functions x 8 to 63 close and distant values of their parameters each x every such value used in the call before: same digest every time", |ch| {
            let fns = dense();
            let (name, n, f) = fns[ch.choose(fns.len())];
            let b = ch.choose(n);
            let (k, w, h) = ch.pick(&[(0, 14u32, 11u32), (8, 9, 13)]);
            let img = gray_pat(k, w, h);
            ch.log(|| format!("{name}, value {b}, pattern {k} of {w}x{h}"));
            ch.ops(2 * n as u64 + 1);
            let first = f(b, &img);
            for a in 0..n {
                f(a, &img);
                check!(f(b, &img) == first, "{name}: another result for value {b} after a call with value {a}");
            }
            ch.observe(first);
            Ok(())
        });
    });
}
