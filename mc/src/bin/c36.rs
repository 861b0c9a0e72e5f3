//! C36: perceptual hash.
use image::*;
use imageproc::definitions::Image;
use imageproc::image_hash::*;
use mc::*;
use std::f64::consts::PI;

type F = Image<Luma<f32>>;

/// Deviations from the mean of the 8x8 block of lowest non-constant DCT-II coefficients of the
/// 32x32 reduction, and the rounding error to allow for.
fn coeffs(img: &F) -> (Vec<f64>, f64) {
    let s = imageops::resize(img, 32, 32, imageops::FilterType::Lanczos3);
    let mut rows = [[0f64; 9]; 32];
    for y in 0..32 {
        for k in 1..9 {
            rows[y][k] = (0..32).map(|x| s.get_pixel(x, y as u32)[0] as f64 * (PI / 32.0 * (x as f64 + 0.5) * k as f64).cos()).sum();
        }
    }
    let mut c = vec![];
    for j in 1..9 {
        for k in 1..9 {
            c.push((0..32).map(|y| rows[y][k] * (PI / 32.0 * (y as f64 + 0.5) * j as f64).cos()).sum::<f64>());
        }
    }
    let mean = c.iter().sum::<f64>() / 64.0;
    let total: f64 = s.iter().map(|v| v.abs() as f64).sum();
    (c.iter().map(|v| v - mean).collect(), 1e-5 * total + 1e-12)
}

fn image(k: usize, w: u32, h: u32) -> F {
    Image::from_fn(w, h, |x, y| {
        Luma([match k {
            0..=9 => pat(k, x, y, 0, w, h) as f32 / 255.0,
            10 => ((x as f32 * 0.3).sin() * (y as f32 * 0.17).cos() + 1.0) / 2.0,
            11 => ((x * x + 3 * y) % 17) as f32 / 16.0,
            12 => (x as f32 + 0.5) / w as f32 * 0.4 + (y as f32 + 0.5) / h as f32 * 0.6,
            _ => ((x as f32 / w as f32 - 0.3).powi(2) + (y as f32 / h as f32 - 0.6).powi(2)).sqrt() / 2.0,
        }])
    })
}
const NK: usize = 14;
const SHAPES: [(u32, u32); 11] = [(1, 1), (2, 3), (3, 2), (8, 8), (31, 33), (32, 32), (33, 31), (64, 64), (100, 40), (40, 100), (1, 64)];

/// The number of bits in which the hashes of the two images must / may differ.
fn expected(a: &(Vec<f64>, f64), b: &(Vec<f64>, f64)) -> (u32, u32) {
    let (mut lo, mut hi) = (0, 0);
    for i in 0..64 {
        if a.0[i].abs() <= a.1 || b.0[i].abs() <= b.1 {
            hi += 1;
        } else if (a.0[i] > 0.0) != (b.0[i] > 0.0) {
            lo += 1;
            hi += 1;
        }
    }
    (lo, hi)
}

fn pair(ch: &mut Ch, a: &F, b: &F) -> R {
    ch.ops(3);
    let (ca, cb) = (coeffs(a), coeffs(b));
    let (ha, hb) = (phash(a), phash(b));
    let d = ha.hamming_distance(hb);
    let (lo, hi) = expected(&ca, &cb);
    ch.observe(d as u64);
    ch.log(|| format!("{} {} distance {d}, {lo}..{hi}", show(a), show(b)));
    check!((lo..=hi).contains(&d), "distance {d}, expected {lo}..={hi}");
    check!(hb.hamming_distance(ha) == d, "the distance is not symmetric");
    check!((d == 0) == (ha == hb), "distance {d} but equality is {}", ha == hb);
    check!(ha.hamming_distance(ha) == 0, "distance to itself");
    check!(phash(a) == ha, "two calls differ");
    Ok(())
}

/// Weights of single DCT components: image whose coefficient (j,k) dominates.
fn cosine(j: u32, k: u32, sign: f32, base: &F) -> F {
    Image::from_fn(32, 32, |x, y| {
        let c = (PI / 32.0 * (x as f64 + 0.5) * k as f64).cos() * (PI / 32.0 * (y as f64 + 0.5) * j as f64).cos();
        Luma([0.5 + sign * 0.2 * c as f32 + 0.1 * (base.get_pixel(x, y)[0] - 0.5)])
    })
}

fn main() {
    run("C36", |r| {
        r.section("pairs", "all pairs of 14 pattern images x 11 shapes: distance equals the number of differing signs", |ch| {
            let a = image(ch.choose(NK), 40, 30);
            let (w, h) = ch.pick(&SHAPES);
            let b = image(ch.choose(NK), w, h);
            pair(ch, &a, &b)
        });
        r.section("single-bits", "each of the 64 coefficients (and those just outside the block) raised or lowered on 3 bases", |ch| {
            let (j, k) = (ch.u(0, 9), ch.u(0, 9));
            let base = image(ch.pick(&[0usize, 8, 10]), 32, 32);
            let plain = Image::from_fn(32, 32, |x, y| Luma([0.5 + 0.1 * (base.get_pixel(x, y)[0] - 0.5)]));
            let (p, m) = (cosine(j, k, 1.0, &base), cosine(j, k, -1.0, &base));
            pair(ch, &plain, &p)?;
            pair(ch, &plain, &m)?;
            pair(ch, &p, &m)
        });
        r.section("triangle", "all triples of 14 hashes", |ch| {
            let h: Vec<PHash> = (0..3).map(|_| phash(&image(ch.choose(NK), 40, 30))).collect();
            ch.ops(6);
            check!(
                h[0].hamming_distance(h[2]) <= h[0].hamming_distance(h[1]) + h[1].hamming_distance(h[2]),
                "triangle inequality"
            );
            check!(h.iter().all(|a| h.iter().all(|b| a.hamming_distance(*b) <= 64)), "more than 64 differing bits");
            Ok(())
        });
        r.section("brightness", "brightness offsets and contrast factors that stay within [0,1] change no decided bit", |ch| {
            let k = ch.choose(NK);
            let (w, h) = ch.pick(&SHAPES);
            let off = ch.pick(&[0.0f32, 0.1, 0.25]);
            let f = ch.pick(&[0.5f32, 0.25, 0.3, 0.125]);
            let a = image(k, w, h);
            // away from the ends of the range, where the resampling clips
            let mid = Image::from_fn(w, h, |x, y| Luma([a.get_pixel(x, y)[0] * 0.4 + 0.3]));
            let b = Image::from_fn(w, h, |x, y| Luma([0.5 + (mid.get_pixel(x, y)[0] - 0.5) * f + off]));
            let (ca, cb) = (coeffs(&mid), coeffs(&b));
            let undecided = (0..64).filter(|&i| ca.0[i].abs() <= ca.1 || cb.0[i].abs() <= cb.1).count() as u32;
            let d = phash(&mid).hamming_distance(phash(&b));
            ch.ops(2);
            check!(d <= undecided, "{d} bits change, {undecided} are at the mean");
            Ok(())
        });
        r.section("scaling", "images multiplied by 2^-1 .. 2^-40: rounding scales exactly, so no bit may change", |ch| {
            let k = ch.choose(NK);
            let (w, h) = ch.pick(&SHAPES);
            let n = ch.u(1, 40) as i32;
            let a = image(k, w, h);
            let base = Image::from_fn(w, h, |x, y| Luma([a.get_pixel(x, y)[0] * 0.5]));
            let b = Image::from_fn(w, h, |x, y| Luma([base.get_pixel(x, y)[0] * 0.5f32.powi(n)]));
            ch.ops(2);
            let d = phash(&base).hamming_distance(phash(&b));
            check!(d == 0, "{d} bits change when the image is multiplied by 2^-{n}");
            Ok(())
        });
        r.section("shapes", "all shapes 1..=66 squared (thorough 1..=130) and multiples of 32, three patterns, against a fixed image", |ch| {
            let (w, h) = if ch.flag() {
                let n = if ch.thorough { 130 } else { 66 };
                (ch.u(1, n), ch.u(1, n))
            } else {
                let l = [8u32, 16, 32, 64, 96, 128, 160, 256, 320, 1024];
                (ch.pick(&l), ch.pick(&l))
            };
            let k = ch.pick(&[0usize, 11, 13]);
            pair(ch, &image(k, w, h), &image(10, 16, 16))
        });
        r.section("tiny", "all images of area <=4 over {0, 0.4, 1} against a fixed one", |ch| {
            let (w, h) = shape(ch, 1, 4, 4);
            let a: F = img_of(ch, w, h, &[Luma([0.0f32]), Luma([0.4]), Luma([1.0])]);
            pair(ch, &a, &image(0, 16, 16))
        });
    });
}
