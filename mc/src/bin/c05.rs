//! C05: smoothing filters are normalised weighted averages.
use image::*;
use imageproc::filter::bilateral::{bilateral_filter, ColorDistance, GaussianEuclideanColorDistance};
use imageproc::filter::{gaussian_blur_f32, sharpen_gaussian};
use mc::*;

const EPS: f64 = 2e-3;

fn gauss_kernel(sigma: f64) -> Vec<f64> {
    let r = (2.0 * sigma).ceil() as i64;
    let k: Vec<f64> = (-r..=r).map(|i| (-(i * i) as f64 / (2.0 * sigma * sigma)).exp()).collect();
    let s: f64 = k.iter().sum();
    k.iter().map(|v| v / s).collect()
}

fn pass(v: &[f64], w: usize, h: usize, cc: usize, k: &[f64], horizontal: bool) -> Vec<f64> {
    let r = (k.len() / 2) as i64;
    let mut out = vec![0.0; v.len()];
    for y in 0..h {
        for x in 0..w {
            for c in 0..cc {
                let mut s = 0.0;
                for (i, kv) in k.iter().enumerate() {
                    let d = i as i64 - r;
                    let (px, py) = if horizontal {
                        ((x as i64 + d).clamp(0, w as i64 - 1) as usize, y)
                    } else {
                        (x, (y as i64 + d).clamp(0, h as i64 - 1) as usize)
                    };
                    s += kv * v[(py * w + px) * cc + c];
                }
                out[(y * w + x) * cc + c] = s;
            }
        }
    }
    out
}

/// Inclusive bounds of the 8-bit result: truncation after each pass, f32 rounding slack.
fn blur_u8(v: &[u8], w: usize, h: usize, cc: usize, sigma: f64) -> (Vec<f64>, Vec<f64>) {
    let k = gauss_kernel(sigma);
    let f: Vec<f64> = v.iter().map(|&x| x as f64).collect();
    let a = pass(&f, w, h, cc, &k, true);
    let lo: Vec<f64> = a.iter().map(|x| (x - EPS).floor().max(0.0)).collect();
    let hi: Vec<f64> = a.iter().map(|x| (x + EPS).floor().min(255.0)).collect();
    let lo = pass(&lo, w, h, cc, &k, false).iter().map(|x| (x - EPS).floor().max(0.0)).collect();
    let hi = pass(&hi, w, h, cc, &k, false).iter().map(|x| (x + EPS).floor().min(255.0)).collect();
    (lo, hi)
}

fn check_blur_u8<P: Pixel<Subpixel = u8>>(img: &Img<P>, sigma: f32) -> R {
    let (w, h) = img.dimensions();
    let cc = P::CHANNEL_COUNT as usize;
    let out = gaussian_blur_f32(img, sigma);
    check!(out.dimensions() == (w, h), "dimensions {:?}", out.dimensions());
    let (lo, hi) = blur_u8(img.as_raw(), w as usize, h as usize, cc, sigma as f64);
    for (i, &g) in out.as_raw().iter().enumerate() {
        check!(g as f64 >= lo[i] && g as f64 <= hi[i], "blur sigma {sigma}: sample {i} is {g}, expected {}..={}", lo[i], hi[i]);
    }
    Ok(())
}

struct Custom(usize);
impl<P: Pixel<Subpixel = u8>> ColorDistance<P> for Custom {
    fn color_distance(&self, a: &P, b: &P) -> f32 {
        let (a, b) = (a.channels()[0], b.channels()[0]);
        match self.0 {
            0 => 1.0,
            1 => {
                if b > a {
                    1.0
                } else {
                    0.25
                }
            }
            _ => {
                if a.abs_diff(b) < 50 {
                    2.0
                } else {
                    0.0
                }
            }
        }
    }
}

fn check_bilateral<P>(img: &Img<P>, radius: u8, ss: f32, cs: f32, custom: usize) -> R
where
    P: Pixel<Subpixel = u8>,
{
    let (w, h) = img.dimensions();
    let cc = P::CHANNEL_COUNT as usize;
    let out = if custom == 3 {
        bilateral_filter(img, radius, ss, GaussianEuclideanColorDistance::new(cs))
    } else {
        bilateral_filter(img, radius, ss, Custom(custom))
    };
    check!(out.dimensions() == (w, h), "dimensions {:?}", out.dimensions());
    let rr = radius as i64;
    for y in 0..h {
        for x in 0..w {
            let cp = img.get_pixel(x, y);
            let mut ws = 0.0;
            let mut vs = vec![0.0; cc];
            let mut mn = vec![255u8; cc];
            let mut mx = vec![0u8; cc];
            for dy in -rr..=rr {
                for dx in -rr..=rr {
                    let qx = (x as i64 + dx).clamp(0, w as i64 - 1) as u32;
                    let qy = (y as i64 + dy).clamp(0, h as i64 - 1) as u32;
                    let q = img.get_pixel(qx, qy);
                    let sw = (-((dx * dx + dy * dy) as f64) / (2.0 * (ss as f64).powi(2))).exp();
                    let cw = if custom == 3 {
                        let d2: f64 = cp.channels().iter().zip(q.channels()).map(|(a, b)| (*a as f64 - *b as f64).powi(2)).sum();
                        (-d2 / (2.0 * (cs as f64).powi(2))).exp()
                    } else {
                        Custom(custom).color_distance(cp, q) as f64
                    };
                    ws += sw * cw;
                    for c in 0..cc {
                        let v = q.channels()[c];
                        vs[c] += sw * cw * v as f64;
                        mn[c] = mn[c].min(v);
                        mx[c] = mx[c].max(v);
                    }
                }
            }
            for c in 0..cc {
                let e = vs[c] / ws;
                let g = out.get_pixel(x, y).channels()[c];
                // rounding of the running sums, which grows with the number of samples that count
                let eps = EPS.max(ws.max(1.0).min((2.0 * rr as f64 + 1.0).powi(2)) * 6e-8 * 255.0);
                check!(
                    g as f64 >= (e - eps).floor().max(0.0) && g as f64 <= (e + eps).floor(),
                    "bilateral at ({x},{y}) channel {c}: {g}, expected {e}"
                );
                check!(g <= mx[c] && g as u32 + 1 >= mn[c] as u32, "bilateral at ({x},{y}): {g} outside the window range {}..={}", mn[c], mx[c]);
            }
        }
    }
    Ok(())
}

/// Values in the range of the type whose rounding errors are known.
fn spread<S: Val>(v: u8, k: u32) -> S {
    let v = match S::NAME {
        "u8" => v as f64,
        "i8" => v as f64 - 128.0,
        "u16" => v as f64 * 257.0 - (v > 100) as u32 as f64 * (k % 9) as f64,
        "i16" => (v as f64 - 128.0) * 255.0 + (k % 9) as f64,
        _ => v as f64 * 3.75 - 400.0 + (k % 5) as f64 * 0.125,
    };
    S::from(v).unwrap()
}
fn spread_img<P: Pixel>(pt: usize, w: u32, h: u32) -> Img<P>
where
    P::Subpixel: Val,
{
    Img::<P>::from_fn(w, h, |x, y| {
        let v: Vec<P::Subpixel> = (0..P::CHANNEL_COUNT as u32).map(|c| spread(pat(pt, x, y, c, w, h), x + 3 * y + c)).collect();
        *P::from_slice(&v)
    })
}
fn values<P: Pixel>(img: &Img<P>) -> Vec<f64>
where
    P::Subpixel: Val,
{
    img.as_raw().iter().map(|v| v.f()).collect()
}

fn typed_blur<P>(ch: &mut Ch) -> R
where
    P: Pixel,
    P::Subpixel: Val + Into<f32> + imageproc::definitions::Clamp<f32>,
{
    let sigma = ch.pick(&[0.3f32, 0.8, 1.5, 3.0]);
    let (w, h) = ch.pick(&[(1u32, 1u32), (5, 4), (2, 9), (12, 3)]);
    let pt = ch.choose(NPAT);
    let img: Img<P> = spread_img(pt, w, h);
    let cc = P::CHANNEL_COUNT as usize;
    ch.log(|| format!("{} x{cc} {w}x{h} pattern {pt} sigma {sigma}", P::Subpixel::NAME));
    ch.op();
    let out = gaussian_blur_f32(&img, sigma);
    check!(out.dimensions() == (w, h), "dimensions {:?}", out.dimensions());
    let k = gauss_kernel(sigma as f64);
    let v = values(&img);
    let eps = v.iter().fold(255.0f64, |a, b| a.max(b.abs())) * 8e-6;
    let int = P::Subpixel::NAME != "f32";
    let t = |v: f64, s: f64| if int { (v + s * eps).floor() } else { v + s * eps };
    let a = pass(&v, w as usize, h as usize, cc, &k, true);
    let lo: Vec<f64> = a.iter().map(|x| t(*x, -1.0)).collect();
    let hi: Vec<f64> = a.iter().map(|x| t(*x, 1.0)).collect();
    let lo: Vec<f64> = pass(&lo, w as usize, h as usize, cc, &k, false).iter().map(|x| t(*x, -1.0)).collect();
    let hi: Vec<f64> = pass(&hi, w as usize, h as usize, cc, &k, false).iter().map(|x| t(*x, 1.0)).collect();
    for (i, g) in values(&out).into_iter().enumerate() {
        check!(g >= lo[i] && g <= hi[i], "blur: sample {i} is {g}, expected {}..={}", lo[i], hi[i]);
    }
    Ok(())
}

fn typed_bilateral<P>(ch: &mut Ch) -> R
where
    P: Pixel,
    P::Subpixel: Val,
    f32: From<P::Subpixel> + num::traits::AsPrimitive<P::Subpixel>,
{
    let radius = ch.pick(&[0u8, 1, 3]);
    let range = P::Subpixel::DEFAULT_MAX_VALUE.f().clamp(100.0, 65535.0) as f32;
    let (ss, cs) = (ch.pick(&[0.7f32, 5.0]), ch.pick(&[0.05f32, 0.4, 3.0]) * range);
    let (w, h) = ch.pick(&[(1u32, 1u32), (5, 4), (2, 7)]);
    let pt = ch.choose(NPAT);
    let img: Img<P> = spread_img(pt, w, h);
    let cc = P::CHANNEL_COUNT as usize;
    ch.log(|| format!("{} x{cc} {w}x{h} pattern {pt} radius {radius} sigmas {ss} {cs}", P::Subpixel::NAME));
    ch.ops(2);
    let out = bilateral_filter(&img, radius, ss, GaussianEuclideanColorDistance::new(cs));
    check!(out.dimensions() == (w, h), "dimensions {:?}", out.dimensions());
    let mut outer: Img<P> = spread_img(0, w + 3, h + 2);
    imageops::replace(&mut outer, &img, 2, 1);
    let view = bilateral_filter(&*outer.sub_image(2, 1, w, h), radius, ss, GaussianEuclideanColorDistance::new(cs));
    if let Some(d) = tdiff(&view, &out) {
        fail!("on a window of an image: {d}");
    }
    let rr = radius as i64;
    let big = values(&img).iter().fold(255.0f64, |a, b| a.max(b.abs()));
    for y in 0..h {
        for x in 0..w {
            let cp = img.get_pixel(x, y);
            let (mut ws, mut vs) = (0.0, vec![0.0; cc]);
            for dy in -rr..=rr {
                for dx in -rr..=rr {
                    let q = img.get_pixel((x as i64 + dx).clamp(0, w as i64 - 1) as u32, (y as i64 + dy).clamp(0, h as i64 - 1) as u32);
                    let d2: f64 = cp.channels().iter().zip(q.channels()).map(|(a, b)| (a.f() - b.f()).powi(2)).sum();
                    let wt = (-((dx * dx + dy * dy) as f64) / (2.0 * (ss as f64).powi(2))).exp() * (-d2 / (2.0 * (cs as f64).powi(2))).exp();
                    ws += wt;
                    for c in 0..cc {
                        vs[c] += wt * q.channels()[c].f();
                    }
                }
            }
            for c in 0..cc {
                let (e, g) = (vs[c] / ws, out.get_pixel(x, y).channels()[c].f());
                let eps = big * 1e-5;
                let ok = if P::Subpixel::NAME == "f32" { (g - e).abs() <= eps } else { g >= (e - eps).trunc() && g <= (e + eps).trunc() };
                check!(ok, "bilateral at ({x},{y}) channel {c}: {g}, expected {e}");
            }
        }
    }
    Ok(())
}

fn main() {
    run("C05", |r| {
        let sigmas = [0.1f32, 0.3, 0.5, 0.8, 1.0, 1.49, 1.5, 2.0, 3.3, 6.0, 20.0];
        r.section("blur-f32-impulse", "all shapes 1..=12 squared (thorough 18), impulses at every position + patterns, 11 sigmas, f32 Luma and Rgb", |ch| {
            let n = if ch.thorough { 18 } else { 12 };
            let (w, h) = (ch.u(1, n), ch.u(1, n));
            let sigma = ch.pick(&sigmas);
            let cc = ch.pick(&[1usize, 3]);
            let g = gray_family(ch, w, h);
            ch.log(|| format!("sigma {sigma} channels {cc} {}", show(&g)));
            let v: Vec<f64> = if cc == 1 {
                g.as_raw().iter().map(|&x| x as f64).collect()
            } else {
                g.as_raw().iter().flat_map(|&x| [x as f64, -(x as f64) * 0.5, 255.0 - x as f64]).collect()
            };
            ch.op();
            let f32s: Vec<f32> = v.iter().map(|&x| x as f32).collect();
            let got: Vec<f32> = if cc == 1 {
                gaussian_blur_f32(&Img::<Luma<f32>>::from_raw(w, h, f32s).unwrap(), sigma).into_raw()
            } else {
                gaussian_blur_f32(&Img::<Rgb<f32>>::from_raw(w, h, f32s).unwrap(), sigma).into_raw()
            };
            let k = gauss_kernel(sigma as f64);
            let a = pass(&v, w as usize, h as usize, cc, &k, true);
            let want = pass(&a, w as usize, h as usize, cc, &k, false);
            check!(got.len() == want.len(), "length");
            for (i, (g, e)) in got.iter().zip(&want).enumerate() {
                check!((*g as f64 - e).abs() < 1e-3, "sample {i}: {g}, expected {e}");
            }
            ch.observe(got.iter().fold(0u64, |a, b| a.wrapping_mul(31).wrapping_add(b.to_bits() as u64)));
            Ok(())
        });
        r.section("blur-u8", "all images of area<=8 (thorough 10) over {0,128,255}, families on shapes 1..=6, 11 sigmas, Luma/Rgb/Rgba, constants 0..=255", |ch| {
            let sigma = ch.pick(&sigmas);
            ch.op();
            match ch.choose(4) {
                0 => {
                    let (w, h) = shape(ch, 1, 4, if ch.thorough { 10 } else { 8 });
                    let g = gray(ch, w, h, &[0, 128, 255]);
                    ch.log(|| format!("sigma {sigma} {}", show(&g)));
                    ch.observe_bytes(g.as_raw());
                    check_blur_u8(&g, sigma)
                }
                1 => {
                    let (w, h) = (ch.u(0, 6), ch.u(0, 6));
                    let k = ch.choose(NPAT);
                    ch.log(|| format!("sigma {sigma} {w}x{h} pattern {k}"));
                    if ch.flag() {
                        check_blur_u8(&u8_pat::<Rgb<u8>>(k, w, h), sigma)
                    } else {
                        check_blur_u8(&u8_pat::<Rgba<u8>>(k, w, h), sigma)
                    }
                }
                2 => {
                    let v = ch.u(0, 255) as u8;
                    let (w, h) = ch.pick(&[(1, 1), (3, 2), (5, 5)]);
                    let img = GrayImage::from_pixel(w, h, Luma([v]));
                    ch.log(|| format!("sigma {sigma} constant {v} {w}x{h}"));
                    let o = gaussian_blur_f32(&img, sigma);
                    for &g in o.as_raw() {
                        check!(g <= v && v - g <= 2, "constant {v} became {g}");
                    }
                    Ok(())
                }
                _ => {
                    let (w, h) = large_shape(ch);
                    let k = ch.choose(NPAT);
                    ch.log(|| format!("sigma {sigma} {w}x{h} pattern {k}"));
                    check_blur_u8(&gray_pat(k, w, h), sigma)
                }
            }
        });
        r.section("bilateral", "shapes 1..=5 squared x patterns, area<=6 (thorough 7) images exhaustively over {0,60,255}; radius 0..=3,6; sigma pairs; 4 colour distances; Luma/Rgb/Rgba", |ch| {
            let radius = ch.pick(&[0u8, 1, 2, 3, 6]);
            let ss = ch.pick(&[0.5f32, 1.0, 3.0, 50.0]);
            let custom = ch.choose(4);
            let cs = if custom == 3 { ch.pick(&[5.0f32, 40.0, 1000.0]) } else { 1.0 };
            ch.op();
            if ch.flag() {
                let (w, h) = (ch.u(1, 5), ch.u(1, 5));
                let k = ch.choose(NPAT);
                let layout = ch.choose(3);
                ch.log(|| format!("radius {radius} sigma {ss}/{cs} distance {custom} {w}x{h} pattern {k} layout {layout}"));
                match layout {
                    0 => check_bilateral(&gray_pat(k, w, h), radius, ss, cs, custom),
                    1 => check_bilateral(&u8_pat::<Rgb<u8>>(k, w, h), radius, ss, cs, custom),
                    _ => check_bilateral(&u8_pat::<Rgba<u8>>(k, w, h), radius, ss, cs, custom),
                }
            } else {
                let (w, h) = shape(ch, 1, 4, if ch.thorough { 7 } else { 6 });
                let g = gray(ch, w, h, &[0, 60, 255]);
                ch.observe_bytes(g.as_raw());
                ch.log(|| format!("radius {radius} sigma {ss}/{cs} distance {custom} {}", show(&g)));
                check_bilateral(&g, radius, ss, cs, custom)
            }
        });
        r.section("sharpen", "area<=7 (thorough 9) images over {0,128,255} and families on shapes 1..=5; 6 sigmas x 7 amounts", |ch| {
            let sigma = ch.pick(&[0.3f32, 0.7, 1.0, 2.0, 5.0]);
            let amount = ch.pick(&[0.0f32, 0.25, 0.5, 1.0, 3.0, -0.5, -1.0]);
            let g = if ch.flag() {
                let (w, h) = (ch.u(0, 5), ch.u(0, 5));
                gray_family(ch, w, h)
            } else {
                let (w, h) = shape(ch, 1, 4, if ch.thorough { 9 } else { 7 });
                gray(ch, w, h, &[0, 128, 255])
            };
            ch.log(|| format!("sigma {sigma} amount {amount} {}", show(&g)));
            ch.op();
            let (w, h) = g.dimensions();
            let o = sharpen_gaussian(&g, sigma, amount);
            check!(o.dimensions() == (w, h), "dimensions");
            ch.observe_bytes(o.as_raw());
            let k = gauss_kernel(sigma as f64);
            let f: Vec<f64> = g.as_raw().iter().map(|&x| x as f64).collect();
            let a = pass(&f, w as usize, h as usize, 1, &k, true);
            let b = pass(&a, w as usize, h as usize, 1, &k, false);
            for i in 0..b.len() {
                let e = (1.0 + amount as f64) * f[i] - amount as f64 * b[i];
                let (lo, hi) = ((e - EPS).clamp(0.0, 255.0).floor(), (e + EPS).clamp(0.0, 255.0).floor());
                let v = o.as_raw()[i] as f64;
                check!(v >= lo && v <= hi, "sample {i}: {v}, expected {e}");
            }
            Ok(())
        });
        r.section("sizes", "every width and height 1..=70 and the neighbours of round sizes up to 1025: blur with 4 sigmas, bilateral filter with radius 1 and 2; grey and RGB", |ch| {
            let (w, h) = sweep_shape(ch);
            let k = ch.choose(6);
            let rgb = ch.flag();
            ch.log(|| format!("{w}x{h} case {k} rgb {rgb}"));
            ch.op();
            match (k, rgb) {
                (0..=3, false) => check_blur_u8(&gray_pat(0, w, h), [0.4, 1.0, 2.3, 7.0][k]),
                (0..=3, true) => check_blur_u8(&u8_pat::<Rgb<u8>>(0, w, h), [0.4, 1.0, 2.3, 7.0][k]),
                (_, false) => check_bilateral(&gray_pat(0, w, h), k as u8 - 3, 2.0, 40.0, 3),
                _ => check_bilateral(&u8_pat::<Rgb<u8>>(0, w, h), k as u8 - 3, 2.0, 40.0, 3),
            }
        });
        r.section("bilateral-radii", "every radius 0..=255 of the bilateral filter on 4 tiny shapes, 3 spatial widths, 2 colour distances", |ch| {
            let radius = ch.choose(256) as u8;
            let (w, h) = ch.pick(&[(1, 1), (2, 1), (1, 3), (3, 2)]);
            let ss = ch.pick(&[0.7f32, 30.0, 1000.0]);
            let custom = ch.pick(&[3, 1]);
            let img = gray_pat(6, w, h);
            ch.log(|| format!("radius {radius} spatial {ss} distance {custom} {}", show(&img)));
            ch.op();
            check_bilateral(&img, radius, ss, 40.0, custom)
        });
        r.section("types", "blur: grey, grey+alpha, RGB and RGBA of 8 bit, 16 bit and float; bilateral filter: also signed 8 and 16 bit, and windows of images; values over the whole range", |ch| {
            if ch.flag() {
                with_type!(ch, [u8, u16, f32], typed_blur(ch))
            } else {
                with_type!(ch, [u8, u16, i8, i16, f32], typed_bilateral(ch))
            }
        });
        r.section("sigma-ladder", "blur and sharpen with every sigma from 0.05 to 20 in steps of 0.05, powers of two from 2^-40 to 2^9 and around them, on 4 shapes; 8-bit and float", |ch| {
            let mut l: Vec<f32> = (1..=400).map(|i| i as f32 * 0.05).collect();
            for e in -40..=9 {
                let p = 2f32.powi(e);
                l.extend([p, p * 0.999, p * 1.001]);
            }
            let sigma = ch.pick(&l);
            let (w, h) = ch.pick(&[(1u32, 1u32), (6, 5), (40, 2), (2, 33)]);
            let pt = ch.pick(&[0, 6]);
            ch.log(|| format!("sigma {sigma} {w}x{h} pattern {pt}"));
            ch.ops(3);
            let g = gray_pat(pt, w, h);
            check_blur_u8(&g, sigma)?;
            let k = gauss_kernel(sigma as f64);
            let f: Vec<f64> = g.as_raw().iter().map(|&x| x as f64).collect();
            let a = pass(&f, w as usize, h as usize, 1, &k, true);
            let b = pass(&a, w as usize, h as usize, 1, &k, false);
            let fi: Img<Luma<f32>> = ImageBuffer::from_raw(w, h, f.iter().map(|&x| x as f32).collect()).unwrap();
            let o = gaussian_blur_f32(&fi, sigma);
            check!(o.dimensions() == (w, h), "dimensions");
            for (i, (g, e)) in o.as_raw().iter().zip(&b).enumerate() {
                check!((*g as f64 - e).abs() < 2e-3, "blur of floats: sample {i}: {g}, expected {e}");
            }
            let amount = [0.6f32, 2.0, 0.1][(sigma.to_bits() % 3) as usize];
            let o = sharpen_gaussian(&g, sigma, amount);
            for i in 0..b.len() {
                let e = (1.0 + amount as f64) * f[i] - amount as f64 * b[i];
                let eps = 2.0 * EPS;
                let (lo, hi) = ((e - eps).clamp(0.0, 255.0).floor(), (e + eps).clamp(0.0, 255.0).floor());
                let v = o.as_raw()[i] as f64;
                check!(v >= lo && v <= hi, "sharpened by {amount}: sample {i}: {v}, expected {e}");
            }
            Ok(())
        });
        r.section("amount-ladder", "sharpen by every amount from -2 to 20 in steps of 0.05 and powers of two up to 2^20, 2 sigmas, 2 images", |ch| {
            let mut l: Vec<f32> = (-40..=400).map(|i| i as f32 * 0.05).collect();
            l.extend((0..=20).flat_map(|e| [2f32.powi(e), -2f32.powi(e), 2f32.powi(-e)]));
            let amount = ch.pick(&l);
            let sigma = ch.pick(&[0.7f32, 2.0]);
            let g = gray_pat(ch.pick(&[0, 6]), 6, 5);
            ch.log(|| format!("sigma {sigma} amount {amount} {}", show(&g)));
            ch.op();
            let o = sharpen_gaussian(&g, sigma, amount);
            let k = gauss_kernel(sigma as f64);
            let f: Vec<f64> = g.as_raw().iter().map(|&x| x as f64).collect();
            let b = pass(&pass(&f, 6, 5, 1, &k, true), 6, 5, 1, &k, false);
            for i in 0..b.len() {
                let e = (1.0 + amount as f64) * f[i] - amount as f64 * b[i];
                let eps = EPS + 255.0 * 3e-6 * amount.abs() as f64;
                let (lo, hi) = ((e - eps).clamp(0.0, 255.0).floor(), (e + eps).clamp(0.0, 255.0).floor());
                let v = o.as_raw()[i] as f64;
                check!(v >= lo && v <= hi, "sample {i}: {v}, expected {e}");
            }
            Ok(())
        });
        r.section("width-ladder", "bilateral filter with 120 spatial widths and 120 colour widths from 2^-10 to 2^20, radius 1, 2 and 5", |ch| {
            let l: Vec<f32> = (0..120).map(|i| 2f32.powf(i as f32 / 4.0 - 10.0)).collect();
            let v = ch.pick(&l);
            let (ss, cs) = if ch.flag() { (v, 40.0) } else { (2.0, v) };
            let radius = ch.pick(&[1u8, 2, 5]);
            let g = gray_pat(ch.pick(&[0, 6]), 4, 3);
            ch.log(|| format!("radius {radius} sigmas {ss} {cs} {}", show(&g)));
            ch.op();
            check_bilateral(&g, radius, ss, cs, 3)
        });
    })
}
