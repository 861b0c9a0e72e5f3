//! C09: image statistics.
use image::*;
use imageproc::stats::*;
use mc::*;

fn stats<P>(ch: &mut Ch, img: &Img<P>) -> R
where
    P: Pixel<Subpixel = u8>,
{
    let cc = P::CHANNEL_COUNT as usize;
    ch.ops(3);
    let h = histogram(img).channels;
    let c = cumulative_histogram(img).channels;
    check!(h.len() == cc && c.len() == cc, "channel count {} {}", h.len(), c.len());
    for k in 0..cc {
        let mut want = [0u32; 256];
        for p in img.pixels() {
            want[p.channels()[k] as usize] += 1;
        }
        check!(h[k] == want, "histogram of channel {k}");
        let mut s = 0;
        for i in 0..256 {
            s += want[i];
            check!(c[k][i] == s, "cumulative histogram of channel {k} at {i}: {}, expected {s}", c[k][i]);
        }
    }
    if img.width() * img.height() > 0 {
        let m = min_max(img);
        check!(m.len() == cc, "min_max length");
        for k in 0..cc {
            let mn = img.pixels().map(|p| p.channels()[k]).min().unwrap();
            let mx = img.pixels().map(|p| p.channels()[k]).max().unwrap();
            check!(m[k].min == mn && m[k].max == mx, "min_max of channel {k}: {:?}, expected {mn}..{mx}", m[k]);
        }
    }
    Ok(())
}

/// A view of `v` everywhere but in its last pixel.
struct View {
    w: u32,
    h: u32,
    v: u8,
    odd: u8,
}
impl GenericImageView for View {
    type Pixel = Luma<u8>;
    fn dimensions(&self) -> (u32, u32) {
        (self.w, self.h)
    }
    fn get_pixel(&self, x: u32, y: u32) -> Luma<u8> {
        Luma([if x + 1 == self.w && y + 1 == self.h { self.odd } else { self.v }])
    }
}

fn percentiles(ch: &mut Ch, img: &GrayImage) -> R {
    let n = img.as_raw().len() as u64;
    let mut sorted = img.as_raw().clone();
    sorted.sort_unstable();
    let mut prev = 0;
    for p in 0..=100u8 {
        ch.op();
        let g = percentile(img, p);
        // smallest level v with #(<= v) * 100 >= p * n
        let need = (p as u64 * n).div_ceil(100);
        let e = if need == 0 { 0 } else { sorted[need as usize - 1] };
        check!(g == e, "percentile {p}: {g}, expected {e}");
        check!(g >= prev, "percentiles are not monotone");
        prev = g;
    }
    for p in [101u8, 200, 255] {
        check!(catching(|| percentile(img, p)).is_err(), "percentile {p} is accepted");
    }
    ch.observe_bytes(&sorted);
    Ok(())
}

fn errors<P>(ch: &mut Ch, a: &Img<P>, b: &Img<P>, max: f64) -> R
where
    P: Pixel,
    P::Subpixel: Into<f64> + Primitive,
{
    ch.ops(2);
    let n = a.as_raw().len() as f64;
    let mse: f64 = a.as_raw().iter().zip(b.as_raw()).map(|(&x, &y)| {
        let (x, y): (f64, f64) = (x.into(), y.into());
        (x - y) * (x - y)
    }).sum::<f64>() / n;
    let r = root_mean_squared_error(a, b);
    check!((r - mse.sqrt()).abs() <= 1e-9 * (1.0 + mse.sqrt()), "rmse {r}, expected {}", mse.sqrt());
    check!((r == 0.0) == (a.as_raw().iter().zip(b.as_raw()).all(|(x, y)| x == y)), "rmse {r} is zero iff equal");
    let p = peak_signal_to_noise_ratio(a, b);
    if mse > 0.0 {
        let e = 20.0 * (max / mse.sqrt()).log10();
        check!((p - e).abs() < 1e-6, "psnr {p}, expected {e}");
    } else {
        check!(p == f64::INFINITY, "psnr of equal images is {p}");
    }
    Ok(())
}

fn typed_min_max<P>(ch: &mut Ch) -> R
where
    P: Pixel,
    P::Subpixel: Val + Ord,
{
    let l = P::Subpixel::ladder();
    let c = ch.choose(P::CHANNEL_COUNT as usize);
    let k = ch.choose(l.len() - 2);
    let (w, h) = ch.pick(&[(2u32, 2u32), (3, 1), (1, 5), (1, 1)]);
    for m in 0..3u32.pow(w * h) {
        let img = Img::<P>::from_fn(w, h, |x, y| {
            let mut p: P = tpix(4);
            p.channels_mut()[c] = l[k + (m / 3u32.pow(x + y * w) % 3) as usize];
            p
        });
        ch.op();
        let g = min_max(&img);
        check!(g.len() == P::CHANNEL_COUNT as usize, "{} channels", g.len());
        for i in 0..g.len() {
            let mn = img.pixels().map(|p| p.channels()[i]).min().unwrap();
            let mx = img.pixels().map(|p| p.channels()[i]).max().unwrap();
            check!(g[i].min == mn && g[i].max == mx, "min_max of channel {i}: {:?}, expected {mn:?}..{mx:?}", g[i]);
        }
    }
    Ok(())
}

fn typed_errors<P>(ch: &mut Ch) -> R
where
    P: Pixel,
    P::Subpixel: Val + Into<f64>,
{
    let (w, h) = ch.pick(&[(1u32, 1u32), (3, 2), (5, 7), (1, 40)]);
    let k = ch.u(0, 40);
    let (a, mut b): (Img<P>, Img<P>) = (timg(w, h, k), timg(w, h, k));
    ch.log(|| format!("{} x{} {w}x{h} {k}", P::Subpixel::NAME, P::CHANNEL_COUNT));
    let max: f64 = <P::Subpixel as num::Bounded>::max_value().into();
    errors(ch, &a, &b, max)?;
    let v = P::Subpixel::vals();
    let n = b.as_raw().len();
    b.as_mut()[k as usize % n] = v[k as usize / 3 % v.len()];
    errors(ch, &a, &b, max)?;
    errors(ch, &a, &timg(w, h, k + 1), max)
}

fn main() {
    run("C09", |r| {
        r.section("layouts", "all shapes 0..=7 squared and larger x patterns x 4 layouts", |ch| {
            let (w, h) = if ch.flag() { large_shape(ch) } else { (ch.u(0, 7), ch.u(0, 7)) };
            let k = ch.choose(NPAT);
            let l = ch.choose(4);
            ch.log(|| format!("{w}x{h} pattern {k} layout {l}"));
            match l {
                0 => stats(ch, &u8_pat::<Luma<u8>>(k, w, h)),
                1 => stats(ch, &u8_pat::<LumaA<u8>>(k, w, h)),
                2 => stats(ch, &u8_pat::<Rgb<u8>>(k, w, h)),
                _ => stats(ch, &u8_pat::<Rgba<u8>>(k, w, h)),
            }
        });
        r.section("rgb-tiny", "all Rgb images of up to 5 pixels (thorough 6) over 8 colours", |ch| {
            let n = ch.u(1, if ch.thorough { 6 } else { 5 });
            let cs: Vec<Rgb<u8>> = (0..8u8).map(|i| Rgb([(i & 1) * 255, (i >> 1 & 1) * 7, (i >> 2) * 255])).collect();
            let img = img_of(ch, n, 1, &cs);
            ch.log(|| show(&img));
            ch.observe_bytes(img.as_raw());
            stats(ch, &img)
        });
        r.section("percentile", "all images of area<=8 (thorough 10) over {0,1,7,255}, all p 0..=255 classes; sizes 1..=210 with all splits of two levels", |ch| {
            let img = if ch.flag() {
                let a = if ch.thorough { 10 } else { 8 };
                let n = ch.u(1, a);
                gray(ch, n, 1, &[0, 1, 7, 255])
            } else {
                let n = ch.u(1, 210);
                let k = ch.u(0, n);
                let (a, b) = ch.pick(&[(0u8, 255u8), (254, 255), (0, 1), (99, 100)]);
                GrayImage::from_fn(n, 1, |x, _| Luma([if x < k { a } else { b }]))
            };
            ch.log(|| show(&img));
            percentiles(ch, &img)?;
            stats(ch, &img)
        });
        r.section("errors", "all pairs of images of area<=5 (thorough 6) over {0,1,255}; pattern pairs in 3 layouts and u16/f32", |ch| {
            match ch.choose(5) {
                0 => {
                    let (w, h) = shape(ch, 1, 4, if ch.thorough { 6 } else { 5 });
                    let a = gray(ch, w, h, &[0, 1, 255]);
                    let b = gray(ch, w, h, &[0, 1, 255]);
                    ch.log(|| format!("{} | {}", show(&a), show(&b)));
                    errors(ch, &a, &b, 255.0)
                }
                k => {
                    let (w, h) = ch.pick(&[(1, 1), (3, 2), (7, 5), (65, 40), (300, 3)]);
                    let (i, j) = (ch.choose(NPAT), ch.choose(NPAT));
                    ch.log(|| format!("{w}x{h} patterns {i} {j} kind {k}"));
                    match k {
                        1 => errors(ch, &u8_pat::<Rgb<u8>>(i, w, h), &u8_pat::<Rgb<u8>>(j, w, h), 255.0),
                        2 => errors(ch, &u8_pat::<LumaA<u8>>(i, w, h), &u8_pat::<LumaA<u8>>(j, w, h), 255.0),
                        3 => {
                            let f = |k| -> Img<Luma<u16>> { ImageBuffer::from_fn(w, h, |x, y| Luma([pat(k, x, y, 0, w, h) as u16 * 257])) };
                            errors(ch, &f(i), &f(j), 65535.0)
                        }
                        _ => {
                            let f = |k| -> Img<Rgba<u8>> { u8_pat(k, w, h) };
                            errors(ch, &f(i), &f(j), 255.0)
                        }
                    }
                }
            }
        });
        r.section("huge", "images with a side beyond 2^16 or more than 2^24 pixels: counts, extremes, percentiles, errors", |ch| {
            let big = ch.flag();
            let (w, h) = if big { (4300, 4000) } else { huge_shape(ch) };
            let k = if big { 0 } else { ch.pick(&[0usize, 2, 5]) };
            match ch.choose(3) {
                0 => {
                    let (w, h) = if big { (4300, 1000) } else { (w, h) };
                    stats(ch, &u8_pat::<Rgb<u8>>(k, w, h))
                }
                1 => {
                    let mut img = gray_pat(k, w, h);
                    let n = img.as_raw().len();
                    if ch.flag() {
                        img.as_mut()[..n - n / 7].fill(77);
                    }
                    stats(ch, &img)?;
                    percentiles(ch, &img)
                }
                _ => {
                    let a = gray_pat(k, w, h);
                    let mut b = a.clone();
                    match ch.choose(3) {
                        0 => b.iter_mut().for_each(|v| *v = 255 - *v),
                        1 => *b.iter_mut().next_back().unwrap() ^= 1,
                        _ => b.iter_mut().step_by(2).for_each(|v| *v ^= 255),
                    }
                    errors(ch, &a, &b, 255.0)
                }
            }
        });
        r.section("views", "errors of generated views (up to more than 2^32 pixels) and of windows of images, in every position, against each other and against images", |ch| {
            match ch.choose(3) {
                0 => {
                    // a constant difference, with one pixel out of line
                    let (w, h) = ch.pick(&[(3u32, 2u32), (70000, 3), (65536, 65537)]);
                    let a = View { w, h, v: 10, odd: 10 };
                    let b = View { w, h, v: 13, odd: 200 };
                    ch.ops(2);
                    let (want, n) = (((w as f64 * h as f64 - 1.0) * 9.0 + 190.0 * 190.0) / (w as f64 * h as f64), w as u64 * h as u64);
                    ch.log(|| format!("{n} pixels"));
                    let got = root_mean_squared_error(&a, &b);
                    check!((got * got - want).abs() <= 1e-6 * want, "error of a {w}x{h} view: {got}, expected {}", want.sqrt());
                    if n < 1 << 20 {
                        let p = peak_signal_to_noise_ratio(&a, &b);
                        check!((p - 20.0 * (255.0 / want.sqrt()).log10()).abs() < 1e-6, "signal to noise ratio of a {w}x{h} view: {p}");
                    }
                    Ok(())
                }
                k => {
                    let (x, y, w, h) = (ch.u(0, 3), ch.u(0, 3), ch.u(1, 4), ch.u(1, 4));
                    let (big, other): (Img<Rgb<u8>>, Img<Rgb<u8>>) = (u8_pat(0, 7, 7), u8_pat(4, w, h));
                    let cut = Img::<Rgb<u8>>::from_fn(w, h, |i, j| *big.get_pixel(x + i, y + j));
                    let view = big.view(x, y, w, h);
                    ch.ops(2);
                    ch.log(|| format!("window {w}x{h} at ({x},{y})"));
                    let (a, b) = if k == 1 {
                        (root_mean_squared_error(&*view, &other), root_mean_squared_error(&cut, &other))
                    } else {
                        (peak_signal_to_noise_ratio(&other, &*view), peak_signal_to_noise_ratio(&other, &cut))
                    };
                    check!(a == b || (a - b).abs() < 1e-9, "window {w}x{h} at ({x},{y}): {a}, its copy {b}");
                    errors(ch, &cut, &other, 255.0)
                }
            }
        });
        r.section("sizes", "every width and height 1..=70 and the neighbours of round sizes up to 1025: counts, extremes, percentiles and errors in grey and RGB", |ch| {
            let (w, h) = sweep_shape(ch);
            let k = ch.pick(&[0usize, 2, 7]);
            ch.log(|| format!("{w}x{h} pattern {k}"));
            let img = gray_pat(k, w, h);
            stats(ch, &img)?;
            percentiles(ch, &img)?;
            let rgb: Img<Rgb<u8>> = u8_pat(k, w, h);
            stats(ch, &rgb)?;
            let mut b = rgb.clone();
            *b.iter_mut().next_back().unwrap() ^= 255;
            errors(ch, &rgb, &b, 255.0)?;
            errors(ch, &rgb, &u8_pat(1, w, h), 255.0)?;
            // an extreme in the last or first sample only
            let mut flat = GrayImage::from_pixel(w, h, Luma([100]));
            *flat.iter_mut().next_back().unwrap() = 3;
            *flat.iter_mut().next().unwrap() = 250;
            stats(ch, &flat)
        });
        r.section("types", "extremes of all small images over three values that just differ in one channel, 32 integer pixel types; errors in 28 pixel types with extreme values", |ch| {
            if ch.flag() {
                with_type!(ch, [u8, u16, u32, u64, i8, i16, i32, i64], typed_min_max(ch))
            } else {
                with_type!(ch, [u8, u16, u32, i8, i16, i32, f32], typed_errors(ch))
            }
        });
    })
}
