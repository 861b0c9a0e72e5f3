//! C35: synthetic noise.
use image::*;
use imageproc::definitions::{Clamp, HasBlack, HasWhite, Image};
use imageproc::noise::*;
use mc::*;

fn salt<P>(ch: &mut Ch, img: &Img<P>, rate: f64, seed: u64) -> R
where
    P: Pixel + HasBlack + HasWhite + PartialEq + std::fmt::Debug,
    P::Subpixel: PartialEq + std::fmt::Debug,
{
    ch.ops(3);
    ch.log(|| format!("rate {rate} seed {seed} {}", show(img)));
    let before = img.clone();
    let a = salt_and_pepper_noise(img, rate, seed);
    check!(img.as_raw() == before.as_raw(), "the input is changed");
    let b = salt_and_pepper_noise(img, rate, seed);
    check!(a.as_raw() == b.as_raw(), "two calls with one seed differ");
    let mut m = img.clone();
    salt_and_pepper_noise_mut(&mut m, rate, seed);
    check!(m.as_raw() == a.as_raw() && a.dimensions() == img.dimensions(), "in-place version differs");
    let (mut changed, mut white) = (0u32, 0u32);
    for (x, y, p) in a.enumerate_pixels() {
        let bw = *p == P::black() || *p == P::white();
        let kept = p == img.get_pixel(x, y);
        check!(bw || kept, "pixel ({x},{y}) became {p:?}");
        check!(rate < 1.0 || bw, "pixel ({x},{y}) is kept at rate {rate}");
        check!(rate > 0.0 || kept, "pixel ({x},{y}) is replaced at rate {rate}");
        changed += (!kept) as u32;
        white += (*p == P::white() && !kept) as u32;
    }
    // the fraction of replaced pixels is the rate, half of them white (7 standard deviations)
    let n = (img.width() * img.height()) as f64;
    let grey = img.pixels().all(|p| *p != P::black() && *p != P::white());
    if n >= 1000.0 && grey && (0.0..=1.0).contains(&rate) {
        let sd = (n * rate * (1.0 - rate)).sqrt();
        check!((changed as f64 - n * rate).abs() <= 7.0 * sd + 8.0, "{changed} of {n} pixels are replaced at rate {rate}");
        let c = changed as f64;
        check!((white as f64 - c / 2.0).abs() <= 3.5 * c.sqrt() + 1e-9, "{white} of {changed} are white");
    }
    ch.observe(changed as u64 * 65536 + white as u64);
    Ok(())
}

fn gauss<P>(ch: &mut Ch, img: &Img<P>, mean: f64, sd: f64, seed: u64, of: &dyn Fn(f64) -> P::Subpixel) -> R
where
    P: Pixel,
    P::Subpixel: Into<f64> + Clamp<f64> + PartialEq + std::fmt::Debug,
{
    ch.ops(3);
    ch.log(|| format!("mean {mean} deviation {sd} seed {seed} {}", show(img)));
    let before = img.clone();
    let a = gaussian_noise(img, mean, sd, seed);
    check!(img.as_raw() == before.as_raw(), "the input is changed");
    let b = gaussian_noise(img, mean, sd, seed);
    check!(a.as_raw() == b.as_raw(), "two calls with one seed differ");
    let mut m = img.clone();
    gaussian_noise_mut(&mut m, mean, sd, seed);
    check!(m.as_raw() == a.as_raw() && a.dimensions() == img.dimensions(), "in-place version differs");
    // the noise itself, as added to a black f64 image of the same layout
    let n = img.as_raw().len();
    let zeros = Image::<Luma<f64>>::from_raw(n as u32, 1, vec![0.0; n]).unwrap();
    let z = gaussian_noise(&zeros, mean, sd, seed);
    for i in 0..n {
        let v: f64 = img.as_raw()[i].into() + z.as_raw()[i];
        let e = of(v);
        check!(a.as_raw()[i] == e, "subpixel {i}: {:?} + {} became {:?}, expected {e:?}", img.as_raw()[i], z.as_raw()[i], a.as_raw()[i]);
    }
    Ok(())
}

const SEEDS: u64 = 24;

fn typed<P>(ch: &mut Ch) -> R
where
    P: Pixel + HasBlack + HasWhite + PartialEq + std::fmt::Debug,
    P::Subpixel: Val,
{
    let (w, h) = ch.pick(&[(1, 1), (5, 3), (37, 41)]);
    let rate = ch.pick(&[0.0, 0.25, 0.5, 1.0]);
    let seed = ch.choose(5) as u64;
    let (lo, hi) = (P::Subpixel::DEFAULT_MIN_VALUE, P::Subpixel::DEFAULT_MAX_VALUE);
    let alpha = matches!(P::CHANNEL_COUNT, 2 | 4);
    let colour = |v: P::Subpixel| -> P {
        let mut c = vec![v; P::CHANNEL_COUNT as usize];
        if alpha {
            *c.last_mut().unwrap() = hi;
        }
        *P::from_slice(&c)
    };
    check!(P::black() == colour(lo) && P::white() == colour(hi), "black is {:?}, white is {:?}", P::black(), P::white());
    salt::<P>(ch, &timg(w, h, 5), rate, seed)?;
    let mut mid = colour(P::Subpixel::vals()[2]);
    mid.channels_mut()[0] = P::Subpixel::vals()[4];
    salt::<P>(ch, &ImageBuffer::from_pixel(w, h, mid), rate, seed)
}

fn typed_gauss<P>(ch: &mut Ch, of: &dyn Fn(f64) -> P::Subpixel) -> R
where
    P: Pixel,
    P::Subpixel: Val + Into<f64> + Clamp<f64>,
{
    let (w, h) = ch.pick(&[(1, 1), (5, 3), (13, 11)]);
    let mean = ch.pick(&[0.0, -3.0, 100.5, 1e5]);
    let sd = ch.pick(&[0.0, 2.0, 1e4]);
    gauss::<P>(ch, &timg(w, h, 6), mean, sd, 7, of)
}

fn main() {
    run("C35", |r| {
        r.section("salt", "seeds 0..23 and extremes x 7 rates x shapes 0..3 and larger x pixel layouts", |ch| {
            let seed = [0, 1, 2, 3, u64::MAX, 1 << 63][ch.choose(6)];
            let rate = ch.pick(&[0.0, 1e-9, 0.1, 0.5, 0.999, 1.0, 2.0, -1.0]);
            let (w, h) = ch.pick(&[(0, 0), (0, 3), (3, 0), (1, 1), (2, 3), (3, 2), (65, 40)]);
            let k = ch.pick(&[0usize, 3, 7]);
            match ch.choose(4) {
                0 => salt::<Luma<u8>>(ch, &u8_pat(k, w, h), rate, seed),
                1 => salt::<Rgb<u8>>(ch, &u8_pat(k, w, h), rate, seed),
                2 => salt::<Rgba<u8>>(ch, &u8_pat(k, w, h), rate, seed),
                _ => salt::<LumaA<u16>>(ch, &Image::from_fn(w, h, |x, y| LumaA([x as u16 * 999, y as u16 * 77])), rate, seed),
            }
        });
        r.section("salt-rates", "seeds 0..255 (thorough 0..1023) x rates k/32 on a uniform 60x50 image: fraction and balance", |ch| {
            let n = if ch.thorough { 1024 } else { 256 };
            let seed = ch.choose(n) as u64;
            let rate = ch.choose(33) as f64 / 32.0;
            salt::<Luma<u8>>(ch, &Image::from_pixel(60, 50, Luma([100])), rate, seed)
        });
        r.section("gauss", "means and deviations including extremes x seeds x shapes x layouts, against the unclamped noise", |ch| {
            let seed = [0, 1, 2, 77, u64::MAX][ch.choose(5)];
            let mean = ch.pick(&[0.0, 1.0, -1.0, 0.5, -30.0, 128.0, 255.0, 256.0, 1000.0, -1000.0, 1e30, -1e30]);
            let sd = ch.pick(&[0.0, 0.5, 10.0, 200.0, 1e6]);
            let (w, h) = ch.pick(&[(0, 0), (0, 3), (3, 0), (1, 1), (5, 3), (16, 16)]);
            let of = |v: f64| if v >= 255.0 { 255u8 } else if v <= 0.0 { 0 } else { v as u8 };
            match ch.choose(4) {
                0 => gauss::<Luma<u8>>(ch, &u8_pat(7, w, h), mean, sd, seed, &of),
                1 => gauss::<Rgb<u8>>(ch, &u8_pat(0, w, h), mean, sd, seed, &of),
                2 => gauss::<LumaA<u8>>(ch, &u8_pat(3, w, h), mean, sd, seed, &of),
                _ => gauss::<Luma<u16>>(ch, &Image::from_fn(w, h, |x, y| Luma([(x * 20000 + y * 3) as u16])), mean, sd, seed, &|v| {
                    v.clamp(0.0, 65535.0) as u16
                }),
            }
        });
        r.section("no-noise", "zero mean and deviation leave every 8-bit value unchanged; zero deviation adds the mean", |ch| {
            let seed = ch.choose(8) as u64;
            let img = GrayImage::from_fn(256, 1, |x, _| Luma([x as u8]));
            check!(gaussian_noise(&img, 0.0, 0.0, seed) == img, "changed by zero noise");
            let m = ch.int(-300, 300);
            let o = gaussian_noise(&img, m as f64, 0.0, seed);
            ch.ops(2);
            for x in 0..256i64 {
                let e = (x + m).clamp(0, 255) as u8;
                check!(o.get_pixel(x as u32, 0)[0] == e, "{x} with constant noise {m} became {}", o.get_pixel(x as u32, 0)[0]);
            }
            Ok(())
        });
        r.section("sizes", "both kinds of noise on about 320 shapes with one side from 1 to 70 or around powers of two, 1, 3 and 4 channels, 3 seeds", |ch| {
            let (w, h) = sweep_shape(ch);
            let seed = ch.pick(&[0, 5, u64::MAX]);
            let of = |v: f64| if v >= 255.0 { 255u8 } else if v <= 0.0 { 0 } else { v as u8 };
            match ch.choose(6) {
                0 => salt::<Luma<u8>>(ch, &u8_pat(0, w, h), 0.3, seed),
                1 => salt::<Rgb<u8>>(ch, &u8_pat(3, w, h), 0.3, seed),
                2 => salt::<Rgba<u8>>(ch, &u8_pat(7, w, h), 0.3, seed),
                3 => gauss::<Luma<u8>>(ch, &u8_pat(7, w, h), 3.0, 20.0, seed, &of),
                4 => gauss::<Rgb<u8>>(ch, &u8_pat(0, w, h), 3.0, 20.0, seed, &of),
                _ => gauss::<Rgba<u8>>(ch, &u8_pat(3, w, h), 3.0, 20.0, seed, &of),
            }
        });
        r.section("moments", "seeds 0..255 (thorough 0..1023), 3 means, 3 deviations: sample mean, deviation, skewness, neighbour correlation of 12000 values within 7 standard errors", |ch| {
            let n = if ch.thorough { 1024 } else { 256 };
            let seed = ch.choose(n) as u64;
            let mean = ch.pick(&[0.0, 5.0, -100.0]);
            let sd = ch.pick(&[1.0, 3.5, 50.0]);
            let img = Image::<Rgb<f64>>::new(80, 50);
            ch.op();
            let o = gaussian_noise(&img, mean, sd, seed);
            let v: Vec<f64> = o.as_raw().iter().map(|x| (x - mean) / sd).collect();
            let n = v.len() as f64;
            let m1 = v.iter().sum::<f64>() / n;
            let m2 = v.iter().map(|x| x * x).sum::<f64>() / n;
            let m3 = v.iter().map(|x| x * x * x).sum::<f64>() / n;
            let m4 = v.iter().map(|x| x.powi(4)).sum::<f64>() / n;
            let co = v.windows(2).map(|w| w[0] * w[1]).sum::<f64>() / n;
            let se = 7.0 / n.sqrt();
            check!(m1.abs() < se && (m2 - 1.0).abs() < se * 1.5 && m3.abs() < se * 4.0 && (m4 - 3.0).abs() < se * 10.0, "moments {m1} {m2} {m3} {m4}");
            check!(co.abs() < se, "neighbour correlation {co}");
            // different seeds give different noise
            check!(gaussian_noise(&img, mean, sd, seed + 1) != o, "the seed has no effect");
            Ok(())
        });
        r.section("types", "the eight pixel types with a black and a white (extreme values), 4 rates; normal noise on 8-bit, 16-bit and 64-bit float images of 1 to 4 channels", |ch| {
            let of8 = |v: f64| if v >= 255.0 { 255u8 } else if v <= 0.0 { 0 } else { v as u8 };
            let of16 = |v: f64| if v >= 65535.0 { 65535u16 } else if v <= 0.0 { 0 } else { v as u16 };
            match ch.choose(20) {
                0 => typed::<Luma<u8>>(ch),
                1 => typed::<LumaA<u8>>(ch),
                2 => typed::<Rgb<u8>>(ch),
                3 => typed::<Rgba<u8>>(ch),
                4 => typed::<Luma<u16>>(ch),
                5 => typed::<LumaA<u16>>(ch),
                6 => typed::<Rgb<u16>>(ch),
                7 => typed::<Rgba<u16>>(ch),
                8 => typed_gauss::<Luma<u8>>(ch, &of8),
                9 => typed_gauss::<LumaA<u8>>(ch, &of8),
                10 => typed_gauss::<Rgb<u8>>(ch, &of8),
                11 => typed_gauss::<Rgba<u8>>(ch, &of8),
                12 => typed_gauss::<Luma<u16>>(ch, &of16),
                13 => typed_gauss::<LumaA<u16>>(ch, &of16),
                14 => typed_gauss::<Rgb<u16>>(ch, &of16),
                15 => typed_gauss::<Rgba<u16>>(ch, &of16),
                16 => typed_gauss::<Luma<f64>>(ch, &|v| v),
                17 => typed_gauss::<LumaA<f64>>(ch, &|v| v),
                18 => typed_gauss::<Rgb<f64>>(ch, &|v| v),
                _ => typed_gauss::<Rgba<f64>>(ch, &|v| v),
            }
        });
        r.section("parameter-ladder", "every rate k/500 (0..=500) and powers of two down to 2^-60, every mean -300..=300, every deviation 0..=300 in steps of 1, 3 seeds, 1, 3 and 4 channels", |ch| {
            let seed = ch.pick(&[0u64, 5, 1 << 40]);
            let of = |v: f64| if v >= 255.0 { 255u8 } else if v <= 0.0 { 0 } else { v as u8 };
            match ch.choose(3) {
                0 => {
                    let k = ch.choose(561);
                    let rate = if k <= 500 { k as f64 / 500.0 } else { 2f64.powi(500 - k as i32) };
                    let img = GrayImage::from_fn(40, 30, |x, y| Luma([1 + ((x * 31 + y * 17) % 250) as u8]));
                    salt(ch, &img, rate, seed)?;
                    salt(ch, &RgbImage::from_fn(41, 25, |x, y| Rgb([x as u8 + 1, y as u8, 77])), rate, seed)
                }
                1 => {
                    let mean = ch.int(-300, 300) as f64;
                    gauss::<Rgb<u8>>(ch, &u8_pat(0, 9, 7), mean, 3.0, seed, &of)
                }
                _ => {
                    let sd = ch.int(0, 300) as f64;
                    gauss::<Luma<u8>>(ch, &u8_pat(7, 13, 11), 1.5, sd, seed, &of)?;
                    gauss::<Rgba<u8>>(ch, &u8_pat(7, 6, 5), -1.5, sd, seed, &of)
                }
            }
        });
        r.section("rates-fine", "a uniform image of 1200x1000 pixels, the rates 2^-k (k <= 18), k/1000 and thirds between, 2 seeds: the fraction of replaced pixels within 7 standard deviations", |ch| {
            let seed = ch.pick(&[3u64, 1 << 33]);
            let k = ch.choose(39);
            let rate = match k {
                0..=18 => 2f64.powi(-(k as i32)),
                19..=28 => (k - 18) as f64 / 1000.0,
                _ => [1.0 / 3.0, 2.0 / 3.0, 0.2345, 0.0555, 0.9995, 0.0015, 0.777, 0.1, 0.05, 0.45][k - 29],
            };
            salt(ch, &GrayImage::from_pixel(1200, 1000, Luma([100])), rate, seed)
        });
    });
}
