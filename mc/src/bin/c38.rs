//! C38: gradients.
use image::*;
use imageproc::definitions::Image;
use imageproc::gradients::*;
use imageproc::kernel::{self, Kernel};
use mc::*;

// the named kernels as documented, row by row (correlation with edge replication)
const SOBEL_H: [i32; 9] = [-1, 0, 1, -2, 0, 2, -1, 0, 1];
const SOBEL_V: [i32; 9] = [-1, -2, -1, 0, 0, 0, 1, 2, 1];
const SCHARR_H: [i32; 9] = [-3, 0, 3, -10, 0, 10, -3, 0, 3];
const SCHARR_V: [i32; 9] = [-3, -10, -3, 0, 0, 0, 3, 10, 3];
const PREWITT_H: [i32; 9] = [-1, 0, 1, -1, 0, 1, -1, 0, 1];
const PREWITT_V: [i32; 9] = [-1, -1, -1, 0, 0, 0, 1, 1, 1];

fn corr(img: &GrayImage, k: &[i32], kw: i64, kh: i64, x: i64, y: i64) -> i32 {
    let mut s = 0;
    for j in 0..kh {
        for i in 0..kw {
            s += k[(j * kw + i) as usize] * clamped(img, x + i - kw / 2, y + j - kh / 2) as i32;
        }
    }
    s
}

/// floor of the norm; a result one off is accepted only where f32 rounding could cross the integer
fn mag_ok(got: u16, h: i32, v: i32) -> bool {
    let n2 = (h as i64).pow(2) + (v as i64).pow(2);
    let r = (n2 as f64).sqrt();
    let lo = (r * (1.0 - 2e-7)).floor();
    let hi = (r * (1.0 + 2e-7)).floor();
    let exact = n2 < (1 << 24); // squares and sum exact in f32
    if exact {
        let mut f = r.floor() as i64;
        while f * f > n2 {
            f -= 1
        }
        while (f + 1) * (f + 1) <= n2 {
            f += 1
        }
        return got as i64 == f;
    }
    (got as f64) >= lo && (got as f64) <= hi
}

fn signed(ch: &mut Ch, img: &GrayImage, name: &str, got: &Image<Luma<i16>>, k: &[i32; 9]) -> R {
    ch.op();
    check!(got.dimensions() == img.dimensions(), "{name}: dimensions");
    for (x, y, p) in got.enumerate_pixels() {
        let e = corr(img, k, 3, 3, x as i64, y as i64);
        check!(p[0] as i32 == e, "{name} at ({x},{y}): got {}, expected {e}; {}", p[0], show(img));
    }
    Ok(())
}

fn mags(ch: &mut Ch, img: &GrayImage, name: &str, got: &Image<Luma<u16>>, kh: &[i32], kv: &[i32], s: i64) -> R {
    ch.op();
    check!(got.dimensions() == img.dimensions(), "{name}: dimensions");
    for (x, y, p) in got.enumerate_pixels() {
        let h = corr(img, kh, s, s, x as i64, y as i64);
        let v = corr(img, kv, s, s, x as i64, y as i64);
        check!(mag_ok(p[0], h, v), "{name} at ({x},{y}): got {}, gradients {h} and {v}; {}", p[0], show(img));
    }
    Ok(())
}

fn all(ch: &mut Ch, img: &GrayImage) -> R {
    ch.log(|| show(img));
    let before = img.clone();
    signed(ch, img, "horizontal_sobel", &horizontal_sobel(img), &SOBEL_H)?;
    signed(ch, img, "vertical_sobel", &vertical_sobel(img), &SOBEL_V)?;
    signed(ch, img, "horizontal_scharr", &horizontal_scharr(img), &SCHARR_H)?;
    signed(ch, img, "vertical_scharr", &vertical_scharr(img), &SCHARR_V)?;
    signed(ch, img, "horizontal_prewitt", &horizontal_prewitt(img), &PREWITT_H)?;
    signed(ch, img, "vertical_prewitt", &vertical_prewitt(img), &PREWITT_V)?;
    let s = sobel_gradients(img);
    ch.observe(s.iter().map(|&v| v as u64).fold(7, |a, b| a.wrapping_mul(31) ^ b));
    mags(ch, img, "sobel_gradients", &s, &SOBEL_H, &SOBEL_V, 3)?;
    mags(ch, img, "prewitt_gradients", &prewitt_gradients(img), &PREWITT_H, &PREWITT_V, 3)?;
    let g = gradients_grayscale(img, kernel::SCHARR_HORIZONTAL_3X3, kernel::SCHARR_VERTICAL_3X3);
    mags(ch, img, "gradients_grayscale(scharr)", &g, &SCHARR_H, &SCHARR_V, 3)?;
    check!(img == &before, "the input is changed");
    Ok(())
}

fn channels(ch: &mut Ch, img: &RgbImage) -> R {
    ch.ops(3);
    ch.log(|| show(img));
    let planes: Vec<GrayImage> =
        (0..3).map(|c| GrayImage::from_fn(img.width(), img.height(), |x, y| Luma([img.get_pixel(x, y)[c]]))).collect();
    let id = sobel_gradient_map(img, |p| p);
    for c in 0..3 {
        let plane = Image::<Luma<u16>>::from_fn(img.width(), img.height(), |x, y| Luma([id.get_pixel(x, y)[c]]));
        mags(ch, &planes[c], "sobel_gradient_map identity", &plane, &SOBEL_H, &SOBEL_V, 3)?;
    }
    // the caller's function is applied to the pixel of gradients
    let f = |p: Rgb<u16>| LumaA([p[0] / 2 + p[1] / 3, p[2] ^ 1]);
    let m = sobel_gradient_map(img, f);
    check!(m.dimensions() == img.dimensions(), "dimensions");
    for (x, y, p) in m.enumerate_pixels() {
        check!(*p == f(*id.get_pixel(x, y)), "function not applied to the gradients at ({x},{y})");
    }
    let pr = gradients(img, kernel::PREWITT_HORIZONTAL_3X3, kernel::PREWITT_VERTICAL_3X3, |p| Luma([p[0].max(p[1]).max(p[2])]));
    let ps: Vec<_> = planes.iter().map(prewitt_gradients).collect();
    for (x, y, p) in pr.enumerate_pixels() {
        let e = (0..3).map(|c| ps[c].get_pixel(x, y)[0]).max().unwrap();
        check!(p[0] == e, "maximum over channels at ({x},{y}): {} expected {e}", p[0]);
    }
    Ok(())
}

fn main() {
    run("C38", |r| {
        r.section("tiny", "all images of area <=6 over {0,1,255} (every shape, so every border position of the 3x3 kernels)", |ch| {
            let (w, h) = shape(ch, 1, 6, 6);
            let img = gray(ch, w, h, &[0, 1, 255]);
            all(ch, &img)
        });
        r.section("neighbourhoods", "all 3x3 images over {0,1,255}", |ch| {
            let img = gray(ch, 3, 3, &[0, 1, 255]);
            all(ch, &img)
        });
        r.section("patterns", "patterns and impulses on all shapes up to 6x6, larger shapes", |ch| {
            let (w, h) = if ch.flag() { large_shape(ch) } else { (ch.u(1, 6), ch.u(1, 6)) };
            let img = if w * h > 36 { gray_pat(ch.choose(NPAT), w, h) } else { gray_family(ch, w, h) };
            all(ch, &img)
        });
        r.section("huge", "patterns on shapes with sides beyond 2^8 and 2^16, gray and colour", |ch| {
            let (w, h) = huge_shape(ch);
            let k = ch.choose(3);
            if ch.flag() {
                return channels(ch, &u8_pat::<Rgb<u8>>(k, w, h));
            }
            all(ch, &gray_pat(k, w, h))
        });
        r.section("channels", "all 3-channel images of area <=3 over 4 colours; patterns up to 5x5", |ch| {
            let img = if ch.flag() {
                let (w, h) = (ch.u(1, 5), ch.u(1, 5));
                u8_pat::<Rgb<u8>>(ch.choose(NPAT), w, h)
            } else {
                let (w, h) = shape(ch, 1, 4, if ch.thorough { 8 } else { 6 });
                img_of(ch, w, h, &[Rgb([0u8, 0, 0]), Rgb([255, 0, 0]), Rgb([0, 255, 3]), Rgb([10, 20, 255])])
            };
            channels(ch, &img)
        });
        r.section("all-channels", "gray, gray with alpha, RGB, RGBA patterns on shapes up to 6x6 and larger: every channel, alpha included, has the magnitude of its own plane; named and caller-supplied kernels", |ch| {
            let (w, h) = if ch.flag() { large_shape(ch) } else { (ch.u(0, 6), ch.u(0, 6)) };
            let k = ch.choose(NPAT);
            fn per<P>(ch: &mut Ch, img: &Img<P>) -> R
            where
                P: Pixel<Subpixel = u8> + imageproc::map::WithChannel<u16> + imageproc::map::WithChannel<i16>,
                <P as imageproc::map::WithChannel<u16>>::Pixel: imageproc::definitions::HasBlack,
            {
                ch.ops(3);
                let cc = P::CHANNEL_COUNT as usize;
                let (w, h) = img.dimensions();
                let collect = |p: &[u16]| {
                    let mut v = [0u16; 4];
                    v[..p.len()].copy_from_slice(p);
                    Rgba(v)
                };
                let s = sobel_gradient_map(img, |p| collect(p.channels()));
                let q = gradients(img, kernel::PREWITT_HORIZONTAL_3X3, kernel::PREWITT_VERTICAL_3X3, |p| collect(p.channels()));
                let z = gradients(img, kernel::SCHARR_HORIZONTAL_3X3, kernel::SOBEL_VERTICAL_3X3, |p| collect(p.channels()));
                for c in 0..cc {
                    let plane = GrayImage::from_fn(w, h, |x, y| Luma([img.get_pixel(x, y).channels()[c]]));
                    for (n, g, a, b) in [("sobel", &s, &SOBEL_H, &SOBEL_V), ("prewitt", &q, &PREWITT_H, &PREWITT_V), ("scharr and sobel", &z, &SCHARR_H, &SOBEL_V)] {
                        let g = Image::<Luma<u16>>::from_fn(w, h, |x, y| Luma([g.get_pixel(x, y)[c]]));
                        mags(ch, &plane, &format!("{n} gradients of {cc} channels, channel {c}"), &g, a, b, 3)?;
                    }
                }
                Ok(())
            }
            match ch.choose(4) {
                0 => per(ch, &u8_pat::<Luma<u8>>(k, w, h)),
                1 => per(ch, &u8_pat::<LumaA<u8>>(k, w, h)),
                2 => per(ch, &u8_pat::<Rgb<u8>>(k, w, h)),
                _ => per(ch, &u8_pat::<Rgba<u8>>(k, w, h)),
            }
        });
        r.section("saturation", "kernels with weights up to +-2^20: gradients saturate at the 16-bit range, all pairs of 7 weights", |ch| {
            let ws = [-(1 << 20), -300, -129, -64, 0, 64, 128, 129, 130, 257, 1 << 20];
            let (a, b) = (ch.pick(&ws), ch.pick(&ws));
            let img = GrayImage::from_raw(6, 1, vec![0, 1, 127, 128, 254, 255]).unwrap();
            let (ka, kb) = (vec![a], vec![b]);
            let g = catching(|| gradients_grayscale(&img, Kernel::new(&ka, 1, 1), Kernel::new(&kb, 1, 1)))?;
            ch.op();
            for (x, y, p) in g.enumerate_pixels() {
                let v = img.get_pixel(x, y)[0] as i32;
                let c = |k: i32| (k * v).clamp(-32768, 32767);
                check!(mag_ok(p[0], c(a), c(b)), "weights {a}, {b}: pixel {v} gives {}, gradients {} {}", p[0], c(a), c(b));
            }
            Ok(())
        });
        r.section("kernels", "caller-supplied kernel pairs, all 3x3 with entries in {-1,0,1} in one row or column, 2x2 Roberts, 1x1, 5x5", |ch| {
            let (w, h) = (ch.u(1, 4), ch.u(1, 4));
            let img = gray_pat(ch.choose(NPAT), w, h);
            let (a, b, s): (Vec<i32>, Vec<i32>, u32) = match ch.choose(4) {
                0 => {
                    let mut a = vec![0; 9];
                    let mut b = vec![0; 9];
                    let l = ch.choose(3);
                    for i in 0..3 {
                        let v = ch.int(-1, 1) as i32;
                        a[3 * l + i] = v;
                        b[3 * i + l] = 2 * v;
                    }
                    (a, b, 3)
                }
                1 => (vec![1, 0, 0, -1], vec![0, 1, -1, 0], 2),
                2 => (vec![ch.int(-3, 3) as i32], vec![4], 1),
                _ => ((-12..13).collect(), (-12..13).map(|i| (i % 5) - 1).collect(), 5),
            };
            let g = catching(|| gradients_grayscale(&img, Kernel::new(&a, s, s), Kernel::new(&b, s, s)))?;
            ch.log(|| format!("{a:?} {b:?} {}", show(&img)));
            // gradients are kept as i16
            for y in 0..h as i64 {
                for x in 0..w as i64 {
                    let c = |k: &[i32]| corr(&img, k, s as i64, s as i64, x, y).clamp(-32768, 32767);
                    let p = g.get_pixel(x as u32, y as u32)[0];
                    check!(mag_ok(p, c(&a), c(&b)), "at ({x},{y}): {p}, gradients {} {}", c(&a), c(&b));
                }
            }
            ch.op();
            if s == 2 {
                let g2 = gradients_grayscale(&img, kernel::ROBERTS_HORIZONTAL_2X2, kernel::ROBERTS_VERTICAL_2X2);
                check!(g2 == g, "the Roberts kernels differ from their definition");
            }
            Ok(())
        });
        r.section("extreme-magnitudes", "all pairs of step contrasts: every (a,b) of 8-bit values on both sides of edges of three orientations", |ch| {
            let a = ch.choose(256) as u8;
            let b = ch.choose(256) as u8;
            for o in 0..3 {
                let img = GrayImage::from_fn(3, 3, |x, y| Luma([if [x, y, (x + y) / 2][o] < 1 { a } else { b }]));
                all(ch, &img)?;
            }
            Ok(())
        });
        r.section("sizes", "every width and height 1..=70 and the neighbours of round sizes up to 1025: three patterns, grey and RGB", |ch| {
            let (w, h) = sweep_shape(ch);
            let k = ch.pick(&[0usize, 3, 4]);
            if ch.flag() {
                return channels(ch, &u8_pat::<Rgb<u8>>(k, w, h));
            }
            all(ch, &gray_pat(k, w, h))
        });
        r.section("kernel-sizes", "caller-supplied kernel pairs of every two sizes up to 4x4, and of every size up to 24x24 and up to 300 long paired with a 3x3 kernel: dense kernels and a single one at every place (up to 6x6)", |ch| {
            let (kw, kh, vw, vh) = match ch.choose(3) {
                0 => (ch.u(1, 4), ch.u(1, 4), ch.u(1, 4), ch.u(1, 4)),
                1 => (ch.u(1, 24), ch.u(1, 24), 3, 3),
                _ => {
                    let n = ch.u(1, 300);
                    ch.pick(&[(n, 1, 3, 3), (1, n, 3, 3), (3, 3, n, 1), (3, 3, 1, n)])
                }
            };
            let dense = |n: u32, s: i32| -> Vec<i32> { (0..n as i32).map(|i| (i * i + s * i) % 7 - 3).collect() };
            let k = if kw * kh <= 36 { ch.choose((kw * kh) as usize + 1) } else { (kw * kh) as usize };
            let a = if k == (kw * kh) as usize { dense(kw * kh, 2) } else { (0..(kw * kh) as usize).map(|i| (i == k) as i32 * 5).collect() };
            let b = dense(vw * vh, 3);
            let (w, h) = ch.pick(&[(5, 4), (1, 1), (13, 2)]);
            let img = gray_pat(ch.pick(&[0, 6]), w, h);
            ch.log(|| format!("{kw}x{kh} {a:?} {vw}x{vh} {b:?} {}", show(&img)));
            ch.op();
            let g = catching(|| gradients_grayscale(&img, Kernel::new(&a, kw, kh), Kernel::new(&b, vw, vh)))?;
            check!(g.dimensions() == (w, h), "dimensions");
            for y in 0..h as i64 {
                for x in 0..w as i64 {
                    let (p, q) = (corr(&img, &a, kw as i64, kh as i64, x, y).clamp(-32768, 32767), corr(&img, &b, vw as i64, vh as i64, x, y).clamp(-32768, 32767));
                    let g = g.get_pixel(x as u32, y as u32)[0];
                    check!(mag_ok(g, p, q), "at ({x},{y}): {g}, gradients {p} {q}");
                }
            }
            Ok(())
        });
    });
}
