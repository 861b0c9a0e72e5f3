//! C03: linear filters are correlations with edge replication.
use image::*;
use imageproc::filter::*;
use imageproc::kernel::{self, Kernel};
use mc::*;

/// Correlation of channel values, i64, edge replication, centre at floor(size/2).
fn corr<P: Pixel>(img: &Img<P>, k: &[i64], kw: i64, kh: i64) -> Vec<i64>
where
    P::Subpixel: Into<f64>,
{
    let (w, h) = (img.width() as i64, img.height() as i64);
    let cc = P::CHANNEL_COUNT as usize;
    let px = |x: i64, y: i64, c: usize| -> i64 {
        let x = x.clamp(0, w - 1);
        let y = y.clamp(0, h - 1);
        let v: f64 = img.as_raw()[((y * w + x) as usize) * cc + c].into();
        v as i64
    };
    let mut out = Vec::new();
    for y in 0..h {
        for x in 0..w {
            for c in 0..cc {
                let mut s = 0;
                for j in 0..kh {
                    for i in 0..kw {
                        s += k[(j * kw + i) as usize] * px(x + i - kw / 2, y + j - kh / 2, c);
                    }
                }
                out.push(s);
            }
        }
    }
    out
}

/// Kernel family: an impulse at each cell, then two dense kernels.
fn kern(ch: &mut Ch, n: usize) -> Vec<i64> {
    let k = ch.choose(n + 2);
    (0..n)
        .map(|i| {
            if k < n {
                (i == k) as i64
            } else if k == n {
                i as i64 * i as i64 % 7 - 2
            } else {
                1 + (i as i64 * 5) % 3
            }
        })
        .collect()
}

fn cmp(what: &str, got: Vec<i64>, want: Vec<i64>, w: u32, cc: usize) -> R {
    if got.len() != want.len() {
        fail!("{what}: {} samples, expected {}", got.len(), want.len());
    }
    for (i, (g, e)) in got.iter().zip(&want).enumerate() {
        if g != e {
            let p = i / cc;
            fail!("{what} at ({},{}) channel {}: got {g}, expected {e}", p as u32 % w, p as u32 / w, i % cc);
        }
    }
    Ok(())
}

macro_rules! filter_layout {
    ($ch:ident, $P:ty, $Q:ty, $w:ident,$h:ident,$kw:ident,$kh:ident,$pt:ident,$k:ident) => {{
        let img: Img<$P> = u8_pat($pt, $w, $h);
        let cc = <$P as Pixel>::CHANNEL_COUNT as usize;
        let want = corr(&img, &$k, $kw as i64, $kh as i64);
        let ki: Vec<i32> = $k.iter().map(|&v| v as i32).collect();
        let kf: Vec<f32> = $k.iter().map(|&v| v as f32 * 0.25).collect();
        $ch.ops(5);
        let o: Img<$Q> = filter(&img, Kernel::new(&ki, $kw, $kh), |v: i32| v as i16);
        check!(o.dimensions() == ($w, $h), "filter dimensions {:?}", o.dimensions());
        cmp("filter", o.as_raw().iter().map(|&v| v as i64).collect(), want.clone(), $w, cc)?;
        let o: Img<$Q> = filter_parallel(&img, Kernel::new(&ki, $kw, $kh), |v: i32| v as i16);
        check!(o.dimensions() == ($w, $h), "filter_parallel dimensions {:?}", o.dimensions());
        cmp("filter_parallel", o.as_raw().iter().map(|&v| v as i64).collect(), want.clone(), $w, cc)?;
        let o: Img<$Q> = filter(&img, Kernel::new(&kf, $kw, $kh), |v: f32| (v * 4.0) as i16);
        cmp("filter with f32 kernel", o.as_raw().iter().map(|&v| v as i64).collect(), want.clone(), $w, cc)?;
        let o: Img<$P> = filter_clamped::<$P, i32, u8>(&img, Kernel::new(&ki, $kw, $kh));
        let wc: Vec<i64> = want.iter().map(|&v| v.clamp(0, 255)).collect();
        cmp("filter_clamped to u8", o.as_raw().iter().map(|&v| v as i64).collect(), wc, $w, cc)?;
        let o: Img<$Q> = filter_clamped_parallel::<$P, i32, i16>(&img, Kernel::new(&ki, $kw, $kh));
        $ch.observe_bytes(&want.iter().map(|&v| v as u8).collect::<Vec<_>>());
        cmp("filter_clamped_parallel to i16", o.as_raw().iter().map(|&v| v as i64).collect(), want, $w, cc)?;
    }};
}

/// One- and two-pass filters with clamping to the pixel type after each pass.
macro_rules! one_d {
    ($ch:ident, $P:ty, $w:ident,$h:ident,$pt:ident,$kh:ident,$kv:ident) => {{
        let img: Img<$P> = u8_pat($pt, $w, $h);
        let cc = <$P as Pixel>::CHANNEL_COUNT as usize;
        let i32s = |k: &Vec<i64>| k.iter().map(|&v| v as i32).collect::<Vec<i32>>();
        let halves = |k: &Vec<i64>| k.iter().map(|&v| v as f32 * 0.5).collect::<Vec<f32>>();
        let to = |v: Vec<i64>, div: i64| -> Img<$P> {
            ImageBuffer::from_raw($w, $h, v.iter().map(|&x| {
                // clamp, then truncate towards zero (exact: values are multiples of 1/div)
                (x.clamp(0, 255 * div) / div) as u8
            }).collect()).unwrap()
        };
        $ch.ops(6);
        let eh = to(corr(&img, &$kh, $kh.len() as i64, 1), 1);
        let ev = to(corr(&img, &$kv, 1, $kv.len() as i64), 1);
        if let Some(d) = diff(&horizontal_filter(&img, &i32s(&$kh)), &eh) {
            fail!("horizontal_filter {d}");
        }
        if let Some(d) = diff(&vertical_filter(&img, &i32s(&$kv)), &ev) {
            fail!("vertical_filter {d}");
        }
        let ehf = to(corr(&img, &$kh, $kh.len() as i64, 1), 2);
        if let Some(d) = diff(&horizontal_filter(&img, &halves(&$kh)), &ehf) {
            fail!("horizontal_filter with f32 kernel {d}");
        }
        let evf = to(corr(&img, &$kv, 1, $kv.len() as i64), 2);
        if let Some(d) = diff(&vertical_filter(&img, &halves(&$kv)), &evf) {
            fail!("vertical_filter with f32 kernel {d}");
        }
        let es = to(corr(&eh, &$kv, 1, $kv.len() as i64), 1);
        if let Some(d) = diff(&separable_filter(&img, &i32s(&$kh), &i32s(&$kv)), &es) {
            fail!("separable_filter {d}");
        }
        let es = to(corr(&eh, &$kh, 1, $kh.len() as i64), 1);
        let got = separable_filter_equal(&img, &i32s(&$kh));
        $ch.observe_bytes(got.as_raw());
        if let Some(d) = diff(&got, &es) {
            fail!("separable_filter_equal {d}");
        }
        let _ = cc;
    }};
}

/// One pixel type and one kernel type: impulse kernels move extreme values exactly, dense kernels give exact sums.
fn typed_by<P, K>(ch: &mut Ch, of: impl Fn(P::Subpixel) -> i64) -> R
where
    P: Pixel + Send + Sync,
    P::Subpixel: Val + Into<K> + imageproc::definitions::Clamp<K>,
    K: Val,
{
    let (w, h) = ch.pick(&[(1u32, 1u32), (4, 3), (2, 6), (7, 1)]);
    let (kw, kh) = ch.pick(&[(1u32, 1u32), (3, 3), (2, 3), (4, 1), (1, 5)]);
    let cells = kern(ch, (kw * kh) as usize);
    let n = (kw * kh) as usize;
    let impulse = cells.iter().filter(|v| **v != 0).count() == 1 && cells.iter().sum::<i64>() == 1;
    let cc = P::CHANNEL_COUNT as usize;
    ch.log(|| format!("{} x{cc}, kernel of {} {cells:?} {kw}x{kh}, image {w}x{h}", P::Subpixel::NAME, K::NAME));
    let to = |v: i64| <K as num::NumCast>::from(v).unwrap();
    let one_d = kw == 1 || kh == 1;
    let clamp = |v: K| -> P::Subpixel { imageproc::definitions::Clamp::clamp(v) };
    let run = |img: &Img<P>, k: &[K]| -> Vec<(&'static str, Img<P>)> {
        let mut v: Vec<(&'static str, Img<P>)> = vec![
            ("filter", filter(img, Kernel::new(k, kw, kh), clamp)),
            ("filter_parallel", filter_parallel(img, Kernel::new(k, kw, kh), clamp)),
        ];
        // keeps every pixel where it is
        let still: Vec<K> = (0..n).map(|i| if i == n / 2 { K::one() } else { K::zero() }).collect();
        if kh == 1 {
            v.push(("horizontal_filter", horizontal_filter(img, k)));
            v.push(("separable_filter", separable_filter(img, k, &still)));
        }
        if kw == 1 {
            v.push(("vertical_filter", vertical_filter(img, k)));
            v.push(("separable_filter", separable_filter(img, &still, k)));
        }
        v
    };
    ch.ops(2 + 2 * one_d as u64);
    if impulse {
        let img: Img<P> = timg(w, h, n as u32);
        let at = cells.iter().position(|v| *v == 1).unwrap() as i64;
        let (dx, dy) = (at % kw as i64 - kw as i64 / 2, at / kw as i64 - kh as i64 / 2);
        let k: Vec<K> = cells.iter().map(|v| to(*v)).collect();
        for (name, g) in run(&img, &k) {
            check!(g.dimensions() == (w, h), "{name}: dimensions {:?}", g.dimensions());
            for (x, y, p) in g.enumerate_pixels() {
                let e = img.get_pixel((x as i64 + dx).clamp(0, w as i64 - 1) as u32, (y as i64 + dy).clamp(0, h as i64 - 1) as u32);
                check!(p.channels() == e.channels(), "{name}: ({x},{y}) is {:?}, expected {:?}", p.channels(), e.channels());
            }
        }
        return Ok(());
    }
    // small values: every partial sum fits every type, unless it is negative
    let signed = to(0) - to(0) > K::DEFAULT_MIN_VALUE;
    let cells: Vec<i64> = cells.iter().map(|v| if signed { *v } else { v.abs() }).map(|v| v.clamp(-2, 3)).collect();
    let mut img = Img::<P>::new(w, h);
    let mut vals = vec![];
    for y in 0..h {
        for x in 0..w {
            for c in 0..cc {
                let v = pat(7, x, y, c as u32, w, h) as i64 % 5;
                vals.push(v);
                img.get_pixel_mut(x, y).channels_mut()[c] = <P::Subpixel as num::NumCast>::from(v).unwrap();
            }
        }
    }
    let px = |x: i64, y: i64, c: usize| vals[(y.clamp(0, h as i64 - 1) as usize * w as usize + x.clamp(0, w as i64 - 1) as usize) * cc + c];
    let lowest = of(P::Subpixel::DEFAULT_MIN_VALUE).max(-1000);
    let lowest = if matches!(P::Subpixel::NAME, "f32" | "f64") { -1000 } else { lowest };
    let k: Vec<K> = cells.iter().map(|v| to(*v)).collect();
    for (name, g) in run(&img, &k) {
        for (x, y, p) in g.enumerate_pixels() {
            for c in 0..cc {
                let mut e = 0;
                for j in 0..kh as i64 {
                    for i in 0..kw as i64 {
                        e += cells[(j * kw as i64 + i) as usize] * px(x as i64 + i - kw as i64 / 2, y as i64 + j - kh as i64 / 2, c);
                    }
                }
                let e = e.max(lowest);
                check!(of(p.channels()[c]) == e, "{name}: ({x},{y}) channel {c} is {:?}, expected {e}", p.channels()[c]);
            }
        }
    }
    Ok(())
}
macro_rules! pairs {
    ($ch:ident; $($S:ty, $K:ty;)*) => {{
        let mut n = 0usize;
        $( let _ = std::marker::PhantomData::<($S, $K)>; n += 4; )*
        let k = $ch.choose(n);
        let mut i = 0usize;
        $(
            let of = |v: $S| v as i64;
            if k == i { return typed_by::<Luma<$S>, $K>($ch, of); }
            if k == i + 1 { return typed_by::<LumaA<$S>, $K>($ch, of); }
            if k == i + 2 { return typed_by::<Rgb<$S>, $K>($ch, of); }
            if k == i + 3 { return typed_by::<Rgba<$S>, $K>($ch, of); }
            i += 4;
        )*
        let _ = i;
        unreachable!()
    }};
}

fn main() {
    run("C03", |r| {
        r.section("filter-2d", "shapes 0..=6 squared (thorough 10), kernel shapes 1..=5 squared and long ones, every kernel impulse + 2 dense kernels, 4 pixel layouts, 2 patterns", |ch| {
            let n = if ch.thorough { 10 } else { 6 };
            let (w, h) = (ch.u(0, n), ch.u(0, n));
            let mut ks: Vec<(u32, u32)> = vec![];
            for a in 1..=5 {
                for b in 1..=5 {
                    ks.push((a, b));
                }
            }
            ks.extend([(9, 1), (1, 9), (8, 2), (2, 8), (12, 3), (7, 7), (9, 7), (6, 8), (3, 12)]);
            let (kw, kh) = ch.pick(&ks);
            let pt = ch.pick(&[0usize, 7]);
            let layout = ch.choose(4);
            let k = kern(ch, (kw * kh) as usize);
            ch.log(|| format!("{w}x{h} layout {layout} kernel {kw}x{kh} {k:?} pattern {pt}"));
            match layout {
                0 => filter_layout!(ch, Luma<u8>, Luma<i16>, w, h, kw, kh, pt, k),
                1 => filter_layout!(ch, LumaA<u8>, LumaA<i16>, w, h, kw, kh, pt, k),
                2 => filter_layout!(ch, Rgb<u8>, Rgb<i16>, w, h, kw, kh, pt, k),
                _ => filter_layout!(ch, Rgba<u8>, Rgba<i16>, w, h, kw, kh, pt, k),
            }
            Ok(())
        });
        r.section("filter-tiny", "all images of area<=6 over {0,7,255} x 5 kernels incl. even sizes, u16 and f32 pixels too", |ch| {
            let (w, h) = shape(ch, 1, 6, 6);
            let img = gray(ch, w, h, &[0, 7, 255]);
            let kernels: [(&[i64], u32, u32); 5] = [
                (&[0, -1, 0, -1, 5, -1, 0, -1, 0], 3, 3),
                (&[1, 0, 0, -1], 2, 2),
                (&[1, 2, 3, 4, 5, 6], 3, 2),
                (&[-3, 1, 4, 1, -5, 9, 2, 6], 2, 4),
                (&[2], 1, 1),
            ];
            let (k, kw, kh) = ch.pick(&kernels);
            ch.log(|| format!("kernel {kw}x{kh} {k:?} {}", show(&img)));
            let ki: Vec<i32> = k.iter().map(|&v| v as i32).collect();
            let want = corr(&img, k, kw as i64, kh as i64);
            ch.ops(4);
            let o: Img<Luma<i16>> = filter_clamped(&img, Kernel::new(&ki, kw, kh));
            cmp("filter_clamped", o.as_raw().iter().map(|&v| v as i64).collect(), want.clone(), w, 1)?;
            let o: Img<Luma<u8>> = filter_clamped(&img, Kernel::new(&ki, kw, kh));
            ch.observe_bytes(o.as_raw());
            cmp("filter_clamped", o.as_raw().iter().map(|&v| v as i64).collect(), want.iter().map(|&v| v.clamp(0, 255)).collect(), w, 1)?;
            let i16img: Img<Luma<u16>> = ImageBuffer::from_raw(w, h, img.as_raw().iter().map(|&v| v as u16 * 257).collect()).unwrap();
            let want16 = corr(&i16img, k, kw as i64, kh as i64);
            let o: Img<Luma<u16>> = filter_clamped::<Luma<u16>, i32, u16>(&i16img, Kernel::new(&ki, kw, kh));
            cmp("filter_clamped on u16", o.as_raw().iter().map(|&v| v as i64).collect(), want16.iter().map(|&v| v.clamp(0, 65535)).collect(), w, 1)?;
            let f: Img<Luma<f32>> = ImageBuffer::from_raw(w, h, img.as_raw().iter().map(|&v| v as f32).collect()).unwrap();
            let kf: Vec<f32> = k.iter().map(|&v| v as f32).collect();
            let o: Img<Luma<f32>> = filter(&f, Kernel::new(&kf, kw, kh), |v: f32| v);
            cmp("filter on f32", o.as_raw().iter().map(|&v| v as i64).collect(), want, w, 1)?;
            Ok(())
        });
        r.section("filter-1d-layouts", "shapes 0..=12 (thorough 24) x 0..=4 and transposed, kernel lengths 0..=10, horizontal/vertical kernel from impulses + dense, separable pairs, 4 layouts", |ch| {
            let m = if ch.thorough { 24 } else { 12 };
            let (mut w, mut h) = (ch.u(0, m), ch.u(0, 4));
            if ch.flag() {
                std::mem::swap(&mut w, &mut h);
            }
            let n = ch.choose(11);
            let pt = ch.pick(&[0usize, 7]);
            let layout = ch.choose(4);
            let kh = kern(ch, n);
            let mut kv = kh.clone();
            kv.reverse();
            for (i, v) in kv.iter_mut().enumerate() {
                *v += (i % 2) as i64;
            }
            ch.log(|| format!("{w}x{h} layout {layout} h {kh:?} v {kv:?} pattern {pt}"));
            match layout {
                0 => one_d!(ch, Luma<u8>, w, h, pt, kh, kv),
                1 => one_d!(ch, LumaA<u8>, w, h, pt, kh, kv),
                2 => one_d!(ch, Rgb<u8>, w, h, pt, kh, kv),
                _ => one_d!(ch, Rgba<u8>, w, h, pt, kh, kv),
            }
            Ok(())
        });
        r.section("large", "8 shapes up to 300 wide or high, 6 two-dimensional kernel shapes and 8 one-dimensional lengths up to 61, 2 patterns, 4 layouts", |ch| {
            let (w, h) = large_shape(ch);
            let pt = ch.pick(&[0usize, 7]);
            let layout = ch.choose(4);
            if ch.flag() {
                let (kw, kh) = ch.pick(&[(1u32, 1u32), (3, 3), (5, 5), (3, 7), (8, 2), (11, 1), (7, 9), (9, 9), (4, 10), (15, 15), (17, 31), (31, 17)]);
                let k: Vec<i64> = (0..(kw * kh) as i64).map(|i| i * i % 7 - 2).collect();
                ch.log(|| format!("{w}x{h} layout {layout} kernel {kw}x{kh} {k:?} pattern {pt}"));
                match layout {
                    0 => filter_layout!(ch, Luma<u8>, Luma<i16>, w, h, kw, kh, pt, k),
                    1 => filter_layout!(ch, LumaA<u8>, LumaA<i16>, w, h, kw, kh, pt, k),
                    2 => filter_layout!(ch, Rgb<u8>, Rgb<i16>, w, h, kw, kh, pt, k),
                    _ => filter_layout!(ch, Rgba<u8>, Rgba<i16>, w, h, kw, kh, pt, k),
                }
            } else {
                let n = ch.pick(&[1usize, 2, 3, 5, 16, 17, 33, 61]);
                let kh: Vec<i64> = (0..n as i64).map(|i| i * i % 7 - 2).collect();
                let kv: Vec<i64> = (0..n as i64).map(|i| 1 - i * 5 % 3).collect();
                ch.log(|| format!("{w}x{h} layout {layout} h {kh:?} v {kv:?} pattern {pt}"));
                match layout {
                    0 => one_d!(ch, Luma<u8>, w, h, pt, kh, kv),
                    1 => one_d!(ch, LumaA<u8>, w, h, pt, kh, kv),
                    2 => one_d!(ch, Rgb<u8>, w, h, pt, kh, kv),
                    _ => one_d!(ch, Rgba<u8>, w, h, pt, kh, kv),
                }
            }
            Ok(())
        });
        r.section("laplacian-sharpen", "all 3x3 images over {0,100,255} and all shapes 0..=4 over {0,255} up to area 9", |ch| {
            let img = if ch.flag() {
                gray(ch, 3, 3, &[0, 100, 255])
            } else {
                let (w, h) = (ch.u(0, 6), ch.u(0, 6));
                if w * h > 9 {
                    gray_family(ch, w, h)
                } else {
                    gray(ch, w, h, &[0, 255])
                }
            };
            ch.log(|| show(&img));
            ch.ops(4);
            let w = img.width();
            let lap = corr(&img, &[0, 1, 0, 1, -4, 1, 0, 1, 0], 3, 3);
            cmp("laplacian_filter", laplacian_filter(&img).as_raw().iter().map(|&v| v as i64).collect(), lap.clone(), w, 1)?;
            cmp("laplacian_filter_parallel", laplacian_filter_parallel(&img).as_raw().iter().map(|&v| v as i64).collect(), lap, w, 1)?;
            let sh: Vec<i64> = corr(&img, &[0, -1, 0, -1, 5, -1, 0, -1, 0], 3, 3).iter().map(|v| *v.clamp(&0, &255)).collect();
            let o = sharpen3x3(&img);
            ch.observe_bytes(o.as_raw());
            cmp("sharpen3x3", o.as_raw().iter().map(|&v| v as i64).collect(), sh.clone(), w, 1)?;
            cmp("sharpen3x3_parallel", sharpen3x3_parallel(&img).as_raw().iter().map(|&v| v as i64).collect(), sh, w, 1)?;
            Ok(())
        });
        r.section("kernels", "every cell of every named kernel", |ch| {
            let named: Vec<(&str, Kernel<i32>, Vec<i32>, u32)> = vec![
                ("SOBEL_HORIZONTAL", kernel::SOBEL_HORIZONTAL_3X3, vec![-1, 0, 1, -2, 0, 2, -1, 0, 1], 3),
                ("SOBEL_VERTICAL", kernel::SOBEL_VERTICAL_3X3, vec![-1, -2, -1, 0, 0, 0, 1, 2, 1], 3),
                ("SCHARR_HORIZONTAL", kernel::SCHARR_HORIZONTAL_3X3, vec![-3, 0, 3, -10, 0, 10, -3, 0, 3], 3),
                ("SCHARR_VERTICAL", kernel::SCHARR_VERTICAL_3X3, vec![-3, -10, -3, 0, 0, 0, 3, 10, 3], 3),
                ("PREWITT_HORIZONTAL", kernel::PREWITT_HORIZONTAL_3X3, vec![-1, 0, 1, -1, 0, 1, -1, 0, 1], 3),
                ("PREWITT_VERTICAL", kernel::PREWITT_VERTICAL_3X3, vec![-1, -1, -1, 0, 0, 0, 1, 1, 1], 3),
                ("ROBERTS_HORIZONTAL", kernel::ROBERTS_HORIZONTAL_2X2, vec![1, 0, 0, -1], 2),
                ("ROBERTS_VERTICAL", kernel::ROBERTS_VERTICAL_2X2, vec![0, 1, -1, 0], 2),
            ];
            let i = ch.choose(named.len());
            let (name, k, want, side) = &named[i];
            let (x, y) = (ch.u(0, side - 1), ch.u(0, side - 1));
            ch.op();
            let e = want[(y * side + x) as usize];
            check!(k.get(x, y) == e, "{name}.get({x},{y}) = {}, expected {e}", k.get(x, y));
            // SAFETY: in bounds
            check!(unsafe { k.get_unchecked(x, y) } == e, "{name}.get_unchecked({x},{y})");
            let four = [0, 1, 0, 1, -4, 1, 0, 1, 0];
            let eight = [1, 1, 1, 1, -8, 1, 1, 1, 1];
            if *side == 3 {
                check!(kernel::FOUR_LAPLACIAN_3X3.get(x, y) == four[(y * 3 + x) as usize], "FOUR_LAPLACIAN");
                check!(kernel::EIGHT_LAPLACIAN_3X3.get(x, y) == eight[(y * 3 + x) as usize], "EIGHT_LAPLACIAN");
            }
            Ok(())
        });
        r.section("sizes", "every width and height 1..=70 and the neighbours of round sizes up to 1025, 5 two-dimensional kernels and 5 one-dimensional ones, 2 layouts", |ch| {
            let (w, h) = sweep_shape(ch);
            let pt = 0;
            let rgb = ch.flag();
            if ch.flag() {
                let (kw, kh) = ch.pick(&[(3u32, 3u32), (1, 5), (4, 2), (5, 5), (8, 1)]);
                let k: Vec<i64> = (0..(kw * kh) as i64).map(|i| i * i % 7 - 2).collect();
                ch.log(|| format!("{w}x{h} rgb {rgb} kernel {kw}x{kh} {k:?}"));
                if rgb {
                    filter_layout!(ch, Rgb<u8>, Rgb<i16>, w, h, kw, kh, pt, k);
                } else {
                    filter_layout!(ch, Luma<u8>, Luma<i16>, w, h, kw, kh, pt, k);
                }
            } else {
                let n = ch.pick(&[2usize, 3, 5, 9, 17]);
                let kh: Vec<i64> = (0..n as i64).map(|i| i * i % 7 - 2).collect();
                let kv: Vec<i64> = (0..n as i64).map(|i| 1 - i * 5 % 3).collect();
                ch.log(|| format!("{w}x{h} rgb {rgb} h {kh:?} v {kv:?}"));
                if rgb {
                    one_d!(ch, Rgb<u8>, w, h, pt, kh, kv);
                } else {
                    one_d!(ch, Luma<u8>, w, h, pt, kh, kv);
                }
            }
            Ok(())
        });
        r.section("long-kernels", "kernels of 1x1 to 3 rows (columns) by 128, 254..258, 300, 511..513, 1000 and 66000 cells on shapes up to 9x7 and 300x2: filters with integer and real kernels", |ch| {
            let n = ch.pick(&[128u32, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 66000]);
            let (w, h) = ch.pick(&[(1u32, 1u32), (9, 7), (4, 3), (300, 2), (2, 300)]);
            let pt = 7;
            if n == 66000 && w * h > 20 {
                return ch.reject();
            }
            ch.log(|| format!("{w}x{h}, kernel of {n} cells"));
            if ch.flag() {
                let k = ch.u(1, 3);
                let (kw, kh) = if ch.flag() { (n, k) } else { (k, n) };
                // sums within 16 bits
                let k: Vec<i64> = (0..(kw * kh) as i64).map(|i| (i % 61 == 3) as i64 - (i % 61 == 40) as i64).collect();
                filter_layout!(ch, Luma<u8>, Luma<i16>, w, h, kw, kh, pt, k);
            } else {
                let kh: Vec<i64> = (0..n as i64).map(|i| (i % 61 == 3) as i64 - (i % 61 == 20) as i64).collect();
                let kv: Vec<i64> = (0..n as i64).map(|i| (i % 53 == 7) as i64 - (i % 67 == 9) as i64).collect();
                one_d!(ch, Luma<u8>, w, h, pt, kh, kv);
            }
            Ok(())
        });
        r.section("types", "20 pairs of pixel and kernel number types x 4 layouts x 5 kernel shapes, impulses moving extreme values and dense kernels on small ones: all filters", |ch| {
            pairs!(ch; u8, u8; u8, i16; u8, u16; u8, i32; u8, u32; u8, f32; u8, f64; i8, i8; u16, u16; u16, i32; u16, f32; u16, f64; i16, i16; i16, i32; u32, u32; i32, i32; u64, u64; i64, i64; f32, f32; f64, f64;)
        });
        r.section("kernel-ladder", "every kernel length 1..=300 and around powers of two up to 1025 (both directions), and every kernel size 1..=40 squared, on small shapes: dense kernels", |ch| {
            let (w, h) = ch.pick(&[(1u32, 1u32), (7, 3), (3, 8), (41, 2), (2, 41)]);
            let pt = 0;
            if ch.flag() {
                let l = ladder(300, 1025);
                let n = 1 + ch.choose(l.len() - 1);
                let n = l[n] as usize;
                let kh: Vec<i64> = (0..n as i64).map(|i| i * i % 7 - 2).collect();
                let kv: Vec<i64> = (0..n as i64).map(|i| 1 - i * 5 % 3 + (i == 0 || i + 1 == n as i64) as i64).collect();
                ch.log(|| format!("{w}x{h} length {n}"));
                one_d!(ch, Luma<u8>, w, h, pt, kh, kv);
            } else {
                let (kw, kh) = (ch.u(1, 40), ch.u(1, 40));
                let k: Vec<i64> = (0..(kw * kh) as i64).map(|i| i * i % 7 - 2).collect();
                ch.log(|| format!("{w}x{h} kernel {kw}x{kh}"));
                if w * h > 30 {
                    return ch.reject();
                }
                filter_layout!(ch, Rgb<u8>, Rgb<i16>, w, h, kw, kh, pt, k);
            }
            Ok(())
        });
    })
}
