//! C39: mapping and clamping.
use image::*;
use imageproc::definitions::{Clamp, HasBlack, HasWhite, Image};
use imageproc::map::*;
use imageproc::pixelops::*;
use mc::*;
use std::sync::Mutex;

/// Distinct values everywhere.
fn numbered<P: Pixel<Subpixel = u16>>(w: u32, h: u32) -> Img<P> {
    let n = w * h * P::CHANNEL_COUNT as u32;
    Img::<P>::from_raw(w, h, (0..n).map(|i| (i * 3 + 1 + i / 65536) as u16).collect()).unwrap()
}

fn maps<P>(ch: &mut Ch, w: u32, h: u32) -> R
where
    P: Pixel<Subpixel = u16> + WithChannel<u32> + WithChannel<u16, Pixel = P> + WithChannel<i32> + Send + Sync + PartialEq + std::fmt::Debug,
{
    let img: Img<P> = numbered(w, h);
    let before = img.clone();
    let cc = P::CHANNEL_COUNT as usize;
    ch.ops(12);
    ch.log(|| format!("{w}x{h} {cc} channels"));
    // subpixels
    let fs = |s: u16| s as i32 * 2 - 9;
    let m = map_subpixels(&img, fs);
    check!(m.dimensions() == (w, h) && m.as_raw().len() == img.as_raw().len(), "map_subpixels dimensions");
    for (a, b) in m.as_raw().iter().zip(img.as_raw()) {
        check!(*a == fs(*b), "map_subpixels: {b} became {a}");
    }
    let par = map_subpixels_parallel(&img, fs);
    check!(par.dimensions() == (w, h) && par.as_raw() == m.as_raw(), "map_subpixels_parallel differs");
    let g = |s: u16| s ^ 0x55;
    let mut a = img.clone();
    map_subpixels_mut(&mut a, g);
    let mut b = img.clone();
    map_subpixels_mut_parallel(&mut b, g);
    let want: Vec<u16> = img.as_raw().iter().map(|&s| g(s)).collect();
    check!(a.as_raw() == &want && b.as_raw() == &want, "map_subpixels_mut");
    // pixels, changing the number of channels
    let fp = |p: P| {
        let c = p.channels();
        LumaA([c[0].wrapping_add(c[cc - 1]), c[cc / 2]])
    };
    let m = map_pixels(&img, fp);
    let mp = map_pixels_parallel(&img, fp);
    check!(m.dimensions() == (w, h), "map_pixels dimensions");
    check!(mp.dimensions() == (w, h) && mp.as_raw() == m.as_raw(), "map_pixels_parallel differs");
    let fe = |x: u32, y: u32, p: P| {
        let c = p.channels();
        Rgb([c[0], c[cc - 1] ^ x as u16, (y as u16).wrapping_mul(7)])
    };
    let e = map_enumerated_pixels(&img, fe);
    let ep = map_enumerated_pixels_parallel(&img, fe);
    check!(e.dimensions() == (w, h), "map_enumerated_pixels dimensions");
    check!(ep.dimensions() == (w, h) && ep.as_raw() == e.as_raw(), "map_enumerated_pixels_parallel differs");
    let q = |p: P| p.map(|s| s.wrapping_mul(5));
    let mut pm = img.clone();
    map_pixels_mut(&mut pm, q);
    let mut pmp = img.clone();
    map_pixels_mut_parallel(&mut pmp, q);
    let qe = |x: u32, y: u32, p: P| p.map(|s| s.wrapping_mul(5) ^ (x * 16 + y) as u16);
    let mut em = img.clone();
    map_enumerated_pixels_mut(&mut em, qe);
    let mut emp = img.clone();
    map_enumerated_pixels_mut_parallel(&mut emp, qe);
    let two: Image<Rgb<u16>> = map_pixels2(&img, &m, |p: P, q: LumaA<u16>| Rgb([p.channels()[0], q[0], q[1]]));
    check!(two.dimensions() == (w, h), "map_pixels2 dimensions");
    for y in 0..h {
        for x in 0..w {
            let p = *img.get_pixel(x, y);
            check!(*m.get_pixel(x, y) == fp(p), "map_pixels at ({x},{y})");
            check!(*e.get_pixel(x, y) == fe(x, y, p), "map_enumerated_pixels at ({x},{y})");
            check!(*pm.get_pixel(x, y) == q(p) && *pmp.get_pixel(x, y) == q(p), "map_pixels_mut at ({x},{y})");
            check!(*em.get_pixel(x, y) == qe(x, y, p) && *emp.get_pixel(x, y) == qe(x, y, p), "map_enumerated_pixels_mut at ({x},{y})");
            let v = fp(p);
            check!(*two.get_pixel(x, y) == Rgb([p.channels()[0], v[0], v[1]]), "map_pixels2 at ({x},{y})");
        }
    }
    // once per element: no call is lost or repeated
    let calls = Mutex::new(vec![]);
    let _: Image<Luma<u16>> = map_enumerated_pixels_parallel(&img, |x, y, _| {
        calls.lock().unwrap().push((y, x));
        Luma([0])
    });
    let mut calls = calls.into_inner().unwrap();
    calls.sort();
    check!(calls == (0..h).flat_map(|y| (0..w).map(move |x| (y, x))).collect::<Vec<_>>(), "calls {calls:?}");
    check!(img == before, "the input is changed");
    Ok(())
}

macro_rules! clamp_all {
    ($ch:ident, $from:ty, $to:ty, $vals:expr) => {{
        for v in $vals {
            let v: $from = v;
            let g = <$to as Clamp<$from>>::clamp(v);
            let e = (v as i64).clamp(<$to>::MIN as i64, <$to>::MAX as i64) as $to;
            $ch.op();
            check!(g == e, "clamping {v}{} to {} gives {g}, expected {e}", stringify!($from), stringify!($to));
        }
    }};
}

macro_rules! clamp_float {
    ($ch:ident, $from:ty, $to:ty, $vals:expr) => {{
        for v in $vals {
            let v: $from = v;
            if v.is_nan() {
                continue;
            }
            let g = <$to as Clamp<$from>>::clamp(v);
            let e = if v <= <$to>::MIN as $from {
                <$to>::MIN
            } else if v >= <$to>::MAX as $from {
                <$to>::MAX
            } else {
                v.trunc() as i64 as $to
            };
            $ch.op();
            check!(g == e, "clamping {v}{} to {} gives {g}, expected {e}", stringify!($from), stringify!($to));
        }
    }};
}

macro_rules! identity {
    ($($t:ty),*) => { $( for v in [<$t>::MIN, <$t>::MAX, 0 as $t, 1 as $t, 100 as $t] {
        check!(<$t as Clamp<$t>>::clamp(v) == v, "identity clamp of {v}{}", stringify!($t));
    } )* };
}

fn bounds<T: Copy>(xs: &[T]) -> Vec<T> {
    xs.to_vec()
}

fn near(c: i64, d: i64, lo: i64, hi: i64) -> impl Iterator<Item = i64> {
    (c.saturating_sub(d).max(lo))..=(c.saturating_add(d).min(hi))
}

/// floats around `c`: neighbours in representation and fractions
fn near32(c: f32) -> Vec<f32> {
    let mut v = vec![c, c + 0.5, c - 0.5, c + 0.999, c - 0.999, c + 1.0, c - 1.0];
    for k in 1..5u32 {
        v.push(f32::from_bits(c.to_bits().wrapping_add(k)));
        v.push(f32::from_bits(c.to_bits().wrapping_sub(k)));
    }
    v
}
fn near64(c: f64) -> Vec<f64> {
    let mut v = vec![c, c + 0.5, c - 0.5, c + 0.999, c - 0.999, c + 1.0, c - 1.0];
    for k in 1..5u64 {
        v.push(f64::from_bits(c.to_bits().wrapping_add(k)));
        v.push(f64::from_bits(c.to_bits().wrapping_sub(k)));
    }
    v
}

/// All mapping functions on one pixel type, with maps that keep every bit.
fn typed<P>(ch: &mut Ch) -> R
where
    P: Pixel + Send + Sync + WithChannel<u64> + WithChannel<f32>,
    P::Subpixel: Val,
    <P as WithChannel<u64>>::Pixel: Send + Sync,
    <P as WithChannel<f32>>::Pixel: Send + Sync,
{
    let (w, h) = ch.pick(&[(1u32, 1u32), (4, 3), (1, 6), (0, 2), (9, 2)]);
    let img: Img<P> = timg(w, h, 2);
    let cc = P::CHANNEL_COUNT as usize;
    ch.log(|| format!("{} x{cc} {w}x{h}", P::Subpixel::NAME));
    ch.ops(12);
    let vals = P::Subpixel::vals();
    let next = |s: P::Subpixel| vals[(vals.iter().position(|v| v.bits() == s.bits()).unwrap() + 1) % vals.len()];
    let m: Vec<Vec<u64>> = [map_subpixels::<P, _, u64>(&img, |s: P::Subpixel| s.bits()), map_subpixels_parallel::<P, _, u64>(&img, |s: P::Subpixel| s.bits())].into_iter().map(|i| i.into_raw()).collect();
    let bits: Vec<u64> = img.as_raw().iter().map(|s| s.bits()).collect();
    check!(m[0] == bits && m[1] == bits, "map_subpixels to u64: {m:?}, expected {bits:?}");
    let m = map_subpixels::<P, _, f32>(&img, |s: P::Subpixel| s.f() as f32);
    let mp = map_subpixels_parallel::<P, _, f32>(&img, |s: P::Subpixel| s.f() as f32);
    check!(m.dimensions() == (w, h) && mp.dimensions() == (w, h), "map_subpixels dimensions");
    check!(m.as_raw().iter().zip(img.as_raw()).all(|(a, b)| a.to_bits() == (b.f() as f32).to_bits()) && mp.as_raw().iter().zip(m.as_raw()).all(|(a, b)| a.to_bits() == b.to_bits()), "map_subpixels to f32");
    let turn = |p: P| {
        let mut c = p.channels().to_vec();
        c.rotate_left(1);
        *P::from_slice(&c.into_iter().map(next).collect::<Vec<_>>())
    };
    let es = Img::<P>::from_raw(w, h, img.as_raw().iter().map(|&s| next(s)).collect()).unwrap();
    let ep = Img::<P>::from_fn(w, h, |x, y| turn(*img.get_pixel(x, y)));
    let place = |x: u32, y: u32, p: P| if (x + y) % 2 == 0 { turn(p) } else { p };
    let ee = Img::<P>::from_fn(w, h, |x, y| place(x, y, *img.get_pixel(x, y)));
    let (mut a, mut b, mut c, mut d, mut e, mut f) = (img.clone(), img.clone(), img.clone(), img.clone(), img.clone(), img.clone());
    map_subpixels_mut(&mut a, next);
    map_subpixels_mut_parallel(&mut b, next);
    map_pixels_mut(&mut c, turn);
    map_pixels_mut_parallel(&mut d, turn);
    map_enumerated_pixels_mut(&mut e, place);
    map_enumerated_pixels_mut_parallel(&mut f, place);
    let other: Img<Luma<i64>> = timg(w, h, 1);
    let two = map_pixels2(&img, &other, |p: P, q: Luma<i64>| if q[0] > 50 { turn(p) } else { p });
    let et = Img::<P>::from_fn(w, h, |x, y| if other.get_pixel(x, y)[0] > 50 { turn(*img.get_pixel(x, y)) } else { *img.get_pixel(x, y) });
    for (n, g, e) in [
        ("map_subpixels_mut", a, &es),
        ("map_subpixels_mut_parallel", b, &es),
        ("map_pixels_mut", c, &ep),
        ("map_pixels_mut_parallel", d, &ep),
        ("map_pixels", map_pixels(&img, turn), &ep),
        ("map_pixels_parallel", map_pixels_parallel(&img, turn), &ep),
        ("map_enumerated_pixels", map_enumerated_pixels(&img, place), &ee),
        ("map_enumerated_pixels_parallel", map_enumerated_pixels_parallel(&img, place), &ee),
        ("map_enumerated_pixels_mut", e, &ee),
        ("map_enumerated_pixels_mut_parallel", f, &ee),
        ("map_pixels2", two, &et),
    ] {
        if let Some(d) = tdiff(&g, e) {
            fail!("{n} {d}");
        }
    }
    Ok(())
}

fn typed_channels<T>(ch: &mut Ch) -> R
where
    T: Val,
    Rgb<T>: Pixel<Subpixel = T>,
{
    let (w, h) = ch.pick(&[(1u32, 1u32), (4, 3), (1, 6), (0, 2)]);
    let img: Img<Rgb<T>> = timg(w, h, 2);
    let g: Img<Luma<T>> = timg(w, h, 5);
    ch.log(|| format!("{} {w}x{h}", T::NAME));
    ch.ops(6);
    let zero = T::vals()[0] - T::vals()[0];
    let ins = [from_red_channel(&g), from_green_channel(&g), from_blue_channel(&g)];
    for (c, o) in [into_red_channel(&img), into_green_channel(&img), into_blue_channel(&img)].iter().enumerate() {
        if let Some(d) = tdiff(o, &Img::<Luma<T>>::from_fn(w, h, |x, y| Luma([img.get_pixel(x, y).channels()[c]]))) {
            fail!("extracting channel {c}: {d}");
        }
        let e = Img::<Rgb<T>>::from_fn(w, h, |x, y| {
            let mut v = [zero; 3];
            v[c] = g.get_pixel(x, y).channels()[0];
            *Rgb::from_slice(&v)
        });
        if let Some(d) = tdiff(&ins[c], &e) {
            fail!("inserting channel {c}: {d}");
        }
    }
    Ok(())
}

fn main() {
    run("C39", |r| {
        r.section("maps", "every mapping function, all shapes 0..4 x 0..4 and larger, 1-4 channels, distinct values", |ch| {
            let (w, h) = if ch.choose(4) == 0 { large_shape(ch) } else { (ch.u(0, 4), ch.u(0, 4)) };
            match ch.choose(4) {
                0 => maps::<Luma<u16>>(ch, w, h),
                1 => maps::<LumaA<u16>>(ch, w, h),
                2 => maps::<Rgb<u16>>(ch, w, h),
                _ => maps::<Rgba<u16>>(ch, w, h),
            }
        });
        r.section("huge-maps", "every mapping function on shapes with sides beyond 2^8 and 2^16", |ch| {
            let (w, h) = huge_shape(ch);
            if ch.flag() {
                maps::<Luma<u16>>(ch, w, h)
            } else {
                maps::<Rgb<u16>>(ch, w, h)
            }
        });
        r.section("sizes", "every mapping function on about 320 shapes with one side from 1 to 70 or around powers of two, 1, 3 and 4 channels", |ch| {
            let (w, h) = sweep_shape(ch);
            match ch.choose(3) {
                0 => maps::<Luma<u16>>(ch, w, h),
                1 => maps::<Rgb<u16>>(ch, w, h),
                _ => maps::<Rgba<u16>>(ch, w, h),
            }
        });
        r.section("two-images", "all pairs of shapes 0..4 x 0..4: refused unless equal", |ch| {
            let a: Image<Luma<u16>> = numbered(ch.u(0, 4), ch.u(0, 4));
            let b: Image<Luma<u16>> = numbered(ch.u(0, 4), ch.u(0, 4));
            ch.op();
            ch.log(|| format!("{:?} {:?}", a.dimensions(), b.dimensions()));
            let r = catching(|| map_pixels2(&a, &b, |p: Luma<u16>, q: Luma<u16>| Luma([p[0] * 100 + q[0]])));
            if a.dimensions() != b.dimensions() {
                check!(r.is_err(), "images of dimensions {:?} and {:?} give one of {:?}", a.dimensions(), b.dimensions(), r.unwrap().dimensions());
            } else {
                let r = r?;
                check!(r.as_raw().iter().zip(a.as_raw()).all(|(&o, &p)| o == p * 101) && r.dimensions() == a.dimensions(), "result");
            }
            Ok(())
        });
        r.section("channels", "extraction and insertion of each channel, all shapes 0..3 x 0..3", |ch| {
            let img: Image<Rgb<u16>> = numbered(ch.u(0, 3), ch.u(0, 3));
            let g: Image<Luma<u16>> = numbered(img.width(), img.height());
            ch.ops(6);
            let ins = [from_red_channel(&g), from_green_channel(&g), from_blue_channel(&g)];
            for (c, o) in [into_red_channel(&img), into_green_channel(&img), into_blue_channel(&img)].iter().enumerate() {
                check!(o.dimensions() == img.dimensions() && ins[c].dimensions() == img.dimensions(), "dimensions");
                for (x, y, p) in img.enumerate_pixels() {
                    check!(o.get_pixel(x, y)[0] == p[c], "extracting channel {c}");
                    for d in 0..3 {
                        let e = if d == c { g.get_pixel(x, y)[0] } else { 0 };
                        check!(ins[c].get_pixel(x, y)[d] == e, "inserting channel {c}");
                    }
                }
            }
            Ok(())
        });
        r.section("clamp-16", "all 2^16 values of i16 and u16 to u8", |ch| {
            clamp_all!(ch, i16, u8, i16::MIN..=i16::MAX);
            clamp_all!(ch, u16, u8, u16::MIN..=u16::MAX);
            identity!(u8, i8, u16, i16, u32, i32, u64, i64, f32, f64);
            Ok(())
        });
        r.section("clamp-32", "i32, u32 to 8- and 16-bit: +-300 around every boundary and power of two (thorough: all 2^32 values)", |ch| {
            if ch.thorough {
                let hi = ch.choose(1 << 12) as u32;
                for lo in 0..1u32 << 20 {
                    let v = hi << 20 | lo;
                    let i = v as i32;
                    let ok = <u8 as Clamp<i32>>::clamp(i) == i.clamp(0, 255) as u8
                        && <u16 as Clamp<i32>>::clamp(i) == i.clamp(0, 65535) as u16
                        && <i16 as Clamp<i32>>::clamp(i) == i.clamp(-32768, 32767) as i16
                        && <u8 as Clamp<u32>>::clamp(v) == v.min(255) as u8;
                    check!(ok, "clamping {i} or {v}");
                }
                ch.ops(4 << 20);
                return Ok(());
            }
            let k = ch.choose(34);
            let c = if k == 33 { 0 } else { 1i64 << k };
            let s = if ch.flag() { -c } else { c };
            let (lo, hi) = (i32::MIN as i64, i32::MAX as i64);
            clamp_all!(ch, i32, u8, near(s, 300, lo, hi).map(|v| v as i32));
            clamp_all!(ch, i32, u16, near(s, 300, lo, hi).map(|v| v as i32));
            clamp_all!(ch, i32, i16, near(s, 300, lo, hi).map(|v| v as i32));
            clamp_all!(ch, u32, u8, near(s, 300, 0, u32::MAX as i64).map(|v| v as u32));
            Ok(())
        });
        r.section("clamp-float", "f32, f64 to u8 and u16 around every integer up to 70000 and extremes (thorough: all 2^32 f32)", |ch| {
            if ch.thorough {
                let hi = ch.choose(1 << 12) as u32;
                for lo in 0..1u32 << 20 {
                    let v = f32::from_bits(hi << 20 | lo);
                    if v.is_nan() {
                        continue;
                    }
                    // a value can only be the maximum when it is at least that
                    let e8 = if v >= 255.0 { 255 } else if v <= 0.0 { 0 } else { v as i32 as u8 };
                    let e16 = if v >= 65535.0 { 65535 } else if v <= 0.0 { 0 } else { v as i32 as u16 };
                    check!(<u8 as Clamp<f32>>::clamp(v) == e8 && <u16 as Clamp<f32>>::clamp(v) == e16, "clamping {v}f32");
                }
                ch.ops(2 << 20);
            }
            let k = ch.choose(142);
            let ints: Vec<i64> = if k < 141 { (500 * k as i64 - 500..500 * k as i64).collect() } else { vec![] };
            for i in ints {
                clamp_float!(ch, f32, u8, near32(i as f32));
                clamp_float!(ch, f32, u16, near32(i as f32));
                clamp_float!(ch, f64, u8, near64(i as f64));
                clamp_float!(ch, f64, u16, near64(i as f64));
            }
            if k == 141 {
                for b in bounds(&[f32::MAX, f32::MIN, f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE, -0.0, 1e10, -1e10, 1e38]) {
                    clamp_float!(ch, f32, u8, [b]);
                    clamp_float!(ch, f32, u16, [b]);
                    clamp_float!(ch, f64, u8, [b as f64, b as f64 * 1e200]);
                    clamp_float!(ch, f64, u16, [b as f64, b as f64 * 1e200]);
                }
            }
            Ok(())
        });
        r.section("weighted", "weighted sums of all 256x256 channel value pairs for a grid of weights including negative and large", |ch| {
            let ws = [-1.0f32, 0.0, 0.25, 0.3, 0.5, 0.7, 1.0, 1.7, 1000.0];
            let (lw, rw) = (ch.pick(&ws), ch.pick(&ws));
            let l = ch.choose(256) as u8;
            for q in 0..=255u8 {
                ch.ops(2);
                let g = weighted_sum(Rgba([l, q, l, 255]), Rgba([q, l, 0, q]), lw, rw);
                let i = interpolate(Luma([l]), Luma([q]), lw);
                let check1 = |a: u8, b: u8, lw: f64, rw: f64, g: u8| {
                    let v = a as f64 * lw + b as f64 * rw;
                    let eps = 1e-6 * (a as f64 * lw.abs() + b as f64 * rw.abs()) + 1e-9;
                    (((v - eps).clamp(0.0, 255.0) as u8)..=((v + eps).clamp(0.0, 255.0) as u8)).contains(&g)
                };
                let (lw, rw) = (lw as f64, rw as f64);
                check!(
                    check1(l, q, lw, rw, g[0]) && check1(q, l, lw, rw, g[1]) && check1(l, 0, lw, rw, g[2]) && check1(255, q, lw, rw, g[3]),
                    "weighted_sum of {l}, {q} with {lw}, {rw}: {g:?}"
                );
                check!(check1(l, q, lw, 1.0 - lw, i[0]), "interpolate of {l}, {q} with {lw}: {i:?}");
            }
            Ok(())
        });
        r.section("weighted-16", "weighted sums on 16-bit and float pixels", |ch| {
            let ws = [-1.0f32, 0.0, 0.5, 1.0, 1.7, 1000.0];
            let (lw, rw) = (ch.pick(&ws), ch.pick(&ws));
            let vs = [0u16, 1, 255, 256, 32767, 32768, 65534, 65535];
            let (a, b) = (ch.pick(&vs), ch.pick(&vs));
            let g = weighted_sum(Luma([a]), Luma([b]), lw, rw)[0];
            let v = a as f64 * lw as f64 + b as f64 * rw as f64;
            let eps = 1e-6 * (a as f64 * lw.abs() as f64 + b as f64 * rw.abs() as f64) + 1e-9;
            ch.ops(2);
            check!(((v - eps).clamp(0.0, 65535.0) as u16..=(v + eps).clamp(0.0, 65535.0) as u16).contains(&g), "{a} {b} {lw} {rw}: {g}");
            let f = weighted_sum(Luma([a as f32]), Luma([-(b as f32)]), lw, rw)[0] as f64;
            let v = a as f64 * lw as f64 - b as f64 * rw as f64;
            check!((f - v).abs() <= eps, "{a} {b} {lw} {rw}: {f}");
            Ok(())
        });
        r.section("black-white", "named black and white pixels", |ch| {
            ch.ops(16);
            macro_rules! bw {
                ($t:ident, $s:ty, $n:expr, $alpha:expr) => {
                    let (b, w) = (<$t<$s>>::black(), <$t<$s>>::white());
                    for i in 0..$n {
                        let a = $alpha && i == $n - 1;
                        check!(b.0[i] == if a { <$s>::MAX } else { <$s>::MIN }, "black {}", stringify!($t));
                        check!(w.0[i] == <$s>::MAX, "white {}", stringify!($t));
                    }
                };
            }
            bw!(Luma, u8, 1, false);
            bw!(Luma, u16, 1, false);
            bw!(LumaA, u8, 2, true);
            bw!(LumaA, u16, 2, true);
            bw!(Rgb, u8, 3, false);
            bw!(Rgb, u16, 3, false);
            bw!(Rgba, u8, 4, true);
            bw!(Rgba, u16, 4, true);
            Ok(())
        });
        r.section("types", "40 pixel types (grey, grey+alpha, RGB, RGBA of 8 to 64 bit, signed, unsigned and float) with extreme values x every mapping function; channel extraction and insertion for ten subpixel types", |ch| {
            if ch.flag() {
                with_type!(ch, [u8, u16, u32, u64, i8, i16, i32, i64, f32, f64], typed(ch))
            } else {
                with_luma!(ch, [u8, u16, u32, u64, i8, i16, i32, i64, f32, f64], typed_channels(ch))
            }
        });
        r.section("weight-ladder", "weighted sums and interpolation with every weight from -1 to 2 in steps of 1/200 and powers of two from 2^-30 to 2^30, of 12 x 12 channel values", |ch| {
            let mut l: Vec<f32> = (-200..=400).map(|i| i as f32 / 200.0).collect();
            l.extend((-30..=30).flat_map(|e| [2f32.powi(e), -2f32.powi(e)]));
            let lw = ch.pick(&l);
            let rw = ch.pick(&[0.0f32, 1.0, 0.35, -0.5]);
            let vs = [0u8, 1, 2, 50, 99, 127, 128, 129, 200, 253, 254, 255];
            for a in vs {
                for b in vs {
                    ch.ops(2);
                    let ok = |lw: f64, rw: f64, g: u8| {
                        let v = a as f64 * lw + b as f64 * rw;
                        let eps = 1e-6 * (a as f64 * lw.abs() + b as f64 * rw.abs()) + 1e-9;
                        (((v - eps).clamp(0.0, 255.0) as u8)..=((v + eps).clamp(0.0, 255.0) as u8)).contains(&g)
                    };
                    let g = weighted_sum(Rgb([a; 3]), Rgb([b; 3]), lw, rw);
                    check!(g.0.iter().all(|&g| ok(lw as f64, rw as f64, g)), "weighted_sum of {a}, {b} with {lw}, {rw}: {g:?}");
                    let g = interpolate(LumaA([a; 2]), LumaA([b; 2]), lw);
                    check!(g.0.iter().all(|&g| ok(lw as f64, 1.0 - lw as f64, g)), "interpolate of {a}, {b} with {lw}: {g:?}");
                }
            }
            Ok(())
        });
    });
}
