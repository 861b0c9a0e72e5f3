//! C23: exact translations and quarter turns.
use image::*;
use imageproc::geometric_transformations::*;
use mc::*;

fn all<P>(ch: &mut Ch, img: &Img<P>, deep: bool) -> R
where
    P: Pixel,
    P::Subpixel: std::fmt::Debug + PartialEq,
{
    let (w, h) = img.dimensions();
    ch.log(|| show(img));
    let before = img.clone();
    ch.ops(5);
    let r90 = rotate90(img);
    let r180 = rotate180(img);
    let r270 = rotate270(img);
    let e90 = Img::<P>::from_fn(h, w, |x, y| *img.get_pixel(y, h - 1 - x));
    let e180 = Img::<P>::from_fn(w, h, |x, y| *img.get_pixel(w - 1 - x, h - 1 - y));
    let e270 = Img::<P>::from_fn(h, w, |x, y| *img.get_pixel(w - 1 - y, x));
    for (n, g, e) in [("rotate90", &r90, &e90), ("rotate180", &r180, &e180), ("rotate270", &r270, &e270)] {
        if let Some(d) = diff(g, e) {
            fail!("{n} {d}");
        }
    }
    let mut m = img.clone();
    rotate180_mut(&mut m);
    if let Some(d) = diff(&m, &e180) {
        fail!("rotate180_mut {d}");
    }
    if deep {
        let mut t = img.clone();
        for _ in 0..4 {
            t = rotate90(&t);
        }
        check!(diff(&t, img).is_none(), "four quarter turns are not the identity");
        check!(diff(&rotate270(&r90), img).is_none(), "90 then 270 is not the identity");
        check!(diff(&rotate180(&r180), img).is_none(), "two half turns are not the identity");
    }
    check!(diff(img, &before).is_none(), "input changed");
    Ok(())
}

fn trans<P>(ch: &mut Ch, img: &Img<P>, tx: i32, ty: i32) -> R
where
    P: Pixel,
    P::Subpixel: std::fmt::Debug + PartialEq,
{
    let (w, h) = img.dimensions();
    ch.op();
    ch.log(|| format!("translate by ({tx},{ty}) {}", show(img)));
    let g = translate(img, (tx, ty));
    let e = Img::<P>::from_fn(w, h, |x, y| {
        let a = (x as i64 - tx as i64).clamp(0, w as i64 - 1);
        let b = (y as i64 - ty as i64).clamp(0, h as i64 - 1);
        *img.get_pixel(a as u32, b as u32)
    });
    if let Some(d) = diff(&g, &e) {
        fail!("translate ({tx},{ty}) {d}");
    }
    Ok(())
}

/// Every function of the module on one pixel type.
fn typed<P>(ch: &mut Ch) -> R
where
    P: Pixel,
    P::Subpixel: Val,
{
    let (w, h) = ch.pick(&[(1, 1), (3, 2), (4, 5), (7, 1), (1, 6), (16, 3), (0, 2), (5, 5)]);
    let img: Img<P> = timg(w, h, 1 + ch.u(0, 1));
    ch.log(|| format!("{} x{} {w}x{h}", P::Subpixel::NAME, P::CHANNEL_COUNT));
    ch.ops(4);
    let e90 = Img::<P>::from_fn(h, w, |x, y| *img.get_pixel(y, h - 1 - x));
    let e180 = Img::<P>::from_fn(w, h, |x, y| *img.get_pixel(w - 1 - x, h - 1 - y));
    let e270 = Img::<P>::from_fn(h, w, |x, y| *img.get_pixel(w - 1 - y, x));
    let mut m = img.clone();
    rotate180_mut(&mut m);
    for (n, g, e) in [("rotate90", rotate90(&img), &e90), ("rotate180", rotate180(&img), &e180), ("rotate180_mut", m, &e180), ("rotate270", rotate270(&img), &e270)] {
        if let Some(d) = tdiff(&g, e) {
            fail!("{n} {d}");
        }
    }
    for tx in -3..=3i64 {
        for ty in -3..=3i64 {
            ch.op();
            let e = Img::<P>::from_fn(w, h, |x, y| *img.get_pixel((x as i64 - tx).clamp(0, w as i64 - 1) as u32, (y as i64 - ty).clamp(0, h as i64 - 1) as u32));
            if let Some(d) = tdiff(&translate(&img, (tx as i32, ty as i32)), &e) {
                fail!("translate ({tx},{ty}) {d}");
            }
        }
    }
    Ok(())
}

fn main() {
    run("C23", |r| {
        r.section("shapes", "all shapes up to 20x20 (thorough 30x30) including empty ones, position-revealing RGB and 16-bit images, all turns", |ch| {
            let n = if ch.thorough { 30 } else { 20 };
            let (w, h) = (ch.u(0, n), ch.u(0, n));
            let img = RgbImage::from_fn(w, h, |x, y| Rgb([x as u8, y as u8, 77]));
            all(ch, &img, true)?;
            all(ch, &ImageBuffer::<Luma<u16>, Vec<u16>>::from_fn(w, h, |x, y| Luma([(x + 300 * y) as u16])), true)
        });
        r.section("translations", "all shapes up to 6x6 incl. empty, all translations by -8..=8 in both directions, RGB", |ch| {
            let (w, h) = (ch.u(0, 6), ch.u(0, 6));
            let img = RgbImage::from_fn(w, h, |x, y| Rgb([x as u8, y as u8, 77]));
            let (tx, ty) = (ch.int(-8, 8) as i32, ch.int(-8, 8) as i32);
            trans(ch, &img, tx, ty)
        });
        r.section("extreme", "translations by extreme amounts on shapes up to 4x4 incl. empty", |ch| {
            let (w, h) = (ch.u(0, 4), ch.u(0, 4));
            let v = [i32::MIN, i32::MIN + 1, -(1 << 30), -1, 0, 1, 1 << 30, i32::MAX - 1, i32::MAX];
            let (tx, ty) = (ch.pick(&v), ch.pick(&v));
            trans(ch, &gray_pat(7, w, h), tx, ty)
        });
        r.section("huge", "shapes with sides beyond 2^8 and 2^16, all turns, translations", |ch| {
            let (w, h) = huge_shape(ch);
            let img = ImageBuffer::<Luma<u32>, Vec<u32>>::from_fn(w, h, |x, y| Luma([x ^ (y << 15)]));
            all(ch, &img, false)?;
            let (tx, ty) = (ch.pick(&[-65537, -300, 1, 256, 65536, 200_000]), ch.pick(&[-65537, -1, 0, 300]));
            trans(ch, &u8_pat::<Rgb<u8>>(0, w, h), tx, ty)
        });
        r.section("large", "larger shapes, all pixel types", |ch| {
            let (w, h) = large_shape(ch);
            match ch.choose(3) {
                0 => all(ch, &u8_pat::<Rgba<u8>>(0, w, h), false)?,
                1 => all(ch, &u8_pat::<Luma<u8>>(0, w, h), false)?,
                _ => all(ch, &ImageBuffer::<Luma<f32>, Vec<f32>>::from_fn(w, h, |x, y| Luma([(x + 1000 * y) as f32])), false)?,
            }
            let (tx, ty) = (ch.pick(&[-40, -1, 0, 3, 63]), ch.pick(&[-40, -1, 0, 3, 63]));
            trans(ch, &u8_pat::<LumaA<u8>>(0, w, h), tx, ty)
        });
        r.section("sizes", "every width and height 1..=70 and the neighbours of round sizes up to 1025: all turns, 6 translations, grey, RGB and 16-bit RGBA", |ch| {
            let (w, h) = sweep_shape(ch);
            ch.log(|| format!("{w}x{h}"));
            let t = [(0, 0), (1, 0), (0, -1), (-3, 2), (w as i32 - 1, 1 - h as i32), (-(w as i32) / 2, h as i32 / 2)];
            match ch.choose(3) {
                0 => {
                    let i = gray_pat(7, w, h);
                    all(ch, &i, true)?;
                    t.iter().try_for_each(|t| trans(ch, &i, t.0, t.1))
                }
                1 => {
                    let i: Img<Rgb<u8>> = u8_pat(0, w, h);
                    all(ch, &i, true)?;
                    t.iter().try_for_each(|t| trans(ch, &i, t.0, t.1))
                }
                _ => {
                    let i = ImageBuffer::<Rgba<u16>, Vec<u16>>::from_fn(w, h, |x, y| Rgba([x as u16, y as u16, (x * y) as u16, 9]));
                    all(ch, &i, true)?;
                    t.iter().try_for_each(|t| trans(ch, &i, t.0, t.1))
                }
            }
        });
        r.section("types", "40 pixel types (grey, grey+alpha, RGB, RGBA of 8 to 64 bit, signed, unsigned and float) with extreme values, on 8 shapes: all turns and translations by -3..=3", |ch| with_type!(ch, [u8, u16, u32, u64, i8, i16, i32, i64, f32, f64], typed(ch)));
        r.section("amount-ladder", "translations by every amount from -300 to 300 and around powers of two up to 2^20 in either direction, alone and with another amount in the other direction, on 5 shapes", |ch| {
            let l: Vec<i32> = ladder(300, 1 << 20).into_iter().flat_map(|v| [v as i32, -(v as i32)]).collect();
            let v = ch.pick(&l);
            let (tx, ty) = match ch.choose(4) {
                0 => (v, 0),
                1 => (0, v),
                2 => (v, -1),
                _ => (2, v),
            };
            let (w, h) = ch.pick(&[(1, 1), (300, 2), (2, 300), (70, 40), (5, 4)]);
            trans(ch, &RgbImage::from_fn(w, h, |x, y| Rgb([x as u8, (y + (x >> 8) * 9) as u8, (x * 7 + y * 13) as u8])), tx, ty)
        });
    });
}
