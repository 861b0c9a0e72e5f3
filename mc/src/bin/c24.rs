//! C24: crop, flip, replace, overlay.
use image::math::Rect;
use image::*;
use imageproc::compose::*;
use mc::*;

fn tag(w: u32, h: u32, t: u8) -> RgbaImage {
    RgbaImage::from_fn(w, h, |x, y| Rgba([(x as u8).wrapping_mul(16).wrapping_add(t), (y as u8).wrapping_mul(16).wrapping_add(5), t.wrapping_mul(40).wrapping_add(x.wrapping_mul(y) as u8), ((x * 97 + y * 57 + t as u32 * 31) % 4 * 85) as u8]))
}

/// Every function of the module on one pixel type.
fn typed<P>(ch: &mut Ch) -> R
where
    P: Pixel + Send + Sync,
    P::Subpixel: Val,
{
    let (w, h) = ch.pick(&[(1, 1), (3, 2), (4, 5), (7, 1), (1, 6), (16, 3), (0, 2)]);
    let img: Img<P> = timg(w, h, 1 + ch.u(0, 1));
    ch.log(|| format!("{} x{} {w}x{h}", P::Subpixel::NAME, P::CHANNEL_COUNT));
    ch.ops(6);
    let eh = Img::<P>::from_fn(w, h, |x, y| *img.get_pixel(w - 1 - x, y));
    let ev = Img::<P>::from_fn(w, h, |x, y| *img.get_pixel(x, h - 1 - y));
    let (mut mh, mut mv) = (img.clone(), img.clone());
    flip_horizontal_mut(&mut mh);
    flip_vertical_mut(&mut mv);
    for (n, g, e) in [("flip_horizontal", flip_horizontal(&img), &eh), ("flip_vertical", flip_vertical(&img), &ev), ("flip_horizontal_mut", mh, &eh), ("flip_vertical_mut", mv, &ev)] {
        if let Some(d) = tdiff(&g, e) {
            fail!("{n} {d}");
        }
    }
    for x in 0..w {
        for y in 0..h {
            for (cw, c) in [(w - x, h - y), (1, 1), (w - x, 1), ((w - x) / 2, h - y)] {
                let r = Rect { x, y, width: cw, height: c };
                ch.ops(2);
                let e = Img::<P>::from_fn(cw, c, |i, j| *img.get_pixel(x + i, y + j));
                for (n, g) in [("crop", crop(&img, r)), ("crop_parallel", crop_parallel(&img, r))] {
                    if let Some(d) = tdiff(&g, &e) {
                        fail!("{n} {r:?} {d}");
                    }
                }
                let top: Img<P> = timg(cw + 1, c, 40 + x + 3 * y);
                let (mut er, mut eo) = (img.clone(), img.clone());
                let blended = catching(|| {
                    for j in 0..c {
                        for i in 0..(cw + 1).min(w - x) {
                            er.put_pixel(x + i, y + j, *top.get_pixel(i, j));
                            eo.get_pixel_mut(x + i, y + j).blend(top.get_pixel(i, j));
                        }
                    }
                });
                ch.ops(2);
                let (mut mr, mut mo) = (img.clone(), img.clone());
                let overlaid = catching(|| {
                    overlay_mut(&mut mo, &top, x, y);
                    overlay(&img, &top, x, y)
                });
                if blended.is_err() {
                    // Pixel::blend itself has no answer for some values of this type.
                    check!(overlaid.is_err(), "overlay answers where Pixel::blend does not");
                    continue;
                }
                replace_mut(&mut mr, &top, x, y);
                let overlaid = overlaid.map_err(|m| Fail::from(format!("overlay panics: {m}")))?;
                for (n, g, e) in [("replace", replace(&img, &top, x, y), &er), ("replace_mut", mr, &er), ("overlay", overlaid, &eo), ("overlay_mut", mo, &eo)] {
                    if let Some(d) = tdiff(&g, e) {
                        fail!("{n} {}x{c} at ({x},{y}) {d}", cw + 1);
                    }
                }
            }
        }
    }
    Ok(())
}

fn main() {
    run("C24", |r| {
        r.section("crop", "all shapes up to 5x5 incl. empty, every rectangle inside (and, rejected, one beyond)", |ch| {
            let (w, h) = (ch.u(0, 5), ch.u(0, 5));
            let img = tag(w, h, 1);
            let rect = Rect { x: ch.u(0, w + 1), y: ch.u(0, h + 1), width: ch.u(0, w + 1), height: ch.u(0, h + 1) };
            ch.ops(2);
            ch.log(|| format!("{w}x{h} {rect:?}"));
            let a = catching(|| crop(&img, rect));
            let b = catching(|| crop_parallel(&img, rect));
            if rect.x + rect.width <= w && rect.y + rect.height <= h {
                let e = RgbaImage::from_fn(rect.width, rect.height, |x, y| *img.get_pixel(rect.x + x, rect.y + y));
                for (n, g) in [("crop", a), ("crop_parallel", b)] {
                    let g = g.map_err(|m| Fail::from(format!("{n} panics: {m}")))?;
                    if let Some(d) = diff(&g, &e) {
                        fail!("{n} {d}");
                    }
                }
            } else {
                check!(a.is_err() && b.is_err(), "a rectangle outside the image is accepted");
            }
            Ok(())
        });
        r.section("flip", "all shapes up to 8x8 incl. empty: mirrored, involutions, in place, commuting", |ch| {
            let (w, h) = (ch.u(0, 8), ch.u(0, 8));
            let img = tag(w, h, 1);
            ch.ops(4);
            let fh = flip_horizontal(&img);
            let fv = flip_vertical(&img);
            let eh = RgbaImage::from_fn(w, h, |x, y| *img.get_pixel(w - 1 - x, y));
            let ev = RgbaImage::from_fn(w, h, |x, y| *img.get_pixel(x, h - 1 - y));
            if let Some(d) = diff(&fh, &eh) {
                fail!("flip_horizontal {d}");
            }
            if let Some(d) = diff(&fv, &ev) {
                fail!("flip_vertical {d}");
            }
            let (mut a, mut b) = (img.clone(), img.clone());
            flip_horizontal_mut(&mut a);
            flip_vertical_mut(&mut b);
            check!(a == eh && b == ev, "in-place flips differ");
            check!(flip_horizontal(&fh) == img && flip_vertical(&fv) == img, "flips are not involutions");
            check!(img == tag(w, h, 1), "input changed");
            Ok(())
        });
        r.section("replace-overlay", "all bottom shapes 1..5 (thorough 1..7) and top shapes 0..5, every offset up to the edge and beyond", |ch| {
            let n = if ch.thorough { 7 } else { 5 };
            let (bw, bh) = (ch.u(1, n), ch.u(1, n));
            let (tw, th) = (ch.u(0, 5), ch.u(0, 5));
            let (x, y) = (ch.u(0, bw + 1), ch.u(0, bh + 1));
            let bottom = tag(bw, bh, 1);
            let top = tag(tw, th, 9);
            ch.ops(4);
            ch.log(|| format!("bottom {bw}x{bh} top {tw}x{th} at ({x},{y})"));
            let rep = catching(|| replace(&bottom, &top, x, y));
            let ovl = catching(|| overlay(&bottom, &top, x, y));
            if x >= bw || y >= bh {
                check!(rep.is_err() && ovl.is_err(), "an offset outside the bottom image is accepted");
                return Ok(());
            }
            let rep = rep.map_err(|m| Fail::from(format!("replace panics: {m}")))?;
            let ovl = ovl.map_err(|m| Fail::from(format!("overlay panics: {m}")))?;
            let mut er = bottom.clone();
            let mut eo = bottom.clone();
            for b in 0..th {
                for a in 0..tw {
                    if x + a < bw && y + b < bh {
                        er.put_pixel(x + a, y + b, *top.get_pixel(a, b));
                        eo.get_pixel_mut(x + a, y + b).blend(top.get_pixel(a, b));
                    }
                }
            }
            if let Some(d) = diff(&rep, &er) {
                fail!("replace {d}");
            }
            if let Some(d) = diff(&ovl, &eo) {
                fail!("overlay {d}");
            }
            let (mut r2, mut o2) = (bottom.clone(), bottom.clone());
            replace_mut(&mut r2, &top, x, y);
            overlay_mut(&mut o2, &top, x, y);
            check!(r2 == er && o2 == eo, "in-place versions differ");
            check!(bottom == tag(bw, bh, 1) && top == tag(tw, th, 9), "inputs changed");
            // blending formula: opaque replaces, transparent keeps
            for (q, (g, b)) in ovl.pixels().zip(bottom.pixels()).enumerate() {
                let (px, py) = (q as u32 % bw, q as u32 / bw);
                if px >= x && py >= y && px - x < tw && py - y < th {
                    let t = top.get_pixel(px - x, py - y);
                    if t[3] == 255 {
                        check!(g == t, "an opaque pixel does not replace");
                    }
                    if t[3] == 0 {
                        check!(g == b, "a transparent pixel changes the bottom");
                    }
                }
            }
            Ok(())
        });
        r.section("blend", "overlaying one pixel: all bottom and top values over a small alphabet, RGBA and LumaA", |ch| {
            let al = [0u8, 1, 100, 254, 255];
            let mut v = [0u8; 4];
            for c in v.iter_mut() {
                *c = ch.pick(&al);
            }
            let b = ImageBuffer::<LumaA<u8>, Vec<u8>>::from_raw(2, 1, vec![v[0], v[1], 9, 9]).unwrap();
            let t = ImageBuffer::<LumaA<u8>, Vec<u8>>::from_raw(1, 1, vec![v[2], v[3]]).unwrap();
            ch.op();
            let g = overlay(&b, &t, 0, 0);
            let mut e = *b.get_pixel(0, 0);
            e.blend(t.get_pixel(0, 0));
            check!(*g.get_pixel(0, 0) == e && *g.get_pixel(1, 0) == LumaA([9, 9]), "overlay of {v:?} gives {g:?}");
            Ok(())
        });
        r.section("huge", "shapes with sides beyond 2^8 and 2^16: crops, flips, replacing and overlaying at far offsets", |ch| {
            let (w, h) = huge_shape(ch);
            let (tw, th) = ch.pick(&[(1u32, 1u32), (400, 2), (2, 400), (70000, 1), (1, 70000)]);
            let x = ch.pick(&[0, 255, 256, 65535, 65536]);
            let y = ch.pick(&[0, 255, 256, 65535, 65536]);
            if x >= w || y >= h {
                return ch.reject();
            }
            let b = RgbaImage::from_fn(w, h, |x, y| Rgba([x as u8, (x >> 8) as u8, y as u8, (y >> 8) as u8 ^ (x >> 16) as u8]));
            let t = tag(tw, th, 3);
            ch.ops(5);
            ch.log(|| format!("bottom {w}x{h} top {tw}x{th} at ({x},{y})"));
            let mut er = b.clone();
            let mut eo = b.clone();
            for j in 0..th.min(h - y) {
                for i in 0..tw.min(w - x) {
                    er.put_pixel(x + i, y + j, *t.get_pixel(i, j));
                    eo.get_pixel_mut(x + i, y + j).blend(t.get_pixel(i, j));
                }
            }
            if let Some(d) = diff(&replace(&b, &t, x, y), &er) {
                fail!("replace {d}");
            }
            if let Some(d) = diff(&overlay(&b, &t, x, y), &eo) {
                fail!("overlay {d}");
            }
            for r in [Rect { x, y, width: w - x, height: h - y }, Rect { x: 0, y: 0, width: x, height: y }, Rect { x, y: 0, width: 1, height: h }] {
                let c = crop(&b, r);
                check!(c.dimensions() == (r.width, r.height) && c.enumerate_pixels().all(|(i, j, p)| p == b.get_pixel(r.x + i, r.y + j)), "crop {r:?}");
                check!(crop_parallel(&b, r) == c, "crop_parallel {r:?}");
            }
            let f = flip_horizontal(&b);
            check!(f.enumerate_pixels().all(|(i, j, p)| p == b.get_pixel(w - 1 - i, j)), "flip_horizontal");
            let f = flip_vertical(&b);
            check!(f.enumerate_pixels().all(|(i, j, p)| p == b.get_pixel(i, h - 1 - j)), "flip_vertical");
            Ok(())
        });
        r.section("large", "larger images; gray, RGB and 16-bit tops at several offsets", |ch| {
            let (w, h) = large_shape(ch);
            let (tw, th) = large_shape(ch);
            let x = ch.choose(3) as u32 * (w - 1) / 2;
            let y = ch.choose(3) as u32 * (h - 1) / 2;
            let (b, t): (Img<Rgb<u8>>, Img<Rgb<u8>>) = (u8_pat(0, w, h), u8_pat(7, tw, th));
            ch.ops(2);
            let mut e = b.clone();
            for j in 0..th.min(h - y) {
                for i in 0..tw.min(w - x) {
                    e.put_pixel(x + i, y + j, *t.get_pixel(i, j));
                }
            }
            if let Some(d) = diff(&replace(&b, &t, x, y), &e) {
                fail!("replace {d}");
            }
            // opaque types: overlaying is replacing
            if let Some(d) = diff(&overlay(&b, &t, x, y), &e) {
                fail!("overlay {d}");
            }
            let c = crop(&b, Rect { x, y, width: w - x, height: h - y });
            check!(crop_parallel(&b, Rect { x, y, width: w - x, height: h - y }) == c, "crop_parallel");
            check!(c.enumerate_pixels().all(|(i, j, p)| p == b.get_pixel(x + i, y + j)), "crop");
            let f = flip_horizontal(&b);
            check!(f.enumerate_pixels().all(|(i, j, p)| p == b.get_pixel(w - 1 - i, j)), "flip_horizontal");
            let f = flip_vertical(&b);
            check!(f.enumerate_pixels().all(|(i, j, p)| p == b.get_pixel(i, h - 1 - j)), "flip_vertical");
            Ok(())
        });
        r.section("sizes", "every width and height 1..=70 and the neighbours of round sizes up to 1025: crops, flips, replacing and overlaying", |ch| {
            let (w, h) = sweep_shape(ch);
            let b = tag(w, h, 1);
            ch.log(|| format!("{w}x{h}"));
            ch.ops(4);
            let (fh, fv) = (flip_horizontal(&b), flip_vertical(&b));
            check!(fh.dimensions() == (w, h) && fh.enumerate_pixels().all(|(i, j, p)| p == b.get_pixel(w - 1 - i, j)), "flip_horizontal");
            check!(fv.dimensions() == (w, h) && fv.enumerate_pixels().all(|(i, j, p)| p == b.get_pixel(i, h - 1 - j)), "flip_vertical");
            let (mut mh, mut mv) = (b.clone(), b.clone());
            flip_horizontal_mut(&mut mh);
            flip_vertical_mut(&mut mv);
            check!(mh == fh && mv == fv, "in-place flips");
            for (x, y) in [(0, 0), (w / 2, h / 3), (w - 1, h - 1)] {
                for (tw, th) in [(w, h), (w - x, h - y), (3, 2), (w + 2, 1)] {
                    let t = tag(tw, th, 9);
                    ch.ops(3);
                    let (mut er, mut eo) = (b.clone(), b.clone());
                    for j in 0..th.min(h - y) {
                        for i in 0..tw.min(w - x) {
                            er.put_pixel(x + i, y + j, *t.get_pixel(i, j));
                            eo.get_pixel_mut(x + i, y + j).blend(t.get_pixel(i, j));
                        }
                    }
                    if let Some(d) = diff(&replace(&b, &t, x, y), &er) {
                        fail!("replace {tw}x{th} at ({x},{y}) {d}");
                    }
                    if let Some(d) = diff(&overlay(&b, &t, x, y), &eo) {
                        fail!("overlay {tw}x{th} at ({x},{y}) {d}");
                    }
                    let (cw, c) = (tw.min(w - x), th.min(h - y));
                    let r = Rect { x, y, width: cw, height: c };
                    let g = crop(&b, r);
                    check!(g.dimensions() == (cw, c) && g.enumerate_pixels().all(|(i, j, p)| p == b.get_pixel(x + i, y + j)), "crop {r:?}");
                    check!(crop_parallel(&b, r) == g, "crop_parallel {r:?}");
                }
            }
            Ok(())
        });
        r.section("types", "40 pixel types (grey, grey+alpha, RGB, RGBA of 8 to 64 bit, signed, unsigned and float) with extreme values, on 7 shapes: every function against a reference", |ch| with_type!(ch, [u8, u16, u32, u64, i8, i16, i32, i64, f32, f64], typed(ch)));
        r.section("offset-ladder", "bottoms 300x3 and 3x300 with tops up to 40 long at every offset 0..=299: replaced and overlaid; every crop [a, b) of a row and a column of 70 pixels", |ch| {
            let row = ch.flag();
            let turn = |a: u32, b: u32| if row { (a, b) } else { (b, a) };
            if ch.flag() {
                let a = ch.u(0, 69);
                for b in a + 1..=70 {
                    let (w, h) = turn(70, 3);
                    let img = tag(w, h, 5);
                    let (x, y) = turn(a, 1);
                    let (cw, chh) = turn(b - a, 2);
                    ch.ops(2);
                    let rect = Rect { x, y, width: cw, height: chh };
                    let e = RgbaImage::from_fn(cw, chh, |p, q| *img.get_pixel(x + p, y + q));
                    for (n, got) in [("crop", crop(&img, rect)), ("crop_parallel", crop_parallel(&img, rect))] {
                        if let Some(d) = diff(&got, &e) {
                            fail!("{n} at ({x},{y}) of {cw}x{chh}: {d}");
                        }
                    }
                }
                return Ok(());
            }
            let o = ch.u(0, 299);
            let n = ch.pick(&[1, 2, 7, 16, 40]);
            let (bw, bh) = turn(300, 3);
            let (tw, th) = turn(n, 2);
            let (x, y) = turn(o, 1);
            let (bottom, top) = (tag(bw, bh, 1), tag(tw, th, 9));
            ch.log(|| format!("bottom {bw}x{bh} top {tw}x{th} at ({x},{y})"));
            ch.ops(2);
            let (mut er, mut eo) = (bottom.clone(), bottom.clone());
            for b in 0..th {
                for a in 0..tw {
                    if x + a < bw && y + b < bh {
                        er.put_pixel(x + a, y + b, *top.get_pixel(a, b));
                        eo.get_pixel_mut(x + a, y + b).blend(top.get_pixel(a, b));
                    }
                }
            }
            if let Some(d) = diff(&replace(&bottom, &top, x, y), &er) {
                fail!("replace {d}");
            }
            if let Some(d) = diff(&overlay(&bottom, &top, x, y), &eo) {
                fail!("overlay {d}");
            }
            Ok(())
        });
    });
}
