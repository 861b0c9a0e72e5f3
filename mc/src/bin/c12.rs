//! C12: greyscale morphology and masks.
use image::*;
use imageproc::morphology::*;
use mc::*;
use std::collections::BTreeSet;

type Offs = BTreeSet<(i64, i64)>;

fn extremum(img: &GrayImage, offs: &Offs, dil: bool) -> GrayImage {
    let (w, h) = img.dimensions();
    GrayImage::from_fn(w, h, |x, y| {
        let vals = offs.iter().filter_map(|&(dx, dy)| {
            let (a, b) = (x as i64 + dx, y as i64 + dy);
            (a >= 0 && b >= 0 && a < w as i64 && b < h as i64).then(|| img.get_pixel(a as u32, b as u32)[0])
        });
        Luma([if dil { vals.max().unwrap_or(0) } else { vals.min().unwrap_or(255) }])
    })
}

fn check_mask(ch: &mut Ch, img: &GrayImage, mask: &Mask, offs: &Offs) -> R {
    ch.ops(4);
    ch.log(|| format!("offsets {offs:?} {}", show(img)));
    let d = grayscale_dilate(img, mask);
    let e = grayscale_erode(img, mask);
    ch.observe_bytes(d.as_raw());
    let (wd, we) = (extremum(img, offs, true), extremum(img, offs, false));
    if let Some(m) = diff(&d, &wd) {
        fail!("dilate {m}");
    }
    if let Some(m) = diff(&e, &we) {
        fail!("erode {m}");
    }
    if let Some(m) = diff(&grayscale_open(img, mask), &extremum(&we, offs, true)) {
        fail!("open {m}");
    }
    if let Some(m) = diff(&grayscale_close(img, mask), &extremum(&wd, offs, false)) {
        fail!("close {m}");
    }
    Ok(())
}

fn mask_offsets(m: &GrayImage, cx: i64, cy: i64) -> Offs {
    m.enumerate_pixels().filter(|p| p.2[0] != 0).map(|p| (p.0 as i64 - cx, p.1 as i64 - cy)).collect()
}

fn main() {
    run("C12", |r| {
        r.section("masks", "all binary masks of area <=9 (thorough 12), all centres in and one beyond the mask, pattern and impulse images of shapes up to 4x4", |ch| {
            let a = if ch.thorough { 12 } else { 9 };
            let (mw, mh) = shape(ch, 1, 6, a);
            let m = gray(ch, mw, mh, &[0, 7]);
            let (cx, cy) = (ch.u(0, mw), ch.u(0, mh));
            let (w, h) = ch.pick(&[(4, 3), (3, 5), (1, 4), (5, 1), (1, 1)]);
            let img = gray_pat(ch.pick(&[0, 4, 7]), w, h);
            check_mask(ch, &img, &Mask::from_image(&m, cx as u8, cy as u8), &mask_offsets(&m, cx as i64, cy as i64))
        });
        r.section("images", "all images of area <=9 (thorough 10) over {0,128,255}, a family of asymmetric masks", |ch| {
            let a = if ch.thorough { 10 } else { 9 };
            let (w, h) = shape(ch, 1, a, a);
            let img = gray(ch, w, h, &[0, 128, 255]);
            let (m, cx, cy): (GrayImage, u8, u8) = match ch.choose(5) {
                0 => (GrayImage::from_raw(3, 1, vec![1, 0, 1]).unwrap(), 0, 0),
                1 => (GrayImage::from_raw(2, 2, vec![0, 1, 1, 1]).unwrap(), 1, 1),
                2 => (GrayImage::from_raw(3, 3, vec![0, 1, 0, 0, 0, 1, 1, 0, 0]).unwrap(), 1, 1),
                3 => (GrayImage::from_raw(1, 3, vec![1, 1, 0]).unwrap(), 0, 2),
                _ => (GrayImage::from_raw(2, 1, vec![1, 1]).unwrap(), 5, 3),
            };
            check_mask(ch, &img, &Mask::from_image(&m, cx, cy), &mask_offsets(&m, cx as i64, cy as i64))
        });
        r.section("named", "square, diamond and disk masks of radius 0..=12 (thorough 20) observed through every impulse of an image that holds them, and on patterns", |ch| {
            let rad = ch.u(0, if ch.thorough { 20 } else { 12 }) as i64;
            let kind = ch.choose(3);
            let offs: Offs = (-rad..=rad)
                .flat_map(|y| (-rad..=rad).map(move |x| (x, y)))
                .filter(|&(x, y)| match kind {
                    0 => true,
                    1 => x.abs() + y.abs() <= rad,
                    _ => x * x + y * y <= rad * rad,
                })
                .collect();
            let mask = match kind {
                0 => Mask::square(rad as u8),
                1 => Mask::diamond(rad as u8),
                _ => Mask::disk(rad as u8),
            };
            let big = ch.choose(NPAT + 1);
            let (w, h) = if big == NPAT { (2 * rad as u32 + 3, 2 * rad as u32 + 3) } else { ch.pick(&[(5, 7), (2 * rad as u32 + 1, 3), (1, 9), (19, 18)]) };
            let img = if big == NPAT {
                let mut i = GrayImage::new(w, h);
                i.put_pixel(rad as u32 + 1, rad as u32 + 1, Luma([255]));
                i
            } else {
                gray_pat(big, w, h)
            };
            check_mask(ch, &img, &mask, &offs)
        });
        r.section("radii", "square, diamond and disk masks of every radius 0..=255: equal to the mask of the image of their offsets, or observed by an impulse to have exactly these", |ch| {
            let kind = ch.choose(3);
            let rad = ch.int(0, 255);
            let inside = |x: i64, y: i64| match kind {
                0 => true,
                1 => x.abs() + y.abs() <= rad,
                _ => x * x + y * y <= rad * rad,
            };
            let n = 2 * rad as u32 + 1;
            let picture = GrayImage::from_fn(n, n, |x, y| Luma([inside(x as i64 - rad, y as i64 - rad) as u8]));
            let mask = match kind {
                0 => Mask::square(rad as u8),
                1 => Mask::diamond(rad as u8),
                _ => Mask::disk(rad as u8),
            };
            ch.ops(2);
            ch.log(|| format!("kind {kind} radius {rad}"));
            // masks of the same offsets are equal; whether they are the same if not is decided below
            let other = Mask::from_image(&picture, rad as u8, rad as u8);
            if mask == other {
                return Ok(());
            }
            let mut img = GrayImage::new(n, n);
            img.put_pixel(rad as u32, rad as u32, Luma([255]));
            for (what, mask) in [("named mask", &mask), ("mask from an image", &other)] {
                for (x, y, p) in grayscale_dilate(&img, mask).enumerate_pixels() {
                    // the centre of the mask at (x, y) sees the impulse at the offset (rad - x, rad - y)
                    let (dx, dy) = (rad - x as i64, rad - y as i64);
                    let has = p[0] == 255;
                    check!(has == inside(dx, dy), "{what}, kind {kind} radius {rad}: offset ({dx},{dy}) is {}", if has { "contained" } else { "missing" });
                }
            }
            Ok(())
        });
        r.section("centres", "masks from images of 1x1, 3x2 and 1x4, centre (0..=255, c) and (c, 0..=255) for c = 0, 1, 130, 255, observed by two impulses", |ch| {
            let (mw, mh, bits) = ch.pick(&[(1u32, 1u32, 1u32), (3, 2, 0b101_110), (1, 4, 0b1011)]);
            let m = GrayImage::from_fn(mw, mh, |x, y| Luma([(bits >> (x + y * mw) & 1) as u8 * 7]));
            let (a, b) = (ch.choose(256) as u8, ch.pick(&[0u8, 1, 130, 255]));
            let (cx, cy) = if ch.flag() { (a, b) } else { (b, a) };
            // an image in which the mask's centre and the mask both fit
            let (w, h) = (cx as u32 + mw + 1, cy as u32 + mh + 1);
            let mut img = GrayImage::new(w, h);
            img.put_pixel(0, 0, Luma([200]));
            img.put_pixel(w / 2, 1, Luma([100]));
            check_mask(ch, &img, &Mask::from_image(&m, cx, cy), &mask_offsets(&m, cx as i64, cy as i64))
        });
        r.section("huge-masks", "named masks of radius 60, 127, 200, 255 and image masks of side 300 and 511 with centre 0 and 255, observed on small images and by an impulse", |ch| {
            let kind = ch.choose(4);
            let imp = ch.flag();
            let (mask, offs): (Mask, Offs) = if kind < 3 {
                let rad = ch.pick(&[60i64, 127, 200, 255]);
                if !ch.thorough && rad > 127 && imp {
                    return ch.reject();
                }
                let offs = (-rad..=rad)
                    .flat_map(|y| (-rad..=rad).map(move |x| (x, y)))
                    .filter(|&(x, y)| match kind {
                        0 => true,
                        1 => x.abs() + y.abs() <= rad,
                        _ => x * x + y * y <= rad * rad,
                    })
                    .collect();
                (match kind { 0 => Mask::square(rad as u8), 1 => Mask::diamond(rad as u8), _ => Mask::disk(rad as u8) }, offs)
            } else {
                let s = ch.pick(&[(300u32, 3u32), (3, 511), (511, 2)]);
                let c = ch.pick(&[(0u8, 0u8), (255, 0), (0, 255), (255, 255)]);
                let m = GrayImage::from_fn(s.0, s.1, |x, y| Luma([if (x * 7 + y * 13) % 5 == 0 { 3 } else { 0 }]));
                let o = mask_offsets(&m, c.0 as i64, c.1 as i64);
                (Mask::from_image(&m, c.0, c.1), o)
            };
            let (w, h) = if imp { (70, 66) } else { ch.pick(&[(4, 3), (1, 2), (9, 1)]) };
            let img = if imp {
                let mut i = GrayImage::from_pixel(w, h, Luma([9]));
                i.put_pixel(33, 30, Luma([255]));
                i.put_pixel(1, 60, Luma([1]));
                i
            } else {
                gray_pat(0, w, h)
            };
            check_mask(ch, &img, &mask, &offs)
        });
        r.section("huge-images", "sides beyond 2^16 and 1000x700, three patterns, masks 3x3, 1x5 and 4x1 with the centre inside and outside", |ch| {
            let (w, h) = huge_shape(ch);
            let (mw, mh) = ch.pick(&[(3u32, 3u32), (1, 5), (4, 1)]);
            let (cx, cy) = ch.pick(&[(0u8, 0u8), (1, 1), (5, 0), (0, 6)]);
            let m = GrayImage::from_fn(mw, mh, |x, y| Luma([((x + 2 * y) % 3 != 1) as u8]));
            let img = gray_pat(ch.pick(&[0, 2, 8]), w, h);
            check_mask(ch, &img, &Mask::from_image(&m, cx, cy), &mask_offsets(&m, cx as i64, cy as i64))
        });
        r.section("degenerate", "empty images and empty masks; too large mask images are rejected", |ch| {
            let (w, h) = ch.pick(&[(0u32, 0u32), (0, 3), (3, 0), (2, 2)]);
            let (mw, mh) = ch.pick(&[(0u32, 0u32), (0, 2), (2, 2), (1, 1)]);
            let m = GrayImage::from_pixel(mw, mh, Luma([1]));
            let img = gray_pat(0, w, h);
            check_mask(ch, &img, &Mask::from_image(&m, 0, 0), &mask_offsets(&m, 0, 0))?;
            check!(catching(|| Mask::from_image(&GrayImage::new(512, 1), 0, 0)).is_err(), "width 512 accepted");
            check!(catching(|| Mask::from_image(&GrayImage::new(1, 512), 0, 0)).is_err(), "height 512 accepted");
            Ok(())
        });
        r.section("sizes", "every width and height 1..=70 and the neighbours of round sizes up to 1025; 4 masks", |ch| {
            let (w, h) = sweep_shape(ch);
            let (mw, mh, cx, cy) = ch.pick(&[(3u32, 3u32, 1u8, 1u8), (5, 1, 0, 0), (1, 4, 0, 3), (4, 2, 6, 1)]);
            let m = GrayImage::from_fn(mw, mh, |x, y| Luma([((x + 2 * y) % 3 != 1) as u8]));
            let img = gray_pat(ch.pick(&[0, 9]), w, h);
            check_mask(ch, &img, &Mask::from_image(&m, cx, cy), &mask_offsets(&m, cx as i64, cy as i64))
        });
        r.section("far-elements", "masks of every width (height) 1..=511 with elements at their ends, centre 0, 128, 255, and of side 511 with one element at 0, 1, 126..128, 255..258, 383, 384, 510 per axis, observed on pictures wider than the mask", |ch| {
            let (c, d) = (ch.pick(&[0u8, 128, 255]), ch.pick(&[0u8, 255]));
            if ch.flag() {
                let n = ch.u(1, 511);
                let flip = ch.flag();
                let at = |x: u32, y: u32| if flip { (y, x) } else { (x, y) };
                let (mw, mh) = at(n, 2);
                let m = GrayImage::from_fn(mw, mh, |x, y| {
                    let (x, y) = at(x, y);
                    Luma([(y == 0 && (x == 0 || x + 1 == n) || y == 1 && x == n / 2) as u8])
                });
                let (w, h) = at(1100, 3);
                let (cx, cy) = if flip { (d / 255, c) } else { (c, d / 255) };
                let img = gray_pat(1, w, h);
                let mask = Mask::from_image(&m, cx, cy);
                let offs = mask_offsets(&m, cx as i64, cy as i64);
                ch.ops(2);
                if let Some(e) = diff(&grayscale_dilate(&img, &mask), &extremum(&img, &offs, true)) {
                    fail!("dilate by a mask of {mw}x{mh}, centre ({cx},{cy}): {e}");
                }
                if let Some(e) = diff(&grayscale_erode(&img, &mask), &extremum(&img, &offs, false)) {
                    fail!("erode by a mask of {mw}x{mh}, centre ({cx},{cy}): {e}");
                }
            } else {
                let pos = [0u32, 1, 126, 127, 128, 255, 256, 257, 258, 383, 384, 510];
                let (x, y) = (ch.pick(&pos), ch.pick(&pos));
                let mut m = GrayImage::new(511, 511);
                m.put_pixel(x, y, Luma([1]));
                let mask = Mask::from_image(&m, c, d);
                let mut offs = Offs::new();
                offs.insert((x as i64 - c as i64, y as i64 - d as i64));
                let img = gray_pat(0, 530, 520);
                ch.op();
                if let Some(e) = diff(&grayscale_dilate(&img, &mask), &extremum(&img, &offs, true)) {
                    fail!("dilate by a mask of 511x511 with the element ({x},{y}), centre ({c},{d}): {e}");
                }
            }
            Ok(())
        });
    });
}
