//! C11: binary morphology.
use image::{GrayImage, Luma};
use imageproc::distance_transform::Norm;
use imageproc::morphology::*;
use mc::*;

fn within(n: Norm, dx: i64, dy: i64, k: i64) -> bool {
    match n {
        Norm::L1 => dx.abs() + dy.abs() <= k,
        Norm::LInf => dx.abs().max(dy.abs()) <= k,
        Norm::L2 => dx * dx + dy * dy <= k * k,
    }
}
fn near(img: &GrayImage, n: Norm, k: u8, fg: bool) -> Vec<bool> {
    let (w, h) = img.dimensions();
    let pts: Vec<(i64, i64)> = img.enumerate_pixels().filter(|p| (p.2[0] != 0) == fg).map(|p| (p.0 as i64, p.1 as i64)).collect();
    let mut v = vec![];
    for y in 0..h as i64 {
        for x in 0..w as i64 {
            v.push(pts.iter().any(|&(a, b)| within(n, x - a, y - b, k as i64)));
        }
    }
    v
}
fn ref_dilate(img: &GrayImage, n: Norm, k: u8) -> GrayImage {
    GrayImage::from_raw(img.width(), img.height(), near(img, n, k, true).into_iter().map(|b| if b { 255 } else { 0 }).collect()).unwrap()
}
fn ref_erode(img: &GrayImage, n: Norm, k: u8) -> GrayImage {
    GrayImage::from_raw(img.width(), img.height(), near(img, n, k, false).into_iter().map(|b| if b { 0 } else { 255 }).collect()).unwrap()
}
fn subset(a: &GrayImage, b: &GrayImage) -> bool {
    a.as_raw().iter().zip(b.as_raw()).all(|(x, y)| *x == 0 || *y != 0)
}

fn check_all(ch: &mut Ch, img: &GrayImage, n: Norm, k: u8) -> R {
    ch.log(|| format!("{n:?} k={k} {}", show(img)));
    ch.ops(6);
    // distances are held in 8 bits: at k = 255 "within 255" is also what every farther distance looks like
    let (w, h) = img.dimensions();
    let sat = k == 255 && ((w.max(h) > 256) || (n == Norm::L1 && w + h > 257) || (n == Norm::L2 && w * w + h * h > 255 * 255));
    let d = dilate(img, n, k);
    let e = erode(img, n, k);
    let o = open(img, n, k);
    let c = close(img, n, k);
    ch.observe_bytes(o.as_raw());
    let all_white = GrayImage::from_pixel(w, h, Luma([255]));
    let all_black = GrayImage::new(w, h);
    let (wd, we) = (ref_dilate(img, n, k), ref_erode(img, n, k));
    if let Some(m) = diff(&d, &wd) {
        if sat && d == all_white {
            known!("k255-saturation", "dilate {m}");
        }
        fail!("dilate {m}");
    }
    if let Some(m) = diff(&e, &we) {
        if sat && e == all_black {
            known!("k255-saturation", "erode {m}");
        }
        fail!("erode {m}");
    }
    if let Some(m) = diff(&o, &ref_dilate(&we, n, k)) {
        if sat && o == all_white {
            known!("k255-saturation", "open {m}");
        }
        fail!("open {m}");
    }
    if let Some(m) = diff(&c, &ref_erode(&wd, n, k)) {
        if sat && c == all_black {
            known!("k255-saturation", "close {m}");
        }
        fail!("close {m}");
    }
    check!(subset(&o, img), "opening is not contained in the image");
    check!(subset(img, &c), "closing does not contain the image");
    check!(open(&o, n, k) == o, "opening is not idempotent");
    check!(close(&c, n, k) == c, "closing is not idempotent");
    Ok(())
}

fn main() {
    run("C11", |r| {
        r.section("tiny", "all binary images of area <=15 (thorough 18), three norms, k in {0..5, 254, 255}", |ch| {
            let a = if ch.thorough { 18 } else { 15 };
            let (w, h) = shape(ch, 1, a, a);
            let mut img = gray(ch, w, h, &[0, 1]);
            for (i, p) in img.iter_mut().enumerate() {
                if *p != 0 {
                    *p = [255, 1, 128, 2][i % 4];
                }
            }
            let n = ch.pick(&[Norm::L1, Norm::L2, Norm::LInf]);
            let k = ch.pick(&[0, 1, 2, 3, 4, 5, 254, 255]);
            check_all(ch, &img, n, k)
        });
        r.section("no-foreground-or-background", "constant images of every shape up to 6x6, three norms, all k", |ch| {
            let (w, h) = shape(ch, 1, 6, 36);
            let v = ch.pick(&[0u8, 1, 255]);
            let n = ch.pick(&[Norm::L1, Norm::L2, Norm::LInf]);
            let k = ch.choose(256) as u8;
            check_all(ch, &GrayImage::from_pixel(w, h, Luma([v])), n, k)
        });
        r.section("patterns", "binary patterns on shapes up to 17x16, three norms, k <= 6", |ch| {
            let (w, h) = ch.pick(&[(7, 9), (13, 8), (17, 16), (20, 2), (2, 20), (33, 5)]);
            let p = ch.choose(NPAT);
            let t = ch.pick(&[60u8, 150, 245]);
            let mut img = gray_pat(p, w, h);
            img.iter_mut().for_each(|p| *p = if *p > t { *p } else { 0 });
            let n = ch.pick(&[Norm::L1, Norm::L2, Norm::LInf]);
            let k = ch.choose(7) as u8;
            check_all(ch, &img, n, k)
        });
        r.section("long", "1x300, 300x1, 2x280, 200x60, 1x1100 and 1100x1 images, single foreground or background pixel, k in {1, 100, 199, 254, 255}", |ch| {
            let (w, h) = ch.pick(&[(300u32, 1u32), (1, 300), (280, 2), (200, 60), (1100, 1), (1, 1100)]);
            let inv = ch.flag();
            let (bg, fg) = if inv { (255, 0) } else { (0, 255) };
            let mut img = GrayImage::from_pixel(w, h, Luma([bg]));
            let x = ch.pick(&[0, w / 2, w - 1]);
            let y = ch.pick(&[0, h / 2, h - 1]);
            img.put_pixel(x, y, Luma([fg]));
            let n = ch.pick(&[Norm::L1, Norm::L2, Norm::LInf]);
            let k = ch.pick(&[1, 100, 199, 254, 255]);
            check_all(ch, &img, n, k)
        });
        r.section("sizes", "every width and height 1..=70 and the neighbours of round sizes up to 1025: a few foreground or background pixels, 3 norms, k = 1, 2, 6", |ch| {
            let (w, h) = sweep_shape(ch);
            let (n, k) = ch.pick(&[(Norm::L1, 1), (Norm::LInf, 2), (Norm::L2, 2), (Norm::L2, 6), (Norm::L1, 6)]);
            let inv = ch.flag();
            if w * h > 5000 && (inv || n != Norm::L2) {
                return ch.reject();
            }
            let mut img = GrayImage::from_fn(w, h, |x, y| Luma([((x, y) == (w / 2, h / 2) || (x, y) == (w - 1, h - 1) || (x + 2 * y) % 61 == 17) as u8 * 255]));
            if inv {
                img.iter_mut().for_each(|v| *v = 255 - *v);
            }
            check_all(ch, &img, n, k)
        });
        r.section("every-size", "every k in 0..=255, 3 norms, a single foreground or background pixel in 1x400, 400x1 and 40x30 images", |ch| {
            let k = ch.choose(256) as u8;
            let n = ch.pick(&[Norm::L1, Norm::L2, Norm::LInf]);
            let (w, h) = ch.pick(&[(400u32, 1u32), (1, 400), (40, 30)]);
            let (bg, fg) = ch.pick(&[(255, 0), (0, 255)]);
            let mut img = GrayImage::from_pixel(w, h, Luma([bg]));
            let (x, y) = ch.pick(&[(0, 0), (w / 2, h / 2), (w - 1, h / 3)]);
            img.put_pixel(x, y, Luma([fg]));
            check_all(ch, &img, n, k)
        });
    });
}
