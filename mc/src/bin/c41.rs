//! C41: no panic, hang or out-of-bounds access on degenerate sizes and parameters.
//!
//! The harness is built with debug assertions and overflow checks, so arithmetic overflow, unchecked
//! accesses outside a slice, and panics all end an execution as a violation.
use image::*;
use imageproc::kernel::Kernel;
use mc::api::{ops, Pk};
use mc::*;

const SLOW: [&str; 4] = ["bilateral", "median", "hog", "shrink_width"];
const CHOSEN: [&str; 4] = ["integral", "variance", "running_sum", "haar"];
const QUICK: [&str; 9] = ["otsu", "kapur", "adaptive", "threshold", "histogram", "equal", "percentile", "brief", "stretch"];

fn one(ch: &mut Ch, img: GrayImage, limit: usize) -> R {
    let n = ch.choose(ops().len());
    one_of(ch, img, limit, n)
}

fn one_of(ch: &mut Ch, img: GrayImage, limit: usize, n: usize) -> R {
    let ops = ops();
    ch.op();
    ch.log(|| if img.as_raw().len() < 2000 { format!("{} of {}", ops[n].0, show(&img)) } else { format!("{} of a {}x{} image of {}", ops[n].0, img.width(), img.height(), img.as_raw()[0]) });
    let mut p = Pk::new(ch, limit);
    let d = (ops[n].1)(&mut p, &img);
    if p.excluded() {
        return ch.reject();
    }
    ch.observe(d ^ n as u64);
    Ok(())
}

fn main() {
    run("C41", |r| {
        r.section("small shapes", "every operation of the table (97 entries, all parameter combinations) x every shape of 0..=5 squared (thorough: 0..=8) x 3 patterns (thorough: 10)", |ch| {
            let m = if ch.thorough { 8 } else { 5 };
            let (w, h) = (ch.u(0, m), ch.u(0, m));
            let k = if ch.thorough { ch.choose(NPAT) } else { ch.pick(&[0, 3, 5]) };
            if k != 0 && (w == 0 || h == 0) {
                return ch.reject();
            }
            one(ch, gray_pat(k, w, h), 99)
        });
        r.section("thin shapes", "every operation x shapes n x {0,1,2} and {0,1,2} x n for n in 7, 16, 33, 257, 600 x 2 patterns", |ch| {
            let n = ch.pick(&[7, 16, 33, 257, 600]);
            let m = ch.u(0, 2);
            let (w, h) = if ch.flag() { (n, m) } else { (m, n) };
            let k = ch.pick(&[0, 5]);
            let limit = if ch.thorough && n < 100 { 99 } else if n < 100 { 6 } else { 3 };
            one(ch, gray_pat(k, w, h), limit)
        });
        r.section("ordinary shapes", "every operation x shapes 9x7, 7x9, 17x16, 34x35, 40x33 x 4 patterns", |ch| {
            let (w, h) = ch.pick(&[(9, 7), (7, 9), (17, 16), (34, 35), (40, 33)]);
            let k = ch.pick(&[0, 3, 5, 8]);
            let limit = if ch.thorough { 99 } else if w < 20 { 99 } else { 3 };
            one(ch, gray_pat(k, w, h), limit)
        });
        r.section("pictures", "every operation x shapes 300x257, 257x300 (thorough: also 1000x700, 640x1100) x 4 patterns (all black, all white, textured, two-valued), first parameter combination (thorough: 2)", |ch| {
            let (w, h) = ch.pick(&[(300, 257), (257, 300), (1000, 700), (640, 1100)][..if ch.thorough { 4 } else { 2 }]);
            let k = ch.choose(4);
            let img = match k {
                0 => GrayImage::new(w, h),
                1 => GrayImage::from_pixel(w, h, Luma([255])),
                2 => gray_pat(0, w, h),
                _ => gray_pat(3, w, h),
            };
            let limit = if ch.thorough { 2 } else { 1 };
            let ops = ops();
            let n = ch.choose(ops.len());
            if CHOSEN.iter().any(|s| ops[n].0.contains(s)) || w > 300 && SLOW.iter().any(|s| ops[n].0.contains(s)) {
                return ch.reject();
            }
            one_of(ch, img, limit, n)
        });
        r.section("beyond 16 bits", "every operation x shapes 70000 x {1, 2, 3}, {1, 2, 3} x 70000, all white or textured; first parameter combination (thorough: 3)", |ch| {
            let m = if ch.thorough { ch.u(1, 3) } else { ch.pick(&[1, 3]) };
            let (w, h) = if ch.flag() { (70000, m) } else { (m, 70000) };
            let k = ch.pick(&[0, 5]);
            let ops = ops();
            let n = ch.choose(ops.len());
            // the element type of integral images is chosen by the caller, and must hold the sum of the image
            if CHOSEN.iter().any(|s| ops[n].0.contains(s)) || ops[n].0 == "shrink_width" {
                return ch.reject();
            }
            if m < 3 && SLOW.iter().any(|s| ops[n].0.contains(s)) && !ch.thorough {
                return ch.reject();
            }
            let limit = if ch.thorough { 3 } else { 1 };
            one_of(ch, gray_pat(k, w, h), limit, n)
        });
        r.section("more than 2^24 pixels", "quick: the histogram, threshold, statistics and descriptor operations on a white 4200 x 4200 image; thorough: every operation but the slow filters", |ch| {
            let ops = ops();
            let n = ch.choose(ops.len());
            let name = ops[n].0;
            // the element type of these is chosen by the caller, and must hold the sum of the image
            if CHOSEN.iter().any(|s| name.contains(s)) || SLOW.iter().any(|s| name.contains(s)) {
                return ch.reject();
            }
            if !ch.thorough && !QUICK.iter().any(|s| name.contains(s)) {
                return ch.reject();
            }
            one_of(ch, gray_pat(5, 4200, 4200), 1, n)
        });
        r.section("longer containers", "every operation on images whose container is longer than the image x 6 shapes: same result as without the surplus", |ch| {
            let (w, h) = ch.pick(&[(3, 3), (0, 0), (0, 2), (1, 5), (9, 8), (36, 35)]);
            let extra = ch.pick(&[1usize, 7, 13, 100]);
            let a = gray_pat(0, w, h);
            let mut raw = a.as_raw().clone();
            raw.extend((0..extra).map(|k| (k * 37 + 11) as u8));
            let b = GrayImage::from_raw(w, h, raw).unwrap();
            let ops = ops();
            let n = ch.choose(ops.len());
            ch.ops(2);
            ch.log(|| format!("{} of {w}x{h} in a container with {extra} surplus entries", ops[n].0));
            let mut p = Pk::new(ch, 2);
            let x = (ops[n].1)(&mut p, &a);
            if p.excluded() {
                return ch.reject();
            }
            p.replay();
            let y = (ops[n].1)(&mut p, &b);
            check!(x == y, "{} of {w}x{h} gives another result when the container has {extra} surplus entries", ops[n].0);
            ch.observe(x);
            Ok(())
        });
        r.section("kernel sizes", "Kernel::new with data of every length 0..=16 and the widths and heights 0..=17, 255..=257, 32768, 65535..=65537, 2^31, 2^32-1: accepted exactly when width * height is the length, otherwise refused by its assertion", |ch| {
            let sides: Vec<u32> = (0..=17).chain([255, 256, 257, 32768, 65535, 65536, 65537, 1 << 31, u32::MAX]).collect();
            let (w, h) = (ch.pick(&sides), ch.pick(&sides));
            let data = [1i32; 16];
            for n in 0..=16usize {
                ch.op();
                let got = catching(|| Kernel::new(&data[..n], w, h));
                let fits = w > 0 && h > 0 && w as u64 * h as u64 == n as u64;
                match got {
                    Ok(k) => {
                        check!(fits, "a kernel of {w}x{h} with {n} elements is accepted");
                        check!(k.get(w - 1, h - 1) == 1, "the last element of a kernel of {w}x{h}");
                    }
                    Err(e) => {
                        check!(!fits, "a kernel of {w}x{h} with {n} elements is refused: {e}");
                        check!(!e.contains("overflow"), "Kernel::new({w}x{h}, {n} elements): {e}");
                    }
                }
            }
            Ok(())
        });
    });
}
