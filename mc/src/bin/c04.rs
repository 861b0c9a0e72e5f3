//! C04: box and median filters.
use image::*;
use imageproc::filter::{box_filter, median_filter};
use mc::*;

fn ref_box(img: &GrayImage, rx: u32, ry: u32) -> GrayImage {
    // rows first, then columns, each mean rounded down
    let (rx, ry) = (rx as i64, ry as i64);
    let rows = GrayImage::from_fn(img.width(), img.height(), |x, y| {
        let s: u64 = (-rx..=rx).map(|d| clamped(img, x as i64 + d, y as i64) as u64).sum();
        Luma([(s / (2 * rx + 1) as u64) as u8])
    });
    GrayImage::from_fn(img.width(), img.height(), |x, y| {
        let s: u64 = (-ry..=ry).map(|d| clamped(&rows, x as i64, y as i64 + d) as u64).sum();
        Luma([(s / (2 * ry + 1) as u64) as u8])
    })
}

fn ref_median<P: Pixel<Subpixel = u8>>(img: &Img<P>, rx: u32, ry: u32) -> Img<P> {
    let (rx, ry) = (rx as i64, ry as i64);
    let (w, h) = img.dimensions();
    let cc = P::CHANNEL_COUNT as usize;
    let mut out = img.clone();
    let mut v = Vec::new();
    for y in 0..h {
        for x in 0..w {
            for c in 0..cc {
                v.clear();
                for dy in -ry..=ry {
                    for dx in -rx..=rx {
                        let px = (x as i64 + dx).clamp(0, w as i64 - 1) as u32;
                        let py = (y as i64 + dy).clamp(0, h as i64 - 1) as u32;
                        v.push(img.get_pixel(px, py).channels()[c]);
                    }
                }
                v.sort_unstable();
                out.get_pixel_mut(x, y).channels_mut()[c] = v[v.len() / 2];
            }
        }
    }
    out
}

/// The same for grey images with large windows: counts how often every clamped column and row is repeated.
fn ref_median_hist(img: &GrayImage, rx: u32, ry: u32) -> GrayImage {
    let (w, h) = (img.width() as i64, img.height() as i64);
    let times = |c: i64, r: i64, n: i64| {
        let mut v = vec![0u64; n as usize];
        for d in -r..=r {
            v[(c + d).clamp(0, n - 1) as usize] += 1;
        }
        v
    };
    let tx: Vec<_> = (0..w).map(|x| times(x, rx as i64, w)).collect();
    let ty: Vec<_> = (0..h).map(|y| times(y, ry as i64, h)).collect();
    let total = (2 * rx as u64 + 1) * (2 * ry as u64 + 1);
    GrayImage::from_fn(img.width(), img.height(), |x, y| {
        let mut hist = [0u64; 256];
        for (b, &m) in ty[y as usize].iter().enumerate().filter(|p| *p.1 > 0) {
            for (a, &n) in tx[x as usize].iter().enumerate().filter(|p| *p.1 > 0) {
                hist[img.get_pixel(a as u32, b as u32)[0] as usize] += m * n;
            }
        }
        let mut seen = 0;
        for v in 0..256 {
            seen += hist[v];
            if seen > total / 2 {
                return Luma([v as u8]);
            }
        }
        unreachable!()
    })
}

fn main() {
    run("C04", |r| {
        r.section("tiny", "all images of area<=8 over {0,1,255}, of area 9 (thorough 14) over {0,255}, rx,ry in 0..=3", |ch| {
            let a = if ch.thorough { 14 } else { 9 };
            let (w, h) = shape(ch, 1, a, a);
            let (rx, ry) = (ch.u(0, 3), ch.u(0, 3));
            let img = gray(ch, w, h, if w * h > 8 { &[0, 255] } else { &[0, 1, 255] });
            ch.log(|| format!("rx={rx} ry={ry} {}", show(&img)));
            ch.ops(2);
            let b = box_filter(&img, rx, ry);
            if let Some(d) = diff(&b, &ref_box(&img, rx, ry)) {
                fail!("box filter {d}");
            }
            let m = median_filter(&img, rx, ry);
            ch.observe_bytes(m.as_raw());
            if let Some(d) = diff(&m, &ref_median(&img, rx, ry)) {
                fail!("median filter {d}");
            }
            Ok(())
        });
        r.section("sweep", "all shapes up to 12x12 (thorough 20x20), rx,ry in 0..=5 plus one above the size, pattern family + impulses", |ch| {
            let n = if ch.thorough { 20 } else { 12 };
            let (w, h) = (ch.u(1, n), ch.u(1, n));
            let (rx, ry) = (ch.pick(&[0, 1, 2, 3, 4, 5, 9]), ch.pick(&[0, 1, 2, 3, 4, 5, 9]));
            let img = gray_family(ch, w, h);
            ch.log(|| format!("rx={rx} ry={ry} {}", show(&img)));
            ch.ops(2);
            let b = box_filter(&img, rx, ry);
            if let Some(d) = diff(&b, &ref_box(&img, rx, ry)) {
                fail!("box filter {d}");
            }
            let m = median_filter(&img, rx, ry);
            ch.observe_bytes(m.as_raw());
            if let Some(d) = diff(&m, &ref_median(&img, rx, ry)) {
                fail!("median filter {d}");
            }
            Ok(())
        });
        r.section("layouts", "median of grey-alpha, RGB and RGBA images, 6 shapes, rx,ry in 0,1,2,5,17, pattern family", |ch| {
            let (w, h) = ch.pick(&[(1, 1), (1, 7), (6, 1), (5, 4), (3, 9), (12, 11)]);
            let (rx, ry) = (ch.pick(&[0, 1, 2, 5, 17]), ch.pick(&[0, 1, 2, 5, 17]));
            let k = ch.choose(NPAT);
            ch.log(|| format!("rx={rx} ry={ry} pattern {k} of {w}x{h}"));
            macro_rules! one {
                ($t:ty) => {{
                    let img: Img<$t> = u8_pat(k, w, h);
                    ch.op();
                    let m = median_filter(&img, rx, ry);
                    ch.observe_bytes(m.as_raw());
                    if let Some(d) = diff(&m, &ref_median(&img, rx, ry)) {
                        fail!("median filter {d}");
                    }
                }};
            }
            match ch.choose(3) {
                0 => one!(LumaA<u8>),
                1 => one!(Rgb<u8>),
                _ => one!(Rgba<u8>),
            }
            Ok(())
        });
        r.section("large", "8 shapes up to 300 wide or high, 11x11 radii up to 300, pattern family", |ch| {
            let (w, h) = large_shape(ch);
            let rs: &[u32] = &[1, 0, 7, 8, 60, 127, 128, 130, 254, 255, 300];
            let (rx, ry) = (ch.pick(rs), ch.pick(rs));
            let k = ch.choose(NPAT);
            let img = gray_pat(k, w, h);
            ch.log(|| format!("rx={rx} ry={ry} pattern {k} of {w}x{h}"));
            ch.ops(2);
            let b = box_filter(&img, rx, ry);
            if let Some(d) = diff(&b, &ref_box(&img, rx, ry)) {
                fail!("box filter {d}");
            }
            let m = median_filter(&img, rx, ry);
            ch.observe_bytes(m.as_raw());
            if let Some(d) = diff(&m, &ref_median_hist(&img, rx, ry)) {
                fail!("median filter {d}");
            }
            Ok(())
        });
        r.section("sizes", "every width and height 1..=70 and the neighbours of round sizes up to 1025; 7 radius pairs; 2 patterns", |ch| {
            let (w, h) = sweep_shape(ch);
            let (rx, ry) = ch.pick(&[(0, 0), (1, 1), (2, 3), (3, 2), (0, 9), (9, 0), (17, 33)]);
            let k = ch.pick(&[0, 6]);
            let img = gray_pat(k, w, h);
            ch.log(|| format!("rx={rx} ry={ry} pattern {k} of {w}x{h}"));
            ch.ops(2);
            if let Some(d) = diff(&box_filter(&img, rx, ry), &ref_box(&img, rx, ry)) {
                fail!("box filter {d}");
            }
            let m = median_filter(&img, rx, ry);
            ch.observe_bytes(m.as_raw());
            if let Some(d) = diff(&m, &ref_median_hist(&img, rx, ry)) {
                fail!("median filter {d}");
            }
            Ok(())
        });
        r.section("giant-radii", "windows of up to 2^32 rows, columns or pixels: 1x1, 2x1, 1x2 and 3x2 images, 18 radius pairs", |ch| {
            let (rx, ry) = ch.pick(&[
                (70_000, 0),
                (0, 70_000),
                (1000, 1000),
                (32_767, 1),
                (1, 32_767),
                (32_768, 2),
                (65_535, 0),
                (65_536, 0),
                (0, 65_536),
                (5000, 900),
                (1 << 20, 0),
                (0, 1 << 20),
                (8_000_000, 0),
                (0, 8_000_000),
                (9_000_000, 0),
                (0, 8_421_505),
                (20_000, 20_000),
                (23_200, 23_200),
            ]);
            let (w, h) = ch.pick(&[(1, 1), (2, 1), (1, 2), (3, 2)]);
            if rx as u64 * ry as u64 > 10_000_000 && w * h > 1 {
                return ch.reject();
            }
            let mut img = gray_pat(6, w, h);
            if ch.flag() {
                img.iter_mut().for_each(|v| *v |= 240);
            }
            ch.log(|| format!("rx={rx} ry={ry} {}", show(&img)));
            ch.ops(2);
            let m = median_filter(&img, rx, ry);
            ch.observe_bytes(m.as_raw());
            if let Some(d) = diff(&m, &ref_median_hist(&img, rx, ry)) {
                fail!("median filter {d}");
            }
            if rx as u64 * ry as u64 <= 10_000_000 {
                let want = ref_box(&img, rx, ry);
                // the running sums are 32-bit numbers
                let most = *img.as_raw().iter().max().unwrap() as u64;
                let too_much = most * (w as u64 + 2 * rx as u64).max(h as u64 + 2 * ry as u64) > u32::MAX as u64;
                match catching(|| box_filter(&img, rx, ry)) {
                    Err(e) if too_much && e.contains("overflow") => known!("box-radius-overflow", "box filter: {e}"),
                    Err(e) => fail!("box filter panicked: {e}"),
                    Ok(b) => {
                        if let Some(d) = diff(&b, &want) {
                            fail!("box filter {d}");
                        }
                    }
                }
            }
            Ok(())
        });
        r.section("radius-ladder", "every radius 0..=300 and around powers of two up to 2^14, horizontally, vertically and both (up to 300), on 6 shapes, 2 patterns", |ch| {
            let l = ladder(300, 1 << 14);
            let r = ch.pick(&l);
            let (rx, ry) = match ch.choose(4) {
                0 => (r, 0),
                1 => (0, r),
                2 => (r, 2),
                _ => (r, r),
            };
            if rx as u64 * ry as u64 > 90_000 {
                return ch.reject();
            }
            let (w, h) = ch.pick(&[(1, 1), (2, 1), (1, 3), (5, 4), (40, 3), (3, 33)]);
            let img = gray_pat(ch.pick(&[0, 6]), w, h);
            ch.log(|| format!("rx={rx} ry={ry} {w}x{h}"));
            ch.ops(2);
            if let Some(d) = diff(&box_filter(&img, rx, ry), &ref_box(&img, rx, ry)) {
                fail!("box filter {d}");
            }
            let m = median_filter(&img, rx, ry);
            ch.observe_bytes(m.as_raw());
            if let Some(d) = diff(&m, &ref_median_hist(&img, rx, ry)) {
                fail!("median filter {d}");
            }
            Ok(())
        });
    })
}
