//! C42: comparison helpers.
use image::*;
use imageproc::definitions::Image;
use imageproc::utils::*;
use imageproc::{assert_dimensions_match, assert_pixels_eq, assert_pixels_eq_within};
use mc::*;

fn one<P>(ch: &mut Ch, a: &Img<P>, b: &Img<P>, tols: &[P::Subpixel]) -> R
where
    P: Pixel + PartialEq + std::fmt::Debug,
    P::Subpixel: std::fmt::Debug + PartialOrd + std::ops::Sub<Output = P::Subpixel>,
{
    ch.ops(4 + tols.len() as u64);
    let same_dim = a.dimensions() == b.dimensions();
    let equal = same_dim && a.as_raw() == b.as_raw();
    let d = pixel_diff_summary(a, b);
    check!(d.is_none() == equal, "pixel_diff_summary is {d:?} for {} and {}", show(a), show(b));
    if let Some(d) = &d {
        check!(!d.trim().is_empty(), "empty description");
    }
    check!(catching(|| assert_pixels_eq!(*a, *b)).is_ok() == equal, "assert_pixels_eq verdict for {} and {}", show(a), show(b));
    check!(catching(|| assert_dimensions_match!(a, b)).is_ok() == same_dim, "assert_dimensions_match verdict");
    for &t in tols {
        let within = same_dim && a.as_raw().iter().zip(b.as_raw()).all(|(&p, &q)| if p > q { p - q <= t } else { q - p <= t });
        let got = catching(|| assert_pixels_eq_within!(*a, *b, t)).is_ok();
        check!(got == within, "assert_pixels_eq_within {t:?} passes: {got} for {} and {}", show(a), show(b));
    }
    if !same_dim {
        let s = significant_pixel_diff_summary(a, b, |_, _| false);
        check!(s.is_some(), "different dimensions {:?} {:?} are not reported", a.dimensions(), b.dimensions());
        return Ok(());
    }
    let diffs = pixel_diffs(a, b, |p, q| p.2 != q.2);
    let mut want = vec![];
    for y in 0..a.height() {
        for x in 0..a.width() {
            if a.get_pixel(x, y) != b.get_pixel(x, y) {
                want.push((x, y, *a.get_pixel(x, y), *b.get_pixel(x, y)));
            }
        }
    }
    let mut got: Vec<_> = diffs.iter().map(|d| (d.x, d.y, d.actual, d.expected)).collect();
    got.sort_by_key(|d| (d.1, d.0));
    check!(got == want, "pixel_diffs {got:?}, expected {want:?}");
    // the criterion decides, and it sees coordinates and both values
    let some = pixel_diffs(a, b, |p, q| {
        assert!((p.0, p.1) == (q.0, q.1) && p.2 == *a.get_pixel(p.0, p.1) && q.2 == *b.get_pixel(q.0, q.1));
        (p.0 + 2 * p.1) % 3 == 1
    });
    let mut got: Vec<_> = some.iter().map(|d| (d.y, d.x)).collect();
    got.sort();
    let want: Vec<_> =
        (0..a.height()).flat_map(|y| (0..a.width()).map(move |x| (y, x))).filter(|&(y, x)| (x + 2 * y) % 3 == 1).collect();
    check!(got == want, "pixel_diffs with a positional criterion: {got:?}, expected {want:?}");
    let s = significant_pixel_diff_summary(a, b, |p, _| (p.0 + 2 * p.1) % 3 == 1);
    check!(s.is_none() == want.is_empty(), "significant_pixel_diff_summary");
    Ok(())
}

/// Without the escape sequences which colour the text.
fn plain(s: &str) -> String {
    let mut out = String::new();
    for (k, part) in s.split('\x1b').enumerate() {
        out.push_str(if k == 0 { part } else { part.split_once('m').map_or("", |p| p.1) });
    }
    out
}
fn text<P: Pixel>(p: &P) -> String
where
    P::Subpixel: std::fmt::Debug,
{
    let v: Vec<String> = p.channels().iter().map(|c| format!("{c:?}")).collect();
    if v.len() == 1 { v[0].clone() } else { format!("[{}]", v.join(", ")) }
}

/// The text for the differences of two images.
fn description<P: Pixel + PartialEq>(ch: &mut Ch, a: &Img<P>, b: &Img<P>) -> R
where
    P::Subpixel: std::fmt::Debug,
{
    ch.ops(2);
    let diffs = pixel_diffs(a, b, |p, q| p != q);
    let s = describe_pixel_diffs(a, b, &diffs);
    if !diffs.is_empty() {
        check!(pixel_diff_summary(a, b) == Some(s.clone()), "the summary is not the description of the differences");
    }
    let shown = plain(&s);
    let xs = || diffs.iter().map(|d| d.x);
    let ys = || diffs.iter().map(|d| d.y);
    let (Some(l), Some(r), Some(t), Some(bo)) = (xs().min(), xs().max(), ys().min(), ys().max()) else {
        check!(!shown.contains("location") && !shown.contains('|'), "description of no differences: {shown}");
        return Ok(());
    };
    let locations: Vec<&str> = shown.lines().filter(|l| l.starts_with("location: ")).map(|l| l.trim()).collect();
    if (r - l).max(bo - t) < 6 {
        let (l, t) = (l.saturating_sub(2), t.saturating_sub(2));
        let (r, bo) = ((r + 2).min(a.width() - 1), (bo + 2).min(a.height() - 1));
        check!(locations.is_empty(), "list of differences within {r}-{l} x {bo}-{t}");
        let Some((first, second)) = shown.split_once("Expected:") else { fail!("no table of expected values: {shown}") };
        for (name, img, part) in [("actual", a, first), ("expected", b, second)] {
            let rows: Vec<(u32, String)> = part
                .lines()
                .filter_map(|l| l.split_once('|'))
                .filter_map(|(n, v)| n.trim().parse().ok().map(|n| (n, v.split_whitespace().collect::<Vec<_>>().join(" "))))
                .collect();
            let want: Vec<(u32, String)> =
                (t..=bo).map(|y| (y, (l..=r).map(|x| text(img.get_pixel(x, y))).collect::<Vec<_>>().join(" "))).collect();
            check!(rows == want, "table of {name} values: {rows:?}, expected {want:?}");
        }
        let (colour_a, colour_b) = s.split_once("Expected:").unwrap();
        let n = diffs.len() + 1;
        check!(colour_a.matches("\x1b[31m").count() == n, "{} marked differences, expected {}", colour_a.matches("\x1b[31m").count() as i64 - 1, n - 1);
        check!(colour_b.matches("\x1b[32m").count() == n - 1, "{} marked differences, expected {}", colour_b.matches("\x1b[32m").count(), n - 1);
    } else {
        let want: Vec<String> =
            diffs.iter().take(5).map(|d| format!("location: ({}, {}), actual: {}, expected: {}", d.x, d.y, text(&d.actual), text(&d.expected))).collect();
        check!(locations == want, "description {locations:?}, expected {want:?}");
    }
    ch.observe_bytes(shown.as_bytes());
    Ok(())
}

fn typed<P>(ch: &mut Ch) -> R
where
    P: Pixel + PartialEq + std::fmt::Debug,
    P::Subpixel: Val,
{
    let l = P::Subpixel::ladder();
    let c = ch.choose(P::CHANNEL_COUNT as usize);
    let k = ch.choose(l.len() - 1);
    let (w, h) = ch.pick(&[(1u32, 1u32), (2, 1), (3, 2), (1, 9)]);
    let at = ch.u(0, w * h);
    let a: Img<P> = timg(w, h, 3);
    let mut b = a.clone();
    let mut a = a;
    if at < w * h {
        a.get_pixel_mut(at % w, at / w).channels_mut()[c] = l[k];
        b.get_pixel_mut(at % w, at / w).channels_mut()[c] = l[k + 1];
    }
    let signed = P::Subpixel::DEFAULT_MIN_VALUE < P::Subpixel::vals()[0] || P::Subpixel::NAME.starts_with('i');
    let zero = P::Subpixel::vals()[0];
    // differences of signed values may not be representable
    let tols = if signed { vec![] } else { vec![zero, l[2], P::Subpixel::DEFAULT_MAX_VALUE] };
    one(ch, &a, &b, &tols)?;
    one(ch, &b, &a, &tols)?;
    description(ch, &a, &b)
}

fn main() {
    run("C42", |r| {
        r.section("gray-pairs", "all pairs of equal-sized images of area <=5 (thorough 6) over {0,1,255}", |ch| {
            let (w, h) = shape(ch, 1, 6, if ch.thorough { 6 } else { 5 });
            let a = gray(ch, w, h, &[0, 1, 255]);
            let b = gray(ch, w, h, &[0, 1, 255]);
            ch.observe_bytes(a.as_raw());
            one(ch, &a, &b, &[0, 1, 253, 254, 255])
        });
        r.section("colour-pairs", "all pairs of images of area <=2 over colours differing in one channel or more; signed and floating channels", |ch| {
            let (w, h) = shape(ch, 1, 2, 2);
            match ch.choose(4) {
                0 => {
                    let al = [Rgb([0u8, 0, 0]), Rgb([1, 0, 0]), Rgb([0, 2, 0]), Rgb([0, 0, 255])];
                    let a = img_of(ch, w, h, &al);
                    let b = img_of(ch, w, h, &al);
                    one(ch, &a, &b, &[0, 1, 2, 254])
                }
                1 => {
                    let al = [Rgba([9u8, 0, 0, 0]), Rgba([9, 0, 0, 5]), Rgba([0, 9, 0, 0])];
                    let a = img_of(ch, w, h, &al);
                    let b = img_of(ch, w, h, &al);
                    one(ch, &a, &b, &[0, 4, 5, 9])
                }
                2 => {
                    let al = [Luma([-100i16]), Luma([0]), Luma([7]), Luma([10000])];
                    let a = img_of(ch, w, h, &al);
                    let b = img_of(ch, w, h, &al);
                    one(ch, &a, &b, &[0, 6, 7, 100, 10099, 10100])
                }
                _ => {
                    let al = [Luma([-1.5f32]), Luma([0.0]), Luma([0.25]), Luma([1e6])];
                    let a: Image<Luma<f32>> = img_of(ch, w, h, &al);
                    let b = img_of(ch, w, h, &al);
                    one(ch, &a, &b, &[0.0, 0.2, 0.25, 1.5, 2e6])
                }
            }
        });
        r.section("dimensions", "all pairs of shapes 0..4 x 0..4, equal content", |ch| {
            let a = gray_pat(5, ch.u(0, 4), ch.u(0, 4));
            let b = gray_pat(5, ch.u(0, 4), ch.u(0, 4));
            one(ch, &a, &b, &[0, 255])
        });
        r.section("many-differences", "images with up to 700000 differences and sides beyond 2^8 and 2^16; a single difference in the far corner", |ch| {
            let (w, h) = if ch.flag() { ch.pick(&[(16u32, 16u32), (17, 16), (256, 256), (256, 257), (300, 3)]) } else { huge_shape(ch) };
            let k = ch.choose(4);
            let a = gray_pat(0, w, h);
            let b = GrayImage::from_fn(w, h, |x, y| {
                let v = a.get_pixel(x, y)[0];
                let change = match k {
                    0 => true,
                    1 => x + 1 == w && y + 1 == h,
                    2 => x == 0 || y == 0,
                    _ => (x + y) % 2 == 0,
                };
                Luma([if !change { v } else if v < 128 { v + 2 } else { v - 2 }])
            });
            one(ch, &a, &b, &[0, 1, 2]).map_err(|f| Fail::from(f.msg.chars().take(300).collect::<String>()))
        });
        r.section("single-difference", "one or two differing pixels at every position of shapes up to 12x12 and larger ones", |ch| {
            let (w, h) = ch.pick(&[(1u32, 1u32), (7, 7), (12, 12), (1, 12), (12, 1), (13, 2), (257, 3), (3, 130)]);
            let n = w * h;
            let p = if n > 150 { ch.choose(40) as u32 * (n - 1) / 39 } else { ch.choose(n as usize) as u32 };
            let q = ch.pick(&[p, 0, n / 2, n - 1]);
            let a = gray_pat(7, w, h);
            let mut b = a.clone();
            for i in [p, q] {
                let v = a.get_pixel(i % w, i / w)[0];
                b.put_pixel(i % w, i / w, Luma([if v < 128 { v + 2 } else { v - 2 }]));
            }
            one(ch, &a, &b, &[0, 1, 2])?;
            one(ch, &b, &a, &[0, 1, 2])
        });
        r.section("sizes", "every width and height 1..=70 and the neighbours of round sizes up to 1025: no difference, one in the first, last or middle pixel, everywhere; grey and RGB", |ch| {
            let (w, h) = sweep_shape(ch);
            let k = ch.choose(5);
            let differs = |x: u32, y: u32| match k {
                0 => false,
                1 => (x, y) == (0, 0),
                2 => (x, y) == (w - 1, h - 1),
                3 => (x, y) == (w / 2, h / 2),
                _ => true,
            };
            let nudge = |v: u8| if v < 128 { v + 2 } else { v - 2 };
            let short = |f: Fail| Fail::from(format!("{w}x{h} case {k}: {}", f.msg.chars().take(300).collect::<String>()));
            let a = gray_pat(0, w, h);
            let b = GrayImage::from_fn(w, h, |x, y| { let v = a.get_pixel(x, y)[0]; Luma([if differs(x, y) { nudge(v) } else { v }]) });
            one(ch, &a, &b, &[0, 1, 2]).map_err(short)?;
            let a: Img<Rgb<u8>> = u8_pat(0, w, h);
            let b = RgbImage::from_fn(w, h, |x, y| { let v = *a.get_pixel(x, y); if differs(x, y) { Rgb([v[0], v[1], nudge(v[2])]) } else { v } });
            one(ch, &a, &b, &[0, 1, 2]).map_err(short)
        });
        r.section("descriptions", "the text describing every set of up to 2 (thorough 3) differing pixels of shapes up to 9x8 (RGB and grey), of larger sets, of none: the values and places of the region or of the first five", |ch| {
            let (w, h) = ch.pick(&[(1u32, 1u32), (9, 8), (6, 7), (1, 12), (30, 2), (12, 3), (130, 20)]);
            let n = w * h;
            let a = u8_pat::<Rgb<u8>>(7, w, h);
            let mut b = a.clone();
            let few = ch.flag();
            let places: Vec<u32> = if few {
                let k = ch.choose(if ch.thorough { 4 } else { 3 });
                let step = (n / 72).max(1);
                (0..k).map(|_| (ch.choose((n / step) as usize) as u32 * step).min(n - 1)).collect()
            } else {
                let step = ch.u(1, 9);
                (0..n).step_by(step as usize).collect()
            };
            for &i in &places {
                b.get_pixel_mut(i % w, i / w)[(i % 3) as usize] ^= 129;
            }
            if ch.flag() {
                description(ch, &a, &b)
            } else {
                description(ch, &imageproc::map::map_pixels(&a, |p| Luma([p[0] as i16 - p[1] as i16 + p[2] as i16])), &imageproc::map::map_pixels(&b, |p| Luma([p[0] as i16 - p[1] as i16 + p[2] as i16])))
            }
        });
        r.section("types", "40 pixel types (grey, grey+alpha, RGB, RGBA of 8 to 64 bit, signed, unsigned and float): images which just differ in one channel of one pixel", |ch| with_type!(ch, [u8, u16, u32, u64, i8, i16, i32, i64, f32, f64], typed(ch)));
        r.section("views", "differences between windows of images and images: every window of a 4x3 image at two contents", |ch| {
            let (x, y) = (ch.u(0, 3), ch.u(0, 2));
            let (w, h) = (ch.u(1, 4 - x), ch.u(1, 3 - y));
            let k = ch.u(0, w * h);
            let mut img: RgbImage = u8_pat(7, 4, 3);
            let b: RgbImage = imageops::crop_imm(&img, x, y, w, h).to_image();
            if k < w * h {
                img.get_pixel_mut(x + k % w, y + k / w).0[2] ^= 4;
            }
            ch.ops(3);
            let (win, f) = (img.sub_image(x, y, w, h), |p: (u32, u32, Rgb<u8>), q: (u32, u32, Rgb<u8>)| p.2 != q.2);
            let d: Vec<_> = pixel_diffs(&*win, &b, f).iter().map(|d| (d.x, d.y)).collect();
            let e: Vec<_> = (k < w * h).then_some((k % w, k / w)).into_iter().collect();
            check!(d == e, "{w}x{h} at ({x},{y}): differences {d:?}, expected {e:?}");
            check!(pixel_diffs(&b, &*win, f).len() == d.len(), "differences the other way");
            check!(pixel_diff_summary(&*win, &b).is_some() == (k < w * h), "summary");
            Ok(())
        });
    });
}
