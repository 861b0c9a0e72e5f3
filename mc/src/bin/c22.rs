//! C22: warping.
use image::*;
use imageproc::definitions::Clamp;
use imageproc::geometric_transformations::*;
use mc::*;

trait Sub: Primitive + Into<f32> + Clamp<f32> + Send + Sync + std::fmt::Debug + 'static {
    const INT: bool;
    const MAX: f64;
    /// A pattern value spread over the range of the type.
    fn spread(v: u8, k: u32) -> Self;
}
impl Sub for u8 {
    const INT: bool = true;
    const MAX: f64 = 255.0;
    fn spread(v: u8, _: u32) -> u8 {
        v
    }
}
impl Sub for u16 {
    const INT: bool = true;
    const MAX: f64 = 65535.0;
    fn spread(v: u8, k: u32) -> u16 {
        (v as u16 * 257) ^ (k % 7) as u16
    }
}
impl Sub for f32 {
    const INT: bool = false;
    const MAX: f64 = 1000.0;
    fn spread(v: u8, k: u32) -> f32 {
        v as f32 * 3.7 - 400.0 + (k % 5) as f32 * 0.125
    }
}

fn at<P: Pixel>(img: &Img<P>, x: f64, y: f64, c: usize) -> f64
where
    P::Subpixel: Sub,
{
    let v: f32 = img.get_pixel(x as u32, y as u32).channels()[c].into();
    v as f64
}

fn cubic(p: [f64; 4], x: f64) -> f64 {
    // Catmull-Rom
    let w = [
        -0.5 * x + x * x - 0.5 * x * x * x,
        1.0 - 2.5 * x * x + 1.5 * x * x * x,
        0.5 * x + 2.0 * x * x - 1.5 * x * x * x,
        -0.5 * x * x + 0.5 * x * x * x,
    ];
    (0..4).map(|i| w[i] * p[i]).sum()
}

/// The exact sample, or None for the default.
fn sample<P: Pixel>(img: &Img<P>, x: f64, y: f64, it: Interpolation) -> Option<Vec<f64>>
where
    P::Subpixel: Sub,
{
    let (w, h) = (img.width() as f64, img.height() as f64);
    let cc = P::CHANNEL_COUNT as usize;
    let sat = |v: f64| if <P::Subpixel as Sub>::INT { v.clamp(0.0, <P::Subpixel as Sub>::MAX) } else { v };
    match it {
        Interpolation::Nearest => {
            let (a, b) = ((x + 0.5).floor(), (y + 0.5).floor());
            if !(a >= 0.0 && b >= 0.0 && a < w && b < h) {
                return None;
            }
            Some((0..cc).map(|c| at(img, a, b, c)).collect())
        }
        Interpolation::Bilinear => {
            let (a, b) = (x.floor(), y.floor());
            if !(a >= 0.0 && b >= 0.0 && a + 1.0 < w && b + 1.0 < h) {
                return None;
            }
            let (u, v) = (x - a, y - b);
            Some(
                (0..cc)
                    .map(|c| {
                        (1.0 - v) * ((1.0 - u) * at(img, a, b, c) + u * at(img, a + 1.0, b, c))
                            + v * ((1.0 - u) * at(img, a, b + 1.0, c) + u * at(img, a + 1.0, b + 1.0, c))
                    })
                    .collect(),
            )
        }
        Interpolation::Bicubic => {
            let (a, b) = (x.floor() - 1.0, y.floor() - 1.0);
            if !(a >= 0.0 && b >= 0.0 && a + 3.0 < w && b + 3.0 < h) {
                return None;
            }
            let (u, v) = (x - a - 1.0, y - b - 1.0);
            Some(
                (0..cc)
                    .map(|c| {
                        let row = |j: f64| sat(cubic([at(img, a, b + j, c), at(img, a + 1.0, b + j, c), at(img, a + 2.0, b + j, c), at(img, a + 3.0, b + j, c)], u));
                        sat(cubic([row(0.0), row(1.0), row(2.0), row(3.0)], v))
                    })
                    .collect(),
            )
        }
    }
}

thread_local! {
    /// Set when the default was taken for a bicubic sample whose stencil ends exactly in the last
    /// column or row of the source (a listed finding).
    static FAR_EDGE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// The verdict of a case: its own, or the listed finding if nothing else is wrong.
fn verdict(r: R) -> R {
    if FAR_EDGE.with(|f| f.replace(false)) && r.is_ok() {
        known!("bicubic-far-edge", "bicubic samples whose 4x4 stencil ends in the last column or row of the source give the default");
    }
    r
}

/// Whether `got` is the sample at a point within `eps` of (x, y).
fn acceptable<P: Pixel>(img: &Img<P>, x: f64, y: f64, eps: f64, it: Interpolation, default: &P, got: &P) -> R
where
    P::Subpixel: Sub,
{
    // the pixel positions themselves are where the interpolated surface bends
    let near = |v: f64| [-eps, 0.0, eps].into_iter().chain(((v.round() - v).abs() < eps).then_some(v.round() - v));
    let mut lo: Vec<f64> = vec![];
    let mut hi: Vec<f64> = vec![];
    let g: Vec<f64> = got.channels().iter().map(|&v| { let v: f32 = v.into(); v as f64 }).collect();
    let d: Vec<f64> = default.channels().iter().map(|&v| { let v: f32 = v.into(); v as f64 }).collect();
    let mut want = vec![];
    for dy in near(y) {
        for dx in near(x) {
            {
                match sample(img, x + dx, y + dy, it) {
                    None => {
                        if g == d {
                            return Ok(());
                        }
                        want.push(d.clone());
                    }
                    Some(v) => {
                        if g == v {
                            return Ok(());
                        }
                        if lo.is_empty() {
                            lo = v.clone();
                            hi = v.clone();
                        }
                        for c in 0..v.len() {
                            lo[c] = lo[c].min(v[c]);
                            hi[c] = hi[c].max(v[c]);
                        }
                        want.push(v);
                    }
                }
            }
        }
    }
    if it != Interpolation::Nearest && !lo.is_empty() {
        // each of the two passes rounds down for integer types; cubic weights reach 1.125 and -0.125
        let s = <P::Subpixel as Sub>::MAX * 2e-6 + 8.0 * eps;
        let (dn, up) = if <P::Subpixel as Sub>::INT { (2.13 + s, 0.13 + s) } else { (s, s) };
        if (0..g.len()).all(|c| g[c] >= lo[c] - dn && g[c] <= hi[c] + up) {
            return Ok(());
        }
    }
    if it == Interpolation::Bicubic && g == d {
        let far = |v: f64, n: u32| near(v).any(|e| (v + e).floor() + 2.0 == n as f64 - 1.0);
        if far(x, img.width()) || far(y, img.height()) {
            FAR_EDGE.with(|f| f.set(true));
            return Ok(());
        }
    }
    want.dedup();
    fail!("{it:?} sample at ({x},{y}): got {g:?}, expected one of {want:?}")
}

const ITS: [Interpolation; 3] = [Interpolation::Nearest, Interpolation::Bilinear, Interpolation::Bicubic];

/// Samples on the 1/den grid around the whole image.
fn grid<P>(ch: &mut Ch, img: &Img<P>, default: P, den: u32) -> R
where
    P: Pixel + Send + Sync,
    P::Subpixel: Sub,
{
    let (w, h) = img.dimensions();
    let (ow, oh) = ((w + 3) * den + 1, (h + 3) * den + 1);
    for it in ITS {
        ch.op();
        // previous content must not matter
        let mut out = Img::<P>::from_fn(ow, oh, |x, _| if x % 2 == 0 { default } else { P::from_slice(img.get_pixel(0, 0).channels()).to_owned() });
        let o = |x: f32, y: f32| (x / den as f32 - 1.5, y / den as f32 - 1.5);
        warp_into_with(img, o, it, default, &mut out);
        check!(out.dimensions() == (ow, oh), "output dimensions");
        for y in 0..oh {
            for x in 0..ow {
                let (px, py) = (x as f64 / den as f64 - 1.5, y as f64 / den as f64 - 1.5);
                // exact halves may go to either neighbour
                let eps = if it == Interpolation::Nearest { 1e-6 } else { 0.0 };
                acceptable(img, px, py, eps, it, &default, out.get_pixel(x, y))?;
            }
        }
    }
    Ok(())
}

fn u8px<P: Pixel<Subpixel = u8>>(v: &[u8]) -> P {
    *P::from_slice(&v[..P::CHANNEL_COUNT as usize])
}

type M = [f64; 9];
fn mul(a: &M, b: &M) -> M {
    let mut c = [0.0; 9];
    for i in 0..3 {
        for j in 0..3 {
            c[3 * i + j] = (0..3).map(|k| a[3 * i + k] * b[3 * k + j]).sum();
        }
    }
    c
}
fn inv(t: &M) -> M {
    let c = |a: usize, b: usize, e: usize, f: usize| t[a] * t[b] - t[e] * t[f];
    [c(4, 8, 5, 7), c(2, 7, 1, 8), c(1, 5, 2, 4), c(5, 6, 3, 8), c(0, 8, 2, 6), c(2, 3, 0, 5), c(3, 7, 4, 6), c(1, 6, 0, 7), c(0, 4, 1, 3)]
}
fn tr(x: f64, y: f64) -> M {
    [1.0, 0.0, x, 0.0, 1.0, y, 0.0, 0.0, 1.0]
}
fn rot(a: f64) -> M {
    let (s, c) = a.sin_cos();
    [c, -s, 0.0, s, c, 0.0, 0.0, 0.0, 1.0]
}

/// Checks a warped image against the inverse of `m`.
fn warped<P>(img: &Img<P>, out: &Img<P>, m: &M, it: Interpolation, default: P, what: &str) -> R
where
    P: Pixel,
    P::Subpixel: Sub,
{
    check!(out.dimensions() == img.dimensions(), "{what}: dimensions {:?}", out.dimensions());
    let i = inv(m);
    for (x, y, p) in out.enumerate_pixels() {
        let (a, b) = (x as f64, y as f64);
        let d = i[6] * a + i[7] * b + i[8];
        if d.abs() < 0.02 * (i[6].abs() * a + i[7].abs() * b + i[8].abs()) {
            continue;
        }
        let (px, py) = ((i[0] * a + i[1] * b + i[2]) / d, (i[3] * a + i[4] * b + i[5]) / d);
        let eps = 1e-4 * (1.0 + px.abs().max(py.abs()));
        acceptable(img, px, py, eps, it, &default, p).map_err(|f| Fail::from(format!("{what}, pixel ({x},{y}): {}", f.msg)))?;
    }
    Ok(())
}

fn gens() -> Vec<(Projection, M)> {
    let mut v = vec![
        (Projection::translate(0.0, 0.0), tr(0.0, 0.0)),
        (Projection::translate(1.0, -2.0), tr(1.0, -2.0)),
        (Projection::translate(-0.5, 0.75), tr(-0.5, 0.75)),
        (Projection::rotate(0.4), rot(0.4f32 as f64)),
        (Projection::rotate(-1.2), rot(-1.2f32 as f64)),
        (Projection::scale(1.5, 0.5), [1.5, 0.0, 0.0, 0.0, 0.5, 0.0, 0.0, 0.0, 1.0]),
        (Projection::scale(-1.0, 1.0), [-1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0]),
    ];
    for m in [
        [1.0f32, 0.5, 0.0, 0.25, 1.0, 1.0, 0.0, 0.0, 1.0],
        [1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0625, 0.03125, 1.0],
        [2.0, 0.0, 2.0, 0.0, 2.0, 0.0, 0.0, 0.0, 2.0],
        [0.0, 1.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0, 1.0],
        [1.0, 0.25, -1.0, 0.125, 1.0, 2.0, -0.0625, 0.0625, 1.5],
    ] {
        let mut d = [0.0; 9];
        for i in 0..9 {
            d[i] = m[i] as f64;
        }
        v.push((Projection::from_matrix(m).unwrap(), d));
    }
    v
}

/// Projections and rotations of one pixel type.
fn typed<P>(ch: &mut Ch) -> R
where
    P: Pixel + Send + Sync,
    P::Subpixel: Sub + Val,
{
    let g = gens();
    let k = ch.choose(g.len() + 3);
    let it = ch.pick(&ITS);
    let (w, h) = ch.pick(&[(7u32, 6u32), (12, 5), (1, 4)]);
    let pt = ch.pick(&[0, 4, 7, 9]);
    let img = Img::<P>::from_fn(w, h, |x, y| {
        let v: Vec<P::Subpixel> = (0..P::CHANNEL_COUNT as u32).map(|c| Sub::spread(pat(pt, x, y, c, w, h), x + y + c)).collect();
        *P::from_slice(&v)
    });
    let v: Vec<P::Subpixel> = (0..P::CHANNEL_COUNT as u32).map(|c| Sub::spread(91, 3 * c)).collect();
    let d = *P::from_slice(&v);
    ch.log(|| format!("{} x{} transform {k} {it:?} pattern {pt} {w}x{h}", P::Subpixel::NAME, P::CHANNEL_COUNT));
    ch.op();
    if k < g.len() {
        let (p, m) = g[k];
        let out = warp(&img, &p, it, d);
        warped(&img, &out, &m, it, d, "warp")?;
        let mut buf: Img<P> = timg(w, h, 2);
        warp_into(&img, &p, it, d, &mut buf);
        if let Some(e) = tdiff(&buf, &out) {
            fail!("warp_into differs from warp: {e}");
        }
        let inv = p.invert();
        let out2 = warp_with(&img, |x, y| inv * (x, y), it, d);
        return warped(&img, &out2, &m, it, d, "warp_with");
    }
    if k == g.len() {
        // whole-pixel moves by the nearest neighbour keep every bit
        let src: Img<P> = timg(w, h, 4);
        for tx in -2..=2i64 {
            for ty in -2..=2i64 {
                ch.op();
                let out = warp(&src, &Projection::translate(tx as f32, ty as f32), Interpolation::Nearest, d);
                let e = Img::<P>::from_fn(w, h, |x, y| {
                    let (a, b) = (x as i64 - tx, y as i64 - ty);
                    if a >= 0 && b >= 0 && a < w as i64 && b < h as i64 { *src.get_pixel(a as u32, b as u32) } else { d }
                });
                if let Some(e) = tdiff(&out, &e) {
                    fail!("moved by ({tx},{ty}): {e}");
                }
            }
        }
        return Ok(());
    }
    let a = if k == g.len() + 1 { 0.7f32 } else { -2.0 };
    let (cx, cy) = (w as f32 / 2.0, h as f32 / 2.0);
    let m = mul(&mul(&tr(cx as f64, cy as f64), &rot(a as f64)), &tr(-cx as f64, -cy as f64));
    warped(&img, &rotate_about_center(&img, a, it, d), &m, it, d, "rotate_about_center")?;
    warped(&img, &rotate(&img, (cx, cy), a, it, d), &m, it, d, "rotate")
}

/// Samples inside the image at every pair of a ladder of fractions.
fn fractions<T>(ch: &mut Ch, img: &Img<Luma<T>>, it: Interpolation) -> R
where
    T: Sub,
    Luma<T>: Pixel<Subpixel = T>,
{
    let mut fs: Vec<f32> = (0..64).map(|i| i as f32 / 64.0).collect();
    for k in 7..=20 {
        fs.push((-k as f32).exp2());
        fs.push(1.0 - (-k as f32).exp2());
    }
    let n = fs.len() as u32;
    let d = Luma([T::spread(91, 3)]);
    let mut out = Img::<Luma<T>>::new(n, n);
    ch.ops((n * n) as u64);
    warp_into_with(img, |x, y| (3.0 + fs[x as usize], 2.0 + fs[y as usize]), it, d, &mut out);
    let most = img.iter().fold(1.0f64, |m, &v| { let v: f32 = v.into(); m.max(v.abs() as f64) });
    for (x, y, p) in out.enumerate_pixels() {
        let (px, py) = (3.0 + fs[x as usize] as f64, 2.0 + fs[y as usize] as f64);
        if it == Interpolation::Nearest && (fs[x as usize] == 0.5 || fs[y as usize] == 0.5) {
            continue;
        }
        let Some(want) = sample(img, px, py, it) else { fail!("inside") };
        let g: f32 = p[0].into();
        let (g, want) = (g as f64, want[0]);
        let s = most * 2e-6;
        let (dn, up) = if it == Interpolation::Nearest { (0.0, 0.0) } else if T::INT { (2.13 + s, 0.13 + s) } else { (s, s) };
        check!(g >= want - dn && g <= want + up, "{it:?} sample at ({px},{py}): {g}, expected {want}");
    }
    Ok(())
}

fn sec(r: &mut Runner, name: &'static str, desc: &'static str, f: impl Fn(&mut Ch) -> R + Sync) {
    r.section(name, desc, |ch| {
        FAR_EDGE.with(|f| f.set(false));
        verdict(f(ch))
    });
}

fn main() {
    run("C22", |r| {
        sec(r, "sampling-tiny", "all images of area <=6 (thorough 7) over {0,77,255}, sampled at every point of the quarter-pixel grid from 1.5 before to 1.5 after the image, 3 interpolations", |ch| {
            let a = if ch.thorough { 7 } else { 6 };
            let (w, h) = shape(ch, 1, a, a);
            let img = gray(ch, w, h, &[0, 77, 255]);
            ch.log(|| show(&img));
            ch.observe_bytes(img.as_raw());
            grid(ch, &img, Luma([99u8]), 4)
        });
        sec(r, "sampling-5x5", "patterns and all impulses on 5x5, 6x5 and 7x9 images on the eighth-pixel grid (whole bicubic stencils), 8-bit", |ch| {
            let (w, h) = ch.pick(&[(5, 5), (6, 5), (7, 9), (1, 6), (9, 1)]);
            let img = gray_family(ch, w, h);
            ch.log(|| show(&img));
            grid(ch, &img, Luma([99u8]), if ch.thorough { 32 } else { 16 })
        });
        sec(r, "sampling-types", "RGB, RGBA, 16-bit and float patterns on the eighth-pixel grid", |ch| {
            let (w, h) = ch.pick(&[(6, 5), (3, 4), (8, 7)]);
            let k = ch.choose(NPAT);
            match ch.choose(5) {
                0 => grid(ch, &u8_pat::<Rgb<u8>>(k, w, h), u8px(&[9, 8, 7]), 8),
                1 => grid(ch, &u8_pat::<Rgba<u8>>(k, w, h), u8px(&[9, 8, 7, 6]), 8),
                2 => grid(ch, &u8_pat::<LumaA<u8>>(k, w, h), u8px(&[0, 255]), 8),
                3 => grid(ch, &ImageBuffer::<Luma<u16>, Vec<u16>>::from_fn(w, h, |x, y| Luma([pat(k, x, y, 0, w, h) as u16 * 257])), Luma([12345]), 8),
                _ => grid(ch, &ImageBuffer::<Luma<f32>, Vec<f32>>::from_fn(w, h, |x, y| Luma([pat(k, x, y, 0, w, h) as f32 * 3.7 - 400.0])), Luma([-1e6]), 8),
            }
        });
        sec(r, "projections", "all products of 1 or 2 of 12 transforms of every class, with an optional inversion, x 3 interpolations x patterns x shapes", |ch| {
            let g = gens();
            let n = g.len();
            let k = ch.choose(n);
            let (mut p, mut m) = g[k];
            let second = ch.choose(n + 1);
            if second < n {
                p = p * g[second].0;
                m = mul(&m, &g[second].1);
            }
            if ch.flag() {
                p = p.invert();
                m = inv(&m);
            }
            let it = ch.pick(&ITS);
            let (w, h) = ch.pick(&[(7u32, 6u32), (1, 5), (12, 9)]);
            let pt = ch.choose(NPAT);
            ch.log(|| format!("{p:?} {it:?} pattern {pt} {w}x{h}"));
            ch.ops(2);
            let img = gray_pat(pt, w, h);
            let before = img.clone();
            let out = warp(&img, &p, it, Luma([101]));
            warped(&img, &out, &m, it, Luma([101]), "warp")?;
            check!(img == before, "source changed");
            let mut buf = GrayImage::from_pixel(w, h, Luma([3]));
            warp_into(&img, &p, it, Luma([101]), &mut buf);
            check!(buf == out, "warp_into differs from warp");
            ch.observe_bytes(out.as_raw());
            Ok(())
        });
        sec(r, "rotations", "rotate and rotate_about_center: 24 angles x centres x 3 interpolations x RGB patterns x shapes", |ch| {
            let a = (ch.choose(24) as f32 - 12.0) * 0.55;
            let it = ch.pick(&ITS);
            let (w, h) = ch.pick(&[(7u32, 6u32), (5, 5), (1, 4), (12, 3)]);
            let pt = ch.pick(&[0, 4, 9]);
            let img: Img<Rgb<u8>> = u8_pat(pt, w, h);
            let d = Rgb([1, 2, 3]);
            let c = ch.choose(4);
            let (cx, cy) = [(0.0f32, 0.0f32), (2.0, 1.5), (w as f32, -1.0), (w as f32 / 2.0, h as f32 / 2.0)][c];
            ch.op();
            ch.log(|| format!("angle {a} centre ({cx},{cy}) {it:?} {}", show(&img)));
            let out = if c == 3 { rotate_about_center(&img, a, it, d) } else { rotate(&img, (cx, cy), a, it, d) };
            let m = mul(&mul(&tr(cx as f64, cy as f64), &rot(a as f64)), &tr(-cx as f64, -cy as f64));
            ch.observe_bytes(out.as_raw());
            warped(&img, &out, &m, it, d, "rotate")
        });
        sec(r, "identity", "identity of every class reproduces every pixel (interior for bilinear and bicubic), all shapes up to 7x7", |ch| {
            let (w, h) = (ch.u(1, 7), ch.u(1, 7));
            let k = ch.choose(NPAT);
            let img: Img<Rgba<u8>> = u8_pat(k, w, h);
            let id = match ch.choose(4) {
                0 => Projection::translate(0.0, 0.0),
                1 => Projection::scale(1.0, 1.0),
                2 => Projection::from_matrix([3.0, 0.0, 0.0, 0.0, 3.0, 0.0, 0.0, 0.0, 3.0]).unwrap(),
                _ => {
                    let p = Projection::from_matrix([0.0, 2.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0, 1.0]).unwrap();
                    p * p.invert()
                }
            };
            ch.op();
            for (it, before, after) in [(Interpolation::Nearest, 0, 0), (Interpolation::Bilinear, 0, 1), (Interpolation::Bicubic, 1, 2)] {
                let d = Rgba([11, 12, 13, 14]);
                let out = warp(&img, &id, it, d);
                for (x, y, p) in out.enumerate_pixels() {
                    let inside = x >= before && y >= before && x + after < w && y + after < h;
                    let e = if inside { *img.get_pixel(x, y) } else { d };
                    if it == Interpolation::Bicubic && inside && *p == d && *p != e && (x + 3 == w || y + 3 == h) {
                        FAR_EDGE.with(|f| f.set(true));
                        continue;
                    }
                    check!(*p == e, "{it:?} identity at ({x},{y}) of {w}x{h}: {p:?}, expected {e:?}");
                }
            }
            Ok(())
        });
        sec(r, "larger", "projections of every class applied to images up to 300 pixels wide or high, 3 interpolations, patterns", |ch| {
            let g = gens();
            let k = ch.choose(g.len() + 2);
            let it = ch.pick(&ITS);
            let (w, h) = ch.pick(&[(64u32, 40u32), (300, 7), (7, 300), (130, 120)]);
            let pt = ch.pick(&[0, 2, 4, 9]);
            let (p, m) = if k < g.len() {
                g[k]
            } else {
                // about the centre, with a mild perspective
                let c = if k == g.len() { 0.002f32 } else { 0.0 };
                let q = [1.1f32, 0.1, 0.0, -0.2, 0.9, 0.0, c, -c, 1.0];
                let t = Projection::translate(-(w as f32) / 2.0, -(h as f32) / 2.0);
                let p = t.and_then(Projection::from_matrix(q).unwrap()).and_then(t.invert());
                let (a, b) = (w as f64 / 2.0, h as f64 / 2.0);
                (p, mul(&mul(&tr(a, b), &q.map(|v| v as f64)), &tr(-a, -b)))
            };
            ch.log(|| format!("{p:?} {it:?} pattern {pt} {w}x{h}"));
            ch.op();
            let img = gray_pat(pt, w, h);
            warped(&img, &warp(&img, &p, it, Luma([101])), &m, it, Luma([101]), "warp")
        });
        sec(r, "huge", "exactly representable shifts of images with sides beyond 2^8 and 2^16, 3 interpolations, as closure and as projection", |ch| {
            let (w, h) = huge_shape(ch);
            let it = ch.pick(&ITS);
            let (dx, dy) = ch.pick(&[(0.0f32, 0.0f32), (0.5, 0.0), (-0.25, 0.75), (300.0, 1.0), (-65536.0, 0.0), (0.0, 256.5)]);
            let img = gray_pat(0, w, h);
            ch.ops(2);
            ch.log(|| format!("{w}x{h} {it:?} by ({dx},{dy})"));
            let a = warp_with(&img, |x, y| (x + dx, y + dy), it, Luma([9]));
            let b = warp(&img, &Projection::translate(-dx, -dy), it, Luma([9]));
            // exact halves may go to either neighbour
            let eps = if it == Interpolation::Nearest { 1e-6 } else { 0.0 };
            for (x, y, p) in a.enumerate_pixels() {
                acceptable(&img, x as f64 + dx as f64, y as f64 + dy as f64, eps, it, &Luma([9]), p).map_err(|f| Fail::from(format!("warp_with of {w}x{h} at ({x},{y}): {}", f.msg)))?;
            }
            for (x, y, p) in b.enumerate_pixels() {
                acceptable(&img, x as f64 + dx as f64, y as f64 + dy as f64, eps, it, &Luma([9]), p).map_err(|f| Fail::from(format!("warp of {w}x{h} at ({x},{y}): {}", f.msg)))?;
            }
            Ok(())
        });
        sec(r, "not-a-number", "preimages that are NaN, infinite or far away give the default, for empty sources too", |ch| {
            let v = [f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 1e30, -1e30, 4.3e9, -4.3e9, 2.147484e9, 1.0];
            let (px, py) = (ch.pick(&v), ch.pick(&v));
            let (w, h) = ch.pick(&[(0u32, 0u32), (0, 3), (3, 0), (8, 8)]);
            let img = GrayImage::from_pixel(w, h, Luma([50]));
            let mut out = GrayImage::new(2, 2);
            for it in ITS {
                ch.op();
                warp_into_with(&img, |_, _| (px, py), it, Luma([7]), &mut out);
                let e = if px == 1.0 && py == 1.0 && w > 0 && h > 0 { 50 } else { 7 };
                check!(out.as_raw() == &[e; 4], "{it:?} of a {w}x{h} image at ({px},{py}) gives {:?}, expected {e}", out.as_raw());
            }
            Ok(())
        });
        sec(r, "empty", "empty images and empty outputs", |ch| {
            let (w, h) = ch.pick(&[(0u32, 0u32), (0, 3), (3, 0)]);
            let it = ch.pick(&ITS);
            let img = RgbImage::new(w, h);
            let d = Rgb([1, 2, 3]);
            ch.ops(4);
            check!(warp(&img, &Projection::rotate(1.0), it, d).dimensions() == (w, h), "warp");
            check!(rotate_about_center(&img, 1.0, it, d).dimensions() == (w, h), "rotate_about_center");
            check!(warp_with(&img, |x, y| (x, y), it, d).dimensions() == (w, h), "warp_with");
            let mut out = RgbImage::new(2, 2);
            warp_into(&img, &Projection::translate(1.0, 0.0), it, d, &mut out);
            check!(out.pixels().all(|p| *p == d), "an empty source is sampled");
            let mut none = RgbImage::new(w, h);
            warp_into(&RgbImage::new(4, 4), &Projection::translate(1.0, 0.0), it, d, &mut none);
            Ok(())
        });
        sec(r, "sizes", "every width and height 1..=70 and the neighbours of round sizes up to 1025: 3 projections and a closure, 3 interpolations, grey and RGB", |ch| {
            let (w, h) = sweep_shape(ch);
            let it = ch.pick(&ITS);
            let rgb = ch.flag();
            let g = gens();
            ch.log(|| format!("{w}x{h} {it:?} rgb {rgb}"));
            ch.ops(3);
            for k in [2usize, 3, 8] {
                let (p, m) = g[k];
                if rgb {
                    let img: Img<Rgb<u8>> = u8_pat(0, w, h);
                    warped(&img, &warp(&img, &p, it, Rgb([1, 2, 3])), &m, it, Rgb([1, 2, 3]), "warp")?;
                } else {
                    let img = gray_pat(0, w, h);
                    warped(&img, &warp(&img, &p, it, Luma([101])), &m, it, Luma([101]), "warp")?;
                }
            }
            let img = gray_pat(0, w, h);
            let o = warp_with(&img, |x, y| (x + 0.25, y - 0.5), it, Luma([9]));
            for (x, y, p) in o.enumerate_pixels() {
                let eps = if it == Interpolation::Nearest { 1e-6 } else { 0.0 };
                acceptable(&img, x as f64 + 0.25, y as f64 - 0.5, eps, it, &Luma([9]), p).map_err(|f| Fail::from(format!("warp_with at ({x},{y}): {}", f.msg)))?;
            }
            Ok(())
        });
        sec(r, "builds", "warps, rotations and translations x up to 5 values of every parameter x 37 images (up to 5000 pixels wide, 2100 high): same result with the feature rayon and run-time checks and in a release build without them", |ch| {
            mc::builds::same_in_both_builds(ch, |n| n.contains("warp") || n.contains("rotate") || n.contains("translate"))
        });
        sec(r, "transform-types", "12 pixel types (grey, grey+alpha, RGB, RGBA of 8, 16 bit and float) x 12 transforms of every class, rotations and whole-pixel moves x 3 interpolations x patterns x shapes", |ch| with_type!(ch, [u8, u16, f32], typed(ch)));
        sec(r, "fractions", "samples at every 1/64 of a pixel and at powers of two down to 2^-20 beside a pixel in both axes: 8-bit, 16-bit and wide-range float images of 5 patterns, 3 interpolations", |ch| {
            let k = ch.pick(&[0usize, 2, 4, 7, 9]);
            let it = ch.pick(&ITS);
            match ch.choose(3) {
                0 => fractions(ch, &Img::<Luma<u8>>::from_fn(8, 7, |x, y| Luma([pat(k, x, y, 0, 8, 7)])), it),
                1 => fractions(ch, &Img::<Luma<u16>>::from_fn(8, 7, |x, y| Luma([pat(k, x, y, 0, 8, 7) as u16 * 257])), it),
                _ => fractions(ch, &Img::<Luma<f32>>::from_fn(8, 7, |x, y| Luma([(pat(k, x, y, 0, 8, 7) as f32 - 100.0) * 16384.0])), it),
            }
        });
        sec(r, "angles", "rotate_about_center and rotate by every whole degree from -360 to 360 x 3 interpolations x grey and RGB patterns x 3 shapes; translate and scale by every eighth up to 8", |ch| {
            let it = ch.pick(&ITS);
            let (w, h) = ch.pick(&[(9u32, 6u32), (5, 5), (2, 11)]);
            let img: Img<Rgb<u8>> = u8_pat(ch.pick(&[0, 4]), w, h);
            let d = Rgb([1, 2, 3]);
            ch.op();
            let (out, m, what) = match ch.choose(3) {
                0 => {
                    let a = ch.int(-360, 360) as f32 * std::f32::consts::PI / 180.0;
                    let about = ch.flag();
                    let (cx, cy) = if about { (w as f32 / 2.0, h as f32 / 2.0) } else { (1.0f32, 2.0f32) };
                    let out = if about { rotate_about_center(&img, a, it, d) } else { rotate(&img, (cx, cy), a, it, d) };
                    (out, mul(&mul(&tr(cx as f64, cy as f64), &rot(a as f64)), &tr(-cx as f64, -cy as f64)), format!("rotation {a} about ({cx},{cy})"))
                }
                1 => {
                    let (a, b) = (ch.int(-64, 64) as f32 / 8.0, ch.pick(&[0.0f32, 0.375, -1.0]));
                    (warp(&img, &Projection::translate(a, b), it, d), tr(a as f64, b as f64), format!("translation ({a},{b})"))
                }
                _ => {
                    let a = ch.int(1, 64) as f32 / 8.0;
                    let a = if ch.flag() { -a } else { a };
                    let b = ch.pick(&[1.0f32, 0.5, 3.0]);
                    (warp(&img, &Projection::scale(a, b), it, d), [a as f64, 0.0, 0.0, 0.0, b as f64, 0.0, 0.0, 0.0, 1.0], format!("scaling ({a},{b})"))
                }
            };
            ch.log(|| format!("{what} {it:?} {}", show(&img)));
            ch.observe_bytes(out.as_raw());
            warped(&img, &out, &m, it, d, &what)
        });
    });
}
