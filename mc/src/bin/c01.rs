//! C01: parallel operations equal their sequential counterparts under every schedule.
//!
//! The crate is built against the controlled `rayon-core` in /verif/rayon-core-mc: rayon's own
//! iterator machinery is the real one, but every `join` asks the explorer whether its second half
//! is stolen, and every scheduling point asks it which worker continues.
use image::math::Rect;
use image::*;
use imageproc::compose::*;
use imageproc::contrast::*;
use imageproc::filter::*;
use imageproc::geometric_transformations::*;
use imageproc::kernel::Kernel;
use imageproc::map::*;
use imageproc::template_matching::*;
use mc::*;
use rayon_core::mc::{point, run_controlled, Ask};
use std::ops::*;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

/// Runs `f` under every schedule of `n` workers with at most `pre` preemptions.
fn sched<T: Send>(ch: &mut Ch, n: usize, pre: usize, f: impl FnOnce() -> T + Send) -> Result<T, Fail> {
    let mut asked = 0u64;
    let (r, _stats) = {
        let mut oracle = |_: Ask, k: usize| {
            asked += 1;
            ch.choose(k)
        };
        run_controlled(n, pre, &mut oracle, f)
    };
    ch.ops(asked + 1);
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Err(Fail::from(format!("panicked under this schedule: {m}")))
        }
    }
}

/// Fixed scheduling policies, for sizes where all schedules are out of reach.
#[derive(Clone, Copy, Debug)]
enum Policy {
    Sequential,
    StealAll,
    StealAllThiefFirst,
    Alternate,
}
fn policy<T: Send>(ch: &mut Ch, n: usize, p: Policy, f: impl FnOnce() -> T + Send) -> Result<T, Fail> {
    let mut k = 0usize;
    let mut oracle = |a: Ask, m: usize| {
        k += 1;
        match (p, a) {
            (Policy::Sequential, _) => 0,
            (Policy::StealAll, Ask::Steal) => 1,
            (Policy::StealAll, _) => 0,
            (Policy::StealAllThiefFirst, Ask::Steal) => 1,
            (Policy::StealAllThiefFirst, _) => m - 1,
            (Policy::Alternate, _) => k % m,
        }
    };
    let (r, st) = run_controlled(n, 1 << 20, &mut oracle, f);
    ch.ops(st.switches + 1);
    r.map_err(|_| Fail::from(format!("panicked with {n} workers, policy {p:?}")))
}

/// How a harness asks for a run: all schedules, or a policy.
#[derive(Clone, Copy)]
enum Run {
    All(usize, usize),
    Pol(usize, Policy),
}
fn go<T: Send>(ch: &mut Ch, r: Run, f: impl FnOnce() -> T + Send) -> Result<T, Fail> {
    match r {
        Run::All(n, pre) => sched(ch, n, pre, f),
        Run::Pol(n, p) => policy(ch, n, p, f),
    }
}

fn same<P: Pixel + PartialEq>(what: &str, got: &Img<P>, want: &Img<P>) -> R
where
    P::Subpixel: std::fmt::Debug + PartialEq,
{
    check!(
        got.dimensions() == want.dimensions() && got.as_raw() == want.as_raw(),
        "{what}: {} instead of {}",
        show(got),
        show(want)
    );
    Ok(())
}

// --------------------------------------------------------------------------------- maps

/// An image whose subpixels are all different (u16).
fn distinct<P: Pixel<Subpixel = u16>>(w: u32, h: u32) -> Img<P> {
    let n = w as usize * h as usize * P::CHANNEL_COUNT as usize;
    Img::<P>::from_raw(w, h, (0..n).map(|i| i as u16 * 7 + 3).collect()).unwrap()
}

fn map_op<P>(ch: &mut Ch, which: usize, w: u32, h: u32, run: Run) -> R
where
    P: Pixel<Subpixel = u16> + Send + Sync + PartialEq + std::fmt::Debug + imageproc::definitions::HasBlack,
    P: WithU32,
{
    let cc = P::CHANNEL_COUNT as usize;
    let img: Img<P> = distinct(w, h);
    let before = img.clone();
    let n = (w * h) as usize;
    let calls: Vec<AtomicU32> = (0..n * cc).map(|_| AtomicU32::new(0)).collect();
    let bad = AtomicU32::new(0);
    let sub = |v: u16| -> u16 {
        point();
        match calls.get((v as usize).wrapping_sub(3) / 7) {
            Some(c) => c.fetch_add(1, SeqCst),
            None => bad.fetch_add(1, SeqCst),
        };
        v.wrapping_mul(5).wrapping_add(1)
    };
    let pix = |p: P| -> P {
        point();
        let c0 = p.channels()[0] as usize;
        let i = c0.wrapping_sub(3) / 7;
        let ok = p.channels().iter().enumerate().all(|(k, &v)| v as usize == (i + k) * 7 + 3) && i % cc == 0 && i < n * cc;
        if !ok {
            bad.fetch_add(1, SeqCst);
            return p;
        }
        for k in 0..cc {
            calls[i + k].fetch_add(1, SeqCst);
        }
        p.map(|v| v.wrapping_mul(5).wrapping_add(1))
    };
    let epix = |x: u32, y: u32, p: P| -> P {
        let i = (y as usize * w as usize + x as usize) * cc;
        if x >= w || y >= h || p.channels()[0] as usize != i * 7 + 3 {
            bad.fetch_add(1, SeqCst);
        }
        let q = pix(p);
        q.map(|v| v.wrapping_add((x * 100 + y * 1000) as u16))
    };
    let want = Img::<P>::from_raw(
        w,
        h,
        (0..n * cc)
            .map(|i| {
                let v = (i as u16 * 7 + 3).wrapping_mul(5).wrapping_add(1);
                if which >= 4 {
                    let (x, y) = ((i / cc) as u32 % w, (i / cc) as u32 / w);
                    v.wrapping_add((x * 100 + y * 1000) as u16)
                } else {
                    v
                }
            })
            .collect(),
    )
    .unwrap();
    let name = [
        "map_subpixels_parallel",
        "map_subpixels_mut_parallel",
        "map_pixels_parallel",
        "map_pixels_mut_parallel",
        "map_enumerated_pixels_parallel",
        "map_enumerated_pixels_mut_parallel",
    ][which];
    let got: Img<P> = go(ch, run, || match which {
        0 => P::map_sub(&img, &sub),
        1 => {
            let mut i = img.clone();
            map_subpixels_mut_parallel(&mut i, sub);
            i
        }
        2 => map_pixels_parallel(&img, pix),
        3 => {
            let mut i = img.clone();
            map_pixels_mut_parallel(&mut i, pix);
            i
        }
        4 => map_enumerated_pixels_parallel(&img, epix),
        _ => {
            let mut i = img.clone();
            map_enumerated_pixels_mut_parallel(&mut i, epix);
            i
        }
    })?;
    same(name, &got, &want)?;
    check!(bad.load(SeqCst) == 0, "{name}: the closure was given wrong arguments");
    check!(
        calls.iter().all(|c| c.load(SeqCst) == 1),
        "{name}: calls per subpixel {:?}",
        calls.iter().map(|c| c.load(SeqCst)).collect::<Vec<_>>()
    );
    check!(img == before, "{name}: the input changed");
    // the sequential form agrees
    let seq: Img<P> = match which {
        0 | 1 => P::map_seq(&img, &|v| v.wrapping_mul(5).wrapping_add(1)),
        2 | 3 => map_pixels(&img, |p: P| p.map(|v| v.wrapping_mul(5).wrapping_add(1))),
        _ => map_enumerated_pixels(&img, |x, y, p: P| {
            p.map(|v| v.wrapping_mul(5).wrapping_add(1).wrapping_add((x * 100 + y * 1000) as u16))
        }),
    };
    same(&name.replace("_parallel", ""), &seq, &want)
}

/// Maps to the same pixel type (the associated type of `WithChannel` needs a concrete type).
trait WithU32: Pixel<Subpixel = u16> + Sized {
    fn map_sub(i: &Img<Self>, f: &(dyn Fn(u16) -> u16 + Sync)) -> Img<Self>;
    fn map_seq(i: &Img<Self>, f: &(dyn Fn(u16) -> u16 + Sync)) -> Img<Self>;
}
macro_rules! with {
    ($($t:ty),*) => { $(impl WithU32 for $t {
        fn map_sub(i: &Img<Self>, f: &(dyn Fn(u16) -> u16 + Sync)) -> Img<Self> {
            map_subpixels_parallel(i, f)
        }
        fn map_seq(i: &Img<Self>, f: &(dyn Fn(u16) -> u16 + Sync)) -> Img<Self> {
            map_subpixels(i, f)
        }
    })* };
}
with!(Luma<u16>, LumaA<u16>, Rgb<u16>);

fn map_any(ch: &mut Ch, which: usize, cc: usize, w: u32, h: u32, run: Run) -> R {
    match cc {
        1 => map_op::<Luma<u16>>(ch, which, w, h, run),
        2 => map_op::<LumaA<u16>>(ch, which, w, h, run),
        _ => map_op::<Rgb<u16>>(ch, which, w, h, run),
    }
}

// --------------------------------------------------------------------------------- filters

/// A kernel scalar whose arithmetic is a scheduling point.
#[derive(Clone, Copy, PartialEq, Debug)]
struct K(i64);
impl From<u8> for K {
    fn from(v: u8) -> K {
        point();
        K(v as i64)
    }
}
macro_rules! ops {
    ($($t:ident $f:ident $e:expr),*) => { $(impl $t for K {
        type Output = K;
        fn $f(self, o: K) -> K { let g: fn(i64, i64) -> i64 = $e; K(g(self.0, o.0)) }
    })* };
}
ops!(Add add |a, b| a + b, Sub sub |a, b| a - b, Mul mul |a, b| a * b, Div div |a, b| a / b, Rem rem |a, b| a % b);
impl num::Zero for K {
    fn zero() -> K {
        K(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl num::One for K {
    fn one() -> K {
        K(1)
    }
}
impl num::Num for K {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<K, ()> {
        Err(())
    }
}

fn filter_op(ch: &mut Ch, rgb: bool, w: u32, h: u32, kw: u32, kh: u32, run: Run) -> R {
    let data: Vec<K> = (0..kw * kh).map(|i| K([1, -2, 3, 5, -7, 11, 2, -4, 9][i as usize % 9])).collect();
    let kernel = Kernel::new(&data, kw, kh);
    let calls = AtomicU32::new(0);
    let f = |k: K| -> i32 {
        point();
        calls.fetch_add(1, SeqCst);
        k.0 as i32
    };
    if rgb {
        let img: RgbImage = u8_pat(0, w, h);
        let before = img.clone();
        let got: Img<Rgb<i32>> = go(ch, run, || filter_parallel(&img, kernel, f))?;
        check!(calls.load(SeqCst) == w * h * 3, "the closure ran {} times", calls.load(SeqCst));
        check!(img == before, "the input changed");
        let want: Img<Rgb<i32>> = filter(&img, kernel, f);
        same("filter_parallel", &got, &want)?;
        for y in 0..h {
            for x in 0..w {
                for c in 0..3 {
                    let mut s = 0i64;
                    for j in 0..kh {
                        for i in 0..kw {
                            let xx = (x as i64 + i as i64 - kw as i64 / 2).clamp(0, w as i64 - 1) as u32;
                            let yy = (y as i64 + j as i64 - kh as i64 / 2).clamp(0, h as i64 - 1) as u32;
                            s += img.get_pixel(xx, yy)[c] as i64 * data[(j * kw + i) as usize].0;
                        }
                    }
                    check!(got.get_pixel(x, y)[c] as i64 == s, "filter_parallel at ({x},{y}) channel {c}");
                }
            }
        }
    } else {
        let img = gray_pat(0, w, h);
        let got: Img<Luma<i32>> = go(ch, run, || filter_parallel(&img, kernel, f))?;
        check!(calls.load(SeqCst) == w * h, "the closure ran {} times", calls.load(SeqCst));
        let want: Img<Luma<i32>> = filter(&img, kernel, f);
        same("filter_parallel", &got, &want)?;
    }
    Ok(())
}

fn plain_filters(ch: &mut Ch, which: usize, w: u32, h: u32, k: usize, run: Run) -> R {
    let img = gray_pat(k, w, h);
    let before = img.clone();
    match which {
        0 => {
            let got = go(ch, run, || laplacian_filter_parallel(&img))?;
            same("laplacian_filter_parallel", &got, &laplacian_filter(&img))?;
        }
        1 => {
            let got = go(ch, run, || sharpen3x3_parallel(&img))?;
            same("sharpen3x3_parallel", &got, &sharpen3x3(&img))?;
        }
        2 => {
            let data = [1i32, 2, -3, 4, 5, -6];
            let kernel = Kernel::new(&data, 3, 2);
            let got: Img<Luma<i16>> = go(ch, run, || filter_clamped_parallel(&img, kernel))?;
            same("filter_clamped_parallel", &got, &filter_clamped(&img, kernel))?;
        }
        3 => {
            let data = [0.25f32, -1.5, 2.0];
            let kernel = Kernel::new(&data, 1, 3);
            let img: RgbImage = u8_pat(k, w, h);
            let got: RgbImage = go(ch, run, || filter_clamped_parallel(&img, kernel))?;
            same("filter_clamped_parallel", &got, &filter_clamped(&img, kernel))?;
        }
        4 => {
            let got = go(ch, run, || equalize_histogram(&img))?;
            let mut m = img.clone();
            let got2 = go(ch, run_again(run), || {
                equalize_histogram_mut(&mut m);
                m
            })?;
            // 255 * fraction of pixels not brighter, rounded down
            let total = (w * h) as u64;
            let want = GrayImage::from_fn(w, h, |x, y| {
                let v = img.get_pixel(x, y)[0];
                let c = img.iter().filter(|&&q| q <= v).count() as u64;
                Luma([(255 * c / total) as u8])
            });
            for (g, n) in [(&got, "equalize_histogram"), (&got2, "equalize_histogram_mut")] {
                check!(g.dimensions() == want.dimensions(), "{n}: dimensions");
                // single precision may round the fraction up to the next unit
                for (a, b) in g.iter().zip(want.iter()) {
                    check!(*a == *b || (*a as i32 - *b as i32).abs() <= 1, "{n}: {} instead of {}", show(g), show(&want));
                }
            }
            check!(got == got2, "equalize_histogram and equalize_histogram_mut differ");
            let one = policy(ch, 1, Policy::Sequential, || equalize_histogram(&img))?;
            same("equalize_histogram", &got, &one)?;
        }
        5 => {
            // the rectangle is taken in every position when exploring, fixed otherwise
            let (x0, y0, x1, y1) = match run {
                Run::All(..) => {
                    let x0 = ch.u(0, w);
                    let y0 = ch.u(0, h);
                    let x1 = ch.u(x0, w);
                    let y1 = ch.u(y0, h);
                    (x0, y0, x1, y1)
                }
                _ => (w / 5, h / 7, w, h - h / 9),
            };
            if x1 > x0 && y1 > y0 {
                let r = Rect { x: x0, y: y0, width: x1 - x0, height: y1 - y0 };
                let got = go(ch, run, || crop_parallel(&img, r))?;
                same("crop_parallel", &got, &crop(&img, r))?;
            }
        }
        _ => {
            // warping uses worker threads internally
            let img: RgbImage = u8_pat(k, w, h);
            let calls = AtomicU32::new(0);
            let map = |x: f32, y: f32| {
                point();
                calls.fetch_add(1, SeqCst);
                (y * 0.75 + 0.3, x * 0.5 + y * 0.25)
            };
            let i = match run {
                Run::All(..) => ch.choose(3),
                _ => k % 3,
            };
            let interp = [Interpolation::Nearest, Interpolation::Bilinear, Interpolation::Bicubic][i];
            let dflt = Rgb([1, 2, 3]);
            let got = go(ch, run, || warp_with(&img, map, interp, dflt))?;
            check!(calls.load(SeqCst) == w * h, "the mapping ran {} times for {w}x{h}", calls.load(SeqCst));
            let one = policy(ch, 1, Policy::Sequential, || warp_with(&img, map, interp, dflt))?;
            same("warp_with", &got, &one)?;
            let p = Projection::from_matrix([0.0, 0.75, 0.3, 0.5, 0.25, 0.0, 0.0, 0.0, 1.0]).unwrap().invert();
            let mut out: RgbImage = u8_pat(3, w + 1, h);
            let got = go(ch, run_again(run), || {
                warp_into(&img, &p, interp, dflt, &mut out);
                out
            })?;
            let mut out: RgbImage = u8_pat(5, w + 1, h);
            let one = policy(ch, 1, Policy::Sequential, || {
                warp_into(&img, &p, interp, dflt, &mut out);
                out
            })?;
            same("warp_into", &got, &one)?;
            if let Interpolation::Nearest = interp {
                for y in 0..h {
                    for x in 0..w {
                        let (px, py) = ((y as f32 * 0.75 + 0.3).round(), (x as f32 * 0.5 + y as f32 * 0.25).round());
                        let want = if px >= 0.0 && py >= 0.0 && px < w as f32 && py < h as f32 {
                            *img.get_pixel(px as u32, py as u32)
                        } else {
                            dflt
                        };
                        let v = *one.get_pixel(x, y);
                        check!(v == want || near_tie(y as f32 * 0.75 + 0.3) || near_tie(x as f32 * 0.5 + y as f32 * 0.25), "warp_into at ({x},{y})");
                    }
                }
            }
        }
    }
    check!(img == before, "the input changed");
    Ok(())
}
fn near_tie(v: f32) -> bool {
    ((v - v.floor()) - 0.5).abs() < 1e-3
}
/// The second run of a pair is sequential, to keep the space the product of one run's schedules.
fn run_again(r: Run) -> Run {
    match r {
        Run::All(n, _) => Run::Pol(n, Policy::StealAllThiefFirst),
        r => r,
    }
}

fn template_op(ch: &mut Ch, masked: bool, m: usize, w: u32, h: u32, tw: u32, th: u32, k: usize, run: Run) -> R {
    use MatchTemplateMethod::*;
    let m = [SumOfSquaredErrors, SumOfSquaredErrorsNormalized, CrossCorrelation, CrossCorrelationNormalized][m];
    let img = gray_pat(k, w, h);
    let t = gray_pat((k + 1) % NPAT, tw, th);
    let mask = gray_pat((k + 4) % NPAT, tw, th);
    let (got, want) = if masked {
        (
            go(ch, run, || match_template_with_mask_parallel(&img, &t, m, &mask))?,
            match_template_with_mask(&img, &t, m, &mask),
        )
    } else {
        (go(ch, run, || match_template_parallel(&img, &t, m))?, match_template(&img, &t, m))
    };
    let bits = |i: &Img<Luma<f32>>| i.iter().map(|v| v.to_bits()).collect::<Vec<_>>();
    check!(
        got.dimensions() == want.dimensions() && bits(&got) == bits(&want),
        "match_template{} {m:?}: {} instead of {}",
        if masked { "_with_mask_parallel" } else { "_parallel" },
        show(&got),
        show(&want)
    );
    Ok(())
}

/// Parallel and sequential maps and filters of images of any size.
fn big_map(ch: &mut Ch, which: usize, w: u32, h: u32, run: Run) -> R {
    let img = Img::<LumaA<u16>>::from_fn(w, h, |x, y| LumaA([(x * 31 + y * 7) as u16, (x ^ (y * 5)) as u16]));
    let mut m = img.clone();
    let mut n = img.clone();
    let f = |v: u16| v.rotate_left(3) ^ 0x5a5a;
    let g = |p: LumaA<u16>| LumaA([f(p[1]), p[0]]);
    let e = |x: u32, y: u32, p: LumaA<u16>| LumaA([p[0] ^ x as u16, p[1].wrapping_add((y ^ (x >> 16) ^ (y >> 16)) as u16)]);
    match which {
        0 => same("map_subpixels_parallel", &go(ch, run, || map_subpixels_parallel(&img, f))?, &map_subpixels(&img, f)),
        1 => {
            go(ch, run, || map_subpixels_mut_parallel(&mut m, f))?;
            map_subpixels_mut(&mut n, f);
            same("map_subpixels_mut_parallel", &m, &n)
        }
        2 => same("map_pixels_parallel", &go(ch, run, || map_pixels_parallel(&img, g))?, &map_pixels(&img, g)),
        3 => {
            go(ch, run, || map_pixels_mut_parallel(&mut m, g))?;
            map_pixels_mut(&mut n, g);
            same("map_pixels_mut_parallel", &m, &n)
        }
        4 => same("map_enumerated_pixels_parallel", &go(ch, run, || map_enumerated_pixels_parallel(&img, e))?, &map_enumerated_pixels(&img, e)),
        5 => {
            go(ch, run, || map_enumerated_pixels_mut_parallel(&mut m, e))?;
            map_enumerated_pixels_mut(&mut n, e);
            same("map_enumerated_pixels_mut_parallel", &m, &n)
        }
        _ => {
            let data = [1i32, 2, -3, 4, 5, -6];
            let kernel = if which == 6 { Kernel::new(&data, 3, 2) } else { Kernel::new(&data, 1, 6) };
            let c = |v: i32| (v & 0xffff) as u16;
            let a: Img<LumaA<u16>> = go(ch, run, || filter_parallel(&img, kernel, c))?;
            let b: Img<LumaA<u16>> = filter(&img, kernel, c);
            same("filter_parallel", &a, &b)
        }
    }
}

fn big_shape(ch: &mut Ch) -> (u32, u32) {
    ch.pick(&[(1u32, 1u32), (5, 3), (9, 1), (1, 9), (17, 16), (64, 9), (7, 65), (1, 300), (300, 1), (130, 67)])
}
fn big_run(ch: &mut Ch) -> Run {
    let n = ch.pick(&[1usize, 2, 3, 4, 5, 7, 8]);
    let p = ch.pick(&[Policy::Sequential, Policy::StealAll, Policy::StealAllThiefFirst, Policy::Alternate]);
    Run::Pol(n, p)
}

fn main() {
    run("C01", |r| {
        r.section("maps", "6 parallel maps x 1..3 channels x shapes of up to 5 (2 for colour) pixels x 1..3 workers, every steal and every interleaving with at most 2 (colour: 1) preemptions (thorough: 6 pixels, 2 preemptions)", |ch| {
            let which = ch.choose(6);
            let cc = ch.u(1, 3) as usize;
            let t = ch.thorough as u32;
            let (w, h) = shape(ch, 0, 6, if cc == 1 { 5 + t } else { 2 });
            let n = ch.u(1, 3) as usize;
            let pre = if cc > 1 { 1 + t as usize } else { 2 };
            map_any(ch, which, cc, w, h, Run::All(n, pre))
        });
        r.section("maps-no-preemption", "6 parallel maps, shapes of up to 8 pixels (one channel), 1..3 workers, every steal, switches only where a worker waits or ends", |ch| {
            let which = ch.choose(6);
            let (w, h) = shape(ch, 1, 8, if ch.thorough { 8 } else { 6 });
            let n = ch.u(1, 3) as usize;
            map_any(ch, which, 1, w, h, Run::All(n, 0))
        });
        r.section("filters", "filter_parallel with kernels 1x1..3x3, every scalar product a scheduling point, shapes of up to 3 rows x 2, 1..3 workers, all steals, at most 2 preemptions (3x3 kernels: 1, thorough 2)", |ch| {
            let rgb = ch.flag();
            let (kw, kh) = ch.pick(&[(1u32, 1u32), (2, 1), (3, 3)]);
            let (w, h) = ch.pick(&[(1u32, 1u32), (2, 1), (1, 2), (2, 2), (1, 3)]);
            let n = ch.u(1, 3) as usize;
            let pre = if ch.thorough || kw < 3 { 2 } else { 1 };
            filter_op(ch, rgb, w, h, kw, kh, Run::All(n, pre))
        });
        r.section("others", "laplacian, sharpen3x3, filter_clamped, equalize_histogram, crop (all rectangles), warps x shapes of up to 6 pixels x 2 patterns x 1..3 workers, every steal, at most 1 preemption", |ch| {
            let which = ch.choose(7);
            let (w, h) = shape(ch, 0, 4, if which == 4 || which == 5 { 4 } else if ch.thorough { 8 } else { 6 });
            let n = ch.u(1, 3) as usize;
            let k = ch.pick(&[0usize, 7]);
            let pre = (which == 4 || which == 6) as usize;
            plain_filters(ch, which, w, h, k, Run::All(n, pre))
        });
        r.section("templates", "4 methods, with and without mask, image/template shapes giving up to 4 output rows, 1..4 workers, every steal", |ch| {
            let masked = ch.flag();
            let m = ch.choose(4);
            let (w, h, tw, th) = ch.pick(&[(2u32, 2u32, 1u32, 1u32), (2, 3, 2, 1), (3, 4, 2, 2), (1, 4, 1, 1), (3, 5, 2, 2)]);
            let n = ch.u(1, if ch.thorough { 4 } else { 3 }) as usize;
            template_op(ch, masked, m, w, h, tw, th, 0, Run::All(n, 0))
        });
        r.section("sizes-maps", "maps on shapes up to 130x67 x 1..8 workers x 4 fixed schedules", |ch| {
            let which = ch.choose(6);
            let cc = ch.u(1, 3) as usize;
            let (w, h) = big_shape(ch);
            let run = big_run(ch);
            if w * h > 7000 && cc > 1 {
                return ch.reject();
            }
            map_any(ch, which, cc, w, h, run)
        });
        r.section("sizes-filters", "filters, histogram equalisation, crop, warps on shapes up to 130x67 x 3 patterns x 1..8 workers x 4 fixed schedules", |ch| {
            let which = ch.choose(8);
            let (w, h) = big_shape(ch);
            let k = ch.pick(&[0usize, 2, 4]);
            let run = big_run(ch);
            if which == 7 {
                filter_op(ch, k == 0, w, h, 3, 2, run)
            } else {
                plain_filters(ch, which, w, h, k, run)
            }
        });
        r.section("size-sweep", "6 maps, 7 filters and warps, template matching on about 320 shapes with one side from 1 to 70 or around powers of two x fixed schedules of 4 workers", |ch| {
            let (w, h) = sweep_shape(ch);
            let which = ch.choose(16);
            let run = Run::Pol(4, if (w + h + which as u32) % 2 == 0 { Policy::StealAll } else { Policy::Alternate });
            if w * h > if which < 8 { 7000 } else { 14_000 } {
                return ch.reject();
            }
            match which {
                0..=5 => map_any(ch, which, if w * h <= 800 { 3 } else { 1 }, w, h, run),
                6 => map_any(ch, 0, 1, w, h, run),
                7 => filter_op(ch, w * h < 1000, w, h, 3, 2, run),
                8..=14 => plain_filters(ch, which - 8, w, h, 2, run),
                _ => template_op(ch, (w + h) % 2 == 0, (w as usize + 2 * h as usize) % 4, w, h, w.min(2), h.min(2), 2, run),
            }
        });
        r.section("kernel-shapes", "filter_parallel and filter_clamped_parallel with every kernel shape up to 9x9 (thorough 16x16) on shapes around the kernel size, 1 and 3 channels", |ch| {
            let m = if ch.thorough { 16 } else { 9 };
            let (kw, kh) = (ch.u(1, m), ch.u(1, m));
            let (w, h) = ch.pick(&[(1u32, 1u32), (4, 9), (9, 4), (13, 11), (20, 5)]);
            let rgb = ch.flag();
            filter_op(ch, rgb, w, h, kw, kh, Run::Pol(3, Policy::StealAll))?;
            if rgb {
                return Ok(());
            }
            let img = gray_pat(2, w, h);
            let data: Vec<i32> = (0..(kw * kh) as i32).map(|i| (i * 7) % 11 - 4).collect();
            let kernel = Kernel::new(&data, kw, kh);
            let got: Img<Luma<i16>> = go(ch, Run::Pol(3, Policy::Alternate), || filter_clamped_parallel(&img, kernel))?;
            same("filter_clamped_parallel", &got, &filter_clamped(&img, kernel))
        });
        r.section("sizes-templates", "template matching, output shapes up to 60x65 x 1..8 workers x 4 fixed schedules", |ch| {
            let masked = ch.flag();
            let m = ch.choose(4);
            let (w, h, tw, th) = ch.pick(&[(9u32, 9u32, 3u32, 2u32), (62, 9, 3, 2), (8, 66, 2, 2), (1, 130, 1, 3), (5, 5, 5, 5)]);
            let run = big_run(ch);
            template_op(ch, masked, m, w, h, tw, th, 2, run)
        });
        r.section("builds", "about 120 operations x up to 5 values of every parameter (3 for images of more than 64 pixels) x 37 images (up to 5000 pixels wide, 2100 high): same result with the feature rayon and run-time checks and in a release build without them", |ch| {
            mc::builds::same_in_both_builds(ch, |_| true)
        });
        r.section("huge-sizes", "every parallel operation on images with sides beyond 2^15 and 2^16, 4 workers", |ch| {
            let (w, h) = ch.pick(&[(66_000u32, 1u32), (1, 66_000), (2, 33_000), (33_000, 2)]);
            let which = ch.choose(16);
            let run = Run::Pol(4, if which % 2 == 0 { Policy::StealAll } else { Policy::Alternate });
            match which {
                0..=7 => big_map(ch, which, w, h, run),
                8..=14 => plain_filters(ch, which - 8, w, h, 2, run),
                _ => template_op(ch, (w + h) % 2 == 0, 0, w, h, w.min(2), h.min(2), 2, run),
            }
        });
    });
}
