//! The operations of the library as one table, with alphabets of ordinary and extreme parameters.

use crate::{u8_pat, Ch, Img};
use image::*;
use imageproc::contrast::ThresholdType;
use imageproc::distance_transform::Norm;
use imageproc::filter::bilateral::GaussianEuclideanColorDistance;
use imageproc::geometric_transformations::{Interpolation, Projection};
use imageproc::hog::HogOptions;
use imageproc::kernel::Kernel;
use imageproc::morphology::Mask;
use imageproc::point::Point;
use imageproc::rect::Rect;
use imageproc::region_labelling::Connectivity;
use imageproc::template_matching::MatchTemplateMethod as Mt;
use imageproc::*;
use num::ToPrimitive;
use std::fmt::Debug;

/// The parallel forms; without worker threads the sequential ones stand in for them.
mod par {
    #[cfg(not(feature = "rayon"))]
    pub use imageproc::{
        compose::crop as crop_parallel, filter::filter as filter_parallel, filter::filter_clamped as filter_clamped_parallel,
        filter::laplacian_filter as laplacian_filter_parallel, filter::sharpen3x3 as sharpen3x3_parallel,
        map::map_enumerated_pixels as map_enumerated_pixels_parallel, map::map_pixels as map_pixels_parallel,
        map::map_subpixels as map_subpixels_parallel, template_matching::match_template as match_template_parallel,
        template_matching::match_template_with_mask as match_template_with_mask_parallel,
    };
    #[cfg(feature = "rayon")]
    pub use imageproc::{
        compose::crop_parallel, filter::filter_clamped_parallel, filter::filter_parallel, filter::laplacian_filter_parallel,
        filter::sharpen3x3_parallel, map::map_enumerated_pixels_parallel, map::map_pixels_parallel, map::map_subpixels_parallel,
        template_matching::match_template_parallel, template_matching::match_template_with_mask_parallel,
    };
}

/// Parameter choices: taken from the explorer the first time, repeated afterwards.
pub struct Pk<'a> {
    ch: Option<&'a mut Ch>,
    rec: Vec<usize>,
    /// how many alternatives each choice had
    lens: Vec<usize>,
    /// replay with choice .0 replaced by .1
    altered: Option<(usize, usize)>,
    pos: usize,
    replaying: bool,
    /// at most this many alternatives of every parameter (the first ones, ordinary values)
    limit: usize,
    /// the combination is excluded by the documentation
    excluded: bool,
}
impl<'a> Pk<'a> {
    pub fn new(ch: &'a mut Ch, limit: usize) -> Self {
        Pk { ch: Some(ch), rec: vec![], lens: vec![], altered: None, pos: 0, replaying: false, limit, excluded: false }
    }
    /// Follows `script`, then takes first alternatives.
    pub fn scripted(script: Vec<usize>, limit: usize) -> Self {
        Pk { ch: None, rec: script, lens: vec![], altered: None, pos: 0, replaying: false, limit, excluded: false }
    }
    /// The script of the next combination of parameters, after a scripted run.
    pub fn next_script(self) -> Option<Vec<usize>> {
        let mut s = self.rec;
        s.truncate(self.pos);
        while let Some(k) = s.pop() {
            if k + 1 < self.lens[s.len()].min(self.limit) {
                s.push(k + 1);
                return Some(s);
            }
        }
        None
    }
    pub fn replay(&mut self) {
        self.replaying = true;
        self.altered = None;
        self.pos = 0;
    }
    /// Replays with one choice changed; choices which only then arise take their first alternative.
    pub fn replay_altered(&mut self, choice: usize, to: usize) {
        self.replay();
        self.altered = Some((choice, to));
    }
    /// (choice, another alternative) for everything one step away from what was chosen.
    pub fn neighbours(&self) -> Vec<(usize, usize)> {
        let mut v = vec![];
        for (j, (&k, &n)) in self.rec.iter().zip(&self.lens).enumerate() {
            v.extend((0..n).filter(|&m| m != k).map(|m| (j, m)));
        }
        v
    }
    /// Another operation with choices of its own.
    pub fn sub<T>(&mut self, limit: usize, f: impl FnOnce(&mut Pk) -> T) -> T {
        f(&mut Pk::new(self.ch.as_mut().unwrap(), limit))
    }
    pub fn excluded(&self) -> bool {
        self.excluded
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        let k = if self.replaying {
            let mut k = self.rec.get(self.pos).copied().unwrap_or(0);
            if let Some((_, v)) = self.altered.filter(|a| a.0 == self.pos) {
                k = v;
            }
            self.pos += 1;
            k.min(xs.len() - 1)
        } else if let Some(ch) = &mut self.ch {
            let k = ch.choose(xs.len().min(self.limit));
            self.rec.push(k);
            self.lens.push(xs.len());
            k
        } else {
            if self.pos == self.rec.len() {
                self.rec.push(0);
            }
            self.lens.push(xs.len());
            self.pos += 1;
            self.rec[self.pos - 1]
        };
        xs[k].clone()
    }
    fn none(&mut self) -> u64 {
        self.excluded = true;
        0
    }
}

fn bytes<T>(v: &[T]) -> &[u8] {
    // SAFETY: only used for slices of primitive numbers
    unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, std::mem::size_of_val(v)) }
}
fn hash(mut h: u64, b: &[u8]) -> u64 {
    h ^= b.len() as u64;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100_0000_01b3);
        h ^= h >> 31;
    }
    h
}
/// Digest of an image.
pub fn di<P: Pixel>(i: &Img<P>) -> u64 {
    let n = i.width() as usize * i.height() as usize * P::CHANNEL_COUNT as usize;
    if std::any::type_name::<P::Subpixel>() == "f32" && i.as_raw().iter().any(|v| v.to_f32().is_some_and(f32::is_nan)) {
        // the bits of a NaN are not specified
        return dd(&i.as_raw()[..n].iter().map(|v| v.to_f32().map(f32::to_bits).filter(|&b| !f32::from_bits(b).is_nan())).collect::<Vec<_>>());
    }
    hash(i.width() as u64 * 65_537 + i.height() as u64 + 1, bytes(&i.as_raw()[..n]))
}
/// Digest of a printable value.
pub fn dd<T: Debug>(t: &T) -> u64 {
    hash(77, format!("{t:?}").as_bytes())
}

fn rgb(i: &GrayImage) -> RgbImage {
    RgbImage::from_fn(i.width(), i.height(), |x, y| {
        let v = i.get_pixel(x, y)[0];
        Rgb([v, 255 - v, v.wrapping_mul(7)])
    })
}
fn rgba(i: &GrayImage) -> RgbaImage {
    RgbaImage::from_fn(i.width(), i.height(), |x, y| {
        let v = i.get_pixel(x, y)[0];
        Rgba([v, 255 - v, v.wrapping_mul(7), v.wrapping_mul(3) | 1])
    })
}
fn luma32(i: &GrayImage) -> Img<Luma<f32>> {
    let v = i.iter().map(|&v| v as f32 / 3.0).collect();
    ImageBuffer::from_raw(i.width(), i.height(), v).unwrap()
}

fn other(p: &mut Pk, i: &GrayImage) -> GrayImage {
    let (w, h) = i.dimensions();
    match p.pick(&[0, 1, 2, 3, 4]) {
        0 => i.clone(),
        1 => u8_pat::<Luma<u8>>(0, w + 1, h + 2),
        2 => GrayImage::new(0, 0),
        3 => u8_pat::<Luma<u8>>(3, 1, 1),
        _ => u8_pat::<Luma<u8>>(7, 3, 0),
    }
}
fn radius(p: &mut Pk, i: &GrayImage) -> u32 {
    let n = i.width().max(i.height());
    p.pick(&[1, 2, 0, n, n + 3, 1000, i32::MAX as u32, i32::MAX as u32 + 1, u32::MAX])
}
/// A radius which may be as long as a documented bound or memory allows.
fn some_radius(p: &mut Pk, i: &GrayImage) -> u32 {
    let n = i.width().max(i.height());
    p.pick(&[1, 2, 0, n, n + 3, 130])
}
fn norm(p: &mut Pk) -> Norm {
    match p.pick(&[0, 1, 2]) {
        0 => Norm::L1,
        1 => Norm::L2,
        _ => Norm::LInf,
    }
}
fn interp(p: &mut Pk) -> Interpolation {
    match p.pick(&[0, 1, 2]) {
        0 => Interpolation::Nearest,
        1 => Interpolation::Bilinear,
        _ => Interpolation::Bicubic,
    }
}
fn real(p: &mut Pk) -> f32 {
    p.pick(&[0.5, 1.0, 0.0, -3.25, 1e9, -1e30, f32::MAX, f32::INFINITY, f32::NEG_INFINITY, f32::NAN])
}
fn angle(p: &mut Pk) -> f32 {
    p.pick(&[0.5, 0.0, -3.0, 1e6, f32::INFINITY, f32::NAN])
}
fn projection(p: &mut Pk) -> Projection {
    match p.pick(&[0, 1, 2, 3, 4, 5, 6]) {
        0 => Projection::translate(1.0, -0.5),
        1 => Projection::rotate(0.4),
        2 => Projection::scale(1e-3, 40.0),
        3 => Projection::translate(1e9, -1e30),
        4 => Projection::from_matrix([1.0, 0.2, 0.0, 0.1, 1.0, 0.0, 0.5, -0.25, 1.0]).unwrap(),
        5 => Projection::scale(1e12, 1e-12),
        _ => Projection::translate(f32::MAX, f32::MAX),
    }
}
fn mask(p: &mut Pk) -> Mask {
    match p.pick(&[0, 1, 2, 3, 4, 5, 6]) {
        0 => Mask::square(1),
        1 => Mask::disk(2),
        2 => Mask::diamond(0),
        3 => Mask::diamond(255),
        4 => Mask::from_image(&GrayImage::new(0, 0), 0, 0),
        5 => Mask::from_image(&u8_pat(3, 3, 4), 255, 255),
        _ => Mask::from_image(&GrayImage::new(2, 3), 1, 1),
    }
}

pub type Op = fn(&mut Pk, &GrayImage) -> u64;

/// Every operation on (images derived from) a gray image, returning a digest of its result.
pub fn ops() -> Vec<(&'static str, Op)> {
    let mut v: Vec<(&'static str, Op)> = vec![];
    macro_rules! op {
        ($n:literal, |$p:ident, $i:ident| $e:expr) => {{
            fn f($p: &mut Pk, $i: &GrayImage) -> u64 {
                let _ = &$p;
                $e
            }
            v.push(($n, f));
        }};
    }
    // compose
    op!("crop", |p, i| {
        let (w, h) = i.dimensions();
        let l = p.pick(&[0, 1, w.saturating_sub(1)]);
        let t = p.pick(&[0, 1, h.saturating_sub(1)]);
        let rw = p.pick(&[1, 2, w]);
        let rh = p.pick(&[1, 2, h]);
        if rw == 0 || rh == 0 || l + rw > w || t + rh > h {
            return p.none();
        }
        let r = image::math::Rect { x: l, y: t, width: rw, height: rh };
        di(&compose::crop(i, r)) ^ di(&par::crop_parallel(i, r)).rotate_left(1)
    });
    op!("flip_horizontal", |p, i| di(&compose::flip_horizontal(i)) ^ di(&compose::flip_horizontal(&rgba(i))));
    op!("flip_vertical", |p, i| di(&compose::flip_vertical(i)) ^ di(&compose::flip_vertical(&rgb(i))));
    op!("replace", |p, i| {
        let o = other(p, i);
        let x = p.pick(&[0, 1, i.width().wrapping_sub(1)]);
        let y = p.pick(&[0, 1, i.height().wrapping_sub(1)]);
        if x >= i.width() || y >= i.height() {
            return p.none();
        }
        di(&compose::replace(i, &o, x, y)) ^ di(&compose::replace(&rgb(i), &rgb(&o), x, y)).rotate_left(1)
    });
    op!("overlay", |p, i| {
        let o = other(p, i);
        let x = p.pick(&[0, 1, i.width().wrapping_sub(1)]);
        let y = p.pick(&[0, 1, i.height().wrapping_sub(1)]);
        if x >= i.width() || y >= i.height() {
            return p.none();
        }
        di(&compose::overlay(i, &o, x, y)) ^ di(&compose::overlay(&rgba(i), &rgba(&o), x, y)).rotate_left(1)
    });
    // contours and labelling
    op!("find_contours", |p, i| dd(&contours::find_contours::<i32>(i)));
    op!("find_contours_with_threshold", |p, i| {
        dd(&contours::find_contours_with_threshold::<u32>(i, p.pick(&[100, 0, 255])))
    });
    op!("connected_components", |p, i| {
        let c = if p.pick(&[true, false]) { Connectivity::Four } else { Connectivity::Eight };
        di(&region_labelling::connected_components(i, c, Luma([p.pick(&[0, 255])])))
            ^ di(&region_labelling::connected_components(&rgb(i), c, Rgb([0, 255, 0]))).rotate_left(1)
    });
    // contrast
    op!("adaptive_threshold", |p, i| {
        let r = radius(p, i);
        let d = p.pick(&[0, 5, -5, i32::MAX, i32::MIN]);
        if r == 0 {
            return p.none();
        }
        di(&contrast::adaptive_threshold(i, r, d))
    });
    op!("otsu_level", |p, i| contrast::otsu_level(i) as u64);
    op!("kapur_level", |p, i| contrast::kapur_level(i) as u64);
    op!("threshold", |p, i| {
        let t = p.pick(&[100, 0, 255]);
        let k = match p.pick(&[0, 1, 2, 3, 4]) {
            0 => ThresholdType::Binary,
            1 => ThresholdType::BinaryInverted,
            2 => ThresholdType::Truncate,
            3 => ThresholdType::ToZero,
            _ => ThresholdType::ToZeroInverted,
        };
        di(&contrast::threshold(i, t, k))
    });
    op!("equalize_histogram", |p, i| di(&contrast::equalize_histogram(i)));
    op!("stretch_contrast", |p, i| {
        let (a, b) = p.pick(&[(10, 200), (0, 255), (0, 1), (254, 255), (77, 78)]);
        let (c, d) = p.pick(&[(0, 255), (5, 5), (0, 0), (255, 255), (254, 255)]);
        di(&contrast::stretch_contrast(i, a, b, c, d)) ^ di(&contrast::stretch_contrast(&rgba(i), a, b, c, d)).rotate_left(1)
    });
    op!("match_histogram", |p, i| {
        let o = other(p, i);
        di(&contrast::match_histogram(i, &o))
    });
    // stats
    op!("histogram", |p, i| dd(&stats::histogram(i).channels.to_vec()) ^ dd(&stats::histogram(&rgb(i)).channels));
    op!("cumulative_histogram", |p, i| dd(&stats::cumulative_histogram(i).channels.to_vec()));
    op!("percentile", |p, i| {
        let q = p.pick(&[50, 0, 1, 99, 100]);
        if i.is_empty() {
            return p.none();
        }
        stats::percentile(i, q) as u64
    });
    op!("min_max", |p, i| {
        if i.is_empty() {
            return p.none();
        }
        stats::min_max(&rgb(i)).iter().fold(3, |s, m| (s * 255 + m.min as u64) * 255 + m.max as u64)
    });
    op!("root_mean_squared_error", |p, i| {
        if i.is_empty() {
            return p.none();
        }
        let f = imageproc::compose::flip_horizontal(i);
        stats::root_mean_squared_error(i, &f).to_bits() ^ stats::root_mean_squared_error(&rgb(i), &rgb(i)).to_bits()
    });
    op!("peak_signal_to_noise_ratio", |p, i| {
        if i.is_empty() {
            return p.none();
        }
        let f = imageproc::compose::flip_horizontal(i);
        stats::peak_signal_to_noise_ratio(i, &f).to_bits() ^ stats::peak_signal_to_noise_ratio(i, i).to_bits()
    });
    // corners and descriptors
    op!("corners_fast9", |p, i| dd(&corners::corners_fast9(i, p.pick(&[10, 0, 100, 255]))));
    op!("corners_fast12", |p, i| dd(&corners::corners_fast12(i, p.pick(&[10, 0, 100, 255]))));
    op!("oriented_fast", |p, i| {
        let t = p.pick(&[Some(10), None, Some(0), Some(255)]);
        let n = p.pick(&[5, 0, 1, 10_000]);
        let e = p.pick(&[3, 15, 0, 100, u32::MAX]);
        dd(&corners::oriented_fast(i, t, n, e, Some(7)).iter().map(|c| (c.corner, c.orientation)).collect::<Vec<_>>())
    });
    op!("fast_corner_score", |p, i| {
        let (w, h) = i.dimensions();
        if w < 7 || h < 7 {
            return p.none();
        }
        let x = p.pick(&[3, w - 4]);
        let y = p.pick(&[3, h - 4]);
        let t = p.pick(&[0, 30, 255]);
        let v = if p.pick(&[true, false]) { corners::Fast::Nine } else { corners::Fast::Twelve };
        corners::fast_corner_score(i, t, x, y, v) as u64
    });
    op!("brief", |p, i| {
        let (w, h) = i.dimensions();
        let k = p.pick(&[(w / 2, h / 2), (0, 0), (16, 16), (u32::MAX, 3), (w, h)]);
        let n = p.pick(&[128, 256, 5]);
        let t: Vec<_> = (0..n)
            .map(|j| binary_descriptors::brief::TestPair {
                p0: Point::new(j % 31, j * 7 % 31),
                p1: Point::new(j * 3 % 31, j * 5 % 31),
            })
            .collect();
        let keys = p.pick(&[vec![Point::new(k.0, k.1)], vec![], vec![Point::new(k.0, k.1); 2]]);
        match binary_descriptors::brief::brief(i, &keys, n as usize, Some(&t)) {
            Ok((d, _)) => dd(&d.iter().map(|d| d.bits.clone()).collect::<Vec<_>>()),
            Err(e) => dd(&e),
        }
    });
    // distances and morphology
    op!("distance_transform", |p, i| di(&distance_transform::distance_transform(i, norm(p))));
    op!("euclidean_squared_distance_transform", |p, i| {
        di(&distance_transform::euclidean_squared_distance_transform(i))
    });
    op!("dilate", |p, i| di(&morphology::dilate(i, norm(p), p.pick(&[1, 2, 0, 255]))));
    op!("erode", |p, i| di(&morphology::erode(i, norm(p), p.pick(&[1, 2, 0, 255]))));
    op!("open", |p, i| di(&morphology::open(i, norm(p), p.pick(&[1, 2, 0, 255]))));
    op!("close", |p, i| di(&morphology::close(i, norm(p), p.pick(&[1, 2, 0, 255]))));
    op!("grayscale_dilate", |p, i| di(&morphology::grayscale_dilate(i, &mask(p))));
    op!("grayscale_erode", |p, i| di(&morphology::grayscale_erode(i, &mask(p))));
    op!("grayscale_open", |p, i| di(&morphology::grayscale_open(i, &mask(p))));
    op!("grayscale_close", |p, i| di(&morphology::grayscale_close(i, &mask(p))));
    op!("mask from image", |p, i| {
        if i.width() >= 512 || i.height() >= 512 {
            return p.none();
        }
        let m = Mask::from_image(i, p.pick(&[1, 0, 255]), p.pick(&[0, 2, 255]));
        di(&morphology::grayscale_dilate(&u8_pat(0, 4, 5), &m))
    });
    // drawing on the image
    op!("flood_fill", |p, i| {
        let x = p.pick(&[0, i.width() / 2, i.width().wrapping_sub(1)]);
        let y = p.pick(&[0, i.height() / 2, i.height().wrapping_sub(1)]);
        if x >= i.width() || y >= i.height() {
            return p.none();
        }
        di(&drawing::flood_fill(i, x, y, Luma([p.pick(&[7, 0, 255])])))
    });
    op!("draw_haar_feature", |p, i| {
        let (w, h) = (i.width().min(4) as u8, i.height().min(4) as u8);
        let f = haar::enumerate_haar_features(w, h);
        if f.is_empty() {
            return p.none();
        }
        let k = p.pick(&[0, 1, f.len() / 2, f.len() - 1]).min(f.len() - 1);
        let int = integral_image::integral_image::<_, u32>(i);
        di(&haar::draw_haar_feature(i, f[k])) ^ f[k].evaluate(&int) as u64
    });
    op!("haar features", |p, i| {
        let (w, h) = (i.width().min(12), i.height().min(12));
        haar::number_of_haar_features(w, h) as u64 + haar::enumerate_haar_features(w as u8, h as u8).len() as u64
    });
    // edges and gradients
    op!("canny", |p, i| {
        let lo = p.pick(&[20.0, 0.0, 500.0, f32::INFINITY]);
        let hi = p.pick(&[60.0, 500.0, 0.0, f32::MAX, f32::INFINITY]);
        if hi < lo {
            return p.none();
        }
        di(&edges::canny(i, lo, hi))
    });
    op!("horizontal_sobel", |p, i| di(&gradients::horizontal_sobel(i)));
    op!("vertical_sobel", |p, i| di(&gradients::vertical_sobel(i)));
    op!("horizontal_scharr", |p, i| di(&gradients::horizontal_scharr(i)));
    op!("vertical_scharr", |p, i| di(&gradients::vertical_scharr(i)));
    op!("horizontal_prewitt", |p, i| di(&gradients::horizontal_prewitt(i)));
    op!("vertical_prewitt", |p, i| di(&gradients::vertical_prewitt(i)));
    op!("sobel_gradients", |p, i| di(&gradients::sobel_gradients(i)));
    op!("prewitt_gradients", |p, i| di(&gradients::prewitt_gradients(i)));
    op!("sobel_gradient_map", |p, i| {
        di(&gradients::sobel_gradient_map(&rgb(i), |p| Luma([p[0].max(p[1]).max(p[2])])))
    });
    // filters
    op!("filter", |p, i| {
        let k: Vec<f32> = (0..99).map(|k| (k % 7) as f32 / 9.0 - 0.3).collect();
        let w = p.pick(&[3, 1, 2, 9]);
        let h = p.pick(&[3, 1, 4, 11]);
        let k = Kernel::new(&k[..(w * h) as usize], w, h);
        di(&filter::filter::<_, _, _, Luma<f32>>(i, k, |v: f32| v))
            ^ di(&par::filter_parallel::<_, _, _, Rgb<f32>>(&rgb(i), k, |v: f32| v)).rotate_left(1)
    });
    op!("filter_clamped", |p, i| {
        let k: Vec<i32> = (0..99).map(|k| (k % 7) as i32 - 3).collect();
        let w = p.pick(&[3, 1, 2, 9]);
        let h = p.pick(&[3, 1, 4, 11]);
        let k = Kernel::new(&k[..(w * h) as usize], w, h);
        di(&filter::filter_clamped::<_, i32, i16>(i, k)) ^ di(&par::filter_clamped_parallel::<_, i32, i16>(i, k)).rotate_left(1)
    });
    op!("gaussian_blur_f32", |p, i| {
        let s = p.pick(&[1.0, 0.5, 1e-3, 30.0, f32::MIN_POSITIVE]);
        di(&filter::gaussian_blur_f32(i, s)) ^ di(&filter::gaussian_blur_f32(&rgb(i), s)).rotate_left(1)
    });
    op!("separable_filter", |p, i| {
        let k = [0.25f32, 0.5, 0.25, 0.1, -0.2, 0.3, 0.0, 1.0, -1.0];
        let a = p.pick(&[3, 1, 2, 8]);
        di(&filter::separable_filter(i, &k[..a], &k[1..a + 1])) ^ di(&filter::separable_filter_equal(i, &k[..a])).rotate_left(1)
    });
    op!("horizontal_filter", |p, i| {
        let k = [1i32, 2, 1, 5, -2, 3, 0, 1, -1];
        di(&filter::horizontal_filter(i, &k[..p.pick(&[3, 1, 2, 4, 9])]))
    });
    op!("vertical_filter", |p, i| {
        let k = [1i32, 2, 1, 5, -2, 3, 0, 1, -1];
        di(&filter::vertical_filter(i, &k[..p.pick(&[3, 1, 2, 4, 9])]))
    });
    op!("laplacian_filter", |p, i| di(&filter::laplacian_filter(i)) ^ di(&par::laplacian_filter_parallel(i)).rotate_left(1));
    op!("sharpen3x3", |p, i| di(&filter::sharpen3x3(i)) ^ di(&par::sharpen3x3_parallel(i)).rotate_left(1));
    op!("sharpen_gaussian", |p, i| {
        let s = p.pick(&[1.0, 0.01, 12.0]);
        di(&filter::sharpen_gaussian(i, s, real(p)))
    });
    op!("box_filter", |p, i| {
        let x = some_radius(p, i);
        let y = some_radius(p, i);
        di(&filter::box_filter(i, x, y))
    });
    op!("median_filter", |p, i| {
        let x = some_radius(p, i);
        let y = some_radius(p, i);
        di(&filter::median_filter(i, x, y)) ^ di(&filter::median_filter(&rgb(i), x, y)).rotate_left(1)
    });
    op!("bilateral_filter", |p, i| {
        let r = p.pick(&[1u8, 2, 0, 20]);
        let s = p.pick(&[3.0, 0.1, 1e6]);
        let c = p.pick(&[10.0, 0.5, 1e6]);
        if i.is_empty() {
            return p.none();
        }
        di(&filter::bilateral_filter(i, r, s, GaussianEuclideanColorDistance::new(c)))
            ^ di(&filter::bilateral_filter(&rgb(i), r, s, GaussianEuclideanColorDistance::new(c))).rotate_left(1)
    });
    // geometric transformations
    op!("rotate_about_center", |p, i| {
        let a = angle(p);
        di(&geometric_transformations::rotate_about_center(i, a, interp(p), Luma([9])))
    });
    op!("rotate", |p, i| {
        let c = (real(p), p.pick(&[0.0, 1e20, f32::NAN]));
        let a = angle(p);
        di(&geometric_transformations::rotate(&rgb(i), c, a, interp(p), Rgb([9, 8, 7])))
    });
    op!("rotate90", |p, i| di(&geometric_transformations::rotate90(i)) ^ di(&geometric_transformations::rotate90(&rgb(i))));
    op!("rotate180", |p, i| di(&geometric_transformations::rotate180(i)) ^ di(&geometric_transformations::rotate180(&rgb(i))));
    op!("rotate270", |p, i| di(&geometric_transformations::rotate270(i)) ^ di(&geometric_transformations::rotate270(&rgb(i))));
    op!("translate", |p, i| {
        let n = [1, -1, 0, 2, 100, -100, i32::MAX, i32::MIN];
        let t = (p.pick(&n), p.pick(&n));
        di(&geometric_transformations::translate(i, t)) ^ di(&geometric_transformations::translate(&rgba(i), t)).rotate_left(1)
    });
    op!("warp", |p, i| {
        let pr = projection(p);
        let k = interp(p);
        di(&geometric_transformations::warp(i, &pr, k, Luma([9])))
            ^ di(&geometric_transformations::warp(&rgb(i), &pr, k, Rgb([9, 8, 7]))).rotate_left(1)
    });
    op!("warp_into", |p, i| {
        let pr = projection(p);
        let k = interp(p);
        let (w, h) = i.dimensions();
        let (w, h) = p.pick(&[(w, h), (w + 1, h.saturating_sub(1)), (0, 0), (0, 3), (3, 0), (1, 7)]);
        let n = (w * h * 3) as usize + p.pick(&[0, 13, 1]);
        let mut out = RgbImage::from_raw(w, h, vec![44; n]).unwrap();
        geometric_transformations::warp_into(&rgb(i), &pr, k, Rgb([9, 8, 7]), &mut out);
        di(&out)
    });
    op!("warp_with", |p, i| {
        let (a, b) = (real(p), real(p));
        let s = p.pick(&[1.0, 0.0]);
        let k = interp(p);
        di(&geometric_transformations::warp_with(i, |x, y| (x * s + a, y + b), k, Luma([9])))
    });
    // hog
    op!("hog", |p, i| {
        let o = HogOptions {
            orientations: p.pick(&[4, 1, 0, 1000]),
            signed: p.pick(&[false, true]),
            cell_side: p.pick(&[2, 1, 3, 0, usize::MAX]),
            block_side: p.pick(&[2, 1, 0, usize::MAX]),
            block_stride: p.pick(&[1, 2, 0, usize::MAX]),
        };
        if i.is_empty() {
            return p.none();
        }
        dd(&hog::hog(i, o))
    });
    op!("hog grid", |p, i| {
        let o = HogOptions { orientations: p.pick(&[4, 1]), signed: p.pick(&[false, true]), cell_side: p.pick(&[1, 2]), block_side: 1, block_stride: 1 };
        let side = p.pick(&[7, 1, 0, 2]);
        match hog::HogSpec::from_options(i.width(), i.height(), o) {
            Ok(s) => {
                let mut g = hog::cell_histograms(i, s);
                di(&hog::render_hist_grid(side, &g.view_mut(), o.signed))
            }
            Err(_) => p.none(),
        }
    });
    // hough
    op!("detect_lines", |p, i| {
        let o = hough::LineDetectionOptions {
            vote_threshold: p.pick(&[3, 1, 0, u32::MAX]),
            suppression_radius: p.pick(&[2, 0, 1, 200, u32::MAX]),
        };
        if (i.width() as u64 + 1) * (i.height() as u64 + 1) > 60_000 && o.vote_threshold == 0 {
            return p.none();
        }
        dd(&hough::detect_lines(i, o))
    });
    op!("draw_polar_lines", |p, i| {
        let l = hough::PolarLine { r: p.pick(&[1.0, 0.0, -2.5, 100.0, 1e30, f32::NAN, f32::INFINITY]), angle_in_degrees: p.pick(&[45, 0, 90, 179, 100_000, u32::MAX]) };
        di(&hough::draw_polar_lines(i, &[l, l], Luma([5])))
    });
    // hash
    op!("phash", |p, i| {
        if i.is_empty() {
            return p.none();
        }
        dd(&image_hash::phash(&luma32(i)))
    });
    // integral images
    op!("integral_image", |p, i| di(&integral_image::integral_image::<_, u32>(i)) ^ di(&integral_image::integral_image::<_, u64>(&rgb(i))));
    op!("integral_squared_image", |p, i| {
        di(&integral_image::integral_squared_image::<_, u32>(i)) ^ di(&integral_image::integral_squared_image::<_, u64>(&rgb(i)))
    });
    op!("sum and variance", |p, i| {
        let (w, h) = i.dimensions();
        if w == 0 || h == 0 {
            return p.none();
        }
        let (l, t) = (p.pick(&[0, w / 2, w - 1]), p.pick(&[0, h / 2, h - 1]));
        let (r, b) = (p.pick(&[w / 2, 0, w - 1]), p.pick(&[h / 2, 0, h - 1]));
        if l > r || t > b {
            return p.none();
        }
        let a = integral_image::integral_image::<_, u32>(i);
        let s = integral_image::integral_squared_image::<_, u32>(i);
        dd(&integral_image::sum_image_pixels(&a, l, t, r, b)) ^ integral_image::variance(&a, &s, l, t, r, b).to_bits()
    });
    op!("row_running_sum", |p, i| {
        let pad = some_radius(p, i);
        let extra = p.pick(&[0, 3]);
        let y = p.pick(&[0, i.height().wrapping_sub(1)]);
        if i.width() == 0 || y >= i.height() {
            return p.none();
        }
        let mut b = vec![12345; (i.width() + 2 * pad + extra) as usize];
        integral_image::row_running_sum(i, y, &mut b, pad);
        hash(5, bytes(&b))
    });
    op!("column_running_sum", |p, i| {
        let pad = some_radius(p, i);
        let extra = p.pick(&[0, 3]);
        let x = p.pick(&[0, i.width().wrapping_sub(1)]);
        if i.height() == 0 || x >= i.width() {
            return p.none();
        }
        let mut b = vec![12345; (i.height() + 2 * pad + extra) as usize];
        integral_image::column_running_sum(i, x, &mut b, pad);
        hash(5, bytes(&b))
    });
    op!("local_binary_pattern", |p, i| {
        let n = [1, 0, i.width().wrapping_sub(1), u32::MAX - 1, u32::MAX];
        let m = [1, 0, i.height().wrapping_sub(1), u32::MAX - 1, u32::MAX];
        dd(&local_binary_patterns::local_binary_pattern(i, p.pick(&n), p.pick(&m)))
    });
    // map
    op!("map_subpixels", |p, i| {
        di(&map::map_subpixels(&rgb(i), |v| v as i32 * 300)) ^ di(&par::map_subpixels_parallel(i, |v| v as f32 / 2.0)).rotate_left(1)
    });
    op!("map_pixels", |p, i| {
        di(&map::map_pixels(i, |v| Rgb([v[0], 1, 2]))) ^ di(&par::map_pixels_parallel(&rgb(i), |v| Luma([v[1]]))).rotate_left(1)
    });
    op!("map_enumerated_pixels", |p, i| {
        di(&map::map_enumerated_pixels(i, |x, y, v| Luma([x as i32 * 5 + y as i32 * 7 + v[0] as i32])))
            ^ di(&par::map_enumerated_pixels_parallel(&rgb(i), |x, y, v| Luma([(x + y) as u16 ^ v[2] as u16]))).rotate_left(1)
    });
    op!("map_pixels2", |p, i| di(&map::map_pixels2(i, &rgb(i), |a, b| Luma([a[0] as u16 * 2 + b[2] as u16]))));
    op!("channels", |p, i| {
        let c = rgb(i);
        di(&map::into_red_channel(&c))
            ^ di(&map::into_green_channel(&c)).rotate_left(1)
            ^ di(&map::into_blue_channel(&c)).rotate_left(2)
            ^ di(&map::from_red_channel(i)).rotate_left(3)
            ^ di(&map::from_green_channel(i)).rotate_left(4)
            ^ di(&map::from_blue_channel(i)).rotate_left(5)
    });
    // noise
    op!("gaussian_noise", |p, i| {
        let m = p.pick(&[3.0, 0.0, -1e9, 1e300]);
        let s = p.pick(&[10.0, 0.0, 1e300]);
        let seed = p.pick(&[1, 0, u64::MAX]);
        di(&noise::gaussian_noise(i, m, s, seed)) ^ di(&noise::gaussian_noise(&rgb(i), m, s, seed)).rotate_left(1)
    });
    op!("salt_and_pepper_noise", |p, i| {
        let r = p.pick(&[0.3, 0.0, 1.0]);
        let seed = p.pick(&[1, 0, u64::MAX]);
        di(&noise::salt_and_pepper_noise(i, r, seed)) ^ di(&noise::salt_and_pepper_noise(&rgb(i), r, seed)).rotate_left(1)
    });
    // seams
    op!("shrink_width", |p, i| {
        let w = i.width();
        let t = p.pick(&[w.saturating_sub(1), w / 2, w, 1, 0]);
        if t > w || w < 2 || t < 1 {
            return p.none();
        }
        di(&seam_carving::shrink_width(i, t)) ^ di(&seam_carving::shrink_width(&rgb(i), t)).rotate_left(1)
    });
    op!("vertical seam", |p, i| {
        if i.width() < 2 {
            return p.none();
        }
        let s = seam_carving::find_vertical_seam(i);
        let r = seam_carving::remove_vertical_seam(&rgb(i), &s);
        di(&r) ^ di(&seam_carving::draw_vertical_seams(i, &[s])).rotate_left(1)
    });
    // suppression
    op!("suppress_non_maximum", |p, i| {
        let r = radius(p, i);
        di(&suppress::suppress_non_maximum(i, r))
    });
    op!("local_maxima", |p, i| {
        let r = radius(p, i);
        let c: Vec<corners::Corner> = i
            .enumerate_pixels()
            .filter(|(_, _, v)| v[0] > 100)
            .take(60)
            .map(|(x, y, v)| corners::Corner::new(x, y, v[0] as f32))
            .collect();
        dd(&suppress::local_maxima(&c, r))
    });
    // template matching
    op!("match_template", |p, i| {
        let (w, h) = i.dimensions();
        let tw = p.pick(&[1, 2, w.saturating_sub(1), w]);
        let th = p.pick(&[1, 2, h.saturating_sub(1), h]);
        let m = p.pick(&[
            Mt::SumOfSquaredErrors,
            Mt::SumOfSquaredErrorsNormalized,
            Mt::CrossCorrelation,
            Mt::CrossCorrelationNormalized,
        ]);
        if tw == 0 || th == 0 || tw > w || th > h || tw as u64 * th as u64 > 400 {
            return p.none();
        }
        let mut raw = u8_pat::<Luma<u8>>(0, tw, th).into_raw();
        let mut mask = u8_pat::<Luma<u8>>(3, tw, th).into_raw();
        // the digest of the second case has to equal that of the first
        let surplus = i.as_raw().len() - (w * h) as usize;
        raw.extend((0..surplus).map(|v| v as u8));
        mask.extend((0..surplus).map(|v| v as u8));
        let t = GrayImage::from_raw(tw, th, raw).unwrap();
        let k = GrayImage::from_raw(tw, th, mask).unwrap();
        di(&template_matching::match_template(i, &t, m))
            ^ di(&par::match_template_parallel(i, &t, m)).rotate_left(1)
            ^ di(&template_matching::match_template_with_mask(i, &t, m, &k)).rotate_left(2)
            ^ di(&par::match_template_with_mask_parallel(i, &t, m, &k)).rotate_left(3)
    });
    op!("find_extremes", |p, i| {
        if i.is_empty() {
            return p.none();
        }
        dd(&template_matching::find_extremes(&luma32(i)))
    });
    // comparison of images
    op!("pixel_diffs", |p, i| {
        let f = compose::flip_vertical(i);
        dd(&utils::pixel_diff_summary(i, &f).is_some()) ^ utils::pixel_diffs(i, &f, |p, q| p != q).len() as u64
    });
    // drawing (details in C25)
    op!("drawing", |p, i| {
        use drawing::*;
        let n = [1, 0, -1, 3, i.width() as i32, i.height() as i32 + 1, -1000, 1000];
        let (x, y) = (p.pick(&n), p.pick(&n));
        let c = Luma([5]);
        let f = (x as f32, y as f32);
        match p.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]) {
            0 => di(&draw_line_segment(i, (1.0, 2.0), f, c)),
            1 => di(&draw_hollow_circle(i, (x, y), 3, c)),
            2 => di(&draw_filled_circle(i, (x, y), 3, c)),
            3 => di(&draw_hollow_ellipse(i, (x, y), 3, 1, c)),
            4 => di(&draw_filled_ellipse(i, (x, y), 2, 3, c)),
            5 => di(&draw_hollow_rect(i, Rect::at(x, y).of_size(2, 3), c)),
            6 => di(&draw_filled_rect(i, Rect::at(x, y).of_size(2, 3), c)),
            7 => di(&draw_cross(i, c, x, y)),
            8 => di(&draw_polygon(i, &[Point::new(0, 0), Point::new(x, y), Point::new(2, 1)], c)),
            9 => di(&draw_antialiased_line_segment(i, (x, y), (1, 1), c, pixelops::interpolate)),
            _ => di(&draw_cubic_bezier_curve(i, (0.0, 0.0), (3.0, 1.0), f, (2.0, 2.0), c)),
        }
    });
    v
}
