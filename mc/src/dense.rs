//! Operations with one number picking their parameters.

use crate::api::{dd, di};
use crate::u8_pat;
use image::*;
use imageproc::contrast::ThresholdType as T;
use imageproc::distance_transform::Norm;
use imageproc::drawing::flood_fill;
use imageproc::geometric_transformations::*;
use imageproc::hough::PolarLine;
use imageproc::*;

/// Functions with one number picking their parameters from alphabets which are dense in places.
pub type Dense = (&'static str, usize, fn(usize, &GrayImage) -> u64);
pub fn dense() -> Vec<Dense> {
    const REALS: [f32; 30] = [
        1.0, 0.5, 0.51, 0.9, 0.99, 1.01, 1.1, 1.24, 1.26, 1.4, 1.5, 1.6, 1.9, 1.99, 2.0, 2.01, 2.1, 2.25, 2.5, 2.6, 2.9, 3.0, 3.1, 3.2, 4.0, 5.0, 7.5, 10.0,
        10.01, 0.1,
    ];
    const INTS: [u32; 14] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 20, 40];
    const BYTES: [u8; 16] = [0, 1, 2, 3, 15, 16, 17, 99, 100, 101, 127, 128, 129, 200, 254, 255];
    let mut v: Vec<Dense> = vec![];
    macro_rules! d {
        ($n:literal, $len:expr, |$k:ident, $i:ident| $e:expr) => {
            v.push(($n, $len, |$k, $i| $e));
        };
    }
    const R: usize = REALS.len();
    const N: usize = INTS.len();
    const B: usize = BYTES.len();
    d!("gaussian_blur_f32", R, |k, i| di(&filter::gaussian_blur_f32(i, REALS[k])));
    d!("sharpen_gaussian sigma", R, |k, i| di(&filter::sharpen_gaussian(i, REALS[k], 1.5)));
    d!("sharpen_gaussian amount", R, |k, i| di(&filter::sharpen_gaussian(i, 1.5, REALS[k])));
    d!("bilateral_filter spatial", R, |k, i| {
        di(&filter::bilateral_filter(i, 2, REALS[k], filter::bilateral::GaussianEuclideanColorDistance::new(20.0)))
    });
    d!("bilateral_filter colour", R, |k, i| {
        di(&filter::bilateral_filter(i, 2, 2.0, filter::bilateral::GaussianEuclideanColorDistance::new(10.0 * REALS[k])))
    });
    d!("bilateral_filter radius", N, |k, i| {
        di(&filter::bilateral_filter(i, INTS[k] as u8, 3.0, filter::bilateral::GaussianEuclideanColorDistance::new(10.0)))
    });
    d!("box_filter x", N, |k, i| di(&filter::box_filter(i, INTS[k], 2)));
    d!("box_filter y", N, |k, i| di(&filter::box_filter(i, 2, INTS[k])));
    d!("median_filter x", N, |k, i| di(&filter::median_filter(i, INTS[k], 2)));
    d!("median_filter y", N, |k, i| di(&filter::median_filter(i, 2, INTS[k])));
    d!("filter", R, |k, i| {
        let data: Vec<f32> = (0..9).map(|j| if j == 4 { REALS[k] } else { 0.1 }).collect();
        di(&filter::filter::<_, f32, _, Luma<f32>>(i, kernel::Kernel::new(&data, 3, 3), |v: f32| v))
    });
    d!("filter shape", N, |k, i| {
        let data: Vec<i32> = (0..240).map(|j| j % 5 - 2).collect();
        let (kw, kh) = if k % 2 == 0 { (INTS[k / 2], 240 / INTS[k / 2]) } else { (240 / INTS[k / 2], INTS[k / 2]) };
        di(&filter::filter_clamped::<_, i32, i16>(i, kernel::Kernel::new(&data[..(kw * kh) as usize], kw, kh)))
    });
    d!("adaptive_threshold radius", N, |k, i| di(&contrast::adaptive_threshold(i, INTS[k], 0)));
    d!("adaptive_threshold delta", N, |k, i| di(&contrast::adaptive_threshold(i, 2, INTS[k] as i32)));
    d!("threshold", B, |k, i| di(&contrast::threshold(i, BYTES[k], T::Binary)));
    d!("stretch_contrast", B - 1, |k, i| di(&contrast::stretch_contrast(i, BYTES[k], 255, BYTES[k] / 2, 250)));
    d!("match_histogram", B, |k, i| {
        let v = BYTES[k];
        let t = GrayImage::from_fn(6, 5, |x, y| Luma([(x * 9 + y * 31) as u8 ^ v]));
        di(&contrast::match_histogram(i, &t))
    });
    d!("rotate_about_center", R, |k, i| di(&rotate_about_center(i, REALS[k] / 3.0, Interpolation::Bilinear, Luma([9]))));
    d!("warp", R, |k, i| {
        let p = Projection::scale(REALS[k], 1.0) * Projection::translate(0.3, 0.1);
        di(&warp(i, &p, Interpolation::Bicubic, Luma([9])))
    });
    d!("warp matrix", 9, |k, i| {
        let mut m = [1.0, 0.1, 0.2, -0.1, 1.0, 0.3, 0.01, 0.02, 1.0];
        m[k] += 0.05;
        di(&warp(i, &Projection::from_matrix(m).unwrap(), Interpolation::Bilinear, Luma([9])))
    });
    d!("translate", 49, |k, i| di(&translate(i, (k as i32 % 7 - 3, k as i32 / 7 - 3))));
    d!("canny", R, |k, i| di(&edges::canny(i, 20.0, 20.0 + 40.0 * REALS[k])));
    d!("canny low", R, |k, i| di(&edges::canny(i, 20.0 * REALS[k], 400.0)));
    d!("mask", 27, |k, i| {
        let m = match k % 3 {
            0 => morphology::Mask::square(k as u8 / 3),
            1 => morphology::Mask::disk(k as u8 / 3),
            _ => morphology::Mask::diamond(k as u8 / 3),
        };
        di(&morphology::grayscale_dilate(i, &m)) ^ di(&morphology::grayscale_erode(i, &m)).rotate_left(1)
    });
    d!("mask from image", 16, |k, i| {
        let (cx, cy) = (k as u8 % 4, k as u8 / 4);
        di(&morphology::grayscale_dilate(i, &morphology::Mask::from_image(&u8_pat(3, 4, 4), cx, cy)))
    });
    d!("dilate", 24, |k, i| {
        let n = [Norm::L1, Norm::L2, Norm::LInf][k % 3];
        di(&morphology::dilate(i, n, k as u8 / 3)) ^ di(&morphology::close(i, n, k as u8 / 3)).rotate_left(1)
    });
    d!("gaussian_noise", 60, |k, i| {
        let (m, s) = [(0.0, 10.0), (0.0, 10.5), (1.0, 10.0), (1.5, 3.0)][k % 4];
        di(&noise::gaussian_noise(i, m, s, k as u64 / 4))
    });
    d!("salt_and_pepper_noise", 45, |k, i| di(&noise::salt_and_pepper_noise(i, [0.5, 0.51, 0.1][k % 3], k as u64 / 3)));
    d!("hog", 24, |k, i| {
        let o = hog::HogOptions {
            orientations: [4, 8, 9][k % 3],
            signed: k / 3 % 2 == 0,
            cell_side: 2 + k / 12,
            block_side: 1 + k / 6 % 2,
            block_stride: 1,
        };
        dd(&hog::hog(i, o))
    });
    d!("detect_lines", 30, |k, i| {
        dd(&hough::detect_lines(&contrast::threshold(i, 200, T::Binary), hough::LineDetectionOptions { vote_threshold: 2 + k as u32 / 5, suppression_radius: k as u32 % 5 }))
    });
    d!("draw_polar_lines", 40, |k, i| {
        let l = PolarLine { r: k as f32 / 4.0, angle_in_degrees: 10 * (k as u32 % 18) };
        di(&hough::draw_polar_lines(i, &[l], Luma([5])))
    });
    d!("fast", B, |k, i| dd(&corners::corners_fast9(i, BYTES[k])) ^ dd(&corners::corners_fast12(i, BYTES[k])));
    d!("template", 36, |k, i| {
        let (a, m) = (k as u32 / 4, k % 4);
        let m = [
            template_matching::MatchTemplateMethod::SumOfSquaredErrors,
            template_matching::MatchTemplateMethod::SumOfSquaredErrorsNormalized,
            template_matching::MatchTemplateMethod::CrossCorrelation,
            template_matching::MatchTemplateMethod::CrossCorrelationNormalized,
        ][m];
        di(&template_matching::match_template(i, &u8_pat(0, 1 + a % 3, 1 + a / 3), m))
    });
    d!("template contents", B, |k, i| {
        let t = GrayImage::from_fn(3, 3, |x, y| Luma([BYTES[k].wrapping_add((x + 3 * y) as u8)]));
        di(&template_matching::match_template(i, &t, template_matching::MatchTemplateMethod::CrossCorrelationNormalized))
    });
    d!("connected_components", B, |k, i| {
        let c = if k % 2 == 0 { region_labelling::Connectivity::Four } else { region_labelling::Connectivity::Eight };
        di(&region_labelling::connected_components(i, c, Luma([BYTES[k]])))
    });
    d!("find_contours", B, |k, i| dd(&contours::find_contours_with_threshold::<i32>(i, BYTES[k])));
    d!("suppress_non_maximum", N, |k, i| di(&suppress::suppress_non_maximum(i, INTS[k])));
    d!("shrink_width", 8, |k, i| di(&seam_carving::shrink_width(i, 1 + k as u32)));
    d!("percentile", 11, |k, i| stats::percentile(i, 10 * k as u8) as u64);
    d!("flood_fill", 63, |k, i| di(&flood_fill(i, k as u32 % 9, k as u32 / 9, Luma([200]))));
    d!("filled ellipse", 49, |k, i| {
        let (a, b) = (k as i32 % 7, k as i32 / 7);
        di(&drawing::draw_filled_ellipse(i, (6, 5), a, b, Luma([3]))) ^ di(&drawing::draw_hollow_ellipse(i, (6, 5), a, b, Luma([3]))).rotate_left(1)
    });
    d!("circles", 49, |k, i| {
        let c = (k as i32 % 7, k as i32 / 7);
        di(&drawing::draw_filled_circle(i, c, c.0, Luma([3]))) ^ di(&drawing::draw_hollow_circle(i, c, c.1, Luma([3]))).rotate_left(1)
    });
    d!("polygon", 49, |k, i| {
        let c = point::Point::new(k as i32 % 7, k as i32 / 7);
        if c == point::Point::new(0, 0) {
            return 0;
        }
        di(&drawing::draw_polygon(i, &[point::Point::new(0, 0), c, point::Point::new(2, 9)], Luma([3])))
    });
    d!("bezier", R, |k, i| {
        di(&drawing::draw_cubic_bezier_curve(i, (0.0, 0.0), (3.0 * REALS[k], 1.0), (5.0, 2.0 * REALS[k]), (2.0, 8.0), Luma([3])))
    });
    v
}

