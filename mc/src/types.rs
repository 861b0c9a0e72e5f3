//! Values and images of every subpixel type, and dispatch on the pixel type: a function that is
//! generic over the pixel is checked on types beyond the two or three everyone uses.

use crate::images::Img;
use image::{ImageBuffer, Pixel, Primitive};

/// A subpixel type with representative values and exact comparison.
pub trait Val: Primitive + std::fmt::Debug + PartialEq + Send + Sync + 'static {
    const NAME: &'static str;
    /// Zero, extremes, small, large and, for floats, fractional values; no value twice.
    fn vals() -> Vec<Self>;
    /// Values in ascending order whose neighbours only just differ (at several magnitudes).
    fn ladder() -> Vec<Self>;
    /// Identity of the value (floats by bits).
    fn bits(self) -> u64;
    fn f(self) -> f64;
}

macro_rules! ints {
    ($($t:ident)*) => { $(
        impl Val for $t {
            const NAME: &'static str = stringify!($t);
            fn vals() -> Vec<$t> {
                vec![$t::MIN, $t::MAX, $t::MAX / 2, $t::MAX / 2 + 1, 1, 5, $t::MAX - 1, $t::MAX / 3, 77, $t::MIN + 1, 100, $t::MAX / 100 * 3 + 2]
            }
            fn ladder() -> Vec<$t> {
                let mut v: Vec<$t> = vec![$t::MIN, $t::MIN + 1, $t::MIN / 2, 0, 1, 2, 3, 50, 51, $t::MAX / 3, $t::MAX / 3 + 1, $t::MAX / 2, $t::MAX / 2 + 1, $t::MAX - 2, $t::MAX - 1, $t::MAX];
                v.sort();
                v.dedup();
                v
            }
            fn bits(self) -> u64 { self as u64 }
            fn f(self) -> f64 { self as f64 }
        }
    )* };
}
ints!(u8 u16 u32 u64 i8 i16 i32 i64);

macro_rules! floats {
    ($($t:ident)*) => { $(
        impl Val for $t {
            const NAME: &'static str = stringify!($t);
            fn vals() -> Vec<$t> {
                vec![0.0, 1.0, 0.5, -0.25, 1e-7, 300.5, -0.0, 1.0 / 3.0, $t::MAX, 1e20, -7.5, $t::EPSILON, 0.999]
            }
            fn ladder() -> Vec<$t> {
                vec![$t::MIN, -1e20, -2.5, -1.0 - $t::EPSILON, -1.0, -1e-30, 0.0, 1e-30, 0.1, 0.5, 0.5 + $t::EPSILON, 0.9, 1.0 - $t::EPSILON, 1.0, 1.0 + $t::EPSILON, 254.5, 255.0, 1e20, $t::MAX]
            }
            fn bits(self) -> u64 { self.to_bits() as u64 }
            fn f(self) -> f64 { self as f64 }
        }
    )* };
}
floats!(f32 f64);

fn mix(a: u32) -> u32 {
    let mut h = a.wrapping_mul(0x9E3779B1);
    h ^= h >> 15;
    h = h.wrapping_mul(0x2C1B3C6D);
    h ^= h >> 13;
    h
}

/// Pixel number `k`: the channels are representative values in some combination.
pub fn tpix<P: Pixel>(k: u32) -> P
where
    P::Subpixel: Val,
{
    let v = P::Subpixel::vals();
    let c: Vec<P::Subpixel> = (0..P::CHANNEL_COUNT as u32).map(|c| v[(mix(k * 8 + c) % v.len() as u32) as usize]).collect();
    *P::from_slice(&c)
}

/// Image whose pixels are representative values in scrambled order.
pub fn timg<P: Pixel>(w: u32, h: u32, seed: u32) -> Img<P>
where
    P::Subpixel: Val,
{
    ImageBuffer::from_fn(w, h, |x, y| tpix(mix(x + y * 1009 + seed * 7919) >> 3))
}

pub fn pbits<P: Pixel>(p: &P) -> Vec<u64>
where
    P::Subpixel: Val,
{
    p.channels().iter().map(|c| c.bits()).collect()
}

/// First difference, floats compared by bits.
pub fn tdiff<P: Pixel>(got: &Img<P>, want: &Img<P>) -> Option<String>
where
    P::Subpixel: Val,
{
    if got.dimensions() != want.dimensions() {
        return Some(format!("dimensions {:?}, expected {:?}", got.dimensions(), want.dimensions()));
    }
    for (x, y, p) in got.enumerate_pixels() {
        if pbits(p) != pbits(want.get_pixel(x, y)) {
            return Some(format!("at ({x},{y}): got {:?}, expected {:?}", p.channels(), want.get_pixel(x, y).channels()));
        }
    }
    None
}

/// `f::<P>(args)` for the pixel type selected by the next choice, among the listed subpixel types in
/// all four layouts.
#[macro_export]
macro_rules! with_type {
    ($ch:expr, [$($t:ty),*], $f:ident $a:tt) => {{
        let mut n = 0usize;
        $( let _ = std::marker::PhantomData::<$t>; n += 4; )*
        let k = $ch.choose(n);
        let mut i = 0usize;
        $(
            if k == i { return $f::<image::Luma<$t>>$a; }
            if k == i + 1 { return $f::<image::LumaA<$t>>$a; }
            if k == i + 2 { return $f::<image::Rgb<$t>>$a; }
            if k == i + 3 { return $f::<image::Rgba<$t>>$a; }
            i += 4;
        )*
        let _ = i;
        unreachable!()
    }};
}

/// The same for the single-channel layout only.
#[macro_export]
macro_rules! with_luma {
    ($ch:expr, [$($t:ty),*], $f:ident $a:tt) => {{
        let mut n = 0usize;
        $( let _ = std::marker::PhantomData::<$t>; n += 1; )*
        let k = $ch.choose(n);
        let mut i = 0usize;
        $(
            if k == i { return $f::<$t>$a; }
            i += 1;
        )*
        let _ = i;
        unreachable!()
    }};
}
