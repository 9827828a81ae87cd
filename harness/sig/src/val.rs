//! Argument and result types: how to make a value and what identifies it.
use std::sync::atomic::{AtomicI64, Ordering};

pub static LIVE: AtomicI64 = AtomicI64::new(0);

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xD1B54A32D192ED03);
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58476D1CE4E5B9);
    x ^= x >> 32;
    x
}

/// What identifies a value.
pub trait D {
    fn d(&self) -> u64;
}
pub trait V: D {
    fn make(k: u64) -> Self;
}
macro_rules! ints {
    ($($t:ty)*) => { $(impl V for $t {
        fn make(k: u64) -> Self { k as $t }
    }
    impl D for $t {
        fn d(&self) -> u64 { *self as u64 }
    })* };
}
ints!(u8 i8 u16 i16 u32 i32 u64 i64 usize isize);
impl V for u128 {
    fn make(k: u64) -> Self { (k as u128) << 64 | mix(k, 1) as u128 }
}
impl D for u128 {
    fn d(&self) -> u64 { mix((*self >> 64) as u64, *self as u64) }
}
impl V for f32 {
    // no signalling NaNs: loading them through x87 registers changes them
    fn make(k: u64) -> Self { f32::from_bits(k as u32 & 0xbfffffff) }
}
impl D for f32 {
    fn d(&self) -> u64 { self.to_bits() as u64 }
}
impl V for f64 {
    fn make(k: u64) -> Self { f64::from_bits(k & 0xbfffffffffffffff) }
}
impl D for f64 {
    fn d(&self) -> u64 { self.to_bits() }
}
impl V for bool {
    fn make(k: u64) -> Self { k & 1 == 1 }
}
impl D for bool {
    fn d(&self) -> u64 { *self as u64 }
}
impl V for char {
    fn make(k: u64) -> Self { char::from_u32((k % 0xd000) as u32).unwrap() }
}
impl D for char {
    fn d(&self) -> u64 { *self as u64 }
}
impl V for () {
    fn make(_: u64) -> Self {}
}
impl D for () {
    fn d(&self) -> u64 { 0 }
}
impl V for *const u8 {
    fn make(k: u64) -> Self { k as usize as *const u8 }
}
impl D for *const u8 {
    fn d(&self) -> u64 { *self as usize as u64 }
}
static BYTES: [u8; 256] = [7; 256];
impl V for &'static [u8] {
    fn make(k: u64) -> Self {
        let a = (k & 127) as usize;
        &BYTES[a..a + 1 + (k >> 7 & 127) as usize]
    }
}
impl D for &[u8] {
    fn d(&self) -> u64 { mix(self.as_ptr() as u64, self.len() as u64) }
}
impl V for Option<std::num::NonZeroU32> {
    fn make(k: u64) -> Self { std::num::NonZeroU32::new(k as u32) }
}
impl D for Option<std::num::NonZeroU32> {
    fn d(&self) -> u64 { self.map_or(0, |x| x.get() as u64) }
}
macro_rules! aggs {
    ($($n:ident { $($f:ident: $t:ty),* })*) => { $(
        #[repr(C)]
        pub struct $n { $($f: $t),* }
        impl V for $n {
            fn make(k: u64) -> Self { let mut i = 0; $n { $($f: { i += 1; <$t>::make(mix(k, i)) }),* } }
        }
        impl D for $n {
            fn d(&self) -> u64 { let mut h = 0; $(h = mix(h, self.$f.d());)* h }
        }
    )* };
}
aggs! {
    S1 { a: u8 }
    S2 { a: i32, b: f32 }
    S3 { a: u64, b: f64 }
    S4 { a: f32, b: f32, c: f32 }
    S5 { a: u64, b: u64, c: u64, d: u64, e: u64 }
    S6 { a: f64, b: f64, c: f64, d: f64 }
    S7 { a: u16, b: u8, c: u8, d: u8 }
}
/// Owns memory; must be destroyed exactly once.
pub struct Own(Box<u64>);
impl V for Own {
    fn make(k: u64) -> Self {
        LIVE.fetch_add(1, Ordering::SeqCst);
        Own(Box::new(k))
    }
}
impl D for Own {
    fn d(&self) -> u64 { *self.0 }
}
impl Drop for Own {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, Ordering::SeqCst);
        *self.0 = !0;
    }
}

/// What a closure captures: N bytes with known contents.
pub struct Cap<const N: usize>([u8; N]);
impl<const N: usize> Cap<N> {
    pub fn new(id: u32) -> Self {
        LIVE.fetch_add(1, Ordering::SeqCst);
        let mut a = [0; N];
        for (i, b) in a.iter_mut().enumerate() {
            *b = mix(id as u64, i as u64) as u8;
        }
        Cap(a)
    }
    pub fn ok(&self, id: u32) -> bool {
        self.0.iter().enumerate().all(|(i, b)| *b == mix(id as u64, i as u64) as u8)
    }
}
impl<const N: usize> Drop for Cap<N> {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, Ordering::SeqCst);
        self.0.fill(0xdd);
    }
}

impl D for &u64 {
    fn d(&self) -> u64 { mix(*self as *const u64 as u64, **self) }
}
impl D for &mut u64 {
    fn d(&self) -> u64 { mix(&raw const **self as u64, **self) }
}
impl<const N: usize> D for &[u16; N] {
    fn d(&self) -> u64 { mix(self.as_ptr() as u64, N as u64) }
}
impl D for Option<&u64> {
    fn d(&self) -> u64 { self.map_or(1, |x| x.d()) }
}
/// A type with a lifetime.
pub struct Hold<'a> {
    pub r: &'a u64,
    pub k: u32,
}
impl D for Hold<'_> {
    fn d(&self) -> u64 { mix(self.r.d(), self.k as u64) }
}
pub trait Family {
    type Out: D + 'static;
}
impl Family for u32 {
    type Out = u64;
}
