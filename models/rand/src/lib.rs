//! Model of `rand`: every drawn value is a fresh symbolic value of its documented range.
pub mod rngs {
    #[derive(Clone, Copy, Debug, Default)]
    pub struct ThreadRng;
    #[derive(Clone, Copy, Debug, Default)]
    pub struct OsRng;
}
pub use rngs::ThreadRng;
pub fn thread_rng() -> ThreadRng {
    ThreadRng
}

/// Bits of randomness drawn and alphanumeric characters drawn so far, while `on`.
pub struct Drawn {
    pub on: bool,
    pub bits: u32,
    pub chars: Vec<u8>,
    /// Everything drawn is this.
    pub fixed: Option<u8>,
}
#[allow(static_mut_refs)]
pub fn drawn() -> &'static mut Drawn {
    static mut DRAWN: Drawn = Drawn { on: false, bits: 0, chars: Vec::new(), fixed: None };
    unsafe { &mut DRAWN }
}
fn note(bits: u32) {
    if drawn().on {
        drawn().bits += bits;
    }
}

pub trait RngCore {
    fn next_u32(&mut self) -> u32 {
        note(32);
        nd::u32()
    }
    fn next_u64(&mut self) -> u64 {
        note(64);
        nd::u64()
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        for x in b {
            note(8);
            *x = nd::u8();
        }
    }
}
impl RngCore for rngs::ThreadRng {}
impl RngCore for rngs::OsRng {}
impl<R: RngCore + ?Sized> RngCore for &mut R {}

pub trait Rng: RngCore {
    fn gen<T>(&mut self) -> T
    where
        distributions::Standard: distributions::Distribution<T>,
    {
        distributions::Distribution::sample(&distributions::Standard, self)
    }
    fn sample<T, D: distributions::Distribution<T>>(&mut self, d: D) -> T {
        d.sample(self)
    }
    fn sample_iter<T, D: distributions::Distribution<T>>(self, d: D) -> distributions::DistIter<D, Self, T>
    where
        Self: Sized,
    {
        d.sample_iter(self)
    }
    fn gen_range<T: distributions::Ranged>(&mut self, r: std::ops::Range<T>) -> T {
        T::within(r)
    }
}
impl<R: RngCore + ?Sized> Rng for R {}
pub fn random<T>() -> T
where
    distributions::Standard: distributions::Distribution<T>,
{
    thread_rng().gen()
}

pub mod distributions {
    use super::*;
    use std::marker::PhantomData;

    pub trait Distribution<T> {
        fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> T;
        fn sample_iter<R: Rng>(self, rng: R) -> DistIter<Self, R, T>
        where
            Self: Sized,
        {
            DistIter { d: self, rng, p: PhantomData }
        }
    }
    impl<T, D: Distribution<T>> Distribution<T> for &D {
        fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> T {
            (**self).sample(rng)
        }
    }
    pub struct DistIter<D, R, T> {
        d: D,
        rng: R,
        p: PhantomData<T>,
    }
    impl<D: Distribution<T>, R: Rng, T> Iterator for DistIter<D, R, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            Some(self.d.sample(&mut self.rng))
        }
    }
    pub trait DistString {
        fn append_string<R: Rng + ?Sized>(&self, rng: &mut R, string: &mut String, len: usize);
        fn sample_string<R: Rng + ?Sized>(&self, rng: &mut R, len: usize) -> String {
            let mut s = String::new();
            self.append_string(rng, &mut s, len);
            s
        }
    }

    #[derive(Clone, Copy, Debug)]
    pub struct Alphanumeric;
    fn alphanumeric() -> u8 {
        if let Some(v) = drawn().fixed {
            return v;
        }
        let v = nd::u8();
        let digit = (v >= b'0') & (v <= b'9');
        let upper = (v >= b'A') & (v <= b'Z');
        let lower = (v >= b'a') & (v <= b'z');
        nd::assume(digit | upper | lower);
        if drawn().on {
            drawn().bits += 5;
            drawn().chars.push(v);
        }
        v
    }
    impl Distribution<u8> for Alphanumeric {
        fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> u8 {
            alphanumeric()
        }
    }
    impl DistString for Alphanumeric {
        fn append_string<R: Rng + ?Sized>(&self, _: &mut R, s: &mut String, len: usize) {
            // Alphanumeric characters are ASCII.
            let v = unsafe { s.as_mut_vec() };
            for _ in 0..len {
                v.push(alphanumeric());
            }
        }
    }

    #[derive(Clone, Copy, Debug)]
    pub struct Standard;
    macro_rules! standard { ($($t:ident),*) => {$(
        impl Distribution<$t> for Standard {
            fn sample<R: Rng + ?Sized>(&self, _: &mut R) -> $t { note($t::BITS); drawn().fixed.map_or_else(nd::$t, |v| v as $t) }
        }
        impl Ranged for $t {
            fn within(r: std::ops::Range<$t>) -> $t {
                let v = drawn().fixed.map_or_else(nd::$t, |v| r.start + v as $t % (r.end - r.start));
                note(1);
                nd::assume((v >= r.start) & (v < r.end));
                v
            }
        }
    )*}; }
    pub trait Ranged: Sized {
        fn within(r: std::ops::Range<Self>) -> Self;
    }
    standard!(u8, u16, u32, u64);
}
