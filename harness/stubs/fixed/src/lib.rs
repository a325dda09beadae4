//! Stand-in for the `fixed` crate: only the fixed-point operations the program names.
pub mod traits {
    pub trait ToFixed: Copy {
        /// Value scaled by 2^48; None when it does not fit.
        fn to_bits48(self) -> Option<i128>;
    }
    pub trait FromFixed: Sized {
        fn from_bits(bits: i128, frac: u32) -> Option<Self>;
    }
    macro_rules! ints { ($($t:ty),*) => { $(
        impl ToFixed for $t {
            fn to_bits48(self) -> Option<i128> { i128::try_from(self).ok()?.checked_mul(1i128 << 48) }
        }
        impl FromFixed for $t {
            fn from_bits(bits: i128, frac: u32) -> Option<Self> { <$t>::try_from(bits >> frac).ok() }
        }
    )* } }
    ints!(i8, i16, i32, i64, i128, u8, u16, u32, u64, u128, usize, isize);
    impl ToFixed for f64 {
        fn to_bits48(self) -> Option<i128> {
            let x = self * (1u64 << 48) as f64;
            if !x.is_finite() || x >= 2f64.powi(127) || x < -(2f64.powi(127)) { return None; }
            Some(x.round_ties_even_compat() as i128)
        }
    }
    trait Ties { fn round_ties_even_compat(self) -> f64; }
    impl Ties for f64 {
        fn round_ties_even_compat(self) -> f64 {
            let r = self.round();
            if (self - self.trunc()).abs() == 0.5 && r % 2.0 != 0.0 { r - self.signum() } else { r }
        }
    }
    impl FromFixed for f64 {
        fn from_bits(bits: i128, frac: u32) -> Option<Self> { Some(bits as f64 / 2f64.powi(frac as i32)) }
    }
}

pub mod types {
    use crate::traits::*;
    use std::ops::*;

    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Hash)]
    #[repr(transparent)]
    pub struct I80F48(i128);

    // 256-bit helpers: sign and magnitude, magnitude as (hi, lo)
    fn umul(a: u128, b: u128) -> (u128, u128) {
        let m = u64::MAX as u128;
        let (a1, a0, b1, b0) = (a >> 64, a & m, b >> 64, b & m);
        let p00 = a0 * b0;
        let p01 = a0 * b1;
        let p10 = a1 * b0;
        let p11 = a1 * b1;
        let mid = (p00 >> 64) + (p01 & m) + (p10 & m);
        ((p11 + (p01 >> 64) + (p10 >> 64) + (mid >> 64)), (p00 & m) | (mid << 64))
    }
    fn udiv(hi: u128, lo: u128, d: u128) -> Option<u128> {
        if hi >= d { return None; }
        let mut rem = hi;
        let mut q = 0u128;
        for i in (0..128).rev() {
            let top = rem >> 127;
            rem = (rem << 1) | ((lo >> i) & 1);
            if top == 1 || rem >= d { rem = rem.wrapping_sub(d); q |= 1 << i; }
        }
        Some(q)
    }

    impl I80F48 {
        pub const ZERO: I80F48 = I80F48(0);
        pub const ONE: I80F48 = I80F48(1 << 48);
        pub const fn from_bits(b: i128) -> Self { Self(b) }
        pub const fn to_bits(self) -> i128 { self.0 }
        pub fn from_num<T: ToFixed>(x: T) -> Self { Self(x.to_bits48().expect("overflow")) }
        pub fn checked_from_num<T: ToFixed>(x: T) -> Option<Self> { x.to_bits48().map(Self) }
        pub fn to_num<T: FromFixed>(self) -> T { T::from_bits(self.0, 48).expect("overflow") }
        pub fn checked_to_num<T: FromFixed>(self) -> Option<T> { T::from_bits(self.0, 48) }
        pub fn checked_mul(self, o: Self) -> Option<Self> {
            let neg = (self.0 < 0) != (o.0 < 0);
            let (hi, lo) = umul(self.0.unsigned_abs(), o.0.unsigned_abs());
            if hi >> 47 != 0 { return None; }
            let mut q = (hi << 80) | (lo >> 48);
            if neg && (lo & ((1 << 48) - 1)) != 0 { q += 1; }
            let v = i128::try_from(q).ok()?;
            Some(Self(if neg { -v } else { v }))
        }
        pub fn checked_div(self, o: Self) -> Option<Self> {
            if o.0 == 0 { return None; }
            let neg = (self.0 < 0) != (o.0 < 0);
            let a = self.0.unsigned_abs();
            let q = udiv(a >> 80, a << 48, o.0.unsigned_abs())?;
            let v = i128::try_from(q).ok()?;
            Some(Self(if neg { -v } else { v }))
        }
        pub fn checked_add(self, o: Self) -> Option<Self> { self.0.checked_add(o.0).map(Self) }
        pub fn checked_sub(self, o: Self) -> Option<Self> { self.0.checked_sub(o.0).map(Self) }
    }
    impl Mul for I80F48 { type Output = Self; fn mul(self, o: Self) -> Self { self.checked_mul(o).expect("overflow") } }
    impl Div for I80F48 { type Output = Self; fn div(self, o: Self) -> Self { self.checked_div(o).expect("overflow") } }
    impl Add for I80F48 { type Output = Self; fn add(self, o: Self) -> Self { self.checked_add(o).expect("overflow") } }
    impl Sub for I80F48 { type Output = Self; fn sub(self, o: Self) -> Self { self.checked_sub(o).expect("overflow") } }

    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Hash)]
    #[repr(transparent)]
    pub struct U64F64(u128);
    impl U64F64 {
        pub const fn from_bits(b: u128) -> Self { Self(b) }
        pub const fn to_bits(self) -> u128 { self.0 }
        pub fn to_num<T: FromFixed>(self) -> T {
            if self.0 <= i128::MAX as u128 { T::from_bits(self.0 as i128, 64) } else { T::from_bits((self.0 >> 1) as i128, 63) }.expect("overflow")
        }
    }
    impl Mul for U64F64 {
        type Output = Self;
        fn mul(self, o: Self) -> Self {
            let (hi, lo) = umul(self.0, o.0);
            assert!(hi >> 64 == 0, "overflow");
            Self((hi << 64) | (lo >> 64))
        }
    }
}
