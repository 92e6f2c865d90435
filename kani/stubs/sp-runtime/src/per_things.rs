//! Fixed-point ratios. Contracts assumed:
//! * `mul_floor(p, x)` is `floor(p * x / ACCURACY)` (and `mul_ceil`, `*` likewise rounded up / to nearest), never overflows;
//! * `from_rational(a, b)` is `floor(min(a, b) * ACCURACY / b)`, and `ACCURACY` for `b = 0`: modelled as a function of `(a, b)`.
use crate::traits::AtLeast32BitUnsigned;
use parity_scale_codec::{CompactAs, Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;

/// `p * x / acc` rounded down, and how it relates to the exact quotient.
/// Under the verifier this is an uninterpreted function of `(p, x, acc)` with the facts callers rely on.
pub mod scale {
	#[derive(Clone, Copy)]
	pub struct Scaled {
		/// rounded down
		pub floor: u128,
		/// the quotient is exact
		pub exact: bool,
		/// the remainder is more than a half
		pub up: bool,
	}
	#[derive(Clone, Copy)]
	struct Memo {
		used: bool,
		p: u128,
		x: u128,
		acc: u128,
		s: Scaled,
	}
	const EMPTY: Memo = Memo { used: false, p: 0, x: 0, acc: 0, s: Scaled { floor: 0, exact: true, up: false } };
	static mut MEMO: [Memo; 3] = [EMPTY; 3];
	pub fn reset() {
		unsafe { MEMO = [EMPTY; 3] }
	}
	/// Set by a harness that needs the exact values.
	pub static mut EXACT: bool = false;
	fn exact(p: u128, x: u128, acc: u128) -> Scaled {
		let (q, r) = (x / acc, x % acc);
		let n = p * r;
		let f = n % acc;
		Scaled { floor: p * q + n / acc, exact: f == 0, up: f > acc / 2 }
	}
	/// The same ratio of parts of a hundred, a million or a billion is one function.
	#[cfg(kani)]
	fn lowest(p: u128, acc: u128) -> (u128, u128) {
		if unsafe { !LOWEST } {
			return (p, acc);
		}
		let (mut a, mut b) = (acc, p);
		while b != 0 {
			(a, b) = (b, a % b);
		}
		(p / a, acc / a)
	}
	/// Set by a harness whose ratios are constants.
	pub static mut LOWEST: bool = false;
	#[cfg(kani)]
	fn nearest(s: Scaled) -> u128 {
		s.floor + s.up as u128
	}
	/// Rounding keeps the order of the exact quotients.
	#[cfg(kani)]
	fn ordered(m: Memo, p: u128, x: u128, acc: u128, s: Scaled) -> bool {
		!m.used
			|| m.p != p || m.acc != acc
			|| (x > m.x || s.floor <= m.s.floor && nearest(s) <= nearest(m.s))
				&& (x < m.x || s.floor >= m.s.floor && nearest(s) >= nearest(m.s))
	}
	pub fn of(p: u128, x: u128, acc: u128) -> Scaled {
		#[cfg(not(kani))]
		return exact(p, x, acc);
		#[cfg(kani)]
		if unsafe { EXACT } {
			return exact(p, x, acc);
		}
		#[cfg(kani)]
		let (p, acc) = lowest(p, acc);
		#[cfg(kani)]
		unsafe {
			if MEMO[0].used && MEMO[0].p == p && MEMO[0].x == x && MEMO[0].acc == acc {
				return MEMO[0].s;
			}
			if MEMO[1].used && MEMO[1].p == p && MEMO[1].x == x && MEMO[1].acc == acc {
				return MEMO[1].s;
			}
			if MEMO[2].used && MEMO[2].p == p && MEMO[2].x == x && MEMO[2].acc == acc {
				return MEMO[2].s;
			}
			let s = Scaled { floor: nd::any(), exact: nd::any(), up: nd::any() };
			nd::assume(!(s.exact && s.up));
			nd::assume(p > acc || s.floor <= x && (s.exact || s.floor < x));
			nd::assume(p != acc || s.floor == x && s.exact);
			nd::assume((p != 0 && x != 0) || s.floor == 0 && s.exact);
			nd::assume(ordered(MEMO[0], p, x, acc, s) && ordered(MEMO[1], p, x, acc, s) && ordered(MEMO[2], p, x, acc, s));
			let m = Memo { used: true, p, x, acc, s };
			if !MEMO[0].used {
				MEMO[0] = m;
			} else if !MEMO[1].used {
				MEMO[1] = m;
			} else {
				MEMO[2] = m;
			}
			s
		}
	}
}

/// `from_rational` as an uninterpreted function with the facts callers rely on.
pub mod ratio {
	#[derive(Clone, Copy)]
	struct Memo {
		used: bool,
		a: u128,
		b: u128,
		acc: u128,
		r: u128,
	}
	const EMPTY: Memo = Memo { used: false, a: 0, b: 0, acc: 0, r: 0 };
	static mut MEMO: [Memo; 2] = [EMPTY; 2];
	/// Set by a harness that needs the exact values.
	pub static mut EXACT: bool = false;
	pub fn reset() {
		unsafe { MEMO = [EMPTY; 2] }
	}
	pub fn floor(a: u128, b: u128, acc: u128) -> u128 {
		if b == 0 {
			return acc;
		}
		let a = if a > b { b } else { a };
		#[cfg(kani)]
		if unsafe { EXACT } {
			return a * acc / b;
		}
		#[cfg(not(kani))]
		{
			if let Some(x) = a.checked_mul(acc) {
				return x / b;
			}
			return a / (b / acc);
		}
		#[cfg(kani)]
		unsafe {
			if MEMO[0].used && MEMO[0].a == a && MEMO[0].b == b && MEMO[0].acc == acc {
				return MEMO[0].r;
			}
			if MEMO[1].used && MEMO[1].a == a && MEMO[1].b == b && MEMO[1].acc == acc {
				return MEMO[1].r;
			}
			let r: u128 = nd::any();
			nd::assume(r <= acc);
			nd::assume((r == acc) == (a == b));
			nd::assume(a != 0 || r == 0);
			let m = Memo { used: true, a, b, acc, r };
			if !MEMO[0].used {
				MEMO[0] = m;
			} else {
				MEMO[1] = m;
			}
			r
		}
	}
}

pub trait PerThing: Sized + Copy {
	type Inner;
	const ACCURACY: Self::Inner;
	fn deconstruct(self) -> Self::Inner;
	fn from_parts(p: Self::Inner) -> Self;
	fn zero() -> Self;
	fn one() -> Self;
	fn is_zero(&self) -> bool;
}

macro_rules! per_thing {
	($name:ident, $inner:ty, $acc:expr) => {
		#[derive(
			Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Encode, Decode, MaxEncodedLen, TypeInfo, CompactAs, Hash,
		)]
		pub struct $name($inner);
		impl $name {
			pub const fn from_parts(p: $inner) -> Self {
				$name(if p < $acc { p } else { $acc })
			}
			pub const fn from_percent(p: $inner) -> Self {
				let p = if p < 100 { p } else { 100 };
				$name(((p as u128) * ($acc as u128) / 100) as $inner)
			}
			pub const fn from_perthousand(p: $inner) -> Self {
				$name(((p as u128) * ($acc as u128) / 1000) as $inner)
			}
			pub const fn deconstruct(self) -> $inner {
				self.0
			}
			pub const fn zero() -> Self {
				$name(0)
			}
			pub const fn one() -> Self {
				$name($acc)
			}
			pub fn is_zero(&self) -> bool {
				self.0 == 0
			}
			pub fn is_one(&self) -> bool {
				self.0 == $acc
			}
			pub fn mul_floor<N: AtLeast32BitUnsigned>(self, x: N) -> N {
				N::unique_saturated_from(scale::of(self.0 as u128, x.unique_saturated_into(), $acc as u128).floor)
			}
			pub fn mul_ceil<N: AtLeast32BitUnsigned>(self, x: N) -> N {
				let s = scale::of(self.0 as u128, x.unique_saturated_into(), $acc as u128);
				N::unique_saturated_from(if s.exact { s.floor } else { s.floor + 1 })
			}
			pub fn from_rational<N: AtLeast32BitUnsigned>(a: N, b: N) -> Self {
				$name(ratio::floor(a.unique_saturated_into(), b.unique_saturated_into(), $acc as u128) as $inner)
			}
			pub fn left_from_one(self) -> Self {
				$name($acc - self.0)
			}
			pub fn saturating_add(self, o: Self) -> Self {
				$name(if self.0 as u128 + o.0 as u128 > $acc as u128 { $acc } else { self.0 + o.0 })
			}
			pub fn saturating_sub(self, o: Self) -> Self {
				$name(self.0.saturating_sub(o.0))
			}
		}
		impl PerThing for $name {
			type Inner = $inner;
			const ACCURACY: $inner = $acc;
			fn deconstruct(self) -> $inner {
				self.0
			}
			fn from_parts(p: $inner) -> Self {
				$name::from_parts(p)
			}
			fn zero() -> Self {
				$name(0)
			}
			fn one() -> Self {
				$name($acc)
			}
			fn is_zero(&self) -> bool {
				self.0 == 0
			}
		}
		impl $name {
			pub const ACCURACY: $inner = $acc;
		}
		impl<N: AtLeast32BitUnsigned> core::ops::Mul<N> for $name {
			type Output = N;
			fn mul(self, x: N) -> N {
				let s = scale::of(self.0 as u128, x.unique_saturated_into(), $acc as u128);
				N::unique_saturated_from(if s.up { s.floor + 1 } else { s.floor })
			}
		}
	};
}
per_thing!(Percent, u8, 100u8);
per_thing!(Permill, u32, 1_000_000u32);
per_thing!(Perbill, u32, 1_000_000_000u32);

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct FixedU128(pub u128);
impl FixedU128 {
	pub const DIV: u128 = 1_000_000_000_000_000_000;
	pub const fn from_u32(n: u32) -> Self {
		FixedU128(n as u128 * Self::DIV)
	}
	pub const fn from_inner(n: u128) -> Self {
		FixedU128(n)
	}
	pub const fn from_rational(a: u128, b: u128) -> Self {
		FixedU128(a * Self::DIV / b)
	}
	pub fn saturating_mul_int(self, n: u128) -> u128 {
		(self.0 / Self::DIV).saturating_mul(n)
	}
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct FixedI64(i64);
impl FixedI64 {
	pub const DIV: i64 = 1_000_000_000;
	pub const fn from_inner(n: i64) -> Self {
		FixedI64(n)
	}
	pub const fn into_inner(self) -> i64 {
		self.0
	}
	pub const fn from_u32(n: u32) -> Self {
		FixedI64(n as i64 * Self::DIV)
	}
	pub const fn from_rational(a: u128, b: u128) -> Self {
		FixedI64((a * Self::DIV as u128 / b) as i64)
	}
}
