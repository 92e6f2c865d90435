use crate::traits::Get;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_runtime::traits::{AtLeast32BitUnsigned, SaturatedConversion};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct Weight {
	#[codec(compact)]
	ref_time: u64,
	#[codec(compact)]
	proof_size: u64,
}
impl Weight {
	pub const MAX: Weight = Weight { ref_time: u64::MAX, proof_size: u64::MAX };
	pub const fn from_parts(ref_time: u64, proof_size: u64) -> Self {
		Weight { ref_time, proof_size }
	}
	pub const fn zero() -> Self {
		Weight { ref_time: 0, proof_size: 0 }
	}
	pub const fn ref_time(&self) -> u64 {
		self.ref_time
	}
	pub const fn proof_size(&self) -> u64 {
		self.proof_size
	}
	pub const fn saturating_add(self, o: Self) -> Self {
		Weight { ref_time: self.ref_time.saturating_add(o.ref_time), proof_size: self.proof_size.saturating_add(o.proof_size) }
	}
	pub const fn saturating_sub(self, o: Self) -> Self {
		Weight { ref_time: self.ref_time.saturating_sub(o.ref_time), proof_size: self.proof_size.saturating_sub(o.proof_size) }
	}
	pub const fn saturating_mul(self, n: u64) -> Self {
		Weight { ref_time: self.ref_time.saturating_mul(n), proof_size: self.proof_size.saturating_mul(n) }
	}
	pub const fn saturating_div(self, n: u64) -> Self {
		Weight { ref_time: self.ref_time / n, proof_size: self.proof_size / n }
	}
	pub const fn set_proof_size(mut self, c: u64) -> Self {
		self.proof_size = c;
		self
	}
	pub const fn any_gt(self, o: Self) -> bool {
		self.ref_time > o.ref_time || self.proof_size > o.proof_size
	}
	pub const fn all_lte(self, o: Self) -> bool {
		self.ref_time <= o.ref_time && self.proof_size <= o.proof_size
	}
	pub const fn div(self, n: u64) -> Self {
		Weight { ref_time: self.ref_time / n, proof_size: self.proof_size / n }
	}
}
impl core::ops::Add for Weight {
	type Output = Weight;
	fn add(self, o: Weight) -> Weight {
		Weight { ref_time: self.ref_time + o.ref_time, proof_size: self.proof_size + o.proof_size }
	}
}
impl core::ops::Mul<sp_runtime::Perbill> for Weight {
	type Output = Weight;
	fn mul(self, p: sp_runtime::Perbill) -> Weight {
		Weight { ref_time: p * self.ref_time, proof_size: p * self.proof_size }
	}
}

impl core::ops::Mul<Weight> for sp_runtime::Perbill {
	type Output = Weight;
	fn mul(self, w: Weight) -> Weight {
		w * self
	}
}
impl core::ops::Sub for Weight {
	type Output = Weight;
	fn sub(self, o: Weight) -> Weight {
		Weight { ref_time: self.ref_time - o.ref_time, proof_size: self.proof_size - o.proof_size }
	}
}
pub struct ConstantMultiplier<B, M>(core::marker::PhantomData<(B, M)>);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct RuntimeDbWeight {
	pub read: u64,
	pub write: u64,
}
impl RuntimeDbWeight {
	pub const fn reads(self, n: u64) -> Weight {
		Weight::from_parts(self.read.saturating_mul(n), 0)
	}
	pub const fn writes(self, n: u64) -> Weight {
		Weight::from_parts(self.write.saturating_mul(n), 0)
	}
	pub const fn reads_writes(self, r: u64, w: u64) -> Weight {
		Weight::from_parts(self.read.saturating_mul(r).saturating_add(self.write.saturating_mul(w)), 0)
	}
}
pub mod constants {
	use super::*;
	pub const WEIGHT_REF_TIME_PER_SECOND: u64 = 1_000_000_000_000;
	pub const WEIGHT_REF_TIME_PER_MILLIS: u64 = 1_000_000_000;
	pub const WEIGHT_REF_TIME_PER_MICROS: u64 = 1_000_000;
	pub const WEIGHT_REF_TIME_PER_NANOS: u64 = 1_000;
	pub const WEIGHT_PROOF_SIZE_PER_MB: u64 = 1024 * 1024;
	pub const WEIGHT_PROOF_SIZE_PER_KB: u64 = 1024;
	pub struct RocksDbWeight;
	impl Get<RuntimeDbWeight> for RocksDbWeight {
		fn get() -> RuntimeDbWeight {
			RuntimeDbWeight { read: 25_000_000, write: 100_000_000 }
		}
	}
	pub struct ParityDbWeight;
	impl Get<RuntimeDbWeight> for ParityDbWeight {
		fn get() -> RuntimeDbWeight {
			RuntimeDbWeight { read: 8_000_000, write: 50_000_000 }
		}
	}
	pub struct ExtrinsicBaseWeight;
	impl Get<Weight> for ExtrinsicBaseWeight {
		fn get() -> Weight {
			Weight::from_parts(125_000_000, 0)
		}
	}
	impl ExtrinsicBaseWeight {
		pub const fn get() -> Weight {
			Weight::from_parts(125_000_000, 0)
		}
	}
	pub struct BlockExecutionWeight;
	impl BlockExecutionWeight {
		pub const fn get() -> Weight {
			Weight::from_parts(5_000_000_000, 0)
		}
	}
}
pub use constants::*;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct WeightToFeeCoefficient<B> {
	pub coeff_integer: B,
	pub coeff_frac: sp_runtime::Perbill,
	pub negative: bool,
	pub degree: u8,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FeePolynomial<B>(pub WeightToFeeCoefficients<B>);
pub type WeightToFeeCoefficients<B> = smallvec::SmallVec<WeightToFeeCoefficient<B>>;
pub trait WeightToFeePolynomial {
	type Balance: AtLeast32BitUnsigned + Copy;
	fn polynomial() -> WeightToFeeCoefficients<Self::Balance>;
}
pub trait WeightToFee {
	type Balance;
	fn weight_to_fee(w: &Weight) -> Self::Balance;
}
impl<T: WeightToFeePolynomial> WeightToFee for T {
	type Balance = T::Balance;
	fn weight_to_fee(w: &Weight) -> T::Balance {
		FeePolynomial(T::polynomial()).eval(w.ref_time())
	}
}
#[cfg(kani)]
static mut LAST: Option<(u128, u128, u128)> = None;
/// `a * b`, saturating; spares the verifier the overflow case where there is none.
fn times<B: AtLeast32BitUnsigned + Copy>(a: B, b: B) -> B {
	let (x, y): (u128, u128) = (a.unique_saturated_into(), b.unique_saturated_into());
	if x <= u32::MAX as u128 && y <= u64::MAX as u128 {
		let p = x.wrapping_mul(y);
		// multiplying by the same number keeps the order
		#[cfg(kani)]
		unsafe {
			if let Some((a, b, q)) = LAST {
				nd::assume(a != x || (b > y || q <= p) && (b < y || q >= p));
			}
			if x != 0 {
				LAST = Some((x, y, p));
			}
		}
		return B::unique_saturated_from(p);
	}
	a.saturating_mul(b)
}
impl<B: AtLeast32BitUnsigned + Copy> FeePolynomial<B> {
	/// Degree-one polynomials only (all that is used here): `Σ coeff * x`, saturating.
	pub fn eval<N: SaturatedConversion + Copy + Into<u128>>(&self, x: N) -> B {
		let mut acc = B::zero();
		let mut i = 0;
		while i < self.0.len() {
			let a = self.0.at(i);
			nd::model_gap!(a.degree == 1 && !a.negative, "weight to fee polynomial of a shape the model does not cover");
			let w: B = B::unique_saturated_from(x.into());
			acc = acc.saturating_add(a.coeff_frac * w).saturating_add(times(a.coeff_integer, w));
			i += 1;
		}
		acc
	}
}
impl<B> From<WeightToFeeCoefficients<B>> for FeePolynomial<B> {
	fn from(v: WeightToFeeCoefficients<B>) -> Self {
		FeePolynomial(v)
	}
}
