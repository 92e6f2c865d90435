//! Contract of the base58 codec (crate bs58 0.5), used under the verifier only; natively the real crate is re-exported.
//!
//! Assumed: encoding is a bijection between byte strings and texts over the base58 alphabet; eight bytes encode to
//! 8..=11 characters; a text of n characters never decodes to more than n bytes; a text with a character
//! outside the alphabet is refused; output that does not fit the buffer is refused.
//! The length and alphabet part for eight bytes is discharged on the real crate by harness `i03_real_base58_length`.
#[cfg(not(kani))]
pub use bs58_real::*;

#[cfg(kani)]
pub use model::*;

#[cfg(kani)]
#[allow(static_mut_refs)]
mod model {
	/// Both sides are kept as at most 16 bytes, zero padded (loop-free comparisons for the verifier).
	pub const MAX: usize = 16;

	#[derive(Clone, Copy)]
	pub struct Pair {
		pub bn: usize,
		pub b: [u8; MAX],
		pub tn: usize,
		pub t: [u8; MAX],
	}
	/// Ghost state: the part of the bijection seen so far.
	pub static mut SEEN: [Option<Pair>; 3] = [None; 3];
	/// Case split: the text length of eight encoded bytes (0: any).
	pub static mut TEXT_LEN: usize = 0;

	macro_rules! each {
		($i:ident, $body:block) => {
			each!(@ $i, $body, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15)
		};
		(@ $i:ident, $body:block, $($n:literal)*) => { $( { let $i: usize = $n; $body } )* };
	}

	fn word(a: &[u8; MAX]) -> u128 {
		u128::from_le_bytes(*a)
	}
	fn same(a: &[u8; MAX], an: usize, b: &[u8; MAX], bn: usize) -> bool {
		an == bn && word(a) == word(b)
	}
	pub fn is_b58(c: u8) -> bool {
		(c >= b'1' && c <= b'9') || (c >= b'A' && c <= b'Z' && c != b'I' && c != b'O') || (c >= b'a' && c <= b'z' && c != b'l')
	}

	#[derive(Debug, Clone, Copy, PartialEq, Eq)]
	pub enum Error {
		BufferTooSmall,
		InvalidCharacter,
	}
	pub mod encode {
		pub use super::{EncodeBuilder, Error};
		pub type Result<T> = core::result::Result<T, Error>;
	}
	pub mod decode {
		pub use super::{DecodeBuilder, Error};
		pub type Result<T> = core::result::Result<T, Error>;
	}

	pub struct EncodeBuilder<I>(I);
	pub struct DecodeBuilder<I>(I);
	pub fn encode<I: AsRef<[u8]>>(i: I) -> EncodeBuilder<I> {
		EncodeBuilder(i)
	}
	pub fn decode<I: AsRef<[u8]>>(i: I) -> DecodeBuilder<I> {
		DecodeBuilder(i)
	}

	pub trait Target {
		fn put(&mut self, src: &[u8; MAX], n: usize) -> Result<usize, Error>;
	}
	fn fill(dst: &mut [u8], src: &[u8; MAX], n: usize) -> Result<usize, Error> {
		if n > dst.len() {
			return Err(Error::BufferTooSmall);
		}
		each!(i, {
			if i < n {
				dst[i] = src[i];
			}
		});
		Ok(n)
	}
	impl Target for &mut [u8] {
		fn put(&mut self, src: &[u8; MAX], n: usize) -> Result<usize, Error> {
			fill(self, src, n)
		}
	}
	impl<const K: usize> Target for &mut [u8; K] {
		fn put(&mut self, src: &[u8; MAX], n: usize) -> Result<usize, Error> {
			fill(&mut self[..], src, n)
		}
	}
	impl Target for &mut Vec<u8> {
		fn put(&mut self, src: &[u8; MAX], n: usize) -> Result<usize, Error> {
			self.extend_from_slice(&src[..n]);
			Ok(n)
		}
	}
	impl Target for &mut String {
		fn put(&mut self, src: &[u8; MAX], n: usize) -> Result<usize, Error> {
			each!(i, {
				if i < n {
					self.push(src[i] as char);
				}
			});
			Ok(n)
		}
	}

	fn slot(k: usize) -> &'static mut Option<Pair> {
		unsafe { &mut SEEN[k] }
	}
	fn apart(p: &Pair, q: &Option<Pair>) {
		if let Some(q) = q {
			nd::assume(same(&p.b, p.bn, &q.b, q.bn) == same(&p.t, p.tn, &q.t, q.tn));
		}
	}
	fn fresh(p: Pair) -> Pair {
		nd::assume(p.tn <= MAX && p.bn <= MAX);
		nd::assume(p.bn <= p.tn);
		nd::assume(p.bn != 8 || (p.tn >= 8 && p.tn <= 11));
		// fewer bytes never need more characters than eight bytes may need
		nd::assume(p.bn >= 8 || p.tn <= 10);
		each!(i, {
			nd::assume(if i < p.tn { is_b58(p.t[i]) } else { p.t[i] == 0 });
			nd::assume(i < p.bn || p.b[i] == 0);
		});
		apart(&p, slot(0));
		apart(&p, slot(1));
		apart(&p, slot(2));
		if slot(0).is_none() {
			*slot(0) = Some(p);
		} else if slot(1).is_none() {
			*slot(1) = Some(p);
		} else {
			nd::model_gap!(slot(2).is_none(), "base58: more than three distinct conversions");
			*slot(2) = Some(p);
		}
		p
	}
	fn load(s: &[u8]) -> ([u8; MAX], usize) {
		let mut o = [0u8; MAX];
		let n = s.len();
		each!(i, {
			if i < n {
				o[i] = s[i];
			}
		});
		(o, n)
	}

	impl<I: AsRef<[u8]>> EncodeBuilder<I> {
		fn text(&self) -> Pair {
			let s = self.0.as_ref();
			nd::model_gap!(s.len() <= MAX, "base58: input longer than the model covers");
			let (b, bn) = load(s);
			let mut k = 0;
			each!(i, {
				if i < 3 {
					if let Some(q) = slot(if i < 3 { i } else { 0 }) {
						if same(&b, bn, &q.b, q.bn) {
							k = i + 1;
						}
					}
				}
			});
			if k != 0 {
				if let Some(q) = slot(k - 1) {
					return *q;
				}
			}
			let tn = if unsafe { TEXT_LEN } != 0 { unsafe { TEXT_LEN } } else { nd::any() };
			fresh(Pair { bn, b, tn, t: nd::any::<u128>().to_le_bytes() })
		}
		pub fn onto(self, mut out: impl Target) -> Result<usize, Error> {
			let p = self.text();
			let n = if unsafe { TEXT_LEN } != 0 { unsafe { TEXT_LEN } } else { p.tn };
			nd::assume(n == p.tn);
			out.put(&p.t, n)
		}
		pub fn into_vec(self) -> Vec<u8> {
			let p = self.text();
			p.t[..p.tn].to_vec()
		}
		pub fn into_string(self) -> String {
			let p = self.text();
			let mut s = String::new();
			let _ = (&mut s).put(&p.t, p.tn);
			s
		}
	}

	impl<I: AsRef<[u8]>> DecodeBuilder<I> {
		fn bytes(&self) -> Result<Pair, Error> {
			let s = self.0.as_ref();
			nd::model_gap!(s.len() <= MAX, "base58: text longer than the model covers");
			let (t, tn) = load(s);
			let mut bad = false;
			each!(i, {
				bad = bad || (i < tn && !is_b58(t[i]));
			});
			if bad {
				return Err(Error::InvalidCharacter);
			}
			let mut k = 0;
			each!(i, {
				if i < 3 {
					if let Some(q) = slot(if i < 3 { i } else { 0 }) {
						if same(&t, tn, &q.t, q.tn) {
							k = i + 1;
						}
					}
				}
			});
			if k != 0 {
				if let Some(q) = slot(k - 1) {
					return Ok(*q);
				}
			}
			Ok(fresh(Pair { bn: nd::any(), b: nd::any::<u128>().to_le_bytes(), tn, t }))
		}
		pub fn onto(self, mut out: impl Target) -> Result<usize, Error> {
			let p = self.bytes()?;
			out.put(&p.b, p.bn)
		}
		pub fn into_vec(self) -> Result<Vec<u8>, Error> {
			let p = self.bytes()?;
			Ok(p.b[..p.bn].to_vec())
		}
	}
}
