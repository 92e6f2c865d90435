//! Contract vocabulary shared by all harnesses.
//!
//! The same harness source is used in three modes:
//! * under the verifier (`cfg(kani)`): inputs are symbolic, `req!` assumes, `ens!` is a proof obligation;
//! * replay: inputs are read back from a verifier counterexample, `ens!` is a run-time check;
//! * search: inputs are drawn from a seeded boundary-biased generator, `ens!` is a run-time check.
#![allow(static_mut_refs)]

pub trait Any: Sized {
	fn any() -> Self;
}

#[cfg(kani)]
mod imp {
	macro_rules! prim { ($($t:ty),*) => { $(impl super::Any for $t { #[inline(always)] fn any() -> Self { kani::any() } })* } }
	prim!(u8, u16, u32, u64, u128, usize, bool, i32, i64);
	#[inline(always)]
	pub fn assume(b: bool) {
		kani::assume(b)
	}
	pub const SYMBOLIC: bool = true;
}

#[cfg(not(kani))]
mod imp {
	use std::cell::RefCell;
	pub enum Src {
		None,
		Replay { vals: Vec<Vec<u8>>, pos: usize },
		Search { state: u64, log: Vec<Vec<u8>> },
	}
	thread_local! { pub static SRC: RefCell<Src> = const { RefCell::new(Src::None) }; }
	/// Raised (by panic payload) when an assumption does not hold for the concrete input at hand.
	pub struct Infeasible;

	fn next(state: &mut u64) -> u64 {
		*state = state.wrapping_add(0x9E37_79B9_7F4A_7C15);
		let mut z = *state;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
		z ^ (z >> 31)
	}

	pub fn bytes(n: usize) -> Vec<u8> {
		SRC.with(|s| match &mut *s.borrow_mut() {
			Src::None => vec![0; n],
			Src::Replay { vals, pos } => {
				let v = vals.get(*pos).cloned().unwrap_or_else(|| vec![0; n]);
				*pos += 1;
				if v.len() != n {
					std::panic::panic_any(Infeasible);
				}
				v
			}
			Src::Search { state, log } => {
				let kind = next(state) % 8;
				let wide = (next(state) as u128) << 64 | next(state) as u128;
				let bits = n as u32 * 8;
				let mask = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
				let v = match kind {
					0 => wide % 4,
					1 => wide % 256,
					2 => mask - (wide % 3),
					3 => wide & mask,
					4 => 1u128 << (wide % bits as u128),
					5 => (wide & mask) >> (next(state) as u32 % bits),
					6 => wide % 2,
					_ => wide % 1000,
				} & mask;
				let v = v.to_le_bytes()[..n].to_vec();
				log.push(v.clone());
				v
			}
		})
	}
	macro_rules! prim { ($($t:ty),*) => { $(impl super::Any for $t {
		fn any() -> Self { <$t>::from_le_bytes(bytes(core::mem::size_of::<$t>()).try_into().unwrap()) }
	})* } }
	prim!(u8, u16, u32, u64, u128, usize, i32, i64);
	impl super::Any for bool {
		fn any() -> Self {
			bytes(1)[0] & 1 == 1
		}
	}
	pub fn assume(b: bool) {
		if !b {
			std::panic::panic_any(Infeasible)
		}
	}
	pub const SYMBOLIC: bool = false;
}
pub use imp::*;

#[inline(always)]
pub fn any<T: Any>() -> T {
	T::any()
}

/// `0 <= r < n`
#[inline(always)]
pub fn below(n: u8) -> u8 {
	let r: u8 = any();
	#[cfg(not(kani))]
	let r = narrow(r as u64, 1, |r| r % n as u64) as u8;
	assume(r < n);
	r
}

/// Any 64-bit id; a native search draws it from few values around `base` so that ids coincide.
#[inline(always)]
pub fn id64(_base: u64) -> u64 {
	let r: u64 = any();
	#[cfg(not(kani))]
	let r = narrow(r, 8, |r| _base - 2 + r % 6);
	r
}

/// Any 32-bit id; a native search draws it from few values around `base`.
#[inline(always)]
pub fn id32(_base: u32) -> u32 {
	let r: u32 = any();
	#[cfg(not(kani))]
	let r = narrow(r as u64, 4, |r| _base as u64 - 2 + r % 6) as u32;
	r
}
/// Any 64-bit number; a native search keeps to the given one.
#[inline(always)]
pub fn few64(_keep: u64) -> u64 {
	let r: u64 = any();
	#[cfg(not(kani))]
	let r = narrow(r, 8, |_| _keep);
	r
}

/// In a native search: replaces the value just drawn.
#[cfg(not(kani))]
fn narrow(r: u64, bytes: usize, f: impl Fn(u64) -> u64) -> u64 {
	SRC.with(|s| match &mut *s.borrow_mut() {
		Src::Search { log, .. } => {
			let v = f(r);
			*log.last_mut().unwrap() = v.to_le_bytes()[..bytes].to_vec();
			v
		}
		_ => r,
	})
}

impl<T: Any, const N: usize> Any for [T; N] {
	#[inline(always)]
	fn any() -> Self {
		core::array::from_fn(|_| T::any())
	}
}
impl<T: Any> Any for Option<T> {
	fn any() -> Self {
		if bool::any() {
			Some(T::any())
		} else {
			None
		}
	}
}
impl<A: Any, B: Any> Any for (A, B) {
	fn any() -> Self {
		(A::any(), B::any())
	}
}

/// Precondition.
#[macro_export]
macro_rules! req {
	($e:expr) => {
		$crate::assume($e)
	};
}

/// Postcondition / frame condition: one proof obligation, named.
#[macro_export]
macro_rules! ens {
	($e:expr, $name:literal) => {{
		#[cfg(kani)]
		kani::assert($e, concat!("ENS ", $name));
		#[cfg(not(kani))]
		{
			if !$e {
				panic!(concat!("ENS ", $name));
			}
		}
	}};
}

/// Non-vacuity: this point has to be reachable with `$e`.
#[macro_export]
macro_rules! reach {
	($e:expr, $name:literal) => {{
		#[cfg(kani)]
		kani::cover($e, concat!("REACH ", $name));
		#[cfg(not(kani))]
		{
			let _ = $e;
		}
	}};
}

/// The dependency model does not cover what the code under proof asks of it: an error of the check, not an alarm.
#[macro_export]
macro_rules! model_gap {
	($e:expr, $name:literal) => {{
		#[cfg(kani)]
		kani::assert($e, concat!("MODEL-GAP ", $name));
		#[cfg(not(kani))]
		{
			if !$e {
				panic!(concat!("MODEL-GAP ", $name));
			}
		}
	}};
}

/// Declares the harnesses of a crate: `#[kani::proof]` functions under the verifier and a name table natively.
#[macro_export]
macro_rules! harnesses {
	($( $(#[$m:meta])* $name:ident => $body:expr; )*) => {
		$(
			#[cfg(kani)]
			#[kani::proof]
			$(#[$m])*
			fn $name() { $body }
		)*
		#[cfg(not(kani))]
		pub const TABLE: &[(&str, fn())] = &[ $( (stringify!($name), || $body ) ),* ];
	};
}

/// Native driver: `replay <harness> file <hexfile>` or `replay <harness> search <seed> <seconds> <out>`.
/// Exit 1: contract broken by a concrete input; 0: held; 3: input infeasible; 4: model gap.
#[cfg(not(kani))]
pub fn driver(tables: &[&[(&str, fn())]], reset: fn()) -> ! {
	use std::panic;
	let args: Vec<String> = std::env::args().collect();
	let name = &args[1];
	let f = tables.iter().flat_map(|t| t.iter()).find(|(n, _)| n == name).expect("no such harness").1;
	panic::set_hook(Box::new(|_| {}));
	let run = |src: Src| -> (i32, String, Src) {
		SRC.with(|s| *s.borrow_mut() = src);
		reset();
		let r = panic::catch_unwind(f);
		let src = SRC.with(|s| core::mem::replace(&mut *s.borrow_mut(), Src::None));
		match r {
			Ok(()) => (0, String::new(), src),
			Err(p) => {
				if p.downcast_ref::<Infeasible>().is_some() {
					return (3, "infeasible".into(), src);
				}
				let m = p
					.downcast_ref::<String>()
					.cloned()
					.or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
					.unwrap_or_else(|| "panic".into());
				(if m.contains("MODEL-GAP") { 4 } else { 1 }, m, src)
			}
		}
	};
	let hex = |v: &Vec<u8>| v.iter().map(|b| format!("{b:02x}")).collect::<String>();
	match args[2].as_str() {
		"file" => {
			let vals = std::fs::read_to_string(&args[3])
				.unwrap()
				.lines()
				.filter(|l| !l.starts_with('#') && !l.trim().is_empty())
				.map(|l| (0..l.trim().trim_matches('-').len() / 2).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap()).collect())
				.collect();
			let (c, m, _) = run(Src::Replay { vals, pos: 0 });
			println!("{name}: exit {c} {m}");
			std::process::exit(c)
		}
		"search" => {
			let seed: u64 = args[3].parse().unwrap();
			let secs: u64 = args[4].parse().unwrap();
			let t = std::time::Instant::now();
			let (mut i, mut feasible) = (0u64, 0u64);
			while t.elapsed().as_secs() < secs {
				i += 1;
				let (c, m, src) = run(Src::Search { state: seed.wrapping_mul(0x1000_0001).wrapping_add(i << 20), log: vec![] });
				if c != 3 {
					feasible += 1;
				}
				if c == 1 {
					if let Src::Search { log, .. } = src {
						let body: String = log.iter().map(|v| hex(v) + "\n").collect();
						std::fs::write(&args[5], format!("# {name}: {m}\n{body}")).unwrap();
					}
					println!("{name}: {m} (run {i}, {feasible} feasible)");
					std::process::exit(1)
				}
			}
			println!("{name}: {i} runs, {feasible} feasible, nothing found");
			std::process::exit(0)
		}
		_ => panic!("mode"),
	}
}
