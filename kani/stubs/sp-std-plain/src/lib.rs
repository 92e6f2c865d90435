//! sp-std as it is: names of the standard library.
pub use std::{
	borrow, boxed, cell, clone, cmp, collections, convert, default, fmt, iter, marker, mem, num, ops, ptr, rc, result, slice, str, vec,
};
pub mod prelude {
	pub use std::boxed::Box;
	pub use std::clone::Clone;
	pub use std::cmp::{Eq, PartialEq};
	pub use std::iter::IntoIterator;
	// under the verifier `vec!` is its own macro, in scope everywhere
	#[cfg(not(kani))]
	pub use std::vec;
	pub use std::vec::Vec;
}
pub mod alloc {
	pub use std::{borrow, format, string, vec};
}
