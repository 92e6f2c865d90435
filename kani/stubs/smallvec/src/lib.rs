//! The one use made of smallvec: a list of at most two elements, kept in place.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SmallVec<T>(pub [Option<T>; 2]);
impl<T> SmallVec<T> {
	pub fn len(&self) -> usize {
		match &self.0 {
			[None, _] => 0,
			[_, None] => 1,
			_ => 2,
		}
	}
	pub fn at(&self, i: usize) -> &T {
		match &self.0[i] {
			Some(t) => t,
			None => panic!("out of range"),
		}
	}
}
#[macro_export]
macro_rules! smallvec {
	() => { $crate::SmallVec([None, None]) };
	($a:expr $(,)?) => { $crate::SmallVec([Some($a), None]) };
	($a:expr, $b:expr $(,)?) => { $crate::SmallVec([Some($a), Some($b)]) };
}
