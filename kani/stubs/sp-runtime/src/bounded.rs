//! `BoundedVec`: a vector whose length never exceeds `S::get()`.
//!
//! Contents live in leaked memory that is never changed after construction, so values can be copied bit by bit.
use crate::traits::Get;
use core::marker::PhantomData;
use parity_scale_codec::{Decode, Encode, EncodeLike, Error, Input, MaxEncodedLen, Output};
use scale_info::{Type, TypeInfo};

pub struct BoundedVec<T, S>(*const T, usize, PhantomData<S>);
unsafe impl<T: Send, S> Send for BoundedVec<T, S> {}
unsafe impl<T: Sync, S> Sync for BoundedVec<T, S> {}

impl<T, S> BoundedVec<T, S> {
	fn wrap(v: Vec<T>) -> Self {
		if v.is_empty() {
			return Self::new();
		}
		let s = v.leak();
		BoundedVec(s.as_ptr(), s.len(), PhantomData)
	}
	fn unwrap(&self) -> Vec<T> {
		let mut v = Vec::with_capacity(self.1);
		let mut i = 0;
		while i < self.1 {
			v.push(unsafe { core::ptr::read(self.0.add(i)) });
			i += 1;
		}
		v
	}
	/// Model access for harnesses: contents in memory the harness never changes again.
	pub const fn from_static(s: &'static [T]) -> Self {
		BoundedVec(s.as_ptr(), s.len(), PhantomData)
	}
	pub const fn new() -> Self {
		BoundedVec(core::ptr::NonNull::dangling().as_ptr(), 0, PhantomData)
	}
	pub fn as_slice(&self) -> &[T] {
		unsafe { core::slice::from_raw_parts(self.0, self.1) }
	}
	pub fn into_inner(self) -> Vec<T> {
		self.unwrap()
	}
	pub fn to_vec(self) -> Vec<T> {
		self.unwrap()
	}
	pub fn clear(&mut self) {
		*self = Self::new()
	}
	fn edit<R>(&mut self, f: impl FnOnce(&mut Vec<T>) -> R) -> R {
		let mut v = self.unwrap();
		let r = f(&mut v);
		*self = Self::wrap(v);
		r
	}
	pub fn iter_mut(&mut self) -> core::slice::IterMut<'_, T> {
		*self = Self::wrap(self.unwrap());
		unsafe { core::slice::from_raw_parts_mut(self.0 as *mut T, self.1) }.iter_mut()
	}
	pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) {
		self.edit(|v| v.retain(f))
	}
	pub fn truncate(&mut self, n: usize) {
		self.edit(|v| v.truncate(n))
	}
	pub fn pop(&mut self) -> Option<T> {
		self.edit(|v| v.pop())
	}
	pub fn remove(&mut self, i: usize) -> T {
		self.edit(|v| v.remove(i))
	}
	pub fn swap_remove(&mut self, i: usize) -> T {
		self.edit(|v| v.swap_remove(i))
	}
}
impl<T, S: Get<u32>> BoundedVec<T, S> {
	pub fn bound() -> usize {
		S::get() as usize
	}
	pub fn is_full(&self) -> bool {
		self.1 >= Self::bound()
	}
	pub fn with_bounded_capacity(_: usize) -> Self {
		Self::new()
	}
	pub fn try_push(&mut self, t: T) -> Result<(), T> {
		if self.1 < Self::bound() {
			self.edit(|v| v.push(t));
			Ok(())
		} else {
			Err(t)
		}
	}
	pub fn force_push(&mut self, t: T) {
		self.try_push(t).unwrap_or_else(|_| panic!("BoundedVec full"))
	}
	pub fn try_insert(&mut self, i: usize, t: T) -> Result<(), T> {
		if self.1 < Self::bound() {
			self.edit(|v| v.insert(i, t));
			Ok(())
		} else {
			Err(t)
		}
	}
	pub fn truncate_from(mut v: Vec<T>) -> Self {
		v.truncate(Self::bound());
		Self::wrap(v)
	}
	pub fn try_append(&mut self, o: &mut Vec<T>) -> Result<(), ()> {
		if o.len().saturating_add(self.1) > Self::bound() {
			Err(())
		} else {
			self.edit(|v| v.append(o));
			Ok(())
		}
	}
	pub fn try_collect_from(v: Vec<T>) -> Result<Self, Vec<T>> {
		Self::try_from(v)
	}
}
impl<T, S: Get<u32>> TryFrom<Vec<T>> for BoundedVec<T, S> {
	type Error = Vec<T>;
	fn try_from(v: Vec<T>) -> Result<Self, Vec<T>> {
		if v.len() <= Self::bound() {
			Ok(Self::wrap(v))
		} else {
			Err(v)
		}
	}
}
impl<T, S> From<BoundedVec<T, S>> for Vec<T> {
	fn from(b: BoundedVec<T, S>) -> Vec<T> {
		b.unwrap()
	}
}
impl<T, S> Default for BoundedVec<T, S> {
	fn default() -> Self {
		Self::new()
	}
}
impl<T: Clone, S> Clone for BoundedVec<T, S> {
	fn clone(&self) -> Self {
		BoundedVec(self.0, self.1, PhantomData)
	}
}
impl<T: core::fmt::Debug, S> core::fmt::Debug for BoundedVec<T, S> {
	fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
		self.as_slice().fmt(f)
	}
}
impl<T: PartialEq, A, B> PartialEq<BoundedVec<T, B>> for BoundedVec<T, A> {
	fn eq(&self, o: &BoundedVec<T, B>) -> bool {
		if self.1 != o.1 {
			return false;
		}
		if self.0 == o.0 {
			return true;
		}
		let (a, b) = (self.as_slice(), o.as_slice());
		let mut i = 0;
		let mut same = true;
		while i < a.len() {
			same &= a[i] == b[i];
			i += 1;
		}
		same
	}
}
impl<T: Eq, S> Eq for BoundedVec<T, S> {}
impl<T: PartialOrd, S> PartialOrd for BoundedVec<T, S> {
	fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> {
		self.as_slice().partial_cmp(o.as_slice())
	}
}
impl<T: Ord, S> Ord for BoundedVec<T, S> {
	fn cmp(&self, o: &Self) -> core::cmp::Ordering {
		self.as_slice().cmp(o.as_slice())
	}
}
impl<T, S> core::ops::Deref for BoundedVec<T, S> {
	type Target = [T];
	fn deref(&self) -> &[T] {
		self.as_slice()
	}
}
impl<T, S> AsRef<[T]> for BoundedVec<T, S> {
	fn as_ref(&self) -> &[T] {
		self.as_slice()
	}
}
impl<T, S> IntoIterator for BoundedVec<T, S> {
	type Item = T;
	type IntoIter = std::vec::IntoIter<T>;
	fn into_iter(self) -> Self::IntoIter {
		self.unwrap().into_iter()
	}
}
impl<'a, T, S> IntoIterator for &'a BoundedVec<T, S> {
	type Item = &'a T;
	type IntoIter = core::slice::Iter<'a, T>;
	fn into_iter(self) -> Self::IntoIter {
		self.as_slice().iter()
	}
}
impl<T: Encode, S> Encode for BoundedVec<T, S> {
	fn encode_to<O: Output + ?Sized>(&self, o: &mut O) {
		self.as_slice().encode_to(o)
	}
}
impl<T: Encode, S> EncodeLike for BoundedVec<T, S> {}
impl<T: Decode, S: Get<u32>> Decode for BoundedVec<T, S> {
	fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
		Self::try_from(Vec::<T>::decode(i)?).map_err(|_| "BoundedVec exceeds its limit".into())
	}
}
impl<T: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for BoundedVec<T, S> {
	fn max_encoded_len() -> usize {
		5 + S::get() as usize * T::max_encoded_len()
	}
}
impl<T: TypeInfo + 'static, S: 'static> TypeInfo for BoundedVec<T, S> {
	type Identity = Vec<T>;
	fn type_info() -> Type {
		<Vec<T> as TypeInfo>::type_info()
	}
}

#[macro_export]
macro_rules! bounded_vec {
	($($x:expr),* $(,)?) => { $crate::BoundedVec::try_from(vec![$($x),*]).unwrap_or_else(|_| panic!("bounded")) };
}
