//! sp-std as used by the code under proof. `BTreeMap` is a sorted association list (same contract, verifier-friendly).
pub use std::{borrow, boxed, cell, clone, cmp, convert, default, fmt, iter, marker, mem, num, ops, ptr, rc, result, slice, str};
pub mod prelude {
	pub use std::boxed::Box;
	pub use std::clone::Clone;
	pub use std::cmp::{Eq, PartialEq};
	pub use std::iter::IntoIterator;
	pub use crate::vec;
	pub use crate::vec::Vec;
}
pub mod alloc {
	pub use crate::vec;
	pub use std::borrow;
	pub use std::format;
	pub use std::string;
}
#[cfg(kani)]
#[macro_export]
#[doc(hidden)]
macro_rules! model_vec {
	() => { $crate::vec::Vec::new() };
	($x:expr; $n:expr) => { $crate::vec::Vec::from(::std::vec![$x; $n]) };
	($($x:expr),+ $(,)?) => { { let mut v = $crate::vec::Vec::new(); $( v.push($x); )+ v } };
}
#[cfg(kani)]
pub use model_vec as vec;
#[cfg(not(kani))]
pub use std::vec;
/// `Vec` with room for a few elements without drop glue, in memory that is never freed. Native runs use the real one.
#[cfg(kani)]
pub mod vec {
	use core::mem::MaybeUninit;
	use core::ops::{Deref, DerefMut};
	pub use crate::model_vec as vec;
	pub const CAP: usize = 4;
	static mut PROVIDED: [(usize, *mut u8); 8] = [(0, core::ptr::null_mut()); 8];
	/// Memory of the right type for one vector: what is kept there stays concrete for the verifier.
	pub fn provide<T>(slot: usize, at: *mut [T; CAP]) {
		unsafe { PROVIDED[slot] = (core::mem::size_of::<T>(), at as *mut u8) }
	}
	fn provided(size: usize) -> *mut u8 {
		let mut i = 0;
		while i < 8 {
			let (s, at) = unsafe { PROVIDED[i] };
			if s == size && size != 0 {
				unsafe { PROVIDED[i] = (0, core::ptr::null_mut()) };
				return at;
			}
			i += 1;
		}
		core::ptr::null_mut()
	}
	pub struct Vec<T> {
		p: *mut T,
		n: usize,
	}
	unsafe impl<T: Send> Send for Vec<T> {}
	unsafe impl<T: Sync> Sync for Vec<T> {}
	impl<T> Vec<T> {
		pub fn new() -> Self {
			let at = provided(core::mem::size_of::<T>());
			if !at.is_null() {
				return Vec { p: at as *mut T, n: 0 };
			}
			let b: Box<[MaybeUninit<T>; CAP]> = Box::new([const { MaybeUninit::uninit() }; CAP]);
			Vec { p: Box::into_raw(b) as *mut T, n: 0 }
		}
		pub fn with_capacity(_: usize) -> Self {
			Self::new()
		}
		pub fn push(&mut self, t: T) {
			nd::model_gap!(self.n < CAP, "vector model is out of room");
			nd::model_gap!(!core::mem::needs_drop::<T>(), "vector model holds values with drop glue");
			unsafe { core::ptr::write(self.p.add(self.n), t) };
			self.n += 1;
		}
		pub fn pop(&mut self) -> Option<T> {
			if self.n == 0 {
				return None;
			}
			self.n -= 1;
			Some(unsafe { core::ptr::read(self.p.add(self.n)) })
		}
		pub fn insert(&mut self, i: usize, t: T) {
			assert!(i <= self.n);
			let mut j = self.n;
			nd::model_gap!(j < CAP, "vector model is out of room");
			while j > i {
				unsafe { core::ptr::write(self.p.add(j), core::ptr::read(self.p.add(j - 1))) };
				j -= 1;
			}
			unsafe { core::ptr::write(self.p.add(i), t) };
			self.n += 1;
		}
		pub fn remove(&mut self, i: usize) -> T {
			assert!(i < self.n);
			let r = unsafe { core::ptr::read(self.p.add(i)) };
			let mut j = i;
			while j + 1 < self.n {
				unsafe { core::ptr::write(self.p.add(j), core::ptr::read(self.p.add(j + 1))) };
				j += 1;
			}
			self.n -= 1;
			r
		}
		pub fn clear(&mut self) {
			self.n = 0
		}
		pub fn truncate(&mut self, n: usize) {
			if n < self.n {
				self.n = n
			}
		}
		pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) {
			let (mut i, mut k) = (0, 0);
			while i < self.n {
				let x = unsafe { core::ptr::read(self.p.add(i)) };
				if f(&x) {
					unsafe { core::ptr::write(self.p.add(k), x) };
					k += 1;
				}
				i += 1;
			}
			self.n = k;
		}
		pub fn append(&mut self, o: &mut Self) {
			let mut i = 0;
			while i < o.n {
				self.push(unsafe { core::ptr::read(o.p.add(i)) });
				i += 1;
			}
			o.n = 0;
		}
		pub fn extend_from_slice(&mut self, o: &[T])
		where
			T: Clone,
		{
			let mut i = 0;
			while i < o.len() {
				self.push(o[i].clone());
				i += 1;
			}
		}
		/// Counts positions: the verifier does not decide comparisons of pointers into heap memory.
		pub fn iter(&self) -> Iter<'_, T> {
			Iter { p: self.p, i: 0, n: self.n, of: core::marker::PhantomData }
		}
		pub fn as_slice(&self) -> &[T] {
			self
		}
		pub fn capacity(&self) -> usize {
			CAP
		}
		pub fn reserve(&mut self, _: usize) {}
	}
	pub struct Iter<'a, T> {
		p: *const T,
		i: usize,
		n: usize,
		of: core::marker::PhantomData<&'a T>,
	}
	impl<T> Clone for Iter<'_, T> {
		fn clone(&self) -> Self {
			Iter { p: self.p, i: self.i, n: self.n, of: core::marker::PhantomData }
		}
	}
	impl<'a, T> Iterator for Iter<'a, T> {
		type Item = &'a T;
		fn next(&mut self) -> Option<&'a T> {
			if self.i < self.n {
				self.i += 1;
				Some(unsafe { &*self.p.add(self.i - 1) })
			} else {
				None
			}
		}
		fn size_hint(&self) -> (usize, Option<usize>) {
			(self.n - self.i, Some(self.n - self.i))
		}
		fn fold<B, F: FnMut(B, &'a T) -> B>(self, init: B, mut f: F) -> B {
			let mut acc = init;
			let mut i = self.i;
			while i < self.n {
				acc = f(acc, unsafe { &*self.p.add(i) });
				i += 1;
			}
			acc
		}
	}
	impl<'a, T> DoubleEndedIterator for Iter<'a, T> {
		fn next_back(&mut self) -> Option<&'a T> {
			if self.i < self.n {
				self.n -= 1;
				Some(unsafe { &*self.p.add(self.n) })
			} else {
				None
			}
		}
	}
	impl<T> ExactSizeIterator for Iter<'_, T> {}
	impl<T> Deref for Vec<T> {
		type Target = [T];
		fn deref(&self) -> &[T] {
			unsafe { core::slice::from_raw_parts(self.p, self.n) }
		}
	}
	impl<T> DerefMut for Vec<T> {
		fn deref_mut(&mut self) -> &mut [T] {
			unsafe { core::slice::from_raw_parts_mut(self.p, self.n) }
		}
	}
	impl<T> AsRef<[T]> for Vec<T> {
		fn as_ref(&self) -> &[T] {
			self
		}
	}
	impl<T> core::borrow::Borrow<[T]> for Vec<T> {
		fn borrow(&self) -> &[T] {
			self
		}
	}
	impl<T> Default for Vec<T> {
		fn default() -> Self {
			Self::new()
		}
	}
	impl<T: Clone> Clone for Vec<T> {
		fn clone(&self) -> Self {
			let mut v = Self::new();
			v.extend_from_slice(self);
			v
		}
	}
	impl<T: core::fmt::Debug> core::fmt::Debug for Vec<T> {
		fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
			f.debug_list().entries(self.iter()).finish()
		}
	}
	impl<T: PartialEq> PartialEq for Vec<T> {
		fn eq(&self, o: &Self) -> bool {
			self[..] == o[..]
		}
	}
	impl<T: Eq> Eq for Vec<T> {}
	impl<T> From<std::vec::Vec<T>> for Vec<T> {
		fn from(v: std::vec::Vec<T>) -> Self {
			v.into_iter().collect()
		}
	}
	impl<T> From<Vec<T>> for std::vec::Vec<T> {
		fn from(v: Vec<T>) -> Self {
			v.into_iter().collect()
		}
	}
	impl<T: Clone> From<&[T]> for Vec<T> {
		fn from(v: &[T]) -> Self {
			let mut r = Self::new();
			r.extend_from_slice(v);
			r
		}
	}
	impl<T, const N: usize> From<[T; N]> for Vec<T> {
		fn from(v: [T; N]) -> Self {
			v.into_iter().collect()
		}
	}
	pub struct IntoIter<T> {
		v: Vec<T>,
		i: usize,
	}
	impl<T> Iterator for IntoIter<T> {
		type Item = T;
		fn next(&mut self) -> Option<T> {
			if self.i < self.v.n {
				self.i += 1;
				Some(unsafe { core::ptr::read(self.v.p.add(self.i - 1)) })
			} else {
				None
			}
		}
		fn size_hint(&self) -> (usize, Option<usize>) {
			(self.v.n - self.i, Some(self.v.n - self.i))
		}
		fn fold<B, F: FnMut(B, T) -> B>(mut self, init: B, mut f: F) -> B {
			let mut acc = init;
			while self.i < self.v.n {
				acc = f(acc, unsafe { core::ptr::read(self.v.p.add(self.i)) });
				self.i += 1;
			}
			acc
		}
	}
	impl<T> ExactSizeIterator for IntoIter<T> {}
	impl<T> IntoIterator for Vec<T> {
		type Item = T;
		type IntoIter = IntoIter<T>;
		fn into_iter(self) -> IntoIter<T> {
			IntoIter { v: self, i: 0 }
		}
	}
	impl<'a, T> IntoIterator for &'a Vec<T> {
		type Item = &'a T;
		type IntoIter = Iter<'a, T>;
		fn into_iter(self) -> Self::IntoIter {
			self.iter()
		}
	}
	impl<'a, T> IntoIterator for &'a mut Vec<T> {
		type Item = &'a mut T;
		type IntoIter = core::slice::IterMut<'a, T>;
		fn into_iter(self) -> Self::IntoIter {
			self.iter_mut()
		}
	}
	impl<T> Extend<T> for Vec<T> {
		fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
			// `for_each` counts in the iterators above, which keeps lengths concrete for the verifier
			it.into_iter().for_each(|t| self.push(t));
		}
	}
	impl<T> FromIterator<T> for Vec<T> {
		fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
			let mut v = Self::new();
			v.extend(it);
			v
		}
	}
}
pub mod collections {
	#[cfg(kani)]
	pub use self::btree_map::BTreeMap;
	#[cfg(not(kani))]
	pub use std::collections::{btree_map, BTreeMap};
	pub use std::collections::{BTreeSet, VecDeque};
	#[cfg(kani)]
	pub mod btree_map {
		use crate::vec::Vec;
		/// Entries the model has room for.
		pub const CAP: usize = 4;
		/// Sorted list for entries without drop glue; its memory is never freed.
		pub struct BTreeMap<K, V> {
			e: Vec<(K, V)>,
		}
		impl<K, V> Default for BTreeMap<K, V> {
			fn default() -> Self {
				Self::new()
			}
		}
		impl<K: core::fmt::Debug, V: core::fmt::Debug> core::fmt::Debug for BTreeMap<K, V> {
			fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
				f.debug_map().entries(self.iter()).finish()
			}
		}
		impl<K: Clone, V: Clone> Clone for BTreeMap<K, V> {
			fn clone(&self) -> Self {
				BTreeMap { e: self.e.clone() }
			}
		}
		/// One struct for both kinds of entry: a position kept in an enum payload is not concrete for the verifier.
		pub struct Entry<'a, K, V> {
			map: &'a mut BTreeMap<K, V>,
			key: K,
		}
		impl<K, V> BTreeMap<K, V> {
			pub fn new() -> Self {
				BTreeMap { e: Vec::new() }
			}
			fn at(&self, i: usize) -> &(K, V) {
				&self.e[i]
			}
			fn at_mut(&mut self, i: usize) -> &mut (K, V) {
				&mut self.e[i]
			}
			fn open(&mut self, i: usize, k: K, v: V) {
				nd::model_gap!(self.e.len() < CAP, "map model is out of room");
				nd::model_gap!(!core::mem::needs_drop::<(K, V)>(), "map model holds values with drop glue");
				if i == self.e.len() {
					self.e.push((k, v));
				} else {
					self.e.insert(i, (k, v));
				}
			}
			fn cut(&mut self, i: usize) -> (K, V) {
				self.e.remove(i)
			}
			pub fn len(&self) -> usize {
				self.e.len()
			}
			pub fn is_empty(&self) -> bool {
				self.e.is_empty()
			}
			pub fn clear(&mut self) {
				self.e.clear()
			}
			pub fn into_values(self) -> impl Iterator<Item = V> {
				self.into_iter().map(|(_, v)| v)
			}
			pub fn into_keys(self) -> impl Iterator<Item = K> {
				self.into_iter().map(|(k, _)| k)
			}
			fn slice(&self) -> &[(K, V)] {
				&self.e
			}
			fn slice_mut(&mut self) -> &mut [(K, V)] {
				&mut self.e
			}
			pub fn values(&self) -> impl DoubleEndedIterator<Item = &V> {
				self.slice().iter().map(|(_, v)| v)
			}
			pub fn values_mut(&mut self) -> impl DoubleEndedIterator<Item = &mut V> {
				self.slice_mut().iter_mut().map(|(_, v)| v)
			}
			pub fn keys(&self) -> impl DoubleEndedIterator<Item = &K> {
				self.slice().iter().map(|(k, _)| k)
			}
			pub fn iter(&self) -> impl DoubleEndedIterator<Item = (&K, &V)> {
				self.slice().iter().map(|(k, v)| (k, v))
			}
			pub fn iter_mut(&mut self) -> impl DoubleEndedIterator<Item = (&K, &mut V)> {
				self.slice_mut().iter_mut().map(|(k, v)| (&*k, v))
			}
		}
		impl<K: Ord, V> BTreeMap<K, V> {
			fn find(&self, k: &K) -> Result<usize, usize> {
				let mut i = 0;
				while i < self.e.len() {
					match self.at(i).0.cmp(k) {
						core::cmp::Ordering::Equal => return Ok(i),
						core::cmp::Ordering::Greater => return Err(i),
						_ => {}
					}
					i += 1;
				}
				Err(i)
			}
			pub fn get(&self, k: &K) -> Option<&V> {
				match self.find(k) {
					Ok(i) => Some(&self.at(i).1),
					_ => None,
				}
			}
			pub fn get_mut(&mut self, k: &K) -> Option<&mut V> {
				match self.find(k) {
					Ok(i) => Some(&mut self.at_mut(i).1),
					_ => None,
				}
			}
			pub fn contains_key(&self, k: &K) -> bool {
				self.find(k).is_ok()
			}
			pub fn insert(&mut self, k: K, v: V) -> Option<V> {
				match self.find(&k) {
					Ok(i) => Some(core::mem::replace(&mut self.at_mut(i).1, v)),
					Err(i) => {
						self.open(i, k, v);
						None
					}
				}
			}
			pub fn remove(&mut self, k: &K) -> Option<V> {
				match self.find(k) {
					Ok(i) => Some(self.cut(i).1),
					_ => None,
				}
			}
			pub fn entry(&mut self, key: K) -> Entry<'_, K, V> {
				Entry { map: self, key }
			}
		}
		impl<'a, K: Ord, V> Entry<'a, K, V> {
			pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
				let Entry { map, key } = self;
				let mut i = 0;
				while i < map.e.len() {
					match map.at(i).0.cmp(&key) {
						core::cmp::Ordering::Equal => return &mut map.at_mut(i).1,
						core::cmp::Ordering::Greater => break,
						_ => {}
					}
					i += 1;
				}
				map.open(i, key, f());
				&mut map.at_mut(i).1
			}
			pub fn or_insert(self, v: V) -> &'a mut V {
				self.or_insert_with(|| v)
			}
			pub fn or_default(self) -> &'a mut V
			where
				V: Default,
			{
				self.or_insert_with(V::default)
			}
			pub fn key(&self) -> &K {
				&self.key
			}
			pub fn and_modify<F: FnOnce(&mut V)>(self, f: F) -> Self {
				if let Some(v) = self.map.get_mut(&self.key) {
					f(v)
				}
				self
			}
		}
		pub struct IntoIter<K, V> {
			m: BTreeMap<K, V>,
			i: usize,
		}
		impl<K, V> Iterator for IntoIter<K, V> {
			type Item = (K, V);
			fn next(&mut self) -> Option<(K, V)> {
				if self.i < self.m.e.len() {
					let r = unsafe { core::ptr::read(self.m.at(self.i)) };
					self.i += 1;
					Some(r)
				} else {
					None
				}
			}
			fn size_hint(&self) -> (usize, Option<usize>) {
				(self.m.e.len() - self.i, Some(self.m.e.len() - self.i))
			}
			// counts instead of looking for `None`: keeps the number of steps concrete for the verifier
			fn fold<B, F: FnMut(B, (K, V)) -> B>(mut self, init: B, mut f: F) -> B {
				let mut acc = init;
				while self.i < self.m.e.len() {
					acc = f(acc, unsafe { core::ptr::read(self.m.at(self.i)) });
					self.i += 1;
				}
				acc
			}
		}
		impl<K, V> IntoIterator for BTreeMap<K, V> {
			type Item = (K, V);
			type IntoIter = IntoIter<K, V>;
			fn into_iter(self) -> IntoIter<K, V> {
				IntoIter { m: self, i: 0 }
			}
		}
		impl<K: Ord, V> Extend<(K, V)> for BTreeMap<K, V> {
			fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
				for (k, v) in it {
					self.insert(k, v);
				}
			}
		}
		impl<K: Ord, V> FromIterator<(K, V)> for BTreeMap<K, V> {
			fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
				let mut m = Self::new();
				m.extend(it);
				m
			}
		}
	}
}
