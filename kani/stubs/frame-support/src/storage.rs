//! Storage model. A map is a finite table of tracked keys; every key outside of it is absent before the call.
//! Reads of untracked keys give "absent", writes to untracked keys are recorded so that harnesses can state frames.

use crate::traits::Get;
use core::marker::PhantomData;

pub struct Slot {
	ptr: *mut u8,
	#[cfg(not(kani))]
	drop: Option<fn(*mut u8)>,
}
unsafe impl Sync for Slot {}
impl Slot {
	pub const fn new() -> Self {
		Slot {
			ptr: core::ptr::null_mut(),
			#[cfg(not(kani))]
			drop: None,
		}
	}
	/// The cell's content, created by `T::default()` on first use.
	pub fn cell<T: Default + 'static>(this: *mut Slot) -> &'static mut T {
		unsafe {
			let s = &mut *this;
			if s.ptr.is_null() {
				s.ptr = Box::into_raw(Box::new(T::default())) as *mut u8;
				#[cfg(not(kani))]
				{
					s.drop = Some(|p| drop(unsafe { Box::from_raw(p as *mut T) }));
					SLOTS.push(this);
				}
			}
			&mut *(s.ptr as *mut T)
		}
	}
}
impl Slot {
	/// Uses memory provided by the harness (typed statics are much easier on the verifier than heap memory).
	pub fn install<T: 'static>(this: *mut Slot, at: *mut T) {
		unsafe { (*this).ptr = at as *mut u8 };
		#[cfg(not(kani))]
		unsafe {
			SLOTS.push(this)
		};
	}
}
#[cfg(not(kani))]
static mut SLOTS: Vec<*mut Slot> = Vec::new();
/// Forgets all storage (native runs only; a proof starts from fresh memory).
#[cfg(not(kani))]
pub fn reset_all() {
	unsafe {
		let n = SLOTS.len();
		let mut i = 0;
		while i < n {
			let s = &mut *SLOTS[i];
			if let Some(d) = s.drop.take() {
				d(s.ptr);
			}
			s.ptr = core::ptr::null_mut();
			i += 1;
		}
		SLOTS.clear();
	}
}

pub trait Instance {
	fn slot() -> *mut Slot;
}

/// Bitwise copy; only for values without drop glue.
pub fn dup<T>(t: &T) -> T {
	nd::model_gap!(!core::mem::needs_drop::<T>(), "storage model holds a value with drop glue");
	unsafe { core::ptr::read(t) }
}

pub const CAP: usize = 6;
pub struct Entry<K, V> {
	pub key: Option<K>,
	pub val: Option<V>,
}
pub struct Table<K, V> {
	pub e: [Entry<K, V>; CAP],
	pub used: usize,
	pub stray_reads: u32,
	pub stray_writes: u32,
	pub writes: u32,
}
impl<K, V> Table<K, V> {
	pub const fn new() -> Self {
		const fn n<K, V>() -> Entry<K, V> {
			Entry { key: None, val: None }
		}
		Table { e: [n(), n(), n(), n(), n(), n()], used: 0, stray_reads: 0, stray_writes: 0, writes: 0 }
	}
}
impl<K, V> Default for Table<K, V> {
	fn default() -> Self {
		Self::new()
	}
}
impl<K: PartialEq, V> Table<K, V> {
	/// Written without a loop so that harnesses can bound the loops of the code under proof tightly.
	fn find(&self, k: &K) -> Option<usize> {
		macro_rules! at {
			($($i:literal)*) => { $(
				if $i >= self.used {
					return None;
				}
				if matches!(&self.e[$i].key, Some(x) if x == k) {
					return Some($i);
				}
			)* };
		}
		at!(0 1 2 3 4 5);
		None
	}
	/// Declares a key the harness reasons about, with its value before the call.
	pub fn track(&mut self, k: K, v: Option<V>) {
		let i = self.used;
		self.e[i].key = Some(k);
		self.e[i].val = v;
		self.used = i + 1;
	}
	pub fn peek(&self, k: &K) -> Option<V> {
		match self.find(k) {
			Some(i) => self.e[i].val.as_ref().map(dup),
			None => None,
		}
	}
	pub fn read(&mut self, k: &K) -> Option<V> {
		match self.find(k) {
			Some(i) => self.e[i].val.as_ref().map(dup),
			None => {
				self.stray_reads += 1;
				None
			}
		}
	}
	pub fn write(&mut self, k: K, v: Option<V>) {
		self.writes += 1;
		match self.find(&k) {
			Some(i) => self.e[i].val = v,
			None => {
				self.stray_writes += v.is_some() as u32;
				nd::model_gap!(self.used < CAP, "storage model is out of slots");
				self.track(k, v);
			}
		}
	}
}

/// What storage calls accept for a stored type (the role of `EncodeLike`).
pub trait IntoStored<K> {
	fn into_stored(self) -> K;
}
impl<K> IntoStored<K> for K {
	fn into_stored(self) -> K {
		self
	}
}
impl<K> IntoStored<K> for &K {
	fn into_stored(self) -> K {
		dup(self)
	}
}
impl<A, B> IntoStored<(A, B)> for (&A, B) {
	fn into_stored(self) -> (A, B) {
		(dup(self.0), self.1)
	}
}
impl<A, B> IntoStored<(A, B)> for (A, &B) {
	fn into_stored(self) -> (A, B) {
		(self.0, dup(self.1))
	}
}
impl<A, B> IntoStored<(A, B)> for (&A, &B) {
	fn into_stored(self) -> (A, B) {
		(dup(self.0), dup(self.1))
	}
}

pub mod types {
	use super::*;

	pub struct OptionQuery;
	pub struct ValueQuery;
	pub struct ResultQuery<E, G>(PhantomData<(E, G)>);

	pub trait QueryKind<V, OnEmpty> {
		type Query;
		fn from_opt(v: Option<V>) -> Self::Query;
		fn into_opt(q: Self::Query) -> Option<V>;
	}
	impl<V, O> QueryKind<V, O> for OptionQuery {
		type Query = Option<V>;
		fn from_opt(v: Option<V>) -> Option<V> {
			v
		}
		fn into_opt(q: Option<V>) -> Option<V> {
			q
		}
	}
	impl<V, O: Get<V>> QueryKind<V, O> for ValueQuery {
		type Query = V;
		fn from_opt(v: Option<V>) -> V {
			v.unwrap_or_else(O::get)
		}
		fn into_opt(q: V) -> Option<V> {
			Some(q)
		}
	}
	impl<V, O, E, G: Get<E>> QueryKind<V, O> for ResultQuery<E, G> {
		type Query = Result<V, E>;
		fn from_opt(v: Option<V>) -> Result<V, E> {
			match v {
				Some(v) => Ok(v),
				None => Err(G::get()),
			}
		}
		fn into_opt(q: Result<V, E>) -> Option<V> {
			q.ok()
		}
	}
	pub trait Queried {
		type Query;
	}

	pub struct StorageMap<P, H, K, V, Q = OptionQuery, O = crate::traits::GetDefault, M = ()>(PhantomData<(P, H, K, V, Q, O, M)>);
	pub struct StorageDoubleMap<P, H1, K1, H2, K2, V, Q = OptionQuery, O = crate::traits::GetDefault, M = ()>(
		PhantomData<(P, H1, K1, H2, K2, V, Q, O, M)>,
	);
	pub struct StorageValue<P, V, Q = OptionQuery, O = crate::traits::GetDefault>(PhantomData<(P, V, Q, O)>);
	pub type CountedStorageMap<P, H, K, V, Q = OptionQuery, O = crate::traits::GetDefault> = StorageMap<P, H, K, V, Q, O>;

	impl<P, H, K, V, Q: QueryKind<V, O>, O, M> Queried for StorageMap<P, H, K, V, Q, O, M> {
		type Query = Q::Query;
	}
	impl<P, H1, K1, H2, K2, V, Q: QueryKind<V, O>, O, M> Queried for StorageDoubleMap<P, H1, K1, H2, K2, V, Q, O, M> {
		type Query = Q::Query;
	}
	impl<P, V, Q: QueryKind<V, O>, O> Queried for StorageValue<P, V, Q, O> {
		type Query = Q::Query;
	}

	macro_rules! api {
		(($($gen:tt)*) ($($self:tt)*) ($key:ty) ($($kn:ident : $kt:ty),*) ($mk:expr)) => {
			impl<$($gen)*> $($self)* {
				/// Model access for harnesses.
				pub fn table() -> &'static mut Table<$key, V> {
					Slot::cell::<Table<$key, V>>(P::slot())
				}
				pub fn install(at: *mut Table<$key, V>) {
					unsafe { *at = Table::new() };
					Slot::install(P::slot(), at)
				}
				pub fn get($($kn: impl IntoStored<$kt>),*) -> Q::Query {
					Q::from_opt(Self::table().read(&$mk))
				}
				pub fn try_get($($kn: impl IntoStored<$kt>),*) -> Result<V, ()> {
					Self::table().read(&$mk).ok_or(())
				}
				pub fn contains_key($($kn: impl IntoStored<$kt>),*) -> bool {
					Self::table().read(&$mk).is_some()
				}
				pub fn exists($($kn: impl IntoStored<$kt>),*) -> bool {
					Self::table().read(&$mk).is_some()
				}
				pub fn insert($($kn: impl IntoStored<$kt>,)* v: impl IntoStored<V>) {
					Self::table().write($mk, Some(v.into_stored()))
				}
				pub fn put($($kn: impl IntoStored<$kt>,)* v: impl IntoStored<V>) {
					Self::table().write($mk, Some(v.into_stored()))
				}
				pub fn set($($kn: impl IntoStored<$kt>,)* q: Q::Query) {
					Self::table().write($mk, Q::into_opt(q))
				}
				pub fn remove($($kn: impl IntoStored<$kt>),*) {
					Self::table().write($mk, None)
				}
				pub fn kill($($kn: impl IntoStored<$kt>),*) {
					Self::table().write($mk, None)
				}
				pub fn take($($kn: impl IntoStored<$kt>),*) -> Q::Query {
					let k = $mk;
					let v = Self::table().read(&k);
					Self::table().write(k, None);
					Q::from_opt(v)
				}
				pub fn mutate<R, F: FnOnce(&mut Q::Query) -> R>($($kn: impl IntoStored<$kt>,)* f: F) -> R {
					let k = $mk;
					let mut q = Q::from_opt(Self::table().read(&k));
					let r = f(&mut q);
					Self::table().write(k, Q::into_opt(q));
					r
				}
				pub fn try_mutate<R, E, F: FnOnce(&mut Q::Query) -> Result<R, E>>($($kn: impl IntoStored<$kt>,)* f: F) -> Result<R, E> {
					let k = $mk;
					let mut q = Q::from_opt(Self::table().read(&k));
					let r = f(&mut q);
					if r.is_ok() {
						Self::table().write(k, Q::into_opt(q));
					}
					r
				}
				pub fn mutate_exists<R, F: FnOnce(&mut Option<V>) -> R>($($kn: impl IntoStored<$kt>,)* f: F) -> R {
					let k = $mk;
					let mut q = Self::table().read(&k);
					let r = f(&mut q);
					Self::table().write(k, q);
					r
				}
				pub fn try_mutate_exists<R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>($($kn: impl IntoStored<$kt>,)* f: F) -> Result<R, E> {
					let k = $mk;
					let mut q = Self::table().read(&k);
					let r = f(&mut q);
					if r.is_ok() {
						Self::table().write(k, q);
					}
					r
				}
			}
		};
	}
	api!((P: Instance + 'static, H: 'static, K: PartialEq + 'static, V: 'static, Q: QueryKind<V, O>, O, M)
		(StorageMap<P, H, K, V, Q, O, M>) (K) (k: K) (k.into_stored()));
	api!((P: Instance + 'static, H1: 'static, K1: PartialEq + 'static, H2: 'static, K2: PartialEq + 'static, V: 'static, Q: QueryKind<V, O>, O, M)
		(StorageDoubleMap<P, H1, K1, H2, K2, V, Q, O, M>) ((K1, K2)) (k1: K1, k2: K2) ((k1.into_stored(), k2.into_stored())));
	api!((P: Instance + 'static, V: 'static, Q: QueryKind<V, O>, O) (StorageValue<P, V, Q, O>) (()) () (()));

	/// Iterators visit the tracked keys that are present when the iterator reaches them.
	pub struct Iter<K: 'static, V: 'static, R, F: Fn(&K, &V) -> Option<R>>(&'static mut Table<K, V>, usize, F);
	impl<K, V, R, F: Fn(&K, &V) -> Option<R>> Iterator for Iter<K, V, R, F> {
		type Item = R;
		fn next(&mut self) -> Option<R> {
			while self.1 < self.0.used {
				let e = &self.0.e[self.1];
				self.1 += 1;
				if let (Some(k), Some(v)) = (&e.key, &e.val) {
					if let Some(r) = (self.2)(k, v) {
						return Some(r);
					}
				}
			}
			None
		}
	}
	impl<P: Instance + 'static, H: 'static, K: PartialEq + 'static, V: 'static, Q: QueryKind<V, O>, O, M> StorageMap<P, H, K, V, Q, O, M> {
		pub fn iter() -> impl Iterator<Item = (K, V)> {
			Iter(Self::table(), 0, |k: &K, v: &V| Some((dup(k), dup(v))))
		}
		pub fn iter_values() -> impl Iterator<Item = V> {
			Iter(Self::table(), 0, |_: &K, v: &V| Some(dup(v)))
		}
		pub fn iter_keys() -> impl Iterator<Item = K> {
			Iter(Self::table(), 0, |k: &K, _: &V| Some(dup(k)))
		}
	}
	impl<P: Instance + 'static, H1: 'static, K1: PartialEq + 'static, H2: 'static, K2: PartialEq + 'static, V: 'static, Q: QueryKind<V, O>, O, M>
		StorageDoubleMap<P, H1, K1, H2, K2, V, Q, O, M>
	{
		pub fn iter_prefix(k1: impl IntoStored<K1>) -> impl Iterator<Item = (K2, V)> {
			let p = k1.into_stored();
			Iter(Self::table(), 0, move |k: &(K1, K2), v: &V| if k.0 == p { Some((dup(&k.1), dup(v))) } else { None })
		}
		pub fn iter_prefix_values(k1: impl IntoStored<K1>) -> impl Iterator<Item = V> {
			let p = k1.into_stored();
			Iter(Self::table(), 0, move |k: &(K1, K2), v: &V| if k.0 == p { Some(dup(v)) } else { None })
		}
		pub fn iter_key_prefix(k1: impl IntoStored<K1>) -> impl Iterator<Item = K2> {
			let p = k1.into_stored();
			Iter(Self::table(), 0, move |k: &(K1, K2), _: &V| if k.0 == p { Some(dup(&k.1)) } else { None })
		}
		pub fn iter() -> impl Iterator<Item = (K1, K2, V)> {
			Iter(Self::table(), 0, |k: &(K1, K2), v: &V| Some((dup(&k.0), dup(&k.1), dup(v))))
		}
		pub fn iter_values() -> impl Iterator<Item = V> {
			Iter(Self::table(), 0, |_: &(K1, K2), v: &V| Some(dup(v)))
		}
	}
}

/// Storage layers: the model has no rollback of its own; an error returned from a dispatchable is read as
/// "no effect" by the harnesses, as FRAME guarantees.
pub fn with_storage_layer<T, E>(f: impl FnOnce() -> Result<T, E>) -> Result<T, E> {
	f()
}
pub mod bounded_vec {
	pub use sp_runtime::BoundedVec;
}
