pub use core::marker::PhantomData;
pub use sp_runtime::traits::{
	ConstBool, ConstI32, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, ConstUint, Convert, Get, Morph, TryCollect, TryMorph,
	TypedGet,
};

mod misc;
mod origin;
pub mod schedule;
pub mod tokens;
pub use misc::*;
pub use origin::*;
pub use schedule::{Bounded, PreimageProvider, QueryPreimage, StorePreimage};
pub use tokens::{fungible, fungibles, nonfungible_v2, nonfungibles_v2};
