//! Authentication traits of frame-contrib.
pub type Challenge = [u8; 32];
pub type HashedUserId = [u8; 32];
pub type DeviceId = [u8; 32];
pub trait Challenger {
	type Context;
	fn generate(cx: &Self::Context) -> Challenge;
	fn check_challenge(cx: &Self::Context, challenge: &[u8]) -> Option<()> {
		Self::generate(cx).eq(challenge).then_some(())
	}
}
pub mod util {
	pub struct AuthorityFromPalletId<P>(core::marker::PhantomData<P>);
	pub mod dummy {
		pub struct Dummy<A>(core::marker::PhantomData<A>);
	}
}
#[macro_export]
macro_rules! composite_authenticator {
	( $vis:vis Pass<$authority:ty> { $( $auth:ty ),* $(,)? } ) => {
		#[allow(unused_imports)]
		use $crate::HashedUserId;
		$vis struct PassAuthenticator;
	};
}
