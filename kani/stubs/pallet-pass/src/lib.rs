//! pallet-pass as the runtime refers to it: the configuration items and the calls it has.
frame_support::model_pallet! {
	[RuntimeEvent RuntimeCall Currency WeightInfo Authenticator PalletsOrigin PalletId MaxSessionDuration RegisterOrigin Scheduler]
	[register add_device authenticate dispatch add_session_key]
}

use core::marker::PhantomData;
pub struct SubstrateWeight<T>(PhantomData<T>);
pub struct ChargeTransactionToPassAccount<S, T, I>(PhantomData<(S, T, I)>);
/// What is deposited for a new account: the amount goes to the receiver.
pub struct DepositInformation<T: Config>(PhantomData<T>);
impl<T: Config> Clone for DepositInformation<T> {
	fn clone(&self) -> Self {
		DepositInformation(PhantomData)
	}
}
pub struct EnsureSignedPays<T, Deposit, Receiver>(PhantomData<(T, Deposit, Receiver)>);
impl<T: Config, D, R, O: Into<Result<frame_system::RawOrigin<T::AccountId>, O>> + From<frame_system::RawOrigin<T::AccountId>>, A>
	frame_support::traits::EnsureOriginWithArg<O, A> for EnsureSignedPays<T, D, R>
{
	type Success = Option<DepositInformation<T>>;
	fn try_origin(o: O, _: &A) -> Result<Self::Success, O> {
		match o.into() {
			Ok(frame_system::RawOrigin::Signed(_)) => Ok(Some(DepositInformation(PhantomData))),
			Ok(r) => Err(r.into()),
			Err(o) => Err(o),
		}
	}
}
