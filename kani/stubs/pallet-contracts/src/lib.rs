//! pallet-contracts as the runtime refers to it.
frame_support::model_pallet! {
	[
		Time Randomness Currency RuntimeEvent RuntimeCall UploadOrigin InstantiateOrigin CallFilter DepositPerItem DepositPerByte
		CallStack WeightPrice WeightInfo Schedule AddressGenerator ChainExtension ApiVersion MaxCodeLen MaxTransientStorageSize
		DefaultDepositLimit MaxStorageKeyLen MaxDebugBufferLen UnsafeUnstableInterface CodeHashLockupDepositPercent
		MaxDelegateDependencies RuntimeHoldReason Environment Debug Migrations Xcm
	]
	[
		call_old_weight instantiate_with_code_old_weight instantiate_old_weight upload_code remove_code set_code call
		instantiate_with_code instantiate migrate
	]
}
use core::marker::PhantomData;
pub struct Limits {
	pub validator_runtime_memory: u32,
	pub runtime_memory: u32,
	pub payload_len: u32,
}
impl Default for Limits {
	fn default() -> Self {
		Limits { validator_runtime_memory: 0, runtime_memory: 0, payload_len: 0 }
	}
}
pub struct Schedule<T: Config> {
	pub limits: Limits,
	pub instruction_weights: PhantomData<T>,
}
impl<T: Config> Default for Schedule<T> {
	fn default() -> Self {
		Schedule { limits: Default::default(), instruction_weights: PhantomData }
	}
}
pub struct Frame<T>(PhantomData<T>);
pub struct DefaultAddressGenerator;
