//! pallet-asset-tx-payment as the runtime refers to it: the configuration items and the calls it has.
frame_support::model_pallet! {
	[RuntimeEvent Fungibles OnChargeAssetTransaction]
	[]
}

pub struct ChargeAssetTxPayment<T>(core::marker::PhantomData<T>);
pub struct FungiblesAdapter<C, H>(core::marker::PhantomData<(C, H)>);
