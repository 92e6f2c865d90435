//! pallet-gas-transaction-payment as the runtime refers to it: the configuration items and the calls it has.
frame_support::model_pallet! {
	[RuntimeEvent GasBurner]
	[]
}

pub struct ChargeTransactionPayment<T, S>(core::marker::PhantomData<(T, S)>);
