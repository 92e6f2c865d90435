//! cumulus-pallet-parachain-system as the runtime refers to it: the configuration items and the calls it has.
frame_support::model_pallet! {
	[WeightInfo RuntimeEvent OnSystemEvent SelfParaId OutboundXcmpMessageSource DmpQueue ReservedDmpWeight XcmpMessageHandler ReservedXcmpWeight CheckAssociatedRelayNumber ConsensusHook]
	[set_validation_data sudo_send_upward_message]
}

pub struct RelayNumberMonotonicallyIncreases;
pub struct ParachainSetCode<T>(core::marker::PhantomData<T>);
#[macro_export]
macro_rules! register_validate_block {
	( $( $t:tt )* ) => {};
}
