//! cumulus-pallet-xcmp-queue as the runtime refers to it: the configuration items and the calls it has.
frame_support::model_pallet! {
	[RuntimeEvent ChannelInfo VersionWrapper XcmpQueue MaxActiveOutboundChannels MaxPageSize MaxInboundSuspended ControllerOrigin ControllerOriginConverter WeightInfo PriceForSiblingDelivery]
	[suspend_xcm_execution resume_xcm_execution update_suspend_threshold update_drop_threshold update_resume_threshold]
}
