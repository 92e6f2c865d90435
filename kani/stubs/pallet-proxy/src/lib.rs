//! pallet-proxy as the runtime refers to it: the configuration items and the calls it has.
frame_support::model_pallet! {
	[RuntimeEvent RuntimeCall Currency ProxyType ProxyDepositBase ProxyDepositFactor MaxProxies WeightInfo MaxPending CallHasher AnnouncementDepositBase AnnouncementDepositFactor]
	[proxy add_proxy remove_proxy remove_proxies create_pure kill_pure announce remove_announcement reject_announcement proxy_announced]
}
