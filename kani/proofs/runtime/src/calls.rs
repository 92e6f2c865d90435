//! Which calls proxies and contracts may make (R03, R12). A call is one of every call of every pallet; what it
//! carries is not looked at by the filters.
use crate::world::*;
use core::mem::{forget, ManuallyDrop};
use frame_support::traits::{Contains, EnsureOrigin, InstanceFilter};
use kreivo_runtime::{communities::governance::*, contracts::AllowBalancesCall, impls::ProxyType, *};
use nd::{ens, reach};
use pallet_assets::Call as AssetsCall;

macro_rules! nth {
	($variant:ident, $call:ty) => {{
		let i: u8 = nd::below(<$call>::NAMES.len() as u8);
		RuntimeCall::$variant(<$call>::nth(i as usize))
	}};
}
fn address() -> <Runtime as frame_system::Config>::AccountId {
	Acc::from([nd::any(); 32])
}
fn system() -> RuntimeCall {
	use frame_system::Call::*;
	RuntimeCall::System(match nd::below(12) {
		0 => remark { remark: Vec::new() },
		1 => set_heap_pages {},
		2 => set_code {},
		3 => set_code_without_checks {},
		4 => set_storage {},
		5 => kill_storage {},
		6 => kill_prefix {},
		7 => remark_with_event {},
		8 => do_task {},
		9 => authorize_upgrade {},
		10 => authorize_upgrade_without_checks {},
		_ => apply_authorized_upgrade {},
	})
}
fn payments() -> RuntimeCall {
	use pallet_payments::Call::*;
	let payment_id = virto_common::PaymentId::from(nd::any::<u64>());
	let beneficiary = sp_runtime::MultiAddress::Id(address());
	let asset = FungibleAssetLocation::from(nd::any::<u32>());
	RuntimeCall::Payments(match nd::below(8) {
		0 => pay { beneficiary, asset, amount: nd::any(), remark: None },
		1 => release { payment_id },
		2 => request_refund { payment_id },
		3 => accept_and_pay { payment_id },
		4 => cancel { payment_id },
		5 => dispute_refund { payment_id },
		6 => request_payment { sender: beneficiary, asset, amount: nd::any() },
		_ => resolve_dispute {
			payment_id,
			dispute_result: pallet_payments::types::DisputeResult {
				percent_beneficiary: sp_runtime::Percent::from_percent(nd::below(101)),
				in_favor_of: pallet_payments::types::Role::Sender,
			},
		},
	})
}
fn communities() -> RuntimeCall {
	use pallet_communities::{types::*, Call::*};
	let who = sp_runtime::MultiAddress::Id(address());
	let membership_id: u32 = nd::any();
	RuntimeCall::Communities(match nd::below(11) {
		0 => create { admin_origin: caller(Who::Root), community_id: nd::any() },
		1 => set_admin_origin { admin_origin: caller(Who::Root) },
		2 => add_member { who },
		3 => remove_member { who, membership_id },
		4 => promote { membership_id },
		5 => demote { membership_id },
		6 => set_decision_method { community_id: nd::any(), decision_method: DecisionMethod::Membership },
		7 => vote { membership_id, poll_index: nd::any(), vote: Vote::Standard(nd::any()) },
		8 => remove_vote { membership_id, poll_index: nd::any() },
		9 => unlock { poll_index: nd::any() },
		_ => dispatch_as_account { call: Box::new(RuntimeCall::Utility(wrapped())) },
	})
}
fn wrapped() -> pallet_utility::Call<Runtime> {
	pallet_utility::Call::nth(0)
}
fn manager() -> RuntimeCall {
	use pallet_communities_manager::Call::*;
	RuntimeCall::CommunitiesManager(match nd::below(2) {
		0 => register {
			community_id: nd::any(),
			name: Default::default(),
			first_admin: sp_runtime::MultiAddress::Id(address()),
			maybe_decision_method: None,
			maybe_track_info: None,
		},
		_ => create_memberships {
			amount: nd::any(),
			starting_at: nd::any(),
			price: nd::any(),
		},
	})
}
/// Pallets in the order of `RuntimeCall::PALLETS`.
fn call(pallet: u8) -> RuntimeCall {
	match pallet {
		0 => system(),
		1 => nth!(ParachainSystem, cumulus_pallet_parachain_system::Call<Runtime>),
		2 => nth!(Timestamp, pallet_timestamp::Call<Runtime>),
		3 => nth!(Pass, pallet_pass::Call<Runtime>),
		4 => nth!(Balances, pallet_balances::Call<Runtime>),
		5 => nth!(Assets, AssetsCall<Runtime, KreivoAssetsInstance>),
		6 => nth!(Vesting, pallet_vesting::Call<Runtime>),
		7 => nth!(CollatorSelection, pallet_collator_selection::Call<Runtime>),
		8 => nth!(Session, pallet_session::Call<Runtime>),
		9 => nth!(XcmpQueue, cumulus_pallet_xcmp_queue::Call<Runtime>),
		10 => nth!(PolkadotXcm, pallet_xcm::Call<Runtime>),
		11 => nth!(MessageQueue, pallet_message_queue::Call<Runtime>),
		12 => nth!(Multisig, pallet_multisig::Call<Runtime>),
		13 => nth!(Utility, pallet_utility::Call<Runtime>),
		14 => nth!(Proxy, pallet_proxy::Call<Runtime>),
		15 => nth!(Scheduler, pallet_scheduler::Call<Runtime>),
		16 => nth!(Preimage, pallet_preimage::Call<Runtime>),
		17 => nth!(Treasury, pallet_treasury::Call<Runtime>),
		18 => nth!(KreivoCollective, pallet_ranked_collective::Call<Runtime, pallet_ranked_collective::Instance1>),
		19 => nth!(KreivoReferenda, pallet_referenda::Call<Runtime, pallet_referenda::Instance1>),
		20 => payments(),
		21 => communities(),
		22 => nth!(CommunityTracks, pallet_referenda_tracks::Call<Runtime, CommunityTracksInstance>),
		23 => nth!(CommunityReferenda, pallet_referenda::Call<Runtime, CommunityReferendaInstance>),
		24 => nth!(CommunityMemberships, pallet_nfts::Call<Runtime, pallet_nfts::Instance2>),
		25 => manager(),
		_ => nth!(Contracts, pallet_contracts::Call<Runtime>),
	}
}
fn proxy(i: u8) -> ProxyType {
	match i {
		0 => ProxyType::Any,
		1 => ProxyType::NonTransfer,
		2 => ProxyType::CancelProxy,
		3 => ProxyType::Assets,
		4 => ProxyType::AssetOwner,
		5 => ProxyType::AssetManager,
		_ => ProxyType::Collator,
	}
}
fn is_wrapper(c: &RuntimeCall) -> bool {
	matches!(c, RuntimeCall::Utility(_) | RuntimeCall::Multisig(_))
}
fn is_asset_transfer(c: &RuntimeCall) -> bool {
	match c {
		RuntimeCall::Assets(a) => matches!(
			a,
			AssetsCall::transfer {}
				| AssetsCall::transfer_keep_alive {}
				| AssetsCall::force_transfer {}
				| AssetsCall::transfer_approved {}
				| AssetsCall::approve_transfer {}
		),
		_ => false,
	}
}
/// What each proxy type may do, on the calls of one group of pallets.
fn r03(from: u8, to: u8) {
	reset();
	let p = from + nd::below(to - from);
	let c = ManuallyDrop::new(call(p));
	let (a, b) = (proxy(nd::below(7)), proxy(nd::below(7)));
	let (fa, fb) = (a.filter(&c), b.filter(&c));
	ens!(!a.is_superset(&b) || !fb || fa, "an including type allows all the included type allows");
	let funds = matches!(&*c, RuntimeCall::Balances(_) | RuntimeCall::Assets(_));
	ens!(!(ProxyType::NonTransfer.filter(&c) && funds), "a non-transfer proxy makes no balance or asset call");
	let transfer = is_asset_transfer(&c) || matches!(&*c, RuntimeCall::Balances(_));
	ens!(!(ProxyType::AssetOwner.filter(&c) && transfer), "an asset-owner proxy makes no transfer");
	ens!(!(ProxyType::AssetManager.filter(&c) && transfer), "an asset-manager proxy makes no transfer");
	let rejection = matches!(&*c, RuntimeCall::Proxy(pallet_proxy::Call::reject_announcement {}));
	ens!(
		!ProxyType::CancelProxy.filter(&c) || rejection || is_wrapper(&c),
		"a cancel proxy only rejects announcements or wraps"
	);
	let collator = matches!(&*c, RuntimeCall::CollatorSelection(_));
	ens!(!ProxyType::Collator.filter(&c) || collator || is_wrapper(&c), "a collator proxy only makes collator calls or wraps");
	let assets = matches!(&*c, RuntimeCall::Assets(_));
	ens!(!ProxyType::Assets.filter(&c) || assets || is_wrapper(&c), "an assets proxy only makes asset calls or wraps");
	ens!(ProxyType::Any.filter(&c), "an unrestricted proxy makes any call");
	reach!(a.is_superset(&b) && a != b, "an inclusion");
	reach!(p == from, "first pallet of the group");
	reach!(p == to - 1, "last pallet of the group");
	forget(c);
}
fn r12_calls(from: u8, to: u8) {
	reset();
	let p = from + nd::below(to - from);
	let c = ManuallyDrop::new(call(p));
	let allowed = <Runtime as pallet_contracts::Config>::CallFilter::contains(&c);
	let plain = matches!(&*c, RuntimeCall::Balances(pallet_balances::Call::transfer_allow_death {}));
	ens!(allowed == plain, "exactly the balance transfer that may reap the sender");
	ens!(AllowBalancesCall::contains(&c) == plain, "the filter allows exactly that transfer");
	reach!(p == to - 1, "last pallet of the group");
	forget(c);
}
fn r12_origin(kind: u8) {
	reset();
	let w = who(kind);
	type Instantiate = <Runtime as pallet_contracts::Config>::InstantiateOrigin;
	type Upload = <Runtime as pallet_contracts::Config>::UploadOrigin;
	let r = <Instantiate as EnsureOrigin<RuntimeOrigin>>::try_origin(origin(w));
	let u = <Upload as EnsureOrigin<RuntimeOrigin>>::try_origin(origin(w));
	let treasury = derived(b"py/trsry", 0);
	match w {
		Who::Root => {
			ens!(matches!(&r, Ok(a) if same(&raw(a), &treasury)), "root instantiates on the treasury's account");
			ens!(matches!(&u, Ok(a) if same(&raw(a), &treasury)), "root uploads on the treasury's account");
		}
		Who::Community(id, _) => {
			ens!(r.is_ok() == (id == 1 || id == 2), "of the communities only the two configured instantiate");
			ens!(!matches!(&r, Ok(a) if !same(&raw(a), &community_bytes(id))), "on their own account");
			ens!(u.is_err(), "communities do not upload");
		}
		_ => ens!(r.is_err() && u.is_err(), "nobody else instantiates or uploads"),
	}
	reach!(kind != 6 || r.is_ok(), "decided");
}
/// The list of pallets above is the runtime's.
fn pallets() {
	let mut same = RuntimeCall::PALLETS.len() == 27;
	let (a, b) = (RuntimeCall::PALLETS[26].as_bytes(), b"Contracts");
	same &= a.len() == b.len() && a[0] == b[0];
	nd::model_gap!(same, "the runtime has other pallets than the harness draws calls of");
	reach!(same, "the same pallets");
}

nd::harnesses! {
	#[kani::unwind(34)]
	r03_system => r03(0, 5);
	#[kani::unwind(34)]
	r03_assets => r03(5, 6);
	#[kani::unwind(34)]
	r03_chain => r03(6, 12);
	#[kani::unwind(34)]
	r03_wrappers => r03(12, 20);
	#[kani::unwind(34)]
	r03_payments => r03(20, 21);
	#[kani::unwind(34)]
	r03_communities => r03(21, 22);
	#[kani::unwind(34)]
	r03_governance => r03(22, 25);
	#[kani::unwind(34)]
	r03_manager => r03(25, 27);
	#[kani::unwind(34)]
	r12_system => r12_calls(0, 5);
	#[kani::unwind(34)]
	r12_chain => r12_calls(5, 12);
	#[kani::unwind(34)]
	r12_wrappers => r12_calls(12, 20);
	#[kani::unwind(34)]
	r12_payments => r12_calls(20, 21);
	#[kani::unwind(34)]
	r12_communities => r12_calls(21, 22);
	#[kani::unwind(34)]
	r12_governance => r12_calls(22, 25);
	#[kani::unwind(34)]
	r12_manager => r12_calls(25, 27);
	#[kani::unwind(34)]
	r12_origin_root => r12_origin(0);
	#[kani::unwind(34)]
	r12_origin_none => r12_origin(1);
	#[kani::unwind(34)]
	r12_origin_signed => r12_origin(2);
	#[kani::unwind(34)]
	r12_origin_custom => r12_origin(3);
	#[kani::unwind(34)]
	r12_origin_xcm => r12_origin(4);
	#[kani::unwind(34)]
	r12_origin_cumulus => r12_origin(5);
	#[kani::unwind(34)]
	r12_origin_community => r12_origin(6);
	#[kani::unwind(64)]
	pallet_list => pallets();
}
