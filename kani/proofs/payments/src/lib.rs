//! Contracts of the payment calls (P01..P12), discharged on the pallet's real source.
//!
//! One account is followed exactly (`w().x`, arbitrary), so balance postconditions are stated for it only and hold
//! for every account. Fee lists have a concrete length per harness; the deployed fee handler returns at most one fee
//! per side (R01). Errors roll back (FRAME), so postconditions speak about successful calls.
#![allow(static_mut_refs)]
pub mod world;
use frame_support::{dispatch::DispatchResultWithPostInfo, traits::schedule::DispatchTime};
use nd::{ens, reach, req};
use pallet_payments::{Call, DisputeResult, Fees, Pallet, Payment, PaymentParties, PaymentState, Role};
use sp_runtime::{traits::ConstU32, BoundedVec, Percent};
use world::*;

const CREATED: u8 = 0;
const REVIEW: u8 = 1;
const REFUND: u8 = 2;
const REQUESTED: u8 = 3;
const FINISHED: u8 = 4;
const ID: Pid = Pid(77);

/// A stored payment with the given fee list lengths and kind of state, any other content, and any ledger.
/// Sums of what it promises fit the balance type.
struct Case {
	b: Acc,
	rec: Detail,
	before: Books,
	block: u32,
	/// incentive plus the payer's fees
	deposit: Bal,
}
const S: Acc = PAYER;
fn case(st: u8, ns: usize, nb: usize) -> Case {
	start();
	let b = acc();
	let rec = Detail {
		asset: ASSET,
		amount: nd::any(),
		beneficiary: b,
		incentive_amount: nd::any(),
		state: state(st),
		fees: Fees { sender_pays: fees(ns), beneficiary_pays: fees(nb) },
	};
	Payment::<Rt>::table().track((S, ID), Some(dup(&rec)));
	PaymentParties::<Rt>::table().track(ID, Some((S, b)));
	balances();
	let block = nd::any();
	frame_system::Pallet::<Rt>::set_block_number(block);
	let deposit = deposit(&rec);
	req!(total(&rec.fees.beneficiary_pays).is_some());
	Case { b, rec, before: books(), block, deposit }
}
fn deposit(rec: &Detail) -> Bal {
	let t = total(&rec.fees.sender_pays);
	req!(t.is_some());
	let t = t.unwrap_or(0).checked_add(rec.incentive_amount);
	req!(t.is_some());
	let t = t.unwrap_or(0);
	// the escrow of one payment fits the balance type
	req!(t.checked_add(rec.amount).is_some());
	req!(rec.amount.checked_add(rec.incentive_amount).is_some());
	t
}
fn stored(s: Acc, id: Pid) -> Option<Detail> {
	Payment::<Rt>::table().peek(&(s, id))
}
fn parties(id: Pid) -> Option<(Acc, Acc)> {
	PaymentParties::<Rt>::table().peek(&id)
}
/// Only the asset, the hold reason and the storage items of the payment were touched.
fn clean() -> bool {
	!w().wrong_asset
		&& !w().wrong_reason
		&& Payment::<Rt>::table().stray_writes == 0
		&& PaymentParties::<Rt>::table().stray_writes == 0
}
fn kind(s: &PaymentState<u32>) -> u8 {
	match s {
		PaymentState::Created => CREATED,
		PaymentState::NeedsReview => REVIEW,
		PaymentState::RefundRequested { .. } => REFUND,
		PaymentState::PaymentRequested => REQUESTED,
		PaymentState::Finished => FINISHED,
	}
}
fn same_fees(a: &[Fee], b: &[Fee]) -> bool {
	if a.len() != b.len() {
		return false;
	}
	let mut i = 0;
	while i < a.len() {
		if a[i] != b[i] {
			return false;
		}
		i += 1;
	}
	true
}
fn same_terms(a: &Detail, b: &Detail) -> bool {
	a.asset == b.asset
		&& a.amount == b.amount
		&& a.beneficiary == b.beneficiary
		&& a.incentive_amount == b.incentive_amount
		&& same_fees(&a.fees.sender_pays, &b.fees.sender_pays)
		&& same_fees(&a.fees.beneficiary_pays, &b.fees.beneficiary_pays)
}
fn pay_fees(e: &mut Books, from: Acc, f: &[Fee], dispute: bool) {
	let mut i = 0;
	while i < f.len() {
		if !dispute || f[i].2 {
			e.pay(from, f[i].0, f[i].1);
		}
		i += 1;
	}
}
/// What a payment with these terms says is on hold from account `x`, in the given state.
fn obligation(p: &Detail, deposit: Bal, state: Option<u8>, x: Acc) -> Bal {
	let Some(k) = state else { return 0 };
	if k == REQUESTED || k == FINISHED {
		return 0;
	}
	let mut o: Bal = 0;
	if x == S {
		o = o.wrapping_add(deposit);
	}
	if x == p.beneficiary {
		o = o.wrapping_add(p.amount);
		if k == REVIEW {
			o = o.wrapping_add(p.incentive_amount);
		}
	}
	o
}
fn stored_kind() -> Option<u8> {
	stored(S, ID).map(|p| kind(&p.state))
}

// --- creation ---------------------------------------------------------------------------------

struct New {
	b: Acc,
	amount: Bal,
	before: Books,
	deposit: Bal,
	incentive: Bal,
}
/// The world before a creation with these fee list lengths; `existing`: a payment already stored under the id.
fn new(ns: usize, nb: usize, existing: Option<u8>) -> New {
	start();
	let (b, amount) = (acc(), nd::any());
	if let Some(st) = existing {
		let old = Detail {
			asset: ASSET,
			amount: nd::any(),
			beneficiary: acc(),
			incentive_amount: nd::any(),
			state: state(st),
			fees: Fees { sender_pays: fees(0), beneficiary_pays: fees(0) },
		};
		PaymentParties::<Rt>::table().track(ID, Some((S, old.beneficiary)));
		Payment::<Rt>::table().track((S, ID), Some(old));
	} else {
		Payment::<Rt>::table().track((S, ID), None);
		PaymentParties::<Rt>::table().track(ID, None);
	}
	let w = w();
	w.incentive = nd::below(101);
	w.fees_s = fees(ns);
	w.fees_b = fees(nb);
	w.expect_fee_args = (S, b, amount);
	w.next = Some(ID);
	w.expect_id_args = (S, b);
	balances();
	let incentive = percent(w.incentive, amount);
	let d = plus(total(&w.fees_s), incentive);
	req!(d.is_some() && plus(d, amount).is_some());
	let deposit = d.unwrap_or(0);
	New { b, amount, before: books(), deposit, incentive }
}
fn remark() -> Option<BoundedVec<u8, ConstU32<50>>> {
	if nd::any() {
		BoundedVec::try_from(vec![nd::any(), nd::any()]).ok()
	} else {
		None
	}
}
fn pay(n: &New) -> DispatchResultWithPostInfo {
	Pallet::<Rt>::pay(signed(S), n.b, ASSET, n.amount, remark())
}
fn ask(n: &New) -> DispatchResultWithPostInfo {
	Pallet::<Rt>::request_payment(signed(n.b), S, ASSET, n.amount)
}
fn created_as_agreed(n: &New, st: PaymentState<u32>) {
	let p = stored(S, ID);
	ens!(p.is_some(), "the payment is stored");
	let Some(p) = p else { return };
	ens!(p.state == st, "it starts in the right state");
	ens!(p.asset == ASSET && p.amount == n.amount && p.beneficiary == n.b, "it carries asset, amount and beneficiary");
	ens!(p.incentive_amount == n.incentive, "incentive is the configured percentage rounded down");
	ens!(
		same_fees(&p.fees.sender_pays, &w().fees_s) && same_fees(&p.fees.beneficiary_pays, &w().fees_b),
		"it carries the fees of the fee handler"
	);
	ens!(!w().wrong_fee_args && !w().wrong_id_args, "fees and id are asked for this very payment");
	ens!(parties(ID) == Some((S, n.b)), "the index names payer and beneficiary");
	ens!(clean(), "nothing else is touched");
}

fn p01(ns: usize, nb: usize) {
	let n = new(ns, nb, None);
	let r = pay(&n);
	reach!(r.is_ok(), "payment succeeds");
	if r.is_err() {
		return;
	}
	created_as_agreed(&n, PaymentState::Created);
	let mut e = n.before;
	e.hold(S, n.deposit);
	e.free(S, 0u128.wrapping_sub(n.amount));
	e.held(n.b, n.amount);
	ens!(w().free == e.free, "free balances");
	ens!(w().held == e.held, "held balances");
	let sum = n.deposit.checked_add(n.amount).unwrap_or(Bal::MAX);
	ens!(w().x != S || sum <= n.before.free, "only a payer who can cover the sum");
	ens!(w().scheduled == 0 && w().cancelled == 0, "nothing is scheduled");
}

// --- settlement -------------------------------------------------------------------------------

fn p02(ns: usize, nb: usize) {
	let c = case(CREATED, ns, nb);
	let r = Pallet::<Rt>::release(signed(S), ID);
	reach!(r.is_ok(), "release succeeds");
	if r.is_err() {
		return;
	}
	let mut e = c.before;
	e.unhold(S, c.deposit);
	e.unhold(c.b, c.rec.amount);
	pay_fees(&mut e, S, &c.rec.fees.sender_pays, false);
	pay_fees(&mut e, c.b, &c.rec.fees.beneficiary_pays, false);
	ens!(w().held == e.held, "no hold of this payment is left, and others are kept");
	ens!(w().free == e.free, "everybody gets exactly what was agreed");
	ens!(clean(), "nothing else is touched");
	finished(&c);
}
fn finished(c: &Case) {
	let p = stored(S, ID);
	ens!(matches!(&p, Some(p) if p.state == PaymentState::Finished), "the payment is finished");
	ens!(matches!(&p, Some(p) if same_terms(p, &c.rec)), "its terms are kept");
}

fn p03(st: u8, ns: usize, nb: usize) {
	let c = case(st, ns, nb);
	let r = Pallet::<Rt>::cancel(signed(c.b), ID);
	reach!(r.is_ok(), "cancellation succeeds");
	if r.is_err() {
		return;
	}
	let mut e = c.before;
	e.unhold(S, c.deposit);
	e.held(c.b, 0u128.wrapping_sub(c.rec.amount));
	e.free(S, c.rec.amount);
	ens!(w().held == e.held, "no hold of this payment is left, and others are kept");
	ens!(w().free == e.free, "everything is back with the payer");
	ens!(stored(S, ID).is_none() && parties(ID).is_none(), "the payment is forgotten");
	ens!(clean(), "nothing else is touched");
}

fn p08(ns: usize, nb: usize, winner: Role) {
	let c = case(REVIEW, ns, nb);
	let (res, pct) = (acc(), nd::below(101));
	let result = DisputeResult { percent_beneficiary: Percent::from_percent(pct), in_favor_of: winner.clone() };
	let r = Pallet::<Rt>::resolve_dispute(resolver(res), ID, result);
	reach!(r.is_ok(), "resolution succeeds");
	if r.is_err() {
		return;
	}
	let share = percent(pct, c.rec.amount);
	let mut e = c.before;
	e.unhold(S, c.deposit);
	e.unhold(c.b, c.rec.amount.wrapping_add(c.rec.incentive_amount));
	pay_fees(&mut e, S, &c.rec.fees.sender_pays, true);
	pay_fees(&mut e, c.b, &c.rec.fees.beneficiary_pays, true);
	match winner {
		Role::Beneficiary => {
			e.pay(S, res, c.rec.incentive_amount);
			e.pay(c.b, S, c.rec.amount.wrapping_sub(share));
		}
		Role::Sender => {
			e.pay(c.b, res, c.rec.incentive_amount);
			e.pay(c.b, S, share);
		}
	}
	ens!(w().held == e.held, "no hold of this payment is left, and others are kept");
	ens!(w().free == e.free, "the split, the incentive and the dispute fees are exact");
	ens!(clean(), "nothing else is touched");
	finished(&c);
}

fn p09_accept(ns: usize, nb: usize) {
	let c = case(REQUESTED, ns, nb);
	let r = Pallet::<Rt>::accept_and_pay(signed(S), ID);
	reach!(r.is_ok(), "acceptance succeeds");
	if r.is_err() {
		return;
	}
	let mut e = c.before;
	e.pay(S, c.b, c.rec.amount);
	pay_fees(&mut e, S, &c.rec.fees.sender_pays, false);
	pay_fees(&mut e, c.b, &c.rec.fees.beneficiary_pays, false);
	ens!(w().held == e.held, "holds nothing and releases nothing");
	ens!(w().free == e.free, "amount and fees are exact");
	ens!(clean(), "nothing else is touched");
	finished(&c);
}
fn p09_only_pending(st: u8) {
	let _ = case(st, 1, 1);
	let r = Pallet::<Rt>::accept_and_pay(signed(S), ID);
	ens!(r.is_err(), "only a pending request can be accepted");
}
fn p09_request(ns: usize, nb: usize) {
	let n = new(ns, nb, None);
	let r = ask(&n);
	reach!(r.is_ok(), "request succeeds");
	if r.is_err() {
		return;
	}
	created_as_agreed(&n, PaymentState::PaymentRequested);
	ens!(w().free == n.before.free && w().held == n.before.held && w().moves == 0, "a request moves no funds");
	ens!(w().scheduled == 0 && w().cancelled == 0, "nothing is scheduled");
}

// --- authorization ----------------------------------------------------------------------------

/// All calls on a stored payment.
#[derive(Clone, Copy, PartialEq)]
enum Op {
	Release,
	Refund,
	Accept,
	Cancel,
	Dispute,
	Resolve,
}
fn run(op: Op, o: RuntimeOrigin) -> DispatchResultWithPostInfo {
	match op {
		Op::Release => Pallet::<Rt>::release(o, ID),
		Op::Refund => Pallet::<Rt>::request_refund(o, ID),
		Op::Accept => Pallet::<Rt>::accept_and_pay(o, ID),
		Op::Cancel => Pallet::<Rt>::cancel(o, ID),
		Op::Dispute => Pallet::<Rt>::dispute_refund(o, ID),
		Op::Resolve => Pallet::<Rt>::resolve_dispute(
			o,
			ID,
			DisputeResult {
				percent_beneficiary: Percent::from_percent(nd::below(101)),
				in_favor_of: match w().winner {
					1 => Role::Sender,
					2 => Role::Beneficiary,
					_ => if nd::any() { Role::Sender } else { Role::Beneficiary },
				},
			},
		),
	}
}
/// The caller the operation is meant for.
fn rightful(op: Op, c: &Case) -> RuntimeOrigin {
	match op {
		Op::Release | Op::Refund | Op::Accept => signed(S),
		Op::Cancel | Op::Dispute => signed(c.b),
		Op::Resolve => resolver(acc()),
	}
}
/// The state in which the operation is meant to work.
fn p04(op: Op, st: u8) {
	let c = case(st, 1, 1);
	let r = match op {
		// a caller other than the payer; its place in the order of accounts does not matter
		Op::Release | Op::Refund | Op::Accept => match nd::below(5) {
			0 => run(op, signed(S - 1)),
			1 => run(op, signed(S + 1)),
			2 => run(op, frame_support::dispatch::RawOrigin::Root.into()),
			3 => run(op, frame_support::dispatch::RawOrigin::None.into()),
			_ => run(op, resolver(acc())),
		},
		Op::Cancel | Op::Dispute => match nd::below(4) {
			0 => {
				let who = acc();
				req!(who != c.b);
				run(op, signed(who))
			}
			1 => run(op, frame_support::dispatch::RawOrigin::Root.into()),
			2 => run(op, frame_support::dispatch::RawOrigin::None.into()),
			_ => run(op, resolver(acc())),
		},
		Op::Resolve => match nd::below(3) {
			0 => run(op, signed(acc())),
			1 => run(op, frame_support::dispatch::RawOrigin::Root.into()),
			_ => run(op, frame_support::dispatch::RawOrigin::None.into()),
		},
	};
	ens!(r.is_err(), "nobody else may do this");
}
/// The rightful caller is not turned away.
fn p04_rightful(op: Op, st: u8) {
	let c = case(st, 0, 0);
	let r = run(op, rightful(op, &c));
	reach!(r.is_ok(), "the rightful caller succeeds");
}

// --- life cycle -------------------------------------------------------------------------------

fn allowed(from: u8, to: Option<u8>) -> bool {
	matches!(
		(from, to),
		(CREATED, Some(REFUND) | Some(FINISHED) | None) | (REFUND, Some(REVIEW) | None) | (REVIEW, Some(FINISHED)) | (REQUESTED, Some(FINISHED))
	)
}
fn p05(op: Op, st: u8) {
	let c = case(st, 0, 0);
	let r = run(op, rightful(op, &c));
	reach!(r.is_ok(), "some call succeeds");
	if r.is_err() {
		return;
	}
	let to = stored(S, ID).map(|p| kind(&p.state));
	ens!(allowed(st, to), "only changes of state along the life cycle");
	let meant = match op {
		Op::Release => (st, to) == (CREATED, Some(FINISHED)),
		Op::Refund => (st, to) == (CREATED, Some(REFUND)),
		Op::Accept => (st, to) == (REQUESTED, Some(FINISHED)),
		Op::Cancel => (st == CREATED || st == REFUND) && to.is_none(),
		Op::Dispute => (st, to) == (REFUND, Some(REVIEW)),
		Op::Resolve => (st, to) == (REVIEW, Some(FINISHED)),
	};
	ens!(meant, "each call makes its own change of state");
}
fn p05_all(op: Op) {
	match nd::below(5) {
		0 => p05(op, 0),
		1 => p05(op, 1),
		2 => p05(op, 2),
		3 => p05(op, 3),
		_ => p05(op, 4),
	}
}
fn p05_create(st: u8) {
	let n = new(0, 0, Some(st));
	let r = if nd::any() { pay(&n) } else { ask(&n) };
	reach!(r.is_err(), "creation returns");
	ens!(r.is_err(), "a payment in process or finished is never replaced");
}

// --- refunds ----------------------------------------------------------------------------------

fn p06() {
	let c = case(CREATED, 1, 1);
	w().delay = nd::any();
	let r = Pallet::<Rt>::request_refund(signed(S), ID);
	let expiry = c.block.checked_add(w().delay);
	reach!(r.is_ok(), "refund request succeeds");
	reach!(expiry.is_none(), "expiry past the last block");
	if r.is_err() {
		return;
	}
	ens!(expiry.is_some(), "no expiry past the last block");
	let at = expiry.unwrap_or(0);
	let p = stored(S, ID);
	ens!(matches!(&p, Some(p) if p.state == PaymentState::RefundRequested { cancel_block: at }), "stores the expiry");
	ens!(matches!(&p, Some(p) if same_terms(p, &c.rec)), "the terms are kept");
	ens!(w().scheduled == 1 && w().cancelled == 0, "one task is scheduled");
	if let Some(t) = &w().last {
		ens!(matches!(t.at, DispatchTime::At(n) if n == at) && !t.periodic, "for the expiry block, once");
		ens!(t.origin == OriginCaller::system(frame_support::dispatch::RawOrigin::Signed(c.b)), "on the beneficiary's behalf");
		ens!(matches!(&t.call, RuntimeCall::Payments(Call::cancel { payment_id }) if *payment_id == ID), "cancelling this payment");
	}
	ens!(w().moves == 0 && w().free == c.before.free && w().held == c.before.held, "moves no funds");
	ens!(clean(), "nothing else is touched");
}
fn name() -> [u64; 4] {
	match &w().last {
		Some(t) => words(&t.name),
		None => [0; 4],
	}
}
fn words(n: &[u8; 32]) -> [u64; 4] {
	let f = |i: usize| u64::from_le_bytes([n[i], n[i + 1], n[i + 2], n[i + 3], n[i + 4], n[i + 5], n[i + 6], n[i + 7]]);
	[f(0), f(8), f(16), f(24)]
}
fn differ(a: [u64; 4], b: [u64; 4]) -> bool {
	a[0] != b[0] || a[1] != b[1] || a[2] != b[2] || a[3] != b[3]
}
/// Two payments never share the name of their scheduled cancellation.
fn names() {
	start();
	let (i, j) = (Pid(nd::any()), Pid(nd::any()));
	req!(i != j);
	let rec = |b: Acc| Detail {
		asset: ASSET,
		amount: nd::any(),
		beneficiary: b,
		incentive_amount: nd::any(),
		state: PaymentState::Created,
		fees: Fees { sender_pays: fees(0), beneficiary_pays: fees(0) },
	};
	let (s, t) = (acc(), acc());
	Payment::<Rt>::table().track((s, i), Some(rec(acc())));
	Payment::<Rt>::table().track((t, j), Some(rec(acc())));
	w().delay = 10;
	frame_system::Pallet::<Rt>::set_block_number(1);
	let a = Pallet::<Rt>::request_refund(signed(s), i);
	let first = name();
	let b = Pallet::<Rt>::request_refund(signed(t), j);
	reach!(a.is_ok() && b.is_ok(), "both succeed");
	if a.is_ok() && b.is_ok() {
		ens!(differ(first, name()), "names are unique to the payment");
	}
}
fn p07() {
	let c = case(REFUND, 1, 1);
	let PaymentState::RefundRequested { cancel_block } = c.rec.state else { return };
	let r = Pallet::<Rt>::dispute_refund(signed(c.b), ID);
	reach!(r.is_ok(), "dispute succeeds");
	if r.is_err() {
		return;
	}
	ens!(c.block < cancel_block, "only before the expiry");
	let mut e = c.before;
	e.hold(c.b, c.rec.incentive_amount);
	ens!(w().free == e.free && w().held == e.held, "holds exactly the incentive of the beneficiary");
	let p = stored(S, ID);
	ens!(matches!(&p, Some(p) if p.state == PaymentState::NeedsReview && same_terms(p, &c.rec)), "goes to review with its terms");
	ens!(w().cancelled == 1 && w().scheduled == 0, "one scheduled task is cancelled");
	ens!(clean(), "nothing else is touched");
}
fn p07_other_states(st: u8) {
	let c = case(st, 1, 1);
	let r = Pallet::<Rt>::dispute_refund(signed(c.b), ID);
	ens!(r.is_err(), "fails in any other state");
}
/// The task that a dispute cancels is the one the refund request scheduled.
fn same_task() {
	let c = case(CREATED, 0, 0);
	w().delay = nd::any();
	let a = Pallet::<Rt>::request_refund(signed(S), ID);
	let armed = name();
	frame_system::Pallet::<Rt>::set_block_number(nd::any());
	let b = Pallet::<Rt>::dispute_refund(signed(c.b), ID);
	reach!(a.is_ok() && b.is_ok(), "request then dispute");
	if a.is_ok() && b.is_ok() {
		ens!(w().cancelled == 1 && !differ(armed, words(&w().cancelled_name)), "disarms the scheduled cancellation of the same payment");
	}
}

// --- escrow invariant -------------------------------------------------------------------------

fn p10(op: Op, st: u8, ns: usize, nb: usize) {
	let c = case(st, ns, nb);
	let r = run(op, rightful(op, &c));
	reach!(r.is_ok(), "the call succeeds");
	if r.is_err() {
		return;
	}
	let x = w().x;
	let before = obligation(&c.rec, c.deposit, Some(st), x);
	let after = obligation(&c.rec, c.deposit, stored_kind(), x);
	ens!(!matches!(stored(S, ID), Some(p) if !same_terms(&p, &c.rec)), "what a payment promises is not rewritten");
	ens!(w().held.wrapping_sub(c.before.held) == after.wrapping_sub(before), "holds change by the change in what the payment promises");
	ens!(clean(), "no other payment is touched");
}
fn p10_new(request: bool, ns: usize, nb: usize) {
	let n = new(ns, nb, None);
	let r = if request { ask(&n) } else { pay(&n) };
	reach!(r.is_ok(), "the call succeeds");
	if r.is_err() {
		return;
	}
	let p = stored(S, ID);
	let Some(p) = p else { return };
	let x = w().x;
	ens!(same_fees(&p.fees.sender_pays, &w().fees_s), "the fees are those of the fee handler");
	let d = p.incentive_amount.wrapping_add(total(&w().fees_s).unwrap_or(0));
	let after = obligation(&p, d, Some(kind(&p.state)), x);
	ens!(w().held.wrapping_sub(n.before.held) == after, "holds change by the change in what the payment promises");
	ens!(clean(), "no other payment is touched");
}

// --- index ------------------------------------------------------------------------------------

/// For the payments of two different payers: each stored one is named by the index.
fn indexed(s: Acc) -> bool {
	match stored(s, ID) {
		Some(p) => parties(ID) == Some((s, p.beneficiary)),
		None => true,
	}
}
fn p11_new(request: bool, clash: bool) {
	start();
	// another payer's payment already has the id that is going to be issued
	let b2 = acc();
	let other = Detail {
		asset: ASSET,
		amount: nd::any(),
		beneficiary: b2,
		incentive_amount: nd::any(),
		state: state(if nd::any() { CREATED } else { REQUESTED }),
		fees: Fees { sender_pays: fees(0), beneficiary_pays: fees(0) },
	};
	let t = S + 1;
	Payment::<Rt>::table().track((S, ID), None);
	if clash {
		Payment::<Rt>::table().track((t, ID), Some(other));
		PaymentParties::<Rt>::table().track(ID, Some((t, b2)));
	} else {
		PaymentParties::<Rt>::table().track(ID, None);
	}
	w().next = Some(ID);
	w().incentive = 10;
	balances();
	let (b, amount) = (acc(), nd::any());
	let r = if request {
		Pallet::<Rt>::request_payment(signed(b), S, ASSET, amount)
	} else {
		Pallet::<Rt>::pay(signed(S), b, ASSET, amount, None)
	};
	reach!(clash || r.is_ok(), "creation returns");
	if r.is_err() {
		return;
	}
	ens!(indexed(S), "the new payment is named by the index");
	ens!(indexed(t), "another payer's payment is still named by the index");
}
fn p11(op: Op, st: u8) {
	let c = case(st, 0, 0);
	// a payment of someone else with another id
	let (t, id2, b2) = (if nd::any() { S + 1 } else { S }, Pid(78), acc());
	Payment::<Rt>::table().track((t, id2), Some(dup(&c.rec)));
	PaymentParties::<Rt>::table().track(id2, Some((t, b2)));
	let r = run(op, rightful(op, &c));
	reach!(r.is_ok(), "the call succeeds");
	if r.is_err() {
		return;
	}
	ens!(indexed(S), "a payment that is left is named by the index");
	ens!(stored(S, ID).is_some() || parties(ID).is_none(), "a removed payment leaves no index entry");
	ens!(parties(id2) == Some((t, b2)) && matches!(stored(t, id2), Some(p) if same_terms(&p, &c.rec) && kind(&p.state) == st), "other payments are left alone");
}

// --- refunds and settlements can complete ------------------------------------------------------

fn p12(op: Op, st: u8, ns: usize, nb: usize) {
	let c = case(st, ns, nb);
	w().may_refuse = false;
	let x = w().x;
	// its holds are in place
	let held = obligation(&c.rec, c.deposit, Some(st), x);
	req!(c.before.held >= held);
	// the total issuance fits the balance type
	req!(c.before.held.checked_add(c.before.free).is_some());
	req!(x != S || x != c.b || c.deposit.checked_add(c.rec.amount).and_then(|v| v.checked_add(c.rec.incentive_amount)).is_some());
	// what has to be paid out by the followed account is there
	let mut out: Option<Bal> = Some(0);
	let dispute = op == Op::Resolve;
	let mut side = |who: Acc, f: &[Fee]| {
		let mut i = 0;
		while i < f.len() {
			if who == x && (!dispute || f[i].2) {
				out = plus(out, f[i].1);
			}
			i += 1;
		}
	};
	if op != Op::Cancel {
		side(S, &c.rec.fees.sender_pays);
		side(c.b, &c.rec.fees.beneficiary_pays);
	}
	if dispute {
		if x == c.b {
			out = plus(plus(out, c.rec.amount), c.rec.incentive_amount);
		}
		if x == S {
			out = plus(out, c.rec.incentive_amount);
		}
	}
	req!(out.is_some());
	if op != Op::Cancel {
		let funds = c.before.free.checked_add(held);
		req!(funds.is_some() && out.unwrap_or(0) <= funds.unwrap_or(0));
	}
	let r = run(op, rightful(op, &c));
	reach!(r.is_ok(), "completes");
	ens!(r.is_ok() && !w().short, "completes");
}
fn p12_resolve(winner: u8, ns: usize, nb: usize) {
	w().winner = winner;
	p12(Op::Resolve, REVIEW, ns, nb)
}
fn p12_refund(ns: usize, nb: usize) {
	p12(Op::Cancel, REFUND, ns, nb)
}

nd::harnesses! {
	p01_pay_00 => p01(0, 0);
	p01_pay_11 => p01(1, 1);
	p02_release_00 => p02(0, 0);
	p02_release_11 => p02(1, 1);
	p03_cancel_created_11 => p03(CREATED, 1, 1);
	p03_cancel_refund_11 => p03(REFUND, 1, 1);
	p04_release => p04(Op::Release, CREATED);
	p04_refund => p04(Op::Refund, CREATED);
	p04_accept => p04(Op::Accept, REQUESTED);
	p04_cancel => p04(Op::Cancel, CREATED);
	p04_cancel_refund => p04(Op::Cancel, REFUND);
	p04_dispute => p04(Op::Dispute, REFUND);
	p04_resolve => p04(Op::Resolve, REVIEW);
	p05_release => p05_all(Op::Release);
	p05_refund => p05_all(Op::Refund);
	p05_accept => p05_all(Op::Accept);
	p05_cancel => p05_all(Op::Cancel);
	p05_dispute => p05_all(Op::Dispute);
	p05_resolve => p05_all(Op::Resolve);
	p05_create_created => p05_create(CREATED);
	p05_create_review => p05_create(REVIEW);
	p05_create_refund => p05_create(REFUND);
	p05_create_finished => p05_create(FINISHED);
	p06_refund => p06();
	p06_names => names();
	p07_dispute => p07();
	p07_created => p07_other_states(CREATED);
	p07_review => p07_other_states(REVIEW);
	p07_requested => p07_other_states(REQUESTED);
	p07_finished => p07_other_states(FINISHED);
	p07_same_task => same_task();
	p08_beneficiary_11 => p08(1, 1, Role::Beneficiary);
	p08_sender_11 => p08(1, 1, Role::Sender);
	p09_accept_11 => p09_accept(1, 1);
	p09_request_11 => p09_request(1, 1);
	p09_pending_created => p09_only_pending(CREATED);
	p09_pending_review => p09_only_pending(REVIEW);
	p09_pending_refund => p09_only_pending(REFUND);
	p09_pending_finished => p09_only_pending(FINISHED);
	p10_pay => p10_new(false, 1, 1);
	p10_request => p10_new(true, 1, 1);
	p10_release => p10(Op::Release, CREATED, 1, 1);
	p10_refund => p10(Op::Refund, CREATED, 1, 1);
	p10_accept => p10(Op::Accept, REQUESTED, 1, 1);
	p10_cancel_created => p10(Op::Cancel, CREATED, 1, 1);
	p10_cancel_refund => p10(Op::Cancel, REFUND, 1, 1);
	p10_dispute => p10(Op::Dispute, REFUND, 1, 1);
	p10_resolve => p10(Op::Resolve, REVIEW, 1, 1);
	p11_pay => p11_new(false, false);
	p11_request => p11_new(true, false);
	p11_pay_clash => p11_new(false, true);
	p11_request_clash => p11_new(true, true);
	p11_release => p11(Op::Release, CREATED);
	p11_refund => p11(Op::Refund, CREATED);
	p11_accept => p11(Op::Accept, REQUESTED);
	p11_cancel => p11(Op::Cancel, CREATED);
	p11_dispute => p11(Op::Dispute, REFUND);
	p11_resolve => p11(Op::Resolve, REVIEW);
	p12_refund_11 => p12_refund(1, 1);
	p12_cancel_11 => p12(Op::Cancel, CREATED, 1, 1);
	p12_release_11 => p12(Op::Release, CREATED, 1, 1);
	p12_resolve_sender_00 => p12_resolve(1, 0, 0);
	p12_resolve_beneficiary_00 => p12_resolve(2, 0, 0);
	p01_pay_b20 => p01(20, 0);
	p02_release_s20 => p02(20, 0);
	p02_release_b20 => p02(0, 20);
	p03_cancel_s20 => p03(REFUND, 20, 0);
	p08_sender_s20 => p08(20, 0, Role::Sender);
	p08_beneficiary_b20 => p08(0, 20, Role::Beneficiary);
	p09_accept_s20 => p09_accept(20, 0);
	p01_pay_b21 => p01(21, 0);
	p02_release_s21 => p02(21, 0);
	p02_release_b21 => p02(0, 21);
	p03_cancel_s21 => p03(REFUND, 21, 0);
	p08_sender_s21 => p08(21, 0, Role::Sender);
	p08_beneficiary_b21 => p08(0, 21, Role::Beneficiary);
	p09_accept_s21 => p09_accept(21, 0);
	p01_pay_b22 => p01(22, 0);
	p02_release_s22 => p02(22, 0);
	p02_release_b22 => p02(0, 22);
	p03_cancel_s22 => p03(REFUND, 22, 0);
	p08_sender_s22 => p08(22, 0, Role::Sender);
	p08_beneficiary_b22 => p08(0, 22, Role::Beneficiary);
	p09_accept_s22 => p09_accept(22, 0);
	p01_pay_b23 => p01(23, 0);
	p02_release_s23 => p02(23, 0);
	p02_release_b23 => p02(0, 23);
	p03_cancel_s23 => p03(REFUND, 23, 0);
	p08_sender_s23 => p08(23, 0, Role::Sender);
	p08_beneficiary_b23 => p08(0, 23, Role::Beneficiary);
	p09_accept_s23 => p09_accept(23, 0);
	p01_pay_b24 => p01(24, 0);
	p02_release_s24 => p02(24, 0);
	p02_release_b24 => p02(0, 24);
	p03_cancel_s24 => p03(REFUND, 24, 0);
	p08_sender_s24 => p08(24, 0, Role::Sender);
	p08_beneficiary_b24 => p08(0, 24, Role::Beneficiary);
	p09_accept_s24 => p09_accept(24, 0);
	p01_pay_b25 => p01(25, 0);
	p02_release_s25 => p02(25, 0);
	p02_release_b25 => p02(0, 25);
	p03_cancel_s25 => p03(REFUND, 25, 0);
	p08_sender_s25 => p08(25, 0, Role::Sender);
	p08_beneficiary_b25 => p08(0, 25, Role::Beneficiary);
	p09_accept_s25 => p09_accept(25, 0);
	p12_release_00 => p12(Op::Release, CREATED, 0, 0);
}
