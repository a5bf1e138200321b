"""Planted bugs in the pallets; their demonstrations run the pallet on the stand-in chain of tools/mini."""
import glob, os
MINI = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'mini')
PAY = 'pallets/payments/src/lib.rs'
PTY = 'pallets/payments/src/types.rs'
FN = 'pallets/communities/src/functions.rs'
COM = 'pallets/communities/src/lib.rs'
CTY = 'pallets/communities/src/types.rs'
ORI = 'pallets/communities/src/origin.rs'
MAN = 'pallets/communities-manager/src/lib.rs'

DEMO = '''#!/bin/bash
# Runs the pallet of the current tree on a small in-memory chain; fails when the scenario fails.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$(pwd)"
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
cp -r "$here/chain/mini" "$here/chain/macros" "$tmp/"
bash "$here/chain/facades.sh" "$tmp" "$repo" || exit 9
mkdir -p "$tmp/driver/src"
cp "$here/chain.rs" "$here/main.rs" "$tmp/driver/src/"
cat > "$tmp/driver/Cargo.toml" <<EOT
[package]
name = "driver"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
mini = { path = "../mini" }
%s
parity-scale-codec = { version = "3.6.4", features = ["derive", "max-encoded-len"] }
scale-info = { version = "2.10.0", features = ["derive"] }
EOT
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target"
cargo run --offline -q --manifest-path "$tmp/driver/Cargo.toml"
'''
DEPS = {'payments': ['pallet-payments'], 'communities': ['pallet-communities', 'xcm'], 'manager': ['pallet-communities', 'pallet-communities-manager']}


def files(chain, main):
    out = {'demo.sh': DEMO % '\n'.join('%s = { path = "../%s" }' % (d, d) for d in DEPS[chain]),
           'chain.rs': open(os.path.join(MINI, 'drivers', chain + '.rs')).read(),
           'main.rs': '#![allow(warnings)]\nmod chain;\nuse chain::*;\nfn main() {\n' + main + '}\n'}
    for f in ('facades.sh', 'mini/Cargo.toml', 'mini/src/lib.rs', 'macros/Cargo.toml', 'macros/src/lib.rs'):
        out['chain/' + f] = open(os.path.join(MINI, f)).read()
    return out


def seed(id, prop, chain, path, old, new, needs, breaks, main):
    edits = [(path, old, new)] if isinstance(old, str) else [(path, o, n) for o, n in zip(old, new)]
    return {'id': id, 'property': prop, 'edits': edits, 'needs': needs, 'breaks': breaks, 'files': files(chain, main)}


SEEDS = [
    seed('p02-pending', 'P02', 'payments', PAY,
         'ensure!(payment.state == PaymentState::Created, Error::<T>::InvalidAction);\n\t\t\tSelf::settle_payment',
         'ensure!(\n\t\t\t\t!matches!(payment.state, PaymentState::NeedsReview | PaymentState::Finished),\n\t\t\t\tError::<T>::InvalidAction\n\t\t\t);\n\t\t\tSelf::settle_payment',
         'releasing a payment after its refund has been requested', 'a payment with a pending refund is released although only an open one may be',
         '''	setup(vec![], vec![]);
	let id = pay("alice", "bob", 1000).unwrap();
	run(signed("alice"), Call::request_refund { payment_id: id }).unwrap();
	assert!(run(signed("alice"), Call::release { payment_id: id }).is_err());
	let id = pay("alice", "bob", 1000).unwrap();
	run(signed("alice"), Call::release { payment_id: id }).unwrap();
	assert!(run(signed("alice"), Call::release { payment_id: id }).is_err());
'''),
    seed('p03-optional', 'P03', 'payments', PAY,
         ['\tfn cancel_payment(sender: &T::AccountId, payment: PaymentDetail<T>) -> DispatchResult {\n\t\tlet (_fee_recipients, total_fee_from_sender_mandatory, total_fee_from_sender_optional) =\n\t\t\tpayment.fees.summary_for(Role::Sender, false)?;\n\n\t\tlet total_hold_amount = total_fee_from_sender_mandatory\n\t\t\t.saturating_add(payment.incentive_amount)\n\t\t\t.saturating_add(total_fee_from_sender_optional);'],
         ['\tfn cancel_payment(sender: &T::AccountId, payment: PaymentDetail<T>) -> DispatchResult {\n\t\tlet is_refund = payment.state != PaymentState::Created;\n\t\tlet (_fee_recipients, total_fee_from_sender_mandatory, _) = payment.fees.summary_for(Role::Sender, is_refund)?;\n\n\t\tlet total_hold_amount = total_fee_from_sender_mandatory.saturating_add(payment.incentive_amount);'],
         'a refund of a payment whose sender has a fee that is not mandatory', 'the part held for optional fees stays locked after the refund',
         '''	setup(vec![(acc("shop"), 30, true), (acc("charlie"), 20, false)], vec![(acc("shop"), 5, true)]);
	let before = f("alice");
	let id = pay("alice", "bob", 1000).unwrap();
	run(signed("bob"), Call::cancel { payment_id: id }).unwrap();
	assert_eq!((f("alice"), h("alice"), h("bob")), (before, 0, 0));
	let id = pay("alice", "bob", 1000).unwrap();
	run(signed("alice"), Call::request_refund { payment_id: id }).unwrap();
	assert_eq!(run_to(20), vec![Ok(())]);
	assert_eq!((f("alice"), h("alice"), h("bob")), (before, 0, 0));
'''),
    seed('p05-entry', 'P05', 'payments', PAY,
         ['\t\t\t\t\tSelf::deposit_event(Event::PaymentCancelled { payment_id });\n',
          '\t\t\tPayment::<T>::remove(&sender, &payment_id);\n\t\t\tPaymentParties::<T>::remove(payment_id);\n'],
         ['\t\t\t\t\tPaymentParties::<T>::remove(payment_id);\n\t\t\t\t\tSelf::deposit_event(Event::PaymentCancelled { payment_id });\n',
          '\t\t\tPayment::<T>::remove(&sender, &payment_id);\n'],
         'a payment cancelled while its refund is pending', 'the index entry naming the parties is left behind by a refund',
         '''	setup(vec![], vec![]);
	let none = world::snapshot().storage;
	let id = pay("alice", "bob", 1000).unwrap();
	run(signed("bob"), Call::cancel { payment_id: id }).unwrap();
	assert_eq!(world::snapshot().storage, none);
	let id = pay("alice", "bob", 1000).unwrap();
	run(signed("alice"), Call::request_refund { payment_id: id }).unwrap();
	assert_eq!(run_to(20), vec![Ok(())]);
	assert_eq!(world::snapshot().storage, none);
'''),
    seed('p06-round', 'P06', 'payments', PAY,
         '\t\t\t\t\t\tlet amount_to_beneficiary = dispute_result.percent_beneficiary.mul_floor(payment.amount);\n\t\t\t\t\t\tlet amount_to_sender = payment.amount.saturating_sub(amount_to_beneficiary);\n',
         '\t\t\t\t\t\tlet percent_sender = Percent::from_percent(100 - dispute_result.percent_beneficiary.deconstruct());\n\t\t\t\t\t\tlet amount_to_sender = percent_sender.mul_floor(payment.amount);\n',
         'a dispute won by the beneficiary with a share that does not divide the amount', 'both shares are rounded down, so the sender gets less than the rest',
         '''	for (amount, share) in [(1000u128, 90u8), (999, 90), (101, 33), (1, 50)] {
		setup(vec![], vec![]);
		let (a, b) = (f("alice"), f("bob"));
		let id = pay("alice", "bob", amount).unwrap();
		run(signed("alice"), Call::request_refund { payment_id: id }).unwrap();
		run(signed("bob"), Call::dispute_refund { payment_id: id }).unwrap();
		run(root(), Call::resolve_dispute { payment_id: id, dispute_result: DisputeResult { percent_beneficiary: Percent::from_percent(share), in_favor_of: Role::Beneficiary } }).unwrap();
		let kept = amount * share as u128 / 100;
		assert_eq!(f("bob"), b + kept);
		assert_eq!(f("alice"), a - kept - amount / 10);
	}
'''),
    seed('p07-deadline', 'P07', 'payments', PAY,
         'cancel_block > frame_system::Pallet::<T>::block_number(),', 'cancel_block >= frame_system::Pallet::<T>::block_number(),',
         'a dispute raised in the block of the deadline itself, while the scheduled cancellation is still waiting there', 'a refund that is due is stopped by a dispute at the deadline',
         '''	setup(vec![], vec![]);
	let id = pay("alice", "bob", 1000).unwrap();
	run(signed("alice"), Call::request_refund { payment_id: id }).unwrap();
	let kept = world::with(|w| std::mem::take(&mut w.agenda));
	run_to(10);
	let at10 = world::snapshot();
	world::with(|w| w.agenda = kept.clone());
	run(signed("bob"), Call::dispute_refund { payment_id: id }).unwrap();
	world::restore(at10);
	run_to(11);
	// the task is due in this block but has not run yet
	world::with(|w| w.agenda = kept);
	assert!(run(signed("bob"), Call::dispute_refund { payment_id: id }).is_err());
'''),
    seed('p08-reuse', 'P08', 'payments', PAY,
         'payment.state == PaymentState::PaymentRequested,\n\t\t\t\t\tError::<T>::PaymentAlreadyInProcess',
         'payment.state != PaymentState::Created,\n\t\t\t\t\tError::<T>::PaymentAlreadyInProcess',
         'the same identifier issued again to the same parties while a payment is under review or has a refund pending', 'a payment in progress is overwritten by a new one',
         '''	setup(vec![], vec![]);
	let id = pay("alice", "bob", 1000).unwrap();
	let again = || NEXT.with(|n| *n.borrow_mut() = 0);
	again();
	assert!(pay("alice", "bob", 10).is_err());
	run(signed("alice"), Call::request_refund { payment_id: id }).unwrap();
	again();
	assert!(pay("alice", "bob", 10).is_err());
	run(signed("bob"), Call::dispute_refund { payment_id: id }).unwrap();
	again();
	assert!(pay("alice", "bob", 10).is_err());
'''),
    seed('p09-queue', 'P09', 'payments', PAY,
         ['\t\t\t\tT::Scheduler::schedule_named(\n', '\t\t\t\t\tT::Preimages::bound(cancel_call)?,\n\t\t\t\t)?;'],
         ['\t\t\t\tlet scheduled = T::Scheduler::schedule_named(\n', '\t\t\t\t\tT::Preimages::bound(cancel_call)?,\n\t\t\t\t);\n\t\t\t\tdebug_assert!(scheduled.is_ok() || cancel_block > current_block);'],
         'a scheduler that cannot take the cancellation', 'the refund request succeeds although nothing has been scheduled',
         '''	setup(vec![], vec![]);
	let id = pay("alice", "bob", 1000).unwrap();
	world::with(|w| w.fuse = Some(0));
	assert!(run(signed("alice"), Call::request_refund { payment_id: id }).is_err());
	world::with(|w| w.fuse = None);
	run(signed("alice"), Call::request_refund { payment_id: id }).unwrap();
	assert_eq!(run_to(20), vec![Ok(())]);
'''),
    seed('p10-return', 'P10', 'payments', PTY,
         'total_to_return = total_to_return.saturating_add(*fee);', 'total_to_return = total_to_return.max(*fee);',
         'a disputed payment with two fees that are not mandatory on one side', 'the total to return counts only the largest of them',
         '''	let s = vec![(acc("shop"), 30, true), (acc("charlie"), 20, false), (acc("dave"), 15, false)];
	let fees = Fees::<Chain> { sender_pays: s.clone().try_into().unwrap(), beneficiary_pays: s.try_into().unwrap() };
	for role in [Role::Sender, Role::Beneficiary] {
		let (_, due, back) = fees.summary_for(role.clone(), false).unwrap();
		assert_eq!((due, back), (65, 0));
		let (_, due, back) = fees.summary_for(role, true).unwrap();
		assert_eq!((due, back), (30, 35));
	}
'''),
    seed('m02-blocked', 'M02', 'communities', ORI,
         '\t\t\tOk(RawOrigin { community_id, .. }) => community_id,\n\t\t\tErr(_) => {',
         '\t\t\tOk(RawOrigin { community_id, subset: Some(_) }) if Pallet::<T>::community_exists(&community_id) => return Ok(community_id),\n\t\t\tOk(RawOrigin { community_id, .. }) => community_id,\n\t\t\tErr(_) => {',
         'a subset of the members of a blocked community', 'the origin of a blocked community is recognised when it speaks for a subset',
         '''	setup();
	let mut part = origin::RawOrigin::<Chain>::new(1);
	part.with_subset(origin::Subset::Members { count: 2 });
	for o in [voice(1), part.into(), signed("admin1")] {
		setup();
		run(o.clone(), Call::add_member { who: acc("dave") }).unwrap();
		Pallet::<Chain>::force_state(&1, CommunityState::Blocked);
		assert!(run(o, Call::add_member { who: acc("dave") }).is_err());
	}
	assert!(run(root(), Call::add_member { who: acc("dave") }).is_err());
'''),
    seed('m04-minimum', 'M04', 'communities', FN,
         'ensure!(amount >= min, Error::<T>::VoteBelowMinimum);', 'ensure!(VoteWeight::from(vote) >= sp_runtime::SaturatedConversion::saturated_into(*min), Error::<T>::VoteBelowMinimum);',
         'a minimum vote above what a vote weight can express', 'a vote below the minimum is accepted because both are cut to the largest weight',
         '''	setup();
	fund(TOKEN, &acc("alice"), 1u128 << 40);
	for min in [100u128, 1 << 34] {
		method(1, DecisionMethod::CommunityAsset(TOKEN, min));
		open(1, 1);
		assert!(vote("alice", 10, 1, Vote::AssetBalance(true, TOKEN, min - 1)).is_err());
		vote("alice", 10, 1, Vote::AssetBalance(true, TOKEN, min)).unwrap();
	}
'''),
    seed('m05-bare', 'M05', 'communities', FN,
         'self.bare_ayes = self.bare_ayes.saturating_sub(weight);', 'self.bare_ayes = self.bare_ayes.saturating_sub(weight.max(multiplied_weight));',
         'a vote in favour taken back by a member of rank two or more where others remain', 'the support drops by more than the vote added',
         '''	setup();
	method(1, DecisionMethod::Rank);
	open(1, 1);
	vote("bob", 12, 1, Vote::Standard(true)).unwrap();
	vote("alice", 11, 1, Vote::Standard(true)).unwrap();
	let c = count(1);
	vote("alice", 10, 1, Vote::Standard(true)).unwrap();
	assert_eq!(count(1), (c.0 + 3, c.1, c.2 + 1));
	run(signed("alice"), Call::remove_vote { membership_id: 10, poll_index: 1 }).unwrap();
	assert_eq!(count(1), c);
'''),
    seed('m06-asset', 'M06', 'communities', FN,
         '\t\t\t\t\tif let Vote::AssetBalance(_, ref id, amount) = locked_vote {\n\t\t\t\t\t\tif id == asset_id {\n\t\t\t\t\t\t\tamount_to_freeze = amount_to_freeze.max(amount)\n\t\t\t\t\t\t}\n\t\t\t\t\t}',
         '\t\t\t\t\tif let Vote::AssetBalance(_, _, amount) = locked_vote {\n\t\t\t\t\t\tamount_to_freeze = amount_to_freeze.max(amount)\n\t\t\t\t\t}',
         'a voter with locks of two different assets taking one vote away', 'the freeze of one asset is kept up by a lock of another',
         '''	setup();
	fund(8, &acc("alice"), 1_000_000);
	method(1, DecisionMethod::CommunityAsset(8, 1));
	open(1, 1);
	vote("alice", 10, 1, Vote::AssetBalance(true, 8, 700)).unwrap();
	method(1, DecisionMethod::CommunityAsset(TOKEN, 1));
	open(2, 1);
	open(3, 1);
	vote("alice", 10, 2, Vote::AssetBalance(true, TOKEN, 500)).unwrap();
	vote("alice", 10, 3, Vote::AssetBalance(true, TOKEN, 300)).unwrap();
	run(signed("alice"), Call::remove_vote { membership_id: 10, poll_index: 2 }).unwrap();
	assert_eq!((frozen(8, &acc("alice")), frozen(TOKEN, &acc("alice"))), (700, 300));
	close(3);
	run(signed("alice"), Call::unlock { poll_index: 3 }).unwrap();
	assert_eq!((frozen(8, &acc("alice")), frozen(TOKEN, &acc("alice"))), (700, 0));
'''),
    seed('m07-ranks', 'M07', 'communities', CTY,
         'DecisionMethod::Rank => T::MemberMgmt::ranks_total(&community_id),', 'DecisionMethod::Rank => T::MemberMgmt::ranks_total(&community_id).max(T::MemberMgmt::members_total(&community_id)),',
         'a community deciding by rank whose members are mostly of rank zero', 'support is measured against the number of members instead of the sum of ranks',
         '''	setup();
	method(1, DecisionMethod::Rank);
	for m in 30..50u32 {
		member(1, m, &acc("dave"), 0);
	}
	open(1, 1);
	vote("alice", 10, 1, Vote::Standard(true)).unwrap();
	// one bare aye of the ranks 3 + 1 + 2
	assert_eq!(tally(1).support(1), Perbill::from_rational(1u32, 6u32));
'''),
    seed('m09-any', 'M09', 'communities', COM,
         'let (_, membership_id) = T::MemberMgmt::user_memberships(&account, None)\n\t\t\t\t.next()',
         'let (_, membership_id) = T::MemberMgmt::user_memberships(&account, None)\n\t\t\t\t.chain(T::MemberMgmt::user_memberships(&who, Some(community_id)))\n\t\t\t\t.next()',
         'a community without free memberships and an account that already is a member', 'adding succeeds although the community has no membership to give',
         '''	setup();
	run(signed("admin1"), Call::add_member { who: acc("dave") }).unwrap();
	run(signed("admin1"), Call::add_member { who: acc("dave") }).unwrap();
	assert!(run(signed("admin1"), Call::add_member { who: acc("dave") }).is_err());
	assert!(run(signed("admin1"), Call::add_member { who: acc("erin") }).is_err());
'''),
    seed('m10-fraction', 'M10', 'communities', ORI,
         'nom: per.deconstruct(),\n\t\t\t\tdenom: <Permill as sp_runtime::PerThing>::ACCURACY,',
         'nom: per.deconstruct() / 10_000,\n\t\t\t\tdenom: <Permill as sp_runtime::PerThing>::ACCURACY / 10_000,',
         'a fraction of the community that is not a whole percentage', 'the fraction sent to other chains is rounded down to percents',
         '''	use xcm::latest::{BodyId, BodyPart, Junction};
	for parts in [0u32, 500_000, 666_667, 5_000, 1_000_000] {
		let mut o = origin::RawOrigin::<Chain>::new(7);
		o.with_subset(origin::Subset::Fraction(Permill::from_parts(parts)));
		match Junction::try_from(o) {
			Ok(Junction::Plurality { id: BodyId::Index(7), part: BodyPart::Fraction { nom, denom } }) => {
				assert_eq!(nom as u64 * 1_000_000, parts as u64 * denom as u64)
			}
			x => panic!("{x:?}"),
		}
	}
'''),
    seed('g01-induct', 'G01', 'manager', MAN,
         'T::RankedCollective::induct(&community_account)?;', 'let _ = T::RankedCollective::induct(&community_account);',
         'a collective that refuses the community', 'the registration succeeds without the community being inducted',
         '''	let register = |id: u16| manager::Call::<Chain>::register {
		community_id: id,
		name: b"Test".to_vec().try_into().unwrap(),
		first_admin: acc("erin"),
		maybe_decision_method: Some(DecisionMethod::Rank),
		maybe_track_info: None,
	};
	setup();
	manage(root(), register(5)).unwrap();
	let steps = world::snapshot().notes.len() as u32;
	assert_eq!(steps, 3);
	for k in 0..steps {
		setup();
		let before = world::snapshot();
		world::with(|w| w.fuse = Some(k));
		assert!(manage(root(), register(5)).is_err(), "step {k}");
		world::with(|w| w.fuse = None);
		assert_eq!(world::snapshot(), before);
	}
'''),
    seed('g02-free', 'G02', 'manager', MAN,
         '\t\t\t\t\tSome(price),\n', '\t\t\t\t\tSome(price).filter(|p| *p != 0u8.into()),\n',
         'memberships created at a price of zero', 'they are not offered at all instead of for free',
         '''	for price in [0u128, 5] {
		setup();
		manage(root(), manager::Call::create_memberships { amount: 3, starting_at: 7, price }).unwrap();
		let notes = world::snapshot().notes;
		for i in 7..10 {
			assert!(notes.contains(&format!("mint 0 {i} shop")));
			assert!(notes.contains(&format!("price 0 {i} {:?}", Some(price))));
		}
		assert_eq!(notes.len(), 6);
	}
'''),
    seed('p01-either', 'P01', 'payments', PAY,
         ['\t\t\tensure!(beneficiary == b, Error::<T>::InvalidBeneficiary);\n\n\t\t\tPayment::<T>::try_mutate(&sender, &payment_id,'],
         ['\t\t\tensure!([&sender, &b].contains(&&beneficiary), Error::<T>::InvalidBeneficiary);\n\n\t\t\tPayment::<T>::try_mutate(&sender, &payment_id,'],
         'the sender of a payment disputing the refund they asked for', 'a refund is disputed by the sender although only the beneficiary may',
         '''	setup(vec![], vec![]);
	let id = pay("alice", "bob", 1000).unwrap();
	run(signed("alice"), Call::request_refund { payment_id: id }).unwrap();
	for who in ["alice", "charlie", "judge"] {
		assert!(run(signed(who), Call::dispute_refund { payment_id: id }).is_err(), "{who}");
	}
	run(signed("bob"), Call::dispute_refund { payment_id: id }).unwrap();
'''),
    seed('p04-stop', 'P04', 'payments', PAY,
         '\t\tfor (recipient_account, fee_amount, mandatory) in fee_recipients.iter() {\n\t\t\tif !is_dispute || *mandatory {',
         '\t\tlet due = |fee: &Fee<T>| fee.1 != 0u8.into() && (!is_dispute || fee.2);\n\t\tfor (recipient_account, fee_amount, _) in fee_recipients.iter().take_while(|fee| due(fee)) {\n\t\t\t{',
         'a payment with a fee of zero listed before another one', 'the fees after the first empty one are not paid',
         '''	for list in [vec![("shop", 30), ("charlie", 20)], vec![("charlie", 0), ("shop", 20)], vec![("charlie", 5), ("judge", 0), ("shop", 7)]] {
		let fees: FeeList = list.iter().map(|(a, n)| (acc(a), *n, true)).collect();
		setup(fees, vec![]);
		let before: Vec<_> = list.iter().map(|(a, _)| f(a)).collect();
		let id = pay("alice", "bob", 1000).unwrap();
		run(signed("alice"), Call::release { payment_id: id }).unwrap();
		for ((a, n), b) in list.iter().zip(before) {
			assert_eq!(f(a), b + n, "{a}");
		}
	}
'''),
    seed('p11-payout', 'P11', 'payments', PAY,
         'T::Assets::transfer(payment.asset, beneficiary, sender, payment.amount, Expendable)', 'T::Assets::transfer(payment.asset, beneficiary, sender, payment.amount, Preserve)',
         'a beneficiary who owns nothing but the payment being returned', 'the refund fails because the account would be used up',
         '''	setup(vec![], vec![]);
	let before = f("alice");
	for to in ["bob", "newcomer"] {
		let id = pay("alice", to, 1000).unwrap();
		run(signed(to), Call::cancel { payment_id: id }).unwrap();
		assert_eq!(f("alice"), before);
		let id = pay("alice", to, 1000).unwrap();
		run(signed("alice"), Call::request_refund { payment_id: id }).unwrap();
		let due = world::with(|w| w.block) + 20;
		assert_eq!(run_to(due), vec![Ok(())]);
		assert_eq!(f("alice"), before);
	}
'''),
    seed('p11-fees', 'P11', 'payments', PAY,
         'T::Assets::transfer(payment.asset.clone(), account, recipient_account, *fee_amount, Preserve)', 'T::Assets::transfer(payment.asset.clone(), account, recipient_account, *fee_amount, Expendable)',
         'a payer whose last funds are exactly the fee', 'charging the fee closes the account of the payer',
         '''	setup(vec![(acc("shop"), 50, true)], vec![]);
	fund(ASSET, &acc("poor"), 50);
	fund(ASSET, &acc("rich"), 1051);
	let id = ask("bob", "rich", 1000).unwrap();
	run(signed("rich"), Call::accept_and_pay { payment_id: id }).unwrap();
	assert_eq!(f("rich"), 1);
	let id = ask("bob", "poor", 0).unwrap();
	assert!(run(signed("poor"), Call::accept_and_pay { payment_id: id }).is_err());
	assert_eq!(f("poor"), 50);
'''),
    seed('p12-margin', 'P12', 'payments', PAY,
         'cancel_block > frame_system::Pallet::<T>::block_number(),', 'cancel_block > frame_system::Pallet::<T>::block_number() + 1u8.into(),',
         'a refund disputed in the last block before the deadline', 'a dispute that is still in time is refused',
         '''	for wait in [1u32, 5, 10] {
		setup(vec![], vec![]);
		let id = pay("alice", "bob", 1000).unwrap();
		run(signed("alice"), Call::request_refund { payment_id: id }).unwrap();
		assert!(run_to(wait).is_empty());
		run(signed("bob"), Call::dispute_refund { payment_id: id }).unwrap();
	}
'''),
    seed('m03-last', 'M03', 'communities', FN,
         'frame_support::traits::tokens::Preservation::Preserve,\n\t\t\t)?;', 'frame_support::traits::tokens::Preservation::Expendable,\n\t\t\t)?;',
         'a depositor who owns exactly the deposit', 'registering uses up the account of the depositor',
         '''	setup();
	let admin = |s: &str| Caller::System(RawOrigin::Signed(acc(s)));
	fund(0, &acc("erin"), 101);
	run(signed("erin"), Call::create { admin_origin: admin("erin"), community_id: 5 }).unwrap();
	assert_eq!(free(0, &acc("erin")), 1);
	fund(0, &acc("frank"), 100);
	assert!(run(signed("frank"), Call::create { admin_origin: admin("frank"), community_id: 6 }).is_err());
	assert_eq!(free(0, &acc("frank")), 100);
'''),
    seed('m08-weight', 'M08', 'communities', COM,
         ['\t\t\tlet weight = T::WeightInfo::dispatch_as_account()\n\t\t\t\t.saturating_add(T::DbWeight::get().reads_writes(1, 1))\n\t\t\t\t.saturating_add(di.weight);\n\t\t\t(weight, di.class)\n\t\t})]\n\t\tpub fn'],
         ['\t\t\tlet weight = T::WeightInfo::dispatch_as_account()\n\t\t\t\t.max(di.weight)\n\t\t\t\t.saturating_add(T::DbWeight::get().reads_writes(1, 1))\n\t\t\t\t.saturating_sub(T::WeightInfo::dispatch_as_account());\n\t\t\t(weight, di.class)\n\t\t})]\n\t\tpub fn'],
         'an inner call that weighs more than dispatching does', 'the declared weight does not cover that of the inner call',
         '''	setup();
	for _ in 0..1 {
		let inner: RuntimeCall = Call::add_member { who: acc("dave") }.into();
		let mut calls = vec![inner];
		for _ in 0..3 {
			let last: RuntimeCall = calls.last().unwrap().clone();
			calls.push(Call::dispatch_as_account { call: Box::new(last) }.into());
		}
		for w in calls.windows(2) {
			let (a, b) = (w[0].get_dispatch_info().weight, w[1].get_dispatch_info().weight);
			assert!(a.ref_time() <= b.ref_time() && a.proof_size() <= b.proof_size(), "{a:?} {b:?}");
		}
	}
'''),
    seed('m11-keep', 'M11', 'communities', COM,
         '\t\t\t\t\tfalse,\n\t\t\t\t\tmin_vote,', '\t\t\t\t\tmin_vote > 1u8.into(),\n\t\t\t\t\tmin_vote,',
         'a method deciding by an asset with a minimum vote above one', 'the asset is created as one that keeps accounts alive by itself',
         '''	setup();
	for min in [0u128, 1, 2, 100] {
		method(1, DecisionMethod::CommunityAsset(44, min));
		let notes = world::snapshot().notes;
		let made: Vec<_> = notes.iter().filter(|n| n.starts_with("asset 44 ")).collect();
		assert!(made.last().unwrap().ends_with(&format!(" false {min}")), "{made:?}");
	}
'''),
    seed('m12-quiet', 'M12', 'communities', FN,
         '\t\t\t\tT::Balances::set_frozen(\n\t\t\t\t\t&FreezeReason::VoteCasted.into(),\n\t\t\t\t\twho,\n\t\t\t\t\tamount_to_freeze,\n\t\t\t\t\tframe_support::traits::tokens::Fortitude::Polite,\n\t\t\t\t)?;',
         '\t\t\t\tlet set = T::Balances::set_frozen(\n\t\t\t\t\t&FreezeReason::VoteCasted.into(),\n\t\t\t\t\twho,\n\t\t\t\t\tamount_to_freeze,\n\t\t\t\t\tframe_support::traits::tokens::Fortitude::Polite,\n\t\t\t\t);\n\t\t\t\tif amount_to_freeze.is_zero() {\n\t\t\t\t\tset?;\n\t\t\t\t}',
         'a freeze that cannot be adjusted while other locks of the voter remain', 'taking a vote back succeeds although the freeze was not adjusted',
         '''	setup();
	method(1, DecisionMethod::NativeToken);
	for i in 1..4 {
		open(i, 1);
		vote("alice", 10, i, Vote::NativeBalance(true, 100 * i as u128)).unwrap();
	}
	for i in 1..4 {
		world::with(|w| w.fuse = Some(0));
		assert!(run(signed("alice"), Call::remove_vote { membership_id: 10, poll_index: i }).is_err());
		world::with(|w| w.fuse = None);
		run(signed("alice"), Call::remove_vote { membership_id: 10, poll_index: i }).unwrap();
	}
	assert_eq!(frozen(0, &acc("alice")), 0);
'''),
    seed('m13-least', 'M13', 'communities', FN,
         'ensure!(amount >= min, Error::<T>::VoteBelowMinimum);', 'ensure!(amount > min, Error::<T>::VoteBelowMinimum);',
         'a vote of exactly the minimum', 'a vote that reaches the minimum is refused',
         '''	setup();
	for min in [1u128, 100, 5000] {
		method(1, DecisionMethod::CommunityAsset(TOKEN, min));
		open(1, 1);
		assert!(vote("alice", 10, 1, Vote::AssetBalance(true, TOKEN, min - 1)).is_err());
		vote("bob", 12, 1, Vote::AssetBalance(true, TOKEN, min + 1)).unwrap();
		vote("alice", 10, 1, Vote::AssetBalance(true, TOKEN, min)).unwrap();
	}
'''),
    seed('g03-name', 'G03', 'manager', MAN,
         '\t\t\t\tdecision_period: u8::MAX.into(),', '\t\t\t\tdecision_period: (u8::MAX >> (name.len() > 20) as u8).into(),',
         'a community whose name has more than twenty characters, registered without track parameters', 'its referenda are decided in half the time',
         '''	for name in ["Test", "A community of cooks and", "Virto network people"] {
		setup();
		TRACKS.with(|t| t.borrow_mut().clear());
		manage(root(), manager::Call::register {
			community_id: 5,
			name: name.as_bytes().to_vec().try_into().unwrap(),
			first_admin: acc("erin"),
			maybe_decision_method: None,
			maybe_track_info: None,
		}).unwrap();
		let t = TRACKS.with(|t| t.borrow()[0].clone());
		assert_eq!((t.max_deciding, t.decision_deposit, t.prepare_period, t.decision_period, t.confirm_period, t.min_enactment_period), (1, 0, 1, 255, 1, 1));
		let line = |floor, ceil| Curve::LinearDecreasing { length: Perbill::from_percent(100), floor: Perbill::from_percent(floor), ceil: Perbill::from_percent(ceil) };
		assert_eq!((t.min_approval, t.min_support), (line(50, 100), line(0, 50)));
	}
'''),
    seed('r24-votes', 'R24', 'communities', CTY,
         '\tAssetBalance(bool, AssetId, AssetBalance),\n\tNativeBalance(bool, NativeBalance),\n\tStandard(bool),\n',
         '\tStandard(bool),\n\tNativeBalance(bool, NativeBalance),\n\tAssetBalance(bool, AssetId, AssetBalance),\n',
         'votes stored before, or signed by clients that know the published form', 'recorded votes on assets are read as standard votes',
         '''	use parity_scale_codec::{Decode, Encode};
	type V = Vote<u32, u128, u128>;
	for (v, form) in [
		(V::AssetBalance(true, 7, 1), [&[0u8, 1, 7, 0, 0, 0, 1][..], &[0; 15]].concat()),
		(V::NativeBalance(false, 2), [&[1u8, 0, 2][..], &[0; 15]].concat()),
		(V::Standard(true), vec![2, 1]),
	] {
		assert_eq!(v.encode(), form);
		assert_eq!(V::decode(&mut &form[..]).unwrap(), v);
	}
'''),
]
