import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))


def compile(d, case):
    import minicheck
    return minicheck.check(d)


LIB = 'pallets/payments/src/lib.rs'
TY = 'pallets/payments/src/types.rs'
ALL = ['P%02d' % i for i in range(1, 13)] + ['R01', 'R15']
CASES = []


def q(id, *edits, props=None):
    CASES.append({'id': 'q-' + id, 'edits': list(edits), 'expect': 'quiet', 'props': props or ALL})


def b(id, fires, *edits):
    CASES.append({'id': 'b-' + id, 'edits': list(edits), 'expect': 'caught', 'fires': fires, 'props': fires})


# ------------------------------------------------------------------ behaviour-preserving
q('comment', (LIB, '$END', '\n// a note\n'), (TY, '$END', '\n// a note\n'))
q('noop', (LIB, '			let sender = T::SenderOrigin::ensure_origin(origin)?;\n', '			let _ = 0;\n			let sender = T::SenderOrigin::ensure_origin(origin)?;\n			let _unused = ();\n'))
q('release-match', (LIB, '''			let payment = Payment::<T>::get(&sender, &payment_id).map_err(|_| Error::<T>::InvalidPayment)?;
			ensure!(payment.state == PaymentState::Created, Error::<T>::InvalidAction);
			Self::settle_payment(&sender, &payment.beneficiary, &payment_id, None)?;
''', '''			let payment = match Payment::<T>::get(&sender, &payment_id) {
				Ok(p) => p,
				Err(_) => return Err(Error::<T>::InvalidPayment.into()),
			};
			match payment.state {
				PaymentState::Created => {}
				_ => return Err(Error::<T>::InvalidAction.into()),
			}
			Self::settle_payment(&sender, &payment.beneficiary, &payment_id, None)?;
'''))
q('release-matches', (LIB, '''			ensure!(payment.state == PaymentState::Created, Error::<T>::InvalidAction);
			Self::settle_payment''', '''			if !matches!(payment.state, PaymentState::Created) {
				fail!(Error::<T>::InvalidAction);
			}
			Self::settle_payment'''))
q('release-destructure', (LIB, '''			ensure!(payment.state == PaymentState::Created, Error::<T>::InvalidAction);
			Self::settle_payment(&sender, &payment.beneficiary, &payment_id, None)?;
''', '''			let PaymentDetail { state, beneficiary, .. } = payment;
			ensure!(state == PaymentState::Created, Error::<T>::InvalidAction);
			Self::settle_payment(&sender, &beneficiary, &payment_id, None)?;
'''))
q('helper-load', (LIB, '''			let payment = Payment::<T>::get(&sender, &payment_id).map_err(|_| Error::<T>::InvalidPayment)?;
''', '''			let payment = Self::load(&sender, &payment_id)?;
'''), (LIB, '''	fn reserve_payment_amount(''', '''	fn load(sender: &T::AccountId, payment_id: &T::PaymentId) -> Result<PaymentDetail<T>, DispatchError> {
		Payment::<T>::get(sender, payment_id).map_err(|_| Error::<T>::InvalidPayment.into())
	}

	fn reserve_payment_amount('''))
q('helper-parties', (LIB, '''			let beneficiary = T::BeneficiaryOrigin::ensure_origin(origin)?;
			let (sender, b) = PaymentParties::<T>::get(&payment_id)?;
			ensure!(beneficiary == b, Error::<T>::InvalidBeneficiary);
''', '''			let (sender, beneficiary) = Self::ensure_beneficiary(origin, &payment_id)?;
'''), (LIB, '''	fn reserve_payment_amount(''', '''	fn ensure_beneficiary(
		origin: frame_system::pallet_prelude::OriginFor<T>,
		payment_id: &T::PaymentId,
	) -> Result<(T::AccountId, T::AccountId), DispatchError> {
		use frame_support::traits::EnsureOrigin;
		let who = T::BeneficiaryOrigin::ensure_origin(origin)?;
		let (sender, beneficiary) = PaymentParties::<T>::get(payment_id)?;
		if who != beneficiary {
			return Err(Error::<T>::InvalidBeneficiary.into());
		}
		Ok((sender, beneficiary))
	}

	fn reserve_payment_amount('''))
q('hold-total-helper', (LIB, '''		let (_fee_recipients, total_fee_from_sender_mandatory, total_fee_from_sender_optional) =
			payment.fees.summary_for(Role::Sender, false)?;

		let total_hold_amount = total_fee_from_sender_mandatory
			.saturating_add(payment.incentive_amount)
			.saturating_add(total_fee_from_sender_optional);
''', '''		let total_hold_amount = Self::sender_hold(&payment)?;
'''), (LIB, '''	fn reserve_payment_amount(''', '''	fn sender_hold(payment: &PaymentDetail<T>) -> Result<BalanceOf<T>, DispatchError> {
		let (_, mandatory, optional) = payment.fees.summary_for(Role::Sender, false)?;
		Ok(payment.incentive_amount.saturating_add(optional).saturating_add(mandatory))
	}

	fn reserve_payment_amount('''))
q('request-refund-order', (LIB, '''				T::Scheduler::schedule_named(
					("payment", payment_id).using_encoded(blake2_256),
					DispatchTime::At(cancel_block),
					None,
					63,
					frame_system::RawOrigin::Signed(payment.beneficiary.clone()).into(),
					T::Preimages::bound(cancel_call)?,
				)?;

				payment.state = PaymentState::RefundRequested { cancel_block };
''', '''				payment.state = PaymentState::RefundRequested { cancel_block };

				let task_name = Self::task_name(payment_id);
				let bounded = T::Preimages::bound(cancel_call)?;
				let when = DispatchTime::At(cancel_block);
				let origin = frame_system::RawOrigin::Signed(payment.beneficiary.clone()).into();
				T::Scheduler::schedule_named(task_name, when, None, 63, origin, bounded)?;
'''), (LIB, '''				T::Scheduler::cancel_named(("payment", payment_id).using_encoded(blake2_256))
''', '''				T::Scheduler::cancel_named(Self::task_name(payment_id))
'''), (LIB, '''	fn reserve_payment_amount(''', '''	fn task_name(payment_id: T::PaymentId) -> [u8; 32] {
		("payment", payment_id).using_encoded(blake2_256)
	}

	fn reserve_payment_amount('''))
q('request-refund-get-insert', (LIB, '''			let expiry = Payment::<T>::try_mutate(&sender, &payment_id, |maybe_payment| -> Result<_, DispatchError> {
				// ensure the payment exists
				let payment = maybe_payment.as_mut().map_err(|_| Error::<T>::InvalidPayment)?;
				// refunds only possible for payments in created state
				ensure!(payment.state == PaymentState::Created, Error::<T>::InvalidAction);

				// set the payment to requested refund
				let current_block = frame_system::Pallet::<T>::block_number();
				let cancel_block = current_block
					.checked_add(&T::CancelBufferBlockLength::get())
					.ok_or(Error::<T>::MathError)?;
				let cancel_call = <T as Config>::RuntimeCall::from(pallet::Call::<T>::cancel { payment_id });
''', '''			let expiry = {
				let mut payment = Payment::<T>::get(&sender, &payment_id).map_err(|_| Error::<T>::InvalidPayment)?;
				ensure!(payment.state == PaymentState::Created, Error::<T>::InvalidAction);
				let current_block = frame_system::Pallet::<T>::block_number();
				let cancel_block = current_block
					.checked_add(&T::CancelBufferBlockLength::get())
					.ok_or(Error::<T>::MathError)?;
				let cancel_call = <T as Config>::RuntimeCall::from(pallet::Call::<T>::cancel { payment_id });
'''), (LIB, '''				payment.state = PaymentState::RefundRequested { cancel_block };

				Ok(cancel_block)
			})?;
''', '''				payment.state = PaymentState::RefundRequested { cancel_block };
				Payment::<T>::insert(&sender, &payment_id, payment);

				cancel_block
			};
'''))
q('accept-get-insert', (LIB, '''			Payment::<T>::try_mutate(&sender, payment_id, |maybe_payment| -> Result<_, DispatchError> {
				let payment = maybe_payment.as_mut().map_err(|_| Error::<T>::InvalidPayment)?;
				// only requested payments that are still pending can be accepted
				ensure!(
					payment.state == PaymentState::PaymentRequested,
					Error::<T>::InvalidAction
				);
				const IS_DISPUTE: bool = false;
''', '''			let mut detail = Payment::<T>::get(&sender, payment_id).map_err(|_| Error::<T>::InvalidPayment)?;
			let payment = &mut detail;
			ensure!(
				payment.state == PaymentState::PaymentRequested,
				Error::<T>::InvalidAction
			);
			const IS_DISPUTE: bool = false;
'''), (LIB, '''				Self::try_transfer_fees(&beneficiary, payment, fee_beneficiary_recipients, IS_DISPUTE)?;

				payment.state = PaymentState::Finished;
				Ok(())
			})?;
''', '''				Self::try_transfer_fees(&beneficiary, payment, fee_beneficiary_recipients, IS_DISPUTE)?;

				payment.state = PaymentState::Finished;
			Payment::<T>::insert(&sender, payment_id, detail);
'''))
q('accept-beneficiary-from-record', (LIB, '''			let (_, beneficiary) = PaymentParties::<T>::get(&payment_id)?;

			Payment::<T>::try_mutate(&sender, payment_id, |maybe_payment| -> Result<_, DispatchError> {
				let payment = maybe_payment.as_mut().map_err(|_| Error::<T>::InvalidPayment)?;
''', '''			Payment::<T>::try_mutate(&sender, payment_id, |maybe_payment| -> Result<_, DispatchError> {
				let payment = maybe_payment.as_mut().map_err(|_| Error::<T>::InvalidPayment)?;
				let beneficiary = payment.beneficiary.clone();
'''))
q('cancel-or-pattern', (LIB, '''			match payment.state {
				PaymentState::Created => {
					Self::cancel_payment(&sender, payment)?;
					Self::deposit_event(Event::PaymentCancelled { payment_id });
				}
				PaymentState::RefundRequested { cancel_block: _ } => {
					Self::cancel_payment(&sender, payment)?;
					Self::deposit_event(Event::PaymentRefunded { payment_id });
				}
				_ => fail!(Error::<T>::InvalidAction),
			}

			Payment::<T>::remove(&sender, &payment_id);
			PaymentParties::<T>::remove(payment_id);
''', '''			let event = match payment.state {
				PaymentState::Created => Event::PaymentCancelled { payment_id },
				PaymentState::RefundRequested { .. } => Event::PaymentRefunded { payment_id },
				PaymentState::NeedsReview | PaymentState::PaymentRequested | PaymentState::Finished => {
					return Err(Error::<T>::InvalidAction.into())
				}
			};
			Payment::<T>::remove(&sender, &payment_id);
			PaymentParties::<T>::remove(payment_id);
			Self::cancel_payment(&sender, payment)?;
			Self::deposit_event(event);
'''))
q('cancel-if-chain', (LIB, '''			match payment.state {
				PaymentState::Created => {
					Self::cancel_payment(&sender, payment)?;
					Self::deposit_event(Event::PaymentCancelled { payment_id });
				}
				PaymentState::RefundRequested { cancel_block: _ } => {
					Self::cancel_payment(&sender, payment)?;
					Self::deposit_event(Event::PaymentRefunded { payment_id });
				}
				_ => fail!(Error::<T>::InvalidAction),
			}
''', '''			let was_open = payment.state == PaymentState::Created;
			let refunding = matches!(payment.state, PaymentState::RefundRequested { .. });
			ensure!(was_open || refunding, Error::<T>::InvalidAction);
			Self::cancel_payment(&sender, payment)?;
			if was_open {
				Self::deposit_event(Event::PaymentCancelled { payment_id });
			} else {
				Self::deposit_event(Event::PaymentRefunded { payment_id });
			}
'''))
q('take-payment', (LIB, '''			let payment = Payment::<T>::get(&sender, &payment_id).map_err(|_| Error::<T>::InvalidPayment)?;

			match payment.state {''', '''			let payment = Payment::<T>::take(&sender, &payment_id).map_err(|_| Error::<T>::InvalidPayment)?;

			match payment.state {'''), (LIB, '''			Payment::<T>::remove(&sender, &payment_id);
''', ''))
q('dispute-le', (LIB, '''				ensure!(
					cancel_block > frame_system::Pallet::<T>::block_number(),
					Error::<T>::InvalidAction
				);
''', '''				let now = frame_system::Pallet::<T>::block_number();
				if cancel_block <= now {
					fail!(Error::<T>::InvalidAction);
				}
'''))
q('dispute-if-let', (LIB, '''				let PaymentState::RefundRequested { cancel_block } = payment.state else {
					fail!(Error::<T>::InvalidAction);
				};
''', '''				let cancel_block = match &payment.state {
					PaymentState::RefundRequested { cancel_block } => *cancel_block,
					_ => fail!(Error::<T>::InvalidAction),
				};
'''))
q('dispute-cancel-first', (LIB, '''				payment.state = PaymentState::NeedsReview;

				T::Scheduler::cancel_named(("payment", payment_id).using_encoded(blake2_256))
			})?;
''', '''				T::Scheduler::cancel_named(("payment", payment_id).using_encoded(blake2_256))?;
				payment.state = PaymentState::NeedsReview;
				Ok(())
			})?;
'''))
q('settle-split', (LIB, '''			let (
				fee_beneficiary_recipients,
				_total_beneficiary_fee_amount_mandatory,
				_total_beneficiary_fee_amount_optional,
			) = payment.fees.summary_for(Role::Beneficiary, is_dispute)?;

			let mut beneficiary_release_amount = payment.amount;

			if is_dispute {
				beneficiary_release_amount = beneficiary_release_amount.saturating_add(payment.incentive_amount);
			}
''', '''			let (fee_beneficiary_recipients, _, _) = payment.fees.summary_for(Role::Beneficiary, is_dispute)?;

			let beneficiary_release_amount = match &maybe_dispute {
				Some(_) => payment.incentive_amount.saturating_add(payment.amount),
				None => payment.amount,
			};
'''))
q('settle-two-releases', (LIB, '''			T::Assets::release(payment.asset.clone(), reason, sender, total_sender_release, Exact)
				.map_err(|_| Error::<T>::ReleaseFailed)?;
''', '''			let fees = total_sender_release.saturating_sub(payment.incentive_amount);
			T::Assets::release(payment.asset.clone(), reason, sender, fees, Exact)
				.map_err(|_| Error::<T>::ReleaseFailed)?;
			T::Assets::release(payment.asset.clone(), reason, sender, payment.incentive_amount, Exact)
				.map_err(|_| Error::<T>::ReleaseFailed)?;
'''))
q('settle-loser', (LIB, '''				match dispute_result.in_favor_of {
					Role::Sender => {
						let amount_to_sender = dispute_result.percent_beneficiary.mul_floor(payment.amount);

						// Beneficiary looses the dispute and has to transfer the incentive_amount to
						// the dispute_resolver.
						T::Assets::transfer(
							payment.asset.clone(),
							beneficiary,
							&resolver,
							payment.incentive_amount,
							Expendable,
						)
						.map_err(|_| Error::<T>::TransferFailed)?;

						T::Assets::transfer(payment.asset.clone(), beneficiary, sender, amount_to_sender, Expendable)
							.map_err(|_| Error::<T>::TransferFailed)?;
					}
					Role::Beneficiary => {
						let amount_to_beneficiary = dispute_result.percent_beneficiary.mul_floor(payment.amount);
						let amount_to_sender = payment.amount.saturating_sub(amount_to_beneficiary);

						T::Assets::transfer(
							payment.asset.clone(),
							sender,
							&resolver,
							payment.incentive_amount,
							Expendable,
						)
						.map_err(|_| Error::<T>::TransferFailed)?;

						T::Assets::transfer(payment.asset.clone(), beneficiary, sender, amount_to_sender, Expendable)
							.map_err(|_| Error::<T>::TransferFailed)?;
					}
				}
''', '''				let share = dispute_result.percent_beneficiary.mul_floor(payment.amount);
				let (loser, amount_to_sender) = if dispute_result.in_favor_of == Role::Sender {
					(beneficiary, share)
				} else {
					(sender, payment.amount.saturating_sub(share))
				};
				T::Assets::transfer(payment.asset.clone(), loser, &resolver, payment.incentive_amount, Expendable)
					.map_err(|_| Error::<T>::TransferFailed)?;
				T::Assets::transfer(payment.asset.clone(), beneficiary, sender, amount_to_sender, Expendable)
					.map_err(|_| Error::<T>::TransferFailed)?;
'''))
q('percent-mul-op', (LIB, 'let amount_to_sender = dispute_result.percent_beneficiary.mul_floor(payment.amount);', 'let DisputeResult { percent_beneficiary, .. } = dispute_result;\n						let amount_to_sender = percent_beneficiary.mul_floor(payment.amount);'))
q('dispute-struct-arg', (LIB, '''			let dispute = Some((dispute_result, dispute_resolver));
			Self::settle_payment(&sender, &beneficiary, &payment_id, dispute)?;
''', '''			let outcome = (dispute_result, dispute_resolver);
			Self::settle_payment(&sender, &beneficiary, &payment_id, Some(outcome))?;
'''))
q('fees-for-ref', (LIB, '''		for (recipient_account, fee_amount, mandatory) in fee_recipients.iter() {
			if !is_dispute || *mandatory {
				T::Assets::transfer(payment.asset.clone(), account, recipient_account, *fee_amount, Preserve)
					.map_err(|_| Error::<T>::TransferFailed)?;
			}
		}
		Ok(())
''', '''		for (recipient, fee, mandatory) in fee_recipients {
			if is_dispute && !mandatory {
				continue;
			}
			T::Assets::transfer(payment.asset.clone(), account, &recipient, fee, Preserve)
				.map_err(|_| Error::<T>::TransferFailed)?;
		}
		Ok(())
'''))
q('fees-filter', (LIB, '''		for (recipient_account, fee_amount, mandatory) in fee_recipients.iter() {
			if !is_dispute || *mandatory {
				T::Assets::transfer(payment.asset.clone(), account, recipient_account, *fee_amount, Preserve)
					.map_err(|_| Error::<T>::TransferFailed)?;
			}
		}
		Ok(())
''', '''		for (recipient, fee, _) in fee_recipients.iter().filter(|(_, _, mandatory)| !is_dispute || *mandatory) {
			T::Assets::transfer(payment.asset.clone(), account, recipient, *fee, Preserve)
				.map_err(|_| Error::<T>::TransferFailed)?;
		}
		Ok(())
'''))
q('fees-try-for-each', (LIB, '''		for (recipient_account, fee_amount, mandatory) in fee_recipients.iter() {
			if !is_dispute || *mandatory {
				T::Assets::transfer(payment.asset.clone(), account, recipient_account, *fee_amount, Preserve)
					.map_err(|_| Error::<T>::TransferFailed)?;
			}
		}
		Ok(())
''', '''		fee_recipients
			.iter()
			.filter(|(_, _, mandatory)| !is_dispute || *mandatory)
			.try_for_each(|(recipient, fee, _)| -> DispatchResult {
				T::Assets::transfer(payment.asset.clone(), account, recipient, *fee, Preserve)
					.map_err(|_| Error::<T>::TransferFailed)?;
				Ok(())
			})
'''))
q('fees-index-loop', (LIB, '''		for (recipient_account, fee_amount, mandatory) in fee_recipients.iter() {
			if !is_dispute || *mandatory {
				T::Assets::transfer(payment.asset.clone(), account, recipient_account, *fee_amount, Preserve)
					.map_err(|_| Error::<T>::TransferFailed)?;
			}
		}
		Ok(())
''', '''		let mut i = 0;
		while i < fee_recipients.len() {
			let (recipient, fee, mandatory) = &fee_recipients[i];
			if !is_dispute || *mandatory {
				T::Assets::transfer(payment.asset.clone(), account, recipient, *fee, Preserve)
					.map_err(|_| Error::<T>::TransferFailed)?;
			}
			i += 1;
		}
		Ok(())
'''))
q('create-split', (LIB, '''			let incentive_amount = incentive_percentage.mul_floor(amount);

			let fees_details: Fees<T> = T::FeeHandler::apply_fees(&asset, sender, &beneficiary, &amount, remark);

			let new_payment = PaymentDetail::<T> {
				asset,
				amount,
				beneficiary: beneficiary.clone(),
				incentive_amount,
				state: payment_state,
				fees: fees_details,
			};
			*maybe_payment = Ok(new_payment.clone());
			PaymentParties::<T>::insert(payment_id, (sender, beneficiary));

			Ok(new_payment)
''', '''			let fees = T::FeeHandler::apply_fees(&asset, sender, &beneficiary, &amount, remark);
			PaymentParties::<T>::insert(payment_id, (sender, &beneficiary));
			let new_payment = PaymentDetail::<T> {
				incentive_amount: incentive_percentage * amount,
				fees,
				state: payment_state,
				beneficiary,
				amount,
				asset,
			};
			*maybe_payment = Ok(new_payment.clone());

			Ok(new_payment)
'''), props=['P01', 'P02', 'P03', 'P07', 'P09'])
q('create-get-insert', (LIB, '''		Payment::<T>::try_mutate(sender, payment_id, |maybe_payment| -> Result<_, DispatchError> {
			if let Ok(payment) = maybe_payment {
				ensure!(
					payment.state == PaymentState::PaymentRequested,
					Error::<T>::PaymentAlreadyInProcess
				);
			}
			// an identifier keeps belonging to the parties it was first assigned to
			if let Ok((s, b)) = PaymentParties::<T>::get(payment_id) {
				ensure!(
					&s == sender && b == beneficiary,
					Error::<T>::PaymentAlreadyInProcess
				);
			}

			let incentive_amount''', '''		if let Ok(payment) = Payment::<T>::get(sender, payment_id) {
			ensure!(
				payment.state == PaymentState::PaymentRequested,
				Error::<T>::PaymentAlreadyInProcess
			);
		}
		match PaymentParties::<T>::get(payment_id) {
			Ok((s, b)) if &s != sender || b != beneficiary => {
				return Err(Error::<T>::PaymentAlreadyInProcess.into());
			}
			_ => {}
		}

			let incentive_amount'''), (LIB, '''			*maybe_payment = Ok(new_payment.clone());
			PaymentParties::<T>::insert(payment_id, (sender, beneficiary));

			Ok(new_payment)
		})
		.map(|payment| (payment_id, payment))
''', '''		Payment::<T>::insert(sender, payment_id, new_payment.clone());
		PaymentParties::<T>::insert(payment_id, (sender, beneficiary));

		Ok((payment_id, new_payment))
'''))
q('create-param-drop', (LIB, '''				PaymentState::Created,
				T::IncentivePercentage::get(),
''', '''				PaymentState::Created,
'''), (LIB, '''				PaymentState::PaymentRequested,
				T::IncentivePercentage::get(),
''', '''				PaymentState::PaymentRequested,
'''), (LIB, '''		incentive_percentage: Percent,
		remark''', '''		remark'''), (LIB, 'incentive_percentage.mul_floor(amount)', '<T::IncentivePercentage as sp_runtime::traits::Get<Percent>>::get().mul_floor(amount)'))
q('stricter-create', (LIB, '''			if let Ok(payment) = maybe_payment {
				ensure!(
					payment.state == PaymentState::PaymentRequested,
					Error::<T>::PaymentAlreadyInProcess
				);
			}
''', '''			ensure!(maybe_payment.is_err(), Error::<T>::PaymentAlreadyInProcess);
'''))
q('summary-fold', (TY, '''		for (account, fee, charge_dispute) in fees.iter() {
			if is_dispute {
				if *charge_dispute {
					total_to_discount = total_to_discount.saturating_add(*fee);
				} else {
					total_to_return = total_to_return.saturating_add(*fee);
				}
			} else {
				total_to_discount = total_to_discount.saturating_add(*fee);
			}
''', '''		for (account, fee, charge_dispute) in fees.iter() {
			if is_dispute && !*charge_dispute {
				total_to_return = total_to_return.saturating_add(*fee);
			} else {
				total_to_discount = total_to_discount.saturating_add(*fee);
			}
'''))
q('summary-accrue', (TY, 'total_to_return = total_to_return.saturating_add(*fee);', 'total_to_return.saturating_accrue(*fee);'),
  (TY, 'total_to_discount = total_to_discount.saturating_add(*fee);', 'total_to_discount.saturating_accrue(*fee);'))
q('summary-target', (TY, '''			if is_dispute {
				if *charge_dispute {
					total_to_discount = total_to_discount.saturating_add(*fee);
				} else {
					total_to_return = total_to_return.saturating_add(*fee);
				}
			} else {
				total_to_discount = total_to_discount.saturating_add(*fee);
			}
''', '''			let total = if !is_dispute || *charge_dispute {
				&mut total_to_discount
			} else {
				&mut total_to_return
			};
			*total = total.saturating_add(*fee);
'''))
q('summary-vec', (TY, '''			let current_fee = fees_per_account
				.entry((account.clone(), *charge_dispute))
				.or_insert_with(|| (account.clone(), Zero::zero(), *charge_dispute));
			let (_, current_balance, _) = current_fee;
			*current_balance = current_balance.saturating_add(*fee);
''', '''			fee_list.push((account.clone(), *fee, *charge_dispute));
'''), (TY, '''		let mut fees_per_account: BTreeMap<(AccountIdOf<T>, ChargableOnDisputes), Fee<T>> = BTreeMap::new();
''', '''		let mut fee_list: Vec<Fee<T>> = Vec::new();
'''), (TY, '''			fees_per_account.into_values().collect(),
''', '''			fee_list,
'''))
q('summary-clone', (TY, '''			let current_fee = fees_per_account
				.entry((account.clone(), *charge_dispute))
				.or_insert_with(|| (account.clone(), Zero::zero(), *charge_dispute));
			let (_, current_balance, _) = current_fee;
			*current_balance = current_balance.saturating_add(*fee);
''', ''), (TY, '''		let mut fees_per_account: BTreeMap<(AccountIdOf<T>, ChargableOnDisputes), Fee<T>> = BTreeMap::new();
''', ''), (TY, '''			fees_per_account.into_values().collect(),
''', '''			fees.iter().cloned().collect(),
'''), (TY, 'for (account, fee, charge_dispute) in fees.iter()', 'for (_, fee, charge_dispute) in fees.iter()'))
q('summary-entry-style', (TY, '''			let current_fee = fees_per_account
				.entry((account.clone(), *charge_dispute))
				.or_insert_with(|| (account.clone(), Zero::zero(), *charge_dispute));
			let (_, current_balance, _) = current_fee;
			*current_balance = current_balance.saturating_add(*fee);
''', '''			fees_per_account
				.entry((account.clone(), *charge_dispute))
				.and_modify(|(_, current, _)| *current = current.saturating_add(*fee))
				.or_insert((account.clone(), *fee, *charge_dispute));
'''))
q('summary-iter', (TY, '''		let mut total_to_discount: BalanceOf<T> = Zero::zero();
		let mut total_to_return: BalanceOf<T> = Zero::zero();

		for (account, fee, charge_dispute) in fees.iter() {
			if is_dispute {
				if *charge_dispute {
					total_to_discount = total_to_discount.saturating_add(*fee);
				} else {
					total_to_return = total_to_return.saturating_add(*fee);
				}
			} else {
				total_to_discount = total_to_discount.saturating_add(*fee);
			}

''', '''		let sum = |charged: bool| {
			fees.iter()
				.filter(|(_, _, mandatory)| (!is_dispute || *mandatory) == charged)
				.fold(BalanceOf::<T>::zero(), |acc, (_, fee, _)| acc.saturating_add(*fee))
		};
		let total_to_discount = sum(true);
		let total_to_return = sum(false);

		for (account, fee, charge_dispute) in fees.iter() {
'''))
q('event-into', (LIB, 'Self::deposit_event(Event::PaymentReleased { payment_id });', 'let event = Event::PaymentReleased { payment_id };\n			Self::deposit_event(event);'))
q('reserve-inline', (LIB, '''			Self::reserve_payment_amount(&sender, payment_detail)?;
			// emit''', '''			Self::reserve_payment_amount(&sender, &payment_detail)?;
			// emit'''), (LIB, 'fn reserve_payment_amount(sender: &T::AccountId, payment: PaymentDetail<T>) -> DispatchResult {', 'fn reserve_payment_amount(sender: &T::AccountId, payment: &PaymentDetail<T>) -> DispatchResult {'),
  (LIB, '''		T::Assets::transfer_and_hold(
			payment.asset,
			reason,
			sender,
			&payment.beneficiary,
			payment.amount,
			Exact,
			Preserve,
			Polite,
		)?;

		Ok(())
''', '''		T::Assets::transfer_and_hold(
			payment.asset.clone(),
			reason,
			sender,
			&payment.beneficiary,
			payment.amount,
			Exact,
			Preserve,
			Polite,
		)
		.map(|_| ())
'''))
q('reserve-swap', (LIB, '''		T::Assets::hold(payment.asset.clone(), reason, sender, total_hold_amount)?;

		T::Assets::transfer_and_hold(
			payment.asset,
			reason,
			sender,
			&payment.beneficiary,
			payment.amount,
			Exact,
			Preserve,
			Polite,
		)?;

		Ok(())
''', '''		T::Assets::transfer(payment.asset.clone(), sender, &payment.beneficiary, payment.amount, Preserve)?;
		T::Assets::hold(payment.asset.clone(), reason, &payment.beneficiary, payment.amount)?;
		T::Assets::hold(payment.asset, reason, sender, total_hold_amount)
'''))
q('const-name', (LIB, '''	fn reserve_payment_amount(''', '''	fn hold_reason() -> T::RuntimeHoldReason {
		HoldReason::TransferPayment.into()
	}

	fn reserve_payment_amount('''), (LIB, '''		let reason = &HoldReason::TransferPayment.into();
''', '''		let reason = &Self::hold_reason();
'''))
q('checked-fees', (LIB, '''		let total_hold_amount = total_fee_from_sender_mandatory
			.saturating_add(payment.incentive_amount)
			.saturating_add(total_fee_from_sender_optional);
''', '''		let total_hold_amount = total_fee_from_sender_mandatory
			.checked_add(&payment.incentive_amount)
			.and_then(|x| x.checked_add(&total_fee_from_sender_optional))
			.ok_or(Error::<T>::MathError)?;
'''))
q('resolve-check-beneficiary', (LIB, '''			ensure!(payment.state == PaymentState::NeedsReview, Error::<T>::InvalidAction);
''', '''			ensure!(
				payment.state == PaymentState::NeedsReview && payment.beneficiary == beneficiary,
				Error::<T>::InvalidAction
			);
'''))
q('lookup-method', (LIB, '''			let sender = T::SenderOrigin::ensure_origin(origin)?;
			let beneficiary = T::Lookup::lookup(beneficiary)?;
''', '''			let sender = <T::SenderOrigin as EnsureOrigin<_>>::ensure_origin(origin)?;
			let beneficiary = <T as frame_system::Config>::Lookup::lookup(beneficiary)?;
'''))
q('pay-dispatch-result', (LIB, '''			Self::deposit_event(Event::PaymentReleased { payment_id });
			Ok(().into())
''', '''			Self::deposit_event(Event::PaymentReleased { payment_id });
			Ok(frame_support::dispatch::PostDispatchInfo::default())
'''))
q('pay-and-then', (LIB, '''			Self::settle_payment(&sender, &payment.beneficiary, &payment_id, None)?;

			Self::deposit_event(Event::PaymentReleased { payment_id });
			Ok(().into())
''', '''			Self::settle_payment(&sender, &payment.beneficiary, &payment_id, None)
				.map(|_| {
					Self::deposit_event(Event::PaymentReleased { payment_id });
					().into()
				})
				.map_err(Into::into)
'''))
q('saturating-deadline', (LIB, '''				let cancel_block = current_block
					.checked_add(&T::CancelBufferBlockLength::get())
					.ok_or(Error::<T>::MathError)?;
''', '''				let buffer = T::CancelBufferBlockLength::get();
				let Some(cancel_block) = current_block.checked_add(&buffer) else {
					return Err(Error::<T>::MathError.into());
				};
'''))

# ------------------------------------------------------------------ breaking
b('release-beneficiary-origin', ['P01'], (LIB, '''		pub fn release(origin: OriginFor<T>, payment_id: T::PaymentId) -> DispatchResultWithPostInfo {
			let sender = T::SenderOrigin::ensure_origin(origin)?;
''', '''		pub fn release(origin: OriginFor<T>, payment_id: T::PaymentId) -> DispatchResultWithPostInfo {
			T::SenderOrigin::ensure_origin(origin)?;
			let (sender, _) = PaymentParties::<T>::get(&payment_id)?;
'''))
b('cancel-no-check', ['P01'], (LIB, '''			let (sender, b) = PaymentParties::<T>::get(&payment_id)?;
			ensure!(beneficiary == b, Error::<T>::InvalidBeneficiary);

			let payment = Payment''', '''			let (sender, _b) = PaymentParties::<T>::get(&payment_id)?;
			let _ = &beneficiary;

			let payment = Payment'''))
b('dispute-either', ['P01'], (LIB, '''			ensure!(beneficiary == b, Error::<T>::InvalidBeneficiary);

			Payment::<T>::try_mutate''', '''			ensure!(beneficiary == b || beneficiary == sender, Error::<T>::InvalidBeneficiary);

			Payment::<T>::try_mutate'''))
b('resolve-sender-origin', ['P01'], (LIB, 'let dispute_resolver = T::DisputeResolver::ensure_origin(origin)?;', 'let dispute_resolver = T::SenderOrigin::ensure_origin(origin)?;'))
b('request-swapped', ['P01'], (LIB, '''			let (payment_id, _) = Self::create_payment(
				&sender,
				beneficiary,
''', '''			let (payment_id, _) = Self::create_payment(
				&beneficiary,
				sender,
'''))
b('accept-wrong-key', ['P01'], (LIB, '''			let (_, beneficiary) = PaymentParties::<T>::get(&payment_id)?;

			Payment::<T>::try_mutate(&sender''', '''			let (payer, beneficiary) = PaymentParties::<T>::get(&payment_id)?;

			Payment::<T>::try_mutate(&payer'''))
b('release-any-state', ['P02'], (LIB, '''			ensure!(payment.state == PaymentState::Created, Error::<T>::InvalidAction);
			Self::settle''', '''			ensure!(payment.state != PaymentState::Finished, Error::<T>::InvalidAction);
			Self::settle'''))
b('refund-from-requested', ['P02'], (LIB, '''				ensure!(payment.state == PaymentState::Created, Error::<T>::InvalidAction);

				// set''', '''				ensure!(
					payment.state == PaymentState::Created || payment.state == PaymentState::PaymentRequested,
					Error::<T>::InvalidAction
				);

				// set'''))
b('cancel-review', ['P02'], (LIB, 'PaymentState::RefundRequested { cancel_block: _ } => {', 'PaymentState::RefundRequested { cancel_block: _ } | PaymentState::NeedsReview => {'))
b('cancel-requested', ['P02'], (LIB, '''				PaymentState::Created => {
					Self::cancel_payment''', '''				PaymentState::Created | PaymentState::PaymentRequested => {
					Self::cancel_payment'''))
b('settle-no-finish', ['P02'], (LIB, '''			payment.state = PaymentState::Finished;
			Ok(())
		})
	}
''', '''			if maybe_is_dispute {
				payment.state = PaymentState::Finished;
			}
			Ok(())
		})
	}
'''), (LIB, '			let is_dispute = maybe_dispute.is_some();\n', '			let is_dispute = maybe_dispute.is_some();\n			let maybe_is_dispute = is_dispute;\n'))
b('resolve-refund-state', ['P02'], (LIB, 'ensure!(payment.state == PaymentState::NeedsReview, Error::<T>::InvalidAction);', 'ensure!(payment.state != PaymentState::Created, Error::<T>::InvalidAction);'))
b('dispute-stays', ['P02'], (LIB, '				payment.state = PaymentState::NeedsReview;\n', ''))
b('accept-no-finish', ['P02'], (LIB, '''				payment.state = PaymentState::Finished;
				Ok(())
			})?;
''', '''				Ok(())
			})?;
'''))
b('accept-created', ['P02'], (LIB, '''				ensure!(
					payment.state == PaymentState::PaymentRequested,
					Error::<T>::InvalidAction
				);
				const''', '''				ensure!(
					matches!(payment.state, PaymentState::PaymentRequested | PaymentState::Created),
					Error::<T>::InvalidAction
				);
				const'''))
b('hold-no-incentive', ['P03'], (LIB, '''		let total_hold_amount = total_fee_from_sender_mandatory
			.saturating_add(payment.incentive_amount)
			.saturating_add(total_fee_from_sender_optional);
		let reason = &HoldReason::TransferPayment.into();
		T::Assets::hold''', '''		let total_hold_amount = total_fee_from_sender_mandatory.saturating_add(total_fee_from_sender_optional);
		let reason = &HoldReason::TransferPayment.into();
		T::Assets::hold'''))
b('cancel-release-no-optional', ['P03'], (LIB, '''			payment.fees.summary_for(Role::Sender, false)?;

		let total_hold_amount = total_fee_from_sender_mandatory
			.saturating_add(payment.incentive_amount)
			.saturating_add(total_fee_from_sender_optional);
		let reason = &HoldReason::TransferPayment.into();

		T::Assets::release''', '''			payment.fees.summary_for(Role::Sender, true)?;

		let _ = total_fee_from_sender_optional;
		let total_hold_amount = total_fee_from_sender_mandatory.saturating_add(payment.incentive_amount);
		let reason = &HoldReason::TransferPayment.into();

		T::Assets::release'''))
b('settle-release-less', ['P03'], (LIB, '''			let total_sender_release = total_sender_fee_amount_mandatory
				.saturating_add(payment.incentive_amount)
				.saturating_add(total_sender_fee_amount_optional);
''', '''			let _ = total_sender_fee_amount_optional;
			let total_sender_release = total_sender_fee_amount_mandatory.saturating_add(payment.incentive_amount);
'''))
b('settle-besteffort', ['P03'], (LIB, '''			T::Assets::release(payment.asset.clone(), reason, sender, total_sender_release, Exact)
				.map_err''', '''			T::Assets::release(payment.asset.clone(), reason, sender, total_sender_release, frame_support::traits::tokens::Precision::BestEffort)
				.map_err'''))
b('dispute-no-hold', ['P03'], (LIB, '				T::Assets::hold(payment.asset.clone(), reason, &beneficiary, payment.incentive_amount)?;\n', '				let _: &T::RuntimeHoldReason = reason;\n'))
b('dispute-hold-sender', ['P03'], (LIB, 'T::Assets::hold(payment.asset.clone(), reason, &beneficiary, payment.incentive_amount)?;', 'T::Assets::hold(payment.asset.clone(), reason, &sender, payment.incentive_amount)?;'))
b('settle-no-dispute-incentive', ['P03'], (LIB, '''			if is_dispute {
				beneficiary_release_amount = beneficiary_release_amount.saturating_add(payment.incentive_amount);
			}
''', '''			if !is_dispute {
				beneficiary_release_amount = beneficiary_release_amount.saturating_add(payment.incentive_amount);
			}
'''))
b('fee-sender-by-beneficiary', ['P04'], (LIB, 'Self::try_transfer_fees(sender, payment, fee_sender_recipients, is_dispute)?;', 'Self::try_transfer_fees(beneficiary, payment, fee_sender_recipients, is_dispute)?;'))
b('fee-twice', ['P04'], (LIB, 'Self::try_transfer_fees(beneficiary, payment, fee_beneficiary_recipients, is_dispute)?;', 'Self::try_transfer_fees(beneficiary, payment, fee_beneficiary_recipients.clone(), is_dispute)?;\n			Self::try_transfer_fees(beneficiary, payment, fee_beneficiary_recipients, is_dispute)?;'))
b('fee-mandatory-only', ['P04'], (LIB, 'if !is_dispute || *mandatory {', 'if *mandatory {'))
b('fee-first', ['P04'], (LIB, 'in fee_recipients.iter() {', 'in fee_recipients.iter().take(1) {'))
b('accept-less', ['P04'], (LIB, 'T::Assets::transfer(payment.asset.clone(), &sender, &beneficiary, payment.amount, Expendable)', 'T::Assets::transfer(payment.asset.clone(), &sender, &beneficiary, payment.amount.saturating_sub(payment.incentive_amount), Expendable)'))
b('accept-same-recipients', ['P04'], (LIB, 'Self::try_transfer_fees(&beneficiary, payment, fee_beneficiary_recipients, IS_DISPUTE)?;', 'let _ = fee_beneficiary_recipients;'))
b('cancel-amount', ['P05'], (LIB, 'T::Assets::transfer(payment.asset, beneficiary, sender, payment.amount, Expendable)', 'T::Assets::transfer(payment.asset, beneficiary, sender, payment.amount.saturating_sub(payment.incentive_amount), Expendable)'))
b('cancel-keep-parties', ['P05'], (LIB, '			PaymentParties::<T>::remove(payment_id);\n', ''))
b('cancel-direction', ['P05'], (LIB, 'T::Assets::transfer(payment.asset, beneficiary, sender, payment.amount, Expendable)', 'T::Assets::transfer(payment.asset, sender, beneficiary, payment.amount, Expendable)'))
b('dispute-loser', ['P06'], (LIB, '''						T::Assets::transfer(
							payment.asset.clone(),
							sender,
							&resolver,
''', '''						T::Assets::transfer(
							payment.asset.clone(),
							beneficiary,
							&resolver,
'''))
b('dispute-share', ['P06'], (LIB, 'let amount_to_sender = payment.amount.saturating_sub(amount_to_beneficiary);', 'let amount_to_sender = amount_to_beneficiary;'))
b('dispute-ceil', ['P06'], (LIB, 'let amount_to_sender = dispute_result.percent_beneficiary.mul_floor(payment.amount);', 'let amount_to_sender = dispute_result.percent_beneficiary.mul_floor(payment.amount.saturating_sub(payment.incentive_amount));'))
b('dispute-optional-fees', ['P06'], (LIB, 'Self::try_transfer_fees(beneficiary, payment, fee_beneficiary_recipients, is_dispute)?;', 'Self::try_transfer_fees(beneficiary, payment, fee_beneficiary_recipients, false)?;'))
b('dispute-role-swap', ['P06'], (LIB, '					Role::Sender => {\n						let', '					Role::Beneficiary if payment.amount == BalanceOf::<T>::default() => {}\n					Role::Sender => {\n						let'))
b('deadline-buffer', ['P07'], (LIB, 'DispatchTime::At(cancel_block)', 'DispatchTime::After(cancel_block)'))
b('deadline-event', ['P07'], (LIB, '				Ok(cancel_block)\n', '				Ok(current_block)\n'))
b('dispute-at-deadline', ['P07'], (LIB, 'cancel_block > frame_system', 'cancel_block >= frame_system'))
b('cancel-name', ['P07'], (LIB, 'T::Scheduler::cancel_named(("payment", payment_id).using_encoded(blake2_256))', 'T::Scheduler::cancel_named(("payments", payment_id).using_encoded(blake2_256))'))
b('cancel-origin', ['P07'], (LIB, 'frame_system::RawOrigin::Signed(payment.beneficiary.clone()).into()', 'frame_system::RawOrigin::Signed(sender.clone()).into()'))
b('dispute-no-unschedule', ['P07'], (LIB, '				T::Scheduler::cancel_named(("payment", payment_id).using_encoded(blake2_256))\n', '				Ok(())\n'))
b('name-fixed', ['P07'], (LIB, '("payment", payment_id).using_encoded(blake2_256)', '("payment", payment.beneficiary.clone()).using_encoded(blake2_256)'))

b('no-parties', ['P08'], (LIB, '			PaymentParties::<T>::insert(payment_id, (sender, beneficiary));\n', ''))
b('parties-swapped', ['P08'], (LIB, 'PaymentParties::<T>::insert(payment_id, (sender, beneficiary));', 'PaymentParties::<T>::insert(payment_id, (beneficiary, sender));'))
b('overwrite-created', ['P08'], (LIB, '''				ensure!(
					payment.state == PaymentState::PaymentRequested,
					Error::<T>::PaymentAlreadyInProcess
				);
			}
			// an''', '''				ensure!(
					payment.state != PaymentState::Created,
					Error::<T>::PaymentAlreadyInProcess
				);
			}
			// an'''))
b('fees-swapped-parties', ['P08'], (LIB, 'T::FeeHandler::apply_fees(&asset, sender, &beneficiary, &amount, remark)', 'T::FeeHandler::apply_fees(&asset, &beneficiary, sender, &amount, remark)'))
b('no-remark', ['P08'], (LIB, '&amount, remark);', '&amount, None);'))
b('settle-amount-changed', ['P08'], (LIB, '			payment.state = PaymentState::Finished;\n			Ok(())\n		})\n	}\n', '			payment.state = PaymentState::Finished;\n			payment.incentive_amount = Default::default();\n			Ok(())\n		})\n	}\n'))
b('ignore-fee-failure', ['P09'], (LIB, '''				T::Assets::transfer(payment.asset.clone(), account, recipient_account, *fee_amount, Preserve)
					.map_err(|_| Error::<T>::TransferFailed)?;
''', '''				let _ = T::Assets::transfer(payment.asset.clone(), account, recipient_account, *fee_amount, Preserve);
'''))
b('ignore-cancel-named', ['P09'], (LIB, '''				T::Scheduler::cancel_named(("payment", payment_id).using_encoded(blake2_256))
			})?;''', '''				let _ = T::Scheduler::cancel_named(("payment", payment_id).using_encoded(blake2_256));
				Ok(())
			})?;'''))
b('ignore-settle', ['P09'], (LIB, 'Self::settle_payment(&sender, &beneficiary, &payment_id, dispute)?;', 'Self::settle_payment(&sender, &beneficiary, &payment_id, dispute).ok();'))
b('wrong-event', ['P09'], (LIB, 'Self::deposit_event(Event::PaymentRefunded { payment_id });', 'Self::deposit_event(Event::PaymentCancelled { payment_id });'))
b('double-event', ['P09'], (LIB, 'Self::deposit_event(Event::PaymentReleased { payment_id });', 'Self::deposit_event(Event::PaymentReleased { payment_id });\n			Self::deposit_event(Event::PaymentReleased { payment_id });'))
b('event-first', ['P09'], (LIB, 'Self::deposit_event(Event::PaymentRequestCompleted { payment_id });\n', ''))
b('summary-dispute-all', ['P10'], (TY, '''				if *charge_dispute {
					total_to_discount''', '''				if !*charge_dispute {
					total_to_discount'''))
b('summary-key', ['P10'], (TY, '.entry((account.clone(), *charge_dispute))', '.entry((account.clone(), is_dispute))'))
b('summary-last', ['P10'], (TY, '*current_balance = current_balance.saturating_add(*fee);', '*current_balance = *fee;'))
b('summary-init', ['P10'], (TY, '.or_insert_with(|| (account.clone(), Zero::zero(), *charge_dispute));', '.or_insert_with(|| (account.clone(), *fee, *charge_dispute));'))
b('summary-role', ['P10'], (TY, 'Role::Beneficiary => &self.beneficiary_pays,', 'Role::Beneficiary => &self.sender_pays,'))
b('summary-return-lost', ['P10'], (TY, '''				} else {
					total_to_return = total_to_return.saturating_add(*fee);
				}
''', '''				}
'''))
b('summary-skip-one', ['P10'], (TY, 'in fees.iter() {', 'in fees.iter().skip(1) {'))
b('call-index', ['R01'], (LIB, '#[pallet::call_index(11)]', '#[pallet::call_index(13)]'))
b('call-weight', ['R15'], (LIB, '#[pallet::weight(<T as Config>::WeightInfo::resolve_dispute())]', '#[pallet::weight(<T as Config>::WeightInfo::release())]'))
b('refund-preserve', ['P11'], (LIB, 'T::Assets::transfer(payment.asset, beneficiary, sender, payment.amount, Expendable)', 'T::Assets::transfer(payment.asset, beneficiary, sender, payment.amount, Preserve)'))
b('fee-expendable', ['P11'], (LIB, '*fee_amount, Preserve)', '*fee_amount, Expendable)'))
b('accept-preserve', ['P11'], (LIB, '&beneficiary, payment.amount, Expendable)', '&beneficiary, payment.amount, Preserve)'))
b('lock-expendable', ['P11'], (LIB, '''			Exact,
			Preserve,
			Polite,''', '''			Exact,
			Expendable,
			Polite,'''))
b('lock-force', ['P11'], (LIB, '''			Polite,
		)?;''', '''			Force,
		)?;'''), (LIB, 'Fortitude::Polite', 'Fortitude::{Force, Polite}'))
q('helper-payout', (LIB, 'T::Assets::transfer(payment.asset, beneficiary, sender, payment.amount, Expendable)\n			.map_err(|_| Error::<T>::TransferFailed)?;', 'Self::move_funds(payment.asset, beneficiary, sender, payment.amount, false)?;'),
  (LIB, '''	fn reserve_payment_amount(''', '''	fn move_funds(asset: AssetIdOf<T>, from: &T::AccountId, to: &T::AccountId, amount: BalanceOf<T>, keep: bool) -> DispatchResult {
		let mode = if keep { Preserve } else { Expendable };
		T::Assets::transfer(asset, from, to, amount, mode).map_err(|_| Error::<T>::TransferFailed)?;
		Ok(())
	}

	fn reserve_payment_amount('''))
b('cancel-other-key', ['P12'], (LIB, '''			let payment = Payment::<T>::get(&sender, &payment_id).map_err(|_| Error::<T>::InvalidPayment)?;

			match payment.state {''', '''			let payment = Payment::<T>::get(&beneficiary, &payment_id).map_err(|_| Error::<T>::InvalidPayment)?;

			match payment.state {'''))
b('dispute-early', ['P12'], (LIB, 'cancel_block > frame_system::Pallet::<T>::block_number(),', 'cancel_block > frame_system::Pallet::<T>::block_number() + 1u32.into(),'))
b('release-extra', ['P12'], (LIB, '''			ensure!(payment.state == PaymentState::Created, Error::<T>::InvalidAction);
			Self::settle_payment''', '''			ensure!(payment.state == PaymentState::Created, Error::<T>::InvalidAction);
			ensure!(payment.beneficiary != sender, Error::<T>::InvalidBeneficiary);
			Self::settle_payment'''))
b('pay-zero', ['P12'], (LIB, 'let incentive_amount = incentive_percentage.mul_floor(amount);', 'let incentive_amount = incentive_percentage.mul_floor(amount);\n			ensure!(incentive_amount < amount, Error::<T>::InvalidAction);'))
b('cancel-no-refund', ['P12'], (LIB, '''				PaymentState::Created => {
					Self::cancel_payment(&sender, payment)?;
					Self::deposit_event(Event::PaymentCancelled { payment_id });
				}
''', ''))
b('panic', ['P12'], (LIB, 'let (sender, b) = PaymentParties::<T>::get(&payment_id)?;', 'let (sender, b) = PaymentParties::<T>::get(&payment_id).unwrap();'))
b('id-own', ['P08'], (LIB, 'T::PaymentId::next(sender, &beneficiary)', 'T::PaymentId::next(sender, sender)'))
b('priority', ['P07'], (LIB, '					63,\n', '					127,\n'))
q('priority-named', (LIB, '					63,\n', '					frame_support::traits::schedule::HARD_DEADLINE,\n'))
b('priority-lowest', ['P07'], (LIB, '					63,\n', '					frame_support::traits::schedule::LOWEST_PRIORITY,\n'))

# ------------------------------------------------------------------ larger rewrites
def src(f):
    return open(os.path.join(os.environ.get('VERIF_REPO', '/repo'), f)).read()


def cut(text, start, end):
    i = text.index(start)
    return text[i:text.index(end, i)]


HELPERS = src(LIB)[src(LIB).rindex('\nimpl<T: Config> Pallet<T> {'):]
q('move-helpers', (LIB, lambda t: t.replace(HELPERS, '').replace('pub mod types;', 'pub mod types;\nmod functions;') if 'pub mod types;' in t else t.replace(HELPERS, '') + '\nmod functions;\n', ''),
  ('pallets/payments/src/functions.rs', '$NEW', '//! What the calls have in common.\nuse super::*;\n' + HELPERS.replace('	fn ', '	pub(crate) fn ')))
q('move-nested', (LIB, lambda t: t.replace(HELPERS, '') + '\nmod escrow {\n	use super::*;\n' + HELPERS.replace('	fn ', '	pub(super) fn ') + '}\n', ''))
q('hold-total-method', (TY, '/// Types of Tasks that can be scheduled in the pallet\n#[derive(PartialEq, Eq, Clone, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]\npub enum Task {', '''impl<T: pallet::Config> PaymentDetail<T> {
	/// what the sender has on hold
	pub fn sender_hold(&self, disputed: bool) -> Result<BalanceOf<T>, DispatchError> {
		let (_, charged, returned) = self.fees.summary_for(Role::Sender, disputed)?;
		Ok(self.incentive_amount.saturating_add(charged).saturating_add(returned))
	}
}

/// Types of Tasks that can be scheduled in the pallet
#[derive(PartialEq, Eq, Clone, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
pub enum Task {'''), (LIB, lambda t: t.replace('''		let (_fee_recipients, total_fee_from_sender_mandatory, total_fee_from_sender_optional) =
			payment.fees.summary_for(Role::Sender, false)?;

		let total_hold_amount = total_fee_from_sender_mandatory
			.saturating_add(payment.incentive_amount)
			.saturating_add(total_fee_from_sender_optional);
''', '''		let total_hold_amount = payment.sender_hold(false)?;
'''), ''))
q('state-method', (TY, '/// Fee Handler trait that defines', '''impl<BlockNumber> PaymentState<BlockNumber> {
	pub fn is_created(&self) -> bool {
		matches!(self, Self::Created)
	}
	/// block up to which a refund may be disputed
	pub fn refund_due(&self) -> Option<&BlockNumber> {
		match self {
			Self::RefundRequested { cancel_block } => Some(cancel_block),
			_ => None,
		}
	}
}

/// Fee Handler trait that defines'''), (LIB, 'ensure!(payment.state == PaymentState::Created, Error::<T>::InvalidAction);', 'ensure!(payment.state.is_created(), Error::<T>::InvalidAction);'), (LIB, '''				let PaymentState::RefundRequested { cancel_block } = payment.state else {
					fail!(Error::<T>::InvalidAction);
				};
				ensure!(
					cancel_block > frame_system::Pallet::<T>::block_number(),
					Error::<T>::InvalidAction
				);
''', '''				let now = frame_system::Pallet::<T>::block_number();
				let due = payment.state.refund_due().ok_or(Error::<T>::InvalidAction)?;
				ensure!(now < *due, Error::<T>::InvalidAction);
'''))
q('let-else-payment', (LIB, '''				// ensure the payment exists
				let payment = maybe_payment.as_mut().map_err(|_| Error::<T>::InvalidPayment)?;
''', '''				let Ok(payment) = maybe_payment else {
					fail!(Error::<T>::InvalidPayment);
				};
'''))
q('match-payment', (LIB, '''			let payment = maybe_payment.as_mut().map_err(|_| Error::<T>::InvalidPayment)?;
''', '''			let payment = match maybe_payment {
				Ok(found) => found,
				Err(_) => return Err(Error::<T>::InvalidPayment.into()),
			};
'''))
q('replace-state', (LIB, '''				payment.state = PaymentState::NeedsReview;
''', '''				let _before = core::mem::replace(&mut payment.state, PaymentState::NeedsReview);
'''))
q('transfer-closure', (LIB, '''			if let Some((dispute_result, resolver)) = maybe_dispute {
				match dispute_result.in_favor_of {''', '''			let asset = payment.asset.clone();
			let total = payment.amount;
			let incentive = payment.incentive_amount;
			let send = |from: &T::AccountId, to: &T::AccountId, amount: BalanceOf<T>| -> DispatchResult {
				T::Assets::transfer(asset.clone(), from, to, amount, Expendable)
					.map(|_| ())
					.map_err(|_| Error::<T>::TransferFailed.into())
			};
			if let Some((dispute_result, resolver)) = maybe_dispute {
				match dispute_result.in_favor_of {'''), (LIB, lambda t: t.replace(cut(t, '''						// Beneficiary looses the dispute and has''', '''					}
					Role::Beneficiary'''), '''						send(beneficiary, &resolver, incentive)?;
						send(beneficiary, sender, amount_to_sender)?;
''').replace(cut(t, '''						T::Assets::transfer(
							payment.asset.clone(),
							sender,
							&resolver,''', '''					}
				}
			}
'''), '''						send(sender, &resolver, incentive)?;
						send(beneficiary, sender, amount_to_sender)?;
''').replace('dispute_result.percent_beneficiary.mul_floor(payment.amount)', 'dispute_result.percent_beneficiary.mul_floor(total)').replace('payment.amount.saturating_sub(amount_to_beneficiary)', 'total.saturating_sub(amount_to_beneficiary)'), ''))
q('transfer-macro', (LIB, lambda t: t.replace('impl<T: Config> Pallet<T> {\n	/// The function will create', '''macro_rules! send {
	($asset:expr, $from:expr, $to:expr, $amount:expr) => {
		T::Assets::transfer($asset, $from, $to, $amount, Expendable).map_err(|_| Error::<T>::TransferFailed)?
	};
}

impl<T: Config> Pallet<T> {
	/// The function will create''').replace('''		T::Assets::transfer(payment.asset, beneficiary, sender, payment.amount, Expendable)
			.map_err(|_| Error::<T>::TransferFailed)?;
''', '''		send!(payment.asset, beneficiary, sender, payment.amount);
'''), ''))
q('settle-before-event', (LIB, '''			Self::settle_payment(&sender, &payment.beneficiary, &payment_id, None)?;

			Self::deposit_event(Event::PaymentReleased { payment_id });
			Ok(().into())''', '''			let released = Event::PaymentReleased { payment_id };
			Self::settle_payment(&sender, &payment.beneficiary, &payment_id, None).map(|()| {
				Self::deposit_event(released);
			})?;
			Ok(().into())'''))
q('layer', (LIB, '''			Payment::<T>::remove(&sender, &payment_id);
			PaymentParties::<T>::remove(payment_id);

			Ok(().into())''', '''			Self::forget(&sender, payment_id);

			Ok(().into())'''), (LIB, '	fn reserve_payment_amount(', '''	#[inline]
	fn forget(sender: &T::AccountId, payment_id: T::PaymentId) {
		PaymentParties::<T>::remove(payment_id);
		Payment::<T>::remove(sender, payment_id);
	}

	fn reserve_payment_amount('''))
q('parties-tuple', (LIB, '''			let (sender, b) = PaymentParties::<T>::get(&payment_id)?;
			ensure!(beneficiary == b, Error::<T>::InvalidBeneficiary);
''', '''			let parties = PaymentParties::<T>::get(payment_id)?;
			if parties.1 != beneficiary {
				return Err(Error::<T>::InvalidBeneficiary.into());
			}
			let sender = parties.0;
'''))
q('parties-struct', (LIB, '''			let (sender, b) = PaymentParties::<T>::get(&payment_id)?;
			ensure!(beneficiary == b, Error::<T>::InvalidBeneficiary);
''', '''			let Parties { sender, beneficiary } = Self::parties_for(&payment_id, beneficiary)?;
'''), (LIB, '	fn reserve_payment_amount(', '''	fn parties_for(payment_id: &T::PaymentId, who: T::AccountId) -> Result<Parties<T::AccountId>, DispatchError> {
		match PaymentParties::<T>::get(payment_id)? {
			(sender, beneficiary) if beneficiary == who => Ok(Parties { sender, beneficiary }),
			_ => Err(Error::<T>::InvalidBeneficiary.into()),
		}
	}

	fn reserve_payment_amount('''), (LIB, '$END', '''
struct Parties<AccountId> {
	sender: AccountId,
	beneficiary: AccountId,
}
'''))
q('create-exists', (LIB, '''			if let Ok(payment) = maybe_payment {
				ensure!(
					payment.state == PaymentState::PaymentRequested,
					Error::<T>::PaymentAlreadyInProcess
				);
			}
''', '''			let replaceable = maybe_payment
				.as_ref()
				.map_or(true, |existing| existing.state == PaymentState::PaymentRequested);
			ensure!(replaceable, Error::<T>::PaymentAlreadyInProcess);
'''))
q('create-match', (LIB, '''			if let Ok(payment) = maybe_payment {
				ensure!(
					payment.state == PaymentState::PaymentRequested,
					Error::<T>::PaymentAlreadyInProcess
				);
			}
''', '''			match maybe_payment {
				Ok(PaymentDetail { state: PaymentState::PaymentRequested, .. }) | Err(_) => (),
				Ok(_) => fail!(Error::<T>::PaymentAlreadyInProcess),
			}
'''))
q('schedule-helper', (LIB, lambda t: t.replace('("payment", payment_id).using_encoded(blake2_256)', 'Self::task_name(payment_id)').replace('	fn reserve_payment_amount(', '''	/// name under which the refund of a payment is scheduled
	fn task_name(payment_id: T::PaymentId) -> [u8; 32] {
		let name = ("payment", payment_id);
		blake2_256(&name.encode())
	}

	fn reserve_payment_amount('''), ''))
q('deadline-helper', (LIB, '''				let current_block = frame_system::Pallet::<T>::block_number();
				let cancel_block = current_block
					.checked_add(&T::CancelBufferBlockLength::get())
					.ok_or(Error::<T>::MathError)?;
''', '''				let cancel_block = Self::refund_deadline()?;
'''), (LIB, '	fn reserve_payment_amount(', '''	fn refund_deadline() -> Result<BlockNumberFor<T>, Error<T>> {
		let window = <T::CancelBufferBlockLength as frame_support::traits::Get<_>>::get();
		match window.checked_add(&frame_system::Pallet::<T>::block_number()) {
			Some(at) => Ok(at),
			None => Err(Error::<T>::MathError),
		}
	}

	fn reserve_payment_amount('''))
q('accept-split', (LIB, lambda t: t.replace(cut(t, '				const IS_DISPUTE: bool = false;', '				payment.state = PaymentState::Finished;\n				Ok(())\n			})?;\n\n			Self::deposit_event(Event::PaymentRequestCompleted'), '''				Self::transfer_directly(&sender, &beneficiary, payment)?;

''').replace('	fn reserve_payment_amount(', '''	fn transfer_directly(from: &T::AccountId, to: &T::AccountId, payment: &PaymentDetail<T>) -> DispatchResult {
		let (sender_fees, ..) = payment.fees.summary_for(Role::Sender, false)?;
		Self::try_transfer_fees(from, payment, sender_fees, false)?;
		T::Assets::transfer(payment.asset.clone(), from, to, payment.amount, Expendable)
			.map_err(|_| Error::<T>::TransferFailed)?;
		let (beneficiary_fees, ..) = payment.fees.summary_for(Role::Beneficiary, false)?;
		Self::try_transfer_fees(to, payment, beneficiary_fees, false)
	}

	fn reserve_payment_amount('''), ''))
q('settle-loser-tuple', (LIB, lambda t: t.replace(cut(t, '				match dispute_result.in_favor_of {', '			}\n\n			payment.state = PaymentState::Finished;\n			Ok(())\n		})\n	}\n\n	fn try_transfer_fees'), '''				let share = dispute_result.percent_beneficiary.mul_floor(payment.amount);
				let (loser, back) = match dispute_result.in_favor_of {
					Role::Sender => (beneficiary, share),
					Role::Beneficiary => (sender, payment.amount.saturating_sub(share)),
				};
				T::Assets::transfer(payment.asset.clone(), loser, &resolver, payment.incentive_amount, Expendable)
					.map_err(|_| Error::<T>::TransferFailed)?;
				T::Assets::transfer(payment.asset.clone(), beneficiary, sender, back, Expendable)
					.map_err(|_| Error::<T>::TransferFailed)?;
'''), ''))
q('release-amount-expr', (LIB, '''			let mut beneficiary_release_amount = payment.amount;

			if is_dispute {
				beneficiary_release_amount = beneficiary_release_amount.saturating_add(payment.incentive_amount);
			}
''', '''			let stake = if is_dispute { payment.incentive_amount } else { Zero::zero() };
			let beneficiary_release_amount = payment.amount.saturating_add(stake);
'''), (LIB, '	fn reserve_payment_amount(', '	fn reserve_payment_amount('), (LIB, lambda t: t.replace('impl<T: Config> Pallet<T> {\n	/// The function', 'use sp_runtime::traits::Zero;\n\nimpl<T: Config> Pallet<T> {\n	/// The function') if 'Zero' not in t.split('#[frame_support::pallet]')[0] else t, ''))
q('summary-partition', (TY, lambda t: t.replace(cut(t, '			if is_dispute {\n				if *charge_dispute {', '			let current_fee'), '''			let total = match (is_dispute, charge_dispute) {
				(true, false) => &mut total_to_return,
				_ => &mut total_to_discount,
			};
			*total = total.saturating_add(*fee);

'''), ''))
q('summary-or', (TY, lambda t: t.replace(cut(t, '			if is_dispute {\n				if *charge_dispute {', '			let current_fee'), '''			if !is_dispute || *charge_dispute {
				total_to_discount = total_to_discount.saturating_add(*fee);
			} else {
				total_to_return = total_to_return.saturating_add(*fee);
			}

'''), ''))
q('summary-and-modify', (TY, '''			let current_fee = fees_per_account
				.entry((account.clone(), *charge_dispute))
				.or_insert_with(|| (account.clone(), Zero::zero(), *charge_dispute));
			let (_, current_balance, _) = current_fee;
			*current_balance = current_balance.saturating_add(*fee);
''', '''			fees_per_account
				.entry((account.clone(), *charge_dispute))
				.and_modify(|(_, sum, _)| *sum = sum.saturating_add(*fee))
				.or_insert((account.clone(), *fee, *charge_dispute));
'''))
q('fees-take', (LIB, '''		for (recipient_account, fee_amount, mandatory) in fee_recipients.iter() {
			if !is_dispute || *mandatory {
				T::Assets::transfer(payment.asset.clone(), account, recipient_account, *fee_amount, Preserve)
					.map_err(|_| Error::<T>::TransferFailed)?;
			}
		}
		Ok(())
''', '''		for (recipient_account, fee_amount, mandatory) in fee_recipients {
			if is_dispute && !mandatory {
				continue;
			}
			if T::Assets::transfer(payment.asset.clone(), account, &recipient_account, fee_amount, Preserve).is_err() {
				return Err(Error::<T>::TransferFailed.into());
			}
		}
		Ok(())
'''))
q('fees-recursive', (LIB, '''		for (recipient_account, fee_amount, mandatory) in fee_recipients.iter() {
			if !is_dispute || *mandatory {
				T::Assets::transfer(payment.asset.clone(), account, recipient_account, *fee_amount, Preserve)
					.map_err(|_| Error::<T>::TransferFailed)?;
			}
		}
		Ok(())
''', '''		let mut left = fee_recipients.iter();
		while let Some((to, amount, mandatory)) = left.next() {
			let due = *mandatory || !is_dispute;
			if due {
				T::Assets::transfer(payment.asset.clone(), account, to, *amount, Preserve)
					.map_err(|_| Error::<T>::TransferFailed)?;
			}
		}
		Ok(())
'''))
q('role-trait', (TY, '''		let fees = match role {
			Role::Sender => &self.sender_pays,
			Role::Beneficiary => &self.beneficiary_pays,
		};
		Self::get_summary(fees, is_dispute)
''', '''		match role {
			Role::Sender => summarise::<T>(&self.sender_pays, is_dispute),
			Role::Beneficiary => summarise::<T>(&self.beneficiary_pays, is_dispute),
		}
'''), (TY, '	fn get_summary(fees: &FeeDetails<T>, is_dispute: bool)', '}\n\n/// totals and recipients\nfn summarise<T: pallet::Config>(fees: &FeeDetails<T>, is_dispute: bool)'), (TY, lambda t: t.replace('''			total_to_return,
		))
	}
}
''', '''			total_to_return,
		))
}
'''), ''))
q('types-split', (TY, lambda t: t.replace(t[t.index('/// Types of Tasks that can be scheduled in the pallet\n#[derive(PartialEq, Eq, Clone, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]\npub enum Role'):], 'mod dispute;\npub use dispute::*;\n'), ''),
  ('pallets/payments/src/types/dispute.rs', '$NEW', 'use super::*;\n\n' + src(TY)[src(TY).index('/// Types of Tasks that can be scheduled in the pallet\n#[derive(PartialEq, Eq, Clone, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]\npub enum Role'):]))
q('error-alias', (LIB, '			ensure!(payment.state == PaymentState::NeedsReview, Error::<T>::InvalidAction);\n', '			type Refused<T> = Error<T>;\n			ensure!(PaymentState::NeedsReview == payment.state, Refused::<T>::InvalidAction);\n'))
q('resolve-map', (LIB, '''			let payment = Payment::<T>::get(&sender, &payment_id).map_err(|_| Error::<T>::InvalidPayment)?;
			ensure!(payment.state == PaymentState::NeedsReview, Error::<T>::InvalidAction);

			let dispute = Some((dispute_result, dispute_resolver));
			Self::settle_payment(&sender, &beneficiary, &payment_id, dispute)?;
''', '''			match Payment::<T>::get(&sender, payment_id) {
				Ok(payment) if payment.state == PaymentState::NeedsReview => {
					Self::settle_payment(&sender, &beneficiary, &payment_id, Some((dispute_result, dispute_resolver)))?
				}
				Ok(_) => return Err(Error::<T>::InvalidAction.into()),
				Err(_) => return Err(Error::<T>::InvalidPayment.into()),
			}
'''))
q('logs', (LIB, '''			let sender = T::SenderOrigin::ensure_origin(origin)?;
''', '''			let sender = T::SenderOrigin::ensure_origin(origin)?;
			debug_assert!(true, "origin checked");
'''))
q('exists-mutate', (LIB, '''		Payment::<T>::try_mutate(sender, payment_id, |maybe_payment| -> DispatchResult {
			let payment = maybe_payment.as_mut().map_err(|_| Error::<T>::InvalidPayment)?;

			let reason =''', '''		Payment::<T>::try_mutate_exists(sender, payment_id, |maybe_payment| -> DispatchResult {
			let payment = maybe_payment.as_mut().ok_or(Error::<T>::InvalidPayment)?;

			let reason ='''))
