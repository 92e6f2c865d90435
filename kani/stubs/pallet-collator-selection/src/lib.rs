//! pallet-collator-selection as the runtime refers to it: the configuration items and the calls it has.
frame_support::model_pallet! {
	[RuntimeEvent Currency UpdateOrigin PotId MaxCandidates MinEligibleCollators MaxInvulnerables KickThreshold ValidatorId ValidatorIdOf ValidatorRegistration WeightInfo]
	[set_invulnerables set_desired_candidates set_candidacy_bond register_as_candidate leave_intent add_invulnerable remove_invulnerable update_bond take_candidate_slot]
}

pub struct IdentityCollator;
