package h

// All harnesses by name; generated by gen.sh.
var All = map[string]func(){
	"H_C01_anywhere":        H_C01_anywhere,
	"H_C01_chains":          H_C01_chains,
	"H_C01_delayed":         H_C01_delayed,
	"H_C01_far":             H_C01_far,
	"H_C01_first":           H_C01_first,
	"H_C01_history":         H_C01_history,
	"H_C01_late":            H_C01_late,
	"H_C01_long":            H_C01_long,
	"H_C01_lossy":           H_C01_lossy,
	"H_C01_own":             H_C01_own,
	"H_C01_saga":            H_C01_saga,
	"H_C01_skipped":         H_C01_skipped,
	"H_C01_turns":           H_C01_turns,
	"H_C02_anywhere":        H_C02_anywhere,
	"H_C02_archived":        H_C02_archived,
	"H_C02_delayed":         H_C02_delayed,
	"H_C02_history":         H_C02_history,
	"H_C02_prekey":          H_C02_prekey,
	"H_C02_reopen":          H_C02_reopen,
	"H_C02_saga":            H_C02_saga,
	"H_C02_sessions":        H_C02_sessions,
	"H_C02_turns":           H_C02_turns,
	"H_C03_anywhere":        H_C03_anywhere,
	"H_C03_archived":        H_C03_archived,
	"H_C03_first":           H_C03_first,
	"H_C03_lengths":         H_C03_lengths,
	"H_C03_prekey":          H_C03_prekey,
	"H_C03_signal":          H_C03_signal,
	"H_C03_spliced":         H_C03_spliced,
	"H_C04_anywhere":        H_C04_anywhere,
	"H_C04_archived":        H_C04_archived,
	"H_C04_faults":          H_C04_faults,
	"H_C04_initial":         H_C04_initial,
	"H_C04_insider":         H_C04_insider,
	"H_C04_none":            H_C04_none,
	"H_C04_prekey":          H_C04_prekey,
	"H_C04_replay":          H_C04_replay,
	"H_C04_signal":          H_C04_signal,
	"H_C05_anywhere":        H_C05_anywhere,
	"H_C05_delayed":         H_C05_delayed,
	"H_C05_faults":          H_C05_faults,
	"H_C05_history":         H_C05_history,
	"H_C05_long":            H_C05_long,
	"H_C05_lossy":           H_C05_lossy,
	"H_C05_position":        H_C05_position,
	"H_C05_reopen":          H_C05_reopen,
	"H_C05_saga":            H_C05_saga,
	"H_C05_turns":           H_C05_turns,
	"H_C06_adversary":       H_C06_adversary,
	"H_C06_bundle":          H_C06_bundle,
	"H_C06_formula":         H_C06_formula,
	"H_C06_mismatch":        H_C06_mismatch,
	"H_C06_reject":          H_C06_reject,
	"H_C07_adversary":       H_C07_adversary,
	"H_C07_degenerate":      H_C07_degenerate,
	"H_C07_established":     H_C07_established,
	"H_C07_faults":          H_C07_faults,
	"H_C07_genuine":         H_C07_genuine,
	"H_C07_otherwise":       H_C07_otherwise,
	"H_C07_sigbits":         H_C07_sigbits,
	"H_C08_changed":         H_C08_changed,
	"H_C08_faults":          H_C08_faults,
	"H_C08_first":           H_C08_first,
	"H_C08_forged":          H_C08_forged,
	"H_C08_trust":           H_C08_trust,
	"H_C09_compete":         H_C09_compete,
	"H_C09_consumed":        H_C09_consumed,
	"H_C09_faults":          H_C09_faults,
	"H_C09_forged":          H_C09_forged,
	"H_C09_ids":             H_C09_ids,
	"H_C09_reissued":        H_C09_reissued,
	"H_C09_saga":            H_C09_saga,
	"H_C10_anywhere":        H_C10_anywhere,
	"H_C10_archive":         H_C10_archive,
	"H_C10_chains":          H_C10_chains,
	"H_C10_far":             H_C10_far,
	"H_C10_group_jump":      H_C10_group_jump,
	"H_C10_group_keys":      H_C10_group_keys,
	"H_C10_group_states":    H_C10_group_states,
	"H_C10_jump":            H_C10_jump,
	"H_C10_keys":            H_C10_keys,
	"H_C10_self":            H_C10_self,
	"H_C11_heal":            H_C11_heal,
	"H_C11_history":         H_C11_history,
	"H_C11_lossy":           H_C11_lossy,
	"H_C11_past":            H_C11_past,
	"H_C12_anywhere":        H_C12_anywhere,
	"H_C12_far":             H_C12_far,
	"H_C12_fresh":           H_C12_fresh,
	"H_C12_history":         H_C12_history,
	"H_C12_lengths":         H_C12_lengths,
	"H_C12_orders":          H_C12_orders,
	"H_C12_saga":            H_C12_saga,
	"H_C12_skipped":         H_C12_skipped,
	"H_C13_anywhere":        H_C13_anywhere,
	"H_C13_gaps":            H_C13_gaps,
	"H_C13_history":         H_C13_history,
	"H_C13_saga":            H_C13_saga,
	"H_C13_states":          H_C13_states,
	"H_C14_altered":         H_C14_altered,
	"H_C14_anywhere":        H_C14_anywhere,
	"H_C14_chains":          H_C14_chains,
	"H_C14_cut":             H_C14_cut,
	"H_C14_forge":           H_C14_forge,
	"H_C14_insider":         H_C14_insider,
	"H_C15_anywhere":        H_C15_anywhere,
	"H_C15_attacks":         H_C15_attacks,
	"H_C15_create":          H_C15_create,
	"H_C15_faults":          H_C15_faults,
	"H_C15_saga":            H_C15_saga,
	"H_C16_alias":           H_C16_alias,
	"H_C16_anywhere":        H_C16_anywhere,
	"H_C16_chains":          H_C16_chains,
	"H_C16_conflict":        H_C16_conflict,
	"H_C16_rollback":        H_C16_rollback,
	"H_C16_saga":            H_C16_saga,
	"H_C16_sender":          H_C16_sender,
	"H_C16_states":          H_C16_states,
	"H_C17_distribution":    H_C17_distribution,
	"H_C17_group":           H_C17_group,
	"H_C17_ids":             H_C17_ids,
	"H_C17_keys":            H_C17_keys,
	"H_C17_plaintext":       H_C17_plaintext,
	"H_C17_prekey":          H_C17_prekey,
	"H_C17_signal":          H_C17_signal,
	"H_C17_state":           H_C17_state,
	"H_C18_aes":             H_C18_aes,
	"H_C18_bundle":          H_C18_bundle,
	"H_C18_degenerate_keys": H_C18_degenerate_keys,
	"H_C18_dist_ids":        H_C18_dist_ids,
	"H_C18_fingerprints":    H_C18_fingerprints,
	"H_C18_group_bytes":     H_C18_group_bytes,
	"H_C18_group_fields":    H_C18_group_fields,
	"H_C18_group_insider":   H_C18_group_insider,
	"H_C18_group_keys":      H_C18_group_keys,
	"H_C18_initial":         H_C18_initial,
	"H_C18_insider":         H_C18_insider,
	"H_C18_keys":            H_C18_keys,
	"H_C18_prekey_bytes":    H_C18_prekey_bytes,
	"H_C18_prekey_fields":   H_C18_prekey_fields,
	"H_C18_record":          H_C18_record,
	"H_C18_scanned":         H_C18_scanned,
	"H_C18_signal_bytes":    H_C18_signal_bytes,
	"H_C18_signal_fields":   H_C18_signal_fields,
	"H_C18_types":           H_C18_types,
	"H_C19_exact":           H_C19_exact,
	"H_C19_long":            H_C19_long,
	"H_C19_roundtrip":       H_C19_roundtrip,
	"H_C19_sizes":           H_C19_sizes,
	"H_C19_strict":          H_C19_strict,
	"H_C20_agreement":       H_C20_agreement,
	"H_C20_anypoint":        H_C20_anypoint,
	"H_C20_equal":           H_C20_equal,
	"H_C20_loworder":        H_C20_loworder,
	"H_C20_private":         H_C20_private,
	"H_C20_privlen":         H_C20_privlen,
	"H_C20_public":          H_C20_public,
	"H_C21_altered":         H_C21_altered,
	"H_C21_alternate":       H_C21_alternate,
	"H_C21_forge":           H_C21_forge,
	"H_C21_key":             H_C21_key,
	"H_C21_length":          H_C21_length,
	"H_C21_message":         H_C21_message,
	"H_C21_nonce":           H_C21_nonce,
	"H_C21_random":          H_C21_random,
	"H_C21_topbits":         H_C21_topbits,
	"H_C21_valid":           H_C21_valid,
	"H_C22_alike":           H_C22_alike,
	"H_C22_bound":           H_C22_bound,
	"H_C22_digits":          H_C22_digits,
	"H_C22_display":         H_C22_display,
	"H_C22_ids":             H_C22_ids,
	"H_C22_iterations":      H_C22_iterations,
	"H_C22_malformed":       H_C22_malformed,
	"H_C22_rounds":          H_C22_rounds,
	"H_C22_scan":            H_C22_scan,
	"H_C22_scanned":         H_C22_scanned,
	"H_C22_unversioned":     H_C22_unversioned,
	"H_C23_groups":          H_C23_groups,
	"H_C23_identity":        H_C23_identity,
	"H_C23_local":           H_C23_local,
	"H_C23_prekeys":         H_C23_prekeys,
	"H_C23_sessions":        H_C23_sessions,
	"H_C24_apart":           H_C24_apart,
	"H_C24_crossed":         H_C24_crossed,
	"H_C24_groups":          H_C24_groups,
	"H_C24_pairwise":        H_C24_pairwise,
	"H_C24_unfilled":        H_C24_unfilled,
	"H_C25_archive":         H_C25_archive,
	"H_C25_archivelimit":    H_C25_archivelimit,
	"H_C25_history":         H_C25_history,
	"H_C25_many":            H_C25_many,
	"H_C25_open":            H_C25_open,
	"H_C25_saga":            H_C25_saga,
	"H_C25_twice":           H_C25_twice,
	"H_C26_anywhere":        H_C26_anywhere,
	"H_C26_bundle":          H_C26_bundle,
	"H_C26_distribution":    H_C26_distribution,
	"H_C26_fingerprint":     H_C26_fingerprint,
	"H_C26_group":           H_C26_group,
	"H_C26_groupstep":       H_C26_groupstep,
	"H_C26_ids":             H_C26_ids,
	"H_C26_kdf":             H_C26_kdf,
	"H_C26_nonce":           H_C26_nonce,
	"H_C26_prekey":          H_C26_prekey,
	"H_C26_scannable":       H_C26_scannable,
	"H_C26_session":         H_C26_session,
	"H_C26_signal":          H_C26_signal,
	"H_C26_signature":       H_C26_signature,
	"H_C26_uuid":            H_C26_uuid,
	"H_C26_x3dh":            H_C26_x3dh,
	"H_C27_again":           H_C27_again,
	"H_C27_history":         H_C27_history,
	"H_C27_ids":             H_C27_ids,
	"H_C27_long":            H_C27_long,
	"H_C27_position":        H_C27_position,
	"H_C27_saga":            H_C27_saga,
	"H_C27_sessions":        H_C27_sessions,
	"H_C27_zeroid":          H_C27_zeroid,
	"H_C28_aes":             H_C28_aes,
	"H_C28_bundle":          H_C28_bundle,
	"H_C28_distribution":    H_C28_distribution,
	"H_C28_failed":          H_C28_failed,
	"H_C28_group":           H_C28_group,
	"H_C28_kept":            H_C28_kept,
	"H_C28_keys":            H_C28_keys,
	"H_C28_others":          H_C28_others,
	"H_C28_pair":            H_C28_pair,
	"H_C28_private":         H_C28_private,
	"H_C28_refused":         H_C28_refused,
	"H_C28_session":         H_C28_session,
	"H_C28_sign":            H_C28_sign,
	"H_C28_state":           H_C28_state,
	"H_C30_addresses":       H_C30_addresses,
	"H_C30_archived":        H_C30_archived,
	"H_C30_bundle":          H_C30_bundle,
	"H_C30_changed":         H_C30_changed,
	"H_C30_decrypt":         H_C30_decrypt,
	"H_C30_empty":           H_C30_empty,
	"H_C30_encrypt":         H_C30_encrypt,
	"H_C30_group":           H_C30_group,
	"H_C30_history":         H_C30_history,
	"H_C30_late":            H_C30_late,
	"H_C30_lengths":         H_C30_lengths,
	"H_C30_missing":         H_C30_missing,
	"H_C30_refused":         H_C30_refused,
	"H_C30_senders":         H_C30_senders,
	"H_C30_trust":           H_C30_trust,
	"H_C30_turns":           H_C30_turns,
	"H_C31_bundle":          H_C31_bundle,
	"H_C31_decrypt":         H_C31_decrypt,
	"H_C31_default":         H_C31_default,
	"H_C31_keys":            H_C31_keys,
	"H_C31_pieces":          H_C31_pieces,
	"H_C31_seed":            H_C31_seed,
	"H_C31_senders":         H_C31_senders,
	"H_C32_again":           H_C32_again,
	"H_C32_gaps":            H_C32_gaps,
	"H_C32_history":         H_C32_history,
	"H_C32_none":            H_C32_none,
	"H_C32_turns":           H_C32_turns,
}
