#[cfg(feature = "ics23")]
pub mod ics;
pub mod conc;
pub mod det;
pub mod enc;
pub mod mock;
pub mod faults;
pub mod proofs;
pub mod reads;
pub mod restore;
pub mod structure;
use crate::core::*;
use crate::*;
type S2 = sha2::Sha256;
type S5 = sha2::Sha512_256;
type M = Mix256;

macro_rules! h4 {
    ($($f:ident)::+) => {
        [("Sha256", $($f)::+::<S2> as fn(&mut Cx) -> R<()>), ("Mix256", $($f)::+::<M>), ("Sha512_256", $($f)::+::<S5>), ("Sha256", $($f)::+::<S2>)]
    };
}

const PLAN_RULE: &str = "random histories over few hostile keys (shared prefixes up to 255 bits, neighbours, full nodes, key-space ends): several versions of inserts, overwrites, deletions, re-insertions, repeated keys, empty and no-op sets, grouped randomly into calls of all entry points; non-trivial = at least two entries at once and a present key overwritten or deleted";

const RESTORE_RULE: &str = "a version of a random hostile-key history restored into another version (including the pre-genesis one) of a fresh store in random chunks, with interruptions or tampering; non-trivial as for the source history: at least two entries at once and a present key overwritten or deleted";

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            runs: h4!(reads::c01),
            quick: 30000,
            thorough: 2000000,
            level: "exploration",
            rule: PLAN_RULE,
            assumptions: &["the storage backend returns the newest value at or below the asked version"],
            need: &["reads_present", "reads_absent", "versions_read_back"],
        },
        Prop {
            id: "C02",
            runs: h4!(reads::c02),
            quick: 24000,
            thorough: 2000000,
            level: "exploration",
            rule: PLAN_RULE,
            assumptions: &[],
            need: &["roots_compared", "rebuilds_compared", "appended_roots_compared", "restored_roots_compared"],
        },
        Prop { id: "C03", runs: h4!(proofs::c03), quick: 2400, thorough: 2000000, level: "exploration", rule: PLAN_RULE,
            assumptions: &[], need: &["inclusion_verified", "absence_empty_position", "absence_other_leaf", "wrong_claims_rejected", "other_roots_rejected"] },
        Prop { id: "C04", runs: h4!(proofs::c04), quick: 4800, thorough: 2000000, level: "exploration", rule: PLAN_RULE,
            assumptions: &[], need: &["false_claims_rejected", "forged_inner_as_leaf", "oversized_proofs"] },
        Prop { id: "C05", runs: h4!(proofs::c05), quick: 16200, thorough: 2000000, level: "exploration", rule: PLAN_RULE,
            assumptions: &[], need: &["proved_insert", "proved_overwrite", "proved_delete", "proved_noop_delete", "other_updates_rejected"] },
        Prop { id: "C06", runs: h4!(proofs::c06), quick: 2400, thorough: 2000000, level: "exploration", rule: PLAN_RULE,
            assumptions: &[], need: &["false_transitions_rejected", "targets_from_believing_verifier"] },
        Prop { id: "C07", runs: h4!(proofs::c07), quick: 4800, thorough: 2000000, level: "exploration", rule: PLAN_RULE,
            assumptions: &[], need: &["range_proofs_verified", "tampered_sets_rejected", "tampered_siblings_rejected"] },
        Prop { id: "C08", runs: h4!(proofs::c08), quick: 16000, thorough: 2000000, level: "exploration", rule: PLAN_RULE,
            assumptions: &[], need: &["exclusion_present", "exclusion_leftmost", "exclusion_middle", "exclusion_rightmost"] },
        #[cfg(feature = "ics23")]
        Prop { id: "C09", runs: [("Sha256", ics::c09), ("Sha256", ics::c09), ("Sha256", ics::c09), ("Sha256", ics::c09)], quick: 18000, thorough: 2000000, level: "exploration",
            rule: "random histories over SHA-256 key preimages chosen for long shared hash prefixes (neighbours among 2^17 hashed strings, pairs mined to share 32 to 65 bits); non-trivial = at least two entries at once and a present key overwritten or deleted",
            assumptions: &["keys and values are non-empty, as the API documentation requires", "the preimage of every stored key is available"],
            need: &["membership_verified", "nonmembership_leftmost", "nonmembership_middle", "nonmembership_rightmost", "tampered_rejected", "absence_of_present_rejected", "claims_judged"] },
        Prop { id: "C10", runs: h4!(structure::c10), quick: 20000, thorough: 2000000, level: "exploration", rule: PLAN_RULE,
            assumptions: &[], need: &["iterations_by_key", "iterations_by_index", "items_yielded", "empty_versions", "single_leaf_versions"] },
        Prop { id: "C11", runs: h4!(restore::c11), quick: 12000, thorough: 2000000, level: "exploration", rule: RESTORE_RULE,
            assumptions: &["the interrupted receiver's chunks were written completely or not at all", "the receiver re-sends the entries after the rightmost stored leaf"],
            need: &["chunks_accepted", "interruptions", "resumptions_mid_tree", "restorations_finished", "empty_trees_restored", "restored_into_mock_store", "overwriting_restorations", "updates_after_restore"] },
        Prop { id: "C12", runs: h4!(restore::c12), quick: 6000, thorough: 2000000, level: "exploration", rule: RESTORE_RULE,
            assumptions: &["no hash collisions"],
            need: &["chunks_rejected_for_entries", "chunks_rejected_for_proof", "truncated_finish_refused", "other_root_refused", "write_faults", "attacks_on_resumed", "recovered_restorations", "same_receiver_continued"] },
        Prop { id: "C13", runs: h4!(structure::c13), quick: 10000, thorough: 2000000, level: "exploration", rule: PLAN_RULE,
            assumptions: &[], need: &["interrupted_prunings", "pruned_version_errors", "prunings", "nodes_pruned", "retained_versions_compared", "pruned_version_errors", "pruned_version_correct_answers"] },
        Prop { id: "C14", runs: h4!(structure::c14), quick: 50000, thorough: 2000000, level: "exploration", rule: PLAN_RULE,
            assumptions: &[], need: &["stale_reports_matched", "stored_nodes_accounted", "prunings_compared"] },
        Prop { id: "C15", runs: h4!(structure::c15), quick: 8000, thorough: 2000000, level: "exploration", rule: PLAN_RULE,
            assumptions: &[], need: &["alternatives_computed", "crashes", "crash_leftover_nodes"] },
        Prop { id: "C16", runs: h4!(structure::c16), quick: 8000, thorough: 2000000, level: "exploration", rule: PLAN_RULE,
            assumptions: &[], need: &["nodes_checked", "versions_walked"] },
        Prop { id: "C17", runs: h4!(structure::c17), quick: 40000, thorough: 2000000, level: "exploration", rule: PLAN_RULE,
            assumptions: &[], need: &["statistics_compared", "leaf_counts_compared"] },
        Prop { id: "C18", runs: h4!(structure::c18), quick: 8000, thorough: 2000000, level: "exploration", rule: PLAN_RULE,
            assumptions: &[], need: &["merged_batches_compared", "ways_compared_exactly", "ways_compared_by_shape", "reordered_calls", "calls_bulk", "calls_bulk_hashes", "calls_with_proof", "multi_version_calls"] },
        Prop { id: "C19", runs: h4!(enc::c19), quick: 6000, thorough: 2000000, level: "exploration", rule: "every batch, node, key, stale entry and proof of random hostile-key histories plus synthetic ones, encoded, compared with independent encoders, decoded and used; and mutated or random bytes and JSON given to every decoder; non-trivial as for the history: at least two entries at once and a present key overwritten or deleted",
            assumptions: &["borsh, serde_json, bincode and ciborium themselves are correct"], need: &["borsh_round_trips", "serde_round_trips", "serde_binary_round_trips", "hostile_bincode_accepted", "decoded_update_proofs_verified", "decoded_range_proofs_verified", "hostile_borsh_accepted", "hostile_json_accepted", "truncations_refused", "orders_compared"] },
        Prop { id: "C20", runs: h4!(faults::c20), quick: 8000, thorough: 2000000, level: "fault_enumeration", rule: "random hostile-key histories; each operation is run once cleanly, then once per storage read with that read failing (once; for half of them also with all later reads failing), then again cleanly; operations with more reads than the cap (40 quick, 200 thorough) have their reads sampled; non-trivial as for the history: at least two entries at once and a present key overwritten or deleted",
            assumptions: &["a failing read returns an error; it does not return wrong data"],
            need: &["faults_injected", "errors_returned", "retries_compared", "op_get", "op_get_with_proof", "op_exclusion", "op_range_proof", "op_iterate", "op_iterate_by_index", "op_put", "op_put_with_proof", "op_put_sets", "op_batch_put", "op_append", "op_restore", "first_updates", "op_get_root_hash", "op_get_root_hash_option", "op_get_leaf_count"] },
        Prop { id: "C21", runs: h4!(structure::c21), quick: 4800, thorough: 2000000, level: "exploration", rule: PLAN_RULE,
            assumptions: &[], need: &["appends", "appends_refused", "prunings"] },
        Prop { id: "C22", runs: h4!(conc::c22), quick: 2400, thorough: 2000000, level: "exploration", rule: "random histories committed by one thread and pruned by the same or another while 2 to 4 reader threads with random delays between storage reads query appearing, newest, oldest and vanishing versions; distinct cases counted by history and by what each reader operation saw of commits and prunes",
            assumptions: &["the schedule is the operating system's, perturbed by random delays; a replayed case may take another one", "plain reads of versions whose root was not visible are not judged"],
            need: &["reader_operations", "answers_correct", "versions_seen_missing", "versions_seen_before_commit_returned", "operations_overlapping_commits", "operations_overlapping_prunes", "refusals_of_prunable_versions", "correct_answers_of_prunable_versions", "purges", "versions_intact_afterwards"] },
        Prop { id: "C23", runs: h4!(det::c23), quick: 1200, thorough: 200000, level: "exploration", rule: "random hostile-key histories followed by every public query, forged-proof verification, restoration and pruning, run twice in each of four processes: the main build twice, a build without std (hashbrown maps, no ICS23) and a release build (no overflow checks, no debug assertions); per-case digests of all outputs compared; non-trivial as for the history: at least two entries at once and a present key overwritten or deleted",
            assumptions: &["error messages are not part of the result"],
            need: &["repetitions_compared", "outputs_recorded", "outputs_accepted", "outputs_refused", "outputs_ics23", "cases_compared_with_repeat", "cases_compared_with_no_std", "cases_compared_with_release"] },
        Prop { id: "C24", runs: h4!(mock::c24), quick: 100000, thorough: 2000000, level: "exploration", rule: "random sequences of batches, leaves, stale entries, purges and reads against the in-memory store, including refused ones (which end the sequence), and real tree histories with pruning; every read compared with a reference store; non-trivial = every synthetic sequence, and real histories with at least two entries at once and a present key overwritten or deleted",
            assumptions: &["the state after a refused batch is not specified"],
            need: &["node_reads_compared", "value_reads_compared", "older_absent_reads", "rightmost_leaves_found", "overwrites_refused", "overwrites_allowed", "backward_values_refused", "repeated_stale_refused", "duplicate_leaves_refused", "nodes_purged", "purges_of_missing_nodes", "values_replaced", "real_histories", "leaves_put"] },
        Prop { id: "C25", runs: h4!(structure::c25), quick: 3840, thorough: 2000000, level: "exploration", rule: PLAN_RULE,
            assumptions: &[], need: &["pre_genesis_states", "no_pre_genesis", "empty_pre_genesis_states", "first_updates_on_pre_genesis"] },
        Prop { id: "C26", runs: h4!(structure::c26), quick: 19200, thorough: 2000000, level: "exploration", rule: PLAN_RULE,
            assumptions: &[], need: &["update_budgets_checked", "whole_update_budgets_checked", "iterator_budgets_checked", "read_budgets_checked", "new_nodes_located", "shared_nodes_checked"] },
        Prop { id: "C27", runs: h4!(mock::c27), quick: 100000, thorough: 2000000, level: "exploration", rule: "random sequences of insertions, extensions, merges and clearings of a batch (nodes of every kind, values, empty values, deletions, conflicts) compared after every step with two maps; then its contents read through a storage reader that implements only the required methods, working and failing; every case counts as non-trivial",
            assumptions: &[],
            need: &["nodes_replaced", "deletions_added", "deletions_replaced", "values_replaced", "extended", "merged", "merges_with_conflicts", "cleared", "batches_of_values_only", "batches_of_nodes_only", "batches_told_apart", "derived_reads_found", "derived_reads_missing", "storage_errors_passed_on"] },
    ]
}
