#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only for readability of the long texts)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mechanism],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe), hook_needed=hook)))
CS = ("ConsensusState", "current justified and finalized checkpoints", "core/src/consensus_state.rs")
prop("C01", "Consensus state advances only by the one-step FFG rule",
 "Applying a supermajority link to a light-client consensus state succeeds exactly when the link starts at the state's current justified checkpoint (same epoch and root) and ends in a strictly later epoch. The result then has the link's target as justified checkpoint, and its finalized checkpoint becomes the link's source exactly if the target is the next epoch and stays unchanged otherwise. A consistent state (finalized strictly before justified, or the all-zero genesis state) always leads to a consistent state, an inconsistent one is never constructed or advanced, and epochs next to 2^64 neither wrap nor get accepted.",
 ["inputs", "histories"], "all pairs of checkpoints as state, all links, all sequences of links, 64-bit epochs",
 "The table test has eleven hand-picked (state, link) pairs with small epochs and zero roots; the rule has to hold for every state, root and epoch up to 2^64 and along every history.",
 ["core/src/consensus_state.rs"], [("state_transition", "core/src/consensus_state.rs"), ("is_valid", "core/src/consensus_state.rs")], [CS], ["ConsensusState::state_transition", "ConsensusState::new"])
prop("C02", "Link reconstruction is the exact inverse of applying a link",
 "Given two consensus states, link reconstruction reports 'no link' only if they are identical, and reports a link exactly when applying that link to the first state yields the second; it is then that link. For every state and every link the state accepts - including the first link away from the genesis state - reconstruction returns that very link. For all other pairs (going backwards, conflicting roots, finality spanning two epochs) it returns an error and never invents a link.",
 ["inputs", "histories"], "all ordered pairs of states over 64-bit epochs and roots",
 "The existing test checks reconstruction on a recorded list of mainnet transitions and two table rows; genesis, conflicting roots, and the far ends of the epoch range are not in it.",
 ["core/src/consensus_state.rs"], [("transition_link", "core/src/consensus_state.rs"), ("less_or_equal", "core/src/consensus_state.rs")], [CS], ["ConsensusState::transition_link"])
prop("C03", "A verified batch yields exactly one new finalization, or nothing",
 "A batch of attestations is accepted only if its consecutive groups of equal (source, target) form a chain of links from the given state in which the last link, and only the last, finalizes a checkpoint. On acceptance the returned state is exactly the result of applying those links in order and the returned slot is the one proven for the newly finalized block; a batch with no finalization, a second finalization, anything after the finalizing link, an out-of-order, repeated or foreign link is rejected as a whole.",
 ["inputs", "histories"], "all batches: any number, order and grouping of attestations and links",
 "Tests drive honest chains whose batches are well formed; arbitrary orders, repeats and trailing links from an untrusted prover are not enumerated.",
 ["core/src/verify.rs", "core/src/consensus_state.rs"], [("verify: loop over links and final ensure", "core/src/verify.rs")], [CS], ["verify()"])
prop("C04", "Every accepted link carries the configured supermajority weight",
 "A link is accepted only if the distinct, unslashed validators that attested it together hold at least the configured fraction (threshold factor / quotient, never below two thirds) of the total effective balance of all validators active in the target epoch, compared exactly without rounding or overflow. A validator counts once no matter how many of the batch's attestations include it, slashed validators add nothing to the attesting side but stay in the total, and only votes for exactly that source and target count. Both sums count as at least one balance increment, as in the consensus specification. A batch at or above the threshold is not refused for lack of weight, as long as three times the weight fits in 64 bits.",
 ["inputs", "configurations"], "all registries, balances up to 64 bits, participation sets, overlaps, thresholds",
 "Tests use uniform balances and full or clearly insufficient participation; exact boundaries, overlaps, slashed validators and overflow need enumeration.",
 ["core/src/verify.rs", "core/src/input_reader.rs"], [("participating_indices and threshold comparison", "core/src/verify.rs"), ("get_total_balance", "core/src/input_reader.rs")], [], ["verify()"])
prop("C05", "A vote counts only with an authentic signature of exactly its voters",
 "An attestation contributes votes only if its aggregate signature verifies against precisely the validators selected by its committee and participation bits, over that attestation's complete data (slot, zero index, block root, source, target) under the attester domain of the target epoch's fork and of the trusted genesis validators root. Its slot must lie in its target epoch, each named committee must exist and have at least one voter, and the participation bits must cover the named committees exactly. An attestation violating any of this makes the whole batch rejected, and a batch of honest ones is accepted.",
 ["inputs"], "all attestations: data, bits, committee selections, signers, domains, fork boundaries",
 "Tests only feed attestations produced by an honest harness; forged, re-targeted, cross-fork or mis-sized ones are unlimited.",
 ["core/src/verify.rs", "core/src/attestation.rs"], [("process_attestation, is_valid_indexed_attestation", "core/src/verify.rs"), ("get_attesting_indices", "core/src/attestation.rs")], [], ["verify()"])
prop("C06", "Only supported forks and epochs within the lookahead are verified",
 "A link is accepted only if the fork in force at its target epoch lies between the configured minimum and maximum fork and its target epoch is at most the configured number of epochs after the trusted finalized epoch. Within these limits, bounds included, a valid link is not refused for them. The shipped mainnet and sepolia programs use their own network's fork schedule, both support Electra and Fulu only and look ahead 4 epochs, and they require 85% and 70% of the weight respectively.",
 ["inputs", "configurations"], "all fork schedules, configurations, trusted and target epochs; both shipped networks",
 "Tests run one spec at one fork; boundary epochs of the schedule and of the lookahead and the shipped configurations are never executed.",
 ["core/src/verify.rs", "core/src/config.rs", "methods/guest/src/bin/mainnet.rs", "methods/guest/src/bin/sepolia.rs", "chainspec/src/lib.rs", "chainspec/configs/mainnet.yaml", "chainspec/configs/sepolia.yaml"],
 [("validate_link", "core/src/verify.rs"), ("Config, DEFAULT_CONFIG, SEPOLIA_CONFIG", "core/src/config.rs")], [], ["verify()", "guest programs"])
prop("C07", "Conflicting finalizations imply slashable supermajority overlap",
 "If two batches are both accepted from the same trusted state over the same validator set and finalize conflicting checkpoints, then validators holding at least twice the threshold fraction minus one of the total active balance have signed two conflicting votes: two different votes for the same target epoch, or one vote surrounding another. Without that much equivocation, two clients starting from the same state can never disagree about finality.",
 ["histories", "inputs"], "all pairs of accepted batches, all assignments of votes, links that skip epochs",
 "This is a statement about every pair of adversarial histories; no test runs two conflicting batches.",
 ["core/src/verify.rs", "core/src/consensus_state.rs"], [("verify", "core/src/verify.rs"), ("state_transition", "core/src/consensus_state.rs")], [CS], ["verify()"])
prop("C08", "Multiproof verification is sound and reports exactly the proven nodes",
 "A multiproof is accepted against a root only if hashing its supplied nodes in the shape its descriptor prescribes gives that root, so that every value it reports is the node found at the reported generalized index in any tree with that root. The reported values are exactly the marked nodes with their true indices in proof order, lookups return the node of the requested index or fail, and ordered extraction fails as soon as an index differs from the expected one. Malformed descriptors, missing nodes and proofs deeper than an index can address are rejected, and every well-formed proof of the root is accepted.",
 ["inputs"], "all descriptors, masks, node lists and trees; generalized indices up to 64 bits",
 "The unit test iterates indices of a single proof and the property tests (not part of the stable set) only cover honest proofs; adversarial descriptors are unbounded.",
 ["ssz-multiproofs/src/multiproof.rs"], [("calculate_root, verify", "ssz-multiproofs/src/multiproof.rs"), ("GIndexIterator, ValueIterator", "ssz-multiproofs/src/multiproof.rs"), ("get, next_assert_gindex", "ssz-multiproofs/src/multiproof.rs")], [], ["Multiproof::verify / calculate_root / values / get"])
prop("C09", "Every requested set of tree nodes gets a valid, minimal multiproof",
 "For every object and every non-empty set of requested generalized indices below the root in which none is an ancestor of another, the builder produces a proof that verifies against the object's root and reports exactly the requested indices, in proof order, with their true values. The proof contains no node besides the requested ones and the siblings needed to reach the root. A request for an index the object does not have is refused.",
 ["inputs", "programs"], "all containers, lists, packed values and index sets",
 "Property tests sample one tree shape; mixed depths, packed lists, list lengths and padding are not enumerated.",
 ["ssz-multiproofs/src/builder.rs"], [("MultiproofBuilder::build", "ssz-multiproofs/src/builder.rs")], [], ["MultiproofBuilder::build"])
prop("C10", "All chain data the verifier uses is bound to the trusted finalized root",
 "The guest accepts an input only if block, state and validator data are proven, one inside the other, from the root of the trusted finalized checkpoint, at the positions of those fields in the Electra layout, and the state's fork equals the chain's fork at the state's slot. Every fact then available to verification - genesis validators root, validator records, block slots - equals the fact in that proven data; data from another block, another state or another position, or with inconsistent public keys, is rejected. A slot is only reported for a block root whose header proves it.",
 ["inputs"], "all guest inputs: every substitution, reordering, re-positioning or omission of proven values",
 "Tests use honest inputs only; the adversary controls every byte.",
 ["core/src/input_reader/guest_input_reader.rs", "core/src/guest_gindices.rs"], [("GuestInput::into_reader", "core/src/input_reader/guest_input_reader.rs"), ("extract_*_multiproof", "core/src/input_reader/guest_input_reader.rs"), ("gindex functions", "core/src/guest_gindices.rs")], [], ["GuestInput::into_reader and the InputReader it returns"])
prop("C11", "The validator registry seen by the guest is complete and exact",
 "From an accepted input the guest sees every validator of the trusted state that has not exited by the trusted epoch, each with its true index, public key, effective balance, slashed flag and activation and exit epochs. A validator can be left out only by proving its exit epoch is at or before the trusted finalized epoch, the number of validators must equal the proven registry length, and honest registries of any size are accepted.",
 ["inputs"], "all registries (sizes, exits, balances) and all attempts to omit, duplicate, reorder or alter entries",
 "Honest-harness tests never omit or alter validators, and have no exits at the trusted epoch boundary.",
 ["core/src/input_reader/guest_input_reader.rs", "core/src/bls.rs"], [("extract_validators_multiproof", "core/src/input_reader/guest_input_reader.rs"), ("has_compressed_chunks", "core/src/bls.rs")], [], ["InputReader::active_validators"])
prop("C12", "Activations between trusted and justified epoch follow the consensus rules",
 "The set of validators the guest treats as active in a later epoch is the trusted state's registry advanced through the registry updates of every epoch from the state's epoch to the current justified epoch - eligibility recorded for the next epoch, activation scheduled after the seed lookahead once eligibility is finalized, using the state's own finalized epoch and, at the justified epoch, the trusted epoch - and then filtered by activation and exit epoch. No validator is activated earlier, later or twice compared with these rules.",
 ["inputs", "histories"], "all registries with pending and eligible validators, all distances between state, trusted and justified epoch",
 "Activation queues are empty in the tests' registries and distances are short.",
 ["core/src/input_reader/guest_input_reader.rs", "core/src/lib.rs"], [("process_registry_updates", "core/src/input_reader/guest_input_reader.rs"), ("ValidatorInfo::is_*", "core/src/lib.rs")], [], ["InputReader::active_validators"])
prop("C13", "Unverified state patches can only add exits within the churn limit",
 "The unproven per-epoch patches in a guest input can only change randomness and exits: an accepted input never patches an epoch before the trusted one, never changes an exit already scheduled in the proven state or in an earlier patch, and never sets an exit earlier than the earliest epoch at which the protocol could still schedule one. The effective balance newly exiting in one patch never exceeds the balance that twice the churn limit of the trusted epoch's total active balance lets leave up to the last exit, and patches a real chain can produce within that limit are accepted.",
 ["inputs", "histories"], "all patch sequences, including gaps between patched epochs, and all balances",
 "The tests' chains produce no exits, so the checks are never exercised; the adversary picks any patch sequence.",
 ["core/src/input_reader/guest_input_reader.rs", "core/src/state_patch.rs"], [("validate_state_patches, get_balance_churn_limit", "core/src/input_reader/guest_input_reader.rs"), ("StatePatch::is_active_validator", "core/src/state_patch.rs")], [], ["GuestInput::into_reader", "InputReader::active_validators"])
prop("C14", "Committees are those of the consensus specification",
 "For every slot and committee index of a target epoch, the validators whose votes an attestation can carry are exactly the beacon committee of the consensus specification: the active validators of that epoch shuffled with the seed made from the attester domain, the epoch and the randomness mix of two epochs earlier, split evenly over all slots and committees. Every active validator belongs to exactly one committee per epoch.",
 ["inputs", "configurations"], "all active sets, sizes, epochs and mixes, both presets",
 "Harness tests use one validator count and accept whatever committees the same library computes on both sides.",
 ["core/src/committee_cache.rs", "core/src/input_reader.rs", "core/src/verify.rs"], [("CommitteeCache", "core/src/committee_cache.rs"), ("get_seed, get_randao_mix", "core/src/input_reader.rs"), ("compute_committees", "core/src/verify.rs")], [], ["verify()"])
prop("C15", "The journal is committed only on success and states what was verified",
 "The guest program publishes output only if the input was fully verified, and then exactly one journal consisting of the ABI encoding of the state it started from, the state it verified and the slot of the newly finalized block. On any invalid input it aborts and publishes nothing.",
 ["inputs"], "all guest inputs, valid or not, for both shipped networks",
 "No test runs the shipped guest programs on hostile input.",
 ["methods/guest/src/lib.rs", "core/src/abi.rs"], [("entry", "methods/guest/src/lib.rs"), ("Journal", "core/src/abi.rs")], [], ["guest programs' journal and exit"])
prop("C16", "Journal and state use the documented fixed ABI layout and decode safely",
 "A consensus state encodes as the four 32-byte words (justified epoch, justified root, finalized epoch, finalized root) and a journal as pre-state, post-state and finalized slot, 288 bytes in all. Decoding an encoded state gives the same state for all epochs and roots, and decoding any other bytes returns either a consistent state equal to what the bytes say or an error - it never crashes and never yields an inconsistent state.",
 ["inputs"], "all states and all byte strings",
 "There is no ABI test; layout and error paths matter for every input a contract or client may see.",
 ["core/src/abi.rs", "core/src/consensus_state.rs"], [("sol! structs and conversions", "core/src/abi.rs"), ("abi_encode / abi_decode", "core/src/consensus_state.rs")], [], ["ConsensusState::abi_encode / abi_decode", "Journal::encode"])
prop("C17", "The host finds the unique next step of the chain or says why there is none",
 "Given a consensus state on the canonical chain, the host's search for the next provable state returns the states and links the chain itself went through up to the next finalization, in order, each connected to the previous by its link, whatever slots are empty and however late justifications appear. It never returns a chain that skips, reorders or invents links, reports when the chain has not finalized anything new, and fails rather than guesses when the chain finalized across two epochs.",
 ["histories", "inputs"], "all chain histories with missed slots, delayed justification and skipped epochs",
 "Scenario tests cover a few dozen histories; every placement of missed slots and late justifications matters.",
 ["host/src/input_reader/host_input_reader.rs", "core/src/consensus_state.rs"], [("get_next_finalized_state / transition search", "host/src/input_reader/host_input_reader.rs")], [], ["HostInputReader"])
prop("C18", "The host collects every on-chain vote for the links it proves",
 "For the links to be proven, the host gathers all attestations with exactly those sources and targets that are included anywhere in the canonical chain within the inclusion window (until the end of the epoch after the target), each grouped under its link in link order, and nothing else. Therefore whenever the chain itself contains enough votes for the links, the gathered input does.",
 ["histories"], "all inclusion delays, missed slots, mixtures of links",
 "Harness chains include attestations promptly; late inclusion is not exercised.",
 ["host/src/input_reader/host_input_reader.rs"], [("collect_attestations_for_links", "host/src/input_reader/host_input_reader.rs")], [], ["HostInputReader"])
prop("C19", "Preflight input is self-sufficient and reproduces the host's result",
 "Whenever verification succeeds on the host against full chain data, the input recorded during that run, serialized and given to the guest, is accepted there with the same final state and slot, without any data missing, also when it is built again, for instance after a state could not be read. The recorded input depends only on data the verification used.",
 ["inputs", "histories"], "all chain histories and registries on which the host run succeeds",
 "A handful of harness scenarios; registries with exits, pending validators, skipped boundary slots and fork changes differ.",
 ["host/src/input_reader/preflight_input_reader.rs", "host/src/state_patch_builder.rs", "core/src/input_reader/guest_input_reader.rs"], [("PreflightInputReader::to_input", "host/src/input_reader/preflight_input_reader.rs"), ("StatePatchBuilder", "host/src/state_patch_builder.rs")], [], ["to_input, GuestInput serialization"])
prop("C20", "The on-disk state store never serves a wrong or torn state",
 "A state read back from the local store for a slot is the complete state that was saved for that slot, whatever sequence of saves, reads, deletions, failures, crashes (of the process or the machine) and restarts came before, and whatever another process does with the store at the same time; a save that is interrupted at any point leaves the store either without the state or with all of it. Reading a slot that was never completely saved reports absence or an error and never another slot's or a partial state.",
 ["crash_points", "histories", "fault_sequences"], "all crash points within a save, all operation histories",
 "No test interrupts a write.",
 ["host/src/state_provider/file_provider.rs", "host/src/state_provider/cache_provider.rs", "host/src/state_provider/persistant_api_provider.rs"], [("FileProvider::save_state / state_at_slot", "host/src/state_provider/file_provider.rs"), ("PersistantApiStateProvider", "host/src/state_provider/persistant_api_provider.rs"), ("CacheStateProvider", "host/src/state_provider/cache_provider.rs")], [], ["StateProvider::state_at_slot"])
prop("C21", "The state of an epoch boundary is found across skipped slots",
 "Asked for the state at an epoch boundary, the host returns the state belonging to the last canonical block at or before the boundary's first slot, also if that slot or any number of slots before it is empty, and the same through every layer of caching. It never returns the state of a later block or of another chain.",
 ["histories"], "all patterns of missed slots around epoch boundaries, all cache histories",
 "Tests skip at most a few chosen slots.",
 ["host/src/state_provider.rs", "host/src/state_provider/persistant_api_provider.rs", "host/src/beacon_client.rs"], [("StateProvider::state_at_epoch_boundary", "host/src/state_provider.rs")], [], ["StateProvider"])
prop("C22", "What the host tells the verification about the chain is the chain",
 "For every epoch the host serves, the validators it reports as active are exactly those active in the state at that epoch's boundary (with the data of the chain's own validator records, in registry order, whatever order and however often it is asked, and whatever is cached), the randomness mixes and fork data it reports are those of the chain, and the slot it reports for a block is that block's own slot; blocks it does not know have no slot. A successful host verification names the finalized block's real slot.",
 ["inputs", "histories"], "all registries and their evolution, epochs, query orders and skipped boundary slots",
 "The harness uses a fixed registry without exits, activations or skipped boundary slots.",
 ["host/src/input_reader/host_input_reader.rs", "host/src/state_provider.rs"], [("HostInputReader as InputReader", "host/src/input_reader/host_input_reader.rs")], [], ["HostInputReader (InputReader)"])
prop("C23", "The command-line program leaves provable steps of the chain, and only those",
 "Every pair of files `build-input` writes for a finalized epoch consists of an input stream the network's guest program accepts and exactly the journal the guest program then commits, and that journal states the chain's own step from the state in which this epoch is finalized. Continuous mode walks from finalization to finalization without leaving one out; as long as the chain has the next step and its votes, the files are written; when the chain lacks the step or the node fails, no files are written for it and the exit status says so. `verify` confirms exactly the steps the chain has, and `sync` confirms step after step along the chain.",
 ["inputs", "histories", "faults"], "all chains, start epochs, networks and modes, node failures at any request, heads that move on while the program waits, whatever states are already stored",
 "No test runs the program; whether search, preflight, serialization, guest program, network configuration and journal fit together depends on all of them at once.",
 ["host/src/bin/zkasper_cli.rs", "host/src/beacon_client.rs", "methods/src/lib.rs", "core/src/config.rs"], [("prepare_input", "host/src/bin/zkasper_cli.rs"), ("run_sync", "host/src/bin/zkasper_cli.rs"), ("encode_input_stdin", "host/src/bin/zkasper_cli.rs"), ("execute_guest_program", "host/src/bin/zkasper_cli.rs")], [], ["zkasper_cli build-input | verify | sync", "methods/guest/src/bin/*.rs"])
prop("C24", "The cross-checking reader passes on only what both its readers agree on",
 "Built over two readers, the cross-checking reader answers every question exactly as its first reader does, provided the second reader gives the same answer to the same question; active validators are compared by index, public key, slashing status, eligibility and activation epoch, as effective balances and exit epochs may be stale in the second. In every other case - another value, an element missing, added or moved, no answer from one of them - it gives no answer, and of a sequence at most the elements before the first difference.",
 ["inputs"], "all pairs of readers and all questions",
 "It is only run over readers that agree, so that it would notice a difference is never tested.",
 ["host/src/input_reader/assert_input_reader.rs"], [("AssertInputReader as InputReader", "host/src/input_reader/assert_input_reader.rs")], [], ["AssertInputReader (InputReader)"])
open("properties.jsonl", "w").write("".join(json.dumps(p) + "\n" for p in P))
