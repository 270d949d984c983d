#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
            "mechanism": [dict(name=a, where=b) for a, b in mechanism],
            "observe_at": list(observe), "hook_needed": None,
        }})
A = "shuttermint/app/"
K = "shuttermint/keyper/"

prop("C01", "Shuttermint replicas execute the same blocks identically",
 "Any two Shuttermint application instances that are started from the same genesis and are given the same blocks return byte-identical results for every transaction (code, data and events, in order) and the same ordered validator updates for every block. This holds regardless of what each instance saw in its mempool (CheckTx), of when or whether it was persisted, restarted or saved to disk, and of map iteration order or wall clock time.",
 ["histories", "schedules"],
 "all block histories up to a bounded length over alphabets of every message type, crossed with all placements of mempool checks and save/restart points on one of the replicas",
 "The unit tests run single handlers on one instance; none compares two instances, and divergence only shows for particular histories, restart points and map orders.",
 [A+"app.go", A+"types.go", A+"powermap.go", A+"voting.go", A+"configvoting.go", A+"eonvoting.go"],
 [("deterministic delivery of messages", A+"app.go DeliverTx/EndBlock"), ("sorted validator updates", A+"powermap.go SortValidators"), ("mempool state kept apart from consensus state", A+"checktx.go")],
 observe=["responses of DeliverTx, EndBlock, Info"])

prop("C02", "A Shuttermint node recovers from a crash at any point",
 "If a node process or machine stops at any instant, including in the middle of saving its state, the saved state that is loaded on restart is the complete state of one block height that had been committed, at least as recent as the last save that had finished (after a stop of the whole machine: as the save before it). The reported last block height is the height of that state, and replaying the following blocks leads to the same transaction results, validator updates and state as a node that never stopped.",
 ["crash_points", "histories"],
 "every filesystem operation of every save in all block histories of a bounded alphabet, with every torn or lost unsynced write the storage model allows",
 "No test saves and reloads the application at all, let alone crashes it between write, sync and rename.",
 [A+"app.go"],
 [("write to temporary file, fsync, rename", A+"app.go PersistToDisk"), ("load on start", A+"app.go LoadShutterAppFromFile"), ("height reported to tendermint", A+"app.go Info")],
 observe=["files on disk, Info, responses after restart"])

prop("C03", "No transaction is executed twice or on the wrong chain; mempool is limited",
 "For each signer and nonce at most one transaction is ever executed by the application, and a transaction made for another chain id never is, whatever the order of blocks, mempool checks and restarts; a fresh nonce of a valid signer is never refused as a replay. The mempool check admits only members of some keyper set (anyone while there is none), never admits a used nonce, a repeated pending nonce or a foreign chain id, and admits at most ten transactions per signer per block.",
 ["histories", "inputs"],
 "all sequences of deliver/check/commit/restart steps up to a bounded depth over several signers, nonces and chain ids",
 "Tests check the nonce tracker and the mempool state in isolation; they never combine delivery, mempool, commit and reload.",
 [A+"app.go", A+"checktx.go", A+"noncetracker.go"],
 [("nonce tracking", A+"noncetracker.go"), ("per block mempool counters reset on commit", A+"checktx.go, app.go Commit"), ("chain id comparison", A+"app.go CheckTx, DeliverTx")],
 observe=["codes of CheckTx and DeliverTx"])

prop("C04", "A batch config is accepted only by a threshold vote of current keypers",
 "A new batch config takes effect exactly when, since the previous config was accepted, at least as many distinct keypers of the latest accepted config as that config's threshold have voted for precisely this config; nobody else's vote counts and nobody counts twice or for two configs. Every accepted config is valid (at least one keyper, no duplicates, threshold between one and the number of keypers), has a higher config index and no lower start batch index than the one before, and is announced by exactly one event carrying its contents.",
 ["histories", "inputs"],
 "all sequences of config votes up to a bounded depth by keypers and outsiders over valid, conflicting, stale and malformed configs, in every block placement",
 "Tests drive one or two fixed voting sequences; conflicting, stale and malformed candidates interleaved across config changes are not sampled.",
 [A+"app.go", A+"configvoting.go", A+"voting.go", K+"shutterevents/batchconfig.go"],
 [("voting", A+"configvoting.go"), ("validation", A+"app.go checkConfig, batchconfig.go EnsureValid")],
 observe=["responses and events of DeliverTx"])

prop("C05", "A config is started only by a threshold of its predecessor's keypers",
 "A batch config that was accepted as not started becomes started only at the end of a block by which at least a threshold (that of the directly preceding config) of distinct keypers of that preceding config have reported this very config as started, and it then does become started. Reports for other configs, reports made for an earlier config and reports of outsiders never count.",
 ["histories"],
 "all sequences of config votes, start reports and block ends up to a bounded depth, over chains of several configs with different keyper sets and thresholds",
 "No test covers start reports across more than one config change; counting stale reports needs a specific multi step history.",
 [A+"app.go"],
 [("started votes", A+"app.go deliverBatchConfigStarted, EndBlock, addConfig")],
 state=[("StartedVotes", "reports for the latest config", A+"types.go")],
 observe=["validator updates and Started flag"])

prop("C06", "Eons start exactly when due, with strictly increasing numbers",
 "Every started key generation gets the next unused eon number and is announced by exactly one event with the batch index it applies to. An eon starts on acceptance of a config whose keyper list or threshold differs from that of the latest eon, and otherwise only when a threshold of keypers of the config responsible for a batch index currently vote for that same batch index, after which those votes are spent; an eon's participants are the keypers of that config.",
 ["histories"],
 "all sequences of config votes, restart votes (including changed votes) and block ends up to a bounded depth over overlapping configs",
 "One unit test checks the vote counter; vote changes, spent votes and interplay with new configs are never exercised.",
 [A+"app.go", A+"eonvoting.go", A+"voting.go"],
 [("start of eons", A+"app.go ShouldStartDKG, StartDKG, maybeStartEon")],
 observe=["EonStarted events"])

prop("C07", "Keyper messages are recorded only from entitled keypers and only once",
 "For each eon the chain publishes a key generation message only if its sender and all addressed parties are keypers of that eon's config, no party addresses itself or is named twice, and the eon exists; per eon and sender at most one commitment, one accusation and one apology, and per sender and receiver at most one evaluation. Decryption signatures are published only from keypers of the config responsible for the batch and at most once per keyper and batch, and everything that meets these conditions is accepted and published unchanged.",
 ["histories", "inputs"],
 "all sequences of key generation and signature messages up to a bounded depth over members, outsiders, overlapping receiver lists and several eons with different keyper sets",
 "Tests register single messages on one instance; partial overlap, second eons with other keypers and rejected-then-valid sequences are not covered.",
 [A+"app.go", A+"dkg.go", A+"messages.go", A+"batch_state.go"],
 [("registration", A+"dkg.go"), ("decryption signatures", A+"batch_state.go")],
 observe=["codes and events of DeliverTx"])

prop("C08", "The validator set follows the started config's checked-in keypers",
 "Applying all validator updates returned so far to the genesis validators always gives exactly the intended set: the genesis validators until, at the end of some block, the latest accepted config is started and at least its threshold of keypers have checked in, and from then on ten units of power per keyper of the latest config for which this has happened, credited to that keyper's checked-in validator key, or to the artificial placeholder key while it has not checked in. Updates never remove an unknown validator, list a key twice or repeat an unchanged power; each keyper can check in only once; in development mode no updates are returned.",
 ["histories"],
 "all sequences of check-ins (shared keys included), config votes, start reports and block ends up to a bounded depth",
 "Tests compute single power map differences; the cumulative effect over histories with late check-ins and several configs is not tested.",
 [A+"app.go", A+"powermap.go"],
 [("validator updates", A+"app.go EndBlock, CurrentValidators"), ("difference", A+"powermap.go DiffPowermaps")],
 observe=["ResponseEndBlock.ValidatorUpdates"])

prop("C09", "Malformed or refused transactions never crash or change the chain state",
 "For every byte string delivered or checked as a transaction, including truncated, corrupted or adversarially structured ones, the application returns a response instead of crashing. A refused transaction publishes no events and, apart from using up its nonce, leaves no trace: the application behaves afterwards as if it had not been there.",
 ["inputs", "histories"],
 "all single-site corruptions (truncations, byte and field mutations, missing and oversized fields) of every message type in representative states, and all pairs of a refused transaction followed by every valid one",
 "Tests cover a handful of malformed messages; the input space of signed protobuf messages and the follow-up effects of refusals are unsampled.",
 [A+"app.go", A+"messages.go", "shuttermint/shmsg/encode.go", K+"shutterevents/batchconfig.go"],
 [("decoding", A+"app.go decodeTx"), ("parsing", A+"messages.go")],
 observe=["responses and state after delivery"])

prop("C10", "Every event the chain publishes is decoded by keypers to its exact content",
 "Each event the application emits for an accepted transaction is decoded by the keyper to an event of the same kind with exactly the contents of the transaction (sender, eon, batch, addresses, values and keys in order), together with the height of its block. Events of unknown type or with missing, reordered or malformed attributes are refused with an error and never crash the decoder.",
 ["inputs"],
 "all event kinds crossed with boundary values of every field (empty and long lists, zero and maximal integers, infinity and ordinary points), and all single-attribute corruptions of each encoding",
 "Round trip tests use one ordinary example per event; empty lists, zero values and corrupted attributes are not covered.",
 [K+"shutterevents/events.go", K+"shutterevents/marshal.go", K+"shutterevents/helpers.go", A+"messages.go"],
 [("encoding and decoding", K+"shutterevents/events.go, marshal.go")],
 observe=["MakeABCIEvent, MakeEvent, DeliverTx events"])

prop("C11", "Signed messages authenticate exactly their signer and content",
 "A message signed by a key is attributed to that key's address and yields exactly the message that was signed. No other byte string derived from it by changing, dropping or adding bytes is attributed to the same address with a different message content, signatures that the same key makes for other purposes are never taken for message signatures, and messages survive the keyper's storage encoding unchanged. The keyper's sender signs for the chain it is connected to with a fresh nonce each time and reports every failure: an unreachable node or a refusal by the mempool as worth retrying, a refusal in a block as final.",
 ["inputs"],
 "all message types with boundary contents, all single-byte and single-bit changes, truncations and extensions of their signed encodings, and all cross-overs of signatures and contents",
 "Tests check one message and one wrong signature.",
 ["shuttermint/shmsg/encode.go", "shuttermint/shmsg/messages.go"],
 [("signing and recovery", "shuttermint/shmsg/encode.go")],
 observe=["SignMessage, GetSigner, GetMessage"])

prop("C12", "Distributed key generation: honest keypers agree on one usable key",
 "In the pure key generation protocol of the shared library, honest keypers that process the same published messages either all fail or all derive the same eon public key and the same public key shares, each honest keyper's secret share fits its public share, and any threshold of the honest shares produce the epoch secret key belonging to that public key. A dealer that was validly accused and did not correctly apologise is excluded by all, an honest dealer never is, and repeated, misaddressed, malformed or out-of-phase messages are refused without effect.",
 ["schedules", "fault_sequences"],
 "all delivery orders of published messages per phase per keyper and all combinations of per-message misbehaviour (missing, wrong, corrupt, false accusation, wrong apology) of a corrupted keyper, for small keyper numbers and all thresholds",
 "Tests run a few scripted scenarios with one order of messages.",
 ["shlib/puredkg/puredkg.go", "shlib/shcrypto/feldman.go", "shlib/shcrypto/keys.go"],
 [("protocol state machine", "shlib/puredkg/puredkg.go"), ("verification", "shlib/shcrypto/feldman.go")],
 observe=["ComputeResult of every honest keyper"])

prop("C13", "Keyper nodes agree on the outcome of key generation over the chain",
 "Keypers running key generation over the Shuttermint chain that are eventually synchronised reach the same verdict and the same eon public key for an eon, no matter in how many or how large steps each of them follows the chain, when its messages land in blocks, which peers misbehave or stay silent, or when its main chain view is briefly unavailable. Messages landing outside the block range of their phase count for nobody, an honest keyper whose messages land in time is never excluded nor accused by another honest keyper; a keyper sends every other one its evaluation as soon as it knows that one's encryption key in the dealing phase; and a keyper whose key generation fails asks for a restart of exactly that batch index, and one whose key generation succeeds announces exactly its resulting key for it. (A keyper that misses the accusing phase altogether may fail on its own.)",
 ["schedules", "fault_sequences", "histories"],
 "all assignments of sync steps, message delays and peer misbehaviour within deviation bounds, over real application and keyper decision code for small keyper sets",
 "Nothing in the test suite runs the keyper decision code at all; the outcome depends on block heights and sync granularity.",
 [K+"decide.go", K+"observe/shutter.go", A+"app.go"],
 [("phase by block height", K+"decide.go getPhaseAtHeight, syncDKGWithEon"), ("restart vote", K+"decide.go dkgFinalize")],
 observe=["actions emitted and resulting eon keys of each keyper"])

prop("C14", "Epoch secret keys need exactly a threshold of valid shares and are unique",
 "An epoch secret key is produced as soon as a threshold of distinct keypers' valid shares for that epoch have been processed, never before, and it is the unique key that decrypts messages encrypted to the eon public key for that epoch, whichever keypers contributed, in whatever order, and with whatever invalid, duplicate or foreign shares interspersed. Invalid shares are refused and leave progress unaffected.",
 ["schedules", "inputs"],
 "all orders and all subsets of shares of all keypers for small keyper numbers and all thresholds, with all insertions of invalid, duplicate and other-epoch shares up to a bound",
 "Tests combine one subset in one order.",
 [K+"epochkg/epochkg.go", "shlib/shcrypto/keys.go"],
 [("share collection", K+"epochkg/epochkg.go"), ("interpolation", "shlib/shcrypto/keys.go ComputeEpochSecretKey")],
 observe=["SecretKeys, Decrypt"])

prop("C15", "Encryption round-trips and tampering never yields another plaintext",
 "Every message encrypted for an epoch decrypts to exactly itself with that epoch's secret key, for every length, and the result of encryption depends only on its inputs and leaves the caller's buffers untouched. With any other epoch's or eon's key, or after any change to the ciphertext, decryption fails or, if it succeeds, still yields the original plaintext; it never crashes and never yields a different plaintext.",
 ["inputs"],
 "all message lengths across several block sizes, all single-bit and single-byte changes, truncations, extensions and block permutations of their ciphertexts, and all key mismatches of a bounded set",
 "Tests sample a few random messages and tamper with a few bytes.",
 ["shlib/shcrypto/encryption.go", "shlib/shcrypto/hash.go"],
 [("encrypt and verify on decrypt", "shlib/shcrypto/encryption.go")],
 observe=["Encrypt, Decrypt, Marshal"])

prop("C16", "Cryptographic encodings are exact: decoders accept only valid encodings",
 "Every key, share, commitment, ciphertext and signature of the shared library decodes from its own encoding (binary, text or storage form) to an equal value. Byte strings of wrong length, with corrupted prefixes, or not representing a valid element are refused with an error and never crash, and whatever is accepted encodes back to the same bytes (up to leading zeros of secret key shares and the letter case of text forms).",
 ["inputs"],
 "all truncations and extensions, all single-byte and single-bit changes and all structured garbage (zeros, ones, infinity, off-curve) of valid encodings of every type",
 "Tests try one or two broken inputs for some of the types.",
 ["shlib/shcrypto/encoding.go", "shlib/shcrypto/shbls/encoding.go", "shlib/shcrypto/feldman.go"],
 [("decoders", "shlib/shcrypto/encoding.go, shbls/encoding.go")],
 observe=["Marshal/Unmarshal, GobEncode/GobDecode, MarshalText/UnmarshalText"])

prop("C17", "Batch decryption gives all keypers the same shuffled transaction list",
 "For a given epoch secret key and batch, the list of decrypted transactions is a fixed permutation of exactly the decryptable ones: undecryptable or malformed entries are left out, nothing is lost, duplicated or altered, and the caller's data is unchanged. The permutation depends only on the key and the number of transactions, is the same for everyone, and the signed batch hash commits to the transactions in that order, the batch index, the batcher contract and the encrypted batch hash.",
 ["inputs", "schedules"],
 "all batches up to a bounded size over valid, malformed, wrong-key and duplicate entries, and all batch sizes up to a bound for the shuffle",
 "Tests shuffle one list and never decrypt a batch with bad entries.",
 ["shlib/shcrypto/shuffle.go", K+"observe/mainchain.go", K+"decide.go"],
 [("shuffle", "shlib/shcrypto/shuffle.go"), ("decryption of a batch", K+"observe/mainchain.go DecryptTransactions"), ("hashes", K+"decide.go transactionsHash")],
 observe=["DecryptTransactions, Shuffle, decryption signatures"])

prop("C18", "BLS signatures verify for exactly the signers, message and key used",
 "A BLS signature verifies under a public key and message exactly if it was made with the matching secret key for that message. An aggregate of signatures verifies exactly under the aggregate of the public keys of exactly its contributors, counted with multiplicity, whatever the order of aggregation.",
 ["inputs"],
 "all sub-multisets and orders of signers up to a bound crossed with all messages of a small set",
 "Tests aggregate one fixed pair.",
 ["shlib/shcrypto/shbls/shbls.go"],
 [("sign, verify, aggregate", "shlib/shcrypto/shbls/shbls.go")],
 observe=["Sign, Verify, Aggregate"])

prop("C19", "A keyper publishes epoch key shares only for closed batches, once each",
 "A keyper publishes its share of the epoch secret key of a batch only after the batch has ended on its (follow-distance delayed) main chain view, so no transaction can be submitted knowing the key. For every batch of its own that ends, on its view, while it holds the eon key and Shuttermint knows the active config, and whose execution timeout has not passed, it publishes exactly one share, made with its part of the key of the eon responsible for that batch, unless it has already got the batch's key from the others' shares, whatever the pace at which it sees blocks and across restarts.",
 ["schedules", "histories"],
 "all sequences of main chain heights (steps of any size up to a bound), config changes, eon arrivals and restarts of one keyper within a bounded horizon",
 "No test runs the decision code.",
 [K+"decide.go", "shuttermint/contract/config.go"],
 [("publication of shares", K+"decide.go publishEpochSecretKeyShares")],
 state=[("NextEpochSecretShare", "first batch without published share", K+"decide.go")],
 observe=["EpochSecretKeyShare messages"])

prop("C20", "Keypers execute half steps in order, authorised, and never prematurely",
 "A keyper asks the executor contract only for the next half steps in sequence: a cipher batch only after it ended, before its execution timeout and with a threshold of verified signatures (or empty), using exactly the decrypted transactions of the whole batch in order; a plain batch with exactly the submitted plain transactions; and a skip only after the execution timeout. The last batches of a config are executed or skipped also if the config is followed by an inactive one. The keyper never sends again while its own attempt is pending, also after a restart, every keyper becomes willing in time to act when the others stay silent, and waiting for its turn never pushes a keyper's first attempt past half of the execution timeout.",
 ["schedules", "histories", "configurations"],
 "all main chain height sequences, half step progress, signature arrival orders and keyper positions within a bounded horizon, for several timeouts, spans and keyper numbers",
 "No test runs the decision code.",
 [K+"decide.go"],
 [("execution", K+"decide.go maybeExecuteBatch, maybeExecuteHalfStep, executionDelay")],
 state=[("PendingHalfSteps", "one past the highest half step with an own pending transaction", K+"decide.go")],
 observe=["ExecuteCipherBatch, ExecutePlainBatch, SkipCipherBatch actions"])

prop("C21", "Keypers accuse exactly wrong executions and appeal exactly wrong accusations",
 "As soon as a keyper has both decrypted a batch and seen the receipt of its execution, in whichever order, it accuses the executor if and only if the executed batch hash differs from its own result and there is no accusation yet, and it does so once. It appeals against an accusation if and only if the receipt matches its own result and it has a threshold of verified signatures, once per pending accusation, with signer indices strictly increasing and each signature being that keyper's, in the form the slasher contract accepts. (Accusations of empty batches, which the contract refuses, are not considered.)",
 ["schedules", "histories"],
 "all orders of decryption, receipt, accusation, appeal and signature arrival across keyper steps up to a bounded depth, for correct, wrong, skipped and empty batches",
 "No test runs the decision code.",
 [K+"decide.go", "shuttermint/contract/signatures.go"],
 [("accusations and appeals", K+"decide.go maybeAccuse, maybeAppeal")],
 observe=["Accuse and Appeal actions"])

prop("C22", "Only valid signatures of distinct keypers authorise a batch",
 "A keyper counts a decryption signature towards the threshold of a batch only if the sender is a keyper of that batch's config, the signature is the sender's own over exactly this batch's result in a form the slasher contract accepts, and the sender has not been counted before. Every such signature that arrives after the keyper decrypted the batch, or had arrived before (unless by then the batch was already executed on the keyper's view), is counted (until the threshold is reached), whatever junk arrives in between and however arrivals are spread over steps.",
 ["schedules", "inputs"],
 "all arrival orders and step partitions of valid, duplicate, foreign, wrong-hash, malleated and outsider signatures up to a bounded number",
 "No test runs the decision code.",
 [K+"decide.go"],
 [("signature verification", K+"decide.go syncBatch, VerifySignature")],
 observe=["VerifiedSignatures, resulting executions"])

prop("C23", "A keyper's decided actions survive crashes: none lost, none forged",
 "Whatever instant a keyper process or machine stops, after restart every action decided in a step whose state was saved is carried out at least once, unless it expires first, and keeps its identity, no action is carried out that was not decided by a saved step, and actions that were completed and durably recorded as such are not carried out again. Saved state files always load and correspond to one complete step.",
 ["crash_points", "histories"],
 "every filesystem operation of the state and action files over all bounded histories of steps and completions, with every torn or lost unsynced write of the storage model, including repeated crashes",
 "One test adds and removes actions without any crash.",
 [K+"keyper.go", K+"fx/pending.go", K+"fx/runenv.go"],
 [("saved state with action counter", K+"keyper.go saveState, runOneStep"), ("pending action file", K+"fx/pending.go")],
 observe=["messages and transactions sent after restart"])

prop("C24", "The action runner delivers in order, retries, and gives up only when told",
 "Actions of one kind are attempted one at a time in the order they were decided; an attempt that fails with a retriable error is retried until it succeeds or the action expires, a non-retriable error drops only that action, and an expired action (an execution whose half step has been executed, an accusation once there is one, an appeal once there is no open accusation) is never sent. What is sent is the decided call, with the keyper's nonce and chain id. An action disappears from the pending set only after it was delivered (a main chain transaction: after it was mined), expired or was definitively refused, also when the runner is stopped at any moment; no error, of whatever kind and at whatever call, crashes the runner or keeps it from stopping.",
 ["schedules", "fault_sequences"],
 "all sequences of outcomes (success, retriable and final errors, expiry, mined, reverted, connection errors) and stop points for small action lists",
 "Tests do not run the runner.",
 [K+"fx/runenv.go", K+"fx/messagesender.go", K+"fx/actions.go", "shuttermint/medley/medley.go"],
 [("workers", K+"fx/runenv.go handleActions, handleInFlightTXs")],
 observe=["calls to message sender and ethereum node; pending set"])

prop("C25", "A keyper's view of the Shuttermint chain is independent of how it syncs",
 "After following the Shuttermint chain to a height, a keyper's view contains exactly the events of all blocks up to that height, each once and in chain order, no matter how the blocks were split into sync steps, pages and storage round trips or which attempts failed in between (the node's head never goes back). Views handed out earlier never change, and discarding old data never removes an event the keyper has not processed yet, and following stops when asked.",
 ["schedules", "histories", "fault_sequences"],
 "all splits of bounded event histories into sync steps, with all placements of failed requests, storage round trips and filter applications",
 "Tests look up eons in hand-made data; synchronisation is never run.",
 [K+"observe/shutter.go"],
 [("synchronisation", K+"observe/shutter.go SyncToHead, fetchAndApplyEvents"), ("filtering", K+"observe/shutter.go ApplyFilter")],
 observe=["Shutter snapshots"])

prop("C26", "A keyper's view of the main chain is exact, monotone and delayed",
 "After following the main chain, a keyper's view at block b equals the contracts' state and all events up to b, each once and in order, where b is the head minus the follow distance and never decreases, no matter how heads are observed, which requests fail or how often the view is stored and reloaded; configs that were unscheduled and replaced are followed. Views handed out earlier never change; following survives connection losses and stops when asked.",
 ["schedules", "histories", "fault_sequences"],
 "all bounded chain histories of configs, transactions, executions, skips, deposits, accusations and appeals, crossed with all head observation sequences (repeats and regressions included) and failing requests",
 "Synchronisation with the main chain is not tested at all.",
 [K+"observe/mainchain.go", "shuttermint/contract/config.go"],
 [("synchronisation", K+"observe/mainchain.go SyncToHead")],
 observe=["MainChain snapshots"])

prop("C27", "Batch and block arithmetic agree everywhere and config files round-trip",
 "For every batch config, the batch index of a block and the block range of a batch are inverse to each other, consecutive batches tile the block line without gaps or overlap, and the config, batch and next batch index lookups select the config responsible according to its start block or start batch. Batch configs in JSON and keyper configs in TOML read back equal to what was written, and invalid thresholds, addresses, checksums, selectors, keys and negative numbers are refused (TOML integers up to 2^63-1; nothing is said about settings that are missing).",
 ["inputs", "configurations"],
 "all small configs and config sequences over a bounded range of blocks, batches and spans, including inactive configs, and all single-site corruptions of configuration files",
 "Tests check one example config.",
 ["shuttermint/contract/config.go", K+"observe/mainchain.go", K+"config.go", "shuttermint/medley/checksum.go"],
 [("arithmetic", "shuttermint/contract/config.go"), ("lookups", K+"observe/mainchain.go"), ("config files", K+"config.go")],
 observe=["BatchIndex, BatchStartBlock, BatchEndBlock, ConfigForBatchIndex, NextBatchIndex"])

prop("C28", "On-chain contracts enforce batch, execution and slashing rules",
 "The batcher contract accepts transactions only for open batches within its limits, the executor contract executes each half step once and in order with the announced transactions, and the slasher slashes exactly unappealed accusations after the appeal period. Configs are append-only and cannot change the past.",
 ["histories", "inputs"],
 "all transaction sequences against the deployed contracts",
 "The python tests sample sequences; they also cannot run here.",
 ["contracts/contracts/BatcherContract.sol", "contracts/contracts/ExecutorContract.sol", "contracts/contracts/KeyperSlasher.sol", "contracts/contracts/ConfigContract.sol"],
 [("contracts", "contracts/contracts")])

prop("C29", "Shuttermint adopts the main chain's configs, keypers register once",
 "While enough keypers of each config are honest and eventually synchronised, Shuttermint adopts exactly those configs of the main chain's list that a set of keypers can run (distinct keypers, threshold from one to their number), in order, each with the main chain's index, start batch, keypers in order and threshold and with the configured contract address, however the keypers' views of both chains lag, whenever their messages land, and whatever else one misbehaving keyper votes for; a config that cannot be run never blocks later ones. A keyper votes for a config at most once, only for the next adoptable one that it knows, and checks in once, with its own validator and encryption keys, if it is a keyper of an adopted config that has not checked in; it does neither while one of its nodes is not synced. (Configs that are taken back after keypers have voted for them are outside of this property.)",
 ["schedules", "histories", "fault_sequences"],
 "all orders of main chain configs, adoptions, check-ins, steps, sync states and restarts of one keyper in bounded scenarios; all schedules, delays, restarts and wrong votes within deviation bounds of several keypers over the real application",
 "Nothing tests the keyper's votes and registration, let alone their interplay with the application's voting.",
 [K+"decide.go", "shuttermint/app/app.go", "shuttermint/app/configvoting.go"],
 [("config votes", K+"decide.go maybeSendBatchConfig"), ("check-in", K+"decide.go maybeSendCheckIn"), ("adoption", "shuttermint/app/app.go deliverBatchConfig")],
 observe=["messages decided by a keyper", "Configs and Identities of the application"])

prop("C30", "Operator commands do all of what they are asked for, or fail",
 "An operator command that ends without an error has had its whole effect on the chains and files. `deploy`: all contracts exist and point to each other. `prepare configs`: a file per keyper that holds its own keys and these contracts, never overwritten, and a batch config with these keypers in order and a threshold of two thirds rounded up. `prepare fund` brings exactly the keypers below half an ether to one ether; `prepare unfund` moves all they have, less the fee, to a checksummed receiver, passing over (and naming) those that cannot be drained. `config set-next`: the next config in the contract is exactly the file's, and no scheduled config changes; a start left to the command is one that the contract accepts, follows the last config without a gap and is no later than need be. `config schedule` appends the next config exactly when the contract takes it. `bootstrap` makes Shuttermint adopt and start the given (or else the last) config. `config query` and `list` and `fund query` show what the chain holds. A command that fails says so (non-zero exit), whether a request fails, an answer is lost, or any of its transactions reverts, and a command that failed or died at any request can be run again with its whole effect. Commands with a key that has no right change nothing and fail.",
 ["histories", "fault_sequences", "crash_points"],
 "all sequences of commands over all histories of configs, ages and ways of mining within deviation bounds; a failed request or the death of the command at every request, a revert of every transaction, each command a real process",
 "The commands have no tests; the tests cover parsing of files. What matters is the interplay of many transactions, the contracts' conditions and failures in between.",
 ["shuttermint/cmd/config/setnext.go", "shuttermint/cmd/config/schedule.go", "shuttermint/cmd/config/query.go", "shuttermint/cmd/config/list.go", "shuttermint/cmd/deploy/deploy.go", "shuttermint/cmd/deploy/contracts.go", "shuttermint/cmd/prepare/configs.go", "shuttermint/cmd/prepare/fund.go", "shuttermint/cmd/prepare/unfund.go", "shuttermint/cmd/bootstrap.go", "shuttermint/contract/config.go", "shuttermint/contract/erc1820/erc1820.go", "shuttermint/medley/txbatch/txbatch.go", "shuttermint/medley/medley.go"],
 [("set next", "shuttermint/contract/config.go SetNextBatchConfig"), ("start", "shuttermint/cmd/config/setnext.go chooseStartBlockAndBatch"), ("transactions", "shuttermint/medley/txbatch/txbatch.go WaitMined"), ("deploy", "shuttermint/cmd/deploy/deploy.go deploy"), ("bootstrap", "shuttermint/cmd/bootstrap.go bootstrap")],
 observe=["exit code and output", "state of the contracts and accounts", "files written", "Configs of the application"])

prop("C31", "Submitted transactions are executed as submitted; cheats can be slashed",
 "While at most one keyper of a set misbehaves (fewer than can break the threshold) and the others see both chains at least with delays, the whole system from the vote for a config on does what users are promised: the keypers publish an eon key on the main chain; every batch is executed in turn, not before it ends; the plain transactions of a batch are executed exactly as submitted, in order; of the encrypted ones exactly those that can be decrypted are executed, each as often as it was submitted, before the timeout unless so many keypers keep their shares that the key cannot be known, in which case the batch is skipped after the timeout and later batches go on; across a change of the keypers no batch is lost. Honest keypers' transactions are accepted by the contracts unless somebody else did the same first. Whoever executes anything else is accused by the others, whenever it does so, cannot appeal and can be slashed; a keyper that executed rightly cannot be slashed, whatever it is accused of.",
 ["schedules", "histories", "fault_sequences"],
 "all histories of three to four keypers over both chains that differ from the undisturbed one in a bounded number of sleeps, late views, restarts, late transactions and reordered blocks, for each way of misbehaving of one keyper",
 "Nothing tests keypers, application and contracts together; each part's decisions depend on what the others accept.",
 [K+"decide.go", "shuttermint/keyper/fx", "shuttermint/keyper/observe", "shuttermint/app/app.go", "shuttermint/contract/binding.go", "shlib/shcrypto", "shlib/puredkg"],
 [("execution", K+"decide.go maybeExecuteBatch"), ("accusations", K+"decide.go maybeAccuse"), ("key generation", "shlib/puredkg"), ("transactions", "shuttermint/keyper/fx/actions.go")],
 observe=["calls of the target contract", "receipts of the keypers' transactions", "accusations and slashings in the contracts"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
