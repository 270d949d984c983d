NOTES = {
"C01": "All histories of deliveries, block ends, restarts, saves and mempool bursts up to depth 3-9 (by scenario) on two real `ShutterApp`s, one of which is perturbed; every response (code, data, events) and validator update must be byte-identical. When the states of the two differ in anything but the mempool, all continuations up to length 3 are tried from there, so that a divergence shows that needs more steps. `map-order`: the app's map iterations are replaced by explored orders (all permutations up to 4 keys, up to two non-sorted iterations per action). The tests run a single instance.",
"C02": "The real app writes its state through an in-memory file system (its `os`, `ioutil` and `time` are replaced at build time). Histories of blocks and saves, with a process stop after every file operation and a machine stop in every storage image the model allows (unsynced data of any prefix, torn, renames applied in order), then a restart from what is left: a state file must load, be the state of exactly one earlier commit (the last save, or the one before it after a machine stop), and the restarted app, fed the remaining blocks, must reach exactly the same state and answers as one that never stopped.",
"C03": "Reference: set of used (signer, nonce) pairs, pending mempool sets per block. All sequences of deliver/check (signers, nonces, chain ids, messages)/block end/restart up to the depth where the state space closes; plus long histories of thousands of nonces against accidental eviction, and the mempool limit with 0, 9, 10 and 11 checks.",
"C04": "Reference model of config voting in lockstep with the app over all sequences of votes (members, outsiders, several candidates, invalid candidates at every boundary, changed votes) in several scenarios; compares response codes, events and the resulting config list on every step.",
"C05": "Same engine: votes, reports about this, earlier and unknown configs by members of either keyper set, block ends, with thresholds falling and rising between configs.",
"C06": "Same engine: eon votes for batches of several configs, changed votes, config changes with equal and different keyper sets and thresholds.",
"C07": "Same engine: DKG messages with all sender/receiver/eon combinations, duplicates, partly invalid receiver lists, and decryption signatures before and after config changes.",
"C08": "Same engine: check-ins, starts and block ends in every order; the harness applies the returned updates to a validator map as tendermint does and compares with the intended set.",
"C09": "Every byte string up to two bytes, fills of every length, every single-byte mutation/truncation/deletion of one signed message of each kind and of its signed payload, and every combination of adversarial field values, delivered in several states; and every refused message after all short histories, comparing the later behaviour with that of a twin that never saw it.",
"C10": "Every message kind with boundary contents through the real app; the emitted event is decoded by the keyper's decoder and compared with the transaction; all mutations of attribute lists and values must be refused or decode to something that encodes back to it.",
"C11": "Every byte of signed messages replaced by every value, truncations, extensions, swaps, cross-overs, other hash prefixes; keys and messages of every type. `message-sender`: all outcome sequences of the node behind the real RPC sender.",
"C12": "All behaviours of up to two misbehaving dealers (commitments good/missing/wrong degree, evaluations good/bad/missing/out of range per receiver, accusations, apologies right/wrong/missing/late/repeated, orders) against real `PureDKG` machines of all honest keypers, n up to 4 (thorough more), with delivery orders; oracle computed from the published messages; final keys checked by recombination.",
"C13": "The real `Decider`s of three or four keypers (own state, own real `Shutter` view, real filter, restarts through the real state file) over the real Shuttermint application: every round each keyper may take a step, then a block with the messages is made. Explicit-state search over up to two (thorough three; scenarios with misbehaviour and with longer configs one less) deviations: sleeping for 1-2 blocks, 1-3 phases or to the end, main chain not synced, restart, restart after having been out of sync, every message delayed by 1, 2 blocks or a phase, block order reversed; times all 756 combinations of 18 ways to deal, 6 to accuse and 7 to apologise of one misbehaving keyper. Oracle from the public record of the application: at the end all honest keypers that could take part agree on success, key and public shares, each one's secret share is the one the others attribute to it, the key is the sum of commitments of dealers that landed in time, have the right degree and answered all accusations, all keypers that did everything in time are among them, the generation does not fail while the threshold of keypers did everything in time; restart votes exactly for failed generations and announcements exactly for the results. Scenarios: three and four blocks per phase, check-in while the eon runs, two eons, two configs with the same start batch (different keypers and order), threshold = n. bn256 multiplications and pairings are memoised (computed by the original code).",
"C14": "All threshold subsets in all orders through the key combination; the share collection of `epochkg` closed under every message from every sender with valid and six kinds of invalid shares, against a set-based reference.",
"C15": "Every length up to the bound x patterns x buffer layouts; every single bit flip, truncation, block removal/duplication/swap and padding value of ciphertexts.",
"C16": "Every type x encoding: all bit flips, truncations, extensions, special points (infinity, non-subgroup, non-canonical), decoding into fresh and used values, against a reference validity check built on independent field arithmetic.",
"C17": "Every list length up to the bound with all repetition patterns; every batch over an alphabet of twelve kinds of ciphertext up to the length bound.",
"C18": "Every multiset of signers and orders against every multiset of keys and messages; bit flips.",
"C19": "The real `Decider` of one keyper is stepped over a scripted main chain (configs, windows computed by walking along the blocks) and a scripted Shuttermint chain that is followed by the real `Shutter` view; explicit-state search over main chain jumps (also none), 0-2 Shuttermint events per step and up to one (thorough two) deviations per history: restart through gob, a filter applied late, a node out of sync, a main chain view that is not updated. Scenarios: one config, restarted eons, seamless changes of config, pauses, leaving and joining keypers. Reference: facts of the script (ended batches, responsible eon, keys held, keys known from others).",
"C20": "The same search over executions: keys and signatures of others appear in script order, half steps are executed by others (or by the keyper's own transaction) at any time the contract would let them, and the keyper's actions of every step are judged: order, window, authorisation, contents (decrypted by the reference with the secret itself), keyper index, pending attempts across restarts, and that the keyper acts no later than half the timeout. Scenarios: several positions and staggerings, transactions in two blocks of a batch seen in between, a pause after the last batches, changes of keypers (leaving, joining), more half steps than are sent at once with a missing key among them, configs without and with a single keyper.",
"C21": "The same search with executions by others that are right, wrong, reordered or empty, and accusations and appeals by others at any time. Reference: accuse exactly those half steps, once they are both decrypted and seen executed, whose execution has another result than the decrypted one; appeal exactly the open accusations of rightly executed batches with enough counted signatures. Signatures in appeals are checked by a stand-in for the slasher's library (length, v, low s, recovered address).",
"C22": "The same search with arbitrary sequences of signatures of 13 kinds (valid, high s, other v, wrong length, other batch/result/contract, no prefix, copied, outsiders) before, with and after the decryption, own signatures included late, executions and accusations meanwhile; what was counted shows in whether a signature is still sent, whether the batch is executed and what an appeal contains.",
"C23": "The whole real keyper (`LoadState`, `Run`) in a bubble of `testing/synctest` (Go 1.25), with stand-ins for both nodes and an in-memory file system (shims for `os`, ethclient and the Tendermint client); the Shuttermint node is the real application and the other keypers are real deciders. Waiting for quiescence shows which file operations, sends and receipts the keyper is blocked at; all combinations of up to two (thorough three) deviations: crash of process or machine at each of them with every disk image, failing nodes, lost answers, reordered completions, orderly stops. Two scenarios: a key generation (check-in, dealing, accusation, apology) and executed batches with their signatures and transactions. Oracle: a ledger of what the saved steps decided; everything sent must come from it, once recorded it is not sent again, in the end everything unexpired was carried out and the outcome (same key, all half steps) is reached.",
"C24": "The real `RunEnv` with all its workers; every call it makes (message sending, transaction sending, receipts) waits until the exploration lets it end, the file is an in-memory file system and waiting (`time`) ends at once. All orders of call completions x up to two (thorough three) deviations: retriable and final errors, RPC errors and lost connections at every call, missing receipts, reverts, expiry, stop, stop in the middle of an answer, crash and restart from what is on disk. After each step the runner must be making exactly the calls the model asks for, and the pending set (in memory, on disk) must be the model's; a call out of order, twice or for an expired action is flagged when it is made. `many-transactions`: stops with more transactions in flight than workers, and nodes that never answer. `actions`: every real action in every world state around its expiry: what is sent, with which arguments and limits, and which errors end it.",
"C25": "All event histories up to the depth, split into all partitions of sync steps with storage round trips; pages and query windows around their sizes; one and two failing requests anywhere; filters and the keyper's processing in all interleavings; the real loop with silence, reconnects and stops.",
"C26": "All histories of contract operations (every operation of the five contracts that the view reads), placed in shared or separate blocks, all partitions into sync steps, all head sequences with repeats and regressions, one or two failing requests, the real loop over a websocket with connection cuts and stops.",
"C27": "All small configs and all boundary values against unbounded integers; all config sequences the contract allows against a walk along the blocks; JSON and TOML files: boundary values round trip, all single-site corruptions refused or accepted exactly as an independent reader.",
"C29": "`one-keyper`: all reachable states of one real decider under every event (step with or without news, either chain not synced, restart through the real files, config becomes known, Shuttermint adopts it or another, check-ins), each step's messages compared exactly with a recomputation from the script. `network`: three or four real keypers over the real application while configs are added on the main chain, some unusable; all deviations up to two (thorough three): sleeping, lagging or unsynced views, restarts, delayed votes and check-ins, reordered blocks; ten ways of voting wrongly. After every block the application's configs must be a prefix of the usable main chain configs, at the end all of them, with all keypers checked in under their own keys and a key generation started for every set of keypers.",
"C30": "Every command is a process of its own (the test binary re-executed as the CLI) against a JSON-RPC node over go-ethereum's virtual machine with the compiled contracts, and a Tendermint RPC server over the real application. `operator-commands`: histories of configs (none, started, future, inactive, two) x spans x heads-up x age x ways of mining, then sequences of two (thorough three) commands with six config files, by the owner or a stranger; the contract's state before and after is read independently of the commands' code. `operator-failures`: at every request of set-next/schedule an error or the death of the process, or one transaction of the batch replaced by one that reverts; then the command is run again. `operator-story`: from the state after each stage of deploy, prepare, fund, schedule, bootstrap: the next stage in all variants (numbers of keypers, all vectors of balances, receivers, indices, signers), with an error, a lost answer or a death at every request, followed by a second run.",
"C31": "Real deciders of three or four keypers over the real application (votes, check-in, key generation, epoch keys, signatures) and over all contracts as compiled bytecode in go-ethereum's virtual machine; main chain views come from the real `SyncToHead`, transactions from the actions' real `SendTX` (queued in order, expiry and errors as in the runner), users encrypt with the key that the broadcast contract holds. Rounds of one block of each chain; each keyper before each round may be asleep for one or three blocks, miss main chain news, restart through the real files or have its transactions mined later, each block may have another order of senders: all runs with up to one (thorough two) such deviations, for ten misbehaviours of one keyper (silence, wrong shares and signatures, another eon key, unfounded accusations, executing nothing or something at once, less, more, something twice), for a set in which a missing share makes the key unknowable, and across a change of keypers. Oracle: the calls that the target contract logged, against what users submitted; receipts of every honest transaction; accusations, and whether slashing would succeed, asked of the contracts themselves.",
}
