def define(prop, NA, BFS, ENUM):
    prop("C01", "rep", "Total reputation set accounts every packet exactly once",
         "After any history of gaining, penalizing and expiring reputation, every identity's score is the sum of its unexpired packets, the total is the sum of all scores, and the active total is the sum over the active identities given. Reputation expires exactly when the alpha clock reaches a packet's expiry, never earlier or later, and a set that is serialized and loaded again continues identically.",
         ["histories"], "every sequence of gain / penalize / expire operations over a few identities, amounts and expiry times, up to a depth, merged on reached states; plus long single-parameter histories",
         "the unit tests follow about twenty fixed histories of two or three operations; accounting holds only if it holds after every interleaving of gains, expiries and penalties",
         ["reputation/src/trs.rs"], [("gain, expire and the reputation cache kept in step", "reputation/src/trs.rs")],
         [("queue", "packets of reputation with their expiry", "reputation/src/trs.rs"), ("map", "cached score per identity", "reputation/src/trs.rs")],
         ["get, get_total_sum, get_active_rep_sum, identities"], BFS,
         "All histories to the stated depth are explored on the real structure; the reference model is a plain list of packets. Larger amounts or identities outside the menus are covered only by the long single-parameter runs.")
    prop("C02", "rep", "Penalties take the most recently expiring reputation first, and no more",
         "Penalizing an identity leaves it exactly the score the penalty function asks for, removing from its packets in order from the latest expiry to the earliest, and leaves every other identity untouched. What it keeps expires at the time it would have expired without the penalty, and penalizing identities one at a time or together gives the same set.",
         ["inputs", "histories"], "every assignment of packets to identities and expiry slots within the bounds, then every penalized identity and remaining score, then expiry at every later time",
         "tests penalize a handful of hand-built queues; which packets are cut depends on the whole packet layout",
         ["reputation/src/trs.rs"], [("walk of the packet queue from the back", "reputation/src/trs.rs")],
         [("queue", "packets of reputation with their expiry", "reputation/src/trs.rs")], ["penalize, penalize_many, expire, get"], ENUM,
         "Exhaustive over packet layouts up to the bound (expiry slots x identities x amounts), compared packet by packet with a reference implementation.")
    prop("C03", "rep", "Refused reputation operations change nothing; repeats add up",
         "An operation on the reputation set that returns an error (expiry out of order, score that would grow or overflow) leaves the set as it was, for every position of the offending entry. Penalizing a list that names an identity twice applies both penalties, and gaining for an identity named twice gives it both amounts.",
         ["histories", "fault_sequences"], "every history to a depth including refused calls, every position of the refused entry in a call that names several identities, and every repetition pattern",
         "tests check that an error is returned, not that the set is unchanged afterwards, and never repeat an identity in one call",
         ["reputation/src/trs.rs"], [("checks before mutation", "reputation/src/trs.rs")],
         [("queue", "packets of reputation with their expiry", "reputation/src/trs.rs")], ["penalize_many, gain"], BFS,
         "The full observable state is compared before and after each refused call.")
    prop("C04", "rep", "Active reputation set holds exactly the last epochs of its window",
         "After any sequence of updates the set of active identities is exactly those that appear in the last window of updates, an identity leaving only when its last appearance leaves the window. An update at an earlier or already seen time is refused without changing the set, gaps in time push out the entries they should, and the capacity is never exceeded.",
         ["histories"], "every sequence of updates (identity multisets, time steps, refused times) to a depth for each window capacity 1..4, and long histories",
         "tests use one capacity and at most a few updates; the window depends on which entries are pushed out together",
         ["reputation/src/ars.rs"], [("ring of identity batches with a counted map", "reputation/src/ars.rs")],
         [("buffer / map", "recent batches and number of appearances per identity", "reputation/src/ars.rs")], ["contains, active_identities, buffer"], BFS,
         "Explores all update sequences to a depth for small capacities; zero capacity is outside the contract (it panics in the constructor's documented precondition).")
    prop("C05", "crypto", "A Merkle root identifies its list of leaves; incremental equals batch",
         "The root computed in one go, incrementally at every prefix, and through a full tree is the root of the same recursively defined tree: pairs are hashed left to right, an odd node is carried up unchanged, and the empty list has the documented root. Two lists of distinct leaves of any lengths up to the bound have different roots.",
         ["inputs"], "every list over two and four symbols up to a length, every length up to several hundred leaves with distinct leaves, and every pair of such lists",
         "tests fix a few lengths (1, 2, 3, up to about ten); tree shape bugs show at particular lengths only",
         ["crypto/src/merkle.rs"], [("in-place level reduction; incremental stack of subtrees", "crypto/src/merkle.rs")],
         [("stack of partial roots", "incremental tree", "crypto/src/merkle.rs")], ["merkle_tree_root, ProgressiveMerkleTree, FullMerkleTree::root"], ENUM,
         "Assumes only that SHA-256 does not collide on the explored inputs. The specification is an independent recursive definition.")
    prop("C06", "crypto", "Inclusion proofs accept exactly the proven leaf at its position",
         "For every tree and every index in range the generated proof verifies against the tree's root with that leaf, and for an index out of range there is no proof. It does not verify with another leaf, another root, another index, or with any sibling changed, removed, added or reordered.",
         ["inputs"], "every tree size up to a bound, every leaf, and every single mutation of proof, leaf and root; sizes around powers of two further out",
         "tests prove each leaf of trees of a few sizes; they hardly try proofs that must fail",
         ["crypto/src/merkle.rs"], [("sibling path with index bits", "crypto/src/merkle.rs")], [], ["FullMerkleTree::inclusion_proof, InclusionProof::verify"], ENUM,
         "Every leaf of every size in range with all single mutations; collisions of SHA-256 are excluded by assumption.")
    prop("C07", "crypto", "Key derivation follows the path and nothing but the path",
         "The same seed and path always derive the same key, deriving level by level equals deriving in one go from any split point, and hardened and normal children at the same index differ. Master keys come only from seeds of 16 to 64 bytes, the public key of a derived extended secret key is the one its secret gives, and derivation agrees with BIP-32.",
         ["inputs"], "every path over a menu of boundary indices up to a depth and every split of it, every seed length 0..=80, deep paths",
         "tests check a few published vectors; splits, boundaries of the hardened range and seed lengths are not varied",
         ["crypto/src/key.rs"], [("HMAC-SHA512 child derivation", "crypto/src/key.rs")], [], ["MasterKeyGen, ExtendedSK::derive, KeyPath"], ENUM,
         "Oracle: an independent BIP-32 implementation on the same secp256k1 library (whose curve arithmetic is trusted).")
    prop("C08", "crypto", "Exported keys come back identical; damaged exports are refused",
         "Any master or derived key exported to slip32 text and imported again is the same key, chain code and path. A text with any character changed, removed or moved, a wrong prefix, a wrong depth or a malformed payload is refused with an error, never accepted as another key and never a panic; whatever is accepted re-exports to the same text.",
         ["inputs", "histories"], "every path depth 0..=255, every small path, every single byte of the payload set to boundary values with a recomputed checksum, every single character substituted",
         "tests import a few valid texts; the decoder's refusals depend on each payload byte",
         ["crypto/src/key.rs"], [("bech32 encoding of depth, path, chain code and key", "crypto/src/key.rs")], [], ["ExtendedSK::to_slip32, ExtendedSK::from_slip32"], ENUM,
         "bech32 itself is a shim in this offline sandbox (same API, validated against the published vectors and the repository's own tests).")
    prop("C09", "crypto", "Mnemonics encode their entropy and detect every altered word",
         "Every generated phrase has the requested number of words, is accepted back, and gives the seed BIP-39 defines for the phrase and passphrase; different passphrases give different seeds. A phrase with a word replaced so that its checksum is wrong, with words missing, added or foreign to the list is refused.",
         ["inputs"], "every entropy length, a set of boundary entropies, every replacement of every word by every other word of the list for chosen phrases, every word count",
         "tests check fixed vectors and phrase lengths",
         ["crypto/src/mnemonic.rs"], [("bip39 phrase and seed", "crypto/src/mnemonic.rs")], [], ["MnemonicGen, Mnemonic::from_phrase, Mnemonic::seed"], ENUM,
         "Oracle: an independent BIP-39 computation over the English word list.")
    prop("C10", "crypto", "Encrypted data decrypts only with the same key, salt and iterations",
         "Encrypting and decrypting with the same key and IV gives back the plaintext for every length, the ciphertext is padded to whole blocks and equals AES-256-CBC, and keys or IVs of the wrong size and damaged ciphertexts give an error, never a panic. Password derivation is PBKDF2-SHA256 of exactly the password, salt and iteration count, and random bytes have the requested length and do not repeat.",
         ["inputs"], "every plaintext length up to several blocks, every key and IV size 0..=64, every truncation and every flipped byte of a ciphertext, boundary passwords, salts and iteration counts",
         "tests do not cover these functions at all beyond use inside the wallet",
         ["crypto/src/cipher.rs", "crypto/src/pbkdf2.rs"], [("AES-256-CBC with PKCS7; PBKDF2", "crypto/src/cipher.rs")], [], ["encrypt_aes_cbc, decrypt_aes_cbc, pbkdf2_sha256, generate_random"], ENUM,
         "Oracles: independent AES and PBKDF2 built in the check. Randomness is only checked for length and repetition.")
    prop("C11", "crypto", "A signature verifies only for the key and message it was made for",
         "Signing a message with a secret key gives a signature that verifies with the matching public key and that message and with no other explored key or message, signing is deterministic, and every single bit flipped in the encoded signature makes it invalid or undecodable. Encoded forms of signatures and keys come back equal.",
         ["inputs"], "every pair of signer and verifier over a set of keys, every pair of messages over a set of lengths and contents, every bit of the encoded signatures",
         "tests sign one message with one key",
         ["crypto/src/signature.rs"], [("ECDSA over secp256k1", "crypto/src/signature.rs")], [], ["sign, verify"], ENUM,
         "Bounded: cross product of keys, messages and bit flips; curve arithmetic is the vendored libsecp256k1.")
    prop("C12", "crypto", "Hashes are SHA-256 of the whole input",
         "The hash of an input of any length is SHA-256 of exactly its bytes, the same through every hashing entry point.",
         ["inputs"], "every length from 0 to several blocks with several fillings, and every input of one and two bytes",
         "two fixed vectors are tested",
         ["crypto/src/hash.rs"], [("sha256 wrapper", "crypto/src/hash.rs")], [], ["calculate_sha256"], ENUM,
         "Oracle: independent SHA-256 written in the check.")
    prop("C13", "store", "Storage backends behave as one persistent map",
         "After any history of put, get, delete and prefix scans, every backend answers as a map from keys to the last value written: gets return it or nothing, scans return exactly the entries whose key starts with the prefix, and deleting an absent key is harmless. When the engine refuses an operation the caller gets the error and the contents are unchanged.",
         ["histories", "fault_sequences"], "every sequence of operations over a menu of nested, empty and 0xff keys to a depth on both backends, every set of keys with every prefix, and every operation refused by the engine",
         "one test writes and reads one key in the in-memory backend; the RocksDB backend and prefix scans are untested",
         ["storage/src/storage.rs", "storage/src/backends/hashmap.rs", "storage/src/backends/rocks.rs"], [("trait Storage", "storage/src/storage.rs")], [], ["get, put, delete, prefix_iterator"], ENUM,
         "The RocksDB engine is an in-memory stand-in with RocksDB's documented semantics (no native library offline); the backend code between trait and engine is the real one.")
    prop("C14", "store", "A write batch takes effect whole, in order, or not at all",
         "Writing a batch has the effect of its operations in the order they were added, later operations on a key winning, and it reaches the store as one atomic record. A crash at any record leaves the contents after a whole number of acknowledged batches and operations, and recovery continues from there.",
         ["histories", "crash_points"], "every batch of up to three or four puts and deletes over a few keys on every small history, every crash point of the write log, and batches up to tens of thousands of entries",
         "no test writes a batch",
         ["storage/src/storage.rs", "storage/src/backends/hashmap.rs", "storage/src/backends/rocks.rs"], [("WriteBatch applied in one engine write", "storage/src/backends/rocks.rs")], [], ["WriteBatch, write"], ENUM,
         "Crash atomicity is relative to the engine's atomic record write, which the stand-in models.")
    prop("C15", "store", "Concurrent users of the in-memory store see a linear history",
         "Operations and batches issued by several threads on clones of the same store take effect one after another in some order that respects each thread's own order: no lost update, no partially visible batch, no scan mixing two moments, and no deadlock.",
         ["schedules"], "every interleaving at lock granularity of every pair and selected triples of small thread programs over get, put, delete, scan and batch",
         "the single test is single-threaded",
         ["storage/src/backends/hashmap.rs"], [("shared map behind a lock", "storage/src/backends/hashmap.rs")], [("map", "shared contents", "storage/src/backends/hashmap.rs")], ["Storage on clones"],
         "stateless model checking of the real code under a controlled scheduler (shuttle, depth-first), linearizability against a map",
         "All schedules at the granularity of synchronisation operations; the source is compiled with std::sync redirected to the scheduler.")
    prop("C16", "misc", "Protected values are wiped from memory and never shown",
         "When a protected value or string is dropped, moved into another protected value, cloned and dropped, or serialized, no heap block that held the secret is released with the secret still in it. Printing it in any format shows neither its contents nor its length.",
         ["histories"], "every sequence of the operations on a secret to a depth, for contents of every small length, with every freed heap block inspected; every format",
         "there are no tests of this crate; a surviving copy is invisible to assertions on values",
         ["protected/src/lib.rs"], [("zeroize on drop; redacted Debug", "protected/src/lib.rs")], [], ["Drop, Clone, Debug, Serialize"], ENUM,
         "Heap only, seen through a spying allocator; stack and register copies are out of scope.")
    prop("C17", "misc", "Protected values carry exactly what was put in",
         "A protected value or string gives back exactly the bytes or text it was made from, equality is equality of contents, and storing it in JSON or binary form and loading it again gives an equal value. Damaged stored forms are refused without a panic.",
         ["inputs"], "every byte string up to a small length over boundary bytes, strings over multi-byte characters, every truncation of the stored forms",
         "there are no tests of this crate",
         ["protected/src/lib.rs", "protected/src/serde.rs"], [("transparent wrapper", "protected/src/lib.rs")], [], ["AsRef, PartialEq, serde"], ENUM,
         "Bounded exhaustive inputs with both formats the repository uses.")
    prop("C18", "misc", "Flattening nested fallible futures loses and invents nothing",
         "Flattening a future of a result of a result completes exactly when the inner computation completes, with the inner value, the inner error converted, or the outer error converted. It polls the source no more than needed, wakes whoever polled it last, and can be dropped at any point.",
         ["schedules"], "every schedule of polls, wakes and drops of sources that stay pending up to a bound, alone, in pairs in any polling order, and nested",
         "there are no tests of this crate; a missed wake-up or a double poll needs a particular schedule",
         ["futures_utils/src/lib.rs"], [("flatten_err combinator", "futures_utils/src/lib.rs")], [], ["TryFutureExt2::flatten_err"],
         "exhaustive schedule exploration of the real future under a controlled executor",
         "All schedules up to the pending bound.")
    prop("C19", "pstruct", "The derived partial struct mirrors its original as documented",
         "For every struct the derive generates one struct named Partial plus the original's name with the same visibility, generic parameters, shape and fields in order, each field optional unless it is marked to be kept or given another type. Attributes given for the partial struct and attributes of the original are on it, those of other derives' conversions are not, and options that do not exist or are malformed are refused at compile time.",
         ["programs"], "every struct of a bounded grammar: kinds of fields, field options in every order, types, visibilities, generics, struct attributes; thousands of programs expanded by the compiler",
         "six tests expand six structs and look at one or two fields",
         ["partial_struct/src/lib.rs"], [("derive macro", "partial_struct/src/lib.rs")], [], ["rustc's expansion"],
         "exhaustive enumeration of a program grammar through the real compiler, expansion compared with a specification",
         "Grammar bounded in fields and options; judged on the expansion, so any implementation that produces the documented struct passes.")
    D = "data_structures/src/"
    prop("C20", "ds", "The unspent outputs are those of the blocks applied, in memory and on disk",
         "After any history of blocks, snapshots, persisting and restarts the set of unspent outputs, its listings, balances and per-address views contain exactly the outputs created and not spent by the blocks applied, each with the number of its block; the confirmed part is what was persisted. Outputs created and spent by one block leave no trace, and after a crash the stored set is the one before or after a whole write.",
         ["histories", "crash_points"], "every history of a few kinds of block, snapshot, persist, restart and crash to a depth, with and without the cache by address",
         "tests apply one or two diffs to one pool and never restart between superblocks",
         [D + "utxo_pool.rs"], [("diff over a database", D + "utxo_pool.rs")], [("diff / db", "unconfirmed and confirmed outputs", D + "utxo_pool.rs")], ["get, iter, visit, balances"], ENUM,
         "The database is the in-memory engine stand-in; the pool's code is the real one. The node's protocol around the pool (persist snapshots in order) is assumed.")
    prop("C21", "ds", "Built transactions balance, spend usable outputs, and respect their limits",
         "A value transfer, data request or stake built for the node spends distinct outputs of its own that are neither locked nor pending, in the order of the chosen strategy and no more than needed, and inputs equal outputs plus fee plus change exactly, with the fee asked for (a relative fee for the actual weight). What cannot be built (no money, too heavy, nothing to send) is refused and reserves nothing; a dry run reserves nothing either.",
         ["inputs"], "every small wallet x outputs x fee kind x strategy x weight limit x dry run, and every small set of collateral inputs",
         "tests build a few transactions from one wallet",
         [D + "transaction_factory.rs", D + "fee.rs"], [("coin selection and the weight/fee iteration", D + "transaction_factory.rs")], [("own utxos", "pending marks", D + "utxo_pool.rs")], ["build_vtt, build_drt, build_st, select_utxos"], ENUM,
         "Bounded wallets of up to three or four outputs.")
    prop("C22", "ds", "The transactions pool holds what was put in and not taken out, within its limits",
         "After any history of insertions, removals, conflicts, blocks and unconfirmed returns the pool's contents, weights, orders and reservations are those of a plain table of its transactions: transactions leave when an output they spend is spent, an insertion beyond the weight limit evicts the lowest fees per weight first, iteration is by descending fee per weight, and admission refuses low fees and low collateral. For each data request the commits handed to a block number exactly its witnesses or none, and reveals are handed out once.",
         ["histories"], "every history over small transactions of the four pooled kinds with shared inputs, each configuration of limits, every set of commits and every order of reveals",
         "tests cover two or three insertions at a time of one kind",
         [D + "chain/mod.rs"], [("indexes by hash, by fee, by output, by weight", D + "chain/mod.rs")], [("TransactionsPool", "pending transactions and their indexes", D + "chain/mod.rs")], ["insert, contains, vt_remove, remove_commits, iter"], BFS,
         "Assumes the node's own discipline (no duplicate insertion). Compared after every step in all observers.")
    prop("C23", "ds", "Data requests go through commit, reveal and tally exactly as the rules say",
         "Whatever transactions arrive in whatever order, a data request takes commits only in its commit stage, reveals only in its reveal stage and a tally only in its tally stage; it moves on when the blocks say so (commits present, all reveals in, rounds run out, too many witnesses), and what is refused changes nothing. Queries, locked value, waiting reveals and finished requests always agree with that, also after a restart.",
         ["histories"], "every history of requests, commits, reveals, tallies, blocks and restarts to a depth for each number of extra rounds, witnesses and requests",
         "tests follow the ordinary life of one request",
         [D + "data_request.rs", D + "chain/mod.rs"], [("state machine of a request", D + "data_request.rs")], [("DataRequestPool", "requests by stage", D + "data_request.rs")], ["process_*, update_data_request_stages, get_*"], BFS,
         "One or two requests, up to two witnesses.")
    prop("C24", "ds", "A tally pays out exactly what the request and the collaterals put in",
         "For every outcome of a data request (who committed, who revealed in consensus, out of consensus, an error, or not at all) the tally lists exactly those out of consensus and those in error, pays each honest witness its reward, collateral and share of what liars lost, returns the rest to the requester, and the payments sum up to what was locked. Reward to collateral ratios, backup witnesses and the limit of witnesses are the documented numbers.",
         ["inputs"], "every split of up to seven (ten) witnesses into honest, lying, erring and silent ones x rewards x collaterals x hard forks",
         "tests check about ten hand-picked tallies",
         [D + "data_request.rs"], [("create_tally", D + "data_request.rs")], [], ["create_tally, calculate_reward_collateral_ratio"], ENUM,
         "Counts are enumerated, values come from boundary menus.")
    prop("C25", "ds", "The stakes tracker accounts every coin, age and rank",
         "After any history of staking, unstaking, rewards, reserved collateral and age resets the entries by key, validator and withdrawer, their coins, ages, nonces, totals, powers, ranks and censuses are those of a plain table. A refused operation (below the minimum, more than staked, unknown entry) changes nothing, and a tracker that is cloned or stored and loaded continues identically.",
         ["histories"], "every history over a few validators, withdrawers and amounts to a depth, with one or several withdrawers per validator, and for amounts of the whole supply",
         "tests follow about a dozen short histories",
         [D + "staking/stakes.rs", D + "staking/stake.rs", D + "staking/helpers.rs"], [("entries shared by three indexes", D + "staking/stakes.rs")], [("by_key, by_validator, by_withdrawer", "the indexes", D + "staking/stakes.rs")], ["query_*, by_rank, census, total_staked"], BFS,
         "Rewards and collateral on validators with several withdrawers are left out (the code documents that as not supported).")
    V = "validations/src/"
    prop("C26", "val", "A transaction is accepted only if it may spend, is signed, and makes no value",
         "A value transfer, data request, stake or unstake that arrives from the network is accepted exactly if it spends distinct existing outputs that are no longer locked, every one signed for by its owner over this very transaction, gives out no more than it takes in (the difference is its fee), and keeps the limits of its kind (weight, witnesses, reward and collateral, minimum and maximum stake, withdrawer, nonce and delay of an unstake). No amounts, however large, overflow.",
         ["inputs"], "every choice of inputs, outputs, amounts at each boundary, signatures (right, missing, swapped, of another key or message), protocol versions and limits",
         "tests check one broken field at a time with one amount",
         [V + "validations.rs"], [("validate_new_transaction and the validators per kind", V + "validations.rs")], [], ["validate_new_transaction, verify_signatures"], ENUM,
         "Real secp256k1 signatures. Amounts, locks and nonces come from boundary menus. Known finding: authorizations of stakes are not verified.")
    prop("C27", "val", "A block is accepted exactly if it adds up, and leads to exactly that ledger",
         "The transactions of a block are accepted exactly if each is valid on the ledger left by those before it, each kind keeps its weight limit, every data request with too many witnesses is settled, the mint is what the protocol gives the miner and the header carries the right Merkle roots; then the unspent outputs change exactly accordingly, with ages and relative time locks. A refused block changes nothing, blocks validated earlier never change the verdict on later ones, and the first block creates no more coins than fit next to all rewards.",
         ["histories", "inputs"], "every sequence of up to four (five) transfers with conflicts and chains, every mixture of kinds, every mint near the right one, each wrong root, every history of competing candidates to a depth, in every protocol version",
         "tests build single blocks with one defect",
         [V + "validations.rs", D + "utxo_pool.rs"], [("validate_block_transactions, update_utxo_diff", V + "validations.rs")], [("UtxoDiff, DataRequestPool", "changes of the block under validation", D + "utxo_pool.rs")], ["validate_block_transactions, validate_genesis_block, Diff::apply"], ENUM,
         "The ledger is a plain map in the specification. Known finding: ages of outputs spent in the block that created them.")

    prop("C28", "val", "Commitments and reveals are accepted exactly from eligible, funded witnesses",
         "A commitment is accepted exactly if its request awaits commitments, its witness is eligible in this round under the rules of the request's epoch and proves it with a VRF proof for this request and epoch, it is signed by that witness, its collateral is old enough, its own, and exactly what the request demands, and nobody commits twice; a block carries as many as the request has witnesses, or none. A reveal is accepted exactly if its request awaits reveals, its author committed to that very reveal and has not revealed, and it is signed.",
         ["inputs", "histories"], "every key, power ranking, round, epoch and forged part of a proof; every mixture of collateral coins; every pair of requests in every stage with every multiset of commitments; every reveal near the right one",
         "tests build single commitments with one defect",
         [V + "validations.rs", D + "data_request.rs", D + "staking/stakes.rs", V + "eligibility/legacy.rs"], [("validate_commit_transaction, validate_commit_collateral, validate_reveal_transaction", V + "validations.rs")], [("DataRequestPool", "stages, commits and reveals of requests", D + "data_request.rs")], ["validate_new_transaction, validate_block_transactions, verify_signatures"], ENUM,
         "The specification ranks validators by power itself; VRF proofs are real ones over secp256k1.")

    prop("C29", "val", "Every tally but the right one is refused, and each due tally must be there",
         "For every history of a data request there is exactly one acceptable tally: its result, its witnesses out of consensus and in error, and the payments to honest witnesses, to those in error, and back to the requester follow from the commits and reveals alone, and its payments add up to what the request and the collaterals brought in. A block has exactly the tallies that are due. What the node builds is that tally.",
         ["inputs", "histories"], "every combination of deeds of up to four (five) witnesses, of rewards, fees, thresholds, collaterals and protocol eras, and every tally near the right one; every set of due and undue tallies in a block; validators leaving at every stage",
         "tests compare hand-written tallies of a dozen histories",
         [V + "validations.rs", D + "data_request.rs", D + "radon_report.rs"], [("validate_tally_transaction, run_tally", V + "validations.rs"), ("create_tally", D + "data_request.rs")], [("DataRequestState", "commits and reveals of a request", D + "data_request.rs")], ["create_tally, validate_tally_transaction, validate_block_transactions"], ENUM,
         "Known finding: requests admitted while there were enough validators are never settled when too many leave.")

    prop("C30", "val", "Only an eligible miner's block on the tip is valid, and the best one wins",
         "The header of a block is accepted exactly if it follows the last block, is neither older than it nor from the future, its miner is eligible (since 2.0 by rank in power, widening with every epoch without a block; before by a VRF target from the number of active identities), proves it for this very epoch and randomness, and signed exactly this header; the first block is the one agreed on. Of competing candidates the same one wins in whatever order they arrive. Rewards never grow and add up to their total.",
         ["inputs"], "every miner, epoch, gap and randomness with every pair of defects; every set of stake entries; all thresholds over boundary values; all triples of candidates in all orders; all epochs of many reward schedules",
         "tests pick single headers, ties and thresholds",
         [V + "validations.rs", V + "eligibility/current.rs", V + "eligibility/legacy.rs"], [("validate_block, compare_block_candidates", V + "validations.rs"), ("mining_eligibility", V + "eligibility/current.rs"), ("calculate_randpoe_threshold, VrfSlots", V + "eligibility/legacy.rs")], [("StakesTracker", "powers", D + "staking/stakes.rs")], ["validate_block, verify_signatures, validate_genesis_block, compare_block_candidates, block_reward"], ENUM,
         "Thresholds are computed in 128 bits by the specification.")

    prop("C31", "ds", "Eligibility spreads the reputation of active identities and keeps it",
         "The eligibilities of the active identities add up to their reputation, follow its order, fall linearly from the best to the least reputed and never below the least reputation; ties are broken by a hash that changes with the witnessing acts. The factor for a number of witnesses makes at least that many expected, and no more than needed. Whatever was asked before, and across restarts, the answers follow from the present reputation. Issued reputation does not depend on the steps in which it is issued; lies only lose.",
         ["histories", "inputs"], "all mixtures of reputations of up to six (seven) identities, every history of activity, gains, expiries, clocks, questions and restarts to a depth, all issuance intervals",
         "tests use a few fixed distributions and call in one order",
         [D + "chain/mod.rs", "reputation/src"], [("trapezoidal_eligibility, ReputationThresholdCache, internal_threshold_factor", D + "chain/mod.rs")], [("ReputationEngine", "reputation, activity, cached answers", D + "chain/mod.rs")], ["get_eligibility, threshold_factor, get_rep_ordered_ars_list, total_active_reputation, reputation_issuance"], ENUM,
         "The slope is computed in integers by the specification; where it is within rounding of a half only the sum, order and minimum are checked.")

    prop("C32", "ds", "Upgrades take effect by votes, exactly when and where the rules say",
         "A signalled upgrade is activated exactly when, in one of its voting windows, blocks carrying its bit are at least 80 percent of the window, 21 epochs after the block which closes it, no matter where blocks are missing; what is recorded as active is never lost, and gates behaviour from its epoch on and not before. Hard forks and emergency committees are in force exactly in the periods laid down for each network.",
         ["histories", "inputs"], "every history of blocks with and without votes over several windows of each shape, every set of recorded upgrades at each of their boundaries, every superblock index up to 310 000 (2 000 000)",
         "tests count votes of one bit in one window",
         [D + "chain/tapi.rs"], [("TapiEngine", D + "chain/tapi.rs")], [("TapiEngine", "votes per bit, recorded upgrades", D + "chain/tapi.rs")], ["update_bit_counter, initialize_wip_information, ActiveWips, in_emergency_period"], ENUM,
         "The specification recounts the votes of a window from the list of blocks.")

    prop("C33", "ds", "Every epoch has one protocol version, and epochs and times agree",
         "In any schedule of upgrades, registered in any order, the version of an epoch is the newest one activated by then, the next is the one after, and versions are ordered by age. An epoch's time is the genesis time plus its epochs' lengths under the version of each; the epoch of a time is the last one started; times before genesis and numbers beyond the range are errors, never panics.",
         ["inputs", "histories"], "every schedule of the four versions over boundary epochs in every order of registration, every epoch and second around each boundary, and boundary values of the whole range",
         "tests fix one schedule and few epochs",
         [D + "chain/mod.rs", D + "proto/versioning.rs", D + "lib.rs"], [("VersionsMap, ProtocolInfo", D + "proto/versioning.rs"), ("EpochConstants", D + "chain/mod.rs")], [("PROTOCOL", "schedule of the process", D + "lib.rs")], ["version_for_epoch, get_protocol_version, epoch_at, epoch_timestamp, get_protocol_version_activation_date"], ENUM,
         "Time is counted second by second in the specification.")

    prop("C34", "val", "Superblocks attest the blocks and are final by two thirds of their committee",
         "A superblock carries exactly the roots and last hash of its blocks and the keys of those active, and every request and tally in them can be proven against it. Its committee has the right size, distinct members, and is the same for who builds it and who only hears of it. Each member counts once, signed votes only; conflicting votes count for nothing; the outcome does not depend on the order of votes, and is final only once no other superblock can be.",
         ["histories", "inputs"], "every history of votes, superblocks and restarts to a depth, for several committees; every size of committee out of up to 60 (130) identities; all numbers of votes; every layout of blocks; every defect of a signature",
         "tests vote in a few orders with fixed committees",
         [D + "superblock.rs", D + "chain/mod.rs", V + "validations.rs"], [("SuperBlockState", D + "superblock.rs"), ("calculate_superblock_signing_committee", D + "superblock.rs")], [("SuperBlockVotesMempool", "votes of members", D + "superblock.rs")], ["add_vote, has_consensus, build_superblock, dr_proof_of_inclusion, verify_signatures"], BFS,
         "Keys and BN256 signatures come from a stand-in. Known findings: committees of two and four can have two final superblocks.")

    prop("C35", "ds", "What one node sends or stores is what another reads, and bytes never panic",
         "Every message, block, transaction and piece of chain state that is written, in the wire format of any protocol version or in storage, is read back as it was, a block keeps its hash in the format of its version, and whatever bytes a peer sends are either a message or an error, never a panic.",
         ["inputs"], "every kind of message with boundary values in each field, every protocol version, every truncation and single-byte change of each encoding, every missing or doubled field",
         "tests decode a few captured messages",
         [D + "proto/mod.rs", D + "proto/versioning.rs", D + "chain/mod.rs"], [("ProtobufConvert", D + "proto/mod.rs"), ("Versioned", D + "proto/versioning.rs")], [], ["to_versioned_pb_bytes, from_versioned_pb_bytes, from_pb_bytes, hash"], ENUM,
         "The protobuf codec is a stand-in with the same wire format; messages are those of the repository's schema.")

    R = "rad/src/"
    prop("C36", "rad", "A RADON value has one encoding, and reads back as itself",
         "Every value a data request can produce, errors included, is encoded in the one canonical way all nodes and bridges agree on and decodes to itself; equality, hashes and texts agree with the value; bytes which are no value are an error.",
         ["inputs"], "every value of each type over boundary menus, nested to a depth, every error with its arguments, all half-precision floats, all short byte strings",
         "tests encode a few examples of each type",
         [R + "types/mod.rs", R + "error.rs", D + "radon_error.rs"], [("RadonTypes encode and decode", R + "types/mod.rs"), ("RadError", R + "error.rs")], [], ["RadonTypes::encode, TryFrom<&[u8]>, RadonTypes equality and hash"], ENUM,
         "An encoder written anew is the specification. Values outside 64 bits have no encoding.")

    prop("C37", "rad", "Every RADON operator computes what it is documented to, and never panics",
         "Each operator of each type, called on any value with any arguments, gives the documented result or an error, the same on each node, under the rules of each protocol version; a script is the composition of its calls and stops at the first error; partial results are those of the prefixes.",
         ["inputs"], "all operators times a menu of values of all types times a menu of argument lists, and every script of up to two (three) calls",
         "tests call each operator with one or two values",
         [R + "operators/mod.rs", R + "operators/array.rs", R + "operators/string.rs", R + "operators/map.rs", R + "operators/integer.rs", R + "operators/float.rs", R + "operators/bytes.rs", R + "script.rs"], [("operate_in_context", R + "operators/mod.rs"), ("execute_radon_script", R + "script.rs")], [], ["operate_in_context, execute_radon_script"], ENUM,
         "JSON paths, XML and base58 run on limited stand-ins of their libraries.")

    prop("C38", "rad", "The result of a request is what the honest majority revealed",
         "For any reveals, filters and reducer the result, the witnesses out of consensus and those in error are the documented ones; a value revealed by more than the required share is the result and nobody who revealed it is punished; the order of reveals changes nothing but the order of the judgements.",
         ["inputs"], "every list of up to four (five) reveals of all types and errors, every number of commits, threshold, era, filter and reducer with all kinds of arguments; every permutation",
         "tests tabulate a few dozen lists",
         [R + "conditions.rs", R + "filters/mod.rs", R + "filters/deviation.rs", R + "filters/mode.rs", R + "reducers/mod.rs", R + "reducers/mode.rs", R + "reducers/average.rs", R + "reducers/median.rs", D + "radon_report.rs"], [("evaluate_tally_precondition_clause, evaluate_tally_postcondition_clause", R + "conditions.rs")], [], ["construct_report_from_clause_result, operate_in_context"], ENUM,
         "Floating point results are compared with those of a specification in the same arithmetic.")

    prop("C39", "rad", "A source is asked exactly as requested, and its answer goes through its script",
         "The bytes of a script are exactly the calls they spell or an error; a source is asked once, with the method, address, headers, body, redirections and proxy that were requested or configured, or not at all if any is malformed; its answer becomes text, bytes or headers as its script expects, then a value or an error. Aggregation works on the majority. With several transports a value counts only if they agree to the configured share.",
         ["inputs"], "every script of up to three (four) calls of all shapes and every byte string up to a length; all kinds of sources times addresses, headers (each character), replies and scripts; every combination of answers of up to three (four) transports",
         "tests ask nothing or one public site",
         [R + "lib.rs", R + "script.rs", "net/src/client/http/mod.rs"], [("run_retrieval_report, run_paranoid_retrieval, try_data_request", R + "lib.rs"), ("unpack_radon_script", R + "script.rs")], [], ["unpack_radon_script, run_retrieval, run_paranoid_retrieval, try_data_request, run_aggregation"], ENUM,
         "The network is a stand-in for reqwest that records requests. Known finding: operators beyond one byte.")

    W = "wallet/src/"
    prop("C40", "wal", "A wallet shows what the blocks it processed say, whatever it is told and when",
         "After any history of blocks, reorganisations, superblocks, notifications lost or refused, transactions sent, resynchronisations and restarts, a wallet's balances (confirmed, pending, locked, staked, local), unspent outputs, movements with their fees and results, and payments per address are those of the blocks it has processed, each counted once. A failing database, a lost node or a crash at any point leaves it consistent, and complete once it has synchronised.",
         ["histories", "faults", "crash points"], "every history of a menu of actions to depth 4 (5) over five families of transactions; every fault of the database, request to the node and write of the last action after each of ten prefixes",
         "tests index one or two blocks and never fail, reorganise or restart",
         [W + "repository/wallet/mod.rs", W + "repository/wallet/state.rs", W + "actors/worker/methods.rs"], [("Wallet", W + "repository/wallet/mod.rs"), ("Worker::sync, handle_block, handle_superblock", W + "actors/worker/methods.rs")], [("State", "confirmed and pending view", W + "repository/wallet/state.rs"), ("wallet database", "persisted view", W + "db/encrypted/mod.rs")], ["balance, get_utxo_info, transactions, addresses, public_data"], BFS,
         "The real worker and wallet run on an in-memory database and a model of the node; a ledger recomputed from the list of blocks is the specification.")

    prop("C41", "wal", "A wallet's passwords, keys, names and labels are kept, and a backup restores it",
         "Whatever wallets are created, overwritten, opened, renamed, given addresses, resynchronised and deleted, with a crash after any write, each opens with its own password only and shows its own names, data and addresses, derived in order from its own key along the documented path. A mnemonic or exported key, encrypted with any password, makes the same wallet anywhere and is refused if it is damaged; signatures are by its key. A birth date skips only what came before it.",
         ["histories", "crash points", "inputs"], "every history of thirteen actions on two wallets to depth 4 (5), with a crash at every write of the last one; every kind of key, path, password, damage and birth date on a menu",
         "tests create single wallets and export one key",
         [W + "repository/wallets/mod.rs", W + "repository/wallet/mod.rs", W + "crypto.rs", W + "actors/worker/methods.rs", W + "actors/app/handlers/create_wallet.rs"], [("Wallets", W + "repository/wallets/mod.rs"), ("Worker::create_wallet, unlock_wallet, gen_address, sign_data", W + "actors/worker/methods.rs")], [("wallet database", "what is known of each wallet", W + "db/encrypted/mod.rs")], ["create_wallet, unlock_wallet, update_wallet, get_addresses, export_master_key, sign_data, delete_wallet"], BFS,
         "Driven through the JSON-RPC methods on an in-memory database; keys are derived anew by the specification.")

    prop("C42", "wal", "A wallet pays exactly what it is asked to, with what it may spend, once",
         "A payment or request that a wallet creates spends outputs of its own that are confirmed (or pending, if so configured), unlocked, selected, from the chosen address and not reserved, no more of them than the strategy needs; pays exactly what was asked, the fee that was asked for its weight, and the change to its own next address; is signed so that validators accept it; and is shown as it is. It is refused only without enough money or above the weight limit. Previews and refusals change nothing. What is sent reaches the node unchanged and its inputs are not used again until a timeout.",
         ["inputs", "histories"], "all combinations of wallets, outputs, kinds of fees, strategies, selections and previews on a menu; every history of payments, sends, blocks and restarts to depth 4 (5)",
         "tests create payments from one or two equal outputs",
         [W + "repository/wallet/mod.rs", "data_structures/src/transaction_factory.rs", W + "actors/app/handlers/create_vtt.rs", W + "actors/app/handlers/create_data_req.rs", W + "actors/app/handlers/send_transaction.rs"], [("build_inputs_outputs_wallet, create_signatures_from_inputs", W + "repository/wallet/mod.rs"), ("send_transaction", W + "actors/app/methods.rs")], [("used_outputs, next_internal_index", "reservations and addresses for change", W + "repository/wallet/state.rs")], ["create_vtt, create_data_request, send_transaction"], BFS,
         "Driven through the JSON-RPC methods; the oracle picks coins anew and asks the node's validators. Reservations are forgotten when the wallet process ends. Amounts of zero are not claimed.")

    prop("C43", "wal", "A session reaches the wallets it opened until it ends, and no others",
         "A request with a session and a wallet is answered only if that session opened that wallet and is neither closed nor expired, and changes nothing otherwise; the right password is what opens it. A subscriber is notified of its own wallets' events only, each once, and no session's closing, locking or failure deprives another. Whatever is sent to any method is answered with a result or an error, never a crash.",
         ["histories", "inputs"], "every history of opening, locking, closing, refreshing, subscribing, waiting and blocks arriving to a depth, with two wallets and up to two sessions; every method with every parameter left out or of another kind",
         "tests call no method of the server",
         [W + "actors/app/methods.rs", W + "actors/app/state.rs", W + "actors/app/routes.rs", W + "actors/app/mod.rs"], [("App", W + "actors/app/methods.rs"), ("State", W + "actors/app/state.rs")], [("State", "sessions, wallets, subscriptions", W + "actors/app/state.rs")], ["every JSON-RPC method, notifications"], BFS,
         "The actor system, the JSON-RPC server and the clock are stand-ins; the application is the real one.")
    P2P = "p2p/src/"
    prop("C44", "p2p", "The address book keeps every peer in its slot, and iced ones out until they melt",
         "An address has one tried slot and one new slot per source group, as documented: a group reaches at most 4 tried buckets and a source's group at most 32 new ones. Whatever is added, removed, iced, melted, waited for or restarted, the book holds exactly the latest address put into each slot; iced, unspecified and own addresses are not taken in, and an address is iced until its period passed. Random peers are distinct entries, as many as there are or were asked for, and any may be drawn.",
         ["histories", "inputs"], "every history of book operations to a depth over addresses that collide; every host and port of several groups; every outcome of the dice",
         "tests try a few addresses and one draw",
         [P2P + "peers/mod.rs"], [("Peers", P2P + "peers/mod.rs")], [("Peers", "new, tried and ice buckets", P2P + "peers/mod.rs")], ["return values, buckets, timestamps, drawn peers"], BFS,
         "The random generator of the thread is a stand-in whose draws are enumerated; time passes by ageing the entries.")
    prop("C45", "p2p", "Sessions move from handshake to consolidated within limits, or stay as they were",
         "A session is registered once per direction and address, moves to consolidated only within the limit, and is in consensus only while consolidated and outbound; a refused operation changes nothing. An address is similar to an inbound session exactly while one of its network range is there; eligible for connection exactly if not connected to and not our own; the counts of sessions and of missing peers agree with the sessions; anycast reaches any consolidated (or consensus) outbound session and no other.",
         ["histories"], "every history of registering, consolidating, unregistering, consensus and changing limits over three addresses, to closure",
         "tests follow a handful of scripted histories",
         [P2P + "sessions/mod.rs", P2P + "sessions/bounded_sessions.rs"], [("Sessions", P2P + "sessions/mod.rs"), ("BoundedSessions", P2P + "sessions/bounded_sessions.rs")], [("Sessions", "five collections, ranges", P2P + "sessions/mod.rs")], ["collections, counts, eligibility, similarity, anycast"], BFS,
         "IPv6 addresses are left out of ranges (FIXME #740 in the code: they all count as one range).")
    prop("C46", "ds", "Amounts are exact, and fees and priorities mean the same wherever they are used",
         "An amount shows, adds, scales and divides as the whole number it is, with nine decimals. A fee means the same in each way it can be written, or is refused. The fee from a priority is that priority times the weight, rounded down, and no heavier transaction pays less. The priorities of a block are the highest and the lowest non-zero ones of each kind, whatever the order. An estimate depends only on the recent blocks, not on their order, and a faster tier never pays less.",
         ["inputs"], "all pairs of amounts on a menu of edges; every form of fee; exact priorities times weights; every list of up to five (six) transactions; every mix of 18 to 26 (40) blocks of three priorities; every window of blocks",
         "tests print a few amounts and estimate from one random history",
         ["data_structures/src/wit.rs", "data_structures/src/fee.rs", "data_structures/src/chain/priority.rs"], [("Wit", "data_structures/src/wit.rs"), ("Fee, deserialize_fee_backwards_compatible", "data_structures/src/fee.rs"), ("PriorityVisitor, PriorityEngine, strategies::target_minutes", "data_structures/src/chain/priority.rs")], [("PriorityEngine", "window of recent blocks", "data_structures/src/chain/priority.rs")], ["Wit arithmetic and text, Fee JSON, derive_fee_wit, estimate_priority"], ENUM,
         "Each estimate is compared with those of the other kinds and orders and with bounds, not with the exact waiting times.")
    prop("C47", "ds", "What is written of hashes, addresses, signatures and requests is read back",
         "Hashes, addresses, output pointers, sources of requests, strategies and numbers are written as documented, as text, JSON or binary, and read back the same, old binary formats too; a damaged, cut, extended or foreign text is refused, and an address of another environment is reported as such. A hash divides as a 256-bit number. A recoverable signature is read as one of the key that made it or another, is written only if it leads to its key, and nothing crashes. The genesis file is accepted only if its block has the configured hash.",
         ["inputs"], "every byte at every position of hashes and addresses; every one- and two-character change, cut and insertion in an address; every form of pointer, number, strategy and source on a menu; every change of one bit and every cut of signatures; r from 0 to 255",
         "tests read a handful of well-formed texts",
         ["data_structures/src/chain/mod.rs", "data_structures/src/serialization_helpers.rs"], [("Hash, PublicKeyHash, OutputPointer, KeyedSignature", "data_structures/src/chain/mod.rs"), ("RADRetrieve, UtxoSelectionStrategy, number_from_string", "data_structures/src/serialization_helpers.rs")], [], ["FromStr, Display, Serialize, Deserialize, to_recoverable_bytes, GenesisBlockInfo::from_path"], ENUM,
         "Bech32 runs on an older release of the library, compared with BIP-173 written anew.")
    prop("C48", "cfg", "A configuration is what its file says, and the defaults where it says nothing",
         "In each environment a setting in the file changes its own field to that value and no other; what is left out, a whole section too, is the default. Consensus constants and protocol versions are those of the network; a file changes the constants in development only. What is malformed is refused. An exported configuration reads back the same, without secrets. The ways to retrieve are the direct one, if allowed, then the proxies in order.",
         ["inputs"], "every setting, and every pair (triple) of settings, in each environment; every set of empty sections; every setting malformed in four ways",
         "tests load two files",
         ["config/src/config.rs", "config/src/defaults.rs", "config/src/loaders/toml.rs", "data_structures/src/witnessing.rs"], [("Config::from_partial, to_partial", "config/src/config.rs"), ("Defaults", "config/src/defaults.rs"), ("from_file", "config/src/loaders/toml.rs")], [], ["every field of Config, the file written from it, WitnessingConfig"], ENUM,
         "Malformed periods count as left out and are not claimed. The constants of each network are a table in the check.")
    prop("C49", "cfg", "The clock follows the last answer of a time server, and waits are what is left",
         "After an answer from a time server the clock shows that server's time, ahead of or behind the system's, until the next answer; a server that fails changes nothing. The wait until a time is what is left of it, or none if it is past. Durations in words say what they are, to the second under a year and to the day above.",
         ["inputs", "histories"], "all pairs of edge times; every history of three (four) answers and failures of servers; edge durations",
         "tests never set the clock",
         ["util/src/timestamp.rs"], [("update_global_timestamp, get_timestamp_nanos, duration_between_timestamps", "util/src/timestamp.rs")], [("NTP_TS", "difference to the server's clock", "util/src/timestamp.rs")], ["get_timestamp_nanos, duration_until_timestamp, seconds_to_human_string"], ENUM,
         "The NTP client is a stand-in. Times are checked against bounds read from the system's clock before and after.")
    N = "node/src/actors/"
    prop("C50", "node", "A node killed at any write comes back, catches up and agrees again",
         "Whenever a node dies, at any write to its disk, it starts again from what was written, without a panic; its chain state on disk always replays from the blocks stored there. It then takes part again on the same chain as the others. The network goes on after all of its nodes died at the same moment.",
         ["crash_points", "configurations"], "a network of four nodes: every one of the first 60 (100) writes of a node, times how long it stays away, times where it keeps outputs; every such moment for all nodes at once",
         "tests start no node",
         [N + "chain_manager/mod.rs", N + "chain_manager/actor.rs", "node/src/storage_mngr/mod.rs"],
         [("ChainManager::initialize_from_storage, persist_chain_state", N + "chain_manager/actor.rs"), ("StorageManager", "node/src/storage_mngr/mod.rs")],
         [("chain state, blocks, outputs, superblocks", "a node's disk", "node/src/storage_mngr/mod.rs")], ["disks of all nodes after each epoch, states, tips"], ENUM,
         "The nodes' real actors run under a deterministic actor world; engine, network and clock are stand-ins. Message order within the world is fixed.")
    prop("C51", "node", "Nodes cut off from each other never consolidate different chains",
         "However the network is cut and healed, no two nodes store different consolidated superblocks of one index, no node goes back behind what it consolidated, and what is on each disk replays. A single node which was cut off alone agrees with the others again.",
         ["schedules", "fault_sequences"], "four nodes: every sequence of three (four) cuts of two epochs each, every one among four shapes, at three offsets within the epoch",
         "tests start no network",
         [N + "chain_manager/mod.rs", N + "chain_manager/handlers.rs", N + "chain_manager/actor.rs"],
         [("AddBlocks, AddSuperBlockVote, PeersBeacons", N + "chain_manager/handlers.rs"), ("try_consolidate_superblock, construct_superblock", N + "chain_manager/mod.rs")],
         [("sm_state, consolidated beacon", "state machine of a node", N + "chain_manager/mod.rs")], ["stored superblocks, tips, states of all nodes"], ENUM,
         "After cuts in which several nodes were away the network may halt; this is recorded as an outcome, not claimed.")
    prop("C52", "node", "A node that joins or comes back late reaches the state of the others",
         "A node that starts with an empty disk, or with an old one, at any time, ends on the others' chain: same tip, same consolidated superblock, same outputs, and takes part.",
         ["histories", "configurations"], "fresh or stopped, at each of 14 (30) epochs, at two offsets, times two superblock periods, times where it keeps outputs",
         "tests start no network",
         [N + "chain_manager/handlers.rs", N + "session/handlers.rs", N + "chain_manager/mod.rs"],
         [("AddBlocks, synchronization", N + "chain_manager/handlers.rs"), ("InventoryRequest, LastBeacon", N + "session/handlers.rs")],
         [("sync target", "what is synchronized to", N + "chain_manager/mod.rs")], ["states, tips, outputs, disks of all nodes"], ENUM,
         "Four nodes, a short chain, honest peers.")
    prop("C53", "node", "A request is answered by what most witnesses saw, and everyone is paid for it",
         "A data request sent to a node is committed, revealed and tallied by eligible witnesses; its result is what a majority saw, or an error. Who agreed is paid and gets the collateral back, who lied loses it, and nothing is created or lost. If nobody takes it, the requester gets it back. All nodes tell the same about it, also if one of them is away at any time.",
         ["inputs", "fault_sequences"], "every combination of what four nodes' sources say (three values), times one to four witnesses; a node killed or cut off at each of 12 (40) moments, times which one, times two durations",
         "tests start no network",
         [N + "chain_manager/mining.rs", N + "chain_manager/handlers.rs", N + "rad_manager/handlers.rs", "data_structures/src/data_request.rs"],
         [("try_mine_data_request, create_tally_transactions", N + "chain_manager/mining.rs"), ("RadManager", N + "rad_manager/handlers.rs")],
         [("DataRequestPool", "requests in progress", "data_structures/src/data_request.rs")], ["blocks, reports of requests, balances on all nodes"], ENUM,
         "Each node's source is a stand-in for HTTP; eligibility runs with real VRFs.")
