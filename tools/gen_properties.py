#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01", "Transaction serialization round trip",
  "Decoding the serialized form of any transaction yields a transaction with the same sender, receiver, timestamp, signature, amount and payload bytes. Every serialized transaction starts with the transaction type tag, which is the tag stored transactions are recognised by when they are read back.",
  ["inputs"], "all transactions: every sender, receiver, timestamp, signature, amount and payload (present or absent)",
  "dump_parse_transaction tries one transaction without payload; equal field widths make swapped or shifted fields invisible to a sample where neighbouring bytes agree",
  ["src/transaction.rs", "src/chain.rs", "src/dump_headers.rs"],
  [("writer", "Transaction::dump"), ("reader", "Transaction::parse"), ("stored-transaction reader", "MainChain::get_transaction")])
p("C02", "Block serialization round trip and type dispatch",
  "Decoding the serialized form of any block (transaction, summarize or derivative block) yields a block of the same kind with the same timestamp, proof of work, previous hash, height, difficulty, founder, merkle root, fee and transaction list. Each block kind is written with its own distinct type tag, and the generic main-chain decoder hands the bytes of each tag to the decoder of exactly that kind.",
  ["inputs"], "all blocks of all kinds, including height 0 and empty transaction lists",
  "the block tests round-trip one instance per kind at one height with equal-valued neighbouring fields; the generic decoder is only exercised for one kind",
  ["src/block.rs", "src/dump_headers.rs", "src/chain.rs"],
  [("writers", "BasicInfo/TransactionBlock/SummarizeBlock/DerivativeBlock::dump"), ("readers", "*::parse, deserialize_main_chain_block"), ("tags", "Headers::from_u8")])
p("C03", "Decoding untrusted bytes never crashes",
  "For every byte string, decoding it as a transaction, as any kind of block, as basic block information or as a length-prefixed integer either succeeds or returns an error. It never panics, never reads out of bounds and never overflows an index.",
  ["inputs"], "all byte strings, in particular truncated and over-long ones and lying length prefixes",
  "the tests only decode bytes the library itself produced",
  ["src/transaction.rs", "src/block.rs", "src/tools.rs", "src/dump_headers.rs"],
  [("length guards", "Transaction::parse, BasicInfo::parse, TransactionBlock::parse, SummarizeBlock::parse, DerivativeBlock::parse, load_u256, load_biguint, deserialize_main_chain_block")])
p("C04", "Length-prefixed 256-bit integers are encoded losslessly",
  "Encoding any 256-bit unsigned integer writes one length byte followed by exactly that many big-endian bytes without leading zero bytes (zero is the single byte 0), and decoding reads back the same integer and reports how many value bytes it consumed. The same holds for the arbitrary-precision encoding of every non-negative integer of up to 255 bytes; a larger one is refused.",
  ["inputs"], "all 2^256 integers, all integers of the arbitrary-precision encoding, and every position in the output buffer",
  "dump_load_u256 tries one number in an empty buffer",
  ["src/tools.rs"],
  [("encoder", "tools::dump_u256"), ("decoder", "tools::load_u256")])
p("C05", "Reported size equals serialized length",
  "For every transaction and every block, the reported serialized size equals the number of bytes serialization produces; the size helpers for integers agree with the encoders. Gas is therefore charged for exactly the bytes that are stored.",
  ["inputs"], "all transactions and blocks, including zero amounts, zero heights, zero fees and absent payloads",
  "no test compares the two numbers on an instance with a zero field",
  ["src/transaction.rs", "src/block.rs", "src/tools.rs"],
  [("size", "get_dump_size, u256_size"), ("bytes", "dump, dump_u256")])
p("C06", "Signatures cover the whole transaction",
  "The message that is signed when a transaction is created is the same message that is checked when it is verified, and it contains the type tag, sender, receiver, timestamp, amount and payload. Verification reports success only when the stored signature is valid for that message under the sender's public key.",
  ["inputs"], "all transactions, keys and tampered fields",
  "sign_verify_transaction checks one genuine signature and no tampered one, so a field missing from both messages is invisible",
  ["src/transaction.rs"],
  [("signer", "Transaction::generate_signature, Transaction::new"), ("verifier", "Transaction::hash_without_signature, verify")])
p("C07", "A transaction is identified by the hash of its full bytes",
  "The hash a transaction reports is the SHA-256 digest of its complete serialized form, however the transaction was created, and cannot change afterwards. Every stored transaction is stored under that hash with exactly those bytes, and looking a hash up returns the transaction stored under it or nothing.",
  ["inputs", "histories"], "all transactions, all ways of constructing and storing them",
  "hash_transaction only prints a hash; one stored transaction is read back",
  ["src/transaction.rs", "src/chain.rs", "src/tools.rs"],
  [("identity", "Transaction::new, new_signed, hash"), ("store", "MainChain::add_transaction, add_transactions, get_transaction_raw, transaction_exists")])
p("C08", "Only authorised and funded transactions move funds",
  "Submitting a transaction changes balances only if its signature verifies, its sender holds at least the gas price of its serialized bytes, and its sender holds at least the current fee plus the transferred amount. An accepted transaction is recorded, moves exactly its amount of coins from sender to receiver and costs the sender exactly that gas; a transaction that fails admission changes no balance and is not recorded.",
  ["inputs", "histories"], "all transactions and all ledger states",
  "no test submits a transaction",
  ["src/blockchaintree.rs"],
  [("admission", "BlockChainTree::send_transaction")],
  [("summary_db", "coin balances", "BlockChainTree"), ("gas_db", "gas balances", "BlockChainTree")])
p("C09", "A transaction takes effect at most once",
  "Submitting a transaction that the chain has already recorded is refused without changing any balance, so the same signed transaction cannot be replayed.",
  ["histories"], "all sequences of submissions, including exact re-submissions",
  "no test submits any transaction, let alone twice",
  ["src/blockchaintree.rs", "src/chain.rs"],
  [("replay guard", "BlockChainTree::send_transaction, MainChain::transaction_exists")])
p("C10", "Transfers conserve the total supply",
  "Transferring coins or gas between two accounts debits the sender and credits the receiver by exactly the requested amount, and touches no other account. A transfer from an account to itself leaves its balance unchanged.",
  ["inputs", "histories"], "all pairs of accounts (equal or not), all amounts and all prior balances",
  "test_amounts transfers once between two different accounts and only coins",
  ["src/blockchaintree.rs"],
  [("transfers", "BlockChainTree::send_amount, send_gas")])
p("C11", "No balance is overdrawn or wrapped",
  "Every debit of coins or gas (subtraction or transfer) larger than the current balance is refused with an error and leaves all balances unchanged; it neither wraps around nor crashes the node. A debit that succeeds lowers the balance by exactly the requested amount, and a credit raises it by exactly that amount.",
  ["inputs", "histories"], "all accounts, balances and amounts",
  "no test attempts an overdraft",
  ["src/blockchaintree.rs"],
  [("guards", "BlockChainTree::sub_amount, sub_gas, send_amount, send_gas, add_amount, add_gas, set_amount")])
p("C12", "Ledger updates are atomic and isolated",
  "Each balance update (credit, debit, overwrite or transfer) reads and writes all the balances it involves inside one atomic storage transaction. Concurrent updates therefore never lose an update, and no reader or crash can observe a debit without its matching credit.",
  ["schedules", "crash_points"], "all interleavings of concurrent callers, all crash points inside an update",
  "tests are sequential and never crash",
  ["src/blockchaintree.rs", "src/summary_db.rs"],
  [("storage transactions", "BlockChainTree::{add,sub,send,set}_{amount,gas}; SummaryDB::{add,decrease}_funds")])
p("C13", "Coin and gas ledgers are separate and reads see writes",
  "Coin operations read and change only coin balances and gas operations only gas balances, and the balance of an account is read from the same place and in the same encoding in which updates write it. An account that was never written has balance zero.",
  ["inputs", "histories"], "all accounts and all sequences of ledger operations",
  "test_amounts never looks at gas and reads back two accounts",
  ["src/blockchaintree.rs"],
  [("accessors", "BlockChainTree::get_amount, get_gas and all writers")])
p("C14", "A chain grows one block at a time at its end",
  "Appending a block succeeds only if the block's height equals the current chain height; it then stores the block at that height, indexes it by its hash and raises the height by exactly one. Appends exclude each other, a refused or failed append does not advance the chain, and the new height becomes visible only after block and index are stored.",
  ["schedules", "inputs", "fault_sequences"], "all blocks, all interleavings of concurrent appends and all storage errors",
  "the chain tests append one well-numbered block from one thread",
  ["src/chain.rs"],
  [("append", "MainChain::add_block, DerivativeChain::add_block")],
  [("height", "number of blocks in the chain", "MainChain, DerivativeChain")])
p("C15", "Block lookups agree with what was appended",
  "Looking up a height below the chain height returns the block appended at that height, and a height at or above the chain height returns nothing. Looking up a hash returns only a block with that hash, and the last block is the one at height minus one.",
  ["histories", "crash_points"], "all histories of appends and restarts, all heights and hashes",
  "the tests look up one freshly appended block by height",
  ["src/chain.rs"],
  [("lookups", "find_raw_by_height, find_raw_by_hash, find_by_height, find_by_hash, get_last_raw_block, get_last_block of both chains")])
p("C16", "Block validation rejects every mislinked or mis-worked block",
  "Validating a block of any kind against its predecessor reports success only if the block names the predecessor's hash, carries the difficulty that follows from the predecessor's difficulty and both timestamps, and its proof of work satisfies the predecessor's difficulty for that predecessor; a transaction block must also carry the merkle root of its own transactions. All block kinds apply the same linking, difficulty and work checks.",
  ["inputs"], "all blocks of all kinds and all predecessors",
  "the tests validate one rejected pair per kind, which any rejecting check satisfies",
  ["src/block.rs"],
  [("validators", "Block::validate of TransactionBlock, SummarizeBlock and DerivativeBlock")])
p("C17", "Locally produced blocks extend the tip and pass validation",
  "A newly produced block (main or derivative) names the hash of the current last block, has the next height, carries the recalculated difficulty, the given founder, timestamp and proof of work, and is only produced if that proof of work satisfies the last block's difficulty. It is appended to the chain before it is returned, and its own validation against the last block accepts it. The first block of a derivative chain continues the main-chain block the chain is anchored at, starting from the beginning difficulty.",
  ["inputs", "histories"], "all chain states, proofs of work, timestamps, founders and transaction lists",
  "no test produces a block",
  ["src/blockchaintree.rs", "src/block.rs"],
  [("producers", "emmit_new_main_block, emmit_new_derivative_block")])
p("C18", "Proof of work binds previous block, transactions and nonce",
  "Checking a proof of work hashes the given block hash, the merkle root of the given transactions and the complete nonce together, and accepts exactly when the digest has at least as many leading zero bits as the difficulty.",
  ["inputs"], "all block hashes, difficulties, transaction lists and nonces",
  "the only test of this check does not compile at this commit",
  ["src/tools.rs"],
  [("work check", "tools::check_pow, count_leading_zeros")])
p("C19", "Difficulty adjusts in the right direction for every input",
  "A block found faster than the target interval never lowers the difficulty of the next block, and raises it by at least one leading zero bit unless it cannot rise; a slower one never raises it and lowers it by exactly one leading zero bit (down to a floor of one); and one exactly on target leaves it unchanged. The computation is defined for every pair of timestamps and every difficulty value: it never crashes, wraps around or touches memory outside the difficulty.",
  ["inputs"], "all timestamp pairs (also decreasing ones) and all 2^256 difficulty values",
  "recalculate_difficulty_test tries five all-ones patterns with increasing timestamps",
  ["src/tools.rs"],
  [("retarget", "tools::recalculate_difficulty")])
p("C20", "Blocks received from outside are validated before they are appended",
  "Adding a complete block with its transactions to the main chain succeeds only if the block validates against the current last block; otherwise nothing is stored. When it succeeds, the block and every supplied transaction are stored.",
  ["inputs", "histories"], "all offered blocks and all chain states",
  "no test offers a block to the tree",
  ["src/blockchaintree.rs"],
  [("import", "BlockChainTree::add_new_block")])
p("C21", "Epoch rollover summarises every account",
  "A main-chain block whose height is a multiple of the epoch length is a summarize block without transactions, and every other produced main-chain block is a transaction block with at least one transaction. The summary commits to the address, coin balance and gas balance of every account with a coin balance as they were before the rollover; the rollover then replaces the previous-epoch snapshot of both ledgers by the current ones before the root account is refilled. Producing a transaction block changes no balance.",
  ["histories", "inputs"], "all heights and all ledger contents",
  "the epoch length is one million blocks; no test gets there",
  ["src/blockchaintree.rs", "src/tools.rs"],
  [("rollover", "emmit_new_main_block, summarize, rotate_dbs")])
p("C22", "A successful flush has persisted everything",
  "When flushing a chain or the whole tree reports success, every store it owns has been flushed without error and the chain configuration has been completely written and synced. The recorded height never gets ahead of the flushed blocks, and the previous configuration survives a crash while the new one is being written.",
  ["crash_points", "fault_sequences"], "all crash points during a flush and all storage or file errors",
  "the tests flush once without faults and without a crash",
  ["src/chain.rs", "src/blockchaintree.rs"],
  [("flush", "MainChain::flush, DerivativeChain::flush, BlockChainTree::flush, dump_config")])
p("C23", "Reopening restores what was flushed and resets nothing",
  "Opening a chain that was flushed restores exactly the height, difficulty and (for derivative chains) genesis hash that were written, and a chain starts afresh only if no configuration exists; any other problem reading it is reported. Opening an existing tree never changes the balance of an account that already has one.",
  ["histories", "fault_sequences"], "all flush/reopen histories, all values and all read errors",
  "the tests reopen one chain of minimal height and never look at the restored values",
  ["src/chain.rs", "src/blockchaintree.rs"],
  [("open", "MainChain::new, DerivativeChain::new, BlockChainTree::new"), ("config format", "dump_config of both chains")])
p("C24", "Locks are never held across suspension or re-acquired",
  "No operation keeps a chain lock while it is suspended waiting for I/O, and no operation acquires a chain lock that it already holds. Concurrent callers can therefore not deadlock on chain locks.",
  ["schedules"], "all interleavings of concurrent operations on all clones of a chain",
  "tests are sequential, where a lock held too long is invisible",
  ["src/chain.rs", "src/blockchaintree.rs"],
  [("locks", "RwLock fields of MainChain and DerivativeChain")])
p("C25", "Storage errors are reported, never swallowed or turned into a crash",
  "Whenever a database or file operation performed by the chains, the tree, the legacy funds store or the file helpers fails, the operation that needed it returns an error. No such failure is ignored, replaced by a default value or turned into a panic.",
  ["fault_sequences"], "every storage operation failing at any time",
  "no test injects a storage error",
  ["src/chain.rs", "src/blockchaintree.rs", "src/summary_db.rs", "src/tools.rs"],
  [("error discipline", "all calls into sled, std::fs, tokio::fs, zstd and std::io")])
p("C26", "The transaction pool never holds or reports a transaction twice",
  "Adding a transaction that is already pooled is refused and changes nothing; adding a new one makes it present. Removing the next transaction returns it with its own hash and makes it absent, so membership, length and contents always agree.",
  ["histories"], "all sequences of insertions and removals",
  "the pool has no test",
  ["src/txpool.rs"],
  [("pool", "TxPool::push, pop, len, transaction_exists")],
  [("pool", "priority queue of transactions", "TxPool"), ("hashes", "hashes of the pooled transactions", "TxPool")])
p("C27", "Transaction priority is a consistent total order, oldest first",
  "Pooled transactions are served in order of increasing timestamp, ties broken by hash. Two transactions compare equal exactly when the ordering says so, so equality, partial order and total order agree for every pair.",
  ["inputs"], "all pairs of transactions, in particular equal timestamps",
  "no test compares transactions",
  ["src/transaction.rs", "src/txpool.rs"],
  [("order", "Ord, PartialOrd, PartialEq of TransactionableItem")])
p("C28", "Unchecked operations only run where their requirement holds",
  "Every operation that skips a safety check (unchecked unwraps, unchecked indexing, reinterpreting bytes) is only reached when the condition it relies on has been established, so no input can cause undefined behaviour through the safe interface.",
  ["inputs"], "all inputs of all public operations that contain unchecked code",
  "undefined behaviour need not show in a test, and tests use well-formed inputs",
  ["src/transaction.rs", "src/block.rs", "src/tools.rs", "src/merkletree.rs"],
  [("unsafe blocks", "all unsafe operations of the crate")])
p("C29", "Merkle roots commit to all leaves and proofs are checked in full",
  "The merkle root of a list is recomputed from all of its items, every inner node combines exactly its two children, and missing leaves are filled with the fixed padding. Checking a proof folds the leaf with every supplied sibling and succeeds only if all bytes of the result equal the root.",
  ["inputs"], "all item lists of all lengths and all proofs",
  "merkle_tree_test prints the result of a proof but asserts nothing",
  ["src/merkletree.rs"],
  [("tree", "MerkleTree::build_tree, get_root"), ("proof", "MerkleTree::get_proof, verify_proof")])
p("C30", "Legacy funds store adds and subtracts exactly, without crashing",
  "Adding funds for an address raises its stored balance by exactly that amount, and decreasing lowers it by exactly that amount or is refused with an error when the balance is insufficient or absent, leaving it unchanged. Both persist the change before reporting success, and both work for every binary address. Reading funds reports the stored balance (zero if absent), and a flush that reports success has flushed the store.",
  ["inputs", "histories", "fault_sequences"], "all 33-byte addresses (also ones that are not text), all amounts and balances",
  "the store has no test",
  ["src/summary_db.rs", "src/tools.rs"],
  [("funds", "SummaryDB::add_funds, decrease_funds, get_funds")])
p("C31", "Compressed files contain everything that was written",
  "When compressing data to a file reports success, all the data has been written and the compressed stream has been finished, so decompressing the file returns exactly that data. Decompressing returns the complete content or an error, never a part of it.",
  ["inputs", "fault_sequences"], "all data and all I/O errors",
  "the file helpers have no test",
  ["src/tools.rs"],
  [("files", "tools::compress_to_file, decompress_from_file")])
p("C32", "Directory snapshots are complete",
  "When copying a directory reports success, every entry of the source, at any depth, has been copied to the same relative place in the destination; the first error stops the copy and is reported.",
  ["inputs", "fault_sequences"], "all directory trees and all I/O errors",
  "the copy helper only runs at an epoch boundary, which no test reaches",
  ["src/tools.rs"],
  [("copy", "tools::copy_dir_all")])
p("C33", "Each owner has exactly one derivative chain of its own",
  "Asking for an owner's derivative chain always returns the same chain for the same owner and never a chain of another owner, in memory and on disk. A new derivative chain is anchored at the hash of the main chain's current last block.",
  ["histories", "inputs"], "all owners and all sequences of requests and restarts",
  "no test asks the tree for a derivative chain",
  ["src/blockchaintree.rs", "src/chain.rs"],
  [("registry", "BlockChainTree::get_derivative_chain, DerivativeChain::new")])
# ---- broad guarantees outside what static analysis can decide here
p("C34", "The fee follows the difficulty",
  "The fee required for a difficulty is the fee step times the number of leading zero bits of the difficulty, for every difficulty; it never overflows, and a harder difficulty never has a lower fee. A produced transaction block carries the fee of its own difficulty.",
  ["inputs"], "all 2^256 difficulty values",
  "no test computes a fee",
  ["src/tools.rs", "src/static_values.rs"], [("fee", "tools::recalculate_fee")])
p("C35", "All handles to a chain share one chain",
  "Cloning a chain, or getting it from the tree, yields a handle to the same chain: height, blocks, references and transactions are shared, so a block appended through one handle is seen through every other.",
  ["histories", "schedules"], "all sequences and interleavings of operations through different handles",
  "tests use one handle at a time",
  ["src/chain.rs", "src/blockchaintree.rs"], [("clone", "MainChain, DerivativeChain"), ("get_main_chain", "BlockChainTree::get_main_chain")])
p("C36", "Public operations do not crash",
  "No public operation of the tree, the chains, blocks, transactions, the pool or the legacy funds store panics, whatever its arguments and whatever the (well-formed) stored state: anything it cannot do is reported as an error or an absent result.",
  ["inputs", "histories"], "all arguments and all states the library itself can reach",
  "tests call operations with a few valid arguments",
  ["src/blockchaintree.rs", "src/chain.rs", "src/block.rs", "src/transaction.rs", "src/txpool.rs", "src/summary_db.rs"], [("public operations", "all pub fn")])
p("C37", "The initial supply and the refill at every epoch are exact",
  "Every new main chain starts with the same first block: height zero, listing the root account. A tree whose main chain has only this block gives the root account exactly the coins of one cycle, unless it already has a balance; opening a tree at any later height changes no balance. Every epoch rollover leaves the root account with exactly the coins of one cycle. No other account receives coins this way.",
  ["histories", "inputs"], "all openings of the tree at all heights with all ledger contents, and all rollovers",
  "tests open empty trees only and never look at the root account or reach a rollover",
  ["src/blockchaintree.rs", "src/chain.rs", "src/static_values.rs"],
  [("first block", "MainChain::new"), ("initial coins", "BlockChainTree::new"), ("refill", "BlockChainTree::emmit_new_main_block")])
p("C38", "Blocks and transactions report what they carry",
  "A block's accessors report its own basic information, founder, merkle root, fee and transactions (nothing for the kinds that have none); the kind it reports is the tag it is serialized with, and reading a tag byte yields the kind with that number or an error. The hash a block reports is the SHA-256 digest of its complete serialized form. It follows a given hash exactly when that is its previous hash. A transaction or block made from its parts carries each part under its own name. Blocks compare by their timestamps, consistently in every comparison.",
  ["inputs"], "all blocks, transactions, tag bytes and hashes",
  "tests round-trip a handful of values, and compare values with what the same accessors return",
  ["src/block.rs", "src/transaction.rs", "src/dump_headers.rs"],
  [("accessors", "impl Block for TransactionBlock, SummarizeBlock, DerivativeBlock"), ("tags", "Headers::from_u8"), ("constructors", "Transaction::new, new_signed, BasicInfo::new, TransactionBlock::new")])
p("C39", "Operations whose conditions are met are not refused",
  "On data the library itself stored and without a storage failure: a credit that fits 256 bits, a debit the balance covers, opening, flushing and looking up in chains and trees, appending a block at the end of a chain, recording transactions, admitting a new, signed and funded transaction, producing a block with sufficient proof of work, validating a correctly linked block, serializing, signing with a valid key, and copying, compressing and decompressing files all succeed.",
  ["inputs", "histories"], "all arguments that meet the condition and all states the library itself can reach",
  "tests try each operation on a few small states",
  ["src/blockchaintree.rs", "src/chain.rs", "src/block.rs", "src/transaction.rs", "src/summary_db.rs", "src/tools.rs"],
  [("operations", "all public operations that can report an error")])
p("C40", "A crash at any point leaves a state that is a prefix of history",
  "After a crash at any point and a restart, chains, transactions and both ledgers together reflect the effects of some prefix of the operations performed before the crash.",
  ["crash_points", "histories"], "all crash points in all histories, across the independent databases",
  "no test crashes the node",
  ["src/blockchaintree.rs", "src/chain.rs"], [("independent sled databases", "BlockChainTree, MainChain")])
p("C41", "Total coins in circulation equal what the epochs issued",
  "At every moment the sum of all coin balances equals the coins issued at the epoch starts plus explicitly credited amounts minus explicitly debited ones.",
  ["histories"], "all histories of ledger operations and epochs",
  "tests look at two accounts after two operations",
  ["src/blockchaintree.rs"], [("ledger operations", "BlockChainTree")])
p("C42", "Merkle proofs of members verify",
  "For every list of distinct items and each of its items, the proof produced for it consists of the hashes beside the path from the item to the root, followed by the root; without that last hash it verifies against the root of the tree.",
  ["inputs"], "all lists and items (list lengths up to a bound)",
  "the only test prints the outcome without asserting it",
  ["src/merkletree.rs"], [("proofs", "MerkleTree::get_proof, verify_proof")])
p("C43", "Block production settles at the target interval",
  "Under constant hash power the difficulty adjustment makes the average time between blocks converge to the target interval.",
  ["histories"], "all sequences of block times",
  "needs long random histories",
  ["src/tools.rs"], [("retarget", "tools::recalculate_difficulty")])
p("C44", "Storage engine operations are linearizable",
  "Concurrent reads and writes of blocks, transactions and balances through different handles behave as if executed one at a time.",
  ["schedules"], "all interleavings of concurrent operations on all stores",
  "tests are sequential",
  ["src/blockchaintree.rs", "src/chain.rs"], [("sled", "external crate")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
