#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (regenerate with: python3 tools/mkprops.py)."""
import json, os
P = []
ENUM = ["schedules", "crash_points", "inputs", "programs", "histories", "configurations", "fault_sequences"]
def norm(over):
    out = []
    for o in over:
        l = o.lower()
        if l in ENUM: k = l
        elif "crash" in l: k = "crash_points"
        elif "schedul" in l or "concurren" in l or "interleav" in l: k = "schedules"
        elif "histor" in l or "rollback" in l or "restart" in l or "sequence" in l or "orders" in l or "forks" in l or "flush" in l: k = "histories"
        elif "code" in l or "program" in l or "contract behav" in l: k = "programs"
        elif "fail" in l or "fault" in l: k = "fault_sequences"
        else: k = "inputs"
        if k not in out: out.append(k)
    return out
def prop(id, title, statement, over, text, why, files, mech, observe_at=None, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": norm(over), "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe_at: d["anchors"]["observe_at"] = [observe_at]
    if state: d["anchors"]["state"] = state
    P.append(d)

# ---------------------------------------------------------------- ledger
prop("C01", "Tokens are conserved across balances, in-transit sends and burned fees",
 "For every token, the sum of all account balances plus the amounts of all sends not yet received changes only by documented issuance (token issue/reissue, block rewards), documented burning (destroyed token amounts, creation fees) and nothing else. No transfer, contract call, failed call, refund or rollback may create or destroy tokens.",
 ["history of account blocks", "contract behaviours", "rollbacks"],
 "for every history of transfers, contract deployments and calls (succeeding or failing), built-in contract calls and rollbacks",
 "Conservation is a global invariant over all accounts and a whole history; unit tests look at one block and one pair of balances.",
 ["vm/vm.go", "vm_db/balance.go", "ledger/chain/state/write.go", "ledger/generator/generator.go"],
 [("send/receive debit and credit, refund on failure", "vm/vm.go"), ("balance writes", "vm_db/balance.go; ledger/chain/state/write.go")],
 "chain balance and block queries of a running node after every operation")
prop("C02", "Every send is received at most once and account chains stay contiguous",
 "On every account the blocks form a single chain with consecutive heights and matching previous hashes, each send is received by at most one block and only by its addressee, and the set of sends reported as not yet received is exactly the set of sends without a receive. This remains true after rollbacks and restarts.",
 ["history", "rollbacks", "restarts"],
 "for every interleaving of sends, receives, duplicate receive attempts, snapshots, rollbacks and restarts",
 "Double receive and lost sends only show up for particular interleavings of receives with rollback and restart.",
 ["ledger/chain/index", "ledger/chain/insert.go", "ledger/chain/delete.go", "ledger/onroad", "ledger/chain/plugins/onroad_info.go", "ledger/verifier/account_verifier.go"],
 [("send/receive index", "ledger/chain/index"), ("onroad bookkeeping", "ledger/chain/onroad.go; ledger/onroad"), ("double receive check", "ledger/verifier/account_verifier.go")],
 "chain and onroad queries")
prop("C03", "Rolling back the ledger restores exactly the earlier state",
 "After the ledger is rolled back to an earlier snapshot block, or unconfirmed account blocks are removed, every query (balances, contract storage, code, metadata, logs, unreceived sends, confirmed content) answers exactly what it answered when that point was first reached. Replaying the removed blocks then yields the same state again.",
 ["history", "rollback depth", "flush timing", "restarts"],
 "for every history, every rollback depth and every position of disk flushes and restarts relative to it",
 "Rollback correctness depends on what was overwritten between the two points and on which part of it was already flushed; tests sample one or two such situations.",
 ["ledger/chain/delete.go", "ledger/chain/state/delete.go", "ledger/chain/state/redo.go", "ledger/chain/index", "ledger/chain/block/block_db.go", "ledger/chain/cache"],
 [("state rollback from redo logs", "ledger/chain/state/delete.go"), ("index rollback", "ledger/chain/index"), ("block file truncation", "ledger/chain/block/block_db.go")],
 "full-state fingerprints recorded per height through public chain queries")
prop("C04", "After a crash the ledger reopens in a state it really was in",
 "If the process stops at any moment of writing the ledger to disk, reopening it succeeds and yields the complete state the ledger had after some block that was already inserted, at least as new as the last completed flush. Blocks, indexes, balances and contract storage never disagree with each other after recovery.",
 ["crash point", "history"],
 "for every history and every step of the flush protocol at which the process may stop, including partially written log and block files",
 "Crash consistency quantifies over the instant of the crash; no test stops the process between two writes.",
 ["ledger/chain/flusher/flusher.go", "ledger/chain/db/store.go", "ledger/chain/block/block_db.go", "ledger/chain/file_manager", "ledger/chain/chain.go"],
 [("redo-log based two-phase flush", "ledger/chain/flusher/flusher.go"), ("store prepare/commit/recover", "ledger/chain/db"), ("block file recovery", "ledger/chain/block/block_db.go")],
 "directory images taken at every flush step, reopened by the real node")
prop("C05", "All ways of asking for the same ledger fact agree",
 "Looking a block up by hash, by height, by range, by account, through the snapshot that confirms it or through a send/receive relation always yields the same block, identical to what was inserted, whether it is served from caches, the unflushed write set or disk. A restart changes no answer.",
 ["history", "flush and cache state", "restarts", "query arguments"],
 "for every history, every query argument in and out of range, and every cache and flush state",
 "The answers come from several indexes, caches and files that are updated separately; only a whole-history cross check shows a disagreement.",
 ["ledger/chain/account_block.go", "ledger/chain/snapshot_block.go", "ledger/chain/cache", "ledger/chain/index", "ledger/chain/block"],
 [("query paths", "ledger/chain/*.go"), ("cache", "ledger/chain/cache"), ("index", "ledger/chain/index")],
 "public chain queries compared with a shadow ledger")
prop("C06", "Independent nodes accept honest blocks, agree on results, reject forgeries",
 "A block produced by one node and delivered to another over the wire is accepted there and leaves both with identical balances, contract storage, logs and unreceived sends. A block that differs in any protected field, has a wrong signature, height, previous hash, result or quota, or repeats a receive, is rejected and leaves the rejecting node unchanged.",
 ["history", "block mutations"],
 "for every honest history and every single-field or structural mutation of an account or snapshot block, with or without re-hashing and re-signing",
 "Agreement and forgery rejection are about all blocks anyone may send, which tests with hand-made blocks cannot enumerate.",
 ["ledger/verifier", "ledger/generator", "vm/vm.go", "ledger/consensus", "interfaces/core"],
 [("verification before insertion", "ledger/verifier"), ("deterministic re-execution", "ledger/generator; vm/vm.go")],
 "a second node fed with serialized blocks; its state fingerprint before and after")
prop("C07", "State as of a confirmed snapshot can be read later unchanged",
 "Reading balances or contract storage as of an earlier snapshot block returns exactly the values that were current when that snapshot block was the latest one, regardless of later writes, flushes, cache rotation, rollbacks above it or restarts.",
 ["history", "snapshot heights", "keys"],
 "for every history and every retained snapshot height, for existing, deleted and never-written keys and every iteration prefix",
 "The value depends on multi-version keys, a rotating cache and redo logs; tests read back only one or two heights.",
 ["ledger/chain/state", "ledger/chain/state/round_cache.go", "ledger/chain/state/storage_db.go", "ledger/chain/state.go"],
 [("multi-version state keys", "ledger/chain/state"), ("round cache", "ledger/chain/state/round_cache.go")],
 "snapshot-level state readers compared with recorded values")
prop("C35", "Concurrent readers of the ledger see committed state, without data races",
 "While blocks are inserted, snapshotted, flushed and rolled back, concurrent queries never return a torn or never-committed result, never crash and never race on shared memory.",
 ["schedule", "history"],
 "for every schedule of reader goroutines against one writer performing inserts, snapshots, flushes and rollbacks",
 "Races need a specific interleaving; the existing tests are single threaded.",
 ["ledger/chain", "ledger/chain/cache", "ledger/chain/db", "ledger/chain/state"],
 [("locking of caches, mem stores and flusher", "ledger/chain/cache; ledger/chain/db; ledger/chain/flusher")],
 "race detector reports and reader results checked against the set of committed states")
# ---------------------------------------------------------------- VM
prop("C08", "A failed contract call leaves no trace except the refund",
 "When a contract call fails for any reason, the contract's storage, code, balances and logs are exactly as before the call, none of the sends it attempted exists, and the full transferred amount (and fee) goes back to the caller. When it succeeds, exactly its effects are applied.",
 ["contract code", "failure point", "calldata"],
 "for every contract, every point at which it may fail (revert, invalid opcode, stack, memory, out of quota, depth) and every set of effects before that point",
 "The failure point relative to the effects is what matters; tests cover a handful of fixed programs.",
 ["vm/vm.go", "vm_db", "vm/interpreter.go"],
 [("revert of uncommitted state on error", "vm/vm.go"), ("unsaved write set", "vm_db/unsaved.go")],
 "contract state and produced blocks before and after each call")
prop("C09", "Contract instructions compute what the instruction set specifies",
 "Every arithmetic, comparison, bitwise, shift, hashing, memory, storage, calldata and control-flow instruction yields the 256-bit result its definition gives, for all operands including zero, sign and overflow boundaries. Executing one instruction never alters any operand or value other than those it is defined to change.",
 ["operands", "programs"],
 "for every instruction, all 256-bit operand values and every program composed of them",
 "The operand space is 2^256 per operand and aliasing bugs need particular instruction sequences.",
 ["vm/instructions.go", "vm/jump_table.go", "vm/memory.go", "vm/stack.go", "vm/interpreter.go"],
 [("instruction implementations", "vm/instructions.go"), ("integer pool reuse", "vm/util; vm/stack.go")],
 "storage and return data of contracts run by the real machine, against a reference interpreter")
prop("C10", "Hostile contract code is bounded, deterministic and cannot crash the node",
 "Executing any byte sequence as contract code with any calldata terminates within its quota budget, never panics, never uses more quota than granted, and gives the same result, quota use and effects every time it is run from the same state.",
 ["code bytes", "calldata", "quota limit"],
 "for every byte string as code, every calldata and every quota limit",
 "Arbitrary byte strings cannot be enumerated by tests.",
 ["vm/interpreter.go", "vm/gas_table.go", "vm/stack_table.go", "vm/memory_table.go", "vm/destination.go"],
 [("gas charging before execution", "vm/gas_table.go"), ("stack and jump validation", "vm/stack_table.go; vm/destination.go")],
 "execution results, repeated runs, quota counters")
prop("C11", "Quota use is charged fully and never exceeds what the account has",
 "An account can never use more quota within the accounting window than its stake, proof of work and accumulated unused quota allow, and every accepted block is charged at least its declared minimum. Quota earned grows monotonically with stake and is independent of how the window is cached.",
 ["stake amounts", "block histories", "rollbacks"],
 "for every stake amount, every sequence of blocks per window, with and without proof of work, and across rollbacks",
 "Exceeding the limit takes a particular sequence over a 75-snapshot window.",
 ["vm/quota/quota.go", "vm/quota/params.go", "ledger/chain/cache/quota_list.go", "vm/util/quota.go"],
 [("quota computation", "vm/quota/quota.go"), ("sliding window of used quota", "ledger/chain/cache/quota_list.go")],
 "quota queries of the node against a model of the window")
# ---------------------------------------------------------------- built-ins
prop("C12", "Staked tokens are always fully backed, owned and recoverable once expired",
 "The stake contract's balance always equals the sum of all live stake records, each beneficiary's total equals the sum of the records naming it, and only the staker can cancel a record, only after its expiration height and only up to its amount, receiving exactly that amount back.",
 ["histories of stake operations", "callers", "amounts"],
 "for every sequence of stake, delegated stake, cancel by any caller, at any height and for any amount",
 "Accounting drift needs sequences mixing several stakers, beneficiaries and partial cancels.",
 ["vm/contracts/contracts_quota.go", "vm/contracts/abi/abi_quota.go"],
 [("stake/cancel implementations", "vm/contracts/contracts_quota.go")],
 "contract balance, storage records and refunds after every call")
prop("C13", "Token supply rules hold for every issued token",
 "A token's recorded total supply always equals what was issued plus reissued minus burned, never exceeds its declared maximum, and only the owner (or anyone, where the token allows burning by anyone) may change supply, ownership or properties. A rejected operation changes nothing and returns the funds.",
 ["histories of token operations", "callers", "parameters"],
 "for every sequence of issue, reissue, burn, transfer of ownership and property changes with arbitrary parameters by any caller",
 "Supply drift and privilege errors need sequences of operations by different callers.",
 ["vm/contracts/contracts_asset.go", "vm/contracts/abi/abi_asset.go"],
 [("asset contract", "vm/contracts/contracts_asset.go")],
 "token info records, produced sends and balances after every call")
prop("C14", "Producer registration, voting and rewards follow the governance rules",
 "Registration names are unique while active, staked amounts are returned exactly once and only after the lock period, only the owner can update, revoke or withdraw, each account has at most one vote, and each reward period is paid at most once per producer.",
 ["histories of governance operations", "callers", "times"],
 "for every sequence of register, update, revoke, vote, cancel and reward withdrawal by any caller at any time",
 "Double refunds or duplicate rewards need particular sequences around lock periods.",
 ["vm/contracts/contracts_governance.go", "vm/contracts/abi/abi_gonvernance.go"],
 [("governance contract", "vm/contracts/contracts_governance.go")],
 "registration and vote records, produced sends after every call")
prop("C15", "Exchange funds are always solvent and owned by their depositors",
 "For every token, the exchange's token balance always covers the sum of all users' available and locked amounts, users' amounts change only by their own deposits, withdrawals, orders, cancels, trades and fees, and no amount ever becomes negative.",
 ["histories of exchange operations"],
 "for every sequence of deposits, withdrawals, order placements, matches, cancels and fee settlements on any markets",
 "Solvency is a sum over all users, orders and markets; rounding and fee paths only show in long sequences.",
 ["vm/contracts/contracts_dex_fund.go", "vm/contracts/contracts_dex_trade.go", "vm/contracts/dex"],
 [("fund accounts", "vm/contracts/dex/account.go; fund_storage.go"), ("settlement", "vm/contracts/dex/fund_settle.go")],
 "fund storage, order book and contract balances after every call")
prop("C16", "Order matching respects price-time priority and never leaves a crossed book",
 "A taker order trades with the best opposite price first and with the earliest order at equal price, always at the maker's price and within the taker's limit, never for more than either side's remaining quantity. Afterwards no buy price in the book reaches any sell price, and every order's executed amounts equal the sum of its trades.",
 ["order sequences"],
 "for every sequence of new and cancelled orders in a market",
 "Priority and rounding interplay needs many orders at related prices.",
 ["vm/contracts/dex/matcher.go", "vm/contracts/dex/leveldb_book.go", "vm/contracts/dex/order.go", "vm/contracts/dex/trade_helper.go"],
 [("matcher", "vm/contracts/dex/matcher.go"), ("order key encoding", "vm/contracts/dex/order.go")],
 "transaction and order events emitted by the matcher, against a reference book")
# ---------------------------------------------------------------- codecs
prop("C17", "Contract argument encoding round-trips and rejects malformed data safely",
 "Encoding any values of any supported argument types and decoding them yields the same values in the standard layout, and decoding arbitrary bytes either fails cleanly or yields values that re-encode consistently; it never panics, reads out of bounds or allocates without bound.",
 ["types", "values", "byte strings"],
 "for every type expression, every value of it and every byte string presented to the decoder",
 "Nested dynamic types and hostile offsets form an unbounded input space.",
 ["vm/abi"], [("pack and unpack", "vm/abi/pack.go; vm/abi/unpack.go; vm/abi/argument.go")],
 "encoded bytes against a reference encoder; decoder results on mutated bytes")
prop("C18", "Block hashes commit to every field and serialization loses nothing",
 "Changing any consensus-relevant field of an account or snapshot block changes its hash, and serializing then deserializing a block (for disk or wire) reproduces every field. Deserializing arbitrary bytes never crashes.",
 ["blocks", "field mutations", "byte strings"],
 "for every block of every type with any combination of optional fields, every field mutation and every byte string",
 "Field combinations and fork-dependent hashing are too many to list in tests.",
 ["interfaces/core/account_block.go", "interfaces/core/snapshot_block.go", "interfaces/core/vm_log.go", "common/vitepb"],
 [("hash computation", "interfaces/core"), ("protobuf conversion", "interfaces/core")],
 "hashes and decoded blocks")
prop("C19", "Signatures, key derivation and hashing are sound primitives",
 "A signature verifies exactly under the key and message it was made for, and no altered signature, message or key verifies; hashes and signatures agree with the published algorithms for every input length and chunking.",
 ["keys", "messages", "mutations"],
 "for every key, message, chunking and single-bit alteration",
 "Input spaces are unbounded and errors hide at block boundaries.",
 ["crypto/ed25519", "crypto/crypto.go", "crypto/hash.go", "crypto/vrf"],
 [("ed25519 with blake2b", "crypto/ed25519"), ("hash helpers", "crypto/hash.go")],
 "results against independent implementations")
prop("C20", "Identifiers have one text form each and corrupted forms are rejected",
 "Every address, token id, hash and group id converts to text, bytes and JSON and back to itself, distinct identifiers never share a form, and a text form with an altered character is rejected rather than read as a different identifier (unless its short checksum happens to match; letter case of hex digits is not significant). Prefixed hex texts of byte strings and numbers likewise have one form each and come back as the same value.",
 ["identifiers", "character mutations"],
 "for every identifier value and every mutation of its text form",
 "All values and mutations cannot be listed.",
 ["common/types", "common/hexutil", "common/helper"],
 [("checksummed encodings", "common/types/address.go; common/types/tokentypeid.go")],
 "conversion results")
# ---------------------------------------------------------------- storage
prop("C21", "The embedded key-value store behaves like an ordered map, also after a crash",
 "Reads, snapshots and iterators (forward, backward, ranged) return exactly what an ordered map with atomic write batches would, under concurrent use, through compaction and reopening. After a crash, every batch is present entirely or not at all, synced batches are present, and nothing ever deleted or overwritten reappears.",
 ["operation histories", "schedules", "crash points"],
 "for every operation history, thread schedule, crash point and torn tail of the log",
 "Compaction, iteration and recovery interleave; tests fix one order.",
 ["common/db/xleveldb"], [("LSM store", "common/db/xleveldb")],
 "results compared with a model map, crash images taken from a recording storage")
prop("C22", "The layered write store shows a consistent view before and after flush",
 "At every moment reads and iterators through the ledger's buffered store return the latest inserted value or absence for every key, merging unconfirmed, confirmed, flushing and flushed layers, and flushing, cancelling or recovering never loses, duplicates or reorders a write.",
 ["operation histories", "flush points", "crash points"],
 "for every history of batched writes, deletes, rollbacks, snapshots and flush steps, and every crash point between the flush steps",
 "Layer interplay depends on when keys were written relative to a flush in progress.",
 ["ledger/chain/db", "ledger/chain/flusher"], [("store layers", "ledger/chain/db"), ("flush protocol", "ledger/chain/flusher/flusher.go")],
 "reads and iterators compared with a model map")
prop("C23", "Block files return what was written, across file boundaries and rollback",
 "Every block written to the block files can be read back at its location and in sequence, rollback removes exactly the blocks after the given point, and restart or crash recovery never yields a damaged or phantom block.",
 ["block sizes", "file sizes", "rollback points", "crash points"],
 "for every sequence of block sizes relative to the file size, every rollback point, flush and reopen",
 "Boundary straddling and partial flush combinations are numerous.",
 ["ledger/chain/block", "ledger/chain/file_manager"], [("file manager", "ledger/chain/file_manager"), ("block db", "ledger/chain/block")],
 "read results compared with the written list")
# ---------------------------------------------------------------- consensus
prop("C24", "Producer schedule is a deterministic, fair function of votes, seed and time",
 "For every time, exactly one producer is scheduled, all nodes with the same ledger compute the same schedule, slots tile time without gap or overlap, and each elected producer gets its equal number of slots per round. Only the scheduled producer at its slot passes verification.",
 ["vote distributions", "seeds", "times"],
 "for every vote distribution, random seed and time",
 "Selection depends on all votes and the seed; tests use a fixed few.",
 ["ledger/consensus/core", "ledger/consensus"], [("vote algorithm", "ledger/consensus/core/vote_algo.go"), ("time index", "ledger/consensus/core/time_index.go")],
 "computed schedules compared with invariants and a second computation")
# ---------------------------------------------------------------- pool
prop("C25", "The pool's block tree stays a valid tree through forks, switches and pruning",
 "However blocks arrive, every branch in the pool is a contiguous chain rooted in its parent, no block exists on two branches, the main branch always extends the stored chain, and switching or pruning branches loses no reachable block of the chosen branch.",
 ["operation histories"],
 "for every sequence of appends, forks, main switches, root advances and rollbacks",
 "Fork shapes are unbounded.",
 ["ledger/pool/tree"], [("branch tree", "ledger/pool/tree")], "tree walks compared with a model tree")
prop("C26", "Batched insertion respects every dependency and loses no block",
 "When queued blocks are grouped for parallel insertion, no block is handed to execution before all blocks it depends on, account order and snapshot barriers are kept, every accepted block is executed exactly once, and a failure stops everything that depends on it.",
 ["dependency graphs", "schedules", "failures"],
 "for every dependency graph, worker schedule and failing block",
 "Parallel schedules are not controlled by tests.",
 ["ledger/pool/batch"], [("batch levels and executor", "ledger/pool/batch")], "execution trace of the batch")
prop("C27", "Pending contract calls are delivered in order and exactly once",
 "For each contract, pending calls are handed out once each, calls of one caller in the caller's order, and after any insertions, receives and rollbacks in any order the pending set is exactly the unreceived calls.",
 ["histories", "rollbacks"],
 "for every history of sends, receives, deletions and lock/unlock of callers",
 "Order and rollback combinations are unbounded.",
 ["ledger/onroad/pool"], [("contract onroad pool", "ledger/onroad/pool")], "pool queries compared with a model")
prop("C28", "A node converges to the heaviest valid chain however blocks arrive",
 "Blocks arriving from the network in any order, duplicated, delayed, along competing forks or mixed with invalid ones, are eventually inserted so that the node ends with exactly the longest valid snapshot chain and its account blocks, with the same state as a node that received them in order.",
 ["arrival orders", "forks"],
 "for every arrival order, duplication and fork shape",
 "Arrival orders are factorial.",
 ["ledger/pool"], [("snapshot/account pools", "ledger/pool")], "final chain compared with an in-order node")
# ---------------------------------------------------------------- other parts
prop("C29", "Wallet keys are recoverable with the password or mnemonic only",
 "An entropy store opens with its password and no other, always yields the same mnemonic and addresses, an altered file never crashes the wallet or yields other keys, a store being replaced can be read completely at every moment, and derived keys follow the published derivation for every path.",
 ["entropies", "passwords", "file mutations", "paths"],
 "for every entropy, password, derivation path and file corruption",
 "Unbounded inputs.", ["wallet"], [("entropy store", "wallet/entropystore"), ("hd derivation", "wallet/hd-bip")], "results against references")
prop("C30", "Peer discovery ignores forged or malformed packets and keeps its table sane",
 "Only packets with a valid signature are accepted and attributed to the signing node, malformed packets never crash the node, and the node table never exceeds its bucket limits, holds duplicates or returns nodes that are not the closest known.",
 ["packets", "table histories"],
 "for every packet and every history of node additions, failures and lookups",
 "Byte strings and table histories are unbounded.", ["net/discovery", "net/vnode"], [("packet codec", "net/discovery/message.go"), ("table", "net/discovery/table.go")], "decoder results, table contents against a model")
prop("C31", "Peer messages survive transport unchanged and hostile bytes are contained",
 "Any message written to a peer connection arrives with identical code, id and payload however the stream is fragmented, and arbitrary bytes from a peer produce an error, never a crash, unbounded allocation or a wrong message.",
 ["messages", "fragmentations", "byte strings"],
 "for every message, every fragmentation and every byte stream",
 "Streams are unbounded.", ["net/codec.go", "net/message.go", "net"], [("frame codec", "net/codec.go"), ("message encodings", "net/message.go")], "decoded messages")
prop("C32", "RPC requests get exactly one matching answer and bad input is contained",
 "Every well-formed request gets exactly one response with its id carrying the method's result or error, batches are answered completely, subscriptions deliver only after being confirmed, and malformed input yields a JSON-RPC error without affecting other requests.",
 ["request streams", "concurrency"],
 "for every request stream, batch shape, concurrent client and malformed text",
 "Concurrent streams are unbounded.", ["rpc"], [("server and codec", "rpc/server.go; rpc/json.go")], "responses on client connections")
prop("C33", "Downloaded chunk cache stores verified ranges only and never mixes them",
 "The sync cache reports exactly the chunk ranges written completely, returns their bytes unchanged, never reports overlapping or partially written chunks, and keeps this across reopening and deletion.",
 ["histories", "crash points"],
 "for every sequence of writes, aborted writes, deletes and reopens",
 "Histories unbounded.", ["ledger/chain/sync_cache"], [("sync cache", "ledger/chain/sync_cache")], "segment lists and read-back data against a model")
prop("C34", "Shared containers behave as their abstract type",
 "The linked list, unique list, circular list and map, blocking queue, ticket pool, topological sort, bloom filter, spin lock and condition variables used across the node behave exactly as their abstract type for every operation sequence and under concurrent use: nothing is lost, duplicated or reordered, a filter never denies an element it was recently given, and closing or notifying releases every waiter.",
 ["operation sequences", "schedules"],
 "for every operation sequence and thread schedule",
 "Histories and schedules are unbounded.", ["tools", "common/bloom", "common/condTimeout.go", "common/condTimer.go", "common/lock.go"],
 [("containers", "tools/list; tools/unique_list; tools/circle; tools/queue; tools/ticket; tools/toposort"), ("filter", "common/bloom")], "results against a model")

prop("C36", "Only authentic peers are admitted, answered truthfully, and relay blocks once",
 "Only a connection that proves the key of the identity it claims, in the same network and genesis, within the peer limit and not yet connected, becomes a peer, and it stays one until it leaves. A well-formed request for blocks, hashes or chunks is answered with exactly the asked part of the node's ledger, or with an exception if it is missing. A valid broadcast block is handed to the subscribers exactly once, whatever forged copies precede it, and an invalid one never.",
 ["handshakes", "requests", "peer schedules"],
 "for every handshake, request, broadcast and interleaving of peers",
 "Peers, their messages and their interleavings are unbounded; the tests use mocks.",
 ["net"], [("handshake and admission", "net/handshaker.go; net/net.go"), ("serving", "net/msghandler.go; net/sync_server.go"), ("relaying", "net/broadcaster.go; net/block_feed.go")],
 "messages seen by peers connected over loopback and blocks handed to subscribers, against the node's ledger")

if __name__ == "__main__":
    ids = set()
    for p in P:
        assert p["id"] not in ids; ids.add(p["id"])
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
