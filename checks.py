"""Which monitor decides which property."""


def part(name, pkg=None, **kw):
    d = {"name": name, "pkg": "zverif/" + (pkg or name)}
    d.update(kw)
    return d


def ledger(prop, **kw):
    return part("ledger", args=[prop], **kw)


CHECKS = {}


def check(prop, technique, note, parts, level="exploration", **kw):
    CHECKS[prop] = dict(parts=parts, technique=technique, level=level, note=note, **kw)


check("C01", "runtime monitor: random hostile histories on the real node core, conservation checked against a shadow ledger after every step",
      "sampled histories (about 160 x 260 steps quick); built-in asset, quota and governance contracts and generated user contracts; the exchange is covered by C15",
      [ledger("C01")])
check("C02", "runtime monitor: account-chain and receive-relation checker over a shadow ledger, plus injected hostile receives",
      "sampled histories; unreceived set compared through the store and the index after every step, rollbacks and restarts included",
      [ledger("C02")])
check("C03", "runtime monitor: full-state fingerprints recorded at every snapshot, compared after every rollback and replay",
      "fingerprint covers every account, balance, storage key, log, unreceived set, contract metadata, quota window; sampled histories",
      [ledger("C03")])
check("C05", "runtime monitor: cross-query consistency checker over the real store layers",
      "every stored block asked for through every query path in unflushed, flushed and reopened state; sampled histories",
      [ledger("C05")])
check("C06", "runtime monitor: differential execution on an independent peer node, with systematic forgeries",
      "about 60 kinds of forgery per sampled block; random topological delivery orders",
      [ledger("C06")])
check("C07", "runtime monitor: historical reads compared with the state recorded when each snapshot was latest",
      "sampled histories, reads up to the retention the node keeps; with and without the consensus read cache",
      [ledger("C07")])
check("C08", "runtime monitor: every contract call compared with effects computed by an independent model of the called contract",
      "generated contracts whose effects are chosen by calldata; failure kinds revert, invalid, out of quota, stack, jump, insufficient funds; built-ins for refunds and untouched storage",
      [ledger("C08")])
check("C04", "runtime monitor: crash images taken at every step of real flushes (with injected faults and work in progress), reopened and compared with the state an independent node had",
      "process-kill model: everything written before the kill is on disk, plus redo logs torn at any byte; about 1700 images per quick run; power loss that reorders unsynced writes is not modelled",
      [ledger("C04")])
check("C27", "runtime monitor: calls offered to every contract compared with the unreceived calls of a shadow ledger after every step; the node's own contract worker run concurrently with new calls, snapshots and rollbacks",
      "about 120 histories x 200 steps and a dozen concurrent worker runs per quick run",
      [ledger("C27")])
check("C24", "runtime monitor: schedules, producer verification and production statistics of a real node compared with an independent election over the same ledger, through votes, missed slots, time jumps, rollbacks and restarts, and again on a fresh node; election and slot arithmetic compared over random configurations",
      "about 130 histories and 20000 elections per quick run; groups whose round does not divide the hour are not judged; times before genesis are not judged; registrations, votes and balances at a snapshot are taken from the ledger (C07 judges those)",
      [part("sched"), ledger("C24")])

check("C35", "race detector on a real node under concurrent load: one writer (inserts, snapshots, rollbacks), a flusher and four readers; every reader's answer compared with the answers recorded at the commits around it, plus a watchdog for calls that never return",
      "about 14 histories of 110 steps per quick run under -race; while blocks are being removed single values must have been held at some time and collections are not judged; nodes do not restart during a history",
      [ledger("C35", race=True)])


def codec(prop, **kw):
    return part("codec", args=[prop], **kw)


check("C17", "runtime monitor: the real encoder and decoder run on generated and hostile arguments, compared with an independent encoder; guard bytes behind every input",
      "about 80000 argument lists and their mutants per quick run, all built-in contract descriptions and hostile descriptions; lists of variable-length elements are a known finding",
      [codec("C17")])
check("C18", "runtime monitor: block hashes recomputed by an independent BLAKE2b over independently assembled fields, all one-field variants, round trips and hostile bytes",
      "about 50000 generated blocks per quick run; fields outside the hash by design (quota, difficulty, public key) are excluded from the commitment claim",
      [codec("C18")])
check("C19", "runtime monitor: results of the real primitives compared with independent big-integer implementations; altered signatures, messages and keys must fail",
      "BLAKE2b, Keccak, Ed25519, X25519, AES-GCM/CTR use, bounded sample of lengths 0..1100 and all chunkings drawn at random",
      [codec("C19")])
check("C20", "runtime monitor: identifiers converted through every form and back, every single-character alteration tried",
      "sampled identifiers; an altered form whose short checksum genuinely matches is not counted as a violation",
      [codec("C20")])


def vmref(prop, **kw):
    return part("vmref", args=[prop], **kw)


check("C09", "runtime monitor: the real virtual machine executes generated programs, stack, memory, storage, logs and sends dumped and compared with an independent interpreter",
      "about 60000 programs per quick run over all instructions, boundary operands, aliased operands, three execution modes; latest instruction set",
      [vmref("C09")])
check("C10", "runtime monitor: hostile code run twice under quotas chosen around its exact cost; panics, quota, effects and repetition compared with an independent interpreter",
      "about 30000 programs per quick run: random bytes, mutated programs, endless loops, exact and near-exact quota; calls to built-in contracts only checked for repetition",
      [vmref("C10")])

check("C11", "runtime monitor: quota charged and available recomputed by a model of the 75-snapshot window after every step of random histories (work, stake, spending to the limit, rollbacks, restarts); the quota computation itself run on generated accounts under congestion, blocking and proof of work",
      "about 90 histories with 130000 account windows compared, and 150000 generated accounts per quick run; stake, difficulty and congestion lists pinned to the published ones",
      [ledger("C11"), part("quota")])


def store(prop, **kw):
    return part("store", args=[prop], **kw)


check("C21", "runtime monitor: random histories on the real store compared with an ordered map after every operation, through compaction, transactions, snapshots and reopening; crash images taken from a storage that tracks what was synced; concurrent writers and readers, also under the race detector",
      "about 1100 histories and 4000 crash images per quick run, over random option sets; crash models: kill, torn newest journal, unsynced tails lost; storage errors (full disk, bad sectors) are not injected",
      [store("C21"), part("race", "store", args=["C21race"], race=True)])
check("C33", "runtime monitor: random histories of chunk writes, deletes, clean stops and kills on the real cache compared with a list of ranges, every chunk read back, damaged files read; concurrent downloads under the race detector",
      "about 700 histories and 6000 reopens per quick run; a chunk counts as complete when its writer was closed (the downloader deletes a chunk that ended early)",
      [store("C33"), part("race", "store", args=["C33race"], race=True)])
check("C22", "runtime monitor: random histories of block writes, confirmations, direct writes and both kinds of rollback on several real stores under the real flusher, with more writes and crash copies between the flush steps and injected redo-log and commit failures; after every step all reads and iterators compared with a model of the layers; readers against the flush loop under the race detector",
      "about 260 histories with 2000 flushes, 2000 crash recoveries and 35000 whole-store comparisons per quick run; rollback batches are exact inverses, as the chain makes them; an iterator kept open over a flush is not judged",
      [store("C22"), part("race", "store", args=["C22race"], race=True)])
check("C23", "runtime monitor: random histories of chunk writes, rollbacks, split flush steps, cancelled flushes and reopens on real block files with file sizes from far below to far above one block; every block read back by location, in sequence, by chunk and by range; crash images of every commit recovered from the redo log; concurrent readers",
      "about 600 histories with 2600 commits, 850 crash images, 4000 rollbacks and 400000 block reads per quick run; crash model: files written in order, the current one cut anywhere, removals last",
      [store("C23")])


def builtin(prop, **kw):
    return part("builtin", args=[prop], **kw)


check("C12", "runtime monitor: random histories of stake, cancel, delegate and callback calls on the real quota contract over an in-memory ledger, compared with a model of every stake record after every call",
      "about 4000 histories per quick run over every upgrade version; all method generations of the contract",
      [builtin("C12")])
check("C13", "runtime monitor: random histories of issue, reissue, burn, ownership and configuration calls on the real asset contract, compared with a model of every token after every call",
      "about 4000 histories per quick run over every upgrade version; supply compared with what the contract let exist",
      [builtin("C13")])
check("C14", "runtime monitor: random histories of registration, revocation, voting, names and reward withdrawals on the real governance contract, compared with a model of registrations, votes and days paid",
      "about 4000 histories per quick run over every upgrade version; block production statistics are generated; withdrawals received out of order are a known finding",
      [builtin("C14")])

check("C15", "runtime monitor: random histories of deposits, withdrawals, transfers, orders, agents, cancels, stakes, VX locks and period jobs on the real exchange contracts; every user's fund record, the open orders' locks and the contract's balances compared with a model after every call",
      "about 700 histories (120000 calls) per quick run over every upgrade version; mining, dividend and stake answers are held to solvency, not to an exact amount",
      [builtin("C15")])
check("C16", "runtime monitor: random orders and cancels through the real matcher; every trade, event, settlement and the whole book compared with a reference book in exact arithmetic",
      "about 700 histories (50000 matcher calls) per quick run over every upgrade version; amounts within one unit of the exact value where the contract computes with limited precision",
      [builtin("C16")])

check("C25", "runtime monitor: random histories of adds, forks, root moves, branch switches and prunes on the real branch tree and on the block pool over it, every branch walked and compared with a model of the tree after every operation",
      "about 6000 tree histories (300000 operations) and 4000 pool histories per quick run",
      [part("pooltree", args=["C25"]), part("poolbc", inpkg=["ledger/pool"], optional=True)])
check("C26", "runtime monitor: random blocks with cross references put into real batches and executed by the real parallel executor, with delays and injected failures; start and end of every insertion recorded and checked against the dependencies; also under the race detector",
      "about 24000 batches per quick run",
      [part("pooltree", args=["C26"]), part("race", "pooltree", args=["C26race"], race=True)])

check("C34", "runtime monitor: random operation sequences on every container compared with a model after each operation; concurrent producers, consumers, holders and waiters checked for loss, order and release, also under the race detector",
      "about 760000 operations per quick run; the filter is held to its last n/2 elements, the number one generation holds at least",
      [part("containers", args=["C34"]), part("race", "containers", args=["C34race"], race=True)])

check("C31", "runtime monitor: messages of all sizes through the real framing over fragmented streams, all message encodings round-tripped, hostile streams compared with an independent parser while allocation is watched; hostile handshakes, requests and byte streams against a real node over loopback while an honest peer is served",
      "about 10000 framed messages, 4000 encodings with 24000 damaged variants, 3000 hostile streams and 2500 hostile sessions per quick run",
      [part("netpeer", args=["C31"]), part("node", "netpeer", args=["C31node"])])
check("C36", "runtime monitor: a real network service on a real ledger over loopback; handshakes, requests, chunk downloads, twin connections, neighbour reports and broadcasts by scripted peers, every answer and delivery compared with the ledger",
      "about 500 requests, 40 forged handshakes, 24 twin connections and 40 broadcast blocks per quick run; the peer limit is checked with connections made one after another",
      [part("netpeer", args=["C36"])])

check("C29", "runtime monitor: the real wallet over generated entropies, passwords, paths, mnemonics and altered store files, compared with an independent implementation of BIP-39, the hardened ed25519 derivation and the store format; whole store lives (make, reopen, unlock, sign, lock, recover) with the real key stretching",
      "36000 paths, 300 stores, 12000 altered files and 18 store lives per quick run; passwords that HMAC itself cannot tell apart (trailing zero bytes, over 64 bytes) are not generated",
      [part("walletc")])
check("C30", "runtime monitor: the real discovery service over loopback UDP under good, forged, old and malformed packets, floods and lookups, judged by its replies and node table; random and concurrent histories of the node table with harness-controlled liveness checks, the whole table judged after each operation",
      "about 2900 hostile packets, 960 lookups and 150000 table operations per quick run; packet replay within the validity time is not judged",
      [part("discv"), part("discvtab", inpkg=["net/discovery"], optional=True)])

check("C32", "runtime monitor + race detector: the real RPC server behind HTTP, websocket, IPC and in-process transports under pipelined valid and malformed messages, batches, subscriptions and dropped connections from concurrent clients; every answer matched with its request and the predicted result or error",
      "Answers are predicted from an instrumented service whose methods echo, add, fail, panic, sleep and notify.",
      [part("rpcsrv", race=True)])

check("C28", "runtime monitor: the real block pool on a real ledger fed the blocks of histories with abandoned branches in hostile orders, with losses, duplicates, forged blocks, lossy fetches and sync chunks; the node must end at the head of the longest valid chain and its whole state is compared with a node that got the blocks in order",
      "64 histories (about 11000 blocks, 80 abandoned branches) per quick run; the longest chain leads by the four snapshots a switch may need; leftovers of other branches that are still valid are removed before comparing",
      [part("pooln")])
