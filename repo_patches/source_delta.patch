From f3b43ce43ee02176d8b809c649890a51d195855c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:27 +0000
Subject: [PATCH 01/71] fix: keep onroad callers per contract

deleteOnRoadTx dropped the caller for every contract as soon as its last
pending call to one contract was received, so its pending calls to other
contracts were no longer handed out until it sent again or the node restarted.
---
 ledger/onroad/pool/storage.go | 40 +++++++++++++++++------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/ledger/onroad/pool/storage.go b/ledger/onroad/pool/storage.go
index 553b189..77dcd91 100644
--- a/ledger/onroad/pool/storage.go
+++ b/ledger/onroad/pool/storage.go
@@ -40,22 +40,29 @@ type onroadStorage struct {
 	db *leveldb.DB
 
 	mu      sync.RWMutex
-	callers sync.Map
+	callers map[types.Address]map[types.Address]struct{} // contract -> callers with pending calls to it
 }
 
 func newOnroadStorage(db *leveldb.DB) *onroadStorage {
 	return &onroadStorage{
-		db: db,
-		mu: sync.RWMutex{},
+		db:      db,
+		mu:      sync.RWMutex{},
+		callers: make(map[types.Address]map[types.Address]struct{}),
 	}
 }
 
-func (storage *onroadStorage) addCaller(caller types.Address) error {
-	storage.callers.Store(caller, 0)
-	return nil
+func (storage *onroadStorage) addCaller(addr, caller types.Address) {
+	if storage.callers[addr] == nil {
+		storage.callers[addr] = make(map[types.Address]struct{})
+	}
+	storage.callers[addr][caller] = struct{}{}
 }
-func (storage *onroadStorage) removeCaller(caller types.Address) {
-	storage.callers.Delete(caller)
+
+func (storage *onroadStorage) removeCaller(addr, caller types.Address) {
+	delete(storage.callers[addr], caller)
+	if len(storage.callers[addr]) == 0 {
+		delete(storage.callers, addr)
+	}
 }
 
 func (storage *onroadStorage) insertOnRoadTx(tx OnroadTx) error {
@@ -64,7 +71,7 @@ func (storage *onroadStorage) insertOnRoadTx(tx OnroadTx) error {
 
 	// fmt.Println("add on road tx", tx.String())
 
-	storage.addCaller(tx.FromAddr)
+	storage.addCaller(tx.ToAddr, tx.FromAddr)
 	// batch.Put(tx.toOnroadHeightKey().Bytes(), tx.toOnroadHeightValue())
 	return storage.db.Put(tx.toOnroadHeightKey().Bytes(), tx.toOnroadHeightValue(), nil)
 }
@@ -85,7 +92,7 @@ func (storage *onroadStorage) deleteOnRoadTx(tx OnroadTx) error {
 		return err
 	}
 	if len(txs) == 0 {
-		storage.removeCaller(tx.FromAddr)
+		storage.removeCaller(tx.ToAddr, tx.FromAddr)
 	}
 	return nil
 }
@@ -109,23 +116,16 @@ func (storage *onroadStorage) GetAllFirstOnroadTx(addr types.Address) (map[types
 	defer storage.mu.RUnlock()
 
 	result := make(map[types.Address][]OnroadTx)
-	var resultErr error
 
-	storage.callers.Range(func(key interface{}, val interface{}) bool {
-		caller := key.(types.Address)
+	for caller := range storage.callers[addr] {
 		txs, err := storage.getFirstOnroadTx(addr, caller)
 		if err != nil {
-			resultErr = err
-			return false
+			return nil, err
 		}
 		if len(txs) == 0 {
-			return true
+			continue
 		}
 		result[caller] = txs
-		return true
-	})
-	if resultErr != nil {
-		return nil, resultErr
 	}
 	return result, nil
 }
-- 
2.43.0


From 5b5334ea16c715fd95de93fcab055008e2909c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:48 +0000
Subject: [PATCH 02/71] fix: do not count a snapshot twice in the quota window
 after a rollback

Rebuilding a short quota list after a rollback re-added the oldest snapshot
block already in it, so accounts were granted one snapshot's quota too much.
---
 ledger/chain/cache/quota_list.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ledger/chain/cache/quota_list.go b/ledger/chain/cache/quota_list.go
index 5625588..9679eb2 100644
--- a/ledger/chain/cache/quota_list.go
+++ b/ledger/chain/cache/quota_list.go
@@ -291,14 +291,15 @@ func (ql *quotaList) build() (returnError error) {
 			ql.list.PushBack(newItem)
 		}
 	} else {
-		snapshotSegments, err = ql.chain.GetSubLedger(startSbHeight, endSbHeight)
+		// the snapshot block at endSbHeight is the oldest one that is in the list already
+		snapshotSegments, err = ql.chain.GetSubLedger(startSbHeight, endSbHeight-1)
 		if err != nil {
 			return err
 		}
 
 		if snapshotSegments == nil {
 			return fmt.Errorf("ql.chain.GetSubLedger, snapshotSegments is nil, startSbHeight is %d, endSbHeight is %d",
-				startSbHeight, endSbHeight)
+				startSbHeight, endSbHeight-1)
 		}
 
 		segLength := len(snapshotSegments)
-- 
2.43.0


From 3805c1696d44cbf600a99411bbe534b790ac9f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:38 +0000
Subject: [PATCH 03/71] fix: keep the contracts-of-a-group index in step with a
 rollback

---
 ledger/chain/state/delete.go | 15 ++++++++++++---
 ledger/chain/state/write.go  | 14 ++++++++------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/ledger/chain/state/delete.go b/ledger/chain/state/delete.go
index 2445ad5..816193d 100644
--- a/ledger/chain/state/delete.go
+++ b/ledger/chain/state/delete.go
@@ -268,7 +268,8 @@ func (sDB *StateDB) rollbackByRedo(batch *leveldb.Batch, snapshotBlock *ledger.S
 			}
 
 			// delete contract meta
-			for contractAddr := range redoLog.ContractMeta {
+			for contractAddr, metaBytes := range redoLog.ContractMeta {
+				batch.Delete(gidContractKeyOfMeta(contractAddr, metaBytes))
 				sDB.deleteContractMeta(batch, chain_utils.CreateContractMetaKey(contractAddr).Bytes())
 			}
 
@@ -408,7 +409,7 @@ func (sDB *StateDB) rollbackAccountBlock(batch *leveldb.Batch, accountBlock *led
 
 	// delete contract meta
 	if accountBlock.BlockType == ledger.BlockTypeSendCreate {
-		sDB.deleteContractMeta(batch, chain_utils.CreateContractMetaKey(accountBlock.ToAddress).Bytes())
+		sDB.rollbackContractMeta(batch, accountBlock.ToAddress)
 	}
 
 	// delete log hash
@@ -421,7 +422,7 @@ func (sDB *StateDB) rollbackAccountBlock(batch *leveldb.Batch, accountBlock *led
 		batch.Delete(chain_utils.CreateCallDepthKey(sendBlock.Hash).Bytes())
 
 		if sendBlock.BlockType == ledger.BlockTypeSendCreate {
-			sDB.deleteContractMeta(batch, chain_utils.CreateContractMetaKey(sendBlock.ToAddress).Bytes())
+			sDB.rollbackContractMeta(batch, sendBlock.ToAddress)
 		}
 	}
 
@@ -629,6 +630,14 @@ func (sDB *StateDB) compactHistoryStorage() {
 
 }
 
+// rollbackContractMeta deletes the meta of a contract and its entry in the group index
+func (sDB *StateDB) rollbackContractMeta(batch interfaces.Batch, addr types.Address) {
+	if meta, err := sDB.GetContractMeta(addr); err == nil && meta != nil {
+		batch.Delete(chain_utils.CreateGidContractKey(meta.Gid, &addr).Bytes())
+	}
+	sDB.deleteContractMeta(batch, chain_utils.CreateContractMetaKey(addr).Bytes())
+}
+
 func (sDB *StateDB) deleteContractMeta(batch interfaces.Batch, key []byte) {
 	batch.Delete(key)
 
diff --git a/ledger/chain/state/write.go b/ledger/chain/state/write.go
index 036b0ad..503173f 100644
--- a/ledger/chain/state/write.go
+++ b/ledger/chain/state/write.go
@@ -158,14 +158,9 @@ func (sDB *StateDB) WriteByRedo(blockHash types.Hash, addr types.Address, redoLo
 	for addr, metaBytes := range unsavedContractMeta {
 		contractKey := chain_utils.CreateContractMetaKey(addr)
 
-		gidContractKey := make([]byte, 0, 1+types.AddressSize+types.GidSize)
-		gidContractKey = append(gidContractKey, chain_utils.GidContractKeyPrefix)
-		gidContractKey = append(gidContractKey, addr.Bytes()...)
-		gidContractKey = append(gidContractKey, metaBytes[:types.GidSize]...)
-
 		sDB.writeContractMeta(batch, contractKey.Bytes(), metaBytes)
 
-		batch.Put(gidContractKey, nil)
+		batch.Put(gidContractKeyOfMeta(addr, metaBytes), nil)
 		// set
 	}
 
@@ -252,6 +247,13 @@ func (sDB *StateDB) InsertSnapshotBlock(snapshotBlock *ledger.SnapshotBlock, con
 
 }
 
+// gidContractKeyOfMeta returns the group index key of a contract with the given serialized meta
+func gidContractKeyOfMeta(addr types.Address, metaBytes []byte) []byte {
+	var gid types.Gid
+	copy(gid[:], metaBytes[:types.GidSize])
+	return chain_utils.CreateGidContractKey(gid, &addr).Bytes()
+}
+
 func (sDB *StateDB) writeContractMeta(batch interfaces.Batch, key, value []byte) {
 	batch.Put(key, value)
 
-- 
2.43.0


From edeb2cd2da987e2510a3e4b139274a9413a623f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:38 +0000
Subject: [PATCH 04/71] fix: restart the quota window when a rollback empties
 it

---
 ledger/chain/cache/quota_list.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ledger/chain/cache/quota_list.go b/ledger/chain/cache/quota_list.go
index 9679eb2..0b0ffa0 100644
--- a/ledger/chain/cache/quota_list.go
+++ b/ledger/chain/cache/quota_list.go
@@ -223,6 +223,9 @@ func (ql *quotaList) build() (returnError error) {
 			return
 		}
 		if ql.list.Len() <= 0 {
+			// nothing is left of the old window
+			ql.usedStart = nil
+			ql.globalUsed = types.QuotaInfo{}
 			return
 		}
 		ql.backElement = ql.list.Back().Value.(map[types.Address]*quotaInfo)
-- 
2.43.0


From 703d771078b6057263a99f061fcfb1ea65e6a012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:46 +0000
Subject: [PATCH 05/71] fix: do not loop forever when the header before a
 sub-second time is asked for

---
 ledger/chain/snapshot_block.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ledger/chain/snapshot_block.go b/ledger/chain/snapshot_block.go
index 8ea8531..821a397 100644
--- a/ledger/chain/snapshot_block.go
+++ b/ledger/chain/snapshot_block.go
@@ -360,7 +360,11 @@ func (c *chain) GetSnapshotHeaderBeforeTime(timestamp *time.Time) (*ledger.Snaps
 
 		} else {
 			lowBoundary = blockHeader
-			estimateHeight = blockHeader.Height + uint64(timeSec-blockHeader.Timestamp.Unix())
+			gap := uint64(timeSec - blockHeader.Timestamp.Unix())
+			if gap <= 0 {
+				gap = 1
+			}
+			estimateHeight = blockHeader.Height + gap
 			if estimateHeight > latest.Height {
 				highBoundary = latest
 			}
-- 
2.43.0


From 5d800a54af925e0a7c70c5cc6fe8985e88e38edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:46 +0000
Subject: [PATCH 06/71] fix: return the snapshot headers of the asked producer

---
 ledger/chain/snapshot_block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ledger/chain/snapshot_block.go b/ledger/chain/snapshot_block.go
index 821a397..152ec8c 100644
--- a/ledger/chain/snapshot_block.go
+++ b/ledger/chain/snapshot_block.go
@@ -411,7 +411,7 @@ func (c *chain) GetSnapshotHeadersAfterOrEqualTime(endHashHeight *ledger.HashHei
 		var result = make([]*ledger.SnapshotBlock, 0, len(snapshotHeaders)/75+3)
 		for _, snapshotHeader := range snapshotHeaders {
 			if snapshotHeader.Producer() == *producer {
-				result = append(result)
+				result = append(result, snapshotHeader)
 			}
 		}
 		return result, nil
-- 
2.43.0


From ad7d22e1f109a2299bb7f7bbb8d1dff216e6461b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:44 +0000
Subject: [PATCH 07/71] fix: elect in a group with a single node without
 running out of the slice

---
 ledger/consensus/core/vote_algo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ledger/consensus/core/vote_algo.go b/ledger/consensus/core/vote_algo.go
index 6bce6fa..ccb7c2e 100644
--- a/ledger/consensus/core/vote_algo.go
+++ b/ledger/consensus/core/vote_algo.go
@@ -238,7 +238,7 @@ func (self *algo) filterBySuccessRate(groupA, groupB []*Vote, height *ledger.Has
 		return groupA, groupB
 	}
 	obsoletedNum := 2
-	if len(successRate) < obsoletedNum {
+	if len(successRate) < obsoletedNum || len(groupA) < obsoletedNum {
 		return groupA, groupB
 	}
 
-- 
2.43.0


From e4a0cca12d5f12b5e64909dd30af9eb74d72622a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:43 +0000
Subject: [PATCH 08/71] fix: apply the redo logs of a round in ascending order

---
 ledger/chain/state/round_cache.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ledger/chain/state/round_cache.go b/ledger/chain/state/round_cache.go
index 0442517..f7c38fc 100644
--- a/ledger/chain/state/round_cache.go
+++ b/ledger/chain/state/round_cache.go
@@ -3,6 +3,7 @@ package chain_state
 import (
 	"fmt"
 	"math/big"
+	"sort"
 	"sync"
 
 	leveldb "github.com/vitelabs/go-vite/v2/common/db/xleveldb"
@@ -736,10 +737,19 @@ func (cache *RoundCache) getRoundSnapshotBlocks(roundIndex uint64) ([]*ledger.Sn
 		panic(fmt.Sprintf("nextFirstSbRoundIndex should be smaller than roundIndex. nextFirstSbRoundIndex: %d, roundIndex: %d", nextFirstSbRoundIndex, roundIndex))
 	}
 
-	return cache.chain.GetSnapshotHeadersAfterOrEqualTime(&ledger.HashHeight{
+	snapshotBlocks, err := cache.chain.GetSnapshotHeadersAfterOrEqualTime(&ledger.HashHeight{
 		Hash:   currentLastSb.Hash,
 		Height: currentLastSb.Height,
 	}, &startTime, nil)
+	if err != nil {
+		return nil, err
+	}
+
+	// the chain returns the latest header first, redo logs must be applied in ascending order
+	sort.Slice(snapshotBlocks, func(i, j int) bool {
+		return snapshotBlocks[i].Height < snapshotBlocks[j].Height
+	})
+	return snapshotBlocks, nil
 }
 
 func (cache *RoundCache) setAllBalanceToCache(roundData *memdb.DB, snapshotHash types.Hash) error {
-- 
2.43.0


From 859aa83b478381f4a8d55d6b63b2ac730c0ed03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:12 +0000
Subject: [PATCH 09/71] fix: cancel a prepared flush when its redo log cannot
 be written

---
 ledger/chain/flusher/flusher.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ledger/chain/flusher/flusher.go b/ledger/chain/flusher/flusher.go
index a57d547..d4bd972 100644
--- a/ledger/chain/flusher/flusher.go
+++ b/ledger/chain/flusher/flusher.go
@@ -217,6 +217,7 @@ func (flusher *Flusher) flush() {
 	// write redo log
 	//flusher.log.Info("start write redo log")
 	if err := flusher.writeRedoLog(); err != nil {
+		flusher.cancelPrepare()
 		return
 	}
 	//flusher.log.Info("finish writing redo log")
@@ -438,6 +439,13 @@ func (flusher *Flusher) syncRedoLog() bool {
 
 	flusher.log.Error(fmt.Sprintf("sync failed. Error: %s", err.Error()), "method", "Flush")
 
+	flusher.cancelPrepare()
+
+	return false
+}
+
+// the redo log is incomplete or not durable, nothing can be committed
+func (flusher *Flusher) cancelPrepare() {
 	// cancel prepare, lock write
 	flusher.mu.Lock()
 
@@ -452,8 +460,6 @@ func (flusher *Flusher) syncRedoLog() bool {
 	if err := flusher.cleanRedoLog(); err != nil {
 		flusher.log.Error(err.Error(), "method", "Flush")
 	}
-
-	return false
 }
 
 func (flusher *Flusher) commit() error {
-- 
2.43.0


From 7c4f7aa2452537d119a63b00c448496c11d43cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:10 +0000
Subject: [PATCH 10/71] fix: abi: refuse argument types that have no name,
 exceed 32 fixed bytes or are absurdly large instead of panicking

---
 vm/abi/type.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/vm/abi/type.go b/vm/abi/type.go
index 547e889..d0727c8 100644
--- a/vm/abi/type.go
+++ b/vm/abi/type.go
@@ -1,11 +1,13 @@
 package abi
 
 import (
+	"math"
 	"reflect"
 	"regexp"
 	"strconv"
 	"strings"
 
+	"github.com/vitelabs/go-vite/v2/common/helper"
 	"github.com/vitelabs/go-vite/v2/common/types"
 )
 
@@ -85,6 +87,9 @@ func NewType(t string) (typ Type, err error) {
 			if size == 0 {
 				return Type{}, errInvalidZeroVariableSize
 			}
+			if size > math.MaxInt32 {
+				return Type{}, errUnsupportedArgType(t)
+			}
 			// is a array
 			typ.T = ArrayTy
 			typ.Kind = reflect.Array
@@ -97,7 +102,11 @@ func NewType(t string) (typ Type, err error) {
 		return typ, err
 	}
 	// parse the type and size of the abi-type.
-	parsedType := typeRegex.FindAllStringSubmatch(t, -1)[0]
+	matches := typeRegex.FindAllStringSubmatch(t, -1)
+	if len(matches) == 0 {
+		return Type{}, errUnsupportedArgType(t)
+	}
+	parsedType := matches[0]
 	// varSize is the size of the variable
 	var varSize int
 	if len(parsedType[2]) > 0 {
@@ -148,6 +157,8 @@ func NewType(t string) (typ Type, err error) {
 			typ.T = BytesTy
 			typ.Kind = reflect.Slice
 			typ.Type = reflect.SliceOf(reflect.TypeOf(byte(0)))
+		} else if varSize > helper.WordSize {
+			return Type{}, errUnsupportedArgType(t)
 		} else {
 			typ.T = FixedBytesTy
 			typ.Kind = reflect.Array
-- 
2.43.0


From 700a650026d7e9b1d3525dbf612b971d0e9c37f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:10 +0000
Subject: [PATCH 11/71] fix: abi: encoding a negative big integer must not
 overwrite the caller's value

---
 vm/abi/pack.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vm/abi/pack.go b/vm/abi/pack.go
index f88cc6c..d6ff840 100644
--- a/vm/abi/pack.go
+++ b/vm/abi/pack.go
@@ -71,7 +71,8 @@ func packNum(value reflect.Value) ([]byte, error) {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		return U256(big.NewInt(value.Int())), nil
 	case reflect.Ptr:
-		return U256(value.Interface().(*big.Int)), nil
+		// U256 works in place, leave the caller's value alone
+		return U256(new(big.Int).Set(value.Interface().(*big.Int))), nil
 	default:
 		return nil, errPackFailed
 	}
-- 
2.43.0


From 81a01945f1acb8f68ec42d6954566cef0ff07061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:26 +0000
Subject: [PATCH 12/71] fix: abi: decode signed integers wider than 64 bits as
 two's complement

---
 vm/abi/unpack.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vm/abi/unpack.go b/vm/abi/unpack.go
index d39eb25..05c6cd1 100644
--- a/vm/abi/unpack.go
+++ b/vm/abi/unpack.go
@@ -150,7 +150,12 @@ func toGoType(index int, t Type, output []byte) (interface{}, error) {
 	case StringTy: // variable arrays are written at the end of the return bytes
 		return string(output[begin : begin+end]), nil
 	case IntTy, UintTy:
-		return readInteger(t.Kind, returnOutput), nil
+		v := readInteger(t.Kind, returnOutput)
+		if n, ok := v.(*big.Int); ok && t.T == IntTy {
+			// two's complement
+			v = helper.S256(n)
+		}
+		return v, nil
 	case BoolTy:
 		return readBool(returnOutput)
 	case AddressTy:
-- 
2.43.0


From c2f4ec34dfa7130ba9f4111f397e9c8600b62b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:38 +0000
Subject: [PATCH 13/71] fix: report an account block whose stored fields are
 malformed instead of accepting it

---
 interfaces/core/account_block.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/interfaces/core/account_block.go b/interfaces/core/account_block.go
index 93b08a9..87644da 100644
--- a/interfaces/core/account_block.go
+++ b/interfaces/core/account_block.go
@@ -411,8 +411,7 @@ func (ab *AccountBlock) Deserialize(buf []byte) error {
 	if err := proto.Unmarshal(buf, pb); err != nil {
 		return err
 	}
-	ab.DeProto(pb)
-	return nil
+	return ab.DeProto(pb)
 }
 
 func (ab *AccountBlock) IsSendBlock() bool {
-- 
2.43.0


From 888489dfd78137daa86f666356e8aa292fda537d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:38 +0000
Subject: [PATCH 14/71] fix: copying an account block must not repeat and share
 its send blocks

---
 interfaces/core/account_block.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interfaces/core/account_block.go b/interfaces/core/account_block.go
index 87644da..47a288a 100644
--- a/interfaces/core/account_block.go
+++ b/interfaces/core/account_block.go
@@ -97,6 +97,7 @@ func (ab *AccountBlock) Copy() *AccountBlock {
 		copy(newAb.Signature, ab.Signature)
 	}
 
+	newAb.SendBlockList = nil
 	for _, sendBlock := range ab.SendBlockList {
 		newAb.SendBlockList = append(newAb.SendBlockList, sendBlock.Copy())
 	}
-- 
2.43.0


From f24a3a2b6dd27cbf022809a7f6def411f6cabff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:36 +0000
Subject: [PATCH 15/71] fix: vm: charge and size memory before CALL and CALL2
 read their arguments

A CALL whose argument region lies partly beyond the memory in use sliced out
of range, and CALL2 never extended memory at all, so a contract could panic
the node or make it allocate unpaid memory.
---
 vm/gas_table.go  | 4 ++++
 vm/jump_table.go | 2 ++
 vm/memory.go     | 2 +-
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/vm/gas_table.go b/vm/gas_table.go
index bceddd5..d7b1b9b 100644
--- a/vm/gas_table.go
+++ b/vm/gas_table.go
@@ -440,6 +440,10 @@ func gasCall(vm *VM, c *contract, stack *stack, mem *memory, memorySize uint64)
 	if err != nil {
 		return 0, true, err
 	}
+	if gas > c.quotaLeft {
+		// do not read memory that cannot be paid for
+		return 0, true, util.ErrOutOfQuota
+	}
 	toAddrBig, tokenIDBig, amount, inOffset, inSize := stack.back(0), stack.back(1), stack.back(2), stack.back(3), stack.back(4)
 	toAddress, _ := types.BigToAddress(toAddrBig)
 	tokenID, _ := types.BigToTokenTypeId(tokenIDBig)
diff --git a/vm/jump_table.go b/vm/jump_table.go
index 4ea8494..81ab8eb 100644
--- a/vm/jump_table.go
+++ b/vm/jump_table.go
@@ -44,6 +44,7 @@ func newEarthInstructionSet() [256]operation {
 		execute:       opCall2,
 		gasCost:       gasCall2,
 		validateStack: makeStackFunc(5, 1),
+		memorySize:    memoryCall,
 		valid:         true,
 	}
 	return instructionSet
@@ -54,6 +55,7 @@ func newEarthOffchainInstructionSet() [256]operation {
 		execute:       opOffchainCall2,
 		gasCost:       gasCall2,
 		validateStack: makeStackFunc(5, 1),
+		memorySize:    memoryCall,
 		valid:         true,
 	}
 	return instructionSet
diff --git a/vm/memory.go b/vm/memory.go
index 2f79437..3db2096 100644
--- a/vm/memory.go
+++ b/vm/memory.go
@@ -38,7 +38,7 @@ func (m *memory) get(offset, size int64) (cpy []byte) {
 
 	if len(m.store) > int(offset) {
 		cpy = make([]byte, size)
-		copy(cpy, m.store[offset:offset+size])
+		copy(cpy, m.store[offset:])
 
 		return cpy
 	}
-- 
2.43.0


From 23bb6affea1721f0678bbb702b1c258fee063577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:49 +0000
Subject: [PATCH 16/71] fix: refuse send blocks that running the block did not
 produce

Only the doubled list made by AccountBlock.Copy kept a block that carries
made-up send blocks from being accepted: the VM started from the list it was
given, and kept it where execution produced no list of its own.
---
 ledger/verifier/account_verifier.go | 3 +++
 vm/vm.go                            | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/ledger/verifier/account_verifier.go b/ledger/verifier/account_verifier.go
index f5e2002..cd3c4ef 100644
--- a/ledger/verifier/account_verifier.go
+++ b/ledger/verifier/account_verifier.go
@@ -234,6 +234,9 @@ func (v *AccountVerifier) verifySendBlockIntegrity(block *ledger.AccountBlock) e
 	if block.FromBlockHash != types.ZERO_HASH {
 		return errors.New("sendBlock.FromBlockHash must be ZERO_HASH")
 	}
+	if len(block.SendBlockList) > 0 {
+		return errors.New("sendBlock.SendBlockList must be nil")
+	}
 
 	if types.IsContractAddr(block.AccountAddress) {
 		if block.Height != 0 {
diff --git a/vm/vm.go b/vm/vm.go
index 999e8d0..dab5c43 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -202,6 +202,8 @@ func (vm *VM) RunV2(db interfaces.VmDb, block *ledger.AccountBlock, sendBlock *l
 	vm.gasTable = util.QuotaTableByHeight(sb.Height)
 	// In case vm will update some fields of block, make a copy of block.
 	blockCopy := block.Copy()
+	// The sends of a receive block come from running it, never from its input.
+	blockCopy.SendBlockList = nil
 	if blockCopy.IsSendBlock() {
 		if blockCopy.BlockType == ledger.BlockTypeSendCreate {
 			quotaTotal, quotaAddition, err := quota.GetQuotaForBlock(
-- 
2.43.0


From 00e80f3a3d13732e90e4b5e15e248ff575238b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:52 +0000
Subject: [PATCH 17/71] fix: xleveldb: sync a new manifest before CURRENT names
 it

A power loss could leave CURRENT naming a manifest whose content was lost, and
the store could not be opened.
---
 common/db/xleveldb/session_util.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/db/xleveldb/session_util.go b/common/db/xleveldb/session_util.go
index 48bcfd0..421117f 100644
--- a/common/db/xleveldb/session_util.go
+++ b/common/db/xleveldb/session_util.go
@@ -241,6 +241,12 @@ func (s *session) newManifest(rec *sessionRecord, v *version) (err error) {
 	if err != nil {
 		return
 	}
+	if !s.o.GetNoSync() {
+		err = writer.Sync()
+		if err != nil {
+			return
+		}
+	}
 	err = s.stor.SetMeta(fd)
 	return
 }
-- 
2.43.0


From 90427fd1ebadfce831b56d0e0f63252758d8cf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:52 +0000
Subject: [PATCH 18/71] fix: xleveldb: do not reuse the file number of a
 discarded transaction's table

Cached blocks and open readers of the discarded table were served for the next
table with the same number.
---
 common/db/xleveldb/db_transaction.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/db/xleveldb/db_transaction.go b/common/db/xleveldb/db_transaction.go
index a4b2bb2..a904001 100644
--- a/common/db/xleveldb/db_transaction.go
+++ b/common/db/xleveldb/db_transaction.go
@@ -248,9 +248,9 @@ func (tr *Transaction) discard() {
 	// Discard transaction.
 	for _, t := range tr.tables {
 		tr.db.logf("transaction@discard @%d", t.fd.Num)
-		if err1 := tr.db.s.stor.Remove(t.fd); err1 == nil {
-			tr.db.s.reuseFileNum(t.fd.Num)
-		}
+		// An iterator may still use the table and its blocks may be cached,
+		// so drop it through tOps and do not hand its number out again.
+		tr.db.s.tops.remove(t)
 	}
 }
 
-- 
2.43.0


From fc092e097af04ca60e617416a6dc2cb49b6e3245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:52 +0000
Subject: [PATCH 19/71] fix: xleveldb: a transaction waits for the memdb that
 is still being flushed

The transaction writes tables directly. With an older memdb waiting for its
flush, reads found the older entries first, and the flush then recorded a
sequence number below the transaction's, so a reopen lost it.
---
 common/db/xleveldb/db_transaction.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/db/xleveldb/db_transaction.go b/common/db/xleveldb/db_transaction.go
index a904001..81764ae 100644
--- a/common/db/xleveldb/db_transaction.go
+++ b/common/db/xleveldb/db_transaction.go
@@ -307,6 +307,10 @@ func (db *DB) OpenTransaction() (*Transaction, error) {
 		if _, err := db.rotateMem(0, true); err != nil {
 			return nil, err
 		}
+	} else if err := db.compTriggerWait(db.mcompCmdC); err != nil {
+		// The previous memdb may still wait for its flush. Its entries are
+		// older than the transaction, so they must reach the tables first.
+		return nil, err
 	}
 
 	// Wait compaction when certain threshold reached.
-- 
2.43.0


From 723af04a827582140c4585ed4bf692defe5cb28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:08 +0000
Subject: [PATCH 20/71] fix: sync cache: keep the files of listed chunks when
 it is opened

The names to keep were full paths and were compared with base names, so opening
the cache deleted every chunk file while the chunks stayed listed.
---
 ledger/chain/sync_cache/sync_cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ledger/chain/sync_cache/sync_cache.go b/ledger/chain/sync_cache/sync_cache.go
index 7a3e295..ab2c88c 100644
--- a/ledger/chain/sync_cache/sync_cache.go
+++ b/ledger/chain/sync_cache/sync_cache.go
@@ -98,7 +98,7 @@ func (cache *syncCache) loadCaches() (err error) {
 			cache.caches[i] = nil
 			cache.cleanItem(item)
 		} else {
-			keepFiles[item.filename] = struct{}{}
+			keepFiles[path.Base(item.filename)] = struct{}{}
 		}
 	}
 
-- 
2.43.0


From cd9ee593ce7e2ec5937de6e7ae7ea9f8695c2c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:08 +0000
Subject: [PATCH 21/71] fix: sync cache: report a chunk file that ends inside a
 block

A short read was taken for a whole one, so the rest of the block came from the
buffer of an earlier block, and a damaged length allocated up to 4 GB.
---
 ledger/chain/sync_cache/reader.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ledger/chain/sync_cache/reader.go b/ledger/chain/sync_cache/reader.go
index c5dfbca..03d8f43 100644
--- a/ledger/chain/sync_cache/reader.go
+++ b/ledger/chain/sync_cache/reader.go
@@ -65,11 +65,16 @@ func (reader *Reader) Read() (ab *ledger.AccountBlock, sb *ledger.SnapshotBlock,
 
 	// 4 bytes for payload length size
 	buf := reader.readBuffer[:4]
-	if _, err = fd.Read(buf); err != nil {
+	if _, err = io.ReadFull(fd, buf); err != nil {
 		return
 	}
 
 	size := binary.BigEndian.Uint32(buf)
+	if st, err := fd.Stat(); err != nil {
+		return nil, nil, err
+	} else if int64(size) > st.Size() {
+		return nil, nil, errors.New("error size length")
+	}
 	if cap(reader.readBuffer) < int(size) {
 		reader.readBuffer = make([]byte, size)
 	}
@@ -79,14 +84,13 @@ func (reader *Reader) Read() (ab *ledger.AccountBlock, sb *ledger.SnapshotBlock,
 	}
 
 	buf = reader.readBuffer[:size]
-	if _, err = fd.Read(buf); err != nil {
+	if _, err = io.ReadFull(fd, buf); err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
 		return
 	}
 
-	if len(buf) != int(size) {
-		return nil, nil, errors.New("error size length")
-	}
-
 	// first payload byte is code
 	// rest is data
 	code := buf[0]
-- 
2.43.0


From 8931429898d96e1c9570b8d111c4dd38a5e22eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:20 +0000
Subject: [PATCH 22/71] fix: sync cache: guard the state of a chunk by the
 cache lock

Closing a writer marked the chunk as done without the lock that listing takes,
and put a chunk back into the index that was deleted while it was written.
---
 ledger/chain/sync_cache/reader.go     |  2 +-
 ledger/chain/sync_cache/sync_cache.go | 24 ++++++++++++++++++++++++
 ledger/chain/sync_cache/writer.go     |  6 +++++-
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/ledger/chain/sync_cache/reader.go b/ledger/chain/sync_cache/reader.go
index 03d8f43..a5dd195 100644
--- a/ledger/chain/sync_cache/reader.go
+++ b/ledger/chain/sync_cache/reader.go
@@ -26,7 +26,7 @@ func (reader *Reader) Size() int64 {
 }
 
 func NewReader(cache *syncCache, item *cacheItem) (*Reader, error) {
-	if !item.done {
+	if !cache.isDone(item) {
 		return nil, fmt.Errorf("failed to open cache %d-%d %s-%s: not write done", item.From, item.To, item.PrevHash, item.Hash)
 	}
 
diff --git a/ledger/chain/sync_cache/sync_cache.go b/ledger/chain/sync_cache/sync_cache.go
index ab2c88c..46ad5a4 100644
--- a/ledger/chain/sync_cache/sync_cache.go
+++ b/ledger/chain/sync_cache/sync_cache.go
@@ -226,7 +226,9 @@ func (cache *syncCache) NewWriter(segment interfaces.Segment, size int64) (w io.
 		return
 	}
 
+	cache.mu.Lock()
 	item.filename = file.Name()
+	cache.mu.Unlock()
 
 	w = &writer{
 		cache: cache,
@@ -286,6 +288,28 @@ func (cache *syncCache) findSeg(seg interfaces.Segment) (item *cacheItem, ok boo
 	return
 }
 
+// setDone reports false if the item is not in the cache any more.
+func (cache *syncCache) setDone(item *cacheItem) bool {
+	cache.mu.Lock()
+	defer cache.mu.Unlock()
+
+	for _, item2 := range cache.caches {
+		if item2 == item {
+			item.done = true
+			return true
+		}
+	}
+
+	return false
+}
+
+func (cache *syncCache) isDone(item *cacheItem) bool {
+	cache.mu.RLock()
+	defer cache.mu.RUnlock()
+
+	return item.done
+}
+
 func (cache *syncCache) deleteItem(toDelete *cacheItem) {
 	var find bool
 
diff --git a/ledger/chain/sync_cache/writer.go b/ledger/chain/sync_cache/writer.go
index 76ad63a..d7bd882 100644
--- a/ledger/chain/sync_cache/writer.go
+++ b/ledger/chain/sync_cache/writer.go
@@ -1,6 +1,7 @@
 package sync_cache
 
 import (
+	"errors"
 	"os"
 )
 
@@ -22,7 +23,10 @@ func (w *writer) Close() (err error) {
 		return
 	}
 
-	w.item.done = true
+	// the chunk may have been deleted while it was written
+	if !w.cache.setDone(w.item) {
+		return errors.New("failed to close cache: chunk has been deleted")
+	}
 
 	// add item to index db
 	err = w.cache.updateIndex(w.item)
-- 
2.43.0


From 5934fe0cd5595c7fa377ddf6b80650bbdb7c8197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:36 +0000
Subject: [PATCH 23/71] fix: write a block that is larger than the block buffer

The encoder returns another buffer when the given one may be too small for
the block, and the bytes written were those of the given one.
---
 ledger/chain/block/buffer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ledger/chain/block/buffer.go b/ledger/chain/block/buffer.go
index 6ac4e0c..3febfd5 100644
--- a/ledger/chain/block/buffer.go
+++ b/ledger/chain/block/buffer.go
@@ -8,6 +8,11 @@ import (
 
 func makeWriteBytes(buf []byte, dataType byte, data []byte) []byte {
 
+	// the encoder allocates another buffer when the given one may be too small
+	if need := 5 + snappy.MaxEncodedLen(len(data)); len(buf) < need {
+		buf = make([]byte, need)
+	}
+
 	buf[4] = dataType
 	sBuf := snappy.Encode(buf[5:], data)
 	sBufLen := len(sBuf)
-- 
2.43.0


From 30cb967fcecf99f674fc9f95aa2ea290cb129c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:52 +0000
Subject: [PATCH 24/71] fix: keep block file data cached until it is on disk

The cached buffer of a file was reused as soon as a flush had been prepared,
before it was written: with enough blocks inserted in between, the flush
failed and the blocks could not be read.
---
 ledger/chain/file_manager/fd_manager.go   | 11 +++----
 ledger/chain/file_manager/file_manager.go | 40 +++++++++++++++++++++--
 2 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/ledger/chain/file_manager/fd_manager.go b/ledger/chain/file_manager/fd_manager.go
index 72bca48..9d5c66e 100644
--- a/ledger/chain/file_manager/fd_manager.go
+++ b/ledger/chain/file_manager/fd_manager.go
@@ -278,17 +278,14 @@ func (fdSet *fdManager) resetWriteFd(location *Location) error {
 		}
 	}
 
-	nextFlushStartLocation := fdSet.fileManager.NextFlushStartLocation()
-
 	var newItem *fileCacheItem
 
-	if nextFlushStartLocation != nil {
-		nextFlushStartFileId := nextFlushStartLocation.FileId
-
+	// a prepared flush is not on disk yet
+	if onDiskFileId, ok := fdSet.fileManager.onDiskFileId(); ok {
 		// remove stale cache
 		for fdSet.fileCache.Len() > fdSet.fileCacheLength {
 			item := fdSet.fileCache.Front().Value.(*fileCacheItem)
-			if item.FileId >= nextFlushStartFileId {
+			if item.FileId >= onDiskFileId {
 				break
 			}
 
@@ -299,7 +296,7 @@ func (fdSet *fdManager) resetWriteFd(location *Location) error {
 		// ring buffer. reuse cache
 		if fdSet.fileCache.Len() >= fdSet.fileCacheLength {
 			newItem = fdSet.fileCache.Front().Value.(*fileCacheItem)
-			if newItem.FileId < nextFlushStartFileId {
+			if newItem.FileId < onDiskFileId {
 				fdSet.fileCache.MoveToBack(fdSet.fileCache.Front())
 
 				delete(fdSet.fileFdCache, newItem.FileId)
diff --git a/ledger/chain/file_manager/file_manager.go b/ledger/chain/file_manager/file_manager.go
index e55c8c7..a8560b4 100644
--- a/ledger/chain/file_manager/file_manager.go
+++ b/ledger/chain/file_manager/file_manager.go
@@ -15,6 +15,8 @@ type FileManager struct {
 
 	fdSet                  *fdManager
 	nextFlushStartLocation *Location
+	onDiskLocation         *Location // all data before it is on disk
+	locationMu             sync.Mutex
 	prevFlushLocation      *Location
 
 	fSyncWg sync.WaitGroup
@@ -35,11 +37,15 @@ func NewFileManager(dirName string, fileSize int64, cacheCount int) (*FileManage
 	fm.fdSet = fdSet
 	fm.nextFlushStartLocation = fm.fdSet.LatestLocation()
 	fm.prevFlushLocation = fm.nextFlushStartLocation
+	fm.onDiskLocation = fm.nextFlushStartLocation
 
 	return fm, nil
 }
 
 func (fm *FileManager) NextFlushStartLocation() *Location {
+	fm.locationMu.Lock()
+	defer fm.locationMu.Unlock()
+
 	if fm.nextFlushStartLocation == nil {
 		return nil
 	}
@@ -47,9 +53,23 @@ func (fm *FileManager) NextFlushStartLocation() *Location {
 }
 
 func (fm *FileManager) SetNextFlushStartLocation(location *Location) {
+	fm.locationMu.Lock()
+	defer fm.locationMu.Unlock()
+
 	fm.nextFlushStartLocation = NewLocation(location.FileId, location.Offset)
 }
 
+// onDiskFileId returns the id of the first file that may hold data which is not on disk
+func (fm *FileManager) onDiskFileId() (uint64, bool) {
+	fm.locationMu.Lock()
+	defer fm.locationMu.Unlock()
+
+	if fm.onDiskLocation == nil {
+		return 0, false
+	}
+	return fm.onDiskLocation.FileId, true
+}
+
 func (fm *FileManager) LatestLocation() *Location {
 	return fm.fdSet.LatestLocation()
 }
@@ -78,13 +98,19 @@ func (fm *FileManager) DeleteTo(location *Location) error {
 	if location.Compare(fm.LatestLocation()) >= 0 {
 		return nil
 	}
-	if err := fm.fdSet.DeleteTo(location); err != nil {
-		return err
-	}
 
+	fm.locationMu.Lock()
 	if location.Compare(fm.nextFlushStartLocation) < 0 {
 		fm.nextFlushStartLocation = location
 	}
+	if location.Compare(fm.onDiskLocation) < 0 {
+		fm.onDiskLocation = location
+	}
+	fm.locationMu.Unlock()
+
+	if err := fm.fdSet.DeleteTo(location); err != nil {
+		return err
+	}
 
 	// FOR DEBUG
 	//fm.log.Info(fmt.Sprintf("file manager delete to %+v, fm.nextFlushStartLocation is %+v, latest location is %+v", location, fm.nextFlushStartLocation, fm.LatestLocation()), "method", "DeleteTo")
@@ -150,6 +176,14 @@ func (fm *FileManager) Flush(startLocation *Location, targetLocation *Location,
 
 	fm.prevFlushLocation = targetLocation
 
+	// what was deleted after this flush had been prepared has to be flushed again
+	fm.locationMu.Lock()
+	fm.onDiskLocation = targetLocation
+	if fm.nextFlushStartLocation.Compare(targetLocation) < 0 {
+		fm.onDiskLocation = fm.nextFlushStartLocation
+	}
+	fm.locationMu.Unlock()
+
 	return nil
 }
 func (fm *FileManager) GetNextLocation(location *Location) (*Location, error) {
-- 
2.43.0


From e91aefa27c5958d6d24b01656a07696e44cb2157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:04 +0000
Subject: [PATCH 25/71] fix: delete block files that are not cached

Rolling back over more files than are cached, as after a restart or when
recovering, panicked.
---
 ledger/chain/file_manager/fd_manager.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ledger/chain/file_manager/fd_manager.go b/ledger/chain/file_manager/fd_manager.go
index 9d5c66e..33d05e6 100644
--- a/ledger/chain/file_manager/fd_manager.go
+++ b/ledger/chain/file_manager/fd_manager.go
@@ -158,7 +158,13 @@ func (fdSet *fdManager) DeleteTo(location *Location) error {
 			fdSet.writeFd = nil
 		}
 
-		cacheItem := fdSet.fileCache.Back().Value.(*fileCacheItem)
+		// files that are only on disk have no cache item
+		back := fdSet.fileCache.Back()
+		if back == nil {
+			break
+		}
+
+		cacheItem := back.Value.(*fileCacheItem)
 		if cacheItem != nil {
 
 			delete(fdSet.fileFdCache, cacheItem.FileId)
@@ -170,7 +176,7 @@ func (fdSet *fdManager) DeleteTo(location *Location) error {
 			cacheItem.BufferLen = 0
 			cacheItem.Mu.Unlock()
 
-			fdSet.fileCache.Remove(fdSet.fileCache.Back())
+			fdSet.fileCache.Remove(back)
 		}
 	}
 
-- 
2.43.0


From 57ba22ff2994437f44287eceb649c7e7078fdcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:26 +0000
Subject: [PATCH 26/71] fix: do not truncate a block file that a flush
 continues

When blocks were rolled back and rewritten while a flush was in progress, the
flush opened the file anew and truncated it, losing the blocks in front of the
flushed ones.
---
 ledger/chain/file_manager/fd_manager.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ledger/chain/file_manager/fd_manager.go b/ledger/chain/file_manager/fd_manager.go
index 33d05e6..7d6c586 100644
--- a/ledger/chain/file_manager/fd_manager.go
+++ b/ledger/chain/file_manager/fd_manager.go
@@ -448,7 +448,8 @@ func (fdSet *fdManager) getFileFd(fileId uint64) (*os.File, error) {
 func (fdSet *fdManager) createNewFile(fileId uint64) (*os.File, error) {
 	absoluteFilename := fdSet.fileIdToAbsoluteFilename(fileId)
 
-	file, cErr := os.Create(absoluteFilename)
+	// never truncate, the flush may start behind data that is on disk already
+	file, cErr := os.OpenFile(absoluteFilename, os.O_RDWR|os.O_CREATE, 0666)
 
 	if cErr != nil {
 		return nil, errors.New("Create fileReader failed, error is " + cErr.Error())
-- 
2.43.0


From e0f1836c140458f47aa8fe2df3b188362802724f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:04 +0000
Subject: [PATCH 27/71] fix: merged iterator: remember the direction it was
 turned to

After a turn every further step in the new direction dropped the look-ahead of
the other iterators, and turning back kept a stale one.
---
 common/db/merged_iterator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/db/merged_iterator.go b/common/db/merged_iterator.go
index b81a612..25d48b8 100644
--- a/common/db/merged_iterator.go
+++ b/common/db/merged_iterator.go
@@ -168,6 +168,7 @@ func (mi *MergedIterator) step(toNext bool) bool {
 
 	if (mi.directionToNext && !toNext) || (!mi.directionToNext && toNext) {
 		mi.reset()
+		mi.directionToNext = toNext
 	}
 
 	if mi.index >= 0 {
-- 
2.43.0


From 4e7abcc205edf7a28aac5a77e9fe86e67775fa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:27 +0000
Subject: [PATCH 28/71] fix: repair a failed commit before the stores forget
 the writes

When a store failed to commit, the writes were dropped from memory before they
were written again from the redo log, and could not be read in between.
---
 ledger/chain/flusher/flusher.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ledger/chain/flusher/flusher.go b/ledger/chain/flusher/flusher.go
index d4bd972..b8b7dcd 100644
--- a/ledger/chain/flusher/flusher.go
+++ b/ledger/chain/flusher/flusher.go
@@ -237,13 +237,7 @@ func (flusher *Flusher) flush() {
 	err := flusher.commit()
 	//flusher.log.Info("finish committing")
 
-	// after commit, lock write
-	//flusher.log.Info("after commit")
-
-	flusher.afterCommit()
-	//flusher.log.Info("finish after committing")
-
-	// redo
+	// redo, before the stores forget what they keep in memory
 	if err != nil {
 		//flusher.log.Info("commit redo")
 		if err := flusher.commitRedo(); err != nil {
@@ -252,6 +246,12 @@ func (flusher *Flusher) flush() {
 		//flusher.log.Info("finish committing redo")
 	}
 
+	// after commit, lock write
+	//flusher.log.Info("after commit")
+
+	flusher.afterCommit()
+	//flusher.log.Info("finish after committing")
+
 	// clean redo log
 	flusher.cleanRedoLog()
 }
-- 
2.43.0


From 9d53ec56ff5c487900ad427f3173e228d551a217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:55 +0000
Subject: [PATCH 29/71] fix: drop the blocks a branch hands over when the main
 branch is switched

---
 ledger/pool/tree/branch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ledger/pool/tree/branch.go b/ledger/pool/tree/branch.go
index 8502c0d..1a4a0c0 100644
--- a/ledger/pool/tree/branch.go
+++ b/ledger/pool/tree/branch.go
@@ -170,7 +170,7 @@ func (self *branch) exchangeRoot(root *branch, t *tree) error {
 				self.addTail(w)
 			}
 		}
-		for i := rootTailHeight + 1; i <= rootTailHeight; i++ {
+		for i := rootTailHeight + 1; i <= selfTailHeight; i++ {
 			w := root.GetKnot(i, false)
 			if w != nil {
 				root.RemoveTail(w)
-- 
2.43.0


From e86a697113ff11ed4ae13ce6bab41784e8f8be79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:55 +0000
Subject: [PATCH 30/71] fix: follow the side branch whose block was stored
 directly

---
 ledger/pool/tree/tree_impl.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ledger/pool/tree/tree_impl.go b/ledger/pool/tree/tree_impl.go
index b858659..a254f08 100644
--- a/ledger/pool/tree/tree_impl.go
+++ b/ledger/pool/tree/tree_impl.go
@@ -95,6 +95,18 @@ func (self *tree) RootHeadAdd(k Knot) error {
 	if k.PrevHash() != main.tailHash {
 		panic(fmt.Sprintf("root head add fail. mainTail[%s], addBlock[%d-%s-%s]", main.SprintTail(), k.Height(), k.Hash(), k.PrevHash()))
 	}
+	if self.Exists(k.Hash()) && !main.contains(k.Height(), k.Hash(), false) {
+		// the block is on a side branch: the stored chain follows that branch from now on
+		if b := self.FindBranch(k.Height(), k.Hash()); b != nil {
+			target := b.(*branch)
+			err := target.exchangeAllRoot(self)
+			if err != nil {
+				return err
+			}
+			self.main = target
+			return self.RemoveTail(target, k)
+		}
+	}
 	if main.MatchHead(k.PrevHash()) {
 		err := main.AddHead(k)
 		if err != nil {
-- 
2.43.0


From 7a3bc4ba9340fd5ed9b6ac95cb4be0adc638a15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:55 +0000
Subject: [PATCH 31/71] fix: place arriving blocks only once and not behind an
 empty branch

---
 ledger/pool/chain_pool.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/ledger/pool/chain_pool.go b/ledger/pool/chain_pool.go
index 87fe760..90914bd 100644
--- a/ledger/pool/chain_pool.go
+++ b/ledger/pool/chain_pool.go
@@ -77,6 +77,22 @@ func (cp *chainPool) fork2(snippet *snippetChain, chains map[string]tree.Branch,
 
 	trace := ""
 
+	// drop the blocks that have a place already
+	for snippet.size() > 0 {
+		first := snippet.getBlock(snippet.tailHeight + 1)
+		if !cp.tree.Exists(first.Hash()) {
+			mainHash := cp.tree.Main().GetHash(first.Height(), true)
+			if mainHash == nil || *mainHash != first.Hash() {
+				break
+			}
+		}
+		snippet.remTail()
+		bp.delHashFromCompound(first.Hash())
+	}
+	if snippet.size() == 0 {
+		return false, false, nil, errors.New("snippet is empty")
+	}
+
 LOOP:
 	for _, c := range chains {
 		tH := snippet.tailHeight
@@ -169,6 +185,14 @@ LOOP:
 	case tree.Normal:
 		trace += "[7]"
 		result = hr
+		if insertable {
+			headHeight, headHash := hr.HeadHH()
+			if headHeight != snippet.tailHeight || headHash != snippet.tailHash {
+				// found through an empty branch inside hr
+				forky = true
+				insertable = false
+			}
+		}
 	}
 	// todo
 	//if insertable {
-- 
2.43.0


From dd5442f1a8f5a4e57623226aa618716128ba7a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:40 +0000
Subject: [PATCH 32/71] fix: guard the error shared by the workers inserting
 one level

---
 ledger/pool/batch/batch_executor_impl.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ledger/pool/batch/batch_executor_impl.go b/ledger/pool/batch/batch_executor_impl.go
index 1bd8faa..18a1471 100644
--- a/ledger/pool/batch/batch_executor_impl.go
+++ b/ledger/pool/batch/batch_executor_impl.go
@@ -88,18 +88,26 @@ func (self *batchExecutor) insertAccountLevel(l Level) error {
 
 	var num int32
 	t1 := time.Now()
+	var errMu sync.Mutex
 	var globalErr error
+	failed := func() bool {
+		errMu.Lock()
+		defer errMu.Unlock()
+		return globalErr != nil
+	}
 	for i := 0; i < N; i++ {
 		common.Go(func() {
 			defer wg.Done()
 			for b := range bucketCh {
-				if globalErr != nil {
+				if failed() {
 					return
 				}
 				err := self.accountFn(self.p, l, b, version)
 				atomic.AddInt32(&num, int32(len(b.Items())))
 				if err != nil {
+					errMu.Lock()
 					globalErr = err
+					errMu.Unlock()
 					self.log.Info(fmt.Sprintf("error[%s] for insert account block.\n", err))
 					return
 				}
-- 
2.43.0


From a955ac25efa86897b29a2e0c80c885de85c6c8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:32 +0000
Subject: [PATCH 33/71] fix: keep the tail of the unique list when the first
 element is put in front

---
 tools/unique_list/unique_list.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/unique_list/unique_list.go b/tools/unique_list/unique_list.go
index 5fcd713..b9be320 100644
--- a/tools/unique_list/unique_list.go
+++ b/tools/unique_list/unique_list.go
@@ -93,6 +93,10 @@ func (l *unique_list) UnShift(key string, data interface{}) {
 
 	e.next = l.head.next
 	l.head.next = e
+
+	if e.next == nil {
+		l.tail = e
+	}
 }
 
 // Remove remove an element from list
-- 
2.43.0


From 7b16b8e795d4a7c247e8bdc6d120e51f225f651d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:32 +0000
Subject: [PATCH 34/71] fix: wake every waiter when the queue is closed

---
 tools/queue/queue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/queue/queue.go b/tools/queue/queue.go
index 814fd7f..0ac07d8 100644
--- a/tools/queue/queue.go
+++ b/tools/queue/queue.go
@@ -76,6 +76,6 @@ func (q *blockQueue) Close() {
 
 	if !q.closed {
 		q.closed = true
-		q.cond.Signal()
+		q.cond.Broadcast()
 	}
 }
-- 
2.43.0


From aa875f79d081f9adb1f64bb3265f58338db8fcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:13 +0000
Subject: [PATCH 35/71] fix: compute the bloom filter constant once, before it
 is shared

---
 common/bloom/util.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/common/bloom/util.go b/common/bloom/util.go
index 93d9f66..a7837cc 100644
--- a/common/bloom/util.go
+++ b/common/bloom/util.go
@@ -26,15 +26,11 @@ import (
 
 const fillRatio = 0.5
 
-var fillRatioX float64 = 0
+var fillRatioX = math.Log(fillRatio) * math.Log(1-fillRatio)
 
 // OptimalM calculates the optimal Bloom filter size, m, based on the number of
 // items and the desired rate of false positives.
 func OptimalM(n uint, fpRate float64) uint {
-	if fillRatioX == 0 {
-		fillRatioX = math.Log(fillRatio) * math.Log(1-fillRatio)
-	}
-
 	base := math.Abs(math.Log(fpRate)) / fillRatioX
 	r := float64(n) * base
 	return uint(math.Ceil(r))
-- 
2.43.0


From c314825146f66c9e1ed6d09153d8d353ba738e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:13 +0000
Subject: [PATCH 36/71] fix: read the wait channel under its lock and before
 the pending notifications

---
 common/condTimeout.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/common/condTimeout.go b/common/condTimeout.go
index dc59dd3..5a26bca 100644
--- a/common/condTimeout.go
+++ b/common/condTimeout.go
@@ -83,12 +83,20 @@ func NewTimeoutCond() *TimeoutCond {
 	return &TimeoutCond{L: mutex, signal: make(chan uint8)}
 }
 
+// current returns the channel waiters listen on. It is read before the pending
+// notifications are, so that a broadcast in between still ends the wait.
+func (self *TimeoutCond) current() chan uint8 {
+	self.L.Lock()
+	defer self.L.Unlock()
+	return self.signal
+}
+
 func (self *TimeoutCond) Wait() {
+	ch := self.current()
 	old := atomic.SwapUint32(&self.notifyNum, 0)
 	if old > 0 {
 		return
 	}
-	ch := self.signal
 	select {
 	case <-ch:
 		return
@@ -96,11 +104,11 @@ func (self *TimeoutCond) Wait() {
 }
 
 func (self *TimeoutCond) WaitTimeout(t time.Duration) error {
+	ch := self.current()
 	old := atomic.SwapUint32(&self.notifyNum, 0)
 	if old > 0 {
 		return nil
 	}
-	ch := self.signal
 	select {
 	case <-ch:
 		return nil
-- 
2.43.0


From 2cbe7dfc248c2b9507ef3c7370c206e776ed7dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:35 +0000
Subject: [PATCH 37/71] fix: refuse to send a message that is larger than its
 header can express

---
 net/codec.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/net/codec.go b/net/codec.go
index 79a6d32..e38aae5 100644
--- a/net/codec.go
+++ b/net/codec.go
@@ -254,6 +254,10 @@ func (t *transport) ReadMsg() (msg Msg, err error) {
 
 // WriteMsg is NOT thread-safe
 func (t *transport) WriteMsg(msg Msg) (err error) {
+	if len(msg.Payload) > maxPayloadSize {
+		return errMsgPayloadTooLarge
+	}
+
 	_ = t.SetWriteDeadline(time.Now().Add(t.writeTimeout))
 
 	head := t.writeHeadBuf[:]
-- 
2.43.0


From ffd14dea529b45b5994584e7b0ff8178ff24d85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:35 +0000
Subject: [PATCH 38/71] fix: bound the size a compressed message may claim

---
 net/codec.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/net/codec.go b/net/codec.go
index e38aae5..5c36689 100644
--- a/net/codec.go
+++ b/net/codec.go
@@ -238,6 +238,10 @@ func (t *transport) ReadMsg() (msg Msg, err error) {
 			err = fmt.Errorf("failed to decode message length: %v", err)
 			return
 		}
+		if payloadReadLength > maxPayloadSize {
+			err = errMsgPayloadTooLarge
+			return
+		}
 
 		payloadUncompressed := make([]byte, payloadReadLength)
 		payloadUncompressed, err = snappy.Decode(payloadUncompressed, msg.Payload)
-- 
2.43.0


From 5231075d65f696408ef68678edcd26fa31b0563b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:05 +0000
Subject: [PATCH 39/71] fix: refuse an exception message without a payload

---
 net/peer_error.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/net/peer_error.go b/net/peer_error.go
index de442dd..11af78f 100644
--- a/net/peer_error.go
+++ b/net/peer_error.go
@@ -125,6 +125,9 @@ func (exp Exception) Serialize() ([]byte, error) {
 }
 
 func (exp *Exception) Deserialize(buf []byte) error {
+	if len(buf) == 0 {
+		return errDeserialize
+	}
 	*exp = Exception(buf[0])
 	return nil
 }
-- 
2.43.0


From 11107fd472d6e1cc0fcb8da35bb95860343c0e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:05 +0000
Subject: [PATCH 40/71] fix: refuse a handshake whose key has a wrong length
 instead of panicking

---
 net/handshaker.go | 2 +-
 net/sync_conn.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/net/handshaker.go b/net/handshaker.go
index aab1a03..1818a87 100644
--- a/net/handshaker.go
+++ b/net/handshaker.go
@@ -214,7 +214,7 @@ func (h *handshaker) verifyHandshake(their *HandshakeMsg, secret []byte) (err er
 	hash := crypto.Hash256(t)
 	token := xor(hash, secret)
 	if len(their.Key) != 0 {
-		if false == ed25519.Verify(their.Key, token, their.Token) {
+		if ok, _ := crypto.VerifySig(their.Key, token, their.Token); !ok {
 			err = PeerInvalidSignature
 			return
 		}
diff --git a/net/sync_conn.go b/net/sync_conn.go
index cac0284..4694e96 100644
--- a/net/sync_conn.go
+++ b/net/sync_conn.go
@@ -271,7 +271,7 @@ func (d *defaultSyncConnectionFactory) receive(conn net2.Conn) (*syncConn, error
 	hash := crypto.Hash256(t)
 	token := xor(hash, secret)
 	if len(hk.key) != 0 {
-		if false == ed25519.Verify(hk.key, token, hk.token) {
+		if ok, _ := crypto.VerifySig(hk.key, token, hk.token); !ok {
 			_ = c.c.WriteMsg(Msg{
 				Code:    CodeDisconnect,
 				Payload: []byte{byte(PeerInvalidSignature)},
-- 
2.43.0


From bd7648aae97c0baa5aa9438361e2ce37e64a7a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:05 +0000
Subject: [PATCH 41/71] fix: answer a hash list request only from a block both
 sides have

---
 net/msghandler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/net/msghandler.go b/net/msghandler.go
index 5c93c67..040f784 100644
--- a/net/msghandler.go
+++ b/net/msghandler.go
@@ -219,6 +219,7 @@ func (c *checkHandler) handleGetHashHeightList(get *GetHashHeightList) (code Cod
 		}
 		if block.Hash != hh.Hash {
 			c.log.Warn(fmt.Sprintf("snapshotblock at %d is %s not %s", hh.Height, block.Hash, hh.Hash))
+			block = nil
 			continue
 		}
 
-- 
2.43.0


From 52d1fe91c70d42ecac96e74fa83847e2e9b92638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:05 +0000
Subject: [PATCH 42/71] fix: do not divide by a step of zero asked for by a
 peer

---
 net/msghandler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/net/msghandler.go b/net/msghandler.go
index 040f784..24c369b 100644
--- a/net/msghandler.go
+++ b/net/msghandler.go
@@ -231,6 +231,9 @@ func (c *checkHandler) handleGetHashHeightList(get *GetHashHeightList) (code Cod
 	}
 
 	step := get.Step
+	if step == 0 {
+		step = 1
+	}
 	start := (block.Height + 1) / step * step
 	if start < block.Height+1 {
 		start = block.Height + 1
-- 
2.43.0


From 66ff331a7845e06cb29c1c95081523b7d5329298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:05 +0000
Subject: [PATCH 43/71] fix: forget the neighbour a peer reports as
 disconnected

---
 net/peer.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/net/peer.go b/net/peer.go
index 15b3522..7958ce6 100644
--- a/net/peer.go
+++ b/net/peer.go
@@ -421,11 +421,11 @@ func (p *Peer) setPeers(ps []peerConn, patch bool) {
 	}
 
 	for _, c := range ps {
+		id, err = vnode.Bytes2NodeID(c.id)
+		if err != nil {
+			continue
+		}
 		if c.add {
-			id, err = vnode.Bytes2NodeID(c.id)
-			if err != nil {
-				continue
-			}
 			p.m[id] = struct{}{}
 		} else {
 			delete(p.m, id)
-- 
2.43.0


From 72ef4bde75c3332c67ddc388dcf1ed369453acbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:11 +0000
Subject: [PATCH 44/71] fix: do not allocate the chunks of a block request
 before they exist

---
 net/msghandler.go | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/net/msghandler.go b/net/msghandler.go
index 24c369b..68a8280 100644
--- a/net/msghandler.go
+++ b/net/msghandler.go
@@ -2,6 +2,7 @@ package net
 
 import (
 	"fmt"
+	"math"
 	"sync"
 	"time"
 
@@ -337,7 +338,7 @@ func (s *getSnapshotBlocksHandler) handle(msg Msg) (err error) {
 	var from, to uint64
 	if req.Forward {
 		from = block.Height
-		to = from + req.Count - 1
+		to = lastHeight(from, req.Count)
 	} else {
 		to = block.Height
 		if to >= req.Count {
@@ -347,11 +348,13 @@ func (s *getSnapshotBlocksHandler) handle(msg Msg) (err error) {
 		}
 	}
 
-	chunks := splitChunk(from, to, syncTaskSize)
-
 	var blocks []*ledger.SnapshotBlock
-	for _, c := range chunks {
-		blocks, err = s.chain.GetSnapshotBlocksByHeight(c[0], true, c[1]-c[0]+1)
+	var end uint64
+	for start := from; start <= to && to > 0; start = end + 1 {
+		if end = start + syncTaskSize - 1; end > to {
+			end = to
+		}
+		blocks, err = s.chain.GetSnapshotBlocksByHeight(start, true, end-start+1)
 		if err != nil || len(blocks) == 0 {
 			netLog.Warn(fmt.Sprintf("handle %s from %s error: %v", req, msg.Sender, err))
 			return msg.Sender.send(CodeException, msg.Id, ExpMissing)
@@ -368,6 +371,14 @@ func (s *getSnapshotBlocksHandler) handle(msg Msg) (err error) {
 	return
 }
 
+// lastHeight is the height of the last of count blocks starting at from
+func lastHeight(from, count uint64) uint64 {
+	if count > math.MaxInt64 {
+		count = math.MaxInt64
+	}
+	return from + count - 1
+}
+
 // @section get account blocks
 type getAccountBlocksHandler struct {
 	chain accountBockReader
@@ -420,7 +431,7 @@ func (a *getAccountBlocksHandler) handle(msg Msg) (err error) {
 	var from, to uint64
 	if req.Forward {
 		from = block.Height
-		to = from + req.Count - 1
+		to = lastHeight(from, req.Count)
 	} else {
 		to = block.Height
 		if to >= req.Count {
@@ -430,11 +441,13 @@ func (a *getAccountBlocksHandler) handle(msg Msg) (err error) {
 		}
 	}
 
-	chunks := splitChunk(from, to, syncTaskSize)
-
 	var blocks []*ledger.AccountBlock
-	for _, c := range chunks {
-		blocks, err = a.chain.GetAccountBlocksByHeight(address, c[1], c[1]-c[0]+1)
+	var end uint64
+	for start := from; start <= to && to > 0; start = end + 1 {
+		if end = start + syncTaskSize - 1; end > to {
+			end = to
+		}
+		blocks, err = a.chain.GetAccountBlocksByHeight(address, end, end-start+1)
 		if err != nil || len(blocks) == 0 {
 			netLog.Warn(fmt.Sprintf("handle %s from %s error: %v", req, msg.Sender, err))
 			return msg.Sender.send(CodeException, msg.Id, ExpMissing)
-- 
2.43.0


From e7cb31f366d57591767794c4966cd103739b7d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:27 +0000
Subject: [PATCH 45/71] fix: refuse a dialed node that claims the identity of
 another node

---
 net/handshaker.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/net/handshaker.go b/net/handshaker.go
index 1818a87..d9398d5 100644
--- a/net/handshaker.go
+++ b/net/handshaker.go
@@ -348,6 +348,12 @@ func (h *handshaker) InitiateHandshake(conn _net.Conn, id vnode.NodeID) (c Codec
 		return
 	}
 
+	// the token only proves that the other side owns the dialed id
+	if their.ID != id {
+		err = PeerInvalidToken
+		return
+	}
+
 	err = h.verifyHandshake(their, secret)
 	if err != nil {
 		return
-- 
2.43.0


From 1407b97f7574fda980fdc1663f440a6c51123672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:27 +0000
Subject: [PATCH 46/71] fix: keep the connected peer when a second connection
 with its identity is refused

---
 net/net.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/net/net.go b/net/net.go
index b427f06..cc9f103 100644
--- a/net/net.go
+++ b/net/net.go
@@ -170,8 +170,6 @@ func (n *net) onConnection(conn _net.Conn, id peerId, inbound bool) {
 
 	// run peer
 	_ = n.onPeerAdded(peer)
-
-	n.onPeerRemoved(peer)
 }
 
 func (n *net) authorize(c Codec, flag PeerFlag, msg *HandshakeMsg) (superior bool, err error) {
@@ -298,6 +296,7 @@ func (n *net) onPeerAdded(peer *Peer) (err error) {
 		_ = Disconnect(peer.codec, err)
 		return
 	}
+	defer n.onPeerRemoved(peer)
 
 	go n.checkPeer(peer)
 
-- 
2.43.0


From 535170b32a1ec8002e92a5138fcfa8c00a8f4551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:27 +0000
Subject: [PATCH 47/71] fix: unsubscribe from snapshot blocks

---
 net/block_feed.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/block_feed.go b/net/block_feed.go
index af4a442..268b005 100644
--- a/net/block_feed.go
+++ b/net/block_feed.go
@@ -60,7 +60,7 @@ func (bf *blockFeed) SubscribeSnapshotBlock(fn SnapshotBlockCallback) (subId int
 }
 
 func (bf *blockFeed) UnsubscribeSnapshotBlock(subId int) {
-	delete(bf.aSubs, subId)
+	delete(bf.bSubs, subId)
 }
 
 func (bf *blockFeed) notifySnapshotBlock(block *ledger.SnapshotBlock, source types.BlockSource) {
-- 
2.43.0


From b802b4bc646b17801816d945179b5774486143bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:45 +0000
Subject: [PATCH 48/71] fix: a forged copy of a block must not hide the block
 from being accepted

---
 net/broadcaster.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/net/broadcaster.go b/net/broadcaster.go
index e5ec222..c431a08 100644
--- a/net/broadcaster.go
+++ b/net/broadcaster.go
@@ -468,8 +468,7 @@ func (b *broadcaster) handle(msg Msg) (err error) {
 		// use the compute hash, because computeHash can`t be forged
 		hash := block.ComputeHash()
 
-		// check if has exist or record, return true if has exist
-		if exist := b.filter.TestAndAdd(hash[:]); exist {
+		if exist := b.filter.Test(hash[:]); exist {
 			return nil
 		}
 
@@ -478,6 +477,12 @@ func (b *broadcaster) handle(msg Msg) (err error) {
 			return err
 		}
 
+		// record only what has been verified, otherwise a forged copy would hide the real block.
+		// return true if has exist
+		if exist := b.filter.TestAndAdd(hash[:]); exist {
+			return nil
+		}
+
 		if nb.TTL > 0 {
 			nb.TTL--
 			b.forwardSnapshotBlock(nb, msg.Sender)
@@ -514,8 +519,7 @@ func (b *broadcaster) handle(msg Msg) (err error) {
 		// use the compute hash, because computeHash can`t be forged
 		hash := block.ComputeHash()
 
-		// check if has exist or record, return true if has exist
-		if exist := b.filter.TestAndAdd(hash[:]); exist {
+		if exist := b.filter.Test(hash[:]); exist {
 			return nil
 		}
 
@@ -543,6 +547,12 @@ func (b *broadcaster) handle(msg Msg) (err error) {
 			return err
 		}
 
+		// record only what has been verified, otherwise a forged copy would hide the real block.
+		// return true if has exist
+		if exist := b.filter.TestAndAdd(hash[:]); exist {
+			return nil
+		}
+
 		if nb.TTL > 0 {
 			nb.TTL--
 			b.forwardAccountBlock(nb, msg.Sender)
-- 
2.43.0


From 594d227293f0b880d550938b67e7f7ff98fa4a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:24 +0000
Subject: [PATCH 49/71] fix: discovery lookup returns the closest nodes when
 more are known than asked for

---
 net/discovery/table.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/net/discovery/table.go b/net/discovery/table.go
index 60a35ce..147905f 100644
--- a/net/discovery/table.go
+++ b/net/discovery/table.go
@@ -662,8 +662,9 @@ func (c *closet) push(n *Node) {
 
 	// closest Nodes list is full.
 	if length >= cap(c.nodes) {
-		// replace the further one.
+		// insert n, drop the furthest one.
 		if further < length {
+			copy(c.nodes[further+1:], c.nodes[further:])
 			c.nodes[further] = n
 		}
 	} else {
-- 
2.43.0


From f39df0ee17a78d71f20982ec5db828a738c064c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:24 +0000
Subject: [PATCH 50/71] fix: a node replacing a dead one is not put in the
 discovery table twice

---
 net/discovery/table.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/net/discovery/table.go b/net/discovery/table.go
index 147905f..8a94300 100644
--- a/net/discovery/table.go
+++ b/net/discovery/table.go
@@ -455,8 +455,12 @@ func (tab *table) checkReplace(bkt bucket, oldNode, newNode *Node) {
 	tab.socket.ping(oldNode, func(err error) {
 		if err != nil {
 			tab.rw.Lock()
-			if bkt.replace(oldNode.ID, newNode) {
-				delete(tab.nodeMap, oldNode.Address())
+			if bkt.resolve(newNode.ID) != nil || tab.nodeMap[newNode.Address()] != nil {
+				// newNode, or its address, has been added since oldNode was being checked
+				tab.removeLocked(oldNode.ID)
+			} else if current := bkt.resolve(oldNode.ID); current != nil {
+				bkt.replace(oldNode.ID, newNode)
+				delete(tab.nodeMap, current.Address())
 				tab.nodeMap[newNode.Address()] = newNode
 			}
 			tab.rw.Unlock()
-- 
2.43.0


From fafc3e3338bb968a45eb532222e9807849d83745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:12 +0000
Subject: [PATCH 51/71] fix: nodes added to the discovery table at once cannot
 share an address

---
 net/discovery/table.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/net/discovery/table.go b/net/discovery/table.go
index 8a94300..8abce41 100644
--- a/net/discovery/table.go
+++ b/net/discovery/table.go
@@ -398,20 +398,19 @@ func (tab *table) add(node *Node) (toCheck *Node) {
 
 	addr := node.Address()
 
+	tab.rw.Lock()
+	defer tab.rw.Unlock()
+
 	bkt := tab.getBucket(node.ID)
 	old := bkt.resolve(node.ID)
 	if old == nil {
-		tab.rw.Lock()
 		old = tab.nodeMap[addr]
-		tab.rw.Unlock()
 	}
 
 	if old != nil {
 		// nothing change
 		if old.Equal(&node.Node) {
-			tab.rw.Lock()
 			bkt.bubble(node.ID)
-			tab.rw.Unlock()
 			return nil
 		}
 
@@ -425,8 +424,6 @@ func (tab *table) add(node *Node) (toCheck *Node) {
 	}
 
 	// no nodes with the same id and address, and net is the same
-	tab.rw.Lock()
-	defer tab.rw.Unlock()
 	toCheck = bkt.add(node)
 	if toCheck == nil {
 		// bucket not full
-- 
2.43.0


From 724b89250c75afcb4b372f1f13f9495551e181ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:12 +0000
Subject: [PATCH 52/71] fix: a lookup packet asking for too many nodes must not
 exhaust memory

---
 net/discovery/table.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/net/discovery/table.go b/net/discovery/table.go
index 8abce41..b238b96 100644
--- a/net/discovery/table.go
+++ b/net/discovery/table.go
@@ -508,6 +508,11 @@ func (tab *table) bubble(id vnode.NodeID) bool {
 }
 
 func (tab *table) findNeighbors(target vnode.NodeID, count int) (nodes []*Node) {
+	// count may come from a packet, so do not trust it
+	if max := tab.max(); count > max {
+		count = max
+	}
+
 	ns := &closet{
 		nodes: make([]*Node, 0, count),
 		pivot: target,
-- 
2.43.0


From 61520a181a2a3fad41a683f30c92f7160ef0a001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:15 +0000
Subject: [PATCH 53/71] fix: neighbours packets of short endpoints fit the
 packet size

---
 net/discovery/socket.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/net/discovery/socket.go b/net/discovery/socket.go
index 0944506..f46672b 100644
--- a/net/discovery/socket.go
+++ b/net/discovery/socket.go
@@ -259,11 +259,12 @@ func (a *agent) sendNodes(eps []*vnode.EndPoint, to *net.UDPAddr) (err error) {
 func splitEndPoints(eps []*vnode.EndPoint) (ept [][]*vnode.EndPoint) {
 	var sent, bytes int
 	for i, ep := range eps {
-		bytes += ep.Length()
+		// tag and length of the field take 2 bytes
+		bytes += ep.Length() + 2
 
 		if bytes+300 > maxPayloadLength {
 			ept = append(ept, eps[sent:i])
-			bytes = 0
+			bytes = ep.Length() + 2
 			sent = i
 		}
 	}
-- 
2.43.0


From 0c3fc4f1779f1fc38938bda877af44594bf9a2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:15 +0000
Subject: [PATCH 54/71] fix: many neighbours packets at once must not block
 discovery forever

---
 net/discovery/pool.go   | 6 ++++--
 net/discovery/socket.go | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/net/discovery/pool.go b/net/discovery/pool.go
index b4d267c..5628074 100644
--- a/net/discovery/pool.go
+++ b/net/discovery/pool.go
@@ -242,8 +242,10 @@ func (f *findNodeRequest) handle(pkt *packet, err error) bool {
 
 	bd := pkt.body
 	if n, ok := bd.(*neighbors); ok {
-		f.received += len(n.endpoints)
-		f.ch <- n.endpoints
+		if len(n.endpoints) > 0 {
+			f.received += len(n.endpoints)
+			f.ch <- n.endpoints
+		}
 		// the last packet maybe received first
 		if f.received >= f.count || n.last {
 			f.close()
diff --git a/net/discovery/socket.go b/net/discovery/socket.go
index f46672b..0be7dea 100644
--- a/net/discovery/socket.go
+++ b/net/discovery/socket.go
@@ -214,7 +214,8 @@ func (a *agent) findNode(target vnode.NodeID, count int, n *Node) (ch <-chan []*
 		return
 	}
 
-	ch2 := make(chan []*vnode.EndPoint, 1)
+	// a request is done after count endpoints, so the pool will not be blocked by a full channel
+	ch2 := make(chan []*vnode.EndPoint, count)
 	a.pool.add(&request{
 		expectID:   n.ID,
 		expectFrom: udp.String(),
-- 
2.43.0


From 56ed9803dd719163d2968f86a3a68216891ea8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:15 +0000
Subject: [PATCH 55/71] fix: another node answering at a known node's address
 does not take over its table entry

---
 net/discovery/discovery.go |  7 ++++---
 net/discovery/node.go      | 17 +++++++++++++++++
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/net/discovery/discovery.go b/net/discovery/discovery.go
index bb69757..3254ddc 100644
--- a/net/discovery/discovery.go
+++ b/net/discovery/discovery.go
@@ -42,6 +42,7 @@ const dbCleanInterval = time.Hour
 var errDiscoveryIsRunning = errors.New("discovery is running")
 var errDiscoveryIsStopped = errors.New("discovery is stopped")
 var errDifferentNet = errors.New("different net")
+var errDifferentID = errors.New("different node id")
 
 var discvLog = log15.New("module", "discovery")
 
@@ -286,9 +287,9 @@ func (d *Discovery) ping(n *Node, callback func(err error)) {
 			callback(err)
 			return
 		} else if r.status == ping_success && now-r.time < 10*60 {
-			n.update(r.node)
+			err := n.confirm(r.node)
 			d.mu.Unlock()
-			callback(nil)
+			callback(err)
 			return
 		}
 	}
@@ -319,7 +320,7 @@ func (d *Discovery) ping(n *Node, callback func(err error)) {
 			r.err = err
 			r.node = n
 		} else {
-			n.update(node)
+			r.err = n.confirm(node)
 			r.status = ping_success
 			r.node = node
 		}
diff --git a/net/discovery/node.go b/net/discovery/node.go
index 31943b8..14e368a 100644
--- a/net/discovery/node.go
+++ b/net/discovery/node.go
@@ -47,6 +47,23 @@ func (n *Node) update(n2 *Node) {
 	n.EndPoint = n2.EndPoint
 }
 
+// confirm checks that the node n2, found at the address of n, is n itself.
+// n maybe in the table, where its id and address must not change, so only a node with unknown id takes them.
+func (n *Node) confirm(n2 *Node) error {
+	if n.ID == vnode.ZERO {
+		n.update(n2)
+		return nil
+	}
+
+	if n.ID != n2.ID {
+		return errDifferentID
+	}
+
+	n.Ext = n2.Ext
+	n.Net = n2.Net
+	return nil
+}
+
 func (n *Node) needCheck() bool {
 	// 10 minutes
 	now := time.Now().Unix()
-- 
2.43.0


From 8e45a604f150d5bcc6df50aa58106d93c9192ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:40 +0000
Subject: [PATCH 56/71] fix: an entropy store with damaged scrypt parameters is
 refused instead of crashing

---
 wallet/entropystore/crypto_store.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/wallet/entropystore/crypto_store.go b/wallet/entropystore/crypto_store.go
index 1965c99..136d4dd 100644
--- a/wallet/entropystore/crypto_store.go
+++ b/wallet/entropystore/crypto_store.go
@@ -31,6 +31,11 @@ const (
 	scryptR      = 8
 	scryptKeyLen = 32
 
+	// limits of the Scrypt parameters accepted from a file
+	maxScryptN = 1 << 20
+	maxScryptR = 16
+	maxScryptP = 16
+
 	aesMode    = "aes-256-gcm"
 	scryptName = "scrypt"
 )
@@ -116,6 +121,13 @@ func parseJson(keyjson []byte) (k *entropyJSON, kAddress *types.Address, cipherD
 
 	// parse and check  scryptParams params
 	scryptParams := k.Crypto.ScryptParams
+	if scryptParams.KeyLen != scryptKeyLen {
+		return nil, nil, nil, nil, nil, fmt.Errorf("scrypt keylen error : %v", scryptParams.KeyLen)
+	}
+	// the file maybe damaged, do not take more memory or time than a store can need
+	if scryptParams.N > maxScryptN || scryptParams.R < 1 || scryptParams.R > maxScryptR || scryptParams.P < 1 || scryptParams.P > maxScryptP {
+		return nil, nil, nil, nil, nil, fmt.Errorf("scrypt params error : n %v r %v p %v", scryptParams.N, scryptParams.R, scryptParams.P)
+	}
 	salt, err = hex.DecodeString(scryptParams.Salt)
 	if err != nil {
 		return nil, nil, nil, nil, nil, err
-- 
2.43.0


From 983724c56b5c3643c303aae87d883791a9f8a924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:55 +0000
Subject: [PATCH 57/71] fix: an entropy store with a nonce of wrong length is
 refused instead of crashing

---
 crypto/crypto.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index 8d08c14..9480abc 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -135,6 +135,10 @@ func AesGCMDecrypt(key, cipherText, nonce []byte) ([]byte, error) {
 		return nil, err
 	}
 
+	if len(nonce) != stream.NonceSize() {
+		return nil, errors.New("unexpected length of nonce")
+	}
+
 	outText, err := stream.Open(nil, nonce, cipherText, []byte(gcmAdditionData))
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 94a2b18c933846111f0ae01359f36acafe24ba5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:55 +0000
Subject: [PATCH 58/71] fix: an entropy store made from a mnemonic with extra
 white space can be opened

---
 wallet/entropystore/manager.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/wallet/entropystore/manager.go b/wallet/entropystore/manager.go
index d9fdbb6..663cd88 100644
--- a/wallet/entropystore/manager.go
+++ b/wallet/entropystore/manager.go
@@ -230,7 +230,16 @@ func StoreNewEntropy(storeDir string, mnemonic string, pwd string, maxSearchInde
 		return nil, e
 	}
 
+	// the seed is always recovered from the entropy, so the white space in mnemonic must not matter
+	mnemonic, e = bip39.NewMnemonic(entropy)
+	if e != nil {
+		return nil, e
+	}
+
 	primaryAddress, e := MnemonicToPrimaryAddr(mnemonic)
+	if e != nil {
+		return nil, e
+	}
 
 	filename := FullKeyFileName(storeDir, *primaryAddress)
 	ss := CryptoStore{filename}
-- 
2.43.0


From 5c8139c4ee8cd131a4429ded294e55766283ace4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:37 +0000
Subject: [PATCH 59/71] fix: the contract round that starts 75 s after genesis
 has a schedule

---
 ledger/consensus/consensus_contract_dpos.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ledger/consensus/consensus_contract_dpos.go b/ledger/consensus/consensus_contract_dpos.go
index db4e319..349a022 100644
--- a/ledger/consensus/consensus_contract_dpos.go
+++ b/ledger/consensus/consensus_contract_dpos.go
@@ -95,8 +95,8 @@ func (contract *contractDposCs) calVotes(block *ledger.SnapshotBlock) ([]types.A
 func (contract *contractDposCs) GenProofTime(idx uint64) time.Time {
 	sTime, _ := contract.Index2Time(idx)
 	sTime = sTime.Add(-time.Second * 75)
-	// if before genesis'time, just use genesis'time + 1s
-	if sTime.Before(contract.GenesisTime) {
+	// if not after genesis'time, just use genesis'time + 1s
+	if !sTime.After(contract.GenesisTime) {
 		return contract.GenesisTime.Add(time.Second)
 	}
 	return sTime
-- 
2.43.0


From d1a4308af7dbf93ee5c171fbf0875208cbb5cdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:13 +0000
Subject: [PATCH 60/71] fix: a malformed RPC request is answered by itself,
 without ending its connection or batch

---
 rpc/json.go | 118 +++++++++++++++++-----------------------------------
 1 file changed, 39 insertions(+), 79 deletions(-)

diff --git a/rpc/json.go b/rpc/json.go
index e7089f2..0ae32cf 100644
--- a/rpc/json.go
+++ b/rpc/json.go
@@ -166,108 +166,68 @@ func checkReqId(reqId json.RawMessage) error {
 	return fmt.Errorf("invalid request id")
 }
 
-// parseRequest will parse chain single request from the given RawMessage. It will return
-// the parsed request, an indication if the request was chain batch or an error when
-// the request could not be parsed.
+// parseRequest will parse chain single request from the given RawMessage. A request that
+// could not be parsed carries its own error, so that it is answered without affecting the
+// other requests of the connection.
 func parseRequest(incomingMsg json.RawMessage) ([]rpcRequest, bool, Error) {
-	var in jsonRequest
+	return []rpcRequest{parseSingleRequest(incomingMsg)}, false, nil
+}
+
+// parseBatchRequest will parse chain batch request into chain collection of requests from the given RawMessage, an indication
+// if the request was chain batch or an error when the request could not be read. A request of
+// the batch that could not be parsed carries its own error.
+func parseBatchRequest(incomingMsg json.RawMessage) ([]rpcRequest, bool, Error) {
+	var in []json.RawMessage
 	if err := json.Unmarshal(incomingMsg, &in); err != nil {
 		return nil, false, &invalidMessageError{err.Error()}
 	}
 
+	requests := make([]rpcRequest, len(in))
+	for i, r := range in {
+		requests[i] = parseSingleRequest(r)
+	}
+	return requests, true, nil
+}
+
+func parseSingleRequest(incomingMsg json.RawMessage) rpcRequest {
+	in := new(jsonRequest)
+	if err := json.Unmarshal(incomingMsg, in); err != nil {
+		return rpcRequest{err: &invalidMessageError{err.Error()}}
+	}
+
 	if err := checkReqId(in.Id); err != nil {
-		return nil, false, &invalidMessageError{err.Error()}
+		return rpcRequest{err: &invalidMessageError{err.Error()}}
 	}
 
 	// subscribe are special, they will always use `subscribeMethod` as first param in the payload
 	if strings.HasSuffix(in.Method, subscribeMethodSuffix) {
-		reqs := []rpcRequest{{id: &in.Id, isPubSub: true}}
-		if len(in.Payload) > 0 {
-			// first param must be subscription name
-			var subscribeMethod [1]string
-			if err := json.Unmarshal(in.Payload, &subscribeMethod); err != nil {
-				log.Debug(fmt.Sprintf("Unable to parse subscription method: %v\n", err))
-				return nil, false, &invalidRequestError{"Unable to parse subscription request", in.Id}
-			}
-
-			reqs[0].service, reqs[0].method = strings.TrimSuffix(in.Method, subscribeMethodSuffix), subscribeMethod[0]
-			reqs[0].params = in.Payload
-			return reqs, false, nil
+		// first param must be subscription name
+		var subscribeMethod [1]string
+		if len(in.Payload) == 0 {
+			return rpcRequest{id: &in.Id, err: &invalidRequestError{"Unable to parse subscription request", in.Id}}
 		}
-		return nil, false, &invalidRequestError{"Unable to parse subscription request", in.Id}
+		if err := json.Unmarshal(in.Payload, &subscribeMethod); err != nil {
+			log.Debug(fmt.Sprintf("Unable to parse subscription method: %v\n", err))
+			return rpcRequest{id: &in.Id, err: &invalidRequestError{"Unable to parse subscription request", in.Id}}
+		}
+		return rpcRequest{id: &in.Id, isPubSub: true, service: strings.TrimSuffix(in.Method, subscribeMethodSuffix),
+			method: subscribeMethod[0], params: in.Payload}
 	}
 
 	if strings.HasSuffix(in.Method, unsubscribeMethodSuffix) {
-		return []rpcRequest{{id: &in.Id, isPubSub: true,
-			method: in.Method, params: in.Payload}}, false, nil
+		return rpcRequest{id: &in.Id, isPubSub: true, method: in.Method, params: in.Payload}
 	}
 
 	elems := strings.Split(in.Method, serviceMethodSeparator)
 	if len(elems) != 2 {
-		return nil, false, &methodNotFoundError{in.Method, "", in.Id}
+		return rpcRequest{id: &in.Id, err: &methodNotFoundError{in.Method, "", in.Id}}
 	}
 
 	// regular RPC call
 	if len(in.Payload) == 0 {
-		return []rpcRequest{{service: elems[0], method: elems[1], id: &in.Id}}, false, nil
+		return rpcRequest{service: elems[0], method: elems[1], id: &in.Id}
 	}
-
-	return []rpcRequest{{service: elems[0], method: elems[1], id: &in.Id, params: in.Payload}}, false, nil
-}
-
-// parseBatchRequest will parse chain batch request into chain collection of requests from the given RawMessage, an indication
-// if the request was chain batch or an error when the request could not be read.
-func parseBatchRequest(incomingMsg json.RawMessage) ([]rpcRequest, bool, Error) {
-	var in []jsonRequest
-	if err := json.Unmarshal(incomingMsg, &in); err != nil {
-		return nil, false, &invalidMessageError{err.Error()}
-	}
-
-	requests := make([]rpcRequest, len(in))
-	for i, r := range in {
-		if err := checkReqId(r.Id); err != nil {
-			return nil, false, &invalidMessageError{err.Error()}
-		}
-
-		id := &in[i].Id
-
-		// subscribe are special, they will always use `subscriptionMethod` as first param in the payload
-		if strings.HasSuffix(r.Method, subscribeMethodSuffix) {
-			requests[i] = rpcRequest{id: id, isPubSub: true}
-			if len(r.Payload) > 0 {
-				// first param must be subscription name
-				var subscribeMethod [1]string
-				if err := json.Unmarshal(r.Payload, &subscribeMethod); err != nil {
-					log.Debug(fmt.Sprintf("Unable to parse subscription method: %v\n", err))
-					return nil, false, &invalidRequestError{"Unable to parse subscription request", id}
-				}
-
-				requests[i].service, requests[i].method = strings.TrimSuffix(r.Method, subscribeMethodSuffix), subscribeMethod[0]
-				requests[i].params = r.Payload
-				continue
-			}
-
-			return nil, true, &invalidRequestError{"Unable to parse (un)subscribe request arguments", id}
-		}
-
-		if strings.HasSuffix(r.Method, unsubscribeMethodSuffix) {
-			requests[i] = rpcRequest{id: id, isPubSub: true, method: r.Method, params: r.Payload}
-			continue
-		}
-
-		if len(r.Payload) == 0 {
-			requests[i] = rpcRequest{id: id, params: nil}
-		} else {
-			requests[i] = rpcRequest{id: id, params: r.Payload}
-		}
-		if elem := strings.Split(r.Method, serviceMethodSeparator); len(elem) == 2 {
-			requests[i].service, requests[i].method = elem[0], elem[1]
-		} else {
-			requests[i].err = &methodNotFoundError{r.Method, "", id}
-		}
-	}
-
-	return requests, true, nil
+	return rpcRequest{service: elems[0], method: elems[1], id: &in.Id, params: in.Payload}
 }
 
 // ParseRequestArguments tries to parse the given params (json.RawMessage) with the given
-- 
2.43.0


From 0d591323013861a0c9f3681ad916ac02b4a28a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:13 +0000
Subject: [PATCH 61/71] fix: a panicking RPC subscription is answered with an
 error instead of ending the process

---
 rpc/server.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/rpc/server.go b/rpc/server.go
index 41ecd3b..2a2665e 100644
--- a/rpc/server.go
+++ b/rpc/server.go
@@ -288,6 +288,14 @@ func (s *Server) handle(ctx context.Context, codec ServerCodec, req *serverReque
 		return codec.CreateErrorResponse(&req.id, req.err), nil
 	}
 
+	defer func() {
+		if err := recover(); err != nil {
+			log.Error(fmt.Sprintf("%v\n", err))
+			result = codec.CreateErrorResponse(req.id, &executePanicError{})
+			f = nil
+		}
+	}()
+
 	if req.isUnsubscribe { // cancel subscription, first param must be the subscription id
 		if len(req.args) >= 1 && req.args[0].Kind() == reflect.String {
 			notifier, supported := NotifierFromContext(ctx)
@@ -336,13 +344,6 @@ func (s *Server) handle(ctx context.Context, codec ServerCodec, req *serverReque
 		arguments = append(arguments, req.args...)
 	}
 
-	defer func() {
-		if err := recover(); err != nil {
-			log.Error(fmt.Sprintf("%v\n", err))
-			result = codec.CreateErrorResponse(req.id, &executePanicError{})
-			f = nil
-		}
-	}()
 	// execute RPC method and return result
 	reply := req.callb.method.Func.Call(arguments)
 	if len(reply) == 0 {
-- 
2.43.0


From 50f8f1ef28ed2ea262cca99ae9e247f11c3333b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:13 +0000
Subject: [PATCH 62/71] fix: an RPC client whose write failed no longer leaves
 its other callers waiting

---
 rpc/client.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/rpc/client.go b/rpc/client.go
index e33ca39..8f2a08a 100644
--- a/rpc/client.go
+++ b/rpc/client.go
@@ -586,7 +586,22 @@ func (c *Client) dispatch(conn net.Conn) {
 			if reading {
 				// Wait for the previous read loop to exit. This is chain rare case.
 				conn.Close()
-				<-c.readErr
+				for reading {
+					select {
+					case <-c.readResp:
+					case err := <-c.readErr:
+						reading = false
+						// Nothing sent on the previous connection will be answered. The
+						// operation that reconnected is sent on the new one.
+						for _, id := range lastOp.ids {
+							delete(c.respWait, string(id))
+						}
+						c.closeRequestOps(err)
+						for _, id := range lastOp.ids {
+							c.respWait[string(id)] = lastOp
+						}
+					}
+				}
 			}
 			go c.read(newconn)
 			reading = true
-- 
2.43.0


From 3a7694865619ec0863826c2e43c15b283ab62cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:31 +0000
Subject: [PATCH 63/71] fix: the switch of the state cache is read and written
 atomically

---
 ledger/chain/state/cache.go    | 14 ++++++++++----
 ledger/chain/state/state_db.go |  6 ++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/ledger/chain/state/cache.go b/ledger/chain/state/cache.go
index b9f3220..892fec4 100644
--- a/ledger/chain/state/cache.go
+++ b/ledger/chain/state/cache.go
@@ -1,6 +1,8 @@
 package chain_state
 
 import (
+	"sync/atomic"
+
 	"github.com/patrickmn/go-cache"
 
 	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/util"
@@ -39,11 +41,15 @@ func (sDB *StateDB) initCache() error {
 }
 
 func (sDB *StateDB) disableCache() {
-	sDB.useCache = false
+	atomic.StoreUint32(&sDB.useCache, 0)
 }
 
 func (sDB *StateDB) enableCache() {
-	sDB.useCache = true
+	atomic.StoreUint32(&sDB.useCache, 1)
+}
+
+func (sDB *StateDB) isCacheEnabled() bool {
+	return atomic.LoadUint32(&sDB.useCache) == 1
 }
 
 func (sDB *StateDB) initSnapshotValueCache() error {
@@ -84,7 +90,7 @@ func (sDB *StateDB) initContractMetaCache() error {
 func (sDB *StateDB) getValue(key []byte, cachePrefix string) ([]byte, error) {
 	ok := false
 	var value interface{}
-	if sDB.useCache {
+	if sDB.isCacheEnabled() {
 		value, ok = sDB.cache.Get(cachePrefix + string(key))
 	}
 	if !ok {
@@ -98,7 +104,7 @@ func (sDB *StateDB) getValue(key []byte, cachePrefix string) ([]byte, error) {
 }
 
 func (sDB *StateDB) getValueInCache(key []byte, cachePrefix string) ([]byte, error) {
-	if !sDB.useCache {
+	if !sDB.isCacheEnabled() {
 		return sDB.getValue(key, cachePrefix)
 	}
 	value, ok := sDB.cache.Get(cachePrefix + string(key))
diff --git a/ledger/chain/state/state_db.go b/ledger/chain/state/state_db.go
index bc9d3a1..0dc239c 100644
--- a/ledger/chain/state/state_db.go
+++ b/ledger/chain/state/state_db.go
@@ -40,7 +40,7 @@ type StateDB struct {
 	log log15.Logger
 
 	redo     *Redo
-	useCache bool
+	useCache uint32 // atomic
 
 	consensusCacheLevel uint32
 	roundCache          *RoundCache
@@ -75,7 +75,6 @@ func NewStateDBWithStore(chain Chain, chainCfg *config.Chain, store *chain_db.St
 		vmLogAll:            chainCfg.VmLogAll,
 		log:                 log15.New("module", "stateDB"),
 		store:               store,
-		useCache:            false,
 		consensusCacheLevel: ConsensusNoCache,
 		redo:                storageRedo,
 	}
@@ -174,7 +173,6 @@ func (sDB *StateDB) GetCode(addr types.Address) ([]byte, error) {
 	return code, nil
 }
 
-//
 func (sDB *StateDB) GetContractMeta(addr types.Address) (*ledger.ContractMeta, error) {
 	value, err := sDB.getValueInCache(chain_utils.CreateContractMetaKey(addr).Bytes(), contractAddrPrefix)
 	if err != nil {
@@ -310,7 +308,7 @@ func (sDB *StateDB) GetSnapshotBalanceList(balanceMap map[types.Address]*big.Int
 
 func (sDB *StateDB) GetSnapshotValue(snapshotBlockHeight uint64, addr types.Address, key []byte) ([]byte, error) {
 
-	if sDB.useCache && sDB.shouldCacheContractData(addr) && snapshotBlockHeight == sDB.chain.GetLatestSnapshotBlock().Height {
+	if sDB.isCacheEnabled() && sDB.shouldCacheContractData(addr) && snapshotBlockHeight == sDB.chain.GetLatestSnapshotBlock().Height {
 		return sDB.getValueInCache(append(addr.Bytes(), key...), snapshotValuePrefix)
 	}
 
-- 
2.43.0


From a121f0449de46e8ee070f32bb06bec31160cfb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:31 +0000
Subject: [PATCH 64/71] fix: the latest location of the block files is read
 under its lock

---
 ledger/chain/file_manager/fd_manager.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ledger/chain/file_manager/fd_manager.go b/ledger/chain/file_manager/fd_manager.go
index 7d6c586..c6cdcdf 100644
--- a/ledger/chain/file_manager/fd_manager.go
+++ b/ledger/chain/file_manager/fd_manager.go
@@ -86,8 +86,10 @@ func newFdManager(fileManager *FileManager, dirName string, fileSize int, cacheL
 }
 
 func (fdSet *fdManager) LatestLocation() *Location {
-	writeFd := fdSet.GetWriteFd()
-	return NewLocation(writeFd.cacheItem.FileId, writeFd.cacheItem.BufferLen)
+	cacheItem := fdSet.GetWriteFd().cacheItem
+	cacheItem.Mu.RLock()
+	defer cacheItem.Mu.RUnlock()
+	return NewLocation(cacheItem.FileId, cacheItem.BufferLen)
 }
 
 func (fdSet *fdManager) GetFd(fileId uint64) (*fileDescription, error) {
-- 
2.43.0


From 20603e831307244bd0cc3aed33fa024326526eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:31 +0000
Subject: [PATCH 65/71] fix: choosing the blocks a snapshot drops no longer
 writes to blocks shared with readers

---
 ledger/chain/unconfirmed.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ledger/chain/unconfirmed.go b/ledger/chain/unconfirmed.go
index c86d2d6..3729838 100644
--- a/ledger/chain/unconfirmed.go
+++ b/ledger/chain/unconfirmed.go
@@ -131,13 +131,14 @@ func (c *chain) filterUnconfirmedBlocks(snapshotBlock *ledger.SnapshotBlock, che
 		// quota
 		if valid {
 			var err error
-			// reset quota
-			block.Quota, err = quota.CalcBlockQuotaUsed(c, block, snapshotBlock.Height)
+			// reset quota, on a copy: the block belongs to the cache and is shared with the readers
+			resetBlock := *block
+			resetBlock.Quota, err = quota.CalcBlockQuotaUsed(c, block, snapshotBlock.Height)
 
 			if err != nil {
 				c.log.Error(fmt.Sprintf("quota.CalcBlockQuotaUsed failed when filterUnconfirmedBlocks. Error: %s", err), "method", "filterInvalidUnconfirmedBlocks")
 				valid = false
-			} else if enough, err := c.checkQuota(quotaUnusedCache, quotaUsedCache, block, snapshotBlock.Height); err != nil {
+			} else if enough, err := c.checkQuota(quotaUnusedCache, quotaUsedCache, &resetBlock, snapshotBlock.Height); err != nil {
 				cErr := fmt.Errorf("c.checkQuota failed, block is %+v. Error: %s", block, err)
 				c.log.Error(cErr.Error(), "method", "filterInvalidUnconfirmedBlocks")
 				valid = false
-- 
2.43.0


From 6fc3aaf0259a83dca3a1299c411420b9a2721581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:31 +0000
Subject: [PATCH 66/71] fix: a list of account blocks read while the index
 changes no longer panics

---
 ledger/chain/account_block.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ledger/chain/account_block.go b/ledger/chain/account_block.go
index 88278df..7d004fd 100644
--- a/ledger/chain/account_block.go
+++ b/ledger/chain/account_block.go
@@ -347,9 +347,13 @@ func (c *chain) getAccountBlocks(addr types.Address, locations []*chain_file_man
 	index := 0
 
 	for currentHeight >= startHeight {
+		// the index was changed while it was read, there is no complete list
+		if len(locations) <= index {
+			return nil, nil
+		}
 		block := c.cache.GetAccountBlockByHeight(addr, currentHeight)
 		if block == nil {
-			if len(locations) <= index || locations[index] == nil {
+			if locations[index] == nil {
 				return nil, nil
 			}
 			var err error
-- 
2.43.0


From 5cb474c6295bce9e6ddf5357e08cb2009e37165d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:31 +0000
Subject: [PATCH 67/71] fix: a ledger range that ends before it starts no
 longer panics

---
 ledger/chain/file_manager/file_manager.go | 5 +++++
 ledger/chain/snapshot_block.go            | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/ledger/chain/file_manager/file_manager.go b/ledger/chain/file_manager/file_manager.go
index a8560b4..b66ac0e 100644
--- a/ledger/chain/file_manager/file_manager.go
+++ b/ledger/chain/file_manager/file_manager.go
@@ -278,6 +278,11 @@ func (fm *FileManager) ReadRange(startLocation *Location, endLocation *Location,
 		if currentLocation.FileId == realEndLocation.FileId {
 			toLocation = realEndLocation
 		}
+		if toLocation.Offset < currentLocation.Offset {
+			fd.Close()
+			parser.WriteError(fmt.Errorf("the range ends before it starts, start is %+v, end is %+v", currentLocation, toLocation))
+			return
+		}
 
 		buf, err := fm.readFile(fd, currentLocation, toLocation)
 		fd.Close()
diff --git a/ledger/chain/snapshot_block.go b/ledger/chain/snapshot_block.go
index 152ec8c..46e2b09 100644
--- a/ledger/chain/snapshot_block.go
+++ b/ledger/chain/snapshot_block.go
@@ -684,6 +684,9 @@ func (c *chain) GetSubLedger(startHeight, endHeight uint64) ([]*ledger.SnapshotC
 	if endHeight > latestSb.Height {
 		endHeight = latestSb.Height
 	}
+	if startHeight > endHeight {
+		return nil, nil
+	}
 	// query location
 	var startLocation *chain_file_manager.Location
 	if startHeight <= 0 {
-- 
2.43.0


From fada4d9d62819c41a9e07c88c5897c166cf33481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:31 +0000
Subject: [PATCH 68/71] fix: readers of a store see a write batch as a whole

---
 ledger/chain/db/store.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ledger/chain/db/store.go b/ledger/chain/db/store.go
index cadcdbf..e052aab 100644
--- a/ledger/chain/db/store.go
+++ b/ledger/chain/db/store.go
@@ -185,6 +185,10 @@ func (store *Store) getSnapshotMemDb() (*memdb.DB, uint64) {
 	return mdb, seq
 }
 
+// the readers see all of the batch or nothing of it
 func (store *Store) putMemDb(batch *leveldb.Batch) {
+	store.memDbMu.Lock()
+	defer store.memDbMu.Unlock()
+
 	batch.Replay(store.memDb)
 }
-- 
2.43.0


From 7fac8e40c4b32503634f155039b8e636ec531a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:32 +0000
Subject: [PATCH 69/71] fix: UnRegister removes the listener it was given

The loop variable shadowed the argument, so the first registered listener was
removed: stopping the pool cut the on-road index off from the chain's events.
---
 ledger/chain/event_manager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ledger/chain/event_manager.go b/ledger/chain/event_manager.go
index 367aa36..4666142 100644
--- a/ledger/chain/event_manager.go
+++ b/ledger/chain/event_manager.go
@@ -167,8 +167,8 @@ func (em *eventManager) UnRegister(listener interfaces.EventListener) {
 	em.mu.Lock()
 	defer em.mu.Unlock()
 
-	for index, listener := range em.listenerList {
-		if listener == listener {
+	for index, item := range em.listenerList {
+		if item == listener {
 			em.listenerList = append(em.listenerList[:index], em.listenerList[index+1:]...)
 			break
 		}
-- 
2.43.0


From 4cf0abdfff0a684701988baf78b7b39dd39268af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:50 +0000
Subject: [PATCH 70/71] fix: a fork of the first snapshot after genesis can be
 resolved

Switching to a longer branch rolls back to the fork point; with the genesis
block as the fork point the chain refused, so the node stayed on the shorter
branch for ever.
---
 ledger/pool/pool_fork_checker.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ledger/pool/pool_fork_checker.go b/ledger/pool/pool_fork_checker.go
index 28ea7c5..47ebe79 100644
--- a/ledger/pool/pool_fork_checker.go
+++ b/ledger/pool/pool_fork_checker.go
@@ -123,7 +123,12 @@ func (pl *pool) findForkKeyPoint(longest tree.Branch) (*snapshotPoolBlock, error
 func (pl *pool) snapshotRollback(longest tree.Branch, keyPoint *snapshotPoolBlock) error {
 	pl.log.Info("rollback snapshot chain", "height", keyPoint.Height(), "hash", keyPoint.Hash())
 
-	snapshots, accounts, e := pl.pendingSc.rw.delToHeight(keyPoint.block.Height)
+	height := keyPoint.block.Height
+	if height <= types.GenesisHeight {
+		// the genesis block is never deleted
+		height = types.GenesisHeight + 1
+	}
+	snapshots, accounts, e := pl.pendingSc.rw.delToHeight(height)
 	if e != nil {
 		return e
 	}
-- 
2.43.0


From 2d16dc41bd8960cb521b1f8be8d7a4bc580c908c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:17 +0000
Subject: [PATCH 71/71] fix: stopping a condition timer releases every waiter

---
 common/condTimer.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/common/condTimer.go b/common/condTimer.go
index e701177..ffdc914 100644
--- a/common/condTimer.go
+++ b/common/condTimer.go
@@ -18,21 +18,31 @@ func NewCondTimer() *CondTimer {
 }
 
 func (self *CondTimer) Wait() {
+	self.cd.L.Lock()
+	defer self.cd.L.Unlock()
 	old := atomic.SwapUint32(&self.notifyNum, 0)
 	if old > 0 {
 		return
 	}
-	self.cd.L.Lock()
-	defer self.cd.L.Unlock()
+	select {
+	case <-self.closed:
+		// nobody will end the wait any more
+		return
+	default:
+	}
 	self.cd.Wait()
 }
 
 func (self *CondTimer) Broadcast() {
+	self.cd.L.Lock()
+	defer self.cd.L.Unlock()
 	atomic.AddUint32(&self.notifyNum, 1)
 	self.cd.Broadcast()
 }
 
 func (self *CondTimer) Signal() {
+	self.cd.L.Lock()
+	defer self.cd.L.Unlock()
 	atomic.AddUint32(&self.notifyNum, 1)
 	self.cd.Signal()
 }
-- 
2.43.0

