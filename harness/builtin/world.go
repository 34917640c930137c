package main

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/log15"
	"github.com/vitelabs/go-vite/v2/vm"
	"github.com/vitelabs/go-vite/v2/vm/util"
	"github.com/vitelabs/go-vite/v2/vm_db"
)

// eraLen is the number of snapshot blocks between two upgrades: version v is active from v*eraLen.
const (
	eraLen      = 3000000
	genesisTime = int64(1600000000)
)

func initForks() {
	log15.Root().SetHandler(log15.DiscardHandler())
	upgrade.CleanupUpgradeBox()
	m := map[string]*upgrade.UpgradePoint{}
	for i := 1; i <= 14; i++ {
		n := fmt.Sprintf("v%d", i)
		m[n] = &upgrade.UpgradePoint{Name: n, Height: uint64(i) * eraLen, Version: uint32(i)}
	}
	upgrade.InitUpgradeBox(upgrade.NewCustomUpgradeBox(m))
	vm.InitVMConfig(false, true, false, false, "")
}

func snap(h uint64) *ledger.SnapshotBlock {
	t := time.Unix(genesisTime+int64(h)-1, 0)
	s := &ledger.SnapshotBlock{Height: h, Timestamp: &t}
	s.Hash = types.DataHash([]byte(fmt.Sprintf("snapshot %d", h)))
	return s
}

// world is a ledger in memory: balances, storage, heights and unreceived sends. The code under
// test runs on top of it through the real vm and the real vm_db.
type world struct {
	h       uint64
	bal     map[types.Address]map[types.TokenTypeId]*big.Int
	stor    map[types.Address]map[string][]byte
	prev    map[types.Address]*ledger.AccountBlock
	blocks  map[types.Hash]*ledger.AccountBlock
	depth   map[types.Hash]uint16
	confirm map[types.Hash]uint64
	pend    []*ledger.AccountBlock
	reader  util.ConsensusReader
	nonce   int
	// sums by token of what came into being and what ceased to exist
	minted, gone map[types.TokenTypeId]*big.Int
}

func newWorld(h uint64) *world {
	return &world{h: h, bal: map[types.Address]map[types.TokenTypeId]*big.Int{}, stor: map[types.Address]map[string][]byte{},
		prev: map[types.Address]*ledger.AccountBlock{}, blocks: map[types.Hash]*ledger.AccountBlock{}, depth: map[types.Hash]uint16{},
		confirm: map[types.Hash]uint64{}, minted: map[types.TokenTypeId]*big.Int{}, gone: map[types.TokenTypeId]*big.Int{}}
}

func (w *world) give(a types.Address, t types.TokenTypeId, n *big.Int) {
	m := w.bal[a]
	if m == nil {
		m = map[types.TokenTypeId]*big.Int{}
		w.bal[a] = m
	}
	m[t] = new(big.Int).Add(w.balance(a, t), n)
}

func (w *world) balance(a types.Address, t types.TokenTypeId) *big.Int {
	if b := w.bal[a][t]; b != nil {
		return new(big.Int).Set(b)
	}
	return new(big.Int)
}

func (w *world) put(a types.Address, k, v []byte) {
	m := w.stor[a]
	if m == nil {
		m = map[string][]byte{}
		w.stor[a] = m
	}
	if len(v) == 0 {
		delete(m, string(k))
	} else {
		m[string(k)] = append([]byte{}, v...)
	}
}

func (w *world) version() int { return int(w.h / eraLen) }

// db is a read-only view of one account, as queries use it.
func (w *world) db(a types.Address) interfaces.VmDb { return vm_db.NewVmDbByAddr(w, &a) }

type result struct {
	block *ledger.AccountBlock
	sends []*ledger.AccountBlock
	err   error // what the execution reported; a receive with an error is still a block
	retry bool
	none  bool // no block came out
	set   [][2][]byte
	logs  ledger.VmLogList
}

func (w *world) run(b, from *ledger.AccountBlock, st util.GlobalStatus) (r result, panicked interface{}) {
	defer func() {
		if p := recover(); p != nil {
			panicked = p
		}
	}()
	s := snap(w.h)
	ph := types.Hash{}
	b.Height = 1
	if p := w.prev[b.AccountAddress]; p != nil {
		ph, b.Height = p.Hash, p.Height+1
	}
	b.PrevHash = ph
	db, err := vm_db.NewVmDb(w, &b.AccountAddress, &s.Hash, &ph)
	if err != nil {
		panic(err)
	}
	out, retry, err := vm.NewVM(w.reader).RunV2(db, b, from, st)
	r.err, r.retry = err, retry
	if out == nil {
		r.none = true
		return
	}
	o := out.AccountBlock
	w.nonce++
	if o.BlockType == ledger.BlockTypeSendCall || o.BlockType == ledger.BlockTypeSendCreate {
		o.Hash = types.DataHash([]byte(fmt.Sprintf("send %d %s", w.nonce, o.AccountAddress)))
	} else {
		for i, x := range o.SendBlockList {
			x.Hash = x.ComputeSendHash(o, uint8(i))
		}
		o.Hash = types.DataHash([]byte(fmt.Sprintf("recv %d %s", w.nonce, o.AccountAddress)))
	}
	for t, v := range out.VmDb.GetUnsavedBalanceMap() {
		if w.bal[b.AccountAddress] == nil {
			w.bal[b.AccountAddress] = map[types.TokenTypeId]*big.Int{}
		}
		w.bal[b.AccountAddress][t] = new(big.Int).Set(v)
	}
	for _, kv := range out.VmDb.GetUnsavedStorage() {
		k, v := append([]byte{}, kv[0]...), append([]byte{}, kv[1]...)
		r.set = append(r.set, [2][]byte{k, v})
		w.put(b.AccountAddress, k, v)
	}
	r.logs = out.VmDb.GetLogList()
	r.block, r.sends = o, o.SendBlockList
	w.prev[b.AccountAddress] = o
	w.blocks[o.Hash] = o
	if o.IsSendBlock() {
		w.pend = append(w.pend, o)
		w.confirm[o.Hash] = w.h
	}
	for _, x := range o.SendBlockList {
		w.blocks[x.Hash] = x
		w.pend = append(w.pend, x)
		w.confirm[x.Hash] = w.h
		w.depth[x.Hash] = w.depth[from.Hash] + 1
	}
	return
}

// send runs a send block of an account.
func (w *world) send(from, to types.Address, tok types.TokenTypeId, amt *big.Int, data []byte) (result, interface{}) {
	b := &ledger.AccountBlock{BlockType: ledger.BlockTypeSendCall, AccountAddress: from, ToAddress: to, TokenId: tok,
		Amount: new(big.Int).Set(amt), Data: append([]byte{}, data...), Fee: new(big.Int)}
	return w.run(b, nil, nil)
}

// take removes a send from the pending ones.
func (w *world) take(s *ledger.AccountBlock) {
	for i, x := range w.pend {
		if x == s {
			w.pend = append(w.pend[:i:i], w.pend[i+1:]...)
			return
		}
	}
}

// receive runs the receive block for one pending send, as of the snapshot block that confirmed the send.
func (w *world) receive(s *ledger.AccountBlock) (result, interface{}) {
	w.take(s)
	b := &ledger.AccountBlock{BlockType: ledger.BlockTypeReceive, AccountAddress: s.ToAddress, FromBlockHash: s.Hash, Amount: new(big.Int), Fee: new(big.Int)}
	return w.run(b, s.Copy(), &status{snap(w.confirm[s.Hash])})
}

type status struct{ sb *ledger.SnapshotBlock }

func (s *status) Seed() (uint64, error)                { return 7, nil }
func (s *status) Random() (uint64, error)              { return 7, nil }
func (s *status) SnapshotBlock() *ledger.SnapshotBlock { return s.sb }

// vm_db.Chain

func (w *world) GetQuotaUsedList(types.Address) []types.QuotaInfo {
	return make([]types.QuotaInfo, 75)
}
func (w *world) GetGlobalQuota() types.QuotaInfo { return types.QuotaInfo{} }
func (w *world) GetBalance(a types.Address, t types.TokenTypeId) (*big.Int, error) {
	return w.balance(a, t), nil
}
func (w *world) GetContractCode(types.Address) ([]byte, error) { return nil, nil }
func (w *world) GetContractMeta(a types.Address) (*ledger.ContractMeta, error) {
	if types.IsBuiltinContractAddrInUse(a) {
		return ledger.GetBuiltinContractMeta(a), nil
	}
	return nil, nil
}
func (w *world) GetConfirmSnapshotHeaderByAbHash(h types.Hash) (*ledger.SnapshotBlock, error) {
	return snap(w.confirm[h]), nil
}
func (w *world) GetConfirmedTimes(h types.Hash) (uint64, error) { return w.h - w.confirm[h] + 1, nil }
func (w *world) GetContractMetaInSnapshot(a types.Address, h uint64) (*ledger.ContractMeta, error) {
	return w.GetContractMeta(a)
}
func (w *world) GetSnapshotHeaderByHash(h types.Hash) (*ledger.SnapshotBlock, error) {
	return snap(w.h), nil
}
func (w *world) GetSnapshotBlockByHeight(h uint64) (*ledger.SnapshotBlock, error) {
	return snap(h), nil
}
func (w *world) GetAccountBlockByHash(h types.Hash) (*ledger.AccountBlock, error) {
	return w.blocks[h], nil
}
func (w *world) GetLatestAccountBlock(a types.Address) (*ledger.AccountBlock, error) {
	return w.prev[a], nil
}
func (w *world) GetVmLogList(*types.Hash) (ledger.VmLogList, error)        { return nil, nil }
func (w *world) GetUnconfirmedBlocks(types.Address) []*ledger.AccountBlock { return nil }
func (w *world) GetGenesisSnapshotBlock() *ledger.SnapshotBlock            { return snap(1) }
func (w *world) GetStakeBeneficialAmount(types.Address) (*big.Int, error) {
	return new(big.Int).Exp(big.NewInt(10), big.NewInt(30), nil), nil
}
func (w *world) GetValue(a types.Address, k []byte) ([]byte, error) {
	v := w.stor[a][string(k)]
	if v == nil {
		return nil, nil
	}
	return append([]byte{}, v...), nil
}
func (w *world) GetCallDepth(h types.Hash) (uint16, error) { return w.depth[h], nil }
func (w *world) GetSnapshotBlockByContractMeta(a types.Address, h types.Hash) (*ledger.SnapshotBlock, error) {
	return snap(w.confirm[h]), nil
}
func (w *world) GetSeedConfirmedSnapshotBlock(a types.Address, h types.Hash) (*ledger.SnapshotBlock, error) {
	return snap(w.confirm[h]), nil
}
func (w *world) GetSeed(*ledger.SnapshotBlock, types.Hash) (uint64, error) { return 7, nil }

func (w *world) keys(a types.Address, prefix []byte) []string {
	var ks []string
	for k := range w.stor[a] {
		if bytes.HasPrefix([]byte(k), prefix) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return ks
}

func (w *world) GetStorageIterator(a types.Address, prefix []byte) (interfaces.StorageIterator, error) {
	it := &iter{i: -1}
	for _, k := range w.keys(a, prefix) {
		it.k = append(it.k, []byte(k))
		it.v = append(it.v, append([]byte{}, w.stor[a][k]...))
	}
	return it, nil
}

type iter struct {
	k, v [][]byte
	i    int
}

func (t *iter) Last() bool { t.i = len(t.k) - 1; return t.i >= 0 }
func (t *iter) Prev() bool {
	if t.i >= 0 {
		t.i--
	}
	return t.i >= 0
}
func (t *iter) Seek(k []byte) bool {
	t.i = sort.Search(len(t.k), func(i int) bool { return bytes.Compare(t.k[i], k) >= 0 })
	return t.i < len(t.k)
}
func (t *iter) Next() bool {
	if t.i < len(t.k) {
		t.i++
	}
	return t.i < len(t.k)
}
func (t *iter) ok() bool { return t.i >= 0 && t.i < len(t.k) }
func (t *iter) Key() []byte {
	if !t.ok() {
		return nil
	}
	return append([]byte{}, t.k[t.i]...)
}
func (t *iter) Value() []byte {
	if !t.ok() {
		return nil
	}
	return append([]byte{}, t.v[t.i]...)
}
func (t *iter) Error() error { return nil }
func (t *iter) Release()     {}

// latest is a view of the governance contract as of the latest snapshot block.
func (c *ctx) latest() interfaces.VmDb {
	s := snap(c.w.h)
	a := types.AddressGovernance
	ph := types.Hash{}
	if p := c.w.prev[a]; p != nil {
		ph = p.Hash
	}
	db, err := vm_db.NewVmDb(c.w, &a, &s.Hash, &ph)
	if err != nil {
		panic(err)
	}
	return db
}
