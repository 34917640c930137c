package main

import (
	"math/big"
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/log15"
)

var forkNames = []string{"SeedFork", "DexFork", "DexFeeFork", "StemFork", "LeafFork", "EarthFork", "DexMiningFork", "DexRobotFork", "DexStableMarketFork", "Version10Upgrade", "Version11Upgrade"}

func initForks() {
	log15.Root().SetHandler(log15.DiscardHandler())
	upgrade.CleanupUpgradeBox()
	m := map[string]*upgrade.UpgradePoint{}
	for i, n := range forkNames {
		m[n] = &upgrade.UpgradePoint{Name: n, Height: uint64(i+1) * 100, Version: uint32(i + 1)}
	}
	upgrade.InitUpgradeBox(upgrade.NewCustomUpgradeBox(m))
}

// mock is the ledger below the machine: fixed, read-only state.
type mock struct {
	storage     map[types.Hash][]byte
	metas       map[types.Address]*ledger.ContractMeta
	confirmed   bool
	prev        *ledger.AccountBlock
	self        types.Address
	balances    map[types.TokenTypeId]*big.Int
	code        []byte
	sb          *ledger.SnapshotBlock
	stake       *big.Int
	quotas      []types.QuotaInfo
	unconfirmed []*ledger.AccountBlock
	depth       uint16
}

type status struct {
	sb   *ledger.SnapshotBlock
	seed uint64
	n    int
}

func (s *status) Seed() (uint64, error)                { return s.seed, nil }
func (s *status) Random() (uint64, error)              { s.n++; return randomAt(s.seed, s.n), nil }
func (s *status) SnapshotBlock() *ledger.SnapshotBlock { return s.sb }

func randomAt(seed uint64, n int) uint64 {
	z := seed + uint64(n)*0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// env is what one execution starts from.
type env struct {
	chain  *mock
	status *status
	self   types.Address
	block  *ledger.AccountBlock
	send   *ledger.AccountBlock
}

func (m *mock) GetQuotaUsedList(types.Address) []types.QuotaInfo { return m.quotas }
func (m *mock) GetGlobalQuota() types.QuotaInfo                  { return types.QuotaInfo{} }
func (m *mock) GetBalance(a types.Address, t types.TokenTypeId) (*big.Int, error) {
	if b := m.balances[t]; b != nil && a == m.self {
		return new(big.Int).Set(b), nil
	}
	return new(big.Int), nil
}
func (m *mock) GetContractCode(a types.Address) ([]byte, error) {
	if a == m.self {
		return m.code, nil
	}
	return nil, nil
}
func (m *mock) GetContractMeta(a types.Address) (*ledger.ContractMeta, error) { return m.metas[a], nil }
func (m *mock) GetConfirmSnapshotHeaderByAbHash(types.Hash) (*ledger.SnapshotBlock, error) {
	if m.confirmed {
		return m.sb, nil
	}
	return nil, nil
}
func (m *mock) GetConfirmedTimes(types.Hash) (uint64, error) {
	if m.confirmed {
		return 5, nil
	}
	return 0, nil
}
func (m *mock) GetContractMetaInSnapshot(a types.Address, h uint64) (*ledger.ContractMeta, error) {
	return m.metas[a], nil
}
func (m *mock) GetSnapshotHeaderByHash(types.Hash) (*ledger.SnapshotBlock, error) { return m.sb, nil }
func (m *mock) GetSnapshotBlockByHeight(h uint64) (*ledger.SnapshotBlock, error)  { return m.sb, nil }
func (m *mock) GetAccountBlockByHash(h types.Hash) (*ledger.AccountBlock, error) {
	if m.prev != nil && m.prev.Hash == h {
		return m.prev, nil
	}
	return nil, nil
}
func (m *mock) GetLatestAccountBlock(types.Address) (*ledger.AccountBlock, error) { return m.prev, nil }
func (m *mock) GetVmLogList(*types.Hash) (ledger.VmLogList, error)                { return nil, nil }
func (m *mock) GetUnconfirmedBlocks(types.Address) []*ledger.AccountBlock         { return m.unconfirmed }
func (m *mock) GetGenesisSnapshotBlock() *ledger.SnapshotBlock                    { return m.sb }
func (m *mock) GetStakeBeneficialAmount(types.Address) (*big.Int, error) {
	return new(big.Int).Set(m.stake), nil
}
func (m *mock) GetStorageIterator(types.Address, []byte) (interfaces.StorageIterator, error) {
	return nil, nil
}
func (m *mock) GetValue(a types.Address, k []byte) ([]byte, error) {
	h, err := types.BytesToHash(k)
	if err != nil {
		return nil, nil
	}
	return append([]byte(nil), m.storage[h]...), nil
}
func (m *mock) GetCallDepth(types.Hash) (uint16, error) { return m.depth, nil }
func (m *mock) GetSnapshotBlockByContractMeta(types.Address, types.Hash) (*ledger.SnapshotBlock, error) {
	return m.sb, nil
}
func (m *mock) GetSeedConfirmedSnapshotBlock(types.Address, types.Hash) (*ledger.SnapshotBlock, error) {
	return m.sb, nil
}
func (m *mock) GetSeed(*ledger.SnapshotBlock, types.Hash) (uint64, error) { return 0, nil }

func snapshotAt(h uint64, hash types.Hash) *ledger.SnapshotBlock {
	t := time.Unix(1600000000+int64(h), 0)
	return &ledger.SnapshotBlock{Height: h, Hash: hash, Timestamp: &t}
}
