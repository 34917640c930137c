package pool

import (
	"time"

	"github.com/vitelabs/go-vite/v2/common"
	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/pool/tree"
	"github.com/vitelabs/go-vite/v2/log15"
)

// VerifBlock is a block of the harness inside the pool.
type VerifBlock struct{ tree.Knot }

func (VerifBlock) checkForkVersion() bool    { return true }
func (VerifBlock) resetForkVersion()         {}
func (VerifBlock) forkVersion() uint64       { return 0 }
func (VerifBlock) Source() types.BlockSource { return types.RemoteBroadcast }
func (VerifBlock) Latency() time.Duration    { return 0 }
func (VerifBlock) ShouldFetch() bool         { return true }
func (VerifBlock) Ready() bool               { return true }
func (b VerifBlock) ReferHashes() ([]types.Hash, []types.Hash, *types.Hash) {
	return []types.Hash{b.Hash()}, nil, nil
}

// VerifDisk is the stored chain the harness keeps.
type VerifDisk interface {
	VerifHead() tree.Knot
	VerifAt(h uint64) tree.Knot
}

type verifRw struct{ d VerifDisk }

func (r verifRw) insertBlock(commonBlock) error    { return nil }
func (r verifRw) insertBlocks([]commonBlock) error { return nil }
func (r verifRw) head() commonBlock                { return VerifBlock{r.d.VerifHead()} }
func (r verifRw) getBlock(h uint64) commonBlock {
	if k := r.d.VerifAt(h); k != nil {
		return VerifBlock{k}
	}
	return nil
}
func (r verifRw) getHash(h uint64) *types.Hash {
	if k := r.d.VerifAt(h); k != nil {
		x := k.Hash()
		return &x
	}
	return nil
}

// VerifPool is one block pool (as an account or the snapshot chain has) over a harness chain.
type VerifPool struct {
	p       *BCPool
	Fetched map[types.Hash]bool
}

func (v *VerifPool) fetch(h ledger.HashHeight, n uint64) { v.Fetched[h.Hash] = true }

func VerifNew(d VerifDisk) *VerifPool {
	v := &VerifPool{p: &BCPool{}, Fetched: map[types.Hash]bool{}}
	v.p.ID = "verif"
	v.p.log = log15.New("module", "verif")
	v.p.version = &common.Version{}
	v.p.init(newTools(v, verifRw{d}))
	return v
}

func (v *VerifPool) Tree() tree.Tree          { return v.p.chainpool.tree }
func (v *VerifPool) Add(k tree.Knot)          { v.p.addBlock(VerifBlock{k}) }
func (v *VerifPool) Compact() int             { return v.p.loopGenSnippetChains(true) + v.p.loopAppendChains() }
func (v *VerifPool) Fetch()                   { v.Fetched = map[types.Hash]bool{}; v.p.loopFetchForSnippets() }
func (v *VerifPool) Exists(h types.Hash) bool { return v.p.existInPool(h) }
func (v *VerifPool) Insert(k tree.Knot, direct bool) error {
	if direct {
		v.p.chainpool.insertNotify(VerifBlock{k})
		return nil
	}
	return v.p.chainpool.writeBlockToChain(VerifBlock{k})
}
func (v *VerifPool) Rollback(ks []tree.Knot) error {
	var bs []commonBlock
	for _, k := range ks {
		bs = append(bs, VerifBlock{k})
	}
	return v.p.rollbackCurrent(bs)
}
func (v *VerifPool) Switch(b tree.Branch) error { return v.p.CurrentModifyToChain(b) }
func (v *VerifPool) Empty() error               { return v.p.CurrentModifyToEmpty() }
func (v *VerifPool) Prune()                     { v.p.loopDelUselessChain() }
func (v *VerifPool) Check()                     { v.p.checkPool() }
