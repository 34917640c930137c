// Command poolbc runs the block tree driver (C25) through the pool of one chain: blocks arrive as
// free blocks, are joined to snippets and appended to branches by the pool itself.
package main

import (
	"fmt"

	"github.com/vitelabs/go-vite/v2/ledger/pool"
	"github.com/vitelabs/go-vite/v2/ledger/pool/tree"
	"github.com/vitelabs/go-vite/v2/log15"
	"github.com/vitelabs/go-vite/v2/zverif/ptree"
	"github.com/vitelabs/go-vite/v2/zverif/vrep"
)

type disk struct{ d *ptree.Disk }

func (d disk) VerifHead() tree.Knot { return d.d.Head() }
func (d disk) VerifAt(h uint64) tree.Knot {
	if b := d.d.At(h); b != nil {
		return b
	}
	return nil
}

type bc struct {
	d *ptree.D
	*pool.VerifPool
}

func (p *bc) Arrive(b *ptree.Block) { p.VerifPool.Add(b) }
func (p *bc) Settle() {
	for i := 0; i < 6; i++ {
		p.VerifPool.Compact()
	}
	p.VerifPool.Check()
}
func (p *bc) Insert(b *ptree.Block, direct bool) error { return p.VerifPool.Insert(b, direct) }
func (p *bc) Rollback(bs []*ptree.Block) error {
	var ks []tree.Knot
	for _, b := range bs {
		ks = append(ks, b)
	}
	return p.VerifPool.Rollback(ks)
}
func (p *bc) Age(b tree.Branch) bool { return ptree.Age(b) }

func main() {
	log15.Root().SetHandler(log15.DiscardHandler())
	r := vrep.Open("C25", "the same, with arriving blocks joined and placed by the chain's pool")
	vrep.Parallel(r.Scale(4000, 30000), 8, func(i int) {
		name := fmt.Sprintf("p%d", i)
		if !r.Want(name) || r.NumViolations() > 8 || r.OverBudget() {
			return
		}
		d := ptree.New(r, r.Rand(name), name)
		p := &bc{d: d, VerifPool: pool.VerifNew(disk{d.Disk})}
		d.P = p
		d.Run(20 + i%60)
		r.Count("histories through the pool", 1)
	})
	r.Close()
}
