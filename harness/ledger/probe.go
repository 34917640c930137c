package main

import (
	"sort"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/zverif/sim"
)

// offTurn has node n offered correctly executed and signed contract receives that must not
// happen now: of a call behind another one of its caller, of a call that is not confirmed often
// enough, and of a call received already. has tells which receives n holds.
func (x *runner) offTurn(n *sim.Node, has func(types.Hash) bool) {
	d := x.d
	ps := n.ContractProducers()
	if len(ps) == 0 {
		return
	}
	type cand struct {
		s   *ledger.AccountBlock
		why string
	}
	var l []cand
	for a, m := range d.S.Pend {
		if !types.IsContractAddr(a) {
			continue
		}
		first := map[types.Address]*ledger.AccountBlock{}
		for _, b := range m {
			if o := first[b.AccountAddress]; o == nil || before2(d.S, b, o) {
				first[b.AccountAddress] = b
			}
		}
		for _, b := range m {
			if s, err := n.Chain.GetAccountBlockByHash(b.Hash); err != nil || s == nil {
				continue
			}
			if meta, err := n.Chain.GetContractMeta(a); err != nil || meta == nil {
				continue
			}
			if f := first[b.AccountAddress]; f.Hash != b.Hash {
				if s, err := n.Chain.GetAccountBlockByHash(f.Hash); err == nil && s != nil {
					l = append(l, cand{b, "out-of-turn"})
				}
			} else if !n.ContractConfirmOK(b) {
				l = append(l, cand{b, "too-early"})
			}
		}
	}
	for h, r := range d.S.RecvOf {
		if s := d.S.Sends[h]; s != nil && r != nil && types.IsContractAddr(s.ToAddress) && has(r.Hash) && d.R.Intn(8) == 0 {
			l = append(l, cand{s, "again"})
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].s.Hash.String() < l[j].s.Hash.String() })
	seen := map[string]int{}
	for len(l) > 0 && !x.bad {
		i := d.R.Intn(len(l))
		c := l[i]
		l = append(l[:i:i], l[i+1:]...)
		if seen[c.why]++; seen[c.why] > 2 {
			continue
		}
		head := n.Chain.GetLatestSnapshotBlock().Hash
		unc := len(n.Chain.GetAllUnconfirmedBlocks())
		g, err := n.BuildContractReceive(c.s, ps[d.R.Intn(len(ps))])
		if err != nil || g == nil || g.VMBlock == nil {
			x.r.Count("illegal receives not even buildable: "+c.why, 1)
			continue
		}
		if err := n.Accept(sim.Wire(g.VMBlock.AccountBlock)); err == nil {
			x.fail("illegal-receive-accepted/"+c.why, "a correctly executed receive of %s by contract %s was accepted although %s", c.s.Hash, c.s.ToAddress,
				map[string]string{"out-of-turn": "an earlier call of the same caller waits", "too-early": "the call is not confirmed often enough", "again": "the call was received before"}[c.why])
			return
		}
		if n.Chain.GetLatestSnapshotBlock().Hash != head || len(n.Chain.GetAllUnconfirmedBlocks()) != unc {
			x.fail("refused-but-changed", "a refused receive (%s) changed the ledger", c.why)
			return
		}
		x.r.Count("illegal receives refused: "+c.why, 1)
		x.r.Eval("illegal/"+c.why+c.s.Hash.String(), true)
	}
}
