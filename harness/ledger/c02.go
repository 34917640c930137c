package main

import (
	"fmt"
	"sort"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/zverif/sim"
)

func runC02(x *runner) {
	d := x.d
	d.Weights["rollback"], d.Weights["rollbackAcc"] = 3, 4
	check := func(op string) {
		if p := d.S.CheckChains(d.A); len(p) > 0 {
			x.fail("chains/"+kind(p), "after %s: %s", op, sim.Brief(p))
			return
		}
		if len(d.S.Errs) > 0 {
			x.fail("accepted/"+kind(d.S.Errs), "after %s: %s", op, sim.Brief(d.S.Errs))
			return
		}
		x.r.Eval(x.state(), true)
	}
	d.WarmUp()
	check("warmup")
	x.steps(220, 700, func(op string) {
		if x.d.R.Intn(3) == 0 {
			x.hostileReceive()
			op += "+hostile"
		}
		check(op)
	})
}

// seal recomputes hash and signature of a block.
func seal(b *ledger.AccountBlock, k *sim.Key) *ledger.AccountBlock {
	b.Hash = b.ComputeHash()
	b.Signature, b.PublicKey, _ = k.Sign(b.Hash.Bytes())
	return sim.Wire(b)
}

// hostileReceive offers a receive that must not be accepted.
func (x *runner) hostileReceive() {
	d := x.d
	var recvd, pend []*ledger.AccountBlock
	var hs []types.Hash
	for h := range d.S.Sends {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].String() < hs[j].String() })
	for _, h := range hs {
		if d.S.RecvOf[h] != nil {
			recvd = append(recvd, d.S.Sends[h])
		} else {
			pend = append(pend, d.S.Sends[h])
		}
	}
	kinds := []string{"again", "other", "contract-send-by-user", "stale-height", "ghost", "contract-again", "contract-other", "contract-out-of-order"}
	k := kinds[d.R.Intn(len(kinds))]
	switch k {
	case "contract-again", "contract-other", "contract-out-of-order":
		x.hostileContractReceive(k, recvd, pend)
		return
	}
	me := d.W.Users[d.R.Intn(len(d.W.Users))]
	var send *ledger.AccountBlock
	height := uint64(len(d.S.Chains[me.Addr]) + 1)
	prev := types.Hash{}
	if height > 1 {
		prev = d.S.Chains[me.Addr][height-2].Hash
	}
	var from types.Hash
	switch k {
	case "again":
		var l []*ledger.AccountBlock
		for _, s := range recvd {
			if d.W.ByAddr[s.ToAddress] != nil {
				l = append(l, s)
			}
		}
		if len(l) == 0 {
			return
		}
		send = l[d.R.Intn(len(l))]
		me = d.W.ByAddr[send.ToAddress]
		height = uint64(len(d.S.Chains[me.Addr]) + 1)
		if height > 1 {
			prev = d.S.Chains[me.Addr][height-2].Hash
		}
		from = send.Hash
	case "other":
		var l []*ledger.AccountBlock
		for _, s := range pend {
			if s.ToAddress != me.Addr && !types.IsContractAddr(s.ToAddress) {
				l = append(l, s)
			}
		}
		if len(l) == 0 {
			return
		}
		send = l[d.R.Intn(len(l))]
		from = send.Hash
	case "contract-send-by-user":
		var l []*ledger.AccountBlock
		for _, s := range pend {
			if types.IsContractAddr(s.ToAddress) {
				l = append(l, s)
			}
		}
		if len(l) == 0 {
			return
		}
		send = l[d.R.Intn(len(l))]
		from = send.Hash
	case "stale-height":
		if len(d.S.Pend[me.Addr]) == 0 || height < 2 {
			return
		}
		send = d.S.Pend[me.Addr][0]
		from = send.Hash
		height--
		prev = types.Hash{}
		if height > 1 {
			prev = d.S.Chains[me.Addr][height-2].Hash
		}
	case "ghost":
		d.R.Read(from[:])
	}
	// the result fields of a plain receive (taken from any earlier one)
	var tmpl *ledger.AccountBlock
	for _, b := range d.S.Chains[me.Addr] {
		if b.BlockType == ledger.BlockTypeReceive && b.Height > 1 {
			tmpl = b
		}
	}
	if tmpl == nil {
		return
	}
	b := sim.Wire(tmpl)
	b.Height, b.PrevHash, b.FromBlockHash = height, prev, from
	b = seal(b, me)
	err := d.A.Accept(b)
	if err != nil {
		x.r.Count("hostile."+k+"."+err.Error(), 1)
	}
	x.r.Count("hostile."+k, 1)
	if err == nil {
		x.fail("hostile-accepted/"+k, "a receive that must be refused (%s) was accepted: account %s height %d from %s", k, me.Addr, height, from)
		return
	}
	x.r.Count("hostile_refused", 1)
	x.r.Eval(fmt.Sprintf("hostile/%s/%s", k, b.Hash), true)
}

// hostileContractReceive lets an elected producer generate and offer a receive that breaks the rules.
func (x *runner) hostileContractReceive(k string, recvd, pend []*ledger.AccountBlock) {
	d := x.d
	src := pend
	if k == "contract-again" {
		src = recvd
	}
	var l []*ledger.AccountBlock
	for _, s := range src {
		if types.IsContractAddr(s.ToAddress) && s.BlockType != ledger.BlockTypeSendCreate {
			l = append(l, s)
		}
	}
	ps := d.A.ContractProducers()
	if len(l) == 0 || len(ps) == 0 {
		return
	}
	send := l[d.R.Intn(len(l))]
	offer := *send
	switch k {
	case "contract-other":
		toys := d.LiveToys()
		if len(toys) == 0 {
			return
		}
		offer.ToAddress = toys[d.R.Intn(len(toys))].Addr
		if offer.ToAddress == send.ToAddress || len(d.S.Chains[offer.ToAddress]) == 0 {
			return
		}
	case "contract-out-of-order":
		// a later call of a caller while an earlier one to the same contract is pending
		found := false
		for _, o := range l {
			if o.ToAddress == send.ToAddress && o.AccountAddress == send.AccountAddress && o.Hash != send.Hash && !types.IsContractAddr(o.AccountAddress) && o.Height < send.Height {
				found = true
			}
		}
		if !found {
			return
		}
	}
	r, err := d.A.BuildContractReceive(&offer, ps[d.R.Intn(len(ps))])
	if err != nil || r == nil || r.VMBlock == nil {
		x.r.Count("hostile."+k+".notbuilt", 1)
		return
	}
	b := sim.Wire(r.VMBlock.AccountBlock)
	err = d.A.Accept(b)
	x.r.Count("hostile."+k, 1)
	if err == nil {
		x.fail("hostile-accepted/"+k, "a contract receive that must be refused (%s) was accepted: contract %s height %d from %s (addressed to %s)", k, b.AccountAddress, b.Height, send.Hash, send.ToAddress)
		return
	}
	x.r.Count("hostile."+k+"."+err.Error(), 1)
	x.r.Count("hostile_refused", 1)
	x.r.Eval(fmt.Sprintf("hostile/%s/%s", k, b.Hash), true)
}
