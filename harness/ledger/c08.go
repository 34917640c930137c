package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/zverif/sim"
)

type before struct {
	send    *ledger.AccountBlock
	storage map[types.Address]map[string][]byte
	bal     map[types.TokenTypeId]*big.Int
	others  map[types.Address]map[types.TokenTypeId]*big.Int
	code    []byte
	hasMeta bool
	ncon    int
}

func copyBal(m map[types.TokenTypeId]*big.Int) map[types.TokenTypeId]*big.Int {
	o := map[types.TokenTypeId]*big.Int{}
	for k, v := range m {
		if v != nil && v.Sign() != 0 {
			o[k] = new(big.Int).Set(v)
		}
	}
	return o
}

func sameBal(a, b map[types.TokenTypeId]*big.Int) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] == nil || b[k].Cmp(v) != 0 {
			return false
		}
	}
	return true
}

// runC08: every contract call is compared with effects computed without the virtual machine;
// a failed call must leave nothing but the refund.
func runC08(x *runner) {
	d := x.d
	d.Weights["call"], d.Weights["contractReceive"], d.Weights["rollback"], d.Weights["restart"], d.Weights["token"], d.Weights["nonsense"] = 40, 60, 1, 1, 8, 6
	var pre *before
	d.PreReceive = func(s *ledger.AccountBlock) {
		if !types.IsContractAddr(s.ToAddress) {
			pre = nil
			return
		}
		pre = &before{send: s, storage: map[types.Address]map[string][]byte{}, others: map[types.Address]map[types.TokenTypeId]*big.Int{}}
		pre.storage[s.ToAddress] = sim.StorageOf(d.A, s.ToAddress)
		for _, t := range d.LiveToys() {
			if t.Addr != s.ToAddress && d.R.Intn(4) == 0 {
				pre.storage[t.Addr] = sim.StorageOf(d.A, t.Addr)
			}
		}
		if d.R.Intn(4) == 0 {
			for _, a := range []types.Address{types.AddressAsset, types.AddressQuota, types.AddressGovernance} {
				pre.storage[a] = sim.StorageOf(d.A, a)
			}
		}
		m, _ := d.A.Chain.GetBalanceMap(s.ToAddress)
		pre.bal = copyBal(m)
		for _, u := range d.W.Users {
			m, _ := d.A.Chain.GetBalanceMap(u.Addr)
			pre.others[u.Addr] = copyBal(m)
		}
		pre.code, _ = d.A.Chain.GetContractCode(s.ToAddress)
		d.A.Chain.IterateContracts(func(types.Address, *ledger.ContractMeta, error) bool { pre.ncon++; return true })
	}
	d.OnAccept = func(b *ledger.AccountBlock) {
		if pre == nil || !b.IsReceiveBlock() || b.FromBlockHash != pre.send.Hash {
			return
		}
		x.judge(b, pre)
		pre = nil
	}
	d.WarmUp()
	if d.R.Intn(20) == 0 {
		d.DeepChain()
	}
	x.steps(260, 900, func(op string) {
		if !x.bad && d.R.Intn(10) == 0 {
			x.checkMetas(op)
		}
	})
}

func (x *runner) judge(b *ledger.AccountBlock, p *before) {
	d, s := x.d, p.send
	a := s.ToAddress
	now := sim.StorageOf(d.A, a)
	m, _ := d.A.Chain.GetBalanceMap(a)
	bal := copyBal(m)
	kind := "builtin"
	toy := d.ToyByAddr(a)
	if toy != nil {
		kind = "user"
	}
	if s.BlockType == ledger.BlockTypeSendCreate {
		kind = "create"
	}
	// nothing outside the called contract may change
	for o, w := range p.storage {
		if o == a {
			continue
		}
		if g := sim.StorageOf(d.A, o); !sameStore(w, g) {
			x.fail("foreign-storage", "calling %s changed the storage of %s", a, o)
			return
		}
	}
	for u, w := range p.others {
		m, _ := d.A.Chain.GetBalanceMap(u)
		if !sameBal(w, copyBal(m)) {
			x.fail("foreign-balance", "calling %s changed the balance of %s", a, u)
			return
		}
	}
	code, _ := d.A.Chain.GetContractCode(a)
	var logs ledger.VmLogList
	if b.LogHash != nil {
		var err error
		logs, err = d.A.Chain.GetVmLogList(b.LogHash)
		if err != nil || len(logs) == 0 {
			x.fail("logs-missing", "call %s claims logs %s but none are stored: %v", s.Hash, b.LogHash, err)
			return
		}
		if h := logs.Hash(0, a, b.PrevHash); h == nil {
			x.r.Count("log_lists", 1)
		}
	}
	out := map[types.TokenTypeId]*big.Int{}
	for _, q := range b.SendBlockList {
		if q.BlockType == ledger.BlockTypeSendReward {
			continue // minted
		}
		if q.Amount != nil && q.Amount.Sign() > 0 {
			if out[q.TokenId] == nil {
				out[q.TokenId] = new(big.Int)
			}
			out[q.TokenId].Add(out[q.TokenId], q.Amount)
		}
	}
	failed := sim.Failed(b)
	code1 := len(b.Data) == 33 && b.Data[32] == 1
	depth := len(b.Data) == 33 && b.Data[32] == 2
	if failed {
		x.r.Count("failed."+kind, 1)
		if !sameStore(p.storage[a], now) {
			x.fail("failed-call-storage/"+kind, "failed call %s on %s changed storage: %s", s.Hash, a, storeDiff(p.storage[a], now))
			return
		}
		if b.LogHash != nil {
			x.fail("failed-call-logs/"+kind, "failed call %s on %s left %d logs", s.Hash, a, len(logs))
			return
		}
		if !bytes.Equal(code, p.code) {
			x.fail("failed-call-code/"+kind, "failed call %s on %s changed the code", s.Hash, a)
			return
		}
		// money: what came in either all goes back to the sender, or (depth limit, uncallable) stays
		for i, q := range b.SendBlockList {
			if q.ToAddress != s.AccountAddress {
				x.fail("failed-call-sends/"+kind, "failed call %s on %s: send %d goes to %s, not back to the caller", s.Hash, a, i, q.ToAddress)
				return
			}
		}
		inc := new(big.Int)
		if s.Amount != nil {
			inc.Set(s.Amount)
		}
		want := map[types.TokenTypeId]*big.Int{}
		if inc.Sign() > 0 && !depth {
			want[s.TokenId] = new(big.Int).Set(inc)
		}
		if kind == "builtin" && s.Fee != nil && s.Fee.Sign() > 0 && !depth {
			if want[sim.Vite] == nil {
				want[sim.Vite] = new(big.Int)
			}
			want[sim.Vite].Add(want[sim.Vite], s.Fee)
		}
		if !sameBal(copyBal(want), copyBal(out)) && (code1 || depth) {
			x.fail("failed-call-refund/"+kind, "failed call %s (type %d, amount %s fee %s) on %s refunds %v, should refund %v", s.Hash, s.BlockType, s.Amount, s.Fee, a, out, want)
			return
		}
	}
	// money in the contract: before + in - out, minted sends excluded
	want := copyBal(p.bal)
	add := func(t types.TokenTypeId, v *big.Int, sgn int64) {
		if v == nil || v.Sign() == 0 {
			return
		}
		if want[t] == nil {
			want[t] = new(big.Int)
		}
		want[t].Add(want[t], new(big.Int).Mul(v, big.NewInt(sgn)))
	}
	{
		add(s.TokenId, s.Amount, 1)
		if kind == "builtin" && failed {
			add(sim.Vite, s.Fee, 1)
		}
		for t, v := range out {
			add(t, v, -1)
		}
	}
	if kind == "user" && !sameBal(copyBal(want), bal) {
		x.fail("contract-balance/"+kind, "call %s (failed %v): balance of %s is %v, should be %v", s.Hash, failed, a, bal, want)
		return
	}
	if c := d.Creations[a]; c != nil && kind == "create" && b.BlockType == ledger.BlockTypeReceive {
		ok := c.Fail == "" || c.Fail == "calls"
		if ok == failed {
			x.fail("create-result", "creation %s (constructor fault %q) failed=%v", s.Hash, c.Fail, failed)
			return
		}
		if ok {
			if !bytes.HasSuffix(code, c.Code) {
				x.fail("create-code", "creation %s stored other code", s.Hash)
				return
			}
			want := map[string][]byte{}
			if c.Init != 0 {
				want[string(sim.Word(1))] = []byte{byte(c.Init)}
			}
			if !sameStore(want, now) {
				x.fail("create-storage", "creation %s: storage %s", s.Hash, storeDiff(want, now))
				return
			}
		}
		x.r.Count("creations_compared", 1)
	}
	if toy != nil && s.BlockType != ledger.BlockTypeSendCreate && b.BlockType == ledger.BlockTypeReceive {
		key, msg := x.judgeToy(b, p, toy, now, logs, failed, depth)
		if key != "" {
			x.fail(key, "%s", msg)
		}
	}
	if x.bad {
		return
	}
	x.r.Eval(fmt.Sprintf("%s/%s/%v/%d", kind, s.Hash, failed, len(b.SendBlockList)), true)
	x.r.Count("judged."+kind, 1)
	if depth {
		x.r.Count("depth_limited", 1)
	}
}

func (x *runner) judgeToy(b *ledger.AccountBlock, p *before, toy *sim.Toy, now map[string][]byte, logs ledger.VmLogList, failed, depth bool) (string, string) {
	s := p.send
	if s.BlockType == ledger.BlockTypeSendRefund || depth {
		return "", ""
	}
	read := func(slot []byte) *big.Int { return new(big.Int).SetBytes(p.storage[s.ToAddress][string(slot)]) }
	e := toy.Effects(b, s, read)
	if len(p.code) == 0 { // not deployed (yet, or the deployment failed): nothing runs
		e = &sim.ToyEffects{Writes: map[string]*big.Int{}}
		x.r.Count("codeless", 1)
	}
	// can the contract pay for its sends, in order?
	avail := copyBal(p.bal)
	if s.Amount != nil {
		if avail[s.TokenId] == nil {
			avail[s.TokenId] = new(big.Int)
		}
		avail[s.TokenId].Add(avail[s.TokenId], s.Amount)
	}
	afford := true
	for _, q := range e.Sends {
		if types.IsContractAddr(q.To) && !types.IsBuiltinContractAddrInUse(q.To) {
			if m, _ := x.d.A.Chain.GetContractMeta(q.To); m == nil {
				afford = false // no such contract
				x.r.Count("sends_to_nowhere", 1)
				break
			}
		}
		if q.Amount.Sign() == 0 {
			continue
		}
		if avail[q.Token] == nil || avail[q.Token].Cmp(q.Amount) < 0 {
			afford = false
			break
		}
		avail[q.Token].Sub(avail[q.Token], q.Amount)
	}
	if e.Fail || !afford {
		if !failed {
			return "should-fail", fmt.Sprintf("call %s (%x) on %s must fail (requested %v, affordable %v) but is recorded as success", s.Hash, s.Data, s.ToAddress, e.Fail, afford)
		}
		return "", ""
	}
	if failed {
		// only running out of quota, or a send that may not be made, can explain this
		return "should-succeed", fmt.Sprintf("call %s (%x) on %s must succeed but is recorded as failed", s.Hash, s.Data, s.ToAddress)
	}
	for k, v := range e.Writes {
		if v == nil {
			continue
		}
		if g := new(big.Int).SetBytes(now[k]); g.Cmp(v) != 0 {
			return "wrong-write", fmt.Sprintf("call %s (%x) on %s: slot %x is %x, should be %x", s.Hash, s.Data, s.ToAddress, k, g, v)
		}
		if _, ok := now[k]; ok && v.Sign() == 0 {
			return "zero-stored", fmt.Sprintf("call %s on %s: slot %x is zero but still listed", s.Hash, s.ToAddress, k)
		}
	}
	old := p.storage[s.ToAddress]
	for k, v := range now {
		if _, ok := e.Writes[k]; !ok && !bytes.Equal(v, old[k]) {
			return "stray-write", fmt.Sprintf("call %s (%x) on %s changed slot %x from %x to %x", s.Hash, s.Data, s.ToAddress, k, old[k], v)
		}
	}
	for k := range old {
		if _, ok := e.Writes[k]; !ok {
			if _, ok := now[k]; !ok {
				return "lost-write", fmt.Sprintf("call %s (%x) on %s lost slot %x", s.Hash, s.Data, s.ToAddress, k)
			}
		}
	}
	if len(e.Sends) != len(b.SendBlockList) {
		return "wrong-sends", fmt.Sprintf("call %s (%x) on %s made %d sends, should make %d", s.Hash, s.Data, s.ToAddress, len(b.SendBlockList), len(e.Sends))
	}
	for i, q := range e.Sends {
		g := b.SendBlockList[i]
		if g.ToAddress != q.To || g.Amount.Cmp(q.Amount) != 0 || (q.Amount.Sign() > 0 && g.TokenId != q.Token) || !bytes.Equal(g.Data, q.Data) || g.AccountAddress != s.ToAddress || g.BlockType != ledger.BlockTypeSendCall {
			return "wrong-send", fmt.Sprintf("call %s (%x) on %s: send %d is %s %s %s %x, should be %s %s %s %x", s.Hash, s.Data, s.ToAddress, i, g.ToAddress, g.TokenId, g.Amount, g.Data, q.To, q.Token, q.Amount, q.Data)
		}
	}
	if len(e.Logs) != len(logs) {
		return "wrong-logs", fmt.Sprintf("call %s (%x) on %s left %d logs, should leave %d", s.Hash, s.Data, s.ToAddress, len(logs), len(e.Logs))
	}
	for i, l := range e.Logs {
		g := logs[i]
		if len(g.Topics) != len(l.Topics) || !bytes.Equal(g.Data, l.Data) || (len(l.Topics) == 1 && g.Topics[0] != l.Topics[0]) {
			return "wrong-log", fmt.Sprintf("call %s (%x) on %s: log %d is %v %x, should be %v %x", s.Hash, s.Data, s.ToAddress, i, g.Topics, g.Data, l.Topics, l.Data)
		}
	}
	x.r.Count("toy_effects_compared", 1)
	return "", ""
}

func sameStore(a, b map[string][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !bytes.Equal(v, w) {
			return false
		}
	}
	return true
}

func storeDiff(a, b map[string][]byte) string {
	for k, v := range a {
		if w, ok := b[k]; !ok || !bytes.Equal(v, w) {
			return fmt.Sprintf("%x: %x -> %x", k, v, w)
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok {
			return fmt.Sprintf("%x: new %x", k, v)
		}
	}
	return ""
}
