package main

import (
	"errors"
	"fmt"
	"sort"
	"sync"
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/producer/producerevent"
	cabi "github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"github.com/vitelabs/go-vite/v2/zverif/sim"
)

// place is the position of a send in its caller's chain.
func place(s *sim.Shadow, b *ledger.AccountBlock) (uint64, int) {
	h := s.Holder[b.Hash]
	if h == nil {
		return b.Height, 0
	}
	for i, x := range h.SendBlockList {
		if x.Hash == b.Hash {
			return h.Height, i
		}
	}
	return h.Height, 0
}

func before2(s *sim.Shadow, a, b *ledger.AccountBlock) bool {
	ha, ia := place(s, a)
	hb, ib := place(s, b)
	return ha < hb || (ha == hb && ia < ib)
}

// checkFronts compares what each contract is offered with the unreceived calls.
func (x *runner) checkFronts(op string) {
	d := x.d
	cons := map[types.Address]bool{}
	for a := range d.S.Pend {
		cons[a] = true
	}
	for a := range d.S.Chains {
		cons[a] = true
	}
	var cl []types.Address
	for a := range cons {
		if types.IsContractAddr(a) {
			cl = append(cl, a)
		}
	}
	sort.Slice(cl, func(i, j int) bool { return cl[i].String() < cl[j].String() })
	nf, np := 0, 0
	sig := ""
	for _, a := range cl {
		want := map[types.Address]*ledger.AccountBlock{}
		for _, b := range d.S.Pend[a] {
			np++
			if o := want[b.AccountAddress]; o == nil || before2(d.S, b, o) {
				want[b.AccountAddress] = b
			}
		}
		got, err := d.A.OnRoad.GetAllCallersFrontOnRoad(types.DELEGATE_GID, a)
		if err != nil {
			x.fail("front-error", "after %s: fronts of %s: %v", op, a, err)
			return
		}
		seen := map[types.Address]bool{}
		for _, g := range got {
			w := want[g.AccountAddress]
			if w == nil || seen[g.AccountAddress] {
				x.fail("front-extra", "after %s: %s is offered %s of caller %s, which has no (other) unreceived call", op, a, g.Hash, g.AccountAddress)
				return
			}
			seen[g.AccountAddress] = true
			if w.Hash != g.Hash {
				h1, i1 := place(d.S, w)
				h2, i2 := place(d.S, g)
				x.fail("front-order", "after %s: %s is offered call %s (%d.%d) of %s, the first unreceived one is %s (%d.%d)", op, a, g.Hash, h2, i2, g.AccountAddress, w.Hash, h1, i1)
				return
			}
		}
		for c, w := range want {
			nf++
			if !seen[c] {
				x.fail("front-missing", "after %s: %s is not offered %s, the first unreceived call of %s", op, a, w.Hash, c)
				return
			}
			ok, err := d.A.OnRoad.IsFrontOnRoadOfCaller(types.DELEGATE_GID, a, c, w.Hash)
			if !ok || err != nil {
				x.fail("isfront-denied", "after %s: %s is the first unreceived call of %s to %s, IsFrontOnRoadOfCaller says %v %v", op, w.Hash, c, a, ok, err)
				return
			}
			sig += w.Hash.String()[:4]
		}
		for _, b := range d.S.Pend[a] {
			if want[b.AccountAddress].Hash != b.Hash {
				if ok, _ := d.A.OnRoad.IsFrontOnRoadOfCaller(types.DELEGATE_GID, a, b.AccountAddress, b.Hash); ok {
					x.fail("isfront-granted", "after %s: %s counts as first call of %s to %s, but %s comes before", op, b.Hash, b.AccountAddress, a, want[b.AccountAddress].Hash)
					return
				}
			}
		}
	}
	// received and removed calls are never offered again
	for i := 0; i < 6; i++ {
		var b *ledger.AccountBlock
		if l := d.S.Ghosts; len(l) > 0 && i%2 == 0 {
			b = l[d.R.Intn(len(l))]
			if d.S.Sends[b.Hash] != nil {
				continue
			}
		} else {
			for h := range d.S.RecvOf {
				b = d.S.Sends[h]
				break
			}
		}
		if b == nil || !b.IsSendBlock() || !types.IsContractAddr(b.ToAddress) {
			continue
		}
		if ok, _ := d.A.OnRoad.IsFrontOnRoadOfCaller(types.DELEGATE_GID, b.ToAddress, b.AccountAddress, b.Hash); ok {
			x.fail("isfront-granted", "after %s: %s is not an unreceived call but counts as first of %s to %s", op, b.Hash, b.AccountAddress, b.ToAddress)
			return
		}
	}
	x.r.Eval(sig, nf > 0)
	x.r.Count("fronts_compared", int64(nf))
	x.r.Max("pending_at_once", int64(np))
}

// runC27: the calls offered to contracts are compared with the unreceived ones after every
// step; in some histories the node's own contract worker delivers them.
func runC27(x *runner) {
	d := x.d
	d.Weights["rollback"], d.Weights["rollbackAcc"], d.Weights["restart"] = 3, 5, 1
	d.Weights["call"], d.Weights["contractReceive"], d.Weights["token"] = 60, 34, 8
	x.early = map[types.Address]bool{}
	d.OnAccept = func(b *ledger.AccountBlock) {
		if b.IsReceiveBlock() && b.Height == 1 && types.IsContractAddr(b.AccountAddress) {
			if s := d.S.Sends[b.FromBlockHash]; s != nil && s.BlockType != ledger.BlockTypeSendCreate {
				x.early[b.AccountAddress] = true
			}
		}
	}
	d.WarmUp()
	spray := x.sprayer()
	x.checkFronts("warmup")
	x.steps(200, 700, func(op string) {
		x.checkFronts(op)
		if op == "call" && !x.bad && d.R.Intn(5) == 0 && len(d.S.Chains[spray]) > 0 { // one call that makes many
			if l := d.LiveToys(); len(l) > 0 {
				u := d.W.Users[d.R.Intn(len(d.W.Users))]
				data := append(sim.Word(l[d.R.Intn(len(l))].Addr), sim.Word(l[d.R.Intn(len(l))].Addr)...)
				if b, err := d.A.Send(u, spray, sim.Vite, sim.Units(0), data); err == nil {
					d.Accepted("call", b)
					if d.R.Intn(2) == 0 && len(d.S.Pend[spray]) > 0 && d.ReceiveOn(spray) {
						x.r.Count("sprays", 1)
					}
					x.checkFronts("call of many")
				}
			}
		}
		if !x.bad && d.R.Intn(6) == 0 {
			x.offTurn(d.A, func(types.Hash) bool { return true })
		}
		if op == "call" && d.R.Intn(10) == 0 { // many from one caller
			for i := 0; i < 3 && !x.bad; i++ {
				d.Do("call")
				x.checkFronts("call")
			}
		}
	})
	if !x.bad && len(d.W.SBPs) == 1 && x.rnd.Intn(2) == 0 {
		x.worker()
	}
}

// sprayer deploys a contract that, when called, calls two others four times each in turns.
func (x *runner) sprayer() (a types.Address) {
	d := x.d
	c := sim.NewAsm()
	for i := 0; i < 8; i++ {
		c.Push(0).Push(0).Push(0).Push(sim.Vite.Bytes()).Push(32*(i%2)).Op("CALLDATALOAD", "CALL")
	}
	c.Op("STOP")
	u := d.W.Users[0]
	b, err := d.A.Create(u, sim.InitCode(c.Bytes(), 0, ""), sim.Units(0), sim.ContractOpt{Ratio: 10})
	if err != nil {
		return
	}
	d.Accepted("create", b)
	a = b.ToAddress
	data, _ := cabi.ABIQuota.PackMethod(cabi.MethodNameStakeV3, a)
	if s, err := d.A.Send(u, types.AddressQuota, sim.Vite, sim.Units(1000000), data); err == nil {
		d.Accepted("stake", s)
	}
	for i := 0; i < 4; i++ {
		d.DoSnapshot(0, -1)
		for _, c := range []types.Address{a, types.AddressQuota} {
			if len(d.S.Pend[c]) > 0 {
				d.ReceiveOn(c)
			}
		}
	}
	return
}

// earlyCall delivers a call to a new contract before its creation.
func (x *runner) earlyCall() {
	d := x.d
	t := &sim.Toy{}
	if !d.Deploy(t, "", true) {
		return
	}
	creator := d.S.Sends[d.S.Pend[t.Addr][0].Hash].AccountAddress
	for _, u := range d.W.Users {
		if u.Addr == creator {
			continue
		}
		b, err := d.A.Send(u, t.Addr, sim.Vite, sim.Units(0), nil)
		if err != nil {
			continue
		}
		d.Accepted("call", b)
		d.DoSnapshot(0, -1)
		d.DoSnapshot(0, -1)
		if r, _, err := d.A.ContractReceive(b); err == nil {
			d.Accepted("contractReceive", r)
			x.r.Count("early_calls", 1)
		}
		return
	}
}

// worker lets the node's own contract worker deliver what is pending, while new calls,
// snapshots and rollbacks go on.
func (x *runner) worker() {
	d := x.d
	var mu sync.Mutex
	n := 0
	bad := ""
	d.A.Pool.F = func(vb *interfaces.VmAccountBlock) error {
		mu.Lock()
		defer mu.Unlock()
		b := sim.Wire(vb.AccountBlock)
		send := d.S.Sends[b.FromBlockHash]
		if send == nil {
			return errors.New("the send is gone")
		}
		if d.S.RecvOf[b.FromBlockHash] != nil {
			return errors.New("already received")
		}
		if hd := d.S.Chains[b.AccountAddress]; b.Height != uint64(len(hd))+1 {
			return errors.New("not the next block")
		}
		early := ""
		for _, o := range d.S.Pend[send.ToAddress] {
			if o.AccountAddress == send.AccountAddress && before2(d.S, o, send) {
				h1, i1 := place(d.S, send)
				h2, i2 := place(d.S, o)
				early = fmt.Sprintf("the worker delivers %s (%d.%d) to %s before the earlier call %s (%d.%d) of the same caller", send.Hash, h1, i1, send.ToAddress, o.Hash, h2, i2)
			}
		}
		if err := d.A.Accept(b); err != nil { // it was made before a rollback, say
			x.r.Count("worker_block_refused", 1)
			return err
		}
		if early != "" {
			bad = early
		}
		d.Accepted("workerReceive", b)
		n++
		return nil
	}
	start := func() {
		now := time.Now()
		d.A.Prod.F(producerevent.AccountStartEvent{Gid: types.DELEGATE_GID, Address: d.W.SBPs[0].Addr, Stime: now.Add(-time.Second), Etime: now.Add(time.Minute)})
	}
	stop := func() {
		now := time.Now()
		d.A.Prod.F(producerevent.AccountStartEvent{Gid: types.DELEGATE_GID, Address: d.W.SBPs[0].Addr, Stime: now.Add(time.Minute), Etime: now.Add(2 * time.Minute)})
	}
	for _, k := range []string{"restart", "contractReceive", "flush"} {
		d.Weights[k] = 0
	}
	x.earlyCall()
	start()
	for i := 0; i < 60 && bad == ""; i++ {
		mu.Lock()
		op := d.Step()
		if i%6 == 0 {
			d.DoSnapshot(0, -1)
		}
		_ = op
		x.checkFronts("work in progress")
		mu.Unlock()
		if x.bad {
			break
		}
		time.Sleep(time.Duration(x.rnd.Intn(4)) * time.Millisecond)
	}
	stop()
	for _, k := range []string{"call", "create", "token", "stake", "cancelStake", "gov", "rollback", "rollbackAcc"} {
		d.Weights[k] = 0
	}
	// nothing new comes in: a fresh worker must deliver all that can be delivered
	idle := 0
	for round := 0; round < 40 && idle < 6 && bad == "" && !x.bad; round++ {
		start()
		m := n
		for i := 0; i < 6; i++ {
			time.Sleep(10 * time.Millisecond)
			mu.Lock()
			d.DoSnapshot(0, -1)
			mu.Unlock()
		}
		time.Sleep(30 * time.Millisecond)
		stop()
		mu.Lock()
		x.checkFronts("worker stopped")
		if m == n {
			idle++
		} else {
			idle = 0
		}
		mu.Unlock()
	}
	if bad != "" {
		x.fail("worker-order", "%s", bad)
	}
	if x.bad {
		return
	}
	raw, err := d.A.Chain.LoadAllOnRoad()
	if err != nil {
		x.fail("load", "%v", err)
		return
	}
	known := map[types.Hash]bool{}
	for _, l := range raw {
		for _, h := range l {
			known[h] = true
		}
	}
	for _, a := range d.ContractsPending() {
		stuck := false
		for _, s := range d.S.Pend[a] {
			if s.BlockType == ledger.BlockTypeSendCreate && (len(d.S.Chains[a]) > 0 || x.early[a]) {
				stuck = true
				if !known[s.Hash] {
					x.r.Violate(x.name, "creation-blocked-by-early-call", "a call to the new contract %s was received before its creation; the creation %s can never be received, and the contract worker removes it from the unreceived set", a, s.Hash)
				}
			} else if !known[s.Hash] {
				x.fail("worker-forgets", "after the contract worker ran, the unreceived call %s to %s is no longer in the unreceived set", s.Hash, a)
				return
			}
		}
		if stuck { // the worker gives up on such a contract for the whole period
			x.r.Count("contracts_blocked", 1)
			continue
		}
		// a call that can be received now must be delivered by a worker that has nothing else
		// to do; it starts with the calls of a random caller, hence the many attempts
		// (what it receives first may use up the contract's quota, so look again at the end)
		receivable := func() *ledger.AccountBlock {
			mu.Lock()
			defer mu.Unlock()
			for _, f := range d.A.Front(a) {
				if !d.A.ContractConfirmOK(f) {
					continue
				}
				if g, err := d.A.BuildContractReceive(f, d.W.SBPs[0]); err == nil && g != nil && g.VMBlock != nil {
					return f
				}
			}
			return nil
		}
		can := receivable()
		if can == nil {
			continue
		}
		done := false
		for i, m := 0, n; i < 60 && !done; i++ {
			start()
			time.Sleep(time.Duration(20+i*4) * time.Millisecond)
			stop()
			mu.Lock()
			done = d.S.RecvOf[can.Hash] != nil
			moved := n != m
			m = n
			mu.Unlock()
			if moved && !done {
				if can = receivable(); can == nil {
					break
				}
				i = 0
			}
		}
		if !done && can != nil && receivable() != nil {
			x.fail("worker-stalls", "the contract worker does not deliver %s although it can be received", can.Hash)
			return
		}
	}
	x.r.Count("worker_delivered", int64(n))
	x.r.Count("worker_runs", 1)
}
