package main

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm/contracts/abi"
)

func init() { props["C12"] = prop{5000, 60000, 8, runC12} }

type stakeRec struct {
	staker types.Address
	idx    uint64
	amt    *big.Int
	exp    uint64
	ben    types.Address
	deleg  bool
	by     types.Address
	bid    uint8
	id     *types.Hash
}

func (r *stakeRec) key() string { return fmt.Sprintf("%x/%016x", r.staker[:], r.idx) }

type stakeModel struct {
	recs []*stakeRec // ordered by key
	ids  map[types.Hash]string
}

func (m *stakeModel) find(staker, ben types.Address, deleg bool, by types.Address, bid uint8) *stakeRec {
	for _, r := range m.recs {
		if r.staker == staker && r.ben == ben && r.deleg == deleg && r.by == by && r.bid == bid {
			return r
		}
	}
	return nil
}

func (m *stakeModel) add(r *stakeRec, height uint64) {
	r.idx = height
	for _, x := range m.recs {
		if x.staker == r.staker && x.idx >= r.idx {
			r.idx = x.idx + 1
		}
	}
	m.recs = append(m.recs, r)
	sort.Slice(m.recs, func(i, j int) bool { return m.recs[i].key() < m.recs[j].key() })
}

func (m *stakeModel) remove(r *stakeRec) {
	for i, x := range m.recs {
		if x == r {
			m.recs = append(m.recs[:i:i], m.recs[i+1:]...)
			return
		}
	}
}

func (m *stakeModel) byKey(k string) *stakeRec {
	for _, r := range m.recs {
		if r.key() == k {
			return r
		}
	}
	return nil
}

var stakeMin = vite(134)

const (
	stakeBlocks = uint64(600) // test parameters
	stakeMax    = uint64(3600 * 24 * 365)
)

type stakeOp struct {
	method string
	staker types.Address
	ben    types.Address
	bid    uint8
	height uint64
	amt    *big.Int
	id     types.Hash
	send   *ledger.AccountBlock
}

func runC12(c *ctx) {
	w := newWorld(uint64(c.rnd.Intn(15))*eraLen + 1 + uint64(c.rnd.Intn(5000)))
	if w.h < 2 {
		w.h = 2
	}
	c.w = w
	m := &stakeModel{ids: map[types.Hash]string{}}
	other, _ := types.BytesToTokenTypeId([]byte("othertoken"))
	nu := 2 + c.rnd.Intn(4)
	var who []types.Address
	for i := 0; i < nu; i++ {
		who = append(who, user(i))
	}
	who = append(who, contractAddr(1))
	for _, a := range who {
		w.give(a, ledger.ViteTokenId, vite(100000))
		w.give(a, other, vite(1000))
	}
	var ops []*stakeOp
	var allIds []types.Hash
	pick := func() types.Address { return who[c.rnd.Intn(len(who))] }
	steps := 30 + c.rnd.Intn(60)
	for s := 0; s < steps && !c.bad; s++ {
		switch k := c.rnd.Intn(10); {
		case k < 5:
			v := w.version()
			ms := []string{"Pledge", "CancelPledge"}
			if v >= 2 {
				ms = append(ms, "AgentPledge", "AgentCancelPledge")
			}
			if v >= 5 {
				ms = append(ms, "Stake", "CancelStake", "DelegateStake", "CancelDelegateStake")
			}
			if v >= 6 {
				ms = append(ms, "StakeForQuota", "CancelQuotaStaking", "StakeForQuotaWithCallback", "CancelQuotaStakingWithCallback", "StakeForQuota", "CancelQuotaStaking")
			}
			o := &stakeOp{method: ms[c.rnd.Intn(len(ms))]}
			from := pick()
			o.ben = pick()
			o.staker = from
			tok := ledger.ViteTokenId
			amt := c.stakeAmount()
			ok := true
			var data []byte
			var err error
			switch o.method {
			case "Pledge", "Stake", "StakeForQuota":
				data, err = abi.ABIQuota.PackMethod(o.method, o.ben)
			case "StakeForQuotaWithCallback":
				o.height = c.stakeHeight()
				ok = o.height >= stakeBlocks && o.height <= stakeMax
				data, err = abi.ABIQuota.PackMethod(o.method, o.ben, o.height)
			case "AgentPledge", "DelegateStake":
				o.staker, o.bid, o.height = pick(), uint8(c.rnd.Intn(3)), c.stakeHeight()
				ok = o.height >= stakeBlocks && o.height <= stakeMax
				data, err = abi.ABIQuota.PackMethod(o.method, o.staker, o.ben, o.bid, o.height)
			case "CancelPledge", "CancelStake", "AgentCancelPledge", "CancelDelegateStake":
				agent := o.method == "AgentCancelPledge" || o.method == "CancelDelegateStake"
				o.amt = c.stakeAmount()
				if len(m.recs) > 0 && !c.p(5) {
					r := m.recs[c.rnd.Intn(len(m.recs))]
					o.ben, o.bid = r.ben, r.bid
					if !c.p(6) {
						from, o.staker = r.staker, r.staker
						if agent {
							from = r.by
						}
						if (from == types.Address{}) {
							from = pick()
						}
					}
					switch c.rnd.Intn(4) {
					case 0:
					case 1:
						o.amt = sub(r.amt, stakeMin)
						if o.amt.Sign() < 0 {
							o.amt = new(big.Int)
						}
					case 2:
						o.amt = add(r.amt, big.NewInt(int64(c.rnd.Intn(2))))
					case 3:
						o.amt = new(big.Int).Set(r.amt)
					}
				}
				ok = o.amt.Cmp(stakeMin) >= 0
				amt = new(big.Int)
				if agent {
					data, err = abi.ABIQuota.PackMethod(o.method, o.staker, o.ben, o.amt, o.bid)
				} else {
					data, err = abi.ABIQuota.PackMethod(o.method, o.ben, o.amt)
				}
			case "CancelQuotaStaking", "CancelQuotaStakingWithCallback":
				amt = new(big.Int)
				copy(o.id[:], c.bytes(32))
				if len(allIds) > 0 && !c.p(8) {
					o.id = allIds[c.rnd.Intn(len(allIds))]
					if r := m.byKey(m.ids[o.id]); r != nil && !c.p(5) {
						from = r.staker
					}
				}
				data, err = abi.ABIQuota.PackMethod(o.method, o.id)
			}
			if err != nil {
				panic(err)
			}
			if amt.Sign() > 0 { // staking
				if c.p(12) {
					tok, ok = other, false
				}
				if amt.Cmp(stakeMin) < 0 {
					ok = false
				}
			} else if c.p(12) {
				amt, ok = big.NewInt(1), false
			}
			if c.p(25) {
				data = append(data[:4:4], c.bytes(c.rnd.Intn(40))...)
				ok = ok && c.stakeUnpacks(o.method, data)
				if ok {
					continue
				}
			}
			before := c.balances(from)
			if w.balance(from, tok).Cmp(amt) < 0 {
				ok = false
			}
			r, p := w.send(from, types.AddressQuota, tok, amt, data)
			c.note("%s by %s amt %s ok=%v", o.method, from, amt, ok)
			if !c.sent(o.method, from, ok, r, p, before, amt, new(big.Int), tok) {
				return
			}
			if ok {
				o.send = r.block
				ops = append(ops, o)
			}
		case k < 9:
			if len(ops) == 0 {
				continue
			}
			i := 0
			if c.p(3) {
				i = c.rnd.Intn(len(ops))
			}
			o := ops[i]
			ops = append(ops[:i:i], ops[i+1:]...)
			if o.method == "StakeForQuota" || o.method == "StakeForQuotaWithCallback" {
				allIds = append(allIds, o.send.Hash)
			}
			now := w.confirm[o.send.Hash]
			height := uint64(1)
			if p := w.prev[types.AddressQuota]; p != nil {
				height = p.Height + 1
			}
			e := m.receive(o, now, height)
			before := c.balances(types.AddressQuota)
			r, p := w.receive(o.send)
			c.note("receive %s of %s ok=%v", o.method, o.send.AccountAddress, e.ok)
			if !c.judge(o.method, o.send, e, r, p, before) {
				return
			}
			c.r.Eval(fmt.Sprintf("%s/%v/%d/%d/%v", o.method, e.ok, len(m.recs), w.version(), o.bid), true)
			c.r.Count("calls received", 1)
			if e.ok {
				c.r.Count("calls received ok", 1)
			}
			c.deliver()
			c.stakeState(m, who, other)
		default:
			switch c.rnd.Intn(5) {
			case 0:
				w.h++
			case 1:
				w.h += uint64(c.rnd.Intn(100))
			case 2:
				w.h += stakeBlocks - 1 + uint64(c.rnd.Intn(3))
			case 3:
				w.h += uint64(c.rnd.Intn(2000))
			case 4: // exactly at, or one before, an expiry
				if len(m.recs) > 0 {
					r := m.recs[c.rnd.Intn(len(m.recs))]
					h := r.exp - uint64(c.rnd.Intn(2))
					if h > w.h && h < w.h+100000 {
						w.h = h
					}
				}
			}
			if c.p(8) && len(ops) == 0 && w.version() < 14 {
				w.h = uint64(w.version()+1) * eraLen
			}
		}
	}
	c.r.Max("records in one history", int64(len(m.recs)))
	if c.i < 3 {
		c.r.Sample(map[string]interface{}{"case": c.name, "operations": c.log})
	}
}

func (c *ctx) stakeAmount() *big.Int {
	switch c.rnd.Intn(5) {
	case 0:
		return new(big.Int).Set(stakeMin)
	case 1:
		return sub(stakeMin, big.NewInt(1))
	case 2:
		return add(stakeMin, big.NewInt(c.rnd.Int63n(1e18)))
	case 3:
		return new(big.Int).Mul(stakeMin, big.NewInt(2))
	}
	return vite(int64(134 + c.rnd.Intn(500)))
}

func (c *ctx) stakeHeight() uint64 {
	return []uint64{600, 600, 601, 599, 0, stakeMax, stakeMax + 1, 700, 1 << 63, 650}[c.rnd.Intn(10)]
}

func (c *ctx) stakeUnpacks(method string, data []byte) bool {
	switch method {
	case "Pledge", "Stake":
		return abi.ABIQuota.UnpackMethod(new(types.Address), method, data) == nil
	case "StakeForQuota", "StakeForQuotaWithCallback":
		return abi.ABIQuota.UnpackMethod(new(abi.ParamStakeV3), method, data) == nil
	case "AgentPledge", "DelegateStake":
		return abi.ABIQuota.UnpackMethod(new(abi.ParamDelegateStake), method, data) == nil
	case "CancelPledge", "CancelStake":
		return abi.ABIQuota.UnpackMethod(new(abi.ParamCancelStake), method, data) == nil
	case "AgentCancelPledge", "CancelDelegateStake":
		return abi.ABIQuota.UnpackMethod(new(abi.ParamCancelDelegateStake), method, data) == nil
	}
	return abi.ABIQuota.UnpackMethod(new(types.Hash), method, data) == nil
}

// receive is the rule book: what one call does at snapshot height now.
func (m *stakeModel) receive(o *stakeOp, now, height uint64) expect {
	s := o.send
	from := s.AccountAddress
	cb := func(ok bool) []byte {
		var d []byte
		switch o.method {
		case "AgentPledge", "DelegateStake":
			d, _ = abi.ABIQuota.PackCallback(o.method, o.staker, o.ben, s.Amount, o.bid, ok)
		case "AgentCancelPledge", "CancelDelegateStake":
			d, _ = abi.ABIQuota.PackCallback(o.method, o.staker, o.ben, o.amt, o.bid, ok)
		case "StakeForQuotaWithCallback":
			d, _ = abi.ABIQuota.PackCallback(o.method, s.Hash, ok)
		case "CancelQuotaStakingWithCallback":
			d, _ = abi.ABIQuota.PackCallback(o.method, o.id, ok)
		}
		return d
	}
	d := cb(false)
	e := expect{refund: d, callback: d != nil}
	out := func(n *big.Int) {
		e.ok = true
		e.sends = []want{{from, ledger.BlockTypeSendCall, ledger.ViteTokenId, new(big.Int).Set(n), cb(true)}}
	}
	switch o.method {
	case "Pledge", "Stake":
		r := m.find(from, o.ben, false, types.Address{}, 0)
		if r == nil {
			m.add(&stakeRec{staker: from, amt: new(big.Int).Set(s.Amount), exp: now + stakeBlocks, ben: o.ben}, height)
		} else {
			r.amt, r.exp, r.id = add(r.amt, s.Amount), now+stakeBlocks, nil
		}
		e.ok = true
	case "AgentPledge", "DelegateStake":
		r := m.find(o.staker, o.ben, true, from, o.bid)
		if r == nil {
			m.add(&stakeRec{staker: o.staker, amt: new(big.Int).Set(s.Amount), exp: now + o.height, ben: o.ben, deleg: true, by: from, bid: o.bid}, height)
		} else {
			r.amt = add(r.amt, s.Amount)
			if now+o.height > r.exp {
				r.exp = now + o.height
			}
		}
		out(new(big.Int))
	case "StakeForQuota", "StakeForQuotaWithCallback":
		id := s.Hash
		h := stakeBlocks
		if o.method == "StakeForQuotaWithCallback" {
			h = o.height
		}
		r := &stakeRec{staker: from, amt: new(big.Int).Set(s.Amount), exp: now + h, ben: o.ben, id: &id}
		m.add(r, height)
		m.ids[id] = r.key()
		e.ok = true
		if o.method == "StakeForQuotaWithCallback" {
			out(new(big.Int))
		}
	case "CancelPledge", "CancelStake", "AgentCancelPledge", "CancelDelegateStake":
		var r *stakeRec
		if o.method == "CancelPledge" || o.method == "CancelStake" {
			r = m.find(from, o.ben, false, types.Address{}, 0)
		} else {
			r = m.find(o.staker, o.ben, true, from, o.bid)
		}
		if r == nil || r.id != nil || r.exp > now || r.amt.Cmp(o.amt) < 0 {
			return e
		}
		left := sub(r.amt, o.amt)
		if left.Sign() != 0 && left.Cmp(stakeMin) < 0 {
			return e
		}
		r.amt = left
		if left.Sign() == 0 {
			m.remove(r)
		}
		out(o.amt)
	case "CancelQuotaStaking", "CancelQuotaStakingWithCallback":
		k, ok := m.ids[o.id]
		if !ok {
			return e
		}
		r := m.byKey(k)
		if r == nil || r.staker != from || r.exp > now {
			return e
		}
		m.remove(r)
		delete(m.ids, o.id)
		out(r.amt)
	}
	return e
}

func sameStake(g *types.StakeInfo, r *stakeRec) bool {
	if g.Amount == nil || g.Amount.Cmp(r.amt) != 0 || g.Beneficiary != r.ben || g.ExpirationHeight != r.exp || g.IsDelegated != r.deleg || g.DelegateAddress != r.by || g.Bid != r.bid {
		return false
	}
	if (g.Id == nil) != (r.id == nil) {
		return false
	}
	return g.Id == nil || *g.Id == *r.id
}

// stakeState compares the contract's whole state with the model.
func (c *ctx) stakeState(m *stakeModel, who []types.Address, other types.TokenTypeId) {
	w := c.w
	db := w.db(types.AddressQuota)
	sum := new(big.Int)
	ben := map[types.Address]*big.Int{}
	for _, r := range m.recs {
		sum.Add(sum, r.amt)
		if ben[r.ben] == nil {
			ben[r.ben] = new(big.Int)
		}
		ben[r.ben].Add(ben[r.ben], r.amt)
	}
	if g := w.balance(types.AddressQuota, ledger.ViteTokenId); g.Cmp(sum) != 0 {
		c.fail("balance", "the contract holds %s, the live stakes sum to %s", g, sum)
	}
	if g := w.balance(types.AddressQuota, other); g.Sign() != 0 {
		c.fail("foreign-token", "the contract holds %s of another token", g)
	}
	// everything in storage, page by page
	var got []*types.StakeInfo
	var last []byte
	page := uint64(1 + c.rnd.Intn(4))
	for i := 0; i < len(m.recs)+3; i++ {
		l, k, err := abi.GetStakeListByPage(db, last, page)
		if err != nil {
			c.fail("page-error", "%v", err)
			return
		}
		got = append(got, l...)
		if len(l) == 0 || len(k) == 0 || bytes.Equal(k, last) {
			break
		}
		last = k
	}
	if len(got) != len(m.recs) {
		c.fail("records", "the contract has %d stake records, the model %d", len(got), len(m.recs))
		return
	}
	for i, r := range m.recs {
		if got[i].StakeAddress != r.staker || !sameStake(got[i], r) {
			c.fail("records", "record %d is %+v, the model has %+v", i, *got[i], *r)
			return
		}
	}
	for _, a := range who {
		want := ben[a]
		if want == nil {
			want = new(big.Int)
		}
		if g, err := abi.GetStakeBeneficialAmount(db, a); err != nil || g.Cmp(want) != 0 {
			c.fail("beneficial", "%s benefits from %s, its records sum to %s (%v)", a, g, want, err)
		}
		l, t, err := abi.GetStakeInfoList(db, a)
		var mine []*stakeRec
		total := new(big.Int)
		for _, r := range m.recs {
			if r.staker == a && !r.deleg {
				mine = append(mine, r)
				total.Add(total, r.amt)
			}
		}
		if err != nil || len(l) != len(mine) || t.Cmp(total) != 0 {
			c.fail("own-list", "%s has %d own stakes of %s, listed are %d of %s (%v)", a, len(mine), total, len(l), t, err)
			continue
		}
		for i, r := range mine {
			if !sameStake(l[i], r) {
				c.fail("own-list", "%s's stake %d is listed as %+v, should be %+v", a, i, *l[i], *r)
			}
		}
	}
	ids := 0
	for _, r := range m.recs {
		if r.id != nil {
			ids++
			if g, err := abi.GetStakeInfoById(db, r.id.Bytes()); err != nil || !sameStake(g, r) {
				c.fail("by-id", "stake %s is %+v (%v), should be %+v", r.id, g, err, *r)
			}
		}
		if f := m.find(r.staker, r.ben, r.deleg, r.by, r.bid); f != nil {
			if g, err := abi.GetStakeInfo(db, r.staker, r.ben, r.by, r.deleg, r.bid); err != nil || g == nil || !sameStake(g, f) {
				c.fail("exact", "stake of %s is %+v (%v), should be %+v", r.staker, g, err, *f)
			}
		}
	}
	// nothing else is stored: records, totals and identifiers
	if n := len(w.stor[types.AddressQuota]); n != len(m.recs)+len(ben)+len(m.ids) {
		c.fail("stray-keys", "the contract stores %d keys, expected %d records, %d totals and %d identifiers", n, len(m.recs), len(ben), len(m.ids))
	}
	c.r.Max("live stake records", int64(len(m.recs)))
}
