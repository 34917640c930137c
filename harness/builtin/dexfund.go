package main

import (
	"bytes"
	"math/big"

	"github.com/golang/protobuf/proto"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"github.com/vitelabs/go-vite/v2/vm/contracts/dex"
	dexproto "github.com/vitelabs/go-vite/v2/vm/contracts/dex/proto"
)

var zero = new(big.Int)

func accOr(x map[fundKey]dacc, k fundKey) dacc {
	if a, ok := x[k]; ok {
		return a
	}
	return dacc{zero, zero, zero, zero, zero}
}

func (a dacc) plus(b dacc) dacc {
	return dacc{add(a.av, b.av), add(a.lk, b.lk), add(a.vl, b.vl), add(a.vu, b.vu), add(a.cs, b.cs)}
}

func (a dacc) minus(b dacc) dacc {
	return dacc{sub(a.av, b.av), sub(a.lk, b.lk), sub(a.vl, b.vl), sub(a.vu, b.vu), sub(a.cs, b.cs)}
}

func (a dacc) eq(b dacc) bool {
	return a.av.Cmp(b.av) == 0 && a.lk.Cmp(b.lk) == 0 && a.vl.Cmp(b.vl) == 0 && a.vu.Cmp(b.vu) == 0 && a.cs.Cmp(b.cs) == 0
}

func avail(n *big.Int) dacc { return dacc{n, zero, zero, zero, zero} }

func neg(n *big.Int) *big.Int { return new(big.Int).Neg(n) }

// owed sums what the exchange keeps for others, by token.
func (m *dexm) owed() map[types.TokenTypeId]*big.Int {
	o := map[types.TokenTypeId]*big.Int{}
	put := func(t []byte, n *big.Int) {
		id, _ := types.BytesToTokenTypeId(t)
		if o[id] == nil {
			o[id] = new(big.Int)
		}
		o[id].Add(o[id], n)
	}
	for k, a := range m.fund {
		put(k.t.Bytes(), a.total())
	}
	var last uint64
	periods := map[uint64]*dexproto.DexFeesByPeriod{}
	for k, v := range m.w.stor[types.AddressDexFund] {
		switch {
		case len(k) == 11 && k[:3] == "fS:":
			x := &dexproto.DexFeesByPeriod{}
			if proto.Unmarshal(v, x) != nil {
				continue
			}
			p := bi([]byte(k[3:])).Uint64()
			periods[p] = x
			if p > last {
				last = p
			}
		case len(k) > 3 && k[:3] == "bf:":
			x := &dexproto.OperatorFeesByPeriod{}
			if proto.Unmarshal(v, x) != nil {
				continue
			}
			for _, f := range x.OperatorFees {
				for _, g := range f.MarketFees {
					put(f.Token, bi(g.Amount))
				}
			}
		case k == "vxmPl:" || len(k) > 6 && k[:6] == "mmpaP:":
			put(dex.VxTokenId.Bytes(), bi([]byte(v)))
		}
	}
	for p, x := range periods {
		if x.FinishDividend {
			continue
		}
		for _, f := range x.FeesForDividend {
			n := bi(f.DividendPoolAmount)
			if p != last && !f.NotRoll {
				n = bi(dex.CalculateAmountForRate(f.DividendPoolAmount, dex.PerPeriodDividendRate))
			}
			put(f.Token, n)
		}
	}
	return o
}

func (m *dexm) surpluses() map[types.TokenTypeId]*big.Int {
	o := m.owed()
	s := map[types.TokenTypeId]*big.Int{}
	for _, t := range m.toks {
		n := o[t.id]
		if n == nil {
			n = zero
		}
		s[t.id] = sub(m.w.balance(types.AddressDexFund, t.id), n)
	}
	return s
}

// settle is a settlement by account: what it takes from locked, gives back from locked and adds.
type dsettle struct{ reduce, release, inc *big.Int }

type dfee struct{ base, oper *big.Int }

func readSettle(data []byte) (fund map[fundKey]*dsettle, fees map[types.Address]*dfee, x *dexproto.SettleActions, ok bool) {
	raw, ok := serialized(abi.ABIDexFund, data, "DexFundSettleOrders", "SettleOrders")
	if !ok {
		return
	}
	x = &dexproto.SettleActions{}
	if proto.Unmarshal(raw, x) != nil {
		return nil, nil, nil, false
	}
	fund, fees = map[fundKey]*dsettle{}, map[types.Address]*dfee{}
	for _, f := range x.FundActions {
		a, _ := types.BytesToAddress(f.Address)
		for _, s := range f.AccountSettles {
			tb := x.QuoteToken
			if s.IsTradeToken {
				tb = x.TradeToken
			}
			t, _ := types.BytesToTokenTypeId(tb)
			k := fundKey{a, t}
			if fund[k] == nil {
				fund[k] = &dsettle{zero, zero, zero}
			}
			d := fund[k]
			d.reduce, d.release, d.inc = add(d.reduce, bi(s.ReduceLocked)), add(d.release, bi(s.ReleaseLocked)), add(d.inc, bi(s.IncAvailable))
		}
	}
	for _, f := range x.FeeActions {
		a, _ := types.BytesToAddress(f.Address)
		if fees[a] == nil {
			fees[a] = &dfee{zero, zero}
		}
		fees[a].base, fees[a].oper = add(fees[a].base, bi(f.BaseFee)), add(fees[a].oper, bi(f.OperatorFee))
	}
	return fund, fees, x, true
}

// readOrder is the order in a call of the matcher.
func readOrder(data []byte) (*dexproto.Order, bool) {
	raw, ok := serialized(abi.ABIDexTrade, data, "DexTradeNewOrder", "PlaceOrder")
	if !ok {
		return nil, false
	}
	o := &dexproto.Order{}
	if proto.Unmarshal(raw, o) != nil || len(o.Id) != 22 {
		return nil, false
	}
	return o, true
}

func lockOf(side bool, o *dexproto.Order) *big.Int {
	if side {
		return bi(o.Quantity)
	}
	return add(bi(o.Amount), bi(o.LockedBuyFee))
}

// idPrice reads the price out of an order's id.
func idPrice(id []byte) *big.Rat {
	p := append([]byte{}, id[4:14]...)
	if id[3] == 0 {
		for i := range p {
			p[i] = ^p[i]
		}
	}
	r := new(big.Rat).SetFrac(bi(p[5:]), new(big.Int).Exp(big.NewInt(10), big.NewInt(12), nil))
	return r.Add(r, new(big.Rat).SetInt(bi(p[:5])))
}

func idTime(id []byte) int64 { return bi(id[14:19]).Int64() }

// near tells whether n is x rounded in some way.
func near(n *big.Int, x *big.Rat) bool {
	d := new(big.Rat).Sub(new(big.Rat).SetInt(n), x)
	d.Abs(d)
	tol := new(big.Rat).SetFrac(new(big.Int).Abs(x.Num()), new(big.Int).Mul(x.Denom(), new(big.Int).Lsh(big.NewInt(1), 100)))
	tol.Add(tol, big.NewRat(1, 1))
	return d.Cmp(tol) <= 0
}

func (m *dexm) granted(principal, agent types.Address, mk int32) bool {
	return m.grants[dgrant{principal, agent, mk}]
}

// onFund delivers a send to the exchange's fund contract and judges what it did to the funds.
func (m *dexm) onFund(s *ledger.AccountBlock) {
	c, w := m.c, m.w
	q := m.reqs[s.Hash]
	me := fundMethod(s.Data)
	pre := map[fundKey]dacc{}
	for k, v := range m.fund {
		pre[k] = v
	}
	if m.surplus == nil {
		m.surplus = m.surpluses()
	}
	preBal := map[types.TokenTypeId]*big.Int{}
	for _, t := range m.toks {
		preBal[t.id] = w.balance(types.AddressDexFund, t.id)
	}
	r, p := w.receive(s)
	if p != nil {
		m.fail(15, "panic-fund", "receiving %s panics: %v", me, p)
		return
	}
	if r.none || r.block == nil {
		m.fail(15, "no-receive-fund", "%s could not be received: %v", me, r.err)
		return
	}
	m.absorb(types.AddressDexFund, r.set)
	if c.bad {
		return
	}
	what := me
	if q != nil {
		what = q.String()
	}
	c.note("  fund receives %s (%s) -> %v, %d sends", me, name(m, s.AccountAddress), r.err, len(r.sends))
	c.r.Count("fund receives", 1)
	// which changes are due
	exp := map[fundKey]dacc{}
	due := func(a types.Address, t types.TokenTypeId, d dacc) {
		k := fundKey{a, t}
		exp[k] = accOr(exp, k).plus(d)
	}
	free, credits := false, false
	var opened int
	okv := r.err == nil
	if okv {
		c.r.Count("fund: "+me, 1)
		credits, free, opened = m.dueOf(s, q, me, &r, pre, due)
		if c.bad {
			return
		}
	} else {
		c.r.Count("fund failures", 1)
		m.mustNotFail(s, q, me, pre, r.err)
		if c.bad {
			return
		}
	}
	_ = opened
	for _, x := range r.sends {
		if okv && x.ToAddress == types.AddressQuota && x.Amount.Sign() > 0 {
			st := dstake{x.Hash, s.AccountAddress, s.AccountAddress}
			if q != nil && q.kind == "stakeFor" {
				st.forA = q.target
			}
			m.stakes = append(m.stakes, st)
		}
	}
	if okv && q != nil && q.kind == "unstake" {
		for _, st := range m.stakes {
			if bytes.Equal(st.id.Bytes(), q.id) && st.owner != s.AccountAddress {
				m.fail(15, "stake-ended-by-another", "%s: the stake of %s was ended by %s", what, name(m, st.owner), name(m, s.AccountAddress))
				return
			}
		}
		c.r.Count("stakes ended by their owners", 1)
	}
	// compare
	ks := map[fundKey]bool{}
	for k := range pre {
		ks[k] = true
	}
	for k := range m.fund {
		ks[k] = true
	}
	for k := range exp {
		ks[k] = true
	}
	for k := range ks {
		d := accOr(m.fund, k).minus(accOr(pre, k))
		e := accOr(exp, k)
		if free {
			if d.total().Sign() < 0 || d.lk.Sign() != 0 {
				m.fail(15, "job-takes-funds", "%s changed the funds of %s in %s: available %s locked %s vx %s/%s cancelling %s",
					what, name(m, k.a), k.t, d.av, d.lk, d.vl, d.vu, d.cs)
			}
			if q == nil && d.total().Sign() != 0 && s.AccountAddress == types.AddressQuota && len(s.Data) >= 36 {
				// a stake's money goes back to whoever staked it
				for _, st := range m.stakes {
					if bytes.Equal(st.id.Bytes(), s.Data[4:36]) && (st.owner != k.a || k.t != ledger.ViteTokenId || d.total().Cmp(s.Amount) != 0) {
						m.fail(15, "stake-to-another", "%s: the stake of %s over %s was paid to %s: %s", what, name(m, st.owner), s.Amount, name(m, k.a), d.total())
					}
				}
				c.r.Count("stakes paid back", 1)
			}
			continue
		}
		if !d.eq(e) {
			key := "wrong-change"
			if e.eq(dacc{zero, zero, zero, zero, zero}) {
				key = "stray-change"
			}
			if !okv {
				key = "change-by-failed-call"
			}
			m.fail(15, key, "%s (by %s, err %v) changed the funds of %s in %s by available %s locked %s vx %s/%s cancelling %s; due: %s %s %s/%s %s",
				what, name(m, s.AccountAddress), r.err, name(m, k.a), k.t, d.av, d.lk, d.vl, d.vu, d.cs, e.av, e.lk, e.vl, e.vu, e.cs)
			return
		}
	}
	// money sent out must be due: the contract's balance changes by what came in and what went out
	for _, t := range m.toks {
		n := preBal[t.id]
		if s.TokenId == t.id {
			n = add(n, s.Amount)
		}
		for _, x := range r.sends {
			if x.TokenId == t.id {
				n = sub(n, x.Amount)
			}
		}
		if n.Cmp(w.balance(types.AddressDexFund, t.id)) != 0 {
			m.fail(15, "balance-not-explained", "%s: the exchange's balance of %s is %s, by its sends it should be %s", what, t.id, w.balance(types.AddressDexFund, t.id), n)
			return
		}
	}
	now := m.surpluses()
	for _, t := range m.toks {
		d := sub(now[t.id], m.surplus[t.id])
		e := new(big.Int)
		if okv && !credits && s.TokenId == t.id {
			e.Set(s.Amount)
		}
		switch {
		case now[t.id].Sign() < 0:
			m.fail(15, "insolvent", "after %s the exchange owes %s more of %s than it has", what, neg(now[t.id]), t.id)
			return
		case free && q == nil && d.Sign() != 0:
			m.fail(15, "answer-not-credited", "%s from %s brings %s: what the exchange has minus what it owes of %s changed by %s", what, name(m, s.AccountAddress), s.Amount, t.id, d)
			return
		case free && d.Sign() < 0:
			m.fail(15, "job-overspends", "%s took %s of %s from other people's money", what, neg(d), t.id)
			return
		case !free && d.Cmp(e) != 0:
			m.fail(15, "money-appears-or-vanishes", "%s (by %s, err %v): what the exchange has minus what it owes of %s changed by %s, expected %s", what, name(m, s.AccountAddress), r.err, t.id, d, e)
			return
		}
	}
	m.surplus = now
	m.checkLocks(what)
}

// dueOf is the reference for successful calls. credits: the attached amount is credited to someone.
func (m *dexm) dueOf(s *ledger.AccountBlock, q *dreq, me string, r *result, pre map[fundKey]dacc, due func(types.Address, types.TokenTypeId, dacc)) (credits, free bool, opened int) {
	from := s.AccountAddress
	out := func(to types.Address, t types.TokenTypeId, n *big.Int) {
		for _, x := range r.sends {
			if x.ToAddress == to && x.TokenId == t && x.Amount.Cmp(n) == 0 {
				return
			}
		}
		m.fail(15, "withdrawal-not-sent", "%s by %s: no send of %s %s to %s", me, name(m, from), n, t, name(m, to))
	}
	noSend := func() {
		for _, x := range r.sends {
			if x.Amount.Sign() > 0 {
				m.fail(15, "unexpected-payment", "%s by %s pays %s of %s to %s", me, name(m, from), x.Amount, x.TokenId, name(m, x.ToAddress))
			}
		}
	}
	switch me {
	case "DexFundUserDeposit", "Deposit":
		due(from, s.TokenId, avail(s.Amount))
		noSend()
		return true, false, 0
	case "AgentDeposit":
		due(q.target, s.TokenId, avail(s.Amount))
		noSend()
		return true, false, 0
	case "DexFundUserWithdraw", "Withdraw":
		due(from, q.tok, avail(neg(q.amt)))
		out(from, q.tok, q.amt)
	case "AssignedWithdraw":
		due(from, q.tok, avail(neg(q.amt)))
		out(q.target, q.tok, q.amt)
	case "Transfer":
		due(from, q.tok, avail(neg(q.amt)))
		due(q.target, q.tok, avail(q.amt))
		noSend()
	case "DexFundNewOrder", "PlaceOrder", "DexFundNewAgentOrder", "PlaceAgentOrder":
		m.duePlace(s, q, r, pre, due)
		noSend()
	case "DexFundSettleOrders", "SettleOrders":
		noSend()
		if from != types.AddressDexTrade {
			m.fail(15, "forged-settlement", "a settlement sent by %s was applied", name(m, from))
			return
		}
		fund, fees, x, ok := readSettle(s.Data)
		if !ok {
			m.fail(15, "settlement-unreadable", "the matcher's settlement cannot be read")
			return
		}
		tt, _ := types.BytesToTokenTypeId(x.TradeToken)
		sumT, sumQ := new(big.Int), new(big.Int)
		for k, d := range fund {
			due(k.a, k.t, dacc{add(d.release, d.inc), neg(add(d.reduce, d.release)), zero, zero, zero})
			if k.t == tt {
				sumT.Add(sumT, sub(d.reduce, d.inc))
			} else {
				sumQ.Add(sumQ, sub(d.reduce, d.inc))
			}
		}
		for _, f := range fees {
			sumQ.Sub(sumQ, add(f.base, f.oper))
		}
		if sumT.Sign() != 0 || sumQ.Sign() != 0 {
			m.fail(15, "settlement-not-balanced", "a settlement takes %s of the traded and %s of the quote token more from locked funds than it pays and charges", sumT, sumQ)
		}
	case "DexFundNewMarket", "OpenNewMarket":
		t, qt := m.tok(q.t), m.tok(q.q)
		if t != nil && qt != nil && m.marketID(t, qt) > 0 {
			due(from, ledger.ViteTokenId, avail(neg(vite(10000))))
		}
	case "DexFundNewInviter", "CreateNewInviter":
		n := vite(1000)
		if m.v() >= 10 {
			n = vite(100)
		}
		due(from, ledger.ViteTokenId, avail(neg(n)))
		noSend()
	case "DexFundEndorseVx", "EndorseVx":
		noSend()
		return true, false, 0
	case "LockVxForDividend":
		if q.code == 1 {
			due(from, dex.VxTokenId, dacc{neg(q.amt), zero, q.amt, zero, zero})
		} else {
			// what would be left below the least that earns dividends is unlocked too
			n := q.amt
			if l := sub(accOr(pre, fundKey{from, dex.VxTokenId}).vl, n); l.Sign() > 0 && l.Cmp(dex.VxDividendThreshold) < 0 {
				if accOr(m.fund, fundKey{from, dex.VxTokenId}).vl.Sign() == 0 {
					n = add(n, l)
				}
			}
			due(from, dex.VxTokenId, dacc{zero, zero, neg(n), n, zero})
		}
		noSend()
	case "DexFundPledgeForVx", "StakeForMining":
		if q.code == 1 {
			due(from, ledger.ViteTokenId, avail(neg(q.amt)))
			out(types.AddressQuota, ledger.ViteTokenId, q.amt)
		} else {
			noSend()
		}
	case "DexFundPledgeForVip", "StakeForVIP", "DexFundPledgeForSuperVip", "StakeForSVIP", "StakeForPrincipalSVIP":
		n := vite(10000)
		if me[len(me)-3:] == "Vip" && me != "DexFundPledgeForVip" || me == "StakeForSVIP" || me == "StakeForPrincipalSVIP" {
			n = vite(100000)
			if m.v() >= 4 && m.v() >= 0 {
				n = dex.StakeForSuperVIPAmount
			}
		} else {
			n = dex.StakeForVIPAmount
		}
		if q.kind == "stakeFor" || q.code == 1 {
			if len(r.sends) > 0 {
				due(from, ledger.ViteTokenId, avail(neg(n)))
				out(types.AddressQuota, ledger.ViteTokenId, n)
			} else { // an existing stake is prolonged at no cost
				noSend()
			}
		} else {
			noSend()
		}
	case "DexFundPeriodJob", "TriggerPeriodJob", "SettleMakerMinedVx", "DexFundSettleMakerMinedVx":
		return false, true, 0
	case "CancelOrderBySendHash":
		noSend()
		own := from
		if q.target != (types.Address{}) && q.target != from {
			own = q.target
			id := int32(0)
			if t, qt := m.tok(q.t), m.tok(q.q); t != nil && qt != nil {
				id = m.marketID(t, qt)
			}
			if !m.granted(own, from, id) {
				m.fail(15, "cancel-by-stranger", "%s may cancel orders of %s in market %d without a grant", name(m, from), name(m, own), id)
				return
			}
		}
		for _, x := range r.sends {
			pa := new(dex.ParamDexInnerCancelOrder)
			if x.ToAddress == types.AddressDexTrade && abi.ABIDexTrade.UnpackMethod(pa, tradeMethod(x.Data), x.Data) == nil {
				if pa.Owner != own || pa.SendHash != q.hash {
					m.fail(15, "cancel-of-another", "%s asked to cancel %s of %s, the exchange asks the matcher to cancel %s of %s", name(m, from), q.hash, name(m, own), pa.SendHash, name(m, pa.Owner))
				}
			}
		}
	case "DexFundConfigMarketsAgent", "ConfigMarketAgents":
		noSend()
		g := dgrant{from, q.target, q.m.id}
		m.grants[g] = q.code == 1
		m.given = append(m.given, g)
	default:
		if q == nil { // answers of the other contracts: the money that came in goes to its owner
			return true, true, 0
		}
		noSend()
	}
	return false, false, 0
}

func (m *dexm) tok(id types.TokenTypeId) *dtok {
	for _, t := range m.toks {
		if t.id == id {
			return t
		}
	}
	return nil
}

// duePlace judges the order the exchange hands to the matcher against the user's request.
func (m *dexm) duePlace(s *ledger.AccountBlock, q *dreq, r *result, pre map[fundKey]dacc, due func(types.Address, types.TokenTypeId, dacc)) {
	if q.kind == "agentOrder" && !m.granted(q.user, *q.agent, q.m.id) {
		m.fail(15, "order-by-stranger", "%s placed an order for %s in %s without a grant", name(m, *q.agent), name(m, q.user), q.m)
		return
	}
	if len(r.sends) != 1 || r.sends[0].ToAddress != types.AddressDexTrade {
		m.fail(15, "order-not-passed", "%s was accepted with %d sends", q, len(r.sends))
		return
	}
	x := r.sends[0]
	o, ok := readOrder(x.Data)
	if !ok {
		m.fail(m.prop, "order-unreadable-send", "the order passed for %s cannot be read", q)
		return
	}
	side := o.Id[3] == 1
	bad := func(f string, a, b interface{}) {
		m.fail(m.prop, "order-altered-"+f, "%s: %s of the placed order is %v, asked %v", q, f, a, b)
	}
	if side != q.side {
		bad("side", side, q.side)
	}
	if mk := m.mktOf(o.Id); mk != q.m {
		bad("market", mk, q.m)
	}
	if !bytes.Equal(o.Address, q.user.Bytes()) {
		bad("owner", name(m, addrOf(o.Address)), name(m, q.user))
	}
	if o.Type != int32(q.typ) {
		bad("type", o.Type, q.typ)
	}
	if bi(o.Quantity).Cmp(q.qty) != 0 {
		bad("quantity", bi(o.Quantity), q.qty)
	}
	if q.typ != 1 && idPrice(o.Id).Cmp(q.price) != 0 {
		bad("price", idPrice(o.Id).FloatString(12), q.price.FloatString(12))
	}
	if now := bi([]byte(m.w.stor[types.AddressDexFund]["tts:"])).Int64(); idTime(o.Id) != now {
		bad("time", idTime(o.Id), now)
	}
	if m.v() >= 4 && !bytes.Equal(o.SendHash, s.Hash.Bytes()) {
		bad("hash", types.DataHash(o.SendHash), s.Hash)
	}
	ag := m.v() >= 4 && m.v() < 8 && q.agent != nil
	if ag && !bytes.Equal(o.Agent, q.agent.Bytes()) || !ag && len(o.Agent) > 0 {
		bad("agent", o.Agent, q.agent)
	}
	if len(o.ExecutedQuantity)+len(o.ExecutedAmount)+len(o.ExecutedBaseFee)+len(o.ExecutedOperatorFee) > 0 {
		bad("executed", o, nil)
	}
	for _, f := range []int32{o.TakerFeeRate, o.MakerFeeRate, o.TakerOperatorFeeRate, o.MakerOperatorFeeRate} {
		if f < 0 || f > 200 {
			bad("fee rate", f, "0..200")
		}
	}
	if m.c.bad {
		return
	}
	tok := q.m.q.id
	if side {
		tok = q.m.t.id
	}
	lock := lockOf(side, o)
	if q.typ != 1 {
		want := new(big.Rat).Mul(new(big.Rat).SetInt(q.qty), new(big.Rat).Mul(q.price, q.m.factor()))
		if !near(bi(o.Amount), want) {
			bad("amount", bi(o.Amount), want.FloatString(3))
		}
		if !side {
			rate := o.TakerFeeRate + o.TakerOperatorFeeRate
			if x := o.MakerFeeRate + o.MakerOperatorFeeRate; x > rate {
				rate = x
			}
			if want := new(big.Rat).Mul(new(big.Rat).SetInt(bi(o.Amount)), big.NewRat(int64(rate), 100000)); !near(bi(o.LockedBuyFee), want) {
				bad("fee reserve", bi(o.LockedBuyFee), want.FloatString(3))
			}
		}
	} else if !side {
		if av := accOr(pre, fundKey{q.user, tok}).av; lock.Cmp(av) != 0 {
			bad("market buy's lock", lock, av)
		}
	}
	due(q.user, tok, dacc{neg(lock), lock, zero, zero, zero})
	m.seq++
	q.seq = m.seq
	m.place[x.Hash] = q
	m.hashes = append(m.hashes, s.Hash)
	m.c.r.Count("orders placed", 1)
}

func addrOf(b []byte) types.Address {
	a, _ := types.BytesToAddress(b)
	return a
}

// mustNotFail: requests the owner of the money is entitled to.
func (m *dexm) mustNotFail(s *ledger.AccountBlock, q *dreq, me string, pre map[fundKey]dacc, err error) {
	switch me {
	case "DexFundUserDeposit", "Deposit":
		m.fail(15, "deposit-refused", "a deposit of %s %s by %s fails: %v", s.Amount, s.TokenId, name(m, s.AccountAddress), err)
	case "DexFundUserWithdraw", "Withdraw":
		if q != nil && q.amt.Sign() > 0 && q.amt.Cmp(accOr(pre, fundKey{s.AccountAddress, q.tok}).av) <= 0 {
			m.fail(15, "withdrawal-refused", "%s cannot withdraw %s of %s available %s: %v", name(m, s.AccountAddress), q.amt, accOr(pre, fundKey{s.AccountAddress, q.tok}).av, q.tok, err)
		}
	case "DexFundSettleOrders", "SettleOrders":
		m.fail(15, "settlement-fails", "a settlement of the matcher fails: %v", err)
	}
}

// checkLocks: what is locked is what open orders and settlements under way account for.
func (m *dexm) checkLocks(what string) {
	if m.c.bad {
		return
	}
	want := map[fundKey]*big.Int{}
	put := func(a []byte, t types.TokenTypeId, n *big.Int) {
		k := fundKey{addrOf(a), t}
		if want[k] == nil {
			want[k] = new(big.Int)
		}
		want[k].Add(want[k], n)
	}
	for id, o := range m.book {
		k := m.mktOf([]byte(id))
		if k == nil {
			m.fail(15, "order-of-no-market", "order %x belongs to no market", id)
			return
		}
		side := id[3] == 1
		t := k.q.id
		if side {
			t = k.t.id
		}
		n := outstanding(side, o)
		if n.Sign() < 0 {
			m.fail(m.prop, "order-overspent", "an order of %s has spent %s more than it reserved", name(m, addrOf(o.Address)), neg(n))
			return
		}
		put(o.Address, t, n)
	}
	for _, s := range m.w.pend {
		if s.ToAddress == types.AddressDexTrade {
			if q := m.place[s.Hash]; q != nil {
				if o, ok := readOrder(s.Data); ok {
					t := q.m.q.id
					if q.side {
						t = q.m.t.id
					}
					put(o.Address, t, lockOf(q.side, o))
				}
			}
		}
		if s.ToAddress == types.AddressDexFund && s.AccountAddress == types.AddressDexTrade {
			if f, _, _, ok := readSettle(s.Data); ok {
				for k, d := range f {
					put(k.a.Bytes(), k.t, add(d.reduce, d.release))
				}
			}
		}
	}
	for k, a := range m.fund {
		w := want[k]
		if w == nil {
			w = zero
		}
		if a.lk.Cmp(w) != 0 {
			m.fail(15, "lock-without-order", "after %s: %s has %s of %s locked, open orders account for %s", what, name(m, k.a), a.lk, k.t, w)
			return
		}
		delete(want, k)
	}
	for k, w := range want {
		if w.Sign() != 0 {
			m.fail(15, "order-without-lock", "after %s: open orders of %s hold %s of %s that are not locked", what, name(m, k.a), w, k.t)
			return
		}
	}
}
