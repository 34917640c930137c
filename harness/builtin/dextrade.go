package main

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"github.com/vitelabs/go-vite/v2/vm/contracts/dex"
	dexproto "github.com/vitelabs/go-vite/v2/vm/contracts/dex/proto"
)

// dord is an order of the reference book.
type dord struct {
	id                 string
	m                  *dmkt
	addr               types.Address
	agent              []byte
	side               bool
	typ                int32
	price              *big.Rat
	qty, amt, fee, thr *big.Int // asked quantity, reserved amount, reserved fee, limit of market orders
	tr, tor, mr, mor   int32
	exq, exa, exb, exo *big.Int
	seq                int
	ts                 int64
	hash               []byte
}

func (o *dord) remQ() *big.Int { return sub(o.qty, o.exq) }
func (o *dord) remA() *big.Int { return sub(o.amt, o.exa) }
func (o *dord) left() *big.Int {
	if o.side {
		return o.remQ()
	}
	return sub(add(o.amt, o.fee), add(o.exa, add(o.exb, o.exo)))
}
func (o *dord) copy() *dord { x := *o; return &x }
func (o *dord) String() string {
	return fmt.Sprintf("#%d sell=%v type=%d %s/%s at %s", o.seq, o.side, o.typ, o.exq, o.qty, o.price.FloatString(12))
}

type dgrant struct {
	principal, agent types.Address
	m                int32
}

func makeOrd(m *dexm, q *dreq, o *dexproto.Order) *dord {
	return &dord{id: string(o.Id), m: q.m, addr: q.user, agent: o.Agent, side: q.side, typ: int32(q.typ), price: q.price,
		qty: q.qty, amt: bi(o.Amount), fee: bi(o.LockedBuyFee), thr: bi(o.MarketOrderAmtThreshold), tr: o.TakerFeeRate, tor: o.TakerOperatorFeeRate,
		mr: o.MakerFeeRate, mor: o.MakerOperatorFeeRate, exq: zero, exa: zero, exb: zero, exo: zero, seq: q.seq, ts: idTime(o.Id), hash: o.SendHash}
}

// side lists the orders of one side of a market, best first.
func (m *dexm) sideOf(k *dmkt, side bool) []*dord {
	var l []*dord
	for _, o := range m.ref {
		if o.m == k && o.side == side {
			l = append(l, o)
		}
	}
	sort.Slice(l, func(i, j int) bool {
		if c := l[i].price.Cmp(l[j].price); c != 0 {
			return (c < 0) == side
		}
		return l[i].seq < l[j].seq
	})
	return l
}

func (m *dexm) tradeTime() int64 {
	return bi([]byte(m.w.stor[types.AddressDexTrade]["ttmsp:"])).Int64()
}

func (m *dexm) expired(o *dord, now int64) bool {
	return m.v() < 11 && now != 0 && now > o.ts+30*dexDay
}

type dtx struct {
	maker            *dord
	q, a             *big.Int
	tf, tof, mf, mof *big.Int
}

type dcollect struct {
	twice bool // an expired order is listed more than once
	fund  map[fundKey]*dsettle
	fees  map[types.Address]*dfee
}

func (x *dcollect) at(a types.Address, t types.TokenTypeId) *dsettle {
	k := fundKey{a, t}
	if x.fund[k] == nil {
		x.fund[k] = &dsettle{zero, zero, zero}
	}
	return x.fund[k]
}

func (x *dcollect) refund(o *dord) {
	t := o.m.q.id
	if o.side {
		t = o.m.t.id
	}
	d := x.at(o.addr, t)
	d.release = add(d.release, o.left())
}

func (x *dcollect) fee(a types.Address, b, o *big.Int) {
	if x.fees[a] == nil {
		x.fees[a] = &dfee{zero, zero}
	}
	x.fees[a].base, x.fees[a].oper = add(x.fees[a].base, b), add(x.fees[a].oper, o)
}

func (x *dcollect) trade(buyer, seller *dord, t *dtx, bf, bof, sf, sof *big.Int) {
	k := buyer.m
	d := x.at(buyer.addr, k.t.id)
	d.inc = add(d.inc, t.q)
	d = x.at(seller.addr, k.t.id)
	d.reduce = add(d.reduce, t.q)
	d = x.at(buyer.addr, k.q.id)
	d.reduce = add(d.reduce, add(t.a, add(bf, bof)))
	d = x.at(seller.addr, k.q.id)
	d.inc = add(d.inc, sub(t.a, add(sf, sof)))
	x.fee(buyer.addr, bf, bof)
	x.fee(seller.addr, sf, sof)
}

// round half up
func roundRat(x *big.Rat) *big.Int {
	y := new(big.Rat).Add(x, big.NewRat(1, 2))
	return new(big.Int).Quo(y.Num(), y.Denom())
}

func minBig(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}

func rateOf(a *big.Int, rate int32) *big.Rat {
	return new(big.Rat).Mul(new(big.Rat).SetInt(a), big.NewRat(int64(rate), 100000))
}

// feesOf: what a trade of amount a costs, with rooms for the observed rounding (ob, oo may be nil).
func (m *dexm) feesOf(o *dord, a *big.Int, br, or int32, ob, oo *big.Int) (b, p *big.Int, ok bool) {
	ok = true
	one := func(rate int32, used *big.Int, obs *big.Int) (*big.Int, bool) {
		if rate == 0 {
			if obs != nil && obs.Sign() != 0 {
				ok = false
			}
			return zero, true
		}
		n := roundRat(rateOf(a, rate))
		if obs != nil && obs.Cmp(n) != 0 && near(obs, rateOf(a, rate)) {
			n = obs
		}
		more := true
		if !o.side {
			room := sub(o.fee, used)
			if room.Sign() <= 0 {
				n, more = zero, false
			} else if room.Cmp(n) <= 0 {
				n, more = room, false
			}
		}
		if obs != nil && obs.Cmp(n) != 0 {
			ok = false
		}
		return n, more
	}
	b, more := one(br, add(o.exb, o.exo), ob)
	p = zero
	if more {
		p, _ = one(or, add(add(o.exb, b), o.exo), oo)
	} else if oo != nil && oo.Sign() != 0 {
		ok = false
	}
	return
}

// dust: 1 the rest is too small to trade, 0 not, -1 too close to tell.
func (m *dexm) dust(o *dord, at *big.Rat) int {
	f := o.m.factor()
	var x *big.Rat
	switch {
	case o.remQ().Sign() == 0:
		return 1
	case o.typ != 1:
		x = new(big.Rat).Mul(new(big.Rat).SetInt(o.remQ()), new(big.Rat).Mul(o.price, f))
	case m.v() < 12:
		x = new(big.Rat).Mul(new(big.Rat).SetInt(o.remQ()), new(big.Rat).Mul(at, f))
	case o.side:
		return 0
	default:
		if o.remA().Sign() == 0 {
			return 1
		}
		x = new(big.Rat).Quo(new(big.Rat).SetInt(o.remA()), new(big.Rat).Mul(at, f))
	}
	d := new(big.Rat).Sub(x, big.NewRat(1, 1))
	if s := d.Sign(); d.Abs(d).Cmp(big.NewRat(1, 1000000000000)) < 0 {
		return -1
	} else if s < 0 {
		return 1
	}
	return 0
}

const (
	dOpen = iota
	dFilled
	dGone // cancelled by the market
)

func (m *dexm) onTrade(s *ledger.AccountBlock) {
	c, w := m.c, m.w
	me := tradeMethod(s.Data)
	if m.ambush != nil {
		m.ambush(s)
	}
	now := m.tradeTime()
	r, p := w.receive(s)
	if p != nil {
		m.fail(0, "panic-trade", "receiving %s panics: %v", me, p)
		return
	}
	if r.none || r.block == nil {
		m.fail(0, "no-receive-trade", "%s could not be received: %v", me, r.err)
		return
	}
	m.absorb(types.AddressDexTrade, r.set)
	if c.bad {
		return
	}
	c.note("  matcher receives %s (%s) -> %v, %d sends, %d events", me, name(m, s.AccountAddress), r.err, len(r.sends), len(r.logs))
	c.r.Count("matcher: "+me, 1)
	x := &dcollect{fund: map[fundKey]*dsettle{}, fees: map[types.Address]*dfee{}}
	var mk *dmkt
	switch me {
	case "DexTradeNewOrder", "PlaceOrder":
		if s.AccountAddress != types.AddressDexFund {
			m.fail(0, "forged-order", "an order sent by %s was taken", name(m, s.AccountAddress))
			return
		}
		q := m.place[s.Hash]
		o, ok := readOrder(s.Data)
		if q == nil || !ok {
			m.fail(16, "order-unreadable-send", "an order reached the matcher that nobody placed")
			return
		}
		if r.err != nil {
			m.fail(16, "place-fails", "placing %s fails in the matcher: %v", q, r.err)
			return
		}
		mk = q.m
		m.match(q, o, &r, now, x)
	case "DexTradeCancelOrder", "CancelOrder", "DexTradeCancelOrderByHash", "CancelOrderByTransactionHash", "InnerCancelOrderBySendHash":
		q := m.reqs[s.Hash]
		var o *dord
		op := s.AccountAddress
		var pa dex.ParamDexInnerCancelOrder
		switch {
		case q == nil: // from the fund contract
			if abi.ABIDexTrade.UnpackMethod(&pa, me, s.Data) != nil {
				return
			}
			op = pa.Owner
			o = m.byHash(pa.SendHash)
		case q.kind == "cancelHash":
			o = m.byHash(q.hash)
		default:
			o = m.ref[string(q.id)]
		}
		may := o != nil && (op == o.addr || len(o.agent) > 0 && bytes.Equal(op.Bytes(), o.agent))
		if may != (r.err == nil) {
			key := "cancel-refused"
			if !may {
				key = "cancel-by-stranger"
			}
			m.fail(0, key, "%s by %s of order %v: %v", me, name(m, op), o, r.err)
			return
		}
		if may {
			mk = o.m
			x.refund(o)
			delete(m.ref, o.id)
			c.r.Count("orders cancelled", 1)
		}
	case "DexTradeCleanExpireOrders", "ClearExpiredOrders":
		q := m.reqs[s.Hash]
		if r.err == nil {
			gone := map[string]bool{}
			for i := 0; i+22 <= len(q.id); i += 22 {
				x.twice = x.twice || gone[string(q.id[i:i+22])]
				if o := m.ref[string(q.id[i:i+22])]; o != nil && m.expired(o, now) {
					mk = o.m
					x.refund(o)
					delete(m.ref, o.id)
					gone[o.id] = true
					c.r.Count("expired orders cleared", 1)
				}
			}
		}
	}
	if c.bad {
		return
	}
	m.checkSends(me, s, mk, &r, x)
	m.checkBook(me)
	m.checkLocks(me)
	if !c.bad {
		n := len(m.ref)
		c.r.Max("orders in the book", int64(n))
		c.r.Eval(me, n > 0)
	}
}

func (m *dexm) byHash(h types.Hash) *dord {
	for _, o := range m.ref {
		if bytes.Equal(o.hash, h.Bytes()) {
			return o
		}
	}
	return nil
}

// match walks the reference book and compares with the events.
func (m *dexm) match(q *dreq, po *dexproto.Order, r *result, now int64, x *dcollect) {
	c := m.c
	tk := makeOrd(m, q, po)
	txT, noT, upT := new(dex.TransactionEvent).GetTopicId(), new(dex.NewOrderEvent).GetTopicId(), new(dex.OrderUpdateEvent).GetTopicId()
	var txs []*dexproto.Transaction
	var nw *dexproto.NewOrderInfo
	ups := map[string]*dexproto.OrderUpdateInfo{}
	for _, l := range r.logs {
		if len(l.Topics) == 0 {
			continue
		}
		switch l.Topics[0] {
		case txT:
			e := &dex.TransactionEvent{}
			if e.FromBytes(l.Data) == nil {
				t := e.Transaction
				txs = append(txs, &t)
			}
		case noT:
			e := &dex.NewOrderEvent{}
			if e.FromBytes(l.Data) == nil {
				t := e.NewOrderInfo
				nw = &t
			}
		case upT:
			e := &dex.OrderUpdateEvent{}
			if e.FromBytes(l.Data) == nil {
				t := e.OrderUpdateInfo
				ups[string(t.Id)] = &t
			}
		}
	}
	if nw == nil || nw.Order == nil {
		m.fail(16, "no-order-event", "no event tells of %s", tk)
		return
	}
	_, rests := m.book[tk.id]
	k := tk.m
	f := k.factor()
	status := dOpen
	var gone []*dord // makers that leave
	type change struct {
		o      *dord
		status int
	}
	var moved []change
	n := 0
	sum := new(big.Int)
	whole := len(txs) == 0 && !rests // nothing may have happened at all
	for _, mo := range m.sideOf(k, !tk.side) {
		if status != dOpen {
			break
		}
		if m.expired(mo, now) {
			gone = append(gone, mo)
			c.r.Count("expired orders met", 1)
			continue
		}
		if tk.typ != 1 {
			if d := tk.price.Cmp(mo.price); !tk.side && d < 0 || tk.side && d > 0 {
				break
			}
		}
		if tk.typ == 2 {
			status = dGone
			c.r.Count("post-only orders refused", 1)
			break
		}
		mk := mo.copy()
		p := mk.price
		pf := new(big.Rat).Mul(p, f)
		want := minBig(tk.remQ(), mk.remQ())
		if tk.typ == 1 && !tk.side && m.v() >= 12 {
			y := new(big.Rat).Quo(new(big.Rat).SetInt(tk.remA()), pf)
			want = minBig(want, new(big.Int).Quo(y.Num(), y.Denom()))
		}
		exact := new(big.Rat).Mul(new(big.Rat).SetInt(want), pf)
		a := roundRat(exact)
		var obs *dexproto.Transaction
		if n < len(txs) {
			obs = txs[n]
		} else if !whole {
			m.fail(16, "trade-missing", "%s: trade %d with %s (price %s) did not happen; %d trades did", tk, n+1, mk, p.FloatString(12), len(txs))
			return
		}
		if obs != nil {
			if string(obs.TakerId) != tk.id || string(obs.MakerId) != mk.id {
				ot := m.ref[string(obs.MakerId)]
				m.fail(16, "wrong-maker", "%s: trade %d is with %v, but %s is due first", tk, n+1, ot, mk)
				return
			}
			if obs.TakerSide != tk.side {
				m.fail(16, "wrong-side", "%s: trade says taker sells=%v", tk, obs.TakerSide)
				return
			}
			if op := bytesPrice(obs.Price); op.Cmp(p) != 0 {
				m.fail(16, "wrong-price", "%s: trades at %s with %s", tk, op.FloatString(12), mk)
				return
			}
			if oq := bi(obs.Quantity); oq.Cmp(want) != 0 {
				// a market buy's quantity is a division: the last unit may differ
				if !(tk.typ == 1 && !tk.side && near(oq, new(big.Rat).SetInt(want)) && oq.Cmp(tk.remQ()) <= 0 && oq.Cmp(mk.remQ()) <= 0) {
					m.fail(16, "wrong-quantity", "%s: trades %s with %s, due %s", tk, oq, mk, want)
					return
				}
				want = oq
				exact = new(big.Rat).Mul(new(big.Rat).SetInt(want), pf)
				a = roundRat(exact)
			}
			if oa := bi(obs.Amount); oa.Cmp(a) != 0 && near(oa, exact) {
				a = oa
			}
		}
		if !tk.side {
			a = minBig(a, tk.remA())
		} else {
			a = minBig(a, mk.remA())
		}
		if obs != nil && bi(obs.Amount).Cmp(a) != 0 {
			m.fail(0, "wrong-amount", "%s: %s at %s with %s costs %s, due %s", tk, want, p.FloatString(12), mk, bi(obs.Amount), a)
			return
		}
		t := &dtx{maker: mk, q: want, a: a}
		var ok1, ok2 bool
		if obs != nil {
			t.tf, t.tof, ok1 = m.feesOf(tk, a, tk.tr, tk.tor, bi(obs.TakerFee), bi(obs.TakerOperatorFee))
			t.mf, t.mof, ok2 = m.feesOf(mk, a, mk.mr, mk.mor, bi(obs.MakerFee), bi(obs.MakerOperatorFee))
			if !ok1 || !ok2 {
				m.fail(0, "wrong-fee", "%s with %s: amount %s, fees %s+%s (rates %d+%d) and %s+%s (rates %d+%d), due %s+%s and %s+%s", tk, mk, a,
					bi(obs.TakerFee), bi(obs.TakerOperatorFee), tk.tr, tk.tor, bi(obs.MakerFee), bi(obs.MakerOperatorFee), mk.mr, mk.mor, t.tf, t.tof, t.mf, t.mof)
				return
			}
		} else {
			t.tf, t.tof, _ = m.feesOf(tk, a, tk.tr, tk.tor, nil, nil)
			t.mf, t.mof, _ = m.feesOf(mk, a, mk.mr, mk.mor, nil, nil)
		}
		tk.exq, tk.exa, tk.exb, tk.exo = add(tk.exq, want), add(tk.exa, a), add(tk.exb, t.tf), add(tk.exo, t.tof)
		mk.exq, mk.exa, mk.exb, mk.exo = add(mk.exq, want), add(mk.exa, a), add(mk.exb, t.mf), add(mk.exo, t.mof)
		sum = add(tk.exa, add(tk.exb, tk.exo))
		n++
		// who is done?
		switch m.dust(tk, p) {
		case 1:
			status = dFilled
		case -1:
			if n >= len(txs) && !rests && nw.Order.Status == 2 {
				status = dFilled
			}
		}
		if status == dOpen && n >= 100 {
			status = dGone
			c.r.Count("takers stopped after 100 trades", 1)
		}
		ms := dOpen
		switch m.dust(mk, p) {
		case 1:
			ms = dFilled
		case -1:
			if _, stays := m.book[mk.id]; !stays {
				ms = dFilled
			}
		}
		moved = append(moved, change{mk, ms})
		if t.maker = mk; tk.side {
			x.trade(mk, tk, t, t.mf, t.mof, t.tf, t.tof)
		} else {
			x.trade(tk, mk, t, t.tf, t.tof, t.mf, t.mof)
		}
		if n > 1 && len(moved) > 1 && moved[len(moved)-2].o.price.Cmp(p) == 0 {
			c.r.Count("trades at equal price", 1)
		}
	}
	if n < len(txs) {
		ot := m.ref[string(txs[n].MakerId)]
		m.fail(16, "trade-not-due", "%s: a trade with %v was made that is not due", tk, ot)
		return
	}
	m.trades += len(txs)
	c.r.Count("trades", int64(len(txs)))
	// orders that may come to nothing as a whole
	if n > 0 && len(txs) == 0 {
		okWhole := false
		if tk.typ == 3 && status != dFilled {
			okWhole = true
			c.r.Count("fill-or-kill orders killed", 1)
		}
		if tk.typ == 1 && add(sum, big.NewInt(int64(3*n))).Cmp(tk.thr) > 0 {
			okWhole = true
			c.r.Count("market orders over the limit", 1)
		}
		if !okWhole {
			m.fail(16, "trade-missing", "%s: no trade happened, %d were due", tk, n)
			return
		}
		tk = makeOrd(m, q, po)
		moved, status = nil, dGone
		x.fund, x.fees = map[fundKey]*dsettle{}, map[types.Address]*dfee{}
	} else if len(txs) > 0 {
		if tk.typ == 3 && status == dOpen {
			m.fail(16, "fill-or-kill-partial", "%s: a fill-or-kill order traded in part", tk)
			return
		}
		if tk.typ == 1 && sub(sum, big.NewInt(int64(3*n))).Cmp(tk.thr) > 0 {
			m.fail(16, "market-order-over-limit", "%s: a market order traded %s, limit %s", tk, sum, tk.thr)
			return
		}
	}
	if status == dOpen && (tk.typ == 1 || tk.typ == 3 || tk.typ == 4) {
		status = dGone
	}
	for _, o := range gone {
		x.refund(o)
		delete(m.ref, o.id)
	}
	for _, ch := range moved {
		if u := ups[ch.o.id]; u == nil {
			m.fail(16, "no-update-event", "no event tells of the change of %s", ch.o)
			return
		} else if bi(u.ExecutedQuantity).Cmp(ch.o.exq) != 0 || bi(u.ExecutedAmount).Cmp(ch.o.exa) != 0 {
			m.fail(16, "wrong-update-event", "%s: the event says %s for %s, its trades sum to %s for %s", ch.o, bi(u.ExecutedQuantity), bi(u.ExecutedAmount), ch.o.exq, ch.o.exa)
			return
		}
		if ch.status == dFilled {
			x.refund(ch.o)
			delete(m.ref, ch.o.id)
		} else {
			m.ref[ch.o.id] = ch.o
		}
	}
	if bi(nw.Order.ExecutedQuantity).Cmp(tk.exq) != 0 || bi(nw.Order.ExecutedAmount).Cmp(tk.exa) != 0 {
		m.fail(16, "wrong-order-event", "%s: the event says %s for %s, its trades sum to %s for %s", tk, bi(nw.Order.ExecutedQuantity), bi(nw.Order.ExecutedAmount), tk.exq, tk.exa)
		return
	}
	if status == dOpen {
		m.ref[tk.id] = tk
	} else {
		x.refund(tk)
	}
}

func bytesPrice(b []byte) *big.Rat {
	if len(b) != 10 {
		return new(big.Rat)
	}
	r := new(big.Rat).SetFrac(bi(b[5:]), new(big.Int).Exp(big.NewInt(10), big.NewInt(12), nil))
	return r.Add(r, new(big.Rat).SetInt(bi(b[:5])))
}

// checkSends: the matcher tells the fund contract exactly what the trades and refunds sum to.
func (m *dexm) checkSends(me string, from *ledger.AccountBlock, mk *dmkt, r *result, x *dcollect) {
	got := map[fundKey]*dsettle{}
	fees := map[types.Address]*dfee{}
	for _, s := range r.sends {
		if r.err != nil && from != nil && s.ToAddress == from.AccountAddress && s.TokenId == from.TokenId && s.Amount.Cmp(from.Amount) == 0 && len(s.Data) == 0 {
			continue // what came with a failed call goes back
		}
		if s.Amount.Sign() > 0 {
			m.fail(0, "matcher-pays", "%s pays %s to %s", me, s.Amount, name(m, s.ToAddress))
			return
		}
		f, g, a, ok := readSettle(s.Data)
		if !ok || s.ToAddress != types.AddressDexFund {
			m.fail(0, "unknown-send", "%s sends something else than a settlement", me)
			return
		}
		if mk != nil && (!bytes.Equal(a.TradeToken, mk.t.id.Bytes()) || !bytes.Equal(a.QuoteToken, mk.q.id.Bytes())) {
			m.fail(0, "settlement-of-another-market", "%s in %s settles tokens %x/%x", me, mk, a.TradeToken, a.QuoteToken)
			return
		}
		for k, d := range f {
			got[k] = d
		}
		for k, d := range g {
			fees[k] = d
		}
	}
	ks := map[fundKey]bool{}
	for k := range got {
		ks[k] = true
	}
	for k := range x.fund {
		ks[k] = true
	}
	for k := range ks {
		g, e := got[k], x.fund[k]
		if g == nil {
			g = &dsettle{zero, zero, zero}
		}
		if e == nil {
			e = &dsettle{zero, zero, zero}
		}
		if x.twice && g.reduce.Cmp(e.reduce) == 0 && g.inc.Cmp(e.inc) == 0 && g.release.Cmp(e.release) > 0 {
			m.fail(15, "expired-order-cleared-twice", "%s: a request that lists an expired order more than once refunds it more than once: the settlement of %s in %s releases %s, due %s", me, name(m, k.a), k.t,
				g.release, e.release)
			return
		}
		if g.reduce.Cmp(e.reduce) != 0 || g.release.Cmp(e.release) != 0 || g.inc.Cmp(e.inc) != 0 {
			m.fail(0, "wrong-settlement", "%s: the settlement of %s in %s takes %s, releases %s, pays %s; the trades and refunds sum to %s, %s, %s", me, name(m, k.a), k.t,
				g.reduce, g.release, g.inc, e.reduce, e.release, e.inc)
			return
		}
	}
	for a := range x.fees {
		if fees[a] == nil {
			fees[a] = &dfee{zero, zero}
		}
	}
	for a, g := range fees {
		e := x.fees[a]
		if e == nil {
			e = &dfee{zero, zero}
		}
		if g.base.Cmp(e.base) != 0 || g.oper.Cmp(e.oper) != 0 {
			m.fail(0, "wrong-fee-settlement", "%s: fees of %s are %s+%s, the trades' sum to %s+%s", me, name(m, a), g.base, g.oper, e.base, e.oper)
			return
		}
	}
}

// checkBook compares the stored book with the reference book.
func (m *dexm) checkBook(me string) {
	if m.c.bad {
		return
	}
	for id, s := range m.book {
		o := m.ref[id]
		if o == nil {
			m.fail(0, "order-should-be-gone", "after %s order %x of %s is still in the book", me, id, name(m, addrOf(s.Address)))
			return
		}
		for i, p := range [][2]*big.Int{{bi(s.Quantity), o.qty}, {bi(s.ExecutedQuantity), o.exq}, {bi(s.ExecutedAmount), o.exa}, {bi(s.ExecutedBaseFee), o.exb}, {bi(s.ExecutedOperatorFee), o.exo}, {bi(s.Amount), o.amt}} {
			if p[0].Cmp(p[1]) != 0 {
				m.fail(0, "order-differs", "after %s: %s field %d is %s, its trades sum to %s", me, o, i, p[0], p[1])
				return
			}
		}
		if addrOf(s.Address) != o.addr || s.Type != o.typ {
			m.fail(0, "order-differs", "after %s: %s has owner %s type %d", me, o, name(m, addrOf(s.Address)), s.Type)
			return
		}
	}
	for id, o := range m.ref {
		if m.book[id] == nil {
			m.fail(16, "order-lost", "after %s order %s is not in the book any more", me, o)
			return
		}
		if len(o.hash) == 32 {
			if v := m.w.stor[types.AddressDexTrade]["hmId:"+string(o.hash[5:])]; string(v) != id {
				m.fail(16, "order-hash-lost", "after %s order %s cannot be found by its hash", me, o)
				return
			}
		}
	}
	for _, k := range m.mkts {
		b, s := m.sideOf(k, false), m.sideOf(k, true)
		if len(b) > 0 && len(s) > 0 && b[0].price.Cmp(s[0].price) >= 0 {
			m.fail(16, "crossed-book", "after %s in %s: %s and %s", me, k, b[0], s[0])
			return
		}
	}
}
