package main

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm/contracts/dex"
	dexproto "github.com/vitelabs/go-vite/v2/vm/contracts/dex/proto"
)

// decimal writes a non-negative rational with at most 12 decimals, rounded down.
func decimal(x *big.Rat) string {
	sc := new(big.Rat).Mul(x, pow10(12))
	n := new(big.Int).Quo(sc.Num(), sc.Denom())
	s := n.String()
	for len(s) < 13 {
		s = "0" + s
	}
	s = s[:len(s)-12] + "." + s[len(s)-12:]
	s = strings.TrimRight(s, "0")
	return strings.TrimSuffix(s, ".")
}

var dexBases = []string{"1", "0.5", "0.000123", "1234.5", "0.1", "3.333333333333", "99999", "0.000000017", "20", "0.07", "4294967296", "60000000000"}

// order makes a request near the market's price.
func (m *dexm) order(k *dmkt, u types.Address) *dreq {
	c := m.c
	q := &dreq{kind: "order", user: u, m: k, side: c.p(2)}
	b, _ := new(big.Rat).SetString(m.base[k])
	step := []int64{1, 1, 1, 5, 40}[c.rnd.Intn(5)]
	x := int64(c.rnd.Intn(9)) - 4
	if c.p(3) { // passive
		x = int64(c.rnd.Intn(5))
		if !q.side {
			x = -x
		}
	}
	p := new(big.Rat).Mul(b, big.NewRat(100+x*step, 100))
	if p.Sign() <= 0 {
		p = b
	}
	q.pstr = decimal(p)
	if q.pstr == "0" {
		q.pstr = "0.000000000001"
	}
	q.price, _ = new(big.Rat).SetString(q.pstr)
	if m.v() >= 11 && c.p(3) {
		q.typ = uint8(1 + c.rnd.Intn(4))
		if q.typ == 1 && !q.side && m.v() < 12 {
			q.typ = 4
		}
	}
	// quantity: by worth, or by traded units
	if c.p(4) {
		q.qty = new(big.Int).Add(big.NewInt(1), new(big.Int).Rand(c.rnd, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(c.rnd.Intn(int(k.t.dec)+4))), nil)))
	} else {
		th := dex.QuoteTokenTypeInfos[k.q.qt]
		a := new(big.Rat).Mul(new(big.Rat).SetInt(th.DefaultTradeThreshold), pow10(k.q.dec-th.Decimals))
		if m.low {
			a = big.NewRat(3, 1)
		}
		a.Mul(a, big.NewRat(int64(1+c.rnd.Intn(3000)), []int64{1, 10, 100, 1000}[c.rnd.Intn(4)]))
		if m.low && c.p(2) {
			a.Mul(a, pow10(int32(c.rnd.Intn(int(k.q.dec)+2))))
		}
		a.Quo(a, new(big.Rat).Mul(q.price, k.factor()))
		q.qty = new(big.Int).Quo(a.Num(), a.Denom())
		if c.p(3) && q.qty.Cmp(big.NewInt(1000)) > 0 { // round numbers meet more often
			z := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(len(q.qty.String())-1)), nil)
			q.qty = new(big.Int).Mul(new(big.Int).Quo(q.qty, z), z)
		}
		if q.qty.Sign() == 0 {
			q.qty = big.NewInt(1)
		}
	}
	if c.p(60) {
		q.qty = new(big.Int)
	}
	if q.typ == 1 && c.p(2) {
		q.pstr = ""
		q.price = new(big.Rat)
	}
	return q
}

func (m *dexm) someGrant() *dgrant {
	if len(m.given) == 0 {
		return nil
	}
	return &m.given[m.c.rnd.Intn(len(m.given))]
}

func (m *dexm) anyOrder() *dord {
	n := m.c.rnd.Intn(len(m.ref))
	var best *dord
	l := make([]*dord, 0, len(m.ref))
	for _, o := range m.ref {
		l = append(l, o)
	}
	for i := 0; i <= n; i++ {
		best = nil
		for _, o := range l {
			if best == nil || o.seq < best.seq {
				best = o
			}
		}
		for j, o := range l {
			if o == best {
				l = append(l[:j:j], l[j+1:]...)
				break
			}
		}
	}
	return best
}

func (m *dexm) step() {
	c := m.c
	u := m.users[c.rnd.Intn(len(m.users))]
	other := m.users[c.rnd.Intn(len(m.users))]
	if c.p(10) {
		other = m.outside
	}
	if len(m.mkts) == 0 {
		return
	}
	k := m.mkts[c.rnd.Intn(len(m.mkts))]
	t := m.toks[c.rnd.Intn(len(m.toks))]
	part := func(n *big.Int) *big.Int {
		switch c.rnd.Intn(6) {
		case 0:
			return n
		case 1:
			return add(n, big.NewInt(1))
		case 2:
			return new(big.Int)
		}
		return new(big.Int).Rand(c.rnd, add(n, big.NewInt(1)))
	}
	q := &dreq{user: u, m: k, tok: t.id, target: other, amt: new(big.Int)}
	r := c.rnd.Intn(100)
	orders := 72
	if m.prop == 15 {
		orders = 48
	}
	switch {
	case r < orders:
		q = m.order(k, u)
		if m.v() >= 4 && c.p(6) {
			a := other
			if c.rnd.Intn(3) > 0 {
				if g := m.someGrant(); g != nil {
					a, q.user = g.agent, g.principal
				}
			}
			q.kind, q.agent = "agentOrder", &a
		}
	case r < orders+12 && len(m.ref) > 0:
		o := m.anyOrder()
		q.kind, q.id, q.user = "cancel", []byte(o.id), o.addr
		h := types.Hash{}
		if len(o.hash) == 32 {
			h, _ = types.BytesToHash(o.hash)
		}
		if m.v() >= 4 && c.p(3) {
			q.kind, q.hash = "cancelHash", h
		} else if m.v() >= 8 && c.p(2) {
			q.kind, q.hash, q.t, q.q, q.target = "cancelSend", h, o.m.t.id, o.m.q.id, types.Address{}
			if c.p(2) {
				q.target = o.addr
				q.user = other
				if g := m.someGrant(); g != nil && g.principal == o.addr {
					q.user = g.agent
				}
			}
			if c.p(4) {
				q.t, q.q = k.t.id, k.q.id
			}
		}
		if len(o.agent) > 0 && c.p(2) {
			q.user = addrOf(o.agent)
		} else if c.p(5) {
			q.user = other
		}
		if c.p(20) && len(m.hashes) > 0 {
			q.hash = m.hashes[c.rnd.Intn(len(m.hashes))]
		}
	case r < orders+16:
		if c.p(3) {
			m.now += int64(c.rnd.Intn(dexDay / 2))
		} else {
			m.now += int64(1 + c.rnd.Intn(60))
		}
		if m.v() < 8 && c.p(6) { // later the exchange does not allow skipping a period
			m.now += int64(c.rnd.Intn(40)) * dexDay
		}
		q.kind, q.user = "time", m.admin
	default:
		if m.prop == 16 && !c.p(3) {
			q = m.order(k, u)
			break
		}
		m.other(q, k, u, other, part)
		if q.kind == "" {
			return
		}
	}
	m.issue(q)
	if c.bad {
		return
	}
	n := 0
	switch c.rnd.Intn(4) {
	case 0: // let calls queue up
		n = c.rnd.Intn(3)
	case 1:
		n = 3
	default:
		n = 30
	}
	if q.kind == "time" || len(m.w.pend) > 12 {
		n = 60
	}
	for ; n > 0 && !c.bad && m.deliver(); n-- {
	}
}

// other picks one of the requests that are neither orders nor cancels.
func (m *dexm) other(q *dreq, k *dmkt, u, other types.Address, part func(*big.Int) *big.Int) {
	c := m.c
	av := func(t types.TokenTypeId) *big.Int { return accOr(m.fund, fundKey{u, t}).av }
	v := m.v()
	switch c.rnd.Intn(21) {
	case 0, 1, 2:
		t := m.tok(q.tok)
		q.kind, q.amt = "deposit", new(big.Int).Rand(c.rnd, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(t.dec)+4), nil))
		q.amt.Add(q.amt, big.NewInt(1))
	case 3, 4, 5:
		q.kind, q.amt = "withdraw", part(av(q.tok))
	case 6:
		if v >= 11 {
			q.kind, q.amt = "transfer", part(av(q.tok))
		}
	case 7:
		if v >= 13 {
			if q.kind, q.amt = "assigned", part(av(q.tok)); c.p(2) {
				q.kind, q.amt = "agentDeposit", big.NewInt(int64(1+c.rnd.Intn(1000000)))
			}
		}
	case 8:
		q.kind, q.user, q.code = "marketConfig", k.t.owner, []uint8{2, 4, 6, 6, 2, 8, 1}[c.rnd.Intn(7)]
		q.target = other
		if c.p(8) {
			q.user = u
		}
		if q.code == 8 && c.p(2) || q.code == 1 {
			q.code = 6
		}
	case 9:
		if v >= 4 {
			q.kind, q.code = "grant", uint8(1+c.rnd.Intn(2))
			if c.p(2) {
				q.code = 1
			}
		}
	case 10:
		q.kind = "inviter"
	case 11:
		q.kind = "bind"
		db, err := m.vmdb(types.AddressDexFund)
		if err != nil {
			return
		}
		q.seq = int(dex.GetCodeByInviter(db, other))
	case 12:
		q.kind, q.amt = "endorse", vite(int64(1+c.rnd.Intn(1000)))
	case 13, 14:
		q.kind, q.user, q.code = "job", m.admin, uint8(1+c.rnd.Intn(7))
		q.ts = m.now/dexDay - 1
		if c.p(4) {
			q.ts -= int64(c.rnd.Intn(3)) - 1
		}
		if c.p(8) {
			q.user = u
		}
	case 15:
		q.kind, q.code, q.amt = "stakeMining", uint8(1+c.rnd.Intn(2)), vite(int64(134+c.rnd.Intn(500)))
		if v >= 6 && len(m.stakes) > 0 && c.p(2) {
			s := m.stakes[c.rnd.Intn(len(m.stakes))]
			q.kind, q.id = "unstake", s.id.Bytes()
			if !c.p(8) {
				q.user = s.owner
			} else if c.p(2) {
				q.user = s.forA
			}
		}
	case 16:
		q.kind, q.code = "stakeVip", uint8(1+c.rnd.Intn(2))
		if v >= 4 && c.p(2) {
			q.kind = "stakeSvip"
		}
		if v >= 6 && c.p(4) {
			q.kind = "stakeFor"
		}
	case 17:
		if v >= 6 {
			q.kind, q.code, q.amt = "lockVx", uint8(1+c.rnd.Intn(2)), vite(int64(1+c.rnd.Intn(400)))
			for i, x := range m.users { // mostly somebody who has some locked
				if a := accOr(m.fund, fundKey{x, dex.VxTokenId}); q.code == 2 && a.vl.Sign() > 0 && (c.p(2) || i == len(m.users)-1) {
					q.user = x
					if q.amt = part(a.vl); c.p(3) {
						q.amt = add(a.vl, vite(int64(1+c.rnd.Intn(100))))
					}
				}
			}
		}
	case 18:
		if v >= 6 {
			q.kind = "switch"
		}
		if v >= 9 && c.p(2) {
			q.kind, q.user, q.code = "stable", m.admin, uint8(1)
			if v >= 11 && c.p(2) {
				q.code, q.amt = 2, vite(int64(c.rnd.Intn(100000)))
			}
		}
	case 19:
		if v < 11 && len(m.ref) > 0 {
			q.kind = "expire"
			for i := c.rnd.Intn(4); i >= 0; i-- {
				q.id = append(q.id, m.anyOrder().id...)
			}
		}
	case 20:
		if c.p(2) {
			q.kind = "settleForged"
			x := []byte{}
			q.id = x
		} else if len(m.ref) > 0 {
			q.kind = "placeForged"
			q.id = []byte(m.anyOrder().id)
		}
	}
	if q.kind == "job" && q.ts < 0 {
		q.kind = ""
	}
}

func runDex(c *ctx, prop int) {
	v := uint64(3 + c.rnd.Intn(12))
	if c.p(2) {
		v = uint64(11 + c.rnd.Intn(4))
	}
	w := newWorld(v*eraLen + 100 + uint64(c.rnd.Intn(1000)))
	c.w = w
	m := &dexm{c: c, w: w, prop: prop, reqs: map[types.Hash]*dreq{}, place: map[types.Hash]*dreq{}, fund: map[fundKey]dacc{},
		book: map[string]*dexproto.Order{}, ref: map[string]*dord{}, grants: map[dgrant]bool{}, base: map[*dmkt]string{}}
	m.rich, m.low = c.p(2), c.p(2)
	m.setup()
	if c.bad {
		return
	}
	for _, k := range m.mkts {
		m.base[k] = dexBases[c.rnd.Intn(len(dexBases))]
	}
	if len(m.mkts) == 0 {
		c.r.Count("histories without a market", 1)
		return
	}
	if c.p(12) {
		m.crowd()
	}
	n := 60 + c.rnd.Intn(120)
	for i := 0; i < n && !c.bad; i++ {
		w.h += uint64(c.rnd.Intn(3))
		if far := uint64([]int{259200, 2592000}[c.rnd.Intn(2)]); c.p(40) && w.h+far < 15*eraLen { // stakes run out
			for j := 0; j < 200 && !c.bad && m.deliver(); j++ {
			}
			w.h += far
			c.note("%d snapshots later", far)
		}
		if c.p(60) && m.v() < 14 {
			for j := 0; j < 200 && !c.bad && m.deliver(); j++ {
			}
			w.h += eraLen
			c.note("upgrade to version %d", m.v())
		}
		m.step()
	}
	for j := 0; j < 300 && !c.bad && m.deliver(); j++ {
	}
	if !c.bad && m.v() < 8 && len(m.ref) > 0 {
		m.sweep()
	}
	if !c.bad {
		c.r.Max("trades in a history", int64(m.trades))
		c.r.Eval(fmt.Sprintf("v%d:%d:%d", m.v(), m.trades/8, len(m.ref)/4), m.trades > 0)
	}
}

// sweep lets orders expire and has some of them cleared, in a third of the cases naming one of them twice.
func (m *dexm) sweep() {
	c := m.c
	do := func(q *dreq) {
		m.exec(q)
		for j := 0; j < 300 && !c.bad && m.deliver(); j++ {
		}
	}
	m.now += 31 * dexDay
	do(&dreq{kind: "time", user: m.admin})
	for n := 0; n < 3 && !c.bad; n++ { // the matcher learns the time with an order
		do(m.order(m.mkts[0], m.users[n]))
	}
	for n := 0; n < 3 && !c.bad && len(m.ref) > 0; n++ {
		q := &dreq{kind: "expire", user: m.users[c.rnd.Intn(len(m.users))]}
		k := m.anyOrder().m
		var l []string
		for _, side := range []bool{true, false} {
			for _, o := range m.sideOf(k, side) {
				l = append(l, o.id)
			}
		}
		for i, id := range l {
			if i < 20 && c.p(2) {
				q.id = append(q.id, id...)
			}
		}
		if n > 0 {
			q.id = append(q.id, q.id...)
		}
		if len(q.id) > 0 {
			do(q)
		}
	}
}

// crowd fills one side with more orders than one taker may meet.
func (m *dexm) crowd() {
	c := m.c
	k := m.mkts[0]
	n := 130
	if c.p(3) { // more than a byte counts, at one time and price
		n = 290
	}
	for i := 0; i < n && !c.bad; i++ {
		q := m.order(k, m.users[c.rnd.Intn(len(m.users))])
		q.side, q.typ = true, 0
		q.pstr = m.base[k]
		q.price, _ = new(big.Rat).SetString(q.pstr)
		m.exec(q)
	}
	if !c.bad {
		u := m.users[c.rnd.Intn(len(m.users))]
		n := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(k.q.dec)+9), nil)
		m.w.give(u, k.q.id, n)
		m.exec(&dreq{kind: "deposit", user: u, tok: k.q.id, amt: n})
		sum := new(big.Int)
		for _, o := range m.sideOf(k, true) {
			sum = add(sum, o.remQ())
		}
		q := &dreq{kind: "order", user: u, m: k, qty: sum, pstr: m.base[k]}
		q.price, _ = new(big.Rat).SetString(q.pstr)
		m.exec(q)
	}
}

var _ = ledger.ViteTokenId
