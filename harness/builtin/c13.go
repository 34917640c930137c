package main

import (
	"encoding/binary"
	"fmt"
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm/contracts/abi"
)

func init() { props["C13"] = prop{5000, 60000, 8, runC13} }

type token struct {
	id        types.TokenTypeId
	name, sym string
	supply    *big.Int
	max       *big.Int
	dec       uint8
	owner     types.Address
	re, only  bool
	idx       uint16
	// independent account of the supply
	issued, reissued, burned *big.Int
}

type tokenOp struct {
	method string
	issue  abi.ParamIssue
	tok    types.TokenTypeId
	amt    *big.Int
	addr   types.Address
	bid    uint8
	send   *ledger.AccountBlock
}

type tokenModel struct {
	toks  []*token
	next  map[string]uint16
	lists map[types.Address][]types.TokenTypeId
	fees  *big.Int
}

func (m *tokenModel) get(id types.TokenTypeId) *token {
	for _, t := range m.toks {
		if t.id == id {
			return t
		}
	}
	return nil
}

var tt256m1 = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))

// legalName: letters and underscores in words parted by single blanks, not ending in a blank.
func legalName(s string) bool {
	if len(s) == 0 || len(s) > 40 || s[0] == ' ' || s[len(s)-1] == ' ' {
		return false
	}
	for i := 0; i < len(s); i++ {
		b := s[i]
		if !(b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b == '_' || b == ' ') {
			return false
		}
		if b == ' ' && s[i-1] == ' ' {
			return false
		}
	}
	return true
}

func legalSymbol(s string) bool {
	if len(s) == 0 || len(s) > 10 || s == "VITE" || s == "VCP" || s == "VX" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if b := s[i]; !(b >= 'A' && b <= 'Z' || b >= '0' && b <= '9') {
			return false
		}
	}
	return true
}

func legalIssue(p abi.ParamIssue, version int) bool {
	if !legalName(p.TokenName) || !legalSymbol(p.TokenSymbol) {
		return false
	}
	if version < 6 {
		if p.TotalSupply.Sign() <= 0 || p.TotalSupply.Cmp(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(p.Decimals)), nil)) < 0 {
			return false
		}
	} else if !p.IsReIssuable && p.TotalSupply.Sign() <= 0 {
		return false
	}
	if p.IsReIssuable {
		return p.MaxSupply.Cmp(p.TotalSupply) >= 0
	}
	return p.MaxSupply.Sign() == 0 && !p.IsOwnerBurnOnly
}

func runC13(c *ctx) {
	w := newWorld(uint64(c.rnd.Intn(15))*eraLen + 2 + uint64(c.rnd.Intn(5000)))
	c.w = w
	m := &tokenModel{next: map[string]uint16{}, lists: map[types.Address][]types.TokenTypeId{}, fees: new(big.Int)}
	nu := 2 + c.rnd.Intn(4)
	var who []types.Address
	for i := 0; i < nu; i++ {
		who = append(who, user(i))
	}
	who = append(who, contractAddr(1))
	total := new(big.Int)
	for _, a := range who {
		n := vite(int64(c.rnd.Intn(12000)))
		w.give(a, ledger.ViteTokenId, n)
		total.Add(total, n)
	}
	// the main token, owned by the governance contract as in the genesis
	vt := &token{id: ledger.ViteTokenId, name: "Vite Token", sym: "VITE", supply: new(big.Int).Set(total), max: tt256m1, dec: 18, owner: types.AddressGovernance, re: true,
		issued: new(big.Int).Set(total), reissued: new(big.Int), burned: new(big.Int)}
	m.toks = append(m.toks, vt)
	m.lists[types.AddressGovernance] = []types.TokenTypeId{vt.id}
	m.next["VITE"] = 1
	w.put(types.AddressAsset, abi.GetTokenInfoKey(vt.id), pack(abi.ABIAsset.PackVariable("tokenInfo", vt.name, vt.sym, vt.supply, vt.dec, vt.owner, vt.re, vt.max, vt.only, vt.idx)))
	w.put(types.AddressAsset, abi.GetTokenIDListKey(vt.owner), vt.id.Bytes())
	w.put(types.AddressAsset, abi.GetNextTokenIndexKey("VITE"), pack(abi.ABIAsset.PackVariable("tokenIndex", uint16(1))))
	// a symbol that is nearly used up
	m.next["FULL"] = 998
	w.put(types.AddressAsset, abi.GetNextTokenIndexKey("FULL"), pack(abi.ABIAsset.PackVariable("tokenIndex", uint16(998))))
	var ops []*tokenOp
	pick := func() types.Address { return who[c.rnd.Intn(len(who))] }
	tok := func() *token { return m.toks[c.rnd.Intn(len(m.toks))] }
	steps := 30 + c.rnd.Intn(60)
	for s := 0; s < steps && !c.bad; s++ {
		k := c.rnd.Intn(10)
		switch {
		case k < 5:
			v := w.version()
			ms := []string{"Mint", "Issue", "Burn", "TransferOwner", "ChangeTokenType", "Issue", "Burn", "Mint", "Burn2"}
			if v >= 2 {
				ms = append(ms, "GetTokenInfo")
			}
			if v >= 5 {
				ms = append(ms, "IssueToken", "ReIssue", "DisableReIssue", "TransferOwnership")
			}
			if v >= 6 {
				ms = append(ms, "GetTokenInformation")
			}
			o := &tokenOp{method: ms[c.rnd.Intn(len(ms))]}
			from := pick()
			t := tok()
			o.tok = t.id
			if !c.p(5) {
				from = t.owner
			}
			if c.p(20) {
				copy(o.tok[:], c.bytes(10))
			}
			amt, fee := new(big.Int), new(big.Int)
			at := ledger.ViteTokenId
			ok := true
			var data []byte
			switch o.method {
			case "Mint", "IssueToken":
				if from == types.AddressGovernance {
					from = pick()
				}
				fee = vite(1000)
				o.issue = c.issueParam(m)
				q := o.issue
				ok = legalIssue(q, v)
				data = pack(abi.ABIAsset.PackMethod(o.method, q.IsReIssuable, q.TokenName, q.TokenSymbol, q.TotalSupply, q.Decimals, q.MaxSupply, q.IsOwnerBurnOnly))
			case "Issue", "ReIssue":
				o.amt, o.addr = c.supplyAmount(t), pick()
				ok = o.amt.Sign() > 0
				data = pack(abi.ABIAsset.PackMethod(o.method, o.tok, o.amt, o.addr))
			case "Burn":
				if c.p(2) {
					from = pick()
				}
				if from == types.AddressGovernance {
					from = pick()
				}
				at = t.id
				b := w.balance(from, at)
				switch c.rnd.Intn(4) {
				case 0:
					amt = b
				case 1:
					amt = add(b, big.NewInt(1))
				default:
					if b.Sign() > 0 {
						amt = new(big.Int).Rand(c.rnd, add(b, big.NewInt(1)))
					}
				}
				ok = amt.Sign() > 0
				o.tok = at
				data = pack(abi.ABIAsset.PackMethod(o.method))
				if c.p(4) {
					data = append(data, c.bytes(c.rnd.Intn(40))...)
				}
			case "Burn2":
				at, ok = t.id, false
				data = pack(abi.ABIAsset.PackMethod(o.method, big.NewInt(1), []byte{1, 2}))
				if b := w.balance(from, at); b.Sign() > 0 && !c.p(4) {
					amt = new(big.Int).Rand(c.rnd, add(b, big.NewInt(1)))
				}
			case "TransferOwner", "TransferOwnership":
				o.addr = pick()
				if from == types.AddressGovernance && c.p(2) {
					from = pick()
				}
				if from == types.AddressGovernance {
					continue
				}
				ok = o.addr != from
				data = pack(abi.ABIAsset.PackMethod(o.method, o.tok, o.addr))
			case "ChangeTokenType", "DisableReIssue":
				if from == types.AddressGovernance {
					continue
				}
				data = pack(abi.ABIAsset.PackMethod(o.method, o.tok))
			case "GetTokenInfo":
				if from == types.AddressGovernance {
					from = pick()
				}
				o.bid = uint8(c.rnd.Intn(256))
				data = pack(abi.ABIAsset.PackMethod(o.method, o.tok, o.bid))
			case "GetTokenInformation":
				if from == types.AddressGovernance {
					from = pick()
				}
				data = pack(abi.ABIAsset.PackMethod(o.method, o.tok))
			}
			if amt.Sign() == 0 && o.method != "Burn" && o.method != "Burn2" && c.p(15) {
				amt, ok = big.NewInt(1), false
				if o.method == "Mint" || o.method == "IssueToken" {
					fee = new(big.Int)
				}
			}
			need := add(amt, new(big.Int))
			if at == ledger.ViteTokenId {
				need.Add(need, fee)
			} else if w.balance(from, ledger.ViteTokenId).Cmp(fee) < 0 {
				ok = false
			}
			if w.balance(from, at).Cmp(need) < 0 {
				ok = false
			}
			before := c.balances(from)
			r, p := w.send(from, types.AddressAsset, at, amt, data)
			c.note("%s by %s amt %s %s ok=%v", o.method, from, amt, at, ok)
			if !c.sent(o.method, from, ok, r, p, before, amt, fee, at) {
				return
			}
			if ok {
				if r.block.Fee.Cmp(fee) != 0 {
					c.fail("fee", "%s is charged %s", o.method, r.block.Fee)
				}
				o.send = r.block
				ops = append(ops, o)
			}
			c.r.Eval(fmt.Sprintf("send/%s/%v/%d", o.method, ok, v), ok)
		case k < 9:
			if len(ops) == 0 {
				continue
			}
			i := 0
			if c.p(3) {
				i = c.rnd.Intn(len(ops))
			}
			o := ops[i]
			ops = append(ops[:i:i], ops[i+1:]...)
			height := uint64(1)
			if p := w.prev[types.AddressAsset]; p != nil {
				height = p.Height + 1
			}
			kind := "none"
			if t := m.get(o.tok); t != nil {
				kind = fmt.Sprintf("%v%v%v%v", t.re, t.only, t.owner == o.send.AccountAddress, t.supply.Sign())
			}
			e, burned := m.receive(o, height, w.version())
			before := c.balances(types.AddressAsset)
			r, p := w.receive(o.send)
			c.note("receive %s of %s ok=%v", o.method, o.send.AccountAddress, e.ok)
			if !c.judge(o.method, o.send, e, r, p, before) {
				return
			}
			if e.ok {
				m.fees.Add(m.fees, o.send.Fee)
				c.r.Count("calls received ok", 1)
			}
			_ = burned
			c.r.Count("calls received", 1)
			c.r.Eval(fmt.Sprintf("%s/%v/%s/%d", o.method, e.ok, kind, w.version()), true)
			if c.p(2) {
				c.deliver()
			}
			c.tokenState(m, who)
		default:
			if c.p(3) { // move tokens about
				t := tok()
				a, b := pick(), pick()
				if n := w.balance(a, t.id); n.Sign() > 0 && !types.IsContractAddr(a) && a != b {
					n = new(big.Int).Rand(c.rnd, add(n, big.NewInt(1)))
					w.send(a, b, t.id, n, nil)
					c.deliver()
				}
			}
			w.h += uint64(c.rnd.Intn(100))
			if c.p(8) && len(ops) == 0 && w.version() < 14 {
				w.h = uint64(w.version()+1) * eraLen
			}
		}
	}
	c.r.Max("tokens in one history", int64(len(m.toks)))
	if c.i < 3 {
		c.r.Sample(map[string]interface{}{"case": c.name, "operations": c.log})
	}
}

func pack(b []byte, err error) []byte {
	if err != nil {
		panic(err)
	}
	return b
}

func (c *ctx) issueParam(m *tokenModel) abi.ParamIssue {
	names := []string{"Test Token", "a", "_", "A B C", "Toookeeen_Name With Blanks", "x", "Some Token", "Name", "Name"}
	bad := []string{"", " a", "a ", "a  b", "a1", "a-b", "Tokén", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "a\n", "\na", "a\tb"}
	syms := []string{"FULL", "FULL", "A", "ABC", "ABC", "XYZ9", "0", "VITEX", "ABCDEFGHIJ"}
	badS := []string{"", "VITE", "VCP", "VX", "abc", "A B", "ABCDEFGHIJK", "A_", "A\n", "É"}
	p := abi.ParamIssue{TokenName: names[c.rnd.Intn(len(names))], TokenSymbol: syms[c.rnd.Intn(len(syms))]}
	if c.p(20) {
		p.TokenName = bad[c.rnd.Intn(len(bad))]
	}
	if c.p(20) {
		p.TokenSymbol = badS[c.rnd.Intn(len(badS))]
	}
	p.IsReIssuable = !c.p(3)
	p.Decimals = []uint8{0, 1, 6, 18, 30, 77, 255}[c.rnd.Intn(7)]
	unit := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(p.Decimals)), nil)
	if unit.Cmp(tt256m1) > 0 {
		unit = new(big.Int).Set(tt256m1)
	}
	switch c.rnd.Intn(6) {
	case 0:
		p.TotalSupply = new(big.Int)
	case 1:
		p.TotalSupply = sub(unit, big.NewInt(1))
	case 2:
		p.TotalSupply = new(big.Int).Set(tt256m1)
	case 3:
		p.TotalSupply = new(big.Int).Set(unit)
	default:
		p.TotalSupply = new(big.Int).Mul(unit, big.NewInt(int64(1+c.rnd.Intn(50))))
	}
	if p.TotalSupply.Cmp(tt256m1) > 0 {
		p.TotalSupply = new(big.Int).Set(tt256m1)
	}
	p.MaxSupply = new(big.Int)
	if p.IsReIssuable {
		switch c.rnd.Intn(6) {
		case 0:
			p.MaxSupply = new(big.Int).Set(p.TotalSupply)
		case 1:
			if p.TotalSupply.Sign() > 0 {
				p.MaxSupply = sub(p.TotalSupply, big.NewInt(1))
			}
		case 2:
			p.MaxSupply = new(big.Int).Set(tt256m1)
		default:
			p.MaxSupply = new(big.Int).Mul(add(p.TotalSupply, big.NewInt(1)), big.NewInt(int64(1+c.rnd.Intn(4))))
		}
		if p.MaxSupply.Cmp(tt256m1) > 0 {
			p.MaxSupply = new(big.Int).Set(tt256m1)
		}
		p.IsOwnerBurnOnly = c.p(2)
	} else if c.p(10) {
		p.MaxSupply = big.NewInt(1)
	} else if c.p(10) {
		p.IsOwnerBurnOnly = true
	}
	return p
}

func (c *ctx) supplyAmount(t *token) *big.Int {
	room := sub(t.max, t.supply)
	if room.Sign() < 0 {
		room = new(big.Int)
	}
	switch c.rnd.Intn(6) {
	case 0:
		return room
	case 1:
		if room.Cmp(tt256m1) < 0 {
			return add(room, big.NewInt(1))
		}
		return room
	case 2:
		return new(big.Int)
	case 3:
		return new(big.Int).Set(tt256m1)
	case 4:
		return big.NewInt(int64(1 + c.rnd.Intn(1000)))
	}
	return new(big.Int).Rand(c.rnd, add(room, big.NewInt(1)))
}

func (m *tokenModel) receive(o *tokenOp, height uint64, version int) (expect, bool) {
	s := o.send
	from := s.AccountAddress
	e := expect{refund: []byte{}}
	t := m.get(o.tok)
	switch o.method {
	case "Mint", "IssueToken":
		q := o.issue
		if m.next[q.TokenSymbol] == 1000 {
			return e, false
		}
		hb := make([]byte, 8)
		binary.BigEndian.PutUint64(hb, height)
		id := types.CreateTokenTypeId(from.Bytes(), hb, s.Hash.Bytes())
		n := &token{id: id, name: q.TokenName, sym: q.TokenSymbol, supply: new(big.Int).Set(q.TotalSupply), max: new(big.Int).Set(q.MaxSupply), dec: q.Decimals, owner: from, re: q.IsReIssuable, only: q.IsOwnerBurnOnly, idx: m.next[q.TokenSymbol],
			issued: new(big.Int).Set(q.TotalSupply), reissued: new(big.Int), burned: new(big.Int)}
		m.next[q.TokenSymbol]++
		m.toks = append(m.toks, n)
		m.lists[from] = append(m.lists[from], id)
		e.ok = true
		e.sends = []want{{from, ledger.BlockTypeSendReward, id, n.issued, []byte{}}}
	case "Issue", "ReIssue":
		if t == nil || !t.re || t.owner != from || add(t.supply, o.amt).Cmp(t.max) > 0 {
			return e, false
		}
		t.supply = add(t.supply, o.amt)
		t.reissued.Add(t.reissued, o.amt)
		e.ok = true
		e.sends = []want{{o.addr, ledger.BlockTypeSendReward, t.id, new(big.Int).Set(o.amt), []byte{}}}
	case "Burn":
		if t == nil || (version < 6 && !t.re) || (t.only && t.owner != from) {
			return e, false
		}
		t.supply = sub(t.supply, s.Amount)
		t.burned.Add(t.burned, s.Amount)
		e.ok = true
		return e, true
	case "TransferOwner", "TransferOwnership":
		if t == nil || !t.re || t.owner != from {
			return e, false
		}
		var l []types.TokenTypeId
		for _, x := range m.lists[from] {
			if x != t.id {
				l = append(l, x)
			}
		}
		m.lists[from] = l
		m.lists[o.addr] = append(m.lists[o.addr], t.id)
		t.owner = o.addr
		e.ok = true
	case "ChangeTokenType", "DisableReIssue":
		if t == nil || !t.re || t.owner != from {
			return e, false
		}
		t.re, t.only, t.max = false, false, new(big.Int)
		e.ok = true
	case "GetTokenInfo":
		e.ok = true
		d := pack(abi.ABIAsset.PackCallback(o.method, o.tok, o.bid, false, uint8(0), "", uint16(0), types.Address{}))
		if t != nil {
			d = pack(abi.ABIAsset.PackCallback(o.method, o.tok, o.bid, true, t.dec, t.sym, t.idx, t.owner))
		}
		e.sends = []want{{from, ledger.BlockTypeSendCall, ledger.ViteTokenId, new(big.Int), d}}
	case "GetTokenInformation":
		e.ok = true
		d := pack(abi.ABIAsset.PackCallback(o.method, s.Hash, o.tok, false, false, "", "", new(big.Int), uint8(0), new(big.Int), false, uint16(0), types.Address{}))
		if t != nil {
			d = pack(abi.ABIAsset.PackCallback(o.method, s.Hash, o.tok, true, t.re, t.name, t.sym, t.supply, t.dec, t.max, t.only, t.idx, t.owner))
		}
		e.sends = []want{{from, ledger.BlockTypeSendCall, ledger.ViteTokenId, new(big.Int), d}}
	}
	return e, false
}

func (t *token) same(g *types.TokenInfo) bool {
	return g != nil && g.TokenName == t.name && g.TokenSymbol == t.sym && g.TotalSupply.Cmp(t.supply) == 0 && g.MaxSupply.Cmp(t.max) == 0 &&
		g.Decimals == t.dec && g.Owner == t.owner && g.IsReIssuable == t.re && g.OwnerBurnOnly == t.only && g.Index == t.idx
}

func (c *ctx) tokenState(m *tokenModel, who []types.Address) {
	w := c.w
	db := w.db(types.AddressAsset)
	all, err := abi.GetTokenMap(db)
	if err != nil || len(all) != len(m.toks) {
		c.fail("token-map", "the contract lists %d tokens, the model has %d (%v)", len(all), len(m.toks), err)
		return
	}
	seen := map[string]bool{}
	for _, t := range m.toks {
		g, err := abi.GetTokenByID(db, t.id)
		if err != nil || !t.same(g) || !t.same(all[t.id]) {
			c.fail("token-record", "token %s is %+v (%v), should be %+v", t.id, g, err, *t)
			return
		}
		if k := fmt.Sprintf("%s-%d", t.sym, t.idx); seen[k] {
			c.fail("token-index", "two tokens %s", k)
		} else {
			seen[k] = true
		}
		if x := sub(add(t.issued, t.reissued), t.burned); x.Cmp(g.TotalSupply) != 0 {
			c.fail("supply", "token %s records a supply of %s, issued+reissued-burned is %s", t.id, g.TotalSupply, x)
		}
		if g.TotalSupply.Sign() < 0 || g.IsReIssuable && g.TotalSupply.Cmp(g.MaxSupply) > 0 {
			c.fail("supply-bound", "token %s has supply %s of at most %s", t.id, g.TotalSupply, g.MaxSupply)
		}
		// the supply is what all accounts hold plus what is on its way
		sum := new(big.Int)
		for a := range w.bal {
			sum.Add(sum, w.balance(a, t.id))
		}
		for _, s := range w.pend {
			if s.TokenId == t.id {
				sum.Add(sum, s.Amount)
			}
			if t.id == ledger.ViteTokenId && s.Fee != nil {
				sum.Add(sum, s.Fee)
			}
		}
		want := new(big.Int).Set(g.TotalSupply)
		if t.id == ledger.ViteTokenId {
			want.Sub(want, m.fees)
		}
		if sum.Cmp(want) != 0 {
			c.fail("supply-held", "token %s has a supply of %s, accounts and pending sends hold %s", t.id, want, sum)
		}
		if w.balance(types.AddressAsset, t.id).Sign() != 0 {
			c.fail("contract-keeps", "the token contract keeps %s of %s", w.balance(types.AddressAsset, t.id), t.id)
		}
	}
	for _, a := range append([]types.Address{types.AddressGovernance}, who...) {
		g, err := abi.GetTokenMapByOwner(db, a)
		if err != nil || len(g) != len(m.lists[a]) {
			c.fail("owner-list", "%s owns %d tokens, listed are %d (%v)", a, len(m.lists[a]), len(g), err)
			continue
		}
		for _, id := range m.lists[a] {
			t := m.get(id)
			if t.owner != a || !t.same(g[id]) {
				c.fail("owner-list", "%s's list has %+v for %s", a, g[id], id)
			}
		}
	}
}
