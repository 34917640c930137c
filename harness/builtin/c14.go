package main

import (
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/consensus/core"
	"github.com/vitelabs/go-vite/v2/vm/contracts"
	"github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"github.com/vitelabs/go-vite/v2/vm/util"
)

func init() { props["C14"] = prop{4000, 40000, 8, runC14} }

const day = 86400

// dayBook gives the consensus statistics of every day, made up from the day number.
type dayBook struct {
	names []string
	salt  int64
	memo  map[uint64]*core.DayStats
}

func (d *dayBook) GetDayTimeIndex() core.TimeIndex {
	return core.NewTimeIndex(time.Unix(genesisTime, 0), day*time.Second)
}

func (d *dayBook) at(i uint64) *core.DayStats {
	if s := d.memo[i]; s != nil {
		return s
	}
	h := func(tag string, n uint64) uint64 {
		x := types.DataHash([]byte(fmt.Sprintf("%d %d %s", d.salt, i, tag)))
		return new(big.Int).Mod(new(big.Int).SetBytes(x[:16]), new(big.Int).SetUint64(n)).Uint64()
	}
	s := &core.DayStats{Index: i, Stats: map[string]*core.SbpStats{}, VoteSum: &core.BigInt{Int: new(big.Int)}}
	for _, n := range d.names {
		if h("in"+n, 4) == 0 {
			continue
		}
		x := &core.SbpStats{Index: i, Name: n, ExceptedBlockNum: h("exp"+n, 3456)}
		if h("full"+n, 3) == 0 {
			x.BlockNum = x.ExceptedBlockNum
		} else if x.ExceptedBlockNum > 0 {
			x.BlockNum = h("num"+n, x.ExceptedBlockNum+1)
		}
		v := new(big.Int).Mul(new(big.Int).SetUint64(h("vote"+n, 1<<40)), big.NewInt(1e15))
		if h("novote"+n, 4) == 0 {
			v = new(big.Int)
		}
		x.VoteCnt = &core.BigInt{Int: v}
		s.VoteSum.Add(s.VoteSum.Int, v)
		s.BlockTotal += x.BlockNum
		s.Stats[n] = x
	}
	d.memo[i] = s
	return s
}

func (d *dayBook) DayStats(a, b uint64) ([]*core.DayStats, error) {
	var o []*core.DayStats
	for i := a; i <= b; i++ {
		o = append(o, d.at(i))
	}
	return o, nil
}

// sbp is what the model knows of one name.
type sbp struct {
	name                string
	producing, withdraw types.Address
	owner               types.Address
	amount              *big.Int
	expire              uint64
	rewardTime, revoke  int64
	his                 []types.Address
}

type govOp struct {
	method, act string
	gid         types.Gid
	name        string
	addr, addr2 types.Address
	send        *ledger.AccountBlock
}

type govModel struct {
	sbps   map[string]*sbp
	bound  map[types.Address]string
	votes  map[types.Address]string
	byAddr map[types.Address][]string // names by withdraw address, where that is not the owner
	book   *dayBook
	height uint64 // lock-up of the group
	paid   map[string]map[uint64]int
	back   map[string]bool // a withdrawal confirmed earlier came after one confirmed later
	last   map[string]int64
	c      *ctx
}

var halfM, oneM = vite(500000), vite(1000000)
var perBlock = big.NewInt(951293759512937595)

func legalSbp(s string) bool {
	if len(s) == 0 || len(s) > 40 || s[0] == ' ' || s[len(s)-1] == ' ' {
		return false
	}
	for i := 0; i < len(s); i++ {
		b := s[i]
		if !(b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9' || b == '_' || b == '.' || b == ' ') {
			return false
		}
		if b == ' ' && s[i-1] == ' ' {
			return false
		}
	}
	return true
}

// dayReward: half of the block reward by blocks produced, half shared by votes and scaled by the rate of production.
func (m *govModel) dayReward(name string, i uint64, version int) *big.Int {
	d := m.book.at(i)
	s := d.Stats[name]
	if s == nil || s.ExceptedBlockNum == 0 {
		return new(big.Int)
	}
	stake := halfM
	leaf := uint64((5*eraLen - 1) / day) // the day of the upgrade itself still counts the old stake
	if version >= 5 && i > leaf {
		stake = oneM
	}
	x := add(s.VoteCnt.Int, stake)
	for _, y := range []*big.Int{new(big.Int).SetUint64(d.BlockTotal), big.NewInt(50), perBlock, new(big.Int).SetUint64(s.BlockNum)} {
		x.Mul(x, y)
	}
	x.Quo(x, add(d.VoteSum.Int, new(big.Int).Mul(stake, big.NewInt(int64(len(d.Stats))))))
	x.Quo(x, new(big.Int).SetUint64(s.ExceptedBlockNum))
	x.Quo(x, big.NewInt(100))
	y := new(big.Int).Mul(new(big.Int).SetUint64(s.BlockNum), perBlock)
	y.Mul(y, big.NewInt(50)).Quo(y, big.NewInt(100))
	return x.Add(x, y)
}

// due gives the days a withdrawal as of time t pays, the new reward time and whether nothing is left to come.
func (m *govModel) due(s *sbp, t int64) (from, to uint64, some bool, end int64, drained bool) {
	if s.rewardTime < 0 {
		return 0, 0, false, 0, true
	}
	dayOf := func(x int64) uint64 { return uint64(x-genesisTime) / day }
	if s.rewardTime > genesisTime {
		from = dayOf(s.rewardTime-1) + 1
	}
	limit := t - 3600
	ends := func(x int64) (uint64, int64, bool) { // last full day before x
		if x < genesisTime || dayOf(x) == 0 {
			return 0, genesisTime, false
		}
		d := dayOf(x)
		return d - 1, genesisTime + int64(d)*day, true
	}
	to, end, some = ends(limit)
	if s.revoke != 0 {
		if a, b, c := ends(s.revoke); b <= limit {
			to, end, some, drained = a, b, c, true
		}
	}
	some = some && from <= to
	return
}

func (m *govModel) total(s *sbp, t int64, version int) (*big.Int, int64, bool) {
	from, to, some, end, drained := m.due(s, t)
	x := new(big.Int)
	if some {
		for i := from; i <= to; i++ {
			x.Add(x, m.dayReward(s.name, i, version))
		}
	}
	return x, end, drained
}

func (m *govModel) drained(s *sbp, t int64, version int) bool {
	x, _, d := m.total(s, t, version)
	return d && x.Sign() == 0
}

// bind ties a producing address to a name, for good.
func (m *govModel) bind(s *sbp, a types.Address) bool {
	if n, ok := m.bound[a]; ok {
		return n == s.name
	}
	m.bound[a] = s.name
	s.his = append(append([]types.Address{}, s.his...), a)
	return true
}

func (m *govModel) setWithdraw(s *sbp, old *types.Address, a types.Address) {
	if old != nil && *old != s.owner && *old != a {
		var l []string
		for _, n := range m.byAddr[*old] {
			if n != s.name {
				l = append(l, n)
			}
		}
		m.byAddr[*old] = l
	}
	if a != s.owner && (old == nil || *old != a) {
		m.byAddr[a] = append(m.byAddr[a], s.name)
	}
	s.withdraw = a
}

func (m *govModel) receive(o *govOp, version int, status *ledger.SnapshotBlock) expect {
	from, t := o.send.AccountAddress, status.Timestamp.Unix()
	e := expect{refund: []byte{}}
	if o.gid != types.SNAPSHOT_GID {
		e.ok = o.act == "unvote"
		return e
	}
	s := m.sbps[o.name]
	active := s != nil && s.revoke == 0
	switch o.act {
	case "register":
		price := halfM
		if version >= 5 {
			price = oneM
		}
		if o.send.Amount.Cmp(price) != 0 || o.send.TokenId != ledger.ViteTokenId {
			return e
		}
		if s != nil && (active || s.owner != from || !m.drained(s, t, version)) {
			return e
		}
		if n, ok := m.bound[o.addr]; ok && n != o.name {
			return e
		}
		var old *types.Address
		if s == nil {
			s = &sbp{name: o.name}
			m.sbps[o.name] = s
		} else {
			x := s.withdraw
			old = &x
		}
		m.bind(s, o.addr)
		s.producing, s.owner, s.amount = o.addr, from, new(big.Int).Set(price)
		s.expire, s.rewardTime, s.revoke = status.Height+m.height, t, 0
		if version >= 6 {
			m.setWithdraw(s, old, o.addr2)
		} else {
			s.withdraw = from
		}
		e.ok = true
	case "revoke":
		if !active || s.owner != from || status.Height < s.expire {
			return e
		}
		e.ok = true
		if m.drained(s, t, version) {
			s.rewardTime = -1
		}
		e.sends = []want{{from, ledger.BlockTypeSendCall, ledger.ViteTokenId, s.amount, []byte{}}}
		s.amount, s.expire, s.revoke = new(big.Int), 0, t
	case "withdraw":
		if s == nil || s.rewardTime == -1 || (from != s.owner && from != s.withdraw) {
			return e
		}
		e.ok = true
		x, end, drained := m.total(s, t, version)
		a, b, some, _, _ := m.due(s, t)
		if drained {
			end = -1
		}
		if end == s.rewardTime {
			return e
		}
		if t < m.last[s.name] && end < s.rewardTime {
			m.back[s.name] = true
		}
		if t > m.last[s.name] {
			m.last[s.name] = t
		}
		s.rewardTime = end
		if some {
			if m.paid[s.name] == nil {
				m.paid[s.name] = map[uint64]int{}
			}
			for i := a; i <= b; i++ {
				m.paid[s.name][i]++
				if m.paid[s.name][i] > 1 && m.dayReward(s.name, i, version).Sign() > 0 {
					k := "reward-day-paid-twice"
					if m.back[s.name] {
						k = "reward-day-paid-again-after-withdrawals-received-out-of-order"
					}
					m.c.known(k, "the reward of %s for day %d is paid %d times", s.name, i, m.paid[s.name][i])
				}
			}
		}
		if x.Sign() > 0 {
			n := "Issue"
			if version >= 5 {
				n = "ReIssue"
			}
			e.sends = []want{{types.AddressAsset, ledger.BlockTypeSendCall, ledger.ViteTokenId, new(big.Int), pack(abi.ABIAsset.PackMethod(n, ledger.ViteTokenId, x, o.addr))}}
			m.c.r.Count("rewards paid", 1)
		}
	case "producer":
		if !active || s.owner != from || s.producing == o.addr {
			return e
		}
		if !m.bind(s, o.addr) {
			return e
		}
		s.producing = o.addr
		e.ok = true
	case "withdrawaddr":
		if !active || s.owner != from || s.withdraw == o.addr {
			return e
		}
		x := s.withdraw
		m.setWithdraw(s, &x, o.addr)
		e.ok = true
	case "vote":
		if !active {
			return e
		}
		m.votes[from] = o.name
		e.ok = true
	case "unvote":
		delete(m.votes, from)
		e.ok = true
	}
	return e
}

func runC14(c *ctx) {
	h := uint64(c.rnd.Intn(15))*eraLen + 2 + uint64(c.rnd.Intn(5000))
	switch c.rnd.Intn(4) {
	case 0: // near the change of the price
		h = 5*eraLen - uint64(c.rnd.Intn(8*day))
	case 1:
		h = 6*eraLen - uint64(c.rnd.Intn(8*day))
	}
	w := newWorld(h)
	c.w = w
	crowd := c.p(3) // many names, most of them withdrawn to one address
	names := []string{"s1", "s", "s1.s", "Super Node", "s1 s", "_", "S1"}[:3+c.rnd.Intn(5)]
	if crowd && c.p(2) {
		names = []string{"s1", "1", "s", "s1.s", "s1 s", ".s"}
	}
	m := &govModel{sbps: map[string]*sbp{}, bound: map[types.Address]string{}, votes: map[types.Address]string{}, byAddr: map[types.Address][]string{},
		book:   &dayBook{names: append([]string{"genesis sbp"}, names...), salt: c.rnd.Int63(), memo: map[uint64]*core.DayStats{}},
		height: uint64(1 + c.rnd.Intn(2*day)), paid: map[string]map[uint64]int{}, back: map[string]bool{}, last: map[string]int64{}, c: c}
	w.reader = util.NewVMConsensusReader(m.book)
	gov := types.AddressGovernance
	cond := pack(abi.ABIGovernance.PackVariable("registerStakeParam", halfM, ledger.ViteTokenId, m.height))
	w.put(gov, abi.GetConsensusGroupInfoKey(types.SNAPSHOT_GID), pack(abi.ABIGovernance.PackVariable("consensusGroupInfo",
		uint8(25), int64(1), int64(3), uint8(2), uint8(100), uint16(1), uint8(0), ledger.ViteTokenId, uint8(1), cond, uint8(1), []byte{}, user(0), new(big.Int), uint64(1))))
	nu := 2 + c.rnd.Intn(4)
	var who []types.Address
	for i := 0; i < nu; i++ {
		who = append(who, user(i))
	}
	who = append(who, contractAddr(1))
	other := types.TokenTypeId{1, 2, 3}
	for _, a := range who {
		w.give(a, ledger.ViteTokenId, vite(int64(c.rnd.Intn(4000000))))
		w.give(a, other, vite(3000000))
		if crowd {
			w.give(a, ledger.ViteTokenId, vite(9000000))
		}
	}
	addrs := append([]types.Address{}, who...)
	for i := 0; i < 5; i++ {
		addrs = append(addrs, user(100+i))
	}
	pick := func() types.Address { return who[c.rnd.Intn(len(who))] }
	any := func() types.Address { return addrs[c.rnd.Intn(len(addrs))] }
	lag := c.p(4)
	var ops []*govOp
	if c.i == 0 { // two withdrawals received in the opposite order of their confirmation
		do := func(o *govOp, from types.Address, amt *big.Int, data []byte) *govOp {
			r, p := w.send(from, gov, ledger.ViteTokenId, amt, data)
			if p != nil || r.err != nil {
				c.fail("script", "a %s cannot be sent: %v %v", o.act, p, r.err)
				return nil
			}
			o.gid, o.name, o.addr, o.addr2, o.send = types.SNAPSHOT_GID, "s1", user(0), user(0), r.block
			return o
		}
		take := func(o *govOp) {
			if o == nil {
				return
			}
			e := m.receive(o, w.version(), snap(w.confirm[o.send.Hash]))
			before := c.balances(gov)
			r, p := w.receive(o.send)
			c.judge(o.method, o.send, e, r, p, before)
		}
		w.h = 2*eraLen + 5
		w.give(user(0), ledger.ViteTokenId, halfM)
		reward := func() *govOp {
			return do(&govOp{act: "withdraw", method: "Reward"}, user(0), new(big.Int), pack(abi.ABIGovernance.PackMethod("Reward", types.SNAPSHOT_GID, "s1", user(0))))
		}
		take(do(&govOp{act: "register", method: "Register"}, user(0), halfM, pack(abi.ABIGovernance.PackMethod("Register", types.SNAPSHOT_GID, "s1", user(0)))))
		w.h += 3 * day
		a := reward()
		w.h += 6 * day
		b := reward()
		take(b)
		take(a)
		w.h += day
		take(reward())
		c.govState(m, addrs, names)
		return
	}
	near := "" // whose lock-up is about to end
	steps := 40 + c.rnd.Intn(100)
	for s := 0; s < steps && !c.bad; s++ {
		k := c.rnd.Intn(10)
		switch {
		case k < 4:
			v := w.version()
			o := &govOp{gid: types.SNAPSHOT_GID, act: []string{"register", "register", "revoke", "revoke", "withdraw", "withdraw", "producer", "withdrawaddr", "vote", "unvote"}[c.rnd.Intn(10)]}
			o.name = names[c.rnd.Intn(len(names))]
			if near != "" && !c.p(3) {
				o.name, o.act = near, "revoke"
			}
			near = ""
			if c.p(25) {
				o.name = []string{"", " s", "s ", "s1,s", "s  1", "s-1", "0123456789012345678901234567890123456789a", "é", "s\n", "s,s1"}[c.rnd.Intn(10)]
			}
			o.addr, o.addr2 = any(), any()
			if crowd && !c.p(3) {
				o.addr2 = addrs[len(addrs)-1]
				if !c.p(3) {
					o.act = []string{"register", "withdrawaddr"}[c.rnd.Intn(2)]
					if m.sbps[o.name] == nil {
						o.act, o.addr = "register", user(200+len(m.sbps))
					}
				}
			}
			from := pick()
			if x := m.sbps[o.name]; x != nil && !c.p(4) {
				from = x.owner
				if o.act == "withdraw" && c.p(2) && m.w(x.withdraw, who) {
					from = x.withdraw
				}
			}
			third, second := v >= 6 && c.p(2), v >= 5 && c.p(2)
			if !third && c.p(15) {
				copy(o.gid[:], c.bytes(10))
				if c.p(2) {
					o.gid = types.DELEGATE_GID
				}
			}
			ver := func(a, b, d string) string {
				if third {
					return d
				}
				if second && b != "" {
					return b
				}
				return a
			}
			amt, tok := new(big.Int), ledger.ViteTokenId
			ok := legalSbp(o.name) && o.gid != types.DELEGATE_GID
			g := types.SNAPSHOT_GID
			var args []interface{}
			switch o.act {
			case "register":
				o.method = ver("Register", "", "RegisterSBP")
				amt = halfM
				if v >= 5 {
					amt = oneM
				}
				switch {
				case c.p(12):
					amt = sub(add(halfM, oneM), amt)
				case c.p(20):
					amt = add(amt, big.NewInt(int64(c.rnd.Intn(3)-1)))
				case c.p(20):
					tok = other
				}
				args = []interface{}{o.gid, o.name, o.addr}
				if third {
					args = []interface{}{o.name, o.addr, o.addr2}
				} else {
					o.addr2 = from
				}
			case "revoke":
				o.method = ver("CancelRegister", "Revoke", "RevokeSBP")
				args = []interface{}{o.gid, o.name}
			case "withdraw":
				o.method = ver("Reward", "WithdrawReward", "WithdrawSBPReward")
				args = []interface{}{o.gid, o.name, o.addr}
				ok = o.gid == types.SNAPSHOT_GID
			case "producer":
				o.method = ver("UpdateRegistration", "UpdateBlockProducingAddress", "UpdateSBPBlockProducingAddress")
				args = []interface{}{o.gid, o.name, o.addr}
			case "withdrawaddr":
				if v < 6 {
					continue
				}
				o.method, third, o.gid = "UpdateSBPRewardWithdrawAddress", true, g
				ok = legalSbp(o.name)
				if x := m.sbps[o.name]; x != nil && c.p(4) {
					o.addr = x.owner
				} else if crowd && c.p(2) {
					o.addr = addrs[len(addrs)-1]
				}
				args = []interface{}{o.name, o.addr}
			case "vote":
				from = pick()
				o.method = ver("Vote", "", "VoteForSBP")
				args = []interface{}{o.gid, o.name}
				if v < 4 && types.IsContractAddr(from) {
					ok = false
				}
			case "unvote":
				from = pick()
				o.method = ver("CancelVote", "", "CancelSBPVoting")
				args = []interface{}{o.gid}
				if third {
					args = nil
				}
				ok = o.gid != types.DELEGATE_GID && !(v < 4 && types.IsContractAddr(from))
			}
			if third && o.act != "withdrawaddr" && o.act != "register" && len(args) > 0 {
				args = args[1:]
			}
			if o.act != "register" && c.p(20) {
				amt, ok = big.NewInt(1), false
			}
			if w.balance(from, tok).Cmp(amt) < 0 {
				ok = false
			}
			data := pack(abi.ABIGovernance.PackMethod(o.method, args...))
			before := c.balances(from)
			r, p := w.send(from, gov, tok, amt, data)
			c.note("%d: %s %q by %s amt %s ok=%v", w.h, o.method, o.name, from, amt, ok)
			if !c.sent(o.method, from, ok, r, p, before, amt, new(big.Int), tok) {
				return
			}
			if ok {
				o.send = r.block
				ops = append(ops, o)
			}
			c.r.Eval(fmt.Sprintf("send/%s/%v/%d", o.method, ok, v), ok)
		case k < 8:
			if len(ops) == 0 {
				continue
			}
			i := 0
			if lag && c.p(3) {
				i = c.rnd.Intn(len(ops))
			}
			o := ops[i]
			ops = append(ops[:i:i], ops[i+1:]...)
			st := "none"
			if x := m.sbps[o.name]; x != nil {
				st = fmt.Sprintf("%v%v%v%v", x.revoke == 0, x.rewardTime == -1, x.owner == o.send.AccountAddress, x.withdraw == o.send.AccountAddress)
			}
			e := m.receive(o, w.version(), snap(w.confirm[o.send.Hash]))
			before := c.balances(gov)
			r, p := w.receive(o.send)
			c.note("%d: receive %s %q of %s at %d ok=%v", w.h, o.method, o.name, o.send.AccountAddress, w.confirm[o.send.Hash], e.ok)
			if !c.judge(o.method, o.send, e, r, p, before) {
				return
			}
			c.r.Count("calls received", 1)
			if e.ok {
				c.r.Count("calls received ok", 1)
			}
			c.r.Eval(fmt.Sprintf("%s/%v/%s/%d", o.method, e.ok, st, w.version()), true)
			if c.p(2) {
				c.deliver()
			}
			c.govState(m, addrs, names)
		default:
			var d uint64
			switch c.rnd.Intn(4) {
			case 0:
				d = uint64(c.rnd.Intn(100))
			case 1:
				d = uint64(c.rnd.Intn(7200))
			case 2:
				d = uint64(c.rnd.Intn(2 * day))
			default: // around an hour after the end of a day
				x := (w.h/day + 1) * day
				d = x - w.h + []uint64{0, 1, 2, 3599, 3600, 3601, 3602}[c.rnd.Intn(7)]
			}
			if c.p(2) { // around the end of a lock-up
				for _, n := range names {
					if x := m.sbps[n]; x != nil && x.revoke == 0 && x.expire > w.h+1 && x.expire-w.h < 3*day {
						d = x.expire - w.h - 2 + uint64(c.rnd.Intn(4))
						near = n
						break
					}
				}
			}
			next := w.h + d
			if next/eraLen != w.h/eraLen && len(ops) > 0 || w.version() >= 14 && next > 15*eraLen-10 {
				continue
			}
			w.h = next
			if c.p(12) && len(ops) == 0 && w.version() < 14 {
				w.h = uint64(w.version()+1) * eraLen
			}
		}
	}
	c.r.Max("registrations in one history", int64(len(m.sbps)))
	if c.i < 3 {
		c.r.Sample(map[string]interface{}{"case": c.name, "operations": c.log})
	}
}

func (m *govModel) w(a types.Address, who []types.Address) bool {
	for _, x := range who {
		if x == a {
			return true
		}
	}
	return false
}

func (s *sbp) same(g *types.Registration) bool {
	if g == nil || g.Name != s.name || g.BlockProducingAddress != s.producing || g.RewardWithdrawAddress != s.withdraw || g.StakeAddress != s.owner || g.Amount.Cmp(s.amount) != 0 ||
		g.ExpirationHeight != s.expire || g.RewardTime != s.rewardTime || g.RevokeTime != s.revoke || len(g.HisAddrList) != len(s.his) {
		return false
	}
	for i, a := range s.his {
		if g.HisAddrList[i] != a {
			return false
		}
	}
	return true
}

func (c *ctx) govState(m *govModel, addrs []types.Address, names []string) {
	w := c.w
	gov := types.AddressGovernance
	db := w.db(gov)
	g := types.SNAPSHOT_GID
	held := new(big.Int)
	active, all := 0, len(m.sbps)
	owns := map[types.Address]map[string]bool{}
	for _, s := range m.sbps {
		held.Add(held, s.amount)
		if s.revoke == 0 {
			active++
		}
		if owns[s.owner] == nil {
			owns[s.owner] = map[string]bool{}
		}
		owns[s.owner][s.name] = true
		r, err := abi.GetRegistration(db, g, s.name)
		if err != nil || !s.same(r) {
			c.fail("registration", "%s is recorded as %+v (%v), should be %+v", s.name, r, err, *s)
			return
		}
		act, err := abi.IsActiveRegistration(db, s.name, g)
		if err != nil || act != (s.revoke == 0) {
			c.fail("active", "%s is active=%v", s.name, act)
		}
		sb := snap(w.h)
		x, _, dr := m.total(s, sb.Timestamp.Unix(), w.version())
		_, _, rw, dr2, err := contracts.CalcReward(w.reader, c.latest(), r, sb)
		if err != nil || dr != dr2 || (rw == nil) != (s.rewardTime == -1) || rw != nil && (rw.TotalReward.Cmp(x) != 0 || add(rw.VoteReward, rw.BlockReward).Cmp(x) != 0) {
			c.fail("reward-query", "the reward due to %s is reported as %+v (%v), should be %s", s.name, rw, err, x)
			return
		}
	}
	if b := w.balance(gov, ledger.ViteTokenId); b.Cmp(held) != 0 {
		c.fail("stake-held", "the contract holds %s, active registrations stake %s", b, held)
	}
	for i, f := range []func() ([]*types.Registration, error){
		func() ([]*types.Registration, error) { return abi.GetAllRegistrationList(db, g) },
		func() ([]*types.Registration, error) { return abi.GetCandidateList(db, g) },
	} {
		l, err := f()
		n := all
		if i == 1 {
			n = active
		}
		seen := map[string]bool{}
		for _, r := range l {
			s := m.sbps[r.Name]
			if s == nil || !s.same(r) || seen[r.Name] || i == 1 && s.revoke != 0 {
				c.fail("list", "list %d has %+v", i, r)
				return
			}
			seen[r.Name] = true
		}
		if err != nil || len(l) != n {
			c.fail("list", "list %d has %d entries of %d (%v)", i, len(l), n, err)
			return
		}
	}
	for _, a := range addrs {
		l, err := abi.GetRegistrationList(db, g, a)
		if err != nil || len(l) != len(owns[a]) {
			c.fail("owner-list", "%s has %d registrations, listed are %d", a, len(owns[a]), len(l))
		}
		for _, r := range l {
			if !owns[a][r.Name] {
				c.fail("owner-list", "%s is listed for %s", r.Name, a)
			}
		}
		l, err = abi.GetRegistrationListByRewardWithdrawAddr(db, g, a)
		var x []string
		for _, r := range l {
			x = append(x, r.Name)
		}
		y := append([]string{}, m.byAddr[a]...)
		sort.Strings(x)
		sort.Strings(y)
		if err != nil || len(x) != len(y) || len(x) > 0 && !reflect.DeepEqual(x, y) {
			c.fail("withdraw-list", "%s may withdraw for %v, listed are %v (%v)", a, y, x, err)
		}
		v, err := abi.GetVote(db, g, a)
		n, has := m.votes[a]
		if err != nil || (v != nil) != has || has && v.SbpName != n {
			c.fail("vote", "%s votes for %q, recorded is %+v (%v)", a, n, v, err)
		}
	}
	l, err := abi.GetVoteList(db, g)
	if err != nil || len(l) != len(m.votes) {
		c.fail("vote-list", "%d votes, listed are %d (%v)", len(m.votes), len(l), err)
	}
	for _, v := range l {
		if m.votes[v.VoteAddr] != v.SbpName {
			c.fail("vote-list", "%s is listed as voting for %q, not %q", v.VoteAddr, v.SbpName, m.votes[v.VoteAddr])
		}
	}
	// the reward of everybody for one day
	if c.p(8) {
		now := genesisTime + int64(w.h) - 1
		i := uint64(w.h) / day
		if n := uint64(c.rnd.Intn(5)); n <= i {
			i -= n
		}
		got, err := contracts.CalcRewardByIndex(c.latest(), w.reader, i)
		notDue := genesisTime+int64(i+1)*day > now-3600
		if notDue != (err != nil) {
			c.fail("day-reward", "the reward of day %d at %d: %v", i, now, err)
			return
		}
		by, idx, err2 := contracts.CalcRewardByCycle(c.latest(), w.reader, genesisTime+int64(i)*day+int64(c.rnd.Intn(day)))
		if notDue != (err2 != nil) || err2 == nil && idx != i {
			c.fail("day-reward", "the reward of day %d at %d by time: day %d %v", i, now, idx, err2)
			return
		}
		if err == nil {
			st := m.book.at(i).Stats
			if len(got) != len(st) || len(by) != len(st) {
				c.fail("day-reward", "rewards for %d names of %d", len(got), len(st))
			}
			for n := range st {
				x := m.dayReward(n, i, w.version())
				if got[n] == nil || by[n] == nil || got[n].TotalReward.Cmp(x) != 0 || by[n].TotalReward.Cmp(x) != 0 {
					c.fail("day-reward", "the reward of %s for day %d is %+v, should be %s", n, i, got[n], x)
					return
				}
			}
			c.r.Count("day rewards compared", 1)
		}
	}
}
