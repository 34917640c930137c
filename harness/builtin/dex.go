package main

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/golang/protobuf/proto"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	ccore "github.com/vitelabs/go-vite/v2/ledger/consensus/core"
	"github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"github.com/vitelabs/go-vite/v2/vm/contracts/dex"
	dexproto "github.com/vitelabs/go-vite/v2/vm/contracts/dex/proto"
	"github.com/vitelabs/go-vite/v2/vm_db"
)

func init() {
	props["C15"] = prop{700, 20000, 8, func(c *ctx) { runDex(c, 15) }}
	props["C16"] = prop{700, 20000, 8, func(c *ctx) { runDex(c, 16) }}
}

const dexDay = 86400

// dexDays is the consensus reader of these histories: only the period of a time is asked for.
type dexDays struct{}

func (dexDays) GetIndexByStartTime(t, g int64) (uint64, int64, bool) {
	return uint64(t / dexDay), t, true
}
func (dexDays) GetIndexByEndTime(t, g int64) (uint64, int64, bool) {
	return uint64(t / dexDay), t, true
}
func (dexDays) GetIndexByTime(t, g int64) uint64 { return uint64(t / dexDay) }
func (dexDays) GetEndTimeByIndex(i uint64) int64 { return int64(i+1) * dexDay }
func (dexDays) GetConsensusDetailByDay(a, b uint64) ([]*ccore.DayStats, error) {
	return nil, nil
}

type dtok struct {
	id    types.TokenTypeId
	dec   int32
	qt    int32
	owner types.Address
	known bool // the exchange knows the token from the start
}

type dmkt struct {
	id   int32
	t, q *dtok
}

func (k *dmkt) String() string { return fmt.Sprintf("m%d", k.id) }

// one unit of quantity at price p is p*10^(quote-trade decimals) units of amount
func (k *dmkt) factor() *big.Rat { return pow10(k.q.dec - k.t.dec) }

func pow10(n int32) *big.Rat {
	if n < 0 {
		r := pow10(-n)
		return r.Inv(r)
	}
	return new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil))
}

type dreq struct {
	kind   string
	user   types.Address // whose funds
	agent  *types.Address
	m      *dmkt
	t, q   types.TokenTypeId
	side   bool // true: sell
	typ    uint8
	price  *big.Rat
	pstr   string
	qty    *big.Int
	target types.Address
	tok    types.TokenTypeId
	amt    *big.Int
	code   uint8
	hash   types.Hash // of the user's send
	id     []byte
	seq    int
	ts     int64
}

func (q *dreq) String() string {
	s := q.kind
	switch q.kind {
	case "order", "agentOrder":
		s += fmt.Sprintf(" %s sell=%v type=%d %s x %s", q.m, q.side, q.typ, q.qty, q.pstr)
	case "withdraw", "transfer", "assigned":
		s += fmt.Sprintf(" %s %s", q.tok, q.amt)
	}
	return s
}

type dacc struct{ av, lk, vl, vu, cs *big.Int }

func (a dacc) total() *big.Int {
	return add(add(a.av, a.lk), add(add(a.vl, a.vu), a.cs))
}

type fundKey struct {
	a types.Address
	t types.TokenTypeId
}

func bi(b []byte) *big.Int { return new(big.Int).SetBytes(b) }

type dstake struct {
	id    types.Hash
	owner types.Address
	forA  types.Address // whom the stake makes a VIP
}

type dexm struct {
	c       *ctx
	w       *world
	prop    int
	users   []types.Address
	admin   types.Address // owner, oracle, trigger and mining admin
	outside types.Address
	toks    []*dtok
	mkts    []*dmkt
	now     int64
	seq     int
	reqs    map[types.Hash]*dreq // by hash of a user's send
	place   map[types.Hash]*dreq // by hash of the exchange's send to the matcher
	fund    map[fundKey]dacc
	book    map[string]*dexproto.Order // orders as stored
	ref     map[string]*dord           // the reference book
	surplus map[types.TokenTypeId]*big.Int
	hashes  []types.Hash // sends of orders, to cancel by
	codes   []uint32
	trades  int
	rich    bool
	low     bool // trades of a few units are allowed
	grants  map[dgrant]bool
	given   []dgrant
	stakes  []dstake
	base    map[*dmkt]string
	ambush  func(*ledger.AccountBlock)
}

// fail reports a violation of property prop, or, with 0, of both.
func (m *dexm) fail(prop int, key, format string, a ...interface{}) {
	if prop == 0 || m.prop == prop {
		m.c.fail(key, format, a...)
	} else {
		m.c.bad = true // the other check reports it
		m.c.r.Count("histories stopped by the other property", 1)
	}
}

func (m *dexm) v() int { return m.w.version() }

// name picks the method's name in the current version.
func (m *dexm) name(old, leaf string) string {
	if m.v() >= 5 && (old == "" || m.c.rnd.Intn(8) > 0) {
		return leaf
	}
	return old
}

func (m *dexm) setup() {
	c, w := m.c, m.w
	w.reader = dexDays{}
	for i := 0; i < 6; i++ {
		m.users = append(m.users, user(i))
	}
	m.admin, m.outside = user(100), user(101)
	mk := func(s string) types.TokenTypeId {
		t, _ := types.BytesToTokenTypeId(ledger.ViteTokenId.Bytes())
		b := t.Bytes()
		h := types.DataHash([]byte(s)).Bytes()
		copy(b[:8], h[:8])
		t, _ = types.BytesToTokenTypeId(b)
		return t
	}
	decs := []int32{18, 8, 6, 0, 2, 12, 18}
	pick := func() int32 { return decs[c.rnd.Intn(len(decs))] }
	m.toks = []*dtok{
		{ledger.ViteTokenId, 18, 1, m.users[0], true},
		{mk("eth"), 18, 2, m.users[0], true},
		{mk("usd"), []int32{6, 6, 8, 18, 2}[c.rnd.Intn(5)], 4, m.users[1], true},
		{dex.VxTokenId, 18, 0, m.users[1], true},
		{mk("aaa"), pick(), 0, m.users[1], true},
		{mk("bbb"), pick(), 0, m.users[2], true},
	}
	db, err := m.vmdb(types.AddressDexFund)
	if err != nil {
		panic(err)
	}
	dex.SetOwner(db, m.admin)
	dex.SetTimeOracle(db, m.admin)
	dex.SetPeriodJobTrigger(db, m.admin)
	dex.SaveMakerMiningAdmin(db, m.admin)
	dex.SaveMaintainer(db, m.users[5])
	for i, t := range m.toks {
		inf := &dex.TokenInfo{}
		inf.TokenId, inf.Decimals, inf.Symbol, inf.Index = t.id.Bytes(), t.dec, fmt.Sprintf("T%d", i), int32(i)
		inf.Owner, inf.QuoteTokenType = t.owner.Bytes(), t.qt
		dex.SaveTokenInfo(db, t.id, inf)
	}
	if m.low {
		for i := uint8(1); i <= 4; i++ {
			dex.SaveTradeThreshold(db, i, big.NewInt(1))
		}
	}
	if c.p(3) {
		for i := uint8(1); i <= 4; i++ {
			dex.SaveMarketOrderAmtThreshold(db, i, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(2+c.rnd.Intn(22))), nil))
		}
	}
	for _, kv := range db.GetUnsavedStorage() {
		w.put(types.AddressDexFund, kv[0], kv[1])
	}
	for _, u := range append(append([]types.Address{}, m.users...), m.admin, m.outside) {
		for _, t := range m.toks {
			n := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(t.dec)+9), nil)
			w.give(u, t.id, n)
		}
	}
	m.now = genesisTime + int64(c.rnd.Intn(dexDay*3))
	m.exec(&dreq{kind: "time", user: m.admin})
	for _, u := range m.users {
		for _, t := range m.toks {
			if m.rich || c.p(2) || t.qt == 1 {
				n := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(t.dec)+3+int64(c.rnd.Intn(4))), nil)
				if m.rich || t.qt == 1 {
					n.Mul(n, big.NewInt(1000))
				}
				m.exec(&dreq{kind: "deposit", user: u, tok: t.id, amt: n})
			}
		}
	}
	pairs := [][2]int{{4, 0}, {4, 1}, {5, 2}, {4, 2}, {3, 0}, {0, 1}, {0, 2}, {1, 2}, {5, 0}}
	c.rnd.Shuffle(len(pairs), func(i, j int) { pairs[i], pairs[j] = pairs[j], pairs[i] })
	n := 1 + c.rnd.Intn(3)
	if m.prop == 16 {
		n = 1 + c.rnd.Intn(2)
	}
	for _, p := range pairs {
		if len(m.mkts) >= n {
			break
		}
		t, q := m.toks[p[0]], m.toks[p[1]]
		m.exec(&dreq{kind: "market", user: t.owner, t: t.id, q: q.id})
		if c.bad {
			return
		}
		if id := m.marketID(t, q); id > 0 {
			k := &dmkt{id, t, q}
			m.mkts = append(m.mkts, k)
			if c.rnd.Intn(3) > 0 {
				m.exec(&dreq{kind: "marketConfig", user: t.owner, m: k, code: 6})
			}
		}
	}
}

func (m *dexm) vmdb(a types.Address) (interfaces.VmDb, error) {
	s := snap(m.w.h)
	ph := types.Hash{}
	if p := m.w.prev[a]; p != nil {
		ph = p.Hash
	}
	return vm_db.NewVmDb(m.w, &a, &s.Hash, &ph)
}

func (m *dexm) marketID(t, q *dtok) int32 {
	v := m.w.stor[types.AddressDexFund][string(append(append([]byte("mk:"), t.id.Bytes()...), q.id.Bytes()...))]
	x := &dexproto.MarketInfo{}
	if len(v) == 0 || proto.Unmarshal(v, x) != nil || !x.Valid {
		return 0
	}
	return x.MarketId
}

func (m *dexm) market(k *dmkt) *dexproto.MarketInfo {
	x := &dexproto.MarketInfo{}
	proto.Unmarshal(m.w.stor[types.AddressDexFund][string(append(append([]byte("mk:"), k.t.id.Bytes()...), k.q.id.Bytes()...))], x)
	return x
}

// exec sends a request and delivers everything it causes.
func (m *dexm) exec(q *dreq) {
	m.issue(q)
	for i := 0; i < 30 && !m.c.bad && m.deliver(); i++ {
	}
}

// issue sends the request's block.
func (m *dexm) issue(q *dreq) {
	c, w := m.c, m.w
	to := types.AddressDexFund
	tok, amt := ledger.ViteTokenId, new(big.Int)
	if c.p(40) { // an amount the method does not ask for
		tok, amt = m.toks[c.rnd.Intn(len(m.toks))].id, big.NewInt(int64(1+c.rnd.Intn(100000)))
	}
	from := q.user
	var data []byte
	F, T := abi.ABIDexFund, abi.ABIDexTrade
	switch q.kind {
	case "deposit":
		tok, amt = q.tok, q.amt
		data = pack(F.PackMethod(m.name("DexFundUserDeposit", "Deposit")))
	case "withdraw":
		data = pack(F.PackMethod(m.name("DexFundUserWithdraw", "Withdraw"), q.tok, q.amt))
	case "transfer":
		data = pack(F.PackMethod("Transfer", q.target, q.tok, q.amt))
	case "agentDeposit":
		tok, amt = q.tok, q.amt
		data = pack(F.PackMethod("AgentDeposit", q.target))
	case "assigned":
		data = pack(F.PackMethod("AssignedWithdraw", q.target, q.tok, q.amt, []byte("label")))
	case "market":
		data = pack(F.PackMethod(m.name("DexFundNewMarket", "OpenNewMarket"), q.t, q.q))
	case "marketConfig":
		data = pack(F.PackMethod(m.name("DexFundMarketOwnerConfig", "MarketAdminConfig"), q.code, q.m.t.id, q.m.q.id, q.target,
			int32(c.rnd.Intn(220)), int32(c.rnd.Intn(220)), c.p(4)))
	case "order":
		data = pack(F.PackMethod(m.name("DexFundNewOrder", "PlaceOrder"), q.m.t.id, q.m.q.id, q.side, q.typ, q.pstr, q.qty))
	case "agentOrder":
		from = *q.agent
		data = pack(F.PackMethod(m.name("DexFundNewAgentOrder", "PlaceAgentOrder"), q.user, q.m.t.id, q.m.q.id, q.side, q.typ, q.pstr, q.qty))
	case "grant":
		data = pack(F.PackMethod(m.name("DexFundConfigMarketsAgent", "ConfigMarketAgents"), q.code, q.target, []types.TokenTypeId{q.m.t.id}, []types.TokenTypeId{q.m.q.id}))
	case "time":
		data = pack(F.PackMethod("NotifyTime", m.now))
	case "inviter":
		data = pack(F.PackMethod(m.name("DexFundNewInviter", "CreateNewInviter")))
	case "bind":
		data = pack(F.PackMethod(m.name("DexFundBindInviteCode", "BindInviteCode"), uint32(q.seq)))
	case "endorse":
		tok, amt = dex.VxTokenId, q.amt
		data = pack(F.PackMethod(m.name("DexFundEndorseVx", "EndorseVx")))
	case "job":
		data = pack(F.PackMethod(m.name("DexFundPeriodJob", "TriggerPeriodJob"), uint64(q.ts), q.code))
	case "stakeMining":
		data = pack(F.PackMethod(m.name("DexFundPledgeForVx", "StakeForMining"), q.code, q.amt))
	case "stakeVip":
		data = pack(F.PackMethod(m.name("DexFundPledgeForVip", "StakeForVIP"), q.code))
	case "stakeSvip":
		data = pack(F.PackMethod(m.name("DexFundPledgeForSuperVip", "StakeForSVIP"), q.code))
	case "stakeFor":
		data = pack(F.PackMethod("StakeForPrincipalSVIP", q.target))
	case "unstake":
		h, _ := types.BytesToHash(q.id)
		data = pack(F.PackMethod("CancelStakeById", h))
	case "lockVx":
		data = pack(F.PackMethod("LockVxForDividend", q.code, q.amt))
	case "switch":
		data = pack(F.PackMethod("SwitchConfig", uint8(1), c.p(2)))
	case "stable":
		data = pack(F.PackMethod("CommonAdminConfig", q.code, q.m.t.id, q.m.q.id, c.p(2), int32(1+c.rnd.Intn(4)), q.amt, types.Address{}))
	case "tradeConfig":
		data = pack(F.PackMethod(m.name("DexFundOwnerConfigTrade", "TradeAdminConfig"), q.code, q.m.t.id, q.m.q.id, c.p(2), q.m.t.id, uint8(1), uint8(1+c.rnd.Intn(4)), q.amt, uint8(1+c.rnd.Intn(4)), q.amt))
	case "cancel":
		to = types.AddressDexTrade
		data = pack(T.PackMethod(m.name("DexTradeCancelOrder", "CancelOrder"), q.id))
	case "cancelHash":
		to = types.AddressDexTrade
		data = pack(T.PackMethod(m.name("DexTradeCancelOrderByHash", "CancelOrderByTransactionHash"), q.hash))
	case "cancelSend":
		data = pack(F.PackMethod("CancelOrderBySendHash", q.hash, q.target, q.t, q.q))
	case "expire":
		to = types.AddressDexTrade
		data = pack(T.PackMethod(m.name("DexTradeCleanExpireOrders", "ClearExpiredOrders"), q.id))
	case "settleForged":
		data = pack(F.PackMethod(m.name("DexFundSettleOrders", "SettleOrders"), q.id))
	case "placeForged":
		to = types.AddressDexTrade
		data = pack(T.PackMethod(m.name("DexTradeNewOrder", "PlaceOrder"), q.id))
	default:
		panic(q.kind)
	}
	r, p := w.send(from, to, tok, amt, data)
	if p != nil {
		m.fail(15, "panic-send", "sending %s panics: %v", q, p)
		return
	}
	c.note("%s v%d: %s -> %v", name(m, from), m.v(), q, r.err)
	if r.none || r.err != nil {
		m.c.r.Count("refused sends", 1)
		return
	}
	if strings.HasSuffix(q.kind, "Forged") {
		m.fail(15, "forged-internal-call", "a user's %s to %s was accepted although only the exchange's own contracts may send it", q.kind, to)
		return
	}
	if q.hash == (types.Hash{}) && !strings.HasPrefix(q.kind, "cancel") {
		q.hash = r.block.Hash
	}
	m.reqs[r.block.Hash] = q
}

func name(m *dexm, a types.Address) string {
	for i, u := range m.users {
		if u == a {
			return fmt.Sprintf("u%d", i)
		}
	}
	switch a {
	case m.admin:
		return "admin"
	case m.outside:
		return "outsider"
	}
	return a.String()
}

// deliver runs one pending receive: any of the oldest ones of each pair of sender and receiver.
func (m *dexm) deliver() bool {
	seen := map[[2]types.Address]bool{}
	var can []*ledger.AccountBlock
	for _, s := range m.w.pend {
		k := [2]types.Address{s.AccountAddress, s.ToAddress}
		if !seen[k] {
			seen[k] = true
			can = append(can, s)
		}
	}
	if len(can) == 0 {
		return false
	}
	s := can[m.c.rnd.Intn(len(can))]
	switch s.ToAddress {
	case types.AddressDexFund:
		m.onFund(s)
	case types.AddressDexTrade:
		m.onTrade(s)
	case types.AddressAsset: // burns
		m.w.take(s)
	default:
		if !types.IsBuiltinContractAddrInUse(s.ToAddress) && types.IsContractAddr(s.ToAddress) {
			m.w.take(s)
			m.w.give(s.ToAddress, s.TokenId, s.Amount)
			return true
		}
		if _, p := m.w.receive(s); p != nil {
			m.fail(15, "panic-other", "a receive of %s panics: %v", s.ToAddress, p)
		}
	}
	return true
}

// absorb brings the caches of stored funds and orders up to date.
func (m *dexm) absorb(a types.Address, set [][2][]byte) (changed map[types.Address]bool) {
	changed = map[types.Address]bool{}
	for _, kv := range set {
		k, v := kv[0], kv[1]
		if a == types.AddressDexFund && bytes.HasPrefix(k, []byte("fd:")) && len(k) == 3+types.AddressSize {
			u, _ := types.BytesToAddress(k[3:])
			changed[u] = true
			for f := range m.fund {
				if f.a == u {
					delete(m.fund, f)
				}
			}
			x := &dexproto.Fund{}
			if err := proto.Unmarshal(v, x); err != nil {
				m.fail(15, "fund-unreadable", "the fund record of %s is unreadable: %v", u, err)
				return
			}
			for _, y := range x.Accounts {
				t, _ := types.BytesToTokenTypeId(y.Token)
				if _, twice := m.fund[fundKey{u, t}]; twice {
					m.fail(15, "fund-token-twice", "the fund of %s lists token %s twice", u, t)
				}
				m.fund[fundKey{u, t}] = dacc{bi(y.Available), bi(y.Locked), bi(y.VxLocked), bi(y.VxUnlocking), bi(y.CancellingStake)}
			}
		}
		if a == types.AddressDexTrade && len(k) == 22 && k[3] < 2 {
			if len(v) == 0 {
				delete(m.book, string(k))
			} else {
				x := &dexproto.Order{}
				if err := proto.Unmarshal(v, x); err != nil {
					m.fail(16, "order-unreadable", "order %x is unreadable: %v", k, err)
					return
				}
				m.book[string(k)] = x
			}
		}
	}
	return
}

// outstanding is what an order still locks.
func outstanding(side bool, o *dexproto.Order) *big.Int {
	if side {
		return sub(bi(o.Quantity), bi(o.ExecutedQuantity))
	}
	return sub(add(bi(o.Amount), bi(o.LockedBuyFee)), add(bi(o.ExecutedAmount), add(bi(o.ExecutedBaseFee), bi(o.ExecutedOperatorFee))))
}

func (m *dexm) mktOf(id []byte) *dmkt {
	n := int32(id[0])<<16 | int32(id[1])<<8 | int32(id[2])
	for _, k := range m.mkts {
		if k.id == n {
			return k
		}
	}
	return nil
}

func serialized(a interface {
	UnpackMethod(v interface{}, name string, input []byte) error
}, data []byte, names ...string) ([]byte, bool) {
	for _, n := range names {
		x := new(dex.ParamSerializedData)
		if a.UnpackMethod(x, n, data) == nil {
			return x.Data, true
		}
	}
	return nil, false
}

// method is the name of the called method.
func fundMethod(data []byte) string {
	if me, err := abi.ABIDexFund.MethodById(data); err == nil {
		return me.Name
	}
	return ""
}

func tradeMethod(data []byte) string {
	if me, err := abi.ABIDexTrade.MethodById(data); err == nil {
		return me.Name
	}
	return ""
}

func sortedKeys(x map[fundKey]dacc) []fundKey {
	var ks []fundKey
	for k := range x {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if c := bytes.Compare(ks[i].a.Bytes(), ks[j].a.Bytes()); c != 0 {
			return c < 0
		}
		return bytes.Compare(ks[i].t.Bytes(), ks[j].t.Bytes()) < 0
	})
	return ks
}
