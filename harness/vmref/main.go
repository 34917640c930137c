// Command vmref decides C09 and C10: the real virtual machine executes generated and hostile
// contract code, and everything observable (result class, quota, storage, logs, sends,
// balances, created code, returned data) is compared with an independent interpreter and
// with a second execution from the same state.
package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"runtime"
	"sort"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm"
	"github.com/vitelabs/go-vite/v2/vm/quota"
	"github.com/vitelabs/go-vite/v2/vm/util"
	"github.com/vitelabs/go-vite/v2/vm_db"
	"github.com/vitelabs/go-vite/v2/zverif/vrep"
)

const (
	mReceive = iota
	mCreate
	mRead
)

var modeName = []string{"receive", "create", "offchain"}
var className = []string{"ok", "fail", "out-of-quota", "retry", "panic"}

const oPanic = 4

// result is everything a caller of the machine can observe.
type result struct {
	class    int
	err      string
	kind     byte // block type
	quota    uint64
	stakeQ   uint64
	code     []byte
	ret      []byte
	data     []byte
	storage  map[types.Hash][]byte
	logs     []*ledger.VmLog
	sends    []string
	balances map[types.TokenTypeId]*big.Int
	left     uint64
}

func sendText(kind byte, to types.Address, t types.TokenTypeId, amt *big.Int, data []byte) string {
	return fmt.Sprintf("%d %x %x %s %x", kind, to[:], t[:], amt, data)
}

type tcase struct {
	mode    int
	code    []byte
	data    []byte
	quota   uint64 // granted in receive mode
	amt     *big.Int
	token   types.TokenTypeId
	caller  types.Address
	confirm uint8
	height  uint64
	e       env
}

const usable = 280 * 3571

func (c *tcase) grant(q uint64) {
	k := (q + 279) / 280
	st, err := quota.CalcStakeAmountByQuota(k * 280)
	if err != nil {
		panic(err)
	}
	c.quota = q
	c.e.chain.stake = st
	c.e.chain.quotas = []types.QuotaInfo{{QuotaTotal: k*280 - q, BlockCount: 1, QuotaUsedTotal: 1}}
}

func (c *tcase) real() (res *result) {
	res = &result{storage: map[types.Hash][]byte{}, balances: map[types.TokenTypeId]*big.Int{}}
	m := c.e.chain
	prevHash := types.Hash{}
	if m.prev != nil {
		prevHash = m.prev.Hash
	}
	addr := c.e.self
	db, err := vm_db.NewVmDb(m, &addr, &m.sb.Hash, &prevHash)
	if err != nil {
		panic(err)
	}
	defer func() {
		if p := recover(); p != nil {
			res.class = oPanic
			res.err = fmt.Sprint(p)
		}
	}()
	if c.mode == mRead {
		ret, err := vm.NewVM(nil).OffChainReader(db, c.code, c.data)
		res.ret = append([]byte{}, ret...)
		if err == util.ErrOutOfQuota {
			res.class = oQuota
		} else if err != nil {
			res.class, res.err = oFail, err.Error()
		}
		return
	}
	var st util.GlobalStatus
	if c.e.status != nil {
		s := *c.e.status
		s.n = 0
		st = &s
	}
	block, send := c.e.block.Copy(), c.e.send.Copy()
	out, retry, err := vm.NewVM(nil).RunV2(db, block, send, st)
	if err != nil {
		res.err = err.Error()
	}
	if retry || out == nil {
		res.class = oRetry
		if !retry {
			res.err += " (no retry)"
		}
		return
	}
	b := out.AccountBlock
	res.kind, res.quota, res.stakeQ, res.data = b.BlockType, b.QuotaUsed, b.Quota, b.Data
	switch {
	case err == nil:
		res.class = oOK
	case err == util.ErrOutOfQuota:
		res.class = oQuota
	default:
		res.class = oFail
	}
	for _, kv := range out.VmDb.GetUnsavedStorage() {
		h, e := types.BytesToHash(kv[0])
		if e != nil {
			res.err += " odd storage key " + hex.EncodeToString(kv[0])
			continue
		}
		res.storage[h] = append([]byte{}, kv[1]...)
	}
	res.logs = out.VmDb.GetLogList()
	res.code = out.VmDb.GetUnsavedContractCode()
	for _, s := range b.SendBlockList {
		res.sends = append(res.sends, sendText(s.BlockType, s.ToAddress, s.TokenId, s.Amount, s.Data))
		if s.AccountAddress != addr || s.Fee.Sign() != 0 {
			res.err += " odd send"
		}
	}
	for t, v := range out.VmDb.GetUnsavedBalanceMap() {
		res.balances[t] = v
	}
	return
}

// expect runs the reference.
func (c *tcase) expect() (*result, *ref) {
	res := &result{storage: map[types.Hash][]byte{}, balances: map[types.TokenTypeId]*big.Int{}}
	t := goldenTable(c.height)
	r := &ref{e: &c.e, code: c.code, data: c.data, t: t, caller: c.caller, value: c.amt, token: c.token, from: c.e.block.FromBlockHash,
		storage: map[types.Hash][]byte{}, touched: map[types.Hash]bool{}, written: map[types.Hash]bool{}, ops: map[byte]int{}, balances: map[types.TokenTypeId]*big.Int{}}
	for k, v := range c.e.chain.balances {
		r.balances[k] = new(big.Int).Set(v)
	}
	if c.mode == mRead {
		r.offchain = true
		r.quota = 1000000
		if res.class = r.run(); res.class == oRetry {
			res.class = oFail
		}
		if res.class == oOK {
			res.ret = r.ret
		}
		return res, r
	}
	var total uint64
	if c.mode == mReceive {
		total = c.quota
		base := t.TxQuota + uint64(c.confirm)*t.SnapshotQuota
		if total < base {
			res.class = oRetry
			return res, r
		}
		r.quota = total - base
	} else {
		r.data = c.code
		r.quota = 1000000 - t.CreateTxResponseQuota - uint64(c.confirm)*t.SnapshotQuota
	}
	if r.balances[c.token] == nil {
		r.balances[c.token] = new(big.Int)
	}
	r.balances[c.token].Add(r.balances[c.token], c.amt)
	res.class = r.run()
	res.left = r.quota
	if res.class == oRetry && c.mode == mCreate {
		res.class = oFail
	}
	if res.class == oOK && c.mode == mCreate {
		switch {
		case len(r.ret) > 24575:
			res.class = oFail
		case !r.charge(uint64(len(r.ret)+1) * t.CodeQuota):
			res.class = oQuota
		default:
			res.code = append([]byte{1}, r.ret...)
		}
	}
	if res.class == oOK {
		for _, s := range r.sends {
			b := r.balances[s.token]
			if b == nil {
				b = new(big.Int)
			}
			if types.IsBuiltinContractAddrInUse(s.to) {
				r.unmodeled = "send to a built-in contract"
			}
			if b.Cmp(s.amt) < 0 {
				res.class = oFail
				break
			}
			r.balances[s.token] = new(big.Int).Sub(b, s.amt)
			res.sends = append(res.sends, sendText(ledger.BlockTypeSendCall, s.to, s.token, s.amt, s.data))
		}
	}
	if c.mode == mReceive && res.class != oQuota {
		res.quota = total - res.left
	}
	res.kind = ledger.BlockTypeReceive
	if res.class == oQuota {
		res.kind = ledger.BlockTypeReceiveError
		if c.mode == mReceive && len(c.e.chain.unconfirmed) > 0 {
			res.class = oRetry
		}
	}
	res.balances = r.balances
	if res.class == oOK {
		for k := range r.written {
			res.storage[k] = r.storage[k]
		}
		res.logs = r.logs
		return res, r
	}
	res.code, res.sends, res.logs = nil, nil, nil
	res.balances = c.e.chain.balances
	if c.amt.Sign() > 0 {
		res.sends = []string{sendText(ledger.BlockTypeSendRefund, c.caller, c.token, c.amt, nil)}
	}
	return res, r
}

func hx(b []byte) string {
	if len(b) > 300 {
		return hex.EncodeToString(b[:300]) + "..."
	}
	return hex.EncodeToString(b)
}

// differ names the first difference.
func differ(c *tcase, got, want *result) (string, string) {
	if got.class != want.class {
		return fmt.Sprintf("class-%s-for-%s", className[got.class], className[want.class]), fmt.Sprintf("result is %q (%s), definition gives %q", className[got.class], got.err, className[want.class])
	}
	if c.mode == mRead {
		if !bytes.Equal(got.ret, want.ret) {
			return "returned-data", fmt.Sprintf("returned %s, definition gives %s", hx(got.ret), hx(want.ret))
		}
		return "", ""
	}
	if got.class == oRetry {
		return "", ""
	}
	if got.kind != want.kind {
		return "block-type", fmt.Sprintf("block type %d, definition gives %d", got.kind, want.kind)
	}
	if got.quota != want.quota || got.stakeQ != want.quota {
		return "quota-used", fmt.Sprintf("quota used %d (stake %d), definition gives %d", got.quota, got.stakeQ, want.quota)
	}
	res := byte(0)
	if want.class != oOK {
		res = 1
	}
	if len(got.data) != 33 || got.data[32] != res {
		return "result-code", fmt.Sprintf("block data %x, expected result code %d", got.data, res)
	}
	var keys []types.Hash
	seen := map[types.Hash]bool{}
	for k := range got.storage {
		keys = append(keys, k)
		seen[k] = true
	}
	for k := range want.storage {
		if !seen[k] {
			keys = append(keys, k)
		}
	}
	sort.Slice(keys, func(i, j int) bool { return bytes.Compare(keys[i][:], keys[j][:]) < 0 })
	for _, k := range keys {
		g, ok1 := got.storage[k]
		w, ok2 := want.storage[k]
		if !bytes.Equal(g, w) {
			return "storage", fmt.Sprintf("storage %x is %x, definition gives %x (written: %v, defined: %v)", k[:], g, w, ok1, ok2)
		}
	}
	if len(got.logs) != len(want.logs) {
		return "logs", fmt.Sprintf("%d logs, definition gives %d", len(got.logs), len(want.logs))
	}
	for i, g := range got.logs {
		w := want.logs[i]
		if fmt.Sprint(g.Topics) != fmt.Sprint(w.Topics) || !bytes.Equal(g.Data, w.Data) {
			return "logs", fmt.Sprintf("log %d is %v %s, definition gives %v %s", i, g.Topics, hx(g.Data), w.Topics, hx(w.Data))
		}
	}
	if len(got.sends) != len(want.sends) {
		return "sends", fmt.Sprintf("%d sends %v, definition gives %d %v", len(got.sends), got.sends, len(want.sends), want.sends)
	}
	for i := range got.sends {
		if got.sends[i] != want.sends[i] {
			return "sends", fmt.Sprintf("send %d is %s, definition gives %s", i, got.sends[i], want.sends[i])
		}
	}
	if !bytes.Equal(got.code, want.code) {
		return "created-code", fmt.Sprintf("code %s, definition gives %s", hx(got.code), hx(want.code))
	}
	for t, v := range got.balances {
		w := want.balances[t]
		if w == nil {
			w = new(big.Int)
		}
		if v.Cmp(w) != 0 {
			return "balance", fmt.Sprintf("balance of %x is %s, definition gives %s", t[:], v, w)
		}
	}
	for t, w := range want.balances {
		o := c.e.chain.balances[t]
		if o == nil {
			o = new(big.Int)
		}
		if got.balances[t] == nil && o.Cmp(w) != 0 {
			return "balance", fmt.Sprintf("balance of %x was not written, definition gives %s", t[:], w)
		}
	}
	return "", ""
}

func bytesOf(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

type world struct {
	users, contracts []types.Address
	tokens           []types.TokenTypeId
}

func newCase(r *rand.Rand) (*tcase, *world) {
	w := &world{}
	for i := 0; i < 3; i++ {
		var a types.Address
		copy(a[:], bytesOf(r, 20))
		w.users = append(w.users, a)
	}
	m := &mock{storage: map[types.Hash][]byte{}, metas: map[types.Address]*ledger.ContractMeta{}, balances: map[types.TokenTypeId]*big.Int{}, stake: new(big.Int)}
	for i := 0; i < 3; i++ {
		var a types.Address
		copy(a[:], bytesOf(r, 20))
		a[20] = 1
		w.contracts = append(w.contracts, a)
		if i < 2 {
			m.metas[a] = &ledger.ContractMeta{Gid: types.DELEGATE_GID, QuotaRatio: []uint8{10, 11, 20, 100}[r.Intn(4)]}
		}
	}
	for i := 0; i < 2; i++ {
		var t types.TokenTypeId
		copy(t[:], bytesOf(r, 10))
		w.tokens = append(w.tokens, t)
		if r.Intn(4) > 0 {
			m.balances[t] = big.NewInt(int64(r.Intn(200)))
		}
	}
	w.tokens = append(w.tokens, ledger.ViteTokenId)
	m.balances[ledger.ViteTokenId] = big.NewInt(int64(r.Intn(1000)))
	c := &tcase{caller: w.users[0], token: w.tokens[r.Intn(3)], amt: big.NewInt(int64(r.Intn(4) * r.Intn(50)))}
	if r.Intn(40) == 0 {
		c.amt = new(big.Int).SetBytes(bytesOf(r, 31))
	}
	if r.Intn(8) == 0 {
		c.caller = w.contracts[0]
	}
	c.height = 1300
	var hash types.Hash
	copy(hash[:], bytesOf(r, 32))
	m.sb = snapshotAt(c.height, hash)
	copy(m.self[:], bytesOf(r, 20))
	m.self[20] = 1
	c.confirm = uint8(r.Intn(3))
	m.metas[m.self] = &ledger.ContractMeta{Gid: types.DELEGATE_GID, QuotaRatio: 10, SendConfirmedTimes: c.confirm, SeedConfirmedTimes: c.confirm}
	m.confirmed = r.Intn(3) > 0
	if r.Intn(4) == 0 {
		m.unconfirmed = []*ledger.AccountBlock{{Height: 1}}
	}
	for i := 0; i < 6; i++ {
		if r.Intn(2) == 0 {
			var k types.Hash
			k[31] = byte(i)
			v := bytesOf(r, 1+r.Intn(32))
			if r.Intn(2) == 0 {
				v = []byte{byte(1 + r.Intn(2))}
			}
			if v[0] == 0 {
				v[0] = 1
			}
			m.storage[k] = v
		}
	}
	c.e = env{chain: m, self: m.self}
	if c.confirm > 0 {
		var h2 types.Hash
		copy(h2[:], bytesOf(r, 32))
		c.e.status = &status{sb: snapshotAt(uint64(100+r.Intn(1000)), h2), seed: r.Uint64()}
	}
	switch k := r.Intn(10); {
	case k < 7:
		c.mode = mReceive
	case k < 8:
		c.mode = mCreate
	default:
		c.mode = mRead
	}
	return c, w
}

// seal fills in the blocks once the code and the calldata are chosen.
func (c *tcase) seal(r *rand.Rand) {
	m := c.e.chain
	var from types.Hash
	copy(from[:], bytesOf(r, 32))
	send := &ledger.AccountBlock{BlockType: ledger.BlockTypeSendCall, AccountAddress: c.caller, ToAddress: m.self, Amount: c.amt, TokenId: c.token, Fee: new(big.Int), Hash: from, Height: 7, Data: c.data}
	b := &ledger.AccountBlock{BlockType: ledger.BlockTypeReceive, AccountAddress: m.self, FromBlockHash: from, Height: 1}
	if c.mode == mCreate {
		send.BlockType = ledger.BlockTypeSendCreate
		send.Data = util.GetCreateContractData(c.code, 1, c.confirm, c.confirm, 10, types.DELEGATE_GID)
	} else {
		m.code = append([]byte{1}, c.code...)
		if r.Intn(3) > 0 {
			m.prev = &ledger.AccountBlock{BlockType: ledger.BlockTypeReceive, AccountAddress: m.self, Height: uint64(1 + r.Intn(1000))}
			copy(m.prev.Hash[:], bytesOf(r, 32))
			b.Height, b.PrevHash = m.prev.Height+1, m.prev.Hash
		}
	}
	c.e.block, c.e.send = b, send
}

func (c *tcase) gen(r *rand.Rand, w *world) *gen {
	return &gen{rnd: r, contract: w.contracts, user: w.users, tokens: w.tokens, status: c.e.status != nil || c.mode == mRead, keys: 6}
}

func (c *tcase) describe() string {
	return fmt.Sprintf("mode %s code %s data %s quota %d confirm %d", modeName[c.mode], hx(c.code), hx(c.data), c.quota, c.confirm)
}

type runner struct {
	r    *vrep.R
	prop string
}

// judge executes the case twice and compares.
func (x *runner) judge(name string, c *tcase) (*ref, bool) {
	want, ref := c.expect()
	got := c.real()
	x.r.Count("executions", 2)
	x.r.Count("mode "+modeName[c.mode], 1)
	x.r.Count("class "+className[want.class], 1)
	if x.prop == "C09" {
		for o, n := range ref.ops {
			if n > 0 {
				x.r.Count(fmt.Sprintf("op %02x", o), 1)
			}
		}
	}
	if ref.noStatus {
		if got.class == oPanic {
			x.r.Violate(name, "status-instruction-without-status", "%s: a status instruction run without a confirmed snapshot panics: %s", c.describe(), got.err)
		}
		return ref, false
	}
	if x.prop == "C10" {
		if got.class == oPanic {
			x.r.Violate(name, "panic-"+modeName[c.mode], "%s: panics: %s", c.describe(), got.err)
			return ref, false
		}
		limit := c.quota
		if c.mode == mCreate {
			limit = 0
		}
		if got.quota > limit {
			x.r.Violate(name, "quota-exceeded", "%s: used %d of %d", c.describe(), got.quota, limit)
			return ref, false
		}
		again := c.real()
		if k, d := differ(c, again, got); k != "" && again.class != got.class || k != "" && got.class == oOK {
			x.r.Violate(name, "repeat-"+k, "%s: the second run differs: %s", c.describe(), d)
			return ref, false
		}
		if again.err != got.err || !bytes.Equal(again.data, got.data) {
			x.r.Violate(name, "repeat-result", "%s: first %q %x, then %q %x", c.describe(), got.err, got.data, again.err, again.data)
			return ref, false
		}
	}
	if ref.unmodeled != "" {
		x.r.Count("only repeated: "+ref.unmodeled, 1)
		return ref, true
	}
	if k, d := differ(c, got, want); k != "" {
		last := byte(0)
		if ref.pc < uint64(len(c.code)) {
			last = c.code[ref.pc]
		}
		x.r.Violate(name, "differs-"+k, "%s: %s (reference ended at pc %d op %02x after %d steps)", c.describe(), d, ref.pc, last, ref.steps)
		return ref, false
	}
	return ref, true
}

// program runs one C09 case: several instructions with chosen operands, everything dumped.
func (x *runner) program(name string) {
	r := x.r.Rand(name)
	c, w := newCase(r)
	g := c.gen(r, w)
	style := r.Intn(3)
	if style == 0 {
		// one instruction, sentinels below, boundary operands
		n := 2 + r.Intn(5+r.Intn(18))
		for i := 0; i < n; i++ {
			g.push(g.value())
		}
		g.one()
	} else {
		for i := 3 + r.Intn(12*style); i > 0; i-- {
			g.one()
		}
	}
	if style > 0 && r.Intn(6) == 0 {
		g.end()
	} else if c.mode == mReceive {
		g.dump(24)
		g.emit(0)
	} else {
		g.dumpReturn(40)
	}
	c.code = g.code
	c.data = bytesOf(r, r.Intn(140))
	c.seal(r)
	if c.mode == mReceive {
		c.grant(usable)
	}
	ref, ok := x.judge(name, c)
	x.r.Eval(hex.EncodeToString(c.code)+fmt.Sprint(c.mode), ok && ref.steps > 3)
	if x.r.NumViolations() == 0 {
		x.r.Sample(fmt.Sprintf("%s -> %d steps agree", c.describe(), ref.steps))
	}
}

// hostile runs one C10 case.
func (x *runner) hostile(name string) {
	r := x.r.Rand(name)
	c, w := newCase(r)
	g := c.gen(r, w)
	if r.Intn(30) == 0 {
		g.status = true
	}
	loop := false
	if r.Intn(2) == 0 {
		c.code, loop = g.hostile()
		if loop && r.Intn(8) > 0 {
			c.mode = mReceive
		}
	} else {
		for i := 3 + r.Intn(30); i > 0; i-- {
			g.one()
		}
		g.end()
		c.code = g.code
	}
	c.data = bytesOf(r, r.Intn(140))
	c.seal(r)
	if loop && c.mode == mReceive && r.Intn(10) > 0 {
		c.grant(uint64(21000 + r.Intn(30000)))
	} else if c.mode == mReceive {
		// find the exact cost, then grant around it
		c.grant(usable)
		want, _ := c.expect()
		q := uint64(usable)
		switch r.Intn(6) {
		case 0:
			q = want.quota
		case 1:
			if want.quota > 0 {
				q = want.quota - 1
			}
		case 2:
			q = want.quota + 1
		case 3:
			if want.quota > 0 {
				q = uint64(r.Int63n(int64(want.quota)))
			}
		}
		if q > usable {
			q = usable
		}
		c.grant(q)
	}
	ref, ok := x.judge(name, c)
	x.r.Max("steps", int64(ref.steps))
	x.r.Eval(hex.EncodeToString(c.code)+fmt.Sprint(c.mode, c.quota), ok && ref.steps > 3)
	if x.r.NumViolations() == 0 {
		x.r.Sample(fmt.Sprintf("%s -> repeated identically after %d steps", c.describe(), ref.steps))
	}
}

// probeSar finds out what the machine answers for the arithmetic right shift of zero by 256.
func (x *runner) probeSar() {
	r := rand.New(rand.NewSource(1))
	c, _ := newCase(r)
	c.mode = mReceive
	c.code = []byte{0x60, 0, 0x61, 1, 0, 0x1d, 0x60, 9, 0x55, 0}
	c.seal(r)
	c.grant(usable)
	got := c.real()
	var k types.Hash
	k[31] = 9
	v := new(big.Int).SetBytes(got.storage[k])
	if v.Sign() != 0 && v.Cmp(wrap(big.NewInt(-1))) == 0 {
		sarZero = v
		if x.prop == "C09" {
			x.r.Violate("sar", "arithmetic-shift-of-zero", "0 >> 256 (SAR) gives %x, the definition gives 0", v)
		}
	}
}

var rules = map[string]string{
	"C09": "one program executed by the machine and by the reference, stack, memory, storage, logs and sends dumped and compared; distinct by code",
	"C10": "one hostile program executed twice under a quota chosen around its exact cost, compared with itself and the reference; distinct by code, mode and quota",
}

func main() {
	id := os.Args[1]
	r := vrep.Open(id, rules[id])
	initForks()
	vm.InitVMConfig(false, false, false, false, "")
	x := &runner{r, id}
	x.probeSar()
	if id == "C10" {
		x.tables()
	}
	n := r.Scale(140000, 400000)
	if id == "C10" {
		n = r.Scale(30000, 120000)
	}
	// keep the machine's memory visible: a runaway allocation must end as a failure
	const chunk = 50
	vrep.Parallel((n+chunk-1)/chunk, runtime.NumCPU(), func(gi int) {
		for i := gi * chunk; i < (gi+1)*chunk && i < n; i++ {
			name := fmt.Sprintf("v%d", i)
			if !r.Want(name) || r.OverBudget() || r.NumViolations() > 8 {
				continue
			}
			r.Guard(name, "panic", func() {
				if id == "C09" {
					x.program(name)
				} else {
					x.hostile(name)
				}
			})
		}
	})
	r.Close()
}
