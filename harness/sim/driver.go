package sim

import (
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strings"

	"github.com/vitelabs/go-vite/v2/common/config"
	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/consensus"
	cabi "github.com/vitelabs/go-vite/v2/vm/contracts/abi"
)

// Driver runs a random but reproducible history on a real node and keeps the shadow
// book-keeping next to it.
type Driver struct {
	W    *World
	A    *Node
	S    *Shadow
	R    *rand.Rand
	Toys []*Toy

	Creations map[types.Address]*Toy // every creation attempted, by address
	Extra     []types.TokenTypeId    // tokens issued during the run
	Stats     map[string]int
	Trace     []string
	base      string
	dirN      int
	Cfg       config.Chain

	// hooks for monitors
	Before      func(op string)
	OnAccept    func(b *ledger.AccountBlock) // after acceptance and shadow update
	PreReceive  func(send *ledger.AccountBlock)
	OnSnapshot  func(sb *ledger.SnapshotBlock, dropped []*ledger.AccountBlock)
	OnReject    func(what string, err error) // the node rejected a block it generated itself
	OnRollback  func(kind string)
	OnRestart   func(flushed bool)
	Weights     map[string]int
	MaxTransfer int64

	OnSqueeze func(u *Key) // u is about to lose its quota

	forced   *Key // who does most of what is done at present
	squeezed map[types.Address]bool
}

var DefaultWeights = map[string]int{
	"transfer": 20, "receive": 16, "call": 16, "contractReceive": 26, "create": 3, "stake": 3, "cancelStake": 2, "token": 6, "gov": 3,
	"snapshot": 10, "partial": 4, "rollback": 1, "rollbackAcc": 2, "flush": 2, "restart": 1, "nonsense": 2, "sbpTransfer": 2, "squeeze": 1,
}

func NewDriver(w *World, base string, r *rand.Rand, cfg config.Chain) (*Driver, error) {
	d := &Driver{W: w, R: r, base: base, Stats: map[string]int{}, Weights: map[string]int{}, Cfg: cfg, MaxTransfer: 1000}
	for k, v := range DefaultWeights {
		d.Weights[k] = v
	}
	n, err := w.OpenCfg(d.NewDir("a"), cfg)
	if err != nil {
		return nil, err
	}
	d.A = n
	for i := 0; i < 8; i++ {
		k := MakeKey(fmt.Sprintf("prod/%d", i))
		w.ByAddr[k.Addr] = k
	}
	d.S = NewShadow(w)
	if err := d.S.LoadGenesis(n); err != nil {
		return nil, err
	}
	return d, nil
}

func (d *Driver) NewDir(p string) string {
	d.dirN++
	x := fmt.Sprintf("%s/%s%d", d.base, p, d.dirN)
	os.MkdirAll(x, 0755)
	return x
}

func (d *Driver) Close() {
	d.A.Close()
	os.RemoveAll(d.base)
}

func (d *Driver) note(format string, a ...interface{}) {
	d.Trace = append(d.Trace, fmt.Sprintf(format, a...))
	if len(d.Trace) > 4000 {
		d.Trace = d.Trace[1000:]
	}
}

func (d *Driver) Tail(n int) string {
	t := d.Trace
	if len(t) > n {
		t = t[len(t)-n:]
	}
	return strings.Join(t, " | ")
}

func (d *Driver) user() *Key {
	if d.forced != nil && d.R.Intn(3) > 0 {
		return d.forced
	}
	return d.W.Users[d.R.Intn(len(d.W.Users))]
}

func (d *Driver) token() types.TokenTypeId {
	l := append([]types.TokenTypeId{Vite, Vite}, d.W.Tokens...)
	l = append(l, d.Extra...)
	return l[d.R.Intn(len(l))]
}

// tokenOf picks a token, mostly one the account holds.
func (d *Driver) tokenOf(a types.Address) types.TokenTypeId {
	if d.R.Intn(10) > 0 {
		var l []types.TokenTypeId
		for t, v := range d.S.Bal[a] {
			if v.Sign() > 0 {
				l = append(l, t)
			}
		}
		sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
		if len(l) > 0 {
			return l[d.R.Intn(len(l))]
		}
	}
	return d.token()
}

func (d *Driver) amountOf(a types.Address, t types.TokenTypeId) *big.Int {
	x := d.amount()
	bal := d.S.BalOf(a, t)
	if x.Cmp(bal) > 0 && d.R.Intn(10) > 0 && bal.Sign() > 0 {
		return new(big.Int).Rand(d.R, bal)
	}
	if d.R.Intn(40) == 0 && t != Vite {
		return new(big.Int).Set(bal) // everything
	}
	return x
}

func (d *Driver) amount() *big.Int {
	switch d.R.Intn(6) {
	case 0:
		return big.NewInt(0)
	case 1:
		return big.NewInt(d.R.Int63n(1000))
	case 2:
		return new(big.Int).Add(Units(d.R.Int63n(d.MaxTransfer)), big.NewInt(d.R.Int63()))
	}
	return Units(1 + d.R.Int63n(d.MaxTransfer))
}

// accepted runs the bookkeeping of a block that entered the ledger.
func (d *Driver) accepted(b *ledger.AccountBlock) {
	d.S.Accept(b)
	if d.OnAccept != nil {
		d.OnAccept(b)
	}
}

func (d *Driver) handle(op string, b *ledger.AccountBlock, err error) bool {
	if err == nil {
		d.Stats[op]++
		d.note("%s %s@%d %s", op, b.AccountAddress.String()[5:11], b.Height, b.Hash.String()[:8])
		d.accepted(b)
		return true
	}
	d.Stats[op+".refused"]++
	d.Stats[op+".refused: "+err.Error()]++
	d.note("%s refused: %v", op, err)
	var own *OwnBlockRejected
	if errors.As(err, &own) && d.OnReject != nil {
		d.OnReject(op, own.Err)
	}
	return false
}

// Step performs one random operation.
func (d *Driver) Step() string {
	tot := 0
	keys := make([]string, 0, len(d.Weights))
	for k := range d.Weights {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		tot += d.Weights[k]
	}
	x := d.R.Intn(tot)
	op := ""
	for _, k := range keys {
		if x < d.Weights[k] {
			op = k
			break
		}
		x -= d.Weights[k]
	}
	if d.Before != nil {
		d.Before(op)
	}
	d.Do(op)
	return op
}

func (d *Driver) Do(op string) {
	switch op {
	case "transfer":
		d.opTransfer(d.user())
	case "sbpTransfer":
		d.opTransfer(d.W.SBPs[d.R.Intn(len(d.W.SBPs))])
	case "receive":
		d.opReceive()
	case "create":
		d.opCreate()
	case "call":
		d.opCall()
	case "contractReceive":
		d.ContractReceiveOne()
	case "stake":
		d.opStake()
	case "cancelStake":
		d.opCancelStake()
	case "squeeze":
		d.DoSqueeze()
	case "token":
		d.opToken()
	case "gov":
		d.opGov()
	case "nonsense":
		d.opNonsense()
	case "snapshot":
		d.DoSnapshot(d.skip(), -1)
	case "partial":
		d.DoSnapshot(d.skip(), d.R.Intn(len(d.S.Unconf)+1))
	case "rollback":
		d.DoRollback(1 + d.R.Intn(6))
	case "rollbackAcc":
		d.DoRollbackAcc()
	case "flush":
		d.A.Flush()
		d.note("flush")
		d.Stats["flush"]++
	case "restart":
		d.DoRestart(true)
	default:
		panic("op " + op)
	}
}

func (d *Driver) skip() int {
	if d.R.Intn(4) == 0 {
		return d.R.Intn(5)
	}
	return 0
}

func (d *Driver) opTransfer(k *Key) {
	to := d.user().Addr
	if d.R.Intn(8) == 0 {
		to = MakeKey(fmt.Sprintf("fresh/%d", d.R.Intn(20))).Addr // accounts without stake
	}
	var data []byte
	if d.R.Intn(4) == 0 {
		data = make([]byte, d.R.Intn(40))
		d.R.Read(data)
	}
	tok := d.tokenOf(k.Addr)
	b, err := d.A.Send(k, to, tok, d.amountOf(k.Addr, tok), data)
	d.handle("transfer", b, err)
}

// pendingOf returns an unreceived send for a user that can be received.
func (d *Driver) opReceive() {
	var l []*ledger.AccountBlock
	for _, k := range append(append([]*Key{}, d.W.Users...), d.W.SBPs...) {
		l = append(l, d.S.Pend[k.Addr]...)
	}
	if len(l) == 0 {
		return
	}
	s := l[d.R.Intn(len(l))]
	if d.PreReceive != nil {
		d.PreReceive(s)
	}
	b, err := d.A.Receive(d.W.ByAddr[s.ToAddress], s.Hash)
	d.handle("receive", b, err)
}

func (d *Driver) opCreate() {
	fail := ""
	switch d.R.Intn(8) {
	case 0:
		fail = "revert"
	case 1:
		fail = "invalid"
	case 2:
		fail = "poor"
	case 3:
		fail = "calls"
	}
	t := d.NewToy(d.R.Intn(4) == 0)
	d.Deploy(t, fail, d.R.Intn(5) > 0)
}

// NewToy describes a random toy contract.
func (d *Driver) NewToy(lib bool) *Toy {
	t := &Toy{Variant: d.R.Intn(3), IsLib: lib}
	if lib {
		return t
	}
	if d.R.Intn(3) > 0 {
		for _, o := range d.LiveToys() {
			if o.IsLib && len(d.S.Chains[o.Addr]) > 0 {
				t.Lib, t.HasLib = o.Addr, true
				break
			}
		}
	}
	if t.HasLib || d.R.Intn(3) == 0 {
		t.Confirm = uint8(1 + d.R.Intn(2))
		if d.R.Intn(3) == 0 {
			t.Seed = 1
		}
	}
	return t
}

// Deploy sends the creation of a toy.
func (d *Driver) Deploy(t *Toy, fail string, stake bool) bool {
	k := d.user()
	rt := LibRuntime()
	if !t.IsLib {
		rt = ToyRuntime(t)
	}
	o := ContractOpt{Ratio: uint8(10 + d.R.Intn(20)), Confirm: t.Confirm, Seed: t.Seed}
	amt := d.amount()
	t.Init, t.Fail, t.Code = d.R.Intn(50), fail, rt
	b, err := d.A.Create(k, InitCode(rt, t.Init, fail), amt, o)
	if !d.handle("create", b, err) {
		return false
	}
	t.Addr = b.ToAddress
	// a creation that was rolled back may have had the same address with other code
	keep := d.Toys[:0:0]
	for _, o := range d.Toys {
		if o.Addr != t.Addr {
			keep = append(keep, o)
		}
	}
	d.Toys = keep
	if d.Creations == nil {
		d.Creations = map[types.Address]*Toy{}
	}
	d.Creations[t.Addr] = t
	if fail == "" || fail == "calls" {
		d.Toys = append(d.Toys, t)
	}
	if stake { // give it quota
		data, _ := cabi.ABIQuota.PackMethod(cabi.MethodNameStakeV3, t.Addr)
		b, err := d.A.Send(k, types.AddressQuota, Vite, Units(1000000), data)
		d.handle("stake", b, err)
	}
	return true
}

// WarmUp deploys some contracts with quota, so that the history proper is interesting at once.
func (d *Driver) WarmUp() {
	drain := func(n int) {
		for i := 0; i < n; i++ {
			d.DoSnapshot(0, -1)
			for j := 0; j < 12; j++ {
				d.ContractReceiveOne()
			}
		}
	}
	d.Deploy(d.NewToy(true), "", true)
	d.Deploy(&Toy{}, "", true)
	d.Deploy(&Toy{Variant: 1}, "", true)
	drain(3)
	d.Deploy(d.NewToy(false), "", true)
	d.Deploy(d.NewToy(false), "", true)
	drain(3)
	// tokens
	for i := 0; i < 3; i++ {
		d.opIssue()
	}
	drain(2)
	for i := 0; i < 6; i++ {
		d.opReceive()
	}
	for _, t := range d.LiveToys() { // fund contracts, so that their sends can succeed
		b, err := d.A.Send(d.user(), t.Addr, Vite, Units(1000), nil)
		d.handle("call", b, err)
		b, err = d.A.Send(d.user(), t.Addr, d.W.Tokens[0], Units(1000), nil)
		d.handle("call", b, err)
	}
	drain(5)
}

// liveToys are the toys whose creation is in the current history.
func (d *Driver) LiveToys() []*Toy {
	var out []*Toy
	for _, t := range d.Toys {
		for _, b := range d.S.Sends {
			if b.BlockType == ledger.BlockTypeSendCreate && b.ToAddress == t.Addr {
				out = append(out, t)
				break
			}
		}
	}
	return out
}

func (d *Driver) ToyByAddr(a types.Address) *Toy {
	for _, t := range d.Toys {
		if t.Addr == a {
			return t
		}
	}
	return nil
}

func (d *Driver) RandomCall(depth int) *ToyCall {
	c := &ToyCall{Slot: big.NewInt(d.R.Int63n(12)), Value: big.NewInt(d.R.Int63n(5)), Token: d.token(), Amount: new(big.Int), Amount2: new(big.Int)}
	if d.R.Intn(5) == 0 {
		c.Value = new(big.Int).Sub(two256, big.NewInt(1+d.R.Int63n(5)))
	}
	if d.R.Intn(6) == 0 {
		c.Slot = new(big.Int).Sub(two256, big.NewInt(1+d.R.Int63n(3)))
	}
	for _, f := range []int{FStore, FCount, FMany, FDelete, FLog, FLib, FEnv} {
		if d.R.Intn(3) == 0 {
			c.Flags |= f
		}
	}
	if d.R.Intn(3) == 0 {
		c.Flags |= FCall
		if d.R.Intn(2) == 0 {
			c.Amount = big.NewInt(d.R.Int63n(1e9))
		} else if d.R.Intn(4) == 0 {
			c.Amount = d.amount()
		}
	}
	if d.R.Intn(5) == 0 {
		c.Flags |= FCall2
		c.Amount2 = big.NewInt(d.R.Int63n(1e9))
	}
	toys := d.LiveToys()
	c.To = d.user().Addr
	if d.R.Intn(2) == 0 && len(toys) > 0 {
		c.To = toys[d.R.Intn(len(toys))].Addr
		if depth < 3 && c.Flags&FCall != 0 {
			c.Nested = d.RandomCall(depth + 1).Data()
		}
	}
	if d.R.Intn(3) == 0 {
		f := []int{FRevert, FInvalid, FLoop, FUnderflow, FBadJump}
		c.Flags |= f[d.R.Intn(len(f))]
	}
	return c
}

func (d *Driver) opCall() {
	toys := d.LiveToys()
	if len(toys) == 0 {
		d.opCreate()
		return
	}
	t := toys[d.R.Intn(len(toys))]
	c := d.RandomCall(0)
	k := d.user()
	tok := d.tokenOf(k.Addr)
	b, err := d.A.Send(k, t.Addr, tok, d.amountOf(k.Addr, tok), c.Data())
	d.handle("call", b, err)
}

// ContractsPending lists contracts with unreceived calls in a stable order.
func (d *Driver) ContractsPending() []types.Address {
	var l []types.Address
	for a, p := range d.S.Pend {
		if len(p) > 0 && types.IsContractAddr(a) {
			l = append(l, a)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	return l
}

func (d *Driver) ContractReceiveOne() bool {
	l := d.ContractsPending()
	if len(l) == 0 {
		return false
	}
	a := l[d.R.Intn(len(l))]
	return d.ReceiveOn(a)
}

// ReceiveOn lets a producer process one pending call of contract a.
func (d *Driver) ReceiveOn(a types.Address) bool {
	front := d.A.Front(a)
	sort.Slice(front, func(i, j int) bool { return front[i].Hash.String() < front[j].Hash.String() })
	if len(front) == 0 {
		d.Stats["contractReceive.nofront"]++
		d.note("nofront %s pending %d type %d", a, len(d.S.Pend[a]), d.S.Pend[a][0].BlockType)
		return false
	}
	s := front[d.R.Intn(len(front))]
	if !d.A.ContractConfirmOK(s) {
		d.Stats["contractReceive.unconfirmed"]++
		return false
	}
	if d.PreReceive != nil {
		d.PreReceive(s)
	}
	b, r, err := d.A.ContractReceive(s)
	if err == nil {
		switch {
		case Failed(b):
			d.Stats["contractReceive.failed"]++
		default:
			d.Stats["contractReceive.ok"]++
		}
		if len(b.SendBlockList) > 0 {
			d.Stats["contractReceive.sends"] += len(b.SendBlockList)
		}
	} else if r != nil && r.Err != nil {
		d.Stats["contractReceive.err."+r.Err.Error()]++
	}
	return d.handle("contractReceive", b, err)
}

func (d *Driver) opStake() {
	k := d.user()
	ben := d.user().Addr
	if toys := d.LiveToys(); len(toys) > 0 && d.R.Intn(2) == 0 {
		ben = toys[d.R.Intn(len(toys))].Addr
	}
	var data []byte
	switch d.R.Intn(4) {
	case 0:
		data, _ = cabi.ABIQuota.PackMethod(cabi.MethodNameStake, ben)
	case 1:
		data, _ = cabi.ABIQuota.PackMethod(cabi.MethodNameStakeV2, ben)
	default:
		data, _ = cabi.ABIQuota.PackMethod(cabi.MethodNameStakeV3, ben)
	}
	amt := Units(134 + d.R.Int63n(3000))
	if d.R.Intn(8) == 0 {
		amt = Units(d.R.Int63n(140))
	}
	tok := Vite
	if d.R.Intn(12) == 0 {
		tok = d.token()
	}
	b, err := d.A.Send(k, types.AddressQuota, tok, amt, data)
	d.handle("stake", b, err)
}

func (d *Driver) opCancelStake() {
	k := d.user()
	var data []byte
	if d.R.Intn(2) == 0 {
		// a random earlier stake by id
		var ids []types.Hash
		for h, b := range d.S.Sends {
			if b.ToAddress == types.AddressQuota && zbig(b.Amount).Sign() > 0 {
				ids = append(ids, h)
			}
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i].String() < ids[j].String() })
		var id types.Hash
		if len(ids) > 0 {
			id = ids[d.R.Intn(len(ids))]
			if d.R.Intn(4) > 0 {
				if o := d.W.ByAddr[d.S.Sends[id].AccountAddress]; o != nil {
					k = o
				}
			}
		}
		data, _ = cabi.ABIQuota.PackMethod(cabi.MethodNameCancelStakeV3, id)
	} else {
		data, _ = cabi.ABIQuota.PackMethod(cabi.MethodNameCancelStakeV2, d.user().Addr, Units(134+d.R.Int63n(2000)))
	}
	b, err := d.A.Send(k, types.AddressQuota, Vite, new(big.Int), data)
	d.handle("cancelStake", b, err)
}

// DoSqueeze takes the quota of a user away while blocks of that user wait for confirmation: a
// snapshot block of somebody who has not seen these blocks confirms that the stake is gone, so
// that they, and what depends on them, have to go.
func (d *Driver) DoSqueeze() bool {
	if d.squeezed == nil {
		d.squeezed = map[types.Address]bool{}
	}
	u := d.user()
	st, err := d.A.Chain.GetStakeBeneficialAmount(u.Addr)
	if err != nil || d.squeezed[u.Addr] || st.Cmp(d.W.Stake) < 0 {
		return false
	}
	amt := new(big.Int).Set(d.W.Stake)
	if d.R.Intn(3) == 0 {
		if x := new(big.Int).Sub(amt, Units(134+d.R.Int63n(400))); x.Cmp(Units(134)) > 0 {
			amt = x
		}
	}
	data, _ := cabi.ABIQuota.PackMethod(cabi.MethodNameCancelStakeV2, u.Addr, amt)
	c, err := d.A.Send(d.W.Root, types.AddressQuota, Vite, new(big.Int), data)
	if !d.handle("squeeze", c, err) {
		return false
	}
	d.squeezed[u.Addr] = true
	if !d.DoSnapshot(0, -1) {
		return false
	}
	ops := []string{"transfer", "transfer", "call", "call", "call", "receive", "receive", "contractReceive", "contractReceive", "contractReceive", "token"}
	d.forced = u
	for n := 4 + d.R.Intn(12); n > 0; n-- {
		d.Do(ops[d.R.Intn(len(ops))])
		if d.OnSqueeze != nil {
			d.OnSqueeze(u)
		}
	}
	d.forced = nil
	for n := 0; n < 40 && d.RecvOf(c.Hash) == nil; n++ {
		if len(d.S.Pend[types.AddressQuota]) == 0 || !d.ReceiveOn(types.AddressQuota) {
			return false
		}
	}
	seen := map[types.Hash]bool{}
	var last *ledger.AccountBlock
	for _, b := range d.S.Unconf {
		seen[b.Hash] = true
		for _, x := range b.SendBlockList {
			seen[x.Hash] = true
		}
		if b.AccountAddress == types.AddressQuota {
			if seen[b.FromBlockHash] {
				return false
			}
			last = b
		}
	}
	e, err := d.A.Slot(0)
	if err != nil || last == nil {
		return false
	}
	ok := d.DoSnapshotOf(e, ledger.SnapshotContent{types.AddressQuota: {Height: last.Height, Hash: last.Hash}})
	if d.R.Intn(3) > 0 { // give it back
		data, _ := cabi.ABIQuota.PackMethod(cabi.MethodNameStakeV3, u.Addr)
		b, err := d.A.Send(d.W.Root, types.AddressQuota, Vite, d.W.Stake, data)
		d.handle("stake", b, err)
	}
	return ok
}

// RecvOf is the block that received send h.
func (d *Driver) RecvOf(h types.Hash) *ledger.AccountBlock { return d.S.RecvOf[h] }

func (d *Driver) pickToken() types.TokenTypeId {
	if len(d.Extra) > 0 && d.R.Intn(4) > 0 {
		return d.Extra[d.R.Intn(len(d.Extra))]
	}
	return d.token()
}

func (d *Driver) opToken() {
	k := d.user()
	// refresh the known tokens
	if m, err := d.A.Chain.GetAllTokenInfo(); err == nil {
		d.Extra = d.Extra[:0]
		for t, i := range m {
			if t != Vite && t != d.W.Tokens[0] && t != d.W.Tokens[1] {
				d.Extra = append(d.Extra, t)
				_ = i
			}
		}
		sort.Slice(d.Extra, func(i, j int) bool { return d.Extra[i].String() < d.Extra[j].String() })
	}
	owner := func(t types.TokenTypeId) *Key {
		if i, err := d.A.Chain.GetTokenInfoById(t); err == nil && i != nil && d.R.Intn(5) > 0 {
			if o := d.W.ByAddr[i.Owner]; o != nil {
				return o
			}
		}
		return k
	}
	var data []byte
	amt, tok := new(big.Int), Vite
	op := "token"
	switch d.R.Intn(7) {
	case 0, 1:
		d.opIssue()
		return
	case 2, 3:
		tok2 := d.pickToken()
		k = owner(tok2)
		data, _ = cabi.ABIAsset.PackMethod(cabi.MethodNameReIssueV2, tok2, big.NewInt(1+d.R.Int63n(1e12)), d.user().Addr)
		op = "reissue"
	case 4:
		tok = d.pickToken()
		k = owner(tok)
		amt = big.NewInt(1 + d.R.Int63n(1e9))
		data, _ = cabi.ABIAsset.PackMethod(cabi.MethodNameBurn)
		op = "burn"
	case 5:
		t2 := d.pickToken()
		k = owner(t2)
		data, _ = cabi.ABIAsset.PackMethod(cabi.MethodNameTransferOwnershipV2, t2, d.user().Addr)
		op = "transferOwner"
	case 6:
		t2 := d.pickToken()
		k = owner(t2)
		data, _ = cabi.ABIAsset.PackMethod(cabi.MethodNameDisableReIssueV2, t2)
		op = "disableReissue"
	}
	b, err := d.A.Send(k, types.AddressAsset, tok, amt, data)
	d.handle(op, b, err)
}

func (d *Driver) opIssue() {
	reissue := d.R.Intn(3) > 0
	ts := big.NewInt(1 + d.R.Int63n(1e12))
	max := new(big.Int)
	if reissue {
		max = new(big.Int).Add(ts, big.NewInt(d.R.Int63n(1e12)))
	}
	data, _ := cabi.ABIAsset.PackMethod(cabi.MethodNameIssueV2, reissue, "Tok "+string(rune('a'+d.R.Intn(26))), fmt.Sprintf("T%d", d.R.Intn(9)), ts, uint8(d.R.Intn(9)), max, d.R.Intn(2) == 0 && reissue)
	b, err := d.A.Send(d.user(), types.AddressAsset, Vite, new(big.Int), data)
	d.handle("issue", b, err)
}

func (d *Driver) opGov() {
	k := d.user()
	var data []byte
	amt := new(big.Int)
	name := fmt.Sprintf("n%d", d.R.Intn(4))
	if d.R.Intn(3) == 0 {
		name = fmt.Sprintf("s%d", 1+d.R.Intn(len(d.W.SBPs)))
	}
	op := "gov"
	switch d.R.Intn(6) {
	case 0:
		data, _ = cabi.ABIGovernance.PackMethod(cabi.MethodNameRegisterV3, name, MakeKey(fmt.Sprintf("prod/%d", d.R.Intn(8))).Addr, d.user().Addr)
		amt = Units(1000000)
		if d.R.Intn(5) == 0 {
			amt = Units(1 + d.R.Int63n(1000000))
		}
		op = "register"
	case 1, 2:
		data, _ = cabi.ABIGovernance.PackMethod(cabi.MethodNameVoteV3, name)
		op = "vote"
	case 3:
		data, _ = cabi.ABIGovernance.PackMethod(cabi.MethodNameCancelVoteV3)
		op = "cancelVote"
	case 4:
		data, _ = cabi.ABIGovernance.PackMethod(cabi.MethodNameRevokeV3, name)
		op = "revoke"
	case 5:
		data, _ = cabi.ABIGovernance.PackMethod(cabi.MethodNameUpdateSBPRewardWithdrawAddress, name, d.user().Addr)
		op = "updateReward"
	}
	b, err := d.A.Send(k, types.AddressGovernance, Vite, amt, data)
	d.handle(op, b, err)
}

// opNonsense sends malformed calls to built-in contracts; most must be refused.
func (d *Driver) opNonsense() {
	to := []types.Address{types.AddressQuota, types.AddressGovernance, types.AddressAsset, types.AddressDexFund, types.AddressDexTrade}[d.R.Intn(5)]
	data := make([]byte, d.R.Intn(120))
	d.R.Read(data)
	if d.R.Intn(2) == 0 && len(data) >= 4 {
		ms := [][]byte{}
		for _, a := range []map[string][]byte{methodIDs(to)} {
			names := make([]string, 0)
			for n := range a {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				ms = append(ms, a[n])
			}
		}
		if len(ms) > 0 {
			copy(data, ms[d.R.Intn(len(ms))])
		}
	}
	b, err := d.A.Send(d.user(), to, d.token(), d.amount(), data)
	d.handle("nonsense", b, err)
}

func methodIDs(a types.Address) map[string][]byte {
	out := map[string][]byte{}
	switch a {
	case types.AddressQuota:
		for n, m := range cabi.ABIQuota.Methods {
			out[n] = m.Id()
		}
	case types.AddressGovernance:
		for n, m := range cabi.ABIGovernance.Methods {
			out[n] = m.Id()
		}
	case types.AddressAsset:
		for n, m := range cabi.ABIAsset.Methods {
			out[n] = m.Id()
		}
	case types.AddressDexFund:
		for n, m := range cabi.ABIDexFund.Methods {
			out[n] = m.Id()
		}
	case types.AddressDexTrade:
		for n, m := range cabi.ABIDexTrade.Methods {
			out[n] = m.Id()
		}
	}
	return out
}

// DoSnapshot confirms the first count unconfirmed blocks (all if negative).
func (d *Driver) DoSnapshot(skip, count int) bool {
	e, err := d.A.Slot(skip)
	if err != nil {
		return false
	}
	return d.DoSnapshotAt(e, count)
}

// DoSnapshotAt produces the snapshot block of the given slot.
func (d *Driver) DoSnapshotAt(e *consensus.Event, count int) bool {
	return d.DoSnapshotOf(e, d.A.Content(count))
}

// DoSnapshotOf produces the snapshot block of the given slot with the given content.
func (d *Driver) DoSnapshotOf(e *consensus.Event, content ledger.SnapshotContent) bool {
	skip := e.Timestamp.Unix()
	sb, dropped, err := d.A.SnapshotOf(e, content)
	if err != nil {
		d.Stats["snapshot.refused"]++
		d.note("snapshot refused: %v", err)
		var own *OwnBlockRejected
		if errors.As(err, &own) && d.OnReject != nil {
			d.OnReject("snapshot", own.Err)
		}
		return false
	}
	d.Stats["snapshot"]++
	if len(dropped) > 0 {
		d.Stats["snapshot.dropped"] += len(dropped)
	}
	d.S.Confirm(sb, dropped)
	d.note("snapshot %d at %d content %d dropped %d", sb.Height, skip, len(sb.SnapshotContent), len(dropped))
	if d.OnSnapshot != nil {
		d.OnSnapshot(sb, dropped)
	}
	return true
}

// DoRollback removes the k latest snapshot blocks.
func (d *Driver) DoRollback(k int) bool {
	h := d.S.Height()
	if h < 2 {
		return false
	}
	if uint64(k) > h-1 {
		k = int(h - 1)
	}
	if k <= 0 {
		return false
	}
	to := h - uint64(k) + 1
	chunks, err := d.A.Chain.DeleteSnapshotBlocksToHeight(to)
	if err != nil {
		d.Stats["rollback.refused"]++
		d.note("rollback to %d refused %v", to, err)
		return false
	}
	keep := len(chunks) > 0 && chunks[0].SnapshotBlock != nil && chunks[0].AccountBlocks == nil
	d.S.RollbackTo(to, keep)
	d.Stats["rollback"]++
	d.note("rollback to %d keep=%v", to, keep)
	if d.OnRollback != nil {
		d.OnRollback("snapshot")
	}
	return true
}

// DoRollbackAcc removes an unconfirmed block and all that depends on it.
func (d *Driver) DoRollbackAcc() bool {
	if len(d.S.Unconf) == 0 {
		return false
	}
	b := d.S.Unconf[d.R.Intn(len(d.S.Unconf))]
	var l []*ledger.AccountBlock
	var err error
	if d.R.Intn(2) == 0 {
		l, err = d.A.Chain.DeleteAccountBlocks(b.AccountAddress, b.Hash)
	} else {
		l, err = d.A.Chain.DeleteAccountBlocksToHeight(b.AccountAddress, b.Height)
	}
	if err != nil {
		d.note("rollbackAcc refused %v", err)
		d.Stats["rollbackAcc.refused"]++
		return false
	}
	want := d.S.DependClosure(b.Hash)
	if len(want) != len(l) {
		d.S.Errs = append(d.S.Errs, fmt.Sprintf("removing %s %d removed %d blocks, %d depend on it", b.AccountAddress, b.Height, len(l), len(want)))
	}
	for _, x := range l {
		if !want[x.Hash] {
			d.S.Errs = append(d.S.Errs, fmt.Sprintf("removing %s %d also removed unrelated %s", b.AccountAddress, b.Height, x.Hash))
		}
	}
	d.S.Drop(l)
	d.Stats["rollbackAcc"]++
	d.note("rollbackAcc %s@%d removed %d", b.AccountAddress.String()[5:11], b.Height, len(l))
	if d.OnRollback != nil {
		d.OnRollback("account")
	}
	return true
}

// DoRestart reopens the ledger after an orderly flush: confirmed blocks are kept.
func (d *Driver) DoRestart(flush bool) error {
	n, err := d.A.Restart(d.NewDir("a"), flush)
	if err != nil {
		d.note("restart failed %v", err)
		return err
	}
	d.A = n
	// unconfirmed blocks live in memory only: a restarted node holds the confirmed ledger
	d.S.bury(d.S.Unconf)
	d.S.Unconf = nil
	d.S.Rebuild()
	d.Stats["restart"]++
	d.note("restart")
	if d.OnRestart != nil {
		d.OnRestart(flush)
	}
	return nil
}

// DeepChain makes a contract call itself until the depth limit stops it.
func (d *Driver) DeepChain() {
	var t *Toy
	for _, o := range d.LiveToys() {
		if !o.IsLib && o.Confirm == 0 && o.Seed == 0 && o.Fail == "" && len(d.S.Chains[o.Addr]) > 0 {
			t = o
			break
		}
	}
	if t == nil {
		return
	}
	c := &ToyCall{Flags: FSelf | FCount, Token: Vite, Amount: Units(int64(d.R.Intn(2)))}
	b, err := d.A.Send(d.user(), t.Addr, Vite, c.Amount, c.Data())
	if !d.handle("call", b, err) {
		return
	}
	for i := 0; i < 1500 && len(d.S.Pend[t.Addr]) > 0; i++ {
		if i%12 == 0 {
			d.DoSnapshot(0, -1)
		}
		if !d.ReceiveOn(t.Addr) {
			d.DoSnapshot(0, -1)
		}
	}
	d.Stats["deepChain"]++
}

// Accepted records a block that entered the ledger outside the driver's own operations.
func (d *Driver) Accepted(op string, b *ledger.AccountBlock) { d.handle(op, b, nil) }

// Token2 picks any known token.
func (d *Driver) Token2() types.TokenTypeId { return d.token() }
