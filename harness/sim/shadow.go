package sim

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	cabi "github.com/vitelabs/go-vite/v2/vm/contracts/abi"
)

// Chunk is a snapshot block with the account blocks it confirms, in insertion order.
type Chunk struct {
	Snap   *ledger.SnapshotBlock
	Blocks []*ledger.AccountBlock
}

// Shadow is the independent book-keeping of a ledger: everything in it follows from the
// accepted blocks and the genesis configuration only.
type Shadow struct {
	W       *World
	Genesis map[types.Address][]*ledger.AccountBlock // genesis account chains
	Chunks  []Chunk                                  // Chunks[i].Snap.Height == i+2
	Unconf  []*ledger.AccountBlock

	Bal    map[types.Address]map[types.TokenTypeId]*big.Int
	Chains map[types.Address][]*ledger.AccountBlock
	Sends  map[types.Hash]*ledger.AccountBlock // every send, contract sends included
	Holder map[types.Hash]*ledger.AccountBlock // send hash -> block that carries it
	RecvOf map[types.Hash]*ledger.AccountBlock
	Pend   map[types.Address][]*ledger.AccountBlock // unreceived sends by addressee, in order of appearance
	Supply map[types.TokenTypeId]*big.Int           // what conservation demands
	Burned *big.Int                                 // fees burned
	Errs   []string                                 // rule breaks noticed while applying

	Ghosts     []*ledger.AccountBlock  // removed blocks, newest last
	GhostSnaps []*ledger.SnapshotBlock // removed snapshots
}

func NewShadow(w *World) *Shadow {
	s := &Shadow{W: w, Genesis: map[types.Address][]*ledger.AccountBlock{}}
	s.Rebuild()
	return s
}

func (s *Shadow) LoadGenesis(n *Node) error {
	var addrs []types.Address
	n.Chain.IterateAccounts(func(a types.Address, id uint64, err error) bool { addrs = append(addrs, a); return true })
	for _, a := range addrs {
		h, err := n.Chain.GetLatestAccountHeight(a)
		if err != nil {
			return err
		}
		for i := uint64(1); i <= h; i++ {
			b, err := n.Chain.GetAccountBlockByHeight(a, i)
			if err != nil || b == nil {
				return fmt.Errorf("genesis block %s %d: %v", a, i, err)
			}
			s.Genesis[a] = append(s.Genesis[a], b)
		}
	}
	s.Rebuild()
	return nil
}

func (s *Shadow) Rebuild() {
	s.Bal = map[types.Address]map[types.TokenTypeId]*big.Int{}
	s.Chains = map[types.Address][]*ledger.AccountBlock{}
	s.Sends = map[types.Hash]*ledger.AccountBlock{}
	s.Holder = map[types.Hash]*ledger.AccountBlock{}
	s.RecvOf = map[types.Hash]*ledger.AccountBlock{}
	s.Pend = map[types.Address][]*ledger.AccountBlock{}
	s.Supply = map[types.TokenTypeId]*big.Int{}
	s.Burned = new(big.Int)
	for ah, m := range s.W.Genesis.AccountBalanceMap {
		a, err := types.HexToAddress(ah)
		if err != nil {
			panic(err)
		}
		for th, v := range m {
			t, _ := types.HexToTokenTypeId(th)
			s.add(a, t, v)
			if s.Supply[t] == nil {
				s.Supply[t] = new(big.Int)
			}
			s.Supply[t].Add(s.Supply[t], v)
		}
	}
	for a, bs := range s.Genesis {
		s.Chains[a] = append([]*ledger.AccountBlock{}, bs...)
	}
	for _, c := range s.Chunks {
		for _, b := range c.Blocks {
			s.apply(b)
		}
	}
	for _, b := range s.Unconf {
		s.apply(b)
	}
}

func (s *Shadow) add(a types.Address, t types.TokenTypeId, v *big.Int) {
	if s.Bal[a] == nil {
		s.Bal[a] = map[types.TokenTypeId]*big.Int{}
	}
	if s.Bal[a][t] == nil {
		s.Bal[a][t] = new(big.Int)
	}
	s.Bal[a][t].Add(s.Bal[a][t], v)
}
func (s *Shadow) sub(a types.Address, t types.TokenTypeId, v *big.Int) {
	s.add(a, t, new(big.Int).Neg(v))
	if s.Bal[a][t].Sign() < 0 {
		s.Errs = append(s.Errs, fmt.Sprintf("balance of %s token %s negative: %s", a, t, s.Bal[a][t]))
	}
}
func (s *Shadow) BalOf(a types.Address, t types.TokenTypeId) *big.Int {
	if s.Bal[a] == nil || s.Bal[a][t] == nil {
		return new(big.Int)
	}
	return s.Bal[a][t]
}
func (s *Shadow) supply(t types.TokenTypeId) *big.Int {
	if s.Supply[t] == nil {
		s.Supply[t] = new(big.Int)
	}
	return s.Supply[t]
}
func zbig(x *big.Int) *big.Int {
	if x == nil {
		return new(big.Int)
	}
	return x
}

// Failed reports whether a contract receive block records a failed call.
func Failed(b *ledger.AccountBlock) bool {
	return len(b.Data) == 33 && b.Data[32] != 0
}

var burnSelectors = func() [][]byte {
	var out [][]byte
	for _, n := range []string{cabi.MethodNameBurn} {
		if m, ok := cabi.ABIAsset.Methods[n]; ok {
			out = append(out, m.Id())
		}
	}
	return out
}()

func isBurn(send *ledger.AccountBlock) bool {
	if send.ToAddress != types.AddressAsset || len(send.Data) < 4 {
		return false
	}
	for _, x := range burnSelectors {
		if bytes.Equal(x, send.Data[:4]) {
			return true
		}
	}
	return false
}

func (s *Shadow) noteSend(b, holder *ledger.AccountBlock) {
	s.Sends[b.Hash] = b
	s.Holder[b.Hash] = holder
	if r := s.RecvOf[b.Hash]; r == nil {
		s.Pend[b.ToAddress] = append(s.Pend[b.ToAddress], b)
	}
}

func (s *Shadow) apply(b *ledger.AccountBlock) {
	a := b.AccountAddress
	ch := s.Chains[a]
	if want := uint64(len(ch) + 1); b.Height != want {
		s.Errs = append(s.Errs, fmt.Sprintf("account %s: block height %d accepted where %d is next", a, b.Height, want))
	}
	var prev types.Hash
	if len(ch) > 0 {
		prev = ch[len(ch)-1].Hash
	}
	if b.PrevHash != prev {
		s.Errs = append(s.Errs, fmt.Sprintf("account %s height %d: previous hash %s, chain head %s", a, b.Height, b.PrevHash, prev))
	}
	s.Chains[a] = append(ch, b)
	if b.IsSendBlock() {
		s.sub(a, b.TokenId, zbig(b.Amount))
		if f := zbig(b.Fee); f.Sign() > 0 {
			s.sub(a, Vite, f)
			s.supply(Vite).Sub(s.supply(Vite), f)
			s.Burned.Add(s.Burned, f)
		}
		s.noteSend(b, b)
		return
	}
	send := s.Sends[b.FromBlockHash]
	if send == nil {
		s.Errs = append(s.Errs, fmt.Sprintf("account %s height %d receives unknown send %s", a, b.Height, b.FromBlockHash))
		return
	}
	if send.ToAddress != a {
		s.Errs = append(s.Errs, fmt.Sprintf("send %s to %s was received by %s", send.Hash, send.ToAddress, a))
	}
	if o := s.RecvOf[send.Hash]; o != nil {
		s.Errs = append(s.Errs, fmt.Sprintf("send %s received twice: %s and %s", send.Hash, o.Hash, b.Hash))
	}
	s.RecvOf[send.Hash] = b
	l := s.Pend[send.ToAddress]
	for i, x := range l {
		if x.Hash == send.Hash {
			s.Pend[send.ToAddress] = append(append([]*ledger.AccountBlock{}, l[:i]...), l[i+1:]...)
			break
		}
	}
	s.add(a, send.TokenId, zbig(send.Amount))
	if Failed(b) && zbig(send.Fee).Sign() > 0 && send.BlockType != ledger.BlockTypeSendCreate && b.Data[32] == 1 {
		// the fee of a failed built-in call is given back
		s.add(a, Vite, send.Fee)
		s.supply(Vite).Add(s.supply(Vite), send.Fee)
		s.Burned.Sub(s.Burned, send.Fee)
	}
	if isBurn(send) && !Failed(b) {
		s.sub(a, send.TokenId, send.Amount)
		s.supply(send.TokenId).Sub(s.supply(send.TokenId), send.Amount)
	}
	for _, x := range b.SendBlockList {
		if x.BlockType == ledger.BlockTypeSendReward {
			s.supply(x.TokenId).Add(s.supply(x.TokenId), zbig(x.Amount))
		} else {
			s.sub(a, x.TokenId, zbig(x.Amount))
			if f := zbig(x.Fee); f.Sign() > 0 {
				s.sub(a, Vite, f)
				s.supply(Vite).Sub(s.supply(Vite), f)
				s.Burned.Add(s.Burned, f)
			}
		}
		s.noteSend(x, b)
	}
}

// Accept records an accepted account block.
func (s *Shadow) Accept(b *ledger.AccountBlock) {
	s.Unconf = append(s.Unconf, b)
	s.apply(b)
}

// Confirm records an accepted snapshot block; invalid are the unconfirmed blocks the node
// dropped on that occasion.
func (s *Shadow) Confirm(sb *ledger.SnapshotBlock, invalid []*ledger.AccountBlock) {
	c := Chunk{Snap: sb}
	var rest []*ledger.AccountBlock
	for _, b := range s.Unconf {
		if hh, ok := sb.SnapshotContent[b.AccountAddress]; ok && b.Height <= hh.Height {
			c.Blocks = append(c.Blocks, b)
		} else {
			rest = append(rest, b)
		}
	}
	s.Chunks = append(s.Chunks, c)
	s.Unconf = rest
	if len(invalid) > 0 {
		s.Drop(invalid)
	}
}

func (s *Shadow) Drop(bs []*ledger.AccountBlock) {
	s.bury(bs)
	del := map[types.Hash]bool{}
	for _, b := range bs {
		del[b.Hash] = true
	}
	var rest []*ledger.AccountBlock
	for _, b := range s.Unconf {
		if !del[b.Hash] {
			rest = append(rest, b)
		}
	}
	s.Unconf = rest
	s.Rebuild()
}

// DependClosure is the set of unconfirmed blocks that cannot stay without block h.
func (s *Shadow) DependClosure(h types.Hash) map[types.Hash]bool {
	del := map[types.Hash]bool{}
	badAddr := map[types.Address]bool{}
	badSend := map[types.Hash]bool{}
	for _, b := range s.Unconf {
		if b.Hash == h || badAddr[b.AccountAddress] || (b.IsReceiveBlock() && badSend[b.FromBlockHash]) {
			del[b.Hash] = true
			badAddr[b.AccountAddress] = true
			badSend[b.Hash] = true
			for _, x := range b.SendBlockList {
				badSend[x.Hash] = true
			}
		}
	}
	return del
}

// RollbackTo removes snapshot blocks >= height; keep tells whether the account blocks of the
// first removed snapshot stay as unconfirmed blocks.
func (s *Shadow) RollbackTo(height uint64, keep bool) {
	i := int(height) - 2
	s.bury(s.Unconf)
	for _, c := range s.Chunks[i:] {
		s.bury(c.Blocks)
		s.GhostSnaps = append(s.GhostSnaps, c.Snap)
	}
	s.Unconf = nil
	if keep {
		s.Unconf = append([]*ledger.AccountBlock{}, s.Chunks[i].Blocks...)
	}
	s.Chunks = append([]Chunk{}, s.Chunks[:i]...)
	s.Rebuild()
}

// bury remembers removed blocks, to ask for them later.
func (s *Shadow) bury(bs []*ledger.AccountBlock) {
	s.Ghosts = append(s.Ghosts, bs...)
	if n := len(s.Ghosts); n > 60 {
		s.Ghosts = append([]*ledger.AccountBlock{}, s.Ghosts[n-60:]...)
	}
	if n := len(s.GhostSnaps); n > 20 {
		s.GhostSnaps = append([]*ledger.SnapshotBlock{}, s.GhostSnaps[n-20:]...)
	}
}

// CheckGhosts asks for removed blocks that were not inserted again: nothing may know them.
func (s *Shadow) CheckGhosts(n *Node) []string {
	var out []string
	here := map[types.Hash]bool{}
	for _, c := range s.Chunks {
		here[c.Snap.Hash] = true
	}
	for _, bs := range s.Chains {
		for _, b := range bs {
			here[b.Hash] = true
			for _, x := range b.SendBlockList {
				here[x.Hash] = true
			}
		}
	}
	no := func(what string, yes bool, h types.Hash) {
		if yes {
			out = append(out, fmt.Sprintf("%s still knows the removed block %s", what, h))
		}
	}
	c := n.Chain
	for _, g := range s.Ghosts {
		for _, b := range append([]*ledger.AccountBlock{g}, g.SendBlockList...) {
			h := b.Hash
			if here[h] {
				continue
			}
			x, err := c.GetAccountBlockByHash(h)
			no("GetAccountBlockByHash", x != nil && err == nil, h)
			ok, err := c.IsAccountBlockExisted(h)
			no("IsAccountBlockExisted", ok && err == nil, h)
			x, err = c.GetCompleteBlockByHash(h)
			no("GetCompleteBlockByHash", x != nil && err == nil, h)
			if b.IsSendBlock() {
				r, err := c.GetReceiveAbBySendAb(h)
				no("GetReceiveAbBySendAb", r != nil && err == nil, h)
				ok, err = c.IsReceived(h)
				no("IsReceived", ok && err == nil, h)
				dp, err := c.GetCallDepth(h)
				no("GetCallDepth", dp != 0 && err == nil, h)
			}
			if b == g {
				sb, err := c.GetConfirmSnapshotHeaderByAbHash(h)
				no("GetConfirmSnapshotHeaderByAbHash", sb != nil && err == nil, h)
				if hh, err := c.GetAccountBlockHashByHeight(b.AccountAddress, b.Height); err == nil && hh != nil && *hh == h {
					no("GetAccountBlockHashByHeight", true, h)
				}
				if b.LogHash != nil {
					used := false
					for _, o := range s.Chains[b.AccountAddress] {
						used = used || (o.LogHash != nil && *o.LogHash == *b.LogHash)
					}
					l, err := c.GetVmLogList(b.LogHash)
					no("GetVmLogList", !used && len(l) > 0 && err == nil, h)
				}
			}
		}
	}
	for _, g := range s.GhostSnaps {
		h := g.Hash
		if here[h] {
			continue
		}
		ok, err := c.IsSnapshotBlockExisted(h)
		no("IsSnapshotBlockExisted", ok && err == nil, h)
		ht, err := c.GetSnapshotHeightByHash(h)
		no("GetSnapshotHeightByHash", ht != 0 && err == nil, h)
		x, err := c.GetSnapshotHeaderByHash(h)
		no("GetSnapshotHeaderByHash", x != nil && err == nil, h)
		x, err = c.GetSnapshotBlockByHash(h)
		no("GetSnapshotBlockByHash", x != nil && err == nil, h)
		if hh, err := c.GetSnapshotHashByHeight(g.Height); err == nil && hh != nil && *hh == h {
			no("GetSnapshotHashByHeight", true, h)
		}
	}
	sort.Strings(out)
	return out
}

func (s *Shadow) Height() uint64 { return uint64(len(s.Chunks) + 1) }

func (s *Shadow) Clone() *Shadow {
	n := &Shadow{W: s.W, Genesis: s.Genesis, Chunks: append([]Chunk{}, s.Chunks...), Unconf: append([]*ledger.AccountBlock{}, s.Unconf...)}
	n.Rebuild()
	return n
}

// CheckBalances compares the ledger's balances with the book-keeping, and the sum of all
// balances and in-transit amounts with the supply.
func (s *Shadow) CheckBalances(n *Node) []string {
	var out []string
	sum := map[types.TokenTypeId]*big.Int{}
	seen := map[types.Address]bool{}
	check := func(a types.Address) {
		if seen[a] {
			return
		}
		seen[a] = true
		m, err := n.Chain.GetBalanceMap(a)
		if err != nil {
			out = append(out, fmt.Sprintf("GetBalanceMap(%s): %v", a, err))
			return
		}
		toks := map[types.TokenTypeId]bool{}
		for t, v := range m {
			toks[t] = true
			if sum[t] == nil {
				sum[t] = new(big.Int)
			}
			sum[t].Add(sum[t], v)
			if v.Sign() < 0 {
				out = append(out, fmt.Sprintf("balance of %s token %s is negative: %s", a, t, v))
			}
		}
		for t := range s.Bal[a] {
			toks[t] = true
		}
		for t := range toks {
			if zbig(m[t]).Cmp(s.BalOf(a, t)) != 0 {
				out = append(out, fmt.Sprintf("balance of %s token %s is %s, its blocks add up to %s", a, t, zbig(m[t]), s.BalOf(a, t)))
			}
			v, err := n.Chain.GetBalance(a, t)
			if err != nil || v.Cmp(zbig(m[t])) != 0 {
				out = append(out, fmt.Sprintf("GetBalance(%s,%s)=%s, GetBalanceMap says %s (%v)", a, t, v, zbig(m[t]), err))
			}
		}
	}
	n.Chain.IterateAccounts(func(a types.Address, id uint64, err error) bool { check(a); return true })
	for a := range s.Bal {
		check(a)
	}
	for _, l := range s.Pend {
		for _, b := range l {
			if sum[b.TokenId] == nil {
				sum[b.TokenId] = new(big.Int)
			}
			sum[b.TokenId].Add(sum[b.TokenId], zbig(b.Amount))
		}
	}
	toks := map[types.TokenTypeId]bool{}
	for t := range sum {
		toks[t] = true
	}
	for t := range s.Supply {
		toks[t] = true
	}
	for t := range toks {
		if zbig(sum[t]).Cmp(zbig(s.Supply[t])) != 0 {
			out = append(out, fmt.Sprintf("token %s: balances plus in-transit sends are %s, issued minus burned is %s", t, zbig(sum[t]), zbig(s.Supply[t])))
		}
	}
	sort.Strings(out)
	return out
}

// CheckChains verifies that every account chain in the ledger is the accepted one and that
// the unreceived sets are exactly the sends without receive.
func (s *Shadow) CheckChains(n *Node) []string {
	var out []string
	// the raw index first: the paged query below repairs entries it cannot resolve
	all, err := n.Chain.LoadAllOnRoad()
	if err != nil {
		out = append(out, fmt.Sprintf("LoadAllOnRoad: %v", err))
	}
	for a, l := range all {
		m := map[types.Hash]int{}
		for _, h := range l {
			m[h]++
		}
		if len(m) != len(l) || len(l) != len(s.Pend[a]) {
			out = append(out, fmt.Sprintf("LoadAllOnRoad: %s has %d entries (%d distinct), %d sends are unreceived", a, len(l), len(m), len(s.Pend[a])))
		}
		for _, b := range s.Pend[a] {
			delete(m, b.Hash)
		}
		for h := range m {
			out = append(out, fmt.Sprintf("LoadAllOnRoad: %s has %s, which is not an unreceived send", a, h))
		}
	}
	for a, l := range s.Pend {
		if len(l) > 0 && len(all[a]) == 0 {
			out = append(out, fmt.Sprintf("LoadAllOnRoad misses %s with %d unreceived sends", a, len(l)))
		}
	}
	addrs := map[types.Address]bool{}
	for a := range s.Chains {
		addrs[a] = true
	}
	for a := range s.Pend {
		addrs[a] = true
	}
	n.Chain.IterateAccounts(func(a types.Address, id uint64, err error) bool { addrs[a] = true; return true })
	for a := range addrs {
		want := s.Chains[a]
		lb, err := n.Chain.GetLatestAccountBlock(a)
		if err != nil {
			out = append(out, fmt.Sprintf("GetLatestAccountBlock(%s): %v", a, err))
			continue
		}
		var lh uint64
		if lb != nil {
			lh = lb.Height
		}
		if lh != uint64(len(want)) {
			out = append(out, fmt.Sprintf("account %s: latest height %d, accepted blocks %d", a, lh, len(want)))
			continue
		}
		if lh > 0 && lb.Hash != want[lh-1].Hash {
			out = append(out, fmt.Sprintf("account %s: latest block %s, accepted %s", a, lb.Hash, want[lh-1].Hash))
		}
		if lh > 0 {
			got, err := n.Chain.GetAccountBlocks(lb.Hash, lh)
			if err != nil || uint64(len(got)) != lh {
				out = append(out, fmt.Sprintf("account %s: range query of %d blocks gave %d (%v)", a, lh, len(got), err))
			} else {
				for i, b := range got {
					w := want[len(want)-1-i]
					if b.Hash != w.Hash || b.Height != w.Height || b.PrevHash != w.PrevHash {
						out = append(out, fmt.Sprintf("account %s height %d: ledger has %s (height %d), accepted %s", a, w.Height, b.Hash, b.Height, w.Hash))
						break
					}
				}
			}
		}
		if nb, _ := n.Chain.GetAccountBlockByHeight(a, lh+1); nb != nil {
			out = append(out, fmt.Sprintf("account %s: a block exists above the latest height %d", a, lh))
		}
		// unreceived
		got := map[types.Hash]int{}
		for page := 0; ; page++ {
			l, err := n.Chain.GetOnRoadBlocksByAddr(a, page, 50)
			if err != nil {
				out = append(out, fmt.Sprintf("GetOnRoadBlocksByAddr(%s): %v", a, err))
				break
			}
			for _, b := range l {
				got[b.Hash]++
				if b.ToAddress != a {
					out = append(out, fmt.Sprintf("unreceived list of %s has send %s addressed to %s", a, b.Hash, b.ToAddress))
				}
			}
			if len(l) < 50 {
				break
			}
		}
		for _, b := range s.Pend[a] {
			if got[b.Hash] != 1 {
				out = append(out, fmt.Sprintf("send %s to %s has no receive but is listed %d times as unreceived", b.Hash, a, got[b.Hash]))
			}
			delete(got, b.Hash)
		}
		for h := range got {
			out = append(out, fmt.Sprintf("unreceived list of %s has %s, which is not an unreceived send", a, h))
		}
	}
	for h := range s.Sends {
		r := s.RecvOf[h]
		is, err := n.Chain.IsReceived(h)
		if err != nil || is != (r != nil) {
			out = append(out, fmt.Sprintf("IsReceived(%s)=%v (%v), receive block exists: %v", h, is, err, r != nil))
		}
		rb, err := n.Chain.GetReceiveAbBySendAb(h)
		if err != nil || (rb == nil) != (r == nil) || (r != nil && rb.Hash != r.Hash) {
			out = append(out, fmt.Sprintf("GetReceiveAbBySendAb(%s) wrong (%v)", h, err))
		}
	}
	sort.Strings(out)
	return out
}

func Brief(l []string) string {
	if len(l) > 6 {
		return strings.Join(l[:6], "\n") + fmt.Sprintf("\n... %d more", len(l)-6)
	}
	return strings.Join(l, "\n")
}
